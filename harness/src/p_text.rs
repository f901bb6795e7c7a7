//! Rendering of values: C02 addresses, C03 commands, C04 xtext, C21 codes, C22 identities, C24 errors.

use crate::h::*;
use crate::net::*;
use crate::sx::*;
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::commands::*;
use async_smtp::error::Error;
use async_smtp::extension::*;
use async_smtp::response::*;
use async_smtp::util::XText;
use async_smtp::*;
use std::ffi::OsStr;

// ---------------------------------------------------------------- C02

fn acceptable(s: &[u8]) -> bool {
    let mut ok = true;
    for &b in s { ok &= (b >= 0x21) & (b <= 0x7e) & (b != b'<') & (b != b'>'); }
    ok
}
fn c02_judge(s: String) {
    let want = acceptable(s.as_bytes());
    let a = EmailAddress::new(s.clone());
    let b = s.parse::<EmailAddress>();
    ck!(a.is_ok() == want, "EmailAddress::new accepts or refuses the wrong string");
    ck!(b.is_ok() == want, "EmailAddress::from_str accepts or refuses the wrong string");
    if let (Ok(a), Ok(b)) = (a, b) {
        let t = a.to_string();
        trace(t.as_bytes());
        let (r1, r2): (&str, &OsStr) = (a.as_ref(), a.as_ref());
        ck!(same(t.as_bytes(), s.as_bytes()), "Display changes the address");
        ck!(same(r1.as_bytes(), s.as_bytes()), "AsRef<str> changes the address");
        ck!(same(r2.as_encoded_bytes(), s.as_bytes()), "AsRef<OsStr> changes the address");
        ck!(same(b.to_string().as_bytes(), s.as_bytes()), "from_str changes the address");
        ck!(same(RcptCommand::new(a.clone(), vec![]).to_string().as_bytes(), &cat(&[b"RCPT TO:<", s.as_bytes(), b">\r\n"])), "RCPT changes the address");
        ck!(same(MailCommand::new(Some(a), vec![]).to_string().as_bytes(), &cat(&[b"MAIL FROM:<", s.as_bytes(), b">\r\n"])), "MAIL changes the address");
        cover(1);
    } else {
        cover(2);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_any() { c02_judge(any_chars(choice(bound(4, 5)))) }
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_ascii() { c02_judge(ascii(choice(bound(8, 10)))) }
/// One symbolic character at every position of a longer address.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_long() {
    let len = if choice(2) == 0 { 1 + choice(bound(40, 70)) } else { [63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 320, 321, 512, 998, 1000, 1024, 4100, 9000][choice(18)] };
    let at = if len <= 70 { choice(len) } else { [0, 1, 62, len / 2, len - 2, len - 1][choice(6)] };
    let fill: &[u8] = b"user.name+tag@sub.example-host.org,";
    let mut v: Vec<u8> = (0..at).map(|i| fill[i % fill.len()]).collect();
    let w = 1 + choice(4);
    push_char(&mut v, w);
    while v.len() < len { v.push(fill[v.len() % fill.len()]); }
    c02_judge(String::from_utf8(v).unwrap())
}
/// The addresses on the wire.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_send() {
    let n = bound(3, 5);
    let (f, t, u) = (ascii(choice(n)), ascii(choice(n)), ascii(1));
    let (a, b, c) = (EmailAddress::new(f.clone()), EmailAddress::new(t.clone()), EmailAddress::new(u.clone()));
    let (Ok(a), Ok(b), Ok(c)) = (a, b, c) else { return };
    let pipe = choice(2) == 1;
    let caps: &[&str] = if pipe { &["PIPELINING"] } else { &[] };
    let net = net(&cat(&[GREET, &ehlo(caps), b"250 m\r\n250 r\r\n250 r\r\n354 d\r\n250 q\r\n"]));
    let mut tr = open(net, SmtpClient::new());
    let r = oc(run(net, tr.send(SendableEmail::new(Envelope::new(Some(a), vec![b, c]).unwrap(), b"x".to_vec()))));
    ck!(r.kind == Kind::Ok, "send failed");
    let o = &net.get().out;
    trace(o);
    let want = cat(&[b"EHLO [127.0.0.1]\r\nMAIL FROM:<", f.as_bytes(), b">\r\nRCPT TO:<", t.as_bytes(), b">\r\nRCPT TO:<", u.as_bytes(), b">\r\nDATA\r\n"]);
    ck!(is_prefix(&want, o), "the addresses on the wire are not the given ones");
    cover(1);
}

/// Addresses made of symbolic acceptable characters only: whatever an address says, it is kept.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c02_word() {
    let n = [8, 12, 21, 40, 70][choice(bound(4, 5))];
    let v = graphic(n);
    assume(acceptable(&v));
    let s = unsafe { String::from_utf8_unchecked(v) };
    if choice(2) == 0 { c02_judge(s); return; }
    let (a, b) = (addr(&s), addr(&s[1..]));
    let net = net(&cat(&[GREET, &ehlo(&["8BITMIME"]), b"250 m\r\n250 r\r\n250 r\r\n354 d\r\n250 q\r\n"]));
    let mut tr = open(net, SmtpClient::new());
    let r = oc(run(net, tr.send(SendableEmail::new(Envelope::new(Some(a.clone()), vec![b, a]).unwrap(), b"x".to_vec()))));
    ck!(r.kind == Kind::Ok, "send failed");
    let (x, y) = (s.as_bytes(), &s.as_bytes()[1..]);
    let want = cat(&[b"EHLO [127.0.0.1]\r\nMAIL FROM:<", x, b"> BODY=8BITMIME\r\nRCPT TO:<", y, b">\r\nRCPT TO:<", x, b">\r\nDATA\r\n"]);
    ck!(is_prefix(&want, &net.get().out), "the addresses on the wire are not the given ones");
    cover(3);
}
// ---------------------------------------------------------------- C03

/// Symbolic characters other than CR and LF.
fn clean(n: usize) -> String {
    let s = any_chars(n);
    let mut ok = true;
    for b in s.as_bytes() { ok &= (*b != b'\r') & (*b != b'\n'); }
    assume(ok);
    s
}
fn line_is(got: String, want: &[u8]) {
    trace(got.as_bytes());
    ck!(same(got.as_bytes(), want), "the command is not rendered as specified");
    let g = got.as_bytes();
    let mut ok = g.len() >= 2 && g[g.len() - 2] == b'\r' && g[g.len() - 1] == b'\n';
    if ok { for b in &g[..g.len() - 2] { ok &= (*b != b'\r') & (*b != b'\n'); } }
    ck!(ok, "the command is not exactly one line");
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_fixed() {
    line_is(StarttlsCommand.to_string(), b"STARTTLS\r\n");
    line_is(DataCommand.to_string(), b"DATA\r\n");
    line_is(QuitCommand.to_string(), b"QUIT\r\n");
    line_is(NoopCommand.to_string(), b"NOOP\r\n");
    line_is(RsetCommand.to_string(), b"RSET\r\n");
    line_is(HelpCommand::new(None).to_string(), b"HELP\r\n");
    line_is(AuthCommand::new(Mechanism::Login, Credentials::new("u".into(), "p".into()), None).unwrap().to_string(), b"AUTH LOGIN\r\n");
    line_is(AuthCommand::new(Mechanism::Plain, Credentials::new("u".into(), "p".into()), None).unwrap().to_string(), b"AUTH PLAIN AHUAcA==\r\n");
    line_is(AuthCommand::new(Mechanism::Xoauth2, Credentials::new("u".into(), "p".into()), None).unwrap().to_string(),
        &cat(&[b"AUTH XOAUTH2 ", &b64(b"user=u\x01auth=Bearer p\x01\x01"), b"\r\n"]));
    cover(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_arg() {
    let which = choice(4);
    let s = clean(choice(bound(4, 5)));
    let a = s.as_bytes();
    match which {
        0 => line_is(HelpCommand::new(Some(s.clone())).to_string(), &cat(&[b"HELP ", a, b"\r\n"])),
        1 => line_is(VrfyCommand::new(s.clone()).to_string(), &cat(&[b"VRFY ", a, b"\r\n"])),
        2 => line_is(ExpnCommand::new(s.clone()).to_string(), &cat(&[b"EXPN ", a, b"\r\n"])),
        _ => line_is(EhloCommand::new(ClientId::Domain(s.clone())).to_string(), &cat(&[b"EHLO ", a, b"\r\n"])),
    }
    cover(1 + which as u32);
}
/// Long arguments of every length.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_long() {
    let which = choice(6);
    let len = if choice(2) == 0 { 2 + choice(bound(80, 140)) } else { [254, 255, 256, 509, 510, 511, 512, 513, 998, 1000, 1023, 1024, 4096, 9000][choice(14)] };
    let mut v: Vec<u8> = (0..len).map(|i| b"abc.d-e "[i % 7]).collect();
    let (x, y) = (u8(), u8());
    assume(acceptable(&[x, y]));
    v[0] = x;
    v[len - 1] = y;
    let s = String::from_utf8(v).unwrap();
    let a = s.as_bytes();
    match which {
        0 => line_is(HelpCommand::new(Some(s.clone())).to_string(), &cat(&[b"HELP ", a, b"\r\n"])),
        1 => line_is(VrfyCommand::new(s.clone()).to_string(), &cat(&[b"VRFY ", a, b"\r\n"])),
        2 => line_is(ExpnCommand::new(s.clone()).to_string(), &cat(&[b"EXPN ", a, b"\r\n"])),
        3 => line_is(EhloCommand::new(ClientId::Domain(s.clone())).to_string(), &cat(&[b"EHLO ", a, b"\r\n"])),
        4 => line_is(RcptCommand::new(addr(&s), vec![]).to_string(), &cat(&[b"RCPT TO:<", a, b">\r\n"])),
        _ => line_is(MailCommand::new(Some(addr(&s)), vec![MailParameter::Size(len)]).to_string(), &cat(&[b"MAIL FROM:<", a, b"> SIZE=", len.to_string().as_bytes(), b"\r\n"])),
    }
    cover(1);
}
pub fn alnum(n: usize) -> String {
    let v = bytes(n);
    let mut ok = true;
    for b in &v { ok &= ((*b >= b'0') & (*b <= b'9')) | ((*b >= b'A') & (*b <= b'Z')) | ((*b >= b'a') & (*b <= b'z')) | (*b == b'-'); }
    assume(ok);
    String::from_utf8(v).unwrap()
}
fn address(max: usize) -> EmailAddress {
    let v = bytes(choice(max + 1));
    assume(acceptable(&v));
    EmailAddress::new(String::from_utf8(v).unwrap()).unwrap()
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_mail() {
    let from = if choice(2) == 0 { None } else { Some(address(2)) };
    let mut want = b"MAIL FROM:<".to_vec();
    if let Some(a) = &from { want.extend_from_slice(a.to_string().as_bytes()); }
    want.push(b'>');
    let mut params = vec![];
    for _ in 0..choice(bound(4, 5)) {
        want.push(b' ');
        match choice(6) {
            0 => { params.push(MailParameter::Body(MailBodyParameter::SevenBit)); want.extend_from_slice(b"BODY=7BIT"); }
            1 => { params.push(MailParameter::Body(MailBodyParameter::EightBitMime)); want.extend_from_slice(b"BODY=8BITMIME"); }
            2 => { params.push(MailParameter::Size(512)); want.extend_from_slice(b"SIZE=512"); }
            3 => { params.push(MailParameter::SmtpUtfEight); want.extend_from_slice(b"SMTPUTF8"); }
            4 => { let k = alnum(1); want.extend_from_slice(k.as_bytes()); params.push(MailParameter::Other { keyword: k, value: None }); }
            _ => {
                let (k, v) = (alnum(1), alnum(choice(2)));
                want.extend_from_slice(&cat(&[k.as_bytes(), b"=", v.as_bytes()]));
                params.push(MailParameter::Other { keyword: k, value: Some(v) });
            }
        }
    }
    want.extend_from_slice(b"\r\n");
    line_is(MailCommand::new(from, params).to_string(), &want);
    cover(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_rcpt() {
    let to = address(3);
    let mut want = cat(&[b"RCPT TO:<", to.to_string().as_bytes(), b">"]);
    let mut params = vec![];
    for _ in 0..choice(bound(5, 7)) {
        let k = alnum(1 + choice(2));
        want.push(b' ');
        want.extend_from_slice(k.as_bytes());
        let v = match choice(3) { 0 => None, 1 => Some(alnum(0)), _ => Some(alnum(2)) };
        if let Some(v) = &v { want.push(b'='); want.extend_from_slice(v.as_bytes()); }
        params.push(RcptParameter::Other { keyword: k, value: v });
    }
    want.extend_from_slice(b"\r\n");
    line_is(RcptCommand::new(to, params).to_string(), &want);
    cover(1);
}
/// Many parameters.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_many() {
    let k = choice(bound(41, 131));
    let mail = choice(2) == 1;
    let free = choice(3) * k.saturating_sub(1) / 2;
    let mut want = if mail { b"MAIL FROM:<>".to_vec() } else { b"RCPT TO:<a@b>".to_vec() };
    let (mut m, mut r) = (vec![], vec![]);
    for i in 0..k {
        let kw = if i == free { alnum(2) } else { format!("K{i}") };
        let value = if i % 3 == 0 { None } else { Some(if i == free { alnum(1) } else { format!("{}", i * 7) }) };
        want.extend_from_slice(&cat(&[b" ", kw.as_bytes()]));
        if let Some(v) = &value { want.extend_from_slice(&cat(&[b"=", v.as_bytes()])); }
        if mail { m.push(MailParameter::Other { keyword: kw, value }) } else { r.push(RcptParameter::Other { keyword: kw, value }) }
        if mail && i % 8 == 5 {
            let (p, w): (_, &[u8]) = match i / 8 % 4 { 0 => (MailParameter::Size(i), b" SIZE="), 1 => (MailParameter::Body(MailBodyParameter::EightBitMime), b" BODY=8BITMIME"), 2 => (MailParameter::SmtpUtfEight, b" SMTPUTF8"), _ => (MailParameter::Body(MailBodyParameter::SevenBit), b" BODY=7BIT") };
            m.push(p);
            want.extend_from_slice(w);
            if i / 8 % 4 == 0 { want.extend_from_slice(&decimal(i as u64)); }
        }
    }
    want.extend_from_slice(b"\r\n");
    line_is(if mail { MailCommand::new(None, m).to_string() } else { RcptCommand::new(addr("a@b"), r).to_string() }, &want);
    cover(1);
}
/// Decimal digits of `x`, by repeated subtraction.
fn decimal(mut x: u64) -> Vec<u8> {
    let mut p: u64 = 1;
    let mut ps = vec![1u64];
    while let Some(q) = p.checked_mul(10) { p = q; ps.push(p); }
    let mut out = vec![];
    for p in ps.iter().rev() {
        let mut d = b'0';
        while x >= *p { x -= *p; d += 1; }
        if d != b'0' || !out.is_empty() || *p == 1 { out.push(d); }
    }
    out
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_size() {
    let x: u64 = match choice(4) {
        0 => {
            // every value of up to three (four) digits, symbolically
            let mut x = 0u64;
            let mut want = b"SIZE=".to_vec();
            let n = 1 + choice(bound(3, 4));
            for i in 0..n {
                let d = u8();
                assume(d <= 9 && (i > 0 || n == 1 || d > 0));
                want.push(b'0' + d);
                x = x * 10 + d as u64;
            }
            let got = MailParameter::Size(x as usize).to_string();
            trace(got.as_bytes());
            ck!(same(got.as_bytes(), &want), "SIZE is not rendered in decimal");
            cover(1);
            return;
        }
        1 => { let k = choice(64); 1u64 << k }
        2 => { let k = choice(64); (1u64 << k).wrapping_sub(1) }
        _ => { let k = choice(20); let mut p = 1u64; for _ in 0..k { p *= 10; } p - choice(2) as u64 }
    };
    let got = MailParameter::Size(x as usize).to_string();
    trace(got.as_bytes());
    ck!(same(got.as_bytes(), &cat(&[b"SIZE=", &decimal(x)])), "SIZE is not rendered in decimal");
    cover(2);
}

/// Arguments of symbolic printable characters: whatever an argument says, it is rendered.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c03_word() {
    let n = [4, 10, 17, 32, 64][choice(bound(4, 5))];
    match choice(6) {
        0 => { let s = printable(n); line_is(HelpCommand::new(Some(s.clone())).to_string(), &cat(&[b"HELP ", s.as_bytes(), b"\r\n"])) }
        1 => { let s = printable(n); line_is(VrfyCommand::new(s.clone()).to_string(), &cat(&[b"VRFY ", s.as_bytes(), b"\r\n"])) }
        2 => { let s = printable(n); line_is(ExpnCommand::new(s.clone()).to_string(), &cat(&[b"EXPN ", s.as_bytes(), b"\r\n"])) }
        3 => { let s = printable(n); line_is(EhloCommand::new(ClientId::Domain(s.clone())).to_string(), &cat(&[b"EHLO ", s.as_bytes(), b"\r\n"])) }
        4 => {
            let a = graphic(n);
            assume(acceptable(&a));
            let (k, v) = (alnum(n), alnum(n));
            let p = vec![RcptParameter::Other { keyword: k.clone(), value: Some(v.clone()) }, RcptParameter::Other { keyword: v.clone(), value: None }];
            let want = cat(&[b"RCPT TO:<", &a, b"> ", k.as_bytes(), b"=", v.as_bytes(), b" ", v.as_bytes(), b"\r\n"]);
            line_is(RcptCommand::new(EmailAddress::new(String::from_utf8(a).unwrap()).unwrap(), p).to_string(), &want)
        }
        _ => {
            let a = graphic(n);
            assume(acceptable(&a));
            let (k, v) = (alnum(n), alnum(n));
            let p = vec![MailParameter::Other { keyword: k.clone(), value: Some(v.clone()) }, MailParameter::Other { keyword: v.clone(), value: None }, MailParameter::SmtpUtfEight];
            let want = cat(&[b"MAIL FROM:<", &a, b"> ", k.as_bytes(), b"=", v.as_bytes(), b" ", v.as_bytes(), b" SMTPUTF8\r\n"]);
            line_is(MailCommand::new(Some(EmailAddress::new(String::from_utf8(a).unwrap()).unwrap()), p).to_string(), &want)
        }
    }
    cover(1);
}
// ---------------------------------------------------------------- C04

fn hexval(b: u8) -> u8 {
    let d = (b >= b'0') & (b <= b'9');
    let u = (b >= b'A') & (b <= b'F');
    (d as u8).wrapping_mul(b.wrapping_sub(b'0')).wrapping_add((u as u8).wrapping_mul(b.wrapping_sub(b'A' - 10)))
}
fn ishex(b: u8) -> bool { ((b >= b'0') & (b <= b'9')) | ((b >= b'A') & (b <= b'F')) }
fn c04_judge(x: &[u8], v: &[u8]) {
    trace(x);
    let mut dec = vec![];
    let mut i = 0;
    let mut clean = true;
    let mut groups = true;
    while i < x.len() {
        let b = x[i];
        if b == b'+' {
            if i + 2 < x.len() {
                groups &= ishex(x[i + 1]) & ishex(x[i + 2]);
                dec.push(hexval(x[i + 1]) << 4 | hexval(x[i + 2]));
            } else {
                groups = false;
            }
            i += 3;
            cover(2);
        } else {
            clean &= (b > 0x20) & (b != 0x7f) & (b != b'=');
            dec.push(b);
            i += 1;
        }
    }
    ck!(clean, "a control character, DEL, space or '=' is left in the xtext");
    ck!(groups, "'+' without two upper-case hex digits");
    ck!(same(&dec, v), "decoding the xtext does not give back the value");
}
fn c04_all(v: String) {
    c04_judge(XText(&v).to_string().as_bytes(), v.as_bytes());
    let which = choice(3);
    let got = match which {
        0 => MailParameter::Other { keyword: "K".into(), value: Some(v.clone()) }.to_string(),
        1 => RcptParameter::Other { keyword: "K".into(), value: Some(v.clone()) }.to_string(),
        _ => {
            let s = MailCommand::new(None, vec![MailParameter::SmtpUtfEight, MailParameter::Other { keyword: "K".into(), value: Some(v.clone()) }]).to_string();
            let s = s.strip_prefix("MAIL FROM:<> SMTPUTF8 ").unwrap_or("");
            let Some(s) = s.strip_suffix("\r\n") else { ck!(false, "the MAIL line is not well-formed"); return };
            s.to_string()
        }
    };
    let Some(x) = got.as_bytes().strip_prefix(b"K=") else { ck!(false, "the parameter is not keyword=value"); return };
    c04_judge(x, v.as_bytes());
    cover(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_any() { c04_all(any_chars(choice(bound(4, 5)))) }
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_ascii() { c04_all(ascii(choice(bound(5, 7)))) }
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_long() {
    let len = if choice(2) == 0 { 2 + choice(bound(14, 50)) } else { [63, 64, 65, 127, 128, 255, 256, 257, 1000, 1024][choice(10)] };
    let at = if len <= 70 { choice(len - 1) } else { [0, 1, len / 2, len - 2][choice(4)] };
    let fill: &[&str] = &["a", "+", "é", "=", "x", " ", "€", "\u{1F600}", "y"];
    let mut v: Vec<u8> = vec![];
    for i in 0..at { v.extend_from_slice(fill[i % 9].as_bytes()); }
    let w = 1 + choice(4);
    push_char(&mut v, w);
    // the next one is free too at the ends
    if at == 0 || at == len - 2 || bound(0, 1) == 1 { push_char(&mut v, 1); } else { v.push([b'+', b'a'][at % 2]); }
    for i in at + 2..len { v.extend_from_slice(fill[i % 9].as_bytes()); }
    c04_all(String::from_utf8(v).unwrap())
}

/// Values of symbolic characters that need no escape, after one that does.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c04_word() {
    let n = [6, 15, 33, 64][choice(bound(3, 4))];
    let mut v = vec![];
    match choice(3) { 0 => {} 1 => v.extend_from_slice(b"="), _ => v.extend_from_slice("\u{e9} ".as_bytes()) }
    let g = graphic(n);
    let mut plain = true;
    for b in &g { plain &= (*b != b'+') & (*b != b'='); }
    assume(plain);
    v.extend_from_slice(&g);
    if choice(2) == 1 { v.extend_from_slice(b" +"); }
    c04_all(unsafe { String::from_utf8_unchecked(v) });
}
// ---------------------------------------------------------------- C21

pub const SEV: [Severity; 4] = [Severity::PositiveCompletion, Severity::PositiveIntermediate, Severity::TransientNegativeCompletion, Severity::PermanentNegativeCompletion];
pub const CAT: [Category; 6] = [Category::Syntax, Category::Information, Category::Connections, Category::Unspecified3, Category::Unspecified4, Category::MailSystem];
pub const DET: [Detail; 10] = [Detail::Zero, Detail::One, Detail::Two, Detail::Three, Detail::Four, Detail::Five, Detail::Six, Detail::Seven, Detail::Eight, Detail::Nine];

#[no_mangle]
#[inline(never)]
pub extern "C" fn c21_codes() {
    let (s, c, d) = (choice(4), choice(6), choice(10));
    let code = Code::new(SEV[s], CAT[c], DET[d]);
    let digits = [b'2' + s as u8, b'0' + c as u8, b'0' + d as u8];
    let t = code.to_string();
    trace(t.as_bytes());
    ck!(t.as_bytes() == digits, "a code does not render as its three digits");
    ck!(SEV[s].to_string().as_bytes() == &digits[..1], "a severity does not render as its digit");
    ck!(CAT[c].to_string().as_bytes() == &digits[1..2], "a category does not render as its digit");
    ck!(DET[d].to_string().as_bytes() == &digits[2..], "a detail does not render as its digit");
    let text = printable(choice(3));
    let mut msg = vec![];
    if choice(2) == 1 { msg.push("first".to_string()); }
    msg.push(text.clone());
    let r = Response::new(code, msg.clone());
    ck!(r.is_positive() == (s < 2), "is_positive is wrong");
    let mut wire = String::new();
    for (i, l) in msg.iter().enumerate() {
        wire.push_str(&t);
        wire.push(if i + 1 == msg.len() { ' ' } else { '-' });
        wire.push_str(l);
        wire.push_str("\r\n");
    }
    match wire.parse::<Response>() {
        Ok(p) => {
            ck!(p.code == code, "parsing the rendering of a reply changes its code");
            ck!(p.is_positive() == (s < 2), "is_positive is wrong after parsing");
            ck!(p.code.to_string().as_bytes() == digits, "a parsed code does not render as its digits");
        }
        Err(_) => ck!(false, "the rendering of a reply does not parse"),
    }
    let n = u16();
    let num = 100 * (s as u16 + 2) + 10 * c as u16 + d as u16;
    ck!(r.has_code(n) == (n == num), "has_code is wrong");
    ck!(r.has_code(num), "has_code misses its own code");
    cover(1);
}

/// Codes compared through parsing: a reply with symbolic digits.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c21_parsed() {
    let v = bytes(3);
    assume((v[0] >= b'2') & (v[0] <= b'5') & (v[1] >= b'0') & (v[1] <= b'5') & (v[2] >= b'0') & (v[2] <= b'9'));
    let s = String::from_utf8(cat(&[&v, b" t\r\n"])).unwrap();
    let Ok(r) = s.parse::<Response>() else { ck!(false, "a reply does not parse"); return };
    let num = 100 * (v[0] - b'0') as u16 + 10 * (v[1] - b'0') as u16 + (v[2] - b'0') as u16;
    let n = u16();
    ck!(r.has_code(n) == (n == num), "has_code is wrong after parsing");
    ck!(r.is_positive() == (v[0] < b'4'), "is_positive is wrong after parsing");
    ck!(same(r.code.to_string().as_bytes(), &v), "a parsed code does not render as its digits");
    trace(r.code.to_string().as_bytes());
    cover(1);
}

// ---------------------------------------------------------------- C22

fn dec3(b: u8) -> Vec<u8> {
    if b >= 100 { vec![b'0' + b / 100, b'0' + b / 10 % 10, b'0' + b % 10] } else if b >= 10 { vec![b'0' + b / 10, b'0' + b % 10] } else { vec![b'0' + b] }
}
/// Opens a session with the identity and returns the line announcing it.
fn announced(id: ClientId) -> Vec<u8> {
    let greet = choice(2) == 0;
    let n = if greet { net(&cat(&[GREET, &ehlo(&[])])) } else { net(&ehlo(&[])) };
    let mut c = SmtpClient::new();
    let order = choice(2);
    if order == 0 { c = c.hello_name(id.clone()); }
    if choice(2) == 1 { c = c.smtp_utf8(true).pipelining(false); }
    if !greet { c = c.without_greeting(); }
    if order == 1 { c = c.hello_name(ClientId::Domain("other".into())).hello_name(id); }
    open(n, c);
    let o = n.get().out.clone();
    trace(&o);
    o
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c22_domain() {
    let s = clean(choice(bound(3, 4)));
    let id = if choice(2) == 0 { ClientId::Domain(s.clone()) } else { ClientId::new(s.clone()) };
    ck!(same(id.to_string().as_bytes(), s.as_bytes()), "a domain identity is not rendered verbatim");
    let want = cat(&[b"EHLO ", s.as_bytes(), b"\r\n"]);
    ck!(same(EhloCommand::new(id.clone()).to_string().as_bytes(), &want), "EHLO does not carry the identity");
    ck!(same(&announced(id), &want), "the announced identity is not the configured one");
    cover(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c22_domain_long() {
    let len = if choice(2) == 0 { 1 + choice(80) } else { [127, 128, 253, 254, 255, 256, 257, 512][choice(8)] };
    let mut v: Vec<u8> = (0..len).map(|i| b"Mail-7.example"[i % 14]).collect();
    let p = printable(2);
    v[len - 1] = p.as_bytes()[0];
    v[0] = p.as_bytes()[1];
    let s = String::from_utf8(v).unwrap();
    let id = ClientId::Domain(s.clone());
    ck!(same(id.to_string().as_bytes(), s.as_bytes()), "a domain identity is not rendered verbatim");
    ck!(same(&announced(id), &cat(&[b"EHLO ", s.as_bytes(), b"\r\n"])), "the announced identity is not the configured one");
    cover(1);
}
/// Domains of symbolic printable characters only.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c22_word() {
    let s = printable([1, 9, 16, 21, 64][choice(5)]);
    let id = if choice(2) == 0 { ClientId::Domain(s.clone()) } else { ClientId::new(s.clone()) };
    ck!(same(id.to_string().as_bytes(), s.as_bytes()), "a domain identity is not rendered verbatim");
    ck!(same(&announced(id), &cat(&[b"EHLO ", s.as_bytes(), b"\r\n"])), "the announced identity is not the configured one");
    cover(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c22_ipv4() {
    let a = bytes(4);
    let id = ClientId::Ipv4(std::net::Ipv4Addr::new(a[0], a[1], a[2], a[3]));
    let t = id.to_string();
    let want = cat(&[b"[", &dec3(a[0]), b".", &dec3(a[1]), b".", &dec3(a[2]), b".", &dec3(a[3]), b"]"]);
    ck!(same(t.as_bytes(), &want), "an IPv4 identity is not a dotted-decimal literal");
    ck!(same(&announced(id), &cat(&[b"EHLO ", &want, b"\r\n"])), "the announced identity is not the configured one");
    cover(1);
}
/// RFC 4291 text to groups; dotted-decimal tails included.
fn parse6(s: &[u8]) -> Option<[u16; 8]> {
    let mut head: Vec<u16> = vec![];
    let mut tail: Vec<u16> = vec![];
    let mut gap = false;
    let mut i = 0;
    if s.len() >= 2 && s[0] == b':' && s[1] == b':' { gap = true; i = 2; }
    let dotted = s.contains(&b'.');
    while i < s.len() {
        // a dotted-decimal tail
        if dotted && !s[i..].contains(&b':') {
            let mut q = [0u16; 4];
            let mut k = 0;
            let mut digits = 0;
            for &b in &s[i..] {
                if b == b'.' { if digits == 0 || k == 3 { return None; } k += 1; digits = 0; continue; }
                if b < b'0' || b > b'9' || digits == 3 { return None; }
                q[k] = q[k] * 10 + (b - b'0') as u16;
                digits += 1;
            }
            if k != 3 || digits == 0 { return None; }
            let v = if gap { &mut tail } else { &mut head };
            v.push(q[0] << 8 | q[1]);
            v.push(q[2] << 8 | q[3]);
            break;
        }
        let mut x = 0u16;
        let mut digits = 0;
        while i < s.len() && s[i] != b':' {
            let b = s[i];
            let d = (b >= b'0') & (b <= b'9');
            let l = (b >= b'a') & (b <= b'f');
            let u = (b >= b'A') & (b <= b'F');
            if !(d | l | u) || digits == 4 { return None; }
            let h = (d as u8).wrapping_mul(b.wrapping_sub(b'0')).wrapping_add((l as u8).wrapping_mul(b.wrapping_sub(b'a' - 10))).wrapping_add((u as u8).wrapping_mul(b.wrapping_sub(b'A' - 10)));
            x = x << 4 | h as u16;
            digits += 1;
            i += 1;
        }
        if digits == 0 { return None; }
        if gap { tail.push(x) } else { head.push(x) }
        if i < s.len() {
            i += 1;
            if i >= s.len() { return None; }
            if s[i] == b':' { if gap { return None; } gap = true; i += 1; }
        }
    }
    let n = head.len() + tail.len();
    if n > 8 || (gap && n > 7) || (!gap && n != 8) { return None; }
    let mut g = [0u16; 8];
    for (k, x) in head.iter().enumerate() { g[k] = *x; }
    for (k, x) in tail.iter().enumerate() { g[8 - tail.len() + k] = *x; }
    Some(g)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c22_ipv6() {
    const BASE: [[u16; 8]; 5] = [
        [0, 0, 0, 0, 0, 0, 0, 0], [0x2001, 0xdb8, 0, 0, 1, 0, 0, 2], [0, 0, 0, 0, 0, 0xffff, 0xc000, 0x280],
        [0xfe80, 0, 0, 0, 0x1234, 0x5678, 0x9abc, 0xdef0], [1, 0, 2, 0, 3, 0, 4, 0],
    ];
    let k = choice(5);
    let mut g = BASE[k];
    let quick: &[usize] = [&[0, 4, 7][..], &[0, 2, 3, 4, 6, 7], &[4, 5, 7], &[1, 3], &[1, 2]][k];
    let a = if tier() > 0 { choice(8) } else { quick[choice(quick.len())] };
    g[a] = u16();
    // a second symbolic group: its neighbour in one base (quick), any other one (thorough)
    if tier() > 0 { g[choice(8)] = u16(); } else if k == 1 && a == 3 { g[(a + 1) % 8] = u16(); }
    let id = ClientId::Ipv6(std::net::Ipv6Addr::new(g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7]));
    let t = id.to_string();
    trace(t.as_bytes());
    let back = t.strip_prefix("[IPv6:").and_then(|x| x.strip_suffix("]")).and_then(|x| parse6(x.as_bytes()));
    match back {
        Some(h) => {
            let mut d = 0u16;
            for i in 0..8 { d |= g[i] ^ h[i]; }
            ck!(d == 0, "an IPv6 identity does not parse back to the address");
        }
        None => ck!(false, "an IPv6 identity is not an [IPv6:...] literal"),
    }
    ck!(same(EhloCommand::new(id).to_string().as_bytes(), &cat(&[b"EHLO ", t.as_bytes(), b"\r\n"])), "EHLO does not carry the identity");
    cover(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c22_wire6() {
    let (x, y) = (u8(), u8());
    let a = std::net::Ipv6Addr::new(0x2001, 0xdb8, x as u16, 0, 0, 0, 0, 0xff00 | y as u16);
    let id = ClientId::Ipv6(a);
    let t = id.to_string();
    ck!(same(&announced(id), &cat(&[b"EHLO ", t.as_bytes(), b"\r\n"])), "the announced identity is not the configured one");
    let back = t.strip_prefix("[IPv6:").and_then(|x| x.strip_suffix("]")).and_then(|x| parse6(x.as_bytes()));
    ck!(back.map_or(false, |h| (h[2] == x as u16) & (h[7] == 0xff00 | y as u16) & (h[0] == 0x2001)), "an IPv6 identity does not parse back to the address");
    cover(1);
}

// ---------------------------------------------------------------- C24

fn c24_judge(lines: Vec<String>, perm: bool) {
    let code = Code::new(if perm { Severity::PermanentNegativeCompletion } else { Severity::TransientNegativeCompletion }, CAT[choice(2) * 5], Detail::One);
    let r = Response::new(code, lines.clone());
    let e = match choice(2) {
        0 => Error::from(r),
        _ => if perm { Error::Permanent(r) } else { Error::Transient(r) },
    };
    ck!(err_kind(&e) == if perm { Kind::Permanent } else { Kind::Transient }, "the reply became an error of the wrong class");
    let t = e.to_string();
    trace(t.as_bytes());
    let mut want = if perm { b"permanent: ".to_vec() } else { b"transient: ".to_vec() };
    if lines.is_empty() { want.extend_from_slice(b"undetailed error during SMTP transaction"); }
    for (i, l) in lines.iter().enumerate() {
        if i > 0 { want.extend_from_slice(b"; "); }
        want.extend_from_slice(l.as_bytes());
    }
    ck!(same(t.as_bytes(), &want), "the error text is not the reply's text");
    match err_reply(&e) {
        Some(r) => ck!(r.message == lines && r.code == code, "the error does not carry the reply"),
        None => ck!(false, "the error does not carry the reply"),
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_text() {
    let k = choice(4);
    let mut lines = vec![];
    let max = if k < 3 { bound(3, 4) } else { 2 };
    for _ in 0..k { lines.push(any_chars(choice(max))); }
    let perm = choice(2) == 1;
    if k == 0 { cover(1); } else { cover(2); }
    c24_judge(lines, perm)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_many() {
    let k = 1 + choice(bound(20, 40));
    let len = [0, 1, 7, 64, 300, 513, 5000][choice(7)];
    let lines: Vec<String> = (0..k).map(|i| { let mut s = printable((i == 0 || i + 1 == k) as usize); for j in 0..len { s.push((b'a' + ((i + j) % 26) as u8) as char); } s }).collect();
    c24_judge(lines, choice(2) == 1);
    cover(1);
}
/// Lines of symbolic printable characters.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_word() {
    let k = 1 + choice(3);
    let n = [5, 12, 31][choice(3)];
    let lines = (0..k).map(|i| printable(n + i)).collect();
    c24_judge(lines, choice(2) == 1);
    cover(1);
}
/// From the wire to the error text.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c24_wire() {
    let perm = choice(2) == 1;
    let k = 1 + choice(3);
    let code: &[u8] = if perm { b"554" } else { b"451" };
    let mut reply = vec![];
    let mut want = if perm { b"permanent: ".to_vec() } else { b"transient: ".to_vec() };
    for i in 0..k {
        let t = printable(choice(3));
        reply.extend_from_slice(&cat(&[code, if i + 1 == k { b" " } else { b"-" }, t.as_bytes(), b"\r\n"]));
        if i > 0 { want.extend_from_slice(b"; "); }
        want.extend_from_slice(t.as_bytes());
    }
    let n = net(&cat(&[GREET, &ehlo(&[]), &reply]));
    let mut t = open(n, SmtpClient::new());
    match run(n, t.quit()) {
        Ran::Done(Err(e)) => { trace(e.to_string().as_bytes()); ck!(same(e.to_string().as_bytes(), &want), "the error text is not the reply's text"); }
        _ => ck!(false, "a refusal is not reported"),
    }
    cover(1);
}

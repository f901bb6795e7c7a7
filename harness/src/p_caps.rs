//! Capabilities: C09 what is advertised, C10 what is used.

use crate::h::*;
use crate::net::*;
use crate::sx::*;
use async_smtp::authentication::Mechanism;
use async_smtp::extension::*;
use async_smtp::response::*;
use async_smtp::*;

// ---------------------------------------------------------------- C09

const KEYS: [&[u8]; 4] = [b"PIPELINING", b"8BITMIME", b"SMTPUTF8", b"STARTTLS"];
const EXTS: [Extension; 4] = [Extension::Pipelining, Extension::EightBitMime, Extension::SmtpUtfEight, Extension::StartTls];
const MECHS: [&[u8]; 3] = [b"PLAIN", b"LOGIN", b"XOAUTH2"];
const MS: [Mechanism; 3] = [Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2];

fn upper(b: u8) -> u8 { b ^ ((((b >= b'a') & (b <= b'z')) as u8) << 5) }
fn is_word(w: &[u8], k: &[u8], fold: bool) -> bool {
    if w.len() != k.len() { return false; }
    let mut d = 0u8;
    for i in 0..w.len() { d |= (if fold { upper(w[i]) } else { w[i] }) ^ k[i]; }
    d == 0
}
/// Words of a line of printable characters.
fn words(l: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut i = 0;
    while i < l.len() {
        if l[i] == b' ' { i += 1; continue; }
        let s = i;
        while i < l.len() && l[i] != b' ' { i += 1; }
        v.push(&l[s..i]);
    }
    v
}
/// What the capability lines advertise: four keywords, three mechanisms.
fn advertised(lines: &[Vec<u8>]) -> [bool; 7] {
    let mut f = [false; 7];
    for l in lines {
        let w = words(l);
        if w.is_empty() { continue; }
        for k in 0..4 { f[k] |= is_word(w[0], KEYS[k], true); }
        let auth = is_word(w[0], b"AUTH", true);
        for x in &w[1..] { for k in 0..3 { f[4 + k] |= auth & is_word(x, MECHS[k], false); } }
    }
    f
}
/// `lines`: the lines after the first.
fn c09_judge(name: &str, lines: Vec<Vec<u8>>) {
    let mut msg = vec![name.to_string()];
    for l in &lines { msg.push(unsafe { String::from_utf8_unchecked(l.clone()) }); }
    let code = Code::new(Severity::PositiveCompletion, Category::MailSystem, Detail::Zero);
    let Ok(i) = ServerInfo::from_response(&Response::new(code, msg)) else { ck!(false, "a good EHLO reply was refused"); return };
    let want = advertised(&lines);
    let mut n = 0;
    for k in 0..4 {
        let have = i.supports_feature(EXTS[k]);
        ck!(have == want[k], "a keyword is known but not advertised, or advertised but not known");
        ck!(i.features.contains(&EXTS[k]) == have, "predicate and set disagree");
        if have { n += 1; cover(10 + k as u32); }
    }
    for k in 0..3 {
        let have = i.supports_auth_mechanism(MS[k]);
        ck!(have == want[4 + k], "a mechanism is known but not advertised, or advertised but not known");
        ck!(i.supports_feature(Extension::Authentication(MS[k])) == have, "predicate and set disagree");
        if have { n += 1; cover(14 + k as u32); }
    }
    ck!(i.features.len() == n, "an unknown feature was added");
    let first = words(name.as_bytes());
    ck!(same(i.name.as_bytes(), first[0]), "the server name is not the first word");
    trace(i.name.as_bytes());
    trace(&[n as u8]);
    cover(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_raw() {
    let n = choice(bound(11, 12));
    c09_judge("me", vec![printable(n).into_bytes()])
}
/// A keyword in any letter case, with symbolic neighbours, anywhere in the reply.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_keyword() {
    let k = choice(4);
    let mut l = vec![];
    if choice(2) == 1 { l.extend_from_slice(printable(1 + choice(bound(1, 2))).as_bytes()); }
    let at = l.len();
    l.extend_from_slice(KEYS[k]);
    let odd = choice(KEYS[k].len());
    match choice(3) {
        // one symbolic letter, or every letter in a case of its own, or as it is
        0 => l[at + odd] = printable(1).as_bytes()[0],
        1 => { assume(odd == 0); for i in 0..KEYS[k].len() { let c = u8() & 0x20; let b = l[at + i]; l[at + i] = if (b >= b'A') & (b <= b'Z') { b | c } else { b }; } }
        _ => assume(odd == 0),
    }
    if choice(2) == 1 { l.extend_from_slice(printable(1 + choice(bound(2, 3))).as_bytes()); }
    let mut lines = vec![];
    let (before, after) = (choice(3), choice(2));
    for i in 0..before { lines.push([&b"SIZE 35882577"[..], b"", b"X-PIPELINING"][(i + k) % 3].to_vec()); }
    lines.push(l);
    for _ in 0..after { lines.push(b"DSN STARTTLS 8BITMIME AUTH PLAIN".to_vec()); }
    c09_judge("mx.example.org", lines)
}
/// AUTH lines.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_auth() {
    let mut l = [&b"AUTH "[..], b"auth ", b"AUTH", b"XAUTH ", b"AUTH= ", b"AUTH  "][choice(6)].to_vec();
    l.extend_from_slice(printable(choice(bound(9, 10))).as_bytes());
    c09_judge("me", vec![l])
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_mechs() {
    let pool: [&[u8]; 9] = [b"PLAIN", b"LOGIN", b"XOAUTH2", b"CRAM-MD5", b"PLAINX", b"XLOGIN", b"XOAUTH", b"STARTTLS", b"OAUTHBEARER"];
    let mut lines = vec![];
    for i in 0..1 + choice(2) {
        let mut l = b"AUTH".to_vec();
        if choice(4) == 0 { l = [&b"Auth"[..], b"X", b"8BITMIME"][choice(3)].to_vec(); }
        for _ in 0..choice(if i == 0 { bound(3, 4) } else { bound(2, 4) }) { l.push(b' '); l.extend_from_slice(pool[choice(9)]); }
        lines.push(l);
    }
    c09_judge("me", lines)
}
/// One mechanism with a symbolic character, a case flip or a neighbour.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_mech() {
    let k = choice(3);
    let mut w = MECHS[k].to_vec();
    let i = choice(w.len());
    match choice(3) { 0 => w[i] = printable(1).as_bytes()[0], 1 => w.insert(i, printable(1).as_bytes()[0]), _ => { w.remove(i); } }
    if choice(2) == 1 { w.extend_from_slice(printable(2).as_bytes()); }
    let pre: &[u8] = [&b"AUTH "[..], b"AUTH CRAM-MD5 ", b"AUTH LOGIN ", b"auTH PLAIN "][choice(4)];
    c09_judge("me", vec![cat(&[pre, &w])])
}
/// Many lines; the server name.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_many() {
    let n = if choice(4) == 0 { [101, 130, 258, 600][choice(bound(3, 4))] } else { 1 + choice(bound(24, 60)) };
    let at = if n > 60 { [0, 99, n - 1][choice(3)] } else { choice(n) };
    let k = choice(5);
    let l = if k == 4 { b"AUTH PLAIN XOAUTH2".to_vec() } else { KEYS[k].to_vec() };
    let lines = (0..n).map(|i| if i == at { l.clone() } else { format!("X-EXT{i} STARTTLS").into_bytes() }).collect();
    let mut name = [&b""[..], b" "][choice(2)].to_vec();
    let p = printable(2);
    assume((p.as_bytes()[0] != b' ') & ((p.as_bytes()[0] < b'A') | (p.as_bytes()[0] > b'z')));
    name.extend_from_slice(p.as_bytes());
    name.extend_from_slice([&b""[..], b" Hello [10.0.0.1] PIPELINING"][choice(2)]);
    c09_judge(std::str::from_utf8(&name).unwrap(), lines)
}
/// AUTH lines of many words, and EHLO replies of many AUTH lines.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_long() {
    let n = [1, 5, 12, bound(40, 100)][choice(4)];
    let at = [0, 1, n / 2, n - 1][choice(4)].min(n - 1);
    let k = choice(3);
    let mut w = MECHS[k].to_vec();
    if choice(2) == 1 { let i = [0, 1, w.len() - 1][choice(3)]; w[i] = graphic(1)[0]; }
    let split = choice(3);
    let mut lines = vec![b"AUTH".to_vec()];
    for i in 0..n {
        let l = lines.last_mut().unwrap();
        l.push(b' ');
        if i == at { l.extend_from_slice(&w); } else { l.extend_from_slice(format!("{}-{i}", ["X-MECH", "CRAM", "LOGIN"][(i + split) % 3]).as_bytes()); }
        if (split == 1 && i % 3 == 2) || split == 2 { lines.push(b"AUTH".to_vec()); }
    }
    c09_judge("me", lines)
}
/// Several mechanisms, each with a symbolic letter.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_letters() {
    let mut l = b"AUTH".to_vec();
    if choice(2) == 1 { l[choice(4)] = graphic(1)[0]; }
    for _ in 0..1 + choice(bound(2, 3)) {
        let k = choice(3);
        let mut w = MECHS[k].to_vec();
        let at = [0, w.len() - 1, 2][choice(3)];
        w[at] = graphic(1)[0];
        l.push(b' ');
        l.extend_from_slice(&w);
    }
    let mut lines = vec![l];
    if choice(2) == 1 { lines.push(b"AUTH LOGIN".to_vec()); }
    c09_judge("me", lines)
}
/// Words of symbolic characters of every length.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_words() {
    let n = 1 + choice(bound(24, 40));
    let lines = match choice(5) {
        0 => vec![cat(&[b"AUTH ", &graphic(n)])],
        1 => vec![cat(&[b"AUTH LOGIN ", &graphic(n), b" ", &graphic(5)])],
        2 => vec![graphic(n), b"AUTH".to_vec()],
        3 => vec![cat(&[&graphic(n), b" ", &graphic(4), b" ", &graphic(7)])],
        _ => vec![b"8BITMIME".to_vec(), cat(&[b"AUTH=", &graphic(n)]), cat(&[b"SIZE ", &graphic(n)])],
    };
    let name = if choice(2) == 0 { "mx.example.org".to_string() } else { format!("{} {}", word(n), word(10)) };
    c09_judge(&name, lines)
}
/// Through the wire: the use of what was advertised.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c09_wire() {
    let mut lines: Vec<Vec<u8>> = vec![];
    for _ in 0..choice(4) {
        lines.push([&b"PIPELINING"[..], b"8BITMIME", b"SMTPUTF8", b"starttls", b"AUTH LOGIN PLAIN", b"Auth XOAUTH2", b"AUTH", b"X8BITMIME", b"SIZE 8BITMIME", b""][choice(10)].to_vec());
    }
    let want = advertised(&lines);
    let mut e = vec![];
    let all: Vec<Vec<u8>> = [vec![b"me hi".to_vec()], lines].concat();
    for (i, l) in all.iter().enumerate() { e.extend_from_slice(&cat(&[b"250", if i + 1 == all.len() { if l.is_empty() { b"" } else { b" " } } else { b"-" }, l, b"\r\n"])); }
    let n = net(&cat(&[GREET, &e]));
    let mut t = open(n, SmtpClient::new().smtp_utf8(true));
    let s = n.get();
    let k = s.out.len();
    s.inp.extend_from_slice(b"235 ok\r\n");
    let order = [Mechanism::Xoauth2, Mechanism::Plain];
    let r = oc_unit(run(n, t.try_login(&authentication::Credentials::new("u".into(), "p".into()), &order)));
    ck!(r.kind == Kind::Ok, "login failed");
    let auth: &[u8] = if want[6] { b"AUTH XOAUTH2 dXNlcj11AWF1dGg9QmVhcmVyIHABAQ==\r\n" } else if want[4] { b"AUTH PLAIN AHUAcA==\r\n" } else { b"" };
    ck!(same(&s.out[k..], auth), "the mechanism used is not the advertised one");
    if auth.is_empty() { s.pos = s.inp.len(); }
    s.inp.extend_from_slice(b"250 m\r\n250 r\r\n354 d\r\n250 q\r\n220 go\r\n");
    let k = s.out.len();
    let r = oc(run(n, t.send(SendableEmail::new(env1(), b"m".to_vec()))));
    ck!(r.kind == Kind::Ok, "send failed");
    let mail = cat(&[b"MAIL FROM:<a@b>", if want[1] { b" BODY=8BITMIME" } else { b"" }, if want[2] { b" SMTPUTF8" } else { b"" }, b"\r\nRCPT"]);
    ck!(is_prefix(&mail, &s.out[k..]), "MAIL does not use exactly what was advertised");
    let r = run(n, t.starttls());
    ck!(matches!(r, Ran::Done(Ok(_))) == want[3], "STARTTLS does not follow what was advertised");
    trace(&s.out);
    cover(1);
}

// ---------------------------------------------------------------- C10

#[derive(Clone)]
struct Opts { utf8: bool, pipe: bool, greet: bool, hello: Vec<u8> }
/// A client configured by any sequence of up to `n` setter calls.
fn configured(n: usize) -> (SmtpClient, Opts) {
    let mut o = Opts { utf8: false, pipe: true, greet: true, hello: b"[127.0.0.1]".to_vec() };
    let mut c = if choice(2) == 0 { SmtpClient::new() } else { SmtpClient::default() };
    for _ in 0..choice(n + 1) {
        match choice(6) {
            0 => { c = c.smtp_utf8(true); o.utf8 = true; }
            1 => { c = c.smtp_utf8(false); o.utf8 = false; }
            2 => { c = c.pipelining(true); o.pipe = true; }
            3 => { c = c.pipelining(false); o.pipe = false; }
            4 => { c = c.without_greeting(); o.greet = false; }
            _ => { let d = printable(1); o.hello = d.clone().into_bytes(); c = c.hello_name(ClientId::Domain(d)); }
        }
    }
    (c, o)
}
fn c10_run(c: SmtpClient, o: Opts, caps: [bool; 4], rcpts: usize, sends: usize) {
    let mut l = vec![];
    if caps[0] { l.push("PIPELINING"); }
    if caps[1] { l.push("8BITMIME"); }
    if caps[2] { l.push("SMTPUTF8"); }
    if caps[3] { l.push("SIZE 100"); }
    let l: Vec<Vec<u8>> = l.iter().map(|x| x.as_bytes().to_vec()).collect();
    c10_wire(c, o, caps, &l, rcpts, sends)
}
fn c10_wire(c: SmtpClient, o: Opts, caps: [bool; 4], l: &[Vec<u8>], rcpts: usize, sends: usize) {
    let mut e = if l.is_empty() { b"250 mx.me hi\r\n".to_vec() } else { b"250-mx.me hi\r\n".to_vec() };
    for (i, x) in l.iter().enumerate() { e.extend_from_slice(&cat(&[if i + 1 == l.len() { b"250 " } else { b"250-" }, x, b"\r\n"])); }
    let n = net(&cat(&[if o.greet { GREET } else { b"" }, &e]));
    let mut t = open(n, c);
    let s = n.get();
    ck!(same(&s.out, &cat(&[b"EHLO ", &o.hello, b"\r\n"])), "EHLO does not carry the configured identity");
    for k in 0..sends {
        let (start, at) = (s.pos, s.out.len());
        s.inp.extend_from_slice(b"250 m\r\n");
        for _ in 0..rcpts { s.inp.extend_from_slice(b"250 r\r\n"); }
        s.inp.extend_from_slice(b"354 d\r\n250 q\r\n");
        let from = if k % 2 == 0 { Some(addr("a@b")) } else { None };
        let to = (0..rcpts).map(|_| addr("c@d")).collect();
        let r = oc(run(n, t.send(SendableEmail::new(Envelope::new(from.clone(), to).unwrap(), b"m".to_vec()))));
        ck!(r.kind == Kind::Ok, "send failed");
        let mail = cat(&[if from.is_some() { b"MAIL FROM:<a@b>" } else { b"MAIL FROM:<>" }, if caps[1] { b" BODY=8BITMIME" } else { b"" }, if caps[2] && o.utf8 { b" SMTPUTF8" } else { b"" }, b"\r\n"]);
        let mut want = mail;
        for _ in 0..rcpts { want.extend_from_slice(b"RCPT TO:<c@d>\r\n"); }
        want.extend_from_slice(b"DATA\r\n");
        ck!(is_prefix(&want, &s.out[at..]), "MAIL does not carry exactly the advertised and enabled parameters");
        // ahead of replies?
        let (mut ahead, mut lines) = (false, 0);
        let mut j = at;
        for (off, pos) in &s.log {
            if *off < at { continue; }
            while j < *off { if s.out[j] == b'\n' { lines += 1; } j += 1; }
            let mut replies = 0;
            for b in &s.inp[start..*pos] { if *b == b'\n' { replies += 1; } }
            if *off < at + want.len() && lines > replies { ahead = true; }
            if *off >= at + want.len() { break; }
        }
        ck!(!ahead || (caps[0] && o.pipe), "commands were sent ahead of replies without PIPELINING");
        if ahead { cover(2); }
        if caps[2] && o.utf8 { cover(3); }
    }
    trace(&s.out);
    cover(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_options() {
    let (c, o) = configured(bound(3, 4));
    let x = choice(8);
    c10_run(c, o, [x & 1 > 0, x & 2 > 0, x & 4 > 0, false], 1, 1)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_sends() {
    let (c, o) = configured(1);
    let x = choice(16);
    c10_run(c, o, [x & 1 > 0, x & 2 > 0, x & 4 > 0, x & 8 > 0], 1 + choice(bound(3, 5)), 1 + choice(bound(3, 4)))
}
/// Advertised words that differ from the keyword in one symbolic letter, symbolic option values.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_sym() {
    let k = choice(4);
    let mut caps = [false; 4];
    let all: [&[u8]; 3] = [b"PIPELINING", b"8BITMIME", b"SMTPUTF8"];
    let mut l: Vec<Vec<u8>> = vec![];
    for i in 0..3 {
        let mut w = all[i].to_vec();
        if i == k {
            let at = [0, w.len() / 2, w.len() - 1][choice(3)];
            let b = graphic(1)[0];
            caps[i] = upper(b) == w[at];
            w[at] = b;
        } else {
            caps[i] = choice(2) == 0;
            if !caps[i] { continue; }
        }
        l.push(w);
    }
    if k == 3 { l.push(cat(&[b"SIZE ", &graphic(9)])); l.push(quiet_word(12, 12)); for a in [&b"PIPELINING"[..], b"SMTPUTF8", b"8BITMIME", b"STARTTLS"] { assume(!is_word(&l[l.len() - 1], a, true)); } }
    let (a, b) = (u8(), u8());
    let c = SmtpClient::new();
    let (c, hello) = if choice(2) == 0 { (c.smtp_utf8(a & 1 > 0).pipelining(b & 1 > 0), &b"[127.0.0.1]"[..]) } else { (c.pipelining(b & 1 > 0).smtp_utf8(a & 1 > 0).hello_name(ClientId::Domain("me".into())), &b"me"[..]) };
    let o = Opts { utf8: a & 1 > 0, pipe: b & 1 > 0, greet: true, hello: hello.to_vec() };
    c10_wire(c, o, caps, &l, 2, 2)
}

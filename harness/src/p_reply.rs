//! Replies: C05 grammar, C06 chunking, C07 severity, C08 session start, C18 robustness, C19 STARTTLS.

use crate::h::*;
use crate::net::*;
use crate::sx::*;
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::extension::ClientId;
use async_smtp::response::Response;
use async_smtp::*;

fn creds() -> Credentials { Credentials::new("u".into(), "p".into()) }
fn mail() -> SendableEmail { SendableEmail::new(env1(), b"hi\r\n".to_vec()) }

// ---------------------------------------------------------------- C05

fn c05_judge(v: Vec<u8>) {
    let s = unsafe { String::from_utf8_unchecked(v) };
    let r = s.parse::<Response>();
    match (&r, ref_reply(s.as_bytes())) {
        (Ok(r), Some(f)) => {
            trace_reply(r);
            ck!(ref_matches(r, &f, s.as_bytes()), "the parsed reply has another code or other text lines");
            cover(1);
            if f.lines.len() > 1 { cover(2); }
            if f.lines[f.lines.len() - 1].0 == f.used - 2 { cover(3); }
        }
        (Err(_), None) => { trace(b"E"); cover(4); }
        (Ok(_), None) => ck!(false, "something that is not a reply was parsed as one"),
        (Err(_), Some(_)) => ck!(false, "a reply was not parsed"),
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_raw() {
    let n = choice(bound(11, 13));
    c05_judge(ascii(n).into_bytes())
}
/// Up to `k` lines of symbolic code, separator, text and line end.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_lines() {
    let k = 1 + choice(bound(3, 4));
    let mut v = vec![];
    let odd = choice(k);
    let what = choice(3);
    for i in 0..k {
        // one line is symbolic (its code and separator, or its separator, text and line end, or
        // some of everything), the others only where they have to agree
        if i == odd {
            match what {
                0 => { v.extend_from_slice(ascii(4).as_bytes()); v.extend_from_slice(b"\r\n"); }
                1 => { v.extend_from_slice(b"250"); v.extend_from_slice(ascii(2 + choice(bound(3, 5))).as_bytes()); if choice(2) == 1 { v.extend_from_slice(b"\r\n"); } }
                _ => { push_char(&mut v, 1); v.extend_from_slice(b"50"); v.push(if i + 1 == k { b' ' } else { b'-' }); for _ in 0..3 { push_char(&mut v, 1); } v.extend_from_slice(b"\n"); }
            }
        } else {
            v.extend_from_slice(b"25");
            if what == 0 { push_char(&mut v, 1); } else { v.push(b'0'); }
            v.push(if i + 1 == k { b' ' } else { b'-' });
            if what != 0 { push_char(&mut v, 1); }
            v.extend_from_slice(b"\r\n");
        }
    }
    c05_judge(v)
}
/// Bare codes, empty texts, trailing bytes and truncation.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_ends() {
    let forms: [&[u8]; 6] = [b"250\r\n", b"250 \r\n", b"250-\r\n", b"250 a\r\n", b"250-a\r\n", b"250\n"];
    let mut v = vec![];
    for _ in 0..1 + choice(bound(3, 4)) { v.extend_from_slice(forms[choice(6)]); }
    match choice(3) {
        0 => {}
        1 => { let n = v.len(); v.truncate(choice(n)); }
        _ => { let i = choice(v.len()); let b = u8(); assume(b < 0x80); v[i] = b; }
    }
    c05_judge(v)
}
/// Text of any characters.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_text() {
    let mut v = b"220".to_vec();
    let multi = choice(2) == 1;
    v.push(if multi { b'-' } else { b' ' });
    for _ in 0..choice(bound(4, 5)) { let w = 1 + choice(4); push_char(&mut v, w); }
    v.extend_from_slice(b"\r\n");
    if multi { v.extend_from_slice(b"220 z\r\n"); }
    c05_judge(v)
}
/// Long texts and many lines, with one symbolic place.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_long() {
    let (lines, len) = match choice(3) {
        0 => (1 + choice(bound(12, 40)), choice(3)),
        1 => ([50, 100, 101, 128, 257][choice(5)], 1),
        _ => (1 + choice(2), [76, 99, 100, 101, 127, 128, 254, 255, 256, 507, 510, 512, 513, 998, 1024, 5000][choice(16)]),
    };
    let odd = [0, lines / 2, lines - 1][choice(3)];
    let mut v = vec![];
    for i in 0..lines {
        let at = v.len();
        v.extend_from_slice(b"354");
        v.push(if i + 1 == lines { b' ' } else { b'-' });
        for j in 0..len { v.push(b"250-abc "[j % 8]); }
        v.extend_from_slice(b"\r\n");
        if i == odd {
            let k = at + [0, 1, 2, 3, 4 + len / 2, 3 + len, 4 + len, 5 + len][choice(8)];
            let b = u8();
            assume(b < 0x80);
            v[k] = b;
        }
    }
    c05_judge(v)
}

/// Texts of symbolic printable characters.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c05_word() {
    let n = [7, 16, 40, 80][choice(bound(3, 4))];
    let k = 1 + choice(3);
    let free = choice(n + 1);
    let mut v = vec![];
    for i in 0..k {
        v.extend_from_slice([&b"250"[..], b"334", b"421", b"550"][(n + k) % 4]);
        v.push(if i + 1 == k { b' ' } else { b'-' });
        v.extend_from_slice(&quiet(n, if i == 0 { free } else { n }));
        v.extend_from_slice(b"\r\n");
    }
    if choice(2) == 1 { v.extend_from_slice(&quiet(12, 12)); }
    c05_judge(v)
}
// ---------------------------------------------------------------- C06

/// Symbolic ASCII text of `n` bytes without CRLF and not ending in CR.
fn line_text(n: usize) -> Vec<u8> {
    let v = ascii(n).into_bytes();
    let mut ok = true;
    for i in 0..n { ok &= !((v[i] == b'\r') & (i + 1 == n || v[if i + 1 < n { i + 1 } else { i }] == b'\n')); }
    assume(ok);
    v
}
/// A reply of up to `k` lines with the given code; texts of up to `t` symbolic ASCII bytes.
fn reply(code: &[u8], k: usize, t: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
    let n = 1 + choice(k);
    let mut v = vec![];
    let mut lines = vec![];
    for i in 0..n {
        let mut x = line_text(choice(t + 1));
        if t > 1 && !x.is_empty() && i == 0 && choice(2) == 1 { x.extend_from_slice("é".as_bytes()); }
        v.extend_from_slice(code);
        v.push(if i + 1 == n { b' ' } else { b'-' });
        v.extend_from_slice(&x);
        v.extend_from_slice(b"\r\n");
        lines.push(x);
    }
    (v, lines)
}
fn lines_are(r: &Response, lines: &[Vec<u8>]) -> bool {
    if r.message.len() != lines.len() { return false; }
    let mut ok = true;
    for (a, b) in r.message.iter().zip(lines) { ok &= same(a.as_bytes(), b); }
    ok
}
/// One command, every split of its reply, not-ready results anywhere, more bytes behind it.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_split() {
    let neg = choice(2) == 1;
    let k = 1 + choice(2);
    let (rep, lines) = reply(if neg { b"550" } else { b"235" }, k, if k == 1 { 2 } else { 0 });
    let follow: &[u8] = [&b""[..], b"250 next\r\n", b"5"][choice(3)];
    let n = net(&cat(&[GREET, &ehlo(&[])]));
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let start = s.pos;
    s.inp.extend_from_slice(&rep);
    s.inp.extend_from_slice(follow);
    s.p.r_split = if tier() == 0 && rep.len() > 10 { 4 } else { usize::MAX };
    s.p.r_pend = bound(0, 1);
    let r = oc(run(n, t.auth(Mechanism::Plain, &creds())));
    trace_oc(&r);
    ck!(r.kind == if neg { Kind::Permanent } else { Kind::Ok }, "the outcome depends on how the reply arrives");
    ck!(match &r.reply { Some(x) => lines_are(x, &lines), None => false }, "the reply's text depends on how it arrives");
    ck!(n.get().pos == start + rep.len(), "bytes beyond the reply were consumed, or bytes of it left");
    cover(1);
    if neg { cover(2); }
    if lines.len() > 1 { cover(3); }
}
/// Small reads of one fixed size and many not-ready results.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_slow() {
    let (rep, lines) = reply(b"235", bound(3, 4), 2);
    let n = net(&cat(&[GREET, &ehlo(&[])]));
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let start = s.pos;
    s.inp.extend_from_slice(&cat(&[&rep, b"250 next\r\n"]));
    s.p.r_max = 1 + choice(6);
    s.p.r_pend = bound(1, 2);
    let r = oc(run(n, t.auth(Mechanism::Plain, &creds())));
    trace_oc(&r);
    ck!(r.kind == Kind::Ok, "the outcome depends on how the reply arrives");
    ck!(match &r.reply { Some(x) => lines_are(x, &lines), None => false }, "the reply's text depends on how it arrives");
    ck!(n.get().pos == start + rep.len(), "bytes beyond the reply were consumed, or bytes of it left");
    cover(1);
}
/// The stream ends inside the reply.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_cut() {
    let code: &[u8] = [&b"235"[..], b"454", b"554"][choice(3)];
    let (mut rep, _) = reply(code, 3, bound(1, 2));
    let k = rep.len();
    rep.truncate(choice(k));
    let n = net(&cat(&[GREET, &ehlo(&[])]));
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    s.inp.extend_from_slice(&rep);
    s.p.r_split = 1;
    s.p.r_pend = bound(0, 1);
    let r = match choice(3) {
        0 => oc(run(n, t.auth(Mechanism::Plain, &creds()))),
        1 => oc_unit(run(n, t.quit())),
        _ => oc(run(n, t.send(mail()))),
    };
    trace_oc(&r);
    ck!(r.kind == Kind::Io || r.kind == Kind::Other, "a reply that the stream cuts off was reported as complete");
    cover(1);
}
/// All replies of a transaction together, in any split.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_send() {
    let pipe = choice(2) == 1;
    let rcpts = 1 + choice(2);
    let n = net(&cat(&[GREET, &ehlo(if pipe { &["PIPELINING"] } else { &[] })]));
    let mut t = open(n, SmtpClient::new());
    let mut inp = b"250 m\r\n".to_vec();
    for i in 0..rcpts { inp.extend_from_slice(if i == 0 { b"250-r\r\n250 s\r\n" } else { b"251 \r\n" }); }
    inp.extend_from_slice(b"354 d\r\n");
    let (rep, lines) = reply(b"250", 2, 1);
    inp.extend_from_slice(&rep);
    let s = n.get();
    s.inp.extend_from_slice(&inp);
    s.inp.extend_from_slice(b"221 bye\r\n");
    // two free read sizes, or one and a not-ready result, before reads of a fixed size
    match choice(2) { 0 => s.p.r_split = bound(1, 2), _ => { s.p.r_split = bound(0, 1); s.p.r_pend = 1; } }
    s.p.r_max = [0, 1, 7][choice(3)];
    let to = (0..rcpts).map(|i| addr(["x@y", "z@w"][i])).collect();
    let r = oc(run(n, t.send(SendableEmail::new(Envelope::new(None, to).unwrap(), b"m".to_vec()))));
    trace_oc(&r);
    ck!(r.kind == Kind::Ok, "the outcome depends on how the replies arrive");
    ck!(match &r.reply { Some(x) => lines_are(x, &lines), None => false }, "the reply's text depends on how it arrives");
    ck!(n.get().unread() == b"221 bye\r\n".len(), "bytes beyond the transaction's replies were consumed, or some left");
    ck!(oc_unit(run(n, t.quit())).kind == Kind::Ok, "the next operation did not get its reply");
    ck!(n.get().unread() == 0, "the next operation did not get exactly its reply");
    cover(1);
}
/// Greeting and capabilities in any split.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_open() {
    let n = net(b"220-a\r\n220 b\r\n250-me\r\n250-8BITMIME\r\n250-X\r\n250 AUTH LOGIN PLAIN\r\n");
    let s = n.get();
    match choice(2) { 0 => s.p.r_split = bound(2, 3), _ => { s.p.r_split = bound(0, 1); s.p.r_pend = 1; } }
    s.p.r_max = [0, 1, 2, 5][choice(4)];
    let mut t = open(n, SmtpClient::new());
    ck!(s.unread() == 0, "the session's replies were not consumed exactly");
    s.p = Policy::default();
    s.inp.extend_from_slice(b"235 ok\r\n250 m\r\n250 r\r\n354 d\r\n250 q\r\n");
    let k = s.out.len();
    let a = oc_unit(run(n, t.try_login(&creds(), &[Mechanism::Plain])));
    let b = oc(run(n, t.send(SendableEmail::new(env1(), b"m".to_vec()))));
    ck!(a.kind == Kind::Ok && b.kind == Kind::Ok, "operations fail after a slow start");
    trace(&s.out);
    ck!(is_prefix(b"AUTH PLAIN AHUAcA==\r\nMAIL FROM:<a@b> BODY=8BITMIME\r\nRCPT TO:<c@d>\r\nDATA\r\n", &s.out[k..]), "the capabilities depend on how the EHLO reply arrives");
    cover(1);
}
/// Long replies across usual buffer sizes, read in blocks.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_long() {
    let nl = [1, 2, 30, 120][choice(4)];
    let len = if nl == 1 { [90, 100, 512, 1024, 8190, 8192, 9000, 70000][choice(8)] } else { [10, 94, 100][choice(3)] };
    let mut rep = vec![];
    let mut lines = vec![];
    for i in 0..nl {
        let mut x: Vec<u8> = (0..len).map(|j| b"some 250-text. "[(i + j) % 15]).collect();
        if i == 0 || i + 1 == nl { let p = printable(2); x[0] = p.as_bytes()[0]; x[len - 1] = p.as_bytes()[1]; }
        rep.extend_from_slice(&cat(&[b"235", if i + 1 == nl { b" " } else { b"-" }, &x, b"\r\n"]));
        lines.push(x);
    }
    let n = net(&cat(&[GREET, &ehlo(&[])]));
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let start = s.pos;
    s.inp.extend_from_slice(&cat(&[&rep, b"250 next\r\n"]));
    s.p.r_max = [0, 64, 100, 101, 1000, 8192][choice(6)];
    let r = oc(run(n, t.auth(Mechanism::Plain, &creds())));
    ck!(r.kind == Kind::Ok, "the outcome depends on the length of the reply");
    ck!(match &r.reply { Some(x) => lines_are(x, &lines), None => false }, "the reply's text depends on how it arrives");
    ck!(n.get().pos == start + rep.len(), "bytes beyond the reply were consumed, or bytes of it left");
    cover(1);
}

/// Texts of symbolic characters in pieces of a fixed size, with line feeds in them.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_word() {
    let n = [10, 25][choice(2)];
    let k = 1 + choice(2);
    let (mut rep, mut lines) = (vec![], vec![]);
    for i in 0..k {
        let mut x = String::from_utf8(quiet_word(n, [0, n / 2, n][choice(3)])).unwrap();
        if i + 1 == k && choice(2) == 1 { let at = [0, n / 2, n][choice(3)]; x.insert_str(at, [&"\n"[..], "\n\n", "\r", "\r \n", "\u{e9}", "\0"][choice(6)]); }
        // a CR in front of the line's CRLF is text as well
        rep.extend_from_slice(&cat(&[b"235", if i + 1 == k { b" " } else { b"-" }, x.as_bytes(), b"\r\n"]));
        lines.push(x.into_bytes());
    }
    let n = net(&cat(&[GREET, &ehlo(&[])]));
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let start = s.pos;
    s.inp.extend_from_slice(&cat(&[&rep, b"250 next\r\n"]));
    s.p.r_max = [0, 1, 7][choice(3)];
    let r = oc(run(n, t.auth(Mechanism::Plain, &creds())));
    trace_oc(&r);
    ck!(r.kind == Kind::Ok, "the outcome depends on how the reply arrives");
    ck!(match &r.reply { Some(x) => lines_are(x, &lines), None => false }, "the reply's text depends on how it arrives");
    ck!(n.get().pos == start + rep.len(), "bytes beyond the reply were consumed, or bytes of it left");
    cover(1);
}
// ---------------------------------------------------------------- C07

const POINTS: [&str; 10] = ["greeting", "ehlo", "auth", "mail", "rcpt", "rcpt2", "data", "content", "quit", "starttls"];

fn c07_point(point: usize, pipe: bool, rep: &[u8], code: &[u8], lines: &[Vec<u8>]) {
    let caps: &[&str] = if pipe { &["PIPELINING", "STARTTLS"] } else { &["STARTTLS"] };
    let n = net(&[]);
    let s = n.get();
    s.inp.extend_from_slice(if point == 0 { rep } else { GREET });
    if point == 1 { s.inp.extend_from_slice(rep); } else { s.inp.extend_from_slice(&ehlo(caps)); }
    let first = code[0];
    let good = first < b'4';
    let want = if good { Kind::Ok } else if first == b'4' { Kind::Transient } else { Kind::Permanent };
    let r = if point < 2 {
        match run(n, SmtpTransport::new(SmtpClient::new(), Io(n))) {
            Ran::Done(Ok(_)) => Oc { kind: Kind::Ok, reply: None },
            Ran::Done(Err(e)) => oc_unit(Ran::Done(Err(e))),
            _ => Oc { kind: Kind::Stuck, reply: None },
        }
    } else {
        let mut t = open(n, SmtpClient::new());
        match point {
            2 => { s.inp.extend_from_slice(rep); oc(run(n, t.auth(Mechanism::Plain, &creds()))) }
            8 => { s.inp.extend_from_slice(rep); oc_unit(run(n, t.quit())) }
            9 => {
                s.inp.extend_from_slice(rep);
                match run(n, t.starttls()) {
                    Ran::Done(Ok(_)) => Oc { kind: Kind::Ok, reply: None },
                    Ran::Done(Err(e)) => oc_unit(Ran::Done(Err(e))),
                    _ => Oc { kind: Kind::Stuck, reply: None },
                }
            }
            _ => {
                let std: [&[u8]; 5] = [b"250 m\r\n", b"250 r\r\n", b"250 s\r\n", b"354 d\r\n", b"250 q\r\n"];
                for i in 0..5 { s.inp.extend_from_slice(if i + 3 == point { rep } else { std[i] }); }
                let e = Envelope::new(Some(addr("a@b")), vec![addr("c@d"), addr("e@f")]).unwrap();
                oc(run(n, t.send(SendableEmail::new(e, b"hi\r\n".to_vec()))))
            }
        }
    };
    trace_oc(&r);
    if r.kind != want {
        ck!(!(good && r.kind != Kind::Ok), "an accepting reply was not taken as accepted");
        ck!(!(!good && r.kind == Kind::Ok), "a refusal was taken as accepted");
        ck!(false, "a refusal was reported with the wrong class");
        return;
    }
    if !good {
        ck!(match &r.reply { Some(x) => same(&code_digits(&x.code), code) && lines_are(x, lines), None => false }, "the error does not carry the reply's code and text");
        cover(20 + point as u32);
    } else {
        if point == 2 || point == 7 {
            ck!(match &r.reply { Some(x) => same(&code_digits(&x.code), code) && lines_are(x, lines), None => false }, "the returned reply is not the server's");
        }
        cover(1 + point as u32);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c07_code() {
    let point = choice(POINTS.len());
    let pipe = point > 2 && point < 8 && choice(2) == 1;
    let code = bytes(3);
    assume((code[0] >= b'2') & (code[0] <= b'5') & (code[1] >= b'0') & (code[1] <= b'5') & (code[2] >= b'0') & (code[2] <= b'9'));
    // a challenge is not an outcome
    if point == 2 { assume(!same(&code, b"334")); }
    let k = 1 + choice(2);
    let mut rep = vec![];
    let mut lines = vec![];
    for i in 0..k {
        let mut x = vec![];
        if i == 0 && point == 1 { x.push(b'h'); }
        if i + 1 == k { x.extend_from_slice(printable(choice(bound(2, 3))).as_bytes()); }
        rep.extend_from_slice(&cat(&[&code, if i + 1 == k { b" " } else { b"-" }, &x, b"\r\n"]));
        lines.push(x);
    }
    c07_point(point, pipe, &rep, &code, &lines)
}
/// Longer texts that themselves look like replies of another class.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c07_text() {
    let point = choice(POINTS.len());
    let pipe = point > 2 && point < 8 && choice(2) == 1;
    let code: &[u8] = [&b"200"[..], b"250", b"354", b"421", b"450", b"451", b"500", b"503", b"554", b"559"][choice(10)];
    let texts: [&[u8]; 8] = [b"ok", b"4.7.1 5.0.0 2.0.0", b"550 5.1.1", b"250 ok", b"h 421 try later", b"5", b"x\ty", "h\u{e9}\u{20ac}".as_bytes()];
    let k = 1 + choice(3);
    let mut rep = vec![];
    let mut lines = vec![];
    let off = choice(8);
    for i in 0..k {
        let x = texts[(off + i * 3) % 8].to_vec();
        rep.extend_from_slice(&cat(&[code, if i + 1 == k { b" " } else { b"-" }, &x, b"\r\n"]));
        lines.push(x);
    }
    c07_point(point, pipe, &rep, code, &lines)
}

/// Texts of symbolic words: no text changes what a code says.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c07_word() {
    let point = choice(POINTS.len());
    let pipe = point > 2 && point < 8 && choice(2) == 1;
    let d = bytes(3);
    assume((d[0] >= b'2') & (d[0] <= b'5') & (d[1] >= b'0') & (d[1] <= b'5') & (d[2] >= b'0') & (d[2] <= b'9'));
    if point == 2 { assume(!same(&d, b"334")); }
    let n = [5, 2, 11][choice(bound(1, 3))];
    let k = 1 + choice(2);
    let (mut rep, mut lines) = (vec![], vec![]);
    for i in 0..k {
        let mut x = if i + 1 < k { vec![b'x'; n] } else { quiet_word(n, [0, n][choice(2)]) };
        x.push(b' ');
        x.extend_from_slice(&quiet_word(7, 7));
        rep.extend_from_slice(&cat(&[&d, if i + 1 == k { b" " } else { b"-" }, &x, b"\r\n"]));
        lines.push(x);
    }
    c07_point(point, pipe, &rep, &d, &lines)
}
// ---------------------------------------------------------------- C08

fn c08_id() -> (SmtpClient, Vec<u8>) {
    match choice(4) {
        0 => (SmtpClient::new(), b"EHLO [127.0.0.1]\r\n".to_vec()),
        1 => { let d = alpha(2); let w = cat(&[b"EHLO ", d.as_bytes(), b"\r\n"]); (SmtpClient::new().hello_name(ClientId::Domain(d)), w) }
        2 => (SmtpClient::new().pipelining(false).hello_name(ClientId::Ipv4([10, 0, 3, 255].into())).smtp_utf8(true), b"EHLO [10.0.3.255]\r\n".to_vec()),
        _ => (SmtpClient::new().hello_name(ClientId::Ipv6(std::net::Ipv6Addr::LOCALHOST)), b"EHLO [IPv6:::1]\r\n".to_vec()),
    }
}
fn alpha(n: usize) -> String {
    let s = printable(n);
    for b in s.as_bytes() { assume((*b >= b'a') & (*b <= b'z')); }
    s
}
fn c08_judge(n: N, client: SmtpClient, hello: &[u8], greeting: bool) {
    let s = n.get();
    let inp = s.inp.clone();
    s.p.r_max = [0, 1][choice(2)];
    let r = run(n, SmtpTransport::new(client, Io(n)));
    trace(&s.out);
    let (ok, stuck) = match &r { Ran::Done(x) => (x.is_ok(), false), _ => (false, true) };
    ck!(!stuck, "opening a session hangs");
    let mut at = 0;
    if greeting {
        match ref_reply(&inp) {
            Some(f) if f.code[0] < b'4' => at = f.used,
            _ => {
                ck!(s.out.is_empty(), "something was written without a positive greeting");
                ck!(!ok, "a session was opened without a positive greeting");
                cover(1);
                return;
            }
        }
    }
    ck!(same(&s.out, hello), "the session does not start with exactly one EHLO");
    ck!(!s.log.is_empty() && s.log[0].1 == at, "EHLO was not sent right after the greeting");
    ck!(s.flushed == s.out.len(), "EHLO was not flushed");
    match ref_reply(&inp[at..]) {
        Some(f) if f.code[0] < b'4' => {
            let (a, b) = f.lines[0];
            let mut named = false;
            let mut odd = false;
            for x in &inp[at + a..at + b] { named |= (*x > b' ') & (*x < 0x7f); odd |= (*x < b' ') | (*x >= 0x7f); }
            if named {
                ck!(ok, "the session was not opened");
                ck!(s.pos == at + f.used, "the replies were not consumed exactly");
                cover(2);
            } else if !odd {
                ck!(!ok, "a session was opened by a reply that names no server");
                cover(3);
            }
        }
        _ => { ck!(!ok, "a session was opened without a positive EHLO reply"); cover(4); }
    }
}
fn sym_ascii(n: usize) -> Vec<u8> { ascii(n).into_bytes() }
/// A code with one digit symbolic (thorough: all of them).
fn code3() -> Vec<u8> {
    if tier() > 0 { return sym_ascii(3); }
    let mut v = b"250".to_vec();
    v[choice(3)] = sym_ascii(1)[0];
    v
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c08_greeting() {
    let g = sym_ascii(choice(bound(8, 10)));
    let n = net(&cat(&[&g, b"250 me\r\n"]));
    c08_judge(n, SmtpClient::new(), b"EHLO [127.0.0.1]\r\n", true)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c08_ehlo() {
    let greeting = choice(2) == 1;
    let e = sym_ascii(choice(bound(9, 10)));
    let n = net(&cat(&[if greeting { GREET } else { b"" }, &e]));
    let c = if greeting { SmtpClient::new() } else { SmtpClient::new().without_greeting() };
    c08_judge(n, c, b"EHLO [127.0.0.1]\r\n", greeting)
}
/// Templates of greeting and EHLO reply with symbolic codes and identities.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c08_codes() {
    let (mut c, hello) = c08_id();
    let greeting = choice(2) == 1;
    if !greeting { c = c.without_greeting(); }
    let which = if greeting { choice(2) } else { 1 };
    let mut inp = vec![];
    if greeting {
        let g = if which == 0 { code3() } else { b"220".to_vec() };
        for i in 0..choice(2) { inp.extend_from_slice(&cat(&[&g, b"-l", &[b'0' + i as u8], b"\r\n"])); }
        inp.extend_from_slice(&cat(&[&g, [&b" hi\r\n"[..], b"\r\n", b"-hi\r\n"][choice(3)]]));
    }
    let e = if which == 1 { code3() } else { b"250".to_vec() };
    let first: &[u8] = [&b"-me\r\n"[..], b"- \r\n", b"-\r\n", b"- x y\r\n"][choice(4)];
    if choice(2) == 1 { inp.extend_from_slice(&cat(&[&e, first])); }
    inp.extend_from_slice(&cat(&[&e, [&b" PIPELINING\r\n"[..], b" \r\n", b"\r\n", b" x\r"][choice(4)]]));
    inp.extend_from_slice([&b""[..], b"220 more\r\n"][choice(2)]);
    c08_judge(net(&inp), c, &hello, greeting)
}

/// Symbolic words in greeting and EHLO reply.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c08_word() {
    let (mut c, hello) = c08_id();
    let greeting = choice(2) == 1;
    if !greeting { c = c.without_greeting(); }
    let n = [2, 8, 21][choice(3)];
    let free = [0, n][choice(2)];
    let mut inp = vec![];
    if greeting {
        let g = [&b"220"[..], b"421", b"554", b"354"][choice(4)];
        if choice(2) == 1 { inp.extend_from_slice(&cat(&[g, b"-", &quiet_word(n, n), b"\r\n"])); }
        inp.extend_from_slice(&cat(&[g, b" ", &quiet_word(n, free), b" ", &quiet_word(5, 5), b"\r\n"]));
    }
    let e = [&b"250"[..], b"451", b"550", b"220"][choice(4)];
    inp.extend_from_slice(&cat(&[e, b"-", &quiet_word(n, free), b" ", &quiet_word(6, 6), b"\r\n"]));
    inp.extend_from_slice(&cat(&[e, b" ", &quiet_word(10, free), b" ", &quiet_word(5, 5), b"\r\n"]));
    c08_judge(net(&inp), c, &hello, greeting)
}
// ---------------------------------------------------------------- C18

/// Any bytes at any stage, then end of stream.
fn c18_stage(stage: usize, junk: &[u8]) {
    let caps: &[&str] = if choice(2) == 1 { &["PIPELINING", "STARTTLS", "AUTH PLAIN LOGIN XOAUTH2"] } else { &["STARTTLS", "AUTH LOGIN"] };
    let n = net(&[]);
    let s = n.get();
    if stage == 0 { s.inp.extend_from_slice(junk); } else { s.inp.extend_from_slice(GREET); }
    if stage == 1 { s.inp.extend_from_slice(junk); }
    if stage == 2 { s.inp.extend_from_slice(&cat(&[b"250-", junk])); }
    if stage < 3 {
        let r = run(n, SmtpTransport::new(SmtpClient::new(), Io(n)));
        ck!(!r.is_stuck(), "opening a session hangs on the server's bytes");
        if r.done().unwrap().is_ok() { cover(2); } else { cover(1); }
        return;
    }
    s.inp.extend_from_slice(&ehlo(caps));
    let mut t = open(n, SmtpClient::new());
    let pre: &[u8] = match stage { 3..=7 => b"", 8 => b"250 m\r\n", 9 => b"250 m\r\n250 r\r\n", 10 => b"250 m\r\n250 r\r\n354 d\r\n", 11 => b"334 ", 12 => b"334 VXNlcm5hbWU6\r\n", _ => b"334-x\r\n334 " };
    s.inp.extend_from_slice(&cat(&[pre, junk]));
    let r = match stage {
        3 => oc_unit(run(n, t.quit())),
        4 => oc(run(n, t.auth(Mechanism::Plain, &creds()))),
        5 => oc(run(n, t.auth(Mechanism::Xoauth2, &creds()))),
        6 => match run(n, t.starttls()) { Ran::Done(x) => Oc { kind: if x.is_ok() { Kind::Ok } else { Kind::Other }, reply: None }, _ => Oc { kind: Kind::Stuck, reply: None } },
        7..=10 => oc(run(n, t.send(mail()))),
        _ => oc_unit(run(n, t.try_login(&creds(), &[Mechanism::Login]))),
    };
    trace(&[r.kind as u8]);
    ck!(r.kind != Kind::Stuck, "an operation hangs on the server's bytes");
    if r.kind == Kind::Ok { cover(2); } else { cover(1); }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_raw() {
    let stage = choice(14);
    let n = choice(bound(6, 8));
    let junk = bytes(n);
    c18_stage(stage, &junk)
}
/// Valid line ends around symbolic bytes.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_line() {
    let stage = choice(14);
    let mut junk = vec![];
    for i in 0..1 + choice(2) {
        junk.extend_from_slice([&b"250-"[..], b"250 ", b"334 ", b"535 ", b""][choice(5)]);
        junk.extend_from_slice(&bytes(choice(if i == 0 { bound(4, 5) } else { bound(1, 2) })));
        junk.extend_from_slice(b"\r\n");
    }
    c18_stage(stage, &junk)
}
/// Very long replies, never-ending lines, many lines; not UTF-8 at a symbolic place.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_long() {
    let stage = choice(14);
    let mut junk = vec![];
    match choice(4) {
        0 => { junk = vec![b'2'; [99, 100, 101, 1000, bound(66000, 140000)][choice(5)]]; }
        1 => { for _ in 0..[20, bound(60, 200)][choice(2)] { junk.extend_from_slice(b"250-PIPELINING AUTH \r\n"); } }
        2 => { for _ in 0..200 { junk.push(b'\n'); } }
        _ => { junk.extend_from_slice(b"250-"); junk.extend_from_slice(&vec![b'a'; [90, 5000][choice(2)]]); junk.extend_from_slice(b"\r\n250 x\r\n"); }
    }
    let k = junk.len();
    let at = [0, 3, k / 2, k - 2, k - 1][choice(5)];
    junk[at] = u8();
    c18_stage(stage, &junk)
}

/// Characters of several bytes in every phase, at every stage.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_wide() {
    let stage = choice(14);
    let c = ["\u{e9}", "\u{20ac}", "\u{1F600}"][choice(3)];
    let phase = choice(c.len());
    let len = [40, 300, bound(600, 5000)][choice(3)];
    let mut x = "abc"[..phase].to_string();
    while x.len() < len { x.push_str(c); }
    let junk = match choice(5) {
        4 => cat(&[b"334 ", &b64(x.as_bytes()), b"\r\n"]),
        0 => cat(&[b"250-", x.as_bytes(), b"\r\n250 AUTH ", x.as_bytes(), b"\r\n"]),
        1 => cat(&[b"334 ", x.as_bytes(), b"\r\n"]),
        2 => cat(&[x.as_bytes(), b"\r\n"]),
        _ => cat(&[b"550-", x.as_bytes(), b" ", x.as_bytes(), b"\r\n550 ", x.as_bytes(), b"\r\n"]),
    };
    c18_stage(stage, &junk)
}
/// EHLO replies: any keyword with any kind of argument, and greetings of every shape.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_ehlo() {
    let key = ["SIZE", "AUTH", "PIPELINING", "LIMITS", "DELIVERBY", "AUTH=", "HELP", "STARTTLS", "BURL", "8BITMIME", "X"][choice(11)];
    let sep = ["", " ", "=", "  ", " \t"][choice(5)];
    let d = |k: usize| -> Vec<u8> { let mut v = vec![b'9'; k]; for i in [0, k - 1] { v[i] = u8(); assume((v[i] >= b'0') & (v[i] <= b'9')); } v };
    // the largest numbers of every width, and what follows them
    let edge = |k: usize| -> Vec<u8> {
        let mut v = ["127", "255", "32767", "65535", "2147483647", "4294967295", "9223372036854775807", "18446744073709551615", "340282366920938463463374607431768211455"][k].as_bytes().to_vec();
        let e = v.len();
        for i in e - 2..e { v[i] = u8(); assume((v[i] >= b'0') & (v[i] <= b'9')); }
        v
    };
    let arg = match choice(7) {
        6 => edge(choice(9)),
        0 => vec![],
        1 => { let k = [1, 3, 10, 11, 19, 20, 21, 40][choice(8)]; d(k) }
        2 => cat(&[b"-", &d(2)]),
        3 => cat(&[&d(2), b".", &d(1), b" KB"]),
        4 => { let b = bytes(1); assume((b[0] != b'\n') & (b[0] != b'\r')); cat(&[b"x", &b, b"y"]) }
        _ => cat(&[b"imap://", &graphic(2), b"=", &graphic(1), b","]),
    };
    let line = cat(&[key.as_bytes(), sep.as_bytes(), &arg]);
    let stage = 1 + choice(2);
    let junk = if stage == 1 { cat(&[b"250-me\r\n250-", &line, b"\r\n250 ", &line, b"\r\n"]) } else { cat(&[&line, b"\r\n250-", &line, b"\r\n250 OK\r\n"]) };
    c18_stage(stage, &junk)
}
/// Enhanced status codes and other things that look like numbers, at every stage.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_status() {
    let stage = choice(14);
    let code = [&b"250"[..], b"421", b"550", b"334"][choice(4)];
    let mut x = [&b"2.1.0 ok"[..], b"5.7.1", b"4..1", b"5.", b".1.2", b"2.256.65536", b"99999999999999999999.1.1 x", b"5.1.1;", b"<a@b>... x", b"[", b"\"", b"id=", b":", b"=", b"%s%n", b"{}"][choice(16)].to_vec();
    let i = choice(x.len());
    if choice(2) == 1 { x[i] = graphic(1)[0]; }
    let junk = cat(&[code, b"-", &x, b"\r\n", code, b" ", &x, b"\r\n"]);
    c18_stage(stage, &junk)
}
/// Symbolic words at every stage.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_word() {
    let stage = choice(14);
    let n = [8, 24][choice(2)];
    let code = [&b"250"[..], b"421", b"535", b"334"][choice(if stage < 11 && stage != 4 && stage != 5 { 4 } else { 3 })];
    let junk = cat(&[code, b"-", &quiet_word(n, [0, n][choice(2)]), b"\r\n", code, b" ", &quiet_word(n, n), b" ", &quiet_word(4, 4), b"\r\n"]);
    c18_stage(stage, &junk)
}
// ---------------------------------------------------------------- C19

#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_reply() {
    let caps: &[&str] = [&["STARTTLS"][..], &["PIPELINING", "STARTTLS"], &["8BITMIME", "STARTTLS", "AUTH PLAIN"]][choice(3)];
    let n = net(&cat(&[GREET, &ehlo(caps)]));
    let t = open(n, SmtpClient::new());
    let s = n.get();
    let (start, k) = (s.pos, s.out.len());
    let rep = sym_ascii(choice(bound(8, 9)));
    s.inp.extend_from_slice(&rep);
    s.inp.extend_from_slice([&b""[..], b"220 x\r\n", b"\x16\x03\x01"][choice(3)]);
    s.p.r_max = [0, 1][choice(2)];
    let inp = s.inp[start..].to_vec();
    c19_judge(n, t, k, &inp)
}
fn c19_judge(n: N, t: T, k: usize, inp: &[u8]) {
    let s = n.get();
    let start = s.pos;
    let r = run(n, t.starttls());
    ck!(!r.is_stuck(), "starttls hangs");
    ck!(s.out[k..] == b"STARTTLS\r\n"[..], "something other than the STARTTLS command was written");
    ck!(s.flushed == s.out.len(), "STARTTLS was not flushed");
    match (r.done().unwrap(), ref_reply(inp)) {
        (Ok(io), Some(f)) => {
            ck!(f.code[0] < b'4', "the stream was handed over although the server refused");
            ck!(s.pos == start + f.used, "bytes beyond the reply were consumed");
            ck!(std::ptr::eq(io.0, n), "another stream was handed over");
            cover(1);
        }
        (Ok(_), None) => ck!(false, "the stream was handed over without a reply"),
        (Err(e), Some(f)) => {
            ck!(f.code[0] >= b'4', "the server agreed but the stream was not handed over");
            let k = err_kind(&e);
            ck!(k == if f.code[0] == b'4' { Kind::Transient } else { Kind::Permanent }, "the refusal is not reported");
            cover(2);
        }
        (Err(_), None) => cover(3),
    }
}
/// Multi-line replies with symbolic codes, in pieces.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_multi() {
    let n = net(&cat(&[GREET, &ehlo(&["STARTTLS"])]));
    let t = open(n, SmtpClient::new());
    let s = n.get();
    let k = s.out.len();
    let (c1, c2) = (code3(), code3());
    let inp = cat(&[&c1, b"-a\r\n", &c2, [&b" b\r\n"[..], b"\r\n", b"-b\r\n"][choice(3)], [&b"220 x\r\n"[..], b"\x16\x03"][choice(2)]]);
    s.inp.extend_from_slice(&inp);
    match choice(2) { 0 => s.p.r_split = bound(1, 2), _ => s.p.r_pend = 1 }
    c19_judge(n, t, k, &inp)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_unadvertised() {
    let line = match choice(8) {
        0 => "".to_string(),
        1 => "PIPELINING".to_string(),
        2 => "XSTARTTLS".to_string(),
        3 => "STARTTLSX".to_string(),
        4 => "X STARTTLS".to_string(),
        5 => "AUTH STARTTLS".to_string(),
        6 => { let s = alpha(2); format!("STARTTL{s}") }
        _ => { let s = printable(8); let i = choice(8); assume(s.as_bytes()[i].to_ascii_uppercase() != b"STARTTLS"[i]); s }
    };
    let n = net(&cat(&[GREET, b"250-me\r\n250-8BITMIME\r\n250 ", line.as_bytes(), b"\r\n", b"220 go\r\n"]));
    let mut t = open(n, SmtpClient::new());
    if choice(2) == 1 {
        // after a refused login
        n.get().inp = [&n.get().inp[..n.get().pos], b"535 no\r\n220 go\r\n"].concat();
        let _ = run(n, t.auth(Mechanism::Plain, &creds()));
    }
    let s = n.get();
    let (k, pos) = (s.out.len(), s.pos);
    let r = run(n, t.starttls());
    ck!(!r.is_stuck(), "starttls hangs");
    ck!(r.done().unwrap().is_err(), "STARTTLS succeeded although the server did not advertise it");
    ck!(s.out.len() == k, "something was written although STARTTLS is not advertised");
    ck!(s.pos == pos, "something was read although STARTTLS is not advertised");
    cover(1);
}

/// Symbolic words wherever the server may say something: only the keyword counts.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_word() {
    let n = [6, 8, 13, 24][choice(4)];
    let place = choice(6);
    let mut w = |i: usize, d: &str| if i == place { String::from_utf8(quiet_word(n, n)).unwrap() } else { d.to_string() };
    let (greet, name, rest, key, arg, auth) = (w(0, "hi"), w(1, "me"), w(2, "hello"), w(3, "8BITMIME"), w(4, "1000"), w(5, "PLAIN"));
    if n == 8 && place == 3 {
        let mut d = 0;
        for i in 0..8 { d |= key.as_bytes()[i].to_ascii_uppercase() ^ b"STARTTLS"[i]; }
        assume(d != 0);
    }
    let adv = choice(2) == 1;
    let n = net(format!("220 {greet} ESMTP\r\n250-{name} {rest}\r\n250-{key} {arg}\r\n{}250 AUTH {auth} LOGIN\r\n", if adv { "250-STARTTLS\r\n" } else { "" }).as_bytes());
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let k = s.out.len();
    if adv {
        let inp = cat(&[[&b"220 "[..], b"454 ", b"554 "][choice(3)], &quiet_word(12, [0, 12][choice(2)]), b" ", &quiet_word(3, 3), b"\r\n", b"\x16\x03\x01"]);
        s.inp.extend_from_slice(&inp);
        c19_judge(n, t, k, &inp);
        return;
    }
    s.inp.extend_from_slice(b"220 go\r\n");
    let pos = s.pos;
    let r = run(n, t.starttls());
    ck!(!r.is_stuck(), "starttls hangs");
    ck!(r.done().unwrap().is_err(), "STARTTLS succeeded although the server did not advertise it");
    ck!(s.out.len() == k, "something was written although STARTTLS is not advertised");
    ck!(s.pos == pos, "something was read although STARTTLS is not advertised");
    cover(10);
}

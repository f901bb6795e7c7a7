//! C28 waiting and waking, C29 error classes.

use crate::h::*;
use crate::p_text::alnum;
use crate::net::*;
use crate::sx::*;
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::error::Error;
use async_smtp::*;
use std::error::Error as _;

fn creds() -> Credentials { Credentials::new("u".into(), "p".into()) }
const M: [Mechanism; 3] = [Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2];
const CAPS: &[&str] = &["AUTH PLAIN LOGIN XOAUTH2", "STARTTLS"];

// ---------------------------------------------------------------- C28

/// Operations: quit, send from memory, send from a reader, PLAIN, LOGIN, XOAUTH2, STARTTLS.
const OPS: usize = 7;
fn c28_replies(op: usize, rcpts: usize) -> Vec<Vec<u8>> {
    let t = |l: &[&str]| l.iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>();
    match op {
        0 => t(&["221-bye\r\n221 bye\r\n"]),
        1 | 2 => { let mut v = t(&["250 m\r\n"]); for _ in 0..rcpts { v.push(b"250-r\r\n250 r\r\n".to_vec()); } v.extend(t(&["354 d\r\n", "250 q\r\n"])); v }
        3 | 5 => t(&["235 ok\r\n"]),
        4 => t(&["334 VXNlcm5hbWU6\r\n", "334 UGFzc3dvcmQ6\r\n", "235 ok\r\n"]),
        _ => t(&["220 go\r\n"]),
    }
}
fn c28_case(op: usize, pipe: bool, rcpts: usize, from: usize, p: &Policy, src: (usize, usize, usize), body: Vec<u8>) {
    let mut caps = CAPS.to_vec();
    if pipe { caps.push("PIPELINING"); }
    let mut replies = vec![ehlo(&caps)];
    replies.extend(c28_replies(op, rcpts));
    let n = served(GREET, replies);
    let s = n.get();
    if from == 0 { s.p = p.clone(); }
    let mut t = match run(n, SmtpTransport::new(SmtpClient::new(), Io(n))) {
        Ran::Done(Ok(t)) => t,
        Ran::Done(Err(_)) => { ck!(false, "an operation fails because something was not ready"); return }
        _ => { ck!(false, "an operation is not resumed when what it waits for is ready"); return }
    };
    if from == 1 { s.p = p.clone(); }
    let e = Envelope::new(Some(addr("a@b")), (0..rcpts).map(|i| addr(&format!("r{i}@d"))).collect()).unwrap();
    let k = match op {
        0 => oc_unit(run(n, t.quit())).kind,
        1 => oc(run(n, t.send(SendableEmail::new(e, body.clone())))).kind,
        2 => {
            let mut x = Src::new(body.clone(), n);
            (x.pend, x.splits, x.max) = src;
            oc(run(n, t.send(SendableEmail::new_with_reader(e, Box::new(x))))).kind
        }
        3 | 4 | 5 => oc(run(n, t.auth(M[op - 3], &creds()))).kind,
        _ => match run(n, t.starttls()) { Ran::Done(Ok(_)) => Kind::Ok, Ran::Done(Err(e)) => err_kind(&e), _ => Kind::Stuck },
    };
    trace(&[k as u8]);
    trace(&n.get().out);
    ck!(k != Kind::Stuck, "an operation is not resumed when what it waits for is ready");
    ck!(k == Kind::Ok, "an operation fails because something was not ready");
    ck!(n.get().unread() == 0, "a reply is left unread because something was not ready");
    if op == 1 || op == 2 { ck!(match receive(content(&n.get().out)) { Some(g) => faithful(&g, &body), None => false }, "a message is damaged because something was not ready"); cover(2); }
    cover(1);
}
/// Every write, flush and read may be not ready, in any combination of a given number.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c28_ops() {
    let op = choice(OPS);
    let pipe = choice(2) == 1;
    let mut p = Policy::default();
    match choice(5) { 0 => p.w_pend = 2, 1 => p.f_pend = 2, 2 => p.r_pend = 2, 3 => { p.w_pend = 1; p.f_pend = 1; p.r_pend = bound(0, 1); } _ => { p.f_pend = 1; p.r_pend = 1; } }
    c28_case(op, pipe, 1 + choice(2), choice(2), &p, (choice(2), 1, 0), b".a\r\n..\r\n".to_vec())
}
/// Replies that trickle in, and writes of one byte, with not-ready results in between.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c28_drip() {
    let op = choice(OPS);
    let mut p = Policy::default();
    match choice(4) { 0 => { p.r_max = 1; p.r_pend = 1; } 1 => { p.r_max = 2; p.r_pend = bound(1, 2); } 2 => { p.w_max = 1; p.w_pend = 1; } _ => { p.w_max = 2; p.f_pend = 2; } }
    c28_case(op, choice(2) == 1, 1, 1, &p, (0, 0, 1), b"x\r\n.y".to_vec())
}
/// Sources that are not ready, between reads of any size, of any content.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c28_source() {
    let body = bytes(choice(bound(4, 5)));
    let mut p = Policy::default();
    if choice(2) == 1 { p.f_pend = 1; p.arm = 40; }
    c28_case(2, choice(2) == 1, 1, 1, &p, (bound(2, 3), 2, 0), body)
}

// ---------------------------------------------------------------- C29

/// An I/O error of the transport: its kind and text are kept.
fn c29_cause(e: &Error, k: std::io::ErrorKind, injected: bool) {
    let Error::Io(x) = e else { ck!(false, "a failure of the transport or source is not an I/O error"); return };
    ck!(x.kind() == k, "an I/O error is not of the kind the transport or source reported");
    if injected {
        ck!(x.to_string() == "injected", "an I/O error does not keep its text");
        ck!(e.to_string() == "io: injected", "an error's text does not name its class and cause");
        ck!(match e.source() { Some(y) => y.to_string() == "injected", None => false }, "an error does not name its source");
    }
}
fn c29_op(n: N, t: T, op: usize, src: Src) -> Option<Error> {
    let mut t = t;
    let e = env1();
    match op {
        0 => run(n, t.quit()).done().unwrap().err(),
        1 => run(n, t.send(SendableEmail::new(e, b"x\r\n.".to_vec()))).done().unwrap().err(),
        2 => run(n, t.send(SendableEmail::new_with_reader(e, Box::new(src)))).done().unwrap().err(),
        3 | 4 | 5 => run(n, t.auth(M[op - 3], &creds())).done().unwrap().err(),
        6 => run(n, t.starttls()).done().unwrap().err(),
        _ => run(n, t.try_login(&creds(), &[Mechanism::Xoauth2, Mechanism::Login])).done().unwrap().err(),
    }
}
/// Any kind of I/O error, at any write, flush or read, or from the source.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c29_io() {
    let op = choice(8);
    let pipe = choice(2) == 1;
    let mut caps = CAPS.to_vec();
    if pipe { caps.push("PIPELINING"); }
    let mut replies = vec![ehlo(&caps)];
    replies.extend(c28_replies(if op == 7 { 3 } else { op }, 1));
    let n = served(GREET, replies);
    let s = n.get();
    let k = u8();
    assume((k as usize) < FATAL);
    s.p.kind = k as usize;
    let mut src = Src::new(b"abcd".to_vec(), n);
    src.kind = k as usize;
    let from_source = op == 2 && choice(2) == 1;
    if from_source { src.fail_at = Some(choice(5)); src.splits = 1; }
    else { match choice(3) { 0 => s.p.w_err = 1, 1 => s.p.f_err = 1, _ => s.p.r_err = 1 } }
    s.p.arm = [0, 19][choice(2)];
    let r = run(n, SmtpTransport::new(SmtpClient::new(), Io(n)));
    let e = match r {
        Ran::Done(Ok(t)) => c29_op(n, t, op, src),
        Ran::Done(Err(e)) => Some(e),
        _ => { ck!(false, "an operation hangs"); return }
    };
    let s = n.get();
    match e {
        None => { ck!(!s.failed && !s.read_failed && !from_source, "a failure of the transport or source is not reported"); cover(1); }
        Some(e) => {
            ck!(s.failed || s.read_failed || from_source, "an I/O error is made up");
            // a write that takes nothing is the other way to fail
            if matches!(&e, Error::Io(x) if x.to_string() != "injected") && s.failed { c29_cause(&e, std::io::ErrorKind::WriteZero, false); cover(3); }
            else { c29_cause(&e, ERRORS[k as usize], true); cover(2); }
        }
    }
}
/// Replies that are refused, malformed, cut off or not text, at the greeting, at EHLO and in every operation.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c29_reply() {
    let at = choice(10);
    let mut inp = vec![];
    if at >= 1 { inp.extend_from_slice(GREET); }
    if at >= 2 { inp.extend_from_slice(&ehlo(CAPS)); }
    let what = choice(6);
    let d = bytes(3);
    assume((d[0] >= b'4') & (d[0] <= b'5') & (d[1] >= b'0') & (d[1] <= b'5') & (d[2] >= b'0') & (d[2] <= b'9'));
    let x = quiet_word(5, 0);
    let one: [&[u8]; 3] = [b"one", b"", b"4.7.0 two"];
    let lines = if what == 0 { 1 + choice(4) } else { 2 };
    match what {
        // a refusal
        0 => {
            for l in &one[..lines - 1] { inp.extend_from_slice(&cat(&[&d, b"-", l, b"\r\n"])); }
            inp.extend_from_slice(&cat(&[&d, b" ", &x, b"\r\n"]))
        }
        // a first digit no reply has
        1 => { let b = u8(); assume((b >= 0x20) & (b < 0x7f) & ((b < b'2') | (b > b'5'))); inp.extend_from_slice(&cat(&[&[b], &d[1..], b" no\r\n"])); }
        // a separator no reply has
        2 => { let b = u8(); assume((b > 0x20) & (b < 0x7f) & (b != b'-')); inp.extend_from_slice(&cat(&[&d, &[b], b"no\r\n"])); }
        // cut off
        3 => { let l = cat(&[&d, b"-one\r\n", &d, b" ", &x, b"\r"]); inp.extend_from_slice(&l[..[0, 2, 6, 9, 16, l.len()][choice(6)]]); }
        // not text
        4 => { let b = u8(); assume(b >= 0x80); inp.extend_from_slice(&cat(&[&d, b" x", &[b], b"y\r\n"])); }
        // one line refuses, the other does not
        _ => inp.extend_from_slice(&cat(&[&d, b"-one\r\n250 ", &x, b"\r\n"])),
    }
    let n = net(&inp);
    let e = match run(n, SmtpTransport::new(SmtpClient::new(), Io(n))) {
        Ran::Done(Err(e)) => { ck!(at < 2, "opening fails although it was accepted"); e }
        Ran::Done(Ok(t)) => {
            ck!(at >= 2, "opening succeeds although it was not accepted");
            match c29_op(n, t, at - 2, Src::new(vec![], n)) { Some(e) => e, None => { ck!(false, "an operation succeeds although it was not accepted"); return } }
        }
        _ => { ck!(false, "an operation hangs"); return }
    };
    match what {
        0 => {
            let r = match &e {
                Error::Transient(r) => { ck!(d[0] == b'4', "a refusal is not reported under its class"); r }
                Error::Permanent(r) => { ck!(d[0] == b'5', "a refusal is not reported under its class"); r }
                _ => { ck!(false, "a refusal is not reported under its class"); return }
            };
            ck!(same(&code_digits(&r.code), &d) && r.message.len() == lines && (0..lines - 1).all(|i| r.message[i].as_bytes() == one[i]) && same(r.message[lines - 1].as_bytes(), &x), "a refusal does not carry the reply");
            ck!(e.source().is_none(), "a refusal names a source");
            cover(10);
        }
        1 | 2 | 5 => { ck!(matches!(&e, Error::Parsing(_)), "a malformed reply is not reported as such"); cover(11); }
        3 => { ck!(matches!(&e, Error::Io(_)), "a connection that ends is not an I/O error"); cover(12); }
        _ => { ck!(matches!(&e, Error::Io(_)), "a reply that is not text is not reported as such"); cover(13); }
    }
}
/// What goes wrong with a challenge, or for want of an extension.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c29_auth() {
    let m = choice(3);
    let what = choice(8);
    let mut w = b"YWJjZGVm".to_vec();
    let i = choice(8);
    let b = u8();
    match what {
        // a character base64 does not have
        0 => { assume((b > 0x20) & (b < 0x7f) & !((b >= b'a') & (b <= b'z')) & !((b >= b'A') & (b <= b'Z')) & !((b >= b'0') & (b <= b'9')) & (b != b'+') & (b != b'/') & ((b != b'=') | (i < 6))); w[i] = b; }
        // not text
        1 => { assume(b >= 0x80); let mut x = b"abcdef".to_vec(); x[i % 6] = b; w = b64(&x); }
        // an unknown prompt
        2 => { assume((b >= 0x20) & (b < 0x7f)); let mut x = b"abcdef".to_vec(); x[i % 6] = b; w = b64(&x); }
        // no prompt at all
        3 => w = [&b""[..], b" ", b"  \t "][i % 3].to_vec(),
        // a group of a single character
        6 => { let c = alnum(1).into_bytes()[0]; w[i] = c; w.truncate([1, 5][choice(2)]); }
        // padding where none belongs, or too much of it, or bits that are left over
        7 => {
            let c = alnum(1).into_bytes()[0];
            w[i] = c;
            w = match choice(5) { 0 => cat(&[&w, b"="]), 1 => cat(&[&w, b"===="]), 2 => cat(&[&w[..5], b"==="]), 3 => cat(&[b"=", &w[1..]]), _ => { assume((c != b'A') & (c != b'Q') & (c != b'g') & (c != b'w')); cat(&[b"YWJj", &[b'Z', c], b"=="]) } };
        }
        // the command itself, made from a reply that is no challenge
        4 => {
            let d = bytes(3);
            assume((d[0] >= b'2') & (d[0] <= b'5') & (d[1] >= b'0') & (d[1] <= b'5') & (d[2] >= b'0') & (d[2] <= b'9') & !same(&d, b"334"));
            let r: response::Response = match std::str::from_utf8(&cat(&[&d, b" UGFzc3dvcmQ6\r\n"])).unwrap().parse() { Ok(r) => r, Err(_) => { ck!(false, "a reply is refused"); return } };
            let e = commands::AuthCommand::new_from_response(M[m], creds(), &r);
            ck!(matches!(e, Err(Error::ResponseParsing(_))), "an AUTH command is made from a reply that is no challenge");
            cover(20);
            return;
        }
        _ => {
            let n = net(&cat(&[GREET, &ehlo(&["SIZE 1", "AUTH LOGIN"]), b"220 go\r\n"]));
            let t = open(n, SmtpClient::new());
            let e = run(n, t.starttls()).done().unwrap().err().unwrap();
            ck!(matches!(e, Error::Client(_)) && e.to_string().starts_with("client: "), "a missing extension is not reported as the client's error");
            cover(21);
            return;
        }
    }
    let n = net(&cat(&[GREET, &ehlo(CAPS), b"334 ", &w, b"\r\n235 ok\r\n"]));
    let mut t = open(n, SmtpClient::new());
    let Some(Err(e)) = run(n, t.auth(M[m], &creds())).done() else { ck!(false, "an unusable challenge is not reported"); return };
    match what {
        0 | 6 | 7 => { ck!(matches!(&e, Error::ChallengeParsing(_)) && e.source().is_some(), "a challenge that is not base64 is not reported as such"); cover(22); }
        1 => { ck!(matches!(&e, Error::Utf8Parsing(_)) && e.source().is_some(), "a challenge that is not text is not reported as such"); cover(23); }
        2 => { ck!(matches!(&e, Error::Client(_)), "an unexpected prompt is not reported as such"); cover(24); }
        _ => { ck!(matches!(&e, Error::ResponseParsing(_)), "an empty challenge is not reported as such"); cover(25); }
    }
}

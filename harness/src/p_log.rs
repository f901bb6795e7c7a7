//! C30: logging only observes. Everything is done twice, without and with a logger that renders every record.

use crate::h::*;
use crate::net::*;
use crate::sx::*;
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::extension::ClientId;
use async_smtp::*;
use std::sync::atomic::{AtomicUsize, Ordering};

struct Log;
static RECORDS: AtomicUsize = AtomicUsize::new(0);
/// Level, and what the logger says when asked.
static LEVEL: AtomicUsize = AtomicUsize::new(5);
static ENABLED: AtomicUsize = AtomicUsize::new(1);
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool { ENABLED.load(Ordering::Relaxed) > 0 }
    fn log(&self, r: &log::Record) {
        let s = r.args().to_string();
        RECORDS.fetch_add(1 + (s.len() & 0), Ordering::Relaxed);
    }
    fn flush(&self) {}
}
fn logging(on: bool) {
    let _ = log::set_logger(&Log);
    log::set_max_level(if on { unsafe { std::mem::transmute::<usize, log::LevelFilter>(LEVEL.load(Ordering::Relaxed)) } } else { log::LevelFilter::Off });
}

/// What can be seen of a session from outside.
struct Seen { opened: bool, kind: Kind, reply: Option<response::Response>, out: Vec<u8>, unread: usize, text: String }
struct Script<'a> { stage: usize, inp: &'a [u8], hello: Option<&'a str>, from: Option<&'a str>, to: &'a [String], user: &'a str, secret: &'a str, body: &'a [u8] }
fn play(s: &Script) -> Seen {
    let n = net(s.inp);
    let mut c = SmtpClient::new().smtp_utf8(true);
    if let Some(h) = s.hello { c = c.hello_name(ClientId::new(h.to_string())); }
    let seen = |opened, o: Oc, text| Seen { opened, kind: o.kind, reply: o.reply, out: n.get().out.clone(), unread: n.get().unread(), text };
    let mut t = match run(n, SmtpTransport::new(c, Io(n))) {
        Ran::Done(Ok(t)) => t,
        Ran::Done(Err(e)) => { let text = e.to_string(); return seen(false, oc_unit(Ran::Done(Err(e))), text) }
        _ => return seen(false, oc_unit(Ran::Stuck), String::new()),
    };
    let creds = Credentials::new(s.user.to_string(), s.secret.to_string());
    let r = match s.stage {
        0 => run(n, t.quit()).done().map(|r| r.map(|_| None)),
        1 => run(n, t.auth(Mechanism::Plain, &creds)).done().map(|r| r.map(Some)),
        2 => run(n, t.auth(Mechanism::Xoauth2, &creds)).done().map(|r| r.map(Some)),
        3 => run(n, t.try_login(&creds, &[Mechanism::Login])).done().map(|r| r.map(|_| None)),
        4 => run(n, t.starttls()).done().map(|r| r.map(|_| None)),
        5 => run(n, t.try_login(&creds, &[])).done().map(|r| r.map(|_| None)),
        // sends, logins and the end, whatever comes of each
        7 => {
            let mut last = None;
            let mut text = String::new();
            for op in 0..4 {
                let e = Envelope::new(None, vec![addr("x@y")]).unwrap();
                let r = match op {
                    0 => run(n, t.send(SendableEmail::new(e, b"m".to_vec()))).done().map(|r| r.map(Some)),
                    1 => run(n, t.try_login(&creds, &[Mechanism::Xoauth2, Mechanism::Login])).done().map(|r| r.map(|_| None)),
                    2 => run(n, t.auth(Mechanism::Plain, &creds)).done().map(|r| r.map(Some)),
                    _ => run(n, t.quit()).done().map(|r| r.map(|_| None)),
                };
                match r {
                    None => return seen(true, oc_unit(Ran::Stuck), text),
                    Some(Ok(r)) => { if r.is_some() { last = r; } text.push('+'); }
                    Some(Err(e)) => text.push_str(&e.to_string()),
                }
            }
            return seen(true, Oc { kind: Kind::Ok, reply: last }, text);
        }
        _ => {
            let from = s.from.map(addr);
            let e = Envelope::new(from, s.to.iter().map(|a| addr(a)).collect()).unwrap();
            run(n, t.send(SendableEmail::new(e, s.body.to_vec()))).done().map(|r| r.map(Some))
        }
    };
    match r {
        None => seen(true, oc_unit(Ran::Stuck), String::new()),
        Some(Ok(reply)) => seen(true, Oc { kind: Kind::Ok, reply }, String::new()),
        Some(Err(e)) => { let text = e.to_string(); seen(true, oc_unit(Ran::Done(Err(e))), text) }
    }
}
fn same_reply(a: &Option<response::Response>, b: &Option<response::Response>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(&code_digits(&a.code), &code_digits(&b.code)) && a.message.len() == b.message.len() && a.message.iter().zip(&b.message).all(|(x, y)| same(x.as_bytes(), y.as_bytes())),
        _ => false,
    }
}
fn judge(s: &Script) {
    logging(false);
    RECORDS.store(0, Ordering::Relaxed);
    let a = play(s);
    ck!(RECORDS.load(Ordering::Relaxed) == 0, "something is logged although logging is off");
    logging(true);
    let b = play(s);
    logging(false);
    trace(&b.out);
    ck!(same(&a.out, &b.out), "what a session writes depends on logging");
    ck!(a.opened == b.opened && a.kind == b.kind && same_reply(&a.reply, &b.reply) && same(a.text.as_bytes(), b.text.as_bytes()), "how an operation ends depends on logging");
    ck!(a.unread == b.unread, "what a session reads depends on logging");
    if RECORDS.load(Ordering::Relaxed) > 0 { cover(2); }
    cover(1);
}
const CAPS: &[&str] = &["PIPELINING", "8BITMIME", "STARTTLS", "AUTH PLAIN LOGIN XOAUTH2"];
fn plain(stage: usize, inp: &[u8]) { judge(&Script { stage, inp, hello: None, from: Some("a@b"), to: &["c@d".to_string()], user: "u", secret: "p", body: b".x" }) }
fn before(at: usize) -> (usize, Vec<u8>) {
    let opened = cat(&[GREET, &ehlo(CAPS)]);
    match at {
        0 => (0, vec![]),
        1 => (0, GREET.to_vec()),
        2 => (0, cat(&[GREET, b"250-"])),
        3 => (0, cat(&[GREET, b"250-me\r\n250-AUTH"])),
        4..=8 => (at - 4, opened),
        9 => (6, opened),
        10 => (6, cat(&[&opened, b"250 m\r\n250 r\r\n"])),
        11 => (6, cat(&[&opened, b"250 m\r\n250 r\r\n354 d\r\n"])),
        14 => (5, opened),
        15 => (7, cat(&[GREET, b"250-m\r\n250 AUTH LOGIN\r\n250 m\r\n250 r\r\n354 d\r\n250 k\r\n"])),
        16 => (3, cat(&[GREET, &ehlo(&["AUTH PLAIN"])])),
        12 => (3, cat(&[&opened, b"334 "])),
        _ => (3, cat(&[&opened, b"334 VXNlcm5hbWU6\r\n334 "])),
    }
}
/// Any few bytes from the server, at every point.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c30_raw() {
    let (stage, mut inp) = before(choice(17));
    let start = [&b""[..], b"250-x\r\n250 ", b"550 ", b"334 "][choice(4)];
    inp.extend_from_slice(start);
    inp.extend_from_slice(&bytes(choice(bound(4, 5))));
    if choice(2) == 1 { inp.extend_from_slice(b"\r\n250 k\r\n"); }
    plain(stage, &inp)
}
/// Long lines, and characters of several bytes in every phase, at every point; plain and as a challenge.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c30_wide() {
    let (stage, mut inp) = before(choice(17));
    let c = ["\u{20ac}", "{}", "\u{e9}", "\u{1f600}", "a"][choice(bound(2, 5))];
    let mut x = "abc"[..choice(bound(3, 4))].to_string();
    let len = [0, 40, 130, 5000][choice(bound(3, 4))];
    while x.len() < len { x.push_str(c); }
    // one free character at the end
    let w = 1 + 2 * choice(2);
    let mut v = x.into_bytes();
    let at = v.len();
    push_char(&mut v, w);
    if w == 1 { assume((v[at] != b'\r') & (v[at] != b'\n')); }
    let x = unsafe { String::from_utf8_unchecked(v) };
    let code = [&b"250"[..], b"334", b"550"][choice(3)];
    match choice(3) {
        0 => inp.extend_from_slice(&cat(&[code, b"-", x.as_bytes(), b"\r\n", code, b" AUTH ", x.as_bytes(), b"\r\n"])),
        1 => inp.extend_from_slice(&cat(&[code, b" ", x.as_bytes(), b"\r\n"])),
        _ => inp.extend_from_slice(&cat(&[code, b" ", &b64(x.as_bytes()), b"\r\n"])),
    }
    plain(stage, &inp)
}
/// The client's own data: identity, addresses, credentials and content.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c30_own() {
    let opened = cat(&[GREET, &ehlo(CAPS)]);
    let refuse = choice(2) == 1;
    let last: &[u8] = if refuse { b"535-no\r\n535 \r\n" } else { b"250-\r\n250 x\r\n" };
    let mut s = Script { stage: 0, inp: &[], hello: None, from: Some("a@b"), to: &[], user: "u", secret: "p", body: b"" };
    let (a, b, inp, to, body);
    match choice(4) {
        0 => {
            a = any_chars(choice(bound(3, 4)));
            s.hello = Some(&a);
            inp = cat(&[GREET, b"250 \xc3\xa9 x\r\n", last]);
        }
        1 => {
            (a, b) = if choice(2) == 0 { (any_chars(choice(3)), any_chars(choice(2))) } else { ("\u{20ac}".repeat(choice(70)), "x".repeat(choice(3) * 40)) };
            (s.user, s.secret) = (&a, &b);
            s.stage = 1 + choice(3);
            inp = if s.stage == 3 { cat(&[&opened, b"334 VXNlcm5hbWU6\r\n334 UGFzc3dvcmQ6\r\n", last]) } else { cat(&[&opened, last]) };
        }
        2 => {
            (a, b) = (word(choice(3)), word(choice(3)));
            for c in a.bytes().chain(b.bytes()) { assume((c != b'<') & (c != b'>')); }
            s.from = if choice(2) == 0 { None } else { Some(&a) };
            to = vec![b, "c@d".to_string(), "c@d".to_string()];
            s.to = &to;
            s.stage = 6;
            inp = cat(&[&opened, b"250 m\r\n250 r\r\n250 r\r\n250 r\r\n354 d\r\n", last]);
        }
        _ => {
            body = if choice(2) == 0 { bytes(choice(bound(4, 5))) } else { let mut v = "\u{20ac}\r\n.".repeat(choice(60)).into_bytes(); v.push(u8()); v };
            to = vec!["c@d".to_string()];
            s.body = &body;
            s.to = &to;
            s.stage = 6;
            inp = cat(&[&opened, b"250 m\r\n250 r\r\n354 d\r\n", last]);
        }
    }
    s.inp = &inp;
    judge(&s)
}

/// Any level, and a logger that says anything about what it takes.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c30_level() {
    let l = u8();
    assume((l >= 1) & (l <= 5));
    let e = u8();
    assume(e <= 1);
    LEVEL.store(l as usize, Ordering::Relaxed);
    ENABLED.store(e as usize, Ordering::Relaxed);
    let end: &[u8] = [&b""[..], b"250 x\r\n", b"450-x\r\n450 y\r\n", b"550 x\r\n", b"334 !\r\n", b"334 VXNlcm5hbWU6\r\n334 UGFzc3dvcmQ6\r\n235 k\r\n", b"xyz\r\n", b"250 \xff\r\n"][choice(8)];
    let (stage, mut inp) = before(choice(17));
    inp.extend_from_slice(end);
    plain(stage, &inp);
    LEVEL.store(5, Ordering::Relaxed);
    ENABLED.store(1, Ordering::Relaxed);
}

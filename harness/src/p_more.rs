//! C25 independent sessions, C26 reply accessors, C27 message readers.

use crate::h::*;
use crate::p_text::alnum;
use crate::net::*;
use crate::sx::*;
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::response::*;
use async_smtp::*;
use std::future::Future;
use std::task::{Context, Poll, Waker};

// ---------------------------------------------------------------- C25

fn creds() -> Credentials { Credentials::new("u".into(), "p".into()) }
/// What a session may use: PIPELINING, 8BITMIME, SMTPUTF8, STARTTLS, AUTH PLAIN, AUTH LOGIN.
type Caps = [bool; 6];
fn caps_of(x: usize) -> Caps { [x & 1 > 0, x & 2 > 0, x & 4 > 0, x & 8 > 0, x & 16 > 0, x & 32 > 0] }
/// An EHLO reply whose keywords each have a symbolic letter, and what it says.
fn any_caps(free: Caps, base: &Caps) -> (Vec<u8>, Caps) {
    let mut c = *base;
    let mut l = vec![];
    let words: [&[u8]; 6] = [b"PIPELINING", b"8BITMIME", b"SMTPUTF8", b"STARTTLS", b"PLAIN", b"LOGIN"];
    let mut auth = b"AUTH".to_vec();
    for i in 0..6 {
        let mut w = words[i].to_vec();
        if free[i] {
            let b = graphic(1)[0];
            c[i] = b == w[1] || (i < 4 && b == w[1] + 32 && w[1] >= b'A');
            w[1] = b;
        } else if !c[i] { continue; }
        if i < 4 { l.push(w); } else { auth.push(b' '); auth.extend_from_slice(&w); }
    }
    if auth.len() > 4 { l.push(auth); }
    let mut r = if l.is_empty() { b"250 mx.me hi\r\n".to_vec() } else { b"250-mx.me hi\r\n".to_vec() };
    for (i, x) in l.iter().enumerate() { r.extend_from_slice(&cat(&[if i + 1 == l.len() { b"250 " } else { b"250-" }, x, b"\r\n"])); }
    (r, c)
}
fn caps_reply(c: &Caps) -> Vec<u8> {
    let mut l: Vec<&str> = vec![];
    for (i, k) in ["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS"].iter().enumerate() { if c[i] { l.push(k); } }
    if c[4] && c[5] { l.push("AUTH PLAIN LOGIN"); } else if c[4] { l.push("AUTH PLAIN"); } else if c[5] { l.push("AUTH LOGIN"); }
    ehlo(&l)
}
/// The session on `n` behaves as the given capabilities call for, whatever happened elsewhere.
fn c25_uses(n: N, t: &mut T, c: &Caps, utf8: bool, who: &str, op: usize) {
    let s = n.get();
    let at = s.out.len();
    match op {
        0 => {
            { let v = s.srv(); v.replies.truncate(v.next); }
            for x in ["250 m", "250 r", "250 s", "354 d", "250 q"] { s.srv().replies.push(cat(&[x.as_bytes(), who.as_bytes(), b"\r\n"])); }
            let log = s.log.len();
            let e = Envelope::new(Some(addr("a@b")), vec![addr("c@d"), addr(&format!("{who}@f"))]).unwrap();
            let r = oc(run(n, t.send(SendableEmail::new(e, who.as_bytes().to_vec()))));
            trace_oc(&r);
            ck!(r.kind == Kind::Ok && is_reply(&r.reply, b"250", &cat(&[b"q", who.as_bytes()])), "a send was not decided by its own session");
            let want = cat(&[b"MAIL FROM:<a@b>", if c[1] { b" BODY=8BITMIME" } else { b"" }, if c[2] && utf8 { b" SMTPUTF8" } else { b"" }, b"\r\nRCPT TO:<c@d>\r\nRCPT TO:<", who.as_bytes(), b"@f>\r\nDATA\r\n", who.as_bytes()]);
            ck!(is_prefix(&want, &s.out[at..]), "MAIL does not follow what this session's server advertised");
            // the second command is written before the first is answered only when pipelining is on
            let mail = at + want.iter().position(|x| *x == b'\n').unwrap() + 1;
            let second = s.log[log..].iter().filter(|x| x.0 <= mail).last().unwrap().1;
            ck!(second != s.log[log].1 || c[0], "pipelining does not follow what this session's server advertised");
        }
        1 => {
            { let v = s.srv(); v.replies.truncate(v.next); }
            s.srv().replies.push(b"235 ok\r\n".to_vec());
            let r = oc_unit(run(n, t.try_login(&creds(), &[Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2])));
            ck!(r.kind == Kind::Ok, "a login was not decided by its own session");
            let want: &[u8] = if c[4] { b"AUTH PLAIN AHUAcA==\r\n" } else if c[5] { b"AUTH LOGIN\r\n" } else { b"" };
            ck!(s.out[at..] == *want, "login does not follow what this session's server advertised");
        }
        _ => {}
    }
}
fn c25_starttls(n: N, t: T, c: &Caps) -> Option<Io> {
    let s = n.get();
    let at = s.out.len();
    { let v = s.srv(); v.replies.truncate(v.next); }
    s.srv().replies.push(b"220 go\r\n".to_vec());
    let r = run(n, t.starttls());
    ck!(s.out[at..] == *(if c[3] { &b"STARTTLS\r\n"[..] } else { b"" }), "STARTTLS does not follow what this session's server advertised");
    match r {
        Ran::Done(Ok(io)) => { ck!(c[3], "STARTTLS does not follow what this session's server advertised"); Some(io) }
        _ => { ck!(!c[3], "STARTTLS does not follow what this session's server advertised"); None }
    }
}
/// A session, STARTTLS, and another one over the stream handed back.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c25_upgrade() {
    let mut a = caps_of([63, 8, 27, 44][choice(4)]);
    a[3] = true;
    let n = served(GREET, vec![caps_reply(&a)]);
    let utf8 = choice(2) == 1;
    let mut t = open(n, SmtpClient::new().smtp_utf8(true).hello_name(extension::ClientId::Domain("one".into())));
    let op = choice(3);
    c25_uses(n, &mut t, &a, true, "x", op);
    let Some(io) = c25_starttls(n, t, &a) else { return };
    let s = n.get();
    ck!(s.unread() == 0, "a reply is left unread");
    { let v = s.srv(); v.replies.truncate(v.next); }
    let (reply, b) = any_caps([true; 6], &a);
    s.srv().replies.push(reply);
    let at = s.out.len();
    let r = run(n, SmtpTransport::new(SmtpClient::new().without_greeting().smtp_utf8(utf8), io));
    let Ran::Done(Ok(mut t)) = r else { ck!(false, "the session over the stream handed back does not open"); return };
    ck!(s.out[at..] == *b"EHLO [127.0.0.1]\r\n", "the session over the stream handed back does not announce itself");
    let op = choice(2);
    c25_uses(n, &mut t, &b, utf8, "y", op);
    c25_starttls(n, t, &b);
    cover(1);
}
/// Two sessions, their operations in any order.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c25_two() {
    // one capability differs, or all do
    let base = [0, 63, 21, 42][choice(4)];
    let d = choice(7);
    let ca = caps_of(base);
    let (reply, cb) = any_caps(caps_of(if d < 6 { 1 << d } else { 17 }), &caps_of(if d < 6 { base } else { base ^ 63 }));
    let (na, nb) = (served(GREET, vec![caps_reply(&ca)]), served(GREET, vec![reply]));
    let (mut ta, mut tb);
    let mk = |u: bool, h: &str| SmtpClient::new().smtp_utf8(u).hello_name(extension::ClientId::Domain(h.into()));
    if choice(2) == 0 { ta = open(na, mk(true, "one")); tb = open(nb, mk(false, "two")); } else { tb = open(nb, mk(false, "two")); ta = open(na, mk(true, "one")); }
    ck!(na.get().out == b"EHLO one\r\n" && nb.get().out == b"EHLO two\r\n", "a session announces another one's identity");
    for _ in 0..bound(2, 3) {
        let op = choice(2);
        if choice(2) == 0 { c25_uses(na, &mut ta, &ca, true, "x", op) } else { c25_uses(nb, &mut tb, &cb, false, "y", op) }
    }
    match choice(4) {
        0 => { c25_starttls(na, ta, &ca); c25_starttls(nb, tb, &cb); }
        1 => { drop(ta); c25_uses(nb, &mut tb, &cb, false, "y", 0); }
        2 => { drop(tb); c25_uses(na, &mut ta, &ca, true, "x", 0); }
        _ => {}
    }
    cover(1);
}
/// An identity of any kind, and what is written for it.
fn any_id(i: usize) -> (SmtpClient, Vec<u8>) {
    let c = SmtpClient::new();
    match choice(4) {
        0 => (c, b"[127.0.0.1]".to_vec()),
        1 => { let w = alnum(1); let d = format!("h{i}{w}"); let b = d.clone().into_bytes(); (c.hello_name(extension::ClientId::Domain(d)), b) }
        2 => { let b = u8(); assume((b >= 100) & (b < 110)); (c.hello_name(extension::ClientId::Ipv4([192, 0, 2, b].into())), cat(&[b"[192.0.2.10", &[b'0' + (b - 100)], b"]"])) }
        _ => { let b = u8(); assume((b >= 1) & (b < 10)); (c.hello_name(extension::ClientId::Ipv6([0x2001, 0xdb8, 0, 0, 0, 0, 0, b as u16].into())), cat(&[b"[IPv6:2001:db8::", &[b'0' + b], b"]"])) }
    }
}
/// Several sessions, one after another or next to each other, each with its own identity, options, greeting and capabilities.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c25_many() {
    let k = [2, 3, bound(9, 20)][choice(3)];
    let keep = choice(2) == 1;
    let mut all = vec![];
    for i in 0..k {
        let free = i < if k > 3 { 1 } else { 2 } || i + 1 == k;
        let (c, id) = if free { any_id(i) } else { (SmtpClient::new(), b"[127.0.0.1]".to_vec()) };
        let x = if free { [0, 63, 22][choice(if k == 2 { 3 } else { 2 })] } else { (i * 11) % 64 };
        let ca = caps_of(x);
        let greet = if free { choice(2) == 0 } else { i % 2 == 0 };
        let n = served(if greet { GREET } else { b"" }, vec![caps_reply(&ca)]);
        let utf8 = i % 2 == 1;
        let c = if greet { c } else { c.without_greeting() };
        let mut t = open(n, c.smtp_utf8(utf8));
        ck!(same(&n.get().out, &cat(&[b"EHLO ", &id, b"\r\n"])), "a session announces another one's identity");
        ck!(n.get().unread() == 0, "a session reads what another one's server was to send");
        let who = format!("{}", (b'a' + i as u8) as char);
        c25_uses(n, &mut t, &ca, utf8, &who, 0);
        if keep { all.push((n, t, ca, utf8, who)); }
    }
    for (n, mut t, ca, utf8, who) in all { c25_uses(n, &mut t, &ca, utf8, &who, 0); c25_uses(n, &mut t, &ca, utf8, &who, 1); c25_starttls(n, t, &ca); }
    cover(1);
}
/// Two sends at once, polled in any order.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c25_polls() {
    let (pa, pb) = (choice(2) == 1, choice(2) == 1);
    let mk = |p: bool| served(GREET, vec![ehlo(if p { &["PIPELINING", "8BITMIME"] } else { &["SMTPUTF8"] })]);
    let (na, nb) = (mk(pa), mk(pb));
    let (mut ta, mut tb) = (open(na, SmtpClient::new()), open(nb, SmtpClient::new().smtp_utf8(true)));
    let (x, y) = (bytes(choice(3)), bytes(1));
    let go = |n: N, name: &str| {
        let s = n.get();
        for r in ["250 m", "250 r", "354 d", "250 q"] { s.srv().replies.push(cat(&[r.as_bytes(), name.as_bytes(), b"\r\n"])); }
        s.srv().opaque = false;
        s.p.f_pend = 1;
        if bound(0, 1) > 0 { s.p.w_pend = choice(2); }
        Envelope::new(Some(addr("a@b")), vec![addr(&format!("{name}@d"))]).unwrap()
    };
    let (ea, eb) = (go(na, "x"), go(nb, "y"));
    let mut fa = Box::pin(ta.send(SendableEmail::new(ea, x.clone())));
    let mut fb = Box::pin(tb.send(SendableEmail::new(eb, y.clone())));
    let mut cx = Context::from_waker(Waker::noop());
    let (mut ra, mut rb) = (None, None);
    let mut turns = 0;
    while ra.is_none() || rb.is_none() {
        let first = if ra.is_some() { false } else if rb.is_some() { true } else { decide(2) == 0 };
        if first { if let Poll::Ready(r) = fa.as_mut().poll(&mut cx) { ra = Some(r); } } else if let Poll::Ready(r) = fb.as_mut().poll(&mut cx) { rb = Some(r); }
        turns += 1;
        if turns > 40 { break; }
    }
    for (n, r, name, p, m) in [(na, ra, "x", pa, &x), (nb, rb, "y", pb, &y)] {
        let s = n.get();
        let Some(Ok(r)) = r else { ck!(false, "a send fails or hangs next to another one"); return };
        ck!(is_reply(&Some(r), b"250", &cat(&[b"q", name.as_bytes()])), "a send was not decided by its own session");
        let par: &[u8] = if p { b" BODY=8BITMIME" } else if name == "y" { b" SMTPUTF8" } else { b"" };
        let want = cat(&[b"EHLO [127.0.0.1]\r\nMAIL FROM:<a@b>", par, b"\r\nRCPT TO:<", name.as_bytes(), b"@d>\r\nDATA\r\n"]);
        ck!(is_prefix(&want, &s.out), "what one session writes depends on another one");
        ck!(match receive(content(&s.out)) { Some(g) => faithful(&g, m), None => false }, "one session's message is damaged by another one");
    }
    cover(1);
}

// ---------------------------------------------------------------- C26

fn blank(b: u8) -> bool { (b == b' ') | ((b >= 9) & (b <= 13)) }
/// The first line and its first word.
fn c26_judge(lines: Vec<String>) {
    let code = Code::new(Severity::PositiveCompletion, Category::MailSystem, Detail::Zero);
    let r = Response::new(code, lines.clone());
    let (l, w) = (r.first_line(), r.first_word());
    if lines.is_empty() {
        ck!(l.is_none(), "a reply without lines has a first line");
        ck!(w.is_none(), "a reply without lines has a first word");
        cover(1);
        return;
    }
    ck!(match l { Some(l) => same(l.as_bytes(), lines[0].as_bytes()), None => false }, "the first line is not the reply's");
    let x = lines[0].as_bytes();
    let mut i = 0;
    while i < x.len() && blank(x[i]) { i += 1; }
    let mut j = i;
    while j < x.len() && !blank(x[j]) { j += 1; }
    if i == j { ck!(w.is_none(), "a blank line has a first word"); cover(2); return; }
    ck!(match w { Some(w) => same(w.as_bytes(), &x[i..j]), None => false }, "the first word is not the first line's");
    trace(&x[i..j]);
    cover(3);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c26_any() {
    let k = choice(3);
    let lines = (0..k).map(|i| ascii(if i == 0 { choice(bound(6, 8)) } else { choice(2) })).collect();
    c26_judge(lines)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c26_word() {
    let n = 1 + choice(bound(24, 64));
    let mut x = [&b""[..], b" ", b"\t ", "\u{e9}".as_bytes(), "\u{20ac}\u{1F600}".as_bytes()][choice(5)].to_vec();
    x.extend_from_slice(&graphic(n));
    if choice(2) == 1 { x.push(b' '); x.extend_from_slice(&graphic(5)); }
    let mut lines = vec![String::from_utf8(x).unwrap()];
    if choice(2) == 1 { lines.push(word(6)); }
    c26_judge(lines)
}

// ---------------------------------------------------------------- C27

#[cfg(feature = "tk")]
fn poll_read(m: &mut Message, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
    use tokio::io::{AsyncRead, ReadBuf};
    // something may be in the buffer already
    let mut all = vec![0x55u8; buf.len() + 2];
    let mut b = ReadBuf::new(&mut all);
    b.put_slice(&[7, 8]);
    match std::pin::Pin::new(m).poll_read(&mut Context::from_waker(Waker::noop()), &mut b) { Poll::Ready(Ok(())) => {
        let k = b.filled().len() - 2;
        ck!(b.filled()[0] == 7 && b.filled()[1] == 8, "reading disturbs what the buffer already holds");
        buf[..k].copy_from_slice(&b.filled()[2..]);
        Poll::Ready(Ok(k))
    } Poll::Ready(Err(e)) => Poll::Ready(Err(e)), Poll::Pending => Poll::Pending }
}
#[cfg(feature = "as")]
fn poll_read(m: &mut Message, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
    use futures_io::AsyncRead;
    std::pin::Pin::new(m).poll_read(&mut Context::from_waker(Waker::noop()), buf)
}
/// Reading an email's message directly, in pieces of any size.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c27_read() {
    let len = choice(bound(6, 8));
    let data = bytes(len);
    let n = net(&[]);
    let reader = choice(2) == 1;
    let (mut fail, mut kind) = (false, 0);
    let e = env1();
    let mail = if reader {
        let mut src = Src::new(data.clone(), n);
        src.splits = 2;
        src.pend = bound(1, 2);
        if choice(2) == 1 { fail = true; src.fail_at = Some(choice(len + 1)); let k = u8(); assume((k as usize) < ERRORS.len()); kind = k as usize; src.kind = kind; }
        SendableEmail::new_with_reader(e.clone(), Box::new(src))
    } else if choice(2) == 0 { SendableEmail::new(e.clone(), data.clone()) } else { SendableEmail::new(e.clone(), &data[..]) };
    ck!(mail.envelope() == &e, "the envelope is not the given one");
    let mut m = mail.message();
    let mut got = vec![];
    let mut err = false;
    let mut polls = 0;
    loop {
        let room = if polls == 0 { choice(4) } else { 1 + choice(3) };
        let mut buf = [0xaau8; 4];
        match poll_read(&mut m, &mut buf[..room]) {
            Poll::Ready(Ok(0)) if room == 0 => {}
            Poll::Ready(Ok(0)) => { ck!(matches!(poll_read(&mut m, &mut buf[..1]), Poll::Ready(Ok(0)) | Poll::Pending), "reading goes on beyond the end"); break }
            Poll::Ready(Ok(k)) => got.extend_from_slice(&buf[..k]),
            Poll::Ready(Err(e)) => { err = true; ck!(fail && e.kind() == ERRORS[kind] && e.to_string() == "injected", "a failure of the source is not passed on as such"); break; }
            Poll::Pending => {}
        }
        polls += 1;
        ck!(polls < 40, "reading a message does not end");
    }
    trace(&got);
    ck!(err == fail, "a failure of the source is not passed on, or made up");
    if fail { ck!(is_prefix(&got, &data), "the message read is not the given one"); cover(1); } else { ck!(same(&got, &data), "the message read is not the given one"); cover(2); }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c27_long() {
    let len = [31, 32, 33, 8191, 8192, 8193, 20000][choice(7)];
    let mut data: Vec<u8> = (0..len).map(|i| (i % 251) as u8).collect();
    for at in [0, len / 2, len - 1] { data[at] = u8(); }
    let n = net(&[]);
    let mail = if choice(2) == 1 { SendableEmail::new_with_reader(env1(), Box::new(Src::new(data.clone(), n))) } else { SendableEmail::new(env1(), data.clone()) };
    let mut m = mail.message();
    let (first, room) = ([1, 7, 31, 4096, 5000][choice(5)], [1000, 8192, 8193, 32][choice(4)]);
    let mut buf = vec![0u8; room.max(first)];
    let mut got = vec![];
    while got.len() <= len {
        let room = if got.is_empty() { first } else { room };
        match poll_read(&mut m, &mut buf[..room]) { Poll::Ready(Ok(0)) => break, Poll::Ready(Ok(k)) => got.extend_from_slice(&buf[..k]), _ => { ck!(false, "a failure of the source is made up"); return } }
    }
    ck!(same(&got, &data), "the message read is not the given one");
    cover(1);
}

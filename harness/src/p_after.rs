//! Single operations, after others on the same session.

use crate::h::*;
use crate::net::*;
use crate::sx::*;
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::error::Error;
use async_smtp::*;

const M: [Mechanism; 3] = [Mechanism::Plain, Mechanism::Login, Mechanism::Xoauth2];
/// The replies to what follows.
fn answers(n: N, l: &[&[u8]]) {
    let v = n.get().srv();
    v.replies.truncate(v.next);
    for x in l { v.replies.push(cat(&[x, b"\r\n"])); }
}
fn start() -> (N, T, bool) {
    let pipe = choice(2) == 1;
    let n = served(GREET, vec![ehlo(if pipe { &["AUTH PLAIN LOGIN XOAUTH2", "STARTTLS", "8BITMIME", "PIPELINING"] } else { &["AUTH PLAIN LOGIN XOAUTH2", "STARTTLS"] })]);
    let t = open(n, SmtpClient::new());
    (n, t, pipe)
}
fn old_mail() -> SendableEmail { SendableEmail::new(Envelope::new(Some(addr("old@x")), vec![addr("r0@x"), addr("r1@x")]).unwrap(), b"old\r\n.\r\ncontent".to_vec()) }
fn old_creds() -> Credentials { Credentials::new("old".into(), "former".into()) }
/// An earlier operation. `free`: one that is refused, with any code and a free word.
fn one(n: N, t: &mut T, pipe: bool, free: bool) {
    let what = if free { [2, 3, 4, 5, 7, 11, 12][choice(7)] } else { choice(13) };
    let refuse = |code: &[u8]| -> Vec<u8> {
        if !free { return cat(&[code, b" no"]) }
        let d = bytes(2);
        assume((d[0] >= b'0') & (d[0] <= b'5') & (d[1] >= b'0') & (d[1] <= b'9'));
        cat(&[&code[..1], &d, b" ", &quiet_word(5, 5)])
    };
    let (t4, t5) = (refuse(b"450"), refuse(b"550"));
    let (t4, t5) = (&t4[..], &t5[..]);
    let prompts = [&b"334 VXNlcm5hbWU6"[..]; 11];
    let (l, want): (Vec<&[u8]>, Kind) = match what {
        1 => (vec![b"250 m", b"250 r", b"250 r", b"354 d", b"250 q"], Kind::Ok),
        2 => (if pipe { vec![b"250 m", t4, b"550 r"] } else { vec![b"250 m", t4] }, Kind::Transient),
        3 => (if pipe { vec![t5, b"250 r", b"250 r"] } else { vec![t5] }, Kind::Permanent),
        4 => (vec![b"250 m", b"250 r", b"250 r", b"354 d", t5], Kind::Permanent),
        5 => (vec![b"250 m", b"250 r", b"250 r", t5], Kind::Permanent),
        6 => (vec![b"334 VXNlcm5hbWU6", b"334 UGFzc3dvcmQ6", b"235 ok"], Kind::Ok),
        7 => (vec![t5], Kind::Permanent),
        8 => (vec![b"334 !"], Kind::Other),
        9 => (prompts.to_vec(), Kind::Other),
        10 => (vec![b"999 x"], Kind::Other),
        11 => (vec![t4], Kind::Transient),
        12 => (vec![b"334 VXNlcm5hbWU6", t4], Kind::Transient),
        _ => (vec![], Kind::Ok),
    };
    answers(n, &l);
    let k = match what {
        1..=5 => oc(run(n, t.send(old_mail()))).kind,
        6 | 8 | 9 | 12 => oc(run(n, t.auth(Mechanism::Login, &old_creds()))).kind,
        7 => oc_unit(run(n, t.try_login(&old_creds(), &[Mechanism::Plain]))).kind,
        10 | 11 => oc_unit(run(n, t.quit())).kind,
        _ => oc_unit(run(n, t.try_login(&old_creds(), &[]))).kind,
    };
    // what goes wrong here is a matter of other checks
    assume(k == want && n.get().unread() == 0 && !n.get().srv().in_data);
}
/// `k` operations, or one refused in any way.
fn prior(n: N, t: &mut T, pipe: bool, k: usize) {
    if choice(2) == 1 { one(n, t, pipe, true); } else { for _ in 0..k { one(n, t, pipe, false); } }
}
/// In the quick tier without the free codes.
fn prior_(n: N, t: &mut T, pipe: bool, k: usize) { if tier() == 0 { for _ in 0..k { one(n, t, pipe, false); } } else { prior(n, t, pipe, k) } }
fn mail_to(to: &[&str], body: &[u8]) -> SendableEmail { SendableEmail::new(Envelope::new(Some(addr("a@b")), to.iter().map(|a| addr(a)).collect()).unwrap(), body.to_vec()) }

/// Any content.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_after() {
    let (n, mut t, pipe) = start();
    prior(n, &mut t, pipe, bound(2, 3));
    let body = bytes(choice(bound(4, 5)));
    answers(n, &[b"250 m", b"250 r", b"354 d", b"250 q"]);
    let at = n.get().out.len();
    let r = oc(run(n, t.send(mail_to(&["c@d"], &body))));
    trace(&n.get().out[at..]);
    ck!(r.kind == Kind::Ok, "a message is not sent");
    ck!(match receive(content(&n.get().out[at - 2..])) { Some(g) => faithful(&g, &body), None => false }, "the receiver does not get the message");
    cover(1);
}
/// Replies in any pieces.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c06_after() {
    let (n, mut t, pipe) = start();
    prior_(n, &mut t, pipe, 1);
    let d = u8();
    assume((d >= b'2') & (d <= b'5') & (d != b'3'));
    let x = quiet_word(2, 0);
    answers(n, &[&cat(&[&[d], b"50-\xc3\xa9", &x, b"\r\n", &[d], b"50 ", &x])]);
    let s = n.get();
    let at = s.inp.len();
    if choice(2) == 1 { s.p.r_split = bound(2, 3); } else { s.p.r_max = 1 + choice(3); s.p.r_pend = bound(1, 2); }
    let r = oc(run(n, t.auth(Mechanism::Plain, &old_creds())));
    trace_oc(&r);
    ck!(r.kind == if d == b'2' { Kind::Ok } else if d == b'4' { Kind::Transient } else { Kind::Permanent }, "the outcome depends on how the reply arrives");
    ck!(match ref_reply(&s.inp[at..]) { Some(f) => ref_matches(r.reply.as_ref().unwrap(), &f, &s.inp[at..]), None => false }, "the reply is not the one that arrived");
    ck!(s.unread() == 0, "the reply is not consumed exactly");
    cover(1);
}
/// Any code.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c07_after() {
    let (n, mut t, pipe) = start();
    prior_(n, &mut t, pipe, 1);
    let c = bytes(3);
    assume((c[0] >= b'2') & (c[0] <= b'5') & (c[1] >= b'0') & (c[1] <= b'5') & (c[2] >= b'0') & (c[2] <= b'9'));
    let l = cat(&[&c, b" x\r\n"]);
    let l = &l[..l.len() - 2];
    let op = choice(6);
    // a reply that makes the server wait for something else is not what this is about
    assume(match op { 2 => c[0] != b'2', 3 => !same(&c, b"334"), _ => c[0] != b'3' });
    let g: [&[u8]; 4] = [b"250 m", b"250 r", b"354 d", b"250 q"];
    let r = if op == 3 { answers(n, &[l]); oc(run(n, t.auth(Mechanism::Xoauth2, &old_creds()))) }
        else if op == 5 { answers(n, &[l]); oc_unit(run(n, t.quit())) }
        else {
            let mut v = g;
            v[if op == 4 { 3 } else { op }] = l;
            answers(n, &v[..]);
            oc(run(n, t.send(mail_to(&["c@d"], b"hi"))))
        };
    trace_oc(&r);
    if c[0] < b'4' { ck!(r.kind == Kind::Ok, "an accepting reply is taken as a refusal"); cover(1); }
    else {
        ck!(r.kind == if c[0] == b'4' { Kind::Transient } else { Kind::Permanent }, "a refusing reply is not reported under its class");
        ck!(is_reply(&r.reply, &c, b"x"), "an error does not carry its reply");
        cover(2);
    }
}
/// What extensions are used.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_after() {
    let x = choice(16);
    let caps: Vec<&str> = ["8BITMIME", "SMTPUTF8", "PIPELINING", "AUTH PLAIN LOGIN"].iter().enumerate().filter(|(i, _)| *i == 3 || x >> i & 1 == 1).map(|(_, c)| *c).collect();
    let (utf8, want) = (choice(2) == 1, choice(2) == 1);
    let n = served(GREET, vec![ehlo(&caps)]);
    let mut t = open(n, SmtpClient::new().smtp_utf8(utf8).pipelining(want));
    let pipe = x & 4 > 0 && want;
    prior(n, &mut t, pipe, 2);
    let who = quiet_word(1, 0);
    answers(n, &[b"250 m", b"250 r", b"250 r", b"354 d", b"250 q"]);
    let s = n.get();
    let (at, log) = (s.out.len(), s.log.len());
    let r = oc(run(n, t.send(mail_to(&["c@d", "e@f"], &who))));
    trace(&s.out[at..]);
    ck!(r.kind == Kind::Ok, "a send fails");
    let want = cat(&[b"MAIL FROM:<a@b>", if x & 1 > 0 { b" BODY=8BITMIME" } else { b"" }, if x & 2 > 0 && utf8 { b" SMTPUTF8" } else { b"" }, b"\r\nRCPT TO:<c@d>\r\nRCPT TO:<e@f>\r\nDATA\r\n"]);
    ck!(is_prefix(&want, &s.out[at..]), "MAIL does not carry exactly what is advertised and enabled");
    let mail = at + find(&want, b"\r\n").unwrap() + 2;
    let before = s.log[log].1;
    let second = s.log[log..].iter().filter(|l| l.0 <= mail).last().unwrap().1;
    ck!((second == before) == pipe || (!pipe && second != before), "commands are sent ahead of replies although that is not advertised and enabled");
    if !pipe { ck!(second != before, "commands are sent ahead of replies although that is not advertised and enabled"); }
    cover(1 + pipe as u32);
}
/// A transaction with free answers.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_after() {
    let (n, mut t, pipe) = start();
    prior(n, &mut t, pipe, bound(2, 3));
    let s = n.get();
    answers(n, &[]);
    s.srv().classes = 3;
    let (cfrom, mfrom, nfrom, at) = (s.srv().commands.len(), s.srv().made.len(), s.srv().contents.len(), s.out.len());
    let r = oc(run(n, t.send(mail_to(&["c@d", "e@f"], b"new"))));
    trace_oc(&r);
    trace(&s.out[at..]);
    let srv = s.server.as_ref().unwrap();
    let made = &srv.made[mfrom..];
    let bad = made.iter().position(|c| *c != 0);
    let want: Vec<&[u8]> = vec![if pipe { b"MAIL FROM:<a@b> BODY=8BITMIME" } else { b"MAIL FROM:<a@b>" }, b"RCPT TO:<c@d>", b"RCPT TO:<e@f>", b"DATA"];
    let cmds = &srv.commands[cfrom..];
    ck!(cmds.len() <= 4 && cmds.iter().zip(&want).all(|(a, b)| a == b), "the commands are not MAIL, one RCPT per recipient in order, DATA");
    ck!(srv.contents.len() - nfrom == (bad.unwrap_or(4) >= 4) as usize, "content written although something was refused, or not written");
    if !pipe && bad.unwrap_or(4) < 4 { ck!(cmds.len() == bad.unwrap() + 1, "a command was sent after a refusal"); }
    let k = bad.unwrap_or(4);
    ck!(made.len() > k, "not every step was answered");
    ck!(r.kind == match made[k] { 0 => Kind::Ok, 1 => Kind::Permanent, _ => Kind::Transient }, "the outcome is not the deciding reply");
    ck!(match &r.reply { Some(r) => r.message[0] == made_text(mfrom + k), None => false }, "the outcome is not the deciding reply");
    cover(1);
}
/// Any credentials.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c13_after() {
    let (n, mut t, pipe) = start();
    prior(n, &mut t, pipe, bound(2, 3));
    let (u, p) = (ascii(choice(3)), ascii(choice(bound(3, 4))));
    let m = choice(3);
    let c = Credentials::new(u.clone(), p.clone());
    answers(n, &[b"235 ok"]);
    let s = n.get();
    let at = s.out.len();
    let k = if choice(2) == 1 { oc(run(n, t.auth(M[m], &c))).kind } else { oc_unit(run(n, t.try_login(&c, &[M[m]]))).kind };
    trace(&s.out[at..]);
    ck!(k == Kind::Ok, "an accepted login fails");
    let (u, p) = (u.as_bytes(), p.as_bytes());
    let want = match m {
        0 => cat(&[b"AUTH PLAIN ", &b64(&cat(&[b"\0", u, b"\0", p]))]),
        1 => b"AUTH LOGIN".to_vec(),
        _ => cat(&[b"AUTH XOAUTH2 ", &b64(&cat(&[b"user=", u, b"\x01auth=Bearer ", p, b"\x01\x01"]))]),
    };
    ck!(same(&s.out[at..], &cat(&[&want, b"\r\n"])), "the initial response does not carry exactly the credentials");
    cover(1 + m as u32);
}
/// A dialogue of any prompts.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_after() {
    let (n, mut t, pipe) = start();
    prior(n, &mut t, pipe, bound(2, 3));
    let m = choice(3);
    let prompts: [&[u8]; 6] = [b"334 VXNlcm5hbWU6", b"334 UGFzc3dvcmQ6", b"334 b3RoZXI=", b"334 ?", b"235 ok", b"535 no"];
    let mut l: Vec<&[u8]> = vec![];
    let mut want = match m { 0 => b"AUTH PLAIN AG5ldwBmcmVzaA==\r\n".to_vec(), 1 => b"AUTH LOGIN\r\n".to_vec(), _ => b"AUTH XOAUTH2 dXNlcj1uZXcBYXV0aD1CZWFyZXIgZnJlc2gBAQ==\r\n".to_vec() };
    let mut end = Kind::Stuck;
    for _ in 0..bound(3, 4) {
        let p = choice(6);
        l.push(prompts[p]);
        match p {
            0 | 1 if m == 1 => want.extend_from_slice(if p == 0 { b"bmV3\r\n" } else { b"ZnJlc2g=\r\n" }),
            4 => { end = Kind::Ok; break; }
            5 => { end = Kind::Permanent; break; }
            _ => { end = Kind::Other; break; }
        }
    }
    if end == Kind::Stuck { l.push(prompts[4]); end = Kind::Ok; }
    answers(n, &l);
    let s = n.get();
    let at = s.out.len();
    let k = oc(run(n, t.auth(M[m], &Credentials::new("new".into(), "fresh".into())))).kind;
    trace(&s.out[at..]);
    ck!(s.out[at..] == want[..], "something else than the answers to the challenges was sent");
    ck!(k == end, "the outcome is not the one the dialogue calls for");
    cover(1);
}
/// Any list of mechanisms.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c15_after() {
    let pipe = choice(2) == 1;
    let adv = choice(8);
    let mut line = "AUTH".to_string();
    for (i, m) in ["PLAIN", "LOGIN", "XOAUTH2"].iter().enumerate() { if adv >> i & 1 == 1 { line += " "; line += m; } }
    let mut caps = vec!["PIPELINING", &line];
    if !pipe { caps.remove(0); }
    let n = served(GREET, vec![ehlo(&caps)]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let free = choice(2) == 1;
    for i in 0..2 {
        let list: Vec<usize> = if free { vec![2, 0, 1] } else { (0..choice(3)).map(|_| choice(3)).collect() };
        let ok = choice(2) == 1;
        let d = if free && i == 0 { bytes(3) } else { b"535".to_vec() };
        assume(((d[0] == b'5') | (d[0] == b'4')) & (d[1] >= b'0') & (d[1] <= b'5') & (d[2] >= b'0') & (d[2] <= b'9'));
        let perm = concrete(d[0] as u64) == b'5' as u64;
        answers(n, &[&if ok { b"235 ok".to_vec() } else { cat(&[&d, b" ", &quiet_word(5, 5)]) }]);
        let at = s.out.len();
        let k = oc_unit(run(n, t.try_login(&Credentials::new("u".into(), "p".into()), &list.iter().map(|i| M[*i]).collect::<Vec<_>>()))).kind;
        trace(&s.out[at..]);
        let first = list.iter().find(|i| adv >> **i & 1 == 1);
        let want: &[u8] = match first { None => b"", Some(0) => b"AUTH PLAIN AHUAcA==\r\n", Some(1) => b"AUTH LOGIN\r\n", _ => b"AUTH XOAUTH2 dXNlcj11AWF1dGg9QmVhcmVyIHABAQ==\r\n" };
        ck!(s.out[at..] == *want, "login does not try exactly the first mechanism that is accepted and advertised");
        ck!(k == if first.is_none() || ok { Kind::Ok } else if perm { Kind::Permanent } else { Kind::Transient }, "login's outcome is not the one its reply calls for");
        if choice(2) == 1 { answers(n, &[b"250 m", b"250 r", b"250 r", b"354 d", b"250 q"]); assume(oc(run(n, t.send(old_mail()))).kind == Kind::Ok); }
    }
    cover(1);
}
fn op_answers(n: N, op: usize) {
    answers(n, match op { 0 => &[b"221 bye"], 1 => &[b"250 m", b"250 r", b"354 d", b"250 q"], 2 => &[b"334 VXNlcm5hbWU6", b"334 UGFzc3dvcmQ6", b"235 ok"], 3 => &[b"235 ok"], _ => &[b"220 go"] });
}
/// What `op` writes on a perfect transport.
fn op_writes(op: usize, pipe: bool) -> Vec<u8> {
    match op {
        0 => b"QUIT\r\n".to_vec(),
        1 => cat(&[b"MAIL FROM:<a@b>", if pipe { b" BODY=8BITMIME" } else { b"" }, b"\r\nRCPT TO:<c@d>\r\nDATA\r\n..new\r\n.\r\n"]),
        2 => b"AUTH LOGIN\r\nbmV3\r\nZnJlc2g=\r\n".to_vec(),
        3 => b"AUTH PLAIN AG5ldwBmcmVzaA==\r\n".to_vec(),
        _ => b"STARTTLS\r\n".to_vec(),
    }
}
fn op_run(n: N, mut t: T, op: usize) -> Ran<Result<(), Error>> {
    fn un<X>(r: Ran<Result<X, Error>>) -> Ran<Result<(), Error>> { match r { Ran::Done(x) => Ran::Done(x.map(|_| ())), Ran::Stuck => Ran::Stuck, Ran::Abandoned => Ran::Abandoned } }
    let c = Credentials::new("new".into(), "fresh".into());
    match op {
        0 => un(run(n, t.quit())),
        1 => un(run(n, t.send(mail_to(&["c@d"], b".new")))),
        2 => un(run(n, t.auth(Mechanism::Login, &c))),
        3 => un(run(n, t.try_login(&c, &[Mechanism::Plain]))),
        _ => un(run(n, t.starttls())),
    }
}
/// A fault.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_after() {
    let (n, mut t, pipe) = start();
    prior(n, &mut t, pipe, 1);
    let op = choice(5);
    op_answers(n, op);
    let s = n.get();
    let at = s.out.len();
    match choice(4) { 0 => s.p.w_err = 1, 1 => s.p.f_err = 1, 2 => s.p.r_err = 1, _ => { s.p.w_pend = 1; s.p.abandon = 1; } }
    match choice(bound(2, 3)) { 0 => {} 1 => s.p.w_short = 1, _ => s.p.f_pend = 1 }
    let r = op_run(n, t, op);
    trace(&s.out[at..]);
    ck!(is_prefix(&s.out[at..], &op_writes(op, pipe)), "bytes were lost, duplicated or reordered");
    ck!(!s.wrote_after_error, "something was written after a transport error");
    match r {
        Ran::Abandoned => cover(1),
        Ran::Done(Ok(())) => { ck!(!s.failed && !s.read_failed, "a transport error does not fail the operation"); ck!(s.out.len() - at == op_writes(op, pipe).len(), "an outcome differs although there was no fault"); cover(2); }
        Ran::Done(Err(e)) => { ck!(s.failed || s.read_failed, "an outcome differs although there was no fault"); ck!(err_kind(&e) == Kind::Io, "a transport error is not reported as an I/O error"); cover(3); }
        _ => ck!(false, "an operation hangs"),
    }
}
/// A transport that delivers on flush only.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_after() {
    let (n, mut t, pipe) = start();
    prior(n, &mut t, pipe, bound(2, 3));
    let op = choice(5);
    op_answers(n, op);
    let s = n.get();
    match choice(4) { 0 => {} 1 => s.p.w_short = bound(1, 2), 2 => s.p.w_pend = 1, _ => s.p.f_pend = bound(1, 2) }
    let r = op_run(n, t, op);
    ck!(!r.is_stuck(), "a reply is awaited that a buffering transport cannot have asked for");
    ck!(!s.unflushed_read, "a reply was awaited while something written had not been flushed");
    cover(1);
}
/// Any bytes, then end of stream.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c18_after() {
    let (n, mut t, pipe) = start();
    prior_(n, &mut t, pipe, 1);
    let s = n.get();
    s.server = None;
    s.eof = true;
    let x = bytes(choice(bound(3, 4)));
    let l = [&b""[..], b"250 ", b"334 ", b"250-"][choice(4)];
    s.inp.extend_from_slice(&cat(&[l, &x, if choice(2) == 1 { b"\r\n" } else { b"" }]));
    let op = choice(5);
    let r = op_run(n, t, op);
    ck!(!r.is_stuck(), "an operation hangs on the server's bytes");
    cover(1);
}
/// STARTTLS.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c19_after() {
    let adv = choice(2) == 1;
    let pipe = choice(2) == 1;
    let mut caps = vec!["AUTH LOGIN PLAIN"];
    if adv { caps.push("STARTTLS"); }
    if pipe { caps.push("PIPELINING"); }
    let n = served(GREET, vec![ehlo(&caps)]);
    let mut t = open(n, SmtpClient::new());
    prior(n, &mut t, pipe, 2);
    let d = bytes(3);
    assume((d[0] >= b'2') & (d[0] <= b'5') & (d[1] >= b'0') & (d[1] <= b'5') & (d[2] >= b'0') & (d[2] <= b'9'));
    answers(n, &[&cat(&[&d, b" go"])]);
    let s = n.get();
    let (at, pos) = (s.out.len(), s.pos);
    let r = run(n, t.starttls());
    trace(&s.out[at..]);
    ck!(s.out[at..] == *(if adv { &b"STARTTLS\r\n"[..] } else { b"" }), "STARTTLS is not sent exactly when it is advertised");
    match r {
        Ran::Done(Ok(_)) => { ck!(adv && d[0] < b'4', "the stream is handed over although the server did not agree"); ck!(s.unread() == 0, "the reply is not consumed exactly"); cover(1); }
        Ran::Done(Err(e)) => {
            ck!(!adv || d[0] >= b'4', "STARTTLS fails although the server agreed");
            if adv { ck!(err_kind(&e) == if d[0] == b'4' { Kind::Transient } else { Kind::Permanent }, "a refusal is not reported under its class"); cover(2); } else { ck!(s.pos == pos, "a reply was awaited although nothing was asked"); cover(3); }
        }
        _ => ck!(false, "STARTTLS hangs"),
    }
}
/// Recipients that may have been used before.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c20_after() {
    let (n, mut t, pipe) = start();
    prior(n, &mut t, pipe, 2);
    let k = 1 + choice(bound(2, 3));
    let to: Vec<&str> = (0..k).map(|_| ["r0@x", "r1@x", "old@x"][choice(3)]).collect();
    let mut l: Vec<&[u8]> = vec![b"250 m"];
    for _ in 0..k { l.push(b"250 r"); }
    l.push(b"354 d");
    l.push(b"250 q");
    answers(n, &l);
    let from = [None, Some("old@x"), Some("r0@x")][choice(3)];
    let e = Envelope::new(from.map(addr), to.iter().map(|a| addr(a)).collect()).unwrap();
    let s = n.get();
    let c = s.srv().commands.len();
    let r = oc(run(n, t.send(SendableEmail::new(e, b"hi".to_vec()))));
    let cmds = &s.srv().commands[c..];
    for x in cmds { trace(x); }
    ck!(r.kind == Kind::Ok, "a send fails");
    ck!(cmds.len() == k + 2 && cmds[0].starts_with(format!("MAIL FROM:<{}>", from.unwrap_or("")).as_bytes()), "the sender is not the envelope's");
    ck!((0..k).all(|i| cmds[i + 1] == format!("RCPT TO:<{}>", to[i]).as_bytes()), "the recipients are not the envelope's");
    cover(1);
}
/// Not-ready results.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c28_after() {
    let (n, mut t, pipe) = start();
    prior(n, &mut t, pipe, bound(1, 2));
    let op = choice(5);
    op_answers(n, op);
    let s = n.get();
    let at = s.out.len();
    match choice(4) { 0 => s.p.w_pend = bound(2, 3), 1 => s.p.f_pend = bound(2, 3), 2 => s.p.r_pend = bound(2, 3), _ => { s.p.w_pend = 1; s.p.f_pend = 1; s.p.r_pend = 1; } }
    let r = op_run(n, t, op);
    trace(&s.out[at..]);
    ck!(!r.is_stuck(), "an operation is not resumed when what it waits for is ready");
    ck!(matches!(r, Ran::Done(Ok(()))), "an operation fails because something was not ready");
    ck!(s.out[at..] == op_writes(op, pipe)[..] && s.unread() == 0, "what is written depends on what was not ready");
    cover(1);
}
/// Errors of every class.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c29_after() {
    let (n, mut t, pipe) = start();
    prior(n, &mut t, pipe, 1);
    let op = choice(5);
    op_answers(n, op);
    let s = n.get();
    let what = choice(4);
    let d = u8();
    match what {
        0 => { assume((d as usize) < FATAL); s.p.kind = d as usize; match choice(3) { 0 => s.p.w_err = 1, 1 => s.p.f_err = 1, _ => s.p.r_err = 1 } }
        1 => { assume((d == b'4') | (d == b'5')); let v = s.srv(); let k = v.next; v.replies[k] = cat(&[&[d], b"21 gone\r\n"]); }
        2 => { assume((d < 0x80) & (d != b'\r') & (d != b'\n') & ((d < b'2') | (d > b'5'))); let v = s.srv(); let k = v.next; v.replies[k] = cat(&[&[d], b"50 x\r\n"]); }
        _ => { assume(d >= 0x80); let v = s.srv(); let k = v.next; v.replies[k] = cat(&[b"250 ", &[d], b"x\r\n"]); }
    }
    let e = match op_run(n, t, op) {
        Ran::Done(Err(e)) => e,
        Ran::Done(Ok(())) => { ck!(what == 0 && !s.failed && !s.read_failed, "a failure is not reported"); cover(1); return }
        _ => { ck!(false, "an operation hangs"); return }
    };
    match what {
        0 => {
            let ck_kind = |e: &Error, k| matches!(e, Error::Io(x) if x.kind() == k);
            ck!(ck_kind(&e, ERRORS[concrete(d as u64) as usize]) || (s.failed && ck_kind(&e, std::io::ErrorKind::WriteZero)), "an I/O error is not reported with its kind");
            cover(2);
        }
        1 => {
            let r = match &e { Error::Transient(r) if d == b'4' => r, Error::Permanent(r) if d == b'5' => r, _ => { ck!(false, "a refusal is not reported under its class"); return } };
            ck!(r.message.len() == 1 && r.message[0] == "gone" && same(&code_digits(&r.code), &[d, b'2', b'1']), "a refusal does not carry the reply");
            cover(3);
        }
        2 => { ck!(matches!(&e, Error::Parsing(_)), "a malformed reply is not reported as such"); cover(4); }
        _ => { ck!(matches!(&e, Error::Io(_)), "a reply that is not text is not reported as such"); cover(5); }
    }
}

//! Long sessions: what holds once holds for every later operation too (C01, C10, C11, C12, C14, C17, C23, C28).

use crate::h::*;
use crate::net::*;
use crate::sx::*;
use async_smtp::authentication::{Credentials, Mechanism};
use async_smtp::*;

fn creds() -> Credentials { Credentials::new("u".into(), "p".into()) }

/// One of `k` sends in a session: what the server received of it.
struct Sent { commands: Vec<Vec<u8>>, content: Option<Vec<u8>>, kind: Kind, reply: Option<response::Response>, unread: usize, unflushed: bool }
/// `k` sends in a row. Step `step` (MAIL, RCPT, RCPT, DATA, content) of send `at` is refused with first digit `class`.
fn sends(k: usize, caps: &[&str], client: SmtpClient, body: impl Fn(usize) -> Vec<u8>, at: Option<u16>, step: usize, class: u8, mut judge: impl FnMut(usize, Sent)) {
    let n = served(GREET, vec![ehlo(caps)]);
    let mut t = open(n, client);
    let s = n.get();
    for i in 0..k {
        let (c, m) = (s.srv().commands.len(), s.srv().contents.len());
        let no = match at { Some(a) => ((a as usize == i) as u8).wrapping_neg(), None => 0 };
        for j in 0..5 {
            let yes = if j == 3 { b'3' } else { b'2' };
            let d = if j == step { class & no | yes & !no } else { yes };
            s.srv().replies.push(cat(&[&[d, b'5', b'0'], format!(" {i}.{j}\r\n").as_bytes()]));
        }
        let from = if i % 3 == 2 { None } else { Some(addr("a@b")) };
        let e = Envelope::new(from, vec![addr("c@d"), addr(&format!("r{i}@d"))]).unwrap();
        let r = oc(run(n, t.send(SendableEmail::new(e, body(i)))));
        let refused = match at { Some(a) => concrete((a as usize == i) as u64) == 1, None => false };
        let srv = s.srv();
        judge(i, Sent { commands: srv.commands[c..].to_vec(), content: srv.contents.get(m).cloned(), kind: r.kind, reply: r.reply, unread: s.inp.len() - s.pos, unflushed: s.unflushed_read });
        // replies that were not asked for do not count
        let srv = s.srv();
        srv.replies.truncate(srv.next);
        if refused && srv.in_data { return; }
    }
}
fn counts() -> usize { [12, 40, bound(130, 300)][choice(3)] }
fn caps(pipe: bool) -> &'static [&'static str] { if pipe { &["PIPELINING", "8BITMIME", "SMTPUTF8"] } else { &["8BITMIME"] } }

/// Many messages; one of them has symbolic content.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_many() {
    let k = counts();
    let at = [1, 2, k / 2, k - 1][choice(4)];
    let sym = bytes(3);
    let body = |i: usize| if i == at { sym.clone() } else { cat(&[&b".x\r\n..\r\n"[..(i * 3) % 9], b"y"]) };
    sends(k, caps(choice(2) == 1), SmtpClient::new(), body, None, 9, 0, |i, r| {
        let Some(c) = &r.content else { ck!(false, "a later message is not sent"); return };
        let c = cat(&[c, b".\r\n"]);
        ck!(match receive(&c) { Some(g) => faithful(&g, &body(i)), None => false }, "the receiver does not recover a later message");
        if i == at { trace(&c); cover(1); }
    });
}
/// Parameters of every MAIL command of a long session.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c10_many() {
    let k = counts();
    let (pipe, utf8) = (choice(2) == 1, choice(2) == 1);
    let client = if choice(2) == 0 { SmtpClient::new().smtp_utf8(utf8) } else { SmtpClient::new().smtp_utf8(utf8).pipelining(false) };
    let (at, class) = (u8() as u16, u8());
    assume((at as usize) < 8 && ((class == b'4') | (class == b'5')));
    sends(k, caps(pipe), client, |_| b"m".to_vec(), Some(at), 4, class, |i, r| {
        let want = cat(&[if i % 3 == 2 { b"MAIL FROM:<>" } else { b"MAIL FROM:<a@b>" }, b" BODY=8BITMIME", if pipe && utf8 { b" SMTPUTF8" } else { b"" }]);
        ck!(!r.commands.is_empty() && same(&r.commands[0], &want), "a later MAIL does not carry exactly the advertised and enabled parameters");
        if i + 1 == k { cover(1); }
    });
}
fn c11_expect(i: usize, r: &Sent, pipe: bool, refused: bool, step: usize, class: u8) {
    let want = [if i % 3 == 2 { b"MAIL FROM:<>".to_vec() } else { b"MAIL FROM:<a@b>".to_vec() }, b"RCPT TO:<c@d>".to_vec(), format!("RCPT TO:<r{i}@d>").into_bytes(), b"DATA".to_vec()];
    let n = if !refused || step == 4 || step == 3 { 4 } else if pipe { 3 } else { step + 1 };
    ck!(r.commands.len() == n, "a later transaction does not follow the sequence, or goes on after a refusal");
    for j in 0..n { ck!(if j == 0 { is_prefix(&want[0], &r.commands[0]) } else { same(&r.commands[j], &want[j]) }, "a later transaction's commands are wrong"); }
    ck!(r.content.is_some() == (!refused || step == 4), "a later message was sent although something was refused, or not sent");
    let (d, j) = if refused { (class, step) } else { (b'2', 4) };
    ck!(is_reply(&r.reply, &[d, b'5', b'0'], format!("{i}.{j}").as_bytes()), "a later transaction's outcome is not the deciding reply");
    ck!(r.kind == if !refused { Kind::Ok } else if class == b'4' { Kind::Transient } else { Kind::Permanent }, "a later transaction's outcome is not the deciding reply");
}
/// A refusal at any step of any of many transactions.
fn c11_long(judge: impl Fn(usize, &Sent, bool, bool, usize, u8)) {
    let k = counts();
    let pipe = choice(2) == 1;
    let step = choice(5);
    let class = u8();
    assume((class == b'4') | (class == b'5'));
    let class = concrete(class as u64) as u8;
    let at = u16();
    if k <= 12 { assume(at as usize <= k); } else { assume(at as usize == [0, 1, k / 2, k][step % 4]); }
    sends(k, caps(pipe), SmtpClient::new(), |_| b"m".to_vec(), Some(at), step, class, |i, r| {
        let refused = concrete((at as usize == i) as u64) == 1;
        judge(i, &r, pipe, refused, step, class);
        if i + 1 == k { cover(1); }
        if refused { cover(2); }
    });
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_repeat() { c11_long(|i, r, pipe, refused, step, class| c11_expect(i, r, pipe, refused, step, class)) }
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_repeat() {
    c11_long(|i, r, _, refused, step, class| {
        ck!(r.unread == 0, "a reply is left unread by a later operation");
        let (d, j) = if refused { (class, step) } else { (b'2', 4) };
        ck!(is_reply(&r.reply, &[d, b'5', b'0'], format!("{i}.{j}").as_bytes()), "a later operation's outcome is not decided by its own replies");
    })
}
/// Many logins, probes and messages in one session, one of them refused.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_mixed() {
    let k = [9, 31][choice(2)];
    let pipe = choice(2) == 1;
    let n = served(GREET, vec![ehlo(if pipe { &["PIPELINING", "AUTH PLAIN LOGIN"] } else { &["AUTH LOGIN PLAIN"] })]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let at = u8();
    assume(at as usize <= k);
    let first = choice(4);
    for i in 0..k {
        let no = ((at as usize == i) as u8).wrapping_neg();
        let last = cat(&[&[b'5' & no | b'2' & !no, b'5', b'0'], format!(" {i}\r\n").as_bytes()]);
        let ok = |l: &[&str]| l.iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>();
        let op = (first + i * 3 + i / 4) % 4;
        let mut replies = match op { 0 => ok(&["250 m\r\n", "250 r\r\n", "354 d\r\n"]), 1 => ok(&["334 VXNlcm5hbWU6\r\n", "334 UGFzc3dvcmQ6\r\n"]), _ => vec![] };
        replies.push(last);
        s.srv().replies.extend(replies);
        let (kind, reply) = match op {
            0 => { let r = oc(run(n, t.send(mail(i)))); (r.kind, r.reply) }
            1 => { let r = oc(run(n, t.auth(Mechanism::Login, &creds()))); (r.kind, r.reply) }
            2 => { let r = oc(run(n, t.auth(Mechanism::Plain, &creds()))); (r.kind, r.reply) }
            _ => { let r = oc_unit(run(n, t.quit())); (r.kind, r.reply) }
        };
        let refused = concrete((at as usize == i) as u64) == 1;
        ck!(kind == if refused { Kind::Permanent } else { Kind::Ok }, "a later operation's outcome is not decided by its own replies");
        if refused || op != 3 { ck!(is_reply(&reply, if refused { b"550" } else { b"250" }, format!("{i}").as_bytes()), "a later operation's outcome is not decided by its own replies"); }
        let v = s.srv();
        ck!(v.next == v.replies.len(), "a later operation does not ask for its own replies");
        ck!(s.unread() == 0, "a reply is left unread by a later operation");
        if refused { cover(2); }
    }
    cover(1);
}
fn mail(i: usize) -> SendableEmail { SendableEmail::new(Envelope::new(Some(addr("a@b")), vec![addr(&format!("r{i}@d"))]).unwrap(), b"m".to_vec()) }
/// Many LOGIN dialogues in one session: each has its own bound and its own prompts.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c14_many() {
    let k = [6, 14, bound(20, 40)][choice(3)];
    let n = served(GREET, vec![ehlo(&["AUTH LOGIN"])]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let prompts = [&b"334 VXNlcm5hbWU6\r\n"[..], b"334 UGFzc3dvcmQ6\r\n"];
    let per = 1 + choice(9);
    let mix = u8();
    let end = u8();
    assume((end == b'2') | (end == b'5'));
    for i in 0..k {
        let mut want = b"AUTH LOGIN\r\n".to_vec();
        let at = s.out.len();
        for j in 0..per {
            let user = if i == 2 && j < 2 { concrete((mix >> j & 1) as u64) == 0 } else { (i + j) % 2 == 0 };
            s.srv().replies.push(prompts[1 - user as usize].to_vec());
            want.extend_from_slice(if user { b"dQ==\r\n" } else { b"cA==\r\n" });
        }
        let last = if i == 1 { end } else { b'2' };
        s.srv().replies.push(cat(&[&[last], format!("35 {i}\r\n").as_bytes()]));
        let r = if i % 2 == 0 { oc(run(n, t.auth(Mechanism::Login, &creds()))).kind } else { oc_unit(run(n, t.try_login(&creds(), &[Mechanism::Login]))).kind };
        ck!(same(&s.out[at..], &want), "a later dialogue is not answered prompt by prompt");
        ck!(r == if i == 1 && concrete((end == b'5') as u64) == 1 { Kind::Permanent } else { Kind::Ok }, "a later dialogue's outcome is not the server's");
        ck!(s.unread() == 0, "a reply is left unread by a later dialogue");
    }
    cover(1);
}
/// Nothing is awaited unflushed in any of many transactions.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_repeat() {
    c11_long(|_, r, _, _, _, _| {
        ck!(!r.unflushed, "a reply was awaited while something written had not been flushed");
        ck!(r.kind != Kind::Stuck, "a reply is awaited that a buffering transport cannot have asked for");
    })
}
/// A failing source after other messages.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_again() {
    let before = choice(4);
    let n = served(GREET, vec![ehlo(if choice(2) == 1 { &["PIPELINING"] } else { &[] })]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    for i in 0..before {
        for r in ["250 m\r\n", "250 r\r\n", "354 d\r\n", "250 q\r\n"] { s.srv().replies.push(r.as_bytes().to_vec()); }
        let body = bytes(choice(3));
        let r = if choice(2) == 0 { oc(run(n, t.send(SendableEmail::new(env1(), body.clone())))) } else { oc(run(n, t.send(SendableEmail::new_with_reader(env1(), Box::new(Src::new(body.clone(), n)))))) };
        ck!(r.kind == Kind::Ok && s.srv().contents.len() == i + 1, "a message whose source does not fail is not sent");
    }
    for r in ["250 m\r\n", "250 r\r\n", "354 d\r\n", "250 q\r\n"] { s.srv().replies.push(r.as_bytes().to_vec()); }
    let data = bytes(choice(3));
    let mut src = Src::new(data.clone(), n);
    src.fail_at = Some(choice(data.len() + 1));
    let k = u8();
    assume((k as usize) < FATAL);
    src.kind = k as usize;
    let r = oc(run(n, t.send(SendableEmail::new_with_reader(env1(), Box::new(src)))));
    trace(&s.out);
    ck!(r.kind == Kind::Io, "a failing source does not fail the send with its error");
    ck!(s.srv().contents.len() == before, "a truncated message was completed");
    cover(1);
}
/// Not-ready results during long messages, from memory and from a source.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c28_long() {
    let len = [100, 1500, 8193, 40000, 140000][choice(bound(4, 5))];
    let mut body: Vec<u8> = (0..len).map(if choice(2) == 0 { |i| b"ab\r\n.\r\ncd."[i % 10] } else { |i| b"abcdef\r\n"[if i % 70 < 68 { 0 } else { i % 70 - 62 }] }).collect();
    body[len - 1] = u8();
    let n = served(GREET, vec![ehlo(&[]), b"250 m\r\n".to_vec(), b"250 r\r\n".to_vec(), b"354 d\r\n".to_vec(), b"250 q\r\n".to_vec()]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    s.p.w_max = [0, 1024][choice(2)];
    match choice(3) { 0 => {} 1 => { s.p.w_pend = 1; s.window = if len > 20000 { 6 } else { 24 }; s.p.arm = [0, 60][choice(2)]; } _ => s.p.f_pend = 2 }
    let m = if choice(2) == 0 { SendableEmail::new(env1(), body.clone()) } else {
        let mut x = Src::new(body.clone(), n);
        x.max = [0, 1000, 4096][choice(3)];
        if len < 2000 || x.max == 0 { x.pend = 1; }
        SendableEmail::new_with_reader(env1(), Box::new(x))
    };
    let r = oc(run(n, t.send(m)));
    ck!(r.kind != Kind::Stuck, "an operation is not resumed when what it waits for is ready");
    ck!(r.kind == Kind::Ok, "an operation fails because something was not ready");
    ck!(match receive(content(&s.out)) { Some(g) => faithful(&g, &body), None => false }, "a message is damaged because something was not ready");
    cover(1);
}

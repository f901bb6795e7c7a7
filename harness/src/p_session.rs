//! C11, C12, C16, C17, C20: whole sessions.

use crate::h::*;
use crate::net::*;
use crate::sx::*;
use async_smtp::authentication::*;
use async_smtp::response::Response;
use async_smtp::*;

fn creds() -> Credentials { Credentials::new("u".into(), "p".into()) }
/// An address whose local part is any letter, and whose domain is `d` or `D`.
fn any_addr() -> EmailAddress {
    let (b, d) = (u8(), u8());
    assume(((b | 0x20) >= b'a') & ((b | 0x20) <= b'z') & ((d | 0x20) == b'd'));
    addr(&unsafe { String::from_utf8_unchecked(vec![b, b'@', d]) })
}
/// `n` such recipients, so that any of them may be the same, or nearly the same.
fn to_any(n: usize) -> Vec<EmailAddress> { (0..n).map(|_| any_addr()).collect() }
fn to_n(n: usize) -> Vec<EmailAddress> { (0..n).map(|i| addr(&format!("r{i}@d"))).collect() }
fn raw_(a: &EmailAddress) -> &[u8] { AsRef::<str>::as_ref(a).as_bytes() }
fn text(l: &str) -> Vec<u8> { l.as_bytes().to_vec() }
/// The commands that announce a message.
fn wanted(from: Option<&str>, to: &[EmailAddress]) -> Vec<Vec<u8>> {
    let mut v = vec![text(&format!("MAIL FROM:<{}>", from.unwrap_or("")))];
    for t in to { v.push(cat(&[b"RCPT TO:<", raw_(t), b">"])); }
    v.push(text("DATA"));
    v
}
/// `r` is the `k`-th freely chosen reply.
fn is_made(r: &Option<Response>, k: usize, class: usize) -> bool {
    let Some(r) = r else { return false };
    let t = made_text(k);
    let code = code_digits(&r.code);
    // DATA's accepting reply is never an operation's outcome
    (code[0] == [b'2', b'5', b'4'][class]) & (code[1] == b'5') & ((code[2] == b'0') | (code[2] == b'4')) && r.message[0] == t && r.message.len() == 1 + k % 2 && (k % 2 == 0 || r.message[1] == "250 x")
}
fn class_kind(c: usize) -> Kind { match c { 0 => Kind::Ok, 1 => Kind::Permanent, _ => Kind::Transient } }

// ---------------------------------------------------------------- C11

fn all_same(a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    let mut ok = true;
    for (x, y) in a.iter().zip(b) { ok &= same(x, y); }
    ok
}
/// Judges one transaction whose first command is `cmds[from..]` and first free reply `made[mfrom..]`.
fn judge_send(n: N, r: &Oc, want: &[Vec<u8>], pipe: bool, cfrom: usize, mfrom: usize, nfrom: usize) {
    let s = n.get();
    let srv = s.server.as_ref().unwrap();
    let cmds = &srv.commands[cfrom..];
    let made = &srv.made[mfrom..];
    let bad = made.iter().position(|c| *c != 0);
    ck!(r.kind != Kind::Stuck, "the transaction hangs");
    ck!(cmds.len() <= want.len() && all_same(cmds, want), "the commands are not MAIL, one RCPT per recipient in order, DATA");
    // replies to MAIL, RCPT and DATA; then the one to the content
    let announced = bad.map_or(true, |b| b >= want.len());
    let got = &srv.contents[nfrom..];
    if !announced {
        ck!(got.is_empty() && content_start(&s.out, cfrom, srv).is_none(), "content written although something was refused");
        let b = bad.unwrap();
        if !pipe { ck!(cmds.len() == b + 1, "a command was sent after a refusal"); }
        ck!(r.kind == class_kind(made[b]) && is_made(&r.reply, mfrom + b, made[b]), "the first refusal is not what is reported");
    } else {
        ck!(cmds.len() == want.len(), "not all commands were sent");
        ck!(got.len() == 1, "the content was not sent exactly once");
        let last = made.len() - 1;
        ck!(last == want.len(), "not every step was answered");
        ck!(r.kind == class_kind(made[last]) && is_made(&r.reply, mfrom + last, made[last]), "the outcome is not the reply to the content");
    }
}
/// Offset in `out` of whatever follows the last command, if anything.
fn content_start(out: &[u8], _from: usize, srv: &Server) -> Option<usize> {
    let l: usize = srv.commands.iter().map(|c| c.len() + 2).sum();
    if out.len() > l && srv.contents.is_empty() { Some(l) } else { None }
}

fn c11_case(rcpts: usize, adv: bool, want_pipe: bool, from: Option<&str>) {
    let n = served(GREET, vec![ehlo(if adv { &["PIPELINING"] } else { &[] })]);
    let mut t = open(n, SmtpClient::new().pipelining(want_pipe));
    let s = n.get();
    s.srv().classes = 3;
    let start = s.out.len();
    let to = to_n(rcpts);
    let want = wanted(from, &to);
    let e = Envelope::new(from.map(addr), to).unwrap();
    let r = oc(run(n, t.send(SendableEmail::new(e, b"hi\r\n".to_vec()))));
    trace_oc(&r);
    trace(&s.out);
    judge_send(n, &r, &want, adv && want_pipe, 1, 0, 0);
    // the content is written only once every reply before it has been consumed
    let srv = s.server.as_ref().unwrap();
    if !srv.contents.is_empty() {
        let at: usize = start + want.iter().map(|c| c.len() + 2).sum::<usize>();
        let replied: usize = GREET.len() + srv.replies[..want.len() + 1].iter().map(|r| r.len()).sum::<usize>();
        ck!(s.log.iter().all(|(o, p)| *o < at || *p >= replied), "content was written before everything was answered");
        ck!(s.log.iter().any(|(o, _)| *o == at), "the content does not start where DATA was answered");
        ck!(same(&srv.contents[0], b"hi\r\n") || same(&srv.contents[0], b"hi\r\n\r\n"), "the content is not the message");
    }
}
/// Every combination of replies.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_replies() {
    let rcpts = 1 + choice(bound(3, 4));
    let mode = choice(3);
    c11_case(rcpts, mode > 0, mode != 1, if choice(2) == 0 { Some("a@b") } else { None });
    cover(1 + mode as u32);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_same() {
    // recipients that may be the same, or the sender
    let rcpts = 2 + choice(bound(2, 3));
    let pipe = choice(2) == 1;
    let n = served(GREET, vec![ehlo(if pipe { &["PIPELINING"] } else { &[] })]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    s.srv().classes = 2;
    let to = to_any(rcpts);
    let want = wanted(Some("a@d"), &to);
    let r = oc(run(n, t.send(SendableEmail::new(Envelope::new(Some(addr("a@d")), to).unwrap(), b"hi\r\n".to_vec()))));
    trace_oc(&r);
    judge_send(n, &r, &want, pipe, 1, 0, 0);
    cover(1);
}
/// Replies of symbolic words, with any code of the right class, at one step.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_word() {
    let pipe = choice(2) == 1;
    let n = served(GREET, vec![ehlo(if pipe { &["PIPELINING"] } else { &[] })]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let step = choice(5);
    let c = bytes(3);
    assume((c[0] >= b'2') & (c[0] <= b'5') & (c[1] >= b'0') & (c[1] <= b'5') & (c[2] >= b'0') & (c[2] <= b'9'));
    // whether a server waits for content depends on the answer to DATA being 3yz
    assume(if step == 3 { c[0] != b'2' } else { c[0] != b'3' });
    let x = cat(&[&quiet_word([2, 5][choice(2)], 0), b" ", &quiet_word(9, 9)]);
    for i in 0..5 {
        s.srv().replies.push(if i == step { cat(&[&c, b" ", &x, b"\r\n"]) } else { [&b"250 m\r\n"[..], b"250 r\r\n", b"250 r\r\n", b"354 d\r\n", b"250 q\r\n"][i].to_vec() });
    }
    let r = oc(run(n, t.send(SendableEmail::new(Envelope::new(None, to_n(2)).unwrap(), b"hi".to_vec()))));
    trace_oc(&r);
    let refused = c[0] >= b'4';
    let srv = s.server.as_ref().unwrap();
    if refused {
        ck!(r.kind == if c[0] == b'4' { Kind::Transient } else { Kind::Permanent }, "a refusal does not fail the call");
        ck!(is_reply(&r.reply, &c, &x), "the refusal is not the one reported");
        ck!(srv.contents.len() == (step == 4) as usize, "content written although something was refused, or not written");
        if !pipe { ck!(srv.commands.len() == 1 + (step + 1).min(4), "a command was sent after a refusal"); }
        cover(1);
    } else {
        ck!(r.kind == Kind::Ok, "a transaction that was accepted at every step failed");
        ck!(srv.contents.len() == 1 && srv.commands.len() == 5, "content written although something was refused, or not written");
        if step == 4 { ck!(is_reply(&r.reply, &c, &x), "the outcome is not the reply to the content"); } else { ck!(is_reply(&r.reply, b"250", b"q"), "the outcome is not the reply to the content"); }
        cover(2);
    }
    ck!(s.unread() == 0, "replies are left unread");
}
/// Many recipients, one refusal anywhere or none.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_many() {
    let rcpts = [5, 60, 101, 300, 10, 1000][choice(bound(4, 6))];
    let pipe = choice(2) == 1;
    let n = served(GREET, vec![ehlo(if pipe { &["PIPELINING"] } else { &[] })]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    // the position of the refusal is symbolic
    let at = if rcpts < 200 { u16() } else { [0, 1, 2, 100, 199, 200, 253, 254, 255, 256, 257, 258, 259, 299, 300, 301, 302, 303][choice(18)] };
    assume(at as usize <= rcpts + 3);
    let class = u8();
    assume((class == b'4') | (class == b'5'));
    for i in 0..rcpts + 3 {
        let yes = if i == rcpts + 1 { b'3' } else { b'2' };
        let m = ((i == at as usize) as u8).wrapping_neg();
        s.srv().replies.push(cat(&[&[class & m | yes & !m, b'5', b'4'], format!(" r{i}\r\n").as_bytes()]));
    }
    let to = to_n(rcpts);
    let want = wanted(Some("a@b"), &to);
    let r = oc(run(n, t.send(SendableEmail::new(Envelope::new(Some(addr("a@b")), to).unwrap(), b"hi".to_vec()))));
    trace_oc(&r);
    let at = concrete(at as u64) as usize;
    let srv = s.server.as_ref().unwrap();
    let cmds = &srv.commands[1..];
    ck!(cmds.len() <= want.len() && cmds.iter().zip(&want).all(|(a, b)| a == b), "the commands are not MAIL, one RCPT per recipient in order, DATA");
    ck!(srv.contents.len() == (at >= rcpts + 2) as usize, "content written although something was refused, or not written");
    if !pipe && at <= rcpts + 1 { ck!(cmds.len() == at + 1, "a command was sent after a refusal"); }
    if at >= rcpts + 1 { ck!(cmds.len() == want.len(), "not all commands were sent"); }
    let last = at.min(rcpts + 2);
    let code = if at > rcpts + 2 { b'2' } else { class };
    ck!(is_reply(&r.reply, &[code, b'5', b'4'], format!("r{last}").as_bytes()), "the outcome is not the deciding reply");
    ck!((r.kind == if code == b'2' { Kind::Ok } else if code == b'5' { Kind::Permanent } else { Kind::Transient }), "the outcome is not the deciding reply");
    ck!(s.unread() == 0, "replies are left unread");
    cover(1);
    if at == rcpts + 3 { cover(2); }
}
/// Two transactions in a row.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_again() {
    let pipe = choice(2) == 1;
    let n = served(GREET, vec![ehlo(if pipe { &["PIPELINING"] } else { &[] })]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    s.srv().classes = bound(2, 3);
    let (mut c, mut m, mut k) = (1, 0, 0);
    for _ in 0..2 {
        let to = to_n(1 + choice(2));
        let want = wanted(Some("a@b"), &to);
        let r = oc(run(n, t.send(SendableEmail::new(Envelope::new(Some(addr("a@b")), to).unwrap(), b"hi".to_vec()))));
        trace_oc(&r);
        judge_send(n, &r, &want, pipe, c, m, k);
        c = s.srv().commands.len();
        m = s.srv().made.len();
        k = s.srv().contents.len();
    }
    cover(1 + k as u32);
}
/// Any code at any step.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c11_codes() {
    let pipe = choice(2) == 1;
    let n = served(GREET, vec![ehlo(if pipe { &["PIPELINING"] } else { &[] })]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    let step = choice(4);
    // every refusing code
    let c = bytes(3);
    assume(((c[0] == b'4') | (c[0] == b'5')) & (c[1] >= b'0') & (c[1] <= b'5') & (c[2] >= b'0') & (c[2] <= b'9'));
    for i in 0..4 {
        s.srv().replies.push(if i == step { cat(&[&c, b" no\r\n"]) } else { [&b"250 m\r\n"[..], b"250 r\r\n", b"354 d\r\n", b"250 q\r\n"][i].to_vec() });
    }
    let r = oc(run(n, t.send(SendableEmail::new(env1(), b"hi".to_vec()))));
    trace_oc(&r);
    ck!(r.kind.refused() & ((r.kind == Kind::Permanent) == (c[0] == b'5')), "a refusal does not fail the call");
    ck!(is_reply(&r.reply, &c, b"no"), "the refusal is not the one reported");
    let srv = s.server.as_ref().unwrap();
    ck!(srv.contents.len() == (step == 3) as usize, "content written although something was refused, or not written");
    if !pipe { ck!(srv.commands.len() == 1 + (step + 1).min(3), "a command was sent after a refusal"); }
    ck!(s.unread() == 0, "replies are left unread");
    cover(1 + step as u32);
}

// ---------------------------------------------------------------- C12

/// One operation; its outcome must be the one its own replies call for.
fn c12_op(n: N, t: &mut T, op: usize) -> Kind {
    let s = n.get();
    let (mfrom, nfrom, cfrom) = (s.srv().made.len(), s.srv().contents.len(), s.srv().commands.len());
    let r = match op {
        0 | 1 => oc(run(n, t.send(SendableEmail::new(Envelope::new(Some(addr("a@b")), to_n(op + 1)).unwrap(), b"hi".to_vec())))),
        2 => oc_unit(run(n, t.quit())),
        3 => oc_unit(run(n, t.try_login(&creds(), &[Mechanism::Plain]))),
        4 => oc(run(n, t.auth(Mechanism::Login, &creds()))),
        _ => oc_unit(run(n, t.try_login(&creds(), &[Mechanism::Xoauth2]))),
    };
    trace_oc(&r);
    let srv = s.server.as_ref().unwrap();
    let made = &srv.made[mfrom..];
    ck!(r.kind != Kind::Stuck, "an operation waits for a reply that is not its own");
    ck!(s.pos == s.inp.len(), "a finished operation leaves a reply unread");
    ck!(!srv.in_data, "the server is left waiting for content");
    if op == 5 {
        ck!(srv.commands.len() == cfrom && made.is_empty() && r.kind == Kind::Ok, "a mechanism that is not offered was tried");
        return r.kind;
    }
    ck!(!made.is_empty(), "an operation got no reply of its own");
    let last = made.len() - 1;
    let k = if op < 2 { made.iter().position(|c| *c != 0).unwrap_or(last) } else { last };
    ck!(r.kind == class_kind(made[k]), "an operation's outcome is not decided by its own replies");
    if r.kind != Kind::Ok || op < 2 || op == 4 { ck!(is_made(&r.reply, mfrom + k, made[k]), "an operation reports a reply that is not its own"); }
    if op < 2 { ck!(srv.contents.len() - nfrom == made[..made.len().min(op + 3)].iter().all(|c| *c == 0) as usize, "content sent to a server that is not waiting for it, or not sent"); }
    r.kind
}
fn c12_open(pipe: bool) -> (N, T) {
    let n = served(GREET, vec![ehlo(if pipe { &["PIPELINING", "AUTH LOGIN PLAIN", "STARTTLS"] } else { &["AUTH LOGIN PLAIN", "STARTTLS"] })]);
    let t = open(n, SmtpClient::new());
    (n, t)
}
/// Two operations, every kind of answer to each command.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_two() {
    let pipe = choice(2) == 1;
    let (n, mut t) = c12_open(pipe);
    n.get().srv().classes = bound(2, 3);
    let a = choice(6);
    let k = c12_op(n, &mut t, a);
    let b = choice(6);
    c12_op(n, &mut t, b);
    if pipe && a < 2 && k != Kind::Ok { cover(1); }
    cover(2);
}
/// Three or four operations; at most the first two are sends.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_chain() {
    let pipe = choice(2) == 1;
    let (n, mut t) = c12_open(pipe);
    n.get().srv().classes = 2;
    for _ in 0..bound(3, 4) {
        let op = [0, 2, 4][choice(3)];
        c12_op(n, &mut t, op);
    }
    cover(1);
}
/// STARTTLS and a second session on the same stream.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_tls() {
    let (n, mut t) = c12_open(choice(2) == 1);
    let s = n.get();
    s.srv().classes = 3;
    let first = choice(4);
    if first < 3 { c12_op(n, &mut t, [0, 1, 3][first]); }
    let k = s.srv().made.len();
    match run(n, t.starttls()) {
        Ran::Done(Ok(io)) => {
            ck!(s.srv().made.len() == k + 1 && s.srv().made[k] == 0, "STARTTLS is not decided by its own reply");
            ck!(s.unread() == 0, "STARTTLS leaves its reply unread");
            let srv = s.srv();
            srv.classes = 0;
            srv.replies.push(ehlo(&["AUTH PLAIN"]));
            let c = SmtpClient::new().without_greeting();
            let Ran::Done(Ok(mut t)) = run(n, SmtpTransport::new(c, io)) else { ck!(false, "the session over the upgraded stream does not open"); return };
            ck!(s.unread() == 0, "EHLO leaves its reply unread");
            s.srv().classes = 2;
            c12_op(n, &mut t, [0, 2, 3][choice(3)]);
            cover(1);
        }
        Ran::Done(Err(e)) => {
            ck!(s.srv().made.len() == k + 1 && err_kind(&e) == class_kind(s.srv().made[k]), "STARTTLS is not decided by its own reply");
            ck!(s.unread() == 0, "STARTTLS leaves its reply unread");
            cover(2);
        }
        _ => ck!(false, "STARTTLS hangs"),
    }
}
/// Many recipients, one or two refusals anywhere: what follows is in step.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_many() {
    let rcpts = [4, 8, 50, 258, 100][choice(bound(4, 5))];
    let (n, mut t) = c12_open(choice(2) == 1);
    let s = n.get();
    let (a, b) = if rcpts < 200 { (u16(), u16()) } else { let x = [0, 1, 2, 100, 199, 200, 253, 254, 255, 256, 257, 258, 259][choice(13)]; (x, x) };
    assume((a as usize <= rcpts + 2) & (b >= a) & (b as usize <= rcpts + 2));
    if rcpts > bound(4, 8) { assume(b == a); }
    for i in 0..rcpts + 3 {
        let m = (((i == a as usize) | (i == b as usize)) as u8).wrapping_neg();
        let yes = if i == rcpts + 1 { b'3' } else { b'2' };
        s.srv().replies.push(cat(&[&[b'5' & m | yes & !m, b'5', b'0'], format!(" r{i}\r\n").as_bytes()]));
    }
    let r = oc(run(n, t.send(SendableEmail::new(Envelope::new(None, to_n(rcpts)).unwrap(), b"hi".to_vec()))));
    trace_oc(&r);
    let a = concrete(a as u64) as usize;
    ck!(r.kind == Kind::Permanent && is_reply(&r.reply, b"550", format!("r{a}").as_bytes()), "the refusal reported is not the first");
    ck!(s.unread() == 0 && !s.srv().in_data, "a refused transaction leaves replies unread, or the server waiting for content");
    let srv = s.srv();
    srv.replies.truncate(srv.next);
    srv.classes = 2;
    c12_op(n, &mut t, [0, 2, 4][choice(3)]);
    cover(1);
}
/// Recipients that may be the same; what follows the transaction is in step.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_same() {
    let (n, mut t) = c12_open(choice(2) == 1);
    let s = n.get();
    s.srv().classes = 2;
    let (mfrom, nfrom) = (s.srv().made.len(), s.srv().contents.len());
    let rcpts = 2 + choice(bound(2, 3));
    let r = oc(run(n, t.send(SendableEmail::new(Envelope::new(Some(addr("a@d")), to_any(rcpts)).unwrap(), b"hi".to_vec()))));
    trace_oc(&r);
    ck!(s.unread() == 0 && !s.srv().in_data, "a transaction leaves replies unread, or the server waiting for content");
    let made = s.srv().made[mfrom..].to_vec();
    let k = made.iter().position(|c| *c != 0).unwrap_or(made.len() - 1);
    ck!(r.kind == class_kind(made[k]) && is_made(&r.reply, mfrom + k, made[k]), "an operation's outcome is not decided by its own replies");
    ck!(s.srv().contents.len() - nfrom == (k >= rcpts + 2) as usize, "content sent to a server that is not waiting for it, or not sent");
    c12_op(n, &mut t, [0, 2, 4][choice(3)]);
    cover(1);
}
/// Replies of symbolic words and codes to any operation; the next operation is in step.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_word() {
    let pipe = choice(2) == 1;
    let (n, mut t) = c12_open(pipe);
    let s = n.get();
    let op = choice(4);
    let good: &[&str] = [&["250 m", "250 r", "250 s", "354 d", "250 q"][..], &["221 b"], &["235 a"], &["334 VXNlcm5hbWU6", "334 UGFzc3dvcmQ6", "235 ok"]][op];
    let step = choice(good.len());
    let c = bytes(3);
    assume((c[0] >= b'2') & (c[0] <= b'5') & (c[1] >= b'0') & (c[1] <= b'5') & (c[2] >= b'0') & (c[2] <= b'9'));
    let data = op == 0 && step == 3;
    assume(if data { c[0] != b'2' } else { c[0] != b'3' });
    // an early 2yz to AUTH LOGIN ends the dialogue
    if op == 3 && step < 2 { assume(c[0] != b'2'); }
    for (i, g) in good.iter().enumerate() {
        s.srv().replies.push(if i == step { cat(&[&c, b" ", &quiet_word([5, 11][choice(2)], 0), b" ", &quiet_word(4, 4), b"\r\n"]) } else { cat(&[g.as_bytes(), b"\r\n"]) });
        if op == 3 && i == step { break; }
    }
    let k = match op {
        0 => oc(run(n, t.send(SendableEmail::new(Envelope::new(None, to_n(2)).unwrap(), b"hi".to_vec())))).kind,
        1 => oc_unit(run(n, t.quit())).kind,
        2 => oc_unit(run(n, t.try_login(&creds(), &[Mechanism::Plain]))).kind,
        _ => oc(run(n, t.auth(Mechanism::Login, &creds()))).kind,
    };
    trace(&[k as u8]);
    ck!(k == if c[0] == b'4' { Kind::Transient } else if c[0] == b'5' { Kind::Permanent } else { Kind::Ok }, "an operation's outcome is not decided by its own replies");
    ck!(s.unread() == 0 && !s.srv().in_data, "a finished operation leaves replies unread, or the server waiting for content");
    let srv = s.srv();
    srv.replies.truncate(srv.next);
    srv.classes = 2;
    c12_op(n, &mut t, [1, 2, 3][choice(3)]);
    cover(1 + op as u32);
}
/// Replies delivered ahead of time: an operation takes its own and no more.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c12_ahead() {
    let pipe = choice(2) == 1;
    let n = net(&cat(&[GREET, &ehlo(if pipe { &["PIPELINING", "AUTH PLAIN"] } else { &["AUTH PLAIN"] })]));
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    ck!(s.unread() == 0, "opening leaves its replies unread");
    let ops = bound(2, 3);
    // (operation, refused at step)
    let mut plan = vec![];
    for _ in 0..ops {
        let op = choice(3);
        let steps: &[&str] = [&["250 m", "250 r", "251 r", "354 d", "250 q"][..], &["221 bye"], &["235-a\r\n235 b"]][op];
        let bad = decide(steps.len() + 1);
        for (i, x) in steps.iter().enumerate() {
            // after a refusal, only a pipelined transaction's MAIL and RCPT are still answered
            if i > bad && !(pipe && op == 0 && i < 3 && bad < 3) { break; }
            s.inp.extend_from_slice(if i == bad { b"550 no" } else { x.as_bytes() });
            s.inp.extend_from_slice(b"\r\n");
        }
        plan.push((op, bad < steps.len(), s.inp.len()));
    }
    for (op, bad, end) in plan {
        let k = match op {
            0 => oc(run(n, t.send(SendableEmail::new(Envelope::new(None, to_n(2)).unwrap(), b"hi".to_vec())))).kind,
            1 => oc_unit(run(n, t.quit())).kind,
            _ => oc_unit(run(n, t.try_login(&creds(), &[Mechanism::Plain]))).kind,
        };
        trace(&[k as u8]);
        ck!(k == if bad { Kind::Permanent } else { Kind::Ok }, "an operation's outcome is not decided by its own replies");
        ck!(s.pos == end, "an operation did not consume exactly its own replies");
    }
    cover(1);
}

// ---------------------------------------------------------------- C16

const OPS: usize = 6;
/// Replies for operation `op` after the greeting and EHLO.
fn c16_net(op: usize, caps: &[&str]) -> N {
    let mut r = vec![ehlo(caps)];
    match op {
        0 => r.push(b"221 bye\r\n".to_vec()),
        1 | 2 => {
            r.push(b"250 m\r\n".to_vec());
            for _ in 0..op { r.push(b"250 r\r\n".to_vec()); }
            r.push(b"354-d\r\n354 e\r\n".to_vec());
            r.push(b"250 q\r\n".to_vec());
        }
        3 => { r.push(b"334 VXNlcm5hbWU6\r\n".to_vec()); r.push(b"334 UGFzc3dvcmQ6\r\n".to_vec()); r.push(b"235 ok\r\n".to_vec()); }
        4 => r.push(b"220 go\r\n".to_vec()),
        // MAIL accepted, RCPT refused, then QUIT
        _ => { r.push(b"250 m\r\n".to_vec()); r.push(b"550 r\r\n".to_vec()); r.push(b"221 bye\r\n".to_vec()); }
    }
    served(GREET, r)
}
const BODY: &[u8] = b".a\r\n..\r\n";
/// Outcomes of opening and of the operation; `None`: not reached or abandoned.
fn c16_go(n: N, op: usize, from: usize, p: &Policy, body: &[u8]) -> (Vec<Option<Kind>>, bool) {
    let mut v = vec![];
    if from == 0 { n.get().p = p.clone(); }
    let mut t = match run(n, SmtpTransport::new(SmtpClient::new(), Io(n))) {
        Ran::Done(Ok(t)) => { v.push(Some(Kind::Ok)); t }
        Ran::Done(Err(e)) => { v.push(Some(err_kind(&e))); return (v, false) }
        Ran::Stuck => { v.push(Some(Kind::Stuck)); return (v, false) }
        Ran::Abandoned => return (v, true),
    };
    if from == 1 { n.get().p = p.clone(); }
    macro_rules! go { ($f:expr) => { match run(n, $f) {
        Ran::Done(Ok(_)) => v.push(Some(Kind::Ok)),
        Ran::Done(Err(e)) => v.push(Some(err_kind(&e))),
        Ran::Stuck => v.push(Some(Kind::Stuck)),
        Ran::Abandoned => return (v, true),
    } } }
    match op {
        0 => go!(t.quit()),
        1 | 2 => go!(t.send(SendableEmail::new(Envelope::new(Some(addr("a@b")), to_n(op)).unwrap(), body.to_vec()))),
        3 => go!(t.auth(Mechanism::Login, &creds())),
        4 => go!(t.starttls()),
        _ => {
            go!(t.send(SendableEmail::new(Envelope::new(Some(addr("a@b")), to_n(1)).unwrap(), body.to_vec())));
            if !(n.get().failed || n.get().read_failed) { go!(t.quit()); }
        }
    }
    (v, false)
}
fn c16_case(op: usize, pipe: bool, from: usize, p: Policy, body: &[u8]) {
    let caps: &[&str] = if pipe { &["PIPELINING", "AUTH LOGIN", "STARTTLS"] } else { &["AUTH LOGIN", "STARTTLS", "8BITMIME"] };
    let a = c16_net(op, caps);
    let (want, _) = c16_go(a, op, 2, &p, body);
    ck!(!want.contains(&Some(Kind::Stuck)) && !want.contains(&Some(Kind::Io)), "an operation fails on a perfect transport");
    let b = c16_net(op, caps);
    let (got, abandoned) = c16_go(b, op, from, &p, body);
    let (x, y) = (a.get(), b.get());
    trace(&y.out);
    for k in got.iter().flatten() { trace(&[b'A' + *k as u8]); }
    ck!(is_prefix(&y.out, &x.out), "bytes were lost, duplicated or reordered");
    ck!(!got.contains(&Some(Kind::Stuck)), "an operation hangs");
    ck!(!y.wrote_after_error, "something was written after a transport error");
    let fault = y.failed || y.read_failed;
    let l = got.len();
    if abandoned {
        ck!(got[..] == want[..l], "an outcome differs although there was no fault");
        cover(1);
    } else if fault {
        ck!(got[l - 1] == Some(Kind::Io), "a transport error does not fail the operation with an I/O error");
        ck!(got[..l - 1] == want[..l - 1], "an outcome differs before the fault");
        cover(2);
    } else {
        ck!(got == want && y.out.len() == x.out.len(), "an outcome differs although there was no fault");
        cover(3);
    }
}
/// One error anywhere, with not-ready results and short writes before it.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_error() {
    let op = choice(OPS);
    let pipe = choice(2) == 1;
    let from = choice(2);
    let mut p = Policy::default();
    match choice(3) { 0 => p.w_err = 1, 1 => p.f_err = 1, _ => p.r_err = 1 }
    match choice(3) { 0 => p.w_short = bound(1, 2), 1 => p.w_pend = 1, _ => { p.f_pend = 1; p.r_pend = bound(0, 1); } }
    c16_case(op, pipe, from, p, BODY);
}
/// One error of any kind anywhere.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_kinds() {
    let op = choice(OPS);
    let pipe = choice(2) == 1;
    let mut p = Policy::default();
    match choice(3) { 0 => p.w_err = 1, 1 => p.f_err = 1, _ => p.r_err = 1 }
    let k = u8();
    assume((k as usize) < FATAL);
    p.kind = k as usize;
    c16_case(op, pipe, choice(2), p, BODY);
}
/// Abandoned at any not-ready result.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_abandon() {
    let op = choice(OPS);
    let pipe = choice(2) == 1;
    let mut p = Policy { abandon: usize::MAX, ..Default::default() };
    match choice(4) { 0 => p.w_pend = bound(2, 3), 1 => { p.w_pend = 1; p.w_short = 1; } 2 => { p.f_pend = 1; p.w_pend = 1; } _ => { p.r_pend = 1; p.f_pend = 1; } }
    c16_case(op, pipe, 1, p, BODY);
}
/// No fault: short writes, small writes and not-ready results in any mixture.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_benign() {
    let op = choice(OPS);
    let pipe = choice(2) == 1;
    let mut p = Policy { w_max: [0, 1, 3][choice(3)], r_max: [0, 1][choice(2)], ..Default::default() };
    match choice(4) { 0 => p.w_short = 2, 1 => { p.w_pend = 1; p.f_pend = 1; } 2 => { p.w_short = 1; p.w_pend = 1; } _ => { p.r_pend = 2; } }
    if p.w_max == 1 || p.r_max == 1 { p.w_short = 0; p.w_pend = p.w_pend.min(1); p.f_pend = 0; p.r_pend = p.r_pend.min(1); }
    c16_case(op, pipe, 1, p, BODY);
}
/// Any content over an unreliable transport.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_content() {
    let body = bytes(1 + choice(bound(3, 5)));
    let mut p = Policy { arm: 60, ..Default::default() };
    match choice(4) { 0 => { p.w_short = 1; p.w_err = 1; } 1 => { p.w_short = bound(1, 2); p.w_pend = 1; } 2 => { p.w_pend = 1; p.abandon = 1; } _ => { p.f_pend = 1; p.f_err = 1; } }
    c16_case(1, false, 1, p, &body);
}
/// Long content and many recipients, written in blocks.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c16_long() {
    let len = [1000, 4096, 8192, 10000][choice(bound(3, 4))];
    let body: Vec<u8> = (0..len).map(|i| b".ab\r\n.\r\ncd.\n\r"[i % 13]).collect();
    let mut p = Policy { w_max: [0, 512, 1000][choice(3)], ..Default::default() };
    match choice(4) { 0 => p.w_err = 1, 1 => p.w_short = 1, 2 => { p.w_pend = 1; p.abandon = 1; } _ => p.f_err = 1 }
    p.arm = [0, 60, 500][choice(3)];
    if p.arm == 0 { p.arm = 70 + len; }
    // the content's writes are many: deviations are placed among a window of them
    let a = c16_net(1, &[]);
    let (want, _) = c16_go(a, 1, 2, &Policy::default(), &body);
    let b = c16_net(1, &[]);
    b.get().window = 12;
    let (got, abandoned) = c16_go(b, 1, 1, &p, &body);
    let (x, y) = (a.get(), b.get());
    ck!(is_prefix(&y.out, &x.out), "bytes were lost, duplicated or reordered");
    ck!(!y.wrote_after_error, "something was written after a transport error");
    if y.failed { ck!(got.last() == Some(&Some(Kind::Io)), "a transport error does not fail the operation with an I/O error"); cover(1); }
    else if !abandoned { ck!(got == want && x.out.len() == y.out.len(), "an outcome differs although there was no fault"); cover(2); }
}

// ---------------------------------------------------------------- C17

fn c17_judge(n: N, k: Kind) {
    ck!(k != Kind::Stuck, "a reply is awaited that a buffering transport cannot have asked for");
    ck!(!n.get().unflushed_read, "a reply was awaited while something written had not been flushed");
}
/// Every operation over a transport that delivers on flush only.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_ops() {
    let pipe = choice(2) == 1;
    let n = served(GREET, vec![ehlo(if pipe { &["PIPELINING", "AUTH LOGIN PLAIN", "STARTTLS"] } else { &["AUTH LOGIN PLAIN", "STARTTLS"] })]);
    match choice(4) { 0 => {} 1 => n.get().p.f_pend = bound(1, 2), 2 => n.get().p.w_short = bound(1, 2), _ => n.get().p.w_pend = 1 }
    let r = run(n, SmtpTransport::new(SmtpClient::new(), Io(n)));
    let Ran::Done(Ok(mut t)) = r else { c17_judge(n, Kind::Stuck); return };
    n.get().srv().classes = 2;
    let op = choice(7);
    if op == 6 {
        let r = run(n, t.starttls());
        c17_judge(n, if r.is_stuck() { Kind::Stuck } else { Kind::Ok });
    } else {
        let k = c17_op(n, &mut t, op);
        c17_judge(n, k);
        if op < 2 { let k = c17_op(n, &mut t, [0, 2][choice(2)]); c17_judge(n, k); }
    }
    trace(&n.get().out);
    cover(1 + op as u32);
}
fn c17_op(n: N, t: &mut T, op: usize) -> Kind {
    match op {
        0 | 1 => oc(run(n, t.send(SendableEmail::new(Envelope::new(Some(addr("a@b")), to_n(op + 1)).unwrap(), [&b"hi"[..], b"", b"a\r\n"][choice(bound(2, 3))].to_vec())))).kind,
        2 => oc_unit(run(n, t.quit())).kind,
        3 => oc_unit(run(n, t.try_login(&creds(), &[Mechanism::Plain]))).kind,
        4 => oc(run(n, t.auth(Mechanism::Login, &creds()))).kind,
        _ => oc(run(n, t.auth(Mechanism::Xoauth2, &creds()))).kind,
    }
}
/// Any message content, read in pieces.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_content() {
    let body = bytes(choice(bound(5, 7)));
    let pipe = choice(2) == 1;
    let n = served(GREET, vec![ehlo(if pipe { &["PIPELINING"] } else { &[] }), b"250 m\r\n".to_vec(), b"250 r\r\n".to_vec(), b"354 d\r\n".to_vec()]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    // only the content's delivery is watched here
    s.server.as_mut().unwrap().opaque = true;
    let mut src = Src::new(body, n);
    src.splits = 1;
    let r = oc(run(n, t.send(SendableEmail::new_with_reader(env1(), Box::new(src)))));
    trace(&s.out);
    // the end of the session: nothing answers the content
    ck!(r.kind == Kind::Stuck, "the reply to the content was not awaited");
    ck!(!s.unflushed_read && s.flushed == s.out.len(), "a reply was awaited while something written had not been flushed");
    ck!(s.out.ends_with(b"\r\n.\r\n"), "the end of data had not been written when its reply was awaited");
    cover(1);
}
/// Long content and many recipients.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c17_long() {
    let len = [0, 1, 2, 1023, 1024, 4096, 8190, 8191, 8192, 8193, 16384, 20000, 70000][choice(bound(12, 13))];
    let rcpts = if len > 2 { 1 } else { [1, 2, 49, 50, 51, 99, 100, 101][choice(8)] };
    let pipe = choice(2) == 1;
    let mut r = vec![ehlo(if pipe { &["PIPELINING"] } else { &[] }), b"250 m\r\n".to_vec()];
    for _ in 0..rcpts { r.push(b"250 r\r\n".to_vec()); }
    r.push(b"354 d\r\n".to_vec());
    r.push(b"250 q\r\n".to_vec());
    let n = served(GREET, r);
    let mut t = open(n, SmtpClient::new());
    n.get().p.w_max = [0, 1024][choice(2)];
    let mut body: Vec<u8> = (0..len).map(|i| b"ab\r\n.\r\ncd."[i % 10]).collect();
    // how the content ends is symbolic
    for i in 0..len.min(2) { body[len - 1 - i] = u8(); }
    let r = oc(run(n, t.send(SendableEmail::new(Envelope::new(None, to_n(rcpts)).unwrap(), body))));
    c17_judge(n, r.kind);
    ck!(r.kind == Kind::Ok, "a long message is not delivered");
    cover(1);
}

// ---------------------------------------------------------------- C20

fn rcpt_cmd(a: &[u8]) -> Vec<u8> { cat(&[b"RCPT TO:<", a, b">"]) }
/// Any addresses, any count up to the bound, repeats included.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c20_any() {
    let k = choice(bound(4, 5));
    let null = choice(2) == 1;
    let to = to_any(k);
    let raw: Vec<Vec<u8>> = to.iter().map(|a| raw_(a).to_vec()).collect();
    let from = if null { None } else { Some(any_addr()) };
    let sender: Vec<u8> = from.as_ref().map_or(vec![], |a| raw_(a).to_vec());
    let e = Envelope::new(from, to);
    if k == 0 {
        ck!(e.is_err(), "an envelope without recipients was created");
        cover(1);
        return;
    }
    ck!(e.is_ok(), "an envelope with recipients was refused");
    let e = e.unwrap();
    c20_judge(&e, if null { None } else { Some(&sender) }, &raw);
    let c = e.clone();
    ck!(c == e, "a copy of an envelope differs from it");
    let pipe = choice(2) == 1;
    let n = served(GREET, vec![ehlo(if pipe { &["PIPELINING"] } else { &[] }), b"250 m\r\n".to_vec()]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    for _ in 0..k { s.srv().replies.push(b"250 r\r\n".to_vec()); }
    s.srv().replies.push(b"354 d\r\n".to_vec());
    s.srv().replies.push(b"250 q\r\n".to_vec());
    let m = SendableEmail::new(e, b"hi".to_vec());
    c20_judge(m.envelope(), if null { None } else { Some(&sender) }, &raw);
    let r = oc(run(n, t.send(m)));
    trace(&s.out);
    ck!(r.kind == Kind::Ok, "sending to every recipient failed");
    c20_wire(s.server.as_ref().unwrap(), &sender, &raw);
    cover(2);
    if null { cover(3); }
}
fn c20_judge(e: &Envelope, from: Option<&[u8]>, raw: &[Vec<u8>]) {
    ck!(e.to().len() == raw.len(), "the envelope does not report all its recipients");
    let mut ok = true;
    for (a, b) in e.to().iter().zip(raw) { ok &= same(raw_(a), b); }
    ck!(ok, "the envelope does not report the recipients it was given");
    ck!(match (e.from(), from) { (None, None) => true, (Some(a), Some(b)) => same(raw_(a), b), _ => false }, "the envelope does not report the sender it was given");
}
fn c20_wire(srv: &Server, from: &[u8], raw: &[Vec<u8>]) {
    let c = &srv.commands;
    ck!(c.len() == raw.len() + 3, "sending does not write one RCPT per recipient");
    let mut ok = same(&c[1], &cat(&[b"MAIL FROM:<", from, b">"]));
    for (a, b) in c[2..].iter().zip(raw) { ok &= same(a, &rcpt_cmd(b)); }
    ck!(ok, "the RCPT commands are not the recipients in order");
    ck!(same(c.last().unwrap(), b"DATA"), "something else follows the recipients");
}
/// Every recipient count.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c20_counts() {
    let big = [64, 99, 100, 101, 127, 128, 255, 256, 257, 512, 1000, 1024, 2000];
    let c = choice(40 + 13);
    let k = if c < 40 { c + 1 } else { big[c - 40] };
    let pipe = choice(2) == 1;
    // a position holds a repeat of the first recipient, another any address
    let mut to = to_n(k);
    let at = [0, k / 2, k - 1][choice(if k > 2 { 3 } else { 1 })];
    let b = u8();
    assume((b >= b'a') & (b <= b'z'));
    to[at] = unsafe { String::from_utf8_unchecked(vec![b, b'@', b'd']) }.parse().unwrap();
    if k > 3 { to[1] = addr("r0@d"); }
    let raw: Vec<Vec<u8>> = to.iter().map(|a| raw_(a).to_vec()).collect();
    let e = Envelope::new(Some(addr("s@e")), to);
    ck!(e.is_ok(), "an envelope with recipients was refused");
    let e = e.unwrap();
    c20_judge(&e, Some(b"s@e"), &raw);
    let n = served(GREET, vec![ehlo(if pipe { &["PIPELINING"] } else { &[] }), b"250 m\r\n".to_vec()]);
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    for _ in 0..k { s.srv().replies.push(b"250 r\r\n".to_vec()); }
    s.srv().replies.push(b"354 d\r\n".to_vec());
    s.srv().replies.push(b"250 q\r\n".to_vec());
    let r = oc(run(n, t.send(SendableEmail::new(e, b"hi".to_vec()))));
    ck!(r.kind == Kind::Ok, "sending to every recipient failed");
    c20_wire(s.server.as_ref().unwrap(), b"s@e", &raw);
    ck!(s.unread() == 0, "replies are left unread");
    cover(1);
}

//! Message content: C01 (transparency), C23 (failing message source).

use crate::h::*;
use crate::net::*;
use crate::sx::{self, *};
use async_smtp::*;

fn judge(n: N, r: Oc, msg: &[u8]) {
    let s = n.get();
    trace(&s.out);
    ck!(r.kind == Kind::Ok, "sending over a perfect transport failed");
    match receive(content(&s.out)) {
        Some(got) => {
            trace(&got);
            ck!(faithful(&got, msg), "the receiver does not recover the message");
        }
        None => ck!(false, "the end-of-data marker is missing, early or repeated"),
    }
    ck!(s.flushed == s.out.len(), "content left unflushed");
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_bytes() {
    let len = choice(bound(8, 11));
    let msg = bytes(len);
    let n = simple(&[], b"250 q\r\n");
    let mut t = open(n, SmtpClient::new());
    let r = oc(run(n, t.send(SendableEmail::new(env1(), msg.clone()))));
    if len == 0 { cover(1); }
    judge(n, r, &msg);
    if len > 0 { if msg[0] == b'.' { cover(2); } }
    if len > 3 { if msg[1] == b'\r' && msg[2] == b'\n' && msg[3] == b'.' { cover(3); } }
    if len > 3 { if msg[0] == b'\r' && msg[1] == b'\r' && msg[2] == b'\n' && msg[3] == b'.' { cover(4); } }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_reader() {
    let len = choice(bound(5, 6));
    let msg = bytes(len);
    let n = simple(&["PIPELINING"], b"250 q\r\n");
    let mut t = open(n, SmtpClient::new());
    let mut src = Src::new(msg.clone(), n);
    src.splits = bound(3, 5);
    src.pend = 1;
    let r = oc(run(n, t.send(SendableEmail::new_with_reader(env1(), Box::new(src)))));
    judge(n, r, &msg);
    cover(1);
}

/// Content written through a transport that accepts it in pieces.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_writes() {
    let len = choice(bound(4, 5));
    let msg = bytes(len);
    let n = simple(&[], b"250 q\r\n");
    let mut t = open(n, SmtpClient::new());
    let s = n.get();
    s.p.arm = s.out.len() + b"MAIL FROM:<a@b>\r\nRCPT TO:<c@d>\r\nDATA\r\n".len();
    s.p.w_short = 2;
    s.p.w_pend = 1;
    s.p.f_pend = 1;
    let r = oc(run(n, t.send(SendableEmail::new(env1(), msg.clone()))));
    judge(n, r, &msg);
    cover(1);
}

const WINDOWS: [usize; 8] = [62, 126, 1022, 2046, 4094, 8190, 16382, 32766];

/// A long message that is full of dots and line ends in every phase, with symbolic bytes around
/// a power-of-two offset.
fn long_msg() -> Vec<u8> {
    let phase = choice(4);
    let at = WINDOWS[choice(bound(7, 8))];
    let len = at + 40 + phase;
    let pat: &[u8] = b"\r\n.x";
    let mut msg: Vec<u8> = (0..len).map(|i| pat[(i + phase) % 4]).collect();
    for i in 0..bound(3, 4) { msg[at + i] = u8(); }
    msg
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_long() {
    let msg = long_msg();
    let n = simple(&[], b"250 q\r\n");
    let mut t = open(n, SmtpClient::new());
    let r = if choice(2) == 0 {
        oc(run(n, t.send(SendableEmail::new(env1(), msg.clone()))))
    } else {
        oc(run(n, t.send(SendableEmail::new_with_reader(env1(), Box::new(Src::new(msg.clone(), n))))))
    };
    judge(n, r, &msg);
    cover(1);
}

/// Lines of symbolic printable characters: whatever a message says, it arrives.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_text() {
    let shapes: [&[usize]; 6] = [&[12], &[24, 3], &[5, 1, 17], &[40], &[9, 0, 9, 2], &[70, 1]];
    let k = choice(bound(5, 6));
    let mut msg = vec![];
    for n in shapes[k] { msg.extend_from_slice(printable(*n).as_bytes()); msg.extend_from_slice(b"\r\n"); }
    if choice(2) == 1 { msg.truncate(msg.len() - 2); }
    let pipe = choice(2) == 1;
    let n = simple(if pipe { &["PIPELINING", "8BITMIME", "SIZE 100"] } else { &[] }, b"250 q\r\n");
    let mut t = open(n, SmtpClient::new());
    let m = if choice(2) == 0 { SendableEmail::new(env1(), msg.clone()) } else { SendableEmail::new_with_reader(env1(), Box::new(Src::new(msg.clone(), n))) };
    let r = oc(run(n, t.send(m)));
    judge(n, r, &msg);
    cover(1);
}
/// Large messages with symbolic bytes before, at and after the usual limits.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_huge() {
    let at = [65534, 100_000, 262_142, 1_048_574][choice(bound(2, 4))];
    let pat: &[u8] = [&b"Some text.\r\n"[..], b"\r\n.", b"..."][choice(3)];
    let mut msg: Vec<u8> = (0..at + 6).map(|i| pat[i % pat.len()]).collect();
    for i in 0..3 { msg[at + i] = u8(); }
    let n = simple(&[], b"250 q\r\n");
    let mut t = open(n, SmtpClient::new());
    let r = oc(run(n, t.send(SendableEmail::new(env1(), msg.clone()))));
    judge(n, r, &msg);
    cover(1);
}
/// Two messages on one session: nothing of the first influences the second.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c01_two() {
    let (m1, m2) = (bytes(choice(3)), bytes(choice(bound(3, 4))));
    let n = net(&cat(&[GREET, &ehlo(&[]), b"250 m\r\n250 r\r\n354 d\r\n250 q\r\n", b"250 m\r\n250 r\r\n354 d\r\n250 q\r\n"]));
    let mut t = open(n, SmtpClient::new());
    let r1 = oc(run(n, t.send(SendableEmail::new(env1(), m1.clone()))));
    ck!(r1.kind == Kind::Ok, "first send failed");
    let k = n.get().out.len();
    ck!(match receive(content(&n.get().out)) { Some(g) => faithful(&g, &m1), None => false }, "first message damaged");
    let r2 = oc(run(n, t.send(SendableEmail::new(env1(), m2.clone()))));
    ck!(r2.kind == Kind::Ok, "second send failed");
    trace(&n.get().out);
    ck!(match receive(content(&n.get().out[k - 2..])) { Some(g) => faithful(&g, &m2), None => false }, "second message damaged");
    cover(1);
}

/// The message source fails after `f` bytes.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_fail() {
    let len = choice(bound(5, 6));
    let msg = bytes(len);
    let pipe = choice(2) == 1;
    let n = if pipe { simple(&["PIPELINING"], b"250 q\r\n") } else { simple(&[], b"250 q\r\n") };
    let mut t = open(n, SmtpClient::new());
    let mut src = Src::new(msg, n);
    src.fail_at = Some(choice(len + 1));
    src.splits = 2;
    src.pend = 1;
    let k = u8();
    assume((k as usize) < FATAL);
    src.kind = k as usize;
    let r = oc(run(n, t.send(SendableEmail::new_with_reader(env1(), Box::new(src)))));
    trace_oc(&r);
    trace(&n.get().out);
    ck!(r.kind == Kind::Io, "a failing message source must fail the send with an I/O error");
    ck!(!has_end(content(&n.get().out)), "end-of-data written although the message source failed");
    ck!(n.get().unread() == b"250 q\r\n".len(), "a reply to the content was awaited although the source failed");
    cover(1);
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_ok() {
    let len = choice(bound(5, 7));
    let msg = bytes(len);
    let n = simple(&[], b"250 q\r\n");
    let mut t = open(n, SmtpClient::new());
    let mut src = Src::new(msg.clone(), n);
    src.splits = bound(4, 7);
    src.pend = bound(1, 2);
    let r = oc(run(n, t.send(SendableEmail::new_with_reader(env1(), Box::new(src)))));
    judge(n, r, &msg);
    cover(1);
}

/// Failures and successes beyond the usual buffer sizes.
#[no_mangle]
#[inline(never)]
pub extern "C" fn c23_long() {
    let total = [8192, 8193, 16384, 20000][choice(4)];
    let mut msg = vec![b'm'; total];
    let k = [31, 32, 8191, 8192][choice(4)];
    let k = k.min(total - 1);
    msg[k] = u8();
    msg[k - 1] = u8();
    let n = simple(&[], b"250 q\r\n");
    let mut t = open(n, SmtpClient::new());
    let mut src = Src::new(msg.clone(), n);
    src.max = [0, 1000, 8192][choice(3)];
    let fail = choice(2) == 1;
    if fail { src.fail_at = Some([1, 8191, 8192, total][choice(4)]); cover(1); } else { cover(2); }
    let r = oc(run(n, t.send(SendableEmail::new_with_reader(env1(), Box::new(src)))));
    if fail {
        ck!(r.kind == Kind::Io, "a failing message source must fail the send with an I/O error");
        ck!(!has_end(content(&n.get().out)), "end-of-data written although the message source failed");
    } else {
        judge(n, r, &msg);
    }
}

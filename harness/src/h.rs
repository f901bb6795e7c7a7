//! Shared helpers and reference oracles. Nothing here looks at how async-smtp is written.

use crate::net::*;
use crate::sx;
use async_smtp::error::Error;
use async_smtp::response::Response;
use async_smtp::*;

#[macro_export]
macro_rules! ck {
    ($c:expr, $t:literal) => { $crate::sx::check($c, line!(), $t) };
}

pub type T = SmtpTransport<Io>;

pub fn addr(s: &str) -> EmailAddress { s.parse().unwrap() }
pub fn env1() -> Envelope { Envelope::new(Some(addr("a@b")), vec![addr("c@d")]).unwrap() }

/// Opens a session; the path ends if that fails (only for entries that are not about opening).
pub fn open(n: N, c: SmtpClient) -> T {
    match run(n, SmtpTransport::new(c, Io(n))) {
        Ran::Done(Ok(t)) => t,
        Ran::Done(Err(_)) => { ck!(false, "opening a session with a well-behaved server failed"); unreachable!() }
        _ => { ck!(false, "opening a session with a well-behaved server hangs"); unreachable!() }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Ok, Transient, Permanent, Io, Other, Stuck }
impl Kind {
    pub fn refused(self) -> bool { self == Kind::Transient || self == Kind::Permanent }
}
pub fn err_kind(e: &Error) -> Kind {
    match e { Error::Transient(_) => Kind::Transient, Error::Permanent(_) => Kind::Permanent, Error::Io(_) => Kind::Io, _ => Kind::Other }
}
pub fn err_reply(e: &Error) -> Option<&Response> {
    match e { Error::Transient(r) | Error::Permanent(r) => Some(r), _ => None }
}
/// Outcome of an operation together with the reply it reports, if any.
pub struct Oc { pub kind: Kind, pub reply: Option<Response> }
pub fn oc(r: Ran<Result<Response, Error>>) -> Oc {
    match r {
        Ran::Done(Ok(r)) => Oc { kind: Kind::Ok, reply: Some(r) },
        Ran::Done(Err(e)) => { let k = err_kind(&e); Oc { kind: k, reply: match e { Error::Transient(r) | Error::Permanent(r) => Some(r), _ => None } } }
        _ => Oc { kind: Kind::Stuck, reply: None },
    }
}
pub fn oc_unit(r: Ran<Result<(), Error>>) -> Oc {
    match r {
        Ran::Done(Ok(())) => Oc { kind: Kind::Ok, reply: None },
        Ran::Done(Err(e)) => { let k = err_kind(&e); Oc { kind: k, reply: match e { Error::Transient(r) | Error::Permanent(r) => Some(r), _ => None } } }
        _ => Oc { kind: Kind::Stuck, reply: None },
    }
}
pub fn code_digits(c: &async_smtp::response::Code) -> [u8; 3] { [c.severity as u8 + b'0', c.category as u8 + b'0', c.detail as u8 + b'0'] }
pub fn trace_reply(r: &Response) {
    sx::trace(&code_digits(&r.code));
    for l in &r.message { sx::trace(l.as_bytes()); sx::trace(b"|"); }
}
pub fn trace_oc(o: &Oc) {
    sx::trace(&[o.kind as u8 + b'A']);
    if let Some(r) = &o.reply { trace_reply(r); }
}
/// `r` is the one-line reply `code text`.
pub fn is_reply(r: &Option<Response>, code: &[u8], text: &[u8]) -> bool {
    match r {
        Some(r) => r.message.len() == 1 && sx::same(&code_digits(&r.code), code) & sx::same(r.message[0].as_bytes(), text),
        None => false,
    }
}

// ---------------------------------------------------------------- RFC 5321 4.5.2 receiver

/// What a receiver takes as the message from the bytes that follow the go-ahead to DATA.
/// `None` unless the end-of-data line is the last thing in `c` and appears exactly once.
pub fn receive(c: &[u8]) -> Option<Vec<u8>> {
    let mut m = Vec::with_capacity(c.len());
    let mut i = 0;
    loop {
        // at the start of a line
        if i >= c.len() { return None; }
        if c[i] == b'.' {
            if i + 2 < c.len() && c[i + 1] == b'\r' && c[i + 2] == b'\n' {
                return if i + 3 == c.len() { Some(m) } else { None };
            }
            i += 1;
        }
        // rest of the line
        loop {
            if i >= c.len() { return None; }
            m.push(c[i]);
            i += 1;
            if c[i - 1] == b'\r' && i < c.len() && c[i] == b'\n' { m.push(b'\n'); i += 1; break; }
        }
    }
}
/// Does an end-of-data line occur in `c`?
pub fn has_end(c: &[u8]) -> bool {
    let mut i = 0;
    loop {
        if i + 2 < c.len() && c[i] == b'.' && c[i + 1] == b'\r' && c[i + 2] == b'\n' { return true; }
        loop {
            if i + 1 >= c.len() { return false; }
            i += 1;
            if c[i - 1] == b'\r' && c[i] == b'\n' { i += 1; break; }
        }
    }
}
/// The content bytes written after DATA.
pub fn content(out: &[u8]) -> &[u8] {
    match find(out, b"\r\nDATA\r\n") { Some(k) => &out[k + 8..], None => &[] }
}
/// The received message is the sent one followed by one CRLF (optional after a final CRLF, and for no content).
pub fn faithful(got: &[u8], msg: &[u8]) -> bool {
    let mut with = msg.to_vec();
    with.extend_from_slice(b"\r\n");
    if got.len() == with.len() { return sx::same(got, &with); }
    if got.len() == msg.len() {
        if msg.is_empty() { return true; }
        if msg.len() < 2 { return false; }
        return sx::same(got, msg) & (msg[msg.len() - 2] == b'\r') & (msg[msg.len() - 1] == b'\n');
    }
    false
}

// ---------------------------------------------------------------- RFC 5321 4.2 replies

pub struct Ref { pub code: [u8; 3], pub lines: Vec<(usize, usize)>, pub used: usize }
fn code_ok(c: &[u8]) -> bool { (c[0] >= b'2') & (c[0] <= b'5') & (c[1] >= b'0') & (c[1] <= b'5') & (c[2] >= b'0') & (c[2] <= b'9') }
/// Reads the reply at the start of `s`.
pub fn ref_reply(s: &[u8]) -> Option<Ref> {
    let mut i = 0;
    let mut lines = vec![];
    let mut code = [0u8; 3];
    loop {
        // the line's end
        let mut e = i;
        loop {
            if e + 1 >= s.len() { return None; }
            if s[e] == b'\r' && s[e + 1] == b'\n' { break; }
            e += 1;
        }
        let l = &s[i..e];
        if l.len() < 3 || !code_ok(l) { return None; }
        if lines.is_empty() { code.copy_from_slice(&l[..3]); } else if !sx::same(&code, &l[..3]) { return None; }
        if l.len() == 3 {
            lines.push((e, e));
            return Some(Ref { code, lines, used: e + 2 });
        }
        if l[3] == b' ' { lines.push((i + 4, e)); return Some(Ref { code, lines, used: e + 2 }); }
        if l[3] != b'-' { return None; }
        lines.push((i + 4, e));
        i = e + 2;
    }
}
pub fn ref_matches(r: &Response, f: &Ref, s: &[u8]) -> bool {
    if r.message.len() != f.lines.len() { return false; }
    let mut ok = sx::same(&code_digits(&r.code), &f.code);
    for (l, (a, b)) in r.message.iter().zip(&f.lines) { ok &= sx::same(l.as_bytes(), &s[*a..*b]); }
    ok
}

// ---------------------------------------------------------------- base64

fn b64c(x: u8) -> u8 {
    // branch-free
    let up = (x < 26) as u8;
    let lo = ((x >= 26) & (x < 52)) as u8;
    let di = ((x >= 52) & (x < 62)) as u8;
    let pl = (x == 62) as u8;
    let sl = (x == 63) as u8;
    up.wrapping_mul(x.wrapping_add(b'A')).wrapping_add(lo.wrapping_mul(x.wrapping_add(b'a' - 26))).wrapping_add(di.wrapping_mul(x.wrapping_sub(4)))
        .wrapping_add(pl * b'+').wrapping_add(sl * b'/')
}
pub fn b64(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in d.chunks(3) {
        let (a, b, e) = (c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0));
        o.push(b64c(a >> 2));
        o.push(b64c((a & 3) << 4 | b >> 4));
        o.push(if c.len() > 1 { b64c((b & 15) << 2 | e >> 6) } else { b'=' });
        o.push(if c.len() > 2 { b64c(e & 63) } else { b'=' });
    }
    o
}

// ---------------------------------------------------------------- sessions

pub const GREET: &[u8] = b"220 mx.me hi\r\n";
/// EHLO reply advertising the given keywords.
pub fn ehlo(caps: &[&str]) -> Vec<u8> {
    let mut v = vec![];
    if caps.is_empty() { v.extend_from_slice(b"250 mx.me hi\r\n"); return v; }
    v.extend_from_slice(b"250-mx.me hi\r\n");
    for (i, c) in caps.iter().enumerate() {
        v.extend_from_slice(if i + 1 == caps.len() { b"250 " } else { b"250-" });
        v.extend_from_slice(c.as_bytes());
        v.extend_from_slice(b"\r\n");
    }
    v
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> { let mut v = vec![]; for p in parts { v.extend_from_slice(p); } v }
/// A session over pre-loaded replies with one recipient; `reply` answers the content.
pub fn simple(caps: &[&str], reply: &[u8]) -> N { net(&cat(&[GREET, &ehlo(caps), b"250 m\r\n250 r\r\n354 d\r\n", reply])) }

//! Mock transport, scripted SMTP server and a tiny executor.

use crate::sx;
use std::cell::UnsafeCell;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

/// Budgets for deviations from a perfect transport; every placement within the budget is explored.
#[derive(Default, Clone)]
pub struct Policy {
    pub w_short: usize,
    pub w_pend: usize,
    pub w_err: usize,
    pub f_pend: usize,
    pub f_err: usize,
    pub r_pend: usize,
    pub r_err: usize,
    /// Number of reads whose size is chosen freely (1..=available); `usize::MAX`: all.
    pub r_split: usize,
    /// Number of Pending results at which the operation may be abandoned.
    pub abandon: usize,
    /// Deviations happen only once this many bytes have been written.
    pub arm: usize,
    /// Write sizes on the deterministic path: 0 means everything at once.
    pub w_max: usize,
    /// Read sizes on the deterministic path: 0 means everything at once.
    pub r_max: usize,
    /// Kind of the injected error.
    pub kind: usize,
}

pub struct Server {
    pub replies: Vec<Vec<u8>>,
    pub next: usize,
    done: usize,
    pub in_data: bool,
    /// Index of the reply that answers content.
    pub commands: Vec<Vec<u8>>,
    pub contents: Vec<Vec<u8>>,
    /// Close the connection after this many replies have been sent.
    pub close_after: usize,
    pub closed: bool,
    /// 0: fixed replies. Otherwise replies beyond the fixed ones are chosen freely: 2 = accepted or
    /// permanently refused, 3 = also transiently refused.
    pub classes: usize,
    /// Class (0 accepted, 1 permanent, 2 transient, 3 challenge) of each freely chosen reply.
    pub made: Vec<usize>,
    /// Content is never answered, nor looked at.
    pub opaque: bool,
}

/// First line's text of the `k`-th freely chosen reply.
pub fn made_text(k: usize) -> String { format!("r{k}") }

impl Server {
    pub fn new(replies: Vec<Vec<u8>>) -> Server {
        Server { replies, next: 0, done: 0, in_data: false, commands: vec![], contents: vec![], close_after: usize::MAX, closed: false, classes: 0, made: vec![], opaque: false }
    }
    fn answer(&mut self, inp: &mut Vec<u8>, data: bool, login: bool) -> Option<u8> {
        if self.next >= self.close_after { self.closed = true; return None; }
        if self.classes > 0 && self.next == self.replies.len() {
            let k = self.made.len();
            if login && sx::decide(2) == 1 {
                self.made.push(3);
                self.replies.push(b"334 VXNlcm5hbWU6\r\n".to_vec());
                self.next += 1;
                inp.extend_from_slice(b"334 VXNlcm5hbWU6\r\n");
                return Some(b'3');
            }
            // the first digit is symbolic
            let (yes, last) = if data { (b'3', b'4') } else { (b'2', b'0') };
            let sev = sx::u8();
            sx::assume((sev == yes) | (sev == b'5') | ((sev == b'4') & (self.classes > 2)));
            let class = if sev == yes { 0 } else if sev == b'5' { 1 } else { 2 };
            self.made.push(class);
            let mut r = vec![];
            for i in 0..=k % 2 {
                r.extend_from_slice(&[sev, b'5', last, if i < k % 2 { b'-' } else { b' ' }]);
                r.extend_from_slice(if i == 0 { made_text(k) } else { "250 x".into() }.as_bytes());
                r.extend_from_slice(b"\r\n");
            }
            self.replies.push(r);
        }
        let r = self.replies.get(self.next)?;
        self.next += 1;
        inp.extend_from_slice(r);
        Some(r[0])
    }
    fn feed(&mut self, out: &[u8], inp: &mut Vec<u8>) {
        loop {
            let rest = &out[self.done..];
            if self.in_data {
                if self.opaque { return; }
                // end of data: a line holding a single dot
                let mut i = 0;
                let mut end = None;
                while i < rest.len() {
                    if rest[i..].starts_with(b".\r\n") { end = Some(i); break; }
                    match find(&rest[i..], b"\r\n") { Some(k) => i += k + 2, None => break }
                }
                let Some(e) = end else { return };
                self.contents.push(rest[..e].to_vec());
                self.done += e + 3;
                self.in_data = false;
                self.answer(inp, false, false);
            } else {
                let Some(k) = find(rest, b"\r\n") else { return };
                let line = rest[..k].to_vec();
                self.done += k + 2;
                let is_data = line == b"DATA";
                let login = line == b"AUTH LOGIN";
                self.commands.push(line);
                let first = self.answer(inp, is_data, login);
                if is_data && first == Some(b'3') { self.in_data = true; }
            }
        }
    }
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if h.len() < n.len() { return None; }
    for i in 0..=h.len() - n.len() { if &h[i..i + n.len()] == n { return Some(i); } }
    None
}

pub struct Net {
    pub inp: Vec<u8>,
    pub pos: usize,
    /// What happens when the client waits for input that never comes: end of stream, or stuck.
    pub eof: bool,
    pub out: Vec<u8>,
    pub flushed: usize,
    /// Bytes are delivered to the server on flush only.
    pub server: Option<Server>,
    pub p: Policy,
    /// For every write: (offset in `out`, input consumed so far).
    pub log: Vec<(usize, usize)>,
    pub failed: bool,
    pub read_failed: bool,
    pub wrote_after_error: bool,
    pub pended: bool,
    pub stuck: bool,
    pub eof_seen: usize,
    pub overread: bool,
    /// A read was attempted while something written had not been flushed.
    pub unflushed_read: bool,
    /// Number of further writes at which a deviation may happen.
    pub window: usize,
    exposed: usize,
}

pub struct Cell(UnsafeCell<Net>);
unsafe impl Sync for Cell {}
pub type N = &'static Cell;
impl Cell {
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut Net { unsafe { &mut *self.0.get() } }
}

pub fn net(inp: &[u8]) -> N {
    let n = Net {
        inp: inp.to_vec(), pos: 0, eof: true, out: vec![], flushed: 0, server: None, p: Policy::default(), log: vec![], failed: false, read_failed: false,
        wrote_after_error: false, pended: false, stuck: false, eof_seen: 0, overread: false, unflushed_read: false, window: usize::MAX, exposed: 0,
    };
    Box::leak(Box::new(Cell(UnsafeCell::new(n))))
}
/// A server that answers every command with the next reply; waiting without an outstanding reply is a deadlock.
pub fn served(greeting: &[u8], replies: Vec<Vec<u8>>) -> N {
    let n = net(greeting);
    n.get().server = Some(Server::new(replies));
    n.get().eof = false;
    n
}

pub const ERRORS: [io::ErrorKind; 38] = [
    io::ErrorKind::ConnectionReset, io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut, io::ErrorKind::InvalidData, io::ErrorKind::Other,
    io::ErrorKind::NotConnected, io::ErrorKind::ConnectionAborted, io::ErrorKind::WriteZero, io::ErrorKind::InvalidInput, io::ErrorKind::PermissionDenied,
    io::ErrorKind::NotFound, io::ErrorKind::ConnectionRefused, io::ErrorKind::HostUnreachable, io::ErrorKind::NetworkUnreachable, io::ErrorKind::AddrInUse, io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::NetworkDown, io::ErrorKind::AlreadyExists, io::ErrorKind::NotADirectory, io::ErrorKind::IsADirectory, io::ErrorKind::DirectoryNotEmpty, io::ErrorKind::ReadOnlyFilesystem,
    io::ErrorKind::StaleNetworkFileHandle, io::ErrorKind::StorageFull, io::ErrorKind::NotSeekable, io::ErrorKind::FileTooLarge, io::ErrorKind::ResourceBusy, io::ErrorKind::ExecutableFileBusy,
    io::ErrorKind::Deadlock, io::ErrorKind::TooManyLinks, io::ErrorKind::ArgumentListTooLong, io::ErrorKind::Unsupported, io::ErrorKind::OutOfMemory, io::ErrorKind::QuotaExceeded, io::ErrorKind::CrossesDevices,
    io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock,
];
/// The first so many end an operation; the others have a meaning of their own to those who write or read everything.
pub const FATAL: usize = 36;
/// An error of kind `k`: the first few only where that is asked for.
fn broken(k: usize) -> io::Error { io::Error::new(ERRORS[k], "injected") }

impl Net {
    fn write(&mut self, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.failed || self.read_failed { if !b.is_empty() { self.wrote_after_error = true; } }
        if b.is_empty() { return Poll::Ready(Ok(0)); }
        let (s, p, e) = if self.out.len() < self.p.arm || self.window == 0 { (0, 0, 0) } else { (self.p.w_short, self.p.w_pend, self.p.w_err) };
        if self.out.len() >= self.p.arm && self.window != usize::MAX && self.window > 0 { self.window -= 1; }
        let mut n = if self.p.w_max > 0 { b.len().min(self.p.w_max) } else { b.len() };
        let mut opts = [0u8; 6];
        let mut k = 1;
        if s > 0 && b.len() > 1 { opts[k] = 1; k += 1; }
        if s > 0 && b.len() > 2 { opts[k] = 2; k += 1; }
        if p > 0 { opts[k] = 3; k += 1; }
        if e > 0 { opts[k] = 4; opts[k + 1] = 5; k += 2; }
        match opts[sx::decide(k)] {
            1 => { self.p.w_short -= 1; n = 1; }
            2 => { self.p.w_short -= 1; n = b.len() - 1; }
            3 => { self.p.w_pend -= 1; self.pended = true; return Poll::Pending; }
            4 => { self.p.w_err -= 1; self.failed = true; return Poll::Ready(Err(broken(self.p.kind))); }
            5 => { self.p.w_err -= 1; self.failed = true; return Poll::Ready(Ok(0)); }
            _ => {}
        }
        self.log.push((self.out.len(), self.pos));
        self.out.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn flush(&mut self) -> Poll<io::Result<()>> {
        let (p, e) = if self.out.len() < self.p.arm { (0, 0) } else { (self.p.f_pend, self.p.f_err) };
        let mut opts = [0u8; 4];
        let mut k = 1;
        if p > 0 { opts[k] = 1; k += 1; }
        if e > 0 { opts[k] = 2; k += 1; }
        match opts[sx::decide(k)] {
            1 => { self.p.f_pend -= 1; self.pended = true; return Poll::Pending; }
            2 => { self.p.f_err -= 1; self.failed = true; return Poll::Ready(Err(broken(self.p.kind))); }
            _ => {}
        }
        self.flushed = self.out.len();
        if let Some(s) = &mut self.server { s.feed(&self.out[..self.flushed], &mut self.inp); }
        Poll::Ready(Ok(()))
    }
    /// What is not ready now becomes ready right afterwards, and says so to whoever asked; unless it never will.
    fn later<R>(&mut self, cx: &mut Context<'_>, r: Poll<R>) -> Poll<R> {
        if r.is_pending() && !self.stuck { cx.waker().wake_by_ref(); }
        r
    }
    /// Number of bytes shown to the client.
    fn read(&mut self) -> Poll<io::Result<usize>> {
        if self.flushed != self.out.len() { self.unflushed_read = true; }
        if self.exposed > self.pos { return Poll::Ready(Ok(self.exposed - self.pos)); }
        let (p, e) = if self.out.len() < self.p.arm { (0, 0) } else { (self.p.r_pend, self.p.r_err) };
        let mut opts = [0u8; 4];
        let mut k = 1;
        if p > 0 { opts[k] = 1; k += 1; }
        if e > 0 { opts[k] = 2; k += 1; }
        match opts[sx::decide(k)] {
            1 => { self.p.r_pend -= 1; self.pended = true; return Poll::Pending; }
            2 => { self.p.r_err -= 1; self.read_failed = true; return Poll::Ready(Err(broken(self.p.kind))); }
            _ => {}
        }
        let avail = self.inp.len() - self.pos;
        if avail == 0 {
            if self.eof || self.server.as_ref().map_or(false, |s| s.closed) {
                self.eof_seen += 1;
                if self.eof_seen > 50 { self.stuck = true; return Poll::Pending; }
                return Poll::Ready(Ok(0));
            }
            self.stuck = true;
            return Poll::Pending;
        }
        let mut n = if self.p.r_max > 0 { avail.min(self.p.r_max) } else { avail };
        if self.p.r_split > 0 && avail > 1 {
            if self.p.r_split != usize::MAX { self.p.r_split -= 1; }
            n = 1 + sx::choice(avail);
        }
        self.exposed = self.pos + n;
        Poll::Ready(Ok(n))
    }
    fn take(&mut self, n: usize) {
        self.pos += n;
        if self.pos > self.inp.len() { self.overread = true; self.pos = self.inp.len(); }
    }
    pub fn unread(&self) -> usize { self.inp.len() - self.pos }
    pub fn srv(&mut self) -> &mut Server { self.server.as_mut().unwrap() }
}

pub struct Io(pub N);

#[cfg(feature = "tk")]
mod rt {
    use super::*;
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};
    impl AsyncRead for Io {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let n = self.0.get();
            let r = n.read();
            match n.later(cx, r) {
                Poll::Ready(Ok(k)) => { let k = k.min(b.remaining()); b.put_slice(&n.inp[n.pos..n.pos + k]); n.take(k); Poll::Ready(Ok(())) }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
    }
    impl AsyncBufRead for Io {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let n = self.get_mut().0.get();
            let r = n.read();
            match n.later(cx, r) {
                Poll::Ready(Ok(k)) => Poll::Ready(Ok(&n.inp[n.pos..n.pos + k])),
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
        fn consume(self: Pin<&mut Self>, k: usize) { self.0.get().take(k) }
    }
    impl AsyncWrite for Io {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { let n = self.0.get(); let r = n.write(b); n.later(cx, r) }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { let n = self.0.get(); let r = n.flush(); n.later(cx, r) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    }
    impl AsyncRead for Src {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let s = self.get_mut();
            let r = s.step(b.remaining());
            match s.net.get().later(cx, r) {
                Poll::Ready(Ok(k)) => { b.put_slice(&s.data[s.pos..s.pos + k]); s.pos += k; Poll::Ready(Ok(())) }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
    }
}
#[cfg(feature = "as")]
mod rt {
    use super::*;
    use futures_io::{AsyncBufRead, AsyncRead, AsyncWrite};
    impl AsyncRead for Io {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
            let n = self.0.get();
            let r = n.read();
            match n.later(cx, r) {
                Poll::Ready(Ok(k)) => { let k = k.min(b.len()); b[..k].copy_from_slice(&n.inp[n.pos..n.pos + k]); n.take(k); Poll::Ready(Ok(k)) }
                r => r,
            }
        }
    }
    impl AsyncBufRead for Io {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            let n = self.get_mut().0.get();
            let r = n.read();
            match n.later(cx, r) {
                Poll::Ready(Ok(k)) => Poll::Ready(Ok(&n.inp[n.pos..n.pos + k])),
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
        fn consume(self: Pin<&mut Self>, k: usize) { self.0.get().take(k) }
    }
    impl AsyncWrite for Io {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { let n = self.0.get(); let r = n.write(b); n.later(cx, r) }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { let n = self.0.get(); let r = n.flush(); n.later(cx, r) }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    }
    impl AsyncRead for Src {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
            let s = self.get_mut();
            let r = s.step(b.len());
            match s.net.get().later(cx, r) {
                Poll::Ready(Ok(k)) => { b[..k].copy_from_slice(&s.data[s.pos..s.pos + k]); s.pos += k; Poll::Ready(Ok(k)) }
                r => r,
            }
        }
    }
}

/// Message source with chosen read sizes, not-ready results and an optional failure.
pub struct Src {
    pub data: Vec<u8>,
    pub pos: usize,
    /// Fail once this many bytes have been supplied.
    pub fail_at: Option<usize>,
    pub splits: usize,
    pub pend: usize,
    pub max: usize,
    /// Kind of the failure.
    pub kind: usize,
    pub net: N,
}
impl Src {
    pub fn new(data: Vec<u8>, net: N) -> Src { Src { data, pos: 0, fail_at: None, splits: 0, pend: 0, max: 0, kind: 2, net } }
    fn step(&mut self, room: usize) -> Poll<io::Result<usize>> {
        if self.pend > 0 && sx::decide(2) == 1 {
            self.pend -= 1;
            self.net.get().pended = true;
            return Poll::Pending;
        }
        let mut left = self.data.len() - self.pos;
        if let Some(f) = self.fail_at {
            if self.pos >= f { return Poll::Ready(Err(broken(self.kind))); }
            left = left.min(f - self.pos);
        }
        let mut n = left.min(room);
        if self.max > 0 { n = n.min(self.max); }
        if self.splits > 0 && n > 1 { self.splits -= 1; n = 1 + sx::choice(n); }
        Poll::Ready(Ok(n))
    }
}

pub enum Ran<T> { Done(T), Stuck, Abandoned }
impl<T> Ran<T> {
    pub fn done(self) -> Option<T> { if let Ran::Done(x) = self { Some(x) } else { None } }
    pub fn is_stuck(&self) -> bool { matches!(self, Ran::Stuck) }
}

/// The turn whose waker was used last. Every turn has a waker of its own.
static WOKEN: AtomicUsize = AtomicUsize::new(0);
static WAKER: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &WAKER), wake, wake, |_| {});
unsafe fn wake(p: *const ()) { WOKEN.store(p as usize, Ordering::Relaxed); }
pub fn waker(turn: usize) -> Waker { unsafe { Waker::from_raw(RawWaker::new(turn as *const (), &WAKER)) } }

/// Drives a future to completion, resuming it only when its latest waker was used.
/// `Stuck`: it waits for something that can never happen, or will not learn of it.
pub fn run<F: Future>(n: N, f: F) -> Ran<F::Output> {
    let mut f = Box::pin(f);
    let mut turn = 1;
    loop {
        WOKEN.store(0, Ordering::Relaxed);
        let w = waker(turn);
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(x) => return Ran::Done(x),
            Poll::Pending => {
                let s = n.get();
                if s.stuck || WOKEN.load(Ordering::Relaxed) != turn || turn > 2000 { return Ran::Stuck; }
                if s.p.abandon > 0 {
                    s.p.abandon -= 1;
                    if sx::decide(2) == 1 { return Ran::Abandoned; }
                }
                turn += 1;
            }
        }
    }
}

//! An in-memory SMTP server and a tiny executor, shared by the demonstrations.
#![allow(dead_code)]
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::io;

#[derive(Default)]
pub struct State {
    /// Everything the client has written.
    pub written: Vec<u8>,
    /// Lines received, and "<content>" for a message.
    pub lines: Vec<String>,
    /// Contents received (raw, up to and including the end-of-data marker).
    pub contents: Vec<Vec<u8>>,
    /// Bytes written but not yet delivered (only used when `on_flush`).
    pub held: Vec<u8>,
    pub partial: Vec<u8>,
    pub in_data: bool,
    pub out: VecDeque<u8>,
    pub eof: bool,
    /// Largest number of bytes handed out by one read.
    pub chunk: usize,
    /// Deliver written bytes to the server on flush only.
    pub on_flush: bool,
    /// Fail the n-th (1-based) flush / write from now on, once.
    pub fail_flush: usize,
    pub fail_write: usize,
    pub flushes: usize,
    pub writes: usize,
}

pub type Handler = Box<dyn FnMut(&str, usize) -> String>;

#[derive(Clone)]
pub struct Mock {
    pub st: Rc<RefCell<State>>,
    handler: Rc<RefCell<Handler>>,
    buf: Vec<u8>,
}

impl std::fmt::Debug for Mock {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("Mock") }
}

impl Mock {
    /// `handler(line, number)` gives the reply to every complete line.
    pub fn new(greeting: &str, handler: impl FnMut(&str, usize) -> String + 'static) -> Mock {
        let st = State { out: greeting.bytes().collect(), chunk: usize::MAX, ..State::default() };
        Mock { st: Rc::new(RefCell::new(st)), handler: Rc::new(RefCell::new(Box::new(handler))), buf: vec![] }
    }
    pub fn lines(&self) -> Vec<String> { self.st.borrow().lines.clone() }
    pub fn content(&self) -> Vec<u8> { self.st.borrow().contents.last().cloned().unwrap_or_default() }
    pub fn push(&self, bytes: &[u8]) { self.st.borrow_mut().out.extend(bytes) }

    fn deliver(&self, bytes: &[u8]) {
        for &b in bytes {
            let line = {
                let mut st = self.st.borrow_mut();
                st.partial.push(b);
                if st.in_data {
                    if st.partial == b".\r\n" || st.partial.ends_with(b"\r\n.\r\n") {
                        let c = std::mem::take(&mut st.partial);
                        st.contents.push(c);
                        st.in_data = false;
                        Some("<content>".to_string())
                    } else { None }
                } else if st.partial.ends_with(b"\r\n") {
                    let l = std::mem::take(&mut st.partial);
                    Some(String::from_utf8_lossy(&l[..l.len() - 2]).to_string())
                } else { None }
            };
            if let Some(line) = line {
                let n = { let mut st = self.st.borrow_mut(); st.lines.push(line.clone()); st.lines.len() };
                let reply = (self.handler.borrow_mut())(&line, n);
                let mut st = self.st.borrow_mut();
                if line == "DATA" && reply.starts_with('3') { st.in_data = true; }
                st.out.extend(reply.bytes());
            }
        }
    }
    fn do_write(&self, bytes: &[u8]) -> io::Result<usize> {
        {
            let mut st = self.st.borrow_mut();
            st.writes += 1;
            if st.fail_write == st.writes { return Err(io::Error::new(io::ErrorKind::BrokenPipe, "write failed")); }
            st.written.extend_from_slice(bytes);
            if st.on_flush { st.held.extend_from_slice(bytes); return Ok(bytes.len()); }
        }
        self.deliver(bytes);
        Ok(bytes.len())
    }
    fn do_flush(&self) -> io::Result<()> {
        let held = {
            let mut st = self.st.borrow_mut();
            st.flushes += 1;
            if st.fail_flush == st.flushes { st.held.clear(); return Err(io::Error::new(io::ErrorKind::BrokenPipe, "flush failed")); }
            std::mem::take(&mut st.held)
        };
        self.deliver(&held);
        Ok(())
    }
    fn do_fill(&mut self) -> bool {
        if self.buf.is_empty() {
            let mut st = self.st.borrow_mut();
            let n = st.chunk.min(st.out.len());
            self.buf = st.out.drain(..n).collect();
            if self.buf.is_empty() && !st.eof { return false; }
        }
        true
    }
}

#[cfg(not(feature = "as"))]
mod rt {
    use super::*;
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};
    impl AsyncRead for Mock {
        fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, out: &mut ReadBuf) -> Poll<io::Result<()>> {
            if !self.do_fill() { return Poll::Pending; }
            let n = out.remaining().min(self.buf.len());
            let b: Vec<u8> = self.buf.drain(..n).collect();
            out.put_slice(&b);
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncBufRead for Mock {
        fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<&[u8]>> {
            let this = self.get_mut();
            if !this.do_fill() { return Poll::Pending; }
            Poll::Ready(Ok(&this.buf))
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) { self.buf.drain(..n); }
    }
    impl AsyncWrite for Mock {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context, b: &[u8]) -> Poll<io::Result<usize>> { Poll::Ready(self.do_write(b)) }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> { Poll::Ready(self.do_flush()) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    }
}
#[cfg(feature = "as")]
mod rt {
    use super::*;
    use futures_io::{AsyncBufRead, AsyncRead, AsyncWrite};
    impl AsyncRead for Mock {
        fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, out: &mut [u8]) -> Poll<io::Result<usize>> {
            if !self.do_fill() { return Poll::Pending; }
            let n = out.len().min(self.buf.len());
            let b: Vec<u8> = self.buf.drain(..n).collect();
            out[..n].copy_from_slice(&b);
            Poll::Ready(Ok(n))
        }
    }
    impl AsyncBufRead for Mock {
        fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<&[u8]>> {
            let this = self.get_mut();
            if !this.do_fill() { return Poll::Pending; }
            Poll::Ready(Ok(&this.buf))
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) { self.buf.drain(..n); }
    }
    impl AsyncWrite for Mock {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context, b: &[u8]) -> Poll<io::Result<usize>> { Poll::Ready(self.do_write(b)) }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> { Poll::Ready(self.do_flush()) }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    }
}

fn waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

/// Runs the future; `None` if it is still not ready after many polls (it would wait forever).
pub fn run<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..10_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return Some(v); }
    }
    None
}
/// Runs the future, which must not wait forever.
pub fn go<F: Future>(f: F) -> F::Output { run(f).expect("the operation waits forever") }

/// The usual accepting replies.
pub fn accept(line: &str, ehlo: &str) -> String {
    if line.starts_with("EHLO") {
        let mut s = String::from("250-server\r\n");
        let caps: Vec<&str> = ehlo.split('\n').filter(|l| !l.is_empty()).collect();
        for c in &caps { s += &format!("250-{c}\r\n"); }
        s + "250 HELP\r\n"
    } else if line == "DATA" { "354 go on\r\n".into() }
    else if line.starts_with("AUTH") { "235 welcome\r\n".into() }
    else if line == "QUIT" { "221 bye\r\n".into() }
    else if line == "STARTTLS" { "220 ready\r\n".into() }
    else { "250 ok\r\n".into() }
}

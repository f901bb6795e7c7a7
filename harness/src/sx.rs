//! Interface to the symbolic executor, and its native counterpart for replaying recorded inputs.

#[cfg(sx)]
mod imp {
    extern "C" {
        fn __sx_u8() -> u8;
        fn __sx_u16() -> u16;
        fn __sx_u32() -> u32;
        fn __sx_u64() -> u64;
        fn __sx_choice(n: u64) -> u64;
        fn __sx_assume(c: bool);
        fn __sx_check(c: bool, id: u32);
        fn __sx_cover(id: u32);
        fn __sx_trace(p: *const u8, n: usize);
        fn __sx_tier() -> u64;
        fn __sx_fork(x: u64) -> u64;
    }
    pub fn u8() -> u8 { unsafe { __sx_u8() } }
    pub fn u16() -> u16 { unsafe { __sx_u16() } }
    pub fn u32() -> u32 { unsafe { __sx_u32() } }
    pub fn u64() -> u64 { unsafe { __sx_u64() } }
    pub fn choice(n: usize) -> usize { unsafe { __sx_choice(n as u64) as usize } }
    pub fn assume(c: bool) { unsafe { __sx_assume(c) } }
    pub fn check(c: bool, id: u32, _text: &'static str) { unsafe { __sx_check(c, id) } }
    pub fn cover(id: u32) { unsafe { __sx_cover(id) } }
    pub fn trace(b: &[u8]) { unsafe { __sx_trace(b.as_ptr(), b.len()) } }
    pub fn tier() -> usize { unsafe { __sx_tier() as usize } }
    pub fn concrete(x: u64) -> u64 { unsafe { __sx_fork(x) } }
}

#[cfg(not(sx))]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Nat { pub inputs: Vec<u64>, pub pos: usize, pub trace: Vec<u8>, pub tier: usize, pub failed: Vec<(u32, &'static str)>, pub covers: Vec<u32> }
    thread_local! { pub static NAT: RefCell<Nat> = RefCell::new(Nat::default()); }
    fn next() -> u64 {
        NAT.with(|n| {
            let mut n = n.borrow_mut();
            let p = n.pos;
            n.pos += 1;
            match n.inputs.get(p) {
                Some(x) => *x,
                None => {
                    // the executor stops at the first failed assertion, so nothing is recorded beyond it
                    for (id, t) in &n.failed { println!("CHECK-FAILED {id} {t}"); }
                    if !n.failed.is_empty() { std::process::exit(0); }
                    println!("INPUTS-EXHAUSTED");
                    std::process::exit(3)
                }
            }
        })
    }
    pub fn u8() -> u8 { next() as u8 }
    pub fn u16() -> u16 { next() as u16 }
    pub fn u32() -> u32 { next() as u32 }
    pub fn u64() -> u64 { next() }
    pub fn choice(n: usize) -> usize {
        let x = next() as usize;
        if x >= n { println!("BAD-CHOICE"); std::process::exit(3) }
        x
    }
    pub fn assume(c: bool) {
        if !c {
            NAT.with(|n| {
                let n = n.borrow();
                for (id, t) in &n.failed { println!("CHECK-FAILED {id} {t}"); }
                if !n.failed.is_empty() { std::process::exit(0); }
            });
            println!("ASSUME-FAILED");
            std::process::exit(4)
        }
    }
    pub fn check(c: bool, id: u32, text: &'static str) { if !c { NAT.with(|n| n.borrow_mut().failed.push((id, text))); } }
    pub fn cover(id: u32) { NAT.with(|n| n.borrow_mut().covers.push(id)); }
    pub fn trace(b: &[u8]) { NAT.with(|n| n.borrow_mut().trace.extend_from_slice(b)); }
    pub fn tier() -> usize { NAT.with(|n| n.borrow().tier) }
    pub fn concrete(x: u64) -> u64 { x }
}
pub use imp::*;

/// A symbolic value below `n`; the solver says which values are possible, and each of them is followed.
pub fn decide(n: usize) -> usize {
    if n <= 1 { return 0; }
    let d = u8();
    assume((d as usize) < n);
    concrete(d as u64) as usize
}
/// `n` in the quick tier, `t` in the thorough tier.
pub fn bound(n: usize, t: usize) -> usize { if tier() == 0 { n } else { t } }

/// `n` symbolic bytes.
pub fn bytes(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(u8()); } v }

/// `n` symbolic printable ASCII bytes (0x20..=0x7e), as a string.
pub fn printable(n: usize) -> String {
    let v = bytes(n);
    for b in &v { assume((*b >= 0x20) & (*b <= 0x7e)); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// `n` symbolic graphic ASCII bytes (0x21..=0x7e).
pub fn graphic(n: usize) -> Vec<u8> {
    let v = bytes(n);
    for b in &v { assume((*b >= 0x21) & (*b <= 0x7e)); }
    v
}
/// `n` symbolic printable bytes other than 'J' and 'M' (which std's search for CRLF does not skip, so that
/// every one that may be there doubles the paths), except that byte `free` may be any printable one.
pub fn quiet(n: usize, free: usize) -> Vec<u8> {
    let v = bytes(n);
    for (i, b) in v.iter().enumerate() { assume((*b >= 0x20) & (*b <= 0x7e)); if i != free { assume((*b != b'J') & (*b != b'M')); } }
    v
}
/// The same without spaces.
pub fn quiet_word(n: usize, free: usize) -> Vec<u8> {
    let v = quiet(n, free);
    for b in &v { assume(*b != b' '); }
    v
}
/// A string of `n` symbolic graphic characters.
pub fn word(n: usize) -> String { unsafe { String::from_utf8_unchecked(graphic(n)) } }
/// `n` symbolic ASCII bytes.
pub fn ascii(n: usize) -> String {
    let v = bytes(n);
    for b in &v { assume(*b < 0x80); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Appends one symbolic Unicode scalar value whose UTF-8 encoding is `width` bytes long.
pub fn push_char(v: &mut Vec<u8>, width: usize) {
    match width {
        1 => { let b = u8(); assume(b < 0x80); v.push(b); }
        2 => {
            let (a, b) = (u8(), u8());
            assume((a >= 0xc2) & (a <= 0xdf) & (b >= 0x80) & (b <= 0xbf));
            v.push(a); v.push(b);
        }
        3 => {
            let (a, b, c) = (u8(), u8(), u8());
            assume((a >= 0xe0) & (a <= 0xef) & (b >= 0x80) & (b <= 0xbf) & (c >= 0x80) & (c <= 0xbf));
            assume(((a != 0xe0) | (b >= 0xa0)) & ((a != 0xed) | (b <= 0x9f)));
            v.push(a); v.push(b); v.push(c);
        }
        _ => {
            let (a, b, c, d) = (u8(), u8(), u8(), u8());
            assume((a >= 0xf0) & (a <= 0xf4) & (b >= 0x80) & (b <= 0xbf) & (c >= 0x80) & (c <= 0xbf) & (d >= 0x80) & (d <= 0xbf));
            assume(((a != 0xf0) | (b >= 0x90)) & ((a != 0xf4) | (b <= 0x8f)));
            v.push(a); v.push(b); v.push(c); v.push(d);
        }
    }
}
/// A string of `n` symbolic characters; every width combination is explored.
pub fn any_chars(n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n { let w = 1 + choice(4); push_char(&mut v, w); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Branch-free equality.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
/// Branch-free equality of the first `a.len()` bytes of `b` with `a`.
pub fn is_prefix(a: &[u8], b: &[u8]) -> bool { a.len() <= b.len() && same(a, &b[..a.len()]) }

//! Hash-consed bit-vector expressions with local simplification.

use crate::ir::Bin;
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp { Eq, Ult, Slt }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    K(u16, u128),
    Var(u16, u32),
    Bin(Bin, u16, E, E),
    Cmp(Cmp, E, E),
    Ite(u16, E, E, E),
    Zext(u16, E),
    Sext(u16, E),
    Ext(u16, u16, E), // width, low bit
    Cat(u16, E, E),   // high, low
}

#[derive(Default, Clone)]
pub struct FxB;
pub struct Fx(u64);
impl std::hash::BuildHasher for FxB { type Hasher = Fx; fn build_hasher(&self) -> Fx { Fx(0) } }
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64); } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
    fn write_i32(&mut self, x: i32) { self.write_u64(x as u64) }
}

pub struct Arena {
    pub n: Vec<N>,
    map: HashMap<N, E, FxB>,
    /// Bit i set: variable i occurs (bit 127: some variable >= 127 occurs).
    pub vars: Vec<u128>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    umaxm: Vec<u128>,
}

pub fn m(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(x: u128, w: u16) -> i128 {
    if w >= 128 { x as i128 } else { ((x << (128 - w)) as i128) >> (128 - w) }
}

pub fn bin_k(op: Bin, w: u16, a: u128, b: u128) -> Option<u128> {
    let r = match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::UDiv => { if b == 0 { return None; } a / b }
        Bin::URem => { if b == 0 { return None; } a % b }
        Bin::SDiv => { if b == 0 { return None; } sx(a, w).wrapping_div(sx(b, w)) as u128 }
        Bin::SRem => { if b == 0 { return None; } sx(a, w).wrapping_rem(sx(b, w)) as u128 }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => if b >= w as u128 { 0 } else { a << b },
        Bin::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bin::AShr => if b >= w as u128 { if sx(a, w) < 0 { u128::MAX } else { 0 } } else { (sx(a, w) >> b) as u128 },
    };
    Some(r & m(w))
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { n: vec![], map: HashMap::with_hasher(FxB), vars: vec![], memo: vec![], epoch: 0, umaxm: vec![] };
        a.mk(N::Var(0, u32::MAX)); // node 0: reserved, never used
        a
    }
    fn mk(&mut self, n: N) -> E {
        if let Some(e) = self.map.get(&n) { return *e; }
        let e = self.n.len() as E;
        let v = match n {
            N::K(..) => 0,
            N::Var(_, i) => if i == u32::MAX { 0 } else { 1u128 << i.min(127) },
            N::Bin(_, _, a, b) | N::Cmp(_, a, b) | N::Cat(_, a, b) => self.vars[a as usize] | self.vars[b as usize],
            N::Ite(_, c, a, b) => self.vars[c as usize] | self.vars[a as usize] | self.vars[b as usize],
            N::Zext(_, a) | N::Sext(_, a) | N::Ext(_, _, a) => self.vars[a as usize],
        };
        let um = if e == 0 { 0 } else { self.umax_calc(n) };
        self.n.push(n);
        self.vars.push(v);
        self.memo.push((0, 0));
        self.umaxm.push(um);
        self.map.insert(n, e);
        e
    }
    pub fn w(&self, e: E) -> u16 {
        match self.n[e as usize] {
            N::K(w, _) | N::Var(w, _) | N::Bin(_, w, ..) | N::Ite(w, ..) | N::Zext(w, _) | N::Sext(w, _) | N::Ext(w, ..) | N::Cat(w, ..) => w,
            N::Cmp(..) => 1,
        }
    }
    pub fn k(&mut self, w: u16, x: u128) -> E { self.mk(N::K(w, x & m(w))) }
    pub fn var(&mut self, w: u16, i: u32) -> E { self.mk(N::Var(w, i)) }
    pub fn as_k(&self, e: E) -> Option<u128> { if let N::K(_, x) = self.n[e as usize] { Some(x) } else { None } }

    /// Upper bound on the unsigned value.
    pub fn umax(&self, e: E) -> u128 { self.umaxm[e as usize] }
    fn umax_calc(&self, n: N) -> u128 {
        match n {
            N::K(_, x) => x,
            N::Var(w, _) | N::Sext(w, _) => m(w),
            N::Cmp(..) => 1,
            N::Zext(_, a) => self.umax(a),
            N::Ite(_, _, a, b) => self.umax(a).max(self.umax(b)),
            N::Ext(w, lo, a) => { if lo == 0 { self.umax(a).min(m(w)) } else { (self.umax(a) >> lo).min(m(w)) } }
            N::Cat(_, h, l) => { let wl = self.w(l); (self.umax(h) << wl) | if self.umax(h) == 0 { self.umax(l) } else { m(wl) } }
            N::Bin(op, w, a, b) => match op {
                Bin::And => self.umax(a).min(self.umax(b)),
                Bin::Or | Bin::Xor => {
                    let x = self.umax(a) | self.umax(b);
                    if x == 0 { 0 } else { m(128 - x.leading_zeros() as u16).min(m(w)) }
                }
                Bin::Add => self.umax(a).checked_add(self.umax(b)).filter(|x| *x <= m(w)).unwrap_or(m(w)),
                Bin::Mul => self.umax(a).checked_mul(self.umax(b)).filter(|x| *x <= m(w)).unwrap_or(m(w)),
                Bin::LShr => if let Some(k) = self.as_k(b) { if k >= 128 { 0 } else { self.umax(a) >> k } } else { self.umax(a) },
                Bin::Shl => if let Some(k) = self.as_k(b) {
                    let u = self.umax(a);
                    if k < 128 && u.leading_zeros() as u128 > k && (u << k) <= m(w) { u << k } else { m(w) }
                } else { m(w) },
                Bin::UDiv => if let Some(k) = self.as_k(b) { if k > 0 { self.umax(a) / k } else { m(w) } } else { m(w) },
                Bin::URem => if let Some(k) = self.as_k(b) { if k > 0 { self.umax(a).min(k - 1) } else { m(w) } } else { m(w) },
                _ => m(w),
            },
        }
    }

    pub fn not(&mut self, e: E) -> E {
        let one = self.k(1, 1);
        self.bin(Bin::Xor, e, one)
    }
    fn is_not(&self, e: E) -> Option<E> {
        if let N::Bin(Bin::Xor, 1, a, b) = self.n[e as usize] { if self.as_k(b) == Some(1) { return Some(a); } }
        None
    }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Bin::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Bin::Or, a, b) }

    pub fn bin(&mut self, op: Bin, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.as_k(a), self.as_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if let Some(r) = bin_k(op, w, x, y) { return self.k(w, r); }
        }
        // constant on the right for commutative operators
        if ka.is_some() && matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor) { return self.bin(op, b, a); }
        if kb.is_none() && a > b && matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor) { return self.bin(op, b, a); }
        match op {
            Bin::And => {
                if a == b { return a; }
                if let Some(k) = kb {
                    if k == 0 { return b; }
                    if k == m(w) { return a; }
                    // x & low mask -> zext(extract)
                    if (k + 1).is_power_of_two() {
                        let t = k.count_ones() as u16;
                        if self.umax(a) <= k { return a; }
                        let l = self.ext(t, 0, a);
                        return self.zext(w, l);
                    }
                    if let N::Bin(Bin::And, _, x, y) = self.n[a as usize] {
                        if let Some(k2) = self.as_k(y) { let kk = self.k(w, k & k2); return self.bin(Bin::And, x, kk); }
                    }
                    if self.umax(a) < 1u128 << k.trailing_zeros() { return self.k(w, 0); }
                    if let N::Zext(_, x) = self.n[a as usize] {
                        let wx = self.w(x);
                        let kk = self.k(wx, k);
                        let r = self.bin(Bin::And, x, kk);
                        return self.zext(w, r);
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.k(1, 0); }
                }
            }
            Bin::Or => {
                if a == b { return a; }
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if k == m(w) { return b; }
                }
                if w == 1 && (self.is_not(a) == Some(b) || self.is_not(b) == Some(a)) { return self.k(1, 1); }
                // shl/or combination of disjoint parts -> concat
                if w > 1 {
                    if let Some(r) = self.or_as_cat(a, b) { return r; }
                    if let Some(r) = self.or_as_cat(b, a) { return r; }
                }
            }
            Bin::Xor => {
                if a == b { return self.k(w, 0); }
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if let N::Bin(Bin::Xor, _, x, y) = self.n[a as usize] {
                        if let Some(k2) = self.as_k(y) { let kk = self.k(w, k ^ k2); return self.bin(Bin::Xor, x, kk); }
                    }
                }
            }
            Bin::Add => {
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if let N::Bin(Bin::Add, _, x, y) = self.n[a as usize] {
                        if let Some(k2) = self.as_k(y) { let kk = self.k(w, k.wrapping_add(k2)); return self.bin(Bin::Add, x, kk); }
                    }
                }
                if w == 1 { return self.bin(Bin::Xor, a, b); }
            }
            Bin::Sub => {
                if a == b { return self.k(w, 0); }
                if let Some(k) = kb { let kk = self.k(w, 0u128.wrapping_sub(k)); return self.bin(Bin::Add, a, kk); }
                if w == 1 { return self.bin(Bin::Xor, a, b); }
                // (x + k) - x
                if let N::Bin(Bin::Add, _, x, y) = self.n[a as usize] {
                    if x == b { return y; }
                    if y == b { return x; }
                }
            }
            Bin::Mul => {
                if let Some(k) = kb {
                    if k == 0 { return b; }
                    if k == 1 { return a; }
                    if k.is_power_of_two() { let s = self.k(w, k.trailing_zeros() as u128); return self.bin(Bin::Shl, a, s); }
                }
            }
            Bin::UDiv => if let Some(k) = kb {
                if k == 1 { return a; }
                if k > 0 && k.is_power_of_two() { let s = self.k(w, k.trailing_zeros() as u128); return self.bin(Bin::LShr, a, s); }
                if k > 0 && self.umax(a) < k { return self.k(w, 0); }
                if k > 0 { if let N::Zext(_, x) = self.n[a as usize] { let wx = self.w(x); if k <= m(wx) { let kk = self.k(wx, k); let r = self.bin(Bin::UDiv, x, kk); return self.zext(w, r); } } }
            },
            Bin::URem => if let Some(k) = kb {
                if k > 0 && k.is_power_of_two() { let s = self.k(w, k - 1); return self.bin(Bin::And, a, s); }
                if k > 0 && self.umax(a) < k { return a; }
                if k > 0 { if let N::Zext(_, x) = self.n[a as usize] { let wx = self.w(x); if k <= m(wx) { let kk = self.k(wx, k); let r = self.bin(Bin::URem, x, kk); return self.zext(w, r); } } }
            },
            Bin::Shl => if let Some(k) = kb {
                if k == 0 { return a; }
                if k >= w as u128 { return self.k(w, 0); }
                // shl -> concat(extract, 0)
                let lo = self.k(k as u16, 0);
                let hi = self.ext(w - k as u16, 0, a);
                return self.cat(hi, lo);
            } else if ka == Some(0) { return a; },
            Bin::LShr => if let Some(k) = kb {
                if k == 0 { return a; }
                if k >= w as u128 { return self.k(w, 0); }
                let h = self.ext(w - k as u16, k as u16, a);
                return self.zext(w, h);
            } else if ka == Some(0) { return a; },
            Bin::AShr => if let Some(k) = kb {
                if k == 0 { return a; }
                if self.umax(a) <= m(w) >> 1 { return self.bin(Bin::LShr, a, b); }
            },
            _ => {}
        }
        // op over ite with constant leaves
        if let (N::Ite(_, c, x, y), Some(_)) = (self.n[a as usize], kb) {
            if self.as_k(x).is_some() && self.as_k(y).is_some() {
                let x2 = self.bin(op, x, b);
                let y2 = self.bin(op, y, b);
                return self.ite(c, x2, y2);
            }
        }
        self.mk(N::Bin(op, w, a, b))
    }
    /// a | b where a = cat(h, 0) and b < 2^width(0): cat(h | 0, b)
    fn or_as_cat(&mut self, a: E, b: E) -> Option<E> {
        if let N::Cat(w, h, l) = self.n[a as usize] {
            let wl = self.w(l);
            if self.as_k(l) == Some(0) {
                if self.umax(b) <= m(wl) {
                    let lo = self.ext(wl, 0, b);
                    return Some(self.cat(h, lo));
                }
                let hb = self.ext(w - wl, wl, b);
                let lb = self.ext(wl, 0, b);
                let simple = |s: &Self, e: E| matches!(s.n[e as usize], N::K(..) | N::Cat(..) | N::Zext(..));
                if simple(self, hb) && !matches!(self.n[b as usize], N::Bin(..)) {
                    let hh = self.bin(Bin::Or, h, hb);
                    return Some(self.cat(hh, lb));
                }
            }
        }
        None
    }

    pub fn cmp(&mut self, op: Cmp, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.as_k(a), self.as_k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = match op { Cmp::Eq => x == y, Cmp::Ult => x < y, Cmp::Slt => sx(x, w) < sx(y, w) };
            return self.k(1, r as u128);
        }
        if a == b { return self.k(1, (op == Cmp::Eq) as u128); }
        match op {
            Cmp::Eq => {
                if ka.is_some() || (kb.is_none() && a > b) { return self.cmp(op, b, a); }
                if let Some(k) = kb {
                    if w == 1 { return if k == 1 { a } else { self.not(a) }; }
                    if k > self.umax(a) { return self.k(1, 0); }
                    match self.n[a as usize] {
                        N::Zext(_, x) => { let wx = self.w(x); let kk = self.k(wx, k); return self.cmp(op, x, kk); }
                        N::Sext(_, x) => {
                            let wx = self.w(x);
                            if (sx(k & m(wx), wx) as u128) & m(w) != k { return self.k(1, 0); }
                            let kk = self.k(wx, k);
                            return self.cmp(op, x, kk);
                        }
                        N::Cat(_, h, l) => {
                            let wl = self.w(l);
                            let wh = self.w(h);
                            let kl = self.k(wl, k);
                            let kh = self.k(wh, k >> wl);
                            let x = self.cmp(op, l, kl);
                            if self.as_k(x) == Some(0) { return x; }
                            let y = self.cmp(op, h, kh);
                            return self.and(x, y);
                        }
                        N::Bin(Bin::Add, _, x, y) => if let Some(k2) = self.as_k(y) {
                            let kk = self.k(w, k.wrapping_sub(k2));
                            return self.cmp(op, x, kk);
                        },
                        N::Bin(Bin::Xor, _, x, y) => if let Some(k2) = self.as_k(y) {
                            let kk = self.k(w, k ^ k2);
                            return self.cmp(op, x, kk);
                        } else if k == 0 { return self.cmp(op, x, y); },
                        N::Bin(Bin::Or, _, x, y) if k == 0 => {
                            let p = self.cmp(op, x, b);
                            let q = self.cmp(op, y, b);
                            return self.and(p, q);
                        }
                        N::Bin(Bin::Sub, _, x, y) if k == 0 => return self.cmp(op, x, y),
                        N::Ite(_, c, x, y) => {
                            let (lx, ly) = (self.as_k(x), self.as_k(y));
                            if lx.is_some() || ly.is_some() {
                                let p = self.cmp(op, x, b);
                                let q = self.cmp(op, y, b);
                                return self.ite(c, p, q);
                            }
                        }
                        _ => {}
                    }
                }
                // zext(x) == zext(y)
                if let (N::Zext(_, x), N::Zext(_, y)) = (self.n[a as usize], self.n[b as usize]) {
                    if self.w(x) == self.w(y) { return self.cmp(op, x, y); }
                }
                if let (N::Cat(_, h1, l1), N::Cat(_, h2, l2)) = (self.n[a as usize], self.n[b as usize]) {
                    if self.w(l1) == self.w(l2) {
                        let p = self.cmp(op, h1, h2);
                        let q = self.cmp(op, l1, l2);
                        return self.and(p, q);
                    }
                }
            }
            Cmp::Ult => {
                if kb == Some(0) { return self.k(1, 0); }
                if kb == Some(1) { let z = self.k(w, 0); return self.cmp(Cmp::Eq, a, z); }
                if let Some(k) = kb { if self.umax(a) < k { return self.k(1, 1); } }
                if let Some(k) = ka {
                    if k >= self.umax(b) { return self.k(1, 0); }
                    if k == 0 { let z = self.k(w, 0); let e = self.cmp(Cmp::Eq, b, z); return self.not(e); }
                }
                match (self.n[a as usize], self.n[b as usize]) {
                    (N::Zext(_, x), N::Zext(_, y)) if self.w(x) == self.w(y) => return self.cmp(op, x, y),
                    (N::Zext(_, x), N::K(_, k)) => { let wx = self.w(x); if k <= m(wx) { let kk = self.k(wx, k); return self.cmp(op, x, kk); } }
                    (N::K(_, k), N::Zext(_, x)) => { let wx = self.w(x); if k <= m(wx) { let kk = self.k(wx, k); return self.cmp(op, kk, x); } }
                    _ => {}
                }
            }
            Cmp::Slt => {
                // both non-negative -> unsigned
                if self.umax(a) <= m(w) >> 1 && self.umax(b) <= m(w) >> 1 { return self.cmp(Cmp::Ult, a, b); }
                if let (N::Sext(_, x), N::Sext(_, y)) = (self.n[a as usize], self.n[b as usize]) {
                    if self.w(x) == self.w(y) { return self.cmp(op, x, y); }
                }
                if let (N::Sext(_, x), N::K(_, k)) = (self.n[a as usize], self.n[b as usize]) {
                    let wx = self.w(x);
                    if (sx(k & m(wx), wx) as u128) & m(w) == k { let kk = self.k(wx, k); return self.cmp(op, x, kk); }
                }
                if let (N::K(_, k), N::Sext(_, x)) = (self.n[a as usize], self.n[b as usize]) {
                    let wx = self.w(x);
                    if (sx(k & m(wx), wx) as u128) & m(w) == k { let kk = self.k(wx, k); return self.cmp(op, kk, x); }
                }
            }
        }
        // comparison over an ite with constant leaves and a constant
        if kb.is_some() {
            if let N::Ite(_, c, x, y) = self.n[a as usize] {
                if self.as_k(x).is_some() || self.as_k(y).is_some() {
                    let p = self.cmp(op, x, b);
                    let q = self.cmp(op, y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        if ka.is_some() {
            if let N::Ite(_, c, x, y) = self.n[b as usize] {
                if self.as_k(x).is_some() || self.as_k(y).is_some() {
                    let p = self.cmp(op, a, x);
                    let q = self.cmp(op, a, y);
                    return self.ite(c, p, q);
                }
            }
        }
        self.mk(N::Cmp(op, a, b))
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_k(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(c2) = self.is_not(c) { return self.ite(c2, b, a); }
        if w == 1 {
            match (self.as_k(a), self.as_k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
            if a == c { return self.or(c, b); }
            if b == c { return self.and(c, a); }
        }
        if let N::Ite(_, c2, x, _) = self.n[a as usize] { if c2 == c { return self.ite(c, x, b); } }
        if let N::Ite(_, c2, _, y) = self.n[b as usize] { if c2 == c { return self.ite(c, a, y); } }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        if let N::Ite(_, d, x, y) = self.n[b as usize] { if x == a { let cd = self.or(c, d); return self.ite(cd, a, y); } }
        self.mk(N::Ite(w, c, a, b))
    }

    pub fn zext(&mut self, w: u16, a: E) -> E {
        let wa = self.w(a);
        if w == wa { return a; }
        match self.n[a as usize] {
            N::K(_, x) => return self.k(w, x),
            N::Zext(_, x) => return self.zext(w, x),
            N::Ite(_, c, x, y) if self.as_k(x).is_some() && self.as_k(y).is_some() => {
                let p = self.zext(w, x);
                let q = self.zext(w, y);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(N::Zext(w, a))
    }
    pub fn sext(&mut self, w: u16, a: E) -> E {
        let wa = self.w(a);
        if w == wa { return a; }
        if self.umax(a) <= m(wa) >> 1 { return self.zext(w, a); }
        match self.n[a as usize] {
            N::K(_, x) => { return self.k(w, sx(x, wa) as u128); }
            N::Sext(_, x) => return self.sext(w, x),
            _ => {}
        }
        if wa == 1 {
            let ones = self.k(w, u128::MAX);
            let z = self.k(w, 0);
            return self.ite(a, ones, z);
        }
        self.mk(N::Sext(w, a))
    }
    pub fn ext(&mut self, w: u16, lo: u16, a: E) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa { return a; }
        match self.n[a as usize] {
            N::K(_, x) => return self.k(w, x >> lo),
            N::Ext(_, l2, x) => return self.ext(w, lo + l2, x),
            N::Zext(_, x) => {
                let wx = self.w(x);
                if lo >= wx { return self.k(w, 0); }
                if lo + w <= wx { return self.ext(w, lo, x); }
                let p = self.ext(wx - lo, lo, x);
                return self.zext(w, p);
            }
            N::Sext(_, x) => {
                let wx = self.w(x);
                if lo + w <= wx { return self.ext(w, lo, x); }
                if lo == 0 { return self.sext(w, x); }
            }
            N::Cat(_, h, l) => {
                let wl = self.w(l);
                if lo >= wl { return self.ext(w, lo - wl, h); }
                if lo + w <= wl { return self.ext(w, lo, l); }
                let p = self.ext(wl - lo, lo, l);
                let q = self.ext(w - (wl - lo), 0, h);
                return self.cat(q, p);
            }
            N::Ite(_, c, x, y) => {
                if self.as_k(x).is_some() || self.as_k(y).is_some() {
                    let p = self.ext(w, lo, x);
                    let q = self.ext(w, lo, y);
                    return self.ite(c, p, q);
                }
            }
            N::Bin(op @ (Bin::And | Bin::Or | Bin::Xor), _, x, y) => {
                let p = self.ext(w, lo, x);
                let q = self.ext(w, lo, y);
                return self.bin(op, p, q);
            }
            N::Bin(op @ (Bin::Add | Bin::Sub | Bin::Mul), _, x, y) if lo == 0 => {
                let p = self.ext(w, 0, x);
                let q = self.ext(w, 0, y);
                return self.bin(op, p, q);
            }
            _ => {}
        }
        if self.umax(a) >> lo == 0 { return self.k(w, 0); }
        self.mk(N::Ext(w, lo, a))
    }
    pub fn cat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        match (self.n[h as usize], self.n[l as usize]) {
            (N::K(_, x), N::K(_, y)) => return self.k(w, (x << wl) | y),
            (N::K(_, 0), _) => return self.zext(w, l),
            (N::Ext(_, lo1, a), N::Ext(_, lo2, b)) if a == b && lo1 == lo2 + wl => return self.ext(w, lo2, a),
            (N::Zext(_, x), _) => {
                let t = self.cat(x, l);
                return self.zext(w, t);
            }
            (N::Ext(_, lo1, a), _) if a == l && lo1 == wl => return self.ext(w, 0, a),
            // cat(h1 ++ l1, l) where l1 ++ l merges
            (N::Cat(_, h1, l1), N::Ext(_, lo2, b)) => {
                if let N::Ext(_, lo1, a) = self.n[l1 as usize] {
                    if a == b && lo1 == lo2 + wl { let x = self.cat(l1, l); return self.cat(h1, x); }
                }
            }
            (N::Cat(_, h1, l1), N::K(..)) if self.as_k(l1).is_some() => { let x = self.cat(l1, l); return self.cat(h1, x); }
            _ => {}
        }
        if let (N::Ext(_, lo1, a), N::Cat(_, h2, l2)) = (self.n[h as usize], self.n[l as usize]) {
            if let N::Ext(_, lo2, b) = self.n[h2 as usize] {
                let w2 = self.w(h2);
                if a == b && lo1 == lo2 + w2 { let x = self.cat(h, h2); return self.cat(x, l2); }
            }
        }
        self.mk(N::Cat(w, h, l))
    }

    pub fn new_epoch(&mut self) { self.epoch += 1; }
    /// Value under an assignment (missing variables are 0).
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        self.epoch += 1;
        self.ev(e, model)
    }
    /// The width of the only variable of an expression.
    pub fn var_width(&self, mut e: E) -> Option<u16> {
        loop {
            let pick = |x: E, y: E| if self.vars[x as usize] != 0 { x } else { y };
            e = match self.n[e as usize] {
                N::K(..) => return None,
                N::Var(w, _) => return Some(w),
                N::Bin(_, _, x, y) | N::Cmp(_, x, y) | N::Cat(_, x, y) => pick(x, y),
                N::Ite(_, c, x, y) => pick(c, pick(x, y)),
                N::Zext(_, x) | N::Sext(_, x) | N::Ext(_, _, x) => x,
            };
        }
    }
    /// Is it one of at most eight constants, by its shape?
    pub fn few(&self, e: E) -> bool {
        fn leaves(a: &Arena, e: E, n: &mut u32) -> bool {
            match a.n[e as usize] {
                N::K(..) => { *n += 1; *n <= 8 }
                N::Ite(_, _, x, y) => leaves(a, x, n) && leaves(a, y, n),
                N::Zext(_, x) | N::Sext(_, x) | N::Ext(_, _, x) => if a.w(x) == 1 && !matches!(a.n[x as usize], N::Ite(..)) { *n += 2; *n <= 8 } else { leaves(a, x, n) },
                N::Bin(_, _, x, y) if a.vars[x as usize] == 0 => leaves(a, y, n),
                N::Bin(_, _, x, y) if a.vars[y as usize] == 0 => leaves(a, x, n),
                N::Cat(_, x, y) if a.vars[x as usize] == 0 => leaves(a, y, n),
                N::Cat(_, x, y) if a.vars[y as usize] == 0 => leaves(a, x, n),
                _ => false,
            }
        }
        leaves(self, e, &mut 0)
    }
    /// Number of nodes, counted up to a limit.
    pub fn size(&mut self, e: E, lim: usize) -> usize {
        self.epoch += 1;
        let mut todo = vec![e];
        let mut n = 0;
        while let Some(e) = todo.pop() {
            if self.vars[e as usize] == 0 || self.memo[e as usize].0 == self.epoch { continue; }
            self.memo[e as usize].0 = self.epoch;
            n += 1;
            if n >= lim { break; }
            match self.n[e as usize] {
                N::K(..) | N::Var(..) => {}
                N::Bin(_, _, x, y) | N::Cmp(_, x, y) | N::Cat(_, x, y) => { todo.push(x); todo.push(y); }
                N::Ite(_, c, x, y) => { todo.push(c); todo.push(x); todo.push(y); }
                N::Zext(_, x) | N::Sext(_, x) | N::Ext(_, _, x) => todo.push(x),
            }
        }
        self.epoch += 1;
        n
    }
    /// Continue with the same epoch (same model).
    pub fn ev(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.n[e as usize];
        if let N::K(_, x) = n { return x; }
        if self.memo[e as usize].0 == self.epoch { return self.memo[e as usize].1; }
        let r = match n {
            N::K(_, x) => x,
            N::Var(w, i) => (model.get(i as usize).copied().unwrap_or(0) as u128) & m(w),
            N::Bin(op, w, a, b) => {
                let (x, y) = (self.ev(a, model), self.ev(b, model));
                bin_k(op, w, x, y).unwrap_or_else(|| match op { Bin::UDiv => m(w), Bin::URem | Bin::SRem => x, _ => if sx(x, w) < 0 { 1 } else { m(w) } })
            }
            N::Cmp(op, a, b) => {
                let (x, y) = (self.ev(a, model), self.ev(b, model));
                let w = self.w(a);
                (match op { Cmp::Eq => x == y, Cmp::Ult => x < y, Cmp::Slt => sx(x, w) < sx(y, w) }) as u128
            }
            N::Ite(_, c, a, b) => if self.ev(c, model) == 1 { self.ev(a, model) } else { self.ev(b, model) },
            N::Zext(_, a) => self.ev(a, model),
            N::Sext(w, a) => { let x = self.ev(a, model); let wa = self.w(a); (sx(x, wa) as u128) & m(w) }
            N::Ext(w, lo, a) => (self.ev(a, model) >> lo) & m(w),
            N::Cat(_, h, l) => { let wl = self.w(l); (self.ev(h, model) << wl) | self.ev(l, model) }
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }
}

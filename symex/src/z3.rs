//! Minimal FFI to libz3 and the query layer (slicing, shared result cache).

use crate::expr::*;
use crate::ir::Bin;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::Mutex;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("symex: z3 error: {}", m.to_string_lossy());
    std::process::exit(2);
}

/// Query result; `Sat` carries values for the variables of the slice.
#[derive(Clone)]
pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub cache_hits: u64, pub sat: u64, pub unsat: u64, pub solver_ns: u64, pub z3_calls: u64, pub tables: u64, pub tables_confirmed: u64 }

/// Cache shared between workers: canonical-form hash -> sat values by canonical variable number.
pub type Cache = Mutex<HashMap<u128, Option<Vec<u64>>>>;

pub struct Solver {
    ctx: P,
    s: P,
    bv: HashMap<E, P, FxB>,
    bl: HashMap<E, P, FxB>,
    calls: u32,
    pub st: Stats,
    timeout_ms: u32,
    pub dump: Option<(std::path::PathBuf, u32)>,
    /// Truth tables of formulas over one byte.
    tab: HashMap<E, [u64; 4], FxB>,
    pub table_min: usize,
}

impl Solver {
    pub fn new(timeout_ms: u32, table_min: usize) -> Solver {
        let mut s = Solver { ctx: std::ptr::null_mut(), s: std::ptr::null_mut(), bv: HashMap::with_hasher(FxB), bl: HashMap::with_hasher(FxB), calls: 0, st: Stats::default(), timeout_ms, dump: None, tab: HashMap::with_hasher(FxB), table_min };
        s.reinit();
        s
    }
    fn reinit(&mut self) {
        unsafe {
            if !self.ctx.is_null() { Z3_del_context(self.ctx); }
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, on_error);
            let l = CString::new("QF_BV").unwrap();
            self.s = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
            Z3_solver_inc_ref(self.ctx, self.s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.s, p);
        }
        self.bv.clear();
        self.bl.clear();
        self.calls = 0;
    }
    fn sort(&self, w: u16) -> P { unsafe { Z3_mk_bv_sort(self.ctx, w as c_uint) } }
    fn num(&self, w: u16, x: u128) -> P {
        unsafe {
            if x <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.ctx, x as u64, self.sort(w)) }
            else { let s = CString::new(x.to_string()).unwrap(); Z3_mk_numeral(self.ctx, s.as_ptr(), self.sort(w)) }
        }
    }
    fn zb(&mut self, a: &Arena, e: E) -> P {
        if let Some(x) = self.bl.get(&e) { return *x; }
        let c = self.ctx;
        let r = unsafe {
            match a.n[e as usize] {
                N::K(_, x) => if x == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                N::Cmp(op, x, y) => {
                    if a.w(x) == 1 {
                        let (p, q) = (self.zb(a, x), self.zb(a, y));
                        match op { Cmp::Eq => Z3_mk_eq(c, p, q),
                            Cmp::Ult => { let v = [Z3_mk_not(c, p), q]; Z3_mk_and(c, 2, v.as_ptr()) }
                            Cmp::Slt => { let v = [p, Z3_mk_not(c, q)]; Z3_mk_and(c, 2, v.as_ptr()) } }
                    } else {
                        let (p, q) = (self.zv(a, x), self.zv(a, y));
                        match op { Cmp::Eq => Z3_mk_eq(c, p, q), Cmp::Ult => Z3_mk_bvult(c, p, q), Cmp::Slt => Z3_mk_bvslt(c, p, q) }
                    }
                }
                N::Bin(op @ (Bin::And | Bin::Or | Bin::Xor), 1, x, y) => {
                    let (p, q) = (self.zb(a, x), self.zb(a, y));
                    let v = [p, q];
                    match op {
                        Bin::And => Z3_mk_and(c, 2, v.as_ptr()),
                        Bin::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => if a.as_k(y) == Some(1) { Z3_mk_not(c, p) } else { Z3_mk_xor(c, p, q) },
                    }
                }
                N::Ite(1, k, x, y) => { let (k, x, y) = (self.zb(a, k), self.zb(a, x), self.zb(a, y)); Z3_mk_ite(c, k, x, y) }
                _ => { let v = self.zv(a, e); Z3_mk_eq(c, v, self.num(1, 1)) }
            }
        };
        self.bl.insert(e, r);
        r
    }
    fn zv(&mut self, a: &Arena, e: E) -> P {
        if let Some(x) = self.bv.get(&e) { return *x; }
        let c = self.ctx;
        let r = unsafe {
            match a.n[e as usize] {
                N::K(w, x) => self.num(w, x),
                N::Var(w, i) => Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), self.sort(w)),
                N::Cmp(..) | N::Bin(Bin::And | Bin::Or | Bin::Xor, 1, ..) | N::Ite(1, ..) => {
                    let b = self.zb(a, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(1, 0))
                }
                N::Bin(op, _, x, y) => {
                    let (p, q) = (self.zv(a, x), self.zv(a, y));
                    (match op {
                        Bin::Add => Z3_mk_bvadd, Bin::Sub => Z3_mk_bvsub, Bin::Mul => Z3_mk_bvmul,
                        Bin::UDiv => Z3_mk_bvudiv, Bin::SDiv => Z3_mk_bvsdiv, Bin::URem => Z3_mk_bvurem, Bin::SRem => Z3_mk_bvsrem,
                        Bin::And => Z3_mk_bvand, Bin::Or => Z3_mk_bvor, Bin::Xor => Z3_mk_bvxor,
                        Bin::Shl => Z3_mk_bvshl, Bin::LShr => Z3_mk_bvlshr, Bin::AShr => Z3_mk_bvashr,
                    })(c, p, q)
                }
                N::Ite(_, k, x, y) => { let (k, x, y) = (self.zb(a, k), self.zv(a, x), self.zv(a, y)); Z3_mk_ite(c, k, x, y) }
                N::Zext(w, x) => { let p = self.zv(a, x); Z3_mk_zero_ext(c, (w - a.w(x)) as c_uint, p) }
                N::Sext(w, x) => { let p = self.zv(a, x); Z3_mk_sign_ext(c, (w - a.w(x)) as c_uint, p) }
                N::Ext(w, lo, x) => { let p = self.zv(a, x); Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, p) }
                N::Cat(_, h, l) => { let (p, q) = (self.zv(a, h), self.zv(a, l)); Z3_mk_concat(c, p, q) }
            }
        };
        self.bv.insert(e, r);
        r
    }

    /// Is `cond` satisfiable together with `pc`? Only the constraints that (transitively) share
    /// variables with `cond` matter: the rest of `pc` is satisfiable on its own.
    pub fn query(&mut self, a: &mut Arena, pc: &[E], cond: E, cache: &Cache, table: bool) -> Res {
        self.st.queries += 1;
        if let Some(k) = a.as_k(cond) { return if k == 1 { Res::Sat(vec![]) } else { Res::Unsat }; }
        let mut mask = a.vars[cond as usize];
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if !used[i] && a.vars[*c as usize] & mask != 0 {
                    used[i] = true;
                    let nm = mask | a.vars[*c as usize];
                    if nm != mask { mask = nm; ch = true; }
                }
            }
            if !ch { break; }
        }
        let mut slice: Vec<E> = pc.iter().zip(&used).filter(|(_, u)| **u).map(|(c, _)| *c).collect();
        slice.push(cond);
        // a large formula over a single byte: its truth table decides it
        if let Some(r) = if table { self.by_table(a, &slice, mask) } else { None } {
            self.st.tables += 1;
            match &r { Res::Sat(_) => self.st.sat += 1, _ => self.st.unsat += 1 }
            if self.st.tables % 64 == 1 {
                let z = self.by_z3(a, &slice, 0, &[]);
                if matches!((&z, &r), (Res::Sat(_), Res::Unsat) | (Res::Unsat, Res::Sat(_))) { eprintln!("symex: a truth table and the solver disagree"); std::process::exit(2); }
                self.st.tables_confirmed += 1;
            }
            return r;
        }
        // canonical key
        let mut can = Canon { num: HashMap::with_hasher(FxB), vars: vec![], h1: 0x9e3779b97f4a7c15, h2: 0xc2b2ae3d27d4eb4f, next: 0 };
        for c in slice.iter().rev() { let x = can.visit(a, *c); can.mix(0xabcd); can.mix(x as u64); }
        let key = ((can.h1 as u128) << 64) | can.h2 as u128;
        let vars = can.vars;
        if let Some(r) = cache.lock().unwrap().get(&key) {
            self.st.cache_hits += 1;
            return match r {
                Some(vals) => { self.st.sat += 1; Res::Sat(vars.iter().map(|(i, _)| *i).zip(vals.iter().copied()).collect()) }
                None => { self.st.unsat += 1; Res::Unsat }
            };
        }
        let r = self.by_z3(a, &slice, key, &vars);
        match &r {
            Res::Sat(v) => { self.st.sat += 1; cache.lock().unwrap().insert(key, Some(v.iter().map(|x| x.1).collect())); }
            Res::Unsat => { self.st.unsat += 1; cache.lock().unwrap().insert(key, None); }
            Res::Unknown => {}
        }
        r
    }
    /// Formulas whose only input is one of at most eight bits, if they are large.
    fn by_table(&mut self, a: &mut Arena, slice: &[E], mask: u128) -> Option<Res> {
        if mask.count_ones() != 1 || mask >> 127 != 0 { return None; }
        let var = mask.trailing_zeros();
        let w = a.var_width(*slice.last().unwrap())?;
        if w > 8 { return None; }
        let n: usize = slice.iter().map(|e| if self.tab.contains_key(e) { self.table_min } else { a.size(*e, self.table_min) }).max().unwrap_or(0);
        if n < self.table_min { return None; }
        let mut t = [u64::MAX; 4];
        for e in slice {
            let x = match self.tab.get(e) {
                Some(x) => *x,
                None => {
                    let mut x = [0u64; 4];
                    let mut model = vec![0u64; var as usize + 1];
                    for v in 0..1u64 << w {
                        model[var as usize] = v;
                        if a.eval(*e, &model) == 1 { x[v as usize / 64] |= 1 << (v % 64); }
                    }
                    self.tab.insert(*e, x);
                    x
                }
            };
            for i in 0..4 { t[i] &= x[i]; }
        }
        for i in 0..256u64 {
            let v = (i + 97) % 256;
            if t[v as usize / 64] >> (v % 64) & 1 == 1 { return Some(Res::Sat(vec![(var, v)])); }
        }
        Some(Res::Unsat)
    }
    fn by_z3(&mut self, a: &Arena, slice: &[E], key: u128, vars: &[(u32, u16)]) -> Res {
        if self.calls > 3000 { self.reinit(); }
        self.calls += 1;
        let t0 = std::time::Instant::now();
        let r;
        unsafe {
            Z3_solver_reset(self.ctx, self.s);
            for c in slice { let z = self.zb(a, *c); Z3_solver_assert(self.ctx, self.s, z); }
            let k = Z3_solver_check(self.ctx, self.s);
            self.st.z3_calls += 1;
            if let Some((dir, left)) = &mut self.dump {
                if *left > 0 {
                    *left -= 1;
                    let t = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().to_string();
                    let nm = dir.join(format!("q{}_{}.smt2", key as u64, match k { 1 => "sat", -1 => "unsat", _ => "unknown" }));
                    let _ = std::fs::write(nm, format!("(set-logic QF_BV)\n{t}\n(check-sat)\n"));
                }
            }
            r = match k {
                1 => {
                    let mdl = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, mdl);
                    let mut out = vec![];
                    for (i, w) in vars {
                        let v = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, *i as c_int), self.sort(*w));
                        let mut o = std::ptr::null_mut();
                        let mut x = 0u64;
                        if Z3_model_eval(self.ctx, mdl, v, true, &mut o) { Z3_get_numeral_uint64(self.ctx, o, &mut x); }
                        out.push((*i, x));
                    }
                    Z3_model_dec_ref(self.ctx, mdl);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
        }
        self.st.solver_ns += t0.elapsed().as_nanos() as u64;
        r
    }
}

/// Structural hash that is independent of variable identities.
struct Canon { num: HashMap<E, u32, FxB>, vars: Vec<(u32, u16)>, h1: u64, h2: u64, next: u32 }
impl Canon {
    fn mix(&mut self, x: u64) {
        self.h1 = (self.h1 ^ x).wrapping_mul(0x100000001b3).rotate_left(23) ^ (self.h1 >> 29);
        self.h1 = self.h1.wrapping_mul(0x9fb21c651e98df25);
        self.h2 = (self.h2.rotate_left(31) ^ x.wrapping_mul(0xff51afd7ed558ccd)).wrapping_mul(0xc4ceb9fe1a85ec53);
        self.h2 ^= self.h2 >> 33;
    }
    fn visit(&mut self, a: &Arena, e: E) -> u32 {
        if let Some(x) = self.num.get(&e) { return *x; }
        let (t, x, y, z): (u64, u64, u64, u64) = match a.n[e as usize] {
            N::K(w, k) => (1, w as u64, k as u64, (k >> 64) as u64),
            N::Var(w, i) => {
                let k = self.vars.len() as u64;
                self.vars.push((i, w));
                (2, w as u64, k, 0)
            }
            N::Bin(op, w, p, q) => { let (p, q) = (self.visit(a, p), self.visit(a, q)); (3 + 16 * op as u64, w as u64, p as u64, q as u64) }
            N::Cmp(op, p, q) => { let (p, q) = (self.visit(a, p), self.visit(a, q)); (4 + 16 * op as u64, 1, p as u64, q as u64) }
            N::Ite(w, c, p, q) => { let (c, p, q) = (self.visit(a, c), self.visit(a, p), self.visit(a, q)); (5, (w as u64) << 32 | c as u64, p as u64, q as u64) }
            N::Zext(w, p) => { let p = self.visit(a, p); (6, w as u64, p as u64, 0) }
            N::Sext(w, p) => { let p = self.visit(a, p); (7, w as u64, p as u64, 0) }
            N::Ext(w, l, p) => { let p = self.visit(a, p); (8, w as u64, l as u64, p as u64) }
            N::Cat(w, p, q) => { let (p, q) = (self.visit(a, p), self.visit(a, q)); (9, w as u64, p as u64, q as u64) }
        };
        self.mix(t); self.mix(x); self.mix(y); self.mix(z);
        let id = self.next;
        self.next += 1;
        self.num.insert(e, id);
        id
    }
}

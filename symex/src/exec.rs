//! Symbolic executor: state, memory, instruction semantics, path forking, workers.

use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};

// ---------------------------------------------------------------- memory

#[derive(Clone)]
pub struct Obj { data: Vec<u8>, sym: Option<Vec<E>>, freed: bool, heap: bool }
const CH: usize = 32;
#[derive(Clone, Default)]
struct Mem { chunks: Vec<Rc<Vec<Rc<Obj>>>>, len: usize }
impl Mem {
    fn push(&mut self, o: Rc<Obj>) -> usize {
        let id = self.len;
        if id / CH == self.chunks.len() { self.chunks.push(Rc::new(Vec::with_capacity(CH))); }
        Rc::make_mut(&mut self.chunks[id / CH]).push(o);
        self.len += 1;
        id
    }
    fn get(&self, id: usize) -> Option<&Rc<Obj>> { self.chunks.get(id / CH)?.get(id % CH) }
    fn slot(&mut self, id: usize) -> &mut Rc<Obj> { &mut Rc::make_mut(&mut self.chunks[id / CH])[id % CH] }
}

#[derive(Clone)]
pub struct Frame { f: u32, block: u32, pc: u32, regs: Vec<V>, dst: u32, normal: Option<u32>, allocas: Vec<usize> }

#[derive(Clone, Copy, Debug)]
pub enum Inp { Sym(u32, u16), Con(u64) }

pub type Dec = (u64, bool);

#[derive(Clone)]
pub struct State {
    entry: u32,
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    gm: Rc<HashMap<u32, Rc<Obj>>>,
    pc: Vec<E>,
    model: Rc<Vec<u64>>,
    inputs: Vec<Inp>,
    nvars: u32,
    trace: Rc<Vec<u32>>,
    dec: Vec<Dec>,
    dpos: usize,
    istart: usize,
    steps: u64,
    forks: u32,
    clock: u64,
    keys: Rc<Vec<V>>,
}

pub struct Job { pub entry: u32, pub dec: Vec<Dec>, pub model: Vec<u64> }

pub enum Stop { Done, Kill, Viol(String, String), Err(String) }
type X<T> = Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> X<T> { Err(Stop::Err(s.into())) }
fn viol<T>(k: &str, s: impl Into<String>) -> X<T> { Err(Stop::Viol(k.into(), s.into())) }

// ---------------------------------------------------------------- shared between workers

#[derive(Clone, Debug)]
pub struct Violation { pub entry: u32, pub kind: String, pub detail: String, pub inputs: Vec<u64>, pub stack: Vec<String> }
#[derive(Clone, Debug)]
pub struct Sample { pub entry: u32, pub inputs: Vec<u64>, pub trace: Vec<u8> }
#[derive(Default, Clone, Debug)]
pub struct EntryStat { pub paths: u64, pub killed: u64, pub checks: u64, pub sym_checks: u64, pub max_steps: u64, pub max_vars: u32, pub covers: BTreeMap<u32, u64> }

#[derive(Default)]
pub struct Results {
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub errors: BTreeMap<String, u64>,
    pub entries: Vec<EntryStat>,
    pub stats: Stats,
    pub instrs: u64,
    pub forks: u64,
    pub cov: Vec<bool>,
}

pub struct Shared {
    pub m: &'static Module,
    pub entries: Vec<(String, u32)>,
    pub queue: Mutex<(Vec<Job>, usize)>, // jobs, active workers
    pub cv: Condvar,
    pub hungry: AtomicUsize,
    pub stop: AtomicBool,
    pub timed_out: AtomicBool,
    pub cache: Cache,
    pub res: Mutex<Results>,
    pub path_no: AtomicU64,
    pub opt: Options,
    pub bbase: Vec<u32>,
    pub nblocks: usize,
}
#[derive(Clone)]
pub struct Options { pub threads: usize, pub max_steps: u64, pub max_samples: usize, pub tier: u64, pub seed: u64, pub stop_on_violation: bool, pub table_min: usize, pub solver_ms: u32, pub deadline: std::time::Instant, pub dump: Option<(std::path::PathBuf, u32)>, pub verbose: bool }

pub struct Worker {
    m: &'static Module,
    a: Arena,
    s: Solver,
    sh: Arc<Shared>,
    stack: std::collections::VecDeque<State>,
    cov: Vec<bool>,
    ent: Vec<EntryStat>,
    instrs: u64,
    forks: u64,
    samples: Vec<Sample>,
    freed: Rc<Obj>,
    rng: u64,
    nth: u64,
}

pub fn builtin_id(name: &str) -> u16 {
    let l = |s: &str| name == s;
    if let Some(r) = name.strip_prefix("llvm.") {
        let st = |s: &str| r.starts_with(s);
        return match () {
            _ if st("memcpy.") || st("memmove.") => 1,
            _ if st("memset.") => 2,
            _ if st("umin.") => 3, _ if st("umax.") => 4, _ if st("smin.") => 5, _ if st("smax.") => 6,
            _ if st("uadd.with.overflow") => 7, _ if st("usub.with.overflow") => 8, _ if st("umul.with.overflow") => 9,
            _ if st("sadd.with.overflow") => 10, _ if st("ssub.with.overflow") => 11, _ if st("smul.with.overflow") => 12,
            _ if st("uadd.sat") => 13, _ if st("usub.sat") => 14, _ if st("sadd.sat") => 45, _ if st("ssub.sat") => 46,
            _ if st("fshl.") => 15, _ if st("fshr.") => 16,
            _ if st("ctpop.") => 17, _ if st("ctlz.") => 18, _ if st("cttz.") => 19,
            _ if st("bswap.") => 20, _ if st("bitreverse.") => 21, _ if st("abs.") => 22,
            _ if st("ucmp.") => 23, _ if st("scmp.") => 24,
            _ if st("load.relative") => 25, _ if st("threadlocal.address") => 26,
            _ if st("assume") || st("lifetime") || st("experimental.noalias") || st("dbg") || st("prefetch") || st("x86.sse2.pause") || st("invariant") || st("donothing") || st("sideeffect") => 27,
            _ if st("is.constant") => 28, _ if st("expect") => 29,
            _ if st("vector.reduce.add") => 30, _ if st("vector.reduce.or") => 31, _ if st("vector.reduce.and") => 32,
            _ if st("vector.reduce.umax") => 33, _ if st("vector.reduce.umin") => 34, _ if st("vector.reduce.xor") => 35,
            _ if st("trap") || st("ubsantrap") => 36, _ if st("ptrmask") => 37, _ if st("objectsize") => 38,
            _ if st("x86.sse2.pmovmskb") => 39, _ if st("x86.sse2.psad") => 40,
            _ => 0,
        };
    }
    match () {
        _ if l("__sx_u8") => 100, _ if l("__sx_u16") => 101, _ if l("__sx_u32") => 102, _ if l("__sx_u64") => 103,
        _ if l("__sx_choice") => 104, _ if l("__sx_assume") => 105, _ if l("__sx_check") => 106, _ if l("__sx_cover") => 107,
        _ if l("__sx_trace") => 108, _ if l("__sx_tier") => 109, _ if l("__sx_fork") => 110, _ if l("__sx_err") => 111,
        _ if l("malloc") => 120, _ if l("calloc") => 121, _ if l("realloc") => 122, _ if l("free") => 123,
        _ if l("posix_memalign") => 124, _ if l("aligned_alloc") => 125,
        _ if l("memcmp") || l("bcmp") => if l("memcmp") { 126 } else { 127 },
        _ if l("memcpy") || l("memmove") => 1, _ if l("memset") => 2, _ if l("strlen") => 128, _ if l("memchr") => 140,
        _ if l("abort") || l("_exit") || l("exit") => 129,
        _ if l("getrandom") => 130, _ if l("getenv") => 131, _ if l("__errno_location") => 132,
        _ if l("__cxa_thread_atexit_impl") => 133, _ if l("write") => 134, _ if l("syscall") => 135,
        _ if l("clock_gettime") => 141, _ if l("pthread_key_create") => 142, _ if l("pthread_key_delete") => 131,
        _ if l("pthread_getspecific") => 143, _ if l("pthread_setspecific") => 144, _ if l("sched_yield") => 131,
        _ if l("pthread_self") => 131, _ if l("cpuid") => 136,
        _ => 0,
    }
}

fn arity(ty: &Ty) -> u16 { ty.bits() as u16 }

impl Worker {
    pub fn new(sh: Arc<Shared>, nth: u64) -> Worker {
        let n = sh.entries.len();
        let mut w = Worker {
            m: sh.m, a: Arena::new(), s: Solver::new(sh.opt.solver_ms, sh.opt.table_min), stack: Default::default(), cov: vec![false; sh.nblocks],
            ent: vec![EntryStat::default(); n], instrs: 0, forks: 0, samples: vec![],
            freed: Rc::new(Obj { data: vec![], sym: None, freed: true, heap: true }), rng: sh.opt.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (nth + 1), nth, sh,
        };
        if nth == 0 { w.s.dump = w.sh.opt.dump.clone(); }
        w
    }
    fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    pub fn work(&mut self) {
        let sh = self.sh.clone();
        loop {
            let job = {
                let mut q = sh.queue.lock().unwrap();
                loop {
                    if sh.stop.load(Ordering::Relaxed) { break None; }
                    if let Some(j) = q.0.pop() { q.1 += 1; break Some(j); }
                    if q.1 == 0 { sh.cv.notify_all(); break None; }
                    sh.hungry.fetch_add(1, Ordering::Relaxed);
                    q = sh.cv.wait(q).unwrap();
                    sh.hungry.fetch_sub(1, Ordering::Relaxed);
                }
            };
            let Some(job) = job else { break };
            let st = self.start(job);
            self.stack.push_back(st);
            while let Some(st) = self.stack.pop_back() {
                if std::time::Instant::now() > sh.opt.deadline {
                    sh.timed_out.store(true, Ordering::Relaxed);
                    sh.stop.store(true, Ordering::Relaxed);
                    sh.cv.notify_all();
                }
                if sh.stop.load(Ordering::Relaxed) { self.stack.clear(); break; }
                self.run(st);
                if self.a.n.len() > 24_000_000 {
                    // hand everything over and start with a fresh arena
                    let mut q = sh.queue.lock().unwrap();
                    for s in self.stack.drain(..) { q.0.push(Job { entry: s.entry, dec: s.dec, model: (*s.model).clone() }); }
                    drop(q);
                    sh.cv.notify_all();
                    self.a = Arena::new();
                    let (st, dump) = (self.s.st.clone(), self.s.dump.take());
                    self.s = Solver::new(sh.opt.solver_ms, sh.opt.table_min);
                    self.s.st = st;
                    self.s.dump = dump;
                }
            }
            let mut q = sh.queue.lock().unwrap();
            q.1 -= 1;
            if q.1 == 0 && q.0.is_empty() { sh.cv.notify_all(); }
        }
        let mut r = sh.res.lock().unwrap();
        for (i, e) in self.ent.iter().enumerate() {
            let t = &mut r.entries[i];
            t.paths += e.paths; t.killed += e.killed; t.checks += e.checks; t.sym_checks += e.sym_checks;
            t.max_steps = t.max_steps.max(e.max_steps); t.max_vars = t.max_vars.max(e.max_vars);
            for (k, v) in &e.covers { *t.covers.entry(*k).or_default() += v; }
        }
        let s = &self.s.st;
        r.stats.queries += s.queries; r.stats.cache_hits += s.cache_hits; r.stats.sat += s.sat; r.stats.unsat += s.unsat;
        r.stats.solver_ns += s.solver_ns; r.stats.z3_calls += s.z3_calls; r.stats.tables += s.tables; r.stats.tables_confirmed += s.tables_confirmed;
        r.instrs += self.instrs;
        r.forks += self.forks;
        r.samples.append(&mut self.samples);
        for (i, c) in self.cov.iter().enumerate() { if *c { r.cov[i] = true; } }
    }

    fn share(&mut self) {
        if self.stack.len() < 2 || self.sh.hungry.load(Ordering::Relaxed) == 0 { return; }
        let sh = self.sh.clone();
        let mut q = sh.queue.lock().unwrap();
        let mut n = sh.hungry.load(Ordering::Relaxed).saturating_sub(q.0.len());
        while n > 0 && self.stack.len() > 1 {
            let s = self.stack.pop_front().unwrap();
            q.0.push(Job { entry: s.entry, dec: s.dec, model: (*s.model).clone() });
            n -= 1;
        }
        drop(q);
        sh.cv.notify_all();
    }

    fn start(&mut self, j: Job) -> State {
        let f = self.sh.entries[j.entry as usize].1;
        let fr = Frame { f, block: 0, pc: 0, regs: vec![V::C(0); self.m.funcs[f as usize].nregs as usize], dst: NODST, normal: None, allocas: vec![] };
        let mut mem = Mem::default();
        mem.push(self.freed.clone()); // id 0 is never valid
        self.cov[self.sh.bbase[f as usize] as usize] = true;
        State { entry: j.entry, frames: vec![Rc::new(fr)], mem, gm: Rc::new(HashMap::new()), pc: vec![], model: Rc::new(j.model), inputs: vec![], nvars: 0, trace: Rc::new(vec![]), dec: j.dec, dpos: 0, istart: 0, steps: 0, forks: 0, clock: 0, keys: Rc::new(vec![V::C(0)]) }
    }

    fn stack_of(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for fr in st.frames.iter().rev().take(14) {
            let f = &self.m.funcs[fr.f as usize];
            let d = f.blocks[fr.block as usize].insts.get(fr.pc as usize).map(|i| i.dbg).unwrap_or(0);
            let ch = self.m.dbg.chain(d);
            if ch.is_empty() { v.push(f.name.clone()); }
            for (file, line, name) in ch { v.push(format!("{name} at {file}:{line}")); }
        }
        v.truncate(24);
        v
    }
    fn inputs_of(&mut self, st: &State, model: &[u64]) -> Vec<u64> {
        st.inputs.iter().map(|i| match i {
            Inp::Sym(v, w) => { let x = model.get(*v as usize).copied().unwrap_or(0); mask64(x, *w as u32) }
            Inp::Con(x) => *x,
        }).collect()
    }
    fn report(&mut self, st: &State, model: &[u64], kind: String, detail: String) {
        let v = Violation { entry: st.entry, kind, detail, inputs: self.inputs_of(st, model), stack: self.stack_of(st) };
        let mut r = self.sh.res.lock().unwrap();
        let same = r.violations.iter().filter(|o| o.entry == v.entry && o.kind == v.kind && o.detail == v.detail).count();
        if same < 3 && r.violations.len() < 60 { r.violations.push(v); }
        if self.sh.opt.stop_on_violation { self.sh.stop.store(true, Ordering::Relaxed); self.sh.cv.notify_all(); }
    }

    fn run(&mut self, mut st: State) {
        let r = loop {
            if st.steps & 0x3f == 0 && self.sh.stop.load(Ordering::Relaxed) { return; }
            if st.steps & 0x3ff == 0 {
                if std::time::Instant::now() > self.sh.opt.deadline {
                    self.sh.timed_out.store(true, Ordering::Relaxed);
                    self.sh.stop.store(true, Ordering::Relaxed);
                    self.sh.cv.notify_all();
                }
                if self.sh.stop.load(Ordering::Relaxed) { return; }
                if st.steps > self.sh.opt.max_steps {
                    let model = st.model.clone();
                    self.report(&st, &model, "hang".into(), "step limit reached: no termination within the bound".into());
                    break Stop::Kill;
                }
            }
            st.steps += 1;
            if let Err(s) = self.step(&mut st) { break s; }
        };
        self.instrs += st.steps;
        let en = &mut self.ent[st.entry as usize];
        en.max_steps = en.max_steps.max(st.steps);
        en.max_vars = en.max_vars.max(st.nvars);
        match r {
            Stop::Done => {
                en.paths += 1;
                let n = self.sh.path_no.fetch_add(1, Ordering::Relaxed);
                // reservoir sampling per worker
                let cap = self.sh.opt.max_samples / self.sh.opt.threads + 1;
                let _ = n;
                let total: u64 = self.ent.iter().map(|e| e.paths).sum();
                let pos = if self.samples.len() < cap { Some(self.samples.len()) } else { let r = self.rnd() % total; if (r as usize) < cap { Some(r as usize) } else { None } };
                if let Some(p) = pos {
                    let model = st.model.clone();
                    let tr = st.trace.clone();
                    let mut trace = Vec::with_capacity(tr.len());
                    self.a.new_epoch();
                    for t in tr.iter() {
                        trace.push(if *t & 0x8000_0000 != 0 { *t as u8 } else { self.a.ev(*t, &model) as u8 });
                    }
                    let s = Sample { entry: st.entry, inputs: self.inputs_of(&st, &model), trace };
                    if p == self.samples.len() { self.samples.push(s); } else { self.samples[p] = s; }
                }
            }
            Stop::Kill => en.killed += 1,
            Stop::Viol(k, d) => {
                en.paths += 1;
                let model = st.model.clone();
                self.report(&st, &model, k, d);
            }
            Stop::Err(e) => {
                en.paths += 1;
                let stack = self.stack_of(&st).into_iter().take(6).collect::<Vec<_>>().join(" < ");
                let mut r = self.sh.res.lock().unwrap();
                *r.errors.entry(format!("{e} [{stack}]")).or_default() += 1;
                if r.errors.len() > 10 { self.sh.stop.store(true, Ordering::Relaxed); self.sh.cv.notify_all(); }
            }
        }
    }

    // ------------------------------------------------------------ decisions

    fn merge_model(model: &[u64], vals: &[(u32, u64)]) -> Rc<Vec<u64>> {
        let mut m = model.to_vec();
        for (i, x) in vals {
            if m.len() <= *i as usize { m.resize(*i as usize + 1, 0); }
            m[*i as usize] = *x;
        }
        Rc::new(m)
    }
    /// Adds a constraint, split into conjuncts so that unrelated inputs stay independent.
    fn add_pc(&mut self, st: &mut State, c: E) { self.add_split(st, c, true) }
    fn add_split(&mut self, st: &mut State, c: E, pos: bool) {
        match self.a.n[c as usize] {
            N::Bin(Bin::Xor, 1, x, y) if self.a.as_k(y) == Some(1) => return self.add_split(st, x, !pos),
            N::Bin(Bin::And, 1, x, y) if pos => { self.add_split(st, x, true); return self.add_split(st, y, true); }
            N::Bin(Bin::Or, 1, x, y) if !pos => { self.add_split(st, x, false); return self.add_split(st, y, false); }
            N::Cmp(Cmp::Eq, x, y) if pos && self.a.as_k(y) == Some(0) => {
                if let N::Bin(Bin::Or, w, p, q) = self.a.n[x as usize] {
                    let z = self.a.k(w, 0);
                    let (p, q) = (self.a.cmp(Cmp::Eq, p, z), self.a.cmp(Cmp::Eq, q, z));
                    self.add_split(st, p, true);
                    return self.add_split(st, q, true);
                }
            }
            // no sign bit in a disjunction: in none of its parts
            N::Cmp(Cmp::Slt, x, y) => {
                let (neg, or) = if pos { (x, y) } else { (y, x) };
                let w = self.a.w(or);
                let k = if pos { m(w) } else { 0 };
                if let (N::Bin(Bin::Or, _, p, q), true) = (self.a.n[or as usize], self.a.as_k(neg) == Some(k)) {
                    for z in [p, q] {
                        let d = if pos { self.a.cmp(Cmp::Slt, neg, z) } else { self.a.cmp(Cmp::Slt, z, neg) };
                        self.add_split(st, d, pos);
                    }
                    return;
                }
            }
            _ => {}
        }
        let c = if pos { c } else { self.a.not(c) };
        if self.a.as_k(c) == Some(1) { return; }
        if st.pc.iter().rev().take(16).any(|x| *x == c) { return; }
        st.pc.push(c);
    }
    /// Is a condition of a path feasible?
    fn query(&mut self, st: &State, c: E) -> X<Option<Vec<(u32, u64)>>> { self.ask(st, c, true) }
    fn ask(&mut self, st: &State, c: E, table: bool) -> X<Option<Vec<(u32, u64)>>> {
        let sh = self.sh.clone();
        match self.s.query(&mut self.a, &st.pc, c, &sh.cache, table) {
            Res::Sat(v) => Ok(Some(v)),
            Res::Unsat => Ok(None),
            Res::Unknown => err("solver gave no answer"),
        }
    }
    fn fork(&mut self, st: &State, d: Dec, vals: &[(u32, u64)]) {
        let mut o = st.clone();
        o.dec.push(d);
        o.dpos = o.istart;
        o.model = Self::merge_model(&st.model, vals);
        o.forks += 1;
        o.steps -= 1;
        self.forks += 1;
        self.stack.push_back(o);
        self.share();
    }
    /// Picks one of mutually exclusive, exhaustive conditions; the other feasible ones are forked.
    fn decide(&mut self, st: &mut State, conds: &[E]) -> X<usize> {
        if st.dpos < st.dec.len() {
            let k = st.dec[st.dpos].0 as usize;
            st.dpos += 1;
            self.add_pc(st, conds[k]);
            return Ok(k);
        }
        let model = st.model.clone();
        let mut k = None;
        for (i, c) in conds.iter().enumerate() {
            if self.a.eval(*c, &model) == 1 { k = Some(i); break; }
        }
        let Some(k) = k else { return err("model satisfies no branch") };
        let mut only = true;
        for j in (0..conds.len()).rev() {
            if j == k || self.a.as_k(conds[j]) == Some(0) { continue; }
            if let Some(vals) = self.query(st, conds[j])? { only = false; self.fork(st, (j as u64, true), &vals); }
        }
        st.dec.push((k as u64, true));
        st.dpos += 1;
        if !only || conds.len() > 2 { self.add_pc(st, conds[k]); }
        Ok(k)
    }
    fn branch(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(k) = self.a.as_k(c) { return Ok(k == 1); }
        let n = self.a.not(c);
        Ok(self.decide(st, &[c, n])? == 0)
    }
    /// Fixes a value, forking for every other feasible one.
    fn concretize(&mut self, st: &mut State, e: E) -> X<u64> {
        let w = self.a.w(e);
        loop {
            if let Some(k) = self.a.as_k(e) { return Ok(k as u64); }
            if st.dpos < st.dec.len() {
                let (v, taken) = st.dec[st.dpos];
                st.dpos += 1;
                let k = self.a.k(w, v as u128);
                let c = self.a.cmp(Cmp::Eq, e, k);
                let c = if taken { c } else { self.a.not(c) };
                self.add_pc(st, c);
                if taken { return Ok(v); }
                continue;
            }
            let model = st.model.clone();
            let v = self.a.eval(e, &model) as u64;
            let k = self.a.k(w, v as u128);
            let c = self.a.cmp(Cmp::Eq, e, k);
            let n = self.a.not(c);
            if let Some(vals) = self.query(st, n)? { self.fork(st, (v, false), &vals); }
            st.dec.push((v, true));
            st.dpos += 1;
            self.add_pc(st, c);
            return Ok(v);
        }
    }
    fn conc(&mut self, st: &mut State, v: &V) -> X<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::W(x) => Ok(**x as u64),
            V::S(e) => self.concretize(st, *e),
            V::A(_) => err("aggregate where a scalar is needed"),
        }
    }

    // ------------------------------------------------------------ values

    fn e(&mut self, v: &V, w: u16) -> E {
        match v {
            V::C(x) => self.a.k(w, *x as u128),
            V::W(x) => self.a.k(w, **x),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as expression"),
        }
    }
    fn v(&self, e: E) -> V {
        match self.a.n[e as usize] {
            N::K(w, x) => if w <= 64 { V::C(x as u64) } else { V::W(Arc::new(x)) },
            _ => V::S(e),
        }
    }
    /// Flattens to one bit-vector (element 0 lowest).
    fn flat(&mut self, v: &V, ty: &Ty) -> E {
        match (v, ty) {
            (V::A(xs), Ty::Vec(_, t)) => {
                let mut r: Option<E> = None;
                for x in xs.iter() {
                    let y = self.e(x, arity(t));
                    r = Some(match r { None => y, Some(l) => self.a.cat(y, l) });
                }
                r.unwrap()
            }
            (v, t) => self.e(v, arity(t)),
        }
    }
    fn unflat(&mut self, e: E, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) => {
                let w = arity(t);
                let mut o = vec![];
                for i in 0..*n { let x = self.a.ext(w, w * i as u16, e); o.push(self.v(x)); }
                V::A(o.into())
            }
            _ => self.v(e),
        }
    }

    // ------------------------------------------------------------ memory access

    fn find_global(&self, addr: u64) -> Option<(u32, u64)> {
        let gs = &self.m.globals;
        let i = gs.partition_point(|g| g.addr <= addr);
        if i == 0 { return None; }
        let g = &gs[i - 1];
        let off = addr - g.addr;
        if off <= g.size { Some((i as u32 - 1, off)) } else { None }
    }
    fn bytes(&self, st: &State, addr: u64, n: u64, out: &mut Vec<u32>) -> X<()> {
        if n == 0 { return Ok(()); }
        let mut put = |data: &[u8], sym: Option<&Vec<E>>, off: usize| {
            match sym {
                None => out.extend(data[off..off + n as usize].iter().map(|b| *b as u32 | 0x8000_0000)),
                Some(s) => for i in off..off + n as usize { out.push(if s[i] != 0 { s[i] } else { data[i] as u32 | 0x8000_0000 }); },
            }
        };
        if addr >= 1 << 32 {
            let off = addr & 0xffff_ffff;
            match st.mem.get((addr >> 32) as usize) {
                Some(o) if !o.freed && off + n <= o.data.len() as u64 => { put(&o.data, o.sym.as_ref(), off as usize); Ok(()) }
                Some(o) if o.freed => viol("memory", "use after free"),
                _ => viol("memory", format!("read of {n} bytes outside of an object at {addr:#x}")),
            }
        } else if let Some((g, off)) = self.find_global(addr) {
            let gl = &self.m.globals[g as usize];
            if off + n > gl.size { return viol("memory", format!("read outside of @{}", gl.name)); }
            if !gl.constant { if let Some(o) = st.gm.get(&g) { put(&o.data, o.sym.as_ref(), off as usize); return Ok(()); } }
            put(&gl.data, None, off as usize);
            Ok(())
        } else {
            viol("memory", format!("read of {n} bytes at invalid address {addr:#x}"))
        }
    }
    /// Concrete fast path.
    fn load_c(&self, st: &State, addr: u64, n: usize) -> Option<u64> {
        let (data, sym, off): (&[u8], Option<&Vec<E>>, usize) = if addr >= 1 << 32 {
            let o = st.mem.get((addr >> 32) as usize)?;
            if o.freed { return None; }
            (&o.data, o.sym.as_ref(), (addr & 0xffff_ffff) as usize)
        } else {
            let (g, off) = self.find_global(addr)?;
            let gl = &self.m.globals[g as usize];
            match if gl.constant { None } else { st.gm.get(&g) } {
                Some(o) => (&o.data, o.sym.as_ref(), off as usize),
                None => (&gl.data, None, off as usize),
            }
        };
        if off + n > data.len() { return None; }
        if let Some(s) = sym { if s[off..off + n].iter().any(|x| *x != 0) { return None; } }
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&data[off..off + n]);
        Some(u64::from_le_bytes(b))
    }
    fn load_bits(&mut self, st: &State, addr: u64, bits: u32) -> X<V> {
        let n = ((bits + 7) / 8) as usize;
        if n <= 8 { if let Some(x) = self.load_c(st, addr, n) { return Ok(V::C(mask64(x, bits))); } }
        let mut b = Vec::with_capacity(n);
        self.bytes(st, addr, n as u64, &mut b)?;
        let mut r: Option<E> = None;
        for x in b {
            let y = if x & 0x8000_0000 != 0 { self.a.k(8, (x & 0xff) as u128) } else { x };
            r = Some(match r { None => y, Some(l) => self.a.cat(y, l) });
        }
        let mut e = r.unwrap();
        if (bits as usize) < n * 8 { e = self.a.ext(bits as u16, 0, e); }
        Ok(self.v(e))
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> X<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => self.load_bits(st, addr, ty.bits()),
            Ty::Vec(_, t) if t.bits() % 8 != 0 => {
                let v = self.load_bits(st, addr, ty.bits())?;
                let e = self.e(&v, arity(ty));
                Ok(self.unflat(e, ty))
            }
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let mut o = vec![];
                for i in 0..ty.nfields() { o.push(self.load(st, addr + ty.field_off(i), ty.field(i))?); }
                Ok(V::A(o.into()))
            }
            _ => err("load of unsupported type"),
        }
    }
    fn obj_mut<'s>(&self, st: &'s mut State, addr: u64, n: u64) -> X<(&'s mut Obj, usize)> {
        if addr >= 1 << 32 {
            let off = addr & 0xffff_ffff;
            let id = (addr >> 32) as usize;
            match st.mem.get(id) {
                Some(o) if !o.freed && off + n <= o.data.len() as u64 => {}
                Some(o) if o.freed => return viol("memory", "write after free"),
                _ => return viol("memory", format!("write of {n} bytes outside of an object at {addr:#x}")),
            }
            Ok((Rc::make_mut(st.mem.slot(id)), off as usize))
        } else if let Some((g, off)) = self.find_global(addr) {
            let gl = &self.m.globals[g as usize];
            if gl.constant || off + n > gl.size { return viol("memory", format!("bad write to @{}", gl.name)); }
            let gm = Rc::make_mut(&mut st.gm);
            let o = gm.entry(g).or_insert_with(|| Rc::new(Obj { data: (*gl.data).clone(), sym: None, freed: false, heap: false }));
            Ok((Rc::make_mut(o), off as usize))
        } else {
            viol("memory", format!("write at invalid address {addr:#x}"))
        }
    }
    fn write_bytes(&mut self, st: &mut State, addr: u64, b: &[u32]) -> X<()> {
        if b.is_empty() { return Ok(()); }
        let (o, off) = self.obj_mut(st, addr, b.len() as u64)?;
        let anysym = b.iter().any(|x| x & 0x8000_0000 == 0);
        if anysym && o.sym.is_none() { o.sym = Some(vec![0; o.data.len()]); }
        for (i, x) in b.iter().enumerate() { if x & 0x8000_0000 != 0 { o.data[off + i] = *x as u8; } }
        if let Some(s) = &mut o.sym {
            for (i, x) in b.iter().enumerate() { s[off + i] = if x & 0x8000_0000 != 0 { 0 } else { *x }; }
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, addr: u64, v: &V, ty: &Ty) -> X<()> {
        match (v, ty) {
            (V::C(x), Ty::Int(_) | Ty::Ptr | Ty::Float(_)) => {
                let n = ((ty.bits() + 7) / 8) as usize;
                if n > 8 {
                    let mut b: Vec<u32> = x.to_le_bytes().iter().map(|b| *b as u32 | 0x8000_0000).collect();
                    b.resize(n, 0x8000_0000);
                    return self.write_bytes(st, addr, &b);
                }
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym { s[off..off + n].fill(0); }
                Ok(())
            }
            (V::W(x), _) => {
                let n = ((ty.bits() + 7) / 8) as usize;
                let b: Vec<u32> = x.to_le_bytes()[..n].iter().map(|b| *b as u32 | 0x8000_0000).collect();
                self.write_bytes(st, addr, &b)
            }
            (V::S(e), _) => {
                let w = self.a.w(*e);
                let n = (w + 7) / 8;
                let e = self.a.zext(n * 8, *e);
                let mut b = vec![];
                for i in 0..n {
                    let x = self.a.ext(8, 8 * i, e);
                    b.push(match self.a.as_k(x) { Some(k) => k as u32 | 0x8000_0000, None => x });
                }
                self.write_bytes(st, addr, &b)
            }
            (V::A(_), Ty::Vec(_, t)) if t.bits() % 8 != 0 => {
                let e = self.flat(v, ty);
                let v = self.v(e);
                let t = Ty::Int(ty.bits());
                self.store(st, addr, &v, &t)
            }
            (V::A(xs), _) => {
                for (i, x) in xs.iter().enumerate() { self.store(st, addr + ty.field_off(i), x, ty.field(i))?; }
                Ok(())
            }
            _ => err("store of unsupported type"),
        }
    }
    fn leaves(&self, e: E, out: &mut Vec<u64>) -> bool {
        if out.len() > 16 { return false; }
        match self.a.n[e as usize] {
            N::K(_, x) => { out.push(x as u64); true }
            N::Ite(_, _, x, y) => self.leaves(x, out) && self.leaves(y, out),
            _ => false,
        }
    }
    fn load_tree(&mut self, st: &State, e: E, ty: &Ty) -> X<E> {
        match self.a.n[e as usize] {
            N::K(_, x) => { let v = self.load(st, x as u64, ty)?; Ok(self.e(&v, arity(ty))) }
            N::Ite(_, c, x, y) => { let p = self.load_tree(st, x, ty)?; let q = self.load_tree(st, y, ty)?; Ok(self.a.ite(c, p, q)) }
            _ => err("load_tree"),
        }
    }
    fn load_sym(&mut self, st: &mut State, e: E, ty: &Ty) -> X<V> {
        if matches!(ty, Ty::Int(_) | Ty::Ptr) {
            let mut l = vec![];
            if self.leaves(e, &mut l) {
                let n = ty.bits().div_ceil(8) as u64;
                let mut tmp = vec![];
                if l.iter().all(|x| { tmp.clear(); self.bytes(st, *x, n, &mut tmp).is_ok() }) {
                    let r = self.load_tree(st, e, ty)?;
                    return Ok(self.v(r));
                }
            }
            let model = st.model.clone();
            let addr = self.a.eval(e, &model) as u64;
            let found = if addr >= 1 << 32 {
                st.mem.get((addr >> 32) as usize).filter(|o| !o.freed).map(|o| (addr & !0xffff_ffff, o.data.len() as u64))
            } else {
                self.find_global(addr).map(|(g, _)| (self.m.globals[g as usize].addr, self.m.globals[g as usize].size))
            };
            let n = ((ty.bits() + 7) / 8) as u64;
            if let Some((base, size)) = found {
                if size >= n {
                    let k = self.a.k(64, base as u128);
                    let off = self.a.bin(Bin::Sub, e, k);
                    let um = self.a.umax(off);
                    let mut ok = um <= (size - n) as u128;
                    let mut hi = um.min((size - n) as u128) as u64;
                    if !ok {
                        let lim = self.a.k(64, (size - n) as u128);
                        let oob = self.a.cmp(Cmp::Ult, lim, off);
                        ok = self.query(st, oob)?.is_none();
                        // tighter bound on the offset
                        if ok && hi > 4096 {
                            let lim = self.a.k(64, 4095);
                            let big = self.a.cmp(Cmp::Ult, lim, off);
                            if self.query(st, big)?.is_none() { hi = 4095; }
                        }
                    }
                    if ok && hi <= 4096 {
                        let nb = 64 - hi.leading_zeros() as u16;
                        let r = self.mux(st, base, off, nb, 0, hi, ty)?;
                        if let Some(r) = r { return Ok(self.v(r)); }
                    }
                }
            }
        }
        let a = self.concretize(st, e)?;
        self.load(st, a, ty)
    }
    fn mux(&mut self, st: &State, base: u64, off: E, bit: u16, acc: u64, hi: u64, ty: &Ty) -> X<Option<E>> {
        if acc > hi { return Ok(None); }
        if bit == 0 {
            let v = self.load(st, base + acc, ty)?;
            return Ok(Some(self.e(&v, arity(ty))));
        }
        let b = self.a.ext(1, bit - 1, off);
        if let Some(k) = self.a.as_k(b) { return self.mux(st, base, off, bit - 1, acc | (k as u64) << (bit - 1), hi, ty); }
        let p = self.mux(st, base, off, bit - 1, acc | 1 << (bit - 1), hi, ty)?;
        let q = self.mux(st, base, off, bit - 1, acc, hi, ty)?;
        Ok(match (p, q) { (Some(p), Some(q)) => Some(self.a.ite(b, p, q)), (Some(p), None) => Some(p), (None, q) => q })
    }
    fn alloc(&mut self, st: &mut State, size: u64, heap: bool) -> u64 {
        let id = st.mem.push(Rc::new(Obj { data: vec![0; size as usize], sym: None, freed: false, heap }));
        (id as u64) << 32
    }
    fn free(&mut self, st: &mut State, p: u64) -> X<()> {
        if p == 0 { return Ok(()); }
        let id = (p >> 32) as usize;
        match st.mem.get(id) {
            Some(o) if p & 0xffff_ffff == 0 && !o.freed && o.heap => {}
            _ => return viol("memory", format!("invalid free of {p:#x}")),
        }
        *st.mem.slot(id) = self.freed.clone();
        Ok(())
    }

    // ------------------------------------------------------------ instructions

    #[inline]
    fn get(st: &State, o: &Op) -> V {
        match o {
            Op::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(st: &mut State, dst: u32, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if dst != NODST { fr.regs[dst as usize] = v; }
        fr.pc += 1;
    }
    fn jump(&mut self, st: &mut State, target: u32) -> X<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.block;
        let b = &self.m.funcs[fr.f as usize].blocks[target as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let Some((_, o)) = inc.iter().find(|(l, _)| *l == from) else { return err("phi") };
                let v = match o { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() };
                fr.regs[*d as usize] = v;
            } else {
                let mut vs = Vec::with_capacity(b.phis.len());
                for (_, inc) in &b.phis {
                    let Some((_, o)) = inc.iter().find(|(l, _)| *l == from) else { return err("phi") };
                    vs.push(match o { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(v) => v.clone() });
                }
                for ((d, _), v) in b.phis.iter().zip(vs) { fr.regs[*d as usize] = v; }
            }
        }
        fr.block = target;
        fr.pc = 0;
        let k = self.sh.bbase[fr.f as usize] + target;
        self.cov[k as usize] = true;
        Ok(())
    }

    fn bin(&mut self, op: Bin, ty: &Ty, a: &V, b: &V) -> X<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let w = ty.bits();
            let (x, y) = (*x, *y);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u64 { 0 } else { x << y },
                Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                _ => match bin_k(op, w as u16, x as u128, y as u128) { Some(r) => r as u64, None => return viol("memory", "division by zero") },
            };
            return Ok(V::C(mask64(r, w)));
        }
        match ty {
            Ty::Vec(_, t) => {
                let (V::A(x), V::A(y)) = (a, b) else { return err("vector operand") };
                let mut o = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) { o.push(self.bin(op, t, p, q)?); }
                Ok(V::A(o.into()))
            }
            Ty::Float(_) => err("floating point"),
            _ => {
                let w = arity(ty);
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.a.bin(op, x, y);
                Ok(self.v(r))
            }
        }
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, a: &V, b: &V) -> X<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let w = ty.bits();
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext64(x, w), sext64(y, w));
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy,
            };
            return Ok(V::C(r as u64));
        }
        if let Ty::Vec(_, t) = ty {
            let (V::A(x), V::A(y)) = (a, b) else { return err("vector operand") };
            let mut o = Vec::with_capacity(x.len());
            for (q, r) in x.iter().zip(y.iter()) { o.push(self.icmp(p, t, q, r)?); }
            return Ok(V::A(o.into()));
        }
        let w = arity(ty);
        let (x, y) = (self.e(a, w), self.e(b, w));
        let (op, x, y, neg) = match p {
            Pred::Eq => (Cmp::Eq, x, y, false), Pred::Ne => (Cmp::Eq, x, y, true),
            Pred::Ult => (Cmp::Ult, x, y, false), Pred::Uge => (Cmp::Ult, x, y, true),
            Pred::Ugt => (Cmp::Ult, y, x, false), Pred::Ule => (Cmp::Ult, y, x, true),
            Pred::Slt => (Cmp::Slt, x, y, false), Pred::Sge => (Cmp::Slt, x, y, true),
            Pred::Sgt => (Cmp::Slt, y, x, false), Pred::Sle => (Cmp::Slt, y, x, true),
        };
        let mut r = self.a.cmp(op, x, y);
        if neg { r = self.a.not(r); }
        Ok(self.v(r))
    }
    fn cast(&mut self, c: Cast, from: &Ty, v: &V, to: &Ty) -> X<V> {
        if c == Cast::Bitcast {
            if from == to || (!matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..))) { return Ok(v.clone()); }
            let e = self.flat(v, from);
            return Ok(self.unflat(e, to));
        }
        if let (V::A(xs), Ty::Vec(_, tf), Ty::Vec(_, tt)) = (v, from, to) {
            let mut o = vec![];
            for x in xs.iter() { o.push(self.cast(c, tf, x, tt)?); }
            return Ok(V::A(o.into()));
        }
        let (wf, wt) = (from.bits(), to.bits());
        if let V::C(x) = v {
            if wt <= 64 {
                return Ok(V::C(match c { Cast::Trunc => mask64(*x, wt), Cast::Zext => *x, _ => mask64(sext64(*x, wf) as u64, wt) }));
            }
        }
        let e = self.e(v, wf as u16);
        let r = match c {
            Cast::Trunc => self.a.ext(wt as u16, 0, e),
            Cast::Zext => self.a.zext(wt as u16, e),
            _ => self.a.sext(wt as u16, e),
        };
        Ok(self.v(r))
    }
    fn select(&mut self, c: &V, a: &V, b: &V, ty: &Ty, st: &mut State) -> X<V> {
        match c {
            V::C(k) => Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }),
            V::S(e) => {
                if let (V::A(x), V::A(y)) = (a, b) {
                    let mut o = vec![];
                    for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() { o.push(self.select(c, p, q, ty.field(i), st)?); }
                    return Ok(V::A(o.into()));
                }
                let w = arity(ty);
                // a choice between two lengths or places that is no choice on this path
                if let (64, V::C(p), V::C(q)) = (w, a, b) {
                    if p != q {
                        let c = self.bool_of(*e);
                        let model = st.model.clone();
                        let k = self.a.eval(c, &model) == 1;
                        let other = if k { self.a.not(c) } else { c };
                        if self.query(st, other)?.is_none() { return Ok(if k { a.clone() } else { b.clone() }); }
                    }
                }
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.a.ite(*e, x, y);
                Ok(self.v(r))
            }
            _ => err("select"),
        }
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        st.istart = st.dpos;
        let fr = st.frames.last().unwrap();
        let b = &self.m.funcs[fr.f as usize].blocks[fr.block as usize];
        let m: &'static Module = self.m;
        let _ = m;
        let Some(ins) = b.insts.get(fr.pc as usize) else { return err("fell off a block") };
        let ins: &'static Inst = unsafe { &*(ins as *const Inst) };
        let dst = ins.dst;
        match &ins.i {
            I::Nop => { Self::set(st, dst, V::C(0)); }
            I::Bin(op, ty, a, b) => {
                let (mut a, mut b) = (Self::get(st, a), Self::get(st, b));
                // a choice among a few constants is settled before it goes into a hash
                if *op == Bin::Xor && ty.bits() == 64 && !matches!(**ty, Ty::Vec(..)) {
                    for v in [&mut a, &mut b] {
                        if let V::S(e) = v { if self.a.few(*e) { *v = V::C(self.concretize(st, *e)?); } }
                    }
                }
                let r = self.bin(*op, ty, &a, &b)?;
                Self::set(st, dst, r);
            }
            I::Icmp(p, ty, a, b) => { let (a, b) = (Self::get(st, a), Self::get(st, b)); let r = self.icmp(*p, ty, &a, &b)?; Self::set(st, dst, r); }
            I::Cast(c, f, a, t) => { let a = Self::get(st, a); let r = self.cast(*c, f, &a, t)?; Self::set(st, dst, r); }
            I::Select(ty, vecc, c, a, b) => {
                let (c, a, b) = (Self::get(st, c), Self::get(st, a), Self::get(st, b));
                let r = if *vecc {
                    let (V::A(cs), V::A(xs), V::A(ys)) = (&c, &a, &b) else { return err("vector select") };
                    let t = ty.field(0).clone();
                    let mut o = vec![];
                    for i in 0..cs.len() { o.push(self.select(&cs[i], &xs[i], &ys[i], &t, st)?); }
                    V::A(o.into())
                } else { self.select(&c, &a, &b, ty, st)? };
                Self::set(st, dst, r);
            }
            I::Gep(base, off, dynm) => {
                let mut base = Self::get(st, base);
                if let V::A(_) = base { return err("vector gep"); }
                match &mut base {
                    V::C(x) => *x = x.wrapping_add(*off),
                    v => { let e = self.e(v, 64); let k = self.a.k(64, *off as u128); let r = self.a.bin(Bin::Add, e, k); *v = self.v(r); }
                }
                for (o, w, scale) in dynm {
                    let i = Self::get(st, o);
                    match (&base, &i) {
                        (V::C(x), V::C(y)) => base = V::C(x.wrapping_add((sext64(*y, *w) as u64).wrapping_mul(*scale))),
                        (_, V::A(_)) => return err("vector gep"),
                        _ => {
                            let e = self.e(&base, 64);
                            let y = self.e(&i, *w as u16);
                            let y = self.a.sext(64, y);
                            let k = self.a.k(64, *scale as u128);
                            let y = self.a.bin(Bin::Mul, y, k);
                            let r = self.a.bin(Bin::Add, e, y);
                            base = self.v(r);
                        }
                    }
                }
                Self::set(st, dst, base);
            }
            I::Load(ty, p) => {
                let r = match Self::get(st, p) {
                    V::C(a) => self.load(st, a, ty)?,
                    V::S(e) => self.load_sym(st, e, ty)?,
                    _ => return err("load address"),
                };
                Self::set(st, dst, r);
            }
            I::Store(ty, v, p) => {
                let (v, p) = (Self::get(st, v), Self::get(st, p));
                let a = self.conc(st, &p)?;
                self.store(st, a, &v, ty)?;
                Self::set(st, dst, V::C(0));
            }
            I::Alloca(n) => {
                let a = self.alloc(st, *n, false);
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push((a >> 32) as usize);
                Self::set(st, dst, V::C(a));
            }
            I::Freeze(a) => { let v = Self::get(st, a); Self::set(st, dst, v); }
            I::Br(t) => self.jump(st, *t)?,
            I::CondBr(c, t, f) => {
                let k = match Self::get(st, c) {
                    V::C(k) => k & 1 == 1,
                    V::S(e) => self.branch(st, e)?,
                    _ => return err("branch"),
                };
                self.jump(st, if k { *t } else { *f })?;
            }
            I::Switch(w, c, d, cases) => {
                let t = match Self::get(st, c) {
                    V::C(x) => cases.iter().find(|(v, _)| *v == x as u128).map(|(_, l)| *l).unwrap_or(*d),
                    V::W(x) => cases.iter().find(|(v, _)| *v == *x).map(|(_, l)| *l).unwrap_or(*d),
                    V::S(e) => {
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut any = self.a.k(1, 0);
                        for (v, l) in cases {
                            let k = self.a.k(*w as u16, *v);
                            let c = self.a.cmp(Cmp::Eq, e, k);
                            any = self.a.or(any, c);
                            match groups.iter_mut().find(|g| g.0 == *l) {
                                Some(g) => g.1 = self.a.or(g.1, c),
                                None => groups.push((*l, c)),
                            }
                        }
                        let dn = self.a.not(any);
                        match groups.iter_mut().find(|g| g.0 == *d) {
                            Some(g) => g.1 = self.a.or(g.1, dn),
                            None => groups.push((*d, dn)),
                        }
                        let cs: Vec<E> = groups.iter().map(|g| g.1).collect();
                        let k = self.decide(st, &cs)?;
                        groups[k].0
                    }
                    _ => return err("switch"),
                };
                self.jump(st, t)?;
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| Self::get(st, o)).unwrap_or(V::C(0));
                self.ret(st, v)?;
            }
            I::Extract(a, idx) => {
                let mut v = Self::get(st, a);
                for i in idx { let V::A(xs) = &v else { return err("extractvalue") }; let n = xs[*i as usize].clone(); v = n; }
                Self::set(st, dst, v);
            }
            I::Insert(_, a, b, idx) => {
                let (a, b) = (Self::get(st, a), Self::get(st, b));
                fn ins(a: &V, b: &V, idx: &[u32]) -> Option<V> {
                    if idx.is_empty() { return Some(b.clone()); }
                    let V::A(xs) = a else { return None };
                    let mut ys = xs.to_vec();
                    ys[idx[0] as usize] = ins(&xs[idx[0] as usize], b, &idx[1..])?;
                    Some(V::A(ys.into()))
                }
                let Some(r) = ins(&a, &b, idx) else { return err("insertvalue") };
                Self::set(st, dst, r);
            }
            I::ExtractElt(a, i) => {
                let (a, i) = (Self::get(st, a), Self::get(st, i));
                let i = self.conc(st, &i)? as usize;
                let V::A(xs) = &a else { return err("extractelement") };
                let r = xs[i].clone();
                Self::set(st, dst, r);
            }
            I::InsertElt(_, a, b, i) => {
                let (a, b, i) = (Self::get(st, a), Self::get(st, b), Self::get(st, i));
                let i = self.conc(st, &i)? as usize;
                let V::A(xs) = &a else { return err("insertelement") };
                let mut ys = xs.to_vec();
                ys[i] = b;
                Self::set(st, dst, V::A(ys.into()));
            }
            I::Shuffle(n, a, b, mask) => {
                let (a, b) = (Self::get(st, a), Self::get(st, b));
                let (V::A(xs), V::A(ys)) = (&a, &b) else { return err("shufflevector") };
                let r: Vec<V> = mask.iter().map(|k| {
                    let k = *k as u64 & 0xffff_ffff;
                    if k < *n { xs[k as usize].clone() } else if k - n < ys.len() as u64 { ys[(k - n) as usize].clone() } else { V::C(0) }
                }).collect();
                Self::set(st, dst, V::A(r.into()));
            }
            I::Rmw(op, ty, p, v) => {
                let (p, v) = (Self::get(st, p), Self::get(st, v));
                let a = self.conc(st, &p)?;
                let old = self.load(st, a, ty)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Bin::Add, ty, &old, &v)?,
                    "sub" => self.bin(Bin::Sub, ty, &old, &v)?,
                    "and" => self.bin(Bin::And, ty, &old, &v)?,
                    "or" => self.bin(Bin::Or, ty, &old, &v)?,
                    "xor" => self.bin(Bin::Xor, ty, &old, &v)?,
                    "max" | "min" | "umax" | "umin" => {
                        let p = match op.as_str() { "max" => Pred::Sgt, "min" => Pred::Slt, "umax" => Pred::Ugt, _ => Pred::Ult };
                        let w = arity(ty);
                        match self.icmp(p, ty, &old, &v)? {
                            V::C(1) => old.clone(),
                            V::C(_) => v,
                            c => { let c = self.e(&c, 1); let (x, y) = (self.e(&old, w), self.e(&v, w)); let r = self.a.ite(c, x, y); self.v(r) }
                        }
                    }
                    "nand" => {
                        let w = arity(ty);
                        let x = self.bin(Bin::And, ty, &old, &v)?;
                        let x = self.e(&x, w);
                        let f = self.a.k(w, u128::MAX);
                        let r = self.a.bin(Bin::Xor, x, f);
                        self.v(r)
                    }
                    o => return err(format!("atomicrmw {o}")),
                };
                self.store(st, a, &new, ty)?;
                Self::set(st, dst, old);
            }
            I::Cmpxchg(ty, p, c, n) => {
                let (p, c, n) = (Self::get(st, p), Self::get(st, c), Self::get(st, n));
                let a = self.conc(st, &p)?;
                let old = self.load(st, a, ty)?;
                let eq = self.icmp(Pred::Eq, ty, &old, &c)?;
                let k = match &eq { V::C(k) => *k == 1, V::S(e) => self.branch(st, *e)?, _ => return err("cmpxchg") };
                if k { self.store(st, a, &n, ty)?; }
                Self::set(st, dst, V::A(vec![old, V::C(k as u64)].into()));
            }
            I::Unreachable => return viol("unreachable", "unreachable code reached"),
            I::Unsupported(s) => {
                if s == "cpuid" { let z = V::A(vec![V::C(0); 4].into()); Self::set(st, dst, z); }
                else { return err(format!("unsupported instruction: {s}")); }
            }
            I::Call { callee, args, ret, normal } => {
                let f = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let v = Self::get(st, o);
                        let a = self.conc(st, &v)?;
                        if a < FUNC_BASE || a >= GLOBAL_BASE || a % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 { return viol("memory", format!("call of invalid function pointer {a:#x}")); }
                        ((a - FUNC_BASE) / 16) as u32
                    }
                };
                let fun = &self.m.funcs[f as usize];
                if fun.is_panic { let d = self.panic_text(st); return viol("panic", d); }
                if fun.builtin != 0 {
                    let vs: Vec<V> = args.iter().map(|(_, o)| Self::get(st, o)).collect();
                    let r = self.builtin(st, fun.builtin, &vs, args, ret)?;
                    let n = *normal;
                    Self::set(st, dst, r);
                    if let Some(n) = n { self.jump(st, n)?; }
                    return Ok(());
                }
                if !fun.defined { return err(format!("call of external function {}", fun.name)); }
                if st.frames.len() > 400 { return viol("hang", "call depth limit"); }
                let mut regs = vec![V::C(0); fun.nregs as usize];
                for ((_, o), p) in args.iter().zip(&fun.params) { regs[*p as usize] = Self::get(st, o); }
                let fr = Frame { f, block: 0, pc: 0, regs, dst, normal: *normal, allocas: vec![] };
                st.frames.push(Rc::new(fr));
                let k = self.sh.bbase[f as usize];
                self.cov[k as usize] = true;
            }
        }
        Ok(())
    }

    fn panic_text(&self, st: &State) -> String {
        // the innermost non-library source position
        for s in self.stack_of(st) {
            if !s.contains("/rustc/") && !s.contains("/library/") && s.contains(" at ") { return format!("panic in {s}"); }
        }
        "panic".into()
    }

    fn ret(&mut self, st: &mut State, v: V) -> X<()> {
        let fr = st.frames.pop().unwrap();
        for id in &fr.allocas { *st.mem.slot(*id) = self.freed.clone(); }
        if st.frames.is_empty() { return Err(Stop::Done); }
        Self::set(st, fr.dst, v);
        if let Some(n) = fr.normal { self.jump(st, n)?; }
        Ok(())
    }

    fn per_elt(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &Ty, &V, &V) -> X<V>) -> X<V> {
        if let (Ty::Vec(_, t), V::A(x), V::A(y)) = (ty, a, b) {
            let mut o = vec![];
            for (p, q) in x.iter().zip(y.iter()) { o.push(f(self, t, p, q)?); }
            return Ok(V::A(o.into()));
        }
        f(self, ty, a, b)
    }

    fn fresh(&mut self, st: &mut State, w: u16) -> V {
        let i = st.nvars;
        st.nvars += 1;
        st.inputs.push(Inp::Sym(i, w));
        let e = self.a.var(w, i);
        V::S(e)
    }

    fn builtin(&mut self, st: &mut State, id: u16, v: &[V], args: &'static [(Arc<Ty>, Op)], ret: &Ty) -> X<V> {
        let ty = |i: usize| -> &'static Ty { &args[i].0 };
        Ok(match id {
            1 => {
                let n = self.conc(st, &v[2])?;
                if n == 0 { return Ok(v[0].clone()); }
                let d = self.conc(st, &v[0])?;
                let s = self.conc(st, &v[1])?;
                let mut b = Vec::with_capacity(n.min(1 << 20) as usize);
                self.bytes(st, s, n, &mut b)?;
                self.write_bytes(st, d, &b)?;
                V::C(d)
            }
            2 => {
                let n = self.conc(st, &v[2])?;
                if n == 0 { return Ok(v[0].clone()); }
                let d = self.conc(st, &v[0])?;
                let x = match &v[1] { V::C(x) => (*x as u32 & 0xff) | 0x8000_0000, V::S(e) => { let e = self.a.ext(8, 0, *e); match self.a.as_k(e) { Some(k) => k as u32 | 0x8000_0000, None => e } } _ => return err("memset") };
                if n > 1 << 28 { return viol("memory", "huge memset"); }
                self.write_bytes(st, d, &vec![x; n as usize])?;
                V::C(d)
            }
            3..=6 => {
                let p = [Pred::Ult, Pred::Ugt, Pred::Slt, Pred::Sgt][id as usize - 3];
                self.per_elt(ty(0), &v[0], &v[1], &mut |w, t, a, b| {
                    if let (V::C(_), V::C(_)) = (a, b) { return Ok(match w.icmp(p, t, a, b)? { V::C(1) => a.clone(), _ => b.clone() }); }
                    let c = w.icmp(p, t, a, b)?;
                    let c = w.e(&c, 1);
                    let (x, y) = (w.e(a, arity(t)), w.e(b, arity(t)));
                    let r = w.a.ite(c, x, y);
                    Ok(w.v(r))
                })?
            }
            7..=12 => {
                let w = arity(ty(0));
                let signed = id >= 10;
                let op = [Bin::Add, Bin::Sub, Bin::Mul][(id as usize - 7) % 3];
                if let (V::C(x), V::C(y)) = (&v[0], &v[1]) {
                    let (r, o) = if signed {
                        let (x, y) = (sext64(*x, w as u32) as i128, sext64(*y, w as u32) as i128);
                        let r = match op { Bin::Add => x + y, Bin::Sub => x - y, _ => x * y };
                        let t = mask64(r as u64, w as u32);
                        (t, sext64(t, w as u32) as i128 != r)
                    } else {
                        let (x, y) = (*x as u128, *y as u128);
                        let r = match op { Bin::Add => x + y, Bin::Sub => x.wrapping_sub(y), _ => x * y };
                        let t = mask64(r as u64, w as u32);
                        (t, t as u128 != r)
                    };
                    return Ok(V::A(vec![V::C(r), V::C(o as u64)].into()));
                }
                let (x, y) = (self.e(&v[0], w), self.e(&v[1], w));
                let r = self.a.bin(op, x, y);
                let w2 = match op { Bin::Mul => 2 * w, _ => w + 1 };
                if w2 > 128 { return err("overflow check wider than 128 bits"); }
                let o = if !signed && op == Bin::Sub { self.a.cmp(Cmp::Ult, x, y) } else {
                    let (p, q) = if signed { (self.a.sext(w2, x), self.a.sext(w2, y)) } else { (self.a.zext(w2, x), self.a.zext(w2, y)) };
                    let full = self.a.bin(op, p, q);
                    if signed { let back = self.a.sext(w2, r); let e = self.a.cmp(Cmp::Eq, full, back); self.a.not(e) }
                    else { let k = self.a.k(w2, m(w)); self.a.cmp(Cmp::Ult, k, full) }
                };
                V::A(vec![self.v(r), self.v(o)].into())
            }
            13 | 14 => self.per_elt(ty(0), &v[0], &v[1], &mut |s, t, a, b| {
                let w = arity(t);
                let (x, y) = (s.e(a, w), s.e(b, w));
                let r = if id == 14 {
                    let lt = s.a.cmp(Cmp::Ult, x, y);
                    let d = s.a.bin(Bin::Sub, x, y);
                    let z = s.a.k(w, 0);
                    s.a.ite(lt, z, d)
                } else {
                    let d = s.a.bin(Bin::Add, x, y);
                    let o = s.a.cmp(Cmp::Ult, d, x);
                    let f = s.a.k(w, u128::MAX);
                    s.a.ite(o, f, d)
                };
                Ok(s.v(r))
            })?,
            45 | 46 => self.per_elt(ty(0), &v[0], &v[1], &mut |s, t, a, b| {
                let w = arity(t);
                if w > 64 { return err("wide saturating arithmetic"); }
                let (x, y) = (s.e(a, w), s.e(b, w));
                let (p, q) = (s.a.sext(w + 1, x), s.a.sext(w + 1, y));
                let r = s.a.bin(if id == 45 { Bin::Add } else { Bin::Sub }, p, q);
                let (hi, lo) = (s.a.ext(1, w, r), s.a.ext(1, w - 1, r));
                let (maxv, minv) = (s.a.k(w, (1u128 << (w - 1)) - 1), s.a.k(w, 1u128 << (w - 1)));
                let lim = s.a.ite(hi, minv, maxv);
                let same = s.a.cmp(Cmp::Eq, hi, lo);
                let low = s.a.ext(w, 0, r);
                let r = s.a.ite(same, low, lim);
                Ok(s.v(r))
            })?,
            15 | 16 => {
                let w = arity(ty(0));
                if matches!(ty(0), Ty::Vec(..)) { return err("vector funnel shift"); }
                let (a, b, c) = (self.e(&v[0], w), self.e(&v[1], w), self.e(&v[2], w));
                let Some(k) = self.a.as_k(c) else {
                    if w > 64 || !w.is_power_of_two() { return err("symbolic funnel shift") }
                    // (a:b) shifted by c mod w, in twice the width
                    let lim = self.a.k(w, w as u128 - 1);
                    let c = self.a.bin(Bin::And, c, lim);
                    let c = self.a.zext(2 * w, c);
                    let x = self.a.cat(a, b);
                    let r = if id == 15 { let x = self.a.bin(Bin::Shl, x, c); self.a.ext(w, w, x) } else { let x = self.a.bin(Bin::LShr, x, c); self.a.ext(w, 0, x) };
                    return Ok(self.v(r));
                };
                let k = (k % w as u128) as u16;
                let k = if id == 15 { k } else { w - k };
                // fshl by k: high w bits of (a:b) << k
                let r = if k == 0 { a } else if k == w { b } else { let h = self.a.ext(w - k, 0, a); let l = self.a.ext(k, w - k, b); self.a.cat(h, l) };
                self.v(r)
            }
            17..=19 => {
                if let (V::A(xs), Ty::Vec(_, t)) = (&v[0], ty(0)) {
                    let w = arity(t);
                    let mut o = vec![];
                    for x in xs.iter() { let e = self.e(x, w); let r = self.count(id, e); o.push(self.v(r)); }
                    return Ok(V::A(o.into()));
                }
                let w = arity(ty(0));
                let e = self.e(&v[0], w);
                let r = self.count(id, e);
                self.v(r)
            }
            20 | 21 => {
                let w = arity(ty(0));
                let e = self.e(&v[0], w);
                let g = if id == 20 { 8 } else { 1 };
                let mut r: Option<E> = None;
                for i in 0..w / g {
                    let x = self.a.ext(g, i * g, e);
                    r = Some(match r { None => x, Some(h) => self.a.cat(h, x) });
                }
                self.v(r.unwrap())
            }
            22 => {
                let w = arity(ty(0));
                let e = self.e(&v[0], w);
                let z = self.a.k(w, 0);
                let n = self.a.bin(Bin::Sub, z, e);
                let c = self.a.cmp(Cmp::Slt, e, z);
                let r = self.a.ite(c, n, e);
                self.v(r)
            }
            23 | 24 => {
                let w = arity(ty(0));
                let rw = arity(ret);
                let (x, y) = (self.e(&v[0], w), self.e(&v[1], w));
                let op = if id == 23 { Cmp::Ult } else { Cmp::Slt };
                let lt = self.a.cmp(op, x, y);
                let gt = self.a.cmp(op, y, x);
                let (m1, p1, z) = (self.a.k(rw, u128::MAX), self.a.k(rw, 1), self.a.k(rw, 0));
                let t = self.a.ite(gt, p1, z);
                let r = self.a.ite(lt, m1, t);
                self.v(r)
            }
            25 => {
                let (p, o) = (self.conc(st, &v[0])?, v[1].clone());
                let a = match o {
                    V::C(x) => V::C(p.wrapping_add(x)),
                    v => { let e = self.e(&v, 64); let k = self.a.k(64, p as u128); let r = self.a.bin(Bin::Add, e, k); self.v(r) }
                };
                let t = Ty::Int(32);
                let x = match a { V::C(a) => self.load(st, a, &t)?, V::S(e) => self.load_sym(st, e, &t)?, _ => return err("load.relative") };
                match x {
                    V::C(x) => V::C(p.wrapping_add(sext64(x, 32) as u64)),
                    v => { let e = self.e(&v, 32); let e = self.a.sext(64, e); let k = self.a.k(64, p as u128); let r = self.a.bin(Bin::Add, e, k); self.v(r) }
                }
            }
            26 | 29 => v[0].clone(),
            27 => V::C(0),
            28 => V::C(0),
            30..=35 => {
                let Ty::Vec(_, t) = ty(0) else { return err("vector.reduce") };
                let V::A(xs) = &v[0] else { return err("vector.reduce") };
                let w = arity(t);
                let mut r = self.e(&xs[0], w);
                for x in xs.iter().skip(1) {
                    let y = self.e(x, w);
                    r = match id {
                        30 => self.a.bin(Bin::Add, r, y), 31 => self.a.bin(Bin::Or, r, y), 32 => self.a.bin(Bin::And, r, y), 35 => self.a.bin(Bin::Xor, r, y),
                        33 => { let c = self.a.cmp(Cmp::Ult, r, y); self.a.ite(c, y, r) }
                        _ => { let c = self.a.cmp(Cmp::Ult, r, y); self.a.ite(c, r, y) }
                    };
                }
                self.v(r)
            }
            36 | 129 => { let d = self.panic_text(st); return viol("panic", format!("abort: {d}")); }
            37 => self.bin(Bin::And, &Ty::Int(64), &v[0], &v[1])?,
            38 => V::C(u64::MAX),
            39 => {
                let V::A(xs) = &v[0] else { return err("pmovmskb") };
                let xs = xs.clone();
                let mut r: Option<E> = None;
                for x in xs.iter() {
                    let e = self.e(x, 8);
                    let b = self.a.ext(1, 7, e);
                    r = Some(match r { None => b, Some(l) => self.a.cat(b, l) });
                }
                let r = self.a.zext(32, r.unwrap());
                self.v(r)
            }
            // ---- harness interface
            100 => self.fresh(st, 8),
            101 => self.fresh(st, 16),
            102 => self.fresh(st, 32),
            103 => self.fresh(st, 64),
            104 => {
                let n = self.conc(st, &v[0])?;
                if n == 0 { return err("__sx_choice(0)"); }
                let k = if n == 1 { 0 } else if st.dpos < st.dec.len() {
                    st.dpos += 1;
                    st.dec[st.dpos - 1].0
                } else {
                    for j in (1..n).rev() { self.fork(st, (j, true), &[]); }
                    st.dec.push((0, true));
                    st.dpos += 1;
                    0
                };
                st.inputs.push(Inp::Con(k));
                V::C(k)
            }
            105 => {
                match &v[0] {
                    V::C(k) => if k & 1 == 0 { return Err(Stop::Kill); },
                    V::S(e) => {
                        let e = self.bool_of(*e);
                        let model = st.model.clone();
                        if self.a.eval(e, &model) != 1 {
                            match self.query(st, e)? {
                                Some(vals) => st.model = Self::merge_model(&model, &vals),
                                None => return Err(Stop::Kill),
                            }
                        }
                        self.add_pc(st, e);
                    }
                    _ => return err("__sx_assume"),
                }
                V::C(0)
            }
            106 => {
                let id = self.conc(st, &v[1])?;
                let en = st.entry as usize;
                match &v[0] {
                    V::C(k) => {
                        self.ent[en].checks += 1;
                        if k & 1 == 0 { return viol("check", id.to_string()); }
                    }
                    V::S(e) => {
                        let e = self.bool_of(*e);
                        if st.dpos >= st.dec.len() {
                            self.ent[en].checks += 1;
                            self.ent[en].sym_checks += 1;
                            let n = self.a.not(e);
                            // an assertion is always the solver's to decide
                            if let Some(vals) = self.ask(st, n, false)? {
                                let model = Self::merge_model(&st.model.clone(), &vals);
                                self.report(st, &model, "check".into(), id.to_string());
                            }
                        }
                        let model = st.model.clone();
                        if self.a.eval(e, &model) != 1 {
                            match self.query(st, e)? {
                                Some(vals) => st.model = Self::merge_model(&model, &vals),
                                None => return Err(Stop::Kill),
                            }
                        }
                        self.add_pc(st, e);
                    }
                    _ => return err("__sx_check"),
                }
                V::C(0)
            }
            107 => {
                let id = self.conc(st, &v[0])? as u32;
                if st.dpos >= st.dec.len() { *self.ent[st.entry as usize].covers.entry(id).or_default() += 1; }
                V::C(0)
            }
            108 => {
                let n = self.conc(st, &v[1])?;
                if n > 0 {
                    let p = self.conc(st, &v[0])?;
                    let mut b = vec![];
                    self.bytes(st, p, n, &mut b)?;
                    Rc::make_mut(&mut st.trace).extend(b);
                }
                V::C(0)
            }
            109 => V::C(self.sh.opt.tier),
            // concretise a value
            110 => { let x = self.conc(st, &v[0])?; V::C(x) }
            111 => return err("harness error"),
            // ---- libc
            120 => { let n = self.conc(st, &v[0])?; if n > 1 << 28 { return viol("memory", format!("allocation of {n} bytes")); } V::C(self.alloc(st, n, true)) }
            121 => { let n = self.conc(st, &v[0])?; let k = self.conc(st, &v[1])?; let n = n.saturating_mul(k); if n > 1 << 28 { return viol("memory", format!("allocation of {n} bytes")); } V::C(self.alloc(st, n, true)) }
            122 => {
                let n = self.conc(st, &v[1])?;
                let p = self.conc(st, &v[0])?;
                if n > 1 << 28 { return viol("memory", format!("allocation of {n} bytes")); }
                if p == 0 { return Ok(V::C(self.alloc(st, n, true))); }
                let (old, len) = match st.mem.get((p >> 32) as usize) {
                    Some(o) if p & 0xffff_ffff == 0 && !o.freed && o.heap => (o.clone(), o.data.len() as u64),
                    _ => return viol("memory", "invalid realloc"),
                };
                let k = len.min(n) as usize;
                let mut o = Obj { data: vec![0; n as usize], sym: None, freed: false, heap: true };
                o.data[..k].copy_from_slice(&old.data[..k]);
                if let Some(s) = &old.sym { let mut t = s[..k].to_vec(); t.resize(n as usize, 0); o.sym = Some(t); }
                drop(old);
                self.free(st, p)?;
                let id = st.mem.push(Rc::new(o));
                V::C((id as u64) << 32)
            }
            123 => { let p = self.conc(st, &v[0])?; self.free(st, p)?; V::C(0) }
            124 => {
                let n = self.conc(st, &v[2])?;
                let d = self.conc(st, &v[0])?;
                let a = self.alloc(st, n, true);
                self.store(st, d, &V::C(a), &Ty::Ptr)?;
                V::C(0)
            }
            125 => { let n = self.conc(st, &v[1])?; V::C(self.alloc(st, n, true)) }
            126 | 127 => {
                let n = self.conc(st, &v[2])?;
                if n == 0 { return Ok(V::C(0)); }
                let p = self.conc(st, &v[0])?;
                let q = self.conc(st, &v[1])?;
                let (mut x, mut y) = (vec![], vec![]);
                self.bytes(st, p, n, &mut x)?;
                self.bytes(st, q, n, &mut y)?;
                let rw = 32;
                let mut r = self.a.k(rw, 0);
                let one = self.a.k(rw, 1);
                let m1 = self.a.k(rw, u128::MAX);
                for (a, b) in x.iter().zip(&y).rev() {
                    if a == b { continue; }
                    let ea = if a & 0x8000_0000 != 0 { self.a.k(8, (*a & 0xff) as u128) } else { *a };
                    let eb = if b & 0x8000_0000 != 0 { self.a.k(8, (*b & 0xff) as u128) } else { *b };
                    let eq = self.a.cmp(Cmp::Eq, ea, eb);
                    let ne = if id == 127 { one } else { let lt = self.a.cmp(Cmp::Ult, ea, eb); self.a.ite(lt, m1, one) };
                    r = self.a.ite(eq, r, ne);
                }
                self.v(r)
            }
            128 => {
                let p = self.conc(st, &v[0])?;
                let mut n = 0;
                loop { match self.load_c(st, p + n, 1) { Some(0) => break, Some(_) => n += 1, None => return err("strlen") } }
                V::C(n)
            }
            130 => {
                // fixed bytes: hash seeds
                let p = self.conc(st, &v[0])?;
                let n = self.conc(st, &v[1])?;
                let b: Vec<u32> = (0..n).map(|i| ((i as u32).wrapping_mul(37).wrapping_add(11) & 0xff) | 0x8000_0000).collect();
                self.write_bytes(st, p, &b)?;
                V::C(n)
            }
            131 | 133 => V::C(0),
            // a clock that moves by a microsecond at each reading
            141 => {
                let p = self.conc(st, &v[1])?;
                st.clock += 1000;
                let mut b: Vec<u32> = vec![];
                for x in [1_790_000_000u64, st.clock] { for i in 0..8 { b.push((x >> (8 * i)) as u32 & 0xff | 0x8000_0000); } }
                self.write_bytes(st, p, &b)?;
                V::C(0)
            }
            142 => {
                let p = self.conc(st, &v[0])?;
                let k = st.keys.len() as u32;
                Rc::make_mut(&mut st.keys).push(V::C(0));
                let b: Vec<u32> = (0..4).map(|i| (k >> (8 * i)) & 0xff | 0x8000_0000).collect();
                self.write_bytes(st, p, &b)?;
                V::C(0)
            }
            143 | 144 => {
                let k = self.conc(st, &v[0])? as usize;
                if k >= st.keys.len() { return viol("memory", "use of an invalid thread key"); }
                if id == 143 { st.keys[k].clone() } else { Rc::make_mut(&mut st.keys)[k] = v[1].clone(); V::C(0) }
            }
            134 => v[2].clone(),
            140 => {
                let n = self.conc(st, &v[2])?;
                let p = self.conc(st, &v[0])?;
                let mut x = vec![];
                self.bytes(st, p, n, &mut x)?;
                let c = self.e(&v[1], 32);
                let c = self.a.ext(8, 0, c);
                let mut r = self.a.k(64, 0);
                for (i, b) in x.iter().enumerate().rev() {
                    let eb = if b & 0x8000_0000 != 0 { self.a.k(8, (*b & 0xff) as u128) } else { *b };
                    let eq = self.a.cmp(Cmp::Eq, eb, c);
                    let k = self.a.k(64, (p + i as u64) as u128);
                    r = self.a.ite(eq, k, r);
                }
                self.v(r)
            }
            135 => {
                let nr = self.conc(st, &v[0])?;
                if nr == 318 {
                    let p = self.conc(st, &v[1])?;
                    let n = self.conc(st, &v[2])?;
                    let b: Vec<u32> = (0..n).map(|i| ((i as u32).wrapping_mul(37).wrapping_add(11) & 0xff) | 0x8000_0000).collect();
                    self.write_bytes(st, p, &b)?;
                    V::C(n)
                } else { return err(format!("syscall {nr}")); }
            }
            k => return err(format!("builtin {k} ({})", self.nth)),
        })
    }
    fn bool_of(&mut self, e: E) -> E {
        let w = self.a.w(e);
        if w == 1 { e } else { self.a.ext(1, 0, e) }
    }
    fn count(&mut self, id: u16, e: E) -> E {
        let w = self.a.w(e);
        if let Some(x) = self.a.as_k(e) {
            let r = match id {
                17 => x.count_ones(),
                18 => if x == 0 { w as u32 } else { x.leading_zeros() - (128 - w as u32) },
                _ => if x == 0 { w as u32 } else { x.trailing_zeros() },
            };
            return self.a.k(w, r as u128);
        }
        match id {
            17 => {
                let mut r = self.a.k(w, 0);
                for i in 0..w { let b = self.a.ext(1, i, e); let b = self.a.zext(w, b); r = self.a.bin(Bin::Add, r, b); }
                r
            }
            18 => {
                let mut r = self.a.k(w, w as u128);
                for i in 0..w { let b = self.a.ext(1, i, e); let k = self.a.k(w, (w - 1 - i) as u128); r = self.a.ite(b, k, r); }
                r
            }
            _ => {
                let mut r = self.a.k(w, w as u128);
                for i in (0..w).rev() { let b = self.a.ext(1, i, e); let k = self.a.k(w, i as u128); r = self.a.ite(b, k, r); }
                r
            }
        }
    }
}

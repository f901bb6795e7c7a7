//! LLVM IR (textual) loader: lexer, parser, constant resolution.
//!
//! Only the subset that rustc emits is accepted; anything not understood inside a function body
//! becomes an `Unsupported` instruction, which is an engine error if a path ever reaches it.

use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                if b <= 1 { 1 } else { b.next_power_of_two() }
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match &**t {
                Ty::Int(w) => ((n * *w as u64) + 7) / 8,
                t => n * t.size(),
            },
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                for f in fs {
                    let a = if *packed { 1 } else { f.align() };
                    al = al.max(a);
                    off = (off + a - 1) / a * a + f.size();
                }
                (off + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) => self.size().min(16).max(1),
            Ty::Ptr => 8,
            Ty::Float(w) => (*w / 8) as u64,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => {
                if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (k, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { f.align() };
                    off = (off + a - 1) / a * a;
                    if k == i { return off; }
                    off += f.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off on scalar"),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(fs, _) => &fs[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("field on scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    /// Bit width of a scalar.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => 0,
        }
    }
}

/// Run-time value. `C`: concrete, up to 64 bits. `W`: concrete, 65 to 128 bits. `S`: symbolic.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(u32),
    W(Arc<u128>),
    A(Arc<[V]>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, Zext, Sext, Bitcast }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Op) }

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Arc<Ty>, Op, Op),
    Icmp(Pred, Arc<Ty>, Op, Op),
    Cast(Cast, Arc<Ty>, Op, Arc<Ty>),
    Select(Arc<Ty>, bool, Op, Op, Op),
    Gep(Op, u64, Vec<(Op, u32, u64)>),
    Load(Arc<Ty>, Op),
    Store(Arc<Ty>, Op, Op),
    Alloca(u64),
    Call { callee: Callee, args: Vec<(Arc<Ty>, Op)>, ret: Arc<Ty>, normal: Option<u32> },
    Extract(Op, Vec<u32>),
    Insert(Arc<Ty>, Op, Op, Vec<u32>),
    ExtractElt(Op, Op),
    InsertElt(Arc<Ty>, Op, Op, Op),
    Shuffle(u64, Op, Op, Vec<i64>),
    Rmw(String, Arc<Ty>, Op, Op),
    Cmpxchg(Arc<Ty>, Op, Op, Op),
    Freeze(Op),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub i: I, pub dbg: u32 }
pub const NODST: u32 = u32::MAX;

#[derive(Clone, Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Op)>)>, pub insts: Vec<Inst> }

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub is_panic: bool,
    pub builtin: u16,
}

pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub data: Arc<Vec<u8>>, pub constant: bool }

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>, // sorted by address
    pub dbg: DebugInfo,
}

pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const FUNC_BASE: u64 = 0x0800_0000;

#[derive(Default)]
pub struct DebugInfo {
    loc: HashMap<u32, (u32, u32, u32)>,     // id -> line, scope, inlinedAt
    scope: HashMap<u32, (u32, u32)>,        // block -> parent scope, file
    sub: HashMap<u32, (String, u32)>,       // subprogram -> name, file
    file: HashMap<u32, String>,
}
impl DebugInfo {
    /// (file, line, function) chain from innermost to outermost inlined frame.
    pub fn chain(&self, id: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut cur = id;
        while let Some(&(line, scope, inl)) = self.loc.get(&cur) {
            let mut s = scope;
            let mut file = None;
            let mut name = String::new();
            for _ in 0..64 {
                if let Some((n, f)) = self.sub.get(&s) {
                    name = n.clone();
                    if file.is_none() { file = Some(*f); }
                    break;
                }
                match self.scope.get(&s) {
                    Some(&(p, f)) => {
                        if file.is_none() && f != 0 { file = Some(f); }
                        s = p;
                    }
                    None => break,
                }
            }
            let fname = file.and_then(|f| self.file.get(&f)).cloned().unwrap_or_default();
            out.push((fname, line, name));
            if inl == 0 || out.len() > 40 { break; }
            cur = inl;
        }
        out
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Local, Global, Ident, Int, Str, CStr, Punct, Meta, Attr, Label, Float, Comdat }
#[derive(Clone, Copy, Debug)]
struct Tok<'a> { k: K, s: &'a str, bol: bool, col0: bool }

fn is_name(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'-' | b'$' | b'.' | b'_') }

fn lex<'a>(src: &'a str, dbg: &mut DebugInfo) -> Vec<Tok<'a>> {
    let mut v = Vec::with_capacity(src.len() / 5);
    for line in src.lines() {
        let b = line.as_bytes();
        if b.is_empty() { continue; }
        if b[0] == b'!' { parse_meta(line, dbg); continue; }
        if line.starts_with("attributes ") || line.starts_with("target ") || line.starts_with("source_filename") || line.starts_with("module asm") || line.starts_with("$") {
            continue;
        }
        let mut i = 0;
        let mut bol = true;
        while i < b.len() {
            let c = b[i];
            if c == b' ' || c == b'\t' { i += 1; continue; }
            if c == b';' { break; }
            let st = i;
            let bol0 = bol;
            let mut push = |k: K, s: &'a str, st: usize| {
                v.push(Tok { k, s, bol, col0: st == 0 });
                bol = false;
            };
            match c {
                b'%' | b'@' | b'$' => {
                    let k = match c { b'%' => K::Local, b'@' => K::Global, _ => K::Comdat };
                    if i + 1 < b.len() && b[i + 1] == b'"' {
                        let mut j = i + 2;
                        while b[j] != b'"' { j += 1; }
                        push(k, &line[i + 2..j], st);
                        i = j + 1;
                    } else {
                        let mut j = i + 1;
                        while j < b.len() && is_name(b[j]) { j += 1; }
                        push(k, &line[i + 1..j], st);
                        i = j;
                    }
                }
                b'!' => {
                    let mut j = i + 1;
                    while j < b.len() && is_name(b[j]) { j += 1; }
                    push(K::Meta, &line[i + 1..j], st);
                    i = j;
                }
                b'#' => {
                    if line[i..].starts_with("#dbg_") { break; }
                    let mut j = i + 1;
                    while j < b.len() && b[j].is_ascii_digit() { j += 1; }
                    push(K::Attr, &line[i..j], st);
                    i = j;
                }
                b'"' => {
                    let mut j = i + 1;
                    while b[j] != b'"' { j += 1; }
                    let s = &line[i + 1..j];
                    i = j + 1;
                    if i < b.len() && b[i] == b':' && bol0 {
                        push(K::Label, s, st);
                        i += 1;
                    } else {
                        push(K::Str, s, st);
                    }
                }
                b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                    let mut j = i + 2;
                    while b[j] != b'"' { j += 1; }
                    push(K::CStr, &line[i + 2..j], st);
                    i = j + 1;
                }
                _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && (b[i + 1].is_ascii_digit())) => {
                    let mut j = i + 1;
                    while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || (b[j] == b'+' && b[j - 1] == b'e') || (b[j]==b'-' && b[j-1]==b'e')) { j += 1; }
                    let s = &line[i..j];
                    i = j;
                    if bol0 && st == 0 && i < b.len() && b[i] == b':' {
                        push(K::Label, s, st);
                        i += 1;
                    } else if s.contains('.') || s.starts_with("0x") {
                        push(K::Float, s, st);
                    } else {
                        push(K::Int, s, st);
                    }
                }
                _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || (c == b'-' && bol0) => {
                    if line[i..].starts_with("...") { push(K::Punct, "...", st); i += 3; continue; }
                    let mut j = i + 1;
                    while j < b.len() && is_name(b[j]) { j += 1; }
                    let s = &line[i..j];
                    i = j;
                    if bol0 && st == 0 && i < b.len() && b[i] == b':' {
                        push(K::Label, s, st);
                        i += 1;
                    } else {
                        push(K::Ident, s, st);
                    }
                }
                _ => { push(K::Punct, &line[i..i + 1], st); i += 1; }
            }
        }
    }
    v
}

fn meta_ref(s: &str, key: &str) -> u32 {
    let pat = key;
    let mut from = 0;
    while let Some(p) = s[from..].find(pat) {
        let q = from + p;
        if q == 0 || !s.as_bytes()[q - 1].is_ascii_alphanumeric() {
            let r = &s[q + pat.len()..];
            let r = r.trim_start().trim_start_matches('!');
            let n: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
            return n.parse().unwrap_or(0);
        }
        from = q + pat.len();
    }
    0
}
fn meta_str(s: &str, key: &str) -> String {
    if let Some(p) = s.find(key) {
        let r = &s[p + key.len()..];
        if let Some(q) = r.find('"') { return r[..q].to_string(); }
    }
    String::new()
}

fn parse_meta(line: &str, d: &mut DebugInfo) {
    let Some(eq) = line.find(" = ") else { return };
    let Ok(id) = line[1..eq].parse::<u32>() else { return };
    let r = line[eq + 3..].trim_start_matches("distinct ");
    if r.starts_with("!DILocation(") {
        d.loc.insert(id, (meta_ref(r, "line:"), meta_ref(r, "scope:"), meta_ref(r, "inlinedAt:")));
    } else if r.starts_with("!DILexicalBlock") {
        d.scope.insert(id, (meta_ref(r, "scope:"), meta_ref(r, "file:")));
    } else if r.starts_with("!DISubprogram(") {
        d.sub.insert(id, (meta_str(r, "name: \""), meta_ref(r, "file:")));
    } else if r.starts_with("!DIFile(") {
        let f = meta_str(r, "filename: \"");
        let dir = meta_str(r, "directory: \"");
        d.file.insert(id, if f.starts_with('/') || dir.is_empty() { f } else { format!("{dir}/{f}") });
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

struct P<'a> {
    t: Vec<Tok<'a>>,
    i: usize,
    types: HashMap<String, Ty>,
    gaddr: HashMap<String, u64>,
    fidx: HashMap<String, u32>,
    regs: HashMap<&'a str, u32>,
    labels: HashMap<&'a str, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Tok<'a> { self.t.get(self.i).copied().unwrap_or(Tok { k: K::Punct, s: "<eof>", bol: true, col0: true }) }
    fn next(&mut self) -> Tok<'a> { let t = self.peek(); self.i += 1; t }
    fn is(&self, s: &str) -> bool { let t = self.peek(); (t.k == K::Punct || t.k == K::Ident) && t.s == s }
    fn eat(&mut self, s: &str) -> bool { if self.is(s) { self.i += 1; true } else { false } }
    fn expect(&mut self, s: &str) -> R<()> {
        if self.eat(s) { Ok(()) } else { Err(format!("expected `{s}`, got {:?}", self.peek())) }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            let t = self.next();
            if t.k == K::Punct {
                match t.s { "(" => d += 1, ")" => { d -= 1; if d == 0 { return; } } "<eof>" => return, _ => {} }
            }
        }
    }
    fn type_start(&self) -> bool {
        let t = self.peek();
        match t.k {
            K::Ident => t.s == "void" || t.s == "ptr" || t.s == "float" || t.s == "double" || t.s == "half" || t.s == "x86_fp80" || t.s == "fp128" || t.s == "label" || t.s == "metadata" || t.s == "token"
                || (t.s.starts_with('i') && t.s.len() > 1 && t.s[1..].bytes().all(|c| c.is_ascii_digit())),
            K::Punct => matches!(t.s, "{" | "<" | "["),
            K::Local => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = self.next();
        let r = match t.k {
            K::Ident => match t.s {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is("addrspace") { self.i += 1; self.skip_parens(); }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "x86_fp80" => Ty::Float(80),
                "fp128" => Ty::Float(128),
                "label" | "metadata" | "token" => Ty::Other,
                s if s.starts_with('i') => Ty::Int(s[1..].parse().map_err(|_| format!("bad type {s}"))?),
                s => return Err(format!("bad type {s}")),
            },
            K::Local => self.types.get(t.s).cloned().ok_or_else(|| format!("unknown type %{}", t.s))?,
            K::Punct => match t.s {
                "[" => {
                    let n: u64 = self.next().s.parse().map_err(|_| "array len")?;
                    self.expect("x")?;
                    let e = self.ty()?;
                    self.expect("]")?;
                    Ty::Arr(n, Box::new(e))
                }
                "{" => self.struct_body(false)?,
                "<" => {
                    if self.eat("{") {
                        let s = self.struct_body(true)?;
                        self.expect(">")?;
                        s
                    } else {
                        let n: u64 = self.next().s.parse().map_err(|_| "vec len")?;
                        self.expect("x")?;
                        let e = self.ty()?;
                        self.expect(">")?;
                        Ty::Vec(n, Box::new(e))
                    }
                }
                s => return Err(format!("bad type token {s}")),
            },
            _ => return Err(format!("bad type token {:?}", t)),
        };
        Ok(r)
    }
    fn struct_body(&mut self, packed: bool) -> R<Ty> {
        let mut v = vec![];
        if !self.eat("}") {
            loop {
                v.push(self.ty()?);
                if self.eat("}") { break; }
                self.expect(",")?;
            }
        }
        Ok(Ty::Struct(v, packed))
    }

    fn gaddr(&self, n: &str) -> R<u64> {
        if let Some(a) = self.gaddr.get(n) { return Ok(*a); }
        if let Some(f) = self.fidx.get(n) { return Ok(FUNC_BASE + 16 * *f as u64); }
        Err(format!("unknown global @{n}"))
    }

    /// Parses a constant of type `ty` to a value.
    fn constant(&mut self, ty: &Ty) -> R<V> {
        let t = self.next();
        Ok(match (t.k, t.s) {
            (K::Int, s) => int_const(s, ty)?,
            (K::Float, s) => {
                if s.starts_with("0x") { V::C(u64::from_str_radix(&s[2..], 16).unwrap_or(0)) }
                else { V::C(s.parse::<f64>().unwrap_or(0.0).to_bits()) }
            }
            (K::Ident, "true") => V::C(1),
            (K::Ident, "false") => V::C(0),
            (K::Ident, "null" | "none") => V::C(0),
            (K::Ident, "undef" | "poison" | "zeroinitializer") => zero(ty),
            (K::Global, n) => V::C(self.gaddr(n)?),
            (K::CStr, s) => {
                let b = unescape(s);
                V::A(b.into_iter().map(|x| V::C(x as u64)).collect::<Vec<_>>().into())
            }
            (K::Punct, "<") if self.is("{") => {
                self.i += 1;
                let v = self.agg("}")?;
                self.expect(">")?;
                v
            }
            (K::Punct, "<") => self.agg(">")?,
            (K::Punct, "{") => self.agg("}")?,
            (K::Punct, "[") => self.agg("]")?,
            (K::Ident, "splat") => {
                self.expect("(")?;
                let et = self.ty()?;
                let v = self.constant(&et)?;
                self.expect(")")?;
                V::A(vec![v; ty.nfields()].into())
            }
            (K::Ident, "getelementptr") => {
                while !self.is("(") {
                    let t = self.next();
                    if t.s == "inrange" { self.skip_parens(); }
                }
                self.expect("(")?;
                let base_ty = self.ty()?;
                self.expect(",")?;
                let pt = self.ty()?;
                let base = self.constant(&pt)?;
                let mut idx = vec![];
                while self.eat(",") {
                    let it = self.ty()?;
                    idx.push((it.clone(), self.constant(&it)?));
                }
                self.expect(")")?;
                let mut a = cu(&base)?;
                let mut cur = base_ty;
                for (k, (it, v)) in idx.iter().enumerate() {
                    let x = sext64(cu(v)?, it.bits());
                    if k == 0 {
                        a = a.wrapping_add((x as u64).wrapping_mul(cur.size()));
                    } else {
                        a = a.wrapping_add(match &cur {
                            Ty::Struct(..) => cur.field_off(x as usize),
                            _ => (x as u64).wrapping_mul(cur.field(0).size()),
                        });
                        let n = match &cur { Ty::Struct(..) => cur.field(x as usize).clone(), _ => cur.field(0).clone() };
                        cur = n;
                    }
                }
                V::C(a)
            }
            (K::Ident, op @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" | "addrspacecast")) => {
                self.expect("(")?;
                let ft = self.ty()?;
                let v = self.constant(&ft)?;
                self.expect("to")?;
                let tt = self.ty()?;
                self.expect(")")?;
                match v {
                    V::C(x) => {
                        let x = if op == "sext" { sext64(x, ft.bits()) as u64 } else { x };
                        V::C(mask64(x, tt.bits()))
                    }
                    v => v,
                }
            }
            (K::Ident, op @ ("sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" | "lshr")) => {
                while !self.is("(") { self.i += 1; }
                self.expect("(")?;
                let at = self.ty()?;
                let a = self.constant(&at)?;
                self.expect(",")?;
                let bt = self.ty()?;
                let b = self.constant(&bt)?;
                self.expect(")")?;
                let (a, b) = (cu(&a)?, cu(&b)?);
                let r = match op {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    "mul" => a.wrapping_mul(b),
                    "shl" => a.wrapping_shl(b as u32),
                    _ => a.wrapping_shr(b as u32),
                };
                V::C(mask64(r, at.bits()))
            }
            (K::Ident, "dso_local_equivalent" | "no_cfi") => {
                let n = self.next();
                V::C(self.gaddr(n.s)?)
            }
            (K::Ident, "asm") => return Err("asm".into()),
            (_, s) => return Err(format!("bad constant {s:?} of {ty:?}")),
        })
    }
    fn agg(&mut self, close: &str) -> R<V> {
        let mut v = vec![];
        if !self.eat(close) {
            loop {
                let t = self.ty()?;
                v.push(self.constant(&t)?);
                if self.eat(close) { break; }
                self.expect(",")?;
            }
        }
        Ok(V::A(v.into()))
    }

    fn reg(&mut self, n: &'a str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&mut self, n: &'a str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn operand(&mut self, ty: &Ty) -> R<Op> {
        let t = self.peek();
        if t.k == K::Local {
            self.i += 1;
            return Ok(Op::R(self.reg(t.s)));
        }
        Ok(Op::K(self.constant(ty)?))
    }
    fn ty_op(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        let o = self.operand(&t)?;
        Ok((t, o))
    }
    fn skip_attrs(&mut self) {
        loop {
            let t = self.peek();
            if t.bol { return; }
            match t.k {
                K::Ident => {
                    if matches!(t.s, "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "splat" | "asm" | "trunc" | "bitcast" | "add" | "sub" | "xor" | "and" | "or" | "mul" | "zext" | "sext" | "addrspacecast" | "dso_local_equivalent" | "no_cfi" | "shl" | "lshr" ) { return; }
                    self.i += 1;
                    if t.s == "align" && self.peek().k == K::Int { self.i += 1; continue; }
                    if self.is("(") && !self.peek().bol { self.skip_parens(); }
                }
                K::Attr => { self.i += 1; }
                K::Str => { self.i += 1; if self.eat("=") { self.i += 1; } }
                _ => return,
            }
        }
    }
    fn lbl_op(&mut self) -> R<u32> {
        self.expect("label")?;
        let t = self.next();
        if t.k != K::Local { return Err("label".into()); }
        Ok(self.label(t.s))
    }

    fn call(&mut self, invoke: bool) -> R<I> {
        // after `call` / `invoke`: [fast-math/cc/attrs] type callee (args) ...
        loop {
            if self.type_start() { break; }
            let t = self.next();
            if t.k == K::Ident && self.is("(") { self.skip_parens(); }
            if t.s == "align" || t.s == "cc" { if self.peek().k == K::Int { self.i += 1; } }
            if t.s == "<eof>" { return Err("call".into()); }
        }
        let ret = self.ty()?;
        if self.is("(") { self.skip_parens(); }
        let t = self.peek();
        let mut callee_err = None;
        let callee = match t.k {
            K::Global => {
                self.i += 1;
                match self.fidx.get(t.s) {
                    Some(f) => Callee::Direct(*f),
                    None => Callee::Indirect(Op::K(V::C(self.gaddr(t.s)?))),
                }
            }
            K::Local => { self.i += 1; Callee::Indirect(Op::R(self.reg(t.s))) }
            K::Ident if t.s == "asm" => {
                self.i += 1;
                let mut text = String::new();
                while !self.is("(") { let t = self.next(); text.push_str(t.s); text.push(' '); }
                callee_err = Some(text);
                Callee::Direct(0)
            }
            _ => { let v = self.constant(&Ty::Ptr)?; Callee::Indirect(Op::K(v)) }
        };
        self.expect("(")?;
        let mut args = vec![];
        if !self.eat(")") {
            loop {
                let at = self.ty()?;
                if at == Ty::Other {
                    // metadata argument
                    let mut d = 0;
                    loop {
                        let t = self.peek();
                        if d == 0 && (t.s == "," || t.s == ")") && t.k == K::Punct { break; }
                        if t.k == K::Punct && (t.s == "(" || t.s == "{") { d += 1; }
                        if t.k == K::Punct && (t.s == ")" || t.s == "}") { d -= 1; }
                        self.i += 1;
                    }
                } else {
                    self.skip_attrs();
                    let o = self.operand(&at)?;
                    args.push((Arc::new(at), o));
                }
                if self.eat(")") { break; }
                self.expect(",")?;
            }
        }
        let mut normal = None;
        if invoke {
            while !(self.is("to") && !self.peek().col0) { self.i += 1; }
            self.i += 1;
            normal = Some(self.lbl_op()?);
            while !self.is("unwind") { self.i += 1; }
            self.i += 1;
            let _ = self.lbl_op()?;
        }
        if let Some(text) = callee_err {
            if text.contains("\"\"") || text.trim_end().ends_with("~{memory}") && text.contains("sideeffect  ,") { return Ok(I::Nop); }
            // an empty asm body (compiler fence / black_box)
            let body = text.replace("sideeffect", "").replace("alignstack", "").replace("inteldialect", "");
            if body.trim_start().starts_with(",") { return Ok(I::Nop); }
            if body.contains("cpuid") { return Ok(I::Unsupported("cpuid".into())); }
            return Ok(I::Unsupported(format!("asm {text}")));
        }
        Ok(I::Call { callee, args, ret: Arc::new(ret), normal })
    }

    fn inst(&mut self) -> R<(u32, I, Option<(u32, Vec<(u32, Op)>)>)> {
        let mut dst = NODST;
        let t = self.peek();
        if t.k == K::Local {
            self.i += 1;
            self.expect("=")?;
            dst = self.reg(t.s);
        }
        let t = self.next();
        if t.k != K::Ident { return Err(format!("instruction {:?}", t)); }
        let skip_flags = |p: &mut Self| {
            while p.peek().k == K::Ident && !p.type_start() {
                p.i += 1;
                if p.is("(") { p.skip_parens(); }
            }
        };
        let i = match t.s {
            "tail" | "musttail" | "notail" => { self.expect("call")?; self.call(false)? }
            "call" => self.call(false)?,
            "invoke" => self.call(true)?,
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                let op = match t.s {
                    "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem, "srem" => Bin::SRem, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor,
                    "shl" => Bin::Shl, "lshr" => Bin::LShr, _ => Bin::AShr,
                };
                skip_flags(self);
                let (ty, a) = self.ty_op()?;
                self.expect(",")?;
                let b = self.operand(&ty)?;
                I::Bin(op, Arc::new(ty), a, b)
            }
            "icmp" => {
                if self.is("samesign") { self.i += 1; }
                let p = self.next();
                let pred = match p.s {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                    "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge,
                    s => return Err(format!("icmp {s}")),
                };
                let (ty, a) = self.ty_op()?;
                self.expect(",")?;
                let b = self.operand(&ty)?;
                I::Icmp(pred, Arc::new(ty), a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                skip_flags(self);
                let (ft, a) = self.ty_op()?;
                self.expect("to")?;
                let tt = self.ty()?;
                let c = match t.s {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "ptrtoint" | "ptrtoaddr" => if tt.bits() < 64 { Cast::Trunc } else { Cast::Zext },
                    "inttoptr" => if ft.bits() > 64 { Cast::Trunc } else { Cast::Zext },
                    _ => Cast::Bitcast,
                };
                I::Cast(c, Arc::new(ft), a, Arc::new(tt))
            }
            "select" => {
                skip_flags(self);
                let (ct, c) = self.ty_op()?;
                self.expect(",")?;
                let (ty, a) = self.ty_op()?;
                self.expect(",")?;
                let (_, b) = self.ty_op()?;
                I::Select(Arc::new(ty), matches!(ct, Ty::Vec(..)), c, a, b)
            }
            "freeze" => { let (_, a) = self.ty_op()?; I::Freeze(a) }
            "getelementptr" => {
                skip_flags(self);
                let bt = self.ty()?;
                self.expect(",")?;
                let (_, base) = self.ty_op()?;
                let mut off = 0u64;
                let mut dynm = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.is(",") && self.t[self.i + 1].k != K::Meta {
                    self.i += 1;
                    let (it, v) = self.ty_op()?;
                    let scale = if first { cur.size() } else if let Ty::Struct(..) = cur { 0 } else { cur.field(0).size() };
                    match &v {
                        Op::K(k) => {
                            let x = sext64(cu(k)?, it.bits());
                            if !first && matches!(cur, Ty::Struct(..)) {
                                off = off.wrapping_add(cur.field_off(x as usize));
                                let n = cur.field(x as usize).clone();
                                cur = n;
                            } else {
                                off = off.wrapping_add((x as u64).wrapping_mul(scale));
                                if !first { let n = cur.field(0).clone(); cur = n; }
                            }
                        }
                        Op::R(_) => {
                            dynm.push((v, it.bits(), scale));
                            if !first { let n = cur.field(0).clone(); cur = n; }
                        }
                    }
                    first = false;
                }
                I::Gep(base, off, dynm)
            }
            "load" => {
                skip_flags(self);
                let ty = self.ty()?;
                self.expect(",")?;
                let (_, p) = self.ty_op()?;
                I::Load(Arc::new(ty), p)
            }
            "store" => {
                skip_flags(self);
                let (ty, v) = self.ty_op()?;
                self.expect(",")?;
                let (_, p) = self.ty_op()?;
                I::Store(Arc::new(ty), v, p)
            }
            "alloca" => {
                skip_flags(self);
                let ty = self.ty()?;
                let mut n = 1;
                if self.is(",") && self.t[self.i + 1].s != "align" && self.t[self.i + 1].k != K::Meta {
                    self.i += 1;
                    let (_, o) = self.ty_op()?;
                    match o { Op::K(V::C(x)) => n = x, _ => return Err("dynamic alloca".into()) }
                }
                I::Alloca(ty.size() * n)
            }
            "br" => {
                if self.is("label") {
                    I::Br(self.lbl_op()?)
                } else {
                    let (_, c) = self.ty_op()?;
                    self.expect(",")?;
                    let a = self.lbl_op()?;
                    self.expect(",")?;
                    let b = self.lbl_op()?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, c) = self.ty_op()?;
                self.expect(",")?;
                let d = self.lbl_op()?;
                self.expect("[")?;
                let mut cases = vec![];
                while !self.eat("]") {
                    let t2 = self.ty()?;
                    let v = self.constant(&t2)?;
                    let v = match v { V::C(x) => x as u128, V::W(x) => *x, _ => return Err("case".into()) };
                    self.expect(",")?;
                    let l = self.lbl_op()?;
                    cases.push((v, l));
                }
                I::Switch(ty.bits(), c, d, cases)
            }
            "ret" => {
                if self.is("void") { self.i += 1; I::Ret(None) } else { let (_, o) = self.ty_op()?; I::Ret(Some(o)) }
            }
            "unreachable" => I::Unreachable,
            "phi" => {
                skip_flags(self);
                let ty = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.expect("[")?;
                    let o = self.operand(&ty)?;
                    self.expect(",")?;
                    let l = self.next();
                    let l = self.label(l.s);
                    self.expect("]")?;
                    inc.push((l, o));
                    if self.is(",") && self.t[self.i + 1].s == "[" { self.i += 1; } else { break; }
                }
                return Ok((dst, I::Nop, Some((dst, inc))));
            }
            "extractvalue" => {
                let (_, a) = self.ty_op()?;
                let mut idx = vec![];
                while self.is(",") && self.t[self.i + 1].k == K::Int { self.i += 1; idx.push(self.next().s.parse().unwrap()); }
                I::Extract(a, idx)
            }
            "insertvalue" => {
                let (ty, a) = self.ty_op()?;
                self.expect(",")?;
                let (_, b) = self.ty_op()?;
                let mut idx = vec![];
                while self.is(",") && self.t[self.i + 1].k == K::Int { self.i += 1; idx.push(self.next().s.parse().unwrap()); }
                I::Insert(Arc::new(ty), a, b, idx)
            }
            "extractelement" => {
                let (_, a) = self.ty_op()?;
                self.expect(",")?;
                let (_, b) = self.ty_op()?;
                I::ExtractElt(a, b)
            }
            "insertelement" => {
                let (ty, a) = self.ty_op()?;
                self.expect(",")?;
                let (_, b) = self.ty_op()?;
                self.expect(",")?;
                let (_, c) = self.ty_op()?;
                I::InsertElt(Arc::new(ty), a, b, c)
            }
            "shufflevector" => {
                let (ty, a) = self.ty_op()?;
                self.expect(",")?;
                let (_, b) = self.ty_op()?;
                self.expect(",")?;
                let mt = self.ty()?;
                let m = self.constant(&mt)?;
                let V::A(m) = m else { return Err("shuffle mask".into()) };
                let mask = m.iter().map(|x| match x { V::C(x) => *x as i64, _ => 0 }).collect();
                I::Shuffle(ty.nfields() as u64, a, b, mask)
            }
            "atomicrmw" => {
                if self.is("volatile") { self.i += 1; }
                let op = self.next().s.to_string();
                let (_, p) = self.ty_op()?;
                self.expect(",")?;
                let (ty, v) = self.ty_op()?;
                I::Rmw(op, Arc::new(ty), p, v)
            }
            "cmpxchg" => {
                skip_flags(self);
                let (_, p) = self.ty_op()?;
                self.expect(",")?;
                let (ty, c) = self.ty_op()?;
                self.expect(",")?;
                let (_, n) = self.ty_op()?;
                I::Cmpxchg(Arc::new(ty), p, c, n)
            }
            "fence" => I::Nop,
            s => I::Unsupported(s.to_string()),
        };
        Ok((dst, i, None))
    }
}

pub fn mask64(x: u64, w: u32) -> u64 { if w >= 64 { x } else { x & ((1u64 << w) - 1) } }
pub fn sext64(x: u64, w: u32) -> i64 {
    if w >= 64 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) }
}
fn cu(v: &V) -> R<u64> { match v { V::C(x) => Ok(*x), V::W(x) => Ok(**x as u64), _ => Err("not an integer constant".into()) } }

fn int_const(s: &str, ty: &Ty) -> R<V> {
    let w = ty.bits();
    let x: u128 = if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg()
    } else {
        s.parse::<u128>().map_err(|e| e.to_string())?
    };
    if let Ty::Float(_) = ty { return Ok(V::C(0)); }
    Ok(if w <= 64 { V::C(mask64(x as u64, w)) } else { V::W(Arc::new(if w >= 128 { x } else { x & ((1u128 << w) - 1) })) })
}

pub fn zero(ty: &Ty) -> V {
    match ty {
        Ty::Int(w) if *w > 64 => V::W(Arc::new(0)),
        Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
            let n = ty.nfields();
            match ty {
                Ty::Struct(fs, _) => V::A(fs.iter().map(zero).collect::<Vec<_>>().into()),
                _ => V::A(vec![if n > 0 { zero(ty.field(0)) } else { V::C(0) }; n].into()),
            }
        }
        _ => V::C(0),
    }
}

/// Writes constant `v` of type `ty` into `out` at `off`.
fn emit(v: &V, ty: &Ty, out: &mut [u8], off: usize) {
    match (v, ty) {
        (V::A(a), Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..)) => {
            for (i, x) in a.iter().enumerate() {
                emit(x, ty.field(i), out, off + ty.field_off(i) as usize);
            }
        }
        (V::C(x), t) => {
            let n = t.size() as usize;
            let b = x.to_le_bytes();
            for i in 0..n.min(8) { out[off + i] = b[i]; }
        }
        (V::W(x), t) => {
            let n = t.size() as usize;
            let b = x.to_le_bytes();
            for i in 0..n.min(16) { out[off + i] = b[i]; }
        }
        _ => {}
    }
}

const LINKAGE: &[&str] = &["private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "default", "hidden", "protected", "dllimport", "dllexport", "unnamed_addr", "local_unnamed_addr", "thread_local", "externally_initialized"];

pub fn load(src: &str) -> Result<Module, String> {
    let mut dbg = DebugInfo::default();
    let t = lex(src, &mut dbg);
    let mut p = P { t, i: 0, types: HashMap::new(), gaddr: HashMap::new(), fidx: HashMap::new(), regs: HashMap::new(), labels: HashMap::new() };
    // Pass 1: types, global headers, function names.
    struct G<'a> { name: &'a str, ty: Ty, init: Option<usize>, constant: bool }
    let mut gl: Vec<G> = vec![];
    let mut funcs: Vec<Func> = vec![];
    let mut bodies: Vec<(u32, usize)> = vec![];
    let mut aliases: Vec<(String, usize)> = vec![];
    let n = p.t.len();
    let mut i = 0;
    while i < n {
        let tk = p.t[i];
        if !tk.col0 { i += 1; continue; }
        p.i = i;
        if tk.k == K::Local && p.t[i + 1].s == "=" && p.t[i + 2].s == "type" {
            p.i = i + 3;
            if p.is("opaque") { p.i += 1; } else { let ty = p.ty()?; p.types.insert(tk.s.to_string(), ty); }
        } else if tk.k == K::Global {
            p.i = i + 2;
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                let t = p.next();
                match t.s {
                    "global" => break,
                    "constant" => { constant = true; break; }
                    "alias" | "ifunc" => { alias = true; break; }
                    "external" | "extern_weak" => external = true,
                    s if LINKAGE.contains(&s) => { if p.is("(") { p.skip_parens(); } }
                    "addrspace" => p.skip_parens(),
                    s => return Err(format!("global @{}: {s}", tk.s)),
                }
            }
            if alias {
                aliases.push((tk.s.to_string(), p.i));
            } else {
                let ty = p.ty()?;
                gl.push(G { name: tk.s, ty, init: if external { None } else { Some(p.i) }, constant });
            }
        } else if tk.k == K::Ident && (tk.s == "define" || tk.s == "declare") {
            let mut j = i + 1;
            while p.t[j].k != K::Global { j += 1; }
            let name = p.t[j].s.to_string();
            let idx = funcs.len() as u32;
            p.fidx.insert(name.clone(), idx);
            let is_panic = name.contains("4core9panicking") || name.contains("rust_begin_unwind") || name.contains("9panicking15panic_with_hook")
                || name.contains("9panicking11begin_panic") || name.contains("rust_start_panic") || name.contains("10rust_panic")
                || name.contains("18handle_alloc_error") || name.contains("raw_vec12handle_error");
            funcs.push(Func { name, params: vec![], nregs: 0, blocks: vec![], defined: tk.s == "define", is_panic, builtin: 0 });
            if tk.s == "define" { bodies.push((idx, i)); }
        }
        i = p.i.max(i + 1);
    }
    // Layout.
    let mut addr = GLOBAL_BASE;
    for g in &gl {
        addr = (addr + 15) / 16 * 16;
        p.gaddr.insert(g.name.to_string(), addr);
        addr += g.ty.size() + 16;
    }
    for (name, pos) in &aliases {
        p.i = *pos;
        let _ = p.ty()?;
        p.expect(",")?;
        let _ = p.ty()?;
        if let Ok(V::C(a)) = p.constant(&Ty::Ptr) {
            if a >= GLOBAL_BASE { p.gaddr.insert(name.clone(), a); }
            else if a >= FUNC_BASE { p.fidx.insert(name.clone(), ((a - FUNC_BASE) / 16) as u32); }
        }
    }
    // Initialisers.
    let mut globals = vec![];
    for g in &gl {
        let size = g.ty.size();
        let mut data = vec![0u8; size as usize];
        if let Some(pos) = g.init {
            p.i = pos;
            let v = p.constant(&g.ty).map_err(|e| format!("initialiser of @{}: {e}", g.name))?;
            emit(&v, &g.ty, &mut data, 0);
        }
        globals.push(Global { name: g.name.to_string(), addr: p.gaddr[g.name], size, data: Arc::new(data), constant: g.constant });
    }
    // Bodies.
    for (idx, pos) in bodies {
        p.regs.clear();
        p.labels.clear();
        p.i = pos + 1;
        // return type and name
        loop {
            if p.peek().k == K::Global { break; }
            p.i += 1;
        }
        p.i += 1;
        p.expect("(")?;
        let mut params = vec![];
        let mut unnamed = 0u32;
        let mut numbered = 0u32;
        if !p.eat(")") {
            loop {
                if p.is("...") { p.i += 1; }
                else {
                    let _t = p.ty()?;
                    p.skip_attrs();
                    if p.peek().k == K::Local {
                        let s = p.next().s;
                        if s.bytes().all(|c| c.is_ascii_digit()) { numbered += 1; }
                        let r = p.reg(s);
                        params.push(r);
                    } else {
                        let s: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                        unnamed += 1;
                        numbered += 1;
                        let r = p.reg(s);
                        params.push(r);
                    }
                }
                if p.eat(")") { break; }
                p.expect(",")?;
            }
        }
        while !(p.is("{") && { let nx = p.t[p.i + 1]; nx.bol }) { p.i += 1; }
        p.i += 1;
        let fname = funcs[idx as usize].name.clone();
        let mut blocks: Vec<Block> = vec![];
        let mut cur: u32;
        if p.peek().k == K::Label {
            let s = p.next().s;
            cur = p.label(s);
        } else {
            // implicit entry label: numbered after the parameters
            let s: &'static str = Box::leak(numbered.to_string().into_boxed_str());
            cur = p.label(s);
        }
        blocks.resize(cur as usize + 1, Block::default());
        loop {
            let t = p.peek();
            if t.k == K::Punct && t.s == "}" && t.col0 { p.i += 1; break; }
            if t.k == K::Label {
                p.i += 1;
                cur = p.label(t.s);
                if blocks.len() <= cur as usize { blocks.resize(cur as usize + 1, Block::default()); }
                continue;
            }
            let start = p.i;
            let r = p.inst();
            let is_multi = matches!(&r, Ok((_, I::Switch(..), _)));
            // find end of instruction: next token that begins a line
            let mut dbgid = 0;
            if r.is_err() { p.i = start + 1; }
            let _ = is_multi;
            loop {
                let t = p.peek();
                if t.bol {
                    // landingpad clauses / invoke continuation lines
                    if t.k == K::Ident && matches!(t.s, "cleanup" | "catch" | "filter" | "to") { p.i += 1; continue; }
                    if r.is_err() && t.k != K::Local && t.k != K::Label && t.s != "}" && t.k != K::Ident { p.i += 1; continue; }
                    break;
                }
                if t.k == K::Meta && t.s == "dbg" { dbgid = p.t[p.i + 1].s.parse().unwrap_or(0); }
                p.i += 1;
            }
            let b = &mut blocks[cur as usize];
            match r {
                Ok((_, _, Some(phi))) => b.phis.push(phi),
                Ok((dst, i, None)) => b.insts.push(Inst { dst, i, dbg: dbgid }),
                Err(e) => {
                    b.insts.push(Inst { dst: NODST, i: I::Unsupported(format!("parse: {e} in {fname}")), dbg: dbgid });
                }
            }
        }
        let nl = p.labels.len();
        if blocks.len() < nl { blocks.resize(nl, Block::default()); }
        let f = &mut funcs[idx as usize];
        f.params = params;
        f.nregs = p.regs.len() as u32;
        f.blocks = blocks;
    }
    Ok(Module { funcs, fidx: p.fidx, globals, dbg })
}

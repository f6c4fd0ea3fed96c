//! Parser for the textual LLVM IR produced by `llvm-dis`, lowered to a compact register code.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vect(u64, Box<Ty>),
    Fp(u32),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(v, packed) => if *packed { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vect(..) => self.size().next_power_of_two(),
            Ty::Fp(w) => *w as u64 / 8,
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(v, _) => {
                let (offs, sz) = self.layout();
                let _ = (v, offs);
                sz
            }
            Ty::Vect(n, t) => match **t { Ty::Int(1) => (*n + 7) / 8, _ => n * t.size() },
            Ty::Fp(w) => *w as u64 / 8,
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(v, packed) => {
                let mut off = 0;
                let mut offs = Vec::new();
                let mut maxa = 1;
                for t in v {
                    let a = if *packed { 1 } else { t.align() };
                    maxa = maxa.max(a);
                    off = (off + a - 1) / a * a;
                    offs.push(off);
                    off += t.size();
                }
                (offs, (off + maxa - 1) / maxa * maxa)
            }
            Ty::Arr(n, t) | Ty::Vect(n, t) => ((0..*n).map(|i| i * t.size()).collect(), n * t.size()),
            _ => (vec![0], self.size()),
        }
    }
    pub fn width(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Fp(w) => *w, _ => 0 }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vect(..)) }
}

/// Constant
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Agg(Vec<Cst>),
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Global(String),
    /// base global plus byte offset
    GlobalOff(Box<Cst>, i64),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(u64),
    /// aggregate or wide constant; index into module.consts
    A(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Bop { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, SExt }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { ZExt, SExt, Trunc, Copy }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Ext(u32), Ind(Opd) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Bop, w: u32, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u32, d: u32, a: Opd, b: Opd },
    Cast { k: CastK, from: u32, to: u32, d: u32, a: Opd },
    BitcastVec { from: Ty, to: Ty, d: u32, a: Opd },
    Select { d: u32, w: u32, c: Opd, a: Opd, b: Opd },
    Load { d: u32, ty: Ty, a: Opd },
    Store { ty: Ty, v: Opd, a: Opd },
    Gep { d: u32, base: Opd, off: i64, terms: Vec<(Opd, u32, i64)> },
    Alloca { d: u32, size: u64, n: Opd },
    Br { t: u32 },
    CBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Opd> },
    Unreachable,
    Call { d: Option<u32>, w: u32, callee: Callee, args: Vec<Opd>, widths: Vec<u32>, next: Option<u32> },
    ExtractValue { d: u32, a: Opd, idx: Vec<u32> },
    InsertValue { d: u32, a: Opd, b: Opd, idx: Vec<u32> },
    ExtractElt { d: u32, a: Opd, i: Opd },
    InsertElt { d: u32, a: Opd, b: Opd, i: Opd, n: u32 },
    Rmw { d: u32, op: u8, w: u32, a: Opd, v: Opd },
    CmpXchg { d: u32, w: u32, a: Opd, c: Opd, n: Opd },
    /// floating point on concrete values: 0.. add sub mul div rem neg | 10 uitofp 11 sitofp 12 fptoui 13 fptosi 14 fpext/fptrunc | 20.. comparisons (bit 0 greater, 1 equal, 2 less, 3 unordered)
    Fp { op: u32, from: u32, to: u32, d: u32, a: Opd, b: Opd },
    Nop,
    Unsupported(String),
}

pub struct Block { pub ipdom: u32, pub start: u32, pub phis: Vec<u32>, pub incoming: HashMap<u32, Vec<Opd>> }

/// ipdom: no join (paths only panic) / join at the function's return
pub const NOJOIN: u32 = u32::MAX;
pub const ATRET: u32 = u32::MAX - 1;

pub struct Func {
    pub name: String,
    /// width of each scalar register that is used somewhere
    pub regw: Vec<u32>,
    pub nregs: u32,
    pub nargs: u32,
    pub code: Vec<Inst>,
    pub blocks: Vec<Block>,
    pub ret_w: u32,
}

pub struct Global { pub name: String, pub size: u64, pub konst: bool, pub init: Option<(Ty, Cst)> }

#[derive(Clone, Debug)]
pub enum KVal { Int(u128), Agg(Vec<KVal>) }

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub exts: Vec<String>,
    pub eidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub consts: Vec<KVal>,
}

/// Object numbering: 0 null page; 1..=G globals; then functions; then externals; then dynamic objects.
impl Module {
    pub fn global_obj(&self, i: u32) -> u64 { (i as u64 + 0x100) << 32 }
    pub fn func_obj(&self, i: u32) -> u64 { (0x40000 + i as u64) << 32 }
    pub fn ext_obj(&self, i: u32) -> u64 { (0x60000 + i as u64) << 32 }
    pub fn sym_addr(&self, name: &str) -> u64 {
        if let Some(i) = self.gidx.get(name) { return self.global_obj(*i); }
        if let Some(i) = self.fidx.get(name) { return self.func_obj(*i); }
        if let Some(i) = self.eidx.get(name) { return self.ext_obj(*i); }
        panic!("unknown symbol {}", name)
    }
    pub fn kval(&self, ty: &Ty, c: &Cst) -> KVal {
        match ty {
            Ty::Arr(n, t) | Ty::Vect(n, t) => {
                let v = match c {
                    Cst::Agg(v) => v.iter().map(|x| self.kval(t, x)).collect(),
                    Cst::Bytes(b) => b.iter().map(|x| KVal::Int(*x as u128)).collect(),
                    _ => (0..*n).map(|_| self.kval(t, &Cst::Zero)).collect(),
                };
                KVal::Agg(v)
            }
            Ty::Struct(ts, _) => match c {
                Cst::Agg(v) => KVal::Agg(ts.iter().zip(v).map(|(t, x)| self.kval(t, x)).collect()),
                _ => KVal::Agg(ts.iter().map(|t| self.kval(t, &Cst::Zero)).collect()),
            },
            _ => KVal::Int(self.kint(c)),
        }
    }
    pub fn kint(&self, c: &Cst) -> u128 {
        match c {
            Cst::Int(v) => *v,
            Cst::Zero | Cst::Undef => 0,
            Cst::Global(g) => self.sym_addr(g) as u128,
            Cst::GlobalOff(b, o) => (self.kint(b) as u64).wrapping_add(*o as u64) as u128,
            _ => panic!("kint {:?}", c),
        }
    }
    pub fn write_init(&self, ty: &Ty, c: &Cst, out: &mut [u8]) {
        match c {
            Cst::Zero | Cst::Undef => return,
            Cst::Bytes(b) => { out[..b.len()].copy_from_slice(b); return; }
            _ => {}
        }
        match ty {
            Ty::Struct(ts, _) => {
                let (offs, _) = ty.layout();
                if let Cst::Agg(v) = c { for ((t, x), o) in ts.iter().zip(v).zip(offs) { self.write_init(t, x, &mut out[o as usize..]); } }
            }
            Ty::Arr(_, t) | Ty::Vect(_, t) => {
                let s = t.size() as usize;
                if let Cst::Agg(v) = c { for (i, x) in v.iter().enumerate() { self.write_init(t, x, &mut out[i * s..]); } }
            }
            _ => {
                let v = self.kint(c);
                let n = ty.size() as usize;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tk<'a> { W(&'a str), L(String), G(String), N(i128), S(Vec<u8>), P(char), Meta, AttrG, Ell }

fn lex<'a>(s: &'a str) -> Vec<Tk<'a>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let g = c == b'@';
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while b[i] != b'"' { i += 1; }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) { i += 1; }
                    name = s[st..i].to_string();
                }
                out.push(if g { Tk::G(name) } else { Tk::L(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && (idc(b[i]) || b[i] == b'\\') { i += 1; }
                if i < b.len() && b[i] == b'{' { while b[i] != b'}' { i += 1; } i += 1; }
                out.push(Tk::Meta);
            }
            b'#' => { i += 1; while i < b.len() && b[i].is_ascii_digit() { i += 1; } out.push(Tk::AttrG); }
            b'"' => {
                let mut v = Vec::new();
                i += 1;
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; continue; }
                        v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                        i += 3;
                    } else { v.push(b[i]); i += 1; }
                }
                i += 1;
                out.push(Tk::S(v));
            }
            b'.' if s[i..].starts_with("...") => { i += 3; out.push(Tk::Ell); }
            b'0'..=b'9' => {
                let st = i;
                while i < b.len() && idc(b[i]) { i += 1; }
                // the exponent of a floating-point number
                if i + 1 < b.len() && b[i] == b'+' && b[i - 1] == b'e' && s[st..i].contains('.') { i += 1; while i < b.len() && b[i].is_ascii_digit() { i += 1; } }
                let t = &s[st..i];
                match t.parse::<i128>() { Ok(n) => out.push(Tk::N(n)), Err(_) => out.push(Tk::W(&s[st..i])) }
            }
            b'-' if i + 1 < b.len() && b[i + 1].is_ascii_digit() => {
                let st = i;
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() { i += 1; }
                if i < b.len() && b[i] == b'.' { while i < b.len() && (idc(b[i]) || b[i] == b'+') { i += 1; } out.push(Tk::W(&s[st..i])); continue; }
                out.push(Tk::N(s[st..i].parse().unwrap()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < b.len() && idc(b[i]) { i += 1; }
                out.push(Tk::W(&s[st..i]));
            }
            _ => { out.push(Tk::P(c as char)); i += 1; }
        }
    }
    out
}

struct Ps<'a, 'b> { t: &'b [Tk<'a>], i: usize, named: &'b HashMap<String, Ty> }

const ATTRS: &[&str] = &["noundef", "nonnull", "noalias", "zeroext", "signext", "readonly", "writeonly", "readnone", "nofree", "nocapture", "returned", "inreg", "immarg", "allocptr", "allocalign", "nest", "swiftself", "dead_on_unwind", "writable", "noreturn", "nounwind", "dead_on_return", "inalloca", "preallocated", "nocallback"];

impl<'a, 'b> Ps<'a, 'b> {
    fn pk(&self) -> Option<&Tk<'a>> { self.t.get(self.i) }
    fn nx(&mut self) -> Tk<'a> { let t = self.t[self.i].clone(); self.i += 1; t }
    fn isw(&self, s: &str) -> bool { matches!(self.pk(), Some(Tk::W(x)) if *x == s) }
    fn isp(&self, c: char) -> bool { matches!(self.pk(), Some(Tk::P(x)) if *x == c) }
    fn eatw(&mut self, s: &str) -> bool { if self.isw(s) { self.i += 1; true } else { false } }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) { if !self.eatp(c) { panic!("expected {} at {:?}", c, &self.t[self.i.saturating_sub(5)..(self.i + 8).min(self.t.len())]); } }
    fn skip_paren(&mut self) {
        self.exp('(');
        let mut d = 1;
        while d > 0 { match self.nx() { Tk::P('(') => d += 1, Tk::P(')') => d -= 1, _ => {} } }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.pk() {
                Some(Tk::W(w)) if ATTRS.contains(w) => self.i += 1,
                Some(Tk::W("align")) => { self.i += 1; if self.isp('(') { self.skip_paren(); } else { self.i += 1; } }
                Some(Tk::W("dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "initializes" | "sret" | "byval" | "byref" | "nofpclass" | "memory" | "elementtype" | "addrspace" | "dead_on_return_bytes")) => {
                    self.i += 1;
                    if self.isp('(') { self.skip_paren(); }
                }
                Some(Tk::AttrG) => self.i += 1,
                _ => break,
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let mut t = match self.nx() {
            Tk::W("void") => Ty::Void,
            Tk::W("ptr") => { if self.isw("addrspace") { self.i += 1; self.skip_paren(); } Ty::Ptr }
            Tk::W("float") => Ty::Fp(32),
            Tk::W("double") => Ty::Fp(64),
            Tk::W("half") => Ty::Fp(16),
            Tk::W("fp128") => Ty::Fp(128),
            Tk::W("label" | "metadata" | "token") => Ty::Other,
            Tk::W("opaque") => Ty::Other,
            Tk::W(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
            Tk::P('[') => { let n = self.num() as u64; assert!(self.eatw("x")); let t = self.ty(); self.exp(']'); Ty::Arr(n, Box::new(t)) }
            Tk::P('<') => {
                if self.eatp('{') {
                    let v = self.tylist('}');
                    self.exp('>');
                    Ty::Struct(v, true)
                } else { let n = self.num() as u64; assert!(self.eatw("x")); let t = self.ty(); self.exp('>'); Ty::Vect(n, Box::new(t)) }
            }
            Tk::P('{') => Ty::Struct(self.tylist('}'), false),
            Tk::L(n) => self.named.get(&n).cloned().unwrap_or(Ty::Other),
            x => panic!("type? {:?} near {:?}", x, &self.t[self.i.saturating_sub(8)..(self.i + 8).min(self.t.len())]),
        };
        // function types
        if self.isp('(') {
            // only in calls to varargs: ret (args...)
            self.skip_paren();
            t = t;
        }
        t
    }
    fn tylist(&mut self, close: char) -> Vec<Ty> {
        let mut v = Vec::new();
        if self.eatp(close) { return v; }
        loop { v.push(self.ty()); if self.eatp(close) { return v; } self.exp(','); }
    }
    fn num(&mut self) -> i128 { match self.nx() { Tk::N(n) => n, x => panic!("num? {:?}", x) } }
    fn mask(v: i128, ty: &Ty) -> u128 {
        let w = match ty { Ty::Int(w) => *w, Ty::Ptr => 64, _ => 128 };
        if w >= 128 { v as u128 } else { (v as u128) & ((1u128 << w) - 1) }
    }
    fn cst(&mut self, ty: &Ty) -> Cst {
        if let Ty::Fp(w) = ty {
            let neg = if self.eatp('+') { false } else { self.eatp('-') };
            let bits = |v: f64| Cst::Int(if *w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 });
            let v = match self.nx() {
                Tk::W("undef") | Tk::W("poison") => return Cst::Undef,
                Tk::W("zeroinitializer") => return Cst::Zero,
                Tk::W("inf") => f64::INFINITY,
                Tk::W("qnan") | Tk::W("nan") => f64::NAN,
                Tk::W(x) if x.starts_with("0x") => f64::from_bits(u64::from_str_radix(&x[2..], 16).unwrap()),
                Tk::W(x) if x.starts_with("f0x") => return Cst::Int(u64::from_str_radix(&x[3..], 16).unwrap() as u128),
                Tk::W(x) => x.parse::<f64>().unwrap(),
                Tk::N(n) => n as f64,
                x => panic!("float? {:?}", x),
            };
            return bits(if neg { -v } else { v });
        }
        match self.nx() {
            Tk::N(n) => Cst::Int(Self::mask(n, ty)),
            Tk::W("true") => Cst::Int(1),
            Tk::W("false") => Cst::Int(0),
            Tk::W("null") | Tk::W("none") => Cst::Int(0),
            Tk::W("zeroinitializer") => Cst::Zero,
            Tk::W("undef") | Tk::W("poison") => Cst::Undef,
            Tk::W("c") => match self.nx() { Tk::S(v) => Cst::Bytes(v), x => panic!("c? {:?}", x) },
            Tk::W("splat") => {
                self.exp('(');
                let t = self.ty();
                let c = self.cst(&t);
                self.exp(')');
                if let Ty::Vect(n, _) = ty { Cst::Agg((0..*n).map(|_| c.clone()).collect()) } else { panic!("splat") }
            }
            Tk::G(g) => Cst::Global(g),
            Tk::P('<') => {
                if self.eatp('{') { let v = self.cstlist('}'); self.exp('>'); Cst::Agg(v) } else { Cst::Agg(self.cstlist('>')) }
            }
            Tk::P('{') => Cst::Agg(self.cstlist('}')),
            Tk::P('[') => Cst::Agg(self.cstlist(']')),
            Tk::W("getelementptr") => {
                while let Some(Tk::W(w)) = self.pk() { if ["inbounds", "nuw", "nusw"].contains(w) { self.i += 1; } else if *w == "inrange" { self.i += 1; self.skip_paren(); } else { break; } }
                self.exp('(');
                let t = self.ty();
                self.exp(',');
                let bt = self.ty();
                let base = self.cst(&bt);
                let mut off = 0i64;
                let mut cur = t;
                let mut first = true;
                while self.eatp(',') {
                    let it = self.ty();
                    let c = self.cst(&it);
                    let n = match c { Cst::Int(v) => { let w = it.width(); sext128(v, w) as i64 } Cst::Zero => 0, _ => panic!("gep idx") };
                    if first { off += n * cur.size() as i64; first = false; } else {
                        match cur.clone() {
                            Ty::Struct(ts, _) => { off += cur.layout().0[n as usize] as i64; cur = ts[n as usize].clone(); }
                            Ty::Arr(_, e) | Ty::Vect(_, e) => { off += n * e.size() as i64; cur = *e; }
                            _ => panic!("gep"),
                        }
                    }
                }
                self.exp(')');
                Cst::GlobalOff(Box::new(base), off)
            }
            Tk::W("inttoptr") | Tk::W("ptrtoint") | Tk::W("bitcast") | Tk::W("addrspacecast") => {
                self.exp('(');
                let t = self.ty();
                let c = self.cst(&t);
                assert!(self.eatw("to"));
                self.ty();
                self.exp(')');
                c
            }
            x => panic!("const? {:?} near {:?}", x, &self.t[self.i.saturating_sub(8)..(self.i + 8).min(self.t.len())]),
        }
    }
    fn cstlist(&mut self, close: char) -> Vec<Cst> {
        let mut v = Vec::new();
        if self.eatp(close) { return v; }
        loop { let t = self.ty(); v.push(self.cst(&t)); if self.eatp(close) { return v; } self.exp(','); }
    }
}

pub fn sext128(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

struct FnCtx { regs: HashMap<String, u32>, regw: HashMap<u32, u32>, nregs: u32, labels: HashMap<String, u32> }
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
}

pub fn parse(src: &str) -> Module {
    let mut m = Module::default();
    let mut named: HashMap<String, Ty> = HashMap::new();
    // split in top-level chunks
    let mut lines: Vec<&str> = src.lines().collect();
    lines.push("");
    let mut funcs: Vec<(String, Vec<&str>)> = Vec::new();
    let mut i = 0;
    let mut globs: Vec<&str> = Vec::new();
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("define ") {
            let mut body = Vec::new();
            i += 1;
            while lines[i] != "}" { body.push(lines[i]); i += 1; }
            funcs.push((l.to_string(), body));
        } else if l.starts_with("declare ") {
            let n = fname(l);
            let id = m.exts.len() as u32;
            m.exts.push(n.clone());
            m.eidx.insert(n, id);
        } else if l.starts_with('@') {
            globs.push(l);
        } else if l.starts_with('%') {
            let t = lex(l);
            if let Tk::L(n) = &t[0] {
                let mut p = Ps { t: &t, i: 3, named: &named };
                let ty = p.ty();
                let n = n.clone();
                named.insert(n, ty);
            }
        }
        i += 1;
    }
    for (k, (h, _)) in funcs.iter().enumerate() { m.fidx.insert(fname(h), k as u32); }
    // globals: parse
    let mut parsed = Vec::new();
    for l in globs {
        let t = lex(l);
        let mut p = Ps { t: &t, i: 0, named: &named };
        let name = match p.nx() { Tk::G(g) => g, _ => panic!() };
        p.exp('=');
        let mut external = false;
        let mut alias = false;
        let konst;
        loop {
            match p.nx() {
                Tk::W("external") | Tk::W("extern_weak") => external = true,
                Tk::W("constant") => { konst = true; break; }
                Tk::W("global") => { konst = false; break; }
                Tk::W("alias") => { alias = true; konst = true; break; }
                Tk::W("thread_local") | Tk::W("addrspace") => { if p.isp('(') { p.skip_paren(); } }
                Tk::W(_) => {}
                x => panic!("global? {:?}", x),
            }
        }
        if alias { continue; }
        let ty = p.ty();
        let init = if external { None } else { catch_unwind(AssertUnwindSafe(|| p.cst(&ty))).ok() };
        parsed.push((name, ty, konst, init));
    }
    for (name, ty, konst, init) in parsed {
        let id = m.globals.len() as u32;
        m.gidx.insert(name.clone(), id);
        m.globals.push(Global { name, size: ty.size(), konst, init: init.map(|c| (ty, c)) });
    }
    for (h, body) in funcs { let f = parse_fn(&mut m, &named, &h, &body); m.funcs.push(f); }
    m
}

fn fname(h: &str) -> String {
    let i = h.find('@').unwrap();
    let r = &h[i + 1..];
    if r.starts_with('"') { let e = r[1..].find('"').unwrap(); r[1..1 + e].to_string() } else {
        let e = r.find('(').unwrap();
        r[..e].to_string()
    }
}

fn parse_fn(m: &mut Module, named: &HashMap<String, Ty>, head: &str, body: &[&str]) -> Func {
    let name = fname(head);
    let mut cx = FnCtx { regs: HashMap::new(), regw: HashMap::new(), nregs: 0, labels: HashMap::new() };
    // arguments
    let ht = lex(head);
    let mut p = Ps { t: &ht, i: 0, named };
    while !matches!(p.pk(), Some(Tk::G(_))) { p.i += 1; }
    p.i += 1;
    p.exp('(');
    let mut nargs = 0;
    if !p.eatp(')') {
        loop {
            if matches!(p.pk(), Some(Tk::Ell)) { p.i += 1; p.exp(')'); break; }
            p.ty();
            p.skip_attrs();
            match p.nx() { Tk::L(n) => { let r = cx.reg(&n); assert_eq!(r, nargs); } x => panic!("arg {:?} in {}", x, name) }
            nargs += 1;
            if p.eatp(')') { break; }
            p.exp(',');
        }
    }
    // join lines and split blocks
    let mut blocks: Vec<(String, Vec<String>)> = vec![(format!("{}", nargs), Vec::new())];
    let mut first = true;
    let mut k = 0;
    while k < body.len() {
        let l = body[k];
        if l.is_empty() { k += 1; continue; }
        if !l.starts_with(' ') && !l.starts_with(';') {
            // label
            let mut lab = l.split(';').next().unwrap().trim();
            lab = lab.strip_suffix(':').unwrap_or_else(|| panic!("label {}", l));
            let lab = lab.trim_matches('"').to_string();
            if first && blocks[0].1.is_empty() { blocks[0].0 = lab; } else { blocks.push((lab, Vec::new())); }
            first = false;
            k += 1;
            continue;
        }
        if l.starts_with(';') { k += 1; continue; }
        first = false;
        let mut s = l.to_string();
        let tr = l.trim_start();
        if tr.starts_with("switch ") && !l.contains(']') {
            loop { k += 1; s.push(' '); s.push_str(body[k]); if body[k].trim_start().starts_with(']') { break; } }
        } else if l.contains(" invoke ") || tr.starts_with("invoke ") {
            if !l.contains(" unwind label ") { k += 1; s.push(' '); s.push_str(body[k]); }
        } else if l.contains("= landingpad") {
            while k + 1 < body.len() { let n = body[k + 1].trim_start(); if n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") { k += 1; } else { break; } }
        }
        blocks.last_mut().unwrap().1.push(s);
        k += 1;
    }
    for (i, (l, _)) in blocks.iter().enumerate() { cx.labels.insert(l.clone(), i as u32); }
    let mut code = Vec::new();
    let mut bl = Vec::new();
    for (_, insts) in blocks.iter() {
        let mut b = Block { ipdom: NOJOIN, start: code.len() as u32, phis: Vec::new(), incoming: HashMap::new() };
        for s in insts {
            let t = lex(s);
            let mut p = Ps { t: &t, i: 0, named };
            // an instruction the parser does not know is an error only when it is executed
            let k = code.len();
            if catch_unwind(AssertUnwindSafe(|| parse_inst(m, &mut cx, &mut p, &mut code, &mut b, s))).is_err() { code.truncate(k); code.push(Inst::Unsupported(s.trim().chars().take(80).collect())); }
        }
        // phis may have been pushed to code as nothing; start is right
        bl.push(b);
    }
    let ends: Vec<u32> = (0..bl.len()).map(|i| if i + 1 < bl.len() { bl[i + 1].start } else { code.len() as u32 }).collect();
    let succ: Vec<Vec<usize>> = ends.iter().enumerate().map(|(i, e)| {
        let _ = i;
        match &code[*e as usize - 1] {
            Inst::Br { t } => vec![*t as usize],
            Inst::CBr { t, f, .. } => vec![*t as usize, *f as usize],
            Inst::Switch { def, cases, .. } => { let mut v: Vec<usize> = cases.iter().map(|c| c.1 as usize).collect(); v.push(*def as usize); v }
            Inst::Call { next: Some(n), .. } => vec![*n as usize],
            Inst::Ret { .. } => vec![usize::MAX],
            _ => vec![],
        }
    }).collect();
    let ip = ipdoms(&succ);
    for (b, d) in bl.iter_mut().zip(ip) { b.ipdom = d; }
    let regw = (0..cx.nregs).map(|r| cx.regw.get(&r).copied().unwrap_or(64)).collect();
    Func { name, regw, nregs: cx.nregs, nargs, code, blocks: bl, ret_w: 0 }
}

/// immediate post-dominators, ignoring blocks that cannot reach a return
fn ipdoms(succ: &[Vec<usize>]) -> Vec<u32> {
    let n = succ.len();
    let exit = n;
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    let s2: Vec<Vec<usize>> = succ.iter().map(|v| v.iter().map(|x| if *x == usize::MAX { exit } else { *x }).collect()).collect();
    for (i, v) in s2.iter().enumerate() { for x in v { pred[*x].push(i); } }
    // reverse post order from exit over pred edges
    let mut order = Vec::new();
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((b, k)) = stack.pop() {
        if k < pred[b].len() { stack.push((b, k + 1)); let p = pred[b][k]; if !seen[p] { seen[p] = true; stack.push((p, 0)); } } else { order.push(b); }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, b) in order.iter().enumerate() { num[*b] = i; }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut ch = true;
    while ch {
        ch = false;
        for b in order.iter().rev() {
            if *b == exit { continue; }
            let mut d = usize::MAX;
            for x in &s2[*b] {
                if !seen[*x] || idom[*x] == usize::MAX { continue; }
                if d == usize::MAX { d = *x; } else {
                    let (mut a, mut c) = (d, *x);
                    while a != c { while num[a] < num[c] { a = idom[a]; } while num[c] < num[a] { c = idom[c]; } }
                    d = a;
                }
            }
            if idom[*b] != d { idom[*b] = d; ch = true; }
        }
    }
    (0..n).map(|b| if idom[b] == usize::MAX { NOJOIN } else if idom[b] == exit { ATRET } else { idom[b] as u32 }).collect()
}

fn opd(m: &mut Module, cx: &mut FnCtx, p: &mut Ps, ty: &Ty) -> Opd {
    if let Some(Tk::L(n)) = p.pk() {
        let n = n.clone();
        p.i += 1;
        let r = cx.reg(&n);
        if !ty.is_agg() && !matches!(ty, Ty::Other) { cx.regw.insert(r, ty.width()); }
        return Opd::R(r);
    }
    let c = p.cst(ty);
    match ty {
        Ty::Int(w) if *w > 64 => { let v = m.kval(ty, &c); m.consts.push(v); Opd::A(m.consts.len() as u32 - 1) }
        t if t.is_agg() => { let v = m.kval(ty, &c); m.consts.push(v); Opd::A(m.consts.len() as u32 - 1) }
        Ty::Other => Opd::K(0),
        _ => Opd::K(m.kint(&c) as u64),
    }
}

fn label(cx: &FnCtx, p: &mut Ps) -> u32 {
    assert!(p.eatw("label"));
    match p.nx() { Tk::L(n) => *cx.labels.get(&n).unwrap_or_else(|| panic!("label {}", n)), x => panic!("label? {:?}", x) }
}

fn parse_inst(m: &mut Module, cx: &mut FnCtx, p: &mut Ps, code: &mut Vec<Inst>, b: &mut Block, text: &str) {
    let mut d = u32::MAX;
    if let Some(Tk::L(n)) = p.pk() {
        let n = n.clone();
        p.i += 1;
        p.exp('=');
        d = cx.reg(&n);
    }
    let mut w = match p.nx() { Tk::W(w) => w.to_string(), x => panic!("inst? {:?} in {}", x, text) };
    while ["tail", "musttail", "notail"].contains(&w.as_str()) { w = match p.nx() { Tk::W(w) => w.to_string(), _ => panic!() }; }
    let skip_flags = |p: &mut Ps| {
        while let Some(Tk::W(f)) = p.pk() {
            if ["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "volatile", "atomic"].contains(f) { p.i += 1; } else if *f == "inrange" { p.i += 1; p.skip_paren(); } else { break; }
        }
    };
    let bop = match w.as_str() {
        "add" => Some(Bop::Add), "sub" => Some(Bop::Sub), "mul" => Some(Bop::Mul), "udiv" => Some(Bop::UDiv), "sdiv" => Some(Bop::SDiv),
        "urem" => Some(Bop::URem), "srem" => Some(Bop::SRem), "and" => Some(Bop::And), "or" => Some(Bop::Or), "xor" => Some(Bop::Xor),
        "shl" => Some(Bop::Shl), "lshr" => Some(Bop::LShr), "ashr" => Some(Bop::AShr), _ => None,
    };
    if let Some(op) = bop {
        skip_flags(p);
        let ty = p.ty();
        let a = opd(m, cx, p, &ty);
        p.exp(',');
        let bb = opd(m, cx, p, &ty);
        if ty.is_agg() || ty.width() > 128 { code.push(Inst::Unsupported(text.to_string())); return; }
        code.push(Inst::Bin { op, w: ty.width(), d, a, b: bb });
        return;
    }
    let fop = ["fadd", "fsub", "fmul", "fdiv", "frem", "fneg"].iter().position(|x| *x == w);
    let fflags = |p: &mut Ps| while let Some(Tk::W(f)) = p.pk() { if ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"].contains(f) { p.i += 1; } else { break; } };
    if let Some(op) = fop {
        fflags(p);
        let ty = p.ty();
        let a = opd(m, cx, p, &ty);
        let bb = if op < 5 { p.exp(','); opd(m, cx, p, &ty) } else { Opd::K(0) };
        if ty.is_agg() { code.push(Inst::Unsupported(text.to_string())); return; }
        code.push(Inst::Fp { op: op as u32, from: ty.width(), to: ty.width(), d, a, b: bb });
        return;
    }
    match w.as_str() {
        "fcmp" => {
            fflags(p);
            let pr = match p.nx() { Tk::W(x) => x.to_string(), _ => panic!() };
            let op = match pr.as_str() { "false" => 0, "oeq" => 2, "ogt" => 1, "oge" => 3, "olt" => 4, "ole" => 6, "one" => 5, "ord" => 7, "ueq" => 10, "ugt" => 9, "uge" => 11, "ult" => 12, "ule" => 14, "une" => 13, "uno" => 8, "true" => 15, _ => panic!() };
            let ty = p.ty();
            let a = opd(m, cx, p, &ty);
            p.exp(',');
            let bb = opd(m, cx, p, &ty);
            if ty.is_agg() { code.push(Inst::Unsupported(text.to_string())); return; }
            code.push(Inst::Fp { op: 20 + op, from: ty.width(), to: 1, d, a, b: bb });
        }
        "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
            skip_flags(p);
            fflags(p);
            let ty = p.ty();
            let a = opd(m, cx, p, &ty);
            assert!(p.eatw("to"));
            let to = p.ty();
            if ty.is_agg() || to.is_agg() { code.push(Inst::Unsupported(text.to_string())); return; }
            let op = match w.as_str() { "uitofp" => 10, "sitofp" => 11, "fptoui" => 12, "fptosi" => 13, _ => 14 };
            code.push(Inst::Fp { op, from: ty.width(), to: to.width(), d, a, b: Opd::K(0) });
        }
        "icmp" => {
            skip_flags(p);
            let pr = match p.nx() { Tk::W(x) => x.to_string(), _ => panic!() };
            let pr = match pr.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!() };
            let ty = p.ty();
            let a = opd(m, cx, p, &ty);
            p.exp(',');
            let bb = opd(m, cx, p, &ty);
            if ty.is_agg() { code.push(Inst::Unsupported(text.to_string())); return; }
            code.push(Inst::Icmp { p: pr, w: ty.width(), d, a, b: bb });
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
            skip_flags(p);
            let ty = p.ty();
            let a = opd(m, cx, p, &ty);
            assert!(p.eatw("to"));
            let to = p.ty();
            if ty.is_agg() || to.is_agg() {
                if w == "bitcast" { code.push(Inst::BitcastVec { from: ty, to, d, a }); } else { code.push(Inst::Unsupported(text.to_string())); }
                return;
            }
            let k = match w.as_str() {
                "zext" => CastK::ZExt, "sext" => CastK::SExt, "trunc" => CastK::Trunc,
                "ptrtoint" | "inttoptr" => if ty.width() < to.width() { CastK::ZExt } else if ty.width() > to.width() { CastK::Trunc } else { CastK::Copy },
                _ => CastK::Copy,
            };
            code.push(Inst::Cast { k, from: ty.width(), to: to.width(), d, a });
        }
        "select" => {
            skip_flags(p);
            let ct = p.ty();
            let c = opd(m, cx, p, &ct);
            p.exp(',');
            let ty = p.ty();
            let a = opd(m, cx, p, &ty);
            p.exp(',');
            let ty2 = p.ty();
            let bb = opd(m, cx, p, &ty2);
            if ct.is_agg() { code.push(Inst::Unsupported(text.to_string())); return; }
            code.push(Inst::Select { d, w: ty.width(), c, a, b: bb });
        }
        "freeze" => {
            let ty = p.ty();
            let a = opd(m, cx, p, &ty);
            code.push(Inst::Cast { k: CastK::Copy, from: 64, to: 64, d, a });
        }
        "load" => {
            skip_flags(p);
            let ty = p.ty();
            p.exp(',');
            let pt = p.ty();
            let a = opd(m, cx, p, &pt);
            code.push(Inst::Load { d, ty, a });
        }
        "store" => {
            skip_flags(p);
            let ty = p.ty();
            let v = opd(m, cx, p, &ty);
            p.exp(',');
            let pt = p.ty();
            let a = opd(m, cx, p, &pt);
            code.push(Inst::Store { ty, v, a });
        }
        "getelementptr" => {
            skip_flags(p);
            let mut cur = p.ty();
            p.exp(',');
            let bt = p.ty();
            let base = opd(m, cx, p, &bt);
            let mut off = 0i64;
            let mut terms = Vec::new();
            let mut first = true;
            while p.eatp(',') {
                if matches!(p.pk(), Some(Tk::Meta)) { break; }
                let it = p.ty();
                let o = opd(m, cx, p, &it);
                let iw = it.width();
                if first {
                    first = false;
                    match o { Opd::K(v) => off += sext128(v as u128, iw) as i64 * cur.size() as i64, o => terms.push((o, iw, cur.size() as i64)) }
                } else {
                    match cur.clone() {
                        Ty::Struct(ts, _) => { let n = match o { Opd::K(v) => v as usize, _ => panic!() }; off += cur.layout().0[n] as i64; cur = ts[n].clone(); }
                        Ty::Arr(_, e) | Ty::Vect(_, e) => {
                            match o { Opd::K(v) => off += sext128(v as u128, iw) as i64 * e.size() as i64, o => terms.push((o, iw, e.size() as i64)) }
                            cur = *e;
                        }
                        _ => panic!("gep {}", text),
                    }
                }
            }
            code.push(Inst::Gep { d, base, off, terms });
        }
        "alloca" => {
            let ty = p.ty();
            let mut n = Opd::K(1);
            if p.eatp(',') {
                if !p.isw("align") && !matches!(p.pk(), Some(Tk::Meta)) { let t = p.ty(); n = opd(m, cx, p, &t); }
            }
            code.push(Inst::Alloca { d, size: ty.size(), n });
        }
        "br" => {
            if p.isw("label") { let t = label(cx, p); code.push(Inst::Br { t }); } else {
                let ty = p.ty();
                let c = opd(m, cx, p, &ty);
                p.exp(',');
                let t = label(cx, p);
                p.exp(',');
                let f = label(cx, p);
                code.push(Inst::CBr { c, t, f });
            }
        }
        "switch" => {
            let ty = p.ty();
            let v = opd(m, cx, p, &ty);
            p.exp(',');
            let def = label(cx, p);
            p.exp('[');
            let mut cases = Vec::new();
            while !p.eatp(']') {
                let t = p.ty();
                let k = match opd(m, cx, p, &t) { Opd::K(k) => k, _ => panic!() };
                p.exp(',');
                cases.push((k, label(cx, p)));
            }
            code.push(Inst::Switch { w: ty.width(), v, def, cases });
        }
        "ret" => {
            let ty = p.ty();
            let v = if ty == Ty::Void { None } else { Some(opd(m, cx, p, &ty)) };
            code.push(Inst::Ret { v });
        }
        "unreachable" => code.push(Inst::Unreachable),
        "phi" => {
            skip_flags(p);
            let ty = p.ty();
            let mut inc = Vec::new();
            loop {
                p.exp('[');
                let v = opd(m, cx, p, &ty);
                p.exp(',');
                let l = match p.nx() { Tk::L(n) => cx.labels[&n], x => panic!("{:?}", x) };
                p.exp(']');
                inc.push((l, v));
                if !p.eatp(',') { break; }
                if !p.isp('[') { break; }
            }
            let idx = b.phis.len();
            b.phis.push(d);
            for (l, v) in inc {
                let e = b.incoming.entry(l).or_default();
                if e.len() == idx { e.push(v); }
            }
        }
        "call" | "invoke" => {
            // attributes / cc
            let mut rty;
            loop {
                p.skip_attrs();
                match p.pk() {
                    Some(Tk::W("fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "nnan" | "ninf" | "nsz" | "tailcc")) => p.i += 1,
                    _ => break,
                }
            }
            rty = p.ty();
            if matches!(p.pk(), Some(Tk::W("asm"))) { code.push(Inst::Unsupported(text.to_string())); return; }
            if let Ty::Other = rty { rty = Ty::Void; }
            let callee = match p.nx() {
                Tk::G(g) => {
                    if let Some(i) = m.fidx.get(&g) { Callee::Func(*i) } else { Callee::Ext(*m.eidx.get(&g).unwrap_or_else(|| panic!("callee {}", g))) }
                }
                Tk::L(n) => Callee::Ind(Opd::R(cx.reg(&n))),
                Tk::W("inttoptr") | Tk::W("asm") => { code.push(Inst::Unsupported(text.to_string())); return; }
                x => panic!("callee {:?} in {}", x, text),
            };
            p.exp('(');
            let mut args = Vec::new();
            let mut widths = Vec::new();
            if !p.eatp(')') {
                loop {
                    if p.isw("metadata") { while !p.isp(',') && !p.isp(')') { p.i += 1; } args.push(Opd::K(0)); widths.push(0); } else {
                        let t = p.ty();
                        p.skip_attrs();
                        args.push(opd(m, cx, p, &t));
                        widths.push(t.width());
                    }
                    if p.eatp(')') { break; }
                    p.exp(',');
                }
            }
            let next = if w == "invoke" {
                while !p.isw("to") { p.i += 1; }
                p.i += 1;
                Some(label(cx, p))
            } else { None };
            let dd = if d == u32::MAX { None } else { Some(d) };
            if let Callee::Ext(e) = &callee {
                let n = &m.exts[*e as usize];
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.assume") || n.starts_with("llvm.donothing") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.invariant") || n.starts_with("llvm.fake") {
                    return;
                }
            }
            let rw = rty.width();
            code.push(Inst::Call { d: dd, w: rw, callee, args, widths, next });
        }
        "extractvalue" => {
            let ty = p.ty();
            let a = opd(m, cx, p, &ty);
            let mut idx = Vec::new();
            while p.eatp(',') { match p.pk() { Some(Tk::N(_)) => idx.push(p.num() as u32), _ => break } }
            code.push(Inst::ExtractValue { d, a, idx });
        }
        "insertvalue" => {
            let ty = p.ty();
            let a = opd(m, cx, p, &ty);
            p.exp(',');
            let t2 = p.ty();
            let bb = opd(m, cx, p, &t2);
            let mut idx = Vec::new();
            while p.eatp(',') { match p.pk() { Some(Tk::N(_)) => idx.push(p.num() as u32), _ => break } }
            code.push(Inst::InsertValue { d, a, b: bb, idx });
        }
        "extractelement" => {
            let ty = p.ty();
            let a = opd(m, cx, p, &ty);
            p.exp(',');
            let t2 = p.ty();
            let i = opd(m, cx, p, &t2);
            code.push(Inst::ExtractElt { d, a, i });
        }
        "insertelement" => {
            let ty = p.ty();
            let n = match &ty { Ty::Vect(n, _) => *n as u32, _ => 0 };
            let a = opd(m, cx, p, &ty);
            p.exp(',');
            let t2 = p.ty();
            let bb = opd(m, cx, p, &t2);
            p.exp(',');
            let t3 = p.ty();
            let i = opd(m, cx, p, &t3);
            code.push(Inst::InsertElt { d, a, b: bb, i, n });
        }
        "fence" => {}
        "atomicrmw" => {
            skip_flags(p);
            let op = match p.nx() { Tk::W("add") => 0, Tk::W("sub") => 1, Tk::W("xchg") => 2, Tk::W("or") => 3, Tk::W("and") => 4, Tk::W("xor") => 5, _ => 9 };
            let pt = p.ty();
            let a = opd(m, cx, p, &pt);
            p.exp(',');
            let t = p.ty();
            let v = opd(m, cx, p, &t);
            code.push(Inst::Rmw { d, op, w: t.width(), a, v });
        }
        "cmpxchg" => {
            skip_flags(p);
            while p.isw("weak") || p.isw("volatile") { p.i += 1; }
            let pt = p.ty();
            let a = opd(m, cx, p, &pt);
            p.exp(',');
            let t = p.ty();
            let c = opd(m, cx, p, &t);
            p.exp(',');
            let t2 = p.ty();
            let n = opd(m, cx, p, &t2);
            code.push(Inst::CmpXchg { d, w: t.width(), a, c, n });
        }
        _ => code.push(Inst::Unsupported(text.to_string())),
    }
}

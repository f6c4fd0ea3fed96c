//! Symbolic interpreter over the parsed IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V { C(u64), S(Ex), A(Rc<Vec<V>>), W(Rc<u128>) }

fn vsame(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(x), V::C(y)) => x == y,
        (V::S(x), V::S(y)) => x == y,
        (V::A(x), V::A(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| vsame(p, q))),
        (V::W(x), V::W(y)) => x == y,
        _ => false,
    }
}

#[derive(Clone, Default)]
pub struct SymOv { map: FxMap<u32, (Ex, u8)>, bits: Vec<u64> }

#[derive(Clone)]
pub struct Obj { data: Vec<u8>, sym: Option<Box<SymOv>> }

impl Obj {
    fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: None } }
    #[inline]
    fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => (off..off + n).any(|i| s.bits.get(i >> 6).map_or(false, |b| b >> (i & 63) & 1 == 1)),
        }
    }
    fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            for i in off..off + n {
                if let Some(b) = s.bits.get_mut(i >> 6) {
                    if *b >> (i & 63) & 1 == 1 { *b &= !(1 << (i & 63)); s.map.remove(&(i as u32)); }
                }
            }
            if s.map.is_empty() { self.sym = None; }
        }
    }
    fn set_sym(&mut self, off: usize, e: Ex, k: u8) {
        let s = self.sym.get_or_insert_with(Default::default);
        if s.bits.len() <= off >> 6 { s.bits.resize((off >> 6) + 1, 0); }
        s.bits[off >> 6] |= 1 << (off & 63);
        s.map.insert(off as u32, (e, k));
    }
}

#[derive(Clone)]
pub struct Frame { f: u32, base: usize, pc: u32, block: u32, ret: Option<u32>, next: Option<u32>, allocas: Vec<u32> }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<V>,
    objs: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    gm: FxMap<u32, Rc<Obj>>,
    dom: Vec<[u64; 4]>,
    multi: Vec<Ex>,
    model: Vec<u8>,
    known: Vec<Option<Sub>>,
    neq: BTreeSet<(u16, u16)>,
    kmask: u128,
    steps: u64,
    forks: u32,
    emits: Rc<Vec<V>>,
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub id: u64, pub bytes: Vec<u8>, pub stack: Vec<String> }

pub struct Limits { pub path_steps: u64, pub deadline: Option<Instant>, pub max_viol: usize, pub enum_cap: usize }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub ended: u64, pub assumed: u64, pub forks: u64, pub steps: u64, pub merges: u64, pub joins: u64, pub domain_decided: u64,
    pub asserts: u64, pub asserts_folded: u64, pub asserts_solver: u64, pub maxdepth: u32, pub unsupported: BTreeMap<String, u64>, pub incomplete: u64, pub unknown: u64,
    pub maxvars: usize, pub max_path_steps: u64,
}

enum Stop { End, Fork(Vec<State>), Assumed, Err(String), Join, Budget }

/// where a speculative run stops: frame depth, join block (or ATRET), step limit
#[derive(Clone, Copy)]
struct Until { depth: usize, block: u32, steps: u64 }

enum Addr { C(u64), T(u16, Tab), Multi(Ex) }

/// solver queries of a job before questions about a single byte are answered by its domain alone
const SOLVER_FIRST: u64 = 20000;

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    pub sol: Solver,
    gconst: Vec<Rc<Obj>>,
    kconst: Vec<V>,
    pub params: Vec<u64>,
    pub concrete: Option<Vec<u8>>,
    pub lim: Limits,
    pub st: Stats,
    pub viol: Vec<Violation>,
    pub reached: BTreeMap<u64, u64>,
    /// steps of the longest path that finished
    longest: u64,
    pub fsteps: Vec<u64>,
    pub emits: Vec<u64>,
    pub samples: Vec<(Vec<u8>, Vec<u64>)>,
    qcache: FxMap<Vec<Ex>, Option<Vec<(u16, u8)>>>,
    ext_kind: Vec<Ek>,
    merge_fail: FxMap<(u32, u32), u32>,
    pub hash_const: bool,
    pub sites: BTreeMap<(u32, u32), u64>,
    pub dbg: Option<u32>,
    mstat: FxMap<(u32, u32), (u32, u32)>,
    mdepth: u32,
    pub merge1: u64,
    pub merge2: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ek { SymByte, SymAssume, SymAssert, SymReach, SymParam, SymEmit, SymIsConst, SymPick, Memcpy, Memset, Bcmp, UMax, UMin, SMax, SMin, USubSat, UAddSat, UMulO, USubO, UAddO, SMulO, SAddO, SSubO, Ctpop, Ctlz, Cttz, Abs, Fshl, Fshr, Bswap, Bitrev, Tla, Malloc, Calloc, Realloc, Free, PosixMemalign, RandKeys, Panic, Expect, Strlen, UCmp, SCmp, Other }

fn ext_kind(n: &str) -> Ek {
    let t: &[(&str, Ek)] = &[
        ("llvm.memcpy", Ek::Memcpy), ("llvm.memmove", Ek::Memcpy), ("llvm.memset", Ek::Memset), ("llvm.umax", Ek::UMax), ("llvm.umin", Ek::UMin),
        ("llvm.smax", Ek::SMax), ("llvm.smin", Ek::SMin), ("llvm.usub.sat", Ek::USubSat), ("llvm.uadd.sat", Ek::UAddSat),
        ("llvm.umul.with", Ek::UMulO), ("llvm.usub.with", Ek::USubO), ("llvm.uadd.with", Ek::UAddO), ("llvm.smul.with", Ek::SMulO), ("llvm.sadd.with", Ek::SAddO), ("llvm.ssub.with", Ek::SSubO),
        ("llvm.ctpop", Ek::Ctpop), ("llvm.ctlz", Ek::Ctlz), ("llvm.cttz", Ek::Cttz), ("llvm.abs", Ek::Abs), ("llvm.fshl", Ek::Fshl), ("llvm.fshr", Ek::Fshr), ("llvm.bswap", Ek::Bswap), ("llvm.bitreverse", Ek::Bitrev),
        ("llvm.threadlocal", Ek::Tla), ("llvm.expect", Ek::Expect), ("llvm.ucmp", Ek::UCmp), ("llvm.scmp", Ek::SCmp),
    ];
    for (p, k) in t { if n.starts_with(p) { return *k; } }
    match n {
        "sym_byte" => Ek::SymByte, "sym_assume" => Ek::SymAssume, "sym_assert" => Ek::SymAssert, "sym_reach" => Ek::SymReach, "sym_param" => Ek::SymParam, "sym_emit" => Ek::SymEmit, "sym_is_const" => Ek::SymIsConst, "sym_pick" => Ek::SymPick,
        "memcpy" | "memmove" => Ek::Memcpy, "memset" => Ek::Memset, "bcmp" | "memcmp" => Ek::Bcmp, "malloc" => Ek::Malloc, "calloc" => Ek::Calloc, "realloc" => Ek::Realloc, "free" => Ek::Free, "posix_memalign" => Ek::PosixMemalign, "strlen" => Ek::Strlen,
        _ => if n.contains("hashmap_random_keys") { Ek::RandKeys } else if n.contains("panic") || n.contains("fail") || n.contains("handle_alloc_error") || n.contains("handle_error") || n.contains("capacity_overflow") || n.contains("abort") || n.contains("overflow") { Ek::Panic } else { Ek::Other },
    }
}

fn dom_full() -> [u64; 4] { [!0; 4] }
fn dom_has(d: &[u64; 4], i: usize) -> bool { d[i >> 6] >> (i & 63) & 1 == 1 }
fn dom_count(d: &[u64; 4]) -> u32 { d.iter().map(|x| x.count_ones()).sum() }
fn dom_first(d: &[u64; 4]) -> Option<u8> { for k in 0..4 { if d[k] != 0 { return Some((k * 64) as u8 + d[k].trailing_zeros() as u8); } } None }

const DYN: u64 = 0x80000;
fn pc0(s: &State) -> u32 { s.frames.last().unwrap().pc }
pub fn short(n: &str) -> String {
    // crude demangling of rust v0 names: keep identifiers
    let b = n.as_bytes();
    let mut out: Vec<String> = Vec::new();
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if k > 0 && j + k <= b.len() && k < 60 { out.push(n[j..j + k].to_string()); i = j + k; continue; }
        }
        if b[i] == b's' || b[i] == b'C' { }
        i += 1;
    }
    if out.is_empty() { n.to_string() } else { out.into_iter().filter(|s| !(s.len() > 9 && !s.contains('_') && s.chars().any(|c| c.is_ascii_digit()) && s.chars().any(|c| c.is_ascii_uppercase()))).collect::<Vec<_>>().join("::") }
}

fn float(op: u32, from: u32, to: u32, x: u64, y: u64) -> u64 {
    let ld = |v: u64| if from == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
    let st = |v: f64| if to == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
    let (a, b) = (ld(x), ld(y));
    let sx = ((x << (64 - from)) as i64) >> (64 - from);
    let mask = if to >= 64 { !0 } else { (1u64 << to) - 1 };
    match op {
        0 => st(a + b), 1 => st(a - b), 2 => st(a * b), 3 => st(a / b), 4 => st(a % b), 5 => st(-a),
        10 => if to == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() },
        11 => if to == 32 { (sx as f32).to_bits() as u64 } else { (sx as f64).to_bits() },
        12 => a as u64 & mask, 13 => a as i64 as u64 & mask, 14 => st(a),
        _ => { let m = op - 20; let r = if a.is_nan() || b.is_nan() { 8 } else if a > b { 1 } else if a == b { 2 } else { 4 }; (m & r != 0) as u64 }
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, lim: Limits, z3_timeout: u32) -> Self {
        let mut gconst = Vec::new();
        for g in &m.globals {
            let mut o = Obj::new(g.size as usize);
            if let Some((ty, c)) = &g.init { m.write_init(ty, c, &mut o.data); }
            gconst.push(Rc::new(o));
        }
        fn kv(k: &KVal) -> V { match k { KVal::Int(v) => if *v > u64::MAX as u128 { V::W(Rc::new(*v)) } else { V::C(*v as u64) }, KVal::Agg(v) => V::A(Rc::new(v.iter().map(kv).collect())) } }
        let kconst = m.consts.iter().map(kv).collect();
        let ek = m.exts.iter().map(|n| ext_kind(n)).collect();
        Exec {
            m, ar: Arena::new(), sol: Solver::new(z3_timeout), gconst, kconst, params: vec![], concrete: None, lim, st: Stats::default(), viol: vec![], reached: BTreeMap::new(),
            longest: 0, fsteps: vec![0; m.funcs.len()], emits: vec![], samples: vec![], qcache: Default::default(), ext_kind: ek, merge_fail: Default::default(), hash_const: true, sites: BTreeMap::new(), dbg: std::env::var("DBG_PC").ok().and_then(|x| x.parse().ok()), mstat: Default::default(), mdepth: 0, merge1: 600, merge2: 60,
        }
    }
    pub fn initial(&self, entry: &str) -> State {
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let n = self.m.funcs[f as usize].nregs as usize;
        State {
            frames: vec![Frame { f, base: 0, pc: self.m.funcs[f as usize].blocks[0].start, block: 0, ret: None, next: None, allocas: vec![] }],
            regs: vec![V::C(0); n], objs: vec![], free: vec![], gm: Default::default(), dom: vec![], multi: vec![], model: vec![], known: vec![], neq: BTreeSet::new(), kmask: 0, steps: 0, forks: 0, emits: Rc::new(vec![]),
        }
    }

    // ---------- path condition ----------
    fn simp(&mut self, s: &State, e: Ex) -> Ex {
        let e = if self.ar.vars[e as usize] & s.kmask != 0 { let mut memo = Default::default(); self.ar.subst(e, &s.known, s.kmask, &mut memo) } else { e };
        if let Some((v, t)) = self.ar.as_tab(e) {
            let d = &s.dom[v as usize];
            let first = t[dom_first(d).unwrap() as usize];
            for i in 0..256 { if dom_has(d, i) && t[i] != first { return e; } }
            let w = self.ar.w(e);
            return self.ar.konst(w, first);
        }
        e
    }
    fn sv(&mut self, s: &State, v: V) -> V {
        if let V::S(e) = v { let e = self.simp(s, e); match self.ar.as_const(e) { Some(k) => V::C(k), None => V::S(e) } } else { v }
    }
    /// feasibility of the path condition together with `extra` (already simplified)
    fn sat(&mut self, s: &State, extra: Ex) -> Option<Vec<(u16, u8)>> {
        if let Some(k) = self.ar.as_const(extra) { return if k != 0 { Some(vec![]) } else { None }; }
        let mut vars = self.ar.vars[extra as usize];
        let mut used = vec![false; s.multi.len()];
        let mut conj = vec![];
        loop {
            let mut ch = false;
            for (i, c) in s.multi.iter().enumerate() {
                if !used[i] && self.ar.vars[*c as usize] & vars != 0 { used[i] = true; vars |= self.ar.vars[*c as usize]; conj.push(*c); ch = true; }
            }
            if !ch { break; }
        }
        // single variable, no linked constraint: when there are very many such questions, the domain answers them
        if conj.is_empty() && self.sol.queries >= SOLVER_FIRST {
            if let Some((v, t)) = self.ar.as_tab(extra) {
                let d = &s.dom[v as usize];
                self.st.domain_decided += 1;
                for i in 0..256 { if dom_has(d, i) && t[i] != 0 { return Some(vec![(v, i as u8)]); } }
                return None;
            }
        }
        for v in 0..s.dom.len() {
            if vars >> v & 1 == 1 && s.dom[v] != dom_full() {
                let mut t = [0u64; 256];
                for i in 0..256 { t[i] = dom_has(&s.dom[v], i) as u64; }
                conj.push(self.ar.tab(v as u16, 1, t));
            }
        }
        conj.push(extra);
        conj.sort();
        conj.dedup();
        if let Some(r) = self.qcache.get(&conj) { return r.clone(); }
        let r = match self.sol.check(&self.ar, &conj, vars) {
            Res::Sat(m) => Some(m),
            Res::Unsat => None,
            Res::Unknown => { self.st.unknown += 1; None }
        };
        self.qcache.insert(conj, r.clone());
        r
    }
    fn eval_model(&mut self, s: &State, e: Ex) -> u64 { let mut memo = Default::default(); self.ar.eval(e, &s.model, &mut memo) }
    /// (model if cond can be true, model if it can be false)
    fn both(&mut self, s: &State, cond: Ex) -> (Option<Vec<(u16, u8)>>, Option<Vec<(u16, u8)>>) {
        let n = self.ar.not1(cond);
        if s.multi.contains(&cond) { return (Some(vec![]), None); }
        if s.multi.contains(&n) { return (None, Some(vec![])); }
        if self.eval_model(s, cond) != 0 { let f = self.sat(s, n); (Some(vec![]), f) } else { let t = self.sat(s, cond); (t, Some(vec![])) }
    }
    fn set_dom(&mut self, s: &mut State, v: u16, d: [u64; 4]) -> bool {
        let k = dom_count(&d);
        s.dom[v as usize] = d;
        if k == 0 { return false; }
        if k == 1 && s.kmask >> v & 1 == 0 {
            s.known[v as usize] = dom_first(&d).map(Sub::Val);
            s.kmask |= 1 << v;
            let sv = s.known[v as usize];
            for w in 0..s.known.len() { if s.known[w] == Some(Sub::Var(v)) { s.known[w] = sv; } }
            if s.multi.iter().any(|c| self.ar.vars[*c as usize] >> v & 1 == 1) {
                let old = std::mem::take(&mut s.multi);
                for c in old { if !self.add(s, c) { return false; } }
            }
        }
        true
    }
    fn add(&mut self, s: &mut State, c: Ex) -> bool {
        let c = self.simp(s, c);
        if let Some(k) = self.ar.as_const(c) { return k != 0; }
        if let Some((v, t)) = self.ar.as_tab(c) {
            let mut d = s.dom[v as usize];
            for i in 0..256 { if t[i] == 0 { d[i >> 6] &= !(1 << (i & 63)); } }
            return self.set_dom(s, v, d);
        }
        if let Node::Op { op: Bop::And, a, b, .. } = self.ar.nodes[c as usize] {
            if self.ar.w(c) == 1 { return self.add(s, a) && self.add(s, b); }
        }
        if let Some((u, v, inj)) = self.var_eq(c) {
            if inj { return self.unify(s, u, v); }
        }
        let n = self.ar.not1(c);
        if let Some((u, v, _)) = self.var_eq(n) {
            // (t(u) == t(v)) is false, so u and v differ
            s.neq.insert((u.min(v), u.max(v)));
        }
        if !s.multi.contains(&c) { s.multi.push(c); }
        true
    }
    /// c is `t(u) == t(v)` for one table t; the flag says whether t is injective
    fn var_eq(&self, c: Ex) -> Option<(u16, u16, bool)> {
        if let Node::Op { op: Bop::Eq, a, b, .. } = self.ar.nodes[c as usize] {
            if let (Some((u, t)), Some((v, t2))) = (self.ar.as_tab(a), self.ar.as_tab(b)) {
                if t[..] == t2[..] {
                    let mut x = t.to_vec();
                    x.sort();
                    x.dedup();
                    return Some((u, v, x.len() == 256));
                }
            }
        }
        None
    }
    fn unify(&mut self, s: &mut State, u: u16, v: u16) -> bool {
        let (u, v) = (u.min(v), u.max(v));
        let mut d = s.dom[u as usize];
        for k in 0..4 { d[k] &= s.dom[v as usize][k]; }
        s.known[v as usize] = Some(Sub::Var(u));
        s.kmask |= 1 << v;
        // earlier aliases of v now point at u
        for w in 0..s.known.len() { if s.known[w] == Some(Sub::Var(v)) { s.known[w] = Some(Sub::Var(u)); } }
        let old = std::mem::take(&mut s.multi);
        for p in std::mem::take(&mut s.neq) {
            let r = |x: u16| if x == v { u } else { x };
            let (a, b) = (r(p.0), r(p.1));
            s.neq.insert((a.min(b), a.max(b)));
        }
        if !self.set_dom(s, u, d) { return false; }
        for c in old { if !self.add(s, c) { return false; } }
        true
    }
    fn fix_model(&self, s: &mut State) {
        for v in 0..s.known.len() { if let Some(Sub::Var(u)) = s.known[v] { s.model[v] = s.model[u as usize]; } else if let Some(Sub::Val(x)) = s.known[v] { s.model[v] = x; } }
    }
    fn child(&mut self, s: &State, cond: Ex, model: &[(u16, u8)]) -> State {
        let mut n = s.clone();
        for (v, x) in model { n.model[*v as usize] = *x; }
        let ok = self.add(&mut n, cond);
        if !ok { panic!("infeasible child"); }
        self.fix_model(&mut n);
        n.forks += 1;
        n
    }
    fn validate(&mut self, s: &State) -> bool {
        for (v, d) in s.dom.iter().enumerate() {
            if let Some(Sub::Var(u)) = s.known[v] { if s.model[v] != s.model[u as usize] { return false; } }
            if !dom_has(d, s.model[v] as usize) { return false; }
        }
        let mut memo = Default::default();
        s.multi.iter().all(|c| self.ar.eval(*c, &s.model, &mut memo) != 0)
    }

    // ---------- memory ----------
    fn alloc(&mut self, s: &mut State, n: u64) -> u64 {
        let o = Rc::new(Obj::new(n as usize));
        let id = match s.free.pop() { Some(i) => { s.objs[i as usize] = Some(o); i } None => { s.objs.push(Some(o)); s.objs.len() as u32 - 1 } };
        (id as u64 + DYN) << 32
    }
    fn free_obj(&mut self, s: &mut State, a: u64) -> Result<(), String> {
        let id = (a >> 32).wrapping_sub(DYN) as usize;
        if id >= s.objs.len() || s.objs[id].is_none() { return Err(format!("bad free {:x}", a)); }
        s.objs[id] = None;
        s.free.push(id as u32);
        Ok(())
    }
    #[inline]
    fn obj<'a>(&'a self, s: &'a State, a: u64, n: u64) -> Result<&'a Obj, String> {
        let id = a >> 32;
        let off = a & 0xffff_ffff;
        let o: &Obj = if id >= DYN {
            match s.objs.get((id - DYN) as usize) { Some(Some(o)) => o, _ => return Err(format!("memory: dangling {:x}", a)) }
        } else if id >= 0x100 && id < 0x100 + self.gconst.len() as u64 {
            let g = (id - 0x100) as u32;
            match s.gm.get(&g) { Some(o) => o, None => &self.gconst[g as usize] }
        } else { return Err(format!("memory: bad address {:x}", a)); };
        if off + n > o.data.len() as u64 { return Err(format!("memory: out of bounds {:x}+{} of {}", a, n, o.data.len())); }
        Ok(o)
    }
    fn obj_mut<'a>(&'a self, s: &'a mut State, a: u64, n: u64) -> Result<&'a mut Obj, String> {
        let id = a >> 32;
        let off = a & 0xffff_ffff;
        let o: &mut Rc<Obj> = if id >= DYN {
            match s.objs.get_mut((id - DYN) as usize) { Some(Some(o)) => o, _ => return Err(format!("memory: dangling {:x}", a)) }
        } else if id >= 0x100 && id < 0x100 + self.gconst.len() as u64 {
            let g = (id - 0x100) as u32;
            if self.m.globals[g as usize].konst { return Err("memory: write to constant".into()); }
            s.gm.entry(g).or_insert_with(|| self.gconst[g as usize].clone())
        } else { return Err(format!("memory: bad address {:x}", a)); };
        if off + n > o.data.len() as u64 { return Err(format!("memory: out of bounds write {:x}+{} of {}", a, n, o.data.len())); }
        Ok(Rc::make_mut(o))
    }
    fn rd_byte(&mut self, s: &State, a: u64) -> Result<Ex, String> {
        let (c, sy) = {
            let o = self.obj(s, a, 1)?;
            let off = (a & 0xffff_ffff) as usize;
            if o.has_sym(off, 1) { (0, Some(o.sym.as_ref().unwrap().map[&(off as u32)])) } else { (o.data[off], None) }
        };
        Ok(match sy { Some((e, k)) => self.ar.slice(e, 8 * k as u32, 8), None => self.ar.konst(8, c as u64) })
    }
    /// scalar load of `w` bits
    fn load(&mut self, s: &State, a: u64, w: u32) -> Result<V, String> {
        let n = (w as u64 + 7) / 8;
        let off = (a & 0xffff_ffff) as usize;
        let o = self.obj(s, a, n)?;
        if o.sym.is_none() || !o.has_sym(off, n as usize) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
                return Ok(V::C(u64::from_le_bytes(b) & mask(w)));
            }
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
            return Ok(V::W(Rc::new(u128::from_le_bytes(b))));
        }
        if n > 8 { return Err("unsupported: wide symbolic load".into()); }
        // fast: one expression
        let mp = &o.sym.as_ref().unwrap().map;
        if let Some((e, 0)) = mp.get(&(off as u32)).copied() {
            if self.ar.w(e) as u64 == 8 * n && (1..n).all(|i| mp.get(&((off as u64 + i) as u32)) == Some(&(e, i as u8))) {
                let e = if w as u64 != 8 * n { self.ar.slice(e, 0, w) } else { e };
                return Ok(self.load_fix(s, e));
            }
        }
        let mut parts = Vec::new();
        for i in 0..n { let b = self.rd_byte(s, a + i)?; parts.push(Part { e: b, lo: 0, len: 8 }); }
        let e = self.ar.cat(parts);
        let e = self.ar.slice(e, 0, w);
        Ok(self.load_fix(s, e))
    }
    fn load_fix(&mut self, s: &State, e: Ex) -> V {
        if let Some((v, t)) = self.ar.as_tab(e) {
            if let Some(Sub::Val(k)) = s.known[v as usize] { return V::C(t[k as usize]); }
            return V::S(e);
        }
        match self.ar.as_const(e) { Some(k) => V::C(k), None => V::S(e) }
    }
    fn store(&mut self, s: &mut State, a: u64, w: u32, v: &V) -> Result<(), String> {
        let n = ((w + 7) / 8) as usize;
        let off = (a & 0xffff_ffff) as usize;
        match v {
            V::C(x) => {
                let o = self.obj_mut(s, a, n as u64)?;
                if n <= 8 { o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]); } else { o.data[off..off + 8].copy_from_slice(&x.to_le_bytes()); for i in 8..n { o.data[off + i] = 0; } }
                if o.sym.is_some() { o.clear_sym(off, n); }
            }
            V::W(x) => {
                let o = self.obj_mut(s, a, n as u64)?;
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if o.sym.is_some() { o.clear_sym(off, n); }
            }
            V::S(e) => {
                let e = self.simp(s, *e);
                if let Some(k) = self.ar.as_const(e) { return self.store(s, a, w, &V::C(k)); }
                let e = self.ar.zext(e, 8 * n as u32);
                let o = self.obj_mut(s, a, n as u64)?;
                for i in 0..n { o.set_sym(off + i, e, i as u8); }
            }
            V::A(_) => return Err("unsupported: aggregate scalar store".into()),
        }
        Ok(())
    }
    fn load_ty(&mut self, s: &State, a: u64, ty: &Ty) -> Result<V, String> {
        match ty {
            Ty::Struct(ts, _) => {
                let (offs, _) = ty.layout();
                let mut v = Vec::new();
                for (t, o) in ts.iter().zip(offs) { v.push(self.load_ty(s, a + o, t)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vect(n, t) if **t == Ty::Int(1) => { let x = self.load(s, a, *n as u32)?; self.explode(x, *n as u32, 1) }
            Ty::Arr(n, t) | Ty::Vect(n, t) => {
                let sz = t.size();
                let mut v = Vec::new();
                for i in 0..*n { v.push(self.load_ty(s, a + i * sz, t)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Fp(w) => self.load(s, a, *w),
            _ => self.load(s, a, ty.width()),
        }
    }
    fn store_ty(&mut self, s: &mut State, a: u64, ty: &Ty, v: &V) -> Result<(), String> {
        match (ty, v) {
            (Ty::Struct(ts, _), V::A(x)) => {
                let (offs, _) = ty.layout();
                for i in 0..ts.len() { self.store_ty(s, a + offs[i], &ts[i], &x[i])?; }
                Ok(())
            }
            (Ty::Vect(n, t), V::A(_)) if **t == Ty::Int(1) => { let x = self.implode(v, 1)?; self.store(s, a, *n as u32, &x) }
            (Ty::Arr(n, t), V::A(x)) | (Ty::Vect(n, t), V::A(x)) => {
                let sz = t.size();
                for i in 0..*n { self.store_ty(s, a + i * sz, t, &x[i as usize])?; }
                Ok(())
            }
            _ => self.store(s, a, ty.width(), v),
        }
    }
    fn explode(&mut self, x: V, n: u32, ew: u32) -> Result<V, String> {
        let mut v = Vec::new();
        for i in 0..n {
            v.push(match &x {
                V::C(c) => V::C(if i * ew >= 64 { 0 } else { (c >> (i * ew)) & mask(ew) }),
                V::W(c) => V::C((**c >> (i * ew)) as u64 & mask(ew)),
                V::S(e) => { let p = self.ar.slice(*e, i * ew, ew); match self.ar.as_const(p) { Some(k) => V::C(k), None => V::S(p) } }
                _ => return Err("unsupported: explode".into()),
            });
        }
        Ok(V::A(Rc::new(v)))
    }
    fn implode(&mut self, v: &V, ew: u32) -> Result<V, String> {
        if let V::A(x) = v {
            if x.iter().all(|y| matches!(y, V::C(_))) {
                let mut r = 0u128;
                for (i, y) in x.iter().enumerate() { if let V::C(c) = y { r |= ((c & mask(ew)) as u128) << (i as u32 * ew); } }
                return Ok(if x.len() as u32 * ew > 64 { V::W(Rc::new(r)) } else { V::C(r as u64) });
            }
            if x.len() as u32 * ew > 64 { return Err("unsupported: wide symbolic vector".into()); }
            let mut ps = Vec::new();
            for y in x.iter() { let e = self.ex(y, ew); ps.push(Part { e, lo: 0, len: ew as u8 }); }
            return Ok(V::S(self.ar.cat(ps)));
        }
        Err("unsupported: implode".into())
    }
    fn ex(&mut self, v: &V, w: u32) -> Ex { match v { V::C(c) => self.ar.konst(w, *c), V::S(e) => *e, _ => panic!("ex of aggregate") } }
    fn mk(&self, e: Ex) -> V { match self.ar.as_const(e) { Some(k) => V::C(k), None => V::S(e) } }

    fn addr(&mut self, s: &State, e: Ex) -> Addr {
        let e = self.simp(s, e);
        if let Some(k) = self.ar.as_const(e) { return Addr::C(k); }
        if let Some((v, t)) = self.ar.as_tab(e) { return Addr::T(v, t.clone()); }
        Addr::Multi(e)
    }
    /// all feasible values of e, each with a model
    fn values(&mut self, s: &State, e: Ex, cap: usize) -> Result<Vec<(u64, Ex, Vec<(u16, u8)>)>, String> {
        let mut out = Vec::new();
        if let Some((v, t)) = self.ar.as_tab(e) {
            let t = t.clone();
            let mut vals: BTreeSet<u64> = BTreeSet::new();
            for i in 0..256 { if dom_has(&s.dom[v as usize], i) { vals.insert(t[i]); } }
            for k in vals { let c = self.ar.eqc(e, k); if let Some(m) = self.sat(s, c) { out.push((k, c, m)); } }
            return Ok(out);
        }
        let mut rest = self.ar.konst(1, 1);
        let first = self.eval_model(s, e);
        let c = self.ar.eqc(e, first);
        out.push((first, c, vec![]));
        let mut nc = self.ar.not1(c);
        loop {
            rest = self.ar.and1(rest, nc);
            let r = self.simp(s, rest);
            match self.sat(s, r) {
                None => return Ok(out),
                Some(m) => {
                    let mut md = s.model.clone();
                    for (v, x) in &m { md[*v as usize] = *x; }
                    let mut memo = Default::default();
                    let k = self.ar.eval(e, &md, &mut memo);
                    let c = self.ar.eqc(e, k);
                    out.push((k, c, m));
                    nc = self.ar.not1(c);
                    if out.len() > cap { return Err("enumeration cap".into()); }
                }
            }
        }
    }
    /// fork so that register r takes each of its feasible values; the instruction is then re-executed
    fn concretise(&mut self, s: &State, o: &Opd, e: Ex) -> Stop {
        let e = self.simp(s, e);
        let vals = match self.values(s, e, self.lim.enum_cap) { Ok(v) => v, Err(e) => return Stop::Err(e) };
        let r = match o { Opd::R(r) => *r, _ => return Stop::Err("concretise non-register".into()) };
        let mut out = Vec::new();
        for (k, c, m) in vals {
            let mut n = self.child(s, c, &m);
            let b = n.frames.last().unwrap().base;
            n.regs[b + r as usize] = V::C(k);
            n.frames.last_mut().unwrap().pc -= 1;
            out.push(n);
        }
        Stop::Fork(out)
    }
    /// the cell expression at address t[k], knowing that the address variable has value k
    fn cell_at(&mut self, s: &State, v: u16, k: usize, e: Ex) -> Ex {
        let e = self.simp(s, e);
        if self.ar.as_const(e).is_some() { return e; }
        let mut known = vec![None; s.known.len()];
        known[v as usize] = Some(Sub::Val(k as u8));
        let mut memo = Default::default();
        let e = self.ar.subst(e, &known, 1 << v, &mut memo);
        if self.ar.as_const(e).is_some() { return e; }
        let mut memo = Default::default();
        let doms = |x: u16| -> Option<[u64; 4]> {
            let mut d = s.dom[x as usize];
            if s.neq.contains(&(x.min(v), x.max(v))) { d[k >> 6] &= !(1 << (k & 63)); }
            Some(d)
        };
        self.ar.restrict(e, &doms, &mut memo)
    }
    /// load through an address that is a table of one variable
    fn load_tab(&mut self, s: &State, v: u16, t: &Tab, w: u32) -> Result<V, Option<u16>> {
        let d = s.dom[v as usize];
        let mut r = [0u64; 256];
        let mut cache: FxMap<u64, V> = Default::default();
        for i in 0..256 {
            if !dom_has(&d, i) { continue; }
            let c = match cache.get(&t[i]) { Some(c) => c.clone(), None => { let c = self.load(s, t[i], w).map_err(|_| None)?; cache.insert(t[i], c.clone()); c } };
            r[i] = match c {
                V::C(k) => k,
                V::S(e) => {
                    let e = self.cell_at(s, v, i, e);
                    match self.ar.as_const(e) { Some(k) => k, None => {
                        let vs = self.ar.vars[e as usize];
                        for x in 0..128u16 { if vs >> x & 1 == 1 && x != v && !s.neq.contains(&(x.min(v), x.max(v))) { return Err(Some(x)); } }
                        return Err(None);
                    } }
                }
                _ => return Err(None),
            };
        }
        // fill outside the domain with some in-domain value to keep tables canonical
        let f = r[dom_first(&d).unwrap() as usize];
        for i in 0..256 { if !dom_has(&d, i) { r[i] = f; } }
        let e = self.ar.tab(v, w, r);
        Ok(self.mk(e))
    }
    /// load through an address with at most 8 free bits from a constant table that is affine over GF(2) in those bits
    /// (checksum tables): an exclusive-or of the address bits
    fn load_affine(&mut self, s: &State, e: Ex, w: u32) -> Option<V> {
        if w > 64 { return None; }
        let e = self.simp(s, e);
        let (e, base) = match self.ar.nodes[e as usize] {
            Node::Op { op: Bop::Add, a, b, .. } => match (self.ar.as_const(a), self.ar.as_const(b)) { (Some(k), None) => (b, k), (None, Some(k)) => (a, k), _ => return None },
            _ => (e, 0),
        };
        let mut fixed = 0u64;
        let mut bits: Vec<(u32, Ex)> = vec![];
        let mut pos = 0u32;
        for p in self.ar.parts(e) {
            if let Some(k) = self.ar.as_const(p.e) { fixed |= (k >> p.lo & mask(p.len as u32)) << pos; }
            else {
                if bits.len() + p.len as usize > 8 { return None; }
                for i in 0..p.len as u32 { let b = self.ar.slice(p.e, p.lo as u32 + i, 1); bits.push((pos + i, b)); }
            }
            pos += p.len as u32;
        }
        let n = bits.len();
        let mut t = Vec::with_capacity(1 << n);
        for v in 0..1usize << n {
            let mut a = fixed;
            for (i, (p, _)) in bits.iter().enumerate() { if v >> i & 1 == 1 { a |= 1 << p; } }
            match self.load(s, a.wrapping_add(base), w) { Ok(V::C(k)) => t.push(k), _ => return None }
        }
        for v in 0..1usize << n {
            let mut x = t[0];
            for i in 0..n { if v >> i & 1 == 1 { x ^= t[1 << i] ^ t[0]; } }
            if x != t[v] { return None; }
        }
        let mut r = self.ar.konst(w, t[0]);
        for i in 0..n {
            let k = self.ar.konst(w, t[1 << i] ^ t[0]);
            let b = if w == 1 { bits[i].1 } else { self.ar.sext(bits[i].1, w) };
            let x = self.ar.bin(Bop::And, w, b, k);
            r = self.ar.bin(Bop::Xor, w, r, x);
        }
        Some(self.mk(r))
    }
    fn store_tab(&mut self, s: &mut State, v: u16, t: &Tab, w: u32, val: &V) -> Option<()> {
        let d = s.dom[v as usize];
        let val = match val { V::C(k) => self.ar.konst(w, *k), V::S(e) => self.simp(s, *e), _ => return None };
        let mut addrs: BTreeSet<u64> = BTreeSet::new();
        for i in 0..256 { if dom_has(&d, i) { addrs.insert(t[i]); } }
        let mut plan = Vec::new();
        for a in addrs {
            let old = self.load(s, a, w).ok()?;
            let old = match old { V::C(k) => self.ar.konst(w, k), V::S(e) => self.simp(s, e), _ => return None };
            let mut c = [0u64; 256];
            for i in 0..256 { c[i] = (t[i] == a && dom_has(&d, i)) as u64; }
            let c = self.ar.tab(v, 1, c);
            let e = self.ar.ite(c, val, old);
            plan.push((a, self.mk(e)));
        }
        for (a, x) in plan { self.store(s, a, w, &x).ok()?; }
        Some(())
    }
    /// fork on whether two symbolic bytes are equal; the instruction is then re-executed
    fn split_eq(&mut self, s: &State, u: u16, v: u16) -> Stop {
        let a = self.ar.var(u);
        let b = self.ar.var(v);
        let c = self.ar.bin(Bop::Eq, 8, a, b);
        let n = self.ar.not1(c);
        let (t, f) = self.both(s, c);
        let mut out = Vec::new();
        if let Some(m) = t { let mut x = self.child(s, c, &m); x.frames.last_mut().unwrap().pc -= 1; out.push(x); }
        if let Some(m) = f { let mut x = self.child(s, n, &m); x.frames.last_mut().unwrap().pc -= 1; out.push(x); }
        if out.is_empty() { return Stop::Err("infeasible split".into()); }
        Stop::Fork(out)
    }

    // ---------- values ----------
    #[inline]
    fn get(&self, s: &State, base: usize, o: &Opd) -> V {
        match o { Opd::R(r) => s.regs[base + *r as usize].clone(), Opd::K(k) => V::C(*k), Opd::A(i) => self.kconst[*i as usize].clone() }
    }
    fn w128(v: &V) -> Option<u128> { match v { V::C(c) => Some(*c as u128), V::W(w) => Some(**w), _ => None } }
    fn norm128(w: u32, v: u128) -> V {
        let m = if w >= 128 { !0 } else { (1u128 << w) - 1 };
        let v = v & m;
        if w <= 64 { V::C(v as u64) } else { V::W(Rc::new(v)) }
    }
    fn bin(&mut self, op: Bop, w: u32, a: V, b: V) -> Result<V, String> {
        if w > 64 {
            let (x, y) = match (Self::w128(&a), Self::w128(&b)) { (Some(x), Some(y)) => (x, y), _ => return Err("unsupported: symbolic i128".into()) };
            let r = match op {
                Bop::Add => x.wrapping_add(y), Bop::Sub => x.wrapping_sub(y), Bop::Mul => x.wrapping_mul(y), Bop::And => x & y, Bop::Or => x | y, Bop::Xor => x ^ y,
                Bop::Shl => if y >= w as u128 { 0 } else { x << y }, Bop::LShr => if y >= w as u128 { 0 } else { x >> y }, Bop::UDiv => if y == 0 { 0 } else { x / y }, Bop::URem => if y == 0 { 0 } else { x % y },
                _ => return Err("unsupported: i128 op".into()),
            };
            return Ok(Self::norm128(w, r));
        }
        match (&a, &b) {
            (V::C(x), V::C(y)) => Ok(V::C(eval_bop(op, w, *x, *y))),
            (V::A(_), _) | (_, V::A(_)) | (V::W(_), _) | (_, V::W(_)) => Err("unsupported: aggregate arithmetic".into()),
            _ => { let x = self.ex(&a, w); let y = self.ex(&b, w); let e = self.ar.bin(op, w, x, y); Ok(self.mk(e)) }
        }
    }
    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> Result<V, String> {
        let (op, sw, neg) = match p {
            Pred::Eq => (Bop::Eq, false, false), Pred::Ne => (Bop::Eq, false, true), Pred::Ult => (Bop::Ult, false, false), Pred::Uge => (Bop::Ult, false, true),
            Pred::Ugt => (Bop::Ult, true, false), Pred::Ule => (Bop::Ult, true, true), Pred::Slt => (Bop::Slt, false, false), Pred::Sge => (Bop::Slt, false, true), Pred::Sgt => (Bop::Slt, true, false), Pred::Sle => (Bop::Slt, true, true),
        };
        if w > 64 {
            let (x, y) = match (Self::w128(&a), Self::w128(&b)) { (Some(x), Some(y)) => (x, y), _ => return Err("unsupported: symbolic i128".into()) };
            let (x, y) = if sw { (y, x) } else { (x, y) };
            let r = match op { Bop::Eq => x == y, Bop::Ult => x < y, _ => sext128(x, w) < sext128(y, w) };
            return Ok(V::C((r ^ neg) as u64));
        }
        let (a, b) = if sw { (b, a) } else { (a, b) };
        let r = self.bin(op, w, a, b)?;
        Ok(match r { V::C(k) => V::C(k ^ neg as u64), V::S(e) => if neg { let n = self.ar.not1(e); self.mk(n) } else { V::S(e) }, _ => unreachable!() })
    }
    fn cast(&mut self, k: CastK, from: u32, to: u32, v: V) -> Result<V, String> {
        if from > 64 || to > 64 {
            let x = match Self::w128(&v) { Some(x) => x, None => {
                if k == CastK::ZExt || k == CastK::SExt { return Err("unsupported: symbolic i128".into()); }
                return Err("unsupported: symbolic i128".into()) } };
            return Ok(match k { CastK::SExt => Self::norm128(to, sext128(x, from) as u128), CastK::Copy => v, _ => Self::norm128(to, x) });
        }
        match v {
            V::C(c) => Ok(V::C(match k { CastK::ZExt | CastK::Copy => c, CastK::SExt => sx(c, from) as u64 & mask(to), CastK::Trunc => c & mask(to) })),
            V::S(e) => { let r = match k { CastK::ZExt => self.ar.zext(e, to), CastK::SExt => self.ar.sext(e, to), CastK::Trunc => self.ar.slice(e, 0, to), CastK::Copy => e }; Ok(self.mk(r)) }
            v => if k == CastK::Copy { Ok(v) } else { Err("unsupported: cast of aggregate".into()) },
        }
    }
    fn select(&mut self, w: u32, c: Ex, a: V, b: V) -> Option<V> {
        if vsame(&a, &b) { return Some(a); }
        match (&a, &b) {
            (V::A(x), V::A(y)) => {
                let mut r = Vec::new();
                for (p, q) in x.iter().zip(y.iter()) {
                    let w2 = match (p, q) { (V::S(e), _) | (_, V::S(e)) => self.ar.w(*e), _ => 64 };
                    if vsame(p, q) { r.push(p.clone()); } else { if w2 == 64 && !matches!((p, q), (V::S(_), _) | (_, V::S(_))) { return None; } r.push(self.select(w2, c, p.clone(), q.clone())?); }
                }
                Some(V::A(Rc::new(r)))
            }
            (V::A(_), _) | (_, V::A(_)) | (V::W(_), _) | (_, V::W(_)) => None,
            _ => {
                if w == 0 || w > 64 { return None; }
                let x = self.ex(&a, w);
                let y = self.ex(&b, w);
                let e = self.ar.ite(c, x, y);
                Some(self.mk(e))
            }
        }
    }

    #[inline]
    fn jump(&self, s: &mut State, b: u32) {
        let m = self.m;
        let fr = s.frames.last_mut().unwrap();
        let f = &m.funcs[fr.f as usize];
        let bl = &f.blocks[b as usize];
        let from = fr.block;
        fr.block = b;
        fr.pc = bl.start;
        let base = fr.base;
        if !bl.phis.is_empty() {
            let inc = bl.incoming.get(&from).unwrap_or_else(|| panic!("phi edge in {}", f.name));
            if inc.len() == 1 { let v = self.get(s, base, &inc[0]); s.regs[base + bl.phis[0] as usize] = v; } else {
                let mut tmp: Vec<V> = Vec::with_capacity(inc.len());
                for o in inc { tmp.push(self.get(s, base, o)); }
                for (p, v) in bl.phis.iter().zip(tmp) { s.regs[base + *p as usize] = v; }
            }
        }
    }

    /// Loop merging: at an undecided branch on one variable, if one side runs back to this branch without
    /// side effects, execute the loop for all values at once and leave through the other side.
    fn try_merge(&mut self, s: &mut State, cond: Ex, t: u32, f: u32) -> bool {
        let var = match self.ar.as_tab(cond) { Some((v, _)) => v, None => return false };
        let (fi, blk, pc) = { let fr = s.frames.last().unwrap(); (fr.f, fr.block, fr.pc) };
        if *self.merge_fail.get(&(fi, pc)).unwrap_or(&0) > 40 { return false; }
        let base = s.frames.last().unwrap().base;
        let nregs = self.m.funcs[fi as usize].nregs as usize;
        for (cont, exit, pol) in [(t, f, true), (f, t, false)] {
            let saved_regs: Vec<V> = s.regs[base..base + nregs].to_vec();
            let saved_dom = s.dom[var as usize];
            let saved_frame = s.frames.last().unwrap().clone();
            let saved_steps = s.steps;
            let mut acc = saved_regs.clone();
            let mut alive = if pol { cond } else { self.ar.not1(cond) };
            let mut ok = true;
            let mut iters = 0;
            'it: loop {
                // restrict the domain
                let mut d = saved_dom;
                match self.ar.nodes[alive as usize].clone() {
                    Node::Const { v, .. } => if v == 0 { break },
                    Node::Tab { tab, .. } => for i in 0..256 { if tab[i] == 0 { d[i >> 6] &= !(1 << (i & 63)); } },
                    _ => { ok = false; break }
                }
                if dom_count(&d) == 0 { break; }
                s.dom[var as usize] = d;
                self.jump(s, cont);
                let mut n = 0;
                let c2;
                loop {
                    n += 1;
                    if n > 300 { ok = false; break 'it; }
                    let (cf, cpc, cb) = { let fr = s.frames.last().unwrap(); (fr.f, fr.pc, fr.base) };
                    let m = self.m;
                    let ins = &m.funcs[cf as usize].code[cpc as usize];
                    if let Inst::CBr { c, .. } = ins {
                        if s.frames.last().unwrap().block == blk && cpc + 1 == pc { let v = self.get(s, cb, c); c2 = self.sv(s, v); break; }
                    }
                    s.frames.last_mut().unwrap().pc += 1;
                    s.steps += 1;
                    if !self.pure_step(s, ins, cb) { ok = false; break 'it; }
                }
                let c = match c2 { V::C(k) => self.ar.konst(1, k), V::S(e) => e, _ => { ok = false; break; } };
                let c = if pol { c } else { self.ar.not1(c) };
                match self.ar.nodes[c as usize] { Node::Const { .. } => {}, Node::Tab { var: v2, .. } if v2 == var => {}, _ => { ok = false; break; } }
                let nc = self.ar.not1(c);
                let exit_now = self.ar.and1(alive, nc);
                if self.ar.as_const(exit_now) != Some(0) {
                    for r in 0..nregs {
                        let cur = s.regs[base + r].clone();
                        if !vsame(&cur, &acc[r]) {
                            let w = match (&cur, &acc[r]) { (V::S(e), _) | (_, V::S(e)) => self.ar.w(*e), _ => self.m.funcs[fi as usize].regw[r] };
                            match self.select(w, exit_now, cur, acc[r].clone()) { Some(x) => acc[r] = x, None => { ok = false; break 'it; } }
                        }
                    }
                }
                alive = self.ar.and1(alive, c);
                iters += 1;
                if iters > 5000 { ok = false; break; }
            }
            s.dom[var as usize] = saved_dom;
            if ok && iters > 0 {
                for (r, v) in acc.into_iter().enumerate() { s.regs[base + r] = v; }
                *s.frames.last_mut().unwrap() = saved_frame;
                self.jump(s, exit);
                self.st.merges += 1;
                return true;
            }
            for (r, v) in saved_regs.into_iter().enumerate() { s.regs[base + r] = v; }
            *s.frames.last_mut().unwrap() = saved_frame;
            s.steps = saved_steps;
        }
        *self.merge_fail.entry((fi, pc)).or_insert(0) += 1;
        false
    }
    /// Run both sides of an undecided branch to its join point and merge the two states.
    fn try_join(&mut self, s: &mut State, e: Ex, t: u32, f: u32, outer: Option<Until>) -> bool {
        if self.mdepth > 24 { return false; }
        let (fi, pc, blk) = { let fr = s.frames.last().unwrap(); (fr.f, fr.pc, fr.block) };
        let join = self.m.funcs[fi as usize].blocks[blk as usize].ipdom;
        if join == NOJOIN || (join == ATRET && s.frames.len() == 1) { return false; }
        let single = self.ar.as_tab(e).is_some();
        let budget = if single { self.merge1 } else { self.merge2 };
        if budget == 0 { return false; }
        let key = (fi, pc | if single { 0 } else { 1 << 31 });
        let (ok, bad) = *self.mstat.get(&key).unwrap_or(&(0, 0));
        if bad > 24 && bad > 4 * ok { return false; }
        let (mt, mf) = match self.both(s, e) { (Some(a), Some(b)) => (a, b), _ => return false };
        let ne = self.ar.not1(e);
        let mut a = self.child(s, e, &mt);
        let mut b = self.child(s, ne, &mf);
        let mut lim = s.steps + budget;
        if let Some(o) = outer { lim = lim.min(o.steps); }
        let u = Until { depth: s.frames.len(), block: join, steps: lim };
        self.mdepth += 1;
        let mut good = true;
        for (x, target) in [(&mut a, t), (&mut b, f)] {
            self.jump(x, target);
            if target == join { continue; }
            match self.run(x, Some(u)) { Stop::Join => {}, _ => { good = false; break; } }
        }
        self.mdepth -= 1;
        if good {
            let strict = single && (a.steps.max(b.steps) - s.steps) as u64 > self.merge2.max(100) as u64;
            if let Some(r) = self.merge(s, e, &a, &b, strict) {
                *s = r;
                self.st.joins += 1;
                self.mstat.insert(key, (ok + 1, bad));
                return true;
            }
        }
        self.mstat.insert(key, (ok, bad + 1));
        false
    }
    fn merge_val(&mut self, w: u32, e: Ex, x: V, y: V, single: bool) -> Option<V> {
        if vsame(&x, &y) { return Some(x); }
        let r = self.select(w, e, x, y)?;
        if single { if let V::S(r) = r { if self.ar.vars[r as usize].count_ones() > 1 && self.ar.as_tab(r).is_none() { return None; } } }
        Some(r)
    }
    fn merge(&mut self, p: &State, e: Ex, a: &State, b: &State, single: bool) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.regs.len() != b.regs.len() || a.objs.len() != b.objs.len() || a.free != b.free || a.dom.len() != p.dom.len() || b.dom.len() != p.dom.len() { return None; }
        let mut r = p.clone();
        r.frames = a.frames.clone();
        for (x, y) in a.frames.iter().zip(b.frames.iter()) { if x.f != y.f || x.pc != y.pc || x.block != y.block || x.base != y.base || x.allocas != y.allocas { return None; } }
        r.objs = a.objs.clone();
        r.free = a.free.clone();
        r.regs = a.regs.clone();
        r.gm = a.gm.clone();
        r.steps = a.steps.max(b.steps);
        if !Rc::ptr_eq(&a.emits, &b.emits) { return None; }
        let mut fr = 0;
        for i in 0..r.regs.len() {
            while fr + 1 < a.frames.len() && i >= a.frames[fr + 1].base { fr += 1; }
            if !vsame(&a.regs[i], &b.regs[i]) {
                let w = match (&a.regs[i], &b.regs[i]) { (V::S(x), _) | (_, V::S(x)) => self.ar.w(*x), _ => self.m.funcs[a.frames[fr].f as usize].regw.get(i - a.frames[fr].base).copied().unwrap_or(64) };
                // registers dead after the join may differ arbitrarily; an unmergeable one is only a problem if live
                match self.merge_val(w, e, a.regs[i].clone(), b.regs[i].clone(), single) { Some(v) => r.regs[i] = v, None => return None }
            }
        }
        let mut todo: Vec<(u64, usize)> = Vec::new();
        for i in 0..a.objs.len() {
            match (&a.objs[i], &b.objs[i]) {
                (None, None) => {}
                (Some(x), Some(y)) => { if !Rc::ptr_eq(x, y) { if x.data.len() != y.data.len() { return None; } todo.push(((i as u64 + DYN) << 32, x.data.len())); } }
                _ => return None,
            }
        }
        let gs: BTreeSet<u32> = a.gm.keys().chain(b.gm.keys()).copied().collect();
        for g in gs {
            let same = match (a.gm.get(&g), b.gm.get(&g)) { (Some(x), Some(y)) => Rc::ptr_eq(x, y), _ => false };
            if !same { todo.push(((g as u64 + 0x100) << 32, self.gconst[g as usize].data.len())); }
        }
        for (ad, len) in todo {
            // find differing bytes
            let mut words: BTreeSet<usize> = BTreeSet::new();
            {
                let x = self.obj(a, ad, 0).ok()?;
                let y = self.obj(b, ad, 0).ok()?;
                let empty = SymOv::default();
                let (sx_, sy) = (x.sym.as_deref().unwrap_or(&empty), y.sym.as_deref().unwrap_or(&empty));
                if x.data != y.data { for i in 0..len { if x.data[i] != y.data[i] { words.insert(i & !7); } } }
                for (k, v) in sx_.map.iter() { if sy.map.get(k) != Some(v) { words.insert(*k as usize & !7); } }
                for (k, v) in sy.map.iter() { if sx_.map.get(k) != Some(v) { words.insert(*k as usize & !7); } }
            }
            if words.len() > 600 { return None; }
            for o in words {
                let n = (len - o).min(8);
                let mut at = o;
                let step = if n == 8 { 8 } else { 1 };
                while at < o + n {
                    let x = self.load(a, ad + at as u64, 8 * step as u32).ok()?;
                    let y = self.load(b, ad + at as u64, 8 * step as u32).ok()?;
                    let v = self.merge_val(8 * step as u32, e, x, y, single)?;
                    self.store(&mut r, ad + at as u64, 8 * step as u32, &v).ok()?;
                    at += step;
                }
            }
        }
        Some(r)
    }
    fn pure_step(&mut self, s: &mut State, ins: &Inst, base: usize) -> bool {
        match ins {
            Inst::Bin { op, w, d, a, b } => { let x = self.get(s, base, a); let y = self.get(s, base, b); match self.bin(*op, *w, x, y) { Ok(v) => { let v = self.sv(s, v); s.regs[base + *d as usize] = v; true } Err(_) => false } }
            Inst::Icmp { p, w, d, a, b } => { let x = self.get(s, base, a); let y = self.get(s, base, b); match self.icmp(*p, *w, x, y) { Ok(v) => { s.regs[base + *d as usize] = v; true } Err(_) => false } }
            Inst::Cast { k, from, to, d, a } => { let x = self.get(s, base, a); match self.cast(*k, *from, *to, x) { Ok(v) => { s.regs[base + *d as usize] = v; true } Err(_) => false } }
            Inst::Select { d, w, c, a, b } => {
                let cv = self.get(s, base, c);
                let cv = self.sv(s, cv);
                let x = self.get(s, base, a);
                let y = self.get(s, base, b);
                let r = match cv { V::C(k) => Some(if k != 0 { x } else { y }), V::S(e) => self.select(*w, e, x, y), _ => None };
                match r { Some(v) => { s.regs[base + *d as usize] = v; true } None => false }
            }
            Inst::Gep { d, base: b, off, terms } => match self.gep(s, base, b, *off, terms) { Ok(v) => { s.regs[base + *d as usize] = v; true } Err(_) => false },
            Inst::Load { d, ty, a } => {
                if ty.is_agg() || ty.width() > 64 { return false; }
                let av = self.get(s, base, a);
                let av = self.sv(s, av);
                let r = match av {
                    V::C(x) => self.load(s, x, ty.width()).ok(),
                    V::S(e) => match self.addr(s, e) { Addr::C(x) => self.load(s, x, ty.width()).ok(), Addr::T(v, t) => self.load_tab(s, v, &t, ty.width()).ok(), Addr::Multi(e) => self.load_affine(s, e, ty.width()) },
                    _ => None,
                };
                match r { Some(v) => { s.regs[base + *d as usize] = v; true } None => false }
            }
            Inst::Br { t } => { self.jump(s, *t); true }
            Inst::CBr { c, t, f } => {
                let v = self.get(s, base, c);
                match self.sv(s, v) { V::C(k) => { self.jump(s, if k != 0 { *t } else { *f }); true } _ => false }
            }
            Inst::Call { d: Some(d), callee: Callee::Ext(e), args, widths, w, .. } => {
                // pure intrinsics
                let k = self.ext_kind[*e as usize];
                match self.intrinsic(s, k, *w, args, widths, base) { Some(Ok(v)) => { s.regs[base + *d as usize] = v; true } _ => false }
            }
            Inst::ExtractValue { d, a, idx } => {
                let mut v = self.get(s, base, a);
                for i in idx { v = match v { V::A(x) => x[*i as usize].clone(), _ => return false }; }
                s.regs[base + *d as usize] = v;
                true
            }
            Inst::Nop => true,
            _ => false,
        }
    }
    fn gep(&mut self, s: &State, base: usize, b: &Opd, off: i64, terms: &[(Opd, u32, i64)]) -> Result<V, String> {
        let bv = self.get(s, base, b);
        let mut conc = off as u64;
        let mut sym: Option<Ex> = None;
        match bv { V::C(c) => conc = conc.wrapping_add(c), V::S(e) => sym = Some(e), _ => return Err("gep base".into()) }
        for (o, w, sc) in terms {
            match self.get(s, base, o) {
                V::C(c) => conc = conc.wrapping_add((sx(c, *w)).wrapping_mul(*sc) as u64),
                V::S(e) => {
                    let e = self.simp(s, e);
                    let e = if *w < 64 { self.ar.sext(e, 64) } else { e };
                    let k = self.ar.konst(64, *sc as u64);
                    let t = self.ar.bin(Bop::Mul, 64, e, k);
                    sym = Some(match sym { None => t, Some(x) => self.ar.bin(Bop::Add, 64, x, t) });
                }
                _ => return Err("gep index".into()),
            }
        }
        Ok(match sym { None => V::C(conc), Some(x) => { let k = self.ar.konst(64, conc); let e = self.ar.bin(Bop::Add, 64, x, k); self.mk(e) } })
    }
    /// pure intrinsics; None if not one
    fn intrinsic(&mut self, s: &State, k: Ek, w: u32, args: &[Opd], widths: &[u32], base: usize) -> Option<Result<V, String>> {
        let aw = *widths.get(0).unwrap_or(&0);
        match k {
            Ek::UMax | Ek::UMin | Ek::SMax | Ek::SMin => {
                let a = self.get(s, base, &args[0]);
                let b = self.get(s, base, &args[1]);
                let p = match k { Ek::UMax => Pred::Ugt, Ek::UMin => Pred::Ult, Ek::SMax => Pred::Sgt, _ => Pred::Slt };
                let c = match self.icmp(p, w, a.clone(), b.clone()) { Ok(c) => c, Err(e) => return Some(Err(e)) };
                Some(match c { V::C(x) => Ok(if x != 0 { a } else { b }), V::S(e) => self.select(w, e, a, b).ok_or("select".into()), _ => Err("max".into()) })
            }
            Ek::USubSat | Ek::UAddSat => {
                let a = self.get(s, base, &args[0]);
                let b = self.get(s, base, &args[1]);
                let op = if k == Ek::USubSat { Bop::Sub } else { Bop::Add };
                let r = match self.bin(op, w, a.clone(), b.clone()) { Ok(r) => r, Err(e) => return Some(Err(e)) };
                let c = if k == Ek::USubSat { self.icmp(Pred::Ult, w, a, b) } else { self.icmp(Pred::Ult, w, r.clone(), a) };
                let sat = V::C(if k == Ek::USubSat { 0 } else { mask(w) });
                Some(match c { Ok(V::C(x)) => Ok(if x != 0 { sat } else { r }), Ok(V::S(e)) => self.select(w, e, sat, r).ok_or("select".into()), _ => Err("sat".into()) })
            }
            Ek::UAddO | Ek::USubO | Ek::SAddO | Ek::SSubO | Ek::UMulO | Ek::SMulO => {
                let a = self.get(s, base, &args[0]);
                let b = self.get(s, base, &args[1]);
                Some(self.overflow(s, k, aw, a, b))
            }
            Ek::Ctpop | Ek::Ctlz | Ek::Cttz | Ek::Bswap | Ek::Bitrev => {
                let a = self.get(s, base, &args[0]);
                let a = self.sv(s, a);
                let f = |x: u64| -> u64 { match k { Ek::Ctpop => x.count_ones() as u64, Ek::Ctlz => (x.leading_zeros() + w - 64) as u64, Ek::Bswap => x.swap_bytes() >> (64 - w), Ek::Bitrev => x.reverse_bits() >> (64 - w), _ => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 } } };
                Some(match a {
                    V::C(x) => Ok(V::C(f(x))),
                    V::S(e) => {
                        if k == Ek::Bswap || k == Ek::Bitrev {
                            let mut ps = Vec::new();
                            let g = if k == Ek::Bswap { 8 } else { 1 };
                            for i in (0..w / g).rev() { let b = self.ar.slice(e, g * i, g); ps.push(Part { e: b, lo: 0, len: g as u8 }); }
                            let r = self.ar.cat(ps);
                            return Some(Ok(self.mk(r)));
                        }
                        match self.ar.as_tab(e) {
                            Some((v, t)) => { let mut r = [0; 256]; for i in 0..256 { r[i] = f(t[i]); } let e = self.ar.tab(v, w, r); Ok(self.mk(e)) }
                            None => {
                                // bit by bit
                                let mut r = self.ar.konst(w, if k == Ek::Ctpop { 0 } else { w as u64 });
                                match k {
                                    Ek::Ctpop => for i in 0..w { let b = self.ar.slice(e, i, 1); let z = self.ar.zext(b, w); r = self.ar.bin(Bop::Add, w, r, z); },
                                    Ek::Cttz => for i in (0..w).rev() { let b = self.ar.slice(e, i, 1); let c = self.ar.konst(w, i as u64); r = self.ar.ite(b, c, r); },
                                    _ => for i in 0..w { let b = self.ar.slice(e, i, 1); let c = self.ar.konst(w, (w - 1 - i) as u64); r = self.ar.ite(b, c, r); },
                                }
                                Ok(self.mk(r))
                            }
                        }
                    }
                    V::W(x) => match k { Ek::Ctpop => Ok(V::W(Rc::new(x.count_ones() as u128))), _ => Err("unsupported: wide bit count".into()) },
                    _ => Err("unsupported: bit count".into()),
                })
            }
            Ek::Abs => {
                let a = self.get(s, base, &args[0]);
                let n = match self.bin(Bop::Sub, w, V::C(0), a.clone()) { Ok(n) => n, Err(e) => return Some(Err(e)) };
                let c = self.icmp(Pred::Slt, w, a.clone(), V::C(0));
                Some(match c { Ok(V::C(x)) => Ok(if x != 0 { n } else { a }), Ok(V::S(e)) => self.select(w, e, n, a).ok_or("select".into()), _ => Err("abs".into()) })
            }
            Ek::UCmp | Ek::SCmp => {
                let a = self.get(s, base, &args[0]);
                let b = self.get(s, base, &args[1]);
                let lt = self.icmp(if k == Ek::UCmp { Pred::Ult } else { Pred::Slt }, aw, a.clone(), b.clone());
                let gt = self.icmp(if k == Ek::UCmp { Pred::Ugt } else { Pred::Sgt }, aw, a, b);
                Some(match (lt, gt) { (Ok(l), Ok(g)) => {
                    let l = self.cast(CastK::ZExt, 1, w, l).unwrap();
                    let g = self.cast(CastK::ZExt, 1, w, g).unwrap();
                    self.bin(Bop::Sub, w, g, l)
                } _ => Err("cmp".into()) })
            }
            Ek::Fshl | Ek::Fshr => {
                let a = self.get(s, base, &args[0]);
                let b = self.get(s, base, &args[1]);
                let c = self.get(s, base, &args[2]);
                let c = self.sv(s, c);
                let n = match c { V::C(n) => n % w as u64, _ => return Some(Err("unsupported: symbolic funnel shift".into())) };
                let n = if k == Ek::Fshl { n } else { w as u64 - n };
                if n == 0 { return Some(Ok(a)); }
                if n == w as u64 { return Some(Ok(b)); }
                let x = self.bin(Bop::Shl, w, a, V::C(n));
                let y = self.bin(Bop::LShr, w, b, V::C(w as u64 - n));
                Some(match (x, y) { (Ok(x), Ok(y)) => self.bin(Bop::Or, w, x, y), _ => Err("fsh".into()) })
            }
            Ek::Tla | Ek::Expect => Some(Ok(self.get(s, base, &args[0]))),
            _ => None,
        }
    }
    fn overflow(&mut self, s: &State, k: Ek, w: u32, a: V, b: V) -> Result<V, String> {
        let pair = |r: V, o: V| V::A(Rc::new(vec![r, o]));
        if let (V::C(x), V::C(y)) = (&a, &b) {
            let (x, y) = (*x, *y);
            let (r, o) = match k {
                Ek::UAddO => { let t = x as u128 + y as u128; (t as u64 & mask(w), t > mask(w) as u128) }
                Ek::USubO => (x.wrapping_sub(y) & mask(w), x < y),
                Ek::UMulO => { let t = x as u128 * y as u128; (t as u64 & mask(w), t > mask(w) as u128) }
                _ => {
                    let (p, q) = (sx(x, w) as i128, sx(y, w) as i128);
                    let t = match k { Ek::SAddO => p + q, Ek::SSubO => p - q, _ => p * q };
                    let lim = 1i128 << (w - 1);
                    (t as u64 & mask(w), t < -lim || t >= lim)
                }
            };
            return Ok(pair(V::C(r), V::C(o as u64)));
        }
        let a = self.sv(s, a);
        let b = self.sv(s, b);
        let x = self.ex(&a, w);
        let y = self.ex(&b, w);
        match k {
            Ek::UAddO => {
                let r = self.ar.bin(Bop::Add, w, x, y);
                let o = match self.ar.ubound(x).checked_add(self.ar.ubound(y)) { Some(t) if t <= mask(w) => self.ar.konst(1, 0), _ => self.ar.bin(Bop::Ult, w, r, x) };
                Ok(pair(self.mk(r), self.mk(o)))
            }
            Ek::USubO => { let r = self.ar.bin(Bop::Sub, w, x, y); let o = self.ar.bin(Bop::Ult, w, x, y); Ok(pair(self.mk(r), self.mk(o))) }
            Ek::SAddO | Ek::SSubO => {
                let op = if k == Ek::SAddO { Bop::Add } else { Bop::Sub };
                let r = self.ar.bin(op, w, x, y);
                let h = 1u64 << (w - 1);
                let (ux, uy) = (self.ar.ubound(x), self.ar.ubound(y));
                let o = if ux < h / 2 && uy < h / 2 { self.ar.konst(1, 0) } else {
                    let z = self.ar.konst(w, 0);
                    let sx_ = self.ar.bin(Bop::Slt, w, x, z);
                    let sy = self.ar.bin(Bop::Slt, w, y, z);
                    let sr = self.ar.bin(Bop::Slt, w, r, z);
                    let d1 = self.ar.bin(Bop::Xor, 1, sx_, sr);
                    let d2 = self.ar.bin(Bop::Xor, 1, sx_, sy);
                    let d2 = if k == Ek::SAddO { self.ar.not1(d2) } else { d2 };
                    self.ar.and1(d1, d2)
                };
                Ok(pair(self.mk(r), self.mk(o)))
            }
            Ek::UMulO => {
                let r = self.ar.bin(Bop::Mul, w, x, y);
                let o = match self.ar.ubound(x).checked_mul(self.ar.ubound(y)) { Some(t) if t <= mask(w) => self.ar.konst(1, 0), _ => {
                    if let Some(c) = self.ar.as_const(y).or(self.ar.as_const(x)) {
                        let v = if self.ar.as_const(y).is_some() { x } else { y };
                        if c == 0 { self.ar.konst(1, 0) } else { let k = self.ar.konst(w, mask(w) / c); self.ar.bin(Bop::Ult, w, k, v) }
                    } else { return Err("unsupported: symbolic umul overflow".into()); }
                } };
                Ok(pair(self.mk(r), self.mk(o)))
            }
            _ => Err("unsupported: smul overflow".into()),
        }
    }

    // ---------- reports ----------
    fn stack(&self, s: &State) -> Vec<String> { s.frames.iter().rev().take(6).map(|f| short(&self.m.funcs[f.f as usize].name)).collect() }
    fn report(&mut self, s: &State, kind: &str, id: u64, model: &[(u16, u8)]) {
        let mut md = s.model.clone();
        for (v, x) in model { md[*v as usize] = *x; }
        for v in 0..md.len() { if let Some(Sub::Var(u)) = s.known[v] { md[v] = md[u as usize]; } }
        if self.viol.iter().any(|v| v.kind == kind && v.id == id) { return; }
        let stack = self.stack(s);
        self.viol.push(Violation { kind: kind.to_string(), id, bytes: md, stack });
    }

    // ---------- main loop ----------
    pub fn explore(&mut self, init: Vec<State>, frontier: Option<usize>) -> VecDeque<State> {
        let mut work: VecDeque<State> = init.into();
        loop {
            if let Some(n) = frontier { if work.len() >= n { return work; } }
            let s = match if frontier.is_some() { work.pop_front() } else { work.pop_back() } { Some(s) => s, None => return work };
            if self.viol.len() >= self.lim.max_viol { self.st.incomplete += 1 + work.len() as u64; return VecDeque::new(); }
            if let Some(d) = self.lim.deadline { if Instant::now() > d { self.st.incomplete += 1 + work.len() as u64; return VecDeque::new(); } }
            let mut s = s;
            let steps0 = s.steps;
            let r = self.run(&mut s, None);
            self.st.steps += s.steps - steps0;
            self.st.maxvars = self.st.maxvars.max(s.dom.len());
            self.st.max_path_steps = self.st.max_path_steps.max(s.steps);
            self.st.maxdepth = self.st.maxdepth.max(s.forks);
            match r {
                Stop::End => {
                    self.st.paths += 1;
                    self.st.ended += 1;
                    self.longest = self.longest.max(s.steps);
                    if !self.validate(&s) { *self.st.unsupported.entry("internal: model does not satisfy path".into()).or_insert(0) += 1; }
                    // a few finished paths are kept with a model and what they emitted, for replay against the real code
                    let keep = self.samples.len() < 2 || self.st.ended.is_power_of_two();
                    if self.concrete.is_some() || keep {
                        let em = s.emits.clone();
                        let mut memo = Default::default();
                        let mut md = s.model.clone();
                        for v in 0..md.len() { if let Some(Sub::Var(u)) = s.known[v] { md[v] = md[u as usize]; } }
                        let out: Vec<u64> = em.iter().map(|v| match v { V::C(c) => *c, V::S(e) => self.ar.eval(*e, &md, &mut memo), _ => 0 }).collect();
                        if self.samples.len() >= 6 { self.samples.remove(2); }
                        self.samples.push((md, out.clone()));
                        self.emits = out;
                    }
                }
                Stop::Assumed => { self.st.paths += 1; self.st.assumed += 1; }
                Stop::Join | Stop::Budget => unreachable!(),
                Stop::Err(e) => {
                    self.st.paths += 1;
                    if e == "huge allocation" { self.report(&s, "allocation", 0, &[]); }
                    let st = self.stack(&s).join(" < ");
                    *self.st.unsupported.entry(format!("{} @ {}", e, st)).or_insert(0) += 1;
                }
                Stop::Fork(v) => {
                    self.st.forks += v.len() as u64;
                    let fr = s.frames.last().unwrap();
                    *self.sites.entry((fr.f, fr.pc - 1)).or_insert(0) += v.len() as u64;
                    for x in v { work.push_back(x); }
                }
            }
        }
    }

    fn run(&mut self, s: &mut State, until: Option<Until>) -> Stop {
        let m = self.m;
        let mut since = 0u32;
        let mut moved = false;
        loop {
            if let Some(u) = until {
                if s.frames.len() < u.depth { return if u.block == ATRET { Stop::Join } else { Stop::Budget }; }
                if moved && s.frames.len() == u.depth && u.block != ATRET {
                    let fr = s.frames.last().unwrap();
                    if fr.block == u.block && fr.pc == m.funcs[fr.f as usize].blocks[u.block as usize].start { return Stop::Join; }
                }
                moved = true;
                if s.steps > u.steps { return Stop::Budget; }
            }
            let fi = s.frames.len() - 1;
            let (f, base, pc) = { let fr = &mut s.frames[fi]; fr.pc += 1; (fr.f, fr.base, fr.pc - 1) };
            let ins = &m.funcs[f as usize].code[pc as usize];
            s.steps += 1;
            self.fsteps[f as usize] += 1;
            since += 1;
            if since & 0xfff == 0 {
                // far beyond every path that finished (or out of time in the middle of a long one): perhaps without end; the caller tries it natively
                if s.steps > self.lim.path_steps || (self.longest > 0 && s.steps > self.longest.saturating_mul(50).max(50_000_000)) { self.report(s, "hang", 0, &[]); self.st.incomplete += 1; return Stop::Assumed; }
                if since & 0xfffff == 0 { if let Some(d) = self.lim.deadline { if Instant::now() > d { if s.steps > 20_000_000 { self.report(s, "hang", 0, &[]); } self.st.incomplete += 1; return Stop::Assumed; } } }
            }
            macro_rules! set { ($d:expr, $v:expr) => { { let v = $v; s.regs[base + *$d as usize] = v; } } }
            macro_rules! tri { ($e:expr) => { match $e { Ok(v) => v, Err(e) => return Stop::Err(e) } } }
            match ins {
                Inst::Bin { op, w, d, a, b } => {
                    let x = self.get(s, base, a);
                    let y = self.get(s, base, b);
                    if matches!(op, Bop::Shl | Bop::LShr | Bop::AShr | Bop::UDiv | Bop::URem | Bop::SDiv | Bop::SRem | Bop::Mul) && *w <= 64 {
                        let y = self.sv(s, y);
                        let x = self.sv(s, x);
                        set!(d, tri!(self.bin(*op, *w, x, y)));
                    } else { set!(d, tri!(self.bin(*op, *w, x, y))); }
                }
                Inst::Icmp { p, w, d, a, b } => { let x = self.get(s, base, a); let y = self.get(s, base, b); set!(d, tri!(self.icmp(*p, *w, x, y))); }
                Inst::Cast { k, from, to, d, a } => { let x = self.get(s, base, a); set!(d, tri!(self.cast(*k, *from, *to, x))); }
                Inst::Fp { op, from, to, d, a, b } => {
                    let (x, y) = (self.get(s, base, a), self.get(s, base, b));
                    let (x, y) = (self.sv(s, x), self.sv(s, y));
                    match (x, y) { (V::C(x), V::C(y)) => set!(d, V::C(float(*op, *from, *to, x, y))), _ => return Stop::Err("unsupported: symbolic floating point".into()) }
                }
                Inst::BitcastVec { from, to, d, a } => {
                    let x = self.get(s, base, a);
                    let ew = |t: &Ty| match t { Ty::Vect(_, e) => e.width(), _ => 0 };
                    let flat = if from.is_agg() { tri!(self.implode(&x, ew(from))) } else { x };
                    let r = if let Ty::Vect(n, _) = to { tri!(self.explode(flat, *n as u32, ew(to))) } else { flat };
                    set!(d, r);
                }
                Inst::Select { d, w, c, a, b } => {
                    let cv = self.get(s, base, c);
                    let x = self.get(s, base, a);
                    let y = self.get(s, base, b);
                    match self.sv(s, cv) {
                        V::C(k) => set!(d, if k != 0 { x } else { y }),
                        V::S(e) => match self.select(*w, e, x, y) {
                            Some(v) => set!(d, v),
                            None => return self.concretise(s, c, e),
                        },
                        _ => return Stop::Err("unsupported: vector select".into()),
                    }
                }
                Inst::Load { d, ty, a } => {
                    let av = self.get(s, base, a);
                    match av {
                        V::C(x) => { let v = if ty.is_agg() { tri!(self.load_ty(s, x, ty)) } else { tri!(self.load(s, x, ty.width())) }; set!(d, v) }
                        V::S(e) => match self.addr(s, e) {
                            Addr::C(x) => { let v = tri!(self.load_ty(s, x, ty)); set!(d, v) }
                            Addr::T(v, t) => {
                                let r = if ty.is_agg() { Err(None) } else { self.load_tab(s, v, &t, ty.width()) };
                                match r { Ok(x) => set!(d, x), Err(Some(u)) => return self.split_eq(s, u, v), Err(None) => return self.concretise(s, a, e) }
                            }
                            Addr::Multi(e) => match if ty.is_agg() { None } else { self.load_affine(s, e, ty.width()) } { Some(x) => set!(d, x), None => return self.concretise(s, a, e) },
                        },
                        _ => return Stop::Err("load address".into()),
                    }
                }
                Inst::Store { ty, v, a } => {
                    let val = self.get(s, base, v);
                    match self.get(s, base, a) {
                        V::C(x) => { if ty.is_agg() { tri!(self.store_ty(s, x, ty, &val)) } else { tri!(self.store(s, x, ty.width(), &val)) } }
                        V::S(e) => match self.addr(s, e) {
                            Addr::C(x) => tri!(self.store_ty(s, x, ty, &val)),
                            Addr::T(v, t) => {
                                let r = if ty.is_agg() { None } else { self.store_tab(s, v, &t, ty.width(), &val) };
                                if r.is_none() { return self.concretise(s, a, e); }
                            }
                            Addr::Multi(e) => return self.concretise(s, a, e),
                        },
                        _ => return Stop::Err("store address".into()),
                    }
                }
                Inst::Gep { d, base: b, off, terms } => { let v = tri!(self.gep(s, base, b, *off, terms)); set!(d, v) }
                Inst::Alloca { d, size, n } => {
                    let k = match self.get(s, base, n) { V::C(k) => k, _ => return Stop::Err("symbolic alloca".into()) };
                    let a = self.alloc(s, size * k);
                    s.frames[fi].allocas.push(((a >> 32) - DYN) as u32);
                    set!(d, V::C(a));
                }
                Inst::Br { t } => self.jump(s, *t),
                Inst::CBr { c, t, f } => {
                    let cv = self.get(s, base, c);
                    match cv {
                        V::C(k) => self.jump(s, if k & 1 != 0 { *t } else { *f }),
                        V::S(e) => {
                            let e = self.simp(s, e);
                            if let Some(k) = self.ar.as_const(e) { self.jump(s, if k != 0 { *t } else { *f }); continue; }
                            if self.try_merge(s, e, *t, *f) { continue; }
                            if self.try_join(s, e, *t, *f, until) { continue; }
                            match self.both(s, e) {
                                (Some(_), None) => self.jump(s, *t),
                                (None, Some(_)) => self.jump(s, *f),
                                (Some(mt), Some(mf)) => {
                                    if let Some(sel) = self.dbg { if sel == pc0(s) { eprintln!("FORK {}", self.ar.show(e, 12)); eprintln!("   dom {:?} multi {:?}", s.dom.iter().map(dom_count).collect::<Vec<_>>(), s.multi.iter().map(|c| self.ar.show(*c, 6)).collect::<Vec<_>>()); } }
                                    let ne = self.ar.not1(e);
                                    let mut a = self.child(s, e, &mt);
                                    let mut b = self.child(s, ne, &mf);
                                    self.jump(&mut a, *t);
                                    self.jump(&mut b, *f);
                                    return Stop::Fork(vec![a, b]);
                                }
                                (None, None) => return Stop::Err("infeasible path".into()),
                            }
                        }
                        _ => return Stop::Err("branch on aggregate".into()),
                    }
                }
                Inst::Switch { w, v, def, cases } => {
                    let x = self.get(s, base, v);
                    match self.sv(s, x) {
                        V::C(k) => { let t = cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1); self.jump(s, t); }
                        V::S(e) => {
                            let mut groups: BTreeMap<u32, Ex> = BTreeMap::new();
                            let mut other = self.ar.konst(1, 1);
                            for (k, t) in cases {
                                let c = self.ar.eqc(e, *k & mask(*w));
                                let g = match groups.get(t) { Some(g) => self.ar.or1(*g, c), None => c };
                                groups.insert(*t, g);
                                let nc = self.ar.not1(c);
                                other = self.ar.and1(other, nc);
                            }
                            let g = match groups.get(def) { Some(g) => self.ar.or1(*g, other), None => other };
                            groups.insert(*def, g);
                            let mut out = Vec::new();
                            for (t, c) in groups {
                                let c = self.simp(s, c);
                                if let Some(md) = self.sat(s, c) { let mut n = self.child(s, c, &md); self.jump(&mut n, t); out.push(n); }
                            }
                            if out.is_empty() { return Stop::Err("infeasible switch".into()); }
                            return Stop::Fork(out);
                        }
                        _ => return Stop::Err("switch".into()),
                    }
                }
                Inst::Ret { v } => {
                    let r = v.as_ref().map(|o| self.get(s, base, o));
                    let fr = s.frames.pop().unwrap();
                    for o in fr.allocas { s.objs[o as usize] = None; s.free.push(o); }
                    s.regs.truncate(fr.base);
                    if s.frames.is_empty() { return Stop::End; }
                    if let (Some(d), Some(r)) = (fr.ret, r) { let b = s.frames.last().unwrap().base; s.regs[b + d as usize] = r; }
                    if let Some(n) = fr.next { self.jump(s, n); }
                }
                Inst::Unreachable => { self.report(s, "unreachable", pc as u64, &[]); return Stop::End; }
                Inst::Call { d, w, callee, args, widths, next } => {
                    let target = match callee {
                        Callee::Func(f) => Ok(*f),
                        Callee::Ext(e) => Err(*e),
                        Callee::Ind(o) => {
                            let v = self.get(s, base, o);
                            let a = match self.sv(s, v) { V::C(a) => a, V::S(e) => return self.concretise(s, o, e), _ => return Stop::Err("indirect".into()) };
                            let id = a >> 32;
                            if id >= 0x40000 && id < 0x60000 { Ok((id - 0x40000) as u32) } else if id >= 0x60000 && id < DYN { Err((id - 0x60000) as u32) } else { return Stop::Err(format!("indirect call to {:x}", a)); }
                        }
                    };
                    match target {
                        Ok(g) => {
                            let gf = &m.funcs[g as usize];
                            if self.hash_const && gf.name.contains("8hash_one") {
                                if let Some(d) = d { s.regs[base + *d as usize] = V::C(0); }
                                if let Some(n) = next { self.jump(s, *n); }
                                continue;
                            }
                            if !self.hash_const && gf.name.contains("8hash_one") {
                                // real hashing: keys are made concrete first, so that probing stays concrete
                                for o in args.iter() {
                                    let a = match self.get(s, base, o) { V::C(a) if a >> 32 >= DYN => a, _ => continue };
                                    for off in [0u64, 8] {
                                        if let Ok(v) = self.load(s, a + off, 64) {
                                            if let V::S(e) = self.sv(s, v) {
                                                let vals = match self.values(s, e, self.lim.enum_cap) { Ok(v) => v, Err(e) => return Stop::Err(e) };
                                                let mut out = Vec::new();
                                                for (_, c, m) in vals {
                                                    let mut n = self.child(s, c, &m);
                                                    n.frames.last_mut().unwrap().pc -= 1;
                                                    out.push(n);
                                                }
                                                return Stop::Fork(out);
                                            }
                                        }
                                    }
                                }
                            }
                            let nb = s.regs.len();
                            for o in args.iter().take(gf.nargs as usize) { let v = self.get(s, base, o); s.regs.push(v); }
                            s.regs.resize(nb + gf.nregs as usize, V::C(0));
                            if s.frames.len() > 2000 { self.report(s, "stack", 0, &[]); return Stop::End; }
                            s.frames.push(Frame { f: g, base: nb, pc: gf.blocks[0].start, block: 0, ret: *d, next: *next, allocas: vec![] });
                        }
                        Err(e) => {
                            match self.external(s, e, *w, args, widths, base) {
                                Ok(v) => {
                                    if let (Some(d), Some(v)) = (d, v) { s.regs[base + *d as usize] = v; }
                                    if let Some(n) = next { self.jump(s, *n); }
                                }
                                Err(st) => return st,
                            }
                        }
                    }
                }
                Inst::ExtractValue { d, a, idx } => {
                    let mut v = self.get(s, base, a);
                    for i in idx { v = match v { V::A(x) => x[*i as usize].clone(), _ => return Stop::Err("extractvalue".into()) }; }
                    set!(d, v);
                }
                Inst::InsertValue { d, a, b, idx } => {
                    let mut v = self.get(s, base, a);
                    let x = self.get(s, base, b);
                    fn ins_(v: &mut V, idx: &[u32], x: V) -> bool {
                        if idx.is_empty() { *v = x; return true; }
                        match v { V::A(r) => ins_(&mut Rc::make_mut(r)[idx[0] as usize], &idx[1..], x), _ => false }
                    }
                    if !ins_(&mut v, idx, x) { return Stop::Err("insertvalue".into()); }
                    set!(d, v);
                }
                Inst::ExtractElt { d, a, i } => {
                    let v = self.get(s, base, a);
                    let k = match self.get(s, base, i) { V::C(k) => k, _ => return Stop::Err("extractelement".into()) };
                    match v { V::A(x) => set!(d, x[k as usize].clone()), _ => return Stop::Err("extractelement".into()) }
                }
                Inst::InsertElt { d, a, b, i, n } => {
                    let v = self.get(s, base, a);
                    let x = self.get(s, base, b);
                    let k = match self.get(s, base, i) { V::C(k) => k, _ => return Stop::Err("insertelement".into()) };
                    let mut r = match v { V::A(x) => (*x).clone(), _ => vec![V::C(0); *n as usize] };
                    r[k as usize] = x;
                    set!(d, V::A(Rc::new(r)));
                }
                Inst::Rmw { d, op, w, a, v } => {
                    let ad = match self.get(s, base, a) { V::C(x) => x, _ => return Stop::Err("rmw address".into()) };
                    let old = tri!(self.load(s, ad, *w));
                    let x = self.get(s, base, v);
                    let n = match op { 0 => tri!(self.bin(Bop::Add, *w, old.clone(), x)), 1 => tri!(self.bin(Bop::Sub, *w, old.clone(), x)), 2 => x, 3 => tri!(self.bin(Bop::Or, *w, old.clone(), x)), 4 => tri!(self.bin(Bop::And, *w, old.clone(), x)), 5 => tri!(self.bin(Bop::Xor, *w, old.clone(), x)), _ => return Stop::Err("rmw".into()) };
                    tri!(self.store(s, ad, *w, &n));
                    set!(d, old);
                }
                Inst::CmpXchg { d, w, a, c, n } => {
                    let ad = match self.get(s, base, a) { V::C(x) => x, _ => return Stop::Err("cmpxchg address".into()) };
                    let old = tri!(self.load(s, ad, *w));
                    let exp = self.get(s, base, c);
                    let ok = match (&old, &exp) { (V::C(x), V::C(y)) => x == y, _ => return Stop::Err("cmpxchg".into()) };
                    if ok { let nv = self.get(s, base, n); tri!(self.store(s, ad, *w, &nv)); }
                    set!(d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
                }
                Inst::Nop => {}
                Inst::Unsupported(t) => return Stop::Err(format!("unsupported: {}", t)),
            }
        }
    }

    fn num(&mut self, s: &State, base: usize, o: &Opd) -> Result<u64, Stop> {
        let v = self.get(s, base, o);
        match self.sv(s, v) { V::C(k) => Ok(k), V::S(e) => Err(self.concretise(s, o, e)), _ => Err(Stop::Err("number".into())) }
    }
    fn copy(&mut self, s: &mut State, d: u64, a: u64, n: u64) -> Result<(), String> {
        if n == 0 { return Ok(()); }
        let (data, sy) = {
            let o = self.obj(s, a, n)?;
            let off = (a & 0xffff_ffff) as usize;
            let data = o.data[off..off + n as usize].to_vec();
            let mut sy = Vec::new();
            if let Some(m) = &o.sym {
                if (n as usize) < m.map.len() * 2 { for i in 0..n as usize { if o.has_sym(off + i, 1) { let (e, k) = m.map[&((off + i) as u32)]; sy.push((i, e, k)); } } } else {
                    for (p, (e, k)) in m.map.iter() { let p = *p as usize; if p >= off && p < off + n as usize { sy.push((p - off, *e, *k)); } }
                }
            }
            (data, sy)
        };
        let o = self.obj_mut(s, d, n)?;
        let off = (d & 0xffff_ffff) as usize;
        o.data[off..off + n as usize].copy_from_slice(&data);
        if o.sym.is_some() { o.clear_sym(off, n as usize); }
        for (i, e, k) in sy { o.set_sym(off + i, e, k); }
        Ok(())
    }
    fn external(&mut self, s: &mut State, e: u32, w: u32, args: &[Opd], widths: &[u32], base: usize) -> Result<Option<V>, Stop> {
        let k = self.ext_kind[e as usize];
        if let Some(r) = self.intrinsic(s, k, w, args, widths, base) { return r.map(Some).map_err(Stop::Err); }
        let er = |x: Result<(), String>| x.map_err(Stop::Err);
        match k {
            Ek::SymByte => {
                let i = s.dom.len() as u16;
                if i >= 127 { return Err(Stop::Err("too many symbolic bytes".into())); }
                if let Some(c) = &self.concrete {
                    let v = c.get(i as usize).copied().unwrap_or(0);
                    s.dom.push({ let mut d = [0u64; 4]; d[v as usize >> 6] |= 1 << (v & 63); d });
                    s.model.push(v);
                    s.known.push(Some(Sub::Val(v)));
                    s.kmask |= 1 << i;
                    return Ok(Some(V::C(v as u64)));
                }
                s.dom.push(dom_full());
                s.model.push(0);
                s.known.push(None);
                let v = self.ar.var(i);
                Ok(Some(V::S(v)))
            }
            Ek::SymAssume => {
                let v = self.get(s, base, &args[0]);
                match self.sv(s, v) {
                    V::C(k) => if k & 1 == 1 { Ok(None) } else { Err(Stop::Assumed) },
                    V::S(e) => {
                        if self.eval_model(s, e) == 0 {
                            match self.sat(s, e) { None => return Err(Stop::Assumed), Some(m) => for (v, x) in m { s.model[v as usize] = x; } }
                        }
                        if !self.add(s, e) { return Err(Stop::Assumed); }
                        self.fix_model(s);
                        Ok(None)
                    }
                    _ => Err(Stop::Err("assume".into())),
                }
            }
            Ek::SymAssert => {
                let v = self.get(s, base, &args[0]);
                let id = self.num(s, base, &args[1])?;
                self.st.asserts += 1;
                match self.sv(s, v) {
                    V::C(k) => { self.st.asserts_folded += 1; if k & 1 == 1 { Ok(None) } else { self.report(s, "assert", id, &[]); Err(Stop::End) } }
                    V::S(e) => {
                        if std::env::var("DBG_ASSERT").is_ok() { eprintln!("ASSERT {}", self.ar.show(e, 14)); }
                        self.st.asserts_solver += 1;
                        match self.both(s, e) {
                            (t, Some(m)) => {
                                self.report(s, "assert", id, &m);
                                match t { None => Err(Stop::End), Some(mt) => { for (v, x) in mt { s.model[v as usize] = x; } if !self.add(s, e) { return Err(Stop::End); } self.fix_model(s); Ok(None) } }
                            }
                            (Some(_), None) => Ok(None),
                            _ => Err(Stop::Err("infeasible".into())),
                        }
                    }
                    _ => Err(Stop::Err("assert".into())),
                }
            }
            Ek::SymReach => { let id = self.num(s, base, &args[0])?; *self.reached.entry(id).or_insert(0) += 1; Ok(None) }
            Ek::SymParam => { let i = self.num(s, base, &args[0])?; match self.params.get(i as usize) { Some(v) => Ok(Some(V::C(*v))), None => Err(Stop::Err("missing parameter".into())) } }
            Ek::SymEmit => { let v = self.get(s, base, &args[0]); Rc::make_mut(&mut s.emits).push(v); Ok(None) }
            Ek::SymPick => { let v = self.num(s, base, &args[0])?; Ok(Some(V::C(v))) }
            Ek::SymIsConst => { let v = self.get(s, base, &args[0]); Ok(Some(V::C(matches!(self.sv(s, v), V::C(_)) as u64))) }
            Ek::Memcpy => {
                let n = self.num(s, base, &args[2])?;
                if n == 0 { return Ok(Some(V::C(0))); }
                let d = self.num(s, base, &args[0])?;
                let a = self.num(s, base, &args[1])?;
                er(self.copy(s, d, a, n))?;
                Ok(Some(V::C(d)))
            }
            Ek::Memset => {
                let n = self.num(s, base, &args[2])?;
                let d = self.num(s, base, &args[0])?;
                if n == 0 { return Ok(Some(V::C(d))); }
                let v = self.get(s, base, &args[1]);
                match self.sv(s, v) {
                    V::C(c) => {
                        let o = self.obj_mut(s, d, n).map_err(Stop::Err)?;
                        let off = (d & 0xffff_ffff) as usize;
                        for x in &mut o.data[off..off + n as usize] { *x = c as u8; }
                        if o.sym.is_some() { o.clear_sym(off, n as usize); }
                    }
                    V::S(e) => { let b = self.ar.slice(e, 0, 8); for i in 0..n { er(self.store(s, d + i, 8, &V::S(b)))?; } }
                    _ => return Err(Stop::Err("memset".into())),
                }
                Ok(Some(V::C(d)))
            }
            Ek::Bcmp => {
                let n = self.num(s, base, &args[2])?;
                if n == 0 { return Ok(Some(V::C(0))); }
                let a = self.num(s, base, &args[0])?;
                let b = self.num(s, base, &args[1])?;
                if self.m.exts[e as usize] == "memcmp" {
                    // the order of the first differing byte
                    let mut xs = Vec::new();
                    for i in 0..n {
                        let x = self.rd_byte(s, a + i).map_err(Stop::Err)?;
                        let y = self.rd_byte(s, b + i).map_err(Stop::Err)?;
                        let (x, y) = (self.simp(s, x), self.simp(s, y));
                        if x == y { continue; }
                        let c = self.ar.bin(Bop::Eq, 8, x, y);
                        let l = self.ar.bin(Bop::Ult, 8, x, y);
                        let stop = self.ar.as_const(c) == Some(0);
                        xs.push((c, l));
                        if stop { break; }
                    }
                    let (lo, z, hi) = (self.ar.konst(32, 0xffff_ffff), self.ar.konst(32, 0), self.ar.konst(32, 1));
                    let mut r = z;
                    for (c, l) in xs.into_iter().rev() { let d = self.ar.ite(l, lo, hi); r = self.ar.ite(c, r, d); }
                    return Ok(Some(self.mk(r)));
                }
                let mut all = self.ar.konst(1, 1);
                for i in 0..n {
                    let x = self.rd_byte(s, a + i).map_err(Stop::Err)?;
                    let y = self.rd_byte(s, b + i).map_err(Stop::Err)?;
                    let x = self.simp(s, x);
                    let y = self.simp(s, y);
                    let c = self.ar.bin(Bop::Eq, 8, x, y);
                    all = self.ar.and1(all, c);
                    if self.ar.as_const(all) == Some(0) { break; }
                }
                let z = self.ar.konst(32, 0);
                let o = self.ar.konst(32, 1);
                let r = self.ar.ite(all, z, o);
                Ok(Some(self.mk(r)))
            }
            Ek::Strlen => {
                let a = self.num(s, base, &args[0])?;
                let mut n = 0;
                loop {
                    let x = self.rd_byte(s, a + n).map_err(Stop::Err)?;
                    let x = self.simp(s, x);
                    match self.ar.as_const(x) { Some(0) => break, Some(_) => n += 1, None => return Err(Stop::Err("unsupported: strlen of symbolic bytes".into())) }
                }
                Ok(Some(V::C(n)))
            }
            Ek::Malloc => { let n = self.num(s, base, &args[0])?; if n > 1 << 31 { return Err(Stop::Err("huge allocation".into())); } Ok(Some(V::C(self.alloc(s, n)))) }
            Ek::Calloc => { let a = self.num(s, base, &args[0])?; let b = self.num(s, base, &args[1])?; if a.saturating_mul(b) > 1 << 31 { return Err(Stop::Err("huge allocation".into())); } Ok(Some(V::C(self.alloc(s, a * b)))) }
            Ek::PosixMemalign => { let p = self.num(s, base, &args[0])?; let n = self.num(s, base, &args[2])?; let a = self.alloc(s, n); er(self.store(s, p, 64, &V::C(a)))?; Ok(Some(V::C(0))) }
            Ek::Realloc => {
                let p = self.num(s, base, &args[0])?;
                let n = self.num(s, base, &args[1])?;
                if p == 0 { return Ok(Some(V::C(self.alloc(s, n)))); }
                let id = ((p >> 32) - DYN) as usize;
                match s.objs.get_mut(id) {
                    Some(Some(o)) => { let o = Rc::make_mut(o); let old = o.data.len(); o.data.resize(n as usize, 0); if (n as usize) < old { o.clear_sym(n as usize, old - n as usize); } Ok(Some(V::C(p))) }
                    _ => Err(Stop::Err("bad realloc".into())),
                }
            }
            Ek::Free => { let p = self.num(s, base, &args[0])?; if p != 0 { er(self.free_obj(s, p))?; } Ok(None) }
            Ek::RandKeys => Ok(Some(V::A(Rc::new(vec![V::C(0x123456789), V::C(0x987654321)])))),
            Ek::Panic => { let n = short(&self.m.exts[e as usize]); let n = n.rsplit("::").next().unwrap_or("panic").to_string(); self.report(s, &format!("panic:{}", n), 0, &[]); Err(Stop::End) }
            _ => Err(Stop::Err(format!("unsupported: external {}", self.m.exts[e as usize]))),
        }
    }
    pub fn funcs_used(&self) -> Vec<(String, u64)> {
        let mut m: HashMap<String, u64> = HashMap::new();
        for (i, n) in self.fsteps.iter().enumerate() { if *n > 0 { *m.entry(self.m.funcs[i].name.clone()).or_insert(0) += n; } }
        let mut v: Vec<_> = m.into_iter().collect();
        v.sort_by(|a, b| b.1.cmp(&a.1));
        v
    }
}

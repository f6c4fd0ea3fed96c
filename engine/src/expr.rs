//! Hash-consed bit-vector expressions over symbolic bytes.
//!
//! Canonical forms: anything depending on one symbolic byte is a 256-entry table; bit-wiring of several
//! bytes (shifts, masks, concatenation) is a list of slices; everything else is an operator node.
use crate::ir::Bop;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type Ex = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64); } }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u16(&mut self, v: u16) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Tab = Rc<[u64; 256]>;

/// what a variable has been replaced with on a path
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sub { Val(u8), Var(u16) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Part { pub e: Ex, pub lo: u8, pub len: u8 }

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Node {
    Const { w: u8, v: u64 },
    Tab { var: u16, w: u8, tab: Tab },
    Op { op: Bop, w: u8, a: Ex, b: Ex, c: Ex },
    Cat { w: u8, parts: Box<[Part]> },
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>,
    map: FxMap<Node, Ex>,
    bin_cache: FxMap<(Bop, u8, Ex, Ex, Ex), Ex>,
    pub tabs: u64,
}

pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sx(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

pub fn eval_bop(op: Bop, w: u32, a: u64, b: u64) -> u64 {
    let m = mask(w);
    (match op {
        Bop::Add => a.wrapping_add(b),
        Bop::Sub => a.wrapping_sub(b),
        Bop::Mul => a.wrapping_mul(b),
        Bop::UDiv => if b == 0 { 0 } else { a / b },
        Bop::URem => if b == 0 { 0 } else { a % b },
        Bop::SDiv => if b == 0 { 0 } else { sx(a, w).wrapping_div(sx(b, w)) as u64 },
        Bop::SRem => if b == 0 { 0 } else { sx(a, w).wrapping_rem(sx(b, w)) as u64 },
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
        Bop::Shl => if b >= w as u64 { 0 } else { a << b },
        Bop::LShr => if b >= w as u64 { 0 } else { a >> b },
        Bop::AShr => (sx(a, w) >> b.min(w as u64 - 1)) as u64,
        Bop::Eq => return (a == b) as u64,
        Bop::Ult => return (a < b) as u64,
        Bop::Ule => return (a <= b) as u64,
        Bop::Slt => return (sx(a, w) < sx(b, w)) as u64,
        Bop::Sle => return (sx(a, w) <= sx(b, w)) as u64,
        Bop::Ite | Bop::SExt => unreachable!(),
    }) & m
}

impl Arena {
    pub fn show(&self, e: Ex, d: u32) -> String {
        if d == 0 { return "..".into(); }
        match &self.nodes[e as usize] {
            Node::Const { v, .. } => format!("{:#x}", v),
            Node::Tab { var, w, tab } => {
                let mut runs: Vec<(usize, usize, u64, i64)> = vec![];
                for i in 0..256 {
                    let x = tab[i];
                    if let Some(l) = runs.last_mut() {
                        let dl = x.wrapping_sub(tab[l.1]) as i64;
                        if l.0 == l.1 && (dl == 0 || dl == 1) { l.3 = dl; l.1 = i; continue; }
                        if dl == l.3 { l.1 = i; continue; }
                    }
                    runs.push((i, i, x, 0));
                }
                if runs.len() > 6 { return format!("T{}(v{},{} runs)", w, var, runs.len()); }
                format!("T{}(v{}:{})", w, var, runs.iter().map(|r| format!("{}-{}->{:#x}{}", r.0, r.1, r.2, if r.3 == 1 { "+" } else { "" })).collect::<Vec<_>>().join(","))
            }
            Node::Op { op, w, a, b, c } => if *op == Bop::Ite { format!("ite({},{},{})", self.show(*a, d - 1), self.show(*b, d - 1), self.show(*c, d - 1)) } else { format!("{:?}{}({},{})", op, w, self.show(*a, d - 1), self.show(*b, d - 1)) },
            Node::Cat { parts, .. } => format!("cat[{}]", parts.iter().map(|p| format!("{}@{}+{}", self.show(p.e, d - 1), p.lo, p.len)).collect::<Vec<_>>().join(",")),
        }
    }
    pub fn new() -> Self {
        Arena { nodes: Vec::new(), vars: Vec::new(), map: Default::default(), bin_cache: Default::default(), tabs: 0 }
    }
    fn intern(&mut self, n: Node) -> Ex {
        if let Some(e) = self.map.get(&n) { return *e; }
        let vars = match &n {
            Node::Const { .. } => 0,
            Node::Tab { var, .. } => { self.tabs += 1; 1u128 << var }
            Node::Op { a, b, c, op, .. } => {
                let mut v = self.vars[*a as usize] | self.vars[*b as usize];
                if *op == Bop::Ite { v |= self.vars[*c as usize]; }
                v
            }
            Node::Cat { parts, .. } => parts.iter().fold(0, |x, p| x | self.vars[p.e as usize]),
        };
        let id = self.nodes.len() as Ex;
        self.nodes.push(n.clone());
        self.vars.push(vars);
        self.map.insert(n, id);
        id
    }
    pub fn w(&self, e: Ex) -> u32 {
        match &self.nodes[e as usize] { Node::Const { w, .. } | Node::Tab { w, .. } | Node::Op { w, .. } | Node::Cat { w, .. } => *w as u32 }
    }
    pub fn konst(&mut self, w: u32, v: u64) -> Ex { self.intern(Node::Const { w: w as u8, v: v & mask(w) }) }
    pub fn as_const(&self, e: Ex) -> Option<u64> { if let Node::Const { v, .. } = self.nodes[e as usize] { Some(v) } else { None } }
    pub fn as_tab(&self, e: Ex) -> Option<(u16, &Tab)> { if let Node::Tab { var, tab, .. } = &self.nodes[e as usize] { Some((*var, tab)) } else { None } }
    pub fn var(&mut self, i: u16) -> Ex {
        let mut t = [0u64; 256];
        for k in 0..256 { t[k] = k as u64; }
        self.intern(Node::Tab { var: i, w: 8, tab: Rc::new(t) })
    }
    pub fn tab(&mut self, var: u16, w: u32, t: [u64; 256]) -> Ex {
        let v0 = t[0];
        if t.iter().all(|x| *x == v0) { return self.konst(w, v0); }
        self.intern(Node::Tab { var, w: w as u8, tab: Rc::new(t) })
    }
    /// value of e as function of var v if e is Const or Tab(v)
    fn single(&self, e: Ex) -> Option<Option<u16>> {
        match &self.nodes[e as usize] { Node::Const { .. } => Some(None), Node::Tab { var, .. } => Some(Some(*var)), _ => None }
    }
    #[inline]
    fn get(&self, e: Ex, i: usize) -> u64 { match &self.nodes[e as usize] { Node::Const { v, .. } => *v, Node::Tab { tab, .. } => tab[i], _ => unreachable!() } }

    pub fn parts(&self, e: Ex) -> Vec<Part> {
        match &self.nodes[e as usize] {
            Node::Cat { parts, .. } => parts.to_vec(),
            Node::Const { w, .. } | Node::Tab { w, .. } | Node::Op { w, .. } => vec![Part { e, lo: 0, len: *w }],
        }
    }
    /// normalise one part: constants and tables are cut to the slice
    fn cut(&mut self, p: Part) -> Part {
        let w = self.w(p.e) as u8;
        if p.lo == 0 && p.len == w { return p; }
        match self.nodes[p.e as usize].clone() {
            Node::Const { v, .. } => { let e = self.konst(p.len as u32, v >> p.lo); Part { e, lo: 0, len: p.len } }
            Node::Tab { var, tab, .. } => {
                let mut t = [0u64; 256];
                let m = mask(p.len as u32);
                for i in 0..256 { t[i] = (tab[i] >> p.lo) & m; }
                let e = self.tab(var, p.len as u32, t);
                Part { e, lo: 0, len: p.len }
            }
            Node::Cat { .. } => unreachable!(),
            Node::Op { op, w, a, b, c } => {
                // push slices through bitwise operators
                match op {
                    Bop::And | Bop::Or | Bop::Xor => {
                        let x = self.slice(a, p.lo as u32, p.len as u32);
                        let y = self.slice(b, p.lo as u32, p.len as u32);
                        let e = self.bin(op, p.len as u32, x, y);
                        let l = self.w(e) as u8;
                        Part { e, lo: 0, len: l }
                    }
                    Bop::Ite => {
                        let x = self.slice(b, p.lo as u32, p.len as u32);
                        let y = self.slice(c, p.lo as u32, p.len as u32);
                        let e = self.ite(a, x, y);
                        Part { e, lo: 0, len: p.len }
                    }
                    Bop::Add | Bop::Sub | Bop::Mul if p.lo == 0 => {
                        let x = self.slice(a, 0, p.len as u32);
                        let y = self.slice(b, 0, p.len as u32);
                        let e = self.bin(op, p.len as u32, x, y);
                        Part { e, lo: 0, len: p.len }
                    }
                    _ => { let _ = w; p }
                }
            }
        }
    }
    pub fn slice(&mut self, e: Ex, lo: u32, len: u32) -> Ex {
        let w = self.w(e);
        if lo == 0 && len == w { return e; }
        let ps = self.parts(e);
        let mut out = Vec::new();
        let mut pos = 0u32;
        for p in ps {
            let s = pos.max(lo);
            let t = (pos + p.len as u32).min(lo + len);
            if s < t { out.push(Part { e: p.e, lo: p.lo + (s - pos) as u8, len: (t - s) as u8 }); }
            pos += p.len as u32;
        }
        self.cat(out)
    }
    /// build from LSB-first parts
    pub fn cat(&mut self, parts: Vec<Part>) -> Ex {
        let mut flat: Vec<Part> = Vec::with_capacity(parts.len());
        for p in parts {
            if p.len == 0 { continue; }
            let p = self.cut(p);
            if let Node::Cat { .. } = self.nodes[p.e as usize] {
                let sub = self.slice(p.e, p.lo as u32, p.len as u32);
                for q in self.parts(sub) { flat.push(q); }
            } else { flat.push(p); }
        }
        let mut out: Vec<Part> = Vec::with_capacity(flat.len());
        for p in flat {
            if let Some(l) = out.last().copied() {
                match (self.nodes[l.e as usize].clone(), self.nodes[p.e as usize].clone()) {
                    (Node::Const { v: a, .. }, Node::Const { v: b, .. }) => {
                        let e = self.konst((l.len + p.len) as u32, a | (b << l.len));
                        *out.last_mut().unwrap() = Part { e, lo: 0, len: l.len + p.len };
                        continue;
                    }
                    (Node::Tab { var: v1, tab: t1, .. }, Node::Tab { var: v2, tab: t2, .. }) if v1 == v2 => {
                        let mut t = [0u64; 256];
                        for i in 0..256 { t[i] = t1[i] | (t2[i] << l.len); }
                        let e = self.tab(v1, (l.len + p.len) as u32, t);
                        *out.last_mut().unwrap() = Part { e, lo: 0, len: l.len + p.len };
                        continue;
                    }
                    (Node::Op { .. }, Node::Op { .. }) if l.e == p.e && l.lo + l.len == p.lo => {
                        out.last_mut().unwrap().len += p.len;
                        continue;
                    }
                    _ => {}
                }
            }
            out.push(p);
        }
        if out.len() == 1 {
            let p = out[0];
            if p.lo == 0 && p.len as u32 == self.w(p.e) { return p.e; }
        }
        // all over one variable -> table
        let mut var = None;
        let mut ok = true;
        for p in &out {
            match self.single(p.e) {
                Some(None) => {}
                Some(Some(v)) => if var.is_none() || var == Some(v) { var = Some(v) } else { ok = false },
                None => ok = false,
            }
        }
        let w: u32 = out.iter().map(|p| p.len as u32).sum();
        if ok {
            let mut t = [0u64; 256];
            let mut pos = 0;
            for p in &out {
                for i in 0..256 { t[i] |= self.get(p.e, i) << pos; }
                pos += p.len as u32;
            }
            return match var { Some(v) => self.tab(v, w, t), None => self.konst(w, t[0]) };
        }
        self.intern(Node::Cat { w: w as u8, parts: out.into_boxed_slice() })
    }
    pub fn zext(&mut self, e: Ex, w: u32) -> Ex {
        let k = self.w(e);
        if k == w { return e; }
        if let Some(v) = self.as_const(e) { return self.konst(w, v); }
        if let Some((var, t)) = self.as_tab(e) { let t = **t; return self.tab(var, w, t); }
        let z = self.konst(w - k, 0);
        let mut ps = self.parts(e);
        ps.push(Part { e: z, lo: 0, len: (w - k) as u8 });
        self.cat(ps)
    }
    pub fn sext(&mut self, e: Ex, w: u32) -> Ex {
        let k = self.w(e);
        if k == w { return e; }
        if let Some(v) = self.as_const(e) { return self.konst(w, sx(v, k) as u64); }
        if let Some((var, t)) = self.as_tab(e) { let mut r = [0; 256]; for i in 0..256 { r[i] = sx(t[i], k) as u64 & mask(w); } return self.tab(var, w, r); }
        let top = self.slice(e, k - 1, 1);
        let ones = self.konst(w - k, !0);
        let zero = self.konst(w - k, 0);
        let hi = self.ite(top, ones, zero);
        let mut ps = self.parts(e);
        ps.extend(self.parts(hi));
        self.cat(ps)
    }
    pub fn not1(&mut self, e: Ex) -> Ex { let o = self.konst(1, 1); self.bin(Bop::Xor, 1, e, o) }
    pub fn eqc(&mut self, e: Ex, v: u64) -> Ex { let w = self.w(e); let c = self.konst(w, v); self.bin(Bop::Eq, w, e, c) }
    pub fn and1(&mut self, a: Ex, b: Ex) -> Ex { self.bin(Bop::And, 1, a, b) }
    pub fn or1(&mut self, a: Ex, b: Ex) -> Ex { self.bin(Bop::Or, 1, a, b) }

    fn is_cmp(op: Bop) -> bool { matches!(op, Bop::Eq | Bop::Ult | Bop::Ule | Bop::Slt | Bop::Sle) }

    /// w is the operand width
    pub fn bin(&mut self, op: Bop, w: u32, a: Ex, b: Ex) -> Ex {
        debug_assert!(self.w(a) == w && self.w(b) == w, "width {:?} {} {} {}", op, w, self.w(a), self.w(b));
        let rw = if Self::is_cmp(op) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { let v = eval_bop(op, w, x, y); return self.konst(rw, v); }
        let key = (op, w as u8, a, b, 0);
        if let Some(r) = self.bin_cache.get(&key) { return *r; }
        let r = self.bin0(op, w, rw, a, b);
        self.bin_cache.insert(key, r);
        r
    }
    fn bin0(&mut self, op: Bop, w: u32, rw: u32, a: Ex, b: Ex) -> Ex {
        // single variable
        if let (Some(x), Some(y)) = (self.single(a), self.single(b)) {
            let var = match (x, y) { (Some(v), None) | (None, Some(v)) => Some(v), (Some(v), Some(u)) if u == v => Some(v), _ => None };
            if let Some(v) = var {
                let mut t = [0u64; 256];
                for i in 0..256 { t[i] = eval_bop(op, w, self.get(a, i), self.get(b, i)); }
                return self.tab(v, rw, t);
            }
        }
        let ka = self.as_const(a);
        let kb = self.as_const(b);
        // canonical order
        let comm = matches!(op, Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor | Bop::Eq);
        if comm && (ka.is_some() || (kb.is_none() && a > b)) { return self.bin(op, w, b, a); }
        if a == b {
            match op {
                Bop::Sub | Bop::Xor => return self.konst(w, 0),
                Bop::And | Bop::Or => return a,
                Bop::Eq | Bop::Ule | Bop::Sle => return self.konst(1, 1),
                Bop::Ult | Bop::Slt => return self.konst(1, 0),
                _ => {}
            }
        }
        match (op, kb) {
            (Bop::Add | Bop::Sub | Bop::Xor | Bop::Or | Bop::Shl | Bop::LShr | Bop::AShr, Some(0)) => return a,
            (Bop::And | Bop::Mul, Some(0)) => return self.konst(w, 0),
            (Bop::And, Some(m)) if m == mask(w) => return a,
            (Bop::Or, Some(m)) if m == mask(w) => return b,
            (Bop::Mul | Bop::UDiv, Some(1)) => return a,
            (Bop::URem, Some(1)) => return self.konst(w, 0),
            (Bop::Mul, Some(k)) if k.is_power_of_two() => { let c = self.konst(w, k.trailing_zeros() as u64); return self.bin(Bop::Shl, w, a, c); }
            (Bop::UDiv, Some(k)) if k.is_power_of_two() => { let c = self.konst(w, k.trailing_zeros() as u64); return self.bin(Bop::LShr, w, a, c); }
            (Bop::URem, Some(k)) if k.is_power_of_two() => { let c = self.konst(w, k - 1); return self.bin(Bop::And, w, a, c); }
            (Bop::Sub, Some(k)) => { let c = self.konst(w, k.wrapping_neg()); return self.bin(Bop::Add, w, a, c); }
            (Bop::Shl | Bop::LShr, Some(k)) => {
                if k >= w as u64 { return self.konst(w, 0); }
                let k = k as u32;
                let z = self.konst(k, 0);
                if op == Bop::Shl {
                    let lo = self.slice(a, 0, w - k);
                    let mut ps = vec![Part { e: z, lo: 0, len: k as u8 }];
                    ps.extend(self.parts(lo));
                    return self.cat(ps);
                } else {
                    let hi = self.slice(a, k, w - k);
                    let mut ps = self.parts(hi);
                    ps.push(Part { e: z, lo: 0, len: k as u8 });
                    return self.cat(ps);
                }
            }
            (Bop::AShr, Some(k)) => {
                let k = (k as u32).min(w - 1);
                let hi = self.slice(a, k, w - k);
                return self.sext(hi, w);
            }
            (Bop::Ult, Some(0)) => return self.konst(1, 0),
            (Bop::Ult, Some(1)) => return self.eqc(a, 0),
            (Bop::Ule, Some(m)) if m == mask(w) => return self.konst(1, 1),
            (Bop::Ule, Some(k)) => { let c = self.konst(w, k + 1); return self.bin(Bop::Ult, w, a, c); }
            _ => {}
        }
        if w == 1 && matches!(op, Bop::Add | Bop::Sub) { return self.bin(Bop::Xor, 1, a, b); }
        if op == Bop::Sub && ka == Some(0) {
            let pb = self.parts(b);
            if pb.len() == 2 && pb[0].len == 1 && self.as_const(pb[1].e) == Some(0) {
                let bit = self.slice(b, 0, 1);
                return self.sext(bit, w);
            }
        }
        if op == Bop::Ule { let t = self.bin(Bop::Ult, w, b, a); return self.not1(t); }
        if op == Bop::Sle { let t = self.bin(Bop::Slt, w, b, a); return self.not1(t); }
        // unsigned compare against a constant: known upper bound
        if op == Bop::Ult {
            if let Some(k) = kb { if self.ubound(a) < k { return self.konst(1, 1); } }
            if let Some(k) = ka { if k >= self.ubound(b) { return self.konst(1, 0); } }
        }
        // constant reassociation
        if let (Bop::Add, Some(k)) = (op, kb) {
            if let Node::Op { op: Bop::Add, a: x, b: y, .. } = self.nodes[a as usize] {
                if let Some(k2) = self.as_const(y) { let c = self.konst(w, k.wrapping_add(k2)); return self.bin(Bop::Add, w, x, c); }
            }
        }
        if let (Bop::Xor, Some(k)) = (op, kb) {
            if let Node::Op { op: Bop::Xor, a: x, b: y, .. } = self.nodes[a as usize] {
                if let Some(k2) = self.as_const(y) { let c = self.konst(w, k ^ k2); return self.bin(Bop::Xor, w, x, c); }
            }
        }
        if op == Bop::Eq {
            if let Some(k) = kb {
                match self.nodes[a as usize].clone() {
                    Node::Op { op: Bop::Sub, a: x, b: y, .. } if k == 0 => return self.bin(Bop::Eq, w, x, y),
                    Node::Op { op: Bop::Xor, a: x, b: y, .. } if k == 0 => return self.bin(Bop::Eq, w, x, y),
                    Node::Op { op: Bop::Add, a: x, b: y, .. } => if let Some(k2) = self.as_const(y) { return self.eqc(x, k.wrapping_sub(k2) & mask(w)); },
                    Node::Op { op: Bop::Xor, a: x, b: y, .. } => if let Some(k2) = self.as_const(y) { return self.eqc(x, k ^ k2); },
                    Node::Op { op: Bop::Ite, a: c, b: x, c: y, .. } => {
                        let ex = self.eqc(x, k);
                        let ey = self.eqc(y, k);
                        if self.as_const(ex).is_some() || self.as_const(ey).is_some() { return self.ite(c, ex, ey); }
                    }
                    Node::Cat { parts, .. } if parts.len() > 1 => {
                        let mut r = self.konst(1, 1);
                        let mut pos = 0;
                        for p in parts.iter() {
                            let pe = self.cat(vec![*p]);
                            let c = self.eqc(pe, (k >> pos) & mask(p.len as u32));
                            r = self.and1(r, c);
                            if self.as_const(r) == Some(0) { return r; }
                            pos += p.len as u32;
                        }
                        return r;
                    }
                    _ => {}
                }
                if w == 1 { return if k == 1 { a } else { self.not1(a) }; }
            } else if w > 1 {
                let pa = self.parts(a);
                let pb = self.parts(b);
                if pa.len() > 1 || pb.len() > 1 {
                    let cuts = Self::cuts(&pa, &pb);
                    if cuts.len() > 2 {
                        let mut r = self.konst(1, 1);
                        for k in 0..cuts.len() - 1 {
                            let (l, n) = (cuts[k], cuts[k + 1] - cuts[k]);
                            let x = self.slice(a, l, n);
                            let y = self.slice(b, l, n);
                            let c = self.bin(Bop::Eq, n, x, y);
                            r = self.and1(r, c);
                            if self.as_const(r) == Some(0) { return r; }
                        }
                        return r;
                    }
                }
            } else {
                // w == 1 : xnor
                let x = self.bin(Bop::Xor, 1, a, b);
                return self.not1(x);
            }
        }
        if w == 1 && matches!(op, Bop::Xor) && kb == Some(1) {
            if let Node::Op { op: Bop::Xor, a: x, b: y, .. } = self.nodes[a as usize] { if self.as_const(y) == Some(1) { return x; } }
        }
        if w == 1 && matches!(op, Bop::And | Bop::Or) {
            // x & !x
            let nb = self.not1(b);
            if nb == a { return self.konst(1, (op == Bop::Or) as u64); }
            // absorb tables of the same variable in chains: (x & t1) & t2
            if let Some((vb, _)) = self.as_tab(b) {
                if let Node::Op { op: o2, a: x, b: y, .. } = self.nodes[a as usize] {
                    if o2 == op {
                        if let Some((vy, _)) = self.as_tab(y) { if vy == vb { let t = self.bin(op, 1, y, b); return self.bin(op, 1, x, t); } }
                        if let Some((vx, _)) = self.as_tab(x) { if vx == vb { let t = self.bin(op, 1, x, b); return self.bin(op, 1, y, t); } }
                        if x == b || y == b { return a; }
                    }
                }
            }
            if let Some((va, _)) = self.as_tab(a) {
                if let Node::Op { op: o2, a: x, b: y, .. } = self.nodes[b as usize] {
                    if o2 == op {
                        if let Some((vy, _)) = self.as_tab(y) { if vy == va { let t = self.bin(op, 1, y, a); return self.bin(op, 1, x, t); } }
                        if let Some((vx, _)) = self.as_tab(x) { if vx == va { let t = self.bin(op, 1, x, a); return self.bin(op, 1, y, t); } }
                        if x == a || y == a { return b; }
                    }
                }
            }
        }
        // bitwise on slices
        if w > 1 && matches!(op, Bop::And | Bop::Or | Bop::Xor) {
            let pa = self.parts(a);
            let pb0 = self.parts(b);
            // constants are cut at runs of equal bits
            let pb = if let Some(k) = kb { self.const_runs(k, w) } else { pb0 };
            if pa.len() > 1 || pb.len() > 1 {
                let cuts = Self::cuts(&pa, &pb);
                let mut out = Vec::new();
                for k in 0..cuts.len() - 1 {
                    let (l, n) = (cuts[k], cuts[k + 1] - cuts[k]);
                    let x = self.slice(a, l, n);
                    let y = self.slice(b, l, n);
                    let r = if n == w { self.intern(Node::Op { op, w: w as u8, a, b, c: 0 }) } else { self.bin(op, n, x, y) };
                    out.push(Part { e: r, lo: 0, len: n as u8 });
                }
                return self.cat(out);
            }
        }
        if op == Bop::Add && w > 1 {
            // disjoint addition is or
            let pa = self.parts(a);
            let pb = self.parts(b);
            if pa.len() > 1 || pb.len() > 1 {
                let cuts = Self::cuts(&pa, &pb);
                let mut disj = true;
                for k in 0..cuts.len() - 1 {
                    let (l, n) = (cuts[k], cuts[k + 1] - cuts[k]);
                    let x = self.slice(a, l, n);
                    let y = self.slice(b, l, n);
                    if self.as_const(x) != Some(0) && self.as_const(y) != Some(0) { disj = false; break; }
                }
                if disj { return self.bin(Bop::Or, w, a, b); }
            }
        }
        // push a constant operand into an ite with constant leaves
        if let Some(_) = kb {
            if let Node::Op { op: Bop::Ite, a: c, b: x, c: y, .. } = self.nodes[a as usize] {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let p = self.bin(op, w, x, b);
                    let q = self.bin(op, w, y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        if op == Bop::Xor {
            if let Some(r) = self.xor_canon(w, a, b) { return r; }
        }
        if let Some(_) = ka {
            if let Node::Op { op: Bop::Ite, a: c, b: x, c: y, .. } = self.nodes[b as usize] {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let p = self.bin(op, w, a, x);
                    let q = self.bin(op, w, a, y);
                    return self.ite(c, p, q);
                }
            }
        }
        self.intern(Node::Op { op, w: rw as u8, a, b, c: 0 })
    }
    fn xor_leaves(&self, e: Ex, out: &mut Vec<Ex>) -> bool {
        if let Node::Op { op: Bop::Xor, a, b, .. } = self.nodes[e as usize] { return out.len() < 64 && self.xor_leaves(a, out) && self.xor_leaves(b, out); }
        out.push(e);
        out.len() <= 64
    }
    /// exclusive-or in canonical form: tables by variable, then other terms by number, then the constant
    fn xor_canon(&mut self, w: u32, a: Ex, b: Ex) -> Option<Ex> {
        let mut l = Vec::new();
        if !self.xor_leaves(a, &mut l) || !self.xor_leaves(b, &mut l) { return None; }
        let mut k = 0u64;
        let mut tabs: std::collections::BTreeMap<u16, [u64; 256]> = Default::default();
        let mut rest: Vec<Ex> = Vec::new();
        for e in l {
            match &self.nodes[e as usize] {
                Node::Const { v, .. } => k ^= *v,
                Node::Tab { var, tab, .. } => { let t = tabs.entry(*var).or_insert([0; 256]); for i in 0..256 { t[i] ^= tab[i]; } }
                _ => rest.push(e),
            }
        }
        rest.sort();
        let mut terms: Vec<Ex> = Vec::new();
        for (v, mut t) in tabs {
            // the constant part of a table goes to the constant
            let z = t[0];
            k ^= z;
            for x in t.iter_mut() { *x ^= z; }
            let e = self.tab(v, w, t);
            if self.as_const(e).is_none() { terms.push(e); }
        }
        let mut i = 0;
        while i < rest.len() {
            if i + 1 < rest.len() && rest[i] == rest[i + 1] { i += 2; continue; }
            terms.push(rest[i]);
            i += 1;
        }
        if terms.is_empty() { return Some(self.konst(w, k)); }
        // a single term keeps its own simplifications
        if terms.len() == 1 {
            if k == 0 { return Some(terms[0]); }
            let c = self.konst(w, k);
            if self.as_tab(terms[0]).is_some() { return Some(self.bin(Bop::Xor, w, terms[0], c)); }
            return Some(self.intern(Node::Op { op: Bop::Xor, w: w as u8, a: terms[0], b: c, c: 0 }));
        }
        let mut r = terms[0];
        for e in &terms[1..] { r = self.intern(Node::Op { op: Bop::Xor, w: w as u8, a: r, b: *e, c: 0 }); }
        if k != 0 { let c = self.konst(w, k); r = self.intern(Node::Op { op: Bop::Xor, w: w as u8, a: r, b: c, c: 0 }); }
        Some(r)
    }
    fn const_runs(&mut self, k: u64, w: u32) -> Vec<Part> {
        let mut v = Vec::new();
        let mut i = 0;
        while i < w {
            let bit = (k >> i) & 1;
            let mut j = i;
            while j < w && (k >> j) & 1 == bit { j += 1; }
            let e = self.konst(j - i, if bit == 1 { !0 } else { 0 });
            v.push(Part { e, lo: 0, len: (j - i) as u8 });
            i = j;
        }
        v
    }
    fn cuts(a: &[Part], b: &[Part]) -> Vec<u32> {
        let mut v = vec![0u32];
        let mut p = 0;
        for x in a { p += x.len as u32; v.push(p); }
        p = 0;
        for x in b { p += x.len as u32; v.push(p); }
        v.sort();
        v.dedup();
        v
    }
    /// cheap upper bound
    pub fn ubound(&self, e: Ex) -> u64 {
        match &self.nodes[e as usize] {
            Node::Const { v, .. } => *v,
            Node::Tab { tab, .. } => *tab.iter().max().unwrap(),
            Node::Cat { parts, .. } => {
                let mut pos = 0;
                let mut r = 0u64;
                for p in parts.iter() {
                    let m = if p.lo == 0 && p.len as u32 == self.w(p.e) { self.ubound(p.e) } else { mask(p.len as u32) };
                    r |= m << pos;
                    pos += p.len as u32;
                }
                r
            }
            Node::Op { op: Bop::Ite, b, c, .. } => self.ubound(*b).max(self.ubound(*c)),
            Node::Op { w, .. } => mask(*w as u32),
        }
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if a == b { return a; }
        if let Some(k) = self.as_const(c) { return if k != 0 { a } else { b }; }
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        let key = (Bop::Ite, w as u8, c, a, b);
        if let Some(r) = self.bin_cache.get(&key) { return *r; }
        let r = self.ite0(c, a, b, w);
        self.bin_cache.insert(key, r);
        r
    }
    fn ite0(&mut self, c: Ex, a: Ex, b: Ex, w: u32) -> Ex {
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => { let n = self.not1(c); return self.and1(n, b); }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.or1(n, a); }
                _ => {}
            }
        }
        if let (Some(Some(vc)), Some(x), Some(y)) = (self.single(c), self.single(a), self.single(b)) {
            if x.map_or(true, |v| v == vc) && y.map_or(true, |v| v == vc) {
                let mut t = [0u64; 256];
                for i in 0..256 { t[i] = if self.get(c, i) != 0 { self.get(a, i) } else { self.get(b, i) }; }
                return self.tab(vc, w, t);
            }
        }
        // nested same condition
        if let Node::Op { op: Bop::Ite, a: c2, b: x, .. } = self.nodes[a as usize] { if c2 == c { return self.ite(c, x, b); } }
        if let Node::Op { op: Bop::Ite, a: c2, c: y, .. } = self.nodes[b as usize] { if c2 == c { return self.ite(c, a, y); } }
        if w > 1 {
            let pa = if let Some(k) = self.as_const(a) { if let Some(k2) = self.as_const(b) { self.const_runs(k ^ k2, w) } else { self.parts(a) } } else { self.parts(a) };
            let pb = self.parts(b);
            if pa.len() > 1 || pb.len() > 1 {
                let cuts = Self::cuts(&pa, &pb);
                if cuts.len() > 2 {
                    // split only when some segment is equal or a 1-bit constant pair, else keep whole
                    let mut out = Vec::new();
                    for k in 0..cuts.len() - 1 {
                        let (l, n) = (cuts[k], cuts[k + 1] - cuts[k]);
                        let x = self.slice(a, l, n);
                        let y = self.slice(b, l, n);
                        let r = if n == w { self.intern(Node::Op { op: Bop::Ite, w: w as u8, a: c, b: a, c: b }) } else { self.ite(c, x, y) };
                        out.push(Part { e: r, lo: 0, len: n as u8 });
                    }
                    return self.cat(out);
                }
            }
        }
        self.intern(Node::Op { op: Bop::Ite, w: w as u8, a: c, b: a, c: b })
    }
    pub fn eval(&self, e: Ex, model: &[u8], memo: &mut FxMap<Ex, u64>) -> u64 {
        match &self.nodes[e as usize] {
            Node::Const { v, .. } => *v,
            Node::Tab { var, tab, .. } => tab[model[*var as usize] as usize],
            _ => {
                if let Some(v) = memo.get(&e) { return *v; }
                let r = match &self.nodes[e as usize] {
                    Node::Op { op, w, a, b, c } => {
                        if *op == Bop::Ite {
                            if self.eval(*a, model, memo) != 0 { self.eval(*b, model, memo) } else { self.eval(*c, model, memo) }
                        } else {
                            let x = self.eval(*a, model, memo);
                            let y = self.eval(*b, model, memo);
                            let ow = self.w(*a);
                            let _ = w;
                            eval_bop(*op, ow, x, y)
                        }
                    }
                    Node::Cat { parts, .. } => {
                        let mut r = 0u64;
                        let mut pos = 0;
                        for p in parts.iter() {
                            let v = (self.eval(p.e, model, memo) >> p.lo) & mask(p.len as u32);
                            r |= v << pos;
                            pos += p.len as u32;
                        }
                        r
                    }
                    _ => unreachable!(),
                };
                memo.insert(e, r);
                r
            }
        }
    }
    /// substitute variables with known values or other variables
    pub fn subst(&mut self, e: Ex, known: &[Option<Sub>], kmask: u128, memo: &mut FxMap<Ex, Ex>) -> Ex {
        if self.vars[e as usize] & kmask == 0 { return e; }
        if let Some(r) = memo.get(&e) { return *r; }
        let r = match self.nodes[e as usize].clone() {
            Node::Const { .. } => e,
            Node::Tab { var, w, tab } => match known[var as usize] {
                Some(Sub::Val(v)) => self.konst(w as u32, tab[v as usize]),
                Some(Sub::Var(u)) => self.intern(Node::Tab { var: u, w, tab }),
                None => e,
            },
            Node::Op { op, a, b, c, .. } => {
                let x = self.subst(a, known, kmask, memo);
                let y = self.subst(b, known, kmask, memo);
                if op == Bop::Ite {
                    let z = self.subst(c, known, kmask, memo);
                    self.ite(x, y, z)
                } else { let ow = self.w(x); self.bin(op, ow, x, y) }
            }
            Node::Cat { parts, .. } => {
                let mut out = Vec::new();
                for p in parts.iter() { let pe = self.subst(p.e, known, kmask, memo); out.push(Part { e: pe, lo: p.lo, len: p.len }); }
                self.cat(out)
            }
        };
        memo.insert(e, r);
        r
    }
    /// simplify under per-variable domains (a table that is constant on its domain becomes that constant)
    pub fn restrict(&mut self, e: Ex, dom: &dyn Fn(u16) -> Option<[u64; 4]>, memo: &mut FxMap<Ex, Ex>) -> Ex {
        if self.vars[e as usize] == 0 { return e; }
        if let Some(r) = memo.get(&e) { return *r; }
        let r = match self.nodes[e as usize].clone() {
            Node::Const { .. } => e,
            Node::Tab { var, w, tab } => match dom(var) {
                None => e,
                Some(d) => {
                    let mut first = None;
                    let mut same = true;
                    for i in 0..256 { if d[i >> 6] >> (i & 63) & 1 == 1 { match first { None => first = Some(tab[i]), Some(x) => if x != tab[i] { same = false; break; } } } }
                    match first { Some(x) if same => self.konst(w as u32, x), _ => e }
                }
            },
            Node::Op { op, a, b, c, .. } => {
                let x = self.restrict(a, dom, memo);
                if op == Bop::Ite {
                    if let Some(k) = self.as_const(x) { if k != 0 { self.restrict(b, dom, memo) } else { self.restrict(c, dom, memo) } } else {
                        let y = self.restrict(b, dom, memo);
                        let z = self.restrict(c, dom, memo);
                        self.ite(x, y, z)
                    }
                } else { let y = self.restrict(b, dom, memo); let ow = self.w(x); self.bin(op, ow, x, y) }
            }
            Node::Cat { parts, .. } => {
                let mut out = Vec::new();
                for p in parts.iter() { let pe = self.restrict(p.e, dom, memo); out.push(Part { e: pe, lo: p.lo, len: p.len }); }
                self.cat(out)
            }
        };
        memo.insert(e, r);
        r
    }
}

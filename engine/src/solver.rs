//! z3 through its C API: satisfiability of a conjunction of 1-bit expressions over byte variables.
use crate::expr::*;
use crate::ir::Bop;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, t: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) { panic!("z3 error {}", e); }

pub struct Solver {
    c: P,
    s: P,
    vars: Vec<P>,
    memo: HashMap<Ex, P>,
    tmemo: HashMap<(u16, Vec<u64>, u8, u8), P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub maxq: f64,
}

#[derive(Debug)]
pub enum Res { Sat(Vec<(u16, u8)>), Unsat, Unknown }

impl Solver {
    pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver { c, s, vars: Vec::new(), memo: HashMap::new(), tmemo: HashMap::new(), queries: 0, sat: 0, unsat: 0, time: 0.0, maxq: 0.0 }
        }
    }
    fn var(&mut self, i: u16) -> P {
        while self.vars.len() <= i as usize {
            unsafe {
                let n = CString::new(format!("b{}", self.vars.len())).unwrap();
                let v = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, 8));
                self.vars.push(v);
            }
        }
        self.vars[i as usize]
    }
    fn num(&mut self, w: u32, v: u64) -> P { unsafe { Z3_mk_unsigned_int64(self.c, v & mask(w), Z3_mk_bv_sort(self.c, w)) } }
    fn table(&mut self, var: u16, w: u32, t: &[u64], level: u32) -> P {
        // t has 1<<level entries indexed by the low `level` bits still open
        if t.iter().all(|x| *x == t[0]) { return self.num(w, t[0]); }
        let key = (var, t.to_vec(), w as u8, level as u8);
        if let Some(p) = self.tmemo.get(&key) { return *p; }
        let h = t.len() / 2;
        let r;
        if t[..h] == t[h..] { r = self.table(var, w, &t[..h], level - 1); } else {
            let hi = self.table(var, w, &t[h..], level - 1);
            let lo = self.table(var, w, &t[..h], level - 1);
            let v = self.var(var);
            unsafe {
                let b = Z3_mk_extract(self.c, level - 1, level - 1, v);
                let one = self.num(1, 1);
                r = Z3_mk_ite(self.c, Z3_mk_eq(self.c, b, one), hi, lo);
            }
        }
        self.tmemo.insert(key, r);
        r
    }
    fn tab(&mut self, var: u16, w: u32, t: &[u64; 256]) -> P {
        // wiring: each output bit is constant, an input bit, or a negated input bit
        let mut wires: Vec<(i8, bool)> = Vec::new();
        let mut ok = true;
        'b: for j in 0..w {
            let f = |i: usize| (t[i] >> j) & 1;
            let c0 = f(0);
            if (0..256).all(|i| f(i) == c0) { wires.push((-1, c0 != 0)); continue; }
            for k in 0..8 {
                if (0..256).all(|i| f(i) == ((i as u64 >> k) & 1)) { wires.push((k as i8, false)); continue 'b; }
                if (0..256).all(|i| f(i) != ((i as u64 >> k) & 1)) { wires.push((k as i8, true)); continue 'b; }
            }
            ok = false;
            break;
        }
        if !ok { return self.table(var, w, &t[..], 8); }
        let v = self.var(var);
        let mut r: P = std::ptr::null_mut();
        let mut i = 0;
        while i < wires.len() {
            let (k, n) = wires[i];
            let mut j = i + 1;
            unsafe {
                let seg = if k < 0 {
                    let mut val = n as u64;
                    while j < wires.len() && wires[j].0 < 0 { val |= (wires[j].1 as u64) << (j - i); j += 1; }
                    self.num((j - i) as u32, val)
                } else {
                    while j < wires.len() && wires[j] == (k + (j - i) as i8, n) { j += 1; }
                    let e = Z3_mk_extract(self.c, (k as usize + j - i - 1) as u32, k as u32, v);
                    if n { Z3_mk_bvnot(self.c, e) } else { e }
                };
                r = if r.is_null() { seg } else { Z3_mk_concat(self.c, seg, r) };
            }
            i = j;
        }
        r
    }
    pub fn tr(&mut self, ar: &Arena, e: Ex) -> P {
        if let Some(p) = self.memo.get(&e) { return *p; }
        let c = self.c;
        let r = match ar.nodes[e as usize].clone() {
            Node::Const { w, v } => self.num(w as u32, v),
            Node::Tab { var, w, tab } => self.tab(var, w as u32, &tab),
            Node::Cat { parts, .. } => {
                let mut r: P = std::ptr::null_mut();
                for p in parts.iter() {
                    let mut x = self.tr(ar, p.e);
                    unsafe {
                        if p.lo != 0 || p.len as u32 != ar.w(p.e) { x = Z3_mk_extract(c, (p.lo + p.len - 1) as u32, p.lo as u32, x); }
                        r = if r.is_null() { x } else { Z3_mk_concat(c, x, r) };
                    }
                }
                r
            }
            Node::Op { op, w, a, b, c: d } => {
                let x = self.tr(ar, a);
                let y = self.tr(ar, b);
                unsafe {
                    let one = self.num(1, 1);
                    let zero = self.num(1, 0);
                    match op {
                        Bop::Add => Z3_mk_bvadd(c, x, y),
                        Bop::Sub => Z3_mk_bvsub(c, x, y),
                        Bop::Mul => Z3_mk_bvmul(c, x, y),
                        Bop::UDiv => Z3_mk_bvudiv(c, x, y),
                        Bop::URem => Z3_mk_bvurem(c, x, y),
                        Bop::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Bop::SRem => Z3_mk_bvsrem(c, x, y),
                        Bop::And => Z3_mk_bvand(c, x, y),
                        Bop::Or => Z3_mk_bvor(c, x, y),
                        Bop::Xor => Z3_mk_bvxor(c, x, y),
                        Bop::Shl => Z3_mk_bvshl(c, x, y),
                        Bop::LShr => Z3_mk_bvlshr(c, x, y),
                        Bop::AShr => Z3_mk_bvashr(c, x, y),
                        Bop::Eq => Z3_mk_ite(c, Z3_mk_eq(c, x, y), one, zero),
                        Bop::Ult => Z3_mk_ite(c, Z3_mk_bvult(c, x, y), one, zero),
                        Bop::Ule => Z3_mk_ite(c, Z3_mk_bvule(c, x, y), one, zero),
                        Bop::Slt => Z3_mk_ite(c, Z3_mk_bvslt(c, x, y), one, zero),
                        Bop::Sle => Z3_mk_ite(c, Z3_mk_bvsle(c, x, y), one, zero),
                        Bop::Ite => { let z = self.tr(ar, d); Z3_mk_ite(c, Z3_mk_eq(c, x, one), y, z) }
                        Bop::SExt => Z3_mk_sign_ext(c, w as u32 - ar.w(a), x),
                    }
                }
            }
        };
        self.memo.insert(e, r);
        r
    }
    /// Is the conjunction satisfiable?  Returns values for the variables in `vars`.
    pub fn check(&mut self, ar: &Arena, conj: &[Ex], vars: u128) -> Res {
        let t0 = std::time::Instant::now();
        let mut ps = Vec::new();
        for e in conj { ps.push(self.tr(ar, *e)); }
        unsafe {
            Z3_solver_reset(self.c, self.s);
            let one = self.num(1, 1);
            for p in ps { Z3_solver_assert(self.c, self.s, Z3_mk_eq(self.c, p, one)); }
            let r = Z3_solver_check(self.c, self.s);
            self.queries += 1;
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = Vec::new();
                    for v in 0..128u16 {
                        if vars >> v & 1 == 1 {
                            let x = self.var(v);
                            let mut val: P = std::ptr::null_mut();
                            Z3_model_eval(self.c, m, x, true, &mut val);
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(self.c, val, &mut u);
                            out.push((v, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => Res::Unknown,
            };
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.maxq { self.maxq = dt; }
            res
        }
    }
}

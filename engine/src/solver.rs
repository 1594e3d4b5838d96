//! Z3 through its C API. One incremental solver per worker whose assertion stack mirrors the path condition.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_fresh_const(c: P, prefix: *const c_char, sort: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvneg(c: P, a: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn z3_version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64,
    pub solver_us: u64, pub lia: u64, pub model_hits: u64, pub known_hits: u64, pub entailed: u64,
}

/// One incremental solver context. `int` selects the encoding: linear integer arithmetic with explicit wrap-around
/// quotients (exact for the expressions it accepts), or bit-vectors.
struct Ctx {
    int: bool,
    ctx: P,
    s: P,
    bv: Vec<P>,
    bl: Vec<P>,
    /// integer encoding: definitional side condition of an expression (range of a variable, wrap quotient), if any
    side: Vec<P>,
    sides_of: FxMap<E, std::rc::Rc<Vec<E>>>,
    on_stack: FxMap<E, usize>,
    order: Vec<E>,
    supported: FxMap<E, bool>,
    stack: Vec<E>,
    tmp: std::cell::RefCell<Vec<P>>,
}

pub struct Solver {
    lia: Ctx,
    bvs: Ctx,
    pub stats: Stats,
    /// every n-th query is written here in SMT-LIB for cross-checking with another solver
    pub dump: Option<(u64, Vec<(String, bool)>)>,
}

pub enum Res { Sat(Vec<u128>), Unsat, Unknown }

impl Solver {
    pub fn new() -> Self { Solver { lia: Ctx::new(true), bvs: Ctx::new(false), stats: Stats::default(), dump: None } }
    /// Is path ∧ extra satisfiable?
    pub fn check(&mut self, a: &Arena, path: &[E], extra: E, vars: &[(u32, E)]) -> Res {
        let t0 = Instant::now();
        let lin = self.lia.ok(a, extra) && path.iter().all(|e| self.lia.ok(a, *e));
        let want = match &self.dump { Some((every, v)) => self.stats.queries % *every == 0 && v.len() < 64, None => false };
        let (mut r, mut d) = if lin { self.stats.lia += 1; self.lia.check(a, path, extra, vars, want) } else { self.bvs.check(a, path, extra, vars, want) };
        if lin && matches!(r, Res::Unknown) { let x = self.bvs.check(a, path, extra, vars, want); r = x.0; d = x.1; }
        if let (Some(t), Some((_, v))) = (d, &mut self.dump) { if !matches!(r, Res::Unknown) { v.push((t, matches!(r, Res::Sat(_)))); } }
        self.stats.queries += 1;
        match r { Res::Sat(_) => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        self.stats.solver_us += t0.elapsed().as_micros() as u64;
        r
    }
}

impl Ctx {
    fn new(int: bool) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context_rc(cfg);
            let s = if !int && std::env::var("SVX_LOGIC_SOLVER").is_ok() {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()))
            } else { Z3_mk_simple_solver(ctx) };
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), 100_000_000);
            Z3_solver_set_params(ctx, s, p);
            Ctx { int, ctx, s, bv: vec![], bl: vec![], side: vec![], sides_of: Default::default(), on_stack: Default::default(), order: vec![], supported: Default::default(), stack: vec![], tmp: Default::default() }
        }
    }
    /// can the expression be encoded exactly in linear integer arithmetic?
    fn ok(&mut self, a: &Arena, e: E) -> bool {
        if let Some(b) = self.supported.get(&e) { return *b; }
        let b = a.w(e) <= 64 && match a.n(e) {
            N::Const(_) | N::Var(_) | N::Undef => true,
            N::Lin(..) | N::ZExt(_) | N::SExt(_) | N::Extract(..) | N::Concat(..) | N::Ite(..) | N::Eq(..) | N::Ult(..) | N::Slt(..) => true,
            N::And(x, y) => a.w(e) == 1 || Self::low_mask(a, *x).is_some() || Self::low_mask(a, *y).is_some(),
            N::Or(..) | N::Xor(..) => a.w(e) == 1,
            N::Shl(_, k) | N::LShr(_, k) => a.as_c(*k).map_or(false, |k| k < a.w(e) as u128),
            N::UDiv(_, k) | N::URem(_, k) => a.as_c(*k).map_or(false, |k| k > 0),
            _ => false,
        };
        let mut b = b;
        if b { let mut ch = vec![]; a.children(e, |c| ch.push(c)); for c in ch { if !self.ok(a, c) { b = false; break; } } }
        self.supported.insert(e, b);
        b
    }
    fn low_mask(a: &Arena, e: E) -> Option<u32> { a.as_c(e).and_then(|v| if v & (v.wrapping_add(1)) == 0 { Some(v.count_ones()) } else { None }) }
    unsafe fn k(&self, p: P) -> P { Z3_inc_ref(self.ctx, p); self.tmp.borrow_mut().push(p); p }
    unsafe fn inum(&self, v: i128) -> P { let s = CString::new(v.to_string()).unwrap(); self.k(Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_int_sort(self.ctx))) }
    unsafe fn iadd(&self, v: &[P]) -> P { if v.len() == 1 { v[0] } else { self.k(Z3_mk_add(self.ctx, v.len() as c_uint, v.as_ptr())) } }
    unsafe fn imul(&self, k: i128, x: P) -> P { if k == 1 { return x; } let v = [self.inum(k), x]; self.k(Z3_mk_mul(self.ctx, 2, v.as_ptr())) }
    unsafe fn ifresh(&self) -> P { let n = CString::new("q").unwrap(); self.k(Z3_mk_fresh_const(self.ctx, n.as_ptr(), Z3_mk_int_sort(self.ctx))) }
    unsafe fn between(&self, lo: i128, x: P, hi: i128) -> P { let v = [self.k(Z3_mk_le(self.ctx, self.inum(lo), x)), self.k(Z3_mk_le(self.ctx, x, self.inum(hi)))]; self.k(Z3_mk_and(self.ctx, 2, v.as_ptr())) }
    /// x mod 2^w for an integer term known to lie in [lo, hi]; the side condition belongs to e
    unsafe fn wrap(&mut self, e: E, x: P, lo: i128, hi: i128, w: u32) -> P {
        let m = 1i128 << w;
        if lo >= 0 && hi < m { return x; }
        let q = self.ifresh();
        let r = self.iadd(&[x, self.imul(-m, q)]);
        let v = [self.between(lo.div_euclid(m), q, hi.div_euclid(m)), self.between(0, r, m - 1)];
        let c = self.k(Z3_mk_and(self.ctx, 2, v.as_ptr()));
        Z3_inc_ref(self.ctx, c);
        *Self::slot(&mut self.side, e) = c; self.sides_of.remove(&e);
        r
    }
    /// x div k (floor), with remainder, for a non-negative x <= hi
    unsafe fn divide(&mut self, e: E, x: P, k: i128, hi: i128) -> (P, P) {
        let q = self.ifresh();
        let r = self.iadd(&[x, self.imul(-k, q)]);
        let v = [self.between(0, q, hi / k), self.between(0, r, k - 1)];
        let c = self.k(Z3_mk_and(self.ctx, 2, v.as_ptr()));
        Z3_inc_ref(self.ctx, c);
        *Self::slot(&mut self.side, e) = c; self.sides_of.remove(&e);
        (q, r)
    }
    /// value of a wider-than-boolean (or boolean, as 0/1) expression as an integer term
    unsafe fn to_int(&mut self, a: &Arena, e: E) -> P {
        let s = *Self::slot(&mut self.bv, e);
        if !s.is_null() { return s; }
        let c = self.ctx;
        let w = a.w(e);
        let r = if Self::is_bool_node(a, e) { let b = self.to_bool(a, e); self.k(Z3_mk_ite(c, b, self.inum(1), self.inum(0))) } else {
            match a.n(e).clone() {
                N::Const(v) => self.inum(v as i128),
                N::Undef => self.inum(0),
                N::Var(i) => {
                    let x = self.k(Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), Z3_mk_int_sort(c)));
                    let (lo, hi) = a.rng[e as usize];
                    let b = self.between(lo as i128, x, hi as i128);
                    Z3_inc_ref(c, b);
                    *Self::slot(&mut self.side, e) = b; self.sides_of.remove(&e);
                    x
                }
                N::Lin(k, ts) => {
                    let (lo, hi) = a.lin_bounds(k, &ts, w).unwrap_or((i128::MIN >> 2, i128::MAX >> 2));
                    let k = sx(k, w);
                    let mut v = vec![];
                    for (t, q) in ts.iter() { let q = sx(*q, w); let x = self.to_int(a, *t); v.push(self.imul(q, x)); }
                    if k != 0 { v.push(self.inum(k)); }
                    let x = self.iadd(&v);
                    self.wrap(e, x, lo, hi, w)
                }
                N::ZExt(x) => self.to_int(a, x),
                N::SExt(x) => { let wx = a.w(x); let v = self.to_int(a, x); let up = self.iadd(&[v, self.inum((1i128 << w) - (1i128 << wx))]); let neg = self.k(Z3_mk_le(c, self.inum(1i128 << (wx - 1)), v)); self.k(Z3_mk_ite(c, neg, up, v)) }
                N::Extract(x, lo) => {
                    let wx = a.w(x); let v = self.to_int(a, x);
                    if lo == 0 { self.wrap(e, v, 0, mask(wx) as i128, w) }
                    else if lo + w == wx { self.divide(e, v, 1i128 << lo, mask(wx) as i128).0 }
                    else {
                        // v = hi·2^(lo+w) + r·2^lo + low
                        let (h, r, l) = (self.ifresh(), self.ifresh(), self.ifresh());
                        let sum = self.iadd(&[self.imul(1i128 << (lo + w), h), self.imul(1i128 << lo, r), l]);
                        let v = [self.k(Z3_mk_eq(c, v, sum)), self.between(0, h, mask(wx - lo - w) as i128), self.between(0, r, mask(w) as i128), self.between(0, l, mask(lo) as i128)];
                        let sc = self.k(Z3_mk_and(c, 4, v.as_ptr()));
                        Z3_inc_ref(c, sc);
                        *Self::slot(&mut self.side, e) = sc; self.sides_of.remove(&e);
                        r
                    }
                }
                N::Concat(h, l) => { let wl = a.w(l); let (h, l) = (self.to_int(a, h), self.to_int(a, l)); self.iadd(&[self.imul(1i128 << wl, h), l]) }
                N::Ite(x, y, z) => { let x = self.to_bool(a, x); let (y, z) = (self.to_int(a, y), self.to_int(a, z)); self.k(Z3_mk_ite(c, x, y, z)) }
                N::And(x, y) => { let (x, k) = match Self::low_mask(a, y) { Some(k) => (x, k), None => (y, Self::low_mask(a, x).unwrap()) }; let v = self.to_int(a, x); if k == 0 { self.inum(0) } else { self.wrap(e, v, 0, mask(w) as i128, k) } }
                N::Shl(x, k) => { let k = a.as_c(k).unwrap() as u32; let v = self.to_int(a, x); let v = self.imul(1i128 << k, v); self.wrap(e, v, 0, (mask(w) as i128) << k, w) }
                N::LShr(x, k) => { let k = a.as_c(k).unwrap() as u32; let v = self.to_int(a, x); if k == 0 { v } else { self.divide(e, v, 1i128 << k, mask(w) as i128).0 } }
                N::UDiv(x, k) => { let k = a.as_c(k).unwrap() as i128; let v = self.to_int(a, x); self.divide(e, v, k, mask(w) as i128).0 }
                N::URem(x, k) => { let k = a.as_c(k).unwrap() as i128; let v = self.to_int(a, x); self.divide(e, v, k, mask(w) as i128).1 }
                _ => unreachable!(),
            }
        };
        Z3_inc_ref(c, r);
        *Self::slot(&mut self.bv, e) = r;
        r
    }
    /// x = y as Σpos = Σneg when neither side can wrap (equal modulo 2^w and both below 2^w)
    unsafe fn eq_sides(&mut self, a: &Arena, x: E, y: E) -> Option<P> {
        let w = a.w(x);
        let parts = |e: E| match a.n(e) { N::Lin(c, ts) => (sx(*c, w), ts.iter().map(|(t, q)| (*t, sx(*q, w))).collect::<Vec<_>>()), N::Const(c) => (*c as i128, vec![]), _ => (0, vec![(e, 1)]) };
        let (kx, mut tx) = parts(x); let (ky, ty) = parts(y);
        if !matches!(a.n(x), N::Lin(..)) && !matches!(a.n(y), N::Lin(..)) { return None; }
        for (t, q) in ty { tx.push((t, -q)); }
        let k = kx - ky;
        let mut out = vec![];
        for sign in [1i128, -1] {
            let mut hi = (k * sign).max(0); let mut v = vec![self.inum(hi)];
            for (t, q) in &tx { let q = q * sign; if q > 0 { hi = hi.checked_add(q.checked_mul(a.rng[*t as usize].1 as i128)?)?; let z = self.to_int(a, *t); v.push(self.imul(q, z)); } }
            if hi > mask(w) as i128 { return None; }
            out.push(self.iadd(&v));
        }
        Some(self.k(Z3_mk_eq(self.ctx, out[0], out[1])))
    }
    unsafe fn signed(&mut self, a: &Arena, e: E) -> P { let w = a.w(e); let v = self.to_int(a, e); let neg = self.k(Z3_mk_le(self.ctx, self.inum(1i128 << (w - 1)), v)); let d = self.iadd(&[v, self.inum(-(1i128 << w))]); self.k(Z3_mk_ite(self.ctx, neg, d, v)) }
    /// all sub-expressions with a side condition
    fn sides(&mut self, a: &Arena, e: E) -> std::rc::Rc<Vec<E>> {
        if let Some(v) = self.sides_of.get(&e) { return v.clone(); }
        let mut ch = vec![]; a.children(e, |c| ch.push(c));
        let mut out: Vec<E> = vec![];
        for c in ch { for x in self.sides(a, c).iter() { if !out.contains(x) { out.push(*x); } } }
        if !(*Self::slot(&mut self.side, e)).is_null() { out.push(e); }
        let r = std::rc::Rc::new(out);
        self.sides_of.insert(e, r.clone());
        r
    }
    unsafe fn assert(&mut self, a: &Arena, e: E, level: usize) {
        let b = self.to_bool(a, e);
        {
            let sd = self.sides(a, e);
            for x in sd.iter() { if !self.on_stack.contains_key(x) { self.on_stack.insert(*x, level); self.order.push(*x); let c = self.side[*x as usize]; Z3_solver_assert(self.ctx, self.s, c); } }
        }
        Z3_solver_assert(self.ctx, self.s, b);
        for p in self.tmp.borrow_mut().drain(..) { Z3_dec_ref(self.ctx, p); }
    }
    fn forget(&mut self, level: usize) { while let Some(x) = self.order.last().copied() { if self.on_stack[&x] >= level { self.on_stack.remove(&x); self.order.pop(); } else { break; } } }
    fn slot(v: &mut Vec<P>, e: E) -> &mut P { if v.len() <= e as usize { v.resize(e as usize + 64, std::ptr::null_mut()); } &mut v[e as usize] }
    unsafe fn num(&self, v: u128, w: u32) -> P {
        let sort = Z3_mk_bv_sort(self.ctx, w);
        if v <= u64::MAX as u128 { self.k(Z3_mk_unsigned_int64(self.ctx, v as u64, sort)) } else { let s = CString::new(v.to_string()).unwrap(); self.k(Z3_mk_numeral(self.ctx, s.as_ptr(), sort)) }
    }
    fn is_bool_node(a: &Arena, e: E) -> bool {
        a.w(e) == 1 && matches!(a.n(e), N::Eq(..) | N::Ult(..) | N::Slt(..) | N::And(..) | N::Or(..) | N::Xor(..) | N::Ite(..))
    }
    unsafe fn to_bool(&mut self, a: &Arena, e: E) -> P {
        let s = *Self::slot(&mut self.bl, e);
        if !s.is_null() { return s; }
        let c = self.ctx;
        let r = match a.n(e).clone() {
            N::Eq(x, y) if self.int => { if let Some(r) = self.eq_sides(a, x, y) { r } else { let (x, y) = (self.to_int(a, x), self.to_int(a, y)); self.k(Z3_mk_eq(c, x, y)) } }
            N::Ult(x, y) if self.int => { let (x, y) = (self.to_int(a, x), self.to_int(a, y)); self.k(Z3_mk_lt(c, x, y)) }
            N::Slt(x, y) if self.int => { let (x, y) = (self.signed(a, x), self.signed(a, y)); self.k(Z3_mk_lt(c, x, y)) }
            N::Eq(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_eq(c, x, y)) }
            N::Ult(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvult(c, x, y)) }
            N::Slt(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvslt(c, x, y)) }
            N::And(x, y) if a.w(e) == 1 => { let v = [self.to_bool(a, x), self.to_bool(a, y)]; self.k(Z3_mk_and(c, 2, v.as_ptr())) }
            N::Or(x, y) if a.w(e) == 1 => { let v = [self.to_bool(a, x), self.to_bool(a, y)]; self.k(Z3_mk_or(c, 2, v.as_ptr())) }
            N::Xor(x, y) if a.w(e) == 1 => {
                if a.as_c(x) == Some(1) { let y = self.to_bool(a, y); self.k(Z3_mk_not(c, y)) }
                else if a.as_c(y) == Some(1) { let x = self.to_bool(a, x); self.k(Z3_mk_not(c, x)) }
                else { let (x, y) = (self.to_bool(a, x), self.to_bool(a, y)); let q = self.k(Z3_mk_eq(c, x, y)); self.k(Z3_mk_not(c, q)) }
            }
            N::Ite(x, y, z) if a.w(e) == 1 => { let (x, y, z) = (self.to_bool(a, x), self.to_bool(a, y), self.to_bool(a, z)); self.k(Z3_mk_ite(c, x, y, z)) }
            _ if self.int => { let v = self.to_int(a, e); self.k(Z3_mk_eq(c, v, self.inum(1))) }
            _ => { let v = self.to_bv(a, e); let one = self.num(1, 1); self.k(Z3_mk_eq(c, v, one)) }
        };
        Z3_inc_ref(c, r);
        *Self::slot(&mut self.bl, e) = r;
        r
    }
    unsafe fn to_bv(&mut self, a: &Arena, e: E) -> P {
        let s = *Self::slot(&mut self.bv, e);
        if !s.is_null() { return s; }
        let c = self.ctx;
        let w = a.w(e);
        let r = if Self::is_bool_node(a, e) {
            let b = self.to_bool(a, e); let (o, z) = (self.num(1, 1), self.num(0, 1)); self.k(Z3_mk_ite(c, b, o, z))
        } else {
            match a.n(e).clone() {
                N::Const(v) => self.num(v, w),
                N::Undef => self.num(0, w),
                N::Var(i) => {
                    let x = self.k(Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), Z3_mk_bv_sort(c, w)));
                    let (lo, hi) = a.rng[e as usize];
                    if (lo, hi) != (0, mask(w)) {
                        let (l, h) = (self.num(lo, w), self.num(hi, w));
                        let v = [self.k(Z3_mk_bvult(c, x, l)), self.k(Z3_mk_bvult(c, h, x))];
                        let b = self.k(Z3_mk_or(c, 2, v.as_ptr()));
                        let b = self.k(Z3_mk_not(c, b));
                        Z3_inc_ref(c, b);
                        *Self::slot(&mut self.side, e) = b; self.sides_of.remove(&e);
                    }
                    x
                }
                N::Lin(k, ts) => {
                    let mut acc: Option<P> = None;
                    let m = mask(w);
                    let mut pos: Vec<(E, u128)> = vec![]; let mut neg: Vec<(E, u128)> = vec![];
                    for (t, q) in ts.iter() { if sx(*q, w) < 0 && *q != 1 { neg.push((*t, q.wrapping_neg() & m)); } else { pos.push((*t, *q)); } }
                    for (t, q) in pos { let mut x = self.to_bv(a, t); if q != 1 { let n = self.num(q, w); x = self.k(Z3_mk_bvmul(c, n, x)); } acc = Some(match acc { None => x, Some(y) => self.k(Z3_mk_bvadd(c, y, x)) }); }
                    if k != 0 || acc.is_none() { let n = self.num(k, w); acc = Some(match acc { None => n, Some(y) => self.k(Z3_mk_bvadd(c, y, n)) }); }
                    for (t, q) in neg { let mut x = self.to_bv(a, t); if q != 1 { let n = self.num(q, w); x = self.k(Z3_mk_bvmul(c, n, x)); } acc = Some(self.k(Z3_mk_bvsub(c, acc.unwrap(), x))); }
                    acc.unwrap()
                }
                N::Mul(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvmul(c, x, y)) }
                N::UDiv(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvudiv(c, x, y)) }
                N::URem(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvurem(c, x, y)) }
                N::SDiv(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvsdiv(c, x, y)) }
                N::SRem(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvsrem(c, x, y)) }
                N::And(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvand(c, x, y)) }
                N::Or(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvor(c, x, y)) }
                N::Xor(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvxor(c, x, y)) }
                N::Shl(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvshl(c, x, y)) }
                N::LShr(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvlshr(c, x, y)) }
                N::AShr(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_bvashr(c, x, y)) }
                N::ZExt(x) => { let wx = a.w(x); let x = self.to_bv(a, x); self.k(Z3_mk_zero_ext(c, w - wx, x)) }
                N::SExt(x) => { let wx = a.w(x); let x = self.to_bv(a, x); self.k(Z3_mk_sign_ext(c, w - wx, x)) }
                N::Extract(x, lo) => { let x = self.to_bv(a, x); self.k(Z3_mk_extract(c, lo + w - 1, lo, x)) }
                N::Concat(x, y) => { let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); self.k(Z3_mk_concat(c, x, y)) }
                N::Ite(x, y, z) => { let x = self.to_bool(a, x); let (y, z) = (self.to_bv(a, y), self.to_bv(a, z)); self.k(Z3_mk_ite(c, x, y, z)) }
                N::Eq(..) | N::Ult(..) | N::Slt(..) => unreachable!(),
            }
        };
        Z3_inc_ref(c, r);
        *Self::slot(&mut self.bv, e) = r;
        r
    }
    fn sync(&mut self, a: &Arena, path: &[E]) {
        let mut k = 0;
        while k < path.len() && k < self.stack.len() && path[k] == self.stack[k] { k += 1; }
        unsafe {
            let d = self.stack.len() - k;
            if d > 0 { Z3_solver_pop(self.ctx, self.s, d as c_uint); self.stack.truncate(k); self.forget(k + 1); }
            for &e in &path[k..] {
                Z3_solver_push(self.ctx, self.s);
                self.stack.push(e);
                let l = self.stack.len();
                self.assert(a, e, l);
            }
        }
    }
    fn check(&mut self, a: &Arena, path: &[E], extra: E, vars: &[(u32, E)], dump: bool) -> (Res, Option<String>) {
        self.sync(a, path);
        unsafe {
            Z3_solver_push(self.ctx, self.s);
            let l = self.stack.len() + 1;
            self.assert(a, extra, l);
            let r = Z3_solver_check(self.ctx, self.s);
            let res = if r == 1 {
                let m = Z3_solver_get_model(self.ctx, self.s);
                Z3_model_inc_ref(self.ctx, m);
                let mut vals: Vec<u128> = a.var_rng.iter().map(|r| r.0).collect();
                vals.truncate(vars.iter().map(|v| v.0 as usize + 1).max().unwrap_or(0));
                for &(i, e) in vars {
                    if !self.on_stack.contains_key(&e) && (self.int || a.rng[e as usize] != (0, mask(a.w(e)))) { continue; } // unconstrained: least value
                    let v = if self.int { self.to_int(a, e) } else { self.to_bv(a, e) };
                    let mut out: P = std::ptr::null_mut();
                    if Z3_model_eval(self.ctx, m, v, true, &mut out) {
                        Z3_inc_ref(self.ctx, out);
                        let mut u = 0u64;
                        if Z3_get_numeral_uint64(self.ctx, out, &mut u) { vals[i as usize] = u as u128; }
                        else { let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, out)).to_string_lossy().into_owned(); vals[i as usize] = s.parse().unwrap_or(0); }
                        Z3_dec_ref(self.ctx, out);
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                Res::Sat(vals)
            } else if r == -1 { Res::Unsat } else { Res::Unknown };
            let text = if dump { Some(std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().into_owned()) } else { None };
            Z3_solver_pop(self.ctx, self.s, 1);
            self.forget(l);
            (res, text)
        }
    }
}
impl Drop for Ctx { fn drop(&mut self) { unsafe {
    for p in self.bv.iter().chain(self.bl.iter()).chain(self.side.iter()) { if !p.is_null() { Z3_dec_ref(self.ctx, *p); } }
    Z3_solver_dec_ref(self.ctx, self.s); Z3_del_context(self.ctx); } } }

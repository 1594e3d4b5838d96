//! Hash-consed bit-vector expressions with a normal form for sums.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u128(&mut self, v: u128) { self.write_u64(v as u64); self.write_u64((v >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Undef,
    Lin(u128, Box<[(E, u128)]>),
    Mul(E, E), UDiv(E, E), URem(E, E), SDiv(E, E), SRem(E, E),
    And(E, E), Or(E, E), Xor(E, E),
    Shl(E, E), LShr(E, E), AShr(E, E),
    ZExt(E), SExt(E), Extract(E, u32), Concat(E, E),
    Ite(E, E, E),
    Eq(E, E), Ult(E, E), Slt(E, E),
}

pub struct Arena {
    pub nodes: Vec<N>,
    pub width: Vec<u32>,
    pub taint: Vec<bool>,
    /// unsigned interval that contains every value of the expression
    pub rng: Vec<(u128, u128)>,
    pub var_rng: Vec<(u128, u128)>,
    map: FxMap<(N, u32), E>,
    pub nvars: u32,
}

#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u32) -> i128 { crate::ir::sext(v, w) }

impl Arena {
    pub fn new() -> Self { Arena { nodes: vec![], width: vec![], taint: vec![], rng: vec![], var_rng: vec![], map: Default::default(), nvars: 0 } }
    pub fn mk(&mut self, n: N, w: u32) -> E {
        let key = (n, w);
        if let Some(&e) = self.map.get(&key) { return e; }
        let t = |e: &E| self.taint[*e as usize];
        let taint = match &key.0 {
            N::Const(_) | N::Var(_) => false,
            N::Undef => true,
            N::Lin(_, ts) => ts.iter().any(|(e, _)| t(e)),
            N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) | N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Concat(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => t(a) || t(b),
            N::ZExt(a) | N::SExt(a) | N::Extract(a, _) => t(a),
            N::Ite(a, b, c) => t(a) || t(b) || t(c),
        };
        let r = self.range_of(&key.0, w);
        self.rng.push(r);
        let e = self.nodes.len() as E;
        self.nodes.push(key.0.clone());
        self.width.push(w);
        self.taint.push(taint);
        self.map.insert(key, e);
        e
    }
    pub fn n(&self, e: E) -> &N { &self.nodes[e as usize] }
    pub fn w(&self, e: E) -> u32 { self.width[e as usize] }
    pub fn tainted(&self, e: E) -> bool { self.taint[e as usize] }
    pub fn c(&mut self, v: u128, w: u32) -> E { self.mk(N::Const(v & mask(w)), w) }
    pub fn undef(&mut self, w: u32) -> E { self.mk(N::Undef, w) }
    /// A variable with values in lo..=hi. The index must be new.
    pub fn var(&mut self, idx: u32, w: u32, lo: u128, hi: u128) -> E {
        self.nvars = self.nvars.max(idx + 1);
        if self.var_rng.len() <= idx as usize { self.var_rng.resize(idx as usize + 1, (0, u128::MAX)); }
        self.var_rng[idx as usize] = (lo, hi);
        self.mk(N::Var(idx), w)
    }
    fn range_of(&self, n: &N, w: u32) -> (u128, u128) {
        let full = (0, mask(w));
        let r = |e: &E| self.rng[*e as usize];
        match n {
            N::Const(v) => (*v, *v),
            N::Var(i) => self.var_rng.get(*i as usize).map_or(full, |x| (x.0, x.1.min(mask(w)))),
            N::Lin(c, ts) if w <= 64 => match self.lin_bounds(*c, ts, w) { Some((lo, hi)) if lo >= 0 && hi <= mask(w) as i128 => (lo as u128, hi as u128), _ => full },
            N::ZExt(x) => r(x),
            N::Concat(h, l) => { let wl = self.w(*l); let (h, l) = (r(h), r(l)); ((h.0 << wl) | l.0, (h.1 << wl) | l.1) }
            N::Ite(_, x, y) => { let (x, y) = (r(x), r(y)); (x.0.min(y.0), x.1.max(y.1)) }
            N::Extract(x, 0) => { let q = r(x); if q.1 <= mask(w) { q } else { full } }
            N::Extract(x, lo) if lo + w == self.w(*x) => { let q = r(x); (q.0 >> lo, q.1 >> lo) }
            N::UDiv(x, k) => match self.as_c(*k) { Some(k) if k > 0 => { let q = r(x); (q.0 / k, q.1 / k) } _ => full },
            N::URem(_, k) => match self.as_c(*k) { Some(k) if k > 0 => (0, k - 1), _ => full },
            _ => full,
        }
    }
    /// integer bounds of a sum with signed coefficients
    pub fn lin_bounds(&self, c: u128, ts: &[(E, u128)], w: u32) -> Option<(i128, i128)> {
        let k = sx(c, w);
        let (mut lo, mut hi) = (k, k);
        for (t, q) in ts {
            let q = sx(*q, w); let (a, b) = self.rng[*t as usize];
            if b > u64::MAX as u128 { return None; }
            let (x, y) = (q.checked_mul(a as i128)?, q.checked_mul(b as i128)?);
            lo = lo.checked_add(x.min(y))?; hi = hi.checked_add(x.max(y))?;
        }
        Some((lo, hi))
    }
    pub fn as_c(&self, e: E) -> Option<u128> { match self.n(e) { N::Const(v) => Some(*v), _ => None } }
    pub fn is_undef(&self, e: E) -> bool { matches!(self.n(e), N::Undef) }

    fn lin_parts(&self, e: E) -> (u128, Vec<(E, u128)>) {
        match self.n(e) {
            N::Const(v) => (*v, vec![]),
            N::Lin(c, ts) => (*c, ts.to_vec()),
            _ => (0, vec![(e, 1)]),
        }
    }
    fn mk_lin(&mut self, c: u128, mut ts: Vec<(E, u128)>, w: u32) -> E {
        let m = mask(w);
        ts.sort_by_key(|t| t.0);
        let mut out: Vec<(E, u128)> = Vec::with_capacity(ts.len());
        for (e, k) in ts {
            if let Some(l) = out.last_mut() { if l.0 == e { l.1 = l.1.wrapping_add(k) & m; continue; } }
            out.push((e, k & m));
        }
        out.retain(|t| t.1 != 0);
        let c = c & m;
        if out.is_empty() { return self.c(c, w); }
        if c == 0 && out.len() == 1 && out[0].1 == 1 { return out[0].0; }
        self.mk(N::Lin(c, out.into_boxed_slice()), w)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        let (c1, mut t1) = self.lin_parts(a); let (c2, t2) = self.lin_parts(b);
        t1.extend(t2);
        self.mk_lin(c1.wrapping_add(c2), t1, w)
    }
    pub fn scale(&mut self, a: E, k: u128) -> E {
        let w = self.w(a);
        let (c, mut t) = self.lin_parts(a);
        for x in t.iter_mut() { x.1 = x.1.wrapping_mul(k); }
        self.mk_lin(c.wrapping_mul(k), t, w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        if self.w(a) == 1 { return self.xor(a, b); }
        let nb = self.scale(b, u128::MAX); self.add(a, nb)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_c(b) { return self.scale(a, k); }
        if let Some(k) = self.as_c(a) { return self.scale(b, k); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(N::Mul(a, b), w)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) { if y != 0 { return self.c(x / y, w); } }
        if self.as_c(b) == Some(1) { return a; }
        self.mk(N::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) { if y != 0 { return self.c(x % y, w); } }
        if self.as_c(b) == Some(1) { return self.c(0, w); }
        self.mk(N::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) { if y != 0 { return self.c(sx(x, w).wrapping_div(sx(y, w)) as u128, w); } }
        self.mk(N::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) { if y != 0 { return self.c(sx(x, w).wrapping_rem(sx(y, w)) as u128, w); } }
        self.mk(N::SRem(a, b), w)
    }
    pub fn not(&mut self, a: E) -> E { let w = self.w(a); let m = self.c(mask(w), w); self.xor(a, m) }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) => return self.c(x & y, w),
            (Some(k), None) | (None, Some(k)) => {
                let o = if self.as_c(a).is_some() { b } else { a };
                if k == 0 { return self.c(0, w); }
                if k == mask(w) { return o; }
                // low mask: zext(extract)
                if (k & (k + 1)) == 0 {
                    let n = k.trailing_ones();
                    let x = self.extract(o, 0, n);
                    return self.zext(x, w);
                }
            }
            _ => {}
        }
        if w == 1 { if self.is_not_of(a, b) { return self.c(0, 1); } }
        self.mk(N::And(a, b), w)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        matches!(self.n(a), N::Xor(x, y) if (*x == b && self.as_c(*y) == Some(1)) || (*y == b && self.as_c(*x) == Some(1)))
            || matches!(self.n(b), N::Xor(x, y) if (*x == a && self.as_c(*y) == Some(1)) || (*y == a && self.as_c(*x) == Some(1)))
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) => return self.c(x | y, w),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            (Some(x), _) | (_, Some(x)) if x == mask(w) => return self.c(x, w),
            _ => {}
        }
        if w == 1 && self.is_not_of(a, b) { return self.c(1, 1); }
        // (zext(x) | (y << k)) with disjoint bits -> concat
        if let Some(e) = self.or_concat(a, b) { return e; }
        if let Some(e) = self.or_concat(b, a) { return e; }
        self.mk(N::Or(a, b), w)
    }
    fn or_concat(&mut self, lo: E, hi: E) -> Option<E> {
        let w = self.w(lo);
        let (x, _) = match self.n(lo) { N::ZExt(x) => (*x, 0), _ => return None };
        let xw = self.w(x);
        match self.n(hi).clone() {
            // Concat(h, zeros k)
            N::Concat(h, z) if matches!(self.n(z), N::Const(0)) => {
                let zw = self.w(z);
                if xw <= zw { let lowz = self.zext(x, zw); return Some(self.concat(h, lowz)); }
                None
            }
            _ => { let _ = w; None }
        }
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.c(0, w); }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) => return self.c(x ^ y, w),
            (Some(0), _) => return b,
            (_, Some(0)) => return a,
            (Some(k), None) | (None, Some(k)) => {
                let o = if self.as_c(a).is_some() { b } else { a };
                if let N::Xor(x, y) = self.n(o).clone() {
                    if let Some(k2) = self.as_c(x) { let kk = self.c(k ^ k2, w); return self.xor(kk, y); }
                    if let Some(k2) = self.as_c(y) { let kk = self.c(k ^ k2, w); return self.xor(kk, x); }
                }
                if let N::Ite(c, x, y) = self.n(o).clone() {
                    if self.as_c(x).is_some() && self.as_c(y).is_some() { let kk = self.c(k, w); let x2 = self.xor(x, kk); let y2 = self.xor(y, kk); return self.ite(c, x2, y2); }
                }
            }
            _ => {}
        }
        self.mk(N::Xor(a, b), w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_c(b) {
            if k >= w as u128 { return self.c(0, w); }
            if k == 0 { return a; }
            let k = k as u32;
            let hi = self.extract(a, 0, w - k);
            let z = self.c(0, k);
            return self.concat(hi, z);
        }
        self.mk(N::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_c(b) {
            if k >= w as u128 { return self.c(0, w); }
            if k == 0 { return a; }
            let k = k as u32;
            let hi = self.extract(a, k, w - k);
            return self.zext(hi, w);
        }
        self.mk(N::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_c(b) {
            let k = (k.min(w as u128 - 1)) as u32;
            if k == 0 { return a; }
            let hi = self.extract(a, k, w - k);
            return self.sext(hi, w);
        }
        self.mk(N::AShr(a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        match self.n(a).clone() {
            N::Const(v) => return self.c(v, w),
            N::ZExt(x) => return self.zext(x, w),
            N::Ite(c, x, y) if self.as_c(x).is_some() && self.as_c(y).is_some() => { let x = self.zext(x, w); let y = self.zext(y, w); return self.ite(c, x, y); }
            _ => {}
        }
        self.mk(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        match self.n(a).clone() {
            N::Const(v) => return self.c(sx(v, wa) as u128, w),
            N::ZExt(_) => return self.zext(a, w),
            N::SExt(x) => return self.sext(x, w),
            N::Ite(c, x, y) if self.as_c(x).is_some() && self.as_c(y).is_some() => { let x = self.sext(x, w); let y = self.sext(y, w); return self.ite(c, x, y); }
            _ => {}
        }
        self.mk(N::SExt(a), w)
    }
    /// bits [lo, lo+n)
    pub fn extract(&mut self, a: E, lo: u32, n: u32) -> E {
        let wa = self.w(a);
        if lo == 0 && n == wa { return a; }
        match self.n(a).clone() {
            N::Const(v) => return self.c(v >> lo, n),
            N::Undef => return self.undef(n),
            N::Extract(x, l2) => return self.extract(x, lo + l2, n),
            N::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx { return self.c(0, n); }
                if lo + n <= wx { return self.extract(x, lo, n); }
                let y = self.extract(x, lo, wx - lo);
                return self.zext(y, n);
            }
            N::SExt(x) => {
                let wx = self.w(x);
                if lo + n <= wx { return self.extract(x, lo, n); }
                if lo < wx { let y = self.extract(x, lo, wx - lo); return self.sext(y, n); }
            }
            N::Concat(h, l) => {
                let wl = self.w(l);
                if lo + n <= wl { return self.extract(l, lo, n); }
                if lo >= wl { return self.extract(h, lo - wl, n); }
                let y = self.extract(l, lo, wl - lo);
                let x = self.extract(h, 0, lo + n - wl);
                return self.concat(x, y);
            }
            N::Ite(c, x, y) if self.as_c(x).is_some() || self.as_c(y).is_some() || self.is_undef(x) || self.is_undef(y) => { let x = self.extract(x, lo, n); let y = self.extract(y, lo, n); return self.ite(c, x, y); }
            N::And(x, y) => { let x = self.extract(x, lo, n); let y = self.extract(y, lo, n); return self.and(x, y); }
            N::Or(x, y) => { let x = self.extract(x, lo, n); let y = self.extract(y, lo, n); return self.or(x, y); }
            N::Xor(x, y) => { let x = self.extract(x, lo, n); let y = self.extract(y, lo, n); return self.xor(x, y); }
            N::Lin(c, ts) if lo == 0 => {
                let mut acc = self.c(c, n);
                for (e, k) in ts.iter() { let x = self.extract(*e, 0, n); let x = self.scale(x, *k); acc = self.add(acc, x); }
                return acc;
            }
            _ => {}
        }
        self.mk(N::Extract(a, lo), n)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        match (self.n(h).clone(), self.n(l).clone()) {
            (N::Const(x), N::Const(y)) => return self.c((x << wl) | y, w),
            (N::Const(0), _) => return self.zext(l, w),
            (N::Undef, N::Undef) => return self.undef(w),
            (N::Extract(x, a), N::Extract(y, b)) if x == y && a == b + wl => return self.extract(x, b, w),
            (N::Extract(x, a), _) if a == wl && self.w(l) == wl && { let e = self.extract(x, 0, wl); e == l } => return self.extract(x, 0, w),
            // Concat(h, Concat(m, l)) where h and m are adjacent extracts
            (N::Extract(x, a), N::Concat(m, l2)) => {
                if let N::Extract(y, b) = self.n(m).clone() { let wm = self.w(m); if x == y && a == b + wm { let hm = self.extract(x, b, wh + wm); return self.concat(hm, l2); } }
            }
            _ => {}
        }
        self.mk(N::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        match self.as_c(c) { Some(0) => return b, Some(_) => return a, None => {} }
        let w = self.w(a);
        if w == 1 {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let nc = self.not(c); return self.and(nc, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.or(nc, a); }
                _ => {}
            }
        }
        // canonicalise negated condition
        if let N::Xor(x, y) = self.n(c).clone() {
            if self.as_c(x) == Some(1) { return self.ite(y, b, a); }
            if self.as_c(y) == Some(1) { return self.ite(x, b, a); }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    fn leaf_const_ite(&self, e: E, depth: u32) -> bool {
        if depth == 0 { return false; }
        match self.n(e) { N::Const(_) => true, N::Ite(_, a, b) => self.leaf_const_ite(*a, depth - 1) && self.leaf_const_ite(*b, depth - 1), _ => false }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.c(1, 1); }
        let w = self.w(a);
        if w == 1 { let x = self.xor(a, b); return self.not(x); }
        let (a, b) = if self.as_c(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.as_c(b) {
            match self.n(a).clone() {
                N::Const(v) => return self.c((v == k) as u128, 1),
                N::ZExt(x) => { let wx = self.w(x); if k > mask(wx) { return self.c(0, 1); } let kk = self.c(k, wx); return self.eq(x, kk); }
                N::SExt(x) => { let wx = self.w(x); let kk = self.c(k, wx); let back = self.sext(kk, w); if self.as_c(back) != Some(k) { return self.c(0, 1); } return self.eq(x, kk); }
                N::Ite(c, x, y) if self.leaf_const_ite(a, 8) || self.as_c(x).is_some() || self.as_c(y).is_some() => { let ex = self.eq(x, b); let ey = self.eq(y, b); return self.ite(c, ex, ey); }
                N::Concat(h, l) => { let wl = self.w(l); let kh = self.c(k >> wl, w - wl); let kl = self.c(k, wl); let x = self.eq(h, kh); let y = self.eq(l, kl); return self.and(x, y); }
                _ => {}
            }
        }
        if let (N::ZExt(x), N::ZExt(y)) = (self.n(a).clone(), self.n(b).clone()) { if self.w(x) == self.w(y) { return self.eq(x, y); } }
        // normal form through the difference
        let d = self.sub(a, b);
        match self.n(d).clone() {
            N::Const(v) => self.c((v == 0) as u128, 1),
            N::Lin(c, ts) => {
                // sum(ts) == -c ; sign-canonical
                let neg = sx(ts[0].1, w) < 0;
                let (c, ts): (u128, Vec<(E, u128)>) = if neg { (c, ts.iter().map(|(e, k)| (*e, k.wrapping_neg() & mask(w))).collect()) } else { (c.wrapping_neg() & mask(w), ts.to_vec()) };
                let l = self.mk_lin(0, ts, w);
                let r = self.c(c, w);
                if let (N::ZExt(_), true) = (self.n(l).clone(), true) { return self.eq(l, r); }
                self.mk(N::Eq(l, r), 1)
            }
            _ => { let z = self.c(0, w); if d == a { self.mk(N::Eq(a, b), 1) } else if matches!(self.n(d), N::ZExt(_) | N::SExt(_) | N::Ite(..) | N::Concat(..)) { self.eq(d, z) } else { self.mk(N::Eq(d, z), 1) } }
        }
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.c(0, 1); }
        let w = self.w(a);
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) => return self.c((x < y) as u128, 1),
            (_, Some(0)) => return self.c(0, 1),
            (_, Some(1)) => { let z = self.c(0, w); return self.eq(a, z); }
            (Some(m), _) if m == mask(w) => return self.c(0, 1),
            (Some(0), _) => { let z = self.c(0, w); let e = self.eq(b, z); return self.not(e); }
            _ => {}
        }
        match (self.n(a).clone(), self.n(b).clone()) {
            (N::ZExt(x), N::ZExt(y)) => {
                let (wx, wy) = (self.w(x), self.w(y));
                let m = wx.max(wy);
                let x = self.zext(x, m); let y = self.zext(y, m);
                if m < w { return self.ult(x, y); }
            }
            (N::ZExt(x), N::Const(k)) => { let wx = self.w(x); if k > mask(wx) { return self.c(1, 1); } let kk = self.c(k, wx); return self.ult(x, kk); }
            (N::Const(k), N::ZExt(y)) => { let wy = self.w(y); if k >= mask(wy) { return self.c(0, 1); } let kk = self.c(k, wy); return self.ult(kk, y); }
            (N::Ite(c, x, y), N::Const(_)) if self.leaf_const_ite(a, 8) => { let x = self.ult(x, b); let y = self.ult(y, b); return self.ite(c, x, y); }
            (N::Const(_), N::Ite(c, x, y)) if self.leaf_const_ite(b, 8) => { let x = self.ult(a, x); let y = self.ult(a, y); return self.ite(c, x, y); }
            _ => {}
        }
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.c(0, 1); }
        let w = self.w(a);
        match (self.n(a).clone(), self.n(b).clone()) {
            (N::Const(x), N::Const(y)) => return self.c((sx(x, w) < sx(y, w)) as u128, 1),
            (N::ZExt(x), N::ZExt(y)) if self.w(x) < w && self.w(y) < w => return self.ult(a, b),
            (_, _) if self.rng[a as usize].1 < 1u128 << (w - 1) && self.rng[b as usize].1 < 1u128 << (w - 1) => return self.ult(a, b),
            (N::ZExt(x), N::Const(k)) if self.w(x) < w => { if sx(k, w) < 0 { return self.c(0, 1); } return self.ult(a, b); }
            (N::Const(k), N::ZExt(x)) if self.w(x) < w => { if sx(k, w) < 0 { return self.c(1, 1); } return self.ult(a, b); }
            (N::Ite(c, x, y), N::Const(_)) if self.leaf_const_ite(a, 8) => { let x = self.slt(x, b); let y = self.slt(y, b); return self.ite(c, x, y); }
            (N::Const(_), N::Ite(c, x, y)) if self.leaf_const_ite(b, 8) => { let x = self.slt(a, x); let y = self.slt(a, y); return self.ite(c, x, y); }
            _ => {}
        }
        self.mk(N::Slt(a, b), 1)
    }
    pub fn show(&self, e: E) -> String {
        match self.n(e) {
            N::Const(v) => format!("{v}"), N::Var(i) => format!("v{i}:{}", self.w(e)), N::Undef => "undef".into(),
            N::Lin(c, ts) => format!("({}{}):{}", sx(*c, self.w(e)), ts.iter().map(|(t, q)| format!(" {:+}*{}", sx(*q, self.w(e)), self.show(*t))).collect::<String>(), self.w(e)),
            n => { let mut ch = vec![]; self.children(e, |c| ch.push(self.show(c))); let t = format!("{n:?}"); format!("{}({}):{}", t.split('(').next().unwrap(), ch.join(", "), self.w(e)) }
        }
    }
    pub fn children(&self, e: E, mut f: impl FnMut(E)) {
        match self.n(e) {
            N::Const(_) | N::Var(_) | N::Undef => {}
            N::Lin(_, ts) => ts.iter().for_each(|t| f(t.0)),
            N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b) | N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Concat(a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => { f(*a); f(*b) }
            N::ZExt(a) | N::SExt(a) | N::Extract(a, _) => f(*a),
            N::Ite(a, b, c) => { f(*a); f(*b); f(*c) }
        }
    }
    pub fn eval(&self, e: E, vals: &[u128], memo: &mut FxMap<E, u128>) -> u128 {
        match self.n(e) {
            N::Const(v) => return *v,
            N::Var(i) => return vals.get(*i as usize).copied().unwrap_or(self.var_rng[*i as usize].0) & mask(self.w(e)),
            N::Undef => return 0,
            _ => {}
        }
        if let Some(v) = memo.get(&e) { return *v; }
        let w = self.w(e);
        let m = mask(w);
        let mut ev = |x: E| self.eval(x, vals, memo);
        let r = match self.n(e).clone() {
            N::Const(v) => v, N::Var(_) | N::Undef => 0,
            N::Lin(c, ts) => ts.iter().fold(c, |a, (t, k)| a.wrapping_add(ev(*t).wrapping_mul(*k))),
            N::Mul(a, b) => ev(a).wrapping_mul(ev(b)),
            N::UDiv(a, b) => { let y = ev(b); if y == 0 { m } else { ev(a) / y } }
            N::URem(a, b) => { let y = ev(b); let x = ev(a); if y == 0 { x } else { x % y } }
            N::SDiv(a, b) => { let y = sx(ev(b), w); let x = sx(ev(a), w); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
            N::SRem(a, b) => { let y = sx(ev(b), w); let x = sx(ev(a), w); if y == 0 { x as u128 } else { x.wrapping_rem(y) as u128 } }
            N::And(a, b) => ev(a) & ev(b), N::Or(a, b) => ev(a) | ev(b), N::Xor(a, b) => ev(a) ^ ev(b),
            N::Shl(a, b) => { let k = ev(b); if k >= w as u128 { 0 } else { ev(a) << k } }
            N::LShr(a, b) => { let k = ev(b); if k >= w as u128 { 0 } else { ev(a) >> k } }
            N::AShr(a, b) => { let k = ev(b).min(w as u128 - 1); (sx(ev(a), w) >> k) as u128 }
            N::ZExt(a) => ev(a),
            N::SExt(a) => { let wa = self.w(a); sx(ev(a), wa) as u128 }
            N::Extract(a, lo) => ev(a) >> lo,
            N::Concat(h, l) => { let wl = self.w(l); (ev(h) << wl) | ev(l) }
            N::Ite(c, a, b) => if ev(c) != 0 { ev(a) } else { ev(b) },
            N::Eq(a, b) => (ev(a) == ev(b)) as u128,
            N::Ult(a, b) => (ev(a) < ev(b)) as u128,
            N::Slt(a, b) => { let wa = self.w(a); (sx(ev(a), wa) < sx(ev(b), wa)) as u128 }
        } & m;
        memo.insert(e, r);
        r
    }
}

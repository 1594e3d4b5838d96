//! Symbolic executor: concrete heap along each path, symbolic integers, every feasible branch side explored.
use crate::expr::*;
use crate::ir::{BinOp, CastOp, Ordering, Pred, RmwOp};
use crate::prog::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V { I(u64), E(E), W(Box<u128>), A(Rc<Vec<V>>) }

const D_MASK: u64 = 0xf << 60;
/// part of a decision: the number of instructions executed before it, to notice a replay that diverged
const SITE_MASK: u64 = 0xf_ffff_ffff << 24;
const D_BRANCH: u64 = 1 << 60;
const D_CONC: u64 = 2 << 60;
const D_PICK: u64 = 3 << 60;

const UNINIT: u8 = 0;
const CONC: u8 = 1;
const SYM: u8 = 2;
const NOACC: u8 = 3;

/// blocks at least this big can be handed out again (tree nodes are; the contents of a slice are not)
const REUSED: u64 = 64;
#[derive(Clone)]
pub struct Obj { data: Vec<u8>, st: Vec<u8>, sym: Vec<(u32, E, u8)>, ro: bool, align: u64, race: Option<Box<Race>> }

/// happens-before bookkeeping of one object for data-race detection (only filled once a second thread exists)
#[derive(Clone, Default)]
struct Race {
    /// per byte: the last write (clock << 3 | atomic << 2 | thread), the last plain and atomic read of each thread
    c: Vec<Cell>,
    /// allocated by this thread while others were running; no other thread has touched it yet
    owner: Option<u8>,
    /// the owner's clock at its last access, while it is private
    last: u32,
}
#[derive(Clone, Copy, Default)]
struct Cell { w: u32, r: [u16; 4], ra: [u16; 4] }

pub struct Frame { func: Idx, block: u32, pc: u32, prev: u32, regs: Vec<V>, uid: u32, mem: Rc<Obj>, ret_to: Option<u32>, invoke: Option<(u32, u32)> }
impl Clone for Frame { fn clone(&self) -> Self { Frame { func: self.func, block: self.block, pc: self.pc, prev: self.prev, regs: self.regs.clone(), uid: self.uid, mem: self.mem.clone(), ret_to: self.ret_to, invoke: self.invoke } } }

#[derive(Clone)]
pub struct Thread { frames: Vec<Frame>, unwinding: u32, vc: [u32; 4], seen: [u32; 4], fence: [u32; 4], done: bool, last_panic: Rc<String>, yielded: bool }

pub struct Model { vals: Vec<u128>, memo: std::cell::RefCell<FxMap<E, u128>> }

/// k + Σ q·e over the unbounded integers, terms sorted by e
#[derive(Clone, Debug)]
pub struct Form { k: i128, t: Vec<(E, i128)> }
impl Form {
    fn add(&self, o: &Form, m: i128) -> Form {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) { t.push(self.t[i]); i += 1; }
            else if i >= self.t.len() || o.t[j].0 < self.t[i].0 { t.push((o.t[j].0, o.t[j].1 * m)); j += 1; }
            else { let q = self.t[i].1 + o.t[j].1 * m; if q != 0 { t.push((self.t[i].0, q)); } i += 1; j += 1; }
        }
        Form { k: self.k + o.k * m, t }
    }
}

#[derive(Clone)]
pub enum Input { Sym(E), Conc(u64) }

#[derive(Clone)]
pub struct State {
    threads: Vec<Thread>,
    cur: usize,
    heap: Vec<Option<Rc<Obj>>>,
    globals: Vec<Option<Rc<Obj>>>,
    path: Vec<E>,
    known: Rc<FxMap<E, u64>>,
    /// linear facts implied by the path condition: each form is >= 0
    facts: Rc<Vec<Rc<Form>>>,
    model: Option<Rc<Model>>,
    inputs: Vec<Input>,
    nvars: u32,
    decisions: Vec<u64>,
    replay: Option<(Arc<Vec<u64>>, usize)>,
    steps: u64,
    uid: u32,
    live: u64,
    live_bytes: u64,
    logs: Vec<V>,
    covers: BTreeSet<u32>,
    preempt: u32,
    sync: HashMap<u64, [u32; 4]>,
    note: Vec<String>,
    sched_ok: bool,
    /// which thread made each atomic operation, once there are several
    order: Vec<u8>,
    /// may a freed block's address be handed out again? 0: never, 1: the last one freed is, 2: any or none (forks)
    reuse: u8,
    freed: Vec<(usize, u64, u64)>,
}

#[derive(Clone, Debug)]
pub struct Bug { pub kind: String, pub msg: String, pub stack: Vec<String>, pub inputs: Vec<u64>, pub notes: Vec<String>, pub decisions: usize, pub order: Vec<u8> }

pub enum Stop { Done, Kill, Bug(String, String), Err(String), Incomplete(String) }
type Rs<T> = Result<T, Stop>;

#[derive(Default, Clone)]
pub struct Totals {
    pub paths: u64, pub killed: u64, pub forks: u64, pub steps: u64, pub sym_branches: u64, pub asserts: u64, pub sym_asserts: u64,
    pub max_path: u64, pub max_steps: u64, pub incomplete: u64, pub schedules: u64, pub exprs: u64, pub mem_checks: u64, pub confirmed: u64,
    pub solver: Stats,
}

pub struct Sample { pub inputs: Vec<u64>, pub logs: Vec<u64> }

pub struct Shared {
    pub queue: Mutex<VecDeque<Arc<Vec<u64>>>>,
    pub idle: Mutex<usize>,
    pub cv: Condvar,
    pub stop: std::sync::atomic::AtomicBool,
    pub want: std::sync::atomic::AtomicUsize,
    pub nthreads: usize,
    pub deadline: Option<Instant>,
    pub result: Mutex<Collected>,
}
#[derive(Default)]
pub struct Collected {
    pub totals: Totals, pub bugs: Vec<Bug>, pub errs: Vec<String>, pub covers: BTreeMap<u32, u64>, pub funcs: BTreeSet<u32>, pub samples: Vec<Sample>,
    pub timed_out: bool, pub dumps: Vec<(String, bool)>, pub asserts_by_msg: BTreeMap<String, u64>, pub incomplete_msgs: BTreeSet<String>,
}

pub struct Opts { pub max_steps: u64, pub max_bugs: usize, pub samples: usize, pub seed: u64, pub max_preempt: u32, pub dump: bool, pub simp: bool, pub selfcheck: bool, pub confirm: u64 }

pub struct Eng {
    p: Arc<Prog>,
    a: Arena,
    s: Solver,
    work: Vec<State>,
    pub t: Totals,
    vars: Vec<E>,
    varkey: HashMap<(u32, u32, u64, u64), u32>,
    sh: Arc<Shared>,
    o: Arc<Opts>,
    funcs: Vec<bool>,
    frame_tpl: Vec<Option<(Rc<Vec<u8>>, usize)>>,
    ext_kind: Vec<Ext>,
    base_globals: Vec<Rc<Obj>>,
    confirm: u64,
    covers: BTreeMap<u32, u64>,
    amsg: BTreeMap<String, u64>,
    rng: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ext {
    Alloc, AllocZeroed, Dealloc, Realloc, Nop, Panic, Abort, Cleanup, Unknown,
    Memcpy, Memmove, Memset, Memcmp, Bcmp, Ctpop, Ctlz, Cttz, Bswap, UMax, UMin, SMax, SMin, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, USubSat, UAddSat, Ucmp, Scmp, Expect, Assume, Trap, Abs, Fshl, Fshr, Lifetime, ThreadlocalAddr, Objectsize,
    SvSym, SvRange, SvChoose, SvAssume, SvAssert, SvCover, SvLive, SvReuse, SvLog, SvIsSym, SvConc, SvSpawn, SvJoin, SvYield, SvNote, PanicCountIsZero, IsConst,
}

fn classify(n: &str) -> Ext {
    use Ext::*;
    if n.starts_with("llvm.") {
        let p = |s: &str| n.starts_with(s);
        return if p("llvm.memcpy") { Memcpy } else if p("llvm.memmove") { Memmove } else if p("llvm.memset") { Memset }
            else if p("llvm.ctpop") { Ctpop } else if p("llvm.ctlz") { Ctlz } else if p("llvm.cttz") { Cttz } else if p("llvm.bswap") { Bswap }
            else if p("llvm.umax") { UMax } else if p("llvm.umin") { UMin } else if p("llvm.smax") { SMax } else if p("llvm.smin") { SMin }
            else if p("llvm.uadd.with.overflow") { UAddO } else if p("llvm.usub.with.overflow") { USubO } else if p("llvm.umul.with.overflow") { UMulO }
            else if p("llvm.sadd.with.overflow") { SAddO } else if p("llvm.ssub.with.overflow") { SSubO } else if p("llvm.smul.with.overflow") { SMulO }
            else if p("llvm.usub.sat") { USubSat } else if p("llvm.uadd.sat") { UAddSat } else if p("llvm.ucmp") { Ucmp } else if p("llvm.scmp") { Scmp }
            else if p("llvm.expect") { Expect } else if p("llvm.assume") { Assume } else if p("llvm.trap") { Trap } else if p("llvm.abs") { Abs }
            else if p("llvm.fshl") { Fshl } else if p("llvm.fshr") { Fshr } else if p("llvm.lifetime") { Lifetime }
            else if p("llvm.threadlocal.address") { ThreadlocalAddr } else if p("llvm.objectsize") { Objectsize } else if p("llvm.is.constant") { IsConst }
            else if p("llvm.dbg") || p("llvm.experimental.noalias") || p("llvm.invariant") || p("llvm.donothing") || p("llvm.prefetch") || p("llvm.sideeffect") || p("llvm.fake.use") { Nop } else { Unknown };
    }
    match n {
        "sv_sym" => return SvSym, "sv_range" => return SvRange, "sv_choose" => return SvChoose, "sv_assume" => return SvAssume, "sv_assert" => return SvAssert, "sv_cover" => return SvCover,
        "sv_live" => return SvLive, "sv_reuse" => return SvReuse, "sv_log" => return SvLog, "sv_is_symbolic" => return SvIsSym, "sv_conc" => return SvConc, "sv_spawn" => return SvSpawn, "sv_join" => return SvJoin, "sv_yield" => return SvYield, "sv_note" => return SvNote,
        "memcpy" => return Memcpy, "memmove" => return Memmove, "memset" => return Memset, "memcmp" => return Memcmp, "bcmp" => return Bcmp,
        "abort" => return Abort,
        _ => {}
    }
    let has = |s: &str| n.contains(s);
    if has("12___rust_alloc") && !has("zeroed") || n == "__rust_alloc" { return Alloc; }
    if has("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" { return AllocZeroed; }
    if has("___rust_dealloc") || n == "__rust_dealloc" { return Dealloc; }
    if has("___rust_realloc") || n == "__rust_realloc" { return Realloc; }
    if has("no_alloc_shim_is_unstable") { return Nop; }
    if has("catch_unwind7cleanup") || has("9panicking3try7cleanup") { return Cleanup; }
    if has("9panicking") && has("core") || has("4core9panicking") {
        if has("nounwind") || has("panic_in_cleanup") || has("cannot_unwind") { return Abort; }
        return Panic;
    }
    if has("handle_alloc_error") || has("7process5abort") || has("abort_internal") { return Abort; }
    if has("option13expect_failed") || has("option13unwrap_failed") || has("result13unwrap_failed") || has("slice_index_fail") || has("slice_start_index") || has("slice_end_index") || has("slice_index_order") || has("panic_already") || has("capacity_overflow") || has("handle_error") || has("slice_error_fail") || has("begin_panic") || has("copy_from_slice_impl17len_mismatch_fail") || has("len_mismatch_fail") || has("3vec") && has("assert_failed") || has("panic_advance") || has("unwrap_failed") { return Panic; }
    if has("is_zero_slow_path") { return PanicCountIsZero; }
    Unknown
}

fn ovf(w: u32, a: i128, lo: bool) -> bool { let _ = lo; if w >= 127 { return false; } let m = 1i128 << (w - 1); a < -m || a >= m }

impl Eng {
    pub fn new(p: Arc<Prog>, sh: Arc<Shared>, o: Arc<Opts>) -> Self {
        let ext_kind = p.exts.iter().map(|n| classify(n)).collect();
        let base_globals = p.globals.iter().map(|g| Rc::new(Obj { data: g.bytes.clone(), st: g.init.iter().map(|b| if *b { CONC } else { UNINIT }).collect(), sym: vec![], ro: g.constant, align: g.align, race: None })).collect();
        let n = p.funcs.len();
        let mut s = Solver::new();
        if o.dump { s.dump = Some((97, vec![])); }
        let rng = o.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        Eng { a: Arena::new(), s, work: vec![], t: Totals::default(), vars: vec![], varkey: HashMap::new(), sh, o, funcs: vec![false; n], frame_tpl: vec![None; n], ext_kind, base_globals, confirm: 0, p, covers: BTreeMap::new(), amsg: BTreeMap::new(), rng }
    }
    pub fn initial(&mut self, entry: Idx) -> State {
        let mut st = State { threads: vec![Thread { frames: vec![], unwinding: 0, vc: [1, 0, 0, 0], seen: [0; 4], fence: [0; 4], done: false, last_panic: Rc::new(String::new()), yielded: false }], cur: 0, heap: vec![], globals: vec![None; self.p.globals.len()], path: vec![], known: Rc::new(Default::default()), facts: Rc::new(vec![]), model: None, inputs: vec![], nvars: 0, decisions: vec![], replay: None, steps: 0, uid: 0, live: 0, live_bytes: 0, logs: vec![], covers: BTreeSet::new(), preempt: 0, sync: HashMap::new(), note: vec![], sched_ok: false, order: vec![], reuse: 0, freed: vec![] };
        let _ = self.push_frame(&mut st, entry, vec![], None, None);
        st
    }
    // ---------- values ----------
    #[inline]
    fn norm(&self, e: E) -> V { match self.a.as_c(e) { Some(v) => Self::cw(v, self.a.w(e)), None => V::E(e) } }
    #[inline]
    fn cw(v: u128, w: u32) -> V { if w <= 64 { V::I(v as u64) } else { V::W(Box::new(v)) } }
    fn e(&mut self, v: &V, w: u32) -> E { match v { V::I(x) => self.a.c(*x as u128, w), V::W(x) => self.a.c(**x, w), V::E(e) => *e, V::A(_) => self.a.undef(w) } }
    #[inline]
    fn cval(v: &V) -> Option<u128> { match v { V::I(x) => Some(*x as u128), V::W(x) => Some(**x), _ => None } }
    fn kval(&mut self, k: &CVal, w: u32) -> V {
        match k { CVal::I(v) => V::I(*v), CVal::W(v) => V::W(Box::new(*v)), CVal::Undef => V::E(self.a.undef(w.max(1))), CVal::Agg(f) => V::A(Rc::new(f.iter().map(|(c, t)| { let w = match t { LTy::Int(w) => *w, _ => 1 }; self.kval(c, w) }).collect())) }
    }
    #[inline]
    fn val(&mut self, st: &State, o: &O, w: u32) -> V {
        match o {
            O::R(r) => { let t = &st.threads[st.cur]; unsafe { t.frames.last().unwrap_unchecked().regs.get_unchecked(*r as usize).clone() } }
            O::I(v) => V::I(*v),
            O::K(k) => { let k = k.clone(); self.kval(&k, w) }
        }
    }
    #[inline]
    fn set(&self, st: &mut State, dst: u32, v: V) { if dst != u32::MAX { let c = st.cur; let f = st.threads[c].frames.last_mut().unwrap(); f.regs[dst as usize] = v; } }

    // ---------- decisions ----------
    fn eval(&self, st: &State, e: E) -> u128 { let m = st.model.as_ref().unwrap(); let mut memo = m.memo.borrow_mut(); self.a.eval(e, &m.vals, &mut memo) }
    fn ensure_model(&mut self, st: &mut State) -> Rs<()> {
        if st.model.is_some() { return Ok(()); }
        let t = self.a.c(1, 1);
        match self.query(st, t)? { Some(m) => { st.model = Some(m); Ok(()) } None => Err(Stop::Kill) }
    }
    fn query(&mut self, st: &State, extra: E) -> Rs<Option<Rc<Model>>> {
        let vars: Vec<(u32, E)> = st.inputs.iter().filter_map(|i| match i { Input::Sym(e) => match self.a.n(*e) { N::Var(k) => Some((*k, *e)), _ => None }, _ => None }).collect();
        match self.s.check(&self.a, &st.path, extra, &vars) {
            Res::Sat(vals) => {
                let mut memo = Default::default();
                if self.a.eval(extra, &vals, &mut memo) == 0 { return Err(Stop::Err(format!("internal: model does not satisfy {}", self.a.show(extra)))); }
                Ok(Some(Rc::new(Model { vals, memo: memo.into() })))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Incomplete("solver returned unknown".into())),
        }
    }
    // ---------- linear entailment: decides the easy conditions before a query is made ----------
    fn form_min(&self, f: &Form) -> i128 { let mut m = f.k; for (e, q) in &f.t { let r = self.a.rng[*e as usize]; m += if *q >= 0 { q * r.0 as i128 } else { q * r.1 as i128 }; } m }
    /// f >= 0, by intervals and at most two facts of the path
    fn entails(&self, st: &State, f: &Form) -> bool {
        let m = self.form_min(f);
        if m >= 0 { return true; }
        let mut better: Vec<(i128, Form)> = vec![];
        for g in st.facts.iter() {
            if !g.t.iter().any(|(e, q)| f.t.iter().any(|(e2, q2)| e == e2 && (*q > 0) == (*q2 > 0))) { continue; }
            let d = f.add(g, -1);
            let n = self.form_min(&d);
            if n >= 0 { return true; }
            if n > m { better.push((n, d)); }
        }
        for (n, d) in &better { for g in st.facts.iter() {
            if !g.t.iter().any(|(e, q)| d.t.iter().any(|(e2, q2)| e == e2 && (*q > 0) == (*q2 > 0))) { continue; }
            let x = d.add(g, -1); let y = self.form_min(&x); if y >= 0 && y > *n { return true; }
        } }
        false
    }
    /// the exact integer value of e as a linear form over narrower-than-65-bit atoms
    fn form(&self, st: &State, e: E, depth: u32) -> Option<Form> {
        let w = self.a.w(e);
        if w > 64 { return None; }
        Some(match self.a.n(e) {
            N::Const(v) => Form { k: *v as i128, t: vec![] },
            N::ZExt(x) => return self.form(st, *x, depth),
            N::Lin(c, ts) if depth < 4 => {
                let mut f = Form { k: sx(*c, w), t: vec![] };
                for (t, q) in ts.iter() { let g = self.form(st, *t, depth + 1)?; let q = sx(*q, w); if q.abs() > 1 << 40 { return Some(Form { k: 0, t: vec![(e, 1)] }); } f = f.add(&g, q); }
                let exact = self.a.lin_bounds(*c, ts, w).map_or(false, |(lo, hi)| lo >= 0 && hi <= mask(w) as i128) || {
                    let top = Form { k: mask(w) as i128, t: vec![] }.add(&f, -1);
                    self.entails(st, &f) && self.entails(st, &top)
                };
                if exact { f } else { Form { k: 0, t: vec![(e, 1)] } }
            }
            _ => Form { k: 0, t: vec![(e, 1)] },
        })
    }
    /// D such that x = y exactly when D = 0 over the integers: both sides of the sum are below 2^w
    fn form_eq(&self, st: &State, x: E, y: E) -> Option<Form> {
        let w = self.a.w(x);
        if w > 64 { return None; }
        let parts = |e: E| match self.a.n(e) { N::Lin(c, ts) => (*c, ts.iter().map(|(t, q)| (*t, sx(*q, w))).collect::<Vec<_>>()), N::Const(c) => (*c, vec![]), _ => (0, vec![(e, 1)]) };
        let ((kx, tx), (ky, ty)) = (parts(x), parts(y));
        let k = sx(kx.wrapping_sub(ky) & mask(w), w);
        let mut d = Form { k, t: vec![] };
        for (t, q) in tx.into_iter().chain(ty.into_iter().map(|(t, q)| (t, -q))) { if q.abs() > 1 << 40 { return None; } d = d.add(&self.form(st, t, 1)?, q); }
        for sign in [1i128, -1] {
            let top = Form { k: mask(w) as i128 - (d.k * sign).max(0), t: d.t.iter().filter(|x| x.1 * sign > 0).map(|(e, q)| (*e, -q * sign)).collect() };
            if !self.entails(st, &top) { return None; } // the answer may not depend on how the difference is oriented
        }
        Some(d)
    }
    /// Rewrites a condition into an equivalent one under the path condition: a constant when linear entailment decides it.
    fn simp(&mut self, st: &State, c: E) -> E {
        let r = self.simp1(st, c);
        if let (Some(v), None, None) = (self.a.as_c(r), self.a.as_c(c), &st.replay) {
            self.confirm += 1;
            if self.o.confirm > 0 && self.confirm % self.o.confirm == 0 {
                let neg = if v != 0 { self.a.not(c) } else { c };
                self.t.confirmed += 1;
                if !matches!(self.query(st, neg), Ok(None)) { let m = format!("internal: the solver does not confirm {} = {v}", self.a.show(c)); self.sh.result.lock().unwrap().errs.push(m); }
            }
        }
        if self.o.selfcheck && st.model.is_some() && st.replay.is_none() && self.eval(st, r) != self.eval(st, c) {
            let m = format!("internal: simplification of {} to {} disagrees with the model; facts {:?}", self.a.show(c), self.a.show(r), st.facts.iter().map(|f| format!("{}{}", f.k, f.t.iter().map(|(e, q)| format!(" {:+}*{}", q, self.a.show(*e))).collect::<String>())).collect::<Vec<_>>());
            self.sh.result.lock().unwrap().errs.push(m);
        }
        r
    }
    fn simp1(&mut self, st: &State, c: E) -> E {
        if !self.o.simp { return c; }
        match self.a.n(c).clone() {
            N::Xor(x, y) if self.a.as_c(x) == Some(1) => { let y = self.simp(st, y); self.a.not(y) }
            N::Xor(x, y) if self.a.as_c(y) == Some(1) => { let x = self.simp(st, x); self.a.not(x) }
            N::And(x, y) if self.a.w(c) == 1 => { let (x, y) = (self.simp(st, x), self.simp(st, y)); self.a.and(x, y) }
            N::Or(x, y) if self.a.w(c) == 1 => { let (x, y) = (self.simp(st, x), self.simp(st, y)); self.a.or(x, y) }
            N::Ult(x, y) => {
                let (Some(f), Some(g)) = (self.form(st, x, 0), self.form(st, y, 0)) else { return c };
                let ge = f.add(&g, -1); // x - y
                if self.entails(st, &ge) { self.s.stats.entailed += 1; return self.a.c(0, 1); }
                let lt = Form { k: -ge.k - 1, t: ge.t.iter().map(|(e, q)| (*e, -q)).collect() };
                if self.entails(st, &lt) { self.s.stats.entailed += 1; return self.a.c(1, 1); }
                match self.sides(&ge) { Some((p, q)) => self.a.ult(p, q), None => c }
            }
            N::Eq(x, y) => {
                let Some(d) = self.form_eq(st, x, y) else { return c };
                if d.t.is_empty() { let k = d.k == 0; return self.a.c(k as u128, 1); }
                let n = Form { k: -d.k, t: d.t.iter().map(|(e, q)| (*e, -q)).collect() };
                let d1 = Form { k: d.k - 1, t: d.t.clone() }; let n1 = Form { k: n.k - 1, t: n.t.clone() };
                if self.entails(st, &d1) || self.entails(st, &n1) { self.s.stats.entailed += 1; return self.a.c(0, 1); }
                if self.entails(st, &d) && self.entails(st, &n) { self.s.stats.entailed += 1; return self.a.c(1, 1); }
                match self.sides(&d) { Some((p, q)) => { let (p, q) = if p < q { (p, q) } else { (q, p) }; let r = self.a.eq(p, q); r } None => c }
            }
            _ => c,
        }
    }
    /// the positive and the negative part of a form as 64-bit sums, when neither can wrap
    fn sides(&mut self, f: &Form) -> Option<(E, E)> {
        let mut out = vec![];
        for sign in [1i128, -1] {
            let mut hi = (f.k * sign).max(0);
            let mut acc = self.a.c(hi as u128, 64);
            for (e, q) in &f.t { let q = q * sign; if q > 0 {
                hi = hi.checked_add(q.checked_mul(self.a.rng[*e as usize].1 as i128)?)?;
                let z = self.a.zext(*e, 64); let z = self.a.scale(z, q as u128); acc = self.a.add(acc, z);
            } }
            if hi > u64::MAX as i128 { return None; }
            out.push(acc);
        }
        Some((out[0], out[1]))
    }
    fn learn_form(&mut self, st: &mut State, c: E, b: bool) {
        match self.a.n(c).clone() {
            N::Xor(x, y) if self.a.as_c(x) == Some(1) => self.learn_form(st, y, !b),
            N::Xor(x, y) if self.a.as_c(y) == Some(1) => self.learn_form(st, x, !b),
            N::And(x, y) if b && self.a.w(c) == 1 => { self.learn_form(st, x, true); self.learn_form(st, y, true) }
            N::Or(x, y) if !b && self.a.w(c) == 1 => { self.learn_form(st, x, false); self.learn_form(st, y, false) }
            N::Ult(x, y) => if let (Some(f), Some(g)) = (self.form(st, x, 0), self.form(st, y, 0)) {
                let n = if b { let mut h = g.add(&f, -1); h.k -= 1; h } else { f.add(&g, -1) };
                if !self.entails(st, &n) { Rc::make_mut(&mut st.facts).push(Rc::new(n)); }
            },
            N::Eq(x, y) if b => if let Some(d) = self.form_eq(st, x, y) {
                let m = Form { k: -d.k, t: d.t.iter().map(|(e, q)| (*e, -q)).collect() };
                for n in [d, m] { if !self.entails(st, &n) { Rc::make_mut(&mut st.facts).push(Rc::new(n)); } }
            },
            N::Eq(x, y) => if let Some(d) = self.form_eq(st, x, y) {
                let m = Form { k: -d.k, t: d.t.iter().map(|(e, q)| (*e, -q)).collect() };
                for mut n in [d, m] { if self.entails(st, &n) { n.k -= 1; Rc::make_mut(&mut st.facts).push(Rc::new(n)); } }
            },
            _ => {}
        }
    }
    fn learn(&mut self, st: &mut State, c: E, b: bool) {
        if self.o.simp { self.learn_form(st, c, b); }
        let nc = self.a.not(c);
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, b as u64); k.insert(nc, !b as u64);
    }
    fn know(st: &mut State, c: E, b: bool) { Rc::make_mut(&mut st.known).insert(c, b as u64); }
    fn add_path(&mut self, st: &mut State, c: E) {
        // split conjunctions: more syntactic hits later
        if let N::And(x, y) = self.a.n(c).clone() { if self.a.w(c) == 1 { self.learn(st, x, true); self.learn(st, y, true); } }
        st.path.push(c);
    }
    /// Decide a one-bit condition, forking when both sides are feasible.
    fn branch(&mut self, st: &mut State, c: E) -> Rs<bool> {
        if let Some(v) = self.a.as_c(c) { return Ok(v != 0); }
        if self.a.tainted(c) { return Err(Stop::Bug("uninit".into(), "control flow depends on uninitialised memory".into())); }
        // A forked state executes its instruction again, when `simp` may have more facts to rewrite the
        // condition with: the answer is kept for the condition as it was, so that it is not decided twice.
        let c0 = c;
        if let Some(v) = st.known.get(&c0) { self.s.stats.known_hits += 1; return Ok(*v != 0); }
        let c = self.simp(st, c0);
        if let Some(v) = self.a.as_c(c) { return Ok(v != 0); }
        if let Some(v) = st.known.get(&c) { self.s.stats.known_hits += 1; return Ok(*v != 0); }
        self.t.sym_branches += 1;
        if st.replay.is_some() {
            let d = Self::next_decision(st, D_BRANCH)?;
            let b = d & 1 == 1; let forced = d & 2 != 0;
            self.learn(st, c, b);
            if c0 != c { Self::know(st, c0, b); }
            if !forced { let l = if b { c } else { self.a.not(c) }; self.add_path(st, l); st.model = None; }
            return Ok(b);
        }
        self.ensure_model(st)?;
        let b = self.eval(st, c) != 0;
        let taken = if b { c } else { self.a.not(c) };
        let alt = self.a.not(taken);
        match self.query(st, alt)? {
            None => { let t = Self::site(st); st.decisions.push(D_BRANCH | t | b as u64 | 2); self.learn(st, c, b); if c0 != c { Self::know(st, c0, b); } }
            Some(m) => {
                self.t.forks += 1;
                let mut o = st.clone();
                o.model = Some(m);
                o.steps -= 1; // it executes this instruction again
                let t = Self::site(st);
                o.decisions.push(D_BRANCH | t | !b as u64);
                self.learn(&mut o, c, !b);
                if c0 != c { Self::know(&mut o, c0, !b); Self::know(st, c0, b); }
                self.add_path(&mut o, alt);
                self.work.push(o);
                st.decisions.push(D_BRANCH | t | b as u64);
                self.learn(st, c, b);
                self.add_path(st, taken);
            }
        }
        Ok(b)
    }
    fn next_decision(st: &mut State, kind: u64) -> Rs<u64> {
        let (r, i) = st.replay.as_mut().unwrap();
        let d = r[*i]; *i += 1;
        if *i == r.len() { st.replay = None; }
        if d & D_MASK != kind || (kind != D_CONC && d & SITE_MASK != Self::site(st)) { return Err(Stop::Err("internal: decision replay diverged".into())); }
        st.decisions.push(d);
        Ok(d & !(D_MASK | SITE_MASK))
    }
    fn site(st: &State) -> u64 { (st.steps << 24) & SITE_MASK }
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> Rs<u64> {
        let e = match v { V::I(x) => return Ok(*x), V::W(x) => return Ok(**x as u64), V::E(e) => *e, V::A(_) => return Err(Stop::Err("aggregate where integer expected".into())) };
        if let Some(c) = self.a.as_c(e) { return Ok(c as u64); }
        if self.a.tainted(e) { return Err(Stop::Bug("uninit".into(), "address or size depends on uninitialised memory".into())); }
        let _ = w;
        let we = self.a.w(e);
        if we == 1 { return Ok(self.branch(st, e)? as u64); }
        for _ in 0..300 {
            if let Some(v) = st.known.get(&e) { return Ok(*v); }
            let v = if st.replay.is_some() { st.model = None; Self::next_decision(st, D_CONC)?; let (r, i) = match st.replay.as_mut() { Some(x) => x, None => return Err(Stop::Err("internal: truncated decision".into())) }; let d = r[*i]; *i += 1; if *i == r.len() { st.replay = None; } st.decisions.push(d); d } else { self.ensure_model(st)?; let v = self.eval(st, e) as u64; st.decisions.push(D_CONC); st.decisions.push(v); v };
            let k = self.a.c(v as u128, we);
            let c = self.a.eq(e, k);
            if self.branch(st, c)? { Rc::make_mut(&mut st.known).insert(e, v); return Ok(v); }
        }
        Err(Stop::Incomplete("more than 300 values for a symbolic address/size".into()))
    }
    fn assume(&mut self, st: &mut State, c: E) -> Rs<()> {
        if let Some(v) = self.a.as_c(c) { return if v != 0 { Ok(()) } else { Err(Stop::Kill) }; }
        if self.a.tainted(c) { return Err(Stop::Bug("uninit".into(), "assumption depends on uninitialised memory".into())); }
        let c = self.simp(st, c);
        if let Some(v) = self.a.as_c(c) { return if v != 0 { Ok(()) } else { Err(Stop::Kill) }; }
        if let Some(v) = st.known.get(&c) { return if *v != 0 { Ok(()) } else { Err(Stop::Kill) }; }
        if st.replay.is_some() { st.model = None; }
        else {
            self.ensure_model(st)?;
            if self.eval(st, c) == 0 { match self.query(st, c)? { Some(m) => st.model = Some(m), None => return Err(Stop::Kill) } }
        }
        self.learn(st, c, true);
        self.add_path(st, c);
        Ok(())
    }
    fn assert(&mut self, st: &mut State, c: E, msg: &str) -> Rs<()> {
        self.t.asserts += 1;
        *self.amsg.entry(msg.to_string()).or_insert(0) += 1;
        if let Some(v) = self.a.as_c(c) { return if v != 0 { Ok(()) } else { self.ensure_model(st)?; Err(Stop::Bug("assert".into(), msg.into())) }; }
        if self.a.tainted(c) { return Err(Stop::Bug("uninit".into(), format!("assertion depends on uninitialised memory: {msg}"))); }
        let c = self.simp(st, c);
        if let Some(v) = self.a.as_c(c) { self.t.sym_asserts += 1; return if v != 0 { Ok(()) } else { self.ensure_model(st)?; Err(Stop::Bug("assert".into(), msg.into())) }; }
        if let Some(v) = st.known.get(&c) { if *v != 0 { return Ok(()); } }
        if st.replay.is_some() { self.learn(st, c, true); return Ok(()); } // discharged before the fork already
        self.t.sym_asserts += 1;
        self.ensure_model(st)?;
        if self.eval(st, c) == 0 { return Err(Stop::Bug("assert".into(), msg.into())); }
        let nc = self.a.not(c);
        match self.query(st, nc)? {
            None => { self.learn(st, c, true); Ok(()) }
            Some(m) => { st.model = Some(m); self.add_path(st, nc); Err(Stop::Bug("assert".into(), msg.into())) }
        }
    }
    // ---------- memory ----------
    fn obj<'a>(&'a self, st: &'a State, addr: u64, n: u64, write: bool) -> Rs<(&'a Obj, usize)> {
        let bug = |k: &str, m: String| Err(Stop::Bug(k.into(), m));
        let (o, off): (&Obj, u64) = match addr >> TAG_SHIFT {
            TAG_STACK => {
                let tid = (addr >> 56) & 0xf; let depth = ((addr >> 44) & 0xfff) as usize; let uid = ((addr >> 20) & 0xff_ffff) as u32; let off = addr & 0xf_ffff;
                match st.threads.get(tid as usize).and_then(|t| t.frames.get(depth)) { Some(f) if f.uid == uid => (&*f.mem, off), _ => return bug("stack-use-after-return", format!("access to a dead stack frame ({n} bytes)")) }
            }
            TAG_HEAP => {
                let id = ((addr & ((1 << 60) - 1)) >> OBJ_SHIFT) as usize; let off = addr & ((1 << OBJ_SHIFT) - 1);
                match st.heap.get(id) { Some(Some(o)) => (&**o, off), Some(None) => return bug("use-after-free", format!("access of {n} bytes at offset {off} of freed heap object #{id}")), None => return bug("wild-pointer", format!("{addr:#x}")) }
            }
            TAG_GLOBAL => {
                let id = ((addr & ((1 << 60) - 1)) >> OBJ_SHIFT) as usize; let off = addr & ((1 << OBJ_SHIFT) - 1);
                match st.globals.get(id) { Some(Some(o)) => (&**o, off), Some(None) => (&*self.base_globals[id], off), None => return bug("wild-pointer", format!("{addr:#x}")) }
            }
            _ => return bug("wild-pointer", format!("access of {n} bytes at {addr:#x}")),
        };
        if off + n > o.data.len() as u64 { return bug("out-of-bounds", format!("access of {n} bytes at offset {off} of an object of {} bytes", o.data.len())); }
        if write && o.ro { return bug("write-to-constant", format!("offset {off}")); }
        Ok((o, off as usize))
    }
    fn obj_mut<'a>(base: &[Rc<Obj>], st: &'a mut State, addr: u64) -> (&'a mut Obj, usize) {
        match addr >> TAG_SHIFT {
            TAG_STACK => { let tid = ((addr >> 56) & 0xf) as usize; let depth = ((addr >> 44) & 0xfff) as usize; (Rc::make_mut(&mut st.threads[tid].frames[depth].mem), (addr & 0xf_ffff) as usize) }
            TAG_HEAP => { let id = ((addr & ((1 << 60) - 1)) >> OBJ_SHIFT) as usize; (Rc::make_mut(st.heap[id].as_mut().unwrap()), (addr & ((1 << OBJ_SHIFT) - 1)) as usize) }
            _ => { let id = ((addr & ((1 << 60) - 1)) >> OBJ_SHIFT) as usize; if st.globals[id].is_none() { st.globals[id] = Some(base[id].clone()); } (Rc::make_mut(st.globals[id].as_mut().unwrap()), (addr & ((1 << OBJ_SHIFT) - 1)) as usize) }
        }
    }
    fn align_check(&self, addr: u64, align: u64) -> Rs<()> { if align > 1 && addr & (align - 1) != 0 { Err(Stop::Bug("misaligned".into(), format!("address {addr:#x} not aligned to {align}"))) } else { Ok(()) } }
    fn load_int(&mut self, st: &mut State, addr: u64, w: u32, off0: &'static str) -> Rs<V> {
        let n = ((w + 7) / 8) as usize;
        self.race(st, addr, n as u64, false, off0)?;
        let parts = {
            let (o, off) = self.obj(st, addr, n as u64, false)?;
            if let Some(v) = self_load(o, off, n, w) { return Ok(v); }
            let mut parts: Vec<(u8, u8, E, u8)> = Vec::with_capacity(n);
            for i in 0..n {
                match o.st[off + i] {
                    CONC => parts.push((CONC, o.data[off + i], 0, 0)),
                    UNINIT => parts.push((UNINIT, 0, 0, 0)),
                    SYM => { let k = o.sym.binary_search_by_key(&((off + i) as u32), |t| t.0).unwrap(); parts.push((SYM, 0, o.sym[k].1, o.sym[k].2)); }
                    _ => return Err(Stop::Bug("out-of-bounds".into(), format!("read of inaccessible byte at stack offset {}", off + i))),
                }
            }
            parts
        };
        // whole-expression fast path
        if parts[0].0 == SYM && self.a.w(parts[0].2) as usize == n * 8 && parts.iter().enumerate().all(|(i, p)| p.0 == SYM && p.2 == parts[0].2 && p.3 as usize == i) {
            let e = parts[0].2;
            let e = if w as usize != n * 8 { self.a.extract(e, 0, w) } else { e };
            return Ok(self.norm(e));
        }
        let mut acc: Option<E> = None;
        for (k, b, e, bi) in parts {
            let x = match k { CONC => self.a.c(b as u128, 8), UNINIT => self.a.undef(8), _ => { let we = self.a.w(e); if we < 8 { self.a.zext(e, 8) } else { let lo = bi as u32 * 8; let nb = 8.min(we - lo); let x = self.a.extract(e, lo, nb); self.a.zext(x, 8) } } };
            acc = Some(match acc { None => x, Some(y) => self.a.concat(x, y) });
        }
        let e = acc.unwrap();
        let e = if w as usize != n * 8 { self.a.extract(e, 0, w) } else { e };
        Ok(self.norm(e))
    }
    fn store_int(&mut self, st: &mut State, addr: u64, w: u32, v: &V, why: &'static str) -> Rs<()> {
        let n = ((w + 7) / 8) as usize;
        self.race(st, addr, n as u64, true, why)?;
        { let (o, off) = self.obj(st, addr, n as u64, true)?; for i in 0..n { if o.st[off + i] == NOACC { return Err(Stop::Bug("out-of-bounds".into(), format!("write of inaccessible byte at stack offset {}", off + i))); } } }
        match v {
            V::I(_) | V::W(_) => {
                let c = Self::cval(v).unwrap();
                let (o, off) = Self::obj_mut(&self.base_globals, st, addr);
                clear_sym(o, off, n);
                for i in 0..n { o.data[off + i] = (c >> (8 * i)) as u8; o.st[off + i] = CONC; }
            }
            V::E(e) => {
                let e = if w as usize != n * 8 { self.a.zext(*e, (n * 8) as u32) } else { *e };
                if self.a.tainted(e) || n > 1 && !matches!(self.a.n(e), N::Var(_) | N::Lin(..)) {
                    let mut bytes = Vec::with_capacity(n);
                    for i in 0..n { bytes.push(self.a.extract(e, 8 * i as u32, 8)); }
                    let kinds: Vec<(u8, u8, E)> = bytes.iter().map(|b| match self.a.n(*b) { N::Const(v) => (CONC, *v as u8, 0), N::Undef => (UNINIT, 0, 0), _ => (SYM, 0, *b) }).collect();
                    let (o, off) = Self::obj_mut(&self.base_globals, st, addr);
                    clear_sym(o, off, n);
                    for (i, (k, b, e)) in kinds.into_iter().enumerate() { o.st[off + i] = k; o.data[off + i] = b; if k == SYM { put_sym(o, off + i, e, 0); } }
                } else {
                    let (o, off) = Self::obj_mut(&self.base_globals, st, addr);
                    clear_sym(o, off, n);
                    for i in 0..n { o.st[off + i] = SYM; put_sym(o, off + i, e, i as u8); }
                }
            }
            V::A(_) => return Err(Stop::Err("store of aggregate as int".into())),
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, addr: u64, t: &LTy, why: &'static str) -> Rs<V> {
        match t { LTy::Int(w) => self.load_int(st, addr, *w, why), LTy::Agg(f, _) => { let mut v = Vec::with_capacity(f.len()); for (t, o) in f.iter() { v.push(self.load(st, addr.wrapping_add(*o), t, why)?); } Ok(V::A(Rc::new(v))) } LTy::Void => Ok(V::I(0)) }
    }
    fn store(&mut self, st: &mut State, addr: u64, t: &LTy, v: &V, why: &'static str) -> Rs<()> {
        match (t, v) { (LTy::Int(w), v) => self.store_int(st, addr, *w, v, why), (LTy::Agg(f, _), V::A(vs)) => { for ((t, o), v) in f.iter().zip(vs.iter()) { self.store(st, addr.wrapping_add(*o), t, v, why)?; } Ok(()) } (LTy::Agg(f, _), v) => { let v = v.clone(); let _ = v; for (t, o) in f.iter() { if let LTy::Int(w) = t { let u = V::E(self.a.undef(*w)); self.store_int(st, addr + o, *w, &u, why)?; } } Ok(()) } _ => Ok(()) }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64, overlap_ok: bool) -> Rs<()> {
        if n == 0 { return Ok(()); }
        self.race(st, s, n, false, "memcpy read")?;
        self.race(st, d, n, true, "memcpy write")?;
        if !overlap_ok && d != s { let (lo, hi) = if d < s { (d, s) } else { (s, d) }; if hi - lo < n { return Err(Stop::Bug("overlap".into(), "memcpy of overlapping ranges".into())); } }
        let (data, stt, sym) = {
            let (o, off) = self.obj(st, s, n, false)?;
            let n = n as usize;
            for i in 0..n { if o.st[off + i] == NOACC { return Err(Stop::Bug("out-of-bounds".into(), "memcpy reads an inaccessible stack byte".into())); } }
            let sy: Vec<(u32, E, u8)> = if o.sym.is_empty() { vec![] } else { o.sym.iter().filter(|t| (t.0 as usize) >= off && (t.0 as usize) < off + n).map(|t| (t.0 - off as u32, t.1, t.2)).collect() };
            (o.data[off..off + n].to_vec(), o.st[off..off + n].to_vec(), sy)
        };
        { let (o, off) = self.obj(st, d, n, true)?; for i in 0..n as usize { if o.st[off + i] == NOACC { return Err(Stop::Bug("out-of-bounds".into(), "memcpy writes an inaccessible stack byte".into())); } } }
        let (o, off) = Self::obj_mut(&self.base_globals, st, d);
        let n = n as usize;
        clear_sym(o, off, n);
        o.data[off..off + n].copy_from_slice(&data);
        o.st[off..off + n].copy_from_slice(&stt);
        for (k, e, b) in sym { put_sym(o, off + k as usize, e, b); }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> Rs<u64> {
        let mut id = st.heap.len();
        if st.reuse > 0 && size >= REUSED {
            let c: Vec<usize> = (0..st.freed.len()).rev().filter(|&i| st.freed[i].1 == size && st.freed[i].2 == align).collect();
            let k = if c.is_empty() { 0 } else if st.reuse == 1 { 1 } else { let k = self.pick(st, c.len() as u64 + 1)?; st.inputs.push(Input::Conc(k)); k as usize };
            if k > 0 { id = st.freed.remove(c[k - 1]).0; }
        }
        if id == st.heap.len() { st.heap.push(None); }
        st.heap[id] = Some(Rc::new(Obj { data: vec![0; size as usize], st: vec![if zero { CONC } else { UNINIT }; size as usize], sym: vec![], ro: false, align, race: if st.threads.len() > 1 { Some(Box::new(Race { owner: Some(st.cur as u8), ..Default::default() })) } else { None } }));
        st.live += 1; st.live_bytes += size;
        Ok((TAG_HEAP << TAG_SHIFT) | ((id as u64) << OBJ_SHIFT))
    }
    fn dealloc(&mut self, st: &mut State, addr: u64, size: u64, align: u64) -> Rs<()> {
        let id = ((addr & ((1 << 60) - 1)) >> OBJ_SHIFT) as usize;
        if addr >> TAG_SHIFT != TAG_HEAP || addr & ((1 << OBJ_SHIFT) - 1) != 0 { return Err(Stop::Bug("bad-free".into(), format!("dealloc of {addr:#x}"))); }
        let len = match st.heap.get(id) { Some(Some(o)) => { if o.data.len() as u64 != size || o.align != align { return Err(Stop::Bug("bad-free".into(), format!("dealloc with layout ({size},{align}) of an allocation made with ({},{})", o.data.len(), o.align))); } o.data.len() as u64 } Some(None) => return Err(Stop::Bug("double-free".into(), format!("heap object #{id} freed twice"))), None => return Err(Stop::Bug("bad-free".into(), format!("{addr:#x}"))) };
        self.race(st, addr, len, true, "dealloc")?;
        st.heap[id] = None; st.live -= 1; st.live_bytes -= len;
        if st.reuse > 0 && size >= REUSED && st.threads.len() < 2 { st.freed.push((id, size, align)); }
        Ok(())
    }
    fn bytes(&mut self, st: &mut State, addr: u64, n: u64) -> Option<Vec<u8>> {
        let (o, off) = self.obj(st, addr, n, false).ok()?;
        if o.st[off..off + n as usize].iter().all(|s| *s == CONC) { Some(o.data[off..off + n as usize].to_vec()) } else { None }
    }
    fn string(&mut self, st: &mut State, addr: u64, n: u64) -> String { if n > 4096 { return String::new(); } self.bytes(st, addr, n).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default() }
    // ---------- races ----------
    fn race(&mut self, st: &mut State, addr: u64, n: u64, write: bool, what: &'static str) -> Rs<()> {
        if st.threads.len() < 2 { return Ok(()); }
        self.race_slow(st, addr, n, write, what)
    }
    fn race_slow(&mut self, st: &mut State, addr: u64, n: u64, write: bool, what: &'static str) -> Rs<()> {
        if n == 0 || (addr >> TAG_SHIFT == TAG_GLOBAL && self.base_globals[((addr & ((1 << 60) - 1)) >> OBJ_SHIFT) as usize].ro) { return Ok(()); }
        if addr >> TAG_SHIFT == TAG_STACK {
            if (addr >> 56) & 15 == st.cur as u64 { return Ok(()); }
            return Err(Stop::Incomplete("a thread uses another thread's stack: not modelled".into()));
        }
        let atomic = what == "atomic";
        let cur = st.cur;
        let vc = st.threads[cur].vc;
        if addr >> TAG_SHIFT == TAG_HEAP {
            if let Some(Some(o)) = st.heap.get_mut(((addr & ((1 << 60) - 1)) >> OBJ_SHIFT) as usize) {
                if let Some(Race { owner: Some(t), last, .. }) = o.race.as_deref() {
                    if *t as usize == cur { if *last != vc[cur] { Rc::make_mut(o).race.as_mut().unwrap().last = vc[cur]; } return Ok(()); }
                    if *last > vc[*t as usize] { return Err(Stop::Incomplete("an object thought to be private to a thread was shared: not every schedule was explored".into())); }
                }
            }
        }
        self.obj(st, addr, n, false)?;
        let (o, off) = Self::obj_mut(&self.base_globals, st, addr);
        let len = o.data.len();
        let r = o.race.get_or_insert_with(Default::default);
        r.owner = None;
        if r.c.is_empty() { r.c.resize(len, Cell::default()); }
        let now = vc[cur];
        if now >= 1 << 16 { return Err(Stop::Incomplete("too many synchronisations".into())); }
        for x in &mut r.c[off..off + n as usize] {
            let (t, a, k) = ((x.w & 3) as usize, x.w & 4 != 0, x.w >> 3);
            if k != 0 && t != cur && k > vc[t] && !(atomic && a) { return Err(Stop::Bug("data-race".into(), format!("{what} races with an earlier {} by thread {t}", if a { "atomic operation" } else { "write" }))); }
            if write {
                for t in 0..4 { if t != cur && (x.r[t] as u32 > vc[t] || !atomic && x.ra[t] as u32 > vc[t]) { return Err(Stop::Bug("data-race".into(), format!("{what} races with an earlier read by thread {t}"))); } }
                x.w = now << 3 | (atomic as u32) << 2 | cur as u32;
            } else if atomic { x.ra[cur] = now as u16; } else { x.r[cur] = now as u16; }
        }
        Ok(())
    }
    fn atomic_sync(&mut self, st: &mut State, addr: u64, ord: Ordering, load: bool, store: bool) {
        if st.threads.len() < 2 { return; }
        let cur = st.cur;
        let acq = load && matches!(ord, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst);
        let rel = store && matches!(ord, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst);
        st.order.push(cur as u8);
        let join = |a: &mut [u32; 4], b: &[u32; 4]| for i in 0..4 { a[i] = a[i].max(b[i]) };
        if load { if let Some(v) = st.sync.get(&addr) { join(&mut st.threads[cur].seen, v); if acq { join(&mut st.threads[cur].vc, v); } } }
        if store {
            // what a release publishes; a relaxed store publishes what the last release fence covers
            let out = if rel { st.threads[cur].vc } else { st.threads[cur].fence };
            if out != [0; 4] {
                // RMWs continue the release sequence: join; plain stores replace it
                let e = st.sync.entry(addr).or_insert([0; 4]);
                if load { join(e, &out); } else { *e = out; }
            } else if !load { st.sync.remove(&addr); }
            st.threads[cur].vc[cur] += 1;
        }
    }
    // ---------- frames ----------
    fn push_frame(&mut self, st: &mut State, f: Idx, args: Vec<V>, ret_to: Option<u32>, invoke: Option<(u32, u32)>) -> Rs<()> {
        let fi = f as usize;
        self.funcs[fi] = true;
        let fun = &self.p.funcs[fi];
        if self.frame_tpl[fi].is_none() {
            let mut t = vec![NOACC; fun.frame as usize];
            for (o, s) in &fun.frame_layout { for i in *o..*o + *s { t[i as usize] = UNINIT; } }
            self.frame_tpl[fi] = Some((Rc::new(t), fun.frame as usize));
        }
        let (tpl, n) = self.frame_tpl[fi].clone().unwrap();
        let cur = st.cur;
        if st.threads[cur].frames.len() > 1200 { return Err(Stop::Bug("stack-overflow".into(), "more than 1200 nested calls".into())); }
        st.uid += 1;
        let mut regs = args;
        regs.truncate(fun.nparams as usize);
        regs.resize(fun.nregs as usize, V::I(0));
        st.threads[cur].frames.push(Frame { func: f, block: 0, pc: 0, prev: 0, regs, uid: st.uid & 0xff_ffff, mem: Rc::new(Obj { data: vec![0; n], st: tpl.to_vec(), sym: vec![], ro: false, align: 16, race: None }), ret_to, invoke });
        Ok(())
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let c = st.cur;
        let (func, from) = { let f = st.threads[c].frames.last().unwrap(); (f.func, f.block) };
        let p = self.p.clone();
        let b = &p.funcs[func as usize].blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, v) in &b.phis { for (l, o) in v { if *l == from { let x = self.val(st, o, 64); vals.push((*d, x)); break; } } }
            for (d, x) in vals { self.set(st, d, x); }
        }
        let f = st.threads[c].frames.last_mut().unwrap();
        f.prev = from; f.block = to; f.pc = 0;
    }
    /// Unwind the current thread to the nearest landing pad. The top frame is the one that raised.
    fn throw(&mut self, st: &mut State) -> Rs<()> {
        let c = st.cur;
        loop {
            let inv = match st.threads[c].frames.last() { None => return Err(Stop::Bug("panic".into(), format!("uncaught panic: {}", st.threads[c].last_panic))), Some(f) => f.invoke };
            // `invoke` on the frame means: the *callee's* pad lives in the caller; stored on the callee frame
            st.threads[c].frames.pop();
            if let Some((_, uw)) = inv {
                if st.threads[c].frames.is_empty() { continue; }
                self.jump(st, uw);
                return Ok(());
            }
            if st.threads[c].frames.is_empty() { return Err(Stop::Bug("panic".into(), format!("uncaught panic: {}", st.threads[c].last_panic))); }
        }
    }
    /// raise from an external called by the current frame (plain call or invoke)
    fn raise(&mut self, st: &mut State, invoke: Option<(u32, u32)>) -> Rs<()> {
        let c = st.cur;
        st.threads[c].unwinding += 1;
        match invoke { Some((_, uw)) => { self.jump(st, uw); Ok(()) } None => self.throw(st) }
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.threads[st.cur].frames.iter().rev().take(14).map(|f| { let g = &self.p.funcs[f.func as usize]; if g.pretty.is_empty() { g.name.clone() } else { g.pretty.clone() } }).collect()
    }
    fn arith(&mut self, op: BinOp, w: u32, a: &V, b: &V, nuw: bool, nsw: bool) -> Rs<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 {
                let m = mask(w) as u64; let (x, y) = (*x, *y);
                let r = match op {
                    BinOp::Add => { let r = x.wrapping_add(y) & m; if nuw && r < x { return Ok(V::E(self.a.undef(w))); } if nsw && ovf(w, sx(x as u128, w) + sx(y as u128, w), true) { return Ok(V::E(self.a.undef(w))); } r }
                    BinOp::Sub => { if nuw && y > x { return Ok(V::E(self.a.undef(w))); } if nsw && ovf(w, sx(x as u128, w) - sx(y as u128, w), true) { return Ok(V::E(self.a.undef(w))); } x.wrapping_sub(y) & m }
                    BinOp::Mul => { let r = x.wrapping_mul(y) & m; if nuw && (x as u128 * y as u128) > m as u128 { return Ok(V::E(self.a.undef(w))); } if nsw && ovf(w, sx(x as u128, w) * sx(y as u128, w), true) { return Ok(V::E(self.a.undef(w))); } r }
                    BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u64 { return Ok(V::E(self.a.undef(w))); } else { (x << y) & m },
                    BinOp::LShr => if y >= w as u64 { return Ok(V::E(self.a.undef(w))); } else { x >> y },
                    BinOp::AShr => if y >= w as u64 { return Ok(V::E(self.a.undef(w))); } else { (sx(x as u128, w) >> y) as u64 & m },
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return Err(Stop::Bug("div-by-zero".into(), String::new())),
                    BinOp::UDiv => x / y, BinOp::URem => x % y,
                    BinOp::SDiv => sx(x as u128, w).wrapping_div(sx(y as u128, w)) as u64 & m,
                    BinOp::SRem => sx(x as u128, w).wrapping_rem(sx(y as u128, w)) as u64 & m,
                };
                return Ok(V::I(r));
            }
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match op {
            BinOp::Add => self.a.add(x, y), BinOp::Sub => self.a.sub(x, y), BinOp::Mul => self.a.mul(x, y), BinOp::And => self.a.and(x, y), BinOp::Or => self.a.or(x, y), BinOp::Xor => self.a.xor(x, y),
            BinOp::Shl => self.a.shl(x, y), BinOp::LShr => self.a.lshr(x, y), BinOp::AShr => self.a.ashr(x, y),
            BinOp::UDiv => self.a.udiv(x, y), BinOp::URem => self.a.urem(x, y), BinOp::SDiv => self.a.sdiv(x, y), BinOp::SRem => self.a.srem(x, y),
        };
        Ok(self.norm(r))
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y); let (s, t) = (sx(x as u128, w), sx(y as u128, w));
            return V::I(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => s < t, Pred::Sle => s <= t, Pred::Sgt => s > t, Pred::Sge => s >= t } as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.a.eq(x, y), Pred::Ne => { let e = self.a.eq(x, y); self.a.not(e) }
            Pred::Ult => self.a.ult(x, y), Pred::Uge => { let e = self.a.ult(x, y); self.a.not(e) }
            Pred::Ugt => self.a.ult(y, x), Pred::Ule => { let e = self.a.ult(y, x); self.a.not(e) }
            Pred::Slt => self.a.slt(x, y), Pred::Sge => { let e = self.a.slt(x, y); self.a.not(e) }
            Pred::Sgt => self.a.slt(y, x), Pred::Sle => { let e = self.a.slt(y, x); self.a.not(e) }
        };
        self.norm(r)
    }
    // ---------- one instruction ----------
    fn advance(&self, st: &mut State) { let c = st.cur; st.threads[c].frames.last_mut().unwrap().pc += 1; }
    fn step(&mut self, st: &mut State) -> Rs<()> {
        let c = st.cur;
        let p = self.p.clone(); // Arc clone per step is avoided in run(); kept for clarity
        let (fi, bi, pc) = { let f = st.threads[c].frames.last().unwrap(); (f.func, f.block, f.pc) };
        let x = &p.funcs[fi as usize].blocks[bi as usize].insts[pc as usize];
        self.exec(st, x)
    }
    fn exec(&mut self, st: &mut State, x: &X) -> Rs<()> {
        let c = st.cur;
        match x {
            X::Alloca { dst, off, size } => {
                let (uid, depth) = { let t = &st.threads[c]; (t.frames.last().unwrap().uid, t.frames.len() as u64 - 1) };
                let _ = size;
                let addr = (TAG_STACK << TAG_SHIFT) | ((c as u64) << 56) | (depth << 44) | ((uid as u64) << 20) | off;
                self.set(st, *dst, V::I(addr));
            }
            X::Load { dst, ty, ptr, align, ord } => {
                let pv = self.val(st, ptr, 64); let a = self.conc(st, &pv, 64)?;
                self.align_check(a, *align)?;
                let v = if *ord != Ordering::NotAtomic {
                    if self.sched(st, a)? { return Ok(()); }
                    self.atomic_sync(st, a, *ord, true, false);
                    let v = self.load(st, a, ty, "atomic")?; st.sched_ok = false; v
                } else { self.load(st, a, ty, "read")? };
                self.set(st, *dst, v);
            }
            X::Store { ty, val, ptr, align, ord } => {
                let pv = self.val(st, ptr, 64); let a = self.conc(st, &pv, 64)?;
                self.align_check(a, *align)?;
                let w = match ty { LTy::Int(w) => *w, _ => 1 };
                let v = self.val(st, val, w);
                if *ord != Ordering::NotAtomic { if self.sched(st, a)? { return Ok(()); } self.store(st, a, ty, &v, "atomic")?; self.atomic_sync(st, a, *ord, false, true); st.sched_ok = false; }
                else { self.store(st, a, ty, &v, "write")?; }
            }
            X::Gep { dst, base, off, idx } => {
                let b = self.val(st, base, 64);
                let v = if idx.is_empty() { match b { V::I(x) => V::I(x.wrapping_add(*off as u64)), _ => { let o = V::I(*off as u64); self.arith(BinOp::Add, 64, &b, &o, false, false)? } } } else {
                    let mut acc = { let o = V::I(*off as u64); self.arith(BinOp::Add, 64, &b, &o, false, false)? };
                    for (o, w, s) in idx {
                        let i = self.val(st, o, *w);
                        let i = if *w == 64 { i } else { match &i { V::I(x) => V::I(sx(*x as u128, *w) as u64), V::E(e) => { let e = self.a.sext(*e, 64); self.norm(e) } _ => i } };
                        let k = V::I(*s as u64);
                        let m = self.arith(BinOp::Mul, 64, &i, &k, false, false)?;
                        acc = self.arith(BinOp::Add, 64, &acc, &m, false, false)?;
                    }
                    acc
                };
                self.set(st, *dst, v);
            }
            X::Bin { dst, op, w, a, b, nuw, nsw } => {
                let (x, y) = (self.val(st, a, *w), self.val(st, b, *w));
                if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) { if let V::E(e) = y { let z = self.a.c(0, *w); let q = self.a.eq(e, z); if self.branch(st, q)? { return Err(Stop::Bug("div-by-zero".into(), String::new())); } } }
                let v = self.arith(*op, *w, &x, &y, *nuw, *nsw)?;
                self.set(st, *dst, v);
            }
            X::Icmp { dst, pred, w, a, b } => { let (x, y) = (self.val(st, a, *w), self.val(st, b, *w)); let mut v = self.cmp(*pred, *w, &x, &y); if let V::E(e) = v { let e = self.simp(st, e); v = self.norm(e); } self.set(st, *dst, v); }
            X::Cast { dst, op, from, to, a } => {
                let x = self.val(st, a, *from);
                let v = match (&x, op) {
                    (_, CastOp::Same) => x,
                    (V::I(v), CastOp::Trunc) => V::I(*v & mask(*to) as u64),
                    (V::I(v), CastOp::ZExt) => Self::cw(*v as u128, *to),
                    (V::I(v), CastOp::SExt) => Self::cw(sx(*v as u128, *from) as u128 & mask(*to), *to),
                    _ => { let e = self.e(&x, *from); let r = match op { CastOp::Trunc => self.a.extract(e, 0, *to), CastOp::ZExt => self.a.zext(e, *to), _ => self.a.sext(e, *to) }; self.norm(r) }
                };
                self.set(st, *dst, v);
            }
            X::Select { dst, cond, ty, a, b } => {
                let cv = self.val(st, cond, 1);
                let w = match ty { LTy::Int(w) => *w, _ => 1 };
                let v = match cv {
                    V::I(k) => if k & 1 != 0 { self.val(st, a, w) } else { self.val(st, b, w) },
                    V::E(e) => {
                        let (x, y) = (self.val(st, a, w), self.val(st, b, w));
                        if matches!(ty, LTy::Int(w) if *w < 64) { let (x, y) = (self.e(&x, w), self.e(&y, w)); let r = self.a.ite(e, x, y); self.norm(r) }
                        else if self.branch(st, e)? { x } else { y }
                    }
                    _ => return Err(Stop::Err("select cond".into())),
                };
                self.set(st, *dst, v);
            }
            X::Freeze { dst, ty, a } => { let w = match ty { LTy::Int(w) => *w, _ => 1 }; let v = self.val(st, a, w); let v = match &v { V::E(e) if self.a.is_undef(*e) => V::I(0), _ => v }; self.set(st, *dst, v); }
            X::Extract { dst, a, path } => { let mut v = self.val(st, a, 1); for i in path { v = match &v { V::A(f) => f[*i].clone(), V::E(e) if self.a.tainted(*e) => v.clone(), _ => return Err(Stop::Err("extractvalue of scalar".into())) }; } self.set(st, *dst, v); }
            X::Insert { dst, ty, a, b, path } => {
                let base = self.val(st, a, 1);
                let mut t = ty; for i in path { if let LTy::Agg(f, _) = t { t = &f[*i].0; } }
                let w = match t { LTy::Int(w) => *w, _ => 1 };
                let nv = self.val(st, b, w);
                fn ins(base: V, ty: &LTy, path: &[usize], nv: V) -> V {
                    if path.is_empty() { return nv; }
                    let fs = match ty { LTy::Agg(f, _) => f, _ => return nv };
                    let mut v: Vec<V> = match base { V::A(f) => (*f).clone(), _ => vec![V::I(0); fs.len()] };
                    let old = v[path[0]].clone();
                    v[path[0]] = ins(old, &fs[path[0]].0, &path[1..], nv);
                    V::A(Rc::new(v))
                }
                let v = ins(base, ty, path, nv);
                self.set(st, *dst, v);
            }
            X::Call(ci) => return self.call(st, ci, None),
            X::Invoke(ci, n, u) => return self.call(st, ci, Some((*n, *u))),
            X::LandingPad { dst } => { self.set(st, *dst, V::A(Rc::new(vec![V::I(0x0e00), V::I(0)]))); }
            X::Resume { .. } => return self.throw(st),
            X::Br(b) => { self.jump(st, *b); return Ok(()); }
            X::CondBr(cv, t, f) => {
                let b = match self.val(st, cv, 1) { V::I(v) => v & 1 != 0, V::E(e) => self.branch(st, e)?, _ => return Err(Stop::Err("br cond".into())) };
                self.jump(st, if b { *t } else { *f }); return Ok(());
            }
            X::Switch { w, a, default, cases } => {
                let v = self.val(st, a, *w);
                let to = match Self::cval(&v) {
                    Some(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*default),
                    None => { let e = self.e(&v, *w); if self.a.tainted(e) { return Err(Stop::Bug("uninit".into(), "switch on uninitialised memory".into())); } let mut to = *default; for (k, l) in cases { let kk = self.a.c(*k, *w); let q = self.a.eq(e, kk); if self.branch(st, q)? { to = *l; break; } } to }
                };
                self.jump(st, to); return Ok(());
            }
            X::Ret(a) => {
                let v = match a { Some(o) => self.val(st, o, 1), None => V::I(0) };
                if st.threads[c].frames.len() == 1 {
                    // (the frame is kept until the next thread is chosen: the choice re-executes this instruction)
                    st.threads[c].done = true;
                    if c == 0 { return Err(Stop::Done); }
                    self.switch_any(st)?;
                    st.threads[c].frames.clear();
                    return Ok(());
                }
                let f = st.threads[c].frames.pop().unwrap();
                if let Some(d) = f.ret_to { self.set(st, d, v); }
                match f.invoke { Some((n, _)) => self.jump(st, n), None => self.advance(st) }
                return Ok(());
            }
            X::Unreachable => return Err(Stop::Bug("unreachable".into(), "executed an unreachable instruction (undefined behaviour in release builds)".into())),
            X::Rmw { dst, op, w, ptr, val, ord } => {
                let pv = self.val(st, ptr, 64); let a = self.conc(st, &pv, 64)?;
                self.align_check(a, (*w as u64) / 8)?;
                if self.sched(st, a)? { return Ok(()); }
                let old = self.load_int(st, a, *w, "atomic")?;
                let v = self.val(st, val, *w);
                let nv = match op {
                    RmwOp::Xchg => v, RmwOp::Add => self.arith(BinOp::Add, *w, &old, &v, false, false)?, RmwOp::Sub => self.arith(BinOp::Sub, *w, &old, &v, false, false)?,
                    RmwOp::And => self.arith(BinOp::And, *w, &old, &v, false, false)?, RmwOp::Or => self.arith(BinOp::Or, *w, &old, &v, false, false)?, RmwOp::Xor => self.arith(BinOp::Xor, *w, &old, &v, false, false)?,
                    RmwOp::Nand => { let x = self.arith(BinOp::And, *w, &old, &v, false, false)?; let m = Self::cw(mask(*w), *w); self.arith(BinOp::Xor, *w, &x, &m, false, false)? }
                    _ => { let pr = match op { RmwOp::Max => Pred::Sgt, RmwOp::Min => Pred::Slt, RmwOp::UMax => Pred::Ugt, _ => Pred::Ult }; let q = self.cmp(pr, *w, &old, &v); let b = match q { V::I(k) => k != 0, V::E(e) => self.branch(st, e)?, _ => false }; if b { old.clone() } else { v } }
                };
                self.store_int(st, a, *w, &nv, "atomic")?;
                self.atomic_sync(st, a, *ord, true, true);
                st.sched_ok = false;
                self.set(st, *dst, old);
            }
            X::CmpXchg { dst, w, ptr, cmp, new, ord } => {
                let pv = self.val(st, ptr, 64); let a = self.conc(st, &pv, 64)?;
                if self.sched(st, a)? { return Ok(()); }
                let old = self.load_int(st, a, *w, "atomic")?;
                let (cv, nv) = (self.val(st, cmp, *w), self.val(st, new, *w));
                let q = self.cmp(Pred::Eq, *w, &old, &cv);
                let b = match q { V::I(k) => k != 0, V::E(e) => self.branch(st, e)?, _ => false };
                if b { self.store_int(st, a, *w, &nv, "atomic")?; }
                self.atomic_sync(st, a, *ord, true, b);
                st.sched_ok = false;
                self.set(st, *dst, V::A(Rc::new(vec![old, V::I(b as u64)])));
            }
            X::Fence(ord) => {
                if st.threads.len() > 1 {
                    let t = &mut st.threads[c];
                    if matches!(ord, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) { for i in 0..4 { t.vc[i] = t.vc[i].max(t.seen[i]); } }
                    if matches!(ord, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) { t.fence = t.vc; t.vc[c] += 1; }
                }
            }
            X::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction: {s}"))),
        }
        self.advance(st);
        Ok(())
    }
    // ---------- threads ----------
    fn runnable(&self, st: &State) -> Vec<usize> { (0..st.threads.len()).filter(|&i| !st.threads[i].done && !st.threads[i].frames.is_empty() && !self.blocked(st, i)).collect() }
    fn blocked(&self, st: &State, i: usize) -> bool {
        // blocked in sv_join(t): encoded by `yielded` plus pc at the join call; re-evaluated in SvJoin
        st.threads[i].yielded && st.threads.iter().enumerate().any(|(k, t)| k != 0 && k != i && !t.done)
    }
    fn switch_any(&mut self, st: &mut State) -> Rs<()> {
        let r = self.runnable(st);
        if r.is_empty() { return Err(Stop::Bug("deadlock".into(), String::new())); }
        let k = self.pick(st, r.len() as u64)?;
        st.cur = r[k as usize];
        st.threads[st.cur].yielded = false;
        Ok(())
    }
    /// nondeterministic concrete choice in [0, n), forking
    fn pick(&mut self, st: &mut State, n: u64) -> Rs<u64> {
        if n <= 1 { return Ok(0); }
        if st.replay.is_some() { return Self::next_decision(st, D_PICK); }
        for k in (1..n).rev() {
            let mut o = st.clone();
            // the alternative re-executes this instruction and finds its choice forced (and records it then)
            o.replay = Some((Arc::new(vec![D_PICK | Self::site(st) | k]), 0));
            o.steps -= 1;
            self.t.forks += 1;
            self.work.push(o);
        }
        let t = Self::site(st);
        st.decisions.push(D_PICK | t);
        Ok(0)
    }
    /// scheduling point before a visible (atomic) operation; true: another thread was scheduled, the op is retried later
    fn sched(&mut self, st: &mut State, addr: u64) -> Rs<bool> {
        if st.threads.len() < 2 { return Ok(false); }
        if addr >> TAG_SHIFT == TAG_HEAP {
            let (cur, now) = (st.cur, st.threads[st.cur].vc[st.cur]);
            if let Some(Some(o)) = st.heap.get_mut(((addr & ((1 << 60) - 1)) >> OBJ_SHIFT) as usize) {
                if o.race.as_ref().map_or(false, |r| r.owner == Some(cur as u8)) {
                    // nobody else knows this object: the operation commutes with everything the others do
                    if let Some(r) = &mut Rc::make_mut(o).race { r.last = now; }
                    return Ok(false);
                }
            }
        }
        if st.sched_ok { return Ok(false); } // already decided for this very operation
        if st.preempt >= self.o.max_preempt { return Ok(false); }
        let r: Vec<usize> = self.runnable(st);
        if r.len() < 2 { return Ok(false); }
        let cur = st.cur;
        let others: Vec<usize> = r.into_iter().filter(|&t| t != cur).collect();
        let k = self.pick(st, others.len() as u64 + 1)?;
        self.t.schedules += 1;
        st.sched_ok = true;
        if k == 0 { return Ok(false); }
        st.preempt += 1;
        st.cur = others[k as usize - 1];
        st.threads[st.cur].yielded = false;
        Ok(true)
    }
    // ---------- calls ----------
    fn call(&mut self, st: &mut State, ci: &XCall, inv: Option<(u32, u32)>) -> Rs<()> {
        let f = match &ci.target {
            Target::Fn(f) => *f,
            Target::Ext(x) => return self.ext(st, *x, ci, inv),
            Target::Ind(o) => {
                let v = self.val(st, o, 64); let a = self.conc(st, &v, 64)?;
                if a >> TAG_SHIFT != TAG_FUNC { return Err(Stop::Bug("wild-call".into(), format!("indirect call to {a:#x}"))); }
                let k = ((a & ((1 << 60) - 1)) >> 4) as usize;
                let nf = self.p.funcs.len();
                if k >= nf { return self.ext(st, (k - nf) as Idx, ci, inv); }
                k as Idx
            }
        };
        let mut args = Vec::with_capacity(ci.args.len());
        for (t, o) in &ci.args { let w = match t { LTy::Int(w) => *w, _ => 1 }; args.push(self.val(st, o, w)); }
        let dst = if ci.dst == u32::MAX { None } else { Some(ci.dst) };
        self.push_frame(st, f, args, dst, inv)
    }
    fn fin(&mut self, st: &mut State, ci: &XCall, inv: Option<(u32, u32)>, v: V) -> Rs<()> {
        self.set(st, ci.dst, v);
        match inv { Some((n, _)) => self.jump(st, n), None => self.advance(st) }
        Ok(())
    }
    fn ext(&mut self, st: &mut State, x: Idx, ci: &XCall, inv: Option<(u32, u32)>) -> Rs<()> {
        use Ext::*;
        let kind = self.ext_kind[x as usize];
        let mut args: Vec<V> = Vec::with_capacity(ci.args.len());
        let mut ws: Vec<u32> = Vec::new();
        for (t, o) in &ci.args { let w = match t { LTy::Int(w) => *w, _ => 1 }; args.push(self.val(st, o, w)); ws.push(w); }
        macro_rules! cc { ($i:expr) => {{ let v = args[$i].clone(); self.conc(st, &v, ws[$i])? }}; }
        let w0 = ws.get(0).copied().unwrap_or(64);
        let r = match kind {
            Nop | Lifetime => V::I(0),
            Alloc | AllocZeroed => { let s = cc!(0); let al = cc!(1); if s > (1 << 24) { return Err(Stop::Err(format!("allocation of {s} bytes"))); } V::I(self.alloc(st, s, al, kind == AllocZeroed)?) }
            Dealloc => { let (p, s, al) = (cc!(0), cc!(1), cc!(2)); self.dealloc(st, p, s, al)?; V::I(0) }
            Realloc => { let (p, s, al, ns) = (cc!(0), cc!(1), cc!(2), cc!(3)); let n = self.alloc(st, ns, al, false)?; self.memcpy(st, n, p, s.min(ns), false)?; self.dealloc(st, p, s, al)?; V::I(n) }
            Panic => {
                let mut msg = self.p.exts[x as usize].clone();
                if let Some(i) = msg.find("9panicking") { msg = msg[i + 10..].trim_start_matches(|c: char| c.is_ascii_digit() || c == 'N' || c == 't').to_string(); }
                // the last argument of every panic entry is a &Location
                if let Some(V::I(l)) = args.last().cloned() {
                    if let (Ok(V::I(fp)), Ok(V::I(fl)), Ok(V::I(line))) = (self.load_int(st, l, 64, "read"), self.load_int(st, l.wrapping_add(8), 64, "read"), self.load_int(st, l.wrapping_add(16), 32, "read")) { let f = self.string(st, fp, fl); msg = format!("{msg} at {f}:{line}"); }
                }
                let c = st.cur;
                st.threads[c].last_panic = Rc::new(msg.clone());
                st.note.push(format!("panic {msg}"));
                return self.raise(st, inv);
            }
            Abort => return Err(Stop::Bug("abort".into(), format!("{} (last panic: {})", self.p.exts[x as usize], st.threads[st.cur].last_panic))),
            Cleanup => { let c = st.cur; st.threads[c].unwinding = st.threads[c].unwinding.saturating_sub(1); V::A(Rc::new(vec![V::I(1), V::I(self.p.fake_vtable)])) }
            PanicCountIsZero => V::I((st.threads[st.cur].unwinding == 0) as u64),
            Memcpy | Memmove => { let (d, s, n) = (cc!(0), cc!(1), cc!(2)); self.memcpy(st, d, s, n, kind == Memmove)?; V::I(d) }
            Memset => { let (d, n) = (cc!(0), cc!(2)); let v = args[1].clone(); let v = if ws[1] > 8 { match v { V::I(x) => V::I(x & 0xff), V::E(e) => { let e = self.a.extract(e, 0, 8); self.norm(e) } v => v } } else { v }; for i in 0..n { self.store_int(st, d + i, 8, &v, "memset")?; } V::I(d) }
            Memcmp | Bcmp => {
                let (p, q, n) = (cc!(0), cc!(1), cc!(2));
                let rw = match ci.ret { LTy::Int(w) => w, _ => 32 };
                let mut acc = self.a.c(0, rw);
                for i in (0..n).rev() {
                    let (x, y) = (self.load_int(st, p + i, 8, "read")?, self.load_int(st, q + i, 8, "read")?);
                    let (x, y) = (self.e(&x, 8), self.e(&y, 8));
                    let eq = self.a.eq(x, y); let lt = self.a.ult(x, y);
                    let (m, o) = (self.a.c(mask(rw), rw), self.a.c(1, rw));
                    let d = self.a.ite(lt, m, o);
                    acc = self.a.ite(eq, acc, d);
                }
                self.norm(acc)
            }
            Ctpop | Ctlz | Cttz => match Self::cval(&args[0]) {
                Some(v) => { let m = v & mask(w0); Self::cw(match kind { Ctpop => m.count_ones(), Ctlz => m.leading_zeros() - (128 - w0), _ => if m == 0 { w0 } else { m.trailing_zeros() } } as u128, w0) }
                None => {
                    let e = self.e(&args[0], w0);
                    let mut acc = self.a.c(if kind == Ctpop { 0 } else { w0 as u128 }, w0);
                    for i in 0..w0 {
                        let bit = if kind == Cttz { w0 - 1 - i } else { i };
                        let b = self.a.extract(e, bit, 1);
                        acc = match kind { Ctpop => { let z = self.a.zext(b, w0); self.a.add(acc, z) } Ctlz => { let k = self.a.c((w0 - 1 - bit) as u128, w0); self.a.ite(b, k, acc) } _ => { let k = self.a.c(bit as u128, w0); self.a.ite(b, k, acc) } };
                    }
                    self.norm(acc)
                }
            },
            Bswap => { let e = self.e(&args[0], w0); let n = w0 / 8; let mut acc = self.a.extract(e, 0, 8); for i in 1..n { let b = self.a.extract(e, 8 * i, 8); acc = self.a.concat(acc, b); } self.norm(acc) }
            UMax | UMin | SMax | SMin => {
                let pr = match kind { UMax => Pred::Ugt, UMin => Pred::Ult, SMax => Pred::Sgt, _ => Pred::Slt };
                match self.cmp(pr, w0, &args[0], &args[1]) { V::I(k) => if k != 0 { args[0].clone() } else { args[1].clone() }, V::E(q) => { let (x, y) = (self.e(&args[0], w0), self.e(&args[1], w0)); let r = self.a.ite(q, x, y); self.norm(r) } v => v }
            }
            UAddO | USubO | UMulO | SAddO | SSubO | SMulO => {
                let op = match kind { UAddO | SAddO => BinOp::Add, USubO | SSubO => BinOp::Sub, _ => BinOp::Mul };
                let r = self.arith(op, w0, &args[0], &args[1], false, false)?;
                let o = match (Self::cval(&args[0]), Self::cval(&args[1])) {
                    (Some(x), Some(y)) if w0 <= 64 => { let (sxx, sy) = (sx(x, w0), sx(y, w0)); V::I(match kind { UAddO => x + y > mask(w0), USubO => y > x, UMulO => x * y > mask(w0), SAddO => ovf(w0, sxx + sy, true), SSubO => ovf(w0, sxx - sy, true), _ => ovf(w0, sxx * sy, true) } as u64) }
                    _ => {
                        let (x, y) = (self.e(&args[0], w0), self.e(&args[1], w0));
                        let e = match kind {
                            UAddO => { let s = self.a.add(x, y); self.a.ult(s, x) }
                            USubO => self.a.ult(x, y),
                            _ => {
                                let ww = if matches!(kind, UMulO | SMulO) { (2 * w0).min(128) } else { w0 + 1 };
                                let sgn = !matches!(kind, UMulO);
                                let (x2, y2) = if sgn { (self.a.sext(x, ww), self.a.sext(y, ww)) } else { (self.a.zext(x, ww), self.a.zext(y, ww)) };
                                let s = match op { BinOp::Add => self.a.add(x2, y2), BinOp::Sub => self.a.sub(x2, y2), _ => self.a.mul(x2, y2) };
                                let t = self.a.extract(s, 0, w0);
                                let back = if sgn { self.a.sext(t, ww) } else { self.a.zext(t, ww) };
                                let q = self.a.eq(back, s); self.a.not(q)
                            }
                        };
                        let e = self.simp(st, e);
                        self.norm(e)
                    }
                };
                V::A(Rc::new(vec![r, o]))
            }
            USubSat | UAddSat => {
                let (x, y) = (self.e(&args[0], w0), self.e(&args[1], w0));
                let r = if kind == USubSat { let d = self.a.sub(x, y); let q = self.a.ult(x, y); let z = self.a.c(0, w0); self.a.ite(q, z, d) } else { let s = self.a.add(x, y); let q = self.a.ult(s, x); let m = self.a.c(mask(w0), w0); self.a.ite(q, m, s) };
                self.norm(r)
            }
            Ucmp | Scmp => {
                let rw = match ci.ret { LTy::Int(w) => w, _ => 8 };
                let (x, y) = (self.e(&args[0], w0), self.e(&args[1], w0));
                let lt = if kind == Ucmp { self.a.ult(x, y) } else { self.a.slt(x, y) };
                let eq = self.a.eq(x, y);
                let (lt, eq) = (self.simp(st, lt), self.simp(st, eq));
                let (m, z, o) = (self.a.c(mask(rw), rw), self.a.c(0, rw), self.a.c(1, rw));
                let t = self.a.ite(eq, z, o);
                let r = self.a.ite(lt, m, t); self.norm(r)
            }
            Expect => args[0].clone(),
            IsConst => V::I(0),
            Objectsize => V::I(u64::MAX),
            Assume => {
                match &args[0] { V::I(0) => return Err(Stop::Bug("assume".into(), "llvm.assume(false) reached (undefined behaviour)".into())), V::E(e) => { let e = *e; if !self.branch(st, e)? { return Err(Stop::Bug("assume".into(), "llvm.assume(false) reached (undefined behaviour)".into())); } } _ => {} }
                V::I(0)
            }
            Trap => return Err(Stop::Bug("abort".into(), "llvm.trap".into())),
            Abs => { let e = self.e(&args[0], w0); let z = self.a.c(0, w0); let n = self.a.sub(z, e); let q = self.a.slt(e, z); let r = self.a.ite(q, n, e); self.norm(r) }
            Fshl | Fshr => { let k = cc!(2) as u32 % w0; let (x, y) = (self.e(&args[0], w0), self.e(&args[1], w0)); let c = self.a.concat(x, y); let r = if kind == Fshl { self.a.extract(c, w0 - k, w0) } else { self.a.extract(c, k, w0) }; self.norm(r) }
            ThreadlocalAddr => args[0].clone(),
            SvSym | SvRange => {
                let w = cc!(0) as u32;
                let (lo, hi) = if kind == SvRange { (cc!(1), cc!(2)) } else { (0, mask(w) as u64) };
                if lo > hi || hi as u128 > mask(w) { return Err(Stop::Kill); }
                let idx = st.nvars; st.nvars += 1;
                let key = match self.varkey.get(&(idx, w, lo, hi)) { Some(k) => *k, None => { let k = self.vars.len() as u32; self.varkey.insert((idx, w, lo, hi), k); let e = self.a.var(k, w, lo as u128, hi as u128); self.vars.push(e); k } };
                let e = self.vars[key as usize];
                st.inputs.push(Input::Sym(e));
                let e = self.a.zext(e, 64); self.norm(e)
            }
            SvChoose => {
                let n = cc!(0);
                if n == 0 { return Err(Stop::Kill); }
                let k = self.pick(st, n)?;
                st.inputs.push(Input::Conc(k)); V::I(k)
            }
            SvAssume => { let e = self.e(&args[0], w0); let e = if w0 > 1 { self.a.extract(e, 0, 1) } else { e }; self.assume(st, e)?; V::I(0) }
            SvAssert => { let e = self.e(&args[0], w0); let e = if w0 > 1 { self.a.extract(e, 0, 1) } else { e }; let (p, n) = (cc!(1), cc!(2)); let m = self.string(st, p, n); self.assert(st, e, &m)?; V::I(0) }
            SvCover => { let k = cc!(0) as u32; st.covers.insert(k); V::I(0) }
            SvLive => V::I(st.live),
            SvReuse => { st.reuse = cc!(0) as u8; V::I(0) }
            SvLog => { let v = args[0].clone(); st.logs.push(v); V::I(0) }
            SvNote => { let (p, n) = (cc!(0), cc!(1)); let m = self.string(st, p, n); st.note.push(m); V::I(0) }
            SvIsSym => V::I(1),
            SvConc => V::I(cc!(0)),
            SvSpawn => {
                // sv_spawn(fn(*mut u8), *mut u8) -> thread id
                let (f, d) = (cc!(0), cc!(1));
                let k = ((f & ((1 << 60) - 1)) >> 4) as Idx;
                if st.threads.len() >= 4 { return Err(Stop::Err("more than 4 threads".into())); }
                let cur = st.cur;
                let id = st.threads.len();
                st.threads[cur].vc[cur] += 1;
                let mut vc = st.threads[cur].vc; vc[id] = 1;
                st.threads.push(Thread { frames: vec![], unwinding: 0, vc, seen: [0; 4], fence: [0; 4], done: false, last_panic: Rc::new(String::new()), yielded: false });
                st.cur = id; self.push_frame(st, k, vec![V::I(d)], None, None)?; st.cur = cur;
                V::I(id as u64)
            }
            SvJoin => {
                // joins every spawned thread
                let cur = st.cur;
                if st.threads.iter().enumerate().any(|(i, t)| i != cur && !t.done) {
                    st.threads[cur].yielded = true;
                    return self.switch_any(st); // the call is executed again when rescheduled
                }
                let vcs: Vec<[u32; 4]> = st.threads.iter().map(|t| t.vc).collect();
                for v in vcs { for i in 0..4 { st.threads[cur].vc[i] = st.threads[cur].vc[i].max(v[i]); } }
                V::I(0)
            }
            SvYield => V::I(0),
            Unknown => return Err(Stop::Err(format!("unmodelled external function {}", self.p.exts[x as usize]))),
        };
        self.fin(st, ci, inv, r)
    }
    // ---------- exploration ----------
    fn inputs_of(&self, st: &State) -> Vec<u64> {
        st.inputs.iter().map(|i| match i { Input::Conc(v) => *v, Input::Sym(e) => match &st.model { Some(m) => { let mut memo = m.memo.borrow_mut(); self.a.eval(*e, &m.vals, &mut memo) as u64 } None => 0 } }).collect()
    }
    fn rand(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }
    fn run_state(&mut self, mut st: State) {
        let p = self.p.clone();
        let max = self.o.max_steps;
        let steps0 = st.steps;
        let stop = loop {
            st.steps += 1;
            if st.steps > max { break Stop::Bug("nontermination".into(), format!("more than {max} instructions on one path")); }
            if st.steps & 0xfff == 0 { if self.sh.stop.load(std::sync::atomic::Ordering::Relaxed) { break Stop::Incomplete("stopped".into()); } if let Some(d) = self.sh.deadline { if Instant::now() > d { break Stop::Incomplete("deadline".into()); } } }
            let t = &st.threads[st.cur];
            let f = t.frames.last().unwrap();
            let x = &p.funcs[f.func as usize].blocks[f.block as usize].insts[f.pc as usize];
            let before = self.work.len();
            match self.exec(&mut st, x) { Ok(()) => {} Err(s) => break s }
            if self.work.len() > before { self.donate(); }
        };
        self.t.steps += st.steps - steps0;
        self.t.max_steps = self.t.max_steps.max(st.steps);
        self.t.max_path = self.t.max_path.max(st.path.len() as u64);
        match stop {
            Stop::Done => {
                self.t.paths += 1;
                for c in &st.covers { *self.covers.entry(*c).or_insert(0) += 1; }
                // a pseudo-random sample of completed paths is replayed natively later
                let want = { let n = self.t.paths; n <= 2 || self.rand() % n < 4 };
                if want && self.o.samples > 0 {
                    if self.ensure_model(&mut st).is_ok() {
                        let inputs = self.inputs_of(&st);
                        let logs: Vec<V> = st.logs.clone();
                        let logs = logs.iter().map(|l| match l { V::I(x) => *x, V::E(e) => self.eval(&st, *e) as u64, _ => 0 }).collect();
                        let mut r = self.sh.result.lock().unwrap();
                        if r.samples.len() < self.o.samples { r.samples.push(Sample { inputs, logs }); }
                        else { drop(r); let k = self.rand() as usize % self.o.samples; self.sh.result.lock().unwrap().samples[k] = Sample { inputs, logs }; }
                    }
                }
            }
            Stop::Kill => self.t.killed += 1,
            Stop::Incomplete(m) => { self.t.incomplete += 1; let mut r = self.sh.result.lock().unwrap(); if m == "deadline" { r.timed_out = true; } r.incomplete_msgs.insert(m); }
            Stop::Err(m) => { let bt = self.backtrace(&st); let mut r = self.sh.result.lock().unwrap(); if r.errs.len() < 5 { r.errs.push(format!("{m}\n    in {}", bt.join("\n    in "))); } self.sh.stop.store(true, std::sync::atomic::Ordering::Relaxed); }
            Stop::Bug(kind, msg) => {
                self.t.paths += 1;
                let stack = self.backtrace(&st);
                if self.ensure_model(&mut st).is_err() { return; }
                for c in st.path.clone() { if self.eval(&st, c) == 0 { self.sh.result.lock().unwrap().errs.push(format!("internal: the model does not satisfy the path condition {}", self.a.show(c))); } }
                let bug = Bug { kind, msg, stack, inputs: self.inputs_of(&st), notes: st.note.clone(), decisions: st.decisions.len(), order: { let mut o = st.order.clone(); if st.threads.len() > 1 { o.push(st.cur as u8); } o } };
                let mut r = self.sh.result.lock().unwrap();
                r.bugs.push(bug);
                if r.bugs.len() >= self.o.max_bugs { self.sh.stop.store(true, std::sync::atomic::Ordering::Relaxed); }
            }
        }
    }
    fn donate(&mut self) {
        use std::sync::atomic::Ordering::Relaxed;
        if self.work.len() < 2 || self.sh.want.load(Relaxed) == 0 { return; }
        let mut q = self.sh.queue.lock().unwrap();
        if q.len() >= self.sh.want.load(Relaxed) { return; }
        let st = self.work.remove(0);
        let mut d = st.decisions;
        if let Some((r, k)) = &st.replay { d.extend_from_slice(&r[*k..]); }
        q.push_back(Arc::new(d));
        drop(q);
        self.sh.cv.notify_one();
    }
    pub fn worker(mut self, entry: Idx) {
        use std::sync::atomic::Ordering::Relaxed;
        loop {
            // get a prefix
            let prefix = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if let Some(p) = q.pop_front() { break Some(p); }
                    if self.sh.stop.load(Relaxed) { break None; }
                    {
                        let mut idle = self.sh.idle.lock().unwrap();
                        *idle += 1; self.sh.want.store(*idle, Relaxed);
                        if *idle == self.sh.nthreads { self.sh.stop.store(true, Relaxed); self.sh.cv.notify_all(); }
                    }
                    if self.sh.stop.load(Relaxed) { break None; }
                    q = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0;
                    { let mut idle = self.sh.idle.lock().unwrap(); if !self.sh.stop.load(Relaxed) { *idle -= 1; self.sh.want.store(*idle, Relaxed); } }
                }
            };
            let prefix = match prefix { Some(p) => p, None => break };
            let mut st = self.initial(entry);
            if !prefix.is_empty() { st.replay = Some((prefix, 0)); }
            self.work.push(st);
            while let Some(s) = self.work.pop() {
                if self.sh.stop.load(Relaxed) { break; }
                if let Some(d) = self.sh.deadline { if Instant::now() > d { self.sh.result.lock().unwrap().timed_out = true; self.t.incomplete += 1; break; } }
                self.run_state(s);
            }
            self.work.clear();
            if self.a.nodes.len() > 3_000_000 {
                // start over with fresh tables to bound memory
                let old = std::mem::replace(&mut self.s, Solver::new());
                self.s.stats = old.stats.clone(); self.s.dump = None;
                self.t.exprs += self.a.nodes.len() as u64;
                self.a = Arena::new(); self.vars.clear(); self.varkey.clear();
            }
        }
        self.t.exprs += self.a.nodes.len() as u64;
        let mut r = self.sh.result.lock().unwrap();
        let t = &mut r.totals;
        let s = &self.t;
        t.paths += s.paths; t.killed += s.killed; t.forks += s.forks; t.steps += s.steps; t.sym_branches += s.sym_branches; t.asserts += s.asserts; t.sym_asserts += s.sym_asserts;
        t.max_path = t.max_path.max(s.max_path); t.max_steps = t.max_steps.max(s.max_steps); t.incomplete += s.incomplete; t.schedules += s.schedules; t.exprs += s.exprs; t.confirmed += s.confirmed;
        let q = &self.s.stats;
        t.solver.queries += q.queries; t.solver.sat += q.sat; t.solver.unsat += q.unsat; t.solver.unknown += q.unknown; t.solver.solver_us += q.solver_us; t.solver.known_hits += q.known_hits; t.solver.entailed += q.entailed; t.solver.lia += q.lia;
        for (k, v) in &self.covers { *r.covers.entry(*k).or_insert(0) += v; }
        for (k, v) in &self.amsg { *r.asserts_by_msg.entry(k.clone()).or_insert(0) += v; }
        for (i, f) in self.funcs.iter().enumerate() { if *f { r.funcs.insert(i as u32); } }
        if let Some((_, d)) = self.s.dump.take() { r.dumps.extend(d); }
    }
    #[allow(dead_code)]
    fn _unused(&mut self, st: &mut State) -> Rs<()> { self.step(st) }
}

#[inline]
fn self_load(o: &Obj, off: usize, n: usize, w: u32) -> Option<V> {
    for i in 0..n { if o.st[off + i] != CONC { return None; } }
    let mut v = 0u128;
    if n <= 8 { let mut x = 0u64; for i in (0..n).rev() { x = (x << 8) | o.data[off + i] as u64; } let x = if w < 64 { x & mask(w) as u64 } else { x }; return Some(V::I(x)); }
    for i in (0..n).rev() { v = (v << 8) | o.data[off + i] as u128; }
    Some(Eng::cw(v & mask(w), w))
}
#[inline]
fn clear_sym(o: &mut Obj, off: usize, n: usize) { if o.sym.is_empty() { return; } o.sym.retain(|t| (t.0 as usize) < off || (t.0 as usize) >= off + n); }
#[inline]
fn put_sym(o: &mut Obj, off: usize, e: E, b: u8) { let k = off as u32; match o.sym.binary_search_by_key(&k, |t| t.0) { Ok(i) => o.sym[i] = (k, e, b), Err(i) => o.sym.insert(i, (k, e, b)) } }

//! Linking of parsed modules into one executable program: symbols resolved, constants evaluated.
use crate::ir::*;
use std::collections::HashMap;
use std::sync::Arc as Rc;

pub const TAG_SHIFT: u32 = 60;
pub const TAG_STACK: u64 = 1;
pub const TAG_HEAP: u64 = 2;
pub const TAG_GLOBAL: u64 = 3;
pub const TAG_FUNC: u64 = 4;
pub const OBJ_SHIFT: u32 = 28;

pub fn global_addr(i: usize) -> u64 { (TAG_GLOBAL << TAG_SHIFT) | ((i as u64) << OBJ_SHIFT) }
pub fn func_addr(i: usize) -> u64 { (TAG_FUNC << TAG_SHIFT) | ((i as u64) << 4) }

#[derive(Clone, Debug)]
pub enum CVal { I(u64), W(u128), Undef, Agg(Vec<(CVal, LTy)>) }

/// lowered types: everything a register can hold
#[derive(Clone, Debug, PartialEq)]
pub enum LTy { Int(u32), Agg(Rc<Vec<(LTy, u64)>>, u64), Void }
impl LTy {
    pub fn bytes(&self) -> u64 { match self { LTy::Int(w) => ((*w as u64) + 7) / 8, LTy::Agg(_, s) => *s, LTy::Void => 0 } }
}

pub type Idx = u32;

#[derive(Clone, Debug)]
pub enum O { R(u32), I(u64), K(Rc<CVal>) }

#[derive(Clone, Debug)]
pub enum Target { Fn(Idx), Ext(Idx), Ind(O) }

#[derive(Clone, Debug)]
pub struct XCall { pub target: Target, pub args: Vec<(LTy, O)>, pub ret: LTy, pub dst: u32 }

#[derive(Clone, Debug)]
pub enum X {
    Alloca { dst: u32, off: u64, size: u64 },
    Load { dst: u32, ty: LTy, ptr: O, align: u64, ord: Ordering },
    Store { ty: LTy, val: O, ptr: O, align: u64, ord: Ordering },
    Gep { dst: u32, base: O, off: i64, idx: Vec<(O, u32, i64)> },
    Bin { dst: u32, op: BinOp, w: u32, a: O, b: O, nuw: bool, nsw: bool },
    Icmp { dst: u32, pred: Pred, w: u32, a: O, b: O },
    Cast { dst: u32, op: CastOp, from: u32, to: u32, a: O },
    Select { dst: u32, cond: O, ty: LTy, a: O, b: O },
    Freeze { dst: u32, ty: LTy, a: O },
    Extract { dst: u32, a: O, path: Vec<usize> },
    Insert { dst: u32, ty: LTy, a: O, b: O, path: Vec<usize> },
    Call(Box<XCall>),
    Invoke(Box<XCall>, u32, u32),
    LandingPad { dst: u32 },
    Resume { a: O },
    Br(u32),
    CondBr(O, u32, u32),
    Switch { w: u32, a: O, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<O>),
    Unreachable,
    Rmw { dst: u32, op: RmwOp, w: u32, ptr: O, val: O, ord: Ordering },
    CmpXchg { dst: u32, w: u32, ptr: O, cmp: O, new: O, ord: Ordering },
    Fence(Ordering),
    Unsupported(String),
}

pub struct XBlock { pub phis: Vec<(u32, Vec<(u32, O)>)>, pub insts: Vec<X> }
pub struct XFunc { pub name: String, pub pretty: String, pub nparams: u32, pub nregs: u32, pub frame: u64, pub blocks: Vec<XBlock>, pub frame_layout: Vec<(u64, u64)> }

#[derive(Clone)]
pub struct GInit { pub size: u64, pub bytes: Vec<u8>, pub init: Vec<bool>, pub constant: bool, pub name: String, pub align: u64 }

pub struct Prog {
    pub funcs: Vec<XFunc>,
    pub exts: Vec<String>,
    pub globals: Vec<GInit>,
    pub by_name: HashMap<String, Idx>,
    pub fake_vtable: u64,
    pub warnings: Vec<String>,
}

struct Linker<'a> {
    m: &'a Module,
    mi: usize,
    gsym: &'a HashMap<String, u64>,
    lsym: &'a [HashMap<String, u64>],
}

fn lty(m: &Module, t: &Ty) -> LTy {
    match m.resolve(t) {
        Ty::Int(w) => LTy::Int(*w),
        Ty::Ptr => LTy::Int(64),
        Ty::Float(w) => LTy::Int(*w),
        Ty::Void | Ty::Other | Ty::Named(_) => LTy::Void,
        Ty::Arr(n, t) | Ty::Vec(n, t) => { let s = m.size_align(t).0; let e = lty(m, t); LTy::Agg(Rc::new((0..*n).map(|i| (e.clone(), i * s)).collect()), s * n) }
        Ty::Struct(fs, p) => { let sz = m.size_align(m.resolve(t)).0; LTy::Agg(Rc::new(fs.iter().enumerate().map(|(i, f)| (lty(m, f), m.field_off(fs, *p, i))).collect()), sz) }
    }
}

impl<'a> Linker<'a> {
    fn sym(&self, n: &str) -> Option<u64> { self.lsym[self.mi].get(n).or_else(|| self.gsym.get(n)).copied() }
    fn addr(&self, c: &CV) -> Result<u64, String> {
        match c {
            CV::Null | CV::Zero => Ok(0),
            CV::Int(v) => Ok(*v as u64),
            CV::Undef => Ok(0),
            CV::Global(n) => self.sym(n).ok_or_else(|| format!("undefined symbol {n}")),
            CV::Gep(b, o) => Ok(self.addr(b)?.wrapping_add(*o as u64)),
            o => Err(format!("address constant {o:?}")),
        }
    }
    fn cval(&self, t: &Ty, c: &CV) -> Result<CVal, String> {
        Ok(match (self.m.resolve(t), c) {
            (_, CV::Undef) => match lty(self.m, t) { LTy::Agg(fs, _) => CVal::Agg(fs.iter().map(|(l, _)| (self.undef(l), l.clone())).collect()), _ => CVal::Undef },
            (Ty::Int(w), CV::Int(v)) => if *w <= 64 { CVal::I(*v as u64) } else { CVal::W(*v) },
            (Ty::Int(w), CV::Zero | CV::Null) => if *w <= 64 { CVal::I(0) } else { CVal::W(0) },
            (Ty::Ptr, c) | (Ty::Int(64), c) => CVal::I(self.addr(c)?),
            (Ty::Float(_), _) => CVal::I(0),
            (Ty::Struct(fs, _), CV::Zero) => CVal::Agg(fs.iter().map(|f| Ok((self.cval(f, &CV::Zero)?, lty(self.m, f)))).collect::<Result<_, String>>()?),
            (Ty::Arr(n, e), CV::Zero) | (Ty::Vec(n, e), CV::Zero) => { let z = self.cval(e, &CV::Zero)?; let l = lty(self.m, e); CVal::Agg((0..*n).map(|_| (z.clone(), l.clone())).collect()) }
            (_, CV::Agg(v)) => CVal::Agg(v.iter().map(|(t, c)| Ok((self.cval(t, c)?, lty(self.m, t)))).collect::<Result<_, String>>()?),
            (_, CV::Bytes(b)) => CVal::Agg(b.iter().map(|x| (CVal::I(*x as u64), LTy::Int(8))).collect()),
            (t, c) => return Err(format!("constant {t:?} {c:?}")),
        })
    }
    fn undef(&self, l: &LTy) -> CVal { match l { LTy::Agg(fs, _) => CVal::Agg(fs.iter().map(|(l, _)| (self.undef(l), l.clone())).collect()), _ => CVal::Undef } }
    fn op(&self, t: &Ty, o: &Op) -> Result<O, String> {
        Ok(match o {
            Op::Reg(r) => O::R(*r),
            Op::Const(c) => match self.cval(t, c)? { CVal::I(v) => O::I(v), k => O::K(Rc::new(k)) },
        })
    }
    fn put(&self, t: &Ty, c: &CV, off: usize, g: &mut GInit) -> Result<(), String> {
        let (sz, _) = self.m.size_align(t);
        match (self.m.resolve(t), c) {
            (_, CV::Undef) => {}
            (_, CV::Zero) => { for i in 0..sz as usize { g.bytes[off + i] = 0; g.init[off + i] = true; } }
            (_, CV::Bytes(b)) => { for (i, x) in b.iter().enumerate() { g.bytes[off + i] = *x; g.init[off + i] = true; } }
            (Ty::Int(w), CV::Int(v)) => { let n = ((*w as usize) + 7) / 8; for i in 0..n { g.bytes[off + i] = (v >> (8 * i)) as u8; g.init[off + i] = true; } }
            (Ty::Struct(fs, p), CV::Agg(v)) => { for (i, (ft, fc)) in v.iter().enumerate() { self.put(ft, fc, off + self.m.field_off(fs, *p, i) as usize, g)?; } }
            (Ty::Arr(_, e), CV::Agg(v)) => { let s = self.m.size_align(e).0 as usize; for (i, (ft, fc)) in v.iter().enumerate() { self.put(ft, fc, off + i * s, g)?; } }
            (Ty::Ptr, c) => { let a = match self.addr(c) { Ok(a) => a, Err(_) => 0xdead_0000_0000_0000 & !(0xf << 60) }; for i in 0..8 { g.bytes[off + i] = (a >> (8 * i)) as u8; g.init[off + i] = true; } }
            (Ty::Float(w), _) => { for i in 0..(*w as usize / 8) { g.init[off + i] = true; } }
            (t, c) => return Err(format!("global init {t:?} {c:?}")),
        }
        Ok(())
    }
}

pub fn link(mods: Vec<Module>) -> Result<Prog, String> {
    let mut warnings = Vec::new();
    let mut gsym: HashMap<String, u64> = HashMap::new();
    let mut lsym: Vec<HashMap<String, u64>> = vec![HashMap::new(); mods.len()];
    let mut nf = 0usize; let mut ng = 0usize;
    let mut forder = Vec::new(); let mut gorder = Vec::new();
    for (mi, m) in mods.iter().enumerate() {
        for (fi, f) in m.funcs.iter().enumerate() {
            let a = func_addr(nf);
            if f.internal { lsym[mi].insert(f.name.clone(), a); }
            else { if gsym.contains_key(&f.name) { continue; } gsym.insert(f.name.clone(), a); }
            forder.push((mi, fi)); nf += 1;
        }
        for (gi, g) in m.globals.iter().enumerate() {
            if g.init.is_none() { continue; }
            let a = global_addr(ng);
            if g.local { lsym[mi].insert(g.name.clone(), a); } else { if gsym.contains_key(&g.name) { continue; } gsym.insert(g.name.clone(), a); }
            gorder.push((mi, gi)); ng += 1;
        }
    }
    // externals get function addresses too, after all defined functions
    let mut exts: Vec<String> = Vec::new();
    let mut extmap: HashMap<String, usize> = HashMap::new();
    fn note(n: &str, gsym: &HashMap<String, u64>, l: &HashMap<String, u64>, exts: &mut Vec<String>, extmap: &mut HashMap<String, usize>) {
        if gsym.contains_key(n) || l.contains_key(n) || extmap.contains_key(n) { return; }
        extmap.insert(n.to_string(), exts.len()); exts.push(n.to_string());
    }
    fn walk(c: &CV, f: &mut dyn FnMut(&str)) { match c { CV::Global(n) => f(n), CV::Gep(b, _) => walk(b, f), CV::Agg(v) => for (_, c) in v { walk(c, f) }, _ => {} } }
    // aliases
    for (mi, m) in mods.iter().enumerate() { for (n, c) in &m.aliases { if let CV::Global(t) = c { if let Some(a) = lsym[mi].get(t).or_else(|| gsym.get(t)).copied() { gsym.insert(n.clone(), a); } } } }
    for (mi, m) in mods.iter().enumerate() {
        for g in &m.globals { if let Some(c) = &g.init { walk(c, &mut |n| note(n, &gsym, &lsym[mi], &mut exts, &mut extmap)); } }
        for f in &m.funcs { for b in &f.blocks { 
            for (_, v) in &b.phis { for (_, o) in v { if let Op::Const(c) = o { walk(c, &mut |n| note(n, &gsym, &lsym[mi], &mut exts, &mut extmap)); } } }
            for i in &b.insts {
            let mut ops: Vec<&Op> = vec![];
            match i {
                Inst::Call { info, .. } | Inst::Invoke { info, .. } => { if let Callee::Direct(n) = &info.callee { note(n, &gsym, &lsym[mi], &mut exts, &mut extmap); } for (_, o) in &info.args { ops.push(o); } }
                Inst::Load { ptr, .. } => ops.push(ptr),
                Inst::Store { val, ptr, .. } => { ops.push(val); ops.push(ptr); }
                Inst::Gep { base, .. } => ops.push(base),
                Inst::Select { a, b, .. } | Inst::Icmp { a, b, .. } | Inst::InsertValue { a, b, .. } | Inst::Bin { a, b, .. } => { ops.push(a); ops.push(b); }
                Inst::Ret { a: Some(a), .. } | Inst::Cast { a, .. } | Inst::Freeze { a, .. } => ops.push(a),
                Inst::CmpXchg { ptr, cmp, new, .. } => { ops.push(ptr); ops.push(cmp); ops.push(new); }
                Inst::Rmw { ptr, val, .. } => { ops.push(ptr); ops.push(val); }
                _ => {}
            }
            for o in ops { if let Op::Const(c) = o { walk(c, &mut |n| note(n, &gsym, &lsym[mi], &mut exts, &mut extmap)); } }
        } } }
    }
    for (i, n) in exts.iter().enumerate() { gsym.insert(n.clone(), func_addr(nf + i)); }
    let mut globals = Vec::new();
    for &(mi, gi) in &gorder {
        let m = &mods[mi]; let g = &m.globals[gi];
        let l = Linker { m, mi, gsym: &gsym, lsym: &lsym };
        let (sz, _) = m.size_align(&g.ty);
        let mut gi = GInit { size: sz, bytes: vec![0; sz as usize], init: vec![false; sz as usize], constant: g.constant, name: g.name.clone(), align: g.align };
        if let Err(e) = l.put(&g.ty, g.init.as_ref().unwrap(), 0, &mut gi) { warnings.push(format!("global {}: {e}", g.name)); }
        globals.push(gi);
    }
    // fake vtable for panic payloads: drop = null, size = 0, align = 1
    let fake_vtable = global_addr(globals.len());
    let mut vt = vec![0u8; 32]; vt[16] = 1;
    globals.push(GInit { size: 32, bytes: vt, init: vec![true; 32], constant: true, name: "<fake vtable>".into(), align: 8 });

    let mut funcs = Vec::new();
    let mut by_name = HashMap::new();
    for (k, &(mi, fi)) in forder.iter().enumerate() {
        let m = &mods[mi]; let f = &m.funcs[fi];
        by_name.insert(f.name.clone(), k as Idx);
        let l = Linker { m, mi, gsym: &gsym, lsym: &lsym };
        let mut frame = 16u64;
        let mut frame_layout = Vec::new();
        let mut blocks = Vec::new();
        for b in &f.blocks {
            let mut insts = Vec::new();
            for i in &b.insts {
                let x = (|| -> Result<X, String> { lower(&l, i, &mut frame, &mut frame_layout, nf) })();
                insts.push(x.unwrap_or_else(|e| X::Unsupported(format!("{e} [{i:?}]"))));
            }
            let mut phis = Vec::new();
            for (d, v) in &b.phis {
                // phi operand types are not kept; constants are ints, pointers or undef
                let mut vv = Vec::new();
                for (lb, o) in v {
                    let oo = match o { Op::Reg(r) => O::R(*r), Op::Const(CV::Int(v)) if *v <= u64::MAX as u128 => O::I(*v as u64), Op::Const(CV::Int(v)) => O::K(Rc::new(CVal::W(*v))), Op::Const(CV::Undef) => O::K(Rc::new(CVal::Undef)), Op::Const(c) => O::I(l.addr(c).unwrap_or(0)) };
                    vv.push((*lb, oo));
                }
                phis.push((*d, vv));
            }
            blocks.push(XBlock { phis, insts });
        }
        funcs.push(XFunc { name: f.name.clone(), pretty: f.pretty.clone(), nparams: f.params.len() as u32, nregs: f.nregs, frame: align_up(frame, 16), blocks, frame_layout });
    }
    Ok(Prog { funcs, exts, globals, by_name, fake_vtable, warnings })
}

fn lower(l: &Linker, i: &Inst, frame: &mut u64, layout: &mut Vec<(u64, u64)>, nf: usize) -> Result<X, String> {
    let m = l.m;
    let int = |w: u32| Ty::Int(w);
    let call = |info: &CallInfo, dst: Option<u32>| -> Result<Box<XCall>, String> {
        let target = match &info.callee {
            Callee::Direct(n) => { let a = l.sym(n).ok_or_else(|| format!("symbol {n}"))?; let k = ((a & ((1 << 60) - 1)) >> 4) as usize; if k < nf { Target::Fn(k as Idx) } else { Target::Ext((k - nf) as Idx) } }
            Callee::Indirect(o) => Target::Ind(l.op(&Ty::Ptr, o)?),
        };
        let mut args = Vec::new();
        for (t, o) in &info.args { args.push((lty(m, t), l.op(t, o)?)); }
        Ok(Box::new(XCall { target, args, ret: lty(m, &info.ret), dst: dst.unwrap_or(u32::MAX) }))
    };
    Ok(match i {
        Inst::Alloca { dst, size, align } => {
            let off = align_up(*frame, (*align).max(1));
            *frame = off + size + 16;
            layout.push((off, *size));
            X::Alloca { dst: *dst, off, size: *size }
        }
        Inst::Load { dst, ty, ptr, align, ord } => X::Load { dst: *dst, ty: lty(m, ty), ptr: l.op(&Ty::Ptr, ptr)?, align: *align, ord: *ord },
        Inst::Store { ty, val, ptr, align, ord } => X::Store { ty: lty(m, ty), val: l.op(ty, val)?, ptr: l.op(&Ty::Ptr, ptr)?, align: *align, ord: *ord },
        Inst::Gep { dst, base, off, idx } => { let mut v = Vec::new(); for (o, w, s) in idx { v.push((l.op(&int(*w), o)?, *w, *s)); } X::Gep { dst: *dst, base: l.op(&Ty::Ptr, base)?, off: *off, idx: v } }
        Inst::Bin { dst, op, w, a, b, nuw, nsw } => X::Bin { dst: *dst, op: *op, w: *w, a: l.op(&int(*w), a)?, b: l.op(&int(*w), b)?, nuw: *nuw, nsw: *nsw },
        Inst::Icmp { dst, pred, w, a, b } => X::Icmp { dst: *dst, pred: *pred, w: *w, a: l.op(&int(*w), a)?, b: l.op(&int(*w), b)? },
        Inst::Cast { dst, op, from, to, a } => X::Cast { dst: *dst, op: *op, from: *from, to: *to, a: l.op(&int(*from), a)? },
        Inst::Select { dst, cond, ty, a, b } => X::Select { dst: *dst, cond: l.op(&int(1), cond)?, ty: lty(m, ty), a: l.op(ty, a)?, b: l.op(ty, b)? },
        Inst::Freeze { dst, ty, a } => X::Freeze { dst: *dst, ty: lty(m, ty), a: l.op(ty, a)? },
        Inst::ExtractValue { dst, a, path } => X::Extract { dst: *dst, a: match a { Op::Reg(r) => O::R(*r), Op::Const(_) => return Err("const extractvalue".into()) }, path: path.clone() },
        Inst::InsertValue { dst, ty, a, b, path } => {
            // type of the inserted value
            let mut t = ty.clone();
            for p in path { t = match m.resolve(&t).clone() { Ty::Struct(fs, _) => fs[*p].clone(), Ty::Arr(_, e) | Ty::Vec(_, e) => *e, _ => return Err("insertvalue".into()) }; }
            X::Insert { dst: *dst, ty: lty(m, ty), a: l.op(ty, a)?, b: l.op(&t, b)?, path: path.clone() }
        }
        Inst::Call { dst, info } => X::Call(call(info, *dst)?),
        Inst::Invoke { dst, info, normal, unwind } => X::Invoke(call(info, *dst)?, *normal, *unwind),
        Inst::LandingPad { dst } => X::LandingPad { dst: *dst },
        Inst::Resume { a } => X::Resume { a: match a { Op::Reg(r) => O::R(*r), _ => O::I(0) } },
        Inst::Br { dest } => X::Br(*dest),
        Inst::CondBr { cond, t, f } => X::CondBr(l.op(&int(1), cond)?, *t, *f),
        Inst::Switch { w, a, default, cases } => X::Switch { w: *w, a: l.op(&int(*w), a)?, default: *default, cases: cases.clone() },
        Inst::Ret { ty, a } => X::Ret(match a { Some(o) => Some(l.op(ty, o)?), None => None }),
        Inst::Unreachable => X::Unreachable,
        Inst::Rmw { dst, op, w, ptr, val, ord } => X::Rmw { dst: *dst, op: *op, w: *w, ptr: l.op(&Ty::Ptr, ptr)?, val: l.op(&int(*w), val)?, ord: *ord },
        Inst::CmpXchg { dst, w, ptr, cmp, new, ord } => X::CmpXchg { dst: *dst, w: *w, ptr: l.op(&Ty::Ptr, ptr)?, cmp: l.op(&int(*w), cmp)?, new: l.op(&int(*w), new)?, ord: *ord },
        Inst::Fence { ord } => X::Fence(*ord),
        Inst::Unsupported(s) => X::Unsupported(s.clone()),
    })
}

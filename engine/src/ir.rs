//! LLVM IR (textual) front end: just what rustc emits, parsed into a compact form.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Float(u32),
    Named(String),
    Other,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

#[derive(Clone, Debug)]
pub enum CV {
    Int(u128),
    Null,
    Undef,
    Zero,
    Global(String),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, CV)>),
    /// base, byte offset
    Gep(Box<CV>, i64),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    Const(CV),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, Same }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ordering { NotAtomic, Relaxed, Acquire, Release, AcqRel, SeqCst }

#[derive(Clone, Debug)]
pub enum Callee { Direct(String), Indirect(Op) }

#[derive(Clone, Debug)]
pub struct CallInfo { pub callee: Callee, pub args: Vec<(Ty, Op)>, pub ret: Ty }

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, size: u64, align: u64 },
    Load { dst: u32, ty: Ty, ptr: Op, align: u64, ord: Ordering },
    Store { ty: Ty, val: Op, ptr: Op, align: u64, ord: Ordering },
    Gep { dst: u32, base: Op, off: i64, idx: Vec<(Op, u32, i64)> },
    Bin { dst: u32, op: BinOp, w: u32, a: Op, b: Op, nuw: bool, nsw: bool },
    Icmp { dst: u32, pred: Pred, w: u32, a: Op, b: Op },
    Cast { dst: u32, op: CastOp, from: u32, to: u32, a: Op },
    Select { dst: u32, cond: Op, ty: Ty, a: Op, b: Op },
    Freeze { dst: u32, ty: Ty, a: Op },
    ExtractValue { dst: u32, a: Op, path: Vec<usize> },
    InsertValue { dst: u32, ty: Ty, a: Op, b: Op, path: Vec<usize> },
    Call { dst: Option<u32>, info: Box<CallInfo> },
    Invoke { dst: Option<u32>, info: Box<CallInfo>, normal: u32, unwind: u32 },
    LandingPad { dst: u32 },
    Resume { a: Op },
    Br { dest: u32 },
    CondBr { cond: Op, t: u32, f: u32 },
    Switch { w: u32, a: Op, default: u32, cases: Vec<(u128, u32)> },
    Ret { ty: Ty, a: Option<Op> },
    Unreachable,
    Rmw { dst: u32, op: RmwOp, w: u32, ptr: Op, val: Op, ord: Ordering },
    CmpXchg { dst: u32, w: u32, ptr: Op, cmp: Op, new: Op, ord: Ordering },
    Fence { ord: Ordering },
    Unsupported(String),
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    /// phi: dst, list of (pred block, op)
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub pretty: String,
    pub params: Vec<Ty>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub internal: bool,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<CV>,
    pub constant: bool,
    pub align: u64,
    pub tls: bool,
    pub local: bool,
}

#[derive(Default)]
pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub aliases: Vec<(String, CV)>,
}

impl Module {
    pub fn size_align(&self, t: &Ty) -> (u64, u64) {
        match t {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let mut p = 1;
                while p < b { p *= 2; }
                let a = p.min(16);
                (align_up(b, a), a)
            }
            Ty::Ptr => (8, 8),
            Ty::Float(w) => ((*w as u64) / 8, (*w as u64) / 8),
            Ty::Arr(n, t) => { let (s, a) = self.size_align(t); (n * s, a) }
            Ty::Vec(n, t) => {
                let bits = match **t { Ty::Int(w) => w as u64, Ty::Ptr => 64, Ty::Float(w) => w as u64, _ => 8 };
                let s = (n * bits + 7) / 8;
                let mut p = 1; while p < s { p *= 2; }
                (p, p)
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0; let mut al = 1;
                for f in fs {
                    let (s, a) = self.size_align(f);
                    if !packed { off = align_up(off, a); al = al.max(a); }
                    off += s;
                }
                (align_up(off, al), al)
            }
            Ty::Named(n) => match self.types.get(n) { Some(t) => self.size_align(t), None => (0, 1) },
        }
    }
    pub fn resolve<'a>(&'a self, t: &'a Ty) -> &'a Ty {
        match t { Ty::Named(n) => match self.types.get(n) { Some(t) => self.resolve(t), None => t }, _ => t }
    }
    pub fn field_off(&self, fs: &[Ty], packed: bool, i: usize) -> u64 {
        let mut off = 0;
        for (k, f) in fs.iter().enumerate() {
            let (s, a) = self.size_align(f);
            if !packed { off = align_up(off, a); }
            if k == i { return off; }
            off += s;
        }
        off
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Local(String),
    Global(String),
    Int(String),
    Word(String),
    Str(Vec<u8>),
    Meta,
    Attr,
    P(char),
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    fn quoted(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
        // i at char after opening quote
        let mut v = Vec::new();
        while i < b.len() && b[i] != b'"' {
            if b[i] == b'\\' && i + 2 < b.len() {
                if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; continue; }
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap_or("00");
                v.push(u8::from_str_radix(h, 16).unwrap_or(0));
                i += 3;
            } else { v.push(b[i]); i += 1; }
        }
        (v, i + 1)
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\r' | b'\n' => i += 1,
            b';' => { // comment to end of line
                while i < b.len() && b[i] != b'\n' { i += 1; }
            }
            b'%' | b'@' => {
                let (name, ni) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let (v, ni) = quoted(b, i + 2);
                    (String::from_utf8_lossy(&v).into_owned(), ni)
                } else {
                    let st = i + 1; let mut j = st;
                    while j < b.len() && isid(b[j]) { j += 1; }
                    (s[st..j].to_string(), j)
                };
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
                i = ni;
            }
            b'"' => { let (v, ni) = quoted(b, i + 1); out.push(Tok::Str(v)); i = ni; }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let (v, ni) = quoted(b, i + 2); out.push(Tok::Str(v)); i = ni; }
            b'!' => { i += 1; while i < b.len() && isid(b[i]) { i += 1; } out.push(Tok::Meta); }
            b'#' => { i += 1; while i < b.len() && isid(b[i]) { i += 1; } out.push(Tok::Attr); }
            b'-' | b'0'..=b'9' => {
                let st = i; i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || b[i] == b'+') { i += 1; }
                out.push(Tok::Int(s[st..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = i;
                while i < b.len() && isid(b[i]) { i += 1; }
                out.push(Tok::Word(s[st..i].to_string()));
            }
            _ => { out.push(Tok::P(c as char)); i += 1; }
        }
    }
    out
}

struct P<'m> {
    t: Vec<Tok>,
    i: usize,
    m: &'m Module,
    regs: &'m mut HashMap<String, u32>,
    labels: &'m mut HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'m> P<'m> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> Option<Tok> { let t = self.t.get(self.i).cloned(); self.i += 1; t }
    fn is_p(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn is_w(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::Word(x)) if x == w) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn exp_p(&mut self, c: char) -> R<()> { if self.eat_p(c) { Ok(()) } else { Err(format!("expected {c} at {:?} in {:?}", self.i, self.t.get(self.i.saturating_sub(3)..(self.i + 5).min(self.t.len())))) } }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while let Some(t) = self.next() {
            match t { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return; } } _ => {} }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => w == "ptr" || w == "void" || w == "double" || w == "float" || w == "half" || w == "x86_fp80" || w == "fp128" || w == "label" || w == "metadata" || w == "token"
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(Tok::Local(_)) => true,
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            Some(Tok::Word(w)) => {
                if w == "ptr" {
                    if self.is_w("addrspace") { self.i += 1; self.skip_parens(); }
                    Ty::Ptr
                } else if w == "void" { Ty::Void }
                else if w == "double" { Ty::Float(64) } else if w == "float" { Ty::Float(32) } else if w == "half" { Ty::Float(16) }
                else if w == "x86_fp80" || w == "fp128" { Ty::Float(128) }
                else if w == "label" || w == "metadata" || w == "token" { Ty::Other }
                else if w.starts_with('i') { Ty::Int(w[1..].parse().map_err(|_| format!("type {w}"))?) }
                else { return Err(format!("type {w}")); }
            }
            Some(Tok::Local(n)) => Ty::Named(n),
            Some(Tok::P('{')) => { let v = self.ty_list('}')?; Ty::Struct(v, false) }
            Some(Tok::P('[')) => {
                let n = self.uint()?; self.next(); /* x */ let t = self.ty()?; self.exp_p(']')?;
                Ty::Arr(n, Box::new(t))
            }
            Some(Tok::P('<')) => {
                if self.eat_p('{') { let v = self.ty_list('}')?; self.exp_p('>')?; Ty::Struct(v, true) }
                else { let n = self.uint()?; self.next(); let t = self.ty()?; self.exp_p('>')?; Ty::Vec(n, Box::new(t)) }
            }
            t => return Err(format!("type tok {t:?}")),
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = Vec::new();
        if self.eat_p(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eat_p(end) { return Ok(v); } self.exp_p(',')?; }
    }
    fn uint(&mut self) -> R<u64> { match self.next() { Some(Tok::Int(s)) => s.parse().map_err(|_| s), t => Err(format!("uint {t:?}")) } }
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
    fn label(&mut self, n: &str) -> u32 { let k = self.labels.len() as u32; *self.labels.entry(n.to_string()).or_insert(k) }
    fn exp_label(&mut self) -> R<u32> {
        if !self.eat_w("label") { return Err("label".into()); }
        match self.next() { Some(Tok::Local(n)) => Ok(self.label(&n)), t => Err(format!("label {t:?}")) }
    }
    fn val(&mut self, ty: &Ty) -> R<Op> {
        if let Some(Tok::Local(n)) = self.peek().cloned() { self.i += 1; return Ok(Op::Reg(self.reg(&n))); }
        Ok(Op::Const(self.cval(ty)?))
    }
    fn tyval(&mut self) -> R<(Ty, Op)> { let t = self.ty()?; let v = self.val(&t)?; Ok((t, v)) }
    fn cval(&mut self, ty: &Ty) -> R<CV> {
        let w = match self.m.resolve(ty) { Ty::Int(w) => *w, _ => 128 };
        Ok(match self.next() {
            Some(Tok::Int(s)) => CV::Int(parse_int(&s, w)?),
            Some(Tok::Global(n)) => CV::Global(n),
            Some(Tok::Str(v)) => CV::Bytes(v),
            Some(Tok::P('{')) => CV::Agg(self.cagg('}')?),
            Some(Tok::P('[')) => CV::Agg(self.cagg(']')?),
            Some(Tok::P('<')) => {
                if self.eat_p('{') { let v = self.cagg('}')?; self.exp_p('>')?; CV::Agg(v) } else { CV::Agg(self.cagg('>')?) }
            }
            Some(Tok::Word(w)) => match w.as_str() {
                "true" => CV::Int(1), "false" => CV::Int(0), "null" | "none" => CV::Null,
                "undef" | "poison" => CV::Undef, "zeroinitializer" => CV::Zero,
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Word(_))) { self.i += 1; if self.is_p('(') { break; } }
                    // "inrange(...)" may precede the operand list
                    if !self.is_p('(') { return Err("gep const".into()); }
                    let save = self.i;
                    self.i += 1;
                    if !self.is_type_start() { self.i = save; self.skip_parens(); self.exp_p('(')?; }
                    let ety = self.ty()?; self.exp_p(',')?;
                    let (_, base) = self.tyval()?;
                    let mut idx = Vec::new();
                    while self.eat_p(',') { self.eat_w("inrange"); idx.push(self.tyval()?); }
                    self.exp_p(')')?;
                    let (off, dynidx) = gep_off(self.m, &ety, &idx)?;
                    if !dynidx.is_empty() { return Err("dyn const gep".into()); }
                    match base { Op::Const(c) => CV::Gep(Box::new(c), off), _ => return Err("gep base".into()) }
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "zext" => {
                    self.exp_p('(')?; let (_, v) = self.tyval()?; self.eat_w("to"); self.ty()?; self.exp_p(')')?;
                    match v { Op::Const(c) => c, _ => return Err("cast".into()) }
                }
                "splat" => { self.exp_p('(')?; let (t, v) = self.tyval()?; self.exp_p(')')?;
                    let n = match self.m.resolve(ty) { Ty::Vec(n, _) | Ty::Arr(n, _) => *n, _ => 1 };
                    match v { Op::Const(c) => CV::Agg((0..n).map(|_| (t.clone(), c.clone())).collect()), _ => return Err("splat".into()) } }
                o => return Err(format!("const {o}")),
            },
            t => return Err(format!("const tok {t:?}")),
        })
    }
    fn cagg(&mut self, end: char) -> R<Vec<(Ty, CV)>> {
        let mut v = Vec::new();
        if self.eat_p(end) { return Ok(v); }
        loop {
            let t = self.ty()?; let c = self.cval(&t)?; v.push((t, c));
            if self.eat_p(end) { return Ok(v); }
            self.exp_p(',')?;
        }
    }
    fn skip_to_type(&mut self) -> R<()> {
        while !self.is_type_start() {
            match self.next() {
                Some(Tok::Word(_)) | Some(Tok::Attr) | Some(Tok::Int(_)) | Some(Tok::Str(_)) | Some(Tok::P('=')) => { if self.is_p('(') { self.skip_parens(); } }
                t => return Err(format!("attrs {t:?}")),
            }
        }
        Ok(())
    }
    fn call(&mut self) -> R<CallInfo> {
        self.skip_to_type()?;
        let ret = self.ty()?;
        if self.is_p('(') { self.skip_parens(); } // function type of a vararg call
        let callee = match self.next() {
            Some(Tok::Global(n)) => Callee::Direct(n),
            Some(Tok::Local(n)) => Callee::Indirect(Op::Reg(self.reg(&n))),
            Some(Tok::Word(w)) if w == "asm" => return Err("asm".into()),
            Some(Tok::Word(w)) if w == "inttoptr" || w == "getelementptr" || w == "null" || w == "undef" || w == "poison" => {
                self.i -= 1; Callee::Indirect(Op::Const(self.cval(&Ty::Ptr)?))
            }
            t => return Err(format!("callee {t:?}")),
        };
        self.exp_p('(')?;
        let mut args = Vec::new();
        if !self.eat_p(')') {
            loop {
                let ty = self.ty()?;
                if ty == Ty::Other { // metadata
                    let mut d = 0;
                    while let Some(t) = self.peek() {
                        match t { Tok::P('(') => d += 1, Tok::P(')') if d == 0 => break, Tok::P(')') => d -= 1, Tok::P(',') if d == 0 => break, _ => {} }
                        self.i += 1;
                    }
                } else {
                    // attributes before the value
                    loop {
                        match self.peek() {
                            Some(Tok::Word(w)) if !is_value_word(w) => { self.i += 1; if self.is_p('(') { self.skip_parens(); } else if w_is_align(&self.t[self.i - 1]) { self.i += 1; } }
                            _ => break,
                        }
                    }
                    let v = self.val(&ty)?;
                    args.push((ty, v));
                }
                if self.eat_p(')') { break; }
                self.exp_p(',')?;
            }
        }
        Ok(CallInfo { callee, args, ret })
    }
    fn align(&mut self) -> u64 {
        let mut a = 1;
        while self.eat_p(',') {
            if self.eat_w("align") { a = self.uint().unwrap_or(1); } else { self.i += 1; }
        }
        a
    }
    fn ordering(&mut self) -> Ordering {
        let mut o = Ordering::NotAtomic;
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    match w.as_str() {
                        "unordered" | "monotonic" => o = Ordering::Relaxed, "acquire" => o = Ordering::Acquire,
                        "release" => o = Ordering::Release, "acq_rel" => o = Ordering::AcqRel, "seq_cst" => o = Ordering::SeqCst,
                        "syncscope" => { self.i += 1; self.skip_parens(); continue; }
                        _ => break,
                    }
                    self.i += 1;
                }
                _ => break,
            }
        }
        o
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(w, "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "splat" | "addrspacecast")
}
fn w_is_align(t: &Tok) -> bool { matches!(t, Tok::Word(w) if w == "align" || w == "alignstack") }

fn parse_int(s: &str, w: u32) -> R<u128> {
    if s.starts_with("0x") || s.contains('.') { return Ok(0); }
    let v = if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().map_err(|e| format!("{e} {s}"))?).wrapping_neg() } else { s.parse::<u128>().map_err(|e| format!("{e} {s}"))? };
    Ok(if w >= 128 { v } else { v & ((1u128 << w) - 1) })
}

fn gep_off(m: &Module, ety: &Ty, idx: &[(Ty, Op)]) -> R<(i64, Vec<(Op, u32, i64)>)> {
    let mut off = 0i64;
    let mut dynidx = Vec::new();
    let mut cur = ety.clone();
    for (k, (ity, iv)) in idx.iter().enumerate() {
        let w = match ity { Ty::Int(w) => *w, _ => return Err("gep idx type".into()) };
        let scale;
        if k == 0 { scale = m.size_align(&cur).0 as i64; }
        else {
            match m.resolve(&cur).clone() {
                Ty::Struct(fs, p) => {
                    let n = match iv { Op::Const(CV::Int(n)) => *n as usize, _ => return Err("gep struct idx".into()) };
                    off += m.field_off(&fs, p, n) as i64;
                    cur = fs[n].clone();
                    continue;
                }
                Ty::Arr(_, t) | Ty::Vec(_, t) => { scale = m.size_align(&t).0 as i64; cur = *t; }
                _ => return Err("gep into scalar".into()),
            }
        }
        match iv {
            Op::Const(CV::Int(n)) => { let v = sext(*n, w) as i64; off += v * scale; }
            Op::Const(CV::Zero) => {}
            o => dynidx.push((o.clone(), w, scale)),
        }
    }
    Ok((off, dynidx))
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}

fn parse_inst(p: &mut P) -> R<(Option<Inst>, Option<(u32, Vec<(u32, Op)>)>)> {
    let mut dst = None;
    if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (p.t.get(0).cloned(), p.t.get(1)) {
        dst = Some(p.reg(&n));
        p.i = 2;
    }
    let w = match p.next() { Some(Tok::Word(w)) => w, t => return Err(format!("inst {t:?}")) };
    let d = dst.unwrap_or(u32::MAX);
    let one = |i: Inst| Ok((Some(i), None));
    match w.as_str() {
        "alloca" => {
            let t = p.ty()?; let mut n = 1; let mut align = p.m.size_align(&t).1;
            while p.eat_p(',') {
                if p.eat_w("align") { align = p.uint()?; } else if p.is_w("addrspace") { p.i += 1; p.skip_parens(); } else { match p.tyval()? { (_, Op::Const(CV::Int(k))) => n = k as u64, _ => return Err("dyn alloca".into()) } }
            }
            one(Inst::Alloca { dst: d, size: p.m.size_align(&t).0 * n, align })
        }
        "load" => {
            let at = p.eat_w("atomic"); p.eat_w("volatile");
            let ty = p.ty()?; p.exp_p(',')?; let (_, ptr) = p.tyval()?;
            let ord = if at { p.ordering() } else { Ordering::NotAtomic };
            let align = p.align();
            one(Inst::Load { dst: d, ty: p.m.resolve(&ty).clone(), ptr, align, ord })
        }
        "store" => {
            let at = p.eat_w("atomic"); p.eat_w("volatile");
            let (ty, val) = p.tyval()?; p.exp_p(',')?; let (_, ptr) = p.tyval()?;
            let ord = if at { p.ordering() } else { Ordering::NotAtomic };
            let align = p.align();
            one(Inst::Store { ty: p.m.resolve(&ty).clone(), val, ptr, align, ord })
        }
        "getelementptr" => {
            while matches!(p.peek(), Some(Tok::Word(w)) if w == "inbounds" || w == "nuw" || w == "nusw" || w == "inrange") { p.i += 1; if p.is_p('(') { p.skip_parens(); } }
            let ety = p.ty()?; p.exp_p(',')?;
            let (_, base) = p.tyval()?;
            let mut idx = Vec::new();
            while p.eat_p(',') { if p.peek() == Some(&Tok::Meta) { break; } idx.push(p.tyval()?); }
            let (off, dynidx) = gep_off(p.m, &ety, &idx)?;
            one(Inst::Gep { dst: d, base, off, idx: dynidx })
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            let (mut nuw, mut nsw) = (false, false);
            loop { if p.eat_w("nuw") { nuw = true; } else if p.eat_w("nsw") { nsw = true; } else if p.eat_w("exact") || p.eat_w("disjoint") {} else { break; } }
            let ty = p.ty()?; let a = p.val(&ty)?; p.exp_p(',')?; let b = p.val(&ty)?;
            let wd = match p.m.resolve(&ty) { Ty::Int(w) => *w, _ => return Err("vector/float bin".into()) };
            let op = match w.as_str() { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor };
            one(Inst::Bin { dst: d, op, w: wd, a, b, nuw, nsw })
        }
        "icmp" => {
            p.eat_w("samesign");
            let pr = match p.next() { Some(Tok::Word(w)) => match w.as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, o => return Err(o.to_string()) }, _ => return Err("pred".into()) };
            let ty = p.ty()?; let a = p.val(&ty)?; p.exp_p(',')?; let b = p.val(&ty)?;
            let wd = match p.m.resolve(&ty) { Ty::Int(w) => *w, Ty::Ptr => 64, _ => return Err("vector icmp".into()) };
            one(Inst::Icmp { dst: d, pred: pr, w: wd, a, b })
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
            while matches!(p.peek(), Some(Tok::Word(w)) if w == "nuw" || w == "nsw" || w == "nneg") { p.i += 1; }
            let (ty, a) = p.tyval()?; p.eat_w("to"); let to = p.ty()?;
            let wd = |t: &Ty| match p.m.resolve(t) { Ty::Int(w) => Ok(*w), Ty::Ptr => Ok(64), _ => Err("cast type".to_string()) };
            let (f, t) = (wd(&ty)?, wd(&to)?);
            let op = match w.as_str() { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, _ => if f == t { CastOp::Same } else if f > t { CastOp::Trunc } else { CastOp::ZExt } };
            one(Inst::Cast { dst: d, op, from: f, to: t, a })
        }
        "select" => {
            let (_, cond) = p.tyval()?; p.exp_p(',')?; let (ty, a) = p.tyval()?; p.exp_p(',')?; let (_, b) = p.tyval()?;
            one(Inst::Select { dst: d, cond, ty: p.m.resolve(&ty).clone(), a, b })
        }
        "freeze" => { let (ty, a) = p.tyval()?; one(Inst::Freeze { dst: d, ty, a }) }
        "extractvalue" => {
            let (_, a) = p.tyval()?; let mut path = Vec::new();
            while p.eat_p(',') { if p.peek() == Some(&Tok::Meta) { break; } path.push(p.uint()? as usize); }
            one(Inst::ExtractValue { dst: d, a, path })
        }
        "insertvalue" => {
            let (ty, a) = p.tyval()?; p.exp_p(',')?; let (_, b) = p.tyval()?; let mut path = Vec::new();
            while p.eat_p(',') { if p.peek() == Some(&Tok::Meta) { break; } path.push(p.uint()? as usize); }
            one(Inst::InsertValue { dst: d, ty: p.m.resolve(&ty).clone(), a, b, path })
        }
        "tail" | "musttail" | "notail" | "call" => {
            if w != "call" { p.eat_w("call"); }
            let info = p.call()?;
            one(Inst::Call { dst, info: Box::new(info) })
        }
        "invoke" => {
            let info = p.call()?;
            while !p.is_w("to") { if p.next().is_none() { return Err("invoke".into()); } }
            p.eat_w("to"); let normal = p.exp_label()?;
            while !p.is_w("unwind") { if p.next().is_none() { return Err("invoke".into()); } }
            p.eat_w("unwind"); let unwind = p.exp_label()?;
            one(Inst::Invoke { dst, info: Box::new(info), normal, unwind })
        }
        "landingpad" => one(Inst::LandingPad { dst: d }),
        "resume" => { let (_, a) = p.tyval()?; one(Inst::Resume { a }) }
        "br" => {
            if p.is_w("label") { let dest = p.exp_label()?; one(Inst::Br { dest }) }
            else { let (_, cond) = p.tyval()?; p.exp_p(',')?; let t = p.exp_label()?; p.exp_p(',')?; let f = p.exp_label()?; one(Inst::CondBr { cond, t, f }) }
        }
        "switch" => {
            let (ty, a) = p.tyval()?; p.exp_p(',')?; let default = p.exp_label()?; p.exp_p('[')?;
            let wd = match p.m.resolve(&ty) { Ty::Int(w) => *w, _ => return Err("switch".into()) };
            let mut cases = Vec::new();
            while !p.eat_p(']') {
                let (_, v) = p.tyval()?; p.exp_p(',')?; let l = p.exp_label()?;
                match v { Op::Const(CV::Int(n)) => cases.push((n, l)), _ => return Err("case".into()) }
            }
            one(Inst::Switch { w: wd, a, default, cases })
        }
        "ret" => {
            let ty = p.ty()?;
            if ty == Ty::Void { one(Inst::Ret { ty, a: None }) } else { let v = p.val(&ty)?; one(Inst::Ret { ty, a: Some(v) }) }
        }
        "unreachable" => one(Inst::Unreachable),
        "phi" => {
            let ty = p.ty()?; let mut v = Vec::new();
            loop {
                p.exp_p('[')?; let o = p.val(&ty)?; p.exp_p(',')?;
                let l = match p.next() { Some(Tok::Local(n)) => p.label(&n), t => return Err(format!("phi {t:?}")) };
                p.exp_p(']')?; v.push((l, o));
                if !p.eat_p(',') { break; }
                if p.peek() == Some(&Tok::Meta) { break; }
            }
            Ok((None, Some((d, v))))
        }
        "atomicrmw" => {
            p.eat_w("volatile");
            let op = match p.next() { Some(Tok::Word(w)) => match w.as_str() { "xchg" => RmwOp::Xchg, "add" => RmwOp::Add, "sub" => RmwOp::Sub, "and" => RmwOp::And, "or" => RmwOp::Or, "xor" => RmwOp::Xor, "nand" => RmwOp::Nand, "max" => RmwOp::Max, "min" => RmwOp::Min, "umax" => RmwOp::UMax, "umin" => RmwOp::UMin, o => return Err(o.into()) }, _ => return Err("rmw".into()) };
            let (_, ptr) = p.tyval()?; p.exp_p(',')?; let (ty, val) = p.tyval()?; let ord = p.ordering();
            let wd = match ty { Ty::Int(w) => w, Ty::Ptr => 64, _ => return Err("rmw ty".into()) };
            one(Inst::Rmw { dst: d, op, w: wd, ptr, val, ord })
        }
        "cmpxchg" => {
            p.eat_w("weak"); p.eat_w("volatile");
            let (_, ptr) = p.tyval()?; p.exp_p(',')?; let (ty, cmp) = p.tyval()?; p.exp_p(',')?; let (_, new) = p.tyval()?; let ord = p.ordering();
            let wd = match ty { Ty::Int(w) => w, Ty::Ptr => 64, _ => return Err("cmpxchg ty".into()) };
            one(Inst::CmpXchg { dst: d, w: wd, ptr, cmp, new, ord })
        }
        "fence" => { let ord = p.ordering(); one(Inst::Fence { ord }) }
        o => Err(format!("unknown instruction {o}")),
    }
}

pub fn parse_module(text: &str) -> Result<Module, String> {
    let mut m = Module::default();
    let lines: Vec<&str> = text.lines().collect();
    // pass 1: named types
    let mut dr = HashMap::new();
    let mut dl = HashMap::new();
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let t = lex(l);
            let name = match &t[0] { Tok::Local(n) => n.clone(), _ => continue };
            let empty = Module::default();
            let mut p = P { t, i: 3, m: &empty, regs: &mut dr, labels: &mut dl };
            if p.is_w("opaque") { continue; }
            let ty = p.ty().map_err(|e| format!("type decl {l}: {e}"))?;
            m.types.insert(name, ty);
        }
    }
    // pass 2: globals
    let mut globals = Vec::new();
    let mut aliases = Vec::new();
    for l in &lines {
        if !l.starts_with('@') { continue; }
        let t = lex(l);
        let name = match &t[0] { Tok::Global(n) => n.clone(), _ => continue };
        let mut p = P { t, i: 2, m: &m, regs: &mut dr, labels: &mut dl };
        let mut constant = false; let mut tls = false; let mut local = false; let mut external = false; let mut alias = false;
        loop {
            match p.peek() {
                Some(Tok::Word(w)) => {
                    match w.as_str() {
                        "constant" => { constant = true; p.i += 1; break; }
                        "global" => { p.i += 1; break; }
                        "alias" => { alias = true; p.i += 1; break; }
                        "thread_local" => { tls = true; p.i += 1; if p.is_p('(') { p.skip_parens(); } }
                        "private" | "internal" => { local = true; p.i += 1; }
                        "external" | "extern_weak" => { external = true; p.i += 1; }
                        _ => { p.i += 1; if p.is_p('(') { p.skip_parens(); } }
                    }
                }
                _ => break,
            }
        }
        if alias {
            let _ = p.ty().map_err(|e| format!("alias {name}: {e}"))?;
            if p.eat_p('(') { p.i -= 1; p.skip_parens(); }
            p.eat_p(',');
            p.eat_w("ptr");
            let c = p.cval(&Ty::Ptr).map_err(|e| format!("alias {name}: {e}"))?;
            aliases.push((name, c));
            continue;
        }
        let ty = p.ty().map_err(|e| format!("global {name}: {e}"))?;
        let init = if external { None } else { Some(p.cval(&ty).unwrap_or_else(|e| CV::Unsupported(e))) };
        let mut align = m.size_align(&ty).1;
        while p.eat_p(',') { if p.eat_w("align") { align = p.uint().unwrap_or(1); } else { p.i += 1; } }
        globals.push(Global { name, ty, init, constant, align, tls, local });
    }
    // pass 3: functions
    let mut funcs = Vec::new();
    let mut k = 0;
    while k < lines.len() {
        let l = lines[k];
        if !l.starts_with("define ") { k += 1; continue; }
        let mut pretty = String::new();
        { let mut q = k; while q > 0 && lines[q - 1].starts_with(';') { q -= 1; if !lines[q].starts_with("; Function Attrs") { pretty = lines[q][1..].trim().to_string(); } } }
        let mut regs = HashMap::new();
        let mut labels = HashMap::new();
        let mut hdr = l.to_string();
        while !hdr.trim_end().ends_with('{') { k += 1; hdr.push(' '); hdr.push_str(lines[k]); }
        let (fname, params, ret, internal);
        {
            let t = lex(&hdr);
            let mut p = P { t, i: 1, m: &m, regs: &mut regs, labels: &mut labels };
            internal = p.is_w("internal") || p.is_w("private");
            p.skip_to_type().map_err(|e| format!("{e} in {hdr}"))?;
            ret = p.ty()?;
            fname = match p.next() { Some(Tok::Global(n)) => n, t => return Err(format!("fn name {t:?} {hdr}")) };
            p.exp_p('(')?;
            let mut ps = Vec::new();
            let mut unnamed = 0u32;
            if !p.eat_p(')') {
                loop {
                    let t = p.ty().map_err(|e| format!("{e} param in {hdr}"))?;
                    let mut named = false;
                    let mut d = 0;
                    loop {
                        match p.peek() {
                            None => break,
                            Some(Tok::P('(')) => { d += 1; p.i += 1; }
                            Some(Tok::P(')')) if d > 0 => { d -= 1; p.i += 1; }
                            Some(Tok::P(')')) | Some(Tok::P(',')) if d == 0 => break,
                            Some(Tok::Local(n)) if d == 0 => { let n = n.clone(); p.reg(&n); named = true; p.i += 1; }
                            _ => p.i += 1,
                        }
                    }
                    if !named { p.reg(&format!("{unnamed}")); unnamed += 1; }
                    ps.push(t);
                    if p.eat_p(')') { break; }
                    p.exp_p(',')?;
                }
            }
            params = ps;
        }
        k += 1;
        let mut blocks: Vec<Block> = Vec::new();
        // the entry block may be unlabeled; labels get ids in order of first mention, so map label id -> block via vector
        let mut cur: Option<u32> = None;
        let mut bodies: HashMap<u32, Block> = HashMap::new();
        while k < lines.len() && lines[k] != "}" {
            let line = lines[k];
            let tr = line.trim();
            if tr.is_empty() || tr.starts_with(';') { k += 1; continue; }
            if !line.starts_with(' ') && !line.starts_with('\t') {
                // label
                let name = if let Some(r) = line.strip_prefix('"') { r[..r.find('"').unwrap_or(0)].to_string() } else { line[..line.find(':').ok_or_else(|| format!("label? {line}"))?].to_string() };
                let n = labels.len() as u32;
                let id = *labels.entry(name).or_insert(n);
                cur = Some(id);
                bodies.entry(id).or_default();
                k += 1;
                continue;
            }
            if cur.is_none() { let n = labels.len() as u32; let id = *labels.entry("<entry>".into()).or_insert(n); cur = Some(id); bodies.entry(id).or_default(); }
            let mut full = line.to_string();
            let is_switch = tr.starts_with("switch ");
            if is_switch { while !full.contains(']') { k += 1; full.push('\n'); full.push_str(lines[k]); } }
            if tr.contains("invoke ") && !full.contains(" unwind label") { k += 1; full.push('\n'); full.push_str(lines[k]); }
            let toks = lex(&full);
            let is_lp = toks.iter().any(|t| matches!(t, Tok::Word(w) if w == "landingpad"));
            if is_lp { while k + 1 < lines.len() { let n = lines[k + 1].trim(); if n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ") { k += 1; } else { break; } } }
            let mut p = P { t: toks, i: 0, m: &m, regs: &mut regs, labels: &mut labels };
            let b = cur.unwrap();
            if matches!(p.t.get(0), Some(Tok::P('#'))) { k += 1; continue; } // debug records
            if matches!(p.t.get(0), Some(Tok::Attr)) { k += 1; continue; }
            match parse_inst(&mut p) {
                Ok((Some(i), _)) => bodies.get_mut(&b).unwrap().insts.push(i),
                Ok((None, Some(ph))) => bodies.get_mut(&b).unwrap().phis.push(ph),
                Ok(_) => {}
                Err(e) => bodies.get_mut(&b).unwrap().insts.push(Inst::Unsupported(format!("{e}: {}", full.trim()))),
            }
            k += 1;
        }
        for id in 0..labels.len() as u32 { blocks.push(bodies.remove(&id).unwrap_or_default()); }
        // entry must be block 0
        // find entry id: first block in textual order
        funcs.push(Func { name: fname, pretty, params, ret, nregs: regs.len() as u32, blocks, internal });
        k += 1;
    }
    m.globals = globals;
    m.aliases = aliases;
    m.funcs = funcs;
    Ok(m)
}

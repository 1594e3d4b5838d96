//! Slices used as payload and the plain-list oracle.
use crate::sv::*;
use sherman::{param::*, Cursor, PathComponent, RleTree, Slice, SliceEntry};

pub type Ix = u16;

/// Where a piece of content came from: `id`s values `off..off+len`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Seg { pub id: u8, pub off: Ix, pub len: Ix }

pub const MAXSEG: usize = 8;

/// What a run joins with: each end has a colour, and two runs join iff the ends that meet have the same colour and are not
/// colour 0. A split gives both new ends colour `s`. So a join depends only on what meets, never on the order in which
/// neighbours are offered (the law `Slice::try_join` asks for).
#[derive(Clone, Copy, Debug)]
pub struct Class { pub l: u8, pub r: u8, pub s: u8 }
impl Class {
    pub const NONE: Class = Class { l: 0, r: 0, s: 0 };
    pub fn any() -> Class { Class { l: range(8, 0, 2) as u8, r: range(8, 0, 2) as u8, s: range(8, 0, 1) as u8 } }
    fn split(&mut self) -> Class { let mut o = *self; self.r = self.s; o.l = self.s; o }
    pub fn joins(self, right: Class) -> bool { (self.r == right.l) & (self.r != 0) }
    fn join(self, right: Class) -> Class { Class { l: self.l, r: right.r, s: right.s } }
}

/// Payload that knows its contents. The boxed id makes a double drop, a leak or a use after a move visible as a memory
/// error. With `JOIN`, tokens join as their classes say.
pub struct Tok<const JOIN: bool> { pub id: Box<u8>, pub class: Class, pub segs: [Seg; MAXSEG], pub n: u8 }

impl<const JOIN: bool> Tok<JOIN> {
    pub fn new(id: u8, class: Class, len: Ix) -> Self { let mut segs = [Seg { id: 0, off: 0, len: 0 }; MAXSEG]; segs[0] = Seg { id, off: 0, len }; Tok { id: Box::new(id), class, segs, n: 1 } }
    pub fn len(&self) -> Ix { let mut t = 0; let mut i = 0; while i < self.n as usize { t += self.segs[i].len; i += 1; } t }
}
impl<const JOIN: bool> Clone for Tok<JOIN> { fn clone(&self) -> Self { Tok { id: self.id.clone(), class: self.class, segs: self.segs, n: self.n } } }

/// split `a` at `at` (0 < at < length), the right part goes to the result
pub fn split_segs(a: &mut [Seg; MAXSEG], n: &mut u8, at: Ix) -> ([Seg; MAXSEG], u8) {
    let mut r = [Seg { id: 0, off: 0, len: 0 }; MAXSEG]; let mut rn = 0u8;
    let mut pos: Ix = 0; let mut i = 0usize; let mut keep = 0u8;
    while i < *n as usize {
        let s = a[i];
        if at <= pos { r[rn as usize] = s; rn += 1; }
        else if pos + s.len <= at { keep += 1; }
        else { let k = at - pos; a[i].len = k; keep += 1; r[rn as usize] = Seg { id: s.id, off: s.off + k, len: s.len - k }; rn += 1; }
        pos += s.len; i += 1;
    }
    *n = keep;
    (r, rn)
}

impl<const JOIN: bool> Slice<Ix> for Tok<JOIN> {
    const MAY_JOIN: bool = JOIN;
    fn split_at(&mut self, at: Ix) -> Self {
        check(at > 0, "split_at index is positive");
        check(at < self.len(), "split_at index is less than the slice's length");
        let (segs, n) = split_segs(&mut self.segs, &mut self.n, at);
        Tok { id: Box::new(segs[0].id), class: self.class.split(), segs, n }
    }
    fn try_join(mut self, other: Self) -> Result<Self, (Self, Self)> {
        check(JOIN, "try_join is never called when MAY_JOIN is false");
        if !self.class.joins(other.class) { return Err((self, other)); }
        self.class = self.class.join(other.class);
        let mut i = 0;
        while i < other.n as usize { self.segs[self.n as usize] = other.segs[i]; self.n += 1; i += 1; }
        Ok(self)
    }
}

/// one run of the oracle
#[derive(Clone, Copy, Debug)]
pub struct Run { pub size: Ix, pub class: Class, pub segs: [Seg; MAXSEG], pub n: u8 }

impl Run {
    pub fn new(id: u8, class: Class, size: Ix) -> Self { let mut segs = [Seg { id: 0, off: 0, len: 0 }; MAXSEG]; segs[0] = Seg { id, off: 0, len: size }; Run { size, class, segs, n: 1 } }
    pub fn matches<const J: bool>(&self, t: &Tok<J>) {
        check(self.n == t.n && *t.id == t.segs[0].id, "slice identity");
        if J { check(self.class.l == t.class.l, "join class"); check(self.class.r == t.class.r, "join class"); }
        let mut i = 0;
        while i < self.n as usize { check(self.segs[i].id == t.segs[i].id, "slice contents"); check(self.segs[i].off == t.segs[i].off, "slice content offset"); check(self.segs[i].len == t.segs[i].len, "slice content length"); i += 1; }
    }
    fn join(&mut self, o: &Run) { self.class = self.class.join(o.class); let mut i = 0; while i < o.n as usize { self.segs[self.n as usize] = o.segs[i]; self.n += 1; i += 1; } self.size += o.size; }
}

pub const CAP: usize = 84;
/// the plain list of runs
#[derive(Clone)]
pub struct List { pub runs: [Run; CAP], pub n: usize }

/// A structurally chosen position in a list of runs: before run `k`, or `d` deep inside run `k`.
#[derive(Clone, Copy)]
pub enum At { Gap(usize), In(usize, Ix) }

impl List {
    pub fn new() -> Self { List { runs: [Run { size: 0, class: Class::NONE, segs: [Seg { id: 0, off: 0, len: 0 }; MAXSEG], n: 0 }; CAP], n: 0 } }
    pub fn start(&self, k: usize) -> Ix { let mut s: Ix = 0; let mut i = 0; while i < k { s += self.runs[i].size; i += 1; } s }
    pub fn total(&self) -> Ix { self.start(self.n) }
    pub fn pos(&self, at: At) -> Ix { match at { At::Gap(k) => self.start(k), At::In(k, d) => self.start(k) + d } }
    /// every position in 0..=total (`end`) or 0..total (`!end`), symbolically inside each run
    pub fn any_at(&self, end: bool) -> At {
        let g = self.n + end as usize;
        let c = choose(g + self.n);
        if c < g { At::Gap(c) } else { let k = c - g; let d = range(16, 1, 0xfff0) as u16; assume(d < self.runs[k].size); At::In(k, d) }
    }
    /// the run containing the position
    pub fn run_at(at: At) -> usize { match at { At::Gap(k) | At::In(k, _) => k } }
    fn put(&mut self, k: usize, r: Run) { let mut i = self.n; while i > k { self.runs[i] = self.runs[i - 1]; i -= 1; } self.runs[k] = r; self.n += 1; }
    /// Insertion without joins. Returns the index of the inserted run.
    pub fn insert(&mut self, at: At, r: Run) -> usize {
        match at {
            At::Gap(k) => { self.put(k, r); k }
            At::In(k, d) => {
                let mut right = self.runs[k];
                let (segs, n) = split_segs(&mut self.runs[k].segs, &mut self.runs[k].n, d);
                right.segs = segs; right.n = n; right.size = self.runs[k].size - d; right.class = self.runs[k].class.split();
                self.runs[k].size = d;
                self.put(k + 1, right);
                self.put(k + 1, r);
                k + 1
            }
        }
    }
    /// would an insertion at a gap between two runs join with both of them?
    pub fn joins_both(&self, at: At, c: Class) -> bool { match at { At::Gap(k) => k > 0 && k < self.n && (self.runs[k - 1].class.joins(c) & c.joins(self.runs[k].class)), _ => false } }
    /// Insertion where runs join as their classes say. Returns the index of the run that holds the inserted contents.
    pub fn insert_join(&mut self, at: At, r: Run) -> usize { self.insert_track(at, r, &mut []) }
    /// The same, for a list some of whose runs are tracked: a split leaves the left part tracked, a join tracks the joined run.
    pub fn insert_track(&mut self, at: At, r: Run, tags: &mut [usize]) -> usize {
        for t in tags.iter_mut() { match at { At::Gap(k) => if *t >= k { *t += 1 }, At::In(k, _) => if *t > k { *t += 2 } } }
        let mut k = self.insert(at, r);
        if k > 0 && self.runs[k - 1].class.joins(self.runs[k].class) { let x = self.runs[k]; self.runs[k - 1].join(&x); self.del(k); k -= 1; for t in tags.iter_mut() { if *t > k { *t -= 1 } } }
        if k + 1 < self.n && self.runs[k].class.joins(self.runs[k + 1].class) { let x = self.runs[k + 1]; self.runs[k].join(&x); self.del(k + 1); for t in tags.iter_mut() { if *t > k { *t -= 1 } } }
        k
    }
    fn del(&mut self, k: usize) { let mut i = k; while i + 1 < self.n { self.runs[i] = self.runs[i + 1]; i += 1; } self.n -= 1; }
}

/// a symbolic positive size
pub fn size_to(max: Ix) -> Ix { range(16, 1, max as u64) as u16 }
pub fn size() -> Ix { range(16, 1, 0x3ff) as u16 }

pub type Tree<P, const M: usize> = RleTree<Ix, Tok<false>, P, M>;

/// the tree denotes exactly the list
pub fn same<P, const M: usize, const J: bool>(t: &RleTree<Ix, Tok<J>, P, M>, l: &List) where P: RleTreeConfig<Ix, Tok<J>, M> {
    check(t.number_of_slices() == l.n, "number_of_slices is the number of runs");
    check(t.size() == l.total(), "size() is the sum of the run sizes");
    let mut k = 0; let mut pos: Ix = 0;
    for e in t.iter(..) {
        check(k < l.n, "no more runs than the list has");
        let r = e.range();
        check(r.start == pos, "run start");
        pos += l.runs[k].size;
        check(r.end == pos, "run end");
        check(e.size() == l.runs[k].size, "run size");
        l.runs[k].matches(e.slice());
        log(r.start as u64);
        k += 1;
    }
    check(k == l.n, "no fewer runs than the list has");
}
/// the tree denotes the list, read from its end
pub fn same_back<P, const M: usize, const J: bool>(t: &RleTree<Ix, Tok<J>, P, M>, l: &List) where P: RleTreeConfig<Ix, Tok<J>, M> {
    let mut k = l.n; let mut pos = l.total();
    for e in t.iter(..).rev() {
        check(k > 0, "no more runs than the list has (backwards)");
        k -= 1;
        let r = e.range();
        check(r.end == pos, "run end (backwards)");
        pos -= l.runs[k].size;
        check(r.start == pos, "run start (backwards)");
        check(e.size() == l.runs[k].size, "run size (backwards)");
        l.runs[k].matches(e.slice());
    }
    check(k == 0, "no fewer runs than the list has (backwards)");
}
/// `get` at an arbitrary index
pub fn get_any<P, const M: usize, const J: bool>(t: &RleTree<Ix, Tok<J>, P, M>, l: &List) where P: RleTreeConfig<Ix, Tok<J>, M> {
    if l.n == 0 { return; }
    let at = l.any_at(false);
    let k = List::run_at(at);
    let e = t.get(l.pos(at));
    let s = l.start(k);
    let r = e.range();
    check(r.start == s, "get: start of the run covering the index");
    check(r.end == s + l.runs[k].size, "get: end of the run covering the index");
    check(e.size() == l.runs[k].size, "get: size of the run covering the index");
    l.runs[k].matches(e.slice());
    log(r.end as u64);
}
/// an insertion of arbitrary size at an arbitrary position
pub fn ins<P, const M: usize>(t: &mut Tree<P, M>, l: &mut List, id: u8) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let at = l.any_at(true);
    ins_at(t, l, id, at);
}
pub fn ins_at<P, const M: usize>(t: &mut Tree<P, M>, l: &mut List, id: u8, at: At) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let s = if l.n < 50 { size() } else { size_to(0x1f) };
    t.insert(l.pos(at), Tok::new(id, Class::NONE, s), s);
    l.insert(at, Run::new(id, Class::NONE, s));
}
/// A tree of `n` runs of arbitrary sizes: 0 appends, 1 prepends, 2 inserts in the middle.
pub fn grow<P, const M: usize>(n: usize, pattern: usize) -> (Tree<P, M>, List) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let mut l = List::new();
    let mut t: Tree<P, M> = RleTree::new_empty();
    let mut i = 0;
    while i < n { let g = match pattern { 0 => l.n, 1 => 0, _ => l.n / 2 }; ins_at(&mut t, &mut l, i as u8, At::Gap(g)); i += 1; }
    (t, l)
}

/// A cursor that records the whole path.
#[derive(Clone, Copy)]
pub struct Rec { c: [Option<PathComponent>; RECCAP], n: usize }
pub const RECCAP: usize = 8;
impl Cursor for Rec {
    fn new_empty() -> Self { Rec { c: [None; RECCAP], n: 0 } }
    fn prepend_to_path(&mut self, p: PathComponent) { check(self.n < RECCAP, "path length"); self.c[self.n] = Some(p); self.n += 1; }
    type PathIter = RecIter;
    fn into_path(self) -> RecIter { RecIter(self) }
}
pub struct RecIter(Rec);
impl Iterator for RecIter { type Item = PathComponent; fn next(&mut self) -> Option<PathComponent> { if self.0.n == 0 { None } else { self.0.n -= 1; self.0.c[self.0.n] } } }
impl Rec {
    pub fn len(&self) -> usize { self.n }
    /// the component at depth `d`, counted from the root
    pub fn at(&self, d: usize) -> PathComponent { match self.c[self.n - 1 - d] { Some(p) => p, None => unreachable!() } }
    pub fn same(&self, o: &Rec) -> bool { self.n == o.n && self.same_to(o, self.n) }
    /// do the first `d` components agree?
    pub fn same_to(&self, o: &Rec, d: usize) -> bool { let mut i = 0; while i < d { if self.at(i) != o.at(i) { return false; } i += 1; } true }
}
/// The component for child `i`. `PathComponent`s are only made by trees; this makes the one a tree of large enough `M`
/// makes, as far as its representation is a plain byte.
pub fn component(i: u8) -> PathComponent {
    const { assert!(std::mem::size_of::<PathComponent>() == 1) }
    unsafe { std::mem::transmute_copy(&i) }
}
/// A hint that has nothing to do with the tree: up to `max` arbitrary components.
pub fn any_hint(max: usize) -> Rec { let mut r = Rec::new_empty(); for _ in 0..choose(max + 1) { r.prepend_to_path(component(range(8, 0, 254) as u8)); } r }

/// How to get at `SliceEntry::cursor`, which copy-on-write trees do not have.
pub trait EntryCursor<S, const M: usize>: RleTreeConfig<Ix, S, M> + Sized { fn cursor_of(e: &SliceEntry<'_, Ix, S, Self, M>) -> Option<Rec>; }
impl<S, const M: usize> EntryCursor<S, M> for NoFeatures { fn cursor_of(e: &SliceEntry<'_, Ix, S, Self, M>) -> Option<Rec> { Some(e.cursor()) } }
impl<S, const M: usize> EntryCursor<S, M> for AllowSliceRefs { fn cursor_of(e: &SliceEntry<'_, Ix, S, Self, M>) -> Option<Rec> { Some(e.cursor()) } }
impl<S: Clone, const M: usize> EntryCursor<S, M> for AllowCow { fn cursor_of(_: &SliceEntry<'_, Ix, S, Self, M>) -> Option<Rec> { None } }

/// The paths of all runs, in order, must be those of an in-order walk of a B-tree: every node has `M..=2M` keys (the root
/// at least one) and all leaves are equally deep. Returns the height.
pub fn well_formed(paths: &[Rec; CAP], n: usize, m: usize) -> usize {
    if n == 0 { return 0; }
    let mut i = 0;
    let h = node(paths, n, &mut i, 0, m);
    check(i == n, "every run is in the tree the paths describe");
    h
}
fn node(paths: &[Rec; CAP], n: usize, i: &mut usize, d: usize, m: usize) -> usize {
    let first = *i;
    let mut keys = 0;
    let mut height = 0;
    if paths[first].len() == d {
        while *i < n && paths[*i].len() == d && paths[*i].same_to(&paths[first], d) { keys += 1; *i += 1; }
    } else {
        let mut last: Option<PathComponent> = None;
        loop {
            check(*i < n && paths[*i].len() > d && paths[*i].same_to(&paths[first], d), "a key is followed by a child");
            if *i >= n || paths[*i].len() <= d { return 0; }
            let c = paths[*i].at(d);
            match last { None => {}, Some(l) => check(l < c, "children are numbered in order") }
            check(c == component(keys as u8), "the path component is the index of the child");
            last = Some(c);
            let h = node(paths, n, i, d + 1, m);
            check(keys == 0 || h == height, "all leaves are at the same depth");
            height = h;
            if *i < n && paths[*i].len() == d && paths[*i].same_to(&paths[first], d) { keys += 1; *i += 1; } else { break; }
        }
    }
    check(keys <= 2 * m, "a node has at most 2M keys");
    check(keys >= if d == 0 { 1 } else { m }, "a node has at least M keys");
    height + 1
}

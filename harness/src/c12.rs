//! C12: borrow discipline between references and the tree.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::{Borrow, Cursor, RleTree, SliceRef};

type T<const M: usize> = RleTree<Ix, Tok<false>, AllowSliceRefs, M>;
type R<const M: usize> = SliceRef<Ix, Tok<false>, M>;
enum B { Slice(Borrow<'static, Tok<false>>), Id(Borrow<'static, u8>) }

const NR: usize = 2;
const NB: usize = 2;
struct World<const M: usize> {
    tree: Option<T<M>>,
    list: List,
    refs: [Option<Box<R<M>>>; NR],
    tags: [usize; NR],
    borrows: [Option<B>; NB],
    /// the reference a borrow was taken from, and the id and size of its slice then
    from: [(usize, u8, Ix); NB],
}
impl<const M: usize> World<M> {
    fn borrowed(&self) -> bool { self.borrows.iter().any(|b| b.is_some()) }
    fn in_use(&self, r: usize) -> bool { (0..NB).any(|b| self.borrows[b].is_some() && self.from[b].0 == r) }
    /// SAFETY in the sense of the harness: a reference is only dropped when no borrow was taken from it
    fn get(&self, r: usize) -> Option<&'static R<M>> { match &self.refs[r] { Some(b) => Some(unsafe { &*(&**b as *const R<M>) }), None => None } }

    fn invariants(&self) {
        let alive = self.tree.is_some();
        for r in 0..NR {
            let Some(x) = self.get(r) else { continue };
            check(x.is_valid() == alive, "a reference is valid exactly while the tree exists");
            check(x.can_borrow() == alive, "a reference can borrow exactly while the tree exists");
            match x.try_range() {
                None => check(!alive, "try_range gives the range while the tree exists"),
                Some(v) => { check(alive, "try_range gives nothing once the tree is dropped"); let s = self.list.start(self.tags[r]); check(v.start == s && v.end == s + self.list.runs[self.tags[r]].size, "try_range is the range of the run"); }
            }
            check(x.try_cursor::<Rec>().is_some() == alive, "try_cursor gives a cursor exactly while the tree exists");
            match x.try_borrow_slice() {
                None => check(!alive, "try_borrow_slice borrows while the tree exists"),
                Some(v) => { check(alive, "try_borrow_slice gives nothing once the tree is dropped"); self.list.runs[self.tags[r]].matches(&*v); }
            }
        }
        for b in 0..NB {
            match &self.borrows[b] {
                None => {}
                Some(B::Slice(v)) => { check(*v.id == self.from[b].1 && v.len() == self.from[b].2, "a borrowed slice is unchanged"); }
                Some(B::Id(v)) => check(**v == self.from[b].1, "the mapped value is unchanged"),
            }
        }
        match &self.tree { None => {}, Some(t) => check(t.size() == self.list.total() && t.number_of_slices() == self.list.n, "the tree is as it was") }
    }
    fn any_ref(&self) -> usize { let r = choose(NR); assume(self.refs[r].is_some()); r }
    fn any_borrow(&self) -> usize { let r = choose(NB); assume(self.borrows[r].is_some()); r }
    fn free_borrow(&self) -> usize { let b = if self.borrows[0].is_none() { 0 } else { 1 }; assume(self.borrows[b].is_none()); b }
    fn free_ref(&self) -> usize { let b = if self.refs[0].is_none() { 0 } else { 1 }; assume(self.refs[b].is_none()); b }

    fn step(&mut self, i: usize) {
        match choose(9) {
            0 => {
                assume(self.tree.is_some());
                let at = self.list.any_at(true);
                let s = size();
                let pos = self.list.pos(at);
                let how = choose(2);
                let refused = {
                    let t = match &mut self.tree { Some(t) => t, None => return };
                    panics(|| match how { 0 => t.insert(pos, Tok::new(100 + i as u8, Class::NONE, s), s), _ => drop(t.insert_ref(pos, Tok::new(100 + i as u8, Class::NONE, s), s)) })
                };
                check(refused == self.borrowed(), "insertion is refused exactly while a borrow is alive");
                if refused { cover(2); } else { self.list.insert_track(at, Run::new(100 + i as u8, Class::NONE, s), &mut self.tags); }
                if let Some(t) = &self.tree { same(t, &self.list); }
            }
            1 => {
                let (r, b) = (self.any_ref(), self.free_borrow());
                let x = match self.get(r) { Some(x) => x, None => return };
                let v = catch(|| x.borrow_slice());
                check(v.is_some() == self.tree.is_some(), "borrow_slice panics exactly when the tree is dropped");
                if let Some(v) = v { let run = &self.list.runs[self.tags[r]]; run.matches(&*v); self.from[b] = (r, run.segs[0].id, run.size); self.borrows[b] = Some(B::Slice(v)); }
            }
            2 => { let b = self.any_borrow(); if self.tree.is_none() { cover(3); } self.borrows[b] = None; }
            3 => {
                let (a, b) = (self.any_borrow(), self.free_borrow());
                let c = match &self.borrows[a] { Some(B::Slice(v)) => B::Slice(v.clone()), Some(B::Id(v)) => B::Id(v.clone()), None => return };
                self.borrows[b] = Some(c); self.from[b] = self.from[a];
            }
            4 => {
                let b = self.any_borrow();
                self.borrows[b] = match self.borrows[b].take() { Some(B::Slice(v)) => Some(B::Id(Borrow::map(v, |t| &*t.id))), x => x };
            }
            5 => {
                let (r, f) = (self.any_ref(), self.free_ref());
                if let Some(x) = &self.refs[r] { let y = R::clone(x); self.refs[f] = Some(Box::new(y)); self.tags[f] = self.tags[r]; }
                if self.tree.is_none() { cover(4); }
            }
            6 => { let r = self.any_ref(); assume(!self.in_use(r)); self.refs[r] = None; }
            7 => { assume(self.tree.is_some()); self.tree = None; if self.borrowed() { cover(5); } }
            _ => {
                let f = self.free_ref();
                let g = choose(self.list.n);
                let Some(t) = &self.tree else { assume(false); return };
                self.refs[f] = Some(Box::new(t.get(self.list.start(g)).make_ref())); self.tags[f] = g;
            }
        }
        self.invariants();
    }
}

fn history<const M: usize>(n: usize, k: usize, pre: usize) {
    let live0 = live();
    {
        let (t, l) = grow::<AllowSliceRefs, M>(n, 0);
        let mut w = World { tree: Some(t), list: l, refs: [None, None], tags: [0; NR], borrows: [None, None], from: [(0, 0, 0); NB] };
        let g = choose(n);
        if let Some(t) = &w.tree { w.refs[0] = Some(Box::new(t.get(w.list.start(g)).make_ref())); w.tags[0] = g; }
        if pre >= 1 { if let Some(x) = w.get(0) { let r = &w.list.runs[g]; w.from[0] = (0, r.segs[0].id, r.size); w.borrows[0] = Some(B::Slice(x.borrow_slice())); } }
        if pre >= 2 { w.tree = None; }
        for i in 0..k { w.step(i); }
        // the rest goes in one of the orders the language admits
        match choose(3) {
            0 => { w.tree = None; w.borrows = [None, None]; w.refs = [None, None]; }
            1 => { w.borrows = [None, None]; w.refs = [None, None]; w.tree = None; }
            _ => { w.borrows = [None, None]; w.tree = None; w.refs = [None, None]; }
        }
        cover(1);
    }
    check(live() == live0, "everything is freed");
}

/// `Borrow::map` whose closure panics ends the borrow
fn map_panics() {
    let live0 = live();
    {
        let (mut t, mut l) = grow::<AllowSliceRefs, 1>(3, 0);
        let g = choose(3);
        let r = t.get(l.start(g)).make_ref();
        let early = choose(2) == 0;
        let b = r.borrow_slice();
        let keep = if choose(2) == 0 { Some(b.clone()) } else { None };
        if early { drop(std::mem::replace(&mut t, RleTree::new_empty())); }
        check(panics(|| { Borrow::map(b, |_| -> &u8 { panic!() }); }), "the panic comes through");
        match &keep { Some(b) => l.runs[g].matches(&**b), None => {} }
        if !early {
            check(panics(|| t.insert(0, Tok::new(9, Class::NONE, 1), 1)) == keep.is_some(), "the borrow that was being mapped is over");
        }
        drop(keep);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}

entries! {
    c12_m1_n1_k3 => history::<1>(1, 3, 0);
    c12_m1_n1_k4 => history::<1>(1, 4, 0);
    c12_m1_n3_k3 => history::<1>(3, 3, 0);
    c12_m1_n2_b_k4 => history::<1>(2, 4, 1);
    c12_m1_n1_b_k5 => history::<1>(1, 5, 1);
    c12_m2_n6_b_k3 => history::<2>(6, 3, 1);
    c12_m1_n4_d_k5 => history::<1>(4, 5, 2);
    c12_m5_n11_b_k2 => history::<5>(11, 2, 1);
    c12_map_panics => map_panics();
}

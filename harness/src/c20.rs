//! C20: copy-on-write trees may be used from several threads.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::RleTree;

type T<const M: usize> = Tree<AllowCow, M>;
/// what one thread does with its own clone
struct Job<const M: usize> { t: Option<T<M>>, l: List, ops: [Op; 2], k: usize }
#[derive(Clone, Copy)]
enum Op { Drop, Insert(u8, At, Ix), Read, Clone, CloneInsert(u8, At, Ix), Replace }
/// any place, or one of a few (the start, the end, inside a run in the middle)
fn place(l: &List, few: bool) -> At {
    if !few { return l.any_at(true); }
    match choose(3) { 0 => At::Gap(0), 1 => At::Gap(l.n), _ => { let i = l.n / 2; let k = range(16, 1, 0xfff0) as Ix; assume(k < l.runs[i].size); At::In(i, k) } }
}
fn an_op(l: &List, id: u8, ops: usize, few: bool) -> Op {
    match choose(ops) {
        0 => Op::Drop,
        1 => { let at = place(l, few); Op::Insert(id, at, size()) }
        2 => Op::Read,
        3 => { let at = place(l, few); Op::CloneInsert(id, at, size()) }
        4 => Op::Clone,
        _ => Op::Replace,
    }
}
fn read<const M: usize>(t: &T<M>, l: &List) {
    let mut k = 0;
    for e in t.iter(..) { check(k < l.n && *e.slice().id == *e.slice().id && e.slice().segs[0].id == l.runs[k].segs[0].id, "a thread sees its own runs"); k += 1; }
    check(k == l.n, "a thread sees its own runs");
}
impl<const M: usize> Job<M> {
    fn new(t: T<M>, l: &List, id: u8, k: usize, ops: usize, few: bool) -> Self {
        let mut o = [Op::Read; 2];
        // (a second operation happens at the end or the start of the tree)
        o[0] = an_op(l, id, ops, few);
        if k > 1 { o[1] = match choose(3) { 0 => Op::Drop, 1 => Op::Insert(id + 20, At::Gap(if choose(2) == 0 { 0 } else { l.n }), 3), _ => Op::Read }; }
        Job { t: Some(t), l: l.clone(), ops: o, k }
    }
    fn run(&mut self) {
        for i in 0..self.k {
            match self.ops[i] {
                Op::Drop => self.t = None,
                Op::Insert(id, at, s) => if let Some(t) = &mut self.t { Self::ins(t, &mut self.l, id, at, s) },
                Op::Read => if let Some(t) = &self.t { read(t, &self.l) },
                Op::Clone => if let Some(t) = &self.t { let u = t.clone(); read(&u, &self.l); },
                Op::CloneInsert(id, at, s) => if let Some(t) = &self.t { let mut u = t.clone(); let mut l = self.l.clone(); Self::ins(&mut u, &mut l, id, at, s); self.t = Some(u); self.l = l; },
                Op::Replace => if let Some(t) = &self.t { self.t = Some(t.clone()); },
            }
        }
    }
    fn ins(t: &mut T<M>, l: &mut List, id: u8, at: At, s: Ix) { t.insert(l.pos(at), Tok::new(id, Class::NONE, s), s); l.insert(at, Run::new(id, Class::NONE, s)); }
    fn finish(self) { if let Some(t) = &self.t { same(t, &self.l); } }
}
extern "C-unwind" fn thread<const M: usize>(p: *mut u8) { unsafe { (*(p as *mut Job<M>)).run() } }

/// `n` runs; two clones in threads of their own, the tree itself here, each doing something
fn two<const M: usize>(n: usize, k: usize, ops: usize, few: bool) {
    let live0 = live();
    {
        let (t, l) = grow::<AllowCow, M>(n, if n > 3 { 0 } else { choose(2) });
        let mut a = Box::new(Job::new(t.clone(), &l, 100, k, ops, few));
        let mut here = Job::new(t, &l, 102, k, ops, n > 2);
        spawn(thread::<M>, &mut *a);
        here.run();
        join();
        a.finish(); here.finish();
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// two threads, nothing here
fn both<const M: usize>(n: usize, k: usize, ops: usize, few: bool) {
    let live0 = live();
    {
        let (t, l) = grow::<AllowCow, M>(n, if n > 3 { 0 } else { choose(2) });
        let mut a = Box::new(Job::new(t.clone(), &l, 100, k, ops, few));
        let mut b = Box::new(Job::new(t, &l, 101, k, ops, n > 2));
        spawn(thread::<M>, &mut *a);
        spawn(thread::<M>, &mut *b);
        join();
        a.finish(); b.finish();
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// three at once; the trees share nodes in part: the second clone was changed before
fn three<const M: usize>(n: usize, ops: usize) {
    let live0 = live();
    {
        let (t, l) = grow::<AllowCow, M>(n, 0);
        let (mut u, mut m) = (t.clone(), l.clone());
        if choose(2) == 1 { ins_at(&mut u, &mut m, 90, At::Gap(0)); }
        let mut a = Box::new(Job::new(u.clone(), &m, 100, 1, ops, n > 2));
        let mut b = Box::new(Job::new(t, &l, 101, 1, ops, true));
        let mut here = Job::new(u, &m, 102, 1, ops, true);
        spawn(thread::<M>, &mut *a);
        spawn(thread::<M>, &mut *b);
        here.run();
        join();
        a.finish(); b.finish(); here.finish();
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// trees that share only a part: one was changed before the threads start
fn part<const M: usize>(n: usize, ops: usize) {
    let live0 = live();
    {
        let (t, l) = grow::<AllowCow, M>(n, 0);
        let (mut u, mut m) = (t.clone(), l.clone());
        let g = choose(n + 1);
        ins_at(&mut u, &mut m, 90, At::Gap(g));
        let mut a = Box::new(Job::new(u, &m, 100, 1, ops, false));
        let mut here = Job::new(t, &l, 102, 1, ops, true);
        spawn(thread::<M>, &mut *a);
        here.run();
        join();
        a.finish(); here.finish();
        cover(1);
    }
    check(live() == live0, "everything is freed");
}

entries! {
    c20_two_m1_n1 => two::<1>(1, 1, 6, false);
    c20_two_m1_n3 => two::<1>(3, 1, 6, false);
    c20_two_m1_n5 => two::<1>(5, 1, 3, false);
    c20_two_m1_n5_few => two::<1>(5, 1, 4, true);
    c20_two_m1_n5_few4 => two::<1>(5, 1, 4, true);
    c20_two_m1_n8_few => two::<1>(8, 1, 3, true);
    c20_two_m2_n6 => two::<2>(6, 1, 3, false);
    c20_two_m2_n6_few => two::<2>(6, 1, 4, true);
    c20_two_m5_n11 => two::<5>(11, 1, 3, false);
    c20_two_m5_n11_few => two::<5>(11, 1, 4, true);
    c20_two_m1_n1_k2 => two::<1>(1, 2, 4, false);
    c20_two_m1_n3_k2 => two::<1>(3, 2, 3, true);
    c20_both_m1_n1 => both::<1>(1, 1, 6, false);
    c20_both_m1_n3 => both::<1>(3, 1, 3, false);
    c20_part_m1_n4 => part::<1>(4, 3);
    c20_part_m1_n7 => part::<1>(7, 3);
    c20_three_m1_n1 => three::<1>(1, 3);
    c20_three_m1_n2 => three::<1>(2, 3);
    c20_three_m1_n3 => three::<1>(3, 3);
}

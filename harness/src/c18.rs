//! C18: serialized trees round-trip, and malformed input is an error.
use crate::{entries, model::{component, Ix}, sv::*};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, SerializeSeq, SerializeTuple, Serializer};
use sherman::param::*;
use sherman::{Constant, Index, RleTree, Slice};
use std::fmt;

/// an error that owns memory
#[derive(Debug)]
pub struct Er(Box<u8>);
impl Er { fn new(x: u8) -> Er { Er(Box::new(x)) } }
impl fmt::Display for Er { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for Er {}
impl ser::Error for Er { fn custom<T: fmt::Display>(_: T) -> Er { Er::new(1) } }
impl de::Error for Er { fn custom<T: fmt::Display>(_: T) -> Er { Er::new(2) } }

/// a value; with `J`, equal values join
pub struct Sl<const J: bool>(Box<u8>);
impl<const J: bool> Clone for Sl<J> { fn clone(&self) -> Self { Sl(self.0.clone()) } }
impl<I, const J: bool> Slice<I> for Sl<J> {
    const MAY_JOIN: bool = J;
    fn split_at(&mut self, _: I) -> Self { self.clone() }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> { if *self.0 == *other.0 { Ok(self) } else { Err((self, other)) } }
}
impl<const J: bool> Serialize for Sl<J> { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u8(*self.0) } }
impl<'de, const J: bool> Deserialize<'de> for Sl<J> { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let v = u8::deserialize(d)?; Ok(Sl(Box::new(v))) } }
pub trait Val { fn of(x: u8) -> Self; fn val(&self) -> u8; }
impl<const J: bool> Val for Sl<J> { fn of(x: u8) -> Self { Sl(Box::new(x)) } fn val(&self) -> u8 { *self.0 } }
pub trait Num: Index + Serialize + for<'a> Deserialize<'a> { fn of(x: u16) -> Self; fn raw(self) -> u16; fn any() -> Self; const SIGNED: bool; }
impl Num for u16 { fn of(x: u16) -> u16 { x } fn raw(self) -> u16 { self } fn any() -> u16 { range(16, 0, 0x3ff) as u16 } const SIGNED: bool = false; }
/// a signed index
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Si(i16);
impl std::ops::Add for Si { type Output = Si; fn add(self, o: Si) -> Si { Si(self.0 + o.0) } }
impl std::ops::Sub for Si { type Output = Si; fn sub(self, o: Si) -> Si { Si(self.0 - o.0) } }
impl Index for Si { const ZERO: Si = Si(0); }
impl Serialize for Si { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_i16(self.0) } }
impl<'de> Deserialize<'de> for Si { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { i16::deserialize(d).map(Si) } }
impl Num for Si { fn of(x: u16) -> Si { Si(x as i16) } fn raw(self) -> u16 { self.0 as u16 } fn any() -> Si { Si(range(16, 0, 0x7ff) as i16 - 0x400) } const SIGNED: bool = true; }

const CAP: usize = 40;
#[derive(Clone, Copy)]
pub struct Runs { n: usize, size: [u16; CAP], val: [u8; CAP] }
impl Runs { fn new() -> Runs { Runs { n: 0, size: [0; CAP], val: [0; CAP] } } fn push(&mut self, s: u16, v: u8) { check(self.n < CAP, "no more elements than runs"); self.size[self.n] = s; self.val[self.n] = v; self.n += 1; }
    /// what is left when equal neighbours are joined, from the left
    fn joined(&self) -> Runs { let mut r = Runs::new(); for i in 0..self.n { if r.n > 0 && r.val[r.n - 1] == self.val[i] { r.size[r.n - 1] += self.size[i] } else { r.push(self.size[i], self.val[i]) } } r } }

/// A serializer of sequences of pairs that records the runs, and reports an error at step `err`.
struct Rs<'a> { out: &'a mut Runs, depth: u8, at: u8, err: usize, step: &'a mut usize, len: Option<usize> }
macro_rules! nope { ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<(), Er> { fail("a tree is a sequence of pairs of a size and a slice"); Err(Er::new(0)) })* } }
impl<'a> Rs<'a> {
    fn tick(&mut self) -> Result<(), Er> { *self.step += 1; if *self.step == self.err { Err(Er::new(9)) } else { Ok(()) } }
    fn sub(&mut self, depth: u8, at: u8) -> Rs<'_> { Rs { out: self.out, depth, at, err: self.err, step: self.step, len: None } }
}
impl<'a> Serializer for Rs<'a> {
    type Ok = (); type Error = Er;
    type SerializeSeq = Self; type SerializeTuple = Self;
    type SerializeTupleStruct = Impossible<(), Er>; type SerializeTupleVariant = Impossible<(), Er>; type SerializeMap = Impossible<(), Er>; type SerializeStruct = Impossible<(), Er>; type SerializeStructVariant = Impossible<(), Er>;
    nope! { serialize_bool(bool); serialize_i8(i8); serialize_i32(i32); serialize_i64(i64); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Er> { fail("a tree is a sequence of pairs of a size and a slice"); Err(Er::new(0)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), Er> { fail("a tree is a sequence of pairs of a size and a slice"); Err(Er::new(0)) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Er> { fail("a tree is a sequence of pairs of a size and a slice"); Err(Er::new(0)) }
    fn serialize_i16(self, v: i16) -> Result<(), Er> { self.serialize_u16(v as u16) }
    fn serialize_u16(mut self, v: u16) -> Result<(), Er> { check(self.depth == 2 && self.at == 0, "the size is the first of the pair"); self.tick()?; self.out.push(v, 0); Ok(()) }
    fn serialize_u8(mut self, v: u8) -> Result<(), Er> { check(self.depth == 2 && self.at == 1, "the slice is the second of the pair"); self.tick()?; self.out.val[self.out.n - 1] = v; Ok(()) }
    fn serialize_seq(mut self, len: Option<usize>) -> Result<Self, Er> { check(self.depth == 0, "a tree is one sequence"); self.tick()?; self.len = len; Ok(self) }
    fn serialize_tuple(mut self, n: usize) -> Result<Self, Er> { check(self.depth == 1 && n == 2, "an element is a pair"); self.tick()?; self.at = 0; Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Er> { fail("an element is a pair"); Err(Er::new(0)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Er> { fail("an element is a pair"); Err(Er::new(0)) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Er> { fail("an element is a pair"); Err(Er::new(0)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Er> { fail("an element is a pair"); Err(Er::new(0)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Er> { fail("an element is a pair"); Err(Er::new(0)) }
}
impl<'a> SerializeSeq for Rs<'a> {
    type Ok = (); type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Er> { self.tick()?; t.serialize(self.sub(1, 0)) }
    fn end(mut self) -> Result<(), Er> { self.tick()?; if let Some(n) = self.len { check(n == self.out.n, "an announced length is the number of elements") } Ok(()) }
}
impl<'a> SerializeTuple for Rs<'a> {
    type Ok = (); type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), Er> { let at = self.at; self.at += 1; t.serialize(self.sub(2, at)) }
    fn end(self) -> Result<(), Er> { check(self.at == 2, "a pair has two elements"); Ok(()) }
}

/// What the source does at an element: 0 the pair, then errors: 1 instead of the element, 2 instead of the size, 3 instead of
/// the slice, 4 the pair is short, 5 the size is of a wrong type, 6 the slice is of a wrong type, 7 after the slice, 8 the
/// size is too large for its type.
struct Src { runs: Runs, i: usize, bad: usize, how: usize, hint: Option<usize> }
struct Top(Src, bool);
impl<'de> Deserializer<'de> for Top {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Er> {
        if self.1 { return match choose(4) { 0 => v.visit_u16(3), 1 => v.visit_unit(), 2 => v.visit_str("x"), _ => v.visit_none() } }
        let r = v.visit_seq(&mut self.0)?;
        check(self.0.i > self.0.runs.n, "a sequence is read to its end");
        Ok(r)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> SeqAccess<'de> for &mut Src {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Er> {
        let k = self.i; self.i += 1;
        let how = if k == self.bad { self.how } else { 0 };
        if how == 1 { return Err(Er::new(3)); }
        if k >= self.runs.n { return Ok(None); }
        let x = seed.deserialize(Pair { size: self.runs.size[k], val: self.runs.val[k], how })?;
        if how == 7 { return Err(Er::new(3)); }
        Ok(Some(x))
    }
    fn size_hint(&self) -> Option<usize> { self.hint }
}
struct Pair { size: u16, val: u8, how: usize }
impl<'de> Deserializer<'de> for Pair {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { v.visit_seq(PairSeq { p: self, i: 0 }) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct PairSeq { p: Pair, i: u8 }
impl<'de> SeqAccess<'de> for PairSeq {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Er> {
        self.i += 1;
        let h = self.p.how;
        match self.i {
            1 => { if h == 2 { return Err(Er::new(3)); } seed.deserialize(Prim { x: self.p.size, wrong: h == 5, big: h == 8, size: true }).map(Some) }
            2 => { if h == 3 { return Err(Er::new(3)); } if h == 4 { return Ok(None); } seed.deserialize(Prim { x: self.p.val as u16, wrong: h == 6, big: false, size: false }).map(Some) }
            _ => Ok(None),
        }
    }
}
struct Prim { x: u16, wrong: bool, big: bool, size: bool }
impl<'de> Deserializer<'de> for Prim {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { if self.wrong { v.visit_unit() } else if self.big { v.visit_u64(0x1_0000) } else if self.size { v.visit_u16(self.x) } else { v.visit_u8(self.x as u8) } }
    fn deserialize_i16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { if self.wrong { v.visit_unit() } else if self.big { v.visit_u64(0x1_0000) } else { v.visit_i16(self.x as i16) } }
    serde::forward_to_deserialize_any! { bool i8 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn read<I: Num, T: Deserialize<'static>>(runs: &Runs, bad: usize, how: usize) -> Result<T, Er> {
    let hint = match choose(3) { 0 => None, 1 => Some(runs.n), _ => Some(3) };
    T::deserialize(Top(Src { runs: *runs, i: 0, bad, how, hint }, false))
}
fn same<I: Num, S: Slice<I> + Val, P: RleTreeConfig<I, S, M>, const M: usize>(t: &RleTree<I, S, P, M>, r: &Runs) {
    check(t.number_of_slices() == r.n, "as many runs");
    let mut k = 0; let mut pos = 0u16;
    for e in t.iter(..) {
        check(k < r.n, "no more runs");
        check(e.range().start.raw() == pos, "start of a run"); pos += r.size[k];
        check(e.range().end.raw() == pos && e.size().raw() == r.size[k], "size of a run");
        check(e.slice().val() == r.val[k], "value of a run");
        k += 1;
    }
    check(k == r.n && t.size().raw() == pos, "no fewer runs");
}
fn write<I: Num, S: Slice<I> + Serialize, P: RleTreeConfig<I, S, M>, const M: usize>(t: &RleTree<I, S, P, M>, err: usize) -> (Result<(), Er>, Runs) {
    let mut out = Runs::new(); let mut step = 0;
    let r = t.serialize(Rs { out: &mut out, depth: 0, at: 0, err, step: &mut step, len: None });
    (r, out)
}
fn grow<I: Num, S: Slice<I> + Val, P: RleTreeConfig<I, S, M> + SupportsInsert<I, S, M>, const M: usize>(n: usize) -> (RleTree<I, S, P, M>, Runs) {
    let pat = choose(3);
    let mut t: RleTree<I, S, P, M> = RleTree::new_empty();
    let mut r = Runs::new();
    for i in 0..n {
        let g = match pat { 0 => i, 1 => 0, _ => i / 2 };
        let (s, v) = (range(16, 1, 0x1ff) as u16, range(8, 0, 3) as u8);
        let mut p = 0; for j in 0..g { p += r.size[j]; }
        t.insert(I::of(p), S::of(v), I::of(s));
        let mut j = r.n; while j > g { r.size[j] = r.size[j - 1]; r.val[j] = r.val[j - 1]; j -= 1; } r.size[g] = s; r.val[g] = v; r.n += 1;
    }
    if n > 0 && choose(2) == 1 {
        // a run split by an insertion
        let k = choose(n); let d = range(16, 1, 0x1ff) as u16; assume(d < r.size[k]);
        let mut p = d; for j in 0..k { p += r.size[j]; }
        t.insert(I::of(p), S::of(9), I::of(7));
        let mut j = r.n; while j > k + 1 { r.size[j + 1] = r.size[j - 1]; r.val[j + 1] = r.val[j - 1]; j -= 1; }
        r.size[k + 2] = r.size[k] - d; r.val[k + 2] = r.val[k]; r.size[k] = d; r.size[k + 1] = 7; r.val[k + 1] = 9; r.n += 2;
    }
    (t, r)
}
/// what is written is the runs, and reading it gives the tree again (up to joins, for slices that join)
fn round<I: Num, P, Q, const M: usize, const J: bool>(n: usize) where P: RleTreeConfig<I, Sl<false>, M> + SupportsInsert<I, Sl<false>, M>, Q: RleTreeConfig<I, Sl<J>, M> + SupportsInsert<I, Sl<J>, M> {
    let live0 = live();
    {
        let (t, runs) = grow::<I, Sl<false>, P, M>(n);
        let (r, out) = write(&t, 0);
        check(r.is_ok(), "serializing succeeds");
        check(out.n == runs.n, "the runs are written");
        for i in 0..runs.n { check(out.size[i] == runs.size[i], "the sizes are written in order"); check(out.val[i] == runs.val[i], "the slices are written in order"); }
        same(&t, &runs);
        let u: Result<RleTree<I, Sl<J>, Q, M>, Er> = read::<I, _>(&out, usize::MAX, 0);
        match u {
            Err(_) => fail("what was written can be read"),
            Ok(mut u) => {
                let want = if J { runs.joined() } else { runs };
                same(&u, &want);
                drop(t);
                // the tree is an ordinary one
                u.insert(I::ZERO, Sl::of(77), I::of(1));
                check(u.number_of_slices() == want.n + 1 && u.get(I::ZERO).slice().val() == 77, "the tree can be used");
            }
        }
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// the serializer reports an error at any step
fn write_err<I: Num, P: RleTreeConfig<I, Sl<false>, M> + SupportsInsert<I, Sl<false>, M>, const M: usize>(n: usize) {
    let live0 = live();
    {
        let (t, runs) = grow::<I, Sl<false>, P, M>(n);
        let err = 1 + choose(4 * runs.n + 2);
        let (r, _) = write(&t, err);
        match r { Ok(()) => fail("an error of the serializer is reported"), Err(e) => check(*e.0 == 9, "an error of the serializer is reported as it is") }
        same(&t, &runs);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// any sequence of sizes and values, with something wrong at any place: an error or the tree it describes
fn input<I: Num, P: RleTreeConfig<I, Sl<J>, M> + SupportsInsert<I, Sl<J>, M>, const M: usize, const J: bool>(max: usize) {
    let live0 = live();
    {
        let n = choose(max + 1);
        let mut runs = Runs::new();
        let mut ok = true;
        for _ in 0..n { let s = I::any(); ok &= s > I::ZERO; runs.push(s.raw(), range(8, 0, 3) as u8); }
        // `bad` may be the place after the last element, where there can only be error 1
        let how = choose(9);
        let bad = choose(n + 1);
        if how == 0 { assume(bad == 0) } else if how != 1 { assume(bad < n) }
        let mut before = true;
        for i in 0..n { if i < bad { let s = runs.size[i]; before &= if I::SIGNED { (s as i16) > 0 } else { s > 0 } } }
        let u: Result<RleTree<I, Sl<J>, P, M>, Er> = read::<I, _>(&runs, if how == 0 { usize::MAX } else { bad }, how);
        match u {
            Ok(u) => { check(how == 0, "an error of the source is reported"); check(ok, "a size that is not positive is an error"); same(&u, &if J { runs.joined() } else { runs }); cover(1); }
            Err(e) => { check(how != 0 || !ok, "a good sequence is no error"); if before && (how == 1 || how == 2 || how == 3) { check(*e.0 == 3, "an error of the source is reported as it is") } cover(2); }
        }
    }
    check(live() == live0, "everything is freed");
}
/// what is not a sequence at all
fn not_seq<P: RleTreeConfig<u16, Sl<false>, M> + SupportsInsert<u16, Sl<false>, M>, const M: usize>() {
    let live0 = live();
    let u: Result<RleTree<u16, Sl<false>, P, M>, Er> = Deserialize::deserialize(Top(Src { runs: Runs::new(), i: 0, bad: 0, how: 0, hint: None }, true));
    check(u.is_err(), "what is not a sequence is an error");
    drop(u);
    check(live() == live0, "everything is freed");
    cover(1);
}

entries! {
    c18_round_m1_n4 => round::<u16, NoFeatures, NoFeatures, 1, false>(4);
    c18_round_m1_n9 => round::<u16, NoFeatures, AllowSliceRefs, 1, false>(9);
    c18_round_m2_n12 => round::<u16, AllowSliceRefs, AllowCow, 2, false>(12);
    c18_round_m5_n24 => round::<u16, AllowCow, NoFeatures, 5, false>(24);
    c18_round_m1_n0 => round::<u16, NoFeatures, NoFeatures, 1, false>(0);
    c18_round_i16_m1_n5 => round::<Si, NoFeatures, NoFeatures, 1, false>(5);
    c18_round_join_m1_n5 => round::<u16, NoFeatures, NoFeatures, 1, true>(5);
    c18_round_join_m2_n8 => round::<u16, AllowCow, AllowCow, 2, true>(8);
    c18_write_err_m1_n4 => write_err::<u16, NoFeatures, 1>(4);
    c18_write_err_m2_n7 => write_err::<u16, AllowCow, 2>(7);
    c18_write_err_refs_m1_n3 => write_err::<u16, AllowSliceRefs, 1>(3);
    c18_input_m1_n3 => input::<u16, NoFeatures, 1, false>(3);
    c18_input_m1_n6 => input::<u16, NoFeatures, 1, false>(6);
    c18_input_cow_m2_n6 => input::<u16, AllowCow, 2, false>(6);
    c18_input_refs_m1_n4 => input::<u16, AllowSliceRefs, 1, false>(4);
    c18_input_join_m1_n4 => input::<u16, NoFeatures, 1, true>(4);
    c18_input_i16_m1_n4 => input::<Si, NoFeatures, 1, false>(4);
    c18_input_m1_n9 => input::<u16, NoFeatures, 1, false>(9);
    c18_input_m2_n14 => input::<u16, AllowSliceRefs, 2, false>(14);
    c18_input_join_m1_n8 => input::<u16, AllowCow, 1, true>(8);
    c18_not_seq => not_seq::<NoFeatures, 1>();
}

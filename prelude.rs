// Prelude of the extracted file: models of the dependencies (zerocopy, core) of nt-hive.
// Everything marked external_body / axiom / assume_specification here is part of the trusted base and is listed in the evidence.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_camel_case_types, unused_parens, elided_lifetimes_in_paths, mismatched_lifetime_syntaxes)]
use vstd::prelude::*;
verus! {
pub mod dep {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::ops::{Deref, DerefMut, Range};
use core::cmp::Ordering;
use core::marker::PhantomData;

// ---------- core ----------
pub assume_specification<Idx: Clone>[ <Range<Idx> as Clone>::clone ](r: &Range<Idx>) -> (s: Range<Idx>)
    ensures cloned(r.start, s.start), cloned(r.end, s.end);
pub assume_specification<Idx: PartialEq>[ <Range<Idx> as PartialEq>::eq ](a: &Range<Idx>, b: &Range<Idx>) -> (r: bool);
pub assume_specification<Idx: PartialOrd<Idx>>[ Range::<Idx>::is_empty ](r: &Range<Idx>) -> (b: bool) where Idx: PartialOrd<Idx> ensures <Idx as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec() ==> b == !(r.start.partial_cmp_spec(&r.end) == Some(Ordering::Less));
pub broadcast axiom fn axiom_range_obeys() ensures #[trigger] <Range<usize> as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_range_eq(a: Range<usize>, b: Range<usize>) ensures #[trigger] a.eq_spec(&b) == (a == b);
pub broadcast axiom fn axiom_ord_obeys() ensures #[trigger] <Ordering as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_ord_eq(a: Ordering, b: Ordering) ensures #[trigger] a.eq_spec(&b) == (a == b);
pub assume_specification[ Ordering::is_eq ](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal);
pub assume_specification[ Ordering::is_ne ](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal);
pub assume_specification[ Ordering::is_lt ](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less);
pub assume_specification[ Ordering::is_gt ](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater);
pub assume_specification[ Ordering::is_le ](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater);
pub assume_specification[ Ordering::is_ge ](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less);
pub assume_specification[ Ordering::reverse ](o: Ordering) -> (r: Ordering) ensures r == (match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
pub broadcast axiom fn axiom_array_ext<const N: usize>(a: [u8; N], b: [u8; N]) ensures (#[trigger] a@ == #[trigger] b@) ==> a == b;
/// equality of byte slices and arrays is equality of their contents (from the elementwise definition in vstd)
pub broadcast proof fn lemma_eq_sa<const N: usize>(a: [u8; N], s: &[u8]) ensures #[trigger] <[u8] as PartialEqSpec<[u8; N]>>::eq_spec(s, &a) == (s@ == a@) { if <[u8] as PartialEqSpec<[u8; N]>>::eq_spec(s, &a) { assert(s@ =~= a@); } }
pub broadcast proof fn lemma_eq_as<const N: usize>(a: [u8; N], s: &[u8]) ensures #[trigger] <[u8; N] as PartialEqSpec<[u8]>>::eq_spec(&a, s) == (s@ == a@) { if <[u8; N] as PartialEqSpec<[u8]>>::eq_spec(&a, s) { assert(s@ =~= a@); } }
pub broadcast proof fn lemma_eq_ss(a: &[u8], s: &[u8]) ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, s) == (s@ == a@) { if <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, s) { assert(s@ =~= a@); } }
pub assume_specification<T, E> [ Result::<T, E>::unwrap_or ](r: Result<T, E>, x: T) -> (v: T) where E: core::marker::Destruct, T: core::marker::Destruct ensures v == (match r { Ok(y) => y, Err(_) => x });
pub mod pcmp { use vstd::prelude::*;
  use super::MinMax;
  pub fn min<T: MinMax>(a: T, b: T) -> (r: T) ensures T::mm(a, b, true, r) { a.p_min(b) }
  pub fn max<T: MinMax>(a: T, b: T) -> (r: T) ensures T::mm(a, b, false, r) { a.p_max(b) }
}
pub trait MinMax: Sized { fn p_min(self, o: Self) -> (r: Self) ensures Self::mm(self, o, true, r); fn p_max(self, o: Self) -> (r: Self) ensures Self::mm(self, o, false, r); spec fn mm(a: Self, b: Self, m: bool, r: Self) -> bool; }
impl MinMax for usize { open spec fn mm(a: Self, b: Self, m: bool, r: Self) -> bool { r == (if (a <= b) == m { a } else { b }) }
  fn p_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } fn p_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } } }
impl MinMax for u32 { open spec fn mm(a: Self, b: Self, m: bool, r: Self) -> bool { r == (if (a <= b) == m { a } else { b }) }
  fn p_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } fn p_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } } }
impl MinMax for u8 { open spec fn mm(a: Self, b: Self, m: bool, r: Self) -> bool { r == (if (a <= b) == m { a } else { b }) }
  fn p_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } fn p_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } } }
impl MinMax for u16 { open spec fn mm(a: Self, b: Self, m: bool, r: Self) -> bool { r == (if (a <= b) == m { a } else { b }) }
  fn p_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } fn p_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } } }
impl MinMax for u64 { open spec fn mm(a: Self, b: Self, m: bool, r: Self) -> bool { r == (if (a <= b) == m { a } else { b }) }
  fn p_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } fn p_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } } }
impl MinMax for i32 { open spec fn mm(a: Self, b: Self, m: bool, r: Self) -> bool { r == (if (a <= b) == m { a } else { b }) }
  fn p_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } fn p_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } } }
impl MinMax for i64 { open spec fn mm(a: Self, b: Self, m: bool, r: Self) -> bool { r == (if (a <= b) == m { a } else { b }) }
  fn p_min(self, o: Self) -> (r: Self) { if self <= o { self } else { o } } fn p_max(self, o: Self) -> (r: Self) { if self <= o { o } else { self } } }
/// `Option` and `Result` taken apart (T14)
pub enum Br<T, R> { Go(T), Stop(R) }
pub struct OptK; pub struct ResK;
impl OptK { pub fn ok<T>(self, x: T) -> (r: Option<T>) ensures r == Some(x) { Some(x) }
  pub fn stop<T>(self, x: ()) -> (r: Option<T>) ensures r is None { None } }
impl ResK { pub fn ok<T, E>(self, x: T) -> (r: Result<T, E>) ensures r == Ok::<T, E>(x) { Ok(x) }
  pub fn stop<T, E>(self, x: E) -> (r: Result<T, E>) ensures r == Err::<T, E>(x) { Err(x) } }
pub trait PBr: Sized { type T; type R; type K; spec fn br(self) -> Br<Self::T, Self::R>; fn p_br(self) -> (r: (Br<Self::T, Self::R>, Self::K)) ensures r.0 == self.br(); }
impl<T> PBr for Option<T> { type T = T; type R = (); type K = OptK; open spec fn br(self) -> Br<T, ()> { match self { Some(x) => Br::Go(x), None => Br::Stop(()) } }
  fn p_br(self) -> (r: (Br<T, ()>, OptK)) { (match self { Some(x) => Br::Go(x), None => Br::Stop(()) }, OptK) } }
impl<T, E> PBr for Result<T, E> { type T = T; type R = E; type K = ResK; open spec fn br(self) -> Br<T, E> { match self { Ok(x) => Br::Go(x), Err(x) => Br::Stop(x) } }
  fn p_br(self) -> (r: (Br<T, E>, ResK)) { (match self { Ok(x) => Br::Go(x), Err(x) => Br::Stop(x) }, ResK) } }
pub assume_specification<T> [ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: core::marker::Destruct ensures r == (if a is Some { a } else { b });
pub assume_specification<T> [ Option::<T>::replace ](a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T: Copy> [ Option::<&T>::copied ](a: Option<&T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T> [ core::mem::replace ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification [ i32::wrapping_neg ](x: i32) -> (r: i32) ensures r == (if x == i32::MIN { x as int } else { -x });
pub assume_specification [ i32::is_negative ](x: i32) -> (r: bool) ensures r == (x < 0);
pub assume_specification [ i32::is_positive ](x: i32) -> (r: bool) ensures r == (x > 0);
pub assume_specification [ i32::checked_neg ](x: i32) -> (r: Option<i32>) ensures r == (if x == i32::MIN { None::<i32> } else { Some((-x) as i32) });
pub assume_specification [ usize::abs_diff ](x: usize, y: usize) -> (r: usize) ensures r == (if x < y { y - x } else { x - y });
pub assume_specification [ usize::overflowing_add ](x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x + y > usize::MAX), r.0 == (if x + y > usize::MAX { x + y - usize::MAX - 1 } else { x + y });
pub assume_specification [ usize::overflowing_sub ](x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + usize::MAX + 1 } else { x - y });
pub assume_specification [ u32::overflowing_add ](x: u32, y: u32) -> (r: (u32, bool)) ensures r.1 == (x + y > u32::MAX), r.0 == (if x + y > u32::MAX { x + y - u32::MAX - 1 } else { x + y });
pub assume_specification [ u32::overflowing_sub ](x: u32, y: u32) -> (r: (u32, bool)) ensures r.1 == (x < y), r.0 == (if x < y { x - y + u32::MAX + 1 } else { x - y });
pub assume_specification<T> [ bool::then_some ](b: bool, x: T) -> (r: Option<T>) where T: core::marker::Destruct ensures r == (if b { Some(x) } else { None });
pub assume_specification [ usize::next_multiple_of ](x: usize, y: usize) -> (r: usize) requires y != 0, (x + y - 1) / (y as int) * y <= usize::MAX ensures r == (x + y - 1) / (y as int) * y;
pub assume_specification [ usize::rem_euclid ](x: usize, y: usize) -> (r: usize) requires y != 0 ensures r == x % y;
pub assume_specification [ usize::div_euclid ](x: usize, y: usize) -> (r: usize) requires y != 0 ensures r == x / y;
pub assume_specification [ u32::next_multiple_of ](x: u32, y: u32) -> (r: u32) requires y != 0, (x + y - 1) / (y as int) * y <= u32::MAX ensures r == (x + y - 1) / (y as int) * y;
pub assume_specification [ u32::rem_euclid ](x: u32, y: u32) -> (r: u32) requires y != 0 ensures r == x % y;
pub assume_specification [ u32::div_euclid ](x: u32, y: u32) -> (r: u32) requires y != 0 ensures r == x / y;
pub assume_specification [ u16::next_multiple_of ](x: u16, y: u16) -> (r: u16) requires y != 0, (x + y - 1) / (y as int) * y <= u16::MAX ensures r == (x + y - 1) / (y as int) * y;
pub assume_specification [ u16::rem_euclid ](x: u16, y: u16) -> (r: u16) requires y != 0 ensures r == x % y;
pub assume_specification [ u16::div_euclid ](x: u16, y: u16) -> (r: u16) requires y != 0 ensures r == x / y;
pub assume_specification [ u64::next_multiple_of ](x: u64, y: u64) -> (r: u64) requires y != 0, (x + y - 1) / (y as int) * y <= u64::MAX ensures r == (x + y - 1) / (y as int) * y;
pub assume_specification [ u64::rem_euclid ](x: u64, y: u64) -> (r: u64) requires y != 0 ensures r == x % y;
pub assume_specification [ u64::div_euclid ](x: u64, y: u64) -> (r: u64) requires y != 0 ensures r == x / y;
pub assume_specification [ i32::abs ](x: i32) -> (r: i32) requires x != i32::MIN ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [ i32::wrapping_abs ](x: i32) -> (r: i32) ensures r == (if x == i32::MIN { x as int } else if x < 0 { -x } else { x as int });
pub assume_specification [ i32::checked_abs ](x: i32) -> (r: Option<i32>) ensures r == (if x == i32::MIN { None::<i32> } else if x < 0 { Some((-x) as i32) } else { Some(x) });
pub assume_specification [ i32::saturating_neg ](x: i32) -> (r: i32) ensures r == (if x == i32::MIN { i32::MAX as int } else { -x });
pub assume_specification [ i32::signum ](x: i32) -> (r: i32) ensures r == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });
pub assume_specification [ i32::rem_euclid ](x: i32, y: i32) -> (r: i32) requires y > 0 ensures r == x as int % y as int;
pub assume_specification [ i32::cast_unsigned ](x: i32) -> (r: u32) ensures r == (if x < 0 { x + 0x1_0000_0000 } else { x as int });
pub assume_specification [ u32::cast_signed ](x: u32) -> (r: i32) ensures r == (if x >= 0x8000_0000 { x - 0x1_0000_0000 } else { x as int });
pub assume_specification<T> [ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: core::marker::Destruct ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T, U> [ Option::<T>::zip::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) where T: core::marker::Destruct, U: core::marker::Destruct ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
pub assume_specification<T> [ Option::<Option<T>>::flatten ](a: Option<Option<T>>) -> (r: Option<T>) ensures r == (match a { Some(x) => x, None => None });
pub assume_specification [ i32::unsigned_abs ](x: i32) -> (r: u32) ensures r == (if x < 0 { -x } else { x as int });
#[verifier::external_body] pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le32(b@, 0) { u32::from_le_bytes(b) }
#[verifier::external_body] pub fn u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r == le32(b@.reverse(), 0) { u32::from_be_bytes(b) }
#[verifier::external_body] pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == le64(b@, 0) { u64::from_le_bytes(b) }
#[verifier::external_body] pub fn u64_from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == le64(b@.reverse(), 0) { u64::from_be_bytes(b) }
#[verifier::external_body] pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == le16(b@, 0) { u16::from_le_bytes(b) }

pub broadcast proof fn lemma_lit2(a: [u8; 2]) ensures #[trigger] a@ == seq![a@[0], a@[1]] { assert(a@ =~= seq![a@[0], a@[1]]); }
pub broadcast proof fn lemma_lit4(a: [u8; 4]) ensures #[trigger] a@ == seq![a@[0], a@[1], a@[2], a@[3]] { assert(a@ =~= seq![a@[0], a@[1], a@[2], a@[3]]); }
pub broadcast proof fn lemma_sub_sub(s: Seq<u8>, a: int, b: int, c: int, e: int) requires 0 <= a <= b <= s.len(), 0 <= c <= e <= b - a
  ensures #[trigger] s.subrange(a, b).subrange(c, e) == s.subrange(a + c, a + e) { assert(s.subrange(a, b).subrange(c, e) =~= s.subrange(a + c, a + e)); }
pub broadcast proof fn lemma_top(x: u32) ensures #[trigger] (x & 0x8000_0000u32) == (if x >= 0x8000_0000u32 { 0x8000_0000u32 } else { 0u32 }) { assert((x & 0x8000_0000u32) == (if x >= 0x8000_0000u32 { 0x8000_0000u32 } else { 0u32 })) by (bit_vector); }
pub broadcast proof fn lemma_low(x: u32) ensures #[trigger] (x & !0x8000_0000u32) == x % 0x8000_0000u32 { assert((x & !0x8000_0000u32) == x % 0x8000_0000u32) by (bit_vector); }
pub broadcast proof fn lemma_cast_i32(x: i32) ensures #[trigger] (x as u32) == (if x < 0 { x + 0x1_0000_0000 } else { x as int }) { assert(x < 0 ==> (x as u32) as i64 == (x as i64) + 0x1_0000_0000i64) by (bit_vector); assert(x >= 0 ==> (x as u32) as i64 == x as i64) by (bit_vector); }
pub broadcast proof fn lemma_low2(x: u32) ensures #[trigger] (x & 0x7fff_ffffu32) == x % 0x8000_0000u32 { assert((x & 0x7fff_ffffu32) == x % 0x8000_0000u32) by (bit_vector); }
pub broadcast proof fn lemma_shl10(x: u32) requires x < 0x400 ensures #[trigger] (x << 10) == x * 1024 { assert(x < 0x400u32 ==> (x << 10) == x * 1024) by (bit_vector); }
/// `slice::binary_search_by`: std's contract for a slice that is sorted with respect to the comparator
pub open spec fn ord_num(o: Ordering) -> int { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
pub trait BSearch<T> { spec fn bsv(&self) -> Seq<T>;
  fn p_binary_search_by<F: Fn(&T) -> Ordering>(&self, f: F) -> (r: Result<usize, usize>)
    requires forall|x: &T| #[trigger] f.requires((x,)), f_det::<&T, Ordering, F>(f)
    ensures
      r is Ok ==> r->Ok_0 < self.bsv().len() && f.ensures((&self.bsv()[r->Ok_0 as int],), Ordering::Equal),
      r is Err ==> r->Err_0 <= self.bsv().len() && ((forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i < j < self.bsv().len() && f.ensures((&self.bsv()[i],), a) && f.ensures((&self.bsv()[j],), b) ==> ord_num(a) <= ord_num(b))
        ==> forall|i: int| 0 <= i < self.bsv().len() ==> f.ensures((&#[trigger] self.bsv()[i],), Ordering::Less) || f.ensures((&self.bsv()[i],), Ordering::Greater)); }
impl<T> BSearch<T> for [T] { open spec fn bsv(&self) -> Seq<T> { self@ }
  fn p_binary_search_by<F: Fn(&T) -> Ordering>(&self, f: F) -> (r: Result<usize, usize>) { /*@CORE slice/mod.rs binary_search_by*/
    /*+*/let ghost v = self@;
    let ghost sorted = forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i < j < v.len() && f.ensures((&v[i],), a) && f.ensures((&v[j],), b) ==> ord_num(a) <= ord_num(b);/*-*/
    let mut size = self.len();
    if size == 0 {
      return Err(0);
    }
    let mut base = 0usize;
    /*+*/let ghost mut g: int = v.len() as int;/*-*/
    while size > 1
      /*+*/invariant size >= 1, base + size <= v.len(), v == self@, v.len() <= usize::MAX, forall|x: &T| #[trigger] f.requires((x,)), f_det::<&T, Ordering, F>(f),
        base > 0 ==> exists|o: Ordering| o != Ordering::Greater && #[trigger] f.ensures((&v[base as int],), o),
        base < g <= base + size <= g + 1, g < v.len() ==> f.ensures((&v[g],), Ordering::Greater)
        decreases size/*-*/
    {
      let half = size / 2;
      let mid = base + half;
      let cmp = f(&self[mid]);
      /*+*/proof { if ord_num(cmp) == 1 { g = mid as int; } else { assert(mid < g) by { if mid == g { assert(f.ensures((&v[g],), Ordering::Greater)); } } } }/*-*/
      base = if ord_gt(cmp) { base } else { mid };
      size -= half;
    }
    let cmp = f(&self[base]);
    /*+*/proof { if sorted && cmp != Ordering::Equal { assert forall|i: int| 0 <= i < v.len() implies f.ensures((&#[trigger] v[i],), Ordering::Less) || f.ensures((&v[i],), Ordering::Greater) by {
        broadcast use axiom_f_total; assert(f.requires((&v[i],))); let o = f_out::<&T, Ordering, F>(f, &v[i]); assert(f.ensures((&v[i],), o));
        if o == Ordering::Equal {
          if i < base { assert(ord_num(o) <= ord_num(cmp)); assert(cmp == Ordering::Greater); let q = choose|q: Ordering| q != Ordering::Greater && #[trigger] f.ensures((&v[base as int],), q); assert(q == cmp); }
          else if i == base { assert(o == cmp); }
          else { if base + 1 < v.len() { if i > base + 1 { assert(ord_num(Ordering::Greater) <= ord_num(o)); } else { assert(f.ensures((&v[i],), Ordering::Greater)); } } } } } } }/*-*/
    if ord_eq(cmp) {
      Ok(base)
    } else {
      let result = base + if ord_lt(cmp) { 1usize } else { 0usize };
      Err(result)
    }
  /*@ENDCORE*/ } }
pub fn ord_gt(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater) { match o { Ordering::Greater => true, _ => false } }
pub fn ord_lt(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less) { match o { Ordering::Less => true, _ => false } }
pub fn ord_eq(o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal) { match o { Ordering::Equal => true, _ => false } }
pub fn exec_assert(b: bool) requires b { }
pub fn exec_unreachable() -> ! requires false { loop invariant false decreases 0int { } }

pub trait BEq { spec fn bv(&self) -> Seq<u8>; fn beq<const N: usize>(&self, o: &[u8; N]) -> (r: bool) ensures r == (self.bv() == o@); }
impl BEq for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ }
  #[verifier::external_body] fn beq<const N: usize>(&self, o: &[u8; N]) -> (r: bool) { self == o } }
impl<const M: usize> BEq for [u8; M] { open spec fn bv(&self) -> Seq<u8> { self@ }
  #[verifier::external_body] fn beq<const N: usize>(&self, o: &[u8; N]) -> (r: bool) { self[..] == o[..] } }
impl<T: BEq + ?Sized> BEq for &T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() }
  fn beq<const N: usize>(&self, o: &[u8; N]) -> (r: bool) { (**self).beq(o) } }

pub trait TryIntoArr<const N: usize>: Sized { fn try_into_arr(self) -> (r: Result<[u8; N], ()>) ensures Self::tia_ok(self, r); spec fn tia_ok(s: Self, r: Result<[u8; N], ()>) -> bool; }
impl<const N: usize> TryIntoArr<N> for &[u8] {
  open spec fn tia_ok(s: Self, r: Result<[u8; N], ()>) -> bool { (r is Ok <==> s@.len() == N) && (r is Ok ==> r->Ok_0@ == s@) }
  #[verifier::external_body] fn try_into_arr(self) -> (r: Result<[u8; N], ()>) { unimplemented!() } }

pub trait DivCeil { fn p_div_ceil(self, o: usize) -> (r: usize) requires o > 0; }
impl DivCeil for usize { fn p_div_ceil(self, o: usize) -> (r: usize) ensures r == (self + o - 1) / (o as int) 
  { let q = self / o; let m = self % o; proof { assert(self == q * o + m) by (nonlinear_arith) requires q == self / o, m == self % o, o > 0;
      if m > 0 { assert((self + o - 1) / (o as int) == q + 1) by (nonlinear_arith) requires self == q * o + m, 0 < m < o; assert(q < usize::MAX) by (nonlinear_arith) requires self == q * o + m, m > 0, q >= 0, o >= 1, self <= usize::MAX; }
      else { assert((self + o - 1) / (o as int) == q) by (nonlinear_arith) requires self == q * o, o > 0; } }
    if m > 0 { q + 1 } else { q } } }

// ---------- little endian numbers (the mathematical definition) ----------
pub open spec fn le16(b: Seq<u8>, i: int) -> u16 { (b[i] + 256 * b[i + 1]) as u16 }
pub open spec fn le32(b: Seq<u8>, i: int) -> u32 { (b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 16777216 * b[i + 3]) as u32 }
pub open spec fn le64(b: Seq<u8>, i: int) -> u64 { (le32(b, i) + 4294967296 * le32(b, i + 4)) as u64 }
pub open spec fn le_i32(b: Seq<u8>, i: int) -> i32 { let v = le32(b, i) as int; if v >= 0x8000_0000 { (v - 0x1_0000_0000) as i32 } else { v as i32 } }

// ---------- zerocopy ----------
pub trait SplitByteSlice: Sized { }
pub trait SplitByteSliceMut: SplitByteSlice { }
#[derive(Clone, Copy)] pub struct U16L { pub v: u16 }
impl vstd::std_specs::convert::FromSpecImpl<U16L> for u16 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: U16L) -> u16 { x.v } }
impl From<U16L> for u16 { fn from(x: U16L) -> u16 { x.v } }
#[derive(Clone, Copy)] pub struct U32L { pub v: u32 }
impl vstd::std_specs::convert::FromSpecImpl<U32L> for u32 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: U32L) -> u32 { x.v } }
impl From<U32L> for u32 { fn from(x: U32L) -> u32 { x.v } }
#[derive(Clone, Copy)] pub struct I32L { pub v: i32 }
impl vstd::std_specs::convert::FromSpecImpl<I32L> for i32 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: I32L) -> i32 { x.v } }
impl From<I32L> for i32 { fn from(x: I32L) -> i32 { x.v } }
#[derive(Clone, Copy)] pub struct U64L { pub v: u64 }
impl vstd::std_specs::convert::FromSpecImpl<U64L> for u64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: U64L) -> u64 { x.v } }
impl From<U64L> for u64 { fn from(x: U64L) -> u64 { x.v } }
impl U16L { pub fn get(&self) -> (r: u16) ensures r == self.v { self.v } pub fn set(&mut self, x: u16) ensures final(self).v == x { self.v = x; } }
impl U32L { pub fn get(&self) -> (r: u32) ensures r == self.v { self.v } pub fn set(&mut self, x: u32) ensures final(self).v == x { self.v = x; } }
impl I32L { pub fn get(&self) -> (r: i32) ensures r == self.v { self.v } pub fn set(&mut self, x: i32) ensures final(self).v == x { self.v = x; } }
impl U64L { pub fn get(&self) -> (r: u64) ensures r == self.v { self.v } pub fn set(&mut self, x: u64) ensures final(self).v == x { self.v = x; } }

/// The hive data: owns or borrows bytes (type parameter B of nt-hive).
#[verifier::external_body]
#[verifier::accept_recursive_types(B)]
pub struct Data<B> { b: PhantomData<B> }
impl<B> View for Data<B> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl<B> Data<B> {
  /// identity of the hive object this data belongs to
  pub uninterp spec fn id(&self) -> int;
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), self@.len() <= isize::MAX { unimplemented!() }
}
impl<B> Deref for Data<B> { type Target = [u8]; #[verifier::external_body] fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
impl<B: SplitByteSliceMut> DerefMut for Data<B> { #[verifier::external_body] fn deref_mut(&mut self) -> (r: &mut [u8])
  ensures r@ == old(self)@, final(r)@ == final(self)@, final(self).id() == old(self).id() { unimplemented!() } }

pub trait Layout: Sized {
  spec fn lsize() -> nat;
  spec fn parse(b: Seq<u8>) -> Self;
  /// `b` is what the bytes `o` (parsed as `v0`) become when the fields are set to those of `v`
  spec fn written(o: Seq<u8>, v0: Self, v: Self, b: Seq<u8>) -> bool;
}
pub uninterp spec fn opaque_field<T>(b: Seq<u8>) -> T;
pub uninterp spec fn arr<const N: usize>(b: Seq<u8>) -> [u8; N];
pub broadcast axiom fn axiom_arr<const N: usize>(b: Seq<u8>) requires b.len() == N ensures (#[trigger] arr::<N>(b))@ == b;

/// `x.into()`: `From` of the crate (written by the extractor), of the integers and of zerocopy's integers
pub trait PInto<T>: Sized { spec fn into_req(self) -> bool; spec fn into_ens(self, r: T) -> bool;
  fn p_into(self) -> (r: T) requires self.into_req() ensures self.into_ens(r); }
impl PInto<u16> for u8 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u16) -> bool { r == self } fn p_into(self) -> (r: u16) { self as u16 } }
impl PInto<u32> for u8 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u32) -> bool { r == self } fn p_into(self) -> (r: u32) { self as u32 } }
impl PInto<u64> for u8 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u64) -> bool { r == self } fn p_into(self) -> (r: u64) { self as u64 } }
impl PInto<usize> for u8 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: usize) -> bool { r == self } fn p_into(self) -> (r: usize) { self as usize } }
impl PInto<i16> for u8 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: i16) -> bool { r == self } fn p_into(self) -> (r: i16) { self as i16 } }
impl PInto<i32> for u8 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: i32) -> bool { r == self } fn p_into(self) -> (r: i32) { self as i32 } }
impl PInto<i64> for u8 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: i64) -> bool { r == self } fn p_into(self) -> (r: i64) { self as i64 } }
impl PInto<u32> for u16 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u32) -> bool { r == self } fn p_into(self) -> (r: u32) { self as u32 } }
impl PInto<u64> for u16 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u64) -> bool { r == self } fn p_into(self) -> (r: u64) { self as u64 } }
impl PInto<usize> for u16 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: usize) -> bool { r == self } fn p_into(self) -> (r: usize) { self as usize } }
impl PInto<i32> for u16 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: i32) -> bool { r == self } fn p_into(self) -> (r: i32) { self as i32 } }
impl PInto<i64> for u16 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: i64) -> bool { r == self } fn p_into(self) -> (r: i64) { self as i64 } }
impl PInto<u64> for u32 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u64) -> bool { r == self } fn p_into(self) -> (r: u64) { self as u64 } }
impl PInto<i64> for u32 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: i64) -> bool { r == self } fn p_into(self) -> (r: i64) { self as i64 } }
impl PInto<i64> for i32 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: i64) -> bool { r == self } fn p_into(self) -> (r: i64) { self as i64 } }
impl PInto<u16> for U16L { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u16) -> bool { r == self.v } fn p_into(self) -> (r: u16) { self.v } }
impl PInto<u32> for U16L { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u32) -> bool { r == self.v } fn p_into(self) -> (r: u32) { self.v as u32 } }
impl PInto<u64> for U16L { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u64) -> bool { r == self.v } fn p_into(self) -> (r: u64) { self.v as u64 } }
impl PInto<usize> for U16L { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: usize) -> bool { r == self.v } fn p_into(self) -> (r: usize) { self.v as usize } }
impl PInto<u32> for U32L { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u32) -> bool { r == self.v } fn p_into(self) -> (r: u32) { self.v } }
impl PInto<u64> for U32L { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u64) -> bool { r == self.v } fn p_into(self) -> (r: u64) { self.v as u64 } }
impl PInto<i32> for I32L { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: i32) -> bool { r == self.v } fn p_into(self) -> (r: i32) { self.v } }
impl PInto<i64> for I32L { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: i64) -> bool { r == self.v } fn p_into(self) -> (r: i64) { self.v as i64 } }
impl PInto<u64> for U64L { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: u64) -> bool { r == self.v } fn p_into(self) -> (r: u64) { self.v } }
impl PInto<char> for u8 { open spec fn into_req(self) -> bool { true } open spec fn into_ens(self, r: char) -> bool { r as u32 == self as u32 } fn p_into(self) -> (r: char) { self as char } }

/// position (offset from the start of the hive file) of a header field
#[verifier::external_body] pub struct Addr { p: PhantomData<()> }
impl Addr { pub uninterp spec fn pos(&self) -> int;
  /// the address of a field as an integer; fields lie behind the start of the base block they are compared with
  #[verifier::external_body] pub fn p_usize<P, T>(&self, b: &Ref<P, T>) -> (r: usize) ensures b.mem() <= r, r == b.mem() - b.pos() + self.pos() { unimplemented!() } }

#[derive(Debug)] pub struct CastError { }
#[verifier::external_body]
#[verifier::accept_recursive_types(P)]
#[verifier::accept_recursive_types(T)]
pub struct Ref<P, T> { p: PhantomData<(P, T)> }
impl<P, T> Ref<P, T> {
  pub uninterp spec fn val(&self) -> T;
  pub uninterp spec fn raw(&self) -> Seq<u8>;
  pub uninterp spec fn pos(&self) -> int;
  /// the address of the first byte
  pub uninterp spec fn mem(&self) -> int;
  #[verifier::external_body] pub fn p_usize(r: &Self) -> (a: usize) ensures a == r.mem() { unimplemented!() }
  /// Ref::bytes
  #[verifier::external_body] pub fn bytes(r: &Self) -> (b: &[u8]) ensures b@ == r.raw() { unimplemented!() }
}
impl<P, T> Deref for Ref<P, T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) ensures *r == self.val() { unimplemented!() } }
impl<'a, T: Layout> Ref<&'a [u8], T> {
  #[verifier::external_body] pub fn from_bytes(b: &'a [u8]) -> (r: Result<Self, CastError>)
    ensures r is Ok <==> b@.len() == T::lsize(), r is Ok ==> r->Ok_0.raw() == b@ && r->Ok_0.val() == T::parse(b@) { unimplemented!() }
  /// Ref::from_bytes(&data[range])
  #[verifier::external_body] pub fn from_data<B>(d: &'a Data<B>, range: Range<usize>) -> (r: Result<Self, CastError>)
    requires range.start <= range.end <= d@.len()
    ensures r is Ok <==> range.end - range.start == T::lsize(),
      r is Ok ==> r->Ok_0.raw() == d@.subrange(range.start as int, range.end as int) && r->Ok_0.val() == T::parse(r->Ok_0.raw()) && r->Ok_0.pos() == 4096 + range.start { unimplemented!() }
  /// Ref::from_prefix(&data[range])
  #[verifier::external_body] pub fn from_prefix_data<B>(d: &'a Data<B>, range: Range<usize>) -> (r: Result<(Self, &'a [u8]), CastError>)
    requires range.start <= range.end <= d@.len()
    ensures r is Ok <==> range.end - range.start >= T::lsize(),
      r is Ok ==> r->Ok_0.0.raw() == d@.subrange(range.start as int, range.start + T::lsize()) && r->Ok_0.0.val() == T::parse(r->Ok_0.0.raw()) && r->Ok_0.0.pos() == 4096 + range.start { unimplemented!() }
}
impl<B, T: Layout> Ref<B, T> {
  /// Ref::from_prefix on the whole hive; the lengths of allocations are at most isize::MAX
  #[verifier::external_body] pub fn from_prefix(b: Data<B>) -> (r: Result<(Self, Data<B>), CastError>)
    ensures r is Ok <==> b@.len() >= T::lsize(),
      r is Ok ==> r->Ok_0.0.raw() == b@.subrange(0, T::lsize() as int) && r->Ok_0.0.val() == T::parse(r->Ok_0.0.raw()) && r->Ok_0.0.pos() == 0
        && r->Ok_0.1@ == b@.subrange(T::lsize() as int, b@.len() as int) && b@.len() <= isize::MAX { unimplemented!() }
}
/// Ref<&mut [u8], T>
pub struct RefMut<'a, T> { pub r: &'a mut T }
impl<'a, T> Deref for RefMut<'a, T> { type Target = T; fn deref(&self) -> (r: &T) ensures *r == *old(self.r) { &*self.r } }
impl<'a, T> DerefMut for RefMut<'a, T> { fn deref_mut(&mut self) -> (r: &mut T)
  ensures *r == *old(self).r, *final(self).r == *final(r), *final(final(self).r) == *final(old(self).r) { &mut *self.r } }

impl<'a, T: Layout> RefMut<'a, T> {
  /// Ref::from_bytes(&mut data[range])
  #[verifier::external_body] pub fn from_data<B: SplitByteSliceMut>(d: &'a mut Data<B>, range: Range<usize>) -> (r: Result<Self, CastError>)
    requires range.start <= range.end <= old(d)@.len()
    ensures r is Ok <==> range.end - range.start == T::lsize(),
      final(d).id() == old(d).id(), final(d)@.len() == old(d)@.len(),
      r is Err ==> final(d)@ == old(d)@,
      r is Ok ==> *r->Ok_0.r == T::parse(old(d)@.subrange(range.start as int, range.end as int))
        && (forall|i: int| 0 <= i < old(d)@.len() && !(range.start <= i < range.end) ==> #[trigger] final(d)@[i] == old(d)@[i])
        && T::written(old(d)@.subrange(range.start as int, range.end as int), *r->Ok_0.r, *final(r->Ok_0.r), final(d)@.subrange(range.start as int, range.end as int)) { unimplemented!() }
}
#[verifier::external_body] pub fn ptr_eq<T>(a: &T, b: &T) -> (r: bool) where T: ObjId ensures r == (a.oid() == b.oid()) { unimplemented!() }
pub trait ObjId { spec fn oid(&self) -> int; }

// ---------- iterators of core (std iterator protocol over the remaining elements) ----------
pub trait PIter: Sized {
  type Item;
  spec fn wf(&self) -> bool;
  spec fn rest(&self) -> Seq<Self::Item>;
  fn next(&mut self) -> (r: Option<Self::Item>)
    requires old(self).wf()
    ensures final(self).wf(),
      r is Some <==> old(self).rest().len() > 0,
      r is Some ==> r->Some_0 == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
      r is None ==> final(self).rest() == old(self).rest();
}
pub uninterp spec fn mk_slice<'a>(s: Seq<u8>) -> &'a [u8];
pub broadcast axiom fn axiom_mk_slice(s: Seq<u8>) ensures (#[trigger] mk_slice(s))@ == s;
pub axiom fn axiom_slice_ext(a: &[u8], b: &[u8]) requires a@ == b@ ensures a == b;

pub struct SliceIter<'a> { pub s: &'a [u8], pub i: usize }
impl<'a> PIter for SliceIter<'a> {
  type Item = &'a u8;
  open spec fn wf(&self) -> bool { self.i <= self.s@.len() }
  open spec fn rest(&self) -> Seq<&'a u8> { Seq::new((self.s@.len() - self.i) as nat, |j: int| &self.s@[self.i + j]) }
  fn next(&mut self) -> (r: Option<&'a u8>) {
    if self.i < self.s.len() { let x = &self.s[self.i]; self.i = self.i + 1;
      proof { assert(self.rest() =~= old(self).rest().drop_first()); } Some(x) } else { None }
  }
}
/// core::slice::ChunksExact
pub struct ChunksExact<'a> { pub v: &'a [u8], pub chunk_size: usize }
impl<'a> ChunksExact<'a> { pub open spec fn count(&self) -> int { self.v@.len() as int / self.chunk_size as int }
  pub fn new(slice: &'a [u8], chunk_size: usize) -> (r: Self) requires chunk_size > 0 ensures r.chunk_size == chunk_size, r.wf(),
    r.rest() == Seq::new((slice@.len() as int / chunk_size as int) as nat, |j: int| mk_slice(slice@.subrange(chunk_size * j, chunk_size * j + chunk_size)))
  { /*@CORE slice/iter.rs ChunksExact::new*/
    let rem = slice.len() % chunk_size;
    /*+*/proof { lemma_chunks(slice@.len() as int, chunk_size as int); }/*-*/
    let fst_len = slice.len() - rem;
    let (fst, snd) = slice.split_at(fst_len);
    /*+*/let r =/*-*/ Self { v: fst, chunk_size }
    /*+*/;
    proof { assert(r.rest() =~= Seq::new((slice@.len() as int / chunk_size as int) as nat, |j: int| mk_slice(slice@.subrange(chunk_size * j, chunk_size * j + chunk_size)))) by {
      assert(forall|j: int| 0 <= j < r.count() ==> #[trigger] r.rest()[j] == mk_slice(chunk_of(fst@, chunk_size as int, j)));
      assert forall|j: int| 0 <= j < fst@.len() as int / chunk_size as int implies #[trigger] chunk_of(fst@, chunk_size as int, j) == chunk_of(slice@, chunk_size as int, j) by {
        lemma_chunk_in(fst@.len() as int, chunk_size as int, j);
        assert(fst@.subrange(chunk_size * j, chunk_size * j + chunk_size) =~= slice@.subrange(chunk_size * j, chunk_size * j + chunk_size)); } } }
    r/*-*/
  /*@ENDCORE*/ }
}
pub open spec fn chunk_of(v: Seq<u8>, c: int, j: int) -> Seq<u8> { v.subrange(c * j, c * j + c) }
pub proof fn lemma_chunks(n: int, c: int) requires n >= 0, c > 0 ensures 0 <= n % c < c, n % c <= n, (n - n % c) / c == n / c, (n - n % c) % c == 0
{ assert(n == c * (n / c) + n % c && 0 <= n % c < c && n / c >= 0) by (nonlinear_arith) requires n >= 0, c > 0;
  let q = n / c; assert((c * q) / c == q && (c * q) % c == 0) by (nonlinear_arith) requires c > 0; assert(c * q >= 0) by (nonlinear_arith) requires q >= 0, c > 0; }
pub proof fn lemma_chunk_in(n: int, c: int, j: int) requires n >= 0, c > 0, 0 <= j < n / c ensures 0 <= c * j, c * j + c <= n
{ assert(c * j + c <= n && 0 <= c * j) by (nonlinear_arith) requires n >= 0, c > 0, 0 <= j < n / c; }
impl<'a> PIter for ChunksExact<'a> {
  type Item = &'a [u8];
  open spec fn wf(&self) -> bool { self.chunk_size > 0 && self.v@.len() as int % self.chunk_size as int == 0 }
  open spec fn rest(&self) -> Seq<&'a [u8]> { Seq::new(self.count() as nat, |j: int| mk_slice(self.v@.subrange(self.chunk_size * j, self.chunk_size * j + self.chunk_size))) }
  fn next(&mut self) -> (r: Option<&'a [u8]>) { /*@CORE slice/iter.rs ChunksExact::next*/
    /*+*/proof { lemma_ce_next(self.v@.len() as int, self.chunk_size as int); broadcast use axiom_mk_slice; }/*-*/
    match split_at_checked(self.v, self.chunk_size) { None => None, Some((chunk, rest)) => {
      self.v = rest;
      /*+*/proof { let c = self.chunk_size as int; let o = old(self).v@;
        assert(o.subrange(c * 0, c * 0 + c) =~= chunk@); axiom_slice_ext(chunk, mk_slice(o.subrange(c * 0, c * 0 + c)));
        assert(self.rest() =~= old(self).rest().drop_first()) by {
          assert(forall|j: int| 0 <= j < self.count() ==> #[trigger] self.rest()[j] == mk_slice(chunk_of(self.v@, c, j)));
          assert forall|j: int| 0 <= j < self.count() implies #[trigger] chunk_of(self.v@, c, j) == chunk_of(o, c, j + 1) by {
            lemma_chunk_in(self.v@.len() as int, c, j); assert(c * (j + 1) == c * j + c) by (nonlinear_arith);
            assert(self.v@.subrange(c * j, c * j + c) =~= o.subrange(c * (j + 1), c * (j + 1) + c)); } } }/*-*/
      Some(chunk)
    } }
  /*@ENDCORE*/ }
}
pub proof fn lemma_ce_next(n: int, c: int) requires n >= 0, c > 0, n % c == 0 ensures n / c >= 0, n < c <==> n / c == 0, n >= c ==> (n - c) % c == 0 && (n - c) / c == n / c - 1
{ let q = n / c; assert(n == c * q) by (nonlinear_arith) requires n % c == 0, c > 0, q == n / c;
  assert(q >= 0) by (nonlinear_arith) requires n >= 0, c > 0, n == c * q;
  if n >= c { assert(n - c == c * (q - 1)) by (nonlinear_arith) requires n == c * q; let p = q - 1; vstd::arithmetic::div_mod::lemma_div_multiples_vanish(p, c); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(p, c); vstd::arithmetic::mul::lemma_mul_is_commutative(p, c);
    assert(q >= 1) by (nonlinear_arith) requires n >= c, c > 0, n == c * q; } else { assert(q < 1) by (nonlinear_arith) requires n < c, c > 0, n == c * q, n >= 0; } }
/// <[u8]>::split_at_checked
pub fn split_at_checked<'a>(s: &'a [u8], mid: usize) -> (r: Option<(&'a [u8], &'a [u8])>)
  ensures r is Some <==> mid <= s@.len(), r is Some ==> r->Some_0.0@ == s@.subrange(0, mid as int) && r->Some_0.1@ == s@.subrange(mid as int, s@.len() as int)
{ /*@CORE slice/mod.rs split_at_checked*/
  if mid <= s.len() { Some(s.split_at(mid)) } else { None }
  /*@ENDCORE*/ }
pub struct PMap<I, F> { pub i: I, pub f: F }
pub open spec fn f_out<A, O, F: FnOnce(A) -> O>(f: F, a: A) -> O { choose|o: O| f.ensures((a,), o) }
pub open spec fn f_det<A, O, F: FnOnce(A) -> O>(f: F) -> bool { forall|a: A, o1: O, o2: O| #[trigger] f.ensures((a,), o1) && #[trigger] f.ensures((a,), o2) ==> o1 == o2 }
impl<I: PIter, O, F: Fn(I::Item) -> O> PIter for PMap<I, F> {
  type Item = O;
  open spec fn wf(&self) -> bool { self.i.wf() && f_det(self.f) && forall|k: int| 0 <= k < self.i.rest().len() ==> self.f.requires((#[trigger] self.i.rest()[k],)) }
  open spec fn rest(&self) -> Seq<O> { Seq::new(self.i.rest().len(), |j: int| f_out(self.f, self.i.rest()[j])) }
  fn next(&mut self) -> (r: Option<O>) {
    let ghost o = self.i.rest();
    match self.i.next() {
      None => { assert(self.rest() =~= old(self).rest()); None }
      Some(x) => { 
        proof { assert(o[0] == x); assert forall|k: int| 0 <= k < self.i.rest().len() implies self.f.requires((#[trigger] self.i.rest()[k],)) by { assert(self.i.rest()[k] == o[k + 1]); } }
        let y = (self.f)(x);
        proof { assert(self.rest() =~= old(self).rest().drop_first()); }
        Some(y) }
    }
  }
}
/// a closure that may be called returns (T: calls of the closures of nt-hive terminate; they are single expressions)
pub broadcast axiom fn axiom_f_total<A, O, F: Fn(A) -> O>(f: F, a: A) requires f.requires((a,)) ensures f.ensures((a,), #[trigger] f_out::<A, O, F>(f, a));
/// Iterator::collect into a String (FromIterator<char>: push of every item) and into an Option<String> (up to the first None)
pub trait PCollect<T>: Sized { spec fn collected(s: Seq<T>, r: Self) -> bool;
  fn collect_from<I: PIter<Item = T>>(it0: I) -> (r: Self) requires it0.wf() ensures Self::collected(it0.rest(), r); }
impl PCollect<char> for PStr { open spec fn collected(s: Seq<char>, r: Self) -> bool { r@ == s }
  fn collect_from<I: PIter<Item = char>>(it0: I) -> (r: Self) {
    let mut it = it0; let mut r = PStr::new(); let ghost o = it.rest();
    loop invariant it.wf(), o == it0.rest(), r@ + it.rest() == o decreases it.rest().len() {
      let ghost p = it.rest(); let ghost q = r@;
      match it.next() { None => { proof { assert(r@ =~= o); } return r; }
        Some(c) => { r.push(c); proof { assert(r@ + it.rest() =~= q + p); } } } } } }
impl PCollect<Option<char>> for Option<PStr> { open spec fn collected(s: Seq<Option<char>>, r: Self) -> bool {
  &&& r is Some <==> (forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] is Some)
  &&& r is Some ==> r->Some_0@ == s.map_values(|o: Option<char>| o->Some_0) }
  fn collect_from<I: PIter<Item = Option<char>>>(it0: I) -> (r: Self) {
    let mut it = it0; let mut r = PStr::new(); let ghost o = it.rest();
    loop invariant it.wf(), o == it0.rest(), r@.len() + it.rest().len() == o.len(), it.rest() == o.subrange(r@.len() as int, o.len() as int), forall|k: int| 0 <= k < r@.len() ==> #[trigger] o[k] == Some(r@[k]) decreases it.rest().len() {
      let ghost p = it.rest(); let ghost q = r@;
      match it.next() { None => { proof { assert(r@ =~= o.map_values(|o: Option<char>| o->Some_0)); } return Some(r); }
        Some(None) => { proof { assert(o[q.len() as int] == p[0]); } return None; }
        Some(Some(c)) => { r.push(c); proof { assert(o[q.len() as int] == p[0]); assert(it.rest() =~= o.subrange(r@.len() as int, o.len() as int)); } } } } } }
pub trait OptExt<T>: Sized { spec fn ov(self) -> Option<T>;
  fn p_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) requires self.ov() is Some ==> f.requires((self.ov()->Some_0,))
   ensures r is Some <==> self.ov() is Some, r is Some ==> f.ensures((self.ov()->Some_0,), r->Some_0); }
impl<T> OptExt<T> for Option<T> { open spec fn ov(self) -> Option<T> { self }
  fn p_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } } }
pub trait PIterExt: PIter { 
  fn p_collect<C: PCollect<Self::Item>>(self) -> (r: C) requires self.wf() ensures C::collected(self.rest(), r);
  fn p_map<O, F: Fn(Self::Item) -> O>(self, f: F) -> (r: PMap<Self, F>)
    requires self.wf(), f_det(f), forall|k: int| 0 <= k < self.rest().len() ==> f.requires((#[trigger] self.rest()[k],))
    ensures r.wf(), r.i == self, r.f == f, r.rest().len() == self.rest().len(), forall|k: int| #![trigger r.rest()[k]] #![trigger self.rest()[k]] 0 <= k < self.rest().len() ==> f.ensures((self.rest()[k],), r.rest()[k]); }
impl<I: PIter> PIterExt for I {
  fn p_collect<C: PCollect<Self::Item>>(self) -> (r: C) { C::collect_from(self) }
  fn p_map<O, F: Fn(Self::Item) -> O>(self, f: F) -> (r: PMap<Self, F>) { let r = PMap { i: self, f };
    proof { broadcast use axiom_f_total; assert forall|k: int| #![trigger r.rest()[k]] #![trigger self.rest()[k]] 0 <= k < self.rest().len() implies f.ensures((self.rest()[k],), r.rest()[k]) by { assert(f.requires((self.rest()[k],))); assert(r.rest()[k] == f_out::<I::Item, O, F>(f, self.rest()[k])); } } r }
}
pub trait SliceExt {
  spec fn sv(&self) -> Seq<u8>;
  fn p_iter<'a>(&'a self) -> (r: SliceIter<'a>) ensures r.i == 0, r.s@ == self.sv(), r.wf();
  fn p_chunks_exact<'a>(&'a self, n: usize) -> (r: ChunksExact<'a>) requires n > 0 ensures r.wf(), r.chunk_size == n, r.rest() == Seq::new((self.sv().len() as int / n as int) as nat, |j: int| mk_slice(self.sv().subrange(n * j, n * j + n)));
  fn p_chunks<'a>(&'a self, n: usize) -> (r: Chunks<'a>) requires n > 0 ensures r.s@ == self.sv(), r.n == n;
  fn p_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.sv();
}
impl SliceExt for [u8] {
  open spec fn sv(&self) -> Seq<u8> { self@ }
  fn p_iter<'a>(&'a self) -> (r: SliceIter<'a>) { SliceIter { s: self, i: 0 } }
  fn p_chunks_exact<'a>(&'a self, n: usize) -> (r: ChunksExact<'a>) { ChunksExact::new(self, n) }
  fn p_chunks<'a>(&'a self, n: usize) -> (r: Chunks<'a>) { Chunks { s: self, n } }
  #[verifier::external_body] fn p_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
/// core::slice::Chunks
pub struct Chunks<'a> { pub s: &'a [u8], pub n: usize }
impl<'a> Chunks<'a> {
  pub fn next(&mut self) -> (r: Option<&'a [u8]>)
    requires old(self).n > 0
    ensures final(self).n == old(self).n, r is Some <==> old(self).s@.len() > 0,
      r is None ==> final(self).s == old(self).s,
      r is Some ==> ({ let k = if old(self).s@.len() < old(self).n { old(self).s@.len() as int } else { old(self).n as int };
        r->Some_0@ == old(self).s@.subrange(0, k) && final(self).s@ == old(self).s@.subrange(k, old(self).s@.len() as int) })
  { /*@CORE slice/iter.rs Chunks::next*/
    if self.s.len() == 0 {
      None
    } else {
      let chunksz = pcmp::min(self.s.len(), self.n);
      let (fst, snd) = self.s.split_at(chunksz);
      self.s = snd;
      Some(fst)
    }
  /*@ENDCORE*/ }
}

// ---------- text ----------
pub struct PStr { pub v: Vec<char> }
impl View for PStr { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.v@ } }
impl PStr {
  pub fn new() -> (r: PStr) ensures r@ == Seq::<char>::empty() { PStr { v: Vec::new() } }
  pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { self.v.push(c); }
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
  #[verifier::external_body] pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { }
}
/// core::fmt::Formatter: what has been written, and whether the sink has failed
#[verifier::external_body] pub struct Fmt { p: PhantomData<u8> }
pub struct FmtError { }
pub type FmtResult = Result<(), FmtError>;
impl View for Fmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Fmt {
  pub uninterp spec fn broken(&self) -> bool;
  #[verifier::external_body] pub fn write_char(&mut self, c: char) -> (r: FmtResult)
    ensures r is Ok ==> final(self)@ == old(self)@.push(c), r is Err ==> final(self).broken() { unimplemented!() }
  #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: FmtResult)
    ensures r is Ok ==> final(self)@ == old(self)@ + s@, r is Err ==> final(self).broken() { unimplemented!() }
}
pub fn char_from_u32(i: u32) -> (r: Option<char>)
  ensures r is Some <==> (i < 0xd800 || 0xe000 <= i < 0x11_0000), r is Some ==> r->Some_0 as u32 == i
{ /*+*/proof { lemma_u32_char(i); }/*-*/
  /*@CORE char/convert.rs char_try_from_u32*/
  if (i ^ 0xD800).wrapping_sub(0x800) >= 0x110000 - 0x800 { None } else { Some( char_from_u32_unchecked(i) ) }
  /*@ENDCORE*/ }
pub proof fn lemma_u32_char(i: u32) ensures ({ let x = i ^ 0xD800; (x >= 0x800 && x - 0x800 >= 0x110000 - 0x800) || x < 0x800 <==> !(i < 0xd800 || 0xe000 <= i < 0x11_0000) })
{ assert(((i ^ 0xD800) < 0x800 || (i ^ 0xD800) >= 0x110000u32) <==> !(i < 0xd800 || 0xe000 <= i < 0x11_0000u32)) by (bit_vector); }

/// decoding of UTF-16: None for an unpaired surrogate
pub open spec fn is_high(u: u16) -> bool { 0xd800 <= u <= 0xdbff }
pub open spec fn is_low(u: u16) -> bool { 0xdc00 <= u <= 0xdfff }
pub open spec fn pair_code(h: u16, l: u16) -> int { 0x1_0000 + (h - 0xd800) * 0x400 + (l - 0xdc00) }
pub open spec fn char_of(x: int) -> char { x as char }
pub open spec fn decode16(u: Seq<u16>) -> Seq<Option<char>> decreases u.len() {
  if u.len() == 0 { Seq::empty() }
  else if u.len() >= 2 && is_high(u[0]) && is_low(u[1]) { seq![Some(char_of(pair_code(u[0], u[1])))] + decode16(u.subrange(2, u.len() as int)) }
  else if is_high(u[0]) || is_low(u[0]) { seq![None] + decode16(u.drop_first()) }
  else { seq![Some(char_of(u[0] as int))] + decode16(u.drop_first()) }
}
#[derive(Debug)] pub struct DecodeError { }
pub struct DecodeUtf16<I> { pub iter: I, pub buf: Option<u16> }
pub open spec fn dec_item(o: Option<char>) -> Result<char, DecodeError> { match o { Some(c) => Ok(c), None => Err(DecodeError { }) } }
pub open spec fn buf_seq(b: Option<u16>) -> Seq<u16> { match b { Some(x) => seq![x], None => Seq::empty() } }
pub open spec fn dec_items(u: Seq<u16>) -> Seq<Result<char, DecodeError>> { Seq::new(decode16(u).len(), |k: int| dec_item(decode16(u)[k])) }
/// u16::is_utf16_surrogate
pub fn is_utf16_surrogate(u: u16) -> (r: bool) ensures r == (is_high(u) || is_low(u)) { /*@CORE num/mod.rs is_utf16_surrogate*/ matches!(u, 0xD800..=0xDFFF) /*@ENDCORE*/ }
/// char::from(u8): the cast
pub fn char_from_u8(x: u8) -> (r: char) ensures r == x as char { x as char }
/// char::from_u32_unchecked
#[verifier::external_body] pub fn char_from_u32_unchecked(x: u32) -> (r: char) requires x < 0xd800 || 0xe000 <= x < 0x11_0000 ensures r as u32 == x, r == char_of(x as int) { unsafe { char::from_u32_unchecked(x) } }
pub proof fn lemma_pair(h: u16, l: u16) requires is_high(h), is_low(l)
  ensures ((((h & 0x3ff) as u32) << 10 | (l & 0x3ff) as u32) + 0x1_0000) as int == pair_code(h, l), 0x1_0000 <= pair_code(h, l) < 0x11_0000, (((h & 0x3ff) as u32) << 10 | (l & 0x3ff) as u32) < 0x10_0000
{ assert(0xd800 <= h <= 0xdbff && 0xdc00 <= l <= 0xdfff ==> (((h & 0x3ff) as u32) << 10 | (l & 0x3ff) as u32) == (sub(h, 0xd800) as u32) * 0x400u32 + (sub(l, 0xdc00) as u32)) by (bit_vector);
  assert(sub(h, 0xd800) == h - 0xd800); assert(sub(l, 0xdc00) == l - 0xdc00); }
impl<I: PIter<Item = u16>> PIter for DecodeUtf16<I> {
  type Item = Result<char, DecodeError>;
  open spec fn wf(&self) -> bool { self.iter.wf() }
  open spec fn rest(&self) -> Seq<Result<char, DecodeError>> { dec_items(buf_seq(self.buf) + self.iter.rest()) }
  fn next(&mut self) -> (r: Option<Result<char, DecodeError>>) { 
    /*+*/let ghost us = buf_seq(self.buf) + self.iter.rest(); proof { reveal_with_fuel(decode16, 2); }/*-*/
    /*@CORE char/decode.rs DecodeUtf16::next*/
    let u = match self.buf.take() {
      Some(buf) => buf,
      None => self.iter.next()?,
    };
    /*+*/proof { assert(us.len() > 0 && us[0] == u); assert(us.drop_first() =~= self.iter.rest()); }/*-*/
    if !is_utf16_surrogate(u) {
      /*+*/proof { assert(buf_seq(self.buf) + self.iter.rest() =~= us.drop_first()); assert(self.rest() =~= old(self).rest().drop_first()); }/*-*/
      Some(Ok( char_from_u32_unchecked(u as u32) ))
    } else if u >= 0xDC00 {
      /*+*/proof { assert(buf_seq(self.buf) + self.iter.rest() =~= us.drop_first()); assert(self.rest() =~= old(self).rest().drop_first()); }/*-*/
      Some(Err(DecodeError { }))
    } else {
      let u2 = match self.iter.next() {
        Some(u2) => u2,
        None => { /*+*/proof { assert(buf_seq(self.buf) + self.iter.rest() =~= us.drop_first()); assert(self.rest() =~= old(self).rest().drop_first()); }/*-*/ return Some(Err(DecodeError { })) },
      };
      /*+*/proof { assert(us.len() > 1 && us[1] == u2); assert(us.subrange(2, us.len() as int) =~= self.iter.rest()); }/*-*/
      if u2 < 0xDC00 || u2 > 0xDFFF {
        self.buf = Some(u2);
        /*+*/proof { assert(buf_seq(self.buf) + self.iter.rest() =~= us.drop_first()); assert(self.rest() =~= old(self).rest().drop_first()); }/*-*/
        return Some(Err(DecodeError { }));
      }
      /*+*/proof { lemma_pair(u, u2); assert(buf_seq(self.buf) + self.iter.rest() =~= us.subrange(2, us.len() as int)); assert(self.rest() =~= old(self).rest().drop_first()); }/*-*/
      let c = (((u & 0x3ff) as u32) << 10 | (u2 & 0x3ff) as u32) + 0x1_0000;
      Some(Ok( char_from_u32_unchecked(c) ))
    }
  /*@ENDCORE*/ }
}
/// char::decode_utf16
pub fn decode_utf16<I: PIter<Item = u16>>(iter: I) -> (r: DecodeUtf16<I>) requires iter.wf()
  ensures r.wf(), r.rest().len() == decode16(iter.rest()).len(), forall|k: int| #![trigger r.rest()[k]] #![trigger decode16(iter.rest())[k]] 0 <= k < r.rest().len() ==> r.rest()[k] == dec_item(decode16(iter.rest())[k])
{ /*+*/proof { assert(buf_seq(None) + iter.rest() =~= iter.rest()); }/*-*/ /*@CORE char/decode.rs decode_utf16*/ DecodeUtf16 { iter: iter, buf: None } /*@ENDCORE*/ }

/// UTF-16 encoding of a sequence of characters
pub open spec fn utf16(s: Seq<char>) -> Seq<u16> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else {
    let c = s[0] as u32;
    (if c < 0x1_0000 { seq![c as u16] } else { seq![(0xd800 + (c - 0x1_0000) / 0x400) as u16, (0xdc00 + (c - 0x1_0000) % 0x400) as u16] }) + utf16(s.drop_first())
  }
}
/// core::str::Chars
#[verifier::external_body] pub struct Chars<'a> { p: PhantomData<&'a u8> }
impl<'a> PIter for Chars<'a> { type Item = char; open spec fn wf(&self) -> bool { true } uninterp spec fn rest(&self) -> Seq<char>;
  #[verifier::external_body] fn next(&mut self) -> (r: Option<char>) { unimplemented!() } }
pub open spec fn utf16c(ch: char) -> Seq<u16> { let c = ch as u32;
  if c < 0x1_0000 { seq![c as u16] } else { seq![(0xd800 + (c - 0x1_0000) / 0x400) as u16, (0xdc00 + (c - 0x1_0000) % 0x400) as u16] } }
/// char::encode_utf16 into a buffer of two units, and the number of units it wrote
pub fn char_encode_utf16(ch: char, dst: &mut [u16; 2]) -> (n: usize)
  ensures n == utf16c(ch).len(), forall|k: int| 0 <= k < n ==> final(dst)@[k] == #[trigger] utf16c(ch)[k]
{ let mut code = ch as u32; /*@CORE char/methods.rs encode_utf16_raw*/
  let len = len_utf16(code);
  match len {
    1 => {
      dst[0] = code as u16;
    }
    2 => {
      code -= 0x1_0000;
      /*+*/proof { assert(code < 0x10_0000u32 ==> ((code >> 10) as u16 | 0xD800u16) == 0xd800u32 + code / 0x400u32) by (bit_vector); assert(code < 0x10_0000u32 ==> ((code & 0x3FF) as u16 | 0xDC00u16) == 0xdc00u32 + code % 0x400u32) by (bit_vector); }/*-*/
      dst[0] = (code >> 10) as u16 | 0xD800;
      dst[1] = (code & 0x3FF) as u16 | 0xDC00;
    }
    _ => { exec_unreachable(); }
  };
  len
  /*@ENDCORE*/ }
fn len_utf16(code: u32) -> (r: usize) ensures r == (if code < 0x1_0000 { 1int } else { 2 }) {
  /*+*/proof { assert((code & 0xFFFF) == code <==> code < 0x1_0000u32) by (bit_vector); }/*-*/
  /*@CORE char/methods.rs len_utf16*/ if (code & 0xFFFF) == code { 1 } else { 2 } /*@ENDCORE*/ }
pub struct EncodeUtf16<'a> { pub chars: Chars<'a>, pub extra: u16 }
impl<'a> PIter for EncodeUtf16<'a> { type Item = u16;
  open spec fn wf(&self) -> bool { true }
  open spec fn rest(&self) -> Seq<u16> { (if self.extra != 0 { seq![self.extra] } else { Seq::empty() }) + utf16(self.chars.rest()) }
  fn next(&mut self) -> (r: Option<u16>) { /*@CORE str/iter.rs EncodeUtf16::next*/
    /*+*/let ghost o = self.rest();/*-*/
    if self.extra != 0 {
      let tmp = self.extra;
      self.extra = 0;
      /*+*/proof { assert(self.rest() =~= o.drop_first()); }/*-*/
      return Some(tmp);
    }
    let mut buf = [0; 2];
    /*+*/proof { reveal_with_fuel(utf16, 2); assert(o =~= utf16(self.chars.rest())); }
    let ghost cs = self.chars.rest();/*-*/
    match self.chars.next() { None => None, Some(ch) => {
      let n = char_encode_utf16(ch, &mut buf);
      if n == 2 {
        self.extra = buf[1];
      }
      /*+*/proof { assert(o == utf16c(ch) + utf16(cs.drop_first())); assert(utf16c(ch).len() > 0 && buf@[0] == utf16c(ch)[0]);
        assert(self.rest() =~= o.drop_first()); }/*-*/
      Some(buf[0])
    } }
  /*@ENDCORE*/ } }
/// str::split by a character: the parts between the separators
pub open spec fn split_at(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
  if s.len() == 0 { seq![Seq::empty()] }
  else { let t = split_at(s.drop_first(), c); if s[0] == c { seq![Seq::empty()] + t } else { seq![seq![s[0]] + t[0]] + t.drop_first() } }
}
#[verifier::external_body] pub struct StrSplit<'a> { p: PhantomData<&'a u8> }
impl<'a> StrSplit<'a> {
  pub uninterp spec fn parts(&self) -> Seq<Seq<char>>;
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
    ensures r is Some <==> old(self).parts().len() > 0, r is None ==> final(self).parts() == old(self).parts(),
      r is Some ==> r->Some_0@ == old(self).parts()[0] && final(self).parts() == old(self).parts().drop_first() { unimplemented!() }
}
/// str::chars
#[verifier::external_body] pub fn str_chars<'a>(s: &'a str) -> (r: Chars<'a>) ensures r.rest() == s@ { unimplemented!() }
pub trait StrExt { 
  spec fn cv(&self) -> Seq<char>;
  fn p_split<'a>(&'a self, c: char) -> (r: StrSplit<'a>) ensures r.parts() == split_at(self.cv(), c);
  fn p_encode_utf16<'a>(&'a self) -> (r: EncodeUtf16<'a>) ensures r.rest() == utf16(self.cv());
}
impl StrExt for str {
  open spec fn cv(&self) -> Seq<char> { self@ }
  #[verifier::external_body] fn p_split<'a>(&'a self, c: char) -> (r: StrSplit<'a>) { unimplemented!() }
  fn p_encode_utf16<'a>(&'a self) -> (r: EncodeUtf16<'a>) { let r = EncodeUtf16 { chars: str_chars(self), extra: 0 }; proof { assert(r.rest() =~= utf16(self@)); } r }
}
} // mod dep

pub mod lib {
pub use vstd::prelude::*;
pub use vstd::std_specs::cmp::*;
pub use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl};
pub use core::ops::{Deref, DerefMut, Range};
pub use core::cmp::Ordering;
pub use super::dep::*;
pub use super::dep::pcmp as cmp;
broadcast use {axiom_range_obeys, axiom_range_eq, axiom_ord_obeys, axiom_ord_eq, lemma_eq_sa, lemma_eq_as, lemma_eq_ss, axiom_array_ext, axiom_arr, axiom_mk_slice, axiom_f_total, lemma_lit2, lemma_lit4, lemma_top, lemma_low, lemma_low2, lemma_shl10};
/*@LIB*/
} // mod lib
} // verus!
fn main() {}

@@fn static table
    ensures $NAME@ == tbl() //[C07]
@@fn utf16_code_unit_to_uppercase
    ensures ret == up(unit), //[C07]
@entry
    proof { lemma_tbl_sorted(); lemma_up(unit); }
@closure 0
|x__: &(u16, u16)| -> (o: Ordering) ensures o == unit_order(x__.0, unit)
@@item
/// the order of two code units as numbers
pub open spec fn unit_order(a: u16, b: u16) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
/// simple uppercase mapping of a UTF-16 code unit (simple case mappings of Unicode 13 within the Basic Multilingual Plane)
#[verifier::opaque] pub open spec fn up(u: u16) -> u16 {
    if exists|i: int| 0 <= i < tbl().len() && #[trigger] tbl()[i].0 == u { tbl()[choose|i: int| 0 <= i < tbl().len() && #[trigger] tbl()[i].0 == u].1 } else { u }
}
pub proof fn lemma_up(u: u16)
    ensures forall|i: int| 0 <= i < tbl().len() && #[trigger] tbl()[i].0 == u ==> up(u) == tbl()[i].1,
        (forall|i: int| 0 <= i < tbl().len() ==> #[trigger] tbl()[i].0 != u) ==> up(u) == u,
{ reveal(up); lemma_tbl_sorted(); }
/// unpaired surrogates become U+FFFD
pub open spec fn lossy(t: Seq<Option<char>>) -> Seq<char> { t.map_values(|o: Option<char>| match o { Some(c) => c, None => '\u{FFFD}' }) }
pub open spec fn latin1_units(b: Seq<u8>) -> Seq<u16> { Seq::new(b.len(), |i: int| b[i] as u16) }
pub open spec fn utf16le_units(b: Seq<u8>) -> Seq<u16> { Seq::new((b.len() / 2) as nat, |i: int| le16(b, 2 * i)) }
/// C07: lexicographic order of the uppercased code units
pub open spec fn cmp_units(a: Seq<u16>, b: Seq<u16>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if up(a[0]) < up(b[0]) { Ordering::Less }
    else if up(a[0]) > up(b[0]) { Ordering::Greater }
    else { cmp_units(a.drop_first(), b.drop_first()) }
}
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
/*@FN lemma C07 comparison is antisymmetric*/ pub proof fn lemma_cmp_anti(a: Seq<u16>, b: Seq<u16>)
    ensures cmp_units(a, b) == rev(cmp_units(b, a)), //[C07]
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_cmp_anti(a.drop_first(), b.drop_first()); } } /*@END*/
/*@FN lemma C07 comparison is reflexive*/ pub proof fn lemma_cmp_refl(a: Seq<u16>)
    ensures cmp_units(a, a) == Ordering::Equal, //[C07]
    decreases a.len()
{ if a.len() > 0 { lemma_cmp_refl(a.drop_first()); } } /*@END*/
/*@FN lemma C07 comparison is transitive*/ pub proof fn lemma_cmp_trans(a: Seq<u16>, b: Seq<u16>, c: Seq<u16>)
    ensures
        cmp_units(a, b) == Ordering::Less && cmp_units(b, c) != Ordering::Greater ==> cmp_units(a, c) == Ordering::Less, //[C07]
        cmp_units(a, b) != Ordering::Greater && cmp_units(b, c) == Ordering::Less ==> cmp_units(a, c) == Ordering::Less, //[C07]
        cmp_units(a, b) == Ordering::Equal && cmp_units(b, c) == Ordering::Equal ==> cmp_units(a, c) == Ordering::Equal, //[C07]
        cmp_units(a, b) == Ordering::Equal && cmp_units(b, c) == Ordering::Greater ==> cmp_units(a, c) == Ordering::Greater, //[C07]
        cmp_units(a, b) == Ordering::Greater && cmp_units(b, c) != Ordering::Less ==> cmp_units(a, c) == Ordering::Greater, //[C07]
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 { lemma_cmp_trans(a.drop_first(), b.drop_first(), c.drop_first()); } } /*@END*/
/*@FN lemma C07 a proper prefix comes first*/ pub proof fn lemma_cmp_prefix(a: Seq<u16>, b: Seq<u16>)
    requires b.len() > 0
    ensures cmp_units(a, a + b) == Ordering::Less, //[C07]
    decreases a.len()
{ if a.len() > 0 { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_cmp_prefix(a.drop_first(), b); } } /*@END*/
/*@FN lemma C07 equality, order and comparison of names agree*/ pub proof fn lemma_cmp_agree<'a>(a: NtHiveNameString<'a>, b: NtHiveNameString<'a>, s: &str)
    ensures
        <NtHiveNameString<'a> as PartialEqSpec<NtHiveNameString<'a>>>::eq_spec(&a, &b) <==> <NtHiveNameString<'a> as OrdSpec>::cmp_spec(&a, &b) == Ordering::Equal, //[C07]
        <NtHiveNameString<'a> as PartialOrdSpec<NtHiveNameString<'a>>>::partial_cmp_spec(&a, &b) == Some(<NtHiveNameString<'a> as OrdSpec>::cmp_spec(&a, &b)), //[C07]
        <NtHiveNameString<'a> as OrdSpec>::cmp_spec(&a, &b) == rev(<NtHiveNameString<'a> as OrdSpec>::cmp_spec(&b, &a)), //[C07]
        <NtHiveNameString<'a> as PartialEqSpec<str>>::eq_spec(&a, s) <==> <NtHiveNameString<'a> as PartialOrdSpec<str>>::partial_cmp_spec(&a, s) == Some(Ordering::Equal), //[C07]
        <str as PartialEqSpec<NtHiveNameString<'a>>>::eq_spec(s, &a) <==> <NtHiveNameString<'a> as PartialEqSpec<str>>::eq_spec(&a, s), //[C07]
{ lemma_cmp_anti(a.units(), b.units()); lemma_cmp_anti(a.units(), utf16(s@)); } /*@END*/

impl<'h> NtHiveNameString<'h> {
    pub open spec fn units(&self) -> Seq<u16> { match self { NtHiveNameString::Latin1(b) => latin1_units(b@), NtHiveNameString::Utf16LE(b) => utf16le_units(b@) } }
    pub open spec fn bytes(&self) -> Seq<u8> { match self { NtHiveNameString::Latin1(b) => b@, NtHiveNameString::Utf16LE(b) => b@ } }
    /// the text of the name; None for an unpaired surrogate
    pub open spec fn text(&self) -> Seq<Option<char>> { match self { NtHiveNameString::Latin1(b) => Seq::new(b@.len(), |i: int| Some(b@[i] as char)), NtHiveNameString::Utf16LE(b) => decode16(utf16le_units(b@)) } }
}
impl<'h> OrdSpecImpl for NtHiveNameString<'h> {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { cmp_units(self.units(), other.units()) }
}
impl<'h> PartialEqSpecImpl for NtHiveNameString<'h> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { cmp_units(self.units(), other.units()) == Ordering::Equal }
}
impl<'h> PartialOrdSpecImpl for NtHiveNameString<'h> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { Some(cmp_units(self.units(), other.units())) }
}
impl<'h> PartialEqSpecImpl<str> for NtHiveNameString<'h> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &str) -> bool { cmp_units(self.units(), utf16(other@)) == Ordering::Equal }
}
impl<'h> PartialEqSpecImpl<NtHiveNameString<'h>> for str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &NtHiveNameString<'h>) -> bool { cmp_units(other.units(), utf16(self@)) == Ordering::Equal }
}
impl<'h> PartialEqSpecImpl<&str> for NtHiveNameString<'h> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &&str) -> bool { cmp_units(self.units(), utf16((*other)@)) == Ordering::Equal }
}
impl<'h> PartialEqSpecImpl<NtHiveNameString<'h>> for &str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &NtHiveNameString<'h>) -> bool { cmp_units(other.units(), utf16((*self)@)) == Ordering::Equal }
}
impl<'h> PartialOrdSpecImpl<str> for NtHiveNameString<'h> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &str) -> Option<Ordering> { Some(cmp_units(self.units(), utf16(other@))) }
}
impl<'h> PartialOrdSpecImpl<NtHiveNameString<'h>> for str {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &NtHiveNameString<'h>) -> Option<Ordering> { Some(cmp_units(utf16(self@), other.units())) }
}
impl<'h> PartialOrdSpecImpl<&str> for NtHiveNameString<'h> {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &&str) -> Option<Ordering> { Some(cmp_units(self.units(), utf16((*other)@))) }
}
impl<'h> PartialOrdSpecImpl<NtHiveNameString<'h>> for &str {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &NtHiveNameString<'h>) -> Option<Ordering> { Some(cmp_units(utf16((*self)@), other.units())) }
}
@@fn NtHiveNameString::cmp_iter
    requires this_iter.wf(), other_iter.wf()
    ensures ret == cmp_units(this_iter.rest(), other_iter.rest()), //[C07]
@attr #[verifier::loop_isolation(false)]
@entry
    let ghost a0__ = this_iter.rest();
    let ghost b0__ = other_iter.rest();
@loop 0
    invariant this_iter.wf(), other_iter.wf(), cmp_units(this_iter.rest(), other_iter.rest()) == cmp_units(a0__, b0__),
    decreases this_iter.rest().len()
@@fn NtHiveNameString::cmp_self_and_str
    ensures ret == cmp_units(lhs.units(), utf16(rhs@)), //[C07]
@@fn NtHiveNameString::cmp_str_and_self
    ensures ret == cmp_units(utf16(lhs@), rhs.units()), //[C07]
@@fn NtHiveNameString::latin1_iter
    requires self is Latin1
    ensures ret.wf(), ret.rest() =~= self.units(), //[C07,C15]
@closure 0
|x__: &u8| -> (q: u16) ensures q == *x__ as u16
@@fn NtHiveNameString::utf16le_iter
    requires self is Utf16LE
    ensures ret.wf(), ret.rest() =~= self.units(), //[C07,C15]
@closure 0
|x__: &[u8]| -> (q: u16) requires x__@.len() == 2 ensures q == le16(x__@, 0)
@@fn NtHiveNameString::is_empty
    ensures ret == (self.bytes().len() == 0), //[C15]
@@fn NtHiveNameString::len
    ensures ret == self.bytes().len(), //[C15]
@@fn NtHiveNameString::to_string_checked
    ensures ret is Some <==> (forall|i: int| 0 <= i < self.text().len() ==> #[trigger] self.text()[i] is Some), //[C15]
        ret is Some ==> ret->Some_0@ =~= self.text().map_values(|o: Option<char>| o->Some_0), //[C15]
@closure 0
|x__: &u8| -> (q: char) ensures q == *x__ as char
@closure 1
|x__: Result<char, DecodeError>| -> (q: Option<char>) ensures q == (match x__ { Ok(c) => Some(c), Err(_) => None })
@@fn NtHiveNameString::to_string_lossy
    ensures ret@ =~= lossy(self.text()), //[C15]
@closure 0
|x__: &u8| -> (q: char) ensures q == *x__ as char
@closure 1
|x__: Result<char, DecodeError>| -> (q: char) ensures q == (match x__ { Ok(c) => c, Err(_) => '\u{FFFD}' })
@@fn NtHiveNameString::fmt
    ensures ret is Ok ==> final(f)@ == old(f)@ + lossy(self.text()), //[C15]
        ret is Err ==> final(f).broken(), //[C15]
@attr #[verifier::loop_isolation(false)]
@entry
    let ghost f0__ = f@; let ghost t0__ = lossy(self.text());
@loop 0
    invariant it__0.wf(), f@ + Seq::new(it__0.rest().len(), |i: int| *it__0.rest()[i] as char) =~= f0__ + t0__,
    decreases it__0.rest().len()
@loopstart 0
    let ghost b__ = f@; let ghost r__ = it__0.rest();
@loop 1
    invariant it__1.wf(), f@ + it__1.rest() =~= f0__ + t0__,
    decreases it__1.rest().len()
@closure 0
|x__: Result<char, DecodeError>| -> (q: char) ensures q == (match x__ { Ok(c) => c, Err(_) => '\u{FFFD}' })
@alt
@into 0 p_iter
@alt
@loop 0
    invariant $i <= bytes@.len(), f@ + Seq::new((bytes@.len() - $i) as nat, |i: int| bytes@[i + $i] as char) =~= f0__ + t0__,
    decreases bytes@.len() - $i
@loopstart 0
    let ghost b__ = f@;
@@fn PartialEq for NtHiveNameString::eq
    ensures ret == (cmp_units(self.units(), other.units()) == Ordering::Equal), //[C07]
@@fn PartialEq<str> for NtHiveNameString::eq
    ensures ret == (cmp_units(self.units(), utf16(other@)) == Ordering::Equal), //[C07]
@@fn PartialEq<&str> for NtHiveNameString::eq
    ensures ret == (cmp_units(self.units(), utf16((*other)@)) == Ordering::Equal), //[C07]
@@fn PartialEq<NtHiveNameString<'h>> for str::eq
    ensures ret == (cmp_units(other.units(), utf16(self@)) == Ordering::Equal), //[C07]
@entry
    proof { lemma_cmp_anti(other.units(), utf16(self@)); }
@@fn PartialEq<NtHiveNameString<'h>> for &str::eq
    ensures ret == (cmp_units(other.units(), utf16((*self)@)) == Ordering::Equal), //[C07]
@entry
    proof { lemma_cmp_anti(other.units(), utf16((*self)@)); }
@@fn Ord for NtHiveNameString::cmp
    ensures ret == cmp_units(self.units(), other.units()), //[C07]
@@fn PartialOrd for NtHiveNameString::partial_cmp
    ensures ret == Some(cmp_units(self.units(), other.units())), //[C07]
@@fn PartialOrd<str> for NtHiveNameString::partial_cmp
    ensures ret == Some(cmp_units(self.units(), utf16(other@))), //[C07]
@@fn PartialOrd<&str> for NtHiveNameString::partial_cmp
    ensures ret == Some(cmp_units(self.units(), utf16((*other)@))), //[C07]
@@fn PartialOrd<NtHiveNameString<'h>> for str::partial_cmp
    ensures ret == Some(cmp_units(utf16(self@), other.units())), //[C07]
@@fn PartialOrd<NtHiveNameString<'h>> for &str::partial_cmp
    ensures ret == Some(cmp_units(utf16((*self)@), other.units())), //[C07]

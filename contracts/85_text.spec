@@item
/// C11: a UTF-16 code unit of the data, or the error of a segment that cannot be read
pub enum UU { U(u16), E(Er) }
pub open spec fn uu<T>(r: Result<u16>) -> UU { match r { Ok(u) => UU::U(u), Err(e) => UU::E(err_of(e)) } }
pub open spec fn uu_is(r: Result<u16>, x: UU) -> bool { match (r, x) { (Ok(u), UU::U(v)) => u == v, (Err(_), UU::E(_)) => true, _ => false } }
pub open spec fn uu_off(r: Result<u16>, x: UU) -> bool { r is Err && x is E ==> err_of(r->Err_0).off() == x->E_0.off() }
pub open spec fn uu_err(r: Result<u16>, x: UU) -> bool { r is Err && x is E ==> err_of(r->Err_0) =~= x->E_0 }
pub open spec fn uu_bytes(b: Seq<u8>) -> Seq<UU> { Seq::new((b.len() / 2) as nat, |i: int| UU::U(le16(b, 2 * i))) }
pub open spec fn uu_segs(d: Seq<u8>, x: Seq<Res>) -> Seq<UU> decreases x.len() {
    if x.len() == 0 { Seq::empty() } else { (match x[0] { Res::Err(o) => seq![UU::E(o)], Res::Ok(s, e) => uu_bytes(d.subrange(s, e)) }) + uu_segs(d, x.drop_first()) }
}
pub broadcast proof fn lemma_uu_bytes0(b: Seq<u8>) requires b.len() < 2 ensures #[trigger] uu_bytes(b) == Seq::<UU>::empty() { assert(uu_bytes(b) =~= Seq::<UU>::empty()); }
pub broadcast proof fn lemma_uu_bytes(b: Seq<u8>, n: int) requires b.len() >= 2, n == b.len() ensures #![trigger uu_bytes(b), b.subrange(2, n)] uu_bytes(b) == seq![UU::U(le16(b, 0))] + uu_bytes(b.subrange(2, n))
{ assert(uu_bytes(b) =~= seq![UU::U(le16(b, 0))] + uu_bytes(b.subrange(2, b.len() as int))); }
/// C11: a decoded character, or an error
pub enum CC { C(char), E(Er) }
pub open spec fn one_char(u: u16) -> char { if is_high(u) || is_low(u) { '\u{FFFD}' } else { u as u32 as char } }
pub open spec fn dec_head(u: Seq<UU>) -> CC {
    match u[0] { UU::E(o) => CC::E(o), UU::U(h) => if is_high(h) && u.len() > 1 { match u[1] { UU::U(l) => if is_low(l) { CC::C((0x1_0000 + (h - 0xd800) * 0x400 + (l - 0xdc00)) as u32 as char) } else { CC::C(one_char(h)) }, _ => CC::C(one_char(h)) } } else { CC::C(one_char(h)) } }
}
pub open spec fn dec_used(u: Seq<UU>) -> int { if u.len() > 1 && u[0] is U && u[1] is U && is_high(u[0]->U_0) && is_low(u[1]->U_0) { 2 } else { 1 } }
pub open spec fn dec(u: Seq<UU>) -> Seq<CC> decreases u.len() { if u.len() == 0 { Seq::empty() } else { seq![dec_head(u)] + dec(u.subrange(dec_used(u), u.len() as int)) } }
pub proof fn lemma_dec(u: Seq<UU>) ensures dec(u).len() == 0 <==> u.len() == 0, dec(Seq::<UU>::empty()).len() == 0, dec_used(u) == 2 ==> u.len() >= 2,
    u.len() > 0 ==> dec(u)[0] == dec_head(u) && dec(u).drop_first() =~= dec(u.subrange(dec_used(u), u.len() as int)),
    u.len() > 0 ==> u.drop_first() =~= u.subrange(1, u.len() as int), u.len() > 1 ==> u.drop_first().drop_first() =~= u.subrange(2, u.len() as int) && u.drop_first()[0] == u[1]
{ }
pub broadcast proof fn lemma_dec_step(u: Seq<UU>, v: Seq<UU>) requires v.len() > 0, u =~= v.subrange(dec_used(v), v.len() as int) ensures #![trigger dec(u), dec(v).drop_first()] dec(u) == dec(v).drop_first() { lemma_dec(v); }
/// C11: the text up to the first NUL, or the first error
pub enum Txt { Ok(Seq<char>), Err(Er) }
pub open spec fn text_of(c: Seq<CC>) -> Txt decreases c.len() {
    if c.len() == 0 { Txt::Ok(Seq::empty()) } else { match c[0] { CC::E(o) => Txt::Err(o), CC::C(x) => if x == '\0' { Txt::Ok(Seq::empty()) } else {
        match text_of(c.drop_first()) { Txt::Err(o) => Txt::Err(o), Txt::Ok(t) => Txt::Ok(seq![x] + t) } } } }
}
pub open spec fn txt_pre(p: Seq<char>, t: Txt) -> Txt { match t { Txt::Ok(x) => Txt::Ok(p + x), Txt::Err(o) => Txt::Err(o) } }
pub open spec fn txt_is(r: Result<PStr>, t: Txt) -> bool { match (r, t) { (Ok(s), Txt::Ok(x)) => s@ =~= x, (Err(_), Txt::Err(_)) => true, _ => false } }
pub open spec fn txt_off(r: Result<PStr>, t: Txt) -> bool { r is Err && t is Err ==> err_of(r->Err_0).off() == t->Err_0.off() }
pub open spec fn txt_err(r: Result<PStr>, t: Txt) -> bool { r is Err && t is Err ==> err_of(r->Err_0) =~= t->Err_0 }
/// C11: the next string of a REG_MULTI_SZ (or the error in it) and what remains; None: no more strings
pub open spec fn ms_end(acc: Seq<char>, rest: Seq<CC>) -> (Option<Txt>, Seq<CC>) { if acc.len() == 0 { (None, Seq::empty()) } else { (Some(Txt::Ok(acc)), rest) } }
pub open spec fn ms_next(acc: Seq<char>, c: Seq<CC>) -> (Option<Txt>, Seq<CC>) decreases c.len() {
    if c.len() == 0 { ms_end(acc, Seq::empty()) } else { match c[0] { CC::E(o) => (Some(Txt::Err(o)), c.drop_first()), CC::C(x) => if x == '\0' { ms_end(acc, c.drop_first()) } else { ms_next(acc.push(x), c.drop_first()) } } }
}
pub proof fn lemma_text_step(p: Seq<char>, c: Seq<CC>)
    ensures txt_pre(p, text_of(c)) == (if c.len() == 0 { Txt::Ok(p) } else { match c[0] { CC::E(o) => Txt::Err(o), CC::C(x) => if x == '\0' { Txt::Ok(p) } else { txt_pre(p.push(x), text_of(c.drop_first())) } } })
{
    assert(p + Seq::<char>::empty() =~= p);
    if c.len() > 0 && c[0] is C { let x = c[0]->C_0; if text_of(c.drop_first()) is Ok { let t = text_of(c.drop_first())->Ok_0; assert(p + (seq![x] + t) =~= p.push(x) + t); } }
}
pub proof fn lemma_uu_cat(a: Seq<u8>, t: Seq<u8>, h: int)
    requires a.len() == 2 * h
    ensures uu_bytes(a) + uu_bytes(t) == uu_bytes(a + t)
{
    assert forall|i: int| 0 <= i < (a + t).len() / 2 implies (uu_bytes(a) + uu_bytes(t))[i] == uu_bytes(a + t)[i] by { if i < h { assert((a + t)[2 * i] == a[2 * i]); assert((a + t)[2 * i + 1] == a[2 * i + 1]); } else { assert((a + t)[2 * i] == t[2 * (i - h)]); assert((a + t)[2 * i + 1] == t[2 * (i - h) + 1]); } }
    assert(uu_bytes(a) + uu_bytes(t) =~= uu_bytes(a + t));
}
/*@FN lemma C11 the code units do not depend on how the data is split over segments*/
pub proof fn lemma_units_cat(d: Seq<u8>, ls: int, left: int)
    requires 0 <= left, cat(d, segs(d, ls, left)) is Ok
    ensures uu_segs(d, segs(d, ls, left)) =~= uu_bytes(cat(d, segs(d, ls, left))->Ok_0), //[C11]
    decreases left
{
    if left > 0 {
        let x = segs(d, ls, left);
        lemma_segs_len(d, ls, left);
        let r = if left < 16344 { 0 } else { left - 16344 };
        assert(x.drop_first() =~= segs(d, ls + 4, r)) by {
            assert((left + 16343) / 16344 == (r + 16343) / 16344 + 1);
            assert forall|i: int| 0 <= i < (r + 16343) / 16344 implies #[trigger] x.drop_first()[i] == segs(d, ls + 4, r)[i] by { assert(ls + 4 * (i + 1) == ls + 4 + 4 * i); assert(seg_len(left, i + 1) == seg_len(r, i)); }
        }
        lemma_units_cat(d, ls + 4, r);
        assert(x[0] == seg(d, le32(d, ls + 4 * 0) as int, seg_len(left, 0)));
        lemma_cell(d, le32(d, ls) as int);
        let a = d.subrange(x[0]->Ok_0, x[0]->Ok_1); let t = cat(d, x.drop_first())->Ok_0;
        assert(a.len() == seg_len(left, 0));
        lemma_cat_len(d, ls + 4, r);
        assert(t.len() == r);
        if r > 0 { assert(a.len() == 2 * 8172); lemma_uu_cat(a, t, 8172); }
        else { assert(t.len() == 0); assert(a + t =~= a); assert(uu_bytes(t).len() == 0); assert(uu_bytes(a) + uu_bytes(t) =~= uu_bytes(a)); }
    } else { lemma_segs_len(d, ls, left); }
} /*@END*/
impl<'h, B: SplitByteSlice> Utf16LEChars<'h, B> {
    pub open spec fn wf(&self) -> bool { self.big_iter is Some ==> self.big_iter->Some_0.wf() }
    pub open spec fn later(&self) -> Seq<UU> { match self.big_iter { Some(i) => uu_segs(i.hive.data@, i.slices()), None => Seq::empty() } }
    /// the code units that have not been read yet
    pub open spec fn units(&self) -> Seq<UU> { (match self.peeked { Some(r) => seq![uu::<()>(r)], None => Seq::empty() }) + (uu_bytes(self.slice@) + self.later()) }
    pub open spec fn chars(&self) -> Seq<CC> { dec(self.units()) }
}
impl<'h, B: SplitByteSlice> RegMultiSZStrings<'h, B> {
    pub open spec fn wf(&self) -> bool { self.chars is Some ==> self.chars->Some_0.wf() }
    pub open spec fn rest(&self) -> Seq<CC> { match self.chars { Some(c) => c.chars(), None => Seq::empty() } }
}
/// C11: the code units of the data of a value
pub open spec fn data_units(d: Seq<u8>, x: DRes) -> Seq<UU> { match x { DRes::Small(s, e) => uu_bytes(d.subrange(s, e)), DRes::Big(ls, c, n) => uu_segs(d, segs(d, ls, n)), DRes::Err(_) => Seq::empty() } }
/// C11: the string a value stores
pub open spec fn string_of(d: Seq<u8>, s: int, minor: u32) -> Txt {
    if le32(d, s + 12) > 11 { Txt::Err(Er::Code(4096 + s + 12, le32(d, s + 12) as int)) }
    else if le32(d, s + 12) != 1 && le32(d, s + 12) != 2 { Txt::Err(Er::Type(seq![KeyValueDataType::RegSZ, KeyValueDataType::RegExpandSZ], type_of(le32(d, s + 12))->Some_0)) }
    else { match data_of(d, s, minor) { DRes::Err(o) => Txt::Err(o), x => text_of(dec(data_units(d, x))) } }
}
pub enum Multi { Ok(Seq<CC>), Err(Er) }
pub open spec fn multi_of(d: Seq<u8>, s: int, minor: u32) -> Multi {
    if le32(d, s + 12) > 11 { Multi::Err(Er::Code(4096 + s + 12, le32(d, s + 12) as int)) }
    else if le32(d, s + 12) != 7 { Multi::Err(Er::Type(seq![KeyValueDataType::RegMultiSZ], type_of(le32(d, s + 12))->Some_0)) }
    else { match data_of(d, s, minor) { DRes::Err(o) => Multi::Err(o), x => Multi::Ok(dec(data_units(d, x))) } }
}
pub open spec fn ms_is<'h, B: SplitByteSlice>(r: Result<RegMultiSZStrings<'h, B>>, x: Multi) -> bool {
    match (r, x) { (Ok(k), Multi::Ok(c)) => k.wf() && k.rest() == c, (Err(_), Multi::Err(_)) => true, _ => false }
}
pub open spec fn ms_off<T>(r: Result<T>, x: Multi) -> bool { r is Err && x is Err ==> err_of(r->Err_0).off() == x->Err_0.off() }
pub open spec fn ms_err<T>(r: Result<T>, x: Multi) -> bool { r is Err && x is Err ==> err_of(r->Err_0) =~= x->Err_0 }
pub open spec fn ch_is(r: Result<char>, x: CC) -> bool { match (r, x) { (Ok(c), CC::C(x)) => c == x, (Err(_), CC::E(_)) => true, _ => false } }
pub open spec fn ch_off(r: Result<char>, x: CC) -> bool { r is Err && x is E ==> err_of(r->Err_0).off() == x->E_0.off() }
pub open spec fn ch_err(r: Result<char>, x: CC) -> bool { r is Err && x is E ==> err_of(r->Err_0) =~= x->E_0 }
@@fn Utf16LEChars::small
    ensures ret.wf(), ret.units() =~= uu_bytes(data@), //[C11]
@@fn Utf16LEChars::big
    requires iter.wf()
    ensures ret.wf(), ret.units() =~= uu_segs(iter.hive.data@, iter.slices()), //[C11]
@@fn Utf16LEChars::next_code_unit
    requires old(self).wf()
    ensures final(self).wf(),
        ret is Some <==> old(self).units().len() > 0, //[C11]
        ret is Some ==> uu_is(ret->Some_0, old(self).units()[0]) && final(self).units() == old(self).units().drop_first(), //[C11]
        ret is Some ==> uu_off(ret->Some_0, old(self).units()[0]), //[C14]
        ret is Some ==> uu_err(ret->Some_0, old(self).units()[0]), //[C17]
        ret is None ==> final(self).units().len() == 0, //[C11]
        final(self).peeked is None,
@attr #[verifier::loop_isolation(false)]
@entry
    hide(segs); hide(dec); hide(uu_bytes); hide(seg); hide(BigDataSlices::slices);
    broadcast use lemma_uu_bytes; broadcast use lemma_uu_bytes0; broadcast use lemma_cat_first; broadcast use lemma_cat_empty;
@loop 0
    invariant self.wf(), self.peeked is None, self.units() == old(self).units(),
    decreases (match self.big_iter { Some(i) => i.slices().len() as int, None => 0 })
@@fn Utf16LEChars::next
    requires old(self).wf()
    ensures final(self).wf(),
        ret is Some <==> old(self).chars().len() > 0, //[C11]
        ret is Some ==> ch_is(ret->Some_0, old(self).chars()[0]), //[C11]
        ret is Some ==> ch_off(ret->Some_0, old(self).chars()[0]), //[C14]
        ret is Some ==> ch_err(ret->Some_0, old(self).chars()[0]), //[C17]
        ret is Some ==> final(self).chars() =~= old(self).chars().drop_first(), //[C11]
        ret is Some ==> final(self).units() =~= old(self).units().subrange(dec_used(old(self).units()), old(self).units().len() as int), //[C11]
        ret is None ==> final(self).chars().len() == 0, //[C11,C12]
@entry
    hide(segs); hide(uu_segs); hide(dec);
    proof { lemma_dec(self.units()); }
    broadcast use lemma_dec_step;
@@fn KeyValue::utf16le_to_string_lossy
    requires chars.wf()
    ensures txt_is(ret, text_of(chars.chars())), //[C11]
        txt_off(ret, text_of(chars.chars())), //[C14]
        txt_err(ret, text_of(chars.chars())), //[C17]
@attr #[verifier::loop_isolation(false)]
@entry
    let ghost all__ = text_of(chars.chars());
    proof { lemma_text_step(Seq::empty(), chars.chars()); assert(txt_pre(Seq::empty(), all__) == all__) by { if all__ is Ok { assert(Seq::<char>::empty() + all__->Ok_0 =~= all__->Ok_0); } } }
@loop 0
    invariant it__0.wf(), txt_pre(string@, text_of(it__0.chars())) == all__,
    decreases it__0.chars().len()
@loopstart 0
    proof { lemma_text_step(string@, it__0.chars()); }
@@fn KeyValue::string_data
    requires self.wf()
    ensures txt_is(ret, string_of(self.hive.data@, self.header_range.start as int, self.hive.minor())), //[C11]
        txt_off(ret, string_of(self.hive.data@, self.header_range.start as int, self.hive.minor())), //[C14]
        txt_err(ret, string_of(self.hive.data@, self.header_range.start as int, self.hive.minor())), //[C17]
@@fn KeyValue::multi_string_data
    requires self.wf()
    ensures ms_is(ret, multi_of(self.hive.data@, self.header_range.start as int, self.hive.minor())), //[C11]
        ms_off(ret, multi_of(self.hive.data@, self.header_range.start as int, self.hive.minor())), //[C14]
        ms_err(ret, multi_of(self.hive.data@, self.header_range.start as int, self.hive.minor())), //[C17]
@@fn RegMultiSZStrings::small
    ensures ret.wf(), ret.rest() =~= dec(uu_bytes(data@)), //[C11]
@@fn RegMultiSZStrings::big
    requires iter.wf()
    ensures ret.wf(), ret.rest() =~= dec(uu_segs(iter.hive.data@, iter.slices())), //[C11]
@@fn RegMultiSZStrings::next
    requires old(self).wf()
    ensures final(self).wf(),
        match (ret, ms_next(Seq::empty(), old(self).rest()).0) { (None, None) => true, (Some(r), Some(t)) => txt_is(r, t), _ => false }, //[C11]
        match (ret, ms_next(Seq::empty(), old(self).rest()).0) { (Some(r), Some(t)) => txt_off(r, t), _ => true }, //[C14]
        match (ret, ms_next(Seq::empty(), old(self).rest()).0) { (Some(r), Some(t)) => txt_err(r, t), _ => true }, //[C17]
        final(self).rest() == ms_next(Seq::empty(), old(self).rest()).1, //[C11]
        ret is None ==> final(self).rest().len() == 0, //[C11,C12]
@attr #[verifier::loop_isolation(false)]
@loop 0
    invariant it__0.wf(), ms_next(string@, it__0.chars()) == ms_next(Seq::empty(), old(self).rest()),
    decreases it__0.chars().len()

@@item
/// C09: where the data of a value is: one range, `count` segments listed from `ls` on, or the error
pub enum DRes { Small(int, int), Big(int, int, int), Err(Er) }
pub open spec fn big_of(d: Seq<u8>, c: Res, n: int, size_field: int) -> DRes {
    match c { Res::Err(o) => DRes::Err(o),
        Res::Ok(cs, ce) => if cs + 8 > ce { DRes::Err(Er::Head(wrap_off(cs), 8, ce - cs)) } else if sig2(d, cs) != seq![0x64u8, 0x62u8] { DRes::Err(Er::Sig(wrap_off(cs), seq![0x64u8, 0x62u8], sig2(d, cs))) }
            else if n > le16(d, cs + 2) * 16344 { DRes::Err(Er::Size(size_field, n, le16(d, cs + 2) * 16344)) }
            else { match cell(d, le32(d, cs + 4) as int) { Res::Err(o) => DRes::Err(o),
                Res::Ok(ls, le) => if ls + 4 * le16(d, cs + 2) > le { DRes::Err(Er::Size(wrap_off(cs + 2), 4 * le16(d, cs + 2), le - ls)) } else { DRes::Big(ls, le16(d, cs + 2) as int, n) } } } }
}
pub open spec fn data_len(d: Seq<u8>, s: int) -> int { le32(d, s + 4) as int % 0x8000_0000 }
pub open spec fn data_of(d: Seq<u8>, s: int, minor: u32) -> DRes {
    let n = data_len(d, s);
    let c = cell(d, le32(d, s + 8) as int);
    if le32(d, s + 4) >= 0x8000_0000 { if n > 4 { DRes::Err(Er::Size(4096 + s + 4, n, 4)) } else { DRes::Small(s + 8, s + 8 + n) } }
    else if n <= 16344 || minor < 4 { match c { Res::Err(o) => DRes::Err(o), Res::Ok(cs, ce) => if n > ce - cs { DRes::Err(Er::Data(wrap_off(cs), n, ce - cs)) } else { DRes::Small(cs, cs + n) } } }
    else { big_of(d, c, n, 4096 + s + 4) }
}
/// the first k bytes of the segment cell at off
pub open spec fn seg(d: Seq<u8>, off: int, k: int) -> Res { match cell(d, off) { Res::Err(o) => Res::Err(o), Res::Ok(s, e) => if s + k > e { Res::Err(Er::Data(wrap_off(s), k, e - s)) } else { Res::Ok(s, s + k) } } }
pub open spec fn seg_len(left: int, i: int) -> int { if left - 16344 * i < 16344 { left - 16344 * i } else { 16344 } }
/// the segments that hold `left` bytes, listed from `ls` on
pub open spec fn segs(d: Seq<u8>, ls: int, left: int) -> Seq<Res> { Seq::new(((left + 16343) / 16344) as nat, |i: int| seg(d, le32(d, ls + 4 * i) as int, seg_len(left, i))) }
pub open spec fn bs_is(r: Result<&[u8]>, d: Seq<u8>, x: Res) -> bool { match (r, x) { (Ok(b), Res::Ok(s, e)) => b@ == d.subrange(s, e), (Err(_), Res::Err(_)) => true, _ => false } }
impl BigDataListItemRange { pub open spec fn wf(&self, d: Seq<u8>) -> bool { self.0.start + 4 == self.0.end && self.0.end <= d.len() } }
impl BigDataListItemRanges {
    pub open spec fn n(&self) -> int { rlen(self.items_range) / 4 }
    pub open spec fn advanced(&self, o: Self, k: int) -> bool { self.items_range.end == o.items_range.end && self.items_range.start == o.items_range.start + k * 4 }
}
impl<'h, B: SplitByteSlice> BigDataSlices<'h, B> {
    pub open spec fn wf(&self) -> bool { self.hive.wf() && in_data(self.big_data_list_item_ranges.items_range, self.hive.data@) && self.bytes_left <= 16344 * self.big_data_list_item_ranges.n() }
    pub open spec fn slices(&self) -> Seq<Res> { segs(self.hive.data@, self.big_data_list_item_ranges.items_range.start as int, self.bytes_left as int) }
}
/// result of BigDataListItemRanges::new
pub open spec fn bdr_is(r: Result<BigDataListItemRanges>, x: DRes) -> bool {
    match (r, x) { (Ok(k), DRes::Big(ls, c, n)) => k.items_range.start == ls && k.items_range.end == ls + 4 * c, (Err(_), DRes::Err(_)) => true, _ => false }
}
pub open spec fn bds_is<'h, B: SplitByteSlice>(r: Result<BigDataSlices<'h, B>>, hive: &Hive<B>, x: DRes) -> bool {
    match (r, x) { (Ok(k), DRes::Big(ls, c, n)) => k.wf() && k.hive == hive && k.bytes_left == n && k.slices() =~= segs(hive.data@, ls, n), (Err(_), DRes::Err(_)) => true, _ => false }
}
pub open spec fn kd_is<'h, B: SplitByteSlice>(r: Result<KeyValueData<'h, B>>, hive: &Hive<B>, x: DRes) -> bool {
    match (r, x) { (Ok(KeyValueData::Small(b)), DRes::Small(s, e)) => b@ == hive.data@.subrange(s, e), (Ok(KeyValueData::Big(k)), DRes::Big(_, _, _)) => bds_is(Ok(k), hive, x), (Err(_), DRes::Err(_)) => true, _ => false }
}
pub open spec fn doff_ok<T>(r: Result<T>, x: DRes) -> bool { r is Err && x is Err ==> err_of(r->Err_0).off() == x->Err_0.off() }
pub open spec fn derr_ok<T>(r: Result<T>, x: DRes) -> bool { r is Err && x is Err ==> err_of(r->Err_0) =~= x->Err_0 }
/// C09: the concatenation of the segments, or the first error
pub enum Cat { Ok(Seq<u8>), Err(Er) }
pub open spec fn cat(d: Seq<u8>, x: Seq<Res>) -> Cat decreases x.len() {
    if x.len() == 0 { Cat::Ok(Seq::empty()) } else { match x[0] { Res::Err(o) => Cat::Err(o),
        Res::Ok(s, e) => match cat(d, x.drop_first()) { Cat::Err(o) => Cat::Err(o), Cat::Ok(t) => Cat::Ok(d.subrange(s, e) + t) } } }
}
pub open spec fn cat_pre(p: Seq<u8>, c: Cat) -> Cat { match c { Cat::Err(o) => Cat::Err(o), Cat::Ok(t) => Cat::Ok(p + t) } }
impl<'h, B: SplitByteSlice> KeyValueData<'h, B> {
    pub open spec fn wf(&self) -> bool { match self { KeyValueData::Small(_) => true, KeyValueData::Big(i) => i.wf() } }
    pub open spec fn bytes(&self) -> Cat { match self { KeyValueData::Small(b) => Cat::Ok(b@), KeyValueData::Big(i) => cat(i.hive.data@, i.slices()) } }
}
/*@FN lemma C09 the concatenated segments have exactly the stored size*/
pub proof fn lemma_cat_len(d: Seq<u8>, ls: int, left: int)
    requires 0 <= left
    ensures cat(d, segs(d, ls, left)) is Ok ==> cat(d, segs(d, ls, left))->Ok_0.len() == left, //[C09]
    decreases left
{
    if left > 0 {
        let r = if left < 16344 { 0 } else { left - 16344 };
        lemma_cat_len(d, ls + 4, r);
        assert(segs(d, ls, left).drop_first() =~= segs(d, ls + 4, r)) by {
            assert((left + 16343) / 16344 == (r + 16343) / 16344 + 1);
            assert forall|i: int| 0 <= i < (r + 16343) / 16344 implies #[trigger] segs(d, ls, left).drop_first()[i] == segs(d, ls + 4, r)[i] by { assert(ls + 4 * (i + 1) == ls + 4 + 4 * i); assert(seg_len(left, i + 1) == seg_len(r, i)); }
        }
        let x = segs(d, ls, left);
        if cat(d, x) is Ok { assert(x[0] == seg(d, le32(d, ls + 4 * 0) as int, seg_len(left, 0))); lemma_cell(d, le32(d, ls) as int); }
    } else { assert(segs(d, ls, left).len() == 0); }
} /*@END*/
pub proof fn lemma_segs_skip(d: Seq<u8>, ls: int, left: int, k: int)
    requires 0 <= k, 16344 * k < left
    ensures segs(d, ls + 4 * k, left - 16344 * k) == segs(d, ls, left).subrange(k, segs(d, ls, left).len() as int), segs(d, ls, left).len() > k,
        segs(d, ls + 4 * k, left - 16344 * k).len() > 0, segs(d, ls + 4 * k, left - 16344 * k)[0] == segs(d, ls, left)[k],
        segs(d, ls + 4 * k, left - 16344 * k).drop_first() == segs(d, ls, left).subrange(k + 1, segs(d, ls, left).len() as int),
{
    let a = segs(d, ls + 4 * k, left - 16344 * k); let b = segs(d, ls, left);
    assert((left - 16344 * k + 16343) / 16344 == (left + 16343) / 16344 - k);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b.subrange(k, b.len() as int)[i] by { assert(ls + 4 * k + 4 * i == ls + 4 * (k + i)); }
    assert(a =~= b.subrange(k, b.len() as int));
    assert(a.drop_first() =~= b.subrange(k + 1, b.len() as int));
}
pub proof fn lemma_segs_len(d: Seq<u8>, ls: int, left: int) requires left >= 0 ensures segs(d, ls, left).len() == (left + 16343) / 16344 { }
pub proof fn lemma_cat_pre(p: Seq<u8>, d: Seq<u8>, x: Seq<Res>)
    ensures cat_pre(p, cat(d, x)) == (if x.len() == 0 { Cat::Ok(p) } else { match x[0] { Res::Err(o) => Cat::Err(o), Res::Ok(s, e) => cat_pre(p + d.subrange(s, e), cat(d, x.drop_first())) } })
{
    if x.len() == 0 { assert(p + Seq::<u8>::empty() =~= p); }
    else if x[0] is Ok { if cat(d, x.drop_first()) is Ok { let t = cat(d, x.drop_first())->Ok_0; let m = d.subrange(x[0]->Ok_0, x[0]->Ok_1); assert(p + (m + t) =~= p + m + t); } }
}
pub proof fn lemma_cell(d: Seq<u8>, off: int) ensures match cell(d, off) { Res::Ok(s, e) => 4 <= s <= e <= d.len(), _ => true } { }

@@fn BigDataListItemRanges::next
    ensures
        ret is Some <==> old(self).n() > 0, //[C09,C12]
        old(self).n() > 0 ==> ret is Some, //[C01]
        ret is Some ==> old(self).items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == 4 && ret->Some_0.0.end <= old(self).items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == old(self).items_range.start && ret->Some_0.0.end == old(self).items_range.start + 4 && final(self).advanced(*old(self), 1), //[C09,C12]
        ret is Some ==> old(self).items_range.start + 4 <= old(self).items_range.end && final(self).n() == old(self).n() - 1, //[C09,C12]
        ret is None ==> *final(self) == *old(self), //[C09,C12]
@@fn BigDataListItemRanges::count
    ensures ret == self.n(), //[C12]
@@fn BigDataListItemRanges::size_hint
    ensures ret.0 == self.n(), ret.1 == Some(ret.0), //[C12]
@@fn BigDataListItemRanges::len
    ensures ret == self.n(), //[C12]
@@fn BigDataListItemRanges::last
    ensures
        ret is Some <==> self.n() > 0, //[C12]
        self.n() > 0 ==> ret is Some, //[C01]
        ret is Some ==> self.items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == 4 && ret->Some_0.0.end <= self.items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == self.items_range.start + 4 * (self.n() - 1) && ret->Some_0.0.end == ret->Some_0.0.start + 4, //[C12]
@@fn BigDataListItemRanges::nth
    ensures
        ret is Some <==> n < old(self).n(), //[C12]
        n < old(self).n() ==> ret is Some, //[C01]
        ret is Some ==> old(self).items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == 4 && ret->Some_0.0.end <= old(self).items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == old(self).items_range.start + 4 * n && ret->Some_0.0.end == ret->Some_0.0.start + 4, //[C12]
        ret is Some ==> final(self).advanced(*old(self), n + 1) && final(self).n() == old(self).n() - n - 1, //[C12]
        ret is None ==> final(self).items_range.end == old(self).items_range.end && final(self).n() == 0, //[C12]
@@fn BigDataListItemRange::segment_offset
    requires self.wf(hive.data@)
    ensures ret == le32(hive.data@, self.0.start as int), //[C03,C09]
@@fn BigDataListItemRanges::validate_signature
    requires hive.wf()
    ensures ret is Ok <==> header.val().signature@ == seq![0x64u8, 0x62u8], //[C03,C09]
        off_is(ret, header.pos()), //[C14]
        err_is(ret, Er::Sig(header.pos(), seq![0x64u8, 0x62u8], header.val().signature@)), //[C17]
@@fn BigDataListItemRanges::new
    requires hive.wf(), in_data(header_cell_range, hive.data@)
    ensures bdr_is(ret, big_of(hive.data@, Res::Ok(header_cell_range.start as int, header_cell_range.end as int), data_size as int, data_size_field_offset as int)), //[C09,C03]
        doff_ok(ret, big_of(hive.data@, Res::Ok(header_cell_range.start as int, header_cell_range.end as int), data_size as int, data_size_field_offset as int)), //[C14]
        derr_ok(ret, big_of(hive.data@, Res::Ok(header_cell_range.start as int, header_cell_range.end as int), data_size as int, data_size_field_offset as int)), //[C17]
        ret is Ok ==> in_data(ret->Ok_0.items_range, hive.data@) && data_size <= 16344 * ret->Ok_0.n(), //[C09]
@entry
    broadcast use lemma_sub_sub;
@@fn BigDataSlices::new
    requires hive.wf(), in_data(header_cell_range, hive.data@)
    ensures ret is Ok ==> ret->Ok_0.wf(), //[C01]
        bds_is(ret, hive, big_of(hive.data@, Res::Ok(header_cell_range.start as int, header_cell_range.end as int), data_size as int, data_size_field_offset as int)), //[C09,C03]
        doff_ok(ret, big_of(hive.data@, Res::Ok(header_cell_range.start as int, header_cell_range.end as int), data_size as int, data_size_field_offset as int)), //[C14]
        derr_ok(ret, big_of(hive.data@, Res::Ok(header_cell_range.start as int, header_cell_range.end as int), data_size as int, data_size_field_offset as int)), //[C17]
@@fn BigDataSlices::next
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).hive == old(self).hive,
        ret is Some <==> old(self).slices().len() > 0, //[C09]
        ret is Some ==> bs_is(ret->Some_0, old(self).hive.data@, old(self).slices()[0]), //[C09,C03]
        ret is Some ==> off_ok(ret->Some_0, old(self).slices()[0]), //[C14]
        ret is Some ==> err_ok(ret->Some_0, old(self).slices()[0]), //[C17]
        ret is Some ==> final(self).slices() =~= old(self).slices().drop_first(), //[C09]
        ret is None ==> final(self).slices().len() == 0, //[C12,C09]
@entry
    proof { if self.bytes_left > 16344 { lemma_segs_skip(self.hive.data@, self.big_data_list_item_ranges.items_range.start as int, self.bytes_left as int, 1); } }
@@fn BigDataSlices::count
    requires self.wf()
    ensures ret == self.slices().len(), //[C12]
@@fn BigDataSlices::size_hint
    requires self.wf()
    ensures ret.0 == self.slices().len(), ret.1 == Some(ret.0), //[C12]
@@fn BigDataSlices::len
    requires self.wf()
    ensures ret == self.slices().len(), //[C12]
@@fn BigDataSlices::last
    requires self.wf()
    ensures
        ret is Some <==> self.slices().len() > 0, //[C12]
        ret is Some ==> bs_is(ret->Some_0, self.hive.data@, self.slices().last()), //[C12]
        ret is Some ==> off_ok(ret->Some_0, self.slices().last()), //[C14]
        ret is Some ==> err_ok(ret->Some_0, self.slices().last()), //[C17]
@@fn BigDataSlices::nth
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).hive == old(self).hive,
        ret is Some <==> n < old(self).slices().len(), //[C12]
        ret is Some ==> bs_is(ret->Some_0, old(self).hive.data@, old(self).slices()[n as int]), //[C12]
        ret is Some ==> off_ok(ret->Some_0, old(self).slices()[n as int]), //[C14]
        ret is Some ==> err_ok(ret->Some_0, old(self).slices()[n as int]), //[C17]
        ret is Some ==> final(self).slices() =~= old(self).slices().subrange(n + 1, old(self).slices().len() as int), //[C12]
        ret is None ==> final(self).slices().len() == 0, //[C12]
@entry
    hide(segs);
    proof { let l = self.bytes_left as int; let ls = self.big_data_list_item_ranges.items_range.start as int; lemma_segs_len(self.hive.data@, ls, l); lemma_segs_len(self.hive.data@, ls, 0);
      if 16344 * n < l { lemma_segs_skip(self.hive.data@, ls, l, n as int); } }
@@fn KeyValueData::into_vec
    requires self.wf()
    ensures ret is Ok <==> self.bytes() is Ok, //[C09]
        ret is Ok ==> ret->Ok_0@ =~= self.bytes()->Ok_0, //[C09]
        ret is Err && self.bytes() is Err ==> err_of(ret->Err_0).off() == self.bytes()->Err_0.off(), //[C14]
        ret is Err && self.bytes() is Err ==> err_of(ret->Err_0) =~= self.bytes()->Err_0, //[C17]
@attr #[verifier::loop_isolation(false)]
@loop 0
    invariant it__0.wf(), it__0.hive == iter.hive, cat_pre(data@, cat(iter.hive.data@, it__0.slices())) == cat_pre(Seq::empty(), self.bytes()),
    decreases it__0.slices().len()
@loopstart 0
    let ghost pd__ = data@;
    let ghost ps__ = it__0.slices();
    proof { lemma_cat_pre(data@, iter.hive.data@, it__0.slices()); }
@loopend 0
    proof { assert(data@ =~= pd__ + iter.hive.data@.subrange(ps__[0]->Ok_0, ps__[0]->Ok_1)); }
@entry
    hide(segs); hide(cat);
    proof { if self is Big { lemma_cat_pre(Seq::empty(), self->Big_0.hive.data@, self->Big_0.slices()); } }

@@fn KeyValue::data
    requires self.wf()
    ensures kd_is(ret, self.hive, data_of(self.hive.data@, self.header_range.start as int, self.hive.minor())), //[C09,C03,C10,C11]
        doff_ok(ret, data_of(self.hive.data@, self.header_range.start as int, self.hive.minor())), //[C14]
        derr_ok(ret, data_of(self.hive.data@, self.header_range.start as int, self.hive.minor())), //[C17]
@@fn KeyValue::data_size
    requires self.wf()
    ensures ret == data_len(self.hive.data@, self.header_range.start as int), //[C09]
@@fn KeyValue::data_type
    requires self.wf()
    ensures
        ret is Ok <==> le32(self.hive.data@, self.header_range.start + 12) <= 11, //[C10]
        ret is Ok ==> Some(ret->Ok_0) == type_of(le32(self.hive.data@, self.header_range.start + 12)), //[C10]
        ret is Err ==> ret->Err_0 is UnsupportedKeyValueDataType, //[C10]
        off_is(ret, 4096 + self.header_range.start + 12), //[C14]
        err_is(ret, Er::Code(4096 + self.header_range.start + 12, le32(self.hive.data@, self.header_range.start + 12) as int)), //[C17]
@@item
/// C10: the twelve type codes
pub open spec fn type_of(c: u32) -> Option<KeyValueDataType> {
    match c { 0 => Some(KeyValueDataType::RegNone), 1 => Some(KeyValueDataType::RegSZ), 2 => Some(KeyValueDataType::RegExpandSZ), 3 => Some(KeyValueDataType::RegBinary), 4 => Some(KeyValueDataType::RegDWord), 5 => Some(KeyValueDataType::RegDWordBigEndian),
        6 => Some(KeyValueDataType::RegLink), 7 => Some(KeyValueDataType::RegMultiSZ), 8 => Some(KeyValueDataType::RegResourceList), 9 => Some(KeyValueDataType::RegFullResourceDescriptor), 10 => Some(KeyValueDataType::RegResourceRequirementsList), 11 => Some(KeyValueDataType::RegQWord), _ => None }
}
/// C10: the number a value of exactly `n` bytes stores; None: not of the type
pub open spec fn num_data(d: Seq<u8>, s: int, minor: u32, n: int) -> Option<Seq<u8>> { match data_of(d, s, minor) { DRes::Small(a, b) => if b - a == n { Some(d.subrange(a, b)) } else { None }, _ => None } }
pub open spec fn num32(d: Seq<u8>, s: int, minor: u32) -> Option<u32> {
    match num_data(d, s, minor, 4) { None => None, Some(b) => if le32(d, s + 12) == 4 { Some(le32(b, 0)) } else if le32(d, s + 12) == 5 { Some(le32(b.reverse(), 0)) } else { None } }
}
pub open spec fn num64(d: Seq<u8>, s: int, minor: u32) -> Option<u64> { match num_data(d, s, minor, 8) { None => None, Some(b) => if le32(d, s + 12) == 11 { Some(le64(b, 0)) } else { None } } }
/// C14: the offset an error of the integer readers may carry (the slice itself is covered by the search, T8)
pub open spec fn num_off<T>(r: Result<T>, d: Seq<u8>, s: int, minor: u32, n: int) -> bool {
    r is Err ==> match data_of(d, s, minor) {
        DRes::Err(o) => err_of(r->Err_0).off() == o.off(),
        DRes::Big(_, _, _) => err_of(r->Err_0).off() == Some(wrap_off(le32(d, s + 8) as int)),
        DRes::Small(a, b) => if b - a == n { if le32(d, s + 12) > 11 { err_of(r->Err_0).off() == Some(4096 + s + 12) } else { true } } else { true },
    }
}
/// C17: what such an error tells
pub open spec fn num_err<T>(r: Result<T>, d: Seq<u8>, s: int, minor: u32, n: int, t: Seq<KeyValueDataType>) -> bool {
    r is Err ==> match data_of(d, s, minor) {
        DRes::Err(o) => err_of(r->Err_0) =~= o,
        DRes::Big(_, _, k) => err_of(r->Err_0) =~= Er::Data(wrap_off(le32(d, s + 8) as int), n, k),
        DRes::Small(a, b) => if b - a == n { if le32(d, s + 12) > 11 { err_of(r->Err_0) =~= Er::Code(4096 + s + 12, le32(d, s + 12) as int) } else { err_of(r->Err_0) =~= Er::Type(t, type_of(le32(d, s + 12))->Some_0) } }
            else { r->Err_0 is InvalidDataSize && r->Err_0->InvalidDataSize_expected == n && r->Err_0->InvalidDataSize_actual == b - a },
    }
}
@@fn KeyValue::dword_data
    requires self.wf()
    ensures
        ret is Ok <==> num32(self.hive.data@, self.header_range.start as int, self.hive.minor()) is Some, //[C10]
        ret is Ok ==> Some(ret->Ok_0) == num32(self.hive.data@, self.header_range.start as int, self.hive.minor()), //[C10]
        num_off(ret, self.hive.data@, self.header_range.start as int, self.hive.minor(), 4), //[C14]
        num_err(ret, self.hive.data@, self.header_range.start as int, self.hive.minor(), 4, seq![KeyValueDataType::RegDWord, KeyValueDataType::RegDWordBigEndian]), //[C17]
@@fn KeyValue::qword_data
    requires self.wf()
    ensures
        ret is Ok <==> num64(self.hive.data@, self.header_range.start as int, self.hive.minor()) is Some, //[C10]
        ret is Ok ==> Some(ret->Ok_0) == num64(self.hive.data@, self.header_range.start as int, self.hive.minor()), //[C10]
        num_off(ret, self.hive.data@, self.header_range.start as int, self.hive.minor(), 8), //[C14]
        num_err(ret, self.hive.data@, self.header_range.start as int, self.hive.minor(), 8, seq![KeyValueDataType::RegQWord]), //[C17]
@@fn KeyValue::name
    requires self.wf()
    ensures nm_is(ret, self.hive.data@, value_name(self.hive.data@, self.header_range.start as int, self.data_range.end as int)), //[C15,C03,C08]
        noff_ok(ret, value_name(self.hive.data@, self.header_range.start as int, self.data_range.end as int)), //[C14]
        nerr_ok(ret, value_name(self.hive.data@, self.header_range.start as int, self.data_range.end as int)), //[C17]

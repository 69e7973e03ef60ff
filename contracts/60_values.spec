
@@item
impl KeyValuesListItemRange { pub open spec fn wf(&self, d: Seq<u8>) -> bool { self.0.start + 4 == self.0.end && self.0.end <= d.len() } }
impl KeyValuesListItemRanges {
    /// number of remaining items
    pub open spec fn n(&self) -> int { rlen(self.items_range) / 4 }
    pub open spec fn advanced(&self, o: Self, k: int) -> bool { self.items_range.end == o.items_range.end && self.items_range.start == o.items_range.start + k * 4 }
}
@@fn KeyValuesListItemRanges::next
    ensures
        ret is Some <==> old(self).n() > 0, //[C08,C12]
        old(self).n() > 0 ==> ret is Some, //[C01]
        ret is Some ==> old(self).items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == 4 && ret->Some_0.0.end <= old(self).items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == old(self).items_range.start && ret->Some_0.0.end == old(self).items_range.start + 4 && final(self).advanced(*old(self), 1), //[C08,C12]
        ret is Some ==> old(self).items_range.start + 4 <= old(self).items_range.end && final(self).n() == old(self).n() - 1, //[C08,C12]
        ret is None ==> *final(self) == *old(self), //[C08,C12]
@@fn KeyValuesListItemRanges::count
    ensures ret == self.n(), //[C12]
@@fn KeyValuesListItemRanges::size_hint
    ensures ret.0 == self.n(), ret.1 == Some(ret.0), //[C12]
@@fn KeyValuesListItemRanges::len
    ensures ret == self.n(), //[C12]
@@fn KeyValuesListItemRanges::last
    ensures
        ret is Some <==> self.n() > 0, //[C12]
        self.n() > 0 ==> ret is Some, //[C01]
        ret is Some ==> self.items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == 4 && ret->Some_0.0.end <= self.items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == self.items_range.start + 4 * (self.n() - 1) && ret->Some_0.0.end == ret->Some_0.0.start + 4, //[C12]
@@fn KeyValuesListItemRanges::nth
    ensures
        ret is Some <==> n < old(self).n(), //[C12]
        n < old(self).n() ==> ret is Some, //[C01]
        ret is Some ==> old(self).items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == 4 && ret->Some_0.0.end <= old(self).items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == old(self).items_range.start + 4 * n && ret->Some_0.0.end == ret->Some_0.0.start + 4, //[C12]
        ret is Some ==> final(self).advanced(*old(self), n + 1) && final(self).n() == old(self).n() - n - 1, //[C12]
        ret is None ==> final(self).items_range.end == old(self).items_range.end && final(self).n() == 0, //[C12]

@@fn KeyValuesListItemRange::key_value_offset
    requires self.wf(hive.data@)
    ensures ret == le32(hive.data@, self.0.start as int), //[C03,C08]
@@fn KeyValuesListItemRanges::new
    requires cell_range.start <= cell_range.end < usize::MAX
    ensures ret is Ok <==> cell_range.start + count * 4 <= cell_range.end, //[C03,C08]
        ret is Ok ==> ret->Ok_0.items_range.start == cell_range.start && ret->Ok_0.items_range.end == cell_range.start + count * 4 && ret->Ok_0.n() == count, //[C03,C08]
        off_is(ret, count_field_offset as int), //[C14]
        err_is(ret, Er::Size(count_field_offset as int, sat(count * 4), rlen(cell_range))), //[C17]
@@item
pub open spec fn value_entries(d: Seq<u8>, s: int, n: int) -> Seq<Res> { Seq::new(n as nat, |i: int| value_at(d, le32(d, s + i * 4) as int)) }
impl<'h, B: SplitByteSlice> KeyValues<'h, B> {
    pub open spec fn wf(&self) -> bool { self.hive.wf() && self.key_values_list_item_ranges.items_range.end <= self.hive.data@.len() }
    pub open spec fn entries(&self) -> Seq<Res> { value_entries(self.hive.data@, self.key_values_list_item_ranges.items_range.start as int, self.key_values_list_item_ranges.n()) }
}
@@fn KeyValues::new
    requires hive.wf(), in_data(cell_range, hive.data@)
    ensures ret is Ok <==> cell_range.start + count * 4 <= cell_range.end, //[C03,C08]
        ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.hive == hive && ret->Ok_0.entries() =~= value_entries(hive.data@, cell_range.start as int, count as int), //[C03,C08]
        off_is(ret, count_field_offset as int), //[C14]
        err_is(ret, Er::Size(count_field_offset as int, sat(count * 4), rlen(cell_range))), //[C17]

@@fn KeyValues::next
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).hive == old(self).hive,
        ret is Some <==> old(self).entries().len() > 0, //[C08]
        ret is Some ==> kv_is(ret->Some_0, old(self).hive, old(self).entries()[0]), //[C08,C03]
        ret is Some ==> off_ok(ret->Some_0, old(self).entries()[0]), //[C14]
        ret is Some ==> err_ok(ret->Some_0, old(self).entries()[0]), //[C17]
        ret is Some ==> final(self).entries() == old(self).entries().drop_first(), //[C08]
        ret is None ==> final(self).entries().len() == 0, //[C12,C08]
@@fn KeyValues::count
    requires self.wf()
    ensures ret == self.entries().len(), //[C12]
@@fn KeyValues::last
    requires self.wf()
    ensures
        ret is Some <==> self.entries().len() > 0, //[C12]
        ret is Some ==> kv_is(ret->Some_0, self.hive, self.entries().last()), //[C12]
        ret is Some ==> off_ok(ret->Some_0, self.entries().last()), //[C14]
        ret is Some ==> err_ok(ret->Some_0, self.entries().last()), //[C17]
@@fn KeyValues::nth
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).hive == old(self).hive,
        ret is Some <==> n < old(self).entries().len(), //[C12]
        ret is Some ==> kv_is(ret->Some_0, old(self).hive, old(self).entries()[n as int]), //[C12]
        ret is Some ==> off_ok(ret->Some_0, old(self).entries()[n as int]), //[C14]
        ret is Some ==> err_ok(ret->Some_0, old(self).entries()[n as int]), //[C17]
        ret is Some ==> final(self).entries() == old(self).entries().subrange(n + 1, old(self).entries().len() as int), //[C12]
        ret is None ==> final(self).entries().len() == 0, //[C12]

@@fn KeyValues::size_hint
    requires self.wf()
    ensures ret.0 == self.entries().len(), ret.1 == Some(ret.0), //[C12]
@@fn KeyValues::len
    requires self.wf()
    ensures ret == self.entries().len(), //[C12]

@@item
impl<'h, B: SplitByteSlice> KeyValue<'h, B> {
    pub open spec fn loc(&self) -> Res { Res::Ok(self.header_range.start as int, self.data_range.end as int) }
    pub open spec fn wf(&self) -> bool {
        &&& self.hive.wf()
        &&& self.header_range.end == self.header_range.start + 20
        &&& self.data_range.start == self.header_range.end
        &&& self.data_range.start <= self.data_range.end <= self.hive.data@.len()
    }
    pub open spec fn hdr(&self) -> KeyValueHeader { KeyValueHeader::parse(self.hive.data@.subrange(self.header_range.start as int, self.header_range.start + 20)) }
}
pub open spec fn kv_is<'h, B: SplitByteSlice>(r: Result<KeyValue<'h, B>>, hive: &Hive<B>, x: Res) -> bool {
    match (r, x) { (Ok(k), Res::Ok(s, e)) => k.wf() && k.hive == hive && k.loc() == x, (Err(_), Res::Err(_)) => true, _ => false }
}
@@fn KeyValue::new
    requires hive.wf(), in_data(cell_range, hive.data@)
    ensures ret is Ok ==> ret->Ok_0.wf(), //[C01]
        kv_is(ret, hive, value_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C03,C08,C16]
        off_ok(ret, value_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C14]
        err_ok(ret, value_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C17]
@@fn KeyValue::header
    requires self.wf()
    ensures ret.val() == self.hdr(), ret.pos() == 4096 + self.header_range.start, //[C03,C14]
@@fn KeyValue::validate_signature
    requires self.wf()
    ensures ret is Ok <==> sig2(self.hive.data@, self.header_range.start as int) == seq![0x76u8, 0x6bu8], //[C03]
        off_is(ret, 4096 + self.header_range.start), //[C14]
        err_is(ret, Er::Sig(4096 + self.header_range.start, seq![0x76u8, 0x6bu8], sig2(self.hive.data@, self.header_range.start as int))), //[C17]
@entry
    broadcast use lemma_sub_sub;

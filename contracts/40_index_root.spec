
@@item
/// the offset in the k-th item of an index root listed from s on
pub open spec fn item_off(d: Seq<u8>, s: int, k: int) -> int { le32(d, s + 4 * k) as int }
impl IndexRootItemRange { pub open spec fn wf(&self, d: Seq<u8>) -> bool { self.0.start + 4 == self.0.end && self.0.end <= d.len() } }
impl IndexRootItemRanges {
    /// number of remaining items
    pub open spec fn n(&self) -> int { rlen(self.items_range) / 4 }
    pub open spec fn advanced(&self, o: Self, k: int) -> bool { self.items_range.end == o.items_range.end && self.items_range.start == o.items_range.start + k * 4 }
}
@@fn IndexRootItemRanges::next
    ensures
        ret is Some <==> old(self).n() > 0, //[C04,C12]
        old(self).n() > 0 ==> ret is Some, //[C01]
        ret is Some ==> old(self).items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == 4 && ret->Some_0.0.end <= old(self).items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == old(self).items_range.start && ret->Some_0.0.end == old(self).items_range.start + 4 && final(self).advanced(*old(self), 1), //[C04,C12]
        ret is Some ==> old(self).items_range.start + 4 <= old(self).items_range.end && final(self).n() == old(self).n() - 1, //[C04,C12]
        ret is None ==> *final(self) == *old(self), //[C04,C12]
@@fn IndexRootItemRanges::count
    ensures ret == self.n(), //[C12]
@@fn IndexRootItemRanges::size_hint
    ensures ret.0 == self.n(), ret.1 == Some(ret.0), //[C12]
@@fn IndexRootItemRanges::len
    ensures ret == self.n(), //[C12]
@@fn IndexRootItemRanges::last
    ensures
        ret is Some <==> self.n() > 0, //[C12]
        self.n() > 0 ==> ret is Some, //[C01]
        ret is Some ==> self.items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == 4 && ret->Some_0.0.end <= self.items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == self.items_range.start + 4 * (self.n() - 1) && ret->Some_0.0.end == ret->Some_0.0.start + 4, //[C12]
@@fn IndexRootItemRanges::nth
    ensures
        ret is Some <==> n < old(self).n(), //[C12]
        n < old(self).n() ==> ret is Some, //[C01]
        ret is Some ==> old(self).items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == 4 && ret->Some_0.0.end <= old(self).items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == old(self).items_range.start + 4 * n && ret->Some_0.0.end == ret->Some_0.0.start + 4, //[C12]
        ret is Some ==> final(self).advanced(*old(self), n + 1) && final(self).n() == old(self).n() - n - 1, //[C12]
        ret is Some ==> forall|d: Seq<u8>| #[trigger] le32(d, ret->Some_0.0.start as int) == item_off(d, old(self).items_range.start as int, n as int), //[C12]
        ret is None ==> final(self).items_range.end == old(self).items_range.end && final(self).n() == 0, //[C12]

@@fn IndexRootItemRange::subkeys_list_offset
    requires self.wf(hive.data@)
    ensures ret == le32(hive.data@, self.0.start as int), //[C03,C04]
@@fn IndexRootItemRanges::new
    requires data_range.start <= data_range.end
    ensures ret is Ok <==> data_range.start + count * 4 <= data_range.end, //[C03,C04]
        ret is Ok ==> ret->Ok_0.items_range.start == data_range.start && ret->Ok_0.items_range.end == data_range.start + count * 4 && ret->Ok_0.n() == count, //[C03,C04]
        off_is(ret, count_field_offset as int), //[C14]
        err_is(ret, Er::Size(count_field_offset as int, count * 4, rlen(data_range))), //[C17]
@@fn IndexRootItemRanges::from
    ensures ret == index_root_key_nodes.index_root_item_ranges,
@@fn IndexRootKeyNodes::new
    requires hive.wf(), in_data(data_range, hive.data@)
    ensures ret is Ok <==> data_range.start + count * 4 <= data_range.end, //[C03,C04]
        ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.hive == hive && ret->Ok_0.leaf_item_ranges is None
            && ret->Ok_0.index_root_item_ranges.items_range.start == data_range.start && ret->Ok_0.index_root_item_ranges.items_range.end == data_range.start + count * 4
            && ret->Ok_0.entries() =~= flat(hive.data@, data_range.start as int, data_range.start + count * 4), //[C03,C04]
        off_is(ret, count_field_offset as int), //[C14]
        err_is(ret, Er::Size(count_field_offset as int, count * 4, rlen(data_range))), //[C17]
@@item
impl<'h, B: SplitByteSlice> IndexRootKeyNodes<'h, B> {
    pub open spec fn leaf_n(&self) -> int { match self.leaf_item_ranges { Some(l) => l.n(), None => 0 } }
    pub open spec fn leaf_rest(&self) -> Seq<Res> { match self.leaf_item_ranges { Some(l) => l.entries(self.hive.data@), None => Seq::empty() } }
    pub open spec fn wf(&self) -> bool {
        &&& self.hive.wf()
        &&& self.index_root_item_ranges.items_range.start <= self.index_root_item_ranges.items_range.end <= self.hive.data@.len()
        &&& self.leaf_item_ranges is Some ==> self.leaf_item_ranges->Some_0.items_range.end <= self.hive.data@.len()
        &&& self.leaf_n() + 65535 * self.index_root_item_ranges.n() <= 65535 * 65535
    }
    pub open spec fn entries(&self) -> Seq<Res> { self.leaf_rest() + flat(self.hive.data@, self.index_root_item_ranges.items_range.start as int, self.index_root_item_ranges.items_range.end as int) }
    pub proof fn lemma_len(&self) requires self.wf() ensures self.entries().len() <= 65535 * 65535
    { lemma_flat_len(self.hive.data@, self.index_root_item_ranges.items_range.start as int, self.index_root_item_ranges.items_range.end as int); }
}

@@fn IndexRootKeyNodes::next
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).hive == old(self).hive,
        ret is Some <==> old(self).entries().len() > 0, //[C04]
        ret is Some ==> kn_is(ret->Some_0, old(self).hive, old(self).entries()[0]), //[C04,C03]
        ret is Some ==> off_ok(ret->Some_0, old(self).entries()[0]), //[C14]
        ret is Some ==> err_ok(ret->Some_0, old(self).entries()[0]), //[C17]
        ret is Some ==> final(self).entries() == old(self).entries().drop_first(), //[C04]
        ret is None ==> final(self).entries().len() == 0, //[C12,C04]
@attr #[verifier::loop_isolation(false)]
@entry
    hide(leaf_at); hide(leaf_seq); hide(key_at); hide(cell); hide(LeafItemRanges::entries);
    broadcast use lemma_leaf_seq; broadcast use lemma_cat_first; broadcast use lemma_cat_empty;
@loop 0
    invariant
        self.wf(), self.hive == old(self).hive, self.entries() == old(self).entries(),
    decreases self.index_root_item_ranges.n()
@alt
@loop 0
    invariant
        self.wf(), self.hive == old(self).hive,
        $i is None ==> self.entries() == old(self).entries() && self.leaf_rest().len() == 0,
        $i is Some ==> old(self).entries().len() > 0 && $i->Some_0.wf(self.hive.data@) && leaf_item(self.hive.data@, $i->Some_0.0) == old(self).entries()[0] && self.entries() == old(self).entries().drop_first(),
    decreases self.index_root_item_ranges.n()
@@fn IndexRootKeyNodes::count
    requires self.wf()
    ensures ret == self.entries().len(), //[C12]
@entry
    proof { self.lemma_len(); }
    let ghost all__ = self.entries();
@loop 0
    invariant it__.wf(), all__.len() <= 65535 * 65535, n__ + it__.entries().len() == all__.len(), 
    ensures it__.entries().len() == 0
    decreases it__.entries().len()
@@fn IndexRootKeyNodes::last
    requires self.wf()
    ensures
        ret is Some <==> self.entries().len() > 0, //[C12]
        ret is Some ==> kn_is(ret->Some_0, self.hive, self.entries().last()), //[C12]
        ret is Some ==> off_ok(ret->Some_0, self.entries().last()), //[C14]
        ret is Some ==> err_ok(ret->Some_0, self.entries().last()), //[C17]
@entry
    let ghost all__ = self.entries();
    let ghost h__ = self.hive;
    let ghost mut k__: int = 0;
@loop 0
    invariant it__.wf(), it__.hive == h__, 0 <= k__ <= all__.len(), it__.entries() =~= all__.subrange(k__, all__.len() as int),
        l__ is Some <==> k__ > 0,
        l__ is Some ==> kn_is(l__->Some_0, h__, all__[k__ - 1]) && off_ok(l__->Some_0, all__[k__ - 1]) && err_ok(l__->Some_0, all__[k__ - 1]),
    ensures k__ == all__.len()
    decreases it__.entries().len()
@loopend 0
    proof { k__ = k__ + 1; }
@@fn IndexRootKeyNodes::nth
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).hive == old(self).hive,
        ret is Some <==> n < old(self).entries().len(), //[C12]
        ret is Some ==> kn_is(ret->Some_0, old(self).hive, old(self).entries()[n as int]), //[C12]
        ret is Some ==> off_ok(ret->Some_0, old(self).entries()[n as int]), //[C14]
        ret is Some ==> err_ok(ret->Some_0, old(self).entries()[n as int]), //[C17]
        ret is Some ==> final(self).entries() == old(self).entries().subrange(n + 1, old(self).entries().len() as int), //[C12]
        ret is None ==> final(self).entries().len() == 0, //[C12]
@entry
    let ghost all__ = self.entries();
    let ghost mut k__: int = 0;
@loop 0
    invariant self.wf(), self.hive == old(self).hive, all__ == old(self).entries(), 0 <= k__ <= all__.len(), n__ + k__ == n, self.entries() =~= all__.subrange(k__, all__.len() as int),
    decreases n__
@loopend 0
    proof { k__ = k__ + 1; }
@@fn IndexRootKeyNodes::size_hint
    requires self.wf()
    ensures ret.0 <= self.entries().len(), ret.1 is Some ==> ret.1->Some_0 >= self.entries().len(), //[C12]

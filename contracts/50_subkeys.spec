
@@item
impl<'h, B: SplitByteSlice> SubkeysList<'h, B> {
    pub open spec fn wf(&self) -> bool { self.hive.wf() && self.header_range.end == self.header_range.start + 4 && self.data_range.start == self.header_range.end && self.data_range.start <= self.data_range.end <= self.hive.data@.len() }
    pub open spec fn hdr(&self) -> SubkeysListHeader { SubkeysListHeader::parse(self.hive.data@.subrange(self.header_range.start as int, self.header_range.start + 4)) }
    pub open spec fn sig(&self) -> Seq<u8> { sig2(self.hive.data@, self.header_range.start as int) }
}
pub open spec fn sl_is<'h, B: SplitByteSlice>(r: Result<SubkeysList<'h, B>>, hive: &Hive<B>, x: Res) -> bool {
    match (r, x) { (Ok(k), Res::Ok(s, e)) => k.wf() && k.hive == hive && k.header_range.start == s && k.data_range.end == e, (Err(_), Res::Err(_)) => true, _ => false }
}
/// C04: the entries of the subkeys list in a cell, or the error before the first item
pub enum Lst { Ok(Seq<Res>), Err(Er) }
pub open spec fn sublist_in(d: Seq<u8>, c: Res) -> Lst {
    match list_in(d, c, true) { Res::Err(o) => Lst::Err(o),
        Res::Ok(s, e) => { let n = le16(d, s + 2) as int;
            if is_ri_sig(sig2(d, s)) { if s + 4 + n * 4 > e { Lst::Err(Er::Size(wrap_off(s + 2), n * 4, e - (s + 4))) } else { Lst::Ok(flat(d, s + 4, s + 4 + n * 4)) } }
            else { let sz = lsz(sig_type(sig2(d, s))); if s + 4 + n * sz > e { Lst::Err(Er::Size(wrap_off(s + 2), n * sz, e - (s + 4))) } else { Lst::Ok(leaf_entries(d, s + 4, n, sz)) } } } }
}
pub open spec fn sk_is<'h, B: SplitByteSlice>(r: Result<SubKeyNodes<'h, B>>, hive: &Hive<B>, x: Lst) -> bool {
    match (r, x) { (Ok(k), Lst::Ok(s)) => k.wf() && k.hv() == hive && k.entries() == s, (Err(_), Lst::Err(_)) => true, _ => false }
}
pub open spec fn loff_ok<T>(r: Result<T>, x: Lst) -> bool { r is Err && x is Err ==> err_of(r->Err_0).off() == x->Err_0.off() }
pub open spec fn lerr_ok<T>(r: Result<T>, x: Lst) -> bool { r is Err && x is Err ==> err_of(r->Err_0) =~= x->Err_0 }
@@fn SubkeysList::new
    requires hive.wf(), in_data(cell_range, hive.data@)
    ensures ret is Ok ==> ret->Ok_0.wf(), //[C01]
        sl_is(ret, hive, list_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int), true)), //[C03,C04]
        off_ok(ret, list_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int), true)), //[C14]
        err_ok(ret, list_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int), true)), //[C17]
@@fn SubkeysList::new_without_index_root
    requires hive.wf(), in_data(cell_range, hive.data@)
    ensures ret is Ok ==> ret->Ok_0.wf(), //[C01]
        sl_is(ret, hive, list_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int), false)), //[C03,C04]
        off_ok(ret, list_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int), false)), //[C14]
        err_ok(ret, list_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int), false)), //[C17]
@@fn SubkeysList::new_internal
    requires hive.wf(), in_data(cell_range, hive.data@)
    ensures ret is Ok ==> ret->Ok_0.wf(), //[C01]
        sl_is(ret, hive, list_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int), index_root_supported)), //[C03,C04]
        off_ok(ret, list_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int), index_root_supported)), //[C14]
        err_ok(ret, list_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int), index_root_supported)), //[C17]
@@fn SubkeysList::header
    requires self.wf()
    ensures ret.val() == self.hdr(), ret.pos() == 4096 + self.header_range.start, //[C03,C14]
@@fn SubkeysList::validate_signature
    requires self.wf()
    ensures ret is Ok <==> is_leaf_sig(self.sig()) || (index_root_supported && is_ri_sig(self.sig())), //[C03,C04]
        off_is(ret, 4096 + self.header_range.start), //[C14]
        err_is(ret, Er::Sig(4096 + self.header_range.start, list_sigs(index_root_supported), sig2(self.hive.data@, self.header_range.start as int))), //[C17]
@entry
    broadcast use lemma_sub_sub;
@@item
impl<'h, B: SplitByteSlice> SubKeyNodes<'h, B> {
    pub open spec fn wf(&self) -> bool { match self { SubKeyNodes::IndexRoot(i) => i.wf(), SubKeyNodes::Leaf(i) => i.wf() } }
    pub open spec fn entries(&self) -> Seq<Res> { match self { SubKeyNodes::IndexRoot(i) => i.entries(), SubKeyNodes::Leaf(i) => i.entries() } }
    pub open spec fn hv(&self) -> &'h Hive<B> { match self { SubKeyNodes::IndexRoot(i) => i.hive, SubKeyNodes::Leaf(i) => i.hive } }
}
@@fn SubKeyNodes::new
    requires hive.wf(), in_data(cell_range, hive.data@)
    ensures ret is Ok ==> ret->Ok_0.wf(), //[C01]
        sk_is(ret, hive, sublist_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C03,C04]
        loff_ok(ret, sublist_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C14]
        lerr_ok(ret, sublist_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C17]
        ret is Ok ==> (ret->Ok_0 is IndexRoot <==> is_ri_sig(sig2(hive.data@, cell_range.start as int))), //[C04,C05]
        ret is Ok && ret->Ok_0 is IndexRoot ==> ret->Ok_0->IndexRoot_0.leaf_item_ranges is None && ret->Ok_0->IndexRoot_0.index_root_item_ranges.n() <= 65535, //[C05]
        ret is Ok && ret->Ok_0 is Leaf ==> ret->Ok_0->Leaf_0.leaf_item_ranges.n() <= 65535, //[C05]

@@fn SubKeyNodes::next
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).hv() == old(self).hv(),
        ret is Some <==> old(self).entries().len() > 0, //[C04]
        ret is Some ==> kn_is(ret->Some_0, old(self).hv(), old(self).entries()[0]), //[C04,C03]
        ret is Some ==> off_ok(ret->Some_0, old(self).entries()[0]), //[C14]
        ret is Some ==> err_ok(ret->Some_0, old(self).entries()[0]), //[C17]
        ret is Some ==> final(self).entries() == old(self).entries().drop_first(), //[C04]
        ret is None ==> final(self).entries().len() == 0, //[C12,C04]
@@fn SubKeyNodes::count
    requires self.wf()
    ensures ret == self.entries().len(), //[C12]
@@fn SubKeyNodes::last
    requires self.wf()
    ensures
        ret is Some <==> self.entries().len() > 0, //[C12]
        ret is Some ==> kn_is(ret->Some_0, self.hv(), self.entries().last()), //[C12]
        ret is Some ==> off_ok(ret->Some_0, self.entries().last()), //[C14]
        ret is Some ==> err_ok(ret->Some_0, self.entries().last()), //[C17]
@@fn SubKeyNodes::nth
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).hv() == old(self).hv(),
        ret is Some <==> n < old(self).entries().len(), //[C12]
        ret is Some ==> kn_is(ret->Some_0, old(self).hv(), old(self).entries()[n as int]), //[C12]
        ret is Some ==> off_ok(ret->Some_0, old(self).entries()[n as int]), //[C14]
        ret is Some ==> err_ok(ret->Some_0, old(self).entries()[n as int]), //[C17]
        ret is Some ==> final(self).entries() == old(self).entries().subrange(n + 1, old(self).entries().len() as int), //[C12]
        ret is None ==> final(self).entries().len() == 0, //[C12]

@@fn SubKeyNodes::size_hint
    requires self.wf()
    ensures ret.0 <= self.entries().len(), ret.1 is Some ==> ret.1->Some_0 >= self.entries().len(), //[C12]

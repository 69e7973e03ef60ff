@@item
impl KeyNodeItemRange {
    /// the key's cell contents
    pub open spec fn loc(&self) -> Res { Res::Ok(self.header_range.start as int, self.data_range.end as int) }
    pub open spec fn wf(&self, d: Seq<u8>) -> bool {
        &&& self.header_range.end == self.header_range.start + 76
        &&& self.data_range.start == self.header_range.end
        &&& self.data_range.start <= self.data_range.end <= d.len()
    }
    pub open spec fn hdr(&self, d: Seq<u8>) -> KeyNodeHeader { KeyNodeHeader::parse(d.subrange(self.header_range.start as int, self.header_range.start + 76)) }
}
pub open spec fn ki_is(r: Result<KeyNodeItemRange>, d: Seq<u8>, x: Res) -> bool {
    match (r, x) { (Ok(k), Res::Ok(s, e)) => k.wf(d) && k.loc() == x, (Err(_), Res::Err(_)) => true, _ => false }
}
impl<'h, B: SplitByteSlice> KeyNode<'h, B> {
    pub open spec fn wf(&self) -> bool { self.hive.wf() && self.item_range.wf(self.hive.data@) }
    pub open spec fn loc(&self) -> Res { self.item_range.loc() }
}
pub open spec fn kn_is<'h, B: SplitByteSlice>(r: Result<KeyNode<'h, B>>, hive: &Hive<B>, x: Res) -> bool {
    match (r, x) { (Ok(k), Res::Ok(s, e)) => k.wf() && k.hive == hive && k.loc() == x, (Err(_), Res::Err(_)) => true, _ => false }
}
pub open spec fn leaf_item(d: Seq<u8>, r: Range<usize>) -> Res { key_at(d, le32(d, r.start as int) as int) }

@@fn KeyNodeItemRange::from_cell_range
    requires hive.wf(), in_data(cell_range, hive.data@)
    ensures ret is Ok ==> ret->Ok_0.wf(hive.data@), //[C01]
        ki_is(ret, hive.data@, key_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C03,C04,C16]
        off_ok(ret, key_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C14]
        err_ok(ret, key_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C17]
@@fn KeyNodeItemRange::from_leaf_item_range
    requires hive.wf(), leaf_item_range.wf(hive.data@)
    ensures ret is Ok ==> ret->Ok_0.wf(hive.data@), //[C01]
        ki_is(ret, hive.data@, leaf_item(hive.data@, leaf_item_range.0)), //[C03,C04]
        off_ok(ret, leaf_item(hive.data@, leaf_item_range.0)), //[C14]
        err_ok(ret, leaf_item(hive.data@, leaf_item_range.0)), //[C17]
@@fn KeyNodeItemRange::header
    requires hive.wf(), self.wf(hive.data@)
    ensures ret.val() == self.hdr(hive.data@), ret.pos() == 4096 + self.header_range.start, //[C03,C14]
@@fn KeyNodeItemRange::validate_signature
    requires hive.wf(), self.wf(hive.data@)
    ensures ret is Ok <==> sig2(hive.data@, self.header_range.start as int) == seq![0x6eu8, 0x6bu8], //[C03]
        off_is(ret, 4096 + self.header_range.start), //[C14]
        err_is(ret, Er::Sig(4096 + self.header_range.start, seq![0x6eu8, 0x6bu8], sig2(hive.data@, self.header_range.start as int))), //[C17]
@entry
    broadcast use lemma_sub_sub;
@@fn KeyNode::from_cell_range
    requires hive.wf(), in_data(cell_range, hive.data@)
    ensures ret is Ok ==> ret->Ok_0.wf(), //[C01]
        kn_is(ret, hive, key_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C03,C04,C16]
        off_ok(ret, key_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C14]
        err_ok(ret, key_in(hive.data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C17]
@@fn KeyNode::from_leaf_item_range
    requires hive.wf(), leaf_item_range.wf(hive.data@)
    ensures ret is Ok ==> ret->Ok_0.wf(), //[C01]
        kn_is(ret, hive, leaf_item(hive.data@, leaf_item_range.0)), //[C03,C04,C16]
        off_ok(ret, leaf_item(hive.data@, leaf_item_range.0)), //[C14]
        err_ok(ret, leaf_item(hive.data@, leaf_item_range.0)), //[C17]
@@fn LeafItemRange::key_node_offset
    requires self.wf(hive.data@)
    ensures ret == le32(hive.data@, self.0.start as int), //[C03,C04]
@@item
impl LeafItemRange { pub open spec fn wf(&self, d: Seq<u8>) -> bool { self.0.start + 4 <= self.0.end <= d.len() } }


@@item
pub open spec fn lsz(t: LeafType) -> int { match t { LeafType::Index => 4, _ => 8 } }
pub open spec fn is_leaf_sig(s: Seq<u8>) -> bool { s == seq![0x6cu8, 0x66u8] || s == seq![0x6cu8, 0x68u8] || s == seq![0x6cu8, 0x69u8] }
pub open spec fn is_ri_sig(s: Seq<u8>) -> bool { s == seq![0x72u8, 0x69u8] }
pub open spec fn sig_type(s: Seq<u8>) -> LeafType { if s == seq![0x6cu8, 0x66u8] { LeafType::Fast } else if s == seq![0x6cu8, 0x68u8] { LeafType::Hash } else { LeafType::Index } }
/// the entries of `n` leaf items from `s` on
pub open spec fn leaf_entries(d: Seq<u8>, s: int, n: int, sz: int) -> Seq<Res> { Seq::new(n as nat, |i: int| key_at(d, le32(d, s + i * sz) as int)) }
pub proof fn lemma_leaf_sub(d: Seq<u8>, s: int, n: int, t: LeafType, k: int) requires 0 <= k
    ensures k < n ==> leaf_entries(d, s + k * lsz(t), n - k, lsz(t)) =~= leaf_entries(d, s, n, lsz(t)).subrange(k, n),
        k < n ==> leaf_entries(d, s + k * lsz(t), n - k, lsz(t)).drop_first() =~= leaf_entries(d, s, n, lsz(t)).subrange(k + 1, n),
{ if k < n { assert forall|i: int| 0 <= i < n - k implies #[trigger] leaf_entries(d, s + k * lsz(t), n - k, lsz(t))[i] == leaf_entries(d, s, n, lsz(t)).subrange(k, n)[i] by { assert(s + k * lsz(t) + i * lsz(t) == s + (k + i) * lsz(t)) by (nonlinear_arith); } 
    assert(leaf_entries(d, s, n, lsz(t)).subrange(k, n).drop_first() =~= leaf_entries(d, s, n, lsz(t)).subrange(k + 1, n)); } }
/// the signatures that a subkeys list may have, as errors list them
pub open spec fn list_sigs(ri: bool) -> Seq<u8> { if ri { seq![0x6cu8, 0x66u8, 0x7cu8, 0x6cu8, 0x68u8, 0x7cu8, 0x6cu8, 0x69u8, 0x7cu8, 0x72u8, 0x69u8] } else { seq![0x6cu8, 0x66u8, 0x7cu8, 0x6cu8, 0x68u8, 0x7cu8, 0x6cu8, 0x69u8] } }
/// a subkeys list in a cell: header and signature
pub open spec fn list_in(d: Seq<u8>, c: Res, ri: bool) -> Res {
    match c { Res::Err(o) => Res::Err(o),
        Res::Ok(s, e) => if s + 4 > e { Res::Err(Er::Head(wrap_off(s), 4, e - s)) } else if !(is_leaf_sig(sig2(d, s)) || (ri && is_ri_sig(sig2(d, s)))) { Res::Err(Er::Sig(wrap_off(s), list_sigs(ri), sig2(d, s))) } else { Res::Ok(s, e) } }
}
/// C04: the leaf list that an index root item at data offset `off` denotes, as a contents range, or the error it contributes
pub open spec fn leaf_at(d: Seq<u8>, off: int) -> Res {
    match list_in(d, cell(d, off), false) { Res::Err(o) => Res::Err(o),
        Res::Ok(s, e) => { let n = le16(d, s + 2) as int; let sz = lsz(sig_type(sig2(d, s)));
            if n == 0 { Res::Err(Er::Size(wrap_off(s + 2), 1, 0)) } else if s + 4 + n * sz > e { Res::Err(Er::Size(wrap_off(s + 2), n * sz, e - (s + 4))) } else { Res::Ok(s, e) } } }
}
pub open spec fn leaf_seq(d: Seq<u8>, off: int) -> Seq<Res> {
    match leaf_at(d, off) { Res::Err(o) => seq![Res::Err(o)], Res::Ok(s, e) => leaf_entries(d, s + 4, le16(d, s + 2) as int, lsz(sig_type(sig2(d, s)))) }
}
pub broadcast proof fn lemma_leaf_seq(d: Seq<u8>, off: int) ensures leaf_at(d, off) is Err ==> #[trigger] leaf_seq(d, off) == seq![leaf_at(d, off)], leaf_seq(d, off).len() <= 65535 { }
/// C04: all entries of the leaf lists of the index root items [s, e), one after another
pub open spec fn flat(d: Seq<u8>, s: int, e: int) -> Seq<Res> decreases e - s { if s + 4 > e { Seq::empty() } else { leaf_seq(d, le32(d, s) as int) + flat(d, s + 4, e) } }
pub proof fn lemma_flat_len(d: Seq<u8>, s: int, e: int)
    requires s <= e
    ensures flat(d, s, e).len() <= 65535 * ((e - s) / 4)
    decreases e - s
{ if s + 4 <= e { lemma_flat_len(d, s + 4, e); } }

impl LeafItemRanges {
    pub open spec fn n(&self) -> int { match self.leaf_type { LeafType::Index => rlen(self.items_range) / 4, _ => rlen(self.items_range) / 8 } }
    pub open spec fn advanced(&self, o: Self, k: int) -> bool { self.leaf_type == o.leaf_type && self.items_range.end == o.items_range.end && self.items_range.start == o.items_range.start + k * lsz(o.leaf_type) }
    pub open spec fn entries(&self, d: Seq<u8>) -> Seq<Res> { leaf_entries(d, self.items_range.start as int, self.n(), lsz(self.leaf_type)) }
}
pub proof fn lemma_leaf_step(l: LeafItemRanges)
    ensures forall|d: Seq<u8>| (#[trigger] l.entries(d)).len() == l.n(),
        l.n() > 0 ==> forall|d: Seq<u8>| #[trigger] l.entries(d).drop_first() =~= leaf_entries(d, l.items_range.start + lsz(l.leaf_type), l.n() - 1, lsz(l.leaf_type))
{ if l.n() > 0 { assert forall|d: Seq<u8>| #[trigger] l.entries(d).drop_first() =~= leaf_entries(d, l.items_range.start + lsz(l.leaf_type), l.n() - 1, lsz(l.leaf_type)) by { 
    lemma_leaf_sub(d, l.items_range.start as int, l.n(), l.leaf_type, 0); assert(l.entries(d) == leaf_entries(d, l.items_range.start as int, l.n(), lsz(l.leaf_type)));
    let z = lsz(l.leaf_type); let a = l.entries(d).drop_first(); let b = leaf_entries(d, l.items_range.start + z, l.n() - 1, z);
    assert forall|i: int| 0 <= i < b.len() implies a[i] == b[i] by { assert(l.items_range.start + z + i * z == l.items_range.start + (i + 1) * z) by (nonlinear_arith); } } } }
/// result of LeafItemRanges::new and its wrappers
pub open spec fn lir_ok(x: LeafItemRanges, count: int, data_range: Range<usize>, t: LeafType) -> bool {
    x.leaf_type == t && x.items_range.start == data_range.start && x.items_range.end == data_range.start + count * lsz(t)
}
@@fn LeafType::from_signature
    ensures ret is Some <==> is_leaf_sig(signature@), ret is Some ==> ret->Some_0 == sig_type(signature@), //[C03,C04]
@@fn LeafType::item_size
    ensures ret == lsz(*self), //[C03,C04]
@@fn LeafItemRanges::new
    requires data_range.start <= data_range.end
    ensures ret is Ok <==> data_range.start + count * lsz(leaf_type) <= data_range.end, //[C03,C04]
        ret is Ok ==> lir_ok(ret->Ok_0, count as int, data_range, leaf_type) && ret->Ok_0.n() == count, //[C03,C04]
        off_is(ret, count_field_offset as int), //[C14]
        err_is(ret, Er::Size(count_field_offset as int, count * lsz(leaf_type), rlen(data_range))), //[C17]
@@fn LeafItemRanges::from_index_root_item_range
    requires hive.wf(), index_root_item_range.wf(hive.data@)
    ensures
        ret is Ok ==> ret->Ok_0.n() >= 1 && ret->Ok_0.items_range.start <= ret->Ok_0.items_range.end <= hive.data@.len(), //[C01]
    ({
        let off = le32(hive.data@, index_root_item_range.0.start as int) as int;
        let x = leaf_at(hive.data@, off);
        &&& ret is Ok <==> x is Ok
        &&& ret is Ok ==> ret->Ok_0.items_range.start == x->Ok_0 + 4 && lir_ok(ret->Ok_0, le16(hive.data@, x->Ok_0 + 2) as int, Range { start: (x->Ok_0 + 4) as usize, end: x->Ok_1 as usize }, sig_type(sig2(hive.data@, x->Ok_0)))
            && ret->Ok_0.n() == le16(hive.data@, x->Ok_0 + 2) && ret->Ok_0.items_range.start <= ret->Ok_0.items_range.end <= hive.data@.len() 
            && ret->Ok_0.entries(hive.data@) =~= leaf_seq(hive.data@, off) && ret->Ok_0.n() >= 1
    }), //[C03,C04,C05]
        off_ok(ret, leaf_at(hive.data@, le32(hive.data@, index_root_item_range.0.start as int) as int)), //[C14]
        err_ok(ret, leaf_at(hive.data@, le32(hive.data@, index_root_item_range.0.start as int) as int)), //[C17]
@@fn LeafItemRanges::next
    ensures
        ret is Some <==> old(self).n() > 0, //[C04,C12]
        old(self).n() > 0 ==> ret is Some, //[C01]
        ret is Some ==> old(self).items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == lsz(old(self).leaf_type) && ret->Some_0.0.end <= old(self).items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == old(self).items_range.start && ret->Some_0.0.end == old(self).items_range.start + lsz(old(self).leaf_type) && final(self).advanced(*old(self), 1), //[C03,C04,C12]
        ret is Some ==> ret->Some_0.0.end <= old(self).items_range.end && final(self).n() == old(self).n() - 1, //[C03,C04,C12]
        ret is None ==> *final(self) == *old(self), //[C04,C12]
        ret is Some ==> forall|d: Seq<u8>| #![trigger old(self).entries(d)] #![trigger leaf_item(d, ret->Some_0.0)] #![trigger final(self).entries(d)] old(self).entries(d).len() > 0 && final(self).entries(d) == old(self).entries(d).drop_first() && old(self).entries(d)[0] == leaf_item(d, ret->Some_0.0), //[C04]
        ret is None ==> forall|d: Seq<u8>| #[trigger] old(self).entries(d).len() == 0,
@entry
    proof { lemma_leaf_step(*self); }
@@fn LeafItemRanges::count
    ensures ret == self.n(), //[C12]
@@fn LeafItemRanges::size_hint
    ensures ret.0 == self.n(), ret.1 == Some(ret.0), //[C12]
@@fn LeafItemRanges::len
    ensures ret == self.n(), //[C12]
@@fn LeafItemRanges::last
    ensures
        ret is Some <==> self.n() > 0, //[C12]
        self.n() > 0 ==> ret is Some, //[C01]
        ret is Some ==> self.items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == lsz(self.leaf_type) && ret->Some_0.0.end <= self.items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == self.items_range.start + lsz(self.leaf_type) * (self.n() - 1) && ret->Some_0.0.end == ret->Some_0.0.start + lsz(self.leaf_type) && ret->Some_0.0.end <= self.items_range.end, //[C12]
        ret is Some ==> forall|d: Seq<u8>| #![trigger self.entries(d)] #![trigger leaf_item(d, ret->Some_0.0)] self.entries(d).last() == leaf_item(d, ret->Some_0.0), //[C12]
@@fn LeafItemRanges::nth
    ensures
        ret is Some <==> n < old(self).n(), //[C12]
        n < old(self).n() ==> ret is Some, //[C01]
        ret is Some ==> old(self).items_range.start <= ret->Some_0.0.start && ret->Some_0.0.end - ret->Some_0.0.start == lsz(old(self).leaf_type) && ret->Some_0.0.end <= old(self).items_range.end, //[C01]
        ret is Some ==> ret->Some_0.0.start == old(self).items_range.start + lsz(old(self).leaf_type) * n && ret->Some_0.0.end == ret->Some_0.0.start + lsz(old(self).leaf_type) && ret->Some_0.0.end <= old(self).items_range.end, //[C12]
        ret is Some ==> final(self).advanced(*old(self), n + 1) && final(self).n() == old(self).n() - n - 1, //[C12]
        ret is None ==> final(self).items_range.end == old(self).items_range.end && final(self).leaf_type == old(self).leaf_type && final(self).n() == 0, //[C12]
        ret is Some ==> forall|d: Seq<u8>| #![trigger old(self).entries(d)] #![trigger leaf_item(d, ret->Some_0.0)] old(self).entries(d)[n as int] == leaf_item(d, ret->Some_0.0), //[C12]
@entry
    proof { assert(n * lsz(self.leaf_type) == (if self.leaf_type is Index { 4 * n } else { 8 * n })) by { if self.leaf_type is Index { assert(n * 4 == 4 * n); } else { assert(n * 8 == 8 * n); } } 
        assert(lsz(self.leaf_type) * n == n * lsz(self.leaf_type)) by (nonlinear_arith); assert((n + 1) * lsz(self.leaf_type) == n * lsz(self.leaf_type) + lsz(self.leaf_type)) by (nonlinear_arith); }
@@fn LeafItemRanges::from
    ensures ret == leaf_key_nodes.leaf_item_ranges,
@@fn LeafKeyNodes::new
    requires hive.wf(), in_data(data_range, hive.data@)
    ensures ret is Ok <==> data_range.start + count * lsz(leaf_type) <= data_range.end, //[C03,C04]
        ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.hive == hive && lir_ok(ret->Ok_0.leaf_item_ranges, count as int, data_range, leaf_type)
            && ret->Ok_0.entries() =~= leaf_entries(hive.data@, data_range.start as int, count as int, lsz(leaf_type)), //[C03,C04]
        off_is(ret, count_field_offset as int), //[C14]
        err_is(ret, Er::Size(count_field_offset as int, count * lsz(leaf_type), rlen(data_range))), //[C17]
@@item
impl<'h, B: SplitByteSlice> LeafKeyNodes<'h, B> {
    pub open spec fn wf(&self) -> bool { self.hive.wf() && self.leaf_item_ranges.items_range.end <= self.hive.data@.len() }
    pub open spec fn entries(&self) -> Seq<Res> { self.leaf_item_ranges.entries(self.hive.data@) }
}

@@fn LeafKeyNodes::next
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).hive == old(self).hive,
        ret is Some <==> old(self).entries().len() > 0, //[C04]
        ret is Some ==> kn_is(ret->Some_0, old(self).hive, old(self).entries()[0]), //[C04,C03]
        ret is Some ==> off_ok(ret->Some_0, old(self).entries()[0]), //[C14]
        ret is Some ==> err_ok(ret->Some_0, old(self).entries()[0]), //[C17]
        ret is Some ==> final(self).entries() == old(self).entries().drop_first(), //[C04]
        ret is None ==> final(self).entries().len() == 0, //[C12,C04]
@@fn LeafKeyNodes::count
    requires self.wf()
    ensures ret == self.entries().len(), //[C12]
@@fn LeafKeyNodes::last
    requires self.wf()
    ensures
        ret is Some <==> self.entries().len() > 0, //[C12]
        ret is Some ==> kn_is(ret->Some_0, self.hive, self.entries().last()), //[C12]
        ret is Some ==> off_ok(ret->Some_0, self.entries().last()), //[C14]
        ret is Some ==> err_ok(ret->Some_0, self.entries().last()), //[C17]
@@fn LeafKeyNodes::nth
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).hive == old(self).hive,
        ret is Some <==> n < old(self).entries().len(), //[C12]
        ret is Some ==> kn_is(ret->Some_0, old(self).hive, old(self).entries()[n as int]), //[C12]
        ret is Some ==> off_ok(ret->Some_0, old(self).entries()[n as int]), //[C14]
        ret is Some ==> err_ok(ret->Some_0, old(self).entries()[n as int]), //[C17]
        ret is Some ==> final(self).entries() == old(self).entries().subrange(n + 1, old(self).entries().len() as int), //[C12]
        ret is None ==> final(self).entries().len() == 0, //[C12]
@entry
    hide(key_at); hide(cell); hide(key_in);
    proof { let t = self.leaf_item_ranges.leaf_type; assert(n * lsz(t) == (if t is Index { 4 * n } else { 8 * n })) by { if t is Index { assert(n * 4 == 4 * n); } else { assert(n * 8 == 8 * n); } }
        lemma_leaf_sub(self.hive.data@, self.leaf_item_ranges.items_range.start as int, self.leaf_item_ranges.n(), t, n as int); }
@@fn LeafKeyNodes::size_hint
    requires self.wf()
    ensures ret.0 == self.entries().len(), ret.1 == Some(ret.0), //[C12]
@@fn LeafKeyNodes::len
    requires self.wf()
    ensures ret == self.entries().len(), //[C12]

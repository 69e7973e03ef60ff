@@item
/// C15: a stored name: encoding (true: Latin1) and the range of its bytes
pub enum NameR { Ok(bool, int, int), Err(Er) }
pub open spec fn name_of(d: Seq<u8>, s: int, e: int, len_off: int, hdr: int, latin1: bool) -> NameR {
    let n = le16(d, s + len_off) as int;
    if s + hdr + n > e { NameR::Err(Er::Size(4096 + s + len_off, n, e - (s + hdr))) } else { NameR::Ok(latin1, s + hdr, s + hdr + n) }
}
/// the name of the key in the cell contents [s, e)
pub open spec fn key_name(d: Seq<u8>, s: int, e: int) -> NameR { name_of(d, s, e, 72, 76, le16(d, s + 2) & 0x20 == 0x20) }
pub open spec fn value_name(d: Seq<u8>, s: int, e: int) -> NameR { name_of(d, s, e, 2, 20, le16(d, s + 16) & 1 == 1) }
/// the class name of the key: the first bytes of the referenced cell
pub open spec fn class_of(d: Seq<u8>, s: int) -> Option<NameR> {
    if le32(d, s + 48) == 0xffff_ffff { None } else {
        match cell(d, le32(d, s + 48) as int) { Res::Err(o) => Some(NameR::Err(o)),
            Res::Ok(a, b) => { let n = le16(d, s + 74) as int; if a + n > b { Some(NameR::Err(Er::Size(4096 + s + 74, n, b - a))) } else { Some(NameR::Ok(false, a, a + n)) } } } }
}
pub open spec fn nm_is<'h>(r: Result<NtHiveNameString<'h>>, d: Seq<u8>, x: NameR) -> bool {
    match (r, x) { (Ok(n), NameR::Ok(l, a, b)) => (n is Latin1 <==> l) && n.bytes() == d.subrange(a, b), (Err(_), NameR::Err(_)) => true, _ => false }
}
pub open spec fn noff_ok<T>(r: Result<T>, x: NameR) -> bool { r is Err && x is Err ==> err_of(r->Err_0).off() == x->Err_0.off() }
pub open spec fn nerr_ok<T>(r: Result<T>, x: NameR) -> bool { r is Err && x is Err ==> err_of(r->Err_0) =~= x->Err_0 }
pub open spec fn onm_is<'h>(r: Option<Result<NtHiveNameString<'h>>>, d: Seq<u8>, x: Option<NameR>) -> bool {
    match (r, x) { (None, None) => true, (Some(a), Some(b)) => nm_is(a, d, b), _ => false }
}
pub open spec fn onoff_ok<T>(r: Option<Result<T>>, x: Option<NameR>) -> bool { r is Some && x is Some ==> noff_ok(r->Some_0, x->Some_0) }
pub open spec fn onerr_ok<T>(r: Option<Result<T>>, x: Option<NameR>) -> bool { r is Some && x is Some ==> nerr_ok(r->Some_0, x->Some_0) }
/// the UTF-16 code units of a name (None: the name cannot be read)
pub open spec fn units_of(d: Seq<u8>, x: NameR) -> Option<Seq<u16>> {
    match x { NameR::Err(_) => None, NameR::Ok(l, a, b) => Some(if l { latin1_units(d.subrange(a, b)) } else { utf16le_units(d.subrange(a, b)) }) }
}
/// the cell of the subkeys list (None: no subkeys)
pub open spec fn subkeys_cell(d: Seq<u8>, s: int) -> Option<Res> { if le32(d, s + 28) == 0xffff_ffff { None } else { Some(cell(d, le32(d, s + 28) as int)) } }
/// C04: the entries of the subkeys of the key at s
pub open spec fn subkeys_of(d: Seq<u8>, s: int) -> Option<Lst> { match subkeys_cell(d, s) { None => None, Some(c) => Some(sublist_in(d, c)) } }
/// C08: the entries of the values of the key at s
pub open spec fn values_of(d: Seq<u8>, s: int) -> Option<Lst> {
    if le32(d, s + 40) == 0xffff_ffff { None } else {
        match cell(d, le32(d, s + 40) as int) { Res::Err(o) => Some(Lst::Err(o)),
            Res::Ok(a, b) => { let n = le32(d, s + 36) as int; if a + 4 * n > b { Some(Lst::Err(Er::Size(4096 + s + 36, sat(4 * n), b - a))) } else { Some(Lst::Ok(value_entries(d, a, n))) } } } }
}
pub open spec fn kvs_is<'h, B: SplitByteSlice>(r: Option<Result<KeyValues<'h, B>>>, hive: &Hive<B>, x: Option<Lst>) -> bool {
    match (r, x) { (None, None) => true, (Some(Ok(k)), Some(Lst::Ok(s))) => k.wf() && k.hive == hive && k.entries() == s, (Some(Err(_)), Some(Lst::Err(_))) => true, _ => false }
}
pub open spec fn oloff_ok<T>(r: Option<Result<T>>, x: Option<Lst>) -> bool { r is Some && x is Some ==> loff_ok(r->Some_0, x->Some_0) }
pub open spec fn olerr_ok<T>(r: Option<Result<T>>, x: Option<Lst>) -> bool { r is Some && x is Some ==> lerr_ok(r->Some_0, x->Some_0) }
/// C08: the first value whose name equals `n`, or the first unreadable one before it
pub enum Find { None, Ok(Res), Err(Er) }
pub open spec fn value_units(d: Seq<u8>, x: Res) -> Option<Seq<u16>> { match x { Res::Ok(s, e) => units_of(d, value_name(d, s, e)), Res::Err(_) => None } }
pub open spec fn value_err(d: Seq<u8>, x: Res) -> Er { match x { Res::Ok(s, e) => match value_name(d, s, e) { NameR::Err(o) => o, _ => Er::Base(0, 0, 0) }, Res::Err(o) => o } }
pub open spec fn find_value(d: Seq<u8>, es: Seq<Res>, n: Seq<u16>) -> Find decreases es.len() {
    if es.len() == 0 { Find::None } else {
        match value_units(d, es[0]) { None => Find::Err(value_err(d, es[0])),
            Some(u) => if cmp_units(u, n) == Ordering::Equal { Find::Ok(es[0]) } else { find_value(d, es.drop_first(), n) } } }
}
pub open spec fn lookup_value(d: Seq<u8>, s: int, n: Seq<u16>) -> Find {
    match values_of(d, s) { None => Find::None, Some(Lst::Err(o)) => Find::Err(o), Some(Lst::Ok(es)) => find_value(d, es, n) }
}
pub open spec fn fv_is<'h, B: SplitByteSlice>(r: Option<Result<KeyValue<'h, B>>>, hive: &Hive<B>, x: Find) -> bool {
    match (r, x) { (None, Find::None) => true, (Some(a), Find::Ok(l)) => a is Ok && kv_is(a, hive, l), (Some(Err(_)), Find::Err(_)) => true, _ => false }
}
pub open spec fn fvoff_ok<T>(r: Option<Result<T>>, x: Find) -> bool { r is Some && r->Some_0 is Err && x is Err ==> err_of(r->Some_0->Err_0).off() == x->Err_0.off() }
pub open spec fn fverr_ok<T>(r: Option<Result<T>>, x: Find) -> bool { r is Some && r->Some_0 is Err && x is Err ==> err_of(r->Some_0->Err_0) =~= x->Err_0 }

@@fn KeyNodeItemRange::class_name
    requires hive.wf(), self.wf(hive.data@)
    ensures onm_is(ret, hive.data@, class_of(hive.data@, self.header_range.start as int)), //[C15,C03]
        onoff_ok(ret, class_of(hive.data@, self.header_range.start as int)), //[C14]
        onerr_ok(ret, class_of(hive.data@, self.header_range.start as int)), //[C17]
@@fn KeyNodeItemRange::name
    requires hive.wf(), self.wf(hive.data@)
    ensures nm_is(ret, hive.data@, key_name(hive.data@, self.header_range.start as int, self.data_range.end as int)), //[C15,C03,C05]
        noff_ok(ret, key_name(hive.data@, self.header_range.start as int, self.data_range.end as int)), //[C14]
        nerr_ok(ret, key_name(hive.data@, self.header_range.start as int, self.data_range.end as int)), //[C17]
@@fn KeyNodeItemRange::subkeys_cell_range
    requires hive.wf(), self.wf(hive.data@)
    ensures
        ret is Some <==> subkeys_cell(hive.data@, self.header_range.start as int) is Some, //[C04]
        ret is Some ==> is_range(ret->Some_0, subkeys_cell(hive.data@, self.header_range.start as int)->Some_0), //[C04,C03]
        ret is Some ==> off_ok(ret->Some_0, subkeys_cell(hive.data@, self.header_range.start as int)->Some_0), //[C14]
        ret is Some ==> err_ok(ret->Some_0, subkeys_cell(hive.data@, self.header_range.start as int)->Some_0), //[C17]
        ret is Some && ret->Some_0 is Ok ==> in_data(ret->Some_0->Ok_0, hive.data@),
@@fn KeyNodeItemRange::values
    requires hive.wf(), self.wf(hive.data@)
    ensures kvs_is(ret, hive, values_of(hive.data@, self.header_range.start as int)), //[C08,C03]
        oloff_ok(ret, values_of(hive.data@, self.header_range.start as int)), //[C14]
        olerr_ok(ret, values_of(hive.data@, self.header_range.start as int)), //[C17]
@@fn KeyNodeItemRange::value
    requires hive.wf(), self.wf(hive.data@)
    ensures fv_is(ret, hive, lookup_value(hive.data@, self.header_range.start as int, utf16(name@))), //[C08]
        fvoff_ok(ret, lookup_value(hive.data@, self.header_range.start as int, utf16(name@))), //[C08,C14]
        fverr_ok(ret, lookup_value(hive.data@, self.header_range.start as int, utf16(name@))), //[C17]
@attr #[verifier::loop_isolation(false)]
@loop 0
    invariant it__0.wf(), it__0.hive == hive,
        find_value(hive.data@, it__0.entries(), utf16(name@)) == lookup_value(hive.data@, self.header_range.start as int, utf16(name@)),
    decreases it__0.entries().len()
@@fn KeyNode::class_name
    requires self.wf()
    ensures onm_is(ret, self.hive.data@, class_of(self.hive.data@, self.item_range.header_range.start as int)), //[C15,C03]
        onoff_ok(ret, class_of(self.hive.data@, self.item_range.header_range.start as int)), //[C14]
        onerr_ok(ret, class_of(self.hive.data@, self.item_range.header_range.start as int)), //[C17]
@@fn KeyNode::name
    requires self.wf()
    ensures nm_is(ret, self.hive.data@, key_name(self.hive.data@, self.item_range.header_range.start as int, self.item_range.data_range.end as int)), //[C15,C03]
        noff_ok(ret, key_name(self.hive.data@, self.item_range.header_range.start as int, self.item_range.data_range.end as int)), //[C14]
        nerr_ok(ret, key_name(self.hive.data@, self.item_range.header_range.start as int, self.item_range.data_range.end as int)), //[C17]
@@fn KeyNode::subkeys
    requires self.wf()
    ensures
        ret is Some <==> subkeys_of(self.hive.data@, self.item_range.header_range.start as int) is Some, //[C04]
        ret is Some ==> sk_is(ret->Some_0, self.hive, subkeys_of(self.hive.data@, self.item_range.header_range.start as int)->Some_0), //[C04,C03]
        oloff_ok(ret, subkeys_of(self.hive.data@, self.item_range.header_range.start as int)), //[C14]
        olerr_ok(ret, subkeys_of(self.hive.data@, self.item_range.header_range.start as int)), //[C17]
@@fn KeyNode::values
    requires self.wf()
    ensures kvs_is(ret, self.hive, values_of(self.hive.data@, self.item_range.header_range.start as int)), //[C08,C03]
        oloff_ok(ret, values_of(self.hive.data@, self.item_range.header_range.start as int)), //[C14]
        olerr_ok(ret, values_of(self.hive.data@, self.item_range.header_range.start as int)), //[C17]
@@fn KeyNode::value
    requires self.wf()
    ensures fv_is(ret, self.hive, lookup_value(self.hive.data@, self.item_range.header_range.start as int, utf16(name@))), //[C08]
        fvoff_ok(ret, lookup_value(self.hive.data@, self.item_range.header_range.start as int, utf16(name@))), //[C08,C14]
        fverr_ok(ret, lookup_value(self.hive.data@, self.item_range.header_range.start as int, utf16(name@))), //[C17]

@@item
impl<'h, B: SplitByteSlice> PartialEqSpecImpl for KeyNode<'h, B> {
    open spec fn obeys_eq_spec() -> bool { true }
    /// C16: same open hive, same location
    open spec fn eq_spec(&self, other: &Self) -> bool { self.hive.oid() == other.hive.oid() && self.item_range == other.item_range }
}
impl<'h, B: SplitByteSlice> PartialEqSpecImpl for KeyValue<'h, B> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.hive.oid() == other.hive.oid() && self.header_range == other.header_range && self.data_range == other.data_range }
}
/*@FN lemma C16 key handles are equal exactly when they come from the same hive and denote the same cell*/
pub proof fn lemma_key_eq<'h, B: SplitByteSlice>(a: KeyNode<'h, B>, b: KeyNode<'h, B>)
    requires a.wf(), b.wf()
    ensures <KeyNode<'h, B> as PartialEqSpec<KeyNode<'h, B>>>::eq_spec(&a, &b) <==> a.hive.oid() == b.hive.oid() && a.loc() == b.loc(), //[C16]
{ } /*@END*/
/*@FN lemma C16 value handles are equal exactly when they come from the same hive and denote the same cell*/
pub proof fn lemma_value_eq<'h, B: SplitByteSlice>(a: KeyValue<'h, B>, b: KeyValue<'h, B>)
    requires a.wf(), b.wf()
    ensures <KeyValue<'h, B> as PartialEqSpec<KeyValue<'h, B>>>::eq_spec(&a, &b) <==> a.hive.oid() == b.hive.oid() && a.loc() == b.loc(), //[C16]
{ } /*@END*/
@@fn PartialEq for KeyNode::eq
    ensures ret == (self.hive.oid() == other.hive.oid() && self.item_range == other.item_range), //[C16]
@@fn PartialEq for KeyValue::eq
    ensures ret == (self.hive.oid() == other.hive.oid() && self.header_range == other.header_range && self.data_range == other.data_range), //[C16]

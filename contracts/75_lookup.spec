@@item
// ======== C05: looking up a subkey by name ========
/// the UTF-16 code units of the name of a key (None: the key or its name cannot be read)
pub open spec fn key_units(d: Seq<u8>, x: Res) -> Option<Seq<u16>> { match x { Res::Ok(s, e) => units_of(d, key_name(d, s, e)), Res::Err(_) => None } }
pub open spec fn key_err(d: Seq<u8>, x: Res) -> Er { match x { Res::Ok(s, e) => match key_name(d, s, e) { NameR::Err(o) => o, _ => Er::Base(0, 0, 0) }, Res::Err(o) => o } }
/// how the name of the key compares with the searched name
pub open spec fn kcmp(d: Seq<u8>, x: Res, n: Seq<u16>) -> Ordering { cmp_units(key_units(d, x)->Some_0, n) }
/// all entries can be read, and their names do not descend
pub open spec fn sorted(d: Seq<u8>, es: Seq<Res>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() ==> key_units(d, #[trigger] es[i]) is Some
    &&& forall|i: int, j: int| 0 <= i <= j < es.len() ==> cmp_units(key_units(d, #[trigger] es[i])->Some_0, key_units(d, #[trigger] es[j])->Some_0) != Ordering::Greater
}
/// C05: `r` is a correct answer to looking up the name `n` in the entries `es`
pub open spec fn found(d: Seq<u8>, es: Seq<Res>, n: Seq<u16>, r: Option<Result<KeyNodeItemRange>>) -> bool {
    match r {
        Some(Ok(k)) => k.wf(d) && es.contains(k.loc()) && key_units(d, k.loc()) is Some && kcmp(d, k.loc(), n) == Ordering::Equal,
        Some(Err(x)) => exists|e: Res| #[trigger] es.contains(e) && key_units(d, e) is None,
        None => sorted(d, es) ==> forall|i: int| 0 <= i < es.len() ==> kcmp(d, #[trigger] es[i], n) != Ordering::Equal,
    }
}
/// C14, C17: an error is that of an entry that cannot be read
pub open spec fn found_off(d: Seq<u8>, es: Seq<Res>, r: Option<Result<KeyNodeItemRange>>) -> bool { match r { Some(Err(x)) => exists|e: Res| #[trigger] es.contains(e) && key_units(d, e) is None && err_of(x).off() == key_err(d, e).off(), _ => true } }
pub open spec fn found_err(d: Seq<u8>, es: Seq<Res>, r: Option<Result<KeyNodeItemRange>>) -> bool { match r { Some(Err(x)) => exists|e: Res| #[trigger] es.contains(e) && key_units(d, e) is None && err_of(x) == key_err(d, e), _ => true } }
/*@FN lemma C05 an entry before (behind) a smaller (greater) one is smaller (greater)*/
pub proof fn lemma_sorted(d: Seq<u8>, es: Seq<Res>, n: Seq<u16>)
    ensures
        forall|i: int| 0 <= i < es.len() ==> es.contains(#[trigger] es[i]),
        sorted(d, es) ==> forall|i: int, j: int| 0 <= i <= j < es.len() && kcmp(d, #[trigger] es[j], n) == Ordering::Less ==> kcmp(d, #[trigger] es[i], n) == Ordering::Less, //[C05]
        sorted(d, es) ==> forall|i: int, j: int| 0 <= i <= j < es.len() && kcmp(d, #[trigger] es[i], n) == Ordering::Greater ==> kcmp(d, #[trigger] es[j], n) == Ordering::Greater, //[C05]
{
    if sorted(d, es) {
        assert forall|i: int, j: int| 0 <= i <= j < es.len() && kcmp(d, #[trigger] es[j], n) == Ordering::Less implies kcmp(d, #[trigger] es[i], n) == Ordering::Less by {
            lemma_cmp_trans(key_units(d, es[i])->Some_0, key_units(d, es[j])->Some_0, n); }
        assert forall|i: int, j: int| 0 <= i <= j < es.len() && kcmp(d, #[trigger] es[i], n) == Ordering::Greater implies kcmp(d, #[trigger] es[j], n) == Ordering::Greater by {
            let a = key_units(d, es[i])->Some_0; let b = key_units(d, es[j])->Some_0;
            lemma_cmp_anti(a, n); lemma_cmp_anti(a, b); lemma_cmp_anti(b, n); lemma_cmp_trans(n, a, b); }
    }
} /*@END*/
/// number of entries of the first k leaf lists of an index root
pub open spec fn pos(d: Seq<u8>, s: int, k: int) -> int { flat(d, s, s + 4 * k).len() as int }
pub open spec fn all_cmp(d: Seq<u8>, es: Seq<Res>, a: int, b: int, n: Seq<u16>, o: Ordering) -> bool { forall|j: int| a <= j < b ==> kcmp(d, #[trigger] es[j], n) == o }
pub proof fn lemma_flat_cat(d: Seq<u8>, s: int, m: int, e: int)
    requires s <= m <= e, (m - s) % 4 == 0
    ensures flat(d, s, e) == flat(d, s, m) + flat(d, m, e)
    decreases m - s
{
    if s < m { lemma_flat_cat(d, s + 4, m, e); 
        let a = leaf_seq(d, le32(d, s) as int);
        assert(a + (flat(d, s + 4, m) + flat(d, m, e)) =~= a + flat(d, s + 4, m) + flat(d, m, e));
    } else { assert(flat(d, s, m) =~= Seq::empty()); assert(flat(d, s, e) =~= flat(d, s, m) + flat(d, m, e)); }
}
/// the leaf list of item k is the part of the flattened list from pos(k) to pos(k + 1)
pub proof fn lemma_flat_at(d: Seq<u8>, s: int, e: int, k: int)
    requires 0 <= k, s + 4 * k + 4 <= e
    ensures 0 <= pos(d, s, k), pos(d, s, k + 1) == pos(d, s, k) + leaf_seq(d, item_off(d, s, k)).len(), pos(d, s, k + 1) <= flat(d, s, e).len(),
        leaf_seq(d, item_off(d, s, k)) =~= flat(d, s, e).subrange(pos(d, s, k), pos(d, s, k + 1)),
{
    let m = s + 4 * k;
    lemma_flat_cat(d, s, m, e); lemma_flat_cat(d, s, m, m + 4);
    assert(s + 4 * (k + 1) == m + 4);
    let l = leaf_seq(d, item_off(d, s, k));
    assert(flat(d, m, e) == l + flat(d, m + 4, e));
    assert(flat(d, m + 4, m + 4) =~= Seq::empty());
    assert(flat(d, m, m + 4) == l + flat(d, m + 4, m + 4));
}
/// everything the search through an index root needs to know about item k
pub open spec fn ri_facts(d: Seq<u8>, s: int, e: int, n: Seq<u16>, k: int) -> bool {
    let es = flat(d, s, e); let l = leaf_seq(d, item_off(d, s, k));
    &&& 0 <= pos(d, s, k) && pos(d, s, k + 1) == pos(d, s, k) + l.len() && pos(d, s, k + 1) <= es.len()
    &&& forall|i: int| 0 <= i < l.len() ==> es.contains(#[trigger] l[i])
    &&& l.len() > 0 ==> es.contains(l[0]) && es.contains(l.last())
    &&& forall|r: Option<Result<KeyNodeItemRange>>| #[trigger] found_off(d, l, r) ==> found_off(d, es, r)
    &&& forall|r: Option<Result<KeyNodeItemRange>>| #[trigger] found_err(d, l, r) ==> found_err(d, es, r)
    &&& sorted(d, es) && l.len() > 0 && kcmp(d, l.last(), n) == Ordering::Less ==> all_cmp(d, es, 0, pos(d, s, k + 1), n, Ordering::Less)
    &&& sorted(d, es) && l.len() > 0 && kcmp(d, l[0], n) == Ordering::Greater ==> all_cmp(d, es, pos(d, s, k), es.len() as int, n, Ordering::Greater)
    &&& l.len() > 0 && kcmp(d, l[0], n) == Ordering::Less && kcmp(d, l.last(), n) == Ordering::Greater ==> forall|r: Option<Result<KeyNodeItemRange>>| #[trigger] found(d, l, n, r) ==> found(d, es, n, r)
}
/// an entry of a part is an entry of the whole
pub proof fn lemma_part_err(d: Seq<u8>, l: Seq<Res>, es: Seq<Res>)
    requires forall|i: int| 0 <= i < l.len() ==> es.contains(#[trigger] l[i])
    ensures forall|r: Option<Result<KeyNodeItemRange>>| #[trigger] found_off(d, l, r) ==> found_off(d, es, r), forall|r: Option<Result<KeyNodeItemRange>>| #[trigger] found_err(d, l, r) ==> found_err(d, es, r)
{
    hide(key_units); hide(key_err);
    assert forall|r: Option<Result<KeyNodeItemRange>>| #[trigger] found_off(d, l, r) implies found_off(d, es, r) by {
        if let Some(Err(x)) = r { let y = choose|y: Res| #[trigger] l.contains(y) && key_units(d, y) is None && err_of(x).off() == key_err(d, y).off(); let i = choose|i: int| 0 <= i < l.len() && l[i] == y; assert(es.contains(l[i])); } }
    assert forall|r: Option<Result<KeyNodeItemRange>>| #[trigger] found_err(d, l, r) implies found_err(d, es, r) by {
        if let Some(Err(x)) = r { let y = choose|y: Res| #[trigger] l.contains(y) && key_units(d, y) is None && err_of(x) == key_err(d, y); let i = choose|i: int| 0 <= i < l.len() && l[i] == y; assert(es.contains(l[i])); } }
}
/*@FN lemma C05 the part whose first name is smaller and whose last name is greater decides the search*/
pub proof fn lemma_part_found(d: Seq<u8>, l: Seq<Res>, es: Seq<Res>, a: int, b: int, n: Seq<u16>)
    requires 0 <= a < b <= es.len(), l == es.subrange(a, b)
    ensures
        sorted(d, es) && kcmp(d, l.last(), n) == Ordering::Less ==> all_cmp(d, es, 0, b, n, Ordering::Less), //[C05]
        sorted(d, es) && kcmp(d, l[0], n) == Ordering::Greater ==> all_cmp(d, es, a, es.len() as int, n, Ordering::Greater), //[C05]
        kcmp(d, l[0], n) == Ordering::Less && kcmp(d, l.last(), n) == Ordering::Greater ==> forall|r: Option<Result<KeyNodeItemRange>>| #[trigger] found(d, l, n, r) ==> found(d, es, n, r), //[C05]
{
    hide(found_off); hide(found_err); hide(cmp_units); hide(key_units); hide(KeyNodeItemRange::wf);
    lemma_sorted(d, es, n);
    assert(l[0] == es[a] && l.last() == es[b - 1]);
    if kcmp(d, l[0], n) == Ordering::Less && kcmp(d, l.last(), n) == Ordering::Greater {
        assert forall|r: Option<Result<KeyNodeItemRange>>| #[trigger] found(d, l, n, r) implies found(d, es, n, r) by {
            match r {
                Some(Ok(x)) => { let i = choose|i: int| 0 <= i < l.len() && l[i] == x.loc(); assert(es[a + i] == l[i]); }
                Some(Err(x)) => { let y = choose|y: Res| #[trigger] l.contains(y) && key_units(d, y) is None ; let i = choose|i: int| 0 <= i < l.len() && l[i] == y; assert(es[a + i] == l[i]); }
                None => if sorted(d, es) {
                    assert forall|i: int| 0 <= i < l.len() implies key_units(d, #[trigger] l[i]) is Some by { assert(l[i] == es[a + i]); }
                    assert forall|i: int, j: int| 0 <= i <= j < l.len() implies cmp_units(key_units(d, #[trigger] l[i])->Some_0, key_units(d, #[trigger] l[j])->Some_0) != Ordering::Greater by { assert(l[i] == es[a + i] && l[j] == es[a + j]); }
                    assert(sorted(d, l));
                    assert forall|i: int| 0 <= i < es.len() implies kcmp(d, #[trigger] es[i], n) != Ordering::Equal by {
                        if i < a { assert(kcmp(d, es[a], n) == Ordering::Less); } else if i >= b { assert(kcmp(d, es[b - 1], n) == Ordering::Greater); } else { assert(es[i] == l[i - a]); } }
                }
            }
        }
    }
} /*@END*/
/*@FN lemma C05 the leaf list whose first name is smaller and whose last name is greater decides the search in an index root*/
pub proof fn lemma_ri(d: Seq<u8>, s: int, e: int, n: Seq<u16>, k: int)
    requires 0 <= k, s + 4 * k + 4 <= e
    ensures ri_facts(d, s, e, n, k), //[C05]
{
    hide(found_off); hide(found_err); hide(found); hide(sorted); hide(all_cmp); hide(cmp_units); hide(key_units); hide(kcmp); hide(leaf_seq); hide(flat);
    let es = flat(d, s, e); let l = leaf_seq(d, item_off(d, s, k)); let a = pos(d, s, k); let b = pos(d, s, k + 1);
    lemma_flat_at(d, s, e, k);
    assert forall|i: int| 0 <= i < l.len() implies es.contains(#[trigger] l[i]) by { assert(es[a + i] == l[i]); }
    if l.len() > 0 { assert(l[0] == es[a]); assert(l.last() == es[b - 1]); lemma_part_found(d, l, es, a, b, n); }
    lemma_part_err(d, l, es);
} /*@END*/
pub proof fn lemma_ri_all(d: Seq<u8>, s: int, e: int, n: Seq<u16>)
    requires s <= e
    ensures forall|k: int| 0 <= k < (e - s) / 4 ==> ri_facts(d, s, e, n, k) && item_off(d, s, k) == #[trigger] item_off(d, s, k), pos(d, s, 0) == 0, pos(d, s, (e - s) / 4) == flat(d, s, e).len()
{
    assert forall|k: int| 0 <= k < (e - s) / 4 implies ri_facts(d, s, e, n, k) && item_off(d, s, k) == #[trigger] item_off(d, s, k) by { lemma_ri(d, s, e, n, k); }
    let m = s + 4 * ((e - s) / 4); lemma_flat_cat(d, s, m, e);
}

@@fn KeyNodeItemRange::binary_search_subkey_in_leaf
    requires hive.wf(), leaf_item_ranges.items_range.end <= hive.data@.len(), leaf_item_ranges.n() <= 65535
    ensures found(hive.data@, leaf_item_ranges.entries(hive.data@), utf16(name@), ret), //[C05]
        found_off(hive.data@, leaf_item_ranges.entries(hive.data@), ret), //[C14]
        found_err(hive.data@, leaf_item_ranges.entries(hive.data@), ret), //[C17]
@attr #[verifier::loop_isolation(false)]
@entry
    hide(cmp_units); hide(LeafItemRanges::entries); hide(key_name); hide(key_at);
    let ghost d__ = hive.data@; let ghost es__ = leaf_item_ranges.entries(d__); let ghost n__ = utf16(name@);
    proof { lemma_sorted(d__, es__, n__); lemma_leaf_step(leaf_item_ranges); }
@loop 0
    invariant
        0 <= left <= right + 1 <= leaf_item_ranges.n(),
        sorted(d__, es__) ==> all_cmp(d__, es__, 0, left as int, n__, Ordering::Less) && all_cmp(d__, es__, right + 1, es__.len() as int, n__, Ordering::Greater), //[C05]
    decreases right - left + 1
@alt
@loop 0
    invariant
        0 <= left <= right <= leaf_item_ranges.n(),
        sorted(d__, es__) ==> all_cmp(d__, es__, 0, left as int, n__, Ordering::Less) && all_cmp(d__, es__, right as int, es__.len() as int, n__, Ordering::Greater), //[C05]
    decreases right - left
@@fn KeyNodeItemRange::binary_search_subkey_in_index_root
    requires hive.wf(), in_data(index_root_item_ranges.items_range, hive.data@), index_root_item_ranges.n() <= 65535
    ensures found(hive.data@, flat(hive.data@, index_root_item_ranges.items_range.start as int, index_root_item_ranges.items_range.end as int), utf16(name@), ret), //[C05]
        found_off(hive.data@, flat(hive.data@, index_root_item_ranges.items_range.start as int, index_root_item_ranges.items_range.end as int), ret), //[C14]
        found_err(hive.data@, flat(hive.data@, index_root_item_ranges.items_range.start as int, index_root_item_ranges.items_range.end as int), ret), //[C17]
@attr #[verifier::loop_isolation(false)]
@entry
    hide(cmp_units); hide(LeafItemRanges::entries); hide(key_name); hide(key_at); hide(leaf_at); hide(leaf_seq); hide(flat); hide(sorted); hide(all_cmp);
    broadcast use lemma_leaf_seq;
    let ghost d__ = hive.data@; let ghost s__ = index_root_item_ranges.items_range.start as int; let ghost e__ = index_root_item_ranges.items_range.end as int;
    let ghost es__ = flat(d__, s__, e__); let ghost n__ = utf16(name@);
    proof { lemma_ri_all(d__, s__, e__, n__); reveal(all_cmp); }
@loop 0
    invariant
        0 <= left <= right + 1 <= index_root_item_ranges.n(),
        sorted(d__, es__) ==> all_cmp(d__, es__, 0, pos(d__, s__, left as int), n__, Ordering::Less) && all_cmp(d__, es__, pos(d__, s__, right + 1), es__.len() as int, n__, Ordering::Greater), //[C05]
    decreases right - left + 1
@alt
@loop 0
    invariant
        0 <= left <= right <= index_root_item_ranges.n(),
        sorted(d__, es__) ==> all_cmp(d__, es__, 0, pos(d__, s__, left as int), n__, Ordering::Less) && all_cmp(d__, es__, pos(d__, s__, right as int), es__.len() as int, n__, Ordering::Greater), //[C05]
    decreases right - left
@@item
/// C05: `r` is a correct answer to looking up a subkey of the key whose cell contents start at s
pub open spec fn subkey_ok(d: Seq<u8>, s: int, n: Seq<u16>, r: Option<Result<KeyNodeItemRange>>) -> bool {
    match subkeys_of(d, s) { None => r is None, Some(Lst::Err(o)) => r is Some && r->Some_0 is Err, Some(Lst::Ok(es)) => found(d, es, n, r) }
}
pub open spec fn subkey_off(d: Seq<u8>, s: int, r: Option<Result<KeyNodeItemRange>>) -> bool {
    match subkeys_of(d, s) { None => true, Some(Lst::Err(o)) => r is Some && r->Some_0 is Err ==> err_of(r->Some_0->Err_0).off() == o.off(), Some(Lst::Ok(es)) => found_off(d, es, r) }
}
pub open spec fn subkey_err(d: Seq<u8>, s: int, r: Option<Result<KeyNodeItemRange>>) -> bool {
    match subkeys_of(d, s) { None => true, Some(Lst::Err(o)) => r is Some && r->Some_0 is Err ==> err_of(r->Some_0->Err_0) =~= o, Some(Lst::Ok(es)) => found_err(d, es, r) }
}
/// the answer of KeyNodeItemRange::subkey (a function of its arguments, see @graph)
pub uninterp spec fn sub_fn<B: SplitByteSlice>(hive: &Hive<B>, k: KeyNodeItemRange, name: Seq<char>) -> Option<Result<KeyNodeItemRange>>;
/// the same answer, as a handle of `hive`
pub open spec fn same_key<'h, B: SplitByteSlice>(hive: &Hive<B>, r: Option<Result<KeyNode<'h, B>>>, x: Option<Result<KeyNodeItemRange>>) -> bool {
    match (r, x) { (None, None) => true, (Some(Err(a)), Some(Err(b))) => a == b, (Some(Ok(k)), Some(Ok(i))) => k.wf() && k.hive == hive && k.item_range == i, _ => false }
}
@@fn KeyNodeItemRange::subkey
    requires hive.wf(), self.wf(hive.data@)
    ensures subkey_ok(hive.data@, self.header_range.start as int, utf16(name@), ret), //[C05]
        subkey_off(hive.data@, self.header_range.start as int, ret), //[C14]
        subkey_err(hive.data@, self.header_range.start as int, ret), //[C17]
        ret is Some && ret->Some_0 is Ok ==> ret->Some_0->Ok_0.wf(hive.data@), //[C05,C03]
@graph sub_fn(hive, *self, name@)
@entry
    hide(flat); hide(leaf_entries); broadcast use lemma_cat_empty;
@@fn KeyNode::subkey
    requires self.wf()
    ensures same_key(self.hive, ret, sub_fn(self.hive, self.item_range, name@)), //[C05,C06,C16]
        sub_fn(self.hive, self.item_range, name@) matches r && subkey_ok(self.hive.data@, self.item_range.header_range.start as int, utf16(name@), r), //[C05]
        sub_fn(self.hive, self.item_range, name@) matches r && subkey_off(self.hive.data@, self.item_range.header_range.start as int, r), //[C14]
        sub_fn(self.hive, self.item_range, name@) matches r && subkey_err(self.hive.data@, self.item_range.header_range.start as int, r), //[C17]
@@item
// ======== C06: looking up a path ========
/// the components of a path
pub open spec fn nonempty(p: Seq<Seq<char>>) -> Seq<Seq<char>> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else if p[0].len() == 0 { nonempty(p.drop_first()) } else { seq![p[0]] + nonempty(p.drop_first()) }
}
pub open spec fn comps(path: Seq<char>) -> Seq<Seq<char>> { nonempty(split_at(path, '\\')) }
/// C06: looking up the components one after another
pub open spec fn walk<B: SplitByteSlice>(hive: &Hive<B>, k: KeyNodeItemRange, c: Seq<Seq<char>>) -> Option<Result<KeyNodeItemRange>> decreases c.len() {
    if c.len() == 0 { Some(Ok(k)) } else { match sub_fn(hive, k, c[0]) { Some(Ok(j)) => walk(hive, j, c.drop_first()), x => x } }
}
/*@FN lemma C06 a separator anywhere in a path splits its components*/
pub proof fn lemma_comps_cat(p: Seq<char>, q: Seq<char>)
    ensures comps(p + seq!['\\'] + q) == comps(p) + comps(q), //[C06]
{
    lemma_split_cat(p, q);
    lemma_nonempty_cat(split_at(p, '\\'), split_at(q, '\\'));
} /*@END*/
/*@FN lemma C06 an empty path has no components*/
pub proof fn lemma_comps_empty() 
    ensures comps(Seq::empty()) == Seq::<Seq<char>>::empty(), //[C06]
{ let z = split_at(Seq::<char>::empty(), '\\'); assert(z.drop_first() =~= Seq::empty()); assert(nonempty(z.drop_first()) =~= Seq::empty()); } /*@END*/
/*@FN lemma C06 leading, trailing and repeated separators make no difference*/
pub proof fn lemma_comps_sep(p: Seq<char>, q: Seq<char>)
    ensures comps(seq!['\\'] + p) == comps(p), comps(p + seq!['\\']) == comps(p), comps(p + seq!['\\', '\\'] + q) == comps(p + seq!['\\'] + q), //[C06]
{
    lemma_comps_empty(); let e = Seq::<char>::empty();
    lemma_comps_cat(e, p); assert(e + seq!['\\'] + p =~= seq!['\\'] + p); assert(comps(e) + comps(p) =~= comps(p));
    lemma_comps_cat(p, e); assert(p + seq!['\\'] + e =~= p + seq!['\\']); assert(comps(p) + comps(e) =~= comps(p));
    lemma_comps_cat(p, seq!['\\'] + q); assert(p + seq!['\\'] + (seq!['\\'] + q) =~= p + seq!['\\', '\\'] + q);
    lemma_comps_cat(p, q);
    lemma_comps_cat(e, q); assert(e + seq!['\\'] + q =~= seq!['\\'] + q); assert(comps(e) + comps(q) =~= comps(q));
} /*@END*/
/*@FN lemma C06 a path lookup equals looking up its parts one after another*/
pub proof fn lemma_walk_cat<B: SplitByteSlice>(hive: &Hive<B>, k: KeyNodeItemRange, p: Seq<char>, q: Seq<char>)
    ensures walk(hive, k, comps(p + seq!['\\'] + q)) == (match walk(hive, k, comps(p)) { Some(Ok(j)) => walk(hive, j, comps(q)), x => x }), //[C06]
{ lemma_comps_cat(p, q); lemma_walk(hive, k, comps(p), comps(q)); } /*@END*/
pub proof fn lemma_walk<B: SplitByteSlice>(hive: &Hive<B>, k: KeyNodeItemRange, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures walk(hive, k, a + b) == (match walk(hive, k, a) { Some(Ok(j)) => walk(hive, j, b), x => x })
    decreases a.len()
{ if a.len() == 0 { assert(a + b =~= b); } else { assert((a + b).drop_first() =~= a.drop_first() + b); assert((a + b)[0] == a[0]); if let Some(Ok(j)) = sub_fn(hive, k, a[0]) { lemma_walk(hive, j, a.drop_first(), b); } } }
pub proof fn lemma_split_cat(p: Seq<char>, q: Seq<char>)
    ensures split_at(p + seq!['\\'] + q, '\\') == split_at(p, '\\') + split_at(q, '\\'), split_at(p, '\\').len() > 0
    decreases p.len()
{
    let x = p + seq!['\\'] + q;
    if p.len() == 0 { assert(x.drop_first() =~= q); assert(x[0] == '\\'); }
    else {
        lemma_split_cat(p.drop_first(), q); assert(x.drop_first() =~= p.drop_first() + seq!['\\'] + q); assert(x[0] == p[0]);
        let t = split_at(p.drop_first(), '\\'); let u = split_at(q, '\\');
        if p[0] == '\\' { assert(seq![Seq::<char>::empty()] + (t + u) =~= seq![Seq::<char>::empty()] + t + u); }
        else { assert((t + u)[0] == t[0]); assert((t + u).drop_first() =~= t.drop_first() + u); assert(seq![seq![p[0]] + t[0]] + (t.drop_first() + u) =~= seq![seq![p[0]] + t[0]] + t.drop_first() + u); }
    }
}
pub proof fn lemma_nonempty_cat(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures nonempty(a + b) == nonempty(a) + nonempty(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(nonempty(a) + nonempty(b) =~= nonempty(b)); }
    else { lemma_nonempty_cat(a.drop_first(), b); assert((a + b).drop_first() =~= a.drop_first() + b); assert((a + b)[0] == a[0]);
        if a[0].len() > 0 { assert(seq![a[0]] + (nonempty(a.drop_first()) + nonempty(b)) =~= seq![a[0]] + nonempty(a.drop_first()) + nonempty(b)); } }
}
pub broadcast proof fn lemma_walk_step<B: SplitByteSlice>(hive: &Hive<B>, k: KeyNodeItemRange, p: Seq<Seq<char>>)
    ensures p.len() == 0 ==> #[trigger] walk(hive, k, nonempty(p)) == Some(Ok::<_, NtHiveError>(k)),
        p.len() > 0 && p[0].len() == 0 ==> walk(hive, k, nonempty(p)) == walk(hive, k, nonempty(p.drop_first())),
        p.len() > 0 && p[0].len() > 0 ==> walk(hive, k, nonempty(p)) == (match sub_fn(hive, k, p[0]) { Some(Ok(j)) => walk(hive, j, nonempty(p.drop_first())), x => x }),
{ if p.len() > 0 && p[0].len() > 0 { assert(nonempty(p).drop_first() =~= nonempty(p.drop_first())); } }
@@fn KeyNodeItemRange::subpath
    requires hive.wf(), self.wf(hive.data@)
    ensures ret == walk(hive, *self, comps(path@)), //[C06]
        ret is Some && ret->Some_0 is Ok ==> ret->Some_0->Ok_0.wf(hive.data@), //[C06,C03]
@attr #[verifier::loop_isolation(false)]
@entry
    hide(nonempty); hide(walk); hide(split_at); hide(subkey_ok);
@loop 0
    invariant key_node_item_range.wf(hive.data@), walk(hive, key_node_item_range, nonempty(it__0.parts())) == walk(hive, *self, comps(path@)), //[C06]
    decreases it__0.parts().len()
@loopstart 0
    proof { lemma_walk_step(hive, key_node_item_range, it__0.parts()); }
@@fn KeyNode::subpath
    requires self.wf()
    ensures same_key(self.hive, ret, walk(self.hive, self.item_range, comps(path@))), //[C06,C16]

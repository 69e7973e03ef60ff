@@item
// ======== C13: clearing the volatile subkeys ========
/// An arbitrary set of keys. Nothing is known about it, so whatever is proved holds for every set of keys;
/// the smallest set that satisfies `closed` and contains the root key is the set of the reachable keys.
pub uninterp spec fn rr() -> Set<Res>;
/// byte i belongs to the volatile subkey count of a key in the set
pub open spec fn vol(i: int) -> bool { exists|k: Res| #[trigger] rr().contains(k) && k is Ok && k->Ok_0 + 24 <= i < k->Ok_0 + 28 }
/// d2 is d, with some bytes of volatile subkey counts set to zero
pub open spec fn ext(d: Seq<u8>, d2: Seq<u8>) -> bool { d2.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> #[trigger] d2[i] == d[i] || (vol(i) && d2[i] == 0) }
pub broadcast proof fn lemma_ext_refl(d: Seq<u8>) ensures #[trigger] ext(d, d) { }
pub broadcast proof fn lemma_ext_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires #[trigger] ext(a, b), #[trigger] ext(b, c) ensures ext(a, c)
{ assert forall|i: int| 0 <= i < a.len() implies #[trigger] c[i] == a[i] || (vol(i) && c[i] == 0) by { assert(b[i] == a[i] || (vol(i) && b[i] == 0)); } }

/// the subkeys list of a key: (start of the items, number of items, size of an item)
pub enum Ls { None, Err(Er), Leaf(int, int, int), Ri(int, int) }
pub open spec fn ls_in(d: Seq<u8>, c: Res) -> Ls {
    match list_in(d, c, true) { Res::Err(o) => Ls::Err(o),
        Res::Ok(s, e) => { let n = le16(d, s + 2) as int;
            if is_ri_sig(sig2(d, s)) { if s + 4 + n * 4 > e { Ls::Err(Er::Size(wrap_off(s + 2), n * 4, e - (s + 4))) } else { Ls::Ri(s + 4, n) } }
            else { let sz = lsz(sig_type(sig2(d, s))); if s + 4 + n * sz > e { Ls::Err(Er::Size(wrap_off(s + 2), n * sz, e - (s + 4))) } else { Ls::Leaf(s + 4, n, sz) } } } }
}
pub open spec fn ls_of(d: Seq<u8>, s: int) -> Ls { match subkeys_cell(d, s) { None => Ls::None, Some(c) => ls_in(d, c) } }
/// the leaf list an index root item refers to
pub open spec fn leaf_rng(d: Seq<u8>, off: int) -> Ls { match leaf_at(d, off) { Res::Err(o) => Ls::Err(o), Res::Ok(s, e) => Ls::Leaf(s + 4, le16(d, s + 2) as int, lsz(sig_type(sig2(d, s)))) } }
pub open spec fn entries_of(d: Seq<u8>, l: Ls) -> Seq<Res> {
    match l { Ls::None => Seq::empty(), Ls::Err(o) => seq![Res::Err(o)], Ls::Leaf(s, n, sz) => leaf_entries(d, s, n, sz), Ls::Ri(s, n) => flat(d, s, s + 4 * n) }
}
/*@FN lemma C13 the traversed lists are the enumerated subkeys*/
pub proof fn lemma_ls(d: Seq<u8>, s: int)
    ensures match subkeys_of(d, s) { None => ls_of(d, s) is None, Some(Lst::Err(o)) => ls_of(d, s) == Ls::Err(o), Some(Lst::Ok(es)) => entries_of(d, ls_of(d, s)) == es && !(ls_of(d, s) is None) && !(ls_of(d, s) is Err) }, //[C13]
{ match ls_of(d, s) { Ls::Ri(a, n) => { assert(a + 4 * n == a + n * 4); } _ => {} } } /*@END*/

/// every key the list can ever yield (while volatile counts become zero) is in the set
pub open spec fn ok_in(x: Res) -> bool { x is Ok ==> rr().contains(x) }
pub open spec fn leaf_cl(d: Seq<u8>, s: int, n: int, sz: int) -> bool { forall|d2: Seq<u8>, i: int| #[trigger] ext(d, d2) && 0 <= i < n ==> ok_in(#[trigger] leaf_entries(d2, s, n, sz)[i]) }
pub open spec fn rng_cl(d: Seq<u8>, l: Ls) -> bool { match l { Ls::Leaf(s, n, sz) => leaf_cl(d, s, n, sz), _ => true } }
pub open spec fn ri_cl(d: Seq<u8>, s: int, n: int) -> bool { forall|d2: Seq<u8>, i: int| #[trigger] ext(d, d2) && 0 <= i < n ==> rng_cl(d, leaf_rng(d2, #[trigger] item_off(d2, s, i))) }
pub open spec fn ls_cl(d: Seq<u8>, l: Ls) -> bool { match l { Ls::Leaf(s, n, sz) => leaf_cl(d, s, n, sz), Ls::Ri(s, n) => ri_cl(d, s, n), _ => true } }
/// the set contains every subkey of its keys
pub open spec fn closed(d: Seq<u8>) -> bool { forall|d2: Seq<u8>, k: Res| #[trigger] ext(d, d2) && #[trigger] rr().contains(k) && k is Ok ==> ls_cl(d, ls_of(d2, k->Ok_0)) }
/// the volatile counts of the set do not overlap the lists and keys: setting them to zero changes no list and no entry
pub open spec fn leaf_st(d: Seq<u8>, s: int, n: int, sz: int) -> bool { forall|d2: Seq<u8>| #[trigger] ext(d, d2) ==> leaf_entries(d2, s, n, sz) == leaf_entries(d, s, n, sz) }
pub open spec fn rng_st(d: Seq<u8>, l: Ls) -> bool { match l { Ls::Leaf(s, n, sz) => leaf_st(d, s, n, sz), _ => true } }
pub open spec fn ri_st(d: Seq<u8>, s: int, n: int) -> bool { forall|d2: Seq<u8>, i: int| #[trigger] ext(d, d2) && 0 <= i < n ==> leaf_rng(d2, #[trigger] item_off(d2, s, i)) == leaf_rng(d, item_off(d, s, i)) && rng_st(d, leaf_rng(d, item_off(d, s, i))) }
pub open spec fn ls_st(d: Seq<u8>, l: Ls) -> bool { match l { Ls::Leaf(s, n, sz) => leaf_st(d, s, n, sz), Ls::Ri(s, n) => ri_st(d, s, n), _ => true } }
pub open spec fn stable(d: Seq<u8>) -> bool {
    &&& closed(d)
    &&& forall|d2: Seq<u8>, k: Res| #[trigger] ext(d, d2) && #[trigger] rr().contains(k) && k is Ok ==> ls_of(d2, k->Ok_0) == ls_of(d, k->Ok_0) && ls_st(d, ls_of(d, k->Ok_0))
}
/// the key's volatile subkey count is zero
pub open spec fn zero(d: Seq<u8>, s: int) -> bool { d[s + 24] == 0 && d[s + 25] == 0 && d[s + 26] == 0 && d[s + 27] == 0 }
/// z: keys whose volatile count is zero and whose subkeys can all be read and are again in z
pub open spec fn done(z: Set<Res>, d: Seq<u8>) -> bool {
    forall|k: Res| #[trigger] z.contains(k) ==> k is Ok && 0 <= k->Ok_0 && k->Ok_0 + 76 <= d.len() && rr().contains(k) && zero(d, k->Ok_0) && forall|i: int| 0 <= i < entries_of(d, ls_of(d, k->Ok_0)).len() ==> z.contains(#[trigger] entries_of(d, ls_of(d, k->Ok_0))[i])
}
/// some subkey of the key (or its subkeys list) cannot be read
pub open spec fn bad(d: Seq<u8>, s: int) -> bool { exists|i: int| 0 <= i < entries_of(d, ls_of(d, s)).len() && (#[trigger] entries_of(d, ls_of(d, s))[i]) is Err }
pub open spec fn some_bad(d: Seq<u8>) -> bool { exists|k: Res| #[trigger] rr().contains(k) && k is Ok && bad(d, k->Ok_0) }

pub proof fn lemma_flat_st(d: Seq<u8>, d2: Seq<u8>, s: int, n: int)
    requires ri_st(d, s, n), ext(d, d2), 0 <= n
    ensures flat(d2, s, s + 4 * n) == flat(d, s, s + 4 * n)
    decreases n
{
    if n > 0 {
        lemma_ri_step(d, s, n);
        lemma_flat_st(d, d2, s + 4, n - 1);
        lemma_leaf_seq_st(d, d2, s, n, 0);
        assert(s + 4 + 4 * (n - 1) == s + 4 * n);
        assert(leaf_seq(d2, le32(d2, s) as int) == leaf_seq(d, le32(d, s) as int));
    } else { assert(flat(d2, s, s + 4 * n) =~= flat(d, s, s + 4 * n)); }
}
pub proof fn lemma_leaf_rng(d: Seq<u8>, off: int) 
    ensures leaf_seq(d, off) == entries_of(d, leaf_rng(d, off)), leaf_rng(d, off) is Err || leaf_rng(d, off) is Leaf
{ }
pub proof fn lemma_leaf_seq_st(d: Seq<u8>, d2: Seq<u8>, s: int, n: int, i: int)
    requires ri_st(d, s, n), ext(d, d2), 0 <= i < n
    ensures leaf_seq(d2, item_off(d2, s, i)) == leaf_seq(d, item_off(d, s, i))
{
    lemma_ext_refl(d);
    assert(leaf_rng(d2, item_off(d2, s, i)) == leaf_rng(d, item_off(d, s, i)) && rng_st(d, leaf_rng(d, item_off(d, s, i))));
    lemma_leaf_rng(d, item_off(d, s, i)); lemma_leaf_rng(d2, item_off(d2, s, i));
}
pub proof fn lemma_ri_step(d: Seq<u8>, s: int, n: int)
    requires n > 0
    ensures ri_st(d, s, n) ==> ri_st(d, s + 4, n - 1) && rng_st(d, leaf_rng(d, item_off(d, s, 0))), ri_cl(d, s, n) ==> ri_cl(d, s + 4, n - 1) && rng_cl(d, leaf_rng(d, item_off(d, s, 0)))
{
    lemma_ext_refl(d);
    assert forall|d2: Seq<u8>, i: int| #[trigger] item_off(d2, s + 4, i) == item_off(d2, s, i + 1) by { assert(s + 4 + 4 * i == s + 4 * (i + 1)); }
    if ri_st(d, s, n) {
        assert(leaf_rng(d, item_off(d, s, 0)) == leaf_rng(d, item_off(d, s, 0)) && rng_st(d, leaf_rng(d, item_off(d, s, 0))));
        assert forall|d2: Seq<u8>, i: int| #[trigger] ext(d, d2) && 0 <= i < n - 1 implies leaf_rng(d2, #[trigger] item_off(d2, s + 4, i)) == leaf_rng(d, item_off(d, s + 4, i)) && rng_st(d, leaf_rng(d, item_off(d, s + 4, i))) by {
            assert(item_off(d2, s + 4, i) == item_off(d2, s, i + 1)); assert(item_off(d, s + 4, i) == item_off(d, s, i + 1)); }
    }
    if ri_cl(d, s, n) {
        assert(rng_cl(d, leaf_rng(d, item_off(d, s, 0))));
        assert forall|d2: Seq<u8>, i: int| #[trigger] ext(d, d2) && 0 <= i < n - 1 implies rng_cl(d, leaf_rng(d2, #[trigger] item_off(d2, s + 4, i))) by { assert(item_off(d2, s + 4, i) == item_off(d2, s, i + 1)); }
    }
}
pub proof fn lemma_leaf_tail(d: Seq<u8>, s: int, n: int, sz: int)
    requires n > 0
    ensures leaf_entries(d, s, n, sz).drop_first() =~= leaf_entries(d, s + sz, n - 1, sz)
{ assert forall|i: int| 0 <= i < n - 1 implies leaf_entries(d, s, n, sz).drop_first()[i] == leaf_entries(d, s + sz, n - 1, sz)[i] by { assert(s + sz + i * sz == s + (i + 1) * sz) by (nonlinear_arith); } }
pub proof fn lemma_leaf_next(d: Seq<u8>, s: int, n: int, sz: int)
    requires n > 0
    ensures leaf_st(d, s, n, sz) ==> leaf_st(d, s + sz, n - 1, sz), leaf_cl(d, s, n, sz) ==> leaf_cl(d, s + sz, n - 1, sz) && ok_in(leaf_entries(d, s, n, sz)[0])
{
    lemma_ext_refl(d); lemma_leaf_tail(d, s, n, sz);
    if leaf_st(d, s, n, sz) { assert forall|d2: Seq<u8>| #[trigger] ext(d, d2) implies leaf_entries(d2, s + sz, n - 1, sz) == leaf_entries(d, s + sz, n - 1, sz) by { lemma_leaf_tail(d2, s, n, sz); } }
    if leaf_cl(d, s, n, sz) { assert forall|d2: Seq<u8>, i: int| #[trigger] ext(d, d2) && 0 <= i < n - 1 implies ok_in(#[trigger] leaf_entries(d2, s + sz, n - 1, sz)[i]) by {
        lemma_leaf_tail(d2, s, n, sz); assert(leaf_entries(d2, s + sz, n - 1, sz)[i] == leaf_entries(d2, s, n, sz)[i + 1]); } }
}
/// what an iterator still has to yield
pub ghost enum Sh { Leaf(int, int, int), Ri(Option<(int, int, int)>, int, int) }
pub open spec fn sh_entries(d: Seq<u8>, h: Sh) -> Seq<Res> {
    match h { Sh::Leaf(s, n, sz) => leaf_entries(d, s, n, sz), Sh::Ri(l, s, n) => (match l { Some((a, m, sz)) => leaf_entries(d, a, m, sz), None => Seq::empty() }) + flat(d, s, s + 4 * n) }
}
pub open spec fn sh_cl(d: Seq<u8>, h: Sh) -> bool { match h { Sh::Leaf(s, n, sz) => leaf_cl(d, s, n, sz), Sh::Ri(l, s, n) => (match l { Some((a, m, sz)) => leaf_cl(d, a, m, sz), None => true }) && ri_cl(d, s, n) } }
pub open spec fn sh_st(d: Seq<u8>, h: Sh) -> bool { match h { Sh::Leaf(s, n, sz) => leaf_st(d, s, n, sz), Sh::Ri(l, s, n) => (match l { Some((a, m, sz)) => leaf_st(d, a, m, sz), None => true }) && ri_st(d, s, n) } }
/// nothing is lost while the data changes
pub proof fn lemma_sh_ext(d: Seq<u8>, d2: Seq<u8>, h: Sh)
    requires ext(d, d2), h is Ri ==> 0 <= h->Ri_2
    ensures sh_cl(d, h) ==> sh_cl(d2, h), sh_st(d, h) ==> sh_st(d2, h) && sh_entries(d2, h) == sh_entries(d, h)
{
    broadcast use lemma_ext_refl, lemma_ext_trans;
    match h {
        Sh::Leaf(s, n, sz) => { lemma_leaf_ext(d, d2, s, n, sz); }
        Sh::Ri(l, s, n) => {
            if let Some((a, m, sz)) = l { lemma_leaf_ext(d, d2, a, m, sz); }
            if ri_cl(d, s, n) { assert forall|d3: Seq<u8>, i: int| #[trigger] ext(d2, d3) && 0 <= i < n implies rng_cl(d2, leaf_rng(d3, #[trigger] item_off(d3, s, i))) by { lemma_ext_trans(d, d2, d3); lemma_rng_ext(d, d2, leaf_rng(d3, item_off(d3, s, i))); } }
            if ri_st(d, s, n) { lemma_flat_st(d, d2, s, n); 
                assert forall|d3: Seq<u8>, i: int| #[trigger] ext(d2, d3) && 0 <= i < n implies leaf_rng(d3, #[trigger] item_off(d3, s, i)) == leaf_rng(d2, item_off(d2, s, i)) && rng_st(d2, leaf_rng(d2, item_off(d2, s, i))) by {
                    lemma_ext_trans(d, d2, d3); 
                    assert(leaf_rng(d3, item_off(d3, s, i)) == leaf_rng(d, item_off(d, s, i))); assert(leaf_rng(d2, item_off(d2, s, i)) == leaf_rng(d, item_off(d, s, i)));
                    lemma_rng_ext(d, d2, leaf_rng(d, item_off(d, s, i))); } }
        }
    }
}
pub proof fn lemma_leaf_ext(d: Seq<u8>, d2: Seq<u8>, s: int, n: int, sz: int)
    requires ext(d, d2)
    ensures leaf_cl(d, s, n, sz) ==> leaf_cl(d2, s, n, sz), leaf_st(d, s, n, sz) ==> leaf_st(d2, s, n, sz) && leaf_entries(d2, s, n, sz) == leaf_entries(d, s, n, sz)
{
    if leaf_cl(d, s, n, sz) { assert forall|d3: Seq<u8>, i: int| #[trigger] ext(d2, d3) && 0 <= i < n implies ok_in(#[trigger] leaf_entries(d3, s, n, sz)[i]) by { lemma_ext_trans(d, d2, d3); } }
    if leaf_st(d, s, n, sz) { assert forall|d3: Seq<u8>| #[trigger] ext(d2, d3) implies leaf_entries(d3, s, n, sz) == leaf_entries(d2, s, n, sz) by { lemma_ext_trans(d, d2, d3); } }
}
pub proof fn lemma_rng_ext(d: Seq<u8>, d2: Seq<u8>, l: Ls) requires ext(d, d2) ensures rng_cl(d, l) ==> rng_cl(d2, l), rng_st(d, l) ==> rng_st(d2, l)
{ match l { Ls::Leaf(s, n, sz) => { lemma_leaf_ext(d, d2, s, n, sz); } _ => {} } }
pub open spec fn sh_of(l: Ls) -> Sh { match l { Ls::Leaf(s, n, sz) => Sh::Leaf(s, n, sz), Ls::Ri(s, n) => Sh::Ri(None, s, n), _ => Sh::Leaf(0, 0, 4) } }
pub proof fn lemma_closed_ext(d: Seq<u8>, d2: Seq<u8>)
    requires ext(d, d2)
    ensures closed(d) ==> closed(d2), stable(d) ==> stable(d2),
        stable(d) ==> forall|k: Res| #[trigger] rr().contains(k) && k is Ok ==> ls_of(d2, k->Ok_0) == ls_of(d, k->Ok_0) && entries_of(d2, ls_of(d2, k->Ok_0)) == entries_of(d, ls_of(d, k->Ok_0)),
        stable(d) && some_bad(d2) ==> some_bad(d),
{
    broadcast use lemma_ext_refl;
    if closed(d) { assert forall|d3: Seq<u8>, k: Res| #[trigger] ext(d2, d3) && #[trigger] rr().contains(k) && k is Ok implies ls_cl(d2, ls_of(d3, k->Ok_0)) by {
        lemma_ext_trans(d, d2, d3); let l = ls_of(d3, k->Ok_0); lemma_ls_n(d3, k->Ok_0); lemma_sh_ext(d, d2, sh_of(l)); } }
    if stable(d) {
        assert forall|k: Res| #[trigger] rr().contains(k) && k is Ok implies ls_of(d2, k->Ok_0) == ls_of(d, k->Ok_0) && ls_st(d2, ls_of(d2, k->Ok_0)) && entries_of(d2, ls_of(d2, k->Ok_0)) == entries_of(d, ls_of(d, k->Ok_0)) by {
            let l = ls_of(d, k->Ok_0); lemma_ls_n(d, k->Ok_0); lemma_sh_ext(d, d2, sh_of(l)); lemma_sh_entries(d, l); lemma_sh_entries(d2, l); }
        assert forall|d3: Seq<u8>, k: Res| #[trigger] ext(d2, d3) && #[trigger] rr().contains(k) && k is Ok implies ls_of(d3, k->Ok_0) == ls_of(d2, k->Ok_0) && ls_st(d2, ls_of(d2, k->Ok_0)) by { lemma_ext_trans(d, d2, d3); }
        if some_bad(d2) { let k = choose|k: Res| #[trigger] rr().contains(k) && k is Ok && bad(d2, k->Ok_0); assert(bad(d, k->Ok_0)); }
    }
}
pub proof fn lemma_sh_entries(d: Seq<u8>, l: Ls) ensures l is Leaf || l is Ri ==> sh_entries(d, sh_of(l)) == entries_of(d, l)
{ match l { Ls::Ri(s, n) => { assert(Seq::<Res>::empty() + flat(d, s, s + 4 * n) =~= flat(d, s, s + 4 * n)); } _ => {} } }
pub proof fn lemma_ls_n(d: Seq<u8>, s: int) ensures ls_of(d, s) is Ri ==> 0 <= ls_of(d, s)->Ri_1 { }
pub proof fn lemma_done_ext(z: Set<Res>, d: Seq<u8>, d2: Seq<u8>)
    requires done(z, d), ext(d, d2), stable(d)
    ensures done(z, d2)
{
    lemma_closed_ext(d, d2);
    assert forall|k: Res| #[trigger] z.contains(k) implies k is Ok && 0 <= k->Ok_0 && k->Ok_0 + 76 <= d2.len() && rr().contains(k) && zero(d2, k->Ok_0) && forall|i: int| 0 <= i < entries_of(d2, ls_of(d2, k->Ok_0)).len() ==> z.contains(#[trigger] entries_of(d2, ls_of(d2, k->Ok_0))[i]) by {
        let s = k->Ok_0; assert(zero(d, s)); assert(d2[s + 24] == 0 && d2[s + 25] == 0 && d2[s + 26] == 0 && d2[s + 27] == 0); }
}
/// the header of the key at s was changed to v
pub open spec fn hdr_set(d: Seq<u8>, s: int, v: KeyNodeHeader, d2: Seq<u8>) -> bool {
    &&& d2.len() == d.len()
    &&& forall|i: int| 0 <= i < d.len() && !(s <= i < s + 76) ==> #[trigger] d2[i] == d[i]
    &&& KeyNodeHeader::written(d.subrange(s, s + 76), KeyNodeHeader::parse(d.subrange(s, s + 76)), v, d2.subrange(s, s + 76))
}
/*@FN lemma C13 setting the count to zero changes these four bytes only*/
pub proof fn lemma_clear(d: Seq<u8>, s: int, e: int, v: KeyNodeHeader, d2: Seq<u8>)
    requires 0 <= s, s + 76 <= d.len(), hdr_set(d, s, v, d2), v.volatile_subkey_count.v == 0, 
        v == (KeyNodeHeader { volatile_subkey_count: v.volatile_subkey_count, ..KeyNodeHeader::parse(d.subrange(s, s + 76)) }),
    ensures zero(d2, s), forall|i: int| 0 <= i < d.len() && !(s + 24 <= i < s + 28) ==> #[trigger] d2[i] == d[i], //[C13]
        rr().contains(Res::Ok(s, e)) ==> ext(d, d2), //[C13]
{
    let o = d.subrange(s, s + 76); let b = d2.subrange(s, s + 76);
    assert(le32(b, 24) == 0);
    assert(b[24] == 0 && b[25] == 0 && b[26] == 0 && b[27] == 0);
    assert forall|i: int| 0 <= i < d.len() && !(s + 24 <= i < s + 28) implies #[trigger] d2[i] == d[i] by { if s <= i < s + 76 { assert(b[i - s] == o[i - s]); } }
    if rr().contains(Res::Ok(s, e)) {
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d2[i] == d[i] || (vol(i) && d2[i] == 0) by { if s + 24 <= i < s + 28 { let k = Res::Ok(s, e); assert(rr().contains(k)); assert(d2[i] == b[i - s]); } }
    }
} /*@END*/
pub proof fn lemma_cleared(d: Seq<u8>, key: Res, d2: Seq<u8>)
    requires key is Ok, 0 <= key->Ok_0, key->Ok_0 + 76 <= d.len()
    ensures forall|v: KeyNodeHeader| #[trigger] hdr_set(d, key->Ok_0, v, d2) && v.volatile_subkey_count.v == 0 && v == (KeyNodeHeader { volatile_subkey_count: v.volatile_subkey_count, ..KeyNodeHeader::parse(d.subrange(key->Ok_0, key->Ok_0 + 76)) }) ==> d2.len() == d.len() && zero(d2, key->Ok_0) && (rr().contains(key) ==> ext(d, d2)), //[C13]
{ assert forall|v: KeyNodeHeader| #[trigger] hdr_set(d, key->Ok_0, v, d2) && v.volatile_subkey_count.v == 0 && v == (KeyNodeHeader { volatile_subkey_count: v.volatile_subkey_count, ..KeyNodeHeader::parse(d.subrange(key->Ok_0, key->Ok_0 + 76)) }) implies d2.len() == d.len() && zero(d2, key->Ok_0) && (rr().contains(key) ==> ext(d, d2)) by { lemma_clear(d, key->Ok_0, key->Ok_1, v, d2); } }
pub proof fn lemma_st_closed(d: Seq<u8>) requires stable(d) ensures closed(d) { }
pub proof fn lemma_start(d: Seq<u8>, key: Res) requires key is Ok, rr().contains(key)
    ensures closed(d) ==> sh_cl(d, sh_of(ls_of(d, key->Ok_0))), stable(d) ==> sh_st(d, sh_of(ls_of(d, key->Ok_0)))
{ lemma_ext_refl(d); let l = ls_of(d, key->Ok_0); assert forall|d2: Seq<u8>| #[trigger] ext(d, d2) implies leaf_entries(d2, 0, 0, 4) == leaf_entries(d, 0, 0, 4) by { assert(leaf_entries(d2, 0, 0, 4) =~= leaf_entries(d, 0, 0, 4)); }
  if closed(d) { assert(ls_cl(d, l)); } if stable(d) { assert(ls_st(d, l)); } }
pub proof fn lemma_bad(d: Seq<u8>, key: Res) requires key is Ok, rr().contains(key)
    ensures ls_of(d, key->Ok_0) is Err ==> some_bad(d), forall|i: int| 0 <= i < entries_of(d, ls_of(d, key->Ok_0)).len() && (#[trigger] entries_of(d, ls_of(d, key->Ok_0))[i]) is Err ==> some_bad(d), 
        ls_of(d, key->Ok_0) is None ==> entries_of(d, ls_of(d, key->Ok_0)).len() == 0
{ let es = entries_of(d, ls_of(d, key->Ok_0)); if ls_of(d, key->Ok_0) is Err { assert(es[0] is Err); assert(bad(d, key->Ok_0)); }
  assert forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Err implies some_bad(d) by { assert(bad(d, key->Ok_0)); } }
pub proof fn lemma_zero_ext(d: Seq<u8>, d2: Seq<u8>, s: int) requires zero(d, s), ext(d, d2), 0 <= s, s + 76 <= d.len() ensures zero(d2, s) { assert(d2[s + 24] == 0 && d2[s + 25] == 0 && d2[s + 26] == 0 && d2[s + 27] == 0); }
pub proof fn lemma_done_empty(d: Seq<u8>) ensures done(Set::<Res>::empty(), d) { }
pub proof fn lemma_done_union(a: Set<Res>, b: Set<Res>, d: Seq<u8>) requires done(a, d), done(b, d) ensures done(a.union(b), d) { }
pub proof fn lemma_finish(z: Set<Res>, d: Seq<u8>, k: Res)
    requires done(z, d), k is Ok, 0 <= k->Ok_0, k->Ok_0 + 76 <= d.len(), rr().contains(k), zero(d, k->Ok_0), forall|i: int| 0 <= i < entries_of(d, ls_of(d, k->Ok_0)).len() ==> z.contains(#[trigger] entries_of(d, ls_of(d, k->Ok_0))[i])
    ensures done(z.insert(k), d)
{ }
pub open spec fn same_hive<B: SplitByteSlice>(a: Hive<B>, b: Hive<B>) -> bool { a.base_block == b.base_block && a.data.id() == b.data.id() && a.data@.len() == b.data@.len() }

impl<'h, B: SplitByteSliceMut> KeyNodeMut<'h, B> {
    pub open spec fn wf(&self) -> bool { (*self.hive).wf() && self.item_range.wf((*self.hive).data@) }
}
impl<'h, B: SplitByteSliceMut> LeafKeyNodesMut<'h, B> {
    pub open spec fn wf(&self) -> bool { (*self.hive).wf() && self.leaf_item_ranges.items_range.end <= (*self.hive).data@.len() }
    pub open spec fn sh(&self) -> Sh { lir_sh(self.leaf_item_ranges) }
}
pub open spec fn lir_sh(l: LeafItemRanges) -> Sh { Sh::Leaf(l.items_range.start as int, l.n(), lsz(l.leaf_type)) }
pub open spec fn lir3(l: LeafItemRanges) -> (int, int, int) { (l.items_range.start as int, l.n(), lsz(l.leaf_type)) }
pub open spec fn iri_sh(l: Option<LeafItemRanges>, r: IndexRootItemRanges) -> Sh { Sh::Ri(match l { Some(x) => Some(lir3(x)), None => None }, r.items_range.start as int, r.n()) }
impl<'h, B: SplitByteSliceMut> IndexRootKeyNodesMut<'h, B> {
    pub open spec fn wf(&self) -> bool {
        &&& (*self.hive).wf()
        &&& self.index_root_item_ranges.items_range.start <= self.index_root_item_ranges.items_range.end <= (*self.hive).data@.len()
        &&& self.leaf_item_ranges is Some ==> self.leaf_item_ranges->Some_0.items_range.end <= (*self.hive).data@.len()
    }
    pub open spec fn sh(&self) -> Sh { iri_sh(self.leaf_item_ranges, self.index_root_item_ranges) }
}
impl<'h, B: SplitByteSliceMut> SubKeyNodesMut<'h, B> {
    pub open spec fn wf(&self) -> bool { match self { SubKeyNodesMut::IndexRoot(i) => i.wf(), SubKeyNodesMut::Leaf(i) => i.wf() } }
    pub open spec fn sh(&self) -> Sh { match self { SubKeyNodesMut::IndexRoot(i) => i.sh(), SubKeyNodesMut::Leaf(i) => i.sh() } }
    pub open spec fn h(&self) -> Hive<B> { match self { SubKeyNodesMut::IndexRoot(i) => *i.hive, SubKeyNodesMut::Leaf(i) => *i.hive } }
    #[verifier::prophetic] pub open spec fn fh(&self) -> Hive<B> { match self { SubKeyNodesMut::IndexRoot(i) => *final(i.hive), SubKeyNodesMut::Leaf(i) => *final(i.hive) } }
}
pub open spec fn sh_first(d: Seq<u8>, h: Sh) -> Res { sh_entries(d, h)[0] }
/// one step of an iterator over the data d: from h to h2, yielding the first entry
pub open spec fn sh_step(d: Seq<u8>, h: Sh, h2: Sh) -> bool {
    &&& sh_entries(d, h).len() > 0 && sh_entries(d, h2) == sh_entries(d, h).drop_first()
    &&& sh_cl(d, h) ==> ok_in(sh_first(d, h)) && sh_cl(d, h2)
    &&& sh_st(d, h) ==> sh_st(d, h2)
}
#[verifier::prophetic]
pub open spec fn km_is<'h, B: SplitByteSliceMut>(r: Result<KeyNodeMut<'h, B>>, h: Hive<B>, f: Hive<B>, x: Res) -> bool {
    match (r, x) { (Ok(k), Res::Ok(s, e)) => k.wf() && *k.hive == h && *final(k.hive) == f && k.item_range.loc() == x, (Err(_), Res::Err(_)) => f == h, _ => false }
}
@@fn KeyNodeItemRange::header_mut
    requires old(hive).wf(), self.wf(old(hive).data@)
    ensures *ret.r == self.hdr(old(hive).data@), //[C13]
        final(hive).base_block == old(hive).base_block, final(hive).data.id() == old(hive).data.id(), //[C13]
        hdr_set(old(hive).data@, self.header_range.start as int, *final(ret.r), final(hive).data@), //[C13]
@@fn KeyNodeMut::from_cell_range
    requires old(hive).wf(), in_data(cell_range, old(hive).data@)
    ensures km_is(ret, *old(hive), *final(hive), key_in(old(hive).data@, Res::Ok(cell_range.start as int, cell_range.end as int))), //[C13,C03]
@@fn KeyNodeMut::from_leaf_item_range
    requires old(hive).wf(), leaf_item_range.wf(old(hive).data@)
    ensures km_is(ret, *old(hive), *final(hive), leaf_item(old(hive).data@, leaf_item_range.0)), //[C13,C03]
@@fn LeafKeyNodesMut::new
    requires old(hive).wf(), in_data(data_range, old(hive).data@)
    ensures ret is Ok <==> data_range.start + count * lsz(leaf_type) <= data_range.end, //[C13,C03]
        ret is Ok ==> ret->Ok_0.wf() && *ret->Ok_0.hive == *old(hive) && *final(ret->Ok_0.hive) == *final(hive) && ret->Ok_0.sh() == Sh::Leaf(data_range.start as int, count as int, lsz(leaf_type)), //[C13,C03]
        ret is Err ==> *final(hive) == *old(hive), //[C13]
@@fn IndexRootKeyNodesMut::new
    requires old(hive).wf(), in_data(data_range, old(hive).data@)
    ensures ret is Ok <==> data_range.start + count * 4 <= data_range.end, //[C13,C03]
        ret is Ok ==> ret->Ok_0.wf() && *ret->Ok_0.hive == *old(hive) && *final(ret->Ok_0.hive) == *final(hive) && ret->Ok_0.sh() == Sh::Ri(None, data_range.start as int, count as int), //[C13,C03]
        ret is Err ==> *final(hive) == *old(hive), //[C13]
@@fn LeafKeyNodesMut::next
    requires old(self).wf()
    ensures
        *final(final(self).hive) == *final(old(self).hive),
        match ret { None => sh_entries(old(self).hive.data@, old(self).sh()).len() == 0 && *final(self).hive == *old(self).hive,
            Some(r) => km_is(r, *old(self).hive, *final(self).hive, sh_first(old(self).hive.data@, old(self).sh())) && sh_step(old(self).hive.data@, old(self).sh(), final(self).sh()) }, //[C13]
        final(self).leaf_item_ranges.items_range.end == old(self).leaf_item_ranges.items_range.end,
@entry
    hide(key_at);
    proof { let l = self.leaf_item_ranges; lemma_leaf_step(l); if l.n() > 0 { lemma_leaf_next(self.hive.data@, l.items_range.start as int, l.n(), lsz(l.leaf_type)); lemma_leaf_tail(self.hive.data@, l.items_range.start as int, l.n(), lsz(l.leaf_type)); } }
@@fn IndexRootKeyNodesMut::next
    requires old(self).wf()
    ensures
        *final(final(self).hive) == *final(old(self).hive),
        match ret { None => sh_entries(old(self).hive.data@, old(self).sh()).len() == 0 && *final(self).hive == *old(self).hive,
            Some(r) => km_is(r, *old(self).hive, *final(self).hive, sh_first(old(self).hive.data@, old(self).sh())) && sh_step(old(self).hive.data@, old(self).sh(), final(self).sh()) }, //[C13]
        final(self).index_root_item_ranges.items_range.end == old(self).index_root_item_ranges.items_range.end, final(self).index_root_item_ranges.items_range.start <= final(self).index_root_item_ranges.items_range.end,
        final(self).leaf_item_ranges is Some ==> final(self).leaf_item_ranges->Some_0.items_range.end <= old(self).hive.data@.len(),
@attr #[verifier::loop_isolation(false)]
@entry
    hide(leaf_at); hide(leaf_seq); hide(key_at); hide(cell); hide(leaf_entries); hide(leaf_cl); hide(leaf_st); hide(ri_cl); hide(ri_st); 
    broadcast use lemma_leaf_seq; broadcast use lemma_cat_first; broadcast use lemma_cat_empty;
@loop 0
    invariant self.wf(), *self.hive == *old(self).hive, *final(self.hive) == *final(old(self).hive), 
        self.index_root_item_ranges.items_range.end == old(self).index_root_item_ranges.items_range.end,
        sh_entries(self.hive.data@, self.sh()) == sh_entries(self.hive.data@, old(self).sh()),
        sh_cl(self.hive.data@, old(self).sh()) ==> sh_cl(self.hive.data@, self.sh()),
        sh_st(self.hive.data@, old(self).sh()) ==> sh_st(self.hive.data@, self.sh()),
    decreases self.index_root_item_ranges.n()
@loopstart 0
    proof { let d = self.hive.data@; let l = self.leaf_item_ranges; let r = self.index_root_item_ranges;
        if l is Some { let l = l->Some_0; lemma_leaf_step(l); if l.n() > 0 { lemma_leaf_next(d, l.items_range.start as int, l.n(), lsz(l.leaf_type)); lemma_leaf_tail(d, l.items_range.start as int, l.n(), lsz(l.leaf_type)); } }
        if r.n() > 0 { lemma_ri_step(d, r.items_range.start as int, r.n()); lemma_leaf_rng(d, item_off(d, r.items_range.start as int, 0)); } }
@@fn SubKeyNodesMut::new
    requires old(hive).wf(), in_data(cell_range, old(hive).data@)
    ensures ({ let l = ls_in(old(hive).data@, Res::Ok(cell_range.start as int, cell_range.end as int));
        match ret { Ok(k) => (l is Leaf || l is Ri) && k.wf() && k.h() == *old(hive) && k.fh() == *final(hive) && k.sh() == sh_of(l),
            Err(_) => l is Err && *final(hive) == *old(hive) } }), //[C13,C03]
@@fn SubKeyNodesMut::next
    requires old(self).wf()
    ensures
        final(self).fh() == old(self).fh(),
        match ret { None => sh_entries(old(self).h().data@, old(self).sh()).len() == 0 && final(self).h() == old(self).h(),
            Some(r) => km_is(r, old(self).h(), final(self).h(), sh_first(old(self).h().data@, old(self).sh())) && sh_step(old(self).h().data@, old(self).sh(), final(self).sh()) }, //[C13]
        same_hive(old(self).h(), final(self).h()) && final(self).h().wf() ==> final(self).wf(),
@@fn KeyNodeMut::subkeys_mut
    requires old(self).wf()
    ensures
        final(self).item_range == old(self).item_range, *final(final(self).hive) == *final(old(self).hive),
        ({ let l = ls_of(old(self).hive.data@, old(self).item_range.header_range.start as int);
        match ret { None => l is None && *final(self).hive == *old(self).hive,
            Some(Ok(k)) => (l is Leaf || l is Ri) && k.wf() && k.h() == *old(self).hive && k.fh() == *final(self).hive && k.sh() == sh_of(l),
            Some(Err(_)) => l is Err && *final(self).hive == *old(self).hive } }), //[C13]
@@fn KeyNodeMut::clear_volatile_subkeys
    requires old(self).wf()
    ensures
        final(self).item_range == old(self).item_range, *final(final(self).hive) == *final(old(self).hive), same_hive(*old(self).hive, *final(self).hive), //[C13]
        closed(old(self).hive.data@) && rr().contains(old(self).item_range.loc()) ==> ext(old(self).hive.data@, final(self).hive.data@), //[C13]
        stable(old(self).hive.data@) && rr().contains(old(self).item_range.loc()) && ret is Ok ==> exists|z: Set<Res>| #[trigger] done(z, final(self).hive.data@) && z.contains(old(self).item_range.loc()), //[C13]
        stable(old(self).hive.data@) && rr().contains(old(self).item_range.loc()) && ret is Err ==> some_bad(old(self).hive.data@), //[C13]
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@entry
    hide(closed); hide(stable); hide(ls_of); hide(entries_of); hide(some_bad); hide(sh_cl); hide(sh_st); hide(sh_entries); hide(hdr_set); hide(done); hide(ext); hide(ls_cl); hide(ls_st); hide(sh_of); hide(zero);
    broadcast use lemma_ext_trans;
    let ghost h0__ = *self.hive; let ghost d0__ = self.hive.data@; let ghost key__ = self.item_range.loc(); let ghost s__ = self.item_range.header_range.start as int;
    let ghost c__ = closed(d0__) && rr().contains(key__); let ghost st__ = stable(d0__) && rr().contains(key__);
    let ghost mut z__ = Set::<Res>::empty();
@at call:subkeys_mut
    let ghost d1__ = self.hive.data@; let ghost es__ = entries_of(d1__, ls_of(d1__, s__));
    proof {
        lemma_cleared(d0__, key__, d1__); 
        if st__ { lemma_st_closed(d0__); }
        assert(c__ ==> ext(d0__, d1__)); assert(zero(d1__, s__));
        if c__ { lemma_closed_ext(d0__, d1__); lemma_start(d1__, key__); }
        if c__ { lemma_bad(d1__, key__); lemma_ext_refl(d1__); } lemma_sh_entries(d1__, ls_of(d1__, s__)); lemma_done_empty(d1__);
        if st__ && ls_of(d1__, s__) is None { lemma_closed_ext(d0__, d1__); lemma_finish(Set::empty(), d1__, key__); assert(done(Set::<Res>::empty().insert(key__), d1__)); }
    }
    let ghost mut k__: int = 0; let ghost mut d__ = d1__;
@preloop 0
            let ghost f__ = subkeys.fh();
@loop 0
    invariant subkeys.wf(), subkeys.fh() == f__, same_hive(h0__, subkeys.h()), d__ == subkeys.h().data@,
        c__ ==> ext(d1__, d__) && ext(d0__, d__) && sh_cl(d__, subkeys.sh()) && closed(d__),
        st__ ==> stable(d__) && sh_st(d__, subkeys.sh()) && done(z__, d__) && 0 <= k__ <= es__.len() && sh_entries(d__, subkeys.sh()) == es__.subrange(k__, es__.len() as int) && forall|i: int| 0 <= i < k__ ==> z__.contains(#[trigger] es__[i]),
@loopstart 0
    proof { 
        if st__ && k__ < es__.len() { lemma_closed_ext(d0__, d__); assert(es__.subrange(k__, es__.len() as int)[0] == es__[k__]); assert(es__.subrange(k__, es__.len() as int).drop_first() == es__.subrange(k__ + 1, es__.len() as int)); } }
@loopend 0
    proof { let d = subkeys.h().data@;
        if c__ { lemma_ext_trans(d0__, d__, d); lemma_ext_trans(d1__, d__, d); lemma_sh_ext(d__, d, subkeys.sh()); lemma_closed_ext(d__, d); }
        if st__ { lemma_done_ext(z__, d__, d); 
            let z = choose|z: Set<Res>| #[trigger] done(z, d) && z.contains(es__[k__]); lemma_done_union(z__, z, d); z__ = z__.union(z); k__ = k__ + 1; }
        d__ = d; }
@tail
    proof { if st__ { let d = self.hive.data@; lemma_closed_ext(d0__, d); lemma_closed_ext(d0__, d1__); lemma_zero_ext(d1__, d, s__); lemma_finish(z__, d, key__); assert(done(z__.insert(key__), d)); } }
@@fn Hive::root_key_node_mut
    requires old(self).wf()
    ensures km_is(ret, *old(self), *final(self), old(self).root()), //[C13,C03]
@@fn Hive::clear_volatile_subkeys
    requires old(self).wf()
    ensures
        same_hive(*old(self), *final(self)), //[C13]
        old(self).root() is Err ==> ret is Err && final(self).data@ == old(self).data@, //[C13]
        closed(old(self).data@) && rr().contains(old(self).root()) ==> ext(old(self).data@, final(self).data@), //[C13]
        stable(old(self).data@) && rr().contains(old(self).root()) && ret is Ok ==> exists|z: Set<Res>| #[trigger] done(z, final(self).data@) && z.contains(old(self).root()), //[C13]
        stable(old(self).data@) && rr().contains(old(self).root()) && ret is Err ==> old(self).root() is Err || some_bad(old(self).data@), //[C13]

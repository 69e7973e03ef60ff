"""Extraction and deductive verification: runs the extractor and Verus, attributes every diagnostic to a function and to clause tags."""
import json, os, re, subprocess, time, bisect
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Map:
    def __init__(self, path):
        self.fns, self.tags, self.hash, self.lost, self.notes, self.open, self.traitfns, self.alts = [], {}, {}, [], [], set(), set(), {}
        for l in open(path):
            p = l.rstrip('\n').split('\t')
            if p[0] == 'FN': self.fns.append((int(p[1]), int(p[2]), p[3]))
            elif p[0] == 'TAG': self.tags[int(p[1])] = [x.strip() for x in p[2].split(',')]
            elif p[0] == 'HASH': self.hash[p[1]] = (p[2], p[3], p[4])
            elif p[0] == 'LOST': self.lost.append(p[1])
            elif p[0] == 'TRAITFN': self.traitfns.add(p[1])
            elif p[0] == 'ALT': self.alts[p[1]] = int(p[2])
            elif p[0] == 'OPEN': self.open.add(p[1])
            elif p[0] == 'NOTE': self.notes.append(p[1])
        self.fns.sort()
    def fn(self, line):
        for a, b, k in self.fns:
            if a <= line <= b: return k
        return None

def run(cmd, timeout, **kw):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        return 124, '', 'timeout', time.time() - t

def extract(exe, src, out, mp, external=(), contracts=None, alts=None):
    cmd = [exe, src, contracts or HERE + '/contracts', HERE + '/prelude.rs', out, mp]
    for k in external: cmd += ['--external', k]
    for k, n in (alts or {}).items(): cmd += ['--alt', '%s=%d' % (k, n)]
    return run(cmd, 120)

def verus(rs, timeout=600, args=()):
    """returns (summary dict or None, diagnostics list, raw, secs)"""
    rc, so, se, t = run(['verus', '--edition', '2021', '--output-json', '--time', '--multiple-errors', '3', '--error-format=json', rs] + list(args), timeout, cwd=os.path.dirname(rs))
    diags = []
    for l in se.splitlines():
        l = l.strip()
        if l.startswith('{'):
            try: d = json.loads(l)
            except Exception: continue
            if d.get('$message_type', 'diagnostic') == 'diagnostic': diags.append(d)
    summ = None
    i = so.find('{')
    if i >= 0:
        try: summ = json.loads(so[i:])
        except Exception: summ = None
    return dict(rc=rc, summary=summ, diags=diags, raw=se, secs=t)

SAFETY = ('arithmetic underflow/overflow', 'precondition not satisfied', 'possible', 'index', 'decreases', 'recommendation', 'termination', 'unreachable', 'assert')
VERIF = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|possible (arithmetic|division|bit shift)|assertion failed|decreases not satisfied|loop ensures not satisfied|unable to prove|index in bounds|assert_by|constructed value may fail|could not prove|failed this|rlimit|not satisfied|Resource limit')
def classify(r, m):
    """failed obligations: list of dict(fn, tags, msg, line); tool errors: list of dict(fn, msg, line)"""
    failed, tool = [], []
    for d in r['diags']:
        if d.get('level') != 'error': continue
        msg = d['message']
        if msg.startswith('aborting due to'): continue
        spans = d.get('spans', [])
        prim = [s for s in spans if s.get('is_primary')] or spans
        line = prim[0]['line_start'] if prim else 0
        fn = None
        tags = set()
        for s in prim + spans:
            f = m.fn(s['line_start'])
            if f and not fn: fn = f
        for s in spans:
            lab = s.get('label') or ''
            for ln in range(s['line_start'], s['line_end'] + 1):
                if ln in m.tags: tags |= set(m.tags[ln])
        text = (prim[0]['text'][0]['text'].strip() if prim and prim[0].get('text') else '')[:160]
        clause = ''
        for s in spans:
            if 'failed' in (s.get('label') or '') and s.get('text'): clause = s['text'][0]['text'].strip()[:200]
        e = dict(fn=fn, msg=msg, line=line, tags=sorted(tags), text=text, clause=clause)
        (failed if VERIF.search(msg) and not d.get('code') else tool).append(e)
    return failed, tool

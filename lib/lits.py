"""literals of Rust sources: numbers and texts, with how often each occurs (without comments, test modules and the uppercase table)"""
import re, os, collections
def strip(t):
    t = t.split('#[cfg(test)]\nmod ')[0]
    t = re.sub(r'static\s+\w+\s*:\s*&\[\(u16,\s*u16\)\]\s*=\s*&\[.*?\];', '', t, flags=re.S)
    t = re.sub(r'^\s*#!?\[.*$', '', t, flags=re.M)
    out, i = [], 0
    while i < len(t):
        if t.startswith('//', i): j = t.find('\n', i); i = len(t) if j < 0 else j
        elif t.startswith('/*', i): j = t.find('*/', i); i = len(t) if j < 0 else j + 2
        elif t[i] == '"':
            m = re.compile(r'"(?:\\.|[^"\\])*"', re.S).match(t, i)
            if not m: break
            out.append(m.group(0)); i = m.end()
        else: out.append(t[i]); i += 1
    return ''.join(out)
def unesc(s):
    s = re.sub(r'\\\n\s*', '', s)
    s = re.sub(r'\\u\{([0-9a-fA-F_]+)\}', lambda m: chr(int(m.group(1).replace('_', ''), 16)), s)
    s = re.sub(r'\\x([0-9a-fA-F]{2})', lambda m: chr(int(m.group(1), 16)), s)
    for a, b in (('\\n', '\n'), ('\\t', '\t'), ('\\r', '\r'), ('\\0', '\0'), ('\\"', '"'), ("\\'", "'"), ('\\\\', '\\')): s = s.replace(a, b)
    return s
def literals(src):
    c = collections.Counter()
    for f in sorted(os.listdir(src)):
        if not f.endswith('.rs') or f == 'error.rs': continue
        t = strip(open(src + '/' + f, encoding='utf-8', errors='replace').read())
        for m in re.finditer(r'"((?:\\.|[^"\\])*)"', t, re.S):
            try:
                s = unesc(m.group(1))
                c[('s', s.encode('utf-8').hex())] += 1
                if 1 <= len(s) <= 4 and all(ord(x) < 256 for x in s): c[('i', int.from_bytes(s.encode('latin-1'), 'little'))] += 1
            except Exception: pass
        t = re.sub(r'"((?:\\.|[^"\\])*)"', ' ', t, flags=re.S)
        for m in re.finditer(r"b?'((?:\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.))|[^'\\\n])'(?!\w)", t):
            s = unesc(m.group(1))
            if len(s) == 1: c[('i', ord(s))] += 1; c[('s', s.encode('utf-8', 'ignore').hex())] += 1
        t = re.sub(r"b?'((?:\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.))|[^'\\\n])'(?!\w)", ' ', t)
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:_?[iu](?:8|16|32|64|128|size))?(?!\w)', t):
            try:
                v = int(m.group(1).replace('_', ''), 0) if not re.match(r'0[0-9]', m.group(1)) else int(m.group(1).replace('_', ''))
                if v < 1 << 64: c[('i', v)] += 1
            except ValueError: pass
            except Exception: pass
        for m in re.finditer(r'\b([iu](?:8|16|32|64|size))::(MAX|MIN)\b', t):
            w = {'8': 8, '16': 16, '32': 32, '64': 64, 'size': 64}[m.group(1)[1:]]
            v = ((1 << w) - 1 if m.group(1)[0] == 'u' else (1 << w - 1) - 1) if m.group(2) == 'MAX' else (1 << w - 1 if m.group(1)[0] == 'i' else 0)
            c[('i', v)] += 1
        # shifts such as 1 << 15
        for m in re.finditer(r'(?<![\w.])([0-9]+)(?:_?[iu](?:8|16|32|64|size))?\s*<<\s*([0-9]+)', t):
            v = int(m.group(1)) << min(int(m.group(2)), 70)
            if v < 1 << 64: c[('i', v)] += 1
    return c
def dictionary(src, baseline, out):
    """writes the dictionary file for the search; returns the number of literals that are new"""
    cur = literals(src)
    base = collections.Counter()
    if os.path.exists(baseline):
        for l in open(baseline):
            k, v, n = l.split()
            base[(k, int(v) if k == 'i' else ('' if v == '-' else v))] = int(n)
    new = [k for k in cur if cur[k] > base.get(k, 0)]
    with open(out, 'w') as f:
        for k in sorted(cur, key=str): f.write('dict a%s %s\n' % k)
        for k in sorted(new, key=str): f.write('dict n%s %s\n' % k)
    return len(new)
def write_baseline(src, out):
    with open(out, 'w') as f:
        for (k, v), n in sorted(literals(src).items(), key=str): f.write('%s %s %d\n' % (k, v if v != '' else '-', n))
if __name__ == '__main__':
    import sys
    write_baseline(sys.argv[1], sys.argv[2])

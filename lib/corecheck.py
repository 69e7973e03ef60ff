"""Compare the bodies that prelude.rs verifies in place of functions of `core` (between /*@CORE file fn*/ and /*@ENDCORE*/) with the text
of the installed core library (rust-src). Proof hints are between /*+*/ and /*-*/. What is substituted is listed here, and each
substitution must apply."""
import re, subprocess, os
SUB = {  # function: (start of the item in the file, signature of the function, [(text of core, text here)])
 'ChunksExact::new': ("impl<'a, T> ChunksExact<'a, T> {", "fn new(", [("unsafe{slice.split_at_unchecked(fst_len)}", "slice.split_at(fst_len)"), ("rem:snd,", "")]),
 'ChunksExact::next': ("Iterator for ChunksExact<'a, T> {", "fn next(", [("self.v.split_at_checked(self.chunk_size).and_then(|(chunk,rest)|{", "matchsplit_at_checked(self.v,self.chunk_size){None=>None,Some((chunk,rest))=>{"), ("Some(chunk)})", "Some(chunk)}}")]),
 'split_at_checked': (None, "fn split_at_checked(", [("mid<=self.len()", "mid<=s.len()"), ("Some(unsafe{self.split_at_unchecked(mid)})", "Some(s.split_at(mid))")]),
 'Chunks::next': ("Iterator for Chunks<'a, T> {", "fn next(", [("self.v.is_empty()", "self.s.len()==0"), ("cmp::min(self.v.len(),self.chunk_size)", "pcmp::min(self.s.len(),self.n)"), ("self.v.split_at", "self.s.split_at"), ("self.v=snd", "self.s=snd")]),
 'is_utf16_surrogate': ("impl u16 {", "fn is_utf16_surrogate(", [("self", "u")]),
 'decode_utf16': (None, "fn decode_utf16<", [("iter.into_iter()", "iter")]),
 'DecodeUtf16::next': ("Iterator for DecodeUtf16<I> {", "fn next(", [("!u.is_utf16_surrogate()", "!is_utf16_surrogate(u)"), ("unsafe{char::from_u32_unchecked(uasu32)}", "char_from_u32_unchecked(uasu32)"), ("unsafe{char::from_u32_unchecked(c)}", "char_from_u32_unchecked(c)"), ("DecodeUtf16Error{code:u}", "DecodeError{}"), ("None=>returnSome(Err(DecodeError{})),", "None=>{returnSome(Err(DecodeError{}))},")]),
 'encode_utf16_raw': (None, "fn encode_utf16_raw(", [("match(len,&mut*dst)", "matchlen"), ("(1,[a,..])", "1"), ("(2,[a,b,..])", "2"), ("*a=codeasu16", "dst[0]=codeasu16"), ("*a=(code>>10)", "dst[0]=(code>>10)"), ("*b=", "dst[1]="), (re.compile(r"_=>\{const_panic!\(.*?\)\}"), "_=>{exec_unreachable();}"), ("unsafe{slice::from_raw_parts_mut(dst.as_mut_ptr(),len)}", "len")]),
 'len_utf16': (None, "const fn len_utf16(code", []),
 'EncodeUtf16::next': ("Iterator for EncodeUtf16<'a> {", "fn next(", [("self.chars.next().map(|ch|{", "matchself.chars.next(){None=>None,Some(ch)=>{"), ("ch.encode_utf16(&mutbuf).len()", "char_encode_utf16(ch,&mutbuf)"), ("buf[0]})", "Some(buf[0])}}")]),
 'char_try_from_u32': (None, "fn char_try_from_u32(", [("Err(CharTryFromError(()))", "None"), ("Ok(unsafe{transmute(i)})", "Some(char_from_u32_unchecked(i))")]),
 'binary_search_by': (None, "fn binary_search_by<'a, F>(", [("unsafe{self.get_unchecked(mid)}", "&self[mid]"), ("unsafe{self.get_unchecked(base)}", "&self[base]"), ("hint::select_unpredictable(cmp==Greater,base,mid)", "iford_gt(cmp){base}else{mid}"), ("ifcmp==Equal{", "iford_eq(cmp){"), ("unsafe{hint::assert_unchecked(base<self.len())};", ""), ("unsafe{hint::assert_unchecked(result<=self.len())};", ""), ("(cmp==Less)asusize", "iford_lt(cmp){1usize}else{0usize}")]),
}
def norm(t):
    t = re.sub(r'//[^\n]*', '', t)
    return re.sub(r'\s+', '', t)
def body(t, at):
    i = t.index('{', at)
    # the first brace that opens the body: skip where clauses (they have none here)
    d = 0
    for j in range(i, len(t)):
        if t[j] == '{': d += 1
        elif t[j] == '}':
            d -= 1
            if d == 0: return t[i + 1:j]
def core_text(f, fn):
    root = subprocess.run(['rustc', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip() + '/lib/rustlib/src/rust/library/core/src/'
    t = re.sub(r'//[^\n]*', '', open(root + f).read())
    start, sig, subs = SUB[fn]
    p = t.index(start) if start else 0
    b = norm(body(t, t.index(sig, p)))
    for a, c in subs:
        if isinstance(a, str):
            if a not in b: return None
            b = b.replace(a, c)
        else:
            b, n = a.subn(lambda m: c, b)
            if n != 1: return None
    return b
def run(prelude):
    s = open(prelude).read(); ok, bad = [], []
    for m in re.finditer(r'/\*@CORE (\S+) (\S+)\*/(.*?)/\*@ENDCORE\*/', s, re.S):
        f, fn, t = m.groups()
        here = norm(re.sub(r'/\*\+\*/.*?/\*-\*/', '', t, flags=re.S))
        try: there = core_text(f, fn)
        except Exception as e: there = None
        (ok if here == there else bad).append(f'{f} {fn}')
    return ok, bad
if __name__ == '__main__':
    import sys
    ok, bad = run(sys.argv[1]); print('same:', ok); print('different or not found:', bad)
    for x in bad:
        f, fn = x.split()
        try: print(fn, '\n ', core_text(f, fn))
        except Exception as e: print(fn, e)
        m = re.search(r'/\*@CORE ' + re.escape(x) + r'\*/(.*?)/\*@ENDCORE\*/', open(sys.argv[1]).read(), re.S)
        print(' ', norm(re.sub(r'/\*\+\*/.*?/\*-\*/', '', m.group(1), flags=re.S)))

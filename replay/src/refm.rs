//! Reference reader: the registry format as the properties state it, written independently of nt-hive.
//! All positions are relative to the start of the hive data (file offset 4096).
use std::collections::HashSet;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Er { pub v: &'static str, pub off: Option<u64>, pub d: String }
pub type R<T> = Result<T, Er>;
fn er<T>(v: &'static str, data_pos: u64, d: String) -> R<T> { Err(Er { v, off: Some(data_pos + 4096), d }) }
/// what was required (or specified), and what was found (or is available)
fn two(a: u64, b: u64) -> String { format!("{a} {b}") }
fn sig(e: &[u8], a: &[u8]) -> String { format!("{:x?} {:x?}", e, a) }
const TYPES: [&str; 12] = ["RegNone", "RegSZ", "RegExpandSZ", "RegBinary", "RegDWord", "RegDWordBigEndian", "RegLink", "RegMultiSZ", "RegResourceList", "RegFullResourceDescriptor", "RegResourceRequirementsList", "RegQWord"];
fn type_er<T>(e: &str, t: u32) -> R<T> { Err(Er { v: "InvalidKeyValueDataType", off: None, d: format!("[{}] {}", e, TYPES[t as usize]) }) }

pub type Rg = (u64, u64);
pub struct Img<'a> { pub b: &'a [u8], pub n: u64 }
pub enum Entries { Leaf(Vec<R<Rg>>), Root(Vec<R<Vec<R<Rg>>>>) }
impl Entries {
    pub fn flat(&self) -> Vec<R<Rg>> {
        match self {
            Entries::Leaf(v) => v.clone(),
            Entries::Root(l) => l.iter().flat_map(|x| match x { Ok(v) => v.clone(), Err(e) => vec![Err(e.clone())] }).collect(),
        }
    }
}
#[derive(Clone, Debug)]
pub enum DataRef { Small(Rg), Big(u64, Vec<R<Rg>>) }

impl<'a> Img<'a> {
    pub fn new(b: &'a [u8]) -> Self { Img { b, n: b.len() as u64 - 4096 } }
    pub fn bytes(&self, r: Rg) -> &'a [u8] { &self.b[4096 + r.0 as usize..4096 + r.1 as usize] }
    pub fn u8(&self, p: u64) -> u8 { self.b[4096 + p as usize] }
    pub fn u16(&self, p: u64) -> u16 { self.u8(p) as u16 | (self.u8(p + 1) as u16) << 8 }
    pub fn u32(&self, p: u64) -> u32 { self.u16(p) as u32 | (self.u16(p + 2) as u32) << 16 }
    pub fn cell(&self, off: u32) -> R<Rg> {
        let o = off as u64;
        if o + 4 > self.n { return er("InvalidHeaderSize", o, two(4, self.n.saturating_sub(o))); }
        let s = self.u32(o) as i32 as i64;
        if s > 0 { return er("UnallocatedCell", o, s.to_string()); }
        let m = (-s) as u64;
        if m % 8 != 0 { return er("InvalidSizeFieldAlignment", o, two(m, 8)); }
        if m < 4 { return er("InvalidSizeField", o, two(4, m)); }
        if o + m > self.n { return er("InvalidSizeField", o, two(m - 4, self.n - o - 4)); }
        Ok((o + 4, o + m))
    }
    pub fn key(&self, off: u32) -> R<Rg> {
        let c = self.cell(off)?;
        if c.1 - c.0 < 76 { return er("InvalidHeaderSize", c.0, two(76, c.1 - c.0)); }
        if self.bytes((c.0, c.0 + 2)) != b"nk" { return er("InvalidTwoByteSignature", c.0, sig(b"nk", self.bytes((c.0, c.0 + 2)))); }
        Ok(c)
    }
    pub fn root_off(&self) -> u32 { u32::from_le_bytes([self.b[36], self.b[37], self.b[38], self.b[39]]) }
    pub fn minor(&self) -> u32 { u32::from_le_bytes([self.b[24], self.b[25], self.b[26], self.b[27]]) }
    pub fn root(&self) -> R<Rg> { self.key(self.root_off()) }
    /// (latin1, range)
    pub fn key_name(&self, k: Rg) -> R<(bool, Rg)> {
        let l = self.u16(k.0 + 72) as u64;
        if k.0 + 76 + l > k.1 { return er("InvalidSizeField", k.0 + 72, two(l, k.1 - k.0 - 76)); }
        Ok((self.u16(k.0 + 2) & 0x20 != 0, (k.0 + 76, k.0 + 76 + l)))
    }
    pub fn class(&self, k: Rg) -> Option<R<Rg>> {
        let o = self.u32(k.0 + 48);
        if o == u32::MAX { return None; }
        let l = self.u16(k.0 + 74) as u64;
        Some(self.cell(o).and_then(|c| if c.0 + l > c.1 { er("InvalidSizeField", k.0 + 74, two(l, c.1 - c.0)) } else { Ok((c.0, c.0 + l)) }))
    }
    fn list(&self, c: Rg, root_ok: bool, empty_ok: bool) -> R<(bool, Vec<u32>)> {
        if c.1 - c.0 < 4 { return er("InvalidHeaderSize", c.0, two(4, c.1 - c.0)); }
        let (size, root) = match self.bytes((c.0, c.0 + 2)) {
            b"lf" | b"lh" => (8, false),
            b"li" => (4, false),
            b"ri" if root_ok => (4, true),
            x => return er("InvalidTwoByteSignature", c.0, sig(if root_ok { b"lf|lh|li|ri" } else { b"lf|lh|li" }, x)),
        };
        let n = self.u16(c.0 + 2) as u64;
        if n == 0 && !empty_ok { return er("InvalidSizeField", c.0 + 2, two(1, 0)); }
        if c.0 + 4 + n * size > c.1 { return er("InvalidSizeField", c.0 + 2, two(n * size, c.1 - c.0 - 4)); }
        Ok((root, (0..n).map(|i| self.u32(c.0 + 4 + i * size)).collect()))
    }
    pub fn subkeys(&self, k: Rg) -> Option<R<Entries>> {
        let o = self.u32(k.0 + 28);
        if o == u32::MAX { return None; }
        Some((|| {
            let (root, offs) = self.list(self.cell(o)?, true, true)?;
            if !root { return Ok(Entries::Leaf(offs.iter().map(|&o| self.key(o)).collect())); }
            Ok(Entries::Root(offs.iter().map(|&o| {
                let (_, l) = self.list(self.cell(o)?, false, false)?;
                Ok(l.iter().map(|&o| self.key(o)).collect())
            }).collect()))
        })())
    }
    pub fn value_at(&self, off: u32) -> R<Rg> {
        let c = self.cell(off)?;
        if c.1 - c.0 < 20 { return er("InvalidHeaderSize", c.0, two(20, c.1 - c.0)); }
        if self.bytes((c.0, c.0 + 2)) != b"vk" { return er("InvalidTwoByteSignature", c.0, sig(b"vk", self.bytes((c.0, c.0 + 2)))); }
        Ok(c)
    }
    pub fn values(&self, k: Rg) -> Option<R<Vec<R<Rg>>>> {
        let o = self.u32(k.0 + 40);
        if o == u32::MAX { return None; }
        Some((|| {
            let c = self.cell(o)?;
            let n = self.u32(k.0 + 36) as u64;
            if c.0 + 4 * n > c.1 { return er("InvalidSizeField", k.0 + 36, two((4 * n).min(usize::MAX as u64), c.1 - c.0)); }
            Ok((0..n).map(|i| self.value_at(self.u32(c.0 + 4 * i))).collect())
        })())
    }
    pub fn value_name(&self, v: Rg) -> R<(bool, Rg)> {
        let l = self.u16(v.0 + 2) as u64;
        if v.0 + 20 + l > v.1 { return er("InvalidSizeField", v.0 + 2, two(l, v.1 - v.0 - 20)); }
        Ok((self.u16(v.0 + 16) & 1 != 0, (v.0 + 20, v.0 + 20 + l)))
    }
    pub fn data_size(&self, v: Rg) -> u32 { self.u32(v.0 + 4) & 0x7fff_ffff }
    pub fn data(&self, v: Rg) -> R<DataRef> {
        let raw = self.u32(v.0 + 4);
        let size = (raw & 0x7fff_ffff) as u64;
        if raw & 0x8000_0000 != 0 {
            if size > 4 { return er("InvalidSizeField", v.0 + 4, two(size, 4)); }
            return Ok(DataRef::Small((v.0 + 8, v.0 + 8 + size)));
        }
        let c = self.cell(self.u32(v.0 + 8))?;
        if size <= 16344 || self.minor() < 4 {
            if c.1 - c.0 < size { return er("InvalidDataSize", c.0, two(size, c.1 - c.0)); }
            return Ok(DataRef::Small((c.0, c.0 + size)));
        }
        if c.1 - c.0 < 8 { return er("InvalidHeaderSize", c.0, two(8, c.1 - c.0)); }
        if self.bytes((c.0, c.0 + 2)) != b"db" { return er("InvalidTwoByteSignature", c.0, sig(b"db", self.bytes((c.0, c.0 + 2)))); }
        let n = self.u16(c.0 + 2) as u64;
        if size > n * 16344 { return er("InvalidSizeField", v.0 + 4, two(size, n * 16344)); }
        let l = self.cell(self.u32(c.0 + 4))?;
        if l.0 + 4 * n > l.1 { return er("InvalidSizeField", c.0 + 2, two(4 * n, l.1 - l.0)); }
        let mut left = size;
        let mut segs = vec![];
        let mut i = 0;
        while left > 0 {
            let w = left.min(16344);
            segs.push(self.cell(self.u32(l.0 + 4 * i)).and_then(|s| if s.1 - s.0 < w { er("InvalidDataSize", s.0, two(w, s.1 - s.0)) } else { Ok((s.0, s.0 + w)) }));
            left -= w;
            i += 1;
        }
        Ok(DataRef::Big(size, segs))
    }
    /// the bytes of the data as far as they can be read, and the error that ends them
    pub fn data_bytes(&self, v: Rg) -> R<(Vec<u8>, Option<Er>)> {
        match self.data(v)? {
            DataRef::Small(r) => Ok((self.bytes(r).to_vec(), None)),
            DataRef::Big(_, segs) => {
                let mut o = vec![];
                for s in segs { match s { Ok(r) => o.extend_from_slice(self.bytes(r)), Err(e) => return Ok((o, Some(e))) } }
                Ok((o, None))
            }
        }
    }
    pub fn ty(&self, v: Rg) -> R<u32> {
        let t = self.u32(v.0 + 12);
        if t > 11 { return er("UnsupportedKeyValueDataType", v.0 + 12, t.to_string()); }
        Ok(t)
    }
    /// 32-bit (w = 4) or 64-bit (w = 8) integer
    pub fn int(&self, v: Rg, w: u64) -> R<u64> {
        let d = self.data(v)?;
        let r = match d { DataRef::Small(r) => r, DataRef::Big(n, _) => return er("InvalidDataSize", self.u32(v.0 + 8) as u64, two(w, n)) };
        if r.1 - r.0 != w { return er("InvalidDataSize", r.0, two(w, r.1 - r.0)); }
        let t = self.ty(v)?;
        let b = self.bytes(r);
        let le = b.iter().rev().fold(0u64, |a, &x| a << 8 | x as u64);
        let be = b.iter().fold(0u64, |a, &x| a << 8 | x as u64);
        match (w, t) {
            (4, 4) => Ok(le),
            (4, 5) => Ok(be),
            (8, 11) => Ok(le),
            _ => type_er(if w == 4 { "RegDWord, RegDWordBigEndian" } else { "RegQWord" }, t),
        }
    }
    /// Ok(string) | error
    pub fn string(&self, v: Rg) -> R<String> {
        let t = self.ty(v)?;
        if t != 1 && t != 2 { return type_er("RegSZ, RegExpandSZ", t); }
        let (b, e) = self.data_bytes(v)?;
        let u = units(&b);
        match u.iter().position(|&x| x == 0) {
            Some(p) => Ok(decode(&u[..p])),
            None => match e { Some(e) => Err(e), None => Ok(decode(&u)) },
        }
    }
    /// the items up to and including the first error
    pub fn multi(&self, v: Rg) -> R<(Vec<String>, Option<Er>)> {
        let t = self.ty(v)?;
        if t != 7 { return type_er("RegMultiSZ", t); }
        let (b, e) = self.data_bytes(v)?;
        let u = units(&b);
        let mut out = vec![];
        let mut i = 0;
        loop {
            match u[i..].iter().position(|&x| x == 0) {
                Some(0) => return Ok((out, None)),
                Some(p) => { out.push(decode(&u[i..i + p])); i += p + 1; }
                None => {
                    if e.is_some() { return Ok((out, e)); }
                    if i < u.len() { out.push(decode(&u[i..])); }
                    return Ok((out, None));
                }
            }
        }
    }
    /// All keys reachable from the root; None if it is not a tree or DAG of moderate size or a structure is unreadable.
    /// The set of bytes that were looked at is returned as ranges.
    pub fn reach(&self, limit: usize) -> Reach {
        let mut r = Reach { keys: vec![], unreadable: false, cyclic: false, too_big: false, touched: vec![] };
        let root = match self.root() { Ok(k) => k, Err(_) => { r.unreadable = true; return r; } };
        let mut stack = vec![];
        let mut steps = 0;
        self.walk(root, &mut r, &mut stack, &mut steps, limit);
        r
    }
    fn walk(&self, k: Rg, r: &mut Reach, stack: &mut Vec<u64>, steps: &mut usize, limit: usize) {
        *steps += 1;
        if stack.contains(&k.0) { r.cyclic = true; return; }
        if *steps > limit || stack.len() > 200 { r.too_big = true; return; }
        if !r.keys.contains(&k.0) { r.keys.push(k.0); }
        r.touched.push((k.0 - 4, k.0 + 24));
        r.touched.push((k.0 + 28, k.0 + 76));
        stack.push(k.0);
        let o = self.u32(k.0 + 28);
        if o != u32::MAX { if let Ok(c) = self.cell(o) { r.touched.push((c.0 - 4, c.1)); self.touch_leaves(c, r); } }
        match self.subkeys(k) {
            None => (),
            Some(Err(_)) => r.unreadable = true,
            Some(Ok(e)) => for x in e.flat() {
                match x { Ok(s) => self.walk(s, r, stack, steps, limit), Err(_) => r.unreadable = true }
                if r.cyclic || r.too_big { break; }
            },
        }
        stack.pop();
    }
    fn touch_leaves(&self, c: Rg, r: &mut Reach) {
        if c.1 - c.0 >= 4 && self.bytes((c.0, c.0 + 2)) == b"ri" {
            let n = self.u16(c.0 + 2) as u64;
            if c.0 + 4 + 4 * n > c.1 { return; }
            for i in 0..n { if let Ok(l) = self.cell(self.u32(c.0 + 4 + 4 * i)) { r.touched.push((l.0 - 4, l.1)); } }
        }
    }
}
pub struct Reach { pub keys: Vec<u64>, pub unreadable: bool, pub cyclic: bool, pub too_big: bool, pub touched: Vec<Rg> }
impl Reach {
    /// does a volatile count overlap a structure that is read?
    pub fn overlap(&self) -> bool {
        let s: HashSet<u64> = self.keys.iter().flat_map(|k| k + 24..k + 28).collect();
        self.touched.iter().any(|&(a, b)| if b - a > 4 * s.len() as u64 { s.iter().any(|&x| a <= x && x < b) } else { (a..b).any(|x| s.contains(&x)) })
    }
}

pub fn units(b: &[u8]) -> Vec<u16> { b.chunks_exact(2).map(|c| c[0] as u16 | (c[1] as u16) << 8).collect() }
/// UTF-16 decoding with U+FFFD for unpaired surrogates
pub fn decode(u: &[u16]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < u.len() {
        let x = u[i] as u32;
        if (0xd800..0xdc00).contains(&x) && i + 1 < u.len() && (0xdc00..0xe000).contains(&(u[i + 1] as u32)) {
            o.push(char::from_u32(0x10000 + (x - 0xd800) * 0x400 + (u[i + 1] as u32 - 0xdc00)).unwrap());
            i += 2;
        } else {
            o.push(char::from_u32(x).unwrap_or('\u{fffd}'));
            i += 1;
        }
    }
    o
}
pub fn decode_checked(u: &[u16]) -> Option<String> {
    let mut i = 0;
    while i < u.len() {
        let x = u[i];
        if (0xdc00..0xe000).contains(&x) { return None; }
        if (0xd800..0xdc00).contains(&x) {
            if i + 1 < u.len() && (0xdc00..0xe000).contains(&u[i + 1]) { i += 2; continue; }
            return None;
        }
        i += 1;
    }
    Some(decode(u))
}
static UP: OnceLock<Vec<u16>> = OnceLock::new();
/// simple uppercase mapping of the BMP (Unicode 13), taken from the Unicode character database, not from nt-hive
pub fn up(u: u16) -> u16 {
    UP.get_or_init(|| {
        let mut t: Vec<u16> = (0..=0xffff).collect();
        for l in include_str!("../uppercase13.txt").lines() {
            let (a, b) = l.split_once(' ').unwrap();
            t[usize::from_str_radix(a, 16).unwrap()] = u16::from_str_radix(b, 16).unwrap();
        }
        t
    })[u as usize]
}
pub fn cmp_units(a: &[u16], b: &[u16]) -> std::cmp::Ordering {
    let f = |v: &[u16]| v.iter().map(|&x| up(x)).collect::<Vec<u16>>();
    f(a).cmp(&f(b))
}
pub fn name_units(latin: bool, b: &[u8]) -> Vec<u16> { if latin { b.iter().map(|&x| x as u16).collect() } else { units(b) } }

/// verdict on the base block
pub fn header_error(b: &[u8]) -> Option<Er> {
    if b.len() < 4096 { return Some(Er { v: "InvalidHeaderSize", off: Some(0), d: two(4096, b.len() as u64) }); }
    let g = |p: usize| u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
    let e = |v, off, d| Some(Er { v, off, d });
    let w = |a: u32, b: u32| two(a as u64, b as u64);
    if &b[0..4] != b"regf" { return e("InvalidFourByteSignature", Some(0), sig(b"regf", &b[0..4])); }
    if g(4) != g(8) { return e("SequenceNumberMismatch", None, w(g(4), g(8))); }
    if g(20) != 1 || g(24) < 3 { return e("UnsupportedVersion", None, w(g(20), g(24))); }
    if g(28) != 0 { return e("UnsupportedFileType", None, w(0, g(28))); }
    if g(32) != 1 { return e("UnsupportedFileFormat", None, w(1, g(32))); }
    if g(40) % 4096 != 0 { return e("InvalidSizeFieldAlignment", Some(40), w(g(40), 4096)); }
    if g(40) as u64 > b.len() as u64 - 4096 { return e("InvalidSizeField", Some(40), two(g(40) as u64, b.len() as u64 - 4096)); }
    if g(44) != 1 { return e("UnsupportedClusteringFactor", None, w(1, g(44))); }
    let mut c = 0;
    for i in 0..127 { c ^= g(4 * i); }
    if c == 0 { c = 1 } else if c == u32::MAX { c = u32::MAX - 1 }
    if c != g(508) { return e("InvalidChecksum", None, w(c, g(508))); }
    None
}

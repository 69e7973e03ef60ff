//! Hive generator: builds registry hives with every kind of list, name and data, then damages fields of them.
use crate::refm;
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.usize(v.len())] }
}
/// numbers and strings that occur in the source of the tree under test: those of the committed tree and those that are new in this tree
#[derive(Default, Clone)]
pub struct Dict { pub new_i: Vec<u64>, pub new_s: Vec<String>, pub all_i: Vec<u64>, pub all_s: Vec<String> }
static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn set_dict(d: Dict) { let _ = DICT.set(d); }
pub fn dict() -> &'static Dict { DICT.get_or_init(Dict::default) }
impl Dict {
    pub fn to_text(&self) -> String {
        let j = |k: &str, v: &[u64]| v.iter().map(|i| format!("dict {k} {i}\n")).collect::<String>();
        let s = |k: &str, v: &[String]| v.iter().map(|i| format!("dict {k} {}\n", i.bytes().map(|b| format!("{b:02x}")).collect::<String>())).collect::<String>();
        j("ni", &self.new_i) + &s("ns", &self.new_s) + &j("ai", &self.all_i) + &s("as", &self.all_s)
    }
    pub fn line(&mut self, l: &str) {
        let mut p = l.split(' ');
        if p.next() != Some("dict") { return; }
        let (k, v) = (p.next().unwrap_or(""), p.next().unwrap_or(""));
        let int = || v.parse::<u64>().ok();
        let st = || (0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok()).collect::<Option<Vec<u8>>>().and_then(|b| String::from_utf8(b).ok());
        match k { "ni" => self.new_i.extend(int()), "ai" => self.all_i.extend(int()), "ns" => self.new_s.extend(st()), "as" => self.all_s.extend(st()), _ => () }
    }
}
// every other case uses the dictionary
thread_local! { static HOT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn hot(on: bool) { HOT.with(|h| h.set(on)); }
/// sometimes a number that the source mentions, or one next to it
pub fn dint(r: &mut Rng) -> Option<u64> {
    if !HOT.with(|h| h.get()) { return None; }
    let d = dict();
    let v = if !d.new_i.is_empty() && r.chance(1, 8) { *r.pick(&d.new_i) } else if !d.all_i.is_empty() && r.chance(1, 80) { *r.pick(&d.all_i) } else { return None };
    Some(match r.below(9) { 0 => v.wrapping_add(1), 1 => v.wrapping_sub(1), 2 => v.wrapping_mul(2), 3 => v.wrapping_add(1 + r.below(9)), _ => v })
}
pub fn dstr(r: &mut Rng) -> Option<String> {
    if !HOT.with(|h| h.get()) { return None; }
    let d = dict();
    if !d.new_s.is_empty() && r.chance(1, 8) { return Some(r.pick(&d.new_s).clone()); }
    if !d.all_s.is_empty() && r.chance(1, 100) { return Some(r.pick(&d.all_s).clone()); }
    if let Some(c) = dint(r).and_then(|v| char::from_u32(v as u32)) { return Some(c.to_string()); }
    None
}
/// a length that the source mentions, at most max
pub fn dlen(r: &mut Rng, max: usize) -> Option<usize> { dint(r).filter(|&v| v <= max as u64).map(|v| v as usize) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { CellSize, Off, Cnt16, Cnt32, Len16, DSize, Flags, Sig, Type, Text, Vol, Item }
#[derive(Clone, Default)]
pub struct Opt { pub big: u64, pub strings: bool, pub wide: bool, pub deep: bool, pub damage: u64, pub unsorted: u64, pub tight: bool, pub ints: bool, pub vals: u64, pub minor_low: u64, pub dag: u64 }
pub struct G<'r> { pub r: &'r mut Rng, pub d: Vec<u8>, pub f: Vec<(usize, usize, K)>, pub cells: Vec<u32>, pub keys: Vec<u32>, o: Opt }
type Name = (bool, Vec<u8>);

pub fn name(r: &mut Rng) -> Name {
    const POOL: &[&str] = &["a", "A", "b", "B", "ab", "AB", "aB", "key", "Key", "KEYS", "z", "_", "~", "{", "[", "@", "", "\u{b5}", "\u{ff}", "\u{df}", "\u{e4}", "\u{c4}", "\u{f7}", "\u{d7}", "\u{178}", "\u{39c}", "\u{3bc}", "\u{1e9e}",
        "\u{131}", "\u{17f}", "\u{1c5}", "\u{10c0}", "\u{10d0}", "\u{1f600}", "\u{10428}", "\u{10400}", "\u{ffff}", "\u{ff41}", "\u{ff21}", "a\\b", "\\", "default", "Data", "data2", "x y", "key1", "key10", "key2", "\0", "a\0", "\u{345}", "\u{1fb3}", "\u{3c2}", "\u{3c3}"];
    let mut s = String::new();
    let n = if r.chance(1, 4) { 2 + r.usize(2) } else { 1 };
    for _ in 0..n { match dstr(r) { Some(d) => s.push_str(&d), None => s.push_str(r.pick(POOL)) } }
    if let Some(n) = dlen(r, 3000) { while s.chars().count() < n { s.push_str(*r.pick(&["a", "k", "Z", "\u{e4}"])); } }
    if r.chance(1, 3) { s.push_str(&format!("{}", r.below(30))); }
    let u: Vec<u16> = s.encode_utf16().collect();
    if u.iter().all(|&x| x < 256) && r.chance(2, 3) { return (true, u.iter().map(|&x| x as u8).collect()); }
    if r.chance(1, 25) {
        let n = r.usize(5);
        return (r.chance(1, 2), (0..n).map(|_| *r.pick(&[0u8, 0x41, 0x61, 0xd8, 0xdc, 0xff, 0xb5, 0xe0])).collect());
    }
    let mut b: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).collect();
    if r.chance(1, 15) { b.extend_from_slice(&[r.next() as u8, 0xd8 + r.below(8) as u8]); }
    if r.chance(1, 15) { b.push(r.next() as u8); }
    (false, b)
}
pub fn nunits(n: &Name) -> Vec<u16> { refm::name_units(n.0, &n.1) }

impl<'r> G<'r> {
    pub fn new(r: &'r mut Rng, o: Opt) -> Self {
        let pad = 4 * r.usize(9);
        G { r, d: vec![0; 32 + if o.tight { pad / 8 * 8 } else { 0 }], f: vec![], cells: vec![], keys: vec![], o }
    }
    pub fn cell(&mut self, p: &[u8]) -> u32 {
        if self.r.chance(1, 12) { // an unallocated cell in between
            let n = 8 + 8 * self.r.usize(4);
            let at = self.d.len();
            self.d.extend_from_slice(&(n as u32).to_le_bytes());
            self.d.resize(at + n, 0xaa);
        }
        let off = self.d.len();
        let mut n = (p.len() + 4 + 7) / 8 * 8;
        if !self.o.tight && self.r.chance(1, 5) { n += 8 * (1 + self.r.usize(3)); }
        self.d.extend_from_slice(&(-(n as i32)).to_le_bytes());
        self.f.push((off, 4, K::CellSize));
        self.d.extend_from_slice(p);
        let fill = *self.r.pick(&[0u8, 0, 0xff, 0x41]);
        self.d.resize(off + n, fill);
        self.cells.push(off as u32);
        off as u32
    }
    fn put(&mut self, at: usize, v: u32) { self.d[at..at + 4].copy_from_slice(&v.to_le_bytes()); }
    fn utf16(&mut self, bytes: usize, multi: bool) -> Vec<u8> {
        let mut o = vec![];
        let dense = self.r.chance(1, 3);
        let nul = self.r.chance(2, 3);
        while o.len() < bytes {
            let x = self.r.below(1000);
            if let Some(s) = dstr(self.r) { for u in s.encode_utf16() { o.extend_from_slice(&u.to_le_bytes()); } continue; }
            if multi && x < if bytes > 1000 { 10 } else { 200 } { o.extend_from_slice(&[0, 0]); continue; }
            if nul && !multi && x < if bytes > 1000 { 1 } else { 40 } { o.extend_from_slice(&[0, 0]); continue; }
            let u: u16 = match x % if dense { 8 } else { 40 } {
                0 => 0xd83d, 1 => 0xde00, 2 => 0xdbff, 3 => 0xdfff, 4 => 0xd800, 5 => 0xdc00,
                6 => *self.r.pick(&[0xffffu16, 0xfffe, 0xe000, 0xd7ff, 0x80, 0xff, 0x100, 0x7ff, 0x800]),
                _ => 0x41 + self.r.below(50) as u16,
            };
            if u == 0xd83d && self.r.chance(2, 3) { o.extend_from_slice(&[0x3d, 0xd8, self.r.next() as u8, 0xde]); } else { o.extend_from_slice(&u.to_le_bytes()); }
        }
        o.truncate(bytes);
        if self.r.chance(1, 2) && bytes >= 2 && !multi { let n = o.len(); o[n - 2] = 0; o[n - 1] = 0; }
        if multi && self.r.chance(1, 2) && bytes >= 4 { let n = o.len(); for b in &mut o[n - 4..] { *b = 0; } }
        o
    }
    pub fn value(&mut self, nm: &Name, minor: u32) -> u32 {
        let strings = self.o.strings;
        let ty: u32 = if strings { *self.r.pick(&[1, 2, 7, 7, 1]) } else if self.o.ints { *self.r.pick(&[4, 5, 11, 4, 5, 11, 3, 0, 12, 0xffff_ffff]) } else { *self.r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0x100]) };
        let size: usize = if self.r.chance(self.o.big, 100) {
            *self.r.pick(&[16343, 16344, 16345, 16346, 16348, 32687, 32688, 32689, 32690, 40000, 49032, 49033, 3 * 16344 + 2, 65376, 65377])
        } else if let Some(n) = dlen(self.r, 1 << 18).filter(|&n| n < 4000 || self.d.len() < 1 << 20) { n
        } else if ty == 4 || ty == 5 { *self.r.pick(&[4, 4, 4, 4, 3, 5, 8, 0, 2, 6]) } else if ty == 11 { *self.r.pick(&[8, 8, 8, 4, 7, 9, 16, 0, 10]) } else { let m = if self.r.chance(1, 4) { 200 } else { 24 }; self.r.usize(m) };
        let mut bytes: Vec<u8> = match ty {
            1 | 2 => self.utf16(size, false),
            7 => self.utf16(size, true),
            _ => (0..size).map(|_| self.r.next() as u8).collect(),
        };
        bytes.truncate(size);
        if bytes.len() >= 4 && bytes.len() <= 8 { if let Some(v) = dint(self.r) { let k = bytes.len(); let be = self.r.chance(1, 2); let w = v.to_le_bytes(); for i in 0..k { bytes[i] = if be { w[k - 1 - i] } else { w[i] }; } } }
        let mut p = vec![0u8; 20];
        p[0..2].copy_from_slice(b"vk");
        p[2..4].copy_from_slice(&(nm.1.len() as u16).to_le_bytes());
        p[16] = nm.0 as u8 | if self.r.chance(1, 8) { 0xfe & self.r.next() as u8 } else { 0 };
        p[17] = if self.r.chance(1, 8) { self.r.next() as u8 } else { 0 };
        if let Some(v) = dint(self.r) { let fl = (v as u16) & !1 | nm.0 as u16; p[16..18].copy_from_slice(&fl.to_le_bytes()); }
        if let Some(v) = dint(self.r) { p[18..20].copy_from_slice(&(v as u16).to_le_bytes()); }
        let inline = size <= 4 && self.r.chance(1, 2);
        let mut sz = size as u32;
        let mut off = 0xdead_beefu32;
        if inline {
            sz |= 0x8000_0000;
            p[8..8 + size].copy_from_slice(&bytes);
            off = u32::from_le_bytes([p[8], p[9], p[10], p[11]]);
        } else if size > 16344 && minor >= 4 {
            let mut list = vec![];
            let mut segs: Vec<Vec<u8>> = bytes.chunks(16344).map(|c| c.to_vec()).collect();
            let need = segs.len();
            if self.r.chance(1, 3) { for _ in 0..1 + self.r.usize(2) { let n = self.r.usize(20); segs.push(vec![0xee; n]); } }
            let mut offs = vec![];
            if self.r.chance(1, 12) { // many segments that share one cell
                let n = if let Some(n) = dlen(self.r, 400) { n } else if self.r.chance(1, 25) { *self.r.pick(&[40, 120, 255, 256, 257, 300]) } else { 2 + self.r.usize(7) }.max(need);
                let some: Vec<u32> = (0..3u8).map(|i| self.cell(&vec![0x61 + i; 16344])).collect();
                offs = (0..n).map(|_| *self.r.pick(&some)).collect();
                segs.clear();
                sz = (n as u32 - 1) * 16344 + *self.r.pick(&[1u32, 2, 16344, 100, 16343, 0]);
                if sz <= 16344 { sz = 16345; offs.push(some[0]); }
            }
            for s in &segs { let mut s = s.clone(); if s.len() == 16344 && self.r.chance(1, 2) { s.extend_from_slice(&[0x42; 4]); } let o = self.cell(&s); offs.push(o); }
            if self.r.chance(1, 6) { offs.rotate_left(1); }
            if self.r.chance(1, 8) { let i = self.r.usize(need.min(offs.len())); offs[i] = *self.r.pick(&[u32::MAX, 0, 3, 0x7fff_fff8]); }
            for o in &offs { list.extend_from_slice(&o.to_le_bytes()); }
            let lo = self.cell(&list);
            for i in 0..offs.len() { self.f.push((lo as usize + 4 + 4 * i, 4, K::Item)); }
            let mut db = b"db".to_vec();
            let cnt = if self.r.chance(1, 10) { (offs.len() as u16).wrapping_add(*self.r.pick(&[1, 0xffff, 2])) } else { offs.len() as u16 };
            db.extend_from_slice(&cnt.to_le_bytes());
            db.extend_from_slice(&lo.to_le_bytes());
            off = self.cell(&db);
            let o = off as usize + 4;
            self.f.push((o, 2, K::Sig)); self.f.push((o + 2, 2, K::Cnt16)); self.f.push((o + 4, 4, K::Off));
        } else if size > 0 || self.r.chance(1, 2) { off = self.cell(&bytes); }
        p[4..8].copy_from_slice(&sz.to_le_bytes());
        p[8..12].copy_from_slice(&off.to_le_bytes());
        p[12..16].copy_from_slice(&ty.to_le_bytes());
        p.extend_from_slice(&nm.1);
        let v = self.cell(&p);
        let b = v as usize + 4;
        self.f.extend_from_slice(&[(b, 2, K::Sig), (b + 2, 2, K::Len16), (b + 4, 4, K::DSize), (b + 8, 4, K::Off), (b + 12, 4, K::Type), (b + 16, 2, K::Flags)]);
        if !nm.1.is_empty() { self.f.push((b + 20, 1, K::Text)); }
        v
    }
    fn leaf(&mut self, kind: u8, offs: &[u32]) -> u32 {
        let mut p = vec![];
        p.extend_from_slice(match kind { 0 => b"lf", 1 => b"lh", _ => b"li" });
        p.extend_from_slice(&(offs.len() as u16).to_le_bytes());
        for o in offs {
            p.extend_from_slice(&o.to_le_bytes());
            if kind < 2 { let h = self.r.next() as u32; p.extend_from_slice(&h.to_le_bytes()); }
        }
        let c = self.cell(&p);
        let b = c as usize + 4;
        self.f.push((b, 2, K::Sig)); self.f.push((b + 2, 2, K::Cnt16));
        let st = if kind < 2 { 8 } else { 4 };
        for i in 0..offs.len().min(40) { self.f.push((b + 4 + st * i, 4, K::Item)); }
        c
    }
    pub fn list(&mut self, offs: &[u32]) -> u32 {
        let kind = self.r.below(3) as u8;
        if !self.r.chance(2, 5) { return self.leaf(kind, offs); }
        let mut lists = vec![];
        let mut i = 0;
        let chunk = dlen(self.r, 700).filter(|&n| n > 0);
        while i < offs.len() {
            let n = match chunk { Some(n) => n.min(offs.len() - i), None => 1 + self.r.usize((offs.len() - i).min(5)) };
            let kind = if self.r.chance(1, 4) { self.r.below(3) as u8 } else { kind };
            lists.push(self.leaf(kind, &offs[i..i + n]));
            i += n;
        }
        if self.r.chance(1, 12) { let e = self.leaf(kind, &[]); let p = self.r.usize(lists.len() + 1); lists.insert(p, e); }
        if self.r.chance(1, 12) { let e = *self.r.pick(&[u32::MAX, 1, 0x7fff_fff0]); let p = self.r.usize(lists.len() + 1); lists.insert(p, e); }
        let mut p = b"ri".to_vec();
        p.extend_from_slice(&(lists.len() as u16).to_le_bytes());
        for o in &lists { p.extend_from_slice(&o.to_le_bytes()); }
        let c = self.cell(&p);
        let b = c as usize + 4;
        self.f.push((b, 2, K::Sig)); self.f.push((b + 2, 2, K::Cnt16));
        for i in 0..lists.len() { self.f.push((b + 4 + 4 * i, 4, K::Item)); }
        c
    }
    pub fn key(&mut self, nm: &Name, depth: usize, minor: u32) -> u32 {
        let mut p = vec![0u8; 76];
        let usual = self.r.chance(1, 2);
        if !usual { for b in p.iter_mut() { if self.r.chance(1, 3) { *b = self.r.next() as u8; } } }
        else { p[24..28].fill(0); p[32..36].fill(0xff); p[44..48].fill(0xff); p[4..8].copy_from_slice(&0x1234_5678u32.to_le_bytes()); }
        if self.r.chance(1, 4) { for i in 1..18 { if self.r.chance(1, 6) { let v = match dint(self.r) { Some(v) => v as u32, None => *self.r.pick(&[0, 1, u32::MAX, 0x8000_0000]) }; p[4 * i..4 * i + 4].copy_from_slice(&v.to_le_bytes()); } } }
        p[0..2].copy_from_slice(b"nk");
        let fl = if let Some(v) = dint(self.r) { v as u16 & !0x20 } else if self.r.chance(1, 4) { self.r.next() as u16 & !0x20 } else if usual && self.r.chance(1, 4) { *self.r.pick(&[2, 4, 8, 0xc, 0x10, 0x80, 0x40, 1]) } else { 0 } | if nm.0 { 0x20 } else { 0 };
        p[2..4].copy_from_slice(&fl.to_le_bytes());
        p[28..32].copy_from_slice(&u32::MAX.to_le_bytes());
        p[40..44].copy_from_slice(&u32::MAX.to_le_bytes());
        p[48..52].copy_from_slice(&u32::MAX.to_le_bytes());
        p[72..74].copy_from_slice(&(nm.1.len() as u16).to_le_bytes());
        if self.r.chance(1, 2) { let v = 1 + self.r.below(9) as u32; p[24..28].copy_from_slice(&v.to_le_bytes()); }
        p.extend_from_slice(&nm.1);
        let k = self.cell(&p);
        let b = k as usize + 4;
        self.f.extend_from_slice(&[(b, 2, K::Sig), (b + 2, 2, K::Flags), (b + 24, 4, K::Vol), (b + 28, 4, K::Off), (b + 36, 4, K::Cnt32), (b + 40, 4, K::Off), (b + 48, 4, K::Off), (b + 72, 2, K::Len16), (b + 74, 2, K::Len16), (b + 20, 4, K::Vol)]);
        if !nm.1.is_empty() { self.f.push((b + 76, 1, K::Text)); }
        let mut classlen = 0u16;
        if self.r.chance(1, 4) {
            let n = dlen(self.r, 60000).unwrap_or_else(|| self.r.usize(12));
            let c: Vec<u8> = if self.r.chance(1, 2) { self.utf16(n, false) } else { (0..n).map(|_| self.r.next() as u8).collect() };
            let o = self.cell(&c);
            classlen = n as u16;
            self.put(b + 48, o);
        }
        self.d[b + 74..b + 76].copy_from_slice(&classlen.to_le_bytes());
        // values
        let nv = if let Some(n) = dlen(self.r, 300).filter(|_| self.d.len() < 300_000) { n } else if self.r.chance(self.o.vals, 100) { let m = if self.o.big > 0 { 2 } else { 5 }; 1 + self.r.usize(m) } else { 0 };
        if nv > 0 || self.r.chance(1, 10) {
            let mut vs: Vec<u8> = vec![];
            let mut prev = vec![];
            for _ in 0..nv {
                let nm = if !prev.is_empty() && self.r.chance(1, 5) { let p: &Name = self.r.pick(&prev); p.clone() } else { name(self.r) };
                let v = self.value(&nm, minor);
                prev.push(nm);
                vs.extend_from_slice(&v.to_le_bytes());
            }
            let l = self.cell(&vs);
            for i in 0..nv { self.f.push((l as usize + 4 + 4 * i, 4, K::Item)); }
            self.put(b + 40, l);
        }
        self.put(b + 36, nv as u32);
        // subkeys
        let many = if depth > 0 && self.d.len() < 300_000 { dlen(self.r, 700) } else { None };
        let nk = if depth == 0 { 0 } else if let Some(n) = many { n } else if self.o.wide && self.keys.len() + self.f.len() / 400 < 8 { self.o.wide = false; *self.r.pick(&[3, 5, 8, 13, 30, 64]) } else { *self.r.pick(&[0, 1, 1, 2, 3, 4, 6]) };
        if nk > 0 || self.r.chance(1, 10) {
            let mut ks: Vec<(Name, u32)> = vec![];
            for _ in 0..nk {
                let mut nm = name(self.r);
                if self.o.wide && self.r.chance(1, 2) { nm = (true, format!("k{:03}", self.r.below(400)).into_bytes()); }
                let o = if self.r.chance(self.o.dag, 100) && !self.keys.is_empty() { *self.r.pick(&self.keys.clone()) } else { let d = if nk > 20 { 0 } else if self.o.deep { depth - 1 } else { self.r.usize(depth) }; self.key(&nm, d, minor) };
                ks.push((nm, o));
            }
            if !self.r.chance(self.o.unsorted, 100) { ks.sort_by(|a, b| refm::cmp_units(&nunits(&a.0), &nunits(&b.0))); }
            let offs: Vec<u32> = ks.iter().map(|k| k.1).collect();
            let l = self.list(&offs);
            self.put(b + 28, l);
        }
        self.put(b + 20, nk as u32);
        self.keys.push(k);
        k
    }
    /// a key whose only subkey is the given one
    fn above(&mut self, k: u32, i: usize) -> u32 {
        let l = self.leaf(self.d.len() as u8 % 3, &[k]);
        let mut p = vec![0u8; 76];
        p[0..3].copy_from_slice(b"nk\x20");
        p[20] = 1;
        for o in [32, 40, 44, 48] { p[o..o + 4].fill(0xff); }
        p[28..32].copy_from_slice(&l.to_le_bytes());
        if self.r.chance(1, 2) { p[24] = 1 + self.r.below(4) as u8; }
        let nm = format!("c{i}");
        p[72] = nm.len() as u8;
        p.extend_from_slice(nm.as_bytes());
        let c = self.cell(&p);
        self.keys.push(c);
        c
    }
    fn interesting(&mut self, at: usize, w: usize, k: K) -> u64 {
        let cur = (0..w).fold(0u64, |a, i| a | (self.d[at + i] as u64) << (8 * i));
        let n = self.d.len() as u64;
        if let Some(v) = dint(self.r) { return if k == K::CellSize && self.r.chance(1, 2) { v.wrapping_neg() } else { v }; }
        match k {
            K::CellSize => { let c = cur as u32 as i32 as i64;
                let rest = -((n - at as u64) as i64);
                (*self.r.pick(&[0, 1, -1, -2, -3, -4, -5, -8, -12, -16, 8, c - 8, c + 8, c + 16, c - 4, c + 4, c - 1, -c, i32::MIN as i64, i32::MAX as i64, i32::MIN as i64 + 8, rest, rest - 8, rest + 8, rest - 4, rest + 4, -24, -80, -88, c / 2, -(c / 2)])) as u32 as u64 }
            K::Off | K::Item => {
                let c = if self.cells.is_empty() { 0 } else { *self.r.pick(&self.cells.clone()) as u64 };
                let kk = if self.keys.is_empty() { c } else { *self.r.pick(&self.keys.clone()) as u64 };
                *self.r.pick(&[0, 1, 4, 32, n, n - 1, n - 3, n - 4, n - 5, n - 8, n + 4, 0xffff_ffff, 0xffff_fffe, 0xffff_fffc, 0xffff_fff8, 0xffff_f000, 0x7fff_ffff, 0x8000_0000, cur + 4, cur.wrapping_sub(4), cur + 8, cur.wrapping_sub(8), cur + 1, c, c, c, c + 4, kk, kk, kk]) }
            K::Cnt16 | K::Cnt32 | K::Len16 => *self.r.pick(&[0, 1, 2, 3, 4, 5, 8, 9, 0xff, 0xfffe, 0xffff, 0x7fff, 0x8000, cur + 1, cur.wrapping_sub(1), cur + 2, cur * 2, cur + 3, cur + 4, cur + 8, 0x3fff_ffff, 0x4000_0000, 0x4000_0001, 0xffff_ffff, 0x8000_0000]),
            K::DSize => *self.r.pick(&[0, 1, 2, 3, 4, 5, 8, 9, 16343, 16344, 16345, 32688, 32689, 0x7fff_ffff, 0xffff_ffff, 0x8000_0000, 0x8000_0001, 0x8000_0003, 0x8000_0004, 0x8000_0005, 0x8000_0008, cur + 1, cur.wrapping_sub(1), cur + 4, cur + 8, cur ^ 0x8000_0000, cur | 0x4000_0000, cur * 2, cur + 2]),
            K::Flags => *self.r.pick(&[0, 1, 0x20, 0x21, 0xffff, cur ^ 1, cur ^ 0x20, cur ^ 0x40, 0xffdf, 0xfffe, 2]),
            K::Sig => { let s: &[u8; 2] = *self.r.pick(&[b"nk", b"vk", b"lf", b"lh", b"li", b"ri", b"db", b"sk", b"LF", b"kn", b"xx", b"rl", b"l\0", b"vi", b"nf"]); s[0] as u64 | (s[1] as u64) << 8 }
            K::Type => *self.r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 0xffff_ffff, 0x100, 0x10004, 0x8000_0004]),
            K::Text => self.r.below(256),
            K::Vol => *self.r.pick(&[0, 1, 2, 0xffff_ffff]),
        }
    }
    pub fn damage(&mut self) {
        if self.f.is_empty() { return; }
        let n = self.f.len();
        // prefer some kinds so that the rarer ones are hit
        let kinds = [K::CellSize, K::Off, K::Cnt16, K::Cnt32, K::Len16, K::DSize, K::Flags, K::Sig, K::Type, K::Item];
        let want = *self.r.pick(&kinds);
        let c: Vec<usize> = (0..n).filter(|&i| self.f[i].2 == want).collect();
        let i = if c.is_empty() { self.r.usize(n) } else { *self.r.pick(&c) };
        let (at, w, k) = self.f[i];
        let v = self.interesting(at, w, k);
        for j in 0..w { self.d[at + j] = (v >> (8 * j)) as u8; }
    }
}
pub fn base_block(d: &[u8], root: u32, minor: u32, size: u32) -> Vec<u8> {
    let mut b = vec![0u8; 4096];
    b[0..4].copy_from_slice(b"regf");
    b[4] = 7; b[8] = 7;
    b[20..24].copy_from_slice(&1u32.to_le_bytes());
    b[24..28].copy_from_slice(&minor.to_le_bytes());
    b[32..36].copy_from_slice(&1u32.to_le_bytes());
    b[36..40].copy_from_slice(&root.to_le_bytes());
    b[40..44].copy_from_slice(&size.to_le_bytes());
    b[44..48].copy_from_slice(&1u32.to_le_bytes());
    checksum(&mut b);
    b.extend_from_slice(d);
    b
}
pub fn checksum(b: &mut [u8]) {
    let mut c = 0u32;
    for i in 0..127 { c ^= u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]); }
    if c == 0 { c = 1 } else if c == u32::MAX { c -= 1 }
    b[508..512].copy_from_slice(&c.to_le_bytes());
}
pub fn hive(r: &mut Rng, o: &Opt) -> Vec<u8> {
    let minor = if r.chance(o.minor_low, 100) { *r.pick(&[3, 0, 2]) } else { *r.pick(&[4, 5, 6, 5, 5, 7, u32::MAX]) };
    let tight = o.tight && r.chance(1, 2);
    let mut o = o.clone();
    o.tight = tight;
    let nm = (true, b"root".to_vec());
    let depth = if o.deep { 1 + r.usize(4) } else { 1 + r.usize(2) };
    let chain = if o.deep && r.chance(1, 12) { dlen(r, 200).unwrap_or_else(|| 3 + r.usize(60)) } else { 0 };
    let (dmg, odmg) = (r.chance(o.damage, 100), 1 + r.usize(3));
    let trunc = dmg && r.chance(1, 6);
    let mut g = G::new(r, o.clone());
    let mut root = g.key(&nm, depth, minor);
    for i in 0..chain { root = g.above(root, i); }
    if dmg { for _ in 0..odmg { g.damage(); } }
    if !tight && !trunc { let n = (g.d.len() + 4095) / 4096 * 4096; if g.r.chance(1, 2) { g.d.resize(n, 0); } }
    if trunc {
        let n = g.d.len();
        let c = g.cells.clone();
        let t = match g.r.below(3) { 0 => n - g.r.usize(n.min(100)), 1 => { let x = *g.r.pick(&c) as usize; x + g.r.usize(100) } _ => { let x = *g.r.pick(&c) as usize; x + 4 } };
        g.d.truncate(t.max(0));
    }
    let rt = if dmg && g.r.chance(1, 25) { g.f.truncate(0); let n = g.d.len() as u32; *g.r.pick(&[0, 1, 4, n, n.wrapping_sub(4), n.wrapping_sub(1), u32::MAX, u32::MAX - 3, root + 4, root ^ 8]) } else { root };
    let d = std::mem::take(&mut g.d);
    base_block(&d, rt, minor, (d.len() / 4096 * 4096) as u32)
}
/// damage to the base block
pub fn header(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 4096, 8192, 4095, 4097, 100]);
    let size = *r.pick(&[0u32, 4096, 8192, 1, 4095, 12288, 0xffff_f000, 0x8000_0000, 0xffff_ffff, 2048, 512]);
    let size = if r.chance(1, 2) { (n / 4096 * 4096) as u32 } else { size };
    let mut b = base_block(&vec![0; n], 32, *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 5, 5, 3, 0x103, u32::MAX]), size);
    if r.chance(1, 4) { for _ in 0..r.usize(20) { let p = r.usize(508); if p >= 48 && p < 508 || p >= 12 && p < 20 { b[p] = r.next() as u8; } } }
    let k = if r.chance(1, 3) { 0 } else { 1 + r.usize(2) };
    for _ in 0..k {
        let f = *r.pick(&[(0usize, 4usize), (4, 4), (8, 4), (20, 4), (24, 4), (28, 4), (32, 4), (36, 4), (40, 4), (44, 4), (504, 4), (496, 8), (48, 64)]);
        let p = f.0 + r.usize(f.1);
        if let Some(v) = dint(r) { let q = (p / 4 * 4).min(504); b[q..q + 4].copy_from_slice(&(v as u32).to_le_bytes()); continue; }
        b[p] = match r.below(5) { 0 => b[p] ^ (1 << r.below(8)), 1 => b[p].wrapping_add(1), 2 => 0, 3 => 2, _ => r.next() as u8 };
    }
    checksum(&mut b);
    match r.below(8) {
        0 => { let p = 508 + r.usize(4); b[p] ^= 1 << r.below(8); }
        1 => { // make the plain checksum exactly 0 or all ones (or close to it)
            let t = *r.pick(&[0u32, u32::MAX, 1, u32::MAX - 1, 2]);
            for i in 0..4 { b[504 + i] = 0; }
            let mut c = 0u32;
            for i in 0..127 { c ^= u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]); }
            for (i, x) in (c ^ t).to_le_bytes().iter().enumerate() { b[504 + i] = *x; }
            let s = *r.pick(&[t, 0, 1, u32::MAX, u32::MAX - 1, 2]);
            b[508..512].copy_from_slice(&s.to_le_bytes());
            if r.chance(1, 2) { checksum(&mut b); }
        }
        2 => { let p = r.usize(4096); b[p] ^= 1 << r.below(8); }
        _ => {}
    }
    if r.chance(1, 30) { let l = r.usize(b.len() + 1); b.truncate(l); }
    if r.chance(1, 60) { b.truncate(*r.pick(&[4095, 4096, 0, 508, 512])); }
    b
}

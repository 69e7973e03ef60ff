//! Runs every operation of the public API on one hive and compares what it returns with the reference reader.
//! Every discrepancy carries the properties it contradicts.
use crate::gen::Rng;
use crate::refm::{self, cmp_units, name_units, DataRef, Entries, Er, Img, Rg, R};
use nt_hive::*;
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Kn<'h, 'a> = KeyNode<'h, &'a [u8]>;
type Kv<'h, 'a> = KeyValue<'h, &'a [u8]>;
pub type Want<'w> = &'w BTreeSet<&'static str>;

pub fn conv(e: &NtHiveError) -> Er {
    use NtHiveError::*;
    let n = |a: &usize, b: &usize| format!("{a} {b}");
    let m = |a: &u32, b: &u32| format!("{a} {b}");
    let (v, off, d): (&'static str, Option<u64>, String) = match e {
        InvalidChecksum { expected, actual } => ("InvalidChecksum", None, m(expected, actual)),
        InvalidDataSize { offset, expected, actual } => ("InvalidDataSize", Some(*offset as u64), n(expected, actual)),
        InvalidFourByteSignature { offset, expected, actual } => ("InvalidFourByteSignature", Some(*offset as u64), format!("{:x?} {:x?}", expected, actual)),
        InvalidHeaderSize { offset, expected, actual } => ("InvalidHeaderSize", Some(*offset as u64), n(expected, actual)),
        InvalidKeyValueDataType { expected, actual } => ("InvalidKeyValueDataType", None, format!("{:?} {:?}", expected, actual)),
        InvalidSizeField { offset, expected, actual } => ("InvalidSizeField", Some(*offset as u64), n(expected, actual)),
        InvalidSizeFieldAlignment { offset, size, expected_alignment } => ("InvalidSizeFieldAlignment", Some(*offset as u64), n(size, expected_alignment)),
        InvalidTwoByteSignature { offset, expected, actual } => ("InvalidTwoByteSignature", Some(*offset as u64), format!("{:x?} {:x?}", expected, actual)),
        SequenceNumberMismatch { primary, secondary } => ("SequenceNumberMismatch", None, m(primary, secondary)),
        UnallocatedCell { offset, size } => ("UnallocatedCell", Some(*offset as u64), size.to_string()),
        UnsupportedClusteringFactor { expected, actual } => ("UnsupportedClusteringFactor", None, m(expected, actual)),
        UnsupportedFileFormat { expected, actual } => ("UnsupportedFileFormat", None, m(expected, actual)),
        UnsupportedFileType { expected, actual } => ("UnsupportedFileType", None, m(expected, actual)),
        UnsupportedKeyValueDataType { offset, actual } => ("UnsupportedKeyValueDataType", Some(*offset as u64), actual.to_string()),
        UnsupportedVersion { major, minor } => ("UnsupportedVersion", None, m(major, minor)),
        #[allow(unreachable_patterns)]
        _ => ("Other", None, String::new()),
    };
    Er { v, off, d }
}
/// the properties two different errors contradict
fn ediff(a: &Er, b: &Er) -> &'static [&'static str] {
    match (a.off != b.off, a.v != b.v || a.d != b.d) { (true, true) => &["C14", "C17"], (true, false) => &["C14"], (false, true) => &["C17"], _ => &[] }
}
pub struct X<'w> { pub want: Want<'w>, pub out: Vec<(&'static str, String)>, pub ops: u64 }
impl<'w> X<'w> {
    pub fn new(want: Want<'w>) -> Self { X { want, out: vec![], ops: 0 } }
    fn on(&self, p: &[&'static str]) -> bool { p.iter().any(|x| self.want.contains(x)) }
    fn rep(&mut self, props: &[&'static str], msg: impl FnOnce() -> String) {
        let p: Vec<&'static str> = props.iter().copied().filter(|x| self.want.contains(x)).collect();
        if p.is_empty() || self.out.len() > 20 { return; }
        let m = msg();
        for x in p { self.out.push((x, m.clone())); }
    }
    fn call<T>(&mut self, props: &[&'static str], what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        self.ops += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(_) => {
                let w = crate::last_panic();
                let mut p = props.to_vec();
                p.push("C01");
                self.rep(&p, || format!("{} panicked: {}", what(), w));
                None
            }
        }
    }
    /// both Ok: true
    fn res<T, U>(&mut self, props: &[&'static str], what: &dyn Fn() -> String, real: &Result<T, NtHiveError>, want: &R<U>) -> bool {
        match (real, want) {
            (Ok(_), Ok(_)) => true,
            (Err(e), Err(w)) => {
                let c = conv(e);
                if c != *w { self.rep(ediff(&c, w), || format!("{}: error {:?}, expected {:?}", what(), c, w)); }
                false
            }
            (Ok(_), Err(w)) => { self.rep(props, || format!("{}: succeeded, expected error {:?}", what(), w)); false }
            (Err(e), Ok(_)) => { let c = conv(e); self.rep(props, || format!("{}: failed with {:?}, expected success", what(), c)); false }
        }
    }
    fn opt<T, U>(&mut self, props: &[&'static str], what: &dyn Fn() -> String, real: &Option<Result<T, NtHiveError>>, want: &Option<R<U>>) -> bool {
        match (real, want) {
            (None, None) => false,
            (Some(r), Some(w)) => self.res(props, what, r, w),
            (r, w) => { let (r, w) = (r.is_some(), w.is_some()); self.rep(props, || format!("{}: present {} expected {}", what(), r, w)); false }
        }
    }
}
fn raw<'s>(n: &NtHiveNameString<'s>) -> (bool, &'s [u8]) { match n { NtHiveNameString::Latin1(b) => (true, b), NtHiveNameString::Utf16LE(b) => (false, b) } }
pub struct Ctx<'c, 'a> { pub im: &'c Img<'a>, pub base: u64 }
impl<'c, 'a> Ctx<'c, 'a> {
    fn rg(&self, s: &[u8]) -> Rg { let p = (s.as_ptr() as u64).wrapping_sub(self.base).wrapping_sub(4096); (p, p.wrapping_add(s.len() as u64)) }
    fn key_id(&self, k: &Kn<'_, 'a>) -> u64 {
        match k.name() { Ok(n) => self.rg(raw(&n).1).0.wrapping_sub(76), Err(e) => conv(&e).off.unwrap_or(0).wrapping_sub(4096 + 72) }
    }
    fn val_id(&self, k: &Kv<'_, 'a>) -> u64 {
        match k.name() { Ok(n) => self.rg(raw(&n).1).0.wrapping_sub(20), Err(e) => conv(&e).off.unwrap_or(0).wrapping_sub(4096 + 2) }
    }
    fn kid(&self, r: &Result<Kn<'_, 'a>, NtHiveError>) -> Result<u64, Er> { match r { Ok(k) => Ok(self.key_id(k)), Err(e) => Err(conv(e)) } }
    fn vid(&self, r: &Result<Kv<'_, 'a>, NtHiveError>) -> Result<u64, Er> { match r { Ok(k) => Ok(self.val_id(k)), Err(e) => Err(conv(e)) } }
    fn sid(&self, r: &Result<&[u8], NtHiveError>) -> Result<Rg, Er> { match r { Ok(k) => Ok(self.rg(k)), Err(e) => Err(conv(e)) } }
}

const LIMIT: usize = 70_100;
const MAXK: usize = 40;

pub fn hive(x: &mut X, b: &[u8], pseed: u64) {
    let mut r = Rng::new(pseed);
    let opened = x.call(&["C02"], &|| "Hive::without_validation".into(), || Hive::without_validation(b));
    let h = match opened {
        Some(Ok(h)) => { if b.len() < 4096 { x.rep(&["C02"], || "without_validation accepted a truncated base block".into()); return; } h }
        Some(Err(e)) => {
            if b.len() >= 4096 { x.rep(&["C02"], || format!("without_validation failed: {:?}", e)); }
            let c = conv(&e);
            let w = refm::header_error(b).unwrap();
            if c.v != w.v { x.rep(&["C02"], || format!("without_validation: {:?}", c)); }
            x.rep(ediff(&c, &w), || format!("without_validation: {:?}, expected {:?}", c, w));
            return;
        }
        None => return,
    };
    if b.len() < 4096 { return; }
    let im = Img::new(b);
    let c = Ctx { im: &im, base: b.as_ptr() as u64 };
    if x.on(&["C01"]) { x.call(&[], &|| "Hive::new".into(), || { let _ = Hive::new(b); }); }
    let root = match x.call(&["C03"], &|| "root_key_node".into(), || h.root_key_node()) { Some(r) => r, None => return };
    let want = im.root();
    if !x.res(&["C03"], &|| "root_key_node".into(), &root, &want) { return; }
    let root = root.unwrap();
    let rk = want.unwrap();
    let mut queue: Vec<(Kn, Rg, String)> = vec![(root.clone(), rk, "root".into())];
    let mut seen: Vec<u64> = vec![];
    let mut handles: Vec<(Kn, u64)> = vec![(root.clone(), rk.0)];
    let mut vhandles: Vec<(Kv, u64)> = vec![];
    let mut i = 0;
    while i < queue.len() && i < MAXK {
        let (k, rk, path) = queue[i].clone();
        i += 1;
        if x.out.len() > 10 { break; }
        let id = match x.call(&["C15", "C03"], &|| format!("{path}.name()"), || c.key_id(&k)) { Some(i) => i, None => continue };
        if id != rk.0 { x.rep(&["C03", "C15"], || format!("{path}: key is at {:#x}, expected {:#x}", id, rk.0)); continue; }
        if seen.contains(&rk.0) { continue; }
        seen.push(rk.0);
        key_names(x, &c, &k, rk, &path);
        subkeys(x, &c, &k, rk, &path, &mut queue, &mut handles, &mut r);
        if x.on(&["C05", "C06", "C01", "C16", "C14", "C17"]) { lookups(x, &c, &k, rk, &path, &mut r, &mut handles); }
        if x.on(&["C01", "C03", "C08", "C09", "C10", "C11", "C12", "C14", "C17", "C15", "C16"]) { values(x, &c, &k, rk, &path, &mut r, &mut vhandles); }
    }
    if x.on(&["C16"]) { equality(x, b, &handles, &vhandles, &mut r); }
    if x.on(&["C13", "C01"]) { clear(x, b, &im); }
}
fn name_checks(x: &mut X, c: &Ctx, what: &str, real: &Result<NtHiveNameString, NtHiveError>, want: &R<(bool, Rg)>) {
    if !x.res(&["C03", "C15"], &|| what.into(), real, want) { return; }
    let n = real.as_ref().unwrap();
    let (lat, rg) = *want.as_ref().unwrap();
    let (rl, rb) = raw(n);
    let at = c.rg(rb);
    if at != rg { x.rep(&["C03", "C15"], || format!("{what}: bytes {:x?}, expected {:x?}", at, rg)); return; }
    if rl != lat { x.rep(&["C15"], || format!("{what}: latin1 is {rl}, expected {lat}")); return; }
    if x.on(&["C15", "C01"]) { text(x, what, n, lat, rb); }
}
pub fn text(x: &mut X, what: &str, n: &NtHiveNameString, lat: bool, b: &[u8]) {
    let u = name_units(lat, b);
    let lossy: String = if lat { b.iter().map(|&x| char::from_u32(x as u32).unwrap()).collect() } else { refm::decode(&u) };
    let chk = if lat { Some(lossy.clone()) } else { refm::decode_checked(&u) };
    if let Some(s) = x.call(&["C15"], &|| format!("{what}.to_string_lossy"), || n.to_string_lossy()) { if s != lossy { x.rep(&["C15"], || format!("{what}: to_string_lossy {:?}, expected {:?}", s, lossy)); } }
    if let Some(s) = x.call(&["C15"], &|| format!("{what}.to_string_checked"), || n.to_string_checked()) { if s != chk { x.rep(&["C15"], || format!("{what}: to_string_checked {:?}, expected {:?}", s, chk)); } }
    if let Some(s) = x.call(&["C15"], &|| format!("{what} Display"), || (format!("{}", n), format!("{:6}|{:.1}|{:>9.2}", n, n, n))) {
        if s.0 != lossy { x.rep(&["C15"], || format!("{what}: displays as {:?}, expected {:?}", s.0, lossy)); }
        let padded = format!("{0}|{0}|{0}", lossy);
        if s.1 != padded { x.rep(&["C15"], || format!("{what}: displays with a width as {:?}, expected {:?}", s.1, padded)); }
    }
    if let Some(s) = x.call(&["C15"], &|| format!("{what}.len"), || (n.len(), n.is_empty())) { if s != (b.len(), b.is_empty()) { x.rep(&["C15"], || format!("{what}: len/is_empty {:?}, stored {}", s, b.len())); } }
}
fn key_names(x: &mut X, c: &Ctx, k: &Kn, rk: Rg, path: &str) {
    if !x.on(&["C01", "C03", "C14", "C17", "C15"]) { return; }
    if let Some(n) = x.call(&["C15"], &|| format!("{path}.name()"), || k.name()) { name_checks(x, c, &format!("{path}.name()"), &n, &c.im.key_name(rk)); }
    let want = c.im.class(rk);
    if let Some(n) = x.call(&["C15"], &|| format!("{path}.class_name()"), || k.class_name()) {
        let what = format!("{path}.class_name()");
        match (&n, &want) {
            (None, None) => (),
            (Some(n), Some(w)) => name_checks(x, c, &what, n, &w.clone().map(|r| (false, r))),
            _ => x.rep(&["C15"], || format!("{what}: present {}, expected {}", n.is_some(), want.is_some())),
        }
    }
}
fn subkeys<'h, 'a>(x: &mut X, c: &Ctx<'_, 'a>, k: &Kn<'h, 'a>, rk: Rg, path: &str, queue: &mut Vec<(Kn<'h, 'a>, Rg, String)>, handles: &mut Vec<(Kn<'h, 'a>, u64)>, r: &mut Rng) {
    let what = format!("{path}.subkeys()");
    let want = c.im.subkeys(rk);
    let real = match x.call(&["C04", "C03"], &|| what.clone(), || k.subkeys()) { Some(r) => r, None => return };
    if !x.opt(&["C04", "C03"], &|| what.clone(), &real, &want) { return; }
    let it = real.unwrap().unwrap();
    let want = want.unwrap().unwrap().flat();
    let got = match x.call(&["C04", "C03"], &|| format!("{what} iteration"), || { let mut v = vec![]; for s in it.clone() { v.push(s); if v.len() > LIMIT { break; } } v }) { Some(g) => g, None => return };
    if got.len() > want.len() + 1000 { x.rep(&["C01"], || format!("{what}: iteration does not end")); }
    if got.len() != want.len() { x.rep(&["C04"], || format!("{what}: {} items, expected {}", got.len(), want.len())); }
    for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        let w2 = || format!("{what}[{i}]");
        let g2 = c.kid(g);
        if x.res(&["C04", "C03"], &w2, g, w) {
            let wk = w.clone().unwrap();
            let id = g2.unwrap();
            if id != wk.0 { x.rep(&["C04", "C03"], || format!("{}: key at {:#x}, expected {:#x}", w2(), id, wk.0)); }
            else if queue.len() < MAXK * 2 {
                queue.push((g.as_ref().unwrap().clone(), wk, format!("{path}[{i}]")));
                if handles.len() < 60 { handles.push((g.as_ref().unwrap().clone(), wk.0)); }
            }
        }
        if i > 3000 && i % 64 != 0 { continue; }
    }
    if x.on(&["C12", "C01"]) {
        let n = want.len();
        iter(x, &what, &it, |q| c.kid(q), None::<&dyn Fn(&_) -> usize>, n, r);
        match &it {
            SubKeyNodes::IndexRoot(i) => iter(x, &format!("{what} IndexRootKeyNodes"), i, |q| c.kid(q), None::<&dyn Fn(&_) -> usize>, n, r),
            SubKeyNodes::Leaf(i) => iter(x, &format!("{what} LeafKeyNodes"), i, |q| c.kid(q), Some(&|i: &LeafKeyNodes<_>| i.len()), n, r),
        }
    }
}
fn iter<I, T: PartialEq + Debug + Clone>(x: &mut X, what: &str, it: &I, id: impl Fn(&I::Item) -> T, len: Option<&dyn Fn(&I) -> usize>, approx: usize, r: &mut Rng) where I: Iterator + Clone {
    let props = &["C12"];
    let w = || what.to_string();
    let items: Vec<T> = match x.call(props, &w, || { let mut v = vec![]; let mut i = it.clone(); while let Some(y) = i.next() { v.push(id(&y)); if v.len() > LIMIT { break; } } for _ in 0..3 { if i.next().is_some() { return Err(v); } } Ok(v) }) {
        Some(Ok(v)) => v,
        Some(Err(_)) => { x.rep(&["C12", "C11"], || format!("{what}: yields an item after its end")); return; }
        None => return,
    };
    let _ = approx;
    let n = items.len();
    let rounds = if n > 200 { 3 } else { 6 };
    for round in 0..rounds {
        let mut cur = it.clone();
        let mut pos = 0usize;
        let mut ended = false;
        let mut hist = String::new();
        for step in 0..8 {
            let rem = n - pos;
            // shortcuts in this state
            let hint = match x.call(props, &w, || cur.size_hint()) { Some(h) => h, None => return };
            if hint.0 > rem || hint.1.map_or(false, |h| h < rem) { x.rep(props, || format!("{what} after [{hist}]: size_hint {:?}, {} items remain", hint, rem)); return; }
            if let Some(l) = len {
                if hint != (rem, Some(rem)) { x.rep(props, || format!("{what} after [{hist}]: size_hint {:?}, exactly {} items remain", hint, rem)); return; }
                match x.call(props, &|| format!("{what}.len() after [{hist}]"), || l(&cur)) { Some(v) => if v != rem { x.rep(props, || format!("{what} after [{hist}]: len {}, {} items remain", v, rem)); return; }, None => return }
            }
            match x.call(props, &|| format!("{what}.count() after [{hist}]"), || cur.clone().count()) { Some(v) => if v != rem { x.rep(props, || format!("{what} after [{hist}]: count {}, {} items remain", v, rem)); return; }, None => return }
            match x.call(props, &|| format!("{what}.last() after [{hist}]"), || cur.clone().last().map(|y| id(&y))) {
                Some(v) => { let e = if rem > 0 { Some(items[n - 1].clone()) } else { None }; if v != e { x.rep(props, || format!("{what} after [{hist}]: last {:?}, expected {:?}", v, e)); return; } }
                None => return,
            }
            // what the other consuming methods see
            let lim = rem.min(2000);
            let want = &items[pos..pos + lim];
            let how = r.usize(8);
            let seen: Vec<T> = match x.call(props, &|| format!("{what} ({how}) after [{hist}]"), || {
                let c = cur.clone();
                let mut v: Vec<T> = vec![];
                match how {
                    0 => c.fold((), |_, y| if v.len() < lim { v.push(id(&y)) }),
                    1 => c.for_each(|y| if v.len() < lim { v.push(id(&y)) }),
                    2 => { let mut c = c; c.find(|y| { if v.len() < lim { v.push(id(y)) } v.len() >= lim }); }
                    3 => { let mut c = c; c.position(|y| { if v.len() < lim { v.push(id(&y)) } v.len() >= lim }); }
                    4 => { let mut c = c; c.any(|y| { if v.len() < lim { v.push(id(&y)) } v.len() >= lim }); }
                    5 => { let mut c = c; c.all(|y| { if v.len() < lim { v.push(id(&y)) } v.len() < lim }); }
                    6 => for y in c.take(lim) { v.push(id(&y)) },
                    _ => v = c.map(|y| id(&y)).take(lim).collect(),
                }
                v
            }) { Some(v) => v, None => return };
            if seen != want { let i = seen.iter().zip(want).position(|(a, b)| a != b).unwrap_or(seen.len().min(want.len())); x.rep(props, || format!("{what} after [{hist}], consumed in way {how}: item {i} is {:?}, expected {:?}", seen.get(i), want.get(i))); return; }
            let k = if round == 0 || r.chance(1, 3) { None } else {
                let pow = 1usize << r.usize(64);
                if let Some(v) = crate::gen::dint(r) { Some(v as usize) } else if n > 20 && r.chance(1, 2) { Some(r.usize(n)) } else { Some(*r.pick(&[0, 0, 1, 2, rem.wrapping_sub(1).min(usize::MAX / 2), rem, rem + 1, rem / 2, rem / 3, usize::MAX, usize::MAX / 2, usize::MAX / 4, usize::MAX / 4 + 1, usize::MAX / 8 + 1, pow, pow - 1, pow + rem.min(3), usize::MAX / 16344, usize::MAX / 16344 + 1])) }
            };
            let got = match x.call(props, &|| format!("{what}: {:?} after [{hist}]", k), || { match k { None => cur.next(), Some(k) => cur.nth(k) }.map(|y| id(&y)) }) { Some(g) => g, None => return };
            let sk = k.unwrap_or(0);
            let e = if sk < rem { Some(items[pos + sk].clone()) } else { None };
            hist += &match k { None => "next ".to_string(), Some(k) => format!("nth({k}) ") };
            if got != e { x.rep(props, || format!("{what} after [{hist}]: {:?}, expected {:?}", got, e)); return; }
            if sk < rem { pos += sk + 1 } else {
                pos = n;
                if ended { break; }
                ended = true;
            }
            let _ = step;
        }
    }
}
fn swap_case(s: &str, r: &mut Rng) -> String {
    s.chars().map(|c| match r.below(3) { 0 => c, 1 => { let mut u = c.to_uppercase(); if u.len() == 1 { u.next().unwrap() } else { c } } _ => { let mut u = c.to_lowercase(); if u.len() == 1 { u.next().unwrap() } else { c } } }).collect()
}
fn wanted_names(names: &[(bool, Vec<u8>)], r: &mut Rng, cap: usize) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for _ in 0..cap {
        if !names.is_empty() && r.chance(3, 4) {
            let n = r.pick(names);
            let u = name_units(n.0, &n.1);
            let mut s = refm::decode(&u);
            match r.below(6) { 0 => s.push('a'), 1 => { s.pop(); } 2 | 3 => s = swap_case(&s, r), _ => () }
            o.push(s);
        } else {
            let n = crate::gen::name(r);
            o.push(refm::decode(&name_units(n.0, &n.1)));
        }
    }
    o
}
fn lookups<'h, 'a>(x: &mut X, c: &Ctx<'_, 'a>, k: &Kn<'h, 'a>, rk: Rg, path: &str, r: &mut Rng, handles: &mut Vec<(Kn<'h, 'a>, u64)>) {
    let sk = c.im.subkeys(rk);
    let mut names: Vec<(bool, Vec<u8>)> = vec![];
    let mut ids: Vec<(u64, Vec<u16>)> = vec![];
    let mut readable = true;
    let mut errs: Vec<Er> = vec![];
    if let Some(s) = &sk {
        match s {
            Err(e) => { errs.push(e.clone()); readable = false; }
            Ok(es) => {
                if let Entries::Root(l) = es { if l.iter().any(|q| q.is_err()) { readable = false; } }
                for e in es.flat() {
                    match e {
                        Err(e) => { readable = false; errs.push(e); }
                        Ok(s) => match c.im.key_name(s) {
                            Err(e) => { readable = false; errs.push(e); }
                            Ok((l, rg)) => { let b = c.im.bytes(rg); ids.push((s.0, name_units(l, b).iter().map(|&x| refm::up(x)).collect())); if names.len() < 3000 { names.push((l, b.to_vec())); } else { let i = r.usize(ids.len()); if i < 3000 { names[i] = (l, b.to_vec()); } } }
                        },
                    }
                }
            }
        }
    }
    let sorted = ids.windows(2).all(|w| w[0].1 <= w[1].1);
    let wn = wanted_names(&names, r, if names.is_empty() { 2 } else if ids.len() > 1000 { 60 } else { 10 });
    for n in &wn {
        let what = || format!("{path}.subkey({n:?})");
        let got = match x.call(&["C05"], &what, || k.subkey(n)) { Some(g) => g, None => return };
        let u: Vec<u16> = n.encode_utf16().map(refm::up).collect();
        let some = ids.iter().any(|(_, m)| *m == u);
        match &got {
            Some(Ok(q)) => {
                let id = c.key_id(q);
                if !ids.iter().any(|(i, m)| *i == id && *m == u) { x.rep(&["C05"], || format!("{}: returned the key at {:#x}, which is not an entry of that name", what(), id)); }
                else if handles.len() < 80 { handles.push((q.clone(), id)); }
            }
            Some(Err(e)) => {
                let e = conv(e);
                if sk.is_none() || readable && sorted { x.rep(&["C05"], || format!("{}: {:?} although all entries are readable", what(), e)); }
                else if !errs.contains(&e) { x.rep(if errs.iter().any(|w| w.off == e.off) { &["C17"] } else { &["C14"] }, || format!("{}: {:?} is not the error of any entry ({:?})", what(), e, &errs[..errs.len().min(4)])); }
            }
            None => if readable && sorted && some { x.rep(&["C05"], || format!("{}: absent, but an entry has that name", what())); },
        }
        if let Some(Err(w)) = &sk { if !matches!(got, Some(Err(_))) { x.rep(&["C05"], || format!("{}: expected {:?}", what(), w)); } }
    }
    if x.on(&["C06", "C01"]) {
        let mut paths: Vec<String> = vec!["".into(), "\\".into(), "\\\\".into()];
        for _ in 0..5 {
            // walk down
            let mut p = String::new();
            let mut at = Some(rk);
            let lead = r.usize(3);
            p.push_str(&"\\".repeat(lead));
            for d in 0..1 + r.usize(4) {
                if d > 0 { p.push_str(&"\\".repeat(1 + r.usize(2))); }
                let names: Vec<((bool, Vec<u8>), Rg)> = match at.and_then(|a| c.im.subkeys(a)) { Some(Ok(e)) => e.flat().into_iter().take(40).filter_map(|e| e.ok()).filter_map(|s| c.im.key_name(s).ok().map(|(l, g)| ((l, c.im.bytes(g).to_vec()), s))).collect(), _ => vec![] };
                if names.is_empty() || r.chance(1, 6) { p.push_str(*r.pick(&["zzz", "a", "key", "x y"])); at = None; }
                else { let (n, s) = r.pick(&names); p.push_str(&refm::decode(&name_units(n.0, &n.1))); at = Some(*s); }
            }
            p.push_str(&"\\".repeat(r.usize(3)));
            paths.push(p);
        }
        if let Some(n) = wn.first() { paths.push(n.clone()); }
        for p in &paths {
            let what = || format!("{path}.subpath({p:?})");
            let got = match x.call(&["C06"], &what, || k.subpath(p)) { Some(g) => g, None => return };
            let want = match x.call(&["C05"], &what, || {
                let mut cur = k.clone();
                for comp in p.split('\\').filter(|q| !q.is_empty()) { match cur.subkey(comp) { None => return None, Some(Err(e)) => return Some(Err(e)), Some(Ok(n)) => cur = n } }
                Some(Ok(cur))
            }) { Some(w) => w, None => return };
            let (a, b) = (got.as_ref().map(|q| c.kid(q)), want.as_ref().map(|q| c.kid(q)));
            if a != b { x.rep(&["C06"], || format!("{}: {:?}, component by component: {:?}", what(), a, b)); }
            if let (Some(Ok(q)), Some(Ok(_))) = (&got, &want) { if handles.len() < 90 { handles.push((q.clone(), c.key_id(q))); } }
        }
    }
}
fn values<'h, 'a>(x: &mut X, c: &Ctx<'_, 'a>, k: &Kn<'h, 'a>, rk: Rg, path: &str, r: &mut Rng, vh: &mut Vec<(Kv<'h, 'a>, u64)>) {
    let what = format!("{path}.values()");
    let want = c.im.values(rk);
    let real = match x.call(&["C08", "C03"], &|| what.clone(), || k.values()) { Some(r) => r, None => return };
    let go = x.opt(&["C08", "C03"], &|| what.clone(), &real, &want);
    let mut list: Vec<R<Rg>> = vec![];
    if go {
        let it = real.unwrap().unwrap();
        list = want.clone().unwrap().unwrap();
        let got = match x.call(&["C08", "C03"], &|| format!("{what} iteration"), || { let mut v = vec![]; for s in it.clone() { v.push(s); if v.len() > LIMIT { break; } } v }) { Some(g) => g, None => return };
        if got.len() > list.len() + 1000 { x.rep(&["C01"], || format!("{what}: iteration does not end")); }
        if got.len() != list.len() { x.rep(&["C08"], || format!("{what}: {} items, expected {}", got.len(), list.len())); }
        for (i, (g, w)) in got.iter().zip(list.iter()).enumerate() {
            let w2 = || format!("{what}[{i}]");
            let g2 = match x.call(&["C15"], &|| format!("{}.name()", w2()), || c.vid(g)) { Some(g) => g, None => continue };
            if x.res(&["C08", "C03"], &w2, g, w) {
                let wv = w.clone().unwrap();
                let id = g2.unwrap();
                if id != wv.0 { x.rep(&["C08", "C03", "C15"], || format!("{}: value at {:#x}, expected {:#x}", w2(), id, wv.0)); continue; }
                let v = g.as_ref().unwrap();
                if vh.len() < 40 { vh.push((v.clone(), wv.0)); }
                if i < 200 || i % 512 == 0 { value(x, c, v, wv, &w2(), r); }
            }
        }
        if x.on(&["C12", "C01"]) { iter(x, &what, &it, |q| c.vid(q), Some(&|i: &KeyValues<_>| i.len()), list.len(), r); }
    }
    if !x.on(&["C08", "C01", "C16", "C14", "C17"]) { return; }
    let names: Vec<(bool, Vec<u8>)> = list.iter().take(500).filter_map(|v| v.as_ref().ok()).filter_map(|v| c.im.value_name(*v).ok()).map(|(l, g)| (l, c.im.bytes(g).to_vec())).collect();
    for n in wanted_names(&names, r, if names.is_empty() { 2 } else { 8 }) {
        let what = || format!("{path}.value({n:?})");
        let got = match x.call(&["C08"], &what, || k.value(&n)) { Some(g) => g, None => return };
        let u: Vec<u16> = n.encode_utf16().collect();
        let want: Option<R<Rg>> = match &want {
            None => None,
            Some(Err(e)) => Some(Err(e.clone())),
            Some(Ok(l)) => {
                let mut w = None;
                for v in l {
                    let nm = v.clone().and_then(|v| c.im.value_name(v));
                    match nm {
                        Err(e) => { w = Some(Err(e)); break; }
                        Ok((lat, g)) => if cmp_units(&name_units(lat, c.im.bytes(g)), &u) == Ordering::Equal { w = Some(v.clone()); break; },
                    }
                }
                w
            }
        };
        if x.opt(&["C08"], &what, &got, &want) {
            let (g, w) = (got.unwrap().unwrap(), want.unwrap().unwrap());
            let id = c.val_id(&g);
            if id != w.0 { x.rep(&["C08"], || format!("{}: value at {:#x}, expected {:#x}", what(), id, w.0)); }
            else if vh.len() < 60 { vh.push((g, w.0)); }
        } else if let (Some(Err(e)), Some(Err(w))) = (&got, &want) { let e = conv(e); if e != *w { x.rep(ediff(&e, w), || format!("{}: {:?}, expected {:?}", what(), e, w)); } }
    }
}
fn value<'h, 'a>(x: &mut X, c: &Ctx<'_, 'a>, v: &Kv<'h, 'a>, rv: Rg, path: &str, r: &mut Rng) {
    let im = c.im;
    if x.on(&["C15", "C03", "C14", "C17", "C01"]) { if let Some(n) = x.call(&["C15"], &|| format!("{path}.name()"), || v.name()) { name_checks(x, c, &format!("{path}.name()"), &n, &im.value_name(rv)); } }
    let want = im.data(rv);
    let what = || format!("{path}.data()");
    if let Some(d) = x.call(&["C09", "C03"], &what, || v.data()) {
        if x.res(&["C09", "C03"], &what, &d, &want) {
            match (d.as_ref().unwrap(), want.as_ref().unwrap()) {
                (KeyValueData::Small(s), DataRef::Small(rg)) => { let at = c.rg(s); if at != *rg && !(s.is_empty() && rg.0 == rg.1) { x.rep(&["C09", "C03"], || format!("{}: bytes {:x?}, expected {:x?}", what(), at, rg)); } }
                (KeyValueData::Big(it), DataRef::Big(_, segs)) => {
                    if let Some(got) = x.call(&["C09"], &what, || it.clone().take(LIMIT).map(|s| c.sid(&s)).collect::<Vec<_>>()) {
                        let gv: Vec<_> = got.iter().map(|g| g.clone().map_err(|_| ())).collect();
                        let wv: Vec<_> = segs.iter().map(|g| g.clone().map_err(|_| ())).collect();
                        if gv != wv { x.rep(&["C09", "C03"], || format!("{}: segments {:x?}, expected {:x?}", what(), got, segs)); }
                        else if let Some((Err(a), Err(b))) = got.iter().zip(segs.iter()).find(|(a, b)| a != b) { x.rep(ediff(a, b), || format!("{}: segments {:x?}, expected {:x?}", what(), got, segs)); }
                    }
                    if x.on(&["C12", "C01"]) { iter(x, &format!("{path} BigDataSlices"), it, |q| c.sid(q), Some(&|i: &BigDataSlices<_>| i.len()), segs.len(), r); }
                }
                // the split into slices is not observable through the bytes: compare those
                (g, _) => { let big = matches!(g, KeyValueData::Big(_)); x.rep(&["C09"], || format!("{}: stored as big data: {big}, expected {}", what(), !big)); }
            }
            let wb = im.data_bytes(rv).unwrap();
            if let Some(got) = x.call(&["C09"], &|| format!("{path}.data().into_vec()"), || d.as_ref().unwrap().clone().into_vec()) {
                let w = match wb { (b, None) => Ok(b), (_, Some(e)) => Err(e) };
                let w3 = || format!("{path}.data().into_vec()");
                if x.res(&["C09"], &w3, &got, &w) && got.as_ref().ok() != w.as_ref().ok() { x.rep(&["C09"], || format!("{}: {} bytes differ from the {} stored ones", w3(), got.unwrap().len(), w.unwrap().len())); }
            }
        }
    }
    if let Some(s) = x.call(&["C09"], &|| format!("{path}.data_size()"), || v.data_size()) { let w = im.data_size(rv); if s != w { x.rep(&["C09"], || format!("{path}.data_size() {s}, expected {w}")); } }
    if x.on(&["C10", "C01", "C14", "C17"]) {
        let wt = im.ty(rv);
        if let Some(t) = x.call(&["C10"], &|| format!("{path}.data_type()"), || v.data_type()) {
            if x.res(&["C10"], &|| format!("{path}.data_type()"), &t, &wt) && t.as_ref().map(|t| *t as u32).ok() != wt.clone().ok() { x.rep(&["C10"], || format!("{path}.data_type() {:?}, stored code {:?}", t, wt)); }
        }
        let w4 = im.int(rv, 4);
        if let Some(t) = x.call(&["C10"], &|| format!("{path}.dword_data()"), || v.dword_data()) { if x.res(&["C10"], &|| format!("{path}.dword_data()"), &t, &w4) && t.clone().ok().map(|t| t as u64) != w4.clone().ok() { x.rep(&["C10"], || format!("{path}.dword_data() {:x?}, expected {:x?}", t, w4)); } }
        let w8 = im.int(rv, 8);
        if let Some(t) = x.call(&["C10"], &|| format!("{path}.qword_data()"), || v.qword_data()) { if x.res(&["C10"], &|| format!("{path}.qword_data()"), &t, &w8) && t.clone().ok() != w8.clone().ok() { x.rep(&["C10"], || format!("{path}.qword_data() {:x?}, expected {:x?}", t, w8)); } }
    }
    if x.on(&["C11", "C01", "C14", "C17", "C12"]) {
        let ws = im.string(rv);
        let what = || format!("{path}.string_data()");
        if let Some(t) = x.call(&["C11"], &what, || v.string_data()) { if x.res(&["C11"], &what, &t, &ws) && t.as_ref().ok() != ws.as_ref().ok() { let (a, b) = (t.unwrap(), ws.unwrap()); x.rep(&["C11"], || format!("{}: {}", what(), diff(&a, &b))); } }
        let wm = im.multi(rv);
        let what = || format!("{path}.multi_string_data()");
        if let Some(t) = x.call(&["C11"], &what, || v.multi_string_data()) {
            if x.res(&["C11"], &what, &t, &wm) {
                let (items, err) = wm.unwrap();
                let t = t.unwrap();
                if let Some(got) = x.call(&["C11"], &what, || { let mut v = vec![]; for q in t.clone() { let stop = q.is_err(); v.push(q); if stop || v.len() > LIMIT { break; } } v }) {
                    let oks: Vec<&String> = got.iter().filter_map(|q| q.as_ref().ok()).collect();
                    if oks.len() > items.len() + 1000 { x.rep(&["C01"], || format!("{}: iteration does not end", what())); }
                    if oks.iter().copied().ne(items.iter()) { x.rep(&["C11"], || format!("{}: {} strings, expected {}; first difference {:?}", what(), oks.len(), items.len(), oks.iter().zip(items.iter()).find(|(a, b)| **a != *b).map(|(a, b)| diff(a, b)))); }
                    else {
                        let ge = got.last().and_then(|q| q.as_ref().err()).map(conv);
                        if ge.is_some() != err.is_some() { x.rep(&["C11"], || format!("{}: ends with {:?}, expected {:?}", what(), ge, err)); }
                        else if ge != err { x.rep(ediff(ge.as_ref().unwrap(), err.as_ref().unwrap()), || format!("{}: ends with {:?}, expected {:?}", what(), ge, err)); }
                    }
                }
                if x.on(&["C12", "C11", "C01"]) { iter(x, &format!("{path} RegMultiSZStrings"), &t, |q| match q { Ok(s) => Ok(s.clone()), Err(e) => Err(conv(e)) }, None::<&dyn Fn(&_) -> usize>, items.len(), r); }
            }
        }
    }
}
fn diff(a: &str, b: &str) -> String {
    let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
    format!("differs from the expected string at character {n} of {} (expected {}): {:?} instead of {:?}", a.chars().count(), b.chars().count(), a.chars().skip(n).take(6).collect::<String>(), b.chars().skip(n).take(6).collect::<String>())
}
fn equality(x: &mut X, b: &[u8], hs: &[(Kn, u64)], vs: &[(Kv, u64)], r: &mut Rng) {
    for (a, ia) in hs {
        for (b2, ib) in hs {
            if let Some(e) = x.call(&["C16"], &|| "key ==".into(), || (a == b2, a != b2)) { if e != (ia == ib, ia != ib) { x.rep(&["C16"], || format!("keys at {ia:#x} and {ib:#x}: ==, != are {e:?}")); } }
        }
    }
    for (a, ia) in vs {
        for (b2, ib) in vs {
            if let Some(e) = x.call(&["C16"], &|| "value ==".into(), || (a == b2, a != b2)) { if e != (ia == ib, ia != ib) { x.rep(&["C16"], || format!("values at {ia:#x} and {ib:#x}: ==, != are {e:?}")); } }
        }
    }
    let copy = b.to_vec();
    for (what, bytes) in [("same buffer", b), ("copied buffer", &copy[..])] {
        let h2 = match Hive::without_validation(bytes) { Ok(h) => h, Err(_) => continue };
        let r2 = match x.call(&["C16"], &|| "root".into(), || h2.root_key_node()) { Some(Ok(k)) => k, _ => continue };
        let mut all: Vec<Kn> = vec![r2.clone()];
        if let Some(Some(Ok(s))) = x.call(&["C16"], &|| "subkeys".into(), || r2.subkeys()) { all.extend(s.take(20).filter_map(|k| k.ok())); }
        for (a, ia) in hs { for k in &all { if let Some(true) = x.call(&["C16"], &|| "key ==".into(), || a == k || k == a || !(a != k)) { x.rep(&["C16"], || format!("key at {ia:#x} equals a key of another hive ({what})")); } } }
        if let Some(Some(Ok(s))) = x.call(&["C16"], &|| "values".into(), || r2.values()) {
            let vv: Vec<Kv> = s.take(20).filter_map(|v| v.ok()).collect();
            for (a, ia) in vs { for v in &vv { if let Some(true) = x.call(&["C16"], &|| "value ==".into(), || a == v || v == a) { x.rep(&["C16"], || format!("value at {ia:#x} equals a value of another hive ({what})")); } } }
        }
    }
    let _ = r;
}
fn clear(x: &mut X, b: &[u8], im: &Img) {
    let re = im.reach(2000);
    if re.cyclic || re.too_big { return; }
    let ov = re.overlap();
    let mut v = b.to_vec();
    let what = || "Hive::clear_volatile_subkeys".to_string();
    let got = match x.call(&["C13"], &what, || { let mut h = Hive::without_validation(&mut v[..]).unwrap(); h.clear_volatile_subkeys() }) { Some(g) => g, None => return };
    if ov { return; }
    let vol: std::collections::HashSet<u64> = re.keys.iter().flat_map(|k| k + 24..k + 28).collect();
    for i in 0..b.len() {
        if v[i] != b[i] && !(i >= 4096 && vol.contains(&(i as u64 - 4096)) && v[i] == 0) { x.rep(&["C13"], || format!("byte {:#x} changed from {:#x} to {:#x}", i, b[i], v[i])); return; }
    }
    match got {
        Ok(()) => { for k in &re.keys { for j in 0..4 { if v[4096 + *k as usize + 24 + j] != 0 { x.rep(&["C13"], || format!("volatile subkey count of the key at {:#x} is not zero", k)); return; } } } }
        Err(e) => if !re.unreadable { x.rep(&["C13"], || format!("failed with {:?}, but everything is readable", e)); },
    }
    for k in &re.keys { let p = 4096 + *k as usize + 24; let s = &v[p..p + 4]; if s != [0; 4] && s != &b[p..p + 4] { x.rep(&["C13"], || format!("volatile count at {:#x} partly changed", p)); } }
}
pub fn header(x: &mut X, b: &[u8]) {
    let w = refm::header_error(b);
    let what = || "Hive::new".to_string();
    let chk = |x: &mut X, what: &dyn Fn() -> String, got: &Result<(), NtHiveError>| {
        let g = got.as_ref().err().map(conv);
        if g.as_ref().map(|e| e.v) != w.as_ref().map(|e| e.v) { x.rep(&["C02", "C17"], || format!("{}: {:?}, expected {:?}", what(), g, w)); }
        else if g != w { x.rep(ediff(g.as_ref().unwrap(), w.as_ref().unwrap()), || format!("{}: {:?}, expected {:?}", what(), g, w)); }
    };
    if let Some(r) = x.call(&["C02"], &what, || Hive::new(b).map(|_| ())) { chk(x, &what, &r); }
    let wv = || "Hive::without_validation".to_string();
    match x.call(&["C02"], &wv, || Hive::without_validation(b)) {
        Some(Ok(h)) => {
            if b.len() < 4096 { x.rep(&["C02"], || "without_validation accepted a truncated base block".into()); return; }
            let wd = || "validate()".to_string();
            if let Some(r) = x.call(&["C02"], &wd, || h.validate()) { chk(x, &wd, &r); }
            let g = |p: usize| u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
            if let Some(v) = x.call(&["C02"], &|| "version".into(), || (h.major_version(), h.minor_version())) { if v != (g(20), g(24)) { x.rep(&["C02"], || format!("version {:?}", v)); } }
            use nt_hive::HiveMinorVersion as V;
            for k in [g(24), 0, 1, 2, 3, 4, 5, 6, 7] {
                let want = match k { 0 => Some(V::WindowsNT3_1Beta), 1 => Some(V::WindowsNT3_1), 2 => Some(V::WindowsNT3_5), 3 => Some(V::WindowsNT4), 4 => Some(V::WindowsXPBeta), 5 => Some(V::WindowsXP), 6 => Some(V::WindowsVista), _ => None };
                if V::n(k) != want { x.rep(&["C02"], || format!("HiveMinorVersion::n({}) = {:?}", k, V::n(k))); }
            }
        }
        Some(Err(e)) => if b.len() >= 4096 { x.rep(&["C02"], || format!("without_validation failed: {:?}", e)); },
        None => (),
    }
}
/// case: two names and a string
pub fn names(x: &mut X, a: (bool, &[u8]), b: (bool, &[u8]), s: &str) {
    fn mk<'q>(n: (bool, &'q [u8])) -> NtHiveNameString<'q> { if n.0 { NtHiveNameString::Latin1(n.1) } else { NtHiveNameString::Utf16LE(n.1) } }
    let (na, nb) = (mk(a), mk(b));
    let (ua, ub, us) = (name_units(a.0, a.1), name_units(b.0, b.1), s.encode_utf16().collect::<Vec<u16>>());
    let props = &["C07"];
    let o = cmp_units(&ua, &ub);
    let w = || format!("comparing {:?} with {:?}", a, b);
    if let Some(g) = x.call(props, &w, || (na.cmp(&nb), na.partial_cmp(&nb), na == nb, na != nb, na < nb, na <= nb, na > nb, na >= nb)) {
        use Ordering::*;
        let e = (o, Some(o), o == Equal, o != Equal, o == Less, o != Greater, o == Greater, o != Less);
        if g != e { x.rep(props, || format!("{}: {:?}, expected {:?}", w(), g, e)); }
    }
    if let Some(g) = x.call(props, &w, || (na.clone().max(nb.clone()) == nb, nb.cmp(&na))) { if g.1 != o.reverse() { x.rep(props, || format!("{}: reverse {:?}, expected {:?}", w(), g.1, o.reverse())); } }
    macro_rules! ops { ($l:expr, $r:expr) => { x.call(props, &w, || ($l.partial_cmp($r), *$l == *$r, *$l != *$r, *$l < *$r, *$l <= *$r, *$l > *$r, *$l >= *$r)) } }
    let want = |o: std::cmp::Ordering| { use std::cmp::Ordering::*; (Some(o), o == Equal, o != Equal, o == Less, o != Greater, o == Greater, o != Less) };
    let o = cmp_units(&ua, &us);
    let w = || format!("comparing {:?} with {:?}", a, s);
    let e = want(o);
    if let Some(g) = ops!(&na, s) { if g != e { x.rep(props, || format!("{}: {:?}, expected {:?}", w(), g, e)); } }
    if let Some(g) = ops!(&na, &s) { if g != e { x.rep(props, || format!("{} (reference): {:?}, expected {:?}", w(), g, e)); } }
    let e = want(o.reverse());
    if let Some(g) = ops!(s, &na) { if g != e { x.rep(props, || format!("{} (string first): {:?}, expected {:?}", w(), g, e)); } }
    if let Some(g) = ops!(&s, &na) { if g != e { x.rep(props, || format!("{} (reference first): {:?}, expected {:?}", w(), g, e)); } }
    let o = cmp_units(&ua, &ub);
    if let Some(g) = x.call(props, &w, || { let (c, d) = (na.clone(), nb.clone()); (na.clone().max(nb.clone()) == *if o.is_gt() { &na } else { &nb }, na.clone().min(nb.clone()) == *if o.is_gt() { &nb } else { &na }, c == na, d == nb, c.cmp(&d)) }) {
        if g != (true, true, true, true, o) { x.rep(props, || format!("maximum, minimum and clones of {:?} and {:?}: {:?}", a, b, g)); }
    }
}
/// all 65536 code units: sorting them by the reference mapping, neighbours compare as expected
pub fn all_units(x: &mut X) -> u64 {
    let mut v: Vec<u16> = (0..=0xffff).collect();
    v.sort_by_key(|&u| (refm::up(u), u));
    let mut n = 0;
    for p in v.windows(2) {
        let (a, b) = (p[0].to_le_bytes(), p[1].to_le_bytes());
        let (na, nb) = (NtHiveNameString::Utf16LE(&a), NtHiveNameString::Utf16LE(&b));
        let e = refm::up(p[0]).cmp(&refm::up(p[1]));
        n += 1;
        if let Some(g) = x.call(&["C07"], &|| format!("comparing unit {:#x} with {:#x}", p[0], p[1]), || na.cmp(&nb)) { if g != e { x.rep(&["C07"], || format!("unit {:#x} compares as {:?} to unit {:#x}, expected {:?}", p[0], g, p[1], e)); if x.out.len() > 3 { return n; } } }
    }
    n
}

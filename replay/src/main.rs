//! replay search <property> <seconds> <seed> <outdir>   look for an input that contradicts the property
//! replay run <file>                                     replay one input; exit 1 if it contradicts the property
mod exam;
mod gen;
mod refm;
use gen::{Opt, Rng};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }
const PROPS: [&str; 17] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"];

/// One case: a kind and its bytes
#[derive(Clone)]
pub struct Case { kind: &'static str, seed: u64, b: Vec<u8> }
impl Case {
    fn to_text(&self, prop: &str, msg: &str) -> String {
        let mut s = format!("property {prop}\nkind {}\nseed {}\nmessage {}\n", self.kind, self.seed, msg.replace('\n', " "));
        s += &gen::dict().to_text();
        s += &format!("length {}\n", self.b.len());
        // rows of 32 bytes that are not all zero
        for (i, r) in self.b.chunks(32).enumerate() {
            if r.iter().any(|&x| x != 0) { s += &format!("{:08x} {}\n", i * 32, r.iter().map(|x| format!("{x:02x}")).collect::<String>()); }
        }
        s
    }
    fn parse(t: &str) -> (String, Case) {
        let (mut prop, mut kind, mut seed, mut b, mut dict) = (String::new(), "hive", 0, vec![], gen::Dict::default());
        for l in t.lines() {
            let (k, v) = match l.split_once(' ') { Some(x) => x, None => continue };
            match k {
                "property" => prop = v.to_string(),
                "kind" => kind = ["hive", "header", "names", "text", "units"].iter().find(|x| **x == v).copied().unwrap_or("hive"),
                "seed" => seed = v.parse().unwrap(),
                "length" => b = vec![0; v.parse().unwrap()],
                "message" => (),
                "dict" => dict.line(l),
                _ if k.len() == 8 => { let at = usize::from_str_radix(k, 16).unwrap_or(usize::MAX); if at < b.len() { for (i, h) in v.as_bytes().chunks(2).enumerate() { b[at + i] = u8::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap(); } } }
                _ => (),
            }
        }
        gen::set_dict(dict);
        (prop, Case { kind, seed, b })
    }
}
/// names cases are three length-prefixed byte strings (flag byte, u16 length, bytes)
fn pack(v: &[(bool, Vec<u8>)]) -> Vec<u8> { let mut o = vec![]; for (f, b) in v { o.push(*f as u8); o.extend_from_slice(&(b.len() as u16).to_le_bytes()); o.extend_from_slice(b); } o }
fn unpack(b: &[u8]) -> Vec<(bool, Vec<u8>)> { let mut o = vec![]; let mut i = 0; while i + 3 <= b.len() { let n = b[i + 1] as usize | (b[i + 2] as usize) << 8; o.push((b[i] != 0, b[i + 3..i + 3 + n].to_vec())); i += 3 + n; } o }

pub fn run_case(c: &Case, want: &BTreeSet<&'static str>) -> (Vec<(&'static str, String)>, u64) {
    let mut x = exam::X::new(want);
    gen::hot(c.seed % 2 == 0);
    match c.kind {
        "hive" => exam::hive(&mut x, &c.b, c.seed),
        "header" => exam::header(&mut x, &c.b),
        "names" => { let v = unpack(&c.b); let s = String::from_utf8(v[2].1.clone()).unwrap(); exam::names(&mut x, (v[0].0, &v[0].1), (v[1].0, &v[1].1), &s); }
        "text" => { let v = unpack(&c.b); let n = if v[0].0 { nt_hive::NtHiveNameString::Latin1(&v[0].1) } else { nt_hive::NtHiveNameString::Utf16LE(&v[0].1) }; exam::text(&mut x, "name", &n, v[0].0, &v[0].1); }
        "units" => { exam::all_units(&mut x); }
        _ => (),
    }
    (x.out, x.ops)
}
fn opts(p: &str, r: &mut Rng) -> Opt {
    let mut o = Opt { big: 0, strings: false, wide: false, deep: r.chance(1, 3), damage: 50, unsorted: 15, tight: r.chance(1, 3), ints: false, vals: 50, minor_low: 10, dag: 3 };
    match p {
        "C01" | "C14" | "C17" => { o.damage = 85; o.big = *r.pick(&[0, 0, 20]); o.wide = r.chance(1, 6); o.strings = r.chance(1, 4); o.ints = r.chance(1, 5); o.unsorted = 30; o.tight = r.chance(1, 2); }
        "C03" => { o.damage = 90; o.big = *r.pick(&[0, 0, 0, 15]); o.tight = r.chance(2, 3); }
        "C04" => { o.vals = 5; o.wide = r.chance(1, 3); o.damage = 60; }
        "C05" => { o.vals = 5; o.wide = r.chance(1, 2); o.damage = 20; o.unsorted = 20; }
        "C06" => { o.vals = 2; o.deep = true; o.damage = 20; }
        "C08" => { o.vals = 100; }
        "C09" => { o.vals = 100; o.deep = false; o.big = *r.pick(&[0, 30, 60]); o.minor_low = 20; }
        "C10" => { o.vals = 100; o.ints = true; o.big = *r.pick(&[0, 0, 0, 10]); o.damage = 40; }
        "C11" => { o.vals = 100; o.strings = true; o.deep = false; o.big = *r.pick(&[0, 0, 40, 70]); o.damage = 20; }
        "C12" => { o.wide = r.chance(1, 4); o.vals = 60; o.strings = r.chance(1, 2); o.big = *r.pick(&[0, 0, 40]); o.damage = 40; }
        "C13" => { o.vals = 10; o.deep = true; o.damage = 40; o.dag = 10; o.unsorted = 50; }
        "C15" => { o.vals = 80; }
        "C16" => { o.dag = 10; o.vals = 60; o.damage = 15; o.deep = true; }
        _ => (),
    }
    o
}
fn rname(r: &mut Rng) -> (bool, Vec<u8>) {
    if r.chance(1, 2) { return gen::name(r); }
    let n = r.usize(4);
    if r.chance(1, 3) { return (true, (0..n).map(|_| r.next() as u8).collect()); }
    let mut b = vec![];
    for _ in 0..n { let u = match r.below(4) { 0 => r.below(0x250) as u16, 1 => 0xd700 + r.below(0x900) as u16, 2 => r.below(0x2100) as u16, _ => r.next() as u16 }; b.extend_from_slice(&u.to_le_bytes()); }
    if r.chance(1, 8) { b.push(r.next() as u8); }
    (false, b)
}
fn variation(n: &(bool, Vec<u8>), r: &mut Rng) -> (bool, Vec<u8>) {
    let mut u = gen::nunits(n);
    for x in u.iter_mut() { if r.chance(1, 3) { let w = refm::up(*x); if w != *x { *x = w } else if let Some(l) = char::from_u32(*x as u32) { let mut q = l.to_lowercase(); if q.len() == 1 { let l = q.next().unwrap() as u32; if l < 0x10000 { *x = l as u16; } } } } }
    match r.below(6) { 0 => { u.pop(); } 1 => u.push(0x41), 2 => { if let Some(x) = u.last_mut() { *x = x.wrapping_add(1); } } _ => () }
    if u.iter().all(|&x| x < 256) && r.chance(1, 2) { return (true, u.iter().map(|&x| x as u8).collect()); }
    (false, u.iter().flat_map(|x| x.to_le_bytes()).collect())
}
fn make(p: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    gen::hot(seed % 2 == 0);
    if p == "C02" || ((p == "C14" || p == "C01") && r.chance(1, 12) || p == "C17" && r.chance(1, 5)) { return Case { kind: "header", seed, b: gen::header(&mut r) }; }
    if p == "C07" || p == "C01" && r.chance(1, 20) {
        let a = rname(&mut r);
        let b = if r.chance(2, 3) { variation(&a, &mut r) } else { rname(&mut r) };
        let s = if r.chance(2, 3) { variation(&a, &mut r) } else { rname(&mut r) };
        let s = refm::decode(&gen::nunits(&s));
        return Case { kind: "names", seed, b: pack(&[a, b, (false, s.into_bytes())]) };
    }
    if p == "C15" && r.chance(1, 3) { let a = rname(&mut r); return Case { kind: "text", seed, b: pack(&[a]) }; }
    let o = opts(p, &mut r);
    let b = gen::hive(&mut r, &o);
    Case { kind: "hive", seed, b }
}
fn h64(c: &Case) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); c.kind.hash(&mut h); c.b.hash(&mut h); h.finish() }

/// hand-written cases at the limits of the format
fn directed() -> Vec<Case> {
    let mut v = vec![];
    let nk = |name: &[u8]| { let mut p = vec![0u8; 76]; p[0] = b'n'; p[1] = b'k'; p[2] = 0x20; for o in [28, 40, 48] { p[o..o + 4].fill(0xff); } p[72] = name.len() as u8; p.extend_from_slice(name); p };
    struct B(Vec<u8>);
    impl B { fn cell(&mut self, p: &[u8]) -> u32 { let o = self.0.len(); let n = (p.len() + 11) / 8 * 8; self.0.extend_from_slice(&(-(n as i32)).to_le_bytes()); self.0.extend_from_slice(p); self.0.resize(o + n, 0); o as u32 } }
    for (i, sig, cnt) in [(0, b"li", 65535u32), (1, b"lf", 65535), (2, b"ri", 65535), (3, b"lh", 32768), (4, b"li", 40000), (5, b"ri", 40000), (6, b"ri", 0), (7, b"li", 0)] {
        let mut b = B(vec![0; 32]);
        let mut ks = vec![];
        for j in 0..3 { ks.push(b.cell(&nk([b"a", b"m", b"z"][j]))); }
        let mut l = sig.to_vec();
        l.extend_from_slice(&(cnt as u16).to_le_bytes());
        let lists: Vec<u32> = if i == 2 || i == 5 { ks.iter().map(|k| { let mut l = b"li\x01\0".to_vec(); l.extend_from_slice(&k.to_le_bytes()); b.cell(&l) }).collect() } else { ks.clone() };
        for j in 0..cnt { let w = lists[(j * 3 / cnt) as usize]; l.extend_from_slice(&w.to_le_bytes()); if i == 1 || i == 3 { l.extend_from_slice(&[1, 2, 3, 4]); } }
        let lo = b.cell(&l);
        let mut rt = nk(b"root");
        rt[28..32].copy_from_slice(&lo.to_le_bytes());
        let ro = b.cell(&rt);
        v.push(Case { kind: "hive", seed: i, b: gen::base_block(&b.0, ro, 5, 0) });
    }
    // many different names, in a leaf and in an index root with leafs of different sizes
    for (i, sig, cnt, per) in [(8, b"lf", 20000usize, 0usize), (9, b"li", 65535, 0), (10, b"lh", 12000, 0), (11, b"ri", 9000, 1), (12, b"ri", 30000, 50), (13, b"ri", 20000, 9999)] {
        let mut b = B(vec![0; 32]);
        let ks: Vec<u32> = (0..cnt).map(|j| b.cell(&nk(format!("K{j:05}").as_bytes()))).collect();
        let mut lists = ks.clone();
        if per > 0 { lists = ks.chunks(per).map(|c| { let mut l = b"li".to_vec(); l.extend_from_slice(&(c.len() as u16).to_le_bytes()); for k in c { l.extend_from_slice(&k.to_le_bytes()); } b.cell(&l) }).collect(); }
        let mut l = sig.to_vec();
        l.extend_from_slice(&(lists.len() as u16).to_le_bytes());
        for w in lists { l.extend_from_slice(&w.to_le_bytes()); if sig == b"lf" || sig == b"lh" { l.extend_from_slice(&[1, 2, 3, 4]); } }
        let lo = b.cell(&l);
        let mut rt = nk(b"root");
        rt[28..32].copy_from_slice(&lo.to_le_bytes());
        let ro = b.cell(&rt);
        v.push(Case { kind: "hive", seed: i, b: gen::base_block(&b.0, ro, 5, 0) });
    }
    // many values; a long chain of keys
    let mut b = B(vec![0; 32]);
    let mut vk = b"vk\x01\0\0\0\0\x80\0\0\0\0\x03\0\0\0\x01\0\0\0v".to_vec();
    let v0 = b.cell(&vk);
    vk[20] = b'w';
    let v1 = b.cell(&vk);
    let l: Vec<u8> = (0..66000u32).flat_map(|i| if i < 65999 { v0 } else { v1 }.to_le_bytes()).collect();
    let lo = b.cell(&l);
    let mut rt = nk(b"root");
    rt[36..40].copy_from_slice(&66000u32.to_le_bytes());
    rt[40..44].copy_from_slice(&lo.to_le_bytes());
    let ro = b.cell(&rt);
    v.push(Case { kind: "hive", seed: 1, b: gen::base_block(&b.0, ro, 5, 0) });
    let mut b = B(vec![0; 32]);
    let mut child = b.cell(&nk(b"leaf"));
    for i in 0..100 {
        let mut l = b"lh\x01\0".to_vec();
        l.extend_from_slice(&child.to_le_bytes());
        l.extend_from_slice(&[0; 4]);
        let lo = b.cell(&l);
        let mut k = nk(format!("k{i}").as_bytes());
        k[24] = 3;
        k[28..32].copy_from_slice(&lo.to_le_bytes());
        child = b.cell(&k);
    }
    v.push(Case { kind: "hive", seed: 2, b: gen::base_block(&b.0, child, 5, 0) });
    // a big data value with 65535 listed segments and a key name of 65535 bytes
    let mut b = B(vec![0; 32]);
    let seg = [b.cell(&vec![0x41; 16344]), b.cell(&vec![0x42; 16344]), b.cell(&vec![0x43; 16344])];
    let l: Vec<u8> = (0..65535usize).flat_map(|i| seg[i * i % 7 % 3].to_le_bytes()).collect();
    let lo = b.cell(&l);
    let mut vals = vec![];
    for (cnt, size) in [(65535u32, 70u32 * 16344 + 1), (2, 16345), (1, 16345), (2, 32688), (3, 32689), (2, 32689), (300, 300 * 16344), (65535, 0x7fff_ffff), (0, 16345)] {
        let mut db = b"db".to_vec();
        db.extend_from_slice(&(cnt as u16).to_le_bytes());
        db.extend_from_slice(&lo.to_le_bytes());
        let d = b.cell(&db);
        let mut vk = b"vk\x01\0\0\0\0\0\0\0\0\0\x03\0\0\0\x01\0\0\0v".to_vec();
        vk[4..8].copy_from_slice(&size.to_le_bytes());
        vk[8..12].copy_from_slice(&d.to_le_bytes());
        vals.push(b.cell(&vk));
    }
    let l: Vec<u8> = vals.iter().flat_map(|i| i.to_le_bytes()).collect();
    let lo = b.cell(&l);
    let mut rt = nk(b"");
    rt.resize(76 + 65535, b'x');
    rt[72] = 0xff; rt[73] = 0xff;
    rt[36..40].copy_from_slice(&(vals.len() as u32).to_le_bytes());
    rt[40..44].copy_from_slice(&lo.to_le_bytes());
    let ro = b.cell(&rt);
    v.push(Case { kind: "hive", seed: 3, b: gen::base_block(&b.0, ro, 5, 0) });
    v
}
fn main() {
    std::panic::set_hook(Box::new(|i| { let s = i.to_string().replace('\n', " "); PANIC.with(|p| *p.borrow_mut() = s) }));
    let a: Vec<String> = std::env::args().collect();
    // deep recursion must not be an artefact of a small thread stack
    let code = std::thread::Builder::new().stack_size(64 << 20).spawn(move || match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2]),
        Some("search") => search(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5], a.get(6).map_or(false, |x| x == "careful")),
        Some("cycle") => cycle(),
        _ => { eprintln!("usage: replay run FILE | search PROPERTY SECONDS SEED OUTDIR"); 2 }
    }).unwrap().join().unwrap();
    std::process::exit(code);
}
/// the known finding: a key that is reachable from itself makes clear_volatile_subkeys recurse without bound
fn cycle() -> i32 {
    let mut d = vec![0u8; 4096];
    d[32..36].copy_from_slice(&(-88i32).to_le_bytes());
    d[36] = b'n'; d[37] = b'k';
    d[36 + 28..36 + 32].copy_from_slice(&120u32.to_le_bytes());
    for o in [40, 48] { d[36 + o..36 + o + 4].fill(0xff); }
    d[120..124].copy_from_slice(&(-16i32).to_le_bytes());
    d[124..128].copy_from_slice(b"li\x01\0");
    d[128..132].copy_from_slice(&32u32.to_le_bytes());
    let mut b = gen::base_block(&d, 32, 5, 4096);
    let mut h = nt_hive::Hive::new(&mut b[..]).unwrap();
    println!("{:?}", h.clear_volatile_subkeys());
    0
}
fn run(f: &str) -> i32 {
    let (p, c) = Case::parse(&std::fs::read_to_string(f).unwrap());
    let want: BTreeSet<&'static str> = PROPS.iter().copied().filter(|x| *x == p).collect();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let _ = tx.send(run_case(&c, &want)); }).unwrap();
    match rx.recv_timeout(Duration::from_secs(60)) {
        Ok((out, _)) => { for (p, m) in &out { println!("{p}: {m}"); } if out.is_empty() { println!("no violation"); 0 } else { 1 } }
        Err(_) => { println!("{p}: does not terminate"); 1 }
    }
}
fn search(prop: &str, secs: f64, seed: u64, out: &str, careful: bool) -> i32 {
    let p: &'static str = PROPS.iter().find(|x| **x == prop).unwrap();
    let mut d = gen::Dict::default();
    if let Some(f) = std::env::var_os("REPLAY_DICT") { for l in std::fs::read_to_string(f).unwrap_or_default().lines() { d.line(l); } }
    gen::set_dict(d);
    let want: Arc<BTreeSet<&'static str>> = Arc::new([p].into_iter().collect());
    std::fs::create_dir_all(out).unwrap();
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let (cases, ops, nontrivial) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let distinct = Arc::new(Mutex::new(HashSet::new()));
    let found: Arc<Mutex<Option<(Case, String)>>> = Arc::new(Mutex::new(None));
    let dir: Arc<Vec<Case>> = Arc::new({
        let mut d = if p == "C02" || p == "C07" { vec![] } else { directed() };
        if p == "C07" { d.push(Case { kind: "units", seed: 0, b: vec![] }); }
        if let Ok(b) = std::fs::read("/repo/testdata/testhive") { d.push(Case { kind: if p == "C02" { "header" } else { "hive" }, seed: 4, b }); }
        d
    });
    let n = 8;
    let cur: Arc<Vec<Mutex<(Option<Instant>, Option<Case>)>>> = Arc::new((0..n).map(|_| Mutex::new((None, None))).collect());
    let mut hs = vec![];
    for t in 0..n {
        let (stop, next, cases, ops, nontrivial, distinct, found, want, dir, cur, out) = (stop.clone(), next.clone(), cases.clone(), ops.clone(), nontrivial.clone(), distinct.clone(), found.clone(), want.clone(), dir.clone(), cur.clone(), out.to_string());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            while !stop.load(SeqCst) {
                let i = next.fetch_add(1, SeqCst);
                let c = if (i as usize) < dir.len() { dir[i as usize].clone() } else { make(p, seed.wrapping_mul(1_000_003).wrapping_add(i)) };
                if careful { std::fs::write(format!("{out}/slot{t}"), c.to_text(p, "process ended abnormally")).unwrap(); }
                *cur[t].lock().unwrap() = (Some(Instant::now()), Some(c.clone()));
                let (o, k) = run_case(&c, &want);
                *cur[t].lock().unwrap() = (None, None);
                cases.fetch_add(1, SeqCst);
                ops.fetch_add(k, SeqCst);
                if k >= 8 || c.kind != "hive" { nontrivial.fetch_add(1, SeqCst); if i < 2_000_000 { distinct.lock().unwrap().insert(h64(&c)); } }
                if let Some((_, m)) = o.into_iter().next() { let mut f = found.lock().unwrap(); if f.as_ref().map_or(true, |(d, _)| d.b.len() > c.b.len()) { *f = Some((c, m)); } stop.store(true, SeqCst); }
            }
        }).unwrap());
    }
    let mut hung = None;
    while !stop.load(SeqCst) && start.elapsed().as_secs_f64() < secs {
        std::thread::sleep(Duration::from_millis(20));
        for s in cur.iter() { let g = s.lock().unwrap(); if let Some(t) = g.0 { if t.elapsed().as_secs() > 60 { hung = g.1.clone(); } } }
        if hung.is_some() { break; }
    }
    stop.store(true, SeqCst);
    if let Some(c) = hung {
        std::fs::write(format!("{out}/found"), c.to_text(p, "a call does not terminate")).unwrap();
        println!("FOUND a call does not terminate");
        println!("STATS {} {} {} {}", cases.load(SeqCst), 0, ops.load(SeqCst), start.elapsed().as_secs_f64());
        std::process::exit(1);
    }
    // cases that started before the end may still run: wait for them
    let end = Instant::now();
    for h in hs { while !h.is_finished() { if end.elapsed().as_secs() > 60 { let c = cur.iter().filter_map(|s| s.lock().unwrap().1.clone()).next(); if let Some(c) = c { std::fs::write(format!("{out}/found"), c.to_text(p, "a call does not terminate")).unwrap(); println!("FOUND a call does not terminate"); std::process::exit(1); } } std::thread::sleep(Duration::from_millis(10)); } }
    let mut code = 0;
    if let Some((c, m)) = found.lock().unwrap().take() {
        let c = shrink(c, p, &want);
        let m = run_case(&c, &want).0.into_iter().next().map_or(m, |x| x.1);
        std::fs::write(format!("{out}/found"), c.to_text(p, &m)).unwrap();
        println!("FOUND {m}");
        code = 1;
    }
    // a few cases in words
    for i in 0..3u64 { let c = make(p, seed.wrapping_mul(1_000_003).wrapping_add(dir.len() as u64 + i)); println!("SAMPLE {} of {} bytes, seed {}, root offset {:?}, {} bytes not zero", c.kind, c.b.len(), c.seed, c.b.get(36..40), c.b.iter().filter(|&&x| x != 0).count()); }
    let d = distinct.lock().unwrap().len();
    println!("STATS {} {} {} {} {}", cases.load(SeqCst), d, ops.load(SeqCst), nontrivial.load(SeqCst), start.elapsed().as_secs_f64());
    code
}
/// zero out bytes as long as the violation stays
fn shrink(mut c: Case, _p: &str, want: &BTreeSet<&'static str>) -> Case {
    if c.kind != "hive" && c.kind != "header" { return c; }
    let t = Instant::now();
    let mut w = 1024;
    while w >= 4 && t.elapsed().as_secs() < 8 {
        let mut i = if c.kind == "hive" { 4096 } else { 0 };
        while i < c.b.len() && t.elapsed().as_secs() < 8 {
            let e = (i + w).min(c.b.len());
            if c.b[i..e].iter().any(|&x| x != 0) {
                let mut d = c.clone();
                d.b[i..e].fill(0);
                if !run_case(&d, want).0.is_empty() { c = d; }
            }
            i += w;
        }
        w /= 4;
    }
    c
}

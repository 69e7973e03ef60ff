//! Mechanical extraction of /repo/src into one Verus file.
//! usage: extract SRC_DIR CONTRACTS PRELUDE OUT.rs OUT.map [--external KEY]...
//! The text of the functions is kept; every deviation is one of the rules T1..T10 (see DESIGN.md).
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::Visit;
mod inline;
mod norm;

#[derive(Default, Clone, Debug)]
struct Contract {
    spec: String,                       // requires/ensures/decreases text
    attr: String,
    graph: String,
    loops: HashMap<usize, String>,
    closures: HashMap<usize, String>,
    into: HashMap<usize, String>,       // what makes the expression of a `for` loop an iterator
    inserts: Vec<(String, String, String)>, // (kind, pattern, text)
    entry: String,
    tail: String,
    used: bool,
    alts: Vec<Contract>,                // other sets of annotations (@alt), for another way to write the same loop
}

fn parse_contracts(text: &str) -> (BTreeMap<String, Contract>, String) {
    let mut map: BTreeMap<String, Contract> = BTreeMap::new();
    let mut items = String::new();
    let mut key: Option<String> = None;
    let mut cur: Option<(String, String)> = None; // (directive, arg)
    let mut buf = String::new();
    fn flush(map: &mut BTreeMap<String, Contract>, items: &mut String, key: &Option<String>, cur: &Option<(String, String)>, buf: &mut String) {
        let t = std::mem::take(buf);
        match (key, cur) {
            (_, Some((d, _))) if d == "item" => items.push_str(&t),
            (Some(k), Some((d, a))) => {
                let mut c = map.entry(k.clone()).or_default();
                if d == "alt" { c.alts.push(Contract::default()); return; }
                if !c.alts.is_empty() { c = c.alts.last_mut().unwrap(); }
                match d.as_str() {
                    "spec" => c.spec.push_str(&t),
                    "graph" => { c.graph.push_str(a); c.graph.push_str(&t) }
                    "attr" => { c.attr.push_str(a); c.attr.push('\n'); c.attr.push_str(&t) }
                    "loop" => { c.loops.entry(a.trim().parse().unwrap()).or_default().push_str(&t) }
                    "into" => { if let Some((n, f)) = a.trim().split_once(' ') { c.into.insert(n.parse().unwrap(), f.trim().to_string()); } }
                    "closure" => { c.closures.entry(a.trim().parse().unwrap()).or_default().push_str(&t) }
                    "at" | "after" | "loopend" | "loopstart" | "preloop" => c.inserts.push((d.clone(), a.trim().to_string(), t)),
                    "entry" => c.entry.push_str(&t),
                    "tail" => c.tail.push_str(&t),
                    _ => panic!("bad directive {d}"),
                }
            }
            _ => {}
        }
    }
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("@@fn ") {
            flush(&mut map, &mut items, &key, &cur, &mut buf);
            key = Some(rest.trim().to_string());
            map.entry(key.clone().unwrap()).or_default();
            cur = Some(("spec".into(), String::new()));
        } else if line.trim() == "@@item" {
            flush(&mut map, &mut items, &key, &cur, &mut buf);
            key = None;
            cur = Some(("item".into(), String::new()));
        } else if line.starts_with('@') {
            flush(&mut map, &mut items, &key, &cur, &mut buf);
            let l = &line[1..];
            let (d, a) = l.split_once(' ').unwrap_or((l, ""));
            cur = Some((d.trim().into(), a.into()));
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush(&mut map, &mut items, &key, &cur, &mut buf);
    (map, items)
}

struct File { src: String }

/// Text edits on one source file.
struct Edits { list: Vec<(usize, usize, i32, usize, String)>, n: usize }
impl Edits {
    fn rep(&mut self, a: usize, b: usize, t: impl Into<String>) { self.n += 1; self.list.push((a, b, 0, self.n, t.into())); }
    /// insertion; prio orders insertions at the same offset (lower first)
    fn ins(&mut self, a: usize, prio: i32, t: impl Into<String>) { self.n += 1; self.list.push((a, a, prio, self.n, t.into())); }
    fn apply(&mut self, src: &str, lo: usize, hi: usize) -> String {
        let mut v: Vec<_> = self.list.iter().filter(|e| e.0 >= lo && e.1 <= hi).cloned().collect();
        v.sort_by_key(|e| (e.0, if e.0 == e.1 { 0 } else { 1 }, e.2, e.3));
        let mut out = String::new();
        let mut pos = lo;
        for (a, b, _, _, t) in v {
            if a < pos { continue; } // inside a replaced region
            out.push_str(&src[pos..a]);
            out.push_str(&t);
            pos = b;
        }
        out.push_str(&src[pos..hi]);
        out
    }
}

fn rng<T: Spanned>(t: &T) -> (usize, usize) { let r = t.span().byte_range(); (r.start, r.end) }
fn norm(s: &str) -> String { s.split_whitespace().collect::<Vec<_>>().join(" ") }
fn toks<T: quote::ToTokens>(t: &T) -> String { quote::quote!(#t).to_string().replace(' ', "") }

struct Ctx<'a> {
    names: &'a norm::Names,
    src: &'a str,
    ed: Edits,
    notes: Vec<String>,
    contracts: &'a mut BTreeMap<String, Contract>,
    external: &'a HashSet<String>,
    iter_types: &'a HashSet<String>,
    generated: String,
    fns: Vec<(String, String, u64)>, // key, file, token hash
    lost: Vec<String>,
    traitfns: Vec<String>,
    open: Vec<String>, // functions with loops or closures that no annotation covers
    file: String,
    headers: &'a HashMap<String, HeaderInfo>,
    muts: bool,
}

#[derive(Clone)]
struct HeaderInfo { fields: Vec<(String, String, usize, usize)>, size: usize } // name, type, offset, size

fn type_size(t: &str) -> Option<usize> {
    Some(match t {
        "u8" => 1,
        "U16<LittleEndian>" => 2,
        "U32<LittleEndian>" | "I32<LittleEndian>" => 4,
        "U64<LittleEndian>" => 8,
        _ => {
            let t = t.strip_prefix('[')?.strip_suffix(']')?;
            let (e, n) = t.rsplit_once(';')?;
            type_size(e)? * n.parse::<usize>().ok()?
        }
    })
}

fn has_attr(attrs: &[syn::Attribute], name: &str, inner: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident(name) && toks(&a.meta).contains(inner))
}
fn derives(attrs: &[syn::Attribute], d: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive") && {
            let t = toks(&a.meta);
            let t = t.trim_start_matches("derive(").trim_end_matches(')');
            t.split(',').any(|x| x == d)
        }
    })
}
fn is_test(attrs: &[syn::Attribute]) -> bool { has_attr(attrs, "cfg", "test") }

impl<'a> Ctx<'a> {
    fn txt(&self, r: (usize, usize)) -> &'a str { &self.src[r.0..r.1] }

    fn drop_attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            let r = rng(a);
            self.ed.rep(r.0, r.1, "");
        }
    }
    fn make_pub(&mut self, vis: &syn::Visibility, at: usize) {
        match vis {
            syn::Visibility::Inherited => self.ed.ins(at, 5, "pub "),
            _ => { let r = rng(vis); self.ed.rep(r.0, r.1, "pub") }
        }
    }
    /// T3: type substitutions
    fn ty(&mut self, t: &syn::Type) { TyV { c: self }.visit_type(t); }
}

struct TyV<'b, 'a> { c: &'b mut Ctx<'a> }
impl<'b, 'a, 'ast> Visit<'ast> for TyV<'b, 'a> {
    fn visit_type_path(&mut self, p: &'ast syn::TypePath) {
        let last = p.path.segments.last().unwrap();
        let r = rng(p);
        let name = last.ident.to_string();
        if ["U16", "U32", "U64", "I32"].contains(&name.as_str()) && toks(p).ends_with("<LittleEndian>") {
            self.c.ed.rep(r.0, r.1, format!("{name}L"));
            return;
        }
        if name == "String" { self.c.ed.rep(r.0, r.1, "PStr"); return; }
        if name == "Ref" {
            let t = toks(p);
            if t.starts_with("Ref<&'h mut[u8],".replace(' ', "").as_str()) || t.starts_with("Ref<&'hmut[u8],") || t.starts_with("Ref<&mut[u8],") {
                let lt = if t.starts_with("Ref<&'h") { "'h, " } else { "'_, " };
                let ty = t.rsplit_once(',').unwrap().1.trim_end_matches('>').to_string();
                self.c.ed.rep(r.0, r.1, format!("RefMut<{lt}{ty}>"));
                return;
            }
        }
        syn::visit::visit_type_path(self, p);
    }
    fn visit_type_impl_trait(&mut self, t: &'ast syn::TypeImplTrait) {
        let s = norm(self.c.txt(rng(t)));
        if s.contains("Iterator<Item = u16>") {
            let r = rng(t);
            self.c.ed.rep(r.0, r.1, s.replace("Iterator<Item = u16>", "PIter<Item = u16>"));
        }
    }
}

/// rewriting of bodies
struct BodyV<'b, 'a> {
    c: &'b mut Ctx<'a>,
    contract: Contract,
    nloop: usize,
    nclosure: usize,
    open: usize,
    aliases: HashMap<String, String>, // local = & place.field   (for offset_of_field)
    nfor: usize,
    mutself: bool,
    key: String,
    scope: Vec<(String, bool)>,         // names in scope, and whether they are mutable
}

impl<'b, 'a> BodyV<'b, 'a> {
    fn src(&self, r: (usize, usize)) -> String { self.c.src[r.0..r.1].to_string() }
    /// `iter`: the iterator a rewritten `for` loop uses (its contract says `it__N`)
    fn loop_spec(&mut self, body: &syn::Block, iter: Option<String>, begin: usize) {
        let k = self.nloop;
        self.nloop += 1;
        let map = self.renamed(k, body);
        let named = |t: &str| { let t = match &iter { Some(x) => it_name(t, x), None => t.to_string() }; map.iter().fold(t, |t, (a, b)| norm::word(&t, a, b)) };
        let at = rng(&body.brace_token.span.open()).0;
        let mut t = String::new();
        if !self.contract.loops.contains_key(&k) { self.open += 1; }
        if let Some(l) = self.contract.loops.get(&k) { t = format!("\n{}", named(l)); }
        if !t.is_empty() { self.c.ed.ins(at, 0, t); }
        for (kind, pat, text) in self.contract.inserts.clone() {
            if kind == "preloop" && pat == k.to_string() { self.c.ed.ins(begin, 8, format!("{}\n", named(&text))); }
            if kind == "loopstart" && pat == k.to_string() { self.c.ed.ins(at + 1, 9, format!("\n{}", named(&text))); }
            if kind == "loopend" && pat == k.to_string() { let e = rng(&body.brace_token.span.close()).0; self.c.ed.ins(e, -5, format!("\n{}", named(&text))); }
        }
    }
    fn visit_signature_names(&mut self, sig: &syn::Signature) { for i in &sig.inputs { if let syn::FnArg::Typed(p) = i { if let syn::Pat::Ident(i) = &*p.pat { self.scope.push((i.ident.to_string(), i.mutability.is_some())); } } } }
    /// T17: an annotation of loop k names a variable that is not in scope: the variables the loop assigns instead
    fn renamed(&mut self, k: usize, body: &syn::Block) -> Vec<(String, String)> {
        let Some(base) = self.c.names.locals(&self.key) else { return vec![] };
        let mut text = self.contract.loops.get(&k).cloned().unwrap_or_default();
        for (kind, pat, t) in &self.contract.inserts { if (kind == "loopstart" || kind == "loopend" || kind == "preloop") && *pat == k.to_string() { text.push_str(t); } }
        let words = norm::words(&text);
        let missing: Vec<String> = words.iter().filter(|w| base.contains(w) && !self.scope.iter().any(|s| s.0 == **w)).cloned().collect();
        if missing.is_empty() { return vec![]; }
        let set = norm::assigned(body);
        let mut cand: Vec<String> = vec![];
        for (n, m) in &self.scope { if *m && set.contains(n) && !words.contains(n) && !cand.contains(n) { cand.push(n.clone()); } }
        if cand.len() != missing.len() { return vec![]; }
        self.c.lost.push(format!("{}: anchor {} taken for {}", self.key, cand.join(", "), missing.join(", ")));
        missing.into_iter().zip(cand).collect()
    }
    fn wants_iter(&self) -> bool { self.contract.loops.get(&self.nloop).map_or(false, |t| t.contains("it__")) }
    /// `place.field` -> `place.at_field()`
    fn addr_of(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Reference(r) => {
                if let syn::Expr::Field(f) = &*r.expr {
                    if let syn::Member::Named(n) = &f.member {
                        let base = self.src(rng(&f.base));
                        return Some(format!("{base}.at_{n}()"));
                    }
                }
                None
            }
            syn::Expr::Path(p) => p.path.get_ident().and_then(|i| self.aliases.get(&i.to_string()).cloned()),
            _ => None,
        }
    }
}

/// `it__N` -> name of the iterator
fn it_name(t: &str, x: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("it__") {
        out.push_str(&rest[..i]);
        let d = rest[i + 4..].bytes().take_while(|b| b.is_ascii_digit()).count();
        if d > 0 { out.push_str(x); } else { out.push_str("it__"); }
        rest = &rest[i + 4 + d..];
    }
    out.push_str(rest);
    out
}
/// receiver of the first `X.next()` of a loop body
fn next_receiver(b: &syn::Block) -> Option<(usize, usize)> {
    struct V(Option<(usize, usize)>);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            syn::visit::visit_expr_method_call(self, m);
            if self.0.is_none() && m.method == "next" && m.args.is_empty() { self.0 = Some(rng(&*m.receiver)); }
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) { if let Ok(e) = m.parse_body::<syn::Expr>() { self.visit_expr(&e); } }
    }
    let mut v = V(None);
    v.visit_block(b);
    v.0
}

fn pat_bytes(p: &syn::Pat) -> Option<Vec<Vec<u8>>> {
    match p {
        syn::Pat::Lit(l) => if let syn::Lit::ByteStr(b) = &l.lit { Some(vec![b.value()]) } else { None },
        syn::Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(pat_bytes(c)?); } Some(v) }
        syn::Pat::Paren(p) => pat_bytes(&p.pat),
        _ => None,
    }
}
fn bytes_lit(b: &[u8]) -> String {
    format!("&[{}]", b.iter().map(|x| format!("{x:#04x}u8")).collect::<Vec<_>>().join(", "))
}

impl<'b, 'a, 'ast> Visit<'ast> for BodyV<'b, 'a> {
    fn visit_type(&mut self, t: &'ast syn::Type) { self.c.ty(t); }
    fn visit_block(&mut self, b: &'ast syn::Block) { let n = self.scope.len(); syn::visit::visit_block(self, b); self.scope.truncate(n); }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) { self.scope.push((p.ident.to_string(), p.mutability.is_some())); syn::visit::visit_pat_ident(self, p); }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        let pat = match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p };
        if let (syn::Pat::Ident(i), Some(init)) = (pat, &l.init) {
            if let Some(a) = self.addr_of(&init.expr) { self.aliases.insert(i.ident.to_string(), a); }
            else { self.aliases.remove(&i.ident.to_string()); }
        }
        // the initializer does not see the new name
        for a in &l.attrs { self.visit_attribute(a); }
        if let Some(i) = &l.init { self.visit_expr(&i.expr); if let Some((_, d)) = &i.diverge { self.visit_expr(d); } }
        self.visit_pat(&l.pat);
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) { let r = rng(a); self.c.ed.rep(r.0, r.1, ""); }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let r = rng(s);
        let t: String = self.c.txt(r).split_whitespace().collect();
        let ins = self.contract.inserts.clone();
        for (i, (kind, pat, text)) in ins.iter().enumerate() {
            if pat.is_empty() { continue; }
            let here = match pat.strip_prefix("call:") { Some(f) => norm::calls(s, f), None => t.starts_with(&pat.split_whitespace().collect::<String>()) };
            if here && (kind == "at" || kind == "after") {
                if kind == "at" { self.c.ed.ins(r.0, 8, format!("{text}")); }
                else {
                    // a macro/expr statement may have its semicolon outside of the span
                    self.c.ed.ins(r.1, -3, format!("\n{text}"));
                }
                self.contract.inserts[i].1 = String::new();
                break;
            }
        }
        syn::visit::visit_stmt(self, s);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        // String::new etc.
        if p.path.segments.len() == 2 && p.path.segments[0].ident == "String" {
            let r = rng(&p.path.segments[0].ident);
            self.c.ed.rep(r.0, r.1, "PStr");
        }
        let t = toks(&p.path);
        match t.as_str() {
            "char::from" => { let r = rng(p); self.c.ed.rep(r.0, r.1, "char_from_u8"); }
            "char::from_u32" => { let r = rng(p); self.c.ed.rep(r.0, r.1, "char_from_u32"); }
            "char::decode_utf16" => { let r = rng(p); self.c.ed.rep(r.0, r.1, "decode_utf16"); }
            "u16::from_le_bytes" | "u32::from_le_bytes" | "u64::from_le_bytes" | "u32::from_be_bytes" | "u64::from_be_bytes" | "u16::from_be_bytes" => { let r = rng(p); self.c.ed.rep(r.0, r.1, t.replace("::", "_")); }
            "self" if self.mutself => { let r = rng(p); self.c.ed.rep(r.0, r.1, "self__"); }
            "ptr::eq" => { let r = rng(p); self.c.ed.rep(r.0, r.1, "ptr_eq"); }
            "char::REPLACEMENT_CHARACTER" => { let r = rng(p); self.c.ed.rep(r.0, r.1, "'\\u{FFFD}'"); }
            _ => {
                syn::visit::visit_expr_path(self, p);
            }
        }
    }
    fn visit_expr_lit(&mut self, l: &'ast syn::ExprLit) {
        if let syn::Lit::ByteStr(b) = &l.lit {
            let r = rng(l);
            self.c.ed.rep(r.0, r.1, bytes_lit(&b.value()));
        }
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        // T7 byte string patterns
        let any = m.arms.iter().any(|a| pat_bytes(&a.pat).is_some());
        if any {
            for a in &m.arms {
                if let Some(v) = pat_bytes(&a.pat) {
                    if a.guard.is_none() {
                        let r = rng(&a.pat);
                        let g = v.iter().map(|b| format!("bs__.beq({})", bytes_lit(b))).collect::<Vec<_>>().join(" || ");
                        self.c.ed.rep(r.0, r.1, format!("bs__ if {g}"));
                    }
                }
            }
        }
        syn::visit::visit_expr_match(self, m);
    }
    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        if pat_bytes(p).is_some() { return; }
        syn::visit::visit_pat(self, p);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let it = if self.wants_iter() { next_receiver(&l.body).map(|r| self.src(r)) } else { None };
        self.loop_spec(&l.body, it, rng(l).0);
        syn::visit::visit_expr_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        // a `for` loop that was rewritten as `while let Some(P) = X.next()`: the same normal form as T6
        if self.wants_iter() {
            if let syn::Expr::Let(c) = &*l.cond {
                if let (syn::Pat::TupleStruct(p), syn::Expr::MethodCall(m)) = (&*c.pat, &*c.expr) {
                    if p.path.is_ident("Some") && p.elems.len() == 1 && m.method == "next" && m.args.is_empty() {
                        let (pt, x) = (self.src(rng(&p.elems[0])), self.src(rng(&*m.receiver)));
                        let (wr, open) = (rng(&l.while_token), rng(&l.body.brace_token.span.open()));
                        self.c.ed.rep(wr.0, open.0, "loop ");
                        self.loop_spec(&l.body, Some(x.clone()), rng(l).0);
                        self.c.ed.ins(open.1, 11, format!(" let {pt} = match {x}.next() {{ Some(x__) => x__, None => break }};"));
                        self.visit_block(&l.body);
                        return;
                    }
                }
            }
        }
        self.loop_spec(&l.body, None, rng(l).0);
        syn::visit::visit_expr_while(self, l);
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        // T6: for P in E { B }  =>  { let mut it__k = E; loop SPEC { match it__k.next() { Some(P) => { B } None => break } } }
        let k = self.nfor;
        self.nfor += 1;
        let whole = rng(f);
        let pat = rng(&*f.pat);
        let ex = rng(&*f.expr);
        let open = rng(&f.body.brace_token.span.open());
        let close = rng(&f.body.brace_token.span.close());
        let label = f.label.as_ref().map(|l| self.src(rng(l))).unwrap_or_default();
        // `for &P in` : the verifier has no reference patterns
        let (pt, star) = match &*f.pat { syn::Pat::Reference(r) if r.mutability.is_none() => (self.src(rng(&*r.pat)), "*"), _ => (self.src(pat), "") };
        // `for` keyword .. expr
        self.c.ed.rep(whole.0, ex.0, format!("{{ let mut it__{k} = ("));
        let into = self.contract.into.get(&self.nloop).map_or(String::new(), |f| format!(".{f}()"));
        self.c.ed.rep(ex.1, open.0, format!("){into}; {label} loop "));
        let me = format!("it__{k}"); self.loop_spec(&f.body, Some(me), whole.0);
        self.c.ed.ins(open.1, 11, format!(" let ghost p__{k} = it__{k}; let {pt} = {star}match it__{k}.next() {{ Some(x__) => x__, None => break }};"));
        self.c.ed.ins(close.1, 9, " }");
        self.visit_expr(&f.expr);
        self.visit_block(&f.body);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let k = self.nclosure;
        self.nclosure += 1;
        if let Some(t) = self.contract.closures.get(&k).cloned() {
            // text has the form:  |args| -> (q: T) ensures ...
            let whole = rng(c);
            let body = rng(&*c.body);
            // `x__` as the only parameter of the annotation: the source's own parameter pattern is bound to it
            let bind = if t.trim_start().starts_with("|x__") && c.inputs.len() == 1 {
                let p = match &c.inputs[0] { syn::Pat::Type(p) => &*p.pat, p => p };
                if let syn::Pat::Reference(p) = p { format!("let {} = *x__; ", self.src(rng(&*p.pat))) } else { format!("let {} = x__; ", self.src(rng(p))) }
            } else { String::new() };
            self.c.ed.rep(whole.0, body.0, format!("{} {{ {bind}", t.trim()));
            self.c.ed.ins(body.1, 5, " }");
            self.visit_expr(&c.body);
            return;
        }
        self.open += 1;
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if name == "iter_try" {
            if let Ok(e) = m.parse_body::<syn::Expr>() {
                // T5: expand iter_try!
                let r = rng(m);
                let er = rng(&e);
                self.c.ed.rep(r.0, er.0, "(match (");
                self.c.ed.rep(er.1, r.1, ") { Ok(x__) => x__, Err(e__) => return Some(Err(e__)) })");
                self.visit_expr(&e);
                return;
            }
        }
        if name == "offset_of" {
            let t = toks(&m.tokens);
            if let Some((ty, f)) = t.split_once(',') {
                if let Some(h) = self.c.headers.get(ty) {
                    if let Some(x) = h.fields.iter().find(|x| x.0 == f) {
                        let r = rng(m);
                        self.c.ed.rep(r.0, r.1, format!("{}usize", x.2));
                    }
                }
            }
            return;
        }
        if name == "assert" {
            if let Ok(e) = m.parse_body::<syn::Expr>() {
                let r = rng(m);
                let er = rng(&e);
                self.c.ed.rep(r.0, er.0, "exec_assert(");
                self.c.ed.rep(er.1, r.1, ")");
                self.visit_expr(&e);
            }
            return;
        }
        if name == "panic" || name == "unreachable" {
            let r = rng(m);
            self.c.ed.rep(r.0, r.1, "exec_unreachable()");
            return;
        }
        if name == "matches" {
            struct MM { e: syn::Expr, p: syn::Pat }
            impl syn::parse::Parse for MM {
                fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                    let e = i.parse()?; i.parse::<syn::Token![,]>()?; let p = syn::Pat::parse_multi(i)?; let _ = i.parse::<Option<syn::Token![,]>>()?; Ok(MM { e, p })
                }
            }
            if let Ok(mm) = m.parse_body::<MM>() {
                let r = rng(m);
                let er = rng(&mm.e);
                let pr = rng(&mm.p);
                self.c.ed.rep(r.0, er.0, "(match ");
                self.c.ed.rep(er.1, pr.0, " { ");
                self.c.ed.rep(pr.1, r.1, " => true, _ => false })");
                self.visit_expr(&mm.e);
            }
        }
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        let f = toks(&c.func);
        let r = rng(c);
        // mem::size_of::<T>()
        if f.starts_with("mem::size_of::<") || f.starts_with("size_of::<") || f.starts_with("core::mem::size_of::<") {
            let t = f.split_once("::<").unwrap().1.trim_end_matches('>').to_string();
            let n = match t.as_str() {
                "u8" => Some(1), "u16" => Some(2), "u32" | "i32" => Some(4), "u64" => Some(8),
                _ => self.c.headers.get(&t).map(|h| h.size),
            };
            if let Some(n) = n { self.c.ed.rep(r.0, r.1, format!("{n}usize")); return; }
        }
        // T8: Ref::from_bytes(&X.data[R])
        let m = f.rsplit("::").next().unwrap_or("").to_string();
        if f.starts_with("Ref::") && (m == "from_bytes" || m == "from_prefix") && c.args.len() == 1 {
            if let syn::Expr::Reference(rf) = &c.args[0] {
                if let syn::Expr::Index(ix) = &*rf.expr {
                    let tx = toks(&ix.expr);
                    if tx.ends_with("data") {
                        let fr = rng(&*c.func);
                        let ar = rng(&c.args[0]);
                        let er = rng(&*ix.expr);
                        let ir = rng(&*ix.index);
                        let ft = self.src(fr);
                        if rf.mutability.is_some() {
                            self.c.ed.rep(fr.0, fr.1, "RefMut::from_data");
                            self.c.ed.rep(ar.0, er.0, "&mut ");
                        } else {
                            let ft2 = if m == "from_bytes" { ft.replace("from_bytes", "from_data") } else { ft.replace("from_prefix", "from_prefix_data") };
                            self.c.ed.rep(fr.0, fr.1, ft2);
                            self.c.ed.rep(ar.0, er.0, "&");
                        }
                        self.c.ed.rep(er.1, ir.0, ", ");
                        self.c.ed.rep(ir.1, ar.1, "");
                        self.visit_expr(&ix.expr);
                        self.visit_expr(&ix.index);
                        return;
                    }
                }
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        if self.combinator(&name, m) { return; }
        // X.binary_search_by_key(K, |P| E) is X.binary_search_by(|P| E.cmp(K))
        if name == "binary_search_by_key" && m.args.len() == 2 {
            if let syn::Expr::Closure(c) = &m.args[1] {
                let (mr, cr, br, w) = (rng(&m.method), rng(c), rng(&*c.body), rng(m));
                let key = self.src(rng(&m.args[0]));
                self.c.ed.rep(mr.0, cr.0, "p_binary_search_by(");
                self.c.ed.ins(br.0, 6, "(");
                self.c.ed.ins(br.1, 4, format!(").cmp({key})"));
                let _ = w;
                self.visit_expr(&m.receiver);
                self.visit_expr(&m.args[1]);
                return;
            }
        }
        if name == "offset_of_field" && m.args.len() == 1 {
            let ar = rng(&m.args[0]);
            if let Some(a) = self.addr_of(&m.args[0]) {
                self.c.ed.rep(ar.0, ar.1, a);
                let mr = rng(&m.method);
                self.c.ed.rep(mr.0, mr.1, "offset_of_addr");
                self.visit_expr(&m.receiver);
                return;
            }
            // the address of something else than a field or value data: nothing is known about it
            if !matches!(&m.args[0], syn::Expr::Path(p) if p.path.is_ident("data")) { self.open += 1; }
        }
        if name == "try_into" { let r = rng(&m.method); self.c.ed.rep(r.0, r.1, "try_into_arr"); }
        if name == "chunks" || name == "chunks_exact" || name == "split" || name == "encode_utf16" {
            let r = rng(&m.method);
            self.c.ed.rep(r.0, r.1, format!("p_{name}"));
        }
        if name == "binary_search_by" || name == "binary_search_by_key" { let r = rng(&m.method); self.c.ed.rep(r.0, r.1, format!("p_{name}")); }
        if name == "iter" { let r = rng(&m.method); self.c.ed.rep(r.0, r.1, "p_iter"); }
        if name == "map" { let r = rng(&m.method); self.c.ed.rep(r.0, r.1, "p_map"); }
        if name == "collect" { let r = rng(&m.method); self.c.ed.rep(r.0, r.1, "p_collect"); }
        if (name == "min" || name == "max") && m.args.len() == 1 { let r = rng(&m.method); self.c.ed.rep(r.0, r.1, format!("p_{name}")); }
        if name == "to_vec" { let r = rng(&m.method); self.c.ed.rep(r.0, r.1, "p_to_vec"); }
        if name == "into" && m.args.is_empty() { let r = rng(&m.method); self.c.ed.rep(r.0, r.1, "p_into"); }
        if name == "div_ceil" { let r = rng(&m.method); self.c.ed.rep(r.0, r.1, "p_div_ceil"); }
        syn::visit::visit_expr_method_call(self, m);
    }
}

/// T14: `Option`, `Result`, `bool` and `Ordering` combinators with a literal closure (or a function path) become the
/// `match` that core defines them to be, so that the closure's body is verified in place.
impl<'b, 'a> BodyV<'b, 'a> {
    fn combinator(&mut self, name: &str, m: &syn::ExprMethodCall) -> bool {
        // (text between receiver and the closure body, text after it); `{P}` is the closure's pattern
        let two = name == "map_or" || name == "map_or_else";
        let (pre, mid, post): (&str, &str, &str) = match name {
            "ok_or_else" => ("(match (", ") { Some(v__) => Ok(v__), None => Err(", ") })"),
            "map_err" => ("(match (", ") { Ok(v__) => Ok(v__), Err({P}) => Err(", ") })"),
            "map" => ("({ let (b__, k__) = (", ").p_br(); match b__ { Br::Go({P}) => k__.ok(", "), Br::Stop(r__) => k__.stop(r__) } })"),
            "and_then" => ("({ let (b__, k__) = (", ").p_br(); match b__ { Br::Go({P}) => (", "), Br::Stop(r__) => k__.stop(r__) } })"),
            "or_else" => ("({ let (b__, k__) = (", ").p_br(); match b__ { Br::Go(v__) => k__.ok(v__), Br::Stop({P}) => (", ") } })"),
            "unwrap_or_else" => ("({ let (b__, k__) = (", ").p_br(); match b__ { Br::Go(v__) => v__, Br::Stop({P}) => (", ") } })"),
            "is_some_and" => ("(match (", ") { Some({P}) => (", "), None => false })"),
            "is_none_or" => ("(match (", ") { Some({P}) => (", "), None => true })"),
            "is_ok_and" => ("(match (", ") { Ok({P}) => (", "), Err(_) => false })"),
            "is_err_and" => ("(match (", ") { Ok(_) => false, Err({P}) => (", ") })"),
            "filter" => ("(match (", ") { Some(v__) => { if ({ let {P} = &v__; ", " }) { Some(v__) } else { None } } None => None })"),
            "then" => ("(if (", ") { Some(", ") } else { None })"),
            "then_with" => ("(match (", ") { Ordering::Equal => (", "), o__ => o__ })"),
            "map_or" | "map_or_else" => ("({ let (b__, k__) = (", ").p_br(); match b__ { Br::Stop({Q}) => (", ") } })"),
            _ => return false,
        };
        if m.args.len() != if two { 2 } else { 1 } || is_iter_chain(&m.receiver) { return false; }
        let whole = rng(m);
        let recv = rng(&*m.receiver);
        let pat = |s: &Self, c: &syn::ExprClosure, by_ref: bool| -> Option<String> {
            if c.inputs.is_empty() { return Some("_".into()); }
            if c.inputs.len() != 1 { return None; }
            let p = match &c.inputs[0] { syn::Pat::Type(p) => &*p.pat, p => p };
            if by_ref { if let syn::Pat::Reference(p) = p { return Some(format!("{} = *", s.src(rng(&*p.pat)))); } }
            Some(s.src(rng(p)))
        };
        let last = m.args.last().unwrap();
        match last {
            syn::Expr::Closure(c) => {
                if contains_control(&c.body) { return false; }
                let Some(p) = pat(self, c, name == "filter") else { return false };
                let body = rng(&*c.body);
                let mut mid = mid.replace("let {P} = &v__", &if p.ends_with('*') { format!("let {p}(&v__)") } else { format!("let {p} = &v__") }).replace("{P}", &p);
                if two {
                    let d = &m.args[0];
                    let (dr, q, dc) = match d {
                        syn::Expr::Closure(dc) if name == "map_or_else" => { if contains_control(&dc.body) { return false; } let Some(q) = pat(self, dc, false) else { return false }; (rng(&*dc.body), q, Some(&*dc.body)) }
                        _ if name == "map_or" => (rng(d), "_".to_string(), None),
                        _ => return false,
                    };
                    mid = mid.replace("{Q}", &q);
                    self.c.ed.ins(recv.0, 1, pre);
                    self.c.ed.rep(recv.1, dr.0, mid);
                    self.c.ed.rep(dr.1, body.0, format!("), Br::Go({p}) => ("));
                    self.c.ed.rep(body.1, whole.1, post);
                    self.visit_expr(&m.receiver);
                    self.visit_expr(dc.unwrap_or(d));
                    self.visit_expr(&c.body);
                    return true;
                }
                self.c.ed.ins(recv.0, 1, pre);
                self.c.ed.rep(recv.1, body.0, mid);
                self.c.ed.rep(body.1, whole.1, post);
                self.visit_expr(&m.receiver);
                self.visit_expr(&c.body);
                true
            }
            syn::Expr::Path(f) if matches!(name, "map" | "and_then" | "map_err") => {
                let f = self.src(rng(f));
                self.c.ed.ins(recv.0, 1, pre);
                self.c.ed.rep(recv.1, whole.1, format!("{}{f}(x__){post}", mid.replace("{P}", "x__")));
                self.visit_expr(&m.receiver);
                true
            }
            _ => false,
        }
    }
}

/// method chains on iterators (their `map` and `filter` are not those of `Option` and `Result`)
fn is_iter_chain(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if ["iter", "chunks", "chunks_exact", "into_iter", "split", "encode_utf16", "utf16le_iter", "latin1_iter", "chars", "bytes", "windows", "iter_mut", "char_indices"].contains(&n.as_str()) { return true; }
            if ["map", "filter", "enumerate", "zip", "take", "skip", "rev", "by_ref", "step_by", "clone", "copied", "cloned", "peekable", "inspect", "take_while", "skip_while", "filter_map", "flat_map", "chain"].contains(&n.as_str()) { return is_iter_chain(&m.receiver); }
            false
        }
        syn::Expr::Call(c) => { let f = toks(&c.func); f.ends_with("decode_utf16") || f.ends_with("from_fn") || f.ends_with("successors") }
        syn::Expr::Range(_) => true,
        syn::Expr::Paren(p) => is_iter_chain(&p.expr),
        syn::Expr::Path(p) => p.path.get_ident().map_or(false, |i| i.to_string().contains("iter")),
        _ => false,
    }
}

fn contains_control(e: &syn::Expr) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true; }
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; }
        fn visit_macro(&mut self, m: &'ast syn::Macro) { if m.path.is_ident("iter_try") { self.0 = true; } }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn hash(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }

impl<'a> Ctx<'a> {
    fn bound_rewrite(&mut self, g: &syn::Generics) {
        // TI: Iterator<Item = u16>  ->  TI: PIter<Item = u16>
        struct V<'x>(&'x mut Edits);
        impl<'x, 'ast> Visit<'ast> for V<'x> {
            fn visit_trait_bound(&mut self, b: &'ast syn::TraitBound) {
                let l = b.path.segments.last().unwrap();
                if l.ident == "Iterator" { let r = rng(&l.ident); self.0.rep(r.0, r.1, "PIter"); }
            }
        }
        V(&mut self.ed).visit_generics(g);
    }

    fn func(&mut self, key: &str, attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, sig: &syn::Signature, block: &syn::Block, item_ty: Option<String>) {
        self.drop_attrs(attrs);
        let start = match vis { Some(syn::Visibility::Inherited) | None => rng(sig).0, Some(v) => rng(v).0 };
        if let Some(v) = vis { self.make_pub(v, rng(sig).0); }
        if let Some(c) = &sig.constness { let r = rng(c); self.ed.rep(r.0, r.1, ""); }
        let mut ext = self.external.contains(key);
        if key.starts_with("Clone for ") && key.ends_with("::clone") {
            // a clone is the same handle, in the same state
            let c = self.contracts.entry(key.to_string()).or_default();
            if c.spec.is_empty() { c.spec = "    ensures ret == *self, //[C05,C07,C12,C16]\n".into(); }
        }
        let contract = match self.contracts.get_mut(key) { Some(c) => { c.used = true; c.clone() } None => Contract::default() };
        let mut a = contract.attr.clone();
        if a.contains("external_body") { ext = true; } else if ext { a.push_str("#[verifier::external_body]\n"); }
        self.bound_rewrite(&sig.generics);
        let mut mutself = false;
        for i in &sig.inputs {
            if let syn::FnArg::Receiver(rc) = i {
                if rc.reference.is_none() { if let Some(m) = &rc.mutability { let r = rng(m); self.ed.rep(r.0, r.1, ""); mutself = true; } }
            }
            if let syn::FnArg::Typed(p) = i {
                if toks(&p.ty) == "B" { let r = rng(&*p.ty); self.ed.rep(r.0, r.1, "Data<B>"); } else { self.ty(&p.ty); }
            }
        }
        let open = rng(&block.brace_token.span.open()).0;
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let r = rng(&**t);
            self.ed.ins(r.0, 0, "(ret: ");
            // `Self::Item` in former Iterator impls
            if let Some(it) = &item_ty {
                let s = self.txt(r).replace("Self::Item", it);
                self.ed.rep(r.0, r.1, s);
            } else { self.ty(t); }
            self.ed.ins(r.1, 9, ")");
        }
        let mut twin = String::new();
        if !contract.graph.trim().is_empty() && !ext {
            // @graph: callers see a function of its arguments (`ret == EXPR`); the body is verified as NAME__impl
            let head = self.ed.apply(self.src, start, open);
            twin = format!("#[verifier::external_body] {head}\n{}        ret == ({}),\n{{ unimplemented!() }}\n", contract.spec, contract.graph.trim());
            let r = rng(&sig.ident);
            self.ed.rep(r.0, r.1, format!("{}__impl", sig.ident));
        }
        self.ed.ins(start, -9, format!("{twin}/*@FN {key}*/ {a}"));
        if !contract.spec.trim().is_empty() {
            let g = if ext && !contract.graph.trim().is_empty() { format!("        ret == ({}),\n", contract.graph.trim()) } else { String::new() };
            self.ed.ins(open, 0, format!("\n{}{g}", contract.spec));
        }
        if mutself { self.ed.ins(open + 1, -9, " let mut self__ = self;"); }
        if !contract.entry.trim().is_empty() { self.ed.ins(open + 1, 0, format!("\n{}", contract.entry)); }
        if !contract.tail.trim().is_empty() {
            if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() { let r = rng(e); self.ed.ins(r.0, 9, format!("{}\n", contract.tail)); }
            else { let e = rng(&block.brace_token.span.close()).0; self.ed.ins(e, -9, format!("\n{}", contract.tail)); }
        }
        let close = rng(&block.brace_token.span.close()).1;
        self.ed.ins(close, 9, "/*@END*/");
        self.fns.push((key.to_string(), self.file.clone(), hash(&format!("{}{}", toks(sig), toks(block)))));
        if ext {
            let b = rng(block);
            self.ed.rep(b.0 + 1, b.1 - 1, " unimplemented!() ");
            return;
        }
        let mut contract = contract;
        if let Some(i) = norm::counter(block) {
            for l in contract.loops.values_mut() { *l = l.replace("$i", &i); }
            for x in contract.inserts.iter_mut() { x.2 = x.2.replace("$i", &i); }
        }
        let mut v = BodyV { c: self, contract: contract.clone(), nloop: 0, nclosure: 0, open: 0, aliases: HashMap::new(), nfor: 0, mutself, key: key.to_string(), scope: vec![] };
        v.visit_signature_names(sig);
        v.visit_block(block);
        let (nloop, open) = (v.nloop, v.open);
        if open > 0 { v.c.open.push(format!("{key}\t{open}")); }
        let left: Vec<_> = v.contract.inserts.iter().filter(|x| (x.0 == "at" || x.0 == "after") && !x.1.is_empty()).map(|x| x.1.clone()).collect();
        for l in left { self.lost.push(format!("{key}: anchor {l:?} not found")); }
        for k in contract.loops.keys() { if *k >= nloop { self.lost.push(format!("{key}: loop {k} not found")); } }
    }
}

fn self_name(t: &syn::Type) -> String {
    match t { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), syn::Type::Reference(r) => format!("&{}", self_name(&r.elem)), _ => toks(t) }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src_dir = &args[1];
    let mut ctext = String::new();
    let mut cs: Vec<_> = std::fs::read_dir(&args[2]).unwrap().map(|e| e.unwrap().path()).collect();
    cs.sort();
    for c in cs { if c.extension().map(|e| e == "spec").unwrap_or(false) {
        // the specification items of every contract file form a module of their own
        writeln!(ctext, "@@item\n/*@MOD*/ pub use s_{0}::*; pub mod s_{0} {{ use super::*; /*@BU*/", c.file_stem().unwrap().to_string_lossy()).unwrap();
        ctext.push_str(&std::fs::read_to_string(c).unwrap());
        ctext.push_str("\n@@item\n} /*@ENDMOD*/\n");
    } }
    let (mut contracts, items) = parse_contracts(&ctext);
    let prelude = std::fs::read_to_string(&args[3]).unwrap();
    let mut external = HashSet::new();
    let mut i = 6;
    while i < args.len() { if args[i] == "--external" { external.insert(args[i + 1].clone()); i += 2; } else { i += 1; } }
    let mut alts = vec![];
    for (k, c) in &mut contracts {
        alts.push((k.clone(), c.alts.len()));
        if let Some(n) = args.windows(2).filter(|a| a[0] == "--alt").filter_map(|a| a[1].rsplit_once('=')).find(|(x, _)| x == k).and_then(|x| x.1.parse::<usize>().ok()) {
            if n == 0 || n > c.alts.len() { continue; }
            let a = c.alts[n - 1].clone();
            c.loops.extend(a.loops);
            c.closures.extend(a.closures);
            c.into.extend(a.into);
            if !a.inserts.is_empty() { c.inserts = a.inserts; }
            if !a.entry.is_empty() { c.entry = a.entry; }
            if !a.tail.is_empty() { c.tail = a.tail; }
            c.attr.push_str(&a.attr);
        }
    }

    let mut files: Vec<(String, File)> = vec![];
    let mut names: Vec<_> = std::fs::read_dir(src_dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "rs").unwrap_or(false)).collect();
    names.sort();
    for p in names { files.push((p.file_stem().unwrap().to_string_lossy().into_owned(), File { src: std::fs::read_to_string(&p).unwrap() })); }

    if let Some(i) = args.iter().position(|a| a == "--names") { norm::write_names(&files, &args[i + 1]); }
    let names = norm::read_names(&format!("{}/names.txt", args[2]));
    let mut inlined = norm::macros(&mut files);
    inlined.extend(norm::traits(&mut files, &names));
    inlined.extend(norm::unrename(&mut files, &names));
    inlined.extend(norm::chains(&mut files, &|k| contracts.get(k).map_or(false, |c| !c.loops.is_empty())));
    inlined.extend(inline::run(&mut files, &|k| contracts.contains_key(k)));
    inlined.extend(norm::chains(&mut files, &|k| contracts.get(k).map_or(false, |c| !c.loops.is_empty())));

    for (n, f) in &mut files { if n == "hive" { f.src = addr_twin(&f.src); } }

    // pass 1: headers, iterator types, struct fields
    let mut headers: HashMap<String, HeaderInfo> = HashMap::new();
    let mut header_order = vec![];
    let mut iter_types = HashSet::new();
    let mut parsed = vec![];
    for (n, f) in &files {
        let ast = match syn::parse_file(&f.src) { Ok(a) => a, Err(e) => { eprintln!("PARSE {n}: {e}"); std::process::exit(3) } };
        for it in &ast.items {
            match it {
                syn::Item::Struct(s) if derives(&s.attrs, "FromBytes") => {
                    let mut off = 0;
                    let mut fields = vec![];
                    for fd in &s.fields {
                        let t = toks(&fd.ty);
                        let sz = match type_size(&t) { Some(x) => x, None => { eprintln!("UNSUPPORTED header field type {t}"); std::process::exit(3) } };
                        fields.push((fd.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), t, off, sz));
                        off += sz;
                    }
                    header_order.push(s.ident.to_string());
                    headers.insert(s.ident.to_string(), HeaderInfo { fields, size: off });
                }
                syn::Item::Impl(im) => {
                    if let Some((_, tr, _)) = &im.trait_ { if tr.segments.last().unwrap().ident == "Iterator" { iter_types.insert(self_name(&im.self_ty)); } }
                }
                _ => {}
            }
        }
        parsed.push(ast);
    }

    let mut out = String::new();
    let mut fns = vec![];
    let mut lost = vec![];
    let mut opens = vec![];
    let mut traitfns = vec![];
    let mut notes = inlined;
    let mut gen_all = String::new();
    for ((n, f), ast) in files.iter().zip(&parsed) {
        let mut c = Ctx { src: &f.src, ed: Edits { list: vec![], n: 0 }, notes: vec![], contracts: &mut contracts, external: &external, iter_types: &iter_types, generated: String::new(), fns: vec![], lost: vec![], traitfns: vec![], open: vec![], names: &names, file: n.clone(), headers: &headers, muts: false };
        let mut keep: Vec<(usize, usize)> = vec![];
        for it in &ast.items {
            if let Some(r) = item(&mut c, it) { keep.push(r); }
        }
        writeln!(out, "// ---- src/{n}.rs ----\npub mod m_{n} {{ use super::*; /*@BU*/").unwrap();
        for (a, b) in keep {
            let t = c.ed.apply(&f.src, a, b);
            let t: String = t.lines().filter(|l| !l.trim_start().starts_with("///") && !l.trim_start().starts_with("//!")).map(|l| format!("{l}\n")).collect();
            out.push_str(&t);
        }
        writeln!(out, "}}\npub use self::m_{n}::*;").unwrap();
        gen_all.push_str(&c.generated);
        fns.extend(c.fns);
        lost.extend(c.lost);
        opens.extend(c.open);
        traitfns.extend(c.traitfns);
        notes.extend(c.notes);
    }
    for (k, c) in &contracts { if !c.used { lost.push(format!("{k}: function not found")); } }

    // generated layouts (T9)
    let mut lay = String::new();
    for h in &header_order {
        let hi = &headers[h];
        let fld = |t: &str, off: usize| -> String {
            match t {
                "U16<LittleEndian>" => format!("U16L {{ v: le16(b, {off}) }}"),
                "U32<LittleEndian>" => format!("U32L {{ v: le32(b, {off}) }}"),
                "I32<LittleEndian>" => format!("I32L {{ v: le_i32(b, {off}) }}"),
                "U64<LittleEndian>" => format!("U64L {{ v: le64(b, {off}) }}"),
                t if t.starts_with("[u8;") => format!("arr::<{}>(b.subrange({off}, {}))", t[4..].trim_end_matches(']'), off + type_size(t).unwrap()),
                _ => format!("opaque_field(b.subrange({off}, {}))", off + type_size(t).unwrap()),
            }
        };
        writeln!(lay, "impl Layout for {h} {{\n  open spec fn lsize() -> nat {{ {} }}", hi.size).unwrap();
        writeln!(lay, "  open spec fn parse(b: Seq<u8>) -> Self {{ {h} {{ {} }} }}", hi.fields.iter().map(|(n, t, o, _)| format!("{n}: {}", fld(t, *o))).collect::<Vec<_>>().join(", ")).unwrap();
        writeln!(lay, "  open spec fn written(o: Seq<u8>, v0: Self, v: Self, b: Seq<u8>) -> bool {{ b.len() == o.len() && v == Self::parse(b)\n{} }}\n}}",
            hi.fields.iter().map(|(n, _, o, s)| format!("    && (v.{n} == v0.{n} ==> forall|i: int| {o} <= i < {} ==> #[trigger] b[i] == o[i])\n", o + s)).collect::<String>()).unwrap();
        writeln!(lay, "impl<P> Ref<P, {h}> {{").unwrap();
        for (n, _, o, _) in &hi.fields {
            writeln!(lay, "  #[verifier::external_body] pub fn at_{n}(&self) -> (a: Addr) ensures a.pos() == self.pos() + {o} {{ unimplemented!() }}").unwrap();
        }
        writeln!(lay, "}}").unwrap();
    }

    let mut full = String::new();
    full.push_str(&prelude.replace("/*@LIB*/", &format!("\n{lay}\n// ======== generated ========\n{gen_all}\n// ======== contracts: specification items ========\n{items}\n// ======== extracted source ========\n{out}\n")));
    if let Some(l) = full.lines().find(|l| l.starts_with("broadcast use {axiom_range_obeys")).map(|l| l.to_string()) { full = full.replace("/*@BU*/", &l); }
    std::fs::write(&args[4], &full).unwrap();
    // map: fn ranges by line, tags by line
    let mut map = String::new();
    let mut cur: Option<(String, usize)> = None;
    for (ln, l) in full.lines().enumerate() {
        let mut rest = l;
        loop {
            let a = rest.find("/*@FN ");
            let e = rest.find("/*@END*/");
            match (a, e) {
                (Some(x), y) if y.is_none() || x < y.unwrap() => {
                    let t = &rest[x + 6..];
                    let z = t.find("*/").unwrap();
                    cur = Some((t[..z].to_string(), ln + 1));
                    rest = &t[z + 2..];
                }
                (_, Some(y)) => {
                    if let Some((k, s)) = cur.take() { writeln!(map, "FN\t{s}\t{}\t{k}", ln + 1).unwrap(); }
                    rest = &rest[y + 8..];
                }
                _ => break,
            }
        }
        if let Some(p) = l.find("//[") { if let Some(q) = l[p..].find(']') { writeln!(map, "TAG\t{}\t{}", ln + 1, &l[p + 3..p + q]).unwrap(); } }
    }
    for (k, n) in alts { if n > 0 { writeln!(map, "ALT\t{k}\t{n}").unwrap(); } }
    for (k, f, h) in fns { writeln!(map, "HASH\t{k}\t{f}\t{h:016x}\t{}", if contracts.get(&k).map(|c| !c.spec.trim().is_empty()).unwrap_or(false) { "contract" } else { "none" }).unwrap(); }
    for l in traitfns { writeln!(map, "TRAITFN\t{l}").unwrap(); }
    for l in opens { writeln!(map, "OPEN\t{l}").unwrap(); }
    for l in lost { writeln!(map, "LOST\t{l}").unwrap(); }
    for l in notes { writeln!(map, "NOTE\t{l}").unwrap(); }
    std::fs::write(&args[5], map).unwrap();
}

/// T15: `Hive::offset_of_field` is verified on addresses of fields: a second copy of it takes the model `Addr` of a field's
/// address; the casts of the field and of the base block to an integer become `p_usize`. The rest of the text is kept.
fn addr_twin(src: &str) -> String {
    let Ok(ast) = syn::parse_file(src) else { return src.to_string() };
    for it in &ast.items {
        let syn::Item::Impl(im) = it else { continue };
        if im.trait_.is_some() || self_name(&im.self_ty) != "Hive" { continue }
        for i in &im.items {
            let syn::ImplItem::Fn(f) = i else { continue };
            if f.sig.ident != "offset_of_field" { continue }
            let Some(syn::FnArg::Typed(a)) = f.sig.inputs.iter().nth(1) else { continue };
            let (p, t) = (toks(&a.pat), f.sig.generics.type_params().next().map(|t| t.ident.to_string()).unwrap_or("T".into()));
            let b = rng(&f.block);
            // squeezed text: the token sequence with single blanks
            let body = src[b.0..b.1].lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join(" ");
            let mut body = norm(&body).replace(" . ", ".").replace(" .", ".").replace("( ", "(").replace(" )", ")").replace(" :: ", "::").replace(" (", "(").replace("& ", "&").replace("core::ptr::", "ptr::").replace("ptr::addr_of!(*", "ptr::from_ref(").replace("<u8>()", "<()>()").replace("*const u8", "*const ()");
            let (fa, ba) = (format!("{p}.p_usize(&self.base_block)"), "Ref::p_usize(&self.base_block)".to_string());
            for x in [format!("({p} as *const {t}).cast::<()>()"), format!("({p} as *const {t} as *const ())"), format!("({p} as *const _ as *const ())"), format!("{p} as *const {t} as *const ()"), format!("{p} as *const _ as *const ()"), format!("{p} as *const {t}"), format!("ptr::from_ref({p}).cast::<()>()"), format!("ptr::from_ref({p}) as *const ()")] {
                body = body.replace(&format!("{x} as usize"), &fa).replace(&format!("{x}.addr()"), &fa);
            }
            for x in ["Ref::bytes(&self.base_block).as_ptr()"] { body = body.replace(&format!("{x} as usize"), &ba).replace(&format!("{x}.addr()"), &ba); }
            let twin = format!("fn offset_of_addr(&self, {p}: Addr) -> usize {body}");
            let e = rng(f).1;
            return format!("{} {} {}", &src[..e], twin, &src[e..]);
        }
    }
    src.to_string()
}
/// T11: a constant table of pairs of code units becomes an `exec static` with the contract `static table`
fn table(c: &mut Ctx, attrs: &[syn::Attribute], vis: &syn::Visibility, id: &syn::Ident, ty: &syn::Type, e: &syn::Expr, whole: (usize, usize)) -> Option<(usize, usize)> {
    let t = toks(ty);
    if !(t.starts_with("&[(u16,u16)") || t.starts_with("&'static[(u16,u16)") || t.starts_with("[(u16,u16)")) { return None; }
    c.drop_attrs(attrs);
    let k = c.contracts.get_mut("static table")?;
    k.used = true;
    let spec = k.spec.replace("$NAME", &id.to_string());
    let key = format!("static {id}");
    let er = rng(e);
    let lo = match vis { syn::Visibility::Inherited => whole.0, v => rng(v).0 };
    let tt = if t.starts_with('&') { format!("&'static {}", &c.txt(rng(ty))[1..].trim_start().trim_start_matches("'static")) } else { c.txt(rng(ty)).to_string() };
    let ext = if c.external.contains(&key) { "#[verifier::external_body] " } else { "" };
    c.ed.rep(lo, er.0, format!("/*@FN {key}*/ {ext}pub exec static {id}: {tt}\n{spec}{{ proof {{ reveal(tbl); }} "));
    c.ed.rep(er.1, whole.1, " }/*@END*/");
    c.fns.push((key, c.file.clone(), hash(&toks(e))));
    Some((lo, whole.1))
}

/// Returns the byte range to keep.
fn item(c: &mut Ctx, it: &syn::Item) -> Option<(usize, usize)> {
    match it {
        syn::Item::Use(_) | syn::Item::Mod(_) | syn::Item::ExternCrate(_) => None,
        syn::Item::Macro(m) => {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name == "bitflags" { gen_bitflags(c, &m.mac); }
            None
        }
        syn::Item::Static(s) => {
            if let Some(r) = table(c, &s.attrs, &s.vis, &s.ident, &s.ty, &s.expr, (rng(&s.static_token).0, rng(it).1)) { return Some(r); }
            c.notes.push(format!("static {} dropped", s.ident));
            None
        }
        syn::Item::Const(k) => {
            if let Some(r) = table(c, &k.attrs, &k.vis, &k.ident, &k.ty, &k.expr, (rng(&k.const_token).0, rng(it).1)) { return Some(r); } c.drop_attrs(&k.attrs); c.make_pub(&k.vis, rng(&k.const_token).0); c.ty(&k.ty); Some(rng(it)) }
        syn::Item::Type(t) => { c.drop_attrs(&t.attrs); Some(rng(it)) }
        syn::Item::Struct(s) => {
            c.drop_attrs(&s.attrs);
            c.make_pub(&s.vis, rng(&s.struct_token).0);
            for f in &s.fields {
                c.drop_attrs(&f.attrs);
                let at = match &f.ident { Some(i) => rng(i).0, None => rng(&f.ty).0 };
                c.make_pub(&f.vis, at);
                if toks(&f.ty) == "B" { let r = rng(&f.ty); c.ed.rep(r.0, r.1, "Data<B>"); } else { c.ty(&f.ty); }
            }
            gen_derives(c, &s.attrs, &s.ident.to_string(), &s.generics, Some(&s.fields));
            Some(rng(it))
        }
        syn::Item::Enum(e) => {
            let keep_repr = e.attrs.iter().any(|a| a.path().is_ident("repr"));
            c.drop_attrs(&e.attrs);
            c.make_pub(&e.vis, rng(&e.enum_token).0);
            let st = match &e.vis { syn::Visibility::Inherited => rng(&e.enum_token).0, v => rng(v).0 };
            let unit = e.variants.iter().all(|v| v.fields.is_empty());
            let mut a = String::new();
            if keep_repr { a.push_str("#[repr(u32)] "); }
            if unit && derives(&e.attrs, "Copy") { a.push_str("#[derive(Clone, Copy, PartialEq, Eq)] "); c.generated.push_str(&format!("unsafe impl Structural for {} {{}}\n", e.ident)); }
            else if unit { a.push_str("#[allow(dead_code)] "); }
            c.ed.ins(st, -5, a);
            for v in &e.variants { c.drop_attrs(&v.attrs); for f in &v.fields { c.ty(&f.ty); } }
            if derives(&e.attrs, "N") {
                let n = e.ident.to_string();
                let mut t = format!("impl {n} {{\n  pub open spec fn from_code(v: u32) -> Option<{n}> {{ ");
                let mut x = String::new();
                let mut next = 0u64;
                for v in &e.variants {
                    let d = match &v.discriminant { Some((_, d)) => toks(d).replace('_', ""), None => next.to_string() };
                    let val = if let Some(h) = d.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { d.parse().unwrap() };
                    next = val + 1;
                    let line = format!("if v == {val} {{ Some({n}::{}) }} else ", v.ident);
                    t.push_str(&line); x.push_str(&line);
                }
                t.push_str("{ None } }\n");
                t.push_str(&format!("  pub fn n(v: u32) -> (r: Option<{n}>) ensures r == Self::from_code(v) {{ {x} {{ None }} }}\n}}\n"));
                c.generated.push_str(&t);
            }
            if !unit { gen_derives_enum(c, e); }
            Some(rng(it))
        }
        syn::Item::Fn(f) => {
            if is_test(&f.attrs) { return None; }
            let key = f.sig.ident.to_string();
            c.func(&key, &f.attrs, Some(&f.vis), &f.sig, &f.block, None);
            Some(rng(it))
        }
        syn::Item::Impl(im) => {
            if im.trait_.is_none() && im.items.is_empty() { return None; }
            c.drop_attrs(&im.attrs);
            let sn = self_name(&im.self_ty);
            let whole = rng(it);
            let lo = rng(&im.impl_token).0;
            let mut item_ty: Option<String> = None;
            let mut keyp = sn.clone();
            let mut from_generics = String::new();
            if let Some((_, tr, forr)) = &im.trait_ {
                let tn = tr.segments.last().unwrap().ident.to_string();
                let r = (rng(tr).0, rng(forr).1);
                match tn.as_str() {
                    "ExactSizeIterator" => { gen_len(c, im, &sn); return None; }
                    "Display" => {
                        // T13: an inherent method that writes to a model of the formatter
                        c.ed.rep(r.0, r.1, "");
                        for i in &im.items { if let syn::ImplItem::Fn(f) = i {
                            if let Some(syn::FnArg::Typed(a)) = f.sig.inputs.iter().nth(1) { let t = rng(&*a.ty); c.ed.rep(t.0, t.1, "&mut Fmt"); }
                            if let syn::ReturnType::Type(_, t) = &f.sig.output { let t = rng(&**t); c.ed.rep(t.0, t.1, "FmtResult"); }
                        } }
                    }
                    "FusedIterator" | "Debug" => return None,
                    "Eq" => { let r0 = rng(it); return Some((rng(&im.impl_token).0, r0.1)); },
                    "Iterator" => {
                        c.ed.rep(r.0, r.1, "");
                        for i in &im.items { if let syn::ImplItem::Type(t) = i { item_ty = Some(c.txt(rng(&t.ty)).replace("String", "PStr")); let rr = rng(t); c.ed.rep(rr.0, rr.1, ""); } }
                        gen_iter_defaults(c, im, &sn, item_ty.as_ref().unwrap());
                    }
                    "From" => {
                        c.ed.rep(r.0, r.1, "");
                        let g = rng(&im.generics);
                        if !im.generics.params.is_empty() { from_generics = c.txt(g).to_string(); c.ed.rep(g.0, g.1, ""); }
                        // `x.into()` is `Y::from(x)`
                        if let syn::PathArguments::AngleBracketed(a) = &tr.segments.last().unwrap().arguments { if let Some(syn::GenericArgument::Type(x)) = a.args.first() {
                            let (y, x, (_, ga, w)) = (c.txt(rng(&im.self_ty)).to_string(), c.txt(rng(x)).to_string(), generics_text(c, &im.generics));
                            let f = format!("{}::from{}", sn, if ga.is_empty() { String::new() } else { format!("::{ga}") });
                            c.generated.push_str(&format!("impl{from_generics} PInto<{y}> for {x} {w} {{ open spec fn into_req(self) -> bool {{ call_requires({f}, (self,)) }} open spec fn into_ens(self, r: {y}) -> bool {{ call_ensures({f}, (self,), r) }} fn p_into(self) -> (r: {y}) {{ {sn}::from(self) }} }}\n"));
                        } }
                    }
                    "Deref" => { keyp = format!("Deref for {sn}"); }
                    _ => { keyp = format!("{} for {sn}", toks(tr)); }
                }
            }
            for i in &im.items {
                match i {
                    syn::ImplItem::Fn(f) => {
                        let name = f.sig.ident.to_string();
                        if from_generics.is_empty() { } else { c.ed.ins(rng(&f.sig.ident).1, 0, from_generics.clone()); }
                        let is_trait_impl = im.trait_.is_some() && c.txt(whole).len() > 0 && keyp.contains(" for ");
                        let key = format!("{keyp}::{name}");
                        if im.trait_.is_some() { c.traitfns.push(key.clone()); }
                        if is_trait_impl { c.func(&key, &f.attrs, None, &f.sig, &f.block, None); }
                        else { c.func(&key, &f.attrs, Some(&f.vis), &f.sig, &f.block, item_ty.clone()); }
                    }
                    _ => {}
                }
            }
            Some((lo, whole.1))
        }
        _ => { c.notes.push(format!("item dropped: {}", toks(it).chars().take(60).collect::<String>())); None }
    }
}

fn generics_text(c: &Ctx, g: &syn::Generics) -> (String, String, String) {
    // (params, args, where)
    let p: Vec<String> = g.params.iter().map(|p| c.txt(rng(p)).to_string()).collect();
    let a: Vec<String> = g.params.iter().map(|p| match p { syn::GenericParam::Lifetime(l) => l.lifetime.to_string(), syn::GenericParam::Type(t) => t.ident.to_string(), syn::GenericParam::Const(k) => k.ident.to_string() }).collect();
    let w = g.where_clause.as_ref().map(|w| c.txt(rng(w)).to_string()).unwrap_or_default();
    (if p.is_empty() { String::new() } else { format!("<{}>", p.join(", ")) }, if a.is_empty() { String::new() } else { format!("<{}>", a.join(", ")) }, w)
}

fn gen_derives(c: &mut Ctx, attrs: &[syn::Attribute], name: &str, g: &syn::Generics, fields: Option<&syn::Fields>) {
    let (p, a, w) = generics_text(c, g);
    let fs: Vec<String> = fields.map(|f| f.iter().enumerate().map(|(i, x)| x.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string())).collect()).unwrap_or_default();
    if derives(attrs, "Clone") && !derives(attrs, "FromBytes") {
        let body = fs.iter().map(|f| format!("{f}: self.{f}.clone()")).collect::<Vec<_>>().join(", ");
        // Clone of core::result::Result has no contract in vstd: derived Clone is taken as the identity
        let (ext, body) = if fields.map_or(false, |fs| fs.iter().any(|f| c.txt(rng(&f.ty)).contains("Result"))) { ("#[verifier::external_body] ", "unimplemented!()".to_string()) } else { ("", format!("{name} {{ {body} }}")) };
        c.generated.push_str(&format!("impl{p} Clone for {name}{a} {w} {{ {ext}fn clone(&self) -> (ret: Self) ensures ret == *self {{ {body} }} }}\n"));
    }
    if derives(attrs, "PartialEq") {
        let sp = fs.iter().map(|f| format!("self.{f} == other.{f}")).collect::<Vec<_>>().join(" && ");
        c.generated.push_str(&format!("impl{p} vstd::std_specs::cmp::PartialEqSpecImpl for {name}{a} {w} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ {sp} }} }}\nimpl{p} PartialEq for {name}{a} {w} {{ fn eq(&self, other: &Self) -> (ret: bool) {{ {sp} }} }}\n"));
    }
}
fn gen_derives_enum(c: &mut Ctx, e: &syn::ItemEnum) {
    if derives(&e.attrs, "Eq") && !derives(&e.attrs, "PartialEq") {
        let (p, a, w) = generics_text(c, &e.generics);
        c.generated.push_str(&format!("impl{p} Eq for {}{a} {w} {{ }}\n", e.ident));
    }
    if derives(&e.attrs, "Clone") {
        let (p, a, w) = generics_text(c, &e.generics);
        let n = e.ident.to_string();
        let mut arms = String::new();
        for v in &e.variants {
            let k = v.fields.len();
            let named = matches!(v.fields, syn::Fields::Named(_));
            if named {
                c.generated.push_str(&format!("impl{p} Clone for {n}{a} {w} {{ #[verifier::external_body] fn clone(&self) -> (ret: Self) ensures ret == *self {{ unimplemented!() }} }}\n"));
                return;
            }
            let xs: Vec<String> = (0..k).map(|i| format!("x{i}")).collect();
            let ys: Vec<String> = (0..k).map(|i| format!("x{i}.clone()")).collect();
            if k == 0 { arms.push_str(&format!("{n}::{} => {n}::{}, ", v.ident, v.ident)); }
            else {
                let is_ref = v.fields.iter().all(|f| matches!(f.ty, syn::Type::Reference(_)));
                arms.push_str(&format!("{n}::{}({}) => {n}::{}({}), ", v.ident, xs.join(", "), v.ident, if is_ref { xs.iter().map(|x| format!("*{x}")).collect::<Vec<_>>().join(", ") } else { ys.join(", ") }));
            }
        }
        c.generated.push_str(&format!("impl{p} Clone for {n}{a} {w} {{ fn clone(&self) -> (ret: Self) ensures ret == *self {{ match self {{ {arms} }} }} }}\n"));
    }
}

fn impl_head(c: &Ctx, im: &syn::ItemImpl) -> (String, String, String) {
    let (p, _, w) = generics_text(c, &im.generics);
    (p, c.txt(rng(&*im.self_ty)).to_string(), w)
}

/// std's default `ExactSizeIterator::len`
fn gen_len(c: &mut Ctx, im: &syn::ItemImpl, sn: &str) {
    let (p, t, w) = impl_head(c, im);
    let key = format!("{sn}::len");
    let spec = c.contracts.get_mut(&key).map(|k| { k.used = true; k.spec.clone() }).unwrap_or_default();
    let ext = if c.external.contains(&key) { "#[verifier::external_body]" } else { "" };
    c.generated.push_str(&format!("impl{p} {t} {w} {{\n/*@FN {key}*/ {ext} pub fn len(&self) -> (ret: usize)\n{spec}\n{{ let (lower, upper) = self.size_hint(); exec_assert(upper == Some(lower)); lower }} /*@END*/ }}\n"));
}

/// std's default `count`, `last`, `nth`, `size_hint` for iterators that do not override them
fn gen_iter_defaults(c: &mut Ctx, im: &syn::ItemImpl, sn: &str, item: &str) {
    let have: HashSet<String> = im.items.iter().filter_map(|i| if let syn::ImplItem::Fn(f) = i { Some(f.sig.ident.to_string()) } else { None }).collect();
    let (p, t, w) = impl_head(c, im);
    let mut s = format!("impl{p} {t} {w} {{\n");
    let mut one = |c: &mut Ctx, name: &str, sig: &str, body: &str| {
        if have.contains(name) { return; }
        let key = format!("{sn}::{name}");
        let Some(k) = c.contracts.get_mut(&key) else { return };
        k.used = true;
        let (spec, l0, entry) = (k.spec.clone(), k.loops.get(&0).cloned().unwrap_or_default(), k.entry.clone());
        let le = k.inserts.iter().find(|x| x.0 == "loopend").map(|x| x.2.clone()).unwrap_or_default();
        let ls = k.inserts.iter().find(|x| x.0 == "loopstart").map(|x| x.2.clone()).unwrap_or_default();
        let attr = k.attr.clone();
        let ext = if c.external.contains(&key) { "#[verifier::external_body]" } else { "" };
        let body = body.replace("/*L0*/", &l0).replace("/*LE*/", &le).replace("/*LS*/", &ls);
        s.push_str(&format!("/*@FN {key}*/ {ext} {attr} pub fn {sig}\n{spec}\n{{ {entry} {body} }} /*@END*/\n"));
    };
    one(c, "count", "count(self) -> (ret: usize)", "let mut it__ = self; let mut n__: usize = 0; loop \n/*L0*/\n { /*LS*/ match it__.next() { Some(_) => { n__ = n__ + 1; } None => break } /*LE*/ } n__");
    one(c, "last", &format!("last(self) -> (ret: Option<{item}>)"), "let mut it__ = self; let mut l__ = None; loop \n/*L0*/\n { /*LS*/ match it__.next() { Some(x__) => { l__ = Some(x__); } None => break } /*LE*/ } l__");
    one(c, "nth", &format!("nth(&mut self, n: usize) -> (ret: Option<{item}>)"), "let mut n__ = n; loop \n/*L0*/\n { /*LS*/ if n__ == 0 { return self.next(); } if self.next().is_none() { return None; } n__ = n__ - 1; /*LE*/ }");
    one(c, "size_hint", "size_hint(&self) -> (ret: (usize, Option<usize>))", "(0, None)");
    s.push_str("}\n");
    c.generated.push_str(&s);
}

fn gen_bitflags(c: &mut Ctx, m: &syn::Macro) {
    // struct NAME: u16 { const A = 0x1; ... }
    let t = m.tokens.to_string();
    // drop doc attributes
    let mut name = String::new();
    let mut consts = vec![];
    let w: Vec<&str> = t.split_whitespace().collect();
    let mut i = 0;
    while i < w.len() {
        if w[i] == "struct" { name = w[i + 1].trim_end_matches(':').to_string(); }
        if w[i] == "const" && i + 3 < w.len() && w[i + 2] == "=" { consts.push((w[i + 1].to_string(), w[i + 3].trim_end_matches(';').to_string())); }
        i += 1;
    }
    let val = |s: &str| -> u32 { let s = s.replace('_', ""); if let Some(h) = s.strip_prefix("0x") { u32::from_str_radix(h, 16).unwrap_or(0) } else { s.parse().unwrap_or(0) } };
    let all = consts.iter().fold(0, |a, x| a | val(&x.1));
    let mut s = format!("pub struct {name} {{ pub bits: u16 }}\nimpl {name} {{\n");
    for (n, v) in &consts { s.push_str(&format!("  pub const {n}: {name} = {name} {{ bits: {}u16 }};\n", val(v))); }
    let each: String = consts.iter().map(|x| { let v = val(&x.1); format!(", (r.bits & {v}u16 == {v}u16) == (b & {v}u16 == {v}u16)") }).collect();
    let prf: String = consts.iter().map(|x| { let v = val(&x.1); format!(" assert(((b & {all}u16) & {v}u16 == {v}u16) == (b & {v}u16 == {v}u16)) by (bit_vector);") }).collect();
    s.push_str(&format!("  pub fn from_bits_truncate(b: u16) -> (r: Self) ensures r.bits == b & {all}u16{each} {{ proof {{{prf} }} {name} {{ bits: b & {all}u16 }} }}\n"));
    s.push_str("  pub fn contains(&self, f: Self) -> (r: bool) ensures r == (self.bits & f.bits == f.bits) { self.bits & f.bits == f.bits }\n}\n");
    c.generated.push_str(&s);
}

//! T16: iterator chains under `for` and `fold` become the `for` loops core defines them to be.
//! T17: a private function, a field, a parameter or a local variable that only changed its name gets its old name back,
//! so that the contracts find it (contracts/names.txt has the names the contracts were written for). A renaming is only
//! undone where the old name is free and the new one was unknown, so the program is the same up to the name.
use super::*;
use std::collections::BTreeSet;

/// every function of a file outside of tests: key, signature, body, whole range
pub fn functions(file: &syn::File) -> Vec<(String, syn::Signature, syn::Block, (usize, usize))> {
    let mut v = vec![];
    for it in &file.items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) => v.push((f.sig.ident.to_string(), f.sig.clone(), (*f.block).clone(), rng(it))),
            syn::Item::Impl(im) => {
                let t = self_name(&im.self_ty);
                let head = match &im.trait_ { Some((_, tr, _)) => format!("{} for {t}", toks(tr)), None => t };
                for i in &im.items { if let syn::ImplItem::Fn(f) = i { v.push((format!("{head}::{}", f.sig.ident), f.sig.clone(), f.block.clone(), rng(i))); } }
            }
            _ => {}
        }
    }
    v
}
fn structs(file: &syn::File) -> Vec<(String, Vec<(String, String)>)> {
    file.items.iter().filter_map(|it| match it {
        syn::Item::Struct(s) => Some((s.ident.to_string(), s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| (i.to_string(), toks(&f.ty)))).collect())),
        _ => None,
    }).collect()
}
fn idents(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for x in t { match x { proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => idents(g.stream(), out), _ => {} } }
}
fn all_idents(s: &str) -> BTreeSet<String> { let mut o = BTreeSet::new(); if let Ok(t) = s.parse::<proc_macro2::TokenStream>() { idents(t, &mut o); } o }
/// the names a function binds, in order
fn bindings(sig: &syn::Signature, block: &syn::Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            let n = p.ident.to_string();
            if n != "self" && !n.starts_with(|c: char| c.is_uppercase()) { self.0.push(n); }
            syn::visit::visit_pat_ident(self, p);
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) { if let Ok(e) = m.parse_body::<syn::Expr>() { self.visit_expr(&e); } }
    }
    let mut v = V(vec![]);
    v.visit_signature(sig);
    v.visit_block(block);
    v.0
}
fn shape(sig: &syn::Signature) -> String { let mut s = sig.clone(); s.ident = syn::Ident::new("f", proc_macro2::Span::call_site()); toks(&s) }

pub fn write_names(files: &[(String, File)], path: &str) {
    let mut o = String::new();
    let mut ids = BTreeSet::new();
    for (n, f) in files {
        let Ok(ast) = syn::parse_file(&f.src) else { continue };
        for (k, sig, block, _) in functions(&ast) { writeln!(o, "FN\t{k}\t{n}\t{}\t{}", bindings(&sig, &block).join(","), shape(&sig)).unwrap(); }
        for (k, fs) in structs(&ast) { writeln!(o, "ST\t{k}\t{}", fs.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join("|")).unwrap(); }
        ids.extend(all_idents(&f.src));
    }
    writeln!(o, "ID\t{}", ids.into_iter().collect::<Vec<_>>().join(" ")).unwrap();
    std::fs::write(path, o).unwrap();
}

#[derive(Default)]
pub struct Names { fns: BTreeMap<String, (String, Vec<String>, String)>, sts: BTreeMap<String, Vec<(String, String)>>, ids: BTreeSet<String> }
pub fn read_names(path: &str) -> Names {
    let mut n = Names::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let p: Vec<&str> = l.split('\t').collect();
        match p[0] {
            "FN" => { n.fns.insert(p[1].into(), (p[2].into(), p[3].split(',').filter(|x| !x.is_empty()).map(|x| x.into()).collect(), p[4].into())); }
            "ST" => { n.sts.insert(p[1].into(), p[2].split('|').filter_map(|x| x.split_once(':')).map(|(a, b)| (a.into(), b.into())).collect()); }
            "ID" => n.ids = p[1].split(' ').map(|x| x.into()).collect(),
            _ => {}
        }
    }
    n
}

/// replaces the identifier everywhere (token positions)
fn replace_ident(src: &str, from: &str, to: &str) -> String {
    fn walk(t: proc_macro2::TokenStream, from: &str, v: &mut Vec<(usize, usize)>) {
        for x in t { match x { proc_macro2::TokenTree::Ident(i) => if i == from { let r = i.span().byte_range(); v.push((r.start, r.end)); }, proc_macro2::TokenTree::Group(g) => walk(g.stream(), from, v), _ => {} } }
    }
    let Ok(t) = src.parse::<proc_macro2::TokenStream>() else { return src.to_string() };
    let mut v = vec![];
    walk(t, from, &mut v);
    v.sort();
    let mut s = src.to_string();
    for (a, b) in v.into_iter().rev() { s.replace_range(a..b, to); }
    s
}

/// occurrences of local names in a function; None: one of them cannot be renamed safely
struct Occ<'x> { map: &'x BTreeMap<String, String>, v: Vec<(usize, usize, String)>, bad: bool }
impl<'x, 'ast> Visit<'ast> for Occ<'x> {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        if let Some(t) = self.map.get(&p.ident.to_string()) { let r = rng(&p.ident); self.v.push((r.0, r.1, t.clone())); }
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(i) = p.path.get_ident() { if let Some(t) = self.map.get(&i.to_string()) { let r = rng(i); self.v.push((r.0, r.1, t.clone())); } }
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
        if f.colon_token.is_none() {
            if let syn::Member::Named(n) = &f.member { if let Some(t) = self.map.get(&n.to_string()) { let r = rng(n); self.v.push((r.0, r.1, format!("{n}: {t}"))); } }
            return;
        }
        syn::visit::visit_field_value(self, f);
    }
    fn visit_field_pat(&mut self, f: &'ast syn::FieldPat) {
        if f.colon_token.is_none() {
            if let syn::Member::Named(n) = &f.member { if let Some(t) = self.map.get(&n.to_string()) {
                match &*f.pat { syn::Pat::Ident(p) if p.by_ref.is_none() && p.mutability.is_none() => { let r = rng(n); self.v.push((r.0, r.1, format!("{n}: {t}"))); } _ => self.bad = true }
            } }
            return;
        }
        syn::visit::visit_field_pat(self, f);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if let Ok(e) = m.parse_body::<syn::Expr>() { self.visit_expr(&e); return; }
        let mut o = BTreeSet::new();
        idents(m.tokens.clone(), &mut o);
        if self.map.keys().any(|k| o.contains(k)) { self.bad = true; }
        if m.tokens.to_string().contains('{') && m.tokens.to_string().contains('"') { self.bad = true; }
    }
}

/// T17
pub fn unrename(files: &mut Vec<(String, File)>, names: &Names) -> Vec<String> {
    let mut notes = vec![];
    if names.fns.is_empty() { return notes; }
    let parse = |files: &Vec<(String, File)>| -> Option<Vec<syn::File>> { files.iter().map(|f| syn::parse_file(&f.1.src).ok()).collect() };
    // functions and fields
    let Some(asts) = parse(files) else { return notes };
    let mut cur = BTreeSet::new();
    for f in files.iter() { cur.extend(all_idents(&f.1.src)); }
    let mut sub: Vec<(String, String)> = vec![];
    let have: BTreeMap<String, (String, String)> = asts.iter().zip(files.iter()).flat_map(|(a, f)| functions(a).into_iter().map(|(k, s, _, _)| (k, (f.0.clone(), shape(&s)))).collect::<Vec<_>>()).collect();
    let gone: Vec<_> = names.fns.iter().filter(|(k, _)| !have.contains_key(*k)).collect();
    for (k, (file, _, sh)) in &gone {
        let (t, old) = k.rsplit_once("::").unwrap_or(("", k));
        let cand: Vec<&String> = have.iter().filter(|(n, (f, s))| !names.fns.contains_key(*n) && f == file && s == sh && n.rsplit_once("::").unwrap_or(("", n)).0 == t).map(|x| x.0).collect();
        if cand.len() != 1 || gone.iter().filter(|g| g.1.2 == *sh && g.0.rsplit_once("::").unwrap_or(("", g.0)).0 == t).count() != 1 { continue; }
        let new = cand[0].rsplit("::").next().unwrap();
        if cur.contains(old) || names.ids.contains(new) { continue; }
        sub.push((new.to_string(), old.to_string()));
    }
    for a in &asts { for (s, fs) in structs(a) {
        let Some(b) = names.sts.get(&s) else { continue };
        if b.len() != fs.len() || b.iter().zip(&fs).any(|(x, y)| x.1 != y.1) { continue; }
        for (x, y) in b.iter().zip(&fs) {
            if x.0 == y.0 || names.ids.contains(&y.0) || fs.iter().any(|f| f.0 == x.0) { continue; }
            if !sub.contains(&(y.0.clone(), x.0.clone())) { sub.push((y.0.clone(), x.0.clone())); }
        }
    } }
    for (new, old) in sub {
        // no function may use both names
        let both = asts.iter().zip(files.iter()).any(|(a, f)| functions(a).iter().any(|x| { let o = all_idents(&f.1.src[x.3.0..x.3.1]); o.contains(&new) && o.contains(&old) }));
        if both { continue; }
        for f in files.iter_mut() { if f.1.src.contains(&new) { f.1.src = replace_ident(&f.1.src, &new, &old); } }
        notes.push(format!("T17: `{new}` is the renamed `{old}`"));
    }
    // parameters and locals
    let Some(asts) = parse(files) else { return notes };
    for (a, f) in asts.iter().zip(files.iter_mut()) {
        let mut ed: Vec<(usize, usize, String)> = vec![];
        for (k, sig, block, _) in functions(a) {
            let Some((_, old, _)) = names.fns.get(&k) else { continue };
            let new = bindings(&sig, &block);
            // all of them, or (after a change of the body) the parameters only
            let np = bindings(&sig, &syn::parse_quote!({})).len();
            let n = if old.len() == new.len() { new.len() } else { np.min(old.len()) };
            let mut map = BTreeMap::new();
            let mut ok = true;
            // the variables the function mentions
            let used = |x: &str| { let m: BTreeMap<String, String> = [(x.to_string(), String::new())].into(); let mut v = Occ { map: &m, v: vec![], bad: false }; v.visit_signature(&sig); v.visit_block(&block); v.bad || !v.v.is_empty() };
            for (o, x) in old.iter().zip(&new).take(n) {
                if o == x { continue; }
                if used(o) || old.contains(x) { ok = false; }
                if map.insert(x.clone(), o.clone()).map_or(false, |z| z != *o) { ok = false; }
            }
            let tos: BTreeSet<_> = map.values().collect();
            if !ok || map.is_empty() || tos.len() != map.len() { continue; }
            let mut v = Occ { map: &map, v: vec![], bad: false };
            v.visit_signature(&sig);
            v.visit_block(&block);
            if v.bad { continue; }
            notes.push(format!("T17: {k}: {}", map.iter().map(|(a, b)| format!("`{a}` is the renamed `{b}`")).collect::<Vec<_>>().join(", ")));
            ed.extend(v.v);
        }
        ed.sort();
        ed.dedup();
        for (a, b, t) in ed.into_iter().rev() { f.1.src.replace_range(a..b, &t); }
    }
    notes
}

/// T16: one rewriting step
struct Chain<'x> { src: &'x str, out: Option<((usize, usize), String, &'static str)>, loops: bool }
fn one(c: &syn::ExprClosure) -> Option<&syn::Pat> { if c.inputs.len() == 1 { Some(match &c.inputs[0] { syn::Pat::Type(t) => &*t.pat, p => p }) } else { None } }
fn of<T: quote::ToTokens>(t: &T) -> BTreeSet<String> { let mut o = BTreeSet::new(); idents(quote::quote!(#t), &mut o); o }
fn clash<A: quote::ToTokens, B: quote::ToTokens>(a: &A, b: &B) -> bool { let o = of(b); of(a).iter().any(|x| o.contains(x)) }
fn pat_name(p: &syn::Pat) -> Option<&syn::PatIdent> { match p { syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i), syn::Pat::Type(t) => pat_name(&t.pat), _ => None } }
impl<'x> Chain<'x> {
    fn t<T: Spanned>(&self, s: &T) -> &'x str { let r = rng(s); &self.src[r.0..r.1] }
    fn put<T: Spanned>(&mut self, at: &T, t: String, what: &'static str) { if self.out.is_none() { self.out = Some((rng(at), t, what)); } }
    /// `E.fold(I, |A, X| B)`
    fn fold(&mut self, m: &syn::ExprMethodCall, whole: (usize, usize), q: &str) {
        if m.args.len() != 2 || !is_iter_chain(&m.receiver) { return; }
        let syn::Expr::Closure(c) = &m.args[1] else { return };
        if c.inputs.len() != 2 || contains_control(&c.body) { return; }
        let Some(a) = pat_name(&c.inputs[0]) else { return };
        let x = match &c.inputs[1] { syn::Pat::Type(t) => &*t.pat, p => p };
        if clash(&a.ident, &m.receiver) || clash(&a.ident, x) { return; }
        let t = format!("{{ let mut {0} = {1}; for {2} in {3} {{ {0} = {4}{q}; }} {0} }}", a.ident, self.t(&m.args[0]), self.t(x), self.t(&*m.receiver), self.t(&*c.body));
        if self.out.is_none() { self.out = Some((whole, t, "fold")); }
    }
}
impl<'x> Chain<'x> {
    /// `R.f(|P| B)` with a closure that has no control flow of its own
    fn each(&self, m: &syn::ExprMethodCall) -> Option<(&'x str, &'x str, String)> {
        if m.args.len() != 1 { return None; }
        let syn::Expr::Closure(c) = &m.args[0] else { return None };
        if contains_control(&c.body) { return None; }
        Some((self.t(one(c)?), self.t(&*m.receiver), self.t(&*c.body).to_string()))
    }
    /// an expression whose value the function returns
    fn tail(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Block(b) => self.tail_block(&b.block),
            syn::Expr::If(i) => { self.tail_block(&i.then_branch); if let Some((_, e)) = &i.else_branch { self.tail(e); } }
            syn::Expr::Match(m) => for a in &m.arms { self.tail(&a.body) },
            syn::Expr::Return(r) => if let Some(e) = &r.expr { self.tail(e) },
            syn::Expr::MethodCall(m) if m.method == "try_for_each" => {
                if let Some((p, r, b)) = self.each(m) { let t = format!("{{ for {p} in {r} {{ {b}?; }} Ok(()) }}"); self.put(e, t, "try_for_each"); }
            }
            syn::Expr::MethodCall(m) if m.method == "find_map" && m.args.len() == 1 => {
                // the closure may leave early with iter_try! only: that is an element found
                struct V(bool);
                impl<'ast> Visit<'ast> for V {
                    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true; }
                    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; }
                    fn visit_macro(&mut self, m: &'ast syn::Macro) { if let Ok(e) = m.parse_body::<syn::Expr>() { self.visit_expr(&e); } }
                }
                let syn::Expr::Closure(c) = &m.args[0] else { return };
                let mut v = V(false);
                v.visit_expr(&c.body);
                let Some(p) = one(c) else { return };
                if v.0 { return; }
                let t = match then(&c.body) {
                    Some((pre, cond, val)) => format!("{{ for {} in {} {{ {} if {} {{ return Some({}); }} }} None }}", self.t(p), self.t(&*m.receiver), pre.iter().map(|s| self.t(*s)).collect::<Vec<_>>().join(" "), self.t(cond), self.t(val)),
                    None => format!("{{ for {} in {} {{ let found__ = {}; if found__.is_some() {{ return found__; }} }} None }}", self.t(p), self.t(&*m.receiver), self.t(&*c.body)),
                };
                self.put(e, t, "find_map");
            }
            _ => {}
        }
    }
    fn tail_block(&mut self, b: &syn::Block) {
        for (i, s) in b.stmts.iter().enumerate() { if let syn::Stmt::Local(l) = s { self.loop_value(l, &b.stmts[i + 1..]); } }
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() { self.tail(e); }
    }
    /// let V = loop { .. break E .. }; REST   =>   loop { .. { let V = E; return { REST } } .. }
    fn loop_value(&mut self, l: &syn::Local, rest: &[syn::Stmt]) {
        let (Some(init), Some(syn::Stmt::Expr(last, None))) = (&l.init, rest.last()) else { return };
        let syn::Expr::Loop(lp) = &*init.expr else { return };
        struct V(Vec<((usize, usize), (usize, usize))>, bool);
        impl<'ast> Visit<'ast> for V {
            fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) { if b.label.is_some() { self.1 = true; } match &b.expr { Some(e) => self.0.push((rng(b), rng(&**e))), None => self.1 = true } }
            fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) { }
            fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) { }
            fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) { }
            fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) { }
            fn visit_macro(&mut self, m: &'ast syn::Macro) { if m.tokens.to_string().contains("break") { self.1 = true; } }
        }
        let mut v = V(vec![], false);
        v.visit_block(&lp.body);
        if lp.label.is_some() || v.1 || v.0.is_empty() { return; }
        let (a, z) = rng(lp);
        let end = rng(last).1;
        let after = &self.src[rng(&rest[0]).0..end];
        let mut body = self.src[a..z].to_string();
        for (b, e) in v.0.iter().rev() { body.replace_range(b.0 - a..b.1 - a, &format!("{{ let {} = {}; return {{ {after} }}; }}", self.t(&l.pat), &self.src[e.0..e.1])); }
        if self.out.is_none() { self.out = Some(((rng(l).0, end), body, "loop with a value")); }
    }
    /// the bindings of a slice pattern `[a, b, rest @ ..]` against the place X: length test, bindings
    fn slice_pat(&self, p: &syn::Pat, x: &syn::Expr) -> Option<(String, String)> {
        let syn::Pat::Slice(sp) = p else { return None };
        fn place(e: &syn::Expr) -> bool { match e { syn::Expr::Path(_) => true, syn::Expr::Field(f) => place(&f.base), _ => false } }
        if !place(x) { return None; }
        let x = self.t(x);
        let (mut n, mut lets, mut open) = (0, String::new(), false);
        for q in &sp.elems {
            if open { return None; }
            match q {
                syn::Pat::Rest(_) => open = true,
                syn::Pat::Ident(i) if i.subpat.as_ref().map_or(false, |s| matches!(&*s.1, syn::Pat::Rest(_))) => { open = true; lets += &format!("let {} = &{x}[{n}..]; ", i.ident); }
                q => { if let syn::Pat::Wild(_) = q {} else { lets += &format!("let {} = &{x}[{n}]; ", pat_name(q)?.ident); } n += 1; }
            }
        }
        Some((if open { format!("{x}.len() >= {n}") } else { format!("{x}.len() == {n}") }, lets))
    }
}
/// a closure body of the form `{ S.. COND.then(|| V) }`
fn then(e: &syn::Expr) -> Option<(Vec<&syn::Stmt>, &syn::Expr, &syn::Expr)> {
    let (pre, e): (Vec<&syn::Stmt>, &syn::Expr) = match e {
        syn::Expr::Block(b) => { let (l, r) = b.block.stmts.split_last()?; match l { syn::Stmt::Expr(e, None) => (r.iter().collect(), e), _ => return None } }
        e => (vec![], e),
    };
    let syn::Expr::MethodCall(m) = e else { return None };
    if m.args.len() != 1 { return None; }
    let v = if m.method == "then" { match &m.args[0] { syn::Expr::Closure(c) if c.inputs.is_empty() && !contains_control(&c.body) => &*c.body, _ => return None } } else if m.method == "then_some" && !contains_control(&m.args[0]) { &m.args[0] } else { return None };
    Some((pre, &m.receiver, v))
}
impl<'x, 'ast> Visit<'ast> for Chain<'x> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        syn::visit::visit_local(self, l);
        let Some(init) = &l.init else { return };
        // let [A, B, REST @ ..] = X else { D };
        if let Some((_, d)) = &init.diverge {
            if let Some((c, b)) = self.slice_pat(&l.pat, &init.expr) { let t = format!("if !({c}) {} {b}", self.t(&**d)); self.put(l, t, "slice pattern"); }
            return;
        }
    }
    fn visit_expr_if(&mut self, i: &'ast syn::ExprIf) {
        syn::visit::visit_expr_if(self, i);
        if let syn::Expr::Let(c) = &*i.cond {
            if let Some((cond, b)) = self.slice_pat(&c.pat, &c.expr) {
                let inner = { let r = rng(&i.then_branch); &self.src[r.0 + 1..r.1 - 1] };
                let els = i.else_branch.as_ref().map_or(String::new(), |e| format!(" else {}", self.t(&*e.1)));
                let t = format!("if {cond} {{ {b}{inner} }}{els}");
                self.put(i, t, "slice pattern");
            }
        }
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        syn::visit::visit_expr_while(self, w);
        let syn::Expr::Let(c) = &*w.cond else { return };
        let lab = w.label.as_ref().map(|l| format!("{} ", self.t(l))).unwrap_or_default();
        let inner = { let r = rng(&w.body); &self.src[r.0 + 1..r.1 - 1] };
        if let Some((cond, b)) = self.slice_pat(&c.pat, &c.expr) { let t = format!("{lab}while {cond} {{ {b}{inner} }}"); self.put(w, t, "slice pattern"); return; }
        // while let Some(P) = E.next().transpose()? { .. }
        let (syn::Pat::TupleStruct(p), syn::Expr::Try(q)) = (&*c.pat, &*c.expr) else { return };
        if !p.path.is_ident("Some") || p.elems.len() != 1 { return; }
        if let syn::Expr::MethodCall(m) = &*q.expr { if m.method == "transpose" && m.args.is_empty() {
            let t = format!("{lab}while let Some(item__) = {} {{ let {} = item__?;{inner} }}", self.t(&*m.receiver), self.t(&p.elems[0]));
            self.put(w, t, "transpose");
        } }
    }
    fn visit_item_mod(&mut self, _: &'ast syn::ItemMod) {}
    fn visit_macro(&mut self, m: &'ast syn::Macro) { if let Ok(e) = m.parse_body::<syn::Expr>() { self.visit_expr(&e); } }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        syn::visit::visit_block(self, b);
        if self.out.is_some() || self.loops { return; }
        // let mut V = String::new(); for P in E { V.push(X); } V   =>   E.map(|P| X).collect()
        let n = b.stmts.len();
        if n < 3 { return; }
        let (syn::Stmt::Local(l), syn::Stmt::Expr(syn::Expr::ForLoop(f), _), syn::Stmt::Expr(syn::Expr::Path(v), None)) = (&b.stmts[n - 3], &b.stmts[n - 2], &b.stmts[n - 1]) else { return };
        let (Some(i), Some(init)) = (pat_name(&l.pat), &l.init) else { return };
        if i.mutability.is_none() || !v.path.is_ident(&i.ident) || toks(&init.expr) != "String::new()" || f.body.stmts.len() != 1 || f.label.is_some() { return; }
        let syn::Stmt::Expr(syn::Expr::MethodCall(m), _) = &f.body.stmts[0] else { return };
        if m.method != "push" || m.args.len() != 1 || toks(&m.receiver) != i.ident.to_string() || contains_control(&m.args[0]) || clash(&i.ident, &f.expr) || clash(&i.ident, &m.args[0]) { return; }
        let t = format!("({}).map(|{}| {}).collect()", self.t(&*f.expr), self.t(&*f.pat), self.t(&m.args[0]));
        let r = (rng(l).0, rng(v).1);
        self.out = Some((r, t, "a loop that collects"));
    }
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        syn::visit::visit_expr_try(self, e);
        if let syn::Expr::MethodCall(m) = &*e.expr { if m.method == "try_for_each" {
            if let Some((p, r, b)) = self.each(m) { let t = format!("for {p} in {r} {{ {b}?; }}"); self.put(e, t, "try_for_each"); }
        } }
        if let syn::Expr::MethodCall(m) = &*e.expr { if m.method == "try_fold" { let r = rng(e); self.fold(m, r, "?"); } }
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        if m.method == "fold" { let r = rng(m); self.fold(m, r, ""); }
        for a in &m.args { if toks(a) == "Iterator::next" { self.put(a, "|x__| x__.next()".into(), "a method as a function"); } }
        if m.method == "for_each" && m.args.len() == 1 && is_iter_chain(&m.receiver) {
            if let syn::Expr::Closure(c) = &m.args[0] { if let (Some(p), false) = (one(c), contains_control(&c.body)) {
                let t = format!("for {} in {} {{ {}; }}", self.t(p), self.t(&*m.receiver), self.t(&*c.body));
                self.put(m, t, "for_each");
            } }
        }
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        syn::visit::visit_expr_for_loop(self, f);
        // for I in A..B { .. }, for I in (A..B).step_by(N) { .. }   =>   let mut I = A; while I < B { .. I += N }
        fn range(e: &syn::Expr) -> Option<(&syn::Expr, &syn::Expr)> {
            match e { syn::Expr::Paren(p) => range(&p.expr), syn::Expr::Range(syn::ExprRange { start: Some(a), end: Some(b), limits: syn::RangeLimits::HalfOpen(_), .. }) => Some((a, b)), _ => None }
        }
        let (r, step) = match &*f.expr { syn::Expr::MethodCall(m) if m.method == "step_by" && m.args.len() == 1 => (range(&m.receiver), Some(&m.args[0])), e => (range(e), None) };
        if let (Some((a, b)), None) = (r, &f.label) {
            let name = match &*f.pat { syn::Pat::Wild(_) => Some("count__".to_string()), p => pat_name(p).filter(|i| i.mutability.is_none()).map(|i| i.ident.to_string()) };
            let Some(i) = name else { return };
            if continues(&f.body) || contains_control(a) || contains_control(b) { return; }
            let step = step.map_or("1".to_string(), |x| self.t(x).to_string());
            let t = format!("{{ let mut {i} = {}; let end__ = {}; while {i} < end__ {{ {{ let {i} = {i}; {} }} {i} += {step}; }} }}", self.t(a), self.t(b), { let r = rng(&f.body); &self.src[r.0 + 1..r.1 - 1] });
            self.put(f, t, "for over a range");
            return;
        }
        let syn::Expr::MethodCall(m) = &*f.expr else { return };
        if m.args.len() != 1 || !is_iter_chain(&m.receiver) { return; }
        let lab = f.label.as_ref().map(|l| format!("{} ", self.t(l))).unwrap_or_default();
        let inner = { let r = rng(&f.body); &self.src[r.0 + 1..r.1 - 1] };
        let syn::Expr::Closure(c) = &m.args[0] else { return };
        let Some(q) = one(c) else { return };
        if contains_control(&c.body) { return; }
        if m.method == "map" {
            if clash(q, &f.body) && toks(q) != toks(&f.pat) { return; }
            let t = format!("{lab}for {} in {} {{ let {} = {};{inner} }}", self.t(q), self.t(&*m.receiver), self.t(&*f.pat), self.t(&*c.body));
            self.put(f, t, "for over map");
        } else if m.method == "filter" {
            let Some(p) = pat_name(&f.pat) else { return };
            let (q, r) = match q { syn::Pat::Reference(r) => (&*r.pat, ""), q => (q, "&") };
            let t = format!("{lab}for {0} in {1} {{ if {{ let {2} = {r}{0}; {3} }} {{{inner}}} }}", p.ident, self.t(&*m.receiver), self.t(q), self.t(&*c.body));
            if p.mutability.is_none() { self.put(f, t, "for over filter"); }
        }
    }
}
pub fn chains(files: &mut Vec<(String, File)>, has_loops: &dyn Fn(&str) -> bool) -> Vec<String> {
    let mut notes = vec![];
    for (_, f) in files.iter_mut() {
        for _ in 0..30 {
            let Ok(ast) = syn::parse_file(&f.src) else { break };
            let mut hit = None;
            for (k, _, b, _) in functions(&ast) {
                let mut c = Chain { src: &f.src, out: None, loops: has_loops(&k) };
                c.visit_block(&b);
                c.tail_block(&b);
                if let Some(o) = c.out { hit = Some((k, o)); break; }
            }
            let Some((k, (r, t, what))) = hit else { break };
            f.src.replace_range(r.0..r.1, &t);
            notes.push(format!("T16: {k}: {what} rewritten"));
        }
    }
    notes
}

impl Names { pub fn locals(&self, key: &str) -> Option<&Vec<String>> { self.fns.get(key).map(|x| &x.1) } }
fn is_word(c: char) -> bool { c.is_alphanumeric() || c == '_' }
/// the identifiers of a contract, in order of their first use (fields and functions left out)
pub fn words(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    each_word(t, &mut |w, _| { if !v.iter().any(|x| x == w) { v.push(w.to_string()); } });
    v
}
/// replaces a variable in a contract
pub fn word(t: &str, from: &str, to: &str) -> String {
    let mut at = vec![];
    each_word(t, &mut |w, i| { if w == from { at.push(i); } });
    let mut s = t.to_string();
    for i in at.into_iter().rev() { s.replace_range(i..i + from.len(), to); }
    s
}
fn each_word(t: &str, f: &mut dyn FnMut(&str, usize)) {
    let b: Vec<(usize, char)> = t.char_indices().collect();
    let mut i = 0;
    while i < b.len() {
        if !is_word(b[i].1) { i += 1; continue; }
        let s = i;
        while i < b.len() && is_word(b[i].1) { i += 1; }
        let e = b.get(i).map_or(t.len(), |x| x.0);
        let before = t[..b[s].0].trim_end();
        let after = t[e..].trim_start();
        if (before.ends_with('.') && !before.ends_with("..")) || before.ends_with("::") || after.starts_with('(') || after.starts_with("::") || b[s].1.is_ascii_digit() { continue; }
        f(&t[b[s].0..e], b[s].0);
    }
}
/// the variables a loop body assigns
pub fn assigned(b: &syn::Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl V { fn put(&mut self, e: &syn::Expr) { if let syn::Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } } } }
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) { self.put(&a.left); syn::visit::visit_expr_assign(self, a); }
        fn visit_expr_binary(&mut self, a: &'ast syn::ExprBinary) { if toks(&a.op).ends_with('=') && !["==", "<=", ">=", "!="].contains(&toks(&a.op).as_str()) { self.put(&a.left); } syn::visit::visit_expr_binary(self, a); }
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) { self.put(&m.receiver); syn::visit::visit_expr_method_call(self, m); }
        fn visit_macro(&mut self, m: &'ast syn::Macro) { if let Ok(e) = m.parse_body::<syn::Expr>() { self.visit_expr(&e); } }
    }
    let mut v = V(BTreeSet::new());
    v.visit_block(b);
    v.0
}
/// the statement calls a method of that name
pub fn calls(s: &syn::Stmt, f: &str) -> bool {
    struct V<'x>(&'x str, bool);
    impl<'x, 'ast> Visit<'ast> for V<'x> {
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) { if m.method == self.0 { self.1 = true; } syn::visit::visit_expr_method_call(self, m); }
        fn visit_macro(&mut self, m: &'ast syn::Macro) { if let Ok(e) = m.parse_body::<syn::Expr>() { self.visit_expr(&e); } }
    }
    let mut v = V(f, false);
    v.visit_stmt(s);
    v.1
}
/// the variable that the first `while V < E` of a function counts
pub fn counter(b: &syn::Block) -> Option<String> {
    struct V(Option<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
            fn var(e: &syn::Expr) -> Option<String> {
                match e {
                    syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                    syn::Expr::Binary(b) => var(&b.left),
                    syn::Expr::Unary(u) => var(&u.expr),
                    syn::Expr::Paren(p) => var(&p.expr),
                    syn::Expr::MethodCall(m) => var(&m.receiver),
                    _ => None,
                }
            }
            if self.0.is_none() { self.0 = var(&w.cond); }
            syn::visit::visit_expr_while(self, w);
        }
    }
    let mut v = V(None);
    v.visit_block(b);
    v.0
}
/// `continue` or `break` with a label, or a `continue` of this loop
fn continues(b: &syn::Block) -> bool {
    struct V(bool, usize);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) { if c.label.is_some() || self.1 == 0 { self.0 = true; } }
        fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) { self.1 += 1; syn::visit::visit_expr_while(self, w); self.1 -= 1; }
        fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) { self.1 += 1; syn::visit::visit_expr_loop(self, w); self.1 -= 1; }
        fn visit_expr_for_loop(&mut self, w: &'ast syn::ExprForLoop) { self.1 += 1; syn::visit::visit_expr_for_loop(self, w); self.1 -= 1; }
        fn visit_macro(&mut self, m: &'ast syn::Macro) { if m.tokens.to_string().contains("continue") { self.0 = true; } }
    }
    let mut v = V(false, 0);
    v.visit_block(b);
    v.0
}

/// T18: a macro of the crate with plain parameters is expanded at its uses (bound names of its body get names of their
/// own), except for iter_try! in its known form, which T5 expands. A trait that is new and has one implementation
/// becomes an inherent implementation, so that T12 inlines its methods.
pub fn macros(files: &mut Vec<(String, File)>) -> Vec<String> {
    const ITER_TRY: &str = "($e:expr)=>{match$e{Ok(x)=>x,Err(e)=>returnSome(Err(e)),}};";
    struct Arm { params: Vec<String>, body: String, binds: BTreeSet<String> }
    let mut notes = vec![];
    let mut defs: BTreeMap<String, Vec<Arm>> = BTreeMap::new();
    for (_, f) in files.iter() {
        let Ok(ast) = syn::parse_file(&f.src) else { return notes };
        for it in &ast.items {
            let syn::Item::Macro(m) = it else { continue };
            let Some(name) = &m.ident else { continue };
            if is_test(&m.attrs) { continue; }
            let t: String = m.mac.tokens.to_string().split_whitespace().collect();
            if name == "iter_try" && (t == ITER_TRY || format!("{t};") == ITER_TRY) { continue; }
            let toks: Vec<proc_macro2::TokenTree> = m.mac.tokens.clone().into_iter().collect();
            let mut arms = vec![];
            let mut i = 0;
            let mut good = true;
            while i < toks.len() {
                // (PARAMS) => { BODY } ;
                let (Some(proc_macro2::TokenTree::Group(p)), Some(proc_macro2::TokenTree::Group(b))) = (toks.get(i), toks.get(i + 3)) else { good = false; break };
                let p: String = p.stream().to_string().split_whitespace().collect();
                let mut params = vec![];
                for x in p.split(',').filter(|x| !x.is_empty()) {
                    match x.strip_prefix('$').and_then(|x| x.split_once(':')) { Some((n, k)) if ["expr", "ident", "ty", "literal", "path"].contains(&k) => params.push(n.to_string()), _ => good = false }
                }
                let r = b.span().byte_range();
                let mut body = f.src[r.start + 1..r.end - 1].replace("$crate", "crate");
                // longest names first: $ab before $a
                let mut by_len = params.clone();
                by_len.sort_by_key(|x| std::cmp::Reverse(x.len()));
                for n in &by_len { body = body.replace(&format!("${n}"), &format!("marg_{n}__")); }
                if body.contains('$') { good = false; }
                let mut v = vec![];
                match syn::parse_str::<syn::Block>(&format!("{{ {body} }}")) { Ok(b) => v = bindings(&syn::parse_quote!(fn f()), &b), Err(_) => good = false }
                arms.push(Arm { params, body, binds: v.into_iter().filter(|n| !n.starts_with("marg_")).collect() });
                i += 4;
                if let Some(proc_macro2::TokenTree::Punct(p)) = toks.get(i) { if p.as_char() == ';' { i += 1; } }
            }
            if good && !arms.is_empty() { defs.insert(name.to_string(), arms); }
        }
    }
    if defs.is_empty() { return notes; }
    fn find(t: proc_macro2::TokenStream, defs: &BTreeMap<String, Vec<Arm>>, out: &mut Option<((usize, usize), String, proc_macro2::Group)>) {
        let v: Vec<proc_macro2::TokenTree> = t.into_iter().collect();
        let mut i = 0;
        while i < v.len() && out.is_none() {
            if let proc_macro2::TokenTree::Ident(n) = &v[i] {
                // definitions are left alone
                if n == "macro_rules" { i += 4; continue; }
                if let (true, Some(proc_macro2::TokenTree::Punct(p)), Some(proc_macro2::TokenTree::Group(g))) = (defs.contains_key(&n.to_string()), v.get(i + 1), v.get(i + 2)) {
                    if p.as_char() == '!' { *out = Some(((n.span().byte_range().start, g.span().byte_range().end), n.to_string(), g.clone())); return; }
                }
            }
            if let proc_macro2::TokenTree::Group(g) = &v[i] { find(g.stream(), defs, out); }
            i += 1;
        }
    }
    let mut fresh = 0;
    for (_, f) in files.iter_mut() {
        for _ in 0..200 {
            let Ok(t) = f.src.parse::<proc_macro2::TokenStream>() else { break };
            let mut out = None;
            find(t, &defs, &mut out);
            let Some((r, name, g)) = out else { break };
            let inner = { let r = g.span().byte_range(); f.src[r.start + 1..r.end - 1].to_string() };
            // arguments: split at top-level commas
            let mut args = vec![];
            let mut cur = String::new();
            for t in g.stream() {
                if let proc_macro2::TokenTree::Punct(p) = &t { if p.as_char() == ',' { args.push(std::mem::take(&mut cur)); continue; } }
                let x = t.span().byte_range();
                let base = g.span().byte_range().start + 1;
                cur.push_str(&inner[x.start - base..x.end - base]);
                if let proc_macro2::TokenTree::Punct(p) = &t { if p.spacing() == proc_macro2::Spacing::Joint { continue; } }
                cur.push(' ');
            }
            if !cur.trim().is_empty() { args.push(cur); }
            let Some(arm) = defs[&name].iter().find(|a| a.params.len() == args.len()) else { return notes };
            fresh += 1;
            let mut body = arm.body.clone();
            for b in &arm.binds { body = replace_ident(&body, b, &format!("{b}_m{fresh}__")); }
            for (p, a) in arm.params.iter().zip(&args) {
                let a = a.trim();
                let simple = a.chars().all(|c| is_word(c) || c == '.' || c == '"' || c == ':');
                body = replace_ident(&body, &format!("marg_{p}__"), &if simple { a.to_string() } else { format!("({a})") });
            }
            let t = if syn::parse_str::<syn::Expr>(&body).is_ok() { format!("({body})") } else { format!("{{ {body} }}") };
            f.src.replace_range(r.0..r.1, &t);
            notes.push(format!("T18: {name}! expanded"));
        }
    }
    notes
}
pub fn traits(files: &mut Vec<(String, File)>, names: &Names) -> Vec<String> {
    let mut notes = vec![];
    if names.ids.is_empty() { return notes; }
    let mut found: Vec<String> = vec![];
    let mut impls: BTreeMap<String, usize> = BTreeMap::new();
    for (_, f) in files.iter() {
        let Ok(ast) = syn::parse_file(&f.src) else { return notes };
        for it in &ast.items { match it {
            syn::Item::Trait(t) if !names.ids.contains(&t.ident.to_string()) && t.generics.params.is_empty() && t.items.iter().all(|i| matches!(i, syn::TraitItem::Fn(f) if f.default.is_none())) => found.push(t.ident.to_string()),
            syn::Item::Impl(i) => if let Some((_, p, _)) = &i.trait_ { *impls.entry(toks(p)).or_default() += 1; },
            _ => {}
        } }
    }
    for t in found {
        if impls.get(&t) != Some(&1) { continue; }
        for (_, f) in files.iter_mut() {
            let Ok(ast) = syn::parse_file(&f.src) else { return notes };
            let mut ed = vec![];
            for it in &ast.items { match it {
                syn::Item::Trait(x) if x.ident == t => { let r = rng(it); ed.push((r.0, r.1)); }
                syn::Item::Impl(i) => if let Some((b, p, fr)) = &i.trait_ { if b.is_none() && toks(p) == t { ed.push((rng(p).0, rng(fr).1)); } },
                _ => {}
            } }
            ed.sort();
            for (a, b) in ed.into_iter().rev() { f.src.replace_range(a..b, ""); }
        }
        notes.push(format!("T18: the trait {t} has one implementation"));
    }
    notes
}

//! T12: a function that has no contract (one that was split off after the contracts were written) is inlined into its
//! callers before extraction, so that the caller's contract is checked against the code that runs. The call
//! expression is replaced by a block that binds the arguments in order and contains the function's body;
//! `return`, `?` and `iter_try!` of the body become the tail of nested conditionals and matches.
//! A body that cannot be put into that form is left alone (and reported as a function without a contract).
use proc_macro2::{Ident, Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::{Block, Expr, Pat, Stmt};

#[derive(Clone)]
pub struct Helper { pub name: String, pub ty: Option<String>, sig: syn::Signature, block: Block, file: String }

fn is_iter_try(m: &syn::Macro) -> bool { m.path.segments.last().map(|s| s.ident == "iter_try").unwrap_or(false) }

/// `return`, `?`, iter_try! at the level of the function itself
struct Control(bool);
impl<'ast> Visit<'ast> for Control {
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true; }
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if is_iter_try(m) { self.0 = true; }
        else if let Ok(e) = m.parse_body::<Expr>() { self.visit_expr(&e); }
    }
}
fn ctl_e(e: &Expr) -> bool { let mut v = Control(false); v.visit_expr(e); v.0 }
fn ctl_s(s: &[Stmt]) -> bool { let mut v = Control(false); for x in s { v.visit_stmt(x); } v.0 }
/// statements that never reach their end
fn diverges(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(e, _)) => div_e(e),
        Some(Stmt::Macro(m)) => m.mac.path.is_ident("unreachable") || m.mac.path.is_ident("panic"),
        _ => false,
    }
}
fn div_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => i.else_branch.as_ref().map_or(false, |x| div_e(&x.1)) && diverges(&i.then_branch.stmts),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| div_e(&a.body)),
        Expr::Macro(m) => m.mac.path.is_ident("unreachable") || m.mac.path.is_ident("panic"),
        _ => false,
    }
}
fn has_let(s: &[Stmt]) -> bool { s.iter().any(|x| matches!(x, Stmt::Local(_) | Stmt::Item(_))) }
fn pat_names(p: &Pat) -> HashSet<String> {
    struct V(HashSet<String>);
    impl<'ast> Visit<'ast> for V { fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) { self.0.insert(i.ident.to_string()); syn::visit::visit_pat_ident(self, i); } }
    let mut v = V(HashSet::new());
    v.visit_pat(p);
    v.0
}
fn names(t: TokenStream, out: &mut HashSet<String>) {
    for x in t { match x { proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => names(g.stream(), out), _ => {} } }
}
fn clash(p: &Pat, rest: &[Stmt]) -> bool {
    let mut n = HashSet::new();
    for s in rest { names(s.to_token_stream(), &mut n); }
    pat_names(p).iter().any(|x| n.contains(x))
}

struct Tail { opt: bool, n: usize }
type R = Option<TokenStream>;
impl Tail {
    fn fresh(&mut self) -> Ident { self.n += 1; Ident::new(&format!("t__{}", self.n), Span::call_site()) }
    /// takes the first-evaluated `?` out of the expression: (kind, inner expression, hole, rest)
    fn hoist(&mut self, e: &Expr) -> Option<(bool, Expr, Ident, Expr)> {
        match e {
            Expr::Try(t) => {
                if ctl_e(&t.expr) { let (k, i, h, r) = self.hoist(&t.expr)?; let mut t2 = t.clone(); *t2.expr = r; return Some((k, i, h, Expr::Try(t2))); }
                let h = self.fresh();
                Some((false, (*t.expr).clone(), h.clone(), syn::parse_quote!(#h)))
            }
            Expr::Macro(m) if is_iter_try(&m.mac) => {
                let i = m.mac.parse_body::<Expr>().ok()?;
                if ctl_e(&i) { return self.hoist(&i).map(|(k, a, h, r)| (k, a, h, syn::parse_quote!(iter_try!(#r)))); }
                let h = self.fresh();
                Some((true, i, h.clone(), syn::parse_quote!(#h)))
            }
            Expr::Call(c) => {
                let mut c2 = c.clone();
                for (k, a) in c.args.iter().enumerate() {
                    if ctl_e(a) { let (x, i, h, r) = self.hoist(a)?; c2.args[k] = r; return Some((x, i, h, Expr::Call(c2))); }
                    if !matches!(a, Expr::Path(_) | Expr::Lit(_)) && !matches!(a, Expr::Reference(r) if matches!(*r.expr, Expr::Path(_))) { return None; }
                }
                None
            }
            Expr::MethodCall(c) => {
                let mut c2 = c.clone();
                if ctl_e(&c.receiver) { let (x, i, h, r) = self.hoist(&c.receiver)?; *c2.receiver = r; return Some((x, i, h, Expr::MethodCall(c2))); }
                if !matches!(&*c.receiver, Expr::Path(_) | Expr::Field(_)) { return None; }
                for (k, a) in c.args.iter().enumerate() {
                    if ctl_e(a) { let (x, i, h, r) = self.hoist(a)?; c2.args[k] = r; return Some((x, i, h, Expr::MethodCall(c2))); }
                    if !matches!(a, Expr::Path(_) | Expr::Lit(_)) { return None; }
                }
                None
            }
            Expr::Paren(p) => { let (x, i, h, r) = self.hoist(&p.expr)?; let mut p2 = p.clone(); *p2.expr = r; Some((x, i, h, Expr::Paren(p2))) }
            Expr::Field(p) => { let (x, i, h, r) = self.hoist(&p.base)?; let mut p2 = p.clone(); *p2.base = r; Some((x, i, h, Expr::Field(p2))) }
            Expr::Unary(p) => { let (x, i, h, r) = self.hoist(&p.expr)?; let mut p2 = p.clone(); *p2.expr = r; Some((x, i, h, Expr::Unary(p2))) }
            Expr::Reference(p) => { let (x, i, h, r) = self.hoist(&p.expr)?; let mut p2 = p.clone(); *p2.expr = r; Some((x, i, h, Expr::Reference(p2))) }
            Expr::Cast(p) => { let (x, i, h, r) = self.hoist(&p.expr)?; let mut p2 = p.clone(); *p2.expr = r; Some((x, i, h, Expr::Cast(p2))) }
            Expr::Binary(p) => {
                if matches!(p.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) && ctl_e(&p.right) { return None; }
                let mut p2 = p.clone();
                if ctl_e(&p.left) { let (x, i, h, r) = self.hoist(&p.left)?; *p2.left = r; return Some((x, i, h, Expr::Binary(p2))); }
                None
            }
            _ => None,
        }
    }
    fn ok_match(&mut self, kind: bool, e: &Expr, h: &Ident, rest: TokenStream) -> TokenStream {
        if kind { quote! { match (#e) { Ok(#h) => { #rest } Err(e__) => Some(Err(e__)) } } }
        else if self.opt { quote! { match (#e) { Some(#h) => { #rest } None => None } } }
        else { quote! { match (#e) { Ok(#h) => { #rest } Err(e__) => Err(e__) } } }
    }
    fn expr(&mut self, e: &Expr) -> R {
        match e {
            Expr::Return(r) => match &r.expr { Some(x) => self.expr(x), None => Some(quote!(())) },
            Expr::Paren(p) => self.expr(&p.expr),
            Expr::Block(b) if b.label.is_none() => { let t = self.stmts(&b.block.stmts)?; Some(quote!({ #t })) }
            Expr::If(i) => {
                if ctl_e(&i.cond) { return self.hoisted(e); }
                if !ctl_e(e) { return Some(quote!(#e)); }
                let c = &i.cond;
                let t = self.stmts(&i.then_branch.stmts)?;
                let f = match &i.else_branch { Some(x) => self.expr(&x.1)?, None => return None };
                Some(quote! { if #c { #t } else { #f } })
            }
            Expr::Match(m) => {
                if ctl_e(&m.expr) { return self.hoisted(e); }
                if !ctl_e(e) { return Some(quote!(#e)); }
                let s = &m.expr;
                let mut arms = TokenStream::new();
                for a in &m.arms {
                    if a.guard.as_ref().map_or(false, |g| ctl_e(&g.1)) { return None; }
                    let (p, b) = (&a.pat, self.expr(&a.body)?);
                    let g = a.guard.as_ref().map(|g| { let x = &g.1; quote!(if #x) });
                    arms.extend(quote! { #p #g => { #b } });
                }
                Some(quote! { match #s { #arms } })
            }
            e if !ctl_e(e) => Some(quote!(#e)),
            e => self.hoisted(e),
        }
    }
    fn hoisted(&mut self, e: &Expr) -> R {
        let (k, i, h, r) = match e {
            Expr::If(x) => { let (k, i, h, r) = self.hoist(&x.cond)?; let mut x2 = x.clone(); *x2.cond = r; (k, i, h, Expr::If(x2)) }
            Expr::Match(x) => { let (k, i, h, r) = self.hoist(&x.expr)?; let mut x2 = x.clone(); *x2.expr = r; (k, i, h, Expr::Match(x2)) }
            e => self.hoist(e)?,
        };
        let rest = self.expr(&r)?;
        Some(self.ok_match(k, &i, &h, rest))
    }
    fn stmts(&mut self, s: &[Stmt]) -> R {
        let Some(first) = s.first() else { return Some(quote!(())) };
        let rest = &s[1..];
        if !ctl_s(s) { return Some(s.iter().map(|x| x.to_token_stream()).collect()); }
        match first {
            Stmt::Expr(Expr::Return(r), _) => match &r.expr { Some(e) => self.expr(e), None => Some(quote!(())) },
            Stmt::Expr(e, None) if rest.is_empty() => self.expr(e),
            Stmt::Expr(e, semi) => {
                if !ctl_e(e) { let t = self.stmts(rest)?; return Some(quote!(#e #semi #t)); }
                match e {
                    Expr::If(i) if !ctl_e(&i.cond) => {
                        let c = &i.cond;
                        let bind = match c.as_ref() { Expr::Let(l) => clash(&l.pat, rest), _ => false };
                        let tb = &i.then_branch.stmts;
                        if !diverges(tb) && (has_let(tb) || bind) { return None; }
                        let t = self.then(tb, rest)?;
                        let f = match &i.else_branch {
                            None => self.stmts(rest)?,
                            Some((_, x)) => { let st = vec![Stmt::Expr((**x).clone(), Some(Default::default()))]; if div_e(x) { self.expr(x)? } else { self.then(&st, rest)? } }
                        };
                        Some(quote! { if #c { #t } else { #f } })
                    }
                    Expr::Match(m) if !ctl_e(&m.expr) => {
                        let x = &m.expr;
                        let mut arms = TokenStream::new();
                        for a in &m.arms {
                            if a.guard.as_ref().map_or(false, |g| ctl_e(&g.1)) { return None; }
                            let p = &a.pat;
                            let g = a.guard.as_ref().map(|g| { let x = &g.1; quote!(if #x) });
                            let b = if div_e(&a.body) { self.expr(&a.body)? } else {
                                if clash(p, rest) { return None; }
                                let st = vec![Stmt::Expr((*a.body).clone(), Some(Default::default()))];
                                self.then(&st, rest)?
                            };
                            arms.extend(quote! { #p #g => { #b } });
                        }
                        Some(quote! { match #x { #arms } })
                    }
                    Expr::Block(b) if b.label.is_none() && (!has_let(&b.block.stmts) || rest.is_empty()) => { let v = b.block.stmts.clone(); self.then(&v, rest) }
                    e => {
                        let (k, i, h, r) = match e {
                            Expr::If(_) | Expr::Match(_) => match e {
                                Expr::If(x) => { let (k, i, h, r) = self.hoist(&x.cond)?; let mut x2 = x.clone(); *x2.cond = r; (k, i, h, Expr::If(x2)) }
                                Expr::Match(x) => { let (k, i, h, r) = self.hoist(&x.expr)?; let mut x2 = x.clone(); *x2.expr = r; (k, i, h, Expr::Match(x2)) }
                                _ => unreachable!(),
                            },
                            e => self.hoist(e)?,
                        };
                        let mut v = vec![];
                        if !matches!(&r, Expr::Path(p) if p.path.is_ident(&h)) || (rest.is_empty() && semi.is_none()) { v.push(Stmt::Expr(r, *semi)); }
                        v.extend_from_slice(rest);
                        let t = self.stmts(&v)?;
                        Some(self.ok_match(k, &i, &h, t))
                    }
                }
            }
            Stmt::Local(l) => {
                let Some(init) = &l.init else { let t = self.stmts(rest)?; return Some(quote!(#l #t)) };
                if let Some((_, d)) = &init.diverge {
                    if ctl_e(&init.expr) { return None; }
                    let (p, e) = (&l.pat, &init.expr);
                    let d = self.expr(d)?;
                    let t = self.stmts(rest)?;
                    return Some(quote! { if let #p = #e { #t } else { #d } });
                }
                if !ctl_e(&init.expr) { let t = self.stmts(rest)?; return Some(quote!(#l #t)); }
                match &*init.expr {
                    Expr::Match(m) if !ctl_e(&m.expr) => {
                        let (x, lp) = (&m.expr, &l.pat);
                        let mut arms = TokenStream::new();
                        for a in &m.arms {
                            if a.guard.as_ref().map_or(false, |g| ctl_e(&g.1)) { return None; }
                            let p = &a.pat;
                            let g = a.guard.as_ref().map(|g| { let x = &g.1; quote!(if #x) });
                            let b = if div_e(&a.body) { self.expr(&a.body)? } else {
                                let own: HashSet<String> = pat_names(lp);
                                let mut n = HashSet::new();
                                for s in rest { names(s.to_token_stream(), &mut n); }
                                if pat_names(p).iter().any(|x| n.contains(x) && !own.contains(x)) { return None; }
                                let mut l2 = l.clone();
                                *l2.init.as_mut().unwrap().expr = (*a.body).clone();
                                let mut v = vec![Stmt::Local(l2)];
                                v.extend_from_slice(rest);
                                self.stmts(&v)?
                            };
                            arms.extend(quote! { #p #g => { #b } });
                        }
                        Some(quote! { match #x { #arms } })
                    }
                    Expr::If(i) if !ctl_e(&i.cond) && !matches!(&*i.cond, Expr::Let(_)) => {
                        let c = &i.cond;
                        let mut br = vec![];
                        let th = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                        for b in [&th, &*i.else_branch.as_ref()?.1] {
                            if div_e(b) { br.push(self.expr(b)?); continue; }
                            let mut l2 = l.clone();
                            *l2.init.as_mut().unwrap().expr = b.clone();
                            let mut v = vec![Stmt::Local(l2)];
                            v.extend_from_slice(rest);
                            br.push(self.stmts(&v)?);
                        }
                        let (t, f) = (&br[0], &br[1]);
                        Some(quote! { if #c { #t } else { #f } })
                    }
                    Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => {
                        let Stmt::Expr(e, None) = &b.block.stmts[0] else { return None };
                        let mut l2 = l.clone();
                        *l2.init.as_mut().unwrap().expr = e.clone();
                        let mut v = vec![Stmt::Local(l2)];
                        v.extend_from_slice(rest);
                        self.stmts(&v)
                    }
                    e => {
                        let (k, i, h, r) = self.hoist(e)?;
                        let mut l2 = l.clone();
                        *l2.init.as_mut().unwrap().expr = r;
                        let mut v = vec![Stmt::Local(l2)];
                        v.extend_from_slice(rest);
                        let t = self.stmts(&v)?;
                        Some(self.ok_match(k, &i, &h, t))
                    }
                }
            }
            Stmt::Item(i) => { let t = self.stmts(rest)?; Some(quote!(#i #t)) }
            Stmt::Macro(m) => {
                if is_iter_try(&m.mac) {
                    let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    let mut v = vec![Stmt::Expr(e, m.semi_token)];
                    v.extend_from_slice(rest);
                    return self.stmts(&v);
                }
                let mut c = Control(false);
                c.visit_macro(&m.mac);
                if c.0 { return None; }
                let t = self.stmts(rest)?;
                Some(quote!(#m #t))
            }
        }
    }
    fn then(&mut self, a: &[Stmt], rest: &[Stmt]) -> R {
        let mut v = a.to_vec();
        if diverges(a) { return self.stmts(&v); }
        // the last expression of a branch is a statement now
        if !rest.is_empty() { if let Some(Stmt::Expr(_, s)) = v.last_mut() { if s.is_none() { *s = Some(Default::default()); } } }
        v.extend_from_slice(rest);
        self.stmts(&v)
    }
}

/// the body with the const parameters replaced by the arguments of the turbofish
fn consts(h: &Helper, args: Option<&syn::AngleBracketedGenericArguments>) -> Option<Helper> {
    let cs: Vec<(usize, String)> = h.sig.generics.params.iter().filter(|g| !matches!(g, syn::GenericParam::Lifetime(_))).enumerate().filter_map(|(k, g)| match g { syn::GenericParam::Const(c) => Some((k, c.ident.to_string())), _ => None }).collect();
    let mut h = h.clone();
    for (k, n) in cs {
        let a = args?.args.iter().filter(|a| !matches!(a, syn::GenericArgument::Lifetime(_))).nth(k)?;
        let t: TokenStream = match a { syn::GenericArgument::Const(e) => quote!((#e)), syn::GenericArgument::Type(t) => quote!(#t), _ => return None };
        fn go(ts: TokenStream, n: &str, t: &TokenStream) -> TokenStream {
            ts.into_iter().flat_map(|x| match x {
                proc_macro2::TokenTree::Ident(i) if i == n => t.clone(),
                proc_macro2::TokenTree::Group(g) => TokenStream::from(proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), n, t)))),
                x => TokenStream::from(x),
            }).collect()
        }
        h.block = syn::parse2(go(h.block.to_token_stream(), &n, &t)).ok()?;
    }
    Some(h)
}

struct SelfTo(&'static str, Ident);
impl VisitMut for SelfTo {
    fn visit_ident_mut(&mut self, i: &mut Ident) { if i == self.0 { *i = self.1.clone(); } }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) { m.tokens = sub(m.tokens.clone(), self.0, &self.1); }
}
fn sub(t: TokenStream, from: &str, to: &Ident) -> TokenStream {
    t.into_iter().map(|x| match x {
        proc_macro2::TokenTree::Ident(i) if i == from => proc_macro2::TokenTree::Ident(to.clone()),
        proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), sub(g.stream(), from, to))),
        x => x,
    }).collect()
}

impl Helper {
    fn returns_option(&self) -> bool {
        match &self.sig.output { syn::ReturnType::Type(_, t) => matches!(&**t, syn::Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Option")), _ => false }
    }
    /// the block that replaces a call
    fn expand(&self, n: usize, recv: Option<&Expr>, args: &[Expr]) -> R {
        let mut block = self.block.clone();
        let mut pre = TokenStream::new();
        let mut post = TokenStream::new();
        let mut ai = 0;
        for i in &self.sig.inputs {
            match i {
                syn::FnArg::Receiver(rc) => {
                    let r: Expr = match recv { Some(r) => r.clone(), None => { let a = args.get(ai)?.clone(); ai += 1; a } };
                    let id = Ident::new(&format!("slf__{n}"), Span::call_site());
                    let own_self = recv.is_some() && matches!(&r, Expr::Path(p) if p.path.is_ident("self"));
                    if !own_self {
                        if recv.is_none() { pre.extend(quote!(let #id = #r;)); }
                        else if rc.reference.is_some() { if rc.mutability.is_some() { pre.extend(quote!(let #id = &mut #r;)); } else { pre.extend(quote!(let #id = &#r;)); } }
                        else if rc.mutability.is_some() { pre.extend(quote!(let mut #id = #r;)); } else { pre.extend(quote!(let #id = #r;)); }
                        SelfTo("self", id).visit_block_mut(&mut block);
                    } else if rc.reference.is_none() { return None; }
                }
                syn::FnArg::Typed(t) => {
                    let a = args.get(ai)?;
                    ai += 1;
                    let Pat::Ident(p) = &*t.pat else { return None };
                    let (id, m) = (&p.ident, &p.mutability);
                    if matches!(a, Expr::Path(q) if q.path.is_ident(id)) && m.is_none() && !post.to_string().contains(&format!(" {id} ")) { continue; }
                    let tmp = Ident::new(&format!("arg__{n}_{ai}"), Span::call_site());
                    let ty = &t.ty;
                    let ts = quote!(#ty).to_string();
                    let generic = ts.contains('\'') || ts.contains("impl ") || ts.contains("dyn ") || self.sig.generics.params.iter().any(|g| match g { syn::GenericParam::Type(x) => ts.split(|c: char| !c.is_alphanumeric()).any(|w| x.ident == w), _ => false }) || ts.split(|c: char| !c.is_alphanumeric()).any(|w| w == "B" || w == "Self");
                    if generic { pre.extend(quote!(let #tmp = #a;)); } else { pre.extend(quote!(let #tmp: #ty = #a;)); }
                    post.extend(quote!(let #m #id = #tmp;));
                }
            }
        }
        if ai != args.len() { return None; }
        // a `Ref` is typed by the return type of the helper
        if let (syn::ReturnType::Type(_, t), false) = (&self.sig.output, ctl_s(&block.stmts)) {
            let ts = quote!(#t).to_string();
            if ts.starts_with("Ref <") && !ts.contains("Self") && !self.sig.generics.params.iter().any(|g| matches!(g, syn::GenericParam::Type(x) if ts.split(|c: char| !c.is_alphanumeric()).any(|w| x.ident == w))) {
                let mut t = (**t).clone();
                struct NoLife;
                impl VisitMut for NoLife { fn visit_lifetime_mut(&mut self, l: &mut syn::Lifetime) { if l.ident != "static" { l.ident = Ident::new("_", Span::call_site()); } } }
                NoLife.visit_type_mut(&mut t);
                let id = Ident::new(&format!("ret__{n}"), Span::call_site());
                let body: TokenStream = block.stmts.iter().map(|s| s.to_token_stream()).collect();
                return Some(quote!(({ #pre #post let #id: #t = { #body }; #id })));
            }
        }
        let body = if ctl_s(&block.stmts) { Tail { opt: self.returns_option(), n: n * 100 }.stmts(&block.stmts)? } else { block.stmts.iter().map(|s| s.to_token_stream()).collect() };
        Some(quote!(({ #pre #post #body })))
    }
}

struct Find<'x> { helpers: &'x HashMap<String, Vec<Helper>>, unique: &'x dyn Fn(&str) -> bool, ty: Option<String>, cur: String, n: usize, out: Option<((usize, usize), String, String)>, failed: &'x mut HashSet<String> }
impl<'x> Find<'x> {
    fn pick(&self, name: &str, own: bool) -> Option<Helper> {
        let v = self.helpers.get(name)?;
        let h = if own { v.iter().find(|h| h.ty == self.ty && h.ty.is_some())? } else if v.len() == 1 && (self.unique)(name) { &v[0] } else { return None };
        let me = h.ty.as_ref().map(|t| format!("{t}::{name}")).unwrap_or(name.to_string());
        if me == self.cur { return None; }
        Some(self.named(h))
    }
    /// `Self` of a helper of another type
    fn named(&self, h: &Helper) -> Helper {
        let mut h = h.clone();
        if h.ty != self.ty { if let Some(t) = &h.ty { if syn::parse_str::<Ident>(t).is_ok() { let id = Ident::new(t, Span::call_site()); SelfTo("Self", id).visit_block_mut(&mut h.block); } } }
        h
    }
    fn put(&mut self, h: Helper, span: Span, t: R) {
        match t {
            Some(t) => { let r = span.byte_range(); self.out = Some(((r.start, r.end), t.to_string(), h.name.clone())); }
            None => { self.failed.insert(h.name.clone()); }
        }
    }
}
impl<'x, 'ast> Visit<'ast> for Find<'x> {
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if self.out.is_some() { return; }
        let Expr::Path(p) = &*c.func else { return };
        let seg = &p.path.segments;
        let name = seg.last().unwrap().ident.to_string();
        let h = if seg.len() == 1 { self.helpers.get(&name).and_then(|v| v.iter().find(|h| h.ty.is_none() && v.len() == 1)).cloned().filter(|h| h.name != self.cur) }
            else if seg.len() == 2 && seg[0].ident == "Self" { self.pick(&name, true) }
            else if seg.len() == 2 { let t = seg[0].ident.to_string(); self.helpers.get(&name).and_then(|v| v.iter().find(|h| h.ty.as_deref() == Some(&t))).cloned().filter(|_| format!("{t}::{name}") != self.cur).map(|h| self.named(&h)) }
            else { None };
        if let Some(h) = h {
            if self.failed.contains(&h.name) { return; }
            let args: Vec<Expr> = c.args.iter().cloned().collect();
            let ga = match &seg.last().unwrap().arguments { syn::PathArguments::AngleBracketed(a) => Some(a), _ => None };
            let t = consts(&h, ga).and_then(|h| h.expand(self.n, None, &args));
            self.put(h, syn::spanned::Spanned::span(c), t);
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        if self.out.is_some() { return; }
        let name = m.method.to_string();
        if !self.helpers.contains_key(&name) || self.failed.contains(&name) { return; }
        let own = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
        if let Some(h) = self.pick(&name, own) {
            let args: Vec<Expr> = m.args.iter().cloned().collect();
            let t = consts(&h, m.turbofish.as_ref()).and_then(|h| h.expand(self.n, Some(&m.receiver), &args));
            self.put(h, syn::spanned::Spanned::span(m), t);
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if self.out.is_some() { return; }
        if let Ok(e) = m.parse_body::<Expr>() { self.visit_expr(&e); }
    }
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

fn functions(file: &syn::File) -> Vec<(Option<String>, bool, syn::Signature, Block, (usize, usize))> {
    let mut v = vec![];
    for it in &file.items {
        match it {
            syn::Item::Fn(f) if !super::is_test(&f.attrs) => { let r = super::rng(it); v.push((None, false, f.sig.clone(), (*f.block).clone(), r)); }
            syn::Item::Impl(im) => {
                for i in &im.items { if let syn::ImplItem::Fn(f) = i { let r = super::rng(i); v.push((Some(super::self_name(&im.self_ty)), im.trait_.is_some(), f.sig.clone(), f.block.clone(), r)); } }
            }
            _ => {}
        }
    }
    v
}

/// Replaces calls of functions without a contract by their bodies; returns notes.
pub fn run(files: &mut Vec<(String, super::File)>, has_contract: &dyn Fn(&str) -> bool) -> Vec<String> {
    let mut notes = vec![];
    let mut failed = HashSet::new();
    let mut done: HashSet<String> = HashSet::new();
    for n in 1..80 {
        let mut helpers: HashMap<String, Vec<Helper>> = HashMap::new();
        let mut count: HashMap<String, usize> = HashMap::new();
        let mut parsed = vec![];
        for (name, f) in files.iter() {
            let Ok(ast) = syn::parse_file(&f.src) else { return notes };
            for (ty, tr, sig, block, _) in functions(&ast) {
                let fname = sig.ident.to_string();
                *count.entry(fname.clone()).or_default() += 1;
                if tr { continue; }
                let key = ty.as_ref().map(|t| format!("{t}::{fname}")).unwrap_or(fname.clone());
                if !has_contract(&key) { helpers.entry(fname.clone()).or_default().push(Helper { name: fname, ty, sig, block, file: name.clone() }); }
            }
            parsed.push(ast);
        }
        if helpers.is_empty() { return notes; }
        let unique = |x: &str| count.get(x) == Some(&1);
        let mut hit = None;
        for (k, ast) in parsed.iter().enumerate() {
            for (ty, _, sig, block, _) in functions(ast) {
                let cur = ty.as_ref().map(|t| format!("{t}::{}", sig.ident)).unwrap_or(sig.ident.to_string());
                let mut f = Find { helpers: &helpers, unique: &unique, ty, cur: cur.clone(), n, out: None, failed: &mut failed };
                f.visit_block(&block);
                if let Some(o) = f.out { hit = Some((k, o, cur)); break; }
            }
            if hit.is_some() { break; }
        }
        let Some((k, (r, t, h), cur)) = hit else {
            // drop the definitions that are not referred to any more
            let bodies: Vec<String> = parsed.iter().zip(files.iter()).map(|(ast, f)| {
                let mut t = f.1.src.clone();
                let mut u: Vec<_> = ast.items.iter().filter(|i| matches!(i, syn::Item::Use(_))).map(|i| super::rng(i)).collect();
                u.sort();
                for r in u.into_iter().rev() { t.replace_range(r.0..r.1, ""); }
                t
            }).collect();
            for (k, ast) in parsed.iter().enumerate() {
                let mut cut = vec![];
                for (ty, tr, sig, _, r) in functions(ast) {
                    let fname = sig.ident.to_string();
                    if tr || !done.contains(&fname) || failed.contains(&fname) || !helpers.get(&fname).map_or(false, |v| v.iter().any(|h| h.ty == ty)) { continue; }
                    let uses = bodies.iter().map(|f| f.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| *w == fname).count()).sum::<usize>();
                    if uses == 1 { cut.push(r); }
                }
                cut.sort();
                for r in cut.into_iter().rev() { files[k].1.src.replace_range(r.0..r.1, ""); }
            }
            return notes;
        };
        let from = helpers.get(&h).and_then(|v| v.first()).map(|x| x.file.clone()).unwrap_or_default();
        notes.push(format!("T12: {h} ({from}.rs) has no contract and is inlined into {cur}"));
        files[k].1.src.replace_range(r.0..r.1, &t);
        done.insert(h);
    }
    notes
}

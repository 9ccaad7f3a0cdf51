//! Functions that the contracts do not know (helpers extracted by a later change) are put back into
//! their callers, by substitution: a call `h(a)` of a non-recursive `fn h(p: T) -> R { B }` is
//! `{ let p: T = a; B }` with the `return`s of B eliminated.  A call that cannot be inlined this way
//! stays a call (and its caller is then not decided by the proof: see check.py).
//! New constants with a literal value are replaced by their value.
use crate::{Crate, SrcFn};
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn text<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string().replace(' ', "") }

// ------------------------------------------------------------------ matches! and small predicates
pub fn matches_expr(mac: &Macro) -> Option<Expr> {
    if mac.path.segments.last()?.ident != "matches" { return None; }
    struct M { e: Expr, p: Pat, g: Option<Expr> }
    impl parse::Parse for M {
        fn parse(i: parse::ParseStream) -> Result<Self> {
            let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
            let _ = i.parse::<Option<Token![,]>>()?;
            Ok(M { e, p, g })
        }
    }
    let m: M = parse2(mac.tokens.clone()).ok()?;
    let (e, p) = (m.e, m.p);
    Some(match m.g { None => parse_quote!(match #e { #p => true, _ => false }), Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }) })
}

/// does `f` hold of some expression in here, closures not entered
fn any_expr<F: Fn(&Expr) -> bool>(s: &[Stmt], f: F) -> bool {
    struct V<'a, F: Fn(&Expr) -> bool>(&'a F, bool);
    impl<'a, 'b, F: Fn(&Expr) -> bool> Visit<'b> for V<'a, F> {
        fn visit_expr(&mut self, e: &'b Expr) {
            if (self.0)(e) { self.1 = true; }
            if matches!(e, Expr::Closure(_)) { return; }
            visit::visit_expr(self, e);
        }
        fn visit_item(&mut self, _: &'b Item) {}
    }
    let mut v = V(&f, false);
    for x in s { v.visit_stmt(x); }
    v.1
}

fn idents_in<T: ToTokens>(t: &T) -> BTreeSet<String> {
    fn rec(ts: TokenStream, out: &mut BTreeSet<String>) {
        for t in ts { match t { TokenTree::Ident(i) => { out.insert(i.to_string()); } TokenTree::Group(g) => rec(g.stream(), out), _ => {} } }
    }
    let mut o = BTreeSet::new();
    rec(t.to_token_stream(), &mut o);
    o
}

fn bound_names(s: &[Stmt]) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'b> Visit<'b> for V { fn visit_pat_ident(&mut self, i: &'b PatIdent) { self.0.insert(i.ident.to_string()); visit::visit_pat_ident(self, i); } }
    let mut v = V(BTreeSet::new());
    for x in s { v.visit_stmt(x); }
    // constants and unit variants look like bindings
    v.0.retain(|n| n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_'));
    v.0
}
fn pat_names(p: &Pat) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'b> Visit<'b> for V { fn visit_pat_ident(&mut self, i: &'b PatIdent) { self.0.insert(i.ident.to_string()); visit::visit_pat_ident(self, i); } }
    let mut v = V(BTreeSet::new());
    v.visit_pat(p);
    v.0
}

// ------------------------------------------------------------------ eliminating `return`
/// Which exits have to go: every `return`, or only those that do not leave the caller as well.
#[derive(Clone, Copy, PartialEq)]
enum Keep { None, ErrReturns }

fn is_err_return(e: &Expr) -> bool {
    matches!(e, Expr::Return(r) if r.expr.as_ref().map_or(false, |x| {
        matches!(&**x, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err"))) || matches!(&**x, Expr::Path(p) if p.path.is_ident("None"))
    }))
}
fn exits(k: Keep) -> impl Fn(&Expr) -> bool {
    move |e| match k {
        Keep::None => matches!(e, Expr::Return(_) | Expr::Try(_)),
        Keep::ErrReturns => matches!(e, Expr::Return(_)) && !is_err_return(e),
    }
}
fn has_exit(s: &[Stmt], k: Keep) -> bool { any_expr(s, exits(k)) }
fn e_exit(e: &Expr, k: Keep) -> bool { has_exit(&[Stmt::Expr(e.clone(), None)], k) }

fn diverges(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(e, _)) => e_diverges(e),
        Some(Stmt::Macro(m)) => matches!(m.mac.path.segments.last().unwrap().ident.to_string().as_str(), "panic" | "unreachable" | "todo" | "unimplemented"),
        _ => false,
    }
}
fn e_diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
        Expr::Macro(m) => matches!(m.mac.path.segments.last().unwrap().ident.to_string().as_str(), "panic" | "unreachable" | "todo" | "unimplemented"),
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => diverges(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |(_, e)| e_diverges(e)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| e_diverges(&a.body)),
        _ => false,
    }
}
fn stmts_of(e: &Expr) -> Vec<Stmt> { match e { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] } }
fn block_of(s: Vec<Stmt>) -> Expr { parse_quote!({ #(#s)* }) }
/// what follows may be copied into several branches
fn short(s: &[Stmt]) -> bool { s.iter().map(|x| text(x).len()).sum::<usize>() < 400 && !any_expr(s, |e| matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_))) }
/// the statements, closed off so that more can follow
fn then(mut a: Vec<Stmt>, rest: &[Stmt]) -> Vec<Stmt> {
    if diverges(&a) { return a; }
    if let Some(Stmt::Expr(_, semi)) = a.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
    a.extend(rest.iter().cloned());
    a
}

/// The same statements without the exits of `k`: what follows an exit moves into the other branch.
fn tailify(s: &[Stmt], k: Keep, try_err: &str) -> Option<Vec<Stmt>> {
    let i = match s.iter().position(|x| has_exit(std::slice::from_ref(x), k)) { None => return Some(s.to_vec()), Some(i) => i };
    let mut out = s[..i].to_vec();
    let rest = &s[i + 1..];
    let last = rest.is_empty();
    match &s[i] {
        Stmt::Expr(Expr::Return(r), _) => {
            let x: Expr = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(()));
            if matches!(&x, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) && e_exit(&x, k) { out.extend(tailify(&[Stmt::Expr(x, None)], k, try_err)?); return Some(out); }
            if e_exit(&x, k) { return None; }
            out.push(Stmt::Expr(x, None));
            Some(out)
        }
        Stmt::Expr(Expr::If(x), semi) => {
            if e_exit(&x.cond, k) { return None; }
            let th0 = x.then_branch.stmts.clone();
            let el0: Vec<Stmt> = match &x.else_branch { Some((_, e)) => stmts_of(e), None => vec![] };
            let (th, el) = if last && semi.is_none() && x.else_branch.is_some() { (th0, el0) } else {
                if !diverges(&th0) && !diverges(&el0) && !last && !short(rest) { return None; }
                // names bound in the branch that goes on must not capture names of the rest
                for b in [&th0, &el0] { if !diverges(b) && bound_names(b).iter().any(|n| rest.iter().any(|r| idents_in(r).contains(n))) { return None; } }
                (then(th0, rest), then(el0, rest))
            };
            let (th, el, c) = (tailify(&th, k, try_err)?, tailify(&el, k, try_err)?, &x.cond);
            let elb: Expr = match &el[..] { [Stmt::Expr(e @ Expr::If(_), None)] => e.clone(), _ => block_of(el) };
            out.push(Stmt::Expr(parse_quote!(if #c { #(#th)* } else #elb), None));
            Some(out)
        }
        Stmt::Expr(Expr::Match(x), semi) => {
            if e_exit(&x.expr, k) || x.arms.iter().any(|a| a.guard.as_ref().map_or(false, |g| e_exit(&g.1, k))) { return None; }
            let mut m = x.clone();
            let go_on = m.arms.iter().filter(|a| !e_diverges(&a.body)).count();
            if !(last && semi.is_none()) && go_on > 1 && !last && !short(rest) { return None; }
            for a in m.arms.iter_mut() {
                let b = stmts_of(&a.body);
                let b = if last && semi.is_none() { b } else {
                    if !diverges(&b) && bound_names(&b).union(&pat_names(&a.pat)).any(|n| rest.iter().any(|r| idents_in(r).contains(n))) { return None; }
                    then(b, rest)
                };
                let b = tailify(&b, k, try_err)?;
                a.body = Box::new(block_of(b));
                a.comma = Some(Default::default());
            }
            out.push(Stmt::Expr(Expr::Match(m), None));
            Some(out)
        }
        Stmt::Expr(Expr::Block(b), _) if last && b.label.is_none() => { let t = tailify(&b.block.stmts, k, try_err)?; out.push(Stmt::Expr(block_of(t), None)); Some(out) }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = &l.pat;
            if let Some((_, div)) = &init.diverge {
                if e_exit(&init.expr, k) { return None; }
                let p = match pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let (e, d, r) = (&init.expr, tailify(&stmts_of(div), k, try_err)?, tailify(rest, k, try_err)?);
                out.push(Stmt::Expr(parse_quote!(match #e { #p => { #(#r)* } _ => { #(#d)* } }), None));
                return Some(out);
            }
            match &*init.expr {
                Expr::Try(t) if k == Keep::None && !try_err.is_empty() => {
                    if e_exit(&t.expr, k) { return None; }
                    let (e, r) = (&t.expr, tailify(rest, k, try_err)?);
                    let p = match pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    let x: Expr = if try_err == "Err" { parse_quote!(match #e { Ok(#p) => { #(#r)* } Err(__he) => Err(__he) }) } else { parse_quote!(match #e { Some(#p) => { #(#r)* } None => None }) };
                    out.push(Stmt::Expr(x, None));
                    Some(out)
                }
                Expr::Match(m) => {
                    if e_exit(&m.expr, k) || m.arms.iter().any(|a| a.guard.as_ref().map_or(false, |g| e_exit(&g.1, k))) { return None; }
                    if m.arms.iter().filter(|a| !e_diverges(&a.body)).count() > 1 && !short(rest) { return None; }
                    let mine = pat_names(pat);
                    let mut m = m.clone();
                    for a in m.arms.iter_mut() {
                        let b = stmts_of(&a.body);
                        let b = if diverges(&b) { b } else {
                            if pat_names(&a.pat).iter().any(|n| !mine.contains(n) && rest.iter().any(|r| idents_in(r).contains(n))) { return None; }
                            let e = &a.body;
                            let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #e;)];
                            v.extend(rest.iter().cloned());
                            v
                        };
                        a.body = Box::new(block_of(tailify(&b, k, try_err)?));
                        a.comma = Some(Default::default());
                    }
                    out.push(Stmt::Expr(Expr::Match(m), None));
                    Some(out)
                }
                Expr::If(x) => {
                    if e_exit(&x.cond, k) { return None; }
                    let el = x.else_branch.as_ref()?;
                    let (th0, el0) = (x.then_branch.stmts.clone(), stmts_of(&el.1));
                    if diverges(&th0) == diverges(&el0) && !short(rest) { return None; }
                    let go = |b: Vec<Stmt>| -> Vec<Stmt> { if diverges(&b) { b } else { let e = block_of(b); let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #e;)]; v.extend(rest.iter().cloned()); v } };
                    let (th, el, c) = (tailify(&go(th0), k, try_err)?, tailify(&go(el0), k, try_err)?, &x.cond);
                    out.push(Stmt::Expr(parse_quote!(if #c { #(#th)* } else { #(#el)* }), None));
                    Some(out)
                }
                _ => None,
            }
        }
        Stmt::Expr(Expr::Try(t), semi) if k == Keep::None && !try_err.is_empty() && semi.is_some() => {
            if e_exit(&t.expr, k) { return None; }
            let (e, r) = (&t.expr, tailify(rest, k, try_err)?);
            let x: Expr = if try_err == "Err" { parse_quote!(match #e { Ok(_) => { #(#r)* } Err(__he) => Err(__he) }) } else { parse_quote!(match #e { Some(_) => { #(#r)* } None => None }) };
            out.push(Stmt::Expr(x, None));
            Some(out)
        }
        // `Ok(e?)`
        Stmt::Expr(Expr::Call(c), None) if k == Keep::None && try_err == "Err" && c.args.len() == 1 && text(&c.func) == "Ok" => match &c.args[0] {
            Expr::Try(t) if !e_exit(&t.expr, k) => { out.push(Stmt::Expr((*t.expr).clone(), None)); Some(out) }
            _ => None,
        },
        _ => None,
    }
}

/// a closure's statements without `return`
pub fn without_returns(s: &[Stmt]) -> Option<Vec<Stmt>> { tailify(s, Keep::None, "") }

/// `B: Result<T, E>` as an expression of type T that leaves the caller with the error
fn ok_value(s: &[Stmt]) -> Option<Vec<Stmt>> {
    fn tail(e: &Expr) -> Option<Expr> {
        Some(match e {
            Expr::Call(c) if c.args.len() == 1 && matches!(text(&c.func).as_str(), "Ok" | "Some") => c.args[0].clone(),
            Expr::Call(c) if text(&c.func) == "Err" => parse_quote!(return #e),
            Expr::Path(p) if p.path.is_ident("None") => parse_quote!(return #e),
            Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => e.clone(),
            Expr::Paren(p) => tail(&p.expr)?,
            Expr::Block(b) if b.label.is_none() => block_of(ok_value(&b.block.stmts)?),
            Expr::If(i) => {
                let (c, t, el) = (&i.cond, ok_value(&i.then_branch.stmts)?, tail(&i.else_branch.as_ref()?.1)?);
                let el = match el { Expr::If(_) | Expr::Block(_) => el, x => parse_quote!({ #x }) };
                parse_quote!(if #c { #(#t)* } else #el)
            }
            Expr::Match(m) => { let mut m = m.clone(); for a in m.arms.iter_mut() { *a.body = tail(&a.body)?; a.comma = Some(Default::default()); } Expr::Match(m) }
            e if e_diverges(e) => e.clone(),
            e => { let e = e.clone(); parse_quote!((#e)?) }
        })
    }
    let mut s = s.to_vec();
    if matches!(s.last(), Some(Stmt::Macro(_))) { return if diverges(&s) { Some(s) } else { None }; }
    match s.last_mut() {
        Some(Stmt::Expr(e, semi)) => { if semi.is_some() && e_diverges(e) { return Some(s); } if semi.is_some() { return None; } *e = tail(e)?; Some(s) }
        _ => None,
    }
}

// ------------------------------------------------------------------ substitution
#[derive(Clone)]
enum Arg { Val(Expr), Ref(bool, Expr), Clos(ExprClosure) }

/// a parameter that takes a function
fn fn_like(t: &Type) -> bool { match t { Type::ImplTrait(_) | Type::TraitObject(_) => true, Type::Reference(r) => fn_like(&r.elem), Type::Paren(p) => fn_like(&p.elem), _ => false } }
fn closure_of(e: &Expr) -> Option<ExprClosure> { match e { Expr::Closure(c) => Some(c.clone()), Expr::Reference(r) => closure_of(&r.expr), Expr::Paren(p) => closure_of(&p.expr), _ => None } }

fn simple_place(e: &Expr) -> bool {
    match e { Expr::Path(p) => p.path.get_ident().is_some(), Expr::Field(f) => simple_place(&f.base), Expr::Paren(p) => simple_place(&p.expr), _ => false }
}
fn root(e: &Expr) -> String { match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).unwrap_or_default(), Expr::Field(f) => root(&f.base), Expr::Paren(p) => root(&p.expr), Expr::Reference(r) => root(&r.expr), Expr::Unary(u) => root(&u.expr), _ => String::new() } }

struct Subst<'a> { map: &'a BTreeMap<String, Arg>, ren: &'a BTreeMap<String, String>, bad: bool }
impl<'a> Subst<'a> {
    fn arg(&self, e: &Expr) -> Option<Arg> { match e { Expr::Path(p) => self.map.get(&p.path.get_ident()?.to_string()).cloned(), Expr::Paren(p) => self.arg(&p.expr), _ => None } }
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        let mut out = TokenStream::new();
        let mut dot = false;
        for t in ts {
            match &t {
                TokenTree::Ident(i) if !dot => {
                    let n = i.to_string();
                    if let Some(r) = self.ren.get(&n) { let r = format_ident!("{}", r); out.extend(quote!(#r)); }
                    else { match self.map.get(&n) { Some(Arg::Val(e)) => out.extend(quote!(#e)), Some(Arg::Ref(true, e)) => out.extend(quote!((&mut #e))), Some(Arg::Ref(false, e)) => out.extend(quote!((&#e))), Some(Arg::Clos(c)) => out.extend(quote!((#c))), None => out.extend([t.clone()]) } }
                }
                TokenTree::Group(g) => out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream())))]),
                _ => out.extend([t.clone()]),
            }
            dot = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.');
        }
        out
    }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = self.tokens(std::mem::take(&mut m.tokens)); }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.ren.get(&p.ident.to_string()) { p.ident = format_ident!("{}", n); }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() { if let Pat::Ident(i) = &*f.pat { if self.ren.contains_key(&i.ident.to_string()) { f.colon_token = Some(Default::default()); } } }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => if let Some(Arg::Ref(_, p)) = self.arg(&u.expr) { *e = p; return; },
            Expr::Field(f) => if let Some(Arg::Ref(_, p)) = self.arg(&f.base) { *f.base = p; return; },
            Expr::Reference(r) => if let Some(Arg::Ref(true, _)) = self.arg(&r.expr) { self.bad = true; },
            Expr::MethodCall(m) => if let Some(Arg::Ref(_, p)) = self.arg(&m.receiver) {
                if m.method != "into_iter" { *m.receiver = p; for a in m.args.iter_mut() { self.visit_expr_mut(a); } return; }
            },
            Expr::Call(c) => if let Some(Arg::Clos(k)) = self.arg(&c.func) {
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                if k.inputs.len() != c.args.len() || any_expr(&stmts_of(&k.body), |e| matches!(e, Expr::Return(_) | Expr::Try(_))) { self.bad = true; return; }
                let lets = k.inputs.iter().zip(c.args.iter()).map(|(p, a)| { let p = match p { Pat::Type(t) => &*t.pat, p => p }; quote!(let #p = #a;) });
                let b = &k.body;
                *e = parse_quote!({ #(#lets)* #b });
                return;
            },
            Expr::Index(i) => if let Some(Arg::Ref(_, p)) = self.arg(&i.expr) { *i.expr = p; self.visit_expr_mut(&mut i.index); return; },
            Expr::Path(p) => if let Some(id) = p.path.get_ident() {
                let n = id.to_string();
                if let Some(r) = self.ren.get(&n) { let r = format_ident!("{}", r); *e = parse_quote!(#r); return; }
                match self.map.get(&n) { Some(Arg::Val(x)) => { *e = x.clone(); return; } Some(Arg::Ref(true, x)) => { *e = parse_quote!(&mut #x); return; } Some(Arg::Ref(false, x)) => { *e = parse_quote!(&#x); return; } Some(Arg::Clos(c)) => { *e = Expr::Closure(c.clone()); return; } None => {} }
            },
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn strip_lifetimes(t: &Type) -> Type {
    struct V;
    impl VisitMut for V {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { r.lifetime = None; visit_mut::visit_type_reference_mut(self, r); }
        fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
            let v: Vec<GenericArgument> = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
            a.args = v.into_iter().collect();
            visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
        }
    }
    let mut t = t.clone();
    V.visit_type_mut(&mut t);
    t
}
struct SelfFix<'a>(&'a Type);
impl<'a> VisitMut for SelfFix<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.first().map_or(false, |s| s.ident == "Self") {
            if let Type::Path(t) = self.0 { let mut segs: Vec<PathSegment> = t.path.segments.iter().cloned().collect(); for s in segs.iter_mut() { s.arguments = PathArguments::None; } segs.extend(p.segments.iter().skip(1).cloned()); p.segments = segs.into_iter().collect(); }
        }
    }
}

// ------------------------------------------------------------------ the helpers
#[derive(Clone)]
struct Helper { path: String, name: String, self_ty: Option<Type>, has_self: bool, sig: Signature, block: Block, ret: Option<Type> }

fn ty_name(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), Type::Reference(r) => ty_name(&r.elem), _ => String::new() } }

fn eligible(f: &SrcFn) -> bool {
    f.trait_name.is_none() && f.sig.generics.type_params().next().is_none() && f.sig.generics.const_params().next().is_none()
        && f.sig.asyncness.is_none() && f.sig.unsafety.is_none() && f.impl_generics.type_params().next().is_none()
        && f.sig.inputs.iter().all(|a| match a {
            FnArg::Receiver(r) => r.colon_token.is_none(),
            FnArg::Typed(p) => matches!(&*p.pat, Pat::Ident(i) if i.by_ref.is_none()),
        })
}

struct Inliner<'a> { hs: &'a [Helper], self_ty: Option<Type>, ret: Option<Type>, closure: usize, fresh: &'a mut usize, done: bool, no_value: bool }

#[derive(Clone, Copy, PartialEq)]
enum Pos { Value, Tail, Try }

impl<'a> Inliner<'a> {
    /// the helper that `e` calls, and the arguments (receiver first)
    fn call(&self, e: &Expr) -> Option<(Helper, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                let p = match &*c.func { Expr::Path(p) if p.qself.is_none() => &p.path, _ => return None };
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last()?.clone();
                let ty = if segs.len() >= 2 { let t = &segs[segs.len() - 2]; if t == "Self" { self.self_ty.as_ref().map(ty_name) } else { Some(t.clone()) } } else { None };
                let h = self.hs.iter().find(|h| h.name == last && match (&h.self_ty, &ty) { (None, None) => true, (None, Some(m)) => m.chars().next().map_or(false, |c| c.is_lowercase()), (Some(t), Some(n)) => ty_name(t) == *n, _ => false })?;
                if c.args.len() != h.sig.inputs.len() { return None; }
                Some((h.clone(), c.args.iter().cloned().collect()))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let hs: Vec<&Helper> = self.hs.iter().filter(|h| h.name == n && h.has_self).collect();
                if hs.len() != 1 { return None; }
                let h = hs[0];
                if root(&m.receiver) == "self" && text(&m.receiver) == "self" { if let (Some(a), Some(b)) = (&self.self_ty, &h.self_ty) { if ty_name(a) != ty_name(b) { return None; } } }
                if m.args.len() + 1 != h.sig.inputs.len() { return None; }
                let mut a = vec![(*m.receiver).clone()];
                a.extend(m.args.iter().cloned());
                Some((h.clone(), a))
            }
            Expr::Paren(p) => self.call(&p.expr),
            _ => None,
        }
    }

    fn expand(&mut self, h: &Helper, args: &[Expr], pos: Pos) -> Option<Expr> {
        let mut block = h.block.clone();
        if let Some(t) = &h.self_ty { if self.self_ty.as_ref().map(ty_name) != Some(ty_name(t)) { SelfFix(t).visit_block_mut(&mut block); } }
        let bound = bound_names(&block.stmts);
        let arg_ids: BTreeSet<String> = args.iter().flat_map(|a| idents_in(a)).collect();
        let mut map = BTreeMap::new();
        let mut ren = BTreeMap::new();
        let mut lets: Vec<Stmt> = vec![];
        // places that the helper may write through
        let mut written: Vec<String> = vec![];
        for (a, x) in h.sig.inputs.iter().zip(args) {
            let m = match a { FnArg::Receiver(r) => r.reference.is_some() && r.mutability.is_some(), FnArg::Typed(p) => matches!(&*p.ty, Type::Reference(r) if r.mutability.is_some()) };
            if m { written.push(root(x)); }
        }
        for n in &bound { if arg_ids.contains(n) { *self.fresh += 1; ren.insert(n.clone(), format!("{}_h{}", n, self.fresh)); } }
        for (a, x) in h.sig.inputs.iter().zip(args) {
            let mut x = x.clone();
            while let Expr::Paren(p) = &x { x = (*p.expr).clone(); }
            match a {
                FnArg::Receiver(r) => {
                    if text(&x) == "self" { continue; }
                    if r.reference.is_none() && r.mutability.is_some() { return None; }
                    if !simple_place(&x) { if r.reference.is_some() || !matches!(&x, Expr::MethodCall(_) | Expr::Call(_)) { return None; } *self.fresh += 1; let n = format_ident!("recv_h{}", self.fresh); lets.push(parse_quote!(let #n = #x;)); map.insert("self".to_string(), Arg::Val(parse_quote!(#n))); continue; }
                    map.insert("self".to_string(), match &r.reference { Some(_) => Arg::Ref(r.mutability.is_some(), x), None => Arg::Val(x) });
                }
                FnArg::Typed(p) => {
                    let (n, mutable) = match &*p.pat { Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()), _ => return None };
                    let rebound = bound.contains(&n);
                    let is_ref_ty = matches!(&*p.ty, Type::Reference(_));
                    if fn_like(&p.ty) {
                        if rebound || mutable { return None; }
                        if let Some(c) = closure_of(&x) { map.insert(n, Arg::Clos(c)); continue; }
                        if !matches!(&x, Expr::Path(q) if q.path.get_ident().is_some()) { return None; }
                        map.insert(n, Arg::Val(x));
                        continue;
                    }
                    let direct = !rebound && !mutable && match &x {
                        Expr::Reference(r) => simple_place(&r.expr) && (r.mutability.is_some() || !written.contains(&root(&r.expr))),
                        Expr::Lit(_) => true,
                        e if simple_place(e) => matches!(e, Expr::Path(_)) && (is_ref_ty || !written.contains(&root(e))) || !is_ref_ty && !written.contains(&root(e)),
                        _ => false,
                    };
                    if direct {
                        if ren.contains_key(&n) { ren.remove(&n); }
                        map.insert(n, match &x { Expr::Reference(r) => Arg::Ref(r.mutability.is_some(), (*r.expr).clone()), e => Arg::Val(e.clone()) });
                    } else {
                        let nn = if arg_ids.contains(&n) { *self.fresh += 1; let q = format!("{}_h{}", n, self.fresh); ren.insert(n.clone(), q.clone()); q } else { n };
                        let id = format_ident!("{}", nn);
                        let ty = strip_lifetimes(&p.ty);
                        let mt = if mutable { quote!(mut) } else { quote!() };
                        let typed = matches!(&*p.ty, Type::Reference(_)) || matches!(&x, Expr::Lit(_) | Expr::Binary(_));
                        lets.push(if typed { parse_quote!(let #mt #id: #ty = #x;) } else { parse_quote!(let #mt #id = #x;) });
                    }
                }
            }
        }
        let mut sb = Subst { map: &map, ren: &ren, bad: false };
        sb.visit_block_mut(&mut block);
        if sb.bad { return None; }
        let any_ret = has_exit(&block.stmts, Keep::None);
        let same_ret = self.closure == 0 && match (&h.ret, &self.ret) { (None, None) => true, (Some(a), Some(b)) => text(a) == text(b), _ => false };
        let body: Vec<Stmt> = if !any_ret && pos != Pos::Try { block.stmts }
            else if pos == Pos::Tail && same_ret { block.stmts }
            else if pos == Pos::Try && self.closure == 0 && self.same_err(h) {
                let b = tailify(&block.stmts, Keep::ErrReturns, "")?;
                ok_value(&b)?
            }
            else { tailify(&block.stmts, Keep::None, match h.ret.as_ref().map(ty_name).as_deref() { Some("Result") => "Err", Some("Option") => "None", _ => "" })? };
        // a body that ends in `;` has the value ()
        let mut all = lets;
        all.extend(body);
        self.done = true;
        let e: Expr = match &all[..] {
            [Stmt::Expr(e, None)] => match e { Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Lit(_) | Expr::Field(_) | Expr::Paren(_) => e.clone(), Expr::Match(_) | Expr::If(_) | Expr::Block(_) if pos == Pos::Tail => e.clone(), e => parse_quote!((#e)) },
            _ => block_of(all),
        };
        Some(if pos == Pos::Try && !(self.closure == 0 && self.same_err(h)) { parse_quote!((#e)?) } else { e })
    }
    fn same_err(&self, h: &Helper) -> bool {
        fn err(t: &Option<Type>) -> Option<String> {
            let t = t.as_ref()?;
            if let Type::Path(p) = t { let s = p.path.segments.last()?; if s.ident == "Option" { return Some("None".into()); }
                if s.ident == "Result" { if let PathArguments::AngleBracketed(a) = &s.arguments { return a.args.iter().nth(1).map(|x| text(x)); } } }
            None
        }
        let (a, b) = (err(&h.ret), err(&self.ret));
        a.is_some() && a == b
    }
    fn tail(&mut self, s: &mut Vec<Stmt>) { if let Some(Stmt::Expr(e, None)) = s.last_mut() { self.tail_expr(e); } }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail(&mut b.block.stmts),
            Expr::If(i) => { self.tail(&mut i.then_branch.stmts); if let Some((_, e)) = &mut i.else_branch { self.tail_expr(e); } }
            Expr::Match(m) => for a in m.arms.iter_mut() { self.tail_expr(&mut a.body) },
            Expr::Call(_) | Expr::MethodCall(_) => if let Some((h, args)) = self.call(e) { let args = self.args(args); if let Some(x) = self.expand(&h, &args, Pos::Tail) { *e = x; } },
            _ => {}
        }
    }
    fn args(&mut self, mut a: Vec<Expr>) -> Vec<Expr> { for x in a.iter_mut() { self.visit_expr_mut(x); } a }
    fn path_arg(&self, e: &mut Expr, n: &mut usize) {
        if self.no_value { return; }
        // a helper passed as a value: `f(h)` is `f(|x| h(x))`
        if let Expr::Reference(r) = e { if r.mutability.is_none() { self.path_arg(&mut r.expr, n); } return; }
        if let Expr::Path(p) = e {
            let probe: Expr = { let p = p.clone(); parse_quote!(#p(__probe)) };
            if p.path.segments.len() <= 2 && self.call(&probe).is_some() { *n += 1; let (v, p) = (format_ident!("hx{}", n), p.clone()); *e = parse_quote!(|#v| #p(#v)); }
        }
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_stmt_mut(&mut self, s: &mut Stmt) { visit_mut::visit_stmt_mut(self, s); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { if let Some(x) = matches_expr(&m.mac) { *e = x; } }
        match e {
            Expr::Closure(c) => { self.closure += 1; self.visit_expr_mut(&mut c.body); self.closure -= 1; return; }
            Expr::Try(t) => if let Some((h, args)) = self.call(&t.expr) {
                let args = self.args(args);
                if let Some(x) = self.expand(&h, &args, Pos::Try) { *e = x; return; }
                return;
            },
            Expr::Return(r) => if let Some(x) = &r.expr { if self.closure == 0 { if let Some((h, args)) = self.call(x) {
                let args = self.args(args);
                if let Some(x) = self.expand(&h, &args, Pos::Tail) { r.expr = Some(Box::new(x)); return; }
                return;
            } } },
            Expr::Call(c) => { let mut n = *self.fresh; for a in c.args.iter_mut() { self.path_arg(a, &mut n); } *self.fresh = n; }
            Expr::MethodCall(m) => { let mut n = *self.fresh; for a in m.args.iter_mut() { self.path_arg(a, &mut n); } *self.fresh = n; }
            _ => {}
        }
        if let Some((h, args)) = self.call(e) {
            let args = self.args(args);
            if let Some(x) = self.expand(&h, &args, Pos::Value) { *e = x; return; }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn calls_of(hs: &[Helper], b: &Block, self_ty: &Option<Type>) -> BTreeSet<String> {
    struct V<'a>(Inliner<'a>, BTreeSet<String>);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_expr(&mut self, e: &'b Expr) { if let Some((h, _)) = self.0.call(e) { self.1.insert(h.path); } if let Expr::Path(p) = e { let i = p.path.segments.last().unwrap().ident.to_string(); for h in self.0.hs { if h.name == i { self.1.insert(h.path.clone()); } } } visit::visit_expr(self, e); }
        fn visit_macro(&mut self, m: &'b Macro) { let i = idents_in(m); for h in self.0.hs { if i.contains(&h.name) { self.1.insert(h.path.clone()); } } }
    }
    let mut fresh = 0;
    let mut v = V(Inliner { hs, self_ty: self_ty.clone(), ret: None, closure: 0, fresh: &mut fresh, done: false, no_value: false }, BTreeSet::new());
    v.visit_block(b);
    v.1
}

/// Functions and constants declared inside a function body: the functions become functions of the
/// crate, constants with a literal value are replaced by it.
pub fn unnest(c: &mut Crate) {
    let mut more: Vec<SrcFn> = vec![];
    let names: BTreeSet<String> = c.fns.iter().map(|f| f.path.clone()).collect();
    for f in c.fns.iter_mut() {
        struct U { fns: Vec<ItemFn>, consts: BTreeMap<String, Expr>, taken: BTreeSet<String> }
        impl VisitMut for U {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut out = vec![];
                for s in std::mem::take(&mut b.stmts) {
                    match s {
                        Stmt::Item(Item::Fn(f)) if !self.taken.contains(&f.sig.ident.to_string()) && !self.fns.iter().any(|g| g.sig.ident == f.sig.ident) => self.fns.push(f),
                        Stmt::Item(Item::Const(k)) if literal(&k.expr) && !self.consts.contains_key(&k.ident.to_string()) => { self.consts.insert(k.ident.to_string(), (*k.expr).clone()); }
                        Stmt::Item(Item::Static(k)) if literal(&k.expr) && !self.consts.contains_key(&k.ident.to_string()) => { self.consts.insert(k.ident.to_string(), (*k.expr).clone()); }
                        s => out.push(s),
                    }
                }
                b.stmts = out;
                visit_mut::visit_block_mut(self, b);
            }
        }
        let mut u = U { fns: vec![], consts: BTreeMap::new(), taken: names.iter().cloned().chain(more.iter().map(|m| m.path.clone())).collect() };
        u.visit_block_mut(&mut f.block);
        if !u.consts.is_empty() { K(&u.consts).visit_block_mut(&mut f.block); }
        for mut g in u.fns {
            if !u.consts.is_empty() { K(&u.consts).visit_block_mut(&mut g.block); }
            more.push(SrcFn { path: g.sig.ident.to_string(), file: f.file.clone(), line: f.line, self_ty: None, impl_generics: Generics::default(), trait_name: None, trait_path: None, vis_pub: false, sig: g.sig, block: *g.block, assoc: vec![] });
        }
    }
    c.fns.extend(more);
}

/// `let f = |x| ..;` in a function body: each use of `f` is replaced by the closure.
pub fn local_closures(c: &mut Crate) {
    let mut fresh = 50_000usize;
    for f in c.fns.iter_mut() {
        let ret = match &f.sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some((**t).clone()) };
        let all = bound_names(&f.block.stmts);
        let whole = f.block.clone();
        struct L<'a> { self_ty: Option<Type>, ret: Option<Type>, fresh: &'a mut usize, whole: Block, fn_body: bool }
        impl<'a> L<'a> {
            fn one(&mut self, stmts: &[Stmt], i: usize) -> Option<Vec<Stmt>> {
                let l = match &stmts[i] { Stmt::Local(l) => l, _ => return None };
                let n = match &l.pat { Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => p.ident.clone(), _ => return None };
                let c = match &l.init { Some(x) if x.diverge.is_none() => match &*x.expr { Expr::Closure(c) if c.asyncness.is_none() => c.clone(), _ => return None }, _ => return None };
                let rest = &stmts[i + 1..];
                // no other binding of the name; nothing the closure names is bound again where it is used
                struct P(String, usize);
                impl<'b> Visit<'b> for P { fn visit_pat_ident(&mut self, p: &'b PatIdent) { if p.ident == self.0 { self.1 += 1; } visit::visit_pat_ident(self, p); } }
                let mut p = P(n.to_string(), 0); p.visit_block(&self.whole);
                if p.1 != 1 { return None; }
                let body_ids = idents_in(&c.body);
                let later = bound_names(rest);
                if body_ids.iter().any(|x| later.contains(x) && !bound_names(&[Stmt::Expr(Expr::Closure(c.clone()), None)]).contains(x)) { return None; }
                if c.capture.is_some() && !assigned(rest).is_disjoint(&body_ids) { return None; }
                if any_expr(&stmts_of(&c.body), |e| matches!(e, Expr::Macro(_))) { }
                let mut rest: Vec<Stmt> = rest.to_vec();
                // calls
                let params: Option<Vec<FnArg>> = c.inputs.iter().map(|p| -> Option<FnArg> { match p { Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(parse_quote!(#i: _)), Pat::Type(t) if matches!(&*t.pat, Pat::Ident(_)) => Some(FnArg::Typed(t.clone())), _ => None } }).collect();
                if let Some(ps) = params {
                    let out = c.output.clone();
                    let sig: Signature = parse_quote!(fn #n(#(#ps),*) #out);
                    let block = Block { brace_token: Default::default(), stmts: stmts_of(&c.body) };
                    let hret = match &c.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some((**t).clone()) };
                    if hret.is_none() && has_exit(&block.stmts, Keep::None) && any_expr(&block.stmts, |e| matches!(e, Expr::Try(_))) { return None; }
                    let h = Helper { path: n.to_string(), name: n.to_string(), self_ty: None, has_self: false, sig, block, ret: hret };
                    let hs = vec![h];
                    let mut il = Inliner { hs: &hs, self_ty: self.self_ty.clone(), ret: self.ret.clone(), closure: 0, fresh: self.fresh, done: false, no_value: true };
                    if self.fn_body { il.tail(&mut rest); }
                    let mut b = Block { brace_token: Default::default(), stmts: rest };
                    il.visit_block_mut(&mut b);
                    rest = b.stmts;
                }
                // the closure passed on
                struct V(Ident, ExprClosure);
                impl VisitMut for V {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        if let Expr::Path(p) = e { if p.path.is_ident(&self.0) { *e = Expr::Closure(self.1.clone()); } return; }
                        if let Expr::Call(c) = e { for a in c.args.iter_mut() { self.visit_expr_mut(a); } if !matches!(&*c.func, Expr::Path(_)) { self.visit_expr_mut(&mut c.func); } return; }
                        visit_mut::visit_expr_mut(self, e);
                    }
                }
                let mut b = Block { brace_token: Default::default(), stmts: rest };
                V(n.clone(), c).visit_block_mut(&mut b);
                if idents_in(&b).contains(&n.to_string()) { return None; }
                let mut out = stmts[..i].to_vec();
                out.extend(b.stmts);
                Some(out)
            }
        }
        impl<'a> VisitMut for L<'a> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut i = 0;
                while i < b.stmts.len() {
                    match self.one(&b.stmts, i) { Some(s) => b.stmts = s, None => i += 1 }
                }
                self.fn_body = false;
                visit_mut::visit_block_mut(self, b);
            }
        }
        let _ = all;
        L { self_ty: f.self_ty.clone(), ret, fresh: &mut fresh, whole, fn_body: true }.visit_block_mut(&mut f.block);
    }
}
/// the variables that statements assign to or borrow mutably
fn assigned(s: &[Stmt]) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'b> Visit<'b> for V {
        fn visit_expr(&mut self, e: &'b Expr) {
            match e {
                Expr::Assign(a) => { self.0.insert(root(&a.left)); }
                Expr::Binary(b) if !matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) | BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) => { self.0.insert(root(&b.left)); }
                Expr::Reference(r) if r.mutability.is_some() => { self.0.insert(root(&r.expr)); }
                Expr::MethodCall(m) => { self.0.insert(root(&m.receiver)); }
                _ => {}
            }
            visit::visit_expr(self, e);
        }
        fn visit_macro(&mut self, m: &'b Macro) { self.0.extend(idents_in(m)); }
    }
    let mut v = V(BTreeSet::new());
    for x in s { v.visit_stmt(x); }
    v.0
}

fn literal(e: &Expr) -> bool { match e { Expr::Lit(_) => true, Expr::Path(p) => p.path.segments.len() > 1, Expr::Unary(u) => literal(&u.expr), Expr::Paren(p) => literal(&p.expr), Expr::Cast(x) => literal(&x.expr), Expr::Call(x) => literal(&x.func) && x.args.iter().all(literal), Expr::MethodCall(m) => m.args.is_empty() && m.method == "len" && literal(&m.receiver), Expr::Binary(b) => literal(&b.left) && literal(&b.right), Expr::Array(a) => a.elems.iter().all(literal), Expr::Reference(r) => literal(&r.expr), Expr::Tuple(a) => a.elems.iter().all(literal), _ => false } }
struct K<'a>(&'a BTreeMap<String, Expr>);
impl<'a> VisitMut for K<'a> {
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn rec(ts: TokenStream, m: &BTreeMap<String, Expr>) -> TokenStream {
            ts.into_iter().flat_map(|t| -> TokenStream { match &t { TokenTree::Ident(i) => match m.get(&i.to_string()) { Some(e) => quote!(#e), None => t.into() }, TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rec(g.stream(), m))).into(), _ => t.into() } }).collect()
        }
        m.tokens = rec(std::mem::take(&mut m.tokens), self.0);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { if let Some(x) = matches_expr(&m.mac) { *e = x; } }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e { if let Some(x) = self.0.get(&p.path.segments.last().unwrap().ident.to_string()) { *e = match x { Expr::Lit(_) | Expr::Path(_) | Expr::Call(_) | Expr::Array(_) => x.clone(), x => parse_quote!((#x)) }; } }
    }
    // a constant used as a pattern
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        let n = match p { Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => i.ident.to_string(), _ => return };
        if let Some(Expr::Lit(l)) = self.0.get(&n) { *p = Pat::Lit(l.clone()); }
    }
}

pub fn inline_all(c: &mut Crate, known: &BTreeSet<String>) {
    // constants
    let mut cm: BTreeMap<String, Expr> = BTreeMap::new();
    for (n, _, k) in &c.consts {
        if known.contains(&format!("const {}", n)) { continue; }
        if literal(&k.expr) { cm.insert(n.clone(), (*k.expr).clone()); }
    }
    if !cm.is_empty() { for f in c.fns.iter_mut() { K(&cm).visit_block_mut(&mut f.block); } for n in cm.keys() { c.dropped.push((format!("const {}", n), "new constant, replaced by its value".into())); } c.consts.retain(|x| !cm.contains_key(&x.0)); }

    let mut hs: Vec<Helper> = c.fns.iter().filter(|f| !known.contains(&f.path) && eligible(f)).map(|f| Helper {
        path: f.path.clone(), name: f.sig.ident.to_string(), self_ty: f.self_ty.clone(), has_self: f.sig.receiver().is_some(), sig: f.sig.clone(), block: f.block.clone(),
        ret: match &f.sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some((**t).clone()) },
    }).collect();
    if hs.is_empty() { return; }
    // a method name that known functions use as well is not resolved here
    let taken: BTreeSet<String> = c.fns.iter().filter(|f| known.contains(&f.path) && f.sig.receiver().is_some()).map(|f| f.sig.ident.to_string()).collect();
    hs.retain(|h| !(h.has_self && taken.contains(&h.name)));
    // no recursion
    loop {
        let graph: BTreeMap<String, BTreeSet<String>> = hs.iter().map(|h| (h.path.clone(), calls_of(&hs, &h.block, &h.self_ty))).collect();
        let cyc: Vec<String> = graph.keys().filter(|k| { let mut seen = BTreeSet::new(); let mut todo: Vec<String> = graph[*k].iter().cloned().collect(); while let Some(x) = todo.pop() { if x == **k { return true; } if seen.insert(x.clone()) { if let Some(n) = graph.get(&x) { todo.extend(n.iter().cloned()); } } } false }).cloned().collect();
        if cyc.is_empty() { break; }
        hs.retain(|h| !cyc.contains(&h.path));
    }
    let mut fresh = 0usize;
    for _ in 0..6 {
        let mut any = false;
        // the helpers first, so that each call is expanded with a body that has no calls left
        for f in c.fns.iter_mut() {
            let mut il = Inliner { hs: &hs, self_ty: f.self_ty.clone(), ret: match &f.sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some((**t).clone()) }, closure: 0, fresh: &mut fresh, done: false, no_value: false };
            if calls_of(&hs, &f.block, &f.self_ty).is_empty() { continue; }
            il.tail(&mut f.block.stmts);
            il.visit_block_mut(&mut f.block);
            any |= il.done;
        }
        for h in hs.iter_mut() { if let Some(f) = c.fns.iter().find(|f| f.path == h.path) { h.block = f.block.clone(); } }
        if !any { break; }
    }
    let mut used = BTreeSet::new();
    for f in &c.fns { used.extend(calls_of(&hs, &f.block, &f.self_ty)); }
    for h in &hs { if !used.contains(&h.path) { c.fns.retain(|f| f.path != h.path); c.dropped.push((h.path.clone(), "new function without a contract, put back into its callers".into())); } }
}

use crate::{strip_mods_text, Crate, SrcFn};
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Head { Opt, Res, Str, Iter, Seq, StmtIter, Other(String), Unknown }

pub struct Tables {
    pub mods: BTreeSet<String>,
    pub types: BTreeSet<String>,
    pub fields: BTreeMap<String, Option<Type>>,
    pub fn_ret: BTreeMap<String, Option<Type>>, // by "Type::name" and "name"
    pub fn_args: BTreeMap<String, Vec<Option<Type>>>, // by bare name, receiver excluded
    pub inherent: BTreeSet<String>, // "Type::name" declared in inherent impls
    pub from_result: BTreeMap<String, (String, Block)>,
}

/// `let x = loop { .. break v .. };` as `let x; loop { .. { x = v; break; } .. }`
fn break_value(s: &Stmt) -> Option<Vec<Stmt>> {
    let l = match s { Stmt::Local(l) => l, _ => return None };
    let (name, ty) = match &l.pat {
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => (i.clone(), None),
        Pat::Type(t) => match &*t.pat { Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => (i.clone(), Some((*t.ty).clone())), _ => return None },
        _ => return None,
    };
    let init = l.init.as_ref()?;
    if init.diverge.is_some() { return None; }
    let mut lp = match &*init.expr { Expr::Loop(x) if x.label.is_none() => x.clone(), _ => return None };
    struct B { name: Ident, n: usize, bad: bool, depth: usize }
    impl VisitMut for B {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Closure(_) => return,
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { self.depth += 1; visit_mut::visit_expr_mut(self, e); self.depth -= 1; return; }
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Break(b) = e {
                if b.label.is_some() { self.bad = true; }
                if let (Some(v), 0) = (&b.expr, self.depth) {
                    let n = &self.name;
                    self.n += 1;
                    *e = parse_quote!({ #n = #v; break; });
                }
            }
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) { if m.tokens.to_string().contains("break") { self.bad = true; } }
    }
    let mut b = B { name: name.ident.clone(), n: 0, bad: false, depth: 0 };
    b.visit_block_mut(&mut lp.body);
    if b.bad || b.n == 0 { return None; }
    let i = Pat::Ident(name);
    let decl: Stmt = match ty { Some(t) => parse_quote!(let #i: #t;), None => parse_quote!(let #i;) };
    Some(vec![decl, Stmt::Expr(Expr::Loop(lp), None)])
}

pub fn tname(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => tname(&r.elem),
        Type::Paren(r) => tname(&r.elem),
        Type::Group(r) => tname(&r.elem),
        _ => String::new(),
    }
}

pub fn head_of_type(t: &Type) -> Head {
    match t {
        Type::Reference(r) => head_of_type(&r.elem),
        Type::Paren(r) => head_of_type(&r.elem),
        Type::Group(r) => head_of_type(&r.elem),
        Type::Slice(_) | Type::Array(_) => Head::Seq,
        Type::Path(p) => match p.path.segments.last().unwrap().ident.to_string().as_str() {
            "Option" => Head::Opt,
            "Result" => Head::Res,
            "str" => Head::Str,
            "Vec" | "VecDeque" => Head::Seq,
            "Iter" | "IntoIter" | "Peekable" | "Chars" | "CharIndices" | "CharsIt" | "CharIndicesIt" | "BytesIt" | "RefIt" | "OwnIt" => Head::Iter,
            "StatementIterator" => Head::StmtIter,
            s => Head::Other(s.to_string()),
        },
        _ => Head::Unknown,
    }
}

impl Tables {
    pub fn build(c: &Crate) -> Tables {
        let mut t = Tables { mods: c.mods.clone(), types: c.types.iter().map(|x| x.0.clone()).collect(),
            fields: BTreeMap::new(), fn_ret: BTreeMap::new(), fn_args: BTreeMap::new(), inherent: BTreeSet::new(), from_result: c.from_result.iter().map(|(a, b, k)| (a.clone(), (b.clone(), k.clone()))).collect() };
        fn put(m: &mut BTreeMap<String, Option<Type>>, k: String, v: Type) {
            match m.get(&k) {
                Some(Some(o)) if tname(o) != tname(&v) => { m.insert(k, None); }
                Some(_) => {}
                None => { m.insert(k, Some(v)); }
            }
        }
        for (_, _, it) in &c.types {
            let mut fs: Vec<&Fields> = vec![];
            match it { Item::Struct(s) => fs.push(&s.fields), Item::Enum(e) => for v in &e.variants { fs.push(&v.fields) }, _ => {} }
            for f in fs { for x in f.iter() { if let Some(i) = &x.ident { put(&mut t.fields, i.to_string(), x.ty.clone()); } } }
        }
        for f in &c.fns {
            let name = f.sig.ident.to_string();
            if let ReturnType::Type(_, ty) = &f.sig.output {
                let ty = subst_assoc(ty, &f.assoc, f.self_ty.as_ref());
                put(&mut t.fn_ret, name.clone(), ty.clone());
                if let Some(s) = &f.self_ty { put(&mut t.fn_ret, format!("{}::{}", tname(s), name), ty); }
            }
            let mut args = vec![];
            for i in &f.sig.inputs { if let FnArg::Typed(p) = i { args.push(Some((*p.ty).clone())); } }
            t.fn_args.entry(name.clone()).or_insert(args);
            if f.trait_name.is_none() { if let Some(s) = &f.self_ty { t.inherent.insert(format!("{}::{}", tname(s), name)); } }
        }
        t
    }
    pub fn strip(&self, p: &mut syn::Path) {
        loop {
            if p.segments.len() < 2 { break; }
            let f = p.segments.first().unwrap().ident.to_string();
            if f == "crate" || f == "self" || f == "super" || f == "lolcode_ast" || (self.mods.contains(&f) && !self.types.contains(&f)) {
                let segs: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                p.segments = segs.into_iter().collect();
                p.leading_colon = None;
            } else { break; }
        }
    }
    pub fn fix_type(&self, t: &Type) -> Type { let mut t = t.clone(); PathFix { t: self }.visit_type_mut(&mut t); t }
    pub fn fix_paths_expr(&self, e: &mut Expr) { PathFix { t: self }.visit_expr_mut(e) }
}

pub struct PathFix<'a> { pub t: &'a Tables }
impl<'a> VisitMut for PathFix<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) { visit_mut::visit_path_mut(self, p); self.t.strip(p); }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let s = t.to_token_stream().to_string().replace(' ', "");
        if s == "Peekable<std::vec::IntoIter<Token>>" || s == "std::iter::Peekable<std::vec::IntoIter<Token>>" || s == "Peekable<IntoIter<Token>>" {
            *t = parse_quote!(TokenSource);
        }
        if let Type::Path(p) = t {
            let full = p.path.to_token_stream().to_string().replace(' ', "");
            if full.starts_with("std::slice::Iter<") {
                let a = p.path.segments.last().unwrap().arguments.clone();
                *t = parse_quote!(RefIt #a);
            } else if full.starts_with("std::collections::VecDeque<") || full == "std::string::String" || full.starts_with("std::option::Option<")
                || full.starts_with("::std::") || full.starts_with("std::vec::Vec<") || full.starts_with("std::boxed::Box<") {
                let l = p.path.segments.last().unwrap().clone();
                *t = parse_quote!(#l);
            }
        }
        // &mut &mut T  =>  &mut T
        if let Type::Reference(r) = t {
            if r.mutability.is_some() {
                if let Type::Reference(r2) = &*r.elem {
                    if r2.mutability.is_some() { let inner = (*r.elem).clone(); *t = inner; }
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if let Some(q) = &p.qself {
                // <Ty as Trait>::f
                let ty = tname(&q.ty);
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() >= 2 {
                    let f = segs[segs.len() - 1].clone();
                    let tr = segs[segs.len() - 2].clone();
                    let name = if self.t.inherent.contains(&format!("{}::{}", ty, f)) { format!("{}__{}", tr, f) } else { f };
                    let (a, b) = (format_ident!("{}", ty), format_ident!("{}", name));
                    *e = parse_quote!(#a::#b);
                }
            }
        }
    }
}

/// the (first) type argument of `Option<T>` or `Result<T, _>`
fn inner_ty(t: &Type, names: &[&str]) -> Option<Type> {
    let t = match t { Type::Reference(r) => &*r.elem, t => t };
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if names.iter().any(|n| s.ident == n) { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(x)) = a.args.first() { return Some(x.clone()); } } }
    }
    None
}

pub fn subst_assoc(t: &Type, assoc: &[(String, Type)], self_ty: Option<&Type>) -> Type {
    struct V<'a>(&'a [(String, Type)], Option<&'a Type>);
    impl<'a> VisitMut for V<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            visit_mut::visit_type_mut(self, t);
            let s = t.to_token_stream().to_string().replace(' ', "");
            if let Some(n) = s.strip_prefix("Self::") {
                for (a, ty) in self.0 { if a == n { *t = ty.clone(); } }
            }
        }
    }
    let mut t = t.clone();
    V(assoc, self_ty).visit_type_mut(&mut t);
    t
}

pub fn emit_type(item: &Item, t: &Tables) -> (String, Value) {
    let mut fields = vec![];
    let keep_derive = |attrs: &Vec<Attribute>| -> Vec<String> {
        let mut d = vec![];
        for a in attrs { if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| { d.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
        } }
        d
    };
    let mut item = item.clone();
    struct Pub<'a>(&'a Tables);
    impl<'a> VisitMut for Pub<'a> {
        fn visit_field_mut(&mut self, f: &mut Field) { f.attrs.clear(); PathFix { t: self.0 }.visit_type_mut(&mut f.ty); }
        fn visit_variant_mut(&mut self, v: &mut Variant) { v.attrs.clear(); visit_mut::visit_variant_mut(self, v); }
    }
    let derives = match &mut item {
        Item::Struct(s) => {
            let d = keep_derive(&s.attrs); s.attrs.clear(); s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); }
            for (i, f) in s.fields.iter().enumerate() {
                fields.push(json!([f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), f.ty.to_token_stream().to_string()]));
            }
            d
        }
        Item::Enum(s) => {
            let d = keep_derive(&s.attrs); s.attrs.clear(); s.vis = parse_quote!(pub);
            for v in s.variants.iter() { fields.push(json!([v.ident.to_string(), v.fields.to_token_stream().to_string()])); }
            d
        }
        Item::Type(s) => { s.attrs.clear(); s.vis = parse_quote!(pub); vec![] }
        _ => vec![],
    };
    Pub(t).visit_item_mut(&mut item);
    (item.to_token_stream().to_string(), json!({"derives": derives, "fields": fields}))
}

fn contains<F: Fn(&Expr) -> bool>(e: &Expr, f: F, into_closures: bool) -> bool {
    struct V<'a, F: Fn(&Expr) -> bool>(&'a F, bool, bool);
    impl<'a, 'b, F: Fn(&Expr) -> bool> Visit<'b> for V<'a, F> {
        fn visit_expr(&mut self, e: &'b Expr) {
            if (self.0)(e) { self.1 = true; }
            if matches!(e, Expr::Closure(_)) && !self.2 { return; }
            visit::visit_expr(self, e);
        }
    }
    let mut v = V(&f, false, into_closures);
    v.visit_expr(e);
    v.1
}

/// Rewrites `{ ..; if c { ..; return x; } ..; rest }` into `{ ..; if c { ..; x } else { ..; rest } }`.
fn elim_return(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let has_ret = |e: &Expr| contains(e, |x| matches!(x, Expr::Return(_)), false);
    for (i, s) in stmts.iter().enumerate() {
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if i + 1 != stmts.len() { return None; }
                let x: Expr = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(()));
                if has_ret(&x) { return None; }
                let mut out = stmts[..i].to_vec();
                out.push(Stmt::Expr(x, None));
                return Some(out);
            }
            Stmt::Expr(Expr::If(ifx), semi) if has_ret(&Expr::If(ifx.clone())) => {
                if has_ret(&ifx.cond) { return None; }
                let rest = &stmts[i + 1..];
                let then_ends = matches!(ifx.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                let mut out = stmts[..i].to_vec();
                let cond = &ifx.cond;
                if rest.is_empty() && semi.is_none() {
                    let th = elim_return(&ifx.then_branch.stmts)?;
                    let els = match &ifx.else_branch { Some((_, e)) => elim_return(&[Stmt::Expr((**e).clone(), None)])?, None => vec![] };
                    out.push(parse_quote!(if #cond { #(#th)* } else { #(#els)* }));
                    return Some(fix_tail(out));
                }
                if !then_ends { return None; }
                let th = elim_return(&ifx.then_branch.stmts)?;
                let mut els: Vec<Stmt> = vec![];
                if let Some((_, e)) = &ifx.else_branch {
                    if has_ret(e) { return None; }
                    els.push(Stmt::Expr((**e).clone(), Some(Default::default())));
                }
                els.extend(rest.iter().cloned());
                let els = elim_return(&els)?;
                let x: Expr = parse_quote!(if #cond { #(#th)* } else { #(#els)* });
                out.push(Stmt::Expr(x, None));
                return Some(out);
            }
            Stmt::Expr(Expr::Block(b), None) if i + 1 == stmts.len() => {
                let inner = elim_return(&b.block.stmts)?;
                let mut out = stmts[..i].to_vec();
                out.push(Stmt::Expr(parse_quote!({ #(#inner)* }), None));
                return Some(out);
            }
            Stmt::Expr(e, _) if has_ret(e) => return None,
            Stmt::Local(l) => if let Some(init) = &l.init { if has_ret(&init.expr) { return None; } },
            _ => {}
        }
    }
    Some(stmts.to_vec())
}
fn fix_tail(mut v: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(_, s)) = v.last_mut() { *s = None; }
    v
}

fn closure_body(c: &ExprClosure) -> Option<Expr> {
    let b = (*c.body).clone();
    if contains(&b, |x| matches!(x, Expr::Try(_)), false) { return None; }
    if !contains(&b, |x| matches!(x, Expr::Return(_)), false) { return Some(b); }
    let stmts = match &b { Expr::Block(bl) => bl.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] };
    let s = elim_return(&stmts).or_else(|| crate::inline::without_returns(&stmts))?;
    let out: Expr = parse_quote!({ #(#s)* });
    if contains(&out, |x| matches!(x, Expr::Return(_)), false) { return None; }
    Some(out)
}

fn pat_of(c: &ExprClosure, i: usize) -> Option<Pat> {
    c.inputs.iter().nth(i).map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() })
}

/// an expression usable as a method receiver
fn rp(e: &Expr) -> Expr {
    match e {
        Expr::Unary(_) | Expr::Reference(_) | Expr::Binary(_) | Expr::Cast(_) | Expr::Range(_) | Expr::Assign(_) | Expr::Closure(_) => parse_quote!((#e)),
        _ => e.clone(),
    }
}
/// a &str argument: an unsized place is borrowed, as the method call it comes from did
fn strref(e: &Expr) -> Expr {
    match e {
        Expr::Index(_) => parse_quote!(&#e),
        Expr::Paren(p) => strref(&p.expr),
        _ => e.clone(),
    }
}

pub struct Desugar<'a> {
    pub t: &'a Tables,
    pub env: BTreeMap<String, Head>,
    pub tys: BTreeMap<String, Type>,
    pub macros: BTreeMap<String, (Vec<(String, String)>, TokenStream)>,
    pub ret: Option<Type>,
    pub self_name: String,
    pub fresh: usize,
    pub notes: BTreeSet<String>,
    pub stmt_iter_self: bool,
    pub scrut: Vec<Option<Type>>,
    pub closure: usize,
}

/// the second type argument of `Result<_, E>`
fn err_ty(t: &Type) -> Option<Type> {
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == "Result" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(x)) = a.args.iter().nth(1) { return Some(x.clone()); } } }
    }
    None
}

impl<'a> Desugar<'a> {
    /// `e?` whose error may have to be converted: Verus does not know what `?` does with it
    fn try_conv(&mut self, operand: &Expr) -> Option<Expr> {
        if self.closure > 0 { return None; }
        let want = err_ty(self.ret.as_ref()?)?;
        if matches!(want, Type::Tuple(_)) { return None; }
        match self.ty_of(operand) {
            Some(t) => { let have = err_ty(&t)?; if have.to_token_stream().to_string() == want.to_token_stream().to_string() { return None; } }
            None => if self.head(operand) != Head::Res { return None; },
        }
        let (v, x) = (self.id("v"), self.id("e"));
        self.note("? with a conversion -> match");
        Some(parse_quote!(match #operand { Ok(#v) => #v, Err(#x) => return Err(#x.__conv()) }))
    }

    fn note(&mut self, s: &str) { self.notes.insert(s.to_string()); }
    fn id(&mut self, s: &str) -> Ident { self.fresh += 1; format_ident!("__{}{}", s, self.fresh) }

    pub fn head(&self, e: &Expr) -> Head {
        match e {
            Expr::Paren(p) => self.head(&p.expr),
            Expr::Group(p) => self.head(&p.expr),
            Expr::Reference(r) => self.head(&r.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.head(expr),
            Expr::Lit(l) => if matches!(l.lit, Lit::Str(_)) { Head::Str } else { Head::Unknown },
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    let n = p.path.segments[0].ident.to_string();
                    if n == "self" && self.stmt_iter_self { return Head::StmtIter; }
                    if let Some(h) = self.env.get(&n) { return h.clone(); }
                    if let Some(Some(t)) = self.t.fields.get(&n) { return head_of_type(t); }
                    if n == "None" { return Head::Opt; }
                }
                Head::Unknown
            }
            Expr::Field(f) => match &f.member {
                Member::Named(n) => match self.t.fields.get(&n.to_string()) { Some(Some(t)) => head_of_type(t), _ => Head::Unknown },
                _ => Head::Unknown,
            },
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    if last == "Some" { return Head::Opt; }
                    if last == "Ok" || last == "Err" { return Head::Res; }
                    let k2 = if segs.len() >= 2 { format!("{}::{}", if segs[segs.len() - 2] == "Self" { self.self_name.clone() } else { segs[segs.len() - 2].clone() }, last) } else { last.clone() };
                    if k2.starts_with("CharsIt") || k2.starts_with("CharIndicesIt") || k2.starts_with("BytesIt") { return Head::Iter; }
                    if k2.starts_with("str_slice") { return Head::Str; }
                    if k2 == "str_find" || k2.starts_with("str_get") || k2 == "str_strip_prefix" { return Head::Opt; }
                    if k2 == "str_parse" { return Head::Res; }
                    if k2 == "str_to_string" { return Head::Other("String".into()); }
                    if let Some(Some(t)) = self.t.fn_ret.get(&k2) { return head_of_type(t); }
                    if last == "try_from" { return Head::Res; }
                }
                Head::Unknown
            }
            Expr::Try(_) => Head::Unknown,
            Expr::Index(i) => if matches!(&*i.index, Expr::Range(_)) && matches!(self.head(&i.expr), Head::Str) | (self.head(&i.expr) == Head::Other("String".into())) { Head::Str } else { Head::Unknown },
            Expr::Match(m) => { for a in &m.arms { let h = self.head(&a.body); if h != Head::Unknown { return h; } } Head::Unknown }
            Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(e, None)) => self.head(e), _ => Head::Unknown },
            Expr::If(i) => match i.then_branch.stmts.last() { Some(Stmt::Expr(e, None)) => self.head(e), _ => Head::Unknown },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "as_ref" | "as_mut" | "as_deref" | "ok" | "err" | "position" | "find" | "find_map" | "last" | "first" | "get" | "pop" | "pop_back" | "pop_front" | "back" | "front" | "next_if" | "take" | "flatten" | "get_inner_block" => Head::Opt,
                    "next" | "peek" | "next_back" => Head::Opt,
                    "map" | "and_then" | "or_else" | "or" | "filter" | "take_while" | "skip_while" | "skip" | "cloned" | "copied" | "inspect" => { let h = self.head(&m.receiver); h }
                    "into_iter" if matches!(self.head(&m.receiver), Head::Seq | Head::Iter) => Head::Iter,
                    "map_err" | "ok_or" | "ok_or_else" => Head::Res,
                    "__it" | "__into_it" | "enumerate" | "rev" | "peekable" | "iter" => Head::Iter,
                    "clone" | "to_owned" => self.head(&m.receiver),
                    _ => match self.t.fn_ret.get(&n) { Some(Some(t)) => head_of_type(t), _ => Head::Unknown },
                }
            }
            _ => Head::Unknown,
        }
    }

    /// the type of an expression, where the signatures of /repo's own functions and fields tell it
    fn ty_of(&self, e: &Expr) -> Option<Type> {
        match e {
            Expr::Paren(p) => self.ty_of(&p.expr),
            Expr::Reference(r) => self.ty_of(&r.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.ty_of(expr),
            Expr::Path(p) => self.tys.get(&p.path.get_ident()?.to_string()).cloned(),
            Expr::Field(f) => match &f.member { Member::Named(n) => self.t.fields.get(&n.to_string())?.clone(), _ => None },
            Expr::Index(i) => if matches!(&*i.index, Expr::Range(_)) { self.ty_of(&i.expr) } else { None },
            Expr::Call(c) => {
                let segs: Vec<String> = match &*c.func { Expr::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect(), _ => return None };
                let last = segs.last()?.clone();
                if segs[0] == "CharsIt" || segs[0] == "CharIndicesIt" { return Some(parse_quote!(CharsIt)); }
                match last.as_str() { "str_strip_prefix" | "str_get" | "str_get_from" => return Some(parse_quote!(Option<&str>)), "str_slice" | "str_slice_from" => return Some(parse_quote!(&str)), "str_split_at" => return Some(parse_quote!((&str, &str))), "str_to_string" => return Some(parse_quote!(String)), "str_find" => return Some(parse_quote!(Option<usize>)), _ => {} }
                let k = if segs.len() >= 2 { format!("{}::{}", if segs[segs.len() - 2] == "Self" { self.self_name.clone() } else { segs[segs.len() - 2].clone() }, last) } else { last };
                self.t.fn_ret.get(&k)?.clone()
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() { "clone" | "as_ref" | "as_mut" | "to_owned" | "as_str" => return self.ty_of(&m.receiver), "peek" | "next" => return None, _ => {} }
                self.t.fn_ret.get(&n)?.clone()
            }
            Expr::Try(t) => inner_ty(&self.ty_of(&t.expr)?, &["Option", "Result"]),
            Expr::Match(m) => m.arms.iter().find_map(|a| {
                let q = match &a.pat { Pat::TupleStruct(q) if q.elems.len() == 1 => q, _ => return None };
                let v = match &q.elems[0] { Pat::Ident(i) if i.subpat.is_none() => &i.ident, _ => return None };
                let t = inner_ty(&self.ty_of(&m.expr)?, match q.path.segments.last()?.ident.to_string().as_str() { "Some" => &["Option"], "Ok" => &["Result"], _ => return None })?;
                match &*a.body {
                    Expr::Path(p) if p.path.is_ident(v) => Some(t),
                    Expr::Call(c) if c.args.len() == 1 && matches!(&c.args[0], Expr::Path(p) if p.path.is_ident(v)) => match &*c.func {
                        Expr::Path(p) if p.path.is_ident("Ok") => Some(parse_quote!(Result<#t, _>)),
                        Expr::Path(p) if p.path.is_ident("Some") => Some(parse_quote!(Option<#t>)),
                        _ => None,
                    },
                    _ => None,
                }
            }),
            Expr::Block(b) => match &b.block.stmts[..] { [Stmt::Local(Local { pat: Pat::Type(t), .. }), Stmt::Expr(Expr::Path(p), None)] if matches!(&*t.pat, Pat::Ident(i) if p.path.is_ident(&i.ident)) => Some((*t.ty).clone()), [.., Stmt::Expr(x, None)] => self.ty_of(x), _ => None },
            _ => None,
        }
    }
    fn bind_ty(&mut self, p: &Pat, t: &Type) {
        let t = match t { Type::Reference(r) => &*r.elem, Type::Paren(r) => &*r.elem, t => t };
        match p {
            Pat::Ident(i) => { let n = i.ident.to_string(); self.env.insert(n.clone(), head_of_type(t)); self.tys.insert(n, t.clone()); }
            Pat::Paren(q) => self.bind_ty(&q.pat, t),
            Pat::Reference(r) => self.bind_ty(&r.pat, t),
            Pat::Type(q) => { let t = (*q.ty).clone(); self.bind_ty(&q.pat, &t) }
            Pat::Tuple(q) => if let Type::Tuple(tt) = t { if tt.elems.len() == q.elems.len() { for (a, b) in q.elems.iter().zip(tt.elems.iter()) { self.bind_ty(a, b); } } },
            Pat::TupleStruct(q) if q.elems.len() == 1 => {
                let n = q.path.segments.last().unwrap().ident.to_string();
                let i = match n.as_str() { "Some" => inner_ty(t, &["Option"]), "Ok" => inner_ty(t, &["Result"]), _ => None };
                if let Some(i) = i { self.bind_ty(&q.elems[0], &i); }
            }
            _ => {}
        }
    }
    fn bind(&mut self, p: &Pat, h: Head) {
        {
            struct V<'b>(&'b mut BTreeMap<String, Type>);
            impl<'b, 'c> Visit<'c> for V<'b> { fn visit_pat_ident(&mut self, i: &'c PatIdent) { self.0.remove(&i.ident.to_string()); } }
            V(&mut self.tys).visit_pat(p);
        }
        match p {
            Pat::Ident(i) => { self.env.insert(i.ident.to_string(), h); }
            Pat::Type(t) => { let h2 = head_of_type(&t.ty); self.bind(&t.pat, h2) }
            _ => {
                struct V<'b>(&'b mut BTreeMap<String, Head>);
                impl<'b, 'c> Visit<'c> for V<'b> { fn visit_pat_ident(&mut self, i: &'c PatIdent) { self.0.remove(&i.ident.to_string()); } }
                V(&mut self.env).visit_pat(p);
            }
        }
    }

    /// Decomposes an iterator chain `SRC.adapter(..)....` ; returns the source and the adapters.
    fn chain(&self, e: &Expr) -> Option<(Expr, Vec<(String, Vec<Expr>)>)> {
        let mut ad = vec![];
        let mut cur = e.clone();
        loop {
            let next = match &cur {
                Expr::MethodCall(m) => {
                    let n = m.method.to_string();
                    match n.as_str() {
                        "map" | "filter" | "take_while" | "rev" | "enumerate" | "into_iter" | "by_ref" | "skip" | "cloned" | "copied" => {
                            if n == "into_iter" && self.head(&m.receiver) != Head::Iter { return Some((cur.clone(), { ad.reverse(); ad })); }
                            if (n == "map" || n == "filter") && matches!(self.head(&m.receiver), Head::Opt | Head::Res) { return None; }
                            ad.push((n, m.args.iter().cloned().collect()));
                            (*m.receiver).clone()
                        }
                        _ => break,
                    }
                }
                Expr::Paren(p) => (*p.expr).clone(),
                _ => break,
            };
            cur = next;
        }
        ad.reverse();
        Some((cur, ad))
    }

    /// the source of an iteration, as an expression of one of the wrapper iterator types
    fn source(&self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) if m.method == "__it" || m.method == "__into_it" => Some(e.clone()),
            Expr::MethodCall(m) if m.method == "into_iter" => { let r = &m.receiver; Some(parse_quote!(#r.__into_it())) }
            Expr::Call(_) if self.head(e) == Head::Iter => Some(e.clone()),
            Expr::Path(_) | Expr::Field(_) if self.head(e) == Head::Iter => Some(e.clone()),
            Expr::Reference(r) if self.head(&r.expr) == Head::Seq && r.mutability.is_none() => { let r = &r.expr; Some(parse_quote!(#r.__it())) }
            Expr::Path(_) | Expr::Field(_) if self.head(e) == Head::Seq => Some(parse_quote!(#e.__into_it())),
            _ => None,
        }
    }

    fn pipeline(&mut self, e: &Expr) -> Option<(Vec<Stmt>, Ident, Ident, TokenStream, Expr)> {
        // returns (setup statements, iterator ident, next method, per-item prelude, item expression)
        let (src, ads) = self.chain(e)?;
        let src = self.source(&src)?;
        let it = self.id("it");
        let mut setup: Vec<Stmt> = vec![parse_quote!(let mut #it = #src;)];
        let x = self.id("x");
        let mut item: Expr = parse_quote!(#x);
        let mut pre = TokenStream::new();
        let mut nm = format_ident!("next");
        let mut seen = false;
        for (n, args) in &ads {
            match n.as_str() {
                "into_iter" | "by_ref" => {}
                "skip" if !seen && nm == "next" => match args.first() {
                    Some(Expr::Lit(ExprLit { lit: Lit::Int(k), .. })) if k.base10_parse::<usize>().map_or(false, |k| k <= 4) => {
                        for _ in 0..k.base10_parse::<usize>().unwrap() { setup.push(parse_quote!(#it.next();)); }
                        self.note("skip(n) -> n calls of next before the loop");
                        continue;
                    }
                    _ => return None,
                },
                "rev" => { if seen { return None; } nm = format_ident!("next_back"); }
                "enumerate" => {
                    if nm == "next_back" { return None; }
                    let i = self.id("i"); let y = self.id("x");
                    setup.push(parse_quote!(let mut #i: usize = 0;));
                    pre.extend(quote!(let #y = (#i, #item); #i += 1;));
                    item = parse_quote!(#y);
                }
                "map" => {
                    let c = match args.first() { Some(Expr::Closure(c)) => c, _ => return None };
                    let (p, b) = (pat_of(c, 0)?, closure_body(c)?);
                    let y = self.id("x");
                    pre.extend(quote!(let #y = { let #p = #item; #b };));
                    item = parse_quote!(#y);
                }
                "take_while" | "filter" => {
                    let c = match args.first() { Some(Expr::Closure(c)) => c, _ => return None };
                    let (p, b) = (pat_of(c, 0)?, closure_body(c)?);
                    if n == "filter" { pre.extend(quote!(if !{ let #p = &#item; #b } { continue; })); }
                    else { pre.extend(quote!(if !{ let #p = &#item; #b } { break; })); }
                }
                _ => return None,
            }
            seen = true;
        }
        self.fresh += 0;
        let wrap = quote!(#pre);
        Some((setup, it, nm, quote!(let #x = __ITEM__; #wrap), item))
    }

    fn consume(&mut self, recv: &Expr, method: &str, args: &[Expr], coll: Option<&str>) -> Option<Expr> {
        let (setup, it, nm, pre, item) = self.pipeline(recv)?;
        // the first statement binds the raw item; rebuild it with the loop variable
        let raw = self.id("item");
        let pre: TokenStream = pre.into_iter().map(|t| match &t { TokenTree::Ident(i) if i == "__ITEM__" => TokenTree::Ident(raw.clone()), _ => t }).collect();
        let mk = |init: TokenStream, body: TokenStream, res: TokenStream| -> Expr {
            parse_quote!({ #(#setup)* #init loop { match #it.#nm() { Some(#raw) => { #pre #body } None => { break; } } } #res })
        };
        let clos = |i: usize| -> Option<(Pat, Expr)> { match args.get(i) { Some(Expr::Closure(c)) => Some((pat_of(c, 0)?, closure_body(c)?)), _ => None } };
        let r = format_ident!("__r{}", self.fresh);
        Some(match method {
            "sum" => mk(quote!(let mut #r: usize = 0;), quote!(#r += #item;), quote!(#r)),
            "count" => mk(quote!(let mut #r: usize = 0;), quote!(#r += 1;), quote!(#r)),
            "position" => { let (p, b) = clos(0)?; self.env.insert(r.to_string(), Head::Opt); let n = format_ident!("__n{}", self.fresh);
                mk(quote!(let mut #r: Option<usize> = None; let mut #n: usize = 0;), quote!(if { let #p = #item; #b } { #r = Some(#n); break; } #n += 1;), quote!(#r)) }
            "find" => { let (p, b) = clos(0)?; self.env.insert(r.to_string(), Head::Opt); 
                let src = recv.to_token_stream().to_string().replace(' ', "");
                let plain = src.ends_with(')') && src.matches('(').count() == 1;
                let t = if plain && src.starts_with("CharIndicesIt::new(") { quote!(: Option<(usize, char)>) } else if plain && src.starts_with("CharsIt::new(") { quote!(: Option<char>) } else { quote!() };
                mk(quote!(let mut #r #t = None;), quote!(if { let #p = &#item; #b } { #r = Some(#item); break; }), quote!(#r)) }
            "any" => { let (p, b) = clos(0)?; mk(quote!(let mut #r = false;), quote!(if { let #p = #item; #b } { #r = true; break; }), quote!(#r)) }
            "all" => { let (p, b) = clos(0)?; mk(quote!(let mut #r = true;), quote!(if !{ let #p = #item; #b } { #r = false; break; }), quote!(#r)) }
            "for_each" => { let (p, b) = clos(0)?; mk(quote!(), quote!({ let #p = #item; #b };), quote!(())) }
            "collect" => match coll? {
                "Vec" => mk(quote!(let mut #r = Vec::new();), quote!(#r.push(#item);), quote!(#r)),
                "VecDeque" => mk(quote!(let mut #r = VecDeque::new();), quote!(#r.push_back(#item);), quote!(#r)),
                _ => return None,
            },
            "for" => { let (p, b) = clos(0)?; let _ = (p, b); return None; }
            _ => return None,
        })
    }

    fn expand_macro(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "matches" => {
                struct M { e: Expr, p: Pat, g: Option<Expr> }
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M { e, p, g })
                    }
                }
                let m: M = parse2(mac.tokens.clone()).ok()?;
                let (e, p) = (m.e, m.p);
                self.note("matches! -> match");
                Some(match m.g { None => parse_quote!(match #e { #p => true, _ => false }), Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }) })
            }
            "todo" | "unreachable" | "unimplemented" | "panic" => { self.note("panicking macro -> call that requires false"); Some(parse_quote!(panics())) }
            "assert" | "debug_assert" => {
                let args: punctuated::Punctuated<Expr, Token![,]> = mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let c = args.first()?; self.note("assert! -> if !c { panics() }");
                Some(parse_quote!(if !(#c) { panics() }))
            }
            "vec" => {
                let args: punctuated::Punctuated<Expr, Token![,]> = mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                self.note("vec![..] -> push");
                if args.is_empty() { return Some(parse_quote!(Vec::new())); }
                let v = self.id("v"); let a = args.iter();
                Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v }))
            }
            _ => {
                let (params, body) = self.macros.get(&name)?.clone();
                let args: punctuated::Punctuated<Expr, Token![,]> = mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                if args.len() != params.len() { return None; }
                let map: BTreeMap<String, TokenStream> = params.iter().zip(args.iter()).map(|((n, _), a)| (n.clone(), a.to_token_stream())).collect();
                fn sub(ts: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
                    let mut out = TokenStream::new();
                    let mut it = ts.into_iter().peekable();
                    while let Some(t) = it.next() {
                        match &t {
                            TokenTree::Punct(p) if p.as_char() == '$' => {
                                if let Some(TokenTree::Ident(i)) = it.peek() { if let Some(v) = m.get(&i.to_string()) { out.extend(v.clone()); it.next(); continue; } }
                                out.extend([t]);
                            }
                            TokenTree::Group(g) => { let mut ng = proc_macro2::Group::new(g.delimiter(), sub(g.stream(), m)); ng.set_span(g.span()); out.extend([TokenTree::Group(ng)]); }
                            _ => out.extend([t]),
                        }
                    }
                    out
                }
                let ts = sub(body, &map);
                self.note("local macro_rules! -> its expansion");
                let b: Expr = parse2(quote!({ #ts })).ok()?;
                Some(b)
            }
        }
    }

    fn local_macro(&mut self, m: &ItemMacro) -> bool {
        let name = match &m.ident { Some(i) => i.to_string(), None => return false };
        let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        // (pattern) => { body } [;]
        if toks.len() < 4 || toks.len() > 5 { return false; }
        if let (TokenTree::Group(p), TokenTree::Group(b)) = (&toks[0], &toks[3]) {
            let mut params = vec![]; let ps: Vec<TokenTree> = p.stream().into_iter().collect(); let mut i = 0;
            while i < ps.len() {
                match &ps[i] {
                    TokenTree::Punct(x) if x.as_char() == '$' => {
                        if let (Some(TokenTree::Ident(a)), Some(TokenTree::Ident(k))) = (ps.get(i + 1), ps.get(i + 3)) { params.push((a.to_string(), k.to_string())); i += 4; } else { return false; }
                    }
                    TokenTree::Punct(x) if x.as_char() == ',' => i += 1,
                    _ => return false,
                }
            }
            self.macros.insert(name, (params, b.stream()));
            return true;
        }
        false
    }

    fn is_strlike(&self, e: &Expr) -> bool { matches!(self.head(e), Head::Str) || self.head(e) == Head::Other("String".into()) }
    /// the &str behind a string-like receiver
    fn as_str(&mut self, e: &Expr) -> Expr {
        match e {
            Expr::Paren(p) => { let x = self.as_str(&p.expr); if matches!(x, Expr::Call(_) | Expr::Path(_) | Expr::MethodCall(_)) { x } else { parse_quote!((#x)) } }
            Expr::Index(i) if matches!(&*i.index, Expr::Range(_)) && self.is_strlike(&i.expr) => {
                let b = self.as_str(&i.expr);
                if let Expr::Range(g) = &*i.index { if let Some(x) = self.str_range(&b, g, "slice") { return x; } }
                e.clone()
            }
            Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.env.contains_key(&format!("refref {}", i))) => parse_quote!(*#e),
            _ => if self.head(e) == Head::Other("String".into()) { let e = rp(e); parse_quote!(#e.as_str()) } else { e.clone() }
        }
    }
    /// `s[a..b]` on a string
    fn str_range(&mut self, r: &Expr, g: &ExprRange, kind: &str) -> Option<Expr> {
        let s = r;
        let lo: Expr = g.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
        let f = format_ident!("str_{}{}", kind, if g.end.is_none() { "_from" } else { "" });
        self.note("slicing of a string -> str_slice");
        Some(match (&g.end, &g.limits) {
            (None, _) => parse_quote!(#f(#s, #lo)),
            (Some(hi), RangeLimits::HalfOpen(_)) => parse_quote!(#f(#s, #lo, #hi)),
            (Some(hi), RangeLimits::Closed(_)) => parse_quote!(#f(#s, #lo, (#hi) + 1)),
        })
    }

    fn rewrite_method(&mut self, m: &ExprMethodCall, coll: Option<&str>) -> Option<Expr> {
        let n = m.method.to_string();
        let recv = &*m.receiver;
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let h = self.head(recv);
        let cl = |i: usize| -> Option<&ExprClosure> { match args.get(i) { Some(Expr::Closure(c)) => Some(c), _ => None } };
        // strings
        let is_string = h == Head::Other("String".into());
        if h == Head::Str || is_string {
            let r = self.as_str(recv);
            match (n.as_str(), args.len()) {
                ("len", 0) => { self.note("str::len -> str_len"); return Some(parse_quote!(str_len(#r))); }
                ("is_empty", 0) => { self.note("str::is_empty -> str_len == 0"); return Some(parse_quote!((str_len(#r) == 0))); }
                ("starts_with", 1) if self.char_pred(&args[0]).is_some() => {
                    let (p, b) = self.char_pred(&args[0])?;
                    self.note("str::starts_with of a predicate -> first character");
                    let c = self.id("c");
                    return Some(parse_quote!((match CharsIt::new(#r).next() { Some(#c) => { let #p = #c; #b } None => false })));
                }
                ("starts_with", 1) => { let a = &args[0]; self.note("str::starts_with -> str_starts_with"); return Some(parse_quote!(str_starts_with(#r, #a))); }
                ("find", 1) if self.char_pred(&args[0]).is_some() => {
                    let (p, b) = self.char_pred(&args[0])?;
                    self.note("str::find of a predicate -> loop over CharIndicesIt");
                    let (it, v, i, c) = (self.id("it"), self.id("r"), self.id("i"), self.id("c"));
                    self.env.insert(v.to_string(), Head::Opt);
                    return Some(parse_quote!({ let mut #it = CharIndicesIt::new(#r); let mut #v: Option<usize> = None; loop { match #it.next() { Some((#i, #c)) => { if { let #p = #c; #b } { #v = Some(#i); break; } } None => { break; } } } #v }));
                }
                ("trim_start_matches", 1) if self.char_pred(&args[0]).is_some() => {
                    let (p, b) = self.char_pred(&args[0])?;
                    self.note("str::trim_start_matches of a predicate -> loop over CharIndicesIt");
                    let (it, v, i, c, t) = (self.id("it"), self.id("r"), self.id("i"), self.id("c"), self.id("t"));
                    return Some(parse_quote!({ let #t = #r; let mut #it = CharIndicesIt::new(#t); let mut #v: Option<usize> = None; loop { match #it.next() { Some((#i, #c)) => { if !{ let #p = #c; #b } { #v = Some(#i); break; } } None => { break; } } } str_slice_from(#t, match #v { Some(#i) => #i, None => str_len(#t) }) }));
                }
                ("find", 1) if cl(0).is_none() => { let a = &args[0]; self.note("str::find -> str_find"); return Some(parse_quote!(str_find(#r, #a))); }
                ("strip_prefix", 1) if cl(0).is_none() => { let a = &args[0]; self.note("str::strip_prefix -> str_strip_prefix"); return Some(parse_quote!(str_strip_prefix(#r, #a))); }
                ("split_at", 1) => { let a = &args[0]; self.note("str::split_at -> str_split_at"); return Some(parse_quote!(str_split_at(#r, #a))); }
                ("get", 1) => if let Some(Expr::Range(g)) = args.first() { if let Some(x) = self.str_range(&r, g, "get") { return Some(x); } },
                ("parse", 0) => { self.note("str::parse -> str_parse"); let t = m.turbofish.as_ref(); return Some(parse_quote!(str_parse #t (#r))); }
                ("to_string" | "to_owned" | "into", 0) => { self.note("str::to_string -> str_to_string"); return Some(parse_quote!(str_to_string(#r))); }
                ("as_str" | "as_ref" | "borrow" | "deref", 0) => return Some(r),
                ("chars", 0) => { self.note("str::chars -> CharsIt"); return Some(parse_quote!(CharsIt::new(#r))); }
                ("char_indices", 0) => { self.note("str::char_indices -> CharIndicesIt"); return Some(parse_quote!(CharIndicesIt::new(#r))); }
                ("bytes", 0) => { self.note("str::bytes -> BytesIt"); return Some(parse_quote!(BytesIt::new(#r))); }
                _ => {}
            }
        }
        if args.is_empty() && matches!(n.as_str(), "len_utf8" | "is_ascii_digit" | "is_ascii_alphabetic" | "is_ascii_alphanumeric" | "is_ascii_whitespace" | "is_ascii_lowercase" | "is_ascii_uppercase" | "is_alphabetic" | "is_alphanumeric" | "is_numeric" | "is_whitespace" | "is_ascii_punctuation") {
            let f = format_ident!("__{}", n); let r = rp(recv); self.note("char methods -> CharModel"); return Some(parse_quote!(#r.#f()));
        }
        // `(a..=b).contains(&x)`
        if n == "contains" && args.len() == 1 {
            let mut r = recv; while let Expr::Paren(p) = r { r = &p.expr; }
            if let (Expr::Range(g), Expr::Reference(a)) = (r, &args[0]) {
                if let (Some(lo), Some(hi)) = (&g.start, &g.end) {
                    let x = &a.expr; let v = self.id("c");
                    self.note("range.contains(&x) -> comparisons");
                    return Some(if matches!(g.limits, RangeLimits::Closed(_)) { parse_quote!({ let #v = #x; (#lo) <= #v && #v <= (#hi) }) } else { parse_quote!({ let #v = #x; (#lo) <= #v && #v < (#hi) }) });
                }
            }
        }
        // character iterators
        if n == "chars" && args.is_empty() { self.note("str::chars -> CharsIt"); let recv = strref(recv); return Some(parse_quote!(CharsIt::new(#recv))); }
        if n == "char_indices" && args.is_empty() { self.note("str::char_indices -> CharIndicesIt"); let recv = strref(recv); return Some(parse_quote!(CharIndicesIt::new(#recv))); }
        if n == "bytes" && args.is_empty() { self.note("str::bytes().len() -> str::len()"); let recv = strref(recv); return Some(parse_quote!(BytesIt::new(#recv))); }
        if n == "peekable" && args.is_empty() {
            if let Expr::MethodCall(i) = recv { if i.method == "into_iter" { let r = &i.receiver; self.note("Vec::into_iter().peekable() -> TokenSource::new"); return Some(parse_quote!(TokenSource::new(#r))); } }
            if let Expr::Call(_) = recv { return Some(recv.clone()); }
        }
        if n == "iter" && args.is_empty() && h != Head::Iter { self.note("iter() -> RefIt"); return Some(parse_quote!(#recv.__it())); }
        if n == "into_iter" && args.is_empty() && h == Head::Iter { return Some(recv.clone()); }
        if n == "retain" { if let Some(_) = cl(0) { let a = &args[0]; self.note("Vec::retain -> vec_retain"); return Some(parse_quote!(vec_retain(&mut #recv, #a))); } }
        // StatementIterator::collect, the provided method of Iterator
        if n == "collect" && matches!(h, Head::StmtIter) { self.note("StatementIterator::collect -> loop over next"); return Some(parse_quote!(collect_statement(#recv))); }
        // bool::then
        if n == "then" && args.len() == 1 { if let Some(c) = cl(0) { if c.inputs.is_empty() { let b = closure_body(c)?; self.note("bool::then -> if"); return Some(parse_quote!((if #recv { Some(#b) } else { None }))); } } }
        if n == "then_some" && args.len() == 1 { let a = &args[0]; if pure_expr(a) || ctor_only(a) { self.note("bool::then_some -> if"); return Some(parse_quote!((if #recv { Some(#a) } else { None }))); } }
        // lookahead on characters
        if (n == "next_if" || n == "next_if_eq") && args.len() == 1 && matches!(recv, Expr::Path(_)) && self.ty_of(recv).map(|t| tname(&t)).as_deref() == Some("CharsIt") {
            let (p, b) = if n == "next_if" { let c = cl(0)?; (pat_of(c, 0)?, closure_body(c)?) } else { let x = self.id("c"); let a = &args[0]; (parse_quote!(#x), parse_quote!((*#x == *(#a)))) };
            let g = self.id("guard");
            self.note("Peekable::next_if -> peek and next");
            return Some(parse_quote!({ let #g: bool = match #recv.peek() { Some(#p) => #b, None => false }; if #g { #recv.next() } else { None } }));
        }
        // a literal array: one copy of the body for each element
        if let Some((elems, by_ref)) = array_of(recv) {
            let item = |x: &Expr| -> Expr { if by_ref { parse_quote!(&#x) } else { x.clone() } };
            let x = self.id("x");
            let f = match args.first() { Some(a) if n != "contains" => self.app(a), _ => None };
            let out: Option<Expr> = match (n.as_str(), f) {
                ("any", Some((p, b))) => Some(elems.iter().rev().fold(parse_quote!(false), |acc: Expr, e| { let e = item(e); parse_quote!((if { let #p = #e; #b } { true } else { #acc })) })),
                ("all", Some((p, b))) => Some(elems.iter().rev().fold(parse_quote!(true), |acc: Expr, e| { let e = item(e); parse_quote!((if { let #p = #e; #b } { #acc } else { false })) })),
                ("find", Some((p, b))) => Some(elems.iter().rev().fold(parse_quote!(None), |acc: Expr, e| { let e = item(e); parse_quote!({ let #x = #e; if { let #p = &#x; #b } { Some(#x) } else { #acc } }) })),
                ("find_map", Some((p, b))) => Some(elems.iter().rev().fold(parse_quote!(None), |acc: Expr, e| { let e = item(e); parse_quote!((match { let #p = #e; #b } { Some(#x) => Some(#x), None => #acc })) })),
                _ => None,
            };
            if let Some(o) = out {
                let strs = n == "find" && elems.iter().all(|e| matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })));
                let o: Expr = if strs { let r = self.id("r"); let t: Type = if by_ref { parse_quote!(Option<&&str>) } else { parse_quote!(Option<&str>) }; parse_quote!({ let #r: #t = #o; #r }) } else { o };
                self.note("iteration over a literal array -> one copy for each element"); return Some(o); }
        }
        // iterator consumers
        if n == "nth" && args.len() == 1 && h == Head::Iter && matches!(&args[0], Expr::Lit(ExprLit { lit: Lit::Int(k), .. }) if k.base10_digits() == "0") { self.note("nth(0) -> next"); return Some(parse_quote!(#recv.next())); }
        if matches!(n.as_str(), "sum" | "count" | "position" | "find" | "any" | "all" | "for_each" | "collect") && !matches!(h, Head::Opt | Head::Res | Head::Str | Head::StmtIter) {
            if n == "count" { if let Expr::Call(_) = recv { if h == Head::Iter { return None; } } }
            let t = m.turbofish.as_ref().and_then(|t| t.args.first().map(|a| strip_mods_text(&a.to_token_stream().to_string()).split('<').next().unwrap().trim().to_string()));
            let coll = t.as_deref().or(coll);
            if let Some(e) = self.consume(recv, &n, &args, coll) { self.note("iterator chain -> loop"); return Some(e); }
            return None;
        }
        // `Vec::extend` over a chain of a container
        if n == "extend" && args.len() == 1 && h == Head::Seq {
            let push = match self.ty_of(recv).map(|t| tname(&t)).as_deref() { Some("Vec") => Some(format_ident!("push")), Some("VecDeque") => Some(format_ident!("push_back")), _ => None };
            if let (Some(push), Some((setup, it, nm, pre, item))) = (push, self.pipeline(&args[0])) {
                let raw = self.id("item");
                let pre: TokenStream = pre.into_iter().map(|t| match &t { TokenTree::Ident(i) if i == "__ITEM__" => TokenTree::Ident(raw.clone()), _ => t }).collect();
                self.note("extend -> loop over next");
                return Some(parse_quote!({ #(#setup)* loop { match #it.#nm() { Some(#raw) => { #pre #recv.#push(#item); } None => { break; } } } }));
            }
        }
        // Option / Result combinators
        match (n.as_str(), &h) {
            ("into", Head::Res) if args.is_empty() => self.from_result(recv, None),
            ("map", Head::Opt) => { let (p, b) = self.app(&args[0])?; self.note("Option::map -> match"); Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None })) }
            ("map", Head::Res) => { let (p, b) = self.app(&args[0])?; self.note("Result::map -> match"); let e = self.id("e"); Some(parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(#e) => Err(#e) })) }
            ("and_then", Head::Opt) => { let (p, b) = self.app(&args[0])?; self.note("Option::and_then -> match"); Some(parse_quote!(match #recv { Some(#p) => #b, None => None })) }
            ("and_then", Head::Res) => { let (p, b) = self.app(&args[0])?; self.note("Result::and_then -> match"); let e = self.id("e"); Some(parse_quote!(match #recv { Ok(#p) => #b, Err(#e) => Err(#e) })) }
            ("map_err", _) => { let (p, b) = self.app(&args[0])?; self.note("Result::map_err -> match"); let v = self.id("v"); Some(parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#p) => Err(#b) })) }
            ("or_else", _) => {
                let c = cl(0)?;
                let b = closure_body(c)?;
                if c.inputs.is_empty() { self.note("Option::or_else -> match"); let v = self.id("v"); Some(parse_quote!(match #recv { Some(#v) => Some(#v), None => #b })) }
                else { let p = pat_of(c, 0)?; let v = self.id("v"); self.note("Result::or_else -> match"); Some(parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#p) => #b })) }
            }
            ("or", Head::Opt) => { let a = &args[0]; let (v, d) = (self.id("v"), self.id("d")); Some(parse_quote!({ let #d = #a; match #recv { Some(#v) => Some(#v), None => #d } })).filter(|_| pure_expr(a)) }
            ("unwrap_or_else", _) => {
                let c = cl(0)?; let b = closure_body(c)?; let v = self.id("v");
                if c.inputs.is_empty() { self.note("Option::unwrap_or_else -> match"); Some(parse_quote!(match #recv { Some(#v) => #v, None => #b })) }
                else { let p = pat_of(c, 0)?; self.note("Result::unwrap_or_else -> match"); Some(parse_quote!(match #recv { Ok(#v) => #v, Err(#p) => #b })) }
            }
            ("unwrap_or", Head::Opt) => { let d = &args[0]; if !pure_expr(d) { return None; } let v = self.id("v"); self.note("Option::unwrap_or -> match"); Some(parse_quote!(match #recv { Some(#v) => #v, None => #d })) }
            ("unwrap_or_default", Head::Opt) => None,
            ("map_or", Head::Opt) => { let d = &args[0]; if !pure_expr(d) { return None; } let (p, b) = self.app(&args[1])?; self.note("Option::map_or -> match"); Some(parse_quote!(match #recv { Some(#p) => #b, None => #d })) }
            ("map_or_else", Head::Opt) => { let c = cl(0)?; let d = closure_body(c)?; let (p, b) = self.app(&args[1])?; self.note("Option::map_or_else -> match"); Some(parse_quote!(match #recv { Some(#p) => #b, None => #d })) }
            ("is_some_and", _) => { let (p, b) = self.app(&args[0])?; self.note("Option::is_some_and -> match"); Some(parse_quote!(match #recv { Some(#p) => #b, None => false })) }
            ("is_none_or", _) => { let (p, b) = self.app(&args[0])?; self.note("Option::is_none_or -> match"); Some(parse_quote!(match #recv { Some(#p) => #b, None => true })) }
            ("ok_or_else", _) => { let c = cl(0)?; let d = closure_body(c)?; let v = self.id("v"); self.note("Option::ok_or_else -> match"); Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#d) })) }
            ("ok_or", _) => { let d = &args[0]; let v = self.id("v"); let t = self.id("d"); self.note("Option::ok_or -> match"); let _ = t; if !pure_expr(d) && contains(d, |x| matches!(x, Expr::MethodCall(_) | Expr::Call(_) | Expr::Try(_) | Expr::Macro(_)), true) && !ctor_only(d) { return None; } Some(parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#d) })) }
            ("copied", Head::Opt) if args.is_empty() => { let v = self.id("v"); self.note("Option::copied -> match"); Some(parse_quote!(match #recv { Some(#v) => Some(*#v), None => None })) }
            ("filter", Head::Opt) => { let (p, b) = self.app(&args[0])?; let v = self.id("v"); self.note("Option::filter -> match"); Some(parse_quote!(match #recv { Some(#v) => { if { let #p = &#v; #b } { Some(#v) } else { None } } None => None })) }
            ("flatten", Head::Opt) => { let v = self.id("v"); self.note("Option::flatten -> match"); Some(parse_quote!(match #recv { Some(#v) => #v, None => None })) }
            _ => None,
        }
    }

    /// a predicate on characters, as a pattern of the string methods
    fn char_pred(&mut self, a: &Expr) -> Option<(Pat, Expr)> {
        match a {
            Expr::Closure(c) => Some((pat_of(c, 0)?, closure_body(c)?)),
            Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "char" => self.app(a),
            Expr::Reference(r) if matches!(&*r.expr, Expr::Closure(_)) => self.char_pred(&r.expr),
            _ => None,
        }
    }

    /// `r.into()` / `X::from(r)` of a Result, where the crate has `impl<T> From<Result<T, _>> for X`
    fn from_result(&mut self, recv: &Expr, to: Option<&str>) -> Option<Expr> {
        let t = inner_ty(&self.ty_of(recv)?, &["Result"])?;
        let cands: Vec<(String, (String, Block))> = self.t.from_result.iter().filter(|(k, _)| to.map_or(true, |x| x == k.as_str())).map(|(a, b)| (a.clone(), b.clone())).collect();
        if cands.len() != 1 { return None; }
        let (x, (p, mut b)) = cands.into_iter().next()?;
        if tname(&t) == x {
            // T is X itself: the conversion of a value into its own type is the value
            struct I;
            impl VisitMut for I { fn visit_expr_mut(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); if let Expr::MethodCall(m) = e { if m.method == "into" && matches!(&*m.receiver, Expr::Path(p) if p.path.get_ident().is_some()) { *e = (*m.receiver).clone(); } } } }
            I.visit_block_mut(&mut b);
        }
        self.note("From<Result<T, E>> -> its body");
        let p = format_ident!("{}", p);
        let e: Expr = parse_quote!({ let #p = #recv; #b });
        Some(e)
    }

    /// an argument that is a closure or a function path, applied to a pattern-bound value
    fn app(&mut self, a: &Expr) -> Option<(Pat, Expr)> {
        match a {
            Expr::Closure(c) => Some((pat_of(c, 0)?, closure_body(c)?)),
            Expr::Path(p) => {
                let v = self.id("v");
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 2 && segs[0].chars().next().unwrap().is_lowercase() || segs.len() == 2 && (segs[0] == "String" || segs[0] == "ToString" || segs[0] == "Into") {
                    let m = if segs[0] == "char" { format_ident!("__{}", segs[1]) } else { format_ident!("{}", segs[1]) };
                    return Some((parse_quote!(#v), parse_quote!(#v.#m())));
                }
                Some((parse_quote!(#v), parse_quote!(#p(#v))))
            }
            _ => None,
        }
    }
}

/// the elements of a short literal array that is iterated over; whether by reference
fn array_of(e: &Expr) -> Option<(Vec<Expr>, bool)> {
    fn lit(e: &Expr) -> Option<Vec<Expr>> { match e { Expr::Paren(p) => lit(&p.expr), Expr::Array(a) if a.elems.len() <= 8 && a.elems.iter().all(|x| pure_expr(x) || ctor_only(x) || matches!(x, Expr::Tuple(t) if t.elems.iter().all(|y| pure_expr(y) || ctor_only(y)))) => Some(a.elems.iter().cloned().collect()), _ => None } }
    match e {
        Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "__it") => { let r = match &*m.receiver { Expr::Reference(r) => &*r.expr, r => r }; Some((lit(r)?, true)) }
        Expr::MethodCall(m) if m.args.is_empty() && (m.method == "into_iter" || m.method == "__into_it") => match &*m.receiver { Expr::Reference(r) => Some((lit(&r.expr)?, true)), r => Some((lit(r)?, false)) },
        Expr::Reference(r) if r.mutability.is_none() => Some((lit(&r.expr)?, true)),
        Expr::Paren(p) => array_of(&p.expr),
        e => Some((lit(e)?, false)),
    }
}
fn pure_expr(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Field(f) => pure_expr(&f.base),
        Expr::Reference(r) => pure_expr(&r.expr),
        Expr::Paren(r) => pure_expr(&r.expr),
        Expr::Tuple(t) => t.elems.iter().all(pure_expr),
        Expr::MethodCall(m) => m.args.is_empty() && (m.method == "len" || m.method == "clone") && pure_expr(&m.receiver),
        Expr::Binary(b) => pure_expr(&b.left) && pure_expr(&b.right),
        _ => false,
    }
}
/// a sum of lengths of containers in memory and small constants
fn size_hint(e: &Expr) -> bool {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) => n.base10_parse::<u64>().map_or(false, |n| n <= 65536),
        Expr::Paren(p) => size_hint(&p.expr),
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_)) && size_hint(&b.left) && size_hint(&b.right),
        Expr::MethodCall(m) => m.method == "len" && m.args.is_empty() && pure_expr(&m.receiver),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("str_len")) && c.args.iter().all(pure_expr),
        _ => false,
    }
}
fn ctor_only(e: &Expr) -> bool {
    match e {
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident.to_string().chars().next().unwrap().is_uppercase()) && c.args.iter().all(ctor_only),
        Expr::MethodCall(m) => (m.method == "into") && m.args.is_empty() && ctor_only(&m.receiver),
        e => pure_expr(e),
    }
}

impl<'a> VisitMut for Desugar<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        let stmts: Vec<Stmt> = std::mem::take(&mut b.stmts).into_iter().flat_map(|s| match break_value(&s) {
            Some(v) => { self.note("value of a loop -> variable set at the breaks"); v }
            None => vec![s],
        }).collect();
        for mut s in stmts {
            if let Stmt::Item(Item::Macro(m)) = &s { if self.local_macro(m) { continue; } }
            if let Stmt::Item(Item::Use(_)) = &s { continue; }
            if let Stmt::Macro(m) = &s { if let Some(e) = self.expand_macro(&m.mac) { s = Stmt::Expr(e, m.semi_token); } }
            self.visit_stmt_mut(&mut s);
            if let Stmt::Local(l) = &s { if let Some(i) = &l.init { let h = self.head(&i.expr); let t = self.ty_of(&i.expr); let p = l.pat.clone(); self.bind(&p, h); if let Pat::Type(q) = &p { let t = (*q.ty).clone(); let q = (*q.pat).clone(); if !matches!(t, Type::Infer(_)) { self.bind_ty(&q, &t); } } else if let Some(t) = t { self.bind_ty(&p, &t); } } else { let p = l.pat.clone(); self.bind(&p, Head::Unknown) } }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        // collection type from the annotation
        if let (Pat::Type(t), Some(init)) = (&l.pat, &mut l.init) {
            if let Expr::MethodCall(m) = &mut *init.expr {
                if m.method == "collect" {
                    let ty = tname(&t.ty);
                    visit_mut::visit_expr_method_call_mut(self, m);
                    let m = m.clone();
                    if let Some(e) = self.rewrite_method(&m, Some(&ty)) { init.expr = Box::new(e); return; }
                    return;
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = self.expand_macro(&m.mac) { *e = x; self.visit_expr_mut(e); return; }
        }
        if let Expr::Match(m) = e {
            if m.arms.iter().any(|a| a.guard.is_some() && matches!(a.pat, Pat::Or(_))) {
                let mut arms = vec![];
                for a in m.arms.drain(..) {
                    match (&a.pat, &a.guard) {
                        (Pat::Or(o), Some(_)) if !contains(&a.body, |x| matches!(x, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_)), true) => for p in &o.cases { let mut b = a.clone(); b.pat = p.clone(); b.comma = Some(Default::default()); arms.push(b); },
                        _ => arms.push(a),
                    }
                }
                m.arms = arms;
                self.notes.insert("or-pattern with a guard -> one arm for each alternative".into());
            }
        }
        // pattern variables shadow
        if let Expr::Match(m) = e {
            self.visit_expr_mut(&mut m.expr);
            let t = self.ty_of(&m.expr);
            self.scrut.push(t);
            for a in m.arms.iter_mut() { self.visit_arm_mut(a); }
            self.scrut.pop();
        } else if matches!(e, Expr::If(_) | Expr::While(_)) {
            let saved = (self.env.clone(), self.tys.clone());
            visit_mut::visit_expr_mut(self, e);
            (self.env, self.tys) = saved;
        } else if matches!(e, Expr::Block(_)) {
            let saved = (self.env.clone(), self.tys.clone());
            visit_mut::visit_expr_mut(self, e);
            (self.env, self.tys) = saved;
        } else if matches!(e, Expr::Closure(_)) {
            self.closure += 1;
            visit_mut::visit_expr_mut(self, e);
            self.closure -= 1;
        } else {
            visit_mut::visit_expr_mut(self, e);
        }
        if let Expr::Try(t) = e {
            if let Some(x) = self.try_conv(&t.expr) { *e = x; }
        }
        if let Expr::Let(l) = e {
            let t = self.ty_of(&l.expr);
            let p = (*l.pat).clone();
            self.bind(&p, Head::Unknown);
            if let Some(t) = t { self.bind_ty(&p, &t); }
        }
        match e {
            Expr::MethodCall(m) => {
                let m = m.clone();
                if let Some(x) = self.rewrite_method(&m, None) { *e = x; }
            }
            Expr::Match(m) if m.arms.len() == 2 && m.arms[0].guard.is_some() && m.arms[1].guard.is_none() && matches!(m.arms[1].pat, Pat::Wild(_))
                && matches!(&*m.expr, Expr::MethodCall(c) if c.method == "peek") => {
                // the lookahead borrow ends with the guard: `match x { P if G => A, _ => B }` where A does not use P's variables
                struct N(BTreeSet<String>);
                impl<'c> Visit<'c> for N { fn visit_pat_ident(&mut self, i: &'c PatIdent) { self.0.insert(i.ident.to_string()); } }
                let mut n = N(BTreeSet::new());
                n.visit_pat(&m.arms[0].pat);
                let used = contains(&m.arms[0].body, |x| matches!(x, Expr::Path(p) if p.path.get_ident().map_or(false, |i| n.0.contains(&i.to_string()))) || matches!(x, Expr::Macro(_)), true);
                if !used {
                    let (x, p, g, a, b, v) = (&m.expr, &m.arms[0].pat, &m.arms[0].guard.as_ref().unwrap().1, &m.arms[0].body, &m.arms[1].body, self.id("guard"));
                    self.notes.insert("match guard on a lookahead -> if".into());
                    *e = parse_quote!({ let #v: bool = match #x { #p => #g, _ => false }; if #v { #a } else { #b } });
                }
            }
            Expr::Match(m) if m.arms.len() >= 2 && m.arms.iter().filter(|a| a.guard.is_some()).count() == 1 && m.arms[m.arms.len() - 2].guard.is_some()
                && matches!(m.arms[m.arms.len() - 1].pat, Pat::Wild(_)) && matches!(&*m.expr, Expr::MethodCall(_) | Expr::Match(_) | Expr::Call(_))
                && !contains(&m.arms[m.arms.len() - 1].body, |x| matches!(x, Expr::Loop(_) | Expr::Closure(_) | Expr::Macro(_)), true) => {
                // `match x { .., P if G => A, _ => B }` => `match x { .., P => if G { A } else { B }, _ => B }` (a temporary is matched: nothing of it is visible in B)
                let k = m.arms.len() - 2;
                let (g, a, b) = (m.arms[k].guard.as_ref().unwrap().1.clone(), m.arms[k].body.clone(), m.arms[k + 1].body.clone());
                m.arms[k].guard = None;
                *m.arms[k].body = parse_quote!({ if #g { #a } else { #b } });
                m.arms[k].comma = Some(Default::default());
                self.notes.insert("match guard -> if in the arm".into());
            }
            Expr::While(w) => {
                let body = &w.body; let label = &w.label;
                self.notes.insert("while -> loop with break".into());
                *e = match &*w.cond {
                    Expr::Let(l) => { let (p, x) = (&l.pat, &l.expr); parse_quote!(#label loop { match #x { #p => #body, _ => { break; } } }) }
                    c => parse_quote!(#label loop { if #c #body else { break; } }),
                };
            }
            Expr::ForLoop(f) => {
                // ranges
                if let Expr::Range(r) = &*f.expr {
                    if let (Some(lo), Some(hi), RangeLimits::HalfOpen(_), Pat::Ident(_)) = (&r.start, &r.end, &r.limits, &*f.pat) {
                        if !contains(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.body.clone() }), |x| matches!(x, Expr::Continue(_)), false) {
                            let (i, j) = (self.id("i"), self.id("j")); let p = &f.pat; let body = &f.body.stmts; let label = &f.label;
                            self.note("for over a range -> loop");
                            *e = parse_quote!({ let mut #i = #lo; let #j = #hi; #label loop { if #i < #j { let #p = #i; #(#body)* #i += 1; } else { break; } } });
                            return;
                        }
                    }
                }
                let fe = (*f.expr).clone();
                if let Some((elems, by_ref)) = array_of(&fe) {
                    let body = Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.body.clone() });
                    if !contains(&body, |x| matches!(x, Expr::Continue(_) | Expr::Break(_) | Expr::Closure(_) | Expr::Loop(_)), true) {
                        let (p, body) = (&f.pat, &f.body.stmts);
                        let bs: Vec<Expr> = elems.iter().map(|x| -> Expr { if by_ref { parse_quote!({ let #p = &#x; #(#body)* }) } else { parse_quote!({ let #p = #x; #(#body)* }) } }).collect();
                        self.note("iteration over a literal array -> one copy for each element");
                        *e = parse_quote!({ #(#bs)* });
                        return;
                    }
                }
                if let Some((setup, it, nm, pre, item)) = self.pipeline(&fe) {
                    let raw = self.id("item");
                    let pre: TokenStream = pre.into_iter().map(|t| match &t { TokenTree::Ident(i) if i == "__ITEM__" => TokenTree::Ident(raw.clone()), _ => t }).collect();
                    let (p, body, label) = (&f.pat, &f.body.stmts, &f.label);
                    self.notes.insert("for -> loop over next".into());
                    *e = parse_quote!({ #(#setup)* #label loop { match #it.#nm() { Some(#raw) => { #pre let #p = #item; #(#body)* } None => { break; } } } });
                }
            }
            Expr::Binary(b) => {
                if let BinOp::AddAssign(_) = b.op {
                    if self.head(&b.right) == Head::Str {
                        let (l, r) = (rp(&b.left), strref(&b.right));
                        self.notes.insert("Position += &str -> add_assign".into());
                        *e = parse_quote!(#l.add_assign(#r));
                    }
                } else if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && [&b.left, &b.right].iter().any(|x| matches!(&***x, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))) {
                    let neg = matches!(b.op, BinOp::Ne(_));
                    let (l, r) = if matches!(&*b.right, Expr::Lit(_)) { (rp(&b.left), &b.right) } else { (rp(&b.right), &b.left) };
                    self.notes.insert("== on a string literal -> __str_eq".into());
                    *e = if neg { parse_quote!(!__str_eq(&#l, #r)) } else { parse_quote!(__str_eq(&#l, #r)) };
                } else if let BinOp::Add(_) = b.op {
                    if self.head(&b.right) == Head::Str {
                        let (l, r) = (rp(&b.left), strref(&b.right));
                        self.notes.insert("Position + &str -> add".into());
                        *e = parse_quote!(#l.add(#r));
                    }
                }
            }
            Expr::Reference(ExprReference { mutability: None, expr, .. }) if { let mut x = &**expr; while let Expr::Paren(p) = x { x = &*p.expr; } matches!(x, Expr::Index(i) if matches!(&*i.index, Expr::Range(_)) && self.is_strlike(&i.expr)) } => {
                let x = (**expr).clone();
                *e = self.as_str(&x);
            }
            Expr::Reference(r) => {
                // `&mut x` where x: &mut T and the callee wants &mut T after the type fix
                if r.mutability.is_some() {
                    if let Expr::Path(p) = &*r.expr {
                        if let Some(Head::Other(s)) = p.path.get_ident().and_then(|i| self.env.get(&format!("mutref {}", i))) { let _ = s; let x = (*r.expr).clone(); *e = x; }
                    }
                }
            }
            Expr::Call(c) => {
                // char::f(x) -> x.f()
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() == 2 && segs[1] == "with_capacity" && c.args.len() == 1 && matches!(segs[0].as_str(), "Vec" | "VecDeque" | "String") && size_hint(&c.args[0]) { let t = format_ident!("{}", segs[0]); self.notes.insert("with_capacity(sum of lengths and small constants) -> new".into()); *e = parse_quote!(#t::new()); return; }
                    if segs.len() == 2 && segs[1] == "from" && c.args.len() == 1 && self.t.from_result.contains_key(&segs[0]) && self.head(&c.args[0]) == Head::Res { let a = c.args[0].clone(); if let Some(x) = self.from_result(&a, Some(&segs[0])) { *e = x; return; } }
                    if segs.len() >= 2 && segs[segs.len() - 2] == "mem" && segs[segs.len() - 1] == "replace" && c.args.len() == 2 { let (a, b) = (c.args[0].clone(), c.args[1].clone()); self.note("mem::replace -> __mem_replace"); *e = parse_quote!(__mem_replace(#a, #b)); return; }
                    if segs.len() == 2 && segs[0] == "char" && c.args.len() == 1 && segs[1] == "len_utf8" { let a = c.args.first().unwrap(); let m = format_ident!("__{}", segs[1]); *e = parse_quote!(#a.#m()); }
                }
            }
            _ => {}
        }
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let saved = (self.env.clone(), self.tys.clone());
        let p = a.pat.clone();
        self.bind(&p, Head::Unknown);
        if let Some(Some(t)) = self.scrut.last().cloned() { self.bind_ty(&p, &t); }
        visit_mut::visit_arm_mut(self, a);
        (self.env, self.tys) = saved;
    }
}

/// numbers the loops and the remaining closures, in source order
struct Mark<'a> { t: &'a Tables, loops: usize, closures: usize, keep: Vec<Value>, calls: BTreeSet<String>, lets: Vec<Value>, lits: Vec<Value>, callee: Vec<Option<Type>>, self_name: String }
impl<'a> Mark<'a> {
    fn closure_arg_types(&self, name: &str, idx: usize, method: bool) -> Option<Vec<Type>> {
        let builtin = |n: &str| -> Option<Vec<Type>> { match n { "vec_retain" | "next_if" => Some(vec![parse_quote!(&Token)]), _ => None } };
        let _ = method;
        if let Some(b) = builtin(name) { return Some(b); }
        let a = self.t.fn_args.get(name)?.get(idx)?.clone()?;
        fn find(t: &Type) -> Option<Vec<Type>> {
            let bounds = match t { Type::ImplTrait(i) => &i.bounds, Type::TraitObject(i) => &i.bounds, Type::Reference(r) => return find(&r.elem), Type::Paren(r) => return find(&r.elem), _ => return None };
            for b in bounds { if let TypeParamBound::Trait(t) = b { let s = t.path.segments.last()?; if let PathArguments::Parenthesized(p) = &s.arguments { return Some(p.inputs.iter().cloned().collect()); } } }
            None
        }
        find(&a)
    }
}
impl<'a> VisitMut for Mark<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (p, Some(i)) = (&l.pat, &l.init) {
            let n = match p { Pat::Ident(i) => i.ident.to_string(), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => String::new() }, _ => String::new() };
            if !n.is_empty() { let s = i.expr.to_token_stream().to_string(); if s.len() < 400 { self.lets.push(json!([n, s.replace(' ', ""), self.loops])); } }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(l) => {
                let k = proc_macro2::Literal::usize_unsuffixed(self.loops); self.loops += 1;
                visit_mut::visit_block_mut(self, &mut l.body);
                l.body.stmts.insert(0, parse_quote!(__loop_marker!(#k);));
                return;
            }
            Expr::Call(c) => {
                let mut name = String::new();
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| if s.ident == "Self" { self.self_name.clone() } else { s.ident.to_string() }).collect();
                    name = segs.last().unwrap().clone();
                    self.calls.insert(segs.join("::"));
                }
                let n = c.args.len();
                for i in 0..n {
                    let tys = self.closure_arg_types(&name, i, false);
                    fix_closure(&mut c.args[i], tys);
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                self.calls.insert(format!(".{}", name));
                for i in 0..m.args.len() {
                    let tys = self.closure_arg_types(&name, i, true);
                    fix_closure(&mut m.args[i], tys);
                }
            }
            Expr::Closure(_) => { self.closures += 1; }
            Expr::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                let n = if n == "Self" { self.self_name.clone() } else { n };
                for f in &s.fields { if let (Member::Named(m), Expr::Path(p)) = (&f.member, &f.expr) { if let Some(i) = p.path.get_ident() { self.lits.push(json!([format!("{}.{}", n, m), i.to_string()])); } } }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn fix_closure(e: &mut Expr, tys: Option<Vec<Type>>) {
    match e {
        Expr::Reference(r) => fix_closure(&mut r.expr, tys),
        Expr::Closure(c) => {
            if let Some(tys) = tys {
                for (i, p) in c.inputs.iter_mut().enumerate() {
                    if let (false, Some(t)) = (matches!(p, Pat::Type(_)), tys.get(i)) {
                        let pp = if let Pat::Wild(_) = p { parse_quote!(_t) } else { p.clone() };
                        *p = Pat::Type(PatType { attrs: vec![], pat: Box::new(pp), colon_token: Default::default(), ty: Box::new(t.clone()) });
                    }
                }
                if c.output == ReturnType::Default { c.output = parse_quote!(-> bool); }
            }
            let ctor = |x: &Expr| matches!(x, Expr::Call(k) if matches!(&*k.func, Expr::Path(p) if p.path.segments.last().unwrap().ident.to_string().starts_with(char::is_uppercase)));
            let pure = !contains(&c.body, |x| matches!(x, Expr::Call(_)) && !ctor(x) || matches!(x, Expr::MethodCall(_) | Expr::Macro(_) | Expr::Return(_) | Expr::Assign(_) | Expr::Loop(_)), true);
            let body = (*c.body).clone();
            if pure && c.output != ReturnType::Default {
                // `==` on token types, as the contract of PartialEq states it
                struct Eq;
                impl VisitMut for Eq {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        visit_mut::visit_expr_mut(self, e);
                        if let Expr::Binary(b) = e {
                            let tt = |x: &Expr| matches!(x, Expr::Field(f) if matches!(&f.member, Member::Named(n) if n == "token_type"));
                            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (tt(&b.left) || tt(&b.right)) { let (l, r, neg) = (&b.left, &b.right, matches!(b.op, BinOp::Ne(_))); *e = if neg { parse_quote!(!tt_eq(#l, #r)) } else { parse_quote!(tt_eq(#l, #r)) }; }
                        }
                    }
                }
                let mut spec = body.clone();
                Eq.visit_expr_mut(&mut spec);
                c.body = Box::new(parse_quote!({ __closure_ens!(#spec); #body }));
            }
            else { c.body = Box::new(parse_quote!({ #body })); }
        }
        _ => {}
    }
}

/// `let mut n = 0;` where n is returned as a usize, or bounds a slice: the type rustc infers is written
/// down, because ghost code that mentions n needs it
fn int_locals(block: &mut Block, ret: &Option<Type>) {
    let mut used = BTreeSet::new();
    struct U<'b>(&'b mut BTreeSet<String>);
    impl<'b> U<'b> { fn add(&mut self, e: &Expr) { match e { Expr::Path(p) => if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); }, Expr::Binary(b) => { self.add(&b.left); self.add(&b.right) } Expr::Paren(p) => self.add(&p.expr), _ => {} } } }
    impl<'b, 'c> Visit<'c> for U<'b> {
        fn visit_expr_call(&mut self, c: &'c ExprCall) {
            if let Expr::Path(p) = &*c.func { let n = p.path.segments.last().unwrap().ident.to_string(); if n.starts_with("str_slice") || n.starts_with("str_get") || n == "str_split_at" { for a in c.args.iter().skip(1) { self.add(a); } } }
            visit::visit_expr_call(self, c);
        }
    }
    U(&mut used).visit_block(block);
    if ret.as_ref().map_or(false, |t| t.to_token_stream().to_string() == "usize") { if let Some(Stmt::Expr(e, None)) = block.stmts.last() { U(&mut used).add(e); } }
    struct W(BTreeSet<String>);
    impl VisitMut for W {
        fn visit_local_mut(&mut self, l: &mut Local) {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                if let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = &*init.expr { if n.suffix().is_empty() && self.0.contains(&i.ident.to_string()) { let p = l.pat.clone(); l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: parse_quote!(usize) }); } }
            }
            visit_mut::visit_local_mut(self, l);
        }
    }
    W(used).visit_block_mut(block);
}

pub fn emit_fn(f: &SrcFn, t: &Tables) -> std::result::Result<Value, String> {
    let tr = f.trait_name.clone().unwrap_or_default();
    if matches!(tr.as_str(), "Debug" | "Display" | "IntoIterator" | "ToTokens") { return Err(format!("impl {}: formatting or adapter, not verified", tr)); }
    if f.impl_generics.const_params().next().is_some() { return Err("const-generic conversion (used by tests only)".into()); }
    if f.impl_generics.type_params().next().is_some() { return Err("generic conversion, not reachable from the public entry points".into()); }
    if f.sig.asyncness.is_some() || f.sig.unsafety.is_some() { return Err("async or unsafe function".into()); }

    let self_ty = f.self_ty.as_ref().map(|x| t.fix_type(x));
    let self_name = self_ty.as_ref().map(tname).unwrap_or_default();
    let mut block = f.block.clone();
    PathFix { t }.visit_block_mut(&mut block);
    struct AssocFix<'a>(&'a SrcFn);
    impl<'a> VisitMut for AssocFix<'a> { fn visit_type_mut(&mut self, t: &mut Type) { visit_mut::visit_type_mut(self, t); *t = subst_assoc(t, &self.0.assoc, self.0.self_ty.as_ref()); } }
    AssocFix(f).visit_block_mut(&mut block);

    // parameters
    let mut env = BTreeMap::new();
    let mut tys = BTreeMap::new();
    let mut inputs = vec![];
    let mut pre_stmts: Vec<Stmt> = vec![];
    for (k, a) in f.sig.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                let s = if r.reference.is_some() { let lt = r.reference.as_ref().and_then(|x| x.1.as_ref()).map(|l| l.to_token_stream().to_string()).unwrap_or_default(); if r.mutability.is_some() { format!("&{} mut self", lt) } else { format!("&{} self", lt) } } else if r.mutability.is_some() { "mut self".into() } else { "self".to_string() };
                inputs.push(json!({"name": "self", "text": s, "ty": s}));
            }
            FnArg::Typed(p) => {
                let mut ty = t.fix_type(&subst_assoc(&p.ty, &f.assoc, f.self_ty.as_ref()));
                let was_mutmut = { let s = p.ty.to_token_stream().to_string().replace(' ', ""); s.starts_with("&mut&mut") };
                if let Type::Reference(r) = &mut ty { if let Type::TraitObject(o) = &*r.elem { let b = o.bounds.clone(); r.elem = Box::new(Type::Paren(TypeParen { paren_token: Default::default(), elem: Box::new(Type::ImplTrait(TypeImplTrait { impl_token: Default::default(), bounds: b })) })); } }
                let (name, mutable) = match &*p.pat {
                    Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                    other => {
                        let n = format_ident!("__arg{}", k);
                        let o = other.clone();
                        pre_stmts.push(parse_quote!(let #o = #n;));
                        (n.to_string(), false)
                    }
                };
                env.insert(name.clone(), head_of_type(&ty)); { let mut t = ty.clone(); while let Type::Reference(r) = &t { t = (*r.elem).clone(); } tys.insert(name.clone(), t); }
                if let Type::Reference(r) = &ty { if let Type::Reference(_) = &*r.elem { if head_of_type(&ty) == Head::Str { env.insert(format!("refref {}", name), Head::Str); } } }
                let is_mutref = matches!(&ty, Type::Reference(r) if r.mutability.is_some());
                if is_mutref && (mutable || was_mutmut) { env.insert(format!("mutref {}", name), Head::Other("m".into())); }
                let is_ref_param = is_mutref && mutable;
                inputs.push(json!({"name": name, "mut": mutable && !is_ref_param, "ty": ty.to_token_stream().to_string()}));
            }
        }
    }
    if !pre_stmts.is_empty() { let mut s = pre_stmts; s.extend(block.stmts.drain(..)); block.stmts = s; }
    let ret = match &f.sig.output { ReturnType::Default => None, ReturnType::Type(_, ty) => { let x = t.fix_type(&subst_assoc(ty, &f.assoc, f.self_ty.as_ref())); if x.to_token_stream().to_string() == "()" { None } else { Some(x) } } };
    let mut d = Desugar { t, env, macros: BTreeMap::new(), ret: ret.clone(), self_name: self_name.clone(), fresh: 0, notes: BTreeSet::new(), stmt_iter_self: self_name == "StatementIterator", scrut: vec![], tys, closure: 0 };
    d.visit_block_mut(&mut block);
    // a tail `collect()` whose type is the return type
    if let (Some(r), Some(Stmt::Expr(Expr::MethodCall(m), None))) = (&ret, block.stmts.last().cloned()) {
        if m.method == "collect" { let n = tname(r); if let Some(x) = d.rewrite_method(&m, Some(&n)) { *block.stmts.last_mut().unwrap() = Stmt::Expr(x, None); } }
    }
    int_locals(&mut block, &ret);
    let mut mk = Mark { t, loops: 0, closures: 0, keep: vec![], calls: BTreeSet::new(), lets: vec![], lits: vec![], callee: vec![], self_name: self_name.clone() };
    mk.visit_block_mut(&mut block);
    let _ = (&mk.keep, &mk.callee);
    if matches!(f.sig.inputs.first(), Some(FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some()) {
        // `mut self` -> `let mut __self = self`
        struct R;
        impl VisitMut for R {
            fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident("self") { *p = parse_quote!(__self); } }
        }
        R.visit_block_mut(&mut block);
        block.stmts.insert(0, parse_quote!(let mut __self = self;));
        d.notes.insert("mut self -> let mut".into());
        if let Some(i) = inputs.first_mut() { *i = json!({"name": "self", "text": "self", "ty": "self"}); }
    }
    // the assembler puts proof text where this marker stands
    let at = match block.stmts.last() { Some(Stmt::Expr(_, None)) => block.stmts.len() - 1, _ => block.stmts.len() };
    block.stmts.insert(at, parse_quote!(__tail_marker!();));

    let mut name = f.sig.ident.to_string();
    let keep_trait = matches!(tr.as_str(), "From" | "PartialEq" | "PartialOrd" | "Default") && !tr.is_empty();
    if !tr.is_empty() && !keep_trait && t.inherent.contains(&format!("{}::{}", self_name, name)) { name = format!("{}__{}", tr, name); }
    let keep_trait = keep_trait && tr != "Default";
    let impl_header = self_ty.as_ref().map(|s| {
        let g = &f.impl_generics;
        if keep_trait { let mut tp = f.trait_path.clone().unwrap(); PathFix { t }.visit_path_mut(&mut tp); format!("impl {} {} for {}", g.to_token_stream(), tp.to_token_stream(), s.to_token_stream()) }
        else { format!("impl {} {}", g.to_token_stream(), s.to_token_stream()) }
    });
    let mut path = f.path.clone();
    if name != f.sig.ident.to_string() { path = format!("{}::{}", self_name, name); }
    Ok(json!({
        "path": path, "name": name, "file": f.file, "line": f.line, "self_ty": self_name, "impl_header": impl_header,
        "trait": tr, "keep_trait": keep_trait,
        "generics": f.sig.generics.to_token_stream().to_string(),
        "where": f.sig.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()).unwrap_or_default(),
        "inputs": inputs, "ret": ret.map(|r| r.to_token_stream().to_string()),
        "body": block.to_token_stream().to_string(), "loops": mk.loops, "closures": mk.closures,
        "calls": mk.calls.iter().collect::<Vec<_>>(), "lets": mk.lets, "lits": mk.lits, "notes": d.notes.iter().collect::<Vec<_>>(),
        "pub": f.vis_pub,
        "assoc": f.assoc.iter().map(|(a, t)| json!([a, t.to_token_stream().to_string()])).collect::<Vec<_>>(),
    }))
}

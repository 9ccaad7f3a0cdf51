//! Mechanical extraction of /repo's code into plain Rust text that Verus accepts.
//!
//! Usage: extract <path to src/lib.rs> <path to macro-expanded crate or "-"> [<list of the functions the contracts know>] > out.json
//!
//! What it does to the code is listed in DESIGN.md ("The extraction"). It never invents behaviour:
//! every rewrite below replaces a construct by the definition of that construct.
mod desugar;
mod inline;
use desugar::*;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::*;

pub struct SrcFn {
    pub path: String,
    pub file: String,
    pub line: usize,
    pub self_ty: Option<Type>,
    pub impl_generics: Generics,
    pub trait_name: Option<String>,
    pub trait_path: Option<syn::Path>,
    pub vis_pub: bool,
    pub sig: Signature,
    pub block: Block,
    pub assoc: Vec<(String, Type)>,
}

#[derive(Default)]
pub struct Crate {
    pub fns: Vec<SrcFn>,
    pub types: Vec<(String, String, Item)>, // name, file, item
    pub consts: Vec<(String, String, ItemConst)>,
    pub dropped: Vec<(String, String)>,
    pub files: Vec<String>,
    pub mods: BTreeSet<String>,
    /// `impl<T> From<Result<T, E>> for X`: X, the parameter's name, the body
    pub from_result: Vec<(String, String, Block)>,
}

fn has_cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.starts_with("#[cfg(test)]") || s.starts_with("#[cfg(lolcode_verif)]") || s.starts_with("#[test]")
    })
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn walk(c: &mut Crate, file: &Path, dir: &Path, root: &Path) {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("cannot read {}: {}", file.display(), e); std::process::exit(3) });
    let rel = file.strip_prefix(root).unwrap_or(file).display().to_string();
    c.files.push(rel.clone());
    let parsed = match syn::parse_file(&text) {
        Ok(p) => p,
        Err(e) => { eprintln!("cannot parse {}: {}", file.display(), e); std::process::exit(3) }
    };
    walk_items(c, parsed.items, &rel, dir, root, true);
}

fn walk_items(c: &mut Crate, items: Vec<Item>, rel: &str, dir: &Path, root: &Path, follow: bool) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if has_cfg_off(&m.attrs) { continue; }
                let name = m.ident.to_string();
                c.mods.insert(name.clone());
                match m.content {
                    Some((_, items)) => walk_items(c, items, rel, &dir.join(&name), root, follow),
                    None if follow => {
                        let a = dir.join(format!("{}.rs", name));
                        let b = dir.join(&name).join("mod.rs");
                        let f = if a.exists() { a } else { b };
                        walk(c, &f, &dir.join(&name), root);
                    }
                    None => {}
                }
            }
            Item::Fn(f) => {
                if has_cfg_off(&f.attrs) { continue; }
                c.fns.push(SrcFn {
                    path: f.sig.ident.to_string(), file: rel.into(), line: f.sig.ident.span().start().line,
                    self_ty: None, impl_generics: Generics::default(), trait_name: None, trait_path: None,
                    vis_pub: matches!(f.vis, Visibility::Public(_)), sig: f.sig, block: *f.block, assoc: vec![],
                });
            }
            Item::Impl(i) => {
                if has_cfg_off(&i.attrs) { continue; }
                let tn = type_name(&i.self_ty);
                let trait_path = i.trait_.as_ref().map(|t| t.1.clone());
                let trait_name = trait_path.as_ref().map(|p| p.segments.last().unwrap().ident.to_string());
                let assoc: Vec<(String, Type)> = i.items.iter().filter_map(|x| match x { ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())), _ => None }).collect();
                for ii in i.items {
                    if let ImplItem::Fn(f) = ii {
                        if has_cfg_off(&f.attrs) { continue; }
                        let mut path = format!("{}::{}", tn, f.sig.ident);
                        if trait_name.as_deref() == Some("From") && i.generics.type_params().next().is_some() {
                            if let Some(FnArg::Typed(p)) = f.sig.inputs.first() {
                                if let (Pat::Ident(x), "Result") = (&*p.pat, type_name(&p.ty).as_str()) { c.from_result.push((tn.clone(), x.ident.to_string(), f.block.clone())); }
                            }
                        }
                        if let (Some(t), Some(p)) = (&trait_name, &trait_path) {
                            if t == "From" || t == "Into" || t == "TryFrom" {
                                let arg = p.segments.last().unwrap().arguments.to_token_stream().to_string().replace(' ', "");
                                let arg = arg.strip_prefix('<').unwrap_or(&arg).to_string(); let arg = arg.strip_suffix('>').unwrap_or(&arg).to_string();
                                path = format!("{}::{}<{}>", tn, f.sig.ident, strip_mods_text(&arg));
                            }
                        }
                        c.fns.push(SrcFn {
                            path, file: rel.into(), line: f.sig.ident.span().start().line,
                            self_ty: Some((*i.self_ty).clone()), impl_generics: i.generics.clone(),
                            trait_name: trait_name.clone(), trait_path: trait_path.clone(),
                            vis_pub: matches!(f.vis, Visibility::Public(_)) || trait_name.is_some(),
                            sig: f.sig, block: f.block, assoc: assoc.clone(),
                        });
                    }
                }
            }
            Item::Struct(ref s) if !has_cfg_off(&s.attrs) => c.types.push((s.ident.to_string(), rel.into(), it.clone())),
            Item::Enum(ref s) if !has_cfg_off(&s.attrs) => c.types.push((s.ident.to_string(), rel.into(), it.clone())),
            Item::Type(ref s) if !has_cfg_off(&s.attrs) => c.types.push((s.ident.to_string(), rel.into(), it.clone())),
            Item::Const(s) => if !has_cfg_off(&s.attrs) { c.consts.push((s.ident.to_string(), rel.into(), s)) },
            Item::Static(s) => if !has_cfg_off(&s.attrs) {
                let cst: ItemConst = { let (i, t, e) = (&s.ident, &s.ty, &s.expr); parse_quote!(const #i: #t = #e;) };
                c.consts.push((s.ident.to_string(), rel.into(), cst))
            },
            Item::Trait(t) => c.dropped.push((format!("trait {}", t.ident), "trait declaration: its implementations are extracted as inherent functions".into())),
            Item::Macro(m) => c.dropped.push((format!("macro {}", m.mac.path.to_token_stream()), "item macro not expanded".into())),
            _ => {}
        }
    }
}

/// Takes from the macro-expanded crate what the crate's own derive macros generated for the
/// keyword table: the trait impl, the symbol array and iter().
fn walk_expanded(c: &mut Crate, file: &Path) {
    let text = match std::fs::read_to_string(file) { Ok(t) => t, Err(_) => return };
    let parsed = match syn::parse_file(&text) { Ok(p) => p, Err(e) => { eprintln!("expanded: {}", e); return } };
    fn rec(c: &mut Crate, items: Vec<Item>, have_f: &BTreeSet<String>, have_c: &BTreeSet<String>) {
        for it in items {
            match it {
                Item::Mod(m) => if let Some((_, items)) = m.content { rec(c, items, have_f, have_c) },
                Item::Impl(i) => {
                    let auto = i.attrs.iter().any(|a| a.to_token_stream().to_string().contains("automatically_derived"));
                    if auto { continue; }
                    let mut sub = Crate::default();
                    walk_items(&mut sub, vec![Item::Impl(i)], "(expansion of lolcode-ast-derive)", Path::new("/"), Path::new("/"), false);
                    for f in sub.fns {
                        if !have_f.contains(&key(&f)) { c.fns.push(f); }
                    }
                }
                Item::Const(s) => {
                    let n = s.ident.to_string();
                    if n != "_" && !have_c.contains(&n) { c.consts.push((n, "(expansion of lolcode-ast-derive)".into(), s)); }
                }
                _ => {}
            }
        }
    }
    let have_f: BTreeSet<String> = c.fns.iter().map(key).collect();
    let have_c: BTreeSet<String> = c.consts.iter().map(|x| x.0.clone()).collect();
    rec(c, parsed.items, &have_f, &have_c);
}
fn key(f: &SrcFn) -> String { format!("{}/{}", f.path, f.trait_name.clone().unwrap_or_default()) }

pub fn strip_mods_text(s: &str) -> String {
    // text of a type: keep only the last path segment of every path
    let mut out = String::new();
    let mut cur = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_alphanumeric() || b[i] == '_' { cur.push(b[i]); i += 1; }
        else if b[i] == ':' && i + 1 < b.len() && b[i + 1] == ':' { cur.clear(); i += 2; }
        else { out.push_str(&cur); cur.clear(); out.push(b[i]); i += 1; }
    }
    out.push_str(&cur);
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let lib = PathBuf::from(&a[1]);
    let src = lib.parent().unwrap().to_path_buf();
    let root = src.parent().unwrap().to_path_buf();
    let mut c = Crate::default();
    walk(&mut c, &lib, &src, &root);
    if a.len() > 2 && a[2] != "-" { walk_expanded(&mut c, Path::new(&a[2])); }
    inline::unnest(&mut c);
    inline::local_closures(&mut c);
    if let Some(k) = a.get(3) {
        let known: BTreeSet<String> = std::fs::read_to_string(k).unwrap_or_default().lines().map(|x| x.to_string()).collect();
        inline::inline_all(&mut c, &known);
    }
    let tables = Tables::build(&c);

    let mut types = vec![];
    for (name, file, item) in &c.types {
        let (text, fields) = emit_type(item, &tables);
        types.push(json!({"name": name, "file": file, "text": text, "fields": fields}));
    }
    let mut consts = vec![];
    for (name, file, item) in &c.consts {
        let (t, e) = (tables.fix_type(&item.ty), { let mut e = (*item.expr).clone(); tables.fix_paths_expr(&mut e); e });
        consts.push(json!({"name": name, "file": file, "ty": t.to_token_stream().to_string(), "expr": e.to_token_stream().to_string()}));
    }
    let mut fns = vec![];
    let mut dropped: Vec<Value> = c.dropped.iter().map(|(a, b)| json!([a, b])).collect();
    for f in &c.fns {
        match emit_fn(f, &tables) {
            Ok(v) => fns.push(v),
            Err(why) => dropped.push(json!([f.path, why])),
        }
    }
    let out = json!({"types": types, "consts": consts, "fns": fns, "dropped": dropped, "files": c.files,
        "mods": c.mods.iter().collect::<Vec<_>>() });
    println!("{}", serde_json::to_string_pretty(&out).unwrap());
    let _: BTreeMap<i32, i32> = BTreeMap::new();
}

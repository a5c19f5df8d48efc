//! R43: a private function the contracts know by name goes by another one: found by its parameter and result types, and
//! given the known name back, everywhere in the sources.  Only where the known name is nowhere in use.
use crate::inline::File;
use crate::{Edit, Src};
use proc_macro2::{TokenStream, TokenTree};
use syn::spanned::Spanned;

/// file, type (or none), name, parameter types, result
const KNOWN: [(&str, &str, &str, &str, &str); 7] = [
    ("pep440", "", "compare_pep440_str", "&str,&str", "Option<Ordering>"),
    ("matching", "", "create_match_enum_from_operator_str", "&str", "Result<(MatchEnum,bool),VersionParsingError>"),
    ("spec_trees", "", "_apply_ops", "&str,&mutConstraintTree,&mutVec<&str>", "Result<(),String>"),
    ("spec_trees", "", "_treeify", "String", "Result<ConstraintTree,String>"),
    ("spec_trees", "ConstraintTree", "combine", "&self,bool,bool", "Result<String,String>"),
    ("version", "Version", "compare_iter", "Peekable<Iter<VersionPart>>,Peekable<Iter<VersionPart>>", "CompOp"),
    ("repodata", "", "deserialize_json_str_to_version", "D", "Result<Version,D::Error>"),
];
fn norm(t: &str) -> String {
    let mut out = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '\'' {
            i += 1;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { i += 1 }
            while i < cs.len() && (cs[i].is_whitespace() || cs[i] == ',') { i += 1 }
            continue;
        }
        if !cs[i].is_whitespace() { out.push(cs[i]) }
        i += 1;
    }
    out.replace("<>", "")
}
fn sig_of(src: &Src, s: &syn::Signature) -> (String, String) {
    let ps: Vec<String> = s.inputs.iter().map(|a| match a { syn::FnArg::Receiver(r) => norm(src.get(r.span())), syn::FnArg::Typed(t) => norm(src.get(t.ty.span())) }).collect();
    let r = match &s.output { syn::ReturnType::Default => String::new(), syn::ReturnType::Type(_, t) => norm(src.get(t.span())) };
    (ps.join(","), r)
}
fn idents(t: TokenStream, out: &mut Vec<proc_macro2::Ident>) {
    for x in t { match x { TokenTree::Ident(i) => out.push(i), TokenTree::Group(g) => idents(g.stream(), out), _ => {} } }
}
fn all_idents(f: &File) -> Option<Vec<proc_macro2::Ident>> { let t: TokenStream = f.text.parse().ok()?; let mut v = vec![]; idents(t, &mut v); Some(v) }

pub fn run(files: &mut Vec<File>) {
    for (stem, owner, name, ps, ret) in KNOWN {
        let used = files.iter().any(|f| all_idents(f).map_or(true, |v| v.iter().any(|i| i == name)));
        if used { continue }
        let mut found: Vec<String> = vec![];
        for f in files.iter().filter(|f| f.stem == stem) {
            let src = Src::new(f.text.clone());
            let file = match syn::parse_file(&f.text) { Ok(x) => x, Err(_) => return };
            let mut look = |vis: &syn::Visibility, s: &syn::Signature| {
                let n = s.ident.to_string();
                let known = KNOWN.iter().any(|k| k.0 == stem && k.2 == n);
                if !known && !matches!(vis, syn::Visibility::Public(_)) && sig_of(&src, s) == (ps.to_string(), ret.to_string()) { found.push(n) }
            };
            for it in &file.items {
                match it {
                    syn::Item::Fn(i) if owner.is_empty() && !crate::is_test(&i.attrs) => look(&i.vis, &i.sig),
                    syn::Item::Impl(i) if !owner.is_empty() && i.trait_.is_none() && norm(src.get(i.self_ty.span())) == owner => {
                        for x in &i.items { if let syn::ImplItem::Fn(m) = x { look(&m.vis, &m.sig) } }
                    }
                    _ => {}
                }
            }
        }
        if found.len() != 1 { continue }
        for f in files.iter_mut() {
            let src = Src::new(f.text.clone());
            let ids = match all_idents(f) { Some(v) => v, None => continue };
            let edits: Vec<Edit> = ids.iter().filter(|i| *i == &found[0]).enumerate().map(|(seq, i)| { let (a, b) = src.range(i.span()); Edit { a, b, t: format!("{}/*@R43@*/", name), seq } }).collect();
            f.text = crate::apply(&src.text, 0, src.text.len(), &edits);
        }
    }
}

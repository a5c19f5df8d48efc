//! R38: source-to-source pass before extraction. A call of a repository function that has no contract (a helper somebody
//! extracted) is replaced, in the functions that have one, by a block binding the parameters to the arguments and then
//! the helper's own body; a module-level constant or lazy_static by its initialiser. What cannot be done faithfully
//! (generic helpers, early returns that no rule turns into a value, recursion) is left as it is: the call then names a
//! function without a contract and the proof is undecided.
use crate::{is_test, ty_key, Edit, PyClass, Src};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct File {
    pub stem: String,
    pub path: String,
    pub text: String,
}

#[derive(Clone)]
struct Helper {
    stem: String,
    self_ty: String,
    name: String,
    /// "" none, "&" &self, "&mut" &mut self, "v" self
    recv: &'static str,
    params: Vec<(String, String)>,
    ret: String,
    tail: String,
    tried: Option<String>,
    plain: Option<String>,
    /// `|c| e` when the helper is one expression of one parameter
    closure: Option<String>,
}

fn apply_all(src: &Src, edits: &[Edit]) -> String {
    crate::apply(&src.text, 0, src.text.len(), edits)
}

/// returns and `?` of a body, outside closures and nested items
struct Exits {
    returns: Vec<bool>, // is it `return Err(..)` / `return None`
    tries: usize,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        let failing = match r.expr.as_deref() {
            Some(syn::Expr::Call(c)) => matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Err")),
            Some(syn::Expr::Path(p)) => p.path.segments.last().map_or(false, |s| s.ident == "None"),
            _ => false,
        };
        self.returns.push(failing);
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.tries += 1;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn exits_block(b: &syn::Block) -> Exits {
    let mut e = Exits { returns: vec![], tries: 0 };
    e.visit_block(b);
    e
}
fn has_return<F: FnOnce(&mut Exits)>(f: F) -> bool {
    let mut e = Exits { returns: vec![], tries: 0 };
    f(&mut e);
    !e.returns.is_empty()
}

struct Elim<'s> {
    src: &'s Src,
    edits: Vec<Edit>,
}
impl<'s> Elim<'s> {
    fn rep(&mut self, r: (usize, usize), t: &str) {
        let seq = self.edits.len();
        self.edits.push(Edit { a: r.0, b: r.1, t: t.into(), seq });
    }
    /// `return x;` at the end of the block -> `x`
    fn ret_tail(&mut self, st: &syn::Stmt) -> bool {
        if let syn::Stmt::Expr(syn::Expr::Return(r), _) = st {
            let whole = self.src.range(st.span());
            match &r.expr {
                Some(x) => {
                    if has_return(|e| e.visit_expr(x)) {
                        return false;
                    }
                    let (a, b) = self.src.range(x.span());
                    self.rep((whole.0, a), "");
                    self.rep((b, whole.1), "");
                }
                None => self.rep(whole, ""),
            }
            return true;
        }
        false
    }
    fn expr(&mut self, x: &syn::Expr) -> bool {
        if !has_return(|e| e.visit_expr(x)) {
            return true;
        }
        match x {
            syn::Expr::Block(b) => self.block(&b.block),
            syn::Expr::Paren(p) => self.expr(&p.expr),
            syn::Expr::If(i) => !has_return(|e| e.visit_expr(&i.cond)) && self.block(&i.then_branch) && i.else_branch.as_ref().map_or(true, |(_, e)| self.expr(e)),
            syn::Expr::Match(m) => {
                !has_return(|e| e.visit_expr(&m.expr))
                    && m.arms.iter().all(|a| match &*a.body {
                        syn::Expr::Return(r) => match &r.expr {
                            Some(v) if !has_return(|e| e.visit_expr(v)) => {
                                let (ra, _) = self.src.range(r.span());
                                let (va, _) = self.src.range(v.span());
                                self.rep((ra, va), "");
                                true
                            }
                            _ => false,
                        },
                        b => self.expr(b),
                    })
            }
            syn::Expr::Return(r) => match &r.expr {
                Some(v) if !has_return(|e| e.visit_expr(v)) => {
                    let (ra, _) = self.src.range(r.span());
                    let (va, _) = self.src.range(v.span());
                    self.rep((ra, va), "");
                    true
                }
                _ => false,
            },
            _ => false,
        }
    }
    fn block(&mut self, b: &syn::Block) -> bool {
        let n = b.stmts.len();
        for (i, st) in b.stmts.iter().enumerate() {
            if !has_return(|e| e.visit_stmt(st)) {
                continue;
            }
            if i + 1 == n {
                if self.ret_tail(st) {
                    return true;
                }
                return match st {
                    syn::Stmt::Expr(e, None) => self.expr(e),
                    _ => false,
                };
            }
            // guard: `if C { ..; return x; } REST`
            let e = match st {
                syn::Stmt::Expr(syn::Expr::If(e), _) => e,
                _ => return false,
            };
            if e.else_branch.is_some() || has_return(|v| v.visit_expr(&e.cond)) {
                return false;
            }
            match e.then_branch.stmts.last() {
                Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) => {}
                _ => return false,
            }
            if !self.block(&e.then_branch) {
                return false;
            }
            let (_, end) = self.src.range(st.span());
            let (_, be) = self.src.range(b.span());
            self.rep((end, end), " else {");
            self.rep((be - 1, be - 1), " }");
        }
        true
    }
}

/// `self` -> vx_self, `Self` -> the type
struct SelfNames<'s> {
    src: &'s Src,
    edits: Vec<Edit>,
    ty: String,
}
impl<'s> SelfNames<'s> {
    fn tokens(&mut self, ts: proc_macro2::TokenStream) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()),
                proc_macro2::TokenTree::Ident(i) => {
                    let r = self.src.range(i.span());
                    let seq = self.edits.len();
                    if i == "self" {
                        self.edits.push(Edit { a: r.0, b: r.1, t: "vx_self".into(), seq });
                    } else if i == "Self" {
                        self.edits.push(Edit { a: r.0, b: r.1, t: self.ty.clone(), seq });
                    }
                }
                _ => {}
            }
        }
    }
}

fn drop_lifetimes(t: &str) -> String {
    let mut out = String::new();
    let mut cs = t.chars().peekable();
    while let Some(c) = cs.next() {
        if c == '\'' {
            while cs.peek().map_or(false, |d| d.is_alphanumeric() || *d == '_') {
                cs.next();
            }
            if cs.peek() == Some(&' ') {
                cs.next();
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn helper(src: &Src, stem: &str, self_ty: &str, sig: &syn::Signature, block: &syn::Block) -> Option<Helper> {
    if sig.generics.params.iter().any(|p| !matches!(p, syn::GenericParam::Lifetime(_))) || sig.asyncness.is_some() || sig.unsafety.is_some() {
        return None;
    }
    let mut recv = "";
    let mut params = vec![];
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => {
                recv = if r.reference.is_some() {
                    if r.mutability.is_some() { "&mut" } else { "&" }
                } else {
                    "v"
                };
                if r.colon_token.is_some() {
                    return None;
                }
            }
            syn::FnArg::Typed(t) => {
                let ty = src.get(t.ty.span()).to_string();
                if ty.contains("impl ") || ty.contains("dyn ") {
                    return None;
                }
                params.push((src.get(t.pat.span()).to_string(), drop_lifetimes(&ty.replace("Self", self_ty))));
            }
        }
    }
    let mut own = SelfNames { src, edits: vec![], ty: self_ty.to_string() };
    let r = src.range(block.span());
    let ts: proc_macro2::TokenStream = src.text[r.0..r.1].parse().ok()?;
    let _ = ts;
    own.tokens(quote_block(block));
    let text = |extra: &[Edit]| {
        let mut es = own.edits.clone();
        es.extend(extra.iter().cloned());
        crate::apply(&src.text, r.0, r.1, &es)
    };
    let tail = text(&[]);
    let ex = exits_block(block);
    let mut el = Elim { src, edits: vec![] };
    let elim = if ex.returns.is_empty() { Some(tail.clone()) } else if el.block(block) { Some(text(&el.edits)) } else { None };
    let plain = if ex.tries == 0 { elim.clone() } else { None };
    let tried = if ex.returns.iter().all(|f| *f) { Some(tail.clone()) } else { elim };
    let closure = match (&block.stmts[..], params.len(), recv) {
        ([syn::Stmt::Expr(e, None)], 1, "") if ex.returns.is_empty() && ex.tries == 0 => Some(format!("|{}: {}| {}", params[0].0, params[0].1, src.get(e.span()))),
        _ => None,
    };
    let ret = match &sig.output {
        syn::ReturnType::Default => "()".into(),
        syn::ReturnType::Type(_, t) => drop_lifetimes(&src.get(t.span()).replace("Self", self_ty)),
    };
    Some(Helper { stem: stem.into(), self_ty: self_ty.into(), name: sig.ident.to_string(), recv, params, ret, tail, tried, plain, closure })
}
fn quote_block(b: &syn::Block) -> proc_macro2::TokenStream {
    quote::quote!(#b)
}

#[derive(Default)]
struct Known {
    helpers: Vec<Helper>,
    consts: BTreeMap<(String, String), String>,
    lazies: BTreeMap<(String, String), String>,
}

struct Caller<'s, 'k> {
    src: &'s Src,
    stem: &'s str,
    self_ty: String,
    known: &'k Known,
    own_key: String,
    tails: BTreeSet<(usize, usize)>,
    tries: BTreeSet<(usize, usize)>,
    edits: Vec<Edit>,
    busy: Vec<(usize, usize)>,
    lazy_used: BTreeSet<String>,
    shadow: BTreeSet<String>,
}
impl<'s, 'k> Caller<'s, 'k> {
    fn mark(&mut self, e: &syn::Expr) {
        self.tails.insert(self.src.range(e.span()));
        match e {
            syn::Expr::Block(b) => self.mark_block(&b.block),
            syn::Expr::Paren(p) => self.mark(&p.expr),
            syn::Expr::If(i) => {
                self.mark_block(&i.then_branch);
                if let Some((_, x)) = &i.else_branch {
                    self.mark(x);
                }
            }
            syn::Expr::Match(m) => {
                for a in &m.arms {
                    self.mark(&a.body);
                }
            }
            _ => {}
        }
    }
    fn mark_block(&mut self, b: &syn::Block) {
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            self.mark(e);
        }
    }
    fn put(&mut self, r: (usize, usize), t: String) {
        if self.busy.iter().any(|b| b.0 < r.1 && r.0 < b.1) {
            return;
        }
        let seq = self.edits.len();
        self.busy.push(r);
        self.edits.push(Edit { a: r.0, b: r.1, t, seq });
    }
    /// a call of `h` at `r`; `recv`: the text of the receiver and whether it is `self` itself
    fn inline(&mut self, h: &Helper, r: (usize, usize), recv: Option<(String, bool)>, args: &[String]) {
        if h.params.len() != args.len() {
            return;
        }
        let body = if self.tails.contains(&r) {
            Some(&h.tail)
        } else if self.tries.contains(&r) {
            h.tried.as_ref()
        } else {
            h.plain.as_ref()
        };
        let body = match body {
            Some(b) => b,
            None => return,
        };
        let mut t = String::from("{/*@R38@*/ ");
        for (i, ((_, ty), a)) in h.params.iter().zip(args).enumerate() {
            t += &format!("let vx_h{}: {} = {}; ", i, ty, a);
        }
        if let Some((x, is_self)) = recv {
            t += &match h.recv {
                "&" if is_self => format!("let vx_self: &{} = {}; ", h.self_ty, x),
                "&" => format!("let vx_self: &{} = &{}; ", h.self_ty, x),
                "&mut" if is_self => format!("let vx_self: &mut {} = {}; ", h.self_ty, x),
                "&mut" => format!("let vx_self: &mut {} = &mut {}; ", h.self_ty, x),
                "v" => format!("let vx_self: {} = {}; ", h.self_ty, x),
                _ => return,
            };
        } else if !h.recv.is_empty() {
            return;
        }
        for (i, (p, _)) in h.params.iter().enumerate() {
            t += &format!("let {} = vx_h{}; ", p, i);
        }
        let scalar = matches!(&h.ret[..], "bool" | "i8" | "i16" | "i32" | "i64" | "u8" | "u16" | "u32" | "u64" | "usize" | "isize");
        if scalar && !self.tails.contains(&r) {
            t += &format!("let vx_hr: {} = {}; vx_hr }}", h.ret, body);
        } else {
            t += &format!("{} }}", body);
        }
        // a block cannot start an operand everywhere
        if !self.tails.contains(&r) {
            t = format!("({})", t);
        }
        self.put(r, t);
    }
    fn args(&self, a: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) -> Vec<String> {
        a.iter().map(|x| self.src.get(x.span()).to_string()).collect()
    }
    fn free(&self, name: &str) -> Option<&'k Helper> {
        if self.shadow.contains(name) {
            return None;
        }
        let hs: Vec<&'k Helper> = self.known.helpers.iter().filter(|h| h.self_ty.is_empty() && h.name == name).collect();
        match hs.iter().find(|h| h.stem == self.stem) {
            Some(h) => Some(h),
            None if hs.len() == 1 => Some(hs[0]),
            _ => None,
        }
    }
    fn assoc(&self, ty: &str, name: &str) -> Option<&'k Helper> {
        let ty = if ty == "Self" { &self.self_ty[..] } else { ty };
        let hs: Vec<&'k Helper> = self.known.helpers.iter().filter(|h| h.self_ty == ty && h.name == name).collect();
        if hs.len() == 1 { Some(hs[0]) } else { None }
    }
    fn mac_args(&mut self, m: &syn::Macro) {
        type Args = syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>;
        if let Ok(a) = m.parse_body_with(Args::parse_terminated) {
            // the spans of parsed macro arguments are those of the file
            let keep: Args = a;
            for e in &keep {
                self.visit_owned(e);
            }
        }
    }
    /// constants inside the tokens of a lazy_static
    fn tokens(&mut self, ts: proc_macro2::TokenStream) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()),
                proc_macro2::TokenTree::Ident(i) => {
                    if let Some(v) = self.known.consts.get(&(self.stem.to_string(), i.to_string())) {
                        let r = self.src.range(i.span());
                        self.put(r, format!("{}/*@R38@*/", v));
                    }
                }
                _ => {}
            }
        }
    }
    fn visit_owned(&mut self, e: &syn::Expr) {
        // the visitor borrows nothing from the tree beyond this call
        struct W<'x, 's, 'k>(&'x mut Caller<'s, 'k>);
        impl<'x, 's, 'k, 'a> Visit<'a> for W<'x, 's, 'k> {
            fn visit_expr(&mut self, e: &'a syn::Expr) {
                self.0.one(e);
                visit::visit_expr(self, e);
            }
        }
        W(self).visit_expr(e);
    }
    fn one(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let h = match segs.len() {
                        1 => self.free(&segs[0]),
                        _ => self.assoc(&segs[segs.len() - 2], &segs[segs.len() - 1]).or_else(|| if segs[segs.len() - 2].chars().next().map_or(false, |c| c.is_lowercase()) { self.free(&segs[segs.len() - 1]) } else { None }),
                    };
                    if let Some(h) = h {
                        let r = self.src.range(e.span());
                        let mut args = self.args(&c.args);
                        if h.recv.is_empty() {
                            self.inline(h, r, None, &args);
                        } else if !args.is_empty() {
                            let x = args.remove(0);
                            // Type::method(&v, ..): the receiver is written with its reference
                            self.inline(h, r, Some((x, true)), &args);
                        }
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let hs: Vec<&'k Helper> = self.known.helpers.iter().filter(|h| !h.recv.is_empty() && h.name == name && h.params.len() == m.args.len()).collect();
                if hs.len() == 1 {
                    let r = self.src.range(e.span());
                    let x = self.src.get(m.receiver.span()).to_string();
                    let is_self = x == "self" || x == "vx_self";
                    let args = self.args(&m.args);
                    self.inline(hs[0], r, Some((x, is_self)), &args);
                } else {
                    // a helper predicate handed over by name
                    for a in &m.args {
                        if let syn::Expr::Path(p) = a {
                            if let Some(i) = p.path.get_ident() {
                                if let Some(c) = self.free(&i.to_string()).and_then(|h| h.closure.clone()) {
                                    let r = self.src.range(a.span());
                                    self.put(r, format!("{}/*@R38@*/", c));
                                }
                            }
                        }
                    }
                }
            }
            syn::Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let n = i.to_string();
                    if !self.shadow.contains(&n) {
                        let k = (self.stem.to_string(), n.clone());
                        if let Some(v) = self.known.consts.get(&k) {
                            let r = self.src.range(e.span());
                            self.put(r, format!("{}/*@R38@*/", v));
                        } else if self.known.lazies.contains_key(&k) {
                            self.lazy_used.insert(n);
                        }
                    }
                }
            }
            syn::Expr::Macro(m) => self.mac_args(&m.mac),
            _ => {}
        }
    }
}
impl<'s, 'k, 'a> Visit<'a> for Caller<'s, 'k> {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        self.one(e);
        visit::visit_expr(self, e);
    }
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        visit::visit_expr_return(self, r);
    }
    fn visit_stmt_macro(&mut self, m: &'a syn::StmtMacro) {
        if m.mac.path.is_ident("lazy_static") {
            self.tokens(m.mac.tokens.clone());
            return;
        }
        self.mac_args(&m.mac);
    }
    fn visit_item_const(&mut self, c: &'a syn::ItemConst) {
        // its value stands where it is used
        if simple_value(&c.expr) {
            let r = self.src.range(c.span());
            self.put(r, "/*@R38@*/".into());
        }
    }
    fn visit_pat(&mut self, p: &'a syn::Pat) {
        if let syn::Pat::Ident(i) = p {
            if let Some(v) = self.known.consts.get(&(self.stem.to_string(), i.ident.to_string())) {
                if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() && v.starts_with(|c: char| c == '"' || c == '\'' || c.is_ascii_digit() || c == 'r') {
                    let r = self.src.range(p.span());
                    self.put(r, format!("{}/*@R38@*/", v));
                }
            }
        }
        visit::visit_pat(self, p);
    }
}
/// marks what `return e` and `e?` stand around
struct Marks<'c, 's, 'k>(&'c mut Caller<'s, 'k>);
impl<'c, 's, 'k, 'a> Visit<'a> for Marks<'c, 's, 'k> {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        if let Some(e) = &r.expr {
            self.0.mark(e);
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        let r = self.0.src.range(t.expr.span());
        self.0.tries.insert(r);
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

fn key(stem: &str, self_ty: &str, tr: &str, name: &str) -> String {
    if self_ty.is_empty() {
        format!("{}::{}", stem, name)
    } else if tr.is_empty() {
        format!("{}::{}::{}", stem, self_ty, name)
    } else {
        format!("{}::<{} as {}>::{}", stem, self_ty, tr, name)
    }
}
pub fn trait_name(src: &Src, i: &syn::ItemImpl) -> String {
    let t = i.trait_.as_ref().map(|(_, p, _)| src.get(p.span()).split_whitespace().collect::<Vec<_>>().join(" ")).unwrap_or_default();
    match t.rsplit("fmt::").next() {
        Some(x) if t.contains("fmt::") => x.to_string(),
        _ => t,
    }
}

/// py_class! blocks become their struct and impl
fn expand_py(f: &mut File) {
    let src = Src::new(f.text.clone());
    if let Ok(file) = syn::parse_file(&f.text) {
        let mut edits = vec![];
        for it in &file.items {
            if let syn::Item::Macro(m) = it {
                if m.mac.path.segments.last().map_or(false, |s| s.ident == "py_class") {
                    if let Ok(c) = m.mac.parse_body::<PyClass>() {
                        let r = src.range(it.span());
                        edits.push(Edit { a: r.0, b: r.1, t: c.source(&src), seq: edits.len() });
                    }
                }
            }
        }
        f.text = apply_all(&src, &edits);
    }
}

/// functions declared inside functions of this file
struct NestedFns<'s> {
    src: &'s Src,
    found: Vec<((usize, usize), String)>,
    names: Vec<String>,
}
impl<'s, 'a> Visit<'a> for NestedFns<'s> {
    fn visit_block(&mut self, b: &'a syn::Block) {
        for s in &b.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(i)) = s {
                if i.attrs.iter().all(|a| a.path().is_ident("inline")) {
                    self.found.push((self.src.range(i.span()), i.sig.ident.to_string()));
                }
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_item_fn(&mut self, i: &'a syn::ItemFn) {
        self.names.push(i.sig.ident.to_string());
        if !is_test(&i.attrs) {
            visit::visit_item_fn(self, i);
        }
    }
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
        if !is_test(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
}
/// a function declared inside a function becomes one of the file, if no other there has its name
fn hoist_fns(f: &mut File) {
    for _ in 0..4 {
        let src = Src::new(f.text.clone());
        let file = match syn::parse_file(&f.text) {
            Ok(x) => x,
            Err(_) => return,
        };
        let mut v = NestedFns { src: &src, found: vec![], names: vec![] };
        v.visit_file(&file);
        let mut edits: Vec<Edit> = vec![];
        let mut tail = String::new();
        for (r, n) in &v.found {
            if v.names.iter().filter(|x| *x == n).count() != 1 || edits.iter().any(|e| e.a <= r.0 && r.1 <= e.b) {
                continue;
            }
            tail.push_str("\n");
            tail.push_str(&src.text[r.0..r.1]);
            // the lines stay where they are
            let lines = src.text[r.0..r.1].matches('\n').count();
            edits.push(Edit { a: r.0, b: r.1, t: "\n".repeat(lines), seq: edits.len() });
        }
        if edits.is_empty() {
            return;
        }
        f.text = apply_all(&src, &edits) + &tail + "\n";
    }
}

/// a closure bound to a name, and what the enclosing function does with the name
struct NamedClosure {
    stmt: (usize, usize),
    name: String,
    params: Vec<(String, Option<String>)>,
    body: String,
    text: String,
    captures: BTreeSet<String>,
}
struct FindClosures<'s> {
    src: &'s Src,
    found: Vec<NamedClosure>,
}
impl<'s, 'a> Visit<'a> for FindClosures<'s> {
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let (syn::Pat::Ident(n), Some(init)) = (&l.pat, &l.init) {
            if let (syn::Expr::Closure(c), None, None, None) = (&*init.expr, &n.mutability, &n.by_ref, &init.diverge) {
                let mut e = Exits { returns: vec![], tries: 0 };
                e.visit_expr(&c.body);
                let mut params = vec![];
                for p in &c.inputs {
                    match p {
                        syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() => params.push((i.ident.to_string(), None)),
                        syn::Pat::Type(t) if matches!(&*t.pat, syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none()) => {
                            params.push((self.src.get(t.pat.span()).to_string(), Some(self.src.get(t.ty.span()).to_string())))
                        }
                        _ => {}
                    }
                }
                if e.returns.is_empty() && e.tries == 0 && params.len() == c.inputs.len() && c.capture.is_none() && c.asyncness.is_none() {
                    let mut cap = BTreeSet::new();
                    idents(quote::ToTokens::to_token_stream(&*c.body), &mut cap);
                    for (p, _) in &params {
                        cap.remove(p);
                    }
                    self.found.push(NamedClosure {
                        stmt: self.src.range(l.span()),
                        name: n.ident.to_string(),
                        params,
                        body: self.src.get(c.body.span()).to_string(),
                        text: self.src.get(c.span()).to_string(),
                        captures: cap,
                    });
                }
            }
        }
        visit::visit_local(self, l);
    }
}
fn idents(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            proc_macro2::TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            _ => {}
        }
    }
}
fn count_ident(ts: proc_macro2::TokenStream, name: &str) -> usize {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Group(g) => count_ident(g.stream(), name),
            proc_macro2::TokenTree::Ident(i) => (i == name) as usize,
            _ => 0,
        })
        .sum()
}
struct ClosureUses<'s, 'c> {
    src: &'s Src,
    c: &'c NamedClosure,
    uses: usize,
    rebound: bool,
    edits: Vec<Edit>,
}
impl<'s, 'c> ClosureUses<'s, 'c> {
    fn is(&self, e: &syn::Expr) -> bool {
        matches!(e, syn::Expr::Path(p) if p.path.is_ident(&self.c.name))
    }
    fn value(&mut self, a: &syn::Expr) {
        let plain = match a {
            syn::Expr::Reference(r) if r.mutability.is_none() => &*r.expr,
            _ => a,
        };
        if self.is(plain) {
            self.uses += 1;
            let r = self.src.range(a.span());
            let seq = self.edits.len();
            self.edits.push(Edit { a: r.0, b: r.1, t: format!("{}/*@R38@*/", self.c.text), seq });
        }
    }
}
impl<'s, 'c, 'a> Visit<'a> for ClosureUses<'s, 'c> {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if self.is(&c.func) && c.args.len() == self.c.params.len() {
            self.uses += 1;
            let mut t = String::from("({/*@R38@*/ ");
            // the arguments stay where they are: what is in them may need replacing too
            let r = self.src.range(c.span());
            let mut at = r.0;
            for (i, (a, (_, ty))) in c.args.iter().zip(&self.c.params).enumerate() {
                let ar = self.src.range(a.span());
                t += &match ty {
                    Some(ty) => format!("let vx_h{}: {} = ", i, ty),
                    None => format!("let vx_h{} = ", i),
                };
                let seq = self.edits.len();
                self.edits.push(Edit { a: at, b: ar.0, t: std::mem::take(&mut t), seq });
                t = "; ".into();
                at = ar.1;
            }
            for (i, (p, _)) in self.c.params.iter().enumerate() {
                t += &format!("let {} = vx_h{}; ", p, i);
            }
            t += &format!("{} }})", self.c.body);
            let seq = self.edits.len();
            self.edits.push(Edit { a: at, b: r.1, t, seq });
            for a in &c.args {
                self.value(a);
                self.visit_expr(a);
            }
            return;
        }
        for a in &c.args {
            self.value(a);
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        for a in &m.args {
            self.value(a);
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        // a captured name bound again after the closure, or its own name
        let at = self.src.range(p.span()).0;
        if p.ident == self.c.name && at > self.c.stmt.1 || self.c.captures.contains(&p.ident.to_string()) && at > self.c.stmt.1 {
            self.rebound = true;
        }
        visit::visit_pat_ident(self, p);
    }
}
/// R38: a closure bound to a name stands where it is called or handed over
fn local_closures(f: &mut File) {
    struct Blocks(Vec<syn::Block>);
    impl<'a> Visit<'a> for Blocks {
        fn visit_item_fn(&mut self, i: &'a syn::ItemFn) {
            if !is_test(&i.attrs) {
                self.0.push((*i.block).clone());
            }
        }
        fn visit_impl_item_fn(&mut self, i: &'a syn::ImplItemFn) {
            if !is_test(&i.attrs) {
                self.0.push(i.block.clone());
            }
        }
        fn visit_trait_item_fn(&mut self, i: &'a syn::TraitItemFn) {
            if let Some(b) = &i.default {
                self.0.push(b.clone());
            }
        }
        fn visit_item_mod(&mut self, m: &'a syn::ItemMod) {
            if !is_test(&m.attrs) {
                visit::visit_item_mod(self, m);
            }
        }
    }
    for _ in 0..8 {
        let src = Src::new(f.text.clone());
        let file = match syn::parse_file(&f.text) {
            Ok(x) => x,
            Err(_) => return,
        };
        let mut bs = Blocks(vec![]);
        bs.visit_file(&file);
        let mut done = None;
        for b in &bs.0 {
            let mut fc = FindClosures { src: &src, found: vec![] };
            fc.visit_block(b);
            for c in &fc.found {
                let mut u = ClosureUses { src: &src, c, uses: 0, rebound: false, edits: vec![] };
                u.visit_block(b);
                if u.rebound || u.uses == 0 || count_ident(quote_block(b), &c.name) != u.uses + 1 {
                    continue;
                }
                let lines = src.text[c.stmt.0..c.stmt.1].matches('\n').count();
                let seq = u.edits.len();
                u.edits.push(Edit { a: c.stmt.0, b: c.stmt.1, t: "\n".repeat(lines), seq });
                let t = apply_all(&src, &u.edits);
                if syn::parse_file(&t).is_ok() {
                    done = Some(t);
                    break;
                }
            }
            if done.is_some() {
                break;
            }
        }
        match done {
            Some(t) => f.text = t,
            None => return,
        }
    }
}

struct Names(BTreeSet<String>);
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        if p.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.insert(p.ident.to_string());
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_stmt_macro(&mut self, m: &'a syn::StmtMacro) {
        // a lazy_static inside the function shadows the one outside
        if m.mac.path.is_ident("lazy_static") {
            if let Ok(items) = syn::parse2::<crate::LazyItems>(m.mac.tokens.clone()) {
                for (n, _) in items.0 {
                    self.0.insert(n);
                }
            }
        }
    }
}

/// the constants declared inside functions
struct LocalConsts<'s>(&'s Src, Vec<(String, String)>);
impl<'s, 'a> Visit<'a> for LocalConsts<'s> {
    fn visit_block(&mut self, b: &'a syn::Block) {
        for s in &b.stmts {
            if let syn::Stmt::Item(syn::Item::Const(c)) = s {
                if simple_value(&c.expr) {
                    self.1.push((c.ident.to_string(), self.0.get(c.expr.span()).to_string()));
                }
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_item_mod(&mut self, _: &'a syn::ItemMod) {}
}

pub fn run(files: &mut Vec<File>, contracted: &BTreeSet<String>) {
    for f in files.iter_mut() {
        expand_py(f);
        hoist_fns(f);
        local_closures(f);
    }
    if contracted.is_empty() {
        return;
    }
    for _round in 0..6 {
        let mut known = Known::default();
        let parsed: Vec<Option<(Src, syn::File)>> = files.iter().map(|f| syn::parse_file(&f.text).ok().map(|p| (Src::new(f.text.clone()), p))).collect();
        for (f, p) in files.iter().zip(&parsed) {
            let (src, file) = match p {
                Some(x) => x,
                None => continue,
            };
            let mut lc = LocalConsts(src, vec![]);
            lc.visit_file(file);
            for (n, v) in lc.1 {
                known.consts.insert((f.stem.clone(), n), v);
            }
            for it in &file.items {
                match it {
                    syn::Item::Fn(i) if !is_test(&i.attrs) && !contracted.contains(&key(&f.stem, "", "", &i.sig.ident.to_string())) => {
                        if let Some(h) = helper(src, &f.stem, "", &i.sig, &i.block) {
                            known.helpers.push(h);
                        }
                    }
                    syn::Item::Impl(i) if !is_test(&i.attrs) && i.trait_.is_none() && i.generics.params.is_empty() => {
                        let st = ty_key(src, &i.self_ty);
                        for x in &i.items {
                            match x {
                                syn::ImplItem::Fn(m) if !is_test(&m.attrs) && !contracted.contains(&key(&f.stem, &st, "", &m.sig.ident.to_string())) => {
                                    if let Some(h) = helper(src, &f.stem, &st, &m.sig, &m.block) {
                                        known.helpers.push(h);
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                    syn::Item::Const(c) if !is_test(&c.attrs) => {
                        if simple_value(&c.expr) {
                            known.consts.insert((f.stem.clone(), c.ident.to_string()), src.get(c.expr.span()).to_string());
                        }
                    }
                    syn::Item::Static(c) if !is_test(&c.attrs) => {
                        if simple_value(&c.expr) && matches!(c.mutability, syn::StaticMutability::None) {
                            known.consts.insert((f.stem.clone(), c.ident.to_string()), src.get(c.expr.span()).to_string());
                        }
                    }
                    syn::Item::Macro(m) if m.mac.path.is_ident("lazy_static") => {
                        if let Ok(items) = syn::parse2::<crate::LazyItems>(m.mac.tokens.clone()) {
                            for (n, init) in items.0 {
                                known.lazies.insert((f.stem.clone(), n.clone()), format!("lazy_static! {{ static ref {}: VxLazy = {}; }} ", n, init));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        for ((stem, _), v) in known.lazies.iter_mut() {
            for ((s, n), c) in known.consts.iter() {
                if s == stem {
                    *v = words(v, n, c);
                }
            }
        }
        let mut changed = false;
        for (f, p) in files.iter_mut().zip(&parsed) {
            let (src, file) = match p {
                Some(x) => x,
                None => continue,
            };
            let mut all = vec![];
            let mut work = |self_ty: &str, k: String, block: &syn::Block| {
                // a provided trait method: contracts are per implementing type
                let provided = self_ty == "Self" && k.find('<').map_or(false, |i| contracted.iter().any(|c| c.starts_with(&k[..i]) && c.ends_with(&k[i + 5..])));
                if !contracted.contains(&k) && !provided {
                    return;
                }
                let mut names = Names(BTreeSet::new());
                names.visit_block(block);
                let mut c = Caller { src, stem: &f.stem, self_ty: self_ty.into(), known: &known, own_key: k, tails: BTreeSet::new(), tries: BTreeSet::new(), edits: vec![], busy: vec![], lazy_used: BTreeSet::new(), shadow: names.0 };
                c.mark_block(block);
                Marks(&mut c).visit_block(block);
                c.visit_block(block);
                let _ = &c.own_key;
                let at = src.range(block.span()).0 + 1;
                for n in &c.lazy_used {
                    let t = format!(" {}/*@R38@*/", known.lazies[&(f.stem.clone(), n.clone())]);
                    let seq = c.edits.len();
                    c.edits.push(Edit { a: at, b: at, t, seq });
                }
                all.extend(c.edits);
            };
            for it in &file.items {
                match it {
                    syn::Item::Fn(i) if !is_test(&i.attrs) => work("", key(&f.stem, "", "", &i.sig.ident.to_string()), &i.block),
                    syn::Item::Impl(i) if !is_test(&i.attrs) => {
                        let st = ty_key(src, &i.self_ty);
                        let tr = trait_name(src, i);
                        for x in &i.items {
                            if let syn::ImplItem::Fn(m) = x {
                                if !is_test(&m.attrs) {
                                    work(&st, key(&f.stem, &st, &tr, &m.sig.ident.to_string()), &m.block);
                                }
                            }
                        }
                    }
                    syn::Item::Trait(t) => {
                        for x in &t.items {
                            if let syn::TraitItem::Fn(m) = x {
                                if let Some(b) = &m.default {
                                    work("Self", key(&f.stem, "Self", &t.ident.to_string(), &m.sig.ident.to_string()), b);
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            if !all.is_empty() {
                for (i, e) in all.iter_mut().enumerate() {
                    e.seq = i;
                }
                let t = apply_all(src, &all);
                if syn::parse_file(&t).is_ok() && t != f.text {
                    f.text = t;
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
}

fn simple_value(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) => true,
        syn::Expr::Unary(u) => simple_value(&u.expr),
        syn::Expr::Array(a) => a.elems.iter().all(simple_value),
        syn::Expr::Reference(r) => simple_value(&r.expr),
        syn::Expr::Path(p) => p.path.segments.len() >= 2,
        syn::Expr::Paren(p) => simple_value(&p.expr),
        _ => false,
    }
}

/// every occurrence of a name as a whole word replaced
fn words(t: &str, name: &str, by: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find(name) {
        let word = |c: char| c.is_alphanumeric() || c == '_';
        let whole = !out.chars().last().or(None).map_or(false, |c| i == 0 && word(c)) && !rest[..i].ends_with(word) && !rest[i + name.len()..].starts_with(word);
        out.push_str(&rest[..i]);
        out.push_str(if whole { by } else { name });
        rest = &rest[i + name.len()..];
    }
    out + rest
}

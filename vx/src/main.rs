//! Mechanical extraction: reads Rust files of /repo and prints, as JSON, every item outside test modules with the
//! normalisations listed in DESIGN.md applied as text edits on the original source (everything else is copied byte for
//! byte), and with markers where contracts, loop invariants and proof hints may be inserted.
mod desugar;
mod rename;
mod inline;
mod re;
use proc_macro2::{LineColumn, Span};
use serde_json::{json, Value as J};
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Src {
    text: String,
    lines: Vec<usize>,
}
impl Src {
    fn new(text: String) -> Src {
        let mut lines = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push(i + 1);
            }
        }
        Src { text, lines }
    }
    fn off(&self, lc: LineColumn) -> usize {
        let start = self.lines[lc.line - 1];
        let line = &self.text[start..];
        line.char_indices().nth(lc.column).map(|(i, _)| start + i).unwrap_or(self.text.len())
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn get(&self, s: Span) -> &str {
        let (a, b) = self.range(s);
        &self.text[a..b]
    }
}

/// function name -> 'O' (Option) or 'R' (Result), for the functions of the repository that return one of them
static KINDS: std::sync::OnceLock<std::collections::BTreeMap<String, char>> = std::sync::OnceLock::new();
fn ty_kind(t: &syn::ReturnType) -> Option<char> {
    if let syn::ReturnType::Type(_, t) = t {
        if let syn::Type::Path(p) = &**t {
            return match &p.path.segments.last()?.ident.to_string()[..] {
                "Option" => Some('O'),
                "Result" => Some('R'),
                _ => None,
            };
        }
    }
    None
}
struct KindScan(std::collections::BTreeMap<String, char>);
impl<'a> Visit<'a> for KindScan {
    fn visit_signature(&mut self, s: &'a syn::Signature) {
        let k = ty_kind(&s.output).unwrap_or('-');
        let e = self.0.entry(s.ident.to_string()).or_insert(k);
        if *e != k {
            *e = '-';
        }
    }
}

#[derive(Clone)]
struct Edit {
    a: usize,
    b: usize,
    t: String,
    seq: usize,
}

fn apply(src: &str, a: usize, b: usize, edits: &[Edit]) -> String {
    let mut es: Vec<&Edit> = edits.iter().filter(|e| e.a >= a && e.b <= b).collect();
    es.sort_by_key(|e| (e.a, e.b, e.seq));
    let mut out = String::new();
    let mut p = a;
    for e in es {
        if e.a < p {
            continue; // inside a range already replaced
        }
        out.push_str(&src[p..e.a]);
        out.push_str(&e.t);
        p = e.b;
    }
    out.push_str(&src[p..b]);
    out
}

struct Norm<'s> {
    src: &'s Src,
    edits: Vec<Edit>,
    loops: usize,
    rules: BTreeSet<String>,
    unsupported: BTreeSet<String>,
    regexes: Vec<String>,
    locals: Vec<J>,
    calls: BTreeSet<String>,
    local_names: BTreeSet<String>,
    peek_used: bool,
    self_ty: String,
    assoc: Vec<(String, String)>,
    /// in the fmt function of Debug or Display
    fmt: Option<&'static str>,
    /// local variables: 'c' a closure, 'O' an Option, 'R' a Result
    var_kinds: std::collections::BTreeMap<String, char>,
}

impl<'s> Norm<'s> {
    fn new(src: &'s Src, self_ty: &str, fmt: Option<&'static str>) -> Norm<'s> {
        Norm { src, edits: vec![], loops: 0, rules: Default::default(), unsupported: Default::default(), regexes: vec![], locals: vec![], calls: Default::default(), local_names: Default::default(), peek_used: false, self_ty: self_ty.to_string(), assoc: vec![], fmt, var_kinds: Default::default() }
    }
    /// an expression normalised on its own
    fn sub(&mut self, e: &syn::Expr) -> String {
        let mut nn = Norm::new(self.src, &self.self_ty, self.fmt);
        nn.var_kinds = self.var_kinds.clone();
        nn.visit_expr(e);
        self.rules.extend(nn.rules);
        self.unsupported.extend(nn.unsupported);
        self.regexes.extend(nn.regexes);
        self.calls.extend(nn.calls);
        self.local_names.extend(nn.local_names);
        self.locals.extend(nn.locals);
        if nn.loops > 0 {
            self.unsupported.insert("loop in an argument".into());
        }
        let (a, b) = self.src.range(e.span());
        apply(&self.src.text, a, b, &nn.edits)
    }
    fn rep(&mut self, r: (usize, usize), t: impl Into<String>) {
        let seq = self.edits.len();
        self.edits.push(Edit { a: r.0, b: r.1, t: t.into(), seq });
    }
    fn ins(&mut self, at: usize, t: impl Into<String>) {
        self.rep((at, at), t)
    }
    fn rule(&mut self, r: &str) {
        self.rules.insert(r.to_string());
    }
    fn pat_ref(&mut self, p: &syn::PatReference) {
        // R3: `&Path` patterns without bindings: default binding modes make the `&` redundant
        fn const_pat(p: &syn::Pat) -> bool {
            match p {
                syn::Pat::Path(_) => true,
                syn::Pat::TupleStruct(t) => t.elems.iter().all(|e| matches!(e, syn::Pat::Wild(_))),
                syn::Pat::Or(o) => o.cases.iter().all(const_pat),
                _ => false,
            }
        }
        if const_pat(&p.pat) {
            let (a, _) = self.src.range(p.span());
            self.rep((a, a + 1), "");
            self.rule("R3 '&' of a reference pattern without bindings dropped");
        } else {
            self.unsupported.insert("reference pattern with bindings".into());
        }
    }
    /// R21: in a loop body, `if C { A; continue; } REST` becomes `if C { A; } else { REST }`
    fn for_continue(&mut self, body: &syn::Block) {
        for st in &body.stmts {
            let e = match st {
                syn::Stmt::Expr(syn::Expr::If(e), _) => e,
                _ => continue,
            };
            if e.else_branch.is_some() {
                continue;
            }
            if let Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) = e.then_branch.stmts.last() {
                if c.label.is_some() {
                    continue;
                }
                let cs = self.src.range(e.then_branch.stmts.last().unwrap().span());
                self.rep(cs, "");
                let (_, end) = self.src.range(st.span());
                self.ins(end, " else {");
                let (_, be) = self.src.range(body.span());
                self.ins(be - 1, " }");
                self.rule("R21 in a loop body, `if C { A; continue; } REST` -> `if C { A; } else { REST }`");
            }
        }
    }
    fn loop_marks(&mut self, whole: Span, body: &syn::Block) -> usize {
        let k = self.loops;
        self.loops += 1;
        let (ba, bb) = self.src.range(body.span());
        let (wa, wb) = self.src.range(whole);
        self.ins(wa, format!("/*@LB{}@*/", k));
        self.ins(ba, format!(" /*@LOOP{}@*/ ", k));
        self.ins(ba + 1, format!(" /*@LS{}@*/ ", k));
        self.ins(bb - 1, format!(" /*@LE{}@*/ ", k));
        let _ = wb;
        k
    }
    fn arg_kind(&self, e: &syn::Expr) -> &'static str {
        if char_list(e).is_some() {
            return "f";
        }
        match e {
            syn::Expr::Paren(p) => self.arg_kind(&p.expr),
            syn::Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.var_kinds.get(&i.to_string()) == Some(&'c')) => "f",
            syn::Expr::Reference(r) if matches!(&*r.expr, syn::Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.var_kinds.get(&i.to_string()) == Some(&'c'))) => "f",
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Char(_) => "c",
                _ => "s",
            },
            syn::Expr::Closure(_) => "f",
            _ => "s",
        }
    }
}

/// a list of characters used as a text pattern
fn char_list(e: &syn::Expr) -> Option<Vec<String>> {
    match e {
        syn::Expr::Array(a) => a
            .elems
            .iter()
            .map(|x| match x {
                syn::Expr::Lit(l) => match &l.lit {
                    syn::Lit::Char(c) => Some(format!("{:?}", c.value())),
                    _ => None,
                },
                _ => None,
            })
            .collect(),
        syn::Expr::Reference(r) => char_list(&r.expr),
        syn::Expr::Paren(p) => char_list(&p.expr),
        syn::Expr::Group(p) => char_list(&p.expr),
        syn::Expr::Index(i) if matches!(&*i.index, syn::Expr::Range(r) if r.start.is_none() && r.end.is_none()) => char_list(&i.expr),
        _ => None,
    }
}
/// a predicate on one character that can stand in a specification as it is written
const CHAR_CLASSES: [&str; 10] = ["is_ascii_digit", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_uppercase", "is_ascii_lowercase", "is_ascii_punctuation", "is_ascii", "is_alphabetic", "is_numeric", "is_alphanumeric"];
fn char_pred(e: &syn::Expr, p: &str) -> bool {
    match e {
        syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::And(_) | syn::BinOp::Or(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_)) && char_pred(&b.left, p) && char_pred(&b.right, p),
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(x) if x.path.is_ident("vx_is_ws")) && c.args.len() == 1 && char_pred(&c.args[0], p),
        syn::Expr::MethodCall(m) => {
            matches!(&*m.receiver, syn::Expr::Path(x) if x.path.is_ident(p))
                && match m.args.len() { 0 => CHAR_CLASSES.contains(&&m.method.to_string()[..]), 1 => m.method == "is_digit" && matches!(&m.args[0], syn::Expr::Lit(l) if matches!(&l.lit, syn::Lit::Int(i) if i.base10_digits() == "10")), _ => false }
        }
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && char_pred(&u.expr, p),
        syn::Expr::Paren(x) => char_pred(&x.expr, p),
        syn::Expr::Lit(l) => matches!(&l.lit, syn::Lit::Char(_) | syn::Lit::Bool(_)),
        syn::Expr::Path(x) => x.path.is_ident(p),
        syn::Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => matches!(&b.block.stmts[0], syn::Stmt::Expr(x, None) if char_pred(x, p)),
        syn::Expr::Match(m) => {
            matches!(&*m.expr, syn::Expr::Path(x) if x.path.is_ident(p))
                && m.arms.iter().all(|a| a.guard.is_none() && char_pat(&a.pat) && char_pred(&a.body, p))
        }
        syn::Expr::If(i) => {
            !matches!(&*i.cond, syn::Expr::Let(_))
                && char_pred(&i.cond, p)
                && matches!(&i.then_branch.stmts[..], [syn::Stmt::Expr(x, None)] if char_pred(x, p))
                && i.else_branch.as_ref().map_or(false, |(_, x)| char_pred(x, p))
        }
        syn::Expr::Macro(m) if m.mac.path.is_ident("matches") => {
            let t: String = m.mac.tokens.to_string();
            t.starts_with(&format!("{} ,", p)) && syn::parse_str::<Chars>(&t[p.len() + 2..]).is_ok()
        }
        _ => false,
    }
}
fn char_pat(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Lit(l) => matches!(&l.lit, syn::Lit::Char(_)),
        syn::Pat::Range(r) => {
            let lit = |e: &Option<Box<syn::Expr>>| e.as_ref().map_or(true, |x| matches!(&**x, syn::Expr::Lit(l) if matches!(&l.lit, syn::Lit::Char(_))));
            lit(&r.start) && lit(&r.end) && matches!(r.limits, syn::RangeLimits::Closed(_))
        }
        syn::Pat::Or(o) => o.cases.iter().all(char_pat),
        syn::Pat::Paren(x) => char_pat(&x.pat),
        syn::Pat::Wild(_) => true,
        _ => false,
    }
}
/// 'a' | 'b' ..
struct Chars;
impl syn::parse::Parse for Chars {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        loop {
            let _: syn::LitChar = input.parse()?;
            if input.peek(syn::Token![..=]) {
                let _: syn::Token![..=] = input.parse()?;
                let _: syn::LitChar = input.parse()?;
            }
            if input.is_empty() {
                return Ok(Chars);
            }
            if input.peek(syn::Token![,]) {
                let _: syn::Token![,] = input.parse()?;
                return Ok(Chars);
            }
            let _: syn::Token![|] = input.parse()?;
        }
    }
}
/// literals, variables, constructors of those
fn plain_value(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) | syn::Expr::Path(_) => true,
        syn::Expr::Paren(p) => plain_value(&p.expr),
        syn::Expr::Reference(r) => plain_value(&r.expr),
        syn::Expr::Field(f) => plain_value(&f.base),
        syn::Expr::Struct(s) => s.fields.iter().all(|f| plain_value(&f.expr)),
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with(char::is_uppercase))) && c.args.iter().all(plain_value),
        _ => false,
    }
}
/// leaves the expression before its end
struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
}

/// text of a pattern variable name if simple
fn pat_name(p: &syn::Pat) -> Option<String> {
    match p {
        syn::Pat::Ident(i) => Some(i.ident.to_string()),
        syn::Pat::Type(t) => pat_name(&t.pat),
        _ => None,
    }
}

impl<'s> Norm<'s> {
    /// 'O' if the expression is surely an Option, 'R' if surely a Result
    fn kind(&self, e: &syn::Expr) -> Option<char> {
        match e {
            syn::Expr::Paren(p) => self.kind(&p.expr),
            syn::Expr::Block(b) => self.kind_block(&b.block),
            syn::Expr::If(i) => self.kind_block(&i.then_branch).or_else(|| i.else_branch.as_ref().and_then(|(_, x)| self.kind(x))),
            syn::Expr::Match(m) => m.arms.iter().find_map(|a| self.kind(&a.body)),
            syn::Expr::Path(p) if p.path.is_ident("None") => Some('O'),
            syn::Expr::Path(p) => p.path.get_ident().and_then(|i| self.var_kinds.get(&i.to_string()).copied()).filter(|k| matches!(k, 'O' | 'R')),
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let name = p.path.segments.last()?.ident.to_string();
                    let whole = self.src.get(p.span()).replace(' ', "");
                    return match &name[..] {
                        "Some" => Some('O'),
                        "Ok" | "Err" => Some('R'),
                        "try_from" | "from_str" => Some('R'),
                        _ if whole == "Regex::new" || whole.ends_with("::read_to_string") => Some('R'),
                        _ => match self.var_kinds.get(&whole) {
                            Some('f') => Some('R'),
                            Some('g') => Some('O'),
                            _ => KINDS.get()?.get(&name).copied().filter(|k| *k != '-'),
                        },
                    };
                }
                None
            }
            syn::Expr::MethodCall(m) => match &m.method.to_string()[..] {
                "get" | "get_mut" | "first" | "last" | "pop" | "next" | "next_back" | "captures" | "ok" | "strip_prefix" | "strip_suffix" | "split_first" | "split_last" | "split_once" | "peek" | "as_deref" | "find" | "rfind" | "position" | "partial_cmp" | "nth" | "err" | "checked_add" | "checked_sub" | "checked_mul" => Some('O'),
                "parse" | "map_err" | "ok_or" | "ok_or_else" | "try_into" => Some('R'),
                "map" | "and_then" | "cloned" | "copied" | "or_else" | "or" | "as_ref" | "as_mut" | "filter" => self.kind(&m.receiver),
                n => KINDS.get()?.get(n).copied().filter(|k| *k != '-'),
            },
            _ => None,
        }
    }
    fn kind_block(&self, b: &syn::Block) -> Option<char> {
        match b.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => self.kind(e),
            _ => None,
        }
    }
    /// the value of a function argument applied to the variable bound by the pattern: (pattern, expression)
    fn applied(&mut self, f: &syn::Expr, n: usize) -> Option<(String, String)> {
        match f {
            syn::Expr::Closure(c) => {
                if c.inputs.len() != n {
                    return None;
                }
                let mut l = Leaves(false);
                l.visit_expr(&c.body);
                if l.0 {
                    return None;
                }
                let p = match c.inputs.first() {
                    Some(syn::Pat::Type(t)) => self.src.get(t.pat.span()).to_string(),
                    Some(p) => self.src.get(p.span()).to_string(),
                    None => String::new(),
                };
                for i in &c.inputs {
                    if let Some(x) = pat_name(i) {
                        self.local_names.insert(x);
                    }
                }
                let b = self.sub(&c.body);
                Some((p, b))
            }
            syn::Expr::Path(p) => {
                let whole = self.src.get(p.span()).replace(' ', "");
                self.calls.insert(whole.clone());
                let t = match &whole[..] {
                    "String::from" | "str::to_string" | "ToString::to_string" => "VxToString::vx_to_string".to_string(),
                    "str::trim" => "VxStr::vx_trim".to_string(),
                    "str::len" | "String::len" => "VxLen::vx_len".to_string(),
                    _ => whole,
                };
                Some(if n == 1 { ("vx_p".to_string(), format!("{}(vx_p)", t)) } else { (String::new(), format!("{}()", t)) })
            }
            _ => None,
        }
    }
    /// R22: Ordering::then_with, bool::then -> the match or if they stand for
    fn then(&mut self, m: &syn::ExprMethodCall) -> bool {
        let name = m.method.to_string();
        let closure = matches!(&m.args[0], syn::Expr::Closure(_));
        let (xa, xe) = self.src.range(m.receiver.span());
        let (_, we) = self.src.range(m.span());
        match (&name[..], closure) {
            ("then_with", _) => {
                let d = match self.applied(&m.args[0], 0) {
                    Some((_, d)) => d,
                    None => return false,
                };
                self.ins(xa, "(match ");
                self.rep((xe, we), format!(" {{ Ordering::Equal => {{ {} }}, vx_x => vx_x }})", d));
            }
            ("then", true) => {
                let d = match self.applied(&m.args[0], 0) {
                    Some((_, d)) => d,
                    None => return false,
                };
                self.ins(xa, "(if ");
                self.rep((xe, we), format!(" {{ Some({}) }} else {{ None }})", d));
            }
            ("then_some", _) if plain_value(&m.args[0]) => {
                let d = self.sub(&m.args[0]);
                self.ins(xa, "(if ");
                self.rep((xe, we), format!(" {{ Some({}) }} else {{ None }})", d));
            }
            ("then", false) => {
                // Ordering::then: both sides are computed
                let d = self.sub(&m.args[0]);
                self.ins(xa, "{ let vx_m = ");
                self.rep((xe, we), format!("; let vx_d = {}; match vx_m {{ Ordering::Equal => vx_d, vx_x => vx_x }} }}", d));
            }
            _ => return false,
        }
        self.rule("R22 a combinator of Option or Result (map, and_then, map_or, unwrap_or, ok_or, map_err, ..) -> the match it stands for");
        self.visit_expr(&m.receiver);
        true
    }
    /// R22, R34: a combinator of Option or Result -> the match it stands for
    fn combinator(&mut self, m: &syn::ExprMethodCall) -> bool {
        let name = m.method.to_string();
        let kind = match &name[..] {
            "ok_or" | "ok_or_else" | "is_some_and" => Some('O'),
            "map_err" | "is_ok_and" | "ok" => Some('R'),
            _ => self.kind(&m.receiver),
        };
        // a map_or whose receiver is not known was always an Option here
        let kind = match (kind, &name[..]) {
            (None, "map_or") => 'O',
            (None, _) => return false,
            (Some(k), _) => k,
        };
        let (yes, no) = if kind == 'O' { ("Some", "None") } else { ("Ok", "Err(_)") };
        let keep = if kind == 'O' { ("None", "None") } else { ("Err(vx_e)", "Err(vx_e)") };
        let a: Vec<&syn::Expr> = m.args.iter().collect();
        // an argument that is a value is computed in any case
        let eager = match &name[..] {
            "map_or" | "unwrap_or" | "ok_or" => a.first().map_or(false, |d| !plain_value(d)),
            _ => false,
        };
        let arms = match (&name[..], a.len()) {
            ("map", 1) => self.applied(a[0], 1).map(|(p, e)| format!("{yes}({p}) => {yes}({e}), {} => {}", keep.0, keep.1)),
            ("and_then", 1) => self.applied(a[0], 1).map(|(p, e)| format!("{yes}({p}) => {{ {e} }}, {} => {}", keep.0, keep.1)),
            ("map_or", 2) => {
                let d = if eager { "vx_d".to_string() } else { self.sub(a[0]) };
                self.applied(a[1], 1).map(|(p, e)| format!("{yes}({p}) => {{ {e} }}, {no} => {{ {d} }}"))
            }
            ("map_or_else", 2) => {
                let d = self.applied(a[0], if kind == 'O' { 0 } else { 1 });
                let x = self.applied(a[1], 1);
                match (d, x) {
                    (Some((dp, d)), Some((p, e))) => Some(if kind == 'O' { format!("Some({p}) => {{ {e} }}, None => {{ {d} }}") } else { format!("Ok({p}) => {{ {e} }}, Err({dp}) => {{ {d} }}") }),
                    _ => None,
                }
            }
            ("unwrap_or", 1) => {
                let d = if eager { "vx_d".to_string() } else { self.sub(a[0]) };
                Some(format!("{yes}(vx_x) => vx_x, {no} => {{ {d} }}"))
            }
            ("unwrap_or_else", 1) => self.applied(a[0], if kind == 'O' { 0 } else { 1 }).map(|(p, d)| if kind == 'O' { format!("Some(vx_x) => vx_x, None => {{ {d} }}") } else { format!("Ok(vx_x) => vx_x, Err({p}) => {{ {d} }}") }),
            ("or_else", 1) => self.applied(a[0], if kind == 'O' { 0 } else { 1 }).map(|(p, d)| if kind == 'O' { format!("Some(vx_x) => Some(vx_x), None => {{ {d} }}") } else { format!("Ok(vx_x) => Ok(vx_x), Err({p}) => {{ {d} }}") }),
            ("ok_or", 1) => {
                let d = if eager { "vx_d".to_string() } else { self.sub(a[0]) };
                Some(format!("Some(vx_x) => Ok(vx_x), None => Err({d})"))
            }
            ("ok_or_else", 1) => self.applied(a[0], 0).map(|(_, d)| format!("Some(vx_x) => Ok(vx_x), None => Err({d})")),
            ("is_some_and" | "is_ok_and", 1) => self.applied(a[0], 1).map(|(p, e)| format!("{yes}({p}) => {{ {e} }}, {no} => false")),
            ("map_err", 1) => self.applied(a[0], 1).map(|(p, e)| format!("Ok(vx_ok) => Ok(vx_ok), Err({p}) => Err({e})")),
            ("filter", 1) if kind == 'O' => self.applied(a[0], 1).map(|(p, e)| format!("Some(vx_x) => {{ let vx_k = {{ let {p} = &vx_x; {e} }}; if vx_k {{ Some(vx_x) }} else {{ None }} }}, None => None")),
            ("or", 1) if kind == 'O' && plain_value(a[0]) => {
                let d = self.sub(a[0]);
                Some(format!("Some(vx_x) => Some(vx_x), None => {{ {d} }}"))
            }
            ("ok", 0) => Some("Ok(vx_x) => Some(vx_x), Err(_) => None".to_string()),
            _ => None,
        };
        let arms = match arms {
            Some(a) => a,
            None => return false,
        };
        let (xa, xe) = self.src.range(m.receiver.span());
        let (_, we) = self.src.range(m.span());
        if eager {
            let d = self.sub(a[0]);
            self.ins(xa, "{ let vx_m = ");
            self.rep((xe, we), format!("; let vx_d = {}; match vx_m {{ {} }} }}", d, arms));
        } else {
            self.ins(xa, "(match ");
            self.rep((xe, we), format!(" {{ {} }})", arms));
        }
        self.rule("R22 a combinator of Option or Result (map, and_then, map_or, unwrap_or, ok_or, map_err, ..) -> the match it stands for");
        self.visit_expr(&m.receiver);
        true
    }
}

impl<'s> Norm<'s> {
    /// R39: match on a list by slice patterns -> the chain of length tests it stands for
    fn slice_match(&mut self, m: &syn::ExprMatch) -> bool {
        // x.as_slice(), x[..], &x[..]
        fn base(e: &syn::Expr) -> Option<(&syn::Expr, bool)> {
            match e {
                syn::Expr::MethodCall(c) if c.method == "as_slice" && c.args.is_empty() => Some((&c.receiver, true)),
                syn::Expr::Reference(r) => base(&r.expr).map(|(b, _)| (b, true)),
                syn::Expr::Paren(p) => base(&p.expr),
                syn::Expr::Index(i) if matches!(&*i.index, syn::Expr::Range(r) if r.start.is_none() && r.end.is_none()) => Some((&i.expr, false)),
                _ => None,
            }
        }
        if !m.arms.iter().any(|a| matches!(a.pat, syn::Pat::Slice(_))) {
            return false;
        }
        let (b, by_ref) = match base(&m.expr) {
            Some((b, r)) if matches!(b, syn::Expr::Path(_)) => (self.src.get(b.span()).to_string(), r),
            _ => return false,
        };
        let mut out = String::new();
        let n = m.arms.len();
        for (k, a) in m.arms.iter().enumerate() {
            if a.guard.is_some() {
                return false;
            }
            let body = self.sub(&a.body);
            match &a.pat {
                syn::Pat::Wild(_) if k + 1 == n => {
                    out += &format!("{{ {} }}", body);
                }
                syn::Pat::Slice(s) if k + 1 < n => {
                    let mut lets = String::new();
                    for (i, e) in s.elems.iter().enumerate() {
                        match e {
                            syn::Pat::Wild(_) => {}
                            syn::Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() && p.mutability.is_none() => {
                                self.local_names.insert(p.ident.to_string());
                                lets += &format!("let {} = {}{}[{}]; ", p.ident, if by_ref { "&" } else { "" }, b, i);
                            }
                            _ => return false,
                        }
                    }
                    out += &format!("if {}.vx_len() == {} {{ {}{} }} else ", b, s.elems.len(), lets, body);
                }
                _ => return false,
            }
        }
        self.rep(self.src.range(m.span()), format!("({})", out));
        self.rule("R39 match on a list by slice patterns -> the chain of length tests it stands for");
        true
    }
}

impl<'s, 'ast> Visit<'ast> for Norm<'s> {
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        if !self.slice_match(m) {
            visit::visit_expr_match(self, m);
        }
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let r = self.src.range(a.span());
        self.rep(r, "");
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.local_names.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_pat_reference(&mut self, p: &'ast syn::PatReference) {
        self.pat_ref(p);
        visit::visit_pat_reference(self, p);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let Some(n) = pat_name(&l.pat) {
            let init = l.init.as_ref().map(|i| self.src.get(i.expr.span()).to_string()).unwrap_or_default();
            self.locals.push(json!({"name": n, "init": init}));
            let k = match l.init.as_ref().map(|i| &*i.expr) {
                Some(syn::Expr::Closure(_)) => Some('c'),
                Some(e) => self.kind(e),
                None => None,
            };
            match k {
                Some(k) => self.var_kinds.insert(n, k),
                None => self.var_kinds.remove(&n),
            };
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        let n = pat_name(&e.pat).unwrap_or_default();
        self.for_continue(&e.body);
        let k = self.loop_marks(e.span(), &e.body);
        self.locals.push(json!({"name": n, "loop": k, "over": self.src.get(e.expr.span())}));
        // name the ghost iterator so that invariants can mention it
        let (a, _) = self.src.range(e.expr.span());
        self.ins(a, format!("vx_it{}: ", k));
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        self.for_continue(&e.body);
        self.loop_marks(e.span(), &e.body);
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        self.for_continue(&e.body);
        self.loop_marks(e.span(), &e.body);
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if self.fmt.is_some() && matches!(&self.src.get(p.span()).replace(' ', "")[..], "fmt::Error" | "std::fmt::Error") {
            self.rep(self.src.range(p.span()), "vx_fmt_error()");
            self.rule("R35 fmt::Formatter, fmt::Result -> contracted stand-in types");
            return;
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let name = self.src.get(p.span()).replace(' ', "");
            if name == "Regex::new" {
                self.rule("R9, R40 Regex::new -> VxRegex::new (contracted stand-in type; the syntax tree of a literal pattern as regex-syntax parses it)");
                let arg = &c.args[0];
                if let syn::Expr::Lit(l) = arg {
                    if let syn::Lit::Str(s) = &l.lit {
                        self.regexes.push(s.value());
                    }
                }
                self.rep(self.src.range(p.span()), "VxRegex::new");
            } else if name == "UniCase::new" {
                self.rule("R10 UniCase::new -> VxUniCase::new (contracted stand-in type)");
                self.rep(self.src.range(p.span()), "VxUniCase::new");
            }
            let std_fn = match &name[..] {
                "std::fs::read_to_string" | "fs::read_to_string" => Some("vx_read_to_string"),
                "serde_json::from_str" => Some("vx_from_json"),
                _ => None,
            };
            if name == "String::from" && c.args.len() == 1 {
                self.rep(self.src.range(p.span()), "VxToString::vx_to_string");
                self.rule("R29 x.to_string(), String::from(x) -> vx_to_string() (contracted shim)");
            }
            let std_fn = std_fn.map(str::to_string).or_else(|| name.strip_prefix("serde_json::from_str::<").map(|t| format!("vx_from_json::<{}", t)));
            if let Some(t) = std_fn {
                self.rep(self.src.range(p.span()), t);
                self.rule("R36 std::fs::read_to_string, serde_json::from_str, serde::de -> contracted stand-ins; AsRef<Path> -> VxAsPath");
            }
            self.calls.insert(name);
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        self.calls.insert(format!(".{}", name));
        let mr = self.src.range(m.method.span());
        let (_, recv_end) = self.src.range(m.receiver.span());
        let (wa, we) = self.src.range(m.span());
        match (&name[..], m.args.len()) {
            ("peekable", 0) => {
                // R4
                self.rep((recv_end, we), "");
                self.rule("R4 .peekable() dropped (no peek in this file: Peekable::next is the inner next)");
            }
            ("peek", 0) | ("next_if", _) | ("next_if_eq", _) | ("peek_mut", _) => {
                self.peek_used = true;
            }
            ("borrow", 0) => {
                if matches!(&*m.receiver, syn::Expr::Index(_) | syn::Expr::Field(_)) {
                    self.ins(wa, "(&");
                    self.rep((recv_end, we), ")");
                } else {
                    self.rep((recv_end, we), "");
                }
                self.rule("R11 x.borrow() -> &x, or x where x is a variable (Borrow<T> for T is the identity)");
            }
            ("contains", 1) | ("starts_with", 1) | ("ends_with", 1) | ("split", 1) | ("replace", 2) | ("trim_end_matches", 1) | ("trim_start_matches", 1) | ("trim_matches", 1) | ("find", 1) | ("rfind", 1) | ("splitn", 2) | ("rsplit", 1) | ("strip_prefix", 1) | ("strip_suffix", 1) | ("split_once", 1) => {
                let set = name == "contains" && matches!(&*m.receiver, syn::Expr::Path(p) if p.path.get_ident().map_or(false, |i| i.to_string().chars().all(|c| c.is_uppercase() || c == '_')));
                if !set {
                    let arg = &m.args[if name == "splitn" { 1 } else { 0 }];
                    let k = self.arg_kind(arg);
                    if let Some(cs) = char_list(arg) {
                        let p = if cs.is_empty() { "false".to_string() } else { cs.iter().map(|c| format!("vx_c == {}", c)).collect::<Vec<_>>().join(" || ") };
                        self.rep(self.src.range(arg.span()), format!("|vx_c: char| -> (vx_b: bool) ensures vx_b == ({p}) {{ {p} }}"));
                        self.rule("R8 a character predicate (or list of characters) as a pattern gets its own body as postcondition");
                        self.rep(mr, format!("vx_{}_{}", name, k));
                        if name == "split" {
                            // the surrounding .collect() has been dropped already
                        }
                        self.rule("R5 str pattern methods renamed to contracted shims by the kind of their pattern argument");
                        self.visit_expr(&m.receiver);
                        for (i, x) in m.args.iter().enumerate() {
                            if i != if name == "splitn" { 1 } else { 0 } {
                                self.visit_expr(x);
                            }
                        }
                        return;
                    }
                    self.rep(mr, format!("vx_{}_{}", name, k));
                    self.rule("R5 str pattern methods renamed to contracted shims by the kind of their pattern argument");
                }
            }
            ("trim", 0) | ("to_lowercase", 0) | ("trim_start", 0) | ("trim_end", 0) | ("to_ascii_lowercase", 0) | ("to_uppercase", 0) | ("to_ascii_uppercase", 0) | ("eq_ignore_ascii_case", 1) => {
                self.rep(mr, format!("vx_{}", name));
                self.rule("R5 str pattern methods renamed to contracted shims by the kind of their pattern argument");
            }
            ("as_ref", 0) => {
                self.rep(mr, "vx_as_str");
                self.rule("R19 x.as_ref() on texts -> vx_as_str() (AsRef<str> is the identity on texts)");
            }
            ("into", 0) => {
                self.rep(mr, "vx_into");
                self.rule("R20 x.into() -> vx_into() (one contracted conversion per pair of types, calling the extracted From::from)");
            }
            ("get", 1) if matches!(&m.args[0], syn::Expr::Range(r) if r.start.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_))) => {
                if let syn::Expr::Range(r) = &m.args[0] {
                    let s = r.start.as_ref().unwrap();
                    let (a, e) = self.src.range(r.span());
                    let (sa, se) = self.src.range(s.span());
                    self.rep(mr, if r.end.is_some() { "vx_get_range" } else { "vx_get_from" });
                    self.visit_expr(&m.receiver);
                    self.visit_expr(s);
                    match &r.end {
                        Some(x) => { let (xa, _) = self.src.range(x.span()); self.rep((se, xa), ", "); self.visit_expr(x); }
                        None => self.rep((se, e), ""),
                    }
                    let _ = (a, sa);
                    self.rule("R5 str pattern methods renamed to contracted shims by the kind of their pattern argument");
                    return;
                }
            }
            ("extend", 1) => {
                self.rep(mr, "vx_extend");
                if let syn::Expr::MethodCall(x) = &m.args[0] {
                    if x.method == "into_iter" && x.args.is_empty() {
                        let (_, e) = self.src.range(x.receiver.span());
                        let (_, f) = self.src.range(x.span());
                        self.rep((e, f), "");
                        self.visit_expr(&m.receiver);
                        self.visit_expr(&x.receiver);
                        self.rule("R30 x.extend(y) -> vx_extend (appending the list y)");
                        return;
                    }
                }
                self.rule("R30 x.extend(y) -> vx_extend (appending the list y)");
            }
            ("parse", 0) => {
                self.rep(mr, "vx_parse");
                self.rule("R6 str::parse -> vx_parse (trait shim with one contract per target type)");
            }
            ("collect", 0) => {
                // <split>.collect() : split shims already return the vector
                if let syn::Expr::MethodCall(inner) = &*m.receiver {
                    let iname = inner.method.to_string();
                    if iname == "split" || iname == "rsplit" || iname == "splitn" {
                        self.rep((recv_end, we), "");
                        self.rule("R5 .split(p).collect() is one shim call returning the vector of pieces");
                    } else if iname == "cloned" {
                        // [..].iter().cloned().collect() into a set of texts
                        if let syn::Expr::MethodCall(it) = &*inner.receiver {
                            if it.method == "iter" && matches!(&*it.receiver, syn::Expr::Array(_)) {
                                let (ra, re) = self.src.range(it.receiver.span());
                                self.ins(ra, "vx_str_set(&");
                                self.rep((re, we), ")");
                                self.rule("R12 a set built from an array of literals -> vx_str_set(&[..])");
                            }
                        }
                    } else if iname == "chain" && inner.args.len() == 1 {
                        // R30: X.into_iter().chain(Y.into_iter()).collect() -> vx_concat(X, Y)
                        let strip = |e: &'ast syn::Expr| -> Option<&'ast syn::Expr> {
                            match e {
                                syn::Expr::MethodCall(i) if i.method == "into_iter" => Some(&*i.receiver),
                                _ => None,
                            }
                        };
                        if let Some(x) = strip(&inner.receiver) {
                            let y = strip(&inner.args[0]).unwrap_or(&inner.args[0]);
                            let (xa, xe) = self.src.range(x.span());
                            let (ya, ye) = self.src.range(y.span());
                            self.ins(xa, "vx_concat(");
                            self.rep((xe, ya), ", ");
                            self.rep((ye, we), ")");
                            self.rule("R30 x.into_iter().chain(y.into_iter()).collect() -> vx_concat(x, y)");
                            self.visit_expr(x);
                            self.visit_expr(y);
                            return;
                        }
                    } else if iname == "map" {
                        if let syn::Expr::MethodCall(it) = &*inner.receiver {
                            if let (syn::Expr::Closure(c), true) = (&inner.args[0], c_is_one(&inner.args)) {
                                let (ca, cb) = self.src.range(c.body.span());
                                let pname = c.inputs.first().and_then(pat_name);
                                if let Some(pn) = pname {
                                    // R13: X.map(|p| BODY).collect() -> loop pushing BODY
                                    let (xa, xe) = self.src.range(it.span());
                                    let is_res = m.turbofish.as_ref().map_or(false, |t| self.src.get(t.span()).contains("Result"));
                                    let k = self.loops;
                                    self.loops += 1;
                                    self.ins(xa, format!("{{ let mut vx_v = Vec::new(); /*@LB{k}@*/for {pn} in vx_it{k}: "));
                                    if it.method == "find_iter" {
                                        // handled by the find_iter shim (a vector of matches)
                                    }
                                    self.rep((xe, ca), format!(" /*@LOOP{k}@*/ {{ /*@LS{k}@*/ vx_v.push("));
                                    let _ = wa;
                                    // for Result targets the `?` of the surrounding expression leaves the function at the first error
                                    self.rep((cb, we), if is_res { format!("?); /*@LE{k}@*/ }} Ok::<_, VersionParsingError>(vx_v) }}") } else { format!("); /*@LE{k}@*/ }} vx_v }}") });
                                    self.rule("R13 .map(|x| e).collect() -> a loop pushing e (into Result: leaving at the first error)");
                                    self.local_names.insert(pn);
                                    // visit the receiver and the closure body only
                                    self.visit_expr(&inner.receiver);
                                    self.visit_expr(&c.body);
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            ("to_string", 0) => {
                self.rep(mr, "vx_to_string");
                self.rule("R29 x.to_string(), String::from(x) -> vx_to_string() (contracted shim)");
            }
            ("to_owned", 0) => {
                self.rep(mr, "vx_to_owned");
                self.rule("R31 x.to_owned() -> vx_to_owned() (clone)");
            }
            ("join", 1) => {
                self.rep(mr, "vx_join");
                self.rule("R28 x.join(s) -> vx_join(s) (contracted shim)");
            }
            ("len", 0) => {
                self.rep(mr, "vx_len");
                self.rule("R24 x.len() -> vx_len() (elements of a vector or slice, bytes of a text)");
            }
            ("get", 1) if matches!(&m.args[0], syn::Expr::Range(r) if r.start.is_none() && r.end.is_some() && matches!(r.limits, syn::RangeLimits::HalfOpen(_))) => {
                if let syn::Expr::Range(r) = &m.args[0] {
                    let (ra, _) = self.src.range(m.args[0].span());
                    let (ea, _) = self.src.range(r.end.as_ref().unwrap().span());
                    self.rep(mr, "vx_get_to");
                    self.rep((ra, ea), "");
                    self.rule("R25 text.get(..k) -> vx_get_to(k)");
                }
            }
            ("then_with" | "then" | "then_some", 1) if self.then(m) => return,
            ("map" | "and_then" | "map_or" | "filter" | "or" | "map_or_else" | "unwrap_or" | "unwrap_or_else" | "ok_or" | "ok_or_else" | "or_else" | "is_some_and" | "is_ok_and" | "map_err" | "ok", _) if self.combinator(m) => return,
            ("find_iter", 1) => {
                self.rep(mr, "vx_find_iter");
                self.rule("R14 Regex::find_iter -> vx_find_iter (contracted shim returning the vector of matches)");
            }
            ("all", 1) | ("any", 1) => {
                if let syn::Expr::Closure(c) = &m.args[0] {
                    if let Some(pn) = c.inputs.first().and_then(pat_name) {
                        // R7: X.iter().all(|p| BODY) -> loop
                        let (xa, xe) = self.src.range(m.receiver.span());
                        let (ca, cb) = self.src.range(c.body.span());
                        let k = self.loops;
                        self.loops += 1;
                        let (init, neg) = if name == "all" { ("true", "!") } else { ("false", "") };
                        let stop = if name == "all" { "false" } else { "true" };
                        self.ins(xa, format!("{{ let mut vx_r{k} = {init}; /*@LB{k}@*/for {pn} in vx_it{k}: "));
                        self.rep((xe, ca), format!(" /*@LOOP{k}@*/ {{ /*@LS{k}@*/ if {neg}("));
                        self.rep((cb, we), format!(") {{ vx_r{k} = {stop}; break; }} /*@LE{k}@*/ }} vx_r{k} }}"));
                        self.rule("R7 .iter().all/any(|x| e) -> the loop that stops at the first false/true");
                        self.local_names.insert(pn);
                        self.visit_expr(&m.receiver);
                        self.visit_expr(&c.body);
                        return;
                    }
                }
            }
            _ => {}
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        // R8: a pure closure gets its own body as postcondition; the caller of the shim knows it through that
        let (ba, bb) = self.src.range(c.body.span());
        let ib = self.src.range(c.or2_token.span()).0;
        let body = self.src.text[ba..bb].to_string();
        let pname = if c.inputs.len() == 1 { pat_name(&c.inputs[0]) } else { None };
        let is_char = match c.inputs.first() {
            Some(syn::Pat::Type(t)) => self.src.get(t.ty.span()) == "char",
            Some(syn::Pat::Ident(_)) => true,
            _ => false,
        };
        if is_char && matches!(c.output, syn::ReturnType::Default) && pname.as_ref().map_or(false, |p| char_pred(&c.body, p)) {
            // a character predicate
            if !matches!(c.inputs[0], syn::Pat::Type(_)) {
                self.rep((ib, ib), ": char");
            }
            let or2 = self.src.range(c.or2_token.span()).1;
            self.rep((or2, ba), format!(" -> (vx_b: bool) ensures vx_b == ({}) {{ ", body));
            self.ins(bb, " }");
            self.rule("R8 a character predicate (or list of characters) as a pattern gets its own body as postcondition");
            return;
        }
        self.unsupported.insert("closure".into());
        visit::visit_expr_closure(self, c);
    }
    fn visit_item(&mut self, i: &'ast syn::Item) {
        match i {
            syn::Item::Const(_) | syn::Item::Use(_) => visit::visit_item(self, i),
            _ => {
                self.unsupported.insert("an item inside the function".into());
            }
        }
    }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        if m.mac.path.is_ident("lazy_static") {
            let body = m.mac.tokens.to_string();
            let inner = self.src.get(m.mac.tokens.span());
            let _ = body;
            // static ref NAME: TYPE = EXPR;
            let mut out = String::new();
            let parsed: Result<LazyItems, _> = syn::parse_str(inner);
            match parsed {
                Ok(items) => {
                    for (n, init) in items.0 {
                        // normalise the initialiser in its own right
                        let sub = Src::new(init.clone());
                        if let Ok(e) = syn::parse_str::<syn::Expr>(&init) {
                            let mut nn = Norm::new(&sub, &self.self_ty, self.fmt);
                            nn.visit_expr(&e);
                            let t = apply(&sub.text, 0, sub.text.len(), &nn.edits);
                            self.rules.extend(nn.rules);
                            self.regexes.extend(nn.regexes);
                            self.calls.extend(nn.calls);
                            out.push_str(&format!("let {} = {};", n, t));
                            self.local_names.insert(n.clone());
                            self.locals.push(json!({"name": n, "init": init}));
                        } else {
                            self.unsupported.insert("lazy_static initialiser".into());
                        }
                    }
                    self.rule("R2 lazy_static! statics become local constants (same initialiser)");
                    self.rep(self.src.range(m.span()), out);
                }
                Err(_) => {
                    self.unsupported.insert("lazy_static form".into());
                }
            }
            return;
        }
        self.mac(&m.mac);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        self.mac(&m.mac);
    }
    fn visit_expr_index(&mut self, e: &'ast syn::ExprIndex) {
        // R32: x[a..] of a list, used as a place
        if let syn::Expr::Range(r) = &*e.index {
            if let (Some(l), None) = (&r.start, &r.end) {
                let (_, we) = self.src.range(e.span());
                let (_, xe) = self.src.range(e.expr.span());
                let (la, lb) = self.src.range(l.span());
                self.rep((xe, la), ".vx_tail(");
                self.rep((lb, we), ")");
                self.rule("R32 x[a..] of a list -> vx_tail(a)");
                self.visit_expr(&e.expr);
                self.visit_expr(l);
                return;
            }
        }
        visit::visit_expr_index(self, e);
    }
    fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
        // &s[a..b] on texts
        if let syn::Expr::Index(ix) = &*e.expr {
            if let syn::Expr::Range(r) = &*ix.index {
                let (wa, we) = self.src.range(e.span());
                let (xa, xe) = self.src.range(ix.expr.span());
                let lo = r.start.as_ref().map(|s| self.src.range(s.span()));
                let hi = r.end.as_ref().map(|s| self.src.range(s.span()));
                self.rule("R15 &x[a..b] -> vx_slice(x, a, b)");
                if lo.is_none() && hi.is_none() && e.mutability.is_none() {
                    self.rep((wa, xa), "(");
                    self.rep((xe, we), ").vx_full()");
                    self.visit_expr(&ix.expr);
                    return;
                }
                self.rep((wa, xa), "vx_slice(");
                match (lo, hi) {
                    (Some(l), Some(h)) => {
                        self.rep((xe, l.0), ", ");
                        self.rep((l.1, h.0), ", ");
                        self.rep((h.1, we), ")");
                    }
                    (None, Some(h)) => {
                        self.rep((xe, h.0), ", 0, ");
                        self.rep((h.1, we), ")");
                    }
                    (Some(l), None) => {
                        let x = self.src.text[xa..xe].to_string();
                        self.rep((xe, l.0), ", ");
                        self.rep((l.1, we), format!(", {}.vx_len())", x));
                    }
                    _ => {
                        self.unsupported.insert("full range index".into());
                    }
                }
                self.visit_expr(&ix.expr);
                if let Some(x) = &r.start {
                    self.visit_expr(x);
                }
                if let Some(x) = &r.end {
                    self.visit_expr(x);
                }
                return;
            }
        }
        visit::visit_expr_reference(self, e);
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        let s = self.src.get(t.span()).replace([' ', '\n'], "");
        let r = self.src.range(t.span());
        if s.starts_with("Peekable<") {
            if let syn::Type::Path(p) = t {
                if let syn::PathArguments::AngleBracketed(ab) = &p.path.segments.last().unwrap().arguments {
                    let inner = self.src.get(ab.args.span()).to_string();
                    self.rep(r, inner);
                    self.rule("R4 Peekable<I> -> I");
                    return;
                }
            }
        }
        for (n, ty) in self.assoc.clone() {
            if s == format!("Self::{}", n) {
                self.rep(r, ty);
                return;
            }
        }
        let last = s.rsplit("fmt::").next().unwrap_or("");
        if self.fmt.is_some() && !s.starts_with('&') && (last == "Formatter" || last.starts_with("Formatter<") || (s.contains("fmt::") && last == "Result")) {
            self.rep(r, if last == "Result" { "VxFmtResult" } else { "VxFormatter" });
            self.rule("R35 fmt::Formatter, fmt::Result -> contracted stand-in types");
            return;
        }
        if s == "serde_json::error::Error" || s == "serde_json::Error" {
            self.rep(r, "VxJsonError");
            return;
        }
        if s == "Regex" {
            self.rep(r, "VxRegex");
            return;
        }
        if s.starts_with("&dyn") {
            self.rule("R16 &dyn Fn(..) parameter -> &impl Fn(..) (static instead of dynamic dispatch)");
            let txt = self.src.get(t.span()).replacen("dyn", "impl", 1);
            self.rep(r, txt);
            return;
        }
        visit::visit_type(self, t);
    }
}

fn c_is_one(a: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) -> bool {
    a.len() == 1
}

struct LazyItems(Vec<(String, String)>);
impl syn::parse::Parse for LazyItems {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        while !input.is_empty() {
            let _: syn::Token![static] = input.parse()?;
            let _: syn::Token![ref] = input.parse()?;
            let n: syn::Ident = input.parse()?;
            let _: syn::Token![:] = input.parse()?;
            let _: syn::Type = input.parse()?;
            let _: syn::Token![=] = input.parse()?;
            let e: syn::Expr = input.parse()?;
            let _: syn::Token![;] = input.parse()?;
            let t = e.span().source_text().unwrap_or_else(|| quote::quote!(#e).to_string());
            v.push((n.to_string(), t));
        }
        Ok(LazyItems(v))
    }
}

enum At {
    Index(usize),
    Name(String),
}
enum Step {
    Text(String),
    Arg(At, &'static str, bool),
}
/// what write!(f, "..", args) does, in order; None: a form that is not covered
fn write_steps(args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>) -> Option<Vec<Step>> {
    steps_from(args, 1)
}
/// the same with the text at position `at`
fn steps_from(args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>, at: usize) -> Option<Vec<Step>> {
    let lit = match args.iter().nth(at)? {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => s.value(),
            _ => return None,
        },
        _ => return None,
    };
    if args.iter().skip(at + 1).any(|a| matches!(a, syn::Expr::Assign(_))) {
        return None;
    }
    let cs: Vec<char> = lit.chars().collect();
    let (first, mut out, mut cur, mut i, mut next) = (at + 1, vec![], String::new(), 0, at + 1);
    let mut used = first;
    while i < cs.len() {
        match (cs[i], cs.get(i + 1)) {
            ('{', Some('{')) | ('}', Some('}')) => {
                cur.push(cs[i]);
                i += 2;
            }
            ('{', _) => {
                let j = (i..cs.len()).find(|&k| cs[k] == '}')?;
                let inner: String = cs[i + 1..j].iter().collect();
                let (name, spec) = match inner.split_once(':') {
                    Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
                    None => (inner.trim().to_string(), String::new()),
                };
                let (mode, alt) = match &spec[..] {
                    "" => ("display", false),
                    "#" => ("display", true),
                    "?" => ("debug", false),
                    "#?" => ("debug", true),
                    _ => return None,
                };
                let at = if name.is_empty() {
                    next += 1;
                    At::Index(next - 1)
                } else if let Ok(k) = name.parse::<usize>() {
                    At::Index(k + first)
                } else {
                    At::Name(name)
                };
                if let At::Index(k) = at {
                    if k >= args.len() {
                        return None;
                    }
                    used = used.max(k + 1);
                }
                if !cur.is_empty() {
                    out.push(Step::Text(std::mem::take(&mut cur)));
                }
                out.push(Step::Arg(at, mode, alt));
                i = j + 1;
            }
            (c, _) => {
                cur.push(c);
                i += 1;
            }
        }
    }
    if !cur.is_empty() || out.is_empty() {
        out.push(Step::Text(cur));
    }
    if used < args.len() {
        return None;
    }
    Some(out)
}

impl<'s> Norm<'s> {
    fn mac(&mut self, m: &syn::Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let r = self.src.range(m.span());
        type Args = syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>;
        let args: Option<Args> = m.parse_body_with(Args::parse_terminated).ok();
        match &name[..] {
            "format" => {
                let args = match args {
                    Some(a) => a,
                    None => {
                        self.rep(r, "vx_any_string()");
                        return;
                    }
                };
                let steps = steps_from(&args, 0).filter(|s| s.iter().all(|x| matches!(x, Step::Text(_) | Step::Arg(_, "display", false))));
                match steps {
                    Some(steps) => {
                        self.rule("R17 format! with plain {} -> vx_cat concatenation of its pieces and arguments");
                        let mut t = String::new();
                        for (k, st) in steps.into_iter().enumerate() {
                            let x = match st {
                                Step::Text(x) => format!("vx_str({:?})", x),
                                Step::Arg(At::Index(i), _, _) => {
                                    let a = self.sub(&args[i]);
                                    if k == 0 { t = "vx_str(\"\")".into() }
                                    format!("vx_show(&{})", a)
                                }
                                Step::Arg(At::Name(n), _, _) => {
                                    if k == 0 { t = "vx_str(\"\")".into() }
                                    format!("vx_show(&{})", n)
                                }
                            };
                            t = if t.is_empty() { x } else { format!("vx_cat({}, {})", t, x) };
                        }
                        self.rep(r, t);
                    }
                    _ => {
                        self.rule("R17 format! with other placeholders -> a String of unspecified content");
                        self.rep(r, "vx_any_string()");
                    }
                }
            }
            "write" => match (self.fmt, args.as_ref().and_then(|a| write_steps(a))) {
                (Some(own), Some(steps)) => {
                    let args = args.unwrap();
                    let f = self.sub(&args[0]);
                    let mut t = String::new();
                    let mut close = String::new();
                    let n = steps.len();
                    for (k, st) in steps.into_iter().enumerate() {
                        let call = match st {
                            Step::Text(x) => format!("{}.vx_put({:?})", f, x),
                            Step::Arg(at, mode, alt) => {
                                let a = match at {
                                    At::Index(i) => self.sub(&args[i]),
                                    At::Name(n) => n,
                                };
                                format!("(&{}).vx_{}({}, {}, Ghost(self.vx_rank_{}()))", a, mode, f, alt, own)
                            }
                        };
                        if k + 1 == n {
                            t += &call;
                        } else {
                            t += &format!("(match {} {{ Err(vx_e) => Err(vx_e), Ok(_) => ", call);
                            close += " })";
                        }
                    }
                    self.rule("R35 write!(f, ..) in a Debug or Display -> its pieces and arguments written in order, stopping at the first error; each argument by the contract of its own Debug or Display, with a rank below the one of self");
                    self.rep(r, t + &close);
                }
                _ => {
                    self.unsupported.insert("write!".into());
                }
            },
            "unreachable" | "unimplemented" | "panic" | "todo" => {
                self.rule("R18 unreachable!/unimplemented!/panic! -> vx_abort(), whose precondition is false");
                self.rep(r, "vx_abort()");
            }
            "vec" | "assert" | "debug_assert" | "matches" => {
                if let Some(a) = args {
                    for e in &a {
                        self.visit_expr(e);
                    }
                }
            }
            n => {
                self.unsupported.insert(format!("macro {}!", n));
            }
        }
    }
}

fn ty_key(src: &Src, t: &syn::Type) -> String {
    src.get(t.span()).split_whitespace().collect::<Vec<_>>().join(" ")
}

struct FnCtx<'a> {
    file: &'a str,
    self_ty: String,
    trait_: String,
    impl_generics: String,
    assoc: Vec<(String, String)>,
    provided_by: Option<String>,
}

fn emit_fn(src: &Src, ctx: &FnCtx, attrs_span_start: usize, sig: &syn::Signature, block: Option<&syn::Block>, out: &mut Vec<J>) {
    let fmt = match &ctx.trait_[..] {
        "Debug" => Some("debug"),
        "Display" => Some("display"),
        _ => None,
    };
    let mut n = Norm::new(src, &ctx.self_ty, fmt);
    for i in &sig.inputs {
        if let syn::FnArg::Typed(p) = i {
            if let Some(x) = pat_name(&p.pat) {
                let t = src.get(p.ty.span()).split_whitespace().collect::<String>();
                let k = if t.contains("->Result") { 'f' } else if t.contains("->Option") { 'g' } else if t.starts_with("Option<") { 'O' } else if t.starts_with("Result<") { 'R' } else { continue };
                n.var_kinds.insert(x, k);
            }
        }
    }
    n.assoc = ctx.assoc.clone();
    n.visit_signature(sig);
    if let Some(b) = block {
        n.visit_block(b);
    }
    if n.peek_used {
        n.unsupported.insert("peek on an iterator".into());
    }
    let (sa, sb) = src.range(sig.inputs.span());
    let inputs = if sig.inputs.is_empty() { String::new() } else { apply(&src.text, sa, sb, &n.edits) };
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => {
            let r = src.range(t.span());
            apply(&src.text, r.0, r.1, &n.edits)
        }
    };
    let generics = src.get(sig.generics.span()).to_string();
    let generics = if sig.generics.params.is_empty() { String::new() } else { generics };
    let whr = sig.generics.where_clause.as_ref().map(|w| src.get(w.span()).to_string()).unwrap_or_default();
    let (body, body_range) = match block {
        Some(b) => {
            let r = src.range(b.span());
            // tail expression: bind it, so that proof text can follow the value's computation
            let last = b.stmts.last();
            if let Some(syn::Stmt::Expr(e, None)) = last {
                let (ea, eb) = src.range(e.span());
                let diverges = matches!(e, syn::Expr::Loop(_) | syn::Expr::Return(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_));
                if !diverges {
                    n.rep((ea, ea), "/*@TB@*/");
                    n.ins(eb, "/*@TE@*/");
                }
            }
            (apply(&src.text, r.0, r.1, &n.edits), r)
        }
        None => (String::new(), (0, 0)),
    };
    if block.map_or(false, |b| src.get(b.span()).contains("/*@R43@*/")) {
        n.rule("R43 a private function that goes by another name, known by its types -> the name of its contract");
    }
    if block.map_or(false, |b| src.get(b.span()).contains("/*@R42@*/")) {
        n.rule("R42 chars().any/all/count, split().next/last/nth/count, [..].contains, any/all over a list of literals, bool & |, cmp::max/min, Some(&x) patterns -> the calls they stand for");
    }
    if block.map_or(false, |b| src.get(b.span()).contains("/*@R41@*/")) {
        n.rule("R41 filter, map, filter_map, split in the head of a for loop, and for_each -> the steps they stand for inside the loop");
    }
    if block.map_or(false, |b| src.get(b.span()).contains("/*@R38@*/")) {
        n.rule("R38 a call of a repository function without a contract -> its parameters bound to the arguments, then its own body; a module constant -> its value");
    }
    let name = sig.ident.to_string();
    let key = if ctx.self_ty.is_empty() {
        format!("{}::{}", ctx.file, name)
    } else if ctx.trait_.is_empty() {
        format!("{}::{}::{}", ctx.file, ctx.self_ty, name)
    } else {
        format!("{}::<{} as {}>::{}", ctx.file, ctx.self_ty, ctx.trait_, name)
    };
    let text = &src.text[attrs_span_start.max(0)..body_range.1.max(attrs_span_start)];
    let line = sig.span().start().line;
    out.push(json!({
        "key": key, "name": name, "file": ctx.file, "self_ty": ctx.self_ty, "trait": ctx.trait_, "impl_generics": ctx.impl_generics,
        "generics": generics, "inputs": inputs, "ret": ret, "where": whr, "body": body, "has_body": block.is_some(),
        "loops": n.loops, "rules": n.rules, "unsupported": n.unsupported, "regexes": n.regexes.iter().map(|r| json!([r, re::translate(r), format!("{:?}", r)])).collect::<Vec<J>>(), "locals": n.locals, "names": n.local_names,
        "calls": n.calls, "line": line, "source": text, "provided_by": ctx.provided_by,
    }));
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = quote::quote!(#a).to_string().replace(' ', "");
        t.contains("cfg(test)") || t.contains("cfg(ronda_verif)")
    })
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}
fn attr_texts(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs.iter().filter(|a| !a.path().is_ident("doc")).map(|a| quote::quote!(#a).to_string()).collect()
}

/// R33: a py_class! block: its data items become fields, each `def` a method of the same body
struct PyClass {
    name: syn::Ident,
    py: syn::Ident,
    data: Vec<(syn::Ident, syn::Type)>,
    defs: Vec<(syn::Ident, proc_macro2::TokenStream, syn::Type, syn::Block)>,
}
impl syn::parse::Parse for PyClass {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let kw: syn::Ident = input.call(syn::ext::IdentExt::parse_any)?;
        if kw != "class" {
            return Err(input.error("`class` expected"));
        }
        let name: syn::Ident = input.parse()?;
        let _: syn::Token![|] = input.parse()?;
        let py: syn::Ident = input.parse()?;
        let _: syn::Token![|] = input.parse()?;
        let body;
        syn::braced!(body in input);
        let (mut data, mut defs) = (vec![], vec![]);
        while !body.is_empty() {
            let kw: syn::Ident = body.call(syn::ext::IdentExt::parse_any)?;
            if kw == "data" {
                let n: syn::Ident = body.parse()?;
                let _: syn::Token![:] = body.parse()?;
                let t: syn::Type = body.parse()?;
                let _: syn::Token![;] = body.parse()?;
                data.push((n, t));
            } else if kw == "def" {
                let n: syn::Ident = body.call(syn::ext::IdentExt::parse_any)?;
                let args;
                syn::parenthesized!(args in body);
                let args: proc_macro2::TokenStream = args.parse()?;
                let _: syn::Token![->] = body.parse()?;
                let t: syn::Type = body.parse()?;
                let b: syn::Block = body.parse()?;
                defs.push((n, args, t, b));
            } else {
                return Err(body.error("`data` or `def` expected"));
            }
        }
        Ok(PyClass { name, py, data, defs })
    }
}
impl PyClass {
    fn source(&self, src: &Src) -> String {
        let mut s = format!("pub struct {} {{ {} }}\nimpl {} {{\n", self.name, self.data.iter().map(|(n, t)| format!("pub {}: {}", n, src.get(t.span()))).collect::<Vec<_>>().join(", "), self.name);
        // what py_class! generates for the data
        for (n, t) in &self.data {
            s += &format!("    fn {}(&self, _py: Python) -> &{} {{ &self.{} }}\n", n, src.get(t.span()), n);
        }
        s += &format!("    fn create_instance(_py: Python, {}) -> PyResult<{}> {{ Ok({} {{ {} }}) }}\n", self.data.iter().map(|(n, t)| format!("{}: {}", n, src.get(t.span()))).collect::<Vec<_>>().join(", "), self.name, self.name, self.data.iter().map(|(n, _)| n.to_string()).collect::<Vec<_>>().join(", "));
        for (n, args, t, b) in &self.defs {
            let (mut parts, mut cur) = (vec![], (None, None, 0i32, false));
            // split the arguments at top-level commas, keeping the source text
            let mut toks: Vec<proc_macro2::TokenTree> = args.clone().into_iter().collect();
            toks.push(proc_macro2::TokenTree::Punct(proc_macro2::Punct::new(',', proc_macro2::Spacing::Alone)));
            for tk in toks {
                match &tk {
                    proc_macro2::TokenTree::Punct(p) if p.as_char() == ',' && cur.2 == 0 => {
                        if let (Some(a), Some(b)) = (cur.0, cur.1) {
                            let x = src.text[a..b].to_string();
                            parts.push(if cur.3 || x.trim_start().starts_with('&') && x.contains("self") { x } else { format!("{}: VxPyType", x) });
                        }
                        cur = (None, None, 0, false);
                    }
                    _ => {
                        if let proc_macro2::TokenTree::Punct(p) = &tk {
                            match p.as_char() {
                                '<' => cur.2 += 1,
                                '>' => cur.2 -= 1,
                                ':' => cur.3 = true,
                                _ => {}
                            }
                        }
                        let r = src.range(tk.span());
                        cur.0 = cur.0.or(Some(r.0));
                        cur.1 = Some(r.1);
                    }
                }
            }
            let at = if parts.first().map_or(false, |p| p.contains("self")) { 1 } else { 0 };
            parts.insert(at, format!("{}: Python", self.py));
            s += &format!("    fn {}({}) -> {} {}\n", n, parts.join(", "), src.get(t.span()), src.get(b.span()));
        }
        s + "}\n"
    }
}

#[derive(Default)]
struct Out {
    fns: Vec<J>,
    types: Vec<J>,
    impls: Vec<J>,
    errors: Vec<String>,
}

fn process(stem: &str, text: String, f: &str, out: &mut Out) {
    let src = Src::new(text.clone());
    let file = match syn::parse_file(&text) {
        Ok(f) => f,
        Err(e) => {
            out.errors.push(format!("{}: {}", f, e));
            return;
        }
    };
    for it in &file.items {
        match it {
            syn::Item::Fn(i) if !is_test(&i.attrs) => {
                let ctx = FnCtx { file: stem, self_ty: String::new(), trait_: String::new(), impl_generics: String::new(), assoc: vec![], provided_by: None };
                let a = src.range(i.sig.span()).0;
                emit_fn(&src, &ctx, a, &i.sig, Some(&i.block), &mut out.fns);
            }
            syn::Item::Impl(i) if !is_test(&i.attrs) => {
                let self_ty = ty_key(&src, &i.self_ty);
                let trait_ = i.trait_.as_ref().map(|(_, p, _)| src.get(p.span()).split_whitespace().collect::<Vec<_>>().join(" ")).unwrap_or_default();
                let trait_ = match trait_.rsplit("fmt::").next() {
                    Some(t) if trait_.contains("fmt::") => t.to_string(),
                    _ => trait_,
                };
                let mut assoc = vec![];
                for x in &i.items {
                    if let syn::ImplItem::Type(t) = x {
                        assoc.push((t.ident.to_string(), src.get(t.ty.span()).to_string()));
                    }
                }
                out.impls.push(json!({"file": stem, "self_ty": self_ty, "trait": trait_, "fns": i.items.iter().filter_map(|x| if let syn::ImplItem::Fn(f) = x { Some(f.sig.ident.to_string()) } else { None }).collect::<Vec<_>>()}));
                let g = if i.generics.params.is_empty() { String::new() } else { src.get(i.generics.span()).to_string() };
                for x in &i.items {
                    if let syn::ImplItem::Fn(m) = x {
                        if is_test(&m.attrs) {
                            continue;
                        }
                        let ctx = FnCtx { file: stem, self_ty: self_ty.clone(), trait_: trait_.clone(), impl_generics: g.clone(), assoc: assoc.clone(), provided_by: None };
                        let a = src.range(m.sig.span()).0;
                        emit_fn(&src, &ctx, a, &m.sig, Some(&m.block), &mut out.fns);
                    }
                }
            }
            syn::Item::Trait(t) => {
                let name = t.ident.to_string();
                out.types.push(json!({"kind": "trait", "file": stem, "name": name, "attrs": attr_texts(&t.attrs),
                    "methods": t.items.iter().filter_map(|x| if let syn::TraitItem::Fn(f) = x { Some(json!({"name": f.sig.ident.to_string(), "provided": f.default.is_some()})) } else { None }).collect::<Vec<_>>() }));
                for x in &t.items {
                    if let syn::TraitItem::Fn(m) = x {
                        let ctx = FnCtx { file: stem, self_ty: "Self".into(), trait_: name.clone(), impl_generics: String::new(), assoc: vec![], provided_by: Some(name.clone()) };
                        let a = src.range(m.sig.span()).0;
                        emit_fn(&src, &ctx, a, &m.sig, m.default.as_ref(), &mut out.fns);
                    }
                }
            }
            syn::Item::Struct(s) if !is_test(&s.attrs) => {
                let fields: Vec<J> = s.fields.iter().map(|f| json!({"name": f.ident.as_ref().map(|i| i.to_string()), "ty": ty_key(&src, &f.ty), "attrs": attr_texts(&f.attrs)})).collect();
                out.types.push(json!({"kind": "struct", "file": stem, "name": s.ident.to_string(), "derives": derives(&s.attrs), "attrs": attr_texts(&s.attrs), "fields": fields}));
            }
            syn::Item::Enum(e) if !is_test(&e.attrs) => {
                let vs: Vec<J> = e
                    .variants
                    .iter()
                    .map(|v| json!({"name": v.ident.to_string(), "unit": matches!(v.fields, syn::Fields::Unit), "fields": v.fields.iter().map(|f| ty_key(&src, &f.ty)).collect::<Vec<_>>()}))
                    .collect();
                out.types.push(json!({"kind": "enum", "file": stem, "name": e.ident.to_string(), "derives": derives(&e.attrs), "attrs": attr_texts(&e.attrs), "variants": vs}));
            }
            syn::Item::Const(c) if !is_test(&c.attrs) => {
                out.types.push(json!({"kind": "const", "file": stem, "name": c.ident.to_string(), "ty": ty_key(&src, &c.ty), "value": src.get(c.expr.span())}));
            }
            syn::Item::Macro(m) => {
                let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                out.types.push(json!({"kind": "macro", "file": stem, "name": n, "tokens": src.get(m.mac.tokens.span())}));
            }
            _ => {}
        }
    }
}

fn main() {
    let mut out = Out::default();
    let mut files = vec![];
    let mut contracted = BTreeSet::new();
    let mut args = std::env::args().skip(1);
    while let Some(f) = args.next() {
        if f == "--keys" {
            let t = args.next().and_then(|k| std::fs::read_to_string(k).ok()).unwrap_or_default();
            contracted = t.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
            continue;
        }
        match std::fs::read_to_string(&f) {
            Ok(text) => {
                let stem = std::path::Path::new(&f).file_stem().unwrap().to_string_lossy().to_string();
                files.push(inline::File { stem, path: f, text });
            }
            Err(e) => out.errors.push(format!("{}: {}", f, e)),
        }
    }
    rename::run(&mut files);
    let mut ks = KindScan(Default::default());
    for f in &files {
        if let Ok(x) = syn::parse_file(&f.text) {
            ks.visit_file(&x);
        }
    }
    let _ = KINDS.set(ks.0);
    desugar::shorts(&mut files);
    desugar::run(&mut files);
    inline::run(&mut files, &contracted);
    for f in files {
        process(&f.stem, f.text, &f.path, &mut out);
    }
    println!("{}", json!({"fns": out.fns, "types": out.types, "impls": out.impls, "errors": out.errors}));
}

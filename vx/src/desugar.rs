//! R41: adaptors in the head of a `for` loop, and `for_each`, written out: the same steps in the same order.
use crate::inline::File;
use crate::{Edit, Src};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Leaves(bool, u32);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true }
    fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) { if self.1 == 0 { self.0 = true } visit::visit_expr_break(self, b) }
    fn visit_expr_continue(&mut self, b: &'a syn::ExprContinue) { if self.1 == 0 { self.0 = true } visit::visit_expr_continue(self, b) }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) { self.1 += 1; visit::visit_expr_loop(self, l); self.1 -= 1 }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) { self.1 += 1; visit::visit_expr_while(self, l); self.1 -= 1 }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) { self.1 += 1; visit::visit_expr_for_loop(self, l); self.1 -= 1 }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
fn leaves(e: &syn::Expr) -> bool { let mut l = Leaves(false, 0); l.visit_expr(e); l.0 }

struct W<'s> { src: &'s Src, edits: Vec<Edit>, n: usize }
impl<'s> W<'s> {
    fn put(&mut self, a: usize, b: usize, t: String) { let seq = self.edits.len(); self.edits.push(Edit { a, b, t, seq }) }
    /// parameter and body of a closure of one parameter
    fn closure<'e>(&self, e: &'e syn::Expr) -> Option<(&'e syn::Pat, &'e syn::Expr)> {
        match e {
            syn::Expr::Closure(c) if c.inputs.len() == 1 && c.asyncness.is_none() => {
                let p = match &c.inputs[0] { syn::Pat::Type(t) => &*t.pat, p => p };
                if leaves(&c.body) { None } else { Some((p, &c.body)) }
            }
            _ => None,
        }
    }
    fn text(&self, s: proc_macro2::Span) -> String { self.src.get(s).to_string() }
}
impl<'s, 'a> Visit<'a> for W<'s> {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) { if !crate::is_test(&m.attrs) { visit::visit_item_mod(self, m) } }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        // one step per loop and round
        if let syn::Expr::MethodCall(m) = &*f.expr {
            let name = m.method.to_string();
            let v = format!("vx_f{}", self.n);
            let pat = self.text(f.pat.span());
            if m.args.len() == 1 {
                if let Some((p, body)) = self.closure(&m.args[0]) {
                    let (ptxt, btxt) = (self.text(p.span()), self.text(body.span()));
                    let head = match &name[..] {
                        "filter" => Some(match p {
                            syn::Pat::Reference(r) => format!(" let {} = {}; if !({}) {{ continue; }} let {} = {};", self.text(r.pat.span()), v, btxt, pat, v),
                            _ => format!(" let {} = &{}; if !({}) {{ continue; }} let {} = {};", ptxt, v, btxt, pat, v),
                        }),
                        "map" => Some(format!(" let {} = {{ let {} = {}; {} }};", pat, ptxt, v, btxt)),
                        "filter_map" => Some(format!(" let {} = match {{ let {} = {}; {} }} {{ Some(vx_y) => vx_y, None => continue }};", pat, ptxt, v, btxt)),
                        _ => None,
                    };
                    if let Some(h) = head {
                        self.n += 1;
                        let r = self.src.range(m.span());
                        let recv = self.src.range(m.receiver.span());
                        let p = self.src.range(f.pat.span());
                        self.put(p.0, p.1, v);
                        self.put(recv.1, r.1, String::new());
                        let b = self.src.range(f.body.span()).0 + 1;
                        self.put(b, b, format!("{}/*@R41@*/", h));
                        return;
                    }
                }
                if name == "split" {
                    let e = self.src.range(m.span()).1;
                    self.put(e, e, ".collect::<Vec<&str>>()/*@R41@*/".into());
                    return;
                }
            }
        }
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        if let syn::Stmt::Expr(syn::Expr::MethodCall(m), _) = s {
            if m.method == "for_each" && m.args.len() == 1 {
                if let Some((p, body)) = self.closure(&m.args[0]) {
                    let t = format!("for {} in {} {{/*@R41@*/ {}; }}", self.text(p.span()), self.text(m.receiver.span()), self.text(body.span()));
                    let r = self.src.range(s.span());
                    self.put(r.0, r.1, t);
                    return;
                }
            }
        }
        visit::visit_stmt(self, s);
    }
}
pub fn run(files: &mut Vec<File>) {
    for f in files.iter_mut() {
        for round in 0..6 {
            let src = Src::new(f.text.clone());
            let file = match syn::parse_file(&f.text) { Ok(x) => x, Err(_) => break };
            let mut w = W { src: &src, edits: vec![], n: 100 * round };
            w.visit_file(&file);
            if w.edits.is_empty() { break }
            let t = crate::apply(&src.text, 0, src.text.len(), &w.edits);
            if syn::parse_file(&t).is_err() { break }
            f.text = t;
        }
    }
}

/// R42: short forms written out with the calls the contracts know: the same value in every case.
struct Short<'s> { src: &'s Src, edits: Vec<Edit>, n: usize, strings: std::collections::HashMap<String, bool> }
/// the local names of a function that are surely `String`s (false: also, or only, something else)
struct Strings(std::collections::HashMap<String, bool>);
impl Strings {
    fn note(&mut self, p: &syn::Pat, sure: bool) {
        match p {
            syn::Pat::Ident(i) => { let e = self.0.entry(i.ident.to_string()).or_insert(sure); *e = *e && sure; }
            syn::Pat::Type(t) => { let sure = matches!(&*t.ty, syn::Type::Path(q) if q.path.is_ident("String")); self.note(&t.pat, sure) }
            _ => {}
        }
    }
}
impl<'a> Visit<'a> for Strings {
    fn visit_fn_arg(&mut self, a: &'a syn::FnArg) { if let syn::FnArg::Typed(t) = a { let sure = matches!(&*t.ty, syn::Type::Path(q) if q.path.is_ident("String")); self.note(&t.pat, sure) } }
    fn visit_local(&mut self, l: &'a syn::Local) {
        let sure = l.init.as_ref().map_or(false, |i| string(&i.expr, &self.0));
        if !sure { let mut o = Others(vec![]); o.visit_pat(&l.pat); for n in o.0 { if !matches!(&l.pat, syn::Pat::Type(_)) { self.0.insert(n, false); } } }
        match &l.pat { syn::Pat::Type(_) => self.note(&l.pat, true), p if sure => self.note(p, true), _ => {} }
        visit::visit_local(self, l);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) { let mut o = Others(vec![]); o.visit_pat(&a.pat); for n in o.0 { self.0.insert(n, false); } visit::visit_arm(self, a) }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) { let mut o = Others(vec![]); for p in &c.inputs { o.visit_pat(p) } for n in o.0 { self.0.insert(n, false); } visit::visit_expr_closure(self, c) }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) { let mut o = Others(vec![]); o.visit_pat(&f.pat); for n in o.0 { self.0.insert(n, false); } visit::visit_expr_for_loop(self, f) }
    fn visit_expr_let(&mut self, l: &'a syn::ExprLet) { let mut o = Others(vec![]); o.visit_pat(&l.pat); for n in o.0 { self.0.insert(n, false); } visit::visit_expr_let(self, l) }
}
struct Others(Vec<String>);
impl<'a> Visit<'a> for Others { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
/// an expression that can only be a `String`
fn string(e: &syn::Expr, known: &std::collections::HashMap<String, bool>) -> bool {
    match e {
        syn::Expr::Paren(p) => string(&p.expr, known),
        syn::Expr::Macro(m) => m.mac.path.is_ident("format"),
        syn::Expr::Path(p) => p.path.get_ident().map_or(false, |i| known.get(&i.to_string()) == Some(&true)),
        syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::Add(_)) && string(&b.left, known),
        syn::Expr::Call(c) => match &*c.func {
            syn::Expr::Path(p) => { let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect(); s.len() == 2 && s[0] == "String" && matches!(&s[1][..], "from" | "new" | "with_capacity") }
            _ => false,
        },
        syn::Expr::MethodCall(m) => match &m.method.to_string()[..] {
            "to_string" | "replace" | "replacen" | "to_lowercase" | "to_uppercase" => true,
            "to_owned" => matches!(&*m.receiver, syn::Expr::Lit(_)) || string(&m.receiver, known),
            "clone" => string(&m.receiver, known),
            _ => false,
        },
        _ => false,
    }
}
fn call<'e>(e: &'e syn::Expr, name: &str, args: usize) -> Option<&'e syn::ExprMethodCall> {
    match e { syn::Expr::MethodCall(m) if m.method == name && m.args.len() == args => Some(m), _ => None }
}
/// every pattern that binds by reference in `Some(&x)`; None: another kind of arm
fn some_ref(p: &syn::Pat, out: &mut Vec<proc_macro2::Span>) -> bool {
    match p {
        syn::Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => match &t.elems[0] {
            syn::Pat::Reference(r) => { out.push(r.and_token.span()); true }
            syn::Pat::Wild(_) => true,
            _ => false,
        },
        syn::Pat::Or(o) => o.cases.iter().all(|c| some_ref(c, out)),
        syn::Pat::Paren(x) => some_ref(&x.pat, out),
        syn::Pat::Ident(i) => i.ident == "None" && i.by_ref.is_none() && i.subpat.is_none(),
        syn::Pat::Path(p) => p.path.is_ident("None"),
        syn::Pat::Wild(_) => true,
        _ => false,
    }
}
/// an expression that can only be a truth value
fn truth(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Paren(p) => truth(&p.expr),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && truth(&u.expr),
        syn::Expr::Binary(b) => match b.op {
            syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) | syn::BinOp::And(_) | syn::BinOp::Or(_) => true,
            syn::BinOp::BitAnd(_) | syn::BinOp::BitOr(_) | syn::BinOp::BitXor(_) => truth(&b.left) || truth(&b.right),
            _ => false,
        },
        syn::Expr::Lit(l) => matches!(&l.lit, syn::Lit::Bool(_)),
        syn::Expr::MethodCall(m) => { let n = m.method.to_string(); n.starts_with("is_") || ["contains", "starts_with", "ends_with", "any", "all", "eq_ignore_ascii_case"].contains(&&n[..]) }
        syn::Expr::Macro(m) => m.mac.path.is_ident("matches"),
        _ => false,
    }
}
impl<'s> Short<'s> {
    fn put(&mut self, a: usize, b: usize, t: String) { let seq = self.edits.len(); self.edits.push(Edit { a, b, t, seq }) }
    fn text(&self, s: proc_macro2::Span) -> String { self.src.get(s).to_string() }
    /// a predicate of characters: parameter and body
    fn pred(&self, e: &syn::Expr) -> Option<(String, String)> {
        match e {
            syn::Expr::Closure(c) if c.inputs.len() == 1 && !leaves(&c.body) => {
                let p = match &c.inputs[0] { syn::Pat::Type(t) => &*t.pat, p => p };
                match p { syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some((i.ident.to_string(), self.text(c.body.span()))), _ => None }
            }
            syn::Expr::Path(p) => {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.len() == 2 && s[0] == "char" { Some(("vx_c".into(), format!("vx_c.{}()", s[1]))) } else { None }
            }
            _ => None,
        }
    }
    /// .. of characters given by reference (filter)
    fn pred_ref(&self, e: &syn::Expr) -> Option<(String, String)> {
        let c = match e { syn::Expr::Closure(c) if c.inputs.len() == 1 && !leaves(&c.body) => c, _ => return None };
        let p = match &c.inputs[0] { syn::Pat::Type(t) => &*t.pat, p => p };
        match p {
            syn::Pat::Reference(r) => match &*r.pat { syn::Pat::Ident(i) => Some((i.ident.to_string(), self.text(c.body.span()))), _ => None },
            syn::Pat::Ident(i) => { let b = self.text(c.body.span()); let n = i.ident.to_string(); let d = format!("*{}", n); if b.matches(&d[..]).count() == b.matches(&n[..]).count() { Some((n, b.replace(&d, &i.ident.to_string()))) } else { None } }
            _ => None,
        }
    }
    fn scrutinee(&mut self, e: &syn::Expr, marks: Vec<proc_macro2::Span>) {
        let (a, b) = self.src.range(e.span());
        self.put(a, a, "(".into());
        self.put(b, b, ").copied()/*@R42@*/".into());
        for m in marks { let (x, y) = self.src.range(m); self.put(x, y, String::new()); }
    }
}
impl<'s, 'a> Visit<'a> for Short<'s> {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) { if !crate::is_test(&m.attrs) { visit::visit_item_mod(self, m) } }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        let name = m.method.to_string();
        let (a, b) = self.src.range(m.span());
        // X[a..b].parse() of a text: the borrow that the call makes, written out
        if let syn::Expr::Index(ix) = &*m.receiver {
            if matches!(&*ix.index, syn::Expr::Range(_)) && !["iter", "iter_mut", "into_iter", "to_vec", "first", "last", "get"].contains(&name.as_str()) {
                let (x, y) = self.src.range(m.receiver.span());
                self.put(x, x, "(&".into());
                self.put(y, y, "/*@R42@*/)".into());
            }
        }
        // X.chars().any(f) / .all(f) / .count() / .filter(f).count()
        if let Some(ch) = call(&m.receiver, "chars", 0) {
            let x = self.text(ch.receiver.span());
            if (name == "any" || name == "all") && m.args.len() == 1 {
                if let Some((p, f)) = self.pred(&m.args[0]) {
                    let t = if name == "any" { format!("{}.contains(|{}: char| {})", x, p, f) } else { format!("(!{}.contains(|{}: char| !({})))", x, p, f) };
                    self.put(a, b, t + "/*@R42@*/");
                    return;
                }
            }
            if m.args.is_empty() && (name == "count" || name == "last") { self.put(a, b, format!("{}.vx_char_{}()/*@R42@*/", x, name)); return; }
            if name == "nth" && m.args.len() == 1 { self.put(a, b, format!("{}.vx_char_nth({})/*@R42@*/", x, self.text(m.args[0].span()))); return; }
        }
        if name == "count" && m.args.is_empty() {
            if let Some(fi) = call(&m.receiver, "filter", 1) {
                if let (Some(ch), Some((p, f))) = (call(&fi.receiver, "chars", 0), self.pred_ref(&fi.args[0])) {
                    let x = self.text(ch.receiver.span());
                    self.put(a, b, format!("{}.split(|{}: char| {}).collect::<Vec<&str>>().len().saturating_sub(1)/*@R42@*/", x, p, f));
                    return;
                }
            }
            if let Some(ma) = call(&m.receiver, "matches", 1) {
                let (x, p) = (self.text(ma.receiver.span()), self.text(ma.args[0].span()));
                self.put(a, b, format!("{}.split({}).collect::<Vec<&str>>().len().saturating_sub(1)/*@R42@*/", x, p));
                return;
            }
        }
        // X.split(p).count() / .next() / .last() / .nth(k)
        if let Some(sp) = call(&m.receiver, "split", 1).or(call(&m.receiver, "splitn", 2)) {
            let x = self.text(sp.span());
            let t = match (&name[..], m.args.len()) {
                ("count", 0) => Some(format!("{}.collect::<Vec<&str>>().len()", x)),
                ("next", 0) => Some(format!("{}.collect::<Vec<&str>>().first().copied()", x)),
                ("last", 0) => Some(format!("{}.collect::<Vec<&str>>().last().copied()", x)),
                ("nth", 1) => Some(format!("{}.collect::<Vec<&str>>().get({}).copied()", x, self.text(m.args[0].span()))),
                _ => None,
            };
            if let Some(t) = t { self.put(a, b, t + "/*@R42@*/"); return; }
        }
        if name == "next" && m.args.is_empty() {
            if let Some(sp) = call(&m.receiver, "rsplit", 1) {
                let (x, p) = (self.text(sp.receiver.span()), self.text(sp.args[0].span()));
                self.put(a, b, format!("{}.split({}).collect::<Vec<&str>>().last().copied()/*@R42@*/", x, p));
                return;
            }
        }
        // [x, y].contains(&e), [x, y].iter().any(f) / .all(f): one comparison after the other
        let lits = |e: &syn::Expr| -> Option<Vec<String>> {
            let e = match e { syn::Expr::Paren(p) => &*p.expr, syn::Expr::Reference(r) => &*r.expr, e => e };
            match e {
                syn::Expr::Array(x) if x.elems.len() <= 8 && x.elems.iter().all(|y| matches!(y, syn::Expr::Lit(_))) => Some(x.elems.iter().map(|y| self.text(y.span())).collect()),
                _ => None,
            }
        };
        if name == "contains" && m.args.len() == 1 {
            if let (Some(ls), syn::Expr::Reference(r)) = (lits(&m.receiver), &m.args[0]) {
                let v = format!("vx_k{}", self.n);
                self.n += 1;
                let t = if ls.is_empty() { "false".to_string() } else { ls.iter().map(|l| format!("{} == {}", v, l)).collect::<Vec<_>>().join(" || ") };
                let e = self.text(r.expr.span());
                self.put(a, b, format!("({{ let {} = {};/*@R42@*/ {} }})", v, e, t));
                return;
            }
        }
        if (name == "any" || name == "all") && m.args.len() == 1 {
            if let (Some(ls), syn::Expr::Closure(c)) = (call(&m.receiver, "iter", 0).and_then(|i| lits(&i.receiver)), &m.args[0]) {
                if c.inputs.len() == 1 && !leaves(&c.body) && ls.len() > 0 {
                    let p = match &c.inputs[0] { syn::Pat::Type(t) => &*t.pat, p => p };
                    let (p, amp) = match p { syn::Pat::Reference(r) => (self.text(r.pat.span()), ""), p => (self.text(p.span()), "&") };
                    let body = self.text(c.body.span());
                    let t = ls.iter().map(|l| format!("({{ let {} = {}{}; {} }})", p, amp, l, body)).collect::<Vec<_>>().join(if name == "any" { " || " } else { " && " });
                    self.put(a, b, format!("(/*@R42@*/{})", t));
                    return;
                }
            }
        }
        if name == "is_whitespace" && m.args.is_empty() {
            let x = self.text(m.receiver.span());
            self.put(a, b, format!("vx_is_ws({})/*@R42@*/", x));
            return;
        }
        // p(char::f)
        if ["contains", "starts_with", "ends_with", "split", "trim_matches", "trim_start_matches", "trim_end_matches", "find"].contains(&&name[..]) && m.args.len() == 1 {
            if let syn::Expr::Path(_) = &m.args[0] {
                if let Some((p, f)) = self.pred(&m.args[0]) {
                    let (x, y) = self.src.range(m.args[0].span());
                    self.put(x, y, format!("|{}: char| {}/*@R42@*/", p, f));
                }
            }
        }
        // |&x| in any, all, map, filter, ..: the reference is opened in the body
        if m.args.len() == 1 && ["any", "all", "map", "for_each", "filter_map", "flat_map", "position"].contains(&&name[..]) {
            if let syn::Expr::Closure(c) = &m.args[0] {
                if let (1, Some(syn::Pat::Reference(r)), syn::ReturnType::Default) = (c.inputs.len(), c.inputs.first(), &c.output) {
                    if let syn::Pat::Ident(i) = &*r.pat {
                        let v = format!("vx_p{}", self.n);
                        self.n += 1;
                        let (x, y) = self.src.range(r.span());
                        self.put(x, y, v.clone());
                        let (x, y) = self.src.range(c.body.span());
                        self.put(x, x, format!("{{ let {} = *{};/*@R42@*/ ", i.ident, v));
                        self.put(y, y, " }".into());
                        return;
                    }
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let k = s.len();
            if k >= 2 && s[k - 2] == "cmp" && (s[k - 1] == "max" || s[k - 1] == "min") && c.args.len() == 2 {
                let (a, b) = self.src.range(c.span());
                let t = format!("({}).{}({})/*@R42@*/", self.text(c.args[0].span()), s[k - 1], self.text(c.args[1].span()));
                self.put(a, b, t);
                return;
            }
            if k >= 2 && s[k - 2] == "mem" && s[k - 1] == "take" && c.args.len() == 1 {
                let (a, b) = self.src.range(c.func.span());
                self.put(a, b, "vx_take/*@R42@*/".into());
            }
            if k == 2 && s[1] == "from_str_radix" && c.args.len() == 2 && self.text(c.args[1].span()) == "10" {
                let (a, b) = self.src.range(c.span());
                let t = format!("({}).parse::<{}>()/*@R42@*/", self.text(c.args[0].span()), s[0]);
                self.put(a, b, t);
                return;
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
        let old = std::mem::take(&mut self.strings);
        let mut s = Strings(Default::default()); s.visit_item_fn(f); self.strings = s.0;
        visit::visit_item_fn(self, f);
        self.strings = old;
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        let mut s = Strings(Default::default()); s.visit_impl_item_fn(f); self.strings = s.0;
        visit::visit_impl_item_fn(self, f);
        self.strings.clear();
    }
    fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
        // text + more, text += more
        if matches!(e.op, syn::BinOp::Add(_)) && string(&e.left, &self.strings) {
            let ((a, b), l, r) = (self.src.range(e.span()), self.src.range(e.left.span()), self.src.range(e.right.span()));
            self.put(a, a, "vx_plus(/*@R42@*/".into());
            self.put(l.1, r.0, ", ".into());
            self.put(b, b, ")".into());
            self.visit_expr(&e.left); self.visit_expr(&e.right);
            return;
        }
        if let (syn::BinOp::AddAssign(_), syn::Expr::Path(_), true) = (&e.op, &*e.left, string(&e.left, &self.strings)) {
            let (l, r) = (self.src.range(e.left.span()), self.src.range(e.right.span()));
            self.put(l.1, r.0, ".push_str(/*@R42@*/".into());
            self.put(r.1, r.1, ")".into());
            self.visit_expr(&e.right);
            return;
        }
        // a & b, a | b of truth values: both are worked out
        let op = match e.op { syn::BinOp::BitAnd(_) => "&&", syn::BinOp::BitOr(_) => "||", syn::BinOp::BitXor(_) => "!=", _ => "" };
        if op != "" && (truth(&e.left) || truth(&e.right)) {
            let (a, b) = self.src.range(e.span());
            let (x, y) = (format!("vx_a{}", self.n), format!("vx_b{}", self.n));
            self.n += 1;
            let t = format!("({{ let {} = {};/*@R42@*/ let {} = {}; {} {} {} }})", x, self.text(e.left.span()), y, self.text(e.right.span()), x, op, y);
            self.put(a, b, t);
            return;
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        let mut marks = vec![];
        if m.arms.iter().all(|a| some_ref(&a.pat, &mut marks)) && !marks.is_empty() {
            self.scrutinee(&m.expr, marks);
            for a in &m.arms { self.visit_expr(&a.body); if let Some((_, g)) = &a.guard { self.visit_expr(g) } }
            return;
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_expr_if(&mut self, i: &'a syn::ExprIf) {
        if let syn::Expr::Let(l) = &*i.cond {
            let mut marks = vec![];
            if some_ref(&l.pat, &mut marks) && !marks.is_empty() {
                self.scrutinee(&l.expr, marks);
                self.visit_block(&i.then_branch);
                if let Some((_, e)) = &i.else_branch { self.visit_expr(e) }
                return;
            }
        }
        visit::visit_expr_if(self, i);
    }
    fn visit_expr_while(&mut self, i: &'a syn::ExprWhile) {
        if let syn::Expr::Let(l) = &*i.cond {
            let mut marks = vec![];
            if some_ref(&l.pat, &mut marks) && !marks.is_empty() { self.scrutinee(&l.expr, marks); self.visit_block(&i.body); return; }
        }
        visit::visit_expr_while(self, i);
    }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        // for x in &v[k..]
        if let syn::Expr::Reference(r) = &*f.expr {
            if let (None, syn::Expr::Index(ix)) = (r.mutability, &*r.expr) {
                if matches!(&*ix.index, syn::Expr::Range(_)) {
                    let (a, b) = self.src.range(r.span());
                    let t = self.text(ix.span());
                    self.put(a, b, format!("{}.iter()/*@R42@*/", t));
                    self.visit_block(&f.body);
                    return;
                }
            }
        }
        if let syn::Pat::Reference(r) = &*f.pat {
            if matches!(&*r.pat, syn::Pat::Ident(_)) {
                let v = format!("vx_p{}", self.n);
                self.n += 1;
                let n = self.text(r.pat.span());
                let (a, b) = self.src.range(r.span());
                self.put(a, b, v.clone());
                let a = self.src.range(f.body.span()).0 + 1;
                self.put(a, a, format!(" let {} = *{};/*@R42@*/", n, v));
                return;
            }
        }
        visit::visit_expr_for_loop(self, f);
    }
}
pub fn shorts(files: &mut Vec<File>) {
    for f in files.iter_mut() {
        for round in 0..6 {
            let src = Src::new(f.text.clone());
            let file = match syn::parse_file(&f.text) { Ok(x) => x, Err(_) => break };
            let mut w = Short { src: &src, edits: vec![], n: 100 * round, strings: Default::default() };
            w.visit_file(&file);
            if w.edits.is_empty() { break }
            let t = crate::apply(&src.text, 0, src.text.len(), &w.edits);
            if syn::parse_file(&t).is_err() { break }
            f.text = t;
        }
    }
}

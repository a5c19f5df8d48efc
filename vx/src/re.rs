//! A regular expression, as a Verus expression of the type Re of contracts/regex.rs; None for syntax that type has no room for.
use regex_syntax::ast::*;

fn lit(c: char, i: bool) -> Option<String> {
    Some(if i {
        if !c.is_ascii() { return None }
        if c.is_ascii_alphabetic() { format!("Cls::Fold({:?})", c.to_ascii_lowercase()) } else { format!("Cls::Lit({:?})", c) }
    } else { format!("Cls::Lit({:?})", c) })
}
fn perl(p: &ClassPerl) -> Option<String> {
    let k = match p.kind { ClassPerlKind::Digit => "Cls::Dec", ClassPerlKind::Space => "Cls::Ws", ClassPerlKind::Word => return None };
    Some(neg(k.to_string(), p.negated))
}
fn neg(k: String, n: bool) -> String { if n { format!("Cls::Not(Box::new({}))", k) } else { k } }
fn fold_right(mut xs: Vec<String>, op: &str) -> Option<String> {
    let mut r = xs.pop()?;
    while let Some(x) = xs.pop() { r = format!("{}(Box::new({}), Box::new({}))", op, x, r) }
    Some(r)
}
/// the members of a set, in an order that does not depend on the spelling
fn items(s: &ClassSet, i: bool, out: &mut Vec<((u8, char), String)>) -> Option<()> {
    match s {
        ClassSet::BinaryOp(_) => None,
        ClassSet::Item(it) => item(it, i, out),
    }
}
fn item(it: &ClassSetItem, i: bool, out: &mut Vec<((u8, char), String)>) -> Option<()> {
    match it {
        ClassSetItem::Empty(_) => None,
        ClassSetItem::Literal(l) => { let c = if i { l.c.to_ascii_lowercase() } else { l.c }; out.push(((0, c), lit(l.c, i)?)); Some(()) }
        ClassSetItem::Range(r) => { if i { return None } out.push(((1, r.start.c), format!("Cls::Range({:?}, {:?})", r.start.c, r.end.c))); Some(()) }
        ClassSetItem::Perl(p) => { let t = perl(p)?; out.push(((2, if p.negated { 'b' } else { 'a' }), t)); Some(()) }
        ClassSetItem::Bracketed(b) if !b.negated => items(&b.kind, i, out),
        ClassSetItem::Union(u) => { for x in &u.items { item(x, i, out)? } Some(()) }
        _ => None,
    }
}
fn bracket(b: &ClassBracketed, i: bool) -> Option<String> {
    let mut v = vec![];
    items(&b.kind, i, &mut v)?;
    v.sort(); v.dedup();
    Some(neg(fold_right(v.into_iter().map(|x| x.1).collect(), "Cls::Or")?, b.negated))
}
/// whether every match takes a character or more
fn takes(a: &Ast) -> bool {
    match a {
        Ast::Literal(_) | Ast::Dot(_) | Ast::Class(_) => true,
        Ast::Group(g) => takes(&g.ast),
        Ast::Concat(c) => c.asts.iter().any(takes),
        Ast::Alternation(x) => x.asts.iter().all(takes),
        Ast::Repetition(r) => matches!(r.op.kind, RepetitionKind::OneOrMore) && takes(&r.ast),
        _ => false,
    }
}
/// `i`: letters match in either case, from a (?i) on to the end of the group it is in
fn tr(a: &Ast, i: &mut bool) -> Option<String> {
    Some(match a {
        Ast::Empty(_) => "Re::Empty".into(),
        Ast::Literal(l) => format!("Re::Set({})", lit(l.c, *i)?),
        Ast::Dot(_) => "Re::Set(Cls::Any)".into(),
        Ast::Assertion(x) => match x.kind { AssertionKind::StartLine | AssertionKind::StartText => "Re::Start".into(), AssertionKind::EndLine | AssertionKind::EndText => "Re::End".into(), _ => return None },
        Ast::Class(Class::Perl(p)) => format!("Re::Set({})", perl(p)?),
        Ast::Class(Class::Bracketed(b)) => format!("Re::Set({})", bracket(b, *i)?),
        Ast::Class(_) => return None,
        Ast::Repetition(r) => {
            if !r.greedy || matches!(&*r.ast, Ast::Flags(_)) { return None }
            let x = tr(&r.ast, i)?;
            match &r.op.kind {
                RepetitionKind::ZeroOrOne => format!("Re::Opt(Box::new({}))", x),
                RepetitionKind::ZeroOrMore if takes(&r.ast) => format!("Re::Star(Box::new({}))", x),
                RepetitionKind::OneOrMore if takes(&r.ast) => format!("Re::Cat(Box::new({}), Box::new(Re::Star(Box::new({}))))", x, x),
                RepetitionKind::Range(RepetitionRange::Exactly(n)) if 1 <= *n && *n <= 4 => fold_right(vec![x; *n as usize], "Re::Cat")?,
                _ => return None,
            }
        }
        Ast::Group(g) => {
            let mut j = *i;
            match &g.kind {
                GroupKind::CaptureIndex(n) => format!("Re::Group({}, Box::new({}))", n, tr(&g.ast, &mut j)?),
                GroupKind::NonCapturing(f) if f.items.is_empty() => tr(&g.ast, &mut j)?,
                _ => return None,
            }
        }
        Ast::Alternation(x) => { let mut v = vec![]; for y in &x.asts { v.push(tr(y, i)?) } fold_right(v, "Re::Alt")? }
        Ast::Concat(x) => {
            let mut v = vec![];
            for y in &x.asts {
                if let Ast::Flags(f) = y {
                    if f.flags.items.len() != 1 || !matches!(f.flags.items[0].kind, FlagsItemKind::Flag(Flag::CaseInsensitive)) { return None }
                    *i = true;
                } else { v.push(tr(y, i)?) }
            }
            if v.is_empty() { "Re::Empty".into() } else { fold_right(v, "Re::Cat")? }
        }
        Ast::Flags(_) => return None,
    })
}
pub fn translate(p: &str) -> Option<String> {
    let a = parse::Parser::new().parse(p).ok()?;
    let t = tr(&a, &mut false)?;
    // patterns of finitely many texts, where this version of the regex crate does not keep to the documented preference
    // (`[.1a]?[.1a]` finds "." first in ".1. ")
    if (t.contains("Re::Opt") || t.contains("Re::Empty")) && !t.contains("Re::Star") && !t.contains("Re::Start") && !t.contains("Re::End") { return None }
    Some(t)
}

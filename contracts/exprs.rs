pub mod vx_token_re {
use vstd::prelude::*;
use super::vx_text::*;
use super::vx_pre::*;
use super::vx_re::*; use super::vx_re_ax::*; use super::vx_re_lem::*;
verus! {
/// the characters that end a spec
pub open spec fn is_delim(c: char) -> bool { c == '(' || c == ')' || c == '|' || c == ',' }
pub open spec fn ws_fn() -> spec_fn(char) -> bool { |c: char| !is_ws(c) }
pub open spec fn delim_fn() -> spec_fn(char) -> bool { |c: char| is_delim(c) }
/// the length of the token at the start of a text: white space, then '^' to the next '$', or one of ( ) | , or a run without those
pub open spec fn tok_len(s: Seq<char>) -> int {
    let w = first(s, ws_fn());
    let r = s.skip(w);
    if w >= s.len() { s.len() as int }
    else if r[0] == '^' && first(r, is_char('$')) < r.len() { w + first(r, is_char('$')) + 1 }
    else if is_delim(r[0]) { w + 1 }
    else { w + first(r, delim_fn()) }
}
pub open spec fn toks(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() { if s.len() == 0 || tok_len(s) <= 0 || tok_len(s) > s.len() { Seq::empty() } else { seq![s.take(tok_len(s))] + toks(s.skip(tok_len(s))) } }
// ----- the tokens of an expression
pub open spec fn ws_star() -> Re { Re::Star(Box::new(Re::Set(Cls::Ws))) }
pub open spec fn cls_delim() -> Cls { or(Cls::Lit('('), or(Cls::Lit(')'), or(Cls::Lit(','), Cls::Lit('|')))) }
pub open spec fn tk_a2() -> Re { cat(lit('^'), cat(Re::Star(Box::new(Re::Set(Cls::Not(Box::new(Cls::Lit('$')))))), lit('$'))) }
pub open spec fn tk_c2() -> Re { plus(Re::Set(Cls::Not(Box::new(cls_delim())))) }
pub open spec fn tk_a() -> Re { cat(ws_star(), tk_a2()) }
pub open spec fn tk_b() -> Re { cat(ws_star(), Re::Set(cls_delim())) }
pub open spec fn tk_c() -> Re { cat(ws_star(), tk_c2()) }
pub open spec fn re_toks() -> Re { alt(tk_a(), alt(tk_b(), tk_c())) }
pub proof fn lem_delim(c: char) ensures in_cls(cls_delim(), c) == is_delim(c), is_delim(c) || c == '^' ==> !is_ws(c), in_cls(Cls::Not(Box::new(cls_delim())), c) == !is_delim(c) { reveal_with_fuel(in_cls, 8); if is_delim(c) || c == '^' { ax_ws_ascii(c); } }
/// `first` and `span` say the same
pub proof fn lem_first_span(s: Seq<char>, i: int, p: spec_fn(char) -> bool, k: Cls) requires 0 <= i <= s.len(), forall|c: char| in_cls(k, c) == !(#[trigger] p(c)) ensures first(s.skip(i), p) == span(k, s, i) decreases s.len() - i {
    let t = s.skip(i);
    if i < s.len() { assert(t[0] == s[i]); assert(in_cls(k, s[i]) == !p(s[i])); assert(t.drop_first() =~= s.skip(i + 1)); lem_first_span(s, i + 1, p, k); }
}
/// white space and then x: only behind all of the white space can something start that is none
pub proof fn lem_ws_then(x: Re, s: Seq<char>, i: int) requires 0 <= i <= s.len(), forall|j: int| 0 <= j < s.len() && is_ws(#[trigger] s[j]) ==> run(x, s, from(j), s.len()).len() == 0
    ensures ({
        let w = i + span(Cls::Ws, s, i);
        let a = run(cat(ws_star(), x), s, from(i), s.len());
        &&& (a.len() > 0) == (run(x, s, from(w), s.len()).len() > 0)
        &&& a.len() > 0 ==> a[0] == run(x, s, from(w), s.len())[0]
    })
{
    lem_span(Cls::Ws, s, i); lem_star(Cls::Ws, s, from(i), s.len());
    let ts = run(ws_star(), s, from(i), s.len());
    assert(ts[0] == from(i + span(Cls::Ws, s, i)));
    if run(x, s, ts[0], s.len()).len() > 0 { lem_all_pick(x, s, ts, s.len(), 0); }
    else {
        assert forall|j: int| 0 <= j < ts.len() implies run(x, s, #[trigger] ts[j], s.len()).len() == 0 by { if j > 0 { assert(in_cls(Cls::Ws, s[ts[j].i])); assert(ts[j] == from(ts[j].i)); } }
        lem_all_none(x, s, ts, s.len());
    }
}
pub proof fn lem_tk_a2(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures ({
    let a = run(tk_a2(), s, from(i), s.len());
    let m = span(Cls::Not(Box::new(Cls::Lit('$'))), s, i);
    &&& (a.len() > 0) == (i < s.len() && s[i] == '^' && i + m < s.len())
    &&& a.len() > 0 ==> a[0].i == i + m + 1
}) {
    reveal_with_fuel(in_cls, 8);
    let k = Cls::Not(Box::new(Cls::Lit('$')));
    let st = Re::Star(Box::new(Re::Set(k)));
    lem_cat_set(Cls::Lit('^'), cat(st, lit('$')), s, from(i), s.len());
    lem_span(k, s, i);
    if i < s.len() && s[i] == '^' {
        let u = At { i: i + 1, g: Map::empty() };
        lem_span(k, s, i + 1);
        assert(span(k, s, i) == 1 + span(k, s, i + 1));
        lem_star(k, s, u, s.len());
        let ts = run(st, s, u, s.len());
        lem_set(Cls::Lit('$'), s, ts[0], s.len());
        if i + span(k, s, i) < s.len() { assert(s[ts[0].i] == '$'); lem_all_pick(lit('$'), s, ts, s.len(), 0); }
        else {
            assert forall|j: int| 0 <= j < ts.len() implies run(lit('$'), s, #[trigger] ts[j], s.len()).len() == 0 by { lem_set(Cls::Lit('$'), s, ts[j], s.len()); if j > 0 { assert(in_cls(k, s[ts[j].i])); } }
            lem_all_none(lit('$'), s, ts, s.len());
        }
    }
}
pub proof fn lem_tok_at(s: Seq<char>, i: int) requires 0 <= i < s.len() ensures ends(re_toks(), s, i).len() > 0, ends(re_toks(), s, i)[0].i == i + tok_len(s.skip(i)), 1 <= tok_len(s.skip(i)) <= s.len() - i {
    reveal_with_fuel(in_cls, 3);
    let t = s.skip(i);
    let w = span(Cls::Ws, s, i);
    let kd = Cls::Not(Box::new(cls_delim()));
    let kq = Cls::Not(Box::new(Cls::Lit('$')));
    lem_span(Cls::Ws, s, i);
    lem_first_span(s, i, ws_fn(), Cls::Ws);
    assert(t.skip(w) =~= s.skip(i + w));
    assert forall|c: char| in_cls(kd, c) == !(#[trigger] delim_fn()(c)) by { lem_delim(c); }
    lem_first_span(s, i + w, delim_fn(), kd);
    assert forall|c: char| in_cls(kq, c) == !(#[trigger] is_char('$')(c)) by { reveal_with_fuel(in_cls, 8); }
    lem_first_span(s, i + w, is_char('$'), kq);
    lem_span(kd, s, i + w); lem_span(kq, s, i + w);
    // no token but a run starts with white space
    assert forall|j: int| 0 <= j < s.len() && is_ws(#[trigger] s[j]) implies run(tk_a2(), s, from(j), s.len()).len() == 0 by { lem_tk_a2(s, j); lem_delim(s[j]); }
    assert forall|j: int| 0 <= j < s.len() && is_ws(#[trigger] s[j]) implies run(Re::Set(cls_delim()), s, from(j), s.len()).len() == 0 by { lem_set(cls_delim(), s, from(j), s.len()); lem_delim(s[j]); }
    lem_ws_then(tk_a2(), s, i); lem_ws_then(Re::Set(cls_delim()), s, i);
    lem_tk_a2(s, i + w); lem_set(cls_delim(), s, from(i + w), s.len());
    let (a, b, c) = (run(tk_a(), s, from(i), s.len()), run(tk_b(), s, from(i), s.len()), run(tk_c(), s, from(i), s.len()));
    assert(run(alt(tk_b(), tk_c()), s, from(i), s.len()) == b + c);
    assert(ends(re_toks(), s, i) == a + (b + c));
    if i + w < s.len() { assert(s.skip(i + w)[0] == s[i + w]); lem_delim(s[i + w]); }
    if a.len() > 0 { }
    else if b.len() > 0 { assert((a + (b + c))[0] == b[0]); }
    else {
        lem_star(Cls::Ws, s, from(i), s.len());
        let ts = run(ws_star(), s, from(i), s.len());
        assert(c == run_all(tk_c2(), s, ts, s.len()));
        assert(ts[0] == from(i + w));
        lem_plus(kd, s, from(i + w), s.len());
        if i + w < s.len() {
            assert(span(kd, s, i + w) > 0) by { lem_delim(s[i + w]); assert(i + w + 1 <= s.len()); lem_span(kd, s, i + w + 1); }
            lem_all_pick(tk_c2(), s, ts, s.len(), 0);
        } else {
            assert(span(kd, s, i + w) == 0);
            let v = i + w - 1;
            assert(ts[1] == from(v));
            assert(in_cls(Cls::Ws, s[v])); lem_delim(s[v]);
            lem_plus(kd, s, from(v), s.len());
            assert(span(kd, s, v) == 1 + span(kd, s, v + 1));
            lem_all_pick(tk_c2(), s, ts, s.len(), 1);
        }
        assert((a + (b + c))[0] == c[0]);
    }
}
pub proof fn lem_tok_end(s: Seq<char>) ensures ends(re_toks(), s, s.len() as int).len() == 0 {
    let i = s.len() as int;
    let kd = Cls::Not(Box::new(cls_delim()));
    reveal_with_fuel(in_cls, 3);
    assert(span(Cls::Ws, s, i) == 0);
    assert forall|j: int| 0 <= j < s.len() && is_ws(#[trigger] s[j]) implies run(tk_a2(), s, from(j), s.len()).len() == 0 by { lem_tk_a2(s, j); lem_delim(s[j]); }
    assert forall|j: int| 0 <= j < s.len() && is_ws(#[trigger] s[j]) implies run(Re::Set(cls_delim()), s, from(j), s.len()).len() == 0 by { lem_set(cls_delim(), s, from(j), s.len()); lem_delim(s[j]); }
    lem_ws_then(tk_a2(), s, i); lem_ws_then(Re::Set(cls_delim()), s, i); lem_tk_a2(s, i);
    lem_star(Cls::Ws, s, from(i), s.len());
    let ts = run(ws_star(), s, from(i), s.len());
    lem_plus(kd, s, from(i), s.len());
    assert(ts.len() == 1 && ts[0] == from(i));
    assert forall|j: int| 0 <= j < ts.len() implies run(tk_c2(), s, #[trigger] ts[j], s.len()).len() == 0 by { assert(j == 0); }
    lem_all_none(tk_c2(), s, ts, s.len());
    let (a, b, c) = (run(tk_a(), s, from(i), s.len()), run(tk_b(), s, from(i), s.len()), run(tk_c(), s, from(i), s.len()));
    assert(run(alt(tk_b(), tk_c()), s, from(i), s.len()) == b + c);
    assert(ends(re_toks(), s, i) == a + (b + c));
}
pub proof fn lem_finds_toks(s: Seq<char>, i: int, l: int) requires 0 <= i <= s.len() ensures finds(re_toks(), s, i, l) == toks(s.skip(i)) decreases s.len() - i {
    let r = re_toks();
    if i < s.len() {
        lem_tok_at(s, i);
        assert(seek(r, s, i) == i);
        let b = i + tok_len(s.skip(i));
        lem_finds_toks(s, b, b);
        assert(s.skip(i).take(tok_len(s.skip(i))) =~= s.subrange(i, b));
        assert(s.skip(i).skip(tok_len(s.skip(i))) =~= s.skip(b));
    } else {
        lem_tok_end(s);
        assert(seek(r, s, i + 1) == -1);
        assert(seek(r, s, i) == -1);
        assert(s.skip(i).len() == 0);
    }
}
pub proof fn lem_re_toks(s: Seq<char>) ensures finds(re_toks(), s, 0, -1) == toks(s) { assert(s.skip(0) =~= s); lem_finds_toks(s, 0, -1); }
pub proof fn lem_pat_toks(p: Seq<char>, s: Seq<char>) requires re_ast(p) == Some(re_toks()) ensures re_find(p, s) == toks(s) { assert(unanchored(re_toks())) by { reveal_with_fuel(unanchored, 12); } ax_re_find(p, s); lem_re_toks(s); }
}
}
use vx_token_re::*;
verus! {
impl VxToString for VersionParsingError { open spec fn vx_shown(&self, r: Seq<char>) -> bool { true } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> VxInto<Combinator> for &'a str {
    open spec fn vx_into_ok(self) -> bool { true }
    open spec fn vx_into_is(self, r: Combinator) -> bool { r == op_sym(self@) }
    fn vx_into(self) -> (r: Combinator) { Combinator::from(self) }
}
// ---------- C16, C17: expressions ----------
pub open spec fn op_sym(s: Seq<char>) -> Combinator { if s == ","@ { Combinator::And } else if s == "|"@ { Combinator::Or } else { Combinator::None } }
/// the tokens of an expression, in parentheses, without the white space around them
pub open spec fn tokens_of(s: Seq<char>) -> Seq<Seq<char>> { toks(parens(s)).map_values(|t: Seq<char>| trimmed(t)) }
/// a spec, an expression in parentheses, or two joined by an operator
pub enum E { Spec(Seq<char>), Par(Box<E>), Bin(Combinator, Box<E>, Box<E>) }
pub open spec fn sym(c: Combinator) -> Seq<char> { match c { Combinator::And => ","@, _ => "|"@ } }
/// the tokens of an expression
pub open spec fn yields(e: E) -> Seq<Seq<char>> decreases e {
    match e { E::Spec(t) => seq![t], E::Par(x) => seq!["("@] + yields(*x) + seq![")"@], E::Bin(c, l, r) => yields(*l) + seq![sym(c)] + yields(*r) }
}
pub open spec fn is_punct(t: Seq<char>) -> bool { t == "("@ || t == ")"@ || t == "|"@ || t == ","@ }
/// ',' binds tighter than '|' and both group to the left
pub open spec fn prec(e: E) -> int { match e { E::Bin(Combinator::And, _, _) => 1, E::Bin(_, _, _) => 0, _ => 2 } }
pub open spec fn lp(c: Combinator) -> int { match c { Combinator::And => 1, _ => 0 } }
pub open spec fn wf(e: E) -> bool decreases e {
    match e {
        E::Spec(t) => !is_punct(t) && meaning(t) is Some,
        E::Par(x) => wf(*x),
        E::Bin(c, l, r) => (c is And || c is Or) && wf(*l) && wf(*r) && prec(*l) >= lp(c) && prec(*r) >= lp(c) + 1,
    }
}
/// `e` is what the tokens `ts` (of a text in parentheses) say
pub open spec fn derives(e: E, ts: Seq<Seq<char>>) -> bool { wf(e) && yields(E::Par(Box::new(e))) == ts }
/// what an expression means
pub open spec fn e_test(e: E, s: Seq<char>, v: Seq<PV>) -> bool decreases e {
    match e {
        E::Spec(t) => am_test(am_of(meaning(t).unwrap().0), s, v),
        E::Par(x) => e_test(*x, s, v),
        E::Bin(Combinator::And, l, r) => e_test(*l, s, v) && e_test(*r, s, v),
        E::Bin(_, l, r) => e_test(*l, s, v) || e_test(*r, s, v),
    }
}
/// the specs of an expression, in order
pub open spec fn e_specs(e: E) -> Seq<Seq<char>> decreases e { match e { E::Spec(t) => seq![t], E::Par(x) => e_specs(*x), E::Bin(_, l, r) => e_specs(*l) + e_specs(*r) } }
// ---------- the tree of an expression ----------
pub open spec fn spec_leaf(t: Seq<char>) -> T { T::Leaf(t, am_of(meaning(t).unwrap().0), meaning(t).unwrap().1) }
/// the parts a tree adds to a node with operator `c`
pub open spec fn parts_for(c: Combinator, t: T) -> Seq<T> { match t { T::Node(d, ps) => if d == c { ps } else { seq![t] }, _ => seq![t] } }
pub open spec fn fuse(c: Combinator, l: T, r: T) -> T { T::Node(c, parts_for(c, l) + parts_for(c, r)) }
pub open spec fn build(e: E) -> T decreases e { match e { E::Spec(t) => spec_leaf(t), E::Par(x) => build(*x), E::Bin(c, l, r) => fuse(c, build(*l), build(*r)) } }
pub open spec fn builds(es: Seq<E>) -> Seq<T> { Seq::new(es.len(), |i: int| build(es[i])) }
/// a lone spec is a tree of one part without operator
pub open spec fn as_tree(t: T) -> T { match t { T::Leaf(_, _, _) => T::Node(Combinator::None, seq![t]), _ => t } }
/// the trees under construction, from the one structure that holds them
pub open spec fn vals_of(o: ConstraintTree) -> Seq<T> { if o.combinator is None { tvs(o.parts@) } else { seq![ctv(o)] } }
// ---------- applying operators ----------
/// which symbols stop the application of operators: "(" always, "|" unless it is to be applied
pub open spec fn stops(lvl: int, s: Seq<char>) -> bool { s == "("@ || (lvl == 1 && s == "|"@) }
pub open spec fn is_lvl(c: Seq<char>, lvl: int) -> bool { (lvl == 0 && c == "("@) || (lvl == 1 && c == "|("@) }
pub open spec fn n_app(lvl: int, st: Seq<Seq<char>>) -> int decreases st.len() { if st.len() == 0 || stops(lvl, st.last()) { 0 } else { 1 + n_app(lvl, st.drop_last()) } }
pub open spec fn st_after(lvl: int, st: Seq<Seq<char>>) -> Seq<Seq<char>> decreases st.len() { if st.len() == 0 || stops(lvl, st.last()) { st } else { st_after(lvl, st.drop_last()) } }
pub open spec fn top2<A>(s: Seq<A>) -> (A, A) { (s[s.len() - 2], s[s.len() - 1]) }
pub open spec fn but2<A>(s: Seq<A>) -> Seq<A> { s.take(s.len() - 2) }
pub open spec fn vals_after(lvl: int, st: Seq<Seq<char>>, v: Seq<T>) -> Seq<T> decreases st.len() {
    if st.len() == 0 || stops(lvl, st.last()) || v.len() < 2 { v } else { vals_after(lvl, st.drop_last(), but2(v).push(fuse(op_sym(st.last()), top2(v).0, top2(v).1))) }
}
pub open spec fn is_sym(s: Seq<char>) -> bool { s == "("@ || s == "|"@ || s == ","@ }
pub open spec fn lvl_of(c: Seq<char>) -> int { if c == "|("@ { 1 } else { 0 } }
/// what `cstop.contains(symbol)` says
pub broadcast proof fn lem_stops(c: Seq<char>, s: Seq<char>) requires is_lvl(c, lvl_of(c)), is_sym(s) ensures #[trigger] occurs(c, s) == stops(lvl_of(c), s) {
    reveal_strlit("("); reveal_strlit("|"); reveal_strlit(","); reveal_strlit("|(");
    lem_occurs_char(c, s);
    if lvl_of(c) == 1 { assert(c =~= seq!['|', '(']); assert(c[0] == '|' && c[1] == '('); }
    assert(s =~= seq![s[0]]);
    if s != "("@ && s[0] == '(' { assert(s =~= "("@); }
    if s != "|"@ && s[0] == '|' { assert(s =~= "|"@); }
    if c == "("@ { assert(c[0] == '('); }
}
pub proof fn lem_napp(lvl: int, st: Seq<Seq<char>>) ensures n_app(lvl, st) >= 0, n_app(lvl, st) <= st.len() decreases st.len() { if st.len() > 0 { lem_napp(lvl, st.drop_last()); } }
pub proof fn lem_op_sym(s: Seq<char>) requires is_sym(s), s != "("@ ensures op_sym(s) is And || op_sym(s) is Or, sym(op_sym(s)) == s { }
// ---------- the parser's steps ----------
pub open spec fn es_after(lvl: int, st: Seq<Seq<char>>, es: Seq<E>) -> Seq<E> decreases st.len() {
    if st.len() == 0 || stops(lvl, st.last()) || es.len() < 2 { es } else { es_after(lvl, st.drop_last(), but2(es).push(E::Bin(op_sym(st.last()), Box::new(top2(es).0), Box::new(top2(es).1)))) }
}
/// open parentheses and operators, the operands so far, whether an operand has to come next
pub struct St { pub st: Seq<Seq<char>>, pub es: Seq<E>, pub want: bool }
pub open spec fn closes_operand(t: Seq<char>) -> bool { t == "|"@ || t == ","@ || t == ")"@ }
pub open spec fn wrap_last(es: Seq<E>) -> Seq<E> { if es.len() == 0 { es } else { es.drop_last().push(E::Par(Box::new(es.last()))) } }
pub open spec fn step(s: St, t: Seq<char>) -> Option<St> {
    if s.want == closes_operand(t) { None }
    else if t == "("@ { Some(St { st: s.st.push(t), es: s.es, want: true }) }
    else if t == "|"@ { Some(St { st: st_after(0, s.st).push(t), es: es_after(0, s.st, s.es), want: true }) }
    else if t == ","@ { Some(St { st: st_after(1, s.st).push(t), es: es_after(1, s.st, s.es), want: true }) }
    else if t == ")"@ { if st_after(0, s.st).len() == 0 { None } else { Some(St { st: st_after(0, s.st).drop_last(), es: wrap_last(es_after(0, s.st, s.es)), want: false }) } }
    else if meaning(t) is Some { Some(St { st: s.st, es: s.es.push(E::Spec(t)), want: false }) }
    else { None }
}
pub open spec fn run(ts: Seq<Seq<char>>) -> Option<St> decreases ts.len() {
    if ts.len() == 0 { Some(St { st: Seq::empty(), es: Seq::empty(), want: true }) } else { match run(ts.drop_last()) { Some(s) => step(s, ts.last()), None => None } }
}
pub open spec fn fin(ts: Seq<Seq<char>>) -> Option<E> { match run(ts) { Some(s) => if s.st.len() == 0 && s.es.len() > 0 { Some(s.es.last()) } else { None }, None => None } }
pub open spec fn n_ops(st: Seq<Seq<char>>) -> int decreases st.len() { if st.len() == 0 { 0 } else { n_ops(st.drop_last()) + (if st.last() == "("@ { 0int } else { 1 }) } }
pub open spec fn all_syms(st: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < st.len() ==> is_sym(#[trigger] st[i]) }
/// what is always so of a state
pub open spec fn sane(s: St) -> bool { all_syms(s.st) && s.es.len() == n_ops(s.st) + (if s.want { 0int } else { 1 }) }
pub proof fn lem_nops(st: Seq<Seq<char>>, lvl: int) ensures 0 <= n_app(lvl, st) <= n_ops(st) decreases st.len() { if st.len() > 0 { lem_nops(st.drop_last(), lvl); } }
pub proof fn lem_after(lvl: int, st: Seq<Seq<char>>, es: Seq<E>) requires all_syms(st), n_app(lvl, st) > 0 ==> n_app(lvl, st) < es.len()
    ensures builds(es_after(lvl, st, es)) == vals_after(lvl, st, builds(es)), es_after(lvl, st, es).len() == es.len() - n_app(lvl, st), all_syms(st_after(lvl, st)), n_ops(st_after(lvl, st)) == n_ops(st) - n_app(lvl, st),
        st_after(lvl, st).len() > 0 ==> stops(lvl, st_after(lvl, st).last()),
        st_after(lvl, st).len() <= st.len(), st_after(lvl, st) == st.take(st_after(lvl, st).len() as int),
    decreases st.len()
{
    if st.len() == 0 || stops(lvl, st.last()) { assert(st.take(st.len() as int) =~= st); }
    else {
        lem_napp(lvl, st.drop_last());
        let es2 = but2(es).push(E::Bin(op_sym(st.last()), Box::new(top2(es).0), Box::new(top2(es).1)));
        assert(builds(es2) =~= but2(builds(es)).push(fuse(op_sym(st.last()), top2(builds(es)).0, top2(builds(es)).1)));
        lem_after(lvl, st.drop_last(), es2);
        let k = st_after(lvl, st).len() as int;
        assert(st.drop_last().take(k) =~= st.take(k));
    }
}
pub proof fn lem_step_sane(s: St, t: Seq<char>) requires sane(s), step(s, t) is Some ensures sane(step(s, t).unwrap()), step(s, t).unwrap().want ==> step(s, t).unwrap().st.len() > 0 {
    let r = step(s, t).unwrap();
    lem_nops(s.st, 0); lem_nops(s.st, 1);
    lem_paren_len();
    if t == "("@ { assert(r.st.drop_last() =~= s.st); }
    else if t == "|"@ { lem_after(0, s.st, s.es); assert(r.st.drop_last() =~= st_after(0, s.st)); }
    else if t == ","@ { lem_after(1, s.st, s.es); assert(r.st.drop_last() =~= st_after(1, s.st)); }
    else if t == ")"@ { lem_after(0, s.st, s.es); }
}
pub proof fn lem_paren_len() ensures "("@ != "|"@, "("@ != ","@, "("@ != ")"@, "|"@ != ","@, "|"@ != ")"@, ","@ != ")"@ {
    reveal_strlit("("); reveal_strlit(")"); reveal_strlit("|"); reveal_strlit(",");
    assert("("@[0] == '(' && ")"@[0] == ')' && "|"@[0] == '|' && ","@[0] == ',');
}
pub proof fn lem_run_sane(ts: Seq<Seq<char>>) ensures match run(ts) { Some(s) => sane(s) && (s.want && ts.len() > 0 ==> s.st.len() > 0), None => true } decreases ts.len() {
    if ts.len() > 0 { lem_run_sane(ts.drop_last()); if let Some(s) = run(ts.drop_last()) { if step(s, ts.last()) is Some { lem_step_sane(s, ts.last()); } } }
}
pub proof fn lem_run_none(ts: Seq<Seq<char>>, k: int) requires 0 <= k <= ts.len(), run(ts.take(k)) is None ensures run(ts) is None decreases ts.len() {
    if k < ts.len() { assert(ts.drop_last().take(k) =~= ts.take(k)); lem_run_none(ts.drop_last(), k); } else { assert(ts.take(k) =~= ts); }
}
pub proof fn lem_run_step(ts: Seq<Seq<char>>, k: int) requires 0 <= k < ts.len(), run(ts.take(k)) is Some ensures run(ts.take(k + 1)) == step(run(ts.take(k)).unwrap(), ts[k]), run(ts.take(k + 1)) is None ==> run(ts) is None, sane(run(ts.take(k)).unwrap()) {
    assert(ts.take(k + 1).drop_last() =~= ts.take(k)); assert(ts.take(k + 1).last() == ts[k]);
    lem_run_sane(ts.take(k));
    if run(ts.take(k + 1)) is None { lem_run_none(ts, k + 1); }
}
pub proof fn lem_first(s: Seq<char>, p: spec_fn(char) -> bool) ensures 0 <= first(s, p) <= s.len(), first(s, p) < s.len() ==> p(s[first(s, p)]), forall|j: int| 0 <= j < first(s, p) ==> !p(#[trigger] s[j]) decreases s.len() {
    if s.len() > 0 && !p(s[0]) {
        let d = s.drop_first();
        lem_first(d, p);
        assert forall|j: int| 0 <= j < first(s, p) implies !p(#[trigger] s[j]) by { if j > 0 { assert(d[j - 1] == s[j]); } }
    }
}
pub proof fn lem_tok_len(s: Seq<char>) requires s.len() > 0 ensures 1 <= tok_len(s) <= s.len() {
    lem_first(s, ws_fn());
    let w = first(s, ws_fn());
    if w < s.len() { let r = s.skip(w); lem_first(r, is_char('$')); lem_first(r, delim_fn()); }
}
pub proof fn lem_tokens_some(s: Seq<char>) ensures tokens_of(s).len() > 0 { reveal_strlit("("); let p = parens(s); lem_tok_len(p); assert(toks(p).len() > 0); }
/// what the loop of `_treeify` needs to know about one step
pub proof fn lem_turn(ts: Seq<Seq<char>>, k: int, o: ConstraintTree, stk: Seq<&str>) requires 0 <= k < ts.len(), run(ts.take(k)) matches Some(s) && s.st == views(stk) && builds(s.es) == vals_of(o)
    ensures
        run(ts.take(k + 1)) == step(run(ts.take(k)).unwrap(), ts[k]), run(ts.take(k + 1)) is None ==> run(ts) is None,
        forall|i: int| 0 <= i < stk.len() ==> is_sym(#[trigger] stk[i]@),
        ({
            let s = run(ts.take(k)).unwrap();
            (!s.want ==> n_app(0, s.st) < s.es.len() && n_app(1, s.st) < s.es.len() && builds(es_after(0, s.st, s.es)) == vals_after(0, s.st, vals_of(o)) && builds(es_after(1, s.st, s.es)) == vals_after(1, s.st, vals_of(o)))
            && builds(wrap_last(es_after(0, s.st, s.es))) == builds(es_after(0, s.st, s.es))
            && builds(s.es).len() == s.es.len()
            && builds(s.es.push(E::Spec(ts[k]))) == vals_of(o).push(spec_leaf(ts[k]))
            && (st_after(0, s.st).len() > 0 ==> st_after(0, s.st).last() == "("@)
        }),
{
    lem_run_step(ts, k);
    let s = run(ts.take(k)).unwrap();
    lem_nops(s.st, 0); lem_nops(s.st, 1);
    assert forall|i: int| 0 <= i < stk.len() implies is_sym(#[trigger] stk[i]@) by { assert(s.st[i] == stk[i]@); }
    if !s.want { lem_after(0, s.st, s.es); lem_after(1, s.st, s.es); }
    lem_wrap(es_after(0, s.st, s.es));
    assert(builds(s.es.push(E::Spec(ts[k]))) =~= builds(s.es).push(spec_leaf(ts[k])));
    lem_stop_at(s.st);
}
pub proof fn lem_run_empty() ensures run(Seq::<Seq<char>>::empty()) == Some(St { st: Seq::empty(), es: Seq::empty(), want: true }), builds(Seq::empty()) == Seq::<T>::empty() { assert(builds(Seq::empty()) =~= Seq::<T>::empty()); }
pub proof fn lem_wrap(es: Seq<E>) ensures builds(wrap_last(es)) == builds(es) { assert(builds(wrap_last(es)) =~= builds(es)); }
pub proof fn lem_stop_at(st: Seq<Seq<char>>) ensures st_after(0, st).len() > 0 ==> st_after(0, st).last() == "("@ decreases st.len() { if st.len() > 0 && !stops(0, st.last()) { lem_stop_at(st.drop_last()); } }
/// adding a spec to the structure
pub proof fn lem_add(o: ConstraintTree, q: ConstraintTree, x: VersionSpecOrConstraintTree) requires q.combinator is None, x is VersionSpec, q.parts@ =~= (if o.combinator is None { o.parts@.push(x) } else { seq![VersionSpecOrConstraintTree::ConstraintTree(o), x] })
    ensures vals_of(q) == vals_of(o).push(tv(x)), single(q) {
    if o.combinator is None { lem_tvs_push(o.parts@, x); if q.parts@.len() == 1 { assert(q.parts@[0] == x); } }
    else { let e = Seq::<VersionSpecOrConstraintTree>::empty(); let n = VersionSpecOrConstraintTree::ConstraintTree(o); lem_tvs_push(e, n); lem_tvs_push(e.push(n), x); assert(q.parts@ =~= e.push(n).push(x)); assert(tvs(e) =~= Seq::empty()); assert(vals_of(q) =~= seq![ctv(o)].push(tv(x))); }
}
pub proof fn lem_over(ts: Seq<Seq<char>>, o: ConstraintTree) requires ts.len() > 0, run(ts) matches Some(s) && s.st.len() == 0 && builds(s.es) == vals_of(o), single(o)
    ensures fin(ts) matches Some(e) && ctv(o) == as_tree(build(e)) {
    lem_run_sane(ts);
    let s = run(ts).unwrap();
    assert(n_ops(s.st) == 0);
    assert(s.es.len() == 1);
    assert(builds(s.es)[0] == build(s.es[0]));
    lem_ctv(o);
    if o.combinator is None { assert(tvs(o.parts@).len() == 1); assert(tvs(o.parts@) =~= seq![tv(o.parts@[0])]); }
}
/// a structure without operator holds one operand only as a spec
pub open spec fn single(o: ConstraintTree) -> bool { o.combinator is None && o.parts@.len() == 1 ==> o.parts@[0] is VersionSpec }
pub open spec fn tree_result(s: Seq<char>, r: Result<ConstraintTree, String>) -> bool { match r { Ok(t) => (fin(tokens_of(s)) matches Some(e) && ctv(t) == as_tree(build(e))), Err(_) => fin(tokens_of(s)) is None } }
// ---------- C23: texts and lists ----------
pub open spec fn tree_of(s: Seq<char>) -> Option<T> { match fin(tokens_of(s)) { Some(e) => Some(as_tree(build(e))), None => None } }
/// what a text stands for
pub open spec fn part_of(s: Seq<char>) -> Option<T> { if compound(s) { tree_of(s) } else if meaning(s) is Some { Some(spec_leaf(s)) } else { None } }
pub open spec fn list_ok(l: Seq<Seq<char>>) -> bool { l.len() > 0 && (l[0] == ","@ || l[0] == "|"@) && forall|i: int| 1 <= i < l.len() ==> part_of(#[trigger] l[i]) is Some }
pub open spec fn list_parts(l: Seq<Seq<char>>) -> Seq<T> { Seq::new((l.len() - 1) as nat, |i: int| part_of(l[i + 1]).unwrap()) }
pub open spec fn list_result(l: Seq<Seq<char>>, r: Result<ConstraintTree, VersionParsingError>) -> bool { match r { Ok(t) => list_ok(l) && ctv(t) == T::Node(op_sym(l[0]), list_parts(l)), Err(_) => !list_ok(l) } }
}

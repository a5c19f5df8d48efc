pub mod vx_spec_re {
use vstd::prelude::*;
use super::vx_text::*;
use super::vx_pre::*;
use super::vx_re::*; use super::vx_re_ax::*; use super::vx_re_lem::*;
verus! {
// ---------- what the regular expressions of the spec parser find ----------
pub open spec fn is_opc(c: char) -> bool { c == '=' || c == '<' || c == '>' || c == '!' || c == '~' }
pub open spec fn no_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_ws(#[trigger] s[i]) }
/// the length of the operator: the longest that leaves something
pub open spec fn op_len(s: Seq<char>) -> int { if s.len() >= 3 && s[1] == '=' { 2 } else { 1 } }
pub open spec fn op_form(s: Seq<char>) -> bool { s.len() >= 2 && is_opc(s[0]) && no_ws(s.skip(op_len(s))) }
pub open spec fn op_caps(s: Seq<char>) -> Option<Seq<Option<Seq<char>>>> { if op_form(s) { Some(seq![Some(s), Some(s.take(op_len(s))), Some(s.skip(op_len(s)))]) } else { None } }
/// the characters that make a text compound
pub open spec fn is_compound_char(c: char) -> bool { c == '(' || c == ')' || c == '|' || c == ',' || c == '^' || c == '$' }
pub open spec fn compound(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && is_compound_char(#[trigger] s[i]) }
// ----- compound texts
pub open spec fn cls_compound() -> Cls { or(Cls::Lit('$'), or(Cls::Lit('('), or(Cls::Lit(')'), or(Cls::Lit(','), or(Cls::Lit('^'), Cls::Lit('|')))))) }
pub open spec fn re_compound() -> Re { cat(Re::Star(Box::new(Re::Set(Cls::Any))), Re::Set(cls_compound())) }
pub proof fn lem_re_compound(s: Seq<char>) ensures matches(re_compound(), s) == compound(s) {
    reveal_with_fuel(in_cls, 8);
    let r = re_compound();
    lem_seek(r, s, 0);
    let a = seek(r, s, 0);
    if a >= 0 {
        lem_star(Cls::Any, s, from(a), s.len());
        let ts = run(Re::Star(Box::new(Re::Set(Cls::Any))), s, from(a), s.len());
        let k = lem_all_some(Re::Set(cls_compound()), s, ts, s.len());
        lem_set(cls_compound(), s, ts[k], s.len());
        assert(is_compound_char(s[ts[k].i]));
    }
    if compound(s) {
        let i = choose|i: int| 0 <= i < s.len() && is_compound_char(#[trigger] s[i]);
        lem_star(Cls::Any, s, from(i), s.len()); lem_span(Cls::Any, s, i);
        let ts = run(Re::Star(Box::new(Re::Set(Cls::Any))), s, from(i), s.len());
        lem_set(cls_compound(), s, ts[ts.len() - 1], s.len());
        assert(ts[ts.len() - 1].i == i);
        assert(in_cls(cls_compound(), s[i]));
        if run_all(Re::Set(cls_compound()), s, ts, s.len()).len() == 0 { lem_all_has(Re::Set(cls_compound()), s, ts, s.len(), ts.len() - 1); }
        assert(ends(r, s, i).len() > 0);
    }
}
pub open spec fn re_compound_set() -> Re { Re::Set(cls_compound()) }
pub proof fn lem_re_compound_set(s: Seq<char>) ensures matches(re_compound_set(), s) == compound(s) {
    reveal_with_fuel(in_cls, 8);
    let r = re_compound_set();
    lem_seek(r, s, 0);
    let a = seek(r, s, 0);
    if a >= 0 { lem_set(cls_compound(), s, from(a), s.len()); assert(is_compound_char(s[a])); }
    if compound(s) { let i = choose|i: int| 0 <= i < s.len() && is_compound_char(#[trigger] s[i]); lem_set(cls_compound(), s, from(i), s.len()); assert(ends(r, s, i).len() > 0); }
}
// ----- the operator form
pub open spec fn cls_op() -> Cls { or(Cls::Lit('!'), or(Cls::Lit('<'), or(Cls::Lit('='), or(Cls::Lit('>'), Cls::Lit('~'))))) }
pub open spec fn cls_nows() -> Cls { Cls::Not(Box::new(Cls::Ws)) }
pub open spec fn op_1() -> Re { Re::Group(1, Box::new(cat(Re::Set(cls_op()), Re::Opt(Box::new(lit('=')))))) }
pub open spec fn op_2() -> Re { Re::Group(2, Box::new(plus(Re::Set(cls_nows())))) }
pub open spec fn op_tail() -> Re { cat(op_2(), Re::End) }
pub open spec fn re_op() -> Re { cat(Re::Start, cat(op_1(), op_tail())) }
pub proof fn lem_op_head(s: Seq<char>) ensures ({
    let a = run(op_1(), s, from(0), s.len());
    &&& s.len() == 0 || !is_opc(s[0]) ==> a.len() == 0
    &&& s.len() > 0 && is_opc(s[0]) && !(s.len() > 1 && s[1] == '=') ==> a == seq![At { i: 1, g: Map::empty().insert(1nat, (0int, 1int)) }]
    &&& s.len() > 1 && is_opc(s[0]) && s[1] == '=' ==> a == seq![At { i: 2, g: Map::empty().insert(1nat, (0int, 2int)) }, At { i: 1, g: Map::empty().insert(1nat, (0int, 1int)) }]
}) {
    reveal_with_fuel(in_cls, 8);
    let o = Re::Opt(Box::new(lit('=')));
    lem_cat_set(cls_op(), o, s, from(0), s.len());
    let b = run(cat(Re::Set(cls_op()), o), s, from(0), s.len());
    let a = run(op_1(), s, from(0), s.len());
    assert(a == close(1, 0, b));
    if s.len() > 0 && is_opc(s[0]) {
        let u = At { i: 1, g: Map::empty() };
        assert(b == run(o, s, u, s.len()));
        lem_set(Cls::Lit('='), s, u, s.len());
        assert(b == run(lit('='), s, u, s.len()) + seq![u]);
        if s.len() > 1 && s[1] == '=' { assert(a =~= seq![At { i: 2, g: Map::empty().insert(1nat, (0int, 2int)) }, At { i: 1, g: Map::empty().insert(1nat, (0int, 1int)) }]); }
        else { assert(a =~= seq![At { i: 1, g: Map::empty().insert(1nat, (0int, 1int)) }]); }
    }
}
/// the rest from t on: everything, if there is something and no white space in it
pub proof fn lem_op_tail(s: Seq<char>, t: At) requires 0 <= t.i <= s.len() ensures ({
    let a = run(op_tail(), s, t, s.len());
    &&& (a.len() > 0) == (t.i < s.len() && no_ws(s.skip(t.i)))
    &&& a.len() > 0 ==> a[0] == (At { i: s.len() as int, g: t.g.insert(2nat, (t.i, s.len() as int)) })
}) {
    reveal_with_fuel(in_cls, 8);
    let k = cls_nows();
    let m = span(k, s, t.i);
    lem_span(k, s, t.i); lem_plus(k, s, t, s.len());
    let b = run(op_2(), s, t, s.len());
    assert(b == close(2, t.i, run(plus(Re::Set(k)), s, t, s.len())));
    assert(run(op_tail(), s, t, s.len()) == run_all(Re::End, s, b, s.len()));
    if t.i < s.len() && no_ws(s.skip(t.i)) {
        assert forall|j: int| t.i <= j < s.len() implies !is_ws(#[trigger] s[j]) by { assert(s.skip(t.i)[j - t.i] == s[j]); }
        assert(t.i + m == s.len()) by { if t.i + m < s.len() { assert(!is_ws(s[t.i + m])); } }
        assert(b[0].i == s.len());
        assert(b[0] == (At { i: s.len() as int, g: t.g.insert(2nat, (t.i, s.len() as int)) }));
        lem_all_pick(Re::End, s, b, s.len(), 0);
    } else {
        assert(m == 0 || t.i + m < s.len()) by { if m > 0 && t.i + m == s.len() { assert forall|j: int| 0 <= j < s.skip(t.i).len() implies !is_ws(#[trigger] s.skip(t.i)[j]) by { assert(in_cls(k, s[t.i + j])); } } }
        assert forall|j: int| 0 <= j < b.len() implies run(Re::End, s, #[trigger] b[j], s.len()).len() == 0 by { }
        lem_all_none(Re::End, s, b, s.len());
    }
}
pub proof fn lem_re_op(s: Seq<char>) ensures caps(re_op(), s) == op_caps(s) {
    let r = re_op();
    let a = run(op_1(), s, from(0), s.len());
    lem_op_head(s);
    lem_all_one(cat(op_1(), op_tail()), s, from(0), s.len());
    assert(run(Re::Start, s, from(0), s.len()) =~= seq![from(0)]);
    assert(ends(r, s, 0) == run(cat(op_1(), op_tail()), s, from(0), s.len()));
    assert(ends(r, s, 0) == run_all(op_tail(), s, a, s.len()));
    assert forall|i: int| 0 < i <= s.len() implies (#[trigger] ends(r, s, i)).len() == 0 by {
        assert(run(Re::Start, s, from(i), s.len()) =~= Seq::empty());
        assert(run_all(cat(op_1(), op_tail()), s, Seq::<At>::empty(), s.len()) =~= Seq::empty());
    }
    lem_seek(r, s, 0);
    if a.len() > 0 {
        lem_op_tail(s, a[0]);
        if a.len() > 1 {
            lem_op_tail(s, a[1]);
            if s.len() > 2 && no_ws(s.skip(1)) { assert forall|j: int| 0 <= j < s.skip(2).len() implies !is_ws(#[trigger] s.skip(2)[j]) by { assert(s.skip(1)[j + 1] == s.skip(2)[j]); } }
            if s.len() > 2 && !no_ws(s.skip(2)) { let j = choose|j: int| 0 <= j < s.skip(2).len() && is_ws(#[trigger] s.skip(2)[j]); assert(s.skip(1)[j + 1] == s.skip(2)[j]); }
        }
    }
    assert(groups(r) == 2) by { reveal_with_fuel(groups, 8); }
    if op_form(s) {
        let k = op_len(s);
        let q: int = if a.len() == 2 && k == 1 { 1 } else { 0 };
        assert(a[q].i == k);
        lem_all_pick(op_tail(), s, a, s.len(), q);
        let t = ends(r, s, 0)[0];
        assert(t == (At { i: s.len() as int, g: Map::<nat, (int, int)>::empty().insert(1nat, (0int, k)).insert(2nat, (k, s.len() as int)) }));
        assert(seek(r, s, 0) == 0);
        assert(s.subrange(0, s.len() as int) =~= s); assert(s.subrange(0, k) =~= s.take(k)); assert(s.subrange(k, s.len() as int) =~= s.skip(k));
        let c = caps(r, s).unwrap();
        assert(c.len() == 3);
        assert(c =~= op_caps(s).unwrap());
    } else {
        assert forall|j: int| 0 <= j < a.len() implies run(op_tail(), s, #[trigger] a[j], s.len()).len() == 0 by { if j == 0 { } else { assert(j == 1); } }
        lem_all_none(op_tail(), s, a, s.len());
        assert(ends(r, s, 0).len() == 0);
    }
}
pub proof fn lem_pat_op(p: Seq<char>, s: Seq<char>) requires re_ast(p) == Some(re_op()) ensures re_caps(p, s) == op_caps(s) { ax_re_caps(p, s); lem_re_op(s); }
pub proof fn lem_pat_compound_set(p: Seq<char>, s: Seq<char>) requires re_ast(p) == Some(re_compound_set()) ensures re_match(p, s) == compound(s) { ax_re_match(p, s); lem_re_compound_set(s); }
pub proof fn lem_pat_compound(p: Seq<char>, s: Seq<char>) requires re_ast(p) == Some(re_compound()) ensures re_match(p, s) == compound(s) { ax_re_match(p, s); lem_re_compound(s); }
}
}
use vx_spec_re::*;
verus! {
// ---------- C12, C13, C14: what a single spec means ----------
pub enum M { Regex(Seq<char>), Op(CompOp, Seq<char>), Always, Exact(Seq<char>) }
/// the operator of each sign
pub open spec fn op_named(o: Seq<char>) -> Option<CompOp> {
    if o == "=="@ { Some(CompOp::Eq) } else if o == "!="@ { Some(CompOp::Ne) } else if o == "<"@ { Some(CompOp::Lt) } else if o == "<="@ { Some(CompOp::Le) } else if o == ">"@ { Some(CompOp::Gt) } else if o == ">="@ { Some(CompOp::Ge) }
    else if o == "="@ { Some(CompOp::StartsWith) } else if o == "~="@ { Some(CompOp::Compatible) } else { None }
}
pub open spec fn op_meaning(s: Seq<char>) -> Option<(M, bool)> {
    let o = s.take(op_len(s));
    let rest = s.skip(op_len(s));
    let star = has_suffix(rest, ".*"@);
    let ver = if star { rest.take(rest.len() - 2) } else { rest };
    let op = if star && o == "!="@ { Some(CompOp::NotStartsWith) } else if star && o == "~="@ { None } else { op_named(o) };
    if op_form(s) && op is Some && text_ok(ver) { Some((M::Op(op.unwrap(), ver), o == "=="@)) } else { None }
}
/// '.' and '+' stand for themselves, '*' for any text
pub open spec fn glob_body(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else { glob_body(s.drop_last()) + (if s.last() == '.' { r"\."@ } else if s.last() == '+' { r"\+"@ } else if s.last() == '*' { r".*"@ } else { seq![s.last()] }) }
}
pub open spec fn glob_pat(s: Seq<char>) -> Seq<char> { "^(?:"@ + glob_body(s) + ")$"@ }
pub open spec fn star_or_dot() -> spec_fn(char) -> bool { |c: char| c == '*' || c == '.' }
/// the meaning of the text of a single spec and whether it is exact; None: the text is malformed
pub open spec fn meaning(s: Seq<char>) -> Option<(M, bool)> {
    let caret = s.len() > 0 && s[0] == '^';
    let dollar = s.len() > 0 && s.last() == '$';
    if caret || dollar {
        if caret && dollar && re_valid(s) { Some((M::Regex(s), false)) } else { None }
    } else if s.len() > 0 && is_opc(s[0]) { op_meaning(s) }
    else if s == "*"@ { Some((M::Always, false)) }
    else if trim_end(s, is_char('*')).contains('*') { if re_valid(glob_pat(s)) { Some((M::Regex(glob_pat(s)), false)) } else { None } }
    else if s.len() > 0 && s.last() == '*' { let v = trim_end(s, star_or_dot()); if text_ok(v) { Some((M::Op(CompOp::StartsWith, v), false)) } else { None } }
    else if !s.contains('@') { if text_ok(s) { Some((M::Op(CompOp::Eq, s), true)) } else { None } }
    else { Some((M::Exact(s), true)) }
}
/// what a matcher tests
pub enum AM { Regex(Seq<char>), Op(CompOp, Seq<PV>, Seq<char>), Always, Never, Exact(Seq<char>) }
pub open spec fn am(m: MatchEnum) -> AM {
    match m {
        MatchEnum::MatchRegex(r) => AM::Regex(r.expression@),
        MatchEnum::MatchOperator(o) => AM::Op(o.operator, o.version@, o.version.version@),
        MatchEnum::MatchAlways(_) => AM::Always,
        MatchEnum::MatchNever(_) => AM::Never,
        MatchEnum::MatchExact(e) => AM::Exact(e.spec@),
    }
}
pub open spec fn am_of(x: M) -> AM { match x { M::Regex(p) => AM::Regex(p), M::Op(op, t) => AM::Op(op, parsed(t), t), M::Always => AM::Always, M::Exact(t) => AM::Exact(t) } }
pub open spec fn am_covered(m: AM) -> bool { match m { AM::Op(op, _, _) => covered_op(op), _ => true } }
/// for a version with text `s` and components `v`
pub open spec fn am_test(m: AM, s: Seq<char>, v: Seq<PV>) -> bool {
    match m { AM::Regex(p) => re_match(p, s), AM::Op(op, w, _) => holds(op, v, w), AM::Always => true, AM::Never => false, AM::Exact(t) => s == t }
}
/// a matcher does what `x` says
pub open spec fn matcher_is(m: MatchEnum, x: M) -> bool {
    match (m, x) {
        (MatchEnum::MatchRegex(r), M::Regex(p)) => r.expression@ == p,
        (MatchEnum::MatchOperator(o), M::Op(op, t)) => o.operator == op && is_version(o.version, t),
        (MatchEnum::MatchAlways(_), M::Always) => true,
        (MatchEnum::MatchExact(e), M::Exact(t)) => e.spec@ == t,
        _ => false,
    }
}
pub open spec fn matcher_result(x: Option<(M, bool)>, r: Result<(MatchEnum, bool), VersionParsingError>) -> bool {
    match r { Ok(p) => x is Some && matcher_is(p.0, x.unwrap().0) && p.1 == x.unwrap().1, Err(_) => x is None }
}
pub open spec fn m_covered(m: MatchEnum) -> bool { match m { MatchEnum::MatchOperator(o) => covered_op(o.operator), _ => true } }
pub open spec fn m_test(m: MatchEnum, v: Version) -> bool { am_test(am(m), v.version@, v@) }
/// C13: an accepted spec's answer for a version
pub open spec fn answer(x: M, v: Version) -> bool {
    match x { M::Regex(p) => re_match(p, v.version@), M::Op(op, t) => holds(op, v@, parsed(t)), M::Always => true, M::Exact(t) => v.version@ == t }
}
pub open spec fn answered(x: M) -> bool { match x { M::Op(op, _) => covered_op(op), _ => true } }
/// the contents of a spec
pub open spec fn is_spec(sp: VersionSpec, s: Seq<char>) -> bool { sp.spec_str@ == s && meaning(s) is Some && matcher_is(sp.matcher, meaning(s).unwrap().0) && sp._is_exact == meaning(s).unwrap().1 }
pub open spec fn spec_result(s: Seq<char>, r: Result<VersionSpec, VersionParsingError>) -> bool { match r { Ok(sp) => is_spec(sp, s), Err(_) => meaning(s) is None } }

pub proof fn lem_op_named(o: Seq<char>, r: Result<CompOp, ()>) requires found(o, r, sign_fn()), o.len() <= 2 ensures match r { Ok(c) => op_named(o) == Some(c), Err(_) => op_named(o) is None } {
    reveal_strlit("=="); reveal_strlit("!="); reveal_strlit("<"); reveal_strlit("<="); reveal_strlit(">="); reveal_strlit(">"); reveal_strlit("="); reveal_strlit("!=startswith"); reveal_strlit("~="); reveal_strlit("!~=");
    let f = sign_fn();
    match r {
        Ok(c) => {
            assert(o == f(c));
            assert(o.len() == sign_of(c).len());
            assert(o[0] == sign_of(c)[0]);
            if o.len() == 2 { assert(o[1] == sign_of(c)[1]); }
            assert("=="@.len() == 2 && "!="@.len() == 2 && "<"@.len() == 1 && "<="@.len() == 2 && ">"@.len() == 1 && ">="@.len() == 2 && "="@.len() == 1 && "~="@.len() == 2);
            assert("=="@[0] == '=' && "!="@[0] == '!' && "<"@[0] == '<' && "<="@[0] == '<' && ">"@[0] == '>' && ">="@[0] == '>' && "="@[0] == '=' && "~="@[0] == '~');
        },
        Err(_) => {
            assert(o != f(CompOp::Eq) && o != f(CompOp::Ne) && o != f(CompOp::Lt) && o != f(CompOp::Le) && o != f(CompOp::Gt) && o != f(CompOp::Ge) && o != f(CompOp::StartsWith) && o != f(CompOp::Compatible));
        },
    }
}
pub proof fn lem_glob(s: Seq<char>) ensures repl(repl(repl(s, '.', r"\."@), '+', r"\+"@), '*', r".*"@) == glob_body(s) decreases s.len() {
    reveal_strlit(r"\."); reveal_strlit(r"\+"); reveal_strlit(r".*");
    let (d, p, t) = (r"\."@, r"\+"@, r".*"@);
    if s.len() > 0 {
        let (i, l) = (s.drop_last(), s.last());
        lem_glob(i);
        let x = if l == '.' { d } else { seq![l] };
        lem_repl_app(repl(i, '.', d), x, '+', p);
        lem_repl_app(repl(repl(i, '.', d), '+', p), repl(x, '+', p), '*', t);
        lem_repl_one(l, '+', p); lem_repl_one(l, '*', t);
        lem_repl_two('\\', '.', '+', p); lem_repl_two('\\', '.', '*', t); lem_repl_two('\\', '+', '*', t);
        assert(d =~= seq!['\\', '.']); assert(p =~= seq!['\\', '+']);
    }
}
pub proof fn lem_repl_app(a: Seq<char>, b: Seq<char>, c: char, to: Seq<char>) ensures repl(a + b, c, to) == repl(a, c, to) + repl(b, c, to) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); assert(repl(b, c, to) =~= Seq::empty()); assert(repl(a, c, to) + repl(b, c, to) =~= repl(a, c, to)); }
    else {
        lem_repl_app(a, b.drop_last(), c, to);
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        let z = if b.last() == c { to } else { seq![b.last()] };
        assert(repl(a, c, to) + repl(b.drop_last(), c, to) + z =~= repl(a, c, to) + (repl(b.drop_last(), c, to) + z));
    }
}
pub proof fn lem_repl_one(x: char, c: char, to: Seq<char>) ensures repl(seq![x], c, to) == (if x == c { to } else { seq![x] }) {
    assert(seq![x].drop_last() =~= Seq::empty());
    assert(repl(seq![x].drop_last(), c, to) =~= Seq::empty());
    assert(repl(seq![x], c, to) =~= (if x == c { to } else { seq![x] }));
}
pub proof fn lem_repl_two(x: char, y: char, c: char, to: Seq<char>) requires x != c, y != c ensures repl(seq![x, y], c, to) == seq![x, y] {
    assert(seq![x, y] =~= seq![x] + seq![y]);
    lem_repl_app(seq![x], seq![y], c, to); lem_repl_one(x, c, to); lem_repl_one(y, c, to);
}
pub proof fn lem_one_char(s: Seq<char>, p: Seq<char>) requires p.len() == 1 ensures s.len() > 0 ==> (seq![s[0]] == p) == (s[0] == p[0]) {
    if s.len() > 0 && s[0] == p[0] { assert(seq![s[0]] =~= p); }
    if s.len() > 0 && seq![s[0]] == p { assert(p[0] == seq![s[0]][0]); }
}
/// facts about the text of an operator spec
pub proof fn lem_op_spec(s: Seq<char>)
    ensures s.len() >= 2 ==> ({
        let o = s.take(op_len(s));
        let rest = s.skip(op_len(s));
        &&& is_opc(s[0]) ==> trimmed(o) == o
        &&& o.len() <= 2
        &&& forall|r: Result<CompOp, ()>| #[trigger] found(o, r, sign_fn()) ==> (match r { Ok(c) => op_named(o) == Some(c), Err(_) => op_named(o) is None })
        &&& has_suffix(rest, ".*"@) ==> slice_ok(rest, 0, blen(rest) - 2) && slice_of(rest, 0, blen(rest) - 2) == rest.take(rest.len() - 2) && blen(rest) >= 2
    }),
        trimmed("!=startswith"@) == "!=startswith"@,
        forall|r: Result<CompOp, ()>| #[trigger] found("!=startswith"@, r, sign_fn()) ==> r == Ok::<CompOp, ()>(CompOp::NotStartsWith),
{
    reveal_strlit(".*"); reveal_strlit("!=startswith");
    let w = "!=startswith"@;
    assert(!is_ws(w[0]) && !is_ws(w.last()));
    assert forall|r: Result<CompOp, ()>| #[trigger] found(w, r, sign_fn()) implies r == Ok::<CompOp, ()>(CompOp::NotStartsWith) by {
        let f = sign_fn();
        assert(f(CompOp::NotStartsWith) == w);
        lem_sign_literals();
        match r { Ok(c) => { assert(sign_of(c).len() == sign_len(c)); assert(w == f(c)); assert(w.len() == 12); }, Err(_) => {} }
    }
    if s.len() >= 2 {
        let o = s.take(op_len(s));
        let rest = s.skip(op_len(s));
        if is_opc(s[0]) { assert(o[0] == s[0]); assert(o.last() == s[op_len(s) - 1]); assert(!is_ws(o[0]) && !is_ws(o.last())); assert(trimmed(o) == o); }
        assert forall|r: Result<CompOp, ()>| #[trigger] found(o, r, sign_fn()) implies (match r { Ok(c) => op_named(o) == Some(c), Err(_) => op_named(o) is None }) by { lem_op_named(o, r); }
        if has_suffix(rest, ".*"@) {
            let z = rest.skip(rest.len() - 2);
            assert(z == ".*"@);
            assert(z[0] == rest[rest.len() - 2] && z[1] == rest[rest.len() - 1]);
            assert forall|k: int| rest.len() - 2 <= k < rest.len() implies (#[trigger] rest[k] as u32) < 128 by { if k == rest.len() - 2 { assert(rest[k] == '.'); } else { assert(rest[k] == '*'); } }
            lem_slice_prefix(rest, 2);
        }
    }
}
}

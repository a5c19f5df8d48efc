// Globs: the pattern made of one matches what the glob says, for globs without other characters that mean something in a regular expression.
pub mod vx_glob {
use vstd::prelude::*;
use super::vx_text::*; use super::vx_pre::*;
use super::vx_re::*; use super::vx_re_ax::*; use super::vx_re_lem::*;
use super::glob_pat;
verus! {
/// '*' stands for any text without a line break, everything else for itself
pub open spec fn glob(g: Seq<char>, t: Seq<char>) -> bool decreases g.len() {
    if g.len() == 0 { t.len() == 0 }
    else if g[0] == '*' { exists|k: int| 0 <= k <= t.len() && no_break(t.take(k)) && glob(g.drop_first(), #[trigger] t.skip(k)) }
    else { t.len() > 0 && t[0] == g[0] && glob(g.drop_first(), t.drop_first()) }
}
pub open spec fn no_break(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '\n' }
pub open spec fn meta(c: char) -> bool { c == '\\' || c == '[' || c == ']' || c == '{' || c == '}' || c == '(' || c == ')' || c == '?' || c == '|' || c == '^' || c == '$' }
/// nothing in it means anything in a regular expression but '.', '+' and '*'; and it is not beyond what the regex crate compiles
pub open spec fn plain(g: Seq<char>) -> bool { g.len() <= 1000 && forall|i: int| 0 <= i < g.len() ==> !meta(#[trigger] g[i]) }
pub open spec fn glob_item(c: char) -> Re { if c == '*' { Re::Star(Box::new(Re::Set(Cls::Any))) } else { Re::Set(Cls::Lit(c)) } }
pub open spec fn glob_re(g: Seq<char>) -> Re decreases g.len() { if g.len() == 0 { Re::End } else { cat(glob_item(g[0]), glob_re(g.drop_first())) } }
/// the syntax tree of the pattern of a plain glob (up to how concatenations nest)
pub broadcast axiom fn ax_glob_ast(g: Seq<char>) requires plain(g) ensures #[trigger] re_ast(glob_pat(g)) == Some(cat(Re::Start, glob_re(g)));
pub proof fn lem_all_any(r: Re, s: Seq<char>, ts: Seq<At>, n: nat) ensures (run_all(r, s, ts, n).len() > 0) == exists|j: int| 0 <= j < ts.len() && run(r, s, #[trigger] ts[j], n).len() > 0 {
    if exists|j: int| 0 <= j < ts.len() && run(r, s, #[trigger] ts[j], n).len() > 0 { let j = choose|j: int| 0 <= j < ts.len() && run(r, s, #[trigger] ts[j], n).len() > 0; lem_all_has(r, s, ts, n, j); }
    else { lem_all_none(r, s, ts, n); }
}
pub proof fn lem_glob_run(g: Seq<char>, s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures (run(glob_re(g), s, from(i), s.len()).len() > 0) == glob(g, s.skip(i)) decreases g.len() {
    let t = s.skip(i);
    if g.len() > 0 {
        let d = g.drop_first();
        let r = glob_re(d);
        if g[0] == '*' {
            let st = Re::Star(Box::new(Re::Set(Cls::Any)));
            let m = span(Cls::Any, s, i);
            lem_star(Cls::Any, s, from(i), s.len()); lem_span(Cls::Any, s, i);
            let ts = run(st, s, from(i), s.len());
            assert(run(glob_re(g), s, from(i), s.len()) == run_all(r, s, ts, s.len()));
            lem_all_any(r, s, ts, s.len());
            if run_all(r, s, ts, s.len()).len() > 0 {
                let j = choose|j: int| 0 <= j < ts.len() && run(r, s, #[trigger] ts[j], s.len()).len() > 0;
                let k = m - j;
                assert(ts[j] == from(i + k));
                lem_glob_run(d, s, i + k);
                assert(t.skip(k) =~= s.skip(i + k));
                assert forall|q: int| 0 <= q < t.take(k).len() implies #[trigger] t.take(k)[q] != '\n' by { assert(in_cls(Cls::Any, s[i + q])); }
                assert(no_break(t.take(k)));
            }
            if glob(g, t) {
                let k = choose|k: int| 0 <= k <= t.len() && no_break(t.take(k)) && glob(d, #[trigger] t.skip(k));
                assert(k <= m) by { if k > m { assert(t.take(k)[m] == s[i + m]); assert(in_cls(Cls::Any, s[i + m])); } }
                let j = m - k;
                assert(ts[j] == from(i + k));
                lem_glob_run(d, s, i + k);
                assert(t.skip(k) =~= s.skip(i + k));
                assert(run(r, s, ts[j], s.len()).len() > 0);
            }
        } else {
            lem_cat_set(Cls::Lit(g[0]), r, s, from(i), s.len());
            if i < s.len() {
                assert(t[0] == s[i]);
                assert(t.drop_first() =~= s.skip(i + 1));
                lem_glob_run(d, s, i + 1);
            }
        }
    }
}
/// the pattern of a plain glob is one, and what it matches
pub proof fn thm_glob(g: Seq<char>, s: Seq<char>) requires plain(g) ensures re_valid(glob_pat(g)), re_match(glob_pat(g), s) == glob(g, s) {
    ax_glob_ast(g); ax_re_valid(glob_pat(g)); ax_re_match(glob_pat(g), s);
    let r = cat(Re::Start, glob_re(g));
    lem_seek(r, s, 0);
    assert forall|i: int| 0 <= i <= s.len() implies (#[trigger] ends(r, s, i)).len() == (if i == 0 { run(glob_re(g), s, from(0), s.len()).len() } else { 0 }) by {
        let a = run(Re::Start, s, from(i), s.len());
        assert(ends(r, s, i) == run_all(glob_re(g), s, a, s.len()));
        if i == 0 { assert(a =~= seq![from(0)]); lem_all_one(glob_re(g), s, from(0), s.len()); } else { assert(a =~= Seq::<At>::empty()); }
    }
    lem_glob_run(g, s, 0);
    assert(s.skip(0) =~= s);
    assert(ends(r, s, 0).len() == run(glob_re(g), s, from(0), s.len()).len());
}
}
}
use vx_glob::*;

// What a regular expression matches: the leftmost-first semantics the regex crate documents, over syntax trees.
pub mod vx_re {
use vstd::prelude::*;
use super::vx_text::*; use super::vx_pre::*;
verus! {
/// one character
pub enum Cls { Lit(char), Fold(char), Range(char, char), Dec, Ws, Any, Or(Box<Cls>, Box<Cls>), Not(Box<Cls>) }
pub enum Re { Empty, Set(Cls), Start, End, Cat(Box<Re>, Box<Re>), Alt(Box<Re>, Box<Re>), Star(Box<Re>), Opt(Box<Re>), Group(nat, Box<Re>) }
pub open spec fn in_cls(k: Cls, c: char) -> bool decreases k {
    match k {
        Cls::Lit(d) => c == d, Cls::Fold(d) => sfold(c) == d, Cls::Range(a, b) => a as u32 <= c as u32 && c as u32 <= b as u32, Cls::Dec => is_dec(c), Cls::Ws => is_ws(c), Cls::Any => c != '\n',
        Cls::Or(x, y) => in_cls(*x, c) || in_cls(*y, c), Cls::Not(x) => !in_cls(*x, c),
    }
}
/// a position, and what the groups hold
pub struct At { pub i: int, pub g: Map<nat, (int, int)> }
/// those that got further than `i`
pub open spec fn beyond(ts: Seq<At>, i: int) -> Seq<At> decreases ts.len() { if ts.len() == 0 { ts } else { (if ts[0].i > i { seq![ts[0]] } else { Seq::empty() }) + beyond(ts.drop_first(), i) } }
pub open spec fn close(k: nat, a: int, ts: Seq<At>) -> Seq<At> { Seq::new(ts.len(), |j: int| At { i: ts[j].i, g: ts[j].g.insert(k, (a, ts[j].i)) }) }
/// where matching r from t can end, the preferred ways first; n bounds how often a repetition is taken, each time by a character or more
pub open spec fn run(r: Re, s: Seq<char>, t: At, n: nat) -> Seq<At> decreases r, n, 0nat {
    match r {
        Re::Empty => seq![t],
        Re::Set(k) => if 0 <= t.i < s.len() && in_cls(k, s[t.i]) { seq![At { i: t.i + 1, g: t.g }] } else { Seq::empty() },
        Re::Start => if t.i == 0 { seq![t] } else { Seq::empty() },
        Re::End => if t.i == s.len() { seq![t] } else { Seq::empty() },
        Re::Cat(a, b) => run_all(*b, s, run(*a, s, t, s.len()), s.len()),
        Re::Alt(a, b) => run(*a, s, t, s.len()) + run(*b, s, t, s.len()),
        Re::Opt(a) => run(*a, s, t, s.len()) + seq![t],
        Re::Star(a) => if n == 0 { seq![t] } else { run_all(r, s, beyond(run(*a, s, t, s.len()), t.i), (n - 1) as nat) + seq![t] },
        Re::Group(k, a) => close(k, t.i, run(*a, s, t, s.len())),
    }
}
pub open spec fn run_all(r: Re, s: Seq<char>, ts: Seq<At>, n: nat) -> Seq<At> decreases r, n, 1 + ts.len() { if ts.len() == 0 { Seq::empty() } else { run(r, s, ts[0], n) + run_all(r, s, ts.drop_first(), n) } }
pub open spec fn from(i: int) -> At { At { i, g: Map::empty() } }
pub open spec fn ends(r: Re, s: Seq<char>, i: int) -> Seq<At> { run(r, s, from(i), s.len()) }
/// the first position from i on where r matches, or -1
pub open spec fn seek(r: Re, s: Seq<char>, i: int) -> int decreases s.len() - i + 1 { if i < 0 || i > s.len() { -1 } else if ends(r, s, i).len() > 0 { i } else { seek(r, s, i + 1) } }
/// Regex::is_match
pub open spec fn matches(r: Re, s: Seq<char>) -> bool { seek(r, s, 0) >= 0 }
/// Regex::find_iter, from position i on, the last match having ended at `last`
pub open spec fn finds(r: Re, s: Seq<char>, i: int, last: int) -> Seq<Seq<char>> decreases s.len() - i + 1 {
    let a = seek(r, s, i);
    if i < 0 || a < i || a > s.len() { Seq::empty() } else {
        let b = ends(r, s, a)[0].i;
        if b > a { if b > s.len() { Seq::empty() } else { seq![s.subrange(a, b)] + finds(r, s, b, b) } }
        else if a == last { finds(r, s, a + 1, last) }
        else { seq![Seq::empty()] + finds(r, s, a + 1, a) }
    }
}
/// no '^' in it: with one, find_iter of this version of the regex crate finds more than the documentation says, from the second
/// match on (`^..|\S$$` finds "a2" and "i1" in "a2i1")
pub open spec fn unanchored(r: Re) -> bool decreases r {
    match r { Re::Start => false, Re::Cat(a, b) => unanchored(*a) && unanchored(*b), Re::Alt(a, b) => unanchored(*a) && unanchored(*b), Re::Star(a) => unanchored(*a), Re::Opt(a) => unanchored(*a), Re::Group(_, a) => unanchored(*a), _ => true }
}
/// the number of groups: they are numbered from 1, and one that is repeated can stand in the tree more than once
pub open spec fn groups(r: Re) -> nat decreases r {
    match r { Re::Cat(a, b) => most(groups(*a), groups(*b)), Re::Alt(a, b) => most(groups(*a), groups(*b)), Re::Star(a) => groups(*a), Re::Opt(a) => groups(*a), Re::Group(k, a) => most(k, groups(*a)), _ => 0 }
}
pub open spec fn most(a: nat, b: nat) -> nat { if a < b { b } else { a } }
/// Regex::captures: the whole match and then the groups
pub open spec fn caps(r: Re, s: Seq<char>) -> Option<Seq<Option<Seq<char>>>> {
    let a = seek(r, s, 0);
    if a < 0 { None } else {
        let t = ends(r, s, a)[0];
        Some(Seq::new(groups(r) + 1, |k: int| if k == 0 { Some(s.subrange(a, t.i)) } else if t.g.dom().contains(k as nat) { Some(s.subrange(t.g[k as nat].0, t.g[k as nat].1)) } else { None }))
    }
}
}
}
pub mod vx_re_lem {
use vstd::prelude::*;
use super::vx_text::*; use super::vx_pre::*;
use super::vx_re::*;
verus! {
pub open spec fn plus(a: Re) -> Re { Re::Cat(Box::new(a), Box::new(Re::Star(Box::new(a)))) }
pub open spec fn cat(a: Re, b: Re) -> Re { Re::Cat(Box::new(a), Box::new(b)) }
pub open spec fn alt(a: Re, b: Re) -> Re { Re::Alt(Box::new(a), Box::new(b)) }
/// how many characters from i on are in the class
pub open spec fn span(k: Cls, s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && in_cls(k, s[i]) { 1 + span(k, s, i + 1) } else { 0 } }
/// every end from the furthest back to the start
pub open spec fn down(t: At, m: int) -> Seq<At> { Seq::new((m + 1) as nat, |j: int| At { i: t.i + m - j, g: t.g }) }
pub proof fn lem_span(k: Cls, s: Seq<char>, i: int) requires 0 <= i <= s.len()
    ensures 0 <= span(k, s, i) <= s.len() - i, forall|j: int| i <= j < i + span(k, s, i) ==> in_cls(k, #[trigger] s[j]), i + span(k, s, i) < s.len() ==> !in_cls(k, s[i + span(k, s, i)]) decreases s.len() - i
{ if i < s.len() && in_cls(k, s[i]) { lem_span(k, s, i + 1); } }
pub proof fn lem_all_one(r: Re, s: Seq<char>, t: At, n: nat) ensures run_all(r, s, seq![t], n) == run(r, s, t, n) {
    let ts = seq![t];
    assert(ts.drop_first() =~= Seq::<At>::empty());
    assert(run_all(r, s, ts.drop_first(), n) =~= Seq::<At>::empty());
    assert(run_all(r, s, ts, n) =~= run(r, s, t, n));
}
pub proof fn lem_all_none(r: Re, s: Seq<char>, ts: Seq<At>, n: nat) requires forall|j: int| 0 <= j < ts.len() ==> run(r, s, #[trigger] ts[j], n).len() == 0 ensures run_all(r, s, ts, n).len() == 0 decreases ts.len() {
    if ts.len() > 0 { assert(run(r, s, ts[0], n).len() == 0); let d = ts.drop_first(); assert forall|j: int| 0 <= j < d.len() implies run(r, s, #[trigger] d[j], n).len() == 0 by { assert(d[j] == ts[j + 1]); } lem_all_none(r, s, d, n); }
}
/// the first of the ends from which r matches decides
pub proof fn lem_all_pick(r: Re, s: Seq<char>, ts: Seq<At>, n: nat, k: int) requires 0 <= k < ts.len(), run(r, s, ts[k], n).len() > 0, forall|j: int| 0 <= j < k ==> run(r, s, #[trigger] ts[j], n).len() == 0
    ensures run_all(r, s, ts, n).len() > 0, run_all(r, s, ts, n)[0] == run(r, s, ts[k], n)[0] decreases ts.len()
{
    if k > 0 { assert(run(r, s, ts[0], n).len() == 0); let d = ts.drop_first(); assert(d[k - 1] == ts[k]); assert forall|j: int| 0 <= j < k - 1 implies run(r, s, #[trigger] d[j], n).len() == 0 by { assert(d[j] == ts[j + 1]); } lem_all_pick(r, s, d, n, k - 1); }
}
pub proof fn lem_all_some(r: Re, s: Seq<char>, ts: Seq<At>, n: nat) -> (k: int) requires run_all(r, s, ts, n).len() > 0 ensures 0 <= k < ts.len(), run(r, s, ts[k], n).len() > 0 decreases ts.len() {
    if run(r, s, ts[0], n).len() > 0 { 0 } else { let k = lem_all_some(r, s, ts.drop_first(), n); assert(ts.drop_first()[k] == ts[k + 1]); k + 1 }
}
/// x* for a class x: as many as there are, then fewer and fewer
pub proof fn lem_star(k: Cls, s: Seq<char>, t: At, n: nat) requires 0 <= t.i <= s.len(), n >= s.len() - t.i ensures run(Re::Star(Box::new(Re::Set(k))), s, t, n) == down(t, span(k, s, t.i)) decreases s.len() - t.i {
    let r = Re::Star(Box::new(Re::Set(k)));
    lem_span(k, s, t.i);
    if n > 0 {
        let a = run(Re::Set(k), s, t, s.len());
        if t.i < s.len() && in_cls(k, s[t.i]) {
            let u = At { i: t.i + 1, g: t.g };
            assert(a =~= seq![u]);
            assert(beyond(a, t.i) =~= seq![u]) by { assert(a.drop_first() =~= Seq::empty()); assert(beyond(a.drop_first(), t.i) =~= Seq::empty()); }
            lem_all_one(r, s, u, (n - 1) as nat);
            lem_star(k, s, u, (n - 1) as nat);
            assert(down(u, span(k, s, u.i)) + seq![t] =~= down(t, span(k, s, t.i)));
        } else {
            assert(a =~= Seq::empty());
            assert(beyond(a, t.i) =~= Seq::empty());
            assert(run_all(r, s, beyond(a, t.i), (n - 1) as nat) =~= Seq::empty());
            assert(Seq::<At>::empty() + seq![t] =~= down(t, 0));
        }
    } else { assert(seq![t] =~= down(t, 0)); }
}
/// x+ for a class x
pub proof fn lem_plus(k: Cls, s: Seq<char>, t: At, n: nat) requires 0 <= t.i <= s.len()
    ensures span(k, s, t.i) == 0 ==> run(plus(Re::Set(k)), s, t, n) == Seq::<At>::empty(), span(k, s, t.i) > 0 ==> run(plus(Re::Set(k)), s, t, n) == down(At { i: t.i + 1, g: t.g }, span(k, s, t.i) - 1)
{
    let a = run(Re::Set(k), s, t, s.len());
    let r = Re::Star(Box::new(Re::Set(k)));
    lem_span(k, s, t.i);
    if t.i < s.len() && in_cls(k, s[t.i]) {
        let u = At { i: t.i + 1, g: t.g };
        assert(a =~= seq![u]);
        lem_all_one(r, s, u, s.len());
        lem_star(k, s, u, s.len());
        assert(span(k, s, t.i) == 1 + span(k, s, t.i + 1));
    } else { assert(a =~= Seq::empty()); assert(run_all(r, s, a, s.len()) =~= Seq::empty()); }
}
pub proof fn lem_seek(r: Re, s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures
    seek(r, s, i) == -1 || i <= seek(r, s, i) <= s.len() && ends(r, s, seek(r, s, i)).len() > 0,
    seek(r, s, i) == -1 ==> forall|j: int| i <= j <= s.len() ==> (#[trigger] ends(r, s, j)).len() == 0,
    seek(r, s, i) >= 0 ==> forall|j: int| i <= j < seek(r, s, i) ==> (#[trigger] ends(r, s, j)).len() == 0
    decreases s.len() - i + 1
{
    if ends(r, s, i).len() == 0 { if i < s.len() { lem_seek(r, s, i + 1); } else { assert(seek(r, s, i + 1) == -1); } }
}
pub open spec fn lit(c: char) -> Re { Re::Set(Cls::Lit(c)) }
pub open spec fn ci(c: char) -> Re { Re::Set(Cls::Fold(c)) }
pub open spec fn or(a: Cls, b: Cls) -> Cls { Cls::Or(Box::new(a), Box::new(b)) }
pub proof fn lem_set(k: Cls, s: Seq<char>, t: At, n: nat) ensures run(Re::Set(k), s, t, n) == (if 0 <= t.i < s.len() && in_cls(k, s[t.i]) { seq![At { i: t.i + 1, g: t.g }] } else { Seq::empty() }) { }
pub proof fn lem_cat_set(k: Cls, b: Re, s: Seq<char>, t: At, n: nat)
    ensures run(cat(Re::Set(k), b), s, t, n) == (if 0 <= t.i < s.len() && in_cls(k, s[t.i]) { run(b, s, At { i: t.i + 1, g: t.g }, s.len()) } else { Seq::empty() })
{
    lem_set(k, s, t, s.len());
    if 0 <= t.i < s.len() && in_cls(k, s[t.i]) { lem_all_one(b, s, At { i: t.i + 1, g: t.g }, s.len()); }
    else { assert(run_all(b, s, Seq::<At>::empty(), s.len()) =~= Seq::empty()); }
}
pub proof fn lem_all_has(r: Re, s: Seq<char>, ts: Seq<At>, n: nat, k: int) requires 0 <= k < ts.len(), run(r, s, ts[k], n).len() > 0 ensures run_all(r, s, ts, n).len() > 0 decreases ts.len() {
    if k > 0 { assert(ts.drop_first()[k - 1] == ts[k]); lem_all_has(r, s, ts.drop_first(), n, k - 1); }
}
}
}
// What the regex crate does with a pattern, by the syntax tree of the pattern.
pub mod vx_re_ax {
use vstd::prelude::*;
use super::vx_text::*; use super::vx_pre::*; use super::vx_re::*;
verus! {
/// the syntax tree of a pattern, for those the extractor translates: it adds one fact for every pattern in the code
pub uninterp spec fn re_ast(p: Seq<char>) -> Option<Re>;
pub broadcast axiom fn ax_re_valid(p: Seq<char>) requires re_ast(p) is Some ensures #[trigger] re_valid(p);
pub broadcast axiom fn ax_re_match(p: Seq<char>, s: Seq<char>) requires re_ast(p) is Some ensures #[trigger] re_match(p, s) == matches(re_ast(p).unwrap(), s);
pub broadcast axiom fn ax_re_find(p: Seq<char>, s: Seq<char>) requires re_ast(p) is Some, unanchored(re_ast(p).unwrap()) ensures #[trigger] re_find(p, s) == finds(re_ast(p).unwrap(), s, 0, -1);
pub broadcast axiom fn ax_re_caps(p: Seq<char>, s: Seq<char>) requires re_ast(p) is Some ensures #[trigger] re_caps(p, s) == caps(re_ast(p).unwrap(), s);
}
}
// "dev" and "post" in any letter case
pub mod vx_word_re {
use vstd::prelude::*;
use super::vx_text::*; use super::vx_pre::*;
use super::vx_re::*; use super::vx_re_ax::*; use super::vx_re_lem::*;
verus! {
// ----- (?i) words
pub open spec fn re_dev() -> Re { cat(ci('d'), cat(ci('e'), ci('v'))) }
pub open spec fn re_post() -> Re { cat(ci('p'), cat(ci('o'), cat(ci('s'), ci('t')))) }
pub proof fn lem_dev_at(s: Seq<char>, i: int) ensures 0 <= i ==> (ends(re_dev(), s, i).len() > 0) == ci_at(s, "dev"@, i) {
    reveal_strlit("dev");
    let w = "dev"@;
    assert(w.len() == 3 && w[0] == 'd' && w[1] == 'e' && w[2] == 'v');
    let f = |j: int| from(j);
    lem_cat_set(Cls::Fold('d'), cat(ci('e'), ci('v')), s, from(i), s.len());
    lem_cat_set(Cls::Fold('e'), ci('v'), s, At { i: i + 1, g: Map::empty() }, s.len());
    lem_set(Cls::Fold('v'), s, At { i: i + 1 + 1, g: Map::empty() }, s.len());
    if 0 <= i && ends(re_dev(), s, i).len() > 0 { assert forall|k: int| 0 <= k < w.len() implies sfold(#[trigger] s[i + k]) == w[k] by { if k == 0 { } else if k == 1 { } else { assert(k == 2); } } }
    if 0 <= i && ci_at(s, w, i) { assert(sfold(s[i + 0]) == w[0]); assert(sfold(s[i + 1]) == w[1]); assert(sfold(s[i + 2]) == w[2]); }
}
pub proof fn lem_post_at(s: Seq<char>, i: int) ensures 0 <= i ==> (ends(re_post(), s, i).len() > 0) == ci_at(s, "post"@, i) {
    reveal_strlit("post");
    let w = "post"@;
    assert(w.len() == 4 && w[0] == 'p' && w[1] == 'o' && w[2] == 's' && w[3] == 't');
    lem_cat_set(Cls::Fold('p'), cat(ci('o'), cat(ci('s'), ci('t'))), s, from(i), s.len());
    lem_cat_set(Cls::Fold('o'), cat(ci('s'), ci('t')), s, At { i: i + 1, g: Map::empty() }, s.len());
    lem_cat_set(Cls::Fold('s'), ci('t'), s, At { i: i + 1 + 1, g: Map::empty() }, s.len());
    lem_set(Cls::Fold('t'), s, At { i: i + 1 + 1 + 1, g: Map::empty() }, s.len());
    if 0 <= i && ends(re_post(), s, i).len() > 0 { assert forall|k: int| 0 <= k < w.len() implies sfold(#[trigger] s[i + k]) == w[k] by { if k == 0 { } else if k == 1 { } else if k == 2 { } else { assert(k == 3); } } }
    if 0 <= i && ci_at(s, w, i) { assert(sfold(s[i + 0]) == w[0]); assert(sfold(s[i + 1]) == w[1]); assert(sfold(s[i + 2]) == w[2]); assert(sfold(s[i + 3]) == w[3]); }
}
pub proof fn lem_re_dev(s: Seq<char>) ensures matches(re_dev(), s) == has_ci(s, "dev"@) {
    reveal_strlit("dev");
    lem_seek(re_dev(), s, 0);
    let a = seek(re_dev(), s, 0);
    if a >= 0 { lem_dev_at(s, a); assert(ci_at(s, "dev"@, a)); }
    if has_ci(s, "dev"@) { let i = choose|i: int| #[trigger] ci_at(s, "dev"@, i); lem_dev_at(s, i); assert(ends(re_dev(), s, i).len() > 0); }
}
pub proof fn lem_re_post(s: Seq<char>) ensures matches(re_post(), s) == has_ci(s, "post"@) {
    reveal_strlit("post");
    lem_seek(re_post(), s, 0);
    let a = seek(re_post(), s, 0);
    if a >= 0 { lem_post_at(s, a); assert(ci_at(s, "post"@, a)); }
    if has_ci(s, "post"@) { let i = choose|i: int| #[trigger] ci_at(s, "post"@, i); lem_post_at(s, i); assert(ends(re_post(), s, i).len() > 0); }
}
pub proof fn lem_pat_dev(p: Seq<char>, s: Seq<char>) requires re_ast(p) == Some(re_dev()) ensures re_match(p, s) == has_ci(s, "dev"@) { ax_re_match(p, s); lem_re_dev(s); }
pub proof fn lem_pat_post(p: Seq<char>, s: Seq<char>) requires re_ast(p) == Some(re_post()) ensures re_match(p, s) == has_ci(s, "post"@) { ax_re_match(p, s); lem_re_post(s); }
}
}
use vx_re::*;
use vx_re_ax::*;

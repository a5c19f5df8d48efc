verus! {
// ---------- C14, C15, C18, C19: what a constraint tree is ----------
/// a spec (text, matcher, exact) or an operator with its parts
pub enum T { Leaf(Seq<char>, AM, bool), Node(Combinator, Seq<T>) }
pub open spec fn leaf(s: VersionSpec) -> T { T::Leaf(s.spec_str@, am(s.matcher), s._is_exact) }
pub open spec fn tv(t: VersionSpecOrConstraintTree) -> T decreases t { match t { VersionSpecOrConstraintTree::VersionSpec(s) => leaf(s), VersionSpecOrConstraintTree::ConstraintTree(c) => ctv(c) } }
pub open spec fn ctv(c: ConstraintTree) -> T decreases c { T::Node(c.combinator, Seq::new(c.parts@.len(), |i: int| if 0 <= i < c.parts@.len() { tv(c.parts@[i]) } else { T::Leaf(Seq::empty(), AM::Never, false) })) }
pub open spec fn tvs(s: Seq<VersionSpecOrConstraintTree>) -> Seq<T> { Seq::new(s.len(), |i: int| tv(s[i])) }
pub broadcast proof fn lem_ctv(c: ConstraintTree) ensures #[trigger] ctv(c) == T::Node(c.combinator, tvs(c.parts@)) {
    assert(ctv(c)->Node_1 =~= tvs(c.parts@));
}
pub broadcast proof fn lem_tvs_push(s: Seq<VersionSpecOrConstraintTree>, x: VersionSpecOrConstraintTree) ensures #[trigger] tvs(s.push(x)) == tvs(s).push(tv(x)) { assert(tvs(s.push(x)) =~= tvs(s).push(tv(x))); }
pub broadcast group vx_group_tree { lem_ctv, lem_tvs_push }
/// C15
pub open spec fn t_covered(t: T) -> bool decreases t { match t { T::Leaf(_, m, _) => am_covered(m), T::Node(_, ps) => all_covered(ps) } }
pub open spec fn all_covered(ps: Seq<T>) -> bool decreases ps { forall|i: int| 0 <= i < ps.len() ==> t_covered(#[trigger] ps[i]) }
pub open spec fn t_test(t: T, s: Seq<char>, v: Seq<PV>) -> bool decreases t {
    match t { T::Leaf(_, m, _) => am_test(m, s, v), T::Node(Combinator::And, ps) => t_all(ps, s, v), T::Node(_, ps) => t_any(ps, s, v) }
}
pub open spec fn t_all(ps: Seq<T>, s: Seq<char>, v: Seq<PV>) -> bool decreases ps { forall|i: int| 0 <= i < ps.len() ==> t_test(#[trigger] ps[i], s, v) }
pub open spec fn t_any(ps: Seq<T>, s: Seq<char>, v: Seq<PV>) -> bool decreases ps { exists|i: int| 0 <= i < ps.len() && t_test(#[trigger] ps[i], s, v) }
/// C19
pub open spec fn t_eq(a: T, b: T) -> bool decreases a {
    match (a, b) { (T::Leaf(x, _, _), T::Leaf(y, _, _)) => x == y, (T::Node(c, ps), T::Node(d, qs)) => c == d && t_eqs(ps, qs), _ => false }
}
pub open spec fn t_eqs(ps: Seq<T>, qs: Seq<T>) -> bool decreases ps { ps.len() == qs.len() && forall|i: int| 0 <= i < ps.len() ==> t_eq(#[trigger] ps[i], qs[i]) }
/// C18: the rendering; None: there is none
pub open spec fn sep_of(c: Combinator) -> Seq<char> { match c { Combinator::And => ","@, _ => "|"@ } }
pub open spec fn parens(s: Seq<char>) -> Seq<char> { "("@ + s + ")"@ }
/// the other ways to put it together
pub broadcast proof fn lem_parens(s: Seq<char>) ensures #[trigger] parens(s) == ("("@ + s).push(')'), parens(s) == (Seq::<char>::empty().push('(') + s).push(')'), parens(s) == (Seq::<char>::empty().push('(') + s) + ")"@,
    parens(s) == (Seq::<char>::empty() + "("@ + s) + ")"@, parens(s) == (Seq::<char>::empty() + "("@ + s).push(')'), parens(s) == "("@ + (s + ")"@), parens(s) == "("@ + s.push(')') {
    reveal_strlit("("); reveal_strlit(")");
    assert("("@ =~= Seq::<char>::empty().push('(')); assert(")"@ =~= Seq::<char>::empty().push(')'));
    assert(parens(s) =~= ("("@ + s).push(')')); assert(Seq::<char>::empty() + "("@ =~= "("@); assert(parens(s) =~= "("@ + (s + ")"@)); assert(parens(s) =~= "("@ + s.push(')'));
}
pub open spec fn renders(t: T) -> bool decreases t {
    match t {
        T::Leaf(_, _, _) => true,
        T::Node(_, ps) => ps.len() > 0 && (ps.len() == 1 ==> ps[0] is Leaf) && all_render(ps),
    }
}
pub open spec fn all_render(ps: Seq<T>) -> bool decreases ps { forall|i: int| 0 <= i < ps.len() ==> renders(#[trigger] ps[i]) }
/// the text of a tree; `nested`: as a part of another one
pub open spec fn render(t: T, nested: bool) -> Seq<char> decreases t {
    match t {
        T::Leaf(s, _, _) => s,
        T::Node(c, ps) => {
            let s = joined_with(rendered(ps), sep_of(c));
            if ps.len() == 1 { render(ps[0], true) } else if nested { parens(s) } else { s }
        },
    }
}
pub open spec fn rendered(ps: Seq<T>) -> Seq<Seq<char>> decreases ps { Seq::new(ps.len(), |i: int| if 0 <= i < ps.len() { render(ps[i], true) } else { Seq::empty() }) }
pub open spec fn render_result(t: T, nested: bool, r: Result<String, String>) -> bool { match r { Ok(s) => renders(t) && s@ == render(t, nested), Err(_) => !renders(t) } }
}

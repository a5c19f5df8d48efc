verus! {
/// C19 about the running code
pub fn thm_c19_spec(a: &VersionSpec, b: &VersionSpec) { let r = a == b; assert(r == (a.spec_str@ == b.spec_str@)); }
pub fn thm_c19_tree(a: &ConstraintTree, b: &ConstraintTree) {
    let r = a == b;
    proof { lem_ctv(*a); lem_ctv(*b); }
    let ghost (x, y) = (tvs(a.parts@), tvs(b.parts@));
    assert(r == (a.combinator == b.combinator && x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> t_eq(#[trigger] x[i], y[i])));
}
pub fn thm_c19_mixed(a: VersionSpec, b: ConstraintTree) {
    let (x, y) = (VersionSpecOrConstraintTree::VersionSpec(a), VersionSpecOrConstraintTree::ConstraintTree(b));
    proof { lem_ctv(b); }
    let r = x == y; let q = y == x;
    assert(!r && !q);
}
pub proof fn thm_c19_equivalence(a: T, b: T, c: T) ensures t_eq(a, a), t_eq(a, b) == t_eq(b, a), t_eq(a, b) && t_eq(b, c) ==> t_eq(a, c) decreases a {
    if let T::Node(_, ps) = a {
        assert forall|i: int| 0 <= i < ps.len() implies t_eq(#[trigger] ps[i], ps[i]) by { thm_c19_equivalence(ps[i], ps[i], ps[i]); }
        if let T::Node(_, qs) = b {
            if ps.len() == qs.len() { assert forall|i: int| 0 <= i < ps.len() implies t_eq(#[trigger] ps[i], qs[i]) == t_eq(qs[i], ps[i]) by { thm_c19_equivalence(ps[i], qs[i], qs[i]); } }
            if t_eqs(qs, ps) { assert forall|i: int| 0 <= i < ps.len() implies t_eq(#[trigger] ps[i], qs[i]) by { assert(t_eq(qs[i], ps[i])); } }
            if t_eqs(ps, qs) { assert forall|i: int| 0 <= i < qs.len() implies t_eq(#[trigger] qs[i], ps[i]) by { assert(t_eq(ps[i], qs[i])); } }
            if let T::Node(_, rs) = c { if t_eqs(ps, qs) && t_eqs(qs, rs) { assert forall|i: int| 0 <= i < ps.len() implies t_eq(#[trigger] ps[i], rs[i]) by { thm_c19_equivalence(ps[i], qs[i], rs[i]); assert(t_eq(qs[i], rs[i])); } } }
        }
    }
}
}

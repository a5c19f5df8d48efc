verus! {
/// C15 about the running code
pub fn thm_c15_exec(c: &ConstraintTree, v: &Version, t: &str) requires t_covered(ctv(*c)) {
    proof { lem_ctv(*c); }
    let r = c.test_match_version(v);
    let ghost ps = tvs(c.parts@);
    assert(c.combinator is And ==> (r <==> forall|i: int| 0 <= i < ps.len() ==> t_test(#[trigger] ps[i], v.version@, v@)));
    assert(!(c.combinator is And) ==> (r <==> exists|i: int| 0 <= i < ps.len() && t_test(#[trigger] ps[i], v.version@, v@)));
    match t.vx_parse::<Version>() { Ok(w) => { let a = c.test_match(t); let b = c.test_match_version(&w); assert(a == b); } Err(_) => {} }
}
pub fn thm_c15_part(p: &VersionSpecOrConstraintTree, v: &Version, t: &str) requires t_covered(tv(*p)) {
    let r = p.test_match_version(v);
    match p { VersionSpecOrConstraintTree::VersionSpec(x) => { assert(r == m_test(x.matcher, *v)); } VersionSpecOrConstraintTree::ConstraintTree(c) => { let q = c.test_match_version(v); assert(r == q); } }
    match t.vx_parse::<Version>() { Ok(w) => { let a = p.test_match(t); let b = p.test_match_version(&w); assert(a == b); } Err(_) => {} }
}
}

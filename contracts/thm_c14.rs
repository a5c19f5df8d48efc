verus! {
/// C14: a tree is never exact and reports its rendering
pub fn thm_c14_tree(c: &ConstraintTree) {
    let (e, x) = (c.is_exact(), c.exact_value());
    assert(!e && x is None);
}
pub fn thm_c14_render(c: &ConstraintTree) requires renders(ctv(*c)) {
    let (g, r) = (c.get_spec(), c.raw_value());
    assert(g@ == render(ctv(*c), false) && r@ == g@);
}
}

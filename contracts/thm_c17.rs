verus! {
/// C17 about the running code
pub fn thm_c17_exec(s: &str, v: &Version) requires forall|x: E| #[trigger] derives(x, tokens_of(s@)) ==> t_covered(as_tree(build(x))) {
    proof { lem_tokens_first(s@); thm_c16_sound(tokens_of(s@)); }
    match treeify(s) {
        Ok(tree) => {
            let ghost x = match fin(tokens_of(s@)) { Some(E::Par(x)) => *x, _ => arbitrary() };
            assert(derives(x, tokens_of(s@)));
            proof { thm_c17_match(x, v.version@, v@); thm_c17_specs(x); thm_c17_flat(x); }
            assert(t_specs(ctv(tree)) == e_specs(x));
            assert(ctv(tree) matches T::Node(c, ps) && (is_flat(ctv(tree)) || (c is None && ps.len() == 1 && ps[0] is Leaf)));
            let r = tree.test_match_version(v);
            assert(r == e_test(x, v.version@, v@));
        }
        Err(_) => {}
    }
}
}

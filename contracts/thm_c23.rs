verus! {
/// C23 about the running code: an empty list and a list without operator are errors; a good one has the parts it lists, in order
pub fn thm_c23_exec(l: Vec<&str>) {
    let ghost ts = views(l@);
    match ConstraintTree::try_from(l) {
        Ok(t) => {
            assert(ts.len() > 0 && (ts[0] == ","@ || ts[0] == "|"@));
            proof { lem_ctv(t); lem_paren_len(); }
            assert(t.combinator == (if ts[0] == ","@ { Combinator::And } else { Combinator::Or }));
            assert(t.parts@.len() == ts.len() - 1) by { assert(tvs(t.parts@).len() == list_parts(ts).len()); }
            proof { assert forall|i: int| 0 <= i < t.parts@.len() implies Some(tv(#[trigger] t.parts@[i])) == part_of(ts[i + 1]) by { assert(tvs(t.parts@)[i] == list_parts(ts)[i]); } }
        }
        Err(_) => { assert(ts.len() == 0 || (ts[0] != ","@ && ts[0] != "|"@) || exists|i: int| 1 <= i < ts.len() && part_of(#[trigger] ts[i]) is None); }
    }
}
/// a text with one of ( ) | , ^ $ gives a tree, any other a spec
pub fn thm_c23_text(s: &str) {
    match VersionSpecOrConstraintTree::try_from(s) {
        Ok(VersionSpecOrConstraintTree::ConstraintTree(c)) => { assert(tv(VersionSpecOrConstraintTree::ConstraintTree(c)) == ctv(c)); proof { if !compound(s@) { lem_ctv(c); } } assert(compound(s@) && tree_of(s@) == Some(ctv(c))); }
        Ok(VersionSpecOrConstraintTree::VersionSpec(x)) => { proof { if compound(s@) { assert(tv(VersionSpecOrConstraintTree::VersionSpec(x)) is Leaf); } } assert(!compound(s@) && meaning(s@) is Some && x.spec_str@ == s@); }
        Err(_) => { assert(if compound(s@) { tree_of(s@) is None } else { meaning(s@) is None }); }
    }
}
}

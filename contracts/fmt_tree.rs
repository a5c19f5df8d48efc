verus! {
pub open spec fn op_shown(c: Combinator) -> Seq<char> { match c { Combinator::And => "&"@, Combinator::Or => "|"@, Combinator::None => Seq::empty() } }
/// a part: a spec as its quoted text, a tree as its operator with its parts
pub open spec fn part_shown(t: T) -> Seq<char> decreases t, 0int { match t { T::Leaf(s, _, _) => quoted(s), T::Node(c, ps) => op_shown(c) + list_debug(parts_shown(ps), true) } }
pub open spec fn parts_shown(ps: Seq<T>) -> Seq<Seq<char>> decreases ps, 1int { Seq::new(ps.len(), |i: int| if 0 <= i < ps.len() { part_shown(ps[i]) } else { Seq::empty() }) }
/// a tree: with {:#?} like a part, with {:?} as its quoted rendering if it has one
pub open spec fn tree_shown(t: T, alt: bool) -> Seq<char> { if !alt && t is Node && renders(t) { quoted(render(t, false)) } else { part_shown(t) } }
pub open spec fn weight(t: T) -> nat decreases t { match t { T::Leaf(_, _, _) => 1, T::Node(_, ps) => 1 + wsum(weights(ps)) } }
pub open spec fn weights(ps: Seq<T>) -> Seq<nat> decreases ps { Seq::new(ps.len(), |i: int| if 0 <= i < ps.len() { weight(ps[i]) } else { 0 }) }
pub open spec fn wsum(s: Seq<nat>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { wsum(s.drop_last()) + s.last() } }
pub proof fn lem_wsum(s: Seq<nat>, i: int) requires 0 <= i < s.len() ensures s[i] <= wsum(s) decreases s.len() { if i < s.len() - 1 { lem_wsum(s.drop_last(), i); assert(s.drop_last()[i] == s[i]); } }
pub proof fn lem_weight(c: Combinator, ps: Seq<T>, i: int) requires 0 <= i < ps.len() ensures weight(ps[i]) < weight(T::Node(c, ps)) {
    lem_wsum(weights(ps), i);
    assert(weights(ps)[i] == weight(ps[i]));
}
pub proof fn lem_weight_pos(t: T) ensures weight(t) > 0 {}
impl Combinator { pub open spec fn vx_rank_debug(&self) -> nat { 0 } }
impl VxDebug for Combinator { open spec fn vx_debugged(&self, alt: bool) -> Seq<char> { op_shown(*self) } open spec fn vx_debug_below(&self, n: nat) -> bool { self.vx_rank_debug() < n } #[verifier::external_body] fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl ConstraintTree { pub open spec fn vx_rank_debug(&self) -> nat { 2 * weight(ctv(*self)) } }
impl VxDebug for ConstraintTree { open spec fn vx_debugged(&self, alt: bool) -> Seq<char> { tree_shown(ctv(*self), alt) } open spec fn vx_debug_below(&self, n: nat) -> bool { self.vx_rank_debug() < n } #[verifier::external_body] fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl VersionSpecOrConstraintTree { pub open spec fn vx_rank_debug(&self) -> nat { 2 * weight(tv(*self)) + 1 } }
impl VxDebug for VersionSpecOrConstraintTree { open spec fn vx_debugged(&self, alt: bool) -> Seq<char> { part_shown(tv(*self)) } open spec fn vx_debug_below(&self, n: nat) -> bool { self.vx_rank_debug() < n } #[verifier::external_body] fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
}

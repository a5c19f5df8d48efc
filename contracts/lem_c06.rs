verus! {
/// C06: testing with the inverted operator gives the opposite answer
pub proof fn thm_c06_inverse(op: CompOp, a: Seq<PV>, b: Seq<PV>) requires covered_op(op) ensures covered_op(inverse(op)), holds(inverse(op), a, b) == !holds(op, a, b) { }
/// C06: testing with the flipped operator and swapped versions gives the same answer (starts-with has no direction to flip)
pub proof fn thm_c06_flip(op: CompOp, a: Seq<PV>, b: Seq<PV>) requires covered_op(op), !(op is StartsWith), !(op is NotStartsWith) ensures holds(flipped(op), b, a) == holds(op, a, b) { thm_c05_reverse(a, b); }
/// C06 about the running code: native operators, operator values, inverted and flipped operators all agree with one comparison
pub fn thm_c06_exec(a: &Version, b: &Version, op: &CompOp) requires covered_op(*op)
{
    let c = a.compare_version(b);
    let (l, le_, g, ge, e, n) = (a < b, a <= b, a > b, a >= b, a == b, a != b);
    assert(l == (c is Lt) && le_ == !(c is Gt) && g == (c is Gt) && ge == !(c is Lt) && e == (c is Eq) && n == !(c is Eq));
    assert(a.compare_to_version_spec(b, CompOp::Lt) == l);
    let t1 = a.compare_to_version(b, op);
    let t2 = a.compare_to_version(b, &op.invert());
    proof { thm_c06_inverse(*op, a@, b@); }
    assert(t1 == !t2);
    match op {
        CompOp::StartsWith | CompOp::NotStartsWith => {},
        _ => {
            let t3 = b.compare_to_version(a, &op.flip());
            proof { thm_c06_flip(*op, a@, b@); }
            assert(t1 == t3);
        }
    }
}
impl Version { pub open spec fn compare_to_version_spec(&self, b: &Version, op: CompOp) -> bool { holds(op, self@, b@) } }
}

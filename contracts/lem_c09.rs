verus! {
/// C09: every version starts with itself and with any prefix of its components
pub proof fn thm_c09_prefix(a: Seq<PV>, n: int) requires 0 <= n <= a.len() ensures starts(a, a.take(n)), starts(a, a) {
    assert forall|i: int| 0 <= i < a.len() implies pcmp(#[trigger] a[i], a[i]) == Ordering::Equal by { lem_pcmp_refl(a[i]); }
}
pub fn thm_c09_exec(a: &Version, b: &Version) {
    let r = a.startswith(a);
    proof { thm_c09_prefix(a@, a@.len() as int); }
    assert(r);
    let s = a.startswith(b);
    assert(s ==> b@.len() <= a@.len());
}
}

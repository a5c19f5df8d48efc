verus! {
// ---------- C05: comparison is a consistent order ----------
pub open spec fn le(o: Ordering) -> bool { o != Ordering::Greater }
/// from a<=b and b<=c: a<=c, strictly if either is strict
pub open spec fn chain(ab: Ordering, bc: Ordering, ac: Ordering) -> bool {
    le(ab) && le(bc) ==> le(ac) && (ab == Ordering::Less || bc == Ordering::Less ==> ac == Ordering::Less)
}
pub proof fn lem_lex_refl(a: Seq<char>) ensures lex(a, a) == Ordering::Equal decreases a.len() { if a.len() > 0 { lem_lex_refl(a.drop_first()); } }
pub proof fn lem_lex_rev(a: Seq<char>, b: Seq<char>) ensures lex(b, a) == rev(lex(a, b)) decreases a.len() {
    if a.len() > 0 && b.len() > 0 { lem_lex_rev(a.drop_first(), b.drop_first()); }
}
pub proof fn lem_lex_eq(a: Seq<char>, b: Seq<char>) requires lex(a, b) == Ordering::Equal ensures a == b decreases a.len() {
    if a.len() > 0 && b.len() > 0 {
        lem_lex_eq(a.drop_first(), b.drop_first());
        assert(a[0] as int == b[0] as int);
        assert(a[0] == b[0]);
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    } else { assert(a =~= b); }
}
pub proof fn lem_lex_chain(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures chain(lex(a, b), lex(b, c), lex(a, c)) decreases a.len() {
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { lem_lex_chain(a.drop_first(), b.drop_first(), c.drop_first()); }
}
pub open spec fn text_class(a: Seq<char>) -> int { if has_ci(a, "post"@) { 3 } else if a.len() == 0 { 2 } else if has_ci(a, "dev"@) { 0 } else { 1 } }
pub proof fn lem_text_cmp(a: Seq<char>, b: Seq<char>)
    ensures text_cmp(a, b) == (if text_class(a) == 1 && text_class(b) == 1 { lex(fold(a), fold(b)) } else { icmp(text_class(a), text_class(b)) })
{ }
pub proof fn lem_pcmp_refl(a: PV) ensures pcmp(a, a) == Ordering::Equal {
    match a { PV::Lex(s) => lem_lex_refl(s), PV::Text(s) => { lem_text_cmp(s, s); lem_lex_refl(fold(s)); }, _ => {} }
}
pub proof fn lem_pcmp_rev(a: PV, b: PV) ensures pcmp(b, a) == rev(pcmp(a, b)) {
    match (a, b) { (PV::Lex(s), PV::Lex(t)) => lem_lex_rev(s, t), (PV::Text(s), PV::Text(t)) => { lem_text_cmp(s, t); lem_text_cmp(t, s); lem_lex_rev(fold(s), fold(t)); }, _ => {} }
}
pub proof fn lem_pcmp_chain(a: PV, b: PV, c: PV) ensures chain(pcmp(a, b), pcmp(b, c), pcmp(a, c)) {
    match (a, b, c) {
        (PV::Lex(s), PV::Lex(t), PV::Lex(u)) => lem_lex_chain(s, t, u),
        (PV::Text(s), PV::Text(t), PV::Text(u)) => { lem_text_cmp(s, t); lem_text_cmp(t, u); lem_text_cmp(s, u); lem_lex_chain(fold(s), fold(t), fold(u)); },
        _ => {},
    }
}
/// C05: every version equals itself
pub proof fn thm_c05_reflexive(a: Seq<PV>) ensures vcmp(a, a) == Ordering::Equal decreases a.len() {
    if a.len() > 0 { lem_pcmp_refl(a[0]); thm_c05_reflexive(tl(a)); }
}
/// C05: comparing b with a gives the reverse of comparing a with b
pub proof fn thm_c05_reverse(a: Seq<PV>, b: Seq<PV>) ensures vcmp(b, a) == rev(vcmp(a, b)) decreases a.len() + b.len() {
    if a.len() > 0 || b.len() > 0 {
        if a.len() > 0 && b.len() > 0 { lem_pcmp_rev(a[0], b[0]); } else if a.len() > 0 { lem_pcmp_rev(a[0], zero(a[0])); } else { lem_pcmp_rev(b[0], zero(b[0])); }
        thm_c05_reverse(tl(a), tl(b));
    }
}
/// C05: two versions are equal exactly when neither is less
pub proof fn thm_c05_equal(a: Seq<PV>, b: Seq<PV>) ensures vcmp(a, b) == Ordering::Equal <==> vcmp(a, b) != Ordering::Less && vcmp(b, a) != Ordering::Less { thm_c05_reverse(a, b); }
/// the domain of transitivity: at position i either all three have a component, or those that do share a kind
pub open spec fn same_kind_or_all(a: Seq<PV>, b: Seq<PV>, c: Seq<PV>, i: int) -> bool {
    (i < a.len() && i < b.len() && i < c.len())
    || ((i < a.len() && i < b.len() ==> rank(a[i]) == rank(b[i])) && (i < b.len() && i < c.len() ==> rank(b[i]) == rank(c[i])) && (i < a.len() && i < c.len() ==> rank(a[i]) == rank(c[i])))
}
pub open spec fn in_domain(a: Seq<PV>, b: Seq<PV>, c: Seq<PV>) -> bool { forall|i: int| 0 <= i ==> #[trigger] same_kind_or_all(a, b, c, i) }
pub open spec fn padded(a: Seq<PV>, r: PV) -> PV { if a.len() > 0 { a[0] } else { zero(r) } }
/// C05: comparison is transitive there
pub proof fn thm_c05_transitive(a: Seq<PV>, b: Seq<PV>, c: Seq<PV>) requires in_domain(a, b, c) ensures chain(vcmp(a, b), vcmp(b, c), vcmp(a, c)) decreases a.len() + b.len() + c.len() {
    if a.len() > 0 || b.len() > 0 || c.len() > 0 {
        assert(same_kind_or_all(a, b, c, 0));
        let r = if a.len() > 0 { a[0] } else if b.len() > 0 { b[0] } else { c[0] };
        let (x, y, z) = (padded(a, r), padded(b, r), padded(c, r));
        lem_pcmp_chain(x, y, z);
        lem_pcmp_refl(zero(r));
        assert(head_cmp(a, b) == pcmp(x, y));
        assert(head_cmp(b, c) == pcmp(y, z));
        assert(head_cmp(a, c) == pcmp(x, z));
        assert forall|i: int| 0 <= i implies #[trigger] same_kind_or_all(tl(a), tl(b), tl(c), i) by { assert(same_kind_or_all(a, b, c, i + 1)); }
        thm_c05_transitive(tl(a), tl(b), tl(c));
    }
}
/// the same facts about the running code, through its contracts
pub fn thm_c05_exec(a: &Version, b: &Version, c: &Version)
{
    let r = a.compare_version(a);
    proof { thm_c05_reflexive(a@); }
    assert(r == CompOp::Eq);
    let ab = a.compare_version(b);
    let ba = b.compare_version(a);
    proof { thm_c05_reverse(a@, b@); }
    assert(ba == op_of(rev(vcmp(a@, b@))));
    assert((ab is Lt) == (ba is Gt) && (ab is Gt) == (ba is Lt) && (ab is Eq) == (ba is Eq));
    let e = a == b;
    let l = a < b;
    let g = b < a;
    assert(e == (!l && !g));
    let bc = b.compare_version(c);
    let ac = a.compare_version(c);
    proof { if in_domain(a@, b@, c@) { thm_c05_transitive(a@, b@, c@); } }
    assert(in_domain(a@, b@, c@) && !(ab is Gt) && !(bc is Gt) ==> !(ac is Gt) && (ab is Lt || bc is Lt ==> ac is Lt));
}
}

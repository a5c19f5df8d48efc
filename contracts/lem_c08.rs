verus! {
/// C08: the fixed ranking of kinds, whatever the values
pub proof fn thm_c08_ranking(e: int, i: int, l: Seq<char>, t: Seq<char>)
    ensures
        pcmp(PV::Epoch(e), PV::Int(i)) == Ordering::Greater, pcmp(PV::Int(i), PV::Lex(l)) == Ordering::Greater, pcmp(PV::Lex(l), PV::Text(t)) == Ordering::Greater, pcmp(PV::Text(t), PV::Empty) == Ordering::Greater,
        pcmp(PV::Empty, PV::Empty) == Ordering::Equal,
{ }
pub proof fn thm_c08_kinds(a: PV, b: PV) ensures rank(a) != rank(b) ==> pcmp(a, b) == icmp(rank(a), rank(b)) { }
/// equality of components is exactly 'compares as equal', and the zero of each kind is of that kind
pub fn thm_c08_exec(a: &VersionPart, b: &VersionPart) {
    let (e, c, z) = (a == b, a.partial_cmp(b), a.get_empty());
    assert(e == (c == Some(Ordering::Equal)));
    assert(rank(pv(z)) == rank(pv(*a)));
    assert(match pv(z) { PV::Epoch(n) => n == 0, PV::Int(n) => n == 0, PV::Lex(s) => s.len() == 0, PV::Text(s) => s.len() == 0, PV::Empty => true });
}
}

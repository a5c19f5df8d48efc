verus! {
pub open spec fn no_edge_ws(s: Seq<char>) -> bool { s.len() > 0 && !is_ws(s[0]) && !is_ws(s.last()) }
pub proof fn lem_trimmed_id(s: Seq<char>) requires no_edge_ws(s) ensures trimmed(s) == s { }
/// signs and names are distinct, non-empty, and have no whitespace around them
pub proof fn thm_c10_distinct(a: CompOp, b: CompOp)
    ensures sign_of(a) == sign_of(b) ==> a == b, name_of(a) == name_of(b) ==> a == b, trimmed(sign_of(a)) == sign_of(a), trimmed(name_of(a)) == name_of(a), lowered(name_of(a)) == name_of(a), ascii(name_of(a))
{
    reveal_strlit("=="); reveal_strlit("!="); reveal_strlit("<"); reveal_strlit("<="); reveal_strlit(">="); reveal_strlit(">"); reveal_strlit("="); reveal_strlit("!=startswith"); reveal_strlit("~="); reveal_strlit("!~=");
    reveal_strlit("eq"); reveal_strlit("ne"); reveal_strlit("lt"); reveal_strlit("le"); reveal_strlit("ge"); reveal_strlit("gt"); reveal_strlit("startswith"); reveal_strlit("notstartswith"); reveal_strlit("compatible"); reveal_strlit("incompatible");
    assert(no_edge_ws(sign_of(a)));
    assert(no_edge_ws(name_of(a)));
    assert(ascii(name_of(a)));
    assert(lowered(name_of(a)) =~= name_of(a));
    if sign_of(a) == sign_of(b) { assert(sign_of(a).len() == sign_of(b).len()); assert(sign_of(a)[0] == sign_of(b)[0]); if sign_of(a).len() > 1 { assert(sign_of(a)[1] == sign_of(b)[1]); } }
    if name_of(a) == name_of(b) { assert(name_of(a).len() == name_of(b).len()); assert(name_of(a)[0] == name_of(b)[0]); assert(name_of(a)[1] == name_of(b)[1]); }
}
/// C10 about the running code: an operator's own sign and name find it again, whatever the whitespace and ASCII letter case around
pub fn thm_c10_lookup(c: CompOp, sign: &str, name: &str) requires trimmed(sign@) == sign_of(c), lowered(trimmed(name@)) == name_of(c) {
    let r = CompOp::from_sign(sign);
    let q = CompOp::from_name(name);
    proof { assert forall|d: CompOp| sign_of(d) == sign_of(c) implies d == c by { thm_c10_distinct(c, d); }
        assert forall|d: CompOp| name_of(d) == name_of(c) implies d == c by { thm_c10_distinct(c, d); } 
        let f = sign_fn(); assert(f(c) == trimmed(sign@));
        let g = name_fn(); assert(g(c) == lowered(trimmed(name@))); }
    assert(r == Ok::<CompOp, ()>(c));
    assert(q == Ok::<CompOp, ()>(c));
}
pub fn thm_c10_own(c: CompOp) {
    let r = CompOp::from_sign(c.sign());
    let q = CompOp::from_name(c.name());
    proof { assert forall|d: CompOp| sign_of(d) == sign_of(c) implies d == c by { thm_c10_distinct(c, d); }
        assert forall|d: CompOp| name_of(d) == name_of(c) implies d == c by { thm_c10_distinct(c, d); } 
        thm_c10_distinct(c, c);
        let f = sign_fn(); assert(f(c) == sign_of(c));
        let g = name_fn(); assert(g(c) == name_of(c)); }
    assert(r == Ok::<CompOp, ()>(c));
    assert(q == Ok::<CompOp, ()>(c));
    let (i2, o2, f2) = (c.invert().invert(), c.opposite().opposite(), c.flip().flip());
    assert(i2 == c && o2 == c && f2 == c);
    let (ai, ao, af, i, p, f) = (c.as_inverted(), c.as_opposite(), c.as_flipped(), c.invert(), c.opposite(), c.flip());
    assert(ai == i && ao == p && af == f);
    let o = c.ord();
    match o { Some(x) => { let y = CompOp::from_ord(x); assert(y == c); }, None => {} }
    let (k, ko, kf) = (c.factor(), c.opposite().factor(), c.flip().factor());
    assert(ko == -k && kf == -k);
}
}

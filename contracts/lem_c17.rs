verus! {
// ---------- C17: what a parsed expression means ----------
pub open spec fn comb(c: Combinator, a: bool, b: bool) -> bool { match c { Combinator::And => a && b, _ => a || b } }
pub open spec fn t_part(c: Combinator, ps: Seq<T>, s: Seq<char>, v: Seq<PV>) -> bool { match c { Combinator::And => t_all(ps, s, v), _ => t_any(ps, s, v) } }
pub proof fn lem_node(c: Combinator, ps: Seq<T>, s: Seq<char>, v: Seq<PV>) ensures t_test(T::Node(c, ps), s, v) == t_part(c, ps, s, v) {}
pub proof fn lem_two(c: Combinator, a: Seq<T>, b: Seq<T>, s: Seq<char>, v: Seq<PV>) ensures t_part(c, a + b, s, v) == comb(c, t_part(c, a, s, v), t_part(c, b, s, v)) {
    let ab = a + b;
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == ab[i] by {}
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == ab[a.len() + i] by {}
    if c is And {
        if t_all(ab, s, v) {
            assert forall|i: int| 0 <= i < a.len() implies t_test(#[trigger] a[i], s, v) by { assert(t_test(ab[i], s, v)); }
            assert forall|i: int| 0 <= i < b.len() implies t_test(#[trigger] b[i], s, v) by { assert(t_test(ab[a.len() + i], s, v)); }
        }
        if t_all(a, s, v) && t_all(b, s, v) { assert forall|i: int| 0 <= i < ab.len() implies t_test(#[trigger] ab[i], s, v) by { if i < a.len() { assert(ab[i] == a[i]); } else { assert(ab[i] == b[i - a.len()]); } } }
    } else {
        if t_any(ab, s, v) { let i = choose|i: int| 0 <= i < ab.len() && t_test(#[trigger] ab[i], s, v); if i < a.len() { assert(t_test(a[i], s, v)); } else { assert(t_test(b[i - a.len()], s, v)); } }
        if t_any(a, s, v) { let i = choose|i: int| 0 <= i < a.len() && t_test(#[trigger] a[i], s, v); assert(t_test(ab[i], s, v)); }
        if t_any(b, s, v) { let i = choose|i: int| 0 <= i < b.len() && t_test(#[trigger] b[i], s, v); assert(t_test(ab[a.len() + i], s, v)); }
    }
}
pub proof fn lem_one(c: Combinator, t: T, s: Seq<char>, v: Seq<PV>) ensures t_part(c, seq![t], s, v) == t_test(t, s, v) {
    let ps = seq![t];
    assert(ps[0] == t);
    if t_test(t, s, v) { assert(t_test(ps[0], s, v)); }
}
pub proof fn lem_parts_for(c: Combinator, t: T, s: Seq<char>, v: Seq<PV>) ensures t_part(c, parts_for(c, t), s, v) == t_test(t, s, v) {
    match t { T::Node(d, ps) => { if d == c { lem_node(c, ps, s, v); } else { lem_one(c, t, s, v); } } T::Leaf(_, _, _) => lem_one(c, t, s, v) }
}
/// the tree matches exactly when the expression does
pub proof fn thm_c17_match(e: E, s: Seq<char>, v: Seq<PV>) ensures t_test(build(e), s, v) == e_test(e, s, v), t_test(as_tree(build(e)), s, v) == e_test(e, s, v) decreases e {
    match e {
        E::Spec(t) => { lem_node(Combinator::None, seq![build(e)], s, v); lem_one(Combinator::None, build(e), s, v); }
        E::Par(x) => { thm_c17_match(*x, s, v); }
        E::Bin(c, l, r) => {
            thm_c17_match(*l, s, v); thm_c17_match(*r, s, v);
            let (a, b) = (build(*l), build(*r));
            lem_node(c, parts_for(c, a) + parts_for(c, b), s, v);
            lem_two(c, parts_for(c, a), parts_for(c, b), s, v);
            lem_parts_for(c, a, s, v); lem_parts_for(c, b, s, v);
        }
    }
}
/// the texts of a tree's specs, in order
pub open spec fn t_specs(t: T) -> Seq<Seq<char>> decreases t, 1int { match t { T::Leaf(s, _, _) => seq![s], T::Node(_, ps) => ts_specs(t, ps.len() as int) } }
pub open spec fn ts_specs(t: T, n: int) -> Seq<Seq<char>> decreases t, 0int, n { match t { T::Node(_, ps) => if 0 < n <= ps.len() { ts_specs(t, n - 1) + t_specs(ps[n - 1]) } else { Seq::empty() }, _ => Seq::empty() } }
pub proof fn lem_specs_prefix(c: Combinator, a: Seq<T>, d: Combinator, b: Seq<T>, n: int) requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures ts_specs(T::Node(c, a), n) == ts_specs(T::Node(d, b), n) decreases n {
    if n > 0 { lem_specs_prefix(c, a, d, b, n - 1); assert(a[n - 1] == b[n - 1]); }
}
pub proof fn lem_specs_cat(c: Combinator, a: Seq<T>, b: Seq<T>, n: int) requires 0 <= n <= b.len() ensures ts_specs(T::Node(c, a + b), a.len() + n) == ts_specs(T::Node(c, a), a.len() as int) + ts_specs(T::Node(c, b), n) decreases n {
    if n > 0 {
        lem_specs_cat(c, a, b, n - 1);
        assert((a + b)[a.len() + n - 1] == b[n - 1]);
        assert(ts_specs(T::Node(c, a + b), a.len() + n) == ts_specs(T::Node(c, a + b), a.len() + n - 1) + t_specs(b[n - 1]));
        assert(ts_specs(T::Node(c, a + b), a.len() + n) =~= ts_specs(T::Node(c, a), a.len() as int) + ts_specs(T::Node(c, b), n));
    } else { lem_specs_prefix(c, a + b, c, a, a.len() as int); assert(ts_specs(T::Node(c, a), a.len() as int) + Seq::<Seq<char>>::empty() =~= ts_specs(T::Node(c, a), a.len() as int)); }
}
pub proof fn lem_specs_one(c: Combinator, t: T) ensures t_specs(T::Node(c, seq![t])) == t_specs(t) {
    let n = T::Node(c, seq![t]);
    assert(ts_specs(n, 0) =~= Seq::empty());
    assert(ts_specs(n, 1) == ts_specs(n, 0) + t_specs(seq![t][0]));
    assert(Seq::<Seq<char>>::empty() + t_specs(t) =~= t_specs(t));
}
pub proof fn lem_specs_for(c: Combinator, t: T) ensures t_specs(T::Node(c, parts_for(c, t))) == t_specs(t) {
    match t { T::Node(d, ps) => { if d != c { lem_specs_one(c, t); } } T::Leaf(_, _, _) => lem_specs_one(c, t) }
}
/// its specs are those of the expression, in order
pub proof fn thm_c17_specs(e: E) ensures t_specs(build(e)) == e_specs(e), t_specs(as_tree(build(e))) == e_specs(e) decreases e {
    match e {
        E::Spec(t) => { lem_specs_one(Combinator::None, build(e)); }
        E::Par(x) => thm_c17_specs(*x),
        E::Bin(c, l, r) => {
            thm_c17_specs(*l); thm_c17_specs(*r);
            let (a, b) = (parts_for(c, build(*l)), parts_for(c, build(*r)));
            lem_specs_cat(c, a, b, b.len() as int);
            assert(t_specs(T::Node(c, a)) == ts_specs(T::Node(c, a), a.len() as int));
            assert(t_specs(T::Node(c, b)) == ts_specs(T::Node(c, b), b.len() as int));
            assert((a + b).len() == a.len() + b.len());
            assert(t_specs(T::Node(c, a + b)) == ts_specs(T::Node(c, a + b), (a + b).len() as int));
            lem_specs_for(c, build(*l)); lem_specs_for(c, build(*r));
        }
    }
}
/// a spec, or an operator with two parts at least, none of them with that operator
pub open spec fn is_flat(t: T) -> bool decreases t { match t { T::Leaf(_, _, _) => true, T::Node(c, ps) => (c is And || c is Or) && ps.len() >= 2 && all_flat(c, ps) } }
pub open spec fn all_flat(c: Combinator, ps: Seq<T>) -> bool decreases ps { forall|i: int| 0 <= i < ps.len() ==> is_flat(#[trigger] ps[i]) && (ps[i] matches T::Node(d, _) ==> d != c) }
pub proof fn lem_flat_for(c: Combinator, t: T) requires is_flat(t) ensures all_flat(c, parts_for(c, t)), parts_for(c, t).len() >= 1 { match t { T::Node(d, ps) => { if d != c { assert(seq![t][0] == t); } } T::Leaf(_, _, _) => { assert(seq![t][0] == t); } } }
pub proof fn thm_c17_flat(e: E) requires wf(e) ensures is_flat(build(e)), as_tree(build(e)) matches T::Node(c, ps) && (is_flat(as_tree(build(e))) || (c is None && ps.len() == 1 && ps[0] is Leaf)) decreases e {
    match e {
        E::Spec(t) => { assert(seq![build(e)][0] == build(e)); }
        E::Par(x) => thm_c17_flat(*x),
        E::Bin(c, l, r) => {
            thm_c17_flat(*l); thm_c17_flat(*r);
            let (a, b) = (parts_for(c, build(*l)), parts_for(c, build(*r)));
            lem_flat_for(c, build(*l)); lem_flat_for(c, build(*r));
            assert forall|i: int| 0 <= i < (a + b).len() implies is_flat(#[trigger] (a + b)[i]) && ((a + b)[i] matches T::Node(d, _) ==> d != c) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
        }
    }
}
}

verus! {
// ---------- C18: parsing a rendering again ----------
/// what a spec's text has to be for the parser to read it again
pub open spec fn plain(t: Seq<char>) -> bool {
    t.len() > 0 && !is_ws(t[0]) && !is_ws(t.last())
    && (if t[0] == '^' { t.len() > 1 && first(t, is_char('$')) == t.len() - 1 } else { first(t, delim_fn()) == t.len() })
}
pub open spec fn delim_at(s: Seq<char>) -> bool { s.len() > 0 && is_delim(s[0]) }
pub proof fn lem_first_cat(a: Seq<char>, b: Seq<char>, p: spec_fn(char) -> bool) ensures first(a + b, p) == (if first(a, p) < a.len() { first(a, p) } else { a.len() + first(b, p) }) decreases a.len() {
    lem_first(a, p);
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b)[0] == a[0]); if !p(a[0]) { assert((a + b).drop_first() =~= a.drop_first() + b); lem_first_cat(a.drop_first(), b, p); } }
}
pub proof fn lem_plain_tok(t: Seq<char>, rest: Seq<char>) requires plain(t), delim_at(rest) ensures toks(t + rest) == seq![t] + toks(rest), trimmed(t) == t {
    let s = t + rest;
    assert(s[0] == t[0]);
    assert(first(s, ws_fn()) == 0);
    assert(s.skip(0) =~= s);
    lem_first_cat(t, rest, is_char('$')); lem_first_cat(t, rest, delim_fn());
    lem_first(t, is_char('$')); lem_first(t, delim_fn());
    if t[0] != '^' { assert(!delim_fn()(t[0])); assert(first(rest, delim_fn()) == 0); }
    assert(tok_len(s) == t.len());
    assert(s.take(t.len() as int) =~= t); assert(s.skip(t.len() as int) =~= rest);
}
pub proof fn lem_punct_tok(t: Seq<char>, rest: Seq<char>) requires is_punct(t) ensures toks(t + rest) == seq![t] + toks(rest), trimmed(t) == t, delim_at(t + rest) {
    reveal_strlit("("); reveal_strlit(")"); reveal_strlit("|"); reveal_strlit(",");
    let s = t + rest;
    assert(t.len() == 1 && is_delim(t[0]) && !is_ws(t[0]) && t[0] != '^');
    assert(s[0] == t[0]);
    assert(first(s, ws_fn()) == 0);
    assert(s.skip(0) =~= s);
    assert(tok_len(s) == 1);
    assert(s.take(1) =~= t); assert(s.skip(1) =~= rest);
}
/// the text of an expression, without white space
pub open spec fn text_of(e: E) -> Seq<char> decreases e { match e { E::Spec(t) => t, E::Par(x) => parens(text_of(*x)), E::Bin(c, l, r) => text_of(*l) + sym(c) + text_of(*r) } }
pub open spec fn all_plain(e: E) -> bool decreases e { match e { E::Spec(t) => plain(t), E::Par(x) => all_plain(*x), E::Bin(_, l, r) => all_plain(*l) && all_plain(*r) } }
pub open spec fn clean(ts: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ts.len() ==> trimmed(#[trigger] ts[i]) == ts[i] }
pub proof fn lem_clean_cat(a: Seq<Seq<char>>, b: Seq<Seq<char>>) requires clean(a), clean(b) ensures clean(a + b) { assert forall|i: int| 0 <= i < (a + b).len() implies trimmed(#[trigger] (a + b)[i]) == (a + b)[i] by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } } }
pub proof fn lem_text_toks(e: E, rest: Seq<char>) requires wf(e), all_plain(e), delim_at(rest) ensures toks(text_of(e) + rest) == yields(e) + toks(rest), clean(yields(e)) decreases e {
    lem_punct_tok("("@, rest); lem_punct_tok(")"@, rest); lem_punct_tok("|"@, rest); lem_punct_tok(","@, rest);
    match e {
        E::Spec(t) => { lem_plain_tok(t, rest); }
        E::Par(x) => {
            let r1 = ")"@ + rest;
            lem_text_toks(*x, r1);
            lem_punct_tok("("@, text_of(*x) + r1);
            assert(text_of(e) + rest =~= "("@ + (text_of(*x) + r1));
            assert(toks(text_of(e) + rest) =~= yields(e) + toks(rest));
            lem_clean_cat(seq!["("@], yields(*x)); lem_clean_cat(seq!["("@] + yields(*x), seq![")"@]);
        }
        E::Bin(c, l, r) => {
            lem_text_toks(*r, rest);
            let r1 = sym(c) + (text_of(*r) + rest);
            lem_punct_tok(sym(c), text_of(*r) + rest);
            lem_text_toks(*l, r1);
            assert(text_of(e) + rest =~= text_of(*l) + r1);
            assert(toks(text_of(e) + rest) =~= yields(e) + toks(rest));
            lem_clean_cat(yields(*l), seq![sym(c)]); lem_clean_cat(yields(*l) + seq![sym(c)], yields(*r));
        }
    }
}
pub proof fn lem_text_derives(e: E) requires wf(e), all_plain(e) ensures derives(e, tokens_of(text_of(e))) {
    lem_punct_tok("("@, text_of(e) + ")"@); lem_punct_tok(")"@, Seq::empty());
    let z = Seq::<char>::empty();
    assert(")"@ + z =~= ")"@);
    assert(toks(")"@ + z) == seq![")"@] + toks(z));
    lem_text_toks(e, ")"@);
    assert(parens(text_of(e)) =~= "("@ + (text_of(e) + ")"@));
    let ts = toks(parens(text_of(e)));
    let y = yields(E::Par(Box::new(e)));
    assert(toks(z) =~= Seq::empty());
    assert(ts =~= y);
    lem_clean_cat(seq!["("@], yields(e)); lem_clean_cat(seq!["("@] + yields(e), seq![")"@]);
    assert(tokens_of(text_of(e)) =~= y);
}
// ---------- the specs of a parsed text can be read again ----------
pub proof fn lem_trim_mid(s: Seq<char>, k: int) requires 0 <= k < s.len(), !is_ws(s[k]), forall|i: int| 0 <= i < k ==> is_ws(#[trigger] s[i]) ensures trim_l(s) == s.skip(k) decreases s.len() {
    if k == 0 { assert(s.skip(0) =~= s); }
    else { assert(is_ws(s[0])); let d = s.drop_first(); assert forall|i: int| 0 <= i < k - 1 implies is_ws(#[trigger] d[i]) by { assert(d[i] == s[i + 1]); } lem_trim_mid(d, k - 1); assert(d.skip(k - 1) =~= s.skip(k)); }
}
pub proof fn lem_trim_r(s: Seq<char>) requires s.len() > 0, !is_ws(s[0]) ensures trim_r(s).len() > 0, trim_r(s) == s.take(trim_r(s).len() as int), trim_r(s).len() <= s.len(), !is_ws(trim_r(s).last()), !is_ws(s.last()) ==> trim_r(s) == s decreases s.len() {
    if is_ws(s.last()) { let d = s.drop_last(); if s.len() > 1 { assert(d[0] == s[0]); lem_trim_r(d); let n = trim_r(d).len() as int; assert(s.take(n) =~= d.take(n)); } else { assert(s[0] == s.last()); } }
    else { assert(s.take(s.len() as int) =~= s); }
}
/// a token that is a spec and not one of ( ) | ,
pub proof fn lem_tok_plain(s: Seq<char>) requires s.len() > 0, !is_ws(s.last()), ({ let t = trimmed(s.take(tok_len(s))); meaning(t) is Some && !is_punct(t) }) ensures plain(trimmed(s.take(tok_len(s)))) {
    lem_first(s, ws_fn());
    let w = first(s, ws_fn());
    let r = s.skip(w);
    lem_tok_len(s);
    if w >= s.len() { assert(ws_fn()(s[s.len() - 1])); assert(false); }
    assert(ws_fn()(s[w]));
    let n = tok_len(s);
    let u = s.take(n);
    lem_first(r, is_char('$')); lem_first(r, delim_fn());
    assert(r[0] == s[w]);
    assert forall|i: int| 0 <= i < w implies is_ws(#[trigger] u[i]) by { assert(!ws_fn()(s[i])); assert(u[i] == s[i]); }
    assert(u[w] == s[w]);
    lem_trim_mid(u, w);
    let m = u.skip(w);
    assert(m[0] == r[0]);
    assert(m =~= r.take(n - w));
    lem_trim_r(m);
    let t = trimmed(u);
    assert(t == trim_r(m));
    if r[0] == '^' && first(r, is_char('$')) < r.len() {
        assert(m.last() == '$');
        assert(t == m);
        lem_first_take(r, is_char('$'), n - w);
    } else if is_delim(r[0]) {
        assert(m =~= seq![r[0]]);
        assert(t == m);
        reveal_strlit("("); reveal_strlit(")"); reveal_strlit("|"); reveal_strlit(",");
        assert(t =~= "("@ || t =~= ")"@ || t =~= "|"@ || t =~= ","@);
        assert(false);
    } else {
        let k = t.len() as int;
        assert(t == m.take(k));
        assert(m.take(k) =~= r.take(k));
        lem_none(t, delim_fn(), r);
        if r[0] == '^' {
            assert forall|j: int| 0 <= j < t.len() implies t[j] != '$' by { assert(t[j] == r[j]); assert(!is_char('$')(r[j])); }
            assert(t[0] == '^'); assert(t.last() == t[t.len() - 1]); assert(t.last() != '$');
            assert(meaning(t) is None);
        }
    }
}
pub proof fn lem_first_take(r: Seq<char>, p: spec_fn(char) -> bool, n: int) requires n == first(r, p) + 1, n <= r.len() ensures first(r.take(n), p) == n - 1 decreases r.len() {
    lem_first(r, p); lem_first(r.take(n), p);
    assert(p(r.take(n)[n - 1]));
    let k = first(r.take(n), p);
    if k < n - 1 { assert(p(r.take(n)[k])); assert(r.take(n)[k] == r[k]); }
    if k > n - 1 { assert(!p(r.take(n)[n - 1])); }
}
pub proof fn lem_none(t: Seq<char>, p: spec_fn(char) -> bool, r: Seq<char>) requires t.len() <= first(r, p), first(r, p) <= r.len(), t == r.take(t.len() as int) ensures first(t, p) == t.len() {
    lem_first(r, p); lem_first(t, p);
    let k = first(t, p);
    if k < t.len() { assert(p(t[k])); assert(t[k] == r[k]); }
}
pub proof fn lem_toks_plain(s: Seq<char>, i: int) requires s.len() > 0 ==> !is_ws(s.last()), 0 <= i < toks(s).len(), ({ let t = trimmed(toks(s)[i]); meaning(t) is Some && !is_punct(t) }) ensures plain(trimmed(toks(s)[i])) decreases s.len() {
    lem_tok_len(s);
    let n = tok_len(s);
    let (h, t) = (s.take(n), toks(s.skip(n)));
    assert(toks(s) == seq![h] + t);
    if i == 0 { assert(toks(s)[0] == h); lem_tok_plain(s); }
    else { assert(toks(s)[i] == t[i - 1]); let r = s.skip(n); if r.len() > 0 { assert(r.last() == s.last()); } lem_toks_plain(r, i - 1); }
}
/// each spec of an expression is one of its tokens
pub proof fn lem_spec_tokens(e: E, ts: Seq<Seq<char>>, a: int) requires wf(e), 0 <= a, a + yields(e).len() <= ts.len(), yields(e) == ts.subrange(a, a + yields(e).len()), forall|i: int| 0 <= i < ts.len() && meaning(ts[i]) is Some && !is_punct(ts[i]) ==> plain(#[trigger] ts[i]) ensures all_plain(e) decreases e {
    match e {
        E::Spec(t) => { assert(yields(e)[0] == ts[a]); }
        E::Par(x) => { let y = yields(*x); assert(y =~= yields(e).subrange(1, (1 + y.len()) as int)); assert(y =~= ts.subrange(a + 1, a + 1 + y.len())); lem_spec_tokens(*x, ts, a + 1); }
        E::Bin(c, l, r) => {
            let (y, z) = (yields(*l), yields(*r));
            assert(yields(e).len() == y.len() + 1 + z.len());
            assert(y =~= yields(e).subrange(0, y.len() as int)); assert(y =~= ts.subrange(a, a + y.len()));
            assert(z =~= yields(e).subrange((y.len() + 1) as int, yields(e).len() as int)); assert(z =~= ts.subrange(a + y.len() + 1, a + yields(e).len()));
            lem_spec_tokens(*l, ts, a); lem_spec_tokens(*r, ts, a + y.len() + 1);
        }
    }
}
pub proof fn lem_parsed_plain(x: E, s: Seq<char>) requires derives(x, tokens_of(s)) ensures all_plain(x) {
    let p = parens(s);
    reveal_strlit(")");
    assert(p.last() == ')');
    let ts = tokens_of(s);
    assert forall|i: int| 0 <= i < ts.len() && meaning(ts[i]) is Some && !is_punct(ts[i]) implies plain(#[trigger] ts[i]) by { assert(ts[i] == trimmed(toks(p)[i])); lem_toks_plain(p, i); }
    assert(yields(E::Par(Box::new(x))) == ts);
    assert(yields(x) =~= ts.subrange(1, (1 + yields(x).len()) as int));
    lem_spec_tokens(x, ts, 1);
}
// ---------- the expression a tree renders as ----------
pub open spec fn atom(t: T) -> E decreases t, 1int, 0int { match t { T::Leaf(s, _, _) => E::Spec(s), T::Node(c, ps) => E::Par(Box::new(chain(t, ps.len() as int))) } }
pub open spec fn chain(t: T, n: int) -> E decreases t, 0int, n { match t { T::Node(c, ps) => if n <= 1 || n > ps.len() { if ps.len() > 0 { atom(ps[0]) } else { E::Spec(Seq::empty()) } } else { E::Bin(c, Box::new(chain(t, n - 1)), Box::new(atom(ps[n - 1]))) }, T::Leaf(s, _, _) => E::Spec(s) } }
/// every spec of the tree is as parsed from its text and can be read again
pub open spec fn leaves_ok(t: T) -> bool decreases t { match t { T::Leaf(s, _, _) => plain(s) && !is_punct(s) && meaning(s) is Some && t == spec_leaf(s), T::Node(_, ps) => all_leaves_ok(ps) } }
pub open spec fn all_leaves_ok(ps: Seq<T>) -> bool decreases ps { forall|i: int| 0 <= i < ps.len() ==> leaves_ok(#[trigger] ps[i]) }
pub proof fn lem_build_leaves(e: E) requires wf(e), all_plain(e) ensures leaves_ok(build(e)) decreases e {
    match e {
        E::Spec(t) => {}
        E::Par(x) => lem_build_leaves(*x),
        E::Bin(c, l, r) => {
            lem_build_leaves(*l); lem_build_leaves(*r);
            let (a, b) = (parts_for(c, build(*l)), parts_for(c, build(*r)));
            lem_leaves_for(c, build(*l)); lem_leaves_for(c, build(*r));
            assert forall|i: int| 0 <= i < (a + b).len() implies leaves_ok(#[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
        }
    }
}
pub proof fn lem_leaves_for(c: Combinator, t: T) requires leaves_ok(t) ensures all_leaves_ok(parts_for(c, t)) { match t { T::Node(d, ps) => { if d != c { assert(seq![t][0] == t); } } T::Leaf(_, _, _) => { assert(seq![t][0] == t); } } }
pub proof fn lem_joined_take(ss: Seq<Seq<char>>, sep: Seq<char>, n: int) requires 2 <= n <= ss.len() ensures joined_with(ss.take(n), sep) == joined_with(ss.take(n - 1), sep) + sep + ss[n - 1] { assert(ss.take(n).drop_last() =~= ss.take(n - 1)); assert(ss.take(n).last() == ss[n - 1]); }
pub proof fn lem_atom(t: T) requires is_flat(t), leaves_ok(t) ensures wf(atom(t)), all_plain(atom(t)), prec(atom(t)) == 2, build(atom(t)) == t, text_of(atom(t)) == render(t, true) decreases t, 1int, 0int {
    match t {
        T::Leaf(s, _, _) => {}
        T::Node(c, ps) => { lem_chain(t, ps.len() as int); assert(ps.take(ps.len() as int) =~= ps); assert(rendered(ps).take(ps.len() as int) =~= rendered(ps)); }
    }
}
pub proof fn lem_chain(t: T, n: int) requires is_flat(t), leaves_ok(t), t matches T::Node(c, ps) && 1 <= n <= ps.len()
    ensures t matches T::Node(c, ps) && wf(chain(t, n)) && all_plain(chain(t, n)) && prec(chain(t, n)) >= lp(c) && build(chain(t, n)) == (if n == 1 { ps[0] } else { T::Node(c, ps.take(n)) }) && text_of(chain(t, n)) == joined_with(rendered(ps).take(n), sep_of(c)),
    decreases t, 0int, n
{
    if let T::Node(c, ps) = t {
        assert(all_flat(c, ps)); assert(all_leaves_ok(ps));
        if n == 1 {
            lem_atom(ps[0]);
            assert(rendered(ps).take(1) =~= seq![render(ps[0], true)]);
        } else {
            let p = ps[n - 1];
            lem_atom(p);
            lem_chain(t, n - 1);
            lem_joined_take(rendered(ps), sep_of(c), n);
            assert(rendered(ps)[n - 1] == render(p, true));
            assert(parts_for(c, p) == seq![p]);
            if n == 2 { assert(parts_for(c, ps[0]) == seq![ps[0]]); assert(ps.take(2) =~= seq![ps[0]] + seq![p]); } else { assert(ps.take(n) =~= ps.take(n - 1) + seq![p]); }
        }
    }
}
pub proof fn lem_renders(t: T) requires is_flat(t) ensures renders(t) decreases t { if let T::Node(c, ps) = t { assert(all_flat(c, ps)); assert forall|i: int| 0 <= i < ps.len() implies renders(#[trigger] ps[i]) by { lem_renders(ps[i]); } } }
/// parsing the rendering of a parsed tree gives that tree
pub proof fn thm_c18_round(x: E, s: Seq<char>) requires derives(x, tokens_of(s)) ensures ({
    let t = as_tree(build(x));
    renders(t) && (exists|y: E| #[trigger] derives(y, tokens_of(render(t, false))) && as_tree(build(y)) == t)
}) {
    lem_parsed_plain(x, s); thm_c17_flat(x); lem_build_leaves(x);
    let b = build(x); let t = as_tree(b);
    match b {
        T::Leaf(z, _, _) => {
            let y = E::Spec(z);
            assert(seq![b][0] == b);
            assert(rendered(seq![b]) =~= seq![z]);
            assert(all_render(seq![b]));
            let ps = seq![b];
            assert(ps.len() == 1 && ps[0] == b);
            assert(t == T::Node(Combinator::None, ps));
            assert(render(ps[0], true) == z);
            assert(render(T::Node(Combinator::None, ps), false) == render(ps[0], true));
            assert(render(t, false) == z);
            lem_text_derives(y);
            assert(derives(y, tokens_of(render(t, false))));
        }
        T::Node(c, ps) => {
            lem_renders(b);
            lem_chain(b, ps.len() as int);
            assert(ps.take(ps.len() as int) =~= ps); assert(rendered(ps).take(ps.len() as int) =~= rendered(ps));
            let y = chain(b, ps.len() as int);
            lem_text_derives(y);
            assert(derives(y, tokens_of(render(t, false))));
        }
    }
}
pub proof fn lem_t_eq(t: T) ensures t_eq(t, t) decreases t { if let T::Node(_, ps) = t { assert forall|i: int| 0 <= i < ps.len() implies t_eq(#[trigger] ps[i], ps[i]) by { lem_t_eq(ps[i]); } } }
/// C18 about the running code
pub fn thm_c18_exec(s: &str) {
    proof { lem_tokens_first(s@); thm_c16_sound(tokens_of(s@)); }
    if let Ok(t) = treeify(s) {
        let ghost x = match fin(tokens_of(s@)) { Some(E::Par(x)) => *x, _ => arbitrary() };
        proof { thm_c18_round(x, s@); }
        let r = t.get_spec();
        let ghost y = choose|y: E| #[trigger] derives(y, tokens_of(r@)) && as_tree(build(y)) == ctv(t);
        proof { thm_c16_complete(y, tokens_of(r@)); lem_t_eq(ctv(t)); }
        match treeify(r.as_str()) {
            Ok(u) => { assert(ctv(u) == ctv(t)); let same = t == u; assert(same); }
            Err(_) => { assert(false); }
        }
    }
}
}

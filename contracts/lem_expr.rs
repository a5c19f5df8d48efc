verus! {
// ---------- C16, C17: the parser's steps and the grammar ----------
/// the least precedence an operand may have to the right of what is on the stack
pub open spec fn need(st: Seq<Seq<char>>) -> int { if st.len() == 0 || st.last() == "("@ { 0 } else { lp(op_sym(st.last())) + 1 } }
pub open spec fn is_op(t: Seq<char>) -> bool { t == "|"@ || t == ","@ }
pub open spec fn bin(o: Seq<char>, l: E, r: E) -> E { E::Bin(op_sym(o), Box::new(l), Box::new(r)) }
/// what the parser has read, from its state
pub open spec fn read(st: Seq<Seq<char>>, es: Seq<E>, want: bool) -> Seq<Seq<char>> decreases st.len(), (if want { 0int } else { 1 }) {
    if !want { if es.len() == 0 { Seq::empty() } else { read(st, es.drop_last(), true) + yields(es.last()) } }
    else if st.len() == 0 { Seq::empty() }
    else if st.last() == "("@ { read(st.drop_last(), es, true) + seq!["("@] }
    else { read(st.drop_last(), es, false) + seq![st.last()] }
}
/// every operand is well formed and binds as tightly as its place asks
pub open spec fn good(st: Seq<Seq<char>>, es: Seq<E>, want: bool) -> bool decreases st.len(), (if want { 0int } else { 1 }) {
    if !want { es.len() > 0 && wf(es.last()) && prec(es.last()) >= need(st) && good(st, es.drop_last(), true) }
    else if st.len() == 0 { es.len() == 0 }
    else if st.last() == "("@ { good(st.drop_last(), es, true) }
    else { is_op(st.last()) && es.len() > 0 && prec(es.last()) >= lp(op_sym(st.last())) && need(st.drop_last()) <= lp(op_sym(st.last())) && good(st.drop_last(), es, false) }
}
pub proof fn lem_syms() ensures op_sym("|"@) is Or, op_sym(","@) is And, op_sym("("@) is None, sym(Combinator::And) == ","@, sym(Combinator::Or) == "|"@ { lem_paren_len(); }
/// applying operators keeps both
pub proof fn lem_good_after(lvl: int, st: Seq<Seq<char>>, es: Seq<E>) requires good(st, es, false), lvl == 0 || lvl == 1
    ensures good(st_after(lvl, st), es_after(lvl, st, es), false), read(st_after(lvl, st), es_after(lvl, st, es), false) == read(st, es, false),
        prec(es.last()) >= lvl ==> prec(es_after(lvl, st, es).last()) >= lvl,
    decreases st.len()
{
    lem_syms(); lem_paren_len();
    if st.len() == 0 || stops(lvl, st.last()) { }
    else {
        let o = st.last(); let s2 = st.drop_last(); let e1 = es.drop_last();
        assert(good(st, e1, true)); assert(good(s2, e1, false));
        let (l, r) = (es[es.len() - 2], es.last());
        assert(l == e1.last());
        assert(e1.len() > 0);
        let b = bin(o, l, r);
        let es2 = but2(es).push(b);
        assert(but2(es) =~= e1.drop_last());
        assert(es2.drop_last() =~= e1.drop_last());
        assert(wf(b));
        assert(prec(b) == lp(op_sym(o)));
        assert(good(s2, es2, false));
        assert(read(st, es, false) == read(st, e1, true) + yields(r));
        assert(st.last() != "("@);
        assert(read(st, e1, true) == read(s2, e1, false) + seq![o]);
        assert(read(s2, e1, false) == read(s2, e1.drop_last(), true) + yields(l));
        assert(read(st, es, false) == read(s2, e1.drop_last(), true) + yields(l) + seq![o] + yields(r));
        assert(yields(b) == yields(l) + seq![sym(op_sym(o))] + yields(r));
        assert(read(s2, es2, false) =~= read(st, es, false));
        lem_good_after(lvl, s2, es2);
    }
}
pub proof fn lem_sound(ts: Seq<Seq<char>>) ensures match run(ts) { Some(s) => good(s.st, s.es, s.want) && read(s.st, s.es, s.want) == ts && (!s.want ==> prec(s.es.last()) == 2), None => true } decreases ts.len() {
    lem_syms(); lem_paren_len();
    if ts.len() > 0 {
        lem_sound(ts.drop_last());
        if let Some(s) = run(ts.drop_last()) {
            let t = ts.last();
            assert(ts =~= ts.drop_last().push(t));
            if let Some(q) = step(s, t) {
                if t == "("@ { assert(q.st.drop_last() =~= s.st); assert(read(q.st, q.es, true) =~= ts); }
                else if t == "|"@ { lem_good_after(0, s.st, s.es); lem_stop_at(s.st); assert(q.st.drop_last() =~= st_after(0, s.st)); assert(read(q.st, q.es, true) =~= ts); }
                else if t == ","@ { lem_good_after(1, s.st, s.es); lem_stop_at1(s.st); assert(q.st.drop_last() =~= st_after(1, s.st)); assert(read(q.st, q.es, true) =~= ts); }
                else if t == ")"@ {
                    lem_good_after(0, s.st, s.es); lem_stop_at(s.st);
                    let (s1, e1) = (st_after(0, s.st), es_after(0, s.st, s.es));
                    assert(good(s1, e1.drop_last(), true));
                    assert(q.es.drop_last() =~= e1.drop_last());
                    assert(good(q.st, q.es.drop_last(), true));
                    assert(read(s1, e1.drop_last(), true) == read(q.st, e1.drop_last(), true) + seq!["("@]);
                    assert(read(q.st, q.es, false) =~= ts);
                } else { assert(q.es.drop_last() =~= s.es); assert(read(q.st, q.es, false) =~= ts); }
            }
        }
    }
}
pub proof fn lem_stop_at1(st: Seq<Seq<char>>) ensures st_after(1, st).len() > 0 ==> stops(1, st_after(1, st).last()) decreases st.len() { if st.len() > 0 && !stops(1, st.last()) { lem_stop_at1(st.drop_last()); } }
pub proof fn lem_yields_some(e: E) ensures yields(e).len() > 0 decreases e { match e { E::Bin(_, l, r) => lem_yields_some(*l), _ => {} } }
/// what the parser accepts is well formed
pub proof fn thm_c16_sound(ts: Seq<Seq<char>>) requires ts.len() > 0, ts[0] == "("@ ensures fin(ts) matches Some(e) ==> (e matches E::Par(x) && derives(*x, ts)) {
    lem_sound(ts); lem_run_sane(ts); lem_paren_len();
    if let Some(e) = fin(ts) {
        let s = run(ts).unwrap();
        assert(!s.want) by { if s.want { assert(read(s.st, s.es, true) == Seq::<Seq<char>>::empty()); } }
        assert(good(s.st, s.es.drop_last(), true));
        assert(s.es.len() == 1);
        assert(read(s.st, s.es.drop_last(), true) =~= Seq::empty());
        assert(yields(e) =~= ts);
        match e { E::Spec(t) => { assert(ts[0] == t); assert(is_punct(t)); } E::Par(x) => {} E::Bin(_, _, _) => {} }
    }
}
// ---------- the other way ----------
/// applying the operators above the first `n` symbols, all binding at least as tightly as `m`, leads to operands `vs`
pub open spec fn reduces(st: Seq<Seq<char>>, es: Seq<E>, s0: Seq<Seq<char>>, vs: Seq<E>, m: int) -> bool decreases st.len() {
    if st.len() <= s0.len() { st == s0 && es == vs }
    else { is_op(st.last()) && lp(op_sym(st.last())) >= m && es.len() >= 2 && reduces(st.drop_last(), but2(es).push(bin(st.last(), top2(es).0, top2(es).1)), s0, vs, m) }
}
pub proof fn lem_reduces_less(st: Seq<Seq<char>>, es: Seq<E>, s0: Seq<Seq<char>>, vs: Seq<E>, m: int, k: int) requires reduces(st, es, s0, vs, m), k <= m ensures reduces(st, es, s0, vs, k) decreases st.len() {
    if st.len() > s0.len() { lem_reduces_less(st.drop_last(), but2(es).push(bin(st.last(), top2(es).0, top2(es).1)), s0, vs, m, k); }
}
pub proof fn lem_reduces_more(st: Seq<Seq<char>>, es: Seq<E>, s0: Seq<Seq<char>>, o: Seq<char>, vs: Seq<E>, l: E, r: E, m: int) requires reduces(st, es, s0.push(o), vs.push(l).push(r), m), is_op(o), lp(op_sym(o)) >= m
    ensures reduces(st, es, s0, vs.push(bin(o, l, r)), m) decreases st.len() {
    if st.len() > s0.len() + 1 { lem_reduces_more(st.drop_last(), but2(es).push(bin(st.last(), top2(es).0, top2(es).1)), s0, o, vs, l, r, m); }
    else { assert(st.drop_last() =~= s0); assert(but2(es) =~= vs); assert(st.len() == s0.len() + 1); assert(reduces(s0, but2(es).push(bin(o, l, r)), s0, vs.push(bin(o, l, r)), m)); }
}
pub proof fn lem_reduces_after(lvl: int, st: Seq<Seq<char>>, es: Seq<E>, s0: Seq<Seq<char>>, vs: Seq<E>, m: int) requires reduces(st, es, s0, vs, m), lvl == 0 || lvl == 1, m >= lvl, s0.len() == 0 || stops(lvl, s0.last())
    ensures st_after(lvl, st) == s0, es_after(lvl, st, es) == vs decreases st.len() {
    lem_syms(); lem_paren_len();
    if st.len() > s0.len() { assert(!stops(lvl, st.last())); lem_reduces_after(lvl, st.drop_last(), but2(es).push(bin(st.last(), top2(es).0, top2(es).1)), s0, vs, m); }
}
pub proof fn lem_run_push(ts: Seq<Seq<char>>, t: Seq<char>) requires run(ts) is Some ensures run(ts.push(t)) == step(run(ts).unwrap(), t) { assert(ts.push(t).drop_last() =~= ts); }
/// reading an operand
pub proof fn lem_reads(ts: Seq<Seq<char>>, e: E) requires wf(e), run(ts) matches Some(s) && s.want && need(s.st) <= prec(e), all_syms(run(ts).unwrap().st)
    ensures run(ts + yields(e)) matches Some(q) && !q.want && reduces(q.st, q.es, run(ts).unwrap().st, run(ts).unwrap().es.push(e), prec(e)) decreases e
{
    lem_syms(); lem_paren_len();
    let s = run(ts).unwrap();
    match e {
        E::Spec(t) => { assert(ts + yields(e) =~= ts.push(t)); lem_run_push(ts, t); }
        E::Par(x) => {
            let t1 = ts.push("("@); lem_run_push(ts, "("@);
            let s1 = run(t1).unwrap();
            lem_reads(t1, *x);
            let t2 = t1 + yields(*x);
            let s2 = run(t2).unwrap();
            lem_reduces_after(0, s2.st, s2.es, s1.st, s1.es.push(*x), prec(*x));
            lem_run_push(t2, ")"@);
            assert(t2.push(")"@) =~= ts + yields(e));
            let q = run(ts + yields(e)).unwrap();
            assert(q.st =~= s.st);
            assert(q.es =~= s.es.push(e));
        }
        E::Bin(c, l, r) => {
            let o = sym(c);
            lem_reads(ts, *l);
            let t1 = ts + yields(*l);
            let s1 = run(t1).unwrap();
            let lvl = lp(c);
            assert(s.st.len() == 0 || stops(lvl, s.st.last())) by { if s.st.len() > 0 { assert(is_sym(s.st[s.st.len() - 1])); } }
            lem_reduces_after(lvl, s1.st, s1.es, s.st, s.es.push(*l), prec(*l));
            lem_run_push(t1, o);
            let t2 = t1.push(o);
            let s2 = run(t2).unwrap();
            assert(s2.st == s.st.push(o) && s2.es == s.es.push(*l) && s2.want);
            lem_reads(t2, *r);
            assert(t2 + yields(*r) =~= ts + yields(e));
            let q = run(ts + yields(e)).unwrap();
            lem_reduces_less(q.st, q.es, s2.st, s2.es.push(*r), prec(*r), lp(c));
            lem_reduces_more(q.st, q.es, s.st, o, s.es, *l, *r, lp(c));
        }
    }
}
/// what is well formed is accepted, and read as it is
pub proof fn thm_c16_complete(x: E, ts: Seq<Seq<char>>) requires derives(x, ts) ensures fin(ts) == Some(E::Par(Box::new(x))) {
    let e = E::Par(Box::new(x));
    let z = Seq::<Seq<char>>::empty();
    lem_run_empty();
    lem_reads(z, e);
    assert(z + yields(e) =~= ts);
    let q = run(ts).unwrap();
    lem_syms();
    if q.st.len() > 0 { assert(lp(op_sym(q.st.last())) >= 2); }
    assert(q.es =~= seq![e]);
}
/// an expression says one thing
pub proof fn thm_c16_unique(x: E, y: E, ts: Seq<Seq<char>>) requires derives(x, ts), derives(y, ts) ensures x == y { thm_c16_complete(x, ts); thm_c16_complete(y, ts); }
pub proof fn lem_tokens_first(s: Seq<char>) ensures tokens_of(s).len() > 0, tokens_of(s)[0] == "("@ {
    reveal_strlit("(");
    lem_tokens_some(s);
    let p = parens(s);
    assert(p[0] == '(');
    assert(first(p, ws_fn()) == 0);
    assert(p.skip(0) =~= p);
    assert(tok_len(p) == 1);
    assert(toks(p)[0] == p.take(1));
    assert(p.take(1) =~= "("@);
    lem_trim_paren();
}
pub proof fn lem_trim_paren() ensures trimmed("("@) == "("@ { reveal_strlit("("); assert("("@.len() == 1 && "("@[0] == '('); }
/// every character of the text is in one of its tokens
pub proof fn thm_c16_tokens(s: Seq<char>) ensures toks(s).flatten() == s decreases s.len() {
    if s.len() > 0 {
        lem_tok_len(s);
        let n = tok_len(s);
        thm_c16_tokens(s.skip(n));
        let (h, t) = (s.take(n), toks(s.skip(n)));
        assert(toks(s) == seq![h] + t);
        assert((seq![h] + t).drop_first() =~= t);
        assert((seq![h] + t).flatten() == h + t.flatten());
        assert(h + s.skip(n) =~= s);
    } else { assert(toks(s) =~= Seq::empty()); assert(s =~= Seq::empty()); }
}
/// C16 about the running code
pub fn thm_c16_exec(s: &str) {
    proof { lem_tokens_first(s@); thm_c16_sound(tokens_of(s@)); }
    match treeify(s) {
        Ok(t) => { assert(fin(tokens_of(s@)) matches Some(E::Par(x)) && derives(*x, tokens_of(s@))); }
        Err(_) => {
            proof { assert forall|x: E| !derives(x, tokens_of(s@)) by { if derives(x, tokens_of(s@)) { thm_c16_complete(x, tokens_of(s@)); } } }
        }
    }
}
}

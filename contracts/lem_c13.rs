verus! {
/// a matcher that does what the meaning says answers as the meaning says
pub proof fn lem_answer(m: MatchEnum, x: M, v: Version) requires matcher_is(m, x) ensures m_test(m, v) == answer(x, v), m_covered(m) == answered(x) { }
/// C13, in the property's words
pub proof fn thm_c13_kinds(s: Seq<char>, v: Version) requires meaning(s) is Some ensures ({
    let x = meaning(s).unwrap().0;
    let caret = s.len() > 0 && s[0] == '^';
    let oper = s.len() > 0 && is_opc(s[0]);
    let dollar = s.len() > 0 && s.last() == '$';
    let inner = trim_end(s, is_char('*')).contains('*');
    &&& s == "*"@ ==> answer(x, v)
    &&& caret ==> answer(x, v) == re_match(s, v.version@)
    &&& oper && !dollar ==> ({
            let o = s.take(op_len(s));
            let rest = s.skip(op_len(s));
            let star = has_suffix(rest, ".*"@);
            let w = parsed(if star { rest.take(rest.len() - 2) } else { rest });
            &&& o == "=="@ ==> answer(x, v) == (vcmp(v@, w) == Ordering::Equal)
            &&& o == "!="@ && !star ==> answer(x, v) == (vcmp(v@, w) != Ordering::Equal)
            &&& o == "!="@ && star ==> answer(x, v) == !starts(v@, w)
            &&& o == "="@ ==> answer(x, v) == starts(v@, w)
            &&& o == "<"@ ==> answer(x, v) == (vcmp(v@, w) == Ordering::Less)
            &&& o == "<="@ ==> answer(x, v) == (vcmp(v@, w) != Ordering::Greater)
            &&& o == ">"@ ==> answer(x, v) == (vcmp(v@, w) == Ordering::Greater)
            &&& o == ">="@ ==> answer(x, v) == (vcmp(v@, w) != Ordering::Less)
        })
    &&& !caret && !oper && s != "*"@ && inner ==> answer(x, v) == re_match(glob_pat(s), v.version@)
    &&& !caret && !oper && s != "*"@ && !inner && s.len() > 0 && s.last() == '*' ==> answer(x, v) == starts(v@, parsed(trim_end(s, star_or_dot())))
    &&& !caret && !oper && !s.contains('*') && !s.contains('@') ==> answer(x, v) == (vcmp(v@, parsed(s)) == Ordering::Equal)
    &&& !caret && !oper && !s.contains('*') && s.contains('@') ==> answer(x, v) == (v.version@ == s)
}) {
    reveal_strlit("*"); reveal_strlit("=="); reveal_strlit("!="); reveal_strlit("<"); reveal_strlit("<="); reveal_strlit(">="); reveal_strlit(">"); reveal_strlit("="); reveal_strlit("~=");
    assert("=="@.len() == 2 && "!="@.len() == 2 && "<"@.len() == 1 && "<="@.len() == 2 && ">"@.len() == 1 && ">="@.len() == 2 && "="@.len() == 1 && "~="@.len() == 2);
    assert("=="@[0] == '=' && "!="@[0] == '!' && "<"@[0] == '<' && "<="@[0] == '<' && ">"@[0] == '>' && ">="@[0] == '>' && "="@[0] == '=' && "~="@[0] == '~');
    lem_trim_end_sub(s, is_char('*'));
    if s == "*"@ { assert(s[0] == '*'); }
    if s.len() > 0 && s.last() == '*' { assert(s.contains('*')); }
}
/// C13: '*' in a glob stands for any text, everything else for itself
pub proof fn thm_c13_glob(s: Seq<char>, v: Version) requires plain(s), s.len() > 0, !is_opc(s[0]), s != "*"@, trim_end(s, is_char('*')).contains('*')
    ensures meaning(s) is Some, answer(meaning(s).unwrap().0, v) == glob(s, v.version@) { thm_glob(s, v.version@); assert(!meta(s[0]) && !meta(s.last())); }
pub proof fn lem_trim_end_sub(s: Seq<char>, p: spec_fn(char) -> bool) ensures forall|c: char| trim_end(s, p).contains(c) ==> #[trigger] s.contains(c) decreases s.len() {
    if s.len() > 0 && p(s.last()) {
        lem_trim_end_sub(s.drop_last(), p);
        assert forall|c: char| trim_end(s, p).contains(c) implies #[trigger] s.contains(c) by { let t = s.drop_last(); assert(t.contains(c)); let i = choose|i: int| 0 <= i < t.len() && t[i] == c; assert(s[i] == c); }
    }
}
/// C13 about the running code: a spec's answer for a version, and for a version given as text, is the one its notation says
pub fn thm_c13_exec(s: &str, v: &Version, t: &str) {
    match VersionSpec::try_from(s) {
        Ok(sp) => {
            let ghost x = meaning(s@).unwrap().0;
            proof { lem_answer(sp.matcher, x, *v); }
            if let MatchEnum::MatchOperator(o) = &sp.matcher { match o.operator { CompOp::Compatible | CompOp::Incompatible => { return; }, _ => {} } }
            let r = sp.test_match_version(v);
            assert(r == answer(x, *v));
            match t.vx_parse::<Version>() {
                Ok(w) => {
                    let q = sp.test_match(t);
                    let p = sp.test_match_version(&w);
                    assert(q == p);
                    proof { lem_answer(sp.matcher, x, w); }
                    assert(q == answer(x, w));
                },
                Err(_) => {}
            }
        },
        Err(_) => {}
    }
}
}

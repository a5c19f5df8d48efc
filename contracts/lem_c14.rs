verus! {
/// C14: what makes a spec exact
pub proof fn thm_c14_exact(s: Seq<char>) requires meaning(s) is Some ensures ({
    let regex = s.len() > 0 && (s[0] == '^' || s.last() == '$');
    let oper = !regex && s.len() > 0 && is_opc(s[0]);
    meaning(s).unwrap().1 <==> (oper && s.take(op_len(s)) == "=="@) || (!regex && !oper && !s.contains('*'))
}) {
    reveal_strlit("*");
    lem_no_star(s);
    if s == "*"@ { assert(s[0] == '*'); assert(s.contains('*')); }
    if s.len() > 0 && s.last() == '*' { assert(s.contains('*')); }
}
pub proof fn lem_no_star(s: Seq<char>) ensures s.contains('*') == (trim_end(s, is_char('*')).contains('*') || (s.len() > 0 && s.last() == '*')) decreases s.len() {
    if s.len() > 0 {
        let t = s.drop_last();
        if s.last() == '*' { assert(s.contains('*')); }
        else { assert(trim_end(s, is_char('*')) == s); }
    }
}
/// C14 about the running code
pub fn thm_c14_exec(s: &str) {
    match VersionSpec::try_from(s) {
        Ok(sp) => {
            let (a, b, e, x) = (sp.get_spec(), sp.raw_value(), sp.is_exact(), sp.exact_value());
            assert(a@ == s@ && b@ == s@);
            assert(e == meaning(s@).unwrap().1);
            assert(x is Some == e);
            assert(x matches Some(t) ==> t@ == s@);
        },
        Err(_) => {}
    }
}
}

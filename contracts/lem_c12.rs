verus! {
/// C12, in the property's words: when a text is a malformed single spec
pub proof fn thm_c12_malformed(s: Seq<char>)
    ensures meaning(s) is None <==> ({
        let caret = s.len() > 0 && s[0] == '^';
        let dollar = s.len() > 0 && s.last() == '$';
        ||| caret != dollar
        ||| caret && dollar && !re_valid(s)
        ||| !caret && !dollar && s.len() > 0 && is_opc(s[0]) && op_meaning(s) is None
        ||| !caret && !dollar && !(s.len() > 0 && is_opc(s[0])) && s != "*"@ && trim_end(s, is_char('*')).contains('*') && !re_valid(glob_pat(s))
        ||| !caret && !dollar && !(s.len() > 0 && is_opc(s[0])) && s != "*"@ && !trim_end(s, is_char('*')).contains('*') && (
                (s.len() > 0 && s.last() == '*' && !text_ok(trim_end(s, star_or_dot()))) || (!(s.len() > 0 && s.last() == '*') && !s.contains('@') && !text_ok(s)))
    }) { reveal_strlit("*"); }
/// C12: a glob whose only special characters are '.', '+' and '*' is well-formed
pub proof fn thm_c12_glob(s: Seq<char>) requires plain(s), s.len() > 0, !is_opc(s[0]), s != "*"@, trim_end(s, is_char('*')).contains('*') ensures meaning(s) is Some { thm_glob(s, s); assert(!meta(s[0]) && !meta(s.last())); }
/// C12: the operator is the longest that leaves a version text; it is one of eight signs, and '~=' does not take '.*'
pub proof fn thm_c12_operator(s: Seq<char>)
    ensures op_meaning(s) is Some ==> ({
        let o = s.take(op_len(s));
        let rest = s.skip(op_len(s));
        &&& o == "="@ || o == "=="@ || o == "!="@ || o == "<"@ || o == "<="@ || o == ">"@ || o == ">="@ || o == "~="@
        &&& rest.len() > 0 && no_ws(rest)
        &&& s.len() >= 3 && s[1] == '=' <==> o.len() == 2
        &&& o == "~="@ ==> !has_suffix(rest, ".*"@)
        &&& text_ok(if has_suffix(rest, ".*"@) { rest.take(rest.len() - 2) } else { rest })
    }) { }
/// C12 about the running code: any text is turned into a spec or refused, and malformed is what decides
pub fn thm_c12_exec(s: &str) -> (r: bool) ensures r == (meaning(s@) is Some) { match VersionSpec::try_from(s) { Ok(_) => true, Err(_) => false } }
}

verus! {
/// C07, from the words of the property: post above everything else, then the empty text, then dev below everything else
pub proof fn thm_c07_classes(a: Seq<char>, b: Seq<char>)
    ensures
        has_ci(a, "post"@) && has_ci(b, "post"@) ==> text_cmp(a, b) == Ordering::Equal,
        has_ci(a, "post"@) && !has_ci(b, "post"@) ==> text_cmp(a, b) == Ordering::Greater && text_cmp(b, a) == Ordering::Less,
        !has_ci(a, "post"@) && !has_ci(b, "post"@) ==> {
            &&& a.len() == 0 && b.len() == 0 ==> text_cmp(a, b) == Ordering::Equal
            &&& a.len() == 0 && b.len() > 0 ==> text_cmp(a, b) == Ordering::Greater && text_cmp(b, a) == Ordering::Less
            &&& a.len() > 0 && b.len() > 0 ==> {
                &&& has_ci(a, "dev"@) && has_ci(b, "dev"@) ==> text_cmp(a, b) == Ordering::Equal
                &&& has_ci(a, "dev"@) && !has_ci(b, "dev"@) ==> text_cmp(a, b) == Ordering::Less && text_cmp(b, a) == Ordering::Greater
                &&& !has_ci(a, "dev"@) && !has_ci(b, "dev"@) ==> text_cmp(a, b) == lex(fold(a), fold(b))
            }
        },
{ }
/// equality of two text components is exactly 'neither is less', for the running code
pub fn thm_c07_exec(a: &PEP440String, b: &PEP440String) {
    let (e, l, g) = (a == b, a < b, b < a);
    proof { lem_text_cmp(a.alpha@, b.alpha@); lem_text_cmp(b.alpha@, a.alpha@); lem_lex_rev(fold(a.alpha@), fold(b.alpha@)); }
    assert(e == (!l && !g));
}
}

verus! {
/// C24 about the running code: a parsed version displays as its text and debug-prints as the list of its components
pub fn thm_c24_exec(s: &str, f: &mut VxFormatter, g: &mut VxFormatter, t: &ConstraintTree, h: &mut VxFormatter) requires old(h).sound(), !old(h).alt(), renders(ctv(*t)) {
    match Version::from_str(s) {
        Ok(v) => {
            let r = v.fmt_display(f);
            assert(wrote(*old(f), *f, r, s@));
            let r = v.fmt_debug(g);
            assert(wrote(*old(g), *g, r, shown_list(parsed(s@), old(g).alt())));
        }
        Err(_) => {}
    }
    let r = t.fmt_debug(h);
    assert(r is Ok && h.out() == old(h).out() + quoted(render(ctv(*t), false)));
}
}

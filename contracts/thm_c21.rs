verus! {
/// C21 about the running code: two texts, made into Python versions and compared, in that operand order
pub fn thm_c21_exec(py: Python, cls: VxPyType, a: &str, b: &str, op: CompareOp) {
    match (RustyVersion::__new__(py, cls, a), RustyVersion::__new__(py, cls, b)) {
        (Ok(x), Ok(y)) => {
            let r = x.__richcmp__(py, &y, op);
            assert(r == Ok::<bool, PyErr>(holds(py_op(op), parsed(a@), parsed(b@))));
            let l = x.rust_version.compare_to_version(&y.rust_version, &py_cmp_to_ronda_cmp(op));
            assert(r == Ok::<bool, PyErr>(l));
            let s = x.startswith(py, &y);
            assert(s == Ok::<bool, PyErr>(starts(parsed(a@), parsed(b@))));
            let t = x.__repr__(py);
            assert(t matches Ok(t) && t@ == a@);
        }
        (Err(e), _) => { assert(!text_ok(a@) && e.kind() == exc::ValueError::vx_exc()); }
        (_, Err(e)) => { assert(!text_ok(b@) && e.kind() == exc::ValueError::vx_exc()); }
    }
}
}

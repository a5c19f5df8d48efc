pub mod vx_parse_re {
use vstd::prelude::*;
use super::vx_text::*;
use super::vx_pre::*;
use super::vx_re::*; use super::vx_re_ax::*; use super::vx_re_lem::*;
verus! {
/// the length of the maximal leading run of digits, or of non-digits
pub open spec fn run_len(s: Seq<char>) -> int decreases s.len() { if s.len() <= 1 { s.len() as int } else if is_dec(s[0]) == is_dec(s[1]) { 1 + run_len(s.drop_first()) } else { 1 } }
/// the maximal runs of digits and of non-digits
pub open spec fn runs(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() { if s.len() == 0 || run_len(s) <= 0 || run_len(s) > s.len() { Seq::empty() } else { seq![s.take(run_len(s))] + runs(s.skip(run_len(s))) } }
// ----- runs of digits and of others
/// in groups or not
pub open spec fn grouped(g: bool, k: nat, r: Re) -> Re { if g { Re::Group(k, Box::new(r)) } else { r } }
pub open spec fn re_runs(g: bool) -> Re { alt(grouped(g, 1, plus(Re::Set(Cls::Dec))), grouped(g, 2, plus(Re::Set(Cls::Not(Box::new(Cls::Dec)))))) }
pub open spec fn cls_of(d: bool) -> Cls { if d { Cls::Dec } else { Cls::Not(Box::new(Cls::Dec)) } }
pub proof fn lem_run_span(s: Seq<char>, i: int, d: bool) requires 0 <= i < s.len(), is_dec(s[i]) == d ensures run_len(s.skip(i)) == span(cls_of(d), s, i) decreases s.len() - i {
    reveal_with_fuel(in_cls, 8);
    let t = s.skip(i);
    assert(t[0] == s[i]);
    assert(in_cls(cls_of(d), s[i]));
    if t.len() > 1 {
        assert(t[1] == s[i + 1]);
        assert(t.drop_first() =~= s.skip(i + 1));
        if is_dec(s[i + 1]) == d { lem_run_span(s, i + 1, d); } else { assert(!in_cls(cls_of(d), s[i + 1])); assert(span(cls_of(d), s, i + 1) == 0); }
    } else { assert(span(cls_of(d), s, i + 1) == 0); }
}
pub proof fn lem_runs_at(g: bool, s: Seq<char>, i: int) requires 0 <= i < s.len() ensures ends(re_runs(g), s, i).len() > 0, ends(re_runs(g), s, i)[0].i == i + run_len(s.skip(i)), 1 <= run_len(s.skip(i)) <= s.len() - i {
    reveal_with_fuel(in_cls, 8);
    let d = is_dec(s[i]);
    lem_run_span(s, i, d);
    let (k1, k2) = (Cls::Dec, Cls::Not(Box::new(Cls::Dec)));
    assert(in_cls(cls_of(d), s[i]));
    lem_span(k1, s, i); lem_span(k2, s, i); lem_span(cls_of(d), s, i);
    assert(span(cls_of(d), s, i) >= 1) by { if i + 1 <= s.len() { lem_span(cls_of(d), s, i + 1); } }
    assert(in_cls(k1, s[i]) == d && in_cls(k2, s[i]) == !d);
    assert(d ==> span(k2, s, i) == 0); assert(!d ==> span(k1, s, i) == 0);
    lem_plus(k1, s, from(i), s.len()); lem_plus(k2, s, from(i), s.len());
    let (a, b) = (run(grouped(g, 1, plus(Re::Set(k1))), s, from(i), s.len()), run(grouped(g, 2, plus(Re::Set(k2))), s, from(i), s.len()));
    assert(ends(re_runs(g), s, i) == a + b);
    assert(g ==> a == close(1, i, run(plus(Re::Set(k1)), s, from(i), s.len())));
    assert(g ==> b == close(2, i, run(plus(Re::Set(k2)), s, from(i), s.len())));
    if d { assert(a.len() > 0 && a[0].i == i + span(k1, s, i)); } else { assert(a.len() == 0); assert((a + b)[0] == b[0]); }
}
pub proof fn lem_runs_end(g: bool, s: Seq<char>) ensures ends(re_runs(g), s, s.len() as int).len() == 0 {
    reveal_with_fuel(in_cls, 8);
    let i = s.len() as int;
    let (k1, k2) = (Cls::Dec, Cls::Not(Box::new(Cls::Dec)));
    lem_plus(k1, s, from(i), s.len()); lem_plus(k2, s, from(i), s.len());
    assert(run(grouped(g, 1, plus(Re::Set(k1))), s, from(i), s.len()).len() == 0);
    assert(run(grouped(g, 2, plus(Re::Set(k2))), s, from(i), s.len()).len() == 0);
}
pub proof fn lem_finds_runs(g: bool, s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures finds(re_runs(g), s, i, i) == runs(s.skip(i)) decreases s.len() - i {
    let r = re_runs(g);
    if i < s.len() {
        lem_runs_at(g, s, i);
        assert(seek(r, s, i) == i);
        let b = i + run_len(s.skip(i));
        lem_finds_runs(g, s, b);
        assert(s.skip(i).take(run_len(s.skip(i))) =~= s.subrange(i, b));
        assert(s.skip(i).skip(run_len(s.skip(i))) =~= s.skip(b));
    } else {
        lem_runs_end(g, s);
        assert(seek(r, s, i + 1) == -1);
        assert(seek(r, s, i) == -1);
        assert(s.skip(i).len() == 0);
    }
}
pub proof fn lem_re_runs(g: bool, s: Seq<char>) ensures finds(re_runs(g), s, 0, -1) == runs(s) {
    assert(s.skip(0) =~= s);
    lem_finds_runs(g, s, 0);
    if s.len() > 0 { lem_runs_at(g, s, 0); assert(seek(re_runs(g), s, 0) == 0); } else { lem_runs_end(g, s); assert(seek(re_runs(g), s, 1) == -1); assert(seek(re_runs(g), s, 0) == -1); }
}
pub proof fn lem_pat_runs(g: bool, p: Seq<char>, s: Seq<char>) requires re_ast(p) == Some(re_runs(g)) ensures re_find(p, s) == runs(s) { assert(unanchored(re_runs(g))) by { reveal_with_fuel(unanchored, 12); } ax_re_find(p, s); lem_re_runs(g, s); }
}
}
use vx_parse_re::*;
verus! {
pub open spec fn is_sep(c: char) -> bool { c == '.' || c == '-' || c == '_' }
pub open spec fn sep_pred() -> spec_fn(char) -> bool { |c: char| is_sep(c) }
/// C02: one run of characters as a component
pub open spec fn run_part(r: Seq<char>) -> PV { if all_digits(r) && val(r) <= 2147483647 { PV::Int(val(r)) } else { PV::Text(r) } }
pub open spec fn run_parts(rs: Seq<Seq<char>>) -> Seq<PV> { Seq::new(rs.len(), |i: int| run_part(rs[i])) }
pub open spec fn flat(ps: Seq<Seq<char>>) -> Seq<PV> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { flat(ps.drop_last()) + run_parts(runs(ps.last())) } }
pub open spec fn sp_epoch(s: Seq<char>) -> Seq<Seq<char>> { split_on(s, is_char('!')) }
pub open spec fn sp_body(s: Seq<char>) -> Seq<char> { sp_epoch(s).last() }
pub open spec fn sp_local(s: Seq<char>) -> Seq<Seq<char>> { split_on(sp_body(s), is_char('+')) }
pub open spec fn sp_epoch_val(s: Seq<char>) -> Option<int> { int_of(sp_epoch(s)[0], i16::MIN as int, i16::MAX as int) }
/// C01
pub open spec fn text_ok(s: Seq<char>) -> bool {
    &&& sp_epoch(s).len() <= 2
    &&& sp_epoch(s).len() == 2 ==> sp_epoch_val(s) is Some
    &&& sp_local(s).len() <= 2
}
/// C02
pub open spec fn parsed(s: Seq<char>) -> Seq<PV> {
    if s.len() == 0 { seq![PV::Empty] } else {
        (if sp_epoch(s).len() == 2 { seq![PV::Epoch(sp_epoch_val(s).unwrap())] } else { Seq::empty() })
        + flat(split_on(sp_local(s)[0], sep_pred()))
        + (if sp_local(s).len() == 2 && sp_local(s)[1].len() > 0 { seq![PV::Lex(sp_local(s)[1])] } else { Seq::empty() })
    }
}
}
verus! {
pub open spec fn uniform(r: Seq<char>) -> bool { r.len() > 0 && forall|j: int| 0 <= j < r.len() ==> is_dec(#[trigger] r[j]) == is_dec(r[0]) }
pub proof fn lem_run_len(s: Seq<char>) requires s.len() > 0 ensures 1 <= run_len(s) <= s.len(), uniform(s.take(run_len(s))), run_len(s) < s.len() ==> is_dec(s[run_len(s)]) != is_dec(s[0]) decreases s.len() {
    if s.len() > 1 && is_dec(s[0]) == is_dec(s[1]) {
        let d = s.drop_first();
        lem_run_len(d);
        let (a, b) = (s.take(run_len(s)), d.take(run_len(d)));
        assert forall|j: int| 0 <= j < a.len() implies is_dec(#[trigger] a[j]) == is_dec(a[0]) by { if j > 0 { assert(a[j] == b[j - 1]); assert(b[0] == s[1]); } }
    }
}
pub proof fn lem_runs_uniform(s: Seq<char>, i: int) requires 0 <= i < runs(s).len() ensures uniform(runs(s)[i]) decreases s.len() {
    lem_run_len(s);
    if i > 0 { lem_runs_uniform(s.skip(run_len(s)), i - 1); }
}
pub proof fn lem_val_nonneg(s: Seq<char>) requires all_digits(s) ensures val(s) >= 0 decreases s.len() { if s.len() > 0 { assert(is_digit(s.last())); assert(all_digits(s.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies is_digit(#[trigger] s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); } } lem_val_nonneg(s.drop_last()); } }
/// what i32's parser makes of a run is what the property says of it
pub proof fn lem_run_value(r: Seq<char>) requires uniform(r) ensures match int_of(r, i32::MIN as int, i32::MAX as int) { Some(n) => run_part(r) == PV::Int(n), None => run_part(r) == PV::Text(r) } {
    assert(!is_dec('+') && !is_dec('-'));
    if all_digits(r) {
        lem_val_nonneg(r);
        assert(is_digit(r[0]));
    } else {
        let d = r.drop_first();
        if r[0] == '-' || r[0] == '+' {
            if d.len() > 0 { assert(d[0] == r[1]); assert(is_dec(r[1]) == is_dec(r[0])); assert(!is_digit(d[0])); assert(!all_digits(d)); }
        }
    }
}
pub broadcast proof fn lem_pvs_push_b(s: Seq<VersionPart>, p: VersionPart) ensures #[trigger] pvs(s.push(p)) == pvs(s).push(pv(p)) { assert(pvs(s.push(p)) =~= pvs(s).push(pv(p))); }
pub proof fn lem_run_parts_step(rs: Seq<Seq<char>>, k: int) requires 0 <= k < rs.len() ensures run_parts(rs.take(k + 1)) == run_parts(rs.take(k)).push(run_part(rs[k])) { assert(run_parts(rs.take(k + 1)) =~= run_parts(rs.take(k)).push(run_part(rs[k]))); }
pub proof fn lem_flat_step(ps: Seq<Seq<char>>, k: int) requires 0 <= k < ps.len() ensures flat(ps.take(k + 1)) == flat(ps.take(k)) + run_parts(runs(ps[k])) { assert(ps.take(k + 1).drop_last() =~= ps.take(k)); assert(ps.take(k + 1).last() == ps[k]); }
}
verus! {
pub proof fn lem_empty_text(s: Seq<char>) requires s.len() == 0 ensures sp_epoch(s) == seq![s], sp_local(s) == seq![s], flat(split_on(s, sep_pred())) == Seq::<PV>::empty() {
    assert(split_on(s, is_char('!')) == seq![s]);
    assert(sp_body(s) == s);
    assert(split_on(s, is_char('+')) == seq![s]);
    assert(split_on(s, sep_pred()) == seq![s]);
    lem_flat_step(seq![s], 0);
    assert(seq![s].take(1) =~= seq![s]); assert(seq![s].take(0) =~= Seq::empty());
    assert(runs(s) =~= Seq::empty());
    assert(flat(Seq::<Seq<char>>::empty()) =~= Seq::empty());
    assert(flat(seq![s]) =~= Seq::empty());
}
}
verus! {
/// `v` is the version of the text `s`
pub open spec fn is_version(v: Version, s: Seq<char>) -> bool { v.version@ == s && v@ == parsed(s) }
pub open spec fn version_result(s: Seq<char>, r: Result<Version, VersionParsingError>) -> bool { match r { Ok(v) => text_ok(s) && is_version(v, s), Err(_) => !text_ok(s) } }
impl VxFromStr for Version {
    type VxErr = VersionParsingError;
    open spec fn vx_spec(s: Seq<char>, r: Result<Version, VersionParsingError>) -> bool { version_result(s, r) }
    fn vx_from_str(s: &str) -> (r: Result<Version, VersionParsingError>) { Version::from_str(s) }
}
}

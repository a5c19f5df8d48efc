verus! {
pub open spec fn count(s: Seq<char>, p: spec_fn(char) -> bool) -> int decreases s.len() { if s.len() == 0 { 0 } else { count(s.drop_first(), p) + (if p(s[0]) { 1int } else { 0 }) } }
/// the pieces joined by single separator characters of the text
pub open spec fn joined(ps: Seq<Seq<char>>, seps: Seq<char>) -> Seq<char> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else if ps.len() == 1 || seps.len() == 0 { ps[0] } else { ps[0] + seq![seps[0]] + joined(ps.drop_first(), seps.drop_first()) } }
pub proof fn lem_first(s: Seq<char>, p: spec_fn(char) -> bool) ensures 0 <= first(s, p) <= s.len(), first(s, p) < s.len() ==> p(s[first(s, p)]), forall|i: int| 0 <= i < first(s, p) ==> !p(#[trigger] s[i]), count(s, p) == (if first(s, p) < s.len() { 1 + count(s.skip(first(s, p) + 1), p) } else { 0 }) decreases s.len() {
    if s.len() > 0 && !p(s[0]) {
        let d = s.drop_first();
        lem_first(d, p);
        assert forall|i: int| 0 <= i < first(s, p) implies !p(#[trigger] s[i]) by { if i > 0 { assert(d[i - 1] == s[i]); } }
        if first(d, p) < d.len() { assert(d.skip(first(d, p) + 1) =~= s.skip(first(s, p) + 1)); }
    } else if s.len() > 0 { assert(s.skip(1) =~= s.drop_first()); }
}
/// C01: a text has one piece more than it has separators, so 'at most one' is about the number of '!' and '+'
pub proof fn thm_pieces(s: Seq<char>, p: spec_fn(char) -> bool) ensures split_on(s, p).len() == count(s, p) + 1, count(s, p) >= 0 decreases s.len() {
    lem_first(s, p);
    if first(s, p) < s.len() { thm_pieces(s.skip(first(s, p) + 1), p); }
}
/// ... no piece contains a separator, and the pieces with their separators between them are the text
pub proof fn thm_pieces_content(s: Seq<char>, p: spec_fn(char) -> bool, i: int, j: int) requires 0 <= i < split_on(s, p).len(), 0 <= j < split_on(s, p)[i].len() ensures !p(split_on(s, p)[i][j]) decreases s.len() {
    lem_first(s, p);
    let k = first(s, p);
    if k < s.len() {
        if i == 0 { assert(split_on(s, p)[0] == s.take(k)); assert(s.take(k)[j] == s[j]); }
        else { assert(split_on(s, p)[i] == split_on(s.skip(k + 1), p)[i - 1]); thm_pieces_content(s.skip(k + 1), p, i - 1, j); }
    }
}
pub open spec fn sepd(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if p(s[0]) { seq![s[0]] + sepd(s.drop_first(), p) } else { sepd(s.drop_first(), p) } }
pub proof fn lem_sepd(s: Seq<char>, p: spec_fn(char) -> bool) ensures first(s, p) < s.len() ==> sepd(s, p) == seq![s[first(s, p)]] + sepd(s.skip(first(s, p) + 1), p), first(s, p) >= s.len() ==> sepd(s, p).len() == 0 decreases s.len() {
    lem_first(s, p);
    if s.len() > 0 {
        let d = s.drop_first();
        lem_first(d, p);
        if p(s[0]) { assert(s.skip(1) =~= d); } else { lem_sepd(d, p); if first(d, p) < d.len() { assert(d.skip(first(d, p) + 1) =~= s.skip(first(s, p) + 1)); } }
    }
}
pub proof fn thm_pieces_joined(s: Seq<char>, p: spec_fn(char) -> bool) ensures joined(split_on(s, p), sepd(s, p)) == s decreases s.len() {
    lem_first(s, p); lem_sepd(s, p);
    let k = first(s, p);
    if k < s.len() {
        let t = s.skip(k + 1);
        thm_pieces_joined(t, p); thm_pieces(t, p);
        let ps = split_on(s, p);
        assert(ps.drop_first() =~= split_on(t, p));
        assert(sepd(s, p).drop_first() =~= sepd(t, p));
        assert(s.take(k) + seq![s[k]] + t =~= s);
    } else { assert(split_on(s, p)[0] == s); }
}
pub open spec fn concat(rs: Seq<Seq<char>>) -> Seq<char> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { rs[0] + concat(rs.drop_first()) } }
/// C02: the runs are non-empty, of one kind each, alternate in kind (so they are maximal), and together are the text: nothing is dropped, merged, reordered or invented
pub proof fn thm_c02_runs(s: Seq<char>) ensures concat(runs(s)) == s, forall|i: int| 0 <= i < runs(s).len() ==> uniform(#[trigger] runs(s)[i]), forall|i: int| 0 <= i < runs(s).len() - 1 ==> is_dec(#[trigger] runs(s)[i][0]) != is_dec(runs(s)[i + 1][0]) decreases s.len() {
    if s.len() > 0 {
        lem_run_len(s);
        let k = run_len(s);
        let t = s.skip(k);
        thm_c02_runs(t);
        assert(runs(s).drop_first() =~= runs(t));
        assert(s.take(k) + t =~= s);
        assert forall|i: int| 0 <= i < runs(s).len() implies uniform(#[trigger] runs(s)[i]) by { if i > 0 { assert(runs(s)[i] == runs(t)[i - 1]); } }
        assert forall|i: int| 0 <= i < runs(s).len() - 1 implies is_dec(#[trigger] runs(s)[i][0]) != is_dec(runs(s)[i + 1][0]) by {
            assert(runs(s)[i + 1] == runs(t)[i]);
            if i > 0 { assert(runs(s)[i] == runs(t)[i - 1]); }
            else { lem_run_len(t); assert(runs(t)[0] == t.take(run_len(t))); assert(t.take(run_len(t))[0] == s[k]); assert(runs(s)[0][0] == s[0]); }
        }
    } else { assert(runs(s) =~= Seq::empty()); assert(concat(runs(s)) =~= s); }
}
/// C02 about the running code
pub fn thm_c02_exec(s: &str) {
    match s.vx_parse::<Version>() {
        Ok(v) => {
            let n = v.part_count();
            assert(n == parsed(s@).len());
            let ps = v.parts();
            assert(pvs(ps@) == parsed(s@));
            assert(v.as_str_spec() == s@);
        },
        Err(_) => { assert(!text_ok(s@)); }
    }
}
impl Version { pub open spec fn as_str_spec(&self) -> Seq<char> { self.version@ } }
/// C01 / C03 about the running code
pub fn thm_c01_exec(s: &str, i: usize) -> (r: bool) ensures r == text_ok(s@) {
    match s.vx_parse::<Version>() {
        Ok(v) => {
            let (t, n, p) = (v.as_str(), v.part_count(), v.part(i));
            assert(t@ == s@);
            assert(p is Ok == (i < n));
            assert(i < n ==> pv(*p.unwrap()) == parsed(s@)[i as int]);
            true
        },
        Err(_) => false
    }
}
}

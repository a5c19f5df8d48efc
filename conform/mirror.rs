// Executable twins of the specification functions the trusted contracts are written in.  Each is *proved* to compute what the
// specification says (its ensures clause), so that running it beside the real library function tests the contract itself.
// Assembled by conform.py behind contracts/prelude.rs, text.rs, regex.rs, fmt_base.rs, lem_glob.rs, word for word.
pub mod vx_mirror {
use vstd::prelude::*;
use super::vx_text::*; use super::vx_pre::*; use super::vx_re::*; use super::vx_fmt::*; use super::vx_glob::*;
use super::{glob_pat, glob_body};
use std::cmp::Ordering;
verus! {
pub type T = Vec<char>;
// ----- characters: std says which
#[verifier::external_body] pub fn x_ws(c: char) -> (r: bool) ensures r == is_ws(c) { c.is_whitespace() }
#[verifier::external_body] pub fn x_dec(c: char) -> (r: bool) ensures r == is_dec(c) { super::dec(c) }
#[verifier::external_body] pub fn x_sfold(c: char) -> (r: char) ensures r == sfold(c) { super::fold1(c) }
#[verifier::external_body] pub fn x_stop<A>() -> (r: A) ensures false { panic!("outside the texts") }
// ----- parts of texts
pub fn sub(s: &T, a: usize, b: usize) -> (r: T) requires a <= b <= s.len() ensures r@ == s@.subrange(a as int, b as int) {
    let mut r: T = Vec::new();
    let mut j = a;
    while j < b invariant a <= j <= b <= s.len(), r@ =~= s@.subrange(a as int, j as int) decreases b - j { r.push(s[j]); j += 1; }
    r
}
pub fn skip(s: &T, a: usize) -> (r: T) requires a <= s.len() ensures r@ == s@.skip(a as int) { let r = sub(s, a, s.len()); proof { assert(r@ =~= s@.skip(a as int)); } r }
pub fn take(s: &T, a: usize) -> (r: T) requires a <= s.len() ensures r@ == s@.take(a as int) { let r = sub(s, 0, a); proof { assert(r@ =~= s@.take(a as int)); } r }
pub fn whole(s: &T) -> (r: T) ensures r@ == s@ { let r = sub(s, 0, s.len()); proof { assert(r@ =~= s@); } r }
pub fn cat2(a: &T, b: &T) -> (r: T) ensures r@ == a@ + b@ {
    let mut r = sub(a, 0, a.len());
    let mut j = 0;
    while j < b.len() invariant 0 <= j <= b.len(), r@ =~= a@ + b@.take(j as int) decreases b.len() - j { r.push(b[j]); j += 1; }
    proof { assert(b@.take(b@.len() as int) =~= b@); }
    r
}
pub fn same(a: &T, b: &T) -> (r: bool) ensures r == (a@ == b@) {
    if a.len() != b.len() { return false; }
    let mut j = 0;
    while j < a.len() invariant a.len() == b.len(), 0 <= j <= a.len(), forall|k: int| 0 <= k < j ==> #[trigger] a[k] == b[k] decreases a.len() - j { if a[j] != b[j] { return false; } j += 1; }
    proof { assert(a@ =~= b@); }
    true
}
/// one of these characters
pub open spec fn any_of(ps: Seq<char>) -> spec_fn(char) -> bool { |c: char| ps.contains(c) }
pub fn x_any_of(ps: &T, c: char) -> (r: bool) ensures r == any_of(ps@)(c) {
    let mut j = 0;
    while j < ps.len() invariant 0 <= j <= ps.len(), forall|k: int| 0 <= k < j ==> ps[k] != c decreases ps.len() - j { if ps[j] == c { proof { assert(ps@[j as int] == c); } return true; } j += 1; }
    false
}
/// for one character: what the contracts with is_char say
pub proof fn lem_one(p: char) ensures any_of(seq![p]) == is_char(p) {
    assert forall|c: char| #[trigger] any_of(seq![p])(c) == is_char(p)(c) by { if c == p { assert(seq![p][0] == c); } }
    assert(any_of(seq![p]) =~= is_char(p));
}
// ----- trimming
pub fn x_trim_l(s: &T) -> (r: T) ensures r@ == trim_l(s@) decreases s.len() { if s.len() > 0 && x_ws(s[0]) { let d = skip(s, 1); proof { assert(d@ =~= s@.drop_first()); } x_trim_l(&d) } else { whole(s) } }
pub fn x_trim_r(s: &T) -> (r: T) ensures r@ == trim_r(s@) decreases s.len() { if s.len() > 0 && x_ws(s[s.len() - 1]) { let d = take(s, s.len() - 1); proof { assert(d@ =~= s@.drop_last()); } x_trim_r(&d) } else { whole(s) } }
pub fn x_trimmed(s: &T) -> (r: T) ensures r@ == trimmed(s@) { let a = x_trim_l(s); x_trim_r(&a) }
pub fn x_trim_end(s: &T, p: &T) -> (r: T) ensures r@ == trim_end(s@, any_of(p@)) decreases s.len() { if s.len() > 0 && x_any_of(p, s[s.len() - 1]) { let d = take(s, s.len() - 1); proof { assert(d@ =~= s@.drop_last()); } x_trim_end(&d, p) } else { whole(s) } }
pub fn x_trim_front(s: &T, p: &T) -> (r: T) ensures r@ == trim_front(s@, any_of(p@)) decreases s.len() { if s.len() > 0 && x_any_of(p, s[0]) { let d = skip(s, 1); proof { assert(d@ =~= s@.drop_first()); } x_trim_front(&d, p) } else { whole(s) } }
// ----- splitting
pub open spec fn texts(v: Seq<T>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub fn cons(a: T, v: Vec<T>) -> (r: Vec<T>) ensures texts(r@) == seq![a@] + texts(v@) {
    let mut r: Vec<T> = Vec::new();
    let mut v = v;
    r.push(a);
    let ghost w = v@; let ghost h = r@;
    r.append(&mut v);
    proof { assert(r@ =~= h + w); assert(texts(r@) =~= seq![a@] + texts(w)); }
    r
}
pub fn single(a: T) -> (r: Vec<T>) ensures texts(r@) == seq![a@] { let mut r: Vec<T> = Vec::new(); r.push(a); proof { assert(texts(r@) =~= seq![a@]); } r }
pub fn x_first(s: &T, p: &T) -> (r: usize) ensures r == first(s@, any_of(p@)), r <= s.len() decreases s.len() {
    if s.len() == 0 || x_any_of(p, s[0]) { 0 } else { let d = skip(s, 1); proof { assert(d@ =~= s@.drop_first()); } 1 + x_first(&d, p) }
}
pub fn x_split(s: &T, p: &T) -> (r: Vec<T>) ensures texts(r@) == split_on(s@, any_of(p@)) decreases s.len() {
    let n = x_first(s, p);
    if n >= s.len() { single(whole(s)) } else { let d = skip(s, n + 1); let rest = x_split(&d, p); cons(take(s, n), rest) }
}
pub fn x_split_most(s: &T, p: &T, n: usize) -> (r: Vec<T>) ensures texts(r@) == split_most(s@, any_of(p@), n as int) decreases n {
    if n == 0 { let r: Vec<T> = Vec::new(); proof { assert(texts(r@) =~= Seq::<Seq<char>>::empty()); } return r; }
    let f = x_first(s, p);
    if n == 1 || f >= s.len() { single(whole(s)) } else { let d = skip(s, f + 1); let rest = x_split_most(&d, p, n - 1); cons(take(s, f), rest) }
}
pub fn x_joined(ss: &Vec<T>, n: usize, sep: &T) -> (r: T) requires n <= ss.len() ensures r@ == joined_with(texts(ss@).take(n as int), sep@) decreases n {
    proof { if n > 0 { assert(texts(ss@).take(n as int).drop_last() =~= texts(ss@).take(n - 1)); } }
    if n == 0 { let r: T = Vec::new(); proof { assert(r@ =~= Seq::<char>::empty()); } r }
    else if n == 1 { sub(&ss[0], 0, ss[0].len()) }
    else { let a = x_joined(ss, n - 1, sep); let b = cat2(&a, sep); cat2(&b, &ss[n - 1]) }
}
// ----- what begins, ends, occurs
pub fn x_has_prefix(s: &T, p: &T) -> (r: bool) ensures r == has_prefix(s@, p@) { if s.len() < p.len() { return false; } let h = take(s, p.len()); same(&h, p) }
pub fn x_has_suffix(s: &T, p: &T) -> (r: bool) ensures r == has_suffix(s@, p@) { if s.len() < p.len() { return false; } let h = skip(s, s.len() - p.len()); same(&h, p) }
pub fn x_occurs(s: &T, p: &T) -> (r: bool) requires s.len() < 1000000 ensures r == occurs(s@, p@) {
    if s.len() < p.len() { return false; }
    let mut i = 0;
    while i <= s.len() - p.len() invariant s.len() < 1000000, p.len() <= s.len(), 0 <= i <= s.len() - p.len() + 1, forall|k: int| 0 <= k < i ==> !is_sub(s@, k, p@) decreases s.len() - p.len() + 1 - i {
        let h = sub(s, i, i + p.len());
        if same(&h, p) { proof { assert(is_sub(s@, i as int, p@)); } return true; }
        i += 1;
    }
    false
}
/// where the first, the last occurrence begins
pub fn x_find(s: &T, p: &T) -> (r: Option<usize>) requires s.len() < 1000000 ensures match r { Some(i) => i <= s.len() && is_sub(s@, i as int, p@) && forall|j: int| 0 <= j < i ==> !#[trigger] is_sub(s@, j, p@), None => !occurs(s@, p@) } {
    if s.len() < p.len() { return None; }
    let mut i = 0;
    while i <= s.len() - p.len() invariant s.len() < 1000000, p.len() <= s.len(), 0 <= i <= s.len() - p.len() + 1, forall|k: int| 0 <= k < i ==> !#[trigger] is_sub(s@, k, p@) decreases s.len() - p.len() + 1 - i {
        let h = sub(s, i, i + p.len());
        if same(&h, p) { proof { assert(is_sub(s@, i as int, p@)); } return Some(i); }
        i += 1;
    }
    None
}
pub fn x_rfind(s: &T, p: &T) -> (r: Option<usize>) requires s.len() < 1000000 ensures match r { Some(i) => i <= s.len() && is_sub(s@, i as int, p@) && forall|j: int| i < j < s.len() ==> !#[trigger] is_sub(s@, j, p@), None => !occurs(s@, p@) } {
    if s.len() < p.len() { return None; }
    let mut i = s.len() - p.len();
    loop invariant s.len() < 1000000, p.len() <= s.len(), 0 <= i <= s.len() - p.len(), forall|k: int| i < k ==> !#[trigger] is_sub(s@, k, p@) decreases i {
        let h = sub(s, i, i + p.len());
        if same(&h, p) { proof { assert(is_sub(s@, i as int, p@)); } return Some(i); }
        if i == 0 { return None; }
        i -= 1;
    }
}
pub fn x_ascii_up(s: &T) -> (r: T) ensures r@ == s@.map_values(|c: char| ascii_up(c)) {
    let mut r: T = Vec::new();
    let mut j = 0;
    while j < s.len() invariant 0 <= j <= s.len(), r@ =~= s@.take(j as int).map_values(|c: char| ascii_up(c)) decreases s.len() - j {
        let c = s[j];
        r.push(if 97 <= c as u32 && c as u32 <= 122 { ((c as u8) - 32) as u8 as char } else { c });
        j += 1;
    }
    proof { assert(s@.take(s@.len() as int) =~= s@); }
    r
}
/// the classes of a character
pub fn x_classes(c: char) -> (r: (bool, bool, bool, bool, bool, bool)) ensures r == (ch_digit(&c), ch_upper(&c), ch_lower(&c), ch_alpha(&c), ch_alnum(&c), ch_punct(&c)), ch_ten(c, 10) == r.0 {
    let n = c as u32;
    let d = 48 <= n && n <= 57; let u = 65 <= n && n <= 90; let l = 97 <= n && n <= 122;
    (d, u, l, u || l, u || l || d, (33 <= n && n <= 47) || (58 <= n && n <= 64) || (91 <= n && n <= 96) || (123 <= n && n <= 126))
}
pub fn x_repl(s: &T, c: char, to: &T) -> (r: T) ensures r@ == repl(s@, c, to@) decreases s.len() {
    if s.len() == 0 { return sub(s, 0, 0); }
    let d = take(s, s.len() - 1);
    proof { assert(d@ =~= s@.drop_last()); }
    let a = x_repl(&d, c, to);
    if s[s.len() - 1] == c { cat2(&a, to) } else { let mut a = a; a.push(s[s.len() - 1]); proof { assert(a@ =~= repl(d@, c, to@) + seq![s@.last()]); } a }
}
pub fn x_lex(a: &T, b: &T) -> (r: Ordering) ensures r == lex(a@, b@) decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] as u32 == b[0] as u32 { let c = skip(a, 1); let d = skip(b, 1); proof { assert(c@ =~= a@.drop_first()); assert(d@ =~= b@.drop_first()); } x_lex(&c, &d) }
    else if (a[0] as u32) < (b[0] as u32) { Ordering::Less } else { Ordering::Greater }
}
pub fn x_ascii_low(s: &T) -> (r: T) ensures r@ == s@.map_values(|c: char| ascii_low(c)) {
    let mut r: T = Vec::new();
    let mut j = 0;
    while j < s.len() invariant 0 <= j <= s.len(), r@ =~= s@.take(j as int).map_values(|c: char| ascii_low(c)) decreases s.len() - j {
        let c = s[j];
        r.push(if 65 <= c as u32 && c as u32 <= 90 { ((c as u8) + 32) as u8 as char } else { c });
        j += 1;
    }
    proof { assert(s@.take(s@.len() as int) =~= s@); }
    r
}
// ----- integers
/// the value, as far as 10^20; more than that is 10^20
pub open spec fn cap(n: int) -> int { if n < 100_000_000_000_000_000_000 { n } else { 100_000_000_000_000_000_000 } }
pub proof fn lem_val(s: Seq<char>) requires all_digits(s) ensures val(s) >= 0 decreases s.len() {
    if s.len() > 0 { assert(is_digit(s[s.len() - 1])); assert forall|i: int| 0 <= i < s.drop_last().len() implies is_digit(#[trigger] s.drop_last()[i]) by { assert(is_digit(s[i])); } lem_val(s.drop_last()); }
}
/// the value of digits, or none
pub fn x_number(d: &T) -> (r: Option<i128>) ensures match r { Some(v) => d@.len() > 0 && all_digits(d@) && val(d@) >= 0 && v == cap(val(d@)), None => d@.len() == 0 || !all_digits(d@) } {
    if d.len() == 0 { return None; }
    let mut v: i128 = 0;
    let mut j = 0;
    while j < d.len() invariant 0 <= j <= d.len(), 0 <= v <= 100_000_000_000_000_000_000, all_digits(d@.take(j as int)), v == cap(val(d@.take(j as int))) decreases d.len() - j {
        let c = d[j];
        if !(48 <= c as u32 && c as u32 <= 57) { proof { assert(!is_digit(d@[j as int])); assert(!all_digits(d@)); } return None; }
        let x = (c as u32 - 48) as i128;
        proof {
            assert(d@.take(j + 1).drop_last() =~= d@.take(j as int));
            assert(d@.take(j + 1).last() == c);
            lem_val(d@.take(j as int));
            assert forall|i: int| 0 <= i < j + 1 implies is_digit(#[trigger] d@.take(j + 1)[i]) by { if i < j { assert(is_digit(d@.take(j as int)[i])); } }
            assert(val(d@.take(j + 1)) == 10 * val(d@.take(j as int)) + x);
        }
        v = if v * 10 + x >= 100_000_000_000_000_000_000 { 100_000_000_000_000_000_000 } else { v * 10 + x };
        j += 1;
    }
    proof { assert(d@.take(d@.len() as int) =~= d@); lem_val(d@); }
    Some(v)
}
pub fn x_int_of(s: &T, lo: i128, hi: i128) -> (r: Option<i128>) requires -100_000_000_000_000_000_000 < lo <= hi < 100_000_000_000_000_000_000 ensures match r { Some(n) => int_of(s@, lo as int, hi as int) == Some(n as int), None => int_of(s@, lo as int, hi as int) is None } {
    let neg = s.len() > 0 && s[0] == '-';
    let d = if s.len() > 0 && (s[0] == '-' || s[0] == '+') { skip(s, 1) } else { whole(s) };
    proof { if s@.len() > 0 { assert(s@.skip(1) =~= s@.drop_first()); } }
    match x_number(&d) {
        None => None,
        Some(v) => { let w = if neg { -v } else { v }; if lo <= w && w <= hi { Some(w) } else { None } }
    }
}
pub fn x_nat_of(s: &T, hi: i128) -> (r: Option<i128>) requires 0 <= hi < 100_000_000_000_000_000_000 ensures match r { Some(n) => nat_of(s@, hi as int) == Some(n as int), None => nat_of(s@, hi as int) is None } {
    let d = if s.len() > 0 && s[0] == '+' { skip(s, 1) } else { whole(s) };
    proof { if s@.len() > 0 { assert(s@.skip(1) =~= s@.drop_first()); } }
    match x_number(&d) { None => None, Some(v) => if v <= hi { Some(v) } else { None } }
}
pub fn x_digits(n: u64) -> (r: T) ensures r@ == digits(n as int) decreases n {
    if n < 10 { let mut r: T = Vec::new(); r.push(((48 + n) as u8) as char); proof { assert(r@ =~= seq![digit(n as int)]); } r }
    else { let mut r = x_digits(n / 10); r.push(((48 + n % 10) as u8) as char); r }
}
pub fn x_decimal(n: i64) -> (r: T) requires n > -1_000_000_000_000 ensures r@ == decimal(n as int) {
    if n < 0 { let mut m: T = Vec::new(); m.push('-'); let d = x_digits((-n) as u64); proof { assert(m@ =~= seq!['-']); } cat2(&m, &d) } else { x_digits(n as u64) }
}
// ----- bytes
pub fn x_clen(c: char) -> (r: usize) ensures r == clen(c), 1 <= r <= 4 { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
pub proof fn lem_blen_le(s: Seq<char>) ensures 0 <= blen(s) <= 4 * s.len() decreases s.len() { if s.len() > 0 { lem_blen_le(s.drop_last()); } }
/// the number of characters in the first `a` bytes, if they end between characters
pub fn x_at_byte(s: &T, a: usize) -> (r: Option<usize>) requires s.len() < 1000000 ensures match r { Some(i) => at_byte(s@, a as int, i as int), None => !boundary(s@, a as int) } {
    let mut i = 0; let mut b = 0usize;
    proof { assert(s@.take(0) =~= Seq::<char>::empty()); }
    loop
        invariant s.len() < 1000000, 0 <= i <= s.len(), b == blen(s@.take(i as int)), b <= 4 * i, forall|k: int| 0 <= k < i ==> blen(s@.take(k)) != a
        decreases s.len() - i
    {
        if b == a { proof { assert(at_byte(s@, a as int, i as int)); } return Some(i); }
        if i == s.len() { proof { assert forall|k: int| !at_byte(s@, a as int, k) by { if 0 <= k <= s@.len() { if k == s@.len() {} else { assert(blen(s@.take(k)) != a); } } } } return None; }
        proof { assert(s@.take(i + 1).drop_last() =~= s@.take(i as int)); }
        b = b + x_clen(s[i]);
        i += 1;
    }
}
pub fn x_slice(s: &T, a: usize, b: usize) -> (r: Option<T>) requires s.len() < 1000000 ensures match r { Some(t) => slice_ok(s@, a as int, b as int) && t@ == slice_of(s@, a as int, b as int), None => !slice_ok(s@, a as int, b as int) } {
    if a > b { return None; }
    match (x_at_byte(s, a), x_at_byte(s, b)) {
        (Some(i), Some(j)) => {
            proof { lem_cidx(s@, a as int, i as int); lem_cidx(s@, b as int, j as int); if i > j { lem_blen_mono(s@, j as int, i as int); } }
            Some(sub(s, i, j))
        }
        _ => None,
    }
}
pub fn x_slice_from(s: &T, a: usize) -> (r: Option<T>) requires s.len() < 1000000 ensures match r { Some(t) => boundary(s@, a as int) && t@ == s@.skip(cidx(s@, a as int)), None => !boundary(s@, a as int) } {
    match x_at_byte(s, a) { Some(i) => { proof { lem_cidx(s@, a as int, i as int); } Some(skip(s, i)) } None => None }
}
pub fn x_blen(s: &T) -> (r: usize) requires s.len() < 1000000 ensures r == blen(s@) {
    let mut i = 0; let mut b = 0usize;
    proof { assert(s@.take(0) =~= Seq::<char>::empty()); }
    while i < s.len() invariant s.len() < 1000000, 0 <= i <= s.len(), b == blen(s@.take(i as int)), b <= 4 * i decreases s.len() - i {
        proof { assert(s@.take(i + 1).drop_last() =~= s@.take(i as int)); }
        b = b + x_clen(s[i]);
        i += 1;
    }
    proof { assert(s@.take(s@.len() as int) =~= s@); }
    b
}
// ----- printing
pub fn x_list_plain(ts: &Vec<T>, n: usize) -> (r: T) requires n <= ts.len() ensures r@ == list_plain(texts(ts@).take(n as int)) decreases n {
    proof { if n > 0 { assert(texts(ts@).take(n as int).drop_last() =~= texts(ts@).take(n - 1)); } }
    if n == 0 { let r: T = Vec::new(); proof { assert(r@ =~= Seq::<char>::empty()); } r }
    else if n == 1 { sub(&ts[0], 0, ts[0].len()) }
    else {
        let mut a = x_list_plain(ts, n - 1);
        a.push(','); a.push(' ');
        proof { reveal_strlit(", "); assert(a@ =~= list_plain(texts(ts@).take(n - 1)) + ", "@); }
        cat2(&a, &ts[n - 1])
    }
}
pub fn x_indented(s: &T, fresh: bool) -> (r: T) ensures r@ == indented(s@, fresh) decreases s.len() {
    if s.len() == 0 { return sub(s, 0, 0); }
    let mut h: T = Vec::new();
    proof { reveal_strlit("    "); }
    if fresh { h.push(' '); h.push(' '); h.push(' '); h.push(' '); }
    proof { assert(h@ =~= (if fresh { "    "@ } else { Seq::empty() })); }
    h.push(s[0]);
    let d = skip(s, 1);
    proof { assert(d@ =~= s@.drop_first()); }
    let t = x_indented(&d, s[0] == '\n');
    proof { assert(h@ =~= (if fresh { "    "@ } else { Seq::empty() }) + seq![s@[0]]); }
    cat2(&h, &t)
}
pub fn x_list_lines(ts: &Vec<T>, n: usize) -> (r: T) requires n <= ts.len() ensures r@ == list_lines(texts(ts@).take(n as int)) decreases n {
    proof { if n > 0 { assert(texts(ts@).take(n as int).drop_last() =~= texts(ts@).take(n - 1)); } }
    if n == 0 { let r: T = Vec::new(); proof { assert(r@ =~= Seq::<char>::empty()); } return r; }
    let a = x_list_lines(ts, n - 1);
    let mut e = sub(&ts[n - 1], 0, ts[n - 1].len());
    e.push(','); e.push('\n');
    proof { reveal_strlit(",\n"); assert(e@ =~= ts@[n - 1]@ + ",\n"@); }
    let f = x_indented(&e, true);
    cat2(&a, &f)
}
pub fn x_list_debug(ts: &Vec<T>, alt: bool) -> (r: T) ensures r@ == list_debug(texts(ts@), alt) {
    proof { reveal_strlit("[\n"); reveal_strlit("["); reveal_strlit("]"); assert(texts(ts@).take(ts@.len() as int) =~= texts(ts@)); }
    let mut h: T = Vec::new();
    h.push('[');
    let b = if alt && ts.len() > 0 { h.push('\n'); x_list_lines(ts, ts.len()) } else { x_list_plain(ts, ts.len()) };
    let mut r = cat2(&h, &b);
    r.push(']');
    proof { assert(r@ =~= (if alt && ts@.len() > 0 { "[\n"@ + list_lines(texts(ts@)) + "]"@ } else { "["@ + list_plain(texts(ts@)) + "]"@ })); }
    r
}
// ----- regular expressions
pub enum XCls { Lit(char), Fold(char), Range(char, char), Dec, Ws, Any, Or(Box<XCls>, Box<XCls>), Not(Box<XCls>) }
pub enum XRe { Empty, Set(XCls), Start, End, Cat(Box<XRe>, Box<XRe>), Alt(Box<XRe>, Box<XRe>), Star(Box<XRe>), Opt(Box<XRe>), Group(usize, Box<XRe>) }
pub open spec fn cls_of(k: XCls) -> Cls decreases k {
    match k {
        XCls::Lit(d) => Cls::Lit(d), XCls::Fold(d) => Cls::Fold(d), XCls::Range(a, b) => Cls::Range(a, b), XCls::Dec => Cls::Dec, XCls::Ws => Cls::Ws, XCls::Any => Cls::Any,
        XCls::Or(x, y) => Cls::Or(Box::new(cls_of(*x)), Box::new(cls_of(*y))), XCls::Not(x) => Cls::Not(Box::new(cls_of(*x))),
    }
}
pub open spec fn re_of(r: XRe) -> Re decreases r {
    match r {
        XRe::Empty => Re::Empty, XRe::Set(k) => Re::Set(cls_of(k)), XRe::Start => Re::Start, XRe::End => Re::End,
        XRe::Cat(a, b) => Re::Cat(Box::new(re_of(*a)), Box::new(re_of(*b))), XRe::Alt(a, b) => Re::Alt(Box::new(re_of(*a)), Box::new(re_of(*b))),
        XRe::Star(a) => Re::Star(Box::new(re_of(*a))), XRe::Opt(a) => Re::Opt(Box::new(re_of(*a))), XRe::Group(k, a) => Re::Group(k as nat, Box::new(re_of(*a))),
    }
}
pub fn x_in(k: &XCls, c: char) -> (r: bool) ensures r == in_cls(cls_of(*k), c) decreases k {
    match k {
        XCls::Lit(d) => c == *d, XCls::Fold(d) => x_sfold(c) == *d, XCls::Range(a, b) => *a as u32 <= c as u32 && c as u32 <= *b as u32, XCls::Dec => x_dec(c), XCls::Ws => x_ws(c), XCls::Any => c != '\n',
        XCls::Or(x, y) => { let p = x_in(x, c); let q = x_in(y, c); p || q } XCls::Not(x) => !x_in(x, c),
    }
}
pub struct XAt { pub i: usize, pub g: Vec<(usize, usize, usize)> }
pub open spec fn map_of(g: Seq<(usize, usize, usize)>) -> Map<nat, (int, int)> decreases g.len() { if g.len() == 0 { Map::empty() } else { map_of(g.drop_last()).insert(g.last().0 as nat, (g.last().1 as int, g.last().2 as int)) } }
pub open spec fn at_of(t: XAt) -> At { At { i: t.i as int, g: map_of(t.g@) } }
pub open spec fn ats(v: Seq<XAt>) -> Seq<At> { Seq::new(v.len(), |j: int| at_of(v[j])) }
pub fn copy(t: &XAt) -> (r: XAt) ensures at_of(r) == at_of(*t) {
    let mut g: Vec<(usize, usize, usize)> = Vec::new();
    let mut j = 0;
    while j < t.g.len() invariant 0 <= j <= t.g.len(), g@ =~= t.g@.take(j as int) decreases t.g.len() - j { g.push(t.g[j]); j += 1; }
    proof { assert(t.g@.take(t.g@.len() as int) =~= t.g@); }
    XAt { i: t.i, g }
}
pub fn one(t: XAt) -> (r: Vec<XAt>) ensures ats(r@) == seq![at_of(t)] { let mut r: Vec<XAt> = Vec::new(); r.push(t); proof { assert(ats(r@) =~= seq![at_of(t)]); } r }
pub fn none() -> (r: Vec<XAt>) ensures r@.len() == 0, ats(r@) == Seq::<At>::empty() { let r: Vec<XAt> = Vec::new(); proof { assert(ats(r@) =~= Seq::<At>::empty()); } r }
pub fn both(a: Vec<XAt>, b: Vec<XAt>) -> (r: Vec<XAt>) ensures ats(r@) == ats(a@) + ats(b@) { let mut a = a; let mut b = b; let ghost x = a@; let ghost y = b@; a.append(&mut b); proof { assert(a@ =~= x + y); assert(ats(a@) =~= ats(x) + ats(y)); } a }
pub proof fn lem_beyond_push(ts: Seq<At>, t: At, i: int) ensures beyond(ts.push(t), i) == beyond(ts, i) + (if t.i > i { seq![t] } else { Seq::empty() }) decreases ts.len() {
    reveal_with_fuel(beyond, 2);
    if ts.len() == 0 { assert(ts.push(t).drop_first() =~= Seq::<At>::empty()); assert(beyond(ts.push(t), i) =~= (if t.i > i { seq![t] } else { Seq::empty() })); assert(beyond(ts, i) =~= Seq::<At>::empty()); assert(beyond(ts.push(t), i) =~= beyond(ts, i) + (if t.i > i { seq![t] } else { Seq::empty() })); }
    else {
        assert(ts.push(t).drop_first() =~= ts.drop_first().push(t));
        lem_beyond_push(ts.drop_first(), t, i);
        assert(beyond(ts.push(t), i) =~= beyond(ts, i) + (if t.i > i { seq![t] } else { Seq::empty() }));
    }
}
pub fn x_beyond(ts: &Vec<XAt>, i: usize) -> (r: Vec<XAt>) ensures ats(r@) == beyond(ats(ts@), i as int) {
    let mut r: Vec<XAt> = none();
    let mut j = 0;
    proof { assert(ats(ts@).take(0) =~= Seq::<At>::empty()); }
    while j < ts.len() invariant 0 <= j <= ts.len(), ats(r@) == beyond(ats(ts@).take(j as int), i as int) decreases ts.len() - j {
        proof { assert(ats(ts@).take(j + 1) =~= ats(ts@).take(j as int).push(at_of(ts@[j as int]))); lem_beyond_push(ats(ts@).take(j as int), at_of(ts@[j as int]), i as int); }
        if ts[j].i > i { let ghost x = r@; let t = copy(&ts[j]); r.push(t); proof { assert(ats(r@) =~= ats(x) + seq![at_of(t)]); } }
        else { proof { assert(ats(r@) + Seq::<At>::empty() =~= ats(r@)); } }
        j += 1;
    }
    proof { assert(ats(ts@).take(ts@.len() as int) =~= ats(ts@)); }
    r
}
pub fn x_close(k: usize, a: usize, ts: Vec<XAt>) -> (r: Vec<XAt>) ensures ats(r@) == close(k as nat, a as int, ats(ts@)) {
    let mut r: Vec<XAt> = none();
    let mut j = 0;
    while j < ts.len() invariant 0 <= j <= ts.len(), r.len() == j, forall|q: int| 0 <= q < j ==> at_of(#[trigger] r@[q]) == close(k as nat, a as int, ats(ts@))[q] decreases ts.len() - j {
        let mut t = copy(&ts[j]);
        let ghost g = t.g@;
        t.g.push((k, a, t.i));
        proof { assert(t.g@.drop_last() =~= g); }
        r.push(t);
        j += 1;
    }
    proof { assert(ats(r@) =~= close(k as nat, a as int, ats(ts@))); }
    r
}
pub fn x_run(r: &XRe, s: &T, t: &XAt, n: usize) -> (o: Vec<XAt>) ensures ats(o@) == run(re_of(*r), s@, at_of(*t), n as nat) decreases r, n, 0nat {
    match r {
        XRe::Empty => one(copy(t)),
        XRe::Set(k) => if t.i < s.len() && x_in(k, s[t.i]) { let mut u = copy(t); u.i = t.i + 1; one(u) } else { none() },
        XRe::Start => if t.i == 0 { one(copy(t)) } else { none() },
        XRe::End => if t.i == s.len() { one(copy(t)) } else { none() },
        XRe::Cat(a, b) => { let m = x_run(a, s, t, s.len()); proof { assert(ats(m@).skip(0) =~= ats(m@)); } x_run_all(b, s, &m, 0, s.len()) }
        XRe::Alt(a, b) => { let p = x_run(a, s, t, s.len()); let q = x_run(b, s, t, s.len()); both(p, q) }
        XRe::Opt(a) => { let p = x_run(a, s, t, s.len()); both(p, one(copy(t))) }
        XRe::Star(a) => if n == 0 { one(copy(t)) } else { let p = x_run(a, s, t, s.len()); let q = x_beyond(&p, t.i); proof { assert(ats(q@).skip(0) =~= ats(q@)); } let w = x_run_all(r, s, &q, 0, n - 1); both(w, one(copy(t))) },
        XRe::Group(k, a) => { let p = x_run(a, s, t, s.len()); x_close(*k, t.i, p) }
    }
}
pub fn x_run_all(r: &XRe, s: &T, ts: &Vec<XAt>, j: usize, n: usize) -> (o: Vec<XAt>) requires j <= ts.len() ensures ats(o@) == run_all(re_of(*r), s@, ats(ts@).skip(j as int), n as nat) decreases r, n, 1 + ts.len() - j {
    if j == ts.len() { return none(); }
    proof { assert(ats(ts@).skip(j as int).drop_first() =~= ats(ts@).skip(j + 1)); }
    let a = x_run(r, s, &ts[j], n);
    let b = x_run_all(r, s, ts, j + 1, n);
    both(a, b)
}
pub fn x_ends(r: &XRe, s: &T, i: usize) -> (o: Vec<XAt>) ensures ats(o@) == ends(re_of(*r), s@, i as int) {
    let t = XAt { i, g: Vec::new() };
    proof { assert(t.g@ =~= Seq::<(usize, usize, usize)>::empty()); }
    x_run(r, s, &t, s.len())
}
pub fn x_seek(r: &XRe, s: &T, i: usize) -> (o: Option<usize>) requires i <= s.len() + 1, s.len() < 1000000 ensures match o { Some(a) => seek(re_of(*r), s@, i as int) == a && i <= a <= s.len() && ends(re_of(*r), s@, a as int).len() > 0, None => seek(re_of(*r), s@, i as int) == -1 } decreases s.len() + 1 - i {
    if i > s.len() { return None; }
    let e = x_ends(r, s, i);
    proof { assert(ats(e@).len() == e@.len()); }
    if e.len() > 0 { Some(i) } else { x_seek(r, s, i + 1) }
}
pub fn x_matches(r: &XRe, s: &T) -> (o: bool) requires s.len() < 1000000 ensures o == matches(re_of(*r), s@) { match x_seek(r, s, 0) { Some(_) => true, None => false } }
pub open spec fn last_of(l: Option<usize>) -> int { match l { Some(n) => n as int, None => -1 } }
pub fn x_finds(r: &XRe, s: &T, i: usize, last: Option<usize>) -> (o: Vec<T>) requires i <= s.len() + 1, s.len() < 1000000 ensures texts(o@) == finds(re_of(*r), s@, i as int, last_of(last)) decreases s.len() + 1 - i {
    match x_seek(r, s, i) {
        None => { let r: Vec<T> = Vec::new(); proof { assert(texts(r@) =~= Seq::<Seq<char>>::empty()); } r }
        Some(a) => {
            let e = x_ends(r, s, a);
            proof { assert(ats(e@).len() == e@.len()); }
            let b = e[0].i;
            proof { assert(ats(e@)[0] == at_of(e@[0])); }
            if b > a {
                if b > s.len() { let r: Vec<T> = Vec::new(); proof { assert(texts(r@) =~= Seq::<Seq<char>>::empty()); } r }
                else { let rest = x_finds(r, s, b, Some(b)); cons(sub(s, a, b), rest) }
            } else if last.is_some() && a == last.unwrap() { x_finds(r, s, a + 1, last) }
            else { let rest = x_finds(r, s, a + 1, Some(a)); let z: T = Vec::new(); proof { assert(z@ =~= Seq::<char>::empty()); } cons(z, rest) }
        }
    }
}
pub fn x_groups(r: &XRe) -> (n: usize) ensures n == groups(re_of(*r)) decreases r {
    match r {
        XRe::Cat(a, b) | XRe::Alt(a, b) => { let x = x_groups(a); let y = x_groups(b); if x < y { y } else { x } }
        XRe::Star(a) | XRe::Opt(a) => x_groups(a),
        XRe::Group(k, a) => { let x = x_groups(a); if *k < x { x } else { *k } }
        _ => 0,
    }
}
pub fn x_unanchored(r: &XRe) -> (o: bool) ensures o == unanchored(re_of(*r)) decreases r {
    match r {
        XRe::Start => false,
        XRe::Cat(a, b) | XRe::Alt(a, b) => { let x = x_unanchored(a); let y = x_unanchored(b); x && y }
        XRe::Star(a) | XRe::Opt(a) => x_unanchored(a),
        XRe::Group(_, a) => x_unanchored(a),
        _ => true,
    }
}
pub fn look(g: &Vec<(usize, usize, usize)>, n: usize, k: usize) -> (o: Option<(usize, usize)>) requires n <= g.len() ensures match o { Some(p) => map_of(g@.take(n as int)).dom().contains(k as nat) && map_of(g@.take(n as int))[k as nat] == (p.0 as int, p.1 as int), None => !map_of(g@.take(n as int)).dom().contains(k as nat) } decreases n {
    if n == 0 { return None; }
    proof { assert(g@.take(n as int).drop_last() =~= g@.take(n - 1)); }
    if g[n - 1].0 == k { Some((g[n - 1].1, g[n - 1].2)) } else { look(g, n - 1, k) }
}
pub open spec fn opt_text(o: Option<T>) -> Option<Seq<char>> { match o { Some(t) => Some(t@), None => None } }
pub open spec fn opt_texts(v: Seq<Option<T>>) -> Seq<Option<Seq<char>>> { Seq::new(v.len(), |i: int| opt_text(v[i])) }
pub fn x_caps(r: &XRe, s: &T) -> (o: Option<Vec<Option<T>>>) requires s.len() < 1000000 ensures match o { Some(v) => caps(re_of(*r), s@) == Some(opt_texts(v@)), None => caps(re_of(*r), s@) is None } {
    match x_seek(r, s, 0) {
        None => None,
        Some(a) => {
            let e = x_ends(r, s, a);
            proof { assert(ats(e@).len() == e@.len()); assert(ats(e@)[0] == at_of(e@[0])); }
            let t = &e[0];
            if !(a <= t.i && t.i <= s.len()) { return x_stop(); }
            let n = x_groups(r);
            let mut v: Vec<Option<T>> = Vec::new();
            v.push(Some(sub(s, a, t.i)));
            let mut k = 1;
            while k <= n && n < usize::MAX
                invariant v.len() == k, 1 <= k, n < usize::MAX ==> k <= n + 1, opt_text(v@[0]) == Some(s@.subrange(a as int, t.i as int)),
                    forall|q: int| 1 <= q < k ==> opt_text(#[trigger] v@[q]) == (if map_of(t.g@).dom().contains(q as nat) { Some(s@.subrange(map_of(t.g@)[q as nat].0, map_of(t.g@)[q as nat].1)) } else { None })
                decreases n + 1 - k
            {
                proof { assert(t.g@.take(t.g@.len() as int) =~= t.g@); }
                match look(&t.g, t.g.len(), k) {
                    Some(p) => { if !(p.0 <= p.1 && p.1 <= s.len()) { return x_stop(); } v.push(Some(sub(s, p.0, p.1))); }
                    None => { v.push(None); }
                }
                k += 1;
            }
            if n == usize::MAX { return x_stop(); }
            proof { assert(opt_texts(v@) =~= caps(re_of(*r), s@).unwrap()); }
            Some(v)
        }
    }
}
// ----- globs
pub fn x_meta(c: char) -> (r: bool) ensures r == meta(c) { c == '\\' || c == '[' || c == ']' || c == '{' || c == '}' || c == '(' || c == ')' || c == '?' || c == '|' || c == '^' || c == '$' }
pub fn x_plain(g: &T) -> (r: bool) ensures r == plain(g@) {
    if g.len() > 1000 { return false; }
    let mut j = 0;
    while j < g.len() invariant 0 <= j <= g.len() <= 1000, forall|k: int| 0 <= k < j ==> !meta(#[trigger] g@[k]) decreases g.len() - j { if x_meta(g[j]) { proof { assert(meta(g@[j as int])); } return false; } j += 1; }
    true
}
pub fn x_glob(g: &T, t: &T) -> (r: bool) ensures r == glob(g@, t@) decreases g.len() {
    if g.len() == 0 { return t.len() == 0; }
    let d = skip(g, 1);
    proof { assert(d@ =~= g@.drop_first()); }
    if g[0] == '*' {
        let mut k = 0;
        while k <= t.len()
            invariant g@.len() > 0, g@[0] == '*', d@ == g@.drop_first(), 0 <= k <= t.len() + 1, k <= t.len() ==> no_break(t@.take(k as int)), forall|q: int| 0 <= q < k ==> !glob(d@, #[trigger] t@.skip(q))
            decreases t.len() + 1 - k
        {
            let u = skip(t, k);
            if x_glob(&d, &u) { proof { let q = k as int; assert(0 <= q <= t@.len() && no_break(t@.take(q)) && glob(g@.drop_first(), t@.skip(q))); } return true; }
            if k == t.len() { return false; }
            if t[k] == '\n' {
                proof { assert forall|q: int| 0 <= q <= t@.len() && no_break(t@.take(q)) implies !glob(g@.drop_first(), #[trigger] t@.skip(q)) by { if q > k { assert(t@.take(q)[k as int] == '\n'); assert(!no_break(t@.take(q))); } } }
                return false;
            }
            proof { assert forall|i: int| 0 <= i < t@.take(k + 1).len() implies #[trigger] t@.take(k + 1)[i] != '\n' by { if i < k { assert(t@.take(k as int)[i] != '\n'); } } }
            k += 1;
        }
        false
    } else {
        if t.len() == 0 { return false; }
        let u = skip(t, 1);
        proof { assert(u@ =~= t@.drop_first()); }
        let rest = x_glob(&d, &u);
        t[0] == g[0] && rest
    }
}
}
}
use vx_mirror::*;

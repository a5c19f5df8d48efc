// Trusted base for text: str methods of the standard library, with the contracts their documentation states.
pub mod vx_text {
use vstd::prelude::*;
verus! {
/// Unicode White_Space (char::is_whitespace)
pub uninterp spec fn is_ws(c: char) -> bool;
pub broadcast axiom fn ax_ws_ascii(c: char) requires (c as u32) < 128 ensures #[trigger] is_ws(c) == (c as u32 == 32 || (9 <= c as u32 && c as u32 <= 13));
pub open spec fn trim_l(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s[0]) { trim_l(s.drop_first()) } else { s } }
pub open spec fn trim_r(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s.last()) { trim_r(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { trim_r(trim_l(s)) }
/// Unicode lower case (str::to_lowercase)
pub uninterp spec fn lowered(s: Seq<char>) -> Seq<char>;
pub open spec fn ascii_low(c: char) -> char { if 65 <= c as u32 && c as u32 <= 90 { ((c as u8) + 32) as u8 as char } else { c } }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub broadcast axiom fn ax_lowered_ascii(s: Seq<char>) requires ascii(s) ensures #[trigger] lowered(s) == s.map_values(|c: char| ascii_low(c));
/// lower-casing turns white space into itself and nothing else into white space, and looks for no letter beyond it
pub broadcast axiom fn ax_lowered_trimmed(s: Seq<char>) ensures #[trigger] trimmed(lowered(s)) == lowered(trimmed(s));
/// Unicode upper case (str::to_uppercase)
pub uninterp spec fn uppered(s: Seq<char>) -> Seq<char>;
pub open spec fn ascii_up(c: char) -> char { if 97 <= c as u32 && c as u32 <= 122 { ((c as u8) - 32) as u8 as char } else { c } }
pub broadcast axiom fn ax_uppered_ascii(s: Seq<char>) requires ascii(s) ensures #[trigger] uppered(s) == s.map_values(|c: char| ascii_up(c));
/// the position of the first character with p, or the length
pub open spec fn first(s: Seq<char>, p: spec_fn(char) -> bool) -> int decreases s.len() { if s.len() == 0 || p(s[0]) { 0 } else { 1 + first(s.drop_first(), p) } }
/// str::split: the pieces between the characters with p, always one more than there are such characters
pub open spec fn split_on(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<Seq<char>> decreases s.len() {
    if first(s, p) < 0 || first(s, p) >= s.len() { seq![s] } else { seq![s.take(first(s, p))] + split_on(s.skip(first(s, p) + 1), p) }
}
/// str::splitn: at most n pieces, the last of them unsplit
pub open spec fn split_most(s: Seq<char>, p: spec_fn(char) -> bool, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else if n == 1 || first(s, p) < 0 || first(s, p) >= s.len() { seq![s] } else { seq![s.take(first(s, p))] + split_most(s.skip(first(s, p) + 1), p, n - 1) }
}
pub open spec fn is_char(p: char) -> spec_fn(char) -> bool { |c: char| c == p }
pub open spec fn views<T: View<V = Seq<char>>>(v: Seq<T>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn is_sub(s: Seq<char>, i: int, p: Seq<char>) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn occurs(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| #[trigger] is_sub(s, i, p) }
// classes of characters
#[verifier::external_body] #[verifier::when_used_as_spec(is_ws)] pub fn vx_is_ws(c: char) -> (r: bool) ensures r == is_ws(c) { unimplemented!() }
pub open spec fn ch_digit(c: &char) -> bool { 48 <= *c as u32 && *c as u32 <= 57 }
pub open spec fn ch_upper(c: &char) -> bool { 65 <= *c as u32 && *c as u32 <= 90 }
pub open spec fn ch_lower(c: &char) -> bool { 97 <= *c as u32 && *c as u32 <= 122 }
pub open spec fn ch_alpha(c: &char) -> bool { ch_upper(c) || ch_lower(c) }
pub open spec fn ch_alnum(c: &char) -> bool { ch_alpha(c) || ch_digit(c) }
pub open spec fn ch_punct(c: &char) -> bool { let n = *c as u32; (33 <= n && n <= 47) || (58 <= n && n <= 64) || (91 <= n && n <= 96) || (123 <= n && n <= 126) }
pub open spec fn ch_ten(c: char, n: u32) -> bool { 48 <= c as u32 && c as u32 <= 57 }
pub uninterp spec fn ch_alphabetic(c: char) -> bool;
pub uninterp spec fn ch_numeric(c: char) -> bool;
pub open spec fn ch_alphanumeric(c: char) -> bool { ch_alphabetic(c) || ch_numeric(c) }
pub broadcast axiom fn ax_alphabetic_ascii(c: char) requires (c as u32) < 128 ensures #[trigger] ch_alphabetic(c) == ch_alpha(&c);
pub broadcast axiom fn ax_numeric_ascii(c: char) requires (c as u32) < 128 ensures #[trigger] ch_numeric(c) == ch_digit(&c);
#[verifier::when_used_as_spec(ch_digit)] pub assume_specification [char::is_ascii_digit](c: &char) -> (r: bool) ensures r == ch_digit(c);
#[verifier::when_used_as_spec(ch_upper)] pub assume_specification [char::is_ascii_uppercase](c: &char) -> (r: bool) ensures r == ch_upper(c);
#[verifier::when_used_as_spec(ch_lower)] pub assume_specification [char::is_ascii_lowercase](c: &char) -> (r: bool) ensures r == ch_lower(c);
#[verifier::when_used_as_spec(ch_alpha)] pub assume_specification [char::is_ascii_alphabetic](c: &char) -> (r: bool) ensures r == ch_alpha(c);
#[verifier::when_used_as_spec(ch_alnum)] pub assume_specification [char::is_ascii_alphanumeric](c: &char) -> (r: bool) ensures r == ch_alnum(c);
#[verifier::when_used_as_spec(ch_punct)] pub assume_specification [char::is_ascii_punctuation](c: &char) -> (r: bool) ensures r == ch_punct(c);
#[verifier::when_used_as_spec(ch_ten)] pub assume_specification [char::is_digit](c: char, n: u32) -> (r: bool) requires n == 10 ensures r == ch_ten(c, n);
#[verifier::when_used_as_spec(ch_alphabetic)] pub assume_specification [char::is_alphabetic](c: char) -> (r: bool) ensures r == ch_alphabetic(c);
#[verifier::when_used_as_spec(ch_numeric)] pub assume_specification [char::is_numeric](c: char) -> (r: bool) ensures r == ch_numeric(c);
#[verifier::when_used_as_spec(ch_alphanumeric)] pub assume_specification [char::is_alphanumeric](c: char) -> (r: bool) ensures r == ch_alphanumeric(c);
/// mem::take of the types with an empty value
pub trait VxZero: Sized { spec fn vx_zero(&self) -> bool; fn vx_empty() -> (r: Self) ensures r.vx_zero(); }
impl<T> VxZero for Vec<T> { open spec fn vx_zero(&self) -> bool { self@ == Seq::<T>::empty() } fn vx_empty() -> (r: Self) { Vec::new() } }
impl<T> VxZero for Option<T> { open spec fn vx_zero(&self) -> bool { *self is None } fn vx_empty() -> (r: Self) { None } }
impl VxZero for bool { open spec fn vx_zero(&self) -> bool { !*self } fn vx_empty() -> (r: Self) { false } }
impl VxZero for String { open spec fn vx_zero(&self) -> bool { self@ == Seq::<char>::empty() } #[verifier::external_body] fn vx_empty() -> (r: Self) { unimplemented!() } }
/// text + more
pub fn vx_plus(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { let mut a = a; a.push_str(b); a }
pub assume_specification[ String::insert ](s: &mut String, i: usize, c: char) requires i == 0 || boundary(old(s)@, i as int) ensures final(s)@ == slice_of(old(s)@, 0, i as int) + seq![c] + slice_of(old(s)@, i as int, blen(old(s)@)), i == 0 ==> final(s)@ == seq![c] + old(s)@;
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub fn vx_take<T: VxZero>(x: &mut T) -> (r: T) ensures r == *old(x), final(x).vx_zero() { std::mem::replace(x, T::vx_empty()) }
// integers, as FromStr of the integer types reads them
pub open spec fn is_digit(c: char) -> bool { 48 <= c as u32 && c as u32 <= 57 }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * val(s.drop_last()) + (s.last() as int - 48) } }
pub open spec fn int_of(s: Seq<char>, lo: int, hi: int) -> Option<int> {
    let neg = s.len() > 0 && s[0] == '-';
    let d = if s.len() > 0 && (s[0] == '-' || s[0] == '+') { s.drop_first() } else { s };
    let v = if neg { -val(d) } else { val(d) };
    if d.len() > 0 && all_digits(d) && lo <= v <= hi { Some(v) } else { None }
}
pub struct VxIntErr { x: u8 }
pub trait VxFromStr: Sized {
    type VxErr;
    spec fn vx_spec(s: Seq<char>, r: Result<Self, Self::VxErr>) -> bool;
    fn vx_from_str(s: &str) -> (r: Result<Self, Self::VxErr>) ensures Self::vx_spec(s@, r);
}
impl VxFromStr for i16 {
    type VxErr = VxIntErr;
    open spec fn vx_spec(s: Seq<char>, r: Result<i16, VxIntErr>) -> bool { match r { Ok(n) => int_of(s, i16::MIN as int, i16::MAX as int) == Some(n as int), Err(_) => int_of(s, i16::MIN as int, i16::MAX as int) is None } }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<i16, VxIntErr>) { unimplemented!() }
}
impl VxFromStr for i32 {
    type VxErr = VxIntErr;
    open spec fn vx_spec(s: Seq<char>, r: Result<i32, VxIntErr>) -> bool { match r { Ok(n) => int_of(s, i32::MIN as int, i32::MAX as int) == Some(n as int), Err(_) => int_of(s, i32::MIN as int, i32::MAX as int) is None } }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<i32, VxIntErr>) { unimplemented!() }
}
impl VxFromStr for i8 {
    type VxErr = VxIntErr;
    open spec fn vx_spec(s: Seq<char>, r: Result<i8, VxIntErr>) -> bool { match r { Ok(n) => int_of(s, i8::MIN as int, i8::MAX as int) == Some(n as int), Err(_) => int_of(s, i8::MIN as int, i8::MAX as int) is None } }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<i8, VxIntErr>) { unimplemented!() }
}
impl VxFromStr for i64 {
    type VxErr = VxIntErr;
    open spec fn vx_spec(s: Seq<char>, r: Result<i64, VxIntErr>) -> bool { match r { Ok(n) => int_of(s, i64::MIN as int, i64::MAX as int) == Some(n as int), Err(_) => int_of(s, i64::MIN as int, i64::MAX as int) is None } }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<i64, VxIntErr>) { unimplemented!() }
}
impl VxFromStr for isize {
    type VxErr = VxIntErr;
    open spec fn vx_spec(s: Seq<char>, r: Result<isize, VxIntErr>) -> bool { match r { Ok(n) => int_of(s, isize::MIN as int, isize::MAX as int) == Some(n as int), Err(_) => int_of(s, isize::MIN as int, isize::MAX as int) is None } }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<isize, VxIntErr>) { unimplemented!() }
}
/// .. of the unsigned types: no "-"
pub open spec fn nat_of(s: Seq<char>, hi: int) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s };
    if d.len() > 0 && all_digits(d) && val(d) <= hi { Some(val(d)) } else { None }
}
impl VxFromStr for u8 {
    type VxErr = VxIntErr;
    open spec fn vx_spec(s: Seq<char>, r: Result<u8, VxIntErr>) -> bool { match r { Ok(n) => nat_of(s, u8::MAX as int) == Some(n as int), Err(_) => nat_of(s, u8::MAX as int) is None } }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<u8, VxIntErr>) { unimplemented!() }
}
impl VxFromStr for u16 {
    type VxErr = VxIntErr;
    open spec fn vx_spec(s: Seq<char>, r: Result<u16, VxIntErr>) -> bool { match r { Ok(n) => nat_of(s, u16::MAX as int) == Some(n as int), Err(_) => nat_of(s, u16::MAX as int) is None } }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<u16, VxIntErr>) { unimplemented!() }
}
impl VxFromStr for u32 {
    type VxErr = VxIntErr;
    open spec fn vx_spec(s: Seq<char>, r: Result<u32, VxIntErr>) -> bool { match r { Ok(n) => nat_of(s, u32::MAX as int) == Some(n as int), Err(_) => nat_of(s, u32::MAX as int) is None } }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<u32, VxIntErr>) { unimplemented!() }
}
impl VxFromStr for u64 {
    type VxErr = VxIntErr;
    open spec fn vx_spec(s: Seq<char>, r: Result<u64, VxIntErr>) -> bool { match r { Ok(n) => nat_of(s, u64::MAX as int) == Some(n as int), Err(_) => nat_of(s, u64::MAX as int) is None } }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<u64, VxIntErr>) { unimplemented!() }
}
impl VxFromStr for usize {
    type VxErr = VxIntErr;
    open spec fn vx_spec(s: Seq<char>, r: Result<usize, VxIntErr>) -> bool { match r { Ok(n) => nat_of(s, usize::MAX as int) == Some(n as int), Err(_) => nat_of(s, usize::MAX as int) is None } }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<usize, VxIntErr>) { unimplemented!() }
}
/// Unicode decimal digit (\d of the regex crate)
pub uninterp spec fn is_dec(c: char) -> bool;
pub broadcast axiom fn ax_dec_ascii(c: char) requires (c as u32) < 128 ensures #[trigger] is_dec(c) == is_digit(c);
// byte offsets of UTF-8: valid boundaries and what lies between them
/// the number of bytes of a character
pub open spec fn clen(c: char) -> int { let n = c as u32; if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 } }
/// the number of bytes of a text
pub open spec fn blen(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
/// `a` bytes are exactly the first `i` characters
pub open spec fn at_byte(s: Seq<char>, a: int, i: int) -> bool { 0 <= i <= s.len() && blen(s.take(i)) == a }
pub open spec fn boundary(s: Seq<char>, a: int) -> bool { exists|i: int| #[trigger] at_byte(s, a, i) }
pub open spec fn cidx(s: Seq<char>, a: int) -> int { choose|i: int| #[trigger] at_byte(s, a, i) }
pub open spec fn slice_ok(s: Seq<char>, a: int, b: int) -> bool { a <= b && boundary(s, a) && boundary(s, b) }
pub open spec fn slice_of(s: Seq<char>, a: int, b: int) -> Seq<char> { s.subrange(cidx(s, a), cidx(s, b)) }
pub proof fn lem_blen_mono(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures blen(s.take(j)) - blen(s.take(i)) >= j - i, blen(s.take(i)) >= i decreases j {
    if j > 0 {
        assert(s.take(j).drop_last() =~= s.take(j - 1));
        if i < j { lem_blen_mono(s, i, j - 1); } else { lem_blen_mono(s, i - 1, j - 1); }
    }
}
pub proof fn lem_cidx(s: Seq<char>, a: int, i: int) requires at_byte(s, a, i) ensures boundary(s, a), cidx(s, a) == i {
    let k = cidx(s, a);
    assert(at_byte(s, a, k));
    if k < i { lem_blen_mono(s, k, i); } else if i < k { lem_blen_mono(s, i, k); }
}
/// a text without its last `n` one-byte characters
pub proof fn lem_slice_prefix(s: Seq<char>, n: int) requires 0 <= n <= s.len(), forall|k: int| s.len() - n <= k < s.len() ==> (#[trigger] s[k] as u32) < 128
    ensures slice_ok(s, 0, blen(s) - n), slice_of(s, 0, blen(s) - n) == s.take(s.len() - n), blen(s) >= n decreases n
{
    lem_blen_suffix(s, n);
    assert(s.take(s.len() as int) =~= s);
    lem_blen_mono(s, 0, s.len() - n);
    assert(at_byte(s, 0, 0)) by { assert(s.take(0).len() == 0); }
    assert(at_byte(s, blen(s) - n, s.len() - n));
    lem_cidx(s, 0, 0);
    lem_cidx(s, blen(s) - n, s.len() - n);
    assert(s.subrange(0, s.len() - n) =~= s.take(s.len() - n));
}
pub proof fn lem_blen_suffix(s: Seq<char>, n: int) requires 0 <= n <= s.len(), forall|k: int| s.len() - n <= k < s.len() ==> (#[trigger] s[k] as u32) < 128
    ensures blen(s) == blen(s.take(s.len() - n)) + n decreases n
{
    assert(s.take(s.len() as int) =~= s);
    if n > 0 {
        let t = s.drop_last();
        assert(s[s.len() - 1] as u32 <= 127);
        assert forall|k: int| t.len() - (n - 1) <= k < t.len() implies (#[trigger] t[k] as u32) < 128 by { assert(t[k] == s[k]); }
        lem_blen_suffix(t, n - 1);
        assert(t.take(t.len() - (n - 1)) =~= s.take(s.len() - n));
    }
}
/// the first character by its byte
pub proof fn lem_slice_first(s: Seq<char>) ensures slice_ok(s, 0, 1) == (s.len() > 0 && (s[0] as u32) < 128), slice_ok(s, 0, 1) ==> slice_of(s, 0, 1) == seq![s[0]] {
    assert(at_byte(s, 0, 0)) by { assert(s.take(0).len() == 0); }
    lem_cidx(s, 0, 0);
    if s.len() > 0 {
        assert(s.take(1).drop_last() =~= s.take(0)); assert(blen(s.take(0)) == 0);
        assert(blen(s.take(1)) == clen(s[0]));
        if (s[0] as u32) < 128 { assert(at_byte(s, 1, 1)); lem_cidx(s, 1, 1); assert(s.subrange(0, 1) =~= seq![s[0]]); }
        else if boundary(s, 1) { let i = cidx(s, 1); assert(at_byte(s, 1, i)); if i >= 1 { lem_blen_mono(s, 1, i); } }
    } else if boundary(s, 1) { let i = cidx(s, 1); assert(at_byte(s, 1, i)); assert(s.take(i).len() == 0); }
}
/// the characters left after dropping those with p from the end
pub open spec fn trim_end(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() > 0 && p(s.last()) { trim_end(s.drop_last(), p) } else { s } }
pub open spec fn trim_front(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() > 0 && p(s[0]) { trim_front(s.drop_first(), p) } else { s } }
/// every `c` replaced by `to`
pub open spec fn repl(s: Seq<char>, c: char, to: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else { repl(s.drop_last(), c, to) + (if s.last() == c { to } else { seq![s.last()] }) } }
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub open spec fn has_suffix(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.skip(s.len() - p.len()) == p }
/// only the empty text has no bytes
pub broadcast proof fn lem_blen_zero(s: Seq<char>) ensures #[trigger] blen(s) >= s.len() {
    lem_blen_mono(s, 0, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}
pub broadcast proof fn lem_occurs_char(s: Seq<char>, p: Seq<char>) requires p.len() == 1 ensures #[trigger] occurs(s, p) == s.contains(p[0]) {
    if occurs(s, p) { let i = choose|i: int| #[trigger] is_sub(s, i, p); assert(s.subrange(i, i + 1)[0] == s[i]); assert(s.contains(p[0])); }
    if s.contains(p[0]) { let i = choose|i: int| 0 <= i < s.len() && s[i] == p[0]; assert(s.subrange(i, i + 1) =~= p); assert(is_sub(s, i, p)); }
}
pub broadcast proof fn lem_prefix_char(s: Seq<char>, p: Seq<char>) requires p.len() == 1 ensures #[trigger] has_prefix(s, p) == (s.len() > 0 && s[0] == p[0]) {
    if s.len() > 0 { assert(s.take(1)[0] == s[0]); if s[0] == p[0] { assert(s.take(1) =~= p); } }
}
pub broadcast proof fn lem_suffix_char(s: Seq<char>, p: Seq<char>) requires p.len() == 1 ensures #[trigger] has_suffix(s, p) == (s.len() > 0 && s.last() == p[0]) {
    if s.len() > 0 { assert(s.skip(s.len() - 1)[0] == s.last()); if s.last() == p[0] { assert(s.skip(s.len() - 1) =~= p); } }
}
/// a text of one-byte characters has as many bytes as characters
pub broadcast proof fn lem_blen_ascii(s: Seq<char>) requires ascii(s) ensures #[trigger] blen(s) == s.len() decreases s.len() {
    if s.len() > 0 { assert((s[s.len() - 1] as u32) < 128); assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.drop_last()[i] as u32) < 128 by { assert(s.drop_last()[i] == s[i]); } lem_blen_ascii(s.drop_last()); }
}
pub proof fn lem_first(s: Seq<char>, p: spec_fn(char) -> bool) ensures 0 <= first(s, p) <= s.len(), forall|j: int| 0 <= j < first(s, p) ==> !p(#[trigger] s[j]), first(s, p) < s.len() ==> p(s[first(s, p)]) decreases s.len() {
    if s.len() > 0 && !p(s[0]) {
        let d = s.drop_first();
        lem_first(d, p);
        assert forall|j: int| 0 <= j < first(s, p) implies !p(#[trigger] s[j]) by { if j > 0 { assert(d[j - 1] == s[j]); } }
        if first(s, p) < s.len() { assert(d[first(d, p)] == s[first(s, p)]); }
    }
}
pub broadcast proof fn lem_first_char(s: Seq<char>, c: char) ensures 0 <= #[trigger] first(s, is_char(c)) <= s.len(), (first(s, is_char(c)) < s.len()) == s.contains(c) {
    lem_first(s, is_char(c));
    if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; if first(s, is_char(c)) == s.len() { assert(!is_char(c)(s[i])); } }
}
/// how many pieces: one, two, or more
pub broadcast proof fn lem_split_few(s: Seq<char>, p: spec_fn(char) -> bool) ensures #[trigger] split_on(s, p).len() >= 1, ({
    let (k, n) = (first(s, p), split_on(s, p).len());
    let t = s.skip(k + 1);
    &&& 0 <= k <= s.len()
    &&& (n == 1) == (k == s.len())
    &&& n == 1 ==> split_on(s, p)[0] == s
    &&& n > 1 ==> split_on(s, p)[0] == s.take(k)
    &&& n > 1 ==> (n == 2) == (first(t, p) == t.len())
    &&& n == 2 ==> split_on(s, p)[1] == t
}) {
    reveal_with_fuel(split_on, 3);
    lem_first(s, p);
    if first(s, p) < s.len() {
        let t = s.skip(first(s, p) + 1);
        lem_first(t, p);
        if first(t, p) < t.len() { lem_split_some(t.skip(first(t, p) + 1), p); }
    }
}
pub proof fn lem_split_some(s: Seq<char>, p: spec_fn(char) -> bool) ensures split_on(s, p).len() >= 1 decreases s.len() {
    lem_first(s, p);
    if first(s, p) < s.len() { lem_split_some(s.skip(first(s, p) + 1), p); }
}
/// splitn with room for every piece is split; without, it has as many pieces as it may have
pub broadcast proof fn lem_split_most(s: Seq<char>, p: spec_fn(char) -> bool, n: int) requires n >= 1 ensures split_on(s, p).len() <= n ==> #[trigger] split_most(s, p, n) == split_on(s, p), split_on(s, p).len() > n ==> split_most(s, p, n).len() == n decreases n {
    lem_first(s, p);
    if first(s, p) < s.len() { let t = s.skip(first(s, p) + 1); lem_split_some(t, p); if n > 1 { lem_split_most(t, p, n - 1); } } 
}
/// `a` bytes are the `i` characters before a character of `k` bytes: what is on both sides of it
pub open spec fn parts_at(s: Seq<char>, a: int, i: int, k: int) -> bool {
    &&& slice_ok(s, 0, a) && slice_of(s, 0, a) == s.take(i)
    &&& slice_ok(s, a, blen(s)) && slice_of(s, a, blen(s)) == s.skip(i)
    &&& slice_ok(s, a + k, blen(s)) && slice_of(s, a + k, blen(s)) == s.skip(i + 1)
    &&& a + k <= blen(s)
}
pub proof fn lem_parts_at(s: Seq<char>, a: int, i: int) requires at_byte(s, a, i), i < s.len() ensures parts_at(s, a, i, clen(s[i])) {
    let n = s.len() as int;
    assert(s.take(n) =~= s);
    assert(at_byte(s, 0, 0)) by { assert(s.take(0).len() == 0); }
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(at_byte(s, a + clen(s[i]), i + 1));
    assert(at_byte(s, blen(s), n));
    lem_cidx(s, 0, 0); lem_cidx(s, a, i); lem_cidx(s, a + clen(s[i]), i + 1); lem_cidx(s, blen(s), n);
    lem_blen_mono(s, 0, i); lem_blen_mono(s, i + 1, n); lem_blen_mono(s, i, n);
    assert(s.subrange(0, i) =~= s.take(i)); assert(s.subrange(i, n) =~= s.skip(i)); assert(s.subrange(i + 1, n) =~= s.skip(i + 1));
}
/// the last place of a character is the first if none is before it, and otherwise comes after the first
pub proof fn lem_last_first(s: Seq<char>, c: char, i: int) requires 0 <= i < s.len(), s[i] == c, forall|j: int| i < j < s.len() ==> #[trigger] s[j] != c ensures
    !s.take(i).contains(c) ==> first(s, is_char(c)) == i, s.take(i).contains(c) ==> first(s, is_char(c)) < i && s.skip(first(s, is_char(c)) + 1).contains(c), !s.skip(i + 1).contains(c)
{
    let k = first(s, is_char(c));
    lem_first(s, is_char(c));
    assert(k <= i) by { if i < k { assert(!is_char(c)(s[i])); } }
    if k < i { assert(s.take(i)[k] == c); assert(s.skip(k + 1)[i - k - 1] == c); }
    else if s.take(i).contains(c) { let j = choose|j: int| 0 <= j < i && s.take(i)[j] == c; assert(!is_char(c)(s[j])); }
    if s.skip(i + 1).contains(c) { let t = s.skip(i + 1); let j = choose|j: int| 0 <= j < t.len() && t[j] == c; assert(s[i + 1 + j] == c); }
}
/// the first and the last place where `p` is found in `s`
pub open spec fn sub_first(s: Seq<char>, i: int, p: Seq<char>) -> bool { is_sub(s, i, p) && forall|j: int| 0 <= j < i ==> !#[trigger] is_sub(s, j, p) }
pub open spec fn sub_last(s: Seq<char>, i: int, p: Seq<char>) -> bool { is_sub(s, i, p) && forall|j: int| i < j < s.len() ==> !#[trigger] is_sub(s, j, p) }
pub open spec fn last_at(s: Seq<char>, i: int, c: char) -> bool {
    &&& 0 <= i < s.len() && s[i] == c && !s.skip(i + 1).contains(c)
    &&& !s.take(i).contains(c) ==> first(s, is_char(c)) == i
    &&& s.take(i).contains(c) ==> first(s, is_char(c)) < i && s.skip(first(s, is_char(c)) + 1).contains(c)
}
pub proof fn lem_sub_char(s: Seq<char>, i: int, c: char) ensures is_sub(s, i, seq![c]) == (0 <= i < s.len() && s[i] == c) {
    if 0 <= i < s.len() { assert(s.subrange(i, i + 1)[0] == s[i]); if s[i] == c { assert(s.subrange(i, i + 1) =~= seq![c]); } }
}
/// lengths: elements of a vector, bytes of a text
pub trait VxLen {
    spec fn vx_l(&self) -> int;
    fn vx_len(&self) -> (r: usize) ensures r as int == self.vx_l();
}
// no object is larger than isize::MAX bytes (std), and no list here has elements of size zero
impl<T> VxLen for Vec<T> { open spec fn vx_l(&self) -> int { self@.len() as int } #[verifier::external_body] fn vx_len(&self) -> (r: usize) ensures r <= isize::MAX as usize { unimplemented!() } }
impl<T> VxLen for [T] { open spec fn vx_l(&self) -> int { self@.len() as int } #[verifier::external_body] fn vx_len(&self) -> (r: usize) ensures r <= isize::MAX as usize { unimplemented!() } }
impl VxLen for str { open spec fn vx_l(&self) -> int { blen(self@) } #[verifier::external_body] fn vx_len(&self) -> (r: usize) ensures r <= isize::MAX as usize { unimplemented!() } }
impl VxLen for String { open spec fn vx_l(&self) -> int { blen(self@) } #[verifier::external_body] fn vx_len(&self) -> (r: usize) ensures r <= isize::MAX as usize { unimplemented!() } }
/// x[..]
pub trait VxFull { type VxO: ?Sized; spec fn vx_whole(&self, r: &Self::VxO) -> bool; fn vx_full(&self) -> (r: &Self::VxO) ensures self.vx_whole(r); }
impl VxFull for str { type VxO = str; open spec fn vx_whole(&self, r: &str) -> bool { r@ == self@ } #[verifier::external_body] fn vx_full(&self) -> (r: &str) { unimplemented!() } }
impl VxFull for String { type VxO = str; open spec fn vx_whole(&self, r: &str) -> bool { r@ == self@ } #[verifier::external_body] fn vx_full(&self) -> (r: &str) { unimplemented!() } }
impl<T> VxFull for Vec<T> { type VxO = [T]; open spec fn vx_whole(&self, r: &[T]) -> bool { r@ == self@ } #[verifier::external_body] fn vx_full(&self) -> (r: &[T]) { unimplemented!() } }
impl<T> VxFull for [T] { type VxO = [T]; open spec fn vx_whole(&self, r: &[T]) -> bool { r@ == self@ } #[verifier::external_body] fn vx_full(&self) -> (r: &[T]) { unimplemented!() } }
// building texts
pub trait VxShow { spec fn vx_text(&self) -> Seq<char>; fn vx_to_text(&self) -> (r: String) ensures r@ == self.vx_text(); }
impl<'a> VxShow for &'a str { open spec fn vx_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_text(&self) -> (r: String) { unimplemented!() } }
impl VxShow for String { open spec fn vx_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_text(&self) -> (r: String) { unimplemented!() } }
pub fn vx_show<T: VxShow>(t: &T) -> (r: String) ensures r@ == t.vx_text() { t.vx_to_text() }
#[verifier::external_body] pub fn vx_str(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_any_string() -> (r: String) { unimplemented!() }
pub trait VxToString { spec fn vx_shown(&self, r: Seq<char>) -> bool; fn vx_to_string(&self) -> (r: String) ensures self.vx_shown(r@); }
impl VxToString for str { open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for String { open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
/// the texts with `sep` between each two
pub open spec fn joined_with(ss: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases ss.len() { if ss.len() == 0 { Seq::empty() } else if ss.len() == 1 { ss[0] } else { joined_with(ss.drop_last(), sep) + sep + ss.last() } }
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub trait VxJoin { spec fn vx_texts(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined_with(self.vx_texts(), sep@); }
impl VxJoin for Vec<String> { open spec fn vx_texts(&self) -> Seq<Seq<char>> { sviews(self@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
pub fn vx_concat<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { let mut a = a; let mut b = b; a.append(&mut b); a }
/// x.extend(list)
pub trait VxExtend<T> { spec fn vx_e(&self) -> Seq<T>; fn vx_extend(&mut self, b: Vec<T>) ensures final(self).vx_e() == old(self).vx_e() + b@; }
impl<T> VxExtend<T> for Vec<T> { open spec fn vx_e(&self) -> Seq<T> { self@ } fn vx_extend(&mut self, b: Vec<T>) { let mut b = b; self.append(&mut b); } }
/// x[k..] of a list
pub trait VxTail<T> { spec fn vx_items(&self) -> Seq<T>; fn vx_tail(&self, k: usize) -> (r: &[T]) requires k <= self.vx_items().len() ensures r@ == self.vx_items().skip(k as int); }
impl<T> VxTail<T> for Vec<T> { open spec fn vx_items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_tail(&self, k: usize) -> (r: &[T]) { unimplemented!() } }
impl<T> VxTail<T> for [T] { open spec fn vx_items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_tail(&self, k: usize) -> (r: &[T]) { unimplemented!() } }
/// ToOwned of the types that are Clone
pub trait VxToOwned { type VxOut; spec fn vx_owned(&self, r: Self::VxOut) -> bool; fn vx_to_owned(&self) -> (r: Self::VxOut) ensures self.vx_owned(r); }
impl VxToOwned for str { type VxOut = String; open spec fn vx_owned(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }
/// contains of lists of texts
pub trait VxTexts { spec fn vx_ts(&self) -> Seq<Seq<char>>; fn vx_contains_s(&self, s: &&str) -> (r: bool) ensures r == self.vx_ts().contains(s@); }
impl<'a> VxTexts for [&'a str] { open spec fn vx_ts(&self) -> Seq<Seq<char>> { views(self@) } #[verifier::external_body] fn vx_contains_s(&self, s: &&str) -> (r: bool) { unimplemented!() } }
impl<'a> VxTexts for Vec<&'a str> { open spec fn vx_ts(&self) -> Seq<Seq<char>> { views(self@) } #[verifier::external_body] fn vx_contains_s(&self, s: &&str) -> (r: bool) { unimplemented!() } }
// sets of texts
#[verifier::external_body] pub struct VxStrSet { x: u8 }
impl View for VxStrSet { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl VxStrSet { #[verifier::external_body] pub fn contains(&self, s: &str) -> (r: bool) ensures r == self@.contains(s@) { unimplemented!() } }
/// `t` is among the first `n` texts
pub open spec fn in_texts(a: Seq<&str>, n: nat, t: Seq<char>) -> bool decreases n { n > 0 && (a[n - 1]@ == t || in_texts(a, (n - 1) as nat, t)) }
#[verifier::external_body] pub fn vx_str_set<const N: usize>(a: &[&'static str; N]) -> (r: VxStrSet) ensures forall|t: Seq<char>| #[trigger] r@.contains(t) == in_texts(a@, N as nat, t) { unimplemented!() }
/// one match of a regular expression: byte offsets and text
#[verifier::external_body] pub struct VxMatch<'a> { x: &'a str }
impl<'a> VxMatch<'a> {
    pub uninterp spec fn s(&self) -> int;
    pub uninterp spec fn e(&self) -> int;
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body] pub fn start(&self) -> (r: usize) ensures r as int == self.s() { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: usize) ensures r as int == self.e() { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'a str) ensures r@ == self.t() { unimplemented!() }
}
/// the texts of the matches find_iter gives, in order
pub uninterp spec fn re_find(pat: Seq<char>, s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn match_texts(v: Seq<VxMatch>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].t()) }
impl super::vx_pre::VxRegex {
    #[verifier::external_body] pub fn vx_find_iter<'a>(&self, s: &'a str) -> (r: Vec<VxMatch<'a>>)
        ensures match_texts(r@) == re_find(self@, s@), forall|i: int| 0 <= i < r@.len() ==> slice_ok(s@, (#[trigger] r@[i]).s(), r@[i].e()) && slice_of(s@, r@[i].s(), r@[i].e()) == r@[i].t() { unimplemented!() }
}
#[verifier::external_body] pub fn vx_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str) requires slice_ok(s@, a as int, b as int) ensures r@ == slice_of(s@, a as int, b as int) { unimplemented!() }
/// the groups of the first match: capture group 0 is the whole match
pub uninterp spec fn re_caps(pat: Seq<char>, s: Seq<char>) -> Option<Seq<Option<Seq<char>>>>;
#[verifier::external_body] pub struct VxCaptures<'a> { x: &'a str }
impl<'a> View for VxCaptures<'a> { type V = Seq<Option<Seq<char>>>; uninterp spec fn view(&self) -> Seq<Option<Seq<char>>>; }
impl<'a> VxCaptures<'a> {
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<VxMatch<'a>>) ensures match r { Some(m) => i < self@.len() && self@[i as int] == Some(m.t()), None => i >= self@.len() || self@[i as int] is None } { unimplemented!() }
}
impl super::vx_pre::VxRegex {
    #[verifier::external_body] pub fn captures<'a>(&self, s: &'a str) -> (r: Option<VxCaptures<'a>>) ensures match r { Some(c) => re_caps(self@, s@) == Some(c@), None => re_caps(self@, s@) is None } { unimplemented!() }
}
#[verifier::external_body] pub fn vx_find_c0(s: &str, p: char) -> (r: Option<usize>) ensures match r { Some(n) => first(s@, is_char(p)) < s@.len() && at_byte(s@, n as int, first(s@, is_char(p))), None => first(s@, is_char(p)) == s@.len() } { unimplemented!() }
#[verifier::external_body] pub fn vx_find_s0(s: &str, p: &str) -> (r: Option<usize>) ensures match r { Some(n) => exists|i: int| #[trigger] sub_first(s@, i, p@) && at_byte(s@, n as int, i), None => !occurs(s@, p@) } { unimplemented!() }
#[verifier::external_body] pub fn vx_rfind_c0(s: &str, p: char) -> (r: Option<usize>) ensures match r { Some(n) => exists|i: int| #[trigger] sub_last(s@, i, seq![p]) && at_byte(s@, n as int, i), None => !occurs(s@, seq![p]) } { unimplemented!() }
pub trait VxStr {
    fn vx_starts_with_s(&self, p: &str) -> (r: bool) ensures r == has_prefix(self.vx_v(), p@);
    fn vx_starts_with_c(&self, p: char) -> (r: bool) ensures r == has_prefix(self.vx_v(), seq![p]);
    fn vx_ends_with_s(&self, p: &str) -> (r: bool) ensures r == has_suffix(self.vx_v(), p@);
    fn vx_ends_with_c(&self, p: char) -> (r: bool) ensures r == has_suffix(self.vx_v(), seq![p]);
    fn vx_contains_s(&self, p: &str) -> (r: bool) ensures r == occurs(self.vx_v(), p@);
    fn vx_contains_c(&self, p: char) -> (r: bool) ensures r == occurs(self.vx_v(), seq![p]);
    fn vx_trim_end_matches_s(&self, p: &str) -> (r: &str) ensures p@.len() == 1 ==> r@ == trim_end(self.vx_v(), is_char(p@[0]));
    fn vx_trim_end_matches_c(&self, p: char) -> (r: &str) ensures r@ == trim_end(self.vx_v(), is_char(p));
    fn vx_trim_end_matches_f<F: Fn(char) -> bool>(&self, f: F) -> (r: &str) requires forall|c: char| f.requires((c,)) ensures r@.len() >= 1, forall|q: spec_fn(char) -> bool| (forall|c: char, b: bool| f.ensures((c,), b) ==> b == q(c)) ==> r@ == #[trigger] trim_end(self.vx_v(), q);
    fn vx_replace_s(&self, p: &str, t: &str) -> (r: String) ensures p@.len() == 1 ==> r@ == repl(self.vx_v(), p@[0], t@);
    fn vx_replace_c(&self, p: char, t: &str) -> (r: String) ensures r@ == repl(self.vx_v(), p, t@);
    fn vx_get_to(&self, n: usize) -> (r: Option<&str>) ensures match r { Some(t) => slice_ok(self.vx_v(), 0, n as int) && t@ == slice_of(self.vx_v(), 0, n as int), None => !slice_ok(self.vx_v(), 0, n as int) };
    fn vx_split_s(&self, p: &str) -> (r: Vec<&str>) ensures r@.len() >= 1, p@.len() == 1 ==> views(r@) == split_on(self.vx_v(), is_char(p@[0]));
    fn vx_split_c(&self, p: char) -> (r: Vec<&str>) ensures r@.len() >= 1, views(r@) == split_on(self.vx_v(), is_char(p));
    fn vx_split_f<F: Fn(char) -> bool>(&self, f: F) -> (r: Vec<&str>) requires forall|c: char| f.requires((c,)) ensures self.vx_v().len() >= 0, forall|q: spec_fn(char) -> bool| (forall|c: char, b: bool| f.ensures((c,), b) ==> b == q(c)) ==> views(r@) == #[trigger] split_on(self.vx_v(), q);
    fn vx_parse<F: VxFromStr>(&self) -> (r: Result<F, F::VxErr>) ensures F::vx_spec(self.vx_v(), r);
    fn vx_starts_with_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) requires forall|c: char| f.requires((c,)) ensures self.vx_v().len() == 0 ==> !r, self.vx_v().len() > 0 ==> f.ensures((self.vx_v()[0],), r);
    fn vx_ends_with_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) requires forall|c: char| f.requires((c,)) ensures self.vx_v().len() == 0 ==> !r, self.vx_v().len() > 0 ==> f.ensures((self.vx_v().last(),), r);
    fn vx_contains_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) requires forall|c: char| f.requires((c,)) ensures r ==> exists|i: int| 0 <= i < self.vx_v().len() && f.ensures((#[trigger] self.vx_v()[i],), true), !r ==> forall|i: int| 0 <= i < self.vx_v().len() ==> f.ensures((#[trigger] self.vx_v()[i],), false);
    fn vx_trim_start_matches_s(&self, p: &str) -> (r: &str) ensures p@.len() == 1 ==> r@ == trim_front(self.vx_v(), is_char(p@[0]));
    fn vx_trim_start_matches_c(&self, p: char) -> (r: &str) ensures r@ == trim_front(self.vx_v(), is_char(p));
    fn vx_trim_start_matches_f<F: Fn(char) -> bool>(&self, f: F) -> (r: &str) requires forall|c: char| f.requires((c,)) ensures self.vx_v().len() >= 0, forall|q: spec_fn(char) -> bool| (forall|c: char, b: bool| f.ensures((c,), b) ==> b == q(c)) ==> r@ == #[trigger] trim_front(self.vx_v(), q);
    fn vx_trim_matches_c(&self, p: char) -> (r: &str) ensures r@ == trim_end(trim_front(self.vx_v(), is_char(p)), is_char(p));
    fn vx_strip_prefix_s(&self, p: &str) -> (r: Option<&str>) ensures match r { Some(t) => has_prefix(self.vx_v(), p@) && t@ == self.vx_v().skip(p@.len() as int), None => !has_prefix(self.vx_v(), p@) };
    fn vx_strip_prefix_c(&self, p: char) -> (r: Option<&str>) ensures match r { Some(t) => has_prefix(self.vx_v(), seq![p]) && t@ == self.vx_v().skip(1), None => !has_prefix(self.vx_v(), seq![p]) };
    fn vx_strip_suffix_s(&self, p: &str) -> (r: Option<&str>) ensures match r { Some(t) => has_suffix(self.vx_v(), p@) && t@ == self.vx_v().take(self.vx_v().len() - p@.len()), None => !has_suffix(self.vx_v(), p@) };
    fn vx_strip_suffix_c(&self, p: char) -> (r: Option<&str>) ensures match r { Some(t) => has_suffix(self.vx_v(), seq![p]) && t@ == self.vx_v().take(self.vx_v().len() - 1), None => !has_suffix(self.vx_v(), seq![p]) };
    fn vx_find_c(&self, p: char) -> (r: Option<usize>) ensures match r { Some(n) => first(self.vx_v(), is_char(p)) < self.vx_v().len() && at_byte(self.vx_v(), n as int, first(self.vx_v(), is_char(p))) && parts_at(self.vx_v(), n as int, first(self.vx_v(), is_char(p)), clen(p)) && blen(self.vx_v()) <= usize::MAX, None => first(self.vx_v(), is_char(p)) == self.vx_v().len() };
    fn vx_split_once_c(&self, p: char) -> (r: Option<(&str, &str)>) ensures match r { Some(t) => first(self.vx_v(), is_char(p)) < self.vx_v().len() && t.0@ == self.vx_v().take(first(self.vx_v(), is_char(p))) && t.1@ == self.vx_v().skip(first(self.vx_v(), is_char(p)) + 1), None => first(self.vx_v(), is_char(p)) == self.vx_v().len() };
    fn vx_split_once_s(&self, p: &str) -> (r: Option<(&str, &str)>) ensures p@.len() == 1 ==> match r { Some(t) => first(self.vx_v(), is_char(p@[0])) < self.vx_v().len() && t.0@ == self.vx_v().take(first(self.vx_v(), is_char(p@[0]))) && t.1@ == self.vx_v().skip(first(self.vx_v(), is_char(p@[0])) + 1), None => first(self.vx_v(), is_char(p@[0])) == self.vx_v().len() };
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == trim_l(self.vx_v());
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == trim_r(self.vx_v());
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == self.vx_v().map_values(|c: char| ascii_low(c));
    fn vx_trim_matches_s(&self, p: &str) -> (r: &str) ensures p@.len() == 1 ==> r@ == trim_end(trim_front(self.vx_v(), is_char(p@[0])), is_char(p@[0]));
    fn vx_trim_matches_f<F: Fn(char) -> bool>(&self, f: F) -> (r: &str) requires forall|c: char| f.requires((c,)) ensures self.vx_v().len() >= 0, forall|q: spec_fn(char) -> bool| (forall|c: char, b: bool| f.ensures((c,), b) ==> b == q(c)) ==> r@ == #[trigger] trim_end(trim_front(self.vx_v(), q), q);
    fn vx_splitn_c(&self, n: usize, p: char) -> (r: Vec<&str>) ensures n >= 1 ==> 1 <= r@.len() <= n, views(r@) == split_most(self.vx_v(), is_char(p), n as int);
    fn vx_splitn_s(&self, n: usize, p: &str) -> (r: Vec<&str>) ensures n >= 1 ==> 1 <= r@.len() <= n, p@.len() == 1 ==> views(r@) == split_most(self.vx_v(), is_char(p@[0]), n as int);
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (self.vx_v().map_values(|c: char| ascii_low(c)) == o@.map_values(|c: char| ascii_low(c)));
    fn vx_find_s(&self, p: &str) -> (r: Option<usize>) ensures match r { Some(n) => exists|i: int| #[trigger] sub_first(self.vx_v(), i, p@) && at_byte(self.vx_v(), n as int, i), None => !occurs(self.vx_v(), p@) }, p@.len() == 1 ==> match r { Some(n) => first(self.vx_v(), is_char(p@[0])) < self.vx_v().len() && parts_at(self.vx_v(), n as int, first(self.vx_v(), is_char(p@[0])), clen(p@[0])) && blen(self.vx_v()) <= usize::MAX, None => first(self.vx_v(), is_char(p@[0])) == self.vx_v().len() };
    fn vx_rfind_c(&self, p: char) -> (r: Option<usize>) ensures match r { Some(n) => exists|i: int| #[trigger] sub_last(self.vx_v(), i, seq![p]) && at_byte(self.vx_v(), n as int, i), None => !occurs(self.vx_v(), seq![p]) }, match r { Some(n) => exists|i: int| #[trigger] parts_at(self.vx_v(), n as int, i, clen(p)) && last_at(self.vx_v(), i, p) && blen(self.vx_v()) <= usize::MAX, None => first(self.vx_v(), is_char(p)) == self.vx_v().len() };
    fn vx_get_range(&self, a: usize, b: usize) -> (r: Option<&str>) ensures match r { Some(t) => slice_ok(self.vx_v(), a as int, b as int) && t@ == slice_of(self.vx_v(), a as int, b as int), None => !slice_ok(self.vx_v(), a as int, b as int) };
    fn vx_get_from(&self, a: usize) -> (r: Option<&str>) ensures match r { Some(t) => boundary(self.vx_v(), a as int) && t@ == self.vx_v().skip(cidx(self.vx_v(), a as int)), None => !boundary(self.vx_v(), a as int) };
    fn vx_char_count(&self) -> (r: usize) ensures r as int == self.vx_v().len();
    fn vx_char_last(&self) -> (r: Option<char>) ensures r == if self.vx_v().len() > 0 { Some(self.vx_v().last()) } else { None };
    fn vx_char_nth(&self, n: usize) -> (r: Option<char>) ensures r == if n < self.vx_v().len() { Some(self.vx_v()[n as int]) } else { None };
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == uppered(self.vx_v());
    fn vx_to_ascii_uppercase(&self) -> (r: String) ensures r@ == self.vx_v().map_values(|c: char| ascii_up(c));
    spec fn vx_v(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.vx_v());
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == lowered(self.vx_v());
    fn vx_as_str(&self) -> (r: &str) ensures r@ == self.vx_v();
}
impl VxStr for str {
    open spec fn vx_v(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_contains_s(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_contains_c(&self, p: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches_s(&self, p: &str) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches_c(&self, p: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches_f<F: Fn(char) -> bool>(&self, f: F) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_replace_s(&self, p: &str, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_replace_c(&self, p: char, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_get_to(&self, n: usize) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_s(&self, p: &str) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_c(&self, p: char) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_f<F: Fn(char) -> bool>(&self, f: F) -> (r: Vec<&str>) { unimplemented!() }
    fn vx_parse<F: VxFromStr>(&self) -> (r: Result<F, F::VxErr>) { F::vx_from_str(self) }
    #[verifier::external_body] fn vx_starts_with_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_contains_f<F: Fn(char) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches_s(&self, p: &str) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches_c(&self, p: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches_f<F: Fn(char) -> bool>(&self, f: F) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_matches_c(&self, p: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix_s(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix_c(&self, p: char) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix_s(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix_c(&self, p: char) -> (r: Option<&str>) { unimplemented!() }
    fn vx_find_c(&self, p: char) -> (r: Option<usize>) {
        let r = vx_find_c0(self, p);
        let _n = self.vx_len();
        proof { if let Some(n) = r { lem_first(self@, is_char(p)); lem_parts_at(self@, n as int, first(self@, is_char(p))); } }
        r
    }
    #[verifier::external_body] fn vx_split_once_c(&self, p: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once_s(&self, p: &str) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_matches_s(&self, p: &str) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_matches_f<F: Fn(char) -> bool>(&self, f: F) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_splitn_c(&self, n: usize, p: char) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_splitn_s(&self, n: usize, p: &str) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    fn vx_find_s(&self, p: &str) -> (r: Option<usize>) {
        let r = vx_find_s0(self, p);
        let _n = self.vx_len();
        proof {
            assert(self.vx_v() == self@);
            if p@.len() == 1 {
                let c = p@[0];
                assert(p@ =~= seq![c]);
                lem_first_char(self@, c); lem_first(self@, is_char(c)); lem_occurs_char(self@, p@);
                if let Some(n) = r {
                    let i = choose|i: int| #[trigger] sub_first(self@, i, p@) && at_byte(self@, n as int, i);
                    let k = first(self@, is_char(c));
                    lem_sub_char(self@, i, c);
                    if k < i { lem_sub_char(self@, k, c); assert(is_char(c)(self@[k])); }
                    if i < k { assert(!is_char(c)(self@[i])); }
                    lem_parts_at(self@, n as int, i);
                }
            }
        }
        r
    }
    fn vx_rfind_c(&self, p: char) -> (r: Option<usize>) {
        let r = vx_rfind_c0(self, p);
        let _n = self.vx_len();
        proof {
            assert(self.vx_v() == self@);
            lem_first_char(self@, p); lem_occurs_char(self@, seq![p]);
            if let Some(n) = r {
                let i = choose|i: int| #[trigger] sub_last(self@, i, seq![p]) && at_byte(self@, n as int, i);
                lem_sub_char(self@, i, p);
                assert forall|j: int| i < j < self@.len() implies #[trigger] self@[j] != p by { lem_sub_char(self@, j, p); }
                lem_last_first(self@, p, i); lem_parts_at(self@, n as int, i);
                assert(last_at(self@, i, p));
            }
        }
        r
    }
    #[verifier::external_body] fn vx_get_range(&self, a: usize, b: usize) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_get_from(&self, a: usize) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_char_count(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_char_last(&self) -> (r: Option<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_char_nth(&self, n: usize) -> (r: Option<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() }
}
pub broadcast group vx_group_split { lem_blen_ascii, lem_first_char, lem_split_few, lem_split_most }
pub broadcast group vx_group_str { ax_ws_ascii, ax_alphabetic_ascii, ax_numeric_ascii, ax_uppered_ascii, ax_lowered_ascii, ax_lowered_trimmed, ax_dec_ascii, vx_ax_str_ext, lem_blen_zero, lem_occurs_char, lem_prefix_char, lem_suffix_char }
pub broadcast axiom fn vx_ax_str_ext(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
}
} // mod vx_text
use vx_text::*;

// Trusted base shared by every proof: what Verus is told about the standard library and the regex / unicase crates.
// Everything here is an assumption, listed by name in each evidence file.
pub mod vx_pre {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::IteratorSpec;
use std::cmp::Ordering;
use std::slice::Iter;
verus! {

// ---------- Ordering ----------
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub assume_specification[ Ordering::reverse ](o: Ordering) -> (r: Ordering) ensures r == rev(o);
pub broadcast axiom fn ax_ordering_eq(a: Ordering, b: Ordering) ensures #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a == b);
pub broadcast axiom fn ax_ordering_obeys() ensures #[trigger] <Ordering as PartialEqSpec<Ordering>>::obeys_eq_spec();

// ---------- text: String and &str order and equality ----------
/// the order of two texts, character by character (for valid UTF-8 this is the byte order String uses)
pub open spec fn lex(a: Seq<char>, b: Seq<char>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] as int == b[0] as int { lex(a.drop_first(), b.drop_first()) }
    else if (a[0] as int) < (b[0] as int) { Ordering::Less } else { Ordering::Greater }
}
pub broadcast axiom fn ax_string_partial_cmp(a: String, b: String) ensures #[trigger] a.partial_cmp_spec(&b) == Some(lex(a@, b@));
pub broadcast axiom fn ax_string_obeys() ensures #[trigger] <String as PartialOrdSpec<String>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_string_eq(a: String, b: String) ensures #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_string_eq_obeys() ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_bool_partial_cmp(a: bool, b: bool) ensures #[trigger] a.partial_cmp_spec(&b) == Some(if a == b { Ordering::Equal } else if a { Ordering::Greater } else { Ordering::Less });
pub broadcast axiom fn ax_bool_obeys() ensures #[trigger] <bool as PartialOrdSpec<bool>>::obeys_partial_cmp_spec();
pub open spec fn bool_cmp(a: bool, b: bool) -> Ordering { if a == b { Ordering::Equal } else if a { Ordering::Greater } else { Ordering::Less } }
pub broadcast axiom fn ax_bool_cmp(a: bool, b: bool) ensures #[trigger] OrdSpec::cmp_spec(&a, &b) == bool_cmp(a, b);
pub broadcast axiom fn ax_bool_cmp_obeys() ensures #[trigger] <bool as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn ax_string_cmp(a: String, b: String) ensures #[trigger] OrdSpec::cmp_spec(&a, &b) == lex(a@, b@);
pub broadcast axiom fn ax_string_cmp_obeys() ensures #[trigger] <String as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn ax_str_cmp(a: &str, b: &str) ensures #[trigger] OrdSpec::cmp_spec(a, b) == lex(a@, b@);
pub broadcast axiom fn ax_str_cmp_obeys() ensures #[trigger] <str as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn ax_str_partial_cmp(a: &str, b: &str) ensures #[trigger] PartialOrdSpec::partial_cmp_spec(a, b) == Some(lex(a@, b@));
pub broadcast axiom fn ax_str_partial_obeys() ensures #[trigger] <str as PartialOrdSpec<str>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_string_eq_ref(a: String, b: &str) ensures #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_string_eq_ref_obeys() ensures #[trigger] <String as PartialEqSpec<&'static str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_eq_str(a: String, b: &str) ensures #[trigger] PartialEqSpec::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_string_eq_str_obeys() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_ref_eq_string(a: &str, b: String) ensures #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_ref_eq_string_obeys() ensures #[trigger] <&'static str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_str_eq_string(a: &str, b: String) ensures #[trigger] PartialEqSpec::eq_spec(a, &b) == (a@ == b@);
pub broadcast axiom fn ax_str_eq_string_obeys() ensures #[trigger] <str as PartialEqSpec<String>>::obeys_eq_spec();
pub open spec fn ord_int(o: Ordering) -> int { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
pub open spec fn int_cmp(a: int, b: int) -> Ordering { if a == b { Ordering::Equal } else if a < b { Ordering::Less } else { Ordering::Greater } }
pub broadcast axiom fn ax_ordering_cmp(a: Ordering, b: Ordering) ensures #[trigger] a.partial_cmp_spec(&b) == Some(int_cmp(ord_int(a), ord_int(b)));
pub broadcast axiom fn ax_ordering_cmp_obeys() ensures #[trigger] <Ordering as PartialOrdSpec<Ordering>>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_str_ext(a: &str, b: &str) requires #[trigger] a@ == #[trigger] b@ ensures a == b;

pub broadcast proof fn lem_no_chars(s: Seq<char>) requires #[trigger] s.len() == 0 ensures s == Seq::<char>::empty() { assert(s =~= Seq::<char>::empty()); }
pub broadcast group vx_group_std { lem_no_chars, ax_bool_cmp, ax_bool_cmp_obeys, ax_string_cmp, ax_string_cmp_obeys, ax_str_cmp, ax_str_cmp_obeys, ax_str_partial_cmp, ax_str_partial_obeys, ax_string_eq_ref, ax_string_eq_ref_obeys, ax_string_eq_str, ax_string_eq_str_obeys, ax_ref_eq_string, ax_ref_eq_string_obeys, ax_str_eq_string, ax_str_eq_string_obeys, ax_ordering_cmp, ax_ordering_cmp_obeys, ax_bool_partial_cmp, ax_bool_obeys, ax_slice_iter_measure, ax_ordering_eq, ax_ordering_obeys, ax_string_partial_cmp, ax_string_obeys, ax_string_eq, ax_string_eq_obeys }

// ---------- iterators over slices ----------
/// the termination measure of a slice iterator is the number of elements left
pub broadcast axiom fn ax_slice_iter_measure<'a, T>(it: Iter<'a, T>) ensures #[trigger] it.decrease() == Some(it.remaining().len());

// ---------- panics ----------
/// stands for panic!, unreachable!, unimplemented!: reaching it is an error
#[verifier::external_body] pub fn vx_abort<T>() -> (r: T) requires false { unimplemented!() }

// ---------- integers ----------
pub assume_specification [i16::abs] (x: i16) -> (r: i16) requires x != i16::MIN ensures r == if x < 0 { -x } else { x as int };
pub assume_specification[ Ordering::then ](o: Ordering, p: Ordering) -> (r: Ordering) ensures r == if o == Ordering::Equal { p } else { o };
pub assume_specification[ Ordering::is_eq ](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal);
pub assume_specification[ Ordering::is_ne ](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal);
pub assume_specification[ Ordering::is_lt ](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less);
pub assume_specification[ Ordering::is_gt ](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater);
pub assume_specification[ Ordering::is_le ](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater);
pub assume_specification[ Ordering::is_ge ](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less);
pub assume_specification<T> [Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == if a is Some { a } else { b };
pub assume_specification<T, U> [Option::<T>::and](a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == if a is Some { b } else { None };
pub assume_specification<T> [Option::<T>::xor](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == if a is Some && b is None { a } else if a is None && b is Some { b } else { None };
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied](a: Option<&'a T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T, E> [Result::<T, E>::unwrap_or](a: Result<T, E>, d: T) -> (r: T) ensures r == (match a { Ok(x) => x, Err(_) => d });
pub assume_specification<T> [bool::then_some](a: bool, x: T) -> (r: Option<T>) ensures r == if a { Some(x) } else { None };
pub assume_specification [i32::signum] (x: i32) -> (r: i32) ensures r == if x > 0 { 1int } else if x < 0 { -1int } else { 0int };
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r == if x < 0 { -x } else { x as int };
pub assume_specification [i16::unsigned_abs] (x: i16) -> (r: u16) ensures r == if x < 0 { -x } else { x as int };
pub assume_specification<T> [std::mem::replace](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification [i32::abs] (x: i32) -> (r: i32) requires x != i32::MIN ensures r == if x < 0 { -x } else { x as int };

// ---------- regular expressions (regex crate) ----------
pub uninterp spec fn re_valid(pat: Seq<char>) -> bool;
pub uninterp spec fn re_match(pat: Seq<char>, s: Seq<char>) -> bool;
#[verifier::external_body] pub struct VxRegex { x: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct VxRegexError { x: u8 }
impl View for VxRegex { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxRegex {
    #[verifier::external_body] pub fn new(p: &str) -> (r: Result<VxRegex, VxRegexError>) ensures r is Ok == re_valid(p@), r matches Ok(x) ==> x@ == p@ { unimplemented!() }
    #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: bool) ensures r == re_match(self@, s@) { unimplemented!() }
}
impl Clone for VxRegex { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxRegexError { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) { unimplemented!() } }

/// simple case folding of one character, as (?i) uses it
pub uninterp spec fn sfold(c: char) -> char;
/// `w` (given folded) occurs in `s` in any letter case
pub open spec fn has_ci(s: Seq<char>, w: Seq<char>) -> bool {
    exists|i: int| #[trigger] ci_at(s, w, i)
}
pub open spec fn ci_at(s: Seq<char>, w: Seq<char>, i: int) -> bool {
    0 <= i && i + w.len() <= s.len() && forall|k: int| 0 <= k < w.len() ==> sfold(#[trigger] s[i + k]) == w[k]
}

// ---------- case-insensitive text (unicase crate) ----------
/// full Unicode case folding of a text; UniCase compares folded texts character by character
pub uninterp spec fn fold(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub struct VxUniCase<'a> { x: &'a str }
impl<'a> View for VxUniCase<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> VxUniCase<'a> {
    #[verifier::external_body] pub fn new(s: &'a str) -> (r: VxUniCase<'a>) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn partial_cmp(&self, o: &VxUniCase<'a>) -> (r: Option<Ordering>) ensures r == Some(lex(fold(self@), fold(o@))) { unimplemented!() }
    #[verifier::external_body] pub fn cmp(&self, o: &VxUniCase<'a>) -> (r: Ordering) ensures r == lex(fold(self@), fold(o@)) { unimplemented!() }
}
impl<'a> PartialEq for VxUniCase<'a> { #[verifier::external_body] fn eq(&self, o: &VxUniCase<'a>) -> (r: bool) { unimplemented!() } }
impl<'a> PartialEqSpecImpl for VxUniCase<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VxUniCase<'a>) -> bool { lex(fold(self@), fold(o@)) == Ordering::Equal }
}
}
} // mod vx_pre
use vx_pre::*;
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::IteratorSpec;
use std::cmp::Ordering;
use std::slice::Iter;

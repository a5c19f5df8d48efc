// Stand-ins for std::fmt: a formatter with what was written to it so far, and the Debug and Display of std's own types.
pub mod vx_fmt {
use vstd::prelude::*;
verus! {
#[verifier::external_body] pub struct VxFormatter { x: u8 }
#[verifier::external_body] pub struct VxFmtError { x: u8 }
#[verifier::external_body] pub fn vx_fmt_error() -> VxFmtError { unimplemented!() }
pub type VxFmtResult = Result<(), VxFmtError>;
impl VxFormatter {
    /// what was written so far
    pub uninterp spec fn out(&self) -> Seq<char>;
    /// the alternate flag, {:#}
    pub uninterp spec fn alt(&self) -> bool;
    /// what it writes to never fails (a String, say)
    pub uninterp spec fn sound(&self) -> bool;
    #[verifier::external_body] pub fn alternate(&self) -> (r: bool) ensures r == self.alt() { unimplemented!() }
    #[verifier::external_body] pub fn vx_put(&mut self, s: &str) -> (r: VxFmtResult) ensures wrote(*old(self), *final(self), r, s@) { unimplemented!() }
    #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: VxFmtResult) ensures wrote(*old(self), *final(self), r, s@) { unimplemented!() }
    #[verifier::external_body] pub fn write_char(&mut self, c: char) -> (r: VxFmtResult) ensures wrote(*old(self), *final(self), r, seq![c]) { unimplemented!() }
}
/// `t` was written, unless there was an error
pub open spec fn wrote(a: VxFormatter, b: VxFormatter, r: VxFmtResult, t: Seq<char>) -> bool {
    &&& b.alt() == a.alt() && b.sound() == a.sound()
    &&& r is Ok ==> b.out() == a.out() + t
    &&& a.sound() ==> r is Ok
}
/// decimal digits, as the integer types display
pub open spec fn digits(n: int) -> Seq<char> decreases n { if n < 0 { Seq::empty() } else if n < 10 { seq![digit(n)] } else { digits(n / 10).push(digit(n % 10)) } }
pub open spec fn digit(n: int) -> char { ((48 + n) as u8) as char }
pub open spec fn decimal(n: int) -> Seq<char> { if n < 0 { seq!['-'] + digits(-n) } else { digits(n) } }
/// a text between quotes, with escapes, as str debug-prints
pub uninterp spec fn quoted(s: Seq<char>) -> Seq<char>;
/// std's list printing: [a, b] plain, one item per line and indented with {:#?}
pub open spec fn list_plain(ts: Seq<Seq<char>>) -> Seq<char> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else if ts.len() == 1 { ts[0] } else { list_plain(ts.drop_last()) + ", "@ + ts.last() } }
pub open spec fn indented(s: Seq<char>, fresh: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else { (if fresh { "    "@ } else { Seq::empty() }) + seq![s[0]] + indented(s.drop_first(), s[0] == '\n') }
}
pub open spec fn list_lines(ts: Seq<Seq<char>>) -> Seq<char> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { list_lines(ts.drop_last()) + indented(ts.last() + ",\n"@, true) } }
pub open spec fn list_debug(ts: Seq<Seq<char>>, alt: bool) -> Seq<char> { if alt && ts.len() > 0 { "[\n"@ + list_lines(ts) + "]"@ } else { "["@ + list_plain(ts) + "]"@ } }
/// x in {} or {:#}: the text, and a bound above everything that printing x goes through (so that printing ends)
pub trait VxDisplay {
    spec fn vx_displayed(&self, alt: bool) -> Seq<char>;
    spec fn vx_display_below(&self, n: nat) -> bool;
    fn vx_display(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) requires self.vx_display_below(n@) ensures wrote(*old(f), *final(f), r, self.vx_displayed(alt));
}
/// x in {:?} or {:#?}
pub trait VxDebug {
    spec fn vx_debugged(&self, alt: bool) -> Seq<char>;
    spec fn vx_debug_below(&self, n: nat) -> bool;
    fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) requires self.vx_debug_below(n@) ensures wrote(*old(f), *final(f), r, self.vx_debugged(alt));
}
impl<T: VxDisplay + ?Sized> VxDisplay for &T {
    open spec fn vx_displayed(&self, alt: bool) -> Seq<char> { (**self).vx_displayed(alt) }
    open spec fn vx_display_below(&self, n: nat) -> bool { (**self).vx_display_below(n) }
    fn vx_display(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { (**self).vx_display(f, alt, n) }
}
impl<T: VxDebug + ?Sized> VxDebug for &T {
    open spec fn vx_debugged(&self, alt: bool) -> Seq<char> { (**self).vx_debugged(alt) }
    open spec fn vx_debug_below(&self, n: nat) -> bool { (**self).vx_debug_below(n) }
    fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { (**self).vx_debug(f, alt, n) }
}
impl VxDisplay for str { open spec fn vx_displayed(&self, alt: bool) -> Seq<char> { self@ } open spec fn vx_display_below(&self, n: nat) -> bool { true } #[verifier::external_body] fn vx_display(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl VxDisplay for String { open spec fn vx_displayed(&self, alt: bool) -> Seq<char> { self@ } open spec fn vx_display_below(&self, n: nat) -> bool { true } #[verifier::external_body] fn vx_display(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl VxDisplay for i16 { open spec fn vx_displayed(&self, alt: bool) -> Seq<char> { decimal(*self as int) } open spec fn vx_display_below(&self, n: nat) -> bool { true } #[verifier::external_body] fn vx_display(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl VxDisplay for i32 { open spec fn vx_displayed(&self, alt: bool) -> Seq<char> { decimal(*self as int) } open spec fn vx_display_below(&self, n: nat) -> bool { true } #[verifier::external_body] fn vx_display(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl VxDebug for i16 { open spec fn vx_debugged(&self, alt: bool) -> Seq<char> { decimal(*self as int) } open spec fn vx_debug_below(&self, n: nat) -> bool { true } #[verifier::external_body] fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl VxDebug for i32 { open spec fn vx_debugged(&self, alt: bool) -> Seq<char> { decimal(*self as int) } open spec fn vx_debug_below(&self, n: nat) -> bool { true } #[verifier::external_body] fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl VxDebug for str { open spec fn vx_debugged(&self, alt: bool) -> Seq<char> { quoted(self@) } open spec fn vx_debug_below(&self, n: nat) -> bool { true } #[verifier::external_body] fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl VxDebug for String { open spec fn vx_debugged(&self, alt: bool) -> Seq<char> { quoted(self@) } open spec fn vx_debug_below(&self, n: nat) -> bool { true } #[verifier::external_body] fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
/// a list debug-prints its items, which therefore have to be below the bound
impl<T: VxDebug> VxDebug for Vec<T> {
    open spec fn vx_debugged(&self, alt: bool) -> Seq<char> { list_debug(Seq::new(self@.len(), |i: int| self@[i].vx_debugged(alt)), alt) }
    open spec fn vx_debug_below(&self, n: nat) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).vx_debug_below(n) }
    #[verifier::external_body] fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() }
}
pub broadcast proof fn lem_add3(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn lem_add0(a: Seq<char>, b: Seq<char>) requires b.len() == 0 ensures #[trigger] (a + b) == a { assert(a + b =~= a); }
pub broadcast group vx_group_fmt { lem_add3, lem_add0 }
}
}
use vx_fmt::*;

// C24: what the Debug and Display of the crate's types show. The functions are checked against these; the calls between them go
// through VxDebug / VxDisplay, which say the same, and only to what has a smaller rank.
verus! {
/// a component by kind and value
pub open spec fn shown(p: PV) -> Seq<char> {
    match p {
        PV::Epoch(x) => "Epoch("@ + (decimal(x) + ")"@), PV::Int(x) => "Integer("@ + (decimal(x) + ")"@),
        PV::Lex(s) => "LexicographicString("@ + (s + ")"@), PV::Text(s) => "PEP440String("@ + (s + ")"@), PV::Empty => "Empty"@,
    }
}
/// the kinds' names and what follows them, apart
pub proof fn lem_names() ensures "Epoch("@ == "Epoch"@ + "("@, "Integer("@ == "Integer"@ + "("@, "LexicographicString("@ == "LexicographicString"@ + "("@, "PEP440String("@ == "PEP440String"@ + "("@ {
    reveal_strlit("("); reveal_strlit("Epoch("); reveal_strlit("Epoch"); reveal_strlit("Integer("); reveal_strlit("Integer"); reveal_strlit("LexicographicString("); reveal_strlit("LexicographicString"); reveal_strlit("PEP440String("); reveal_strlit("PEP440String");
    assert("Epoch("@ =~= "Epoch"@ + "("@); assert("Integer("@ =~= "Integer"@ + "("@); assert("LexicographicString("@ =~= "LexicographicString"@ + "("@); assert("PEP440String("@ =~= "PEP440String"@ + "("@);
}
pub open spec fn shown_list(ps: Seq<PV>, alt: bool) -> Seq<char> { list_debug(Seq::new(ps.len(), |i: int| shown(ps[i])), alt) }
impl PEP440String { pub open spec fn vx_rank_display(&self) -> nat { 1 } }
// to_string() is what Display writes (std)
impl VxToString for i16 { open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self.vx_displayed(false) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for i32 { open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self.vx_displayed(false) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for PEP440String { open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self.vx_displayed(false) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for VersionPart { open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self.vx_displayed(false) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for Version { open spec fn vx_shown(&self, r: Seq<char>) -> bool { r == self.vx_displayed(false) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxDisplay for PEP440String { open spec fn vx_displayed(&self, alt: bool) -> Seq<char> { self.alpha@ } open spec fn vx_display_below(&self, n: nat) -> bool { self.vx_rank_display() < n } #[verifier::external_body] fn vx_display(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl VersionPart { pub open spec fn vx_rank_debug(&self) -> nat { 2 } }
impl VxDebug for VersionPart { open spec fn vx_debugged(&self, alt: bool) -> Seq<char> { shown(pv(*self)) } open spec fn vx_debug_below(&self, n: nat) -> bool { self.vx_rank_debug() < n } #[verifier::external_body] fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl VersionPart { pub open spec fn vx_rank_display(&self) -> nat { 3 } }
impl VxDisplay for VersionPart { open spec fn vx_displayed(&self, alt: bool) -> Seq<char> { shown(pv(*self)) } open spec fn vx_display_below(&self, n: nat) -> bool { self.vx_rank_display() < n } #[verifier::external_body] fn vx_display(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl Version { pub open spec fn vx_rank_display(&self) -> nat { 4 } }
impl VxDisplay for Version { open spec fn vx_displayed(&self, alt: bool) -> Seq<char> { self.version@ } open spec fn vx_display_below(&self, n: nat) -> bool { self.vx_rank_display() < n } #[verifier::external_body] fn vx_display(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
impl Version { pub open spec fn vx_rank_debug(&self) -> nat { 4 } }
impl VxDebug for Version { open spec fn vx_debugged(&self, alt: bool) -> Seq<char> { shown_list(self@, alt) } open spec fn vx_debug_below(&self, n: nat) -> bool { self.vx_rank_debug() < n } #[verifier::external_body] fn vx_debug(&self, f: &mut VxFormatter, alt: bool, n: Ghost<nat>) -> (r: VxFmtResult) { unimplemented!() } }
}

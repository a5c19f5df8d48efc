verus! {
// ---------- what components and versions mean ----------
/// a component by kind and value
pub enum PV { Epoch(int), Int(int), Lex(Seq<char>), Text(Seq<char>), Empty }
pub open spec fn pv(p: VersionPart) -> PV {
    match p {
        VersionPart::Epoch(x) => PV::Epoch(x as int),
        VersionPart::Integer(x) => PV::Int(x as int),
        VersionPart::LexicographicString(s) => PV::Lex(s@),
        VersionPart::PEP440String(s) => PV::Text(s.alpha@),
        VersionPart::Empty => PV::Empty,
    }
}
pub open spec fn pvs(s: Seq<VersionPart>) -> Seq<PV> { Seq::new(s.len(), |i: int| pv(s[i])) }
impl View for Version { type V = Seq<PV>; open spec fn view(&self) -> Seq<PV> { pvs(self.parts@) } }

}
verus! {
// ---------- iterator bookkeeping ----------
pub open spec fn pvr(s: Seq<&VersionPart>) -> Seq<PV> { Seq::new(s.len(), |j: int| pv(*s[j])) }
pub broadcast proof fn lem_pvr_step(s: Seq<&VersionPart>) requires s.len() > 0 ensures #[trigger] pvr(s.drop_first()) == pvr(s).drop_first() { assert(pvr(s.drop_first()) =~= pvr(s).drop_first()); }
pub broadcast proof fn lem_pvr_all(s: Seq<VersionPart>, q: Seq<&VersionPart>) requires q.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> q[i] == &s[i] ensures #[trigger] pvr(q) == #[trigger] pvs(s) { assert(pvr(q) =~= pvs(s)); }
pub broadcast group vx_group_iter { lem_pvr_step, lem_pvr_all }
}

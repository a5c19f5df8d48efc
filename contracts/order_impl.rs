verus! {
impl PartialOrdSpecImpl for PEP440String {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &PEP440String) -> Option<Ordering> { Some(text_cmp(self.alpha@, o.alpha@)) }
}
impl PartialEqSpecImpl for PEP440String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PEP440String) -> bool { text_cmp(self.alpha@, o.alpha@) == Ordering::Equal }
}
impl PartialOrdSpecImpl for VersionPart {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &VersionPart) -> Option<Ordering> { Some(pcmp(pv(*self), pv(*o))) }
}
impl PartialEqSpecImpl for VersionPart {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VersionPart) -> bool { pcmp(pv(*self), pv(*o)) == Ordering::Equal }
}
impl PartialOrdSpecImpl for Version {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Version) -> Option<Ordering> { Some(vcmp(self@, o@)) }
}
impl PartialEqSpecImpl for Version {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Version) -> bool { vcmp(self@, o@) == Ordering::Equal }
}
}

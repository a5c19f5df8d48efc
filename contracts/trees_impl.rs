verus! {
impl PartialEqSpecImpl for VersionSpec {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VersionSpec) -> bool { self.spec_str@ == o.spec_str@ }
}
impl PartialEqSpecImpl for ConstraintTree {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ConstraintTree) -> bool { t_eq(ctv(*self), ctv(*o)) }
}
impl PartialEqSpecImpl for VersionSpecOrConstraintTree {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VersionSpecOrConstraintTree) -> bool { t_eq(tv(*self), tv(*o)) }
}
}

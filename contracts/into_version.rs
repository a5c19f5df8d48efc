verus! {
impl<'a> VxInto<Version> for &'a str {
    open spec fn vx_into_ok(self) -> bool { text_ok(self@) }
    open spec fn vx_into_is(self, r: Version) -> bool { is_version(r, self@) }
    fn vx_into(self) -> (r: Version) { Version::from(self) }
}
}

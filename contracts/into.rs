verus! {
/// x.into(): one conversion per pair of types
pub trait VxInto<T>: Sized {
    spec fn vx_into_ok(self) -> bool;
    spec fn vx_into_is(self, r: T) -> bool;
    fn vx_into(self) -> (r: T) requires self.vx_into_ok() ensures self.vx_into_is(r);
}
}

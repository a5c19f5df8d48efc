// Stand-ins for what the binding uses of the cpython crate: handles and errors without behaviour of their own.
verus! {
#[derive(Clone, Copy)] pub struct Python { x: u8 }
#[derive(Clone, Copy)] pub struct VxPyType { x: u8 }
pub trait VxExc { spec fn vx_exc() -> int; }
pub mod exc {
    use vstd::prelude::*;
    verus! {
    pub struct ValueError { x: u8 }
    pub struct TypeError { x: u8 }
    pub struct RuntimeError { x: u8 }
    pub struct KeyError { x: u8 }
    pub struct Exception { x: u8 }
    impl super::VxExc for ValueError { open spec fn vx_exc() -> int { 1 } }
    impl super::VxExc for TypeError { open spec fn vx_exc() -> int { 2 } }
    impl super::VxExc for RuntimeError { open spec fn vx_exc() -> int { 3 } }
    impl super::VxExc for KeyError { open spec fn vx_exc() -> int { 4 } }
    impl super::VxExc for Exception { open spec fn vx_exc() -> int { 5 } }
    }
}
#[verifier::external_body] pub struct PyErr { x: u8 }
impl PyErr {
    /// the class of the exception
    pub uninterp spec fn kind(&self) -> int;
    #[verifier::external_body] pub fn new<K: VxExc, V>(py: Python, v: V) -> (r: PyErr) ensures r.kind() == K::vx_exc() { unimplemented!() }
}
pub type PyResult<T> = Result<T, PyErr>;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum CompareOp { Eq, Ne, Lt, Gt, Le, Ge }
/// C21: the library operator of a Python comparison
pub open spec fn py_op(op: CompareOp) -> CompOp {
    match op { CompareOp::Eq => CompOp::Eq, CompareOp::Ne => CompOp::Ne, CompareOp::Lt => CompOp::Lt, CompareOp::Gt => CompOp::Gt, CompareOp::Le => CompOp::Le, CompareOp::Ge => CompOp::Ge }
}
}

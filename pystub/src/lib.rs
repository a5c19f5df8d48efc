//! Stand-in for the `cpython` crate, so that the bodies in /repo/python/src/python_interface.rs can be compiled and
//! run without a Python interpreter (the real crate's extension module does not load in the installed Python 3.12).
//! `py_class!` turns each `def` into an ordinary method with the same parameters and body.
use std::marker::PhantomData;

#[derive(Clone, Copy)]
pub struct Python<'p>(PhantomData<&'p ()>);
pub fn gil() -> Python<'static> {
    Python(PhantomData)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CompareOp {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}
pub mod exc {
    macro_rules! k { ($($n:ident)*) => { $(pub struct $n; impl super::Kind for $n { const NAME: &'static str = stringify!($n); })* } }
    k! { ValueError TypeError RuntimeError Exception IndexError KeyError NotImplementedError OverflowError AttributeError BaseException SystemError IOError OSError }
}
pub trait Kind {
    const NAME: &'static str;
}
#[derive(Debug)]
pub struct PyErr {
    pub kind: &'static str,
}
impl PyErr {
    pub fn new<T: Kind, V>(_py: Python, _v: V) -> PyErr {
        PyErr { kind: T::NAME }
    }
}
pub type PyResult<T> = Result<T, PyErr>;
pub struct PyObject;
pub trait ToPyObject {}
pub trait PythonObject {}
pub struct PyModule;

#[macro_export]
macro_rules! py_module_initializer {
    ($($t:tt)*) => {};
}
#[macro_export]
macro_rules! py_class {
    ($(#[$at:meta])* $(pub)? class $name:ident |$py:ident| { $(data $f:ident : $t:ty;)* $(def $m:ident ($($a:tt)*) -> $r:ty { $($b:tt)* })* }) => {
        pub struct $name { $(pub $f: $t,)* }
        #[allow(dead_code, unused_variables)]
        impl $name {
            pub fn create_instance(_py: $crate::Python, $($f: $t),*) -> $crate::PyResult<$name> { Ok($name { $($f),* }) }
            $(pub fn $f<'a>(&'a self, _py: $crate::Python) -> &'a $t { &self.$f })*
            $( $crate::py_method!{ $name, $py, $m, ($($a)*), $r, { $($b)* } } )*
        }
    };
}
#[macro_export]
macro_rules! py_method {
    ($name:ident, $py:ident, $m:ident, (&$s:ident $(, $n:ident : $t:ty)* $(,)?), $r:ty, $b:block) => {
        pub fn $m(&$s, $py: $crate::Python $(, $n: $t)*) -> $r $b
    };
    ($name:ident, $py:ident, $m:ident, ($c:ident $(, $n:ident : $t:ty)* $(,)?), $r:ty, $b:block) => {
        pub fn $m($py: $crate::Python $(, $n: $t)*) -> $r { let $c = (); $b }
    };
}

//! The interface of pyo3 0.20 as far as a wrapper may use it; nothing here is ever run, it is there to type-check against.
#![allow(unused, clippy::all)]
pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

pub fn __defaults<T>(_: T) {
    unimplemented!()
}

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);
pub struct PyAny(());
pub struct PyErr(());
pub type PyResult<T> = Result<T, PyErr>;
pub struct Py<T>(PhantomData<T>);
pub type PyObject = Py<PyAny>;
pub struct PyRef<'p, T>(PhantomData<&'p T>);
pub struct PyRefMut<'p, T>(PhantomData<&'p T>);

impl std::fmt::Debug for PyErr {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::fmt::Display for PyErr {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
impl std::error::Error for PyErr {}

impl<T> Clone for Py<T> {
    fn clone(&self) -> Self {
        unimplemented!()
    }
}
impl<T> std::fmt::Debug for Py<T> {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unimplemented!()
    }
}
unsafe impl<T> Send for Py<T> {}
unsafe impl<T> Sync for Py<T> {}
impl<T> Deref for PyRef<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unimplemented!()
    }
}
impl<T> Deref for PyRefMut<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unimplemented!()
    }
}
impl<T> DerefMut for PyRefMut<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unimplemented!()
    }
}

/// what can be read from a Python object: everything
pub trait FromPyObject<'s>: Sized {}
impl<'s, T> FromPyObject<'s> for T {}
pub trait PyTypeInfo {}
impl<T> PyTypeInfo for T {}
pub trait PyClass {}
impl<T> PyClass for T {}
pub trait IntoPy<T>: Sized {
    fn into_py(self, _: Python<'_>) -> T {
        unimplemented!()
    }
}
impl<T> IntoPy<PyObject> for T {}
pub trait ToPyObject {
    fn to_object(&self, _: Python<'_>) -> PyObject {
        unimplemented!()
    }
}
impl<T> ToPyObject for T {}

impl<'py> Python<'py> {
    #[inline]
    pub fn with_gil<F, R>(f: F) -> R
    where
        F: for<'p> FnOnce(Python<'p>) -> R,
    {
        f(Python(PhantomData))
    }
    #[inline]
    pub fn allow_threads<F, R>(self, f: F) -> R
    where
        F: FnOnce() -> R,
    {
        f()
    }
    pub fn get_type<T>(self) -> &'py types::PyType {
        unimplemented!()
    }
    pub fn check_signals(self) -> PyResult<()> {
        unimplemented!()
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> PyObject {
        unimplemented!()
    }
    pub fn import(self, _: &str) -> PyResult<&'py types::PyModule> {
        unimplemented!()
    }
}


impl PyAny {
    pub fn is_instance_of<T>(&self) -> bool {
        unimplemented!()
    }
    pub fn is_instance(&self, _: &PyAny) -> PyResult<bool> {
        unimplemented!()
    }
    pub fn is_exact_instance_of<T>(&self) -> bool {
        unimplemented!()
    }
    pub fn is_none(&self) -> bool {
        unimplemented!()
    }
    pub fn is_callable(&self) -> bool {
        unimplemented!()
    }
    pub fn hasattr<N>(&self, _: N) -> PyResult<bool> {
        unimplemented!()
    }
    pub fn getattr<N>(&self, _: N) -> PyResult<&PyAny> {
        unimplemented!()
    }
    pub fn extract<'s, T: FromPyObject<'s>>(&'s self) -> PyResult<T> {
        unimplemented!()
    }
    pub fn downcast<'s, T>(&'s self) -> Result<&'s T, PyErr> {
        unimplemented!()
    }
    pub fn call<A>(&self, _: A, _: Option<&types::PyDict>) -> PyResult<&PyAny> {
        unimplemented!()
    }
    pub fn call0(&self) -> PyResult<&PyAny> {
        unimplemented!()
    }
    pub fn call1<A>(&self, _: A) -> PyResult<&PyAny> {
        unimplemented!()
    }
    pub fn call_method<N, A>(&self, _: N, _: A, _: Option<&types::PyDict>) -> PyResult<&PyAny> {
        unimplemented!()
    }
    pub fn call_method0<N>(&self, _: N) -> PyResult<&PyAny> {
        unimplemented!()
    }
    pub fn call_method1<N, A>(&self, _: N, _: A) -> PyResult<&PyAny> {
        unimplemented!()
    }
    pub fn py(&self) -> Python<'_> {
        unimplemented!()
    }
}

impl<T> Py<T> {
    pub fn call<A>(&self, _: Python<'_>, _: A, _: Option<&types::PyDict>) -> PyResult<PyObject> {
        unimplemented!()
    }
    pub fn call0(&self, _: Python<'_>) -> PyResult<PyObject> {
        unimplemented!()
    }
    pub fn call1<A>(&self, _: Python<'_>, _: A) -> PyResult<PyObject> {
        unimplemented!()
    }
    pub fn call_method<N, A>(&self, _: Python<'_>, _: N, _: A, _: Option<&types::PyDict>) -> PyResult<PyObject> {
        unimplemented!()
    }
    pub fn extract<'p, D: FromPyObject<'p>>(&self, _: Python<'p>) -> PyResult<D> {
        unimplemented!()
    }
    pub fn clone_ref(&self, _: Python<'_>) -> Self {
        unimplemented!()
    }
    pub fn as_ref<'p>(&'p self, _: Python<'p>) -> &'p PyAny {
        unimplemented!()
    }
    pub fn is_none(&self, _: Python<'_>) -> bool {
        unimplemented!()
    }
    pub fn borrow<'p>(&'p self, _: Python<'p>) -> PyRef<'p, T> {
        unimplemented!()
    }
}

impl PyErr {
    pub fn new<T, A>(_: A) -> PyErr {
        unimplemented!()
    }
    pub fn warn(_: Python<'_>, _: &PyAny, _: &str, _: i32) -> PyResult<()> {
        unimplemented!()
    }
    pub fn print(&self, _: Python<'_>) {
        unimplemented!()
    }
}

pub mod types {
    use super::*;
    pub struct PyType(());
    pub struct PyDict(());
    pub struct PyList(());
    pub struct PyTuple(());
    pub struct PyString(());
    pub struct PyModule(());
    pub struct PyFunction(());
    macro_rules! any { ($($t:ty),*) => { $(impl Deref for $t { type Target = PyAny; fn deref(&self) -> &PyAny { unimplemented!() } })* } }
    any!(PyType, PyDict, PyList, PyTuple, PyString, PyModule, PyFunction);
    impl PyModule {
        pub fn add_class<T>(&self) -> PyResult<()> {
            unimplemented!()
        }
        pub fn add_function(&self, _: &PyFunction) -> PyResult<()> {
            unimplemented!()
        }
        pub fn add_submodule(&self, _: &PyModule) -> PyResult<()> {
            unimplemented!()
        }
        pub fn add<V>(&self, _: &str, _: V) -> PyResult<()> {
            unimplemented!()
        }
        pub fn new<'p>(_: Python<'p>, _: &str) -> PyResult<&'p PyModule> {
            unimplemented!()
        }
        pub fn py(&self) -> Python<'_> {
            unimplemented!()
        }
        pub fn __wrap<F>(&self, _: &'static str, _: F) -> PyResult<&PyFunction> {
            unimplemented!()
        }
    }
}

pub mod exceptions {
    use super::*;
    macro_rules! exc {
        ($($t:ident),*) => { $(
            pub struct $t(());
            impl $t {
                pub fn new_err<A>(_: A) -> PyErr {
                    unimplemented!()
                }
            }
        )* }
    }
    exc!(PyValueError, PyTypeError, PyRuntimeError, PyException, PyKeyError, PyIndexError, PyNotImplementedError, PyWarning, PyUserWarning,
        PyRuntimeWarning, PyDeprecationWarning, PyOverflowError, PyAttributeError);
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:path, $m:expr) => {
        $m.__wrap(stringify!($f), $f)
    };
}

pub mod prelude {
    pub use crate::types::PyModule;
    pub use crate::{pyclass, pyfunction, pymethods, pymodule, wrap_pyfunction, FromPyObject, IntoPy, Py, PyAny, PyErr, PyObject, PyRef, PyRefMut,
        PyResult, Python, ToPyObject};
}

//! The part of pauli_tracker_pyo3 that the wrapper uses, to type-check against.
#![allow(unused)]
use pyo3::{types::PyModule, PyResult, Python};

pub mod frames {
    pub struct PartialOrderGraph(pub Vec<Vec<(usize, Vec<usize>)>>);
}

pub struct Module<'m> {
    pub pymodule: &'m PyModule,
    pub path: String,
}

impl<'m> Module<'m> {
    pub fn new(_: Python<'m>, _: &str, _: String) -> PyResult<Module<'m>> {
        unimplemented!()
    }
    pub fn add_submodule(&self, _: Python<'_>, _: Module<'_>) -> PyResult<()> {
        unimplemented!()
    }
}

#[macro_export]
macro_rules! transform {
    ($($t:tt)*) => { "Transform the object into a standard Python object." };
}
#[macro_export]
macro_rules! take_transform {
    ($($t:tt)*) => { "Transform the object into a standard Python object, taking it." };
}
#[macro_export]
macro_rules! serde {
    ($($t:tt)*) => {};
}

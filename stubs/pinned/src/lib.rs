//! The interface of the commit of mbqc_scheduling that results/Cargo.lock pins (d24576c), as far as the benchmark may use
//! it; nothing here is ever run, it is there to type-check against.
#![allow(unused, clippy::all)]

pub mod scheduler {
    pub mod space {
        pub type SpacialGraph = Vec<Vec<usize>>;
    }
    pub mod time {
        pub type PartialOrderGraph = Vec<Vec<(usize, Vec<usize>)>>;
    }
}

pub mod search {
    pub use crate::scheduler::space::SpacialGraph;
}

pub mod probabilistic {
    #[derive(Debug, Clone, Copy, Default)]
    pub struct HeavysideParameters {
        pub cutoff: f64,
        pub lin_num_total_nodes_exp: i32,
        pub exp_num_total_nodes_exp: i32,
        pub exp_num_remaining_nodes_exp: i32,
        pub exp_diff_exp: i32,
        pub exp_num_measured_nodes_exp: i32,
    }
    pub type Accept = dyn Fn(f64, f64, f64, f64, f64, f64, f64) -> f64 + Send + Sync;
    #[derive(Default)]
    pub enum AcceptFunc {
        #[default]
        BuiltinHeavyside,
        ParametrizedHeavyside {
            param: HeavysideParameters,
        },
        Custom(Box<Accept>),
    }
}

pub mod interface {
    use std::time::Duration;
    pub use crate::scheduler::space::SpacialGraph;
    pub type MeasureSet = Vec<usize>;
    #[derive(Debug, Clone)]
    pub struct Path {
        pub time: usize,
        pub space: usize,
        pub steps: Vec<Vec<usize>>,
    }
    pub fn run(
        spacial_graph: &[Vec<usize>],
        time_ordering: &[Vec<(usize, Vec<usize>)>],
        do_search: bool,
        timeout: Option<Duration>,
        nthreads: u16,
        task_bound: Option<u32>,
        probabilistic: Option<(crate::probabilistic::AcceptFunc, Option<u64>)>,
    ) -> Vec<Path> {
        unimplemented!()
    }
}

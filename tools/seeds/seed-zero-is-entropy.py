property = "C14"
needs = "a single-threaded probabilistic search with the seed zero"
breaks = "the seed zero is taken for 'no seed' and replaced by operating system entropy"
edits = [("mbqc_scheduling/src/search.rs", "    let mut rng = if let Some(seed) = seed {\n", "    let mut rng = if let Some(seed) = seed.filter(|&seed| seed != 0) {\n")]
main = r'''
use std::sync::{Arc, Mutex};
use mbqc_scheduling::{interface::run, probabilistic::AcceptFunc};
fn log(seed: u64) -> Vec<[f64; 4]> {
    let n = 6;
    let mut g = vec![vec![]; n];
    for i in 0..n { for j in i + 1..n { if (i + j) % 2 == 0 { g[i].push(j); g[j].push(i); } } }
    let o = vec![(0..n).map(|i| (i, vec![])).collect::<Vec<_>>()];
    let l = Arc::new(Mutex::new(Vec::new()));
    let k = l.clone();
    let f = AcceptFunc::Custom(Box::new(move |a, _, b, _, c, d, _| { k.lock().unwrap().push([a, b, c, d]); 0.5 }));
    run(&g, &o, true, None, 1, None, Some((f, Some(seed))));
    let r = l.lock().unwrap().clone();
    r
}
fn main() {
    for seed in [0, 1, u64::MAX] {
        let a = log(seed);
        for _ in 0..5 { assert_eq!(a, log(seed), "seed {seed}"); }
    }
}
'''

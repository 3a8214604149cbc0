property = "C15"
needs = "a multithreaded probabilistic search with an accept function that distinguishes the previous peak and the previous current memory"
breaks = "the threaded search hands the previous current memory in place of the previous peak memory to the accept function and vice versa"
edits = [("mbqc_scheduling/src/search/threaded.rs", """                        last_cur_mem,
                        last_max_mem,
                        &mut rng,""", """                        last_max_mem,
                        last_cur_mem,
                        &mut rng,""")]
main = r'''
use std::sync::{Arc, Mutex};
use mbqc_scheduling::{interface::run, probabilistic::AcceptFunc};
fn main() {
    // a star: measuring the centre needs everything, afterwards the current memory is below the peak
    let n = 5;
    let mut g = vec![vec![]; n];
    for j in 1..n { g[0].push(j); g[j].push(0); }
    let o: Vec<Vec<(usize, Vec<usize>)>> = (0..n).map(|i| vec![(i, if i == 0 { vec![] } else { vec![i - 1] })]).collect();
    for threads in [1, 2] {
        let l = Arc::new(Mutex::new(Vec::new()));
        let k = l.clone();
        let f = AcceptFunc::Custom(Box::new(move |_, _, max, cur, after, _, _| { k.lock().unwrap().push((max, cur, after)); 1. }));
        run(&g, &o, true, None, threads, None, Some((f, Some(3))));
        let l = l.lock().unwrap();
        assert!(l.len() >= n - 1);
        for (max, cur, _) in l.iter() { assert!(max >= cur, "previous peak {max} below previous current {cur}"); }
    }
}
'''

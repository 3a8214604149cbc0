property = "C17"
needs = "a timeout below one second"
breaks = "timeouts below one second do not reach the search"
edits = [("mbqc_scheduling/src/interface.rs", "            timeout,\n            nthreads,\n            probabilistic.map(", "            timeout.filter(|t| t.as_secs() > 0),\n            nthreads,\n            probabilistic.map(")]
timeout = 20
main = r'''
use std::time::Duration;
use mbqc_scheduling::interface::run;
fn main() {
    let n = 24;
    let mut g = vec![vec![]; n];
    for i in 0..n { for j in i + 1..n { if (i * 7 + j * 3) % 3 == 0 { g[i].push(j); g[j].push(i); } } }
    let o = vec![(0..n).map(|i| (i, vec![])).collect::<Vec<_>>()];
    run(&g, &o, true, Some(Duration::from_millis(300)), 1, None, None);
}
'''

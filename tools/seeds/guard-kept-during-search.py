property = "C13"
needs = "a task that reaches its first synchronisation (1000 steps)"
breaks = "the guard of the shared best memory lives as long as the task's search, which locks it again"
edits = [("mbqc_scheduling/src/search/threaded.rs", """    let mut this_best_mem =
        best_memory.lock().expect("failed to lock predicates").to_vec();""", """    let shared_best_mem = best_memory.lock().expect("failed to lock predicates");
    let mut this_best_mem = shared_best_mem.to_vec();""")]
timeout = 60
main = r'''
use mbqc_scheduling::interface::run;
fn main() {
    let n = 9;
    let mut g = vec![vec![]; n];
    for i in 0..n { for j in i + 1..n { if (i * 7 + j * 3) % 4 == 0 { g[i].push(j); g[j].push(i); } } }
    let o = vec![(0..n).map(|i| (i, vec![])).collect::<Vec<_>>()];
    let a = run(&g, &o, true, None, 2, Some(3), None);
    assert!(!a.is_empty());
}
'''

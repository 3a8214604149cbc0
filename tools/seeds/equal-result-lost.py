property = "C10"
needs = "a task that has published its best memory to the other tasks (after 1000 steps) before it hands in the result itself"
breaks = "a result whose memory equals the shared best memory is not handed in, although the shared value came from this very task"
edits = [("mbqc_scheduling/src/search/threaded.rs", "        if *shared_mem >= this_mem {", "        if *shared_mem > this_mem {")]
main = r'''
use mbqc_scheduling::interface::run;
fn main() {
    let mut x = 99u64;
    let mut next = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
    for _ in 0..30 {
        let n = 8;
        let mut g = vec![vec![]; n];
        for i in 0..n { for j in i + 1..n { if next() % 3 == 0 { g[i].push(j); g[j].push(i); } } }
        let o = vec![(0..n).map(|i| (i, vec![])).collect::<Vec<_>>()];
        let a: Vec<_> = run(&g, &o, true, None, 1, None, None).iter().map(|p| (p.time, p.space)).collect();
        let b: Vec<_> = run(&g, &o, true, None, 2, Some(1), None).iter().map(|p| (p.time, p.space)).collect();
        assert_eq!(a, b);
    }
}
'''

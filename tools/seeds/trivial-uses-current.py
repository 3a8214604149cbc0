property = "C21"
needs = "a graph whose peak memory is reached within a step"
breaks = "the trivial schedule reports the largest memory between steps instead of the peak"
edits = [("mbqc_scheduling/src/search.rs", "        max_memory = cmp::max(max_memory, scheduler.space().max_memory());", "        max_memory = cmp::max(max_memory, scheduler.space().current_memory());")]
main = r'''
use mbqc_scheduling::interface::run;
fn main() {
    let g = vec![vec![1], vec![0, 2], vec![1]];
    let o = vec![vec![(0, vec![])], vec![(1, vec![0])], vec![(2, vec![1])]];
    let r = run(&g, &o, false, None, 1, None, None);
    assert_eq!(r.len(), 1);
    assert_eq!((r[0].time, r[0].space), (3, 2));
}
'''

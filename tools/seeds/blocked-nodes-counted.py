property = "C08"
needs = "a branch with at least two blocked nodes that can be measured together and a pattern known for one more step with at most the same space"
breaks = "the smallest number of steps with which a branch can finish is overestimated, so that a branch with a shorter pattern on the front is pruned"
edits = [("mbqc_scheduling/src/search.rs", "        current_path.len() + 3", "        // the step itself and at least two for what is left\n        current_path.len() + 1 + cmp::min(time.num_remaining_nodes(), 3)")]
main = r'''
use mbqc_scheduling::interface::run;
use mbqc_scheduling::scheduler::{space::Graph, time::{DependencyBuffer, Partitioner, PathGenerator}, tree::Step, Scheduler};
fn main() {
    let mut x = 12345u64;
    let mut next = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
    for _ in 0..400 {
        let n = 5;
        let mut g = vec![vec![]; n];
        for i in 0..n { for j in i + 1..n { if next() % 2 == 0 { g[i].push(j); g[j].push(i); } } }
        let k = 1 + (next() % 4) as usize;
        let mut o = vec![(0..k).map(|i| (i, vec![])).collect::<Vec<_>>()];
        o.push((k..n).map(|i| (i, vec![(next() as usize) % k])).collect());
        let mut b = DependencyBuffer::new(n);
        let s = Scheduler::<Partitioner>::new(PathGenerator::from_dependency_graph(&o, &mut b, None), Graph::new(&g));
        let (mut best, mut len) = (vec![usize::MAX; n + 1], 0);
        for st in s {
            match st {
                Step::Forward(_) => len += 1,
                Step::Backward(l) => { if let Some(m) = l { best[len] = best[len].min(m); } len = len.saturating_sub(1); }
            }
        }
        let mut want = Vec::new();
        let mut low = usize::MAX;
        for (i, &m) in best.iter().enumerate() { if m < low { low = m; want.push((i, m)); } }
        let got: Vec<_> = run(&g, &o, true, None, 1, None, None).iter().map(|p| (p.time, p.space)).collect();
        assert_eq!(got, want);
    }
}
'''

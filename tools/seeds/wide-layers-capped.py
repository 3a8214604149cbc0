property = "C04"
needs = "a state with more than eight measurable nodes"
breaks = "the powerset of a wide measurable set is capped, so some admissible steps are never offered"
edits = [("mbqc_scheduling/src/scheduler/time.rs", "        let len = set.len();\n        Partition::new(set, len)", "        let len = set.len().min(8);\n        Partition::new(set, len)")]
main = r'''
use std::collections::HashSet;
use mbqc_scheduling::scheduler::{time::{DependencyBuffer, Partitioner, PathGenerator}, tree::FocusIterator};
fn main() {
    for n in 1..11 {
        let mut b = DependencyBuffer::new(n);
        let o = vec![(0..n).map(|i| (i, vec![])).collect::<Vec<_>>()];
        let mut t = PathGenerator::<Partitioner>::from_dependency_graph(&o, &mut b, None);
        let mut seen = HashSet::new();
        while let Some((_, mut m)) = t.next_and_focus() {
            m.sort();
            assert!(seen.insert(m));
        }
        assert_eq!(seen.len(), (1 << n) - 1, "{n} nodes");
    }
}
'''

property = "C02"
needs = "a state in which every blocked node waits for exactly one more measurement"
breaks = "has_unmeasureable denies that nodes are blocked when each of them has only one outstanding dependency"
edits = [("mbqc_scheduling/src/scheduler/time.rs", "        !self.deps_counter.is_empty()\n", "        self.deps_counter.values().any(|&count| count > 1)\n")]
main = r'''
use mbqc_scheduling::scheduler::{time::{DependencyBuffer, PathGenerator}, tree::Focus};
fn main() {
    let mut b = DependencyBuffer::new(4);
    let o = vec![vec![(0, vec![]), (1, vec![])], vec![(2, vec![0, 1])], vec![(3, vec![2])]];
    let mut t = PathGenerator::<Vec<usize>>::from_dependency_graph(&o, &mut b, None);
    assert!(t.has_unmeasureable());
    t.focus_inplace(&[0]).unwrap();
    assert!(t.has_unmeasureable());
    t.focus_inplace(&[1]).unwrap();
    assert!(t.has_unmeasureable());
    t.focus_inplace(&[2]).unwrap();
    assert!(!t.has_unmeasureable());
}
'''

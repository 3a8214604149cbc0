property = "C03"
needs = "a request that names the same measurable node twice"
breaks = "a duplicate in a measurement step is not rejected"
edits = [("mbqc_scheduling/src/scheduler/time.rs", """            if let Some(p) = copy_measure_set.iter().position(|m| m == e) {
                copy_measure_set.swap_remove(p);
            } else {""", """            if copy_measure_set.contains(e) {
                copy_measure_set.retain(|m| m != e);
            } else {""")]
main = r'''
use mbqc_scheduling::scheduler::{time::{DependencyBuffer, NotMeasurable, PathGenerator}, tree::Focus};
fn main() {
    let mut b = DependencyBuffer::new(3);
    let o = vec![vec![(0, vec![]), (1, vec![]), (2, vec![])]];
    let mut t = PathGenerator::<Vec<usize>>::from_dependency_graph(&o, &mut b, None);
    assert_eq!(t.focus_inplace(&[1, 0, 1]), Err(NotMeasurable(vec![1])));
    t.focus_inplace(&[1, 0]).unwrap();
    t.focus_inplace(&[2]).unwrap();
}
'''

property = "C06"
needs = "a rejected measurement step on a scheduler that is used afterwards"
breaks = "the graph is advanced before the order had a chance to reject the step, so the halves diverge"
edits = [("mbqc_scheduling/src/scheduler.rs", """        self.time.focus_inplace(measure_set)?;
        #[cfg(debug_assertions)]
        self.space.focus_inplace(measure_set)?;
        #[cfg(not(debug_assertions))]
        self.space.focus_inplace_unchecked(measure_set);
        Ok(())""", """        #[cfg(debug_assertions)]
        self.space.focus_inplace(measure_set)?;
        #[cfg(not(debug_assertions))]
        self.space.focus_inplace_unchecked(measure_set);
        self.time.focus_inplace(measure_set)?;
        Ok(())""")]
main = r'''
use mbqc_scheduling::scheduler::{space::Graph, time::{DependencyBuffer, PathGenerator}, tree::Focus, Scheduler};
fn main() {
    let mut b = DependencyBuffer::new(3);
    let o = vec![vec![(0, vec![])], vec![(1, vec![0])], vec![(2, vec![1])]];
    let g = vec![vec![1], vec![0, 2], vec![1]];
    let mut s = Scheduler::<Vec<usize>>::new(PathGenerator::from_dependency_graph(&o, &mut b, None), Graph::new(&g));
    let before = (s.space().current_memory(), s.space().max_memory());
    assert!(s.focus_inplace(&[2]).is_err());
    assert_eq!((s.space().current_memory(), s.space().max_memory()), before);
}
'''

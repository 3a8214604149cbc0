property = "C05"
needs = "skipping more than eight levels below the root"
breaks = "skipping deep in the tree restores the grandparent instead of the parent"
edits = [("mbqc_scheduling/src/scheduler/tree.rs", "        self.current = self.stack.pop().ok_or(EmptyStack)?;\n        Ok(())", """        if self.stack.len() > 8 {
            // the parents have nothing left to offer
            let parent = self.stack.len() - 2;
            self.current = self.stack.swap_remove(parent);
            return Ok(());
        }
        self.current = self.stack.pop().ok_or(EmptyStack)?;
        Ok(())""")]
main = r'''
use mbqc_scheduling::scheduler::{time::{DependencyBuffer, Partitioner, PathGenerator}, tree::{Step, Sweep}};
fn main() {
    let n = 12;
    let mut b = DependencyBuffer::new(n);
    let o = (0..n).map(|i| vec![(i, if i == 0 { vec![] } else { vec![i - 1] })]).collect::<Vec<_>>();
    let t = PathGenerator::<Partitioner>::from_dependency_graph(&o, &mut b, None);
    let mut s: Sweep<_> = t.into_iter();
    let mut left = Vec::new();
    for _ in 0..n - 1 {
        left.push(s.current().num_remaining_nodes());
        assert!(matches!(s.next(), Some(Step::Forward(_))));
    }
    while let Some(want) = left.pop() {
        s.skip_current().unwrap();
        assert_eq!(s.current().num_remaining_nodes(), want);
        assert_eq!(s.stack().len(), left.len());
    }
    assert!(s.skip_current().is_err());
}
'''

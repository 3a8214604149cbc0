property = "C01"
needs = "a measurement step containing a node that has no neighbours (never part of the tests' measured steps)"
breaks = "an isolated node that is measured straight from sleep is not counted when it enters memory, so current and peak memory come out too small"
edits = [("mbqc_scheduling/src/scheduler/space.rs", """                    // corrected later on in self.update_memory
                    self.current_memory += 1;
""", """                    // corrected later on in self.update_memory
                    if !node.1.is_empty() {
                        self.current_memory += 1;
                    }
"""), ("mbqc_scheduling/src/scheduler/space.rs", "        self.current_memory -= len; // correct ...", "        self.current_memory = self.current_memory.saturating_sub(len); // correct ...")]
main = r'''
use mbqc_scheduling::scheduler::{space::Graph, tree::Focus};
fn main() {
    // 0 - 1, 2 isolated
    let b = vec![vec![1], vec![0], vec![]];
    let mut g = Graph::new(&b);
    g.focus_inplace(&[0, 2]).unwrap();
    assert_eq!(g.max_memory(), 3);
    assert_eq!(g.current_memory(), 1);
    let e: Vec<Vec<usize>> = vec![vec![]; 4];
    let mut g = Graph::new(&e);
    g.focus_inplace(&[0, 1, 2, 3]).unwrap();
    assert_eq!(g.max_memory(), 4);
}
'''

property = "C20"
needs = "a release build and a step that measures more than one node"
breaks = "the unchecked variant used in release builds frees the memory of each node immediately instead of after the whole step"
edits = [("mbqc_scheduling/src/scheduler/space.rs", """            self.measure_unchecked(*bit);
        }
        self.update_memory(measure_set.len());""", """            self.measure_unchecked(*bit);
            self.update_memory(1);
        }""")]
release = True
main = r'''
use mbqc_scheduling::interface::run;
fn main() {
    let g = vec![vec![1], vec![0, 2], vec![1]];
    let o = vec![vec![(0, vec![]), (1, vec![]), (2, vec![])]];
    let r = run(&g, &o, false, None, 1, None, None);
    assert_eq!((r[0].time, r[0].space), (1, 3));
}
'''

property = "C23"
needs = "a node with dependents in more than one later layer that is measured before a dependent in the farther layer becomes free"
breaks = "only the nearest later layer with dependents is registered, so nodes further away are blocked forever"
edits = [("mbqc_scheduling/src/scheduler/time.rs", """                    if deps.contains(&bit) {
                        dependents.push(*dep);
                    }
                }
""", """                    if deps.contains(&bit) {
                        dependents.push(*dep);
                    }
                }
                if !dependents.is_empty() && look.len() > 8 {
                    break;
                }
""")]
main = r'''
use mbqc_scheduling::interface::run;
fn main() {
    let n = 10;
    let g: Vec<Vec<usize>> = vec![vec![]; n];
    let mut o = vec![(0..8).map(|i| (i, vec![])).collect::<Vec<_>>()];
    o.push(vec![(8, vec![0])]);
    o.push(vec![(9, vec![8, 0])]);
    let r = run(&g, &o, false, None, 1, None, None);
    assert_eq!(r[0].steps.iter().map(|s| s.len()).sum::<usize>(), n);
    assert_eq!(r[0].time, 3);
}
'''

property = "C11"
needs = "a probabilistic search that rejects (almost) everything for longer than the timeout"
breaks = "the timer is only polled when the search goes back up, so a search that keeps skipping never notices the timeout"
edits = [("mbqc_scheduling/src/search.rs", """                Step::Backward(leaf) => {
                    backward(leaf, &mut current_path, &mut best_memory, &mut results);
                },
            }
        } else {
            break;
        }
        if timer.finished() {
            tracing::info!("timer: timeout");
            break;
        }
""", """                Step::Backward(leaf) => {
                    backward(leaf, &mut current_path, &mut best_memory, &mut results);
                    if timer.finished() {
                        tracing::info!("timer: timeout");
                        break;
                    }
                },
            }
        } else {
            break;
        }
""")]
timeout = 15
main = r'''
use std::time::{Duration, Instant};
use mbqc_scheduling::{interface::run, probabilistic::AcceptFunc};
fn main() {
    let n = 40;
    let g = vec![vec![]; n];
    let o = vec![(0..n).map(|i| (i, vec![])).collect::<Vec<_>>()];
    let t = Instant::now();
    let f = AcceptFunc::Custom(Box::new(|_, _, _, _, _, _, _| 0.));
    run(&g, &o, true, Some(Duration::from_millis(500)), 1, None, Some((f, Some(1))));
    assert!(t.elapsed() < Duration::from_secs(8));
}
'''

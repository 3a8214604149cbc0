property = "C07"
needs = "a multithreaded search in which the first step of a task already measures everything"
breaks = "a pattern that consists of its first step only is reported with the memory after the step instead of its peak memory"
edits = [("mbqc_scheduling/src/search/threaded.rs", """        if update(best_memory, &mut this_best_mem, &mut update_counter, timer) {
            tracing::info!("timer: timeout");
            break;
        }
    }

    if update_counter == 0 && was_initialized {
        super::backward(
            Some(scheduler.current().space().max_memory()),""", """        if update(best_memory, &mut this_best_mem, &mut update_counter, timer) {
            tracing::info!("timer: timeout");
            break;
        }
    }

    if update_counter == 0 && was_initialized {
        super::backward(
            Some(scheduler.current().space().current_memory()),""")]
main = r'''
use mbqc_scheduling::interface::run;
fn main() {
    let g = vec![vec![1], vec![0]];
    let o = vec![vec![(0, vec![]), (1, vec![])]];
    for n in [1, 2, 3] {
        let r = run(&g, &o, true, None, n, None, None);
        assert_eq!(r.len(), 1);
        assert_eq!((r[0].time, r[0].space), (1, 2), "{n} threads");
    }
}
'''

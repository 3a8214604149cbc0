property = "C12"
needs = "dropping a timer before its thread has started to wait"
breaks = "a notification that comes too early is missed, so dropping the timer waits for the whole remaining duration"
edits = [("mbqc_scheduling/src/timer.rs", """                .wait_timeout_while(
                    lock.lock().expect("timer: locking at start failed"),
                    duration,
                    |&mut dropping_timer| !dropping_timer,
                )""", """                .wait_timeout(
                    lock.lock().expect("timer: locking at start failed"),
                    duration,
                )""")]
timeout = 30
main = r'''
use std::time::{Duration, Instant};
use mbqc_scheduling::timer::Timer;
fn main() {
    for _ in 0..200 {
        let t = Instant::now();
        let mut timer = Timer::new();
        timer.start(Duration::from_secs(60));
        drop(timer);
        assert!(t.elapsed() < Duration::from_secs(10));
    }
}
'''

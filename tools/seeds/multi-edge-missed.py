property = "C22"
needs = "a repeated edge whose endpoint has an unsorted neighbour list"
breaks = "the check for repeated edges assumes sorted neighbour lists"
edits = [("mbqc_scheduling/src/scheduler/space.rs", "        if $inner[$left].contains(&$right) {", "        if $inner[$left].binary_search(&$right).is_ok() {")]
main = r'''
use mbqc_scheduling::scheduler::space::GraphBuffer;
fn main() {
    let e = [(0, 4), (0, 3), (0, 2), (0, 4), (2, 0), (3, 0)];
    let b = GraphBuffer::new(&e, 5, None, true);
    assert_eq!(b.as_buffer(), &[vec![4, 3, 2], vec![], vec![0], vec![0], vec![0]]);
}
'''

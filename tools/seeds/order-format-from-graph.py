property = "C19"
needs = "a run of the binary with different formats for the graph and the ordering"
breaks = "the binary reads the ordering in the format given for the graph"
edits = [("mbqc_scheduling/src/main.rs", "(dependency_graph, &dependency_graph_format),", "(dependency_graph, &spacial_graph_format),"), ("mbqc_scheduling/src/main.rs", "        dependency_graph_format,\n", "        dependency_graph_format: _,\n")]
deps = 'bincode = "1.3.3"'
run = r'''cargo build --offline -q --manifest-path "$repo/mbqc_scheduling/Cargo.toml" --bin mbqc_scheduling || exit 4
target/debug/demo || exit 4
timeout 60 target/debug/mbqc_scheduling g.json serde_json o.bin bincode out.json serde_json && grep -q steps out.json'''
main = r'''
fn main() {
    std::fs::write("g.json", "[[1],[0]]").unwrap();
    let o: Vec<Vec<(usize, Vec<usize>)>> = vec![vec![(0, vec![]), (1, vec![])]];
    std::fs::write("o.bin", bincode::serialize(&o).unwrap()).unwrap();
}
'''

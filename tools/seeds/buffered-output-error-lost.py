property = "C18"
needs = "an output device that fails on the final write, e.g. a full disk"
breaks = "the output goes through a buffer that is flushed on drop, where a failing write goes unnoticed and the run reports success"
edits = [("mbqc_scheduling/src/interface.rs", """        "serde_json" => serde_json::to_writer(create(path)?, value)?,""", """        "serde_json" => {
            // serde_json writes every token on its own
            serde_json::to_writer(io::BufWriter::new(create(path)?), value)?
        },""")]
main = r'''
use mbqc_scheduling::interface::run_serialized;
fn main() {
    std::fs::write("g.json", "[[1],[0]]").unwrap();
    std::fs::write("o.json", "[[[0,[]],[1,[]]]]").unwrap();
    let run = |out: &str, f: &str| run_serialized(("g.json", "serde_json"), ("o.json", "serde_json"), false, None, 1, None, None, (out, f));
    run("out.json", "serde_json").unwrap();
    assert!(run("/dev/full", "bincode").is_err());
    assert!(run("/dev/full", "serde_json").is_err());
}
'''

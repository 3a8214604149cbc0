property = "C09"
needs = "a search that records a longer pattern and later a shorter one with the same space"
breaks = "a pattern with the same space as a shorter one is returned as well"
edits = [("mbqc_scheduling/src/search.rs", "            if *mem < m {", "            if *mem <= m {")]
main = r'''
use mbqc_scheduling::interface::run;
fn main() {
    let mut x = 777u64;
    let mut next = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
    for _ in 0..400 {
        let n = 6;
        let mut g = vec![vec![]; n];
        for i in 0..n { for j in i + 1..n { if next() % 3 == 0 { g[i].push(j); g[j].push(i); } } }
        let k = 1 + (next() % 5) as usize;
        let mut o = vec![(0..k).map(|i| (i, vec![])).collect::<Vec<_>>()];
        o.push((k..n).map(|i| (i, vec![(next() as usize) % k])).collect());
        let got: Vec<_> = run(&g, &o, true, None, 1, None, None).iter().map(|p| (p.time, p.space)).collect();
        for w in got.windows(2) { assert!(w[0].0 < w[1].0 && w[0].1 > w[1].1, "{got:?}"); }
    }
}
'''

property = "C16"
needs = "a parametrised accept function whose exponents of the remaining and of the measured nodes differ"
breaks = "the exponent of the remaining nodes is applied to the measured nodes"
edits = [("mbqc_scheduling/src/probabilistic.rs", "                        .powi(param.exp_num_measured_nodes_exp)))", "                        .powi(param.exp_num_remaining_nodes_exp)))")]
main = r'''
use mbqc_scheduling::probabilistic::{AcceptFunc, HeavysideParameters};
fn main() {
    let param = HeavysideParameters { cutoff: 0., lin_num_total_nodes_exp: 0, exp_num_total_nodes_exp: 0, exp_num_remaining_nodes_exp: 0, exp_diff_exp: 0, exp_num_measured_nodes_exp: 1 };
    let f = AcceptFunc::ParametrizedHeavyside { param }.get_accept_func();
    let got = f(0., 9., 3., 0., 2., 4., 8.);
    let want = (-1f64 / 4.).exp();
    assert!((got - want).abs() < 1e-9, "{got} {want}");
}
'''

#[path = "../steps.rs"]
mod steps;

use vh::{arg, arg_or, arg_u64};

fn main() {
    vh::quiet_panics();
    let scen = arg("scenarios").map(|s| vh::read_nd(&s)).unwrap_or_default();
    steps::main(&scen, &arg_or("out", "/dev/null"), arg_u64("seed", 1));
}

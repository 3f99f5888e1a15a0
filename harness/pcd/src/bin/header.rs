#[path = "../header.rs"]
mod header;
#[path = "../../../gadgets/src/rec.rs"]
#[allow(dead_code)]
mod rec;
use vh::{arg, arg_or, arg_u64};

fn main() {
    vh::quiet_panics();
    let scen = arg("scenarios").map(|s| vh::read_nd(&s)).unwrap_or_default();
    header::main(&scen, &arg_or("out", "/dev/null"), arg_u64("seed", 1));
}

#[path = "../fold.rs"]
mod fold;
#[path = "../../../gadgets/src/rec.rs"]
#[allow(dead_code)]
mod rec;
#[path = "../sponge.rs"]
mod sponge;
use vh::{arg, arg_or, arg_u64};

fn main() {
    vh::quiet_panics();
    let out = arg_or("out", "/dev/null");
    let (seed, scale) = (arg_u64("seed", 1), arg_u64("scale", 1));
    let scen = arg("scenarios").map(|s| vh::read_nd(&s)).unwrap_or_default();
    match arg_or("mode", "sponge").as_str() {
        "sponge" => sponge::main(&scen, &arg_or("field", "13"), &out, seed, scale as usize),
        "fold" => fold::main(&scen, &arg_or("field", "13"), &out, seed, scale as usize),
        m => panic!("mode {m}"),
    }
}

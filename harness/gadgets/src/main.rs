mod prims;
mod rec;
use vh::{arg, arg_or, arg_u64};

fn main() {
    vh::quiet_panics();
    let out = arg_or("out", "/dev/null");
    let (seed, scale) = (arg_u64("seed", 1), arg_u64("scale", 1));
    match arg_or("mode", "prims").as_str() {
        "prims" => prims::main(arg("scenarios"), &arg_or("field", "13"), &out, seed, scale),
        m => panic!("mode {m}"),
    }
}

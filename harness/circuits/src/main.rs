mod interp;
mod poly;
mod prog;
mod reg;
mod staged;
mod stages;
use vh::{arg, arg_or, arg_u64};

fn main() {
    vh::quiet_panics();
    let out = arg_or("out", "/dev/null");
    let (seed, scale) = (arg_u64("seed", 1), arg_u64("scale", 1));
    match arg_or("mode", "prog").as_str() {
        "prog" => prog::main(arg("scenarios"), &out, seed, scale, arg("deep").is_some()),
        "registry" => reg::main(arg("scenarios"), &out, seed, scale),
        "poly" => poly::main(arg("scenarios"), &out, seed, scale, arg("small").is_some()),
        "staged" => staged::main(arg("scenarios"), &out, seed, scale),
        m => panic!("mode {m}"),
    }
}

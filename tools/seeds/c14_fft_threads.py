ID="c14-fft-many-threads"; PROPERTY="C14"
NEEDS="a transform whose log2 size does not exceed log2 of the worker count (sequential schedule) with size at least 8"
BREAKS="the iterative schedule strides the twiddle table wrongly from the third level on"
DEPS=["ragu_arithmetic"]
EDITS=[("crates/ragu_arithmetic/src/fft.rs",
'''            chunk *= 2;
            twiddle_chunk /= 2;''','''            chunk *= 2;
            twiddle_chunk = (n / (2 * chunk)).max(1);''')]
FEATURES={"ragu_arithmetic":["multicore"]}
DEMO='''use ff::Field;
use ragu_arithmetic::{eval, Domain};
use pasta_curves::Fp;
fn main() {
    // RAYON_NUM_THREADS is read when the global pool starts.
    unsafe { std::env::set_var("RAYON_NUM_THREADS", "16") };
    for k in 0..5 {
        let d = Domain::<Fp>::new(k);
        let v: Vec<Fp> = (0..d.n()).map(|i| Fp::from(3 * i as u64 + 1)).collect();
        let mut e = v.clone();
        d.fft(&mut e);
        for i in 0..d.n() {
            assert_eq!(e[i], eval(&v, d.omega().pow([i as u64])), "k = {k}, i = {i}");
        }
    }
}
'''

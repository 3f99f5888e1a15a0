ID="c14-msm-top-window"; PROPERTY="C14"
NEEDS="a multi-scalar multiplication of one to three terms with a scalar of at least 2^254 (a small negative)"
BREAKS="the number of windows is derived from the field's capacity, so one-bit windows never reach the top bit"
DEPS=["ragu_arithmetic"]
EDITS=[("crates/ragu_arithmetic/src/util.rs",
'''(C::Scalar::NUM_BITS as usize).div_ceil(c);''','''(C::Scalar::CAPACITY as usize).div_ceil(c);''')]
DEMO='''use ff::Field;
use group::{Curve, Group, prime::PrimeCurveAffine};
use pasta_curves::{Ep, EpAffine, Fq};
fn main() {
    for n in 1..6u64 {
        let s: Vec<Fq> = (0..n).map(|i| -Fq::from(i + 1)).collect();
        let bases = vec![EpAffine::generator(); n as usize];
        let r = ragu_arithmetic::mul(&s, &bases);
        let sum: Fq = s.iter().sum();
        assert_eq!(r.to_affine(), (Ep::generator() * sum).to_affine(), "n = {n}");
    }
    let _ = Fq::ONE;
}
'''

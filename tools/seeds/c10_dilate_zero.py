ID="c10-dilate-zero"; PROPERTY="C10"
NEEDS="dilation by zero of a polynomial with a constant term"
BREAKS="p(0 X) becomes the zero polynomial instead of the constant p(0)"
DEPS=["ragu_arithmetic","ragu_circuits"]
EDITS=[("crates/ragu_circuits/src/polynomials/sparse/mod.rs",
'''    pub fn dilate(&mut self, z: F) {
''','''    pub fn dilate(&mut self, z: F) {
        if bool::from(z.is_zero()) {
            self.blocks.clear();
            return;
        }
''')]
DEMO='''use ff::Field;
use pasta_curves::Fp;
use ragu_circuits::polynomials::{sparse::Polynomial, TestRank};
fn main() {
    let mut p = Polynomial::<Fp, TestRank>::from_coeffs(vec![Fp::from(5u64), Fp::from(2u64)]);
    p.dilate(Fp::ZERO);
    assert_eq!(p.eval(Fp::from(3u64)), Fp::from(5u64));
}
'''

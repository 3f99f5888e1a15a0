ID="c14-coeff-neg-mul"; PROPERTY="C14"
NEEDS="the product of two coefficients with one of them tagged NegativeArbitrary of zero or the sum NegativeOne + NegativeArbitrary"
BREAKS="the sum of -1 and -a is computed as 1 - a negated instead of -(1 + a)"
DEPS=["ragu_arithmetic"]
EDITS=[("crates/ragu_arithmetic/src/coeff.rs",
'''                Coeff::NegativeArbitrary(F::ONE + a)
''','''                Coeff::NegativeArbitrary(a - F::ONE)
''')]
DEMO='''use ff::Field;
use ragu_arithmetic::Coeff;
use pasta_curves::Fp;
fn main() {
    let a = Coeff::<Fp>::NegativeOne;
    let b = Coeff::NegativeArbitrary(Fp::from(5));
    assert_eq!((a + b).value(), -Fp::from(6));
    assert_eq!((b + a).value(), -Fp::ONE - Fp::from(5));
}
'''

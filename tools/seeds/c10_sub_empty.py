ID="c10-sub-into-zero"; PROPERTY="C10"
NEEDS="subtracting from a polynomial that stores nothing (zero, or scaled by zero)"
BREAKS="0 - p gives p: the operation is skipped when the left side is empty"
DEPS=["ragu_arithmetic","ragu_circuits"]
EDITS=[("crates/ragu_circuits/src/polynomials/sparse/mod.rs",
'''            let mut out = Vec::new();
            for (s, d) in &other.blocks {
                let mut v = alloc::vec![F::ZERO; d.len()];
                for (o, r) in v.iter_mut().zip(d) {
                    op(o, r);
                }
                extend_runs(&mut out, *s, v);
            }
            self.blocks = out;
            self.assert_invariants();
            return;''','''            self.blocks = other.blocks.clone();
            self.assert_invariants();
            return;''')]
DEMO='''use ff::Field;
use pasta_curves::Fp;
use ragu_circuits::polynomials::{sparse::Polynomial, TestRank};
fn main() {
    let p = Polynomial::<Fp, TestRank>::from_coeffs(vec![Fp::from(1u64), Fp::from(2u64)]);
    let mut q = p.clone();
    q.scale(Fp::ZERO);
    q.sub_assign(&p);
    let x = Fp::from(9u64);
    assert_eq!(q.eval(x), -p.eval(x));
}
'''

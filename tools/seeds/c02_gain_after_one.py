ID="c02-gain-skips-one"; PROPERTY="C02"
NEEDS="a linear combination that adds the ONE wire after a gain other than one"
BREAKS="the evaluations at a fixed x (sx, sxy) drop the accumulated gain on the ONE wire, s(X, y) keeps it"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives","ragu_circuits"]
EDITS=[("crates/ragu_circuits/src/s/common.rs",
'''        self.value += match wire_eval {
            WireEval::Value(v) => *v,
            WireEval::One => self.one,
        } * (coeff * self.gain).value();
        self''',
'''        self.value += match wire_eval {
            WireEval::Value(v) => *v * (coeff * self.gain).value(),
            WireEval::One => self.one * coeff.value(),
        };
        self''')]
DEMO=open("/verif/tools/seeds/_circ.rs").read()+'''
fn body<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, x: Bx<'dr, D>) -> Result<Bx<'dr, D>> {
    let five = Coeff::Arbitrary(Fp::from(5u64));
    dr.enforce_zero(|lc| lc.gain(five).add(x.wire()).sub(&D::ONE))?;
    Ok(x)
}
fn main() {
    assert!(identity(Fp::ONE, Fp::ONE));
    assert!(partials_agree(), "s(x, y), s(x, Y) and s(X, y) disagree");
}
'''

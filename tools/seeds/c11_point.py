ID="c11-point-consistent-x"; PROPERTY="C11"
NEEDS="a point on unconstrained wires (as a stage hands it over) whose y does not belong to its x"
BREAKS="enforce_consistent of a point compares the y coordinate with itself, so points off the curve pass"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives"]
EDITS=[("crates/ragu_primitives/src/point.rs",
'''        Self::alloc(dr, self.value())?.enforce_equal(dr, self)
''',
'''        let on_curve = Self::alloc(dr, self.value())?;
        on_curve.x.enforce_equal(dr, &self.x)?;
        on_curve.y.enforce_equal(dr, &on_curve.y)
''')]
DEMO=open("/verif/tools/seeds/_cheat.rs").read()+'''
use group::prime::PrimeCurveAffine;
use pasta_curves::EpAffine;
use ragu_core::convert::WireMap;
use ragu_core::drivers::emulator::{Emulator, Wireless};
use ragu_core::gadgets::Gadget;
use ragu_primitives::consistent::Consistent;
struct Inject(Vec<Fp>);
impl WireMap<Fp> for Inject {
    type Src = Emulator<Wireless<Always<()>, Fp>>;
    type Dst = Cheat;
    fn convert_wire(&mut self, _: &()) -> Result<Fp> {
        Ok(self.0.remove(0))
    }
}
fn main() {
    use pasta_curves::arithmetic::CurveAffine;
    let p = EpAffine::generator();
    let c = p.coordinates().unwrap();
    for (y, valid) in [(*c.y(), true), (*c.y() + n(1), false)] {
        let ok = cheat(vec![], |dr| {
            let mut em = Emulator::<Wireless<Always<()>, Fp>>::wireless();
            let g = Point::alloc(&mut em, just(p))?;
            let g: Point<'_, Cheat, EpAffine> = g.map(&mut Inject(vec![*c.x(), y]))?;
            // Wires and values disagree, as a cheating prover has it.
            g.enforce_consistent(dr)
        });
        assert_eq!(ok, valid, "y {y:?}");
    }
}
'''

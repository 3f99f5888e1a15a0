ID="c04-odd-stage-padding"; PROPERTY="C04"
NEEDS="a stage with an odd number of values followed by another stage"
BREAKS="the padding wire of an odd stage is not allocated, so the next stage's first value takes its slot"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives","ragu_circuits"]
EDITS=[("crates/ragu_circuits/src/staging/builder.rs",
'''        while (num_wires / 2) < Next::num_gates() {''','''        while num_wires.div_ceil(2) < Next::num_gates() {''')]
DEMO='''use ff::Field;
use pasta_curves::Fp;
use ragu_circuits::polynomials::{Rank, TestRank};
use ragu_circuits::registry::{CircuitIndex, RegistryBuilder};
use ragu_circuits::staging::{MultiStage, MultiStageCircuit, Stage, StageBuilder, StageExt};
use ragu_circuits::{CircuitExt, WithAux};
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::Maybe;
use ragu_core::Result;
use ragu_primitives::Element;
type R = TestRank;
macro_rules! stage { ($S:ident, $P:ty) => {
    #[derive(Default, Clone)] struct $S;
    impl Stage<Fp, R> for $S {
        type Parent = $P;
        fn values() -> usize { 1 }
        type Witness<'s> = Fp;
        type OutputKind = Kind![Fp; Element<'_, _>];
        fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(&self, dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::OutputKind>> where Self: 'dr {
            Element::alloc(dr, w)
        }
    }
}}
stage!(S1, ());
stage!(S2, S1);
#[derive(Clone)] struct C;
impl MultiStageCircuit<Fp, R> for C {
    type Last = S2;
    type Instance<'s> = Fp;
    type Witness<'s> = (Fp, Fp);
    type Output = Kind![Fp; Element<'_, _>];
    type Aux<'s> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(&self, dr: &mut D, v: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> { Element::alloc(dr, v) }
    fn witness<'a, 'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(&self, b: StageBuilder<'a, 'dr, D, R, (), S2>, w: DriverValue<D, (Fp, Fp)>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> where Self: 'dr {
        let (g1, b) = b.add_stage::<S1>()?;
        let (g2, b) = b.add_stage::<S2>()?;
        let dr = b.finish();
        let x = g1.unenforced(dr, w.as_ref().map(|w| w.0))?;
        let y = g2.unenforced(dr, w.as_ref().map(|w| w.1))?;
        Ok(WithAux::new(x.mul(dr, &y)?, D::unit()))
    }
}
fn main() {
    let (u, v) = (Fp::from(3u64), Fp::from(5u64));
    let ms = MultiStage::<Fp, R, _>::new(C);
    let reg = RegistryBuilder::<Fp, R>::new().register_circuit(ms.clone()).unwrap().finalize().unwrap();
    let i = CircuitIndex::new(0);
    let t = ms.trace((u, v)).unwrap().into_output();
    let mut rng = rand::rng();
    let (y, z) = (Fp::random(&mut rng), Fp::random(&mut rng));
    let mut r = reg.assemble(&t, i, &mut rng).unwrap();
    r.add_assign(&S1::rx(Fp::ONE, u).unwrap());
    r.add_assign(&S2::rx(Fp::ONE, v).unwrap());
    let mut rhs = r.clone();
    rhs.dilate(z);
    rhs.add_assign(&reg.circuit_y(i, y));
    rhs.add_assign(&R::tz(z));
    assert_eq!(r.revdot(&rhs), ms.ky(u * v, y).unwrap(), "stages and final polynomial do not make up the witness");
}
'''

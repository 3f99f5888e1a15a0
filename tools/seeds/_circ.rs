use ff::Field;
use ragu_arithmetic::Coeff;
use ragu_circuits::polynomials::{Rank, TestRank};
use ragu_circuits::registry::{CircuitIndex, RegistryBuilder};
use ragu_circuits::{Circuit, CircuitExt, WithAux};
use ragu_core::drivers::{Driver, DriverValue, LinearExpression};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::Maybe;
use ragu_core::routines::{Prediction, Routine};
use ragu_core::Result;
use ragu_primitives::Element;
use pasta_curves::Fp;
type R = TestRank;
type Bx<'dr, D> = Bound<'dr, D, Kind![Fp; Element<'_, _>]>;

struct Toy;
impl Circuit<Fp> for Toy {
    type Instance<'i> = Fp;
    type Witness<'w> = Fp;
    type Output = Kind![Fp; Element<'_, _>];
    type Aux<'w> = ();
    fn instance<'dr, 'i: 'dr, D: Driver<'dr, F = Fp>>(&self, dr: &mut D, v: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, v)
    }
    fn witness<'dr, 'w: 'dr, D: Driver<'dr, F = Fp>>(&self, dr: &mut D, v: DriverValue<D, Fp>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> {
        let e = Element::alloc(dr, v)?;
        Ok(WithAux::new(body(dr, e)?, D::unit()))
    }
}
/// The revdot identity at random challenges, for one witness and its output.
fn identity(w: Fp, out: Fp) -> bool {
    let reg = RegistryBuilder::<Fp, R>::new().register_circuit(Toy).unwrap().finalize().unwrap();
    let i = CircuitIndex::new(0);
    let mut rng = rand::rng();
    let (y, z) = (Fp::random(&mut rng), Fp::random(&mut rng));
    let t = Toy.trace(w).unwrap().into_output();
    let r = reg.assemble(&t, i, &mut rng).unwrap();
    let mut rhs = r.clone();
    rhs.dilate(z);
    rhs.add_assign(&reg.circuit_y(i, y));
    rhs.add_assign(&R::tz(z));
    // The registry key's term meets the coefficient c[0] = 0 of r.
    r.revdot(&rhs) == Toy.ky(out, y).unwrap()
}
#[allow(dead_code)]
fn partials_agree() -> bool {
    let reg = RegistryBuilder::<Fp, R>::new().register_circuit(Toy).unwrap().finalize().unwrap();
    let mut rng = rand::rng();
    let (w, x, y) = (Fp::ONE, Fp::random(&mut rng), Fp::random(&mut rng));
    let a = reg.wxy(w, x, y);
    a == reg.wx(w, x).eval(y) && a == reg.wy(w, y).eval(x)
}

use ff::Field;
use pasta_curves::Fp;
use ragu_arithmetic::Coeff;
use ragu_core::Result;
use ragu_core::drivers::{DirectSum, Driver, DriverTypes};
use ragu_core::maybe::{Always, Maybe, MaybeKind};
use ragu_primitives::*;

/// A prover that replaces the values of chosen gates (and allocations), and reports whether all constraints hold.
struct Cheat {
    gate: usize,
    with: Vec<(usize, [Fp; 3])>,
    ok: bool,
}
impl DriverTypes for Cheat {
    type ImplField = Fp;
    type ImplWire = Fp;
    type MaybeKind = Always<()>;
    type LCadd = DirectSum<Fp>;
    type LCenforce = DirectSum<Fp>;
    fn gate(&mut self, v: impl Fn() -> Result<(Coeff<Fp>, Coeff<Fp>, Coeff<Fp>, Coeff<Fp>)>) -> Result<(Fp, Fp, Fp, Fp)> {
        let (a, b, c, d) = v()?;
        let mut t = [a.value(), b.value(), c.value()];
        for (g, w) in &self.with {
            if *g == self.gate {
                t = *w;
            }
        }
        self.gate += 1;
        self.ok &= t[0] * t[1] == t[2] && t[2] * d.value() == Fp::ZERO;
        Ok((t[0], t[1], t[2], d.value()))
    }
}
impl<'dr> Driver<'dr> for Cheat {
    type F = Fp;
    type Wire = Fp;
    const ONE: Fp = Fp::ONE;
    fn alloc(&mut self, v: impl Fn() -> Result<Coeff<Fp>>) -> Result<Fp> {
        Ok(v()?.value())
    }
    fn add(&mut self, lc: impl Fn(DirectSum<Fp>) -> DirectSum<Fp>) -> Fp {
        lc(DirectSum::default()).value()
    }
    fn enforce_zero(&mut self, lc: impl Fn(DirectSum<Fp>) -> DirectSum<Fp>) -> Result<()> {
        self.ok &= lc(DirectSum::default()).value() == Fp::ZERO;
        Ok(())
    }
}
#[allow(dead_code)]
fn cheat(with: Vec<(usize, [Fp; 3])>, f: impl FnOnce(&mut Cheat) -> Result<()>) -> bool {
    let mut c = Cheat { gate: 0, with, ok: true };
    f(&mut c).is_ok() && c.ok
}
#[allow(dead_code)]
fn just<T: Send>(t: T) -> Always<T> {
    <Always<()> as MaybeKind>::maybe_just(|| t)
}
#[allow(dead_code)]
fn n(v: u64) -> Fp {
    Fp::from(v)
}

//! Stages whose sizes are data: `Lv<1>`, `Lv<2>`, ... is a chain, each reading its declared size and
//! the number of wires its witness really uses from SHAPE.
use crate::interp::*;
use ff::PrimeField;
use ragu_arithmetic::Coeff;
use ragu_circuits::WithAux;
use ragu_circuits::polynomials::Rank;
use ragu_circuits::staging::{MultiStageCircuit, Stage, StageBuilder};
use ragu_core::{
    Result,
    drivers::{Driver, DriverValue, LinearExpression},
    gadgets::Bound,
    maybe::Maybe,
};
use ragu_primitives::{Element, consistent::Consistent};
use std::sync::{Mutex, RwLock};

/// The longest chain.
pub const LEVELS: usize = 8;
/// Declared values and real wires of each level.
pub static SHAPE: RwLock<[(usize, usize); LEVELS]> = RwLock::new([(0, 0); LEVELS]);
/// Scenarios own the shape while they run.
pub static OWNER: Mutex<()> = Mutex::new(());
pub fn set_shape(s: &[(usize, usize)]) {
    let mut w = SHAPE.write().unwrap();
    *w = [(0, 0); LEVELS];
    w[..s.len()].copy_from_slice(s);
}

#[derive(Default)]
pub struct Lv<const I: usize>;
macro_rules! level {
    ($i:literal, $parent:ty) => {
        impl<F: PrimeField, R: Rank> Stage<F, R> for Lv<$i> {
            type Parent = $parent;
            type Witness<'source> = Vec<F>;
            type OutputKind = OutsKind;
            fn values() -> usize {
                SHAPE.read().unwrap()[$i - 1].0
            }
            fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = F>>(
                &self,
                dr: &mut D,
                witness: DriverValue<D, Vec<F>>,
            ) -> Result<Bound<'dr, D, OutsKind>>
            where
                Self: 'dr,
            {
                let n = SHAPE.read().unwrap()[$i - 1].1;
                let mut v = vec![];
                for i in 0..n {
                    v.push(Element::alloc(dr, witness.as_ref().map(|x| x[i]))?);
                }
                Ok(Outs(v))
            }
        }
    };
}
level!(1, ());
level!(2, Lv<1>);
level!(3, Lv<2>);
level!(4, Lv<3>);
level!(5, Lv<4>);
level!(6, Lv<5>);
level!(7, Lv<6>);
level!(8, Lv<7>);

impl<'dr, D: Driver<'dr, F: PrimeField>> Consistent<'dr, D> for Outs<'dr, D> {
    /// sum of (i + 1) * wire i = 0.
    fn enforce_consistent(&self, dr: &mut D) -> Result<()> {
        dr.enforce_zero(|mut l| {
            for (i, e) in self.0.iter().enumerate() {
                l = l.add_term(e.wire(), Coeff::Arbitrary(num(i as i64 + 1)));
            }
            l
        })
    }
}

/// How the circuit uses a stage.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Skip,
    Unenforced,
    Enforced,
}
impl Mode {
    pub fn s(self) -> &'static str {
        match self {
            Mode::Skip => "skip",
            Mode::Unenforced => "unenforced",
            Mode::Enforced => "enforced",
        }
    }
    pub fn parse(s: &str) -> Self {
        match s {
            "skip" => Mode::Skip,
            "unenforced" => Mode::Unenforced,
            _ => Mode::Enforced,
        }
    }
}

/// A circuit over the first M levels: the wires of the stages it does not skip follow ONE in its registers.
#[derive(Clone)]
pub struct Staged<const M: usize> {
    pub modes: [Mode; LEVELS],
    pub prog: Prog,
}
type W<F> = Vec<Vec<F>>;
macro_rules! guard {
    ($self:ident, $b:ident, $i:literal, $regs:ident, $gs:ident) => {
        #[allow(non_snake_case)]
        let ($gs, $b) = if $self.modes[$i - 1] == Mode::Skip {
            (None, $b.skip_stage::<Lv<$i>>()?)
        } else {
            let (g, b) = $b.add_stage::<Lv<$i>>()?;
            (Some(g), b)
        };
    };
}
macro_rules! staged {
    ($m:literal, $last:ty, [$($i:literal $g:ident),*]) => {
        impl<F: PrimeField, R: Rank> MultiStageCircuit<F, R> for Staged<$m> {
            type Last = $last;
            type Instance<'source> = Vec<F>;
            type Witness<'source> = W<F>;
            type Output = OutsKind;
            type Aux<'source> = ();
            fn instance<'dr, 'source: 'dr, D: Driver<'dr, F = F>>(
                &self,
                dr: &mut D,
                instance: DriverValue<D, Vec<F>>,
            ) -> Result<Bound<'dr, D, OutsKind>>
            where
                Self: 'dr,
            {
                let mut v = vec![];
                for i in 0..self.prog.outs.len() {
                    v.push(Element::alloc(dr, instance.as_ref().map(|x| x[i]))?);
                }
                Ok(Outs(v))
            }
            #[allow(unused)]
            fn witness<'a, 'dr, 'source: 'dr, D: Driver<'dr, F = F>>(
                &self,
                b: StageBuilder<'a, 'dr, D, R, (), Self::Last>,
                witness: DriverValue<D, W<F>>,
            ) -> Result<WithAux<Bound<'dr, D, OutsKind>, DriverValue<D, ()>>>
            where
                Self: 'dr,
            {
                $(guard!(self, b, $i, regs, $g);)*
                let dr = b.finish();
                let mut regs = vec![one()];
                $(
                    if let Some(g) = $g {
                        let w: DriverValue<D, Vec<F>> = witness.as_ref().map(|x| x[$i - 1].clone());
                        let o = if self.modes[$i - 1] == Mode::Enforced { g.enforced(dr, w)? } else { g.unenforced(dr, w)? };
                        regs.extend(o.0);
                    }
                )*
                run(dr, &self.prog.body, &mut regs)?;
                Ok(WithAux::new(Outs(self.prog.outs.iter().map(|r| regs[*r].clone()).collect()), D::unit()))
            }
        }
    };
}
staged!(0, (), []);
staged!(1, Lv<1>, [1 g1]);
staged!(2, Lv<2>, [1 g1, 2 g2]);
staged!(3, Lv<3>, [1 g1, 2 g2, 3 g3]);
staged!(4, Lv<4>, [1 g1, 2 g2, 3 g3, 4 g4]);
staged!(5, Lv<5>, [1 g1, 2 g2, 3 g3, 4 g4, 5 g5]);
staged!(6, Lv<6>, [1 g1, 2 g2, 3 g3, 4 g4, 5 g5, 6 g6]);
staged!(7, Lv<7>, [1 g1, 2 g2, 3 g3, 4 g4, 5 g5, 6 g6, 7 g7]);
staged!(8, Lv<8>, [1 g1, 2 g2, 3 g3, 4 g4, 5 g5, 6 g6, 7 g7, 8 g8]);

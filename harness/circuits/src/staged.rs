//! C04: stages, masks, multi-stage circuits and bonding circuits.
use crate::interp::*;
use crate::prog::{dense, fl, pick, res};
use crate::stages::*;
use ff::{Field, PrimeField};
use ragu_circuits::polynomials::{Rank, TestRank};
use ragu_circuits::registry::{CircuitIndex, Registry, RegistryBuilder};
use ragu_circuits::staging::{MultiStage, MultiStageCircuit, Stage, StageExt};
use ragu_circuits::{BondingObject, CircuitExt};
use ragu_core::Result;
use vh::tiny::F12289;
use vh::{J, Rng, Trace, catch, jo};
type F = F12289;
type R = TestRank;

#[derive(Clone)]
pub struct Case {
    /// Declared values, real wires, how the circuit uses it, the values.
    stages: Vec<(usize, usize, Mode, Vec<F>)>,
    prog: Prog,
}
impl Case {
    fn j(&self) -> J {
        jo! {"stages" => J::A(self.stages.iter().map(|(v, w, m, x)| jo!{"values" => *v as i64, "wires" => *w as i64, "mode" => m.s(), "vals" => fl(x)}).collect()),
        "prog" => self.prog.j()}
    }
    fn shape(&self) -> Vec<(usize, usize)> {
        self.stages.iter().map(|s| (s.0, s.1)).collect()
    }
}
fn poly4(reg: &Registry<'static, F, R>, i: usize, x: F, y: F) -> J {
    let i = CircuitIndex::new(i);
    let w = i.omega_j();
    let (g, c) = reg.constraint_counts(i);
    jo! {"counts" => J::A(vec![J::N(g as i64), J::N(c as i64)]), "sx" => dense(&reg.wx(w, x)), "sy" => dense(&reg.wy(w, y)),
    "sxy" => fl(&[reg.wxy(w, x, y), reg.wxy(w, F::ZERO, y), reg.wxy(w, x, F::ZERO)]),
    "zeros" => fl(&[reg.wx(w, F::ZERO).eval(y), reg.wy(w, F::ZERO).eval(x)]), "key" => reg.digest()}
}
fn object(o: Result<BondingObject<'static, F, R>>, x: F, y: F) -> Result<J> {
    let reg = RegistryBuilder::<F, R>::new().register_bonding(o?).finalize()?;
    Ok(poly4(&reg, 0, x, y))
}
fn level(i: usize, alpha: F, vals: Vec<F>, x: F, y: F) -> J {
    fn one<S: Stage<F, R> + StageExt<F, R> + Default>(alpha: F, vals: Vec<F>, x: F, y: F) -> J
    where
        S: for<'a> Stage<F, R, Witness<'a> = Vec<F>>,
    {
        jo! {"skip" => S::skip_gates() as i64, "num" => S::num_gates() as i64,
        "rx" => res(catch(|| Ok(dense(&S::rx(alpha, vals)?)))),
        "mask" => res(catch(|| object(S::mask(), x, y))),
        "last" => res(catch(|| object(S::final_mask(), x, y))),
        "gens" => J::A((0..S::num_gates()).map(|i| J::N(S::generator_index_for_b(i) as i64)).collect())}
    }
    match i {
        1 => one::<Lv<1>>(alpha, vals, x, y),
        2 => one::<Lv<2>>(alpha, vals, x, y),
        3 => one::<Lv<3>>(alpha, vals, x, y),
        4 => one::<Lv<4>>(alpha, vals, x, y),
        5 => one::<Lv<5>>(alpha, vals, x, y),
        6 => one::<Lv<6>>(alpha, vals, x, y),
        7 => one::<Lv<7>>(alpha, vals, x, y),
        _ => one::<Lv<8>>(alpha, vals, x, y),
    }
}
fn whole<const M: usize>(s: Staged<M>, c: &Case, alphas: &[F], claims: &[F], x: F, y: F, z: F) -> Result<J>
where
    Staged<M>: for<'a> MultiStageCircuit<F, R, Witness<'a> = Vec<Vec<F>>, Instance<'a> = Vec<F>> + Clone + 'static,
{
    let ms = MultiStage::<F, R, _>::new(s);
    let reg = RegistryBuilder::<F, R>::new().register_circuit(ms.clone())?.finalize()?;
    let i = CircuitIndex::new(0);
    let vals: Vec<Vec<F>> = c.stages.iter().map(|s| s.3.clone()).collect();
    let tr = ms.trace(vals.clone())?.into_output();
    let fin = reg.assemble_with_alpha(&tr, i, alphas[0])?;
    let mut sum = fin.clone();
    for (k, _) in c.stages.iter().enumerate() {
        let (a, v) = (alphas[k + 1], vals[k].clone());
        sum.add_assign(&match k {
            0 => <Lv<1> as StageExt<F, R>>::rx(a, v)?,
            1 => <Lv<2> as StageExt<F, R>>::rx(a, v)?,
            2 => <Lv<3> as StageExt<F, R>>::rx(a, v)?,
            3 => <Lv<4> as StageExt<F, R>>::rx(a, v)?,
            4 => <Lv<5> as StageExt<F, R>>::rx(a, v)?,
            5 => <Lv<6> as StageExt<F, R>>::rx(a, v)?,
            6 => <Lv<7> as StageExt<F, R>>::rx(a, v)?,
            _ => <Lv<8> as StageExt<F, R>>::rx(a, v)?,
        });
    }
    let mut rhs = sum.clone();
    rhs.dilate(z);
    rhs.add_assign(&reg.circuit_y(i, y));
    rhs.add_assign(&R::tz(z));
    let last = object(ms.final_mask(), x, y)?;
    Ok(jo! {"s" => poly4(&reg, 0, x, y), "final" => dense(&fin), "sum" => dense(&sum), "id" => sum.revdot(&rhs),
    "ky" => ms.ky(claims.to_vec(), y)?, "last" => last})
}
fn bond<const M: usize>(s: Staged<M>, x: F, y: F) -> Result<J>
where
    Staged<M>: for<'a> MultiStageCircuit<F, R, Witness<'a> = Vec<Vec<F>>, Instance<'a> = Vec<F>> + 'static,
{
    object(MultiStage::<F, R, _>::new(s).into_bonding_object(), x, y)
}
fn event(c: &Case, r: &mut Rng) -> J {
    let mut x = pick(r);
    let mut y = pick(r);
    let z = pick(r);
    match r.below(10) {
        0 if x != F::ZERO => y = x.invert().unwrap(),
        1 if x != F::ZERO => y = -x.invert().unwrap(),
        2 => {
            x = F::ROOT_OF_UNITY.pow([r.below(4096) as u64]);
            y = F::ROOT_OF_UNITY.pow([32 * r.below(128) as u64]);
        }
        _ => {}
    }
    set_shape(&c.shape());
    let modes: Vec<Mode> = (0..LEVELS).map(|i| c.stages.get(i).map(|s| s.2).unwrap_or(Mode::Skip)).collect();
    let modes: [Mode; LEVELS] = modes.try_into().unwrap();
    let alphas: Vec<F> = (0..=LEVELS).map(|_| pick(r)).collect();
    let claims: Vec<F> = c.prog.outs.iter().map(|_| pick(r)).collect();
    let levels = J::A(c.stages.iter().enumerate().map(|(k, s)| level(k + 1, alphas[k + 1], s.3.clone(), x, y)).collect());
    let p = || c.prog.clone();
    macro_rules! of {
        ($($m:literal),*) => {
            match c.stages.len() {
                $($m => (
                    catch(|| whole(Staged::<$m> { modes, prog: p() }, c, &alphas, &claims, x, y, z)),
                    catch(|| bond(Staged::<$m> { modes, prog: p() }, x, y)),
                ),)*
                _ => unreachable!(),
            }
        };
    }
    let (w, b) = of!(0, 1, 2, 3, 4, 5, 6, 7, 8);
    let mut m = match c.j() {
        J::O(m) => m,
        _ => unreachable!(),
    };
    for (k, v) in [("x", x), ("y", y), ("z", z)] {
        m.insert(k.into(), v.into());
    }
    m.insert("kind".into(), "staged".into());
    m.insert("alphas".into(), fl(&alphas));
    m.insert("claims".into(), fl(&claims));
    m.insert("levels".into(), levels);
    m.insert("whole".into(), res(w));
    m.insert("bond".into(), res(b));
    J::O(m)
}
/// Programs a bonding circuit may be made of, and now and then a step outside.
fn bond_prog(r: &mut Rng, n: usize) -> Prog {
    let mut regs = n;
    let mut ops = vec![];
    let bad = r.below(3) == 0;
    let len = r.below(6);
    for k in 0..len {
        // Registers from 1: register 0 is ONE.
        let lo = if bad && r.below(6) == 0 { 0 } else { 1 };
        let terms = |r: &mut Rng, regs: usize| -> Vec<Term> {
            if regs <= lo {
                return vec![];
            }
            (0..r.below(4))
                .map(|_| {
                    let i = lo + r.below(regs - lo);
                    match r.below(5) {
                        0 => Term::A(i),
                        1 => Term::S(i),
                        2 => Term::G(rand_co(r)),
                        3 => Term::X(vec![(i, rand_co(r))]),
                        _ => Term::T(i, rand_co(r)),
                    }
                })
                .collect()
        };
        ops.push(match r.below(12) {
            0..=3 => {
                let t = terms(r, regs);
                regs += 1;
                Op::Add(t)
            }
            4 => {
                regs += 1;
                Op::Alloc(V::K(3))
            }
            5 if regs > 1 => {
                let body = vec![Op::Zero(vec![Term::A(1)]), Op::Add(vec![Term::A(1), Term::T(2, rand_co(r))]), Op::Alloc(V::K(2))];
                let i = 1 + r.below(regs - 1);
                regs += 3;
                Op::Call { pred: r.below(2) == 0, ins: [i, i, i], body: body.into(), outs: [1, 4, 5] }
            }
            6 if bad && k == len - 1 => {
                regs += 1;
                Op::Const(Co("Two", 0))
            }
            7 if bad && k == len - 1 => {
                regs += 3;
                Op::Mul([V::K(1), V::K(1), V::K(1)])
            }
            8 if bad && k == len - 1 => {
                regs += 4;
                Op::Gate([V::K(1), V::K(1), V::K(1), V::K(0)])
            }
            _ => Op::Zero(terms(r, regs)),
        });
    }
    let lo = if bad && r.below(3) == 0 { 0 } else { 1 };
    let outs = if regs > lo && r.below(3) == 0 { (0..1 + r.below(2)).map(|_| lo + r.below(regs - lo)).collect() } else { vec![] };
    Prog { body: ops.into(), outs }
}
fn vals(r: &mut Rng, n: usize) -> Vec<F> {
    (0..n).map(|_| F::new(r.below(12289) as u64)).collect()
}
pub fn main(scen: Option<String>, out: &str, seed: u64, scale: u64) {
    let _own = OWNER.lock().unwrap();
    let mut t = Trace::create(out);
    let mut r = Rng::new(seed);
    let mut go = |shape: Vec<(usize, usize, Mode)>, k: usize, r: &mut Rng| {
        let stages: Vec<_> = shape.into_iter().map(|(v, w, m)| (v, w, m, vals(r, w))).collect();
        let regs = 1 + stages.iter().filter(|s| s.2 != Mode::Skip).map(|s| s.1).sum::<usize>();
        let prog = if k % 2 == 0 { bond_prog(r, regs) } else { rand_prog_from(r, &GenCfg { ops: 6, depth: k % 3, perturb: 0 }, regs) };
        t.emit(event(&Case { stages, prog }, r));
    };
    if let Some(s) = scen {
        for (k, j) in vh::read_nd(&s).into_iter().enumerate() {
            let shape = j
                .get("stages")
                .a()
                .iter()
                .map(|s| (s.get("values").n() as usize, s.get("wires").n() as usize, Mode::parse(s.get("mode").s())))
                .collect();
            go(shape, k, &mut r);
        }
    }
    for k in 0..20 * scale as usize {
        let n = r.below(5);
        let big = r.below(8) == 0;
        let shape = (0..n)
            .map(|_| {
                let v = if big { r.below(26) } else { r.below(8) };
                let w = if r.below(4) == 0 { r.below(v + 2) } else { v };
                (v, w, [Mode::Skip, Mode::Unenforced, Mode::Enforced][r.below(3)])
            })
            .collect();
        go(shape, k, &mut r);
    }
    // Long chains of small stages.
    for k in 0..scale as usize {
        let n = 5 + r.below(LEVELS - 4);
        let shape = (0..n)
            .map(|_| {
                let v = r.below(5);
                let w = if r.below(4) == 0 { r.below(v + 1) } else { v };
                (v, w, [Mode::Skip, Mode::Unenforced, Mode::Enforced][r.below(3)])
            })
            .collect();
        go(shape, k, &mut r);
    }
}

//! A circuit that interprets a program, so that arbitrary circuits (as data) run on the real
//! drivers: gates, allocations, virtual wires, linear constraints, constants, nested routines with
//! and without predicted outputs, and public outputs.
use ff::PrimeField;
use ragu_arithmetic::Coeff;
use ragu_circuits::{Circuit, WithAux};
use ragu_core::{
    Result,
    convert::WireMap,
    drivers::{Driver, DriverTypes, DriverValue, LinearExpression},
    gadgets::{Bound, Gadget, GadgetKind},
    maybe::Maybe,
    routines::{Prediction, Routine},
};
use ragu_primitives::{Element, io::{Buffer, Write}};
use std::marker::PhantomData;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use vh::{J, Rng, jo};

/// How many witness closures ran since the last reset.
pub static CLOSURES: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Debug)]
pub struct Co(pub &'static str, pub i64);
impl Co {
    pub fn coeff<F: PrimeField>(&self) -> Coeff<F> {
        match self.0 {
            "Zero" => Coeff::Zero,
            "One" => Coeff::One,
            "Two" => Coeff::Two,
            "NegativeOne" => Coeff::NegativeOne,
            "Arbitrary" => Coeff::Arbitrary(num(self.1)),
            "NegativeArbitrary" => Coeff::NegativeArbitrary(num(self.1)),
            t => panic!("coefficient tag {t}"),
        }
    }
}
pub fn num<F: PrimeField>(v: i64) -> F {
    if v < 0 { -F::from((-v) as u64) } else { F::from(v as u64) }
}

/// A witness value: a constant, a register plus a constant, or a product of registers plus one.
#[derive(Clone, Debug)]
pub enum V {
    K(i64),
    R(usize, i64),
    P(usize, usize, i64),
}
#[derive(Clone, Debug)]
pub enum Term {
    T(usize, Co),
    A(usize),
    S(usize),
    G(Co),
    X(Vec<(usize, Co)>),
}
#[derive(Clone, Debug)]
pub enum Op {
    Gate([V; 4]),
    Mul([V; 3]),
    Alloc(V),
    Add(Vec<Term>),
    Const(Co),
    Zero(Vec<Term>),
    Call { pred: bool, ins: [usize; 3], body: Arc<Vec<Op>>, outs: [usize; 3] },
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub body: Arc<Vec<Op>>,
    pub outs: Vec<usize>,
}

// ---------------------------------------------------------------- JSON
fn tag(s: &str) -> &'static str {
    for t in ["Zero", "One", "Two", "NegativeOne", "Arbitrary", "NegativeArbitrary"] {
        if t == s {
            return t;
        }
    }
    panic!("tag {s}")
}
impl From<&Co> for J {
    fn from(c: &Co) -> J {
        jo! {"t" => c.0, "v" => c.1}
    }
}
fn co(j: &J) -> Co {
    Co(tag(j.get("t").s()), j.get("v").n())
}
fn v_j(v: &V) -> J {
    match v {
        V::K(k) => jo! {"x" => "k", "k" => *k},
        V::R(r, k) => jo! {"x" => "r", "r" => *r as i64, "k" => *k},
        V::P(r, s, k) => jo! {"x" => "p", "r" => *r as i64, "s" => *s as i64, "k" => *k},
    }
}
fn j_v(j: &J) -> V {
    let k = j.get("k").n();
    match j.get("x").s() {
        "k" => V::K(k),
        "r" => V::R(j.get("r").n() as usize, k),
        _ => V::P(j.get("r").n() as usize, j.get("s").n() as usize, k),
    }
}
fn term_j(t: &Term) -> J {
    match t {
        Term::T(r, c) => jo! {"o" => "t", "r" => *r as i64, "c" => J::from(c)},
        Term::A(r) => jo! {"o" => "a", "r" => *r as i64},
        Term::S(r) => jo! {"o" => "s", "r" => *r as i64},
        Term::G(c) => jo! {"o" => "g", "c" => J::from(c)},
        Term::X(l) => jo! {"o" => "x", "l" => J::A(l.iter().map(|(r, c)| jo!{"r" => *r as i64, "c" => J::from(c)}).collect())},
    }
}
fn j_term(j: &J) -> Term {
    let r = || j.get("r").n() as usize;
    match j.get("o").s() {
        "t" => Term::T(r(), co(j.get("c"))),
        "a" => Term::A(r()),
        "s" => Term::S(r()),
        "g" => Term::G(co(j.get("c"))),
        _ => Term::X(j.get("l").a().iter().map(|x| (x.get("r").n() as usize, co(x.get("c")))).collect()),
    }
}
fn arr3(j: &J) -> [usize; 3] {
    let a = j.a();
    [a[0].n() as usize, a[1].n() as usize, a[2].n() as usize]
}
fn usz(a: &[usize]) -> J {
    J::A(a.iter().map(|x| J::N(*x as i64)).collect())
}
pub fn ops_j(ops: &[Op]) -> J {
    J::A(ops
        .iter()
        .map(|o| match o {
            Op::Gate(v) => jo! {"o" => "gate", "v" => J::A(v.iter().map(v_j).collect())},
            Op::Mul(v) => jo! {"o" => "mul", "v" => J::A(v.iter().map(v_j).collect())},
            Op::Alloc(v) => jo! {"o" => "alloc", "v" => J::A(vec![v_j(v)])},
            Op::Add(t) => jo! {"o" => "add", "t" => J::A(t.iter().map(term_j).collect())},
            Op::Const(c) => jo! {"o" => "const", "c" => J::from(c)},
            Op::Zero(t) => jo! {"o" => "zero", "t" => J::A(t.iter().map(term_j).collect())},
            Op::Call { pred, ins, body, outs } => {
                jo! {"o" => "call", "pred" => *pred, "ins" => usz(ins), "body" => ops_j(body), "outs" => usz(outs)}
            }
        })
        .collect())
}
pub fn j_ops(j: &J) -> Vec<Op> {
    j.a()
        .iter()
        .map(|o| {
            let vs: Vec<V> = if o.has("v") { o.get("v").a().iter().map(j_v).collect() } else { vec![] };
            let ts: Vec<Term> = if o.has("t") { o.get("t").a().iter().map(j_term).collect() } else { vec![] };
            match o.get("o").s() {
                "gate" => Op::Gate([vs[0].clone(), vs[1].clone(), vs[2].clone(), vs[3].clone()]),
                "mul" => Op::Mul([vs[0].clone(), vs[1].clone(), vs[2].clone()]),
                "alloc" => Op::Alloc(vs[0].clone()),
                "add" => Op::Add(ts),
                "const" => Op::Const(co(o.get("c"))),
                "zero" => Op::Zero(ts),
                _ => Op::Call {
                    pred: o.get("pred").n() != 0,
                    ins: arr3(o.get("ins")),
                    body: Arc::new(j_ops(o.get("body"))),
                    outs: arr3(o.get("outs")),
                },
            }
        })
        .collect()
}
impl Prog {
    pub fn j(&self) -> J {
        jo! {"body" => ops_j(&self.body), "outs" => usz(&self.outs)}
    }
    pub fn parse(j: &J) -> Prog {
        Prog {
            body: Arc::new(j_ops(j.get("body"))),
            outs: j.get("outs").a().iter().map(|x| x.n() as usize).collect(),
        }
    }
}

// ---------------------------------------------------------------- values without a driver
fn val<F: PrimeField>(v: &V, regs: &[F]) -> F {
    match v {
        V::K(k) => num(*k),
        V::R(r, k) => regs[*r] + num::<F>(*k),
        V::P(r, s, k) => regs[*r] * regs[*s] + num::<F>(*k),
    }
}
fn lin<F: PrimeField>(ts: &[Term], regs: &[F]) -> F {
    let (mut g, mut acc) = (F::ONE, F::ZERO);
    for t in ts {
        match t {
            Term::T(r, c) => acc += regs[*r] * c.coeff::<F>().value() * g,
            Term::A(r) => acc += regs[*r] * g,
            Term::S(r) => acc -= regs[*r] * g,
            Term::G(c) => g *= c.coeff::<F>().value(),
            Term::X(l) => {
                for (r, c) in l {
                    acc += regs[*r] * c.coeff::<F>().value() * g
                }
            }
        }
    }
    acc
}
fn pure<F: PrimeField>(ops: &[Op], regs: &mut Vec<F>) {
    for op in ops {
        match op {
            Op::Gate(v) => {
                let n: Vec<F> = v.iter().map(|x| val(x, regs)).collect();
                regs.extend(n)
            }
            Op::Mul(v) => {
                let n: Vec<F> = v.iter().map(|x| val(x, regs)).collect();
                regs.extend(n)
            }
            Op::Alloc(v) => {
                let n = val(v, regs);
                regs.push(n)
            }
            Op::Add(t) => {
                let n = lin(t, regs);
                regs.push(n)
            }
            Op::Const(c) => regs.push(c.coeff::<F>().value()),
            Op::Zero(_) => {}
            Op::Call { ins, body, outs, .. } => {
                let o = pure_call(body, outs, [regs[ins[0]], regs[ins[1]], regs[ins[2]]]);
                regs.extend(o)
            }
        }
    }
}
fn pure_call<F: PrimeField>(body: &[Op], outs: &[usize; 3], ins: [F; 3]) -> [F; 3] {
    let mut sub = vec![F::ONE, ins[0], ins[1], ins[2]];
    pure(body, &mut sub);
    [sub[outs[0]], sub[outs[1]], sub[outs[2]]]
}

// ---------------------------------------------------------------- gadgets of the harness
pub struct Trio<'dr, D: Driver<'dr>>(pub [Element<'dr, D>; 3]);
impl<'dr, D: Driver<'dr>> Clone for Trio<'dr, D> {
    fn clone(&self) -> Self {
        Trio(self.0.clone())
    }
}
pub struct TrioKind;
fn map_el<'src, 'dst, F: PrimeField, WM: WireMap<F, Src: Driver<'src, F = F>, Dst: Driver<'dst, F = F>>>(
    e: &Element<'src, WM::Src>,
    wm: &mut WM,
) -> Result<Element<'dst, WM::Dst>> {
    e.map(wm)
}
unsafe impl<F: PrimeField> GadgetKind<F> for TrioKind {
    type Rebind<'dr, D: Driver<'dr, F = F>> = Trio<'dr, D>;
    fn map_gadget<'src, 'dst, WM: WireMap<F, Src: Driver<'src, F = F>, Dst: Driver<'dst, F = F>>>(
        this: &Bound<'src, WM::Src, Self>,
        wm: &mut WM,
    ) -> Result<Bound<'dst, WM::Dst, Self>> {
        Ok(Trio([map_el(&this.0[0], wm)?, map_el(&this.0[1], wm)?, map_el(&this.0[2], wm)?]))
    }
    fn enforce_equal_gadget<'dr, D1: Driver<'dr, F = F>, D2: Driver<'dr, F = F, Wire = <D1 as Driver<'dr>>::Wire>>(
        dr: &mut D1,
        a: &Bound<'dr, D2, Self>,
        b: &Bound<'dr, D2, Self>,
    ) -> Result<()> {
        for i in 0..3 {
            a.0[i].enforce_equal(dr, &b.0[i])?;
        }
        Ok(())
    }
}
impl<'dr, D: Driver<'dr, F: PrimeField>> Gadget<'dr, D> for Trio<'dr, D> {
    type Kind = TrioKind;
}
/// Any number of public outputs.
pub struct Outs<'dr, D: Driver<'dr>>(pub Vec<Element<'dr, D>>);
impl<'dr, D: Driver<'dr>> Clone for Outs<'dr, D> {
    fn clone(&self) -> Self {
        Outs(self.0.clone())
    }
}
pub struct OutsKind;
unsafe impl<F: PrimeField> GadgetKind<F> for OutsKind {
    type Rebind<'dr, D: Driver<'dr, F = F>> = Outs<'dr, D>;
    fn map_gadget<'src, 'dst, WM: WireMap<F, Src: Driver<'src, F = F>, Dst: Driver<'dst, F = F>>>(
        this: &Bound<'src, WM::Src, Self>,
        wm: &mut WM,
    ) -> Result<Bound<'dst, WM::Dst, Self>> {
        let mut v = vec![];
        for e in &this.0 {
            v.push(map_el(e, wm)?);
        }
        Ok(Outs(v))
    }
    fn enforce_equal_gadget<'dr, D1: Driver<'dr, F = F>, D2: Driver<'dr, F = F, Wire = <D1 as Driver<'dr>>::Wire>>(
        dr: &mut D1,
        a: &Bound<'dr, D2, Self>,
        b: &Bound<'dr, D2, Self>,
    ) -> Result<()> {
        for (x, y) in a.0.iter().zip(&b.0) {
            x.enforce_equal(dr, y)?;
        }
        Ok(())
    }
}
impl<'dr, D: Driver<'dr, F: PrimeField>> Gadget<'dr, D> for Outs<'dr, D> {
    type Kind = OutsKind;
}
impl<F: PrimeField> Write<F> for OutsKind {
    fn write_gadget<'dr, D: Driver<'dr, F = F>, B: Buffer<'dr, D>>(
        this: &Bound<'dr, D, Self>,
        dr: &mut D,
        buf: &mut B,
    ) -> Result<()> {
        for e in &this.0 {
            buf.write(dr, e)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- interpretation on a driver
type El<'dr, D> = Element<'dr, D>;
fn build<W: Clone, F: PrimeField, L: LinearExpression<W, F>>(mut l: L, ts: &[Term], w: &[W]) -> L {
    for t in ts {
        l = match t {
            Term::T(r, c) => l.add_term(&w[*r], c.coeff()),
            Term::A(r) => l.add(&w[*r]),
            Term::S(r) => l.sub(&w[*r]),
            Term::G(c) => l.gain(c.coeff()),
            Term::X(x) => l.extend(x.iter().map(|(r, c)| (w[*r].clone(), c.coeff()))),
        }
    }
    l
}
pub fn run<'dr, F: PrimeField, D: Driver<'dr, F = F>>(dr: &mut D, ops: &[Op], regs: &mut Vec<El<'dr, D>>) -> Result<()> {
    for op in ops {
        let values = |vs: &[V], regs: &Vec<El<'dr, D>>| -> DriverValue<D, Vec<F>> {
            D::just(|| {
                CLOSURES.fetch_add(1, SeqCst);
                let nums: Vec<F> = regs.iter().map(|e| *e.value().take()).collect();
                vs.iter().map(|v| val(v, &nums)).collect()
            })
        };
        let total = |ts: &[Term], regs: &Vec<El<'dr, D>>| -> DriverValue<D, F> {
            D::just(|| {
                let nums: Vec<F> = regs.iter().map(|e| *e.value().take()).collect();
                lin(ts, &nums)
            })
        };
        match op {
            Op::Gate(v) => {
                let x = values(v, regs);
                let (a, b, c, d) = dr.gate(|| {
                    CLOSURES.fetch_add(1, SeqCst);
                    let y = x.as_ref().take();
                    Ok((Coeff::Arbitrary(y[0]), Coeff::Arbitrary(y[1]), Coeff::Arbitrary(y[2]), Coeff::Arbitrary(y[3])))
                })?;
                for (i, w) in [a, b, c, d].into_iter().enumerate() {
                    regs.push(Element::promote(w, x.as_ref().map(|y| y[i])));
                }
            }
            Op::Mul(v) => {
                let x = values(v, regs);
                let (a, b, c) = dr.mul(|| {
                    CLOSURES.fetch_add(1, SeqCst);
                    let y = x.as_ref().take();
                    Ok((Coeff::Arbitrary(y[0]), Coeff::Arbitrary(y[1]), Coeff::NegativeArbitrary(-y[2])))
                })?;
                for (i, w) in [a, b, c].into_iter().enumerate() {
                    regs.push(Element::promote(w, x.as_ref().map(|y| y[i])));
                }
            }
            Op::Alloc(v) => {
                let x = values(std::slice::from_ref(v), regs);
                let w = dr.alloc(|| {
                    CLOSURES.fetch_add(1, SeqCst);
                    Ok(Coeff::Arbitrary(x.as_ref().take()[0]))
                })?;
                regs.push(Element::promote(w, x.as_ref().map(|y| y[0])));
            }
            Op::Add(t) => {
                let x = total(t, regs);
                let ws: Vec<D::Wire> = regs.iter().map(|e| e.wire().clone()).collect();
                let w = dr.add(|l| build(l, t, &ws));
                regs.push(Element::promote(w, x));
            }
            Op::Const(c) => {
                let w = dr.constant(c.coeff());
                regs.push(Element::promote(w, D::just(|| c.coeff::<F>().value())));
            }
            Op::Zero(t) => {
                let ws: Vec<D::Wire> = regs.iter().map(|e| e.wire().clone()).collect();
                dr.enforce_zero(|l| build(l, t, &ws))?;
            }
            Op::Call { pred, ins, body, outs } => {
                let input = Trio([regs[ins[0]].clone(), regs[ins[1]].clone(), regs[ins[2]].clone()]);
                let r = Sub { pred: *pred, body: body.clone(), outs: *outs, _f: PhantomData::<fn() -> F> };
                let o = dr.routine(r, input)?;
                regs.extend(o.0);
            }
        }
    }
    Ok(())
}
pub fn one<'dr, F: PrimeField, D: Driver<'dr, F = F>>() -> El<'dr, D> {
    Element::promote(D::ONE, D::just(|| F::ONE))
}
struct Sub<F> {
    pred: bool,
    body: Arc<Vec<Op>>,
    outs: [usize; 3],
    _f: PhantomData<fn() -> F>,
}
impl<F> Clone for Sub<F> {
    fn clone(&self) -> Self {
        Sub { pred: self.pred, body: self.body.clone(), outs: self.outs, _f: PhantomData }
    }
}
impl<F: PrimeField> Routine<F> for Sub<F> {
    type Input = TrioKind;
    type Output = TrioKind;
    type Aux<'dr> = [F; 3];
    fn execute<'dr, D: Driver<'dr, F = F>>(
        &self,
        dr: &mut D,
        input: Bound<'dr, D, Self::Input>,
        aux: DriverValue<D, Self::Aux<'dr>>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        // The auxiliary data handed over must be the prediction's, for these very inputs.
        D::just(|| {
            let a: [F; 3] = aux.take();
            for i in 0..3 {
                assert_eq!(a[i], *input.0[i].value().take(), "auxiliary data of another call");
            }
        });
        let mut regs = vec![one()];
        regs.extend(input.0);
        run(dr, &self.body, &mut regs)?;
        Ok(Trio([regs[self.outs[0]].clone(), regs[self.outs[1]].clone(), regs[self.outs[2]].clone()]))
    }
    fn predict<'dr, D: Driver<'dr, F = F, Wire = ()>>(
        &self,
        dr: &mut D,
        input: &Bound<'dr, D, Self::Input>,
    ) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, Self::Aux<'dr>>>> {
        let ins: DriverValue<D, [F; 3]> = D::just(|| {
            [*input.0[0].value().take(), *input.0[1].value().take(), *input.0[2].value().take()]
        });
        if self.pred {
            let o: DriverValue<D, [F; 3]> = D::just(|| pure_call(&self.body, &self.outs, *ins.snag()));
            let mut el = |i: usize| Element::alloc(dr, o.as_ref().map(|x| x[i]));
            Ok(Prediction::Known(Trio([el(0)?, el(1)?, el(2)?]), ins))
        } else {
            Ok(Prediction::Unknown(ins))
        }
    }
}

/// A program as a circuit; its instance is the list of claimed public outputs.
#[derive(Clone)]
pub struct Interp(pub Prog);
impl<F: PrimeField> Circuit<F> for Interp {
    type Instance<'source> = Vec<F>;
    type Witness<'source> = ();
    type Output = OutsKind;
    type Aux<'source> = ();
    fn instance<'dr, 'source: 'dr, D: Driver<'dr, F = F>>(
        &self,
        dr: &mut D,
        instance: DriverValue<D, Vec<F>>,
    ) -> Result<Bound<'dr, D, OutsKind>>
    where
        Self: 'dr,
    {
        let mut v = vec![];
        for i in 0..self.0.outs.len() {
            v.push(Element::alloc(dr, instance.as_ref().map(|x| x[i]))?);
        }
        Ok(Outs(v))
    }
    fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = F>>(
        &self,
        dr: &mut D,
        _witness: DriverValue<D, ()>,
    ) -> Result<WithAux<Bound<'dr, D, OutsKind>, DriverValue<D, ()>>>
    where
        Self: 'dr,
    {
        let mut regs = vec![one()];
        run(dr, &self.0.body, &mut regs)?;
        Ok(WithAux::new(Outs(self.0.outs.iter().map(|r| regs[*r].clone()).collect()), D::unit()))
    }
}

// ---------------------------------------------------------------- random programs
pub struct GenCfg {
    pub ops: usize,
    pub depth: usize,
    pub perturb: usize,
}
pub fn rand_co(r: &mut Rng) -> Co {
    let v = r.below(12289) as i64;
    match r.below(8) {
        0 => Co("Zero", 0),
        1 => Co("One", 0),
        2 => Co("Two", 0),
        3 => Co("NegativeOne", 0),
        4 | 5 => Co("Arbitrary", v),
        6 => Co("Arbitrary", r.below(3) as i64),
        _ => Co("NegativeArbitrary", v),
    }
}
fn rand_terms(r: &mut Rng, n: usize) -> Vec<Term> {
    (0..r.below(5))
        .map(|_| {
            let g = r.below(n);
            match r.below(10) {
                0..=3 => Term::T(g, rand_co(r)),
                4 | 5 => Term::A(g),
                6 => Term::S(g),
                7 => Term::G(rand_co(r)),
                _ => Term::X((0..r.below(3)).map(|_| (r.below(n), rand_co(r))).collect()),
            }
        })
        .collect()
}
pub fn rand_ops(r: &mut Rng, cfg: &GenCfg, n0: usize, len: usize, depth: usize) -> (Vec<Op>, usize) {
    let mut n = n0;
    let mut ops = vec![];
    for _ in 0..len {
        let pert = |r: &mut Rng| if cfg.perturb > 0 && r.below(cfg.perturb) == 0 { 1 + r.below(5) as i64 } else { 0 };
        let reg = |r: &mut Rng| r.below(n);
        match r.below(11) {
            0 | 1 => {
                let (a, b) = (reg(r), reg(r));
                ops.push(Op::Mul([V::R(a, 0), V::R(b, 0), V::P(a, b, pert(r))]));
                n += 3;
            }
            2 => {
                // A gate whose product vanishes, so that d is free.
                let (a, d) = (reg(r), reg(r));
                let v = if r.below(2) == 0 {
                    [V::R(a, 1), V::K(0), V::K(pert(r)), V::R(d, 3)]
                } else {
                    let b = reg(r);
                    [V::R(a, 0), V::R(b, 0), V::P(a, b, pert(r)), V::K(pert(r))]
                };
                ops.push(Op::Gate(v));
                n += 4;
            }
            3 | 4 | 5 => {
                ops.push(Op::Alloc(if r.below(2) == 0 { V::K(r.below(12289) as i64) } else { V::R(reg(r), r.below(7) as i64) }));
                n += 1;
            }
            6 => {
                ops.push(Op::Add(rand_terms(r, n)));
                n += 1;
            }
            7 => {
                ops.push(Op::Const(rand_co(r)));
                n += 1;
            }
            8 => {
                // A constraint that holds: allocate what makes it hold.
                let t = rand_terms(r, n);
                ops.push(Op::Add(t));
                ops.push(Op::Alloc(V::R(n, pert(r))));
                ops.push(Op::Zero(vec![Term::A(n), Term::S(n + 1)]));
                n += 2;
            }
            9 => {
                if cfg.perturb > 0 && r.below(cfg.perturb) == 0 {
                    ops.push(Op::Zero(rand_terms(r, n)));
                } else {
                    // x - x = 0 with a common factor
                    let a = reg(r);
                    let c = rand_co(r);
                    ops.push(Op::Zero(vec![Term::G(c), Term::A(a), Term::S(a)]));
                }
            }
            _ => {
                if depth > 0 {
                    let sub = r.below(1 + len);
                    let (body, m) = rand_ops(r, cfg, 4, sub, depth - 1);
                    let o = |r: &mut Rng| r.below(m);
                    let ins = [reg(r), reg(r), reg(r)];
                    let outs = [o(r), o(r), o(r)];
                    ops.push(Op::Call { pred: r.below(2) == 0, ins, body: Arc::new(body), outs });
                    n += 3;
                }
            }
        }
    }
    (ops, n)
}
pub fn rand_prog(r: &mut Rng, cfg: &GenCfg) -> Prog {
    rand_prog_from(r, cfg, 1)
}
pub fn rand_prog_from(r: &mut Rng, cfg: &GenCfg, n0: usize) -> Prog {
    let len = 1 + r.below(cfg.ops);
    let (ops, n) = rand_ops(r, cfg, n0, len, cfg.depth);
    let outs = (0..r.below(4)).map(|_| r.below(n)).collect();
    Prog { body: Arc::new(ops), outs }
}
/// The values of all registers of the root frame.
pub fn root_values<F: PrimeField>(p: &Prog) -> Vec<F> {
    let mut regs = vec![F::ONE];
    pure(&p.body, &mut regs);
    regs
}
#[allow(unused)]
fn _unused<D: DriverTypes>() {}

//! C11: runs programs over the primitive gadgets on the recording driver (and the simulator), and
//! records the constraint system, the registers' wires and the honest assignments.
use crate::rec::*;
use ff::{Field, PrimeField, WithSmallOrderMulGroup};
use group::prime::PrimeCurveAffine;
use ragu_arithmetic::{Coeff, CurveAffine, Uendo};
use ragu_core::Result;
use ragu_core::convert::WireMap;
use ragu_core::drivers::emulator::{Emulator, Wireless};
use ragu_core::drivers::{Driver, DriverTypes};
use ragu_core::gadgets::Gadget;
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
use ragu_primitives::consistent::Consistent;
use ragu_primitives::*;
use std::fmt::Debug;
use vh::{J, Rng, Trace, jo};

pub trait TF: PrimeField + WithSmallOrderMulGroup<3> + Into<J> + Debug {}
impl<F: PrimeField + WithSmallOrderMulGroup<3> + Into<J> + Debug> TF for F {}

pub fn uendo(bits: &[u64]) -> Uendo {
    let mut e = Uendo::from(0u64);
    for (i, b) in bits.iter().enumerate() {
        if *b == 1 {
            e |= Uendo::from(1u64) << i;
        }
    }
    e
}

/// A driver that can hand out fresh wires without constraining them.
pub trait Harness<'dr>: Driver<'dr> {
    fn free_wire(&mut self, v: Option<Self::F>) -> Self::Wire;
    fn fix_wire(&mut self, _: &Self::Wire, _: Self::F) {}
    fn eval<T: Send>(f: impl FnOnce() -> T) -> Option<T>;
}
impl<'dr, F: Field, M: Mode> Harness<'dr> for Rec<F, M> {
    fn free_wire(&mut self, v: Option<F>) -> usize {
        self.free(v)
    }
    fn fix_wire(&mut self, w: &usize, v: F) {
        self.fix(*w, v)
    }
    fn eval<T: Send>(f: impl FnOnce() -> T) -> Option<T> {
        M::eval(f)
    }
}
impl<'dr, F: Field> Harness<'dr> for Simulator<F> {
    fn free_wire(&mut self, v: Option<F>) -> F {
        v.unwrap()
    }
    fn eval<T: Send>(f: impl FnOnce() -> T) -> Option<T> {
        Some(f())
    }
}

/// Moves a gadget made on a wireless emulator onto fresh unconstrained wires.
struct Injector<'a, 'dr, D: Driver<'dr>> {
    dr: &'a mut D,
    vals: std::vec::IntoIter<D::F>,
    _m: core::marker::PhantomData<&'dr ()>,
}
impl<'dr, D: Harness<'dr>> WireMap<D::F> for Injector<'_, 'dr, D> {
    type Src = Emulator<Wireless<D::MaybeKind, D::F>>;
    type Dst = D;
    fn convert_wire(&mut self, _: &()) -> Result<D::Wire> {
        let v = self.vals.next();
        Ok(self.dr.free_wire(v))
    }
}

pub enum Reg<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine> {
    E(Element<'dr, D>),
    B(Boolean<'dr, D>),
    P(Point<'dr, D, C>),
    S(Endoscalar<'dr, D>),
    V(Vec<Element<'dr, D>>),
    U,
}

fn parts<'dr, D: Harness<'dr, F = C::Base>, C: CurveAffine>(dr: &mut D, r: &Reg<'dr, D, C>) -> Result<(Vec<D::Wire>, Option<Vec<D::F>>)>
where
    C::Base: TF,
{
    let mut buf: Vec<Element<'dr, D>> = vec![];
    let mut special = None;
    match r {
        Reg::E(e) => e.write(dr, &mut buf)?,
        Reg::B(b) => {
            b.write(dr, &mut buf)?;
            special = Some(D::eval(|| vec![if b.value().take() { D::F::ONE } else { D::F::ZERO }]));
        }
        Reg::P(p) => p.write(dr, &mut buf)?,
        Reg::S(s) => {
            for b in s.bits() {
                b.write(dr, &mut buf)?
            }
        }
        Reg::V(v) => buf = v.clone(),
        Reg::U => {}
    }
    let w = buf.iter().map(|e| e.wire().clone()).collect();
    let v = D::eval(|| buf.iter().map(|e| *e.value().take()).collect::<Vec<_>>());
    Ok((w, special.unwrap_or(v)))
}

fn coeff<F: TF>(k: &J) -> Coeff<F> {
    let v = F::from(k.a()[1].n() as u64);
    match k.a()[0].s() {
        "0" => Coeff::Zero,
        "1" => Coeff::One,
        "2" => Coeff::Two,
        "-1" => Coeff::NegativeOne,
        "c" => Coeff::Arbitrary(v),
        "-c" => Coeff::NegativeArbitrary(v),
        x => panic!("coeff {x}"),
    }
}

/// Runs the program; returns the claims made so far and the error that stopped it, if any.
pub fn exec<'dr, D: Harness<'dr, F = C::Base>, C: CurveAffine>(
    dr: &mut D,
    prog: &[J],
    inputs: &[Vec<u64>],
) -> (Vec<Claim<D::Wire, D::F>>, Option<String>)
where
    C::Base: TF,
{
    let mut regs: Vec<Reg<'dr, D, C>> = vec![];
    let mut claims: Vec<Claim<D::Wire, D::F>> = vec![];
    let mut at = 0;
    for i in prog {
        match instr(dr, i, inputs, &mut at, &mut regs) {
            Ok((r, extra)) => {
                let (o, k) = (i.get("o").s(), i.get("k").clone());
                let k = match (o, i.get("a").a().first().map(|x| &regs[x.u()])) {
                    ("consistent", Some(Reg::E(_))) => J::S("E".into()),
                    ("consistent", Some(Reg::B(_))) => J::S("B".into()),
                    ("consistent", _) => J::S("P".into()),
                    _ => if k == J::Null { J::N(0) } else { k },
                };
                let mut a = vec![];
                for x in i.get("a").a() {
                    a.push(parts(dr, &regs[x.u()]).unwrap().0);
                }
                let (mut w, mut v) = parts(dr, &r).unwrap();
                if let Some(x) = &extra {
                    let (w2, v2) = parts(dr, x).unwrap();
                    w.extend(w2);
                    if let (Some(a), Some(b)) = (&mut v, v2) {
                        a.extend(b)
                    }
                }
                if o == "extract" {
                    // One claim per bit, so that bits need not be remembered together.
                    for (j, wj) in w.iter().enumerate() {
                        let v = v.as_ref().map(|v| vec![v[j]]);
                        claims.push(Claim { o: o.into(), k: J::N(j as i64), a: a.clone(), r: vec![wj.clone()], v });
                    }
                } else {
                    claims.push(Claim { o: o.into(), k, a, r: w, v });
                }
                regs.push(r);
                if let Some(x) = extra {
                    regs.push(x);
                }
            }
            Err(e) => return (claims, Some(e.to_string())),
        }
    }
    (claims, None)
}

fn instr<'dr, D: Harness<'dr, F = C::Base>, C: CurveAffine>(
    dr: &mut D,
    i: &J,
    inputs: &[Vec<u64>],
    at: &mut usize,
    regs: &mut [Reg<'dr, D, C>],
) -> Result<(Reg<'dr, D, C>, Option<Reg<'dr, D, C>>)>
where
    C::Base: TF,
{
    let f = |v: u64| D::F::from(v);
    let k = i.get("k");
    let arg: Vec<usize> = i.get("a").a().iter().map(|x| x.u()).collect();
    macro_rules! e {
        ($n:expr) => {
            match &regs[arg[$n]] {
                Reg::E(e) => e.clone(),
                _ => panic!("not an element"),
            }
        };
    }
    macro_rules! b {
        ($n:expr) => {
            match &regs[arg[$n]] {
                Reg::B(b) => b.clone(),
                _ => panic!("not a boolean"),
            }
        };
    }
    macro_rules! p {
        ($n:expr) => {
            match &regs[arg[$n]] {
                Reg::P(p) => p.clone(),
                _ => panic!("not a point"),
            }
        };
    }
    let es = |from: usize| -> Vec<Element<'dr, D>> {
        arg[from..]
            .iter()
            .map(|x| match &regs[*x] {
                Reg::E(e) => e.clone(),
                _ => panic!("not an element"),
            })
            .collect()
    };
    let mut next = || {
        let v = inputs.get(*at).cloned();
        *at += 1;
        v
    };
    let pt = |v: &Vec<u64>| -> C {
        if v.is_empty() { C::identity() } else { C::from_xy(f(v[0]), f(v[1])).unwrap() }
    };
    use Reg::*;
    Ok((
        match i.get("o").s() {
            "alloc" => {
                let v = next();
                E(Element::alloc(dr, D::just(|| f(v.unwrap()[0])))?)
            }
            "alloc_square" => {
                let v = next();
                let (a, b) = Element::alloc_square(dr, D::just(|| f(v.unwrap()[0])))?;
                return Ok((E(a), Some(E(b))));
            }
            "balloc" => {
                let v = next();
                B(Boolean::alloc(dr, D::just(|| v.unwrap()[0] == 1))?)
            }
            "palloc" => {
                let v = next();
                P(Point::alloc(dr, D::just(|| pt(&v.unwrap())))?)
            }
            "salloc" => {
                let bits: Vec<u64> = k.a().iter().map(|x| x.n() as u64).collect();
                let u = uendo(&bits);
                let s = Endoscalar::alloc(dr, D::just(|| u))?;
                for (b, v) in s.bits().zip(&bits) {
                    let w = b.wire().clone();
                    dr.fix_wire(&w, f(*v));
                }
                S(s)
            }
            // The same gadgets on wires nothing constrains, as a stage hands them over.
            "free" => {
                let v = next();
                let w = dr.free_wire(D::eval(|| f(v.clone().unwrap()[0])));
                E(Element::promote(w, D::just(|| f(v.unwrap()[0]))))
            }
            o @ ("bfree" | "pfree") => {
                let v = next();
                let mut em = Emulator::<Wireless<D::MaybeKind, D::F>>::wireless();
                let vals: Vec<D::F> = D::eval(|| v.clone().unwrap().iter().map(|x| f(*x)).collect()).unwrap_or_default();
                let mut inj = Injector { dr, vals: vals.into_iter(), _m: Default::default() };
                if o == "bfree" {
                    let g = Boolean::alloc(&mut em, D::just(|| v.unwrap()[0] == 1))?;
                    B(g.map(&mut inj)?)
                } else {
                    let g = Point::<_, C>::alloc(&mut em, D::just(|| pt(&v.unwrap())))?;
                    P(g.map(&mut inj)?)
                }
            }
            "consistent" => {
                match &regs[arg[0]] {
                    E(x) => x.clone().enforce_consistent(dr)?,
                    B(x) => x.clone().enforce_consistent(dr)?,
                    P(x) => x.clone().enforce_consistent(dr)?,
                    _ => panic!(),
                };
                U
            }
            "equal" => {
                match (&regs[arg[0]], &regs[arg[1]]) {
                    (E(x), E(y)) => x.enforce_equal(dr, y)?,
                    (B(x), B(y)) => x.enforce_equal(dr, y)?,
                    (P(x), P(y)) => x.enforce_equal(dr, y)?,
                    _ => panic!(),
                };
                U
            }
            "one" => E(Element::one()),
            "zero" => E(Element::zero(dr)),
            "const" => E(Element::constant(dr, f(k.n() as u64))),
            "mul" => E(e!(0).mul(dr, &e!(1))?),
            "square" => E(e!(0).square(dr)?),
            "ez" => {
                e!(0).enforce_zero(dr)?;
                U
            }
            "neg" => E(e!(0).negate(dr)),
            "add" => E(e!(0).add(dr, &e!(1))),
            "sub" => E(e!(0).sub(dr, &e!(1))),
            "add_coeff" => E(e!(0).add_coeff(dr, &e!(1), coeff(k))),
            "scale" => E(e!(0).scale(dr, coeff(k))),
            "double" => E(e!(0).double(dr)),
            "invert" => E(e!(0).invert(dr)?),
            "invert_with" => {
                let v = next();
                E(e!(0).invert_with(dr, D::just(|| f(v.unwrap()[0])))?)
            }
            "div" => E(e!(0).div_nonzero(dr, &e!(1))?),
            "is_zero" => B(e!(0).is_zero(dr)?),
            "is_equal" => B(e!(0).is_equal(dr, &e!(1))?),
            "fold" => E(Element::fold(dr, es(1), &e!(0))?),
            "sum" => E(Element::sum(dr, es(0))),
            "multiadd" => {
                let c: Vec<D::F> = k.a().iter().map(|x| f(x.n() as u64)).collect();
                E(multiadd(dr, &es(0), &c))
            }
            "root" => {
                e!(0).enforce_root_of_unity(dr, k.n() as u32)?;
                U
            }
            "not" => B(b!(0).not(dr)),
            "and" => B(b!(0).and(dr, &b!(1))?),
            "belement" => E(b!(0).element()),
            "bdemote" => {
                let x = b!(0);
                let d = x.demote()?;
                B(d.promote(x.value()))
            }
            "select" => E(b!(0).conditional_select(dr, &e!(1), &e!(2))?),
            "cond_eq" => {
                b!(0).conditional_enforce_equal(dr, &e!(1), &e!(2))?;
                U
            }
            "multipack" => {
                let bs: Vec<_> = (0..arg.len()).map(|n| b!(n)).collect();
                V(multipack(dr, &bs)?)
            }
            "pconst" => {
                let v: Vec<u64> = k.a().iter().map(|x| x.n() as u64).collect();
                P(Point::constant(dr, pt(&v))?)
            }
            "endo" => P(p!(0).endo(dr)),
            "pneg" => P(p!(0).negate(dr)),
            "cendo" => P(p!(0).conditional_endo(dr, &b!(1))?),
            "cneg" => P(p!(0).conditional_negate(dr, &b!(1))?),
            "pdouble" => P(p!(0).double(dr)?),
            "padd" => P(p!(0).add_incomplete(dr, &p!(1), None)?),
            "padd_nz" => {
                let mut nz = e!(2);
                let r = p!(0).add_incomplete(dr, &p!(1), Some(&mut nz))?;
                return Ok((P(r), Some(E(nz))));
            }
            "pdbladd" => P(p!(0).double_and_add_incomplete(dr, &p!(1))?),
            "extract" => S(Endoscalar::extract(dr, e!(0))?),
            "lift" => match &regs[arg[0]] {
                S(s) => E(s.lift(dr)?),
                _ => panic!(),
            },
            "group_scale" => match &regs[arg[0]] {
                S(s) => P(s.group_scale(dr, &p!(1))?),
                _ => panic!(),
            },
            o => panic!("op {o}"),
        },
        None,
    ))
}

fn points<C: CurveAffine>() -> Vec<Vec<u64>>
where
    C::Base: TF,
{
    let num = |x: &C::Base| Into::<J>::into(*x).n() as u64;
    let g = C::generator().to_curve();
    let mut v = vec![];
    let mut p = g;
    loop {
        let a: C = p.into();
        match a.coordinates().into_option() {
            Some(c) => v.push(vec![num(c.x()), num(c.y())]),
            None => return v,
        }
        p += g;
    }
}

/// Honest inputs: all combinations when there are few, otherwise edge cases and random ones.
fn input_sets(prog: &[J], p: u64, pts: &[Vec<u64>], rng: &mut Rng, limit: usize) -> Vec<Vec<Vec<u64>>> {
    let mut doms: Vec<Vec<Vec<u64>>> = vec![];
    for i in prog {
        match i.get("o").s() {
            "alloc" | "alloc_square" | "free" | "invert_with" => doms.push((0..p).map(|v| vec![v]).collect()),
            "balloc" | "bfree" => doms.push(vec![vec![0], vec![1]]),
            "palloc" => doms.push(std::iter::once(vec![]).chain(pts.iter().cloned()).collect()),
            "pfree" => doms.push(pts.to_vec()),
            _ => {}
        }
    }
    let total: f64 = doms.iter().map(|d| d.len() as f64).product();
    if total <= limit as f64 {
        let mut out = vec![vec![]];
        for d in &doms {
            out = out.iter().flat_map(|o| d.iter().map(move |x| { let mut o = o.clone(); o.push(x.clone()); o })).collect();
        }
        return out;
    }
    let mut out = vec![];
    for n in 0..limit {
        out.push(
            doms.iter()
                .enumerate()
                .map(|(j, d)| match n {
                    0 => d[0].clone(),
                    1 => d[1].clone(),
                    2 => d[d.len() - 1].clone(),
                    3 => d[(1 + j) % d.len()].clone(),
                    _ => if rng.chance(1, 5) { d[rng.below(3).min(d.len() - 1)].clone() } else { rng.pick(d).clone() },
                })
                .collect(),
        );
    }
    // Repeat an earlier input of the same kind, so that equal arguments occur.
    for n in 4..limit {
        if rng.chance(1, 3) && doms.len() > 1 {
            let (a, b) = (rng.below(doms.len()), rng.below(doms.len()));
            if doms[a] == doms[b] {
                let v: Vec<u64> = Vec::<Vec<u64>>::clone(&out[n])[a].clone();
                out[n][b] = v;
            }
        }
    }
    out
}

fn record<C: CurveAffine>(prog: &[J], sys: &mut Trace, runs: &mut Trace, rng: &mut Rng, pts: &[Vec<u64>], limit: usize, p: u64, search: bool)
where
    C::Base: TF,
{
    type R<F> = Rec<F, Always<()>>;
    let mut blind = Rec::<C::Base, Empty>::new();
    let (cl, err) = exec::<_, C>(&mut blind, prog, &[]);
    let zeta: J = C::Base::ZETA.into();
    let j = system(&blind, &cl, err.is_none());
    let mut out = j.clone();
    out.set("prog", J::A(prog.to_vec()));
    out.set("zeta", zeta);
    out.set("g", Into::<J>::into(C::Base::MULTIPLICATIVE_GENERATOR));
    out.set("b", Into::<J>::into(C::b()));
    out.set("err", err.clone().unwrap_or_default());
    let mut planned = out.clone();
    planned.set("plan", plan(&blind, &cl));
    if search {
        sys.emit(planned);
    }
    let mut list = vec![];
    for inp in input_sets(prog, p, pts, rng, limit) {
        let mut dr = R::<C::Base>::new();
        let (cl, err) = exec::<_, C>(&mut dr, prog, &inp);
        let mine = system(&dr, &cl, err.is_none());
        let mut sim = Simulator::<C::Base>::new();
        let (_, serr) = exec::<_, C>(&mut sim, prog, &inp);
        list.push(jo! {
            "in" => J::A(inp.iter().map(|v| J::from(v.clone())).collect()),
            "same" => err.is_some() || mine == j,
            "at" => cl.len(),
            "ok" => err.is_none(),
            "sim" => serr.is_none(),
            "w" => J::A(dr.vals.iter().map(|v| (*v).into()).collect()),
            "v" => J::A(cl.iter().map(|c| J::A(c.v.as_ref().unwrap().iter().map(|v| (*v).into()).collect())).collect()),
        });
    }
    for ch in list.chunks(40) {
        let mut o = out.clone();
        o.set("runs", J::A(ch.to_vec()));
        runs.emit(o);
    }
}

#[derive(Clone, Copy, PartialEq)]
enum T { E, B, P, N }
/// Random programs mixing all gadgets.
fn random_prog(rng: &mut Rng, p: u64, points_too: bool, budget: usize) -> Vec<J> {
    const OPS: &[(&str, &[T], &[T])] = &[
            ("mul", &[T::E, T::E], &[T::E]), ("square", &[T::E], &[T::E]), ("add", &[T::E, T::E], &[T::E]),
            ("sub", &[T::E, T::E], &[T::E]), ("neg", &[T::E], &[T::E]), ("add_coeff", &[T::E, T::E], &[T::E]),
            ("scale", &[T::E], &[T::E]), ("double", &[T::E], &[T::E]), ("invert", &[T::E], &[T::E]),
            ("div", &[T::E, T::E], &[T::E]), ("is_zero", &[T::E], &[T::B]), ("is_equal", &[T::E, T::E], &[T::B]),
            ("fold", &[T::E, T::E, T::E], &[T::E]), ("sum", &[T::E, T::E], &[T::E]), ("not", &[T::B], &[T::B]),
            ("and", &[T::B, T::B], &[T::B]), ("belement", &[T::B], &[T::E]), ("bdemote", &[T::B], &[T::B]),
            ("select", &[T::B, T::E, T::E], &[T::E]), ("multipack", &[T::B, T::B, T::B], &[T::N]),
            ("const", &[], &[T::E]), ("one", &[], &[T::E]), ("zero", &[], &[T::E]), ("cond_eq", &[T::B, T::E, T::E], &[T::N]),
            ("endo", &[T::P], &[T::P]), ("pneg", &[T::P], &[T::P]), ("cendo", &[T::P, T::B], &[T::P]),
            ("cneg", &[T::P, T::B], &[T::P]), ("pdouble", &[T::P], &[T::P]), ("padd", &[T::P, T::P], &[T::P]),
            ("padd_nz", &[T::P, T::P, T::E], &[T::P, T::E]), ("pdbladd", &[T::P, T::P], &[T::P]),
    ];
    let mut ts: Vec<T> = vec![];
    let mut prog: Vec<J> = vec![];
    let c = |rng: &mut Rng| J::A(vec![J::from(*rng.pick(&["0", "1", "2", "-1", "c", "-c"])), J::N(rng.below(p as usize) as i64)]);
    let nin = rng.range(1, 2);
    for _ in 0..nin {
        let (o, t) = if points_too && rng.chance(1, 2) { ("palloc", T::P) } else if rng.chance(1, 3) { ("balloc", T::B) } else { ("alloc", T::E) };
        prog.push(jo! {"o" => o, "a" => Vec::<u64>::new()});
        ts.push(t);
    }
    for _ in 0..budget {
        let of = |ts: &Vec<T>, t: T, rng: &mut Rng| -> Option<i64> {
            let v: Vec<usize> = (0..ts.len()).filter(|x| ts[*x] == t).collect();
            if v.is_empty() { None } else { Some(*rng.pick(&v) as i64) }
        };
        let (o, sig, res): (&str, &[T], &[T]) = *rng.pick(OPS);
        let args: Option<Vec<i64>> = sig.iter().map(|t| of(&ts, *t, rng)).collect();
        let Some(args) = args else { continue };
        let mut j = jo! {"o" => o, "a" => args};
        match o {
            "const" => j.set("k", rng.below(p as usize)),
            "add_coeff" | "scale" => j.set("k", c(rng)),
            _ => {}
        }
        prog.push(j);
        ts.extend_from_slice(res);
    }
    prog
}

fn field<C: CurveAffine>(scen: &[J], out: &str, p: u64, seed: u64, scale: u64)
where
    C::Base: TF,
{
    let mut sys = Trace::create(&format!("{out}.sys"));
    let mut runs = Trace::create(&format!("{out}.runs"));
    let mut rng = Rng::new(seed * 7919 + p);
    let pts = points::<C>();
    let limit = 40 * scale as usize;
    let deep = vh::arg("deep").is_some();
    for s in scen {
        let mut prog = s.get("prog").a().to_vec();
        for i in prog.iter_mut() {
            // Parameters the scenario leaves to this field.
            if i.get("k") == &J::S("bits".into()) {
                let n = Uendo::BITS as usize;
                let v: Vec<u64> = (0..n).map(|_| rng.below(2) as u64).collect();
                i.set("k", v);
            } else if i.get("k") == &J::S("point".into()) {
                let q = rng.pick(&pts).clone();
                i.set("k", q);
            } else if i.get("k") == &J::S("elem".into()) {
                i.set("k", rng.below(p as usize));
            }
        }
        let ops: Vec<&str> = prog.iter().map(|i| i.get("o").s()).collect();
        let pointy = ops.iter().any(|o| ["palloc", "pconst", "pfree", "salloc", "extract"].contains(o));
        record::<C>(&prog, &mut sys, &mut runs, &mut rng, &pts, limit, p, p < 20 || deep || pointy);
    }
    for n in 0..scale as usize * 25 {
        let prog = random_prog(&mut rng, p, n % 3 != 0, 6);
        record::<C>(&prog, &mut sys, &mut runs, &mut rng, &pts, limit, p, p < 20);
    }
    // Endoscaling with bit strings that do not run into an exceptional addition.
    let mut good = 0;
    for _ in 0..4000 {
        if good >= scale as usize {
            break;
        }
        let bits: Vec<u64> = (0..Uendo::BITS as usize).map(|_| rng.below(2) as u64).collect();
        let point = if deep && p < 20 {
            jo! {"o" => "palloc", "a" => Vec::<u64>::new()}
        } else {
            jo! {"o" => "pconst", "a" => Vec::<u64>::new(), "k" => rng.pick(&pts).clone()}
        };
        let prog = vec![point, jo! {"o" => "salloc", "a" => Vec::<u64>::new(), "k" => bits}, jo! {"o" => "group_scale", "a" => vec![1, 0]}];
        let mut dr = Rec::<C::Base, Always<()>>::new();
        if exec::<_, C>(&mut dr, &prog, &[pts[rng.below(pts.len())].clone()]).1.is_none() {
            good += 1;
            record::<C>(&prog, &mut sys, &mut runs, &mut rng, &pts, 8, p, true);
        }
    }
}

/// The native endoscalar functions.
fn native<C: CurveAffine>(out: &str, p: u64, seed: u64, scale: u64)
where
    C::Base: TF,
{
    let mut t = Trace::create(&format!("{out}.native"));
    let mut rng = Rng::new(seed * 31 + p);
    let hdr = |o: &str| jo! {"o" => o, "zeta" => Into::<J>::into(C::Base::ZETA), "g" => Into::<J>::into(C::Base::MULTIPLICATIVE_GENERATOR)};
    for v in 0..p {
        let e = vh::catch(|| extract_endoscalar(C::Base::from(v)));
        let mut j = hdr("extract");
        j.set("v", v);
        match e {
            Ok(e) => j.set("bits", (0..Uendo::BITS as usize).map(|i| ((e >> i) & Uendo::from(1u64) == Uendo::from(1u64)) as u64).collect::<Vec<_>>()),
            Err(m) => j.set("panic", m),
        }
        t.emit(j);
    }
    for n in 0..20 * scale {
        let bits: Vec<u64> = (0..Uendo::BITS as usize)
            .map(|i| match n {
                0 => 0,
                1 => 1,
                2 => (i % 2) as u64,
                3 => (i == 127) as u64,
                _ => rng.below(2) as u64,
            })
            .collect();
        let v: C::Base = lift_endoscalar(uendo(&bits));
        let mut j = hdr("lift");
        j.set("bits", bits);
        j.set("v", Into::<J>::into(v));
        t.emit(j);
    }
}

pub fn main(scen: Option<String>, field_: &str, out: &str, seed: u64, scale: u64) {
    let scen = scen.map(|s| vh::read_nd(&s)).unwrap_or_default();
    let scen: Vec<J> = scen.into_iter().filter(|s| !s.has("fields") || s.get("fields").a().iter().any(|f| f.s() == field_ || (vh::arg("deep").is_some() && f.s() == format!("{field_}t")))).collect();
    macro_rules! go {
        ($c:ty, $p:expr) => {{
            field::<$c>(&scen, out, $p, seed, scale);
            native::<$c>(out, $p, seed, scale);
        }};
    }
    match field_ {
        "13" => go!(vh::tiny::E13A, 13),
        "79" => go!(vh::tiny::E79A, 79),
        "97" => go!(vh::tiny::E97A, 97),
        f => panic!("field {f}"),
    }
}
#[allow(dead_code)]
fn _unused<D: DriverTypes>() {
    let _: Option<<D::MaybeKind as MaybeKind>::Rebind<u8>> = None;
}

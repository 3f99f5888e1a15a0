//! C15: folding of inner-product claims, and the order the claims are put in.
use crate::rec::*;
use ff::{Field, FromUniformBytes, PrimeField};
use ragu_circuits::polynomials::{Rank, TestRank, sparse};
use ragu_circuits::registry::{CircuitIndex, Registry, RegistryBuilder};
use ragu_circuits::{Circuit, WithAux};
use ragu_core::Result;
use ragu_core::drivers::emulator::Emulator;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::{Always, Empty, Maybe};
use ragu_pcd::verif::claims::{Builder, Source};
use ragu_pcd::verif::fold_revdot::{self, ClaimFolder, NumErrorTerms, Parameters};
use ragu_pcd::verif::native::{self, InternalCircuitIndex, RxComponent, RxIndex};
use ragu_pcd::verif::nested;
use ragu_pcd::verif::{native_claims, nested_claims};
use ragu_primitives::vec::{CollectFixed, ConstLen, FixedVec, Len};
use ragu_primitives::{Element, Simulator};
use std::borrow::Cow;
use std::cell::RefCell;
use vh::{J, Rng, Trace, catch, jo};

type R = TestRank;
type Poly<F> = sparse::Polynomial<F, R>;

#[derive(Clone, Copy, Default)]
struct Dim<const N: usize, const M: usize>;
impl<const N: usize, const M: usize> Parameters for Dim<N, M> {
    type NumGroups = ConstLen<N>;
    type GroupSize = ConstLen<M>;
}

fn dense<F: PrimeField + Into<J>>(p: &Poly<F>) -> J {
    J::A(p.iter_coeffs().map(Into::into).collect())
}
fn fl<F: Field + Into<J>>(v: impl IntoIterator<Item = F>) -> J {
    J::A(v.into_iter().map(Into::into).collect())
}

fn j<F: Into<J>>(v: F) -> J {
    v.into()
}

struct Src<'a>(&'a mut Rng, u64);
impl Src<'_> {
    fn f<F: PrimeField>(&mut self) -> F {
        F::from(self.0.below(self.1 as usize) as u64)
    }
    fn poly<F: PrimeField>(&mut self, shape: &str) -> Poly<F> {
        let cap = R::num_coeffs();
        let mut c = vec![F::ZERO; cap];
        match shape {
            "zero" => return if self.0.chance(1, 2) { Poly::default() } else { Poly::from_coeffs(c) },
            "full" => c.iter_mut().for_each(|x| *x = self.f()),
            _ => {
                for _ in 0..self.0.range(1, 5) {
                    c[self.0.below(cap)] = self.f()
                }
                // Opposite ends, so that products do not all vanish.
                c[0] = self.f();
                c[cap - 1] = self.f();
            }
        }
        Poly::from_coeffs(c)
    }
}

struct FoldIn<F> {
    mu: F,
    nu: F,
    errs: Vec<F>,
    kys: Vec<F>,
}

fn claim_fold<'dr, D: Driver<'dr>, P: Parameters>(dr: &mut D, outer: bool, input: &FoldIn<D::F>, wires: &mut Vec<Element<'dr, D>>) -> Result<Element<'dr, D>>
where
    D::F: PrimeField,
{
    let mut al = |dr: &mut D, v: D::F| -> Result<Element<'dr, D>> {
        let e = Element::alloc(dr, D::just(|| v))?;
        wires.push(e.clone());
        Ok(e)
    };
    let mu = al(dr, input.mu)?;
    let nu = al(dr, input.nu)?;
    let errs = input.errs.iter().map(|v| al(dr, *v)).collect::<Result<Vec<_>>>()?;
    let kys = input.kys.iter().map(|v| al(dr, *v)).collect::<Result<Vec<_>>>()?;
    let f = ClaimFolder::new(dr, &mu, &nu)?;
    if outer {
        let e: FixedVec<_, NumErrorTerms<P::NumGroups>> = errs.into_iter().collect_fixed()?;
        let k: FixedVec<_, P::NumGroups> = kys.into_iter().collect_fixed()?;
        f.fold_outer::<P>(dr, &e, &k)
    } else {
        let e: FixedVec<_, NumErrorTerms<P::GroupSize>> = errs.into_iter().collect_fixed()?;
        let k: FixedVec<_, P::GroupSize> = kys.into_iter().collect_fixed()?;
        f.fold_inner::<P>(dr, &e, &k)
    }
}

fn two_layer<'dr, D: Driver<'dr>, P: Parameters>(dr: &mut D, src: &[D::F], s1: D::F, s2: D::F, wires: &mut Vec<Element<'dr, D>>) -> Result<Element<'dr, D>>
where
    D::F: PrimeField,
{
    let mut al = |dr: &mut D, v: D::F| -> Result<Element<'dr, D>> {
        let e = Element::alloc(dr, D::just(|| v))?;
        wires.push(e.clone());
        Ok(e)
    };
    let s1 = al(dr, s1)?;
    let s2 = al(dr, s2)?;
    let src = src.iter().map(|v| al(dr, *v)).collect::<Result<Vec<_>>>()?;
    fold_revdot::fold_two_layer::<_, P>(dr, &src, &s1, &s2)
}

macro_rules! drivers {
    ($f:ty, |$dr:ident| $body:expr) => {{
        let mut out: Vec<J> = vec![];
        let show = |r: Result<$f>| match r {
            Ok(v) => jo! {"ok" => true, "v" => j(v)},
            Err(_) => jo! {"ok" => false, "v" => 0},
        };
        {
            let $dr = &mut Simulator::<$f>::new();
            out.push(show($body.map(|e| *e.value().take())));
        }
        {
            let $dr = &mut Emulator::execute();
            out.push(show($body.map(|e| *e.value().take())));
        }
        out.push(show(Emulator::emulate_wireless((), |$dr, _| $body.map(|e| *e.value().take()))));
        {
            let $dr = &mut Rec::<$f, Always<()>>::new();
            out.push(show($body.map(|e| *e.value().take())));
        }
        J::A(out)
    }};
}

fn special<F: PrimeField>(kind: &str, s: &mut Src) -> F {
    match kind {
        "0" => F::ZERO,
        "1" => F::ONE,
        "-1" => -F::ONE,
        _ => s.f(),
    }
}

fn arrangement<F: PrimeField + Into<J>, const N: usize, const M: usize>(sc: &J, t: &mut Trace, s: &mut Src) {
    type P<const N: usize, const M: usize> = Dim<N, M>;
    let k = sc.get("k").u();
    let shapes: Vec<&str> = sc.get("shapes").a().iter().map(|x| x.s()).collect();
    let polys = |s: &mut Src, k: usize| -> Vec<Poly<F>> { (0..k).map(|i| s.poly(shapes[i % shapes.len()])).collect() };
    let (a, b) = (polys(s, k), polys(s, k));
    let ch: Vec<F> = sc.get("ch").a().iter().map(|x| special(x.s(), s)).collect();
    let (mu, nu, mu2, nu2) = (ch[0], ch[1], ch[2], ch[3]);
    let (s1, s2): (F, F) = (s.f(), s.f());

    let inner = fold_revdot::fold_inner::<_, F, P<N, M>>(&a, s1);
    let outer = fold_revdot::fold_outer::<_, F, P<N, M>>(inner.clone(), s2);
    let short = |v: &[Poly<F>]| -> Vec<Poly<F>> { v.iter().take(N).cloned().collect() };
    let e1 = fold_revdot::inner_error_terms::<F, R, P<N, M>>(&a, &b);
    let e2 = fold_revdot::outer_error_terms::<F, R, P<N, M>>(&short(&a), &short(&b));

    let src: Vec<F> = (0..k).map(|_| s.f()).collect();
    let two = drivers!(F, |dr| two_layer::<_, P<N, M>>(dr, &src, s1, s2, &mut vec![]));
    let fi = FoldIn { mu, nu, errs: (0..M * M - M).map(|_| s.f()).collect(), kys: (0..M).map(|_| s.f()).collect() };
    let fo = FoldIn { mu, nu, errs: (0..N * N - N).map(|_| s.f()).collect(), kys: (0..N).map(|_| s.f()).collect() };
    let ci = drivers!(F, |dr| claim_fold::<_, P<N, M>>(dr, false, &fi, &mut vec![]));
    let co = drivers!(F, |dr| claim_fold::<_, P<N, M>>(dr, true, &fo, &mut vec![]));

    // The whole reduction as prover and verifier do it.
    let whole = if bool::from(mu.is_zero()) || bool::from(mu2.is_zero()) {
        J::A(vec![])
    } else {
        let (i1, n1, i2, n2) = (mu.invert().unwrap(), mu * nu, mu2.invert().unwrap(), mu2 * nu2);
        let (la, lb) = (fold_revdot::fold_inner::<_, F, P<N, M>>(&a, i1), fold_revdot::fold_inner::<_, F, P<N, M>>(&b, n1));
        let eo = fold_revdot::outer_error_terms::<F, R, P<N, M>>(&la, &lb);
        let mut ks: Vec<F> = a.iter().zip(&b).map(|(x, y)| x.revdot(y)).collect();
        ks.resize(N * M, F::ZERO);
        let mut dr = Emulator::execute();
        let mut col = vec![];
        for g in 0..N {
            let i = FoldIn { mu, nu, errs: e1[g].iter().copied().collect(), kys: ks[g * M..(g + 1) * M].to_vec() };
            col.push(*claim_fold::<_, P<N, M>>(&mut dr, false, &i, &mut vec![]).expect("fold").value().take());
        }
        let i = FoldIn { mu: mu2, nu: nu2, errs: eo.iter().copied().collect(), kys: col.clone() };
        let c = *claim_fold::<_, P<N, M>>(&mut dr, true, &i, &mut vec![]).expect("fold").value().take();
        let fa = fold_revdot::fold_outer::<_, F, P<N, M>>(la, i2);
        let fb = fold_revdot::fold_outer::<_, F, P<N, M>>(lb, n2);
        J::A(vec![jo! {"ks" => fl(ks), "col" => fl(col), "eo" => fl(eo.iter().copied()), "c" => j(c), "rd" => j(fa.revdot(&fb))}])
    };
    // One claim more than there is room for.
    let over: Vec<Poly<F>> = polys(s, N * M + 1);
    let refused = catch(|| fold_revdot::fold_inner::<_, F, P<N, M>>(&over, s1)).is_err()
        && catch(|| fold_revdot::inner_error_terms::<F, R, P<N, M>>(&over, &over)).is_err();
    t.emit(jo! {
        "kind" => "fold", "n" => N, "m" => M, "k" => k,
        "a" => J::A(a.iter().map(dense).collect()), "b" => J::A(b.iter().map(dense).collect()),
        "mu" => j(mu), "nu" => j(nu), "mu2" => j(mu2), "nu2" => j(nu2), "s1" => j(s1), "s2" => j(s2),
        "inner" => J::A(inner.iter().map(dense).collect()), "outer" => dense(&outer),
        "e1" => J::A(e1.iter().map(|g| fl(g.iter().copied())).collect()), "e2" => fl(e2.iter().copied()),
        "src" => fl(src), "two" => two,
        "fi" => jo! {"e" => fl(fi.errs.clone()), "k" => fl(fi.kys.clone())}, "ci" => ci,
        "fo" => jo! {"e" => fl(fo.errs.clone()), "k" => fl(fo.kys.clone())}, "co" => co,
        "whole" => whole, "refused" => refused,
    });
}

/// Constraint systems of the in-circuit folds.
fn circuits<F: PrimeField + Into<J>, const N: usize, const M: usize>(sys: &mut Trace, runs: &mut Trace, s: &mut Src, limit: usize) {
    fn claim<'dr, D: Driver<'dr, Wire = usize>>(o: &str, k: J, ins: &[Element<'dr, D>], r: &Element<'dr, D>) -> Vec<Claim<usize, D::F>> {
        let mut cl: Vec<Claim<usize, D::F>> = ins.iter().map(|e| Claim { o: "alloc".into(), k: J::N(0), a: vec![], r: vec![*e.wire()], v: None }).collect();
        cl.push(Claim { o: o.into(), k, a: ins.iter().map(|e| vec![*e.wire()]).collect(), r: vec![*r.wire()], v: None });
        cl
    }
    for what in 0..2 {
        let (o, k) = if what == 0 { ("claimfold", J::N(M as i64)) } else { ("twolayer", J::A(vec![J::N(N as i64), J::N(M as i64)])) };
        let n_in = if what == 0 { 2 + M * M } else { 2 + N * M };
        fn run<'dr, D: Driver<'dr>, const N: usize, const M: usize>(dr: &mut D, what: usize, v: &[D::F], w: &mut Vec<Element<'dr, D>>) -> Result<Element<'dr, D>>
        where
            D::F: PrimeField,
        {
            if what == 0 {
                let i = FoldIn { mu: v[0], nu: v[1], errs: v[2..2 + M * M - M].to_vec(), kys: v[2 + M * M - M..].to_vec() };
                claim_fold::<_, Dim<N, M>>(dr, false, &i, w)
            } else {
                two_layer::<_, Dim<N, M>>(dr, &v[2..], v[0], v[1], w)
            }
        }
        let mut blind = Rec::<F, Empty>::new();
        let mut ins = vec![];
        let r = run::<_, N, M>(&mut blind, what, &vec![F::ZERO; n_in], &mut ins).expect("fold");
        let cl = claim(o, k.clone(), &ins, &r);
        let j = system(&blind, &cl, true);
        let mut rec = j.clone();
        rec.set("prog", J::A(vec![]));
        rec.set("zeta", 0);
        rec.set("g", 0);
        rec.set("b", 0);
        let mut planned = rec.clone();
        planned.set("plan", plan(&blind, &cl));
        sys.emit(planned);
        let list: Vec<J> = (0..limit)
            .map(|_| {
                let v: Vec<F> = (0..n_in).map(|_| s.f()).collect();
                let mut dr = Rec::<F, Always<()>>::new();
                let mut ins = vec![];
                let r = run::<_, N, M>(&mut dr, what, &v, &mut ins);
                let mut sim = Simulator::<F>::new();
                let simok = run::<_, N, M>(&mut sim, what, &v, &mut vec![]).is_ok();
                let val = |e: &Element<'_, Rec<F, Always<()>>>| -> J { (*e.value().take()).into() };
                let mut vals: Vec<J> = ins.iter().map(|e| J::A(vec![val(e)])).collect();
                let (ok, same) = match &r {
                    Ok(r) => {
                        vals.push(J::A(vec![val(r)]));
                        (true, system(&dr, &claim(o, k.clone(), &ins, r), true) == j)
                    }
                    Err(_) => (false, true),
                };
                jo! {
                    "in" => J::A(ins.iter().map(|e| J::A(vec![val(e)])).collect()),
                    "same" => same, "at" => ins.len() + ok as usize, "ok" => ok, "sim" => simok,
                    "w" => J::A(dr.vals.iter().map(|v| (*v).into()).collect()),
                    "v" => J::A(vals),
                }
            })
            .collect();
        rec.set("runs", J::A(list));
        runs.emit(rec);
    }
}

// ---------------------------------------------------------------- order of claims
struct Names(usize);
impl Source for Names {
    type RxComponent = RxComponent;
    type Rx = String;
    type AppCircuitId = usize;
    fn rx(&self, c: RxComponent) -> impl Iterator<Item = String> {
        let n = match c {
            RxComponent::AbA => "AbA".into(),
            RxComponent::AbB => "AbB".into(),
            RxComponent::Rx(i) => format!("{i:?}"),
        };
        (1..=self.0).map(move |p| format!("{p}.{n}"))
    }
    fn app_circuits(&self) -> impl Iterator<Item = usize> {
        1..=self.0
    }
}
struct NestedNames(usize);
fn nested_name(c: nested::RxIndex) -> String {
    format!("{c:?}").replace(['(', ')'], "")
}
impl Source for NestedNames {
    type RxComponent = nested::RxIndex;
    type Rx = String;
    type AppCircuitId = ();
    fn rx(&self, c: nested::RxIndex) -> impl Iterator<Item = String> {
        (1..=self.0).map(move |p| format!("{p}.{}", nested_name(c)))
    }
    fn app_circuits(&self) -> impl Iterator<Item = ()> {
        std::iter::empty()
    }
}
#[derive(Default)]
struct Log(Vec<J>);
fn names(v: impl Iterator<Item = String>) -> J {
    J::A(v.map(J::S).collect())
}
impl native_claims::Processor<String, usize> for Log {
    fn raw_claim(&mut self, a: String, b: String) {
        self.0.push(jo! {"t" => "raw", "id" => "", "rx" => names([a, b].into_iter())});
    }
    fn circuit(&mut self, id: usize, rx: String) {
        self.0.push(jo! {"t" => "app", "id" => format!("{id}"), "rx" => names([rx].into_iter())});
    }
    fn internal_circuit(&mut self, id: InternalCircuitIndex, rxs: impl Iterator<Item = String>) {
        self.0.push(jo! {"t" => "circuit", "id" => format!("{id:?}"), "rx" => names(rxs)});
    }
    fn bonding(&mut self, id: InternalCircuitIndex, rxs: impl Iterator<Item = String>) -> Result<()> {
        self.0.push(jo! {"t" => "bonding", "id" => format!("{id:?}"), "rx" => names(rxs)});
        Ok(())
    }
}
impl nested_claims::Processor<String> for Log {
    fn internal_circuit(&mut self, id: nested::InternalCircuitIndex, rxs: impl Iterator<Item = String>) {
        self.0.push(jo! {"t" => "circuit", "id" => format!("{id:?}").replace(['(', ')'], ""), "rx" => names(rxs)});
    }
    fn bonding(&mut self, id: nested::InternalCircuitIndex, rxs: impl Iterator<Item = String>) -> Result<()> {
        self.0.push(jo! {"t" => "bonding", "id" => format!("{id:?}"), "rx" => names(rxs)});
        Ok(())
    }
}
struct KyNames(usize);
impl native_claims::KySource for KyNames {
    type Ky = String;
    fn raw_c(&self) -> impl Iterator<Item = String> {
        (1..=self.0).map(|p| format!("{p}.c"))
    }
    fn application_ky(&self) -> impl Iterator<Item = String> {
        (1..=self.0).map(|p| format!("{p}.app"))
    }
    fn unified_bridge_ky(&self) -> impl Iterator<Item = String> {
        (1..=self.0).map(|p| format!("{p}.bridge"))
    }
    fn unified_ky(&self) -> impl Iterator<Item = String> + Clone {
        (1..=self.0).map(|p| format!("{p}.unified"))
    }
    fn zero(&self) -> String {
        "0".into()
    }
}
impl nested_claims::KySource for KyNames {
    type Ky = String;
    fn one(&self) -> String {
        "1".into()
    }
    fn zero(&self) -> String {
        "0".into()
    }
}

fn order(t: &mut Trace) {
    for p in 1..=3 {
        let mut log = Log::default();
        native_claims::build(&Names(p), &mut log).expect("claims");
        let n = log.0.len();
        let src = KyNames(p);
        let mut ky: Vec<J> = native_claims::ky_values(&src).take(n + 5).map(J::S).collect();
        if p == 2 {
            // The source used for two children gives the same order.
            let dr = &mut Emulator::<ragu_core::drivers::emulator::Wireless<Always<()>, vh::tiny::F97>>::wireless();
            let mut e = |v: u64| Element::constant(dr, vh::tiny::F97::from(v));
            let two = native_claims::TwoProofKySource {
                left_raw_c: e(1), right_raw_c: e(2), left_app: e(3), right_app: e(4),
                left_bridge: e(5), right_bridge: e(6), left_unified: e(7), right_unified: e(8), zero: e(0),
            };
            let names = ["0", "1.c", "2.c", "1.app", "2.app", "1.bridge", "2.bridge", "1.unified", "2.unified"];
            let v: Vec<J> = native_claims::ky_values(&two).take(n + 5).map(|x| J::S(names[x.value().take().v() as usize].into())).collect();
            if v != ky {
                ky = v;
            }
        }
        t.emit(jo! {
            "kind" => "order", "side" => "native", "p" => p, "claims" => J::A(log.0), "ky" => J::A(ky),
            "ids" => J::A(InternalCircuitIndex::ALL.iter().map(|i| J::A(vec![format!("{i:?}").into(), idx(i.circuit_index())])).collect()),
            "rx" => J::A(RxIndex::ALL.iter().map(|i| format!("{i:?}").into()).collect()),
            "room" => <native::RevdotParameters as Parameters>::NumGroups::len() * <native::RevdotParameters as Parameters>::GroupSize::len(),
        });
        let mut log = Log::default();
        nested_claims::build(&NestedNames(p), &mut log).expect("claims");
        let n = log.0.len();
        t.emit(jo! {
            "kind" => "order", "side" => "nested", "p" => p, "claims" => J::A(log.0),
            "ky" => J::A(nested_claims::ky_values(&src).take(n + 5).map(J::S).collect()),
            "ids" => J::A(nested::InternalCircuitIndex::ALL.iter().map(|i| J::A(vec![format!("{i:?}").replace(['(', ')'], "").into(), idx(i.circuit_index())])).collect()),
            "rx" => J::A(nested::RxIndex::ALL.iter().map(|i| nested_name(*i).into()).collect()),
            "room" => 0,
        });
    }
}
/// The position of a circuit index, told by its point of the domain.
fn idx(i: CircuitIndex) -> J {
    let n = (0..64).find(|k| CircuitIndex::new(*k) == i);
    J::N(n.map_or(-1, |k| k as i64))
}

// ---------------------------------------------------------------- the polynomials of the claims
#[derive(Clone)]
struct Dummy(usize);
impl<F: Field> Circuit<F> for Dummy {
    type Instance<'s> = F;
    type Witness<'s> = F;
    type Output = Kind![F; Element<'_, _>];
    type Aux<'s> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, i: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, i)
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, w: DriverValue<D, F>) -> Result<WithAux<Bound<'dr, D, Self::Output>, DriverValue<D, ()>>> {
        let mut e = Element::alloc(dr, w)?;
        for i in 0..self.0 % 6 + 1 {
            e = if (self.0 >> (i % 3)) & 1 == 1 { e.square(dr)? } else { let d = e.double(dr); e.mul(dr, &d)? };
        }
        Ok(WithAux::new(e, D::unit()))
    }
}

struct Polys<'a, F: PrimeField>(&'a [Vec<Poly<F>>], &'a [CircuitIndex]);
impl<'a, F: PrimeField> Source for Polys<'a, F> {
    type RxComponent = RxComponent;
    type Rx = &'a Poly<F>;
    type AppCircuitId = CircuitIndex;
    fn rx(&self, c: RxComponent) -> impl Iterator<Item = &'a Poly<F>> {
        let i = match c {
            RxComponent::AbA => 0,
            RxComponent::AbB => 1,
            RxComponent::Rx(i) => 2 + RxIndex::ALL.iter().position(|x| *x == i).unwrap(),
        };
        self.0.iter().map(move |v| &v[i])
    }
    fn app_circuits(&self) -> impl Iterator<Item = CircuitIndex> {
        self.1.iter().copied()
    }
}
struct NestedPolys<'a, F: PrimeField>(&'a [Vec<Poly<F>>]);
impl<'a, F: PrimeField> Source for NestedPolys<'a, F> {
    type RxComponent = nested::RxIndex;
    type Rx = &'a Poly<F>;
    type AppCircuitId = ();
    fn rx(&self, c: nested::RxIndex) -> impl Iterator<Item = &'a Poly<F>> {
        let i = nested::RxIndex::ALL.iter().position(|x| nested_name(*x) == nested_name(c)).unwrap();
        self.0.iter().map(move |v| &v[i])
    }
    fn app_circuits(&self) -> impl Iterator<Item = ()> {
        std::iter::empty()
    }
}

fn built<F: PrimeField + FromUniformBytes<64> + Into<J>>(t: &mut Trace, s: &mut Src, p: usize) {
    let total = nested::InternalCircuitIndex::ALL.len().max(InternalCircuitIndex::ALL.len() + 3);
    let reg: Registry<'_, F, R> = {
        let mut b = RegistryBuilder::<F, R>::new();
        for i in 0..total {
            b = b.register_internal_circuit(Dummy(i)).expect("register");
        }
        b.finalize().expect("finalize")
    };
    let (y, z): (F, F) = (s.f(), s.f());
    let sys: Vec<J> = (0..total).map(|i| dense(&reg.circuit_y(CircuitIndex::new(i), y))).collect();
    let shape = |s: &mut Src| if s.0.chance(1, 3) { "full" } else { "some" };
    for side in ["native", "nested"] {
        let n = if side == "native" { 2 + RxIndex::ALL.len() } else { nested::RxIndex::ALL.len() };
        let rx: Vec<Vec<Poly<F>>> = (0..p).map(|_| (0..n).map(|_| { let k = shape(s); s.poly(k) }).collect()).collect();
        let ids: Vec<usize> = (0..p).map(|_| s.0.below(total)).collect();
        let at: Vec<CircuitIndex> = ids.iter().map(|i| CircuitIndex::new(*i)).collect();
        let mut b = Builder::<Cow<'_, Poly<F>>, F, R>::new(&reg, y, z);
        if side == "native" {
            native_claims::build(&Polys(&rx, &at), &mut b).expect("claims");
        } else {
            nested_claims::build(&NestedPolys(&rx), &mut b).expect("claims");
        }
        t.emit(jo! {
            "kind" => "built", "side" => side, "p" => p, "y" => j(y), "z" => j(z), "sy" => J::A(sys.clone()),
            "app" => J::A(ids.iter().map(|i| J::N(*i as i64)).collect()),
            "names" => if side == "native" {
                J::A(["AbA".to_string(), "AbB".to_string()].into_iter().chain(RxIndex::ALL.iter().map(|i| format!("{i:?}"))).map(J::S).collect())
            } else {
                J::A(nested::RxIndex::ALL.iter().map(|i| J::S(nested_name(*i))).collect())
            },
            "polys" => J::A(rx.iter().map(|v| J::A(v.iter().map(dense).collect())).collect()),
            "a" => J::A(b.a.iter().map(|x| dense(x.as_ref())).collect()),
            "b" => J::A(b.b.iter().map(|x| dense(x.as_ref())).collect()),
        });
    }
}

fn field<F: PrimeField + FromUniformBytes<64> + Into<J>>(scen: &[J], out: &str, p: u64, rng: &mut Rng, scale: usize) {
    let mut t = Trace::create(&format!("{out}.fold"));
    let mut s = Src(rng, p);
    if p == 7 {
        let mut sys = Trace::create(&format!("{out}.sys"));
        let mut runs = Trace::create(&format!("{out}.runs"));
        circuits::<F, 1, 1>(&mut sys, &mut runs, &mut s, 60);
        circuits::<F, 2, 1>(&mut sys, &mut runs, &mut s, 60);
        circuits::<F, 1, 2>(&mut sys, &mut runs, &mut s, 60);
        circuits::<F, 2, 2>(&mut sys, &mut runs, &mut s, 200);
        return;
    }
    if p == 97 {
        for n in 1..=3 {
            for _ in 0..scale {
                built::<F>(&mut t, &mut s, n);
            }
        }
        order(&mut t);
    }
    for sc in scen {
        for _ in 0..scale {
            match (sc.get("n").u(), sc.get("m").u()) {
                (1, 1) => arrangement::<F, 1, 1>(sc, &mut t, &mut s),
                (1, 2) => arrangement::<F, 1, 2>(sc, &mut t, &mut s),
                (2, 1) => arrangement::<F, 2, 1>(sc, &mut t, &mut s),
                (2, 2) => arrangement::<F, 2, 2>(sc, &mut t, &mut s),
                (1, 4) => arrangement::<F, 1, 4>(sc, &mut t, &mut s),
                (4, 1) => arrangement::<F, 4, 1>(sc, &mut t, &mut s),
                (2, 3) => arrangement::<F, 2, 3>(sc, &mut t, &mut s),
                (3, 2) => arrangement::<F, 3, 2>(sc, &mut t, &mut s),
                (3, 3) => arrangement::<F, 3, 3>(sc, &mut t, &mut s),
                (4, 3) => arrangement::<F, 4, 3>(sc, &mut t, &mut s),
                (5, 4) => arrangement::<F, 5, 4>(sc, &mut t, &mut s),
                (2, 8) => arrangement::<F, 2, 8>(sc, &mut t, &mut s),
                (8, 2) => arrangement::<F, 8, 2>(sc, &mut t, &mut s),
                (1, 9) => arrangement::<F, 1, 9>(sc, &mut t, &mut s),
                (9, 1) => arrangement::<F, 9, 1>(sc, &mut t, &mut s),
                (6, 5) => arrangement::<F, 6, 5>(sc, &mut t, &mut s),
                d => panic!("dimensions {d:?}"),
            }
        }
    }
}

pub fn main(scen: &[J], f: &str, out: &str, seed: u64, scale: usize) {
    let mut rng = Rng::new(seed * 7919 + f.len() as u64);
    match f {
        "7" => field::<vh::tiny::F7>(scen, out, 7, &mut rng, scale),
        "13" => field::<vh::tiny::F13>(scen, out, 13, &mut rng, scale),
        "97" => field::<vh::tiny::F97>(scen, out, 97, &mut rng, scale),
        f => panic!("field {f}"),
    }
}

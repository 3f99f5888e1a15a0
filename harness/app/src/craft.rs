//! Proofs that fit at a point the prover knew beforehand, and nowhere else.
use super::nest;
use super::steps::*;
use super::{Flat, Item, recommit, verify};
use ff::{Field, PrimeField};
use ragu_circuits::polynomials::{Rank, sparse};
use ragu_circuits::registry::{CircuitIndex, Registry};
use ragu_core::Result;
use ragu_core::drivers::emulator::Emulator;
use ragu_core::maybe::Maybe;
use ragu_pasta::Pasta;
use ragu_pcd::Proof;
use ragu_pcd::verif::{
    self, Slot, claims,
    native::{
        self, InternalCircuitIndex, RxComponent, RxIndex,
        claims::{KySource, Processor},
        stages::preamble::ProofInputs,
    },
};
use ragu_primitives::Element;
use rand::{RngExt, SeedableRng, rngs::StdRng};
use std::borrow::Cow;
use std::collections::BTreeMap;
use vh::{J, catch, jo};

type P = Proof<Pasta, R>;
type Poly<T> = sparse::Polynomial<T, R>;
type Polys<T> = BTreeMap<String, Poly<T>>;

fn rx_name(id: RxIndex) -> &'static str {
    match id {
        RxIndex::Application => "application",
        RxIndex::Hashes1 => "circuits.hashes_1",
        RxIndex::Hashes2 => "circuits.hashes_2",
        RxIndex::InnerCollapse => "circuits.inner_collapse",
        RxIndex::OuterCollapse => "circuits.outer_collapse",
        RxIndex::ComputeV => "circuits.compute_v",
        RxIndex::Preamble => "preamble",
        RxIndex::InnerError => "inner_error",
        RxIndex::OuterError => "outer_error",
        RxIndex::Query => "query",
        RxIndex::Eval => "eval",
    }
}
struct Source<'a>(&'a Polys<F>, CircuitIndex);
impl<'a> claims::Source for Source<'a> {
    type RxComponent = RxComponent;
    type Rx = &'a Poly<F>;
    type AppCircuitId = CircuitIndex;
    fn rx(&self, c: RxComponent) -> impl Iterator<Item = &'a Poly<F>> {
        let n = match c {
            RxComponent::AbA => "ab.a",
            RxComponent::AbB => "ab.b",
            RxComponent::Rx(id) => rx_name(id),
        };
        std::iter::once(&self.0[n])
    }
    fn app_circuits(&self) -> impl Iterator<Item = CircuitIndex> {
        std::iter::once(self.1)
    }
}
struct Named<'m, 'rx> {
    b: claims::Builder<'m, 'rx, Cow<'rx, Poly<F>>, F, R>,
    names: Vec<String>,
}
impl<'rx> Processor<&'rx Poly<F>, CircuitIndex> for Named<'_, 'rx> {
    fn raw_claim(&mut self, a: &'rx Poly<F>, b: &'rx Poly<F>) {
        self.names.push("raw".into());
        self.b.raw_claim(a, b);
    }
    fn circuit(&mut self, id: CircuitIndex, rx: &'rx Poly<F>) {
        self.names.push("application".into());
        self.b.circuit(id, rx);
    }
    fn internal_circuit(&mut self, id: InternalCircuitIndex, rxs: impl Iterator<Item = &'rx Poly<F>>) {
        self.names.push(format!("{id:?}"));
        self.b.internal_circuit(id, rxs);
    }
    fn bonding(&mut self, id: InternalCircuitIndex, rxs: impl Iterator<Item = &'rx Poly<F>>) -> Result<()> {
        self.names.push(format!("{id:?}"));
        self.b.bonding(id, rxs)
    }
}
struct Ky(F, F, F, F);
impl KySource for Ky {
    type Ky = F;
    fn raw_c(&self) -> impl Iterator<Item = F> {
        std::iter::once(self.0)
    }
    fn application_ky(&self) -> impl Iterator<Item = F> {
        std::iter::once(self.1)
    }
    fn unified_bridge_ky(&self) -> impl Iterator<Item = F> {
        std::iter::once(self.2)
    }
    fn unified_ky(&self) -> impl Iterator<Item = F> + Clone {
        std::iter::once(self.3)
    }
    fn zero(&self) -> F {
        F::ZERO
    }
}
type Off<T> = Vec<(String, T)>;
fn shown<H: Flat>(it: &Item, c: F, y: F) -> Result<Ky> {
    Emulator::emulate_wireless((&it.proof, H::data(&it.data), y), |dr, w| {
        let (p, d, y) = w.cast();
        let y = Element::alloc(dr, y)?;
        let i = ProofInputs::<_, Pasta, N>::alloc_for_verify::<R, H>(dr, p, d)?;
        let (u, b) = i.unified_ky_values(dr, &y)?;
        let a = i.application_ky(dr, &y)?;
        Ok(Ky(c, *a.value().take(), *b.value().take(), *u.value().take()))
    })
}
/// Adds to something that a proof shows, or is of.
fn show(it: &mut Item, name: &str, k: F) {
    let (n, i) = name.split_once('#').map(|(n, i)| (n, i.parse::<usize>().unwrap())).unwrap_or((name, 0));
    if n == "data" {
        it.data[i] += k;
        return;
    }
    let mut hit = false;
    for (m, s) in verif::components(&mut it.proof) {
        if m == n {
            hit = true;
            match s {
                Slot::Challenge(v) | Slot::Scalar(v) => *v += k,
                Slot::Header(h) => h[i] += k,
                _ => panic!("not a value: {n}"),
            }
        }
    }
    assert!(hit, "no value {n}");
}
/// By how much each claim is off, at a point.
fn native_off(reg: &Registry<'_, F, R>, it: &Item, polys: &Polys<F>, y: F, z: F) -> Result<Off<F>> {
    let mut proof = it.proof.clone();
    let (mut c, mut id) = (F::ZERO, CircuitIndex::new(0));
    for (n, s) in verif::components(&mut proof) {
        match s {
            Slot::Scalar(v) if n == "ab.c" => c = *v,
            Slot::CircuitId(i) => id = *i,
            _ => {}
        }
    }
    let ky = if it.ty == "pair" { shown::<Pair>(it, c, y)? } else { shown::<Num>(it, c, y)? };
    let mut named = Named { b: claims::Builder::new(reg, y, z), names: vec![] };
    native::claims::build(&Source(polys, id), &mut named)?;
    let mut ks = native::claims::ky_values(&ky);
    Ok(named.names.iter().zip(named.b.a.iter().zip(&named.b.b)).map(|(n, (a, b))| (n.clone(), a.revdot(b) - ks.next().unwrap())).collect())
}
fn native_polys(p: &P) -> Polys<F> {
    verif::components(&mut p.clone())
        .into_iter()
        .filter_map(|(n, s)| match s {
            Slot::Native(p) => Some((n.trim_end_matches(".rx").to_string(), p.clone())),
            _ => None,
        })
        .collect()
}
/// What is on the wires of a polynomial's gates.
fn wires<T: PrimeField>(p: &Poly<T>) -> Vec<[T; 4]> {
    let n = R::n();
    let v: Vec<T> = p.iter_coeffs().collect();
    let c = |i: usize| v.get(i).copied().unwrap_or(T::ZERO);
    (0..n).map(|g| [c(2 * n + g), c(2 * n - 1 - g), c(g), c(4 * n - 1 - g)]).collect()
}
/// A way to alter one polynomial: multiples of it may be added.
type Dir<T> = (String, Poly<T>);
/// Ways that leave every gate's product as it should be, on gates that are in use.
fn steady<T: PrimeField>(name: &str, p: &Poly<T>, rng: &mut StdRng, k: usize) -> Vec<Dir<T>> {
    let w = wires(p);
    let z = |x: &T| bool::from(x.is_zero());
    let held: Vec<usize> = (1..R::n()).filter(|g| z(&w[*g][0]) && z(&w[*g][2]) && !z(&w[*g][1])).collect();
    let full: Vec<usize> = (1..R::n()).filter(|g| !z(&w[*g][0]) && !z(&w[*g][1]) && z(&w[*g][3])).collect();
    let mut from = if full.len() > 1 { full } else { held };
    (0..k.min(from.len()))
        .map(|_| {
            let g = from.swap_remove(rng.random_range(0..from.len()));
            let mut d = nest::on_gate(g, 1, T::ONE);
            // The other factor goes with the product.
            d += &nest::on_gate(g, 2, w[g][0]);
            (name.to_string(), d)
        })
        .collect()
}
/// Ways that make a gate's product wrong, on gates that are not in use.
fn wrong<T: PrimeField>(name: &str, p: &Poly<T>, rng: &mut StdRng, k: usize) -> Vec<Dir<T>> {
    let w = wires(p);
    let last = (0..R::n()).rev().find(|g| w[*g].iter().any(|x| !bool::from(x.is_zero()))).unwrap_or(0);
    let free = R::n() - 1 - last;
    (0..k).filter(|_| free > 0).map(|_| (name.to_string(), nest::on_gate(last + 1 + rng.random_range(0..free), 2, T::ONE))).collect()
}
/// Multiples of so many vectors, not all zero, that come to zero.
fn relation<T: PrimeField>(rows: &[Vec<T>]) -> Option<Vec<T>> {
    // Columns are the vectors; eliminated until one depends on those before it.
    let m = rows.len();
    let n = rows.first()?.len();
    let mut basis: Vec<(usize, Vec<T>, Vec<T>)> = vec![];
    for (j, r) in rows.iter().enumerate() {
        let mut v = r.clone();
        let mut how = vec![T::ZERO; m];
        how[j] = T::ONE;
        for (p, b, h) in &basis {
            let f = v[*p];
            for i in 0..n {
                v[i] -= f * b[i];
            }
            for i in 0..m {
                how[i] -= f * h[i];
            }
        }
        match (0..n).find(|i| !bool::from(v[*i].is_zero())) {
            None => return Some(how),
            Some(p) => {
                let inv = v[p].invert().unwrap();
                for x in v.iter_mut().chain(how.iter_mut()) {
                    *x *= inv;
                }
                basis.push((p, v, how));
            }
        }
    }
    None
}
fn add<T: PrimeField>(polys: &mut Polys<T>, d: &Dir<T>, k: T) {
    let mut q = d.1.clone();
    q.scale(k);
    *polys.get_mut(&d.0).unwrap() += &q;
}
fn bad<T: PrimeField>(off: &Off<T>) -> Vec<String> {
    off.iter().filter(|(_, v)| !bool::from(v.is_zero())).map(|(n, _)| n.clone()).collect()
}
struct Crafted<T: PrimeField> {
    polys: Polys<T>,
    fits: bool,
    broken: Vec<String>,
}
/// Alters polynomials so that all claims hold at (y, z), for other z as well if `what` is "y", and so on.
fn craft<T: PrimeField>(
    polys: Polys<T>,
    off: &dyn Fn(&Polys<T>, T, T) -> Result<Off<T>>,
    what: &str,
    on: &[&str],
    point: T,
    rng: &mut StdRng,
) -> Result<Option<Crafted<T>>> {
    let (y, z) = match what {
        "y" => (point, T::random(&mut *rng)),
        _ => (T::random(&mut *rng), point),
    };
    let mut dirs: Vec<Dir<T>> = vec![];
    match what {
        "y" => dirs.extend(steady(on[0], &polys[on[0]], rng, 6)),
        "z" => dirs.extend(wrong(on[0], &polys[on[0]], rng, 4)),
        // On one gate of several, where it makes a difference to nothing but what they are folded in.
        "fold" => {
            let w = on.iter().map(|n| wires(&polys[*n])).collect::<Vec<_>>();
            let own = (1..R::n()).find(|g| w.iter().any(|w| w[*g].iter().any(|x| !bool::from(x.is_zero())))).unwrap_or(R::n());
            for _ in 0..24 {
                if own < 2 {
                    break;
                }
                let (g, wire) = (rng.random_range(1..own), 1 + 2 * rng.random_range(0..2i64));
                let d: Vec<Dir<T>> = on.iter().map(|n| (n.to_string(), nest::on_gate(g, wire, T::ONE))).collect();
                let (y, z) = (T::random(&mut *rng), T::random(&mut *rng));
                let mut all = polys.clone();
                add(&mut all, &d[0], T::ONE);
                let first = bad(&off(&all, y, z)?);
                let mut all = polys.clone();
                add(&mut all, &d[1], T::ONE);
                let second = bad(&off(&all, y, z)?);
                if first.len() == 1 && first == second {
                    dirs.extend(d);
                    break;
                }
            }
        }
        w => panic!("what {w}"),
    }
    let mut rows = vec![];
    for d in &dirs {
        let mut all = polys.clone();
        add(&mut all, d, T::ONE);
        rows.push(off(&all, y, z)?.into_iter().map(|x| x.1).collect::<Vec<T>>());
    }
    let Some(ks) = relation(&rows) else { return Ok(None) };
    let mut all = polys;
    let k = T::random(&mut *rng);
    for (d, x) in dirs.iter().zip(&ks) {
        add(&mut all, d, *x * k);
    }
    let (fy, fz) = match what {
        "y" => (point, T::random(&mut *rng)),
        _ => (T::random(&mut *rng), point),
    };
    let fits = bad(&off(&all, fy, fz)?).is_empty();
    let broken = bad(&off(&all, T::random(&mut *rng), T::random(&mut *rng))?);
    Ok(Some(Crafted { polys: all, fits, broken }))
}
fn put<T: PrimeField>(c: &Polys<T>, name: &str, q: &mut Poly<T>) -> bool {
    let n = name.trim_end_matches(".rx");
    let ch = wires(&c[n]) != wires(q);
    if ch {
        *q = c[n].clone();
    }
    ch
}
pub fn crafting(app: &App, nested: &Registry<'static, pasta_curves::Fq, R>, it: &Item, s: &J, seed: u64) -> J {
    let mut rng = StdRng::seed_from_u64(seed);
    let mut e = s.clone();
    e.set("kind", J::from("craft"));
    let on: Vec<&str> = s.get("on").a().iter().map(|x| x.s()).collect();
    let got = catch(|| {
        let mut item = it.clone();
        let mut p = it.proof.clone();
        // The points that are in the proof, or anyone's.
        let point = match s.get("point").s() {
            "zero" => F::ZERO,
            "one" => F::ONE,
            "two" => F::from(2),
            n => verif::components(&mut p)
                .into_iter()
                .find_map(|(m, s)| match s {
                    Slot::Challenge(v) | Slot::Scalar(v) if m == n => Some(*v),
                    _ => None,
                })
                .unwrap_or_else(|| panic!("point {n}")),
        };
        let mut changed = vec![];
        let (fits, broken);
        match s.get("what").s() {
            // The polynomial that is zero but at the point.
            "w" => {
                let k = F::random(&mut rng);
                for (n, slot) in verif::components(&mut p) {
                    if let (true, Slot::Native(q)) = (n.trim_end_matches(".rx") == on[0], slot) {
                        let before = q.eval(point);
                        *q += &Poly::from_coeffs(vec![-point * k, k]);
                        assert_eq!(before, q.eval(point));
                        changed.push(n);
                    }
                }
                (fits, broken) = (true, vec!["registry".to_string()]);
            }
            // Values that the proof shows.
            "shown" => {
                let reg = verif::registry(app);
                let ps = native_polys(&p);
                let mut rows = vec![];
                for n in &on {
                    let mut with = it.clone();
                    show(&mut with, n, F::ONE);
                    let z = F::random(&mut rng);
                    rows.push(native_off(reg, &with, &ps, point, z)?.into_iter().map(|x| x.1).collect::<Vec<F>>());
                }
                let Some(ks) = relation(&rows) else { return Ok(None) };
                let k = F::random(&mut rng);
                for (n, x) in on.iter().zip(&ks) {
                    if *x != F::ZERO {
                        show(&mut item, n, *x * k);
                        changed.push(n.to_string());
                    }
                }
                let (z, w) = (F::random(&mut rng), F::random(&mut rng));
                fits = bad(&native_off(reg, &item, &ps, point, z)?).is_empty();
                broken = bad(&native_off(reg, &item, &ps, w, z)?);
                p = item.proof.clone();
            }
            what => {
                if s.get("side").s() == "native" {
                    let reg = verif::registry(app);
                    let Some(c) = craft(native_polys(&p), &|ps, y, z| native_off(reg, it, ps, y, z), what, &on, point, &mut rng)? else {
                        return Ok(None);
                    };
                    for (n, slot) in verif::components(&mut p) {
                        if let Slot::Native(q) = slot
                            && put(&c.polys, &n, q)
                        {
                            changed.push(n);
                        }
                    }
                    (fits, broken) = (c.fits, c.broken);
                } else {
                    // The same point, as a number.
                    let point = pasta_curves::Fq::from_repr(point.to_repr()).unwrap_or(pasta_curves::Fq::ONE);
                    let Some(c) = craft(nest::polys(&p), &|ps, y, z| nest::off(nested, ps, y, z), what, &on, point, &mut rng)? else {
                        return Ok(None);
                    };
                    for (n, slot) in verif::components(&mut p) {
                        if let Slot::Nested(q) = slot
                            && put(&c.polys, &n, q)
                        {
                            changed.push(n);
                        }
                    }
                    (fits, broken) = (c.fits, c.broken);
                }
            }
        }
        recommit(&mut p, &changed);
        item.proof = p;
        let v = verify(app, &mut rng, &item, item.ty);
        Ok::<_, ragu_core::Error>(Some((changed, fits, broken, v)))
    });
    let strs = |v: Vec<String>| J::A(v.iter().map(|s| J::from(s.as_str())).collect());
    e.set(
        "out",
        match got {
            Ok(Ok(Some((c, f, b, v)))) => {
                let mut o = jo! {"changed" => strs(c), "fits" => f, "broken" => strs(b)};
                o.set("verified", v);
                o
            }
            Ok(Ok(None)) => jo! {"none" => true},
            Ok(Err(_)) => jo! {"err" => "error"},
            Err(m) => jo! {"err" => "panic", "why" => m.as_str()},
        },
    );
    e
}

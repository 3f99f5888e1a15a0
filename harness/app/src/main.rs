//! Histories of a whole application, and tampering with its proofs.
mod craft;
mod nest;
mod steps;
use ff::Field;
use group::Curve as _;
use pasta_curves::{Fp, Fq};
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::{Rank, sparse};
use ragu_circuits::registry::CircuitIndex;
use ragu_core::Result;
use ragu_pasta::{EpAffine, EqAffine, Pasta};
use ragu_pcd::header::Header;
use ragu_pcd::step::Step;
use ragu_pcd::verif::{self, Slot};
use ragu_pcd::{Pcd, Proof};
use rand::SeedableRng;
use rand::rngs::StdRng;
use std::sync::Mutex;
use steps::*;
use vh::{J, Trace, arg_or, arg_u64, catch, jo};

type P = Proof<Pasta, R>;

/// Proof-carrying data, with its type forgotten.
#[derive(Clone)]
pub struct Item {
    pub ty: &'static str,
    pub data: Vec<F>,
    pub proof: P,
}
pub trait Flat: Header<F> {
    const NAME: &'static str;
    fn flat(d: &Self::Data) -> Vec<F>;
    fn data(v: &[F]) -> Self::Data;
}
impl Flat for () {
    const NAME: &'static str = "unit";
    fn flat(_: &()) -> Vec<F> {
        vec![]
    }
    fn data(_: &[F]) {}
}
impl Flat for Num {
    const NAME: &'static str = "num";
    fn flat(d: &F) -> Vec<F> {
        vec![*d]
    }
    fn data(v: &[F]) -> F {
        v[0]
    }
}
impl Flat for Alt {
    const NAME: &'static str = "alt";
    fn flat(d: &F) -> Vec<F> {
        vec![*d]
    }
    fn data(v: &[F]) -> F {
        v[0]
    }
}
impl Flat for Pair {
    const NAME: &'static str = "pair";
    fn flat(d: &(F, F)) -> Vec<F> {
        vec![d.0, d.1]
    }
    fn data(v: &[F]) -> (F, F) {
        (v[0], v[1])
    }
}
impl Item {
    fn pcd<H: Flat>(&self) -> Pcd<Pasta, R, H> {
        self.proof.clone().carry::<H>(H::data(&self.data))
    }
    fn of<H: Flat>(p: Pcd<Pasta, R, H>) -> Item {
        let (proof, d) = verif::into_parts(p);
        Item { ty: H::NAME, data: H::flat(&d), proof }
    }
}
fn num(f: &F) -> J {
    use ff::PrimeField;
    let r = f.to_repr();
    let b: &[u8] = r.as_ref();
    if b[4..].iter().all(|x| *x == 0) && b[3] < 128 { J::N(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as i64) } else { J::N(-1) }
}
fn nums(v: &[F]) -> J {
    J::A(v.iter().map(num).collect())
}
fn outcome<T>(r: std::result::Result<Result<T>, String>, f: impl FnOnce(T) -> J) -> J {
    match r {
        Ok(Ok(t)) => f(t),
        Ok(Err(_)) => jo! {"err" => "error"},
        Err(_) => jo! {"err" => "panic"},
    }
}

fn fuse<S: Step<Pasta, Aux<'static> = ()>, const M: usize>(
    app: &App<M>,
    rng: &mut StdRng,
    s: S,
    w: S::Witness<'static>,
    l: &Item,
    r: &Item,
) -> std::result::Result<Result<Item>, String>
where
    S::Left: Flat,
    S::Right: Flat,
    S::Output: Flat,
{
    catch(|| app.fuse(rng, s, w, l.pcd::<S::Left>(), r.pcd::<S::Right>()).map(|(p, _)| Item::of(p)))
}
fn verify<const M: usize>(app: &App<M>, rng: &mut StdRng, it: &Item, ty: &str) -> J {
    let r = catch(|| match ty {
        "unit" => app.verify(&it.pcd::<()>(), rng),
        "num" => app.verify(&it.pcd::<Num>(), rng),
        "alt" => app.verify(&it.pcd::<Alt>(), rng),
        "pair" => app.verify(&it.pcd::<Pair>(), rng),
        x => panic!("type {x}"),
    });
    outcome(r, |b| jo! {"verdict" => b})
}
fn rerandomize<const M: usize>(app: &App<M>, rng: &mut StdRng, it: &Item) -> std::result::Result<Result<Item>, String> {
    catch(|| match it.ty {
        "unit" => app.rerandomize(it.pcd::<()>(), rng).map(Item::of),
        "num" => app.rerandomize(it.pcd::<Num>(), rng).map(Item::of),
        "pair" => app.rerandomize(it.pcd::<Pair>(), rng).map(Item::of),
        x => panic!("type {x}"),
    })
}
fn make<const M: usize>(
    app: &App<M>,
    rng: &mut StdRng,
    s: &str,
    w: F,
    l: Option<&Item>,
    r: Option<&Item>,
) -> std::result::Result<Result<Item>, String> {
    match (s, l, r) {
        ("leaf", None, None) => catch(|| app.seed(rng, Leaf, w).map(|(p, _)| Item::of(p))),
        ("nil", None, None) => catch(|| app.seed(rng, Nil, ()).map(|(p, _)| Item::of(p))),
        ("more", None, None) => catch(|| app.seed(rng, Extra::<7>, ()).map(|(p, _)| Item::of(p))),
        ("leaf", Some(l), Some(r)) => fuse(app, rng, Leaf, w, l, r),
        ("mix", Some(l), Some(r)) => fuse(app, rng, Mix, w, l, r),
        ("both", Some(l), Some(r)) => fuse(app, rng, Both, (), l, r),
        ("weigh", Some(l), Some(r)) => fuse(app, rng, Weigh, (), l, r),
        ("nil", Some(l), Some(r)) => fuse(app, rng, Nil, (), l, r),
        ("drop", Some(l), Some(r)) => fuse(app, rng, Drop, (), l, r),
        ("root", Some(l), Some(r)) => fuse(app, rng, Root, w, l, r),
        (s, _, _) => panic!("step {s}"),
    }
}
/// The commitments that are kept next to their polynomials: those that are not the commitment.
fn loose(it: &Item) -> J {
    let pasta = Pasta::baked();
    let mut p = it.proof.clone();
    let (mut nat, mut nes) = (std::collections::BTreeMap::new(), std::collections::BTreeMap::new());
    let mut bad = vec![];
    let mut n = 0;
    for (name, slot) in verif::components(&mut p) {
        match slot {
            Slot::Native(f) => {
                nat.insert(name.trim_end_matches(".rx").to_string(), f.commit_to_affine(Pasta::host_generators(pasta)));
            }
            Slot::Nested(f) => {
                nes.insert(name.trim_end_matches(".rx").to_string(), f.commit_to_affine(Pasta::nested_generators(pasta)));
            }
            Slot::HostPoint(c) => {
                n += 1;
                if nat[name.trim_end_matches(".commitment")] != *c {
                    bad.push(J::from(name.as_str()));
                }
            }
            Slot::NestedPoint(c) => {
                n += 1;
                if nes[name.trim_end_matches(".commitment")] != *c {
                    bad.push(J::from(name.as_str()));
                }
            }
            _ => {}
        }
    }
    jo! {"loose" => J::A(bad), "checked" => n as i64}
}

/// One history; `None` stands for an item that was refused.
fn history(s: &J, seed: u64) -> J {
    match s.get("size").n() {
        3 => history_of::<3>(s, seed),
        4 => history_of::<4>(s, seed),
        9 => history_of::<9>(s, seed),
        n => panic!("size {n}"),
    }
}
fn history_of<const M: usize>(s: &J, seed: u64) -> J {
    let extra = s.get("extra").n() as usize;
    let mut rng = StdRng::seed_from_u64(seed);
    let mut app = steps::sized::<M>("same", extra);
    let mut pool: Vec<Option<Item>> = vec![];
    let mut outs = vec![];
    let show = |it: &Item| jo! {"ty" => it.ty, "data" => nums(&it.data)};
    for op in s.get("ops").a() {
        let w = if op.has("w") { F::from(op.get("w").n() as u64) } else { F::ZERO };
        let at = |k: &str| op.get(k).n() as usize;
        let out = match op.get("o").s() {
            "seed" => {
                let r = make(&app, &mut rng, op.get("s").s(), w, None, None);
                pool.push(match &r {
                    Ok(Ok(i)) => Some(i.clone()),
                    _ => None,
                });
                outcome(r, |i| show(&i))
            }
            // The trivial proof itself, as an input.
            "nil" => {
                let it = Item { ty: "unit", data: vec![], proof: verif::trivial_proof(&app) };
                let o = show(&it);
                pool.push(Some(it));
                o
            }
            "fuse" => match (&pool[at("i")], &pool[at("j")]) {
                (Some(l), Some(r)) => {
                    let r = make(&app, &mut rng, op.get("s").s(), w, Some(l), Some(r));
                    pool.push(match &r {
                        Ok(Ok(i)) => Some(i.clone()),
                        _ => None,
                    });
                    outcome(r, |i| show(&i))
                }
                _ => {
                    pool.push(None);
                    jo! {"skip" => true}
                }
            },
            "rr" => match &pool[at("i")] {
                Some(i) => {
                    let r = rerandomize(&app, &mut rng, i);
                    pool.push(match &r {
                        Ok(Ok(i)) => Some(i.clone()),
                        _ => None,
                    });
                    outcome(r, |i| show(&i))
                }
                None => {
                    pool.push(None);
                    jo! {"skip" => true}
                }
            },
            // Under what data and type it is presented, to which application.
            "verify" => match &pool[at("i")] {
                Some(i) => {
                    let mut j = i.clone();
                    for (d, x) in j.data.iter_mut().zip(op.get("add").a()) {
                        *d += F::from(x.n() as u64);
                    }
                    match (op.get("ty").s(), j.data.len()) {
                        ("num" | "alt", 0) => j.data = vec![F::ZERO],
                        ("pair", n) if n < 2 => j.data.resize(2, F::ZERO),
                        _ => {}
                    }
                    match op.get("in").s() {
                        "same" => verify(&app, &mut rng, &j, op.get("ty").s()),
                        "longer" => verify(&steps::sized::<5>("same", extra), &mut rng, &j, op.get("ty").s()),
                        k => verify(&steps::sized::<M>(k, extra), &mut rng, &j, op.get("ty").s()),
                    }
                }
                None => jo! {"skip" => true},
            },
            "loose" => match &pool[at("i")] {
                Some(i) => loose(i),
                None => jo! {"skip" => true},
            },
            "fresh" => {
                app = steps::sized::<M>("same", extra);
                jo! {"done" => true}
            }
            o => panic!("operation {o}"),
        };
        outs.push(out);
    }
    jo! {"ops" => s.get("ops").clone(), "size" => s.get("size").clone(), "extra" => s.get("extra").clone(), "outs" => J::A(outs)}
}

// ------------------------------------------------------------------ tampering
fn change_poly<T: ff::PrimeField>(p: &mut sparse::Polynomial<T, R>, how: &str, at: usize, other: Option<&sparse::Polynomial<T, R>>) -> bool {
    let before: Vec<T> = p.iter_coeffs().collect();
    match how {
        "coeff" => {
            let mut v = vec![T::ZERO; R::num_coeffs()];
            // On a gate with nothing on its wires, what is not a product.
            let n = R::n();
            let i = at % R::num_coeffs();
            let g = [i, 2 * n - 1 - i.min(2 * n - 1), i.max(2 * n) - 2 * n, 4 * n - 1 - i][i / n];
            let idle = [2 * n + g, 2 * n - 1 - g, g, 4 * n - 1 - g].iter().all(|&i| before.get(i).is_none_or(|c| bool::from(c.is_zero())));
            v[if idle { g } else { i }] = T::ONE;
            p.add_assign(&sparse::Polynomial::from_coeffs(v));
        }
        "double" => p.scale(T::ONE + T::ONE),
        "zero" => *p = sparse::Polynomial::new(),
        "swap" => *p = other.unwrap().clone(),
        // The first wire of the last gate that has nothing on its wires.
        "idle" => {
            let n = R::n();
            let c = |i: usize| before.get(i).copied().unwrap_or(T::ZERO);
            let g = (0..n).rev().find(|g| [2 * n + g, 2 * n - 1 - g, *g, 4 * n - 1 - g].iter().all(|&i| bool::from(c(i).is_zero())));
            if let Some(g) = g {
                let mut v = vec![T::ZERO; R::num_coeffs()];
                v[2 * n + g] = T::from(3 + at as u64);
                p.add_assign(&sparse::Polynomial::from_coeffs(v));
            }
        }
        "scale" => p.scale(T::ONE + T::ONE),
        "unscale" => p.scale((T::ONE + T::ONE).invert().unwrap()),
        x => panic!("how {x}"),
    }
    let after: Vec<T> = p.iter_coeffs().collect();
    let n = before.len().max(after.len());
    (0..n).any(|i| before.get(i).copied().unwrap_or(T::ZERO) != after.get(i).copied().unwrap_or(T::ZERO))
}
fn change_field(f: &mut F, how: &str, other: Option<&F>) -> bool {
    let before = *f;
    match how {
        "coeff" => *f += F::ONE,
        "double" => *f = f.double(),
        "zero" => *f = F::ZERO,
        "swap" => *f = *other.unwrap(),
        x => panic!("how {x}"),
    }
    before != *f
}
macro_rules! change_point {
    ($p:expr, $how:expr, $other:expr, $t:ty) => {{
        let p: &mut $t = $p;
        let before = *p;
        use group::prime::PrimeCurveAffine;
        match $how {
            "coeff" => *p = (p.to_curve() + <$t>::generator()).to_affine(),
            "double" => *p = (p.to_curve() + *p).to_affine(),
            "zero" => *p = <$t>::identity(),
            "swap" => *p = *$other.unwrap(),
            x => panic!("how {x}"),
        }
        before != *p
    }};
}
/// Alters a component; whether that made a difference.
fn tamper(p: &mut P, comp: &str, how: &str, at: usize, other: &mut P) -> bool {
    let slot = verif::components(p).into_iter().find(|(n, _)| n == comp).unwrap_or_else(|| panic!("component {comp}")).1;
    let with = verif::components(other).into_iter().find(|(n, _)| n == comp).unwrap().1;
    match (slot, with) {
        (Slot::Native(p), Slot::Native(o)) => change_poly::<Fp>(p, how, at, Some(o)),
        (Slot::Nested(p), Slot::Nested(o)) => change_poly::<Fq>(p, how, at, Some(o)),
        (Slot::HostPoint(p), Slot::HostPoint(o)) => change_point!(p, how, Some(o), EqAffine),
        (Slot::NestedPoint(p), Slot::NestedPoint(o)) => change_point!(p, how, Some(o), EpAffine),
        (Slot::Challenge(p), Slot::Challenge(o)) | (Slot::Scalar(p), Slot::Scalar(o)) => change_field(p, how, Some(o)),
        (Slot::Header(p), Slot::Header(o)) => match how {
            "coeff" => {
                let n = p.len();
                change_field(&mut p[at % n], how, None)
            }
            "double" => {
                p.push(F::ZERO);
                true
            }
            "zero" => {
                p.pop();
                true
            }
            "swap" => {
                let d = *p != *o;
                *p = o.clone();
                d
            }
            x => panic!("how {x}"),
        },
        (Slot::CircuitId(p), Slot::CircuitId(o)) => {
            let before = p.omega_j::<F>();
            *p = match how {
                "coeff" => verif::circuit_index(&ragu_pcd::step::Index::new(at % 7), 7).unwrap(),
                "double" => CircuitIndex::new(at % 64),
                "zero" => CircuitIndex::new(at % verif::NUM_INTERNAL),
                "swap" => *o,
                x => panic!("how {x}"),
            };
            before != p.omega_j::<F>()
        }
        _ => unreachable!(),
    }
}
/// The proofs to tamper with, in stages of what can be made at once.
fn bases(seed: u64) -> Vec<(&'static str, Item)> {
    let mk = |s: &'static str, w: u64, l: Option<Item>, r: Option<Item>, k: u64| {
        move || make(&app("same"), &mut StdRng::seed_from_u64(seed ^ (k << 32)), s, F::from(w), l.as_ref(), r.as_ref()).unwrap().unwrap()
    };
    let both = |f: Vec<Box<dyn FnOnce() -> Item + Send>>| -> Vec<Item> {
        std::thread::scope(|sc| {
            let hs: Vec<_> = f.into_iter().map(|f| sc.spawn(f)).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    };
    let a = both(vec![Box::new(mk("leaf", 3, None, None, 1)), Box::new(mk("leaf", 4, None, None, 2))]);
    let (l1, l2) = (a[0].clone(), a[1].clone());
    let b = both(vec![
        Box::new(mk("mix", 2, Some(l1.clone()), Some(l2.clone()), 3)),
        Box::new(mk("both", 0, Some(l2.clone()), Some(l1.clone()), 4)),
        Box::new(mk("mix", 5, Some(l2.clone()), Some(l1.clone()), 5)),
    ]);
    let (m, pr, m2) = (b[0].clone(), b[1].clone(), b[2].clone());
    let (m3, m4) = (m.clone(), m.clone());
    let c = both(vec![
        Box::new(mk("weigh", 0, Some(pr.clone()), Some(m.clone()), 6)),
        Box::new(move || rerandomize(&app("same"), &mut StdRng::seed_from_u64(seed ^ (7 << 32)), &m3).unwrap().unwrap()),
        Box::new(mk("mix", 1, Some(m4), Some(m2.clone()), 8)),
    ]);
    vec![("leaf", l1), ("leaf2", l2), ("mix", m), ("pair", pr), ("mix2", m2), ("weigh", c[0].clone()), ("rr", c[1].clone()), ("deep", c[2].clone())]
}
fn tampering(s: &J, seed: u64, bases: &[(&'static str, Item)]) -> J {
    let mut rng = StdRng::seed_from_u64(seed);
    let get = |n: &str| bases.iter().find(|(b, _)| *b == n).unwrap_or_else(|| panic!("base {n}")).1.clone();
    let app = app("same");
    let mut it = get(s.get("base").s());
    let mut other = get(s.get("with").s());
    // What is the same in both proofs anyway.
    let mut same = vec![];
    {
        let (mut a, mut b) = (it.proof.clone(), other.proof.clone());
        for ((n, x), (_, y)) in verif::components(&mut a).into_iter().zip(verif::components(&mut b)) {
            if equal(&x, &y) {
                same.push(n);
            }
        }
        if it.ty == other.ty && it.data == other.data {
            same.push("data".to_string());
        }
    }
    let mut changed = vec![];
    for c in s.get("comps").a() {
        if c.s() == "data" {
            assert_eq!(s.get("how").s(), "swap");
            assert_eq!(it.ty, other.ty);
            if it.data != other.data {
                it.data = other.data.clone();
                changed.push("data".to_string());
            }
        } else if tamper(
            &mut it.proof,
            c.s(),
            if s.get("how").s() == "scale" && c.s() == "ab.b.rx" { "unscale" } else { s.get("how").s() },
            s.get("at").n() as usize,
            &mut other.proof,
        ) {
            changed.push(c.s().to_string());
        }
    }
    // The commitments are made to fit again.
    if s.get("recommit").b() {
        changed.extend(recommit(&mut it.proof, &changed));
    }
    let good = get("leaf2");
    let then = |r: std::result::Result<Result<Item>, String>, rng: &mut StdRng| match r {
        Ok(Ok(i)) => verify(&app, rng, &i, i.ty),
        r => outcome(r, |_| unreachable!()),
    };
    let out = match s.get("then").s() {
        "verify" => verify(&app, &mut rng, &it, it.ty),
        "left" => {
            let r = if it.ty == "pair" {
                make(&app, &mut rng, "weigh", F::ONE, Some(&it), Some(&good))
            } else {
                make(&app, &mut rng, "mix", F::ONE, Some(&it), Some(&good))
            };
            then(r, &mut rng)
        }
        "right" => {
            let r = make(&app, &mut rng, "mix", F::ONE, Some(&good), Some(&it));
            then(r, &mut rng)
        }
        "rr" => {
            let r = rerandomize(&app, &mut rng, &it);
            then(r, &mut rng)
        }
        x => panic!("then {x}"),
    };
    let names = |v: Vec<String>| J::A(v.iter().map(|n| J::from(n.as_str())).collect());
    let mut e = s.clone();
    e.set("kind", J::from("tamper"));
    e.set("changed", names(changed));
    e.set("same", names(same));
    e.set("out", out);
    e
}
fn equal(x: &Slot<Pasta, R>, y: &Slot<Pasta, R>) -> bool {
    fn poly<T: Field>(a: &sparse::Polynomial<T, R>, b: &sparse::Polynomial<T, R>) -> bool {
        let (a, b): (Vec<T>, Vec<T>) = (a.iter_coeffs().collect(), b.iter_coeffs().collect());
        let n = a.len().max(b.len());
        (0..n).all(|i| a.get(i).copied().unwrap_or(T::ZERO) == b.get(i).copied().unwrap_or(T::ZERO))
    }
    match (x, y) {
        (Slot::Native(a), Slot::Native(b)) => poly(*a, *b),
        (Slot::Nested(a), Slot::Nested(b)) => poly(*a, *b),
        (Slot::HostPoint(a), Slot::HostPoint(b)) => a == b,
        (Slot::NestedPoint(a), Slot::NestedPoint(b)) => a == b,
        (Slot::Challenge(a), Slot::Challenge(b)) | (Slot::Scalar(a), Slot::Scalar(b)) => a == b,
        (Slot::Header(a), Slot::Header(b)) => a == b,
        (Slot::CircuitId(a), Slot::CircuitId(b)) => a.omega_j::<F>() == b.omega_j::<F>(),
        _ => unreachable!(),
    }
}
/// Commits again to the polynomials that were changed; which commitments changed.
fn recommit(p: &mut P, changed: &[String]) -> Vec<String> {
    let pasta = Pasta::baked();
    let mut out = vec![];
    let polys: Vec<&String> = changed.iter().filter(|n| n.ends_with(".rx")).collect();
    let (mut nat, mut nes) = (std::collections::BTreeMap::new(), std::collections::BTreeMap::new());
    for (name, slot) in verif::components(p) {
        if polys.contains(&&name) {
            match slot {
                Slot::Native(f) => {
                    nat.insert(name.replace(".rx", ".commitment"), f.commit_to_affine(Pasta::host_generators(pasta)));
                }
                Slot::Nested(f) => {
                    nes.insert(name.replace(".rx", ".commitment"), f.commit_to_affine(Pasta::nested_generators(pasta)));
                }
                _ => {}
            }
        }
    }
    for (name, slot) in verif::components(p) {
        match slot {
            Slot::HostPoint(c) => {
                if let Some(n) = nat.get(&name)
                    && n != c
                {
                    *c = *n;
                    out.push(name);
                }
            }
            Slot::NestedPoint(c) => {
                if let Some(n) = nes.get(&name)
                    && n != c
                {
                    *c = *n;
                    out.push(name);
                }
            }
            _ => {}
        }
    }
    out
}
fn names() -> Vec<String> {
    let mut p = verif::trivial_proof(&app("same"));
    verif::components(&mut p).into_iter().map(|(n, _)| n).collect()
}

fn main() {
    vh::quiet_panics();
    let mode = arg_or("mode", "history");
    let out = arg_or("out", "/dev/null");
    let seed = arg_u64("seed", 1);
    let mut t = Trace::create(&out);
    if mode == "names" {
        for n in names() {
            t.emit(jo! {"name" => n.as_str()});
        }
        return;
    }
    let scen = vh::read_nd(&arg_or("scenarios", ""));
    if mode == "nest" || mode == "craft" {
        let mk = |s: &'static str, w: u64, l: Option<&Item>, r: Option<&Item>, k: u64| {
            make(&app("same"), &mut StdRng::seed_from_u64(seed ^ (k << 32)), s, F::from(w), l, r).unwrap().unwrap()
        };
        let (a, b) = std::thread::scope(|sc| {
            let h = sc.spawn(|| mk("leaf", 4, None, None, 2));
            (mk("leaf", 3, None, None, 1), h.join().unwrap())
        });
        let base = [("mix", mk("mix", 2, Some(&a), Some(&b), 3)), ("pair", mk("both", 0, Some(&b), Some(&a), 4)), ("leaf", a)];
        let (reg, next, done) = (nest::registry(), Mutex::new(0usize), Mutex::new(vec![None; scen.len()]));
        std::thread::scope(|sc| {
            for _ in 0..arg_u64("threads", 8) {
                sc.spawn(|| {
                    let app = app("same");
                    loop {
                        let i = {
                            let mut n = next.lock().unwrap();
                            *n += 1;
                            *n - 1
                        };
                        if i >= scen.len() {
                            break;
                        }
                        let it = &base.iter().find(|b| b.0 == scen[i].get("base").s()).unwrap().1;
                        let v = |p: P, rng: StdRng| app.verify(&p.carry::<Num>(it.data[0]), rng);
                        let sd = seed.wrapping_mul(1_000_003) + i as u64;
                        let j =
                            if mode == "nest" { nest::nest(&reg, &it.proof, v, &scen[i], sd) } else { craft::crafting(&app, &reg, it, &scen[i], sd) };
                        done.lock().unwrap()[i] = Some(j);
                    }
                });
            }
        });
        if mode == "nest" {
            t.emit(jo! {"kind" => "size", "gates" => R::n() as i64});
        }
        for j in done.into_inner().unwrap() {
            t.emit(j.unwrap());
        }
        return;
    }
    let base = if mode == "tamper" { bases(seed) } else { vec![] };
    if mode == "tamper" {
        t.emit(jo! {"kind" => "names", "names" => J::A(names().iter().map(|n| J::from(n.as_str())).collect())});
    }
    let next = Mutex::new(0usize);
    let done: Mutex<Vec<Option<J>>> = Mutex::new(vec![None; scen.len()]);
    std::thread::scope(|sc| {
        for _ in 0..arg_u64("threads", 8) {
            sc.spawn(|| {
                loop {
                    let i = {
                        let mut n = next.lock().unwrap();
                        *n += 1;
                        *n - 1
                    };
                    if i >= scen.len() {
                        break;
                    }
                    let s = seed.wrapping_mul(1_000_003) + i as u64;
                    let mut j = if mode == "tamper" { tampering(&scen[i], s, &base) } else { history(&scen[i], s) };
                    if mode != "tamper" {
                        j.set("kind", J::from("history"));
                    }
                    done.lock().unwrap()[i] = Some(j);
                }
            });
        }
    });
    for j in done.into_inner().unwrap() {
        t.emit(j.unwrap());
    }
}

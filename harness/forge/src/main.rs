//! A prover who departs from the protocol, and the circuits that are to catch it.
#[path = "../../app/src/steps.rs"]
mod steps;
use ff::Field;
use group::Curve as _;
use group::prime::PrimeCurveAffine;
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::{Rank, sparse};
use ragu_circuits::registry::CircuitIndex;
use ragu_circuits::staging::StageExt;
use ragu_circuits::{CircuitExt, registry::Registry};
use ragu_core::Result;
use ragu_core::drivers::emulator::Emulator;
use ragu_core::maybe::Maybe;
use ragu_pasta::{EpAffine, Pasta};
use ragu_pcd::step::Step;
use ragu_pcd::verif::native::{
    self, InternalCircuitIndex, RevdotParameters, RxComponent, RxIndex,
    claims::{KySource, Processor},
    stages::preamble::{ProofInputs, Witness as PreambleWitness},
    unified,
};
use ragu_pcd::verif::{self, Forge, Forger, Slot, Witnesses, claims};
use ragu_pcd::{Pcd, Proof};
use ragu_primitives::{Element, GadgetExt as _};
use rand::SeedableRng;
use rand::rngs::StdRng;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use steps::*;
use vh::{J, Trace, arg_or, arg_u64, catch, jo};

type P = Proof<Pasta, R>;
type Poly = sparse::Polynomial<F, R>;

/// Inputs to a step, and the step's parameter.
#[derive(Clone)]
struct Inputs {
    step: &'static str,
    w: F,
    left: P,
    ldata: F,
    right: P,
    rdata: F,
}
fn fuse(app: &App, rng: &mut StdRng, i: &Inputs) -> Result<(P, F)> {
    fn go<S: Step<Pasta, Aux<'static> = (), Output = Num>>(
        app: &App,
        rng: &mut StdRng,
        s: S,
        w: S::Witness<'static>,
        l: Pcd<Pasta, R, S::Left>,
        r: Pcd<Pasta, R, S::Right>,
    ) -> Result<(P, F)> {
        Ok(verif::into_parts(app.fuse(rng, s, w, l, r)?.0))
    }
    let (l, r) = (i.left.clone(), i.right.clone());
    match i.step {
        "leaf" => go(app, rng, Leaf, i.w, l.carry(()), r.carry(())),
        "mix" => go(app, rng, Mix, i.w, l.carry(i.ldata), r.carry(i.rdata)),
        "root" => go(app, rng, Root, i.w, l.carry(()), r.carry(i.rdata)),
        "nil" => {
            let (p, ()) = verif::into_parts(app.fuse(rng, Nil, (), l.carry(()), r.carry(()))?.0);
            Ok((p, F::ZERO))
        }
        x => panic!("step {x}"),
    }
}
/// The steps whose proofs are forged: one from nothing, one that has two inputs, one that has one.
fn inputs(seed: u64) -> BTreeMap<&'static str, Inputs> {
    let app = app("same");
    let nil = verif::trivial_proof(&app);
    let (f, z) = (F::from, F::ZERO);
    let leaf = |w: u64| Inputs { step: "leaf", w: f(w), left: nil.clone(), ldata: z, right: nil.clone(), rdata: z };
    let all = |v: Vec<Inputs>| -> Vec<(P, F)> {
        std::thread::scope(|sc| {
            let hs: Vec<_> = v
                .into_iter()
                .enumerate()
                .map(|(k, i)| sc.spawn(move || fuse(&steps::app("same"), &mut StdRng::seed_from_u64(seed ^ ((k as u64 + 1) << 32)), &i).unwrap()))
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    };
    let a = all(vec![leaf(4), leaf(9), leaf(16), Inputs { step: "nil", ..leaf(0) }]);
    let mix = |l: &(P, F), r: &(P, F)| Inputs { step: "mix", w: f(3), left: l.0.clone(), ldata: l.1, right: r.0.clone(), rdata: r.1 };
    let b = all(vec![mix(&a[0], &a[1]), mix(&a[2], &a[1])]);
    BTreeMap::from([
        ("leaf", leaf(7)),
        ("mix", mix(&b[0], &b[1])),
        ("flat", mix(&a[1], &a[2])),
        ("root", Inputs { step: "root", w: f(3), left: a[3].0.clone(), ldata: z, right: a[1].0.clone(), rdata: a[1].1 }),
    ])
}

/// The polynomials that the claims are about.
struct Polys(BTreeMap<String, Poly>);
fn rx_name(id: RxIndex) -> &'static str {
    match id {
        RxIndex::Application => "application",
        RxIndex::Hashes1 => "circuits.hashes_1",
        RxIndex::Hashes2 => "circuits.hashes_2",
        RxIndex::InnerCollapse => "circuits.inner_collapse",
        RxIndex::OuterCollapse => "circuits.outer_collapse",
        RxIndex::ComputeV => "circuits.compute_v",
        RxIndex::Preamble => "preamble",
        RxIndex::InnerError => "inner_error",
        RxIndex::OuterError => "outer_error",
        RxIndex::Query => "query",
        RxIndex::Eval => "eval",
    }
}
struct Source<'a>(&'a Polys, CircuitIndex);
impl<'a> claims::Source for Source<'a> {
    type RxComponent = RxComponent;
    type Rx = &'a Poly;
    type AppCircuitId = CircuitIndex;
    fn rx(&self, c: RxComponent) -> impl Iterator<Item = &'a Poly> {
        let n = match c {
            RxComponent::AbA => "ab.a".to_string(),
            RxComponent::AbB => "ab.b".to_string(),
            RxComponent::Rx(id) => rx_name(id).to_string(),
        };
        std::iter::once(&self.0.0[&n])
    }
    fn app_circuits(&self) -> impl Iterator<Item = CircuitIndex> {
        std::iter::once(self.1)
    }
}
/// Builds the claims as the verifier does, and keeps what each is about.
struct Named<'m, 'rx> {
    b: claims::Builder<'m, 'rx, Cow<'rx, Poly>, F, R>,
    names: Vec<String>,
}
impl<'m, 'rx> Processor<&'rx Poly, CircuitIndex> for Named<'m, 'rx> {
    fn raw_claim(&mut self, a: &'rx Poly, b: &'rx Poly) {
        self.names.push("raw".into());
        self.b.raw_claim(a, b);
    }
    fn circuit(&mut self, id: CircuitIndex, rx: &'rx Poly) {
        self.names.push("application".into());
        self.b.circuit(id, rx);
    }
    fn internal_circuit(&mut self, id: InternalCircuitIndex, rxs: impl Iterator<Item = &'rx Poly>) {
        self.names.push(format!("{id:?}"));
        self.b.internal_circuit(id, rxs);
    }
    fn bonding(&mut self, id: InternalCircuitIndex, rxs: impl Iterator<Item = &'rx Poly>) -> Result<()> {
        self.names.push(format!("{id:?}"));
        self.b.bonding(id, rxs)
    }
}
struct Ky {
    c: F,
    app: F,
    bridge: F,
    unified: F,
}
impl KySource for Ky {
    type Ky = F;
    fn raw_c(&self) -> impl Iterator<Item = F> {
        std::iter::once(self.c)
    }
    fn application_ky(&self) -> impl Iterator<Item = F> {
        std::iter::once(self.app)
    }
    fn unified_bridge_ky(&self) -> impl Iterator<Item = F> {
        std::iter::once(self.bridge)
    }
    fn unified_ky(&self) -> impl Iterator<Item = F> + Clone {
        std::iter::once(self.unified)
    }
    fn zero(&self) -> F {
        F::ZERO
    }
}
/// The claims that do not hold.
fn broken(reg: &Registry<'_, F, R>, proof: &P, data: F, polys: &Polys, rng: &mut StdRng) -> Result<Vec<String>> {
    let (y, z) = (F::random(&mut *rng), F::random(&mut *rng));
    let mut proof = proof.clone();
    let (mut c, mut id) = (F::ZERO, CircuitIndex::new(0));
    for (n, s) in verif::components(&mut proof) {
        match s {
            Slot::Scalar(v) if n == "ab.c" => c = *v,
            Slot::CircuitId(i) => id = *i,
            _ => {}
        }
    }
    let ky = Emulator::emulate_wireless((&proof, data, y), |dr, w| {
        let (p, d, y) = w.cast();
        let y = Element::alloc(dr, y)?;
        let i = ProofInputs::<_, Pasta, N>::alloc_for_verify::<R, Num>(dr, p, d)?;
        let (u, b) = i.unified_ky_values(dr, &y)?;
        let a = i.application_ky(dr, &y)?;
        Ok(Ky { c, app: *a.value().take(), bridge: *b.value().take(), unified: *u.value().take() })
    })?;
    let mut named = Named { b: claims::Builder::new(reg, y, z), names: vec![] };
    native::claims::build(&Source(polys, id), &mut named)?;
    let mut ks = native::claims::ky_values(&ky);
    Ok(named
        .names
        .iter()
        .zip(named.b.a.iter().zip(&named.b.b))
        .filter_map(|(n, (a, b))| (a.revdot(b) != ks.next().unwrap()).then(|| n.clone()))
        .collect())
}
fn polys(p: &P) -> Polys {
    let mut p = p.clone();
    Polys(
        verif::components(&mut p)
            .into_iter()
            .filter_map(|(n, s)| match s {
                Slot::Native(p) => Some((n.trim_end_matches(".rx").to_string(), p.clone())),
                _ => None,
            })
            .collect(),
    )
}

/// What to do to a value.
#[derive(Clone)]
struct Alter {
    name: String,
    how: String,
    k: u64,
}
fn alters(s: &J) -> Vec<Alter> {
    s.get("alter").a().iter().map(|a| Alter { name: a.get("name").s().into(), how: a.get("how").s().into(), k: a.get("k").n() as u64 }).collect()
}
fn change(a: &Alter, slot: Slot<'_, Pasta, R>) {
    match slot {
        Slot::Challenge(v) | Slot::Scalar(v) => match a.how.as_str() {
            "one" => *v = if *v == F::ONE { F::ONE + F::ONE } else { F::ONE },
            "zero" if *v != F::ZERO => *v = F::ZERO,
            "minus" if *v != F::ZERO => *v = -*v,
            "sub" => *v -= F::from(a.k + 1),
            _ => *v += F::from(a.k + 1),
        },
        Slot::NestedPoint(p) if a.how == "minus" => *p = -*p,
        Slot::HostPoint(p) if a.how == "minus" => *p = -*p,
        Slot::NestedPoint(p) if a.how == "sub" => *p = (p.to_curve() - EpAffine::generator()).to_affine(),
        Slot::NestedPoint(p) => *p = (p.to_curve() + EpAffine::generator()).to_affine(),
        Slot::HostPoint(p) => *p = (p.to_curve() + ragu_pasta::EqAffine::generator()).to_affine(),
        // Everywhere.
        Slot::Native(p) if a.how == "full" => {
            let b = F::from(a.k + 1_000_003);
            *p += &Poly::from_coeffs((0..1u64 << R::RANK).map(|i| b.pow_vartime([i + 1])).collect());
        }
        Slot::Native(p) => {
            let n = (1usize << (R::RANK as usize)) as u64;
            let mut c = vec![F::ZERO; (a.k % n) as usize + 1];
            *c.last_mut().unwrap() = F::from(a.k + 1);
            *p += &Poly::from_coeffs(c);
        }
        Slot::Nested(p) => *p += &sparse::Polynomial::<ragu_pasta::Fq, R>::from_coeffs(vec![ragu_pasta::Fq::ZERO, ragu_pasta::Fq::from(a.k + 1)]),
        Slot::Header(h) => {
            let n = h.len() as u64;
            h[(a.k % n) as usize] += F::from(a.k + 1);
        }
        Slot::CircuitId(i) => {
            let b = i.omega_j::<F>();
            *i = match a.how.as_str() {
                "outside" => CircuitIndex::new(32 + (a.k as usize % 1000) * 2 + 1),
                _ => {
                    let k = a.k as usize % 7;
                    let at = |k: usize| verif::circuit_index(&ragu_pcd::step::Index::new(k), 7).unwrap();
                    if at(k).omega_j::<F>() == b { at((k + 1) % 7) } else { at(k) }
                }
            };
        }
        _ => panic!("no way to alter {}", a.name),
    }
}

/// An honest step: what its prover held.
struct Run {
    i: Inputs,
    seed: u64,
    proof: P,
    data: F,
    w: Witnesses<Pasta>,
    headers: (Vec<F>, Vec<F>),
}
fn copy(w: &Witnesses<Pasta>) -> Witnesses<Pasta> {
    use native::stages::*;
    let ky = |k: &outer_error::ChildKyValues<F>| outer_error::ChildKyValues {
        application: k.application,
        unified: k.unified,
        unified_bridge: k.unified_bridge,
    };
    let q = |c: &query::ChildEvaluationsWitness<F>| query::ChildEvaluationsWitness {
        rx: c.rx.clone(),
        a_poly_at_xz: c.a_poly_at_xz,
        b_poly_at_x: c.b_poly_at_x,
        child_registry_xy_at_current_w: c.child_registry_xy_at_current_w,
        current_registry_xy_at_child_circuit_id: c.current_registry_xy_at_child_circuit_id,
        current_registry_wy_at_child_x: c.current_registry_wy_at_child_x,
    };
    let e = |c: &eval::ChildEvaluationsWitness<F>| eval::ChildEvaluationsWitness {
        rx: c.rx.clone(),
        a_poly: c.a_poly,
        b_poly: c.b_poly,
        registry_xy_poly: c.registry_xy_poly,
        p_poly: c.p_poly,
    };
    let (o, c) = (&w.outer_error, &w.eval.current);
    Witnesses {
        outer_error: outer_error::Witness {
            error_terms: o.error_terms.clone(),
            collapsed: o.collapsed.clone(),
            ky: outer_error::KyValues { left: ky(&o.ky.left), right: ky(&o.ky.right) },
            sponge_state_elements: o.sponge_state_elements.clone(),
        },
        inner_error: inner_error::Witness { error_terms: w.inner_error.error_terms.clone() },
        query: query::Witness {
            fixed_registry: w.query.fixed_registry.clone(),
            registry_wxy: w.query.registry_wxy,
            left: q(&w.query.left),
            right: q(&w.query.right),
        },
        eval: eval::Witness {
            left: e(&w.eval.left),
            right: e(&w.eval.right),
            current: eval::CurrentStepWitness {
                registry_wx0: c.registry_wx0,
                registry_wx1: c.registry_wx1,
                registry_wy: c.registry_wy,
                a_poly: c.a_poly,
                b_poly: c.b_poly,
                registry_xy: c.registry_xy,
            },
        },
    }
}
fn run(app: &App, i: &Inputs, seed: u64) -> Run {
    let (mut proof, data) = fuse(app, &mut StdRng::seed_from_u64(seed), i).unwrap();
    let w = verif::take_witnesses::<Pasta>().unwrap();
    let mut headers = (vec![], vec![]);
    for (n, s) in verif::components(&mut proof) {
        match s {
            Slot::Header(h) if n == "application.left_header" => headers.0 = h.clone(),
            Slot::Header(h) if n == "application.right_header" => headers.1 = h.clone(),
            _ => {}
        }
    }
    Run { i: i.clone(), seed, proof, data, w, headers }
}
fn instance(p: &P) -> unified::Instance<Pasta> {
    let mut p = p.clone();
    let (mut e, mut c) = (BTreeMap::new(), BTreeMap::new());
    for (n, s) in verif::components(&mut p) {
        match s {
            Slot::Challenge(v) | Slot::Scalar(v) => {
                e.insert(n, *v);
            }
            Slot::NestedPoint(v) => {
                c.insert(n, *v);
            }
            _ => {}
        }
    }
    let (e, c) = (|n: &str| e[n], |n: &str| c[&format!("{n}.bridge.commitment")]);
    unified::Instance {
        bridge_preamble_commitment: c("preamble"),
        w: e("challenges.w"),
        bridge_s_prime_commitment: c("s_prime"),
        y: e("challenges.y"),
        z: e("challenges.z"),
        bridge_inner_error_commitment: c("inner_error"),
        mu: e("challenges.mu"),
        nu: e("challenges.nu"),
        bridge_outer_error_commitment: c("outer_error"),
        mu_prime: e("challenges.mu_prime"),
        nu_prime: e("challenges.nu_prime"),
        c: e("ab.c"),
        bridge_ab_commitment: c("ab"),
        x: e("challenges.x"),
        bridge_query_commitment: c("query"),
        alpha: e("challenges.alpha"),
        bridge_f_commitment: c("f"),
        u: e("challenges.u"),
        bridge_eval_commitment: c("eval"),
        pre_beta: e("challenges.pre_beta"),
        v: e("p.v"),
        coverage: Default::default(),
    }
}
/// A value, to be read or put elsewhere.
#[derive(Clone, Copy, PartialEq)]
enum Value {
    Scalar(F),
    Point(EpAffine),
}
/// What goes into the circuits of a step.
struct Held {
    left: P,
    right: P,
    cur: P,
    w: Witnesses<Pasta>,
}
type Visit<'v> = &'v mut dyn FnMut(&str, Slot<'_, Pasta, R>);
impl Held {
    /// What an honest prover held, but for what is done to it.
    fn new(r: &Run, visit: Visit<'_>) -> Self {
        let mut h = Held { left: r.i.left.clone(), right: r.i.right.clone(), cur: r.proof.clone(), w: copy(&r.w) };
        for (side, p) in [("left", &mut h.left), ("right", &mut h.right)] {
            for (n, s) in verif::components(p) {
                visit(&format!("{side}.{n}"), s);
            }
        }
        for (n, s) in verif::components(&mut h.cur) {
            visit(&n, s);
        }
        let w = &mut h.w;
        Forge::<Pasta, R>::each(&mut w.outer_error, visit);
        Forge::<Pasta, R>::each(&mut w.inner_error, visit);
        Forge::<Pasta, R>::each(&mut w.query, visit);
        Forge::<Pasta, R>::each(&mut w.eval, visit);
        h
    }
    fn preamble(&self, r: &Run, visit: Visit<'_>) -> Result<PreambleWitness<'_, Pasta, R, N>> {
        let mut pre = PreambleWitness::<Pasta, R, N>::new(&self.left, &self.right, &r.headers.0, &r.headers.1)?;
        Forge::<Pasta, R>::each(&mut pre, visit);
        Ok(pre)
    }
}
fn values(r: &Run) -> BTreeMap<String, Value> {
    let mut m = BTreeMap::new();
    let mut read = |n: &str, s: Slot<'_, Pasta, R>| {
        let v = match s {
            Slot::Challenge(v) | Slot::Scalar(v) => Value::Scalar(*v),
            Slot::NestedPoint(p) => Value::Point(*p),
            Slot::CircuitId(i) => Value::Scalar(i.omega_j()),
            _ => return,
        };
        m.insert(n.to_string(), v);
    };
    Held::new(r, &mut read).preamble(r, &mut read).unwrap();
    m
}
/// The circuits, run on values some of which are altered after the fact: which claims then fail.
/// Says which of the values to be exchanged are.
fn relation(app: &App, r: &Run, alter: &[Alter], stray: Option<&Stray>, rng: &mut StdRng) -> Result<(Vec<String>, Vec<String>)> {
    let (cur, ps, done) = circuits(app, r, alter, stray, rng)?;
    Ok((broken(verif::registry(app), &cur, r.data, &ps, rng)?, done))
}
/// What the proof is then, but for its polynomials, and those.
fn circuits(app: &App, r: &Run, alter: &[Alter], stray: Option<&Stray>, rng: &mut StdRng) -> Result<(P, Polys, Vec<String>)> {
    use native::circuits::*;
    use native::stages;
    type FP = RevdotParameters;
    let mut left_to_do: Vec<&Alter> = alter.iter().collect();
    let mut done = vec![];
    let other = |n: &str| &alter.iter().find(|b| b.name != n).unwrap().name;
    let honest = if alter.iter().any(|a| a.how == "swap") { values(r) } else { BTreeMap::new() };
    let mut visit = |n: &str, s: Slot<'_, Pasta, R>| {
        if let Some(k) = left_to_do.iter().position(|a| a.name == n) {
            let a = left_to_do.swap_remove(k);
            if a.how != "swap" {
                change(a, s);
            } else {
                match (s, honest[other(n)]) {
                    (Slot::Challenge(v) | Slot::Scalar(v), Value::Scalar(o)) => *v = o,
                    (Slot::NestedPoint(v), Value::Point(o)) => *v = o,
                    _ => panic!("no way to put {} for {n}", other(n)),
                }
                if honest[n] == honest[other(n)] {
                    return;
                }
            }
            done.push(n.to_string());
        }
    };
    let held = Held::new(r, &mut visit);
    let pre = held.preamble(r, &mut visit)?;
    assert!(left_to_do.is_empty(), "no value {}", left_to_do[0].name);
    let (cur, w) = (&held.cur, &held.w);

    let mut ps = polys(cur);
    let mut put = |n: &str, p: Poly| ps.0.insert(n.to_string(), p);
    put("preamble", stages::preamble::Stage::<Pasta, R, N>::rx(F::random(&mut *rng), &pre)?);
    put("inner_error", stages::inner_error::Stage::<Pasta, R, N, FP>::rx(F::random(&mut *rng), &w.inner_error)?);
    put("outer_error", stages::outer_error::Stage::<Pasta, R, N, FP>::rx(F::random(&mut *rng), &w.outer_error)?);
    put("query", stages::query::Stage::<Pasta, R, N>::rx(F::random(&mut *rng), &w.query)?);
    put("eval", stages::eval::Stage::<Pasta, R, N>::rx(F::random(&mut *rng), &w.eval)?);
    let (params, log2) = verif::params(app);
    let reg = verif::registry(app);
    macro_rules! prove {
        ($name:literal, $id:ident, $circuit:expr, $witness:expr) => {{
            let (t, _) = $circuit.trace($witness)?.into_parts();
            put($name, reg.assemble(&t, InternalCircuitIndex::$id.circuit_index(), &mut *rng)?);
        }};
    }
    let un = || instance(cur);
    let (pw, ow, iw) = (&pre, &w.outer_error, &w.inner_error);
    prove!(
        "circuits.hashes_1",
        Hashes1Circuit,
        hashes_1::Circuit::<Pasta, R, N, FP>::new(params, log2),
        hashes_1::Witness { unified: un(), preamble_witness: pw, outer_error_witness: ow }
    );
    prove!(
        "circuits.hashes_2",
        Hashes2Circuit,
        hashes_2::Circuit::<Pasta, R, N, FP>::new(params),
        hashes_2::Witness { unified: un(), outer_error_witness: ow }
    );
    prove!(
        "circuits.inner_collapse",
        InnerCollapseCircuit,
        inner_collapse::Circuit::<Pasta, R, N, FP>::new(),
        inner_collapse::Witness { preamble_witness: pw, unified: un(), outer_error_witness: ow, inner_error_witness: iw }
    );
    prove!(
        "circuits.outer_collapse",
        OuterCollapseCircuit,
        outer_collapse::Circuit::<Pasta, R, N, FP>::new(),
        outer_collapse::Witness { unified: un(), preamble_witness: pw, outer_error_witness: ow }
    );
    prove!(
        "circuits.compute_v",
        ComputeVCircuit,
        compute_v::Circuit::<Pasta, R, N>::new(),
        compute_v::Witness { unified: un(), preamble_witness: pw, query_witness: &w.query, eval_witness: &w.eval }
    );
    if let Some(s) = stray {
        let d = s.by;
        *ps.0.get_mut(poly_name(s.from)).unwrap() += &on_gate(s.gate, s.wire, d);
        if s.to != "" {
            *ps.0.get_mut(poly_name(s.to)).unwrap() += &on_gate(s.gate, s.wire, -d);
        }
    }
    drop(pre);
    Ok((held.cur, ps, done))
}

/// Something on a gate, taken from one polynomial to another.
struct Stray<'a> {
    from: &'a str,
    to: &'a str,
    gate: usize,
    wire: u64,
    by: F,
}
fn poly_name(p: &str) -> &str {
    match p {
        "hashes_1" => "circuits.hashes_1",
        "hashes_2" => "circuits.hashes_2",
        "inner_collapse" => "circuits.inner_collapse",
        "outer_collapse" => "circuits.outer_collapse",
        "compute_v" => "circuits.compute_v",
        p => p,
    }
}
fn on_gate(gate: usize, wire: u64, v: F) -> Poly {
    let mut p = sparse::View::<F, R, _>::trace();
    let w = match wire {
        0 => &mut p.a,
        1 => &mut p.b,
        2 => &mut p.c,
        _ => &mut p.d,
    };
    w.resize(gate + 1, F::ZERO);
    w[gate] = v;
    p.build()
}
/// The gates of each polynomial: the first that is its own, and how many they are.
fn layout() -> Vec<(&'static str, usize, usize)> {
    use native::stages::*;
    use ragu_circuits::staging::Stage;
    type FP = RevdotParameters;
    fn of<S: Stage<F, R>>(n: &'static str) -> (&'static str, usize, usize) {
        (n, S::skip_gates(), S::num_gates())
    }
    let rest = |n, (_, s, g): (&str, usize, usize)| (n, s + g, R::n() - s - g);
    let en = of::<outer_error::Stage<Pasta, R, N, FP>>("outer_error");
    let em = of::<inner_error::Stage<Pasta, R, N, FP>>("inner_error");
    let ev = of::<eval::Stage<Pasta, R, N>>("eval");
    vec![
        of::<preamble::Stage<Pasta, R, N>>("preamble"),
        en,
        em,
        of::<query::Stage<Pasta, R, N>>("query"),
        ev,
        rest("hashes_1", en),
        rest("hashes_2", en),
        rest("outer_collapse", en),
        rest("inner_collapse", em),
        rest("compute_v", ev),
    ]
}
type Layout = Vec<(&'static str, usize, usize)>;
fn stray<'s>(all: &Layout, s: &'s J) -> Stray<'s> {
    let (_, first, gates) = *all.iter().find(|l| l.0 == s.get("at").s()).unwrap();
    Stray {
        from: s.get("from").s(),
        to: s.get("to").s(),
        gate: first + s.get("k").n() as usize % gates,
        wire: s.get("wire").n() as u64,
        by: F::from(s.get("k").n() as u64 + 3).pow_vartime([5]),
    }
}
fn gates(all: &Layout) -> J {
    J::O(all.iter().map(|(n, f, g)| (n.to_string(), jo! {"first" => *f as i64, "gates" => *g as i64})).collect())
}
fn moved(app: &App, r: &Run, s: &J, seed: u64) -> J {
    let mut rng = StdRng::seed_from_u64(seed);
    let all = layout();
    let st = stray(&all, s);
    let mut e = s.clone();
    e.set("kind", J::from("move"));
    e.set("gate", J::from(st.gate as i64));
    e.set("layout", gates(&all));
    e.set("out", outcome(catch(|| relation(app, r, &[], Some(&st), &mut rng))));
    e
}
/// A step whose left or right input is such a proof, made by a prover who does as he should.
fn heir(app: &App, runs: &BTreeMap<&str, Arc<Run>>, s: &J, seed: u64) -> J {
    let mut rng = StdRng::seed_from_u64(seed);
    let r = &runs[s.get("base").s()];
    let all = layout();
    let mut e = s.clone();
    e.set("kind", J::from("heir"));
    e.set("layout", gates(&all));
    let st = s.has("from").then(|| stray(&all, s));
    if let Some(st) = &st {
        e.set("gate", J::from(st.gate as i64));
    }
    let al = alters(s);
    // The other input too may be such a proof, where what is amiss in the one is amiss the other way in the other.
    let other = &runs[s.get("other").s()];
    let against = (s.has("both") && s.get("both").b()).then(|| {
        let al: Vec<_> = al.iter().map(|a| Alter { how: if a.how == "add" { "sub".into() } else { a.how.clone() }, ..a.clone() }).collect();
        (al, st.as_ref().map(|s| Stray { by: -s.by, ..*s }))
    });
    let child_of = |r: &Run, al: &[Alter], st: Option<&Stray>, rng: &mut StdRng| {
        let (mut child, ps, _) = circuits(app, r, al, st, rng)?;
        let own = broken(verif::registry(app), &child, r.data, &ps, rng)?;
        for (n, slot) in verif::components(&mut child) {
            if let (Some(p), Slot::Native(q)) = (ps.0.get(n.trim_end_matches(".rx")), slot) {
                *q = p.clone();
            }
        }
        Ok::<_, ragu_core::Error>((child, own))
    };
    let made = catch(|| {
        let (child, own) = child_of(r, &al, st.as_ref(), &mut rng)?;
        let (o, its) = match &against {
            Some((al, st)) => child_of(other, al, st.as_ref(), &mut rng)?,
            None => (other.proof.clone(), vec![]),
        };
        let ((left, ldata), (right, rdata)) = match s.get("side").s() {
            "left" => ((child, r.data), (o, other.data)),
            _ => ((o, other.data), (child, r.data)),
        };
        let (p, d) = fuse(app, &mut rng, &Inputs { step: "mix", w: F::from(3), left, ldata, right, rdata })?;
        let b = broken(verif::registry(app), &p, d, &polys(&p), &mut rng)?;
        let v = app.verify(&p.carry::<Num>(d), &mut rng)?;
        Ok::<_, ragu_core::Error>((own, its, b, v))
    });
    let _ = verif::take_witnesses::<Pasta>();
    e.set(
        "out",
        match made {
            Ok(Ok((own, its, b, v))) => jo! {"own" => strs(own), "its" => strs(its), "broken" => strs(b), "verdict" => v},
            Ok(Err(_)) => jo! {"err" => "error"},
            Err(m) => jo! {"err" => "panic", "why" => m.as_str()},
        },
    );
    e
}
fn outcome(r: std::result::Result<Result<(Vec<String>, Vec<String>)>, String>) -> J {
    match r {
        Ok(Ok((b, d))) => jo! {"broken" => strs(b), "done" => strs(d)},
        Ok(Err(_)) => jo! {"err" => "error"},
        Err(_) => jo! {"err" => "panic"},
    }
}

/// A proof by a prover who alters values as it comes up with them, and goes on with those.
fn forging(app: &App, i: &Inputs, alter: &[Alter], seed: u64) -> (std::result::Result<Result<(P, F)>, String>, Vec<String>) {
    let done = Arc::new(Mutex::new(vec![]));
    let (al, dn) = (alter.to_vec(), done.clone());
    let mut again: BTreeMap<String, ragu_pasta::EqAffine> = BTreeMap::new();
    let (mut a, mut b, mut u): (Option<Poly>, Option<Poly>, F) = (None, None, F::ZERO);
    let forger: Forger<Pasta, R> = Box::new(move |n, mut s| {
        if let Slot::Challenge(v) = &s {
            if n == "challenges.u" {
                u = **v;
            }
        }
        if let Slot::HostPoint(c) = &mut s
            && let Some(p) = again.get(n)
        {
            **c = *p;
        }
        for x in al.iter().filter(|x| x.name == n) {
            match (&mut s, x.how.as_str()) {
                // To a multiple of what vanishes at u.
                (Slot::Native(p), "vanish") => **p += &Poly::from_coeffs(vec![-u * F::from(x.k + 1), F::from(x.k + 1)]),
                (Slot::Scalar(v), "fit") => **v = a.as_ref().unwrap().revdot(b.as_ref().unwrap()),
                (Slot::Native(p), _) => change(x, Slot::Native(p)),
                (Slot::Challenge(v), _) | (Slot::Scalar(v), _) => change(x, Slot::Scalar(&mut **v)),
                (Slot::HostPoint(v), _) => change(x, Slot::HostPoint(&mut **v)),
                (Slot::Header(v), _) => change(x, Slot::Header(v)),
                (Slot::CircuitId(v), _) => change(x, Slot::CircuitId(v)),
                _ => panic!("no way to forge {n}"),
            }
            if x.how != "bare"
                && let Slot::Native(p) = &s
            {
                again.insert(n.replace(".rx", ".commitment"), p.commit_to_affine(Pasta::host_generators(Pasta::baked())));
            }
            dn.lock().unwrap().push(n.to_string());
        }
        match s {
            Slot::Native(p) if n == "ab.a.rx" => a = Some(p.clone()),
            Slot::Native(p) if n == "ab.b.rx" => b = Some(p.clone()),
            _ => {}
        }
    });
    verif::set_forger::<Pasta, R>(Some(forger));
    let r = catch(|| fuse(app, &mut StdRng::seed_from_u64(seed), i));
    verif::set_forger::<Pasta, R>(None);
    let _ = verif::take_witnesses::<Pasta>();
    let d = done.lock().unwrap().clone();
    (r, d)
}
fn strs(v: Vec<String>) -> J {
    J::A(v.iter().map(|s| J::from(s.as_str())).collect())
}
/// The public values of a proof that are not those of another.
fn changed(p: &P, q: &P) -> J {
    let all = |p: &P| -> BTreeMap<String, Value> {
        verif::components(&mut p.clone())
            .into_iter()
            .filter_map(|(n, s)| match s {
                Slot::Challenge(v) | Slot::Scalar(v) => Some((n, Value::Scalar(*v))),
                Slot::NestedPoint(v) => Some((n, Value::Point(*v))),
                _ => None,
            })
            .collect()
    };
    let (p, q) = (all(p), all(q));
    strs(p.into_iter().filter(|(n, v)| q[n] != *v).map(|(n, _)| n).collect())
}
fn forged(app: &App, honest: &Run, s: &J, seed: u64) -> J {
    let al = alters(s);
    // With the randomness of one who does as he should.
    let (r, done) = forging(app, &honest.i, &al, honest.seed);
    let mut rng = StdRng::seed_from_u64(seed + 1);
    let mut e = s.clone();
    e.set("kind", J::from("forge"));
    e.set("done", strs(done));
    let out = match r {
        Ok(Ok((p, d))) => {
            let reg = verif::registry(app);
            let b = catch(|| broken(reg, &p, d, &polys(&p), &mut rng));
            let v = catch(|| app.verify(&p.clone().carry::<Num>(d), &mut rng));
            match (b, v) {
                (Ok(Ok(b)), Ok(Ok(v))) => jo! {"broken" => strs(b), "verdict" => v, "changed" => changed(&p, &honest.proof)},
                _ => jo! {"err" => "verify"},
            }
        }
        Ok(Err(_)) => jo! {"err" => "error"},
        Err(_) => jo! {"err" => "panic"},
    };
    e.set("out", out);
    e
}
/// An honest step, one of whose inputs is not what it was: what that changes.
fn bound(app: &App, r: &Run, s: &J) -> J {
    let mut i = r.i.clone();
    let a = &alters(s)[0];
    for (side, p) in [("left", &mut i.left), ("right", &mut i.right)] {
        for (n, slot) in verif::components(p) {
            if format!("{side}.{n}") == a.name {
                change(a, slot);
            }
        }
    }
    let got = catch(|| fuse(app, &mut StdRng::seed_from_u64(r.seed), &i));
    let _ = verif::take_witnesses::<Pasta>();
    let mut e = s.clone();
    e.set("kind", J::from("bind"));
    e.set(
        "out",
        match got {
            Ok(Ok((p, _))) => jo! {"changed" => changed(&p, &r.proof)},
            Ok(Err(_)) => jo! {"err" => "error"},
            Err(m) => jo! {"err" => "panic", "why" => m.as_str()},
        },
    );
    e
}
/// Which commitments each polynomial over the other field has in it.
fn holds(r: &Run, s: &J) -> J {
    use pasta_curves::arithmetic::CurveAffine as _;
    let mut all: BTreeMap<String, (ragu_pasta::Fq, ragu_pasta::Fq)> = BTreeMap::new();
    let mut proof = r.proof.clone();
    let mut polys: BTreeMap<String, Vec<ragu_pasta::Fq>> = BTreeMap::new();
    for (pre, p) in [("left.", &mut r.i.left.clone()), ("right.", &mut r.i.right.clone()), ("", &mut proof)] {
        for (n, slot) in verif::components(p) {
            match slot {
                Slot::HostPoint(c) => {
                    let xy = c.coordinates().unwrap();
                    all.insert(format!("{pre}{n}"), (*xy.x(), *xy.y()));
                }
                Slot::Nested(q) if pre.is_empty() => {
                    polys.insert(n, q.iter_coeffs().collect());
                }
                _ => {}
            }
        }
    }
    let mut e = s.clone();
    e.set("kind", J::from("holds"));
    let held = polys.into_iter().map(|(n, c)| {
        let has = all.iter().filter(|(_, (x, y))| c.contains(x) && c.contains(y)).map(|(n, _)| n.clone()).collect();
        (n, strs(has))
    });
    e.set("holds", J::O(held.collect()));
    e.set("parts", strs(verif::components(&mut r.proof.clone()).into_iter().map(|(n, _)| n).collect()));
    e
}
fn related(app: &App, r: &Run, s: &J, seed: u64) -> J {
    let al = alters(s);
    let mut rng = StdRng::seed_from_u64(seed);
    let mut e = s.clone();
    e.set("kind", J::from("relation"));
    e.set("out", outcome(catch(|| relation(app, r, &al, None, &mut rng))));
    e
}

/// The circuit that says what a step's polynomials are at u, run on values of which one is altered: the v that it
/// comes to, for one alpha and one beta after another.
fn weighed(r: &Run, alter: &[Alter], at: &[(F, F)]) -> Result<Vec<F>> {
    use native::circuits::compute_v;
    use ragu_circuits::Circuit as _;
    let mut visit = |n: &str, s: Slot<'_, Pasta, R>| {
        if let Some(a) = alter.iter().find(|a| a.name == n) {
            change(a, s);
        }
    };
    let held = Held::new(r, &mut visit);
    let pre = held.preamble(r, &mut visit)?;
    let outputs = |alpha: &F, pre_beta: &F| -> Result<Vec<F>> {
        {
            let mut un = instance(&held.cur);
            un.alpha = *alpha;
            un.pre_beta = *pre_beta;
            let w = compute_v::Witness { unified: un, preamble_witness: &pre, query_witness: &held.w.query, eval_witness: &held.w.eval };
            Emulator::emulate_wireless(w, |dr, w| {
                let (out, _) = compute_v::Circuit::<Pasta, R, N>::new().witness(dr, w)?.into_parts();
                let mut all: Vec<Element<'_, _>> = vec![];
                out.write(dr, &mut all)?;
                Ok(all.iter().map(|v| *v.value().take()).collect())
            })
        }
    };
    // Of the outputs it is the one, besides alpha, that goes by alpha.
    let (p, q) = (at[0], at[1]);
    let (s, t) = (outputs(&p.0, &p.1)?, outputs(&(p.0 + q.0 + F::ONE), &p.1)?);
    let places: Vec<usize> = (0..s.len()).filter(|k| s[*k] != t[*k] && s[*k] != p.0).collect();
    assert_eq!(places.len(), 1, "which output is v");
    at.iter().map(|(a, b)| Ok(outputs(a, b)?[places[0]])).collect()
}
/// The polynomial that has these values at these points.
fn interpolate(xs: &[F], ys: &[F]) -> Vec<F> {
    let n = xs.len();
    let mut d = ys.to_vec();
    for j in 1..n {
        for i in (j..n).rev() {
            d[i] = (d[i] - d[i - 1]) * (xs[i] - xs[i - j]).invert().unwrap();
        }
    }
    let mut out = vec![F::ZERO; n];
    for i in (0..n).rev() {
        for k in (1..n).rev() {
            out[k] = out[k - 1] - xs[i] * out[k];
        }
        out[0] = d[i] - xs[i] * out[0];
    }
    out
}
/// Which polynomial is asked for its value at which point, and what it should be; and what is summed up.
fn weigh(r: &Run, seed: u64) -> Result<J> {
    const MOST: usize = 68;
    let vals = values(r);
    let val = |n: &str| match vals[n] {
        Value::Scalar(v) => v,
        _ => panic!("{n}"),
    };
    let mut rng = StdRng::seed_from_u64(seed);
    let alphas: Vec<F> = (0..MOST).map(|_| F::random(&mut rng)).collect();
    let pre: Vec<F> = (0..MOST).map(|_| F::random(&mut rng)).collect();
    let beta = |b: &F| -> Result<F> {
        Emulator::emulate_wireless(*b, |dr, w| {
            let b = Element::alloc(dr, w)?;
            Ok(*ragu_primitives::Endoscalar::extract(dr, b)?.lift(dr)?.value().take())
        })
    };
    let betas = pre.iter().map(beta).collect::<Result<Vec<_>>>()?;
    // As a polynomial in alpha, for one beta; and in beta, with alpha zero.
    let by_alpha: Vec<(F, F)> = alphas.iter().map(|a| (*a, pre[0])).collect();
    let by_beta: Vec<(F, F)> = pre.iter().map(|b| (F::ZERO, *b)).collect();
    let in_alpha = |al: &[Alter]| Ok::<_, ragu_core::Error>(interpolate(&alphas, &weighed(r, al, &by_alpha)?));
    let in_beta = |al: &[Alter]| Ok::<_, ragu_core::Error>(interpolate(&betas, &weighed(r, al, &by_beta)?));
    let (a0, b0) = (in_alpha(&[])?, in_beta(&[])?);
    let degree = |c: &[F]| c.iter().rposition(|v| *v != F::ZERO).unwrap();
    let (n, e) = (degree(&a0) + 1, degree(&b0));
    assert!(n < MOST && e + 1 < MOST, "too many terms");
    let less = |a: Vec<F>, b: &[F]| -> Vec<F> { a.into_iter().zip(b).map(|(a, b)| a - b).collect() };
    // Each altered by another amount.
    let evals: Vec<&String> = vals.keys().filter(|k| k.starts_with("eval.") && !k.contains("bridge")).collect();
    let asked: Vec<&String> =
        vals.keys().filter(|k| (k.starts_with("query.") && !k.contains("bridge")) || ["left.p.v", "right.p.v"].contains(&k.as_str())).collect();
    let amount = |i: usize| 1_000_003 * (i as u64 + 1) + seed % 1000;
    let each = |v: &[&String]| -> Vec<Alter> {
        v.iter().enumerate().map(|(i, n)| Alter { name: n.to_string(), how: "add".into(), k: amount(i) - 1 }).collect()
    };
    let delta = |i: usize| F::from(amount(i));

    let mut points = BTreeMap::from([("xz".to_string(), val("challenges.x") * val("challenges.z"))]);
    for c in ["challenges.w", "challenges.x", "challenges.y"] {
        points.insert(c.into(), val(c));
    }
    for s in ["left", "right"] {
        for c in ["challenges.u", "challenges.y", "challenges.x", "application.circuit_id"] {
            points.insert(format!("{s}.{c}"), val(&format!("{s}.{c}")));
        }
    }
    for id in InternalCircuitIndex::ALL {
        points.insert(format!("circuit.{id:?}"), id.circuit_index().omega_j());
    }
    let u = val("challenges.u");
    // The weight of a value, in the sum.
    let db = less(in_beta(&each(&evals))?, &b0);
    let summed: Vec<Vec<String>> =
        db[..e].iter().map(|v| evals.iter().enumerate().filter(|(i, _)| delta(*i) == *v).map(|(_, n)| n.to_string()).collect()).collect();
    let rest: F = (0..e).map(|k| db[k] * betas[0].pow_vartime([k as u64])).sum();
    let scale = betas[0].pow_vartime([e as u64]);
    struct Term {
        poly: Vec<String>,
        at: String,
        slope: F,
        direct: Vec<String>,
        through: Vec<String>,
    }
    let mut de = less(in_alpha(&each(&evals))?, &a0);
    de[0] -= rest;
    let dq = less(in_alpha(&each(&asked))?, &a0);
    let inverse: Vec<(&String, F)> = points.iter().map(|(n, p)| (n, scale * (u - p).invert().unwrap())).collect();
    let mut terms: Vec<Term> = (0..n)
        .map(|k| {
            let of = inverse.iter().find_map(|(p, s)| evals.iter().enumerate().find(|(i, _)| *s * delta(*i) == de[k]).map(|(_, e)| (*p, *s, e)));
            let (poly, at, slope) = of.map_or((vec![], "?".into(), F::ZERO), |(p, s, e)| (vec![e.to_string()], p.clone(), s));
            let direct = asked.iter().enumerate().filter(|(i, _)| dq[k] == -slope * delta(*i)).map(|(_, q)| q.to_string()).collect();
            Term { poly, at, slope, direct, through: vec![] }
        })
        .collect();
    // What is worked out depends on more than one.
    let open: Vec<usize> = (0..n).filter(|k| terms[*k].direct.is_empty()).collect();
    assert!(open.len() <= 8, "too many values are worked out");
    let some = &by_alpha[..open.len() + 2];
    let v0 = weighed(r, &[], some)?;
    for name in &asked {
        let dv = less(weighed(r, &[Alter { name: name.to_string(), how: "add".into(), k: 0 }], some)?, &v0);
        let dv: Vec<F> = dv
            .into_iter()
            .zip(some)
            .map(|(v, (a, _))| {
                v + terms.iter().enumerate().filter(|(_, t)| t.direct.contains(name)).map(|(k, t)| t.slope * a.pow_vartime([k as u64])).sum::<F>()
            })
            .collect();
        // What is left is made up of powers of alpha, those of the open terms.
        let mut m: Vec<Vec<F>> =
            some.iter().zip(&dv).map(|((a, _), v)| open.iter().map(|k| a.pow_vartime([*k as u64])).chain([*v]).collect()).collect();
        let w = open.len();
        for c in 0..w {
            let at = (c..m.len()).find(|i| m[*i][c] != F::ZERO).unwrap();
            m.swap(c, at);
            let inv = m[c][c].invert().unwrap();
            let row: Vec<F> = m[c].iter().map(|v| *v * inv).collect();
            m[c] = row.clone();
            for (i, other) in m.iter_mut().enumerate().filter(|(i, _)| *i != c) {
                let _ = i;
                let f = other[c];
                other.iter_mut().zip(&row).for_each(|(o, r)| *o -= f * r);
            }
        }
        assert!(m[w..].iter().all(|row| row[w] == F::ZERO), "{name} is used elsewhere");
        for (c, k) in open.iter().enumerate() {
            if m[c][w] != F::ZERO {
                terms[*k].through.push(name.to_string());
            }
        }
    }
    Ok(jo! {
        "terms" => J::A(terms.into_iter().map(|t| jo! {"poly" => strs(t.poly), "at" => t.at.as_str(), "direct" => strs(t.direct), "through" => strs(t.through)}).collect()),
        "summed" => J::A(summed.into_iter().map(strs).collect())
    })
}
fn weighs(r: &Run, s: &J, seed: u64) -> J {
    let mut e = s.clone();
    e.set("kind", J::from("weigh"));
    e.set(
        "out",
        match catch(|| weigh(r, seed)) {
            Ok(Ok(j)) => j,
            Ok(Err(_)) => jo! {"err" => "error"},
            Err(m) => jo! {"err" => "panic", "why" => m.as_str()},
        },
    );
    e
}

fn main() {
    vh::quiet_panics();
    let out = arg_or("out", "/dev/null");
    let seed = arg_u64("seed", 1);
    let mut t = Trace::create(&out);
    let base = inputs(seed);
    if arg_or("mode", "") == "names" {
        let names = Arc::new(Mutex::new(vec![]));
        let n2 = names.clone();
        verif::set_forger::<Pasta, R>(Some(Box::new(move |n, _| n2.lock().unwrap().push(n.to_string()))));
        fuse(&app("same"), &mut StdRng::seed_from_u64(seed), &base["leaf"]).unwrap();
        t.emit(jo! {"kind" => "names", "prover" => strs(names.lock().unwrap().clone())});
        return;
    }
    let scen = vh::read_nd(&arg_or("scenarios", ""));
    let runs: Mutex<BTreeMap<&str, Arc<Run>>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        for (n, i) in &base {
            let runs = &runs;
            sc.spawn(move || {
                let r = run(&app("same"), i, seed + 77);
                runs.lock().unwrap().insert(n, Arc::new(r));
            });
        }
    });
    let runs = runs.into_inner().unwrap();
    let next = Mutex::new(0usize);
    let done: Mutex<Vec<Option<J>>> = Mutex::new(vec![None; scen.len()]);
    std::thread::scope(|sc| {
        for _ in 0..arg_u64("threads", 8) {
            sc.spawn(|| {
                let app = app("same");
                loop {
                    let i = {
                        let mut n = next.lock().unwrap();
                        *n += 1;
                        *n - 1
                    };
                    if i >= scen.len() {
                        break;
                    }
                    let sd = seed.wrapping_mul(1_000_003) + i as u64;
                    let s = &scen[i];
                    let b = s.get("base").s();
                    let j = match s.get("mode").s() {
                        "forge" => forged(&app, &runs[b], s, sd),
                        "move" => moved(&app, &runs[b], s, sd),
                        "heir" => heir(&app, &runs, s, sd),
                        "bind" => bound(&app, &runs[b], s),
                        "holds" => holds(&runs[b], s),
                        "weigh" => weighs(&runs[b], s, sd),
                        "relation" => related(&app, &runs[b], s, sd),
                        x => panic!("mode {x}"),
                    };
                    done.lock().unwrap()[i] = Some(j);
                }
            });
        }
    });
    for j in done.into_inner().unwrap() {
        t.emit(j.unwrap());
    }
}

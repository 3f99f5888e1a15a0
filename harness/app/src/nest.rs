//! The circuits over the other curve's field, and strays on their polynomials.
use super::steps::*;
use ff::Field;
use ragu_circuits::polynomials::{Rank, sparse};
use ragu_circuits::registry::{Registry, RegistryBuilder};
use ragu_core::Result;
use ragu_pasta::Pasta;
use ragu_pcd::Proof;
use ragu_pcd::verif::{
    self, Slot, claims,
    nested::{self, InternalCircuitIndex, RxIndex, claims::KySource, claims::Processor},
};
use rand::{SeedableRng, rngs::StdRng};
use std::borrow::Cow;
use std::collections::BTreeMap;
use vh::{J, catch, jo};

type Fq = pasta_curves::Fq;
type P = Proof<Pasta, R>;
type Poly = sparse::Polynomial<Fq, R>;
type Reg = Registry<'static, Fq, R>;

fn name(id: RxIndex) -> String {
    match id {
        RxIndex::EndoscalingStep(i) => format!("p.nested.step.{i}"),
        RxIndex::EndoscalarStage => "p.nested.endoscalar".into(),
        RxIndex::PointsStage => "p.nested.points".into(),
        RxIndex::BridgePreamble => "preamble.bridge".into(),
        RxIndex::BridgeSPrime => "s_prime.bridge".into(),
        RxIndex::BridgeInnerError => "inner_error.bridge".into(),
        RxIndex::BridgeOuterError => "outer_error.bridge".into(),
        RxIndex::BridgeAB => "ab.bridge".into(),
        RxIndex::BridgeQuery => "query.bridge".into(),
        RxIndex::BridgeF => "f.bridge".into(),
        RxIndex::BridgeEval => "eval.bridge".into(),
    }
}
struct Source<'a>(&'a BTreeMap<String, Poly>);
impl<'a> claims::Source for Source<'a> {
    type RxComponent = RxIndex;
    type Rx = &'a Poly;
    type AppCircuitId = ();
    fn rx(&self, c: RxIndex) -> impl Iterator<Item = &'a Poly> {
        std::iter::once(&self.0[&name(c)])
    }
    fn app_circuits(&self) -> impl Iterator<Item = ()> {
        std::iter::empty()
    }
}
struct Named<'m, 'rx> {
    b: claims::Builder<'m, 'rx, Cow<'rx, Poly>, Fq, R>,
    names: Vec<String>,
}
impl<'rx> Processor<&'rx Poly> for Named<'_, 'rx> {
    fn internal_circuit(&mut self, id: InternalCircuitIndex, rxs: impl Iterator<Item = &'rx Poly>) {
        self.names.push(format!("{id:?}"));
        self.b.internal_circuit(id, rxs);
    }
    fn bonding(&mut self, id: InternalCircuitIndex, rxs: impl Iterator<Item = &'rx Poly>) -> Result<()> {
        self.names.push(format!("{id:?}"));
        self.b.bonding(id, rxs)
    }
}
struct Ky;
impl KySource for Ky {
    type Ky = Fq;
    fn one(&self) -> Fq {
        Fq::ONE
    }
    fn zero(&self) -> Fq {
        Fq::ZERO
    }
}
/// The circuits over the other field.
pub fn registry() -> Reg {
    nested::register_all::<Pasta, R>(RegistryBuilder::new()).unwrap().finalize().unwrap()
}
pub fn polys(p: &P) -> BTreeMap<String, Poly> {
    verif::components(&mut p.clone())
        .into_iter()
        .filter_map(|(n, s)| match s {
            Slot::Nested(q) => Some((n.trim_end_matches(".rx").to_string(), q.clone())),
            _ => None,
        })
        .collect()
}
/// By how much each claim is off, at a point.
pub fn off(reg: &Reg, polys: &BTreeMap<String, Poly>, y: Fq, z: Fq) -> Result<Vec<(String, Fq)>> {
    let mut named = Named { b: claims::Builder::new(reg, y, z), names: vec![] };
    nested::claims::build(&Source(polys), &mut named)?;
    let mut ks = nested::claims::ky_values(&Ky);
    Ok(named.names.iter().zip(named.b.a.iter().zip(&named.b.b)).map(|(n, (a, b))| (n.clone(), a.revdot(b) - ks.next().unwrap())).collect())
}
/// The claims that do not hold.
fn broken(reg: &Reg, polys: &BTreeMap<String, Poly>, rng: &mut StdRng) -> Result<Vec<String>> {
    let (y, z) = (Fq::random(&mut *rng), Fq::random(&mut *rng));
    Ok(off(reg, polys, y, z)?.into_iter().filter(|(_, v)| *v != Fq::ZERO).map(|(n, _)| n).collect())
}
pub fn on_gate<T: ff::PrimeField>(gate: usize, wire: i64, v: T) -> sparse::Polynomial<T, R> {
    let mut p = sparse::View::<T, R, _>::trace();
    let w = match wire {
        0 => &mut p.a,
        1 => &mut p.b,
        2 => &mut p.c,
        _ => &mut p.d,
    };
    assert!(gate < R::n());
    w.resize(gate + 1, T::ZERO);
    w[gate] = v;
    p.build()
}
/// A proof, with something on some gates of its polynomials over the other field.
pub fn nest(reg: &Reg, base: &P, verify: impl Fn(P, StdRng) -> Result<bool>, s: &J, seed: u64) -> J {
    let mut rng = StdRng::seed_from_u64(seed);
    let d = Fq::random(&mut rng);
    let mut e = s.clone();
    e.set("kind", J::from("nest"));
    let got = catch(|| {
        let mut p = base.clone();
        for a in s.get("strays").a() {
            let k = a.get("k").n();
            let v = if k < 0 { -(d * Fq::from((-k) as u64)) } else { d * Fq::from(k as u64) };
            let mut hit = false;
            for (n, slot) in verif::components(&mut p) {
                if let (true, Slot::Nested(q)) = (n.trim_end_matches(".rx") == a.get("poly").s(), slot) {
                    *q += &on_gate(a.get("gate").n() as usize, a.get("wire").n() as i64, v);
                    hit = true;
                }
            }
            assert!(hit, "no polynomial {}", a.get("poly").s());
        }
        let b = broken(reg, &polys(&p), &mut rng)?;
        Ok::<_, ragu_core::Error>((b, verify(p, rng)?))
    });
    e.set(
        "out",
        match got {
            Ok(Ok((b, v))) => jo! {"broken" => J::A(b.iter().map(|s| J::from(s.as_str())).collect()), "verdict" => v},
            Ok(Err(_)) => jo! {"err" => "error"},
            Err(m) => jo! {"err" => "panic", "why" => m.as_str()},
        },
    );
    e
}

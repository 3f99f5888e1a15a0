//! C09: runs histories of sponge and transcript operations on several drivers.
use crate::rec::*;
use ff::{Field, PrimeField};
use ragu_arithmetic::{Coeff, Cycle, PoseidonPermutation};
use ragu_core::Result;
use ragu_core::drivers::Driver;
use ragu_core::drivers::emulator::Emulator;
use ragu_core::maybe::{Always, Empty, Maybe};
use ragu_pasta::{Fp, Fq, Pasta};
use ragu_pcd::verif::transcript::{ResumedTranscript, Transcript};
use ragu_primitives::io::Buffer;
use ragu_primitives::poseidon::{SaveError, Sponge, SpongeState};
use ragu_primitives::vec::CollectFixed;
use ragu_primitives::{Element, Simulator};
use std::collections::HashMap;
use vh::{J, Rng, Trace, jo};

/// A permutation with parameters of our own.
pub struct Params<F, const T: usize, const R: usize, const FU: usize, const PA: usize> {
    rc: Vec<Vec<F>>,
    mds: Vec<Vec<F>>,
}
impl<F: Field, const T: usize, const R: usize, const FU: usize, const PA: usize> PoseidonPermutation<F> for Params<F, T, R, FU, PA> {
    const T: usize = T;
    const RATE: usize = R;
    const FULL_ROUNDS: usize = FU;
    const PARTIAL_ROUNDS: usize = PA;
    const ALPHA: isize = 5;
    fn round_constants(&self) -> impl Iterator<Item = &[F]> {
        self.rc.iter().map(|v| &v[..])
    }
    fn mds_matrix(&self) -> impl ExactSizeIterator<Item = &[F]> {
        self.mds.iter().map(|v| &v[..])
    }
}
impl<F: Field + Into<J>, const T: usize, const R: usize, const FU: usize, const PA: usize> Params<F, T, R, FU, PA> {
    fn new(rng: &mut Rng, p: usize) -> Self {
        let mut num = |n: usize| -> Vec<F> {
            (0..n)
                .map(|_| {
                    let mut v = F::ZERO;
                    for _ in 0..rng.below(p) {
                        v += F::ONE;
                    }
                    v
                })
                .collect()
        };
        Params { rc: (0..FU + PA).map(|_| num(T)).collect(), mds: (0..T).map(|_| num(T)).collect() }
    }
    fn json(&self) -> J {
        let m = |x: &Vec<Vec<F>>| J::A(x.iter().map(|r| J::A(r.iter().map(|v| (*v).into()).collect())).collect());
        jo! {"t" => T, "rate" => R, "full" => FU, "partial" => PA, "rc" => m(&self.rc), "mds" => m(&self.mds)}
    }
}

/// What an operation of a history gave.
enum Res<'dr, D: Driver<'dr>> {
    None,
    Elem(Element<'dr, D>),
    State(Vec<Element<'dr, D>>),
    Err(String),
}

#[derive(Clone)]
struct Op<F> {
    o: String,
    v: F,
    form: usize,
    i: usize,
}

fn element<'dr, D: Driver<'dr>>(dr: &mut D, v: D::F, form: usize) -> Result<Element<'dr, D>>
where
    D::F: PrimeField,
{
    Ok(match form {
        0 => Element::alloc(dr, D::just(|| v))?,
        1 => Element::constant(dr, v),
        2 => {
            let x = Element::alloc(dr, D::just(|| v - D::F::from(3)))?;
            x.add_coeff(dr, &Element::one(), Coeff::Arbitrary(D::F::from(3)))
        }
        _ => {
            let x = Element::alloc(dr, D::just(|| -v))?;
            x.negate(dr)
        }
    })
}

fn save_err(e: SaveError) -> String {
    match e {
        SaveError::AlreadyInSqueezeMode => "squeezing".into(),
        SaveError::NothingAbsorbed => "nothing".into(),
        e => format!("{e:?}"),
    }
}

fn sponge<'dr, D: Driver<'dr>, P: PoseidonPermutation<D::F>>(dr: &mut D, params: &'dr P, ops: &[Op<D::F>], ins: &mut Vec<Element<'dr, D>>) -> Result<Vec<Res<'dr, D>>>
where
    D::F: PrimeField,
{
    let mut s = Sponge::<'dr, D, P>::new(dr, params);
    let mut forks: HashMap<usize, Sponge<'dr, D, P>> = HashMap::new();
    let mut out = vec![];
    for op in ops {
        out.push(match op.o.as_str() {
            "absorb" => {
                let e = element(dr, op.v, op.form)?;
                ins.push(e.clone());
                if op.form % 2 == 0 { s.absorb(dr, &e)? } else { s.write(dr, &e)? }
                Res::None
            }
            "squeeze" => match s.squeeze(dr) {
                Ok(e) => Res::Elem(e),
                Err(ragu_core::Error::Initialization(_)) => Res::Err("empty".into()),
                Err(e) => Res::Err(e.to_string()),
            },
            "save" => match s.clone().save_state(dr) {
                Ok(st) => {
                    let v: Vec<_> = st.into_elements().into_iter().collect();
                    let st = SpongeState::from_elements(v.iter().cloned().collect_fixed()?);
                    s = Sponge::resume(st, params);
                    Res::State(v)
                }
                Err(e) => Res::Err(save_err(e)),
            },
            "fork" => {
                forks.insert(op.i, s.clone());
                Res::None
            }
            "goto" => {
                s = forks[&op.i].clone();
                Res::None
            }
            o => panic!("op {o}"),
        });
    }
    Ok(out)
}

#[allow(clippy::large_enum_variant)]
enum Tr<'dr, D: Driver<'dr>, P: PoseidonPermutation<D::F>> {
    Full(Transcript<'dr, D, P>),
    Resumed(ResumedTranscript<'dr, D, P>),
    Gone,
}

fn transcript<'dr, D: Driver<'dr>, P: PoseidonPermutation<D::F>>(dr: &mut D, params: &'dr P, tag: &[u8], ops: &[Op<D::F>]) -> Result<Vec<Res<'dr, D>>>
where
    D::F: PrimeField,
{
    let mut t = Tr::Full(Transcript::<'dr, D, P>::new(dr, params, tag)?);
    let mut forks: HashMap<usize, Transcript<'dr, D, P>> = HashMap::new();
    let mut out = vec![];
    for op in ops {
        out.push(match op.o.as_str() {
            "absorb" => {
                let e = element(dr, op.v, op.form)?;
                match &mut t {
                    Tr::Full(t) => t.write(dr, &e)?,
                    _ => panic!("absorb"),
                }
                Res::None
            }
            "squeeze" => match match &mut t {
                Tr::Full(t) => t.challenge(dr),
                Tr::Resumed(t) => t.challenge(dr),
                Tr::Gone => panic!("gone"),
            } {
                Ok(e) => Res::Elem(e),
                Err(e) => Res::Err(e.to_string()),
            },
            "save" => match &t {
                Tr::Full(x) => match x.clone().save_state(dr) {
                    Ok(st) => {
                        let v: Vec<_> = st.into_elements().into_iter().collect();
                        let st = SpongeState::from_elements(v.iter().cloned().collect_fixed()?);
                        t = Tr::Resumed(Transcript::resume_from_state(st, params));
                        Res::State(v)
                    }
                    Err(e) => Res::Err(save_err(e)),
                },
                _ => panic!("save"),
            },
            "into" => match std::mem::replace(&mut t, Tr::Gone) {
                Tr::Resumed(r) => match vh::catch(|| r.into_transcript()) {
                    Ok(x) => {
                        t = Tr::Full(x);
                        Res::None
                    }
                    Err(_) => Res::Err("refused".into()),
                },
                _ => panic!("into"),
            },
            "fork" => {
                match &t {
                    Tr::Full(t) => forks.insert(op.i, t.clone()),
                    _ => panic!("fork"),
                };
                Res::None
            }
            "goto" => {
                t = Tr::Full(forks[&op.i].clone());
                Res::None
            }
            o => panic!("op {o}"),
        });
    }
    Ok(out)
}

/// The results as JSON; field elements through `f`.
fn results<'dr, D: Driver<'dr, MaybeKind = Always<()>>>(r: Vec<Res<'dr, D>>, f: &mut dyn FnMut(D::F) -> J) -> J {
    J::A(
        r.into_iter()
            .map(|r| match r {
                Res::None => jo! {"e" => "", "v" => J::A(vec![])},
                Res::Elem(e) => jo! {"e" => "", "v" => J::A(vec![f(*e.value().take())])},
                Res::State(v) => jo! {"e" => "", "v" => J::A(v.iter().map(|e| f(*e.value().take())).collect())},
                Res::Err(e) => jo! {"e" => e, "v" => J::A(vec![])},
            })
            .collect(),
    )
}

const DRIVERS: usize = 4;
/// Runs one history on the given driver.
fn on_driver<F: PrimeField, P: PoseidonPermutation<F>>(d: usize, params: &'static P, tag: Option<&[u8]>, ops: &[Op<F>], f: &mut dyn FnMut(F) -> J) -> J {
    macro_rules! go {
        ($dr:expr) => {
            match tag {
                None => sponge($dr, params, ops, &mut vec![]).map(|r| results(r, f)),
                Some(t) => transcript($dr, params, t, ops).map(|r| results(r, f)),
            }
        };
    }
    let r: Result<J> = match d {
        0 => {
            let mut dr = Simulator::<F>::new();
            go!(&mut dr)
        }
        1 => {
            let mut dr = Emulator::execute();
            go!(&mut dr)
        }
        2 => Emulator::emulate_wireless((), |dr, _| go!(dr)),
        _ => {
            let mut dr = Rec::<F, Always<()>>::new();
            go!(&mut dr)
        }
    };
    r.unwrap_or_else(|e| J::A(vec![jo! {"e" => format!("failed: {e}"), "v" => J::A(vec![])}]))
}

fn ops_of<F: PrimeField>(shape: &[J], val: &mut dyn FnMut() -> F, form: &mut dyn FnMut() -> usize) -> Vec<Op<F>> {
    shape
        .iter()
        .map(|s| Op { o: s.get("o").s().into(), v: if s.get("o").s() == "absorb" { val() } else { F::ZERO }, form: form(), i: s.get("i").u() })
        .collect()
}

fn ops_json<F: PrimeField>(ops: &[Op<F>], f: &dyn Fn(F) -> J) -> J {
    J::A(ops.iter().map(|o| jo! {"o" => o.o.as_str(), "v" => f(o.v), "i" => o.i}).collect())
}

fn tag(rng: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| if rng.chance(1, 4) { 0 } else { rng.below(256) as u8 }).collect()
}

fn histories<F: PrimeField + Into<J>, const T: usize, const R: usize, const FU: usize, const PA: usize>(scen: &[J], t: &mut Trace, rng: &mut Rng, p: usize) {
    for s in scen {
        if s.get("rate").u() != R {
            continue;
        }
        let params: &'static Params<F, T, R, FU, PA> = Box::leak(Box::new(Params::new(rng, p)));
        let mut r2 = rng.clone();
        let ops = ops_of::<F>(s.get("ops").a(), &mut || F::from(rng.below(p) as u64), &mut || r2.below(4));
        let tg: Option<Vec<u8>> = match s.get("kind").s() {
            "sponge" => None,
            _ => {
                let n = match rng.below(4) {
                    0 => rng.below(4),
                    1 => *rng.pick(&[15, 16, 17, 31, 32, 33, 48]),
                    2 => rng.below(80),
                    _ => rng.below(20),
                };
                Some(tag(rng, n))
            }
        };
        let runs: Vec<J> = (0..DRIVERS).map(|d| on_driver(d, params, tg.as_deref(), &ops, &mut |v: F| v.into())).collect();
        let same = runs.iter().all(|r| *r == runs[0]);
        t.emit(jo! {
            "kind" => s.get("kind").s(),
            "params" => params.json(),
            "tag" => tg.unwrap_or_default().iter().map(|b| *b as u64).collect::<Vec<_>>(),
            "ops" => ops_json(&ops, &|v| v.into()),
            "res" => runs[0].clone(),
            "same" => same,
            "runs" => if same { J::A(vec![]) } else { J::A(runs) },
        });
    }
}

/// The constraint system of a history, its claim, and honest assignments.
fn circuits<F: PrimeField + Into<J>, const T: usize, const R: usize, const FU: usize, const PA: usize>(scen: &[J], sys: &mut Trace, runs: &mut Trace, rng: &mut Rng, p: usize, limit: usize) {
    for s in scen {
        if s.get("rate").u() != R || s.get("kind").s() != "circuit" {
            continue;
        }
        let params: &'static Params<F, T, R, FU, PA> = Box::leak(Box::new(Params::new(rng, p)));
        let shape = s.get("ops").a();
        fn claims<'dr, D: Driver<'dr, Wire = usize>>(ins: &[Element<'dr, D>], r: &[Res<'dr, D>], k: &J) -> Vec<Claim<usize, D::F>> {
            let mut cl: Vec<Claim<usize, D::F>> = ins.iter().map(|e| Claim { o: "alloc".into(), k: J::N(0), a: vec![], r: vec![*e.wire()], v: None }).collect();
            let outs = r
                .iter()
                .flat_map(|r| match r {
                    Res::Elem(e) => vec![*e.wire()],
                    Res::State(v) => v.iter().map(|e| *e.wire()).collect(),
                    _ => vec![],
                })
                .collect();
            cl.push(Claim { o: "sponge".into(), k: k.clone(), a: ins.iter().map(|e| vec![*e.wire()]).collect(), r: outs, v: None });
            cl
        }
        let k = jo! {"params" => params.json(), "ops" => J::A(shape.to_vec())};
        let mut blind = Rec::<F, Empty>::new();
        let ops = ops_of::<F>(shape, &mut || F::ZERO, &mut || 0);
        let mut ins = vec![];
        let r = sponge(&mut blind, params, &ops, &mut ins).expect("sponge");
        let cl = claims(&ins, &r, &k);
        let j = system(&blind, &cl, true);
        let mut o = j.clone();
        o.set("prog", J::A(vec![]));
        o.set("zeta", 0);
        o.set("g", 0);
        o.set("b", 0);
        let mut planned = o.clone();
        planned.set("plan", plan(&blind, &cl));
        sys.emit(planned);
        let list: Vec<J> = (0..limit)
            .map(|_| {
                let ops = ops_of::<F>(shape, &mut || F::from(rng.below(p) as u64), &mut || 0);
                let mut dr = Rec::<F, Always<()>>::new();
                let mut ins = vec![];
                let r = sponge(&mut dr, params, &ops, &mut ins).expect("sponge");
                let cl = claims(&ins, &r, &k);
                let mine = system(&dr, &cl, true);
                let mut sim = Simulator::<F>::new();
                let ok = sponge(&mut sim, params, &ops, &mut vec![]).is_ok();
                let val = |e: &Element<'_, Rec<F, Always<()>>>| -> J { (*e.value().take()).into() };
                let mut v: Vec<J> = ins.iter().map(|e| J::A(vec![val(e)])).collect();
                v.push(J::A(
                    r.iter()
                        .flat_map(|r| match r {
                            Res::Elem(e) => vec![val(e)],
                            Res::State(v) => v.iter().map(val).collect(),
                            _ => vec![],
                        })
                        .collect(),
                ));
                jo! {
                    "in" => J::A(ins.iter().map(|e| J::A(vec![val(e)])).collect()),
                    "same" => mine == j, "at" => cl.len(), "ok" => true, "sim" => ok,
                    "w" => J::A(dr.vals.iter().map(|v| (*v).into()).collect()),
                    "v" => J::A(v),
                }
            })
            .collect();
        o.set("runs", J::A(list));
        runs.emit(o);
    }
}

/// The real parameters: only which outputs coincide is recorded.
fn real<F: PrimeField, P: PoseidonPermutation<F>>(scen: &[J], t: &mut Trace, rng: &mut Rng, params: &'static P, name: &str) {
    let mine: Vec<&J> = scen.iter().filter(|s| s.get("rate").u() == P::RATE && s.get("kind").s() != "circuit").collect();
    for ch in mine.chunks(24) {
        let tags: Vec<Vec<u8>> = (0..3).map(|n| { let n = [0, 1, 16, 17, 5][(n + rng.below(3)) % 5]; tag(rng, n) }).collect();
        let mut ids: HashMap<Vec<u8>, usize> = HashMap::new();
        let mut id = |v: F| -> J {
            let n = ids.len() + 1;
            J::N(*ids.entry(v.to_repr().as_ref().to_vec()).or_insert(n) as i64)
        };
        let mut hist = vec![];
        for s in ch {
            let mut r2 = rng.clone();
            // Few different values, so that histories share prefixes.
            let ops = ops_of::<F>(s.get("ops").a(), &mut || F::from(rng.below(2) as u64), &mut || r2.below(4));
            let tg = if s.get("kind").s() == "sponge" { None } else { Some(rng.pick(&tags).clone()) };
            let d = rng.below(DRIVERS);
            let res = on_driver(d, params, tg.as_deref(), &ops, &mut id);
            hist.push(jo! {
                "kind" => s.get("kind").s(),
                "tag" => tg.unwrap_or_default().iter().map(|b| *b as u64).collect::<Vec<_>>(),
                "ops" => ops_json(&ops, &|v| J::N((v == F::ONE) as i64)),
                "res" => res,
            });
        }
        t.emit(jo! {"name" => name, "rate" => P::RATE, "t" => P::T, "hist" => J::A(hist)});
    }
}

pub fn main(scen: &[J], field: &str, out: &str, seed: u64, scale: usize) {
    let mut rng = Rng::new(seed * 104729 + field.len() as u64);
    let mut t = Trace::create(&format!("{out}.hist"));
    let mut sys = Trace::create(&format!("{out}.sys"));
    let mut runs = Trace::create(&format!("{out}.runs"));
    let mut sym = Trace::create(&format!("{out}.sym"));
    macro_rules! all {
        ($f:ty, $p:expr) => {{
            for _ in 0..scale {
                histories::<$f, 2, 1, 2, 1>(scen, &mut t, &mut rng, $p);
                histories::<$f, 3, 2, 4, 3>(scen, &mut t, &mut rng, $p);
                histories::<$f, 3, 2, 2, 0>(scen, &mut t, &mut rng, $p);
                histories::<$f, 3, 1, 0, 3>(scen, &mut t, &mut rng, $p);
                histories::<$f, 4, 3, 2, 2>(scen, &mut t, &mut rng, $p);
                histories::<$f, 5, 4, 4, 5>(scen, &mut t, &mut rng, $p);
                if $p < 20 {
                    circuits::<$f, 2, 1, 2, 1>(scen, &mut sys, &mut runs, &mut rng, $p, 30);
                    circuits::<$f, 2, 1, 4, 2>(scen, &mut sys, &mut runs, &mut rng, $p, 30);
                    circuits::<$f, 3, 2, 2, 1>(scen, &mut sys, &mut runs, &mut rng, $p, 30);
                }
            }
        }};
    }
    match field {
        "13" => all!(vh::tiny::F13, 13),
        "97" => all!(vh::tiny::F97, 97),
        "12289" => all!(vh::tiny::F12289, 12289),
        "pasta" => {
            let p = Pasta::baked();
            for _ in 0..scale {
                real::<Fp, _>(scen, &mut sym, &mut rng, Pasta::circuit_poseidon(p), "Fp");
                real::<Fq, _>(scen, &mut sym, &mut rng, Pasta::scalar_poseidon(p), "Fq");
            }
        }
        f => panic!("field {f}"),
    }
}

//! C01, C02: one circuit, one assignment, every interpretation.
use crate::interp::*;
use ff::Field;
use ragu_circuits::CircuitExt;
use ragu_circuits::polynomials::{Rank, TestRank, sparse};
use ragu_circuits::registry::{CircuitIndex, RegistryBuilder};
use ragu_core::Error;
use ragu_core::drivers::emulator::Emulator;
use ragu_core::maybe::Maybe;
use ragu_primitives::Simulator;
use std::sync::atomic::Ordering::SeqCst;
use vh::tiny::F12289;
use vh::{J, Rng, Trace, catch, jo};

pub type F = F12289;
pub type R = TestRank;

pub fn dense<K: Rank>(p: &sparse::Polynomial<F, K>) -> J {
    J::A(p.iter_coeffs().map(J::from).collect())
}
pub fn fl(v: &[F]) -> J {
    J::A(v.iter().map(|x| J::from(*x)).collect())
}
pub fn err(e: &Error) -> String {
    match e {
        Error::GateBoundExceeded { limit } => format!("gates {limit}"),
        Error::ConstraintBoundExceeded { limit } => format!("constraints {limit}"),
        Error::CircuitBoundExceeded { limit } => format!("circuits {limit}"),
        Error::DegreeBoundExceeded { limit } => format!("degree {limit}"),
        Error::InvalidWitness(_) => "witness".into(),
        Error::MalformedEncoding(_) => "encoding".into(),
        Error::VectorLengthMismatch { .. } => "length".into(),
        Error::Initialization(_) => "init".into(),
        _ => "other".into(),
    }
}
pub fn res<T: Into<J>>(r: Result<Result<T, Error>, String>) -> J {
    match r {
        Ok(Ok(v)) => {
            let v: J = v.into();
            jo! {"ok" => v}
        }
        Ok(Err(e)) => jo! {"err" => err(&e)},
        Err(p) => jo! {"panic" => p},
    }
}

#[cfg(feature = "multicore")]
pub fn with_threads<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap().install(f)
}
#[cfg(not(feature = "multicore"))]
pub fn with_threads<T: Send>(_n: usize, f: impl FnOnce() -> T + Send) -> T {
    f()
}

pub fn case(p: &Prog, claims: &[F], pt: [F; 4], threads: &[usize]) -> J {
    let [alpha, x, y, z] = pt;
    let c = Interp(p.clone());
    let base = jo! {"kind" => "prog", "prog" => p.j(), "claims" => fl(claims), "alpha" => alpha, "x" => x, "y" => y, "z" => z};
    let mut m = match base {
        J::O(m) => m,
        _ => unreachable!(),
    };
    CLOSURES.store(0, SeqCst);
    let reg = catch(|| RegistryBuilder::<F, R>::new().register_circuit(c.clone())?.finalize());
    let reg = match reg {
        Ok(Ok(r)) => r,
        other => {
            m.insert("out".into(), res(other.map(|r| r.map(|_| 0i64))));
            return J::O(m);
        }
    };
    let i = CircuitIndex::new(0);
    let (g, k) = reg.constraint_counts(i);
    let w = F::ONE;
    let o = catch(|| {
        let sy = reg.circuit_y(i, y);
        let mut o = std::collections::BTreeMap::new();
        o.insert("counts".to_string(), J::A(vec![J::N(g as i64), J::N(k as i64)]));
        o.insert("key".into(), reg.digest().into());
        o.insert("sy".into(), dense(&sy));
        o.insert("sx".into(), dense(&reg.wx(w, x)));
        o.insert("sxy".into(), fl(&[reg.wxy(w, x, y), reg.wxy(w, F::ZERO, y), reg.wxy(w, x, F::ZERO), reg.circuit_xy(i, x, y)]));
        o.insert("zeros".into(), fl(&[reg.wy(w, F::ZERO).eval(x), reg.wx(w, F::ZERO).eval(y)]));
        // Counting and wiring evaluation have no witness: nothing of it may have been computed.
        o.insert("closures".into(), J::N(CLOSURES.load(SeqCst) as i64));
        o.insert("ky".into(), res(catch(|| c.ky(claims.to_vec(), y))));
        let mut traces = vec![];
        for t in threads {
            let r = with_threads(*t, || {
                catch(|| {
                    let tr = c.trace(())?.into_output();
                    reg.assemble_with_alpha(&tr, i, alpha)
                })
            });
            traces.push(r);
        }
        // All schedules must give one trace; report the distinct ones.
        let mut seen: Vec<J> = vec![];
        for t in &traces {
            let j = res(match t {
                Ok(Ok(p)) => Ok(Ok(dense(p))),
                Ok(Err(_)) => Err("error".into()),
                Err(p) => Err(p.clone()),
            });
            if !seen.contains(&j) {
                seen.push(j);
            }
        }
        o.insert("traces".into(), J::A(seen));
        if let Ok(Ok(r)) = &traces[0] {
            let mut rhs = r.clone();
            rhs.dilate(z);
            rhs.add_assign(&sy);
            rhs.add_assign(&R::tz(z));
            o.insert("id".into(), r.revdot(&rhs).into());
        }
        // The simulator checks the program's own constraints.
        let mut outs = vec![];
        let mut wires = vec![];
        let sim = Simulator::<F>::simulate((), |dr, _| {
            let mut regs = vec![one()];
            run(dr, &p.body, &mut regs)?;
            outs = p.outs.iter().map(|r| *regs[*r].value().take()).collect();
            wires = p.outs.iter().map(|r| *regs[*r].wire()).collect();
            Ok(())
        });
        o.insert("sim".into(), match sim {
            Ok(s) => jo! {"ok" => jo!{"g" => s.num_gates() as i64, "a" => s.num_allocations() as i64, "c" => s.num_constraints() as i64, "outs" => fl(&outs), "wires" => fl(&wires)}},
            Err(e) => jo! {"err" => err(&e)},
        });
        let mut em = Emulator::extractor();
        let mut regs = vec![one()];
        let r = run(&mut em, &p.body, &mut regs);
        let v: Vec<F> = regs.iter().map(|e| *e.value().take()).collect();
        let ws: Vec<F> = regs.iter().map(|e| *e.wire()).collect();
        o.insert("wired".into(), res(Ok(r.map(|_| J::A(vec![fl(&v), fl(&ws)])))));
        let mut em = Emulator::execute();
        let mut regs = vec![one()];
        let r = run(&mut em, &p.body, &mut regs);
        let v: Vec<F> = regs.iter().map(|e| *e.value().take()).collect();
        o.insert("wireless".into(), res(Ok(r.map(|_| fl(&v)))));
        CLOSURES.store(0, SeqCst);
        let mut em = Emulator::counter();
        let mut regs = vec![one::<F, _>()];
        let r = run(&mut em, &p.body, &mut regs);
        let n = regs.len() as i64;
        o.insert("counter".into(), res(Ok(r.map(|_| J::A(vec![J::N(n), J::N(CLOSURES.load(SeqCst) as i64)])))));
        J::O(o)
    });
    m.insert("out".into(), res(o.map(Ok)));
    J::O(m)
}

pub fn pick(r: &mut Rng) -> F {
    match r.below(8) {
        0 => F::ONE,
        1 => -F::ONE,
        _ => F::new(r.below(12289) as u64),
    }
}

pub fn main(scen: Option<String>, out: &str, seed: u64, scale: u64, deep: bool) {
    let mut t = Trace::create(out);
    let mut r = Rng::new(seed);
    let threads: Vec<usize> = if cfg!(feature = "multicore") { vec![1, 2, 5] } else { vec![1] };
    let mut go = |p: &Prog, r: &mut Rng, th: &[usize]| {
        let regs: Vec<F> = root_values(p);
        let mut claims: Vec<F> = p.outs.iter().map(|o| regs[*o]).collect();
        if !claims.is_empty() && r.below(4) == 0 {
            let i = r.below(claims.len());
            claims[i] += F::new(1 + r.below(12288) as u64);
        }
        let pt = [pick(r), if r.below(20) == 0 { F::ZERO } else { pick(r) }, pick(r), pick(r)];
        t.emit(case(p, &claims, pt, th));
    };
    if let Some(s) = scen {
        for j in vh::read_nd(&s) {
            let p = Prog::parse(j.get("prog"));
            let few = p.body.len() < 8;
            go(&p, &mut r, if few { &threads[..1] } else { &threads });
        }
    }
    for k in 0..60 * scale {
        let cfg = match k % 4 {
            _ if deep => GenCfg { ops: 5 + k as usize % 9, depth: 1 + k as usize % 5, perturb: if k % 3 == 0 { 8 } else { 0 } },
            0 => GenCfg { ops: 4, depth: 0, perturb: 0 },
            1 => GenCfg { ops: 8, depth: 2, perturb: 0 },
            2 => GenCfg { ops: 8, depth: 3, perturb: 12 },
            _ => GenCfg { ops: 14, depth: 2, perturb: 30 },
        };
        let p = rand_prog(&mut r, &cfg);
        go(&p, &mut r, &threads);
    }
}

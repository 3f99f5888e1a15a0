//! Drives ragu_arithmetic on scenario files (from TLC) and on seeded random inputs, and records
//! every call with its observed result, one JSON object per line.
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use pasta_curves::arithmetic::CurveAffine;
use ragu_arithmetic as ra;
use ragu_arithmetic::{Coeff, Domain, Ring};
use vh::tiny::*;
use vh::{J, Rng, Trace, arg, arg_or, arg_u64, catch, jo};

fn f(j: &J) -> F97 {
    F97::new(j.n() as u64)
}
fn fs(j: &J) -> Vec<F97> {
    j.a().iter().map(f).collect()
}
fn out<T: Into<J>>(r: Result<T, String>) -> J {
    match r {
        Ok(v) => { let v: J = v.into(); jo! {"ok" => v} }
        Err(e) => jo! {"panic" => e},
    }
}

#[cfg(feature = "multicore")]
fn with_threads<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap().install(f)
}
#[cfg(not(feature = "multicore"))]
fn with_threads<T: Send>(_n: usize, f: impl FnOnce() -> T + Send) -> T {
    f()
}

struct VecRing;
impl Ring for VecRing {
    type R = Vec<F97>;
    type F = F97;
    fn scale_assign(r: &mut Vec<F97>, by: F97) {
        for x in r {
            *x *= by;
        }
    }
    fn add_assign(r: &mut Vec<F97>, o: &Vec<F97>) {
        for (x, y) in r.iter_mut().zip(o) {
            *x += *y;
        }
    }
    fn sub_assign(r: &mut Vec<F97>, o: &Vec<F97>) {
        for (x, y) in r.iter_mut().zip(o) {
            *x -= *y;
        }
    }
}

fn point<A: CurveAffine<Base = F>, F: Into<J> + Copy>(a: &A) -> J {
    let c: Option<pasta_curves::arithmetic::Coordinates<A>> = a.coordinates().into();
    match c {
        None => J::A(vec![]),
        Some(c) => J::A(vec![(*c.x()).into(), (*c.y()).into()]),
    }
}

fn coeff(j: &J) -> Coeff<F97> {
    match j.get("t").s() {
        "Zero" => Coeff::Zero,
        "One" => Coeff::One,
        "Two" => Coeff::Two,
        "NegativeOne" => Coeff::NegativeOne,
        "Arbitrary" => Coeff::Arbitrary(f(j.get("v"))),
        "NegativeArbitrary" => Coeff::NegativeArbitrary(f(j.get("v"))),
        "From" => Coeff::from(f(j.get("v"))),
        t => panic!("tag {t}"),
    }
}

/// Runs one call and returns its observed result.
fn run(j: &J) -> J {
    match j.get("op").s() {
        // A straight-line program over tagged coefficients.
        "coeff" => out(catch(|| {
            let mut regs: Vec<Coeff<F97>> = j.get("lits").a().iter().map(coeff).collect();
            for st in j.get("prog").a() {
                let a = regs[st.get("a").u() - 1];
                let b = regs[st.get("b").u() - 1];
                regs.push(if st.get("o").s() == "add" { a + b } else { a * b });
            }
            regs.iter().map(|c| jo! {"v" => c.value(), "z" => c.is_zero()}).collect::<Vec<_>>()
        })),
        "domain" => out(catch(|| {
            let d = Domain::<F97>::new(j.get("k").u() as u32);
            let c: Vec<J> = (0..97u64).map(|x| J::from(d.contains(F97::new(x)))).collect();
            jo! {"n" => d.n(), "log2n" => d.log2_n(), "omega" => d.omega(), "contains" => c}
        })),
        "bitreverse" => out(catch(|| {
            let n = j.get("bits").a().iter().rev().fold(0u32, |a, b| a * 2 + b.n() as u32);
            let o = ra::bitreverse(n, j.get("l").u() as u32);
            (0..32).map(|i| o >> i & 1).collect::<Vec<_>>()
        })),
        "fft" | "ifft" => out(catch(|| {
            let d = Domain::<F97>::new(j.get("k").u() as u32);
            let mut v = fs(j.get("in"));
            let inv = j.get("op").s() == "ifft";
            with_threads(j.get("threads").u(), || if inv { d.ifft(&mut v) } else { d.fft(&mut v) });
            v
        })),
        "ringfft" | "ringifft" => out(catch(|| {
            let d = Domain::<F97>::new(j.get("k").u() as u32);
            let mut v: Vec<Vec<F97>> = j.get("in").a().iter().map(fs).collect();
            let inv = j.get("op").s() == "ringifft";
            with_threads(j.get("threads").u(), || {
                if inv { d.ring_ifft::<VecRing>(&mut v) } else { d.ring_fft::<VecRing>(&mut v) }
            });
            v
        })),
        "ell" => out(catch(|| {
            let d = Domain::<F97>::new(j.get("k").u() as u32);
            match d.ell(f(j.get("x")), j.get("amount").u()) {
                None => jo! {"none" => true},
                Some(v) => jo! {"none" => false, "v" => v},
            }
        })),
        "eval" => out(catch(|| ra::eval(&fs(j.get("p")), f(j.get("x"))))),
        "dot" => out(catch(|| ra::dot(&fs(j.get("p")), &fs(j.get("q"))))),
        "factor" => out(catch(|| ra::factor(fs(j.get("p")), f(j.get("x"))))),
        "factor_iter" => {
            out(catch(|| ra::factor_iter(fs(j.get("p")), f(j.get("x"))).collect::<Vec<_>>()))
        }
        "geosum" => out(catch(|| ra::geosum(f(j.get("x")), j.get("m").u()))),
        "roots" => out(catch(|| {
            let r = fs(j.get("p"));
            with_threads(j.get("threads").u(), || ra::poly_with_roots(&r))
        })),
        "low_u64" => out(catch(|| {
            let mut b = [0u8; 32];
            for (x, y) in b.iter_mut().zip(j.get("bytes").a()) {
                *x = y.n() as u8;
            }
            let v = pasta_curves::Fp::from_repr(b).unwrap();
            ra::low_u64(&v).to_le_bytes().to_vec()
        })),
        "affine" => out(catch(|| {
            let k: Vec<u64> = j.get("k").a().iter().map(|x| x.n() as u64).collect();
            let p: [E97; 4] = core::array::from_fn(|i| {
                // A projective representative with z != 1.
                let g = E97::generator();
                let mut acc = E97::identity();
                for _ in 0..k[i] {
                    acc += g;
                }
                acc
            });
            let a: [E97A; 4] = ra::batch_to_affine(p);
            let v: Vec<J> = a.iter().map(point).collect();
            J::A(v)
        })),
        // Multi-scalar multiplication; bases are multiples of the generator, scalars are bytes.
        "msm" => out(catch(|| {
            let bases: Vec<u64> = j.get("bases").a().iter().map(|x| x.n() as u64).collect();
            let th = j.get("threads").u();
            if j.get("curve").s() == "narrow" {
                let sc: Vec<F79> = j
                    .get("scalars")
                    .a()
                    .iter()
                    .map(|b| F79::from(b.a().iter().rev().fold(0u64, |a, x| a * 256 + x.n() as u64)))
                    .collect();
                let b: Vec<E97A> =
                    bases.iter().map(|k| (E97A::generator() * F79::from(*k)).to_affine()).collect();
                point(&with_threads(th, || ra::mul(&sc, &b)).to_affine())
            } else {
                let sc: Vec<pasta_curves::Fp> = j
                    .get("scalars")
                    .a()
                    .iter()
                    .map(|b| {
                        let mut r = [0u8; 32];
                        for (x, y) in r.iter_mut().zip(b.a()) {
                            *x = y.n() as u8;
                        }
                        pasta_curves::Fp::from_repr(r).unwrap()
                    })
                    .collect();
                let b: Vec<E97WA> = bases
                    .iter()
                    .map(|k| (E97WA::generator() * pasta_curves::Fp::from(*k)).to_affine())
                    .collect();
                point(&with_threads(th, || ra::mul(&sc, &b)).to_affine())
            }
        })),
        o => panic!("unknown op {o}"),
    }
}

fn rf(r: &mut Rng) -> F97 {
    match r.below(6) {
        0 => F97(0),
        1 => F97(1),
        2 => F97(96),
        _ => F97(r.below(97) as u32),
    }
}
fn rfs(r: &mut Rng, n: usize) -> Vec<F97> {
    if r.chance(1, 12) {
        return vec![F97(0); n];
    }
    (0..n).map(|_| rf(r)).collect()
}
fn random(r: &mut Rng, scale: usize) -> Vec<J> {
    let mut v = vec![];
    let tags = ["Zero", "One", "Two", "NegativeOne", "Arbitrary", "NegativeArbitrary", "From"];
    for _ in 0..40 * scale {
        let nl = r.range(1, 4);
        let lits: Vec<J> = (0..nl).map(|_| jo! {"t" => *r.pick(&tags), "v" => rf(r)}).collect();
        let np = r.range(1, 12);
        let prog: Vec<J> = (0..np)
            .map(|i| {
                jo! {"o" => *r.pick(&["add", "mul"]), "a" => r.range(1, nl + i), "b" => r.range(1, nl + i)}
            })
            .collect();
        v.push(jo! {"op" => "coeff", "lits" => lits, "prog" => prog});
    }
    for k in 0..=5usize {
        for threads in [1usize, 2, 3, 4, 8, 64] {
            for _ in 0..scale {
                let n = 1 << k;
                v.push(jo! {"op" => "fft", "k" => k, "threads" => threads, "in" => rfs(r, n)});
                v.push(jo! {"op" => "ifft", "k" => k, "threads" => threads, "in" => rfs(r, n)});
                let ring: Vec<Vec<F97>> = (0..n).map(|_| rfs(r, 3)).collect();
                v.push(jo! {"op" => *r.pick(&["ringfft", "ringifft"]), "k" => k, "threads" => threads, "in" => ring});
            }
        }
        for _ in 0..6 * scale {
            v.push(jo! {"op" => "ell", "k" => k, "x" => rf(r), "amount" => r.range(0, 1 << k)});
        }
        // wrong lengths and too many Lagrange values are refused
        v.push(jo! {"op" => "fft", "k" => k, "threads" => 1, "in" => rfs(r, (1 << k) + 1)});
        v.push(jo! {"op" => "ifft", "k" => k, "threads" => 1, "in" => rfs(r, (1 << k) - 1)});
        v.push(jo! {"op" => "ell", "k" => k, "x" => 5, "amount" => (1 << k) + 1});
    }
    for n in 0..=31usize {
        for _ in 0..scale {
            v.push(jo! {"op" => "roots", "p" => rfs(r, n), "threads" => *r.pick(&[1usize, 2, 8])});
        }
        // repeated root
        v.push(jo! {"op" => "roots", "p" => vec![rf(r); n], "threads" => 1});
    }
    for _ in 0..60 * scale {
        let n = r.below(20);
        let x = rf(r);
        v.push(jo! {"op" => "eval", "p" => rfs(r, n), "x" => x});
        v.push(jo! {"op" => "dot", "p" => rfs(r, n), "q" => rfs(r, n)});
        v.push(jo! {"op" => "factor", "p" => rfs(r, n), "x" => x});
        v.push(jo! {"op" => "factor_iter", "p" => rfs(r, n), "x" => x});
        let m = r.below(200);
        v.push(jo! {"op" => "geosum", "x" => rf(r), "m" => m});
        v.push(jo! {"op" => "geosum", "x" => rf(r), "m" => r.below(5000)});
    }
    for _ in 0..10 * scale {
        let l = r.below(33);
        let bits: Vec<usize> = (0..32).map(|_| r.below(2)).collect();
        v.push(jo! {"op" => "bitreverse", "bits" => bits, "l" => l});
        let a = r.below(9);
        let d = r.range(1, 3);
        v.push(jo! {"op" => "dot", "p" => rfs(r, a), "q" => rfs(r, a + d)});
        v.push(jo! {"op" => "dot", "p" => rfs(r, a + d), "q" => rfs(r, a)});
        v.push(jo! {"op" => "affine", "k" => (0..4).map(|_| r.below(82)).collect::<Vec<_>>()});
        let mut b: Vec<u64> = (0..32).map(|_| r.below(256) as u64).collect();
        b[31] &= 0x3f;
        v.push(jo! {"op" => "low_u64", "bytes" => b});
    }
    // Bucket widths change at 4, 32, 55, 149, 404, 1097.
    let sizes: &[usize] = if scale > 1 {
        &[0, 1, 2, 3, 4, 5, 8, 20, 31, 32, 33, 54, 55, 56, 100, 148, 149, 150, 300, 403, 404, 405, 1096, 1097, 1100]
    } else {
        &[0, 1, 2, 3, 4, 5, 31, 32, 54, 55, 148, 149, 403, 404]
    };
    for &n in sizes {
        for curve in ["narrow", "wide"] {
            let reps = if n < 40 { 2 * scale } else { 1 };
            for _ in 0..reps {
                let threads = *r.pick(&[1usize, 2, 3, 8]);
                let style = r.below(5);
                let bases: Vec<usize> = (0..n).map(|_| if style == 0 { 1 } else { r.below(79) }).collect();
                let sc: Vec<Vec<u64>> = (0..n)
                    .map(|_| {
                        if curve == "narrow" {
                            vec![if style == 1 { 78 } else { r.below(79) as u64 }]
                        } else {
                            let mut b: Vec<u64> = match (style, r.below(6)) {
                                (2, _) | (_, 0) => vec![0; 32],
                                (_, 1) => {
                                    // p - 1
                                    (-pasta_curves::Fp::ONE).to_repr().iter().map(|x| *x as u64).collect()
                                }
                                _ => (0..32).map(|_| r.below(256) as u64).collect(),
                            };
                            if b[31] > 0x3f && !(b[31] == 0x40 && b[30] == 0) {
                                b[31] &= 0x3f;
                            }
                            b
                        }
                    })
                    .collect();
                v.push(jo! {"op" => "msm", "curve" => curve, "threads" => threads, "bases" => bases, "scalars" => sc});
            }
        }
    }
    v
}

fn main() {
    vh::quiet_panics();
    let mut t = Trace::create(&arg("out").expect("--out"));
    if let Some(p) = arg("scenarios") {
        for s in vh::read_nd(&p) {
            let o = run(&s);
            let mut e = s;
            e.set("out", o);
            e.set("src", "spec");
            t.emit(e);
        }
    }
    let scale = arg_u64("scale", 1) as usize;
    if scale > 0 {
        let mut r = Rng::new(arg_u64("seed", 1));
        for s in random(&mut r, scale) {
            let o = run(&s);
            let mut e = s;
            e.set("out", o);
            e.set("src", "random");
            t.emit(e);
        }
    }
    let _ = arg_or("x", "");
    eprintln!("{} events", t.n);
}

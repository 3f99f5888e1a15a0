//! C10: histories of operations on registers holding sparse polynomials.
use ff::{Field, PrimeField};
use group::Curve;
use group::prime::PrimeCurveAffine;
use ragu_arithmetic::{CurveAffine, FixedGenerators, Ring};
use ragu_circuits::polynomials::sparse::{Polynomial, View};
use ragu_circuits::polynomials::{Rank, TestRank};
use vh::tiny::{E97A, F79, F12289};
use vh::{J, Rng, Trace, catch, jo};

type R = TestRank;
type P<F> = Polynomial<F, R>;
const CAP: usize = 128;
const N: usize = 32;
const REGS: usize = 4;

struct Gens {
    g: Vec<E97A>,
    h: E97A,
}
impl FixedGenerators<E97A> for Gens {
    fn g(&self) -> &[E97A] {
        &self.g
    }
    fn h(&self) -> &E97A {
        &self.h
    }
}
pub trait Fld: PrimeField + Into<J> {
    const COMMIT: bool;
    fn small(v: u64) -> Self;
    fn commit(p: &P<Self>, ks: &[u64], affine: bool, threads: usize) -> i64;
}
impl Fld for F12289 {
    const COMMIT: bool = false;
    fn small(v: u64) -> Self {
        F12289::new(v)
    }
    fn commit(_: &P<Self>, _: &[u64], _: bool, _: usize) -> i64 {
        unreachable!()
    }
}
impl Fld for F79 {
    const COMMIT: bool = true;
    fn small(v: u64) -> Self {
        F79::new(v)
    }
    fn commit(p: &P<Self>, ks: &[u64], affine: bool, threads: usize) -> i64 {
        let base = E97A::generator();
        let g: Vec<E97A> = ks.iter().map(|k| (base * F79::new(*k)).to_affine()).collect();
        let gens = Gens { g, h: base };
        let c: E97A = crate::prog::with_threads(threads, || if affine { p.commit_to_affine(&gens) } else { p.commit::<E97A>(&gens).to_affine() });
        assert!(bool::from(c.is_on_curve()));
        (0..79).find(|k| (base * F79::new(*k)).to_affine() == c).map(|k| k as i64).unwrap_or(-1)
    }
}
fn out<T: Into<J>>(r: Result<T, String>) -> J {
    match r {
        Ok(v) => {
            let v: J = v.into();
            jo! {"ok" => v}
        }
        Err(e) => jo! {"panic" => e},
    }
}
fn dense<F: Fld>(p: &P<F>) -> J {
    J::A(p.iter_coeffs().map(Into::into).collect())
}
fn list<F: Fld>(v: &[F]) -> J {
    J::A(v.iter().map(|x| (*x).into()).collect())
}
#[derive(Clone)]
pub enum Op<F> {
    New(usize),
    From(usize, Vec<F>),
    View(usize, bool, [Vec<F>; 4]),
    Tz(usize, F),
    Tx(usize, F),
    Copy(usize, usize),
    Scale(usize, F),
    Neg(usize),
    Dilate(usize, F),
    /// register, operand, subtract, which of the three interfaces
    Add(usize, usize, bool, usize),
    Fold(usize, Vec<usize>, F),
    Eval(usize, F),
    RevDot(usize, usize),
    Rev(usize),
    Mixed(usize, Vec<usize>),
    Txz(F, F),
    Commit(usize, bool, usize),
}
use Op::*;
fn n(x: usize) -> J {
    J::N(x as i64)
}
fn set<F: Fld>(r: &mut [P<F>], i: usize, f: impl FnOnce(&[P<F>]) -> P<F>) -> J {
    out(catch(|| {
        let v = f(r);
        let d = dense(&v);
        r[i] = v;
        d
    }))
}
fn run<F: Fld>(op: &Op<F>, r: &mut Vec<P<F>>, ks: &[u64]) -> J {
    match op {
        New(i) => jo! {"o" => "new", "r" => n(i + 1), "out" => set(r, *i, |_| if ks[0] % 2 == 0 { P::<F>::new() } else { Default::default() })},
        From(i, c) => jo! {"o" => "from", "r" => n(i + 1), "c" => list(c), "out" => set(r, *i, |_| P::from_coeffs(c.clone()))},
        View(i, tr, b) => {
            let [a, bb, c, d] = b.clone();
            let o = set(r, *i, |_| {
                if *tr {
                    let mut v = View::<F, R, _>::trace();
                    (v.a, v.b, v.c, v.d) = (a.clone(), bb.clone(), c.clone(), d.clone());
                    v.build()
                } else {
                    let mut v = View::<F, R, _>::wiring();
                    (v.a, v.b, v.c, v.d) = (a.clone(), bb.clone(), c.clone(), d.clone());
                    v.build()
                }
            });
            jo! {"o" => "view", "side" => if *tr {"trace"} else {"wiring"}, "r" => n(i + 1), "a" => list(&a), "b" => list(&bb), "c" => list(&c), "d" => list(&d), "out" => o}
        }
        Tz(i, z) => jo! {"o" => "tz", "r" => n(i + 1), "z" => (*z).into(), "out" => set(r, *i, |_| R::tz(*z))},
        Tx(i, z) => jo! {"o" => "tx", "r" => n(i + 1), "z" => (*z).into(), "out" => set(r, *i, |_| R::tx(*z))},
        Copy(i, j) => jo! {"o" => "copy", "r" => n(i + 1), "s" => n(j + 1), "out" => set(r, *i, |r| r[*j].clone())},
        Scale(i, z) => jo! {"o" => "scale", "r" => n(i + 1), "z" => (*z).into(), "out" => set(r, *i, |r| {
            let mut p = r[*i].clone();
            if ks[1] % 2 == 0 { p.scale(*z) } else { <P<F> as Ring>::scale_assign(&mut p, *z) }
            p
        })},
        Neg(i) => jo! {"o" => "neg", "r" => n(i + 1), "out" => set(r, *i, |r| {
            let mut p = r[*i].clone();
            p.negate();
            p
        })},
        Dilate(i, z) => jo! {"o" => "dilate", "r" => n(i + 1), "z" => (*z).into(), "out" => set(r, *i, |r| {
            let mut p = r[*i].clone();
            p.dilate(*z);
            p
        })},
        Add(i, j, sub, how) => jo! {"o" => if *sub {"sub"} else {"add"}, "r" => n(i + 1), "s" => n(j + 1), "out" => set(r, *i, |r| {
            let mut p = r[*i].clone();
            match (how, sub) {
                (0, false) => p.add_assign(&r[*j]),
                (0, true) => p.sub_assign(&r[*j]),
                (1, false) => p += &r[*j],
                (1, true) => p -= &r[*j],
                (_, false) => <P<F> as Ring>::add_assign(&mut p, &r[*j]),
                (_, true) => <P<F> as Ring>::sub_assign(&mut p, &r[*j]),
            }
            p
        })},
        Fold(i, l, z) => jo! {"o" => "fold", "r" => n(i + 1), "l" => J::A(l.iter().map(|x| n(x + 1)).collect()), "z" => (*z).into(),
            "out" => set(r, *i, |r| if ks[2] % 2 == 0 { P::fold(l.iter().map(|k| &r[*k]), *z) } else { P::fold(l.iter().map(|k| r[*k].clone()).collect::<Vec<_>>(), *z) })},
        Eval(i, z) => jo! {"o" => "eval", "r" => n(i + 1), "z" => (*z).into(), "out" => out(catch(|| -> J { r[*i].eval(*z).into() }))},
        RevDot(i, j) => jo! {"o" => "revdot", "r" => n(i + 1), "s" => n(j + 1), "out" => out(catch(|| -> J { r[*i].revdot(&r[*j]).into() }))},
        Rev(i) => jo! {"o" => "rev", "r" => n(i + 1), "out" => out(catch(|| J::A(r[*i].iter_coeffs().rev().map(Into::into).collect())))},
        Mixed(i, s) => {
            let p = (-F::ONE).into().n() + 1;
            let o = catch(|| {
                let mut it = r[*i].iter_coeffs();
                J::A(s.iter().map(|d| {
                    let len = it.len() as i64;
                    let v = if *d == 0 { it.next() } else { it.next_back() };
                    J::A(vec![v.map(|v| v.into()).unwrap_or(J::N(p)), J::N(len)])
                }).collect())
            });
            jo! {"o" => "mixed", "r" => n(i + 1), "sched" => J::A(s.iter().map(|x| n(*x)).collect()), "out" => out(o)}
        }
        Txz(x, z) => jo! {"o" => "txz", "x" => (*x).into(), "z" => (*z).into(), "out" => out(catch(|| -> J { R::txz(*x, *z).into() }))},
        Commit(i, aff, th) => jo! {"o" => "commit", "r" => n(i + 1), "out" => out(catch(|| J::N(F::commit(&r[*i], ks, *aff, *th))))},
    }
}
fn nz<F: Fld>(r: &mut Rng) -> F {
    match r.below(6) {
        0 => F::ONE,
        1 => -F::ONE,
        _ => F::small(1 + r.u64() % 78),
    }
}
fn val<F: Fld>(r: &mut Rng) -> F {
    match r.below(8) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        _ => F::small(r.u64() % 12289),
    }
}
/// A list of a given length with runs and gaps around the storage's tolerance for zeros.
fn runs<F: Fld>(r: &mut Rng, len: usize) -> Vec<F> {
    let mut v = vec![];
    let style = r.below(4);
    while v.len() < len {
        let gap = match style {
            0 => 0,
            1 => r.below(3),
            2 => *r.pick(&[3, 4, 5, 6, 9, 11]),
            _ => r.below(len + 1),
        };
        v.extend(std::iter::repeat_n(F::ZERO, gap));
        for _ in 0..r.range(1, if style == 3 { 20 } else { 6 }) {
            v.push(nz(r));
        }
    }
    if style != 0 && r.chance(1, 2) {
        let off = r.below(8);
        let k = off % v.len().max(1);
        v.rotate_left(k);
    }
    v.truncate(len);
    v
}
fn any_len(r: &mut Rng, cap: usize) -> usize {
    match r.below(6) {
        0 => cap,
        1 => cap - 1,
        2 => r.below(3),
        3 if r.chance(1, 6) => cap + 1,
        _ => r.below(cap + 1),
    }
}
fn build<F: Fld>(r: &mut Rng, i: usize) -> Op<F> {
    match r.below(12) {
        0 => New(i),
        1 => Tz(i, val(r)),
        2 => Tx(i, val(r)),
        3..=6 => {
            let one = r.chance(1, 8).then(|| r.below(4));
            let b = [0, 1, 2, 3].map(|k| {
                let l = any_len(r, N);
                let l = if l > N && Some(k) != one { N } else { l };
                if r.chance(1, 6) { vec![] } else { runs(r, l) }
            });
            View(i, r.chance(1, 2), b)
        }
        7 => {
            // One nonzero coefficient somewhere.
            let mut v = vec![F::ZERO; CAP];
            let at = *r.pick(&[0, 1, 31, 32, 63, 64, 95, 96, 126, 127]);
            v[at] = nz(r);
            From(i, v)
        }
        _ => {
            let l = any_len(r, CAP);
            From(i, runs(r, l))
        }
    }
}
fn sched(r: &mut Rng) -> Vec<usize> {
    let k = match r.below(3) {
        0 => CAP + 2,
        1 => CAP,
        _ => r.below(CAP),
    };
    let bias = r.below(5);
    let mut s = vec![];
    while s.len() < k {
        let side = (r.below(5) < bias) as usize;
        let burst = if r.chance(1, 2) { 1 } else { 25 };
        for _ in 0..r.range(1, burst) {
            s.push(side);
        }
    }
    s.truncate(k);
    s
}
fn observe<F: Fld>(r: &mut Rng) -> Op<F> {
    let i = r.below(REGS);
    match r.below(if F::COMMIT { 9 } else { 7 }) {
        0 | 1 => Eval(i, val(r)),
        2 | 3 => RevDot(i, r.below(REGS)),
        4 => Rev(i),
        5 => Mixed(i, sched(r)),
        6 => Txz(val(r), val(r)),
        _ => Commit(i, r.chance(1, 2), *r.pick(&[1, 2, 5])),
    }
}
fn history<F: Fld>(r: &mut Rng) -> Vec<Op<F>> {
    let mut v: Vec<Op<F>> = (0..REGS).map(|i| build(r, i)).collect();
    for _ in 0..r.range(3, 9) {
        let (i, j) = (r.below(REGS), r.below(REGS));
        match r.below(16) {
            0 => v.push(build(r, i)),
            1 => v.push(Copy(i, j)),
            2 => v.push(Scale(i, val(r))),
            3 => v.push(Neg(i)),
            4 => v.push(Dilate(i, val(r))),
            5 => {
                let l = (0..r.below(6)).map(|_| r.below(REGS)).collect();
                v.push(Fold(i, l, val(r)))
            }
            6 => {
                // Cancel most of it, keeping what is added afterwards.
                let k = (i + 1) % REGS;
                v.push(Copy(k, i));
                let w = runs(r, CAP);
                v.push(From((i + 2) % REGS, w));
                v.push(Add(k, (i + 2) % REGS, false, r.below(3)));
                v.push(Add(k, i, true, r.below(3)));
            }
            7..=12 => v.push(Add(i, j, r.chance(1, 2), r.below(3))),
            _ => v.push(observe(r)),
        }
        if r.chance(1, 3) {
            v.push(observe(r));
        }
    }
    for _ in 0..3 {
        v.push(observe(r));
    }
    v
}
fn emit<F: Fld>(t: &mut Trace, ops: &[Op<F>], r: &mut Rng) {
    let ks: Vec<u64> = (0..CAP).map(|_| 1 + r.u64() % 78).collect();
    let mut regs: Vec<P<F>> = vec![P::new(); REGS];
    let o: Vec<J> = ops.iter().map(|op| run(op, &mut regs, &ks)).collect();
    t.emit(jo! {"ks" => J::A(ks.iter().map(|k| J::N(*k as i64)).collect()), "ops" => J::A(o)});
}
fn scenario<F: Fld>(s: &J, r: &mut Rng) -> Vec<Op<F>> {
    let w = s.get("w").n() as usize;
    let cells = s.get("p").a().len();
    let base = (s.get("base").n() as usize).min(CAP - w * cells);
    let mut mk = |k: &str, r: &mut Rng| {
        let mut v = vec![F::ZERO; base];
        for f in s.get(k).a() {
            let f = f.s().to_string();
            for i in 0..w {
                let on = match f.as_str() {
                    "none" => false,
                    "all" => true,
                    "first" => i == 0,
                    _ => i == w - 1,
                };
                v.push(if on { nz(r) } else { F::ZERO });
            }
        }
        v
    };
    let (p, q) = (mk("p", r), mk("q", r));
    vec![From(0, p), From(1, q), RevDot(0, 1), Copy(2, 0), Add(2, 1, false, 0), Copy(3, 2), Add(3, 0, true, 1), Eval(2, val(r)),
         Dilate(2, val(r)), Mixed(2, sched(r)), Add(3, 1, true, 2), RevDot(3, 2), RevDot(2, 2), Rev(3), Fold(3, vec![0, 1, 2], val(r)), Eval(3, val(r))]
}
fn go<F: Fld>(scenarios: Option<String>, out: &str, seed: u64, scale: u64) {
    let mut r = Rng::new(seed);
    let mut t = Trace::create(out);
    if let Some(s) = scenarios {
        for s in vh::read_nd(&s) {
            let ops = scenario::<F>(&s, &mut r);
            emit(&mut t, &ops, &mut r);
        }
    }
    for _ in 0..60 * scale {
        let h = history::<F>(&mut r);
        emit(&mut t, &h, &mut r);
    }
}
pub fn main(scenarios: Option<String>, out: &str, seed: u64, scale: u64, small: bool) {
    if small { go::<F79>(None, out, seed, scale) } else { go::<F12289>(scenarios, out, seed, scale) }
}

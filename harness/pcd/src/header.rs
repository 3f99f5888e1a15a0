//! C08: headers of many shapes, encoded in every way there is.
use crate::rec::*;
use ff::{Field, PrimeField};
use pasta_curves::Fp;
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::ProductionRank;
use ragu_core::Result;
use ragu_core::drivers::emulator::Emulator;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Gadget, GadgetKind, Kind};
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
use ragu_pasta::Pasta;
use ragu_pcd::ApplicationBuilder;
use ragu_pcd::header::{Header, Suffix};
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_pcd::verif;
use ragu_primitives::io::Write;
use ragu_primitives::vec::{CollectFixed, FixedVec, Len};
use ragu_primitives::{Boolean, Element, Simulator};
use std::cell::Cell;
use std::marker::PhantomData;
use vh::{J, Rng, Trace, catch, jo};

type F = Fp;
type R = ProductionRank;

thread_local! {
    static LEN: Cell<usize> = const { Cell::new(0) };
}
/// A length that is data.
pub struct Dyn;
impl Len for Dyn {
    fn len() -> usize {
        LEN.with(|l| l.get())
    }
}

pub trait Shape: Send + Sync + 'static {
    type Kind: Write<F>;
    fn j() -> J;
    /// Which of its words are bits.
    fn bits() -> Vec<bool>;
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: &DriverValue<D, Vec<F>>, at: &mut usize) -> Result<Bound<'dr, D, Self::Kind>>;
}
pub struct U;
pub struct E;
pub struct B;
pub struct P2<X, Y>(PhantomData<(X, Y)>);
pub struct A3<X>(PhantomData<X>);
pub struct V<X>(PhantomData<X>);
pub struct S3<X, Y>(PhantomData<(X, Y)>);

impl Shape for U {
    type Kind = ();
    fn j() -> J {
        jo! {"t" => "unit"}
    }
    fn bits() -> Vec<bool> {
        vec![]
    }
    fn encode<'dr, D: Driver<'dr, F = F>>(_: &mut D, _: &DriverValue<D, Vec<F>>, _: &mut usize) -> Result<Bound<'dr, D, Self::Kind>> {
        Ok(())
    }
}
impl Shape for E {
    type Kind = Kind![F; Element<'_, _>];
    fn j() -> J {
        jo! {"t" => "elem"}
    }
    fn bits() -> Vec<bool> {
        vec![false]
    }
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: &DriverValue<D, Vec<F>>, at: &mut usize) -> Result<Bound<'dr, D, Self::Kind>> {
        *at += 1;
        Element::alloc(dr, w.as_ref().map(|v| v[*at - 1]))
    }
}
impl Shape for B {
    type Kind = Kind![F; Boolean<'_, _>];
    fn j() -> J {
        jo! {"t" => "bool"}
    }
    fn bits() -> Vec<bool> {
        vec![true]
    }
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: &DriverValue<D, Vec<F>>, at: &mut usize) -> Result<Bound<'dr, D, Self::Kind>> {
        *at += 1;
        Boolean::alloc(dr, w.as_ref().map(|v| bool::from(v[*at - 1].is_odd())))
    }
}
impl<X: Shape, Y: Shape> Shape for P2<X, Y> {
    type Kind = (PhantomData<X::Kind>, PhantomData<Y::Kind>);
    fn j() -> J {
        jo! {"t" => "seq", "of" => J::A(vec![X::j(), Y::j()])}
    }
    fn bits() -> Vec<bool> {
        [X::bits(), Y::bits()].concat()
    }
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: &DriverValue<D, Vec<F>>, at: &mut usize) -> Result<Bound<'dr, D, Self::Kind>> {
        Ok((X::encode(dr, w, at)?, Y::encode(dr, w, at)?))
    }
}
impl<X: Shape> Shape for A3<X> {
    type Kind = [PhantomData<X::Kind>; 3];
    fn j() -> J {
        jo! {"t" => "vec", "k" => 3i64, "of" => J::A(vec![X::j()])}
    }
    fn bits() -> Vec<bool> {
        vec![X::bits(); 3].concat()
    }
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: &DriverValue<D, Vec<F>>, at: &mut usize) -> Result<Bound<'dr, D, Self::Kind>> {
        Ok([X::encode(dr, w, at)?, X::encode(dr, w, at)?, X::encode(dr, w, at)?])
    }
}
impl<X: Shape> Shape for V<X> {
    type Kind = FixedVec<PhantomData<X::Kind>, Dyn>;
    fn j() -> J {
        jo! {"t" => "vec", "k" => Dyn::len() as i64, "of" => J::A(vec![X::j()])}
    }
    fn bits() -> Vec<bool> {
        vec![X::bits(); Dyn::len()].concat()
    }
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: &DriverValue<D, Vec<F>>, at: &mut usize) -> Result<Bound<'dr, D, Self::Kind>> {
        (0..Dyn::len()).map(|_| X::encode(dr, w, at)).collect::<Result<Vec<_>>>()?.into_iter().collect_fixed()
    }
}
#[derive(Gadget, ragu_primitives::io::Write)]
pub struct Trio<'dr, D: Driver<'dr>, G1: GadgetKind<D::F> + Write<D::F>, G2: GadgetKind<D::F> + Write<D::F>> {
    #[ragu(gadget)]
    first: Bound<'dr, D, G1>,
    #[ragu(gadget)]
    mid: Element<'dr, D>,
    #[ragu(gadget)]
    last: Bound<'dr, D, G2>,
}
impl<X: Shape, Y: Shape> Shape for S3<X, Y> {
    type Kind = Kind![F; Trio<'_, _, X::Kind, Y::Kind>];
    fn j() -> J {
        jo! {"t" => "seq", "of" => J::A(vec![X::j(), E::j(), Y::j()])}
    }
    fn bits() -> Vec<bool> {
        [X::bits(), vec![false], Y::bits()].concat()
    }
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: &DriverValue<D, Vec<F>>, at: &mut usize) -> Result<Bound<'dr, D, Self::Kind>> {
        Ok(Trio { first: X::encode(dr, w, at)?, mid: E::encode(dr, w, at)?, last: Y::encode(dr, w, at)? })
    }
}

pub struct H<X, const S: usize>(PhantomData<X>);
impl<X: Shape, const S: usize> Header<F> for H<X, S> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = Vec<F>;
    type Output = X::Kind;
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, X::Kind>> {
        X::encode(dr, &w, &mut 0)
    }
}

pub fn num(f: &F) -> J {
    let r = f.to_repr();
    let b: &[u8] = r.as_ref();
    if b[4..].iter().all(|x| *x == 0) && b[3] < 128 {
        J::N(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as i64)
    } else {
        J::N(-1)
    }
}
fn nums(v: &[F]) -> J {
    J::A(v.iter().map(num).collect())
}
fn vals<'dr, D: Driver<'dr, F = F>>(v: &[Element<'dr, D>]) -> DriverValue<D, Vec<F>> {
    D::just(|| v.iter().map(|e| *e.value().take()).collect())
}
fn show(r: std::result::Result<Result<J>, String>) -> J {
    match r {
        Ok(Ok(j)) => jo! {"ok" => j},
        Ok(Err(ragu_core::Error::MalformedEncoding(_))) => jo! {"err" => "encoding"},
        Ok(Err(_)) => jo! {"err" => "other"},
        Err(_) => jo! {"err" => "panic"},
    }
}

fn both<'dr, D: Driver<'dr, F = F>, X: Shape, const S: usize, const N: usize>(dr: &mut D, how: &str, w: DriverValue<D, Vec<F>>) -> Result<Vec<Element<'dr, D>>> {
    let mut buf = vec![];
    match how {
        "gadget" => {
            let e = Encoded::<D, H<X, S>, N>::new(dr, w)?;
            // A copy encodes like the original.
            let mut other = vec![];
            verif::encoded_write(e.clone(), dr, &mut other)?;
            verif::encoded_write(e, dr, &mut buf)?;
        }
        "bare" => {
            let g = H::<X, S>::encode(dr, w)?;
            verif::encoded_write(Encoded::<D, H<X, S>, N>::from_gadget(g), dr, &mut buf)?;
        }
        _ => {
            let e = verif::encoded_uniform::<D, H<X, S>, N>(dr, w)?;
            verif::encoded_write(e.clone(), dr, &mut buf)?;
            let mut again = vec![];
            verif::encoded_write(e, dr, &mut again)?;
            assert!(buf.len() == again.len());
        }
    }
    Ok(buf)
}
fn rows<M: Mode>(dr: &Rec<F, M>, v: &[Element<'_, Rec<F, M>>]) -> J {
    J::A(v.iter().map(|e| J::A(dr.row(*e.wire()).iter().map(|(w, c)| J::A(vec![J::N(*w as i64), num(c)])).collect())).collect())
}
fn sys<M: Mode>(dr: &Rec<F, M>, v: &[Element<'_, Rec<F, M>>]) -> J {
    let cons = J::A(dr.cons.iter().map(|r| J::A(r.iter().map(|(w, c)| J::A(vec![J::N(*w as i64), num(c)])).collect())).collect());
    jo! {"base" => J::A(dr.base.iter().map(|b| J::from(*b)).collect()), "cons" => cons, "rows" => rows(dr, v)}
}

fn every<X: Shape, const S: usize, const N: usize>(how: &str, data: &[F]) -> J {
    let w = || data.to_vec();
    let just = |v: Vec<F>| <Always<Vec<F>> as Maybe<Vec<F>>>::just(|| v);
    let mut out = vec![];
    out.push(show(catch(|| {
        let mut dr = Simulator::<F>::new();
        let b = both::<_, X, S, N>(&mut dr, how, just(w()))?;
        Ok(nums(&vals::<Simulator<F>>(&b).take()))
    })));
    out.push(show(catch(|| {
        let mut dr = Emulator::execute();
        let b = both::<_, X, S, N>(&mut dr, how, Always::maybe_just(w))?;
        Ok(J::A(b.iter().map(|e| num(e.value().take())).collect()))
    })));
    out.push(show(catch(|| {
        let mut dr = Emulator::extractor();
        let b = both::<_, X, S, N>(&mut dr, how, Always::maybe_just(w))?;
        Ok(J::A(b.iter().map(|e| num(e.wire())).collect()))
    })));
    out.push(show(catch(|| {
        let mut dr = Rec::<F, Always<()>>::new();
        let b = both::<_, X, S, N>(&mut dr, how, Always::maybe_just(w))?;
        Ok(J::A(b.iter().map(|e| num(&dr.row(*e.wire()).iter().map(|(b, c)| dr.vals[*b] * c).sum::<F>())).collect()))
    })));
    J::A(out)
}
fn system<X: Shape, const S: usize, const N: usize>(how: &str) -> J {
    show(catch(|| {
        let mut dr = Rec::<F, Empty>::new();
        let b = both::<_, X, S, N>(&mut dr, how, Empty)?;
        Ok(sys(&dr, &b))
    }))
}
fn rerand<X: Shape, const S: usize, const N: usize>() -> J {
    show(catch(|| {
        let mut dr = Rec::<F, Empty>::new();
        let b = verif::rerandomize_adapter::<_, Pasta, H<X, S>, R, N>(&mut dr, Empty)?;
        Ok(sys(&dr, &b))
    }))
}
fn rerand_vals<X: Shape, const S: usize, const N: usize>(data: &[F]) -> J {
    show(catch(|| {
        let mut dr = Simulator::<F>::new();
        let b = verif::rerandomize_adapter::<_, Pasta, H<X, S>, R, N>(&mut dr, Always::maybe_just(|| data.to_vec()))?;
        Ok(J::A(b.iter().map(|e| num(e.value().take())).collect()))
    }))
}
/// What the verifier takes the encoding to be.
fn verifier<X: Shape, const S: usize, const N: usize>(app: &ragu_pcd::Application<'_, Pasta, R, N>, data: &[F]) -> J {
    use ragu_pcd::verif::native::stages::preamble::ProofInputs;
    show(catch(|| {
        let proof = verif::trivial_proof(app);
        let mut dr = Emulator::execute();
        let p = ProofInputs::<_, Pasta, N>::alloc_for_verify::<R, H<X, S>>(&mut dr, Always::maybe_just(|| &proof), Always::maybe_just(|| data.to_vec()))?;
        Ok(J::A(p.output_header.iter().map(|e| num(e.value().take())).collect()))
    }))
}

fn event<X: Shape, const S: usize, const N: usize>(app: &ragu_pcd::Application<'_, Pasta, R, N>, data: &[F]) -> J {
    let (ref_uni, ref_rr) = (system::<U, 7, N>("uniform"), rerand::<U, 7, N>());
    jo! {"kind" => "encode", "shape" => X::j(), "sfx" => S as i64, "n" => N as i64, "data" => nums(data),
         "gadget" => every::<X, S, N>("gadget", data), "bare" => every::<X, S, N>("bare", data), "uniform" => every::<X, S, N>("uniform", data),
         "verifier" => verifier::<X, S, N>(app, data),
         "sys" => system::<X, S, N>("gadget"), "unisys" => system::<X, S, N>("uniform"), "unione" => ref_uni,
         "rr" => rerand::<X, S, N>(), "rrone" => ref_rr, "rrout" => rerand_vals::<X, S, N>(data)}
}

/// A step that shows the headers it is given, and one it computes from its witness.
pub struct Show<X, Y, Z>(PhantomData<(X, Y, Z)>);
impl<X: Shape, Y: Shape, Z: Shape> Step<Pasta> for Show<X, Y, Z> {
    const INDEX: Index = Index::new(0);
    type Witness<'source> = Vec<F>;
    type Aux<'source> = ();
    type Left = H<X, 0>;
    type Right = H<Y, 1>;
    type Output = H<Z, 5>;
    fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = F>, const N: usize>(
        &self,
        dr: &mut D,
        w: DriverValue<D, Vec<F>>,
        left: DriverValue<D, Vec<F>>,
        right: DriverValue<D, Vec<F>>,
    ) -> Result<((Encoded<'dr, D, Self::Left, N>, Encoded<'dr, D, Self::Right, N>, Encoded<'dr, D, Self::Output, N>), DriverValue<D, Vec<F>>, DriverValue<D, ()>)>
    where
        Self: 'dr,
    {
        // The order of allocation is not the order of the headers.
        let o = Encoded::new(dr, w.clone())?;
        let r = Encoded::new(dr, right)?;
        let l = Encoded::from_gadget(H::<X, 0>::encode(dr, left)?);
        let _ = l.as_gadget();
        Ok(((l, r, o), w, D::unit()))
    }
}
fn step<X: Shape, Y: Shape, Z: Shape, const N: usize>(l: &[F], r: &[F], o: &[F]) -> J {
    let run = |wired: bool| {
        show(catch(|| {
            let w = (l.to_vec(), r.to_vec(), o.to_vec());
            let (out, aux) = if wired {
                let mut dr = Simulator::<F>::new();
                let (b, aux) = verif::adapter::<_, Pasta, Show<X, Y, Z>, R, N>(&mut dr, Show(PhantomData), Always::maybe_just(|| w))?;
                (b.iter().map(|e| *e.value().take()).collect::<Vec<_>>(), aux.take())
            } else {
                let mut dr = Emulator::execute();
                let (b, aux) = verif::adapter::<_, Pasta, Show<X, Y, Z>, R, N>(&mut dr, Show(PhantomData), Always::maybe_just(|| w))?;
                (b.iter().map(|e| *e.value().take()).collect::<Vec<_>>(), aux.take())
            };
            Ok(jo! {"out" => nums(&out), "left" => nums(&aux.0), "right" => nums(&aux.1), "data" => nums(&aux.2)})
        }))
    };
    let h = |s: J, x: i64, d: &[F]| jo! {"s" => s, "sfx" => x, "data" => nums(d)};
    jo! {"kind" => "step", "n" => N as i64, "left" => h(X::j(), 0, l), "right" => h(Y::j(), 1, r), "output" => h(Z::j(), 5, o),
         "runs" => J::A(vec![run(true), run(false)])}
}

macro_rules! shapes {
    ($m:ident, $($a:tt)*) => {
        $m!($($a)*; "unit" U = 0; "elem" E = 1; "bool" B = 2; "pair" P2<E, B> = 3; "nest" P2<P2<B, E>, P2<U, E>> = 1000; "left" P2<P2<E, E>, E> = 4;
            "arr" A3<E> = 5; "arrpair" A3<P2<E, B>> = 6; "vec" V<E> = 9; "vecpair" V<P2<E, E>> = 2147483000; "vecend" P2<V<E>, E> = 10; "trio" S3<E, V<B>> = 11; "trio2" S3<P2<E, E>, U> = 12)
    };
}
pub fn main(scen: &[J], out: &str, seed: u64) {
    let mut t = Trace::create(out);
    let mut r = Rng::new(seed);
    let pasta = Pasta::baked();
    let mut val = |r: &mut Rng, bit: bool| F::from(if bit || r.chance(1, 4) { r.below(2) } else { r.below(1 << 30) } as u64);
    macro_rules! size {
        ($n:literal) => {{
            let app = ApplicationBuilder::<Pasta, R, $n>::new().finalize(pasta).unwrap();
            for s in scen.iter().filter(|s| s.get("n").n() == $n) {
                LEN.with(|l| l.set(s.get("k").n() as usize));
                one::<$n>(&app, s, &mut t, &mut r, &mut val);
            }
        }};
    }
    size!(1);
    size!(2);
    size!(3);
    size!(4);
    size!(6);
    size!(9);
}
fn one<const N: usize>(app: &ragu_pcd::Application<'_, Pasta, R, N>, s: &J, t: &mut Trace, r: &mut Rng, val: &mut impl FnMut(&mut Rng, bool) -> F) {
    macro_rules! go {
        ($name:expr; $($s:literal $x:ty = $v:literal);*) => {
            match $name {
                $($s => {
                    let data: Vec<F> = <$x>::bits().iter().map(|b| val(r, *b)).collect();
                    t.emit(event::<$x, $v, N>(app, &data));
                })*
                x => panic!("shape {x}"),
            }
        };
    }
    macro_rules! st {
        ($x:ty, $y:ty, $z:ty) => {{
            let mut d = |n: Vec<bool>| -> Vec<F> { n.iter().map(|b| val(r, *b)).collect() };
            let (a, b, c) = (d(<$x>::bits()), d(<$y>::bits()), d(<$z>::bits()));
            t.emit(step::<$x, $y, $z, N>(&a, &b, &c));
        }};
    }
    match s.get("shape").s() {
        "step1" => st!(E, V<E>, U),
        "step2" => st!(V<E>, U, P2<E, B>),
        "step3" => st!(U, B, V<B>),
        "step4" => st!(V<B>, V<E>, V<E>),
        name => shapes!(go, name),
    }
}

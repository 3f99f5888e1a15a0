//! The steps and headers of the application under test. Data are small integers.
use ff::Field;
use pasta_curves::Fp;
use ragu_circuits::polynomials::ProductionRank;
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Kind};
use ragu_core::maybe::Maybe;
use ragu_pasta::Pasta;
use ragu_pcd::header::{Header, Suffix};
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_pcd::{Application, ApplicationBuilder};
use ragu_primitives::Element;

pub type F = Fp;
pub type R = ProductionRank;
pub const N: usize = 4;
pub type App<const M: usize = N> = Application<'static, Pasta, R, M>;

macro_rules! single {
    ($t:ident, $s:literal) => {
        pub struct $t;
        impl Header<F> for $t {
            const SUFFIX: Suffix = Suffix::new($s);
            type Data = F;
            type Output = Kind![F; Element<'_, _>];
            fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>> {
                Element::alloc(dr, w)
            }
        }
    };
}
single!(Num, 0);
// The same shape under another name; no step speaks of it.
single!(Alt, 1);
pub struct Pair;
impl Header<F> for Pair {
    const SUFFIX: Suffix = Suffix::new(5);
    type Data = (F, F);
    type Output = Kind![F; (Element<'_, _>, Element<'_, _>)];
    fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: DriverValue<D, (F, F)>) -> Result<Bound<'dr, D, Self::Output>> {
        Ok((Element::alloc(dr, w.as_ref().map(|v| v.0))?, Element::alloc(dr, w.as_ref().map(|v| v.1))?))
    }
}

type Res<'dr, D, L, Rt, O, const M: usize> =
    Result<((Encoded<'dr, D, L, M>, Encoded<'dr, D, Rt, M>, Encoded<'dr, D, O, M>), DriverValue<D, <O as Header<F>>::Data>, DriverValue<D, ()>)>;

macro_rules! step {
    ($t:ident, $i:literal, $w:ty, $l:ty, $r:ty, $o:ty, |$dr:ident, $wit:ident, $le:ident, $ri:ident| $body:block) => {
        pub struct $t;
        impl Step<Pasta> for $t {
            const INDEX: Index = Index::new($i);
            type Witness<'source> = $w;
            type Aux<'source> = ();
            type Left = $l;
            type Right = $r;
            type Output = $o;
            fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = F>, const M: usize>(
                &self,
                $dr: &mut D,
                $wit: DriverValue<D, $w>,
                $le: DriverValue<D, <$l as Header<F>>::Data>,
                $ri: DriverValue<D, <$r as Header<F>>::Data>,
            ) -> Res<'dr, D, $l, $r, $o, M>
            where
                Self: 'dr,
            $body
        }
    };
}
fn val<'dr, D: Driver<'dr, F = F>>(e: &Element<'dr, D>) -> DriverValue<D, F> {
    e.value().map(|v| *v)
}
// w
step!(Leaf, 0, F, (), (), Num, |dr, w, l, r| {
    let o = Encoded::new(dr, w.clone())?;
    Ok(((Encoded::new(dr, l)?, Encoded::new(dr, r)?, o), w, D::unit()))
});
// 2 l + r w
step!(Mix, 1, F, Num, Num, Num, |dr, w, l, r| {
    let l = Encoded::<_, Num, M>::new(dr, l)?;
    let r = Encoded::<_, Num, M>::new(dr, r)?;
    let w = Element::alloc(dr, w)?;
    let t = r.as_gadget().mul(dr, &w)?;
    let o = l.as_gadget().double(dr).add(dr, &t);
    let v = val(&o);
    Ok(((l, r, Encoded::from_gadget(o)), v, D::unit()))
});
// (l, r)
step!(Both, 2, (), Num, Num, Pair, |dr, _w, l, r| {
    let l = Encoded::<_, Num, M>::new(dr, l)?;
    let r = Encoded::<_, Num, M>::new(dr, r)?;
    let (a, b) = (l.as_gadget().clone(), r.as_gadget().clone());
    let (va, vb) = (val(&a), val(&b));
    let v = D::just(|| (va.take(), vb.take()));
    Ok(((l, r, Encoded::from_gadget((a, b))), v, D::unit()))
});
// l1 + 3 l2 + 5 r
step!(Weigh, 3, (), Pair, Num, Num, |dr, _w, l, r| {
    let l = Encoded::<_, Pair, M>::new(dr, l)?;
    let r = Encoded::<_, Num, M>::new(dr, r)?;
    let (a, b) = l.as_gadget();
    let b3 = b.double(dr).add(dr, b);
    let c = r.as_gadget();
    let c5 = c.double(dr).double(dr).add(dr, c);
    let o = a.add(dr, &b3).add(dr, &c5);
    let v = val(&o);
    Ok(((l, r, Encoded::from_gadget(o)), v, D::unit()))
});
// Forgets a number: no data.
step!(Drop, 4, (), Num, (), (), |dr, _w, l, r| {
    let l = Encoded::<_, Num, M>::new(dr, l)?;
    Ok(((l, Encoded::new(dr, r)?, Encoded::from_gadget(())), D::unit(), D::unit()))
});
// w, if w^2 = r
step!(Root, 5, F, (), Num, Num, |dr, w, l, r| {
    let r = Encoded::<_, Num, M>::new(dr, r)?;
    let w = Element::alloc(dr, w)?;
    let s = w.square(dr)?;
    s.sub(dr, r.as_gadget()).enforce_zero(dr)?;
    let v = val(&w);
    Ok(((Encoded::new(dr, l)?, r, Encoded::from_gadget(w)), v, D::unit()))
});
// Nothing from nothing.
step!(Nil, 6, (), (), (), (), |dr, _w, l, r| {
    let l = Encoded::new(dr, l)?;
    let r = Encoded::new(dr, r)?;
    Ok(((l, r, Encoded::from_gadget(())), D::unit(), D::unit()))
});
// Any number of others; the first is only in other applications.
pub struct Extra<const I: usize>;
impl<const I: usize> Step<Pasta> for Extra<I> {
    const INDEX: Index = Index::new(I);
    type Witness<'source> = ();
    type Aux<'source> = ();
    type Left = ();
    type Right = ();
    type Output = Num;
    fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = F>, const M: usize>(
        &self,
        dr: &mut D,
        _: DriverValue<D, ()>,
        l: DriverValue<D, ()>,
        r: DriverValue<D, ()>,
    ) -> Res<'dr, D, (), (), Num, M>
    where
        Self: 'dr,
    {
        let o = Encoded::new(dr, D::just(|| F::ZERO))?;
        Ok(((Encoded::new(dr, l)?, Encoded::new(dr, r)?, o), D::just(|| F::ZERO), D::unit()))
    }
}
// Instead of Root: without its constraint.
step!(Free, 5, F, (), Num, Num, |dr, w, l, r| {
    let r = Encoded::<_, Num, M>::new(dr, r)?;
    let w = Element::alloc(dr, w)?;
    let _ = w.square(dr)?;
    let v = val(&w);
    Ok(((Encoded::new(dr, l)?, r, Encoded::from_gadget(w)), v, D::unit()))
});
/// The application, and others that differ from it by one step.
pub fn app(kind: &str) -> App {
    sized(kind, 0)
}
/// With headers of another size, and so many steps besides.
pub fn sized<const M: usize>(kind: &str, extra: usize) -> App<M> {
    let b = ApplicationBuilder::<Pasta, R, M>::new();
    let b = b.register(Leaf).unwrap().register(Mix).unwrap().register(Both).unwrap().register(Weigh).unwrap().register(Drop).unwrap();
    let (b, n) = match kind {
        "same" => (b.register(Root).unwrap().register(Nil).unwrap(), extra),
        "more" => (b.register(Root).unwrap().register(Nil).unwrap(), extra + 1),
        "free" => (b.register(Free).unwrap().register(Nil).unwrap(), extra),
        "fewer" if extra == 0 => (b.register(Root).unwrap(), 0),
        "fewer" => (b.register(Root).unwrap().register(Nil).unwrap(), extra - 1),
        x => panic!("application {x}"),
    };
    macro_rules! up_to {
        ($b:expr, $n:expr, $($i:literal)*) => {{
            let mut b = $b;
            $(if $i - 7 < $n { b = b.register(Extra::<$i>).unwrap(); })*
            assert!($n <= 12);
            b
        }};
    }
    up_to!(b, n, 7 8 9 10 11 12 13 14 15 16 17 18).finalize(Pasta::baked()).unwrap()
}

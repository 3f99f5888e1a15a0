//! C07: registering steps, and what an application makes of them.
use ff::{Field, PrimeField};
use pasta_curves::Fp;
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::{ProductionRank, Rank};
use ragu_circuits::registry::CircuitIndex;
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::maybe::Maybe;
use ragu_core::gadgets::{Bound, Kind};
use ragu_pasta::Pasta;
use ragu_pcd::header::{Header, Suffix};
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_pcd::{ApplicationBuilder, verif};
use ragu_primitives::Element;
use std::marker::PhantomData;
use rand::Rng as _;
use vh::{J, Rng, Trace, catch, jo};

type F = Fp;
type R = ProductionRank;
const N: usize = 3;
type App = ApplicationBuilder<'static, Pasta, R, N>;

/// The header types: the trivial one, two that share a suffix, one of its own, one that borrows the
/// trivial header's suffix.
pub struct Ha;
pub struct Hb;
pub struct Hc;
pub struct Ht;
macro_rules! header {
    ($t:ty, $s:expr) => {
        impl Header<F> for $t {
            const SUFFIX: Suffix = $s;
            type Data = F;
            type Output = Kind![F; Element<'_, _>];
            fn encode<'dr, D: Driver<'dr, F = F>>(dr: &mut D, w: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>> {
                Element::alloc(dr, w)
            }
        }
    };
}
header!(Ha, Suffix::new(0));
header!(Hb, Suffix::new(0));
header!(Hc, Suffix::new(1));
header!(Ht, <() as Header<F>>::SUFFIX);

/// A step that asks for its own number.
pub struct St<const I: usize, A, B, C>(PhantomData<(A, B, C)>);
impl<const I: usize, A: Header<F>, B: Header<F>, C: Header<F>> Step<Pasta> for St<I, A, B, C> {
    const INDEX: Index = Index::new(I);
    type Witness<'source> = C::Data;
    type Aux<'source> = ();
    type Left = A;
    type Right = B;
    type Output = C;
    fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = F>, const M: usize>(
        &self,
        dr: &mut D,
        w: DriverValue<D, C::Data>,
        left: DriverValue<D, A::Data>,
        right: DriverValue<D, B::Data>,
    ) -> Result<((Encoded<'dr, D, A, M>, Encoded<'dr, D, B, M>, Encoded<'dr, D, C, M>), DriverValue<D, C::Data>, DriverValue<D, ()>)>
    where
        Self: 'dr,
    {
        let e = Element::alloc(dr, D::just(|| F::from(I as u64 + 5)))?;
        let c = Element::constant(dr, F::from(I as u64 + 5));
        e.sub(dr, &c).enforce_zero(dr)?;
        let l = Encoded::new(dr, left)?;
        let r = Encoded::new(dr, right)?;
        let o = Encoded::new(dr, w.clone())?;
        Ok(((l, r, o), w, D::unit()))
    }
}
fn st<const I: usize, A, B, C>() -> St<I, A, B, C> {
    St(PhantomData)
}

enum Reg {
    Ok(App),
    Err(String),
}
fn err(e: ragu_core::Error) -> String {
    match e {
        ragu_core::Error::Initialization(_) => "initialization".into(),
        e => format!("{e:?}"),
    }
}
/// The value of a lone step's circuit, without its key.
fn lone<const I: usize, A: Header<F>, B: Header<F>, C: Header<F>>(x: F, y: F) -> F {
    let r = verif::lone_step::<Pasta, _, R, N>(st::<I, A, B, C>()).unwrap();
    r.circuit_xy(CircuitIndex::new(0), x, y) - r.digest() * (x * y).pow([R::num_coeffs() as u64 - 1])
}
fn add<const I: usize, A: Header<F>, B: Header<F>, C: Header<F>>(b: App, see: Option<(F, F)>, refs: &mut Vec<F>) -> Reg {
    if let Some((x, y)) = see {
        refs.push(lone::<I, A, B, C>(x, y));
    }
    match catch(|| b.register(st::<I, A, B, C>())) {
        Ok(Ok(b)) => Reg::Ok(b),
        Ok(Err(e)) => Reg::Err(err(e)),
        Err(_) => Reg::Err("panic".into()),
    }
}
macro_rules! ty {
    ($f:ident, $n:expr, ($($g:tt)*), ($($args:expr),*)) => {
        match $n {
            "unit" => $f!(($($g)* (),), ($($args),*)),
            "A" => $f!(($($g)* Ha,), ($($args),*)),
            "B" => $f!(($($g)* Hb,), ($($args),*)),
            "C" => $f!(($($g)* Hc,), ($($args),*)),
            "T" => $f!(($($g)* Ht,), ($($args),*)),
            x => panic!("type {x}"),
        }
    };
}
macro_rules! on3 { (($($g:tt)*), ($s:expr, $b:expr, $see:expr, $refs:expr)) => { add::<$($g)*>($b, $see, $refs) }; }
macro_rules! on2 { (($($g:tt)*), ($s:expr, $b:expr, $see:expr, $refs:expr)) => { ty!(on3, $s.get("o").s(), ($($g)*), ($s, $b, $see, $refs)) }; }
macro_rules! on1 { (($($g:tt)*), ($s:expr, $b:expr, $see:expr, $refs:expr)) => { ty!(on2, $s.get("r").s(), ($($g)*), ($s, $b, $see, $refs)) }; }
fn same<const I: usize>(s: &J, b: App, see: Option<(F, F)>, refs: &mut Vec<F>) -> Reg {
    assert!(s.get("l").s() == s.get("r").s() && s.get("r").s() == s.get("o").s());
    match s.get("l").s() {
        "unit" => add::<I, (), (), ()>(b, see, refs),
        "A" => add::<I, Ha, Ha, Ha>(b, see, refs),
        "B" => add::<I, Hb, Hb, Hb>(b, see, refs),
        "C" => add::<I, Hc, Hc, Hc>(b, see, refs),
        "T" => add::<I, Ht, Ht, Ht>(b, see, refs),
        x => panic!("type {x}"),
    }
}
fn register(s: &J, b: App, see: Option<(F, F)>, refs: &mut Vec<F>) -> Reg {
    match s.get("i").n() {
        0 => ty!(on1, s.get("l").s(), (0,), (s, b, see, refs)),
        1 => ty!(on1, s.get("l").s(), (1,), (s, b, see, refs)),
        2 => same::<2>(s, b, see, refs),
        3 => same::<3>(s, b, see, refs),
        i => panic!("index {i}"),
    }
}

/// Numbers field elements in order of appearance.
#[derive(Default)]
struct Ids(Vec<F>);
impl Ids {
    fn id(&mut self, f: F) -> J {
        if let Some(i) = self.0.iter().position(|g| *g == f) {
            return J::N(i as i64);
        }
        self.0.push(f);
        J::N(self.0.len() as i64 - 1)
    }
}
fn index(i: usize, n: usize) -> J {
    match catch(|| verif::circuit_index(&Index::new(i), n)) {
        Ok(Ok(_)) => jo! {"ok" => true},
        Ok(Err(e)) => jo! {"err" => err(e).as_str()},
        Err(_) => jo! {"err" => "panic"},
    }
}
/// What a finished application holds for its steps.
fn finished(b: App, n: usize, refs: &[F], x: F, y: F, ids: &mut Ids) -> J {
    let app = match catch(|| b.finalize(Pasta::baked())) {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => return jo! {"err" => err(e).as_str()},
        Err(_) => return jo! {"err" => "panic"},
    };
    let reg = verif::registry(&app);
    let key = reg.digest() * (x * y).pow([R::num_coeffs() as u64 - 1]);
    let mut steps = vec![];
    for i in 0..n {
        let c = verif::circuit_index(&Index::new(i), n).unwrap();
        let got = reg.circuit_xy(c, x, y) - key;
        steps.push(jo! {"got" => ids.id(got), "want" => ids.id(refs[i]), "inside" => reg.circuit_in_domain(c), "point" => ids.id(c.omega_j())});
    }
    let over = [n, n + 1, n + 1000, usize::MAX].iter().map(|i| index(*i, n)).collect();
    let mut rng = rand::rng();
    let seed = match catch(|| app.seed(&mut rng, st::<1000, (), (), ()>(), ())) {
        Ok(Ok(_)) => jo! {"ok" => true},
        Ok(Err(e)) => jo! {"err" => err(e).as_str()},
        Err(_) => jo! {"err" => "panic"},
    };
    jo! {"ok" => jo! {"circuits" => reg.num_circuits() as i64, "internal" => verif::NUM_INTERNAL as i64, "steps" => J::A(steps), "over" => J::A(over), "unregistered" => seed}}
}

/// An application of many steps.
macro_rules! many {
    ($b:expr, $n:expr, $refs:expr, $x:expr, $y:expr; $($i:literal)*) => {{
        let mut b = $b;
        $(if $i < $n {
            $refs.push(lone::<$i, (), (), Hc>($x, $y));
            b = b.register(st::<$i, (), (), Hc>())?;
        })*
        Ok(b)
    }};
}
fn many(n: usize, refs: &mut Vec<F>, x: F, y: F) -> Result<App> {
    many!(App::new(), n, refs, x, y; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48)
}

fn word(l: &J) -> usize {
    l.a().iter().fold(0usize, |acc, d| (acc << 16) | d.n() as usize)
}
fn limbs(v: u64) -> J {
    J::A((0..4).rev().map(|i| J::N(((v >> (16 * i)) & 0xffff) as i64)).collect())
}

pub fn main(scen: &[J], out: &str, seed: u64) {
    let mut t = Trace::create(out);
    let mut r = Rng::new(seed);
    let mut ids = Ids::default();
    let mut pt = || F::from_u128(((r.next_u64() as u128) << 64) | r.next_u64() as u128);
    for s in scen {
        let (x, y) = (pt(), pt());
        match s.get("kind").s() {
            "build" => {
                let see = (s.get("fin").n() == 1).then_some((x, y));
                let (mut res, mut refs, mut b) = (vec![], vec![], Some(App::new()));
                for q in s.get("steps").a() {
                    match register(q, b.take().unwrap(), see, &mut refs) {
                        Reg::Ok(n) => {
                            res.push(J::from("ok"));
                            b = Some(n);
                        }
                        Reg::Err(e) => {
                            res.push(J::from(e.as_str()));
                            break;
                        }
                    }
                }
                let fin = match b {
                    Some(b) if see.is_some() => finished(b, s.get("steps").a().len(), &refs, x, y, &mut ids),
                    _ => jo! {"none" => true},
                };
                t.emit(jo! {"kind" => "build", "steps" => s.get("steps").clone(), "res" => J::A(res), "fin" => fin});
            }
            "many" => {
                let n = s.get("n").n() as usize;
                let mut refs = vec![];
                let fin = match catch(|| many(n, &mut refs, x, y)) {
                    Ok(Ok(b)) => finished(b, n, &refs, x, y, &mut ids),
                    Ok(Err(e)) => jo! {"err" => err(e).as_str()},
                    Err(_) => jo! {"err" => "panic"},
                };
                t.emit(jo! {"kind" => "many", "n" => n as i64, "fin" => fin});
            }
            "suffix" => {
                let w = word(s.get("w"));
                let out = match catch(|| Suffix::new(w)) {
                    Err(_) => jo! {"err" => "refused"},
                    Ok(s) => match catch(|| verif::suffix_value(&s)) {
                        Ok(v) => jo! {"ok" => limbs(v)},
                        Err(_) => jo! {"err" => "accepted, then panicked"},
                    },
                };
                t.emit(jo! {"kind" => "suffix", "w" => s.get("w").clone(), "out" => out});
            }
            k => panic!("kind {k}"),
        }
    }
    // The point of a step does not depend on how many there are.
    let mut rows = vec![];
    for n in [1usize, 2, 3, 7, 8, 9, 40, 41, 100, 1000, 8000] {
        for i in [0usize, 1, 2, 6, 7, 8, 39, 40, 99, 999, 7999].into_iter().filter(|i| *i < n) {
            let c = verif::circuit_index(&Index::new(i), n).unwrap();
            rows.push(jo! {"n" => n as i64, "i" => i as i64, "point" => ids.id(c.omega_j())});
        }
    }
    t.emit(jo! {"kind" => "points", "rows" => J::A(rows)});
}

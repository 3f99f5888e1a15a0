//! Exercises the derived operations of generated gadget definitions and records what they visit.
use ff::Field;
use pasta_curves::EpAffine;
use ragu_arithmetic::{Coeff, CurveAffine};
use ragu_core::convert::{CloneWires, StripWires, WireMap};
use ragu_core::drivers::emulator::{Emulator, Wired, Wireless};
use ragu_core::drivers::{Driver, DriverTypes, DriverValue, LinearExpression};
use ragu_core::gadgets::{Bound, Gadget, GadgetKind, Kind};
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
use ragu_core::{Error, Result};
use ragu_pasta::Fp;
use ragu_primitives::consistent::Consistent;
use ragu_primitives::io::{Buffer, Write};
use ragu_primitives::promotion::{Demoted, DemotedDriver};
use ragu_primitives::vec::{ConstLen, FixedVec, Len};
use ragu_primitives::{Boolean, Element, GadgetExt};
use std::any::TypeId;
use std::marker::PhantomData;
use vh::{J, Trace, jo};

pub type F = Fp;

/// A wire that is nothing but its name.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Tag(pub i64);
pub trait Id {
    fn id(&self) -> i64;
}
impl Id for Tag {
    fn id(&self) -> i64 {
        self.0
    }
}
impl Id for () {
    fn id(&self) -> i64 {
        0
    }
}

/// A driver whose wires are names; it records which named wires each constraint mentions.
pub struct Tags<M> {
    next: i64,
    /// One entry per constraint that mentions wires created elsewhere.
    log: Vec<Vec<i64>>,
    fail: usize,
    _m: PhantomData<M>,
}
impl<M> Tags<M> {
    fn new(first: i64, fail: usize) -> Self {
        Tags { next: first, log: vec![], fail, _m: PhantomData }
    }
    fn fresh(&mut self) -> Tag {
        self.next += 1;
        Tag(self.next - 1)
    }
}
#[derive(Default, Clone)]
pub struct Mentions(Vec<i64>);
impl LinearExpression<Tag, F> for Mentions {
    fn add_term(mut self, w: &Tag, _: Coeff<F>) -> Self {
        self.0.push(w.0);
        self
    }
    fn gain(self, _: Coeff<F>) -> Self {
        self
    }
}
/// Wires made by the driver itself while an operation runs.
const OWN: i64 = 90000;
impl<M: MaybeKind> DriverTypes for Tags<M> {
    type ImplField = F;
    type ImplWire = Tag;
    type MaybeKind = M;
    type LCadd = Mentions;
    type LCenforce = Mentions;
    fn gate(&mut self, _: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>) -> Result<(Tag, Tag, Tag, Tag)> {
        let t = self.fresh();
        Ok((t, t, t, t))
    }
}
impl<'dr, M: MaybeKind + 'static> Driver<'dr> for Tags<M> {
    type F = F;
    type Wire = Tag;
    const ONE: Tag = Tag(OWN + 1);
    fn alloc(&mut self, _: impl Fn() -> Result<Coeff<F>>) -> Result<Tag> {
        Ok(self.fresh())
    }
    fn add(&mut self, _: impl Fn(Mentions) -> Mentions) -> Tag {
        self.fresh()
    }
    fn enforce_zero(&mut self, lc: impl Fn(Mentions) -> Mentions) -> Result<()> {
        let mut m: Vec<i64> = lc(Mentions::default()).0.into_iter().filter(|t| *t < OWN).collect();
        m.sort();
        if m.is_empty() {
            return Ok(());
        }
        self.log.push(m);
        if self.log.len() == self.fail { Err(stop()) } else { Ok(()) }
    }
}
fn stop() -> Error {
    Error::InvalidWitness("stop".into())
}

pub type Here = Tags<Always<()>>;
pub type Gone = Tags<Empty>;

/// Builds instances: wires and values numbered in the order the fields are declared.
pub struct Maker {
    dr: Here,
    values: i64,
}
impl Maker {
    pub fn wire(&mut self) -> Tag {
        self.dr.fresh()
    }
    pub fn value<T: From<u16> + Send>(&mut self) -> Always<T> {
        self.values += 1;
        let n = 1000 + self.values as u16;
        Always::maybe_just(|| T::from(n))
    }
}
pub trait Make {
    fn make(m: &mut Maker) -> Self;
}

/// Reads an instance field by field.
#[derive(Default)]
pub struct Seen(Vec<J>);
impl Seen {
    pub fn wire<W: Id>(&mut self, w: &W) {
        self.0.push(J::N(w.id()));
    }
    pub fn value<D: DriverTypes, T: Clone + Send + Sync>(&mut self, v: &DriverValue<D, T>, n: impl Fn(T) -> i64) {
        let mut got = 0;
        let r = &mut got;
        let _ = <DriverValue<D, T> as Maybe<T>>::just(|| *r = n(v.as_ref().take().clone()));
        self.0.push(J::N(got));
    }
}
pub trait Dump<'dr, D: Driver<'dr>> {
    fn dump(&self, s: &mut Seen);
}
pub fn look<'dr, D: Driver<'dr>, G: Dump<'dr, D>>(g: &G) -> J {
    let mut s = Seen::default();
    g.dump(&mut s);
    J::A(s.0)
}
pub fn small(f: F) -> i64 {
    (0..3000).find(|n| F::from(*n as u64) == f).unwrap_or(-1)
}

// ------------------------------------------------------------------------------------------------
impl Make for Element<'static, Here> {
    fn make(m: &mut Maker) -> Self {
        let w = m.wire();
        Element::promote(w, m.value::<u64>().map(F::from))
    }
}
impl<'dr, D: Driver<'dr, F = F>> Dump<'dr, D> for Element<'dr, D>
where
    D::Wire: Id,
{
    fn dump(&self, s: &mut Seen) {
        s.wire(self.wire());
        let v: DriverValue<D, F> = self.value().map(|v| *v);
        s.value::<D, F>(&v, small);
    }
}
impl Make for Boolean<'static, Here> {
    fn make(m: &mut Maker) -> Self {
        let v = m.value::<u64>().map(|v| v % 2 == 1);
        Boolean::alloc(&mut m.dr, v).unwrap()
    }
}
impl<'dr, D: Driver<'dr, F = F>> Dump<'dr, D> for Boolean<'dr, D>
where
    D::Wire: Id,
{
    fn dump(&self, s: &mut Seen) {
        s.wire(self.wire());
        s.value::<D, bool>(&self.value(), |b| 2000 + b as i64);
    }
}
/// A gadget whose consistency check is visible: one constraint on its wire.
#[derive(Gadget)]
pub struct Probe<'dr, D: Driver<'dr>> {
    #[ragu(value)]
    pub v: DriverValue<D, u64>,
    #[ragu(wire)]
    pub w: D::Wire,
}
impl<'dr, D: Driver<'dr>> Consistent<'dr, D> for Probe<'dr, D> {
    fn enforce_consistent(&self, dr: &mut D) -> Result<()> {
        dr.enforce_zero(|lc| lc.add(&self.w))
    }
}
impl<FF: Field> Write<FF> for Kind![FF; @Probe<'_, _>] {
    fn write_gadget<'dr, D: Driver<'dr, F = FF>, B: Buffer<'dr, D>>(
        this: &Probe<'dr, D>,
        dr: &mut D,
        buf: &mut B,
    ) -> Result<()> {
        buf.write(dr, &Element::promote(this.w.clone(), D::just(|| FF::ONE)))
    }
}
impl Make for Probe<'static, Here> {
    fn make(m: &mut Maker) -> Self {
        Probe { w: m.wire(), v: m.value() }
    }
}
impl<'dr, D: Driver<'dr, F = F>> Dump<'dr, D> for Probe<'dr, D>
where
    D::Wire: Id,
{
    fn dump(&self, s: &mut Seen) {
        s.wire(&self.w);
        s.value::<D, u64>(&self.v, |v| v as i64);
    }
}

impl Make for () {
    fn make(_: &mut Maker) -> Self {}
}
impl<'dr, D: Driver<'dr>> Dump<'dr, D> for () {
    fn dump(&self, _: &mut Seen) {}
}
impl<T: Make, const N: usize> Make for [T; N] {
    fn make(m: &mut Maker) -> Self {
        core::array::from_fn(|_| T::make(m))
    }
}
impl<'dr, D: Driver<'dr>, T: Dump<'dr, D>, const N: usize> Dump<'dr, D> for [T; N] {
    fn dump(&self, s: &mut Seen) {
        for i in 0..N {
            self[i].dump(s);
        }
    }
}
impl<A: Make, B: Make> Make for (A, B) {
    fn make(m: &mut Maker) -> Self {
        let a = A::make(m);
        let b = B::make(m);
        (a, b)
    }
}
impl<'dr, D: Driver<'dr>, A: Dump<'dr, D>, B: Dump<'dr, D>> Dump<'dr, D> for (A, B) {
    fn dump(&self, s: &mut Seen) {
        self.0.dump(s);
        self.1.dump(s);
    }
}
impl<T: Make> Make for Box<T> {
    fn make(m: &mut Maker) -> Self {
        Box::new(T::make(m))
    }
}
impl<'dr, D: Driver<'dr>, T: Dump<'dr, D>> Dump<'dr, D> for Box<T> {
    fn dump(&self, s: &mut Seen) {
        (**self).dump(s)
    }
}
impl<T: Make, L: Len> Make for FixedVec<T, L> {
    fn make(m: &mut Maker) -> Self {
        let v: Vec<T> = (0..L::len()).map(|_| T::make(m)).collect();
        FixedVec::new(v).unwrap()
    }
}
impl<'dr, D: Driver<'dr>, T: Dump<'dr, D>, L: Len> Dump<'dr, D> for FixedVec<T, L> {
    fn dump(&self, s: &mut Seen) {
        for i in 0..self.len() {
            self[i].dump(s);
        }
    }
}
impl<G: Gadget<'static, Here> + Make> Make for Demoted<'static, Here, G> {
    fn make(m: &mut Maker) -> Self {
        Demoted::new(&G::make(m)).unwrap()
    }
}
impl<'dr, D: Driver<'dr>, G: Gadget<'dr, D>> Dump<'dr, D> for Demoted<'dr, D, G>
where
    Bound<'dr, DemotedDriver<D>, G::Kind>: Dump<'dr, DemotedDriver<D>>,
{
    fn dump(&self, s: &mut Seen) {
        (**self).dump(s)
    }
}

// ------------------------------------------------------------------------------------------------
/// Visits wires in whatever order it is called, naming its results after the order of the calls.
struct Visit<S, D> {
    log: Vec<J>,
    fail: usize,
    _m: PhantomData<(S, D)>,
}
fn visit<S, D>(fail: usize) -> Visit<S, D> {
    Visit { log: vec![], fail, _m: PhantomData }
}
impl<S: DriverTypes<ImplField = F, ImplWire = Tag>, D: DriverTypes<ImplField = F, ImplWire = Tag>> WireMap<F> for Visit<S, D> {
    type Src = S;
    type Dst = D;
    fn convert_wire(&mut self, w: &Tag) -> Result<Tag> {
        self.log.push(J::N(w.0));
        if self.log.len() == self.fail {
            return Err(stop());
        }
        Ok(Tag(5000 + self.log.len() as i64))
    }
}
/// Adds a constant to each name.
struct Shift<S, D>(PhantomData<(S, D)>);
impl<S: DriverTypes<ImplField = F, ImplWire = Tag>, D: DriverTypes<ImplField = F, ImplWire = Tag>> WireMap<F> for Shift<S, D> {
    type Src = S;
    type Dst = D;
    fn convert_wire(&mut self, w: &Tag) -> Result<Tag> {
        Ok(Tag(w.0 + 10000))
    }
}
/// Turns names into field elements, as wires that carry values.
struct Wiring;
impl WireMap<F> for Wiring {
    type Src = Here;
    type Dst = Emulator<Wired<F>>;
    fn convert_wire(&mut self, w: &Tag) -> Result<F> {
        Ok(F::from(w.0 as u64))
    }
}
struct Buf {
    log: Vec<J>,
    fail: usize,
}
impl<'dr> Buffer<'dr, Here> for Buf {
    fn write(&mut self, _: &mut Here, e: &Element<'dr, Here>) -> Result<()> {
        self.log.push(J::N(e.wire().0));
        if self.log.len() == self.fail { Err(stop()) } else { Ok(()) }
    }
}

fn ran(r: Result<()>, log: Vec<J>) -> J {
    jo! { "ok" => r.is_ok(), "log" => J::A(log) }
}
fn logs(v: Vec<Vec<i64>>) -> Vec<J> {
    v.into_iter().map(|l| J::A(l.into_iter().map(J::N).collect())).collect()
}
/// The operation undisturbed, then stopped at its first, second, ... visit.
fn upto(n: usize, f: impl Fn(usize) -> J) -> J {
    J::A((0..=n + 1).map(f).collect())
}

pub fn make<G: Make>(first: i64) -> G {
    G::make(&mut Maker { dr: Tags::new(first, 0), values: 0 })
}

pub fn common<K: GadgetKind<F>>(n: usize) -> Vec<(&'static str, J)>
where
    Bound<'static, Here, K>: Make + Dump<'static, Here>,
    Bound<'static, Gone, K>: Dump<'static, Gone>,
    Bound<'static, Emulator<Wireless<Always<()>, F>>, K>: Dump<'static, Emulator<Wireless<Always<()>, F>>>,
    Bound<'static, DemotedDriver<Here>, K>: Dump<'static, DemotedDriver<Here>>,
    Bound<'static, DemotedDriver<Gone>, K>: Dump<'static, DemotedDriver<Gone>>,
{
    type G<K> = Bound<'static, Here, K>;
    let g: G<K> = make(1);
    let mut o = vec![("made", look::<Here, _>(&g))];
    o.push(("wires", J::N(g.num_wires().unwrap() as i64)));
    o.push(("clone", look::<Here, _>(&g.clone())));
    o.push(("map", {
        let mut v = visit::<Here, Here>(0);
        let m = g.map(&mut v).unwrap();
        jo! { "log" => J::A(v.log), "out" => look::<Here, _>(&m) }
    }));
    o.push(("stop", upto(n, |k| {
        let mut v = visit::<Here, Here>(k);
        let r = g.map(&mut v).map(|_| ());
        ran(r, v.log)
    })));
    o.push(("gone", {
        let mut v = visit::<Here, Gone>(0);
        let m = g.map(&mut v).unwrap();
        let mut w = visit::<Gone, Gone>(0);
        let m2 = m.map(&mut w).unwrap();
        jo! { "log" => J::A(v.log), "out" => look::<Gone, _>(&m), "wires" => m.num_wires().unwrap() as i64,
              "clone" => look::<Gone, _>(&m.clone()), "log2" => J::A(w.log), "out2" => look::<Gone, _>(&m2) }
    }));
    o.push(("twice", {
        let m = g.map(&mut Shift::<Here, Here>(PhantomData)).unwrap();
        let m = m.map(&mut Shift::<Here, Here>(PhantomData)).unwrap();
        look::<Here, _>(&m)
    }));
    o.push(("cloned", look::<Here, _>(&CloneWires::<Here, Here>::remap(&g).unwrap())));
    o.push(("strip", look::<Emulator<Wireless<Always<()>, F>>, _>(&StripWires::<Here>::remap(&g).unwrap())));
    o.push(("wired", {
        let m = g.map(&mut Wiring).unwrap();
        J::A(Emulator::<Wired<F>>::extractor().wires(&m).unwrap().into_iter().map(|f| J::N(small(f))).collect())
    }));
    o.push(("demote", {
        let d = g.demote().unwrap();
        let mut v = visit::<Here, Gone>(0);
        let m = d.map(&mut v).unwrap();
        jo! { "out" => look::<Here, _>(&d), "clone" => look::<Here, _>(&d.clone()), "log" => J::A(v.log),
              "mapped" => look::<Gone, _>(&m), "wires" => d.num_wires().unwrap() as i64 }
    }));
    o.push(("eq", upto(n, |k| {
        let h: G<K> = make(101);
        let mut dr = Here::new(OWN + 2, k);
        let r = g.enforce_equal(&mut dr, &h);
        ran(r, logs(dr.log))
    })));
    o.push(("again", look::<Here, _>(&g)));
    o
}
pub fn written<K: Write<F>>(n: usize) -> (&'static str, J)
where
    Bound<'static, Here, K>: Make,
{
    let g: Bound<'static, Here, K> = make(1);
    ("write", upto(n, |k| {
        let mut b = Buf { log: vec![], fail: k };
        let r = g.write(&mut Here::new(OWN + 2, 0), &mut b);
        ran(r, b.log)
    }))
}
pub fn checked<G: Consistent<'static, Here> + Make>(n: usize) -> (&'static str, J) {
    let g: G = make(1);
    ("check", upto(n, |k| {
        let mut dr = Here::new(OWN + 2, k);
        let r = g.enforce_consistent(&mut dr);
        ran(r, logs(dr.log).into_iter().map(|l| if let J::A(v) = l { v[0].clone() } else { l }).collect())
    }))
}
pub fn named<A: 'static, B: 'static>() -> (&'static str, J) {
    ("named", J::B(TypeId::of::<A>() == TypeId::of::<B>()))
}

/// Traits with the shapes of bound that definitions use to mention their driver's field.
pub trait Over<T>: Send + Sync + 'static {}
pub trait Tied: Send + Sync + 'static {
    type Base;
}
pub struct Any0;
impl<T> Over<T> for Any0 {}
impl Tied for Any0 {
    type Base = F;
}

include!(env!("SHAPES_RS"));

fn main() {
    vh::quiet_panics();
    let mut fs: Vec<(u64, fn() -> J)> = vec![];
    shapes(&mut fs);
    let by: std::collections::HashMap<u64, fn() -> J> = fs.into_iter().collect();
    let mut t = Trace::create(&vh::arg("out").unwrap());
    for s in vh::read_nd(&vh::arg("scenarios").unwrap()) {
        let id = s.get("id").n() as u64;
        let obs = match vh::catch(by[&id]) {
            Ok(o) => o,
            Err(e) => jo! { "panic" => e.as_str() },
        };
        t.emit(jo! { "id" => id as i64, "shape" => s.get("shape").clone(), "obs" => obs });
    }
}

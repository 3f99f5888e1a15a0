//! A driver that records the constraint system a program emits, with or without witness values.
use ff::Field;
use ragu_arithmetic::Coeff;
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverTypes, LinearExpression};
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
use std::collections::BTreeMap;
use vh::{J, jo};

/// How a program runs: with witness values present or absent.
pub trait Mode: MaybeKind + 'static {
    const PRESENT: bool;
    fn eval<T: Send>(f: impl FnOnce() -> T) -> Option<T>;
}
impl Mode for Always<()> {
    const PRESENT: bool = true;
    fn eval<T: Send>(f: impl FnOnce() -> T) -> Option<T> {
        Some(<Always<T> as Maybe<T>>::just(f).take())
    }
}
impl Mode for Empty {
    const PRESENT: bool = false;
    fn eval<T: Send>(_: impl FnOnce() -> T) -> Option<T> {
        None
    }
}

/// A linear combination of allocated wires (wire 0 is the constant one).
pub type Row<F> = Vec<(usize, F)>;

#[derive(Clone)]
pub struct Lin<F: Field> {
    terms: Vec<(usize, F)>,
    gain: F,
}
impl<F: Field> Default for Lin<F> {
    fn default() -> Self {
        Lin { terms: vec![], gain: F::ONE }
    }
}
impl<F: Field> LinearExpression<usize, F> for Lin<F> {
    fn add_term(mut self, w: &usize, c: Coeff<F>) -> Self {
        self.terms.push((*w, c.value() * self.gain));
        self
    }
    fn gain(mut self, c: Coeff<F>) -> Self {
        self.gain *= c.value();
        self
    }
}

/// `M` says whether witnesses are present. Wires are indices into `rows`: each is a linear
/// combination of the base wires, which are numbered in the order of their creation.
pub struct Rec<F: Field, M: Mode> {
    pub rows: Vec<Row<F>>,
    pub base: Vec<&'static str>,
    pub vals: Vec<F>,
    pub cons: Vec<Row<F>>,
    _m: core::marker::PhantomData<M>,
}
impl<F: Field, M: Mode> Rec<F, M> {
    pub fn new() -> Self {
        Rec { rows: vec![vec![(0, F::ONE)]], base: vec!["one"], vals: vec![F::ONE], cons: vec![], _m: Default::default() }
    }
    fn fresh(&mut self, kind: &'static str, v: Option<F>) -> usize {
        let b = self.base.len();
        self.base.push(kind);
        self.vals.push(v.unwrap_or(F::ZERO));
        self.rows.push(vec![(b, F::ONE)]);
        self.rows.len() - 1
    }
    /// A fresh unconstrained wire.
    pub fn free(&mut self, v: Option<F>) -> usize {
        self.fresh("free", v)
    }
    fn expand(&self, l: &Lin<F>) -> Row<F> {
        let mut m = BTreeMap::new();
        for (w, c) in &l.terms {
            for (b, d) in &self.rows[*w] {
                *m.entry(*b).or_insert(F::ZERO) += *c * *d;
            }
        }
        m.into_iter().filter(|(_, c)| *c != F::ZERO).collect()
    }
    pub fn fix(&mut self, w: usize, v: F) {
        let mut r = self.rows[w].clone();
        r.insert(0, (0, -v));
        self.cons.push(r);
    }
    pub fn row(&self, w: usize) -> Row<F> {
        self.rows[w].clone()
    }
}
impl<F: Field, M: Mode> DriverTypes for Rec<F, M> {
    type ImplField = F;
    type ImplWire = usize;
    type MaybeKind = M;
    type LCadd = Lin<F>;
    type LCenforce = Lin<F>;
    fn gate(
        &mut self,
        values: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>,
    ) -> Result<(usize, usize, usize, usize)> {
        let mut v = [None; 4];
        let mut err = None;
        M::eval(|| match values() {
            Ok((a, b, c, d)) => v = [Some(a.value()), Some(b.value()), Some(c.value()), Some(d.value())],
            Err(e) => err = Some(e),
        });
        if let Some(e) = err {
            return Err(e);
        }
        Ok((self.fresh("a", v[0]), self.fresh("b", v[1]), self.fresh("c", v[2]), self.fresh("d", v[3])))
    }
}
impl<'dr, F: Field, M: Mode> Driver<'dr> for Rec<F, M> {
    type F = F;
    type Wire = usize;
    const ONE: usize = 0;
    fn alloc(&mut self, value: impl Fn() -> Result<Coeff<F>>) -> Result<usize> {
        let (mut v, mut err) = (None, None);
        M::eval(|| match value() {
            Ok(c) => v = Some(c.value()),
            Err(e) => err = Some(e),
        });
        match err {
            Some(e) => Err(e),
            None => Ok(self.free(v)),
        }
    }
    fn add(&mut self, lc: impl Fn(Lin<F>) -> Lin<F>) -> usize {
        let r = self.expand(&lc(Lin::default()));
        self.rows.push(r);
        self.rows.len() - 1
    }
    fn enforce_zero(&mut self, lc: impl Fn(Lin<F>) -> Lin<F>) -> Result<()> {
        let r = self.expand(&lc(Lin::default()));
        self.cons.push(r);
        Ok(())
    }
}

pub fn row_json<F: Field + Into<J>>(r: &Row<F>) -> J {
    J::A(r.iter().map(|(w, c)| J::A(vec![J::N(*w as i64), (*c).into()])).collect())
}

/// The relation an instruction claims: wires of its arguments and results.
pub struct Claim<W, F> {
    pub o: String,
    pub k: J,
    pub a: Vec<Vec<W>>,
    pub r: Vec<W>,
    pub v: Option<Vec<F>>,
}

fn rows<F: Field + Into<J>, M: Mode>(dr: &Rec<F, M>, ws: &[usize]) -> J {
    J::A(ws.iter().map(|w| row_json(&dr.row(*w))).collect())
}

/// The recorded system: base wires, constraints and claims.
pub fn system<F: Field + Into<J>, M: Mode>(dr: &Rec<F, M>, cl: &[Claim<usize, F>], complete: bool) -> J {
    jo! {
        "base" => J::A(dr.base.iter().map(|b| J::from(*b)).collect()),
        "cons" => J::A(dr.cons.iter().map(row_json).collect()),
        "claims" => J::A(cl.iter().map(|c| jo! {
            "o" => c.o.as_str(), "k" => c.k.clone(),
            "a" => J::A(c.a.iter().map(|ws| rows(dr, ws)).collect()), "r" => rows(dr, &c.r),
        }).collect()),
        "complete" => complete,
    }
}

/// Bookkeeping for the search: which constraints and claims are decided by each wire, and which
/// wires nothing looks at any more after it.
pub fn plan<F: Field + Into<J>, M: Mode>(dr: &Rec<F, M>, cl: &[Claim<usize, F>]) -> J {
    let n = dr.base.len();
    let (mut con, mut claim, mut drop) = (vec![vec![]; n], vec![vec![]; n], vec![vec![]; n]);
    let mut until: Vec<usize> = (0..n)
        .map(|w| match dr.base[w] {
            "a" => w + 2,
            "b" | "c" => w + 1,
            _ => w,
        })
        .collect();
    let mut used = vec![false; n];
    let mut place = |ws: Vec<usize>| {
        let m = ws.iter().copied().max().unwrap_or(0);
        for w in ws {
            until[w] = until[w].max(m);
            used[w] = true;
        }
        m
    };
    for (j, r) in dr.cons.iter().enumerate() {
        con[place(r.iter().map(|t| t.0).collect())].push(j + 1);
    }
    for (j, c) in cl.iter().enumerate() {
        claim[place(c.a.iter().flatten().chain(&c.r).flat_map(|w| dr.row(*w)).map(|t| t.0).collect())].push(j + 1);
    }
    for w in 1..n {
        drop[until[w]].push(w);
    }
    jo! {"con" => con, "claim" => claim, "drop" => drop, "used" => (1..n).filter(|w| used[*w]).collect::<Vec<_>>()}
}


//! C03: registries of several circuits.
use crate::interp::*;
use crate::prog::{dense, err, fl, res, with_threads};
use crate::stages::*;
use ff::{Field, PrimeField};
use pasta_curves::Fp;
use ragu_circuits::polynomials::{Rank, TestRank};
use ragu_circuits::registry::{CircuitIndex, Registry, RegistryBuilder};
use ragu_circuits::staging::StageExt;
use ragu_core::Result;
use vh::tiny::F12289;
use vh::{J, Rng, Trace, catch, jo};
type F = F12289;
type R = TestRank;

#[derive(Clone)]
pub enum Item {
    P(&'static str, Prog),
    /// A mask of the stage occupying gates 1..=k, or of the final stage after it.
    M(usize, bool),
}
impl Item {
    fn j(&self) -> J {
        match self {
            Item::P(c, p) => jo! {"cat" => *c, "prog" => p.j()},
            Item::M(k, false) => jo! {"cat" => "bonding", "mask" => jo!{"skip" => 1i64, "num" => *k as i64}},
            Item::M(k, true) => jo! {"cat" => "bonding", "mask" => jo!{"skip" => 1 + *k as i64, "num" => R::n() as i64 - 1 - *k as i64}},
        }
    }
}
pub fn build<F: PrimeField + ff::FromUniformBytes<64>>(items: &[Item]) -> Result<Registry<'static, F, R>> {
    let mut b = RegistryBuilder::<F, R>::new();
    for i in items {
        b = match i {
            Item::P("internal", p) => b.register_internal_circuit(Interp(p.clone()))?,
            Item::P("step", p) => b.register_internal_step(Interp(p.clone()))?,
            Item::P(_, p) => b.register_circuit(Interp(p.clone()))?,
            Item::M(k, last) => {
                set_shape(&[(2 * k, 2 * k)]);
                b.register_bonding(if *last { <Lv<1> as StageExt<F, R>>::final_mask()? } else { <Lv<1> as StageExt<F, R>>::mask()? })
            }
        }
    }
    b.finalize()
}
fn distinct(mut v: Vec<J>) -> J {
    let mut seen = vec![];
    for j in v.drain(..) {
        if !seen.contains(&j) {
            seen.push(j)
        }
    }
    J::A(seen)
}
fn event(items: &[Item], x: F, y: F, extra: &[F], r: &mut Rng) -> J {
    let mut m = match (jo! {"kind" => "registry", "items" => J::A(items.iter().map(Item::j).collect()), "x" => x, "y" => y}) {
        J::O(m) => m,
        _ => unreachable!(),
    };
    let out = catch(|| {
        let reg = build::<F>(items)?;
        let again = with_threads(3, || build::<F>(items))?;
        let n = reg.num_circuits();
        let idx: Vec<CircuitIndex> = (0..n + 5).map(CircuitIndex::new).collect();
        let mut o = std::collections::BTreeMap::new();
        o.insert("n".to_string(), J::N(n as i64));
        o.insert("digests".into(), fl(&[reg.digest(), again.digest()]));
        o.insert(
            "counts".into(),
            J::A(
                (0..n)
                    .map(|i| {
                        let (g, c) = reg.constraint_counts(idx[i]);
                        J::A(vec![J::N(g as i64), J::N(c as i64)])
                    })
                    .collect(),
            ),
        );
        o.insert("omegas".into(), fl(&idx.iter().map(|i| i.omega_j::<F>()).collect::<Vec<_>>()));
        o.insert("inside".into(), J::A(idx.iter().map(|i| reg.circuit_in_domain(*i).into()).collect()));
        o.insert("xy".into(), J::A(vec![dense(&reg.xy(x, y)), dense(&reg.xy(F::ZERO, y)), dense(&reg.xy(x, F::ZERO))]));
        let mut ws: Vec<F> = (0..n + 2).map(|i| idx[i].omega_j()).collect();
        ws.extend_from_slice(extra);
        let mut q = vec![];
        for w in ws {
            let at = reg.at(w);
            q.push(jo! {"w" => w,
            "wx" => distinct(vec![dense(&reg.wx(w, x)), dense(&at.x(x))]),
            "wy" => distinct(vec![dense(&reg.wy(w, y)), dense(&at.y(y))]),
            "wxy" => distinct(vec![reg.wxy(w, x, y).into(), at.xy(x, y).into()]),
            "zeros" => fl(&[at.x(F::ZERO).eval(y), at.y(F::ZERO).eval(x), at.xy(F::ZERO, y), at.xy(x, F::ZERO)])});
        }
        o.insert("ws".into(), J::A(q));
        let i = r.below(n.max(1));
        o.insert("one".into(), jo! {"i" => i as i64, "y" => dense(&reg.circuit_y(idx[i], y)), "xy" => reg.circuit_xy(idx[i], x, y)});
        Ok(J::O(o))
    });
    m.insert("out".into(), res(out));
    J::O(m)
}

pub fn small_prog(r: &mut Rng) -> Prog {
    let (ops, depth) = (1 + r.below(5), r.below(2));
    rand_prog(r, &GenCfg { ops, depth, perturb: 0 })
}
pub fn rand_items(r: &mut Rng, n: usize) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    for _ in 0..n {
        let it = match r.below(8) {
            0 | 1 => Item::P("internal", small_prog(r)),
            2 => Item::M(r.below(R::n()), r.below(2) == 0),
            3 | 4 => Item::P("step", small_prog(r)),
            5 if !v.is_empty() => v[r.below(v.len())].clone(),
            _ => Item::P("app", small_prog(r)),
        };
        v.push(it);
    }
    v
}
fn pt(r: &mut Rng) -> F {
    match r.below(6) {
        0 => F::ONE,
        1 => -F::ONE,
        2 => F::ROOT_OF_UNITY.pow([r.below(4096) as u64]),
        _ => F::new(1 + r.below(12288) as u64),
    }
}
fn edit(r: &mut Rng, p: &Prog) -> Prog {
    let mut ops: Vec<Op> = (*p.body).clone();
    let mut outs = p.outs.clone();
    let one = || Co("One", 0);
    match r.below(9) {
        0 => ops.push(Op::Alloc(V::K(1))),
        1 => ops.push(Op::Zero(vec![])),
        2 => ops.push(Op::Zero(vec![Term::A(0)])),
        3 => ops.push(Op::Add(vec![Term::A(0)])),
        4 => outs.push(0),
        5 => outs = outs.into_iter().rev().collect(),
        6 => {
            if let Some(Op::Alloc(v)) = ops.first_mut() {
                *v = V::K(7)
            }
        }
        7 => {
            for o in ops.iter_mut() {
                if let Op::Zero(t) | Op::Add(t) = o {
                    if r.below(2) == 0 {
                        t.push(Term::T(0, one()))
                    } else {
                        t.reverse()
                    }
                    break;
                }
            }
        }
        _ => {
            // The same meaning, written differently.
            for o in ops.iter_mut() {
                if let Op::Zero(ts) | Op::Add(ts) = o {
                    for t in ts.iter_mut() {
                        *t = match &*t {
                            Term::A(r) => Term::T(*r, one()),
                            Term::S(r) => Term::X(vec![(*r, Co("NegativeOne", 0))]),
                            Term::T(r, Co("Two", _)) => Term::T(*r, Co("Arbitrary", 2)),
                            t => t.clone(),
                        }
                    }
                }
            }
        }
    }
    Prog { body: ops.into(), outs }
}
fn hex(f: &Fp) -> String {
    f.to_repr().as_ref().iter().map(|b| format!("{b:02x}")).collect()
}
/// Registries that are nearly the same, and their keys over the real field.
fn keys(r: &mut Rng) -> J {
    let n0 = 1 + r.below(4);
    let base = rand_items(r, n0);
    let mut lists = vec![base.clone()];
    for _ in 0..6 {
        let mut l = lists[r.below(lists.len())].clone();
        match r.below(6) {
            0 => l.reverse(),
            1 => {
                let k = r.below(l.len());
                let it = l[k].clone();
                l.push(it)
            }
            2 if l.len() > 1 => {
                l.pop();
            }
            3 => {
                let k = r.below(l.len());
                if let Item::P(c, _) = &mut l[k] { *c = ["internal", "step", "app"][r.below(3)] } else { l[k] = Item::M(r.below(5), false) }
            }
            _ => {
                let k = r.below(l.len());
                if let Item::P(_, p) = &mut l[k] {
                    *p = edit(r, p)
                }
            }
        }
        lists.push(l);
    }
    let out = J::A(lists.iter().map(|l| res(catch(|| build::<Fp>(l).map(|r| J::from(hex(&r.digest()).as_str()))))).collect());
    jo! {"kind" => "keys", "lists" => J::A(lists.iter().map(|l| J::A(l.iter().map(Item::j).collect())).collect()), "out" => out}
}
fn capacity(n: usize) -> J {
    let p = Prog { body: vec![].into(), outs: vec![] };
    let out = res(catch(|| {
        let cats = ["internal", "step", "app"];
        let items: Vec<Item> = (0..n).map(|i| if i % 7 == 3 { Item::M(1, false) } else { Item::P(cats[i % 3], p.clone()) }).collect();
        build::<F>(&items).map(|r| J::N(r.num_circuits() as i64))
    }));
    jo! {"kind" => "capacity", "n" => n as i64, "out" => out}
}

pub fn main(scen: Option<String>, out: &str, seed: u64, scale: u64) {
    let _own = OWNER.lock().unwrap();
    let mut t = Trace::create(out);
    let mut r = Rng::new(seed);
    if let Some(s) = scen {
        // Sequences of categories, from the specification.
        for j in vh::read_nd(&s) {
            let items: Vec<Item> = j
                .get("cats")
                .a()
                .iter()
                .map(|c| match c.s() {
                    "bonding" => Item::M(r.below(R::n()), r.below(2) == 0),
                    "internal" => Item::P("internal", small_prog(&mut r)),
                    "step" => Item::P("step", small_prog(&mut r)),
                    _ => Item::P("app", small_prog(&mut r)),
                })
                .collect();
            let (x, y, w) = (pt(&mut r), pt(&mut r), F::new(r.below(12289) as u64));
            t.emit(event(&items, x, y, &[w], &mut r));
        }
    }
    for k in 0..4 * scale as usize {
        let n = if k % 4 == 3 { 9 + r.below(10) } else { 1 + k % 9 };
        let items = rand_items(&mut r, n);
        let (x, y) = (pt(&mut r), pt(&mut r));
        let mut ws = vec![F::ZERO, F::new(2)];
        for _ in 0..2 {
            ws.push(F::new(r.below(12289) as u64));
        }
        // Points of larger domains, which a lookup by low bits could confuse.
        ws.push(F::ROOT_OF_UNITY);
        ws.push(F::ROOT_OF_UNITY.pow([2048 + r.below(3) as u64]));
        t.emit(event(&items, x, y, &ws, &mut r));
    }
    // Many circuits.
    for n in [33, 65, 100].into_iter().take(if scale > 10 { 3 } else { 2 }) {
        let items = rand_items(&mut r, n);
        let (x, y, w) = (pt(&mut r), pt(&mut r), F::new(r.below(12289) as u64));
        t.emit(event(&items, x, y, &[w], &mut r));
    }
    for _ in 0..6 * scale {
        t.emit(keys(&mut r));
    }
    for n in [0, 1, 2, 3, R::num_coeffs() - 1, R::num_coeffs(), R::num_coeffs() + 1, R::num_coeffs() + 2] {
        t.emit(capacity(n));
    }
    let _ = err;
}

ID="c15-short-group-errors"; PROPERTY="C15"
NEEDS="a number of claims that leaves a group with at least two claims but fewer than the group size"
BREAKS="error terms of a partly filled group are packed as if the group had only the claims present, so they no longer line up with the in-circuit fold"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives","ragu_pasta","ragu_circuits","ragu_pcd"]
FEATURES={"ragu_pasta":["baked"]}
EDITS=[("crates/ragu_pcd/src/internal/fold_revdot.rs",
'''            off_diagonal_pairs(Inner::len())
                // Missing entries are zero polynomials, producing zero revdot products.
                .map(|(i, j)| {
                    a_chunk
                        .get(i)
                        .zip(b_chunk.get(j))
                        .map_or(F::ZERO, |(l, r)| l.borrow().revdot(r.borrow()))
                })
                .collect_fixed()''',
'''            off_diagonal_pairs(a_chunk.len())
                .map(|(i, j)| a_chunk[i].borrow().revdot(b_chunk[j].borrow()))
                // Missing entries are zero polynomials, producing zero revdot products.
                .chain(iter::repeat(F::ZERO))
                .take(NumErrorTerms::<Inner>::len())
                .collect_fixed()''')]
HOOK=True
DEMO='''
use ff::Field;
use pasta_curves::Fp;
use ragu_circuits::polynomials::{TestRank, sparse::Polynomial};
use ragu_core::maybe::Maybe;
use ragu_pcd::verif::fold_revdot::{self, ClaimFolder, Parameters};
use ragu_primitives::{Element, Simulator, vec::{CollectFixed, ConstLen, FixedVec}};

#[derive(Clone, Copy, Default)]
struct P;
impl Parameters for P {
    type NumGroups = ConstLen<2>;
    type GroupSize = ConstLen<3>;
}
type Poly = Polynomial<Fp, TestRank>;

fn agree(count: u64) -> bool {
    let poly = |s: u64| Poly::from_coeffs((0..128).map(|i| Fp::from((s * 31 + i * 17 + s * s * i) % 101)).collect());
    let a: Vec<Poly> = (0..count).map(|i| poly(i + 1)).collect();
    let b: Vec<Poly> = (0..count).map(|i| poly(i + 40)).collect();
    let (mu, nu) = (Fp::from(7u64), Fp::from(11u64));
    let errors = fold_revdot::inner_error_terms::<Fp, TestRank, P>(&a, &b);
    let fa = fold_revdot::fold_inner::<Poly, Fp, P>(&a, mu.invert().unwrap());
    let fb = fold_revdot::fold_inner::<Poly, Fp, P>(&b, mu * nu);
    let mut ok = true;
    for g in 0..2usize {
        let dr = &mut Simulator::<Fp>::new();
        let mu_e = Element::constant(dr, mu);
        let nu_e = Element::constant(dr, nu);
        let folder = ClaimFolder::new(dr, &mu_e, &nu_e).unwrap();
        let e = errors[g].iter().map(|v| Element::constant(dr, *v)).collect::<Vec<_>>().into_iter().collect_fixed().unwrap();
        let k: FixedVec<_, ConstLen<3>> = (0..3).map(|i| {
            let n = g * 3 + i;
            Element::constant(dr, if n < a.len() { a[n].revdot(&b[n]) } else { Fp::ZERO })
        }).collect::<Vec<_>>().into_iter().collect_fixed().unwrap();
        let c = *folder.fold_inner::<P>(dr, &e, &k).unwrap().value().take();
        ok &= c == fa[g].revdot(&fb[g]);
    }
    ok
}
fn main() {
    for n in [1, 3, 4, 6] {
        assert!(agree(n));
    }
    for n in [2, 5] {
        assert!(agree(n), "{n} claims do not fold");
    }
}
'''

use std::time::Instant;
use ff::Field;
use ragu_circuits::polynomials::ProductionRank;
use ragu_arithmetic::Cycle;
use ragu_pasta::{Fp, Pasta};
use ragu_pcd::ApplicationBuilder;
use ragu_testing::pcd::nontrivial::{Hash2, WitnessLeaf};
use rand::{SeedableRng, rngs::StdRng};
fn main() {
    let t = Instant::now();
    let pasta = Pasta::baked();
    eprintln!("params {:?}", t.elapsed());
    let app = ApplicationBuilder::<Pasta, ProductionRank, 4>::new()
        .register(WitnessLeaf { poseidon_params: Pasta::circuit_poseidon(pasta) }).unwrap()
        .register(Hash2 { poseidon_params: Pasta::circuit_poseidon(pasta) }).unwrap()
        .finalize(pasta).unwrap();
    eprintln!("app {:?}", t.elapsed());
    let mut rng = StdRng::seed_from_u64(1);
    let (l1, _) = app.seed(&mut rng, WitnessLeaf { poseidon_params: Pasta::circuit_poseidon(pasta) }, Fp::from(42u64)).unwrap();
    eprintln!("seed {:?}", t.elapsed());
    let (l2, _) = app.seed(&mut rng, WitnessLeaf { poseidon_params: Pasta::circuit_poseidon(pasta) }, Fp::from(43u64)).unwrap();
    let v = app.verify(&l1, &mut rng).unwrap();
    eprintln!("verify {v} {:?}", t.elapsed());
    let (n, _) = app.fuse(&mut rng, Hash2 { poseidon_params: Pasta::circuit_poseidon(pasta) }, (), l1, l2).unwrap();
    eprintln!("fuse {:?}", t.elapsed());
    let v = app.verify(&n, &mut rng).unwrap();
    eprintln!("verify {v} {:?}", t.elapsed());
    let n = app.rerandomize(n, &mut rng).unwrap();
    let v = app.verify(&n, &mut rng).unwrap();
    eprintln!("rr verify {v} {:?}", t.elapsed());
    let _ = Fp::ONE;
}

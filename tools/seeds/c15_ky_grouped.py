ID="c15-ky-grouped-by-proof"; PROPERTY="C15"
NEEDS="two child proofs whose instance values differ; one proof alone gives the same list"
BREAKS="the expected values for the internal circuits are listed proof by proof while the claims are listed circuit by circuit"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives","ragu_pasta","ragu_circuits","ragu_pcd"]
FEATURES={"ragu_pasta":["baked"]}
EDITS=[("crates/ragu_pcd/src/internal/native/claims.rs",
'''        .chain(repeat_n(source.unified_ky(), NUM_UNIFIED_CIRCUITS).flatten())''',
'''        .chain(
            source
                .unified_ky()
                .flat_map(|ky| repeat_n(ky, NUM_UNIFIED_CIRCUITS)),
        )''')]
HOOK=True
DEMO='''
use pasta_curves::Fp;
use ragu_core::{Result, maybe::Maybe};
use ragu_pcd::verif::claims::Source;
use ragu_pcd::verif::native::{InternalCircuitIndex, RxComponent, RxIndex};
use ragu_pcd::verif::native_claims::{self, KySource, Processor};

struct Ky(Vec<Fp>);
impl KySource for Ky {
    type Ky = Fp;
    fn raw_c(&self) -> impl Iterator<Item = Fp> { self.0.iter().map(|p| *p) }
    fn application_ky(&self) -> impl Iterator<Item = Fp> { self.0.iter().map(|p| *p + Fp::from(1u64)) }
    fn unified_bridge_ky(&self) -> impl Iterator<Item = Fp> { self.0.iter().map(|p| *p + Fp::from(2u64)) }
    fn unified_ky(&self) -> impl Iterator<Item = Fp> + Clone { self.0.clone().into_iter().map(|p| p + Fp::from(3u64)) }
    fn zero(&self) -> Fp { Fp::from(0u64) }
}
struct Src(Vec<Fp>);
impl Source for Src {
    type RxComponent = RxComponent;
    type Rx = (Fp, RxComponent);
    type AppCircuitId = ();
    fn rx(&self, c: RxComponent) -> impl Iterator<Item = (Fp, RxComponent)> { self.0.clone().into_iter().map(move |p| (p, c)) }
    fn app_circuits(&self) -> impl Iterator<Item = ()> { self.0.iter().map(|_| ()) }
}
struct Want(Vec<Fp>);
impl Processor<(Fp, RxComponent), ()> for Want {
    fn raw_claim(&mut self, a: (Fp, RxComponent), _: (Fp, RxComponent)) { self.0.push(a.0) }
    fn circuit(&mut self, _: (), rx: (Fp, RxComponent)) { self.0.push(rx.0 + Fp::from(1u64)) }
    fn internal_circuit(&mut self, _: InternalCircuitIndex, mut rxs: impl Iterator<Item = (Fp, RxComponent)>) {
        let (p, c) = rxs.next().unwrap();
        self.0.push(p + Fp::from(if matches!(c, RxComponent::Rx(RxIndex::Hashes1)) { 2u64 } else { 3 }))
    }
    fn bonding(&mut self, _: InternalCircuitIndex, _: impl Iterator<Item = (Fp, RxComponent)>) -> Result<()> {
        self.0.push(Fp::from(0u64));
        Ok(())
    }
}
fn main() {
    for proofs in [vec![10u64], vec![10, 20]] {
        let p: Vec<Fp> = proofs.iter().map(|x| Fp::from(*x)).collect();
        let mut want = Want(vec![]);
        native_claims::build(&Src(p.clone()), &mut want).unwrap();
        let got: Vec<Fp> = native_claims::ky_values(&Ky(p)).take(want.0.len()).collect();
        assert!(got == want.0, "claims of {} proofs are compared with the wrong values", proofs.len());
    }
}
'''

ID="c09-label-short-tail"; PROPERTY="C09"
NEEDS="labels of the same length, not a multiple of 16, that differ only past the eighth byte of the last chunk"
BREAKS="the tail of a label after its last full chunk is read at the wrong offset: bytes past the eighth of a partial chunk are dropped"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives","ragu_pasta","ragu_pcd"]
FEATURES={"ragu_pasta":["baked"]}
EDITS=[("crates/ragu_pcd/src/internal/transcript.rs",
'''            let bytes: [u8; 16] = core::array::from_fn(|i| chunk.get(i).copied().unwrap_or(0));
            let elem = Element::constant(dr, D::F::from_u128(u128::from_le_bytes(bytes)));
            sponge.absorb(dr, &elem)?;''',
'''            // A short tail fits a single word.
            let elem = match <[u8; 16]>::try_from(chunk) {
                Ok(bytes) => Element::constant(dr, D::F::from_u128(u128::from_le_bytes(bytes))),
                Err(_) => {
                    let bytes: [u8; 8] = core::array::from_fn(|i| chunk.get(i).copied().unwrap_or(0));
                    Element::constant(dr, D::F::from(u64::from_le_bytes(bytes)))
                }
            };
            sponge.absorb(dr, &elem)?;''')]
HOOK=True
DEMO='''
use pasta_curves::Fp;
use ragu_arithmetic::Cycle;
use ragu_core::maybe::Maybe;
use ragu_pasta::Pasta;
use ragu_pcd::verif::transcript::Transcript;
use ragu_primitives::Simulator;

fn first(tag: &[u8]) -> Fp {
    let mut dr = Simulator::<Fp>::new();
    let mut t = Transcript::<_, <Pasta as Cycle>::CircuitPoseidon>::new(&mut dr, Pasta::circuit_poseidon(Pasta::baked()), tag).unwrap();
    *t.challenge(&mut dr).unwrap().value().take()
}
fn main() {
    assert!(first(b"ragu protocol v1") != first(b"ragu protocol v2"));
    assert!(first(b"application-01") != first(b"application-02"), "labels are not separated");
}
'''

ID="c09-second-batch-order"; PROPERTY="C09"
NEEDS="more outputs squeezed in a row than the rate"
BREAKS="outputs after the first batch come out of the state in the opposite order"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives","ragu_pasta"]
FEATURES={"ragu_pasta":["baked"]}
EDITS=[("crates/ragu_primitives/src/poseidon.rs",
'''                *values = state.get_rate();
            }
            Mode::Absorb { values, state } => {''',
'''                values.extend(state.values.iter().take(P::RATE).cloned());
            }
            Mode::Absorb { values, state } => {''')]
DEMO='''
use pasta_curves::Fp;
use ragu_arithmetic::{Cycle, PoseidonPermutation};
use ragu_core::maybe::Maybe;
use ragu_pasta::Pasta;
use ragu_primitives::{Element, Simulator, poseidon::Sponge};
type Pp = <Pasta as Cycle>::CircuitPoseidon;

// Absorbing nothing but zeros after the outputs of one state is the same as squeezing on.
fn main() {
    let params = Pasta::circuit_poseidon(Pasta::baked());
    let rate = <Pp as PoseidonPermutation<Fp>>::RATE;
    let mut dr = Simulator::<Fp>::new();
    let x = Element::constant(&mut dr, Fp::from(7u64));
    let zero = Element::zero(&mut dr);
    let mut a = Sponge::<_, Pp>::new(&mut dr, params);
    a.absorb(&mut dr, &x).unwrap();
    let mut b = a.clone();
    for _ in 0..rate {
        a.squeeze(&mut dr).unwrap();
        b.squeeze(&mut dr).unwrap();
    }
    b.absorb(&mut dr, &zero).unwrap();
    for _ in 0..rate {
        let u = a.squeeze(&mut dr).unwrap();
        let v = b.squeeze(&mut dr).unwrap();
        assert_eq!(*u.value().take(), *v.value().take());
    }
}
'''

ID="c11-multipack-full-width"; PROPERTY="C11"
NEEDS="packing at least as many bits as the modulus has (255 for Pasta)"
BREAKS="chunks are as wide as the modulus, so different bit strings pack to the same element and the number of elements changes"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives"]
EDITS=[("crates/ragu_primitives/src/boolean.rs",
'''    let capacity = D::F::CAPACITY as usize;''',
'''    let capacity = D::F::NUM_BITS as usize;''')]
DEMO=open("/verif/tools/seeds/_cheat.rs").read()+'''
fn main() {
    let pack = |bits: Vec<bool>| {
        let mut out = vec![];
        assert!(cheat(vec![], |dr| {
            let b = bits.iter().map(|b| Boolean::alloc(dr, just(*b))).collect::<Result<Vec<_>>>()?;
            out = multipack(dr, &b)?.iter().map(|e| *e.value().take()).collect();
            Ok(())
        }));
        out
    };
    // The modulus itself, bit by bit, against zero.
    let minus_one = ff::PrimeField::to_repr(&(-Fp::ONE));
    let bytes: &[u8] = minus_one.as_ref();
    let mut modulus: Vec<bool> = (0..255).map(|i| bytes[i / 8] >> (i % 8) & 1 == 1).collect();
    for b in modulus.iter_mut() {
        *b = !*b;
        if *b { break }
    }
    assert_ne!(pack(modulus), pack(vec![false; 255]), "two bit strings pack alike");
}
'''

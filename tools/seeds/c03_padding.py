ID="c03-padding-point-lookup"; PROPERTY="C03"
NEEDS="a number of circuits that is not a power of two, restricted at a domain point no circuit has"
BREAKS="a domain point without a circuit answers with the last circuit instead of zero, unlike the interpolation m(W, x, y)"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives","ragu_circuits"]
EDITS=[("crates/ragu_circuits/src/registry.rs",
'''        for i in 0..circuits.len() {''','''        for i in 0..(1usize << log2_circuits) {'''),
("crates/ragu_circuits/src/registry.rs",
'''            omega_lookup.insert(omega_j, i);
        }

        // Create provisional''','''            omega_lookup.insert(omega_j, i.min(circuits.len().saturating_sub(1)));
        }

        // Create provisional''')]
DEMO=open("/verif/tools/seeds/_circ.rs").read()+'''
fn body<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, x: Bx<'dr, D>) -> Result<Bx<'dr, D>> {
    x.square(dr)
}
fn main() {
    let mut b = RegistryBuilder::<Fp, R>::new();
    for _ in 0..3 { b = b.register_circuit(Toy).unwrap(); }
    let reg = b.finalize().unwrap();
    let (x, y) = (Fp::from(7u64), Fp::from(11u64));
    for i in 0..4 {
        let w = CircuitIndex::new(i).omega_j::<Fp>();
        assert_eq!(reg.xy(x, y).eval(w), reg.wxy(w, x, y), "point {i}");
        assert_eq!(reg.wx(w, x).eval(y), reg.wxy(w, x, y), "point {i}");
    }
}
'''

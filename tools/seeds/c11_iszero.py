ID="c11-iszero-unbound"; PROPERTY="C11"
NEEDS="a prover that puts a different value on the first gate of the zero test"
BREAKS="the first gate of is_zero is no longer tied to the tested element, so a zero element can be reported as either and a nonzero one passes for zero"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives"]
EDITS=[("crates/ragu_primitives/src/boolean.rs",
'''    dr.enforce_equal(&x_wire, x.wire())?;
    dr.enforce_zero(|lc| lc.add(&zero_product))?;''',
'''    dr.enforce_equal(&zero_product, &zero_product)?;
    dr.enforce_zero(|lc| lc.add(&zero_product).add(&x_wire).sub(&x_wire))?;''')]
DEMO=open("/verif/tools/seeds/_cheat.rs").read()+'''
fn main() {
    // 5 is not zero: gate 0 claims 0 * 1 = 0, gate 1 claims 5 * 0 = 1 - 1.
    let fooled = cheat(vec![(0, [n(0), n(1), n(0)]), (1, [n(5), n(0), n(0)])], |dr| {
        let x = Element::alloc(dr, just(n(5)))?;
        let z = x.is_zero(dr)?;
        assert_eq!(*z.wire(), n(1));
        Ok(())
    });
    assert!(!fooled, "5 passes for zero");
}
'''

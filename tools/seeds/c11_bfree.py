ID="c11-alloc-square-loose"; PROPERTY="C11"
NEEDS="a prover that witnesses different factors for a square (for example a sum bound by only one side)"
BREAKS="alloc_square no longer ties both factors of its gate together when the element is zero-tested later; the square can be any multiple of the element"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives"]
EDITS=[("crates/ragu_primitives/src/element.rs",
'''                Coeff::Arbitrary(*square.snag()),
            ))
        })?;
        dr.enforce_equal(&a, &b)?;
''',
'''                Coeff::Arbitrary(*square.snag()),
            ))
        })?;
        let sum = dr.add(|lc| lc.add(&a).add(&b));
        dr.enforce_zero(|lc| lc.add(&sum).sub(&a).sub(&b))?;
''')]
DEMO=open("/verif/tools/seeds/_cheat.rs").read()+'''
fn main() {
    assert!(cheat(vec![], |dr| Element::alloc_square(dr, just(n(3))).map(|_| ())));
    let fooled = cheat(vec![(0, [n(3), n(5), n(15)])], |dr| {
        let (x, x2) = Element::alloc_square(dr, just(n(3)))?;
        assert_eq!((*x.wire(), *x2.wire()), (n(3), n(15)));
        Ok(())
    });
    assert!(!fooled, "15 passes for the square of 3");
}
'''

ID="c11-root-of-unity-k0"; PROPERTY="C11"
NEEDS="a root-of-unity check for the trivial domain (k = 0)"
BREAKS="enforce_root_of_unity(0) enforces nothing although the only 1st root of unity is 1"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives"]
EDITS=[("crates/ragu_primitives/src/element.rs",
'''        let mut value = self.clone();
        for _ in 0..k {
            value = value.square(dr)?;
        }
        let one = Element::one();
        let diff = value.sub(dr, &one);
        diff.enforce_zero(dr)?;
        Ok(())''',
'''        let one = Element::one();
        let mut value = self.clone();
        // The last squaring is compared against one directly.
        for left in (0..k).rev() {
            value = value.square(dr)?;
            if left == 0 {
                let diff = value.sub(dr, &one);
                diff.enforce_zero(dr)?;
            }
        }
        Ok(())''')]
DEMO=open("/verif/tools/seeds/_cheat.rs").read()+'''
fn main() {
    for k in 0..4 {
        let ok = cheat(vec![], |dr| Element::alloc(dr, just(n(7)))?.enforce_root_of_unity(dr, k));
        assert!(!ok, "7 passes for a 2^{k}-th root of unity");
        assert!(cheat(vec![], |dr| Element::alloc(dr, just(n(1)))?.enforce_root_of_unity(dr, k)));
    }
}
'''

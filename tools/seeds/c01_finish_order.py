ID="c01-segment-order-by-depth"; PROPERTY="C01"
NEEDS="a routine that calls a routine, followed by another routine call, all with the same number of gates, holding different values"
BREAKS="trace segments are put in breadth-first instead of depth-first order, so their gates land in another routine's place"
DEPS=["ragu_arithmetic","ragu_core","ragu_primitives","ragu_circuits"]
EDITS=[("crates/ragu_circuits/src/trace.rs",
'''    segments.sort_unstable_by(|a, b| a.dfs_path.cmp(&b.dfs_path));''',
'''    segments.sort_unstable_by_key(|s| (s.dfs_path.len(), s.dfs_path.clone()));''')]
DEMO=open("/verif/tools/seeds/_circ.rs").read()+'''
#[derive(Clone)]
struct Sq(usize);
impl Routine<Fp> for Sq {
    type Input = Kind![Fp; Element<'_, _>];
    type Output = Kind![Fp; Element<'_, _>];
    type Aux<'dr> = ();
    fn execute<'dr, D: Driver<'dr, F = Fp>>(&self, dr: &mut D, x: Bx<'dr, D>, _: DriverValue<D, ()>) -> Result<Bx<'dr, D>> {
        let y = x.square(dr)?;
        if self.0 > 0 { dr.routine(Sq(self.0 - 1), y) } else { Ok(y) }
    }
    fn predict<'dr, D: Driver<'dr, F = Fp>>(&self, _: &mut D, _: &Bx<'dr, D>) -> Result<Prediction<Bx<'dr, D>, DriverValue<D, ()>>> {
        Ok(Prediction::Unknown(D::unit()))
    }
}
fn body<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, x: Bx<'dr, D>) -> Result<Bx<'dr, D>> {
    let a = dr.routine(Sq(1), x)?;
    dr.routine(Sq(0), a)
}
fn main() {
    let v = Fp::from(3u64);
    assert!(identity(v, v.pow([8u64])), "a satisfied circuit is not provable");
    assert!(!identity(v, v.pow([9u64])));
}
'''

ID="c12-array-tail-order"; PROPERTY="C12"
NEEDS="an array of at least five present values converted element by element"
BREAKS="the array conversion reorders the tail of arrays longer than four when witnesses are present"
DEPS=["ragu_core"]
EDITS=[("crates/ragu_core/src/maybe/cast.rs",
'''        let mut iter = self.into_iter();
        core::array::from_fn(|_| K::maybe_just(|| iter.next().expect("array lengths are the same")))''',
'''        // Take from both ends so that the remaining window stays contiguous.
        let mut iter = self.into_iter();
        core::array::from_fn(|i| {
            K::maybe_just(|| {
                if i % 4 == 3 {
                    iter.next_back()
                } else {
                    iter.next()
                }
                .expect("array lengths are the same")
            })
        })''')]
DEMO='''use ragu_core::maybe::{Always, Maybe};
fn main() {
    let a: [Always<u32>; 7] = Always::<()>::just(|| [1u32, 2, 3, 4, 5, 6, 7]).cast();
    let v: Vec<u32> = a.into_iter().map(|x| x.take()).collect();
    assert_eq!(v, vec![1, 2, 3, 4, 5, 6, 7]);
}
'''

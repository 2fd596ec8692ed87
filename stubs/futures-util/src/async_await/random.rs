// Verification build: the random arm order of `select!` becomes a choice of the
// harness.  Bringing arm k to the front (the others keep their order) covers
// every possible outcome of the random shuffle, because only the first ready
// arm in the shuffled order is taken.
extern "C" {
    fn vf_select_pick(n: usize) -> usize;
}

#[doc(hidden)]
pub fn shuffle<T>(slice: &mut [T]) {
    let n = slice.len();
    let k = unsafe { vf_select_pick(n) };
    if k < n {
        slice[..=k].rotate_right(1);
    }
}

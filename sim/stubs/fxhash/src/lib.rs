//! Stand-in for fxhash: a deterministic hasher.
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone, Copy)]
pub struct FxHasher(u64);
impl Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0x517cc1b727220a95);
        }
    }
}
pub type FxBuildHasher = BuildHasherDefault<FxHasher>;
pub type FxHashMap<K, V> = std::collections::HashMap<K, V, FxBuildHasher>;
pub type FxHashSet<V> = std::collections::HashSet<V, FxBuildHasher>;

//! Stand-in for the `uuid` crate: a fresh, distinct identifier per call.
use std::sync::atomic::{AtomicU64, Ordering};
static N: AtomicU64 = AtomicU64::new(1);
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Uuid(u64);
impl Uuid {
    pub fn new_v4() -> Uuid {
        Uuid(N.fetch_add(1, Ordering::Relaxed))
    }
    /// Inherent method: shadows the blanket `ToString`, avoiding the formatting machinery.
    #[allow(clippy::inherent_to_string_shadow_display)]
    pub fn to_string(&self) -> String {
        let mut s = b"uuid-0000000000".to_vec();
        let mut v = self.0;
        let mut i = s.len();
        while v > 0 {
            i -= 1;
            s[i] = b'0' + (v % 10) as u8;
            v /= 10;
        }
        unsafe { String::from_utf8_unchecked(s) }
    }
}
impl std::fmt::Display for Uuid {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.to_string())
    }
}

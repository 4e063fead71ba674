//! Version 4 UUIDs that differ from one another (a counter instead of random bits).
use std::fmt;
use std::sync::atomic::{AtomicU32, Ordering};
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Uuid(u32);
static NEXT: AtomicU32 = AtomicU32::new(0);
pub struct Hyphenated(u32);
impl Uuid {
    pub fn new_v4() -> Uuid {
        Uuid(NEXT.fetch_add(1, Ordering::Relaxed))
    }
    pub fn to_hyphenated(self) -> Hyphenated {
        Hyphenated(self.0)
    }
    pub fn hyphenated(self) -> Hyphenated {
        Hyphenated(self.0)
    }
}
fn put(n: u32, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let mut s = *b"00000000-0000-4000-8000-000000000000";
    for i in 0..8 {
        s[35 - i] = b"0123456789abcdef"[(n >> (4 * i) & 15) as usize];
    }
    f.write_str(std::str::from_utf8(&s).unwrap())
}
impl fmt::Display for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        put(self.0, f)
    }
}
impl fmt::Display for Hyphenated {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        put(self.0, f)
    }
}

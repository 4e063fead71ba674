//! Harnesses over the benchmarking program: its real source is this crate's root, with options,
//! output, runtime, network and clock replaced.
#![allow(dead_code, unused_imports)]
#[path = "../../packet/src/model.rs"]
mod model;
#[path = "../../server/src/world.rs"]
mod world;
mod h;
macro_rules! println {
    ($($x:tt)*) => { crate::h::line(format!($($x)*)) };
}
fn main() {
    h::main()
}
/// the program of the server
mod server {
    include!("/repo/server/src/main.rs");
    pub async fn program() {
        tokio_main().await
    }
}
include!("/repo/bm/src/main.rs");

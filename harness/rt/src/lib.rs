//! Harness runtime: the same harness is executed symbolically by the engine (the `rsym_*`
//! functions are then engine primitives) and natively for replay (feature `native`: the bytes
//! come from the tape file named by RSYM_TAPE).
#[cfg(not(feature = "native"))]
extern "C" {
    fn rsym_any(p: *mut u8, n: usize);
    fn rsym_assume(c: u8);
    fn rsym_check(c: u8, p: *const u8, n: usize);
    fn rsym_cover(p: *const u8, n: usize);
    fn rsym_obs(v: u64);
    fn rsym_conc(v: u64) -> u64;
    fn rsym_param() -> u64;
    fn rsym_end() -> !;
}
#[cfg(feature = "native")]
mod native {
    use std::cell::RefCell;
    thread_local!(static TAPE: RefCell<(Vec<u8>, usize)> = RefCell::new((load(), 0)));
    fn load() -> Vec<u8> {
        let p = std::env::var("RSYM_TAPE").expect("RSYM_TAPE");
        (0..p.len() / 2).map(|i| u8::from_str_radix(&p[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    pub unsafe fn rsym_any(p: *mut u8, n: usize) {
        TAPE.with(|t| {
            let mut t = t.borrow_mut();
            for k in 0..n {
                let i = t.1;
                *p.add(k) = t.0.get(i).copied().unwrap_or(0);
                t.1 += 1;
            }
        })
    }
    pub unsafe fn rsym_assume(c: u8) {
        if c == 0 {
            println!("ASSUME");
            std::process::exit(10);
        }
    }
    pub unsafe fn rsym_check(c: u8, p: *const u8, n: usize) {
        if c == 0 {
            println!("CHECK {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
            std::process::exit(11);
        }
    }
    pub unsafe fn rsym_cover(p: *const u8, n: usize) {
        println!("COVER {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
    }
    pub unsafe fn rsym_obs(v: u64) {
        println!("OBS {}", v);
    }
    pub unsafe fn rsym_conc(v: u64) -> u64 {
        v
    }
    pub unsafe fn rsym_param() -> u64 {
        std::env::var("RSYM_PARAM").map(|x| x.parse().unwrap()).unwrap_or(0)
    }
    pub unsafe fn rsym_end() -> ! {
        println!("END");
        std::process::exit(0);
    }
}
#[cfg(feature = "native")]
use native::*;

/// n arbitrary bytes
pub fn any_into(b: &mut [u8]) {
    unsafe { rsym_any(b.as_mut_ptr(), b.len()) }
}
pub fn u8() -> u8 {
    let mut b = [0u8; 1];
    any_into(&mut b);
    b[0]
}
pub fn u16() -> u16 {
    let mut b = [0u8; 2];
    any_into(&mut b);
    u16::from_be_bytes(b)
}
pub fn u32() -> u32 {
    let mut b = [0u8; 4];
    any_into(&mut b);
    u32::from_be_bytes(b)
}
pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    any_into(&mut v);
    v
}
/// arbitrary value below n; explored one path per value
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let b = u8();
    assume((b as usize) < n);
    conc(b as u64) as usize
}
pub fn assume(c: bool) {
    unsafe { rsym_assume(c as u8) }
}
pub fn check(c: bool, msg: &'static str) {
    unsafe { rsym_check(c as u8, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &'static str) -> ! {
    check(false, msg);
    end()
}
pub fn cover(msg: &'static str) {
    unsafe { rsym_cover(msg.as_ptr(), msg.len()) }
}
pub fn obs(v: u64) {
    unsafe { rsym_obs(v) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { rsym_conc(v) }
}
pub fn param() -> u64 {
    unsafe { rsym_param() }
}
pub fn end() -> ! {
    unsafe { rsym_end() }
}

//! Primitives shared with the symbolic executor.
//!
//! Inside the executor these functions are built in: `sym_*` yields fresh
//! symbolic values, `sym_assume` constrains the path and `sym_assert` is decided
//! by the solver for all remaining values. Natively (replay) the values come
//! from the file produced from the solver's model.
use std::cell::RefCell;
use std::collections::VecDeque;

thread_local! {
    static VALUES: RefCell<VecDeque<u64>> = RefCell::new(VecDeque::new());
}

/// Exit codes of a native replay.
pub const EXIT_ASSERT: i32 = 33;
pub const EXIT_PANIC: i32 = 34;
pub const EXIT_ASSUME: i32 = 35;
pub const EXIT_EXHAUSTED: i32 = 36;

pub fn load_values(path: &str) {
    let text = std::fs::read_to_string(path).expect("replay file");
    VALUES.with(|v| {
        *v.borrow_mut() = text
            .split_whitespace()
            .map(|x| x.parse::<u64>().expect("value"))
            .collect();
    });
}

fn next() -> u64 {
    VALUES.with(|v| match v.borrow_mut().pop_front() {
        Some(x) => x,
        None => {
            println!("REPLAY: input exhausted");
            std::process::exit(EXIT_EXHAUSTED)
        }
    })
}

mod prim {
    use super::*;
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sym_u8() -> u8 {
        next() as u8
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sym_u32() -> u32 {
        next() as u32
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sym_u64() -> u64 {
        next()
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sym_bool() -> bool {
        next() & 1 == 1
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sym_bytes(p: *mut u8, n: usize) {
        for i in 0..n {
            unsafe { *p.add(i) = next() as u8 };
        }
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sym_assume(c: bool) {
        if !c {
            println!("REPLAY: assumption not met");
            std::process::exit(EXIT_ASSUME);
        }
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sym_assert(c: bool, p: *const u8, n: usize) {
        if !c {
            let msg = unsafe { std::slice::from_raw_parts(p, n) };
            println!("REPLAY: assertion failed: {}", String::from_utf8_lossy(msg));
            std::process::exit(EXIT_ASSERT);
        }
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sym_cover(p: *const u8, n: usize) {
        let msg = unsafe { std::slice::from_raw_parts(p, n) };
        println!("COVER: {}", String::from_utf8_lossy(msg));
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sym_log(p: *const u8, n: usize) {
        let msg = unsafe { std::slice::from_raw_parts(p, n) };
        println!("LOG: {}", String::from_utf8_lossy(msg));
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sym_concretize(x: u64) -> u64 {
        x
    }
    #[no_mangle]
    #[inline(never)]
    pub extern "C" fn sym_end() {
        println!("REPLAY: path ended");
        std::process::exit(0);
    }
}

pub fn any_u8() -> u8 {
    prim::sym_u8()
}
pub fn any_u32() -> u32 {
    prim::sym_u32()
}
pub fn any_u64() -> u64 {
    prim::sym_u64()
}
pub fn any_bool() -> bool {
    prim::sym_bool()
}
/// A symbolic byte in `lo..=hi`.
pub fn any_in(lo: u8, hi: u8) -> u8 {
    let x = prim::sym_u8();
    prim::sym_assume((x >= lo) & (x <= hi));
    x
}
/// A symbolic small number in `0..n`; the executor forks on its value.
pub fn any_index(n: usize) -> usize {
    let x = prim::sym_u8();
    prim::sym_assume((x as usize) < n);
    prim::sym_concretize(x as u64) as usize
}
pub fn fork(x: u64) -> u64 {
    prim::sym_concretize(x)
}
pub fn any_bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    prim::sym_bytes(b.as_mut_ptr(), N);
    b
}
pub fn assume(c: bool) {
    prim::sym_assume(c)
}
/// The property: decided for every value the path still admits.
pub fn check(c: bool, msg: &str) {
    prim::sym_assert(c, msg.as_ptr(), msg.len())
}
/// Witness that the path was reached (vacuity guard).
pub fn cover(msg: &str) {
    prim::sym_cover(msg.as_ptr(), msg.len())
}
pub fn log(msg: &str) {
    prim::sym_log(msg.as_ptr(), msg.len())
}
/// The simulated process dies here; what follows is decided by the harness through `on_crash`.
pub fn crash() -> ! {
    if let Some(f) = unsafe { ON_CRASH } {
        f();
    }
    end_path();
    std::process::exit(0)
}
static mut ON_CRASH: Option<fn()> = None;
pub fn on_crash(f: fn()) {
    unsafe { ON_CRASH = Some(f) }
}
/// Stop exploring this path without a verdict problem (path is fine).
pub fn end_path() {
    prim::sym_end()
}

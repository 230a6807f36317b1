//! Interface to symbolic inputs. In the LLVM IR these are calls to external functions that the engine
//! interprets; in the native binary they come from sym.c and read a replay file.
#![allow(dead_code)]
mod ffi {
    extern "C" {
        pub fn sym_init(path: *const u8) -> *const u8;
        pub fn sym_u8(n: *const u8, l: u64) -> u8;
        pub fn sym_u32(n: *const u8, l: u64) -> u32;
        pub fn sym_u64(n: *const u8, l: u64) -> u64;
        pub fn sym_bool(n: *const u8, l: u64) -> u32;
        pub fn sym_f32(n: *const u8, l: u64) -> f32;
        pub fn sym_choice(n: *const u8, l: u64, k: u32) -> u32;
        pub fn sym_param(i: u32) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, m: *const u8, l: u64);
        pub fn sym_reach(m: *const u8, l: u64);
        pub fn sym_allow_panic(m: *const u8, l: u64);
        pub fn sym_observe(m: *const u8, l: u64, v: u64);
    }
}
/// native only: read the replay file, return the harness name
pub fn init(path: &std::ffi::CStr) -> String {
    unsafe { std::ffi::CStr::from_ptr(ffi::sym_init(path.as_ptr() as *const u8) as *const std::ffi::c_char).to_str().unwrap().to_string() }
}
pub fn u8(n: &str) -> u8 { unsafe { ffi::sym_u8(n.as_ptr(), n.len() as u64) } }
pub fn u32(n: &str) -> u32 { unsafe { ffi::sym_u32(n.as_ptr(), n.len() as u64) } }
pub fn u64(n: &str) -> u64 { unsafe { ffi::sym_u64(n.as_ptr(), n.len() as u64) } }
pub fn bool(n: &str) -> bool { unsafe { ffi::sym_bool(n.as_ptr(), n.len() as u64) != 0 } }
/// any f32 bit pattern
pub fn f32(n: &str) -> f32 { unsafe { ffi::sym_f32(n.as_ptr(), n.len() as u64) } }
/// any finite f32
pub fn f32_finite(n: &str) -> f32 { let x = f32(n); assume(x.is_finite()); x }
/// finite with lo <= x <= hi
pub fn f32_in(n: &str, lo: f32, hi: f32) -> f32 { let x = f32(n); assume(x >= lo); assume(x <= hi); x }
/// a value below k, one path per value
pub fn choice(n: &str, k: u32) -> u32 { unsafe { ffi::sym_choice(n.as_ptr(), n.len() as u64, k) } }
pub fn param(i: u32) -> u64 { unsafe { ffi::sym_param(i) } }
pub fn assume(c: bool) { unsafe { ffi::sym_assume(c) } }
pub fn check(c: bool, m: &str) { unsafe { ffi::sym_assert(c, m.as_ptr(), m.len() as u64) } }
/// vacuity witness: some explored path must get here
pub fn reach(m: &str) { unsafe { ffi::sym_reach(m.as_ptr(), m.len() as u64) } }
pub fn allow_panic(m: &str) { unsafe { ffi::sym_allow_panic(m.as_ptr(), m.len() as u64) } }
pub fn observe(m: &str, v: u64) { unsafe { ffi::sym_observe(m.as_ptr(), m.len() as u64, v) } }
pub fn observe_f32(m: &str, v: f32) { observe(m, v.to_bits() as u64) }
/// equal as values (both NaN counts as equal, +0 equals -0)
#[inline(never)]
pub fn same(a: f32, b: f32) -> bool { (a == b) | (a.to_bits() == b.to_bits()) | (a.is_nan() & b.is_nan()) }

//! The verification primitives. Under the symbolic executor these are interpreted; the replay binary implements
//! them over a recorded list of input values.
mod ffi {
    extern "C" {
        pub fn sv_sym(bits: u64) -> u64;
        pub fn sv_range(bits: u64, lo: u64, hi: u64) -> u64;
        pub fn sv_choose(n: u64) -> u64;
        pub fn sv_assume(b: bool);
        pub fn sv_assert(b: bool, msg: *const u8, len: u64);
        pub fn sv_cover(id: u64);
        pub fn sv_live() -> u64;
        pub fn sv_reuse(mode: u64);
        pub fn sv_log(v: u64);
        pub fn sv_note(msg: *const u8, len: u64);
        pub fn sv_spawn(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u64;
        pub fn sv_join();
    }
}
/// a fresh symbolic value of the given width
#[inline(never)] pub fn sym(bits: u64) -> u64 { unsafe { ffi::sv_sym(bits) } }
/// a fresh symbolic value in lo..=hi (at least one value: the caller's bounds are constants)
#[inline(never)] pub fn range(bits: u64, lo: u64, hi: u64) -> u64 { unsafe { ffi::sv_range(bits, lo, hi) } }
pub fn sym8() -> u8 { sym(8) as u8 }
pub fn sym16() -> u16 { sym(16) as u16 }
pub fn sym32() -> u32 { sym(32) as u32 }
/// every value in 0..n is explored
#[inline(never)] pub fn choose(n: usize) -> usize { unsafe { ffi::sv_choose(n as u64) as usize } }
#[inline(never)] pub fn assume(b: bool) { unsafe { ffi::sv_assume(b) } }
#[inline(never)] pub fn check(b: bool, msg: &'static str) { unsafe { ffi::sv_assert(b, msg.as_ptr(), msg.len() as u64) } }
pub fn fail(msg: &'static str) { check(false, msg) }
#[inline(never)] pub fn cover(id: u32) { unsafe { ffi::sv_cover(id as u64) } }
/// How the allocator treats freed blocks of 64 bytes and more: 0 their addresses are never used again (the default, which
/// catches every access to them), 1 the next block of that layout gets the address of the last one freed, 2 that of any or none.
#[inline(never)] pub fn reuse(mode: u64) { unsafe { ffi::sv_reuse(mode) } }
/// number of live heap allocations
#[inline(never)] pub fn live() -> u64 { unsafe { ffi::sv_live() } }
#[inline(never)] pub fn log(v: u64) { unsafe { ffi::sv_log(v) } }
#[inline(never)] pub fn note(msg: &'static str) { unsafe { ffi::sv_note(msg.as_ptr(), msg.len() as u64) } }
pub fn spawn<T>(f: extern "C-unwind" fn(*mut u8), data: *mut T) { unsafe { ffi::sv_spawn(f, data as *mut u8); } }
pub fn join() { unsafe { ffi::sv_join() } }

/// Did `f` panic? (the payload is dropped)
pub fn panics(f: impl FnOnce()) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
/// run `f`, giving back its value unless it panicked
pub fn catch<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }

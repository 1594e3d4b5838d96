//! A runtime for code instrumented with -Zsanitizer=thread: runs the atomic operations of the threads in a given
//! order (SV_SCHED=0,1,1,...) and reports accesses that no happens-before edge orders. Once the order is used up (or
//! does not fit) the threads run freely.
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicU16, AtomicUsize, Ordering::SeqCst};
use std::cell::Cell;

thread_local! { static TID: Cell<usize> = const { Cell::new(0) }; }
pub static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static POS: AtomicUsize = AtomicUsize::new(0);
static FREE: AtomicBool = AtomicBool::new(false);
static mut ORDER: [u8; 1 << 16] = [0; 1 << 16];
static mut N_ORDER: usize = 0;
#[derive(Clone, Copy)]
struct Th { vc: [u32; 4], seen: [u32; 4], fence: [u32; 4] }
static mut TH: [Th; 4] = [Th { vc: [0; 4], seen: [0; 4], fence: [0; 4] }; 4];
static mut THREADS: usize = 1;
/// per byte: the last write (clock << 3 | atomic << 2 | thread), the last plain and atomic reads
#[derive(Clone, Copy)]
struct Sh { addr: usize, w: u32, r: [u32; 4], ra: [u32; 4] }
const N: usize = 1 << 20;
static mut SHADOW: [Sh; N] = [Sh { addr: 0, w: 0, r: [0; 4], ra: [0; 4] }; N];
const NS: usize = 1 << 16;
static mut SYNC: [(usize, [u32; 4]); NS] = [(0, [0; 4]); NS];

fn locked<T>(f: impl FnOnce() -> T) -> T {
    while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() { std::thread::yield_now() }
    let r = f();
    LOCK.store(false, SeqCst);
    r
}
pub fn init() {
    let o = std::env::var("SV_SCHED").unwrap_or_default();
    let mut n = 0;
    for x in o.split(',').filter(|x| !x.is_empty()) { if n < 1 << 16 { unsafe { ORDER[n] = x.parse().unwrap(); } n += 1; } }
    unsafe { N_ORDER = n; TH[0].vc[0] = 1; }
    TID.with(|t| t.set(0));
}
/// called by the parent; gives the new thread's number
pub fn spawned() -> usize {
    ON.store(true, SeqCst);
    let c = TID.with(|t| t.get());
    locked(|| unsafe { let id = THREADS; THREADS += 1; TH[c].vc[c] += 1; let mut v = TH[c].vc; v[id] = 1; TH[id].vc = v; id })
}
pub fn start(id: usize) { TID.with(|t| t.set(id)); }
pub fn joined() {
    ON.store(false, SeqCst);
}
fn tid() -> usize { TID.with(|t| t.get()) }
fn slot(a: usize) -> &'static mut Sh {
    let mut k = a.wrapping_mul(0x9E3779B97F4A7C15) >> 44;
    loop {
        let s = unsafe { &mut (*std::ptr::addr_of_mut!(SHADOW))[k & (N - 1)] };
        if s.addr == a { return s; }
        if s.addr == 0 { s.addr = a; return s; }
        k += 1;
    }
}
fn sync(a: usize) -> &'static mut [u32; 4] {
    let mut k = a.wrapping_mul(0x9E3779B97F4A7C15) >> 48;
    loop {
        let s = unsafe { &mut (*std::ptr::addr_of_mut!(SYNC))[k & (NS - 1)] };
        if s.0 == a || s.0 == 0 { s.0 = a; return &mut s.1; }
        k += 1;
    }
}
fn race(what: &str, t: usize) -> ! {
    // (no unwinding, no allocation)
    extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
    let m: &[&str] = &["FAIL data race: ", what, " against thread ", ["0", "1", "2", "3"][t], "\n"];
    unsafe { for s in m { write(1, s.as_ptr(), s.len()); } _exit(1) }
}
fn access_locked(a: usize, n: usize, write: bool, atomic: bool, what: &str) {
    let me = tid();
    let vc = unsafe { TH[me].vc };
    let now = vc[me];
    for b in a..a + n {
        let x = slot(b);
        let (t, at, k) = ((x.w & 3) as usize, x.w & 4 != 0, x.w >> 3);
        if k != 0 && t != me && k > vc[t] && !(atomic && at) { race(what, t); }
        if write {
            for t in 0..4 { if t != me && (x.r[t] > vc[t] || !atomic && x.ra[t] > vc[t]) { race(what, t); } }
            x.w = now << 3 | (atomic as u32) << 2 | me as u32;
            if atomic { x.ra[me] = now; }
        } else if atomic { x.ra[me] = now; } else { x.r[me] = now; }
    }
}
pub fn access(a: usize, n: usize, write: bool, what: &str) {
    if n == 0 || !ON.load(SeqCst) { return; }
    locked(|| access_locked(a, n, write, false, what));
}
fn atomic<T>(a: usize, n: usize, mo: i32, load: bool, store: impl Fn(&T) -> bool, f: impl FnOnce() -> T) -> T {
    if !ON.load(SeqCst) { return f(); }
    let me = tid();
    let t0 = std::time::Instant::now();
    // its turn?
    while !FREE.load(SeqCst) {
        let p = POS.load(SeqCst);
        let (o, n) = unsafe { (ORDER[p.min((1 << 16) - 1)] as usize, N_ORDER) };
        if p >= n { FREE.store(true, SeqCst); break; }
        if o == me { break; }
        if t0.elapsed().as_millis() > 1000 { FREE.store(true, SeqCst); break; }
        std::thread::yield_now();
    }
    let r = locked(|| {
        let r = f();
        let st = store(&r);
        access_locked(a, n, st, true, "an atomic operation");
        let join = |a: &mut [u32; 4], b: &[u32; 4]| for i in 0..4 { a[i] = a[i].max(b[i]) };
        unsafe {
            let th = &mut *std::ptr::addr_of_mut!(TH[me]);
            let s = sync(a);
            if load { join(&mut th.seen, s); if matches!(mo, 1 | 2 | 4 | 5) { join(&mut th.vc, s); } }
            if st {
                let out = if matches!(mo, 3 | 4 | 5) { th.vc } else { th.fence };
                if load { join(s, &out); } else { *s = out; }
                th.vc[me] += 1;
            }
        }
        r
    });
    POS.fetch_add(1, SeqCst);
    r
}
#[no_mangle] extern "C" fn __tsan_init() {}
#[no_mangle] extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle] extern "C" fn __tsan_func_exit() {}
#[no_mangle] extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle] extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle] extern "C" fn __tsan_vptr_update(p: usize, _: usize) { access(p, 8, true, "a write") }
#[no_mangle] extern "C" fn __tsan_vptr_read(p: usize) { access(p, 8, false, "a read") }
#[no_mangle] extern "C" fn __tsan_read_range(p: usize, n: usize) { access(p, n, false, "a read") }
#[no_mangle] extern "C" fn __tsan_write_range(p: usize, n: usize) { access(p, n, true, "a write") }
macro_rules! plain { ($($r:ident $w:ident $ur:ident $uw:ident $vr:ident $vw:ident $uvr:ident $uvw:ident $n:expr;)*) => { $(
    #[no_mangle] extern "C" fn $r(p: usize) { access(p, $n, false, "a read") }
    #[no_mangle] extern "C" fn $w(p: usize) { access(p, $n, true, "a write") }
    #[no_mangle] extern "C" fn $ur(p: usize) { access(p, $n, false, "a read") }
    #[no_mangle] extern "C" fn $uw(p: usize) { access(p, $n, true, "a write") }
    #[no_mangle] extern "C" fn $vr(p: usize) { access(p, $n, false, "a read") }
    #[no_mangle] extern "C" fn $vw(p: usize) { access(p, $n, true, "a write") }
    #[no_mangle] extern "C" fn $uvr(p: usize) { access(p, $n, false, "a read") }
    #[no_mangle] extern "C" fn $uvw(p: usize) { access(p, $n, true, "a write") }
)* } }
plain! {
    __tsan_read1 __tsan_write1 __tsan_unaligned_read1 __tsan_unaligned_write1 __tsan_volatile_read1 __tsan_volatile_write1 __tsan_unaligned_volatile_read1 __tsan_unaligned_volatile_write1 1;
    __tsan_read2 __tsan_write2 __tsan_unaligned_read2 __tsan_unaligned_write2 __tsan_volatile_read2 __tsan_volatile_write2 __tsan_unaligned_volatile_read2 __tsan_unaligned_volatile_write2 2;
    __tsan_read4 __tsan_write4 __tsan_unaligned_read4 __tsan_unaligned_write4 __tsan_volatile_read4 __tsan_volatile_write4 __tsan_unaligned_volatile_read4 __tsan_unaligned_volatile_write4 4;
    __tsan_read8 __tsan_write8 __tsan_unaligned_read8 __tsan_unaligned_write8 __tsan_volatile_read8 __tsan_volatile_write8 __tsan_unaligned_volatile_read8 __tsan_unaligned_volatile_write8 8;
    __tsan_read16 __tsan_write16 __tsan_unaligned_read16 __tsan_unaligned_write16 __tsan_volatile_read16 __tsan_volatile_write16 __tsan_unaligned_volatile_read16 __tsan_unaligned_volatile_write16 16;
}
extern "C" { fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8; fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8; fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8; }
#[no_mangle] unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { access(s as usize, n, false, "a read"); access(d as usize, n, true, "a write"); memcpy(d, s, n) }
#[no_mangle] unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { access(s as usize, n, false, "a read"); access(d as usize, n, true, "a write"); memmove(d, s, n) }
#[no_mangle] unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { access(d as usize, n, true, "a write"); memset(d, c, n) }
macro_rules! atomics { ($($t:ty, $at:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cxs:ident $cxw:ident $cxv:ident;)*) => { $(
    #[no_mangle] unsafe extern "C" fn $load(p: *const $at, mo: i32) -> $t { atomic(p as usize, size_of::<$t>(), mo, true, |_| false, || (*p).load(SeqCst)) }
    #[no_mangle] unsafe extern "C" fn $store(p: *const $at, v: $t, mo: i32) { atomic(p as usize, size_of::<$t>(), mo, false, |_| true, || (*p).store(v, SeqCst)) }
    #[no_mangle] unsafe extern "C" fn $xchg(p: *const $at, v: $t, mo: i32) -> $t { atomic(p as usize, size_of::<$t>(), mo, true, |_| true, || (*p).swap(v, SeqCst)) }
    #[no_mangle] unsafe extern "C" fn $add(p: *const $at, v: $t, mo: i32) -> $t { atomic(p as usize, size_of::<$t>(), mo, true, |_| true, || (*p).fetch_add(v, SeqCst)) }
    #[no_mangle] unsafe extern "C" fn $sub(p: *const $at, v: $t, mo: i32) -> $t { atomic(p as usize, size_of::<$t>(), mo, true, |_| true, || (*p).fetch_sub(v, SeqCst)) }
    #[no_mangle] unsafe extern "C" fn $and(p: *const $at, v: $t, mo: i32) -> $t { atomic(p as usize, size_of::<$t>(), mo, true, |_| true, || (*p).fetch_and(v, SeqCst)) }
    #[no_mangle] unsafe extern "C" fn $or(p: *const $at, v: $t, mo: i32) -> $t { atomic(p as usize, size_of::<$t>(), mo, true, |_| true, || (*p).fetch_or(v, SeqCst)) }
    #[no_mangle] unsafe extern "C" fn $xor(p: *const $at, v: $t, mo: i32) -> $t { atomic(p as usize, size_of::<$t>(), mo, true, |_| true, || (*p).fetch_xor(v, SeqCst)) }
    #[no_mangle] unsafe extern "C" fn $nand(p: *const $at, v: $t, mo: i32) -> $t { atomic(p as usize, size_of::<$t>(), mo, true, |_| true, || (*p).fetch_nand(v, SeqCst)) }
    #[no_mangle] unsafe extern "C" fn $cxs(p: *const $at, e: *mut $t, v: $t, mo: i32, _f: i32) -> i32 { let r = atomic(p as usize, size_of::<$t>(), mo, true, |r: &Result<$t, $t>| r.is_ok(), || (*p).compare_exchange(*e, v, SeqCst, SeqCst)); match r { Ok(_) => 1, Err(x) => { *e = x; 0 } } }
    #[no_mangle] unsafe extern "C" fn $cxw(p: *const $at, e: *mut $t, v: $t, mo: i32, f: i32) -> i32 { $cxs(p, e, v, mo, f) }
    #[no_mangle] unsafe extern "C" fn $cxv(p: *const $at, e: $t, v: $t, mo: i32, _f: i32) -> $t { match atomic(p as usize, size_of::<$t>(), mo, true, |r: &Result<$t, $t>| r.is_ok(), || (*p).compare_exchange(e, v, SeqCst, SeqCst)) { Ok(x) | Err(x) => x } }
)* } }
atomics! {
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}
#[no_mangle] extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    if !ON.load(SeqCst) { return; }
    let me = tid();
    locked(|| unsafe {
        let th = &mut *std::ptr::addr_of_mut!(TH[me]);
        if matches!(mo, 1 | 2 | 4 | 5) { for i in 0..4 { th.vc[i] = th.vc[i].max(th.seen[i]); } }
        if matches!(mo, 3 | 4 | 5) { th.fence = th.vc; th.vc[me] += 1; }
    });
}
#[no_mangle] extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

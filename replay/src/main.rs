//! Runs one harness entry natively over recorded input values:  replay ENTRY [v0,v1,...]
//! exit 0: the entry finished; 1: an assertion failed or it panicked; 77: the inputs do not fit the entry.
#[cfg(feature = "sched")] #[allow(static_mut_refs)] mod sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

/// Counts live blocks. Unless a sanitizer watches the memory instead (SV_PLAIN), a freed block is filled with
/// 0xdd and kept: reading it gives nonsense, freeing it again fails at once, and writing to it is seen at the end.
struct Counting;
// what the threads' own machinery allocates is not counted
thread_local! { static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(true) }; }
fn count(d: i64) { if !QUIET.with(|q| q.get()) { LIVE.fetch_add(d, SeqCst); } }
static LIVE: AtomicI64 = AtomicI64::new(0);
static WATCH: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
const MAX: usize = 1 << 17;
static mut FREED: [(usize, usize); MAX] = [(0, 0); MAX];
static mut N_FREED: usize = 0;
fn die(m: &str) -> ! {
    extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
    unsafe { write(1, m.as_ptr(), m.len()); _exit(1) }
}
fn locked<T>(f: impl FnOnce() -> T) -> T {
    while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() { std::hint::spin_loop() }
    let r = f();
    LOCK.store(false, SeqCst);
    r
}
static REUSE: AtomicUsize = AtomicUsize::new(0);
/// which freed block of this layout is handed out again, if any
unsafe fn again(l: Layout) -> Option<*mut u8> {
    let mode = REUSE.load(SeqCst);
    if mode == 0 || l.size() < 64 || QUIET.with(|q| q.get()) { return None; }
    let list = &mut *std::ptr::addr_of_mut!(FREED);
    let n = N_FREED;
    let have = list[..n].iter().filter(|x| x.1 == l.size()).count();
    let k = if have == 0 { 0 } else if mode == 1 { 1 } else { next() as usize };
    if k == 0 || k > have { return None; }
    let i = (0..n).rev().filter(|&i| list[i].1 == l.size()).nth(k - 1).unwrap();
    let p = list[i].0 as *mut u8;
    list.copy_within(i + 1..n, i);
    N_FREED = n - 1;
    std::ptr::write_bytes(p, 0xcd, l.size());
    Some(p)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1);
        if let Some(p) = again(l) { return p; }
        let p = System.alloc(l);
        if WATCH.load(SeqCst) { std::ptr::write_bytes(p, 0xcd, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1);
        if !WATCH.load(SeqCst) { return System.dealloc(p, l); }
        #[cfg(feature = "sched")] sched::access(p as usize, l.size(), true, "freeing memory");
        locked(|| {
            let n = N_FREED;
            let list = &*std::ptr::addr_of!(FREED);
            if list[..n].iter().any(|x| x.0 == p as usize) { die("FAIL a block is freed twice\n"); }
            std::ptr::write_bytes(p, 0xdd, l.size());
            if n < MAX { (*std::ptr::addr_of_mut!(FREED))[n] = (p as usize, l.size()); N_FREED = n + 1; }
        })
    }
}
fn freed_blocks_untouched() {
    locked(|| unsafe {
        let list = &*std::ptr::addr_of!(FREED);
        for (p, n) in &list[..N_FREED] {
            if std::slice::from_raw_parts(*p as *const u8, *n).iter().any(|b| *b != 0xdd) { die("FAIL a freed block was written to\n"); }
        }
    })
}
#[global_allocator]
static A: Counting = Counting;

static INPUTS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static NEXT: AtomicUsize = AtomicUsize::new(0);
static THREADS: Mutex<Vec<std::thread::JoinHandle<()>>> = Mutex::new(Vec::new());

fn next() -> u64 { let k = NEXT.fetch_add(1, SeqCst); let v = INPUTS.lock().unwrap(); if k >= v.len() { println!("UNFIT inputs exhausted"); std::process::exit(77) } v[k] }
fn unfit(m: &str) -> ! { println!("UNFIT {m}"); std::process::exit(77) }
#[no_mangle] extern "C" fn sv_sym(bits: u64) -> u64 { let v = next(); if bits < 64 && v >> bits != 0 { unfit("value too wide") } v }
#[no_mangle] extern "C" fn sv_range(_bits: u64, lo: u64, hi: u64) -> u64 { let v = next(); if v < lo || v > hi { unfit("value out of range") } v }
#[no_mangle] extern "C" fn sv_choose(n: u64) -> u64 { let v = next(); if v >= n { unfit("choice out of range") } v }
#[no_mangle] extern "C" fn sv_assume(b: bool) { if !b { unfit("assumption") } }
#[no_mangle] extern "C" fn sv_assert(b: bool, msg: *const u8, len: u64) {
    if !b { println!("FAIL assert: {}", unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(msg, len as usize)) }); std::process::exit(1) }
}
#[no_mangle] extern "C" fn sv_cover(id: u64) { println!("COVER {id}"); }
/// allocations made by the harness and the tree (the panic machinery may keep one buffer alive)
#[no_mangle] extern "C" fn sv_live() -> u64 { LIVE.load(SeqCst) as u64 }
#[no_mangle] extern "C" fn sv_reuse(mode: u64) { REUSE.store(mode as usize, SeqCst) }
#[no_mangle] extern "C" fn sv_log(v: u64) { let l = LIVE.load(SeqCst); println!("LOG {v}"); LIVE.store(l, SeqCst); }
#[no_mangle] extern "C" fn sv_note(msg: *const u8, len: u64) { let l = LIVE.load(SeqCst); println!("NOTE {}", unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(msg, len as usize)) }); LIVE.store(l, SeqCst); }
#[no_mangle] extern "C" fn sv_spawn(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u64 {
    let d = data as usize;
    QUIET.with(|q| q.set(true));
    #[cfg(feature = "sched")] let id = sched::spawned();
    let h = std::thread::spawn(move || { #[cfg(feature = "sched")] sched::start(id); QUIET.with(|q| q.set(false)); f(d as *mut u8); QUIET.with(|q| q.set(true)) });
    THREADS.lock().unwrap().push(h);
    QUIET.with(|q| q.set(false));
    0
}
#[no_mangle] extern "C" fn sv_join() { QUIET.with(|q| q.set(true)); for h in THREADS.lock().unwrap().drain(..) { if h.join().is_err() { println!("FAIL a thread panicked"); std::process::exit(1) } } #[cfg(feature = "sched")] sched::joined(); QUIET.with(|q| q.set(false)); }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = match harness::cur::ENTRIES.iter().find(|e| e.0 == a[1]) { Some(f) => f.1, None => unfit("no such entry") };
    *INPUTS.lock().unwrap() = a.get(2).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    if std::env::var_os("SV_STRICT").is_some() {
        // debug builds: an internal assertion of the code under test is a check that optimised builds leave out
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            if m.contains("assertion") || m.contains("unreachable code") || m.contains("unsafe precondition") { println!("FAIL internal assertion: {m} ({})", i.location().map(|l| l.to_string()).unwrap_or_default()); std::process::exit(1) }
            old(i)
        }));
    }
    #[cfg(feature = "sched")] sched::init();
    println!("START");
    QUIET.with(|q| q.set(false));
    if std::env::var_os("SV_PLAIN").is_none() && !cfg!(miri) { WATCH.store(true, SeqCst); }
    let r = std::panic::catch_unwind(f);
    freed_blocks_untouched();
    match r {
        Ok(()) => println!("DONE"),
        Err(_) => { println!("FAIL panic"); std::process::exit(1) }
    }
}

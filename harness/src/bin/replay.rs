//! Runs one harness natively on the inputs of a solver model.
//!
//! replay HARNESS INPUTS_HEX UFS_HEX TIER
//!
//! Without the `real` feature the cryptographic primitives are the stand-in
//! crates and their outputs come from UFS_HEX (the values the solver chose);
//! with it they are the real ones and UFS_HEX is ignored.
//!
//! Prints OBS lines and one of: OK, CHECK-FAIL id, PANIC msg, ASSUME-FAIL,
//! HUGE-ALLOC n, UNDERRUN.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

struct Cap;
const LIMIT: usize = 64 << 20;
fn over(n: usize) -> ! {
    eprint!("");
    let mut b = *b"HUGE-ALLOC                     \n";
    let mut i = 29;
    let mut v = n;
    while v > 0 {
        b[i] = b'0' + (v % 10) as u8;
        v /= 10;
        i -= 1;
    }
    extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    unsafe {
        write(1, b.as_ptr(), b.len());
        _exit(13)
    }
}
unsafe impl GlobalAlloc for Cap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            over(l.size())
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT {
            over(n)
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Cap = Cap;

static INPUTS: Mutex<(Vec<u8>, usize)> = Mutex::new((Vec::new(), 0));
static UFS: Mutex<(Vec<u8>, usize)> = Mutex::new((Vec::new(), 0));
static TIER: AtomicUsize = AtomicUsize::new(0);

fn done(s: &str, code: i32) -> ! {
    println!("{s}");
    std::process::exit(code)
}
fn take(q: &Mutex<(Vec<u8>, usize)>, out: &mut [u8]) {
    let mut g = q.lock().unwrap();
    let p = g.1;
    if p + out.len() > g.0.len() {
        done("UNDERRUN", 14);
    }
    out.copy_from_slice(&g.0[p..p + out.len()]);
    g.1 += out.len();
}
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

#[no_mangle]
pub unsafe extern "C" fn vsym_bytes(p: *mut u8, n: usize) {
    take(&INPUTS, std::slice::from_raw_parts_mut(p, n));
}
#[no_mangle]
pub extern "C" fn vsym_assume(c: bool) {
    if !c {
        done("ASSUME-FAIL", 11);
    }
}
#[no_mangle]
pub unsafe extern "C" fn vsym_check(c: bool, p: *const u8, n: usize) {
    if !c {
        done(&format!("CHECK-FAIL {}", String::from_utf8_lossy(sl(p, n))), 10);
    }
}
#[no_mangle]
pub extern "C" fn vsym_reach(_: *const u8, _: usize) {}
#[no_mangle]
pub unsafe extern "C" fn vsym_observe(p: *const u8, n: usize) {
    println!("OBS {}", hex(sl(p, n)));
}
#[no_mangle]
pub extern "C" fn vsym_concretize(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn vsym_tier() -> u32 {
    TIER.load(Ordering::Relaxed) as u32
}
#[no_mangle]
pub unsafe extern "C" fn vsym_eq(a: *const u8, b: *const u8, n: usize) -> bool {
    sl(a, n) == sl(b, n)
}
#[cfg(not(feature = "real"))]
#[no_mangle]
pub unsafe extern "C" fn vsym_uf(_: u32, _: *const u8, _: usize, out: *mut u8, n: usize) {
    take(&UFS, std::slice::from_raw_parts_mut(out, n));
}
#[cfg(feature = "real")]
#[no_mangle]
pub unsafe extern "C" fn vsym_uf(alg: u32, p: *const u8, il: usize, out: *mut u8, n: usize) {
    use ripemd::Digest;
    let out = std::slice::from_raw_parts_mut(out, n);
    let inp = sl(p, il);
    let d = match alg {
        vrt::alg::SHA256 => ring::digest::digest(&ring::digest::SHA256, inp).as_ref().to_vec(),
        vrt::alg::SHA512_256 => ring::digest::digest(&ring::digest::SHA512_256, inp).as_ref().to_vec(),
        vrt::alg::RIPEMD160 => ripemd::Ripemd160::digest(inp).to_vec(),
        a => done(&format!("NO-REAL {a}"), 15),
    };
    out.copy_from_slice(&d);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = |s: &str| match s.strip_prefix('@') {
        Some(f) => std::fs::read_to_string(f).unwrap().trim().to_string(),
        None => s.to_string(),
    };
    INPUTS.lock().unwrap().0 = unhex(&text(&a[2]));
    UFS.lock().unwrap().0 = unhex(&text(&a[3]));
    TIER.store(a[4].parse().unwrap(), Ordering::Relaxed);
    let f = harness::registry::find(&a[1]).expect("no such harness");
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| l.to_string()).unwrap_or_default();
        done(&format!("PANIC {m} at {l}"), 12);
    }));
    f();
    done("OK", 0);
}

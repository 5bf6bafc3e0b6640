//! Harness-side interface of the symbolic executor `rsym`.
//!
//! Built for riscv64 the functions are externals that the executor implements
//! symbolically.  Built for the host they replay one concrete assignment
//! (`RSYM_REPLAY`), so that every counterexample is re-executed against the
//! really compiled code.
#![allow(clippy::missing_safety_doc)]

#[cfg(target_arch = "riscv64")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout};

    extern "C" {
        fn sym_u(width: u32, name: *const u8, len: usize) -> u64;
        fn sym_bytes(p: *mut u8, n: usize, name: *const u8, len: usize);
        fn sym_choice(n: u64, name: *const u8, len: usize) -> u64;
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, msg: *const u8, len: usize);
        fn sym_cover(msg: *const u8, len: usize);
        fn sym_log(v: u64);
        fn sym_conc(v: u64) -> u64;
        fn sym_is_symbolic(v: u64) -> bool;
        fn sym_stop() -> !;
        fn sym_alloc_reset(limit: u64) -> u64;
        fn sym_alloc_peak() -> u64;
        fn rsym_alloc(size: usize, align: usize) -> *mut u8;
        fn rsym_dealloc(p: *mut u8);
        fn rsym_realloc(p: *mut u8, old: usize, align: usize, new: usize) -> *mut u8;
    }

    pub struct Alloc;
    unsafe impl GlobalAlloc for Alloc {
        #[inline(always)]
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            rsym_alloc(l.size(), l.align())
        }
        #[inline(always)]
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            rsym_alloc(l.size(), l.align())
        }
        #[inline(always)]
        unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
            rsym_dealloc(p)
        }
        #[inline(always)]
        unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
            rsym_realloc(p, l.size(), l.align(), new)
        }
    }

    pub fn u(width: u32, name: &str) -> u64 {
        unsafe { sym_u(width, name.as_ptr(), name.len()) }
    }
    pub fn fill(b: &mut [u8], name: &str) {
        unsafe { sym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
    }
    pub fn choice(n: usize, name: &str) -> usize {
        unsafe { sym_choice(n as u64, name.as_ptr(), name.len()) as usize }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn check(c: bool, msg: &str) {
        unsafe { sym_assert(c, msg.as_ptr(), msg.len()) }
    }
    pub fn cover(msg: &str) {
        unsafe { sym_cover(msg.as_ptr(), msg.len()) }
    }
    pub fn log(v: u64) {
        unsafe { sym_log(v) }
    }
    pub fn conc(v: u64) -> u64 {
        unsafe { sym_conc(v) }
    }
    pub fn is_symbolic(v: u64) -> bool {
        unsafe { sym_is_symbolic(v) }
    }
    pub fn stop() -> ! {
        unsafe { sym_stop() }
    }
    pub fn alloc_reset(limit: u64) -> u64 {
        unsafe { sym_alloc_reset(limit) }
    }
    pub fn alloc_peak() -> u64 {
        unsafe { sym_alloc_peak() }
    }
    pub const SYMBOLIC: bool = true;
}

#[cfg(not(target_arch = "riscv64"))]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

    static LIVE: AtomicU64 = AtomicU64::new(0);
    static PEAK: AtomicU64 = AtomicU64::new(0);
    static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

    pub struct Alloc;
    impl Alloc {
        fn add(n: u64) {
            let l = LIVE.fetch_add(n, Relaxed) + n;
            PEAK.fetch_max(l, Relaxed);
            if n > LIMIT.load(Relaxed) {
                LIMIT.store(u64::MAX, Relaxed);
                println!("ALLOC-LIMIT size={n}");
                std::process::exit(12);
            }
        }
    }
    unsafe impl GlobalAlloc for Alloc {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            Self::add(l.size() as u64);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as u64, Relaxed);
            System.dealloc(p, l)
        }
    }

    thread_local! {
        static INPUT: RefCell<Option<Vec<(String, u32, u128)>>> = const { RefCell::new(None) };
    }

    fn next(width: u32, name: &str) -> u64 {
        INPUT.with(|i| {
            let mut i = i.borrow_mut();
            let v = i.get_or_insert_with(|| {
                let p = std::env::var("RSYM_REPLAY").expect("RSYM_REPLAY not set");
                let mut v: Vec<_> = std::fs::read_to_string(p)
                    .expect("replay file")
                    .lines()
                    .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
                    .map(|l| {
                        let mut f = l.split_whitespace();
                        (
                            f.next().unwrap().to_string(),
                            f.next().unwrap().parse().unwrap(),
                            f.next().unwrap().parse().unwrap(),
                        )
                    })
                    .collect();
                v.reverse();
                v
            });
            match v.pop() {
                Some((n, w, x)) if n == name && (w == width || width == 0) => x as u64,
                Some(o) => {
                    println!("REPLAY-DIVERGED want {name}:{width} have {}:{}", o.0, o.1);
                    std::process::exit(3);
                }
                None => {
                    println!("REPLAY-DIVERGED want {name}:{width} have nothing");
                    std::process::exit(3);
                }
            }
        })
    }

    pub fn u(width: u32, name: &str) -> u64 {
        let v = next(width, &name.replace(' ', "_"));
        if width == 64 {
            v
        } else {
            v & ((1 << width) - 1)
        }
    }
    pub fn fill(b: &mut [u8], name: &str) {
        for (i, x) in b.iter_mut().enumerate() {
            *x = next(8, &format!("{}[{i}]", name.replace(' ', "_"))) as u8;
        }
    }
    pub fn choice(n: usize, name: &str) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = next(0, &name.replace(' ', "_"));
        if v >= n as u64 {
            println!("REPLAY-DIVERGED choice {name} {v} >= {n}");
            std::process::exit(3);
        }
        v as usize
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUME-FAILED");
            std::process::exit(4);
        }
    }
    pub fn check(c: bool, msg: &str) {
        if !c {
            println!("ASSERT-FAILED {msg}");
            std::process::exit(10);
        }
    }
    pub fn cover(_: &str) {}
    pub fn log(v: u64) {
        println!("LOG {v}");
    }
    pub fn conc(v: u64) -> u64 {
        v
    }
    pub fn is_symbolic(_: u64) -> bool {
        false
    }
    pub fn stop() -> ! {
        println!("DONE");
        std::process::exit(0)
    }
    pub fn alloc_reset(limit: u64) -> u64 {
        let l = LIVE.load(Relaxed);
        PEAK.store(l, Relaxed);
        LIMIT.store(if limit == 0 { u64::MAX } else { limit }, Relaxed);
        l
    }
    pub fn alloc_peak() -> u64 {
        PEAK.load(Relaxed)
    }
    pub const SYMBOLIC: bool = false;
}

pub use imp::*;

#[global_allocator]
static ALLOC: imp::Alloc = imp::Alloc;

pub fn u8(name: &str) -> u8 {
    u(8, name) as u8
}
pub fn u16(name: &str) -> u16 {
    u(16, name) as u16
}
pub fn u32(name: &str) -> u32 {
    u(32, name) as u32
}
pub fn u64(name: &str) -> u64 {
    u(64, name)
}
pub fn u128(name: &str) -> u128 {
    let hi = u(64, name);
    let lo = u(64, name);
    ((hi as u128) << 64) | lo as u128
}
pub fn bool(name: &str) -> bool {
    u(1, name) != 0
}
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0; N];
    fill(&mut b, name);
    b
}
pub fn vec(n: usize, name: &str) -> Vec<u8> {
    let mut b = vec![0; n];
    fill(&mut b, name);
    b
}

/// Selects the hash function of all `HashMap`s: below 64 it is that constant,
/// others seed the real one.  Each gives other iteration orders.  (Only while
/// no map is in use.)
pub fn hash_seed(seed: u64) {
    extern "C" {
        static RSYM_HASH: std::sync::atomic::AtomicU64;
    }
    unsafe { RSYM_HASH.store(seed, std::sync::atomic::Ordering::Relaxed) }
}

/// Is this entry to be built?  `list` is `,a,b,`; everything is without it.
pub const fn wanted(list: Option<&str>, name: &str) -> bool {
    let Some(l) = list else { return true };
    let (l, n) = (l.as_bytes(), name.as_bytes());
    let mut i = 0;
    while i + n.len() + 1 < l.len() {
        let mut k = 0;
        while k < n.len() && l[i + 1 + k] == n[k] {
            k += 1;
        }
        if k == n.len() && l[i] == b',' && l[i + 1 + k] == b',' {
            return true;
        }
        i += 1;
    }
    false
}

/// Registers the native entry table: `entries!(a, b, c);` declares the exported
/// symbols the executor starts from and the dispatcher used by the replay
/// binary.
#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        mod __entries {
            $(
                #[no_mangle]
                pub extern "C" fn $name() {
                    if const { $crate::wanted(option_env!("ENTRIES"), stringify!($name)) } {
                        super::$name()
                    } else {
                        panic!("not built")
                    }
                }
            )*
        }
        #[cfg(not(target_arch = "riscv64"))]
        pub fn main() {
            let e = std::env::args().nth(1).expect("entry");
            std::panic::set_hook(Box::new(|i| {
                println!("PANIC {i}");
                std::process::exit(11);
            }));
            match e.as_str() {
                $(stringify!($name) => __entries::$name(),)*
                _ => { println!("no entry {e}"); std::process::exit(2) }
            }
            println!("DONE");
            std::process::exit(0);
        }
        #[cfg(target_arch = "riscv64")]
        pub fn main() {
            // keep the entry points alive
            let a: &[extern "C" fn()] = &[$(__entries::$name),*];
            std::hint::black_box(a);
        }
    };
}

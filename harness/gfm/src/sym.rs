//! The interface between the harnesses and the symbolic executor.
//!
//! In the symbolic build these are external functions that the executor
//! implements. In the native build (feature `replay`) they read one concrete
//! assignment of the symbolic bytes, so that the very same harness re-runs a
//! solver model against the natively compiled code.

pub type Dom = [u64; 4];

mod ffi {
    extern "C" {
        pub fn sym_set(p: *mut u8, n: usize, d: *const u64);
        pub fn sym_choose(n: u32) -> u32;
        pub fn sym_assume(c: u32);
        pub fn sym_assert(c: u32, id: u32);
        pub fn sym_eq(a: *const u8, an: usize, b: *const u8, bn: usize, id: u32);
        pub fn sym_fail(id: u32);
        pub fn sym_reach(id: u32);
        pub fn sym_out(tag: u32, p: *const u8, n: usize);
        pub fn sym_job() -> u32;
        pub fn sym_param() -> u32;
    }
}

/// n symbolic bytes, each ranging over `d`
pub fn bytes(n: usize, d: &Dom) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { ffi::sym_set(v.as_mut_ptr(), n, d.as_ptr()) };
    }
    v
}
/// an arbitrary number below n, as a concrete value on each path
pub fn choose(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    let c = unsafe { ffi::sym_choose(n) };
    let mut i = 0;
    while i < n - 1 {
        if c == i {
            return i;
        }
        i += 1;
    }
    n - 1
}
pub fn assume(c: bool) {
    unsafe { ffi::sym_assume(c as u32) }
}
pub fn assert(c: bool, id: u32) {
    unsafe { ffi::sym_assert(c as u32, id) }
}
pub fn assert_eq(a: &[u8], b: &[u8], id: u32) {
    unsafe { ffi::sym_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len(), id) }
}
pub fn fail(id: u32) {
    unsafe { ffi::sym_fail(id) }
}
/// witness that this point is reached (the runner requires it)
pub fn reach(id: u32) {
    unsafe { ffi::sym_reach(id) }
}
pub fn out(tag: u32, b: &[u8]) {
    unsafe { ffi::sym_out(tag, b.as_ptr(), b.len()) }
}
pub fn job() -> u32 {
    unsafe { ffi::sym_job() }
}
pub fn tier() -> u32 {
    unsafe { ffi::sym_param() }
}

pub const fn dom(s: &[u8]) -> Dom {
    let mut d = [0u64; 4];
    let mut i = 0;
    while i < s.len() {
        d[(s[i] >> 6) as usize] |= 1 << (s[i] & 63);
        i += 1;
    }
    d
}
pub const fn span(a: u8, b: u8) -> Dom {
    let mut d = [0u64; 4];
    let mut i = a as usize;
    while i <= b as usize {
        d[i >> 6] |= 1 << (i & 63);
        i += 1;
    }
    d
}
pub const fn or(a: Dom, b: Dom) -> Dom {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub const fn minus(a: Dom, b: Dom) -> Dom {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}

#[cfg(feature = "replay")]
pub mod native {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct S {
        pub input: Vec<u8>,
        pub pos: usize,
        pub job: u32,
        pub tier: u32,
    }
    thread_local!(pub static ST: RefCell<S> = RefCell::new(S::default()));
    fn next() -> u8 {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let b = s.input.get(s.pos).copied();
            s.pos += 1;
            match b {
                Some(b) => b,
                None => {
                    println!("INPUT-EXHAUSTED");
                    std::process::exit(7)
                }
            }
        })
    }
    fn failed(id: u32, what: &str) -> ! {
        println!("FAIL {id} {what}");
        std::process::exit(1)
    }
    #[no_mangle]
    unsafe extern "C" fn sym_set(p: *mut u8, n: usize, d: *const u64) {
        for i in 0..n {
            let b = next();
            if *d.add((b >> 6) as usize) >> (b & 63) & 1 == 0 {
                println!("OUTSIDE-DOMAIN");
                std::process::exit(7)
            }
            *p.add(i) = b;
        }
    }
    #[no_mangle]
    extern "C" fn sym_choose(_n: u32) -> u32 {
        next() as u32
    }
    #[no_mangle]
    extern "C" fn sym_assume(c: u32) {
        if c == 0 {
            println!("ASSUMPTION-FALSE");
            std::process::exit(7)
        }
    }
    #[no_mangle]
    extern "C" fn sym_assert(c: u32, id: u32) {
        if c == 0 {
            failed(id, "assertion")
        }
    }
    #[no_mangle]
    unsafe extern "C" fn sym_eq(a: *const u8, an: usize, b: *const u8, bn: usize, id: u32) {
        let a = std::slice::from_raw_parts(a, an);
        let b = std::slice::from_raw_parts(b, bn);
        if a != b {
            println!("GOT      {:?}", String::from_utf8_lossy(a));
            println!("EXPECTED {:?}", String::from_utf8_lossy(b));
            failed(id, "not equal")
        }
    }
    #[no_mangle]
    extern "C" fn sym_fail(id: u32) {
        failed(id, "reached")
    }
    #[no_mangle]
    extern "C" fn sym_reach(_: u32) {}
    #[no_mangle]
    unsafe extern "C" fn sym_out(tag: u32, p: *const u8, n: usize) {
        let b = std::slice::from_raw_parts(p, n);
        let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
        println!("OUT {tag} {h}");
        println!("    {:?}", String::from_utf8_lossy(b));
    }
    #[no_mangle]
    extern "C" fn sym_job() -> u32 {
        ST.with(|s| s.borrow().job)
    }
    #[no_mangle]
    extern "C" fn sym_param() -> u32 {
        ST.with(|s| s.borrow().tier)
    }
}

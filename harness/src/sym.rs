//! Harness interface to the symbolic engine. In the symbolic build the `rsym_*` functions are
//! engine intrinsics; in the native build they read a recorded input, so the same harness replays.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn rsym_bytes(p: *mut u8, n: usize);
        pub fn rsym_choice(n: u8) -> u8;
        pub fn rsym_pick(n: u8) -> u8;
        pub fn rsym_byte_in(p: *const u8, n: usize) -> u8;
        pub fn rsym_assume(c: bool);
        pub fn rsym_check(c: bool, id: u32);
        pub fn rsym_reach(id: u32);
        pub fn rsym_observe(p: *const u8, n: usize);
        pub fn rsym_eq(a: *const u8, b: *const u8, n: usize) -> bool;
        pub fn rsym_heap_mark();
        pub fn rsym_expect_panic();
        pub fn rsym_heap_check(id: u32);
    }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicI64, Ordering};
    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    pub enum Stop {
        Check(u32),
        Assume,
        Short,
    }
    #[derive(Default)]
    pub struct Ctx {
        pub input: Vec<u8>,
        pub pos: usize,
        pub obs: Vec<u8>,
        pub mark: i64,
        pub reached: Vec<u32>,
        pub expect_panic: bool,
    }
    thread_local!(pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()));
    fn next() -> u8 {
        let r = CTX.with(|c| {
            let mut c = c.borrow_mut();
            let b = c.input.get(c.pos).copied();
            c.pos += 1;
            b
        });
        match r {
            Some(b) => b,
            None => std::panic::panic_any(Stop::Short),
        }
    }
    pub unsafe fn rsym_bytes(p: *mut u8, n: usize) {
        for i in 0..n {
            *p.add(i) = next();
        }
    }
    pub unsafe fn rsym_choice(_n: u8) -> u8 {
        next()
    }
    pub unsafe fn rsym_pick(_n: u8) -> u8 {
        next()
    }
    pub unsafe fn rsym_byte_in(_p: *const u8, _n: usize) -> u8 {
        next()
    }
    pub unsafe fn rsym_assume(c: bool) {
        if !c {
            std::panic::panic_any(Stop::Assume)
        }
    }
    pub unsafe fn rsym_check(c: bool, id: u32) {
        if !c {
            std::panic::panic_any(Stop::Check(id))
        }
    }
    pub unsafe fn rsym_reach(id: u32) {
        CTX.with(|c| c.borrow_mut().reached.push(id));
    }
    pub unsafe fn rsym_observe(p: *const u8, n: usize) {
        CTX.with(|c| {
            let c = &mut *c.borrow_mut();
            c.obs.extend_from_slice(&(n as u32).to_le_bytes());
            c.obs.extend_from_slice(std::slice::from_raw_parts(p, n));
        })
    }
    pub unsafe fn rsym_eq(a: *const u8, b: *const u8, n: usize) -> bool {
        std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
    }
    pub unsafe fn rsym_expect_panic() {
        CTX.with(|c| c.borrow_mut().expect_panic = true);
    }
    pub unsafe fn rsym_heap_mark() {
        let live = LIVE.load(Ordering::SeqCst);
        CTX.with(|c| c.borrow_mut().mark = live);
    }
    pub unsafe fn rsym_heap_check(id: u32) {
        let live = LIVE.load(Ordering::SeqCst);
        let m = CTX.with(|c| c.borrow().mark);
        rsym_check(live <= m, id);
    }
}

/// N unconstrained symbolic bytes.
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { imp::rsym_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn byte() -> u8 {
    bytes::<1>()[0]
}
/// symbolic value in 0..n (stays symbolic)
pub fn choice(n: u8) -> u8 {
    unsafe { imp::rsym_choice(n) }
}
/// value in 0..n, explored case by case
pub fn pick(n: usize) -> usize {
    unsafe { imp::rsym_pick(n as u8) as usize }
}
pub fn flag() -> bool {
    pick(2) == 1
}
/// symbolic byte from an alphabet
pub fn byte_in(alpha: &[u8]) -> u8 {
    unsafe { imp::rsym_byte_in(alpha.as_ptr(), alpha.len()) }
}
pub fn text_in<const N: usize>(alpha: &[u8]) -> [u8; N] {
    let mut b = [0u8; N];
    for x in b.iter_mut() {
        *x = byte_in(alpha);
    }
    b
}
pub fn assume(c: bool) {
    unsafe { imp::rsym_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { imp::rsym_check(c, id) }
}
pub fn reach(id: u32) {
    unsafe { imp::rsym_reach(id) }
}
pub fn observe(b: &[u8]) {
    unsafe { imp::rsym_observe(b.as_ptr(), b.len()) }
}
/// equality of byte strings as one solver term (no case split per byte)
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { imp::rsym_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
/// from here on the only right outcome is a panic
pub fn expect_panic() {
    unsafe { imp::rsym_expect_panic() }
}
pub fn heap_mark() {
    unsafe { imp::rsym_heap_mark() }
}
pub fn heap_check(id: u32) {
    unsafe { imp::rsym_heap_check(id) }
}
/// one of the given items, explored case by case
pub fn one<T: Copy>(xs: &[T]) -> T {
    xs[pick(xs.len())]
}
pub fn ascii<const N: usize>() -> [u8; N] {
    let b = bytes::<N>();
    for x in b {
        assume(x < 0x80);
    }
    b
}
pub fn str_of(b: &[u8]) -> &str {
    match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

#[macro_export]
macro_rules! harnesses {
    ($(fn $name:ident() $body:block)*) => {
        $(
            #[cfg(not(feature = "native"))]
            #[no_mangle]
            pub extern "C" fn $name() $body
            #[cfg(feature = "native")]
            pub fn $name() $body
        )*
        #[cfg(feature = "native")]
        pub static LIST: &[(&str, fn())] = &[$((stringify!($name), $name)),*];
    };
}

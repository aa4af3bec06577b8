//! Native replay. stdin: lines "harness hex-input"; stdout: one line per input:
//! "ok OBSHEX" | "check ID" | "panic MESSAGE" | "assume" | "short"
use harness::sym::imp::{Ctx, Stop, CTX, LIVE};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::BufRead;
use std::sync::atomic::Ordering;

struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Ordering::SeqCst);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let (h, x) = (it.next().unwrap(), it.next().unwrap_or(""));
        let input: Vec<u8> = (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect();
        let f = harness::all().into_iter().find(|e| e.0 == h).expect("unknown harness").1;
        CTX.with(|c| *c.borrow_mut() = Ctx { input, ..Ctx::default() });
        let r = std::panic::catch_unwind(f);
        let c = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let ok = || println!("ok {}", c.obs.iter().map(|b| format!("{:02x}", b)).collect::<String>());
        match r {
            Ok(()) => ok(),
            Err(p) => match p.downcast::<Stop>() {
                Ok(s) => match *s {
                    Stop::Check(id) => println!("check {}", id),
                    Stop::Assume => println!("assume"),
                    Stop::Short => println!("short"),
                },
                Err(_) if c.expect_panic => ok(),
                Err(p) => {
                    let m = p.downcast_ref::<String>().map(|s| s.as_str()).or(p.downcast_ref::<&str>().copied()).unwrap_or("?").replace('\n', " ");
                    println!("panic {}", m)
                }
            },
        }
    }
}

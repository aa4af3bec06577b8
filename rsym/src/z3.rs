//! Minimal libz3 binding and Expr -> Z3 translation.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, s: bool) -> P;
    fn Z3_mk_bvmul_no_underflow(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint(c: P, v: P, u: *mut c_uint) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_uint) {
    unsafe {
        eprintln!("rsym: Z3 error: {:?}", CStr::from_ptr(Z3_get_error_msg(c, e)));
    }
    std::process::exit(70);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    cache: Vec<P>,  // bit-vector terms
    bcache: Vec<P>, // boolean terms for width-1 expressions
    vars: Vec<P>,
    pub rlimit: u32,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let z = Z3 { c, s, cache: vec![], bcache: vec![], vars: vec![], rlimit: 60_000_000 };
            z.set_limit(s);
            z
        }
    }
    /// resource limit of the following checks (None: the full limit)
    pub fn limit(&mut self, l: Option<u32>) {
        let l = l.unwrap_or(60_000_000);
        if l != self.rlimit {
            self.rlimit = l;
            unsafe { self.set_limit(self.s) };
        }
    }
    unsafe fn set_limit(&self, s: P) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("rlimit").unwrap();
        let k = Z3_mk_string_symbol(self.c, k.as_ptr());
        Z3_params_set_uint(self.c, p, k, self.rlimit);
        Z3_solver_set_params(self.c, s, p);
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn var(&mut self, i: u32) -> P {
        while self.vars.len() <= i as usize {
            unsafe {
                let n = CString::new(format!("v{}", self.vars.len())).unwrap();
                let s = Z3_mk_string_symbol(self.c, n.as_ptr());
                let v = Z3_mk_const(self.c, s, Z3_mk_bv_sort(self.c, 8));
                let v = self.keep(v);
                self.vars.push(v);
            }
        }
        self.vars[i as usize]
    }
    unsafe fn num(&self, v: u128, w: u32) -> P {
        let s = Z3_mk_bv_sort(self.c, w);
        if w <= 64 {
            Z3_mk_unsigned_int64(self.c, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, t.as_ptr(), s)
        }
    }
    fn is_boolop(op: Op) -> bool {
        matches!(op, Op::Not | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::UMulO | Op::SMulO | Op::FCmp)
    }
    /// boolean translation of a width-1 expression
    pub fn tb(&mut self, e: Ex) -> P {
        if self.bcache.len() <= e as usize {
            self.bcache.resize(e as usize + 1, std::ptr::null_mut());
        }
        if !self.bcache[e as usize].is_null() {
            return self.bcache[e as usize];
        }
        let n = nd(e);
        let r = unsafe {
            match n.op {
                Op::Not => {
                    let a = self.tb(n.a);
                    Z3_mk_not(self.c, a)
                }
                Op::And => {
                    let a = [self.tb(n.a), self.tb(n.b)];
                    Z3_mk_and(self.c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.tb(n.a), self.tb(n.b)];
                    Z3_mk_or(self.c, 2, a.as_ptr())
                }
                Op::Ite => {
                    let (a, b, d) = (self.tb(n.a), self.tb(n.b), self.tb(n.c));
                    Z3_mk_ite(self.c, a, b, d)
                }
                Op::Eq => {
                    let (a, b) = (self.t(n.a), self.t(n.b));
                    Z3_mk_eq(self.c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.t(n.a), self.t(n.b));
                    Z3_mk_bvult(self.c, a, b)
                }
                Op::Ule => {
                    let (a, b) = (self.t(n.a), self.t(n.b));
                    Z3_mk_bvule(self.c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.t(n.a), self.t(n.b));
                    Z3_mk_bvslt(self.c, a, b)
                }
                Op::Sle => {
                    let (a, b) = (self.t(n.a), self.t(n.b));
                    Z3_mk_bvsle(self.c, a, b)
                }
                Op::UMulO => {
                    let (a, b) = (self.t(n.a), self.t(n.b));
                    Z3_mk_not(self.c, Z3_mk_bvmul_no_overflow(self.c, a, b, false))
                }
                Op::SMulO => {
                    let (a, b) = (self.t(n.a), self.t(n.b));
                    let x = [Z3_mk_bvmul_no_overflow(self.c, a, b, true), Z3_mk_bvmul_no_underflow(self.c, a, b)];
                    Z3_mk_not(self.c, Z3_mk_and(self.c, 2, x.as_ptr()))
                }
                Op::FCmp => {
                    let (a, b) = (self.fp(n.a), self.fp(n.b));
                    let uno = [Z3_mk_fpa_is_nan(self.c, a), Z3_mk_fpa_is_nan(self.c, b)];
                    let mut alts = vec![];
                    if n.c & 1 != 0 {
                        alts.push(Z3_mk_fpa_eq(self.c, a, b));
                    }
                    if n.c & 2 != 0 {
                        alts.push(Z3_mk_fpa_lt(self.c, b, a));
                    }
                    if n.c & 4 != 0 {
                        alts.push(Z3_mk_fpa_lt(self.c, a, b));
                    }
                    if n.c & 8 != 0 {
                        alts.push(uno[0]);
                        alts.push(uno[1]);
                    }
                    Z3_mk_or(self.c, alts.len() as c_uint, alts.as_ptr())
                }
                _ => {
                    let a = self.t(e);
                    Z3_mk_eq(self.c, a, self.num(1, 1))
                }
            }
        };
        let r = self.keep(r);
        self.bcache[e as usize] = r;
        r
    }
    fn fp(&mut self, e: Ex) -> P {
        let w = width(e);
        let a = self.t(e);
        unsafe {
            let s = if w == 32 { Z3_mk_fpa_sort_32(self.c) } else { Z3_mk_fpa_sort_64(self.c) };
            Z3_mk_fpa_to_fp_bv(self.c, a, s)
        }
    }
    pub fn t(&mut self, e: Ex) -> P {
        if self.cache.len() <= e as usize {
            self.cache.resize(e as usize + 1, std::ptr::null_mut());
        }
        if !self.cache[e as usize].is_null() {
            return self.cache[e as usize];
        }
        let n = nd(e);
        let w = n.w as u32;
        let r = unsafe {
            if w == 1 && (Self::is_boolop(n.op) || matches!(n.op, Op::And | Op::Or | Op::Ite)) {
                let b = self.tb(e);
                Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1))
            } else {
                match n.op {
                    Op::Const => {
                        let v = is_const(e).unwrap();
                        self.num(v, w)
                    }
                    Op::Var => self.var(n.a),
                    Op::Tab => {
                        let v = self.var(n.b);
                        let t = p().tabs[n.a as usize].clone();
                        // balanced tree on the bits of v over runs of equal values
                        self.tabtree(&t[..], 0, 256, v, w)
                    }
                    Op::Concat => {
                        let (a, b) = (self.t(n.a), self.t(n.b));
                        Z3_mk_concat(self.c, a, b)
                    }
                    Op::Extract => {
                        let a = self.t(n.a);
                        Z3_mk_extract(self.c, n.b + w - 1, n.b, a)
                    }
                    Op::SExt => {
                        let a = self.t(n.a);
                        Z3_mk_sign_ext(self.c, w - width(n.a), a)
                    }
                    Op::Ite => {
                        let (a, b, d) = (self.tb(n.a), self.t(n.b), self.t(n.c));
                        Z3_mk_ite(self.c, a, b, d)
                    }
                    Op::Ctlz | Op::Cttz => {
                        let a = self.t(n.a);
                        let mut r = self.num(w as u128, w);
                        let one = self.num(1, 1);
                        for i in 0..w {
                            // ctlz: highest set bit wins -> iterate low to high
                            let bit = if n.op == Op::Ctlz { i } else { w - 1 - i };
                            let val = if n.op == Op::Ctlz { w - 1 - bit } else { bit };
                            let x = Z3_mk_extract(self.c, bit, bit, a);
                            r = Z3_mk_ite(self.c, Z3_mk_eq(self.c, x, one), self.num(val as u128, w), r);
                        }
                        r
                    }
                    Op::Ctpop => {
                        let a = self.t(n.a);
                        let mut r = self.num(0, w);
                        for i in 0..w {
                            let x = Z3_mk_extract(self.c, i, i, a);
                            let x = if w > 1 { Z3_mk_concat(self.c, self.num(0, w - 1), x) } else { x };
                            r = Z3_mk_bvadd(self.c, r, x);
                        }
                        r
                    }
                    Op::UIToFP | Op::SIToFP => {
                        let a = self.t(n.a);
                        let s = if w == 32 { Z3_mk_fpa_sort_32(self.c) } else { Z3_mk_fpa_sort_64(self.c) };
                        let rm = Z3_mk_fpa_rne(self.c);
                        let f = if n.op == Op::UIToFP { Z3_mk_fpa_to_fp_unsigned(self.c, rm, a, s) } else { Z3_mk_fpa_to_fp_signed(self.c, rm, a, s) };
                        Z3_mk_fpa_to_ieee_bv(self.c, f)
                    }
                    Op::FPToUI | Op::FPToSI => {
                        let f = self.fp(n.a);
                        let rm = Z3_mk_fpa_rtz(self.c);
                        if n.op == Op::FPToUI {
                            Z3_mk_fpa_to_ubv(self.c, rm, f, w)
                        } else {
                            Z3_mk_fpa_to_sbv(self.c, rm, f, w)
                        }
                    }
                    Op::FRnd => {
                        let f = self.fp(n.a);
                        let rm = match n.b {
                            0 => Z3_mk_fpa_rtn(self.c),
                            1 => Z3_mk_fpa_rtp(self.c),
                            2 => Z3_mk_fpa_rtz(self.c),
                            3 => Z3_mk_fpa_rna(self.c),
                            _ => Z3_mk_fpa_rne(self.c),
                        };
                        Z3_mk_fpa_to_ieee_bv(self.c, Z3_mk_fpa_round_to_integral(self.c, rm, f))
                    }
                    Op::FPExt | Op::FPTrunc => {
                        let f = self.fp(n.a);
                        let s = if w == 32 { Z3_mk_fpa_sort_32(self.c) } else { Z3_mk_fpa_sort_64(self.c) };
                        let r = Z3_mk_fpa_to_fp_float(self.c, Z3_mk_fpa_rne(self.c), f, s);
                        Z3_mk_fpa_to_ieee_bv(self.c, r)
                    }
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                        let (a, b) = (self.fp(n.a), self.fp(n.b));
                        let rm = Z3_mk_fpa_rne(self.c);
                        let r = match n.op {
                            Op::FAdd => Z3_mk_fpa_add(self.c, rm, a, b),
                            Op::FSub => Z3_mk_fpa_sub(self.c, rm, a, b),
                            Op::FMul => Z3_mk_fpa_mul(self.c, rm, a, b),
                            _ => Z3_mk_fpa_div(self.c, rm, a, b),
                        };
                        Z3_mk_fpa_to_ieee_bv(self.c, r)
                    }
                    _ => {
                        let (a, b) = (self.t(n.a), self.t(n.b));
                        match n.op {
                            Op::Add => Z3_mk_bvadd(self.c, a, b),
                            Op::Sub => Z3_mk_bvsub(self.c, a, b),
                            Op::Mul => Z3_mk_bvmul(self.c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(self.c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(self.c, a, b),
                            Op::URem => Z3_mk_bvurem(self.c, a, b),
                            Op::SRem => Z3_mk_bvsrem(self.c, a, b),
                            Op::And => Z3_mk_bvand(self.c, a, b),
                            Op::Or => Z3_mk_bvor(self.c, a, b),
                            Op::Xor => Z3_mk_bvxor(self.c, a, b),
                            Op::Shl => Z3_mk_bvshl(self.c, a, b),
                            Op::LShr => Z3_mk_bvlshr(self.c, a, b),
                            Op::AShr => Z3_mk_bvashr(self.c, a, b),
                            _ => {
                                eprintln!("rsym: op {:?} has no SMT translation", n.op);
                                std::process::exit(70);
                            }
                        }
                    }
                }
            }
        };
        let r = self.keep(r);
        self.cache[e as usize] = r;
        r
    }
    unsafe fn tabtree(&self, t: &[u64], lo: usize, hi: usize, v: P, w: u32) -> P {
        if t[lo..hi].iter().all(|x| *x == t[lo]) {
            return self.num(t[lo] as u128, w);
        }
        let mid = (lo + hi) / 2;
        let a = self.tabtree(t, lo, mid, v, w);
        let b = self.tabtree(t, mid, hi, v, w);
        let cnd = Z3_mk_bvult(self.c, v, self.num(mid as u128, 8));
        Z3_mk_ite(self.c, cnd, a, b)
    }
    fn dom(&mut self, v: u32, d: &[u64; 4]) -> Option<P> {
        let has = |i: usize| d[i / 64] >> (i % 64) & 1 == 1;
        let mut runs = vec![];
        let mut i = 0;
        while i < 256 {
            if has(i) {
                let s = i;
                while i < 256 && has(i) {
                    i += 1;
                }
                runs.push((s, i - 1));
            } else {
                i += 1;
            }
        }
        if runs.len() == 1 && runs[0] == (0, 255) {
            return None;
        }
        let x = self.var(v);
        unsafe {
            let alts: Vec<P> = runs
                .iter()
                .map(|(a, b)| {
                    if a == b {
                        Z3_mk_eq(self.c, x, self.num(*a as u128, 8))
                    } else {
                        let y = [Z3_mk_bvule(self.c, self.num(*a as u128, 8), x), Z3_mk_bvule(self.c, x, self.num(*b as u128, 8))];
                        Z3_mk_and(self.c, 2, y.as_ptr())
                    }
                })
                .collect();
            Some(Z3_mk_or(self.c, alts.len() as c_uint, alts.as_ptr()))
        }
    }
    /// Decide conj(atoms) with the byte domains of the variables in `vars`; on Sat fill `model`.
    pub fn check(&mut self, atoms: &[Ex], vars: u128, doms: &[[u64; 4]], model: Option<&mut [u8]>) -> Res {
        let mut has_fp = false;
        for a in atoms {
            has_fp |= uses_fp(*a);
        }
        unsafe {
            let s = if has_fp {
                let s = Z3_mk_solver(self.c);
                Z3_solver_inc_ref(self.c, s);
                self.set_limit(s);
                s
            } else {
                self.s
            };
            Z3_solver_push(self.c, s);
            for v in 0..128u32 {
                if vars >> v & 1 == 1 {
                    if let Some(d) = self.dom(v, &doms[v as usize]) {
                        Z3_solver_assert(self.c, s, d);
                    }
                }
            }
            for a in atoms {
                let b = self.tb(*a);
                Z3_solver_assert(self.c, s, b);
            }
            let r = match Z3_solver_check(self.c, s) {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if r == Res::Sat {
                if let Some(m) = model {
                    let md = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, md);
                    for v in 0..128u32 {
                        if vars >> v & 1 == 1 {
                            let x = self.var(v);
                            let mut out: P = std::ptr::null_mut();
                            if Z3_model_eval(self.c, md, x, true, &mut out) {
                                Z3_inc_ref(self.c, out);
                                let mut u: c_uint = 0;
                                Z3_get_numeral_uint(self.c, out, &mut u);
                                m[v as usize] = u as u8;
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, md);
                }
            }
            Z3_solver_pop(self.c, s, 1);
            r
        }
    }
}

pub fn uses_fp(e: Ex) -> bool {
    fn go(e: Ex, seen: &mut std::collections::HashSet<Ex>) -> bool {
        if !seen.insert(e) {
            return false;
        }
        let n = nd(e);
        match n.op {
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FCmp | Op::UIToFP | Op::SIToFP | Op::FPToUI | Op::FPToSI | Op::FPExt | Op::FPTrunc | Op::FRnd => true,
            Op::Const | Op::Var | Op::Tab => false,
            Op::Not | Op::Extract | Op::SExt | Op::Ctlz | Op::Cttz | Op::Ctpop => go(n.a, seen),
            Op::Ite => go(n.a, seen) || go(n.b, seen) || go(n.c, seen),
            _ => go(n.a, seen) || go(n.b, seen),
        }
    }
    go(e, &mut Default::default())
}

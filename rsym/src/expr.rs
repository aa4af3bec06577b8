//! Hash-consed bit-vector (and IEEE float) expression DAG over byte variables.
use std::collections::HashMap;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Concat,
    Extract,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Not, // width 1 only
    Shl,
    LShr,
    AShr,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Tab, // a = table id, b = var id
    Ctlz,
    Cttz,
    Ctpop,
    UMulO,
    SMulO,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FRnd, // round to integral, b = mode (0 floor 1 ceil 2 trunc 3 half away 4 half even)
    FCmp, // c = predicate
    UIToFP,
    SIToFP,
    FPToUI, // saturating semantics in eval; IR fptoui is poison out of range
    FPToSI,
    FPExt,
    FPTrunc,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
    pub supp: u128,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    table: Vec<u32>,
    mask: usize,
    pub tabs: Vec<Box<[u64; 256]>>,
    tab_ids: HashMap<Box<[u64; 256]>, u32>,
    memo: Vec<u128>,
    memo_gen: Vec<u32>,
    gen: u32,
    pub uncache: HashMap<Ex, [u64; 4]>,
}

static mut POOL: Option<Pool> = None;

#[allow(static_mut_refs)]
pub fn p() -> &'static mut Pool {
    unsafe {
        if POOL.is_none() {
            POOL = Some(Pool {
                nodes: Vec::new(),
                table: vec![u32::MAX; 1 << 16],
                mask: (1 << 16) - 1,
                tabs: Vec::new(),
                tab_ids: HashMap::new(),
                memo: Vec::new(),
                memo_gen: Vec::new(),
                gen: 0,
                uncache: HashMap::new(),
            });
        }
        POOL.as_mut().unwrap_unchecked()
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

fn hsh(op: Op, w: u8, a: u32, b: u32, c: u32, d: u32) -> u64 {
    let mut h = (op as u64) << 8 | w as u64;
    for x in [a, b, c, d] {
        h = (h.rotate_left(5) ^ x as u64).wrapping_mul(0x517cc1b727220a95);
    }
    h ^ (h >> 29)
}

impl Pool {
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32, d: u32) -> Ex {
        let w = w as u8;
        let h = hsh(op, w, a, b, c, d);
        let mut i = h as usize & self.mask;
        loop {
            let t = self.table[i];
            if t == u32::MAX {
                break;
            }
            let n = &self.nodes[t as usize];
            if n.op == op && n.w == w && n.a == a && n.b == b && n.c == c && n.d == d {
                return t;
            }
            i = (i + 1) & self.mask;
        }
        let id = self.nodes.len() as u32;
        let s = |s: &Self, e: u32| s.nodes[e as usize].supp;
        let supp = match op {
            Op::Const => 0,
            Op::Var => 1u128 << a,
            Op::Tab => 1u128 << b,
            Op::Extract | Op::Not | Op::SExt | Op::Ctlz | Op::Cttz | Op::Ctpop | Op::UIToFP | Op::SIToFP | Op::FPToUI | Op::FPToSI | Op::FPExt | Op::FPTrunc | Op::FRnd => s(self, a),
            Op::Ite => s(self, a) | s(self, b) | s(self, c),
            _ => s(self, a) | s(self, b),
        };
        self.nodes.push(Node { op, w, a, b, c, d, supp });
        self.memo.push(0);
        self.memo_gen.push(0);
        self.table[i] = id;
        if self.nodes.len() * 2 > self.table.len() {
            let nl = self.table.len() * 2;
            self.table = vec![u32::MAX; nl];
            self.mask = nl - 1;
            for (id, n) in self.nodes.iter().enumerate() {
                let mut i = hsh(n.op, n.w, n.a, n.b, n.c, n.d) as usize & self.mask;
                while self.table[i] != u32::MAX {
                    i = (i + 1) & self.mask;
                }
                self.table[i] = id as u32;
            }
        }
        id
    }
    pub fn new_gen(&mut self) {
        self.gen += 1;
    }
    /// Evaluate under an assignment; memo valid until `new_gen`.
    pub fn eval(&mut self, e: Ex, m: &[u8]) -> u128 {
        self.new_gen();
        self.ev(e, m)
    }
    pub fn ev(&mut self, e: Ex, m: &[u8]) -> u128 {
        let i = e as usize;
        if self.memo_gen[i] == self.gen {
            return self.memo[i];
        }
        let n = self.nodes[i];
        let w = n.w as u32;
        let r = match n.op {
            Op::Const => return constval(&n),
            Op::Var => return m[n.a as usize] as u128,
            Op::Tab => return self.tabs[n.a as usize][m[n.b as usize] as usize] as u128,
            Op::Ite => {
                if self.ev(n.a, m) != 0 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            Op::Extract => (self.ev(n.a, m) >> n.b) & mask(w),
            Op::Not => self.ev(n.a, m) ^ 1,
            Op::SExt => sext_to(self.ev(n.a, m), self.nodes[n.a as usize].w as u32, w),
            Op::Ctlz | Op::Cttz | Op::Ctpop => un_eval(n.op, w, self.ev(n.a, m)),
            Op::FRnd => frnd_eval(n.b, w, self.ev(n.a, m)),
            Op::UIToFP | Op::SIToFP | Op::FPToUI | Op::FPToSI | Op::FPExt | Op::FPTrunc => {
                let aw = self.nodes[n.a as usize].w as u32;
                let a = self.ev(n.a, m);
                cast_eval(n.op, aw, w, a)
            }
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w as u32;
                (self.ev(n.a, m) << lw) | self.ev(n.b, m)
            }
            Op::And if w == 1 => {
                if self.ev(n.a, m) == 0 {
                    0
                } else {
                    self.ev(n.b, m)
                }
            }
            Op::Or if w == 1 => {
                if self.ev(n.a, m) == 1 {
                    1
                } else {
                    self.ev(n.b, m)
                }
            }
            _ => {
                let aw = self.nodes[n.a as usize].w as u32;
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                bin_eval(n.op, aw, a, b, n.c)
            }
        };
        self.memo[i] = r;
        self.memo_gen[i] = self.gen;
        r
    }
    pub fn tab(&mut self, t: Box<[u64; 256]>, var: u32, w: u32) -> Ex {
        let id = match self.tab_ids.get(&t) {
            Some(i) => *i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(t.clone());
                self.tab_ids.insert(t, i);
                i
            }
        };
        self.mk(Op::Tab, w, id, var, 0, 0)
    }
}

fn constval(n: &Node) -> u128 {
    n.a as u128 | (n.b as u128) << 32 | (n.c as u128) << 64 | (n.d as u128) << 96
}

pub fn sext_to(v: u128, from: u32, to: u32) -> u128 {
    if from >= 128 {
        return v;
    }
    let s = (v >> (from - 1)) & 1;
    if s == 1 {
        (v | !mask(from)) & mask(to)
    } else {
        v
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    sext_to(v, w, 128) as i128
}

pub fn un_eval(op: Op, w: u32, a: u128) -> u128 {
    match op {
        Op::Ctlz => (a.leading_zeros() - (128 - w)) as u128,
        Op::Cttz => (if a == 0 { w } else { a.trailing_zeros() }) as u128,
        Op::Ctpop => a.count_ones() as u128,
        _ => unreachable!(),
    }
}

pub fn cast_eval(op: Op, aw: u32, w: u32, a: u128) -> u128 {
    let f = |a: u128| -> f64 {
        if aw == 32 {
            f32::from_bits(a as u32) as f64
        } else {
            f64::from_bits(a as u64)
        }
    };
    match op {
        Op::UIToFP => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::SIToFP => {
            let s = sx(a, aw);
            if w == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        Op::FPToUI => {
            let v = f(a);
            let r = v as u128;
            if r > mask(w) {
                mask(w)
            } else {
                r
            }
        }
        Op::FPToSI => {
            let v = f(a) as i128;
            let hi = (mask(w) >> 1) as i128;
            let lo = -hi - 1;
            (v.clamp(lo, hi) as u128) & mask(w)
        }
        Op::FPExt => f(a).to_bits() as u128,
        Op::FPTrunc => ((f(a) as f32).to_bits()) as u128,
        _ => unreachable!(),
    }
}

pub fn frnd_eval(mode: u32, w: u32, a: u128) -> u128 {
    let f = |x: f64| match mode {
        0 => x.floor(),
        1 => x.ceil(),
        2 => x.trunc(),
        3 => x.round(),
        _ => x.round_ties_even(),
    };
    if w == 32 {
        (f(f32::from_bits(a as u32) as f64) as f32).to_bits() as u128
    } else {
        f(f64::from_bits(a as u64)).to_bits() as u128
    }
}
pub fn frnd(mode: u32, a: Ex) -> Ex {
    let w = width(a);
    if let Some(k) = is_const(a) {
        return c(frnd_eval(mode, w, k), w);
    }
    p().mk(Op::FRnd, w, a, mode, 0, 0)
}

pub fn fcmp_eval(pred: u32, w: u32, a: u128, b: u128) -> bool {
    let f = |a: u128| -> f64 {
        if w == 32 {
            f32::from_bits(a as u32) as f64
        } else {
            f64::from_bits(a as u64)
        }
    };
    let (x, y) = (f(a), f(b));
    let uno = x.is_nan() || y.is_nan();
    // bits: 1 = eq, 2 = gt, 4 = lt, 8 = uno (LLVM encoding)
    let rel = if uno {
        8
    } else if x == y {
        1
    } else if x > y {
        2
    } else {
        4
    };
    pred & rel != 0
}

pub fn bin_eval(op: Op, w: u32, a: u128, b: u128, c: u32) -> u128 {
    let m = mask(w);
    let fl = |g: fn(f64, f64) -> f64, g32: fn(f32, f32) -> f32| -> u128 {
        if w == 32 {
            g32(f32::from_bits(a as u32), f32::from_bits(b as u32)).to_bits() as u128
        } else {
            g(f64::from_bits(a as u64), f64::from_bits(b as u64)).to_bits() as u128
        }
    };
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                x.wrapping_div(y) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128 & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sx(a, w);
            let k = if b >= w as u128 { w - 1 } else { b as u32 };
            ((s >> k.min(127)) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        Op::UMulO => {
            let (r, o) = a.overflowing_mul(b);
            (o || r > m) as u128
        }
        Op::SMulO => {
            let (x, y) = (sx(a, w), sx(b, w));
            match x.checked_mul(y) {
                None => 1,
                Some(r) => (sx(r as u128 & m, w) != r) as u128,
            }
        }
        Op::FAdd => fl(|x, y| x + y, |x, y| x + y),
        Op::FSub => fl(|x, y| x - y, |x, y| x - y),
        Op::FMul => fl(|x, y| x * y, |x, y| x * y),
        Op::FDiv => fl(|x, y| x / y, |x, y| x / y),
        Op::FRem => fl(|x, y| x % y, |x, y| x % y),
        Op::FCmp => fcmp_eval(c, w, a, b) as u128,
        _ => unreachable!("{:?}", op),
    }
}

#[inline]
pub fn nd(e: Ex) -> Node {
    p().nodes[e as usize]
}
#[inline]
pub fn width(e: Ex) -> u32 {
    p().nodes[e as usize].w as u32
}
#[inline]
pub fn supp(e: Ex) -> u128 {
    p().nodes[e as usize].supp
}
#[inline]
pub fn is_const(e: Ex) -> Option<u128> {
    let n = &p().nodes[e as usize];
    if n.op == Op::Const {
        Some(constval(n))
    } else {
        None
    }
}
pub fn c(v: u128, w: u32) -> Ex {
    let v = v & mask(w);
    p().mk(Op::Const, w, v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32)
}
pub fn var(i: u32) -> Ex {
    p().mk(Op::Var, 8, i, 0, 0, 0)
}
fn raw(op: Op, w: u32, a: Ex, b: Ex) -> Ex {
    p().mk(op, w, a, b, 0, 0)
}

pub fn zext(a: Ex, w: u32) -> Ex {
    let aw = width(a);
    if aw == w {
        a
    } else {
        concat(c(0, w - aw), a)
    }
}
pub fn sext(a: Ex, w: u32) -> Ex {
    let aw = width(a);
    if aw == w {
        return a;
    }
    if let Some(v) = is_const(a) {
        return c(sext_to(v, aw, w), w);
    }
    let n = nd(a);
    match n.op {
        Op::Concat => {
            if let Some(h) = is_const(n.a) {
                let hw = width(n.a);
                if (h >> (hw - 1)) & 1 == 0 {
                    return zext(a, w);
                } else {
                    return concat(c(u128::MAX, w - aw), a);
                }
            }
        }
        Op::SExt => return sext(n.a, w),
        _ => {}
    }
    if aw == 1 {
        return ite(a, c(u128::MAX, w), c(0, w));
    }
    p().mk(Op::SExt, w, a, 0, 0, 0)
}
pub fn trunc(a: Ex, w: u32) -> Ex {
    extract(a, 0, w)
}

pub fn concat(hi: Ex, lo: Ex) -> Ex {
    let (hn, ln) = (nd(hi), nd(lo));
    if hn.op == Op::Concat {
        let t = concat(hn.b, lo);
        return concat(hn.a, t);
    }
    // hi is atomic
    let w = hn.w as u32 + ln.w as u32;
    debug_assert!(w <= 128);
    if ln.op == Op::Concat {
        if let Some(m) = merge2(hi, ln.a) {
            return concat(m, ln.b);
        }
    } else if let Some(m) = merge2(hi, lo) {
        return m;
    }
    raw(Op::Concat, w, hi, lo)
}
fn merge2(hi: Ex, lo: Ex) -> Option<Ex> {
    let (hn, ln) = (nd(hi), nd(lo));
    match (hn.op, ln.op) {
        (Op::Const, Op::Const) => Some(c((constval(&hn) << ln.w) | constval(&ln), hn.w as u32 + ln.w as u32)),
        (Op::Extract, Op::Extract) if hn.a == ln.a && hn.b == ln.b + ln.w as u32 => Some(extract(hn.a, ln.b, hn.w as u32 + ln.w as u32)),
        _ => None,
    }
}

pub fn extract(x: Ex, lo: u32, w: u32) -> Ex {
    let n = nd(x);
    let xw = n.w as u32;
    if lo == 0 && w == xw {
        return x;
    }
    debug_assert!(lo + w <= xw);
    match n.op {
        Op::Const => return c(constval(&n) >> lo, w),
        Op::Extract => return extract(n.a, n.b + lo, w),
        Op::Concat => {
            let lw = width(n.b);
            if lo >= lw {
                return extract(n.a, lo - lw, w);
            }
            if lo + w <= lw {
                return extract(n.b, lo, w);
            }
            let h = extract(n.a, 0, lo + w - lw);
            let l = extract(n.b, lo, lw - lo);
            return concat(h, l);
        }
        Op::And | Op::Or | Op::Xor => {
            let a = extract(n.a, lo, w);
            let b = extract(n.b, lo, w);
            return match n.op {
                Op::And => and(a, b),
                Op::Or => or(a, b),
                _ => xor(a, b),
            };
        }
        Op::SExt => {
            let aw = width(n.a);
            if lo + w <= aw {
                return extract(n.a, lo, w);
            }
            if lo == 0 {
                return sext(n.a, w);
            }
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            let a = extract(n.a, 0, w);
            let b = extract(n.b, 0, w);
            return match n.op {
                Op::Add => add(a, b),
                Op::Sub => sub(a, b),
                _ => mul(a, b),
            };
        }
        Op::Ite => {
            if is_const(n.b).is_some() || is_const(n.c).is_some() {
                let a = extract(n.b, lo, w);
                let b = extract(n.c, lo, w);
                return ite(n.a, a, b);
            }
        }
        Op::Tab => {
            let t = &p().tabs[n.a as usize];
            let mut nt = Box::new([0u64; 256]);
            for i in 0..256 {
                nt[i] = (t[i] >> lo) & mask(w) as u64;
            }
            return p().tab(nt, n.b, w);
        }
        _ => {}
    }
    p().mk(Op::Extract, w, x, lo, 0, 0)
}

/// boundaries (bit offsets, ascending, exclusive of 0 and w) where a Concat tree splits
fn bounds(x: Ex, base: u32, out: &mut Vec<u32>) {
    let n = nd(x);
    if n.op == Op::Concat {
        let lw = width(n.b);
        bounds(n.b, base, out);
        out.push(base + lw);
        bounds(n.a, base + lw, out);
    }
}
fn piecewise(a: Ex, b: Ex, f: fn(Ex, Ex) -> Ex) -> Ex {
    let w = width(a);
    let mut bs = Vec::new();
    bounds(a, 0, &mut bs);
    bounds(b, 0, &mut bs);
    bs.sort();
    bs.dedup();
    bs.push(w);
    let mut lo = 0;
    let mut acc: Option<Ex> = None;
    for h in bs {
        let r = f(extract(a, lo, h - lo), extract(b, lo, h - lo));
        acc = Some(match acc {
            None => r,
            Some(l) => concat(r, l),
        });
        lo = h;
    }
    acc.unwrap()
}
fn order(a: Ex, b: Ex) -> (Ex, Ex) {
    // constants to the right, else by id
    if is_const(a).is_some() || (is_const(b).is_none() && a > b) {
        (b, a)
    } else {
        (a, b)
    }
}
fn runs(v: u128, w: u32) -> Vec<(u32, u32, bool)> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < w {
        let bit = (v >> i) & 1 == 1;
        let s = i;
        while i < w && ((v >> i) & 1 == 1) == bit {
            i += 1;
        }
        r.push((s, i - s, bit));
    }
    r
}

pub fn and(a: Ex, b: Ex) -> Ex {
    let (a, b) = order(a, b);
    if a == b {
        return a;
    }
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 0 {
            return b;
        }
        if k == mask(w) {
            return a;
        }
        if let Some(j) = is_const(a) {
            return c(j & k, w);
        }
        let rs = runs(k, w);
        if rs.len() <= 5 || nd(a).op == Op::Concat {
            if nd(a).op == Op::Concat {
                return piecewise(a, b, and_leaf);
            }
            return and_leaf(a, b);
        }
        if nd(a).op == Op::Ite {
            let n = nd(a);
            if is_const(n.b).is_some() || is_const(n.c).is_some() {
                let x = and(n.b, b);
                let y = and(n.c, b);
                return ite(n.a, x, y);
            }
        }
    } else if nd(a).op == Op::Concat || nd(b).op == Op::Concat {
        return piecewise(a, b, and);
    }
    if w == 1 {
        if is_not(a, b) {
            return c(0, 1);
        }
        // absorb: a & (a & x)
        let n = nd(b);
        if n.op == Op::And && (n.a == a || n.b == a) {
            return b;
        }
        let n = nd(a);
        if n.op == Op::And && (n.a == b || n.b == b) {
            return a;
        }
    }
    raw(Op::And, w, a, b)
}
fn and_leaf(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    let k = match is_const(b) {
        Some(k) => k,
        None => return and(a, b),
    };
    if let Some(j) = is_const(a) {
        return c(j & k, w);
    }
    let mut acc: Option<Ex> = None;
    for (s, l, bit) in runs(k, w) {
        let r = if bit { extract(a, s, l) } else { c(0, l) };
        acc = Some(match acc {
            None => r,
            Some(x) => concat(r, x),
        });
    }
    acc.unwrap()
}
pub fn or(a: Ex, b: Ex) -> Ex {
    let (a, b) = order(a, b);
    if a == b {
        return a;
    }
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 0 {
            return a;
        }
        if k == mask(w) {
            return b;
        }
        if let Some(j) = is_const(a) {
            return c(j | k, w);
        }
        let rs = runs(k, w);
        if rs.len() <= 5 || nd(a).op == Op::Concat {
            if nd(a).op == Op::Concat {
                return piecewise(a, b, or_leaf);
            }
            return or_leaf(a, b);
        }
    } else if nd(a).op == Op::Concat || nd(b).op == Op::Concat {
        return piecewise(a, b, or);
    }
    if w == 1 {
        if is_not(a, b) {
            return c(1, 1);
        }
    }
    raw(Op::Or, w, a, b)
}
fn or_leaf(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    let k = match is_const(b) {
        Some(k) => k,
        None => return or(a, b),
    };
    if let Some(j) = is_const(a) {
        return c(j | k, w);
    }
    let mut acc: Option<Ex> = None;
    for (s, l, bit) in runs(k, w) {
        let r = if bit { c(u128::MAX, l) } else { extract(a, s, l) };
        acc = Some(match acc {
            None => r,
            Some(x) => concat(r, x),
        });
    }
    acc.unwrap()
}
pub fn xor(a: Ex, b: Ex) -> Ex {
    let (a, b) = order(a, b);
    let w = width(a);
    if a == b {
        return c(0, w);
    }
    if let Some(k) = is_const(b) {
        if k == 0 {
            return a;
        }
        if let Some(j) = is_const(a) {
            return c(j ^ k, w);
        }
        if w == 1 {
            return not(a);
        }
        let n = nd(a);
        if n.op == Op::Xor {
            if let Some(j) = is_const(n.b) {
                return xor(n.a, c(j ^ k, w));
            }
        }
        if n.op == Op::Concat {
            return piecewise(a, b, xor);
        }
    } else {
        if nd(a).op == Op::Concat || nd(b).op == Op::Concat {
            return piecewise(a, b, xor);
        }
        // x ^ (x ^ y) = y
        let n = nd(b);
        if n.op == Op::Xor {
            if n.a == a {
                return n.b;
            }
            if n.b == a {
                return n.a;
            }
        }
        let n = nd(a);
        if n.op == Op::Xor {
            if n.a == b {
                return n.b;
            }
            if n.b == b {
                return n.a;
            }
        }
    }
    raw(Op::Xor, w, a, b)
}
fn is_not(a: Ex, b: Ex) -> bool {
    not(a) == b
}
pub fn not(a: Ex) -> Ex {
    let n = nd(a);
    debug_assert_eq!(n.w, 1);
    match n.op {
        Op::Const => c(constval(&n) ^ 1, 1),
        Op::Not => n.a,
        Op::Ult => ule(n.b, n.a),
        Op::Ule => ult(n.b, n.a),
        Op::Slt => sle(n.b, n.a),
        Op::Sle => slt(n.b, n.a),
        Op::And => {
            let x = not(n.a);
            let y = not(n.b);
            or(x, y)
        }
        Op::Or => {
            let x = not(n.a);
            let y = not(n.b);
            and(x, y)
        }
        Op::FCmp => p().mk(Op::FCmp, 1, n.a, n.b, n.c ^ 15, 0),
        _ => p().mk(Op::Not, 1, a, 0, 0, 0),
    }
}
pub fn eq(a: Ex, b: Ex) -> Ex {
    if a == b {
        return c(1, 1);
    }
    let (a, b) = order(a, b);
    let w = width(a);
    let na = nd(a);
    if let Some(k) = is_const(b) {
        if is_const(a).is_some() {
            return c(0, 1);
        }
        if w == 1 {
            return if k == 1 { a } else { not(a) };
        }
        match na.op {
            Op::Ite => {
                let (x, y) = (is_const(na.b), is_const(na.c));
                match (x, y) {
                    (Some(x), Some(y)) => {
                        return if x == k && y == k {
                            c(1, 1)
                        } else if x == k {
                            na.a
                        } else if y == k {
                            not(na.a)
                        } else {
                            c(0, 1)
                        };
                    }
                    (Some(x), None) => {
                        let r = eq(na.c, b);
                        return if x == k { or(na.a, r) } else { and(not(na.a), r) };
                    }
                    (None, Some(y)) => {
                        let r = eq(na.b, b);
                        return if y == k { or(not(na.a), r) } else { and(na.a, r) };
                    }
                    _ => {}
                }
            }
            Op::Add => {
                if let Some(j) = is_const(na.b) {
                    return eq(na.a, c(k.wrapping_sub(j), w));
                }
            }
            Op::Xor => {
                if let Some(j) = is_const(na.b) {
                    return eq(na.a, c(k ^ j, w));
                }
                if k == 0 {
                    return eq(na.a, na.b);
                }
            }
            Op::Sub if k == 0 => return eq(na.a, na.b),
            Op::SExt => {
                let aw = width(na.a);
                let t = k & mask(aw);
                if sext_to(t, aw, w) != k {
                    return c(0, 1);
                }
                return eq(na.a, c(t, aw));
            }
            Op::Or if k == 0 => {
                let x = eq(na.a, b);
                let y = eq(na.b, b);
                return and(x, y);
            }
            _ => {}
        }
    }
    let nb = nd(b);
    if na.op == Op::Concat || nb.op == Op::Concat {
        let mut bs = Vec::new();
        bounds(a, 0, &mut bs);
        bounds(b, 0, &mut bs);
        bs.sort();
        bs.dedup();
        bs.push(w);
        let mut acc = c(1, 1);
        let mut parts = Vec::new();
        let mut lo = 0;
        for h in bs {
            let r = eq(extract(a, lo, h - lo), extract(b, lo, h - lo));
            if is_const(r) == Some(0) {
                return r;
            }
            parts.push(r);
            lo = h;
        }
        for r in parts {
            acc = and(acc, r);
        }
        return acc;
    }
    raw(Op::Eq, 1, a, b)
}
/// strip equal constant (zero) high parts: returns (wlow) if both have top bits zero
fn lowbits(x: Ex) -> u32 {
    let n = nd(x);
    match n.op {
        Op::Const => 128 - constval(&n).leading_zeros(),
        Op::Concat => {
            if is_const(n.a) == Some(0) {
                width(n.b)
            } else {
                n.w as u32
            }
        }
        _ => n.w as u32,
    }
}
pub fn ult(a: Ex, b: Ex) -> Ex {
    if a == b {
        return c(0, 1);
    }
    let w = width(a);
    match (is_const(a), is_const(b)) {
        (Some(x), Some(y)) => return c((x < y) as u128, 1),
        (_, Some(0)) => return c(0, 1),
        (_, Some(1)) => return eq(a, c(0, w)),
        (_, Some(k)) => {
            if lowbits(a) < 128 && k > mask(lowbits(a)) {
                return c(1, 1);
            }
            if k == mask(w) {
                return not(eq(a, b));
            }
        }
        (Some(k), _) => {
            if k == 0 {
                return not(eq(b, a));
            }
            if k >= mask(lowbits(b)) {
                return c(0, 1);
            }
        }
        _ => {}
    }
    let l = lowbits(a).max(lowbits(b)).max(1);
    if l < w {
        return ult(extract(a, 0, l), extract(b, 0, l));
    }
    if let Some(r) = ite_cmp(a, b, ult) {
        return r;
    }
    raw(Op::Ult, 1, a, b)
}
fn ite_cmp(a: Ex, b: Ex, f: fn(Ex, Ex) -> Ex) -> Option<Ex> {
    let na = nd(a);
    if na.op == Op::Ite && is_const(b).is_some() && (is_const(na.b).is_some() || is_const(na.c).is_some()) {
        let x = f(na.b, b);
        let y = f(na.c, b);
        return Some(ite(na.a, x, y));
    }
    let nb = nd(b);
    if nb.op == Op::Ite && is_const(a).is_some() && (is_const(nb.b).is_some() || is_const(nb.c).is_some()) {
        let x = f(a, nb.b);
        let y = f(a, nb.c);
        return Some(ite(nb.a, x, y));
    }
    None
}
pub fn ule(a: Ex, b: Ex) -> Ex {
    if a == b {
        return c(1, 1);
    }
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == mask(w) {
            return c(1, 1);
        }
        return ult(a, c(k + 1, w));
    }
    if let Some(k) = is_const(a) {
        if k == 0 {
            return c(1, 1);
        }
        return ult(c(k - 1, w), b);
    }
    let l = lowbits(a).max(lowbits(b)).max(1);
    if l < w {
        return ule(extract(a, 0, l), extract(b, 0, l));
    }
    raw(Op::Ule, 1, a, b)
}
pub fn slt(a: Ex, b: Ex) -> Ex {
    if a == b {
        return c(0, 1);
    }
    let w = width(a);
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return c((sx(x, w) < sx(y, w)) as u128, 1);
    }
    if lowbits(a) < w && lowbits(b) < w {
        return ult(a, b);
    }
    if is_const(b) == Some(0) {
        return extract(a, w - 1, 1);
    }
    if is_const(a) == Some(mask(w)) {
        return not(extract(b, w - 1, 1));
    }
    // a nonneg, b negative const etc.
    if lowbits(a) < w {
        if let Some(k) = is_const(b) {
            if sx(k, w) < 0 {
                return c(0, 1);
            }
        }
    }
    if lowbits(b) < w {
        if let Some(k) = is_const(a) {
            if sx(k, w) < 0 {
                return c(1, 1);
            }
        }
    }
    if let Some(r) = ite_cmp(a, b, slt) {
        return r;
    }
    raw(Op::Slt, 1, a, b)
}
pub fn sle(a: Ex, b: Ex) -> Ex {
    if a == b {
        return c(1, 1);
    }
    let w = width(a);
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return c((sx(x, w) <= sx(y, w)) as u128, 1);
    }
    if lowbits(a) < w && lowbits(b) < w {
        return ule(a, b);
    }
    if let Some(k) = is_const(b) {
        if k != mask(w) >> 1 {
            return slt(a, c(k.wrapping_add(1), w));
        }
        return c(1, 1);
    }
    if let Some(k) = is_const(a) {
        if k != (mask(w) >> 1) + 1 {
            return slt(c(k.wrapping_sub(1), w), b);
        }
        return c(1, 1);
    }
    raw(Op::Sle, 1, a, b)
}
pub fn ite(cc: Ex, a: Ex, b: Ex) -> Ex {
    if let Some(k) = is_const(cc) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    if w == 1 {
        match (is_const(a), is_const(b)) {
            (Some(1), Some(_)) => return cc,
            (Some(0), Some(_)) => return not(cc),
            (Some(1), None) => return or(cc, b),
            (Some(0), None) => return and(not(cc), b),
            (None, Some(1)) => return or(not(cc), a),
            (None, Some(0)) => return and(cc, a),
            _ => {}
        }
    }
    let n = nd(cc);
    if n.op == Op::Not {
        return p().mk(Op::Ite, w, n.a, b, a, 0);
    }
    // nested same-condition
    let na = nd(a);
    if na.op == Op::Ite && na.a == cc {
        return ite(cc, na.b, b);
    }
    let nb = nd(b);
    if nb.op == Op::Ite && nb.a == cc {
        return ite(cc, a, nb.c);
    }
    // ite(c, concat(0,x), concat(0,y)) keep zero-extension visible
    let l = lowbits(a).max(lowbits(b)).max(1);
    if l < w && w > 1 {
        let x = ite(cc, extract(a, 0, l), extract(b, 0, l));
        return zext(x, w);
    }
    p().mk(Op::Ite, w, cc, a, b, 0)
}
pub fn add(a: Ex, b: Ex) -> Ex {
    let (a, b) = order(a, b);
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 0 {
            return a;
        }
        if let Some(j) = is_const(a) {
            return c(j.wrapping_add(k), w);
        }
        let n = nd(a);
        if n.op == Op::Add {
            if let Some(j) = is_const(n.b) {
                return add(n.a, c(j.wrapping_add(k), w));
            }
        }
        if n.op == Op::Ite && (is_const(n.b).is_some() && is_const(n.c).is_some()) {
            let x = add(n.b, b);
            let y = add(n.c, b);
            return ite(n.a, x, y);
        }
    } else {
        let n = nd(a);
        if n.op == Op::Add && is_const(n.b).is_some() {
            let t = add(n.a, b);
            return add(t, n.b);
        }
        let n = nd(b);
        if n.op == Op::Add && is_const(n.b).is_some() {
            let t = add(a, n.a);
            return add(t, n.b);
        }
        // (x - b) + b
        if n.op == Op::Sub && n.b == a {
            return n.a;
        }
        let n = nd(a);
        if n.op == Op::Sub && n.b == b {
            return n.a;
        }
    }
    raw(Op::Add, w, a, b)
}
pub fn sub(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if a == b {
        return c(0, w);
    }
    if let Some(k) = is_const(b) {
        return add(a, c(0u128.wrapping_sub(k), w));
    }
    let na = nd(a);
    if na.op == Op::Add {
        if na.a == b {
            return na.b;
        }
        if na.b == b {
            return na.a;
        }
        if is_const(na.b).is_some() {
            let t = sub(na.a, b);
            return add(t, na.b);
        }
    }
    let nb = nd(b);
    if nb.op == Op::Add {
        if let Some(k) = is_const(nb.b) {
            let t = sub(a, nb.a);
            return add(t, c(0u128.wrapping_sub(k), w));
        }
    }
    raw(Op::Sub, w, a, b)
}
pub fn mul(a: Ex, b: Ex) -> Ex {
    let (a, b) = order(a, b);
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 0 {
            return b;
        }
        if k == 1 {
            return a;
        }
        if let Some(j) = is_const(a) {
            return c(j.wrapping_mul(k), w);
        }
        if k.is_power_of_two() {
            return shl(a, c(k.trailing_zeros() as u128, w));
        }
    }
    raw(Op::Mul, w, a, b)
}
pub fn udiv(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 1 {
            return a;
        }
        if let Some(j) = is_const(a) {
            return c(bin_eval(Op::UDiv, w, j, k, 0), w);
        }
        if k != 0 && k.is_power_of_two() {
            return lshr(a, c(k.trailing_zeros() as u128, w));
        }
        let l = lowbits(a);
        if l < w && k != 0 {
            if k > mask(l) {
                return c(0, w);
            }
            return zext(udiv(extract(a, 0, l), c(k, l)), w);
        }
    }
    raw(Op::UDiv, w, a, b)
}
pub fn urem(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 1 {
            return c(0, w);
        }
        if let Some(j) = is_const(a) {
            return c(bin_eval(Op::URem, w, j, k, 0), w);
        }
        if k != 0 && k.is_power_of_two() {
            return and(a, c(k - 1, w));
        }
        let l = lowbits(a);
        if l < w && k != 0 {
            if k > mask(l) {
                return a;
            }
            return zext(urem(extract(a, 0, l), c(k, l)), w);
        }
    }
    raw(Op::URem, w, a, b)
}
pub fn bin2(op: Op, a: Ex, b: Ex) -> Ex {
    let w = width(a);
    match op {
        Op::Add => add(a, b),
        Op::Sub => sub(a, b),
        Op::Mul => mul(a, b),
        Op::UDiv => udiv(a, b),
        Op::URem => urem(a, b),
        Op::And => and(a, b),
        Op::Or => or(a, b),
        Op::Xor => xor(a, b),
        Op::Shl => shl(a, b),
        Op::LShr => lshr(a, b),
        Op::AShr => ashr(a, b),
        Op::Eq => eq(a, b),
        Op::Ult => ult(a, b),
        Op::Ule => ule(a, b),
        Op::Slt => slt(a, b),
        Op::Sle => sle(a, b),
        _ => {
            let rw = match op {
                Op::UMulO | Op::SMulO => 1,
                _ => w,
            };
            if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
                return c(bin_eval(op, w, x, y, 0), rw);
            }
            raw(op, rw, a, b)
        }
    }
}
pub fn shl(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 0 {
            return a;
        }
        if k >= w as u128 {
            return c(0, w);
        }
        let k = k as u32;
        return concat(extract(a, 0, w - k), c(0, k));
    }
    raw(Op::Shl, w, a, b)
}
pub fn lshr(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 0 {
            return a;
        }
        if k >= w as u128 {
            return c(0, w);
        }
        let k = k as u32;
        return concat(c(0, k), extract(a, k, w - k));
    }
    raw(Op::LShr, w, a, b)
}
pub fn ashr(a: Ex, b: Ex) -> Ex {
    let w = width(a);
    if let Some(k) = is_const(b) {
        let k = if k >= w as u128 { w - 1 } else { k as u32 };
        if k == 0 {
            return a;
        }
        return sext(extract(a, k, w - k), w);
    }
    raw(Op::AShr, w, a, b)
}
pub fn un(op: Op, a: Ex) -> Ex {
    let w = width(a);
    if let Some(k) = is_const(a) {
        return c(un_eval(op, w, k), w);
    }
    p().mk(op, w, a, 0, 0, 0)
}
pub fn fcmp(pred: u32, a: Ex, b: Ex) -> Ex {
    if pred == 0 {
        return c(0, 1);
    }
    if pred == 15 {
        return c(1, 1);
    }
    let w = width(a);
    if let (Some(x), Some(y)) = (is_const(a), is_const(b)) {
        return c(fcmp_eval(pred, w, x, y) as u128, 1);
    }
    p().mk(Op::FCmp, 1, a, b, pred, 0)
}
pub fn cast(op: Op, a: Ex, w: u32) -> Ex {
    if let Some(k) = is_const(a) {
        return c(cast_eval(op, width(a), w, k), w);
    }
    p().mk(op, w, a, 0, 0, 0)
}

pub fn show(e: Ex) -> String {
    fn go(e: Ex, d: u32, s: &mut String) {
        let n = nd(e);
        if d > 12 || s.len() > 2000 {
            s.push('…');
            return;
        }
        match n.op {
            Op::Const => s.push_str(&format!("{:#x}:{}", constval(&n), n.w)),
            Op::Var => s.push_str(&format!("v{}", n.a)),
            Op::Tab => s.push_str(&format!("tab{}[v{}]", n.a, n.b)),
            Op::Extract => {
                s.push_str("ext(");
                go(n.a, d + 1, s);
                s.push_str(&format!(",{},{})", n.b, n.w));
            }
            _ => {
                s.push_str(&format!("{:?}(", n.op));
                go(n.a, d + 1, s);
                if !matches!(n.op, Op::Not | Op::SExt | Op::Ctlz | Op::Cttz | Op::Ctpop | Op::UIToFP | Op::SIToFP | Op::FPToUI | Op::FPToSI | Op::FPExt | Op::FPTrunc | Op::FRnd) {
                    s.push(',');
                    go(n.b, d + 1, s);
                }
                if n.op == Op::Ite {
                    s.push(',');
                    go(n.c, d + 1, s);
                }
                s.push(')');
            }
        }
    }
    let mut s = String::new();
    go(e, 0, &mut s);
    s
}

//! Symbolic interpreter: path exploration with snapshots at fork points.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::z3::Res;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum X {
    Malloc,
    Calloc,
    Realloc,
    PosixMemalign,
    Free,
    Memcmp,
    Bcmp,
    Memcpy,
    Memmove,
    Memset,
    Strlen,
    Abort,
    Panic,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    Umax,
    Umin,
    Smax,
    Smin,
    Fshl,
    Fshr,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Abs,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Ucmp,
    Scmp,
    IsConst,
    Fabs,
    FRound(u32),
    FMinMax(bool),
    MulSh,
    Copysign,
    FptouiSat,
    FptosiSat,
    Expect,
    TlsAddr,
    VReduceOr,
    VReduceAnd,
    VReduceAdd,
    Bytes,
    Choice,
    Pick,
    ByteIn,
    Assume,
    Check,
    Reach,
    Observe,
    EqMem,
    HeapMark,
    ExpectPanic,
    HeapCheck,
    Conc,
    IdealHash,
    SipWrite,
    ErrnoLoc,
    FillZero,
    Clock,
    RetLen,
    RetZero,
    MemchrAligned,
    MemrchrStub,
    Unsupported,
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub code: Rc<Code>,
    pub regs: Vec<V>,
    pub pc: u32,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Pc,
    pub dom0: Vec<Dom>,
    pub steps: u64,
    pub forks: u32,
    pub obs: Rc<Vec<(u32, Vec<Ex>)>>,
    pub checks: u32,
    pub heap_mark: u64,
    /// a panic ends the path normally from now on
    pub expect_panic: bool,
    /// byte strings hashed so far on this path (ideal hash: equal strings <=> equal hashes)
    pub hashed: Rc<Vec<Rc<Vec<Ex>>>>,
    /// bytes written to each DefaultHasher state
    pub siplogs: Rc<Vec<Rc<Vec<Ex>>>>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String, // check / panic / memory / abort / leak
    pub id: u32,
    pub what: String,
    pub model: Vec<u8>,
    pub stack: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub model: Vec<u8>,
    pub obs: Vec<u8>,
}

#[derive(Default, Clone)]
pub struct Results {
    pub paths: u64,
    pub killed_assume: u64,
    pub steps: u64,
    pub forks: u64,
    pub truncated: u64,
    pub inconclusive: BTreeMap<String, u64>,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub asserts_z3: u64,
    pub asserts_dom: u64,
    pub viols: Vec<Viol>,
    pub reach: BTreeMap<u32, u64>,
    pub traces: Vec<Trace>,
    pub funcs: HashSet<u32>,
    pub mass: f64,
    pub mass_unknown: u64,
    pub max_steps: u64,
    pub concretized: u64,
    pub stats: Stats,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_viols: usize,
    pub trace_keep: usize,
    pub deadline: Option<std::time::Instant>,
    pub path_z3: u64,
    pub random: bool,
    pub leak: bool,
}

#[derive(Clone, Copy)]
enum Tk {
    Int(u32, u64),
    Agg,
    Void,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub cfg: Cfg,
    pub res: Results,
    pub stack: Vec<State>,
    exts: RefCell<Vec<(X, String)>>,
    extmap: RefCell<HashMap<String, u32>>,
    tk: Vec<Tk>,
    pub stubs_hit: BTreeMap<String, u64>,
    fstub: HashMap<u32, X>,
    fconc: HashSet<u32>,
    pub prof: Option<Vec<u64>>,
    pub forkprof: Option<HashMap<(u32, u32), u64>>,
    pub stop: bool,
    pub mass_budget: u64,
}

enum Ctl {
    Next,
    Refetch,     // frame stack changed / forked: re-acquire
    Done,        // path finished normally
    Kill(String),
    Drop,
}

fn ext_of(n: &str) -> Option<X> {
    let r = match n {
        "malloc" => X::Malloc,
        "calloc" => X::Calloc,
        "realloc" => X::Realloc,
        "posix_memalign" => X::PosixMemalign,
        "free" => X::Free,
        "memcmp" => X::Memcmp,
        "bcmp" => X::Bcmp,
        "memcpy" => X::Memcpy,
        "memmove" => X::Memmove,
        "memset" => X::Memset,
        "strlen" => X::Strlen,
        "abort" | "llvm.trap" | "llvm.debugtrap" | "llvm.ubsantrap" => X::Abort,
        "__errno_location" => X::ErrnoLoc,
        // environment: fixed answers (keys of std's hash maps, clock, standard streams, variables)
        "getrandom" | "getentropy" => X::FillZero,
        "clock_gettime" => X::Clock,
        "write" => X::RetLen,
        "getenv" | "pthread_self" | "sched_yield" => X::RetZero,
        "rsym_bytes" => X::Bytes,
        "rsym_choice" => X::Choice,
        "rsym_pick" => X::Pick,
        "rsym_byte_in" => X::ByteIn,
        "rsym_assume" => X::Assume,
        "rsym_check" => X::Check,
        "rsym_reach" => X::Reach,
        "rsym_observe" => X::Observe,
        "rsym_eq" => X::EqMem,
        "rsym_heap_mark" => X::HeapMark,
        "rsym_expect_panic" => X::ExpectPanic,
        "rsym_heap_check" => X::HeapCheck,
        "rsym_mulsh" => X::MulSh,
        "rsym_conc" => X::Conc,
        "rsym_hash" => X::IdealHash,
        "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" => X::RetZero,
        _ => {
            let p = |s: &str| n.starts_with(s);
            if p("llvm.memcpy.") {
                X::Memcpy
            } else if p("llvm.memmove.") {
                X::Memmove
            } else if p("llvm.memset.") {
                X::Memset
            } else if p("llvm.uadd.with.overflow") {
                X::AddO(false)
            } else if p("llvm.sadd.with.overflow") {
                X::AddO(true)
            } else if p("llvm.usub.with.overflow") {
                X::SubO(false)
            } else if p("llvm.ssub.with.overflow") {
                X::SubO(true)
            } else if p("llvm.umul.with.overflow") {
                X::MulO(false)
            } else if p("llvm.smul.with.overflow") {
                X::MulO(true)
            } else if p("llvm.umax.") {
                X::Umax
            } else if p("llvm.umin.") {
                X::Umin
            } else if p("llvm.smax.") {
                X::Smax
            } else if p("llvm.smin.") {
                X::Smin
            } else if p("llvm.fshl.") {
                X::Fshl
            } else if p("llvm.fshr.") {
                X::Fshr
            } else if p("llvm.ctlz.") {
                X::Ctlz
            } else if p("llvm.cttz.") {
                X::Cttz
            } else if p("llvm.ctpop.") {
                X::Ctpop
            } else if p("llvm.bswap.") {
                X::Bswap
            } else if p("llvm.bitreverse.") {
                X::Bitrev
            } else if p("llvm.abs.") {
                X::Abs
            } else if p("llvm.uadd.sat.") {
                X::UaddSat
            } else if p("llvm.usub.sat.") {
                X::UsubSat
            } else if p("llvm.sadd.sat.") {
                X::SaddSat
            } else if p("llvm.ssub.sat.") {
                X::SsubSat
            } else if p("llvm.ucmp.") {
                X::Ucmp
            } else if p("llvm.scmp.") {
                X::Scmp
            } else if p("llvm.is.constant.") {
                X::IsConst
            } else if p("llvm.fabs.") {
                X::Fabs
            } else if p("llvm.floor.") {
                X::FRound(0)
            } else if p("llvm.ceil.") {
                X::FRound(1)
            } else if p("llvm.trunc.f") {
                X::FRound(2)
            } else if p("llvm.round.") {
                X::FRound(3)
            } else if p("llvm.roundeven.") || p("llvm.rint.") || p("llvm.nearbyint.") {
                X::FRound(4)
            } else if p("llvm.minnum.") {
                X::FMinMax(false)
            } else if p("llvm.maxnum.") {
                X::FMinMax(true)
            } else if p("llvm.copysign.") {
                X::Copysign
            } else if p("llvm.fptoui.sat.") {
                X::FptouiSat
            } else if p("llvm.fptosi.sat.") {
                X::FptosiSat
            } else if p("llvm.expect.") {
                X::Expect
            } else if p("llvm.threadlocal.address") {
                X::TlsAddr
            } else if p("llvm.vector.reduce.or.") {
                X::VReduceOr
            } else if p("llvm.vector.reduce.and.") {
                X::VReduceAnd
            } else if p("llvm.vector.reduce.add.") {
                X::VReduceAdd
            } else {
                return None;
            }
        }
    };
    Some(r)
}
fn ext_ignored(n: &str) -> bool {
    for p in ["llvm.lifetime.", "llvm.assume", "llvm.experimental.noalias", "llvm.dbg.", "llvm.invariant.", "llvm.x86.sse2.pause", "llvm.prefetch", "llvm.donothing"] {
        if n.starts_with(p) {
            return true;
        }
    }
    false
}
/// functions whose bodies are replaced; all are listed in the evidence
fn stub_of(dem: &str, name: &str) -> Option<X> {
    if dem.starts_with("core::panicking::") || dem.starts_with("std::panicking::") || name.contains("rust_begin_unwind") || dem.contains("handle_alloc_error") || dem.ends_with("slice_error_fail") || dem.starts_with("core::option::unwrap_failed") || dem.starts_with("core::option::expect_failed") || dem.starts_with("core::result::unwrap_failed") || dem.starts_with("core::slice::index::slice_") || dem.starts_with("alloc::raw_vec::handle_error") || dem.starts_with("alloc::raw_vec::capacity_overflow") || dem.starts_with("core::cell::panic_already") {
        return Some(X::Panic);
    }
    if dem == "core::slice::memchr::memchr_aligned" {
        return Some(X::MemchrAligned);
    }
    if dem.contains("core::hash::sip::Hasher<") && dem.ends_with("as core::hash::Hasher>::write") {
        return Some(X::SipWrite);
    }
    if dem == "core::slice::memchr::memrchr" {
        return Some(X::MemrchrStub);
    }
    None
}

#[inline]
pub fn vex(v: &V, w: u32) -> Ex {
    match v {
        V::C(k) => c(*k as u128, w),
        V::E(e) => {
            debug_assert_eq!(width(*e), w);
            *e
        }
        V::B(b) => c(**b, w),
        V::A(_) => {
            eprintln!("rsym: aggregate used as scalar");
            std::process::exit(70)
        }
    }
}
#[inline]
pub fn exv(e: Ex) -> V {
    match is_const(e) {
        Some(k) => {
            if width(e) <= 64 {
                V::C(k as u64)
            } else {
                V::B(Box::new(k))
            }
        }
        None => V::E(e),
    }
}
#[inline]
fn kv(k: u128, w: u32) -> V {
    if w <= 64 {
        V::C(k as u64)
    } else {
        V::B(Box::new(k))
    }
}
#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn vconst(v: &V) -> Option<u128> {
    match v {
        V::C(k) => Some(*k as u128),
        V::B(b) => Some(**b),
        _ => None,
    }
}

fn icmp_ex(pr: u8, a: Ex, b: Ex) -> Ex {
    match pr {
        0 => eq(a, b),
        1 => not(eq(a, b)),
        2 => ult(a, b),
        3 => ule(a, b),
        4 => ult(b, a),
        5 => ule(b, a),
        6 => slt(a, b),
        7 => sle(a, b),
        8 => slt(b, a),
        _ => sle(b, a),
    }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Exec<'m> {
        let mut fstub = HashMap::new();
        let mut fconc = HashSet::new();
        for (i, f) in m.funcs.iter().enumerate() {
            if let Some(x) = stub_of(&f.dem, &f.name) {
                fstub.insert(i as u32, x);
            }
            let d = &f.dem;
            if d.contains("dec2flt::lemire") || d.contains("ryu::d2s::") || d.contains("ryu::f2s::") || d.contains("ryu::pretty::format") {
                fconc.insert(i as u32);
            }
        }
        Exec { m, cfg, res: Results::default(), stack: vec![], exts: RefCell::new(vec![]), extmap: Default::default(), tk: vec![], stubs_hit: Default::default(), fstub, fconc, prof: None, forkprof: None, stop: false, mass_budget: 3_000_000 }
    }
    fn resolve_ext(&self, n: &str) -> Option<u32> {
        if ext_ignored(n) {
            return Some(u32::MAX);
        }
        if let Some(i) = self.extmap.borrow().get(n) {
            return Some(*i);
        }
        let x = match ext_of(n) {
            Some(x) => x,
            None => {
                let f = self.m.fmap.get(n)?;
                if self.m.funcs[*f as usize].text.is_some() {
                    return None;
                }
                X::Unsupported
            }
        };
        let mut e = self.exts.borrow_mut();
        let i = e.len() as u32;
        e.push((x, n.to_string()));
        self.extmap.borrow_mut().insert(n.to_string(), i);
        Some(i)
    }
    fn code(&mut self, f: u32) -> Rc<Code> {
        let fresh = self.m.funcs[f as usize].code.get().is_none();
        let r = {
            let this: &Exec = self;
            this.m.code(f, &|n| this.resolve_ext(n))
        };
        if fresh {
            self.refresh_tk();
        }
        r
    }
    fn refresh_tk(&mut self) {
        let ts = self.m.types.borrow();
        for i in self.tk.len()..ts.len() {
            self.tk.push(match &ts[i].ty {
                Ty::Int(w) => Tk::Int(*w, ((*w + 7) / 8) as u64),
                Ty::Ptr | Ty::F64 => Tk::Int(64, 8),
                Ty::F32 => Tk::Int(32, 4),
                Ty::Void | Ty::Other => Tk::Void,
                _ => Tk::Agg,
            });
        }
    }
    pub fn init(&mut self, harness: &str) -> State {
        let mut mem = Mem::new();
        for g in &self.m.globals {
            let (s, _) = self.m.sa(g.ty);
            mem.alloc(Kind::Global, s, u32::MAX);
        }
        self.refresh_tk();
        for (i, g) in self.m.globals.iter().enumerate() {
            let v = self.m.ginit(g);
            self.refresh_tk();
            let a = gaddr(i as u32);
            if let Err(e) = self.store_v(&mut mem, g.ty, a, &v) {
                eprintln!("rsym: global init {}: {:?}", g.name, e);
                std::process::exit(70);
            }
            if g.constant {
                mem.init_obj(a).kind = Kind::Const;
            }
        }
        let f = match self.m.fmap.get(harness) {
            Some(f) => *f,
            None => {
                eprintln!("rsym: no harness `{}`", harness);
                std::process::exit(70)
            }
        };
        let code = self.code(f);
        let nr = code.nregs as usize;
        self.res.funcs.insert(f);
        State {
            frames: vec![Rc::new(Frame { f, pc: code.blocks[0], code, regs: vec![V::C(0); nr], allocas: vec![] })],
            mem,
            pc: Pc::new(),
            dom0: vec![],
            steps: 0,
            forks: 0,
            obs: Rc::new(vec![]),
            checks: 0,
            heap_mark: 0, expect_panic: false, hashed: Default::default(), siplogs: Default::default(),
        }
    }
    fn store_v(&self, mem: &mut Mem, t: Tid, a: u64, v: &V) -> Result<(), MErr> {
        match self.tk[t as usize] {
            Tk::Int(w, n) => match v {
                V::C(k) => {
                    let (o, off) = mem.get_mut(a, n)?;
                    o.write_c(off, n, *k as u128);
                }
                V::B(b) => {
                    let (o, off) = mem.get_mut(a, n)?;
                    o.write_c(off, n, **b);
                }
                V::E(e) => {
                    let e = if w as u64 != n * 8 { zext(*e, n as u32 * 8) } else { *e };
                    let (o, off) = mem.get_mut(a, n)?;
                    for i in 0..n {
                        let b = extract(e, i as u32 * 8, 8);
                        o.write_b(off + i, b);
                        // write_b handles constants by clearing
                    }
                }
                V::A(_) => return Err(MErr::Wild),
            },
            Tk::Agg => {
                let ty = self.m.tyof(t);
                let vs = match v {
                    V::A(vs) => vs.clone(),
                    _ => return Err(MErr::Wild),
                };
                match ty {
                    Ty::Arr(n, e) => {
                        let es = self.m.sa(e).0;
                        if es == 1 && vs.iter().all(|x| matches!(x, V::C(_))) {
                            if n > 0 {
                                let (o, off) = mem.get_mut(a, n)?;
                                let last = vs.iter().rposition(|x| !matches!(x, V::C(0)));
                                if o.sym.is_empty() && o.conc.is_empty() && off == 0 {
                                    if let Some(l) = last {
                                        o.conc = vs[..=l].iter().map(|x| if let V::C(k) = x { *k as u8 } else { 0 }).collect();
                                    }
                                } else {
                                    for (i, x) in vs.iter().enumerate() {
                                        if let V::C(k) = x {
                                            o.write_c(off + i as u64, 1, *k as u128);
                                        }
                                    }
                                }
                            }
                        } else {
                            for i in 0..n {
                                self.store_v(mem, e, a + i * es, &vs[i as usize])?;
                            }
                        }
                    }
                    Ty::Vec(n, e) => {
                        if let Ty::Int(w) = self.m.tyof(e) {
                            if w < 8 {
                                let mut acc = 0u128;
                                for (i, x) in vs.iter().enumerate() {
                                    acc |= (vconst(x).unwrap_or(0)) << (i as u32 * w);
                                }
                                let n = (n * w + 7) as u64 / 8;
                                let (o, off) = mem.get_mut(a, n)?;
                                o.write_c(off, n, acc);
                                return Ok(());
                            }
                        }
                        let es = self.m.sa(e).0;
                        for i in 0..n as u64 {
                            self.store_v(mem, e, a + i * es, &vs[i as usize])?;
                        }
                    }
                    Ty::Struct(f, _) => {
                        let offs = self.m.types.borrow()[t as usize].offs.clone();
                        for (i, e) in f.iter().enumerate() {
                            self.store_v(mem, *e, a + offs[i], &vs[i])?;
                        }
                    }
                    _ => {}
                }
            }
            Tk::Void => {}
        }
        Ok(())
    }
    fn load_v(&self, st: &State, t: Tid, a: u64) -> Result<V, MErr> {
        match self.tk[t as usize] {
            Tk::Int(w, n) => self.load_int(&st.mem, &st.pc, a, w, n),
            Tk::Agg => {
                let ty = self.m.tyof(t);
                let mut r = vec![];
                match ty {
                    Ty::Arr(n, e) => {
                        let es = self.m.sa(e).0;
                        for i in 0..n {
                            r.push(self.load_v(st, e, a + i * es)?);
                        }
                    }
                    Ty::Vec(n, e) => {
                        let es = self.m.sa(e).0;
                        for i in 0..n as u64 {
                            r.push(self.load_v(st, e, a + i * es)?);
                        }
                    }
                    Ty::Struct(f, _) => {
                        let offs = self.m.types.borrow()[t as usize].offs.clone();
                        for (i, e) in f.iter().enumerate() {
                            r.push(self.load_v(st, *e, a + offs[i])?);
                        }
                    }
                    _ => {}
                }
                Ok(V::A(Rc::new(r)))
            }
            Tk::Void => Ok(V::C(0)),
        }
    }
    #[inline]
    fn load_int(&self, mem: &Mem, pc: &Pc, a: u64, w: u32, n: u64) -> Result<V, MErr> {
        let (o, off) = mem.get(a, n)?;
        if o.sym.is_empty() || !o.is_sym(off, n) {
            if n <= 8 {
                let k = o.read_c64(off, n);
                return Ok(V::C(if w & 7 != 0 { k & m64(w) } else { k }));
            }
            return Ok(V::B(Box::new(o.read_c(off, n) & mask(w))));
        }
        let mut acc = sbyte(o, off, pc);
        for i in 1..n {
            let b = sbyte(o, off + i, pc);
            acc = concat(b, acc);
        }
        if w as u64 != n * 8 {
            acc = extract(acc, 0, w);
        }
        Ok(exv(acc))
    }

    // ---- exploration driver -------------------------------------------------
    pub fn run_path(&mut self, mut st: State) {
        loop {
            let r = self.run(&mut st);
            match r {
                Ctl::Refetch | Ctl::Next => continue,
                Ctl::Done => {
                    self.finish(&mut st);
                    return;
                }
                Ctl::Drop => {
                    return;
                }
                Ctl::Kill(why) => {
                    if why == "assume" {
                        self.res.killed_assume += 1;
                        self.mass(&st);
                    } else if why == "violation" {
                        self.res.paths += 1;
                        self.mass(&st);
                    } else {
                        *self.res.inconclusive.entry(why).or_insert(0) += 1;
                    }
                    self.res.steps += st.steps;
                    return;
                }
            }
        }
    }
    fn mass(&mut self, st: &State) {
        let pc = st.pc.clone();
        self.mass_pc(&pc, &st.dom0);
    }
    /// add the fraction of the input space described by `pc` to the partition check
    fn mass_pc(&mut self, pc: &Pc, dom0: &[crate::solver::Dom]) {
        let mut p1 = 1f64;
        for (i, d) in pc.doms.iter().enumerate() {
            p1 *= dcount(d) as f64 / dcount(&dom0[i]) as f64;
        }
        let mut todo = 0u128;
        for m in &pc.multi {
            todo |= pc.esupp(*m);
        }
        while todo != 0 {
            let (atoms, vars) = pc.component(todo & todo.wrapping_neg());
            let vars = vars & !pc.single;
            todo &= !vars;
            let vs: Vec<usize> = (0..pc.doms.len()).filter(|v| vars >> v & 1 == 1).collect();
            let mut prod = 1u64;
            for v in &vs {
                prod = prod.saturating_mul(dcount(&pc.doms[*v]) as u64);
            }
            if prod > 5_000 && prod > self.mass_budget {
                self.res.mass_unknown += 1;
                return;
            }
            self.mass_budget -= prod.min(self.mass_budget);
            let lists: Vec<Vec<u8>> = vs.iter().map(|v| dvals(&pc.doms[*v])).collect();
            let mut model = pc.model;
            let mut ok = 0u64;
            for k in 0..prod {
                let mut k = k;
                for (j, v) in vs.iter().enumerate() {
                    let l = lists[j].len() as u64;
                    model[*v] = lists[j][(k % l) as usize];
                    k /= l;
                }
                p().new_gen();
                if atoms.iter().all(|m| p().ev(*m, &model) == 1) {
                    ok += 1;
                }
            }
            p1 *= ok as f64 / prod as f64;
        }
        self.res.mass += p1;
    }
    fn finish(&mut self, st: &mut State) {
        self.res.paths += 1;
        self.res.steps += st.steps;
        self.res.max_steps = self.res.max_steps.max(st.steps);
        self.mass(st);
        let n = self.res.paths;
        if self.cfg.path_z3 != 0 && n % self.cfg.path_z3 == 0 {
            let mut vars = 0u128;
            for i in 0..st.pc.doms.len() {
                vars |= 1 << i;
            }
            let s = sol();
            s.st.path_z3 += 1;
            let r = s.query_light(&st.pc.multi, vars, &st.pc.doms, None);
            if r == Res::Unknown && (0..st.pc.doms.len()).all(|v| crate::solver::dhas(&st.pc.doms[v], st.pc.model[v])) && st.pc.holds(&st.pc.multi) {
                s.st.path_z3 -= 1; // the recorded model is a witness by evaluation
            } else if r != Res::Sat {
                *self.res.inconclusive.entry(format!("path condition not confirmed by Z3 ({:?})", r)).or_insert(0) += 1;
            }
        }
        // reservoir-free sampling: keep traces at powers / spread
        let keep = self.res.traces.len() < self.cfg.trace_keep || (n & (n - 1)) == 0 || n % 4099 == 0;
        if keep && self.res.traces.len() < self.cfg.trace_keep * 4 {
            let t = self.trace_of(st);
            self.res.traces.push(t);
        }
    }
    fn trace_of(&self, st: &State) -> Trace {
        let model = st.pc.model[..st.pc.doms.len()].to_vec();
        let mut obs = vec![];
        for (_, es) in st.obs.iter() {
            obs.extend_from_slice(&(es.len() as u32).to_le_bytes());
            p().new_gen();
            for e in es {
                obs.push(p().ev(*e, &st.pc.model) as u8);
            }
        }
        Trace { model, obs }
    }
    fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(40).map(|f| self.m.funcs[f.f as usize].dem.clone()).collect()
    }
    fn violate(&mut self, st: &State, kind: &str, id: u32, what: String, model: Option<Vec<u8>>) {
        let model = model.unwrap_or_else(|| st.pc.model[..st.pc.doms.len()].to_vec());
        let v = Viol { kind: kind.to_string(), id, what, model, stack: self.backtrace(st) };
        if self.res.viols.len() < 64 {
            self.res.viols.push(v);
        }
        if self.res.viols.len() >= self.cfg.max_viols {
            self.stop = true;
        }
    }

    /// fork over the feasible values of a register operand; each successor re-executes the instruction
    fn fork_values(&mut self, st: &mut State, o: &O, w: u32, limit: usize) -> Ctl {
        let r = match o {
            O::R(r) => *r,
            _ => return Ctl::Kill("symbolic constant?".into()),
        };
        let e = match &st.frames.last().unwrap().regs[r as usize] {
            V::E(e) => *e,
            _ => return Ctl::Kill("fork_values on concrete".into()),
        };
        let vals = match st.pc.values(e, limit) {
            Some(v) => v,
            None => {
                let f = &self.m.funcs[st.frames.last().unwrap().f as usize].dem;
                return Ctl::Kill(format!("too many values for a concretised operand in {}", f));
            }
        };
        self.res.concretized += 1;
        self.note_fork(st, vals.len());
        let n = vals.len();
        let mut live = false;
        for (i, k) in vals.into_iter().enumerate() {
            if i + 1 < n {
                let mut s2 = st.clone();
                if s2.pc.assume(eq(e, c(k, w))) != Res::Sat {
                    continue;
                }
                let fr = Rc::make_mut(s2.frames.last_mut().unwrap());
                fr.regs[r as usize] = kv(k, w);
                s2.forks += 1;
                self.stack.push(s2);
            } else {
                if st.pc.assume(eq(e, c(k, w))) != Res::Sat {
                    continue;
                }
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[r as usize] = kv(k, w);
                st.forks += 1;
                live = true;
            }
        }
        if live {
            Ctl::Refetch
        } else {
            Ctl::Drop
        }
    }
    fn note_fork(&mut self, st: &State, n: usize) {
        self.res.forks += n as u64 - 1;
        if let Some(fp) = &mut self.forkprof {
            let fr = st.frames.last().unwrap();
            *fp.entry((fr.f, fr.pc)).or_insert(0) += n as u64 - 1;
        }
    }

    fn run(&mut self, st: &mut State) -> Ctl {
        let fptr: *mut Frame = Rc::make_mut(st.frames.last_mut().unwrap());
        let fr: &mut Frame = unsafe { &mut *fptr };
        let code = fr.code.clone();
        let mut budget = 4_000_000u32;
        loop {
            st.steps += 1;
            if st.steps > self.cfg.max_steps {
                return Ctl::Kill(format!("step bound {} reached in {}", self.cfg.max_steps, self.m.funcs[fr.f as usize].dem));
            }
            budget -= 1;
            if budget == 0 {
                return Ctl::Refetch;
            }
            if let Some(p) = &mut self.prof {
                p[fr.f as usize] += 1;
            }
            let inst = &code.code[fr.pc as usize];
            macro_rules! rd {
                ($o:expr) => {
                    match $o {
                        O::R(r) => fr.regs[*r as usize].clone(),
                        O::C(k) => V::C(*k),
                        O::K(v) => (**v).clone(),
                    }
                };
            }
            macro_rules! jump {
                ($e:expr) => {{
                    let e: &Edge = $e;
                    take_edge(fr, &code, e);
                }};
            }
            match inst {
                I::Bin(op, t, d, ao, bo) => {
                    let (a, b) = (rd!(ao), rd!(bo));
                    if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem) {
                        // floating point is executed on concrete values: fork over every feasible operand
                        if let Tk::Int(w, _) = self.tk[*t as usize] {
                            // (operands of three or more free bytes stay symbolic and go to the solver)
                            let few = |v: &V| match v {
                                V::E(e) => *op == Op::FRem || supp(*e).count_ones() < 3,
                                _ => false,
                            };
                            if few(&a) {
                                return self.fork_values(st, ao, w, 5000);
                            }
                            if few(&b) {
                                return self.fork_values(st, bo, w, 5000);
                            }
                        }
                    }
                    let v = match self.tk[*t as usize] {
                        Tk::Int(w, _) => match (&a, &b) {
                            (V::C(x), V::C(y)) if w <= 64 => {
                                let (x, y) = (*x, *y);
                                let m = m64(w);
                                V::C(match op {
                                    Op::Add => x.wrapping_add(y) & m,
                                    Op::Sub => x.wrapping_sub(y) & m,
                                    Op::Mul => x.wrapping_mul(y) & m,
                                    Op::And => x & y,
                                    Op::Or => x | y,
                                    Op::Xor => x ^ y,
                                    Op::Shl => {
                                        if y >= w as u64 {
                                            0
                                        } else {
                                            (x << y) & m
                                        }
                                    }
                                    Op::LShr => {
                                        if y >= w as u64 {
                                            0
                                        } else {
                                            x >> y
                                        }
                                    }
                                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => {
                                        self.violate(st, "panic", 0, "division by zero".into(), None);
                                        return Ctl::Kill("violation".into());
                                    }
                                    Op::UDiv => x / y,
                                    Op::URem => x % y,
                                    _ => bin_eval(*op, w, x as u128, y as u128, 0) as u64,
                                })
                            }
                            _ => {
                                let (x, y) = (vex(&a, w), vex(&b, w));
                                if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                                    // LLVM: division by zero is UB; rustc guards it, so just check
                                    if is_const(y).is_none() {
                                        let mut q = st.pc.clone();
                                        if q.assume(eq(y, c(0, w))) != Res::Unsat {
                                            let m = q.model[..q.doms.len()].to_vec();
                                            self.violate(st, "panic", 0, "division by zero".into(), Some(m));
                                        }
                                    }
                                }
                                exv(bin2(*op, x, y))
                            }
                        },
                        Tk::Agg => self.vec_bin(*op, *t, &a, &b),
                        _ => return Ctl::Kill("bin on void".into()),
                    };
                    fr.regs[*d as usize] = v;
                }
                I::Icmp(pr, t, d, a, b) => {
                    let (a, b) = (rd!(a), rd!(b));
                    let v = match self.tk[*t as usize] {
                        Tk::Int(w, _) => match (&a, &b) {
                            (V::C(x), V::C(y)) => V::C(icmp64(*pr, w, *x, *y) as u64),
                            _ => exv(icmp_ex(*pr, vex(&a, w), vex(&b, w))),
                        },
                        _ => {
                            let w = self.elw(*t);
                            match (&a, &b) {
                                (V::A(x), V::A(y)) => V::A(Rc::new((0..x.len()).map(|i| exv(icmp_ex(*pr, vex(&x[i], w), vex(&y[i], w)))).collect())),
                                _ => return Ctl::Kill("vector icmp".into()),
                            }
                        }
                    };
                    fr.regs[*d as usize] = v;
                }
                I::Fcmp(pr, t, d, ao, bo) => {
                    let (a, b) = (rd!(ao), rd!(bo));
                    // comparisons of wide symbolic operands stay symbolic (Z3 floating point); narrow ones are case split
                    if let Tk::Int(w, _) = self.tk[*t as usize] {
                        if let V::E(e) = a {
                            if st.pc.esupp(e).count_ones() <= 1 {
                                return self.fork_values(st, ao, w, 5000);
                            }
                        }
                        if let V::E(e) = b {
                            if st.pc.esupp(e).count_ones() <= 1 {
                                return self.fork_values(st, bo, w, 5000);
                            }
                        }
                    }
                    match self.tk[*t as usize] {
                        Tk::Int(w, _) => fr.regs[*d as usize] = exv(fcmp(*pr, vex(&a, w), vex(&b, w))),
                        _ => return Ctl::Kill("vector fcmp".into()),
                    }
                }
                I::Fneg(t, d, a) => {
                    let a = rd!(a);
                    match self.tk[*t as usize] {
                        Tk::Int(w, _) => fr.regs[*d as usize] = exv(xor(vex(&a, w), c(1u128 << (w - 1), w))),
                        _ => return Ctl::Kill("vector fneg".into()),
                    }
                }
                I::Cast(k, ft, tt, d, ao) => {
                    let a = rd!(ao);
                    if let (V::E(e), K_UITOFP | K_SITOFP, Tk::Int(fw, _)) = (&a, *k, self.tk[*ft as usize]) {
                        // narrow symbolic integers: fork over every feasible value; wide ones stay symbolic
                        if st.pc.esupp(*e).count_ones() <= 1 {
                            return self.fork_values(st, ao, fw, 5000);
                        }
                    }
                    let v = match (self.tk[*ft as usize], self.tk[*tt as usize]) {
                        (Tk::Int(fw, _), Tk::Int(tw, _)) if fw > 128 || tw > 128 => return Ctl::Kill("integer wider than 128 bits".into()),
                        (Tk::Int(fw, _), Tk::Int(tw, _)) => cast_v(*k, fw, tw, a),
                        _ => match self.cast_vec(*k, *ft, *tt, a) {
                            Some(v) => v,
                            None => return Ctl::Kill("vector cast".into()),
                        },
                    };
                    fr.regs[*d as usize] = v;
                }
                I::Gep(d, b, off, dynv) => {
                    let b = rd!(b);
                    let mut acc: u64 = *off as u64;
                    let mut sym: Option<Ex> = None;
                    match b {
                        V::C(k) => acc = acc.wrapping_add(k),
                        V::E(e) => sym = Some(e),
                        _ => return Ctl::Kill("gep base".into()),
                    }
                    for (o, w, sc) in dynv.iter() {
                        match rd!(o) {
                            V::C(k) => acc = acc.wrapping_add((sx64(k, *w)).wrapping_mul(*sc) as u64),
                            V::E(e) => {
                                let x = if *w < 64 { sext(e, 64) } else { extract(e, 0, 64) };
                                let t = mul(x, c(*sc as u64 as u128, 64));
                                sym = Some(match sym {
                                    None => t,
                                    Some(s) => add(s, t),
                                });
                            }
                            _ => return Ctl::Kill("gep index".into()),
                        }
                    }
                    fr.regs[*d as usize] = match sym {
                        None => V::C(acc),
                        Some(s) => exv(add(s, c(acc as u128, 64))),
                    };
                }
                I::Load(t, d, po) => {
                    let pv = rd!(po);
                    match pv {
                        V::C(a) => {
                            let r = match self.tk[*t as usize] {
                                Tk::Int(w, n) => self.load_int(&st.mem, &st.pc, a, w, n),
                                _ => self.load_v(st, *t, a),
                            };
                            match r {
                                Ok(v) => fr.regs[*d as usize] = v,
                                Err(e) => return self.memviol(st, "load", a, e),
                            }
                        }
                        V::E(e) => {
                            if let Some(k) = st.pc.determined(e) {
                                if let O::R(r) = po {
                                    fr.regs[*r as usize] = V::C(k as u64);
                                }
                                continue;
                            }
                            match self.sym_load(st, *t, e) {
                                Some(v) => {
                                    fr.regs[*d as usize] = v;
                                }
                                None => return self.fork_values(st, po, 64, 300),
                            }
                        }
                        _ => return Ctl::Kill("load pointer".into()),
                    }
                }
                I::Store(t, vo, po) => {
                    let pv = rd!(po);
                    match pv {
                        V::C(a) => {
                            let v = rd!(vo);
                            if let Err(e) = self.store_v(&mut st.mem, *t, a, &v) {
                                return self.memviol(st, "store", a, e);
                            }
                        }
                        _ => return self.fork_values(st, po, 64, 300),
                    }
                }
                I::Alloca(d, sz, cnt) => {
                    let n = match rd!(cnt) {
                        V::C(k) => k,
                        _ => return Ctl::Kill("alloca count".into()),
                    };
                    let a = st.mem.alloc(Kind::Stack, sz * n, fr.f);
                    fr.allocas.push(a);
                    fr.regs[*d as usize] = V::C(a);
                }
                I::Select(t, d, cc, a, b) => {
                    let v = match rd!(cc) {
                        V::C(1) => rd!(a),
                        V::C(_) => rd!(b),
                        V::E(e) => match st.pc.determined(e) {
                            Some(1) => rd!(a),
                            Some(_) => rd!(b),
                            None => match self.tk[*t as usize] {
                                Tk::Int(w, _) => {
                                    let (x, y) = (rd!(a), rd!(b));
                                    exv(ite(e, vex(&x, w), vex(&y, w)))
                                }
                                _ => return self.fork_values(st, cc, 1, 2),
                            },
                        },
                        _ => return Ctl::Kill("select".into()),
                    };
                    fr.regs[*d as usize] = v;
                }
                I::SelectV(t, d, cc, a, b) => {
                    let (cv, a, b) = (rd!(cc), rd!(a), rd!(b));
                    let w = self.elw(*t);
                    match (cv, a, b) {
                        (V::A(cv), V::A(a), V::A(b)) => fr.regs[*d as usize] = V::A(Rc::new((0..cv.len()).map(|i| exv(ite(vex(&cv[i], 1), vex(&a[i], w), vex(&b[i], w)))).collect())),
                        _ => return Ctl::Kill("vector select".into()),
                    }
                }
                I::Call(ci) => {
                    let f = match &ci.callee {
                        Callee::Fn(f) => *f,
                        Callee::Ext(x) => {
                            let (x, _) = self.exts.borrow()[*x as usize].clone();
                            match self.external(st, fr, ci, x) {
                                Ctl::Next => {
                                    match &ci.next {
                                        None => fr.pc += 1,
                                        Some(e) => jump!(e),
                                    }
                                    continue;
                                }
                                o => return o,
                            }
                        }
                        Callee::Ptr(o) => match rd!(o) {
                            V::C(a) if a >= FN_BASE && ((a - FN_BASE) >> 4) < self.m.funcs.len() as u64 => ((a - FN_BASE) >> 4) as u32,
                            V::C(a) => {
                                self.violate(st, "memory", 0, format!("call through bad function pointer {:#x}", a), None);
                                return Ctl::Kill("violation".into());
                            }
                            _ => return self.fork_values(st, o, 64, 64),
                        },
                    };
                    if self.fconc.contains(&f) {
                        // decimal<->binary float conversion kernels run on concrete arguments
                        for (o, t) in ci.args.iter() {
                            if let (V::E(_), Tk::Int(w, _)) = (rd!(o), self.tk[*t as usize]) {
                                return self.fork_values(st, o, w, 20_000);
                            }
                        }
                    }
                    if let Some(x) = self.fstub.get(&f) {
                        let x = *x;
                        *self.stubs_hit.entry(self.m.funcs[f as usize].dem.clone()).or_insert(0) += 1;
                        if x == X::Panic {
                            if st.expect_panic {
                                return Ctl::Done;
                            }
                            let what = format!("panic in {}", self.m.funcs[f as usize].dem);
                            self.violate(st, "panic", 0, what, None);
                            return Ctl::Kill("violation".into());
                        }
                        match self.external(st, fr, ci, x) {
                            Ctl::Next => {
                                match &ci.next {
                                    None => fr.pc += 1,
                                    Some(e) => jump!(e),
                                }
                                continue;
                            }
                            o => return o,
                        }
                    }
                    if self.m.funcs[f as usize].text.is_none() {
                        // function pointer to an external
                        let n = self.m.funcs[f as usize].name.clone();
                        let x = match ext_of(&n) {
                            Some(x) => x,
                            None => return Ctl::Kill(format!("call of unmodelled external {}", n)),
                        };
                        match self.external(st, fr, ci, x) {
                            Ctl::Next => {
                                match &ci.next {
                                    None => fr.pc += 1,
                                    Some(e) => jump!(e),
                                }
                                continue;
                            }
                            o => return o,
                        }
                    }
                    let ncode = self.code(f);
                    self.res.funcs.insert(f);
                    let mut regs = Vec::with_capacity(ncode.nregs as usize);
                    for (o, _) in ci.args.iter().take(ncode.nparams as usize) {
                        regs.push(rd!(o));
                    }
                    regs.resize(ncode.nregs as usize, V::C(0));
                    if st.frames.len() > 4000 {
                        self.violate(st, "memory", 0, "stack depth 4000 exceeded".into(), None);
                        return Ctl::Kill("violation".into());
                    }
                    let nf = Frame { f, pc: ncode.blocks[0], code: ncode, regs, allocas: vec![] };
                    st.frames.push(Rc::new(nf));
                    return Ctl::Refetch;
                }
                I::Ret(o) => {
                    let v = o.as_ref().map(|o| rd!(o));
                    for a in &fr.allocas {
                        let _ = st.mem.free(*a, Kind::Stack);
                    }
                    st.frames.pop();
                    match st.frames.last_mut() {
                        None => return Ctl::Done,
                        Some(cf) => {
                            let cf = Rc::make_mut(cf);
                            let code = cf.code.clone();
                            if let I::Call(ci) = &code.code[cf.pc as usize] {
                                if let (Some(d), Some(v)) = (ci.d, v) {
                                    cf.regs[d as usize] = v;
                                }
                                match &ci.next {
                                    None => cf.pc += 1,
                                    Some(e) => take_edge(cf, &code, e),
                                }
                            } else {
                                return Ctl::Kill("return to non-call".into());
                            }
                            return Ctl::Refetch;
                        }
                    }
                }
                I::Br(e) => {
                    jump!(e);
                    continue;
                }
                I::CondBr(cc, t, f) => {
                    match rd!(cc) {
                        V::C(k) => {
                            jump!(if k != 0 { t } else { f });
                            continue;
                        }
                        V::E(e) => {
                            if let Some(k) = st.pc.determined(e) {
                                jump!(if k != 0 { t } else { f });
                                continue;
                            }
                            let mut pt = st.pc.clone();
                            let rt = pt.assume(e);
                            if rt == Res::Unsat {
                                jump!(f);
                                continue;
                            }
                            let mut pf = st.pc.clone();
                            let rf = pf.assume(not(e));
                            if rt == Res::Unknown || rf == Res::Unknown {
                                return Ctl::Kill("solver gave up on a branch".into());
                            }
                            if rf == Res::Unsat {
                                // condition implied: keep the (equivalent) original condition
                                jump!(t);
                                continue;
                            }
                            self.note_fork(st, 2);
                            let mut s2 = st.clone();
                            s2.pc = pf;
                            s2.forks += 1;
                            {
                                let f2 = Rc::make_mut(s2.frames.last_mut().unwrap());
                                if let (O::R(r), true) = (cc, true) {
                                    f2.regs[*r as usize] = V::C(0);
                                }
                                take_edge(f2, &code, f);
                            }
                            self.stack.push(s2);
                            st.pc = pt;
                            st.forks += 1;
                            // our frame may now be shared: refetch after jumping
                            let fm = Rc::make_mut(st.frames.last_mut().unwrap());
                            if let O::R(r) = cc {
                                fm.regs[*r as usize] = V::C(1);
                            }
                            take_edge(fm, &code, t);
                            return Ctl::Refetch;
                        }
                        _ => return Ctl::Kill("branch".into()),
                    }
                }
                I::Switch(w, vo, def, cases) => match rd!(vo) {
                    V::E(e) => {
                        if let Some(k) = st.pc.determined(e) {
                            let t = cases.iter().find(|(x, _)| *x == k).map(|(_, e)| e).unwrap_or(def);
                            jump!(t);
                            continue;
                        }
                        // group cases by (target, phi source) = edge identity; merge equal targets without phis
                        let mut groups: Vec<(Ex, &Edge)> = vec![];
                        let mut none = c(1, 1);
                        for (k, ed) in cases.iter() {
                            let q = eq(e, c(*k, *w));
                            none = and(none, not(q));
                            if let Some(g) = groups.iter_mut().find(|g| g.1.bb == ed.bb && ed.phis.is_empty()) {
                                g.0 = or(g.0, q);
                            } else {
                                groups.push((q, ed));
                            }
                        }
                        if let Some(g) = groups.iter_mut().find(|g| g.1.bb == def.bb && def.phis.is_empty()) {
                            g.0 = or(g.0, none);
                        } else {
                            groups.push((none, def));
                        }
                        let mut feas = vec![];
                        for (q, ed) in groups {
                            let mut pc2 = st.pc.clone();
                            match pc2.assume(q) {
                                Res::Sat => feas.push((pc2, ed)),
                                Res::Unsat => {}
                                Res::Unknown => return Ctl::Kill("solver gave up on a switch".into()),
                            }
                        }
                        if feas.is_empty() {
                            return Ctl::Kill("switch infeasible".into());
                        }
                        if feas.len() > 1 {
                            self.note_fork(st, feas.len());
                        }
                        let (p0, e0) = feas.pop().unwrap();
                        for (pc2, ed) in feas {
                            let mut s2 = st.clone();
                            s2.pc = pc2;
                            s2.forks += 1;
                            let f2 = Rc::make_mut(s2.frames.last_mut().unwrap());
                            take_edge(f2, &code, ed);
                            self.stack.push(s2);
                        }
                        st.pc = p0;
                        let fm = Rc::make_mut(st.frames.last_mut().unwrap());
                        take_edge(fm, &code, e0);
                        return Ctl::Refetch;
                    }
                    v => {
                        let k = vconst(&v).unwrap_or(0);
                        let t = cases.iter().find(|(x, _)| *x == k).map(|(_, e)| e).unwrap_or(def);
                        jump!(t);
                        continue;
                    }
                },
                I::Unreachable => {
                    self.violate(st, "memory", 0, format!("unreachable executed in {}", self.m.funcs[fr.f as usize].dem), None);
                    return Ctl::Kill("violation".into());
                }
                I::Resume => return Ctl::Kill("landing pad reached".into()),
                I::ExtractV(d, a, ix) => {
                    let mut v = rd!(a);
                    for i in ix.iter() {
                        v = match v {
                            V::A(x) => x[*i as usize].clone(),
                            _ => return Ctl::Kill("extractvalue".into()),
                        };
                    }
                    fr.regs[*d as usize] = v;
                }
                I::InsertV(d, a, b, ix) => {
                    let v = rd!(a);
                    let b = rd!(b);
                    fn ins(v: V, ix: &[u32], b: V) -> V {
                        if ix.is_empty() {
                            return b;
                        }
                        match v {
                            V::A(mut x) => {
                                let y = Rc::make_mut(&mut x);
                                let old = y[ix[0] as usize].clone();
                                y[ix[0] as usize] = ins(old, &ix[1..], b);
                                V::A(x)
                            }
                            o => o,
                        }
                    }
                    fr.regs[*d as usize] = ins(v, ix, b);
                }
                I::ExtractE(_, d, a, i) => {
                    let (a, i) = (rd!(a), rd!(i));
                    match (a, i) {
                        (V::A(x), V::C(i)) => fr.regs[*d as usize] = x[i as usize % x.len()].clone(),
                        _ => return Ctl::Kill("extractelement".into()),
                    }
                }
                I::InsertE(d, a, v, i) => {
                    let (a, v, i) = (rd!(a), rd!(v), rd!(i));
                    match (a, i) {
                        (V::A(mut x), V::C(i)) => {
                            let l = x.len();
                            Rc::make_mut(&mut x)[i as usize % l] = v;
                            fr.regs[*d as usize] = V::A(x);
                        }
                        _ => return Ctl::Kill("insertelement".into()),
                    }
                }
                I::Shuffle(d, a, b, mk, n, _) => {
                    let (a, b) = (rd!(a), rd!(b));
                    match (a, b) {
                        (V::A(a), V::A(b)) => {
                            let n = *n as i64;
                            fr.regs[*d as usize] = V::A(Rc::new(mk.iter().map(|i| if *i < n { a[*i as usize].clone() } else { b[(*i - n) as usize].clone() }).collect()));
                        }
                        _ => return Ctl::Kill("shufflevector".into()),
                    }
                }
                I::Rmw(k, t, d, po, vo) => {
                    let a = match rd!(po) {
                        V::C(a) => a,
                        _ => return self.fork_values(st, po, 64, 64),
                    };
                    let (w, n) = match self.tk[*t as usize] {
                        Tk::Int(w, n) => (w, n),
                        _ => return Ctl::Kill("rmw".into()),
                    };
                    let old = match self.load_int(&st.mem, &st.pc, a, w, n) {
                        Ok(v) => v,
                        Err(e) => return self.memviol(st, "atomic", a, e),
                    };
                    let v = rd!(vo);
                    let (x, y) = (vex(&old, w), vex(&v, w));
                    let nv = match k {
                        0 => y,
                        1 => add(x, y),
                        2 => sub(x, y),
                        3 => and(x, y),
                        4 => or(x, y),
                        _ => xor(x, y),
                    };
                    if let Err(e) = self.store_v(&mut st.mem, *t, a, &exv(nv)) {
                        return self.memviol(st, "atomic", a, e);
                    }
                    fr.regs[*d as usize] = old;
                }
                I::CmpXchg(t, d, po, a, b) => {
                    let addr = match rd!(po) {
                        V::C(a) => a,
                        _ => return self.fork_values(st, po, 64, 64),
                    };
                    let old = match self.load_v(st, *t, addr) {
                        Ok(v) => v,
                        Err(e) => return self.memviol(st, "atomic", addr, e),
                    };
                    match (&old, rd!(a)) {
                        (V::C(x), V::C(y)) => {
                            let okk = *x == y;
                            if okk {
                                let nv = rd!(b);
                                if let Err(e) = self.store_v(&mut st.mem, *t, addr, &nv) {
                                    return self.memviol(st, "atomic", addr, e);
                                }
                            }
                            fr.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(okk as u64)]));
                        }
                        _ => return Ctl::Kill("symbolic cmpxchg".into()),
                    }
                }
                I::Copy(d, a) => {
                    let v = rd!(a);
                    fr.regs[*d as usize] = v;
                }
                I::Nop => {}
            }
            fr.pc += 1;
        }
    }

    fn elw(&self, t: Tid) -> u32 {
        match self.m.tyof(t) {
            Ty::Vec(_, e) => match self.tk[e as usize] {
                Tk::Int(w, _) => w,
                _ => 0,
            },
            _ => 0,
        }
    }
    fn vec_bin(&self, op: Op, t: Tid, a: &V, b: &V) -> V {
        let w = self.elw(t);
        match (a, b) {
            (V::A(a), V::A(b)) => V::A(Rc::new((0..a.len()).map(|i| exv(bin2(op, vex(&a[i], w), vex(&b[i], w)))).collect())),
            _ => V::C(0),
        }
    }
    fn cast_vec(&self, k: u8, ft: Tid, tt: Tid, a: V) -> Option<V> {
        let (fty, tty) = (self.m.tyof(ft), self.m.tyof(tt));
        if k == K_BITCAST {
            // via one wide integer
            let (wide, tot) = match (&fty, &a) {
                (Ty::Vec(n, _), V::A(x)) => {
                    let w = self.elw(ft);
                    if n * w > 128 {
                        return None;
                    }
                    let mut acc = vex(&x[0], w);
                    for v in &x[1..] {
                        acc = concat(vex(v, w), acc);
                    }
                    (acc, n * w)
                }
                _ => match self.tk[ft as usize] {
                    Tk::Int(w, _) => (vex(&a, w), w),
                    _ => return None,
                },
            };
            return match &tty {
                Ty::Vec(n, _) => {
                    let w = self.elw(tt);
                    if n * w != tot {
                        return None;
                    }
                    Some(V::A(Rc::new((0..*n).map(|i| exv(extract(wide, i * w, w))).collect())))
                }
                _ => Some(exv(wide)),
            };
        }
        match (&fty, &tty, a) {
            (Ty::Vec(..), Ty::Vec(..), V::A(x)) => {
                let (fw, tw) = (self.elw(ft), self.elw(tt));
                Some(V::A(Rc::new(x.iter().map(|v| cast_v(k, fw, tw, v.clone())).collect())))
            }
            _ => None,
        }
    }
    fn memviol(&mut self, st: &State, what: &str, a: u64, e: MErr) -> Ctl {
        self.violate(st, "memory", 0, format!("invalid {} at {:#x}: {:?}", what, a, e), None);
        Ctl::Kill("violation".into())
    }
    /// load through a symbolic address without forking, when it selects within one object
    fn sym_load(&mut self, st: &mut State, t: Tid, e: Ex) -> Option<V> {
        let (w, n) = match self.tk[t as usize] {
            Tk::Int(w, n) => (w, n),
            _ => return None,
        };
        let es = st.pc.esupp(e);
        if es.count_ones() == 1 && w <= 64 {
            let v = es.trailing_zeros();
            let linked = st.pc.multi.iter().any(|a| st.pc.esupp(*a) & es != 0);
            let vals = dvals(&st.pc.doms[v as usize]);
            let mut m = st.pc.model;
            let mut tab = Box::new([0u64; 256]);
            for x in &vals {
                m[v as usize] = *x;
                let a = p().eval(e, &m) as u64;
                match st.mem.get(a, n) {
                    Ok((o, off)) if !o.is_sym(off, n) => tab[*x as usize] = o.read_c64(off, n) & m64(w),
                    Ok(_) => return None,
                    Err(er) => {
                        if linked {
                            // maybe infeasible
                            let mut q = st.pc.clone();
                            if q.assume(eq(var(v), c(*x as u128, 8))) == Res::Unsat {
                                continue;
                            }
                        }
                        let _ = er;
                        return None; // fork; the faulting successor reports
                    }
                }
            }
            let first = tab[vals[0] as usize];
            if vals.iter().all(|x| tab[*x as usize] == first) {
                return Some(V::C(first));
            }
            return Some(exv(p().tab(tab, v, w)));
        }
        // several variables: ite chain over a small set of addresses
        let vals = st.pc.values(e, 40)?;
        let mut acc: Option<Ex> = None;
        for a in vals.iter().rev() {
            let v = match self.load_int(&st.mem, &st.pc, *a as u64, w, n) {
                Ok(v) => v,
                Err(_) => return None,
            };
            let x = vex(&v, w);
            acc = Some(match acc {
                None => x,
                Some(r) => ite(eq(e, c(*a, 64)), x, r),
            });
        }
        acc.map(exv)
    }

    fn external(&mut self, st: &mut State, fr: &mut Frame, ci: &CallI, x: X) -> Ctl {
        macro_rules! arg {
            ($i:expr) => {
                match &ci.args[$i].0 {
                    O::R(r) => fr.regs[*r as usize].clone(),
                    O::C(k) => V::C(*k),
                    O::K(v) => (**v).clone(),
                }
            };
        }
        macro_rules! carg {
            ($i:expr) => {
                match arg!($i) {
                    V::C(k) => k,
                    V::E(e) => {
                        if let Some(k) = st.pc.determined(e) {
                            k as u64
                        } else {
                            let w = width(e);
                            return self.fork_values(st, &ci.args[$i].0, w, 300);
                        }
                    }
                    _ => return Ctl::Kill("external argument".into()),
                }
            };
        }
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                if let Some(d) = ci.d {
                    fr.regs[d as usize] = v;
                }
                return Ctl::Next;
            }};
        }
        let aw = |i: usize| -> u32 {
            match self.tk[ci.args[i].1 as usize] {
                Tk::Int(w, _) => w,
                _ => 0,
            }
        };
        const BIG: u64 = 1 << SLOT;
        match x {
            X::Malloc | X::Calloc => {
                let n = if x == X::Malloc {
                    carg!(0)
                } else {
                    let (a, b) = (carg!(0), carg!(1));
                    a.saturating_mul(b)
                };
                if n >= BIG {
                    return Ctl::Kill(format!("allocation of {} bytes is outside the model", n));
                }
                let a = st.mem.alloc(Kind::Heap, n, fr.f);
                ret!(V::C(a))
            }
            X::PosixMemalign => {
                let (pp, n) = (carg!(0), carg!(2));
                if n >= BIG {
                    return Ctl::Kill(format!("allocation of {} bytes is outside the model", n));
                }
                let a = st.mem.alloc(Kind::Heap, n, fr.f);
                let r = st.mem.get_mut(pp, 8).map(|(o, off)| o.write_c(off, 8, a as u128));
                if let Err(e) = r {
                    return self.memviol(st, "store", pp, e);
                }
                ret!(V::C(0))
            }
            X::Realloc => {
                let (pp, n) = (carg!(0), carg!(1));
                if n >= BIG {
                    return Ctl::Kill(format!("allocation of {} bytes is outside the model", n));
                }
                let a = st.mem.alloc(Kind::Heap, n, fr.f);
                if pp != 0 {
                    let old = match st.mem.get(pp, 0) {
                        Ok((o, 0)) if o.kind == Kind::Heap => o.clone(),
                        Ok((o, _)) if o.kind == Kind::Dead => return self.memviol(st, "realloc", pp, MErr::Freed),
                        _ => return self.memviol(st, "realloc", pp, MErr::Wild),
                    };
                    let k = old.size.min(n) as usize;
                    let no = st.mem.init_obj(a);
                    no.conc = old.conc[..old.conc.len().min(k)].to_vec();
                    no.sym = old.sym.iter().filter(|s| (s.0 as usize) < k).cloned().collect();
                    if let Err(e) = st.mem.free(pp, Kind::Heap) {
                        return self.memviol(st, "realloc", pp, e);
                    }
                }
                ret!(V::C(a))
            }
            X::Free => {
                let pp = carg!(0);
                if pp != 0 {
                    if let Err(e) = st.mem.free(pp, Kind::Heap) {
                        return self.memviol(st, "free", pp, e);
                    }
                }
                ret!(V::C(0))
            }
            X::Memcpy | X::Memmove => {
                let (d, s, n) = (carg!(0), carg!(1), carg!(2));
                if n > 0 && d != s {
                    let (bytes, syms) = match st.mem.get(s, n) {
                        Ok((o, off)) => {
                            let l = o.conc.len() as u64;
                            let hi = (off + n).min(l).max(off.min(l));
                            let bytes = o.conc[off.min(l) as usize..hi as usize].to_vec();
                            let syms: Vec<(u32, Ex)> = if o.is_sym(off, n) { o.sym.iter().filter(|x| x.0 as u64 >= off && (x.0 as u64) < off + n).map(|x| (x.0 - off as u32, x.1)).collect() } else { vec![] };
                            (bytes, syms)
                        }
                        Err(e) => return self.memviol(st, "memcpy source", s, e),
                    };
                    match st.mem.get_mut(d, n) {
                        Ok((o, off)) => {
                            o.copy_in(off, n, &bytes);
                            for (i, e) in syms {
                                o.write_b(off + i as u64, e);
                            }
                        }
                        Err(e) => return self.memviol(st, "memcpy destination", d, e),
                    }
                    let _ = ();
                }
                ret!(V::C(d))
            }
            X::Memset => {
                let (d, n) = (carg!(0), carg!(2));
                let v = arg!(1);
                if n > 0 {
                    match st.mem.get_mut(d, n) {
                        Ok((o, off)) => match v {
                            V::C(k) => {
                                if k & 0xff == 0 {
                                    o.copy_in(off, n, &[]);
                                } else {
                                    let b = vec![k as u8; n as usize];
                                    o.copy_in(off, n, &b);
                                }
                            }
                            V::E(e) => {
                                let e = extract(e, 0, 8);
                                for i in 0..n {
                                    o.write_b(off + i, e);
                                }
                            }
                            _ => return Ctl::Kill("memset".into()),
                        },
                        Err(e) => return self.memviol(st, "memset", d, e),
                    }
                }
                ret!(V::C(d))
            }
            X::Memcmp | X::Bcmp | X::EqMem => {
                let (a, b, n) = (carg!(0), carg!(1), carg!(2));
                if n == 0 {
                    ret!(V::C(if x == X::EqMem { 1 } else { 0 }));
                }
                let (oa, fa) = match st.mem.get(a, n) {
                    Ok(v) => v,
                    Err(e) => return self.memviol(st, "memcmp", a, e),
                };
                let (ob, fb) = match st.mem.get(b, n) {
                    Ok(v) => v,
                    Err(e) => return self.memviol(st, "memcmp", b, e),
                };
                if x != X::Memcmp {
                    let mut acc = c(1, 1);
                    for i in 0..n {
                        let (p1, p2) = (sbyte(oa, fa + i, &st.pc), sbyte(ob, fb + i, &st.pc));
                        let q = eq(p1, p2);
                        if is_const(q) == Some(0) {
                            acc = q;
                            break;
                        }
                        acc = and(acc, q);
                    }
                    if x == X::EqMem {
                        ret!(exv(acc))
                    }
                    ret!(exv(ite(acc, c(0, 32), c(1, 32))))
                }
                // memcmp: first difference decides
                let mut acc = c(0, 32);
                let mut parts = vec![];
                for i in 0..n {
                    let (p1, p2) = (sbyte(oa, fa + i, &st.pc), sbyte(ob, fb + i, &st.pc));
                    if p1 == p2 {
                        continue;
                    }
                    let q = eq(p1, p2);
                    parts.push((q, p1, p2));
                    if is_const(q) == Some(0) {
                        break;
                    }
                }
                for (q, p1, p2) in parts.into_iter().rev() {
                    let lt = ult(p1, p2);
                    let r = ite(lt, c(u32::MAX as u128, 32), c(1, 32));
                    acc = ite(q, acc, r);
                }
                ret!(exv(acc))
            }
            X::MemchrAligned | X::MemrchrStub => {
                // (needle: u8, ptr, len) -> {i64 discr, i64 idx}; byte-exact semantics of the word-at-a-time search
                let (a, n) = (carg!(1), carg!(2));
                let nb = arg!(0);
                let nb = vex(&nb, 8);
                let mut disc = c(0, 64);
                let mut idx = c(0, 64);
                if n > 0 {
                    let (o, off) = match st.mem.get(a, n) {
                        Ok(v) => v,
                        Err(e) => return self.memviol(st, "memchr", a, e),
                    };
                    let order: Vec<u64> = if x == X::MemchrAligned { (0..n).rev().collect() } else { (0..n).collect() };
                    for i in order {
                        let q = eq(sbyte(o, off + i, &st.pc), nb);
                        disc = ite(q, c(1, 64), disc);
                        idx = ite(q, c(i as u128, 64), idx);
                    }
                }
                ret!(V::A(Rc::new(vec![exv(disc), exv(idx)])))
            }
            X::Strlen => {
                let a = carg!(0);
                let mut n = 0u64;
                loop {
                    let b = match st.mem.get(a + n, 1) {
                        Ok((o, off)) => sbyte(o, off, &st.pc),
                        Err(e) => return self.memviol(st, "strlen", a + n, e),
                    };
                    match is_const(b) {
                        Some(0) => break,
                        Some(_) => {}
                        None => {
                            let mut q = st.pc.clone();
                            if q.assume(eq(b, c(0, 8))) != Res::Unsat {
                                return Ctl::Kill("strlen over a possibly-NUL symbolic byte".into());
                            }
                        }
                    }
                    n += 1;
                }
                ret!(V::C(n))
            }
            X::Abort | X::Panic => {
                self.violate(st, "abort", 0, format!("abort in {}", self.m.funcs[fr.f as usize].dem), None);
                Ctl::Kill("violation".into())
            }
            X::AddO(s) | X::SubO(s) | X::MulO(s) => {
                let w = aw(0);
                let (a, b) = (arg!(0), arg!(1));
                let (ea, eb) = (vex(&a, w), vex(&b, w));
                let (r, o) = match x {
                    X::AddO(_) => {
                        let r = add(ea, eb);
                        let o = if s {
                            // same sign operands, different sign result
                            let (sa, sb, sr) = (extract(ea, w - 1, 1), extract(eb, w - 1, 1), extract(r, w - 1, 1));
                            and(not(xor(sa, sb)), xor(sa, sr))
                        } else {
                            match is_const(eb) {
                                Some(k) => ult(c(mask(w) - k, w), ea),
                                None => ult(r, ea),
                            }
                        };
                        (r, o)
                    }
                    X::SubO(_) => {
                        let r = sub(ea, eb);
                        let o = if s {
                            let (sa, sb, sr) = (extract(ea, w - 1, 1), extract(eb, w - 1, 1), extract(r, w - 1, 1));
                            and(xor(sa, sb), xor(sa, sr))
                        } else {
                            ult(ea, eb)
                        };
                        (r, o)
                    }
                    _ => {
                        let r = mul(ea, eb);
                        let op = if s { Op::SMulO } else { Op::UMulO };
                        let o = match (is_const(ea), is_const(eb), s) {
                            (None, Some(k), false) if k != 0 => ult(c(mask(w) / k, w), ea),
                            (Some(k), None, false) if k != 0 => ult(c(mask(w) / k, w), eb),
                            (_, Some(0), _) | (Some(0), _, _) => c(0, 1),
                            _ => bin2(op, ea, eb),
                        };
                        (r, o)
                    }
                };
                ret!(V::A(Rc::new(vec![exv(r), exv(o)])))
            }
            X::Umax | X::Umin | X::Smax | X::Smin => {
                let (a, b) = (arg!(0), arg!(1));
                if let (V::A(a), V::A(b)) = (&a, &b) {
                    let w = self.elw(ci.args[0].1);
                    let v: Vec<V> = (0..a.len()).map(|i| exv(minmax(x, vex(&a[i], w), vex(&b[i], w)))).collect();
                    ret!(V::A(Rc::new(v)));
                }
                let w = aw(0);
                ret!(exv(minmax(x, vex(&a, w), vex(&b, w))))
            }
            X::Fshl | X::Fshr => {
                let w = aw(0);
                let (a, b, s) = (vex(&arg!(0), w), vex(&arg!(1), w), arg!(2));
                let k = match vconst(&s) {
                    Some(k) => (k % w as u128) as u32,
                    None => {
                        let s = vex(&s, w);
                        let s = urem(s, c(w as u128, w));
                        let inv = sub(c(w as u128, w), s);
                        let r = if x == X::Fshl { or(shl(a, s), ite(eq(s, c(0, w)), c(0, w), lshr(b, inv))) } else { or(ite(eq(s, c(0, w)), c(0, w), shl(a, inv)), lshr(b, s)) };
                        ret!(exv(r));
                    }
                };
                let r = if x == X::Fshl {
                    if k == 0 {
                        a
                    } else {
                        concat(extract(a, 0, w - k), extract(b, w - k, k))
                    }
                } else if k == 0 {
                    b
                } else {
                    concat(extract(a, 0, k), extract(b, k, w - k))
                };
                ret!(exv(r))
            }
            X::Ctlz | X::Cttz | X::Ctpop => {
                let w = aw(0);
                let op = match x {
                    X::Ctlz => Op::Ctlz,
                    X::Cttz => Op::Cttz,
                    _ => Op::Ctpop,
                };
                if w == 0 {
                    return Ctl::Kill("vector ctz".into());
                }
                ret!(exv(un(op, vex(&arg!(0), w))))
            }
            X::Bswap => {
                let w = aw(0);
                let a = vex(&arg!(0), w);
                let mut acc = extract(a, 0, 8);
                for i in 1..w / 8 {
                    acc = concat(acc, extract(a, i * 8, 8));
                }
                ret!(exv(acc))
            }
            X::Bitrev => {
                let w = aw(0);
                let a = vex(&arg!(0), w);
                let mut acc = extract(a, 0, 1);
                for i in 1..w {
                    acc = concat(acc, extract(a, i, 1));
                }
                ret!(exv(acc))
            }
            X::Abs => {
                let w = aw(0);
                let a = vex(&arg!(0), w);
                ret!(exv(ite(slt(a, c(0, w)), sub(c(0, w), a), a)))
            }
            X::UaddSat => {
                let w = aw(0);
                let (a, b) = (vex(&arg!(0), w), vex(&arg!(1), w));
                let r = add(a, b);
                ret!(exv(ite(ult(r, a), c(u128::MAX, w), r)))
            }
            X::UsubSat => {
                let w = aw(0);
                if w == 0 {
                    let (a, b) = (arg!(0), arg!(1));
                    if let (V::A(a), V::A(b)) = (&a, &b) {
                        let w = self.elw(ci.args[0].1);
                        let v: Vec<V> = (0..a.len())
                            .map(|i| {
                                let (a, b) = (vex(&a[i], w), vex(&b[i], w));
                                exv(ite(ult(a, b), c(0, w), sub(a, b)))
                            })
                            .collect();
                        ret!(V::A(Rc::new(v)));
                    }
                }
                let (a, b) = (vex(&arg!(0), w), vex(&arg!(1), w));
                ret!(exv(ite(ult(a, b), c(0, w), sub(a, b))))
            }
            X::SaddSat | X::SsubSat => {
                let w = aw(0);
                let (a, b) = (vex(&arg!(0), w), vex(&arg!(1), w));
                let sub_ = x == X::SsubSat;
                let r = if sub_ { sub(a, b) } else { add(a, b) };
                let (sa, sb, sr) = (extract(a, w - 1, 1), extract(b, w - 1, 1), extract(r, w - 1, 1));
                let o = if sub_ { and(xor(sa, sb), xor(sa, sr)) } else { and(not(xor(sa, sb)), xor(sa, sr)) };
                let sat = ite(sa, c(1u128 << (w - 1), w), c(mask(w) >> 1, w));
                ret!(exv(ite(o, sat, r)))
            }
            X::Ucmp | X::Scmp => {
                let w = aw(0);
                let (a, b) = (vex(&arg!(0), w), vex(&arg!(1), w));
                let rw = match self.tk[ci.rt as usize] {
                    Tk::Int(w, _) => w,
                    _ => return Ctl::Kill("cmp".into()),
                };
                let lt = if x == X::Ucmp { ult(a, b) } else { slt(a, b) };
                ret!(exv(ite(lt, c(u128::MAX, rw), ite(eq(a, b), c(0, rw), c(1, rw)))))
            }
            X::IsConst => ret!(V::C(0)),
            X::Fabs => {
                let w = aw(0);
                let a = vex(&arg!(0), w);
                ret!(exv(and(a, c(mask(w) >> 1, w))))
            }
            X::FRound(m) => {
                let w = aw(0);
                let a = vex(&arg!(0), w);
                ret!(exv(frnd(m, a)))
            }
            X::FMinMax(mx) => {
                // a NaN operand gives the other one
                let w = aw(0);
                let (a, b) = (vex(&arg!(0), w), vex(&arg!(1), w));
                let first = if mx { fcmp(2, a, b) } else { fcmp(4, a, b) };
                let bnan = fcmp(8, b, b);
                ret!(exv(ite(or(first, bnan), a, b)))
            }
            X::MulSh => {
                // bits s.. of the 256-bit product (see ir.rs)
                let w = aw(0);
                let sh = carg!(2) as u32;
                let (a, b) = (vex(&arg!(0), w), vex(&arg!(1), w));
                let half = |x, hi: u32| zext(extract(x, 64 * hi, 64), 128);
                let up = |x| lshr(x, c(64, 128));
                let (al, ah, bl, bh) = (half(a, 0), half(a, 1), half(b, 0), half(b, 1));
                let ll = mul(al, bl);
                let (m1, m2) = (mul(ah, bl), mul(al, bh));
                let mid = add(add(up(ll), half(m1, 0)), half(m2, 0));
                let lo = concat(extract(mid, 0, 64), extract(ll, 0, 64));
                let hi = add(add(mul(ah, bh), up(m1)), add(up(m2), up(mid)));
                let r = match sh {
                    0 => lo,
                    1..=127 => concat(extract(hi, 0, sh), extract(lo, sh, 128 - sh)),
                    128..=255 => lshr(hi, c((sh - 128) as u128, 128)),
                    _ => c(0, 128),
                };
                ret!(exv(r))
            }
            X::Copysign => {
                let w = aw(0);
                let (a, b) = (vex(&arg!(0), w), vex(&arg!(1), w));
                ret!(exv(concat(extract(b, w - 1, 1), extract(a, 0, w - 1))))
            }
            X::FptouiSat | X::FptosiSat => {
                let a = arg!(0);
                let fw = aw(0);
                let tw = match self.tk[ci.rt as usize] {
                    Tk::Int(w, _) => w,
                    _ => return Ctl::Kill("fptoui".into()),
                };
                match vconst(&a) {
                    Some(k) => {
                        let f = if fw == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) };
                        let r = if x == X::FptouiSat {
                            (f as u128).min(mask(tw))
                        } else {
                            let hi = (mask(tw) >> 1) as i128;
                            ((f as i128).clamp(-hi - 1, hi) as u128) & mask(tw)
                        };
                        ret!(kv(r, tw))
                    }
                    None => {
                        let a = vex(&a, fw);
                        let pow = |k: u32| if fw == 32 { c(((2f64).powi(k as i32) as f32).to_bits() as u128, 32) } else { c((2f64).powi(k as i32).to_bits() as u128, 64) };
                        let neg = |e: Ex| xor(e, c(1u128 << (fw - 1), fw));
                        let r = if x == X::FptouiSat {
                            ite(fcmp(3, a, pow(tw)), c(mask(tw), tw), ite(fcmp(2, a, c(0, fw)), cast(Op::FPToUI, a, tw), c(0, tw)))
                        } else {
                            let lo = neg(pow(tw - 1));
                            ite(fcmp(3, a, pow(tw - 1)), c(mask(tw) >> 1, tw), ite(fcmp(5, a, lo), c(1u128 << (tw - 1), tw), ite(fcmp(8, a, a), c(0, tw), cast(Op::FPToSI, a, tw))))
                        };
                        ret!(exv(r))
                    }
                }
            }
            X::Expect | X::TlsAddr => ret!(arg!(0)),
            X::VReduceOr | X::VReduceAnd | X::VReduceAdd => {
                let w = self.elw(ci.args[0].1);
                match arg!(0) {
                    V::A(v) => {
                        let mut acc = vex(&v[0], w);
                        for e in &v[1..] {
                            let e = vex(e, w);
                            acc = match x {
                                X::VReduceOr => or(acc, e),
                                X::VReduceAnd => and(acc, e),
                                _ => add(acc, e),
                            };
                        }
                        ret!(exv(acc))
                    }
                    _ => Ctl::Kill("reduce".into()),
                }
            }
            X::ErrnoLoc => {
                let a = st.mem.alloc(Kind::Global, 4, u32::MAX);
                ret!(V::C(a))
            }
            X::RetZero => ret!(V::C(0)),
            X::RetLen => {
                let n = carg!(2);
                ret!(V::C(n))
            }
            X::FillZero | X::Clock => {
                let clock = x == X::Clock;
                let (a, n) = if clock { (carg!(1), 16) } else { (carg!(0), carg!(1)) };
                for i in 0..n {
                    match st.mem.get_mut(a + i, 1) {
                        Ok((o, off)) => o.write_b(off, c(0, 8)),
                        Err(e) => return self.memviol(st, "environment call", a, e),
                    }
                }
                ret!(V::C(if clock { 0 } else { n }))
            }
            // ---- harness interface
            X::Bytes => {
                let (a, n) = (carg!(0), carg!(1));
                for i in 0..n {
                    let e = match self.newvar(st, [u64::MAX; 4]) {
                        Some(e) => e,
                        None => return Ctl::Kill("more than 128 symbolic bytes".into()),
                    };
                    match st.mem.get_mut(a + i, 1) {
                        Ok((o, off)) => o.write_b(off, e),
                        Err(e) => return self.memviol(st, "rsym_bytes", a, e),
                    }
                }
                ret!(V::C(0))
            }
            X::Choice | X::Pick => {
                let n = carg!(0);
                let mut d = [0u64; 4];
                for i in 0..n.min(256) {
                    d[i as usize / 64] |= 1 << (i % 64);
                }
                let e = match self.newvar(st, d) {
                    Some(e) => e,
                    None => return Ctl::Kill("more than 128 symbolic bytes".into()),
                };
                if x == X::Pick {
                    // fork into n successors, each past the call
                    self.note_fork(st, n as usize);
                    let d = ci.d;
                    fr.pc += 1;
                    for k in 1..n {
                        let mut s2 = st.clone();
                        s2.pc.assume(eq(e, c(k as u128, 8)));
                        if let Some(d) = d {
                            Rc::make_mut(s2.frames.last_mut().unwrap()).regs[d as usize] = V::C(k);
                        }
                        self.stack.push(s2);
                    }
                    st.pc.assume(eq(e, c(0, 8)));
                    if let Some(d) = d {
                        Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = V::C(0);
                    }
                    return Ctl::Refetch;
                }
                ret!(V::E(e))
            }
            X::ByteIn => {
                let (a, n) = (carg!(0), carg!(1));
                let mut d = [0u64; 4];
                for i in 0..n {
                    match st.mem.get(a + i, 1) {
                        Ok((o, off)) => {
                            let b = o.byte(off);
                            d[b as usize / 64] |= 1 << (b % 64);
                        }
                        Err(e) => return self.memviol(st, "rsym_byte_in", a, e),
                    }
                }
                match self.newvar(st, d) {
                    Some(e) => ret!(V::E(e)),
                    None => Ctl::Kill("more than 128 symbolic bytes".into()),
                }
            }
            X::Assume => match arg!(0) {
                V::C(k) => {
                    if k & 1 == 1 {
                        ret!(V::C(0))
                    }
                    Ctl::Kill("assume".into())
                }
                V::E(e) => {
                    let mut q = st.pc.clone();
                    match st.pc.assume(e) {
                        Res::Sat => {
                            match q.assume(not(e)) {
                                Res::Sat => {
                                    self.res.killed_assume += 1;
                                    self.mass_pc(&q, &st.dom0);
                                }
                                Res::Unsat => {}
                                Res::Unknown => self.res.mass_unknown += 1,
                            }
                            ret!(V::C(0))
                        }
                        Res::Unsat => {
                            st.pc = q; // the failed attempt may have narrowed it
                            Ctl::Kill("assume".into())
                        }
                        Res::Unknown => Ctl::Kill("solver gave up on an assumption".into()),
                    }
                }
                _ => Ctl::Kill("assume arg".into()),
            },
            X::Check => {
                let id = carg!(1) as u32;
                self.res.asserts += 1;
                st.checks += 1;
                match arg!(0) {
                    V::C(k) => {
                        self.res.asserts_trivial += 1;
                        if k & 1 == 0 {
                            self.violate(st, "check", id, format!("check {} fails", id), None);
                            return Ctl::Kill("violation".into());
                        }
                        ret!(V::C(0))
                    }
                    V::E(e) => {
                        let bad = not(e);
                        let (mut atoms, mut vars) = st.pc.component(supp(bad));
                        atoms.push(bad);
                        vars |= supp(bad);
                        let mut m = st.pc.model;
                        // small joint domains are also decided by complete evaluation; Z3 must agree if it answers
                        let dv = st.pc.enumerate(&atoms, vars & !st.pc.single, 4096, 1);
                        let r = if let Some(sols) = &dv {
                            let d = if sols.is_empty() { Res::Unsat } else { Res::Sat };
                            match sol().query_light(&atoms, vars, &st.pc.doms, Some(&mut m[..])) {
                                Res::Unknown => {
                                    self.res.asserts_dom += 1;
                                    if let Some(s) = sols.first() {
                                        for (v, x) in s {
                                            m[*v as usize] = *x;
                                        }
                                    }
                                    d
                                }
                                r if r == d => {
                                    self.res.asserts_z3 += 1;
                                    r
                                }
                                _ => return Ctl::Kill(format!("Z3 and complete evaluation disagree on check {}", id)),
                            }
                        } else {
                            self.res.asserts_z3 += 1;
                            sol().query(&atoms, vars, &st.pc.doms, Some(&mut m[..]))
                        };
                        match r {
                            Res::Unsat => ret!(V::C(0)),
                            Res::Sat => {
                                let mm = m[..st.pc.doms.len()].to_vec();
                                self.violate(st, "check", id, format!("check {} fails", id), Some(mm));
                                match st.pc.assume(e) {
                                    Res::Sat => ret!(V::C(0)),
                                    _ => Ctl::Kill("violation".into()),
                                }
                            }
                            Res::Unknown => Ctl::Kill(format!("solver gave up on check {}", id)),
                        }
                    }
                    _ => Ctl::Kill("check arg".into()),
                }
            }
            X::Reach => {
                let id = carg!(0) as u32;
                *self.res.reach.entry(id).or_insert(0) += 1;
                ret!(V::C(0))
            }
            X::Observe => {
                let (a, n) = (carg!(0), carg!(1));
                let mut v = vec![];
                if n > 0 {
                    match st.mem.get(a, n) {
                        Ok((o, off)) => {
                            for i in 0..n {
                                v.push(sbyte(o, off + i, &st.pc));
                            }
                        }
                        Err(e) => return self.memviol(st, "rsym_observe", a, e),
                    }
                }
                Rc::make_mut(&mut st.obs).push((0, v));
                ret!(V::C(0))
            }
            X::IdealHash => {
                let (a, n) = (carg!(0), carg!(1));
                let mut v = vec![];
                if n > 0 {
                    match st.mem.get(a, n) {
                        Ok((o, off)) => {
                            for i in 0..n {
                                v.push(sbyte(o, off + i, &st.pc));
                            }
                        }
                        Err(e) => return self.memviol(st, "rsym_hash", a, e),
                    }
                }
                let mut succ = match self.ideal_succ(st, &v) {
                    Ok(s) => s,
                    Err(c) => return c,
                };
                let hv = |i: usize| V::C((i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15));
                let nh = st.hashed.len();
                if succ.len() > 1 {
                    self.note_fork(st, succ.len());
                }
                let d = match ci.d {
                    Some(d) => d,
                    None => return Ctl::Kill("rsym_hash result unused".into()),
                };
                let v = Rc::new(v);
                fr.pc += 1;
                let (pc0, w0) = succ.pop().unwrap();
                for (pc, w) in succ {
                    let mut s2 = st.clone();
                    s2.pc = pc;
                    Rc::make_mut(s2.frames.last_mut().unwrap()).regs[d as usize] = hv(w.unwrap_or(nh));
                    if w.is_none() {
                        Rc::make_mut(&mut s2.hashed).push(v.clone());
                    }
                    self.stack.push(s2);
                }
                st.pc = pc0;
                Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = hv(w0.unwrap_or(nh));
                if w0.is_none() {
                    Rc::make_mut(&mut st.hashed).push(v);
                }
                return Ctl::Refetch;
            }
            X::SipWrite => {
                // DefaultHasher: the state becomes an injective function of all bytes written so far.
                // Layout (pinned toolchain): v0 v2 v1 v3 | k0 k1 length tail ntail; the length, 0 at first and
                // used only modulo 256, holds the log number. Keys (RandomState) are not part of the function.
                let (h, a, n) = (carg!(0), carg!(1), carg!(2));
                let log = match st.mem.get(h, 72) {
                    Ok((o, off)) => (o.read_c64(off + 48, 8) >> 8) as usize,
                    Err(e) => return self.memviol(st, "sip", h, e),
                };
                let mut v = if log == 0 { vec![] } else { (*st.siplogs[log - 1]).clone() };
                if n > 0 {
                    match st.mem.get(a, n) {
                        Ok((o, off)) => {
                            for i in 0..n {
                                v.push(sbyte(o, off + i, &st.pc));
                            }
                        }
                        Err(e) => return self.memviol(st, "sip", a, e),
                    }
                }
                let mut succ = match self.ideal_succ(st, &v) {
                    Ok(s) => s,
                    Err(c) => return c,
                };
                let nh = st.hashed.len();
                if succ.len() > 1 {
                    self.note_fork(st, succ.len());
                }
                if ci.next.is_some() {
                    return Ctl::Kill("invoke of a hasher".into());
                }
                let v = Rc::new(v);
                fr.pc += 1;
                let put = |s: &mut State, w: Option<usize>| -> bool {
                    if w.is_none() {
                        Rc::make_mut(&mut s.hashed).push(v.clone());
                    }
                    Rc::make_mut(&mut s.siplogs).push(v.clone());
                    let id = (w.unwrap_or(nh) as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
                    let words = [id, 0, 0, 0, 0, 0, (s.siplogs.len() as u64) << 8, 0, 0];
                    match s.mem.get_mut(h, 72) {
                        Ok((o, off)) => {
                            for (i, w) in words.iter().enumerate() {
                                o.write_c(off + 8 * i as u64, 8, *w as u128);
                            }
                            true
                        }
                        Err(_) => false,
                    }
                };
                let (pc0, w0) = succ.pop().unwrap();
                for (pc, w) in succ {
                    let mut s2 = st.clone();
                    s2.pc = pc;
                    if !put(&mut s2, w) {
                        return Ctl::Kill("hasher memory".into());
                    }
                    self.stack.push(s2);
                }
                st.pc = pc0;
                if !put(st, w0) {
                    return Ctl::Kill("hasher memory".into());
                }
                return Ctl::Refetch;
            }
            X::ExpectPanic => {
                st.expect_panic = true;
                ret!(V::C(0))
            }
            X::HeapMark => {
                st.heap_mark = st.mem.count() as u64;
                ret!(V::C(0))
            }
            X::HeapCheck => {
                let id = carg!(0) as u32;
                let lo = (st.heap_mark + 16) << SLOT;
                let l: Vec<_> = st.mem.live_heap().into_iter().filter(|x| x.0 >= lo).collect();
                self.res.asserts += 1;
                self.res.asserts_trivial += 1;
                if !l.is_empty() {
                    let what = l.iter().take(4).map(|x| format!("{} bytes from {}", x.1, self.m.funcs[x.2 as usize].dem)).collect::<Vec<_>>().join(", ");
                    self.violate(st, "leak", id, format!("{} heap blocks still live: {}", l.len(), what), None);
                    return Ctl::Kill("violation".into());
                }
                ret!(V::C(0))
            }
            X::Conc => {
                let k = carg!(0);
                ret!(V::C(k))
            }
            X::Unsupported => {
                let n = match &ci.callee {
                    Callee::Ext(x) => self.exts.borrow()[*x as usize].1.clone(),
                    _ => "?".into(),
                };
                Ctl::Kill(format!("unmodelled external {} called from {}", n, self.m.funcs[fr.f as usize].dem))
            }
        }
    }
    fn ideal_succ(&mut self, st: &State, v: &[Ex]) -> Result<Vec<(Pc, Option<usize>)>, Ctl> {
        // one successor per previously hashed string it can equal, plus "fresh"
        let mut succ: Vec<(Pc, Option<usize>)> = vec![];
        let mut rest = Some(st.pc.clone());
        for (i, o) in st.hashed.iter().enumerate() {
            if o.len() != v.len() {
                continue;
            }
            let mut acc = c(1, 1);
            for k in 0..v.len() {
                acc = and(acc, eq(o[k], v[k]));
                if is_const(acc) == Some(0) {
                    break;
                }
            }
            let pc = rest.as_ref().unwrap();
            let mut yes = pc.clone();
            match yes.assume(acc) {
                Res::Sat => succ.push((yes, Some(i))),
                Res::Unsat => continue,
                Res::Unknown => return Err(Ctl::Kill("solver gave up on a hash equality".into())),
            }
            let mut no = pc.clone();
            match no.assume(not(acc)) {
                Res::Sat => rest = Some(no),
                Res::Unsat => {
                    rest = None;
                    break;
                }
                Res::Unknown => return Err(Ctl::Kill("solver gave up on a hash equality".into())),
            }
        }
        if let Some(pc) = rest {
            succ.push((pc, None));
        }
        Ok(succ)
    }
    fn newvar(&mut self, st: &mut State, d: Dom) -> Option<Ex> {
        if st.pc.doms.len() >= MAXV {
            return None;
        }
        st.dom0.push(d);
        let v = st.pc.add_var(d);
        Some(var(v))
    }
}

fn minmax(x: X, a: Ex, b: Ex) -> Ex {
    match x {
        X::Umax => ite(ult(a, b), b, a),
        X::Umin => ite(ult(a, b), a, b),
        X::Smax => ite(slt(a, b), b, a),
        _ => ite(slt(a, b), a, b),
    }
}

/// byte of an object; a byte whose value the path condition pins is returned as a constant
#[inline]
fn sbyte(o: &Obj, off: u64, pc: &Pc) -> Ex {
    match o.symbyte(off) {
        Some(e) => {
            if pc.esupp(e) == 0 {
                let k = p().eval(e, &pc.model);
                c(k, 8)
            } else {
                e
            }
        }
        None => c(o.byte(off) as u128, 8),
    }
}

fn take_edge(fr: &mut Frame, code: &Code, e: &Edge) {
    let n = e.phis.len();
    if n == 1 {
        let (d, o) = &e.phis[0];
        let v = match o {
            O::R(r) => fr.regs[*r as usize].clone(),
            O::C(k) => V::C(*k),
            O::K(v) => (**v).clone(),
        };
        fr.regs[*d as usize] = v;
    } else if n > 1 {
        let vals: Vec<V> = e
            .phis
            .iter()
            .map(|(_, o)| match o {
                O::R(r) => fr.regs[*r as usize].clone(),
                O::C(k) => V::C(*k),
                O::K(v) => (**v).clone(),
            })
            .collect();
        for ((d, _), v) in e.phis.iter().zip(vals) {
            fr.regs[*d as usize] = v;
        }
    }
    fr.pc = code.blocks[e.bb as usize];
}

fn icmp64(pr: u8, w: u32, x: u64, y: u64) -> bool {
    match pr {
        0 => x == y,
        1 => x != y,
        2 => x < y,
        3 => x <= y,
        4 => x > y,
        5 => x >= y,
        _ => {
            let (a, b) = (sx64(x, w), sx64(y, w));
            match pr {
                6 => a < b,
                7 => a <= b,
                8 => a > b,
                _ => a >= b,
            }
        }
    }
}

fn cast_v(k: u8, fw: u32, tw: u32, a: V) -> V {
    match k {
        K_BITCAST => a,
        K_TRUNC => match a {
            V::C(x) => V::C(x & m64(tw)),
            v => exv(extract(vex(&v, fw), 0, tw)),
        },
        K_ZEXT => match a {
            V::C(x) => kv(x as u128, tw),
            v => exv(zext(vex(&v, fw), tw)),
        },
        K_SEXT => match a {
            V::C(x) => kv(sext_to(x as u128, fw, tw), tw),
            v => exv(sext(vex(&v, fw), tw)),
        },
        _ => {
            let op = match k {
                K_UITOFP => Op::UIToFP,
                K_SITOFP => Op::SIToFP,
                K_FPTOUI => Op::FPToUI,
                K_FPTOSI => Op::FPToSI,
                K_FPEXT => Op::FPExt,
                _ => Op::FPTrunc,
            };
            exv(cast(op, vex(&a, fw), tw))
        }
    }
}

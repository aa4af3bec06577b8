//! Path conditions: exact per-byte domains for constraints whose free support is a
//! single byte, residual multi-byte constraints decided by Z3.
use crate::expr::*;
use crate::z3::{Res, Z3};
use std::collections::HashSet;

pub type Dom = [u64; 4];
pub const MAXV: usize = 128;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub q_fd: u64,      // branch feasibility decided by the byte-domain solver
    pub q_model: u64,   // decided by a (checked) cached or repaired model
    pub q_z3: u64,      // decided by Z3
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_ns: u64,
    pub audit: u64,     // domain-solver "infeasible" verdicts re-decided by Z3
    pub audit_bad: u64,
    pub path_z3: u64,   // complete path conditions confirmed sat by Z3
}

pub struct Sol {
    pub z3: Option<Z3>,
    pub st: Stats,
    pub audit_every: u64,
    audit_n: u64,
    audited: HashSet<u64>,
}
static mut SOL: Option<Sol> = None;
#[allow(static_mut_refs)]
pub fn sol() -> &'static mut Sol {
    unsafe {
        if SOL.is_none() {
            SOL = Some(Sol { z3: None, st: Stats::default(), audit_every: 1, audit_n: 0, audited: HashSet::new() });
        }
        SOL.as_mut().unwrap_unchecked()
    }
}
impl Sol {
    /// `query` with a small resource limit: for verdicts that are already decided by complete evaluation
    pub fn query_light(&mut self, atoms: &[Ex], vars: u128, doms: &[Dom], model: Option<&mut [u8]>) -> Res {
        self.z3().limit(Some(300_000));
        let r = self.query(atoms, vars, doms, model);
        self.z3().limit(None);
        r
    }
    pub fn z3(&mut self) -> &mut Z3 {
        if self.z3.is_none() {
            self.z3 = Some(Z3::new());
        }
        self.z3.as_mut().unwrap()
    }
    pub fn query(&mut self, atoms: &[Ex], vars: u128, doms: &[Dom], model: Option<&mut [u8]>) -> Res {
        let t = std::time::Instant::now();
        let r = self.z3().check(atoms, vars, doms, model);
        self.st.z3_ns += t.elapsed().as_nanos() as u64;
        if std::env::var("RSYM_QLOG").is_ok() && t.elapsed().as_millis() > 200 {
            eprintln!("slow query {:?} {:?}: {} atoms, last {}", t.elapsed(), r, atoms.len(), atoms.last().map(|a| show(*a).chars().take(400).collect::<String>()).unwrap_or_default());
        }
        match r {
            Res::Sat => self.st.z3_sat += 1,
            Res::Unsat => self.st.z3_unsat += 1,
            Res::Unknown => self.st.z3_unknown += 1,
        }
        r
    }
}

fn selfcheck() -> bool {
    static mut S: u8 = 2;
    unsafe {
        if S == 2 {
            S = std::env::var("RSYM_SELFCHECK").is_ok() as u8;
        }
        S == 1
    }
}

#[derive(Clone)]
pub struct Pc {
    pub doms: Vec<Dom>,
    pub single: u128,
    pub multi: Vec<Ex>,
    pub model: [u8; MAXV],
}

#[inline]
pub fn dcount(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
#[inline]
pub fn dhas(d: &Dom, v: u8) -> bool {
    d[v as usize >> 6] >> (v & 63) & 1 == 1
}
pub fn dvals(d: &Dom) -> Vec<u8> {
    let mut r = Vec::new();
    for i in 0..4 {
        let mut x = d[i];
        while x != 0 {
            let b = x.trailing_zeros();
            r.push((i as u32 * 64 + b) as u8);
            x &= x - 1;
        }
    }
    r
}
fn dfirst(d: &Dom) -> u8 {
    for i in 0..4 {
        if d[i] != 0 {
            return (i as u32 * 64 + d[i].trailing_zeros()) as u8;
        }
    }
    unreachable!()
}

impl Pc {
    pub fn new() -> Pc {
        Pc { doms: vec![], single: 0, multi: vec![], model: [0; MAXV] }
    }
    pub fn add_var(&mut self, d: Dom) -> u32 {
        let i = self.doms.len();
        self.model[i] = dfirst(&d);
        if dcount(&d) == 1 {
            self.single |= 1 << i;
        }
        self.doms.push(d);
        i as u32
    }
    #[inline]
    pub fn esupp(&self, e: Ex) -> u128 {
        supp(e) & !self.single
    }
    /// truth table of atom over variable v (others at their model/singleton value)
    fn truth(&mut self, atom: Ex, v: u32) -> Dom {
        let pure = supp(atom).count_ones() == 1;
        if pure {
            if let Some(t) = p().uncache.get(&atom) {
                return *t;
            }
        }
        let mut out = [0u64; 4];
        let old = self.model[v as usize];
        let vals = if pure { (0..=255u8).collect() } else { dvals(&self.doms[v as usize]) };
        for x in vals {
            self.model[v as usize] = x;
            if p().eval(atom, &self.model) == 1 {
                out[x as usize >> 6] |= 1 << (x & 63);
            }
        }
        self.model[v as usize] = old;
        if pure {
            p().uncache.insert(atom, out);
        }
        out
    }
    fn setdom(&mut self, v: u32, d: Dom) -> bool {
        self.doms[v as usize] = d;
        match dcount(&d) {
            0 => return false,
            1 => {
                self.single |= 1 << v;
                self.model[v as usize] = dfirst(&d);
            }
            _ => {}
        }
        true
    }
    /// add one atom; returns None if contradiction, Some(changed vars)
    fn add_atom(&mut self, atom: Ex) -> Option<u128> {
        let es = self.esupp(atom);
        match es.count_ones() {
            0 => {
                if p().eval(atom, &self.model) == 1 {
                    Some(0)
                } else {
                    None
                }
            }
            1 => {
                let v = es.trailing_zeros();
                let t = self.truth(atom, v);
                let d = self.doms[v as usize];
                let n = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
                if n == d {
                    return Some(0);
                }
                if !self.setdom(v, n) {
                    return None;
                }
                Some(1 << v)
            }
            _ => {
                if !self.multi.contains(&atom) {
                    self.multi.push(atom);
                }
                Some(es)
            }
        }
    }
    fn add_conj(&mut self, e: Ex, changed: &mut u128) -> bool {
        let n = nd(e);
        if n.op == Op::And && n.w == 1 {
            return self.add_conj(n.a, changed) && self.add_conj(n.b, changed);
        }
        match self.add_atom(e) {
            None => false,
            Some(c) => {
                *changed |= c;
                true
            }
        }
    }
    pub fn component(&self, seed: u128) -> (Vec<Ex>, u128) {
        let mut vars = seed & !self.single;
        let mut picked = vec![false; self.multi.len()];
        loop {
            let mut grew = false;
            for (i, m) in self.multi.iter().enumerate() {
                if !picked[i] && self.esupp(*m) & vars != 0 {
                    picked[i] = true;
                    vars |= self.esupp(*m);
                    grew = true;
                }
            }
            if !grew {
                break;
            }
        }
        let atoms: Vec<Ex> = (0..self.multi.len()).filter(|i| picked[*i]).map(|i| self.multi[i]).collect();
        let mut all = vars;
        for a in &atoms {
            all |= supp(*a);
        }
        (atoms, all)
    }
    /// Conjoin e. Sat: self updated with a valid model.
    pub fn assume(&mut self, e: Ex) -> Res {
        let s = sol();
        let sample = s.audit_every != 0;
        let before = if sample { Some(self.clone()) } else { None };
        let before2 = if selfcheck() { Some(self.clone()) } else { None };
        let (r, by_z3) = self.assume0(e);
        if let (Some(b), Res::Sat) = (before2, r) {
            let bad: Vec<Ex> = self.multi.iter().cloned().filter(|m| p().eval(*m, &self.model) != 1).collect();
            let badd: Vec<usize> = (0..self.doms.len()).filter(|v| !dhas(&self.doms[*v], self.model[*v])).collect();
            if !bad.is_empty() || !badd.is_empty() || p().eval(e, &self.model) != 1 {
                eprintln!("SELFCHECK assume {} bad {:?} badd {:?} model {:?}\n  before multi {:?} doms {:x?} single {:b} model {:?}\n after multi {:?} doms {:x?}", show(e), bad.iter().map(|x| show(*x)).collect::<Vec<_>>(), badd, &self.model[..self.doms.len()], b.multi.iter().map(|x| show(*x)).collect::<Vec<_>>(), b.doms, b.single, &b.model[..b.doms.len()], self.multi.iter().map(|x| show(*x)).collect::<Vec<_>>(), self.doms);
                std::process::exit(70);
            }
        }
        if let (Some(b), Res::Unsat, false) = (before, r, by_z3) {
            let (mut atoms, mut vars) = b.component(supp(e));
            atoms.push(e);
            vars |= supp(e);
            let mut h: u64 = e as u64;
            for v in 0..b.doms.len() {
                if vars >> v & 1 == 1 {
                    for w in b.doms[v] {
                        h = (h.rotate_left(7) ^ w).wrapping_mul(0x9E3779B97F4A7C15);
                    }
                }
            }
            for a in &atoms {
                h = (h.rotate_left(7) ^ *a as u64).wrapping_mul(0x9E3779B97F4A7C15);
            }
            if s.audited.insert(h) {
                s.audit_n += 1;
                if s.audit_n % s.audit_every == 0 {
                    s.st.audit += 1;
                    match s.query_light(&atoms, vars, &b.doms, None) {
                        Res::Unsat => {}
                        Res::Unknown => s.st.audit -= 1,
                        Res::Sat => {
                            s.st.audit_bad += 1;
                            eprintln!("rsym: domain verdict not confirmed by Z3: {}", show(e));
                        }
                    }
                }
            }
        }
        r
    }
    fn assume0(&mut self, e: Ex) -> (Res, bool) {
        let s = sol();
        if let Some(k) = is_const(e) {
            return (if k == 1 { Res::Sat } else { Res::Unsat }, false);
        }
        let mut changed = 0u128;
        if !self.add_conj(e, &mut changed) {
            s.st.q_fd += 1;
            return (Res::Unsat, false);
        }
        // propagate singletons; prune byte domains exactly for small equalities
        let mut touched = changed;
        let mut work = changed;
        let mut prune = true;
        loop {
            if work == 0 {
                if !prune {
                    break;
                }
                prune = false;
                match self.prune(touched) {
                    None => {
                        s.st.q_fd += 1;
                        return (Res::Unsat, false);
                    }
                    Some(0) => break,
                    Some(c) => {
                        work = c;
                        touched |= c;
                        prune = true;
                    }
                }
            }
            let mut next = 0u128;
            let mut i = 0;
            while i < self.multi.len() {
                let m = self.multi[i];
                if supp(m) & work != 0 {
                    let es = self.esupp(m);
                    if es.count_ones() <= 1 {
                        self.multi.swap_remove(i);
                        match self.add_atom(m) {
                            None => {
                                s.st.q_fd += 1;
                                return (Res::Unsat, false);
                            }
                            Some(c) => next |= c,
                        }
                        continue;
                    }
                }
                i += 1;
            }
            touched |= next;
            work = next;
        }
        if touched == 0 {
            s.st.q_fd += 1;
            return (Res::Sat, false);
        }
        // model validity
        let nv = self.doms.len();
        let mut bad_dom = 0u128;
        for v in 0..nv {
            if touched >> v & 1 == 1 && !dhas(&self.doms[v], self.model[v]) {
                bad_dom |= 1 << v;
                self.model[v] = dfirst(&self.doms[v]);
            }
        }
        // constraints mentioning a variable that has just become fixed must be re-examined too
        let mut seed = touched;
        for m in &self.multi {
            if supp(*m) & touched != 0 {
                seed |= self.esupp(*m);
            }
        }
        let (atoms, vars) = self.component(seed);
        if atoms.is_empty() {
            s.st.q_fd += 1;
            return (Res::Sat, false);
        }
        if self.holds(&atoms) {
            s.st.q_model += 1;
            return (Res::Sat, false);
        }
        // single-variable repair
        let ev = vars & !self.single;
        let order: Vec<u32> = (0..nv as u32).filter(|v| ev >> v & 1 == 1).collect();
        if atoms.len() <= 40 {
            for v in order.iter().filter(|v| bad_dom >> **v & 1 == 1).chain(order.iter().filter(|v| bad_dom >> **v & 1 == 0)) {
                let old = self.model[*v as usize];
                let vals = dvals(&self.doms[*v as usize]);
                let step = (vals.len() / 24).max(1);
                for x in vals.iter().step_by(step) {
                    self.model[*v as usize] = *x;
                    if self.holds(&atoms) {
                        s.st.q_model += 1;
                        return (Res::Sat, false);
                    }
                }
                self.model[*v as usize] = old;
            }
        }
        if let Some(sols) = self.enumerate(&atoms, ev, 20_000, 1) {
            s.st.q_fd += 1;
            return match sols.first() {
                None => (Res::Unsat, false),
                Some(m) => {
                    for (v, x) in m {
                        self.model[*v as usize] = *x;
                    }
                    (Res::Sat, false)
                }
            };
        }
        s.st.q_z3 += 1;
        let mut m = self.model;
        let r = s.query(&atoms, vars, &self.doms, Some(&mut m[..]));
        if r == Res::Sat {
            for v in 0..nv {
                if vars >> v & 1 == 1 {
                    self.model[v] = m[v];
                }
            }
            if !self.holds(&atoms) {
                eprintln!("rsym: Z3 model does not satisfy the constraints (encoding error)");
                for a in &atoms {
                    let v = p().eval(*a, &self.model);
                    eprintln!("   {} = {}", show(*a), v);
                }
                std::process::exit(70);
            }
        }
        (r, true)
    }
    /// All assignments of `vars` (over their byte domains) satisfying `atoms`; None if the
    /// product of the domains exceeds `limit`. Stops after `want` solutions.
    pub fn enumerate(&self, atoms: &[Ex], vars: u128, limit: u64, want: usize) -> Option<Vec<Vec<(u32, u8)>>> {
        let vs: Vec<u32> = (0..self.doms.len() as u32).filter(|v| vars >> v & 1 == 1).collect();
        let mut prod = 1u64;
        for v in &vs {
            prod = prod.saturating_mul(dcount(&self.doms[*v as usize]) as u64);
            if prod > limit {
                return None;
            }
        }
        let lists: Vec<Vec<u8>> = vs.iter().map(|v| dvals(&self.doms[*v as usize])).collect();
        let mut model = self.model;
        let mut out = vec![];
        for k in 0..prod {
            let mut k = k;
            for (j, v) in vs.iter().enumerate() {
                let l = lists[j].len() as u64;
                model[*v as usize] = lists[j][(k % l) as usize];
                k /= l;
            }
            p().new_gen();
            if atoms.iter().all(|m| p().ev(*m, &model) == 1) {
                out.push(vs.iter().map(|v| (*v, model[*v as usize])).collect());
                if out.len() >= want {
                    break;
                }
            }
        }
        Some(out)
    }
    /// exact domain pruning for equalities over a small joint domain
    fn prune(&mut self, touched: u128) -> Option<u128> {
        let mut ch = 0u128;
        let cand: Vec<Ex> = self.multi.iter().cloned().filter(|m| nd(*m).op == Op::Eq && self.esupp(*m) & touched != 0).collect();
        for m in cand {
            let es = self.esupp(m);
            if es == 0 {
                continue;
            }
            if let Some(sols) = self.enumerate(&[m], es, 1024, usize::MAX) {
                for v in 0..self.doms.len() as u32 {
                    if es >> v & 1 == 1 {
                        let mut d = [0u64; 4];
                        for s in &sols {
                            for (w, x) in s {
                                if *w == v {
                                    d[*x as usize >> 6] |= 1 << (x & 63);
                                }
                            }
                        }
                        if d != self.doms[v as usize] {
                            ch |= 1 << v;
                            if !self.setdom(v, d) {
                                return None;
                            }
                        }
                    }
                }
            }
        }
        Some(ch)
    }
    pub fn holds(&self, atoms: &[Ex]) -> bool {
        p().new_gen();
        for a in atoms {
            if p().ev(*a, &self.model) != 1 {
                return false;
            }
        }
        true
    }
    /// concrete value if the expression is determined by singleton domains
    pub fn determined(&self, e: Ex) -> Option<u128> {
        if let Some(k) = is_const(e) {
            return Some(k);
        }
        if self.esupp(e) == 0 {
            return Some(p().eval(e, &self.model));
        }
        None
    }
    /// all feasible values of e (None: more than `limit`, or solver gave up)
    pub fn values(&mut self, e: Ex, limit: usize) -> Option<Vec<u128>> {
        if let Some(k) = self.determined(e) {
            return Some(vec![k]);
        }
        let es = self.esupp(e);
        let mut out: Vec<u128> = vec![];
        if es.count_ones() == 1 {
            let v = es.trailing_zeros();
            let mut m = self.model;
            for x in dvals(&self.doms[v as usize]) {
                m[v as usize] = x;
                let k = p().eval(e, &m);
                if !out.contains(&k) {
                    out.push(k);
                }
            }
            let touched = self.multi.iter().any(|a| self.esupp(*a) & es != 0);
            if touched {
                let w = width(e);
                out.retain(|k| {
                    let mut q = self.clone();
                    q.assume(eq(e, c(*k, w))) == Res::Sat
                });
            }
            if out.len() > limit {
                return None;
            }
            out.sort();
            return Some(out);
        }
        let w = width(e);
        let (atoms, vars) = self.component(es);
        let ev = vars & !self.single;
        if let Some(sols) = self.enumerate(&atoms, ev, 20_000, usize::MAX) {
            let mut m = self.model;
            let mut set = HashSet::new();
            for s in sols {
                for (v, x) in s {
                    m[v as usize] = x;
                }
                let k = p().eval(e, &m);
                if set.insert(k) {
                    out.push(k);
                    if out.len() > limit {
                        return None;
                    }
                }
            }
            out.sort();
            return Some(out);
        }
        let mut q = self.clone();
        loop {
            let k = p().eval(e, &q.model);
            out.push(k);
            if out.len() > limit {
                return None;
            }
            match q.assume(not(eq(e, c(k, w)))) {
                Res::Sat => {}
                Res::Unsat => break,
                Res::Unknown => return None,
            }
        }
        out.sort();
        Some(out)
    }
}

//! Textual LLVM IR reader. Function bodies are compiled lazily to a compact form.
use std::cell::{OnceCell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

use crate::expr::{Ex, Op};

pub type Tid = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Tid),
    Struct(Vec<Tid>, bool),
    Vec(u32, Tid),
    Other,
}
pub struct TyInfo {
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

/// runtime value
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(Ex),
    B(Box<u128>),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(u64),
    K(Rc<V>),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ext(u32), // builtin id
    Ptr(O),
}

#[derive(Debug)]
pub struct Edge {
    pub bb: u32,
    pub phis: Box<[(u32, O)]>,
}

#[derive(Debug)]
pub struct CallI {
    pub d: Option<u32>,
    pub rt: Tid,
    pub callee: Callee,
    pub args: Box<[(O, Tid)]>,
    pub next: Option<Edge>, // invoke
}

#[derive(Debug)]
pub enum I {
    Bin(Op, Tid, u32, O, O), // elementwise on vectors
    Icmp(u8, Tid, u32, O, O),
    Fcmp(u32, Tid, u32, O, O),
    Fneg(Tid, u32, O),
    Cast(u8, Tid, Tid, u32, O),
    Gep(u32, O, i64, Box<[(O, u32, i64)]>),
    Load(Tid, u32, O),
    Store(Tid, O, O),
    Alloca(u32, u64, O),
    Select(Tid, u32, O, O, O),
    SelectV(Tid, u32, O, O, O),
    Call(Box<CallI>),
    Br(Edge),
    CondBr(O, Edge, Edge),
    Switch(u32, O, Edge, Box<[(u128, Edge)]>),
    Ret(Option<O>),
    Unreachable,
    Resume,
    ExtractV(u32, O, Box<[u32]>),
    InsertV(u32, O, O, Box<[u32]>),
    ExtractE(Tid, u32, O, O),
    InsertE(u32, O, O, O),
    Shuffle(u32, O, O, Box<[i64]>, u32, u32),
    Rmw(u8, Tid, u32, O, O),
    CmpXchg(Tid, u32, O, O, O),
    Copy(u32, O),
    Nop,
}

// cast kinds
pub const K_TRUNC: u8 = 0;
pub const K_ZEXT: u8 = 1;
pub const K_SEXT: u8 = 2;
pub const K_BITCAST: u8 = 3; // also ptrtoint/inttoptr of same width
pub const K_UITOFP: u8 = 4;
pub const K_SITOFP: u8 = 5;
pub const K_FPTOUI: u8 = 6;
pub const K_FPTOSI: u8 = 7;
pub const K_FPEXT: u8 = 8;
pub const K_FPTRUNC: u8 = 9;

pub struct Code {
    pub nregs: u32,
    pub code: Vec<I>,
    pub blocks: Vec<u32>,     // bb -> first instruction
    pub bbn: Vec<u32>,        // unused per instruction
    pub nparams: u32,
}
pub struct Func {
    pub name: String,
    pub dem: String,
    pub text: Option<(usize, usize)>,
    pub code: OnceCell<Rc<Code>>,
    pub ret: Tid,
    pub params: Vec<Tid>,
    pub stub: u8,
}
pub struct Global {
    pub name: String,
    pub ty: Tid,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
}
pub struct Module {
    pub text: String,
    pub types: RefCell<Vec<TyInfo>>,
    tmap: RefCell<HashMap<Ty, Tid>>,
    named: RefCell<HashMap<String, Tid>>,
    named_src: HashMap<String, (usize, usize)>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub alias: HashMap<String, String>,
}

pub const SLOT: u32 = 24;
pub const FN_BASE: u64 = 1 << 62;
pub const EXT_BASE: u64 = 3 << 60;

pub fn gaddr(i: u32) -> u64 {
    (i as u64 + 16) << SLOT
}

struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}

fn die(msg: &str, ctx: &str) -> ! {
    eprintln!("rsym: IR parse error: {}: {}", msg, &ctx.chars().take(300).collect::<String>());
    std::process::exit(70)
}

impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Cur<'a> {
        Cur { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            // whole word check
            let l = t.as_bytes()[t.len() - 1];
            if l.is_ascii_alphanumeric() {
                if let Some(n) = self.s.get(self.i + t.len()) {
                    if n.is_ascii_alphanumeric() || *n == b'_' || *n == b'.' {
                        return false;
                    }
                }
            }
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            die(&format!("expected `{}` at {}", t, self.rest()), self.all());
        }
    }
    fn rest(&self) -> &str {
        std::str::from_utf8(&self.s[self.i..]).unwrap_or("?")
    }
    fn all(&self) -> &str {
        std::str::from_utf8(self.s).unwrap_or("?")
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'.' || self.s[self.i] == b'-' || self.s[self.i] == b'$') {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peekword(&mut self) -> &'a str {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    /// name after % or @ (sigil already consumed)
    fn name(&mut self) -> &'a str {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = std::str::from_utf8(&self.s[st..self.i]).unwrap();
            self.i += 1;
            r
        } else {
            self.word()
        }
    }
    /// skip a balanced (...) group, cursor at '('
    fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn cstr(&mut self) -> Vec<u8> {
        // at c"
        self.i += 2;
        let mut out = vec![];
        loop {
            let ch = self.s[self.i];
            self.i += 1;
            match ch {
                b'"' => return out,
                b'\\' => {
                    if self.s[self.i] == b'\\' {
                        out.push(b'\\');
                        self.i += 1;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                        out.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 2;
                    }
                }
                _ => out.push(ch),
            }
        }
    }
}

const ATTRS: &[&str] = &[
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "zeroext", "signext", "inreg", "returned", "nofree", "nest", "immarg", "writable", "dead_on_unwind", "allocalign", "allocptr", "swiftself", "noext", "dead_on_return",
];
const PATTRS: &[&str] = &["dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "captures", "align", "elementtype", "initializes", "nofpclass", "byref", "inalloca", "preallocated"];

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
            eprintln!("rsym: {}: {}", path, e);
            std::process::exit(70)
        });
        let text = wide_products(text);
        let mut m = Module {
            text: String::new(),
            types: RefCell::new(vec![]),
            tmap: Default::default(),
            named: Default::default(),
            named_src: Default::default(),
            funcs: vec![],
            fmap: Default::default(),
            globals: vec![],
            gmap: Default::default(),
            alias: Default::default(),
        };
        m.intern(Ty::Void);
        let b = text.as_bytes();
        let mut pos = 0;
        let mut fsrc: Vec<(usize, usize, bool)> = vec![];
        let mut gsrc = vec![];
        while pos < b.len() {
            let nl = text[pos..].find('\n').map(|x| x + pos).unwrap_or(b.len());
            let line = &text[pos..nl];
            match b[pos] {
                b'd' if line.starts_with("define ") => {
                    let end = text[nl..].find("\n}").unwrap() + nl;
                    fsrc.push((pos, end, true));
                    pos = end + 3;
                    continue;
                }
                b'd' if line.starts_with("declare ") => fsrc.push((pos, nl, false)),
                b'%' => {
                    let mut c = Cur::new(line);
                    c.i = 1;
                    let n = c.name().to_string();
                    c.expect("=");
                    c.expect("type");
                    m.named_src.insert(n, (pos + c.i, nl));
                }
                b'@' => gsrc.push((pos, nl)),
                _ => {}
            }
            pos = nl + 1;
        }
        m.text = text;
        // globals: names first
        let mut inits = vec![];
        for (s, e) in gsrc {
            let line = m.text[s..e].to_string();
            let mut c = Cur::new(&line);
            c.i = 1;
            let n = c.name().to_string();
            c.expect("=");
            let mut kind = 0;
            let mut external = false;
            loop {
                let w = c.peekword();
                match w {
                    "global" => {
                        c.word();
                        kind = 1;
                        break;
                    }
                    "constant" => {
                        c.word();
                        kind = 2;
                        break;
                    }
                    "alias" => {
                        c.word();
                        kind = 3;
                        break;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        c.word();
                    }
                    "" => die("global", &line),
                    _ => {
                        c.word();
                        if c.peek() == b'(' {
                            c.skip_paren();
                        }
                    }
                }
            }
            if kind == 3 {
                let t = line.rfind('@').unwrap();
                let mut c2 = Cur::new(&line[t..]);
                c2.i = 1;
                let tn = c2.name().to_string();
                m.alias.insert(n, tn);
                continue;
            }
            let id = m.globals.len() as u32;
            m.gmap.insert(n.clone(), id);
            m.globals.push(Global { name: n, ty: 0, init: None, constant: kind == 2 });
            inits.push((s + c.i, e, external));
        }
        for (s, e, d) in &fsrc {
            let hl = m.text[*s..*e].find('\n').map(|x| x + s).unwrap_or(*e);
            let line = m.text[*s..hl].to_string();
            let at = line.find('@').unwrap();
            let mut c = Cur::new(&line);
            c.i = at + 1;
            let n = c.name().to_string();
            let id = m.funcs.len() as u32;
            m.fmap.insert(n.clone(), id);
            m.funcs.push(Func { dem: demangle(&n), name: n, text: if *d { Some((*s, *e)) } else { None }, code: OnceCell::new(), ret: 0, params: vec![], stub: 0 });
        }
        for (i, (s, e, ext)) in inits.into_iter().enumerate() {
            let line = m.text[s..e].to_string();
            let mut c = Cur::new(&line);
            let t = m.ty(&mut c);
            m.globals[i].ty = t;
            if !ext {
                m.globals[i].init = Some((s + c.i, e));
            }
        }
        m
    }
    pub fn intern(&self, t: Ty) -> Tid {
        if let Some(i) = self.tmap.borrow().get(&t) {
            return *i;
        }
        let (size, align, offs) = match &t {
            Ty::Void | Ty::Other => (0, 1, vec![]),
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let s = b.next_power_of_two();
                (if *w == 128 { 16 } else if b <= 8 { if [1, 2, 4, 8].contains(&b) { b } else { s } } else { (b + 7) / 8 * 8 }, s.min(16), vec![])
            }
            Ty::Ptr | Ty::F64 => (8, 8, vec![]),
            Ty::F32 => (4, 4, vec![]),
            Ty::Arr(n, t) => {
                let (s, a) = self.sa(*t);
                (s * n, a, vec![])
            }
            Ty::Vec(n, t) => {
                let bits = match self.tyof(*t) {
                    Ty::Int(w) => w as u64,
                    _ => self.sa(*t).0 * 8,
                };
                let s = (bits * *n as u64 + 7) / 8;
                (s, s.next_power_of_two(), vec![])
            }
            Ty::Struct(f, packed) => {
                let mut off = 0u64;
                let mut al = 1;
                let mut offs = vec![];
                for t in f {
                    let (s, a) = self.sa(*t);
                    if !packed {
                        off = (off + a - 1) / a * a;
                        al = al.max(a);
                    }
                    offs.push(off);
                    off += s;
                }
                off = (off + al - 1) / al * al;
                (off, al, offs)
            }
        };
        let id = self.types.borrow().len() as Tid;
        self.types.borrow_mut().push(TyInfo { ty: t.clone(), size, align, offs });
        self.tmap.borrow_mut().insert(t, id);
        id
    }
    pub fn sa(&self, t: Tid) -> (u64, u64) {
        let ts = self.types.borrow();
        (ts[t as usize].size, ts[t as usize].align)
    }
    pub fn tyof(&self, t: Tid) -> Ty {
        self.types.borrow()[t as usize].ty.clone()
    }
    fn ty(&self, c: &mut Cur) -> Tid {
        let r = match c.peek() {
            b'%' => {
                c.i += 1;
                let n = c.name().to_string();
                if let Some(t) = self.named.borrow().get(&n) {
                    return *t;
                }
                let (s, e) = *self.named_src.get(&n).unwrap_or_else(|| die("named type", &n));
                let src = self.text[s..e].to_string();
                let mut c2 = Cur::new(&src);
                let t = if c2.peekword() == "opaque" { self.intern(Ty::Other) } else { self.ty(&mut c2) };
                self.named.borrow_mut().insert(n, t);
                t
            }
            b'[' => {
                c.i += 1;
                let n: u64 = c.word().parse().unwrap();
                c.expect("x");
                let t = self.ty(c);
                c.expect("]");
                self.intern(Ty::Arr(n, t))
            }
            b'{' => {
                c.i += 1;
                let f = self.tys(c, b'}');
                self.intern(Ty::Struct(f, false))
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    c.i += 1;
                    let f = self.tys(c, b'}');
                    c.expect(">");
                    self.intern(Ty::Struct(f, true))
                } else {
                    let n: u32 = c.word().parse().unwrap();
                    c.expect("x");
                    let t = self.ty(c);
                    c.expect(">");
                    self.intern(Ty::Vec(n, t))
                }
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => 0,
                    "ptr" => {
                        if c.peekword() == "addrspace" {
                            die("addrspace", c.all());
                        }
                        self.intern(Ty::Ptr)
                    }
                    "double" => self.intern(Ty::F64),
                    "float" => self.intern(Ty::F32),
                    "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" => self.intern(Ty::Other),
                    _ if w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()) && w.len() > 1 => self.intern(Ty::Int(w[1..].parse().unwrap())),
                    _ => die(&format!("type `{}`", w), c.all()),
                }
            }
        };
        // function type suffix in calls: "void (ptr, ...)" handled by the caller
        r
    }
    fn tys(&self, c: &mut Cur, close: u8) -> Vec<Tid> {
        let mut f = vec![];
        if c.peek() == close {
            c.i += 1;
            return f;
        }
        loop {
            f.push(self.ty(c));
            if c.peek() == b',' {
                c.i += 1;
                continue;
            }
            if c.peek() != close {
                die("struct type", c.all());
            }
            c.i += 1;
            return f;
        }
    }
    fn attrs(&self, c: &mut Cur) {
        loop {
            let p = c.peek();
            if p == b'#' {
                c.i += 1;
                c.word();
                continue;
            }
            if p == b'"' {
                c.name();
                if c.peek() == b'=' {
                    c.i += 1;
                    c.ws();
                    c.name();
                }
                continue;
            }
            let w = c.peekword();
            if ATTRS.contains(&w) {
                c.word();
            } else if PATTRS.contains(&w) {
                c.word();
                if c.peek() == b'(' {
                    c.skip_paren();
                } else {
                    c.word();
                }
            } else {
                return;
            }
        }
    }
    pub fn zero(&self, t: Tid) -> V {
        match self.tyof(t) {
            Ty::Arr(n, e) => V::A(Rc::new((0..n).map(|_| self.zero(e)).collect())),
            Ty::Vec(n, e) => V::A(Rc::new((0..n).map(|_| self.zero(e)).collect())),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|e| self.zero(*e)).collect())),
            _ => V::C(0),
        }
    }
    pub fn faddr(&self, n: &str) -> Option<u64> {
        let n = self.alias.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(i) = self.fmap.get(n) {
            return Some(FN_BASE + ((*i as u64) << 4));
        }
        self.gmap.get(n).map(|i| gaddr(*i))
    }
    /// constant of type t
    fn konst(&self, c: &mut Cur, t: Tid) -> V {
        match c.peek() {
            b'@' => {
                c.i += 1;
                let n = c.name();
                match self.faddr(n) {
                    Some(a) => V::C(a),
                    None => die("unknown symbol", n),
                }
            }
            b'c' if c.s[c.i + 1] == b'"' => {
                let b = c.cstr();
                V::A(Rc::new(b.into_iter().map(|x| V::C(x as u64)).collect()))
            }
            b'[' | b'{' => {
                let close = if c.peek() == b'[' { b']' } else { b'}' };
                c.i += 1;
                self.kagg(c, close)
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    c.i += 1;
                    let r = self.kagg(c, b'}');
                    c.expect(">");
                    r
                } else {
                    self.kagg(c, b'>')
                }
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => V::C(1),
                    "false" | "null" => V::C(0),
                    "none" => V::C(0),
                    "undef" | "poison" | "zeroinitializer" => self.zero(t),
                    "splat" => {
                        c.expect("(");
                        let et = self.ty(c);
                        let v = self.konst(c, et);
                        c.expect(")");
                        match self.tyof(t) {
                            Ty::Vec(n, _) => V::A(Rc::new(vec![v; n as usize])),
                            _ => die("splat", c.all()),
                        }
                    }
                    "getelementptr" => {
                        loop {
                            let w = c.peekword();
                            if ["inbounds", "nuw", "nusw", "inrange"].contains(&w) {
                                c.word();
                                if c.peek() == b'(' && w == "inrange" {
                                    c.skip_paren();
                                }
                            } else {
                                break;
                            }
                        }
                        c.expect("(");
                        let st = self.ty(c);
                        c.expect(",");
                        let pt = self.ty(c);
                        let base = self.konst(c, pt);
                        let mut idx = vec![];
                        while c.peek() == b',' {
                            c.i += 1;
                            let it = self.ty(c);
                            let v = self.konst(c, it);
                            let iw = match self.tyof(it) {
                                Ty::Int(w) => w,
                                _ => 64,
                            };
                            idx.push((v, iw));
                        }
                        c.expect(")");
                        let mut off = 0i64;
                        let mut cur = st;
                        for (n, (v, iw)) in idx.into_iter().enumerate() {
                            let k = match v {
                                V::C(k) => crate::expr::sx(k as u128, iw) as i64,
                                _ => die("gep const", c.all()),
                            };
                            if n == 0 {
                                off += k * self.sa(st).0 as i64;
                            } else {
                                let (o, nt) = self.step(cur, k);
                                off += o;
                                cur = nt;
                            }
                        }
                        match base {
                            V::C(b) => V::C(b.wrapping_add(off as u64)),
                            _ => die("gep base", c.all()),
                        }
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" => {
                        c.expect("(");
                        let ft = self.ty(c);
                        let v = self.konst(c, ft);
                        c.expect("to");
                        let tt = self.ty(c);
                        c.expect(")");
                        if w == "trunc" {
                            if let (V::C(x), Ty::Int(n)) = (&v, self.tyof(tt)) {
                                return V::C(x & crate::expr::mask(n) as u64);
                            }
                        }
                        v
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while ["nuw", "nsw"].contains(&c.peekword()) {
                            c.word();
                        }
                        c.expect("(");
                        let ft = self.ty(c);
                        let a = self.konst(c, ft);
                        c.expect(",");
                        let ft = self.ty(c);
                        let b = self.konst(c, ft);
                        c.expect(")");
                        let iw = match self.tyof(ft) {
                            Ty::Int(n) => n,
                            _ => 64,
                        };
                        match (a, b) {
                            (V::C(a), V::C(b)) => {
                                let r = match w {
                                    "add" => a.wrapping_add(b),
                                    "sub" => a.wrapping_sub(b),
                                    "mul" => a.wrapping_mul(b),
                                    _ => a ^ b,
                                };
                                V::C(r & crate::expr::mask(iw) as u64)
                            }
                            _ => die("constexpr", c.all()),
                        }
                    }
                    "" => die(&format!("constant at `{}`", c.rest()), c.all()),
                    _ => {
                        let ty = self.tyof(t);
                        match ty {
                            Ty::Int(bits) => {
                                if bits <= 64 {
                                    let v: i128 = w.parse().unwrap_or_else(|_| die(&format!("int `{}`", w), c.all()));
                                    V::C((v as u128 & crate::expr::mask(bits)) as u64)
                                } else {
                                    let v: u128 = if let Some(n) = w.strip_prefix('-') {
                                        0u128.wrapping_sub(n.parse::<u128>().unwrap())
                                    } else {
                                        w.parse::<u128>().unwrap()
                                    };
                                    let v = v & crate::expr::mask(bits);
                                    V::B(Box::new(v))
                                }
                            }
                            Ty::F64 | Ty::F32 => {
                                let d = if let Some(h) = w.strip_prefix("0x") {
                                    f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| die("float", c.all())))
                                } else {
                                    let mut s = w.to_string();
                                    if c.i < c.s.len() && c.s[c.i] == b'+' {
                                        c.i += 1;
                                        s.push('+');
                                        s.push_str(c.word());
                                    }
                                    s.parse::<f64>().unwrap_or_else(|_| die(&format!("float `{}`", s), c.all()))
                                };
                                if ty == Ty::F64 {
                                    V::C(d.to_bits())
                                } else {
                                    V::C((d as f32).to_bits() as u64)
                                }
                            }
                            _ => die(&format!("constant `{}` of type {:?}", w, ty), c.all()),
                        }
                    }
                }
            }
        }
    }
    fn kagg(&self, c: &mut Cur, close: u8) -> V {
        let mut v = vec![];
        if c.peek() == close {
            c.i += 1;
            return V::A(Rc::new(v));
        }
        loop {
            let t = self.ty(c);
            v.push(self.konst(c, t));
            match c.peek() {
                b',' => c.i += 1,
                x if x == close => {
                    c.i += 1;
                    return V::A(Rc::new(v));
                }
                _ => die("aggregate", c.all()),
            }
        }
    }
    pub fn step(&self, t: Tid, k: i64) -> (i64, Tid) {
        match self.tyof(t) {
            Ty::Struct(f, _) => (self.types.borrow()[t as usize].offs[k as usize] as i64, f[k as usize]),
            Ty::Arr(_, e) | Ty::Vec(_, e) => (k * self.sa(e).0 as i64, e),
            x => {
                eprintln!("rsym: gep into {:?}", x);
                std::process::exit(70)
            }
        }
    }
    pub fn ginit(&self, g: &Global) -> V {
        match g.init {
            None => self.zero(g.ty),
            Some((s, e)) => {
                let line = &self.text[s..e];
                let mut c = Cur::new(line);
                self.konst(&mut c, g.ty)
            }
        }
    }
    pub fn code(&self, f: u32, ext: &dyn Fn(&str) -> Option<u32>) -> Rc<Code> {
        let fu = &self.funcs[f as usize];
        fu.code.get_or_init(|| Rc::new(self.compile(fu, ext))).clone()
    }

    fn compile(&self, fu: &Func, ext: &dyn Fn(&str) -> Option<u32>) -> Code {
        let (s, e) = fu.text.unwrap();
        let body = &self.text[s..e];
        let mut lines = body.split('\n');
        let head = lines.next().unwrap();
        let mut fp = FP { m: self, regs: HashMap::new(), n: 0, bbs: HashMap::new(), nbb: 0, ext };
        // params
        let at = head.find('@').unwrap();
        let mut c = Cur::new(head);
        c.i = at + 1;
        c.name();
        c.expect("(");
        let mut np = 0;
        let mut unnamed = 0;
        if c.peek() != b')' {
            loop {
                if c.eat("...") {
                    break;
                }
                self.ty(&mut c);
                self.attrs(&mut c);
                if c.peek() == b'%' {
                    c.i += 1;
                    let n = c.name();
                    fp.reg(n);
                } else {
                    fp.reg(&format!("{}", unnamed));
                }
                unnamed += 1;
                np += 1;
                if c.peek() == b',' {
                    c.i += 1;
                    continue;
                }
                break;
            }
        }
        // logical lines
        let mut logical: Vec<(bool, String)> = vec![]; // (is_label, text)
        for l in lines {
            if l.is_empty() || l.starts_with(';') || l.starts_with('}') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let name = if l.starts_with('"') { l[1..].split('"').next().unwrap() } else { l.split(':').next().unwrap() };
                logical.push((true, name.to_string()));
                continue;
            }
            if l.starts_with("    #dbg") || l.starts_with("  #dbg") {
                continue;
            }
            if l.starts_with("  ]") || l.starts_with("   ") {
                let k = logical.last_mut().unwrap();
                k.1.push(' ');
                k.1.push_str(l.trim());
                continue;
            }
            if l.trim_start().starts_with(';') {
                continue;
            }
            logical.push((false, l[2..].to_string()));
        }
        if !logical.first().map(|l| l.0).unwrap_or(true) {
            logical.insert(0, (true, format!("{}", unnamed)));
        }
        let mut cur = 0u32;
        // first pass: block ids, phis
        let mut phis: HashMap<u32, Vec<(u32, Vec<(u32, O)>)>> = HashMap::new();
        for (lab, t) in &logical {
            if *lab {
                cur = fp.bb(t);
            } else if t.contains("= phi ") {
                let mut c = Cur::new(t);
                c.expect("%");
                let d = c.name();
                let d = fp.reg(d);
                c.expect("=");
                c.expect("phi");
                while ["nnan", "ninf", "nsz", "fast", "contract", "reassoc", "arcp", "afn"].contains(&c.peekword()) {
                    c.word();
                }
                let ty = self.ty(&mut c);
                let mut inc = vec![];
                loop {
                    c.expect("[");
                    let o = fp.op(&mut c, ty);
                    c.expect(",");
                    c.expect("%");
                    let b = c.name();
                    let b = fp.bb(b);
                    c.expect("]");
                    inc.push((b, o));
                    if c.peek() == b',' {
                        c.i += 1;
                        if c.peek() != b'[' {
                            break;
                        }
                        continue;
                    }
                    break;
                }
                phis.entry(cur).or_default().push((d, inc));
            }
        }
        let mut code: Vec<I> = vec![];
        let mut blocks: Vec<u32> = vec![];
        let edge = |phis: &HashMap<u32, Vec<(u32, Vec<(u32, O)>)>>, from: u32, to: u32| -> Edge {
            let ph = match phis.get(&to) {
                None => vec![],
                Some(v) => v
                    .iter()
                    .map(|(d, inc)| {
                        let o = inc.iter().find(|(b, _)| *b == from).unwrap_or_else(|| die("phi edge", &fu.name)).1.clone();
                        (*d, o)
                    })
                    .collect(),
            };
            Edge { bb: to, phis: ph.into_boxed_slice() }
        };
        for (lab, t) in &logical {
            if *lab {
                cur = fp.bb(t);
                if blocks.len() <= cur as usize {
                    blocks.resize(cur as usize + 1, u32::MAX);
                }
                blocks[cur as usize] = code.len() as u32;
                continue;
            }
            let i = fp.inst(t, cur, &|f, to| edge(&phis, f, to));
            if let Some(i) = i {
                code.push(i);
            }
        }
        Code { nregs: fp.n, code, blocks, bbn: vec![], nparams: np }
    }
}

struct FP<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    n: u32,
    bbs: HashMap<String, u32>,
    nbb: u32,
    ext: &'a dyn Fn(&str) -> Option<u32>,
}

impl<'a> FP<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.n;
        self.n += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn bb(&mut self, n: &str) -> u32 {
        if let Some(r) = self.bbs.get(n) {
            return *r;
        }
        let r = self.nbb;
        self.nbb += 1;
        self.bbs.insert(n.to_string(), r);
        r
    }
    fn op(&mut self, c: &mut Cur, t: Tid) -> O {
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            return O::R(self.reg(n));
        }
        match self.m.konst(c, t) {
            V::C(k) => O::C(k),
            v => O::K(Rc::new(v)),
        }
    }
    fn top(&mut self, c: &mut Cur) -> (Tid, O) {
        let t = self.m.ty(c);
        let o = self.op(c, t);
        (t, o)
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        c.expect("label");
        c.expect("%");
        let n = c.name();
        self.bb(n)
    }
    fn flags(&self, c: &mut Cur) {
        const F: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "volatile", "atomic", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "weak"];
        while F.contains(&c.peekword()) {
            c.word();
        }
    }
    fn inst(&mut self, t: &str, cur: u32, edge: &dyn Fn(u32, u32) -> Edge) -> Option<I> {
        let m = self.m;
        let mut c = Cur::new(t);
        let c = &mut c;
        let mut d = u32::MAX;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            d = self.reg(n);
            c.expect("=");
        }
        let opc = c.word();
        let r = match opc {
            "phi" => return None,
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(c);
                let (ty, a) = self.top(c);
                c.expect(",");
                let b = self.op(c, ty);
                let op = match opc {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "fadd" => Op::FAdd,
                    "fsub" => Op::FSub,
                    "fmul" => Op::FMul,
                    "fdiv" => Op::FDiv,
                    _ => Op::FRem,
                };
                I::Bin(op, ty, d, a, b)
            }
            "fneg" => {
                self.flags(c);
                let (ty, a) = self.top(c);
                I::Fneg(ty, d, a)
            }
            "icmp" => {
                self.flags(c);
                let p = c.word();
                let (ty, a) = self.top(c);
                c.expect(",");
                let b = self.op(c, ty);
                let p = match p {
                    "eq" => 0,
                    "ne" => 1,
                    "ult" => 2,
                    "ule" => 3,
                    "ugt" => 4,
                    "uge" => 5,
                    "slt" => 6,
                    "sle" => 7,
                    "sgt" => 8,
                    "sge" => 9,
                    _ => die("icmp", t),
                };
                I::Icmp(p, ty, d, a, b)
            }
            "fcmp" => {
                self.flags(c);
                let p = c.word();
                let (ty, a) = self.top(c);
                c.expect(",");
                let b = self.op(c, ty);
                let p = match p {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    "true" => 15,
                    _ => die("fcmp", t),
                };
                I::Fcmp(p, ty, d, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                self.flags(c);
                let (ft, a) = self.top(c);
                c.expect("to");
                let tt = m.ty(c);
                let k = match opc {
                    "trunc" => K_TRUNC,
                    "zext" => K_ZEXT,
                    "sext" => K_SEXT,
                    "bitcast" => K_BITCAST,
                    "ptrtoint" => {
                        if m.sa(tt).0 < 8 {
                            K_TRUNC
                        } else if m.sa(tt).0 > 8 {
                            K_ZEXT
                        } else {
                            K_BITCAST
                        }
                    }
                    "inttoptr" => {
                        if m.sa(ft).0 < 8 {
                            K_ZEXT
                        } else if m.sa(ft).0 > 8 {
                            K_TRUNC
                        } else {
                            K_BITCAST
                        }
                    }
                    "uitofp" => K_UITOFP,
                    "sitofp" => K_SITOFP,
                    "fptoui" => K_FPTOUI,
                    "fptosi" => K_FPTOSI,
                    "fpext" => K_FPEXT,
                    _ => K_FPTRUNC,
                };
                I::Cast(k, ft, tt, d, a)
            }
            "getelementptr" => {
                self.flags(c);
                let st = m.ty(c);
                c.expect(",");
                let (_, base) = self.top(c);
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut curt = st;
                let mut n = 0;
                while c.peek() == b',' {
                    c.i += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    let (it, o) = self.top(c);
                    let iw = match m.tyof(it) {
                        Ty::Int(w) => w,
                        _ => die("vector gep", t),
                    };
                    let (es, nt) = if n == 0 {
                        (m.sa(st).0 as i64, st)
                    } else {
                        match (m.tyof(curt), &o) {
                            (Ty::Struct(..), O::C(k)) => {
                                let (o2, nt) = m.step(curt, *k as i64);
                                off += o2;
                                curt = nt;
                                n += 1;
                                continue;
                            }
                            (Ty::Arr(_, e), _) | (Ty::Vec(_, e), _) => (m.sa(e).0 as i64, e),
                            _ => die("gep", t),
                        }
                    };
                    match o {
                        O::C(k) => off = off.wrapping_add((crate::expr::sx(k as u128, iw) as i64).wrapping_mul(es)),
                        o => dynv.push((o, iw, es)),
                    }
                    curt = nt;
                    n += 1;
                }
                I::Gep(d, base, off, dynv.into_boxed_slice())
            }
            "load" => {
                self.flags(c);
                let ty = m.ty(c);
                c.expect(",");
                let (_, pp) = self.top(c);
                I::Load(ty, d, pp)
            }
            "store" => {
                self.flags(c);
                let (ty, v) = self.top(c);
                c.expect(",");
                let (_, pp) = self.top(c);
                I::Store(ty, v, pp)
            }
            "alloca" => {
                self.flags(c);
                let ty = m.ty(c);
                let mut cnt = O::C(1);
                if c.peek() == b',' {
                    let sv = c.i;
                    c.i += 1;
                    if c.peek() == b'i' {
                        cnt = self.top(c).1;
                    } else {
                        c.i = sv;
                    }
                }
                I::Alloca(d, m.sa(ty).0, cnt)
            }
            "select" => {
                self.flags(c);
                let (ct, cc) = self.top(c);
                c.expect(",");
                let (ty, a) = self.top(c);
                c.expect(",");
                let (_, b) = self.top(c);
                if matches!(m.tyof(ct), Ty::Vec(..)) {
                    I::SelectV(ty, d, cc, a, b)
                } else {
                    I::Select(ty, d, cc, a, b)
                }
            }
            "freeze" => {
                let (_, a) = self.top(c);
                I::Copy(d, a)
            }
            "fence" => I::Nop,
            "br" => {
                if c.peekword() == "label" {
                    let b = self.label(c);
                    I::Br(edge(cur, b))
                } else {
                    let (_, cc) = self.top(c);
                    c.expect(",");
                    let a = self.label(c);
                    c.expect(",");
                    let b = self.label(c);
                    I::CondBr(cc, edge(cur, a), edge(cur, b))
                }
            }
            "switch" => {
                let (ty, v) = self.top(c);
                c.expect(",");
                let db = self.label(c);
                c.expect("[");
                let w = match m.tyof(ty) {
                    Ty::Int(w) => w,
                    _ => die("switch", t),
                };
                let mut cases = vec![];
                while c.peek() != b']' {
                    let (_, k) = self.top(c);
                    c.expect(",");
                    let b = self.label(c);
                    let k = match k {
                        O::C(k) => k as u128,
                        O::K(v) => match &*v {
                            V::B(b) => **b,
                            _ => die("switch", t),
                        },
                        _ => die("switch", t),
                    };
                    cases.push((k, edge(cur, b)));
                }
                I::Switch(w, v, edge(cur, db), cases.into_boxed_slice())
            }
            "ret" => {
                if c.peekword() == "void" {
                    I::Ret(None)
                } else {
                    let (_, a) = self.top(c);
                    I::Ret(Some(a))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Resume,
            "landingpad" => I::Resume,
            "extractvalue" => {
                let (_, a) = self.top(c);
                let ix = self.idxs(c);
                I::ExtractV(d, a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.top(c);
                c.expect(",");
                let (_, b) = self.top(c);
                let ix = self.idxs(c);
                I::InsertV(d, a, b, ix)
            }
            "extractelement" => {
                let (ty, a) = self.top(c);
                c.expect(",");
                let (_, b) = self.top(c);
                I::ExtractE(ty, d, a, b)
            }
            "insertelement" => {
                let (_, a) = self.top(c);
                c.expect(",");
                let (_, v) = self.top(c);
                c.expect(",");
                let (_, b) = self.top(c);
                I::InsertE(d, a, v, b)
            }
            "shufflevector" => {
                let (ty, a) = self.top(c);
                c.expect(",");
                let (_, b) = self.top(c);
                c.expect(",");
                let mt = m.ty(c);
                let mv = m.konst(c, mt);
                let mask = match mv {
                    V::A(v) => v
                        .iter()
                        .map(|x| match x {
                            V::C(k) => *k as i64,
                            _ => 0,
                        })
                        .collect::<Vec<_>>(),
                    _ => die("shuffle", t),
                };
                let n = match m.tyof(ty) {
                    Ty::Vec(n, _) => n,
                    _ => die("shuffle", t),
                };
                I::Shuffle(d, a, b, mask.into_boxed_slice(), n, 0)
            }
            "atomicrmw" => {
                self.flags(c);
                let k = match c.word() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    _ => die("atomicrmw", t),
                };
                let (_, pp) = self.top(c);
                c.expect(",");
                let (ty, v) = self.top(c);
                I::Rmw(k, ty, d, pp, v)
            }
            "cmpxchg" => {
                self.flags(c);
                let (_, pp) = self.top(c);
                c.expect(",");
                let (ty, a) = self.top(c);
                c.expect(",");
                let (_, b) = self.top(c);
                I::CmpXchg(ty, d, pp, a, b)
            }
            "tail" | "notail" | "musttail" | "call" | "invoke" => {
                let invoke = opc == "invoke";
                if opc != "call" && opc != "invoke" {
                    c.expect("call");
                }
                self.flags(c);
                while ["fastcc", "coldcc", "ccc"].contains(&c.peekword()) {
                    c.word();
                }
                m.attrs(c);
                let rt = m.ty(c);
                if c.peek() == b'(' {
                    c.skip_paren(); // function type
                }
                let callee = if c.peek() == b'@' {
                    c.i += 1;
                    let n = c.name();
                    let n = m.alias.get(n).map(|s| s.as_str()).unwrap_or(n);
                    match (self.ext)(n) {
                        Some(u32::MAX) => return if d == u32::MAX { None } else { Some(I::Nop) },
                        Some(b) => Callee::Ext(b),
                        None => match m.fmap.get(n) {
                            Some(i) => Callee::Fn(*i),
                            None => die("callee", n),
                        },
                    }
                } else if c.peekword() == "asm" {
                    c.word();
                    let mut cons = String::new();
                    while c.peek() != b'(' {
                        if c.peek() == b'"' {
                            cons = c.name().to_string();
                        } else {
                            c.i += 1;
                        }
                    }
                    let _ = cons;
                    return if d == u32::MAX { None } else { die("asm", t) };
                } else {
                    let pt = m.intern(Ty::Ptr);
                    Callee::Ptr(self.op(c, pt))
                };
                c.expect("(");
                let mut args = vec![];
                if c.peek() != b')' {
                    loop {
                        if c.peekword() == "metadata" {
                            // skip metadata argument
                            while c.peek() != b',' && c.peek() != b')' {
                                c.i += 1;
                            }
                        } else {
                            let ty = m.ty(c);
                            m.attrs(c);
                            let o = self.op(c, ty);
                            args.push((o, ty));
                        }
                        if c.peek() == b',' {
                            c.i += 1;
                            continue;
                        }
                        break;
                    }
                }
                c.expect(")");
                let next = if invoke {
                    let k = t.rfind(" to label %").unwrap_or_else(|| die("invoke", t));
                    c.i = k + 4;
                    let b = self.label(c);
                    Some(edge(cur, b))
                } else {
                    None
                };
                I::Call(Box::new(CallI { d: if d == u32::MAX || rt == 0 { None } else { Some(d) }, rt, callee, args: args.into_boxed_slice(), next }))
            }
            _ => die(&format!("opcode `{}`", opc), t),
        };
        Some(r)
    }
    fn idxs(&mut self, c: &mut Cur) -> Box<[u32]> {
        let mut v = vec![];
        while c.peek() == b',' {
            c.i += 1;
            if c.peek() == b'!' {
                break;
            }
            v.push(c.word().parse().unwrap());
        }
        v.into_boxed_slice()
    }
}

pub fn demangle(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut parts: Vec<String> = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut l = 0;
            while i < b.len() && b[i].is_ascii_digit() {
                l = l * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + l > b.len() {
                return n.to_string();
            }
            let mut s = r[i..i + l].to_string();
            i += l;
            for (k, v) in [("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$C$", ","), ("$RF$", "&"), ("$BP$", "*"), ("$u7b$", "{"), ("$u7d$", "}"), ("$LP$", "("), ("$RP$", ")"), ("$u5b$", "["), ("$u5d$", "]"), ("$u3b$", ";"), ("$u27$", "'"), ("..", "::")] {
                s = s.replace(k, v);
            }
            if s.starts_with("_<") {
                s.remove(0);
            }
            parts.push(s);
        }
        if parts.last().map(|p| p.len() == 17 && p.starts_with('h')).unwrap_or(false) {
            parts.pop();
        }
        return parts.join("::");
    }
    n.to_string()
}

/// `trunc (lshr (mul (zext i128 x to i256), K), s) to i128` becomes `rsym_mulsh(x, K, s)`; any other i256 stays
/// and is refused when it is executed.
fn wide_products(text: String) -> String {
    if !text.contains("i256") {
        return text;
    }
    let mut out = String::with_capacity(text.len());
    let lines: Vec<&str> = text.split('\n').collect();
    let toks = |l: &str| -> Vec<String> { l.split(", !").next().unwrap_or("").split(|c| c == ' ' || c == ',').filter(|t| !t.is_empty() && !matches!(*t, "nuw" | "nsw" | "nneg" | "exact")).map(str::to_string).collect() };
    let mut i = 0;
    while i < lines.len() {
        if i + 3 < lines.len() && lines[i].contains(" = zext ") && lines[i].contains(" to i256") {
            let (a, b, c, d) = (toks(lines[i]), toks(lines[i + 1]), toks(lines[i + 2]), toks(lines[i + 3]));
            let ok = a.len() == 7 && a[3] == "i128" && b.len() == 6 && b[2] == "mul" && b[4] == a[0] && c.len() == 6 && c[2] == "lshr" && c[4] == b[0] && d.len() == 7 && d[2] == "trunc" && d[4] == c[0] && d[6] == "i128";
            if ok {
                out.push_str(&format!("  {} = call i128 @rsym_mulsh(i128 {}, i128 {}, i32 {})\n", d[0], a[4], b[5], c[5]));
                i += 4;
                continue;
            }
        }
        out.push_str(lines[i]);
        out.push('\n');
        i += 1;
    }
    out.pop();
    out.push_str("\ndeclare i128 @rsym_mulsh(i128, i128, i32)\n");
    out
}

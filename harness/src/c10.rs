//! C10: an alias means the node most recently anchored under that name.
use crate::sym::*;
use crate::util::*;
use serde_yaml::{Mapping, Value};
use std::collections::BTreeMap;

/// model of the anchors seen so far: (name, node), latest last
struct Model {
    text: Vec<u8>,
    seen: Vec<(u8, Value)>,
    undefined: bool,
    n: u64,
}
impl Model {
    fn new() -> Model {
        Model { text: Vec::with_capacity(96), seen: Vec::new(), undefined: false, n: 0 }
    }
    fn s(&mut self, t: &str) {
        self.text.extend_from_slice(t.as_bytes());
    }
    fn name(&mut self) -> u8 {
        let c = byte_in(b"ab");
        self.text.push(c);
        c
    }
    fn fresh(&mut self) -> Value {
        self.n += 1;
        let c = [b'0' + self.n as u8];
        self.text.extend_from_slice(&c);
        Value::from(self.n)
    }
    fn alias(&mut self) -> Value {
        self.s("*");
        let c = self.name();
        self.s(" ");
        match self.seen.iter().rev().find(|(n, _)| *n == c) {
            Some((_, v)) => v.clone(),
            None => {
                self.undefined = true;
                Value::Null
            }
        }
    }
    fn anchor(&mut self) -> u8 {
        self.s("&");
        let c = self.name();
        self.s(" ");
        c
    }
    /// a flow node; `kinds` limits what may be chosen
    fn node(&mut self, kinds: usize) -> Value {
        match pick(kinds) {
            0 => self.alias(),
            1 => {
                let a = self.anchor();
                let v = self.fresh();
                self.seen.push((a, v.clone()));
                v
            }
            2 => self.fresh(),
            3 => {
                // anchored sequence; the anchor is known inside only as a self reference, avoided here
                let a = self.anchor();
                let at = self.seen.len();
                self.s("[");
                let x = self.node(3);
                self.s(", ");
                let y = self.fresh();
                self.s("]");
                let v = Value::Sequence(vec![x, y]);
                // an inner anchor is more recent than the outer one
                self.seen.insert(at, (a, v.clone()));
                v
            }
            _ => {
                let a = self.anchor();
                let at = self.seen.len();
                self.s("{k: ");
                let x = self.node(3);
                self.s("}");
                let mut m = Mapping::new();
                m.insert("k".into(), x);
                let v = Value::Mapping(m);
                self.seen.insert(at, (a, v.clone()));
                v
            }
        }
    }
}
fn finish(m: &Model, want: Value) {
    let got = serde_yaml::from_slice::<Value>(&m.text);
    observe(&[got.is_ok() as u8]);
    if m.undefined {
        check(got.is_err(), 1);
        reach(2);
    } else {
        match got {
            Ok(v) => check(v == want, 2),
            Err(_) => check(false, 3),
        }
        reach(1);
    }
}

harnesses! {
    //@ q reach=1,2 audit=64 pathz3=8 | flow sequence of 4 nodes: alias, anchored scalar, plain; names from {a, b} symbolic (redefinition included)
    fn h_c10_scalars() {
        let mut m = Model::new();
        m.s("[");
        let mut v = Vec::new();
        for _ in 0..4 { v.push(m.node(3)); m.s(", "); }
        m.s("]");
        finish(&m, Value::Sequence(v));
    }
    //@ q reach=1,2 audit=64 pathz3=8 | three nodes incl. anchored sequences and mappings with inner anchors and aliases
    fn h_c10_nested() {
        let mut m = Model::new();
        m.s("[");
        let mut v = Vec::new();
        for _ in 0..3 {
            let before = m.seen.len();
            v.push(m.node(5));
            // a reference from inside a node to that node's own anchor is the self-reference case (h_c10_self)
            let _ = before;
            m.s(", ");
        }
        // keep to documents in which an inner alias does not name the enclosing, still open node
        assume(!self_ref(&m.text));
        m.s("]");
        finish(&m, Value::Sequence(v));
    }
    //@ q reach=1,2 audit=64 pathz3=8 | block mapping with anchors on keys and values, aliases as keys and values
    fn h_c10_keys() {
        let mut m = Model::new();
        m.s("x: ");
        let v0 = m.node(3);
        m.s("\n? ");
        let k1 = m.node(3);
        m.s("\n: ");
        let v1 = m.node(3);
        m.s("\n? [");
        let k2 = m.node(3);
        m.s("]\n: ");
        let v2 = m.node(3);
        m.s("\n");
        let mut w = Mapping::new();
        w.insert("x".into(), v0);
        w.insert(k1, v1);
        w.insert(Value::Sequence(vec![k2]), v2);
        finish(&m, Value::Mapping(w));
    }
    //@ q reach=1 | a node that contains an alias to itself is an error, whatever the surrounding
    fn h_c10_self() {
        let c = text_in::<2>(b"ab");
        assume(c[0] == c[1]);
        let (p, q, s) = one(&[("&", " [*", " ]"), ("- &", " {k: *", " }"), ("a: &", "\n  - b\n  - *", "\n"), ("&", " {*", " : b}")]);
        let t = [p.as_bytes(), &c[..1], q.as_bytes(), &c[1..], s.as_bytes()].concat();
        let r = serde_yaml::from_slice::<Value>(&t);
        observe(&[r.is_ok() as u8]);
        check(r.is_err(), 4);
        reach(1);
    }
    //@ q reach=1,2 audit=64 pathz3=8 | typed targets: struct, enum, list, map and option read through aliases
    fn h_c10_typed() {
        let a = text_in::<2>(b"ab");
        let x = text_in::<1>(b"xyz1~");
        let ok = a[0] == a[1];
        let w = |p: &str, q: &str, s: &str| [p.as_bytes(), &a[..1], b" ", q.as_bytes(), &x, s.as_bytes(), b" \n- *", &a[1..], b"\n"].concat();
        macro_rules! t { ($t:ty, $p:expr, $q:expr, $s:expr) => {{
            let d = w($p, $q, $s);
            // the same node written out twice
            let plain = [b"- ", $q.as_bytes(), &x, $s.as_bytes(), b" \n- ", $q.as_bytes(), &x, $s.as_bytes(), b"\n"].concat();
            let got = serde_yaml::from_slice::<Vec<$t>>(&d).ok();
            let want = serde_yaml::from_slice::<Vec<$t>>(&plain).ok();
            observe(&[got.is_some() as u8]);
            if ok { check(got == want, 5); reach(1) } else { check(got.is_none(), 6); reach(2) }
        }} }
        match pick(7) {
            0 => t!(String, "- &", "'", "'"),
            1 => t!(Point, "- &", "{x: 1, y: q", "}"),
            2 => t!(E, "- &", "!N q", ""),
            3 => t!(Vec<String>, "- &", "[p, q", "]"),
            4 => t!(BTreeMap<String, String>, "- &", "{k: q", "}"),
            5 => t!(Option<String>, "- &", "", ""),
            _ => t!(E, "- &", "!S {x: 2, y: q", "}"),
        }
    }
    //@ q reach=1 audit=16 pathz3=4 | 10 to 300 anchored nodes (scalars, lists or maps; distinct names, or each name used twice), then two aliases to chosen ones
    fn h_c10_many() {
        let n = one(&[10usize, 64, 127, 128, 129, 255, 256, 257, 300]);
        let twice = flag();
        let form = pick(3);
        let k = if twice { n / 2 } else { n };
        let mut t = String::with_capacity(8192);
        for i in 0..n {
            let name = i % k;
            match form { 0 => t += &format!("- &n{name} v{i}\n"), 1 => t += &format!("- &n{name} [v{i}]\n"), _ => t += &format!("- &n{name} {{k: v{i}}}\n") }
        }
        let (i, j) = (one(&[0usize, 1, k / 2, k - 2, k - 1]), one(&[0usize, k / 3, k - 1]));
        t += &format!("- *n{i}\n- *n{j}\n");
        let want = |i: usize| { let i = (i..n).step_by(k).last().unwrap(); let s = Value::from(format!("v{i}")); match form { 0 => s, 1 => Value::Sequence(vec![s]), _ => Value::Mapping([(Value::from("k"), s)].into_iter().collect()) } };
        match val(&t) {
            Ok(Value::Sequence(q)) => {
                check(q.len() == n + 2, 50);
                check(q[n] == want(i) && q[n + 1] == want(j), 51);
            }
            _ => check(false, 52),
        }
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=16 | 0 to 6 anchored nodes of 4 kinds, then an alias to one of 12 names (defined or not; prefixes, other case, longer) at 5 positions: the node of that name or an error
    fn h_c10_unknown() {
        const NAMES: [&str; 6] = ["a", "ab", "A", "a-", "1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];
        let n = pick(7);
        let kind = pick(4);
        let name = one(&["a", "ab", "A", "a-", "1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "b", "aB", "abc", "-", "11", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"]);
        let node = |i: usize| match (kind + i) % 4 { 0 => format!("n{i}"), 1 => format!("[n{i}]"), 2 => format!("{{k: n{i}}}"), _ => format!("'n{i}'") };
        let mut d = String::new();
        for (i, a) in NAMES[..n].iter().enumerate() {
            d += &format!("- &{a} {}\n", node(i));
        }
        let p = pick(5);
        d += &[format!("- *{name}\n"), format!("- [*{name} ]\n"), format!("- ? *{name}\n"), format!("- k: *{name}\n"), format!("- [[x, {{k: *{name} }}]]\n")][p];
        observe(d.as_bytes());
        match (serde_yaml::from_str::<Vec<Value>>(&d), NAMES[..n].iter().position(|a| *a == name)) {
            (Ok(mut v), Some(i)) => {
                check(v.len() == n + 1, 60);
                let x = val(&node(i)).unwrap();
                let seq = |x| Value::Sequence(vec![x]);
                let map = |k, x| Value::Mapping([(k, x)].into_iter().collect());
                let w = match p { 0 => x, 1 => seq(x), 2 => map(x, Value::Null), 3 => map("k".into(), x), _ => seq(Value::Sequence(vec!["x".into(), map("k".into(), x)])) };
                check(v.pop() == Some(w), 61);
                check(v.iter().enumerate().all(|(i, x)| *x == val(&node(i)).unwrap()), 62);
                reach(1)
            }
            (Err(e), None) => { check(e.to_string().contains("unknown anchor"), 63); reach(2) }
            _ => check(false, 64),
        }
    }
    //@ t reach=1,2 audit=1024 pathz3=64 | flow sequence of 6 nodes: alias, anchored scalar, plain; names symbolic
    fn h_c10_scalars6() {
        let mut m = Model::new();
        m.s("[");
        let mut v = Vec::new();
        for _ in 0..6 { v.push(m.node(3)); m.s(", "); }
        m.s("]");
        finish(&m, Value::Sequence(v));
    }
}
/// does some alias name the anchor of a node that is still open at that point?
fn self_ref(t: &[u8]) -> bool {
    let mut open: Option<u8> = None;
    for i in 0..t.len() {
        match t[i] {
            b'&' if i + 3 < t.len() && (t[i + 3] == b'[' || t[i + 3] == b'{') => open = Some(t[i + 1]),
            b']' | b'}' => open = None,
            b'&' => {
                // an inner anchor of the same name hides the open one
                if open == Some(t[i + 1]) {
                    open = None;
                }
            }
            b'*' => {
                if open == Some(t[i + 1]) {
                    return true;
                }
            }
            _ => {}
        }
    }
    false
}

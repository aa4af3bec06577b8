//! C17: duplicate keys are always rejected.
use crate::sym::*;
use crate::util::*;
use serde::Deserialize;
use serde_yaml::{Mapping, Value};
use std::collections::BTreeMap;

/// value of a key text read on its own, as the only element of a sequence
fn alone(t: &[u8]) -> Option<Value> {
    let d = [b"[" as &[u8], t, b"]"].concat();
    match serde_yaml::from_slice::<Value>(&d) {
        Ok(Value::Sequence(mut q)) if q.len() == 1 => q.pop(),
        _ => None,
    }
}
fn doc(a: &[u8], b: &[u8], form: usize) -> Vec<u8> {
    docv(a, b, form, ("1", "2"))
}
/// the values of the two entries
const VALS: &[(&str, &str)] = &[("1", "2"), ("~", "~"), ("1", "1"), ("''", "~"), ("[]", "{}"), ("!t", "!t x"), ("{a: 1}", "{b: 1}"), ("", ".nan")];
fn docv(a: &[u8], b: &[u8], form: usize, v: (&str, &str)) -> Vec<u8> {
    let (v, w) = (v.0.as_bytes(), v.1.as_bytes());
    match form {
        0 => [b"{" as &[u8], a, b": ", v, b", ", b, b": ", w, b"}"].concat(),
        1 => [a, b": ", v, b"\n", b, b": ", w, b"\n"].concat(),
        2 => [b"? " as &[u8], a, b"\n: ", v, b"\n? ", b, b"\n: ", w, b"\n"].concat(),
        3 => [b"- - {" as &[u8], a, b": 1, c: d, ", b, b": 2}\n"].concat(),
        4 => [b"k:\n  " as &[u8], a, b": 1\n  c: d\n  ", b, b": 2\n"].concat(),
        _ => [b"!t\n" as &[u8], a, b": {x: y}\n", b, b": ~\n"].concat(),
    }
}
fn dup(v: Result<Value, serde_yaml::Error>) -> Option<bool> {
    match v {
        Ok(_) => Some(false),
        Err(e) => {
            if e.to_string().contains("duplicate entry ") { Some(true) } else { None }
        }
    }
}
/// two keys in one mapping: rejected exactly when equal as values
fn two(a: &[u8], b: &[u8], form: usize) {
    two_with(a, b, form, VALS[0])
}
fn two_with(a: &[u8], b: &[u8], form: usize, vals: (&str, &str)) {
    let (x, y) = match (alone(a), alone(b)) {
        (Some(x), Some(y)) => (x, y),
        _ => return assume(false),
    };
    let d = docv(a, b, form, vals);
    let r = serde_yaml::from_slice::<Value>(&d);
    observe(&[r.is_ok() as u8]);
    match dup(r) {
        Some(r) => check(r == (x == y), 1),
        // rejected for another reason (not a key in this context)
        None => return reach(3),
    }
    if form < 3 {
        match serde_yaml::from_slice::<Mapping>(&d) {
            Ok(m) => {
                check(x != y && m.len() == 2, 2);
                if vals == VALS[0] {
                    check(m.get(&x) == Some(&Value::from(1)) && m.get(&y) == Some(&Value::from(2)), 4)
                }
            }
            Err(_) => check(x == y, 3),
        }
    }
    reach(if x == y { 1 } else { 2 });
}
#[derive(Debug, PartialEq, Deserialize)]
struct S {
    x: Option<i64>,
    #[serde(rename = "1")]
    one: Option<i64>,
    #[serde(rename = "~")]
    tilde: Option<i64>,
}
const SPELL: &[(&str, usize)] = &[("x", 0), ("'x'", 0), ("\"x\"", 0), ("\"\\x78\"", 0), ("! x", 0), ("!!str x", 0), ("1", 1), ("'1'", 1), ("!!str 1", 1), ("~", 2), ("\"~\"", 2), ("z", 3)];
const KEYS: &[&str] = &["a", "'a'", "\"\\x61\"", "!!str a", "! a", "!t a", "!t 'a'", "!u a", "1", "0x1", "0b1", "+1", "1.0", "'1'", "!!int 1", "!!float 1", "1e0", "~", "null", "''", "Null", "true", "True", "!!bool true", "[a]", "[ 'a' ]", "[a, ]", "[]", "{}", "{a: 1}", "{a: 0x1}", "{a: 1, b: 2}", "{b: 2, a: 1}", ".inf", "+.Inf", "-.inf", ".nan", ".NaN", "-0.0", "0.0", "0", "-0", "<<"];

harnesses! {
    //@ q reach=1,2 | every ordered pair of 43 key spellings (all kinds, quoted, tagged, collections) in 6 mapping forms
    fn h_c17_pairs() { let n = KEYS.len(); let a = pick(n); let b = pick(n); two(KEYS[a].as_bytes(), KEYS[b].as_bytes(), pick(6)) }
    //@ q reach=1,2 | every ordered pair of 43 key spellings with 7 other pairs of values (equal, null, empty, collections, tagged), flow mapping
    fn h_c17_vals() { let n = KEYS.len(); let a = pick(n); let b = pick(n); two_with(KEYS[a].as_bytes(), KEYS[b].as_bytes(), 0, VALS[1 + pick(VALS.len() - 1)]) }
    //@ q reach=1,2 audit=256 pathz3=64 | two plain or quoted keys of 2 symbolic characters each, flow mapping
    fn h_c17_sym2() { let a = text_in::<2>(b"01ax~.'\""); let b = text_in::<2>(b"01ax~.'\""); two(&a, &b, 0) }
    //@ q reach=1,2 audit=256 pathz3=64 | a key of 3 symbolic characters against 6 fixed keys, block and flow
    fn h_c17_sym3() { let a = text_in::<3>(b"01+xebo.~a"); two(&a, one(&["1", "0x1", "~", "1.0", "a", "'1'"]).as_bytes(), pick(2)) }
    //@ q reach=1 | three keys: any two equal ones at any positions are found, a mapping of distinct keys never is
    fn h_c17_three() {
        let k = text_in::<3>(b"ab1");
        let d = [b"{" as &[u8], &k[..1], b": 1, ", &k[1..2], b": 2, ", &k[2..], b": 3}"].concat();
        let r = serde_yaml::from_slice::<Value>(&d);
        observe(&[r.is_ok() as u8]);
        let eq = k[0] == k[1] || k[0] == k[2] || k[1] == k[2];
        match dup(r) { Some(x) => check(x == eq, 20), None => check(false, 21) }
        reach(1)
    }
    //@ q reach=1,2 | struct fields in 12 spellings: a repeated field is rejected, distinct ones are not; unknown fields may repeat
    fn h_c17_struct() {
        let (a, i) = one(SPELL);
        let (b, j) = one(SPELL);
        let d = doc(a.as_bytes(), b.as_bytes(), pick(3));
        let r = serde_yaml::from_slice::<S>(&d);
        observe(&[r.is_ok() as u8]);
        match r {
            Ok(s) => {
                check(i != j || i == 3, 30);
                let w = |k| if i == k { Some(1) } else if j == k { Some(2) } else { None };
                check(s == S { x: w(0), one: w(1), tilde: w(2) }, 31);
                reach(2)
            }
            Err(e) => {
                check(i == j && i != 3, 32);
                check(e.to_string().contains(["duplicate field `x`", "duplicate field `1`", "duplicate field `~`", "-"][i]), 33);
                reach(1)
            }
        }
    }
    //@ q reach=1 | duplicates below tags, sequences, mapping values, mapping keys, aliases and typed containers are found
    fn h_c17_nested() {
        let k = text_in::<2>(b"ab");
        let m = [b"{" as &[u8], &k[..1], b": 1, ", &k[1..], b": 2}"].concat();
        let (p, s): (&str, &str) = one(&[("", ""), ("[", "]"), ("x: ", ""), ("{? ", " : v}"), ("!t ", ""), ("- !t\n  - ", ""), ("- &x ", "\n- *x"), ("? ", "\n: v"), ("a: &x 1\n? *x\n: ", "")]);
        let d = [p.as_bytes(), &m, s.as_bytes()].concat();
        let r = serde_yaml::from_slice::<Value>(&d);
        observe(&[r.is_ok() as u8]);
        match dup(r) { Some(x) => check(x == (k[0] == k[1]), 40), None => check(false, 41) }
        let d = [b"a: [" as &[u8], &m, b"]"].concat();
        check(serde_yaml::from_slice::<BTreeMap<String, Vec<Value>>>(&d).is_ok() == (k[0] != k[1]), 42);
        check(serde_yaml::from_slice::<BTreeMap<String, Vec<Mapping>>>(&d).is_ok() == (k[0] != k[1]), 43);
        reach(1)
    }
    //@ q reach=1 | equal keys written by an alias
    fn h_c17_alias() {
        let k = text_in::<2>(b"ab1");
        let d = [b"- &x " as &[u8], &k[..1], b"\n- {*x : 1, ", &k[1..], b": 2}\n"].concat();
        match dup(serde_yaml::from_slice::<Value>(&d)) { Some(x) => check(x == (k[0] == k[1]), 50), None => check(false, 51) }
        reach(1)
    }
    //@ q reach=1,2 audit=16 pathz3=4 | mappings of 10 to 300 keys (strings, integers, lists) with a repeated key at chosen positions, Value, Mapping and struct targets
    fn h_c17_many() {
        let n = one(&[10usize, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 300]);
        let form = pick(3);
        let (i, j) = (one(&[0usize, 1, n / 2, n - 2]), one(&[n / 3, n / 2, n - 1]));
        let mut t = String::with_capacity(8192);
        for x in 0..n {
            let x = if x == j { i } else { x };
            match form { 0 => t += &format!("k{x}: 1\n"), 1 => t += &format!("{x}: 1\n"), _ => t += &format!("[{x}]: 1\n") }
        }
        check(dup(val(&t)) == Some(i != j), 60);
        match serde_yaml::from_str::<Mapping>(&t) { Ok(m) => check(i == j && m.len() == n, 61), Err(_) => check(i != j, 62) }
        // below a struct that knows none of the keys: ignored
        #[derive(Deserialize)]
        struct W { #[allow(dead_code)] v: Value }
        let d = format!("v:\n  {}", t.trim_end().replace('\n', "\n  "));
        check(serde_yaml::from_str::<W>(&d).is_ok() == (i == j), 63);
        reach(if i == j { 2 } else { 1 })
    }
    //@ q reach=1 | 1 to 5 distinct keys and one repeated (or not) at any place, each spelled plain, single-quoted, double-quoted, tagged or as an explicit key, flow and block, into Value, Mapping and a map
    fn h_c17_places() {
        let n = 2 + pick(4) as usize;
        let at = 1 + pick(n - 1) as usize; // this one repeats key `of`, or is its own
        let of = pick(at + 1) as usize;
        let block = flag();
        let (s, t) = (pick(5) as usize, pick(5) as usize);
        let mut d = String::new();
        for i in 0..n {
            let k = ["a", "b", "c", "d", "e"][if i == at { of } else { i }];
            let st = if i == at { t } else if i == of { s } else { 0 };
            let (p, q) = [("", ""), ("'", "'"), ("\"", "\""), ("!!str ", ""), ("? ", if block { "\n" } else { " " })][st];
            d.push_str(if block { "" } else if i == 0 { "{" } else { ", " });
            d.push_str(p); d.push_str(k); d.push_str(q); d.push_str(": ");
            d.push_str(["1", "2", "[3]", "~", "x"][i]);
            if block { d.push('\n') }
        }
        if !block { d.push('}') }
        let r = serde_yaml::from_str::<Value>(&d);
        match dup(r) { Some(x) => check(x == (of != at), 40), None => check(false, 41) }
        match serde_yaml::from_str::<Mapping>(&d) { Ok(m) => check(of == at && m.len() == n, 42), Err(_) => check(of != at, 43) }
        #[derive(Deserialize)]
        #[allow(dead_code)]
        struct All { a: Option<Value>, b: Option<Value>, c: Option<Value>, d: Option<Value>, e: Option<Value> }
        check(serde_yaml::from_str::<All>(&d).is_ok() == (of == at), 44);
        let w = ["- 0\n- ", if block { "!t\n  " } else { "" }, &d.replace('\n', "\n  ")].concat();
        check(serde_yaml::from_str::<Value>(&w).is_ok() == (of == at), 45);
        reach(1)
    }
    //@ t reach=1,2 audit=4096 pathz3=1024 | two plain or quoted keys of 3 symbolic characters each, flow mapping
    fn h_c17_sym33() { let a = text_in::<3>(b"01ax~.'"); let b = text_in::<3>(b"01ax~.'"); two(&a, &b, 0) }
    //@ t reach=1,2 audit=4096 pathz3=1024 | a key of 4 symbolic characters against 6 fixed keys
    fn h_c17_sym4() { let a = text_in::<4>(b"01+xebo.~a"); two(&a, one(&["1", "0x1", "~", "1.0", "a", "'1'"]).as_bytes(), pick(2)) }
}

//! C31: entries and fields keep their order.
use crate::sym::*;
use crate::util::*;
use serde::de::{DeserializeOwned, Deserializer, MapAccess, Visitor};
use serde::ser::SerializeMap;
use serde::{Deserialize, Serialize, Serializer};
use serde_yaml::{Mapping, Value};
use std::fmt;

/// a map as the list of its entries
#[derive(Debug, Clone, PartialEq)]
struct Pairs<K, V>(Vec<(K, V)>);
impl<K: Serialize, V: Serialize> Serialize for Pairs<K, V> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in &self.0 {
            m.serialize_entry(k, v)?
        }
        m.end()
    }
}
impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for Pairs<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct P<K, V>(std::marker::PhantomData<(K, V)>);
        impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Visitor<'de> for P<K, V> {
            type Value = Pairs<K, V>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Pairs<K, V>, A::Error> {
                let mut v = Vec::new();
                while let Some(e) = a.next_entry()? {
                    v.push(e)
                }
                Ok(Pairs(v))
            }
        }
        d.deserialize_map(P(std::marker::PhantomData))
    }
}
type Plain = Pairs<Value, Value>;

fn in_order(m: &Mapping, want: &[(Value, Value)]) -> bool {
    m.len() == want.len() && m.iter().zip(want).all(|((k, v), (l, w))| k == l && order(v, w))
}
/// equal with the same order of entries everywhere
fn order(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Mapping(a), Value::Mapping(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| order(k, l) && order(x, y)),
        (Value::Sequence(a), Value::Sequence(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| order(x, y)),
        (Value::Tagged(a), Value::Tagged(b)) => a.tag == b.tag && order(&a.value, &b.value),
        _ => a == b,
    }
}
/// every way from a document and back keeps the order of `want`, its mapping
fn document(t: &str, want: &[(Value, Value)]) {
    let v = match val(t) { Ok(v) => v, Err(_) => return check(false, 1) };
    match &v {
        Value::Mapping(m) => check(in_order(m, want), 2),
        _ => return check(false, 3),
    }
    match serde_yaml::from_str::<Mapping>(t) { Ok(m) => check(in_order(&m, want), 4), Err(_) => check(false, 5) }
    match serde_yaml::from_str::<Plain>(t) { Ok(p) => check(same_pairs(&p.0, want), 6), Err(_) => check(false, 7) }
    value(&v, want);
    reach(1)
}
fn same_pairs(a: &[(Value, Value)], b: &[(Value, Value)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| order(k, l) && order(x, y))
}
/// every way from a Value keeps the order of `want`, its mapping
fn value(v: &Value, want: &[(Value, Value)]) {
    match Plain::deserialize(v) { Ok(p) => check(same_pairs(&p.0, want), 8), Err(_) => check(false, 9) }
    match serde_yaml::from_value::<Plain>(v.clone()) { Ok(p) => check(same_pairs(&p.0, want), 10), Err(_) => check(false, 11) }
    match serde_yaml::from_value::<Mapping>(v.clone()) { Ok(m) => check(in_order(&m, want), 12), Err(_) => check(false, 13) }
    match serde_yaml::to_value(v) { Ok(w) => check(order(&w, v), 14), Err(_) => check(false, 15) }
    match serde_yaml::from_value::<Value>(v.clone()) { Ok(w) => check(order(&w, v), 16), Err(_) => check(false, 17) }
    match serde_yaml::to_string(v) {
        Ok(t) => match serde_yaml::from_str::<Plain>(&t) { Ok(p) => check(same_pairs(&p.0, want), 18), Err(_) => check(false, 19) },
        Err(_) => check(false, 20),
    }
}
/// what a Rust value with these entries is written as
fn written<T: Serialize>(x: &T, want: &[(Value, Value)]) {
    match serde_yaml::to_value(x) {
        Ok(v) => match v.as_mapping() { Some(m) => { check(in_order(m, want), 21); value(&v, want) } None => check(false, 22) },
        Err(_) => check(false, 23),
    }
    match serde_yaml::to_string(x) {
        Ok(t) => match serde_yaml::from_str::<Plain>(&t) { Ok(p) => check(same_pairs(&p.0, want), 24), Err(_) => check(false, 25) },
        Err(_) => check(false, 26),
    }
    reach(1)
}
/// a key of some kind and its flow text
fn key() -> (&'static str, Value) {
    match pick(12) {
        0 => ("b", Value::from("b")),
        1 => ("a", Value::from("a")),
        2 => ("10", Value::from(10)),
        3 => ("9", Value::from(9)),
        4 => ("-1", Value::from(-1)),
        5 => ("~", Value::Null),
        6 => ("true", Value::from(true)),
        7 => ("1.5", Value::from(1.5)),
        8 => ("[b, a]", Value::from(vec!["b", "a"])),
        9 => ("{b: 1, a: 2}", Value::Mapping(vec![(Value::from("b"), Value::from(1)), (Value::from("a"), Value::from(2))].into_iter().collect())),
        10 => ("!t x", tagged("t", Value::from("x"))),
        _ => ("''", Value::from("")),
    }
}
fn item() -> (&'static str, Value) {
    match pick(4) {
        0 => ("1", Value::from(1)),
        1 => ("~", Value::Null),
        2 => ("{z: 1, y: 2}", Value::Mapping(vec![(Value::from("z"), Value::from(1)), (Value::from("y"), Value::from(2))].into_iter().collect())),
        _ => ("[{n: 1, m: 2}]", Value::Sequence(vec![Value::Mapping(vec![(Value::from("n"), Value::from(1)), (Value::from("m"), Value::from(2))].into_iter().collect())])),
    }
}
fn distinct(v: &[(Value, Value)]) -> bool {
    (0..v.len()).all(|i| v[..i].iter().all(|(k, _)| *k != v[i].0))
}
/// a document of these entries in flow or block style
fn text(flow: bool, e: &[(&str, &str)]) -> String {
    let mut t = String::from(if flow { "{" } else { "" });
    for (i, (k, v)) in e.iter().enumerate() {
        if flow {
            if i > 0 {
                t.push_str(", ")
            }
            t.push_str(k);
            t.push_str(" : ");
            t.push_str(v);
        } else {
            t.push_str("? ");
            t.push_str(k);
            t.push_str("\n: ");
            t.push_str(v);
            t.push('\n')
        }
    }
    if flow {
        t.push('}')
    }
    t
}
fn any_keys<const N: usize>(values: bool) {
    let mut e = Vec::new();
    let mut want = Vec::new();
    for _ in 0..N {
        let (k, kv) = key();
        let (v, vv) = if values { item() } else { ("1", Value::from(1)) };
        e.push((k, v));
        want.push((kv, vv));
    }
    assume(distinct(&want));
    document(&text(flag(), &e), &want)
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Fields {
    zeta: u8,
    alpha: u8,
    #[serde(rename = "10")]
    ten: u8,
    #[serde(rename = "9")]
    nine: u8,
    #[serde(rename = "~")]
    tilde: Option<u8>,
    #[serde(rename = "")]
    empty: bool,
    beta: u8,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Var {
    S { zeta: u8, alpha: u8, mid: u8 },
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Flat {
    zeta: u8,
    #[serde(flatten)]
    rest: Mapping,
    alpha: u8,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Single {
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    v: (Var, Vec<Var>),
}
fn trip<T: Serialize + DeserializeOwned + PartialEq>(x: &T, want: &[(Value, Value)]) {
    written(x, want);
    match serde_yaml::to_string(x) { Ok(t) => check(matches!(serde_yaml::from_str::<T>(&t), Ok(y) if y == *x), 27), Err(_) => check(false, 28) }
}
fn named(names: &[&str]) -> Vec<(Value, Value)> {
    names.iter().enumerate().map(|(i, n)| (Value::from(*n), Value::from(i))).collect()
}

harnesses! {
    //@ q reach=1 audit=64 pathz3=16 | documents of 3 entries with keys of 12 kinds, flow and block: Value, Mapping, any map type, and back
    fn h_c31_keys() {
        any_keys::<3>(false)
    }
    //@ q reach=1 audit=64 pathz3=16 | documents of 2 entries with keys of 12 and values of 4 kinds (nested mappings), flow and block
    fn h_c31_values() {
        any_keys::<2>(true)
    }
    //@ q reach=1 audit=64 pathz3=16 | documents of 4 entries keyed by different letters or digits, every order
    fn h_c31_order() {
        let b = text_in::<4>(b"12ab");
        let s: Vec<&str> = b.iter().map(|c| str_of(std::slice::from_ref(c))).collect();
        let e: Vec<(&str, &str)> = s.iter().map(|k| (*k, "1")).collect();
        let want: Vec<(Value, Value)> = b.iter().map(|c| (match c { b'1' => Value::from(1), b'2' => Value::from(2), b'a' => Value::from("a"), _ => Value::from("b") }, Value::from(1))).collect();
        assume(distinct(&want));
        document(&text(flag(), &e), &want)
    }
    //@ q reach=1 audit=64 pathz3=16 | mappings built by 3 insertions of 12 kinds of key: to text, to Value, to any map type; alone, tagged and in a sequence
    fn h_c31_built() {
        let mut m = Mapping::new();
        let mut want = Vec::new();
        for i in 0..3u8 {
            let (_, k) = key();
            m.insert(k.clone(), Value::from(i));
            want.push((k, Value::from(i)));
        }
        assume(distinct(&want));
        let v = Value::Mapping(m.clone());
        value(&v, &want);
        written(&m, &want);
        match serde_yaml::to_value(Pairs(want.clone())) { Ok(w) => check(order(&w, &v), 30), Err(_) => check(false, 31) }
        for outer in [tagged("t", v.clone()), Value::Sequence(vec![v.clone(), Value::Null]), Value::Mapping(vec![(Value::from(1), v.clone()), (v, Value::from(2))].into_iter().collect())] {
            match serde_yaml::to_string(&outer) { Ok(t) => check(matches!(val(&t), Ok(w) if order(&w, &outer)), 32), Err(_) => check(false, 33) }
            match serde_yaml::to_value(&outer) { Ok(w) => check(order(&w, &outer), 34), Err(_) => check(false, 35) }
            match serde_yaml::from_value::<Value>(outer.clone()) { Ok(w) => check(order(&w, &outer), 36), Err(_) => check(false, 37) }
            match Value::deserialize(&outer) { Ok(w) => check(order(&w, &outer), 38), Err(_) => check(false, 39) }
        }
    }
    //@ q reach=1 | fields of structs, struct variants, flattened and singleton_map structs in declaration order
    fn h_c31_fields() {
        trip(&Fields { zeta: 0, alpha: 1, ten: 2, nine: 3, tilde: Some(4), empty: true, beta: 6 }, &{ let mut w = named(&["zeta", "alpha", "10", "9", "~", "", "beta"]); w[5].1 = Value::from(true); w });
        let v = Var::S { zeta: 0, alpha: 1, mid: 2 };
        let want = named(&["zeta", "alpha", "mid"]);
        match serde_yaml::to_value(&v) { Ok(Value::Tagged(t)) => { check(t.tag == "S", 50); value(&t.value, &want) } _ => check(false, 51) }
        match serde_yaml::to_string(&v) { Ok(t) => check(t == "!S\nzeta: 0\nalpha: 1\nmid: 2\n", 52), Err(_) => check(false, 53) }
        let one = Value::Mapping(vec![(Value::from("S"), Value::Mapping(want.iter().cloned().collect()))].into_iter().collect());
        let s = Single { v: (v.clone(), vec![v]) };
        let w = vec![(Value::from("v"), Value::Sequence(vec![one.clone(), Value::Sequence(vec![one])]))];
        trip(&s, &w);
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | a flattened mapping of 2 entries of 12 kinds of key between two fields
    fn h_c31_flatten() {
        let (a, b) = (one(&["b", "a", "10", "9", "", "~"]), one(&["d", "c", "1", "null", "<<", "-"]));
        let rest: Vec<(Value, Value)> = vec![(Value::from(a), Value::from(1)), (Value::from(b), Value::from(2))];
        let mut want = vec![(Value::from("zeta"), Value::from(0))];
        want.extend(rest.iter().cloned());
        want.push((Value::from("alpha"), Value::from(3)));
        let x = Flat { zeta: 0, rest: rest.iter().cloned().collect(), alpha: 3 };
        trip(&x, &want);
        match serde_yaml::to_string(&x) { Ok(t) => check(matches!(serde_yaml::from_str::<Flat>(&t), Ok(y) if in_order(&y.rest, &rest)), 54), Err(_) => check(false, 55) }
    }
    //@ q reach=1 audit=64 pathz3=16 | the order of what a merge, a removal, a retain or an alias leaves (merged keys anywhere)
    fn h_c31_alias() {
        let (k, kv) = key();
        let (l, lv) = key();
        let (v, vv) = item();
        let want = vec![(kv, vv.clone()), (lv, vv)];
        assume(distinct(&want));
        let mut t = String::from("- &a ");
        t.push_str(&text(true, &[(k, v), (l, v)]));
        t.push_str("\n- *a\n- &b {q: *a}\n- *b\n");
        match val(&t) {
            Ok(d) => {
                let m: Mapping = want.iter().cloned().collect();
                let at = |v: &Value| matches!(v.as_mapping(), Some(x) if in_order(x, &want) && *x == m);
                check(at(&d[0]) && at(&d[1]) && at(&d[2]["q"]) && at(&d[3]["q"]), 56)
            }
            Err(_) => check(false, 57),
        }
        match serde_yaml::from_str::<Vec<Plain>>(&t[..t.len() - "\n- &b {q: *a}\n- *b\n".len()]) { Ok(p) => check(p.len() == 2 && same_pairs(&p[0].0, &want) && same_pairs(&p[1].0, &want), 58), Err(_) => check(false, 59) }
        reach(1)
    }
    //@ q reach=1 audit=16 pathz3=4 | mappings of 10 to 300 entries in falling, shuffled or rising order around 1 of 22 YAML characters, flow, block or built
    fn h_c31_many() {
        let n = one(&[10usize, 16, 17, 33, 127, 128, 255, 256, 300]);
        let b = text_in::<1>(YAML);
        let s = str_of(&b).to_owned();
        let ord = pick(3);
        let p = |i: usize| match ord { 0 => n - 1 - i, 1 => i * 7919 % 10007, _ => i };
        let want: Vec<(Value, Value)> = (0..n).map(|i| (if i == n / 2 { Value::from(s.as_str()) } else { Value::from(p(i)) }, Value::from(i))).collect();
        match pick(2) {
            0 => written(&Pairs(want.clone()), &want),
            _ => {
                let flow = flag();
                let mut t = String::from(if flow { "{" } else { "" });
                let want: Vec<(Value, Value)> = (0..n).map(|i| (if i == n / 2 { Value::from("x: y") } else { Value::from(p(i)) }, Value::from(i))).collect();
                for i in 0..n {
                    if i == n / 2 { t.push_str("'x: y'") } else { t.push_str(&p(i).to_string()) }
                    t.push_str(": ");
                    t.push_str(&i.to_string());
                    t.push_str(if flow { ", " } else { "\n" });
                }
                if flow { t.push('}') }
                document(&t, &want)
            }
        }
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | replacing the value of one of 3 entries, old and new value of 9 kinds, by insert, entry, index assignment, get_mut, or collecting pairs that repeat the key
    fn h_c31_replace() {
        let (old, new) = (any_kind(), any_kind());
        let i = pick(3);
        let keys = [Value::from("b"), Value::from(1), Value::from("a")];
        let mut want: Vec<(Value, Value)> = keys.iter().cloned().map(|k| (k, Value::from(0))).collect();
        want[i].1 = old;
        let mut m: Mapping = want.iter().cloned().collect();
        let k = keys[i].clone();
        match pick(6) {
            0 => { m.insert(k, new.clone()); }
            1 => { match m.entry(k) { serde_yaml::mapping::Entry::Occupied(mut e) => { e.insert(new.clone()); } _ => check(false, 60) } }
            2 => m[&k] = new.clone(),
            3 => { if let Some(x) = m.get_mut(&k) { *x = new.clone() } }
            4 => m = want.iter().cloned().chain([(k, new.clone())]).collect(),
            _ => m.extend([(k, new.clone())]),
        }
        want[i].1 = new;
        check(m.len() == 3, 61);
        for ((a, b), (x, y)) in m.iter().zip(&want) {
            check(a == x && order(b, y) && b == y, 62);
        }
        let v = Value::Mapping(m);
        match serde_yaml::to_string(&v) { Ok(t) => check(matches!(val(&t), Ok(w) if order(&w, &v)), 63), Err(_) => check(false, 64) }
        reach(1)
    }
    //@ t reach=1 audit=256 pathz3=64 | documents of 4 entries with keys of 12 kinds, flow and block
    fn h_c31_keys4() {
        any_keys::<4>(false)
    }
    //@ t reach=1 audit=256 pathz3=64 | documents of 3 entries with keys of 12 and values of 4 kinds, flow and block
    fn h_c31_values3() {
        any_keys::<3>(true)
    }
}

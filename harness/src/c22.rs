//! C22: collection lengths and struct fields are checked; ignored content skips one node.
use crate::sym::*;
use crate::util::*;
use serde::de::{DeserializeOwned, IgnoredAny};
use serde::Deserialize;
use serde_yaml::Value;
use std::collections::BTreeMap;

#[derive(Debug, PartialEq, Clone, Deserialize)]
struct S {
    a: i64,
    b: String,
    c: Option<bool>,
    #[serde(default)]
    d: Vec<i64>,
}
#[derive(Debug, PartialEq, Clone, Deserialize)]
#[serde(deny_unknown_fields)]
struct Deny {
    a: i64,
    b: String,
    c: Option<bool>,
    #[serde(default)]
    d: Vec<i64>,
}
#[derive(Debug, PartialEq, Clone, Deserialize)]
#[serde(default)]
struct Def {
    a: i64,
    b: String,
}
impl Default for Def {
    fn default() -> Def {
        Def { a: -1, b: "def".to_owned() }
    }
}
#[derive(Debug, PartialEq, Clone, Deserialize)]
enum V {
    T(i64, i64),
    S { a: i64, b: Option<i64> },
}
#[derive(Debug, PartialEq, Clone, Deserialize)]
struct T1(i64,);
#[derive(Debug, PartialEq, Clone, Deserialize)]
struct T3(i64, i64, i64);
/// from text, borrowed and owned Value
fn three<T: DeserializeOwned + PartialEq>(d: &str, want: Option<T>) {
    let a = serde_yaml::from_str::<T>(d).ok();
    check(a == want, 1);
    match val(d) {
        Ok(v) => {
            check(T::deserialize(&v).ok() == want, 2);
            check(serde_yaml::from_value::<T>(v).ok() == want, 3);
        }
        Err(_) => check(want.is_none(), 4),
    }
}
fn list(n: usize, flow: bool) -> String {
    let mut d = String::new();
    if flow {
        d.push('[');
    }
    for i in 0..n {
        d.push_str(if flow { if i > 0 { ", " } else { "" } } else { "- " });
        d.push_str(["10", "11", "12", "13", "14"][i]);
        if !flow {
            d.push('\n');
        }
    }
    if flow {
        d.push(']');
    }
    d
}
/// values for the fields: text, as i64, as String, as Option<bool>, as Vec<i64>
struct F(&'static str, Option<i64>, Option<&'static str>, Option<Option<bool>>, Option<&'static [i64]>);
const VALS: &[F] = &[
    F("1", Some(1), Some("1"), None, None),
    F("x", None, Some("x"), None, None),
    F("true", None, Some("true"), Some(Some(true)), None),
    F("~", None, Some("~"), Some(None), None),
    F("[7]", None, None, None, Some(&[7])),
    F("{x: [1]}", None, None, None, None),
];
/// nodes of every kind
const NODES: &[&str] = &["x", "'x'", "\"\\n\"", "~", "1.5", "[]", "[[], [x, {}]]", "{}", "{x: {y: [1, 2]}, ? [1] : {}}", "!t x", "!t [1]", "!t {a: !u b}", "!!int 5", "&q [1, {x: y}]", "*z", "[*z, *z]", "{*z : *z}", "&r {x: *z}", "!!str", "&e", "[a: b, ? c]"];

/// reads `K` elements or entries, through a chosen method, and no more
struct Take<const K: usize, const M: usize>;
impl<'de, const K: usize, const M: usize> Deserialize<'de> for Take<K, M> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<const K: usize, const M: usize>;
        impl<'de, const K: usize, const M: usize> serde::de::Visitor<'de> for V<K, M> {
            type Value = Take<K, M>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a collection")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                for _ in 0..K {
                    if a.next_element::<serde::de::IgnoredAny>()?.is_none() {
                        return Err(serde::de::Error::custom("too short"));
                    }
                }
                Ok(Take)
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                for _ in 0..K {
                    if a.next_entry::<serde::de::IgnoredAny, serde::de::IgnoredAny>()?.is_none() {
                        return Err(serde::de::Error::custom("too short"));
                    }
                }
                Ok(Take)
            }
        }
        match M {
            0 => d.deserialize_any(V::<K, M>),
            1 => d.deserialize_seq(V::<K, M>),
            2 => d.deserialize_map(V::<K, M>),
            3 => d.deserialize_tuple(K, V::<K, M>),
            4 => d.deserialize_tuple_struct("T", K, V::<K, M>),
            _ => d.deserialize_struct("S", &["a", "b"], V::<K, M>),
        }
    }
}
fn taken<const K: usize, const M: usize>(d: &str, n: usize, map: bool) {
    let fits = n == K && match M { 0 => true, 2 | 5 => map, _ => !map };
    if M == 5 && !map {
        // a struct read from a sequence is the format's choice
        return;
    }
    let w = ["[0, ", d, ", 9]"].concat();
    check(serde_yaml::from_str::<Take<K, M>>(d).is_ok() == fits, 90);
    check(serde_yaml::from_str::<(u8, Take<K, M>, u8)>(&w).is_ok() == fits, 91);
    let v = val(d).unwrap();
    check(<Take<K, M>>::deserialize(&v).is_ok() == fits, 92);
    check(serde_yaml::from_value::<Take<K, M>>(v).is_ok() == fits, 93);
    let v = val(&w).unwrap();
    check(<(u8, Take<K, M>, u8)>::deserialize(&v).is_ok() == fits, 94);
    check(serde_yaml::from_value::<(u8, Take<K, M>, u8)>(v).is_ok() == fits, 95);
    observe(&[fits as u8]);
}

harnesses! {
    //@ q reach=1 | sequences of 0 to 5 elements, block and flow, into tuples, arrays, tuple structs and variants of length 1 to 4
    fn h_c22_len() {
        let n = pick(6);
        let flow = n == 0 || flag();
        let n = n.min(5);
        let d = list(n, flow);
        let e = [10i64, 11, 12, 13, 14];
        let on = |k: usize| n == k;
        three::<(i64,)>(&d, on(1).then_some((10,)));
        three::<(i64, i64)>(&d, on(2).then_some((10, 11)));
        three::<[i64; 3]>(&d, on(3).then_some([10, 11, 12]));
        three::<[i64; 0]>(&d, on(0).then_some([]));
        three::<T1>(&d, None); // a newtype: its content is an integer
        three::<T3>(&d, on(3).then_some(T3(10, 11, 12)));
        three::<(i64, i64, i64, i64)>(&d, on(4).then_some((10, 11, 12, 13)));
        three::<Vec<i64>>(&d, Some(e[..n].to_vec()));
        three::<Vec<(i64,)>>(&["- ", if flow { &d } else { "[10]" }].concat(), (if flow { on(1) } else { true }).then_some(vec![(10,)]));
        if flow {
            three::<V>(&["!T ", &d].concat(), on(2).then_some(V::T(10, 11)));
            three::<((i64, i64), i64)>(&["[", &d, ", 1]"].concat(), on(2).then_some(((10, 11), 1)));
            three::<BTreeMap<String, [i64; 2]>>(&["{k: ", &d, "}"].concat(), on(2).then_some([("k".to_owned(), [10, 11])].into_iter().collect()));
            three::<Option<[i64; 2]>>(&d, on(2).then_some(Some([10, 11])));
        }
        observe(&[n as u8]);
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=16 | structs: 0 to 3 entries with symbolic keys out of 6 names and 6 kinds of value, in every order; missing, repeated, unknown and denied fields
    fn h_c22_fields() {
        let n = pick(4);
        let mut d = String::from("{");
        let (mut a, mut b, mut c, mut dd, mut unknown, mut bad, mut dup) = (None, None, None, None, false, false, false);
        let mut seen = [0u8; 3];
        for i in 0..n {
            let k = byte_in(b"abcde_");
            let v = &VALS[pick(VALS.len())];
            if i > 0 { d.push_str(", ") }
            d.push(k as char);
            d.push_str(": ");
            d.push_str(v.0);
            dup |= seen[..i].contains(&k);
            seen[i] = k;
            match k {
                b'a' => { bad |= v.1.is_none(); a = v.1 }
                b'b' => { bad |= v.2.is_none(); b = v.2 }
                b'c' => { bad |= v.3.is_none(); c = v.3 }
                b'd' => { bad |= v.4.is_none(); dd = v.4 }
                _ => unknown = true,
            }
        }
        d.push('}');
        let known_dup = (0..n).any(|i| b"abcd".contains(&seen[i]) && seen[..i].contains(&seen[i]));
        let want = match (a, b) {
            (Some(a), Some(b)) if !bad && !known_dup => Some(S { a, b: b.to_owned(), c: c.flatten(), d: dd.unwrap_or(&[]).to_vec() }),
            _ => None,
        };
        let got = serde_yaml::from_str::<S>(&d).ok();
        observe(&[got.is_some() as u8]);
        let ok = want.is_some();
        check(got == want, 10);
        let deny = want.clone().filter(|_| !unknown).map(|s| Deny { a: s.a, b: s.b, c: s.c, d: s.d });
        check(serde_yaml::from_str::<Deny>(&d).ok() == deny, 11);
        // as a Value: strings are not read from other scalars (and null is an empty sequence)
        if !dup && !d.contains("d: ~") {
            if let Ok(v) = val(&d) {
                let strs = match b { Some(b) => b == "x", None => true };
                check(S::deserialize(&v).ok() == want.clone().filter(|_| strs), 12);
                check(serde_yaml::from_value::<Deny>(v).ok() == deny.filter(|_| strs), 13);
            } else {
                check(false, 14)
            }
        }
        if ok { reach(1) } else { reach(2) }
    }
    //@ q reach=1 | default fields, struct variants and structs in collections
    fn h_c22_more() {
        three::<Def>("{}", Some(Def::default()));
        three::<Def>("{b: x}", Some(Def { a: -1, b: "x".to_owned() }));
        three::<Def>("{a: 2}", Some(Def { a: 2, b: "def".to_owned() }));
        three::<Def>("{a: 2, a: 2}", None);
        three::<Def>("[2, x]", None);
        three::<Def>("x", None);
        three::<V>("!S {a: 1}", Some(V::S { a: 1, b: None }));
        three::<V>("!S {b: 2, a: 1}", Some(V::S { a: 1, b: Some(2) }));
        three::<V>("!S {b: 2}", None);
        three::<V>("!S {b: 2, z: [1], a: 1}", Some(V::S { a: 1, b: Some(2) }));
        three::<V>("!S [1, 2]", None);
        three::<Vec<Def>>("[{a: 1}, {}, {b: y, z: 1}]", Some(vec![Def { a: 1, b: "def".to_owned() }, Def::default(), Def { a: -1, b: "y".to_owned() }]));
        three::<BTreeMap<String, Def>>("{k: {a: 1}, l: {}}", Some([("k".to_owned(), Def { a: 1, b: "def".to_owned() }), ("l".to_owned(), Def::default())].into_iter().collect()));
        three::<(Def, (i64, i64))>("[{a: 3, q: {a: 4}}, [5, 6]]", Some((Def { a: 3, b: "def".to_owned() }, (5, 6))));
        reach(1)
    }
    //@ q reach=1 | ignoring: 21 kinds of node (with aliases, tags, anchors) x 21, as elements, values, keys and unknown fields: the next node is the next one
    fn h_c22_ignore() {
        let (x, y) = (one(NODES), one(NODES));
        let z = "- &z [0, {z: z}]\n";
        let d = [z, "- ", x, "\n- ", y, "\n- 42\n"].concat();
        match serde_yaml::from_str::<(IgnoredAny, IgnoredAny, IgnoredAny, i64)>(&d) {
            Ok(t) => check(t.3 == 42, 20),
            Err(_) => check(false, 21),
        }
        check(serde_yaml::from_str::<(IgnoredAny, IgnoredAny, i64)>(&d).is_err(), 22);
        // the anchor in ignored content is still known after it
        let d = ["a: &z {q: [1]}\nu: ", x, "\nb: w\nv: ", y, "\nc: true\n"].concat();
        match serde_yaml::from_str::<Late>(&d) {
            Ok(l) => check(l.b == "w" && l.c, 23),
            Err(_) => check(false, 24),
        }
        // ignored keys
        let d = ["- &z q\n- ? ", x, "\n  : ", y, "\n- 7\n"].concat();
        match serde_yaml::from_str::<(IgnoredAny, Ign, i64)>(&d) {
            Ok(t) => check(t.2 == 7 && t.1.0 == 1, 25),
            Err(_) => check(false, 26),
        }
        // the whole document
        check(serde_yaml::from_str::<IgnoredAny>(&d).is_ok(), 27);
        observe(&[1]);
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=16 | ignoring arbitrary text: 3 characters out of 23 in [_, 42] and {u: _, c: true}: read exactly when the document reads as a Value with that shape
    fn h_c22_text() {
        let b = text_in::<3>(YAML);
        let t = str_of(&b);
        if flag() {
            let d = ["[", t, ", 42]"].concat();
            let v = val(&d).ok();
            let r = serde_yaml::from_str::<(IgnoredAny, i64)>(&d).ok();
            match (v, r) {
                (Some(Value::Sequence(v)), Some(r)) => { check(v.len() == 2 && r.1 == 42 && v[1] == 42, 30); observe(&[1]); reach(1) }
                (Some(Value::Sequence(v)), None) => { check(v.len() != 2 || !v[1].is_i64(), 31); observe(&[2]) }
                (Some(_), r) => check(r.is_none(), 32),
                (None, _) => { observe(&[3]); reach(2) }
            }
        } else {
            let d = ["{u: ", t, ", b: w, c: true}"].concat();
            let v = val(&d).ok();
            let r = serde_yaml::from_str::<Late>(&d).ok();
            match (v, r) {
                (Some(Value::Mapping(v)), r) => {
                    let want = match (v.get("b"), v.get("c")) {
                        (Some(Value::String(b)), Some(Value::Bool(c))) => Some((b.as_str(), *c)),
                        _ => None,
                    };
                    // (a text is read from any scalar)
                    let any = v.get("b").map_or(false, |b| !b.is_string()) || v.keys().any(|k| !k.is_string());
                    if !any { check(r.as_ref().map(|r| (r.b.as_str(), r.c)) == want, 33) }
                    observe(&[4]);
                    reach(1)
                }
                (Some(_), r) => check(r.is_none(), 34),
                (None, _) => { observe(&[5]); reach(2) }
            }
        }
    }
    //@ q reach=1 audit=16 pathz3=4 | sequences of 30 to 34 and 126 to 300 elements into [u8; 32], Vec and a struct skipping them, with a following field
    fn h_c22_many() {
        let n = one(&[30usize, 31, 32, 33, 34, 126, 127, 128, 129, 255, 256, 257, 300]);
        let at = pick(3);
        let mut q = String::with_capacity(2048);
        for i in 0..n { q += &format!("{}{}", if i == 0 { "[" } else { ", " }, match at { 0 => "7", 1 => "[7]", _ => "{a: 7}" }) }
        q += "]";
        three::<[u8; 32]>(&q, (n == 32 && at == 0).then_some([7; 32]));
        three::<Vec<u8>>(&q, (at == 0).then(|| vec![7; n]));
        #[derive(Debug, PartialEq, Deserialize)]
        struct K { z: i64 }
        let x = (choice(2) * 7) as i64;
        three::<K>(&format!("s: {q}\nz: {x}\n"), Some(K { z: x }));
        three::<K>(&format!("z: {x}\n? {q}\n: {q}\n"), None);
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | ignoring generated nodes of up to 3 nodes (scalars, sequences, mappings, empty ones, any of them tagged), as element, key and unknown field: the next node is the next one
    fn h_c22_skip() {
        let mut x = Vec::with_capacity(64);
        gen_flow(&mut x, &mut 3, 3, &["", "!t "]);
        let x = str_of(&x);
        match pick(3) {
            0 => check(matches!(serde_yaml::from_str::<(IgnoredAny, i64)>(&["- ", x, "\n- 42\n"].concat()), Ok(t) if t.1 == 42), 60),
            1 => check(matches!(serde_yaml::from_str::<(Ign, i64)>(&["- ? ", x, "\n  : w\n- 7\n"].concat()), Ok(t) if t.0.0 == 1 && t.1 == 7), 61),
            _ => check(matches!(serde_yaml::from_str::<Late>(&["u: ", x, "\nb: w\nv: ", x, "\nc: true\n"].concat()), Ok(l) if l.b == "w" && l.c), 62),
        }
        observe(&[1]);
        reach(1)
    }
    //@ q reach=1 | readers that take 0 to 4 elements or entries of a sequence or mapping of 0 to 5, through 6 methods, at the root and between two elements: an error unless they took all
    fn h_c22_partial() {
        let (n, map) = (pick(6), flag());
        let e: Vec<String> = (0..n).map(|i| if map { format!("k{i}: [{i}]") } else { format!("{{x: {i}}}") }).collect();
        let d = if map { format!("{{{}}}", e.join(", ")) } else { format!("[{}]", e.join(", ")) };
        macro_rules! all {
            ($($k:literal)*) => { match pick(6) { $($k => match pick(5) { 0 => taken::<0, $k>(&d, n, map), 1 => taken::<1, $k>(&d, n, map), 2 => taken::<2, $k>(&d, n, map), 3 => taken::<3, $k>(&d, n, map), _ => taken::<4, $k>(&d, n, map) },)* _ => {} } };
        }
        all!(0 1 2 3 4 5);
        reach(1)
    }
    //@ q reach=1 | sequences of 0 to 6 elements, each null in 5 spellings, a number, an alias or an empty collection in 12 arrangements, into Vec, arrays and tuples of values, options and units, from text and Values
    fn h_c22_nulls() {
        let n = pick(7) as usize;
        let a = one(&["~ ~ ~", "1 ~ ~", "~ 1 ~", "~ ~ 1", "1 1 ~", "'' null ~", "!t NULL ''", "!t ~ ~", "&q &q ~", "[] [] ~", "{} ~ {}", "1 {} ~"]);
        let p: Vec<&str> = a.split(' ').collect();
        let mut d = String::new();
        let mut want: Vec<Value> = Vec::new();
        for i in 0..n {
            // first, then the second repeated, then the last
            let t = if i == 0 { p[0] } else if i + 1 == n { p[2] } else { p[1] };
            d.push_str(if i > 0 { ", " } else { "[" });
            d.push_str(match t { "&q" if i > 0 => "*q", "&q" => "&q ~", "!t" => "!t ~", t => t });
            want.push(match t { "1" => Value::from(1), "''" => Value::from(""), "[]" => Value::Sequence(vec![]), "{}" => Value::Mapping(Default::default()), "!t" => tagged("t", Value::Null), _ => Value::Null });
        }
        d.push_str(if n > 0 { "]" } else { "[]" });
        fn arr<const N: usize>(d: &str, w: &[Value]) where [Value; N]: DeserializeOwned, [Option<bool>; N]: DeserializeOwned {
            let on = w.len() == N;
            three::<[Value; N]>(d, on.then(|| w.to_vec().try_into().unwrap()));
            let nul = w.iter().all(|v| matches!(v, Value::Null));
            three::<[Option<bool>; N]>(d, (on && nul).then_some([None; N]));
        }
        match pick(4) {
            0 => { three::<Vec<Value>>(&d, Some(want.clone())); three::<(Value, Value, Value, Value)>(&d, (n == 4).then(|| (want[0].clone(), want[1].clone(), want[2].clone(), want[3].clone()))) }
            1 => { arr::<0>(&d, &want); arr::<1>(&d, &want); arr::<2>(&d, &want) }
            2 => { arr::<3>(&d, &want); arr::<4>(&d, &want); arr::<5>(&d, &want) }
            _ => { arr::<6>(&d, &want); if want.iter().all(|v| matches!(v, Value::Null)) { three::<Vec<()>>(&d, Some(vec![(); n])) } }
        }
        observe(&[n as u8]);
        reach(1)
    }
    //@ t reach=1 audit=64 pathz3=16 | ignoring generated nodes of up to 4 nodes (scalars, sequences, mappings, empty ones, any of them tagged), as element, key and unknown field: the next node is the next one
    fn h_c22_skip4() {
        let mut x = Vec::with_capacity(64);
        gen_flow(&mut x, &mut 4, 3, &["", "!t "]);
        let x = str_of(&x);
        match pick(3) {
            0 => check(matches!(serde_yaml::from_str::<(IgnoredAny, i64)>(&["- ", x, "\n- 42\n"].concat()), Ok(t) if t.1 == 42), 60),
            1 => check(matches!(serde_yaml::from_str::<(Ign, i64)>(&["- ? ", x, "\n  : w\n- 7\n"].concat()), Ok(t) if t.0.0 == 1 && t.1 == 7), 61),
            _ => check(matches!(serde_yaml::from_str::<Late>(&["u: ", x, "\nb: w\nv: ", x, "\nc: true\n"].concat()), Ok(l) if l.b == "w" && l.c), 62),
        }
        observe(&[1]);
        reach(1)
    }
    //@ t reach=1,2 audit=64 pathz3=16 | as above with 4 characters in [_, 42]
    fn h_c22_text4() {
        let b = text_in::<4>(YAML);
        let d = ["[", str_of(&b), ", 42]"].concat();
        let v = val(&d).ok();
        let r = serde_yaml::from_str::<(IgnoredAny, i64)>(&d).ok();
        match (v, r) {
            (Some(Value::Sequence(v)), Some(r)) => { check(v.len() == 2 && r.1 == 42 && v[1] == 42, 40); observe(&[1]); reach(1) }
            (Some(Value::Sequence(v)), None) => { check(v.len() != 2 || !v[1].is_i64(), 41); observe(&[2]) }
            (Some(_), r) => check(r.is_none(), 42),
            (None, _) => { observe(&[3]); reach(2) }
        }
    }
    //@ t reach=1 | ignoring: three consecutive nodes of 21 kinds
    fn h_c22_ignore3() {
        let (x, y, w) = (one(NODES), one(NODES), one(NODES));
        let d = ["- &z [0, {z: z}]\n- ", x, "\n- ", y, "\n- [", w, ", 41]\n- 42\n"].concat();
        match serde_yaml::from_str::<(IgnoredAny, IgnoredAny, IgnoredAny, (IgnoredAny, i64), i64)>(&d) {
            Ok(t) => check(t.4 == 42 && t.3.1 == 41, 50),
            Err(_) => check(false, 51),
        }
        observe(&[1]);
        reach(1)
    }
}
#[derive(Debug, PartialEq, Clone, Deserialize)]
struct Late {
    b: String,
    c: bool,
}
/// a mapping of which only the number of entries is kept
struct Ign(usize);
impl<'de> Deserialize<'de> for Ign {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = Ign;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Ign, A::Error> {
                let mut n = 0;
                while let Some(IgnoredAny) = a.next_key()? {
                    a.next_value::<IgnoredAny>()?;
                    n += 1;
                }
                Ok(Ign(n))
            }
        }
        d.deserialize_map(Vis)
    }
}

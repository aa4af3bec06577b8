//! C18: enums and tagged values are written as tags and read back exactly.
use crate::sym::*;
use crate::util::*;
use serde::de::{MapAccess, Visitor};
use serde::ser::SerializeMap;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_yaml::{value::{Tag, TaggedValue}, Value};
use std::collections::BTreeMap;
use std::fmt;

/// a list of entries written as a mapping: enums as keys and values
#[derive(Debug, PartialEq, Clone)]
struct Map<K, V>(Vec<(K, V)>);
impl<K: Serialize, V: Serialize> Serialize for Map<K, V> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in &self.0 {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}
impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Deserialize<'de> for Map<K, V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K, V>(std::marker::PhantomData<(K, V)>);
        impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Visitor<'de> for Vis<K, V> {
            type Value = Map<K, V>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Map<K, V>, A::Error> {
                let mut v = vec![];
                while let Some(e) = a.next_entry()? {
                    v.push(e);
                }
                Ok(Map(v))
            }
        }
        d.deserialize_map(Vis(std::marker::PhantomData))
    }
}
fn text() -> String {
    let b = text_in::<1>(b"a1~ \n:-'!#");
    str_of(&b[..pick(2)]).to_owned()
}
fn int() -> i64 {
    one(&[0i64, -7, i64::MAX])
}
fn gen_e() -> E {
    match pick(9) {
        0 => E::U,
        1 => E::V,
        2 => E::N(text()),
        3 => E::I(int()),
        4 => E::T(int(), text()),
        5 => E::S { x: int(), y: text() },
        6 => E::O(if flag() { None } else { Some(int()) }),
        7 => E::L(one(&[&[] as &[i64], &[1], &[-1, 2]]).to_vec()),
        _ => E::M(if flag() { BTreeMap::new() } else { [(text(), 1)].into_iter().collect() }),
    }
}
fn rt<T: Serialize + for<'a> Deserialize<'a> + PartialEq>(x: &T) {
    match serde_yaml::to_string(x) {
        Ok(y) => {
            observe(y.as_bytes());
            match serde_yaml::from_str::<T>(&y) {
                Ok(z) => check(z == *x, 1),
                Err(_) => check(false, 2),
            }
            // the text is what the Value route writes
            match serde_yaml::to_value(x) {
                Ok(v) => {
                    match val(&y) {
                        Ok(w) => check(v == w, 3),
                        Err(_) => check(false, 4),
                    }
                    match serde_yaml::from_value::<T>(v.clone()) {
                        Ok(z) => check(z == *x, 5),
                        Err(_) => check(false, 6),
                    }
                    match serde_yaml::to_string(&v) {
                        Ok(t) => check(t == y, 7),
                        Err(_) => check(false, 8),
                    }
                }
                Err(_) => check(false, 9),
            }
        }
        Err(_) => check(false, 10),
    }
    reach(1)
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
enum Outer {
    N(E),
    B(Box<E>),
    O(Option<E>),
    W(Wrap),
    L(Vec<E>),
    T(E, i64),
    S { e: E },
    P(Plain),
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Wrap(E);
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Plain {
    e: Option<E>,
}
fn tags() -> Tag {
    let b = bytes::<2>();
    let n = 1 + pick(2);
    for c in &b[..n] {
        assume(*c >= 0x20 && *c < 0x7f && !matches!(*c, b',' | b'[' | b']'));
    }
    Tag::new(str_of(&b[..n]))
}
fn tagged(tag: Tag, value: Value) -> Value {
    Value::Tagged(Box::new(TaggedValue { tag, value }))
}
fn value_rt(v: &Value) {
    match serde_yaml::to_string(v) {
        Ok(y) => {
            observe(y.as_bytes());
            match val(&y) {
                Ok(w) => {
                    check(w == *v, 20);
                    if let (Value::Tagged(a), Value::Tagged(b)) = (v, &w) {
                        check(a.tag.to_string() == b.tag.to_string(), 21)
                    }
                }
                Err(_) => check(false, 22),
            }
            check(matches!(serde_yaml::to_value(v), Ok(w) if w == *v), 23);
            check(matches!(serde_yaml::from_value::<Value>(v.clone()), Ok(w) if w == *v), 24);
        }
        Err(_) => check(false, 25),
    }
    reach(1)
}
/// documents and what they read as
const READ: &[(&str, Option<E>)] = &[
    ("U", Some(E::U)), ("'V'", Some(E::V)), ("!U", Some(E::U)), ("!U ~", Some(E::U)), ("!V null", Some(E::V)),
    ("N", None), ("I", None), ("T", None), ("S", None), ("L", None), ("u", None), ("''", None), ("~", None), ("X", None), ("!X", None), ("!X 1", None), ("!u", None),
    ("{N: a}", None), ("{U: ~}", None), ("[U]", None), ("{}", None), ("[]", None), ("1", None), ("true", None),
    ("!U x", None), ("!U []", None), ("!U {}", None), ("!U 1", None),
    ("!I 5", Some(E::I(5))), ("!I x", None), ("!I", None), ("!I [5]", None), ("!I {a: 5}", None), ("!I 1.5", None),
    ("!O 5", Some(E::O(Some(5)))), ("!O ~", Some(E::O(None))), ("!O", Some(E::O(None))), ("!O x", None),
    ("!L [1, 2]", Some(E::L(vec![]))), ("!L", Some(E::L(vec![]))), ("!L 1", None), ("!L [x]", None), ("!L {}", None),
    ("!T [1, a]", None), ("!T [1]", None), ("!T [1, a, b]", None), ("!T 1", None), ("!T {}", None), ("!T", None),
    ("!S {x: 1}", None), ("!S 1", None), ("!S", None), ("!S {x: a, y: b}", None), ("!S {x: 1, x: 2, y: a}", None),
    ("!!str U", Some(E::U)), ("!!int U", None), ("!U\nx: 1", None),
    ("!<!U>", Some(E::U)), ("!<!I> 5", Some(E::I(5))), ("! U", None), ("!N ''", None), ("!S {x: 1, y: a}", None),
];
/// fixed payloads that READ cannot hold as constants
fn expect(i: usize) -> Option<Option<E>> {
    Some(match READ[i].0 {
        "!T [1, a]" => Some(E::T(1, "a".to_owned())),
        "!L [1, 2]" => Some(E::L(vec![1, 2])),
        "!S {x: 1, y: a}" => Some(E::S { x: 1, y: "a".to_owned() }),
        "!N ''" => Some(E::N(String::new())),
        "! U" | "!!int U" => return None,
        _ => READ[i].1.clone(),
    })
}

const NAMES: &[&str] = &["a!b", "a!", "a!!b", "a b", " a", "a ", "a%b", "%41", "a%21b", "a'b", "\"a\"", "a: b", "a:", "#a", "a #b", "&a", "*a", "{a}", "a}", "|", ">", "@a", "`a", "?", "-", "- a", "~", "null", "true", "12", "<<", "<a>", "a\\b", "a/b", "tag:yaml.org.2002:str", "\u{e9}", "\u{20ac}x", "\u{1f600}", "a\tb", "a\nb", "..."];
/// an enum with the variants `NAMES`: unit or newtype of a Value
#[derive(PartialEq, Clone)]
struct One<const U: bool>(usize, Value);
impl<const U: bool> Serialize for One<U> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if U {
            s.serialize_unit_variant("One", self.0 as u32, NAMES[self.0])
        } else {
            s.serialize_newtype_variant("One", self.0 as u32, NAMES[self.0], &self.1)
        }
    }
}
impl<'de, const U: bool> Deserialize<'de> for One<U> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<const U: bool>;
        impl<'de, const U: bool> serde::de::Visitor<'de> for V<U> {
            type Value = One<U>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("One") }
            fn visit_enum<A: serde::de::EnumAccess<'de>>(self, a: A) -> Result<One<U>, A::Error> {
                use serde::de::VariantAccess;
                let (n, p): (String, _) = a.variant()?;
                let k = NAMES.iter().position(|m| *m == n).ok_or_else(|| serde::de::Error::custom("unknown variant"))?;
                if U {
                    p.unit_variant()?;
                    return Ok(One(k, Value::Null));
                }
                Ok(One(k, p.newtype_variant::<Value>()?))
            }
        }
        d.deserialize_enum("One", NAMES, V::<U>)
    }
}

harnesses! {
    //@ q reach=1 audit=256 pathz3=64 | every variant kind with symbolic payload at the root, as an option, in a sequence, as a map value
    fn h_c18_root() {
        let e = gen_e();
        match pick(4) {
            0 => rt(&e),
            1 => rt(&Some(e)),
            2 => rt(&vec![e, E::U]),
            _ => rt(&Map(vec![(1, e)])),
        }
    }
    //@ q reach=1 audit=256 pathz3=64 | every variant kind as a mapping key (1 or 2 entries), as key and value, as struct field, in a tuple
    fn h_c18_key() {
        let e = gen_e();
        match pick(6) {
            0 => rt(&Map(vec![(e, 1)])),
            1 => rt(&Map(vec![(e, E::V), (E::I(3), E::N("x".to_owned()))])),
            2 => rt(&Map(vec![(E::L(vec![9]), 2), (e, 1)])),
            3 => rt(&Map(vec![(Some(e), vec![Some(1)])])),
            4 => rt(&Plain { e: Some(e) }),
            _ => rt(&(e, vec![E::U], E::I(1))),
        }
    }
    //@ q reach=1 audit=256 pathz3=64 | two variants of every kind in one sequence and one mapping
    fn h_c18_two() {
        let (e, f) = (gen_e(), gen_e());
        if flag() { rt(&vec![e, f]) } else { rt(&Map(vec![(1, e), (2, f)])) }
    }
    //@ q reach=1,2 audit=256 pathz3=64 | a variant inside a variant: refused when directly nested and not a unit variant, exact otherwise
    fn h_c18_nested() {
        let e = gen_e();
        let unit = matches!(e, E::U | E::V);
        let (o, direct) = match pick(8) {
            0 => (Outer::N(e), true),
            1 => (Outer::B(Box::new(e)), true),
            2 => (Outer::O(Some(e)), true),
            3 => (Outer::W(Wrap(e)), true),
            4 => (Outer::L(vec![e]), false),
            5 => (Outer::T(e, 1), false),
            6 => (Outer::S { e }, false),
            _ => (Outer::P(Plain { e: Some(e) }), false),
        };
        match serde_yaml::to_string(&o) {
            Ok(y) => {
                check(!direct || unit, 30);
                observe(y.as_bytes());
                check(serde_yaml::from_str::<Outer>(&y).ok() == Some(o.clone()), 31);
                check(matches!(serde_yaml::to_value(&o), Ok(v) if serde_yaml::from_value::<Outer>(v.clone()).ok() == Some(o.clone())), 32);
                reach(1)
            }
            Err(_) => {
                check(direct && !unit, 33);
                // as a Value the nesting is kept: it reads back, and is refused as text as well
                match serde_yaml::to_value(&o) {
                    Ok(v) => {
                        check(serde_yaml::to_string(&v).is_err(), 34);
                        check(serde_yaml::from_value::<Outer>(v).ok() == Some(o), 35)
                    }
                    Err(_) => check(false, 36),
                }
                reach(2)
            }
        }
    }
    //@ q reach=1 audit=256 pathz3=64 | tagged Values: every tag of 1-2 printable ASCII characters except , [ ] x 7 payloads
    fn h_c18_tags() {
        let t = tags();
        assume(t != "!" );
        let v = match pick(7) {
            0 => Value::Null,
            1 => Value::from("x"),
            2 => Value::from(""),
            3 => Value::from(1),
            4 => Value::Sequence(vec![]),
            5 => Value::Sequence(vec![Value::from(1)]),
            _ => Value::Mapping([(Value::from("k"), Value::Null)].into_iter().collect()),
        };
        value_rt(&tagged(t, v))
    }
    //@ q reach=1 | tags with a comma, bracket or NUL (first, last, in the middle, alone): the text must read back
    fn h_c18_comma() {
        let t = one(&[",", "a,", ",b", "a,b", "[", "a[", "[b", "a[b", "]", "a]", "]b", "a]b", "\0", "a\0", "\0b", "a\0b"]);
        let v = tagged(Tag::new(t), Value::from(1));
        reach(1);
        match serde_yaml::to_string(&v) {
            Ok(y) => check(val(&y).ok() == Some(v), 26),
            Err(_) => check(false, 27),
        }
    }
    //@ q reach=1 audit=256 pathz3=64 | tagged Values at every position: element, value, key of one- and two-entry mappings, inside another's collection
    fn h_c18_pos() {
        let t = tagged(Tag::new("t"), match pick(6) { 0 => Value::Null, 1 => Value::from(text()), 2 => Value::from(1), 3 => Value::Sequence(vec![Value::from(1)]), 4 => Value::Mapping([(Value::from("k"), Value::Null)].into_iter().collect()), _ => Value::Mapping(Default::default()) });
        let m = |e: Vec<(Value, Value)>| Value::Mapping(e.into_iter().collect());
        let v = match pick(9) {
            0 => Value::Sequence(vec![t.clone(), t]),
            1 => m(vec![(Value::from("a"), t)]),
            2 => m(vec![(t, Value::from("a"))]),
            3 => m(vec![(t.clone(), t)]),
            4 => m(vec![(Value::from("a"), t.clone()), (t, Value::Null)]),
            5 => tagged(Tag::new("o"), Value::Sequence(vec![t])),
            6 => tagged(Tag::new("o"), m(vec![(t.clone(), t)])),
            7 => m(vec![(Value::Sequence(vec![t]), Value::Null)]),
            _ => m(vec![(m(vec![(t.clone(), t)]), Value::Null)]),
        };
        value_rt(&v)
    }
    //@ q reach=1 | a tagged value directly inside a tagged value is refused, as text and as Value
    fn h_c18_double() {
        let v = tagged(Tag::new("o"), tagged(Tag::new("i"), Value::from(text())));
        check(serde_yaml::to_string(&v).is_err(), 40);
        let w = match pick(3) { 0 => Value::Sequence(vec![v]), 1 => Value::Mapping([(Value::Null, v)].into_iter().collect()), _ => Value::Mapping([(v, Value::Null)].into_iter().collect()) };
        check(serde_yaml::to_string(&w).is_err(), 41);
        reach(1)
    }
    //@ q reach=1 | reading: 56 documents with right, wrong or missing variants and payloads
    fn h_c18_read() {
        let i = pick(READ.len());
        let r = serde_yaml::from_str::<E>(READ[i].0).ok();
        observe(&[r.is_some() as u8]);
        if let Some(w) = expect(i) {
            check(r == w, 50)
        }
        // inside a sequence
        let q = serde_yaml::from_str::<Vec<E>>(&["- ", READ[i].0, "\n- V"].concat());
        if let (Some(w), false) = (expect(i), READ[i].0.contains('\n')) {
            check(q.ok() == w.map(|w| vec![w, E::V]), 51)
        }
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=8 | unknown variants: every 1-2 letter tag or string
    fn h_c18_unknown() {
        let b = ascii::<2>();
        for c in b { assume(c.is_ascii_alphanumeric()) }
        let n = &b[..1 + pick(2)];
        let tag = flag();
        let d = if tag { [b"!" as &[u8], n, b" ~\n"].concat() } else { [n, b"\n" as &[u8]].concat() };
        let r = serde_yaml::from_slice::<E>(&d);
        observe(&[r.is_ok() as u8]);
        match r {
            Ok(E::U) => check(n == b"U", 60),
            Ok(E::V) => check(n == b"V", 61),
            Ok(E::N(s)) => check(tag && n == b"N" && s == "~", 62),
            Ok(E::O(None)) => check(tag && n == b"O", 63),
            Ok(E::L(v)) => check(tag && n == b"L" && v.is_empty(), 64),
            Ok(E::M(v)) => check(tag && n == b"M" && v.is_empty(), 65),
            Ok(_) => check(false, 66),
            Err(_) => { check(n != b"U" && n != b"V", 67); return reach(2) }
        }
        reach(1)
    }
    //@ q reach=1 audit=16 pathz3=4 | tags of 1 to 1000 characters ending in 1 of 6 characters on scalars, sequences and mappings, as root, element, key and value
    fn h_c18_long() {
        let n = one(&[0usize, 30, 63, 126, 127, 128, 254, 255, 256, 1000]);
        let name = format!("{}{}", "x".repeat(n), str_of(&[byte_in(b"a1_-.:")]));
        let inner = match pick(4) { 0 => Value::from("s"), 1 => Value::Null, 2 => Value::Sequence(vec![1.into(), "x".into()]), _ => Value::Mapping([(Value::from("a"), Value::from(1))].into_iter().collect()) };
        let v = Value::Tagged(Box::new(TaggedValue { tag: Tag::new(name), value: inner }));
        let v = match pick(4) { 0 => v, 1 => Value::Sequence(vec![v, 1.into()]), 2 => Value::Mapping([(v, Value::from(1))].into_iter().collect()), _ => Value::Mapping([(Value::from("k"), v)].into_iter().collect()) };
        let y = serde_yaml::to_string(&v).unwrap();
        observe(y.as_bytes());
        check(val(&y).ok() == Some(v), 90);
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=16 | 9 variants x 26 payloads, fitting or not: from an owned Value, a borrowed one and the text; root, element, map value, key and option
    fn h_c18_mismatch() {
        let k = pick(9);
        let name = ["U", "V", "N", "I", "T", "S", "O", "L", "M"][k];
        let p = one(&["~", "true", "0", "-7", "1.5", "''", "'a'", "'~'", "[]", "[1]", "[1, 'a']", "[1, 'a', 2]", "['a', 1]", "[~]", "[[1]]", "{}", "{x: 1, y: 'a'}", "{x: 1}", "{y: 'a', x: 1}", "{x: 1, y: 'a', z: 2}", "{x: 'a', y: 'a'}", "{'a': 1}", "{'a': 'b'}", "{1: 2}", "{~: ~}", "[{}]"]);
        let payload = val(p).unwrap();
        let v = crate::util::tagged(name, payload.clone());
        let i = |v: &Value| v.as_i64();
        let s = |v: &Value| v.as_str().map(str::to_owned);
        let want = match (k, &payload) {
            (0, Value::Null) => Some(E::U),
            (1, Value::Null) => Some(E::V),
            (2, p) => s(p).map(E::N),
            (3, p) => i(p).map(E::I),
            (4, Value::Sequence(q)) if q.len() == 2 => match (i(&q[0]), s(&q[1])) { (Some(x), Some(y)) => Some(E::T(x, y)), _ => None },
            (5, Value::Mapping(m)) => match (m.get("x").and_then(i), m.get("y").and_then(s)) { (Some(x), Some(y)) => Some(E::S { x, y }), _ => None },
            (6, Value::Null) => Some(E::O(None)),
            (6, p) => i(p).map(|x| E::O(Some(x))),
            (7, Value::Sequence(q)) => q.iter().map(i).collect::<Option<Vec<_>>>().map(E::L),
            (8, Value::Mapping(m)) => m.iter().map(|(k, v)| Some((s(k)?, i(v)?))).collect::<Option<BTreeMap<_, _>>>().map(E::M),
            // null reads as an empty collection
            (7, Value::Null) => Some(E::L(vec![])),
            (8, Value::Null) => Some(E::M(BTreeMap::new())),
            _ => None,
        };
        fn values<T: serde::de::DeserializeOwned>(v: &Value, get: fn(T) -> Option<E>) -> Option<E> {
            let a = T::deserialize(v).ok().map(get);
            let b = serde_yaml::from_value::<T>(v.clone()).ok().map(get);
            check(a == b, 70);
            a.flatten()
        }
        let seq = |v: Value| Value::Sequence(vec![v]);
        let map = |k: Value, v: Value| Value::Mapping([(k, v)].into_iter().collect());
        let got = match pick(5) {
            0 => values::<E>(&v, Some),
            1 => values::<Option<E>>(&v, |e| e),
            2 => values::<Vec<E>>(&seq(v.clone()), |mut e| e.pop()),
            3 => values::<Map<String, E>>(&map("k".into(), v.clone()), |mut e| e.0.pop().map(|e| e.1)),
            _ => values::<Map<E, i64>>(&map(v.clone(), 1.into()), |mut e| e.0.pop().map(|e| e.0)),
        };
        check(got == want, 71);
        // the text tells strings from other scalars only where they are quoted, and reads null as a collection or not
        let lenient = match (k, &payload) {
            (2, Value::Null | Value::Bool(_) | Value::Number(_)) | (7 | 8, Value::Null) => true,
            (8, Value::Mapping(m)) => m.keys().any(|k| !k.is_string()),
            _ => false,
        };
        let t = ["!", name, " ", p].concat();
        let got = match pick(5) {
            0 => serde_yaml::from_str::<E>(&t).ok(),
            1 => serde_yaml::from_str::<Option<E>>(&t).ok().flatten(),
            2 => serde_yaml::from_str::<Vec<E>>(&["- ", &t].concat()).ok().and_then(|mut e| e.pop()),
            3 => serde_yaml::from_str::<Map<String, E>>(&["k: ", &t].concat()).ok().and_then(|mut e| e.0.pop()).map(|e| e.1),
            _ => serde_yaml::from_str::<Map<E, i64>>(&["? ", &t, "\n: 1"].concat()).ok().and_then(|mut e| e.0.pop()).map(|e| e.0),
        };
        observe(&[got.is_some() as u8]);
        check(got == want || lenient, 72);
        reach(if want.is_some() { 1 } else { 2 })
    }
    //@ q reach=1 audit=16 pathz3=4 | variants named with 41 odd texts (inner and final !, %, spaces, quotes, indicators, words, digits, wide characters), unit and with 3 payloads, as root, element and value; as enum and as tagged Value
    fn h_c18_names() {
        let k = pick(NAMES.len());
        let v = match pick(4) { 0 => Value::Null, 1 => Value::from(1), 2 => Value::Sequence(vec![Value::Null]), _ => Value::from("x: !y") };
        fn back<T: Serialize + serde::de::DeserializeOwned + PartialEq>(x: T) {
            match serde_yaml::to_string(&x) {
                Ok(y) => check(serde_yaml::from_str::<T>(&y).ok().as_ref() == Some(&x), 95),
                Err(_) => check(false, 96),
            }
            match serde_yaml::to_value(&x) {
                Ok(v) => check(T::deserialize(&v).ok().as_ref() == Some(&x) && serde_yaml::from_value::<T>(v).ok() == Some(x), 97),
                Err(_) => check(false, 98),
            }
        }
        fn places<const U: bool>(x: One<U>) {
            match pick(3) {
                0 => back(x),
                1 => back(vec![One::<U>(0, Value::Null), x]),
                _ => back([("k".to_owned(), x)].into_iter().collect::<BTreeMap<String, One<U>>>()),
            }
        }
        match pick(3) {
            0 => places(One::<true>(k, Value::Null)),
            1 => places(One::<false>(k, v)),
            _ => back(Value::Sequence(vec![tagged(Tag::new(NAMES[k]), v)])),
        }
        reach(1)
    }
    //@ t reach=1 audit=4096 pathz3=1024 | two variants of every kind as key and value of a one-entry mapping and nested in options and sequences
    fn h_c18_keyval() {
        let (e, f) = (gen_e(), gen_e());
        match pick(3) { 0 => rt(&Map(vec![(e, f)])), 1 => rt(&Map(vec![(vec![e], vec![Some(f)])])), _ => rt(&vec![Map(vec![(e, Map(vec![(f, E::V)]))])]) }
    }
}

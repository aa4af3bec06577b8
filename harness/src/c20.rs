//! C20: deserializing from a Value (owned or borrowed) agrees with deserializing from the text.
use crate::sym::*;
use crate::util::*;
use serde::de::{DeserializeOwned, IgnoredAny, Visitor};
use serde::{Deserialize, Deserializer};
use serde_yaml::value::TaggedValue;
use serde_yaml::{Mapping, Number, Value};
use std::collections::BTreeMap;
use std::fmt;

#[derive(Debug, PartialEq, Deserialize)]
struct P {
    x: i64,
    y: Option<bool>,
    #[serde(default)]
    z: Vec<Option<P>>,
}
#[derive(Debug, PartialEq, Deserialize)]
#[serde(deny_unknown_fields)]
struct D {
    #[serde(alias = "b")]
    a: E2,
    #[serde(default)]
    k: Option<()>,
}
#[derive(Debug, PartialEq, Deserialize)]
#[serde(untagged)]
enum Un {
    B(bool),
    I(i64),
    F(f64),
    S(String),
    L(Vec<Un>),
    M(BTreeMap<String, Un>),
    N(()),
}
#[derive(Debug, PartialEq, Deserialize)]
#[serde(tag = "t")]
enum Int {
    A { x: i64 },
    B(BTreeMap<String, Value>),
    U,
}
#[derive(Debug, PartialEq, Deserialize)]
#[serde(tag = "t", content = "c")]
enum Adj {
    A(i64),
    B { x: Vec<bool> },
    U,
}
#[derive(Debug, PartialEq, Deserialize)]
struct Flat {
    a: Option<i64>,
    #[serde(flatten)]
    rest: BTreeMap<String, Value>,
}
#[derive(Debug, PartialEq, Deserialize)]
enum E2 {
    U,
    Z(),
    I(i64),
    T(i64, bool),
    S { x: i64, y: Option<bool> },
    O(Option<i64>),
    L(Vec<i64>),
    V(Value),
}
/// accepts strings and sequences of bytes through `deserialize_bytes`
#[derive(Debug, PartialEq)]
struct Bytes(Vec<u8>);
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<T: Deserializer<'de>>(d: T) -> Result<Self, T::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_str<E>(self, v: &str) -> Result<Bytes, E> {
                Ok(Bytes(v.as_bytes().to_vec()))
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Bytes, A::Error> {
                let mut v = vec![];
                while let Some(b) = a.next_element()? {
                    v.push(b);
                    if v.len() == 3 {
                        break;
                    }
                }
                Ok(Bytes(v))
            }
        }
        if flag_byte_buf() { d.deserialize_byte_buf(V) } else { d.deserialize_bytes(V) }
    }
}
fn flag_byte_buf() -> bool {
    true
}
/// from a Value by value and by reference: always the same result and message
fn both<T: DeserializeOwned + PartialEq>(v: &Value) -> Option<T> {
    match (T::deserialize(v), serde_yaml::from_value::<T>(v.clone())) {
        (Ok(a), Ok(b)) => {
            check(a == b, 1);
            Some(a)
        }
        (Err(a), Err(b)) => {
            check(a.to_string() == b.to_string(), 2);
            None
        }
        (Ok(_), Err(_)) => {
            check(false, 3);
            None
        }
        (Err(_), Ok(_)) => {
            check(false, 4);
            None
        }
    }
}
fn untag(v: &Value) -> &Value {
    match v {
        Value::Tagged(t) => untag(&t.value),
        v => v,
    }
}
/// how text and Value may differ for a target type
#[derive(Clone, Copy, PartialEq)]
enum K {
    /// not at all
    Same,
    /// a collection accepts every null Value, but only an empty text
    Null,
    /// a string accepts the text of every scalar, but only string Values
    Str,
    /// like `Null`; field names are strings in that sense
    Keys,
}
/// is there a null in it?
fn has_null(v: &Value) -> bool {
    match untag(v) {
        Value::Null => true,
        Value::Sequence(s) => s.iter().any(has_null),
        Value::Mapping(m) => m.iter().any(|(_, v)| has_null(v)),
        _ => false,
    }
}
/// does the Value contain a mapping with a key that is not a string?
fn odd_keys(v: &Value) -> bool {
    match untag(v) {
        Value::Sequence(s) => s.iter().any(odd_keys),
        Value::Mapping(m) => m.iter().any(|(k, v)| !untag(k).is_string() || odd_keys(v)),
        _ => false,
    }
}
fn agree<T: DeserializeOwned + PartialEq>(d: &[u8], v: &Value, k: K) {
    let a = serde_yaml::from_slice::<T>(d).ok();
    let b = both::<T>(v);
    match (a, b) {
        (Some(a), Some(b)) => check(a == b, 5),
        (None, None) => {}
        (Some(_), None) => check(k == K::Str && !untag(v).is_string() || k == K::Keys && odd_keys(v), 6),
        (None, Some(_)) => check(k == K::Null && untag(v).is_null() || k == K::Keys && has_null(v), 7),
    }
}
/// the document reads as `T` from text only if it reads as a Value, unless keys are repeated
fn all(d: &[u8], group: usize) {
    assume(!d.windows(2).any(|w| w == b"!!" || w == b"!<" || w == b"%T"));
    let v = match serde_yaml::from_slice::<Value>(d) {
        Ok(v) => v,
        Err(e) => {
            // reading without building the value is as strict, up to duplicate keys
            if serde_yaml::from_slice::<IgnoredAny>(d).is_ok() {
                check(e.to_string().contains("duplicate"), 8)
            }
            return reach(2);
        }
    };
    observe(&[1]);
    match group {
        0 => {
            agree::<Value>(d, &v, K::Same);
            agree::<i64>(d, &v, K::Same);
            agree::<bool>(d, &v, K::Same);
            agree::<()>(d, &v, K::Same);
            agree::<Option<i64>>(d, &v, K::Same);
            agree::<Option<Option<bool>>>(d, &v, K::Same);
            agree::<String>(d, &v, K::Str);
            agree::<char>(d, &v, K::Str);
            agree::<Number>(d, &v, K::Same);
            agree::<IgnoredAny2>(d, &v, K::Same);
        }
        1 => {
            agree::<Vec<Option<i64>>>(d, &v, K::Null);
            agree::<(Option<i64>, bool)>(d, &v, K::Null);
            agree::<[bool; 2]>(d, &v, K::Null);
            agree::<BTreeMap<i64, Option<bool>>>(d, &v, K::Null);
            agree::<Mapping>(d, &v, K::Null);
            agree::<Vec<Value>>(d, &v, K::Null);
            agree::<P>(d, &v, K::Keys);
        }
        2 => {
            agree::<E2>(d, &v, K::Keys);
            agree::<Option<E2>>(d, &v, K::Keys);
            agree::<D>(d, &v, K::Keys);
            agree::<TaggedValue>(d, &v, K::Same);
            agree::<New64>(d, &v, K::Same);
        }
        _ => {
            if v.is_null() {
                return reach(3); // an empty document has no value to look at
            }
            agree::<Un>(d, &v, K::Same);
            agree::<Int>(d, &v, K::Same);
            agree::<Adj>(d, &v, K::Keys);
            agree::<Flat>(d, &v, K::Keys);
        }
    }
    reach(1)
}
#[derive(Debug, PartialEq, Deserialize)]
enum W { None, Some(i64), #[serde(rename = "null")] Null, Value(Value), Tagged { a: i64 } }
#[derive(Debug, PartialEq, Deserialize)]
struct New64(i64);
#[derive(Debug)]
struct IgnoredAny2;
impl PartialEq for IgnoredAny2 {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl<'de> Deserialize<'de> for IgnoredAny2 {
    fn deserialize<T: Deserializer<'de>>(d: T) -> Result<Self, T::Error> {
        IgnoredAny::deserialize(d).map(|_| IgnoredAny2)
    }
}
const CTX: &[Tpl] = &[("", ""), ("[", "]"), ("- ", "\n- true\n"), ("{x: ", "}"), ("x: 1\ny: ", "\n"), ("!I ", ""), ("!T [1, ", "]"), ("!S {x: ", "}"), ("!", ""), ("{", "}"), ("t: ", "\nx: 1\n"), ("? ", "\n: true"), ("a: ", "\nk:\n"), ("a: &q 1\nb: ", "\n")];
const ALPHA: &[u8] = b"1-~!UIx: []{}'&*|\n";
const DOCS: &[&str] = &[
    "!U", "!U ~", "!U 1", "!Z []", "!Z [1]", "!I", "!I ~", "!I 1.0", "!T", "!T []", "!T [1]", "!T [1, true]", "!T [1, true, 2]", "!T ~", "!T {}", "!S", "!S ~", "!S {}", "!S {x: 1}", "!S {y: ~, x: 1}", "!S {x: 1, q: [1]}", "!S []", "!S [1, true]",
    "!O", "!O ~", "!O 1", "!O x", "!O ''", "!L", "!L []", "!L [1, 2]", "!L [a]", "!V", "!V ~", "!V !w 1", "!V [!w 1]", "!V {!w 1: !q 2}", "!X 1", "U", "Z", "I", "'U'", "! U", "! 1", "! []",
    "{a: U}", "{b: U}", "{a: U, b: U}", "{a: !I 1}", "{a: !T [1, false], k: ~}", "{a: U, k: 1}", "{a: U, q: 1}", "{}", "{x: 1, z: [{x: 2, z: [~]}, ~]}", "{x: 1, z: ~}", "{x: 1, z: }", "{x: 1, y: ~, z: []}", "[1, true]", "{x: !t 1, y: !t true}", "{!x x: 1}", "!t {x: 1}", "!t [~, true]", "!t ~", "!t ''", "!t true", "!t [1]",
    "{t: A, x: 1}", "{x: 1, t: A}", "{t: A}", "{t: A, x: 1, x2: [2, {a: ~}]}", "{t: B}", "{t: B, q: !w [1]}", "{t: U}", "{t: U, x: 1}", "{t: X}", "{t: 1}", "t", "[A, {x: 1}]", "{t: A, c: 1}", "{c: 1, t: A}", "{t: B, c: {x: [true]}}", "{c: {x: []}, t: B}", "{t: U, c: ~}", "{t: A, c: !w 1}", "{t: B, c: []}",
    "{a: 1, q: ~, r: !w [x]}", "{q: 1}", "{a: ~}", "{a: x}", "{1: 2}", "{1: true, 2: ~}", "{~: 1}", "{[1]: 2}", "[[1, 2], {a: [true]}, 'x', 1.5, ~]", "{a: {b: {c: [1]}}}", "1.5", "-.inf", "18446744073709551615", "-9223372036854775808", "|\n a", "\"\\x41\"", "''", "&a [1, &b 2, *b]", "{x: &a 1, z: [{x: *a}]}", "é", "'\\'",
    "# c", "--- ~", "---\n...\n", "--- x\n---\n", "[a", "*a", "\0",
];

harnesses! {
    //@ q reach=1,2,3 audit=256 pathz3=64 steps=8000000 | 14 contexts x 1 character out of 18 x 26 target types in 4 groups
    fn h_c20_one() {
        let (p, s) = one(CTX);
        let b = text_in::<1>(ALPHA);
        all(&[p.as_bytes(), &b, s.as_bytes()].concat(), pick(4))
    }
    //@ q reach=1,2,3 audit=256 pathz3=64 steps=8000000 | 14 contexts x 2 characters out of 18 x 26 target types in 4 groups
    fn h_c20_two() {
        let (p, s) = one(CTX);
        let b = text_in::<2>(ALPHA);
        all(&[p.as_bytes(), &b, s.as_bytes()].concat(), pick(4))
    }
    //@ q reach=1,2,3 | 109 documents made for the target types
    fn h_c20_docs() {
        let d = one(DOCS);
        all(d.as_bytes(), pick(4));
    }
    //@ q reach=1 audit=256 pathz3=64 | Values of up to 4 nodes with tags: owned and borrowed give the same result and message for 26 types
    fn h_c20_value() {
        let v = gen_value(&mut 4, 2, true);
        match pick(3) {
            0 => {
                both::<i64>(&v); both::<u8>(&v); both::<f32>(&v); both::<f64>(&v); both::<u64>(&v); both::<i128>(&v); both::<u128>(&v); both::<bool>(&v); both::<()>(&v); both::<char>(&v); both::<String>(&v);
                both::<Option<i64>>(&v); both::<Number>(&v); both::<Unit>(&v); both::<New>(&v); both::<Bytes>(&v); both::<IgnoredAny2>(&v);
                check(both::<Value>(&v).as_ref() == Some(&v), 20);
                // borrowed text is the text itself
                match (<&str>::deserialize(&v), &v) {
                    (Ok(s), _) => match untag(&v) { Value::String(t) => check(t.as_ptr() == s.as_ptr() && t.len() == s.len(), 21), _ => check(false, 22) },
                    (Err(_), v) => check(!untag(v).is_string(), 23),
                }
            }
            1 => {
                both::<Vec<i64>>(&v); both::<Vec<String>>(&v); both::<(i64, String)>(&v); both::<BTreeMap<String, i64>>(&v); both::<Mapping>(&v); both::<Pair>(&v); both::<Point>(&v); both::<Opts>(&v);
                match (&v, both::<Vec<Value>>(&v)) { (Value::Sequence(s), w) => check(w.as_ref() == Some(s), 24), (u, w) => check(w.is_none() || !matches!(untag(u), Value::Bool(_) | Value::Number(_) | Value::String(_) | Value::Mapping(_)), 25) }
            }
            _ => { both::<E>(&v); both::<E2>(&v); both::<TaggedValue>(&v); both::<Un>(&v); both::<Int>(&v); both::<Adj>(&v); both::<Flat>(&v); both::<D>(&v); both::<P>(&v); }
        }
        reach(1)
    }
    //@ q reach=1 | numbers at the edges of every type: text, owned and borrowed Value give the same number or all fail
    fn h_c20_num() {
        let d = one(&["0", "-0", "+0", "-0x0", "127", "128", "255", "256", "-128", "-129", "32767", "32768", "65535", "65536", "-32768", "-32769", "2147483647", "2147483648", "4294967295", "4294967296", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "1.5", "-0.0", "1e300", "3.5e38", ".inf", "-.inf", "1.0", "16777217"]);
        let Ok(v) = val(d) else { return check(false, 30) };
        let d = d.as_bytes();
        match pick(3) {
            0 => { agree::<i8>(d, &v, K::Same); agree::<i16>(d, &v, K::Same); agree::<i32>(d, &v, K::Same); agree::<i64>(d, &v, K::Same); agree::<i128>(d, &v, K::Same) }
            1 => { agree::<u8>(d, &v, K::Same); agree::<u16>(d, &v, K::Same); agree::<u32>(d, &v, K::Same); agree::<u64>(d, &v, K::Same); agree::<u128>(d, &v, K::Same) }
            _ if d == b"-0x0" => {} // a float is read from the text of decimal numbers only
            _ => { agree::<f32>(d, &v, K::Same); agree::<f64>(d, &v, K::Same); agree::<Number>(d, &v, K::Same); agree::<Option<f64>>(d, &v, K::Same); agree::<isize>(d, &v, K::Same); agree::<std::num::NonZeroU8>(d, &v, K::Same) }
        }
        // the number itself as a deserializer
        if let (Value::Number(n), true) = (&v, d != b"-0x0") {
            check(f64::deserialize(n).ok() == both::<f64>(&v), 31);
            check(matches!(val(".nan"), Ok(v) if matches!((f64::deserialize(&v), serde_yaml::from_value::<f32>(v.clone())), (Ok(a), Ok(b)) if a.is_nan() && b.is_nan())), 35);
            check(u8::deserialize(n.clone()).ok() == both::<u8>(&v), 32);
            check(i64::deserialize(n).ok() == both::<i64>(&v), 33);
            check(u64::deserialize(n.clone()).ok() == both::<u64>(&v), 34);
        }
        reach(1)
    }
    //@ q reach=1,2,3 audit=4096 pathz3=1024 steps=8000000 | 14 contexts x 3 characters out of 18 x 26 target types in 4 groups
    fn h_c20_three() {
        let (p, s) = one(CTX);
        let b = text_in::<3>(ALPHA);
        all(&[p.as_bytes(), &b, s.as_bytes()].concat(), pick(4))
    }
    //@ q reach=1 audit=16 pathz3=4 | sequences of 30 to 300 elements and maps of as many entries, one of them 2 symbolic characters, into 9 types
    fn h_c20_many() {
        let n = one(&[31usize, 32, 33, 127, 128, 129, 255, 256, 257, 300]);
        let at = match pick(3) { 0 => 0, 1 => n / 2, _ => n - 1 };
        let b = text_in::<2>(b"0a1~ .-");
        let x = str_of(&b);
        let q: String = (0..n).map(|i| if i == at { format!("- {x}\n") } else { format!("- {}\n", i % 100) }).collect();
        let m: String = (0..n).map(|i| if i == at { format!("{i}: {x}\n") } else { format!("{i}: {}\n", i % 100) }).collect();
        let (q, m) = (q.as_bytes(), m.as_bytes());
        let on = |d: &[u8]| serde_yaml::from_slice::<Value>(d).ok();
        let (vq, vm) = match (on(q), on(m)) { (Some(a), Some(b)) => (a, b), _ => return assume(false) };
        match pick(9) {
            0 => agree::<Vec<Option<u8>>>(q, &vq, K::Same),
            1 => agree::<Vec<Value>>(q, &vq, K::Same),
            2 => agree::<Vec<Un>>(q, &vq, K::Same),
            3 => agree::<[i64; 32]>(q, &vq, K::Same),
            4 => agree::<BTreeMap<u16, Option<i8>>>(m, &vm, K::Same),
            5 => agree::<BTreeMap<i64, Un>>(m, &vm, K::Same),
            6 => agree::<Value>(m, &vm, K::Same),
            7 => agree::<IgnoredAny2>(q, &vq, K::Same),
            _ => agree::<Mapping>(m, &vm, K::Same),
        }
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 steps=8000000 | generated nodes of up to 2 nodes (10 tags outside, 3 inside; scalars, sequences, mappings, empty ones), root, element and field x 26 target types in 4 groups
    fn h_c20_nodes() {
        let (p, s) = one(&[("", ""), ("[", "]"), ("{x: ", "}"), ("{x: 1, y: ", "}")]);
        let mut d = p.as_bytes().to_vec();
        d.extend_from_slice(one(&["", "!U ", "!Z ", "!I ", "!T ", "!S ", "!O ", "!L ", "!V ", "!t "]).as_bytes());
        gen_flow(&mut d, &mut 2, 2, &["", "!U ", "!t "]);
        d.extend_from_slice(s.as_bytes());
        all(&d, pick(4))
    }
    //@ q reach=1 audit=64 pathz3=16 steps=8000000 | 14 tag names that mean something elsewhere (None, Some, null, Ok, bool, value, Value...) x 9 contents, bare, in a list, in a map: options, results, units, enums with such variants, untagged and tagged values
    fn h_c20_names() {
        let (p, s) = one(&[("", ""), ("- ", "\n"), ("x: ", "\n")]);
        let mut d = p.as_bytes().to_vec();
        d.extend_from_slice(one(&["!None", "!Some", "!null", "!Ok", "!Err", "!bool", "!int", "!float", "!str", "!Value", "!value", "!Tagged", "!", "!x"]).as_bytes());
        d.extend_from_slice(one(&["", " ~", " 1", " true", " x", " 'x'", " [1]", " {a: 1}", " None"]).as_bytes());
        d.extend_from_slice(s.as_bytes());
        let v = match serde_yaml::from_slice::<Value>(&d) { Ok(v) => v, Err(_) => return };
        fn each<T: DeserializeOwned + PartialEq>(d: &[u8], v: &Value) { eachk::<T>(d, v, K::Null) }
        fn eachk<T: DeserializeOwned + PartialEq>(d: &[u8], v: &Value, k: K) {
            match v {
                Value::Sequence(_) => agree::<Vec<T>>(d, v, k),
                Value::Mapping(_) => agree::<BTreeMap<String, T>>(d, v, k),
                _ => agree::<T>(d, v, k),
            }
        }
        fn strs<T: DeserializeOwned + PartialEq>(d: &[u8], v: &Value) {
            if !v.is_sequence() && !v.is_mapping() { agree::<T>(d, v, K::Str) }
        }
        match pick(3) {
            0 => { each::<Option<i64>>(&d, &v); each::<Option<Option<bool>>>(&d, &v); each::<Option<Value>>(&d, &v); each::<Option<W>>(&d, &v); each::<W>(&d, &v); strs::<Option<String>>(&d, &v) }
            1 => { each::<Result<i64, bool>>(&d, &v); eachk::<Option<Vec<i64>>>(&d, &v, K::Keys); each::<Option<()>>(&d, &v); each::<()>(&d, &v); each::<Unit>(&d, &v); eachk::<Option<Mapping>>(&d, &v, K::Keys); strs::<String>(&d, &v) }
            _ => { each::<Value>(&d, &v); each::<TaggedValue>(&d, &v); each::<Option<TaggedValue>>(&d, &v); each::<IgnoredAny2>(&d, &v); each::<i64>(&d, &v); each::<bool>(&d, &v); strs::<char>(&d, &v) }
        }
        reach(1)
    }
    //@ t reach=1 audit=64 pathz3=16 steps=8000000 | generated nodes of up to 3 nodes (10 tags outside, 3 inside; scalars, sequences, mappings, empty ones), root, element and field x 26 target types in 4 groups
    fn h_c20_nodes3() {
        let (p, s) = one(&[("", ""), ("[", "]"), ("{x: ", "}"), ("{x: 1, y: ", "}")]);
        let mut d = p.as_bytes().to_vec();
        d.extend_from_slice(one(&["", "!U ", "!Z ", "!I ", "!T ", "!S ", "!O ", "!L ", "!V ", "!t "]).as_bytes());
        gen_flow(&mut d, &mut 3, 2, &["", "!U ", "!t "]);
        d.extend_from_slice(s.as_bytes());
        all(&d, pick(4))
    }
    //@ t reach=1,2,3 audit=16384 pathz3=4096 steps=8000000 | 14 contexts x 4 characters out of 18 x 26 target types in 4 groups
    fn h_c20_four() {
        let (p, s) = one(CTX);
        let b = text_in::<4>(ALPHA);
        all(&[p.as_bytes(), &b, s.as_bytes()].concat(), pick(4))
    }
    //@ t reach=1,2,3 audit=16384 pathz3=4096 steps=8000000 | every target type with 4 YAML characters out of 23 and as whole document
    fn h_c20_free() {
        let b = text_in::<4>(YAML);
        all(&b, pick(4))
    }
    //@ t reach=1 audit=4096 pathz3=1024 | Values of up to 4 nodes with tags, depth 3: owned and borrowed give the same result and message
    fn h_c20_value5() {
        let v = gen_value(&mut 4, 3, true);
        match pick(2) {
            0 => { both::<E>(&v); both::<E2>(&v); both::<Un>(&v); both::<P>(&v); both::<Flat>(&v); }
            _ => { both::<Vec<Option<E2>>>(&v); both::<BTreeMap<String, Vec<i64>>>(&v); both::<Mapping>(&v); both::<Int>(&v); both::<Adj>(&v); check(both::<Value>(&v).as_ref() == Some(&v), 40) }
        }
        reach(1)
    }
}

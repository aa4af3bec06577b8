//! C21: to_value agrees with the text route and from_value inverts it.
use crate::sym::*;
use crate::util::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_yaml::{Number, Value};
use std::collections::BTreeMap;

fn program(x: &Sh) {
    assume(!x.repeats());
    let want = x.value();
    let text = serde_yaml::to_string(x).ok();
    match serde_yaml::to_value(x) {
        Ok(v) => {
            check(v == want, 1);
            // a Value serializes to itself and to the same text
            check(serde_yaml::to_value(&v).ok().as_ref() == Some(&want), 2);
            let again = serde_yaml::to_string(&v).ok();
            check(again == text || x.has_char() && again.is_some(), 3);
        }
        Err(_) => check(false, 4),
    }
    match text {
        Some(t) => {
            observe(t.as_bytes());
            check(val(&t).ok() == Some(want), 5);
            reach(1)
        }
        None => {
            check(double_tag(&want), 6);
            reach(2)
        }
    }
}
fn typed<T: Serialize + DeserializeOwned + PartialEq>(x: T) {
    match (serde_yaml::to_value(&x), serde_yaml::to_string(&x)) {
        (Ok(v), Ok(t)) => {
            observe(t.as_bytes());
            check(val(&t).ok().as_ref() == Some(&v), 10);
            check(T::deserialize(&v).ok().as_ref() == Some(&x), 11);
            match serde_yaml::to_string(&v) {
                Ok(u) => check(u == t || t.contains("n: '"), 12), // a char is always quoted
                Err(_) => check(false, 15),
            }
            check(serde_yaml::from_value::<T>(v).ok().as_ref() == Some(&x), 13);
        }
        _ => check(false, 14),
    }
    reach(1)
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct All {
    a: bool, b: i8, c: i16, d: i32, e: i64, f: i128, g: u8, h: u16, i: u32, j: u64, k: u128, m: f64, n: char,
    o: String, p: (), q: Unit, r: New, s: Pair, t: (u8, String), u: Option<u8>, v: Option<()>, x: [u8; 2], y: BTreeMap<i8, bool>, z: Value, w: Vec<E>,
    #[serde(rename = "1")] n1: u8, #[serde(rename = "~")] n2: u8, #[serde(rename = "")] n3: u8, #[serde(rename = "a: b")] n4: u8,
    #[serde(skip_serializing_if = "Option::is_none", default)] opt: Option<Point>,
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
enum Z {
    T(),
    S {},
    L(Vec<Z>),
    B(Option<()>),
    P(BTreeMap<String, Z>),
    U(()),
}
fn gen_z(d: usize) -> Z {
    match pick(if d == 0 { 4 } else { 7 }) {
        0 => Z::T(),
        1 => Z::S {},
        2 => Z::B(None),
        3 => Z::U(()),
        4 => Z::L(vec![]),
        5 => Z::L(vec![gen_z(d - 1), gen_z(d - 1)]),
        _ => Z::P([("k".to_owned(), gen_z(d - 1))].into_iter().collect()),
    }
}
/// a variant, struct or newtype with a freely chosen name
struct Named(usize, &'static str);
impl Serialize for Named {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeStruct, SerializeStructVariant, SerializeTupleStruct, SerializeTupleVariant};
        let n = self.1;
        match self.0 {
            0 => s.serialize_unit_variant(n, 0, n),
            1 => s.serialize_newtype_variant(n, 0, n, &1),
            2 => { let mut q = s.serialize_tuple_variant(n, 0, n, 2)?; q.serialize_field(n)?; q.serialize_field(&1)?; q.end() }
            3 => { let mut q = s.serialize_struct_variant(n, 0, n, 1)?; q.serialize_field(n, n)?; q.end() }
            4 => s.serialize_unit_struct(n),
            5 => s.serialize_newtype_struct(n, n),
            6 => { let mut q = s.serialize_tuple_struct(n, 1)?; q.serialize_field(n)?; q.end() }
            _ => { let mut q = s.serialize_struct(n, 1)?; q.serialize_field(n, n)?; q.end() }
        }
    }
}
impl Named {
    fn value(&self) -> Value {
        let n = Value::from(self.1);
        let one = |n: Value| Value::Mapping([(n.clone(), n)].into_iter().collect());
        let t = |v| Value::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new(self.1), value: v }));
        match self.0 {
            0 | 5 => n,
            1 => t(Value::from(1)),
            2 => t(Value::Sequence(vec![n, Value::from(1)])),
            3 => t(one(n)),
            4 => Value::Null,
            6 => Value::Sequence(vec![n]),
            _ => one(n),
        }
    }
}
fn s1() -> String {
    str_of(&text_in::<1>(b"a1~ \n:-'!#")).to_owned()
}

harnesses! {
    //@ q reach=1 audit=256 pathz3=64 | maps of 0 to 2 entries announced with any length 0 to 3: 16 kinds of key (also shown in pieces), 5 of value, 7 surroundings
    fn h_c21_hint() {
        program(&gen_hinted())
    }
    //@ q reach=1,2 audit=256 pathz3=64 | serialization programs of up to 3 calls, 22 kinds: every shape, length hint and map style
    fn h_c21_program() {
        program(&gen_sh(&mut 3, 3, false))
    }
    //@ q reach=1 audit=16 pathz3=4 | lists and maps of 30 to 300 entries, strings of up to 70000 characters, nesting of 20 to 100 levels, with 1 symbolic character
    fn h_c21_many() {
        let n = one(&[31usize, 32, 33, 127, 128, 129, 255, 256, 257, 300]);
        let b = text_in::<1>(YAML);
        let x = str_of(&b);
        match pick(6) {
            0 => typed((0..n).map(|i| if i == n / 2 { x.to_owned() } else { i.to_string() }).collect::<Vec<String>>()),
            1 => typed((0..n).map(|i| (if i == n - 1 { x.to_owned() } else { i.to_string() }, i as u16)).collect::<BTreeMap<String, u16>>()),
            2 => typed((0..n).map(|i| (i as i64 - 5, (i, x.to_owned()))).collect::<BTreeMap<i64, (usize, String)>>()),
            3 => { let mut s = Sh::Str(x.to_owned()); for i in 0..n.min(100) { s = if i % 2 == 0 { Sh::Seq(i % 3 == 0, vec![s]) } else { Sh::Map(true, i % 3 == 0, vec![(Sh::Int(1), s)]) } } program(&s) }
            4 => typed(format!("{}{x}", "ab ".repeat(n * n / 4))),
            _ => program(&Sh::Map(true, true, (0..n).map(|i| (Sh::Seq(true, vec![Sh::Int(i as i64)]), Sh::Str(x.to_owned()))).collect())),
        }
    }
    //@ q reach=1 audit=64 pathz3=16 | variants, structs, newtypes and fields with 54 odd names, at 6 positions: to_value and the text give the Value they stand for
    fn h_c21_names() {
        let k = pick(8);
        let n = odd();
        if (1..4).contains(&k) {
            // names of tags: not empty, no '!' in front; comma, brackets and NUL are the known finding of C18
            assume(!n.is_empty() && !n.starts_with('!') && !n.contains([',', '[', ']', '\0']));
        }
        let (x, w) = (Named(k, n), Named(k, n).value());
        fn both<T: Serialize>(x: T, w: Value) {
            match serde_yaml::to_value(&x) { Ok(v) => check(v == w, 50), Err(_) => check(false, 51) }
            match serde_yaml::to_string(&x) {
                Ok(t) => { observe(t.as_bytes()); check(val(&t).ok() == Some(w), 52) }
                Err(_) => check(false, 53),
            }
        }
        match pick(6) {
            0 => both(x, w),
            1 => both(Some(x), w),
            2 => both([x], Value::Sequence(vec![w])),
            3 => both((1, x), Value::Sequence(vec![Value::from(1), w])),
            4 => both(BTreeMap::from([(1, x)]), Value::Mapping([(Value::from(1), w)].into_iter().collect())),
            _ => {
                struct Key(Named);
                impl Serialize for Key {
                    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                        use serde::ser::SerializeMap;
                        let mut m = s.serialize_map(None)?;
                        m.serialize_entry(&self.0, &2)?;
                        m.end()
                    }
                }
                both(Key(x), Value::Mapping([(w, Value::from(2))].into_iter().collect()))
            }
        }
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | 54 odd strings and every ASCII character, as text, shown or as char, at 9 positions
    fn h_c21_scalars() {
        let t = if flag() { odd().to_owned() } else { str_of(&ascii::<1>()).to_owned() };
        let x = match pick(3) { 0 => Sh::Str(t), 1 => Sh::Shown(t), _ => match t.chars().next() { Some(c) => Sh::Char(c), None => Sh::Unit } };
        let bang = matches!(&x, Sh::Shown(t) if t.starts_with('!'));
        let p = pick(9);
        // a key shown as '!' and more is a tag
        assume(!(bang && p >= 7));
        let y = x.clone();
        program(&match p {
            0 => x,
            1 => Sh::Seq(true, vec![x, y]),
            2 => Sh::Map(true, flag(), vec![(Sh::Int(1), x)]),
            3 => Sh::Some(Box::new(x)),
            4 => Sh::NewtypeVariant(Box::new(x)),
            5 => Sh::TupleVariant(vec![x, y]),
            6 => Sh::Struct(vec![x, y]),
            7 => Sh::Map(flag(), flag(), vec![(x, y)]),
            _ => Sh::Map(true, flag(), vec![(Sh::Int(1), Sh::Unit), (x, y)]),
        })
    }
    //@ t reach=1,2 audit=256 pathz3=64 | serialization programs of up to 4 calls, 13 kinds
    fn h_c21_deep() {
        program(&gen_sh(&mut 4, 4, true))
    }
    //@ q reach=1 audit=256 pathz3=64 | Values of up to 4 nodes with tags, depth 3: to_value is the identity, the text reads back
    fn h_c21_value() {
        let v = gen_value(&mut 4, 3, true);
        typed(v)
    }
    //@ q reach=1 audit=256 pathz3=64 | a struct with every primitive kind and odd field names; enums with empty variants
    fn h_c21_typed() {
        let i = pick(5);
        match pick(3) {
            0 => typed(All {
                a: i == 0, b: i8::MIN, c: i16::MIN, d: i32::MIN, e: i64::MIN, f: [-1, i64::MIN as i128, u64::MAX as i128, 0, 1][i], g: u8::MAX, h: u16::MAX, i: u32::MAX, j: u64::MAX, k: [0, u64::MAX as u128, 1, 2, 3][i], m: [1.5, 1e300, -0.1, f64::INFINITY, -0.0][i], n: ['x', '1', '~', '\n', '\u{e9}'][i],
                o: s1(), p: (), q: Unit, r: New("1".to_owned()), s: Pair(-1, String::new()), t: (1, "~".to_owned()), u: if i < 2 { None } else { Some(1) }, v: None, x: [1, 2], y: [(-1, true)].into_iter().collect(), z: gen_value(&mut 1, 0, false), w: vec![E::U, E::N("x".to_owned()), E::T(1, String::new())],
                n1: 1, n2: 2, n3: 3, n4: 4, opt: if i < 3 { None } else { Some(Point { x: 1, y: "é".to_owned() }) },
            }),
            1 => typed(gen_z(2)),
            _ => typed((s1(), [s1()].to_vec(), BTreeMap::from([(s1(), Some(s1()))]))),
        }
    }
    //@ q reach=1 audit=64 pathz3=16 | every i8 and u8, f32 at 8 values; as Value, Number and back
    fn h_c21_num() {
        match pick(4) {
            0 => typed(byte() as i8),
            1 => typed(byte()),
            2 => typed([byte() as i64 - 128]),
            _ => {
                // f32 goes to the nearest double in a Value and to the shortest text: both read back exactly
                let f = one(&[0.1f32, -0.0, 1.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, 16777216.0, 3e-45]);
                match (serde_yaml::to_value(f), serde_yaml::to_string(&f)) {
                    (Ok(v), Ok(t)) => {
                        check(v == Value::Number(Number::from(f)), 20);
                        check(v.as_f64() == Some(f as f64), 21);
                        check(serde_yaml::from_value::<f32>(v).ok() == Some(f), 22);
                        check(serde_yaml::from_str::<f32>(&t).ok() == Some(f), 23);
                    }
                    _ => check(false, 24),
                }
                reach(1)
            }
        }
    }
    //@ t reach=1,2 audit=4096 pathz3=1024 | serialization programs of up to 5 calls, 13 kinds
    fn h_c21_deeper() {
        program(&gen_sh(&mut 5, 4, true))
    }
}

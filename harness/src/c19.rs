//! C19: singleton_map encodings write one-entry maps and read back exactly.
use crate::sym::*;
use crate::util::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_yaml::{with, Value};
use std::collections::BTreeMap;

/// serialized through `singleton_map`
#[derive(Debug, PartialEq, Clone)]
struct SM<T>(T);
impl<T: Serialize> Serialize for SM<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        with::singleton_map::serialize(&self.0, s)
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for SM<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        with::singleton_map::deserialize(d).map(SM)
    }
}
/// serialized through `singleton_map_recursive`
#[derive(Debug, PartialEq, Clone)]
struct SR<T>(T);
impl<T: Serialize> Serialize for SR<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        with::singleton_map_recursive::serialize(&self.0, s)
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for SR<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        with::singleton_map_recursive::deserialize(d).map(SR)
    }
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Fields {
    #[serde(with = "with::singleton_map")]
    e: E,
    #[serde(with = "with::singleton_map")]
    o: Option<E>,
    p: E,
    #[serde(with = "with::singleton_map_recursive")]
    r: Vec<E>,
}
/// enums inside enums, for the recursive adapter
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
enum R {
    U,
    B(Box<R>),
    T(Box<R>, i64),
    S { r: Box<R>, t: String },
    O(Option<Box<R>>),
    L(Vec<R>),
    M(BTreeMap<String, R>),
    K(BTreeMap<R, i64>),
    W(New),
    N(Wrap),
    P((Box<R>, i64)),
    Y(Two),
    F(Named),
    A([Box<R>; 2]),
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
struct Wrap(Box<R>);
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
struct Two(Box<R>, Box<R>);
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
struct Named {
    a: Box<R>,
    b: Option<Wrap>,
}
fn s(t: &str) -> Value {
    Value::String(t.to_owned())
}
fn map(e: Vec<(Value, Value)>) -> Value {
    Value::Mapping(e.into_iter().collect())
}
fn sing(n: &str, v: Value) -> Value {
    map(vec![(s(n), v)])
}
fn seq(v: Vec<Value>) -> Value {
    Value::Sequence(v)
}
fn i(n: i64) -> Value {
    Value::Number(n.into())
}
/// the documented encoding
fn enc(e: &E) -> Value {
    match e {
        E::U => s("U"),
        E::V => s("V"),
        E::N(t) => sing("N", s(t)),
        E::I(n) => sing("I", i(*n)),
        E::T(n, t) => sing("T", seq(vec![i(*n), s(t)])),
        E::S { x, y } => sing("S", map(vec![(s("x"), i(*x)), (s("y"), s(y))])),
        E::O(o) => sing("O", o.map_or(Value::Null, i)),
        E::L(l) => sing("L", seq(l.iter().map(|n| i(*n)).collect())),
        E::M(m) => sing("M", map(m.iter().map(|(k, n)| (s(k), i(*n))).collect())),
    }
}
fn encr(r: &R) -> Value {
    match r {
        R::U => s("U"),
        R::B(r) => sing("B", encr(r)),
        R::T(r, n) => sing("T", seq(vec![encr(r), i(*n)])),
        R::S { r, t } => sing("S", map(vec![(s("r"), encr(r)), (s("t"), s(t))])),
        R::O(o) => sing("O", o.as_ref().map_or(Value::Null, |r| encr(r))),
        R::L(l) => sing("L", seq(l.iter().map(encr).collect())),
        R::M(m) => sing("M", map(m.iter().map(|(k, r)| (s(k), encr(r))).collect())),
        R::K(m) => sing("K", map(m.iter().map(|(k, n)| (encr(k), i(*n))).collect())),
        R::W(New(t)) => sing("W", s(t)),
        R::N(Wrap(r)) => sing("N", encr(r)),
        R::P((r, n)) => sing("P", seq(vec![encr(r), i(*n)])),
        R::Y(Two(a, b)) => sing("Y", seq(vec![encr(a), encr(b)])),
        R::F(n) => sing("F", named(n)),
        R::A([a, b]) => sing("A", seq(vec![encr(a), encr(b)])),
    }
}
fn has_value(x: &Sh) -> bool {
    match x {
        Sh::Value(_) => true,
        Sh::Some(x) | Sh::Newtype(x) | Sh::NewtypeVariant(x) => has_value(x),
        Sh::Seq(_, v) | Sh::Tuple(v) | Sh::TupleStruct(v) | Sh::Struct(v) | Sh::TupleVariant(v) | Sh::StructVariant(v) => v.iter().any(has_value),
        Sh::Map(_, _, v) | Sh::Odd(_, _, v) => v.iter().any(|(k, x)| has_value(k) || has_value(x)),
        _ => false,
    }
}
/// any serialization program under singleton_map_recursive
fn encs(x: &Sh) -> Value {
    let all = |v: &[Sh]| seq(v.iter().map(encs).collect());
    let fields = |v: &[Sh]| map(["a", "b", "c", "d"].iter().zip(v).map(|(n, x)| (s(n), encs(x))).collect());
    match x {
        Sh::Some(x) | Sh::Newtype(x) => encs(x),
        Sh::Seq(_, v) | Sh::Tuple(v) | Sh::TupleStruct(v) => all(v),
        Sh::Map(_, _, v) | Sh::Odd(_, _, v) => map(v.iter().map(|(k, x)| (encs(k), encs(x))).collect()),
        Sh::Struct(v) => fields(v),
        Sh::NewtypeVariant(x) => sing("N", encs(x)),
        Sh::TupleVariant(v) => sing("T", all(v)),
        Sh::StructVariant(v) => sing("S", fields(v)),
        x => x.value(),
    }
}
fn named(n: &Named) -> Value {
    map(vec![(s("a"), encr(&n.a)), (s("b"), n.b.as_ref().map_or(Value::Null, |w| encr(&w.0)))])
}
fn text() -> String {
    let b = text_in::<1>(b"a1~ \n:-'!#U");
    str_of(&b[..pick(2)]).to_owned()
}
fn gen_e() -> E {
    match pick(9) {
        0 => E::U,
        1 => E::V,
        2 => E::N(text()),
        3 => E::I(one(&[0i64, -7, i64::MAX])),
        4 => E::T(5, text()),
        5 => E::S { x: -5, y: text() },
        6 => E::O(if flag() { None } else { Some(3) }),
        7 => E::L(one(&[&[] as &[i64], &[1], &[-1, 2]]).to_vec()),
        _ => E::M(match pick(3) { 0 => BTreeMap::new(), 1 => [(text(), 1)].into_iter().collect(), _ => [("N".to_owned(), 1), ("a".to_owned(), 2)].into_iter().collect() }),
    }
}
fn gen_r(d: usize) -> R {
    match pick(if d == 0 { 2 } else { 16 }) {
        0 => R::U,
        1 => R::W(New(text())),
        2 => R::B(Box::new(gen_r(d - 1))),
        3 => R::T(Box::new(gen_r(d - 1)), 7),
        4 => R::S { r: Box::new(gen_r(d - 1)), t: "x".to_owned() },
        5 => R::O(None),
        6 => R::O(Some(Box::new(gen_r(d - 1)))),
        7 => R::L(if flag() { vec![] } else { vec![gen_r(d - 1), R::U] }),
        8 => R::M([(text(), gen_r(d - 1))].into_iter().collect()),
        10 => R::N(Wrap(Box::new(gen_r(d - 1)))),
        11 => R::P((Box::new(gen_r(d - 1)), 7)),
        12 => R::Y(Two(Box::new(R::U), Box::new(gen_r(d - 1)))),
        13 => R::F(Named { a: Box::new(gen_r(d - 1)), b: if flag() { None } else { Some(Wrap(Box::new(R::B(Box::new(R::U))))) } }),
        14 => R::A([Box::new(gen_r(d - 1)), Box::new(R::U)]),
        9 => R::K([(gen_r(d - 1), 1)].into_iter().collect()),
        _ => R::K([(R::U, 2), (R::B(Box::new(gen_r(d - 1))), 1)].into_iter().collect()),
    }
}
fn rt<T: Serialize + DeserializeOwned + PartialEq>(x: &T, want: &Value) {
    match serde_yaml::to_string(x) {
        Ok(y) => {
            observe(y.as_bytes());
            check(val(&y).ok().as_ref() == Some(want), 1);
            check(serde_yaml::from_str::<T>(&y).ok().as_ref() == Some(x), 2);
        }
        Err(_) => check(false, 3),
    }
    match serde_yaml::to_value(x) {
        Ok(v) => check(v == *want, 4),
        Err(_) => check(false, 5),
    }
    check(T::deserialize(want).ok().as_ref() == Some(x), 6);
    check(serde_yaml::from_value::<T>(want.clone()).ok().as_ref() == Some(x), 7);
    reach(1)
}
/// read as text, from the Value and from a reference to the Value: all must agree
fn read<T: DeserializeOwned + PartialEq + Clone>(d: &str, want: Option<T>) {
    let a = serde_yaml::from_str::<T>(d).ok();
    observe(&[a.is_some() as u8]);
    check(a == want, 20);
    if let Ok(v) = val(d) {
        check(T::deserialize(&v).ok() == want, 21);
        check(serde_yaml::from_value::<T>(v).ok() == want, 22);
    }
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Prims {
    a: bool, b: i8, c: i16, d: i32, e: i64, f: i128, g: u8, h: u16, i: u32, j: u64, k: u128, l: f32, m: f64, n: char,
    o: String, p: (), q: Unit, r: New, s: Pair, t: (u8, String), u: Option<u8>, v: Option<()>, w: Box<str>, x: [u8; 2], y: BTreeMap<i8, bool>, z: Value,
}
fn prims() -> Prims {
    Prims {
        a: flag(), b: -8, c: -300, d: -70000, e: i64::MIN, f: i128::MIN, g: 200, h: 60000, i: 4000000000, j: u64::MAX, k: u128::MAX, l: 1.5, m: -2.25, n: one(&['x', '1', '~', '\n']),
        o: text(), p: (), q: Unit, r: New("1".to_owned()), s: Pair(-1, "~".to_owned()), t: (1, String::new()), u: if flag() { None } else { Some(1) }, v: None, w: "w".into(), x: [1, 2], y: [(-1, true)].into_iter().collect(),
        z: match pick(4) { 0 => Value::Null, 1 => s("1"), 2 => seq(vec![i(1), Value::Bool(false)]), _ => map(vec![(s("U"), i(-1)), (Value::Null, s("~"))]) },
    }
}
fn plain(d: &str) -> Option<E> {
    // documents for `singleton_map` on E: the variant they denote
    Some(match d {
        "U" | "'U'" | "\"U\"" | "!!str U" | "|-\n U" => E::U,
        "N: a" | "{N: a}" | "? N\n: a" | "'N': a" | "!!str N: a" => E::N("a".to_owned()),
        "I: 0x10" => E::I(16),
        "T: [1, a]" | "T:\n- 1\n- a\n" => E::T(1, "a".to_owned()),
        "S: {x: 1, y: a}" | "S: {y: a, x: 1}" | "S: {x: 1, z: [3], y: a}" => E::S { x: 1, y: "a".to_owned() },
        "O: ~" | "O:" => E::O(None),
        "O: 4" => E::O(Some(4)),
        "L: []" => E::L(vec![]),
        "M: {}" => E::M(BTreeMap::new()),
        _ => return None,
    })
}
const DOCS: &[&str] = &[
    "U", "'U'", "\"U\"", "!!str U", "|-\n U", "N: a", "{N: a}", "? N\n: a", "'N': a", "!!str N: a", "I: 0x10", "T: [1, a]", "T:\n- 1\n- a\n", "S: {x: 1, y: a}", "S: {y: a, x: 1}", "S: {x: 1, z: [3], y: a}", "O: ~", "O:", "O: 4", "L: []", "M: {}",
    "N", "I", "T", "S", "O", "L", "M", "u", "''", "", "~", "1", "true", "[]", "[U]", "{}", "{U: ~}", "{U}", "{N: a, U: ~}", "{N: a, N: b}", "{N: a, x: b}", "{x: a}", "{I: a}", "{I: ~}", "{I: [1]}", "{1: a}", "{~: a}", "{[N]: a}",
    "T: []", "T: [1]", "T: [1, a, b]", "T: [a, 1]", "T: ~", "T: {1: a}", "S: ~", "S: {}", "S: {x: 1}", "S: {y: a}", "S: {x: 1, x: 1, y: a}", "S: x", "S: 1", "O: a", "O: []", "L: 1", "L: {}", "L: [a]", "M: []", "M: 1", "M: {a: b}",
    "T: [1, a]\nU: ~", "S: {x: 1, y: a}\nU: ~", "L: []\nU: ~", "O: 4\nO: 4",
];

harnesses! {
    //@ q reach=1 audit=256 pathz3=64 | singleton_map: every variant kind with symbolic payload, at the root, optional, in a sequence and as a mapping value, against the documented encoding
    fn h_c19_map() {
        let e = gen_e();
        let v = enc(&e);
        match pick(6) {
            0 => rt(&SM(e), &v),
            1 => rt(&SM(Some(e)), &v),
            2 => rt(&vec![SM(e), SM(E::I(1))], &seq(vec![v, sing("I", i(1))])),
            3 => { let k = text(); rt(&BTreeMap::from([(k.clone(), SM(e))]), &map(vec![(s(&k), v)])) }
            4 => rt(&(SM(e), 1i64), &seq(vec![v, i(1)])),
            _ => rt(&Some(SM(Box::new(e))), &v),
        }
    }
    //@ q reach=1 audit=256 pathz3=64 | singleton_map and singleton_map_recursive as struct field attributes next to a plain enum field
    fn h_c19_fields() {
        let (e, f) = (gen_e(), gen_e());
        let x = Fields { e: e.clone(), o: if flag() { None } else { Some(f.clone()) }, p: E::I(1), r: vec![f.clone(), E::U] };
        let o = if x.o.is_some() { enc(&f) } else { Value::Null };
        let p = Value::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("I"), value: i(1) }));
        rt(&x, &map(vec![(s("e"), enc(&e)), (s("o"), o), (s("p"), p), (s("r"), seq(vec![enc(&f), s("U")]))]))
    }
    //@ q reach=1 audit=256 pathz3=64 | singleton_map_recursive: every variant kind with enums nested in it, depth 2, at the root, in options and in collections
    fn h_c19_rec() {
        let r = gen_r(2);
        let v = encr(&r);
        match pick(7) {
            0 => rt(&SR(r), &v),
            1 => rt(&SR(Some(vec![Some(r), None])), &seq(vec![v, Value::Null])),
            2 => rt(&SR(Wrap(Box::new(r))), &v),
            3 => rt(&SR(Two(Box::new(r), Box::new(R::B(Box::new(R::U))))), &seq(vec![v, sing("B", s("U"))])),
            4 => { let n = Named { a: Box::new(r), b: None }; let v = named(&n); rt(&SR(n), &v) }
            5 => rt(&SR((r, [Box::new(R::U)])), &seq(vec![v, seq(vec![s("U")])])),
            _ => rt(&SR(BTreeMap::from([("k".to_owned(), (r, 1i64))])), &sing("k", seq(vec![v, i(1)]))),
        }
    }
    //@ q reach=1 audit=256 pathz3=64 | singleton_map_recursive over every primitive, tuple, option, array, map and Value, next to an enum
    fn h_c19_prims() {
        let p = prims();
        let x = SR((p.clone(), E::I(2)));
        // the same as without the adapter, apart from the enum
        match (serde_yaml::to_string(&x), serde_yaml::to_string(&(p.clone(), SM(E::I(2)))), serde_yaml::to_string(&SM(p.clone())), serde_yaml::to_string(&p)) {
            (Ok(a), Ok(b), Ok(c), Ok(d)) => {
                observe(a.as_bytes());
                check(a == b, 10);
                check(c == d, 11);
                check(serde_yaml::from_str::<SR<(Prims, E)>>(&a).ok() == Some(x), 12);
                check(serde_yaml::from_str::<SM<Prims>>(&c).ok() == Some(SM(p)), 13);
            }
            _ => check(false, 14),
        }
        reach(1)
    }
    //@ q reach=1 | reading with singleton_map, recursive or not: 82 documents that are or are not encodings, from text and Value, alone, in an option and in a sequence
    fn h_c19_read() {
        let d = one(DOCS);
        let w = plain(d);
        read::<SM<E>>(d, w.clone().map(SM));
        read::<SR<E>>(d, w.clone().map(SR));
        let q = ["- ", &d.replace('\n', "\n  "), "\n- V"].concat();
        read::<Vec<SM<E>>>(&q, w.clone().map(|w| vec![SM(w), SM(E::V)]));
        read::<SR<Vec<E>>>(&q, w.clone().map(|w| SR(vec![w, E::V])));
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=8 | names: every text of 1-2 letters or digits as the string or single key
    fn h_c19_name() {
        let b = ascii::<2>();
        for c in b { assume(c.is_ascii_alphanumeric()) }
        let n = str_of(&b[..1 + pick(2)]);
        let key = flag();
        let d = if key { [n, ": ~\n"].concat() } else { [n, "\n"].concat() };
        let r = serde_yaml::from_str::<SM<E>>(&d).ok();
        check(serde_yaml::from_str::<SR<E>>(&d).ok().map(|r| r.0) == r.clone().map(|r| r.0), 30);
        observe(&[r.is_some() as u8]);
        match r {
            Some(SM(E::U)) => check(!key && n == "U", 31),
            Some(SM(E::V)) => check(!key && n == "V", 32),
            Some(SM(E::N(s))) => check(key && n == "N" && s == "~", 33),
            Some(SM(E::O(None))) => check(key && n == "O", 34),
            Some(SM(E::L(v))) => check(key && n == "L" && v.is_empty(), 35),
            Some(SM(E::M(v))) => check(key && n == "M" && v.is_empty(), 36),
            Some(_) => check(false, 37),
            None => { check(key || (n != "U" && n != "V"), 38); check(!key || n != "O", 39); return reach(2) }
        }
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | serialization programs of up to 3 calls, 22 kinds, every map style and hint, under singleton_map_recursive: as text and as Value
    fn h_c19_programs() {
        let x = gen_sh(&mut 3, 3, false);
        assume(!x.repeats() && !has_value(&x));
        let w = encs(&x);
        match serde_yaml::to_value(SR(x.clone())) { Ok(v) => check(v == w, 60), Err(_) => check(false, 61) }
        match serde_yaml::to_string(&SR(x)) {
            Ok(t) => { observe(t.as_bytes()); check(val(&t).ok() == Some(w), 62) }
            Err(_) => check(false, 63),
        }
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | a variant of any kind around serialization programs of up to 2 calls under singleton_map: the payload is as without the adapter
    fn h_c19_outer() {
        let x = gen_sh(&mut 2, 2, false);
        assume(!x.repeats() && !has_value(&x));
        let v = match serde_yaml::to_value(&x) { Ok(v) => v, Err(_) => return check(false, 64) };
        let (e, w) = match pick(3) {
            0 => (Sh::NewtypeVariant(Box::new(x)), sing("N", v)),
            1 => (Sh::TupleVariant(vec![x.clone(), x]), sing("T", seq(vec![v.clone(), v]))),
            _ => (Sh::StructVariant(vec![x]), sing("S", map(vec![(s("a"), v)]))),
        };
        match serde_yaml::to_value(SM(e.clone())) { Ok(v) => check(v == w, 65), Err(_) => check(false, 66) }
        match serde_yaml::to_string(&SM(e)) {
            Ok(t) => { observe(t.as_bytes()); check(val(&t).ok() == Some(w), 67) }
            Err(_) => check(double_tag(&w), 68),
        }
        reach(1)
    }
    //@ t reach=1 audit=256 pathz3=64 | singleton_map_recursive: depth 3 nesting at the root
    fn h_c19_deep() {
        let r = gen_r(3);
        let v = encr(&r);
        rt(&SR(r), &v)
    }
}

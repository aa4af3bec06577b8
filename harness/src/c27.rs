//! C27: typed composites survive the trip through text and through Value.
use crate::sym::*;
use crate::util::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_yaml::Value;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Debug;

/// values to choose from
trait Gen: Serialize + DeserializeOwned + PartialEq + Debug + Clone {
    fn gen() -> Self;
}
const WORDS: &[&str] = &["a", "", "~", "1", "x: y", "\n", "0x1F", "- b", "<<", "!t", "true"];
impl Gen for String {
    fn gen() -> String {
        one(WORDS).to_owned()
    }
}
impl Gen for i64 {
    fn gen() -> i64 {
        one(&[0, -1, i64::MAX, i64::MIN])
    }
}
impl Gen for u8 {
    fn gen() -> u8 {
        one(&[0, 255])
    }
}
impl Gen for u64 {
    fn gen() -> u64 {
        one(&[7, u64::MAX])
    }
}
impl Gen for i128 {
    fn gen() -> i128 {
        one(&[5, -1, i128::MAX, i128::MIN, 1 << 64])
    }
}
impl Gen for f64 {
    fn gen() -> f64 {
        one(&[0.5, 1.0, -0.0, 1e300, f64::INFINITY])
    }
}
impl Gen for bool {
    fn gen() -> bool {
        flag()
    }
}
impl Gen for char {
    fn gen() -> char {
        one(&['a', '1', '~', '\n', '\u{85}', '😀'])
    }
}
impl Gen for () {
    fn gen() {}
}
impl<T: Gen> Gen for Option<T> {
    fn gen() -> Option<T> {
        if flag() { Some(T::gen()) } else { None }
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen() -> Box<T> {
        Box::new(T::gen())
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen() -> Vec<T> {
        (0..pick(3)).map(|_| T::gen()).collect()
    }
}
impl<T: Gen> Gen for VecDeque<T> {
    fn gen() -> VecDeque<T> {
        (0..pick(3)).map(|_| T::gen()).collect()
    }
}
impl<T: Gen + Ord> Gen for BTreeSet<T> {
    fn gen() -> BTreeSet<T> {
        (0..pick(3)).map(|_| T::gen()).collect()
    }
}
impl<K: Gen + Ord, T: Gen> Gen for BTreeMap<K, T> {
    fn gen() -> BTreeMap<K, T> {
        (0..pick(3)).map(|_| (K::gen(), T::gen())).collect()
    }
}
impl<A: Gen> Gen for (A,) {
    fn gen() -> (A,) {
        (A::gen(),)
    }
}
impl<A: Gen, B: Gen> Gen for (A, B) {
    fn gen() -> (A, B) {
        (A::gen(), B::gen())
    }
}
impl<A: Gen, B: Gen, C: Gen> Gen for (A, B, C) {
    fn gen() -> (A, B, C) {
        (A::gen(), B::gen(), C::gen())
    }
}
impl<A: Gen> Gen for [A; 2] {
    fn gen() -> [A; 2] {
        [A::gen(), A::gen()]
    }
}
impl<A: Gen, B: Gen> Gen for Result<A, B> {
    fn gen() -> Result<A, B> {
        if flag() { Ok(A::gen()) } else { Err(B::gen()) }
    }
}
macro_rules! gen_struct {
    ($($t:ident { $($f:ident),* })*) => { $(impl Gen for $t { fn gen() -> $t { $t { $($f: Gen::gen()),* } } })* };
}

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
struct Nil;
impl Gen for Nil {
    fn gen() -> Nil {
        Nil
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
struct Wrap<T>(T);
impl<T: Gen> Gen for Wrap<T> {
    fn gen() -> Wrap<T> {
        Wrap(T::gen())
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
struct Duo(i64, String);
impl Gen for Duo {
    fn gen() -> Duo {
        Duo(i64::gen(), String::gen())
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
struct Zero {}
impl Gen for Zero {
    fn gen() -> Zero {
        Zero {}
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Serialize, Deserialize)]
enum Word {
    A,
    #[serde(rename = "~")]
    Tilde,
    #[serde(rename = "1")]
    One,
    #[serde(rename = "x: y")]
    Colon,
}
impl Gen for Word {
    fn gen() -> Word {
        one(&[Word::A, Word::Tilde, Word::One, Word::Colon])
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
struct Key {
    k: i64,
    l: Option<String>,
}
gen_struct! { Key { k, l } }
/// field names that look like something else
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
struct Odd {
    #[serde(rename = "1")]
    a: i64,
    #[serde(rename = "null")]
    b: Option<String>,
    #[serde(rename = "")]
    c: bool,
    #[serde(rename = "x: y")]
    d: u8,
    #[serde(rename = "<<")]
    e: Option<u8>,
    #[serde(rename = "- \n#")]
    f: (),
    #[serde(rename = "!t")]
    g: Nil,
}
gen_struct! { Odd { a, b, c, d, e, f, g } }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Skip {
    #[serde(skip_serializing_if = "Option::is_none", default)]
    a: Option<u8>,
    #[serde(skip_serializing_if = "Vec::is_empty", default)]
    b: Vec<Option<bool>>,
    #[serde(default)]
    c: Option<Zero>,
    #[serde(skip)]
    d: (),
    e: [bool; 2],
}
gen_struct! { Skip { a, b, c, d, e } }
/// a recursive type
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Node {
    name: Word,
    left: Option<Box<Node>>,
    all: Vec<Node>,
}
fn node(budget: &mut usize) -> Node {
    *budget -= 1;
    let left = if *budget > 0 && flag() { Some(Box::new(node(budget))) } else { None };
    let mut all = Vec::new();
    while *budget > 0 && flag() {
        all.push(node(budget))
    }
    Node { name: Gen::gen(), left, all }
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Inner {
    x: i64,
    y: Option<String>,
}
gen_struct! { Inner { x, y } }
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Flat {
    id: u64,
    #[serde(flatten)]
    inner: Inner,
    #[serde(flatten)]
    rest: BTreeMap<String, Loose>,
}
impl Gen for Flat {
    fn gen() -> Flat {
        let mut rest: BTreeMap<String, Loose> = Gen::gen();
        rest.remove("id");
        Flat { id: u64::gen(), inner: Inner::gen(), rest }
    }
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct FlatOpt {
    a: bool,
    #[serde(flatten)]
    inner: Option<Inner>,
    #[serde(flatten)]
    kind: Adj,
}
gen_struct! { FlatOpt { a, inner, kind } }
/// untagged: told apart by what they are
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(untagged)]
enum Loose {
    Nothing,
    Flag(bool),
    Int(i64),
    Big(u64),
    Float(f64),
    Text(String),
    Pair(u8, Word),
    List(Vec<Loose>),
    Rec { k: i64 },
    Map(BTreeMap<Word, Word>),
}
impl Gen for Loose {
    fn gen() -> Loose {
        match pick(10) {
            0 => Loose::Nothing,
            1 => Loose::Flag(flag()),
            2 => Loose::Int(i64::gen()),
            3 => Loose::Big(u64::MAX),
            4 => Loose::Float(f64::gen()),
            5 => Loose::Text(String::gen()),
            6 => Loose::Pair(u8::gen(), Word::gen()),
            7 => Loose::List(one(&[&[] as &[Loose], &[Loose::Nothing], &[Loose::Flag(true), Loose::Nothing, Loose::Int(1)]]).to_vec()),
            8 => Loose::Rec { k: 3 },
            _ => Loose::Map(BTreeMap::gen()),
        }
    }
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(tag = "t")]
enum Intern {
    A,
    #[serde(rename = "~")]
    B {
        x: i64,
        y: Option<bool>,
    },
    #[serde(rename = "1")]
    C(Inner),
    M(BTreeMap<Word, bool>),
    N(Box<Intern2>),
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(tag = "u")]
enum Intern2 {
    P,
    Q { v: Vec<Word> },
}
impl Gen for Intern {
    fn gen() -> Intern {
        match pick(5) {
            0 => Intern::A,
            1 => Intern::B { x: Gen::gen(), y: Gen::gen() },
            2 => Intern::C(Gen::gen()),
            3 => Intern::M(Gen::gen()),
            _ => Intern::N(Box::new(if flag() { Intern2::P } else { Intern2::Q { v: Gen::gen() } })),
        }
    }
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
enum Adj {
    A,
    #[serde(rename = "null")]
    B(String),
    C(u8, bool),
    D {
        z: Option<i64>,
    },
    E(Vec<Word>),
}
impl Gen for Adj {
    fn gen() -> Adj {
        match pick(5) {
            0 => Adj::A,
            1 => Adj::B(Gen::gen()),
            2 => Adj::C(Gen::gen(), Gen::gen()),
            3 => Adj::D { z: Gen::gen() },
            _ => Adj::E(Gen::gen()),
        }
    }
}
/// an ordinary enum
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
enum Ext {
    U,
    N(Option<i64>),
    T(u8, String),
    S { a: Word, b: Vec<u8> },
    W(Wrap<String>),
}
impl Gen for Ext {
    fn gen() -> Ext {
        match pick(5) {
            0 => Ext::U,
            1 => Ext::N(Gen::gen()),
            2 => Ext::T(Gen::gen(), Gen::gen()),
            3 => Ext::S { a: Gen::gen(), b: Gen::gen() },
            _ => Ext::W(Gen::gen()),
        }
    }
}
/// what the standard library's types are written as
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Std {
    a: std::net::IpAddr,
    b: std::time::Duration,
    c: std::path::PathBuf,
    d: std::ops::Range<i64>,
    e: std::num::Wrapping<u8>,
    f: std::num::NonZeroU8,
    g: std::ops::Bound<u8>,
    h: std::borrow::Cow<'static, str>,
    i: std::cmp::Reverse<i8>,
    j: std::net::SocketAddr,
    k: std::marker::PhantomData<u8>,
    l: std::cell::Cell<u8>,
}

/// through text and through Value
fn trip<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T) {
    let t = match serde_yaml::to_string(x) { Ok(t) => t, Err(_) => return check(false, 1) };
    observe(t.as_bytes());
    match serde_yaml::from_str::<T>(&t) { Ok(y) => check(y == *x, 2), Err(_) => check(false, 3) }
    match serde_yaml::from_slice::<T>(t.as_bytes()) { Ok(y) => check(y == *x, 4), Err(_) => check(false, 5) }
    let v = match serde_yaml::to_value(x) { Ok(v) => v, Err(_) => return check(false, 6) };
    match T::deserialize(&v) { Ok(y) => check(y == *x, 7), Err(_) => check(false, 8) }
    match serde_yaml::from_value::<T>(v) { Ok(y) => check(y == *x, 9), Err(_) => check(false, 10) }
    reach(1)
}
/// only through text: integers over 64 bits
fn text<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T) {
    let t = match serde_yaml::to_string(x) { Ok(t) => t, Err(_) => return check(false, 11) };
    match serde_yaml::from_str::<T>(&t) { Ok(y) => check(y == *x, 12), Err(_) => check(false, 13) }
    reach(1)
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Pos<T> {
    before: Word,
    here: T,
    after: Nil,
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(untagged)]
enum OneOf {
    I(i64),
    F(f64),
    B(bool),
    U(()),
    C(char),
    S(String),
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct Chars {
    c: char,
    d: Option<char>,
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
struct FlatChars {
    #[serde(flatten)]
    x: Chars,
    #[serde(flatten)]
    rest: BTreeMap<String, OneOf>,
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
enum AdjChars {
    A(char),
    B { c: char },
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
#[serde(tag = "t")]
enum IntChars {
    A(Chars),
    B { c: char },
}
/// at some position
fn placed<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: T) {
    let w = Word::Tilde;
    match pick(6) {
        0 => trip(&x),
        1 => trip(&(x, w)),
        2 => trip(&vec![vec![x]]),
        3 => trip(&Pos { before: w, here: x, after: Nil }),
        4 => trip(&Wrap(Pos { before: w, here: (1u8, x), after: Nil })),
        _ => {
            let mut m = BTreeMap::new();
            m.insert(Word::One, vec![x]);
            m.insert(Word::Tilde, vec![]);
            trip(&m)
        }
    }
}
fn keyed<K: Gen + Ord>() {
    let mut m = BTreeMap::new();
    m.insert(K::gen(), Nil);
    if flag() {
        m.insert(K::gen(), Nil);
    }
    match pick(3) {
        0 => trip(&m),
        1 => trip(&vec![m]),
        _ => trip(&Pos { before: Word::A, here: m, after: Nil }),
    }
}

harnesses! {
    //@ q reach=1 audit=64 pathz3=16 | maps with keys of 14 types (integers, bools, chars, strings, tuples, options, structs, sequences, sets, maps, enums) at 3 positions
    fn h_c27_keys() {
        match pick(15) {
            0 => keyed::<i64>(),
            1 => keyed::<bool>(),
            2 => keyed::<char>(),
            3 => keyed::<(i64, bool)>(),
            4 => keyed::<Option<u8>>(),
            5 => keyed::<Option<Word>>(),
            6 => keyed_one(Key::gen()),
            7 => keyed::<Vec<Word>>(),
            8 => keyed::<BTreeSet<u8>>(),
            9 => keyed::<BTreeMap<bool, bool>>(),
            10 => keyed::<Word>(),
            11 => keyed::<Wrap<Option<u8>>>(),
            12 => keyed::<Nil>(),
            13 => keyed::<Zero>(),
            _ => keyed::<String>(),
        }
    }
    //@ q reach=1 audit=64 pathz3=16 | enum variants of every kind as keys and as values at 6 positions
    fn h_c27_external() {
        if flag() { keyed_one(Ext::gen()) } else { placed(Ext::gen()) }
    }
    //@ q reach=1 audit=64 pathz3=16 | structs with odd field names, defaults and skipped fields; unit, newtype and tuple structs; options, boxes, arrays, sets, deques and maps of them; 6 positions
    fn h_c27_plain() {
        match pick(16) {
            0 => placed(Odd { g: Nil, a: i64::gen(), b: if flag() { Some(String::gen()) } else { None }, c: true, d: 1, e: None, f: () }),
            1 => placed(Skip::gen()),
            2 => placed(Option::<Wrap<Word>>::gen()),
            3 => placed(Duo::gen()),
            4 => placed(Vec::<Option<Word>>::gen()),
            5 => placed(Option::<Vec<Word>>::gen()),
            6 => placed(<[Option<Zero>; 2]>::gen()),
            7 => placed(<(Nil, Zero, ())>::gen()),
            8 => placed(VecDeque::<(u8,)>::gen()),
            9 => placed(BTreeSet::<Word>::gen()),
            10 => placed(BTreeMap::<Word, Vec<bool>>::gen()),
            11 => placed(BTreeMap::<bool, Option<Box<Wrap<u8>>>>::gen()),
            12 => placed(Vec::<Vec<Vec<Nil>>>::gen()),
            13 => placed(Option::<BTreeMap<u8, Nil>>::gen()),
            14 => placed(Result::<Word, Duo>::gen()),
            _ => placed(Wrap(Wrap(char::gen()))),
        }
    }
    //@ q reach=1 audit=64 pathz3=16 | recursive structs of up to 4 nodes
    fn h_c27_tree() {
        trip(&node(&mut 4))
    }
    //@ q reach=1 audit=64 pathz3=16 | untagged enums of 10 kinds at 6 positions
    fn h_c27_untagged() {
        placed(Loose::gen())
    }
    //@ q reach=1 audit=64 pathz3=16 | internally tagged enums (5 kinds, nested) at 6 positions
    fn h_c27_internal() {
        placed(Intern::gen())
    }
    //@ q reach=1 audit=64 pathz3=16 | adjacently tagged enums of 5 kinds at 6 positions
    fn h_c27_adjacent() {
        placed(Adj::gen())
    }
    //@ q reach=1 audit=64 pathz3=16 | flattened structs, options and maps
    fn h_c27_flatten() {
        match pick(2) {
            0 => {
                let mut rest = BTreeMap::new();
                if flag() {
                    rest.insert("k".to_owned(), Loose::gen());
                }
                if flag() {
                    rest.insert("~".to_owned(), one(&[&Loose::Nothing, &Loose::Rec { k: 1 }, &Loose::Text("1".to_owned())]).clone());
                }
                trip(&Flat { id: u64::MAX, inner: Inner { x: -1, y: None }, rest })
            }
            _ => placed(FlatOpt { a: true, inner: if flag() { Some(Inner { x: 1, y: Some(String::gen()) }) } else { None }, kind: Adj::gen() }),
        }
    }
    //@ q reach=1 audit=16 pathz3=4 | a struct of 12 types of the standard library, 1 to 4 values of each
    fn h_c27_std() {
        let p = pick(4);
        let x = Std {
            a: one(&["1.2.3.4", "::1"]).parse().unwrap(),
            b: std::time::Duration::new(u64::MAX, 999_999_999),
            c: one(&["", "/a b", "~", "1"]).into(),
            d: -1..i64::MAX,
            e: std::num::Wrapping(255),
            f: std::num::NonZeroU8::new(1 + p as u8).unwrap(),
            g: match p { 0 => std::ops::Bound::Unbounded, 1 => std::ops::Bound::Included(1), _ => std::ops::Bound::Excluded(2) },
            h: one(WORDS).into(),
            i: std::cmp::Reverse(-128),
            j: one(&["1.2.3.4:80", "[::1]:443"]).parse().unwrap(),
            k: std::marker::PhantomData,
            l: std::cell::Cell::new(3),
        };
        trip(&x)
    }
    //@ q reach=1 audit=64 pathz3=16 | integers of 128 bits as element, key, field, option and variant payload, through text
    fn h_c27_wide() {
        let x = i128::gen();
        match pick(6) {
            0 => text(&vec![x, 1]),
            1 => text(&(Some(x), x as u128)),
            2 => text(&Pos { before: Word::A, here: x as u128, after: Nil }),
            3 => { let mut m = BTreeMap::new(); m.insert(x, x); text(&m) }
            4 => text(&Wrap(Some(Wrap(x)))),
            _ => text(&Ok::<i128, bool>(x)),
        }
    }
    //@ q reach=1 audit=64 pathz3=16 | every string of 2 of 22 YAML characters in 8 composites
    fn h_c27_strings() {
        let b = text_in::<2>(YAML);
        let s = str_of(&b).to_owned();
        match pick(8) {
            0 => trip(&Duo(1, s)),
            1 => trip(&Key { k: 1, l: Some(s) }),
            2 => keyed_one(Wrap(s)),
            3 => trip(&Loose::List(vec![Loose::Text(s)])),
            4 => trip(&Intern::C(Inner { x: 1, y: Some(s) })),
            5 => trip(&vec![Adj::B(s)]),
            6 => trip(&Flat { id: 0, inner: Inner { x: 0, y: None }, rest: vec![(s, Loose::Flag(true))].into_iter().collect() }),
            _ => trip(&Pos { before: Word::A, here: Some((s.clone(), [s])), after: Nil }),
        }
    }
    //@ q reach=1 audit=16 pathz3=4 | composites of 10 to 300 entries of 8 kinds around 1 of 22 YAML characters
    fn h_c27_many() {
        let n = one(&[10usize, 16, 17, 127, 128, 255, 256, 300]);
        let b = text_in::<1>(YAML);
        let s = str_of(&b).to_owned();
        let at = |i: usize| if i == n / 2 { s.clone() } else { i.to_string() };
        match pick(7) {
            0 => trip(&(0..n).map(|i| Inner { x: i as i64, y: if i % 3 == 0 { None } else { Some(at(i)) } }).collect::<Vec<_>>()),
            1 => trip(&(0..n).map(|i| (at(i), Duo(i as i64, at(i)))).collect::<BTreeMap<_, _>>()),
            2 => trip(&(0..n).map(|i| Duo(i as i64, at(i))).collect::<BTreeSet<_>>()),
            3 => trip(&(0..n).map(|i| Loose::Text(at(i))).collect::<VecDeque<_>>()),
            4 => trip(&(0..n).map(|i| (at(i), Intern::B { x: 1, y: None })).collect::<BTreeMap<_, _>>()),
            5 => trip(&(0..n).map(|i| Adj::D { z: Some(i as i64) }).collect::<Vec<_>>()),
            _ => trip(&(0..n).map(|i| Ext::T(i as u8, at(i))).collect::<Vec<_>>()),
        }
    }
    //@ q reach=1 audit=64 pathz3=16 | chars: every ASCII character and 6 others, in untagged, flattened, adjacently and internally tagged types, as key, element and variant payload
    fn h_c27_chars() {
        let c = if flag() { ascii::<1>()[0] as char } else { one(&['\u{e9}', '\u{85}', '\u{2028}', '\u{feff}', '\u{1f600}', '\u{10ffff}']) };
        match pick(8) {
            0 => placed(OneOf::C(c)),
            1 => trip(&FlatChars { x: Chars { c, d: Some(c) }, rest: [("k".to_owned(), OneOf::C(c))].into_iter().collect() }),
            2 => trip(&[AdjChars::A(c), AdjChars::B { c }]),
            3 => trip(&[IntChars::A(Chars { c, d: None }), IntChars::B { c }]),
            4 => trip(&BTreeMap::from([(c, [c])])),
            5 => trip(&BTreeMap::from([(c, OneOf::S("aa".to_owned())), ('z', OneOf::C(c))])),
            6 => trip(&Some((c, vec![c]))),
            _ => trip(&Wrap(Chars { c, d: Some(c) })),
        }
    }
    //@ q reach=1 audit=64 pathz3=16 | 54 odd strings in untagged, flattened, adjacently and internally tagged types, as key, element, field and variant payload
    fn h_c27_odd() {
        let s = odd().to_owned();
        let c = |s: &String| { let mut c = s.chars(); match (c.next(), c.next()) { (Some(a), None) => OneOf::C(a), _ => OneOf::S(s.clone()) } };
        match pick(8) {
            0 => placed(c(&s)),
            1 => trip(&FlatChars { x: Chars { c: 'x', d: None }, rest: [(if s == "c" || s == "d" { "k".to_owned() } else { s.clone() }, c(&s))].into_iter().collect() }),
            2 => trip(&vec![Adj::B(s)]),
            3 => trip(&Intern::C(Inner { x: 1, y: Some(s) })),
            4 => trip(&BTreeMap::from([(s.clone(), [s])])),
            5 => trip(&Key { k: 1, l: Some(s) }),
            6 => trip(&Ext::T(1, s)),
            _ => keyed_one(Wrap(s)),
        }
    }
    //@ t reach=1 audit=256 pathz3=64 | recursive structs of up to 5 nodes
    fn h_c27_tree5() {
        trip(&node(&mut 5))
    }
    //@ t reach=1 audit=256 pathz3=64 | every string of 3 of 22 YAML characters in 8 composites
    fn h_c27_strings3() {
        let b = text_in::<3>(YAML);
        let s = str_of(&b).to_owned();
        match pick(6) {
            0 => trip(&Duo(1, s)),
            1 => trip(&Key { k: 1, l: Some(s) }),
            2 => keyed_one(Wrap(s)),
            3 => trip(&Loose::List(vec![Loose::Text(s)])),
            4 => trip(&vec![Adj::B(s)]),
            _ => trip(&Pos { before: Word::A, here: Some((s.clone(), [s])), after: Nil }),
        }
    }
    //@ t reach=1 audit=256 pathz3=64 | odd structs with every combination of field values; two untagged values side by side; pairs of enums as key and value
    fn h_c27_pairs() {
        match pick(5) {
            0 => trip(&Odd::gen()),
            1 => trip(&(Loose::gen(), Loose::gen())),
            2 => { let mut m = BTreeMap::new(); m.insert(Ext::gen(), Ext::gen()); trip(&m) }
            3 => trip(&[Intern::gen(), Intern::gen()]),
            _ => trip(&Flat::gen()),
        }
    }
}
fn keyed_one<K: Serialize + DeserializeOwned + Ord + Debug>(k: K) {
    let mut m = BTreeMap::new();
    m.insert(k, Some(Word::A));
    match pick(3) {
        0 => trip(&m),
        1 => trip(&vec![m]),
        _ => trip(&Pos { before: Word::A, here: m, after: Nil }),
    }
}

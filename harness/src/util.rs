//! Shared helpers: text building, document templates, target types.
#![allow(dead_code)]
use crate::sym::*;
use serde::{Deserialize, Serialize};
use serde_yaml::Value;
use std::collections::BTreeMap;

pub fn val(s: &str) -> Result<Value, serde_yaml::Error> {
    serde_yaml::from_str(s)
}
/// text buffer for building documents from symbolic parts
#[derive(Default)]
pub struct Buf(pub Vec<u8>);
impl Buf {
    pub fn new() -> Buf {
        Buf(Vec::with_capacity(64))
    }
    pub fn s(&mut self, t: &str) -> &mut Buf {
        self.0.extend_from_slice(t.as_bytes());
        self
    }
    pub fn b(&mut self, t: &[u8]) -> &mut Buf {
        self.0.extend_from_slice(t);
        self
    }
    pub fn str(&self) -> &str {
        str_of(&self.0)
    }
}

/// Contexts in which symbolic bytes are placed: (prefix, suffix).
pub type Tpl = (&'static str, &'static str);
pub const TPL: &[Tpl] = &[
    ("", ""),
    ("- ", "\n- a"),
    ("a: ", ""),
    ("a:\n ", "\nb: c\n"),
    ("[a, ", "]"),
    ("{a: ", "}"),
    ("? ", "\n: b"),
    ("\"", "\""),
    ("\"\\", "\""),
    ("'", "'"),
    ("|", "\n a\n"),
    (">", "\n a\n\n b\n  c"),
    ("- |\n ", "\n- b"),
    (">\n a\n", "\n b"),
    ("!", " a"),
    ("!!", " a"),
    ("!<", "> a"),
    ("%", "\n---\na"),
    ("%TAG !", "x:\n--- !b!c a"),
    ("%YAML 1", "\n--- a"),
    ("- &", " a\n- *a"),
    ("- &a b\n- *", ""),
    ("--- a\n", "\nb"),
    ("a\n...", "b"),
    ("a #", "\nb"),
    ("!a", ": b"),
];
pub fn tdoc<const N: usize>(tpl: &[Tpl]) -> Vec<u8> {
    let (p, s) = tpl[pick(tpl.len())];
    let b = bytes::<N>();
    let mut v = Vec::with_capacity(48);
    v.extend_from_slice(p.as_bytes());
    v.extend_from_slice(&b);
    v.extend_from_slice(s.as_bytes());
    v
}
/// like `tdoc` with the bytes drawn from an alphabet
pub fn tdoc_in<const N: usize>(tpl: &[Tpl], alpha: &[u8]) -> Vec<u8> {
    let (p, s) = tpl[pick(tpl.len())];
    let b = text_in::<N>(alpha);
    let mut v = Vec::with_capacity(48);
    v.extend_from_slice(p.as_bytes());
    v.extend_from_slice(&b);
    v.extend_from_slice(s.as_bytes());
    v
}
/// characters with a meaning in YAML, plus a letter and a digit
pub const YAML: &[u8] = b"-:?,[]{}#&*!|>'\"% \n\ta1";
pub const YAML2: &[u8] = b"-:?,[]{}& *!|\"\na";

#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
pub struct Point {
    pub x: i64,
    pub y: String,
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
pub struct Opts {
    pub a: Option<i64>,
    #[serde(default)]
    pub b: Vec<bool>,
}
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
pub struct Unit;
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Serialize, Deserialize)]
pub struct New(pub String);
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
pub struct Pair(pub i64, pub String);
#[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
pub enum E {
    U,
    V,
    N(String),
    I(i64),
    T(i64, String),
    S { x: i64, y: String },
    O(Option<i64>),
    L(Vec<i64>),
    M(BTreeMap<String, i64>),
}

pub const GEN_CHARS: &[u8] = b"a1~ \n:-'!";
/// A generated Value with at most `*budget` nodes; strings are one character of GEN_CHARS.
/// `tags`: may contain tagged values (never one directly inside another).
pub fn gen_value(budget: &mut usize, depth: usize, tags: bool) -> Value {
    *budget = budget.saturating_sub(1);
    let n = if depth == 0 { 5 } else if tags { 8 } else { 7 };
    match pick(n) {
        0 => Value::Null,
        1 => Value::Bool(true),
        2 => Value::Number(7.into()),
        3 => {
            let b = text_in::<1>(GEN_CHARS);
            Value::String(str_of(&b).to_owned())
        }
        4 => Value::Number((-1.5f64).into()),
        5 => {
            let k = pick(3.min(*budget + 1));
            Value::Sequence((0..k).map(|_| gen_value(budget, depth - 1, tags)).collect())
        }
        6 => {
            let k = pick(3.min(*budget / 2 + 1));
            let mut m = serde_yaml::Mapping::new();
            for _ in 0..k {
                let key = gen_value(budget, depth - 1, tags);
                let v = gen_value(budget, depth - 1, tags);
                m.insert(key, v);
            }
            Value::Mapping(m)
        }
        _ => {
            let value = gen_value(budget, depth - 1, false);
            Value::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("t"), value }))
        }
    }
}

/// The text of a flow node of at most `*budget` nodes: scalars, sequences of up to 2 elements and mappings of up
/// to 2 entries, each with one of the tags (the first should be "").
pub fn gen_flow(out: &mut Vec<u8>, budget: &mut usize, depth: usize, tags: &[&str]) {
    *budget = budget.saturating_sub(1);
    out.extend_from_slice(one(tags).as_bytes());
    let n = if depth == 0 { 4 } else { 6 };
    match pick(n) {
        0 => out.extend_from_slice(b"1"),
        1 => out.extend_from_slice(b"x"),
        2 => out.extend_from_slice(b"''"),
        3 => out.extend_from_slice(b"~"),
        4 => {
            out.push(b'[');
            for i in 0..pick(3.min(*budget + 1)) {
                if i > 0 {
                    out.extend_from_slice(b", ");
                }
                gen_flow(out, budget, depth - 1, tags);
            }
            out.push(b']');
        }
        _ => {
            out.push(b'{');
            for i in 0..pick(3.min(*budget + 1)) {
                out.extend_from_slice([b"x: " as &[u8], b", y: "][i]);
                gen_flow(out, budget, depth - 1, tags);
            }
            out.push(b'}');
        }
    }
}

/// A serialization program: one call per data model kind, with length hints and map styles.
#[derive(Debug, Clone)]
pub enum Sh {
    Unit,
    None,
    UnitStruct,
    Bool(bool),
    Int(i64),
    Float(f64),
    Char(char),
    Str(String),
    /// through `collect_str`
    Shown(String),
    /// through `collect_str`, written in these pieces
    Pieces(&'static [&'static str]),
    Some(Box<Sh>),
    Newtype(Box<Sh>),
    /// a sequence, with or without its length
    Seq(bool, Vec<Sh>),
    Tuple(Vec<Sh>),
    TupleStruct(Vec<Sh>),
    /// a map, with or without its length, by `serialize_entry` or by key and value
    Map(bool, bool, Vec<(Sh, Sh)>),
    /// a map announced with some length
    Odd(usize, bool, Vec<(Sh, Sh)>),
    Struct(Vec<Sh>),
    UnitVariant,
    NewtypeVariant(Box<Sh>),
    TupleVariant(Vec<Sh>),
    StructVariant(Vec<Sh>),
    Value(Value),
}
const NAMES: [&str; 4] = ["a", "b", "c", "d"];
struct Show<'a>(&'a str);
impl<'a> std::fmt::Display for Show<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
struct ShowPieces(&'static [&'static str]);
impl std::fmt::Display for ShowPieces {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.iter().try_for_each(|p| f.write_str(p))
    }
}
fn map_of<S: serde::Serializer>(s: S, hint: Option<usize>, entry: bool, v: &[(Sh, Sh)]) -> Result<S::Ok, S::Error> {
    use serde::ser::SerializeMap;
    let mut q = s.serialize_map(hint)?;
    for (k, x) in v {
        if entry {
            q.serialize_entry(k, x)?;
        } else {
            q.serialize_key(k)?;
            q.serialize_value(x)?;
        }
    }
    q.end()
}
impl Serialize for Sh {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        match self {
            Sh::Unit => s.serialize_unit(),
            Sh::None => s.serialize_none(),
            Sh::UnitStruct => s.serialize_unit_struct("X"),
            Sh::Bool(b) => s.serialize_bool(*b),
            Sh::Int(i) => s.serialize_i64(*i),
            Sh::Float(f) => s.serialize_f64(*f),
            Sh::Char(c) => s.serialize_char(*c),
            Sh::Str(t) => s.serialize_str(t),
            Sh::Shown(t) => s.collect_str(&Show(t)),
            Sh::Pieces(p) => s.collect_str(&ShowPieces(p)),
            Sh::Some(x) => s.serialize_some(&**x),
            Sh::Newtype(x) => s.serialize_newtype_struct("X", &**x),
            Sh::Seq(hint, v) => {
                let mut q = s.serialize_seq(if *hint { Some(v.len()) } else { None })?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Sh::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Sh::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("X", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Sh::Map(hint, entry, v) => map_of(s, if *hint { Some(v.len()) } else { None }, *entry, v),
            Sh::Odd(hint, entry, v) => map_of(s, Some(*hint), *entry, v),
            Sh::Struct(v) => {
                let mut q = s.serialize_struct("X", v.len())?;
                for (n, x) in NAMES.iter().zip(v) {
                    q.serialize_field(n, x)?;
                }
                q.end()
            }
            Sh::UnitVariant => s.serialize_unit_variant("X", 0, "U"),
            Sh::NewtypeVariant(x) => s.serialize_newtype_variant("X", 1, "N", &**x),
            Sh::TupleVariant(v) => {
                let mut q = s.serialize_tuple_variant("X", 2, "T", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Sh::StructVariant(v) => {
                let mut q = s.serialize_struct_variant("X", 3, "S", v.len())?;
                for (n, x) in NAMES.iter().zip(v) {
                    q.serialize_field(n, x)?;
                }
                q.end()
            }
            Sh::Value(v) => v.serialize(s),
        }
    }
}
pub fn tagged(t: &str, value: Value) -> Value {
    Value::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new(t), value }))
}
impl Sh {
    /// the Value it denotes
    pub fn value(&self) -> Value {
        let seq = |v: &[Sh]| Value::Sequence(v.iter().map(Sh::value).collect());
        let fields = |v: &[Sh]| Value::Mapping(NAMES.iter().zip(v).map(|(n, x)| (Value::from(*n), x.value())).collect());
        match self {
            Sh::Unit | Sh::None | Sh::UnitStruct => Value::Null,
            Sh::Bool(b) => Value::Bool(*b),
            Sh::Int(i) => Value::Number((*i).into()),
            Sh::Float(f) => Value::Number((*f).into()),
            Sh::Char(c) => Value::String(c.to_string()),
            Sh::Str(t) | Sh::Shown(t) => Value::String(t.clone()),
            Sh::Pieces(p) => Value::String(p.concat()),
            Sh::Some(x) | Sh::Newtype(x) => x.value(),
            Sh::Seq(_, v) | Sh::Tuple(v) | Sh::TupleStruct(v) => seq(v),
            Sh::Map(_, _, v) | Sh::Odd(_, _, v) => Value::Mapping(v.iter().map(|(k, x)| (k.value(), x.value())).collect()),
            Sh::Struct(v) => fields(v),
            Sh::UnitVariant => Value::from("U"),
            Sh::NewtypeVariant(x) => tagged("N", x.value()),
            Sh::TupleVariant(v) => tagged("T", seq(v)),
            Sh::StructVariant(v) => tagged("S", fields(v)),
            Sh::Value(v) => v.clone(),
        }
    }
    /// a char is always quoted in text, a String only where needed
    pub fn has_char(&self) -> bool {
        match self {
            Sh::Char(_) => true,
            Sh::Some(x) | Sh::Newtype(x) | Sh::NewtypeVariant(x) => x.has_char(),
            Sh::Seq(_, v) | Sh::Tuple(v) | Sh::TupleStruct(v) | Sh::Struct(v) | Sh::TupleVariant(v) | Sh::StructVariant(v) => v.iter().any(Sh::has_char),
            Sh::Map(_, _, v) | Sh::Odd(_, _, v) => v.iter().any(|(k, x)| k.has_char() || x.has_char()),
            _ => false,
        }
    }
    /// number of children that are mapping entries lost to equal keys
    pub fn repeats(&self) -> bool {
        match self {
            Sh::Some(x) | Sh::Newtype(x) | Sh::NewtypeVariant(x) => x.repeats(),
            Sh::Seq(_, v) | Sh::Tuple(v) | Sh::TupleStruct(v) | Sh::Struct(v) | Sh::TupleVariant(v) | Sh::StructVariant(v) => v.iter().any(Sh::repeats),
            Sh::Map(_, _, v) | Sh::Odd(_, _, v) => {
                v.iter().any(|(k, x)| k.repeats() || x.repeats()) || v.iter().enumerate().any(|(i, (k, _))| v[..i].iter().any(|(l, _)| k.value() == l.value()))
            }
            _ => false,
        }
    }
}
/// is there a tagged value directly inside a tagged value?
pub fn double_tag(v: &Value) -> bool {
    match v {
        Value::Tagged(t) => matches!(t.value, Value::Tagged(_)) || double_tag(&t.value),
        Value::Sequence(s) => s.iter().any(double_tag),
        Value::Mapping(m) => m.iter().any(|(k, v)| double_tag(k) || double_tag(v)),
        _ => false,
    }
}
/// A program with at most `*budget` calls; `few`: without the kinds that differ only in name.
pub fn gen_sh(budget: &mut usize, depth: usize, few: bool) -> Sh {
    *budget = budget.saturating_sub(1);
    let d = depth.saturating_sub(1);
    let leaf = if few { 3 } else { 10 };
    let mut k = pick(if depth == 0 || *budget == 0 { leaf + 3 } else if few { leaf + 10 } else { leaf + 12 });
    if k < leaf {
        if few {
            k += 7;
        }
        return match k {
            0 => Sh::Unit,
            1 => Sh::None,
            2 => Sh::UnitStruct,
            3 => Sh::Bool(false),
            4 => Sh::Float(-0.5),
            5 => Sh::Char(one(&['x', '1', '\n'])),
            6 => Sh::Shown(one(&["s", "1", "", "x\ny"]).to_owned()),
            7 => Sh::Int(-7),
            8 => Sh::Str(str_of(&text_in::<1>(b"a~\n")).to_owned()),
            _ => Sh::UnitVariant,
        };
    }
    k -= leaf;
    let mut many = |n: usize, b: &mut usize| -> Vec<Sh> {
        let n = pick(n.min(*b) + 1);
        (0..n).map(|_| gen_sh(b, d, few)).collect()
    };
    match k {
        0 => Sh::Seq(true, vec![]),
        1 => Sh::Map(flag(), true, vec![]),
        2 => Sh::StructVariant(vec![]),
        3 => Sh::Seq(false, many(2, budget)),
        4 | 5 => {
            let hint = flag();
            let n = pick(3.min(*budget / 2 + 1));
            Sh::Map(hint, k == 4, (0..n).map(|_| { let a = gen_sh(budget, d, few); (a, gen_sh(budget, d, few)) }).collect())
        }
        6 => Sh::NewtypeVariant(Box::new(gen_sh(budget, d, few))),
        7 => Sh::TupleVariant(many(2, budget)),
        8 => Sh::StructVariant(many(2, budget)),
        9 => Sh::Some(Box::new(gen_sh(budget, d, few))),
        10 => Sh::Tuple(many(2, budget)),
        _ => Sh::Value(tagged("v", gen_sh(budget, d, true).value())),
    }
}

/// A map of 0 to 2 entries with keys of several kinds, announced with any length, in 7 surroundings.
pub fn gen_hinted() -> Sh {
    let key = || match pick(9) {
        0 => Sh::Int(1),
        1 => Sh::Str(str_of(&text_in::<1>(b"a~!")).to_owned()),
        2 => Sh::Pieces(one(&[&["!"] as &[&str], &["!a"], &["", "!", "a", "", "b"], &["a", "!b"], &["!", "!", "!"], &[], &["x", "y"]])),
        3 => Sh::Seq(true, vec![]),
        4 => Sh::Odd(1, flag(), vec![]),
        5 => Sh::Odd(1, true, vec![(Sh::Int(2), Sh::Unit)]),
        6 => Sh::UnitVariant,
        7 => Sh::NewtypeVariant(Box::new(Sh::Int(3))),
        _ => Sh::Some(Box::new(Sh::Bool(true))),
    };
    let val = || match pick(5) {
        0 => Sh::Int(5),
        1 => Sh::Odd(1, true, vec![]),
        2 => Sh::NewtypeVariant(Box::new(Sh::Int(3))),
        3 => Sh::Seq(false, vec![Sh::Odd(1, true, vec![])]),
        _ => Sh::Map(true, false, vec![(Sh::Int(2), Sh::Unit)]),
    };
    let n = pick(3);
    let x = Sh::Odd(pick(4), flag(), (0..n).map(|i| if i == 0 { (key(), val()) } else { (if flag() { Sh::Int(8) } else { Sh::NewtypeVariant(Box::new(Sh::Unit)) }, if flag() { Sh::Int(5) } else { Sh::Odd(1, true, vec![]) }) }).collect());
    match pick(7) {
        0 => x,
        1 => Sh::Seq(true, vec![x, Sh::Int(9)]),
        2 => Sh::Map(true, flag(), vec![(Sh::Int(9), x)]),
        3 => Sh::Map(true, flag(), vec![(x, Sh::Int(9))]),
        4 => Sh::NewtypeVariant(Box::new(x)),
        5 => Sh::TupleVariant(vec![x.clone(), x]),
        _ => Sh::Some(Box::new(x)),
    }
}

/// strings that stand out: empty, blanks, control characters, look-alikes of other scalars, indicators, wide characters
pub const ODD: &[&str] = &[
    "", "a", "\0", "a\0", " a", "a ", "a\n", "\n", "null", "~", "true", "FALSE", "yes", "1", "-1", "007", "1.5", "1e3", ".inf", ".NaN", "0x1f", "<<", "=", "!", "!t", "a: b", "a:", "- a", "-", "?", "# a", "a #b", "&a", "*a",
    "---", "...", "\u{e9}", "\u{feff}", "\u{1f600}", "\u{85}", "\t", "'", "\"", "\\", "|", "%", "@", ",", "[", "{}", "A", "aa", "18446744073709551616", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa b",
];
pub fn odd() -> &'static str {
    one(ODD)
}
/// a Value of every kind
pub fn any_kind() -> Value {
    match pick(9) {
        0 => Value::Null,
        1 => Value::Bool(false),
        2 => Value::from(0),
        3 => Value::from(f64::NAN),
        4 => Value::from(""),
        5 => Value::Sequence(vec![]),
        6 => Value::Sequence(vec![Value::Null, Value::from(-1)]),
        7 => Value::Mapping([(Value::Null, Value::Null)].into_iter().collect()),
        _ => tagged("t", Value::Null),
    }
}

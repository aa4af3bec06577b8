//! C28: data errors name the path of the offending node and where it starts.
use crate::sym::*;
use crate::util::*;
use serde::de::{DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{Deserialize, Deserializer};
use serde_yaml::Value;
use std::collections::BTreeMap;
use std::fmt;

/// one level of nesting on the way to the offending node
#[derive(Clone)]
enum Step {
    /// element `.0` of a sequence
    Seq(usize),
    /// value of entry `.0` of a mapping
    Map(usize),
    Some,
    Newtype,
    Variant,
    /// element `.0` of a tuple variant
    TupleVariant(usize),
    /// field `.0` of a struct variant
    StructVariant(usize),
}
/// what is wrong with the last node
const KINDS: usize = 14;
#[derive(Debug, Deserialize)]
#[serde(deny_unknown_fields)]
struct Rec {
    #[allow(dead_code)]
    q: i64,
}
#[derive(Debug, Deserialize)]
enum Var {
    #[allow(dead_code)]
    A,
    #[allow(dead_code)]
    B(i64),
}
#[derive(Debug)]
struct Picky;
impl<'de> Deserialize<'de> for Picky {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Picky, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Picky;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("picky")
            }
            fn visit_str<E: serde::de::Error>(self, _: &str) -> Result<Picky, E> {
                Err(E::custom("not this one"))
            }
        }
        d.deserialize_str(V)
    }
}
/// the text of the node, where in it the error is, and the message
fn node(kind: usize) -> (&'static str, usize, &'static str) {
    match kind {
        0 => ("oops", 0, "invalid type: string \"oops\", expected i64"),
        1 => ("300", 0, "invalid value: integer `300`, expected u8"),
        2 => ("{}", 0, "missing field `q`"),
        3 => ("{q: 1, w: 2}", 7, "unknown field `w`, expected `q`"),
        4 => ("C", 0, "unknown variant `C`, expected `A` or `B`"),
        5 => ("[1, 2, 3]", 0, "invalid length 3, expected sequence of 2 elements"),
        6 => ("'x'", 0, "not this one"),
        7 => ("[1]", 0, "invalid type: sequence, expected a string"),
        8 => ("{x: 1, x: 2}", 0, "duplicate entry with key \"x\""),
        9 => ("{1: 2, k: 3}", 7, "invalid type: string \"k\", expected i64"),
        10 => ("[1]", 0, "invalid length 1, expected a tuple of size 2"),
        11 => ("ab", 0, "invalid value: string \"ab\", expected a character"),
        12 => ("~", 0, "invalid type: unit value, expected u8"),
        _ => ("{x: 1}", 0, "invalid type: map, expected a boolean"),
    }
}
fn last<'de, D: Deserializer<'de>>(d: D, kind: usize) -> Result<(), D::Error> {
    match kind {
        0 => i64::deserialize(d).map(drop),
        1 => u8::deserialize(d).map(drop),
        2 | 3 => Rec::deserialize(d).map(drop),
        4 => Var::deserialize(d).map(drop),
        5 => <(i64, i64)>::deserialize(d).map(drop),
        6 => Picky::deserialize(d).map(drop),
        7 => String::deserialize(d).map(drop),
        8 => Value::deserialize(d).map(drop),
        9 => BTreeMap::<i64, i64>::deserialize(d).map(drop),
        10 => <(i64, i64)>::deserialize(d).map(drop),
        11 => char::deserialize(d).map(drop),
        12 => u8::deserialize(d).map(drop),
        _ => bool::deserialize(d).map(drop),
    }
}
/// reads along the steps; what is beside them is ignored
struct Walk<'a>(&'a [Step], usize);
impl<'a, 'de> DeserializeSeed<'de> for Walk<'a> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.0.first() {
            None => last(d, self.1),
            Some(Step::Seq(_)) => d.deserialize_seq(self),
            Some(Step::Map(_)) => d.deserialize_map(self),
            Some(Step::Some) => d.deserialize_option(self),
            Some(Step::Newtype) => d.deserialize_newtype_struct("N", self),
            Some(_) => d.deserialize_enum("E", &["V"], self),
        }
    }
}
impl<'a> Walk<'a> {
    fn next(&self) -> Walk<'a> {
        Walk(&self.0[1..], self.1)
    }
}
impl<'a, 'de> Visitor<'de> for Walk<'a> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("something else")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let n = match self.0[0] {
            Step::Seq(n) | Step::TupleVariant(n) => n,
            _ => return Ok(()),
        };
        for _ in 0..n {
            a.next_element::<IgnoredAny>()?;
        }
        a.next_element_seed(self.next())?;
        while a.next_element::<IgnoredAny>()?.is_some() {}
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let n = match self.0[0] {
            Step::Map(n) | Step::StructVariant(n) => n,
            _ => return Ok(()),
        };
        for _ in 0..n {
            a.next_entry::<IgnoredAny, IgnoredAny>()?;
        }
        a.next_key::<IgnoredAny>()?;
        a.next_value_seed(self.next())?;
        while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {}
        Ok(())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.next().deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.next().deserialize(d)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (_, v) = a.variant::<String>()?;
        match self.0[0] {
            Step::Variant => v.newtype_variant_seed(self.next()),
            Step::TupleVariant(_) => v.tuple_variant(2, self),
            _ => v.struct_variant(&["a", "b"], self),
        }
    }
}
/// the document so far, the rest of it (backwards), the path and the steps
struct Doc {
    text: String,
    close: Vec<&'static str>,
    /// None at the root
    path: Option<String>,
    steps: Vec<Step>,
}
impl Doc {
    fn new() -> Doc {
        Doc { text: String::new(), close: vec![], path: None, steps: vec![] }
    }
    fn index(&mut self, i: usize) {
        let p = self.path.take().unwrap_or(".".to_owned());
        self.path = Some(format!("{p}[{i}]"));
    }
    fn key(&mut self, k: &str) {
        self.path = Some(match self.path.take() {
            None => k.to_owned(),
            Some(p) => format!("{p}.{k}"),
        });
    }
    fn step(&mut self, s: usize) {
        match s {
            0 => {
                let n = pick(3);
                self.text += ["[", "[[], ", "[x, {a: b}, "][n];
                self.close.push(["]", ", {}]", ", y]"][n]);
                self.index(n);
                self.steps.push(Step::Seq(n));
            }
            1 => {
                let n = pick(3);
                self.text += ["{", "{p: [], ", "{p: x, [y]: z, "][n];
                self.close.push(["}", ", r: s}", ", 'r': {}}"][n]);
                // the key as written, and as shown
                let (k, shown) = match pick(7) {
                    0 => ("k", "k"),
                    1 => ("'a b'", "a b"),
                    2 => ("\"\\x41.b\"", "A.b"),
                    3 => ("1.50", "1.50"),
                    4 => ("[u]", "?"),
                    5 => ("!t k", "k"),
                    _ => ("''", ""),
                };
                self.text += k;
                self.text += ": ";
                self.key(shown);
                self.steps.push(Step::Map(n));
            }
            2 => self.steps.push(Step::Some),
            3 => self.steps.push(Step::Newtype),
            4 => {
                self.text += "!V ";
                self.steps.push(Step::Variant);
            }
            5 => {
                let n = pick(2);
                self.text += ["!V [", "!V [x, "][n];
                self.close.push("]");
                self.index(n);
                self.steps.push(Step::TupleVariant(n));
            }
            _ => {
                let n = pick(2);
                self.text += ["!V {b: ", "!V {a: x, b: "][n];
                self.close.push("}");
                self.key("b");
                self.steps.push(Step::StructVariant(n));
            }
        }
    }
    /// is the next node the payload of a variant?
    fn tagged(&self) -> bool {
        matches!(self.steps.iter().rev().find(|s| !matches!(s, Step::Some | Step::Newtype)), Some(Step::Variant))
    }
    /// can an error of this kind be made here?
    fn takes(&self, kind: usize) -> bool {
        let wrapped = |s: &&Step| matches!(s, Step::Some | Step::Newtype | Step::Variant);
        match kind {
            4 => !self.tagged(),
            // null is no value of an option
            12 => !self.steps.iter().rev().take_while(wrapped).any(|s| matches!(s, Step::Some)),
            _ => true,
        }
    }
    fn steps(&mut self, n: usize) {
        for _ in 0..pick(n + 1) {
            let s = pick(7);
            // a tag is followed by a node, not another tag
            assume(!(self.tagged() && s >= 4));
            self.step(s);
        }
    }
    fn end(&mut self) {
        while let Some(c) = self.close.pop() {
            self.text += c;
        }
    }
}
/// reads the document, which is wrong at `at`
fn fails(doc: &str, at: usize, path: &Option<String>, steps: &[Step], kind: usize) {
    let e = match Walk(steps, kind).deserialize(serde_yaml::Deserializer::from_str(doc)) {
        Ok(()) => return check(false, 1),
        Err(e) => e,
    };
    let (mut line, mut col) = (1, 1);
    for c in doc[..at].chars() {
        if c == '\n' {
            line += 1;
            col = 1
        } else {
            col += 1
        }
    }
    match e.location() {
        Some(l) => check(l.index() == at && l.line() == line && l.column() == col, 2),
        None => check(false, 3),
    }
    let msg = node(kind).2;
    let mut want = match path {
        Some(p) if p != "." => format!("{p}: {msg}"),
        _ => msg.to_owned(),
    };
    if at != 0 {
        want += &format!(" at line {line} column {col}");
    }
    let got = e.to_string();
    observe(got.as_bytes());
    check(same(got.as_bytes(), want.as_bytes()), 4);
    reach(1)
}
fn plain(steps: usize) {
    let mut d = Doc::new();
    d.text += one(&["", "# \u{e9}\n", "--- "]);
    d.steps(steps);
    let kind = pick(KINDS);
    assume(d.takes(kind));
    let (text, off, _) = node(kind);
    // a variant's tag belongs to its payload
    let at = if off == 0 && d.tagged() { d.text.len() - 3 } else { d.text.len() + off };
    d.text += text;
    d.end();
    fails(&d.text, at, &d.path, &d.steps, kind)
}
/// the offending node is in (or is) an anchored node reached through an alias
fn aliased(before: usize, after: usize) {
    let mut outer = Doc::new();
    outer.text += "- ";
    outer.index(1);
    outer.steps.push(Step::Seq(1));
    outer.steps(before);
    assume(!outer.tagged());
    let mut inner = Doc::new();
    inner.text += "- &a ";
    inner.path = outer.path.take();
    inner.steps = std::mem::take(&mut outer.steps);
    let n = inner.steps.len();
    inner.steps(after);
    let kind = pick(KINDS);
    assume(inner.takes(kind));
    let (text, off, _) = node(kind);
    let whole = inner.steps[n..].iter().all(|s| matches!(s, Step::Some | Step::Newtype | Step::Variant));
    // the anchor and the tag belong to the node
    let at = if off != 0 { inner.text.len() + off } else if whole { 2 } else if inner.tagged() { inner.text.len() - 3 } else { inner.text.len() };
    inner.text += text;
    inner.end();
    outer.text += "*a ";
    outer.end();
    fails(&format!("{}\n{}\n", inner.text, outer.text), at, &inner.path, &inner.steps, kind)
}

harnesses! {
    //@ q reach=1 audit=64 pathz3=16 | 14 kinds of error below every path of up to 2 steps out of 7 kinds (elements 0 to 2, entries with 7 kinds of key, options, newtypes, variants), 3 prologues
    fn h_c28_path() { plain(2) }
    //@ q reach=1 audit=64 pathz3=16 | 14 kinds of error in a node reached through an alias, up to 1 step before and 1 after it
    fn h_c28_alias() { aliased(1, 1) }
    //@ q reach=1 audit=64 pathz3=16 | block style: 1 or 2 keys of 1 or 2 symbolic characters and 12 indices from 0 to 5000 above an error
    fn h_c28_block() {
        let k = text_in::<2>(b"ab.0-_ ");
        let l = text_in::<1>(b"c.?[1~");
        let (k, l) = (str_of(&k), str_of(&l));
        let n = one(&[0usize, 1, 9, 10, 99, 100, 255, 256, 300, 1000, 1001, 5000]);
        let head = format!("\"{k}\":\n{}\n  - '{l}': ", "  - 1\n".repeat(n));
        let doc = format!("{head}oops\n    y: z\n");
        fails(&doc, head.len(), &Some(format!("{k}[{n}].{l}")), &[Step::Map(0), Step::Seq(n), Step::Map(0)], 0)
    }
    //@ q reach=1 audit=64 pathz3=16 | paths of 10 to 100 levels of elements and entries above 14 kinds of error, keys of 1 to 300 characters
    fn h_c28_deep() {
        let mut d = Doc::new();
        let n = one(&[10usize, 31, 32, 33, 100]);
        let key = "k".repeat(one(&[1usize, 127, 128, 255, 256, 300]));
        let odd = pick(2);
        for i in 0..n {
            if i % 2 == odd {
                d.text += "[x, ";
                d.close.push("]");
                d.index(1);
                d.steps.push(Step::Seq(1));
            } else {
                d.text += "{a: b, ";
                d.text += &key;
                d.text += ": ";
                d.close.push("}");
                d.key(&key);
                d.steps.push(Step::Map(1));
            }
        }
        let kind = pick(KINDS);
        let (text, off, _) = node(kind);
        let at = d.text.len() + off;
        d.text += text;
        d.end();
        fails(&d.text, at, &d.path, &d.steps, kind)
    }
    //@ t reach=1 audit=64 pathz3=16 | 14 kinds of error below every path of up to 3 steps out of 7 kinds, 3 prologues
    fn h_c28_path3() { plain(3) }
    //@ t reach=1 audit=64 pathz3=16 | 14 kinds of error in a node reached through an alias, up to 2 steps before and 1 after it
    fn h_c28_alias21() { aliased(2, 1) }
    //@ t reach=1 audit=64 pathz3=16 | 14 kinds of error in a node reached through an alias, up to 1 step before and 2 after it
    fn h_c28_alias12() { aliased(1, 2) }
}

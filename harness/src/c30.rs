//! C30: a Value is the same whichever way it is built.
use crate::sym::*;
use crate::util::*;
use serde::de::value::Error as VErr;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::{forward_to_deserialize_any, Deserialize, Serialize};
use serde_yaml::value::TaggedValue;
use serde_yaml::{Mapping, Number, Value};
use std::borrow::Cow;

/// some other format's data: says what it is whatever is asked for
#[derive(Debug, Clone)]
enum D {
    Unit,
    None,
    Some(Box<D>),
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Owned(String),
    Borrowed(&'static str),
    Seq(Option<usize>, Vec<D>),
    Map(Option<usize>, Vec<(D, D)>),
    Enum(Box<D>, Box<D>),
    // without a Value
    I128(i128),
    U128(u128),
    Bytes,
}
struct S<'a>(std::slice::Iter<'a, D>, Option<usize>);
impl<'de, 'a> SeqAccess<'de> for S<'a> {
    type Error = VErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, VErr> {
        self.0.next().map(|d| seed.deserialize(d)).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        self.1
    }
}
struct M<'a>(&'a [(D, D)], Option<usize>);
impl<'de, 'a> MapAccess<'de> for M<'a> {
    type Error = VErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, VErr> {
        match self.0.first() {
            Some((k, _)) => seed.deserialize(k).map(Some),
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, VErr> {
        let v = &self.0[0].1;
        self.0 = &self.0[1..];
        seed.deserialize(v)
    }
    fn size_hint(&self) -> Option<usize> {
        self.1
    }
}
struct En<'a>(&'a D, &'a D);
impl<'de, 'a> EnumAccess<'de> for En<'a> {
    type Error = VErr;
    type Variant = &'a D;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, &'a D), VErr> {
        Ok((seed.deserialize(self.0)?, self.1))
    }
}
impl<'de, 'a> VariantAccess<'de> for &'a D {
    type Error = VErr;
    fn unit_variant(self) -> Result<(), VErr> {
        Err(de::Error::custom("not a unit variant"))
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, VErr> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, VErr> {
        Err(de::Error::custom("not a tuple variant"))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, VErr> {
        Err(de::Error::custom("not a struct variant"))
    }
}
impl<'de, 'a> Deserializer<'de> for &'a D {
    type Error = VErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> {
        match self {
            D::Unit => v.visit_unit(),
            D::None => v.visit_none(),
            D::Some(d) => v.visit_some(&**d),
            D::Bool(b) => v.visit_bool(*b),
            D::I8(x) => v.visit_i8(*x),
            D::I16(x) => v.visit_i16(*x),
            D::I32(x) => v.visit_i32(*x),
            D::I64(x) => v.visit_i64(*x),
            D::U8(x) => v.visit_u8(*x),
            D::U16(x) => v.visit_u16(*x),
            D::U32(x) => v.visit_u32(*x),
            D::U64(x) => v.visit_u64(*x),
            D::F32(x) => v.visit_f32(*x),
            D::F64(x) => v.visit_f64(*x),
            D::Char(c) => v.visit_char(*c),
            D::Str(s) => v.visit_str(s),
            D::Owned(s) => v.visit_string(s.clone()),
            D::Borrowed(s) => v.visit_borrowed_str(s),
            D::Seq(h, x) => v.visit_seq(S(x.iter(), *h)),
            D::Map(h, x) => v.visit_map(M(x, *h)),
            D::Enum(t, x) => v.visit_enum(En(t, x)),
            D::I128(x) => v.visit_i128(*x),
            D::U128(x) => v.visit_u128(*x),
            D::Bytes => v.visit_bytes(b"ab"),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl D {
    /// the Value it says, if it says one
    fn value(&self) -> Option<Value> {
        Some(match self {
            D::Unit | D::None => Value::Null,
            D::Some(d) => return d.value(),
            D::Bool(b) => Value::Bool(*b),
            D::I8(x) => int(*x as i64),
            D::I16(x) => int(*x as i64),
            D::I32(x) => int(*x as i64),
            D::I64(x) => int(*x),
            D::U8(x) => uint(*x as u64),
            D::U16(x) => uint(*x as u64),
            D::U32(x) => uint(*x as u64),
            D::U64(x) => uint(*x),
            D::F32(x) => Value::Number(Number::from(*x as f64)),
            D::F64(x) => Value::Number(Number::from(*x)),
            D::Char(c) => Value::String(c.to_string()),
            D::Str(s) | D::Owned(s) => Value::String(s.clone()),
            D::Borrowed(s) => Value::String((*s).to_owned()),
            D::Seq(_, v) => {
                let mut q = Vec::new();
                for x in v {
                    q.push(x.value()?)
                }
                Value::Sequence(q)
            }
            D::Map(_, v) => {
                let mut m = Mapping::new();
                for (k, x) in v {
                    if m.insert(k.value()?, x.value()?).is_some() {
                        return None;
                    }
                }
                Value::Mapping(m)
            }
            D::Enum(t, x) => match t.value()? {
                Value::String(t) if !t.is_empty() => tagged(&t, x.value()?),
                _ => return None,
            },
            D::I128(_) | D::U128(_) | D::Bytes => return None,
        })
    }
}
fn int(x: i64) -> Value {
    Value::Number(Number::from(x))
}
fn uint(x: u64) -> Value {
    Value::Number(Number::from(x))
}
/// same value of the same kind; entries in the same order; NaN is NaN
fn equal(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Mapping(a), Value::Mapping(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| equal(k, l) && equal(x, y)),
        (Value::Sequence(a), Value::Sequence(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| equal(x, y)),
        (Value::Tagged(a), Value::Tagged(b)) => a.tag == b.tag && equal(&a.value, &b.value),
        (Value::Number(x), Value::Number(y)) => x.is_f64() == y.is_f64() && x == y,
        _ => a == b,
    }
}
fn gen(budget: &mut usize, depth: usize) -> D {
    *budget = budget.saturating_sub(1);
    match pick(if depth == 0 { 20 } else { 24 }) {
        0 => D::Unit,
        1 => D::None,
        2 => D::Bool(flag()),
        3 => D::I8(-128),
        4 => D::I16(-1),
        5 => D::I32(i32::MIN),
        6 => D::I64(one(&[0, i64::MIN])),
        7 => D::U8(255),
        8 => D::U16(65535),
        9 => D::U32(u32::MAX),
        10 => D::U64(u64::MAX),
        11 => D::F32(one(&[0.1, f32::NAN, -0.0])),
        12 => D::F64(one(&[0.1, f64::NEG_INFINITY, 1.0])),
        13 => D::Char(one(&['a', '😀'])),
        14 => D::Str(one(&["a", ""]).to_owned()),
        15 => D::Owned(one(&["a", "~"]).to_owned()),
        16 => D::Borrowed(one(&["a", "1"])),
        17 => D::I128(7),
        18 => D::U128(7),
        19 => D::Bytes,
        20 => D::Some(Box::new(gen(budget, depth - 1))),
        21 => {
            let n = pick(3.min(*budget + 1));
            D::Seq(one(&[None, Some(0), Some(2), Some(usize::MAX)]), (0..n).map(|_| gen(budget, depth - 1)).collect())
        }
        22 => {
            let n = pick(3.min(*budget / 2 + 1));
            D::Map(one(&[None, Some(0), Some(2), Some(usize::MAX)]), (0..n).map(|_| (gen(budget, depth - 1), gen(budget, depth - 1))).collect())
        }
        _ => {
            *budget = budget.saturating_sub(1);
            let t = match pick(5) { 0 => D::Str("t".to_owned()), 1 => D::Owned("x".to_owned()), 2 => D::Borrowed("t"), 3 => D::Str(String::new()), _ => D::Char('c') };
            D::Enum(Box::new(t), Box::new(gen(budget, depth - 1)))
        }
    }
}
fn transcode(d: &D) {
    let want = d.value();
    match (Value::deserialize(d), &want) {
        (Ok(v), Some(w)) => check(equal(&v, w), 1),
        (Err(_), None) => reach(2),
        _ => check(false, 2),
    }
    // into the parts of a Value
    let n = Number::deserialize(d).ok().map(Value::Number);
    let is_n = matches!(want, Some(Value::Number(_))) && !matches!(d, D::Some(_));
    check(if is_n { matches!((&n, &want), (Some(a), Some(b)) if equal(a, b)) } else { n.is_none() }, 3);
    let t = TaggedValue::deserialize(d).ok().map(|t| Value::Tagged(Box::new(t)));
    let is_t = matches!(d, D::Enum(..)) && want.is_some();
    check(if is_t { matches!((&t, &want), (Some(a), Some(b)) if equal(a, b)) } else { t.is_none() }, 4);
    if let D::Map(..) = d {
        let m = Mapping::deserialize(d).ok().map(Value::Mapping);
        check(match (&m, &want) { (Some(a), Some(b)) => equal(a, b), (None, None) => true, _ => false }, 5)
    }
    if let (Some(w), D::Map(..) | D::Seq(..) | D::Enum(..)) = (&want, d) {
        // and on from there: back out of the Value, and through text
        check(matches!(serde_yaml::to_value(w), Ok(v) if equal(&v, w)), 6);
        if !double_tag(w) {
            match serde_yaml::to_string(w) { Ok(t) => check(matches!(val(&t), Ok(v) if equal(&v, w)), 7), Err(_) => check(false, 8) }
        }
    }
    reach(1)
}
/// what to_value gives, what parsing gives, what serde's own deserializer for it gives
fn routes<T: Serialize + Clone>(x: T, v: Value) {
    check(matches!(serde_yaml::to_value(&x), Ok(w) if equal(&v, &w)), 20);
    check(matches!(serde_yaml::to_value(vec![x.clone()]), Ok(Value::Sequence(w)) if w.len() == 1 && equal(&v, &w[0])), 21);
    check(matches!(serde_yaml::to_value(Some(x)), Ok(w) if equal(&v, &w)), 22)
}
fn into<'de, T: IntoDeserializer<'de, VErr>>(x: T, v: Value) {
    check(matches!(Value::deserialize(x.into_deserializer()), Ok(w) if equal(&v, &w)), 23)
}
fn text<T: Serialize>(x: T, v: &Value) {
    match serde_yaml::to_string(&x) { Ok(t) => check(matches!(val(&t), Ok(w) if equal(v, &w)), 24), Err(_) => check(false, 25) }
}
macro_rules! number {
    ($t:ty, $n:expr) => {{
        let x = <$t>::from_le_bytes(bytes::<$n>());
        let v = Value::from(x);
        routes(x, v.clone());
        into(x, v.clone());
        check(v.is_number() && equal(&v, &Value::Number(Number::from(x))), 26);
        check(v.as_i64() == i64::try_from(x).ok() && v.as_u64() == u64::try_from(x).ok(), 27);
        check(equal(&Value::from(vec![x, x]), &Value::Sequence(vec![v.clone(), v.clone()])), 28);
        check(equal(&[x].into_iter().collect(), &Value::Sequence(vec![v])), 29);
        reach(1)
    }};
}
fn list<T: Serialize + Clone + Into<Value>>(xs: &[T]) {
    let want = Value::Sequence(xs.iter().cloned().map(Into::into).collect());
    check(equal(&Value::from(xs), &want), 40);
    check(equal(&Value::from(xs.to_vec()), &want), 41);
    check(equal(&xs.iter().cloned().collect::<Value>(), &want), 42);
    check(equal(&Value::from(xs.iter().cloned().map(Into::into).collect::<Vec<Value>>()), &want), 43);
    check(matches!(serde_yaml::to_value(xs), Ok(v) if equal(&v, &want)), 44);
    text(xs, &want);
    check(want.as_sequence().map(Vec::len) == Some(xs.len()), 45)
}

harnesses! {
    //@ q reach=1 audit=64 pathz3=16 | every value of the 10 integer types: From, to_value, serde's own deserializers, sequences
    fn h_c30_integer() {
        match pick(10) {
            0 => number!(i8, 1),
            1 => number!(i16, 2),
            2 => number!(i32, 4),
            3 => number!(i64, 8),
            4 => number!(isize, 8),
            5 => number!(u8, 1),
            6 => number!(u16, 2),
            7 => number!(u32, 4),
            8 => number!(u64, 8),
            _ => number!(usize, 8),
        }
    }
    //@ q reach=1 audit=64 pathz3=16 | 10 values of each float type (NaNs, infinities, zeros, extremes); From, to_value, deserializers, text of the f64
    fn h_c30_float() {
        if flag() {
            let x = f64::from_bits(one(&[0, 1, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 0xfff8_0000_0000_0001, 0x7ff0_0000_0000_0001, 0x3ff0 << 48, 0x7fef_ffff_ffff_ffff]));
            let v = Value::from(x);
            routes(x, v.clone());
            into(x, v.clone());
            text(x, &v);
            check(v.is_f64() && (v.as_f64().map(f64::to_bits) == Some(x.to_bits()) || x.is_nan()), 30);
            list(&[x, 0.5]);
        } else {
            let x = f32::from_bits(one(&[0, 1, 1 << 31, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0001, 0x7f80_0001, 0x3f80_0000, 0x7f7f_ffff]));
            let v = Value::from(x);
            routes(x, v.clone());
            into(x, v.clone());
            check(v.is_f64() && (v.as_f64().map(f64::to_bits) == Some((x as f64).to_bits()) || x.is_nan()), 31);
        }
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | every string of 3 ASCII characters as String, &str, Cow (both), char; bools; null
    fn h_c30_string() {
        let b = ascii::<3>();
        let n = pick(4);
        let s = str_of(&b[..n]);
        let want = Value::String(s.to_owned());
        check(equal(&Value::from(s), &want) && equal(&Value::from(s.to_owned()), &want), 32);
        check(equal(&Value::from(Cow::Borrowed(s)), &want) && equal(&Value::from(Cow::<str>::Owned(s.to_owned())), &want), 33);
        routes(s, want.clone());
        into(s, want.clone());
        into(s.to_owned(), want.clone());
        check(equal(&Value::from(vec![s]), &Value::Sequence(vec![want.clone()])), 34);
        check(equal(&Value::from(&[Cow::Borrowed(s)] as &[Cow<str>]), &Value::Sequence(vec![want.clone()])), 35);
        let mut m = Mapping::new();
        m.insert(want.clone(), Value::from(s));
        check(equal(&Value::from(m.clone()), &Value::Mapping(m.clone())), 36);
        routes(m, Value::Mapping(vec![(want.clone(), want)].into_iter().collect()));
        let f = flag();
        routes(f, Value::from(f));
        into(f, Value::Bool(f));
        text(f, &Value::from(f));
        routes((), Value::Null);
        into((), Value::Null);
        check(equal(&Value::default(), &Value::Null), 37);
        let c = one(&['a', '~', '😀']);
        into(c, Value::String(c.to_string()));
        text(c, &Value::String(c.to_string()));
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | slices, vectors and iterators of up to 2 values of 7 types, nested
    fn h_c30_list() {
        let n = pick(3);
        match pick(7) {
            0 => list(&[i64::MIN, 7][..n]),
            1 => list(&[u64::MAX, 0][..n]),
            2 => list(&["", "~"][..n]),
            3 => list(&[vec![1u8, 2], vec![]][..n]),
            4 => list(&[true, false][..n]),
            5 => list(&[vec![vec!["a".to_owned()]], vec![vec![], vec![String::new()]]][..n]),
            _ => { let mut b = 3; let x = gen_value(&mut b, 2, true); list(&[x, Value::Null][..n]) }
        }
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=16 | data of another format, up to 2 nodes of 24 kinds, with any size hint
    fn h_c30_transcode() {
        transcode(&gen(&mut 2, 2))
    }
    //@ q reach=1,2 audit=64 pathz3=16 | data of another format: maps and sequences of two nodes of 20 kinds, tagged or not
    fn h_c30_pair() {
        let a = gen(&mut 1, 0);
        let b = gen(&mut 1, 0);
        transcode(&match pick(3) {
            0 => D::Seq(None, vec![a, b]),
            1 => D::Map(Some(1), vec![(a, b)]),
            _ => D::Map(None, vec![(a, D::Unit), (b, D::Bool(true))]),
        })
    }
    //@ q reach=1 audit=16 pathz3=4 | sequences and maps of 10 to 300 entries of another format, nesting of 20 to 100, around 1 of 22 YAML characters
    fn h_c30_many() {
        let n = one(&[10usize, 16, 17, 127, 128, 255, 256, 300]);
        let b = text_in::<1>(YAML);
        let s = str_of(&b).to_owned();
        let at = |i: usize| if i == n / 2 { D::Str(s.clone()) } else { D::U64(i as u64) };
        transcode(&match pick(4) {
            0 => D::Seq(None, (0..n).map(at).collect()),
            1 => D::Map(Some(3), (0..n).map(|i| (at(n - 1 - i), D::Unit)).collect()),
            2 => { let mut d = D::Str(s); for i in 0..n.min(100) { d = if i % 2 == 0 { D::Seq(None, vec![d]) } else { D::Map(None, vec![(D::Unit, d)]) } } d }
            _ => D::Enum(Box::new(D::Borrowed("t")), Box::new(D::Map(None, (0..n).map(|i| (D::Owned(format!("{}{}", s, i)), at(i))).collect()))),
        })
    }
    //@ q reach=1 audit=64 pathz3=16 | 54 odd strings (empty, blanks, NUL, byte order mark, look-alikes, wide) as String, &str, Cow (both), in lists and as keys; 20 odd characters
    fn h_c30_odd() {
        let s = odd();
        let want = Value::String(s.to_owned());
        check(equal(&Value::from(s), &want) && equal(&Value::from(s.to_owned()), &want), 70);
        check(equal(&Value::from(Cow::Borrowed(s)), &want) && equal(&Value::from(Cow::<str>::Owned(s.to_owned())), &want), 71);
        routes(s, want.clone());
        into(s, want.clone());
        into(s.to_owned(), want.clone());
        text(s, &want);
        let list = Value::Sequence(vec![want.clone(), want.clone()]);
        check(equal(&Value::from(vec![s, s]), &list) && equal(&[s, s].into_iter().collect(), &list) && equal(&Value::from(&[s, s][..]), &list), 72);
        let m: Mapping = [(want.clone(), want.clone())].into_iter().collect();
        routes(m.clone(), Value::Mapping(m.clone()));
        text(m.clone(), &Value::Mapping(m));
        let c = one(&['\0', '\t', '\n', '\r', ' ', '!', '~', '-', '0', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{d7ff}', '\u{feff}', '\u{ffff}', '\u{10ffff}']);
        into(c, Value::String(c.to_string()));
        routes(c, Value::String(c.to_string()));
        text(c, &Value::String(c.to_string()));
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | collecting and converting 1 to 4 values of 9 kinds: vectors, slices, iterators, mappings
    fn h_c30_kinds() {
        let n = 1 + pick(4);
        let a = any_kind();
        let b = if n > 1 { any_kind() } else { Value::Null };
        let x: Vec<Value> = [a, b.clone(), Value::from(1), b].into_iter().take(n).collect();
        let x = if flag() { x } else { x.into_iter().rev().collect() };
        let want = Value::Sequence(x.clone());
        check(equal(&Value::from(x.clone()), &want) && equal(&Value::from(&x[..]), &want), 75);
        check(equal(&x.iter().cloned().collect(), &want), 76);
        let m: Mapping = x.iter().cloned().enumerate().map(|(i, v)| (Value::from(i), v)).collect();
        let w = Value::Mapping(m.clone());
        check(m.len() == n && equal(&Value::from(m.clone()), &w), 77);
        for (i, (k, v)) in m.iter().enumerate() {
            check(k.as_u64() == Some(i as u64) && equal(v, &x[i]), 78);
        }
        match serde_yaml::to_value(&x) { Ok(v) => check(equal(&v, &want), 79), Err(_) => check(false, 80) }
        text(x, &want);
        text(m, &w);
        reach(1)
    }
    //@ t reach=1,2 audit=64 pathz3=16 | data of another format, up to 3 nodes of 24 kinds, with any size hint
    fn h_c30_transcode3() {
        transcode(&gen(&mut 3, 3))
    }
}

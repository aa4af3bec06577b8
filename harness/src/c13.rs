//! C13: merge keys.
use crate::sym::*;
use crate::util::*;
use serde_yaml::{value::{Tag, TaggedValue}, Mapping, Value};

fn s(t: &str) -> Value {
    Value::String(t.to_owned())
}
fn mapping(e: Vec<(Value, Value)>) -> Value {
    let mut m = Mapping::new();
    for (k, v) in e {
        m.insert(k, v);
    }
    Value::Mapping(m)
}
fn is_merge(k: &Value) -> bool {
    matches!(k, Value::String(t) if t == "<<")
}
fn add(out: &mut Vec<(Value, Value)>, from: Vec<(Value, Value)>) {
    for (k, v) in from {
        if !out.iter().any(|(o, _)| *o == k) {
            out.push((k, v));
        }
    }
}
fn entries(v: Value) -> Option<Vec<(Value, Value)>> {
    match v {
        Value::Mapping(m) => Some(m.into_iter().collect()),
        _ => None,
    }
}
/// the specification: what a value becomes when merges are applied, None for an error
fn model(v: &Value) -> Option<Value> {
    match v {
        Value::Sequence(q) => q.iter().map(model).collect::<Option<Vec<_>>>().map(Value::Sequence),
        Value::Tagged(t) => model(&t.value).map(|value| Value::Tagged(Box::new(TaggedValue { tag: t.tag.clone(), value }))),
        Value::Mapping(m) => {
            let mut out = vec![];
            for (k, v) in m.iter() {
                if !is_merge(k) {
                    out.push((k.clone(), model(v)?));
                }
            }
            if let Some((_, v)) = m.iter().find(|(k, _)| is_merge(k)) {
                match model(v)? {
                    Value::Sequence(q) => {
                        for x in q {
                            add(&mut out, entries(x)?);
                        }
                    }
                    x => add(&mut out, entries(x)?),
                }
            }
            Some(mapping(out))
        }
        _ => Some(v.clone()),
    }
}
fn agree(v: &Value) {
    let mut got = v.clone();
    let r = got.apply_merge();
    let want = model(v);
    observe(&[r.is_ok() as u8]);
    match want {
        Some(w) => {
            check(r.is_ok(), 1);
            if r.is_ok() {
                check(got == w, 2);
                // nothing left to merge
                let mut again = got.clone();
                check(again.apply_merge().is_ok() && again == got, 3);
                reach(1);
            }
        }
        None => {
            check(r.is_err(), 4);
            reach(2);
        }
    }
}
fn num() -> Value {
    Value::Number((byte() as u64).into())
}
fn tagged_of(v: Value) -> Value {
    Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: v }))
}
fn kind() -> Value {
    match pick(6) {
        0 => Value::Null,
        1 => Value::Bool(false),
        2 => s(""),
        3 => Value::Sequence(vec![]),
        4 => tagged_of(Value::Null),
        _ => mapping(vec![(s("a"), Value::Null)]),
    }
}
fn keykind() -> Value {
    match pick(8) {
        0 => Value::Null,
        1 => Value::Bool(true),
        2 => 1.into(),
        3 => 1.0.into(),
        4 => s("1"),
        5 => Value::Sequence(vec![1.into()]),
        6 => mapping(vec![(s("a"), Value::Null)]),
        _ => tagged_of(s("1")),
    }
}
fn key() -> Value {
    s(one(&["a", "b"]))
}
/// mapping of `n` explicit entries
fn flat(n: usize) -> Vec<(Value, Value)> {
    (0..n).map(|_| (key(), num())).collect()
}
/// scalar, tagged or wrongly shaped things
fn odd() -> Value {
    match pick(6) {
        0 => Value::Null,
        1 => Value::Bool(true),
        2 => num(),
        3 => s("<<"),
        4 => Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: mapping(flat(1)) })),
        _ => Value::Sequence(vec![Value::Sequence(vec![mapping(flat(1))])]),
    }
}
fn merged(depth: usize) -> Value {
    let mut e = flat(pick(3));
    if depth > 0 && flag() {
        e.insert(pick(e.len() + 1), (s("<<"), source(depth - 1)));
    }
    mapping(e)
}
/// what a merge key refers to
fn source(depth: usize) -> Value {
    match pick(4) {
        0 => merged(depth),
        1 => Value::Sequence((0..pick(3)).map(|_| merged(depth)).collect()),
        2 => Value::Sequence(vec![merged(0), odd()]),
        _ => odd(),
    }
}

harnesses! {
    //@ q reach=1,2 audit=64 pathz3=8 | one merge key at every position among 0-2 explicit entries; source a mapping of up to 2, a list of 0-2 mappings, or anything wrong; all 8-bit values
    fn h_c13_one() {
        let mut e = flat(pick(3));
        e.insert(pick(e.len() + 1), (s("<<"), source(0)));
        agree(&mapping(e))
    }
    //@ q reach=1 audit=64 pathz3=8 | list of 3 mappings with one entry each, keys drawn from 2, all 8-bit values; 1 explicit entry
    fn h_c13_list() {
        let mut e = flat(1);
        e.push((s("<<"), Value::Sequence((0..3).map(|_| mapping(flat(1))).collect())));
        agree(&mapping(e))
    }
    //@ q reach=1 audit=64 pathz3=8 | merge keys inside merged mappings (2 levels) with one explicit entry each
    fn h_c13_chain() {
        let inner = mapping(vec![(key(), num()), (s("<<"), mapping(flat(1)))]);
        let src = if flag() { inner } else { Value::Sequence(vec![mapping(flat(1)), inner]) };
        let mut e = flat(1);
        e.push((s("<<"), src));
        agree(&mapping(e))
    }
    //@ q reach=1,2 audit=64 pathz3=8 | a mapping with a merge key under: a sequence, a mapping value, a tag, a merged mapping's value, an overridden value
    fn h_c13_nested() {
        let inner = mapping(vec![(s("k"), num()), (s("<<"), if flag() { mapping(vec![(key(), num()), (s("k"), num())]) } else { odd() })]);
        let v = match pick(5) {
            0 => Value::Sequence(vec![num(), inner.clone(), inner]),
            1 => mapping(vec![(key(), inner)]),
            2 => Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: inner })),
            3 => mapping(vec![(s("<<"), mapping(vec![(s("x"), inner)]))]),
            _ => mapping(vec![(s("x"), num()), (s("<<"), mapping(vec![(s("x"), inner)]))]),
        };
        agree(&v)
    }
    //@ q reach=1 audit=64 pathz3=8 | keys that are not the string "<<" are not merged: every 2-character key, a tagged "<<", a collection
    fn h_c13_keys() {
        let b = ascii::<2>();
        let k = match pick(3) {
            0 => s(str_of(&b)),
            1 => Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: s("<<") })),
            _ => Value::Sequence(vec![s("<<")]),
        };
        agree(&mapping(vec![(s("a"), num()), (k, mapping(vec![(s("a"), num()), (s("c"), num())]))]))
    }
    //@ q reach=1,2 audit=64 pathz3=8 | documents: two anchored mappings and a merge of 2 aliases in every order, all keys and values from small alphabets
    fn h_c13_text() {
        let k = text_in::<3>(b"ab");
        let v = text_in::<3>(b"12~");
        let mut d = Buf::new();
        d.s("- &x {").b(&k[..1]).s(": ").b(&v[..1]).s("}\n- &y {").b(&k[1..2]).s(": ").b(&v[1..2]).s("}\n- ");
        let r = one(&["*x", "[*x, *y]", "[*y, *x]", "[*x, *x]", "[]", "~", "[*x, 1]", "*y"]);
        if flag() { d.s("{<<: ").s(r).s(", ").b(&k[2..]).s(": ").b(&v[2..]).s("}\n") } else { d.b(&k[2..]).s(": ").b(&v[2..]).s("\n  <<: ").s(r).s("\n") };
        match val(d.str()) {
            Ok(v) => agree(&v),
            Err(_) => check(false, 5),
        }
    }
    //@ q reach=1 audit=16 pathz3=4 | merge lists of 5 to 100 mappings sharing one key each in turn, with the own entry before or after, at a chosen nesting depth (0 to 40)
    fn h_c13_many() {
        let n = one(&[5usize, 12, 31, 32, 33, 64, 100]);
        let depth = one(&[0usize, 1, 7, 40]);
        let at = choice(n as u8) as usize;
        let mut list = vec![];
        for i in 0..n {
            // key "s" from `at` on, key "k<i>" always
            let mut e = vec![(s(&format!("k{i}")), Value::from(i))];
            if i >= at { e.push((s("s"), Value::from(100 + i))) }
            list.push(mapping(e));
        }
        let own = (s("own"), num());
        let m = (s("<<"), Value::Sequence(list));
        let mut v = mapping(if flag() { vec![own, m] } else { vec![m, own] });
        for i in 0..depth { v = if i % 2 == 0 { Value::Sequence(vec![v]) } else { mapping(vec![(s("d"), v)]) } }
        agree(&v)
    }
    //@ q reach=1 audit=64 pathz3=8 | values of 6 kinds (null, bool, string, empty sequence, mapping, tagged) in lists of 2 or 3 mappings of one entry over 2 keys, with an explicit entry of one of these kinds before or after, or none
    fn h_c13_kinds() {
        let n = 2 + pick(2);
        let list: Vec<Value> = (0..n).map(|_| mapping(vec![(key(), kind())])).collect();
        let m = (s("<<"), Value::Sequence(list));
        agree(&mapping(match pick(3) { 0 => vec![m], 1 => vec![(s("a"), kind()), m], _ => vec![m, (s("b"), kind())] }))
    }
    //@ q reach=1 audit=64 pathz3=8 | keys of 8 kinds (null, bool, integer, float, string, sequence, mapping, tagged) in an explicit entry and in two merged mappings
    fn h_c13_keykinds() {
        let (a, b, c) = (keykind(), keykind(), keykind());
        let list = vec![mapping(vec![(b.clone(), 1.into()), (a.clone(), 2.into())]), mapping(vec![(c, 3.into()), (s("z"), 4.into())])];
        let e = (a, kind());
        let m = (s("<<"), Value::Sequence(list));
        agree(&mapping(if flag() { vec![e, m] } else { vec![m, e] }))
    }
    //@ q reach=1,2 audit=64 pathz3=8 | sources of 11 kinds (scalars, empty and filled collections), bare or under 1 or 2 tags of 3 names, direct or at any place of a list of 1 to 3 mappings
    fn h_c13_wrong() {
        let mut v = match pick(11) {
            0 => Value::Null, 1 => Value::Bool(false), 2 => 0.into(), 3 => (-1.5).into(), 4 => s(""), 5 => s("x"),
            6 => Value::Sequence(vec![]), 7 => Value::Sequence(vec![Value::Null]), 8 => mapping(vec![]),
            9 => mapping(vec![(s("b"), 5.into())]), _ => Value::Sequence(vec![mapping(vec![(s("b"), 6.into())])]),
        };
        for _ in 0..pick(3) {
            v = tagged(one(&["t", "merge", "!m"]), v);
        }
        let n = pick(4);
        if n > 0 {
            let at = pick(n);
            let mut l: Vec<Value> = (0..n).map(|i| mapping(vec![(s("b"), Value::from(i as u8)), (s("c"), 1.into())])).collect();
            l[at] = v;
            v = Value::Sequence(l);
        }
        let mut e = vec![(s("a"), 1.into())];
        e.insert(pick(2), (s("<<"), v));
        agree(&mapping(e))
    }
    //@ t reach=1,2 audit=256 pathz3=64 | one merge key whose source holds merge keys again, to depth 2
    fn h_c13_deep() {
        let mut e = flat(pick(2));
        e.insert(pick(e.len() + 1), (s("<<"), source(1)));
        agree(&mapping(e))
    }
    //@ t reach=1 audit=256 pathz3=64 | list of 3 mappings with two entries each, 2 explicit entries
    fn h_c13_list2() {
        let mut e = flat(2);
        e.push((s("<<"), Value::Sequence((0..3).map(|_| mapping(flat(2))).collect())));
        agree(&mapping(e))
    }
}

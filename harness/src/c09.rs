//! C09: document streams are read and written document by document.
use crate::sym::*;
use crate::util::*;
use serde::{Deserialize, Serialize};
use serde_yaml::{Deserializer, Serializer, Value};

fn docs(text: &[u8]) -> Vec<Result<Value, String>> {
    Deserializer::from_slice(text).take(8).map(|d| Value::deserialize(d).map_err(|e| e.to_string())).collect()
}
/// builds a stream of `n` explicit documents, each a body that is valid on its own
fn stream(bodies: &[Vec<u8>], seps: &[&str]) {
    let mut text = Vec::with_capacity(128);
    let mut want: Vec<Value> = Vec::new();
    for (i, b) in bodies.iter().enumerate() {
        let mut alone = b"--- ".to_vec();
        alone.extend_from_slice(b);
        alone.push(b'\n');
        match serde_yaml::from_slice::<Value>(&alone) {
            Ok(v) => want.push(v),
            Err(_) => {
                assume(false);
                return;
            }
        }
        text.extend_from_slice(&alone);
        text.extend_from_slice(seps[i].as_bytes());
    }
    let got = docs(&text);
    observe(&[got.len() as u8]);
    check(got.len() == want.len(), 1);
    for (g, w) in got.iter().zip(&want) {
        match g {
            Ok(g) => check(g == w, 2),
            Err(_) => check(false, 3),
        }
    }
    // the single-document entry points
    let single = serde_yaml::from_slice::<Value>(&text);
    if want.len() == 1 {
        match single {
            Ok(v) => check(v == want[0], 4),
            Err(_) => check(false, 5),
        }
    } else {
        check(single.is_err(), 6);
        check(Value::deserialize(Deserializer::from_slice(&text)).is_err(), 7);
    }
    reach(1);
}
fn body<const N: usize>() -> Vec<u8> {
    tdoc_in::<N>(&[("", ""), ("[", "]"), ("a: ", ""), ("- ", ""), ("|\n ", ""), ("'", "'"), ("!t ", "")], YAML2)
}
const SEP: &[&str] = &["", "...\n", "...\n...\n", "# c\n", "...\n# c\n", "\n\n"];

/// writes values through one Serializer and reads the stream back
fn write(vals: &[Value]) {
    let mut ser = Serializer::new(Vec::new());
    for v in vals {
        v.serialize(&mut ser).unwrap();
    }
    let out = ser.into_inner().unwrap();
    observe(&out);
    let got = docs(&out);
    check(got.len() == vals.len(), 10);
    for (g, w) in got.iter().zip(vals) {
        match g {
            Ok(g) => check(g == w, 11),
            Err(_) => check(false, 12),
        }
    }
    reach(1);
}
fn small(i: usize) -> Value {
    match pick(8) {
        0 => Value::Null,
        1 => Value::Bool(i % 2 == 0),
        2 => Value::Number((i as u64).into()),
        3 => {
            let b = text_in::<1>(b"a1 -.\n#%:~");
            Value::String(str_of(&b).to_owned())
        }
        4 => Value::Sequence(vec![Value::from(i as u64), Value::from("...")]),
        5 => Value::Sequence(vec![]),
        6 => Value::Mapping([(Value::from("a"), Value::from(i as u64))].into_iter().collect()),
        _ => Value::Tagged(Box::new(serde_yaml::value::TaggedValue { tag: serde_yaml::value::Tag::new("t"), value: Value::from("--- b") })),
    }
}

harnesses! {
    //@ q reach=1 audit=64 pathz3=8 | 1 document: 7 shapes x 2 YAML characters x 6 trailers
    fn h_c09_one() { stream(&[body::<2>()], &[one(SEP)]) }
    //@ q reach=1 audit=64 pathz3=8 | 2 documents: 7 shapes x 1 YAML character each, 6 separators, 6 trailers
    fn h_c09_two() { let a = body::<1>(); let s = one(SEP); stream(&[a, body::<1>()], &[s, one(SEP)]) }
    //@ q reach=1 audit=64 pathz3=8 | 3 documents from 5 bodies (scalar, empty, anchored, block, flow) with 6 separators
    fn h_c09_three() {
        let bs: &[&[u8]] = &[b"a", b"", b"&x [b, *x2]", b"- &x b\n- *x", b"{c: d}", b"|\n  e\n"];
        let p = || one(bs).to_vec();
        let d = [p(), p(), p()];
        stream(&d, &[one(SEP), one(SEP), "..."])
    }
    //@ q reach=1 audit=64 pathz3=8 | implicit first document then explicit ones: 2 + 2 YAML characters
    fn h_c09_implicit() {
        let a = text_in::<2>(YAML2);
        let b = text_in::<2>(b"a1-: []~\n");
        let alone = [&a[..], b"\n"].concat();
        let alone2 = [b"--- ", &b[..], b"\n"].concat();
        let (v, w) = match (serde_yaml::from_slice::<Value>(&alone), serde_yaml::from_slice::<Value>(&alone2)) {
            (Ok(v), Ok(w)) => (v, w),
            _ => { assume(false); return }
        };
        // blank or comment-only text in front of a marker is no document of its own
        assume(a.iter().any(|c| !matches!(c, b' ' | b'\n')));
        let got = docs(&[&alone[..], &alone2].concat());
        observe(&[got.len() as u8]);
        check(got.len() == 2 && got[0] == Ok(v) && got[1] == Ok(w), 20);
        check(serde_yaml::from_slice::<Value>(&[&alone[..], &alone2].concat()).is_err(), 21);
        reach(1);
    }
    //@ q reach=1 | anchors do not leak into the next document; an error document does not swallow its successor
    fn h_c09_scope() {
        let c = text_in::<1>(b"ab");
        let t = [b"--- &a x\n--- *", &c[..], b"\n--- z\n"].concat();
        let got = docs(&t);
        observe(&[got.len() as u8]);
        check(got.len() == 3 && got[0] == Ok(Value::from("x")) && got[1].is_err() && got[2] == Ok(Value::from("z")), 30);
        let t = [b"--- {k: [*", &c[..], b", b], c: d}\n--- z\n"].concat();
        let got = docs(&t);
        check(got.len() == 2 && got[0].is_err() && got[1] == Ok(Value::from("z")), 31);
        let t = [b"--- y\n--- {", &c[..], b"\n--- z\n"].concat();
        let got = docs(&t);
        check(got.len() == 2 && got[0] == Ok(Value::from("y")) && got[1].is_err(), 32);
        reach(1);
    }
    //@ q reach=1 | no document at all: empty, blank, comment-only input reads as one null document
    fn h_c09_empty() {
        let b = text_in::<3>(b" \n#");
        let got = docs(&b);
        observe(&[got.len() as u8]);
        check(got.len() == 1 && got[0] == Ok(Value::Null), 40);
        check(serde_yaml::from_slice::<Value>(&b).ok() == Some(Value::Null), 41);
        reach(1);
    }
    //@ q reach=1 audit=64 pathz3=8 | 0 to 3 values of 8 shapes (one-character strings) written through one Serializer and read back
    fn h_c09_write() { let n = pick(4); let v: Vec<Value> = (0..n).map(small).collect(); if n == 0 { let s = Serializer::new(Vec::new()).into_inner().unwrap(); observe(&s); reach(1); } else { write(&v) } }
    //@ q reach=1 audit=16 pathz3=4 | streams of 10 to 300 documents, one of them (first, middle, last) 2 of 22 YAML characters, read and written
    fn h_c09_many() {
        let n = one(&[10usize, 127, 128, 129, 255, 256, 257, 300]);
        let at = match pick(3) { 0 => 0, 1 => n / 2, _ => n - 1 };
        let b = text_in::<2>(YAML);
        let all = |text: &[u8]| -> Vec<Option<Value>> { Deserializer::from_slice(text).take(n + 2).map(|d| Value::deserialize(d).ok()).collect() };
        if flag() {
            let odd = [b"--- ", &b[..], b"\n"].concat();
            let want = match serde_yaml::from_slice::<Value>(&odd) { Ok(v) => v, Err(_) => return assume(false) };
            let mut text = Vec::with_capacity(4096);
            for i in 0..n {
                if i == at { text.extend_from_slice(&odd) } else { text.extend_from_slice(format!("--- d{i}\n").as_bytes()) }
            }
            let got = all(&text);
            check(got.len() == n, 40);
            for (i, g) in got.iter().enumerate() {
                check(match g { Some(g) => if i == at { *g == want } else { *g == Value::String(format!("d{i}")) }, None => false }, 41)
            }
        } else {
            let vals: Vec<Value> = (0..n).map(|i| if i == at { Value::from(str_of(&b)) } else { Value::from(i) }).collect();
            let mut ser = Serializer::new(Vec::new());
            for v in &vals { v.serialize(&mut ser).unwrap() }
            let out = ser.into_inner().unwrap();
            let got = all(&out);
            check(got.len() == n && got.iter().zip(&vals).all(|(g, w)| g.as_ref() == Some(w)), 42);
        }
        reach(1)
    }
    //@ q reach=1 | 3 documents, the one at any place has an unknown alias (or a type or duplicate-key error) followed by 0 to 3 further nodes out of 9 (scalars, known and unknown aliases, anchors, collections): the others are read as alone, the count is right
    fn h_c09_tails() {
        let at = pick(3) as usize;
        let mut d = String::new();
        for i in 0..3 {
            d.push_str("---\n");
            if i != at {
                d.push_str(["- 1\n", "a: b\n", "text\n"][i]);
                continue;
            }
            let head = one(&["[&a 1, *zz", "[&a [x], {k: *zz}", "{&a 1: 2, x: *zz", "[&a x, {1: 2, 1: 3}", "[&a {x: 1}, [*zz]"]);
            d.push_str(head);
            let map = head.starts_with('{');
            for j in 0..pick(3) {
                let k = ["", "q: ", "r: ", "s: "][if map { j as usize + 1 } else { 0 }];
                d.push_str(", ");
                d.push_str(k);
                d.push_str(one(&["x", "*a", "*yy", "&a 3", "[1, 2]", "{k: v}", "[*a, *yy]", "&b [*b]", "'---'"]));
            }
            d.push_str(if map { "}\n" } else { "]\n" });
        }
        let r: Vec<Result<Value, serde_yaml::Error>> = serde_yaml::Deserializer::from_str(&d).take(6).map(Value::deserialize).collect();
        check(r.len() == 3, 70);
        for (i, r) in r.iter().enumerate() {
            match r {
                Ok(v) => check(i != at && *v == val(["- 1", "a: b", "text"][i]).unwrap(), 71),
                Err(_) => check(i == at, 72),
            }
        }
        check(serde_yaml::from_str::<Value>(&d).is_err(), 73);
        reach(1)
    }
    //@ t reach=1 audit=1024 pathz3=64 | 1 document: 7 shapes x 3 YAML characters x 6 trailers
    fn h_c09_one3() { stream(&[body::<3>()], &[one(SEP)]) }
    //@ t reach=1 audit=1024 pathz3=64 | 2 documents: 7 shapes x 2 YAML characters and 7 shapes x 1 character, 6 separators
    fn h_c09_two2() { let a = body::<2>(); let s = one(SEP); stream(&[a, body::<1>()], &[s, ""]) }
}

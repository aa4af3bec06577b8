//! C16: Mapping against an insertion-ordered list with unique keys.
use crate::sym::*;
use crate::util::*;
use serde_yaml::{mapping::Entry, value::{Tag, TaggedValue}, Mapping, Value};

type Model = Vec<(Value, Value)>;

fn key() -> Value {
    match pick(4) {
        0 => skey(),
        1 => Value::Number(choice(2).into()),
        2 => Value::Bool(choice(2) == 1),
        _ => Value::Sequence(vec![skey()]),
    }
}
fn skey() -> Value {
    let b = [byte_in(b"ab1")];
    Value::String(str_of(&b).to_owned())
}
fn any_key() -> Value {
    match pick(8) {
        0 => Value::Null,
        1 => Value::Bool(choice(2) == 1),
        2 => Value::Number(choice(2).into()),
        3 => Value::Number((-1.5f64).into()),
        4 => skey(),
        5 => Value::Sequence(vec![skey()]),
        6 => Value::Mapping([(skey(), Value::Null), (Value::from(1), Value::Null)].into_iter().collect()),
        _ => Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: skey() })),
    }
}
fn num() -> Value {
    Value::Number(byte().into())
}
fn pos(m: &Model, k: &Value) -> Option<usize> {
    m.iter().position(|(x, _)| x == k)
}
fn put(m: &mut Model, k: Value, v: Value) -> Option<Value> {
    match pos(m, &k) {
        Some(i) => Some(std::mem::replace(&mut m[i].1, v)),
        None => {
            m.push((k, v));
            None
        }
    }
}
/// everything observable agrees
fn agree(a: &Mapping, m: &Model) {
    check(a.len() == m.len() && a.is_empty() == m.is_empty(), 1);
    check(a.iter().map(|(k, v)| (k.clone(), v.clone())).eq(m.iter().cloned()), 2);
    check(a.keys().eq(m.iter().map(|e| &e.0)) && a.values().eq(m.iter().map(|e| &e.1)), 3);
    check(a.iter().len() == m.len() && a.keys().len() == m.len() && a.values().len() == m.len(), 4);
    check(a.capacity() >= m.len(), 5);
    for (k, v) in m {
        check(a.get(k) == Some(v) && a.contains_key(k) && a[k] == *v, 6);
        if let Value::String(s) = k {
            check(a.get(s.as_str()) == Some(v) && a.get(s) == Some(v) && a.contains_key(s.as_str()) && a[s.as_str()] == *v && a[s] == *v, 7);
        }
    }
    let mut i = 0;
    for (k, v) in a {
        check(i < m.len() && *k == m[i].0 && *v == m[i].1, 8);
        i += 1;
    }
    check(i == m.len(), 9);
}
/// lookups of a key that may be missing
fn lookups(a: &mut Mapping, m: &mut Model, k: &Value) {
    let i = pos(m, k);
    check(a.contains_key(k) == i.is_some(), 10);
    check(a.get(k) == i.map(|i| &m[i].1), 11);
    check(a.get_mut(k).map(|v| &*v) == i.map(|i| &m[i].1), 12);
    if let Value::String(s) = k {
        let s: &str = s;
        check(a.contains_key(s) == i.is_some() && a.get(s) == i.map(|i| &m[i].1) && a.get_mut(s).map(|v| &*v) == i.map(|i| &m[i].1), 13);
        let t = s.to_owned();
        check(a.contains_key(&t) == i.is_some() && a.get(&t) == i.map(|i| &m[i].1), 14);
    }
}
const OPS: usize = 23;
fn step(a: &mut Mapping, m: &mut Model, k: Value, num: fn() -> Value) {
    let op = pick(OPS);
    let i = pos(m, &k);
    let by_str = matches!(k, Value::String(_));
    let s = match &k {
        Value::String(s) => s.clone(),
        _ => String::new(),
    };
    match op {
        0 => {
            let v = num();
            check(a.insert(k.clone(), v.clone()) == put(m, k, v), 20)
        }
        1 | 2 => {
            // remove and swap_remove put the last entry in the place of the removed one
            let r = i.map(|i| m.swap_remove(i).1);
            check(if op == 1 { if by_str { a.remove(s.as_str()) } else { a.remove(&k) } } else if by_str { a.swap_remove(&s) } else { a.swap_remove(k) } == r, 21)
        }
        3 | 4 => {
            let r = i.map(|i| m.swap_remove(i));
            check(if op == 3 { if by_str { a.remove_entry(s.as_str()) } else { a.remove_entry(&k) } } else if by_str { a.swap_remove_entry(s) } else { a.swap_remove_entry(k) } == r, 22)
        }
        5 => {
            let r = i.map(|i| m.remove(i).1);
            check(if by_str { a.shift_remove(s.as_str()) } else { a.shift_remove(&k) } == r, 23)
        }
        6 => {
            let r = i.map(|i| m.remove(i));
            check(if by_str { a.shift_remove_entry(s.as_str()) } else { a.shift_remove_entry(&k) } == r, 24)
        }
        7 => {
            let v = num();
            if let Some(x) = a.get_mut(&k) {
                *x = v.clone();
            }
            if let Some(i) = i {
                m[i].1 = v;
                if by_str {
                    a[s.as_str()] = m[i].1.clone();
                } else {
                    a[&k] = m[i].1.clone();
                }
            }
        }
        8 => {
            let v = num();
            if i.is_none() {
                m.push((k.clone(), v.clone()));
            }
            let j = i.unwrap_or(m.len() - 1);
            let e = a.entry(k.clone());
            check(*e.key() == k, 25);
            check(*e.or_insert(v) == m[j].1, 26)
        }
        9 => {
            let v = num();
            let mut called = false;
            {
                let r = a.entry(k.clone()).or_insert_with(|| {
                    called = true;
                    v.clone()
                });
                if i.is_none() {
                    m.push((k, v.clone()));
                }
                check(*r == m[i.unwrap_or(m.len() - 1)].1, 27);
            }
            check(called == i.is_none(), 28)
        }
        10 => {
            let v = num();
            let w = num();
            let e = a.entry(k.clone()).and_modify(|x| *x = v.clone());
            match i {
                Some(i) => m[i].1 = v,
                None => m.push((k, w.clone())),
            }
            e.or_insert(w);
        }
        11 => match a.entry(k.clone()) {
            Entry::Occupied(mut o) => {
                check(i.is_some() && *o.key() == k, 29);
                let i = i.unwrap();
                check(*o.get() == m[i].1 && *o.get_mut() == m[i].1, 30);
                let v = num();
                check(o.insert(v.clone()) == m[i].1, 31);
                check(*o.get() == v, 32);
                m[i].1 = v;
                let w = num();
                *o.into_mut() = w.clone();
                m[i].1 = w;
            }
            Entry::Vacant(e) => {
                check(i.is_none() && *e.key() == k, 33);
                check(e.into_key() == k, 34)
            }
        },
        12 => match a.entry(k.clone()) {
            Entry::Occupied(o) => {
                check(i.is_some(), 35);
                check(o.remove() == m.swap_remove(i.unwrap()).1, 36)
            }
            Entry::Vacant(e) => {
                let v = num();
                check(*e.insert(v.clone()) == v, 37);
                m.push((k, v))
            }
        },
        13 => {
            if let Entry::Occupied(o) = a.entry(k) {
                check(o.remove_entry() == m.swap_remove(i.unwrap()), 38)
            }
        }
        14 => {
            // retain everything but that key, changing every value on the way
            let mut seen = vec![];
            a.retain(|x, v| {
                let keep = *x != k;
                seen.push(x.clone());
                *v = Value::Sequence(vec![v.clone()]);
                keep
            });
            check(seen.len() == m.len() && seen.iter().zip(m.iter()).all(|(x, (k, _))| x == k), 90);
            m.retain(|(x, _)| *x != k);
            for e in m.iter_mut() {
                e.1 = Value::Sequence(vec![e.1.clone()]);
            }
        }
        15 => {
            a.clear();
            m.clear()
        }
        16 => {
            let e = vec![(k.clone(), num()), (skey(), num()), (k, num())];
            for (k, v) in e.clone() {
                put(m, k, v);
            }
            a.extend(e)
        }
        17 => {
            let mut n = 0;
            for (k, v) in a.iter_mut() {
                check(n < m.len() && *k == m[n].0, 39);
                *v = Value::Null;
                n += 1;
            }
            for v in a.values_mut() {
                check(v.is_null(), 40);
                *v = Value::Bool(true);
            }
            for (_, v) in &mut *a {
                check(*v == Value::Bool(true), 41);
            }
            m.iter_mut().for_each(|e| e.1 = Value::Bool(true))
        }
        18 => {
            let b = a.clone();
            check(b == *a, 42);
            check(b.into_iter().eq(m.iter().cloned()), 43)
        }
        19 => {
            check(a.clone().into_keys().eq(m.iter().map(|e| e.0.clone())), 44);
            check(a.clone().into_values().eq(m.iter().map(|e| e.1.clone())), 45)
        }
        20 => {
            let b: Mapping = m.iter().rev().cloned().collect();
            check(b == *a && *a == b, 46);
            let mut c = b.clone();
            c.insert(k.clone(), Value::Null);
            check((c == *a) == (i.map(|i| m[i].1 == Value::Null) == Some(true)), 47)
        }
        21 => {
            a.reserve(3);
            a.shrink_to_fit()
        }
        _ => {
            let mut b = Mapping::with_capacity(2);
            for (k, v) in std::mem::take(a) {
                check(b.insert(k, v).is_none(), 48);
            }
            check(a.is_empty() && a.len() == 0 && a.iter().next().is_none(), 49);
            *a = b;
        }
    }
}
fn run(init: usize, steps: usize, k: fn() -> Value) {
    run_with(init, steps, k, num)
}
fn run_with(init: usize, steps: usize, k: fn() -> Value, num: fn() -> Value) {
    let mut a = Mapping::new();
    let mut m = vec![];
    for _ in 0..init {
        let (k, v) = (k(), num());
        check(a.insert(k.clone(), v.clone()) == put(&mut m, k, v), 50);
    }
    for _ in 0..steps {
        step(&mut a, &mut m, k(), num);
    }
    agree(&a, &m);
    lookups(&mut a, &mut m, &k());
    reach(1);
}

harnesses! {
    //@ q reach=1 audit=256 pathz3=64 | 3 inserted string keys (a, b or 1 each), then any 2 of 23 operations with symbolic string keys
    fn h_c16_str() { run(3, 2, skey) }
    //@ q reach=1 audit=256 pathz3=64 | 2 inserted keys (string, number, bool or sequence), then any of 23 operations
    fn h_c16_any() { run(2, 1, key) }
    //@ q reach=1 audit=256 pathz3=64 | 1 inserted key of any of 8 kinds (incl. float, mapping, tagged), then any of 23 operations
    fn h_c16_kinds() { run(1, 1, any_key) }
    //@ q reach=1 audit=256 pathz3=64 | an empty mapping and any 3 operations, string keys
    fn h_c16_ops3() { run(0, 3, skey) }
    //@ q reach=1 audit=256 pathz3=64 | lookups by &str find exactly the string key with that text: keys string, number, bool, null or tagged string
    fn h_c16_lookup() {
        let b = text_in::<2>(b"1a~");
        let t = str_of(&b[..pick(3)]);
        let k = match pick(6) {
            0 => Value::Number(1.into()),
            1 => Value::Null,
            2 => Value::Bool(true),
            3 => Value::Tagged(Box::new(TaggedValue { tag: Tag::new("1"), value: Value::from("1") })),
            4 => Value::Sequence(vec![Value::from("1")]),
            _ => { let c = text_in::<2>(b"1a~"); Value::from(str_of(&c[..pick(3)])) }
        };
        let mut m = Mapping::new();
        m.insert(k.clone(), Value::Null);
        let w = match &k { Value::String(s) => s.as_bytes() == t.as_bytes(), _ => false };
        check(m.contains_key(t) == w && m.get(t).is_some() == w && m.get(t.to_owned()).is_some() == w && m.get(&t).is_some() == w, 60);
        check(Value::Mapping(m.clone()).get(t).is_some() == w, 61);
        check(m.remove(t).is_some() == w && m.len() == 1 - w as usize, 62);
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | mappings of 10 to 300 entries: one operation on the first, a middle, the last or a missing key, then everything compared
    fn h_c16_large() {
        let n = one(&[10usize, 32, 33, 127, 128, 129, 255, 256, 257, 300]);
        let mut m: Model = (0..n).map(|i| (if i % 3 == 0 { Value::from(format!("s{i}")) } else { Value::from(i) }, Value::from(i * 7))).collect();
        let mut a: Mapping = m.iter().cloned().collect();
        let k = match pick(6) { 0 => m[0].0.clone(), 1 => m[1].0.clone(), 2 => m[n / 2].0.clone(), 3 => m[n - 1].0.clone(), 4 => Value::from(3), _ => Value::from(n + 1) };
        step(&mut a, &mut m, k, num);
        agree(&a, &m);
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | a mapping of one entry, then any of 23 operations; values of 8 kinds (null, false, empty, collections, tagged)
    fn h_c16_values() {
        fn v() -> Value {
            match any_kind() { Value::Number(n) if n.is_nan() => Value::from(-1), v => v }
        }
        run_with(1, 1, || Value::from(one(&["a", "b"])), v)
    }
    //@ q reach=1 audit=64 pathz3=16 | 54 odd strings as keys (empty, blanks, NUL, look-alikes, wide): one entry among two, looked up, replaced and removed
    fn h_c16_odd() {
        let (k, l) = (odd(), one(&["a", "a\0", "", "1", "null"]));
        let mut m = vec![(Value::from(l), Value::from(7))];
        let mut a: Mapping = m.iter().cloned().collect();
        let k = Value::from(k);
        lookups(&mut a, &mut m, &k);
        check(a.insert(k.clone(), Value::from(8)) == put(&mut m, k.clone(), Value::from(8)), 70);
        agree(&a, &m);
        lookups(&mut a, &mut m, &k);
        step(&mut a, &mut m, k.clone(), num);
        agree(&a, &m);
        lookups(&mut a, &mut m, &k);
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | an empty mapping or one of one entry, then any of 23 operations; keys and values null, false, 0, "" and an empty mapping in every combination
    fn h_c16_zero() {
        fn z() -> Value {
            match pick(5) { 0 => Value::Null, 1 => Value::Bool(false), 2 => Value::from(0), 3 => Value::from(""), _ => Value::Mapping(Mapping::new()) }
        }
        if flag() { run_with(1, 1, z, z) } else { run_with(0, 1, z, z) }
    }
    //@ q reach=1 audit=64 pathz3=16 | a string key of 0 to 2 ASCII characters looked up with any &str of 0 to 2 ASCII characters, among a non-string entry: get, contains, indexing, removal
    fn h_c16_text() {
        let b = ascii::<2>();
        let c = ascii::<2>();
        let (s, t) = (str_of(&b[..pick(3)]), str_of(&c[..pick(3)]));
        let mut m = Mapping::new();
        m.insert(Value::from(1), Value::Null);
        m.insert(Value::from(s), Value::from(5));
        let w = s.as_bytes() == t.as_bytes();
        match pick(3) {
            0 => check(m.contains_key(t) == w && m.contains_key(Value::from(t)) == w, 63),
            1 => { check(m.get(t).is_some() == w && m.get_mut(t).is_some() == w, 64); let mut v = Value::Mapping(m); check(v.get(t).is_some() == w && v.get_mut(t).is_some() == w && v[t].is_null() == !w, 65) }
            _ => { check(m.remove_entry(t).is_some() == w && m.len() == 2 - w as usize, 66); check(m.swap_remove(t).is_none() || !w, 67) }
        }
        reach(1)
    }
    //@ t reach=1 audit=4096 pathz3=1024 | 3 inserted string keys, then any 3 of 23 operations
    fn h_c16_str3() { run(3, 3, skey) }
    //@ t reach=1 audit=4096 pathz3=1024 | 2 inserted keys of 4 kinds, then any 2 of 23 operations
    fn h_c16_any2() { run(2, 2, key) }
    //@ t reach=1 audit=4096 pathz3=1024 | an empty mapping and any 4 operations, string keys
    fn h_c16_ops4() { run(0, 4, skey) }
}

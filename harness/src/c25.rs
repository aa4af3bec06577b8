//! C25: accessors and indexing address exactly the element named, looking through tags.
use crate::sym::*;
use crate::util::*;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Value};

fn untag(v: &Value) -> &Value {
    match v {
        Value::Tagged(t) => untag(&t.value),
        v => v,
    }
}
/// the position of a key by comparing it with every key
fn position(m: &Mapping, k: &Value) -> Option<usize> {
    m.iter().position(|(x, _)| x == k)
}
/// index of every kind
enum Ix {
    N(usize),
    S(String),
    V(Value),
}
impl Ix {
    fn key(&self) -> Value {
        match self {
            Ix::N(n) => Value::from(*n as u64),
            Ix::S(s) => Value::String(s.clone()),
            Ix::V(v) => v.clone(),
        }
    }
    /// position of the element addressed
    fn find(&self, v: &Value) -> Option<usize> {
        match (untag(v), self) {
            (Value::Sequence(s), Ix::N(n)) if *n < s.len() => Some(*n),
            (Value::Mapping(m), i) => position(m, &i.key()),
            _ => None,
        }
    }
    fn get<'a>(&self, v: &'a Value, how: usize) -> Option<&'a Value> {
        match (self, how) {
            (Ix::N(n), 0) => v.get(*n),
            (Ix::N(n), _) => v.get(&n),
            (Ix::S(s), 0) => v.get(s.as_str()),
            (Ix::S(s), 1) => v.get(s.clone()),
            (Ix::S(s), _) => v.get(&s),
            (Ix::V(i), 0) => v.get(i),
            (Ix::V(i), _) => v.get(i.clone()),
        }
    }
    fn get_mut<'a>(&self, v: &'a mut Value, how: usize) -> Option<&'a mut Value> {
        match (self, how) {
            (Ix::N(n), 0) => v.get_mut(*n),
            (Ix::N(n), _) => v.get_mut(&n),
            (Ix::S(s), 0) => v.get_mut(s.as_str()),
            (Ix::S(s), 1) => v.get_mut(s.clone()),
            (Ix::S(s), _) => v.get_mut(&s),
            (Ix::V(i), 0) => v.get_mut(i),
            (Ix::V(i), _) => v.get_mut(i.clone()),
        }
    }
    fn index<'a>(&self, v: &'a Value) -> &'a Value {
        match self {
            Ix::N(n) => &v[*n],
            Ix::S(s) => &v[s.as_str()],
            Ix::V(i) => &v[i],
        }
    }
    fn index_mut<'a>(&self, v: &'a mut Value) -> &'a mut Value {
        match self {
            Ix::N(n) => &mut v[*n],
            Ix::S(s) => &mut v[s.as_str()],
            Ix::V(i) => &mut v[i],
        }
    }
}
fn at(v: &Value, i: usize) -> Option<&Value> {
    match untag(v) {
        Value::Sequence(s) => s.iter().nth(i),
        Value::Mapping(m) => m.iter().nth(i).map(|e| e.1),
        _ => None,
    }
}
fn len(v: &Value) -> usize {
    match untag(v) {
        Value::Sequence(s) => s.len(),
        Value::Mapping(m) => m.len(),
        _ => 0,
    }
}
fn same_ref(a: Option<&Value>, b: Option<&Value>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => std::ptr::eq(a, b),
        (None, None) => true,
        _ => false,
    }
}
/// everything but the element at `i` is as in `old`, in the same order and under the same tags and keys
fn rest_equal(new: &Value, old: &Value, i: usize) -> bool {
    match (new, old) {
        (Value::Tagged(a), Value::Tagged(b)) => a.tag == b.tag && rest_equal(&a.value, &b.value, i),
        (Value::Sequence(a), Value::Sequence(b)) => a.len() == b.len() && a.iter().zip(b).enumerate().all(|(j, (x, y))| i == j || x == y),
        (Value::Mapping(a), Value::Mapping(b)) => a.len() >= b.len() && a.iter().zip(b).enumerate().all(|(j, (x, y))| x.0 == y.0 && (i == j || x.1 == y.1)),
        _ => false,
    }
}
fn reading(v: &Value, i: &Ix, how: usize) {
    let want = i.find(v).and_then(|p| at(v, p));
    check(same_ref(i.get(v, how), want), 1);
    match want {
        Some(w) => {
            check(std::ptr::eq(i.index(v), w), 2);
            reach(1)
        }
        None => {
            check(*i.index(v) == Value::Null, 3);
            reach(2)
        }
    }
    observe(&[want.is_some() as u8]);
}
fn writing(v: &Value, i: &Ix, how: usize) {
    let mark = Value::String("changed!".to_owned());
    let want = i.find(v);
    // get_mut
    let mut w = v.clone();
    match (i.get_mut(&mut w, how), want) {
        (Some(e), Some(p)) => {
            check(Some(&*e) == at(v, p), 10);
            *e = mark.clone();
            check(at(&w, p) == Some(&mark) && len(&w) == len(v) && rest_equal(&w, v, p), 11);
            reach(1)
        }
        (None, None) => {
            check(w == *v, 12);
            reach(2)
        }
        _ => check(false, 13),
    }
    // index assignment
    let mut w = v.clone();
    let inner = untag(v);
    if let Some(p) = want {
        *i.index_mut(&mut w) = mark.clone();
        check(at(&w, p) == Some(&mark) && len(&w) == len(v) && rest_equal(&w, v, p), 14);
    } else if inner.is_mapping() {
        // a new last entry
        let n = len(v);
        check(*i.index_mut(&mut w) == Value::Null, 15);
        check(at(&w, n) == Some(&Value::Null) && len(&w) == n + 1 && rest_equal(&w, v, n), 16);
        *i.index_mut(&mut w) = mark.clone();
        check(at(&w, n) == Some(&mark) && len(&w) == n + 1 && rest_equal(&w, v, n), 17);
        check(i.find(&w) == Some(n), 18);
        reach(3)
    } else if *v == Value::Null && !matches!(i, Ix::N(_)) {
        // null becomes a mapping with that key
        *i.index_mut(&mut w) = mark.clone();
        let mut m = Mapping::new();
        m.insert(i.key(), mark);
        check(w == Value::Mapping(m), 19);
        reach(4)
    } else {
        // no such element can be made
        observe(&[9]);
        reach(5);
        expect_panic();
        *i.index_mut(&mut w) = mark;
        check(false, 20)
    }
    observe(&[want.is_some() as u8]);
}
/// containers with symbolic contents
fn container() -> Value {
    let b = text_in::<2>(b"ab0");
    let k = |x: u8| Value::String((x as char).to_string());
    let v = match pick(7) {
        0 => Value::Sequence((0..pick(4)).map(|i| Value::from(i as u64 + 10)).collect()),
        n => {
            let mut m = Mapping::new();
            m.insert(k(b[0]), Value::from(1));
            match n {
                1 => { m.insert(k(b[1]), Value::from(2)); }
                2 => { m.insert(Value::from((b[1] - b'0') % 3), Value::from(2)); }
                3 => { m.insert(Value::Sequence(vec![k(b[1])]), Value::from(2)); m.insert(Value::Null, Value::from(3)); }
                4 => { m.insert(Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: k(b[1]) })), Value::from(2)); }
                5 => { m.insert(Value::from(0), Value::Sequence(vec![k(b[1])])); m.insert(Value::from(-1), Value::from(1.0)); m.insert(Value::from(1.0), Value::from(7)); }
                _ => m = Mapping::new(),
            }
            Value::Mapping(m)
        }
    };
    wrap(v)
}
fn wrap(v: Value) -> Value {
    (0..pick(3)).fold(v, |v, i| Value::Tagged(Box::new(TaggedValue { tag: Tag::new(["x", "y"][i]), value: v })))
}
fn scalar() -> Value {
    wrap(match pick(5) {
        0 => Value::Null,
        1 => Value::Bool(true),
        2 => Value::from(5),
        3 => Value::String(str_of(&text_in::<1>(b"a0~")).to_owned()),
        _ => Value::from(1.5),
    })
}
fn index() -> Ix {
    match pick(6) {
        0 => Ix::N(pick(5)),
        1 => Ix::N(usize::MAX),
        2 => Ix::S(str_of(&text_in::<1>(b"ab01")).to_owned()),
        3 => Ix::S(["", "ab", "~"][pick(3)].to_owned()),
        4 => Ix::V(match pick(7) {
            0 => Value::Null,
            1 => Value::from(0),
            2 => Value::from(1.0),
            3 => Value::Sequence(vec![Value::String("a".to_owned())]),
            4 => Value::from(-1),
            5 => Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: Value::String("a".to_owned()) })),
            _ => Value::Mapping(Mapping::new()),
        }),
        _ => Ix::V(Value::String(str_of(&text_in::<1>(b"ab01")).to_owned())),
    }
}
/// what each accessor must say
fn accessors(v: &Value) {
    let u = untag(v).clone();
    check(v.is_null() == matches!(u, Value::Null) && v.as_null().is_some() == v.is_null(), 30);
    check(v.as_bool() == match u { Value::Bool(b) => Some(b), _ => None } && v.is_bool() == v.as_bool().is_some(), 31);
    check(v.is_number() == matches!(u, Value::Number(_)), 32);
    let n = match &u { Value::Number(n) => Some(n.clone()), _ => None };
    check(v.as_i64() == n.as_ref().and_then(|n| n.as_i64()) && v.is_i64() == v.as_i64().is_some(), 33);
    check(v.as_u64() == n.as_ref().and_then(|n| n.as_u64()) && v.is_u64() == v.as_u64().is_some(), 34);
    check(v.as_f64() == n.as_ref().and_then(|n| n.as_f64()) && v.is_f64() == n.as_ref().map_or(false, |n| n.is_f64()), 35);
    check(v.as_str() == match &u { Value::String(s) => Some(s.as_str()), _ => None } && v.is_string() == v.as_str().is_some(), 36);
    let mut w = v.clone();
    match u {
        Value::Sequence(s) => {
            check(v.is_sequence() && v.as_sequence() == Some(&s), 37);
            match w.as_sequence_mut() { Some(x) => x.push(Value::Null), None => check(false, 38) }
            check(len(&w) == s.len() + 1 && w.as_sequence().map(|x| &x[..s.len()]) == Some(&s[..]), 39);
            check(!v.is_mapping() && v.as_mapping().is_none() && w.as_mapping_mut().is_none(), 40);
        }
        Value::Mapping(m) => {
            check(v.is_mapping() && v.as_mapping() == Some(&m), 41);
            match w.as_mapping_mut() { Some(x) => { x.insert(Value::from("new one"), Value::Null); } None => check(false, 42) }
            check(len(&w) == m.len() + 1 && rest_equal(&w, v, m.len()), 43);
            check(!v.is_sequence() && v.as_sequence().is_none() && w.as_sequence_mut().is_none(), 44);
        }
        _ => {
            check(!v.is_sequence() && v.as_sequence().is_none() && w.as_sequence_mut().is_none(), 45);
            check(!v.is_mapping() && v.as_mapping().is_none() && w.as_mapping_mut().is_none(), 46);
            check(w == *v, 47);
        }
    }
    observe(&[v.is_null() as u8]);
    reach(1)
}

harnesses! {
    //@ q reach=1,2 audit=64 pathz3=16 | get and Index: 7 shapes of sequence or mapping (2 symbolic key characters) under 0 to 2 tags; index of every type (number, text, Value of every kind)
    fn h_c25_get() { reading(&container(), &index(), pick(3)) }
    //@ q reach=1,2,3,5 audit=64 pathz3=16 | get_mut and index assignment on the same containers: exactly that element changes, a missing key is added last, a missing position panics
    fn h_c25_set() { writing(&container(), &index(), pick(3)) }
    //@ q reach=2,4,5 audit=64 pathz3=16 | get, Index, get_mut and assignment on scalars of every kind under 0 to 2 tags
    fn h_c25_scalar() {
        let (v, i) = (scalar(), index());
        reading(&v, &i, 0);
        writing(&v, &i, 0)
    }
    //@ q reach=1 audit=64 pathz3=16 | the is_/as_ accessors on every Value of up to 3 nodes, tags included, and under 0 to 2 more tags
    fn h_c25_accessors() {
        accessors(&wrap(gen_value(&mut 3, 2, true)))
    }
    //@ q reach=1 audit=64 pathz3=16 | the numeric accessors for every i64, u64 and the bits of every f64, tagged or not
    fn h_c25_numbers() {
        let n = u64::from_le_bytes(bytes::<8>());
        let t = |v| if flag() { Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: v })) } else { v };
        match pick(3) {
            0 => {
                let v = t(Value::from(n as i64));
                check(v.as_i64() == Some(n as i64) && v.is_number() && v.is_i64() && !v.is_f64(), 50);
                check(v.as_u64() == if (n as i64) < 0 { None } else { Some(n) } && v.is_u64() == ((n as i64) >= 0), 51);
            }
            1 => {
                let v = t(Value::from(n));
                check(v.as_u64() == Some(n) && v.is_number() && v.is_u64() && !v.is_f64(), 52);
                check(v.as_i64() == if n >> 63 == 1 { None } else { Some(n as i64) } && v.is_i64() == (n >> 63 == 0), 53);
            }
            _ => {
                let f = f64::from_bits(n);
                let v = t(Value::from(f));
                check(v.is_f64() && v.is_number() && !v.is_i64() && !v.is_u64() && v.as_i64().is_none() && v.as_u64().is_none(), 54);
                check(v.as_f64().map(|x| x == f || x.is_nan() && f.is_nan()) == Some(true), 55);
            }
        }
        check(!(Value::from(n).is_null() || Value::from(n).is_bool() || Value::from(n).is_string()), 56);
        observe(&n.to_le_bytes());
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | paths of 2 steps into nested containers: reading and assigning through chained indexing, missing parts created
    fn h_c25_path() {
        let b = text_in::<2>(b"ab");
        let (x, y) = ((b[0] as char).to_string(), (b[1] as char).to_string());
        let mut v = match val(one(&["{a: {a: 1, b: 2}, b: {b: 3}}", "{a: {}}", "~", "{}", "!t {b: !u {a: 4}}", "{a: ~}"])) { Ok(v) => v, Err(_) => { check(false, 60); return } };
        let old = v.clone();
        let get = |v: &Value, x: &str, y: &str| v.get(x).and_then(|w| w.get(y)).cloned();
        check(old[x.as_str()][y.as_str()] == get(&old, &x, &y).unwrap_or(Value::Null), 61);
        v[x.as_str()][y.as_str()] = Value::from(99);
        for p in ["a", "b"] {
            for q in ["a", "b"] {
                let want = if p == x && q == y { Some(Value::from(99)) } else { get(&old, p, q) };
                check(get(&v, p, q) == want, 62);
            }
        }
        observe(&b);
        reach(1)
    }
    //@ q reach=1 audit=16 pathz3=4 | sequences and mappings of 30 to 300 elements, positions and keys at both ends, in the middle and past the end
    fn h_c25_large() {
        let n = one(&[31usize, 32, 33, 127, 128, 129, 255, 256, 257, 300]);
        let p = one(&[0usize, 1, n / 2, n - 2, n - 1, n, n + 1, n + 256, usize::MAX, usize::MAX - n]);
        let v = match pick(3) {
            0 => Value::Sequence((0..n).map(|i| Value::from(i * 3)).collect()),
            1 => Value::Mapping((0..n).map(|i| (Value::from(i), Value::from(i * 3))).collect()),
            _ => Value::Mapping((0..n).map(|i| (Value::from(i.to_string()), Value::from(i * 3))).collect()),
        };
        let v = if flag() { Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: v })) } else { v };
        let i = match pick(3) { 0 => Ix::N(p), 1 => Ix::S(p.to_string()), _ => Ix::V(Value::from(p)) };
        if flag() { reading(&v, &i, pick(2)) } else { writing(&v, &i, pick(2)) }
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | 54 odd strings (empty, blanks, NUL, look-alikes, wide) as index and as key beside 7 others, every index type
    fn h_c25_odd() {
        let (k, l) = (odd(), one(&["a", "a\0", "", "1", "null", " a", "a "]));
        let mut m = Mapping::new();
        m.insert(Value::from(l), Value::from(1));
        let mut v = Value::Mapping(m.clone());
        let i = if flag() { Ix::S(k.to_owned()) } else { Ix::V(Value::from(k)) };
        let how = pick(3);
        reading(&v, &i, how);
        check(i.get_mut(&mut v, how).is_some() == (k == l), 70);
        m.insert(Value::from(k), Value::from(2));
        let v = Value::Mapping(m);
        reading(&v, &i, how);
        writing(&v, &i, how);
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | integer keys and indexes at the limits of 8, 16, 32, 53 and 64 bits (15 x 15), the float and the text of the same number beside them, every index type
    fn h_c25_wide() {
        const W: &[u64] = &[0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0xffffffff, 0x100000000, 0x100000001, 1 << 53, (1 << 53) + 1, i64::MAX as u64, 1 << 63, u64::MAX];
        let (k, n) = (one(W), one(W));
        let m: Mapping = [(Value::from(k as f64), Value::from(1)), (Value::from((k as i64).wrapping_neg()), Value::from(2)), (Value::from(k), Value::from(3)), (Value::from(k.to_string()), Value::from(4))].into_iter().collect();
        let v = Value::Mapping(m);
        let i = match pick(4) { 0 => Ix::N(n as usize), 1 => Ix::S(n.to_string()), 2 => Ix::V(Value::from(n)), _ => Ix::V(Value::from(n as i64)) };
        if flag() { reading(&v, &i, pick(3)) } else { writing(&v, &i, pick(3)) }
        reach(1)
    }
    //@ t reach=1 audit=1024 pathz3=64 | the is_/as_ accessors on every Value of up to 4 nodes
    fn h_c25_accessors_t() { accessors(&wrap(gen_value(&mut 4, 2, true))) }
    //@ t reach=1,2 audit=1024 pathz3=64 | get and Index: every Value of up to 4 nodes, index any of the above
    fn h_c25_get_t() { reading(&gen_value(&mut 4, 2, true), &index(), 0) }
    //@ t reach=1,2,3,4,5 audit=1024 pathz3=64 | get_mut and assignment: every Value of up to 4 nodes, index any of the above
    fn h_c25_set_t() { writing(&gen_value(&mut 4, 2, true), &index(), 0) }
}

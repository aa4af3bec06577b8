//! C15: equality, ordering and hashing laws.
use crate::sym::*;
use crate::util::*;
use serde_yaml::{value::{Tag, TaggedValue}, Mapping, Number, Value};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// the exact sequence of bytes fed to a hasher
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn hashed<T: Hash>(x: &T) -> Vec<u8> {
    let mut h = Rec::default();
    x.hash(&mut h);
    h.0
}
fn num() -> Number {
    let x = u64::from_le_bytes(bytes::<8>());
    match pick(3) {
        0 => Number::from(x),
        1 => Number::from(x as i64),
        _ => Number::from(f64::from_bits(x)),
    }
}
fn int_of(n: &Number) -> Option<i128> {
    n.as_u64().map(i128::from).or(n.as_i64().map(i128::from))
}
fn rev(o: Option<Ordering>) -> Option<Ordering> {
    o.map(Ordering::reverse)
}
fn pair<T: PartialEq + PartialOrd + Hash>(a: &T, b: &T) {
    let e = a == b;
    check((b == a) == e, 1);
    let o = a.partial_cmp(b);
    check(b.partial_cmp(a) == rev(o), 2);
    check((o == Some(Ordering::Equal)) == e, 3);
    check((a < b) == (o == Some(Ordering::Less)) && (a >= b) == (o == Some(Ordering::Greater) || e), 4);
    if e {
        check(same(&hashed(a), &hashed(b)), 5);
        reach(2);
    }
    reach(1);
}
fn refl<T: PartialEq + PartialOrd + Clone + Hash>(a: &T) {
    check(*a == *a, 10);
    check(a.partial_cmp(a) == Some(Ordering::Equal), 11);
    let b = a.clone();
    check(b == *a && same(&hashed(&b), &hashed(a)), 12);
}
fn triple<T: PartialEq + PartialOrd>(a: &T, b: &T, c: &T) {
    if a == b && b == c {
        check(a == c, 20);
        reach(2);
    }
    let (x, y) = (a.partial_cmp(b), b.partial_cmp(c));
    if x == Some(Ordering::Less) && matches!(y, Some(Ordering::Less | Ordering::Equal)) || x == Some(Ordering::Equal) && y == Some(Ordering::Less) {
        check(a.partial_cmp(c) == Some(Ordering::Less), 21);
        reach(3);
    }
    reach(1);
}
/// a value of bounded size; scalars are symbolic
fn gen(depth: usize) -> Value {
    gen_n(depth, 2, 2)
}
fn gen_n(depth: usize, seq: usize, map: usize) -> Value {
    match pick(if depth == 0 { 4 } else { 7 }) {
        0 => Value::Null,
        1 => Value::Bool(choice(2) == 1),
        2 => Value::Number(small()),
        3 => {
            let n = pick(2);
            let b = [byte_in(b"ab")];
            Value::String(str_of(&b[..n]).to_owned())
        }
        4 => Value::Sequence((0..pick(seq + 1)).map(|_| gen(depth - 1)).collect()),
        5 => Value::Mapping(entries(pick(map + 1), depth - 1)),
        _ => Value::Tagged(Box::new(TaggedValue { tag: tag(), value: gen(depth - 1) })),
    }
}
/// numbers of every kind, few of each
fn small() -> Number {
    match pick(3) {
        0 => Number::from(choice(2)),
        1 => Number::from(-1i8),
        _ => Number::from(one(&[0.0f64, -0.0, 1.0, f64::NAN, f64::INFINITY])),
    }
}
fn tag() -> Tag {
    let b = [byte_in(b"!st")];
    let c = [byte_in(b"!st")];
    Tag::new(if flag() { str_of(&b).to_owned() } else { [str_of(&b), str_of(&c)].concat() })
}
fn entries(n: usize, depth: usize) -> Mapping {
    let mut m = Mapping::new();
    for _ in 0..n {
        let k = gen(depth);
        let v = gen(depth);
        m.insert(k, v);
    }
    m
}
/// the same entries in another insertion order give an equal mapping, with the same hash
fn order(e: Vec<(Value, Value)>, perm: &[usize]) {
    let a: Mapping = e.iter().cloned().collect();
    let b: Mapping = perm.iter().map(|i| e[*i].clone()).collect();
    assume(a.len() == e.len());
    check(a == b && b == a, 30);
    check(a.partial_cmp(&b) == Some(Ordering::Equal), 31);
    check(same(&hashed(&a), &hashed(&b)), 32);
    let (x, y) = (Value::Mapping(a), Value::Mapping(b));
    check(x == y && x.partial_cmp(&y) == Some(Ordering::Equal) && same(&hashed(&x), &hashed(&y)), 33);
    // as a key of another mapping
    let mut m = Mapping::new();
    m.insert(x, Value::from(1));
    check(m.get(&y) == Some(&Value::from(1)), 34);
    check(m.insert(y, Value::from(2)) == Some(Value::from(1)) && m.len() == 1, 35);
    reach(1);
}
fn scalar() -> Value {
    match pick(6) {
        0 => Value::Null,
        1 => Value::Bool(choice(2) == 1),
        2 => Value::Number(num()),
        3 => {
            let b = [byte_in(b"abtruefals~"), byte_in(b"ab1")];
            Value::String(str_of(&b).to_owned())
        }
        4 => Value::Sequence(vec![Value::Null]),
        _ => Value::Tagged(Box::new(TaggedValue { tag: Tag::new("t"), value: Value::Number(num()) })),
    }
}

/// the same value twice, every mapping in it inserted in one order and in that or the reverse order
fn twin(depth: usize) -> (Value, Value) {
    let tw = |v: Value| (v.clone(), v);
    match pick(if depth == 0 { 3 } else { 6 }) {
        0 => tw(Value::Null),
        1 => tw(Value::from(choice(2))),
        2 => tw(Value::from("s")),
        5 => {
            let (a, b) = twin(depth - 1);
            (Value::Sequence(vec![a]), Value::Sequence(vec![b]))
        }
        n => {
            let mut e = vec![];
            for i in 0..n - 2 {
                let (k, l) = twin(depth - 1);
                let (v, w) = tw(Value::from(i));
                e.push(((k, v), (l, w)));
            }
            let a: Mapping = e.iter().map(|x| x.0.clone()).collect();
            let b: Mapping = if flag() { e.iter().rev().map(|x| x.1.clone()).collect() } else { e.iter().map(|x| x.1.clone()).collect() };
            assume(a.len() == e.len() && b.len() == e.len());
            (Value::Mapping(a), Value::Mapping(b))
        }
    }
}
fn twins(depth: usize, other: usize) {
    let (a, b) = twin(depth);
    check(a == b && b == a, 80);
    check(a.partial_cmp(&b) == Some(Ordering::Equal) && b.partial_cmp(&a) == Some(Ordering::Equal), 81);
    check(same(&hashed(&a), &hashed(&b)), 82);
    let m: Mapping = [(a.clone(), Value::from(1))].into_iter().collect();
    check(m.get(&b) == Some(&Value::from(1)), 83);
    // both compare alike with anything else
    let (c, d) = twin(other);
    check((a == c) == (b == d), 84);
    check(a.partial_cmp(&c) == b.partial_cmp(&d), 85);
    // and order entries alike
    let x: Mapping = [(a, Value::from(1)), (c, Value::from(2))].into_iter().collect();
    let y: Mapping = [(d, Value::from(2)), (b, Value::from(1))].into_iter().collect();
    if x.len() == 2 {
        check(x == y && x.partial_cmp(&y) == Some(Ordering::Equal) && same(&hashed(&x), &hashed(&y)), 86);
        reach(2)
    }
    reach(1)
}

harnesses! {
    //@ q reach=1,2 audit=64 pathz3=8 | Number: reflexivity, symmetry, antisymmetry, hash agreement for every pair of u64, i64, f64 values
    fn h_c15_num2() { let (a, b) = (num(), num()); refl(&a); pair(&a, &b) }
    //@ q reach=1,2,3 audit=64 pathz3=8 | Number: transitivity of equality and order for every triple of u64, i64, f64 values
    fn h_c15_num3() { let (a, b, c) = (num(), num(), num()); triple(&a, &b, &c) }
    //@ q reach=1,2 audit=64 pathz3=8 | Tag: laws and agreement with text comparison for every pair of tags of up to 3 characters of ! s t
    fn h_c15_tag2() {
        let a = text_in::<3>(b"!st");
        let b = text_in::<3>(b"!st");
        let (a, b) = (&a[..1 + pick(3)], &b[..1 + pick(3)]);
        let (x, y) = (Tag::new(str_of(a)), Tag::new(str_of(b)));
        refl(&x);
        pair(&x, &y);
        check(x.cmp(&y) == x.partial_cmp(&y).unwrap(), 40);
        // one leading "!" is not significant, unless it is all there is
        fn n(t: &[u8]) -> &[u8] { if t[0] == b'!' && t.len() > 1 { &t[1..] } else { t } }
        let e = n(a) == n(b);
        check((x == y) == e, 41);
        check((x == *str_of(b)) == e && (x == str_of(b).to_owned()) == e, 42);
    }
    //@ q reach=1 audit=64 pathz3=8 | Tag: transitivity for every triple of tags of 2 characters of ! s t
    fn h_c15_tag3() {
        let a = text_in::<6>(b"!st");
        triple(&Tag::new(str_of(&a[..2])), &Tag::new(str_of(&a[2..4])), &Tag::new(str_of(&a[4..])))
    }
    //@ q reach=1,2 audit=256 pathz3=64 | Value: laws for every pair of trees of depth up to 1 (scalars, sequences and mappings of up to 1 entry, tagged values)
    fn h_c15_val2() { let a = gen_n(1, 1, 1); let b = gen_n(1, 1, 1); refl(&a); pair(&a, &b) }
    //@ q reach=1,2 audit=256 pathz3=64 | Value: laws for every pair of 2-element sequences of scalars
    fn h_c15_seq2() { let a = vec![gen(0), gen(0)]; let b = vec![gen(0), gen(0)]; pair(&Value::Sequence(a), &Value::Sequence(b)) }
    //@ q reach=1,2 audit=256 pathz3=64 | Mapping: laws for every pair of mappings of up to 2 entries with keys null, bool, number, string and 1-bit values
    fn h_c15_map2() {
        fn k() -> Value { match pick(4) { 0 => Value::Null, 1 => Value::Bool(choice(2) == 1), 2 => Value::Number(choice(2).into()), _ => { let b = [byte_in(b"ab")]; Value::String(str_of(&b).to_owned()) } } }
        fn m() -> Mapping { (0..pick(3)).map(|_| (k(), Value::Number(choice(2).into()))).collect() }
        pair(&m(), &m())
    }
    //@ q reach=1,2,3 audit=256 pathz3=64 | Value: transitivity for every triple of scalars, and of tagged scalars
    fn h_c15_val3() { let (a, b, c) = (gen(0), gen(0), gen(0)); triple(&a, &b, &c) }
    //@ q reach=1,2,3 audit=256 pathz3=64 | Mapping: transitivity for triples of one-entry mappings over Bool, numbers and strings; and mapping-in-key
    fn h_c15_map3() {
        fn k() -> Value { match pick(3) { 0 => Value::Bool(choice(2) == 1), 1 => Value::Number(one(&[0u8, 1]).into()), _ => { let b = [byte_in(b"ab")]; Value::String(str_of(&b).to_owned()) } } }
        fn m() -> Mapping { let mut m = Mapping::new(); m.insert(k(), Value::Number(choice(2).into())); m }
        let (a, b, c) = (m(), m(), m());
        triple(&a, &b, &c)
    }
    //@ q reach=1 audit=64 pathz3=8 | insertion order: two entries whose keys are any scalars or depth-1 collections
    fn h_c15_order2() {
        let e = vec![(gen_n(1, 2, 1), Value::Number(byte().into())), (gen(0), Value::Number(byte().into()))];
        order(e, &[1, 0])
    }
    //@ q reach=1 audit=64 pathz3=8 | insertion order: three entries in all 5 other orders, scalar keys
    fn h_c15_order3() {
        let e = (0..3).map(|i| (gen(0), Value::from(i))).collect();
        order(e, one(&[&[0usize, 2, 1] as &[usize], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]]))
    }
    //@ q reach=1 | insertion order inside a mapping that is a key: nested to 2 levels
    fn h_c15_keynest() {
        let k = |a: &[(u8, u8)]| Value::Mapping(a.iter().map(|(k, v)| (Value::from(*k), Value::from(*v))).collect());
        let (x, y) = (choice(4), choice(4));
        let p = k(&[(1, x), (2, y)]);
        let q = k(&[(2, y), (1, x)]);
        let (p, q) = if flag() { (p, q) } else { (Value::Sequence(vec![p]), Value::Sequence(vec![q])) };
        check(p == q && p.partial_cmp(&q) == Some(Ordering::Equal), 50);
        let e1: Mapping = [(p.clone(), Value::Null), (Value::Bool(true), Value::Null)].into_iter().collect();
        let e2: Mapping = [(Value::Bool(true), Value::Null), (q.clone(), Value::Null)].into_iter().collect();
        check(e1 == e2 && e1.partial_cmp(&e2) == Some(Ordering::Equal), 51);
        check(same(&hashed(&e1), &hashed(&e2)), 52);
        let f1: Mapping = [(Value::Mapping(e1), Value::Null)].into_iter().collect();
        let f2: Mapping = [(Value::Mapping(e2), Value::Null)].into_iter().collect();
        check(f1 == f2 && f1.partial_cmp(&f2) == Some(Ordering::Equal), 53);
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=8 | comparison with integers: every scalar Value against every u64, i64 and narrower value
    fn h_c15_prim_int() {
        let v = scalar();
        let x = u64::from_le_bytes(bytes::<8>());
        macro_rules! t {
            ($acc:ident $base:ty: $($t:ty)*) => { $(
                let y = x as $t;
                let w = v.$acc() == Some(y as $base);
                check((v == y) == w && (&v == y) == w, 60);
                let mut u = v.clone();
                check((&mut u == y) == w, 61);
            )* };
        }
        t!(as_i64 i64: i64 i32 i16 i8 isize);
        t!(as_u64 u64: u64 u32 u16 u8 usize);
        if v == x { reach(2) }
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=8 | comparison with f64: every float or small integer Value against every f64
    fn h_c15_prim_f64() {
        let x = f64::from_bits(u64::from_le_bytes(bytes::<8>()));
        let v = match pick(3) {
            0 => Value::from(f64::from_bits(u64::from_le_bytes(bytes::<8>()))),
            1 => Value::from(one(&[0u64, 1, u64::MAX])),
            _ => Value::from(one(&["1", "", ".nan"])),
        };
        let w = match v.as_f64() { Some(f) => f == x, None => false };
        check((v == x) == w && (&v == x) == w, 62);
        let g = x as f32;
        let w = match v.as_f64() { Some(f) => f == g as f64, None => false };
        check((v == g) == w, 63);
        if v == x { reach(2) }
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=8 | comparison with bool and strings of up to 2 characters
    fn h_c15_prim_str() {
        let v = scalar();
        let b = [byte_in(b"abtruefals~"), byte_in(b"ab1")];
        let s = str_of(&b[..pick(3)]);
        let w = match v.as_str() { Some(t) => same(t.as_bytes(), s.as_bytes()), None => false };
        check((v == *s) == w && (v == s) == w && (v == s.to_owned()) == w, 64);
        let x = choice(2) == 1;
        check((v == x) == (v.as_bool() == Some(x)), 65);
        if w { reach(2) }
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=8 | insertion order at any level: values of depth up to 2 (mappings of up to 2 entries as keys and values) against themselves inserted in other orders, both beside another one of depth 1
    fn h_c15_twin() { twins(2, 1) }
    //@ q reach=1 audit=64 pathz3=8 | integers are ordered by value and floats as f64 does (NaN equal to itself only), as Number and inside Value: every pair of u64, i64, f64 values of like kind
    fn h_c15_byvalue() {
        let (a, b) = (num(), num());
        let want = match (int_of(&a), int_of(&b)) {
            (Some(x), Some(y)) => Some(x.cmp(&y)),
            (None, None) => {
                let (x, y) = (a.as_f64().unwrap(), b.as_f64().unwrap());
                if x.is_nan() && y.is_nan() { Some(Ordering::Equal) } else { x.partial_cmp(&y) }
            }
            _ => return reach(1),
        };
        check(a.partial_cmp(&b) == want, 120);
        check(Value::Number(a).partial_cmp(&Value::Number(b)) == want, 121);
        reach(1)
    }
    //@ q reach=1,2 audit=64 pathz3=8 | strings and bools are ordered as such, sequences of up to 2 scalars lexicographically
    fn h_c15_lex() {
        if flag() {
            let s = text_in::<4>(b"aZ~");
            let (x, y) = (&s[..pick(3)], &s[2..2 + pick(3)]);
            check(Value::from(str_of(x)).partial_cmp(&Value::from(str_of(y))) == Some(x.cmp(y)), 122);
            let (p, q) = (flag(), flag());
            check(Value::from(p).partial_cmp(&Value::from(q)) == Some(p.cmp(&q)), 123);
            return reach(1);
        }
        let a: Vec<Value> = (0..pick(3)).map(|_| gen(0)).collect();
        let b: Vec<Value> = (0..pick(3)).map(|_| gen(0)).collect();
        let mut want = Some(a.len().cmp(&b.len()));
        for (x, y) in a.iter().zip(&b) {
            let o = x.partial_cmp(y);
            if o != Some(Ordering::Equal) {
                want = o;
                reach(2);
                break;
            }
        }
        check(Value::Sequence(a).partial_cmp(&Value::Sequence(b)) == want, 124);
        reach(1)
    }
    //@ q reach=1,2 audit=32 pathz3=4 | strings against text: every pair of 52 odd strings and words, the second with nothing or any ASCII character after it: Value and tagged Value with &str, str and String, Value with Value, Tag with text
    fn h_c15_odd() {
        let (a, b) = (odd(), odd());
        let c = ascii::<1>();
        let b = if flag() { [b.as_bytes(), &c].concat() } else { b.as_bytes().to_vec() };
        let t = str_of(&b);
        let w = same(a.as_bytes(), &b);
        let v = Value::from(a);
        let g = tagged("t", v.clone());
        check((v == *t) == w && (v == t) == w && (v == t.to_owned()) == w, 130);
        check((g == *t) == w && (g == t) == w && (g == t.to_owned()) == w, 131);
        let u = Value::from(t);
        check((v == u) == w && v.partial_cmp(&u) == Some(a.as_bytes().cmp(&b)), 132);
        check(!w || same(&hashed(&v), &hashed(&u)), 133);
        if !a.is_empty() && !b.is_empty() {
            fn n(t: &[u8]) -> &[u8] { if t[0] == b'!' && t.len() > 1 { &t[1..] } else { t } }
            let e = n(a.as_bytes()) == n(&b);
            let (x, y) = (Tag::new(a), Tag::new(t));
            check((x == y) == e && (x == *t) == e && (x == t.to_owned()) == e, 134);
            check((x.cmp(&y) == Ordering::Equal) == e && (!e || same(&hashed(&x), &hashed(&y))), 135);
        }
        if w { reach(2) }
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=8 | long names: tags, tagged Values, string Values and string keys of 1 to 130 characters with one of 9 characters first, in the middle and last: equality is that of the text, with hash and order
    fn h_c15_longtext() {
        let n = one(&[1usize, 2, 8, 16, 23, 24, 25, 32, 64, 130]);
        fn text(n: usize) -> String {
            let mut t = vec![b'k'; n + 1];
            let at = match pick(3) { 0 => 0, 1 => n / 2, _ => n };
            t[at] = byte_in(b"kK!k. -~1");
            String::from_utf8(t).unwrap()
        }
        let (a, b) = (text(n), text(n));
        let e = a == b;
        match pick(4) {
            0 => {
                let (x, y) = (Tag::new(&*a), Tag::new(&*b));
                pair(&x, &y);
                check((x == y) == (a.trim_start_matches('!') == b.trim_start_matches('!')), 44);
                check((x.cmp(&y) == Ordering::Equal) == (x == y) && x.partial_cmp(&y) == Some(x.cmp(&y)), 45);
            }
            1 => { let (x, y) = (Value::from(a), Value::from(b)); pair(&x, &y); check((x == y) == e, 46) }
            2 => { let (x, y) = (Value::Sequence(vec![Value::from(a)]), Value::Sequence(vec![Value::from(b)])); pair(&x, &y); check((x == y) == e, 47) }
            _ => {
                let m = |k: &str| -> Mapping { [(Value::from(k), Value::from(1))].into_iter().collect() };
                let (x, y) = (m(&a), m(&b));
                pair(&x, &y);
                check((x == y) == e, 48);
                let (x, y) = (tagged(&a, Value::from(1)), tagged(&b, Value::from(1)));
                pair(&x, &y);
            }
        }
        reach(1)
    }
    //@ t reach=1,2 audit=4096 pathz3=1024 | Value: laws for every pair of a tree of depth up to 1 with up to 2 entries and one with up to 1
    fn h_c15_val2b() { let a = gen(1); let b = gen_n(1, 2, 1); pair(&a, &b); pair(&b, &a) }
    //@ t reach=1,2 audit=4096 pathz3=1024 | Value: laws for every pair of depth 2 chains
    fn h_c15_val2c() { let a = gen_n(2, 1, 0); let b = gen_n(2, 1, 0); pair(&a, &b) }
    //@ t reach=1,2,3 audit=4096 pathz3=1024 | Value: transitivity for every triple (depth 1, 0, 0 in every order)
    fn h_c15_val3b() {
        let (a, b, c) = (gen(1), gen(0), gen(0));
        match pick(3) { 0 => triple(&a, &b, &c), 1 => triple(&b, &a, &c), _ => triple(&b, &c, &a) }
    }
    //@ t reach=1 audit=256 pathz3=64 | insertion order: two entries whose keys are depth-1 values
    fn h_c15_order2b() {
        let e = vec![(gen(1), gen(0)), (gen(1), gen(0))];
        order(e, &[1, 0])
    }
    //@ t reach=1,2 audit=256 pathz3=64 | insertion order at any level: two values of depth up to 2 and their reorderings
    fn h_c15_twin22() { twins(2, 2) }
    //@ t reach=1,2 audit=256 pathz3=64 | insertion order at any level: values of depth up to 3 and a scalar
    fn h_c15_twin3() { twins(3, 0) }
}

//! C05: value trees survive a text round trip and the text is stable.
use crate::sym::*;
use crate::util::*;
use serde_yaml::Value;

fn rt(v: &Value) {
    let y = serde_yaml::to_string(v).unwrap();
    observe(y.as_bytes());
    let w: Value = serde_yaml::from_str(&y).unwrap();
    check(w == *v, 1);
    let z = serde_yaml::to_string(&w).unwrap();
    check(same(y.as_bytes(), z.as_bytes()), 2);
    reach(2);
}
fn doc(b: &[u8]) {
    if let Ok(v) = serde_yaml::from_slice::<Value>(b) {
        rt(&v);
    }
    reach(1);
}
const POS: &[Tpl] = &[
    ("", ""), ("- ", ""), ("- a\n- ", "\n- b"), ("a: ", ""), ("? ", ""), ("? ", "\n: b"), ("!t ", ""), ("- !t ", "\n- b"), ("!t [", "]"), ("!t {", "}"),
    ("[", "]"), ("{", "}"), ("{? ", " : b, c: d}"), ("[[], {}, ", "]"), ("? - ", "\n: - b"), ("a: !t\n  ", ""), ("- - ", "\n  - c"), ("? !t ", "\n: !u b"), ("- ? ", "\n  : - a"),
    ("{a: [", "]}"), ("- |\n ", "\n\n- b"), ("a: &x ", "\nb: *x"), ("!!map {a: ", "}"), ("? {a: ", "}\n: b"), ("? [", "]\n: b"),
];

harnesses! {
    //@ q reach=1,2 audit=64 pathz3=4 | every document of 3 arbitrary bytes that parses to a Value
    fn h_c05_any3() { doc(&bytes::<3>()) }
    //@ q reach=1,2 audit=64 pathz3=4 | 25 contexts (block, flow, keys, tags, nesting) x every 2 ASCII characters
    fn h_c05_pos2() { let (p, s) = one(POS); let b = ascii::<2>(); doc(&[p.as_bytes(), &b, s.as_bytes()].concat()) }
    //@ q reach=1,2 audit=64 pathz3=4 | every document of 5 characters from 16 YAML characters
    fn h_c05_yaml5() { doc(&text_in::<5>(YAML2)) }
    //@ q reach=1,2 audit=64 pathz3=4 | 25 contexts x 3 characters of 16 YAML characters
    fn h_c05_pos3() { doc(&tdoc_in::<3>(POS, YAML2)) }
    //@ q reach=2 audit=64 pathz3=4 | generated values of up to 4 nodes and depth 2 (collections as keys, tags, empty collections, strings of one of 9 characters)
    fn h_c05_gen() { let mut n = 4; let v = gen_value(&mut n, 2, true); rt(&v) }
    //@ q reach=2 audit=64 pathz3=4 | wide and deep values: sequences and mappings of 1 to 300 entries, chains of depth 100 and 120, around every string of 2 of 22 YAML characters
    fn h_c05_big() {
        let b = text_in::<2>(YAML);
        let s = Value::from(str_of(&b));
        let n = one(&[31usize, 32, 33, 127, 128, 255, 256, 300]);
        let v = match pick(5) {
            0 => { let mut q: Vec<Value> = (0..n).map(Value::from).collect(); q[n / 2] = s; Value::Sequence(q) }
            1 => { let mut m: serde_yaml::Mapping = (0..n).map(|i| (Value::from(i), Value::from("x"))).collect(); m.insert(Value::from(n - 1), s); Value::Mapping(m) }
            2 => { let mut m: serde_yaml::Mapping = (0..n).map(|i| (Value::from(i), Value::Sequence(vec![]))).collect(); m.insert(s, Value::Null); Value::Mapping(m) }
            3 => { let mut v = s; for _ in 0..n.min(120) { v = Value::Sequence(vec![v]) } v }
            _ => { let mut v = s; for _ in 0..n.min(120) { v = Value::Mapping([(Value::from("k"), v)].into_iter().collect()) } v }
        };
        rt(&v)
    }
    //@ t reach=1,2 audit=1024 pathz3=64 | every document of 6 characters from 16 YAML characters
    fn h_c05_yaml6() { doc(&text_in::<6>(YAML2)) }
    //@ t reach=1,2 audit=1024 pathz3=64 | 25 contexts x every 3 ASCII characters
    fn h_c05_pos3a() { let (p, s) = one(POS); let b = ascii::<3>(); doc(&[p.as_bytes(), &b, s.as_bytes()].concat()) }
    //@ t reach=1,2 audit=1024 pathz3=64 | 25 contexts x 4 characters of 16 YAML characters
    fn h_c05_pos4() { doc(&tdoc_in::<4>(POS, YAML2)) }
    //@ t reach=2 audit=1024 pathz3=64 | generated values of up to 5 nodes and depth 3
    fn h_c05_gen5() { let mut n = 5; let v = gen_value(&mut n, 3, true); rt(&v) }
}

//! C03: strings survive serialization.
use crate::sym::*;
use crate::util::*;
use serde_yaml::Value;
use std::collections::BTreeMap;

fn rt(s: &str) {
    let y = serde_yaml::to_string(s).unwrap();
    observe(y.as_bytes());
    let t: String = serde_yaml::from_str(&y).unwrap();
    check(same(t.as_bytes(), s.as_bytes()), 1);
    match serde_yaml::from_str::<Value>(&y).unwrap() {
        Value::String(t) => check(same(t.as_bytes(), s.as_bytes()), 2),
        _ => check(false, 3),
    }
    reach(1);
}
/// the string at each kind of position inside a larger value
fn rt_pos(s: &str, pos: usize) {
    let own = || s.to_owned();
    match pos {
        0 => {
            let v = vec![own(), "x".to_owned()];
            let y = serde_yaml::to_string(&v).unwrap();
            observe(y.as_bytes());
            let t: Vec<String> = serde_yaml::from_str(&y).unwrap();
            check(t.len() == 2 && same(t[0].as_bytes(), s.as_bytes()) && t[1] == "x", 1);
        }
        1 | 2 => {
            // key of a map with one entry, then with two
            let y = if pos == 1 {
                serde_yaml::to_string(&BTreeMap::from([(own(), 1)])).unwrap()
            } else {
                serde_yaml::to_string(&KV2(s)).unwrap()
            };
            observe(y.as_bytes());
            match serde_yaml::from_str::<Value>(&y).unwrap() {
                Value::Mapping(m) => {
                    check(m.len() == pos, 2);
                    let (k, v) = m.iter().next().unwrap();
                    match k {
                        Value::String(k) => check(same(k.as_bytes(), s.as_bytes()) && v.as_u64() == Some(1), 3),
                        _ => check(false, 4),
                    }
                }
                _ => check(false, 5),
            }
        }
        3 => {
            let y = serde_yaml::to_string(&Point { x: 1, y: own() }).unwrap();
            observe(y.as_bytes());
            let t: Point = serde_yaml::from_str(&y).unwrap();
            check(t.x == 1 && same(t.y.as_bytes(), s.as_bytes()), 6);
        }
        4 => {
            let v = vec![vec![vec![own()], vec![]], vec![]];
            let y = serde_yaml::to_string(&v).unwrap();
            observe(y.as_bytes());
            let t: Vec<Vec<Vec<String>>> = serde_yaml::from_str(&y).unwrap();
            check(t.len() == 2 && t[0].len() == 2 && t[0][0].len() == 1 && same(t[0][0][0].as_bytes(), s.as_bytes()), 7);
        }
        5 => {
            let y = serde_yaml::to_string(&E::T(1, own())).unwrap();
            observe(y.as_bytes());
            match serde_yaml::from_str::<E>(&y).unwrap() {
                E::T(1, t) => check(same(t.as_bytes(), s.as_bytes()), 8),
                _ => check(false, 9),
            }
        }
        6 => {
            let y = serde_yaml::to_string(&E::N(own())).unwrap();
            observe(y.as_bytes());
            match serde_yaml::from_str::<E>(&y).unwrap() {
                E::N(t) => check(same(t.as_bytes(), s.as_bytes()), 10),
                _ => check(false, 11),
            }
        }
        7 => {
            let v = BTreeMap::from([("k".to_owned(), vec![BTreeMap::from([("q".to_owned(), own())])])]);
            let y = serde_yaml::to_string(&v).unwrap();
            observe(y.as_bytes());
            let t: BTreeMap<String, Vec<BTreeMap<String, String>>> = serde_yaml::from_str(&y).unwrap();
            check(same(t["k"][0]["q"].as_bytes(), s.as_bytes()), 12);
        }
        _ => {
            let y = serde_yaml::to_string(&(Some(s), 5)).unwrap();
            observe(y.as_bytes());
            let t: (Option<String>, i32) = serde_yaml::from_str(&y).unwrap();
            match t.0 {
                Some(t) => check(same(t.as_bytes(), s.as_bytes()), 13),
                None => check(false, 14),
            }
        }
    }
    reach(1);
}
const NPOS: usize = 9;
struct KV2<'a>(&'a str);
impl serde::Serialize for KV2<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(Some(2))?;
        m.serialize_entry(self.0, &1)?;
        m.serialize_entry(&[0u8], &2)?;
        m.end()
    }
}
/// a valid UTF-8 sequence of N bytes as one character
fn utf8<const N: usize>() -> [u8; N] {
    let b = bytes::<N>();
    assume(b[0] >= 0x80);
    b
}
fn joined(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::with_capacity(128);
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
/// `n` characters with `b` at the start, in the middle or at the end; 0 is the whole document, others a position
fn long(n: usize, fill: &str, b: &[u8], pos: &[usize]) {
    let mut v: Vec<u8> = fill.bytes().cycle().take(n).collect();
    let at = match pick(3) { 0 => 0, 1 => n / 2, _ => n - b.len() };
    v[at..at + b.len()].copy_from_slice(b);
    match one(pos) { 0 => rt(str_of(&v)), p => rt_pos(str_of(&v), p - 1) }
}
const AROUND: &[Tpl] = &[
    ("a", ""), ("", "a"), ("a", "b"), (" ", ""), ("", " "), ("\n", ""), ("", "\n"), ("a\n", "\n"), ("a\n\n", "b\n\n"), ("- ", ""), ("0", ""), ("1e", ""),
    ("0x", "f"), ("0o", "7"), (".", "nf"), ("tru", ""), ("-", "1"), ("nul", ""), ("a: ", ""), ("# ", ""), ("'", "\""), ("---", ""), ("...", ""), ("\u{e9}", ""), ("\n ", " x"), ("  a\n", "  b"),
];

harnesses! {
    //@ q reach=1 | every ASCII string of 1 character as a whole document
    fn h_c03_a1() { rt(str_of(&ascii::<1>())) }
    //@ q reach=1 | every ASCII string of 2 characters as a whole document
    fn h_c03_a2() { rt(str_of(&ascii::<2>())) }
    //@ q reach=1 audit=64 pathz3=4 | every ASCII string of 3 characters as a whole document
    fn h_c03_a3() { rt(str_of(&ascii::<3>())) }
    //@ q reach=1 | every 2-byte UTF-8 character (U+0080..U+07FF) alone
    fn h_c03_u2() { let b = utf8::<2>(); rt(str_of(&b)) }
    //@ q reach=1 | every 3-byte UTF-8 character (U+0800..U+FFFF, incl. U+2028/9, BOM, private use) alone
    fn h_c03_u3() { let b = utf8::<3>(); rt(str_of(&b)) }
    //@ q reach=1 | every 4-byte UTF-8 character (U+10000..U+10FFFF) alone
    fn h_c03_u4() { let b = utf8::<4>(); rt(str_of(&b)) }
    //@ q reach=1 | one ASCII character then a 2-byte UTF-8 character, and the other way round
    fn h_c03_au() {
        let a = ascii::<1>();
        let u = utf8::<2>();
        let v = if flag() { joined(&[&a, &u]) } else { joined(&[&u, &a]) };
        rt(str_of(&v))
    }
    //@ q reach=1 audit=64 pathz3=4 | 26 surroundings x every 2 ASCII characters
    fn h_c03_around2() {
        let (p, s) = one(AROUND);
        let b = ascii::<2>();
        rt(str_of(&joined(&[p.as_bytes(), &b, s.as_bytes()])))
    }
    //@ q reach=1 audit=64 pathz3=4 | 9 positions (element, keys, field, nested, enum payloads, option) x every 2 ASCII characters
    fn h_c03_pos2() { let p = pick(NPOS); let b = ascii::<2>(); rt_pos(str_of(&b), p) }
    //@ q reach=1 audit=64 pathz3=4 | 9 positions x strings of 4 characters from space, newline, '#', ':', '-', 'a', quote
    fn h_c03_pos4() { let p = pick(NPOS); let b = text_in::<4>(b" \n#:-a'"); rt_pos(str_of(&b), p) }
    //@ q reach=1 audit=64 pathz3=4 | every string of 6 characters from newline, space, 'a', tab
    fn h_c03_breaks6() { let b = text_in::<6>(b"\n a\t"); rt(str_of(&b)) }
    //@ q reach=1 audit=64 pathz3=4 | number and keyword look-alikes: every string of 4 characters from "+-.0x1eEifna_"
    fn h_c03_num4() { let b = text_in::<4>(b"+-.0x1eifn_"); rt(str_of(&b)) }
    //@ q reach=1 audit=64 pathz3=8 | long number look-alikes: 9 signs and prefixes, 1 to 42 (18 lengths) times one of 8 characters, then one of 12 characters; whole document and mapping key
    fn h_c03_wide() {
        let p = one(&["", "-", "+", "0x", "-0x", "0o7", "-0b1", "1e", "-0."]);
        let d = byte_in(b"0179af._");
        let n = one(&[1usize, 2, 3, 5, 9, 16, 17, 18, 19, 20, 21, 22, 31, 32, 38, 39, 40, 42]);
        let e = byte_in(b"0189fe.+-x_ ");
        let s = joined(&[p.as_bytes(), &vec![d; n], &[e]]);
        if flag() { rt(str_of(&s)) } else { rt_pos(str_of(&s), 1) }
    }
    //@ q reach=1 audit=64 pathz3=8 | 9 positions x special characters (NEL, LS, PS, BOM, NBSP, DEL, NUL, ESC, U+FFFE, emoji) between 2 of 6 characters
    fn h_c03_special() {
        let u = one(&["\u{85}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{a0}", "\u{7f}", "\0", "\u{1b}", "\u{fffe}", "\u{1f600}", "\r", "\u{9f}"]);
        let p = pick(NPOS);
        let (a, b) = (byte_in(b" \na:'\r"), byte_in(b" \na:'\r"));
        rt_pos(str_of(&joined(&[&[a], u.as_bytes(), &[b]])), p)
    }
    //@ q reach=1 | long lines: 90 characters then every 2 of 8 characters then 5 more
    fn h_c03_long() {
        let b = text_in::<2>(b" \na#:'\"\t");
        rt(str_of(&joined(&[&[b'x'; 44], b" ", &[b'y'; 45], &b, b"zz zz"])))
    }
    //@ q reach=1 | a 2-byte character at each position, in a sequence / map / struct
    fn h_c03_posu() { let p = pick(NPOS); let b = utf8::<2>(); rt_pos(str_of(&b), p) }
    //@ q reach=1 audit=16 pathz3=4 | long strings: 15 lengths around 128, 256, 1024 and 4096, 2 of 5 characters at the start, middle or end, 2 fillers, whole document, element, key or field
    fn h_c03_big() {
        let n = one(&[125usize, 126, 127, 128, 129, 253, 254, 255, 256, 257, 1022, 1023, 1024, 1025, 4096]);
        let fill = one(&["abcdefghij", "lorem ipsum "]);
        let b = text_in::<2>(b" \na:\r");
        long(n, fill, &b, &[0, 1, 2, 4])
    }
    //@ q reach=1 audit=16 pathz3=4 | very long strings: 16383, 16384, 16385, 65535, 65536, 65537 and 70000 characters, 1 of 3 characters at the start, middle or end, whole document or key
    fn h_c03_huge() {
        let n = one(&[16383usize, 16384, 16385, 65535, 65536, 65537, 70000]);
        let b = text_in::<1>(b" \na");
        long(n, "lorem ipsum ", &b, &[0, 3])
    }
    //@ q reach=1 audit=32 pathz3=4 | float look-alikes: 3 signs, 8 mantissas, 5 exponent marks, 17 exponents around the normal, subnormal and overflow limits; whole document or mapping key
    fn h_c03_floats() {
        let sg = one(&["", "-", "+"]);
        let m = one(&["1", "0", "2.2250738585072014", "4.9", ".5", "1.", "0.000", "123456789012345678"]);
        let e = one(&["e", "E", "e-", "e+", "E-"]);
        let x = one(&["0", "1", "9", "16", "17", "22", "99", "0307", "308", "309", "310", "323", "324", "325", "400", "5000", "99999999999"]);
        let s = joined(&[sg.as_bytes(), m.as_bytes(), e.as_bytes(), x.as_bytes()]);
        if flag() { rt(str_of(&s)) } else { rt_pos(str_of(&s), 1) }
    }
    //@ q reach=1 audit=32 pathz3=4 | integer look-alikes: 3 signs, 5 radix marks, 13 digit strings at the limits of the 64- and 128-bit integers, 6 endings; whole document, element or newtype payload
    fn h_c03_limits() {
        let sg = one(&["", "-", "+"]);
        let r = one(&["", "0x", "0o", "0b", "0"]);
        let d = one(&["7fffffffffffffff", "8000000000000000", "ffffffffffffffff", "10000000000000000", "ffffffffffffffffffffffffffffffff", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455", "170141183460469231731687303715884105728", "0", "1777777777777777777777"]);
        let t = one(&["", ".0", "_", "e1", ".", "-"]);
        let s = joined(&[sg.as_bytes(), r.as_bytes(), d.as_bytes(), t.as_bytes()]);
        match pick(3) { 0 => rt(str_of(&s)), 1 => rt_pos(str_of(&s), 0), _ => rt_pos(str_of(&s), 6) }
    }
    //@ t reach=1 audit=64 pathz3=16 | very long strings: 13 lengths around 16384, 32768 and 65536 and 70000, 2 of 8 characters at the start, middle or end, whole document, element, key or field
    fn h_c03_huge2() {
        let n = one(&[4095usize, 4097, 8192, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537, 70000]);
        let b = text_in::<2>(b" \na:#'\r\t");
        long(n, one(&["abcdefghij", "lorem ipsum "]), &b, &[0, 1, 2, 3, 4])
    }
    //@ t reach=1 audit=1024 pathz3=64 | every ASCII string of 4 characters as a whole document
    fn h_c03_a4() { rt(str_of(&ascii::<4>())) }
    //@ t reach=1 audit=1024 pathz3=64 | 9 positions x every 3 ASCII characters
    fn h_c03_pos3() { let p = pick(NPOS); let b = ascii::<3>(); rt_pos(str_of(&b), p) }
    //@ t reach=1 audit=1024 pathz3=64 | 26 surroundings x every 3 ASCII characters
    fn h_c03_around3() {
        let (p, s) = one(AROUND);
        let b = ascii::<3>();
        rt(str_of(&joined(&[p.as_bytes(), &b, s.as_bytes()])))
    }
    //@ t reach=1 audit=1024 pathz3=64 | every string of 5 characters from the YAML alphabet
    fn h_c03_yaml5() { let b = text_in::<5>(YAML); rt(str_of(&b)) }
    //@ t reach=1 audit=1024 pathz3=64 | every string of 8 characters from newline, space, 'a'
    fn h_c03_breaks8() { let b = text_in::<8>(b"\n a"); rt(str_of(&b)) }
}

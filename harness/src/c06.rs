//! C06: plain scalars resolve by the documented schema. The reference `resolve` below is written from
//! the schema, independently of the implementation.
use crate::sym::*;
use crate::util::*;
use serde_yaml::Value;

#[derive(Clone, Copy, PartialEq)]
pub enum R {
    Null,
    Bool(bool),
    /// sign, magnitude (None: more than 128 bits)
    Int(bool, u128),
    Float,
    Str,
}
fn digits(s: &[u8], radix: u128) -> Option<u128> {
    if s.is_empty() {
        return None;
    }
    let mut v: u128 = 0;
    for &c in s {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        } as u128;
        if d >= radix {
            return None;
        }
        v = v.checked_mul(radix)?.checked_add(d)?;
    }
    Some(v)
}
fn all_digits(s: &[u8]) -> bool {
    s.iter().all(|c| c.is_ascii_digit())
}
/// decimal float syntax without sign: digits [. digits] [exponent] or . digits [exponent]
fn decimal_float(s: &[u8]) -> bool {
    let mut i = 0;
    let mut n = 0;
    while i < s.len() && s[i].is_ascii_digit() {
        i += 1;
        n += 1;
    }
    if i < s.len() && s[i] == b'.' {
        i += 1;
        while i < s.len() && s[i].is_ascii_digit() {
            i += 1;
            n += 1;
        }
    }
    if n == 0 {
        return false;
    }
    if i == s.len() {
        return true;
    }
    if s[i] != b'e' && s[i] != b'E' {
        return false;
    }
    i += 1;
    if i < s.len() && (s[i] == b'+' || s[i] == b'-') {
        i += 1;
    }
    i < s.len() && all_digits(&s[i..])
}
pub fn resolve(s: &[u8]) -> R {
    match s {
        b"" | b"~" | b"null" | b"Null" | b"NULL" => return R::Null,
        b"true" | b"True" | b"TRUE" => return R::Bool(true),
        b"false" | b"False" | b"FALSE" => return R::Bool(false),
        b".nan" | b".NaN" | b".NAN" => return R::Float,
        _ => {}
    }
    let (neg, rest) = match s[0] {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    match rest {
        b".inf" | b".Inf" | b".INF" => return R::Float,
        _ => {}
    }
    if rest.len() > 2 && rest[0] == b'0' {
        let radix = match rest[1] {
            b'x' => 16,
            b'o' => 8,
            b'b' => 2,
            _ => 0,
        };
        if radix != 0 {
            return match digits(&rest[2..], radix) {
                Some(v) if !neg || v <= 1 << 127 => R::Int(neg, v),
                _ => R::Str,
            };
        }
    }
    if !rest.is_empty() && all_digits(rest) {
        if rest.len() > 1 && rest[0] == b'0' {
            return R::Str;
        }
        return match digits(rest, 10) {
            Some(v) if !neg || v <= 1 << 127 => R::Int(neg, v),
            _ if str_of(rest).parse::<f64>().unwrap().is_finite() => R::Float,
            _ => R::Str,
        };
    }
    if decimal_float(rest) && str_of(rest).parse::<f64>().unwrap().is_finite() {
        return R::Float;
    }
    R::Str
}
fn float_of(s: &[u8]) -> f64 {
    let (neg, rest) = match s[0] {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let v = match rest {
        b".nan" | b".NaN" | b".NAN" => f64::NAN,
        b".inf" | b".Inf" | b".INF" => f64::INFINITY,
        _ => str_of(rest).parse::<f64>().unwrap(),
    };
    if neg { -v } else { v }
}
/// `s` sits alone as a plain scalar in flow context: [s]
fn untyped(s: &[u8]) {
    let d = [b"[", s, b"]"].concat();
    node(s, serde_yaml::from_slice::<Vec<Value>>(&d))
}
/// `s` sits somewhere else
fn untyped_at(s: &[u8], place: usize) {
    let (p, q) = [("", "\n"), ("- 1\n- ", "\n"), ("k:\n  ", " # c\n"), ("{k: ", ", l: 1}"), ("? ", "\n: 1\n"), ("", ": 1"), ("{", ": }"), ("--- ", "\n...\n"), ("- - ", "\n  - 2\n"), ("- &a ", "\n- *a\n"), ("!!map {? [", "] : 1}")][place];
    let d = joined(p.as_bytes(), s, q.as_bytes());
    let key = |v: Value| v.as_mapping().and_then(|m| m.keys().next().cloned());
    let got = serde_yaml::from_slice::<Value>(&d).map(|v| match place {
        0 | 7 => Some(v),
        1 | 9 => v.get(1).cloned(),
        2 | 3 => v.get("k").cloned(),
        8 => v.get(0).and_then(|v| v.get(0)).cloned(),
        10 => key(v).and_then(|v| v.get(0).cloned()),
        _ => key(v),
    });
    node(s, got.map(|v| v.into_iter().collect()))
}
fn node(s: &[u8], got: Result<Vec<Value>, serde_yaml::Error>) {
    let r = resolve(s);
    observe(&[got.is_ok() as u8]);
    reach(1);
    let wide = matches!(r, R::Int(neg, v) if if neg { v > 1 << 63 } else { v > u64::MAX as u128 });
    if wide {
        // Value has no integers wider than 64 bits: refused, never altered
        check(got.is_err(), 1);
        return;
    }
    let got = match got {
        Ok(v) => v,
        Err(_) => return check(false, 2),
    };
    if s.is_empty() {
        return check(got.is_empty(), 3);
    }
    check(got.len() == 1, 4);
    match (r, &got[0]) {
        (R::Null, Value::Null) => {}
        (R::Bool(b), Value::Bool(g)) => check(b == *g, 5),
        (R::Int(neg, v), Value::Number(n)) => {
            reach(2);
            if neg && v != 0 {
                check(n.as_i64() == Some((v as u64).wrapping_neg() as i64), 6)
            } else {
                check(n.as_u64() == Some(v as u64), 7)
            }
        }
        (R::Float, Value::Number(n)) => {
            let w = float_of(s);
            check(n.is_f64(), 8);
            match n.as_f64() {
                Some(g) => check(g.to_bits() == w.to_bits() || (g.is_nan() && w.is_nan()), 9),
                None => check(false, 10),
            }
        }
        (R::Str, Value::String(g)) => check(same(g.as_bytes(), s), 11),
        _ => check(false, 12),
    }
}
fn fits(neg: bool, v: u128, min: u128, max: u128) -> bool {
    if neg { v <= min } else { v <= max }
}
macro_rules! int {
    ($t:ty, $s:expr, $min:expr, $max:expr, $id:expr) => {{
        let got = serde_yaml::from_slice::<$t>($s).ok();
        observe(&[got.is_some() as u8]);
        let (min, max): (u128, u128) = ($min, $max);
        let want = match resolve($s) {
            R::Int(neg, v) if fits(neg, v, min, max) => Some(if neg { (v as $t).wrapping_neg() } else { v as $t }),
            _ => None,
        };
        match (got, want) {
            (Some(g), Some(w)) => check(g == w, $id),
            (None, None) => {}
            _ => check(false, $id + 1),
        }
        reach(1);
    }};
}
fn typed(s: &[u8], w: usize) {
    match w {
        0 => int!(u8, s, 0, u8::MAX as u128, 20),
        1 => int!(i8, s, 128, i8::MAX as u128, 22),
        2 => int!(i64, s, 1 << 63, i64::MAX as u128, 24),
        3 => int!(u64, s, 0, u64::MAX as u128, 26),
        4 => int!(i128, s, 1 << 127, i128::MAX as u128, 28),
        5 => int!(u128, s, 0, u128::MAX, 30),
        6 => int!(u16, s, 0, u16::MAX as u128, 32),
        7 => int!(i32, s, 1 << 31, i32::MAX as u128, 34),
        8 => {
            let got = serde_yaml::from_slice::<bool>(s).ok();
            observe(&[got.is_some() as u8]);
            check(got == match resolve(s) { R::Bool(b) => Some(b), _ => None }, 40);
            reach(1);
        }
        9 => {
            let got = serde_yaml::from_slice::<()>(s).is_ok();
            observe(&[got as u8]);
            check(got == (resolve(s) == R::Null), 41);
            reach(1);
        }
        10 => {
            let got = serde_yaml::from_slice::<String>(s).ok();
            observe(&[got.is_some() as u8]);
            match got {
                Some(g) => check(same(g.as_bytes(), s), 42),
                None => check(false, 43),
            }
            reach(1);
        }
        11 => {
            let got = serde_yaml::from_slice::<Option<String>>(s).ok();
            observe(&[got.is_some() as u8]);
            match (resolve(s), got) {
                (R::Null, Some(None)) => {}
                (R::Null, _) => check(false, 44),
                (_, Some(Some(g))) => check(same(g.as_bytes(), s), 45),
                _ => check(false, 46),
            }
            reach(1);
        }
        _ => {
            let got = serde_yaml::from_slice::<f64>(s).ok();
            observe(&[got.is_some() as u8]);
            match (resolve(s), got) {
                (R::Float, Some(g)) => {
                    let w = float_of(s);
                    check(g.to_bits() == w.to_bits() || (g.is_nan() && w.is_nan()), 47);
                }
                (R::Float, None) => check(false, 48),
                (R::Int(..), Some(g)) => check(g == float_of(s), 49),
                (R::Null | R::Bool(_), Some(_)) => check(false, 50),
                // digits with leading zeros are accepted where a float is asked for
                (R::Str, Some(_)) => check(all_digits(&s[1..]), 51),
                _ => {}
            }
            reach(1);
        }
    }
}
/// characters that can stand anywhere in a plain scalar in any context
fn plain<const N: usize>() -> [u8; N] {
    let b = bytes::<N>();
    for c in b {
        assume(c > 0x20 && c < 0x7f && !b",[]{}#&*!|>'\"%@`:?".contains(&c));
    }
    b
}
fn joined(p: &[u8], b: &[u8], s: &[u8]) -> Vec<u8> {
    [p, b, s].concat()
}
/// as a whole document, so not a marker or a lone dash
fn bare(s: &[u8]) -> bool {
    !(s == b"-" || s.starts_with(b"---") || s.starts_with(b"..."))
}
const WORDS: &[Tpl] = &[
    ("", ""), ("0x", ""), ("0o", ""), ("0b", ""), ("-0x", ""), ("+0b", ""), ("-0o", ""), ("1", ""), ("-", "0"), ("1.", ""), ("1e", ""), ("1.5e", ""), (".", "f"), (".", "N"), ("-.", "f"), ("+.", "F"), ("n", "l"), ("t", "e"), ("fa", "e"),
    ("F", "LSE"), ("0", ""), ("+", ""), ("-0", ""), ("00", ""), ("1e30", ""), ("_", "1"), ("1_", ""), ("i", "f"),
];
const EDGES: &[Tpl] = &[
    ("184467440737095516", ""), ("-92233720368547758", ""), ("92233720368547758", ""), ("3402823669209384634633746074317682114", ""), ("-1701411834604692317316873037158841057", ""), ("1701411834604692317316873037158841057", ""),
    ("0xffffffffffffff", ""), ("-0x80000000000000", ""), ("0x7fffffffffffffffffffffffffffff", ""), ("0xffffffffffffffffffffffffffffff", ""), ("0o17777777777777777777", ""), ("42949672", ""), ("-21474836", ""), ("2", ""), ("-1", ""), ("655", ""),
];

const SIGNS: &[&str] = &["", "+", "-", "++", "+-", "-+"];
const BODIES: &[&str] = &[
    "null", "Null", "NULL", "~", "true", "True", "TRUE", "false", "False", "FALSE", ".inf", ".Inf", ".INF", ".nan", ".NaN", ".NAN", "0x1f", "0o17", "0b11", "0X1F", "0O17", "0B11", "1.5", "1e5",
    "12", "0", "00", "0.0", ".5", "5.", "1_0", "inf", "nan", "infinity", "NaN", "Inf", "1e400", "1e-400", "yes", "on",
];
fn signed_word() -> Vec<u8> {
    let mut s = joined(one(SIGNS).as_bytes(), one(BODIES).as_bytes(), b"");
    if flag() {
        let i = choice(s.len() as u8) as usize;
        s[i] = plain::<1>()[0];
    }
    s
}

harnesses! {
    //@ q reach=1,2 audit=64 pathz3=8 | untyped: every plain scalar of 1 character
    fn h_c06_p1() { untyped(&plain::<1>()) }
    //@ q reach=1,2 audit=64 pathz3=8 | untyped: every plain scalar of 2 characters
    fn h_c06_p2() { untyped(&plain::<2>()) }
    //@ q reach=1,2 audit=64 pathz3=8 | untyped: every plain scalar of 3 characters
    fn h_c06_p3() { untyped(&plain::<3>()) }
    //@ q reach=1,2 audit=64 pathz3=8 | untyped: 28 number and keyword stems x every 2 plain characters
    fn h_c06_words() { let (p, s) = one(WORDS); untyped(&joined(p.as_bytes(), &plain::<2>(), s.as_bytes())) }
    //@ q reach=1,2 audit=64 pathz3=8 | untyped: integers around the limits of 8 to 128 bits, 2 free digits
    fn h_c06_edges() { let (p, s) = one(EDGES); untyped(&joined(p.as_bytes(), &text_in::<2>(b"0123456789"), s.as_bytes())) }
    //@ q reach=1 audit=64 pathz3=8 | typed (8 integer types, bool, (), String, Option, f64): every plain scalar of 2 characters
    fn h_c06_t2() { let w = pick(13); let b = plain::<2>(); assume(bare(&b)); typed(&b, w) }
    //@ q reach=1 audit=64 pathz3=8 | typed: 28 stems x every 1 plain character
    fn h_c06_twords() { let w = pick(13); let (p, s) = one(WORDS); let b = joined(p.as_bytes(), &plain::<1>(), s.as_bytes()); assume(bare(&b)); typed(&b, w) }
    //@ q reach=1 audit=64 pathz3=8 | typed: integers around the limits of 8 to 128 bits, 2 free digits
    fn h_c06_tedges() { let w = pick(13); let (p, s) = one(EDGES); typed(&joined(p.as_bytes(), &text_in::<2>(b"0123456789"), s.as_bytes()), w) }
    //@ q reach=1,2 audit=64 pathz3=8 | untyped: 6 signs x 40 keywords and numbers (every spelling of null, bool, infinity, NaN, radix prefixes, floats), one character at any position replaced by every plain character, or none
    fn h_c06_signed() { untyped(&signed_word()) }
    //@ q reach=1 audit=64 pathz3=8 | typed (i64, u64, u128, bool, (), String, Option, f64): 6 signs x 40 keywords and numbers followed by nothing or one of 5 characters
    fn h_c06_tsigned() {
        let w = one(&[2usize, 3, 5, 8, 9, 10, 11, 12]);
        let s = joined(one(SIGNS).as_bytes(), one(BODIES).as_bytes(), one(&["", "0", ".", "_", "e", "F"]).as_bytes());
        assume(bare(&s));
        typed(&s, w)
    }
    //@ q reach=1,2 audit=64 pathz3=8 | untyped in 11 places (document, block and flow element and value, key, explicit key, after an anchor and read through its alias, inside a collection key): 28 stems x every plain character; and 6 signs x 40 keywords and numbers
    fn h_c06_places() {
        let w = pick(11);
        let b = if flag() {
            joined(one(SIGNS).as_bytes(), one(BODIES).as_bytes(), b"")
        } else {
            let (p, s) = one(WORDS);
            joined(p.as_bytes(), &plain::<1>(), s.as_bytes())
        };
        assume(bare(&b));
        untyped_at(&b, w)
    }
    //@ q reach=1 audit=16 pathz3=4 | plain numbers of 20 to 400 digits: 10 shapes (integer, leading zeros, fraction, exponent, radix), 3 signs, 7 lengths around the limits of f64, 1 of 4 first digits
    fn h_c06_long() {
        let n = one(&[20usize, 38, 39, 64, 307, 308, 309, 400]);
        let (p, q) = one(&[("", ""), ("0", ""), ("", ".5"), ("0.", ""), ("", "e5"), ("0x", ""), ("0b", ""), (".", ""), ("", "."), ("1e", ""), ("", "e-300")]);
        let mut s = one(&["", "-", "+"]).as_bytes().to_vec();
        s.extend_from_slice(p.as_bytes());
        s.push(byte_in(b"0159"));
        let f = one(&[b'0', b'9']);
        s.resize(s.len() + n - 1, f);
        s.extend_from_slice(q.as_bytes());
        untyped(&s)
    }
    //@ t reach=1,2 audit=1024 pathz3=64 | untyped: every plain scalar of 4 characters
    fn h_c06_p4() { untyped(&plain::<4>()) }
    //@ t reach=1,2 audit=1024 pathz3=64 | untyped: 28 number and keyword stems x every 3 plain characters
    fn h_c06_words3() { let (p, s) = one(WORDS); untyped(&joined(p.as_bytes(), &plain::<3>(), s.as_bytes())) }
    //@ t reach=1 audit=1024 pathz3=64 | typed: every plain scalar of 3 characters
    fn h_c06_t3() { let w = pick(13); let b = plain::<3>(); assume(bare(&b)); typed(&b, w) }
    //@ t reach=1 audit=1024 pathz3=64 | typed: 28 stems x every 2 plain characters
    fn h_c06_twords2() { let w = pick(13); let (p, s) = one(WORDS); let b = joined(p.as_bytes(), &plain::<2>(), s.as_bytes()); assume(bare(&b)); typed(&b, w) }
}

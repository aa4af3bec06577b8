//! C14: numbers keep their exact value through every view, conversion and text form.
use crate::sym::*;
use crate::util::*;
use serde::Deserialize;
use serde_yaml::{Number, Value};

fn u() -> u64 {
    u64::from_le_bytes(bytes::<8>())
}
/// one symbolic byte at one of the `n` lowest places over one of several backgrounds
fn pat(n: usize) -> u64 {
    let bg = one(&[0u64, !0, 0x0123456789abcdef, 0x7fff_ffff_7fff_7f80]);
    let sh = 8 * pick(n) as u32;
    (bg & !(0xff << sh)) | (byte() as u64) << sh
}
fn f() -> f64 {
    f64::from_bits(u())
}
/// the views of a number that stands for the integer `v`
fn int(n: &Number, v: i128) {
    check(n.is_i64() == (v <= i64::MAX as i128), 1);
    check(n.is_u64() == (v >= 0), 2);
    check(!n.is_f64(), 3);
    check(n.as_i64() == if v <= i64::MAX as i128 { Some(v as i64) } else { None }, 4);
    check(n.as_u64() == if v >= 0 { Some(v as u64) } else { None }, 5);
    check(!n.is_nan() && !n.is_infinite() && n.is_finite(), 6);
    let x = Value::Number(n.clone());
    check(x.is_number() && x.is_i64() == n.is_i64() && x.is_u64() == n.is_u64() && !x.is_f64(), 7);
    check(x.as_i64() == n.as_i64() && x.as_u64() == n.as_u64(), 8);
    check(!x.is_null() && !x.is_bool() && !x.is_string() && !x.is_sequence() && !x.is_mapping(), 9);
}
fn float(n: &Number, v: f64) {
    check(!n.is_i64() && !n.is_u64() && n.is_f64(), 11);
    check(n.as_i64().is_none() && n.as_u64().is_none(), 12);
    match n.as_f64() {
        Some(w) => check(if v != v { w != w } else { w.to_bits() == v.to_bits() }, 13),
        None => check(false, 14),
    }
    let e = v.to_bits() >> 52 & 0x7ff;
    let frac = v.to_bits() & 0xfffffffffffff;
    check(n.is_nan() == (e == 0x7ff && frac != 0), 15);
    check(n.is_infinite() == (e == 0x7ff && frac == 0), 16);
    check(n.is_finite() == (e != 0x7ff), 17);
    let x = Value::Number(n.clone());
    check(x.is_f64() && x.is_number() && !x.is_i64() && !x.is_u64() && x.as_i64().is_none() && x.as_u64().is_none(), 18);
}
/// text forms of a number
fn texts(n: &Number) {
    let d = n.to_string();
    observe(d.as_bytes());
    match d.parse::<Number>() {
        Ok(m) => check(m == *n && m.is_f64() == n.is_f64(), 30),
        Err(_) => check(false, 31),
    }
    match val(&d) {
        Ok(Value::Number(m)) => check(m == *n && m.is_f64() == n.is_f64() && m.is_u64() == n.is_u64(), 32),
        _ => check(false, 33),
    }
    match serde_yaml::from_str::<Number>(&d) {
        Ok(m) => check(m == *n, 34),
        Err(_) => check(false, 35),
    }
    let y = serde_yaml::to_string(n).unwrap();
    check(same(y.as_bytes(), [d.as_bytes(), b"\n"].concat().as_slice()), 36);
    match serde_yaml::to_value(n) {
        Ok(Value::Number(m)) => check(m == *n, 37),
        _ => check(false, 38),
    }
}
/// FromStr and the untyped reading of a plain scalar agree
fn from_str(t: &[u8]) {
    let t = str_of(t);
    let n = t.parse::<Number>();
    observe(&[n.is_ok() as u8]);
    // the same text as a sequence element, so that it is a plain scalar on its own
    let d = [b"- " as &[u8], t.as_bytes(), b"\n"].concat();
    match (n, serde_yaml::from_slice::<Value>(&d)) {
        (Ok(n), Ok(Value::Sequence(q))) => {
            check(q.len() == 1 && matches!(&q[0], Value::Number(m) if *m == n && m.is_f64() == n.is_f64()), 40);
            reach(1);
        }
        (Err(e), Ok(Value::Sequence(q))) => {
            check(q.len() == 1 && !matches!(q[0], Value::Number(_)), 41);
            let m = e.to_string();
            check(m == "failed to parse YAML number", 42);
            reach(2);
        }
        (Ok(_), _) => check(false, 43),
        _ => reach(2),
    }
}
fn de<'a, T: Deserialize<'a>>(n: Number) -> Option<T> {
    T::deserialize(n).ok()
}
/// what an integer gives when read as each Rust type
fn as_types(n: &Number, v: i128) {
    macro_rules! t {
        ($($t:ident)*) => { $(
            let fits = v >= $t::MIN as i128 && v <= $t::MAX as i128;
            check(de::<$t>(n.clone()) == if fits { Some(v as $t) } else { None }, 50);
            check($t::deserialize(n).ok() == if fits { Some(v as $t) } else { None }, 51);
            check(serde_yaml::from_value::<$t>(Value::Number(n.clone())).ok() == if fits { Some(v as $t) } else { None }, 52);
        )* };
    }
    t!(u8 i8 u16 i16 u32 i32 u64 i64 i128);
    check(de::<u128>(n.clone()) == if v >= 0 { Some(v as u128) } else { None }, 53);
    check(de::<bool>(n.clone()).is_none() && de::<String>(n.clone()).is_none() && de::<()>(n.clone()).is_none(), 54);
}

harnesses! {
    //@ q reach=1 audit=64 pathz3=8 | From<u64>, usize: accessors for every 64-bit value
    fn h_c14_u64() { let x = u(); int(&Number::from(x), x as i128); int(&Number::from(x as usize), x as i128); reach(1) }
    //@ q reach=1 audit=64 pathz3=8 | From<i64>, isize: accessors for every 64-bit value
    fn h_c14_i64() { let x = u() as i64; int(&Number::from(x), x as i128); int(&Number::from(x as isize), x as i128); reach(1) }
    //@ q reach=1 audit=64 pathz3=8 | From every narrower integer type: accessors, one symbolic byte at each of 4 places over 3 backgrounds
    fn h_c14_small() {
        let x = pat(4);
        int(&Number::from(x as u8), (x as u8) as i128);
        int(&Number::from(x as i8), (x as i8) as i128);
        int(&Number::from(x as u16), (x as u16) as i128);
        int(&Number::from(x as i16), (x as i16) as i128);
        int(&Number::from(x as u32), (x as u32) as i128);
        int(&Number::from(x as i32), (x as i32) as i128);
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=8 | From<f64>: accessors for every bit pattern
    fn h_c14_f64() { let x = f(); float(&Number::from(x), x); reach(1) }
    //@ q reach=1 audit=64 pathz3=8 | From<f32>: accessors, 4096 patterns (sign, exponent and 3 mantissas)
    fn h_c14_f32() {
        let x = f32::from_bits((flag() as u32) << 31 | (byte() as u32) << 23 | one(&[0u32, 1, 0x7fffff, 0x333333]));
        float(&Number::from(x), x as f64);
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=8 | as_f64 of integers: boundaries 0, 2^53, 2^63, 2^64 and every 8-bit offset
    fn h_c14_as_f64() {
        let d = byte() as i8 as i64;
        if flag() {
            let x = one(&[0i64, 1 << 53, -(1 << 53), i64::MAX, i64::MIN]).wrapping_add(d);
            check(Number::from(x).as_f64() == Some(x as f64), 60);
            check(Value::from(x).as_f64() == Some(x as f64), 61);
            check(de::<f64>(Number::from(x)) == Some(x as f64), 62);
        } else {
            let x = one(&[1u64 << 53, 1 << 63, u64::MAX]).wrapping_add(d as u64);
            check(Number::from(x).as_f64() == Some(x as f64), 63);
            check(Value::from(x).as_f64() == Some(x as f64), 64);
            check(de::<f64>(Number::from(x)) == Some(x as f64), 65);
        }
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=8 | deserializing a Number or number Value as every integer type: u64, one symbolic byte at each of 8 places over 4 backgrounds
    fn h_c14_types_u() { let x = pat(8); as_types(&Number::from(x), x as i128); reach(1) }
    //@ q reach=1 audit=64 pathz3=8 | deserializing a Number or number Value as every integer type: i64, one symbolic byte at each of 8 places over 4 backgrounds
    fn h_c14_types_i() { let x = pat(8) as i64; as_types(&Number::from(x), x as i128); reach(1) }
    //@ q reach=1 audit=64 pathz3=8 | serializing and reading back through Value: every u64, i64 and f64
    fn h_c14_value() {
        let x = u();
        match pick(3) {
            0 => check(matches!(serde_yaml::to_value(x), Ok(Value::Number(n)) if n == Number::from(x)), 70),
            1 => check(matches!(serde_yaml::to_value(x as i64), Ok(Value::Number(n)) if n == Number::from(x as i64)), 71),
            _ => {
                let f = f64::from_bits(x);
                check(matches!(serde_yaml::to_value(f), Ok(Value::Number(n)) if n == Number::from(f) && n.is_f64()), 72);
                let g = serde_yaml::from_value::<f64>(Value::from(f)).unwrap();
                check(g.to_bits() == f.to_bits() || (f != f && g != g), 73);
            }
        }
        reach(1)
    }
    //@ q reach=1 audit=256 pathz3=8 | Display, FromStr, serialization, parsing: integers at boundaries with every 8-bit offset
    fn h_c14_text() {
        let d = byte() as i8 as i64;
        let n = if flag() { Number::from(one(&[0i64, 1000, -1000, i64::MAX, i64::MIN]).wrapping_add(d)) } else { Number::from(one(&[1u64 << 63, u64::MAX]).wrapping_add(d as u64)) };
        texts(&n);
        reach(1)
    }
    //@ q reach=1 | Display, FromStr, serialization, parsing of floats: both signs x 72 exponents x 6 mantissas
    fn h_c14_textf() {
        let e = match pick(3) { 0 => 32 * choice(64) as u64, 1 => 1019 + choice(9) as u64, _ => one(&[0u64, 1, 2046, 2047]) };
        let m = one(&[0u64, 1, 0x8000000000000, 0xfffffffffffff, 0x5555555555555, 0x999999999999a]);
        let x = f64::from_bits((flag() as u64) << 63 | e << 52 | m);
        let n = Number::from(x);
        texts(&n);
        check(de::<i64>(n.clone()).is_none() && de::<u64>(n.clone()).is_none() && de::<i128>(n.clone()).is_none() && de::<bool>(n.clone()).is_none(), 80);
        check(matches!(de::<f64>(n.clone()), Some(y) if y.to_bits() == x.to_bits() || x != x && y != y), 81);
        check(matches!(de::<f32>(n), Some(y) if y.to_bits() == (x as f32).to_bits() || x != x && y != y), 82);
        reach(1)
    }
    //@ q reach=1,2 audit=256 pathz3=64 | FromStr agrees with the untyped reading: every 4 characters of digits, sign, point, exponent and radix letters
    fn h_c14_fromstr() { from_str(&text_in::<4>(b"0179+-.exobinfa")) }
    //@ q reach=1,2 | FromStr on words and overlong numbers
    fn h_c14_fromwords() { from_str(one(&[b".inf" as &[u8], b"+.inf", b"-.INF", b".NaN", b"-.nan", b"18446744073709551615", b"18446744073709551616", b"-9223372036854775808", b"-9223372036854775809", b"9223372036854775808", b"0xffffffffffffffff", b"0x10000000000000000", b"-0x8000000000000000", b"0b1", b"-0o17", b"1e400", b"-1e-400", b"+7", b"0x-1", b"++1", b"1_000", b"0x", b"~", b"01", b"00.5"])) }
    //@ q reach=1 audit=64 pathz3=8 | as_f64 of an integer is the nearest float: u64 and i64, one symbolic byte at each of 8 places over 4 backgrounds x 16 patterns of the lowest 12 bits
    fn h_c14_as_f64_pat() {
        let x = pat(8) ^ one(&[0u64, 1, 2, 3, 5, 7, 0x1ff, 0x200, 0x201, 0x3ff, 0x400, 0x401, 0x403, 0x7ff, 0x800, 0x801]);
        let bits = |o: Option<f64>| o.map(f64::to_bits);
        if flag() {
            check(bits(Number::from(x).as_f64()) == Some((x as f64).to_bits()), 66);
            check(bits(de::<f64>(Number::from(x))) == Some((x as f64).to_bits()), 67)
        } else {
            let x = x as i64;
            check(bits(Number::from(x).as_f64()) == Some((x as f64).to_bits()), 68);
            check(bits(de::<f64>(Number::from(x))) == Some((x as f64).to_bits()), 69)
        }
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | the radix spellings of every byte and 5 larger integers: 0x (both cases), 0o, 0b, sign, up to 3 leading zeros, read as that integer by FromStr, Value, Number and integer types
    fn h_c14_radix() {
        let n = match pick(6) { 0 => byte() as u64, 1 => 0, 2 => i64::MAX as u64, 3 => 1 << 63, 4 => u64::MAX, _ => 0x0123_4567_89ab_cdef };
        let neg = pick(3);
        if neg == 2 { assume(n <= 1 << 63 && n > 0) }
        let z = ["", "0", "000"][pick(3)];
        let body = match pick(5) { 0 => format!("0x{z}{n:x}"), 1 => format!("0x{z}{n:X}"), 2 => format!("0o{z}{n:o}"), 3 => format!("0b{z}{n:b}"), _ => n.to_string() };
        let t = [["", "+", "-"][neg], &body].concat();
        let w = if neg == 2 { -(n as i128) } else { n as i128 };
        observe(t.as_bytes());
        match t.parse::<Number>() { Ok(m) => int(&m, w), Err(_) => check(false, 90) }
        match val(&t) { Ok(Value::Number(m)) => int(&m, w), _ => check(false, 91) }
        match serde_yaml::from_str::<Number>(&t) { Ok(m) => int(&m, w), Err(_) => check(false, 92) }
        check(serde_yaml::from_str::<i128>(&t).ok() == Some(w), 93);
        check(serde_yaml::from_str::<i64>(&t).ok() == i64::try_from(w).ok() && serde_yaml::from_str::<u64>(&t).ok() == u64::try_from(w).ok(), 94);
        check(serde_yaml::from_str::<u8>(&t).ok() == u8::try_from(w).ok() && serde_yaml::from_str::<i16>(&t).ok() == i16::try_from(w).ok(), 95);
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | FromStr of 9 numbers with any character of 0 to 127 or one of 5 wide ones (blanks, BOM) before, inside or after: never a number unless the character belongs to numbers
    fn h_c14_fromodd() {
        let w = one(&["1", "-1", "0x1f", "1.5", ".inf", "-.inf", ".nan", "1e3", "18446744073709551615"]);
        let at = match pick(3) { 0 => 0, 1 => 1, _ => w.len() };
        let mut t = w[..at].to_owned();
        if flag() {
            let b = byte();
            assume(b < 128 && !b.is_ascii_alphanumeric() && !matches!(b, b'+' | b'-' | b'.'));
            t.push(b as char);
        } else {
            t.push_str(one(&["\u{a0}", "\u{85}", "\u{2028}", "\u{feff}", "\u{661}"]));
        }
        t.push_str(&w[at..]);
        check(t.parse::<Number>().is_err(), 46);
        // without it, a number
        check(w.parse::<Number>().is_ok(), 47);
        reach(1)
    }
    //@ q reach=1 audit=16 pathz3=4 | text forms of floats: every power of ten from 1e-30 to 1e45 and every power of two from 2^-80 to 2^130, times 4 factors, both signs
    fn h_c14_textpow() {
        let mut x = 1f64;
        let (b, n, neg) = if flag() { (10f64, 0, pick(76) as i32 - 30) } else { (2f64, 1, pick(211) as i32 - 80) };
        for _ in 0..neg.abs() { if neg < 0 { x /= b } else { x *= b } }
        x *= one(&[1f64, 1.5, 9.0, 0.9999999999999999]);
        observe(&[n]);
        texts(&Number::from(if flag() { -x } else { x }));
        reach(1)
    }
    //@ t reach=1,2 audit=4096 pathz3=512 | FromStr agrees with the untyped reading: every 6 characters of digits, sign, point, exponent and radix letters
    fn h_c14_fromstr6() { from_str(&text_in::<6>(b"0179+-.exobinfa")) }
    //@ t reach=1 audit=512 pathz3=64 | Display and parsing: one symbolic byte at each of 8 places over 5 backgrounds, as u64 and i64
    fn h_c14_text64() {
        let bg = one(&[0u64, !0, 0x0123456789abcdef, 9999999999999999999, 0x8000_0000_0000_0000]);
        let sh = 8 * pick(8) as u32;
        let x = (bg & !(0xff << sh)) | (byte() as u64) << sh;
        texts(&if flag() { Number::from(x) } else { Number::from(x as i64) });
        reach(1)
    }
}

//! C04: scalars of every Rust type survive a round trip.
use crate::sym::*;
use crate::util::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_yaml::Value;

fn rt<T: Serialize + DeserializeOwned + PartialEq>(x: T) {
    let y = serde_yaml::to_string(&x).unwrap();
    observe(y.as_bytes());
    match serde_yaml::from_str::<T>(&y) {
        Ok(z) => check(z == x, 1),
        Err(_) => check(false, 2),
    }
    // and as Option, in a sequence, as a map value
    let y = serde_yaml::to_string(&(Some(&x), [&x])).unwrap();
    match serde_yaml::from_str::<(Option<T>, [T; 1])>(&y) {
        Ok((Some(a), [b])) => check(a == x && b == x, 3),
        _ => check(false, 4),
    }
    reach(1);
}
fn u16s() -> u16 {
    // the high byte case by case, the low byte symbolic
    u16::from_le_bytes([byte(), (pick(16) * 16 + pick(16)) as u8])
}
/// a 128-bit pattern: one symbolic byte at one of 16 places over one of several backgrounds
fn pattern() -> u128 {
    let bg = one(&[0u128, !0, 0x0123456789abcdef_0f1e2d3c4b5a6978, 9999999999999999999, 0x8000_0000_0000_0000]);
    let sh = 8 * pick(16) as u32;
    (bg & !(0xff << sh)) | (byte() as u128) << sh
}
fn float(x: f64) {
    let y = serde_yaml::to_string(&x).unwrap();
    observe(y.as_bytes());
    match serde_yaml::from_str::<f64>(&y) {
        Ok(z) => check(z.to_bits() == x.to_bits() || (z.is_nan() && x.is_nan()), 10),
        Err(_) => check(false, 11),
    }
    match serde_yaml::from_str::<Value>(&y) {
        Ok(Value::Number(n)) => check(n.is_f64() && (n.as_f64() == Some(x) || (n.is_nan() && x.is_nan())), 12),
        _ => check(false, 13),
    }
    reach(1);
}
fn float32(x: f32) {
    let y = serde_yaml::to_string(&x).unwrap();
    observe(y.as_bytes());
    match serde_yaml::from_str::<f32>(&y) {
        Ok(z) => check(z.to_bits() == x.to_bits() || (z.is_nan() && x.is_nan()), 14),
        Err(_) => check(false, 15),
    }
    reach(1);
}
fn chr(b: &[u8]) {
    let c = str_of(b).chars().next().unwrap();
    assume(c.len_utf8() == b.len());
    rt(c);
}

harnesses! {
    //@ q reach=1 audit=64 pathz3=8 | bool, every u8 and i8
    fn h_c04_8() { match pick(3) { 0 => rt(byte() & 1 == 1), 1 => rt(byte()), _ => rt(byte() as i8) } }
    //@ q reach=1 audit=512 pathz3=32 | every u16 and i16
    fn h_c04_16() { if flag() { rt(u16s()) } else { rt(u16s() as i16) } }
    //@ q reach=1 audit=64 pathz3=8 | u32, i32, u64, i64: boundary (0, +-2^31, 2^32, +-2^63, 2^64) plus every 8-bit offset
    fn h_c04_edges() {
        let d = byte() as i8 as i64;
        match pick(4) {
            0 => rt(one(&[0u32, 1 << 31, u32::MAX, 1_000_000_000]).wrapping_add(d as u32)),
            1 => rt(one(&[0i32, i32::MIN, i32::MAX, -1_000_000_000]).wrapping_add(d as i32)),
            2 => rt(one(&[0u64, 1 << 32, 1 << 63, u64::MAX, 10_000_000_000_000_000_000]).wrapping_add(d as u64)),
            _ => rt(one(&[0i64, i64::MIN, i64::MAX, -(1 << 32), -1_000_000_000_000_000_000]).wrapping_add(d)),
        }
    }
    //@ q reach=1 audit=64 pathz3=8 | u128, i128: boundaries (2^64, 2^127, 2^128, powers of ten) plus every 8-bit offset
    fn h_c04_edges128() {
        let d = byte() as i8 as i128;
        if flag() {
            rt(one(&[0u128, 1 << 64, 1 << 127, u128::MAX, 10_000_000_000_000_000_000, 100_000_000_000_000_000_000_000_000_000_000_000_000]).wrapping_add(d as u128))
        } else {
            rt(one(&[0i128, 1 << 63, -(1 << 63), 1 << 64, i128::MIN, i128::MAX, -10_000_000_000_000_000_000_000_000_000_000_000]).wrapping_add(d))
        }
    }
    //@ q reach=1 audit=64 pathz3=8 | u64 and i64: one symbolic byte at each of 8 places over 5 backgrounds
    fn h_c04_pattern64() { let p = pattern(); assume(p >> 64 == 0); if flag() { rt(p as u64) } else { rt(p as i64) } }
    //@ q reach=1 | f64: all signs x every 32nd exponent and all boundary exponents x 6 mantissas (incl. infinities, NaN, subnormals, -0)
    fn h_c04_f64() {
        let e = match pick(3) { 0 => 32 * choice(64) as u64, 1 => 1019 + choice(9) as u64, _ => one(&[0u64, 1, 2046, 2047]) };
        let m = one(&[0u64, 1, 0x8000000000000, 0xfffffffffffff, 0x5555555555555, 0x999999999999a]);
        float(f64::from_bits((flag() as u64) << 63 | e << 52 | m))
    }
    //@ q reach=1 | f64: small decimals k/8 and k/10 for every 8-bit k, both signs
    fn h_c04_f64s() { let k = byte() as f64; let x = if flag() { k / 8.0 } else { k / 10.0 }; float(if flag() { -x } else { x }) }
    //@ q reach=1 | f32: both signs x every exponent x 4 mantissas
    fn h_c04_f32() {
        let m = one(&[0u32, 1, 0x7fffff, 0x333333]);
        float32(f32::from_bits((flag() as u32) << 31 | (byte() as u32) << 23 | m))
    }
    //@ q reach=1 audit=64 pathz3=8 | char: every ASCII and every 2-byte character
    fn h_c04_char12() { if flag() { chr(&ascii::<1>()) } else { let b = bytes::<2>(); chr(&b) } }
    //@ q reach=1 audit=64 pathz3=8 | char: every 3-byte character
    fn h_c04_char3() { let b = bytes::<3>(); assume(b[0] >= 0xe0); chr(&b) }
    //@ q reach=1 audit=64 pathz3=8 | char: every 4-byte character
    fn h_c04_char4() { let b = bytes::<4>(); assume(b[0] >= 0xf0); chr(&b) }
    //@ q reach=1 | (), unit struct, None, Option of string of every 2 ASCII characters, Option<bool>, Option<i8>
    fn h_c04_opt() {
        match pick(5) {
            0 => rt_opt(Some(byte())),
            1 => rt_opt(Some(flag())),
            2 => { let b = ascii::<2>(); rt_opt(Some(str_of(&b).to_owned())) }
            3 => rt_opt(None::<String>),
            _ => {
                let y = serde_yaml::to_string(&((), Unit, 7u8)).unwrap();
                observe(y.as_bytes());
                check(matches!(serde_yaml::from_str::<((), Unit, u8)>(&y), Ok(((), Unit, 7))), 20);
                check(serde_yaml::from_str::<()>(&serde_yaml::to_string(&()).unwrap()).is_ok(), 21);
                reach(1);
            }
        }
    }
    //@ t reach=1 audit=256 pathz3=64 | u128 and i128: one symbolic byte at each of 16 places over 5 backgrounds
    fn h_c04_pattern128() { let p = pattern(); if flag() { rt(p) } else { rt(p as i128) } }
    //@ t reach=1 | f64: both signs x every 8th exponent x 16 mantissas
    fn h_c04_f64t() {
        let m = (choice(16) as u64).wrapping_mul(0x1234567890abcdf) & 0xfffffffffffff;
        float(f64::from_bits((flag() as u64) << 63 | (byte() as u64) << 55 | m))
    }
    //@ t reach=1 | f32: every exponent x 64 mantissas
    fn h_c04_f32t() { float32(f32::from_bits((byte() as u32) << 23 | (choice(64) as u32).wrapping_mul(0x20481))) }
    //@ t reach=1 audit=256 pathz3=64 | u32 and i32: every value below 2^24 above each of 3 bases
    fn h_c04_24() { let b = bytes::<3>(); let v = u32::from_le_bytes([b[0], b[1], b[2], 0]); let s = one(&[0u32, 0x7f80_0000, 0xff00_0000]).wrapping_add(v); if flag() { rt(s) } else { rt(s as i32) } }
}
fn rt_opt<T: Serialize + DeserializeOwned + PartialEq>(x: Option<T>) {
    let y = serde_yaml::to_string(&x).unwrap();
    observe(y.as_bytes());
    check(serde_yaml::from_str::<Option<T>>(&y).ok() == Some(x), 22);
    reach(1);
}

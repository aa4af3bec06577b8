//! C01: deserializing any bytes gives Ok or Err; no panic, overflow or bad memory access.
use crate::sym::*;
use crate::util::*;
use serde::de::{DeserializeOwned, IgnoredAny};
use serde::Deserialize;
use serde_yaml::{Deserializer, Mapping, Number, Value};
use std::collections::BTreeMap;

fn go<T: DeserializeOwned>(b: &[u8]) {
    match serde_yaml::from_slice::<T>(b) {
        Ok(_) => observe(&[1]),
        Err(e) => {
            observe(&[0]);
            let _ = e.location();
        }
    }
}
/// every typed route on one document
fn typed(b: &[u8], which: usize) {
    match which {
        0 => go::<String>(b),
        1 => go::<i64>(b),
        2 => go::<u8>(b),
        3 => go::<f64>(b),
        4 => go::<bool>(b),
        5 => go::<char>(b),
        6 => go::<()>(b),
        7 => go::<Option<i64>>(b),
        8 => go::<Vec<i64>>(b),
        9 => go::<BTreeMap<String, i64>>(b),
        10 => go::<Point>(b),
        11 => go::<E>(b),
        12 => go::<IgnoredAny>(b),
        13 => go::<i128>(b),
        14 => go::<(i64, String)>(b),
        15 => go::<Mapping>(b),
        16 => go::<Number>(b),
        17 => go::<Unit>(b),
        18 => go::<New>(b),
        19 => go::<Vec<E>>(b),
        20 => go::<Option<Option<String>>>(b),
        _ => {
            if let Err(e) = serde_yaml::from_slice::<&str>(b) {
                let _ = e.location();
            }
        }
    }
}
const NT: usize = 22;
fn value(b: &[u8]) {
    match serde_yaml::from_slice::<Value>(b) {
        Ok(_) => observe(&[1]),
        Err(e) => {
            let s = e.to_string();
            observe(s.as_bytes());
        }
    }
    reach(1);
}
fn stream(b: &[u8]) {
    let mut n = 0u8;
    for d in Deserializer::from_slice(b).take(5) {
        n += 1;
        match Value::deserialize(d) {
            Ok(_) => {}
            Err(_) => {
                n += 100;
                break;
            }
        }
    }
    observe(&[n]);
    reach(1);
}

harnesses! {
    //@ q reach=1 | from_slice::<Value> and the error message, every input of 1 arbitrary byte
    fn h_c01_value1() { value(&bytes::<1>()) }
    //@ q reach=1 | from_slice::<Value> and the error message, every input of 2 arbitrary bytes
    fn h_c01_value2() { value(&bytes::<2>()) }
    //@ q reach=1 audit=64 pathz3=4 | from_slice::<Value> and the error message, every input of 3 arbitrary bytes
    fn h_c01_value3() { value(&bytes::<3>()) }
    //@ q reach=1 audit=64 pathz3=4 | 26 document contexts x every 2 arbitrary bytes in the gap, target Value
    fn h_c01_tpl2() { value(&tdoc::<2>(TPL)) }
    //@ q reach=1 audit=256 pathz3=32 | 26 document contexts x every 3 arbitrary bytes in the gap, target Value
    fn h_c01_tpl3() { value(&tdoc::<3>(TPL)) }
    //@ q reach=1 audit=64 pathz3=4 | 22 target types x every input of 2 arbitrary bytes
    fn h_c01_typed2() { let w = pick(NT); typed(&bytes::<2>(), w); reach(1); }
    //@ q reach=1 audit=64 pathz3=4 | multi-document iteration, every input of 3 arbitrary bytes
    fn h_c01_stream3() { stream(&bytes::<3>()) }
    //@ q reach=1 audit=64 pathz3=4 | every input of 4 characters from the YAML alphabet, target Value
    fn h_c01_yaml4() { value(&text_in::<4>(YAML)) }
    //@ q reach=1 audit=256 pathz3=32 | every input of 5 characters from the YAML alphabet, target Value
    fn h_c01_yaml5() { value(&text_in::<5>(YAML)) }
    //@ q reach=1 audit=256 pathz3=32 | every input of 4 arbitrary bytes, target Value
    fn h_c01_value4() { value(&bytes::<4>()) }
    //@ q reach=1 audit=256 pathz3=32 | 22 target types x every input of 3 ASCII bytes
    fn h_c01_typed3() { let w = pick(NT); typed(&ascii::<3>(), w); reach(1); }
    //@ q reach=1 audit=256 pathz3=32 | 22 target types x 26 contexts x every 2 arbitrary bytes
    fn h_c01_typed_tpl2() { let w = pick(NT); typed(&tdoc::<2>(TPL), w); reach(1); }
    //@ q reach=1 audit=16 pathz3=4 | long scalars of 2-, 3- and 4-byte characters after 0 to 3 ASCII characters (100 or 300 bytes, or 300 ASCII), plain, quoted, tagged, as key and element, x 22 target types: result or error, and its message formatted
    fn h_c01_long() {
        let (p, s) = one(&[("", ""), ("'", "'"), ("!t ", ""), ("!", ""), ("{", ": 1}"), ("[", "]"), ("{k: ", "}"), ("!!int ", ""), ("*", "")]);
        let mut d = p.as_bytes().to_vec();
        let a = pick(4);
        let w = one(&["e", "\u{e9}", "\u{20ac}", "\u{1f600}"]);
        let n = d.len() + a as usize + one(&[100usize, 300]);
        for _ in 0..a { d.push(b'x') }
        while d.len() < n { d.extend_from_slice(w.as_bytes()) }
        d.extend_from_slice(s.as_bytes());
        fn msg<T: DeserializeOwned>(d: &[u8]) {
            if let Err(e) = serde_yaml::from_slice::<T>(d) {
                let t = e.to_string();
                observe(&[t.len() as u8]);
                let _ = (e.location(), format!("{:?}", e));
            }
            if let Ok(v) = serde_yaml::from_slice::<Value>(d) {
                if let Err(e) = serde_yaml::from_value::<T>(v) { observe(&[e.to_string().len() as u8]) }
            }
        }
        match pick(12) {
            0 => { msg::<String>(&d); msg::<Value>(&d) }
            1 => { msg::<i64>(&d); msg::<u8>(&d) }
            2 => { msg::<f64>(&d); msg::<i128>(&d) }
            3 => { msg::<bool>(&d); msg::<char>(&d) }
            4 => { msg::<()>(&d); msg::<Unit>(&d) }
            5 => { msg::<Option<i64>>(&d); msg::<New>(&d) }
            6 => { msg::<Vec<i64>>(&d); msg::<Vec<()>>(&d) }
            7 => { msg::<BTreeMap<String, ()>>(&d); msg::<BTreeMap<bool, i64>>(&d) }
            8 => { msg::<Point>(&d); msg::<E>(&d) }
            9 => { msg::<Vec<E>>(&d); msg::<(i64, String)>(&d) }
            10 => { msg::<Number>(&d); msg::<Mapping>(&d) }
            _ => { msg::<BTreeMap<String, bool>>(&d); msg::<Option<Option<bool>>>(&d) }
        }
        reach(1)
    }
    //@ t reach=1 audit=1024 pathz3=256 | every input of 6 characters from the YAML alphabet, target Value
    fn h_c01_yaml6() { value(&text_in::<6>(YAML)) }
    //@ t reach=1 audit=1024 pathz3=256 | every input of 5 arbitrary bytes, target Value
    fn h_c01_value5() { value(&bytes::<5>()) }
    //@ t reach=1 audit=1024 pathz3=256 | 26 document contexts x every 4 arbitrary bytes in the gap, target Value
    fn h_c01_tpl4() { value(&tdoc::<4>(TPL)) }
    //@ t reach=1 audit=1024 pathz3=256 | 22 target types x every input of 4 ASCII bytes
    fn h_c01_typed4() { let w = pick(NT); typed(&ascii::<4>(), w); reach(1); }
    //@ t reach=1 audit=1024 pathz3=256 | 22 target types x 26 contexts x every 3 characters of the YAML alphabet
    fn h_c01_typed_tpl3() { let w = pick(NT); typed(&tdoc_in::<3>(TPL, YAML), w); reach(1); }
    //@ t reach=1 audit=1024 pathz3=256 | multi-document iteration, every input of 4 arbitrary bytes
    fn h_c01_stream4() { stream(&bytes::<4>()) }
}

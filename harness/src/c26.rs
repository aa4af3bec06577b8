//! C26: serialized output is one well-formed document ending in a newline.
use crate::sym::*;
use crate::util::*;
use serde::{Deserialize, Serialize, Serializer};
use serde_yaml::Value;

/// exactly one document, valid UTF-8, final newline, nothing outside the document
fn formed(t: &[u8]) -> Option<Value> {
    check(std::str::from_utf8(t).is_ok(), 1);
    check(t.last() == Some(&b'\n'), 2);
    let mut it = serde_yaml::Deserializer::from_slice(t);
    let v = match it.next() {
        Some(d) => Value::deserialize(d).ok(),
        None => None,
    };
    check(v.is_some(), 3);
    check(it.next().is_none(), 4);
    v
}
fn program(x: &Sh) {
    assume(!x.repeats());
    let mut w: Vec<u8> = Vec::new();
    match serde_yaml::to_writer(&mut w, x) {
        Ok(()) => {
            observe(&w);
            // the same number of nodes: nothing is lost or added
            if let Some(v) = formed(&w) {
                check(v == x.value(), 5)
            }
            check(serde_yaml::to_string(x).ok().map(String::into_bytes) == Some(w), 6);
            reach(1)
        }
        Err(_) => {
            check(double_tag(&x.value()), 7);
            reach(2)
        }
    }
}
struct By<'a>(&'a [u8]);
impl<'a> Serialize for By<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

harnesses! {
    //@ q reach=1 audit=256 pathz3=64 | maps of 0 to 2 entries announced with any length 0 to 3: 16 kinds of key (also shown in pieces), 5 of value, 7 surroundings
    fn h_c26_hint() {
        program(&gen_hinted())
    }
    //@ q reach=1,2 audit=256 pathz3=64 | serialization programs of up to 3 calls, 22 kinds: every shape, length hint and map style
    fn h_c26_program() {
        program(&gen_sh(&mut 3, 3, false))
    }
    //@ q reach=1,2 audit=256 pathz3=64 | serialization programs of up to 4 calls, 13 kinds
    fn h_c26_deep() {
        program(&gen_sh(&mut 4, 4, true))
    }
    //@ q reach=1 audit=256 pathz3=64 | every string of 3 characters from 22 YAML characters at 6 positions: one document
    fn h_c26_string() {
        let b = text_in::<3>(YAML);
        let t = str_of(&b).to_owned();
        let n = Sh::Int(1);
        let s = Sh::Str(t);
        let x = match pick(6) {
            0 => s,
            1 => Sh::Seq(true, vec![s, n]),
            2 => Sh::Map(true, true, vec![(s, n)]),
            3 => Sh::Map(true, true, vec![(n.clone(), s), (Sh::Unit, n)]),
            4 => Sh::NewtypeVariant(Box::new(s)),
            _ => Sh::Seq(true, vec![Sh::Map(true, false, vec![(n, s)])]),
        };
        program(&x)
    }
    //@ q reach=1 audit=64 pathz3=16 | every string of 2 arbitrary code points below U+0800 at 3 positions
    fn h_c26_unicode() {
        let mut t = String::new();
        for _ in 0..1 + pick(2) {
            let c = (pick(8) as u32) << 8 | byte() as u32;
            match char::from_u32(c) { Some(c) => t.push(c), None => return check(false, 8) }
        }
        let s = Sh::Str(t);
        program(&match pick(3) { 0 => s, 1 => Sh::Map(true, true, vec![(s, Sh::Unit)]), _ => Sh::Seq(false, vec![Sh::TupleVariant(vec![s])]) })
    }
    //@ q reach=1,2 | bytes are refused wherever they are; nothing that was refused is followed by output
    fn h_c26_bytes() {
        let b = By(b"ab");
        check(serde_yaml::to_string(&b).is_err(), 20);
        check(serde_yaml::to_string(&[By(b"")]).is_err(), 21);
        check(serde_yaml::to_string(&Some(b)).is_err(), 22);
        reach(1);
        // an error inside a document: what was written before it is all there is
        let x = Sh::Seq(true, vec![Sh::Int(1), Sh::NewtypeVariant(Box::new(Sh::NewtypeVariant(Box::new(gen_sh(&mut 1, 0, true)))))]);
        let mut w: Vec<u8> = Vec::new();
        check(serde_yaml::to_writer(&mut w, &x).is_err(), 23);
        check(w.len() <= 4 && b"- 1\n".starts_with(&w), 24);
        reach(2)
    }
    //@ q reach=1 audit=16 pathz3=4 | long strings (100 to 70000 characters) with 2 of 4 characters at the start, middle or end, alone, as element, as key
    fn h_c26_long() {
        let n = one(&[100usize, 127, 128, 129, 255, 256, 1024, 1025, 4096, 16384, 70000]);
        let mut v: Vec<u8> = b"ab cd".iter().copied().cycle().take(n).collect();
        let at = match pick(3) { 0 => 0, 1 => n / 2, _ => n - 2 };
        let b = text_in::<2>(b" \na\t");
        v[at] = b[0];
        v[at + 1] = b[1];
        let s = Sh::Str(str_of(&v).to_owned());
        program(&match pick(3) { 0 => s, 1 => Sh::Seq(true, vec![s]), _ => Sh::Map(true, true, vec![(s, Sh::Unit)]) })
    }
    //@ q reach=1 audit=16 pathz3=4 | sequences and maps of 10 to 300 entries, chains of depth 20 to 100, around 1 of 22 YAML characters
    fn h_c26_wide() {
        let n = one(&[10usize, 16, 17, 32, 33, 127, 128, 255, 256, 300]);
        let b = text_in::<1>(YAML);
        let s = Sh::Str(str_of(&b).to_owned());
        let at = |i: usize| if i == n - 1 { s.clone() } else { Sh::Int(i as i64) };
        program(&match pick(4) {
            0 => Sh::Seq(flag(), (0..n).map(at).collect()),
            1 => Sh::Map(flag(), true, (0..n).map(|i| (at(i), Sh::Unit)).collect()),
            2 => { let mut x = s; for i in 0..n.min(100) { x = if i % 2 == 0 { Sh::Seq(true, vec![x]) } else { Sh::Map(true, true, vec![(Sh::Int(1), x)]) } } x }
            _ => { let mut x = s; for _ in 0..n.min(100) { x = Sh::Struct(vec![x]) } Sh::NewtypeVariant(Box::new(x)) }
        })
    }
    //@ t reach=1,2 audit=4096 pathz3=1024 | serialization programs of up to 5 calls, 13 kinds
    fn h_c26_deeper() {
        program(&gen_sh(&mut 5, 4, true))
    }
    //@ q reach=1 audit=256 pathz3=64 | every string of 4 characters from 22 YAML characters, alone, as element and as key
    fn h_c26_string4() {
        let b = text_in::<4>(YAML);
        let s = Sh::Str(str_of(&b).to_owned());
        program(&match pick(3) { 0 => s, 1 => Sh::Seq(true, vec![s]), _ => Sh::Map(true, true, vec![(s, Sh::Unit)]) })
    }
    //@ t reach=1 audit=4096 pathz3=1024 | every string of 5 characters from 22 YAML characters, alone, as element and as key
    fn h_c26_string5() {
        let b = text_in::<5>(YAML);
        let s = Sh::Str(str_of(&b).to_owned());
        program(&match pick(3) { 0 => s, 1 => Sh::Seq(true, vec![s]), _ => Sh::Map(true, true, vec![(s, Sh::Unit)]) })
    }
}

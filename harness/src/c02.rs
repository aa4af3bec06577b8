//! C02: everything acquired while parsing or emitting is released again.
use crate::sym::*;
use crate::util::*;
use serde::de::{DeserializeOwned, IgnoredAny};
use serde::{Deserialize, Serialize};
use serde_yaml::{Deserializer, Serializer, Value};
use std::io;

fn leakfree(f: impl FnOnce() -> u8) {
    heap_mark();
    let r = f();
    heap_check(1);
    observe(&[r]);
    reach(1);
}
fn de<T: DeserializeOwned>(b: &[u8]) -> u8 {
    serde_yaml::from_slice::<T>(b).is_ok() as u8
}
/// a reader that hands out the bytes and then fails
struct FailRead<'a>(&'a [u8]);
impl io::Read for FailRead<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.0.is_empty() {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        buf[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}
/// a writer that accepts `left` bytes and then fails
struct FailWrite(usize);
impl io::Write for FailWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.0 == 0 {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        let n = buf.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// serialization that gives up half-way
struct Bad;
impl Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("no"))
    }
}
fn anchored() -> Vec<u8> {
    tdoc::<2>(&[
        ("- &a [b]\n- *a\n- &", " c"),
        ("&a ", ": *a"),
        ("- !", " [a]\n- *b"),
        ("&a [&b c, *a, ", "]"),
        ("--- &x\n- *x\n", ""),
        ("a: &a {b: \"", "\"}\n*a : c"),
        ("%TAG !e! ", "\n---\n!e!a b"),
        ("- >-\n  a", "\n- \"\\x4"),
    ])
}

harnesses! {
    //@ q reach=1 | from_slice::<Value> then drop, every input of 3 arbitrary bytes
    fn h_c02_value3() { let b = bytes::<3>(); leakfree(|| de::<Value>(&b)) }
    //@ q reach=1 | from_slice::<Value> then drop, 26 contexts x every 3 arbitrary bytes
    fn h_c02_tpl3() { let b = tdoc::<3>(TPL); leakfree(|| de::<Value>(&b)) }
    //@ q reach=1 | anchors, aliases, tags and directives: 8 contexts x every 2 arbitrary bytes
    fn h_c02_anchors() { let b = anchored(); leakfree(|| de::<Value>(&b)) }
    //@ q reach=1 | typed reads (struct, enum, ints, ignored) on 26 contexts x every 2 ASCII bytes
    fn h_c02_typed() {
        let (p, s) = one(TPL);
        let w = pick(6);
        let mut b = Vec::with_capacity(40);
        b.extend_from_slice(p.as_bytes());
        b.extend_from_slice(&ascii::<2>());
        b.extend_from_slice(s.as_bytes());
        leakfree(|| match w {
            0 => de::<Point>(&b),
            1 => de::<E>(&b),
            2 => de::<Vec<i64>>(&b),
            3 => de::<IgnoredAny>(&b),
            4 => de::<String>(&b),
            _ => de::<Opts>(&b),
        })
    }
    //@ q reach=1 | document iteration abandoned after 0, 1 or 2 documents, 2 symbolic bytes in a stream
    fn h_c02_abandon() {
        let b = tdoc::<2>(&[("a\n---\n", "\n---\nb"), ("--- [", "]\n--- &a x\n...\n"), ("", "\n--- b"), ("- a\n...", "\n--- c")]);
        let n = pick(4);
        let use_docs = flag();
        leakfree(|| {
            let mut it = Deserializer::from_slice(&b);
            let mut k = 0;
            for _ in 0..n {
                match it.next() {
                    None => break,
                    Some(d) => {
                        if use_docs { k += Value::deserialize(d).is_ok() as u8; }
                    }
                }
            }
            k
        })
    }
    //@ q reach=1 | failing reader after 0..3 symbolic bytes
    fn h_c02_reader() {
        let b = bytes::<3>();
        let n = pick(4);
        leakfree(|| serde_yaml::from_reader::<_, Value>(FailRead(&b[..n])).is_ok() as u8)
    }
    //@ q reach=1 | parse, to_string, to_value and drop, every input of 3 arbitrary bytes
    fn h_c02_ser3() {
        let b = bytes::<3>();
        leakfree(|| match serde_yaml::from_slice::<Value>(&b) {
            Ok(v) => { let s = serde_yaml::to_string(&v); let w = serde_yaml::to_value(&v); 1 + s.is_ok() as u8 + w.is_ok() as u8 }
            Err(_) => 0,
        })
    }
    //@ q reach=1 | writer that fails after any number of bytes, values of 6 shapes with 2 symbolic characters
    fn h_c02_writer() {
        let s = ascii::<2>();
        let s = str_of(&s);
        let w = pick(7);
        let k = pick(40);
        leakfree(|| match w {
            0 => serde_yaml::to_writer(FailWrite(k), s).is_ok() as u8,
            1 => serde_yaml::to_writer(FailWrite(k), &vec![s, "b"]).is_ok() as u8,
            2 => serde_yaml::to_writer(FailWrite(k), &E::T(1, s.to_owned())).is_ok() as u8,
            3 => serde_yaml::to_writer(FailWrite(k), &Point { x: 5, y: s.to_owned() }).is_ok() as u8,
            4 => serde_yaml::to_writer(FailWrite(k), &E::N(s.to_owned())).is_ok() as u8,
            5 => serde_yaml::to_writer(FailWrite(k), &[(s, Some(Bad))]).is_ok() as u8,
            _ => {
                let mut ser = Serializer::new(FailWrite(k));
                let a = s.serialize(&mut ser).is_ok();
                let b = s.serialize(&mut ser).is_ok();
                let c = ser.into_inner().is_ok();
                a as u8 + b as u8 + c as u8
            }
        })
    }
    //@ t reach=1 audit=256 pathz3=64 | from_slice::<Value> then drop, every input of 5 YAML characters
    fn h_c02_yaml5() { let b = text_in::<5>(YAML); leakfree(|| de::<Value>(&b)) }
    //@ t reach=1 audit=256 pathz3=64 | from_slice::<Value> then drop, every input of 4 arbitrary bytes
    fn h_c02_value4() { let b = bytes::<4>(); leakfree(|| de::<Value>(&b)) }
    //@ t reach=1 audit=256 pathz3=64 | parse, to_string, to_value and drop, every input of 4 YAML characters
    fn h_c02_ser4() {
        let b = text_in::<4>(YAML);
        leakfree(|| match serde_yaml::from_slice::<Value>(&b) {
            Ok(v) => { let s = serde_yaml::to_string(&v); let w = serde_yaml::to_value(&v); 1 + s.is_ok() as u8 + w.is_ok() as u8 }
            Err(_) => 0,
        })
    }
}

//! C24: I/O faults of readers and writers are reported; nothing is lost or garbled.
use crate::sym::*;
use crate::util::*;
use serde::de::{DeserializeOwned, IgnoredAny};
use serde::{Deserialize, Serialize};
use serde_yaml::{Deserializer, Serializer, Value};
use std::collections::BTreeMap;
use std::io::{self, ErrorKind};

const KINDS: &[ErrorKind] = &[ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::InvalidData, ErrorKind::Other];
fn fault(k: usize) -> io::Error {
    if k < KINDS.len() { KINDS[k].into() } else { io::Error::new(ErrorKind::Other, "boom") }
}
/// the error is the I/O failure
fn carries(e: &serde_yaml::Error, k: usize, id: u32) {
    let want = fault(k).to_string();
    check(e.to_string() == want, id);
    check(e.location().is_none(), id);
}
/// takes `room` bytes and then fails; may take less than offered, or be interrupted, `odd` times
struct Sink {
    out: Vec<u8>,
    room: usize,
    kind: usize,
    odd: usize,
    flushed: usize,
    flush_fails: bool,
    /// calls after the failure
    late: usize,
    failed: bool,
}
impl Sink {
    fn new(room: usize, kind: usize, odd: usize) -> Sink {
        Sink { out: Vec::new(), room, kind, odd, flushed: usize::MAX, flush_fails: false, late: 0, failed: false }
    }
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.late += self.failed as usize;
        let mut n = b.len();
        if self.odd > 0 && n > 0 {
            self.odd -= 1;
            match pick(4) {
                0 => return Err(ErrorKind::Interrupted.into()),
                1 => n = 1,
                2 => n = n.min(2),
                _ => {}
            }
        }
        let n = n.min(self.room - self.out.len());
        if n == 0 && !b.is_empty() {
            self.failed = true;
            // the last kind: nothing more is taken, without an error
            return if self.kind > KINDS.len() { Ok(0) } else { Err(fault(self.kind)) };
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed = self.out.len();
        if self.flush_fails { Err(fault(self.kind)) } else { Ok(()) }
    }
}
/// serialize into a sink with room for `room` bytes
fn into_sink<T: Serialize>(x: &T, room: usize, kind: usize, odd: usize) {
    let full = serde_yaml::to_string(x);
    let mut s = Sink::new(room, kind, odd);
    let r = serde_yaml::to_writer(&mut s, x);
    match full {
        Ok(t) => {
            let t = t.as_bytes();
            check(r.is_ok() == (room >= t.len()), 1);
            check(same(&s.out, &t[..room.min(t.len())]), 2);
            observe(&s.out);
            match r {
                Ok(()) => reach(1),
                Err(e) => {
                    if kind > KINDS.len() {
                        check(e.to_string() == "failed to write whole buffer", 3);
                    } else {
                        carries(&e, kind, 4)
                    }
                    check(s.late == 0, 5);
                    reach(2)
                }
            }
        }
        Err(e) => {
            // not an I/O failure: the same error, and nothing written
            if let Err(r) = r { check(r.to_string() == e.to_string(), 6) } else { check(false, 6) }
            check(s.out.is_empty(), 7);
        }
    }
}
/// two values written one after the other through one Serializer
fn stream(x: &Sh, y: &Sh, room: usize, odd: usize) {
    let tx = match serde_yaml::to_string(x) {
        Ok(x) => x,
        _ => { assume(false); unreachable!() }
    };
    let mut full = Vec::new();
    let mut w = Serializer::new(&mut full);
    check(x.serialize(&mut w).is_ok() && y.serialize(&mut w).is_ok() && w.into_inner().is_ok(), 16);
    check(full.starts_with(tx.as_bytes()), 17);
    let room = room.min(full.len());
    let mut s = Sink::new(room, KINDS.len(), odd);
    let mut w = Serializer::new(&mut s);
    let rx = x.serialize(&mut w);
    let mut ry = Ok(());
    if rx.is_ok() {
        ry = y.serialize(&mut w);
    }
    let ok = rx.is_ok() && ry.is_ok();
    check(rx.is_ok() == (room >= tx.len()), 10);
    check(rx.is_err() || ry.is_ok() == (room == full.len()), 11);
    if let Err(e) = rx { carries(&e, KINDS.len(), 12) }
    if let Err(e) = ry { carries(&e, KINDS.len(), 13) }
    if ok { check(w.into_inner().is_ok(), 14) } else { drop(w) }
    check(same(&s.out, &full[..room]), 15);
    observe(&s.out);
    reach(if ok { 1 } else { 2 })
}
/// hands out the data in two parts and then fails
struct Faulty<'a> {
    data: &'a [u8],
    kind: usize,
    interrupts: usize,
}
impl io::Read for Faulty<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.interrupts > 0 {
            self.interrupts -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        if self.data.is_empty() {
            return Err(fault(self.kind));
        }
        let n = self.data.len().min(b.len()).min(7);
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
/// whatever comes before the failure, and whatever is asked for, the failure is what is returned
fn broken<T: DeserializeOwned>(data: &[u8], kind: usize) {
    let rd = || Faulty { data, kind, interrupts: 1 };
    match serde_yaml::from_reader::<_, T>(rd()) {
        Ok(_) => check(false, 20),
        Err(e) => carries(&e, kind, 21),
    }
    match T::deserialize(Deserializer::from_reader(rd())) {
        Ok(_) => check(false, 22),
        Err(e) => carries(&e, kind, 23),
    }
    let mut it = Deserializer::from_reader(rd());
    match it.next().map(T::deserialize) {
        Some(Err(e)) => carries(&e, kind, 24),
        _ => check(false, 25),
    }
    observe(data);
    reach(1)
}

harnesses! {
    //@ q reach=1,2 audit=64 pathz3=16 | every serialization program of up to 3 calls (13 kinds); writer failing after any number of bytes up to 6, or at none, 2 first calls interrupted or cut short freely
    fn h_c24_program() {
        let x = gen_sh(&mut 3, 3, true);
        assume(!x.repeats());
        let room = pick(8);
        into_sink(&x, if room == 7 { 1000 } else { room }, KINDS.len(), 2)
    }
    //@ q reach=1,2 audit=64 pathz3=16 | a document of 70 bytes with 2 symbolic characters; every failure position and every kind of failure (8 errors, and a write that accepts nothing)
    fn h_c24_cut() {
        let b = text_in::<2>(b"ab-: ");
        let mut m: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
        m.insert("key", vec!["one", str_of(&b), "line\nbreak", "\u{e9}\u{20ac}"]);
        m.insert("zzz", vec![]);
        let (room, kind) = if flag() { (pick(80), KINDS.len()) } else { (11, pick(KINDS.len() + 2)) };
        into_sink(&m, room, kind, 1)
    }
    //@ q reach=1,2 audit=64 pathz3=16 | streams of two documents out of 12 shapes; failure at every position up to 25 bytes
    fn h_c24_stream() {
        let x = gen_sh(&mut 2, 1, true);
        assume(!x.repeats());
        let y = match pick(3) { 0 => Sh::Int(7), 1 => Sh::Str("x\ny\n".to_owned()), _ => Sh::Bool(true) };
        stream(&x, &y, pick(26), 2)
    }
    //@ q reach=1,2 audit=16 pathz3=16 | output longer than the emitter's buffer (16384 bytes) in strings of 16370 to 16390 characters and a symbolic one; failure positions around the buffer's end; partial writes
    fn h_c24_big() {
        let n = 16370 + pick(21);
        let mut t = "a".repeat(n);
        t.push(byte_in(b"ab") as char);
        t.push_str("\u{20ac}zz");
        let x = vec![t.as_str(), "b"];
        let room = [0, 16383, 16384, 100000][pick(4)];
        into_sink(&x, room, KINDS.len(), 2)
    }
    //@ q reach=1 audit=16 pathz3=16 | many small nodes: sequences of 4090 to 4100 integers (the emitter's buffer ends between or inside them); failure positions around the buffer's end
    fn h_c24_many() {
        let n = 4088 + pick(12);
        let mut x: Vec<Value> = vec![Value::from(11); n];
        x.push(Value::from(choice(10)));
        into_sink(&x, if flag() { 100000 } else { 16384 }, KINDS.len(), 2);
        reach(1)
    }
    //@ q reach=1,2 audit=16 pathz3=16 | flush passes on everything written and the writer's own failure
    fn h_c24_flush() {
        let x = gen_sh(&mut 2, 1, true);
        assume(!x.repeats());
        let t = match serde_yaml::to_string(&x) { Ok(t) => t, Err(_) => { assume(false); unreachable!() } };
        let mut s = Sink::new(1000, pick(KINDS.len() + 1), 1);
        let kind = s.kind;
        let fails = flag();
        s.flush_fails = fails;
        let mut w = Serializer::new(&mut s);
        check(x.serialize(&mut w).is_ok(), 30);
        match w.flush() {
            Ok(()) => { check(!fails, 31); reach(1) }
            Err(e) => { check(fails, 32); carries(&e, kind, 33); reach(2) }
        }
        check(w.into_inner().is_ok(), 34);
        check(s.flushed == t.len(), 35);
        // (the end of the stream may add the mark of the document's end)
        check(same(&s.out, t.as_bytes()) || same(&s.out, [&t, "...\n"].concat().as_bytes()), 36);
        observe(&s.out);
    }
    //@ q reach=1 audit=64 pathz3=16 | a reader failing after 26 contexts x 2 arbitrary bytes; Value
    fn h_c24_read() { broken::<Value>(&tdoc::<2>(TPL), KINDS.len()) }
    //@ q reach=1 audit=64 pathz3=16 | a reader failing with 8 errors after 5 documents with a symbolic character, into 12 types
    fn h_c24_read_typed() {
        let mut d = one(&["", "- 1\n", "x: 1\ny: q", "!N ", "a\n---\n"]).as_bytes().to_vec();
        d.push(byte());
        let k = pick(KINDS.len() + 1);
        match pick(12) {
            0 => broken::<String>(&d, k),
            1 => broken::<i64>(&d, k),
            2 => broken::<f64>(&d, k),
            3 => broken::<bool>(&d, k),
            4 => broken::<()>(&d, k),
            5 => broken::<Option<String>>(&d, k),
            6 => broken::<Vec<Value>>(&d, k),
            7 => broken::<BTreeMap<String, Option<String>>>(&d, k),
            8 => broken::<Point>(&d, k),
            9 => broken::<E>(&d, k),
            10 => broken::<IgnoredAny>(&d, k),
            _ => broken::<(i64, char)>(&d, k),
        }
    }
    //@ q reach=1 audit=16 pathz3=4 | a writer's bytes do not depend on what the reader of the same run does: large input (16386 to 20000 bytes) through a reader that fails at the end or not
    fn h_c24_read_big() {
        let n = 16380 + pick(8);
        let mut d = "a".repeat(n).into_bytes();
        let c = byte_in(b"ab'");
        d.push(c);
        d.extend_from_slice("\u{20ac}".as_bytes());
        match serde_yaml::from_reader::<_, String>(&d[..]) {
            Ok(s) => check(same(s.as_bytes(), &d), 40),
            Err(_) => check(false, 41),
        }
        observe(&[c]);
        reach(1)
    }
    //@ q reach=1,2 audit=16 pathz3=16 | flush inside an open sequence or mapping (1 or 2 levels, 1 to 3 elements), and after a value that fails half way: what was serialized so far is passed on, and the writer's own failure reported
    fn h_c24_flush_open() {
        use serde::ser::{SerializeMap, SerializeSeq, Serializer as _};
        let (deep, map, n) = (flag(), flag(), 1 + pick(3));
        let b = [byte_in(b"a1~"), b'x'];
        let mut s = Sink::new(1000, pick(KINDS.len() + 1), 1);
        let kind = s.kind;
        let fails = flag();
        s.flush_fails = fails;
        let mut w = Serializer::new(&mut s);
        let r = if pick(3) == 0 {
            // fails on its last element
            struct Bad(usize, String);
            impl Serialize for Bad {
                fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    let mut q = s.serialize_seq(None)?;
                    for _ in 0..self.0 { q.serialize_element(&self.1)?; }
                    Err(serde::ser::Error::custom("no"))
                }
            }
            assume(!deep && !map);
            check(Bad(n, str_of(&b).to_owned()).serialize(&mut w).is_err(), 40);
            w.flush()
        } else if map {
            let mut m = (&mut w).serialize_map(None).unwrap();
            if deep { m.serialize_entry("k", &[1, 2]).unwrap(); }
            for i in 0..n { m.serialize_entry(&i, str_of(&b)).unwrap(); }
            let f = m.flush();
            SerializeMap::end(m).unwrap();
            f
        } else {
            let mut q = (&mut w).serialize_seq(None).unwrap();
            if deep { q.serialize_element(&[1, 2]).unwrap(); }
            for _ in 0..n { q.serialize_element(str_of(&b)).unwrap(); }
            let f = q.flush();
            SerializeSeq::end(q).unwrap();
            f
        };
        match r {
            Ok(()) => { check(!fails, 41); reach(1) }
            Err(e) => { check(fails, 42); carries(&e, kind, 43); reach(2) }
        }
        drop(w);
        // all elements but the end of the last line were passed on before
        check(s.flushed != usize::MAX, 44);
        let t = &s.out[..s.flushed.min(s.out.len())];
        observe(t);
        let mut seen = 0;
        for i in 0..t.len() { if t[i] == b'x' { seen += 1 } }
        // (the emitter looks up to three events ahead at the start of a collection)
        check(seen == n || n == 1 && !deep && seen == 0, 45);
    }
    //@ t reach=1,2 audit=1024 pathz3=64 | every serialization program of up to 3 calls (22 kinds); writer failing after any number of bytes up to 20
    fn h_c24_program_t() {
        let x = gen_sh(&mut 3, 3, false);
        assume(!x.repeats());
        into_sink(&x, pick(21), KINDS.len(), 3)
    }
    //@ t reach=1 audit=1024 pathz3=64 | a reader failing after 26 contexts x 3 arbitrary bytes; Value
    fn h_c24_read_t() { broken::<Value>(&tdoc::<3>(TPL), KINDS.len()) }
    //@ t reach=1,2 audit=64 pathz3=16 | as h_c24_big with 40 lengths and 6 failure positions
    fn h_c24_big_t() {
        let n = 16360 + pick(40);
        let mut t = "a".repeat(n);
        t.push(byte_in(b"ab \n:") as char);
        t.push_str("\u{20ac}zz");
        let x = vec![t.as_str(), "b"];
        let room = [0, 1, 16380, 16383, 16384, 100000][pick(6)];
        into_sink(&x, room, KINDS.len(), 3)
    }
}

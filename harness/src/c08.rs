//! C08: from_str, from_slice, from_reader (any chunking) and explicit Deserializers agree.
use crate::sym::*;
use crate::util::*;
use serde::de::DeserializeOwned;
use serde_yaml::{Deserializer, Error, Value};
use std::collections::BTreeMap;
use std::io;

/// hands out the data in chunks chosen case by case; may report an interruption before a chunk
struct Chunky<'a> {
    data: &'a [u8],
    interrupts: usize,
    /// number of freely chosen chunks, the rest comes at once
    splits: usize,
}
impl io::Read for Chunky<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.data.is_empty() || buf.is_empty() {
            return Ok(0);
        }
        if self.splits == 0 {
            let n = self.data.len().min(buf.len());
            buf[..n].copy_from_slice(&self.data[..n]);
            self.data = &self.data[n..];
            return Ok(n);
        }
        self.splits -= 1;
        let max = self.data.len().min(buf.len()).min(3);
        let n = pick(max + (self.interrupts > 0) as usize);
        if n == max {
            self.interrupts -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        // chunks of 1, 2 or everything
        let n = if n == 2 { self.data.len().min(buf.len()) } else { n + 1 };
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
fn agree<T: PartialEq>(a: &Result<T, Error>, b: &Result<T, Error>, id: u32) {
    match (a, b) {
        (Ok(a), Ok(b)) => check(a == b, id),
        (Err(a), Err(b)) => {
            let (a, b) = (a.to_string(), b.to_string());
            check(same(a.as_bytes(), b.as_bytes()), id + 1)
        }
        _ => check(false, id + 2),
    }
}
fn routes<T: DeserializeOwned + PartialEq>(b: &[u8], rd: usize) {
    let a = serde_yaml::from_slice::<T>(b);
    observe(&[a.is_ok() as u8]);
    agree(&a, &T::deserialize(Deserializer::from_slice(b)), 10);
    if rd != 1 {
        let (interrupts, splits) = if rd == 0 { (1, 4) } else { (0, 1) };
        agree(&a, &serde_yaml::from_reader::<_, T>(Chunky { data: b, interrupts, splits }), 20);
    } else {
        agree(&a, &T::deserialize(Deserializer::from_reader(b)), 30);
    }
    if let Ok(s) = std::str::from_utf8(b) {
        agree(&a, &serde_yaml::from_str::<T>(s), 40);
        agree(&a, &T::deserialize(Deserializer::from_str(s)), 50);
        reach(2);
    }
    reach(1);
}
fn stream(b: &[u8]) {
    let via = |d: Deserializer| -> Vec<Result<Value, String>> {
        use serde::Deserialize;
        d.take(6).map(|d| Value::deserialize(d).map_err(|e| e.to_string())).collect()
    };
    let a = via(Deserializer::from_slice(b));
    observe(&[a.len() as u8]);
    check(a == via(Deserializer::from_reader(Chunky { data: b, interrupts: 0, splits: 2 })), 60);
    if let Ok(s) = std::str::from_utf8(b) {
        check(a == via(Deserializer::from_str(s)), 61);
    }
    reach(1);
}

/// `b` after `n` bytes of text
fn past(n: usize, b: &[u8]) -> Vec<u8> {
    let (h, s) = one(&[("# ", "\na"), ("", ""), ("'", "'"), ("|\n ", "\n"), ("[a, ", "]")]);
    let mut d = h.as_bytes().to_vec();
    while d.len() < n {
        d.push(b'x')
    }
    d.extend_from_slice(b);
    d.extend_from_slice(s.as_bytes());
    d
}

harnesses! {
    //@ q reach=1,2 audit=64 pathz3=8 | all routes to a Value, every input of 3 arbitrary bytes, reader chunks chosen freely
    fn h_c08_value3() { routes::<Value>(&bytes::<3>(), 0) }
    //@ q reach=1,2 audit=64 pathz3=8 | all routes to a Value, 26 contexts x 2 arbitrary bytes, whole-buffer reader
    fn h_c08_tpl2() { routes::<Value>(&tdoc::<2>(TPL), 1) }
    //@ q reach=1,2 audit=64 pathz3=8 | all routes to a Value, every input of 4 YAML characters, whole-buffer reader
    fn h_c08_yaml4() { routes::<Value>(&text_in::<4>(YAML), 1) }
    //@ q reach=1,2 audit=64 pathz3=8 | all routes to String, i64, f64, bool, (), Option, Vec, map, struct, enum: every input of 2 ASCII bytes
    fn h_c08_typed() {
        let b = ascii::<2>();
        match pick(10) {
            0 => routes::<String>(&b, 1),
            1 => routes::<i64>(&b, 1),
            2 => routes::<f64>(&b, 1),
            3 => routes::<bool>(&b, 1),
            4 => routes::<()>(&b, 1),
            5 => routes::<Option<String>>(&b, 1),
            6 => routes::<Vec<Value>>(&b, 1),
            7 => routes::<BTreeMap<String, Option<String>>>(&b, 1),
            8 => routes::<Point>(&b, 1),
            _ => routes::<E>(&b, 1),
        }
    }
    //@ q reach=1,2 audit=64 pathz3=8 | typed routes (struct, enum, list of strings, map) in suitable contexts x 2 YAML characters
    fn h_c08_typed_ctx() {
        let b = text_in::<2>(YAML);
        let w = |p: &str, s: &str| [p.as_bytes(), &b, s.as_bytes()].concat();
        match pick(6) {
            0 => routes::<Point>(&w("x: 1\ny: ", ""), 1),
            1 => routes::<E>(&w("!N ", ""), 1),
            2 => routes::<Vec<String>>(&w("[a, ", "]"), 1),
            3 => routes::<BTreeMap<String, Value>>(&w("{a: ", "}"), 1),
            4 => routes::<E>(&w("!S {x: 2, y: ", "}"), 1),
            _ => routes::<(i64, String)>(&w("- 1\n- '", "'"), 1),
        }
    }
    //@ q reach=1 audit=64 pathz3=8 | document iteration through slice, str and chunked reader: 4 streams x 2 YAML characters
    fn h_c08_stream() { stream(&tdoc_in::<2>(&[("a\n---\n", ""), ("", "\n---\nb\n"), ("--- *x\n---\n", ""), ("- a\n...\n", "\n")], YAML)) }
    //@ q reach=1,2 audit=16 pathz3=4 | inputs longer than any internal buffer: 5 lengths around 4096, 8192, 16384, 65536 before 1 of 7 bytes; comment, plain, quoted, literal, list; Value and String; chunked and whole reader
    fn h_c08_big() {
        let b = [byte_in(b"a\n:'\x00\x80\xff")];
        let d = past(one(&[4095usize, 8190, 16382, 16383, 65534]), &b);
        if flag() { routes::<Value>(&d, 2) } else { routes::<String>(&d, 1) }
    }
    //@ q reach=1 audit=1 pathz3=1 steps=2000000000 | large inputs: a comment or quoted text of 1 MiB, then 1 of 2 bytes: slice and reader agree and the end of the input is read
    fn h_c08_huge() {
        let n = 1048573;
        let mut d = if flag() { b"# ".to_vec() } else { b"'".to_vec() };
        let q = d[0] == b'\'';
        d.resize(n, b'x');
        if !q { d.extend_from_slice(b"\n- '") }
        d.push(byte_in(b"a\n"));
        d.extend_from_slice(b"tail'");
        let a = serde_yaml::from_slice::<Value>(&d);
        let r = serde_yaml::from_reader::<_, Value>(&d[..]);
        check(a.is_ok() && r.is_ok(), 62);
        check(a.unwrap() == r.unwrap(), 63);
        reach(1);
    }
    //@ q reach=1,2 audit=64 pathz3=8 | 12 short documents after, before or between 20 odd texts (byte order marks, NUL, blanks, breaks, markers, wide and invalid characters): all routes, Value and String
    fn h_c08_edges() {
        let odd: &[&[u8]] = &[b"", "\u{feff}".as_bytes(), "\u{feff}\u{feff}".as_bytes(), " \u{feff}".as_bytes(), b"\0", b" ", b"\t", b"\r", b"\n", b"\r\n", "\u{85}".as_bytes(), "\u{2028}".as_bytes(), "\u{a0}".as_bytes(), "\u{200b}".as_bytes(), b"...", b"\n...\n", b"---", b"%YAML 1.2\n---\n", b"\xff", b"\xc3", "\u{fffd}".as_bytes(), b"#"];
        let d = one(&["a", "", "'a'", "\"a\"", "- a", "k: v", "[1]", "|\n a", ">-\n a\n", "&a x", "!t y", "~"]);
        let (p, s) = match pick(3) { 0 => (one(odd), &b""[..]), 1 => (&b""[..], one(odd)), _ => { let o = one(odd); (o, o) } };
        let b = [p, d.as_bytes(), s].concat();
        if flag() { routes::<Value>(&b, pick(2)) } else { routes::<String>(&b, 1) }
    }
    //@ t reach=1,2 audit=16 pathz3=4 | inputs longer than any internal buffer: 13 lengths around 4096, 8192, 16384, 32768, 65536 before 2 arbitrary bytes; comment, plain, quoted, literal, list; Value and String; chunked and whole reader
    fn h_c08_big2() {
        let b = bytes::<2>();
        let d = past(one(&[4090usize, 8185, 8190, 16370, 16378, 16380, 16381, 16382, 16383, 16384, 32766, 49150, 65534]), &b);
        if flag() { routes::<Value>(&d, 2) } else { routes::<String>(&d, 1) }
    }
    //@ t reach=1,2 audit=1024 pathz3=64 | all routes to a Value, every input of 4 arbitrary bytes, reader chunks chosen freely
    fn h_c08_value4() { routes::<Value>(&bytes::<4>(), 0) }
    //@ t reach=1,2 audit=1024 pathz3=64 | all routes to a Value, 26 contexts x 3 arbitrary bytes
    fn h_c08_tpl3() { routes::<Value>(&tdoc::<3>(TPL), 1) }
    //@ t reach=1 audit=1024 pathz3=64 | document iteration: every stream of 4 YAML characters
    fn h_c08_stream4() { stream(&text_in::<4>(YAML)) }
}

//! C29: a JSON document reads as the value JSON gives it.
use crate::sym::*;
use crate::util::*;
use serde_yaml::Value;

#[derive(Debug, Clone, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
/// why a text is not compared
enum No {
    /// it is not JSON
    Bad,
    /// it is JSON that is aside
    Aside,
}
struct R<'a> {
    s: &'a [u8],
    i: usize,
    depth: usize,
}
impl<'a> R<'a> {
    fn peek(&self) -> u8 {
        if self.i < self.s.len() { self.s[self.i] } else { 0 }
    }
    fn eat(&mut self, c: u8) -> bool {
        let y = self.peek() == c;
        if y {
            self.i += 1;
        }
        y
    }
    fn need(&mut self, c: u8) -> Result<(), No> {
        if self.eat(c) { Ok(()) } else { Err(No::Bad) }
    }
    /// white space; tells whether there was a line break
    fn ws(&mut self) -> Result<bool, No> {
        let mut n = false;
        loop {
            match self.peek() {
                b' ' => {}
                b'\t' => {
                    if self.depth == 0 {
                        return Err(No::Aside);
                    }
                }
                b'\n' | b'\r' => n = true,
                _ => return Ok(n),
            }
            self.i += 1;
        }
    }
    fn word(&mut self, w: &[u8]) -> Result<(), No> {
        w.iter().try_for_each(|c| self.need(*c))
    }
    fn digits(&mut self) -> Result<(), No> {
        if !self.peek().is_ascii_digit() {
            return Err(No::Bad);
        }
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        Ok(())
    }
    fn value(&mut self) -> Result<J, No> {
        match self.peek() {
            b'n' => self.word(b"null").map(|_| J::Null),
            b't' => self.word(b"true").map(|_| J::Bool(true)),
            b'f' => self.word(b"false").map(|_| J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.i += 1;
                self.depth += 1;
                let mut v = Vec::new();
                self.ws()?;
                if !self.eat(b']') {
                    loop {
                        v.push(self.value()?);
                        self.ws()?;
                        if self.eat(b']') {
                            break;
                        }
                        self.need(b',')?;
                        self.ws()?;
                    }
                }
                self.depth -= 1;
                Ok(J::Arr(v))
            }
            b'{' => {
                self.i += 1;
                self.depth += 1;
                let mut v: Vec<(String, J)> = Vec::new();
                self.ws()?;
                if !self.eat(b'}') {
                    let mut aside = false;
                    loop {
                        let k = self.string()?;
                        let broken = self.ws()?;
                        self.need(b':')?;
                        self.ws()?;
                        let x = self.value()?;
                        aside |= broken || v.iter().any(|(l, _)| *l == k);
                        v.push((k, x));
                        self.ws()?;
                        if self.eat(b'}') {
                            break;
                        }
                        self.need(b',')?;
                        self.ws()?;
                    }
                    if aside {
                        return Err(No::Aside);
                    }
                }
                self.depth -= 1;
                Ok(J::Obj(v))
            }
            _ => {
                let from = self.i;
                self.eat(b'-');
                if !self.eat(b'0') {
                    self.digits()?;
                }
                if self.eat(b'.') {
                    self.digits()?;
                }
                if self.eat(b'e') || self.eat(b'E') {
                    let _ = self.eat(b'-') || self.eat(b'+');
                    self.digits()?;
                }
                Ok(J::Num(str_of(&self.s[from..self.i]).to_owned()))
            }
        }
    }
    fn string(&mut self) -> Result<String, No> {
        self.need(b'"')?;
        let mut v = Vec::new();
        loop {
            let c = self.peek();
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let c = self.peek();
                    self.i += 1;
                    v.push(match c {
                        b'"' | b'\\' | b'/' => c,
                        b'b' => 8,
                        b'f' => 12,
                        b'n' => b'\n',
                        b'r' => b'\r',
                        b't' => b'\t',
                        b'u' => {
                            let mut x = 0u32;
                            for _ in 0..4 {
                                let d = self.peek();
                                self.i += 1;
                                x = x << 4 | match d {
                                    b'0'..=b'9' => d - b'0',
                                    b'a'..=b'f' => d - b'a' + 10,
                                    b'A'..=b'F' => d - b'A' + 10,
                                    _ => return Err(No::Bad),
                                } as u32;
                            }
                            if x >> 11 == 0x1b {
                                return Err(No::Aside);
                            }
                            let mut b = [0; 4];
                            v.extend_from_slice(char::from_u32(x).unwrap_or(' ').encode_utf8(&mut b).as_bytes());
                            continue;
                        }
                        _ => return Err(No::Bad),
                    })
                }
                0..=31 => return Err(No::Bad),
                127 => return Err(No::Aside),
                _ => v.push(c),
            }
        }
        Ok(str_of(&v).to_owned())
    }
}
fn json(s: &[u8]) -> Result<J, No> {
    let mut r = R { s, i: 0, depth: 0 };
    r.ws()?;
    let j = r.value()?;
    r.ws()?;
    if r.i == s.len() { Ok(j) } else { Err(No::Bad) }
}
/// does `v` say what `j` says; None if j has a number that is aside
fn agrees(j: &J, v: &Value) -> Option<bool> {
    Some(match (j, v) {
        (J::Null, Value::Null) => true,
        (J::Bool(a), Value::Bool(b)) => a == b,
        (J::Str(a), Value::String(b)) => a == b,
        (J::Num(t), v) => {
            if t.bytes().all(|c| c == b'-' || c.is_ascii_digit()) {
                match t.parse::<i128>() {
                    Ok(n) if n > u64::MAX as i128 || n < i64::MIN as i128 => return None,
                    Ok(n) if n >= 0 => v.is_u64() && v.as_u64() == Some(n as u64),
                    Ok(n) => v.is_i64() && v.as_i64() == Some(n as i64),
                    Err(_) => return None,
                }
            } else {
                match t.parse::<f64>() {
                    Ok(f) if f.is_finite() => v.is_f64() && v.as_f64().map(f64::to_bits) == Some(f.to_bits()),
                    _ => return None,
                }
            }
        }
        (J::Arr(a), Value::Sequence(b)) => {
            let mut y = a.len() == b.len();
            for (p, q) in a.iter().zip(b) {
                y &= agrees(p, q)?;
            }
            y
        }
        (J::Obj(a), Value::Mapping(b)) => {
            let mut y = a.len() == b.len();
            for ((k, p), (l, q)) in a.iter().zip(b) {
                y &= l.as_str() == Some(k) && agrees(p, q)?;
            }
            y
        }
        _ => false,
    })
}
/// a number in it is aside
fn wide(j: &J) -> bool {
    match j {
        J::Num(t) => {
            if t.bytes().all(|c| c == b'-' || c.is_ascii_digit()) {
                !matches!(t.parse::<i128>(), Ok(n) if n <= u64::MAX as i128 && n >= i64::MIN as i128)
            } else {
                !matches!(t.parse::<f64>(), Ok(f) if f.is_finite())
            }
        }
        J::Arr(a) => a.iter().any(wide),
        J::Obj(a) => a.iter().any(|(_, x)| wide(x)),
        _ => false,
    }
}
fn read(t: &[u8]) {
    let j = match json(t) {
        Ok(j) => j,
        Err(_) => return reach(2),
    };
    if wide(&j) {
        return reach(3);
    }
    reach(1);
    check_reads(t, &j)
}
fn check_reads(t: &[u8], j: &J) {
    match serde_yaml::from_slice::<Value>(t) {
        Ok(v) => check(agrees(j, &v) != Some(false), 1),
        Err(_) => check(false, 2),
    }
}
/// white space
fn sp(t: &mut Vec<u8>, s: &str) {
    t.extend_from_slice(s.as_bytes())
}
/// the text of some JSON value of at most `*budget` nodes
fn gen(t: &mut Vec<u8>, budget: &mut usize, depth: usize, space: &str, key: &mut u8) -> J {
    *budget = budget.saturating_sub(1);
    match pick(if depth == 0 { 4 } else { 6 }) {
        0 => {
            let (s, j) = one(&[("null", 0), ("true", 1), ("false", 2)]);
            sp(t, s);
            match j { 0 => J::Null, 1 => J::Bool(true), _ => J::Bool(false) }
        }
        1 => {
            let s = one(&["0", "-7", "18446744073709551615", "-9223372036854775808", "1.5", "-0.25e1", "2E+3", "1e-2"]);
            sp(t, s);
            J::Num(s.to_owned())
        }
        2 => {
            let (s, j) = one(&[("\"\"", ""), ("\"null\"", "null"), ("\"1\"", "1"), ("\"[a, {b: c}]\"", "[a, {b: c}]")]);
            sp(t, s);
            J::Str(j.to_owned())
        }
        3 => {
            let (s, j) = one(&[("\"\\n\\u00e9\"", "\né"), ("\"\\\\\\/ # \"", "\\/ # "), ("\"é😀\"", "é😀")]);
            sp(t, s);
            J::Str(j.to_owned())
        }
        4 => {
            let mut v = Vec::new();
            sp(t, "[");
            sp(t, space);
            for i in 0..pick(3.min(*budget + 1)) {
                if i > 0 {
                    sp(t, ",");
                    sp(t, space);
                }
                v.push(gen(t, budget, depth - 1, space, key));
                sp(t, space);
            }
            sp(t, "]");
            J::Arr(v)
        }
        _ => {
            let mut v = Vec::new();
            sp(t, "{");
            sp(t, space);
            for i in 0..pick(3.min(*budget + 1)) {
                if i > 0 {
                    sp(t, ",");
                    sp(t, space);
                }
                *key += 1;
                let k = ["a", "~", "1", "x y", "", "<<", "true", "b"][*key as usize % 8];
                sp(t, "\"");
                sp(t, k);
                sp(t, if space.contains('\n') || space.contains('\r') { "\":" } else { "\" :" });
                sp(t, space);
                v.push((k.to_owned(), gen(t, budget, depth - 1, space, key)));
                sp(t, space);
            }
            sp(t, "}");
            J::Obj(v)
        }
    }
}
fn structure(budget: usize, depth: usize) {
    let space = one(&["", " ", "\n", "\r\n  ", "\t", "\n\t"]);
    let mut t = Vec::new();
    let out = one(&["", "\n ", "\r"]);
    sp(&mut t, out);
    let j = gen(&mut t, &mut { budget }, depth, space, &mut 0);
    sp(&mut t, out);
    observe(&t);
    check(matches!(json(&t), Ok(k) if k == j), 3);
    check_reads(&t, &j);
    reach(1)
}
fn string(t: &[u8]) {
    let mut d = Vec::new();
    let (a, b) = one(&[("\"", "\""), ("[\"x", "\"]"), ("{\"", "\": 1}"), ("{\"a\":\"", "\",\"b\":[]}")]);
    sp(&mut d, a);
    d.extend_from_slice(t);
    sp(&mut d, b);
    read(&d)
}
const JSON: &[u8] = b"[]{}\",: 1-";

harnesses! {
    //@ q reach=1,2 audit=64 pathz3=16 | every text of up to 6 of 10 JSON characters
    fn h_c29_text() {
        let b = text_in::<6>(JSON);
        let n = pick(7);
        read(&b[..n])
    }
    //@ q reach=1,2 audit=64 pathz3=16 | numbers: every text of up to 5 of 8 characters, alone, in an array and in an object
    fn h_c29_number() {
        let b = text_in::<5>(b"-+.eE019");
        let n = 1 + pick(5);
        let (p, s) = one(&[("", ""), ("[", "]"), ("{\"a\":", "}")]);
        let mut t = p.as_bytes().to_vec();
        t.extend_from_slice(&b[..n]);
        sp(&mut t, s);
        read(&t)
    }
    //@ q reach=1,2 audit=64 pathz3=16 | strings of 3 arbitrary ASCII bytes in 4 positions
    fn h_c29_string() {
        string(&ascii::<3>())
    }
    //@ q reach=1,2 audit=64 pathz3=16 | escapes: backslash and every 2 ASCII characters; \u and every 4 of 12 characters; 4 positions
    fn h_c29_escape() {
        let mut t = b"\\".to_vec();
        if flag() {
            t.extend_from_slice(&ascii::<2>())
        } else {
            t.push(b'u');
            t.extend_from_slice(&text_in::<4>(b"0179aAfFdDg8"))
        }
        string(&t)
    }
    //@ q reach=1 audit=64 pathz3=16 | strings with one raw code point below U+10000 that is printable and no line break, in 4 positions
    fn h_c29_unicode() {
        let c = (one(&[0u32, 1, 7, 8, 0x20, 0x2f, 0xd7, 0xe0, 0xff]) << 8) | byte() as u32;
        let c = match char::from_u32(c) { Some(c) => c, None => return check(false, 9) };
        assume(c >= ' ' && c != '\u{2028}' && c != '\u{2029}' && !('\x7f'..='\u{9f}').contains(&c) && c != '"' && c != '\\' && c < '\u{fffe}');
        let mut s = String::new();
        s.push(c);
        let mut d = String::new();
        let (a, b) = one(&[("\"", "\""), ("[\"x", "\"]"), ("{\"", "\": 1}"), ("{\"a\":\"", "\",\"b\":[]}")]);
        d.push_str(a);
        d.push(c);
        d.push_str(b);
        let j = match a { "\"" => J::Str(s), "[\"x" => { s.insert(0, 'x'); J::Arr(vec![J::Str(s)]) }, "{\"" => J::Obj(vec![(s, J::Num("1".to_owned()))]), _ => J::Obj(vec![("a".to_owned(), J::Str(s)), ("b".to_owned(), J::Arr(vec![]))]) };
        check_reads(d.as_bytes(), &j);
        reach(1)
    }
    //@ q reach=1 audit=64 pathz3=16 | values of up to 3 nodes x 6 kinds of white space inside x 3 outside
    fn h_c29_structure() {
        structure(3, 3)
    }
    //@ q reach=1,2 audit=64 pathz3=16 | white space: every 3 of 6 characters at 8 places of a document
    fn h_c29_space() {
        let b = text_in::<3>(b" \n\t\r,1");
        let at = pick(8);
        let mut t = Vec::new();
        for (i, p) in ["{", "\"a\"", ":", "[", "1", "]", "}", ""].iter().enumerate() {
            if i == at {
                t.extend_from_slice(&b)
            }
            sp(&mut t, p)
        }
        read(&t)
    }
    //@ q reach=1 audit=16 pathz3=4 | arrays and objects of 10 to 300 entries, nesting of 20 to 120, strings of 100 to 70000 characters, long numbers, around 2 of 5 characters
    fn h_c29_large() {
        let n = one(&[10usize, 16, 17, 32, 100, 120, 127, 128, 255, 256, 300]);
        let b = text_in::<2>(b" a1.:");
        let mut t = Vec::new();
        match pick(6) {
            0 => { t.push(b'['); for i in 0..n { if i > 0 { t.push(b',') } sp(&mut t, "\""); t.extend_from_slice(&b); sp(&mut t, &i.to_string()); sp(&mut t, "\"") } t.push(b']') }
            1 => { t.push(b'{'); for i in 0..n { if i > 0 { sp(&mut t, ",\n") } sp(&mut t, "\""); sp(&mut t, &i.to_string()); t.extend_from_slice(&b); sp(&mut t, "\":"); sp(&mut t, &i.to_string()) } t.push(b'}') }
            2 => { let n = n.min(120); for _ in 0..n { t.push(b'[') } sp(&mut t, "\""); t.extend_from_slice(&b); sp(&mut t, "\""); for _ in 0..n { t.push(b']') } }
            3 => { let n = n.min(120); for _ in 0..n { sp(&mut t, "{\"k\":") } sp(&mut t, "\""); t.extend_from_slice(&b); sp(&mut t, "\""); for _ in 0..n { t.push(b'}') } }
            4 => { let n = n * one(&[10, 100, 234]); sp(&mut t, "\"x"); for _ in 0..n / 2 { t.push(b'y') } t.extend_from_slice(&b); for _ in 0..n / 2 { t.push(b'z') } sp(&mut t, "\"") }
            _ => { sp(&mut t, "["); sp(&mut t, "0."); for _ in 0..n { sp(&mut t, "7") } sp(&mut t, ",1"); for _ in 0..n.min(40) { sp(&mut t, "0") } sp(&mut t, ".5,\""); t.extend_from_slice(&b); sp(&mut t, "\"]") }
        }
        read(&t)
    }
    //@ q reach=1 audit=32 pathz3=4 | long numbers: sign, 1 to 21 digits (every last digit), 5 fractions, 6 exponents; alone, in an array and in an object
    fn h_c29_long() {
        let sg = one(&["", "-"]);
        let d = one(&["", "1", "100000000000000000", "900719925474099", "922337203685477580", "1844674407370955161", "999999999999999999", "9999999999999999999"]);
        let l = byte_in(b"0123456789");
        let f = one(&["", ".0", ".5", ".00000000000000000000000001", ".99999999999999999999"]);
        let e = one(&["", "e0", "E+3", "e-3", "e308", "E-330"]);
        let (p, s) = one(&[("", ""), ("[", "]"), ("{\"a\":", "}")]);
        read(&[p.as_bytes(), sg.as_bytes(), d.as_bytes(), &[l], f.as_bytes(), e.as_bytes(), s.as_bytes()].concat())
    }
    //@ t reach=1,2 audit=256 pathz3=64 | every text of up to 8 of 10 JSON characters
    fn h_c29_text8() {
        let b = text_in::<8>(JSON);
        let n = pick(9);
        read(&b[..n])
    }
    //@ t reach=1,2 audit=256 pathz3=64 | every text of up to 6 of 20 JSON characters
    fn h_c29_text20() {
        let b = text_in::<6>(b"[]{}\",: \n\t1-.e0\\unrl");
        let n = pick(7);
        read(&b[..n])
    }
    //@ t reach=1 audit=256 pathz3=64 | values of up to 4 nodes x 6 kinds of white space inside x 3 outside
    fn h_c29_structure4() {
        structure(4, 3)
    }
    //@ t reach=1,2 audit=256 pathz3=64 | strings of 4 arbitrary ASCII bytes in 4 positions
    fn h_c29_string4() {
        string(&ascii::<4>())
    }
}

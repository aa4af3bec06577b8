//! C12: error locations lie in the input, line/column match the index, the message shows the same.
use crate::sym::*;
use crate::util::*;
use serde::de::DeserializeOwned;
use serde_yaml::Value;
use std::collections::BTreeMap;

/// 1-based line and column (in characters) of byte index `idx`; YAML line breaks are LF, CR, CRLF, NEL, LS, PS
fn line_col(b: &[u8], idx: usize) -> (usize, usize) {
    let (mut line, mut col, mut i) = (1, 1, 0);
    if b.starts_with(&[0xef, 0xbb, 0xbf]) {
        i = 3;
    }
    while i < idx {
        let c = b[i];
        let w = if c < 0x80 { 1 } else if c < 0xe0 { 2 } else if c < 0xf0 { 3 } else { 4 };
        let brk = match c {
            b'\n' => 1,
            b'\r' => if b.get(i + 1) == Some(&b'\n') && i + 1 < idx { 2 } else { 1 },
            0xc2 => if b.get(i + 1) == Some(&0x85) { 2 } else { 0 },
            0xe2 => if b.get(i + 1) == Some(&0x80) && matches!(b.get(i + 2), Some(0xa8 | 0xa9)) { 3 } else { 0 },
            _ => 0,
        };
        if brk > 0 {
            line += 1;
            col = 1;
            i += brk;
        } else {
            col += 1;
            i += w;
        }
    }
    (line, col)
}
fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
fn loc<T: DeserializeOwned>(b: &[u8]) {
    reach(1);
    let e = match serde_yaml::from_slice::<T>(b) {
        Ok(_) => return,
        Err(e) => e,
    };
    let l = match e.location() {
        Some(l) => l,
        // then the message shows none either
        None => return check(!contains(e.to_string().as_bytes(), b" at line "), 5),
    };
    observe(&[l.index() as u8, l.line() as u8, l.column() as u8]);
    check(l.index() <= b.len(), 1);
    let (mut line, mut col) = line_col(b, l.index());
    if l.index() == b.len() && col != 1 && l.line() == line + 1 {
        // at the end of the input a missing final line break is supplied
        (line, col) = (line + 1, 1);
    }
    check(line == l.line(), 2);
    check(col == l.column(), 3);
    if (line, col) != (1, 1) {
        let mut want = Buf::new();
        want.s(" at line ").s(&line.to_string()).s(" column ").s(&col.to_string());
        let m = e.to_string();
        check(contains(m.as_bytes(), &want.0), 4);
    }
    reach(2);
}
/// syntax errors placed after text with symbolic characters and line breaks
const ERR: &[Tpl] = &[
    ("", "\n- }"), ("- ", "\n- *x"), ("a", ": [}"), ("'", "\n' x: }"), ("\"", "\n \" ]"), ("|\n ", "\n@"), ("[a, ", "\n}"), ("{a: ", ", [}"), ("? ", "\n: @"), ("# ", "\n%"), ("a: ", "\n b: c"),
    ("---", "\n--- {"), ("\"\\", "\" }"), ("!", " a: b: c"), (">\n a\n", "\n b\n`"), ("- &", " b\n- *b"), ("%TAG ! ", "\n--- }"),
];

harnesses! {
    //@ q reach=1,2 audit=64 pathz3=8 | every failing input of 3 arbitrary bytes, target Value
    fn h_c12_any3() { loc::<Value>(&bytes::<3>()) }
    //@ q reach=1,2 audit=64 pathz3=8 | 17 contexts with an error after every 3 ASCII characters, target Value
    fn h_c12_err() { let (p, s) = one(ERR); let b = ascii::<3>(); loc::<Value>(&[p.as_bytes(), &b, s.as_bytes()].concat()) }
    //@ q reach=1,2 audit=64 pathz3=8 | 17 contexts with an error after every 2 arbitrary bytes (multi-byte characters, line breaks), target Value
    fn h_c12_err2() { loc::<Value>(&tdoc::<2>(ERR)) }
    //@ q reach=1,2 audit=64 pathz3=8 | type errors: Vec<i64>, map to bool, struct, enum, nested, after every 2 ASCII characters
    fn h_c12_typed() {
        let b = ascii::<2>();
        let w = |p: &str, s: &str| [p.as_bytes(), &b, s.as_bytes()].concat();
        match pick(7) {
            0 => loc::<Vec<i64>>(&w("- 1\n- ", "\n- x")),
            1 => loc::<BTreeMap<String, bool>>(&w("a: true\n", "b: false\nc: 1")),
            2 => loc::<Point>(&w("x: ", "\ny: []")),
            3 => loc::<Vec<E>>(&w("- !U\n- !I ", "\n- !T [1]")),
            4 => loc::<BTreeMap<String, Vec<i64>>>(&w("k: [1, ", "]\nj: [x]")),
            5 => loc::<Vec<Value>>(&w("- ", "\n- {a: 1, a: 2}")),
            _ => loc::<(i64, i64)>(&w("[1, ", ",\n 2, 3]")),
        }
    }
    //@ q reach=1,2 audit=64 pathz3=8 | a 3-byte character (incl. U+2028/2029, BOM) before an error
    fn h_c12_wide() {
        let u = bytes::<3>();
        assume(u[0] >= 0xe0 && std::str::from_utf8(&u).is_ok());
        let (p, s) = one(&[("", " a\n- }"), ("'", "' ]"), ("- \"", "\" }"), ("# ", "a\n]")]);
        loc::<Value>(&[p.as_bytes(), &u, s.as_bytes()].concat())
    }
    //@ q reach=1,2 audit=64 pathz3=8 | errors far from the start: after 255, 256, 257, 600 or 1100 lines, columns or commented characters, each with 2 ASCII characters before the error
    fn h_c12_far() {
        let n = [255, 256, 257, 600, 1100][pick(5)];
        let b = ascii::<2>();
        let mut d = Buf::new();
        match pick(4) {
            0 => { for _ in 0..n { d.s("#\n"); } d.s("a: ").b(&b).s("\n- ]"); }
            1 => { for _ in 0..n { d.s(" "); } d.s("[").b(&b).s(",\n }"); }
            2 => { d.s("# "); for _ in 0..n / 2 { d.s("\u{e9}"); } d.s("\n- '").b(&b).s("' ]"); }
            _ => { d.s("- '"); for _ in 0..n / 2 { d.s("\u{e9}"); } d.b(&b).s("' ]"); }
        }
        loc::<Value>(&d.0)
    }
    //@ q reach=1,2 audit=64 pathz3=8 | errors after 65534 to 65540 lines or columns, with an ASCII character before the error
    fn h_c12_wrap() {
        let n = 65534 + pick(7);
        let b = ascii::<1>();
        let mut d = Buf::new();
        let lines = flag();
        for _ in 0..n { d.s(if lines { "\n" } else { " " }); }
        d.s("[").b(&b).s(",\n }");
        loc::<Value>(&d.0)
    }
    //@ q reach=1,2 audit=64 pathz3=8 | unknown anchors, limits, duplicate keys and trailing documents after 2 ASCII characters: location and message agree
    fn h_c12_kinds() {
        let b = ascii::<2>();
        let s = one(&["\n- *a", "\n- [*a]", "\n- {*a : 1}", "\n- {x: 1, y: 2, x: 3}", "\n- {~: 1, ~: 2}", "\n--- a", "\n--- ]", "\n- &b *b", "\n- &b [*b]", "\n- !!int x", "\n- !t !u v", "\n- !", "\n- %", "\n- a: b: c"]);
        let d = [b"- " as &[u8], &b, s.as_bytes()].concat();
        match pick(3) { 0 => loc::<Value>(&d), 1 => loc::<Vec<Value>>(&d), _ => loc::<Vec<BTreeMap<String, Value>>>(&d) }
    }
    //@ q reach=1,2 audit=64 pathz3=8 | Debug form of errors: 17 syntax contexts and 9 type errors after an ASCII character: the same line and column as location()
    fn h_c12_debug() {
        let c = [byte_in(b"a \n\r'1:x\t-")];
        let (d, e) = if flag() {
            let (p, s) = one(ERR);
            let d = [p.as_bytes(), &c, s.as_bytes()].concat();
            let e = serde_yaml::from_slice::<Value>(&d).err();
            (d, e)
        } else {
            let k = pick(9) as usize;
            let (p, s) = [("- ", "x\n- []\n"), ("a", "c: 1\n"), ("x: ", "1\ny: []\n"), ("", "1: 2\n"), ("- - ", "1\n  - {}\n"), ("'", "'"), ("   ", "[a]"), ("? ", "a\n? ", ), ("[1, ", "z]")][k];
            let d = [p.as_bytes(), &c, s.as_bytes()].concat();
            let e = match k {
                0 | 8 => serde_yaml::from_slice::<Vec<i64>>(&d).err(),
                1 | 3 => serde_yaml::from_slice::<BTreeMap<String, bool>>(&d).err(),
                2 => serde_yaml::from_slice::<Point>(&d).err(),
                4 => serde_yaml::from_slice::<Vec<Vec<u8>>>(&d).err(),
                5 => serde_yaml::from_slice::<E>(&d).err(),
                _ => serde_yaml::from_slice::<bool>(&d).err(),
            };
            (d, e)
        };
        reach(1);
        let e = match e { Some(e) => e, None => return };
        let l = match e.location() { Some(l) => l, None => return };
        check(l.index() <= d.len(), 1);
        if l.line() == 1 && l.column() == 1 {
            return;
        }
        let mut want = Buf::new();
        want.s("line: ").s(&l.line().to_string()).s(", column: ").s(&l.column().to_string());
        let m = format!("{:?}", e);
        check(contains(m.as_bytes(), &want.0), 6);
        reach(2);
    }
    //@ t reach=1,2 audit=1024 pathz3=64 | every failing input of 4 arbitrary bytes, target Value
    fn h_c12_any4() { loc::<Value>(&bytes::<4>()) }
    //@ t reach=1,2 audit=1024 pathz3=64 | every failing input of 6 YAML characters, target Value
    fn h_c12_yaml6() { loc::<Value>(&text_in::<6>(YAML2)) }
    //@ t reach=1,2 audit=1024 pathz3=64 | 17 contexts with an error after every 3 arbitrary bytes, target Value
    fn h_c12_err3() { loc::<Value>(&tdoc::<3>(ERR)) }
}

//! C07: quoted and block scalars are strings; explicit tags decide the type.
use crate::sym::*;
use crate::util::*;
use serde_yaml::Value;

fn printable<const N: usize>(not: &[u8]) -> [u8; N] {
    let b = bytes::<N>();
    for c in b {
        assume(c >= 0x20 && c < 0x7f && !not.contains(&c));
    }
    b
}
fn doc(p: &[u8], b: &[u8], s: &[u8]) -> Vec<u8> {
    [p, b, s].concat()
}
fn is_str(v: &Value, w: &[u8]) -> bool {
    match v {
        Value::String(s) => same(s.as_bytes(), w),
        _ => false,
    }
}
/// `d` must read as the string `w`, untyped and as String, and as nothing else
fn string(d: &[u8], w: &[u8]) {
    match serde_yaml::from_slice::<Value>(d) {
        Ok(v) => {
            observe(&[1]);
            check(is_str(&v, w), 1)
        }
        Err(_) => check(false, 2),
    }
    match serde_yaml::from_slice::<String>(d) {
        Ok(s) => check(same(s.as_bytes(), w), 3),
        Err(_) => check(false, 4),
    }
    match serde_yaml::from_slice::<Option<String>>(d) {
        Ok(Some(s)) => check(same(s.as_bytes(), w), 5),
        _ => check(false, 6),
    }
    reach(1);
}
fn not_other(d: &[u8]) {
    observe(&[0]);
    check(serde_yaml::from_slice::<i64>(d).is_err(), 10);
    check(serde_yaml::from_slice::<u64>(d).is_err(), 11);
    check(serde_yaml::from_slice::<f64>(d).is_err(), 12);
    check(serde_yaml::from_slice::<bool>(d).is_err(), 13);
    check(serde_yaml::from_slice::<()>(d).is_err(), 14);
    check(serde_yaml::from_slice::<i128>(d).is_err(), 15);
    check(serde_yaml::from_slice::<Vec<u8>>(d).is_err(), 16);
    check(serde_yaml::from_slice::<std::collections::BTreeMap<String, String>>(d).is_err(), 17);
    reach(1);
}
const KEYWORDS: &[&[u8]] = &[b"", b"~", b"null", b"true", b"FALSE", b"1", b"-7", b"0x1f", b"0b1", b"1.5", b".inf", b"-.Inf", b".nan", b"007", b"1e3", b"18446744073709551616", b"a b", b"<<", b"- x", b"!t"];

/// a character as a string, where untagged it would be `plain`
fn tagged(tag: &[u8], x: &[u8]) -> Result<Value, serde_yaml::Error> {
    serde_yaml::from_slice::<Value>(&doc(b"- ", &doc(tag, b" ", x), b"\n")).map(|v| match v {
        Value::Sequence(mut s) => {
            check(s.len() == 1, 90);
            s.pop().unwrap()
        }
        _ => {
            check(false, 91);
            Value::Null
        }
    })
}
/// core tag `k` on content `x` (plain, single- or double-quoted)
fn core(k: usize, tag: &[u8], x: &[u8], style: usize) {
    let q: &[u8] = [b"" as &[u8], b"'", b"\""][style];
    let r = tagged(tag, &doc(q, x, q));
    observe(&[r.is_ok() as u8]);
    let v = match r {
        Ok(v) => v,
        Err(_) => {
            // !!str accepts everything
            check(k != 4, 20);
            if style == 0 {
                // what the schema resolves to that type is accepted under the tag
                let u = tagged(b"", x);
                if let Ok(u) = u {
                    check(
                        match k {
                            0 => !u.is_i64() && !u.is_u64(),
                            1 => !u.is_f64(),
                            2 => !u.is_bool(),
                            _ => x.is_empty() || !u.is_null(),
                        },
                        21,
                    );
                }
            }
            return reach(1);
        }
    };
    check(
        match k {
            0 => v.is_i64() || v.is_u64(),
            1 => v.is_f64(),
            2 => v.is_bool(),
            3 => v.is_null(),
            _ => is_str(&v, x),
        },
        22,
    );
    if k < 4 {
        // same value as the untagged plain scalar, when that has the type
        if let Ok(u) = tagged(b"", x) {
            let same_kind = match k {
                0 => u.is_i64() || u.is_u64(),
                1 => u.is_f64(),
                2 => u.is_bool(),
                _ => u.is_null(),
            };
            if same_kind {
                check(u == v, 23);
            }
        }
    }
    reach(1);
}
const CORE: &[&[u8]] = &[b"!!int", b"!!float", b"!!bool", b"!!null", b"!!str"];
const VERBATIM: &[&[u8]] = &[b"!<tag:yaml.org,2002:int>", b"!<tag:yaml.org,2002:float>", b"!<tag:yaml.org,2002:bool>", b"!<tag:yaml.org,2002:null>", b"!<tag:yaml.org,2002:str>"];

fn local(name: &[u8], style: usize, x: &[u8]) {
    let t = doc(b"!", name, b"");
    let (p, s): (&[u8], &[u8]) = [(b"" as &[u8], b"" as &[u8]), (b"'", b"'"), (b"\"", b"\""), (b"|-\n  ", b""), (b"[", b"]"), (b"{k: ", b"}")][style];
    let inner = doc(p, x, s);
    let got = tagged(&t, &inner);
    let bare = tagged(b"", &inner);
    observe(&[got.is_ok() as u8]);
    match (got, bare) {
        (Ok(Value::Tagged(t)), Ok(u)) => {
            check(t.tag == str_of(name), 30);
            check(t.value == u, 31);
            let shown = t.tag.to_string();
            check(shown.len() == name.len() + 1 && same(&shown.as_bytes()[1..], name), 32);
        }
        (Err(_), Err(_)) => {}
        _ => check(false, 33),
    }
    reach(1);
}
fn names<const N: usize>() -> [u8; N] {
    let b = bytes::<N>();
    for c in b {
        assume(c.is_ascii_alphanumeric() || c == b'-' || c == b'_' || c == b'.');
    }
    b
}

harnesses! {
    //@ q reach=1 audit=64 pathz3=8 | single-quoted: every 7 printable ASCII characters
    fn h_c07_single() { let b = printable::<7>(b"'"); let d = doc(b"'", &b, b"'"); string(&d, &b) }
    //@ q reach=1 audit=64 pathz3=8 | double-quoted: every 7 printable ASCII characters
    fn h_c07_double() { let b = printable::<7>(b"\"\\"); let d = doc(b"\"", &b, b"\""); string(&d, &b) }
    //@ q reach=1 audit=64 pathz3=8 | literal and folded block, three chomping modes: every 6 printable ASCII characters
    fn h_c07_block() {
        let b = printable::<6>(b"");
        assume(b[0] != b' ');
        let (h, t): (&[u8], &[u8]) = one(&[(b"|\n  ", b"\n"), (b">\n  ", b"\n"), (b"|-\n ", b""), (b">-\n ", b""), (b"|+\n ", b"\n"), (b">+\n ", b"\n")]);
        let d = doc(h, &b, b"\n");
        string(&d, &doc(&b, t, b""))
    }
    //@ q reach=1 | number, bool and null look-alikes in every quoting style are strings, untyped and typed
    fn h_c07_words() {
        let w = one(KEYWORDS);
        let d = match pick(4) { 0 => doc(b"'", w, b"'"), 1 => doc(b"\"", w, b"\""), 2 => doc(b"|-\n  ", w, b"\n"), _ => doc(b">-\n  ", w, b"\n") };
        string(&d, w);
        not_other(&d);
    }
    //@ q reach=1 audit=64 pathz3=8 | quoted scalars are refused by integer, float, bool, unit and collection types: every 4 printable characters, 4 styles
    fn h_c07_typed() {
        let d = match pick(4) {
            0 => doc(b"'", &printable::<4>(b"'"), b"'"),
            1 => doc(b"\"", &printable::<4>(b"\"\\"), b"\""),
            2 => { let b = printable::<4>(b" "); doc(b"|\n  ", &b, b"\n") }
            _ => { let b = printable::<4>(b" "); doc(b">-\n  ", &b, b"\n") }
        };
        not_other(&d)
    }
    //@ q reach=1 audit=64 pathz3=8 | core tags in both spellings x 3 scalar styles x every 2 characters of numbers and words
    fn h_c07_core() {
        let k = pick(5);
        let t = if flag() { CORE[k] } else { VERBATIM[k] };
        core(k, t, &text_in::<2>(b"019-+.xeanfT_~"), pick(3))
    }
    //@ q reach=1 | core tags x 3 styles x 20 keywords and numbers
    fn h_c07_corewords() { let k = pick(5); let s = pick(3); let x = one(&KEYWORDS[..17]); core(k, CORE[k], x, s) }
    //@ q reach=1 audit=64 pathz3=8 | local tags of 2 symbolic characters x 6 node styles x 6 contents: delivered with tag and the untagged value
    fn h_c07_local() { let n = names::<2>(); local(&n, pick(6), one(&[b"x" as &[u8], b"1", b"~", b"true", b"", b"1.5"])) }
    //@ q reach=1 audit=64 pathz3=8 | a local tag on every 2 plain characters
    fn h_c07_local2() {
        let x = text_in::<2>(b"019-+.xeanfT_~ b");
        // "- " and a leading or trailing space are not plain scalar content
        assume(x[0] != b' ' && x[1] != b' ');
        local(b"t", pick(3), &x)
    }
    //@ q reach=1 | tag directives: named handles expand to the prefix
    fn h_c07_directive() {
        let n = names::<1>();
        let d = doc(b"%TAG !e! !p-\n--- !e!", &n, b" x\n");
        match serde_yaml::from_slice::<Value>(&d) {
            Ok(Value::Tagged(t)) => {
                let s = t.tag.to_string();
                observe(s.as_bytes());
                check(same(s.as_bytes(), &doc(b"!p-", &n, b"")) && is_str(&t.value, b"x"), 40);
            }
            _ => check(false, 41),
        }
        reach(1);
    }
    //@ q reach=1,2 audit=64 pathz3=16 | 5 scalar styles x 9 tags (core in both spellings, local, none) x 22 contents, read as 14 types: only a plain scalar, or a literal block with the type's own core tag, is anything but a string
    fn h_c07_matrix() {
        let style = pick(5);
        let tag = pick(9);
        let x = one(&["", "~", "null", "true", "FALSE", "1", "-7", "300", "0x1f", "1.5", "1e3", ".inf", ".nan", "007", "18446744073709551616", "a", "a b", "x: y", "- 1", "[1]", "yes", "!t 1"]);
        // block scalars of nothing and plain scalars that are no scalars
        assume(style != 0 || !matches!(x, "x: y" | "- 1" | "[1]" | "!t 1") && !(x.is_empty() && tag == 8));
        assume(style < 3 || !x.is_empty());
        let t = ["!!int ", "!!float ", "!!bool ", "!!null ", "!!str ", "!<tag:yaml.org,2002:int> ", "!<tag:yaml.org,2002:str> ", "!t ", ""][tag];
        let tk = [0, 1, 2, 3, 4, 0, 4, 5, 6][tag];
        let d = match style { 0 => [t, x, "\n"].concat(), 1 => [t, "'", x, "'\n"].concat(), 2 => [t, "\"", x, "\"\n"].concat(), 3 => [t, "|-\n  ", x, "\n"].concat(), _ => [t, ">-\n  ", x, "\n"].concat() };
        let d = if flag() { d } else { ["- ", &d].concat() };
        let elem = d.starts_with("- ");
        fn read<T: serde::de::DeserializeOwned>(d: &str, elem: bool) -> Option<T> {
            if elem { serde_yaml::from_str::<[T; 1]>(d).ok().map(|[x]| x) } else { serde_yaml::from_str(d).ok() }
        }
        macro_rules! scalar {
            ($($t:ty, $k:expr;)*) => { $(
                let r = read::<$t>(&d, elem);
                observe(&[r.is_some() as u8]);
                if style == 0 {
                    // as without the tag, or an error when the tag is another
                    check(r == read::<$t>(&if elem { ["- ", x, "\n"].concat() } else { [x, "\n"].concat() }, elem) || x == ".nan" || x.is_empty() || tk != $k && tk != 6 && r.is_none(), 50);
                } else if style == 3 && tk == $k && $k < 3 && x != "!t 1" {
                    check(r == read::<$t>(&[x, "\n"].concat(), false) || x == ".nan" || elem && r == read::<$t>(&["- ", x, "\n"].concat(), true), 51);
                } else {
                    check(r.is_none(), 52);
                }
            )* };
        }
        scalar!(i64, 0; u64, 0; u8, 0; i128, 0; u128, 0; f64, 1; f32, 1; bool, 2; (), 3;);
        let s = read::<String>(&d, elem);
        if tk == 4 || tk >= 6 && style != 0 {
            check(s.as_deref() == Some(x), 53);
            check(read::<Option<String>>(&d, elem) == Some(Some(x.to_owned())), 54);
            let c = x.chars().next().filter(|_| x.len() == 1);
            check(read::<char>(&d, elem) == c, 55);
            check(read::<Value>(&d, elem) == Some(Value::from(x)), 56);
            reach(1)
        } else {
            check(s.is_none() || s.as_deref() == Some(x), 57);
            if tk == 5 && x.len() < 20 {
                check(matches!(read::<Value>(&d, elem), Some(Value::Tagged(t)) if t.tag == "t" && (style == 0 || t.value == Value::from(x))), 58);
            }
            reach(2)
        }
    }
    //@ t reach=1 audit=1024 pathz3=64 | single- and double-quoted: every 12 printable ASCII characters
    fn h_c07_quoted12() { if flag() { let b = printable::<12>(b"'"); string(&doc(b"'", &b, b"'"), &b) } else { let b = printable::<12>(b"\"\\"); string(&doc(b"\"", &b, b"\""), &b) } }
    //@ t reach=1 audit=1024 pathz3=64 | core tags in both spellings x 3 scalar styles x every 3 characters of numbers and words
    fn h_c07_core3() {
        let k = pick(5);
        let t = if flag() { CORE[k] } else { VERBATIM[k] };
        core(k, t, &text_in::<3>(b"019-+.xeanfT_~"), pick(3))
    }
}

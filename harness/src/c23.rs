//! C23: borrowed strings equal owned strings and lie within the input.
use crate::sym::*;
use crate::util::*;
use serde::Deserialize;
use std::collections::BTreeMap;

fn inside(doc: &str, s: &str) -> bool {
    let (a, b) = (doc.as_ptr() as usize, s.as_ptr() as usize);
    s.is_empty() || (b >= a && b + s.len() <= a + doc.len())
}
/// compares a borrowing read with the owned read of the same shape
fn strs(doc: &str, got: Option<Vec<&str>>, owned: Option<Vec<String>>) {
    observe(&[got.is_some() as u8, owned.is_some() as u8]);
    reach(1);
    if let Some(got) = got {
        match owned {
            None => check(false, 1),
            Some(o) => {
                check(o.len() == got.len(), 2);
                for (g, o) in got.iter().zip(&o) {
                    check(same(g.as_bytes(), o.as_bytes()), 3);
                    check(inside(doc, g), 4);
                }
            }
        }
        reach(2);
    }
}
/// owned strings: read from the text, and by a reader, which never borrows
fn owned<T: serde::de::DeserializeOwned + PartialEq>(doc: &str) -> Option<T> {
    let r = serde_yaml::from_reader::<_, T>(doc.as_bytes()).ok();
    check(serde_yaml::from_str::<T>(doc).ok() == r, 5);
    r
}
fn one_str(doc: &str) {
    strs(doc, serde_yaml::from_str::<&str>(doc).ok().map(|s| vec![s]), owned::<String>(doc).map(|s| vec![s]))
}
fn list(doc: &str) {
    strs(doc, serde_yaml::from_str::<Vec<&str>>(doc).ok(), owned::<Vec<String>>(doc))
}
fn map(doc: &str) {
    strs(
        doc,
        serde_yaml::from_str::<BTreeMap<&str, &str>>(doc).ok().map(|m| m.into_iter().flat_map(|(k, v)| [k, v]).collect()),
        owned::<BTreeMap<String, String>>(doc).map(|m| m.into_iter().flat_map(|(k, v)| [k, v]).collect()),
    )
}
#[derive(Deserialize)]
struct B<'a> {
    #[serde(borrow)]
    k: Option<&'a str>,
}
#[derive(Deserialize, PartialEq)]
struct O {
    k: Option<String>,
}
#[derive(Deserialize)]
enum BE<'a> {
    N(&'a str),
}
#[derive(Deserialize, PartialEq)]
enum OE {
    N(String),
}
fn text(b: &[u8]) -> &str {
    str_of(b)
}
const SCALAR: &[Tpl] = &[
    ("", ""), ("'", "'"), ("\"", "\""), ("|\n ", ""), (">\n ", ""), ("a", "b"), ("&x ", ""), ("!!str ", ""), ("! '", "'"), (" ", " # c"), ("--- ", "\n..."), ("\"\\", "\""),
    ("a ", "\n b"), ("'a", "'"), ("\u{e9}", ""), ("\"a\\\n ", "\""), ("%YAML 1.1\n--- ", ""), ("'\u{e9}", "'"),
];

harnesses! {
    //@ q reach=1,2 audit=64 pathz3=8 | &str of every UTF-8 document of 3 bytes
    fn h_c23_any3() { let b = bytes::<3>(); one_str(text(&b)) }
    //@ q reach=1,2 audit=64 pathz3=8 | &str in 18 scalar contexts (styles, anchors, tags, comments, continuation lines) x every 3 ASCII characters
    fn h_c23_scalar() { let (p, s) = one(SCALAR); let b = ascii::<3>(); let d = [p.as_bytes(), &b, s.as_bytes()].concat(); one_str(text(&d)) }
    //@ q reach=1,2 audit=64 pathz3=8 | Vec<&str> with quoting, anchors and aliases x every 2 ASCII characters
    fn h_c23_list() {
        let (p, s) = one(&[("- ", "\n- b"), ("[a, ", "]"), ("- &a ", "\n- *a"), ("- '", "'\n- c"), ("[\"", "\", c]"), ("- a\n- ", ""), ("- |\n  ", "\n- x"), ("- \u{e9}\n- ", " "), ("['a''", "']")]);
        let b = ascii::<2>();
        let d = [p.as_bytes(), &b, s.as_bytes()].concat();
        list(text(&d))
    }
    //@ q reach=1,2 audit=64 pathz3=8 | BTreeMap<&str, &str> x every 2 ASCII characters as key or value
    fn h_c23_map() {
        let (p, s) = one(&[("a: ", ""), ("", ": b"), ("{a: ", "}"), ("{'", "': \"x\"}"), ("? ", "\n: b"), ("&k a: ", "\n*k : x"), ("\"", "\": |\n  t"), ("a: &v ", "\nb: *v")]);
        let b = ascii::<2>();
        let d = [p.as_bytes(), &b, s.as_bytes()].concat();
        map(text(&d))
    }
    //@ q reach=1,2 audit=64 pathz3=8 | borrowed Option<&str> field and borrowed enum payload x every 2 ASCII characters
    fn h_c23_fields() {
        let b = ascii::<2>();
        if flag() {
            let (p, s) = one(&[("k: ", ""), ("{k: '", "'}"), ("k: !!str ", ""), ("k: \"", "\"")]);
            let d = [p.as_bytes(), &b, s.as_bytes()].concat();
            let d = text(&d);
            strs(d, serde_yaml::from_str::<B>(d).ok().map(|x| x.k.into_iter().collect()), owned::<O>(d).map(|x| x.k.into_iter().collect()))
        } else {
            let (p, s) = one(&[("!N ", ""), ("!N '", "'"), ("!N \"", "\"")]);
            let d = [p.as_bytes(), &b, s.as_bytes()].concat();
            let d = text(&d);
            strs(d, serde_yaml::from_str::<BE>(d).ok().map(|BE::N(x)| vec![x]), owned::<OE>(d).map(|OE::N(x)| vec![x]))
        }
    }
    //@ q reach=1,2 audit=16 pathz3=4 | &str at offsets 254, 255, 256, 4096, 16383 and 65535 of the document, after ASCII or 2-byte characters, and of such lengths, x 2 of 10 characters
    fn h_c23_far() {
        let n = one(&[254usize, 255, 256, 4096, 16383, 65535]);
        let b = text_in::<2>(b"a' \n:\\\"#,]");
        let (head, fill, mid, tail) = one(&[("#", "x", "\na", ""), ("#", "\u{e9}", "\n'a", "'"), ("[a, ", "b", "', '", "']"), ("", "\n", "", " "), ("", "b", "", ""), ("'", "\u{e9}", "", "'"), ("- ", "b", "\n- a", "c")]);
        let mut d = head.as_bytes().to_vec();
        while d.len() < n { d.extend_from_slice(fill.as_bytes()) }
        let d = [&d, mid.as_bytes(), &b, tail.as_bytes()].concat();
        if head == "[a, " || head == "- " { list(text(&d)) } else { one_str(text(&d)) }
    }
    //@ t reach=1,2 audit=1024 pathz3=64 | &str of every UTF-8 document of 4 bytes
    fn h_c23_any4() { let b = bytes::<4>(); one_str(text(&b)) }
    //@ t reach=1,2 audit=1024 pathz3=64 | &str in 18 scalar contexts x every 4 YAML characters
    fn h_c23_scalar4() { let d = tdoc_in::<4>(SCALAR, YAML); one_str(text(&d)) }
}

//! C11: nesting and alias expansion are bounded by errors, and only beyond the limit.
use crate::sym::*;
use crate::util::*;
use serde::de::IgnoredAny;
use serde::Deserialize;
use serde_yaml::Value;
use std::collections::BTreeMap;

/// flow document of `depth` nested collections; level kinds are chosen for the outermost two and the innermost
fn nest(depth: usize) -> Vec<u8> {
    let k = [pick(3), pick(3), pick(3)];
    let kind = |i: usize| if i == 0 { k[0] } else if i + 1 == depth { k[2] } else { k[1] };
    let mut t = Vec::with_capacity(depth * 10);
    for i in 0..depth {
        t.extend_from_slice(match kind(i) {
            0 => b"[",
            1 => b"{a: ",
            _ => b"!t [",
        });
    }
    t.push(byte_in(b"x1~"));
    for i in (0..depth).rev() {
        t.extend_from_slice(if kind(i) == 1 { b"}" } else { b"]" });
    }
    t
}
fn limit_error<T>(r: &Result<T, serde_yaml::Error>) -> bool {
    match r {
        Ok(_) => false,
        Err(e) => e.to_string().contains("recursion limit exceeded"),
    }
}
fn rep_error<T>(r: &Result<T, serde_yaml::Error>) -> bool {
    match r {
        Ok(_) => false,
        Err(e) => e.to_string().contains("repetition limit exceeded"),
    }
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Rec {
    #[serde(default)]
    a: Option<Box<Rec>>,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
enum RecE {
    A(Box<RecE>),
    L(Vec<RecE>),
    U,
}
const DEPTH: &[usize] = &[1, 2, 3, 31, 64, 100, 126, 127, 128, 129, 130, 160, 200];

harnesses! {
    //@ q reach=1,2 | Value: 13 depths around and beyond the limit x 27 mixtures of sequence, mapping, tagged sequence
    fn h_c11_value() {
        let d = one(DEPTH);
        let t = nest(d);
        let r = serde_yaml::from_slice::<Value>(&t);
        observe(&[r.is_ok() as u8]);
        if d <= 127 { check(r.is_ok(), 1); reach(1) }
        if d > 128 { check(limit_error(&r), 2); reach(2) }
    }
    //@ q reach=1,2 | IgnoredAny never hits the limit or the stack; recursive struct, enum and Vec do at the limit
    fn h_c11_typed() {
        let d = one(DEPTH);
        let mut t = Vec::new();
        match pick(3) {
            0 => {
                let t = nest(d);
                let r = serde_yaml::from_slice::<IgnoredAny>(&t);
                observe(&[r.is_ok() as u8]);
                check(r.is_ok() || (d > 128 && limit_error(&r)), 3);
                return;
            }
            1 => {
                for _ in 0..d { t.extend_from_slice(b"{a: "); }
                t.extend_from_slice(b"~");
                for _ in 0..d { t.extend_from_slice(b"}"); }
                let r = serde_yaml::from_slice::<Rec>(&t);
                observe(&[r.is_ok() as u8]);
                if d <= 127 { check(r.is_ok(), 4); reach(1) }
                if d > 128 { check(limit_error(&r), 5); reach(2) }
                std::mem::forget(r);
            }
            _ => {
                for _ in 0..d { t.extend_from_slice(b"!L ["); }
                t.extend_from_slice(b"U");
                for _ in 0..d { t.extend_from_slice(b"]"); }
                let r = serde_yaml::from_slice::<RecE>(&t);
                observe(&[r.is_ok() as u8]);
                if d <= 60 { check(r.is_ok(), 6); reach(1) }
                if d > 128 { check(limit_error(&r), 7); reach(2) }
                std::mem::forget(r);
            }
        }
    }
    //@ q reach=1 | depth is restored: siblings after deep nodes, deep nodes in sequence, in keys, via aliases
    fn h_c11_siblings() {
        let d = one(&[1usize, 60, 120]);
        let mut inner = Vec::new();
        for _ in 0..d { inner.push(b'['); }
        for _ in 0..d { inner.push(b']'); }
        let k = pick(4);
        let t = match k {
            0 => [b"- ", &inner[..], b"\n- ", &inner[..], b"\n- ", &inner[..], b"\n"].concat(),
            1 => [b"? ", &inner[..], b"\n: ", &inner[..], b"\nb: ", &inner[..], b"\n"].concat(),
            2 => [b"- &a ", &inner[..], b"\n- *a\n- [*a, *a]\n"].concat(),
            _ => [b"- !t ", &inner[..], b"\n- !u ", &inner[..], b"\n"].concat(),
        };
        let r = serde_yaml::from_slice::<Value>(&t);
        observe(&[r.is_ok() as u8]);
        check(r.is_ok(), 8);
        reach(1);
    }
    //@ q reach=1,2 steps=400000000 | alias graphs: 2 to 6 levels, each level lists the previous one 1 to 9 times
    fn h_c11_alias() {
        let levels = 2 + pick(5);
        let k = one(&[1usize, 2, 3, 6, 9]);
        let mut t = b"- &l0 x\n".to_vec();
        let mut events = 4u64;
        let mut jumps = 0u64;
        let mut size = 1u64;
        let mut per = 0u64; // jumps needed to read level i once
        for l in 1..=levels {
            t.extend_from_slice(b"- &l");
            t.push(b'0' + l as u8);
            t.extend_from_slice(b" [");
            for _ in 0..k {
                t.extend_from_slice(b"*l");
                t.push(b'0' + (l - 1) as u8);
                t.extend_from_slice(b" , ");
            }
            t.extend_from_slice(b"]\n");
            events += 2 + k as u64;
            per = k as u64 * (1 + per);
            size = 1 + k as u64 * size;
            jumps += per;
        }
        let r = serde_yaml::from_slice::<Value>(&t);
        observe(&[r.is_ok() as u8]);
        // a document that does not expand much is accepted, one that explodes is refused
        if jumps <= events * 20 { check(r.is_ok(), 9); reach(1) }
        if jumps > events * 400 { check(rep_error(&r), 10); reach(2) }
        if r.is_err() { check(rep_error(&r), 11) }
    }
    //@ q reach=1 | documents without aliases never give the repetition error: wide and deep mixtures of 1 to 400 nodes
    fn h_c11_noalias() {
        let n = one(&[1usize, 10, 150, 400]);
        let k = pick(4);
        let mut t = Vec::new();
        for i in 0..n {
            t.extend_from_slice(match k { 0 => b"- &a x\n" as &[u8], 1 => b"- [[a], {b: c}]\n", 2 => b"- !t &b {? [x] : y}\n", _ => if i % 2 == 0 { b"- ~\n" } else { b"- []\n" } });
        }
        let r = serde_yaml::from_slice::<Vec<Value>>(&t);
        observe(&[r.is_ok() as u8]);
        check(r.map_or(0, |v| v.len()) == n, 12);
        reach(1);
    }
    //@ q reach=1 | a node may be aliased many times: 1 to 90 references to one anchor, also as keys of maps
    fn h_c11_many() {
        let n = one(&[1usize, 5, 90]);
        let m = flag();
        let mut t = b"- &a [x]\n".to_vec();
        for _ in 0..n { t.extend_from_slice(if m { b"- {*a : *a}\n" as &[u8] } else { b"- *a\n" }); }
        let r = serde_yaml::from_slice::<Vec<Value>>(&t);
        observe(&[r.is_ok() as u8]);
        check(r.map_or(0, |v| v.len()) == n + 1, 13);
        let r = serde_yaml::from_slice::<Vec<IgnoredAny>>(&t);
        check(r.map_or(0, |v| v.len()) == n + 1, 14);
        let _: Option<BTreeMap<String, String>> = None;
        reach(1);
    }
    //@ t reach=1,2 | Value: depths 120 to 136 x 27 mixtures
    fn h_c11_value_t() {
        let d = 120 + pick(17);
        let t = nest(d);
        let r = serde_yaml::from_slice::<Value>(&t);
        observe(&[r.is_ok() as u8]);
        if d <= 127 { check(r.is_ok(), 1); reach(1) }
        if d > 128 { check(limit_error(&r), 2); reach(2) }
    }
}

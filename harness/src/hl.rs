//! Heterogeneous lists (HLists.tla, HUnion.tla).

use crate::j::tool_error;
use crate::Found;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wot_td::hlist::{Cons, HListMut, HListRef, Nil, NonEmptyHList};

/// An element: not `Copy`, tells where it comes from.
#[derive(Debug, Clone, PartialEq)]
struct E(String);

type L0 = Nil;
type L1 = Cons<E, L0>;
type L2 = Cons<E, L1>;
type L3 = Cons<E, L2>;
type L4 = Cons<E, L3>;
type L5 = Cons<E, L4>;
type L6 = Cons<E, L5>;

enum List {
    N0(L0),
    N1(L1),
    N2(L2),
    N3(L3),
    N4(L4),
    N5(L5),
    N6(L6),
}
use List::*;

/// The elements, first to last, through the public fields only.
trait Items {
    fn items(&self, out: &mut Vec<String>);
}
impl Items for Nil {
    fn items(&self, _: &mut Vec<String>) {}
}
impl<U: Items> Items for Cons<E, U> {
    fn items(&self, out: &mut Vec<String>) {
        out.push(self.head.0.clone());
        self.tail.items(out);
    }
}
impl<U: Items> Items for Cons<&E, U> {
    fn items(&self, out: &mut Vec<String>) {
        out.push(self.head.0.clone());
        self.tail.items(out);
    }
}
fn items(l: &impl Items) -> Vec<String> {
    let mut v = vec![];
    l.items(&mut v);
    v
}

/// Writes the i-th element (from 1) of a view.
trait Put {
    fn put(self, i: usize, v: &str);
}
impl Put for Nil {
    fn put(self, _: usize, _: &str) {
        tool_error("position")
    }
}
impl<U: Put> Put for Cons<&mut E, U> {
    fn put(self, i: usize, v: &str) {
        if i == 1 {
            self.head.0 = v.into();
        } else {
            self.tail.put(i - 1, v);
        }
    }
}

macro_rules! nonempty {
    ($l:expr, $x:ident => $e:expr) => {
        match $l {
            N0(_) => tool_error("an operation on an empty list"),
            N1($x) => $e,
            N2($x) => $e,
            N3($x) => $e,
            N4($x) => $e,
            N5($x) => $e,
            N6($x) => $e,
        }
    };
}
macro_rules! shrink {
    ($l:expr, $x:ident => $e:expr) => {
        match $l {
            N0(_) => tool_error("an operation on an empty list"),
            N1($x) => {
                let (a, b) = $e;
                (a, N0(b))
            }
            N2($x) => {
                let (a, b) = $e;
                (a, N1(b))
            }
            N3($x) => {
                let (a, b) = $e;
                (a, N2(b))
            }
            N4($x) => {
                let (a, b) = $e;
                (a, N3(b))
            }
            N5($x) => {
                let (a, b) = $e;
                (a, N4(b))
            }
            N6($x) => {
                let (a, b) = $e;
                (a, N5(b))
            }
        }
    };
}

fn step(l: List, op: &str, i: usize, v: &str) -> (Vec<String>, List) {
    let e = || E(v.to_string());
    match op {
        "cons" => (
            vec![],
            match l {
                N0(Nil) => N1(Nil::cons(e())),
                N1(x) => N2(x.cons(e())),
                N2(x) => N3(x.cons(e())),
                N3(x) => N4(x.cons(e())),
                N4(x) => N5(x.cons(e())),
                N5(x) => N6(x.cons(e())),
                N6(_) => tool_error("list too long"),
            },
        ),
        "split_head" => {
            let (a, l) = shrink!(l, x => x.split_head());
            (vec![a.0], l)
        }
        "split_last" => {
            let (a, l) = shrink!(l, x => x.split_last());
            (vec![a.0], l)
        }
        "reverse" => (
            vec![],
            match l {
                N0(_) => tool_error("an operation on an empty list"),
                N1(x) => N1(x.reverse()),
                N2(x) => N2(x.reverse()),
                N3(x) => N3(x.reverse()),
                N4(x) => N4(x.reverse()),
                N5(x) => N5(x.reverse()),
                N6(x) => N6(x.reverse()),
            },
        ),
        "ref_reverse" => (nonempty!(&l, x => items(&x.to_ref().reverse())), l),
        "ref_split_last" => {
            let g = nonempty!(&l, x => {
                let (a, b) = x.to_ref().split_last();
                let mut g = vec![a.0.clone()];
                g.extend(items(&b));
                g
            });
            (g, l)
        }
        "set" => {
            let mut l = l;
            nonempty!(&mut l, x => x.to_mut().put(i, v));
            (vec![], l)
        }
        "set_reversed" => {
            let mut l = l;
            nonempty!(&mut l, x => x.to_mut().reverse().put(i, v));
            (vec![], l)
        }
        "set_last" => {
            let mut l = l;
            nonempty!(&mut l, x => x.to_mut().split_last().0 .0 = v.to_string());
            (vec![], l)
        }
        _ => tool_error(&format!("list operation {op}")),
    }
}

fn contents(l: &List) -> Vec<String> {
    match l {
        N0(x) => items(x),
        N1(x) => items(x),
        N2(x) => items(x),
        N3(x) => items(x),
        N4(x) => items(x),
        N5(x) => items(x),
        N6(x) => items(x),
    }
}

pub fn check(rec: &Value, found: &mut Found) {
    found.count("list program");
    let strings = |v: &Value| -> Vec<String> { v.as_array().map(|a| a.iter().map(Value::to_string).collect()).unwrap_or_default() };
    let mut l = N0(Nil);
    for (k, (op, want)) in rec["prog"].as_array().into_iter().flatten().zip(rec["seen"].as_array().into_iter().flatten()).enumerate() {
        let name = op[0].as_str().unwrap_or_default();
        let r = catch_unwind(AssertUnwindSafe(|| step(l, name, op[1].as_u64().unwrap_or(0) as usize, &op[2].to_string())));
        let Ok((gave, after)) = r else {
            found.add(["C19"], format!("{name} (step {}) panics", k + 1));
            return;
        };
        if gave != strings(&want[0]) {
            found.add(["C19"], format!("{name} (step {}) gives {gave:?} instead of {:?}", k + 1, strings(&want[0])));
            return;
        }
        if contents(&after) != strings(&want[1]) {
            found.add(["C19"], format!("after {name} (step {}) the list is {:?} instead of {:?}", k + 1, contents(&after), strings(&want[1])));
            return;
        }
        l = after;
    }
}

macro_rules! element {
    ($ty:ident, $n:literal, $t:literal, $l:literal) => {
        #[derive(Debug, Clone, Default, PartialEq, Serialize, Deserialize)]
        struct $ty {
            #[serde(rename = $n)]
            n: u64,
            #[serde(rename = $t, default, skip_serializing_if = "Option::is_none")]
            t: Option<String>,
            #[serde(rename = $l, default, skip_serializing_if = "Vec::is_empty")]
            l: Vec<u64>,
        }
        impl $ty {
            fn of(v: &Value) -> Self {
                Self {
                    n: v["n"].as_u64().unwrap_or_else(|| tool_error("n")),
                    t: v["t"].as_array().and_then(|t| t.first()).map(|t| t.as_str().unwrap_or_default().to_string()),
                    l: v["l"].as_array().map(|l| l.iter().filter_map(Value::as_u64).collect()).unwrap_or_default(),
                }
            }
        }
    };
}
element!(E1, "n1", "t1", "l1");
element!(E2, "n2", "t2", "l2");
element!(E3, "n3", "t3", "l3");

/// Also as the tail of members of something else, as the crate uses it.
#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Holder<L> {
    own: u64,
    #[serde(flatten)]
    list: L,
}

fn union_of<L>(l: L, rec: &Value, doc: &Value, found: &mut Found)
where
    L: std::fmt::Debug + PartialEq + Serialize + DeserializeOwned,
{
    let mut held = doc.clone();
    if let Some(held) = held.as_object_mut() {
        held.insert("own".into(), json!(1));
    }
    let read_ok = !rec["read"].as_array().is_some_and(Vec::is_empty);
    let written = rec["written"] == json!(true);
    if written {
        match serde_json::to_value(&l) {
            Ok(v) if v == *doc => {}
            r => found.add(["C19"], format!("the list is written as {r:?} instead of {doc}")),
        }
        match serde_json::to_string(&l).map(|t| serde_json::from_str::<Value>(&t)) {
            Ok(Ok(v)) if v == *doc => {}
            r => found.add(["C19"], format!("the list is written as the text {r:?} instead of {doc}")),
        }
    }
    let outcome = [serde_json::from_value::<L>(doc.clone()).ok(), serde_json::from_str::<L>(&doc.to_string()).ok()];
    for o in outcome {
        match (o, read_ok) {
            (Some(x), true) if x == l || !same(rec) => {
                // what a member that was left out reads as is in the specification
                if !same(rec) && serde_json::to_value(&x).ok() != Some(reduced(rec)) {
                    found.add(["C19"], format!("{doc} is read as {x:?}"));
                }
            }
            (None, false) => {}
            (o, _) => found.add(["C19"], format!("{doc} is read as {o:?}, expected {}", if read_ok { "the list" } else { "an error" })),
        }
    }
    let h = serde_json::from_value::<Holder<L>>(held.clone()).ok();
    if h.is_some() != read_ok {
        found.add(["C19"], format!("{held} is read as {h:?}, expected {}", if read_ok { "the list" } else { "an error" }));
    }
    if let Some(h) = h {
        if same(rec) && h.list != l {
            found.add(["C19"], format!("{held} is read as {h:?}"));
        }
        if written && serde_json::to_value(&h).ok() != Some(held) {
            found.add(["C19"], format!("{h:?} is written differently"));
        }
    }
}

/// Does the document read as the list it was made from?
fn same(rec: &Value) -> bool {
    rec["read"][0] == rec["list"]
}

/// The members of what is read, according to the specification.
fn reduced(rec: &Value) -> Value {
    let mut m = Map::new();
    for (i, e) in rec["read"][0].as_array().into_iter().flatten().enumerate() {
        m.insert(format!("n{}", i + 1), e["n"].clone());
        if let Some(t) = e["t"].as_array().and_then(|t| t.first()) {
            m.insert(format!("t{}", i + 1), t.clone());
        }
        if e["l"].as_array().is_some_and(|l| !l.is_empty()) {
            m.insert(format!("l{}", i + 1), e["l"].clone());
        }
    }
    Value::Object(m)
}

pub fn check_union(rec: &Value, found: &mut Found) {
    found.count("list document");
    let mut doc = Map::new();
    for m in rec["doc"].as_array().into_iter().flatten() {
        let v = if m[1] == json!("bad") { json!({ "bad": true }) } else { m[2].clone() };
        doc.insert(m[0].as_str().unwrap_or_default().into(), v);
    }
    let whole = rec["doc"].as_array().into_iter().flatten().find(|m| m[1] == json!("whole"));
    let doc = match whole {
        Some(m) => serde_json::from_str(m[2].as_str().unwrap_or_default()).unwrap_or_else(|_| tool_error("document")),
        None => Value::Object(doc),
    };
    let empty = vec![];
    let es = rec["list"].as_array().unwrap_or(&empty);
    let nested = rec["nested"] == json!(true);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut f = Found::default();
        match es.len() {
            0 => union_of(Nil, rec, &doc, &mut f),
            1 => union_of(Nil::cons(E1::of(&es[0])), rec, &doc, &mut f),
            2 if nested => union_of(Nil::cons(Nil::cons(E2::of(&es[1]))).cons(E1::of(&es[0])), rec, &doc, &mut f),
            2 => union_of(Nil::cons(E2::of(&es[1])).cons(E1::of(&es[0])), rec, &doc, &mut f),
            3 if nested => union_of(Nil::cons(E1::of(&es[0])).cons(Nil::cons(E3::of(&es[2])).cons(E2::of(&es[1]))), rec, &doc, &mut f),
            3 => union_of(Nil::cons(E3::of(&es[2])).cons(E2::of(&es[1])).cons(E1::of(&es[0])), rec, &doc, &mut f),
            _ => tool_error("list too long"),
        }
        f
    }));
    match r {
        Ok(f) => found.list.extend(f.list),
        Err(_) => found.add(["C19"], "writing or reading a list panics"),
    }
}

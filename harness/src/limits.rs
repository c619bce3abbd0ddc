//! The order of limits (Limits.tla).

use crate::j::tool_error;
use crate::Found;
use serde_json::Value;
use std::cmp::Ordering;
use std::fmt::Debug;
use wot_td::thing::{Maximum, Minimum};

trait Num: Copy + Debug + PartialOrd {
    fn parse(t: &str) -> Self;
    fn min_nan(m: &Minimum<Self>) -> Option<bool>;
    fn max_nan(m: &Maximum<Self>) -> Option<bool>;
}
macro_rules! float {
    ($($t:ident)*) => { $(impl Num for $t {
        fn parse(t: &str) -> Self {
            match t {
                "$inf" => $t::INFINITY,
                "$-inf" => $t::NEG_INFINITY,
                "$nan" => $t::NAN,
                t => t.parse().unwrap_or_else(|_| tool_error(t)),
            }
        }
        fn min_nan(m: &Minimum<Self>) -> Option<bool> { Some(m.is_nan()) }
        fn max_nan(m: &Maximum<Self>) -> Option<bool> { Some(m.is_nan()) }
    })* };
}
macro_rules! int {
    ($($t:ident)*) => { $(impl Num for $t {
        fn parse(t: &str) -> Self { t.parse().unwrap_or_else(|_| tool_error(t)) }
        fn min_nan(_: &Minimum<Self>) -> Option<bool> { None }
        fn max_nan(_: &Maximum<Self>) -> Option<bool> { None }
    })* };
}
float!(f32 f64);
int!(i64 u64 u8);

/// All that can be asked of two values.
fn pair<A, B>(a: &A, b: &B, cmp: Option<Ordering>, eq: bool, found: &mut Found)
where
    A: PartialOrd<B> + Debug,
    B: PartialOrd<A> + Debug,
{
    let flipped = cmp.map(Ordering::reverse);
    let mut say = |what: &str, got: String, want: String| {
        if got != want {
            found.add(["C20"], format!("{what} of {a:?} and {b:?} is {got} instead of {want}"));
        }
    };
    say("comparison", format!("{:?}", a.partial_cmp(b)), format!("{cmp:?}"));
    say("swapped comparison", format!("{:?}", b.partial_cmp(a)), format!("{flipped:?}"));
    say("==", (a == b).to_string(), eq.to_string());
    say("swapped ==", (b == a).to_string(), eq.to_string());
    say("!=", (a != b).to_string(), (!eq).to_string());
    let is = |l: &[Ordering]| cmp.is_some_and(|c| l.contains(&c)).to_string();
    say("<", (a < b).to_string(), is(&[Ordering::Less]));
    say("<=", (a <= b).to_string(), is(&[Ordering::Less, Ordering::Equal]));
    say(">", (a > b).to_string(), is(&[Ordering::Greater]));
    say(">=", (a >= b).to_string(), is(&[Ordering::Greater, Ordering::Equal]));
}

fn limit<T: Num>(rec: &Value, found: &mut Found) {
    let side = |k: &str| rec[k][0].as_str().unwrap_or_default().to_string();
    let num = |k: &str| T::parse(rec[k][2].as_str().unwrap_or_default());
    let incl = |k: &str| rec[k][1] == Value::Bool(true);
    let min = |k: &str| if incl(k) { Minimum::Inclusive(num(k)) } else { Minimum::Exclusive(num(k)) };
    let max = |k: &str| if incl(k) { Maximum::Inclusive(num(k)) } else { Maximum::Exclusive(num(k)) };
    let cmp = match rec["cmp"].as_str() {
        Some("lt") => Some(Ordering::Less),
        Some("eq") => Some(Ordering::Equal),
        Some("gt") => Some(Ordering::Greater),
        Some("none") => None,
        _ => tool_error("cmp"),
    };
    let eq = rec["eq"] == Value::Bool(true);
    match (side("a").as_str(), side("b").as_str()) {
        ("min", "min") => pair(&min("a"), &min("b"), cmp, eq, found),
        ("min", "max") => pair(&min("a"), &max("b"), cmp, eq, found),
        ("max", "min") => pair(&max("a"), &min("b"), cmp, eq, found),
        ("max", "max") => pair(&max("a"), &max("b"), cmp, eq, found),
        _ => tool_error("side"),
    }
    let nan = if side("a") == "min" { T::min_nan(&min("a")) } else { T::max_nan(&max("a")) };
    if nan.is_some_and(|n| Value::Bool(n) != rec["nan"]) {
        found.add(["C20"], format!("is_nan of {} is {nan:?}", rec["a"]));
    }
}

pub fn check(rec: &Value, found: &mut Found) {
    found.count("pair of limits");
    match rec["ty"].as_str() {
        Some("f64") => limit::<f64>(rec, found),
        Some("f32") => limit::<f32>(rec, found),
        Some("i64") => limit::<i64>(rec, found),
        Some("u64") => limit::<u64>(rec, found),
        Some("u8") => limit::<u8>(rec, found),
        _ => tool_error("type"),
    }
}

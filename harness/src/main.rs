//! Conformance of wot-td with the specification in /verif/spec: replays what TLC writes, one JSON record per line.
//!
//! conform FILE...   prints one JSON line per discrepancy, and a summary as the last line.

mod fam;
mod hl;
mod j;
mod limits;

use fam::{Built, Call, Failure, Outcome, Prog, ReadOut};
use j::{compare, show, tool_error, Diff, J};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};

/// The record every thread is at (plus one).
static SEEN: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

pub struct Discrepancy {
    pub classes: BTreeSet<String>,
    pub what: String,
    /// the finding in known-findings.json that this is an instance of
    pub known: Option<&'static str>,
}

#[derive(Default)]
pub struct Found {
    pub list: Vec<Discrepancy>,
    pub counts: BTreeMap<String, u64>,
}

impl Found {
    pub fn add<S: Into<String>>(&mut self, classes: impl IntoIterator<Item = S>, what: impl Into<String>) {
        self.list.push(Discrepancy { classes: classes.into_iter().map(Into::into).collect(), what: what.into(), known: None });
    }

    pub fn known(&mut self, id: &'static str, class: &str, what: impl Into<String>) {
        self.list.push(Discrepancy { classes: [class.to_string()].into(), what: what.into(), known: Some(id) });
    }

    pub fn count(&mut self, what: &str) {
        *self.counts.entry(what.into()).or_default() += 1;
    }
}

/// The properties that an error is about.
fn error_classes(code: &str, b: &str) -> Vec<&'static str> {
    match code {
        "UndefinedSecurity" => vec!["C01"],
        "MissingSchemaDefinition" if b == "combo" => vec!["C01"],
        "MissingSchemaDefinition" if b == "form" => vec!["C03"],
        "MissingSchemaDefinition" => vec!["C01", "C03"],
        "MissingOpInForm" | "InvalidOpInForm" => vec!["C02"],
        "DuplicatedSecurityDefinition" | "DuplicatedAffordance" => vec!["C04"],
        "InvalidMinMax" | "NanMinMax" | "InvalidMultipleOf" => vec!["C05"],
        "InvalidUriVariables" => vec!["C06"],
        "InvalidLanguageTag" => vec!["C07"],
        "SizesWithRelNotIcon" => vec!["C08"],
        _ => vec![],
    }
}

fn message(code: &str, a: &str, b: &str) -> String {
    match code {
        "DuplicatedSecurityDefinition" => format!("Two security definitions use the name \"{a}\""),
        "MissingOpInForm" => "A Form directly placed in a Thing must contain at least one relevant operation".into(),
        "InvalidOpInForm" => {
            let context = match a {
                "Thing" => "Thing".to_string(),
                x => format!("{x}Affordance"),
            };
            format!("Invalid Form operation {b} in {context} context")
        }
        "UndefinedSecurity" => format!("Security \"{a}\" is not specified in Thing security definitions"),
        "InvalidMinMax" => "Min value greater than max value".into(),
        "NanMinMax" => "Min or Max value is NaN".into(),
        "DuplicatedAffordance" => format!("Two affordances of type {a} use the name \"{b}\""),
        "InvalidMultipleOf" => "\"multipleOf\" field must be strictly greater than 0".into(),
        "MissingSchemaDefinition" => {
            format!("Using the data schema \"{a}\", which is not declared in the schema definitions")
        }
        "InvalidUriVariables" => "An uriVariable cannot be an ObjectSchema or ArraySchema".into(),
        "InvalidLanguageTag" => format!("Invalid language tag \"{a}\""),
        "SizesWithRelNotIcon" => "A sizes field can be used only when \"rel\" is \"icon\"".into(),
        _ => String::new(),
    }
}

/// The properties that a difference at a place of a description is about.
fn place_classes(d: &Diff) -> BTreeSet<String> {
    let p: Vec<&str> = d.path.iter().map(String::as_str).collect();
    let mut out = BTreeSet::new();
    let add = |out: &mut BTreeSet<String>, l: &[&str]| out.extend(l.iter().map(|s| s.to_string()));
    for m in &p {
        match m.split_once(':').map(|x| x.0) {
            Some("a" | "b") => add(&mut out, &["C17"]),
            Some("htv" | "cov" | "mqv") => add(&mut out, &["C18"]),
            _ => {}
        }
    }
    fn form(p: &[&str], out: &mut BTreeSet<String>) {
        out.insert("C11".into());
        match p.first() {
            Some(&"op") => {
                out.insert("C02".into());
            }
            Some(&"security") => {
                out.insert("C01".into());
            }
            Some(&"additionalResponses") if p.contains(&"schema") => {
                out.insert("C03".into());
            }
            _ => {}
        }
    }
    fn schema(p: &[&str], out: &mut BTreeSet<String>) {
        out.insert("C12".into());
        if p.contains(&"titles") || p.contains(&"descriptions") {
            out.insert("C07".into());
        }
        if p.iter().any(|m| m.to_lowercase().contains("minimum") || m.to_lowercase().contains("maximum") || *m == "multipleOf") {
            out.insert("C05".into());
        }
    }
    match p.first() {
        None => add(&mut out, &["C10", "C14"]),
        Some(&"securityDefinitions") => {
            add(&mut out, &["C13"]);
            if p.len() == 2 {
                add(&mut out, &["C04"]);
            }
            if p.contains(&"descriptions") {
                add(&mut out, &["C07"]);
            }
            if p.len() == 3 && (p[2] == "oneOf" || p[2] == "allOf") {
                add(&mut out, &["C01"]);
            }
        }
        Some(&"security") => add(&mut out, &["C13", "C10", "C01"]),
        Some(&"links") => {
            add(&mut out, &["C08"]);
            if p.contains(&"hreflang") {
                add(&mut out, &["C07"]);
            }
        }
        Some(&"titles" | &"descriptions") => add(&mut out, &["C10", "C07"]),
        Some(&"forms") => form(if p.len() > 2 { &p[2..] } else { &[] }, &mut out),
        Some(&"uriVariables") => {
            add(&mut out, &["C06"]);
            schema(&p[1..], &mut out)
        }
        Some(&"schemaDefinitions") => {
            add(&mut out, &["C03"]);
            schema(&p[1..], &mut out)
        }
        Some(&("properties" | "actions" | "events")) => match p.len() {
            1 | 2 => add(&mut out, &["C04", "C11"]),
            _ => match p[2] {
                "forms" => form(if p.len() > 4 { &p[4..] } else { &[] }, &mut out),
                "uriVariables" => {
                    add(&mut out, &["C06", "C11"]);
                    schema(&p[3..], &mut out)
                }
                "titles" | "descriptions" => add(&mut out, &["C11", "C07", "C12"]),
                "@type" | "title" | "description" => add(&mut out, &["C11", "C12"]),
                "observable" | "safe" | "idempotent" | "synchronous" => add(&mut out, &["C11"]),
                _ => {
                    if p.len() == 3 {
                        add(&mut out, &["C11"]);
                    }
                    schema(&p[2..], &mut out)
                }
            },
        },
        Some(_) if out.is_empty() => add(&mut out, &["C10"]),
        Some(_) => {}
    }
    out
}

/// Compares a written description with the expected document.
fn check_document(want: &J, text: &str, found: &mut Found, ctx: &str) -> Option<J> {
    let got = match j::parse(text) {
        Ok(g) => g,
        Err(e) => {
            found.add(["C14"], format!("{ctx}the description is written as text that is not proper JSON: {e}"));
            return None;
        }
    };
    let mut diffs = vec![];
    compare(want, &got, &mut vec![], &mut diffs);
    for map in ["properties", "actions", "events", "securityDefinitions"] {
        if let (Some(J::O(w)), Some(J::O(g))) = (want.get(map), got.get(map)) {
            for (k, v) in w {
                if g.get(k).is_some_and(|x| x != v && w.iter().any(|(n, y)| n != k && y == x)) {
                    found.add(["C04"], format!("{ctx}/{map}/{k} holds what was added under another name"));
                }
            }
        }
    }
    let mut reported = BTreeSet::new();
    for d in &diffs {
        let p = &d.path;
        // known finding: the member dataResponse of an event is written as data_response
        if p.len() == 3 && p[0] == "events" && (p[2] == "dataResponse" || p[2] == "data_response") {
            let w = want.get("events").and_then(|e| e.get(&p[1])).and_then(|e| e.get("dataResponse"));
            let g = got.get("events").and_then(|e| e.get(&p[1])).and_then(|e| e.get("data_response"));
            if let (Some(w), Some(g)) = (w, g) {
                let mut inner = vec![];
                compare(w, g, &mut vec!["events".into(), p[1].clone(), "dataResponse".into()], &mut inner);
                if let Some(d) = inner.first() {
                    found.add(place_classes(d), format!("{ctx}at /{}: {} instead of {}", d.path.join("/"), d.got, d.want));
                }
                found.known("event-data-response-name", "C11", "the schema of the response to an event is written as member data_response");
                continue;
            }
        }
        let classes = place_classes(d);
        if reported.insert(classes.clone()) {
            found.add(classes, format!("{ctx}at /{}: {} instead of {}", d.path.join("/"), d.got, d.want));
        }
    }
    Some(got)
}

fn causes_of(v: &Value) -> Vec<(String, String, String)> {
    v.as_array()
        .map(|a| {
            a.iter()
                .map(|c| (c[0].as_str().unwrap().to_string(), j::text(c[1].as_str().unwrap()), c[2].as_str().unwrap().to_string()))
                .collect()
        })
        .unwrap_or_default()
}

fn is_cause(f: &Failure, c: &(String, String, String)) -> bool {
    f.code == c.0 && f.a == c.1 && (f.code == "MissingSchemaDefinition" || f.b == j::text(&c.2))
}

/// Issues of a description whose text the specification knows not to be faithful.
fn excuse(tags: &[String], class: &str) -> Option<&'static str> {
    if class != "C14" {
        return None;
    }
    if tags.iter().any(|t| t == "inf") {
        return Some("infinite-limit");
    }
    if tags.iter().any(|t| t == "custom") {
        return Some("custom-scheme-data");
    }
    None
}

fn add_issues(b: &Built, tags: &[String], found: &mut Found, ctx: &str) {
    for (classes, what) in &b.issues {
        match excuse(tags, classes[0]) {
            Some(id) => found.known(id, classes[0], what.clone()),
            None => found.add(classes.iter().copied(), format!("{ctx}{what}")),
        }
    }
    if let Err(e) = &b.text {
        match excuse(tags, "C14") {
            Some(id) => found.known(id, "C14", format!("the description cannot be written: {e}")),
            None => found.add(["C14"], format!("{ctx}the description cannot be written: {e}")),
        }
    }
}

/// One behaviour of the builders: what the specification says against what happened.
fn check_build(rec: &Value, o: &Outcome, found: &mut Found, ctx: &str) -> Option<J> {
    let out = &rec["out"];
    let causes = causes_of(&rec["causes"]);
    let tags: Vec<String> =
        rec["tags"].as_array().map(|a| a.iter().map(|t| t.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let rule_classes = || causes.iter().flat_map(|c| error_classes(&c.0, &c.2)).chain(["C09"]).collect::<Vec<_>>();
    match (out[0].as_str().unwrap_or(""), o) {
        (_, Outcome::Panic(m)) => {
            let mut c = rule_classes();
            c.push("C14");
            found.add(c, format!("{ctx}panic: {m}"));
            None
        }
        ("ok", Outcome::Built(b)) => {
            found.count("built");
            add_issues(b, &tags, found, ctx);
            match &b.text {
                Ok(t) => check_document(&J::tagged(&out[1]), t, found, ctx),
                Err(_) => None,
            }
        }
        ("ok", Outcome::Failed(f)) => {
            let mut c = error_classes(&f.code, "");
            c.push("C09");
            found.add(c, format!("{ctx}building fails although no rule is broken: {} {} {}: {}", f.code, f.a, f.b, f.message));
            None
        }
        ("err", Outcome::Built(_)) => {
            found.add(rule_classes(), format!("{ctx}a description is built although rules are broken: {causes:?}"));
            None
        }
        ("err", Outcome::Failed(f)) => {
            found.count(&format!("refused:{}", f.code));
            if !causes.iter().any(|c| is_cause(f, c)) {
                let mut c = error_classes(&f.code, "");
                c.push("C09");
                // the same rule, said of another element
                c.extend(causes.iter().filter(|x| x.0 == f.code).flat_map(|x| error_classes(&x.0, &x.2)));
                found.add(c, format!("{ctx}the error {} {} {} is not true; the rules broken are {causes:?}", f.code, f.a, f.b));
            } else if f.message != message(&f.code, &f.a, &f.b) {
                let mut c = error_classes(&f.code, "");
                c.push("C09");
                found.add(c, format!("{ctx}the error {} has the message {:?}", f.code, f.message));
            }
            None
        }
        _ => tool_error("record without outcome"),
    }
}

/// The schemas of a program, by their place in the description.
fn schemas<'a>(calls: &'a [Call], at: &[String], out: &mut BTreeMap<Vec<String>, &'a Call>) {
    for c in calls {
        let mut place = at.to_vec();
        let mut go = |names: &[&str]| {
            place.extend(names.iter().map(|s| s.to_string()));
            place.clone()
        };
        match c.m.as_str() {
            "property" | "action" | "event" if at.is_empty() => {
                let p = go(&[["properties", "actions", "events"][["property", "action", "event"].iter().position(|m| *m == c.m).unwrap()], &c.key]);
                schemas(&c.body, &p, out)
            }
            "schema_definition" => drop(out.insert(go(&["schemaDefinitions", &c.key]), c)),
            "uri_variable" => drop(out.insert(go(&["uriVariables", &c.key]), c)),
            "data_response" => drop(out.insert(go(&["dataResponse"]), c)),
            m @ ("input" | "output" | "data" | "subscription" | "cancellation") => drop(out.insert(go(&[m]), c)),
            _ => {}
        }
    }
}

/// The language tags of a schema: of two calls of one setter the last one counts.
fn tags_in(calls: &[Call], out: &mut Vec<String>) {
    let mut last = BTreeMap::new();
    for (i, c) in calls.iter().enumerate() {
        match c.m.as_str() {
            "titles" | "descriptions" | "set_item" | "property" => drop(last.insert((&c.m, &c.key), i)),
            _ => tags_in(&c.body, out),
        }
    }
    for i in last.into_values() {
        match calls[i].m.as_str() {
            "titles" | "descriptions" => out.extend(calls[i].body.iter().map(|c| c.key.clone())),
            _ => tags_in(&calls[i].body, out),
        }
    }
}

/// The schemas of the program, each made on its own: what stands in the description stands alone.
fn check_alone(rec: &Value, p: &Prog, found: &mut Found) {
    let mut places = BTreeMap::new();
    schemas(&p.calls, &[], &mut places);
    let out = &rec["out"];
    let want = if out[0] == "ok" { Some(J::tagged(&out[1])) } else { None };
    let causes = causes_of(&rec["causes"]);
    let infinite = rec["tags"].as_array().is_some_and(|t| t.iter().any(|t| t == "inf" || t == "nan"));
    for (place, c) in places {
        found.count("schemas:alone");
        let ctx = format!("the schema of /{} alone: ", place.join("/"));
        let mut own = vec![];
        tags_in(&c.body, &mut own);
        match (fam::alone::text(&c.body), &want) {
            (Err(m), _) => found.add(["C12", "C09"], format!("{ctx}panic: {m}")),
            (Ok(Err(f)), _) => {
                if !causes.iter().any(|c| is_cause(&f, c)) || !own.contains(&f.a) {
                    let classes = error_classes(&f.code, "").into_iter().chain(["C09"]);
                    found.add(classes, format!("{ctx}the error {} {} {} is not true", f.code, f.a, f.b));
                } else if f.message != message(&f.code, &f.a, &f.b) {
                    found.add(["C07", "C09"], format!("{ctx}the error {} has the message {:?}", f.code, f.message));
                }
            }
            (Ok(Ok((text, back))), Some(doc)) => {
                let mut w = doc;
                for m in &place {
                    w = w.get(m).unwrap_or_else(|| tool_error(&format!("no schema at {place:?}")));
                }
                match j::parse(&text) {
                    Err(e) => found.add(["C12", "C14"], format!("{ctx}not written: {e}: {text}")),
                    Ok(got) => {
                        let mut diffs = vec![];
                        compare(w, &got, &mut place.clone(), &mut diffs);
                        if let Some(d) = diffs.first() {
                            found.add(place_classes(d), format!("{ctx}at /{}: {} instead of {}", d.path.join("/"), d.got, d.want));
                        }
                    }
                }
                match back {
                    _ if infinite => {}
                    Ok(true) => {}
                    Ok(false) => found.add(["C14", "C22"], format!("{ctx}read from its own text it is not equal to itself")),
                    Err(e) => found.add(["C14"], format!("{ctx}its text is refused: {e}")),
                }
            }
            (Ok(Ok(_)), None) => {
                if let Some(c) = causes.iter().find(|c| c.0 == "InvalidLanguageTag" && own.contains(&c.1)) {
                    let t = &c.1;
                    found.add(["C07", "C09"], format!("{ctx}built, although the language tag {t:?} is wrong"));
                }
            }
        }
    }
}

fn do_build(rec: &Value, found: &mut Found) {
    let fam = rec["fam"].as_str().unwrap_or("");
    let none = vec![];
    let alts = rec["alt"].as_array().unwrap_or(&none);
    let mut progs: Vec<Prog> = vec![fam::program(&rec["prog"])];
    progs.extend(alts.iter().map(|a| fam::program(&a["prog"])));
    let g = fam::run(fam, &progs);
    let before = found.list.len();
    let mut first = None;
    for (i, o) in g.outcomes.iter().enumerate() {
        found.count("behaviours");
        let r = if i == 0 { rec } else { &alts[i - 1] };
        let ctx = if i == 0 { String::new() } else { format!("alternative {i}: ") };
        let doc = check_build(r, o, found, &ctx);
        if i == 0 {
            first = doc;
            continue;
        }
        let rel = r["rel"].as_str().unwrap_or("");
        if rel == "perm" {
            found.count("permutations");
            match (&g.outcomes[0], o) {
                (Outcome::Built(_), Outcome::Built(_)) => {
                    if let (Some(a), Some(b)) = (&first, &doc) {
                        let mut d = vec![];
                        compare(a, b, &mut vec![], &mut d);
                        if let Some(d) = d.first() {
                            found.add(["C21"], format!("{ctx}another order of independent calls gives another description at /{}: {} instead of {}", d.path.join("/"), d.got, d.want));
                        }
                    }
                    if g.equal[i] == Some(false) && !rec["tags"].as_array().is_some_and(|t| t.iter().any(|t| t == "nan")) {
                        found.add(["C21", "C22"], format!("{ctx}another order of independent calls gives a description that is not equal"));
                    }
                }
                (Outcome::Failed(_), Outcome::Failed(_)) => {}
                _ => found.add(["C21"], format!("{ctx}another order of independent calls changes whether building succeeds")),
            }
        }
        if let (Some(a), Some(b)) = (&first, &doc) {
            let mut d = vec![];
            compare(a, b, &mut vec![], &mut d);
            found.count(if d.is_empty() { "pairs:same" } else { "pairs:different" });
            match g.equal[i] {
                None => found.add(["C22"], format!("{ctx}equality is not symmetric")),
                Some(e) if e != d.is_empty() => found.add(
                    ["C22"],
                    match d.first() {
                        None => format!("{ctx}two descriptions written as the same document are not equal"),
                        Some(d) => format!("{ctx}two descriptions are equal, but differ at /{}: {} and {}", d.path.join("/"), d.want, d.got),
                    },
                ),
                _ => {}
            }
        }
    }
    if fam.is_empty() {
        check_alone(rec, &progs[0], found);
    }
    let new = found.list[before..].iter().any(|d| d.known.is_none() && !d.classes.contains("C17"));
    if !fam.is_empty() && (new || std::env::var("FORCE").is_ok()) {
        // what goes right when the extensions are given first goes wrong because of the place they are given
        let first: Vec<Prog> =
            progs.iter().map(|p| Prog { title: p.title.clone(), calls: fam::extensions_first(&p.calls) }).collect();
        let mut other = Found::default();
        for (i, o) in fam::run(fam, &first).outcomes.iter().enumerate() {
            let r = if i == 0 { rec } else { &alts[i - 1] };
            let ctx = if i == 0 { String::new() } else { format!("alternative {i}: ") };
            check_build(r, o, &mut other, &ctx);
        }
        for d in &mut found.list[before..] {
            let whole = d.classes.contains("C21") || d.classes.contains("C22");
            if d.known.is_none() && !whole && !other.list.iter().any(|x| x.what == d.what) {
                d.classes.insert("C17".into());
            }
        }
    }
}

fn do_read(rec: &Value, found: &mut Found) {
    let fam = rec["fam"].as_str().unwrap_or("");
    let doc = J::tagged(&rec["doc"]);
    let ideal = J::tagged(&rec["ideal"]);
    let asis = rec.get("asis").map_or_else(|| ideal.clone(), J::tagged);
    let finding = rec["finding"].as_str().unwrap_or("");
    let seed = rec["seed"].as_u64().unwrap_or(0x5eed);
    let class = if ideal == J::Bad { "C16" } else { "C15" };
    let mut extra: Vec<String> = rec["classes"]
        .as_array()
        .map(|a| a.iter().map(|t| t.as_str().unwrap().to_string()).collect())
        .unwrap_or_default();
    extra.push(class.into());
    let texts: Vec<String> = [0, 1, seed | 2, 0]
        .iter()
        .map(|o| {
            let mut s = String::new();
            doc.text(*o, &mut s);
            s
        })
        .collect();
    found.count("documents");
    found.count(if ideal == J::Bad { "documents:malformed" } else { "documents:proper" });
    let g = fam::read(fam, &texts);
    // known: the deviation recorded for this place; otherwise a violation
    let mut first: Option<J> = None;
    for (i, o) in g.outs.iter().enumerate() {
        let got = match o {
            ReadOut::Panic(m) => {
                found.add(extra.clone(), format!("reading panics: {m}"));
                return;
            }
            ReadOut::Refused(e) => {
                if ideal != J::Bad && i == 0 {
                    if asis == J::Bad && !finding.is_empty() {
                        found.known(known_id(finding), class, format!("refused: {e}"));
                    } else {
                        found.add(extra.clone(), format!("a proper document is refused: {e}"));
                    }
                }
                J::Bad
            }
            ReadOut::Read(b) => {
                for (c, w) in &b.issues {
                    let mut c: Vec<String> = c.iter().map(|s| s.to_string()).collect();
                    c.push("C15".into());
                    found.add(c, format!("after reading: {w}"));
                }
                if ideal != J::Bad {
                    // a well-formed scheme is that scheme, not one of an unknown kind that happens to have its members
                    for (k, s) in b.unknown.iter().filter(|(_, s)| KNOWN_SCHEMES.contains(&s.as_str())) {
                        found.add(
                            extra.iter().map(String::as_str).chain(["C13", "C16"]),
                            format!("the scheme {s} of the security definition {k:?} is read as one of an unknown kind"),
                        );
                    }
                }
                match b.text.as_ref().map_err(Clone::clone).and_then(|t| j::parse(t)) {
                    Err(e) => {
                        found.add(["C14", "C15"], format!("a description that was read cannot be written: {e}"));
                        return;
                    }
                    Ok(d) => d,
                }
            }
        };
        match &first {
            None => {
                if let ReadOut::Read(_) = o {
                    let mut diffs = vec![];
                    let got = canonical_event_names(&got);
                    if ideal != J::Bad {
                        compare(&ideal, &got, &mut vec![], &mut diffs);
                    }
                    if ideal == J::Bad || !diffs.is_empty() {
                        let mut d2 = vec![];
                        if asis != J::Bad {
                            compare(&asis, &got, &mut vec![], &mut d2);
                        }
                        if asis != J::Bad && asis != ideal && d2.is_empty() && !finding.is_empty() {
                            found.known(known_id(finding), class, format!("read as {}", show(&got)));
                        } else if ideal == J::Bad {
                            found.add(extra.clone(), format!("a document that breaks the vocabulary ({}) is accepted", rec["why"].as_str().unwrap_or("")));
                        } else {
                            let d = &diffs[0];
                            let mut c = extra.clone();
                            c.extend(place_classes(d).into_iter().filter(|c| c == "C17" || c == "C18"));
                            found.add(c, format!("reading loses or changes /{}: {} instead of {}", d.path.join("/"), d.got, d.want));
                        }
                    }
                }
                first = Some(got);
            }
            Some(f) => {
                let mut diffs = vec![];
                compare(f, &got, &mut vec![], &mut diffs);
                let same = match (f, &got) {
                    (J::Bad, J::Bad) => true,
                    (J::Bad, _) | (_, J::Bad) => false,
                    _ => diffs.is_empty(),
                };
                if !same {
                    let mut c = extra.clone();
                    c.push("C15".into());
                    found.add(c, format!("the order of the members, or reading through a JSON value, changes what is read: {} / {}", show(f), show(&got)));
                } else if g.equal[i] == Some(false) {
                    found.add(["C15", "C22"], "the same document in another order of members is read as a different description");
                }
            }
        }
    }
}

const KNOWN_SCHEMES: &[&str] = &["nosec", "auto", "combo", "basic", "digest", "bearer", "psk", "oauth2", "apikey"];

/// The known name of a member (see check_document) is taken for the proper one.
fn canonical_event_names(doc: &J) -> J {
    let mut d = doc.clone();
    if let J::O(t) = &mut d {
        if let Some(J::O(es)) = t.get_mut("events") {
            for e in es.values_mut() {
                if let J::O(e) = e {
                    if !e.contains_key("dataResponse") {
                        if let Some(v) = e.remove("data_response") {
                            e.insert("dataResponse".into(), v);
                        }
                    }
                }
            }
        }
    }
    d
}

fn known_id(s: &str) -> &'static str {
    const IDS: &[&str] = &["malformed-schema-member-dropped", "malformed-scheme-kept", "numeric-tag", "scheme-members-dropped", "both-limits", "infinite-limit"];
    IDS.iter().find(|i| **i == s).unwrap_or_else(|| tool_error(&format!("unknown finding {s}")))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut lines: Vec<String> = vec![];
    let args: Vec<String> = std::env::args().skip(1).collect();
    for f in args.iter().filter(|a| *a != "--one") {
        let text = std::fs::read_to_string(f).unwrap_or_else(|e| tool_error(&format!("{f}: {e}")));
        lines.extend(text.lines().filter(|l| !l.trim().is_empty()).map(str::to_string));
    }
    let one = args.iter().any(|a| a == "--one");
    let threads = if one { 1 } else { std::thread::available_parallelism().map_or(4, |n| n.get()) };
    // a record that does not end is a discrepancy of its own
    std::thread::spawn(|| {
        let mut last = vec![(0u64, 0u32); SEEN.len()];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for (s, l) in SEEN.iter().zip(last.iter_mut()) {
                let now = s.load(Ordering::Relaxed);
                *l = if now != l.0 || now == 0 { (now, 0) } else { (now, l.1 + 1) };
                if l.1 > 30 {
                    println!("{}", json!({ "line": now - 1, "classes": ["*"], "what": "the behaviour does not end within 30 s", "known": null }));
                    println!("{}", json!({ "records": now, "counts": {} }));
                    std::process::exit(0);
                }
            }
        }
    });
    let per = lines.len().div_ceil(threads).max(1);
    let results: Vec<(usize, Found)> = std::thread::scope(|s| {
        let handles: Vec<_> = lines
            .chunks(per)
            .enumerate()
            .map(|(ci, chunk)| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut out = vec![];
                        let mut counts = BTreeMap::new();
                        for (i, l) in chunk.iter().enumerate() {
                            SEEN[ci % SEEN.len()].store((ci * per + i + 1) as u64, Ordering::Relaxed);
                            if one {
                                eprintln!("AT {i}");
                            }
                            let read = |l: &str| -> Value {
                                let mut de = serde_json::Deserializer::from_str(l);
                                de.disable_recursion_limit();
                                serde::Deserialize::deserialize(&mut de).unwrap_or_else(|e| tool_error(&format!("record: {e}: {l}")))
                            };
                            // TLC writes the record as a text
                            let rec = match read(l) {
                                Value::String(s) => read(&s),
                                v => v,
                            };
                            let mut found = Found { list: vec![], counts: std::mem::take(&mut counts) };
                            match rec["t"].as_str() {
                                Some("build") => do_build(&rec, &mut found),
                                Some("read") => do_read(&rec, &mut found),
                                Some("limit") => limits::check(&rec, &mut found),
                                Some("hlist") => hl::check(&rec, &mut found),
                                Some("hunion") => hl::check_union(&rec, &mut found),
                                _ => tool_error("unknown record"),
                            }
                            counts = std::mem::take(&mut found.counts);
                            if !found.list.is_empty() {
                                out.push((ci * per + i, found));
                            }
                        }
                        SEEN[ci % SEEN.len()].store(0, Ordering::Relaxed);
                        out.push((usize::MAX, Found { list: vec![], counts }));
                        out
                    })
                    .unwrap_or_else(|e| tool_error(&e.to_string()))
            })
            .collect();
        handles.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| tool_error("harness panic"))).collect()
    });
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    for (line, f) in results {
        for (k, n) in f.counts {
            *counts.entry(k).or_default() += n;
        }
        for d in f.list {
            println!("{}", json!({ "line": line, "classes": d.classes, "what": d.what, "known": d.known }));
        }
    }
    println!("{}", json!({ "records": lines.len(), "counts": counts }));
}

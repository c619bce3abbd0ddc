//! JSON values as the specification writes them, a strict JSON reader, and comparison.

use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    S(String),
    N(String),
    B(bool),
    Z,
    A(Vec<J>),
    O(BTreeMap<String, J>),
    Bad,
    Nothing,
}

/// Stops the run: the input does not follow the format of the specification.
pub fn tool_error(msg: &str) -> ! {
    eprintln!("TOOL ERROR: {msg}");
    std::process::exit(2)
}

/// Texts that the specification names by a token.
pub fn text(token: &str) -> String {
    match token {
        "$uni" => "ünïcödé 日本語 🦀 \u{301}".into(),
        "$ctl" => "q\"b\\s/\u{8}\u{c}\n\r\t\u{0}\u{1f}\u{7f}\u{2028}\u{feff}".into(),
        "$long" => "abcdefghij".repeat(500),
        "$mix" => " A/b~%20\u{c9}ß\u{a0}I ".into(),
        "$json" => "{\"a\": [1, null]}".into(),
        t => {
            if let Some(n) = t.strip_prefix("$n").and_then(|n| n.parse().ok()) {
                return "x".repeat(n);
            }
            let point = |h: &str| u32::from_str_radix(h, 16).ok().and_then(char::from_u32);
            match t.strip_prefix("$u").map(|c| c.split('_').map(point).collect::<Option<String>>()) {
                Some(Some(points)) => points,
                _ => t.into(),
            }
        }
    }
}

impl J {
    /// Reads the tagged form.
    pub fn tagged(v: &Value) -> J {
        let a = v.as_array().unwrap_or_else(|| tool_error(&format!("not a tagged value: {v}")));
        let tag = a[0].as_str().unwrap_or_else(|| tool_error(&format!("no tag: {v}")));
        match tag {
            "s" => J::S(text(a[1].as_str().unwrap())),
            "n" => J::N(a[1].as_str().unwrap().into()),
            "b" => J::B(a[1].as_str().unwrap() == "true"),
            "z" => J::Z,
            "a" => J::A(a[1].as_array().unwrap().iter().map(J::tagged).collect()),
            "o" => J::O(match &a[1] {
                Value::Object(o) => o.iter().map(|(k, v)| (text(k), J::tagged(v))).collect(),
                Value::Array(e) if e.is_empty() => BTreeMap::new(),
                _ => tool_error(&format!("not an object: {v}")),
            }),
            "!" => J::Bad,
            "-" => J::Nothing,
            _ => tool_error(&format!("unknown tag: {v}")),
        }
    }

    pub fn str(&self) -> String {
        match self {
            J::S(s) => s.clone(),
            _ => tool_error(&format!("not a text: {self:?}")),
        }
    }

    pub fn bool(&self) -> bool {
        match self {
            J::B(b) => *b,
            _ => tool_error(&format!("not a boolean: {self:?}")),
        }
    }

    pub fn list(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => tool_error(&format!("not a list: {self:?}")),
        }
    }

    pub fn map(&self) -> &BTreeMap<String, J> {
        match self {
            J::O(o) => o,
            _ => tool_error(&format!("not an object: {self:?}")),
        }
    }

    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(o) => o.get(k),
            _ => None,
        }
    }

    pub fn num<T: std::str::FromStr>(&self) -> T {
        match self {
            J::N(t) => t.parse().unwrap_or_else(|_| tool_error(&format!("number {t} out of range"))),
            _ => tool_error(&format!("not a number: {self:?}")),
        }
    }

    pub fn f64(&self) -> f64 {
        match self {
            J::N(t) => num_f64(t),
            _ => tool_error(&format!("not a number: {self:?}")),
        }
    }

    /// The value as the library takes it.
    pub fn value(&self) -> Value {
        match self {
            J::S(s) => Value::String(s.clone()),
            J::N(t) => num_value(t),
            J::B(b) => Value::Bool(*b),
            J::Z => Value::Null,
            J::A(a) => Value::Array(a.iter().map(J::value).collect()),
            J::O(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), v.value())).collect()),
            _ => tool_error("no value"),
        }
    }

    /// JSON text; `order` permutes the members of objects.
    pub fn text(&self, order: u64, out: &mut String) {
        match self {
            J::S(s) => out.push_str(&serde_json::to_string(s).unwrap()),
            J::N(t) => out.push_str(t),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Z => out.push_str("null"),
            J::A(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.text(order, out);
                }
                out.push(']');
            }
            J::O(o) => {
                let mut keys: Vec<_> = o.keys().collect();
                match order {
                    0 => {}
                    1 => keys.reverse(),
                    n => {
                        let mut x = n ^ (keys.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
                        for i in (1..keys.len()).rev() {
                            x ^= x << 13;
                            x ^= x >> 7;
                            x ^= x << 17;
                            keys.swap(i, (x % (i as u64 + 1)) as usize);
                        }
                    }
                }
                out.push('{');
                for (i, k) in keys.into_iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    out.push_str(&serde_json::to_string(k).unwrap());
                    out.push(':');
                    o[k].text(order, out);
                }
                out.push('}');
            }
            _ => tool_error("no text"),
        }
    }
}

pub fn num_f64(t: &str) -> f64 {
    match t {
        "$inf" => f64::INFINITY,
        "$-inf" => f64::NEG_INFINITY,
        "$nan" => f64::NAN,
        t => t.parse().unwrap_or_else(|_| tool_error(&format!("not a number: {t}"))),
    }
}

fn num_value(t: &str) -> Value {
    if let Ok(n) = t.parse::<i64>() {
        if t != "-0" {
            return n.into();
        }
    }
    if let Ok(n) = t.parse::<u64>() {
        return n.into();
    }
    serde_json::Number::from_f64(num_f64(t)).map_or(Value::Null, Value::Number)
}

pub fn same_num(a: &str, b: &str) -> bool {
    match (a.parse::<i128>(), b.parse::<i128>()) {
        (Ok(x), Ok(y)) => x == y,
        _ => num_f64(a).to_bits() == num_f64(b).to_bits(),
    }
}

/// A JSON reader that refuses repeated member names.
pub fn parse(s: &str) -> Result<J, String> {
    let mut p = Parser { s: s.as_bytes(), i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("trailing text at {}", p.i));
    }
    Ok(v)
}

struct Parser<'a> {
    s: &'a [u8],
    i: usize,
}

impl Parser<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }

    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }

    fn expect(&mut self, c: u8) -> Result<(), String> {
        if self.peek() == c {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {} at {}", c as char, self.i))
        }
    }

    fn word(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            Err(format!("unexpected text at {}", self.i))
        }
    }

    fn string(&mut self) -> Result<String, String> {
        let start = self.i;
        self.expect(b'"')?;
        loop {
            match self.peek() {
                b'"' => break,
                b'\\' => self.i += 2,
                c if c < 0x20 => return Err(format!("control character or end of text at {}", self.i)),
                _ => self.i += 1,
            }
            if self.i >= self.s.len() {
                return Err("unterminated text".into());
            }
        }
        self.i += 1;
        let raw = std::str::from_utf8(&self.s[start..self.i]).map_err(|e| e.to_string())?;
        serde_json::from_str(raw).map_err(|e| e.to_string())
    }

    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut o = BTreeMap::new();
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::O(o));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.expect(b':')?;
                    let v = self.value()?;
                    if o.insert(k.clone(), v).is_some() {
                        return Err(format!("repeated member name {k:?}"));
                    }
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.expect(b'}')?;
                        return Ok(J::O(o));
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::A(a));
                }
                loop {
                    a.push(self.value()?);
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.expect(b']')?;
                        return Ok(J::A(a));
                    }
                }
            }
            b'"' => self.string().map(J::S),
            b't' => self.word("true", J::B(true)),
            b'f' => self.word("false", J::B(false)),
            b'n' => self.word("null", J::Z),
            b'-' | b'0'..=b'9' => {
                let start = self.i;
                while matches!(self.peek(), b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[start..self.i]).unwrap();
                serde_json::from_str::<serde_json::Number>(t).map_err(|e| format!("number {t}: {e}"))?;
                Ok(J::N(t.into()))
            }
            _ => Err(format!("unexpected text at {}", self.i)),
        }
    }
}

#[derive(Debug, Clone)]
pub struct Diff {
    pub path: Vec<String>,
    pub want: String,
    pub got: String,
    /// the member is missing or not expected, rather than different
    pub presence: bool,
}

/// Where two documents differ.
pub fn compare(want: &J, got: &J, path: &mut Vec<String>, out: &mut Vec<Diff>) {
    let diff = |path: &[String], presence| Diff {
        path: path.to_vec(),
        want: show(want),
        got: show(got),
        presence,
    };
    match (want, got) {
        (J::O(a), J::O(b)) => {
            for (k, v) in a {
                path.push(k.clone());
                match b.get(k) {
                    Some(w) => compare(v, w, path, out),
                    None => out.push(Diff { path: path.clone(), want: show(v), got: "nothing".into(), presence: true }),
                }
                path.pop();
            }
            for (k, v) in b {
                if !a.contains_key(k) {
                    path.push(k.clone());
                    out.push(Diff { path: path.clone(), want: "nothing".into(), got: show(v), presence: true });
                    path.pop();
                }
            }
        }
        (J::A(a), J::A(b)) => {
            if a.len() != b.len() {
                out.push(diff(path, false));
            } else {
                for (i, (x, y)) in a.iter().zip(b).enumerate() {
                    path.push(i.to_string());
                    compare(x, y, path, out);
                    path.pop();
                }
            }
        }
        (J::N(a), J::N(b)) => {
            if !same_num(a, b) {
                out.push(diff(path, false));
            }
        }
        (a, b) => {
            if a != b {
                out.push(diff(path, false));
            }
        }
    }
}

pub fn show(j: &J) -> String {
    let mut s = String::new();
    match j {
        J::Bad => s.push_str("refused"),
        J::Nothing => s.push_str("nothing"),
        j => j.text(0, &mut s),
    }
    if s.len() > 400 {
        let mut n = 400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push('…');
    }
    s
}

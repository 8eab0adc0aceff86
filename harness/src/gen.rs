//! Generators shared by the checks: CEL expressions together with the value they must have for a given request.
use crate::env::stream;
use crate::fw::*;
use proxy_wasm::sim::Stream;

/// A CEL double-quoted string literal.
pub fn lit(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '"' => o.push_str("\\\""),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub const TEXT: &[&str] = &["a", "b", "A", "7", " ", "-", "_", ".", "/", ":", "'", "\"", "\\", "\n", "\t", "\r", "{", "}", "(", "?", ",", "%", "é", "日", "😀", "$", "#"];
/// whatever a configuration can spell
pub const WILD: &[&str] = &["a", "b", "A", "7", " ", "-", "_", ".", "/", ":", "'", "\"", "\\", "\n", "\t", "\r", "{", "}", "(", "?", ",", "%", "é", "日", "😀", "$", "#", "\u{0}", "\u{1}", "\u{8}", "\u{b}", "\u{c}", "\u{1b}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{301}", "`"];
pub const TAME: &[&str] = &["a", "b", "c", "x", "1", "2", "-", "_", ".", "/"];

#[derive(Clone, Debug)]
pub struct Rq {
    pub host: String,
    pub path: String,
    pub method: String,
    pub headers: Vec<(String, String)>,
}
impl Rq {
    pub fn gen(s: &mut Src) -> Rq {
        let names = ["x-a", "x-b", "x-c", "x-id"];
        let mut headers: Vec<(String, String)> = vec![];
        for n in names {
            if s.chance(2, 3) {
                let v = if s.chance(1, 3) { s.string(TEXT, 4).replace(['\n', '\r'], "") } else { s.pick(&["v0", "v1", "", "10", "-3", "true"]).to_string() };
                headers.push((n.into(), v));
            }
        }
        Rq {
            host: "api.example.com".into(),
            path: format!("/{}{}", s.string(TAME, 4), s.pick(&["", "?q=1", "?a=b&c"])),
            method: s.pick(&["GET", "POST", "PUT"]).to_string(),
            headers,
        }
    }
    pub fn stream(&self) -> Stream {
        let h: Vec<(&str, &str)> = self.headers.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
        stream(&self.host, &self.path, &self.method, &h)
    }
    pub fn h(&self, n: &str) -> Option<&str> {
        self.headers.iter().find(|x| x.0 == n).map(|x| x.1.as_str())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    S(String),
    I(i64),
    U(u64),
}
/// `Err` when the expression cannot be evaluated.
pub type Ev<T> = Result<T, ()>;
impl V {
    pub fn text(&self) -> Ev<String> {
        match self {
            V::S(s) => Ok(s.clone()),
            V::I(i) => Ok(i.to_string()),
            V::U(u) => Ok(u.to_string()),
        }
    }
}

/// A boolean expression, its value, and whether it must be parenthesised to be embedded (never done: the
/// configuration holds it as written).
pub fn boolean(s: &mut Src, r: &Rq, depth: usize, err: u64) -> (String, Ev<bool>) {
    let k = s.below(if depth == 0 { 6 } else { 12 + err });
    match k {
        0 => ("true".into(), Ok(true)),
        1 => ("false".into(), Ok(false)),
        2 => {
            let m = *s.pick(&["GET", "POST"]);
            (format!("request.method == {}", lit(m)), Ok(r.method == m))
        }
        3 => {
            let n = *s.pick(&["x-a", "x-b", "x-c"]);
            (format!("'{n}' in request.headers"), Ok(r.h(n).is_some()))
        }
        4 => {
            let p = s.string(TAME, 2);
            (format!("request.path.startsWith({})", lit(&format!("/{p}"))), Ok(r.path.starts_with(&format!("/{p}"))))
        }
        5 => {
            let a = s.below(4) as i64;
            let b = s.below(4) as i64;
            (format!("{a} < {b}"), Ok(a < b))
        }
        6 | 7 => {
            // the classic precedence trap when embedded between operators
            let (c, cv) = boolean(s, r, depth - 1, 0);
            let (a, av) = boolean(s, r, depth - 1, err);
            let (b, bv) = boolean(s, r, 0, 0);
            (format!("({c}) ? ({a}) : {b}"), cv.and_then(|c| if c { av } else { bv }))
        }
        8 => {
            let (a, av) = boolean(s, r, depth - 1, 0);
            let (b, bv) = boolean(s, r, depth - 1, 0);
            (format!("({a}) || ({b})"), both(av, bv, |a, b| a || b))
        }
        9 => {
            let (a, av) = boolean(s, r, depth - 1, 0);
            let (b, bv) = boolean(s, r, depth - 1, 0);
            (format!("({a}) && ({b})"), both(av, bv, |a, b| a && b))
        }
        10 => {
            let (a, av) = boolean(s, r, depth - 1, err);
            (format!("!({a})"), av.map(|x| !x))
        }
        11 => {
            let n = *s.pick(&["x-a", "x-b"]);
            let v = *s.pick(&["v0", "v1"]);
            (format!("'{n}' in request.headers && request.headers['{n}'] == '{v}'"), Ok(r.h(n) == Some(v)))
        }
        _ => (s.pick(&["request.headers['absent'] == 'x'", "1 / 0 == 1", "'a' < 1"]).to_string(), Err(())),
    }
}
fn both(a: Ev<bool>, b: Ev<bool>, f: impl Fn(bool, bool) -> bool) -> Ev<bool> {
    Ok(f(a?, b?))
}
/// Conjunction in which an error is absorbed by a false operand, on either side.
pub fn all_of(v: &[Ev<bool>]) -> Ev<bool> {
    if v.contains(&Ok(false)) {
        Ok(false)
    } else if v.contains(&Err(())) {
        Err(())
    } else {
        Ok(true)
    }
}
pub fn any_of(v: &[Ev<bool>]) -> Ev<bool> {
    if v.contains(&Ok(true)) {
        Ok(true)
    } else if v.contains(&Err(())) {
        Err(())
    } else {
        Ok(false)
    }
}

/// An expression with a string or number value.
pub fn scalar(s: &mut Src, r: &Rq, depth: usize, err: u64) -> (String, Ev<V>) {
    match s.below(if depth == 0 { 6 } else { 11 + err }) {
        0 => ("request.method".into(), Ok(V::S(r.method.clone()))),
        1 => ("request.path".into(), Ok(V::S(r.path.clone()))),
        2 => {
            let t = s.string(TEXT, 4);
            (lit(&t), Ok(V::S(t)))
        }
        3 => {
            let i = s.below(1000) as i64 - 200;
            (i.to_string(), Ok(V::I(i)))
        }
        4 => {
            let i = s.below(1000);
            (format!("{i}u"), Ok(V::U(i)))
        }
        5 => ("request.host".into(), Ok(V::S(r.host.clone()))),
        6 => {
            let n = *s.pick(&["x-a", "x-b", "x-c", "x-id"]);
            match r.h(n) {
                Some(v) => (format!("request.headers['{n}']"), Ok(V::S(v.to_string()))),
                None => (format!("'{n}' in request.headers ? request.headers['{n}'] : 'none'"), Ok(V::S("none".into()))),
            }
        }
        7 => {
            let (c, cv) = boolean(s, r, depth - 1, 0);
            let (a, av) = scalar(s, r, depth - 1, 0);
            let (b, bv) = scalar(s, r, 0, 0);
            (format!("({c}) ? ({a}) : ({b})"), cv.and_then(|c| if c { av } else { bv }))
        }
        8 => {
            let (a, av) = scalar(s, r, 0, 0);
            let t = s.string(TEXT, 2);
            match av {
                Ok(V::S(x)) => (format!("{a} + {}", lit(&t)), Ok(V::S(format!("{x}{t}")))),
                Ok(V::I(x)) => (format!("{a} + 1"), Ok(V::I(x + 1))),
                v => (a, v),
            }
        }
        9 => {
            let t = s.string(TAME, 4);
            (format!("size({})", lit(&t)), Ok(V::I(t.len() as i64)))
        }
        10 => {
            let i = s.edge_i64();
            if i == i64::MIN {
                ("7".into(), Ok(V::I(7)))
            } else {
                (i.to_string(), Ok(V::I(i)))
            }
        }
        _ => (s.pick(&["request.headers['absent']", "1 / 0", "'a' + 1"]).to_string(), Err(())),
    }
}

/// A header's name as a service might write it: the host does not tell the forms apart.
pub fn cased(s: &mut crate::fw::Src, n: &str) -> String {
    match s.below(6) {
        0 => n.to_ascii_uppercase(),
        1 => n.split('-').map(|p| p.chars().take(1).map(|c| c.to_ascii_uppercase()).chain(p.chars().skip(1)).collect::<String>()).collect::<Vec<_>>().join("-"),
        _ => n.to_string(),
    }
}
pub fn lower(h: &[(String, String)]) -> Vec<(String, String)> {
    h.iter().map(|(k, v)| (k.to_ascii_lowercase(), v.clone())).collect()
}

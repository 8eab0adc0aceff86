//! C16: values extracted from JSON bodies. C17: values extracted from event streams.
use crate::c_attr::{as_json, exported, set, store};
use crate::c_msg::cel_double;
use crate::env::*;
use crate::fw::*;
use crate::gen::lit;
use crate::wire::Msg;
use proxy_wasm::sim::Call;
use serde_json::{json, Value as J};
use std::collections::BTreeSet;

const KEYS: &[&str] = &["model", "usage", "a", "b", "c", "0", "1", "x/y", "m~n", "~1", "", " ", "é", "日本", "a\"b", "k\\l", "tab\t", "total_tokens", "messages", "😀"];
const STR: &[&str] = &["a", "b", "Z", "0", " ", "\"", "\\", "/", "\n", "\t", "\u{8}", "\u{1}", "é", "日", "😀", "{", "}", "[", "]", ",", ":", "~", "'", "\u{7f}"];

fn scalar(s: &mut Src) -> J {
    match s.below(8) {
        0 => J::Null,
        1 => json!(s.bool()),
        2 => json!(s.below(1000)),
        3 => json!(s.edge_i64()),
        4 => json!(s.edge_u64()),
        5 => json!((s.below(2_000_000) as f64 - 1_000_000.0) / 16.0 + 0.03125),
        6 if s.chance(1, 3) => json!(s.range(0, 2000) as f64 - 1000.0),
        6 => json!(s.string(STR, 12)),
        _ => json!(s.string(&["a", "b", "-", "4"], 6)),
    }
}
fn tree(s: &mut Src, depth: usize, object: bool) -> J {
    let n = s.range(if depth == 0 { 0 } else { 1 }, 4);
    let child = |s: &mut Src| match s.below(if depth == 0 { 3 } else { 5 }) {
        3 => tree(s, depth - 1, true),
        4 => tree(s, depth - 1, false),
        _ => scalar(s),
    };
    if object {
        let mut m = serde_json::Map::new();
        for _ in 0..n {
            let k = s.pick(KEYS).to_string();
            let v = child(s);
            m.entry(k).or_insert(v);
        }
        J::Object(m)
    } else {
        J::Array((0..n).map(|_| child(s)).collect())
    }
}

#[derive(Clone, Debug)]
struct Leaf {
    ptr: String,
    value: J,
    /// where its text begins and ends
    start: usize,
    end: usize,
    /// a key on its way is written with escaped surrogates
    surrogate: bool,
}
struct Render<'a> {
    s: &'a mut Src,
    /// 0 compact, 1 indented, 2 any
    style: u64,
    escapes: bool,
    out: String,
    leaves: Vec<Leaf>,
    containers: Vec<String>,
}
impl Render<'_> {
    fn ws(&mut self, depth: usize) {
        match self.style {
            0 => {}
            1 => {
                self.out.push('\n');
                for _ in 0..depth {
                    self.out.push_str("  ");
                }
            }
            _ => {
                let t = self.s.string(&[" ", "\n", "\t", "\r\n"], 2);
                self.out.push_str(&t);
            }
        }
    }
    /// true when a character was written as an escaped surrogate pair
    fn string(&mut self, t: &str) -> bool {
        let mut pair = false;
        self.out.push('"');
        for c in t.chars() {
            let esc = self.escapes && self.s.chance(1, 4);
            match c {
                '"' => self.out.push_str("\\\""),
                '\\' => self.out.push_str("\\\\"),
                '\n' if !esc => self.out.push_str("\\n"),
                '\t' if !esc => self.out.push_str("\\t"),
                '\u{8}' if !esc => self.out.push_str("\\b"),
                '/' if esc => self.out.push_str("\\/"),
                c if esc || (c as u32) < 0x20 => {
                    let mut b = [0u16; 2];
                    let u = c.encode_utf16(&mut b);
                    pair |= u.len() > 1;
                    for x in u {
                        let h = format!("\\u{x:04x}");
                        self.out.push_str(&h);
                    }
                }
                c => self.out.push(c),
            }
        }
        self.out.push('"');
        pair
    }
    fn value(&mut self, j: &J, ptr: &str, depth: usize, surrogate: bool) {
        match j {
            J::Object(m) => {
                self.containers.push(ptr.into());
                self.out.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.ws(depth + 1);
                    let pair = self.string(k);
                    if self.style == 2 {
                        self.ws(0);
                    }
                    self.out.push(':');
                    if self.style == 1 {
                        self.out.push(' ');
                    } else {
                        self.ws(0);
                    }
                    let p = format!("{ptr}/{}", k.replace('~', "~0").replace('/', "~1"));
                    self.value(v, &p, depth + 1, surrogate || pair);
                }
                self.ws(depth);
                self.out.push('}');
            }
            J::Array(a) => {
                self.containers.push(ptr.into());
                self.out.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.ws(depth + 1);
                    self.value(v, &format!("{ptr}/{i}"), depth + 1, surrogate);
                }
                self.ws(depth);
                self.out.push(']');
            }
            v => {
                let start = self.out.len();
                match v {
                    J::String(t) => {
                        self.string(t);
                    }
                    J::Number(n) if n.is_f64() && self.s.chance(1, 3) => {
                        let mut t = format!("{:e}", n.as_f64().unwrap());
                        match self.s.below(3) {
                            0 => t = t.replace('e', "E"),
                            1 if !t.contains("e-") => t = t.replace('e', "e+0"),
                            _ => {}
                        }
                        self.out.push_str(&t);
                    }
                    J::Number(n) if n.is_f64() && self.s.chance(1, 4) => {
                        // as some serializers write them, to so many digits
                        let mut t = n.to_string();
                        if t.contains('.') && !t.contains('e') {
                            // (not so many that reading them takes rounding)
                            let most = 13usize.saturating_sub(t.len() - t.find('.').unwrap() - 1);
                            for _ in 0..self.s.range(0, most) {
                                t.push('0');
                            }
                        }
                        self.out.push_str(&t);
                    }
                    v => self.out.push_str(&v.to_string()),
                }
                if matches!(v, J::String(t) if t.len() > LONG) {
                    return;
                }
                self.leaves.push(Leaf { ptr: ptr.into(), value: v.clone(), start, end: self.out.len(), surrogate });
            }
        }
    }
}
struct Doc {
    bytes: Vec<u8>,
    leaves: Vec<Leaf>,
    containers: Vec<String>,
    json: J,
}
/// Texts beyond this are never read, only passed over.
const LONG: usize = 3000;
/// A much larger document: one long text, many members, or deeply nested.
fn enlarge(s: &mut Src, j: J, o: &mut Obs) -> J {
    match s.below(4) {
        0 | 1 => {
            o.label("long-text");
            let n = (1usize << s.range(12, 17)) + s.range(0, 40) - 20;
            let unit = *s.pick(&["x", "é", "日", "\n", "😀", "\"", "lorem ipsum {\"a\": [1, 2]} "]);
            let text = json!(unit.repeat(n / unit.len() + 1));
            match j {
                J::Object(mut m) => {
                    m.insert(s.pick(&["!first", "~~last"]).to_string(), text);
                    J::Object(m)
                }
                J::Array(mut a) => {
                    let at = s.n(a.len() + 1);
                    a.insert(at, text);
                    J::Array(a)
                }
                j => j,
            }
        }
        2 => {
            o.label("many-members");
            let n = s.range(100, 1500);
            match j {
                J::Object(mut m) => {
                    for i in 0..n {
                        m.insert(format!("m{i}"), json!(i));
                    }
                    J::Object(m)
                }
                J::Array(mut a) => {
                    a.extend((0..n).map(|i| json!(i)));
                    J::Array(a)
                }
                j => j,
            }
        }
        _ => {
            o.label("deep");
            let mut j = j;
            for i in 0..s.range(10, 100) {
                j = if s.bool() { json!([j]) } else { json!({ "k": j, "n": i }) };
            }
            j
        }
    }
}
fn doc(s: &mut Src, o: &mut Obs) -> Doc {
    let depth = s.range(0, 3);
    let mut j = {
        let object = !s.chance(1, 6);
        tree(s, depth, object)
    };
    if s.chance(1, 60) {
        j = enlarge(s, j, o);
    }
    let style = s.below(3);
    let escapes = s.bool();
    let mut r = Render { s, style, escapes, out: String::new(), leaves: vec![], containers: vec![] };
    if style == 2 {
        r.ws(0);
    }
    r.value(&j, "", 0, false);
    if style == 2 {
        r.ws(0);
    }
    Doc { bytes: r.out.into_bytes(), leaves: r.leaves, containers: r.containers, json: j }
}

/// What must hold of the expression `e`, which yields `v`.
fn claims(e: &str, v: &J) -> Vec<String> {
    match v {
        J::Null => vec![format!("{e} == null")],
        J::Bool(b) => vec![format!("{e} == {b}")],
        J::String(t) => vec![format!("{e} == {}", lit_any(t)), format!("{e} + 'x' == {}", lit_any(&format!("{t}x")))],
        J::Number(n) => match (n.as_i64(), n.as_u64()) {
            (Some(i64::MIN), _) => vec![format!("{e} + 1 == -9223372036854775807")],
            (Some(i64::MAX), _) => vec![format!("{e} == 9223372036854775807"), format!("{e} - 1 == 9223372036854775806")],
            (Some(i), _) => vec![format!("{e} == {i}"), format!("{e} + 1 == {}", i + 1)],
            (None, Some(u)) => vec![format!("{e} == {u}u"), format!("{e} / 1u == {u}u")],
            _ => {
                let f = n.as_f64().unwrap();
                vec![format!("{e} == {}", cel_double(f.to_bits())), format!("{e} + 0.25 == {}", cel_double((f + 0.25).to_bits()))]
            }
        },
        _ => unreachable!(),
    }
}
/// A literal of any text (control characters included).
fn lit_any(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match c {
            c if (c as u32) < 0x20 && !"\n\r\t".contains(c) || c == '\u{7f}' => o.push_str(&format!("\u{0}{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    // the control characters took the place of a NUL
    let q = lit(&o);
    q.replace('\u{0}', "\\u")
}

fn chop(s: &mut Src, b: &[u8]) -> Vec<Vec<u8>> {
    let n = match s.below(4) {
        0 => 1,
        1 if !b.is_empty() && b.len() < 300 => return b.iter().map(|x| vec![*x]).collect(),
        _ => s.range(1, 6),
    };
    let mut cuts: Vec<usize> = (0..n - 1).map(|_| s.n(b.len() + 1)).collect();
    cuts.sort();
    let mut out = vec![];
    let mut p = 0;
    for c in cuts.into_iter().chain([b.len()]) {
        out.push(b[p..c].to_vec());
        p = c;
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
enum Want {
    /// stored (every claim holds), or dispatched with this domain
    Yes(String),
    No,
    /// not specified
    Any,
}
#[derive(Clone, Debug)]
struct Use {
    ptr: String,
    value: Option<J>,
    /// complete at this offset of the body
    end: usize,
    start: usize,
    surrogate: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Damage {
    None,
    /// the body ends here
    Cut(usize),
    Tail,
    /// the host does not hand out what comes after this
    Unread(usize),
}

fn pick_use(s: &mut Src, d: &Doc, missing: u64) -> Use {
    if d.leaves.is_empty() || s.chance(missing, 12) {
        let base = if d.leaves.is_empty() { String::new() } else { s.pick(&d.leaves).ptr.clone() };
        let cont = if d.containers.is_empty() { String::new() } else { s.pick(&d.containers).clone() };
        for cand in [format!("{base}/x"), format!("{cont}/nope"), format!("{cont}/77"), format!("{cont}/-"), "/nope/a/b".into(), "nope".into()].iter().skip(s.n(6)) {
            if d.json.pointer(cand).is_none() {
                return Use { ptr: cand.clone(), value: None, end: usize::MAX, start: 0, surrogate: false };
            }
        }
        return Use { ptr: "/absent".into(), value: None, end: usize::MAX, start: 0, surrogate: false };
    }
    let l = s.pick(&d.leaves);
    Use { ptr: l.ptr.clone(), value: Some(l.value.clone()), end: l.end, start: l.start, surrogate: l.surrogate }
}
fn func(req: bool) -> &'static str {
    if req {
        "requestBodyJSON"
    } else {
        "responseBodyJSON"
    }
}
fn call(req: bool, u: &Use) -> String {
    format!("{}({})", func(req), lit(&u.ptr))
}
/// Is the value known once a body damaged like this has gone by? None when that is not specified.
fn known(u: &Use, d: Damage, sse: bool) -> Option<bool> {
    if u.value.is_none() {
        return Some(false);
    }
    if sse {
        return Some(d == Damage::None);
    }
    match d {
        // (what came before may have been taken already)
        Damage::Unread(k) => (u.end > k).then_some(false),
        Damage::Cut(k) => {
            // a number is over when something follows it
            let number = matches!(u.value, Some(J::Number(_)));
            if number && k > u.start && k <= u.end {
                None
            } else {
                Some(u.end <= k)
            }
        }
        _ => Some(true),
    }
}
fn all_known(us: &[Use], d: Damage, sse: bool) -> Option<bool> {
    let k: Vec<Option<bool>> = us.iter().map(|u| known(u, d, sse)).collect();
    if k.contains(&Some(false)) {
        Some(false)
    } else if k.contains(&None) {
        None
    } else {
        Some(true)
    }
}

struct Side {
    req: bool,
    doc: Doc,
    body: Vec<u8>,
    damage: Damage,
    sse: bool,
}
struct Plan {
    actions: Vec<J>,
    /// path -> whether stored, and how many claims
    stores: Vec<(String, Want, String)>,
    /// domain prefix -> outcome; in the response phase; reads the request body
    calls: Vec<(String, Want, bool, bool)>,
    /// response headers: name, value, whether due
    headers: Vec<(String, String, bool)>,
    /// a stand-alone denial: its status, whether it is due, in the response phase
    halt: Option<(u32, bool, bool)>,
    sites: Vec<String>,
    /// pointers that stores read
    used: BTreeSet<(bool, String)>,
    /// pointers that calls read
    called: BTreeSet<(bool, String)>,
}

fn grpc(svc: &str, var: &str, pred: &str, domain: &str, guard: bool) -> J {
    json!({"type": "grpc", "predicate": pred, "terminal": false, "isGuard": guard, "var": var, "service": svc,
           "messageBuilder": format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: {domain} }}")})
}

/// A string expression over the value, and what it yields; None: it cannot be evaluated.
fn text_of(s: &mut Src, req: bool, u: &Use) -> (String, Option<String>) {
    let e = call(req, u);
    match &u.value {
        Some(J::String(t)) => (e, Some(t.clone())),
        Some(J::Bool(b)) => (format!("({e} ? 'yes' : 'no')"), Some(if *b { "yes" } else { "no" }.into())),
        Some(J::Number(n)) if n.is_i64() || n.is_u64() => (format!("string({e})"), Some(n.to_string())),
        Some(v @ J::Number(_)) => (format!("({} ? 'eq' : 'ne')", s.pick(&claims(&e, v))), Some("eq".into())),
        _ => (format!("string({e} + 1)"), None),
    }
}

/// Stores and calls that read one body.
fn consumers(s: &mut Src, side: &Side, plan: &mut Plan, n_stores: usize, n_calls: usize, deny: bool) {
    for _ in 0..n_stores {
        let k = s.range(1, 2);
        let us: Vec<Use> = (0..k).map(|_| pick_use(s, &side.doc, 1)).collect();
        let path = format!("s{}", plan.stores.len());
        let mut cl: Vec<String> = vec![];
        for u in &us {
            plan.used.insert((side.req, u.ptr.clone()));
            match &u.value {
                Some(v) => cl.extend(claims(&call(side.req, u), v)),
                None => cl.push(format!("{} == 1", call(side.req, u))),
            }
        }
        if s.chance(1, 10) {
            let c = s.pick(&cl).clone();
            cl.push(format!("{{({c}): 'k'}} == {{true: 'k'}}"));
        }
        let n = cl.len();
        let mut a = store(&path, &format!("[{}]", cl.join(", ")));
        let mut want = match all_known(&us, side.damage, side.sse) {
            None => Want::Any,
            Some(false) => Want::No,
            Some(true) => Want::Yes(n.to_string()),
        };
        if s.chance(1, 4) {
            // a predicate on the body, too
            let u = pick_use(s, &side.doc, 0);
            plan.used.insert((side.req, u.ptr.clone()));
            let holds = !s.chance(1, 3);
            let c = match &u.value {
                Some(v) => claims(&call(side.req, &u), v).remove(0),
                None => "true".into(),
            };
            a["predicate"] = json!(if holds { c } else { format!("!({c})") });
            let k = if u.value.is_some() { known(&u, side.damage, side.sse) } else { Some(true) };
            want = match (k, want) {
                (Some(false), _) => Want::No,
                (None, Want::No) => Want::No,
                (None, _) => Want::Any,
                (Some(true), w) => {
                    if u.value.is_some() && !holds || u.value.is_none() && !holds {
                        Want::No
                    } else {
                        w
                    }
                }
            };
            if us.iter().chain([&u]).any(|u| u.surrogate) && !side.sse {
                plan.sites.push(path.clone());
            }
        } else if us.iter().any(|u| u.surrogate) && !side.sse {
            plan.sites.push(path.clone());
        }
        if s.chance(1, 4) {
            a["execution"] = json!("sequential");
        }
        plan.actions.push(a);
        plan.stores.push((path, want, format!("{us:?}")));
    }
    for _ in 0..n_calls {
        let u = pick_use(s, &side.doc, if deny { 4 } else { 2 });
        if plan.used.contains(&(side.req, u.ptr.clone())) && side.damage != Damage::None {
            continue;
        }
        plan.called.insert((side.req, u.ptr.clone()));
        let id = format!("c{}", plan.calls.len());
        let intact = side.damage == Damage::None;
        let e = call(side.req, &u);
        let (te, tv) = text_of(s, side.req, &u);
        let late = side.req && s.chance(1, 4);
        let mut domain = format!("'{id}:' + {te}");
        let mut want = match tv {
            Some(v) => Want::Yes(format!("{id}:{v}{}", if late { "x-up" } else { "" })),
            None => Want::No,
        };
        if late {
            // waits for the response besides
            domain = format!("{domain} + request.useragent");
        }
        if !intact {
            want = Want::No;
        }
        let as_pred = s.chance(1, 4) && matches!(u.value, Some(J::String(_)) | Some(J::Bool(_)));
        let (pred, domain, want) = if as_pred {
            let holds = s.bool();
            let c = claims(&e, u.value.as_ref().unwrap()).remove(0);
            let (d, x) = if late { (" + request.useragent", "x-up") } else { ("", "") };
            (if holds { c } else { format!("!({c})") }, format!("'{id}:p'{d}"), if !intact { Want::No } else if holds { Want::Yes(format!("{id}:p{x}")) } else { Want::Any })
        } else {
            ("true".into(), domain, want)
        };
        let mut skip = false;
        if want == Want::Any {
            // a false predicate: nothing is called and nothing fails
            skip = true;
        }
        let a = grpc(if deny { "strict" } else { "lax" }, &id, &pred, &domain, s.bool());
        plan.actions.push(a);
        plan.calls.push((id, if skip { Want::Any } else { want }, !side.req, side.req));
    }
}

fn services() -> J {
    json!({
        "lax": {"type": "ratelimit", "endpoint": "lax-cluster", "failureMode": "allow", "timeout": "5s"},
        "gate": {"type": "ratelimit", "endpoint": "gate-cluster", "failureMode": "allow", "timeout": "5s"},
        "strict": {"type": "ratelimit", "endpoint": "strict-cluster", "failureMode": "deny", "timeout": "5s"},
    })
}
fn domain(c: &Call) -> String {
    Msg::decode(&c.message).map(|m| m.get_s(1)).unwrap_or_else(|| "<undecodable>".into())
}
fn ok_answer() -> Vec<u8> {
    Msg::new().v(1, 1).encode()
}

#[derive(Default)]
struct Log {
    events: Vec<proxy_wasm::sim::Ev>,
    calls: Vec<(String, String, bool)>,
    errors: i64,
    replies: Vec<u32>,
    trace: Vec<String>,
}
impl Log {
    fn add(&mut self, what: String, st: &Step) {
        for c in st.calls().into_iter().filter(|c| c.upstream != "tracing-cluster") {
            self.calls.push((c.upstream.clone(), domain(c), c.in_response));
        }
        self.errors += st.metric("kuadrant.errors");
        self.replies.extend(st.replies().iter().map(|r| r.0));
        self.trace.push(format!("{what} -> {:?}{}", st.action, st.events.iter().filter(|e| !matches!(e, proxy_wasm::sim::Ev::Metric(..))).map(|e| format!(" {}", crate::pipe::short(e))).collect::<String>()));
        self.events.extend(st.events.iter().cloned());
    }
}

fn settle_some(s: &mut Src, q: &mut Req, log: &mut Log, all: bool) -> Res {
    while !q.outstanding.is_empty() && (all || s.chance(1, 2)) {
        let i = s.n(q.outstanding.len());
        let t = q.outstanding[i].token;
        let what = format!("answer {}", q.outstanding[i].upstream);
        let st = q.ok(t, ok_answer());
        log.add(what, &st);
    }
    Ok(())
}
fn deliver(s: &mut Src, q: &mut Req, log: &mut Log, side: &Side, o: &mut Obs) -> Res {
    let (req, body) = (side.req, &side.body[..]);
    let mut unread = usize::MAX;
    let mut chunks = match side.damage {
        Damage::Unread(k) => {
            let mut c = if k > 0 { chop(s, &body[..k]) } else { vec![] };
            unread = c.len();
            c.extend(chop(s, &body[k..]));
            c
        }
        _ => chop(s, body),
    };
    if unread == usize::MAX && s.chance(1, 4) {
        let i = s.n(chunks.len() + 1);
        chunks.insert(i, vec![]);
        o.label("empty-chunk");
    }
    let trailers = s.chance(1, 6);
    if trailers {
        o.label("trailers");
    }
    let n = chunks.len();
    if n > 2 {
        o.label("many-chunks");
    }
    for (i, c) in chunks.iter().enumerate() {
        if q.replied {
            return Ok(());
        }
        settle_some(s, q, log, false)?;
        let eos = i + 1 == n && !trailers;
        if i == unread {
            let id = q.id;
            proxy_wasm::sim::with(|s| s.streams.get_mut(&id).unwrap().body_read_fails = true);
            log.trace.push("(the host no longer hands out the body)".into());
        }
        let st = if req { q.body(c, eos) } else { q.resp_body(c, eos) };
        log.add(format!("{}({}{})", if req { "body" } else { "response body" }, String::from_utf8_lossy(c), if eos { " EOS" } else { "" }), &st);
        ensure!(!st.events.iter().any(|e| matches!(e, proxy_wasm::sim::Ev::SetBuffer)), "body-changed", "the body was modified");
        if q.outstanding.is_empty() && !q.replied {
            ensure!(st.action == Some(proxy_wasm::types::Action::Continue), "held", "held with nothing outstanding\n{}", log.trace.join("\n"));
        } else if !q.outstanding.is_empty() && !eos && i > 0 {
            o.label("held-mid-body");
        }
    }
    if trailers && !q.replied {
        settle_some(s, q, log, false)?;
        let st = if req { q.trailers() } else { q.resp_trailers() };
        log.add("trailers".into(), &st);
    }
    settle_some(s, q, log, true)?;
    if unread != usize::MAX {
        let id = q.id;
        proxy_wasm::sim::with(|s| s.streams.get_mut(&id).unwrap().body_read_fails = false);
    }
    Ok(())
}

fn judge(o: &mut Obs, plan: &Plan, log: &Log, phase_over: &dyn Fn(bool) -> bool, note: &str) -> Res {
    let ctx = || format!("{}\n{note}\nhistory:\n  {}", json!(plan.actions), log.trace.join("\n  "));
    let denied = !log.replies.is_empty();
    for (path, want, info) in &plan.stores {
        o.checks += 1;
        let got = exported(&log.events, path);
        let times = log.events.iter().filter(|e| matches!(e, proxy_wasm::sim::Ev::SetProp(p, _) if p.join(".").ends_with(path.as_str()))).count();
        match want {
            Want::Any => {}
            Want::No => ensure!(got.is_none(), "stored", "{path} was stored, expected not\n{info}\n{}", ctx()),
            Want::Yes(n) => {
                if denied && got.is_none() {
                    continue;
                }
                let Some(b) = got else {
                    return fail(if plan.sites.contains(path) { "surrogate-key" } else { "not-stored" }, format!("{path} was not stored\n{info}\n{}", ctx()));
                };
                ensure!(times == 1, "stored-again", "{path} was stored {times} times\n{}", ctx());
                let j = as_json(&b, false);
                let n: usize = n.parse().unwrap();
                ensure!(j == Some(json!(vec![true; n])), "value", "{path} holds a wrong value: {j:?}\n{info}\n{}", ctx());
                o.label("stored");
            }
        }
    }
    for (n, v, due) in &plan.headers {
        o.checks += 1;
        let got = log.events.iter().rev().find_map(|e| match e {
            proxy_wasm::sim::Ev::SetMap(_, m) => m.iter().find(|h| h.0 == *n).map(|h| h.1.clone()),
            _ => None,
        });
        if denied && got.is_none() {
            continue;
        }
        ensure!(got.as_ref() == due.then_some(v), "header", "header {n} is set to {got:?}, due {due}\n{}", ctx());
    }
    let mut errors = 0;
    let mut denials = 0;
    for (id, want, in_resp, _) in &plan.calls {
        o.checks += 1;
        let got: Vec<&String> = log.calls.iter().filter(|c| c.1.starts_with(&format!("{id}:"))).map(|c| &c.1).collect();
        let want = if !phase_over(*in_resp) { &Want::Any } else { want };
        match want {
            Want::Any => ensure!(got.is_empty(), "called", "{id} was called with {got:?}\n{}", ctx()),
            Want::No => {
                ensure!(got.is_empty(), "called", "{id} was called with {got:?}, although it cannot be evaluated\n{}", ctx());
                errors += 1;
                let strict = plan.actions.iter().any(|a| a["var"] == json!(id) && a["service"] == json!("strict"));
                denials += strict as usize;
                o.label(if strict { "call-failed-deny" } else { "call-failed" });
            }
            Want::Yes(d) => {
                if denied && got.is_empty() {
                    continue;
                }
                ensure!(got == vec![d], "call", "{id} was called with {got:?}, expected {d:?} once\n{}", ctx());
                o.label("called");
            }
        }
    }
    if let Some((status, true, in_resp)) = plan.halt {
        if denials == 0 && phase_over(in_resp) {
            ensure!(log.replies == vec![status], "halt", "replies {:?}, a denial with {status} is due\n{}", log.replies, ctx());
            o.label("halted");
            return Ok(());
        }
    }
    if denied || denials > 0 {
        ensure!(denials > 0 && log.replies == vec![500], "reply", "replies {:?}, denials due {denials}\n{}", log.replies, ctx());
    } else {
        // the calls in between may read a value that never came
        let mut deep: Vec<&J> = plan.actions.iter().collect();
        let mut i = 0;
        while i < deep.len() {
            deep.extend(deep[i]["onReply"].as_array().into_iter().flatten());
            i += 1;
        }
        let gates = deep.iter().filter(|a| a["service"] == json!("gate")).count() as i64;
        let gate_calls = log.calls.iter().filter(|c| c.0 == "gate-cluster").count() as i64;
        // a store in a reply that fails is a failure of its call
        let vague = deep.iter().filter_map(|a| a["onReply"].as_array()).map(|a| a.len() as i64).sum::<i64>();
        let any = plan.calls.iter().filter(|c| c.1 == Want::Any).count() as i64;
        ensure!(log.errors >= errors && log.errors <= errors + (gates - gate_calls) + any + vague, "errors", "{} errors counted, expected {errors}\n{}", log.errors, ctx());
    }
    Ok(())
}

fn side(s: &mut Src, req: bool, o: &mut Obs) -> Side {
    let d = doc(s, o);
    let mut body = d.bytes.clone();
    let mut damage = Damage::None;
    match s.below(10) {
        0 => {
            let k = s.n(body.len());
            body.truncate(k);
            // without its last blanks it is the same document
            if serde_json::from_slice::<J>(&body).is_err() {
                damage = Damage::Cut(k);
                o.label("truncated");
            }
        }
        1 => {
            body.extend_from_slice(s.pick(&[&b"}"[..], b"x", b"]]", b"{\"model\":\"other\"}", b"\xff"]));
            damage = Damage::Tail;
            o.label("junk-after");
        }
        2 if s.chance(1, 3) => {
            damage = Damage::Unread(s.n(body.len()));
            o.label("unreadable");
        }
        _ => {}
    }
    Side { req, doc: d, body, damage, sse: false }
}

/// One request through both bodies.
fn run(s: &mut Src, o: &mut Obs, plan: &Plan, rq: Option<&Side>, rs: Option<&Side>, ct: Option<&str>) -> Res {
    let mut cfg = set(json!(plan.actions));
    cfg["services"] = services();
    if s.chance(1, 4) {
        // actions run within spans
        cfg["services"]["tracer"] = json!({"type": "tracing", "endpoint": "tracing-cluster"});
        cfg["observability"] = json!({"defaultLevel": s.pick(&["DEBUG", "WARN"]), "httpHeaderIdentifier": "x-request-id", "tracing": {"service": "tracer"}});
        o.label("traced");
    }
    let Some(vm) = Vm::new(&cfg) else { return fail("config-refused", format!("refused: {cfg:#}")) };
    let mut st = stream("a.example.com", "/p", "POST", &[]);
    st.props.insert(vec!["request".into(), "useragent".into()], proxy_wasm::sim::Prop::InResponse(b"x-up".to_vec()));
    let mut q = vm.open(5, st);
    let mut log = Log::default();
    let note = format!(
        "request {:?}\nresponse {:?} {ct:?}",
        rq.map(|x| String::from_utf8_lossy(&x.body).into_owned()),
        rs.map(|x| String::from_utf8_lossy(&x.body).into_owned())
    );
    let body = rq.map(|x| x.body.clone());
    let st = q.headers(body.is_none());
    log.add(format!("headers(eos: {})", body.is_none()), &st);
    let held = st.action == Some(proxy_wasm::types::Action::Pause);
    settle_some(s, &mut q, &mut log, held)?;
    if body.is_some() {
        deliver(s, &mut q, &mut log, rq.unwrap(), o)?;
    }
    if !q.replied {
        let h: Vec<(String, String)> = ct.map(|c| ("content-type".to_string(), c.to_string())).into_iter().collect();
        settle_some(s, &mut q, &mut log, true)?;
        q.enter_response(200, &h);
        let st = q.resp_headers(rs.is_none());
        log.add("response headers".into(), &st);
        settle_some(s, &mut q, &mut log, true)?;
        if let Some(r) = rs {
            deliver(s, &mut q, &mut log, r, o)?;
        }
    }
    o.sample = Some(format!("{}\n{}\n{}", json!(plan.actions), note, log.trace.join("\n")));
    let has_resp = rs.is_some();
    judge(o, plan, &log, &|in_resp| !in_resp || has_resp, &note)
}

/// A document on `data` lines of its own, the way `style` ends and begins lines.
fn sse_event(s: &mut Src, data: &[u8], nl: u64, out: &mut Vec<u8>, o: &mut Obs) {
    let mut end = |s: &mut Src, out: &mut Vec<u8>| {
        let crlf = match nl {
            0 => false,
            1 => true,
            _ => s.bool(),
        };
        out.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
    };
    let mut noise = |s: &mut Src, out: &mut Vec<u8>| {
        while s.chance(1, 3) {
            out.extend_from_slice(s.pick(&[
                &b": a comment"[..], b":", b": {\"model\": 1}", b"event: message", b"event: data", b"id: 7", b"id", b"id: data", b"retry: 10", b"retry: soon", b"other: data: {}", b"dat: x", b"datas: {\"model\": 2}", b"event: \xe6\x97\xa5",
                // what those who send such streams call their events, and others like to skip
                b"event: ping", b"event:ping", b"event: error", b"event: done", b"event: message_stop", b"event: message_delta", b"event: content_block_delta", b"event: response.completed",
                b"event: keep-alive", b"event: heartbeat", b"event: comment", b"event: usage", b"event:", b"event", b"id: 0", b"id:", b"retry: 0", b"retry:",
            ]));
            end(s, out);
        }
    };
    noise(s, out);
    // every line break of the document begins a line of the stream
    let text: Vec<u8> = String::from_utf8(data.to_vec()).unwrap().replace("\r\n", "\n").replace('\r', "\n").into_bytes();
    let lines: Vec<&[u8]> = text.split(|b| *b == b'\n').collect();
    if lines.len() > 1 && data.len() > 2 {
        o.label("multi-line");
    }
    let space = s.bool();
    for l in &lines {
        out.extend_from_slice(if space { b"data: " } else { b"data:" });
        if !space && l.first() == Some(&b' ') {
            out.push(b' ');
        }
        out.extend_from_slice(l);
        let crlf = match nl {
            0 => false,
            1 => true,
            _ => s.bool(),
        };
        out.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
    }
}
fn sse_side(s: &mut Src, o: &mut Obs) -> Side {
    let nl = s.below(3);
    let wanted = doc(s, o);
    let mut out = vec![];
    let mut damage = Damage::None;
    let mut blank = |s: &mut Src, out: &mut Vec<u8>| {
        let crlf = nl == 1 || nl == 2 && s.bool();
        out.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
    };
    // what carries no data is no event
    let mut void = |s: &mut Src, out: &mut Vec<u8>, o: &mut Obs| {
        while s.chance(1, 5) {
            let t: &[u8] = s.pick(&[&b""[..], b": keep-alive", b"id: 9", b"event: ping", b"data:", b"data", b"retry: 5"]);
            out.extend_from_slice(t);
            if !t.is_empty() {
                blank(s, out);
            }
            blank(s, out);
            o.label("void-event");
        }
    };
    let other = |s: &mut Src, o: &mut Obs| -> Vec<u8> {
        match s.below(4) {
            0 => b"[DONE]".to_vec(),
            1 => b"not json".to_vec(),
            2 => b"{\"model\": \"other\", \"usage\": 99, \"a\": true}".to_vec(),
            _ => {
                let b = doc(s, o).bytes;
                b
            }
        }
    };
    void(s, &mut out, o);
    let before = if s.chance(1, 60) {
        o.label("many-events");
        s.range(20, 300) as u64
    } else {
        s.below(4)
    };
    for _ in 0..before {
        let d = other(s, o);
        sse_event(s, &d, nl, &mut out, o);
        out.extend_from_slice(if nl == 1 { b"\r\n" } else { b"\n" });
        void(s, &mut out, o);
    }
    let shape = s.below(10);
    match shape {
        0 => {
            // the last event alone
            if before == 0 {
                let d = if s.bool() { wanted.bytes.clone() } else { other(s, o) };
                sse_event(s, &d, nl, &mut out, o);
                out.push(b'\n');
            } else {
                sse_event(s, b"no json", nl, &mut out, o);
                out.push(b'\n');
                sse_event(s, &wanted.bytes, nl, &mut out, o);
                out.push(b'\n');
            }
            damage = Damage::Tail;
            o.label("no-such-event");
        }
        _ => {
            let from = out.len();
            sse_event(s, &wanted.bytes, nl, &mut out, o);
            out.push(b'\n');
            let same = out[from..].to_vec();
            void(s, &mut out, o);
            if s.chance(1, 12) {
                // the same event twice are two events
                o.label("repeated-event");
                out.extend_from_slice(&same);
                if s.bool() {
                    void(s, &mut out, o);
                    out.extend_from_slice(&same);
                }
            } else {
                let d = if s.chance(2, 3) { b"[DONE]".to_vec() } else { other(s, o) };
                sse_event(s, &d, nl, &mut out, o);
                out.push(b'\n');
            }
        }
    }
    void(s, &mut out, o);
    if s.chance(1, 4) {
        // an event that the stream does not finish
        let d = other(s, o);
        sse_event(s, &d, nl, &mut out, o);
        if s.bool() {
            let k = s.n(out.len().min(6));
            if !out.ends_with(b"\n\n") && std::str::from_utf8(&out[..out.len() - k]).is_ok() && d.len() > 6 {
                out.truncate(out.len() - k);
            }
        }
        o.label("unfinished-event");
    }
    if damage == Damage::None && s.chance(1, 30) {
        damage = Damage::Unread(s.n(out.len()));
        o.label("unreadable");
    }
    Side { req: false, doc: wanted, body: out, damage, sse: true }
}

fn c16(s: &mut Src, o: &mut Obs) -> Res {
    bodies(s, o, false)
}
fn c17(s: &mut Src, o: &mut Obs) -> Res {
    bodies(s, o, true)
}
fn bodies(s: &mut Src, o: &mut Obs, sse: bool) -> Res {
    let mut plan = Plan { actions: vec![], stores: vec![], calls: vec![], headers: vec![], halt: None, sites: vec![], used: BTreeSet::new(), called: BTreeSet::new() };
    let shape = if sse { *s.pick(&[0, 0, 0, 2]) } else { s.below(8) };
    let with_req = shape != 0 && shape != 1;
    let with_resp = shape <= 4;
    let mut rq = with_req.then(|| side(s, true, o));
    if let (Some(x), true) = (&mut rq, sse) {
        x.doc.leaves.retain(|l| !l.surrogate);
    }
    let rs = with_resp.then(|| if sse { sse_side(s, o) } else { side(s, false, o) });
    let deny = s.chance(1, 8);
    if s.chance(1, 4) {
        plan.actions.push(grpc("gate", "g", "true", "'first'", true));
    }
    if let Some(x) = &rq {
        let (n, k) = (s.range(0, 3), s.range(0, 2));
        consumers(s, x, &mut plan, n, k, false);
        if n > 0 && s.bool() {
            // a call that waits for a value, and so begins while the body goes by
            let p = s.n(n);
            let at = s.n(plan.actions.len() + 1);
            plan.actions.insert(at, grpc("gate", "mid", "true", &format!("'gate' + string(size(s{p}))"), true));
        }
    }
    if let Some(x) = &rs {
        let (n, k) = (s.range(0, 2), s.range(0, 2));
        let from = plan.stores.len();
        consumers(s, x, &mut plan, n, k, false);
        if n > 0 && s.chance(1, 3) {
            plan.actions.push(grpc("gate", "mid2", "true", &format!("'gate' + string(size(s{from}))"), s.bool()));
        }
    }
    if let (Some(a), Some(b)) = (&rq, &rs) {
        let (u, v) = (pick_use(s, &a.doc, 1), pick_use(s, &b.doc, 1));
        let shared = a.damage != Damage::None && plan.called.contains(&(true, u.ptr.clone())) || b.damage != Damage::None && plan.called.contains(&(false, v.ptr.clone()));
        if !shared && s.chance(1, 3) {
            // one store that needs both bodies
            let path = format!("s{}", plan.stores.len());
            plan.used.insert((true, u.ptr.clone()));
            plan.used.insert((false, v.ptr.clone()));
            let (mut cu, mut cv) = (vec![format!("{} == 1", call(true, &u))], vec![format!("{} == 1", call(false, &v))]);
            if let Some(x) = &u.value {
                cu = claims(&call(true, &u), x);
            }
            if let Some(x) = &v.value {
                cv = claims(&call(false, &v), x);
            }
            let mut want = match (known(&u, a.damage, false), known(&v, b.damage, b.sse)) {
                (Some(true), Some(true)) => Want::Yes((cu.len() + cv.len()).to_string()),
                (Some(false), _) | (_, Some(false)) => Want::No,
                _ => Want::Any,
            };
            let mut act = store(&path, &format!("[{}]", cu.iter().chain(&cv).cloned().collect::<Vec<_>>().join(", ")));
            if s.chance(1, 3) {
                // the one decides, the other is stored
                if u.value.is_some() {
                    let holds = !s.chance(1, 3);
                    act["predicate"] = json!(if holds { cu[0].clone() } else { format!("!({})", cu[0]) });
                    if let Want::Yes(_) = want {
                        if !holds {
                            want = Want::No;
                        }
                    }
                    if want == Want::Any && !holds {
                        want = Want::Any;
                    }
                    act["value"] = json!(format!("[{}]", cv.join(", ")));
                    if let Want::Yes(_) = want {
                        want = Want::Yes(cv.len().to_string());
                    }
                }
            }
            if u.surrogate || v.surrogate && !b.sse {
                plan.sites.push(path.clone());
            }
            plan.actions.push(act);
            plan.stores.push((path, want, format!("{u:?} {v:?}")));
            o.label("both-bodies");
        }
    }
    if deny {
        if let Some(x) = rs.as_ref().or(rq.as_ref()) {
            consumers(s, x, &mut plan, 0, 1, true);
        }
    }
    if let (Some(a), Some(b), false) = (&rq, &rs, deny) {
        if s.chance(1, 3) {
            // one call that needs both bodies
            let (u, v) = (pick_use(s, &a.doc, 1), pick_use(s, &b.doc, 1));
            let clash = a.damage != Damage::None && plan.used.contains(&(true, u.ptr.clone())) || b.damage != Damage::None && plan.used.contains(&(false, v.ptr.clone()));
            if !clash {
                let id = format!("c{}", plan.calls.len());
                let (te, tv) = text_of(s, true, &u);
                let (ue, uv) = text_of(s, false, &v);
                plan.called.insert((true, u.ptr.clone()));
                plan.called.insert((false, v.ptr.clone()));
                let missing = a.damage != Damage::None || u.value.is_none();
                let want = match (missing || b.damage != Damage::None, tv, uv) {
                    (false, Some(x), Some(y)) => Want::Yes(format!("{id}:{x}|{y}")),
                    _ => Want::No,
                };
                plan.actions.push(grpc("lax", &id, "true", &format!("'{id}:' + {te} + '|' + {ue}"), s.bool()));
                plan.calls.push((id, want, !missing, true));
                o.label("call-both-bodies");
            }
        }
    }
    if let (Some(x), false) = (rq.as_ref().or(rs.as_ref()), deny) {
        if s.chance(1, 3) {
            // stores that the answer to a call asks for, whenever it comes
            let k = s.range(1, 2);
            let mut inner = vec![];
            for _ in 0..k {
                let u = pick_use(s, &x.doc, 1);
                if x.damage != Damage::None && plan.called.contains(&(x.req, u.ptr.clone())) {
                    continue;
                }
                plan.used.insert((x.req, u.ptr.clone()));
                let path = format!("s{}", plan.stores.len());
                let e = call(x.req, &u);
                let cl = match &u.value {
                    // whole numbers come as signed or unsigned ones
                    Some(v) => claims(&e, v)[..1].to_vec(),
                    None => vec![format!("{e} == 1")],
                };
                // depends on the moment of the answer
                let vague = x.damage != Damage::None && (u.value.is_some() || !x.sse) || u.surrogate && !x.sse || u.value == Some(J::Null);
                let want = if vague {
                    Want::Any
                } else if u.value.is_some() {
                    Want::Yes(cl.len().to_string())
                } else {
                    Want::No
                };
                inner.push(store(&path, &format!("[{}]", cl.join(", "))));
                plan.stores.push((path, want, format!("in a reply: {u:?}")));
            }
            let guard = s.chance(1, 3);
            let mut a = grpc("gate", "r", "true", "'reply'", guard);
            a["onReply"] = json!(inner);
            let at = s.n(plan.actions.len() + 1);
            plan.actions.insert(at, a);
            o.label("stores-in-reply");
        }
    }
    // calls and header changes that the answer to a call asks for, and header changes of their own
    for (x, calls) in [(rq.as_ref(), true), (rs.as_ref(), true), (rq.as_ref(), false)] {
        let Some(x) = x else { continue };
        if deny || x.damage != Damage::None || !s.chance(1, 8) {
            continue;
        }
        let u = pick_use(s, &x.doc, 0);
        let (te, Some(tv)) = text_of(s, x.req, &u) else { continue };
        plan.called.insert((x.req, u.ptr.clone()));
        let mut a = if calls {
            let id = format!("c{}", plan.calls.len());
            let as_pred = s.chance(1, 3);
            let (pred, dom, want) = if as_pred { (format!("{te} == {}", lit(&tv)), format!("'{id}:p'"), format!("{id}:p")) } else { ("true".into(), format!("'{id}:' + {te}"), format!("{id}:{tv}")) };
            plan.calls.push((id.clone(), Want::Yes(want), !x.req, x.req));
            o.label("call-in-reply");
            grpc("lax", &id, &pred, &dom, s.bool())
        } else {
            let n = format!("x-h{}", plan.headers.len());
            let as_pred = s.chance(1, 3);
            let c = format!("{te} == {}", lit(&tv));
            let (pred, v) = if as_pred { (c, "'eq'".to_string()) } else { ("true".into(), format!("({c} ? 'eq' : 'ne')")) };
            plan.headers.push((n.clone(), "eq".into(), true));
            o.label("header");
            json!({"type": "headers", "terminal": false, "target": "response", "predicate": pred, "headers": format!("[['{n}', {v}]]")})
        };
        for i in 0..if calls { s.range(1, 2) } else { s.range(0, 2) } {
            let mut g = grpc("gate", &format!("rn{i}"), "true", "'reply'", s.chance(1, 3));
            g["onReply"] = json!([a]);
            a = g;
        }
        plan.actions.push(a);
    }
    if !deny && s.chance(1, 6) {
        let x = if s.bool() { rs.as_ref().or(rq.as_ref()) } else { rq.as_ref().or(rs.as_ref()) };
        if let Some(x) = x {
            let u = pick_use(s, &x.doc, 1);
            // a call or denial reads no null, but a store action does
            let plain = u.value != Some(J::Null);
            if plain && (x.damage == Damage::None || !plan.used.contains(&(x.req, u.ptr.clone()))) {
                let holds = !s.chance(1, 3);
                let e = call(x.req, &u);
                let c = match &u.value {
                    Some(v) => claims(&e, v).remove(0),
                    None => format!("{e} == 1"),
                };
                let due = holds && x.damage == Damage::None && u.value.is_some();
                let pred = if holds { c } else { format!("!({c})") };
                let status = if s.bool() { 418 } else { 500 };
                let mut a = if status == 418 && due && s.bool() {
                    json!({"type": "deny", "terminal": true, "predicate": "true", "denyWith": format!("DenyResponse {{ status: {pred} ? 418u : 419u }}")})
                } else if status == 418 {
                    json!({"type": "deny", "terminal": true, "predicate": pred, "denyWith": "DenyResponse { status: 418u }"})
                } else {
                    json!({"type": "fail", "terminal": true, "predicate": pred, "logMessage": "no"})
                };
                if x.damage == Damage::None && u.value.is_some() && s.chance(1, 3) {
                    // in the answer to a call
                    let mut g = grpc("gate", "rd", "true", "'reply'", s.chance(1, 3));
                    g["onReply"] = json!([a]);
                    a = g;
                    o.label("halt-in-reply");
                }
                let at = s.n(plan.actions.len() + 1);
                plan.actions.insert(at, a);
                plan.halt = Some((status, due, !x.req));
            }
        }
    }
    if plan.stores.is_empty() && plan.calls.is_empty() && plan.halt.is_none() {
        return Ok(());
    }
    if plan.actions.iter().any(|a| a["execution"] == json!("sequential")) {
        // what waits behind a store that reads the response belongs to the response
        let resp_store = plan.actions.iter().any(|a| a["type"] == json!("store") && (a["value"].as_str().unwrap_or("").contains("responseBodyJSON") || a["predicate"].as_str().unwrap_or("").contains("responseBodyJSON")));
        if resp_store {
            for a in plan.actions.iter_mut() {
                if let Some(m) = a.as_object_mut() {
                    m.remove("execution");
                }
            }
        } else {
            o.label("sequential");
        }
    }
    let no_body = with_req && s.chance(1, 16);
    if no_body {
        // nothing can be read from a body that is not there
        for st in &mut plan.stores {
            if st.1 != Want::No && reads(&plan.actions, &st.0, true) {
                st.1 = Want::No;
            }
        }
        if let Some(h) = &mut plan.halt {
            h.1 &= h.2;
        }
        for h in &mut plan.headers {
            h.2 = false;
        }
        for c in &mut plan.calls {
            if c.3 && c.1 != Want::No {
                c.1 = Want::No;
                c.2 = false;
            }
        }
        o.label("no-body");
    }
    o.nontrivial = true;
    let ct = match s.below(3) {
        _ if sse => Some(*s.pick(&["text/event-stream", "text/event-stream; charset=utf-8", "text/event-stream;charset=UTF-8"])),
        0 => None,
        1 => Some("application/json"),
        _ => Some("application/json; charset=utf-8"),
    };
    run(s, o, &plan, if no_body { None } else { rq.as_ref() }, rs.as_ref(), ct)
}
fn reads(actions: &[J], path: &str, req: bool) -> bool {
    let inner = actions.iter().flat_map(|a| a["onReply"].as_array().into_iter().flatten());
    actions.iter().chain(inner).any(|a| {
        a["path"] == json!(path)
            && [&a["value"], &a["predicate"]].iter().any(|e| e.as_str().unwrap_or("").contains(func(req)))
    })
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C16",
        run: c16,
        quick: 40_000,
        thorough: 2_000_000,
        rule: "at least one value is read from a body",
        assumptions: &["unspecified and not generated: pointers at objects or arrays, duplicate keys, a body that ends inside an addressed number"],
    },
    Check {
        id: "C17",
        run: c17,
        quick: 40_000,
        thorough: 2_000_000,
        rule: "at least one value is read from a body",
        assumptions: &["unspecified and not generated: pointers at objects or arrays, lines that end with a lone carriage return, a byte order mark, bytes that are no UTF-8"],
    }]
}

//! Legacy auth actions: what is sent (C10) and what the answer does (C11).
use crate::env::*;
use crate::fw::*;
use crate::gen::*;
use crate::wire::{Msg, W};
use proxy_wasm::sim::{Ev as SimEv, Prop, Stream};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

/// google.protobuf.Struct / Value <-> JSON
pub fn to_struct(m: &serde_json::Map<String, J>) -> Msg {
    let mut o = Msg::new();
    for (k, v) in m {
        o = o.m(1, Msg::new().s(1, k).m(2, to_value(v)));
    }
    o
}
pub fn to_value(v: &J) -> Msg {
    match v {
        J::Null => Msg::new().v(1, 0),
        J::Number(n) => Msg::new().d(2, n.as_f64().unwrap()),
        J::String(s) => Msg::new().s(3, s),
        J::Bool(b) => Msg::new().v(4, *b as u64),
        J::Object(m) => Msg::new().m(5, to_struct(m)),
        J::Array(a) => {
            let mut l = Msg::new();
            for x in a {
                l = l.m(1, to_value(x));
            }
            Msg::new().m(6, l)
        }
    }
}
pub fn from_value(m: &Msg) -> Option<J> {
    Some(match m.0.last()? {
        (1, W::Varint(0)) => J::Null,
        (2, W::I64(b)) => json!(f64::from_bits(*b)),
        (3, W::Len(b)) => json!(String::from_utf8(b.clone()).ok()?),
        (4, W::Varint(v)) => json!(*v != 0),
        (5, W::Len(b)) => J::Object(from_struct(&Msg::decode(b)?)?),
        (6, W::Len(b)) => J::Array(Msg::decode(b)?.msgs(1).iter().map(from_value).collect::<Option<Vec<_>>>()?),
        _ => return None,
    })
}
pub fn from_struct(m: &Msg) -> Option<serde_json::Map<String, J>> {
    let mut o = serde_json::Map::new();
    for e in m.msgs(1) {
        o.insert(e.get_s(1), from_value(&e.get_m(2).unwrap_or_default())?);
    }
    Some(o)
}

const OPTS: &[&str] = &["request.scheme", "request.protocol", "request.path", "request.method", "request.host", "request.time", "source.address", "source.port", "destination.address", "destination.port"];

fn c10(s: &mut Src, o: &mut Obs) -> Res {
    let mut r = Rq::gen(s);
    r.host = s.pick(&["api.example.com", "API.example.com:8080", "a"]).to_string();
    let mut st: Stream = r.stream();
    // several values of one header
    for _ in 0..s.count(2, 60) {
        let n = if s.chance(1, 4) { format!("x-n{}", s.n(60)) } else { s.pick(&["x-m", "cookie"]).to_string() };
        st.req_headers.push((n, s.string(TAME, 3)));
    }
    let nanos = match s.below(4) {
        0 => 1_700_000_000_000_000_000i64 + s.below(1 << 40) as i64,
        1 => s.below(1_000_000_000) as i64,
        2 => -(s.below(5_000_000_000) as i64),
        _ => s.edge_i64(),
    };
    set_prop(&mut st, "request.time", &nanos.to_le_bytes());
    let scheme = *s.pick(&["http", "https", ""]);
    let proto = *s.pick(&["HTTP/1.1", "HTTP/2", "HTTP/1.0", "HTTP/3"]);
    set_prop(&mut st, "request.scheme", scheme.as_bytes());
    set_prop(&mut st, "request.protocol", proto.as_bytes());
    let src = *s.pick(&["10.1.2.3:4567", "[2001:db8::1]:80", "unix:/tmp/x"]);
    let dst = *s.pick(&["10.9.8.7:80", "[::1]:443"]);
    let sp = *s.pick(&[0i64, 1, 4567, 65535]);
    let dp = *s.pick(&[80i64, 443, 65535]);
    set_prop(&mut st, "source.address", src.as_bytes());
    set_prop(&mut st, "destination.address", dst.as_bytes());
    set_prop(&mut st, "source.port", &sp.to_le_bytes());
    set_prop(&mut st, "destination.port", &dp.to_le_bytes());
    let missing = if s.chance(1, 8) { Some(*s.pick(OPTS)) } else { None };
    if let Some(m) = missing {
        if m != "request.host" {
            st.props.insert(m.split('.').map(String::from).collect(), Prop::Absent);
        }
    }
    // (domain, field, expr, value: Ok(string), Err when it fails)
    let mut data: Vec<(String, String, String, Option<Ev<String>>)> = vec![];
    let err = if s.chance(1, 10) { 3 } else { 0 };
    for _ in 0..s.count(4, 60) {
        let d = s.pick(&["", "a", "metrics.labels", "a.b", "zed"]).to_string();
        let f = if s.chance(1, 4) { format!("f{}x", s.n(60)) } else { s.pick(&["user", "plan", "k9k", "q\"uote", "é"]).to_string() };
        if data.iter().any(|x| x.0 == d && x.1 == f) {
            continue;
        }
        match s.below(6) {
            0 => {
                let e = s.pick(&["auth.identity.user", "auth.identity.a == \"x\" ? 'a\\n' : \"b\\t\"", "'auth.' + auth.x", "has(auth.metadata)", "auth . identity . user", "auth['identity']['user']", "[auth.a, auth.b].map(x, x)[0]"]).to_string();
                data.push((d, f, e, None));
            }
            1 => data.push((d, f, s.pick(BODY_DATA).to_string(), None)),
            // text that only looks like an expression over auth or the body
            2 if s.chance(1, 3) => {
                let l = *s.pick(&["auth.identity.user", "see oauth.x", "responseBodyJSON('/x')", "auth"]);
                data.push((d, f, format!("\"{l}\""), Some(Ok(l.to_string()))));
            }
            _ => {
                let (e, v) = scalar(s, &r, 2, err);
                data.push((d, f, e, Some(v.and_then(|v| v.text()))));
            }
        }
    }
    let scope = s.string(WILD, 5);
    let allow = s.bool();
    let npreds = if missing.is_some() { 0 } else { s.range(0, 2) };
    let pe = if s.chance(1, 8) { 1 } else { 0 };
    let preds: Vec<(String, Ev<bool>)> = (0..npreds).map(|_| boolean(s, &r, 2, pe)).collect();
    let mut act = json!({"service": "auth", "scope": scope});
    if !preds.is_empty() {
        act["predicates"] = json!(preds.iter().map(|p| p.0.clone()).collect::<Vec<_>>());
    }
    let cfg = json!({
        "services": {"auth": {"type": "auth", "endpoint": "authorino", "timeout": "200ms", "failureMode": if allow { "allow" } else { "deny" }}},
        "requestData": data.iter().map(|(d, f, e, _)| (if d.is_empty() { f.clone() } else { format!("{d}.{f}") }, json!(e))).collect::<serde_json::Map<_, _>>(),
        "actionSets": [{"name": "set", "routeRuleConditions": {"hostnames": ["*"]}, "actions": [act]}],
    });
    let ctx = || format!("headers {:?}\nconfiguration {cfg:#}", st.req_headers);
    let Some(vm) = Vm::new(&cfg) else { return fail("config-refused", format!("refused: {cfg:#}")) };
    let mut q = vm.open(11, st.clone());
    let step = q.headers(true);
    let calls = step.calls();
    let pv = all_of(&preds.iter().map(|p| p.1).collect::<Vec<_>>());
    o.checks += 1;
    let bad_data = data.iter().any(|d| matches!(d.3, Some(Err(()))));
    let fails = pv.is_err() || (pv == Ok(true) && (bad_data || missing.is_some_and(|m| m != "request.host")));
    if fails {
        o.label("cannot-be-built");
        o.nontrivial = true;
        ensure!(calls.is_empty(), "sent-although-unbuildable", "a call was made although the message cannot be built ({missing:?})\n{}", ctx());
        ensure!(step.metric("kuadrant.errors") == 1, "no-error", "errors +{}\n{}", step.metric("kuadrant.errors"), ctx());
        let codes: Vec<u32> = step.replies().iter().map(|r| r.0).collect();
        ensure!(codes == if allow { vec![] } else { vec![500] }, "failure-reply", "replies {codes:?}, allow {allow}\n{}", ctx());
        return Ok(());
    }
    ensure!(step.replies().is_empty(), "replied", "unexpected reply {:?}\n{}", step.replies(), ctx());
    if pv == Ok(false) {
        o.label("conditions-false");
        ensure!(calls.is_empty(), "sent-although-false", "called although a predicate is false\n{}", ctx());
        return Ok(());
    }
    ensure!(calls.len() == 1, "call-count", "{} calls\n{}", calls.len(), ctx());
    let c = calls[0];
    ensure!(
        c.upstream == "authorino" && c.service == "envoy.service.auth.v3.Authorization" && c.method == "Check" && c.timeout == std::time::Duration::from_millis(200),
        "call-target", "called {} {} {} {:?}", c.upstream, c.service, c.method, c.timeout
    );
    let m = Msg::decode(&c.message).and_then(|m| m.get_m(1));
    let Some(m) = m else { return fail("undecodable", format!("{:?}", c.message)) };
    ensure!(m.0.iter().all(|f| [1, 2, 4, 10, 11].contains(&f.0)), "extra-field", "unexpected attributes {:?}", m.0.iter().map(|f| f.0).collect::<Vec<_>>());
    let rq = m.get_m(4).unwrap_or_default();
    let http = rq.get_m(2).unwrap_or_default();
    let t = rq.get_m(1).unwrap_or_default();
    eq("time", &format!("request.time of {nanos} ns\n{}", ctx()), &(t.get_v(1) as i64, t.get_v(2) as i64), &(nanos.div_euclid(1_000_000_000), nanos.rem_euclid(1_000_000_000)))?;
    let pick = |n: u32| http.get_s(n);
    eq("http", &ctx(), &(pick(5), pick(2), pick(11).is_empty(), pick(4), pick(6), pick(10)), &(r.host.clone(), r.method.clone(), true, r.path.clone(), scheme.to_string(), proto.to_string()))?;
    ensure!(http.0.iter().all(|f| [2, 3, 4, 5, 6, 10].contains(&f.0)), "extra-http-field", "unexpected fields {:?}", http.0.iter().map(|f| f.0).collect::<Vec<_>>());
    let mut hs: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in &st.req_headers {
        hs.entry(k.clone()).and_modify(|x| { x.push(','); x.push_str(v) }).or_insert_with(|| v.clone());
    }
    let got: BTreeMap<String, String> = http.msgs(3).iter().map(|e| (e.get_s(1), e.get_s(2))).collect();
    eq("headers", "request headers in the message", &got, &hs)?;
    let peer = |n: u32| {
        let sa = m.get_m(n).and_then(|p| p.get_m(1)).and_then(|a| a.get_m(1)).unwrap_or_default();
        (sa.get_s(2), sa.get_v(3))
    };
    eq("source", "source peer", &peer(1), &(src.to_string(), sp as u64))?;
    eq("destination", "destination peer", &peer(2), &(dst.to_string(), dp as u64))?;
    let ext: Vec<(String, String)> = m.msgs(10).iter().map(|e| (e.get_s(1), e.get_s(2))).collect();
    eq("context-extensions", "context extensions", &ext, &vec![("host".to_string(), scope.clone())])?;
    let mut want = serde_json::Map::new();
    for (d, f, e, v) in &data {
        if BODY_DATA.contains(&e.as_str()) {
            continue;
        }
        let dom = if d.is_empty() { "io.kuadrant".to_string() } else { format!("io.kuadrant.{d}") };
        let val = match v {
            None => json!({"cel_expr": e}),
            Some(v) => json!(v.clone().unwrap()),
        };
        want.entry(dom).or_insert_with(|| json!({}))[f.as_str()] = val;
    }
    let mut have = serde_json::Map::new();
    for e in m.get_m(11).unwrap_or_default().msgs(1) {
        let Some(v) = from_struct(&e.get_m(2).unwrap_or_default()) else { return fail("metadata-undecodable", ctx()) };
        have.insert(e.get_s(1), J::Object(v));
    }
    eq("metadata", &format!("metadata context\n{}", ctx()), &J::Object(have), &J::Object(want.clone()))?;
    o.label("sent");
    if !want.is_empty() {
        o.nontrivial = true;
        o.label("sent-with-request-data");
        o.sample = Some(format!("scope {scope:?} request {r:?} -> metadata {}", J::Object(want)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C11
/// Expressions over the response body, as requestData has them.
pub const BODY_DATA: &[&str] = &["responseBodyJSON('/usage/total_tokens')", "responseBodyJSON ('/usage/total_tokens')", "1u+responseBodyJSON( \"/usage/total_tokens\" )"];

fn leaf(s: &mut Src) -> J {
    match s.below(6) {
        0 => json!(s.string(WILD, 4)),
        1 => json!(*s.pick(&[0.0, 1.0, -2.5, 1e300, 42.0])),
        2 => json!(s.bool()),
        3 => J::Null,
        4 => json!([1.0, "x", [true]]),
        _ => json!(*s.pick(&["alice", "bob", ""])),
    }
}
fn tree(s: &mut Src, depth: usize) -> serde_json::Map<String, J> {
    let mut m = serde_json::Map::new();
    for _ in 0..s.count(3, 40) {
        let k = if s.chance(1, 6) { format!("k{}", s.n(60)) } else { s.pick(&["identity", "user", "metadata", "a", "b", "plan", "weird key", "dot.ted"]).to_string() };
        let v = if depth > 0 && s.chance(1, 2) { J::Object(tree(s, depth - 1)) } else { leaf(s) };
        m.insert(k, v);
    }
    m
}
#[derive(Clone, Debug)]
enum A {
    Denied { code: Option<u64>, headers: Vec<(String, String)>, body: String },
    Ok { headers: Vec<(String, String)>, bad: Vec<u32>, meta: Option<serde_json::Map<String, J>> },
    Neither { meta: bool },
    Status(u32),
    Garbage,
    NoBody,
}
fn hdrs(s: &mut Src, names: &[&str]) -> Vec<(String, String)> {
    (0..s.count(3, 60)).map(|_| (if s.chance(1, 6) { format!("x-n{}", s.n(60)) } else { s.pick(names).to_string() }, s.string(&["a", "1", " ", ",", ";", "é", "\"", "=", "/"], 4))).collect()
}
fn opt(h: &[(String, String)], mut m: Msg, f: u32, s: &mut Src) -> Msg {
    for (k, v) in h {
        let mut x = Msg::new().m(1, Msg::new().s(1, &crate::gen::cased(s, k)).s(2, v));
        match s.below(4) {
            0 => x = x.m(2, Msg::new().v(1, 1)),
            1 => x = x.m(2, Msg::new()),
            _ => {}
        }
        m = m.m(f, x);
    }
    m
}
/// A CEL path to a value of the tree and the value, by a random walk.
fn walk(s: &mut Src, m: &serde_json::Map<String, J>) -> (String, J) {
    let mut p = "auth".to_string();
    let mut v = J::Object(m.clone());
    for _ in 0..3 {
        let J::Object(o) = &v else { break };
        if o.is_empty() {
            break;
        }
        let ks: Vec<&String> = o.keys().filter(|k| !k.contains(' ') && !k.contains('.')).collect();
        if ks.is_empty() {
            break;
        }
        let k = s.pick(&ks).to_string();
        p = format!("{p}.{k}");
        v = o[&k].clone();
    }
    (p, v)
}
fn same(p: &str, v: &J) -> String {
    match v {
        J::Null => format!("{p} == null"),
        J::Bool(b) => format!("{p} == {b}"),
        J::Number(n) => {
            let f = n.as_f64().unwrap();
            format!("{p} == {}", if f == 1e300 { "1e300".to_string() } else { format!("{f:?}") })
        }
        J::String(t) => format!("{p} == {}", lit(t)),
        J::Array(a) => format!("size({p}) == {} && {p}[1] == 'x'", a.len()),
        J::Object(o) => format!("size({p}) == {}", o.len()),
    }
}

fn c11(s: &mut Src, o: &mut Obs) -> Res {
    let allow = s.bool();
    let names = ["x-user", "x-in", "authorization", "x-new"];
    let a = match s.below(12) {
        0..=2 => A::Denied {
            code: *s.pick(&[None, Some(0), Some(401), Some(403), Some(302), Some(429), Some(500), Some(503), Some(404)]),
            headers: hdrs(s, &["www-authenticate", "location", "x-ext", "set-cookie"]),
            body: if s.chance(1, 40) { "no ".repeat(s.range(1, 40_000)) } else { s.pick(&["", "denied", "{\"error\": \"é\"}\n", " ", "\n", " no\t"]).to_string() },
        },
        3..=7 => A::Ok { headers: hdrs(s, &names), bad: vec![], meta: if s.chance(4, 5) { Some(tree(s, 3)) } else { None } },
        8 => {
            let k = *s.pick(&[5u32, 6, 7, 8]);
            A::Ok { headers: hdrs(s, &names), bad: vec![k], meta: if s.bool() { Some(tree(s, 2)) } else { None } }
        }
        9 => A::Neither { meta: s.bool() },
        10 => A::Status(*s.pick(&[1, 4, 7, 13, 14, 16])),
        _ => if s.bool() { A::Garbage } else { A::NoBody },
    };
    // a second action shows that the request goes on and what it can read
    let (path, val) = match &a {
        A::Ok { meta: Some(m), .. } => walk(s, m),
        _ => ("auth".into(), J::Null),
    };
    let dependent = matches!(&a, A::Ok { meta: Some(_), .. });
    let expr = if dependent { format!("({}) ? 'same' : 'different'", same(&path, &val)) } else { "'constant'".into() };
    let text = match (&val, dependent) {
        (J::String(_), true) => Some(path.clone()),
        _ => None,
    };
    let mut items = vec![json!({"expression": {"key": "cmp", "value": expr}})];
    if let Some(t) = &text {
        items.push(json!({"expression": {"key": "text", "value": t}}));
    }
    let cfg = json!({
        "services": {
            "auth": {"type": "auth", "endpoint": "authorino", "failureMode": if allow { "allow" } else { "deny" }},
            "rl": {"type": "ratelimit", "endpoint": "limitador", "failureMode": "deny"},
        },
        "actionSets": [{"name": "set", "routeRuleConditions": {"hostnames": ["*"]}, "actions": [
            {"service": "auth", "scope": "sc"},
            {"service": "rl", "scope": "rl", "conditionalData": [{"data": items}]},
        ]}],
    });
    let Some(vm) = Vm::new(&cfg) else { return fail("config-refused", format!("refused: {cfg:#}")) };
    let mut start: Vec<(String, String)> = vec![];
    for _ in 0..s.count(3, 60) {
        start.push((if s.chance(1, 6) { format!("x-n{}", s.n(60)) } else { s.pick(&["x-in", "authorization", "x-keep"]).to_string() }, s.pick(&["1", "2"]).to_string()));
    }
    let mut q = vm.open(11, stream("h", "/", "GET", &start.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect::<Vec<_>>()));
    let before = q.sim(|s| s.req_headers.clone());
    let st = q.headers(true);
    let ctx = || format!("answer {a:?}\nrequest headers {start:?}\n{cfg:#}");
    ensure!(st.calls().len() == 1, "call-count", "{} calls\n{}", st.calls().len(), ctx());
    let token = st.calls()[0].token;
    let st = match &a {
        A::Denied { code, headers, body } => {
            let mut d = Msg::new();
            if let Some(c) = code {
                d = d.m(1, if *c == 0 { Msg::new() } else { Msg::new().v(1, *c) });
            }
            d = opt(headers, d, 2, s);
            if !body.is_empty() {
                d = d.s(3, body);
            }
            let mut m = Msg::new().m(1, Msg::new().v(1, 7)).m(2, d);
            if s.chance(1, 3) {
                m = m.m(4, to_struct(json!({"leak": "x"}).as_object().unwrap()));
            }
            q.ok(token, m.encode())
        }
        A::Ok { headers, bad, meta } => {
            let mut k = opt(headers, Msg::new(), 2, s);
            for b in bad {
                k = match b {
                    5 => k.s(5, "x-in"),
                    6 => k.m(6, Msg::new().m(1, Msg::new().s(1, "x-r").s(2, "1"))),
                    7 => k.m(7, Msg::new().s(1, "q").s(2, "1")),
                    _ => k.s(8, "q"),
                };
            }
            let mut m = Msg::new().m(3, k);
            if let Some(x) = meta {
                m = m.m(4, to_struct(x));
            }
            q.ok(token, m.encode())
        }
        A::Neither { meta } => {
            let mut m = Msg::new().m(1, Msg::new().v(1, 7));
            if *meta {
                m = m.m(4, to_struct(json!({"identity": "x"}).as_object().unwrap()));
            }
            q.ok(token, m.encode())
        }
        A::Status(x) => q.answer(token, *x, Ok(None)),
        A::Garbage => q.ok(token, vec![0x0a, 0x7f, 0x01]),
        A::NoBody => q.answer(token, 0, Err(proxy_wasm::types::Status::InternalFailure)),
    };
    o.checks += 1;
    let exports: Vec<(Vec<String>, Option<Vec<u8>>)> = st.events.iter().filter_map(|e| if let SimEv::SetProp(k, v) = e { Some((k.clone(), v.clone())) } else { None }).collect();
    let now = q.sim(|s| s.req_headers.clone());
    let sort = |mut v: Vec<(String, String)>| {
        v.sort();
        v
    };
    let isr = b"Internal Server Error.\n".to_vec();
    let isr2 = isr.clone();
    let reply = match &a {
        A::Denied { code, headers, body } => {
            o.label("denied");
            let c = code.filter(|c| *c != 0).unwrap_or(403) as u32;
            Some((c, headers.clone(), if body.is_empty() { None } else { Some(body.clone().into_bytes()) }))
        }
        A::Ok { bad, .. } if !bad.is_empty() => Some((500, vec![], Some(isr))),
        A::Ok { .. } => None,
        A::Neither { .. } => Some((500, vec![], Some(isr))),
        _ if allow => None,
        _ => Some((500, vec![], Some(isr))),
    };
    if let Some(w) = reply {
        o.nontrivial = true;
        let rep = st.replies();
        if let A::Denied { code: None, .. } = &a {
            // a denial that leaves the status to the proxy
            let as_500 = !allow && rep.len() == 1 && rep[0] == (500, vec![], Some(isr2.clone())) && exports.is_empty() && st.calls().is_empty();
            let let_through = allow && rep.is_empty() && st.calls().len() == 1 && exports.is_empty();
            ensure!(!as_500 && !let_through, "denied-without-status", "{}: expected a reply 403\n{}", if let_through { "the denied request goes on" } else { "reply 500" }, ctx());
        }
        ensure!(rep.len() == 1, "reply-count", "{} replies\n{}", rep.len(), ctx());
        if w.0 == 500 && !matches!(a, A::Denied { .. }) {
            o.label("failed");
            ensure!(st.metric("kuadrant.errors") == 1, "errors", "errors +{}\n{}", st.metric("kuadrant.errors"), ctx());
        } else {
            ensure!(st.metric("kuadrant.errors") == 0, "errors", "errors +{}\n{}", st.metric("kuadrant.errors"), ctx());
        }
        eq("reply", &ctx(), &(rep[0].0, crate::gen::lower(&rep[0].1), rep[0].2.clone()), &w)?;
        ensure!(st.calls().is_empty() && exports.is_empty() && now == before && st.resumed_req() == 0, "effects-of-denied", "a denied or failed request had effects: {:?}\n{}", st.events, ctx());
        o.sample = Some(format!("{a:?} -> {w:?}"));
        return Ok(());
    }
    ensure!(st.replies().is_empty(), "replied", "unexpected reply {:?}\n{}", st.replies(), ctx());
    let mut want = before.clone();
    match &a {
        A::Ok { headers, meta, .. } => {
            o.label("ok");
            for (k, v) in headers {
                want.retain(|x| x.0 != *k);
                want.push((k.clone(), v.clone()));
            }
            o.nontrivial |= !headers.is_empty() || meta.as_ref().is_some_and(|m| !m.is_empty());
            match meta {
                Some(m) => {
                    o.label("metadata");
                    ensure!(exports.len() == 1 && exports[0].0.join(".") == "kuadrant.auth", "export", "exported {exports:?}\n{}", ctx());
                    let got = exports[0].1.as_ref().and_then(|b| Msg::decode(b)).and_then(|m| from_struct(&m));
                    eq("metadata", &format!("exported metadata\n{}", ctx()), &got, &Some(m.clone()))?;
                }
                None => ensure!(exports.is_empty(), "export", "exported {exports:?}\n{}", ctx()),
            }
        }
        _ => {
            o.label("failed-but-allowed");
            o.nontrivial = true;
            ensure!(exports.is_empty() && st.metric("kuadrant.errors") == 1, "effects-of-failed", "{:?}\n{}", st.events, ctx());
        }
    }
    eq("request-headers", &ctx(), &sort(now), &sort(want))?;
    let calls = st.calls();
    ensure!(calls.len() == 1 && calls[0].upstream == "limitador", "not-continued", "the next action did not follow: {:?}\n{}", st.events, ctx());
    let d = Msg::decode(&calls[0].message).and_then(|m| m.get_m(2)).unwrap_or_default();
    let got: Vec<(String, String)> = d.msgs(1).iter().map(|e| (e.get_s(1), e.get_s(2))).collect();
    let mut w = vec![("cmp".to_string(), if dependent { "same" } else { "constant" }.to_string())];
    if text.is_some() {
        w.push(("text".into(), val.as_str().unwrap().to_string()));
    }
    eq("readable-metadata", &format!("{path} after {a:?}\n{}", ctx()), &got, &w)?;
    if o.nontrivial {
        o.sample = Some(format!("{a:?} ; {path} = {val}"));
    }
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![
        Check {
            id: "C10",
            run: c10,
            quick: 60_000,
            thorough: 3_000_000,
            rule: "a message carrying request data was compared, or the message could not be built",
            assumptions: &["attribute values are as Envoy provides them"],
        },
        Check {
            id: "C11",
            run: c11,
            quick: 60_000,
            thorough: 3_000_000,
            rule: "the answer denied or failed the request, set headers or carried metadata",
            assumptions: &["header names are in lower case, as in HTTP/2"],
        },
    ]
}

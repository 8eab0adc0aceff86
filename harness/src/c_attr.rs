//! C14: attributes as expressions see them. C15: string functions.
use crate::c_auth::{from_struct, from_value};
use crate::c_msg::{cel_bytes, cel_double, rfc3339};
use crate::env::*;
use crate::fw::*;
use crate::gen::{lit, TEXT};
use crate::wire::Msg;
use proxy_wasm::sim::{Ev as SimEv, Prop, Stream};
use proxy_wasm::types::Status;
use serde_json::{json, Value as J};

/// What came of a request whose actions evaluate `claims` (as one list), `values` and at last `err`.
pub struct Seen {
    pub claims: Option<Vec<J>>,
    pub values: Vec<Option<J>>,
    pub err: Option<Vec<u8>>,
    pub step: Step,
}

pub fn exported(evs: &[SimEv], p: &str) -> Option<Vec<u8>> {
    evs.iter().rev().find_map(|e| match e {
        SimEv::SetProp(path, v) if path.join(".") == format!("kuadrant\\.{p}") || path.join(".") == format!("kuadrant.{p}") => v.clone(),
        _ => None,
    })
}
pub fn as_json(b: &[u8], object: bool) -> Option<J> {
    let m = Msg::decode(b)?;
    if object {
        from_struct(&m).map(J::Object)
    } else {
        from_value(&m)
    }
}
pub fn store(path: &str, value: &str) -> J {
    json!({"type": "store", "predicate": "true", "terminal": false, "path": path, "value": value, "exportToHost": true})
}
pub fn set(actions: J) -> J {
    json!({"services": {}, "actionSets": [{"name": "set", "routeRuleConditions": {"hostnames": ["*"]}, "actions": actions}]})
}

/// Evaluate against the real filter; `Err` when the configuration is refused.
pub fn evaluate(stream: Stream, claims: &[String], values: &[(String, bool)], err: Option<&str>) -> Result<Seen, Fail> {
    let mut acts = vec![store("all", &format!("[{}]", claims.join(", ")))];
    for (i, (v, _)) in values.iter().enumerate() {
        acts.push(store(&format!("v{i}"), v));
    }
    if let Some(e) = err {
        acts.push(store("err", e));
        // comes after it: waits as long as it waits
        acts.push(json!({"type": "grpc", "predicate": "true", "terminal": false, "execution": "sequential", "var": "r", "service": "after", "messageBuilder": "envoy.service.ratelimit.v3.RateLimitRequest{domain: 'after'}", "onReply": []}));
    }
    let mut c = set(json!(acts));
    if err.is_some() {
        c["services"] = json!({"after": {"type": "ratelimit", "endpoint": "after", "failureMode": "allow"}});
    }
    let Some(vm) = Vm::new(&c) else { return fail("config-refused", format!("refused: {c:#}")) };
    let mut q = vm.open(5, stream);
    let step = q.headers(true);
    let claims = exported(&step.events, "all").and_then(|b| as_json(&b, false)).and_then(|j| match j {
        J::Array(a) => Some(a),
        _ => None,
    });
    let vals = values.iter().enumerate().map(|(i, (_, o))| exported(&step.events, &format!("v{i}")).and_then(|b| as_json(&b, *o))).collect();
    let err = exported(&step.events, "err");
    Ok(Seen { claims, values: vals, err, step })
}

/// The claims hold, each; the values are as given; the erroneous expression fails.
pub fn settle(o: &mut Obs, stream: Stream, claims: &[(String, bool)], values: &[(String, J)], err: Option<&str>, ctx: &dyn Fn() -> String) -> Res {
    let cl: Vec<String> = claims.iter().map(|c| c.0.clone()).collect();
    let vs: Vec<(String, bool)> = values.iter().map(|v| (v.0.clone(), v.1.is_object())).collect();
    let seen = evaluate(stream, &cl, &vs, err)?;
    o.checks += (claims.len() + values.len() + err.is_some() as usize) as u64;
    let Some(got) = &seen.claims else {
        return fail("not-evaluated", format!("could not be evaluated: {cl:?}\nreplies {:?}\n{}", seen.step.replies(), ctx()));
    };
    ensure!(got.len() == claims.len(), "shape", "{} results for {} claims", got.len(), claims.len());
    for (g, (e, w)) in got.iter().zip(claims) {
        ensure!(*g == json!(w), "claim", "{e} is {g}, expected {w}\n{}", ctx());
    }
    for ((e, w), g) in values.iter().zip(&seen.values) {
        ensure!(g.as_ref() == Some(w), "value", "{e} is {g:?}, expected {w}\n{}", ctx());
    }
    let replies = seen.step.replies();
    match err {
        None => ensure!(replies.is_empty() && seen.step.metric("kuadrant.errors") == 0, "failed", "unexpected replies {replies:?}\n{}", ctx()),
        Some(e) => {
            ensure!(seen.step.calls().len() == 1, "waits", "{e} must fail, but is waited for\n{}", ctx());
            ensure!(seen.err.is_none(), "read", "{e} must fail, yet it gave {:?}\n{}", seen.err.as_ref().map(|b| Msg::decode(b)), ctx());
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14
#[derive(Clone, Copy, Debug, PartialEq)]
enum T {
    Str,
    Int,
    UInt,
    Bool,
    Bytes,
    Time,
}
const TABLE: &[(&str, T)] = &[
    ("request.time", T::Time),
    ("request.id", T::Str),
    ("request.protocol", T::Str),
    ("request.scheme", T::Str),
    ("request.host", T::Str),
    ("request.method", T::Str),
    ("request.path", T::Str),
    ("request.url_path", T::Str),
    ("request.query", T::Str),
    ("request.referer", T::Str),
    ("request.size", T::Int),
    ("request.useragent", T::Str),
    ("request.body", T::Str),
    ("request.raw_body", T::Bytes),
    ("source.address", T::Str),
    ("source.port", T::Int),
    ("source.service", T::Str),
    ("source.principal", T::Str),
    ("source.certificate", T::Str),
    ("destination.address", T::Str),
    ("destination.port", T::Int),
    ("destination.service", T::Str),
    ("destination.principal", T::Str),
    ("destination.certificate", T::Str),
    ("connection.requested_server_name", T::Str),
    ("connection.tls_session.sni", T::Str),
    ("connection.tls_version", T::Str),
    ("connection.subject_local_certificate", T::Str),
    ("connection.subject_peer_certificate", T::Str),
    ("connection.dns_san_local_certificate", T::Str),
    ("connection.dns_san_peer_certificate", T::Str),
    ("connection.uri_san_local_certificate", T::Str),
    ("connection.uri_san_peer_certificate", T::Str),
    ("connection.sha256_peer_certificate_digest", T::Str),
    ("connection.id", T::UInt),
    ("connection.mtls", T::Bool),
];

fn text(s: &mut Src) -> String {
    match s.below(5) {
        0 => String::new(),
        1 => s.pick(&["true", "12", "null", "\"q\"", "{\"a\": 1}", "[1]", "1.5"]).to_string(),
        2 => s.string(TEXT, 40),
        _ => s.string(TEXT, 6),
    }
}

/// CEL text of a JSON tree as the filter must see it: integers keep their sign's type.
fn json_claims(p: &str, j: &J, out: &mut Vec<(String, bool)>) {
    match j {
        J::Null => out.push((format!("{p} == null"), true)),
        J::Bool(b) => out.push((format!("{p} == {b}"), true)),
        J::Number(n) => {
            if let Some(u) = n.as_u64() {
                // an unsigned integer: arithmetic with an unsigned literal is possible
                out.push((format!("{p} == {u}u"), true));
                out.push((format!("{p} / 1u == {u}u"), true));
            } else if let Some(i) = n.as_i64() {
                out.push((format!("{p} == {i}"), true));
                out.push((format!("{p} / 1 == {i}"), true));
            } else {
                let d = cel_double(n.as_f64().unwrap().to_bits());
                out.push((format!("{p} == {d}"), true));
            }
        }
        J::String(t) => out.push((format!("{p} == {}", lit(t)), true)),
        J::Array(a) => {
            out.push((format!("size({p}) == {}", a.len()), true));
            for (i, x) in a.iter().enumerate() {
                json_claims(&format!("{p}[{i}]"), x, out);
            }
        }
        J::Object(m) => {
            out.push((format!("size({p}) == {}", m.len()), true));
            for (k, x) in m {
                json_claims(&format!("{p}[{}]", lit(k)), x, out);
            }
        }
    }
}
pub fn gen_json(s: &mut Src, depth: usize) -> J {
    match s.below(if depth == 0 { 5 } else { 7 }) {
        0 => J::Null,
        1 => json!(s.bool()),
        2 => json!(s.edge_u64()),
        3 => match s.below(3) {
            0 => json!(-(s.range(1, 1000) as i64)),
            1 => json!(-(s.edge_u64() as i64 >> 1).abs() - 1),
            _ => json!((s.edge_i64() % 1_000_000_000) as f64 / 8.0 + 0.5),
        },
        4 => json!(s.string(TEXT, 5)),
        5 => J::Array((0..s.count(3, 200)).map(|_| gen_json(s, depth - 1)).collect()),
        _ => J::Object((0..s.count(3, 200)).map(|_| (if s.chance(1, 4) { s.string(TEXT, 3) } else { s.ident(3) }, gen_json(s, depth - 1))).collect()),
    }
}

fn ip(s: &mut Src) -> (String, String) {
    let port = s.pick(&["1", "80", "4567", "65535"]).to_string();
    match s.below(4) {
        0 | 1 => {
            let a = format!("{}.{}.{}.{}", s.below(256), s.below(256), s.below(256), s.below(256));
            (format!("{a}:{port}"), a)
        }
        2 => {
            let a = s.pick(&["::1", "2001:db8::1", "fe80::1", "2001:db8:1:2:3:4:5:6", "::ffff:10.0.0.1", "::", "fe80::1%eth0"]).to_string();
            (format!("[{a}]:{port}"), a)
        }
        _ => {
            let n = s.range(1, 8);
            let mut a = (0..n).map(|_| format!("{:x}", s.below(65536))).collect::<Vec<_>>().join(":");
            if n < 8 {
                a.push_str("::");
            }
            (format!("[{a}]:{port}"), a)
        }
    }
}

fn c14(s: &mut Src, o: &mut Obs) -> Res {
    let mut st = stream("a.example.com", "/p", "GET", &[]);
    let mut claims: Vec<(String, bool)> = vec![];
    let mut values: Vec<(String, J)> = vec![];
    let mut err: Option<String> = None;
    let mut note = vec![];
    let mut used = std::collections::BTreeSet::new();

    // the typed attributes
    for _ in 0..s.range(1, 8) {
        let (name, t) = *s.pick(TABLE);
        if !used.insert(name) {
            continue;
        }
        let p: Vec<String> = name.split('.').map(String::from).collect();
        // routing needs the host
        match if name == "request.host" { 2 } else { s.below(12) } {
            0 => {
                st.props.insert(p, Prop::Absent);
                claims.push((format!("{name} == null"), true));
                o.label("absent");
                continue;
            }
            1 if err.is_none() => {
                // not a value of its type, or not to be had
                let bad = match t {
                    _ if s.chance(1, 3) => Prop::Fail(*s.pick(&[Status::NotFound, Status::InternalFailure, Status::BadArgument, Status::Empty])),
                    T::Str => Prop::Val(s.pick(&[vec![0xff], vec![b'a', 0xc3], vec![0xed, 0xa0, 0x80], vec![b'x', 0x80, b'y']]).clone()),
                    T::Bool => Prop::Val(s.pick(&[vec![], vec![1, 0], vec![0, 0, 0, 0, 0, 0, 0, 0], b"true".to_vec()]).clone()),
                    T::Bytes => Prop::Fail(Status::InternalFailure),
                    T::Int | T::UInt | T::Time => Prop::Val(s.pick(&[vec![], vec![1], vec![1, 0, 0, 0], vec![0; 7], vec![0; 9], b"17".to_vec(), vec![0; 16]]).clone()),
                };
                // absent and not-yet-available are other stories
                if matches!(bad, Prop::Fail(Status::NotFound) | Prop::Fail(Status::BadArgument) | Prop::Fail(Status::Empty)) {
                    continue;
                }
                note.push(format!("{name} = {bad:?}"));
                st.props.insert(p, bad);
                err = Some(name.into());
                o.label("malformed");
                continue;
            }
            _ => {}
        }
        let bytes = match t {
            T::Str => {
                let v = text(s);
                claims.push((format!("{name} == {}", lit(&v)), true));
                values.push((name.into(), json!(v)));
                v.into_bytes()
            }
            T::Int => {
                let v = s.edge_i64();
                if v != i64::MIN {
                    claims.push((format!("{name} == {v}"), true));
                    claims.push((format!("{name} / 1 == {v}"), true));
                } else {
                    claims.push((format!("{name} + 1 == -9223372036854775807"), true));
                }
                values.push((name.into(), json!(v as f64)));
                v.to_le_bytes().to_vec()
            }
            T::UInt => {
                let v = s.edge_u64();
                claims.push((format!("{name} == {v}u"), true));
                claims.push((format!("{name} / 1u == {v}u"), true));
                values.push((name.into(), json!(v as f64)));
                v.to_le_bytes().to_vec()
            }
            T::Bool => {
                let v = s.bool();
                claims.push((name.into(), v));
                vec![v as u8]
            }
            T::Bytes => {
                let v: Vec<u8> = if s.bool() { text(s).into_bytes() } else { (0..s.range(0, 6)).map(|_| s.below(256) as u8).collect() };
                if let Ok(t) = std::str::from_utf8(&v) {
                    values.push((name.into(), json!(t)));
                }
                claims.push((format!("{name} == {}", cel_bytes(&v)), true));
                claims.push((format!("size({name}) == {}", v.len()), true));
                v
            }
            T::Time => {
                let n = match s.below(3) {
                    0 => 1_700_000_000_000_000_000 + s.below(1_000_000_000) as i64,
                    1 => -(s.below(4_000_000_000_000_000_000) as i64),
                    _ => s.below(8_000_000_000_000_000_000) as i64,
                };
                let (secs, nanos) = (n.div_euclid(1_000_000_000), n.rem_euclid(1_000_000_000) as u32);
                claims.push((format!("{name} == timestamp('{}')", rfc3339(secs, nanos)), true));
                claims.push((format!("{name} == timestamp('{}')", rfc3339(secs, nanos ^ 1)), false));
                n.to_le_bytes().to_vec()
            }
        };
        o.label(format!("{t:?}"));
        note.push(format!("{name} = {bytes:?}"));
        st.props.insert(p, Prop::Val(bytes));
    }

    // the client's address
    if !used.contains("source.address") && s.chance(1, 2) {
        let (full, addr) = ip(s);
        set_prop(&mut st, "source.address", full.as_bytes());
        claims.push((format!("source.remote_address == {}", lit(&addr)), true));
        if s.bool() {
            claims.push((format!("source.address == {}", lit(&full)), true));
        }
        o.label(if full.starts_with('[') { "address-v6" } else { "address-v4" });
        note.push(format!("source.address = {full}"));
    }

    // headers
    if s.chance(1, 2) {
        let names = ["x-a", "x-b", "content-type", "cookie"];
        let mut h: Vec<(String, String)> = vec![(":authority".into(), "a.example.com".into()), (":method".into(), "GET".into())];
        for _ in 0..s.count(6, 80) {
            let n = s.pick(&names).to_string();
            let v = s.string(TEXT, 5).replace(['\n', '\r'], "");
            h.push((n, v));
        }
        for n in names {
            let vs: Vec<&str> = h.iter().filter(|x| x.0 == n).map(|x| x.1.as_str()).collect();
            if vs.is_empty() {
                claims.push((format!("'{n}' in request.headers"), false));
                if s.bool() {
                    claims.push((format!("request.headers[?'{n}'].orValue('none') == 'none'"), true));
                }
            } else {
                let j = vs.join(",");
                claims.push((format!("request.headers['{n}'] == {}", lit(&j)), true));
                claims.push((format!("'{n}' in request.headers"), true));
                if s.bool() {
                    claims.push((format!("request.headers[?'{n}'].orValue('none') == {}", lit(&j)), true));
                }
                if vs.len() > 1 {
                    o.label("repeated-header");
                }
            }
        }
        let distinct: std::collections::BTreeSet<&String> = h.iter().map(|x| &x.0).collect();
        claims.push((format!("size(request.headers) == {}", distinct.len()), true));
        note.push(format!("headers {h:?}"));
        st.req_headers = h;
        o.label("headers");
    }

    // gRPC requests
    if !used.contains("request.url_path") && s.chance(1, 3) {
        let ct = s.pick(&["application/grpc", "application/grpc+proto", "application/grpc-web", "application/json", "text/application/grpc", ""]).to_string();
        let (a, b) = (s.pick(&["pkg.Svc", "S", "a.b.C", ""]).to_string(), s.pick(&["Do", "m", "", "a/b"]).to_string());
        let path = match s.below(6) {
            0 => format!("{a}/{b}"),
            1 => format!("/{a}"),
            _ => format!("/{a}/{b}"),
        };
        let parts: Vec<&str> = path.split('/').collect();
        let grpc = ct.starts_with("application/grpc") && parts.len() == 3 && parts[0].is_empty() && !parts[1].is_empty() && !parts[2].is_empty();
        let (a, b) = if grpc { (parts[1].to_string(), parts[2].to_string()) } else { (a, b) };
        st.req_headers.retain(|x| x.0 != "content-type");
        claims.retain(|c| !c.0.contains("content-type") && !c.0.contains("size(request.headers)"));
        if !ct.is_empty() {
            st.req_headers.push(("content-type".into(), ct.clone()));
        }
        set_prop(&mut st, "request.url_path", path.as_bytes());
        claims.push(("has(request.grpc)".into(), grpc));
        if grpc {
            claims.push((format!("request.grpc.service == {}", lit(&a)), true));
            claims.push((format!("request.grpc.method == {}", lit(&b)), true));
            if !used.contains("request.method") {
                claims.push((format!("request.grpc.method == {} && request.method == 'GET'", lit(&b)), true));
            }
        } else if err.is_none() && s.bool() {
            err = Some("request.grpc.service".into());
        }
        note.push(format!("{ct} {path}"));
        o.label(if grpc { "grpc" } else { "not-grpc" });
    }

    // metadata: JSON, or else text
    let mut paths: Vec<Vec<String>> = vec![];
    for i in 0..s.range(0, 4) {
        let path: Vec<String> = if !paths.is_empty() && s.bool() {
            // one that is easily taken for another
            let mut p = s.pick(&paths).clone();
            let n = p.len();
            match s.below(5) {
                0 => p[n - 1] = p[n - 1].to_uppercase(),
                1 => p[1] = format!("{}{}", p[1][..1].to_uppercase(), &p[1][1..]),
                2 => p[n - 1].push('0'),
                3 if n > 2 => p.swap(1, n - 1),
                3 => p.insert(1, "k".into()),
                _ if n > 2 => {
                    let l = p.pop().unwrap();
                    p[n - 2] += &format!("_{l}");
                }
                _ => p.push("k".into()),
            }
            o.label("alike-names");
            p
        } else {
            std::iter::once("metadata".to_string()).chain((0..s.range(1, 3)).map(|j| format!("k{i}{j}{}", s.ident(2)))).collect()
        };
        // none lies within another
        if paths.iter().any(|q| q.iter().zip(&path).all(|(a, b)| a == b)) {
            continue;
        }
        paths.push(path.clone());
        let p = path.join(".");
        let (bytes, j) = match s.below(6) {
            0 => {
                // text that is no JSON
                let t = s.pick(&["plain", "1 2", "{", "[1,", "'q'", "01", "+1", "NaN", "tru", " plain", "two words ", "\tplain\n", "a\"b", "1e999", "nulll", "0x10", "\u{feff}1", "\"unterminated"]).to_string();
                let j = json!(t);
                o.label("metadata-text");
                (t.into_bytes(), j)
            }
            1 => {
                let t = s.pick(&[" 5 ", "\n{}\t", "[ ]", "\"\\u00e9\\n\"", "-0", "1E2", "1.0", "18446744073709551616", "-9223372036854775808"]).to_string();
                let j = serde_json::from_str(&t).unwrap();
                o.label("metadata-odd-json");
                (t.into_bytes(), j)
            }
            _ => {
                let j = gen_json(s, 2);
                o.label("metadata-json");
                (j.to_string().into_bytes(), j)
            }
        };
        if j == json!(i64::MIN) {
            // no literal for it
            claims.push((format!("{p} + 1 == -9223372036854775807"), true));
        } else if !has_min(&j) {
            json_claims(&p, &j, &mut claims);
        }
        note.push(format!("{p} = {}", String::from_utf8_lossy(&bytes)));
        st.props.insert(path, Prop::Val(bytes));
    }
    // operands that are no attributes must not be confused with them
    if s.chance(1, 3) && !used.contains("request.host") {
        let f = format!("f{}", s.ident(3));
        let e = match s.below(6) {
            0 => format!("{{'{f}': 'x'}}.{f} == 'x' && request.host == 'a.example.com'"),
            1 => format!("request.host == 'a.example.com' && {{'{f}': request.host}}.{f} == request.host"),
            2 => format!("{{'{f}': request.host}}.{f} == 'a.example.com'"),
            3 => "[request.host].map(x, x.size())[0] == 13 && request.host == 'a.example.com'".to_string(),
            4 => format!("[{{'{f}': 'a.example.com'}}].exists(h, h.{f} == request.host)"),
            _ => format!("{{'{f}': {{'{f}': request.host}}}}.{f}.{f}.size() == 13"),
        };
        claims.push((e, true));
        o.label("operands");
    }
    if claims.is_empty() {
        claims.push(("request.no_such_attribute == null".into(), true));
    }
    // in the key of a map
    for c in claims.iter_mut() {
        if s.chance(1, 12) {
            c.0 = format!("{{({}): 'k'}} == {{{}: 'k'}}", c.0, c.1);
            c.1 = true;
            o.label("in-map-key");
        }
    }
    s.shuffle(&mut claims);
    s.shuffle(&mut values);
    values.truncate(3);
    o.nontrivial = claims.len() > 1 || err.is_some();
    o.sample = Some(claims.iter().take(5).map(|c| c.0.clone()).collect::<Vec<_>>().join("; "));
    let e = err.map(|e| format!("[{e}]"));
    settle(o, st, &claims, &values, e.as_deref(), &|| format!("host: {}", note.join("; ")))
}
fn has_min(j: &J) -> bool {
    match j {
        J::Number(n) => n.as_i64() == Some(i64::MIN),
        J::Array(a) => a.iter().any(has_min),
        J::Object(m) => m.values().any(has_min),
        _ => false,
    }
}

// ---------------------------------------------------------------- C15
const AB: &[&str] = &["a", "b", "ab", "A", "Z", "é", "É", "日", "😀", " ", "\t", ",", "ß", "\u{2003}", "1"];

fn chars(t: &str) -> Vec<char> {
    t.chars().collect()
}
fn find(h: &[char], n: &[char], from: usize) -> Option<usize> {
    (from..=h.len()).find(|i| h.len() - i >= n.len() && h[*i..*i + n.len()] == *n)
}
fn rfind(h: &[char], n: &[char], upto: usize) -> Option<usize> {
    (0..=upto.min(h.len())).rev().find(|i| h.len() - i >= n.len() && h[*i..*i + n.len()] == *n)
}
fn splits(h: &str, sep: &str, limit: usize) -> Vec<String> {
    // the naive definition, for a non-empty separator
    let mut out = vec![];
    let mut rest = h.to_string();
    if limit == 0 {
        return out;
    }
    while out.len() + 1 < limit {
        let (hc, nc) = (chars(&rest), chars(sep));
        match find(&hc, &nc, 0) {
            None => break,
            Some(i) => {
                out.push(hc[..i].iter().collect());
                rest = hc[i + nc.len()..].iter().collect();
            }
        }
    }
    out.push(rest);
    out
}
fn subject(s: &mut Src) -> (String, String) {
    let t = s.string(AB, 6);
    // a third of the subjects come from the request
    let e = match s.below(3) {
        0 => "request.headers['x-t']".to_string(),
        _ => lit(&t),
    };
    (t, e)
}
fn piece(s: &mut Src, t: &str) -> String {
    let c = chars(t);
    if !c.is_empty() && s.chance(2, 3) {
        let a = s.n(c.len());
        let b = s.range(a, c.len().min(a + 2));
        c[a..b].iter().collect()
    } else {
        s.string(AB, 2)
    }
}
fn num(s: &mut Src, n: i64) -> String {
    if n >= 0 && s.chance(1, 4) {
        format!("{n}u")
    } else {
        n.to_string()
    }
}

fn c15(s: &mut Src, o: &mut Obs) -> Res {
    let mut claims: Vec<(String, bool)> = vec![];
    let mut err = None;
    let mut header = String::new();
    let mut fixed = false;
    let n = s.range(1, 8);
    for _ in 0..n {
        let (mut t, mut e) = subject(s);
        if e.starts_with("request") {
            // a header holds no control characters
            if fixed {
                t = header.clone();
            } else {
                t = t.replace('\t', "");
                header = t.clone();
                fixed = true;
            }
        }
        if s.chance(1, 6) {
            e = format!("({e} + '')");
        }
        let c = chars(&t);
        if t.chars().any(|x| !x.is_ascii()) {
            o.label("non-ascii");
        }
        match s.below(12) {
            0 => {
                let i = s.range(0, c.len() + 1);
                let i = if s.chance(1, 8) { -1 } else { i as i64 };
                let x = format!("{e}.charAt({i})");
                if i >= 0 && (i as usize) < c.len() {
                    claims.push((format!("{x} == {}", lit(&c[i as usize].to_string())), true));
                } else if err.is_none() {
                    err = Some(x);
                }
                o.label("charAt");
            }
            1 => {
                let p = piece(s, &t);
                let w = find(&c, &chars(&p), 0).map_or(-1, |x| x as i64);
                claims.push((format!("{e}.indexOf({}) == {w}", lit(&p)), true));
                o.label("indexOf");
            }
            2 => {
                let p = piece(s, &t);
                let b = s.range(0, c.len() + 2);
                let w = if b >= c.len() { -1 } else { find(&c, &chars(&p), b).map_or(-1, |x| x as i64) };
                let bs = num(s, b as i64);
                claims.push((format!("{e}.indexOf({}, {bs}) == {w}", lit(&p)), true));
                o.label("indexOf-from");
            }
            3 => {
                let p = piece(s, &t);
                let w = rfind(&c, &chars(&p), c.len()).map_or(-1, |x| x as i64);
                claims.push((format!("{e}.lastIndexOf({}) == {w}", lit(&p)), true));
                o.label("lastIndexOf");
            }
            4 => {
                let p = piece(s, &t);
                let b = s.range(0, c.len() + 2);
                let w = if b >= c.len() { -1 } else { rfind(&c, &chars(&p), b).map_or(-1, |x| x as i64) };
                let bs = num(s, b as i64);
                claims.push((format!("{e}.lastIndexOf({}, {bs}) == {w}", lit(&p)), true));
                o.label("lastIndexOf-from");
            }
            5 => {
                let a = s.range(0, c.len() + 1);
                let one = s.bool();
                let b = if one { c.len() } else { s.range(0, c.len() + 2) };
                let x = if one {
                    format!("{e}.substring({})", num(s, a as i64))
                } else {
                    format!("{e}.substring({}, {})", num(s, a as i64), num(s, b as i64))
                };
                if a <= b {
                    let w: String = c.iter().skip(a).take(b - a).collect();
                    claims.push((format!("{x} == {}", lit(&w)), true));
                } else if err.is_none() {
                    err = Some(x);
                }
                o.label("substring");
            }
            6 => {
                let p = piece(s, &t);
                let r = s.string(AB, 2);
                if p.is_empty() {
                    continue;
                }
                let k = s.pick(&[None, None, Some(-1i64), Some(0), Some(1), Some(2), Some(9)]);
                let limit = k.map_or(usize::MAX, |k| if k < 0 { usize::MAX } else { k as usize + 1 });
                let w = splits(&t, &p, limit).join(&r);
                let k = k.map_or(String::new(), |k| format!(", {k}"));
                claims.push((format!("{e}.replace({}, {}{k}) == {}", lit(&p), lit(&r), lit(&w)), true));
                o.label("replace");
            }
            7 => {
                let p = piece(s, &t);
                if p.is_empty() {
                    continue;
                }
                let k = s.pick(&[None, None, Some(-1i64), Some(0), Some(1), Some(2), Some(9)]);
                let limit = k.map_or(usize::MAX, |k| if k < 0 { usize::MAX } else { k as usize });
                let w = splits(&t, &p, limit);
                let k = k.map_or(String::new(), |k| format!(", {k}"));
                claims.push((format!("{e}.split({}{k}) == [{}]", lit(&p), w.iter().map(|x| lit(x)).collect::<Vec<_>>().join(", ")), true));
                o.label("split");
            }
            8 => {
                let l: Vec<String> = (0..s.range(0, 4)).map(|_| s.string(AB, 2)).collect();
                let sep = if s.bool() { Some(s.string(AB, 2)) } else { None };
                let w = l.join(sep.as_deref().unwrap_or(""));
                claims.push((format!("[{}].join({}) == {}", l.iter().map(|x| lit(x)).collect::<Vec<_>>().join(", "), sep.as_ref().map_or(String::new(), |x| lit(x)), lit(&w)), true));
                o.label("join");
            }
            9 => {
                let up: String = c.iter().map(|x| if x.is_ascii_lowercase() { ((*x as u8) - 32) as char } else { *x }).collect();
                let lo: String = c.iter().map(|x| if x.is_ascii_uppercase() { ((*x as u8) + 32) as char } else { *x }).collect();
                claims.push((format!("{e}.upperAscii() == {}", lit(&up)), true));
                claims.push((format!("{e}.lowerAscii() == {}", lit(&lo)), true));
                o.label("case");
            }
            10 => {
                let mut a = 0;
                let mut b = c.len();
                while a < b && c[a].is_whitespace() {
                    a += 1;
                }
                while b > a && c[b - 1].is_whitespace() {
                    b -= 1;
                }
                let w: String = c[a..b].iter().collect();
                claims.push((format!("{e}.trim() == {}", lit(&w)), true));
                o.label("trim");
            }
            _ => {
                // the functions agree on what a position is
                let p = piece(s, &t);
                if p.is_empty() || find(&c, &chars(&p), 0).is_none() {
                    continue;
                }
                let l = chars(&p).len();
                let q = lit(&p);
                let i = find(&c, &chars(&p), 0).unwrap();
                let tail: String = c[i + l..].iter().collect();
                claims.push((format!("{e}.substring({e}.indexOf({q}), {e}.indexOf({q}) + {l}) == {q}"), true));
                claims.push((format!("{e}.substring({e}.indexOf({q}) + {l}) == {}", lit(&tail)), true));
                claims.push((format!("{e}.charAt({e}.lastIndexOf({q})) == {}", lit(&chars(&p)[0].to_string())), true));
                o.label("positions");
            }
        }
    }
    if err.is_none() && s.chance(1, 8) {
        err = Some(s.pick(&["'a'.replace('a')", "'a'.replace(1, 'b')", "['a', 1].join()", "['a'].join(1)", "'a'.split(1)", "'a'.split('a', 'b')", "'a'.substring('x')", "'a'.indexOf('a', 'b')", "1.trim()", "'a'.indexOf('a', 1, 2)", "'abc'.lastIndexOf('b', 'c')"]).to_string());
    }
    if claims.is_empty() {
        claims.push(("true".into(), true));
    }
    let h = [("x-t", header.as_str())];
    let st = stream("a.example.com", "/p", "GET", &h);
    o.nontrivial = claims.len() > 1 || err.is_some();
    o.sample = Some(claims.iter().take(4).map(|c| c.0.clone()).collect::<Vec<_>>().join("; "));
    settle(o, st, &claims, &[], err.as_deref(), &|| format!("x-t: {header:?}"))
}

const A: &[&str] = &["integer literals exclude the 64-bit minimum, which the CEL library does not parse"];
pub fn all() -> Vec<Check> {
    vec![
        Check { id: "C14", run: c14, quick: 60_000, thorough: 3_000_000, rule: "at least two statements about attributes, or a malformed attribute", assumptions: A },
        Check { id: "C15", run: c15, quick: 60_000, thorough: 3_000_000, rule: "at least two applications of string functions, or one that must fail", assumptions: A },
    ]
}

//! C26: nothing that reaches the filter crashes it.
use crate::env::*;
use crate::fw::*;
use crate::gen::lit;
use crate::wire::Msg;
use proxy_wasm::sim::{self, Prop};
use proxy_wasm::types::{Action, Status};
use serde_json::{json, Value as J};

const TEXT: &[&str] = &["a", "b", "1", " ", "é", "日", "😀", "\\", "'", "\"", "{", "}", "[", "]", ":", ",", "/", ".", "-", "\n", "\r\n", "\u{0}", "%", "*", "e"];
const ROOTS: &[&str] = &["request", "source", "destination", "connection", "metadata", "auth", "r", "v1", "response", "filter_state", "upstream", "xds", "kept"];
const FIELDS: &[&str] = &["headers", "path", "host", "time", "id", "size", "method", "address", "port", "remote_address", "grpc", "service", "mtls", "identity", "user", "ok_response", "denied_response", "status", "code", "overall_code", "dynamic_metadata", "a", "x_y"];
const POINTERS: &[&str] = &["", "/", "/a", "/a/b", "/0", "/a/0", "/~0~1", "/~", "a", "/日", "/a~2", "//", "/-", "/99999999999999999999", "/usage/total_tokens"];

fn text(s: &mut Src) -> String {
    if s.chance(1, 30) {
        return long(s);
    }
    s.string(TEXT, 8)
}
/// Long enough to be cut, at places that are not between characters.
fn long(s: &mut Src) -> String {
    let mut t = "a".repeat(s.below(4) as usize);
    let n = s.range(1, 300);
    t.push_str(&s.pick(&["é", "日", "\u{1f600}", "aé", "x", "é.", "/日", "é=", "\u{130}", "日,"]).repeat(n));
    t
}
fn blob(s: &mut Src, max: usize) -> Vec<u8> {
    match s.below(3) {
        0 => (0..s.range(0, max)).map(|_| s.below(256) as u8).collect(),
        1 => text(s).into_bytes(),
        _ => (0..s.range(0, max.min(12))).map(|_| *s.pick(&[0u8, 8, 10, 18, 0x7f, 0x80, 0xff, 1, 2, 0x1a, 0x22])).collect(),
    }
}
/// Any expression at all: sensible or not, of any type.
fn wild(s: &mut Src, d: usize) -> String {
    if d == 0 || s.chance(1, 4) {
        return match s.below(14) {
            0 => s.edge_i64().to_string(),
            1 => format!("{}u", s.edge_u64()),
            2 => s.pick(&["0.0", "-1.5", "1e308", "1e-320", "(0.0 / 0.0)", "(1.0 / 0.0)", "9223372036854775808.0", "-9.3e18"]).to_string(),
            3 => lit(&text(s)),
            4 => s.pick(&["b''", "b'\\xff\\x00'", "null", "true", "false", "[]", "{}", "''"]).to_string(),
            5 | 6 => format!("{}.{}", s.pick(ROOTS), s.pick(FIELDS)),
            7 => format!("{}.{}.{}", s.pick(ROOTS), s.pick(FIELDS), s.pick(FIELDS)),
            8 => format!("request.headers[{}]", lit(s.pick(&["x-a", "x-b", ":path", "none"]))),
            9 => format!("requestBodyJSON({})", lit(s.pick(POINTERS))),
            10 => format!("responseBodyJSON({})", lit(s.pick(POINTERS))),
            11 => s.pick(&["timestamp('1970-01-01T00:00:00Z')", "timestamp('9999-12-31T23:59:59.999999999Z')", "timestamp('0001-01-01T00:00:00Z')", "request.time", "timestamp('x')"]).to_string(),
            12 => s.pick(&["duration('1s')", "duration('-9223372036s')", "duration('9223372036854775807ns')", "duration('x')", "duration('1.5h')"]).to_string(),
            _ => s.pick(ROOTS).to_string(),
        };
    }
    let n = d - 1;
    match s.below(22) {
        0..=3 => format!("({} {} {})", wild(s, n), s.pick(&["+", "-", "*", "/", "%"]), wild(s, n)),
        4 | 5 => format!("({} {} {})", wild(s, n), s.pick(&["==", "!=", "<", "<=", ">", ">=", "in", "&&", "||"]), wild(s, n)),
        6 => format!("({} ? {} : {})", wild(s, n), wild(s, n), wild(s, n)),
        7 => format!("{}[{}]", wild(s, n), wild(s, n)),
        8 => format!("{}.{}", wild(s, n), s.pick(FIELDS)),
        9 => format!("[{}, {}]", wild(s, n), wild(s, n)),
        10 => format!("{{{}: {}}}", wild(s, n), wild(s, n)),
        11 => format!("has({}.{})", s.pick(ROOTS), s.pick(FIELDS)),
        12 => format!("{}({})", s.pick(&["size", "string", "int", "uint", "double", "bytes", "duration", "timestamp", "type", "dyn", "max", "min", "bool"]), wild(s, n)),
        13 => format!("-({})", wild(s, n)),
        14 => format!("!({})", wild(s, n)),
        15 => format!("{}.{}({})", wild(s, n), s.pick(&["contains", "startsWith", "endsWith", "matches", "charAt", "indexOf", "lastIndexOf", "substring", "split", "join"]), wild(s, n)),
        16 => format!("{}.{}({}, {})", wild(s, n), s.pick(&["substring", "indexOf", "lastIndexOf", "replace", "split"]), wild(s, n), wild(s, n)),
        17 => format!("{}.replace({}, {}, {})", wild(s, n), wild(s, n), wild(s, n), wild(s, n)),
        18 => format!("{}.{}()", wild(s, n), s.pick(&["trim", "lowerAscii", "upperAscii", "join", "size", "queryMap", "getFullYear", "getDayOfMonth", "getHours", "getSeconds", "getMilliseconds", "getDayOfWeek"])),
        19 => format!("{}.{}(x, {})", wild(s, n), s.pick(&["map", "filter", "all", "exists", "exists_one"]), wild(s, n)),
        20 => match s.below(4) {
            0 => format!("envoy.service.ratelimit.v3.RateLimitRequest{{domain: {}, hits_addend: {}}}", wild(s, n), wild(s, n)),
            1 => format!("envoy.service.auth.v3.CheckRequest{{attributes: {}}}", wild(s, n)),
            2 => format!("DenyResponse{{status: {}, headers: {}, body: {}}}", wild(s, n), wild(s, n), wild(s, n)),
            _ => format!("envoy.config.core.v3.HeaderValue{{key: {}, value: {}}}", wild(s, n), wild(s, n)),
        },
        _ => format!("google.protobuf.{}{{value: {}}}", s.pick(&["Int32Value", "StringValue", "BoolValue", "Struct", "Value", "Timestamp", "Any"]), wild(s, n)),
    }
}
thread_local!(static CALM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
fn pred(s: &mut Src) -> String {
    if CALM.get() {
        return "true".into();
    }
    match s.below(5) {
        0..=2 => "true".into(),
        3 => format!("({}) == ({})", wild(s, 2), wild(s, 2)),
        _ => wild(s, 3),
    }
}
fn action(s: &mut Src, n: &mut u32, reply: bool) -> J {
    *n += 1;
    let p = pred(s);
    let k = if *n == 1 && CALM.get() { 4 } else { s.below(if reply { 5 } else { 7 }) };
    match k {
        0 => json!({"type": "store", "predicate": p, "terminal": false, "path": s.pick(&["kept.a", "kept", "x", "auth", "a.b.c", "", "."]), "value": wild(s, 3), "exportToHost": s.bool()}),
        1 => json!({"type": "headers", "predicate": p, "terminal": s.bool(), "target": if s.bool() { "request" } else { "response" }, "headers": if s.bool() { wild(s, 3) } else { format!("[[{}, {}]]", lit(&text(s)), wild(s, 2)) }}),
        2 => json!({"type": "deny", "predicate": p, "terminal": s.bool(), "denyWith": if s.chance(1, 4) { "DenyResponse{status: 403u, body: 'no'}".to_string() } else if s.bool() { wild(s, 3) } else { format!("DenyResponse{{status: {}, headers: {}, body: {}}}", wild(s, 1), wild(s, 2), wild(s, 1)) }}),
        3 => json!({"type": "fail", "predicate": p, "terminal": s.bool(), "logMessage": text(s)}),
        4 => {
            let v = if s.bool() { "r".to_string() } else { format!("v{n}") };
            let b = match if CALM.get() { 3 } else { s.below(4) } {
                0 => wild(s, 3),
                1 => format!("envoy.service.auth.v3.CheckRequest{{attributes: envoy.service.auth.v3.AttributeContext{{context_extensions: {{'k': {}}}}}}}", wild(s, 2)),
                2 => format!("envoy.service.ratelimit.v3.RateLimitRequest{{domain: {}, hits_addend: {}}}", wild(s, 2), wild(s, 1)),
                _ => "envoy.service.ratelimit.v3.RateLimitRequest{domain: 'd', hits_addend: 1u}".into(),
            };
            let mut a = json!({"type": "grpc", "predicate": p, "terminal": s.chance(1, 8), "var": v, "service": s.pick(&["rl", "au", "rc", "rr", "dy"]), "messageBuilder": b});
            if *n < 8 {
                a["onReply"] = J::Array((0..s.range(0, 3)).map(|_| action(s, n, true)).collect());
            }
            if !reply && s.chance(1, 3) {
                a["execution"] = json!("sequential");
            }
            if s.chance(1, 3) {
                a["isGuard"] = json!(false);
            }
            a
        }
        5 => json!({"service": "au", "scope": text(s), "predicates": if s.bool() { vec![p] } else { vec![] }}),
        _ => {
            let k = s.pick(&["ratelimit.domain", "ratelimit.hits_addend", "k", "a.b", "'", ""]).to_string();
            json!({"service": s.pick(&["rl", "rc", "rr"]), "scope": text(s), "predicates": if s.chance(1, 3) { vec![p] } else { vec![] },
                "conditionalData": [{"predicates": if s.bool() { vec![pred(s)] } else { vec![] }, "data": [
                    {"expression": {"key": k, "value": wild(s, 3)}},
                    {"static": {"key": text(s), "value": text(s)}}]}]})
        }
    }
}
fn config(s: &mut Src) -> J {
    let mut n = 0;
    CALM.set(s.bool());
    let mode = |s: &mut Src| if s.bool() { "allow" } else { "deny" };
    let mut services = json!({
        "rl": {"type": "ratelimit", "endpoint": "rl", "failureMode": mode(s)},
        "rc": {"type": "ratelimit-check", "endpoint": "rc", "failureMode": mode(s)},
        "rr": {"type": "ratelimit-report", "endpoint": "rr", "failureMode": mode(s)},
        "au": {"type": "auth", "endpoint": "au", "failureMode": mode(s)},
        "dy": {"type": "dynamic", "endpoint": "dy", "failureMode": mode(s), "grpcService": "x.Y", "grpcMethod": "Z"},
        "tr": {"type": "tracing", "endpoint": "tr", "failureMode": mode(s)}});
    if s.chance(1, 8) {
        services["rl"]["timeout"] = json!(s.pick(&["0s", "20ms", "9999999h", "-1s", "1", "", "1ns", "292471y"]));
    }
    let acts: Vec<J> = (0..s.range(1, 5)).map(|_| action(s, &mut n, false)).collect();
    let mut hosts = vec![json!("h")];
    if s.chance(1, 6) {
        hosts.push(json!(s.pick(&["*", "*.h", "", ".", "*.", "日", "*.*", "h:80"])));
    }
    let mut cfg = json!({"services": services, "actionSets": [{"name": "a", "routeRuleConditions": {"hostnames": hosts, "predicates": if s.chance(1, 6) { vec![pred(s)] } else { vec![] }}, "actions": acts}]});
    if s.chance(1, 3) {
        cfg["observability"] = json!({"httpHeaderIdentifier": s.pick(&["x-id", "'", "\\", "", "日", "x\"y"])});
        if s.bool() {
            cfg["observability"]["defaultLevel"] = json!(s.pick(&["DEBUG", "INFO", "TRACE", "x"]));
        }
        if s.bool() {
            cfg["observability"]["tracing"] = json!({"service": s.pick(&["tr", "tr", "rl", "none"])});
        }
    }
    if s.chance(1, 3) {
        cfg["requestData"] = json!({ s.pick(&["a.b", "metrics.labels.c", "x", ".", ""]).to_string(): wild(s, 2), text(s): wild(s, 2) });
    }
    if s.chance(1, 6) {
        cfg["descriptorService"] = json!(text(s));
    }
    cfg
}
/// Replaces a random part.
fn scramble(s: &mut Src, v: &mut J, depth: usize) {
    let stop = depth == 0 || s.chance(1, 4);
    match v {
        J::Object(o) if !stop && !o.is_empty() => {
            let k = o.keys().nth(s.n(o.len())).unwrap().clone();
            if s.chance(1, 8) {
                o.remove(&k);
            } else {
                scramble(s, o.get_mut(&k).unwrap(), depth - 1);
            }
        }
        J::Array(a) if !stop && !a.is_empty() => {
            let i = s.n(a.len());
            scramble(s, &mut a[i], depth - 1);
        }
        _ => {
            *v = match s.below(7) {
                0 => J::Null,
                1 => json!(s.edge_i64()),
                2 => json!(text(s)),
                3 => json!([]),
                4 => json!({}),
                5 => json!(true),
                _ => json!(1.5),
            }
        }
    }
}
fn body(s: &mut Src) -> Vec<u8> {
    match s.below(9) {
        0 => blob(s, 40),
        1 => vec![],
        2 => format!("{{\"a\": {{\"b\": {}}}, \"usage\": {{\"total_tokens\": {}}}}}", s.edge_i64(), s.edge_u64()).into_bytes(),
        3 => {
            // nested deeper than anything sensible
            let n = s.range(1, 30_000);
            let open = *s.pick(&["[", "{\"a\":", "[{\"a\":"]);
            let mut t = open.repeat(n);
            if s.bool() {
                t.push('1');
                t.push_str(&(if open == "[" { "]" } else if open == "[{\"a\":" { "}]" } else { "}" }).repeat(n));
            }
            t.into_bytes()
        }
        4 => format!("data: {}\n\ndata: {}\r\n\r\ndata: [DONE]\n\n", text(s), s.pick(&["{\"a\": 1}", "{}", "", "[", "1"])).into_bytes(),
        5 => (0..s.range(0, 30)).map(|_| *s.pick(&["{", "}", "[", "]", ":", ",", "\"", "\"a\"", "1", "-", "e", "\\u00", "\\ud83d", "\\", "true", "nul", " ", "\n", "data:", ":", "0.", "é"])).collect::<String>().into_bytes(),
        6 => s.pick(&["1e999", "-", "-0", "1E+400", "123456789012345678901234567890", "\"\\u0000\"", "\"\\ud800\"", "\u{feff}{}", "{\"a\":1,\"a\":2}"]).as_bytes().to_vec(),
        7 => {
            let mut b = b"{\"a\": \"x\"}".to_vec();
            let i = s.n(b.len());
            b[i] = s.below(256) as u8;
            b
        }
        _ => format!("{{\"a\": [{}, \"{}\", null, true, 1.5e3]}}", s.edge_i64(), "é".repeat(s.range(0, 50))).into_bytes(),
    }
}
fn cut(s: &mut Src, b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut p = 0;
    for _ in 0..s.range(0, 5) {
        let n = s.range(0, (b.len() - p).min(60));
        out.push(b[p..p + n].to_vec());
        p += n;
    }
    out.push(b[p..].to_vec());
    out
}
fn answer(s: &mut Src, d: usize) -> Vec<u8> {
    match s.below(8) {
        0 => blob(s, 60),
        1 => Msg::new().v(1, s.edge_u64()).encode(),
        2 => Msg::new().v(1, 2).m(3, Msg::new().s(1, &text(s)).s(2, &text(s))).encode(),
        3 => Msg::new().m(2, Msg::new().m(1, Msg::new().v(1, s.edge_u64())).m(2, Msg::new().m(1, Msg::new().s(1, &text(s)).s(2, &text(s)))).s(3, &text(s))).encode(),
        4 => Msg::new().m(3, Msg::new().m(2, Msg::new().m(1, Msg::new().s(1, &text(s)).s(2, &text(s))))).m(4, Msg::new().m(1, Msg::new().s(1, &text(s)).m(2, Msg::new().d(2, f64::from_bits(s.u64()))))).encode(),
        5 => {
            // values within values
            let mut v = Msg::new().s(3, "x");
            for _ in 0..s.range(0, d) {
                v = if s.bool() { Msg::new().m(6, Msg::new().m(1, v)) } else { Msg::new().m(5, Msg::new().m(1, Msg::new().s(1, "a").m(2, v))) };
            }
            Msg::new().m(3, Msg::new()).m(4, Msg::new().m(1, Msg::new().s(1, "a").m(2, v))).encode()
        }
        _ => {
            let mut b = Msg::new().m(3, Msg::new().m(2, Msg::new().m(1, Msg::new().s(1, "x-a").s(2, "1")))).v(1, 1).encode();
            for _ in 0..s.range(1, 3) {
                let i = s.n(b.len());
                b[i] = s.below(256) as u8;
            }
            if s.bool() {
                b.truncate(s.range(0, b.len()));
            }
            b
        }
    }
}
fn request(s: &mut Src) -> proxy_wasm::sim::Stream {
    let mut hs: Vec<(String, String)> = (0..s.range(0, 4)).map(|_| (s.pick(&["x-a", "x-b", "content-type", "traceparent", "tracestate", "baggage", "x-request-id", "", "x-a"]).to_string(), if s.chance(1, 4) { s.pick(&["application/grpc", "text/event-stream", "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01", "00-", "a=b"]).to_string() } else { text(s) })).collect();
    if s.chance(1, 3) {
        hs.push(("x-request-id".into(), if s.bool() { text(s) } else { s.pick(&["é", "日本", "a\u{1f600}", "", "{", "r1"]).to_string() }));
    }
    let h: Vec<(&str, &str)> = hs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let host = if s.chance(1, 12) { long(s) } else { s.pick(&["h", "h", "h", "h", "h", "h", "h", "h", "h", "h", "H:80", "", ":", "x.h", "日", "[::1]:1"]).to_string() };
    let mut st = stream(&host, &format!("/{}", text(s)), s.pick(&["GET", "", "é"]), &h);
    let odd = if s.bool() { 0 } else { s.range(1, 5) };
    for _ in 0..odd {
        let p = *s.pick(&["request.time", "request.size", "request.host", "request.path", "source.address", "source.port", "destination.port", "connection.mtls", "connection.id", "request.id", "metadata.filter_metadata", "source.remote_address", "request.headers", "request.total_size", "response.code", "request.method", "request.duration"]);
        let v = match s.below(6) {
            0 => Prop::Absent,
            1 => Prop::Fail(*s.pick(&[Status::InternalFailure, Status::BadArgument, Status::NotFound, Status::SerializationFailure])),
            2 => Prop::Val(s.edge_i64().to_le_bytes().to_vec()),
            3 => Prop::Val(long(s).into_bytes()),
            _ => Prop::Val(blob(s, 12)),
        };
        st.props.insert(p.split('.').map(String::from).collect(), v);
    }
    match s.below(14) {
        1 => st.set_prop_fails = true,
        2 => st.set_map_fails = true,
        3 => st.req_headers_fail = true,
        4 => st.resp_headers_fail = true,
        5 => st.body_read_fails = true,
        _ => {}
    }
    st
}
fn outside(s: &mut Src, q: &mut Req, o: &mut Obs, stray: u32) {
    // answers, and things that are no answers
    for _ in 0..s.range(0, 3) {
        let toks: Vec<u32> = q.outstanding.iter().map(|c| c.token).collect();
        let (t, known) = if toks.is_empty() || s.chance(1, 8) { (stray, false) } else { (toks[s.n(toks.len())], true) };
        let (st, b) = match s.below(6) {
            0 => (*s.pick(&[1u32, 4, 14, 16, 99, u32::MAX]), Ok(None)),
            1 => (0, Err(Status::InternalFailure)),
            2 => (0, Ok(None)),
            _ => (0, Ok(Some(answer(s, 40)))),
        };
        o.label(if known { "answered" } else { "stray-answer" });
        q.answer(t, st, b);
    }
}

fn c26(s: &mut Src, o: &mut Obs) -> Res {
    let mut cfg = config(s);
    let mut text_cfg = None;
    match s.below(6) {
        0 => {
            for _ in 0..s.range(1, 3) {
                scramble(s, &mut cfg, 8);
            }
        }
        1 if s.chance(1, 3) => {
            let mut b = cfg.to_string().into_bytes();
            for _ in 0..s.range(1, 3) {
                let i = s.n(b.len());
                if s.bool() {
                    b[i] = s.below(256) as u8;
                } else {
                    b.truncate(i + 1);
                }
            }
            text_cfg = Some(b);
        }
        _ => {}
    }
    let mut vm = Vm::boot_only();
    let (ok, _) = vm.configure(text_cfg.unwrap_or_else(|| cfg.to_string().into_bytes()));
    o.label(if ok { "accepted" } else { "refused" });
    if s.chance(1, 4) {
        o.label("root-answer");
        let t = sim::with(|x| x.next_token);
        let b = Msg::new().m(1, Msg::new().s(1, "dy").s(2, "x.Y").b(3, &blob(s, 30))).encode();
        let b = if s.bool() { b } else { blob(s, 60) };
        vm.answer(t.saturating_sub(1 + s.below(2) as u32), *s.pick(&[0, 0, 14]), Ok(Some(b.clone())), b.len());
        vm.tick();
    }
    let mut reqs: Vec<Req> = vec![];
    for i in 0..s.range(1, 2) {
        let st = request(s);
        let mut q = vm.open(10 + i as u32, st);
        if s.chance(1, 5) {
            sim::with(|x| x.refuse.insert("rl".into(), Status::BadArgument));
        }
        let has_body = s.bool();
        q.headers(!has_body);
        o.checks += 1;
        outside(s, &mut q, o, 9999);
        if has_body && q.req != Dir::Held && !q.replied {
            let b = body(s);
            let parts = cut(s, &b);
            let n = parts.len();
            let tr = s.chance(1, 6);
            for (k, p) in parts.iter().enumerate() {
                if q.replied {
                    break;
                }
                q.body(p, k + 1 == n && !tr);
                o.checks += 1;
                outside(s, &mut q, o, 9999);
            }
            if tr && !q.replied {
                q.trailers();
            }
            o.label("request-body");
        }
        if !s.chance(1, 6) && (q.req != Dir::Held || q.replied) {
            if !q.replied {
                let ct = s.pick(&["text/event-stream", "application/json", "text/plain", "é", ""]).to_string();
                q.enter_response(s.range(100, 600) as u32, &[("content-type".into(), ct), (s.pick(&["x-up", ""]).to_string(), text(s))]);
            } else {
                q.enter_response(500, &[]);
            }
            let has_body = s.bool();
            q.resp_headers(!has_body);
            o.checks += 1;
            outside(s, &mut q, o, 9999);
            if has_body && q.resp != Dir::Held {
                let b = body(s);
                let parts = cut(s, &b);
                let n = parts.len();
                let tr = s.chance(1, 6);
                for (k, p) in parts.iter().enumerate() {
                    q.resp_body(p, k + 1 == n && !tr);
                    o.checks += 1;
                    outside(s, &mut q, o, 9999);
                }
                if tr {
                    q.resp_trailers();
                }
                o.label("response-body");
            }
        }
        outside(s, &mut q, o, 9999);
        o.nontrivial |= ok;
        reqs.push(q);
    }
    for q in reqs.iter_mut() {
        if s.bool() {
            q.end();
        }
    }
    sim::with(|x| x.refuse.clear());
    // the filter is as good as new
    let plain = json!({"services": {"rl": {"type": "ratelimit", "endpoint": "rl", "failureMode": "deny"}},
        "actionSets": [{"name": "p", "routeRuleConditions": {"hostnames": ["plain"]}, "actions": [{"service": "rl", "scope": "sc", "conditionalData": []}]}]});
    let (ok, _) = vm.configure(plain.to_string().into_bytes());
    ensure!(ok, "no-recovery", "a plain configuration is refused afterwards\n{cfg}");
    let mut q = vm.open(77, stream("plain", "/", "GET", &[]));
    let st = q.headers(true);
    ensure!(st.action == Some(Action::Pause) && st.calls().len() == 1 && st.calls()[0].upstream == "rl", "no-recovery", "afterwards a plain request gives {st:?}\n{cfg}");
    let t = q.outstanding[0].token;
    let st = q.ok(t, Msg::new().v(1, 2).encode());
    ensure!(st.replies().len() == 1 && st.replies()[0].0 == 429, "no-recovery", "afterwards a plain answer gives {st:?}\n{cfg}");
    o.sample = Some(cfg.to_string());
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C26",
        run: c26,
        quick: 20_000,
        thorough: 2_000_000,
        rule: "requests were handled under the generated configuration",
        assumptions: &["the host delivers header names and values that are valid UTF-8"],
    }]
}

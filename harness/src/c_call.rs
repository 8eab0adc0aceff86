//! C23: who a call is made for: endpoint, timeout, request id and trace context, and the identifier shown
//! to the client.
use crate::env::*;
use crate::fw::*;
use crate::wire::Msg;
use proxy_wasm::sim::{self, Call};
use proxy_wasm::types::LogLevel;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

const TIMEOUTS: &[(&str, u128)] = &[("20ms", 20), ("1s", 1000), ("250ms", 250), ("1m", 60_000), ("1s500ms", 1500), ("1h", 3_600_000), ("0s", 0)];
const KINDS: &[(&str, &str, &str)] = &[
    ("ratelimit", "envoy.service.ratelimit.v3.RateLimitService", "ShouldRateLimit"),
    ("ratelimit-check", "kuadrant.service.ratelimit.v1.RateLimitService", "CheckRateLimit"),
    ("ratelimit-report", "kuadrant.service.ratelimit.v1.RateLimitService", "Report"),
    ("auth", "envoy.service.auth.v3.Authorization", "Check"),
];
const IDS: &[&str] = &["7a1f-33", "AbC-9F", "", "it's", "a\"b", "back\\slash", "\\", "'", "x'], ['set-cookie', 'pwned", "é日", "a b\tc", "{}", "\\u0041", "\\'", "%s{0}", " padded ", "\u{a0}", "end\u{3000}", ";,="];

#[derive(Clone, Debug)]
struct Svc {
    kind: usize,
    endpoint: String,
    timeout: Option<usize>,
}
#[derive(Clone, Debug, Default)]
struct Who {
    id: Option<String>,
    traceparent: Option<String>,
    valid: bool,
    tracestate: Option<String>,
    baggage: Option<String>,
}
fn hex(s: &mut Src, n: usize) -> String {
    let v: String = (0..n).map(|_| char::from_digit(s.below(16) as u32, 16).unwrap()).collect();
    // never all zero, and unlike any other
    format!("{}{}", &v[..n - 1], "7")
}
fn who(s: &mut Src, i: usize) -> Who {
    let mut w = Who { id: if s.chance(3, 4) { Some(format!("{}{}", s.pick(IDS), if s.bool() { i.to_string() } else { String::new() })) } else { None }, ..Who::default() };
    if let Some(id) = w.id.as_mut().filter(|_| s.chance(1, 12)) {
        *id = format!("{id}{}z", "r".repeat(*s.pick(&[33, 62, 127, 255, 1023, 5000])));
    }
    match s.below(4) {
        0 => {}
        1 if s.chance(1, 3) => {
            let t = hex(s, 32);
            w.traceparent = Some(match s.below(5) {
                0 => "garbage".into(),
                1 => format!("00-{}-{}-01", "0".repeat(32), hex(s, 16)),
                2 => format!("00-{t}-{}-01", "0".repeat(16)),
                // (the opentelemetry library takes ids of another length)
                3 => format!("00-{t}-01"),
                _ => format!("00-{t}-{}", hex(s, 16)),
            })
        }
        _ => {
            w.valid = true;
            w.traceparent = Some(format!("00-{}-{}-0{}", hex(s, 32), hex(s, 16), s.below(2)));
            if s.chance(1, 3) {
                w.tracestate = Some(match s.below(6) {
                    0 => (0..32).map(|k| format!("v{k}=o{}", s.below(100))).collect::<Vec<_>>().join(","),
                    1 => format!("vendor={}", "s".repeat(s.range(100, 250))),
                    _ => s.pick(&["vendor=1", "a=b,c=d", "rojo=00f067aa0ba902b7", "v=A9Z,w=q"]).to_string(),
                });
            }
        }
    }
    if s.chance(1, 4) {
        // as much of it as a client cares to send
        w.baggage = Some(match s.below(3) {
            0 => s.pick(&["user=1", "k=v", "userId=aB"]).to_string(),
            _ => format!("k{i}={}", "v".repeat(*s.pick(&[1, 60, 130, 256, 500, 512, 1000, 2048, 4000]))),
        });
    }
    w
}

struct Live {
    q: Req,
    w: Who,
    /// the id all calls must carry
    id: Option<String>,
    trace: Option<String>,
    done: bool,
}

fn c23(s: &mut Src, o: &mut Obs) -> Res {
    let nsvc = s.range(1, 3);
    let svcs: Vec<Svc> = (0..nsvc).map(|i| Svc { kind: s.n(KINDS.len()), endpoint: format!("cluster-{i}"), timeout: if s.bool() { Some(s.n(TIMEOUTS.len())) } else { None } }).collect();
    let tracing = s.bool();
    let level = *s.pick(&[None, Some("DEBUG"), Some("INFO"), Some("WARN"), Some("ERROR"), Some("OFF"), Some("TRACE")]);
    let log = *s.pick(&[LogLevel::Warn, LogLevel::Error, LogLevel::Info, LogLevel::Debug, LogLevel::Trace]);
    let ident = if s.bool() { Some(*s.pick(&["x-id", "x-kuadrant-request", "x-i.d_1", "x-it's", "x-b\\c", "x-request-id"])) } else { None };
    let mut services = serde_json::Map::new();
    for (i, v) in svcs.iter().enumerate() {
        let mut j = json!({"type": KINDS[v.kind].0, "endpoint": v.endpoint, "failureMode": "deny"});
        if let Some(t) = v.timeout {
            j["timeout"] = json!(TIMEOUTS[t].0);
        }
        services.insert(format!("s{i}"), j);
    }
    let mut obs = serde_json::Map::new();
    if let Some(i) = ident {
        obs.insert("httpHeaderIdentifier".into(), json!(i));
    }
    if let Some(l) = level {
        obs.insert("defaultLevel".into(), json!(l));
    }
    if tracing {
        services.insert("tracer".into(), json!({"type": "tracing", "endpoint": "tracing-cluster", "failureMode": "allow", "timeout": "70ms"}));
        obs.insert("tracing".into(), json!({"service": "tracer"}));
    }
    let build = |i: usize| match svcs[i].kind {
        3 => "envoy.service.auth.v3.CheckRequest{}",
        _ => "envoy.service.ratelimit.v3.RateLimitRequest{domain: 'd'}",
    };
    let mut n = 0;
    let mut acts = vec![];
    let denying = s.chance(1, 3);
    for k in 0..s.range(1, 3) {
        n += 1;
        let i = s.n(nsvc);
        let mut a = json!({"type": "grpc", "predicate": "true", "terminal": false, "var": format!("v{n}"), "service": format!("s{i}"), "messageBuilder": build(i)});
        if s.bool() {
            a["execution"] = json!("sequential");
        }
        if s.chance(1, 4) {
            a["isGuard"] = json!(false);
        }
        if s.chance(1, 4) {
            a["sources"] = json!(["rule-1"]);
        }
        let mut rep = vec![];
        if s.chance(1, 3) {
            n += 1;
            let i = s.n(nsvc);
            rep.push(json!({"type": "grpc", "predicate": "true", "terminal": false, "var": format!("v{n}"), "service": format!("s{i}"), "messageBuilder": build(i)}));
        }
        if denying && k == 0 {
            rep.push(json!({"type": "deny", "predicate": "true", "terminal": true, "denyWith": "DenyResponse{status: 403u, headers: [['x-own', '1']]}"}));
        }
        a["onReply"] = J::Array(rep);
        acts.push(a);
    }
    let picky = s.chance(1, 4);
    let preds = if picky { json!(["request.path != '/none'"]) } else { json!([]) };
    let mut cfg = json!({"services": services, "actionSets": [{"name": "a", "routeRuleConditions": {"hostnames": ["h"], "predicates": preds}, "actions": acts}]});
    if !obs.is_empty() {
        cfg["observability"] = J::Object(obs);
    }
    sim::with(|x| x.log_level = Ok(log));
    let Some(vm) = Vm::new(&cfg) else { return fail("config-refused", format!("{cfg}")) };
    sim::with(|x| x.log_level = Ok(log));
    let many = s.chance(1, 60);
    let total = if many { s.range(4, 40) } else { s.range(1, 3) };
    let mut live: Vec<Live> = vec![];
    let mut trace = vec![format!("log {log:?}")];
    let mut used: BTreeMap<String, usize> = BTreeMap::new(); // trace id -> request
    let mut ids: BTreeMap<String, usize> = BTreeMap::new(); // generated id -> request
    let mut open = 0;
    for _ in 0..if many { 600 } else { 60 } {
        let going: Vec<usize> = (0..live.len()).filter(|i| !live[*i].done).collect();
        if going.is_empty() && open == total {
            break;
        }
        let k = s.n(going.len() + usize::from(open < total));
        let (i, st) = if k == going.len() {
            let w = who(s, open);
            let mut h: Vec<(&str, &str)> = vec![];
            let id = w.id.clone();
            for (n, v) in [("x-request-id", &id), ("traceparent", &w.traceparent), ("tracestate", &w.tracestate), ("baggage", &w.baggage)] {
                if let Some(v) = v {
                    h.push((n, v));
                }
            }
            if let Some(t) = w.traceparent.as_ref().filter(|_| w.valid) {
                used.insert(t[3..35].to_string(), open);
            }
            // of a configured host, yet of no action set: identified all the same
            let path = if picky && s.chance(1, 3) { "/none" } else { "/" };
            if path == "/none" {
                o.label("of-no-action-set");
            }
            let mut q = vm.open(30 + open as u32, stream("h", path, "GET", &h));
            trace.push(format!("open {open} {path} {w:?}"));
            open += 1;
            let st = q.headers(true);
            live.push(Live { q, w, id, trace: None, done: false });
            (open - 1, st)
        } else {
            let i = going[k];
            let l = &mut live[i];
            let svc_calls: Vec<u32> = l.q.outstanding.iter().map(|c| c.token).collect();
            if svc_calls.is_empty() || (l.q.req == Dir::Flowing && s.chance(1, 3) && l.q.resp == Dir::New) {
                if l.q.resp != Dir::New {
                    l.done = true;
                    continue;
                }
                trace.push(format!("response {i}"));
                l.q.enter_response(200, &[("x-up".into(), "1".into())]);
                let st = l.q.resp_headers(true);
                if let (Some(name), false) = (ident, l.q.replied) {
                    let got: Vec<String> = l.q.sim(|x| x.resp_headers.iter().filter(|h| h.0 == name).map(|h| h.1.clone()).collect());
                    identifier(l, i, &got, &mut ids, o).map_err(|f| at(f, &trace, &cfg))?;
                }
                (i, st)
            } else {
                let tok = svc_calls[s.n(svc_calls.len())];
                let c = l.q.outstanding.iter().find(|c| c.token == tok).unwrap().clone();
                trace.push(format!("answer {i} {}", c.upstream));
                let body = if c.service.ends_with("Authorization") { Msg::new().m(3, Msg::new()) } else { Msg::new().v(1, 1) };
                (i, l.q.ok(tok, body.encode()))
            }
        };
        let others: Vec<usize> = (0..live.len()).filter(|j| *j != i && !live[*j].done).collect();
        let l = &mut live[i];
        for c in st.calls() {
            o.checks += 1;
            call(c, l, i, &svcs, tracing, &mut used, &mut ids).map_err(|f| at(f, &trace, &cfg))?;
            o.label(if tracing { "traced-call" } else { "call" });
            o.nontrivial = true;
            if !others.is_empty() {
                o.label("call-while-others-open");
            }
            if l.w.valid {
                o.label("trace-context");
            }
        }
        for r in st.replies() {
            o.label("denied");
            if let Some(name) = ident {
                let got: Vec<String> = r.1.iter().filter(|h| h.0 == name).map(|h| h.1.clone()).collect();
                identifier(l, i, &got, &mut ids, o).map_err(|f| at(f, &trace, &cfg))?;
            }
        }
    }
    o.sample = Some(format!("{trace:?}\n{cfg}"));
    Ok(())
}
fn at(f: Fail, trace: &[String], cfg: &J) -> Fail {
    Fail { msg: format!("{}\n{trace:#?}\n{cfg}", f.msg), ..f }
}
/// All uses of the request's id agree: with the one it came with, or with each other.
fn same_id(l: &mut Live, i: usize, got: &str, ids: &mut BTreeMap<String, usize>, what: &str) -> Res {
    if l.w.id.is_none() {
        let owner = *ids.entry(got.to_string()).or_insert(i);
        ensure!(owner == i && !got.is_empty(), "request-id", "{what} of request {i} has the id {got:?} made for request {owner}");
        if l.id.is_none() {
            l.id = Some(got.to_string());
        }
    }
    ensure!(l.id.as_deref() == Some(got), "request-id", "{what} of request {i} has the id {got:?}, expected {:?}", l.id);
    Ok(())
}
fn identifier(l: &mut Live, i: usize, got: &[String], ids: &mut BTreeMap<String, usize>, o: &mut Obs) -> Res {
    o.label("identified");
    o.nontrivial = true;
    ensure!(got.len() == 1, "identifier", "the client of request {i} is shown the identifiers {got:?}, expected one (id {:?})", l.id);
    same_id(l, i, &got[0].clone(), ids, "identifier shown to the client")
}
fn call(c: &Call, l: &mut Live, i: usize, svcs: &[Svc], tracing: bool, used: &mut BTreeMap<String, usize>, ids: &mut BTreeMap<String, usize>) -> Res {
    let export = c.upstream == "tracing-cluster";
    if export {
        ensure!(tracing && c.service == "opentelemetry.proto.collector.trace.v1.TraceService" && c.method == "Export" && c.timeout.as_millis() == 70, "export-target", "{c:?}");
    } else {
        let Some(v) = svcs.iter().find(|v| v.endpoint == c.upstream) else { return fail("call-target", format!("{c:?}")) };
        let (_, service, method) = KINDS[v.kind];
        let t = v.timeout.map_or(20, |t| TIMEOUTS[t].1);
        ensure!(c.service == service && c.method == method, "call-target", "{c:?}");
        ensure!(c.timeout.as_millis() == t, "call-timeout", "{:?} for a call to {}, expected {t} ms", c.timeout, c.upstream);
    }
    let mut h: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    for (k, v) in &c.headers {
        h.entry(k).or_default().push(String::from_utf8_lossy(v).into_owned());
    }
    for (k, v) in &h {
        ensure!(v.len() == 1, "metadata", "{k} {v:?} in a call of request {i}");
        ensure!(["x-request-id", "traceparent", "tracestate", "baggage"].contains(k), "metadata", "unexpected {k}: {v:?}");
    }
    let one = |k: &str| h.get(k).map(|v| v[0].clone());
    let Some(id) = one("x-request-id") else { return fail("request-id", format!("no id in a call of request {i}: {:?}", c.headers)) };
    same_id(l, i, &id, ids, "a call")?;
    ensure!(one("baggage") == l.w.baggage, "baggage", "baggage {:?}, the request has {:?}", one("baggage"), l.w.baggage);
    let tp = one("traceparent");
    if !tracing {
        let want = l.w.traceparent.clone().filter(|_| l.w.valid);
        ensure!(tp == want, "traceparent", "traceparent {tp:?}, the request has {:?} (valid: {})", l.w.traceparent, l.w.valid);
        ensure!(one("tracestate") == l.w.tracestate, "tracestate", "tracestate {:?}, the request has {:?}", one("tracestate"), l.w.tracestate);
        return Ok(());
    }
    if let Some(t) = &tp {
        ensure!(t.len() == 55 && t.starts_with("00-"), "traceparent", "malformed {t}");
    }
    if l.w.valid {
        let have = l.w.traceparent.clone().unwrap();
        let Some(t) = tp else { return fail("traceparent", format!("a call of request {i} does not continue its trace {have}")) };
        ensure!(t[3..35] == have[3..35], "trace-of-another", "a call of request {i} carries trace {}, the request belongs to {} (others: {used:?})", &t[3..35], &have[3..35]);
        ensure!(t[53..] == have[53..], "sampled", "a call of request {i} carries flags {}, the request has {}", &t[53..], &have[53..]);
        ensure!(one("tracestate") == l.w.tracestate, "tracestate", "tracestate {:?}, the request has {:?}", one("tracestate"), l.w.tracestate);
    } else if let Some(t) = tp {
        let id = t[3..35].to_string();
        let owner = *used.entry(id.clone()).or_insert(i);
        ensure!(owner == i, "trace-of-another", "a call of request {i} carries the trace {id} of request {owner}");
        if !export {
            if let Some(was) = &l.trace {
                ensure!(*was == id, "several-traces", "calls of request {i} carry traces {was} and {id}");
            }
            l.trace = Some(id);
        }
    }
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C23",
        run: c23,
        quick: 60_000,
        thorough: 4_000_000,
        rule: "a call was made, or an identifier shown to the client",
        assumptions: &["one callback at a time, as the host makes them", "baggage in its canonical form"],
    }]
}

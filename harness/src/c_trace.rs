//! C25: the spans that are exported for requests.
use crate::env::*;
use crate::fw::*;
use crate::wire::{Msg, W};
use proxy_wasm::sim::{self, Call};
use proxy_wasm::types::LogLevel;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
struct Span {
    trace: Vec<u8>,
    id: Vec<u8>,
    parent: Vec<u8>,
    name: String,
    start: u64,
    end: u64,
    attrs: BTreeMap<String, String>,
    error: bool,
}
fn f64_(m: &Msg, f: u32) -> u64 {
    match m.last(f) {
        Some(W::I64(x)) => *x,
        _ => 0,
    }
}
fn bytes(m: &Msg, f: u32) -> Vec<u8> {
    match m.last(f) {
        Some(W::Len(x)) => x.clone(),
        _ => vec![],
    }
}
fn decode(b: &[u8]) -> Option<Vec<Span>> {
    let mut out = vec![];
    for r in Msg::decode(b)?.msgs(1) {
        for sc in r.msgs(2) {
            for m in sc.msgs(2) {
                let mut attrs = BTreeMap::new();
                for a in m.msgs(9) {
                    let v = a.get_m(2).unwrap_or_else(Msg::new);
                    attrs.insert(a.get_s(1), if v.has(1) { v.get_s(1) } else { format!("{:?}", v.0) });
                }
                out.push(Span {
                    trace: bytes(&m, 1),
                    id: bytes(&m, 2),
                    parent: bytes(&m, 4),
                    name: m.get_s(5),
                    start: f64_(&m, 7),
                    end: f64_(&m, 8),
                    attrs,
                    error: m.get_m(15).is_some_and(|s| s.get_v(3) == 2),
                });
            }
        }
    }
    Some(out)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

#[derive(Clone, Debug, Default)]
struct Who {
    id: String,
    trace: Option<(String, String, bool)>,
    hits: bool,
}
struct Live {
    q: Req,
    w: Who,
    /// parents named in the calls made for it, and the number of their actions
    parents: Vec<(String, String, String)>,
    errors: i64,
    done: bool,
}

const LEVELS: &[&str] = &["INFO", "DEBUG", "TRACE", "WARN", "ERROR", "OFF", ""];

fn c25(s: &mut Src, o: &mut Obs) -> Res {
    let level = *s.pickw(&[(5, "INFO"), (4, "DEBUG"), (1, "TRACE"), (1, "WARN"), (1, "ERROR"), (1, "OFF"), (1, "")]);
    let _ = LEVELS;
    let configured = !s.chance(1, 8);
    let exporting = configured && ["INFO", "DEBUG", "TRACE"].contains(&level);
    let log = *s.pick(&[LogLevel::Warn, LogLevel::Error, LogLevel::Info, LogLevel::Debug, LogLevel::Trace]);
    let many = s.chance(1, 12);
    let nsvc = s.range(1, 2);
    let mut services = serde_json::Map::new();
    for i in 0..nsvc {
        services.insert(format!("s{i}"), json!({"type": "ratelimit", "endpoint": format!("cluster-{i}"), "failureMode": if s.bool() { "allow" } else { "deny" }}));
    }
    let mut obs = serde_json::Map::new();
    if !level.is_empty() {
        obs.insert("defaultLevel".into(), json!(level));
    }
    services.insert("tracer".into(), json!({"type": "tracing", "endpoint": "tracing-cluster", "failureMode": "allow"}));
    obs.insert("httpHeaderIdentifier".into(), json!("x-request-id"));
    if configured {
        obs.insert("tracing".into(), json!({"service": "tracer"}));
    }
    let mut n = 0;
    let grpc = |s: &mut Src, n: &mut i32| {
        *n += 1;
        let i = s.n(nsvc);
        let mut a = json!({"type": "grpc", "predicate": "true", "terminal": false, "var": format!("v{n}"), "service": format!("s{i}"), "messageBuilder": format!("envoy.service.ratelimit.v3.RateLimitRequest{{domain: 'd{n}'}}"), "onReply": []});
        if s.bool() {
            a["execution"] = json!("sequential");
        }
        if s.chance(1, 4) {
            a["isGuard"] = json!(false);
        }
        if s.chance(1, 3) {
            a["label"] = json!(format!("label {n}"));
        }
        if s.chance(1, 3) {
            a["sources"] = json!((0..1 + s.count(2, 30)).map(|i| if i == 1 { "rule".to_string() } else { format!("rule-{n}-{i}") }).collect::<Vec<_>>());
        }
        a
    };
    let other = |s: &mut Src| match s.below(4) {
        0 => json!({"type": "store", "predicate": "true", "terminal": false, "path": "p.q", "value": "1", "exportToHost": false}),
        1 => json!({"type": "headers", "predicate": "true", "terminal": false, "target": "request", "headers": "[['x-1', '1']]"}),
        2 => json!({"type": "headers", "predicate": "true", "terminal": false, "target": "response", "headers": "[['x-2', '1']]"}),
        _ => json!({"type": "deny", "predicate": "request.path == '/deny'", "terminal": true, "denyWith": "DenyResponse{status: 403u}"}),
    };
    let mut acts: Vec<J> = vec![];
    for _ in 0..s.range(0, 4) {
        if s.chance(2, 3) {
            let mut a = grpc(s, &mut n);
            let mut rep = vec![];
            for _ in 0..s.range(0, 2) {
                let e = if s.chance(1, 3) { grpc(s, &mut n) } else { other(s) };
                rep.push(e);
            }
            for e in &mut rep {
                if e["type"] == json!("grpc") {
                    e.as_object_mut().unwrap().remove("execution");
                }
            }
            a["onReply"] = J::Array(rep);
            acts.push(a);
        } else {
            acts.push(other(s));
        }
    }
    let crowd = many && s.bool();
    if crowd {
        acts.clear();
    }
    if many {
        for _ in 0..s.range(5, 60) {
            acts.push(json!({"type": "headers", "predicate": "true", "terminal": false, "target": "request", "headers": "[['x-1', '1']]"}));
        }
    }
    let cfg = json!({"services": services, "observability": obs, "actionSets": [
        {"name": "set-a", "routeRuleConditions": {"hostnames": ["h"]}, "actions": acts},
        {"name": "flush", "routeRuleConditions": {"hostnames": ["flush"]}, "actions": [{"type": "store", "predicate": "false", "terminal": false, "path": "z", "value": "1", "exportToHost": false}]}]});
    sim::with(|x| x.log_level = Ok(log));
    let Some(mut vm) = Vm::new(&cfg) else { return fail("config-refused", format!("{cfg}")) };
    sim::with(|x| x.log_level = Ok(log));
    if s.chance(1, 6) {
        // an unusable configuration does not change what is exported
        let bad = match s.below(3) {
            0 => json!({"services": {}, "actionSets": [{"name": "x", "routeRuleConditions": {"hostnames": ["h"], "predicates": ["1 +"]}, "actions": []}]}),
            1 => json!({"services": {}, "observability": {"defaultLevel": "OFF"}, "actionSets": [{"name": "x", "routeRuleConditions": {"hostnames": ["h"]}, "actions": [{"service": "none", "scope": "x"}]}]}),
            _ => json!({"services": {"t": {"type": "tracing", "endpoint": "t", "failureMode": "deny"}}, "observability": {"defaultLevel": "DEBUG", "tracing": {"service": "t"}}, "actionSets": [{"name": "x", "routeRuleConditions": {"hostnames": ["h"]}, "actions": [{"service": "none", "scope": "x"}]}]}),
        };
        // whichever root context it is given to
        let (ok, _) = if s.chance(1, 3) {
            o.label("refused-by-new-root");
            Vm::another(700).configure(bad.to_string().into_bytes())
        } else {
            vm.configure(bad.to_string().into_bytes())
        };
        ensure!(!ok, "accepted", "{bad}");
        o.label("refused-load");
    }
    // what earlier cases left in the buffer goes first
    let (mut spans, mut exports): (Vec<Span>, Vec<usize>) = (vec![], vec![]);
    {
        let mut q = vm.open(900, stream("flush", "/", "GET", &[]));
        let st = flush(&mut q);
        ensure!(st.calls().is_empty() || exporting, "exports", "spans are exported though nothing asks for it: {:?}\n{cfg}", st.calls());
        finish(&mut q);
    }
    if exporting && s.chance(1, 6) {
        // what is handled while no configuration asks for traces is not exported afterwards
        o.label("traced-later");
        let mut off = cfg.clone();
        off["observability"].as_object_mut().unwrap().remove("tracing");
        ensure!(vm.configure(off.to_string().into_bytes()).0, "config-refused", "{off}");
        let mut q = vm.open(902, stream("h", "/", "GET", &[("x-request-id", "early")]));
        q.headers(true);
        for _ in 0..20 {
            let Some(c) = q.outstanding.first().cloned() else { break };
            q.ok(c.token, Msg::new().v(1, 1).encode());
        }
        finish(&mut q);
        ensure!(vm.configure(cfg.to_string().into_bytes()).0, "config-refused", "{cfg}");
        let mut q = vm.open(903, stream("flush", "/", "GET", &[("x-request-id", "late")]));
        let st = flush(&mut q);
        let mut fl = Live { q, w: Who { id: "late".into(), hits: true, trace: None }, parents: vec![], errors: 0, done: true };
        let (mut sp, mut ex) = (vec![], vec![]);
        for c in st.calls() {
            take(c, 98, &mut fl, exporting, &mut sp, &mut ex, &cfg)?;
        }
        finish(&mut fl.q);
        let root: Vec<&Span> = sp.iter().filter(|x| x.attrs.contains_key("request_id")).collect();
        ensure!(root.len() <= 1 && sp.iter().all(|x| x.trace == root[0].trace), "traced-later", "spans from before traces were asked for: {sp:#?}\n{cfg}");
    }
    let total = if many { s.range(2, 5) } else { s.range(1, 4) };
    let mut live: Vec<Live> = vec![];
    let mut trace = vec![format!("log {log:?}")];
    let mut open = 0;
    let info = |trace: &Vec<String>| format!("{trace:#?}\n{cfg}");
    let keep = s.chance(1, 2);
    for _ in 0..120 {
        let going: Vec<usize> = (0..live.len()).filter(|i| !live[*i].done).collect();
        if going.is_empty() && open == total {
            break;
        }
        let k = if keep && open < total { going.len() } else { s.n(going.len() + usize::from(open < total)) };
        let (i, st) = if k == going.len() {
            let mut w = Who { id: format!("id-{open}"), hits: !s.chance(1, 8), trace: None };
            let path = if s.chance(1, 4) { "/deny" } else { "/" };
            let mut h = vec![("x-request-id".to_string(), w.id.clone())];
            if s.chance(2, 3) {
                let (t, p, sampled) = (format!("{:030x}{:02x}", s.below(1 << 40), open + 1), format!("{:014x}{:02x}", s.below(1 << 40), open + 1), !s.chance(1, 4));
                h.push(("traceparent".into(), format!("00-{t}-{p}-0{}", u8::from(sampled))));
                w.trace = Some((t, p, sampled));
            }
            let hr: Vec<(&str, &str)> = h.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let mut q = vm.open(30 + open as u32, stream(if w.hits { "h" } else { "miss" }, path, "GET", &hr));
            trace.push(format!("open {open} {path} {w:?}"));
            open += 1;
            let st = q.headers(true);
            live.push(Live { q, w, parents: vec![], errors: 0, done: false });
            (open - 1, st)
        } else {
            let i = going[k];
            let l = &mut live[i];
            let toks: Vec<u32> = l.q.outstanding.iter().map(|c| c.token).collect();
            if toks.is_empty() || (l.q.req == Dir::Flowing && l.q.resp == Dir::New && s.chance(1, 3)) {
                if l.q.resp != Dir::New || l.q.replied {
                    l.done = true;
                    trace.push(format!("end {i}"));
                    finish(&mut l.q);
                    continue;
                }
                trace.push(format!("response {i}"));
                l.q.enter_response(200, &[("x-up".into(), "1".into())]);
                (i, l.q.resp_headers(true))
            } else if s.chance(1, 16) && l.q.resp == Dir::New {
                // the client goes away
                l.done = true;
                trace.push(format!("gone {i}"));
                finish(&mut l.q);
                continue;
            } else {
                let tok = toks[s.n(toks.len())];
                let c = l.q.outstanding.iter().find(|c| c.token == tok).unwrap().clone();
                if c.upstream == "tracing-cluster" || !s.chance(1, 5) {
                    trace.push(format!("answer {i} {}", c.upstream));
                    (i, l.q.ok(tok, Msg::new().v(1, 1).encode()))
                } else {
                    trace.push(format!("fault {i} {}", c.upstream));
                    o.label("failed-call");
                    (i, l.q.answer(tok, 14, Ok(None)))
                }
            }
        };
        live[i].errors += st.metric("kuadrant.errors");
        for c in st.calls() {
            take(c, i, &mut live[i], exporting, &mut spans, &mut exports, &cfg)?;
        }
    }
    for l in live.iter_mut().filter(|l| !l.done) {
        finish(&mut l.q);
    }
    // what is left goes out with the next request that ends
    let mut q = vm.open(901, stream("flush", "/", "GET", &[("x-request-id", "flush")]));
    let st = flush(&mut q);
    let mut fl = Live { q, w: Who { id: "flush".into(), hits: true, trace: None }, parents: vec![], errors: 0, done: true };
    for c in st.calls() {
        take(c, 99, &mut fl, exporting, &mut spans, &mut exports, &cfg)?;
    }
    finish(&mut fl.q);
    if !exporting {
        o.label("nothing-exported");
        ensure!(spans.is_empty() && exports.is_empty(), "exports", "{} exports though nothing asks for them\n{}", exports.len(), info(&trace));
        return Ok(());
    }
    live.push(fl);
    let show = |sp: &Span| format!("{} trace {} id {} parent {} {:?}", sp.name, hex(&sp.trace), hex(&sp.id), hex(&sp.parent), sp.attrs);
    let all = || spans.iter().map(show).collect::<Vec<_>>().join("\n");
    let overflow = exports.iter().any(|n| *n >= 100);
    if overflow {
        o.label("buffer-full");
    }
    if overflow && crowd && ["DEBUG", "TRACE"].contains(&level) {
        // what does not fit makes the oldest spans go: nothing older than one that is missing is exported with it
        let mut at = 0;
        for n in &exports {
            let batch = &spans[at..at + n];
            at += n;
            if *n < 100 {
                continue;
            }
            let oldest = batch.iter().map(|x| x.end).min().unwrap_or(0);
            let newest = batch.iter().map(|x| x.end).max().unwrap_or(0);
            for l in live.iter().filter(|l| l.w.hits) {
                let Some(r) = spans.iter().find(|x| x.attrs.get("request_id") == Some(&l.w.id)) else { continue };
                let got = spans.iter().filter(|x| x.trace == r.trace && x.name == "headers").count();
                if got < acts.len() && r.start <= newest && l.w.id != "flush" {
                    o.label("spans-dropped");
                    ensure!(r.start <= oldest, "newest-dropped", "request {} has {got} of {} spans left, but older ones are exported\n{}", l.w.id, acts.len(), info(&trace));
                }
            }
        }
    }
    ensure!(exports.iter().all(|n| *n <= 100), "buffer", "{exports:?} spans in an export\n{}", info(&trace));
    let ids: BTreeSet<&Vec<u8>> = spans.iter().map(|x| &x.id).collect();
    ensure!(ids.len() == spans.len(), "exported-twice", "the same span is exported more than once\n{}\n{}", all(), info(&trace));
    o.checks += spans.len() as u64;
    let by_id: BTreeMap<&Vec<u8>, &Span> = spans.iter().map(|x| (&x.id, x)).collect();
    let mut actions: BTreeMap<String, J> = BTreeMap::new();
    // (what an action does on its reply is part of it)
    fn walk(v: &J, top: Option<&J>, out: &mut BTreeMap<String, J>) {
        for a in v.as_array().into_iter().flatten() {
            if let Some(v) = a["var"].as_str() {
                out.insert(v.replace('v', "d"), top.unwrap_or(a).clone());
            }
            walk(&a["onReply"], Some(top.unwrap_or(a)), out);
        }
    }
    walk(&cfg["actionSets"][0]["actions"], None, &mut actions);
    let mut mine: BTreeMap<Vec<u8>, usize> = BTreeMap::new(); // root span -> request
    for (i, l) in live.iter().enumerate() {
        let unsampled = l.w.trace.as_ref().is_some_and(|t| !t.2);
        let roots: Vec<&Span> = spans.iter().filter(|x| x.attrs.get("request_id") == Some(&l.w.id)).collect();
        let name = if i + 1 == live.len() { "flush".to_string() } else { format!("{i}") };
        if unsampled || !l.w.hits {
            o.label(if unsampled { "unsampled" } else { "miss" });
            ensure!(roots.is_empty(), "unsampled", "a span for request {name} that is not sampled or matched\n{}\n{}", all(), info(&trace));
            continue;
        }
        if roots.is_empty() && overflow {
            continue;
        }
        ensure!(roots.len() == 1, "request-span", "{} spans for request {name}\n{}\n{}", roots.len(), all(), info(&trace));
        let r = roots[0];
        mine.insert(r.id.clone(), i);
        let host = if name == "flush" { ("flush", "flush") } else { ("set-a", "h") };
        ensure!(r.attrs.get("action_set").map(|x| x.as_str()) == Some(host.0) && r.attrs.get("hostname").map(|x| x.as_str()) == Some(host.1), "attributes", "span of request {name}: {}\n{}", show(r), info(&trace));
        match &l.w.trace {
            Some((t, p, _)) => {
                o.label("continued-trace");
                ensure!(hex(&r.trace) == *t && hex(&r.parent) == *p, "request-span-trace", "span of request {name}: {}\n{}", show(r), info(&trace))
            }
            None => {
                o.label("own-trace");
                ensure!(r.parent.iter().all(|b| *b == 0), "request-span-trace", "span of request {name} has a parent: {}\n{}", show(r), info(&trace));
                ensure!(spans.iter().filter(|x| x.trace == r.trace && x.attrs.contains_key("request_id")).count() == 1, "shared-trace", "{}\n{}", all(), info(&trace));
            }
        }
        // an action has one span, whatever becomes of its call
        let grpc = spans.iter().filter(|x| x.trace == r.trace && x.attrs.contains_key("sources")).count();
        let most = cfg["actionSets"][0]["actions"].as_array().map_or(0, |a| a.iter().filter(|a| a["type"] == json!("grpc")).count());
        ensure!(grpc <= most, "spans-of-an-action", "{grpc} spans of {most} actions of request {name}\n{}\n{}", all(), info(&trace));
        // what the calls of the request name as their parent is a span of the request
        for (t, p, d) in &l.parents {
            ensure!(*t == hex(&r.trace), "call-trace", "a call of request {name} is part of trace {t}\n{}\n{}", all(), info(&trace));
            if !overflow {
                ensure!(spans.iter().any(|x| hex(&x.id) == *p && x.trace == r.trace), "call-parent", "a call of request {name} names span {p}, which is not exported\n{}\n{}", all(), info(&trace));
                // which tells the action it is made for
                // (below DEBUG the span of the call itself is not traced, and the call may name the request's own span)
                if let Some(a) = actions.get(d).filter(|_| level != "INFO" || mine.get(p_id(p).as_slice()) != Some(&i)) {
                    let mut above = vec![];
                    let mut at = spans.iter().find(|x| hex(&x.id) == *p);
                    while let (Some(x), true) = (at, above.len() < 50) {
                        above.push(x);
                        at = by_id.get(&x.parent).copied();
                    }
                    let own = above.iter().find(|x| x.attrs.contains_key("action") || x.attrs.contains_key("sources"));
                    if let Some(w) = a["label"].as_str() {
                        o.label("labelled");
                        ensure!(own.and_then(|x| x.attrs.get("action")).is_some_and(|x| x == w), "label", "the call with domain {d} of request {name} is not below a span that says {w}\n{}\n{}", all(), info(&trace));
                    } else {
                        ensure!(own.is_none_or(|x| !x.attrs.contains_key("action")), "label", "the call with domain {d} of request {name} is made for another action\n{}\n{}", all(), info(&trace));
                    }
                    for w in a["sources"].as_array().into_iter().flatten() {
                        ensure!(own.and_then(|x| x.attrs.get("sources")).is_some_and(|x| x.contains(&w.to_string())), "sources", "the call with domain {d} of request {name} is not below a span with its sources\n{}\n{}", all(), info(&trace));
                    }
                }
            }
        }
    }
    for x in &spans {
        ensure!(x.start <= x.end && x.end > 0, "times", "{x:?}");
        if x.attrs.contains_key("request_id") {
            ensure!(mine.contains_key(&x.id), "unknown-request", "{}\n{}", show(x), info(&trace));
            continue;
        }
        // every other span belongs to the span of a request
        let mut at = x;
        let mut steps = 0;
        let owner = loop {
            if let Some(i) = mine.get(&at.id) {
                break Some(*i);
            }
            match by_id.get(&at.parent) {
                Some(p) if steps < 50 => at = p,
                _ => break None,
            }
            steps += 1;
        };
        if overflow && owner.is_none() {
            continue;
        }
        ensure!(owner.is_some(), "orphan", "not part of any request: {}\n{}\n{}", show(x), all(), info(&trace));
        ensure!(at.trace == x.trace, "trace-of-another", "{} under {}\n{}", show(x), show(at), info(&trace));
        o.label(format!("span-{}", x.name));
    }
    // failures show
    for (id, i) in &mine {
        let l = &live[*i];
        let tr = &by_id[id].trace;
        let failed = spans.iter().any(|x| x.error && x.trace == *tr);
        if !overflow {
            ensure!(failed == (l.errors > 0), "error-status", "request {i}: {} errors, but {} of its spans has an error status\n{}\n{}", l.errors, if failed { "one" } else { "none" }, all(), info(&trace));
        }
        if failed {
            o.label("error-status");
        }
    }
    o.nontrivial = spans.len() > live.len();
    o.sample = Some(format!("{trace:?}\n{}", all()));
    Ok(())
}
fn p_id(h: &str) -> Vec<u8> {
    (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect()
}
/// A whole request that does nothing itself.
fn flush(q: &mut Req) -> Step {
    let mut a = q.headers(true);
    q.enter_response(200, &[]);
    a.events.extend(q.resp_headers(true).events);
    a
}
fn finish(q: &mut Req) {
    q.end();
}
fn take(c: &Call, i: usize, l: &mut Live, exporting: bool, spans: &mut Vec<Span>, exports: &mut Vec<usize>, cfg: &J) -> Res {
    if c.upstream != "tracing-cluster" {
        if let Some((_, v)) = c.headers.iter().find(|h| h.0 == "traceparent") {
            let t = String::from_utf8_lossy(v).into_owned();
            if exporting && l.w.trace.as_ref().is_none_or(|x| x.2) {
                ensure!(t.len() == 55, "traceparent", "{t}");
                let d = Msg::decode(&c.message).map(|m| m.get_s(1)).unwrap_or_default();
                l.parents.push((t[3..35].to_string(), t[36..52].to_string(), d));
            }
        } else {
            ensure!(!exporting, "traceparent", "no traceparent in a traced call of request {i} {:?} {c:?}\n{cfg}", l.w);
        }
        return Ok(());
    }
    let Some(got) = decode(&c.message) else { return fail("undecodable", format!("{:02x?}", c.message)) };
    ensure!(!got.is_empty(), "empty-export", "an export without spans\n{cfg}");
    exports.push(got.len());
    spans.extend(got);
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C25",
        run: c25,
        quick: 30_000,
        thorough: 2_000_000,
        rule: "spans other than those of whole requests were exported",
        assumptions: &[],
    }]
}

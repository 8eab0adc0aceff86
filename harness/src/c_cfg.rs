//! C18 (what a configuration means and when it is refused) and C19 (a reconfiguration is all or nothing).
use crate::env::*;
use crate::fw::*;
use crate::pipe::{gen_spec, Ans, Profile};
use crate::wire::Msg;
use proxy_wasm::sim::{self, Ev};
use proxy_wasm::types::{Action, MapType};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- generic surgery on a configuration
#[derive(Clone, Debug)]
enum Seg {
    K(String),
    I(usize),
}
fn at<'a>(v: &'a mut J, path: &[Seg]) -> &'a mut J {
    let mut c = v;
    for p in path {
        c = match p {
            Seg::K(k) => &mut c[k.as_str()],
            Seg::I(i) => &mut c[*i],
        };
    }
    c
}
fn show(p: &[Seg]) -> String {
    p.iter().map(|s| match s { Seg::K(k) => format!(".{k}"), Seg::I(i) => format!("[{i}]") }).collect()
}
fn walk(v: &J, path: &mut Vec<Seg>, f: &mut dyn FnMut(&[Seg], &J)) {
    f(path, v);
    match v {
        J::Object(m) => {
            for (k, x) in m {
                path.push(Seg::K(k.clone()));
                walk(x, path, f);
                path.pop();
            }
        }
        J::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(Seg::I(i));
                walk(x, path, f);
                path.pop();
            }
        }
        _ => {}
    }
}
#[derive(Clone, Debug)]
enum Mut {
    Remove(Vec<Seg>, &'static str),
    Put(Vec<Seg>, &'static str, J),
}
const BAD_CEL: &[&str] = &["1 +", "a b", "(", ")", "x..y", "@", "", "'open", "[1, 2", "{'a': }", "a ? b"];
/// invalid on its own and also once the legacy form embeds it between operators and parentheses
const BAD_CEL_LEGACY: &[&str] = &["1 +", "a b", "x..y", "@", "[1, 2", "{'a': }", "* 2"];

/// Every change listed makes the configuration one that must be refused.
fn breakers(cfg: &J) -> Vec<Mut> {
    let mut out = vec![];
    walk(cfg, &mut vec![], &mut |p, v| {
        let J::Object(m) = v else { return };
        let rm = |out: &mut Vec<Mut>, k: &'static str| {
            if m.contains_key(k) {
                out.push(Mut::Remove(p.to_vec(), k));
            }
        };
        let put = |out: &mut Vec<Mut>, k: &'static str, j: J| out.push(Mut::Put(p.to_vec(), k, j));
        let names: Vec<&str> = p.iter().filter_map(|s| if let Seg::K(k) = s { Some(k.as_str()) } else { None }).collect();
        let is_action = m.contains_key("predicate") || m.contains_key("scope");
        let in_reply = names.contains(&"onReply");
        if p.is_empty() {
            rm(&mut out, "services");
            rm(&mut out, "actionSets");
            put(&mut out, "services", json!([1]));
            put(&mut out, "actionSets", json!({"a": 1}));
            put(&mut out, "actionSets", J::Null);
        } else if names == ["services"] {
        } else if names.len() == 2 && names[0] == "services" {
            rm(&mut out, "type");
            rm(&mut out, "endpoint");
            put(&mut out, "type", json!("bogus"));
            put(&mut out, "type", json!("Auth"));
            put(&mut out, "endpoint", json!(7));
            put(&mut out, "failureMode", json!("maybe"));
            put(&mut out, "failureMode", json!("Deny"));
            put(&mut out, "failureMode", json!(true));
            put(&mut out, "timeout", json!(20));
            for t in ["20", "ms", "-5ms", "abc", ""] {
                put(&mut out, "timeout", json!(t));
            }
            // a dynamic service must say what to call
            rm(&mut out, "grpcService");
            rm(&mut out, "grpcMethod");
            if m["type"] != "dynamic" {
                put(&mut out, "type", json!("dynamic"));
            }
            if names[1] != "tracer" {
                // gRPC actions cannot be sent to a trace collector
                put(&mut out, "type", json!("tracing"));
            }
        } else if m.contains_key("routeRuleConditions") {
            rm(&mut out, "name");
            rm(&mut out, "routeRuleConditions");
            rm(&mut out, "actions");
            put(&mut out, "actions", json!("none"));
        } else if m.contains_key("hostnames") {
            rm(&mut out, "hostnames");
            put(&mut out, "hostnames", json!("*"));
            for b in BAD_CEL {
                put(&mut out, "predicates", json!(["true", b]));
            }
            put(&mut out, "predicates", json!([true]));
        } else if is_action && m.contains_key("scope") {
            rm(&mut out, "scope");
            rm(&mut out, "service");
            put(&mut out, "service", json!("nobody"));
            for b in BAD_CEL_LEGACY {
                put(&mut out, "predicates", json!([b]));
                put(&mut out, "predicates", json!(["true", b]));
                put(&mut out, "conditionalData", json!([{"predicates": [b], "data": [{"static": {"key": "k", "value": "v"}}]}]));
                put(&mut out, "conditionalData", json!([{"data": [{"expression": {"key": "k", "value": b}}]}]));
            }
            put(&mut out, "conditionalData", json!([{"data": [{"static": {"key": "k"}}]}]));
            put(&mut out, "conditionalData", json!([{"data": [{"expression": {"value": "'v'"}}]}]));
            put(&mut out, "conditionalData", json!([{"data": [{"other": {"key": "k", "value": "v"}}]}]));
        } else if is_action {
            rm(&mut out, "predicate");
            rm(&mut out, "terminal");
            rm(&mut out, "type");
            put(&mut out, "type", json!("bogus"));
            put(&mut out, "terminal", json!("yes"));
            put(&mut out, "isGuard", json!("no"));
            put(&mut out, "execution", json!("whenever"));
            if in_reply {
                put(&mut out, "execution", json!("sequential"));
            }
            for b in BAD_CEL {
                put(&mut out, "predicate", json!(b));
            }
            let mut cel = |k: &'static str| {
                for b in BAD_CEL {
                    out.push(Mut::Put(p.to_vec(), k, json!(b)));
                }
                out.push(Mut::Remove(p.to_vec(), k));
                out.push(Mut::Put(p.to_vec(), k, json!(1)));
            };
            match m.get("type").and_then(|t| t.as_str()) {
                Some("grpc") => {
                    cel("messageBuilder");
                    rm(&mut out, "var");
                    rm(&mut out, "service");
                    put(&mut out, "service", json!("nobody"));
                    put(&mut out, "onReply", json!({"a": 1}));
                    put(&mut out, "onReply", json!([{"type": "fail"}]));
                }
                Some("deny") => cel("denyWith"),
                Some("headers") => {
                    cel("headers");
                    rm(&mut out, "target");
                    put(&mut out, "target", json!("trailers"));
                }
                Some("store") => {
                    cel("value");
                    rm(&mut out, "path");
                    put(&mut out, "exportToHost", json!("yes"));
                }
                Some("fail") => rm(&mut out, "logMessage"),
                _ => {}
            }
        }
    });
    out
}
fn apply(cfg: &mut J, m: &Mut) {
    match m {
        Mut::Remove(p, k) => {
            at(cfg, p).as_object_mut().unwrap().remove(*k);
        }
        Mut::Put(p, k, v) => at(cfg, p)[*k] = v.clone(),
    }
}
fn desc(m: &Mut) -> String {
    match m {
        Mut::Remove(p, k) => format!("without {}.{k}", show(p)),
        Mut::Put(p, k, v) => format!("with {}.{k} = {v}", show(p)),
    }
}

/// Optional settings and their documented defaults: removing one written out must change nothing.
fn defaults(cfg: &J) -> Vec<(Vec<Seg>, &'static str)> {
    let mut out = vec![];
    walk(cfg, &mut vec![], &mut |p, v| {
        let J::Object(m) = v else { return };
        for (k, d) in [
            ("isGuard", json!(true)),
            ("execution", json!("parallel")),
            ("failureMode", json!("deny")),
            ("timeout", json!("20ms")),
            ("onReply", json!([])),
            ("exportToHost", json!(false)),
            ("sources", json!([])),
            ("label", json!("")),
            ("predicates", json!([])),
            ("conditionalData", json!([])),
            ("requestData", json!({})),
            ("observability", json!({})),
            ("descriptorService", json!("kuadrant-operator-grpc")),
        ] {
            if m.get(k) == Some(&d) {
                out.push((p.to_vec(), k));
            }
        }
    });
    out
}
/// Write every optional setting out with its default.
fn spell_out(cfg: &mut J) {
    let mut sites = vec![];
    walk(cfg, &mut vec![], &mut |p, v| {
        let J::Object(m) = v else { return };
        let names: Vec<&str> = p.iter().filter_map(|s| if let Seg::K(k) = s { Some(k.as_str()) } else { None }).collect();
        let mut add = |k: &'static str, d: J| {
            if !m.contains_key(k) {
                sites.push((p.to_vec(), k, d));
            }
        };
        if p.is_empty() {
            add("requestData", json!({}));
            add("observability", json!({}));
            add("descriptorService", json!("kuadrant-operator-grpc"));
        } else if names.len() == 2 && names[0] == "services" {
            add("failureMode", json!("deny"));
            add("timeout", json!("20ms"));
        } else if m.contains_key("hostnames") {
            add("predicates", json!([]));
        } else if m.contains_key("scope") {
            add("predicates", json!([]));
            add("conditionalData", json!([]));
            add("sources", json!([]));
        } else if m.contains_key("predicate") {
            add("isGuard", json!(true));
            add("execution", json!("parallel"));
            add("sources", json!([]));
            if m["type"] == "grpc" {
                add("onReply", json!([]));
                add("label", json!(""));
            }
            if m["type"] == "store" {
                add("exportToHost", json!(false));
            }
        }
    });
    for (p, k, d) in sites {
        at(cfg, &p)[k] = d;
    }
}

// ---------------------------------------------------------------- a fixed schedule, recorded
fn norm(e: &Ev) -> Option<String> {
    Some(match e {
        Ev::Call(c) => {
            let hdrs: Vec<&String> = c.headers.iter().map(|h| &h.0).collect();
            format!("call {} {} {} {:?} timeout {:?} {:?}", c.upstream, c.service, c.method, c.message, c.timeout, hdrs)
        }
        Ev::SetMap(t, m) => {
            let mut m = m.clone();
            m.sort();
            format!("set {t:?} {m:?}")
        }
        Ev::Metric(id, d) => format!("metric {} +{d}", proxy_wasm::sim::metric_name(*id)),
        e => format!("{e:?}"),
    })
}
/// What a whole exchange looks like from outside; `plan` decides how each call is answered.
fn exchange(vm: &Vm, id: u32, plan: &[Ans]) -> Vec<String> {
    let mut out = vec![];
    let mut q = vm.open(id, stream("api.example.com", "/x?y=1", "GET", &[("x-a", "v0"), ("x-b", "v1"), ("x-request-id", "rid")]));
    let mut n = 0;
    let mut put = |tag: &str, st: &Step, out: &mut Vec<String>| {
        out.push(format!("{tag} -> {:?}", st.action));
        let mut evs: Vec<String> = st.events.iter().filter_map(norm).collect();
        out.append(&mut evs);
    };
    let drain = |q: &mut Req, n: &mut usize, out: &mut Vec<String>, put: &mut dyn FnMut(&str, &Step, &mut Vec<String>)| {
        for _ in 0..40 {
            let Some(c) = q.outstanding.first().cloned() else { break };
            let a = plan[*n % plan.len()].clone();
            *n += 1;
            let st = a.give(q, c.token);
            put(&format!("answer {a:?}"), &st, out);
        }
    };
    let st = q.headers(true);
    put("headers", &st, &mut out);
    drain(&mut q, &mut n, &mut out, &mut put);
    if q.replied {
        return out;
    }
    q.enter_response(200, &[("x-up".into(), "u".into())]);
    let st = q.resp_headers(false);
    put("response headers", &st, &mut out);
    drain(&mut q, &mut n, &mut out, &mut put);
    if q.replied {
        return out;
    }
    let st = q.resp_body(br#"{"m": "hi", "usage": {"t": 7}, "list": [1, 2]}"#, true);
    put("response body", &st, &mut out);
    drain(&mut q, &mut n, &mut out, &mut put);
    out
}
fn answers(s: &mut Src) -> Vec<Ans> {
    (0..s.range(1, 4))
        .map(|_| match s.below(6) {
            0 => Ans::Status(14),
            1 => Ans::Code(2),
            _ => Ans::Code(1),
        })
        .collect()
}

fn c18(s: &mut Src, o: &mut Obs) -> Res {
    let p = Profile { nested: 2, legacy: 30, max_actions: 4, tracing: 0, ident: 10, ..Profile::default() };
    let spec = gen_spec(s, &p);
    let mut cfg = spec.json();
    if s.chance(1, 4) {
        cfg["actionSets"][0]["routeRuleConditions"]["predicates"] = json!(["request.method == 'GET'"]);
    }
    // durations are exact sums of their parts
    let unit = [("h", 3_600_000_000_000u64), ("m", 60_000_000_000), ("s", 1_000_000_000), ("ms", 1_000_000), ("us", 1_000), ("ns", 1)];
    let mut expect: BTreeMap<String, u64> = BTreeMap::new();
    for sv in &spec.svcs {
        let mut ns = 0;
        let mut t = String::new();
        let first = s.n(unit.len());
        for (u, m) in unit.iter().skip(first).take(s.range(1, 2)) {
            let k = if s.chance(1, 12) { 0 } else { s.range(1, 90) as u64 };
            t.push_str(&format!("{k}{u}"));
            ns += k * m;
        }
        let svc = &mut cfg["services"][&sv.name];
        svc["timeout"] = json!(t);
        expect.insert(sv.endpoint.clone(), ns);
        if s.chance(1, 3) {
            svc.as_object_mut().unwrap().remove("timeout");
            expect.insert(sv.endpoint.clone(), 20_000_000);
        }
    }
    let plan = answers(s);
    match s.below(3) {
        // a well-formed configuration is accepted, and leaving an optional setting out means its default
        0 => {
            spell_out(&mut cfg);
            let sites = defaults(&cfg);
            let mut less = cfg.clone();
            let mut gone = vec![];
            for (p, k) in &sites {
                if s.bool() {
                    at(&mut less, p).as_object_mut().unwrap().remove(*k);
                    gone.push(format!("{}.{k}", show(p)));
                }
            }
            let Some(vm) = Vm::new(&cfg) else { return fail("valid-refused", format!("a well-formed configuration is refused: {cfg}")) };
            let a = exchange(&vm, 11, &plan);
            drop(vm);
            let Some(vm) = Vm::new(&less) else {
                return fail("valid-refused", format!("refused without the optional settings {gone:?}: {less}"));
            };
            let b = exchange(&vm, 12, &plan);
            o.nontrivial = !gone.is_empty() && a.iter().any(|l| l.starts_with("call"));
            o.label("default-left-out");
            o.checks += 1;
            o.sample = Some(format!("left out {gone:?} of {cfg}"));
            ensure!(a == b, "default", "leaving out {gone:?} changes the behaviour\n  written out: {a:?}\n  left out: {b:?}\nconfiguration {cfg}");
            for l in a.iter().filter(|l| l.starts_with("call cluster-")) {
                let up = l.split(' ').nth(1).unwrap();
                let want = format!("timeout {:?} ", std::time::Duration::from_nanos(expect[up]));
                ensure!(l.contains(&want), "timeout", "{l}\n  expected {want}\nconfiguration {cfg}");
                o.label("timeout-checked");
            }
            Ok(())
        }
        // a mistake anywhere has the whole configuration refused
        k => {
            let all = breakers(&cfg);
            let m = s.pick(&all).clone();
            let mut bad = cfg.clone();
            apply(&mut bad, &m);
            let mut bytes = bad.to_string().into_bytes();
            let mut what = desc(&m);
            if k == 2 && s.chance(1, 10) {
                bytes = cfg.to_string().into_bytes();
                let n = s.n(bytes.len());
                bytes.truncate(n);
                what = format!("cut at {n}");
                if s.bool() {
                    bytes = cfg.to_string().into_bytes();
                    bytes.extend(b" x");
                    what = "followed by rubbish".into();
                }
            }
            let mut vm = Vm::new(&json!({"services": {}, "actionSets": []})).expect("minimal configuration");
            // legacy actions need services of a type they can be translated for
            let (ok, st) = vm.configure(bytes.clone());
            o.checks += 1;
            o.nontrivial = true;
            o.label(format!("broken:{}", match &m { Mut::Remove(_, k) => format!("-{k}"), Mut::Put(_, k, _) => format!("{k}") }));
            o.sample = Some(format!("{what}: {cfg}"));
            ensure!(st.calls().is_empty(), "refused-but-calls", "a refused configuration makes calls: {what}");
            if ok && unused_service(&cfg, &m) {
                return Ok(());
            }
            ensure!(!ok, "invalid-accepted", "accepted although {what}\n{}", String::from_utf8_lossy(&bytes));
            let a = exchange(&vm, 13, &plan);
            ensure!(!a.iter().any(|l| l.starts_with("call") || l.starts_with("Reply") || l.starts_with("set")), "refused-in-force", "{what}: {a:?}");
            Ok(())
        }
    }
}
/// `type: tracing` is only wrong for a service some action calls
fn unused_service(cfg: &J, m: &Mut) -> bool {
    let Mut::Put(p, "type", v) = m else { return false };
    if v != "tracing" || p.len() != 2 {
        return false;
    }
    let Seg::K(name) = &p[1] else { return false };
    let mut used = false;
    walk(&cfg["actionSets"], &mut vec![], &mut |_, v| used |= v.get("service").and_then(|x| x.as_str()) == Some(name));
    !used
}

// ---------------------------------------------------------------- C19
#[derive(Clone, Debug)]
struct V {
    n: usize,
    endpoint: String,
    status: u32,
    allow: bool,
    timeout: u64,
    hosts: Vec<String>,
    extra: bool,
    /// where the descriptors of its dynamic service come from
    fetcher: Option<String>,
    bad: bool,
}
impl V {
    fn fetcher(&self) -> String {
        self.fetcher.clone().unwrap_or("kuadrant-operator-grpc".into())
    }
    /// The upstream of its dynamic service, whose descriptors never arrive.
    fn cluster(&self) -> String {
        format!("{}-{}", if self.bad { "bad" } else { "dyn" }, self.n)
    }
    fn json(&self) -> J {
        let mut acts = vec![json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "r", "service": "s",
            "messageBuilder": format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: 'v{}' }}", self.n),
            "onReply": [{"type": "deny", "predicate": "r.overall_code == 2", "terminal": true, "denyWith": format!("DenyResponse {{ status: {}u }}", self.status)}]})];
        acts.push(json!({"type": "headers", "predicate": "true", "terminal": false, "target": "response", "headers": format!("[['x-conf', 'v{}']]", self.n)}));
        if self.extra {
            acts.push(json!({"type": "headers", "predicate": "true", "terminal": false, "target": "request", "headers": format!("[['x-extra', 'v{}']]", self.n)}));
        }
        let mut c = json!({"services": {"s": {"type": "ratelimit", "endpoint": self.endpoint, "failureMode": if self.allow { "allow" } else { "deny" }, "timeout": format!("{}ms", self.timeout)},
                "d": {"type": "dynamic", "endpoint": self.cluster(), "grpcService": "p.A", "grpcMethod": "Do"}},
            "actionSets": [{"name": "a", "routeRuleConditions": {"hostnames": self.hosts}, "actions": acts},
                {"name": "b", "routeRuleConditions": {"hostnames": ["dynamic.com"]}, "actions": [
                    {"type": "grpc", "predicate": "true", "terminal": false, "var": "r", "service": "d", "messageBuilder": "p.In{}"}]}]});
        if let Some(f) = &self.fetcher {
            c["descriptorService"] = json!(f);
        }
        c
    }
}
const HOSTS: &[&str] = &["a.com", "b.com", "c.com"];

struct Live {
    q: Req,
    v: Option<V>,
    stage: u8,
}

/// A load or a tick asks for the missing descriptors: at the place the accepted configuration names, for
/// the services it needs and for none only a refused one needed. Every fetch fails, so that they are missing again.
fn fetched(vm: &mut Vm, st: &Step, cur: &Option<V>, o: &mut Obs) -> Res {
    let calls: Vec<_> = st.calls().into_iter().cloned().collect();
    for c in &calls {
        vm.answer(c.token, 14, Ok(None), 0);
    }
    let Some(v) = cur else { return Ok(()) };
    o.checks += 1;
    let asked: Vec<Vec<String>> = calls.iter().map(|c| Msg::decode(&c.message).map(|m| m.msgs(1).iter().map(|k| k.get_s(1)).collect()).unwrap_or_default()).collect();
    ensure!(
        calls.len() == 1 && calls[0].upstream == v.fetcher() && asked[0].contains(&v.cluster()) && !asked[0].iter().any(|c| c.starts_with("bad")),
        "stale-fetch",
        "{v:?} is in force; fetches {:?} at {:?}", asked, calls.iter().map(|c| &c.upstream).collect::<Vec<_>>()
    );
    Ok(())
}

fn c19(s: &mut Src, o: &mut Obs) -> Res {
    // starts from nothing in force: a fresh root once in a while, else an accepted empty configuration
    let mut vm = if s.chance(1, 60) { Vm::boot_only() } else { Vm::new(&json!({"services": {}, "actionSets": []})).expect("empty") };
    // what earlier cases left open on a recycled root
    for c in sim::with(|s| s.events.clone()) {
        if let Ev::Call(c) = c.1 {
            vm.answer(c.token, 14, Ok(None), 0);
        }
    }
    let mut cur: Option<V> = None;
    let mut live: Vec<Live> = vec![];
    let mut id = 20;
    let mut n = 0;
    let mut refused = false;
    let mut trace = vec![];
    for _ in 0..if s.chance(1, 60) { s.range(20, 150) } else { s.range(4, 14) } {
        match s.below(8) {
            7 => {
                // the host ticks only while the filter wants it to
                if sim::with(|s| s.tick_period).is_zero() {
                    ensure!(cur.is_none(), "no-ticks", "{cur:?} misses descriptors\n{trace:?}");
                    continue;
                }
                trace.push("tick".into());
                let st = vm.tick();
                fetched(&mut vm, &st, &cur, o).map_err(|f| Fail { msg: format!("{}\n{trace:?}", f.msg), ..f })?;
                if refused && cur.is_some() {
                    o.label("fetch-after-refusal");
                }
            }
            0 | 1 => {
                n += 1;
                let bad = s.chance(2, 5);
                let v = V {
                    n,
                    bad,
                    endpoint: format!("up-{}", s.n(3)),
                    status: 400 + s.n(60) as u32,
                    allow: s.bool(),
                    timeout: s.range(1, 50) as u64,
                    hosts: HOSTS.iter().filter(|_| s.chance(2, 3)).map(|h| h.to_string()).collect(),
                    extra: s.bool(),
                    fetcher: if s.bool() { Some(format!("ds{}", s.n(3))) } else { None },
                };
                let mut j = v.json();
                if bad {
                    if s.chance(1, 2) {
                        let all = breakers(&j);
                        let m = loop {
                            let m = s.pick(&all).clone();
                            if !unused_service(&j, &m) {
                                break m;
                            }
                        };
                        apply(&mut j, &m);
                        trace.push(format!("configure v{n} {}", desc(&m)));
                    } else {
                        // the mistake sits in the last of several sets
                        let sets = j["actionSets"].as_array_mut().unwrap();
                        sets.push(json!({"name": "late", "routeRuleConditions": {"hostnames": ["a.com"]}, "actions": [
                            match s.below(3) {
                                0 => json!({"type": "deny", "predicate": "1 +", "terminal": true, "denyWith": "DenyResponse {}"}),
                                1 => json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "x", "service": "nobody", "messageBuilder": "1"}),
                                _ => json!({"service": "nobody", "scope": "x"}),
                            }]}));
                        trace.push(format!("configure v{n} with a late mistake"));
                    }
                } else {
                    trace.push(format!("configure {v:?}"));
                }
                let (ok, st) = vm.configure(j.to_string().into_bytes());
                ensure!(st.metric("kuadrant.configs") == 1, "configs-metric", "{trace:?}");
                ensure!(ok != bad, "accept", "accepted: {ok}, expected {}\n{j}", !bad);
                if ok {
                    o.nontrivial |= !live.is_empty();
                    if cur.is_some() && live.iter().any(|l| l.stage < 3) {
                        o.label("replaced-with-open-requests");
                    }
                    cur = Some(v);
                    fetched(&mut vm, &st, &cur, o).map_err(|f| Fail { msg: format!("{}\n{trace:?}", f.msg), ..f })?;
                } else {
                    ensure!(st.calls().is_empty(), "stale-fetch", "a refused configuration fetches: {:?}\n{trace:?}", st.calls());
                    refused = true;
                    if cur.is_some() {
                        o.label("refused-over-accepted");
                    }
                }
            }
            2 | 3 => {
                id += 1;
                let host = *s.pick(HOSTS);
                let q = vm.open(id, stream(host, "/", "GET", &[]));
                let v = cur.clone().filter(|v| v.hosts.iter().any(|h| h == host));
                o.nontrivial |= refused;
                trace.push(format!("open {id} {host}"));
                live.push(Live { q, v, stage: 0 });
            }
            _ => {
                if live.is_empty() {
                    continue;
                }
                let i = s.n(live.len());
                let l = &mut live[i];
                let want = l.v.clone();
                let name = l.q.id;
                o.checks += 1;
                match l.stage {
                    0 => {
                        let st = l.q.headers(true);
                        trace.push(format!("headers {name}"));
                        l.stage = 1;
                        match &want {
                            None => {
                                ensure!(st.action == Some(Action::Continue) && st.calls().is_empty() && st.replies().is_empty(), "unconfigured", "{}", ctx_of(name, &want, &trace, format!("{st:?}")));
                                l.stage = 3;
                            }
                            Some(v) => {
                                let c = st.calls();
                                ensure!(c.len() == 1, "calls", "{}", ctx_of(name, &want, &trace, format!("{} calls", c.len())));
                                let dom = Msg::decode(&c[0].message).map(|m| m.get_s(1)).unwrap_or_default();
                                ensure!(
                                    c[0].upstream == v.endpoint && dom == format!("v{}", v.n) && c[0].timeout.as_millis() as u64 == v.timeout,
                                    "stale-call", "{}", ctx_of(name, &want, &trace, format!("call to {} for {dom} with {:?}", c[0].upstream, c[0].timeout))
                                );
                                let x = last_map(&st.events, MapType::HttpRequestHeaders).and_then(|m| m.into_iter().find(|h| h.0 == "x-extra")).map(|h| h.1);
                                let wx = if v.extra { Some(format!("v{}", v.n)) } else { None };
                                ensure!(x == wx, "stale-header", "{}", ctx_of(name, &want, &trace, format!("x-extra {x:?}")));
                            }
                        }
                    }
                    1 => {
                        let v = want.clone().unwrap();
                        let tok = l.q.outstanding[0].token;
                        let a = s.below(3);
                        trace.push(format!("answer {name} {a}"));
                        let st = match a {
                            0 => l.q.ok(tok, Msg::new().v(1, 1).encode()),
                            1 => l.q.ok(tok, Msg::new().v(1, 2).encode()),
                            _ => l.q.answer(tok, 14, Ok(None)),
                        };
                        let r = st.replies();
                        let denied = match a {
                            0 => None,
                            1 => Some(v.status),
                            _ if v.allow => None,
                            _ => Some(500),
                        };
                        ensure!(r.first().map(|r| r.0) == denied, "stale-reply", "{}", ctx_of(name, &want, &trace, format!("replies {r:?}")));
                        l.stage = if denied.is_some() { 3 } else { 2 };
                    }
                    2 => {
                        l.q.enter_response(200, &[]);
                        let st = l.q.resp_headers(true);
                        trace.push(format!("response {name}"));
                        let x = last_map(&st.events, MapType::HttpResponseHeaders).and_then(|m| m.into_iter().find(|h| h.0 == "x-conf")).map(|h| h.1);
                        ensure!(x == want.as_ref().map(|v| format!("v{}", v.n)), "stale-header", "{}", ctx_of(name, &want, &trace, format!("x-conf {x:?}")));
                        l.stage = 3;
                    }
                    _ => {
                        live.remove(i);
                    }
                }
            }
        }
    }
    o.sample = Some(format!("{trace:?}"));
    Ok(())
}
fn ctx_of(name: u32, want: &Option<V>, trace: &[String], x: String) -> String {
    format!("request {name} under {want:?}: {x}\n{trace:?}")
}

pub fn all() -> Vec<Check> {
    vec![
        Check {
            id: "C18",
            run: c18,
            quick: 60_000,
            thorough: 4_000_000,
            rule: "the configuration was broken in one place, or an optional setting was left out of one that makes a call",
            assumptions: &["a typed action carries no scope, a legacy action no predicate"],
        },
        Check {
            id: "C19",
            run: c19,
            quick: 60_000,
            thorough: 4_000_000,
            rule: "a request was opened after a refused configuration, or a configuration was accepted while requests were open",
            assumptions: &["the root context outlives its configurations"],
        },
    ]
}

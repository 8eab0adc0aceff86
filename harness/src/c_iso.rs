//! C22: requests in flight together behave as each would alone.
use crate::env::*;
use crate::fw::*;
use crate::pipe::{gen_spec, Ans, Profile};
use crate::wire::Msg;
use proxy_wasm::sim::{self, Ev, Prop};
use proxy_wasm::types::{LogLevel, Status};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

/// One exchange, fixed in advance: what it sends and how each of its steps is chosen.
#[derive(Clone, Debug)]
pub struct Plan {
    pub mark: String,
    headers: Vec<(String, String)>,
    chunks: Vec<String>,
    resp: Vec<String>,
    choices: Vec<u64>,
    /// the client goes away after so many steps
    gone: usize,
    host: &'static str,
    path: String,
    method: &'static str,
    /// further attributes of the host
    attrs: Vec<(&'static str, Vec<u8>)>,
}
/// Attributes that text is in
const AT: &[&str] = &[
    "source.address",
    "source.principal",
    "source.service",
    "destination.address",
    "destination.principal",
    "connection.requested_server_name",
    "connection.tls_version",
    "connection.sha256_peer_certificate_digest",
    "connection.subject_peer_certificate",
    "request.id",
    "request.protocol",
    "request.scheme",
    "request.query",
    "request.referer",
    "metadata.tenant.name",
];
const AN: &[&str] = &["connection.id", "source.port", "destination.port"];
const HN: &[&str] = &["x-a", "x-b", "x-c"];
const HV: &[&str] = &["v0", "v1", "v2"];

pub fn plan(s: &mut Src, i: usize) -> Plan {
    let mark = format!("mark{i}z");
    // much of it they have in common
    let rid = if s.chance(1, 3) { "id-same".to_string() } else { format!("id-{mark}") };
    let mut headers = vec![("x-request-id".to_string(), rid), ("x-mark".to_string(), mark.clone())];
    for n in HN {
        if s.bool() {
            headers.push((n.to_string(), s.pick(HV).to_string()));
        }
    }
    let body = format!(r#"{{"mark":"{mark}","m":"hi","usage":{{"t":{}}}}}"#, s.below(9));
    let cut = |s: &mut Src, b: &str| -> Vec<String> {
        match s.below(3) {
            0 => vec![],
            1 => vec![b.to_string()],
            _ => {
                let k = s.range(1, b.len() - 1);
                vec![b[..k].to_string(), b[k..].to_string()]
            }
        }
    };
    Plan {
        headers,
        chunks: cut(s, &body),
        resp: cut(s, &body),
        choices: (0..24).map(|_| s.below(240)).collect(),
        gone: if s.chance(1, 6) { s.n(8) } else { 99 },
        host: *s.pickw(&[(8, "api.example.com"), (3, "other.example.com"), (1, "api.example.org")]),
        path: if s.bool() { "/same".into() } else { format!("/{mark}") },
        method: *s.pick(&["GET", "POST", "PUT"]),
        attrs: {
            // a request knows most of them; some values are those of others as well
            let mut a: Vec<(&'static str, Vec<u8>)> = vec![];
            for n in AT {
                if s.chance(3, 4) {
                    a.push((n, if s.bool() { format!("{mark}-{n}") } else { s.pick(&["shared:1", "other:2"]).to_string() }.into_bytes()));
                }
            }
            for n in AN {
                if s.chance(3, 4) {
                    a.push((n, s.below(3).to_le_bytes().to_vec()));
                }
            }
            a
        },
        mark,
    }
}

pub struct Going {
    p: Plan,
    q: Option<Req>,
    at: usize,
    chunk: usize,
    rchunk: usize,
    started: bool,
    responded: bool,
    calls: BTreeMap<u32, usize>,
    pub log: Vec<String>,
    /// what was logged during each step
    said: Vec<Vec<(LogLevel, String)>>,
    /// without the trace context of calls
    bare: bool,
}
impl Going {
    pub fn new(vm: &Vm, id: u32, p: &Plan) -> Going {
        let h: Vec<(&str, &str)> = p.headers.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
        let mut st = stream(p.host, &p.path, p.method, &h);
        st.props.insert(vec!["request".into(), "size".into()], Prop::InResponse(200i64.to_le_bytes().to_vec()));
        st.props.insert(vec!["request".into(), "useragent".into()], Prop::InResponse(p.mark.as_bytes().to_vec()));
        for (n, v) in &p.attrs {
            set_prop(&mut st, n, v);
        }
        Going { p: p.clone(), q: Some(vm.open(id, st)), at: 0, chunk: 0, rchunk: 0, started: false, responded: false, calls: BTreeMap::new(), log: vec![], said: vec![], bare: false }
    }
    /// One more step of this exchange; false when it is over.
    pub fn step(&mut self) -> Result<bool, Fail> {
        if self.at >= self.p.choices.len() || self.at > self.p.gone {
            self.q = None;
            return Ok(false);
        }
        let Some(q) = self.q.as_mut() else { return Ok(false) };
        let c = self.p.choices[self.at] as usize;
        self.at += 1;
        let mut en = vec![];
        if !self.started {
            en.push(0);
        } else {
            for _ in &q.outstanding {
                en.extend([1, 1]);
            }
            let body_left = self.chunk < self.p.chunks.len();
            if !self.responded {
                if body_left && (q.req == Dir::Flowing || self.chunk > 0) {
                    en.extend([2, 2]);
                }
                if q.replied || (!body_left && q.req == Dir::Flowing) || (q.req == Dir::Flowing && c % 7 == 0) {
                    en.push(3);
                }
            } else if self.rchunk < self.p.resp.len() && (q.resp == Dir::Flowing || self.rchunk > 0) {
                en.extend([4, 4]);
            }
        }
        if en.is_empty() {
            self.q = None;
            return Ok(false);
        }
        let from = sim::with(|s| s.events.len());
        let op = en[c % en.len()];
        let st = match op {
            0 => {
                self.started = true;
                q.headers(self.p.chunks.is_empty())
            }
            1 => {
                // by the order of the calls, which is the same in any company
                let i = (c / 7) % q.outstanding.len();
                let call = q.outstanding[i].clone();
                let a = match c % 12 {
                    0..=6 => Ans::Code(1),
                    7 | 8 => Ans::Code(2),
                    9 => Ans::Status(14),
                    10 => Ans::Garbage,
                    _ => Ans::NoBody,
                };
                a.give(q, call.token)
            }
            2 => {
                self.chunk += 1;
                q.body(self.p.chunks[self.chunk - 1].clone().as_bytes(), self.chunk == self.p.chunks.len())
            }
            3 => {
                self.responded = true;
                q.enter_response(200, &[("content-type".into(), "application/json".into()), ("x-up".into(), self.p.mark.clone())]);
                q.resp_headers(self.p.resp.is_empty())
            }
            _ => {
                self.rchunk += 1;
                q.resp_body(self.p.resp[self.rchunk - 1].clone().as_bytes(), self.rchunk == self.p.resp.len())
            }
        };
        let id = q.id;
        let foreign = sim::with(|s| s.events[from..].iter().find(|e| e.0 != id).cloned());
        if let Some(e) = foreign {
            return fail("foreign-effect", format!("a step of request {id} made {:?} happen to {}", e.1, e.0));
        }
        let mut evs = vec![];
        for e in &st.events {
            evs.push(match e {
                Ev::Call(c) => {
                    let n = self.calls.len();
                    self.calls.insert(c.token, n);
                    format!("call {n} {} {} {} {:?} {:?} {:?}", c.upstream, c.service, c.method, c.headers.iter().filter(|h| !self.bare || !matches!(h.0.as_str(), "traceparent" | "tracestate")).map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).into_owned())).collect::<Vec<_>>(), Msg::decode(&c.message), c.timeout)
                }
                Ev::Metric(id, d) => format!("{} {d:+}", sim::metric_name(*id)),
                e => crate::pipe::short(e),
            });
        }
        self.log.push(format!("{} {:?} {evs:?}", ["headers", "answer", "body", "response", "response-body"][op], st.action));
        self.said.push(st.logs.clone());
        Ok(true)
    }
}

fn extra(s: &mut Src) -> Vec<J> {
    let all = [
        json!({"type": "headers", "predicate": "true", "terminal": false, "target": "request", "headers": "[['x-m', request.headers['x-mark'] + request.path]]"}),
        json!({"type": "headers", "predicate": "true", "terminal": false, "target": "response", "headers": "[['x-m', request.headers['x-mark']]]"}),
        json!({"type": "store", "predicate": "true", "terminal": false, "path": "mk.v", "value": "request.headers['x-mark']", "exportToHost": true}),
        json!({"type": "store", "predicate": "true", "terminal": false, "path": "mb.v", "value": "requestBodyJSON('/mark')", "exportToHost": true}),
        json!({"type": "store", "predicate": "true", "terminal": false, "path": "mr.v", "value": "responseBodyJSON('/mark')", "exportToHost": true}),
        json!({"type": "headers", "predicate": "mk.v != ''", "terminal": false, "target": "request", "headers": "[['x-k', mk.v]]"}),
        json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "mm", "service": "svc0", "messageBuilder": "envoy.service.ratelimit.v3.RateLimitRequest { domain: request.headers['x-mark'] }",
            "onReply": [{"type": "headers", "predicate": "true", "terminal": false, "target": "request", "headers": "[['x-r', request.headers['x-mark'] + string(mm.overall_code)]]"},
                {"type": "deny", "predicate": "mm.overall_code == 2", "terminal": true, "denyWith": "DenyResponse{status: 429u, headers: [['x-who', request.headers['x-mark']]], body: request.headers['x-mark']}"}]}),
        json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "mn", "service": "svc0", "execution": "sequential", "isGuard": false, "messageBuilder": "envoy.service.ratelimit.v3.RateLimitRequest { domain: request.url_path }"}),
    ];
    all.iter().filter(|_| s.chance(1, 3)).cloned().collect()
}

/// A configuration for several requests, which need not all be governed by the same action set.
pub fn configuration(s: &mut Src, o: &mut Obs) -> J {
    let p = Profile { tracing: 0, nested: 1, refuse: 0, max_actions: 4, ..Profile::default() };
    let spec = gen_spec(s, &p);
    let mut cfg = spec.json();
    let acts = cfg["actionSets"][0]["actions"].as_array_mut().unwrap();
    for e in extra(s) {
        let at = s.n(acts.len() + 1);
        acts.insert(at, e);
    }
    if s.chance(2, 3) {
        // what else they know of where they come from
        let mut names: Vec<&str> = AT.iter().chain(AN).copied().collect();
        s.shuffle(&mut names);
        names.truncate(s.range(1, 5));
        let at = s.n(acts.len() + 1);
        acts.insert(at, json!({"type": "store", "predicate": "true", "terminal": false, "path": "at.v", "value": format!("[{}]", names.join(", ")), "exportToHost": true}));
        if s.bool() {
            let n = *s.pick(AT);
            acts.push(json!({"type": "deny", "predicate": format!("{n} == 'shared:1' && request.method == 'PUT'"), "terminal": true, "denyWith": "DenyResponse{status: 403u, headers: [['x-where', 'shared']]}"}));
        }
        o.label("attributes");
    }
    if s.chance(2, 3) {
        let sets = cfg["actionSets"].as_array_mut().unwrap();
        for k in 0..s.range(1, 2) {
            let cond = *s.pick(&["request.method == 'PUT'", "request.method != 'GET'", "request.headers['x-mark'] == 'mark1z'", "request.path == '/same'", "request.headers['x-mark'] in ['mark0z', 'mark2z']"]);
            let hosts = s.pick(&[json!(["api.example.com"]), json!(["api.example.com", "other.example.com"]), json!(["*.example.com"]), json!(["other.example.com"])]).clone();
            let mut own = vec![
                json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "mo", "service": "svc0", "messageBuilder": format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: 'set{k}' + request.headers['x-mark'] }}")}),
                json!({"type": "headers", "predicate": "true", "terminal": false, "target": "response", "headers": format!("[['x-set', 'set{k}']]")}),
            ];
            own.extend(extra(s));
            let set = json!({"name": format!("set{k}"), "routeRuleConditions": {"hostnames": hosts, "predicates": [cond]}, "actions": own});
            let at = s.n(sets.len() + 1);
            sets.insert(at, set);
        }
        o.label("several-action-sets");
    }
    cfg
}

fn c22(s: &mut Src, o: &mut Obs) -> Res {
    let cfg = configuration(s, o);
    // at times more of them than anything kept for a few would have room for
    let many = s.chance(1, 80);
    if many {
        o.label("many-requests");
    }
    let plans: Vec<Plan> = (0..if many { s.range(5, 45) } else { s.range(2, 4) }).map(|i| plan(s, i)).collect();
    let mut alone = vec![];
    for (i, p) in plans.iter().enumerate() {
        let Some(vm) = Vm::new(&cfg) else { return fail("config-refused", format!("{cfg}")) };
        let mut g = Going::new(&vm, 20 + i as u32, p);
        while g.step()? {}
        alone.push(g.log);
    }
    let Some(vm) = Vm::new(&cfg) else { return fail("config-refused", format!("{cfg}")) };
    let mut all: Vec<Going> = vec![];
    let mut order = vec![];
    let mut next = 0;
    let mut live: Vec<usize> = vec![];
    let mut overlapped = false;
    while next < plans.len() || !live.is_empty() {
        let k = s.n(live.len() + usize::from(next < plans.len()));
        if k == live.len() {
            all.push(Going::new(&vm, 20 + next as u32, &plans[next]));
            live.push(next);
            next += 1;
            continue;
        }
        let i = live[k];
        order.push(i);
        overlapped |= all[i].at > 0 && live.iter().any(|j| *j != i && all[*j].at > 0);
        if !all[i].step()? {
            live.remove(k);
        }
    }
    let info = || format!("order {order:?}\nplans {plans:#?}\n{cfg}");
    for (i, g) in all.iter().enumerate() {
        o.checks += 1;
        if let Some(k) = (0..g.log.len().max(alone[i].len())).find(|k| g.log.get(*k) != alone[i].get(*k)) {
            return fail("differs", format!("request {i} alone: {:?}\nin company:      {:?}\n{}", alone[i].get(k), g.log.get(k), info()));
        }
        for (j, p) in plans.iter().enumerate() {
            if j != i {
                if let Some(l) = g.log.iter().find(|l| l.contains(&p.mark)) {
                    return fail("leak", format!("request {i} shows {} of request {j}: {l}\n{}", p.mark, info()));
                }
            }
        }
        if g.log.iter().any(|l| l.contains("call ")) {
            o.label("with-calls");
        }
        if g.log.iter().any(|l| l.contains("Reply(")) {
            o.label("with-reply");
        }
        if g.p.gone < 24 && g.at > g.p.gone {
            o.label("client-gone");
        }
    }
    ensure!(vm_quiet(), "residue", "{}", info());
    o.nontrivial = overlapped && all.iter().filter(|g| g.log.iter().any(|l| l.contains("call ") || l.contains("SetMap") || l.contains("SetProp"))).count() > 1;
    if overlapped {
        o.label("overlapping");
    }
    o.sample = Some(info());
    Ok(())
}
/// nothing happened outside of the requests
fn vm_quiet() -> bool {
    sim::with(|s| !s.events.iter().any(|e| e.0 == ROOT && matches!(e.1, Ev::Call(_) | Ev::Reply { .. })))
}

// ---------------------------------------------------------------- C27
/// The least severe lines shown at a host's level
fn shown(l: &Result<LogLevel, Status>) -> LogLevel {
    match l {
        Ok(LogLevel::Critical) => LogLevel::Error,
        Ok(l) => *l,
        Err(_) => LogLevel::Warn,
    }
}
fn host_level(s: &mut Src) -> Result<LogLevel, Status> {
    match s.below(7) {
        0 => Ok(LogLevel::Trace),
        1 => Ok(LogLevel::Debug),
        2 => Ok(LogLevel::Info),
        3 => Ok(LogLevel::Warn),
        4 => Ok(LogLevel::Error),
        5 => Ok(LogLevel::Critical),
        _ => Err(Status::InternalFailure),
    }
}
fn set_level(l: &Result<LogLevel, Status>) {
    sim::with(|s| {
        s.log_level = *l;
        s.logs.get_or_insert_with(Vec::new);
    });
}
#[derive(Debug)]
enum At {
    Level(Result<LogLevel, Status>),
    Open,
    Step(usize),
}
fn c27(s: &mut Src, o: &mut Obs) -> Res {
    let cfg = configuration(s, o);
    let plans: Vec<Plan> = (0..s.range(1, 3)).map(|i| plan(s, i)).collect();
    // how much of it is traced makes no difference either
    let mut traced = cfg.clone();
    let mut spans = false;
    if s.bool() {
        let l = *s.pick(&["TRACE", "DEBUG", "INFO", "WARN", "ERROR", "OFF", "", "verbose"]);
        traced["observability"]["defaultLevel"] = json!(l);
        // with an identifier besides, spans get exported
        if traced["observability"].get("httpHeaderIdentifier").is_none() && s.bool() {
            traced["services"]["tracer"] = json!({"type": "tracing", "endpoint": "tracing-cluster"});
            traced["observability"]["tracing"] = json!({"service": "tracer"});
            o.label("traced");
            spans = true;
        }
        o.label("trace-level");
    }
    // what they do and say when everything is logged
    let Some(vm) = Vm::new(&cfg) else { return fail("config-refused", format!("{cfg}")) };
    set_level(&Ok(LogLevel::Trace));
    let mut loud: Vec<Going> = vec![];
    let mut order = vec![];
    let mut live: Vec<usize> = vec![];
    while loud.len() < plans.len() || !live.is_empty() {
        // the host's level may change at any time
        if s.chance(1, 3) || loud.is_empty() {
            order.push(At::Level(host_level(s)));
        }
        let k = s.n(live.len() + usize::from(loud.len() < plans.len()));
        if k == live.len() {
            order.push(At::Open);
            live.push(loud.len());
            loud.push(Going { bare: true, ..Going::new(&vm, 20 + loud.len() as u32, &plans[loud.len()]) });
            sim::with(|s| s.take_logs());
            continue;
        }
        order.push(At::Step(live[k]));
        if !loud[live[k]].step()? {
            live.remove(k);
        }
    }
    let alone: Vec<_> = loud.into_iter().map(|g| (g.log, g.said)).collect();
    // the same under the levels of the host; the one a request finds when it starts holds until the next does
    let Some(vm) = Vm::new(&traced) else { return fail("config-refused", format!("{traced}")) };
    let mut all: Vec<Going> = vec![];
    let mut during: Vec<Vec<LogLevel>> = vec![vec![]; plans.len()];
    let mut level = LogLevel::Trace;
    for at in &order {
        sim::with(|s| s.take_logs());
        match at {
            At::Level(l) => set_level(l),
            At::Open => {
                level = shown(&sim::with(|s| s.log_level));
                all.push(Going { bare: true, ..Going::new(&vm, 20 + all.len() as u32, &plans[all.len()]) });
            }
            At::Step(i) => {
                if all[*i].step()? {
                    during[*i].push(level);
                }
            }
        }
    }
    let info = || format!("order {order:?}\nplans {plans:#?}\n{traced}");
    for (i, g) in all.iter().enumerate() {
        o.checks += 1;
        if let Some(k) = (0..g.log.len().max(alone[i].0.len())).find(|k| g.log.get(*k) != alone[i].0.get(*k)) {
            return fail("differs", format!("request {i} with everything logged: {:?}\nunder other levels:  {:?}\n{}", alone[i].0.get(k), g.log.get(k), info()));
        }
        for (k, (said, l)) in g.said.iter().zip(&during[i]).enumerate() {
            let full = &alone[i].1[k];
            // the order of some chatter differs from run to run; what is said at all, and what is wrong, does not.
            // Spans add remarks of their own (a full buffer is a warning), never errors
            let l = if spans { &LogLevel::Error } else { l };
            let said: Vec<_> = said.iter().filter(|x| !spans || x.0 as u32 >= LogLevel::Error as u32).collect();
            let sum = |lines: Vec<&(LogLevel, String)>| -> Vec<String> {
                let mut v: Vec<String> = lines
                    .iter()
                    .map(|x| if x.0 as u32 >= LogLevel::Warn as u32 { format!("{:?}: {}", x.0, x.1) } else { format!("{:?} lines", x.0) })
                    .collect();
                v.sort();
                let dup = |a: &mut String, b: &mut String| a == b && a.ends_with(" lines");
                v.dedup_by(|a, b| dup(a, b));
                v
            };
            let want = sum(full.iter().filter(|x| x.0 as u32 >= *l as u32).collect());
            let got = sum(said);
            let less = full.iter().any(|x| (x.0 as u32) < *l as u32);
            if less {
                o.label("lines-left-out");
            }
            if !want.is_empty() {
                o.label(match l {
                    LogLevel::Trace => "shown-at-trace",
                    LogLevel::Debug => "shown-at-debug",
                    LogLevel::Info => "shown-at-info",
                    LogLevel::Warn => "shown-at-warn",
                    _ => "shown-at-error",
                });
            }
            o.nontrivial |= less;
            ensure!(got == want, "logged", "step {k} of request {i} at level {l:?} logs {got:?}, expected {want:?}\n{}", info());
        }
    }
    o.sample = Some(info());
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C22",
        run: c22,
        quick: 20_000,
        thorough: 2_500_000,
        rule: "at least two requests with effects were in flight at the same time",
        assumptions: &["one callback at a time, as the host makes them", "tracing off (span identifiers differ from run to run); C23 looks at trace contexts of overlapping requests"],
    }, Check {
        id: "C27",
        run: c27,
        quick: 8_000,
        thorough: 2_000_000,
        rule: "some request said less than with everything logged",
        assumptions: &["one callback at a time, as the host makes them", "the host's level is read when a request starts and holds for all of them until the next one does"],
    }]
}

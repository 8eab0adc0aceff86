//! Reference model of the action pipeline (typed actions), generators for action sets, and the
//! lock-step comparison of model and real filter over an arbitrary schedule.
use crate::env::*;
use crate::fw::*;
use crate::wire::Msg;
use proxy_wasm::sim::{Ev, Prop, Stream};
use proxy_wasm::types::{LogLevel, Action, MapType, Status};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- configuration AST
#[derive(Clone, Debug, PartialEq)]
pub enum Pr {
    T,
    F,
    Hdr(String, String),
    HasHdr(String),
    Code(i64),
    RespHas(String),
    St(String, String),
    Reply(String, i64),
    RB(String, String),
    Err,
    NonBool,
    And(Box<Pr>, Box<Pr>),
    Or(Box<Pr>, Box<Pr>),
    Not(Box<Pr>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Sx {
    Lit(String),
    Hdr(String),
    St(String),
    Reply(String),
    RespHdr(String),
    RB(String),
    Cat(Box<Sx>, Box<Sx>),
    Err,
}
#[derive(Clone, Debug)]
pub struct Svc {
    pub name: String,
    pub endpoint: String,
    pub deny: bool,
    pub kind: &'static str,
    pub timeout_ms: u64,
}
#[derive(Clone, Debug)]
pub enum Op {
    Grpc { svc: usize, var: String, msg: Sx, on_reply: Vec<Act> },
    Deny { status: u64, headers: Vec<(String, Sx)>, body: Option<Sx> },
    Headers { request: bool, list: Vec<(String, Sx)> },
    Store { path: String, value: Sx, export: bool },
    /// with the number in its message; those of legacy actions choose their own words
    Fail(Option<usize>),
}
#[derive(Clone, Debug)]
pub struct Act {
    pub pred: Pr,
    pub terminal: bool,
    pub guard: bool,
    pub seq: bool,
    /// written in the scope/predicates form instead of as a typed action
    pub legacy: bool,
    pub op: Op,
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub svcs: Vec<Svc>,
    pub acts: Vec<Act>,
    pub ident: Option<String>,
    pub tracing: bool,
    pub level: Option<&'static str>,
}

impl Pr {
    pub fn cel(&self) -> String {
        match self {
            Pr::T => "true".into(),
            Pr::F => "false".into(),
            Pr::Hdr(n, v) => format!("request.headers['{n}'] == '{v}'"),
            Pr::HasHdr(n) => format!("'{n}' in request.headers"),
            Pr::Code(c) => format!("request.size == {c}"),
            Pr::RespHas(n) => format!("request.useragent == '{n}'"),
            Pr::St(p, v) => format!("{p} == '{v}'"),
            Pr::Reply(v, c) => format!("{v}.overall_code == {c}"),
            Pr::RB(p, v) => format!("responseBodyJSON('{p}') == '{v}'"),
            Pr::Err => "1 / 0 == 1".into(),
            Pr::NonBool => "'yes'".into(),
            Pr::And(a, b) => format!("({}) && ({})", a.cel(), b.cel()),
            Pr::Or(a, b) => format!("({}) || ({})", a.cel(), b.cel()),
            Pr::Not(a) => format!("!({})", a.cel()),
        }
    }
    fn resp_body(&self, out: &mut BTreeSet<String>) {
        match self {
            Pr::RB(p, _) => {
                out.insert(p.clone());
            }
            Pr::And(a, b) | Pr::Or(a, b) => {
                a.resp_body(out);
                b.resp_body(out);
            }
            Pr::Not(a) => a.resp_body(out),
            _ => {}
        }
    }
}
impl Sx {
    pub fn cel(&self) -> String {
        match self {
            Sx::Lit(s) => crate::gen::lit(s),
            Sx::Hdr(n) => format!("request.headers['{n}']"),
            Sx::St(p) => p.clone(),
            Sx::Reply(v) => format!("string({v}.overall_code)"),
            Sx::RespHdr(_) => "request.useragent".into(),
            Sx::RB(p) => format!("responseBodyJSON('{p}')"),
            Sx::Cat(a, b) => format!("{} + {}", a.cel(), b.cel()),
            Sx::Err => "string(1 / 0)".into(),
        }
    }
    fn resp_body(&self, out: &mut BTreeSet<String>) {
        match self {
            Sx::RB(p) => {
                out.insert(p.clone());
            }
            Sx::Cat(a, b) => {
                a.resp_body(out);
                b.resp_body(out);
            }
            _ => {}
        }
    }
}
fn pairs_cel(l: &[(String, Sx)]) -> String {
    format!("[{}]", l.iter().map(|(k, v)| format!("['{k}', {}]", v.cel())).collect::<Vec<_>>().join(", "))
}
impl Act {
    pub fn json(&self, svcs: &[Svc], top: bool) -> J {
        if self.legacy {
            let Op::Grpc { svc, msg: Sx::Lit(scope), .. } = &self.op else { unreachable!() };
            let mut o = json!({"service": svcs[*svc].name, "scope": scope});
            match &self.pred {
                Pr::T => {}
                Pr::And(a, b) => o["predicates"] = json!([a.cel(), b.cel()]),
                p => o["predicates"] = json!([p.cel()]),
            }
            return o;
        }
        let mut o = json!({"predicate": self.pred.cel(), "terminal": self.terminal});
        if !self.guard {
            o["isGuard"] = json!(false);
        }
        if top && self.seq {
            o["execution"] = json!("sequential");
        }
        match &self.op {
            Op::Grpc { svc, var, msg, on_reply } => {
                o["type"] = json!("grpc");
                o["var"] = json!(var);
                o["service"] = json!(svcs[*svc].name);
                o["messageBuilder"] = json!(format!("envoy.service.ratelimit.v3.RateLimitRequest {{ domain: {} }}", msg.cel()));
                if !on_reply.is_empty() {
                    o["onReply"] = J::Array(on_reply.iter().map(|a| a.json(svcs, false)).collect());
                }
            }
            Op::Deny { status, headers, body } => {
                o["type"] = json!("deny");
                let mut f = vec![format!("status: {status}u")];
                if !headers.is_empty() {
                    f.push(format!("headers: {}", pairs_cel(headers)));
                }
                if let Some(b) = body {
                    f.push(format!("body: {}", b.cel()));
                }
                o["denyWith"] = json!(format!("DenyResponse {{ {} }}", f.join(", ")));
            }
            Op::Headers { request, list } => {
                o["type"] = json!("headers");
                o["target"] = json!(if *request { "request" } else { "response" });
                o["headers"] = json!(pairs_cel(list));
            }
            Op::Store { path, value, export } => {
                o["type"] = json!("store");
                o["path"] = json!(path);
                o["value"] = json!(value.cel());
                if *export {
                    o["exportToHost"] = json!(true);
                }
            }
            Op::Fail(n) => {
                o["type"] = json!("fail");
                o["logMessage"] = json!(format!("planned failure #{}.", n.unwrap_or_default()));
            }
        }
        o
    }
    fn resp_body(&self, out: &mut BTreeSet<String>) {
        self.pred.resp_body(out);
        match &self.op {
            Op::Grpc { msg, on_reply, .. } => {
                msg.resp_body(out);
                on_reply.iter().for_each(|a| a.resp_body(out));
            }
            Op::Deny { headers, body, .. } => {
                headers.iter().for_each(|h| h.1.resp_body(out));
                body.iter().for_each(|b| b.resp_body(out));
            }
            Op::Headers { list, .. } => list.iter().for_each(|h| h.1.resp_body(out)),
            Op::Store { value, .. } => value.resp_body(out),
            Op::Fail(_) => {}
        }
    }
}
impl Svc {
    pub fn json(&self) -> J {
        json!({"type": self.kind, "endpoint": self.endpoint, "failureMode": if self.deny { "deny" } else { "allow" }, "timeout": format!("{}ms", self.timeout_ms)})
    }
}
impl Spec {
    pub fn json(&self) -> J {
        let mut services = serde_json::Map::new();
        for s in &self.svcs {
            services.insert(s.name.clone(), s.json());
        }
        let mut o = json!({
            "actionSets": [{
                "name": "set",
                "routeRuleConditions": {"hostnames": ["*.example.com"]},
                "actions": self.acts.iter().map(|a| a.json(&self.svcs, true)).collect::<Vec<_>>(),
            }],
        });
        let mut obs = serde_json::Map::new();
        if let Some(i) = &self.ident {
            obs.insert("httpHeaderIdentifier".into(), json!(i));
        }
        if self.tracing {
            services.insert("tracer".into(), json!({"type": "tracing", "endpoint": "tracing-cluster", "failureMode": "allow"}));
            obs.insert("tracing".into(), json!({"service": "tracer"}));
        }
        if let Some(l) = self.level {
            obs.insert("defaultLevel".into(), json!(l));
        }
        if !obs.is_empty() {
            o["observability"] = J::Object(obs);
        }
        o["services"] = J::Object(services);
        o
    }
}

// ---------------------------------------------------------------- model
#[derive(Clone, Debug, PartialEq)]
enum E<T> {
    Val(T),
    Pend,
    Err,
}
#[derive(Clone, Debug)]
enum Node {
    Act(Act),
    TokenUsage(BTreeSet<String>),
    Ident(String),
}
#[derive(Clone, Debug)]
struct Task {
    id: String,
    deps: Vec<String>,
    node: Node,
    /// failure mode of the top-level gRPC action it belongs to
    mode: Option<bool>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Dispatch {
    pub upstream: String,
    pub method: String,
    pub domain: String,
    pub refused: bool,
    pub guard: bool,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Effects {
    pub calls: Vec<Dispatch>,
    pub replies: Vec<(u32, Vec<(String, String)>, Option<Vec<u8>>)>,
    pub req_headers: Option<Vec<(String, String)>>,
    pub resp_headers: Option<Vec<(String, String)>>,
    pub exports: Vec<(String, Vec<u8>)>,
    /// the messages of `fail` actions
    pub logs: Vec<String>,
    pub hits: i64,
    pub misses: i64,
    pub errors: i64,
    pub denied: i64,
    pub allowed: i64,
}
#[derive(Clone, Debug)]
struct Pending {
    task: Option<Task>,
    guard: bool,
}
pub struct Model {
    queue: Vec<Task>,
    deferred: BTreeMap<usize, Pending>,
    completed: BTreeSet<String>,
    pub terminated: bool,
    svcs: Vec<Svc>,
    refuse: BTreeSet<String>,
    next_call: usize,
    pub started: bool,
    unroutable: bool,
    pub replied: usize,
    // request state
    req_headers: Vec<(String, String)>,
    resp_headers: Option<Vec<(String, String)>>,
    resp_code: Option<i64>,
    stored: BTreeMap<String, String>,
    bindings: Vec<(String, String, i64)>,
    rb_values: BTreeMap<String, J>,
    resp_eos: bool,
    body: Vec<u8>,
    ident: Option<String>,
    reqid: String,
    pub fx: Effects,
    pub labels: BTreeSet<&'static str>,
    pub unspecified: std::cell::Cell<bool>,
}
enum Out {
    Done,
    Deferred,
    Requeue(Task),
    Failed,
    Terminate(Option<(u32, Vec<(String, String)>, Option<Vec<u8>>)>),
}
pub const ISE: &str = "Internal Server Error.\n";

impl Model {
    pub fn new(spec: &Spec, stream: &Stream, refuse: &BTreeSet<String>) -> Model {
        let mut queue = vec![];
        let mut fence: Vec<String> = vec![];
        let mut pending: Vec<String> = vec![];
        for (i, a) in spec.acts.iter().enumerate() {
            let id = i.to_string();
            let deps = if a.legacy {
                pending.push(id.clone());
                if i > 0 { vec![(i - 1).to_string()] } else { vec![] }
            } else if a.seq {
                let d = fence.iter().chain(&pending).cloned().collect();
                fence = vec![id.clone()];
                pending = vec![];
                d
            } else {
                pending.push(id.clone());
                fence.clone()
            };
            let mut mode = None;
            if let Op::Grpc { svc, .. } = &a.op {
                mode = Some(spec.svcs[*svc].deny);
            }
            // a store action reads the body itself
            if !matches!(a.op, Op::Store { .. }) {
                let mut f = BTreeSet::new();
                a.resp_body(&mut f);
                if !f.is_empty() {
                    queue.push(Task { id: "token_usage".into(), deps: vec![], node: Node::TokenUsage(f), mode: None });
                }
            }
            queue.push(Task { id, deps, node: Node::Act(a.clone()), mode });
        }
        if let Some(i) = &spec.ident {
            queue.push(Task { id: "ident".into(), deps: vec![], node: Node::Ident(i.clone()), mode: None });
        }
        let started = !queue.is_empty();
        Model {
            queue,
            deferred: BTreeMap::new(),
            completed: BTreeSet::new(),
            terminated: false,
            svcs: spec.svcs.clone(),
            refuse: refuse.clone(),
            next_call: 0,
            started,
            unroutable: false,
            replied: 0,
            req_headers: stream.req_headers.clone(),
            resp_headers: None,
            resp_code: None,
            stored: BTreeMap::new(),
            bindings: vec![],
            rb_values: BTreeMap::new(),
            resp_eos: false,
            body: vec![],
            ident: spec.ident.clone(),
            reqid: stream.req_headers.iter().find(|h| h.0 == "x-request-id").map(|h| h.1.clone()).unwrap_or_default(),
            fx: Effects::default(),
            labels: BTreeSet::new(),
            unspecified: std::cell::Cell::new(false),
        }
    }
    fn nothing_to_do(&mut self) {
        self.queue.clear();
        self.started = false;
    }
    /// No action set can be selected for it.
    fn unroutable(&mut self) {
        self.nothing_to_do();
        self.unroutable = true;
    }
    pub fn guards(&self) -> usize {
        self.deferred.values().filter(|p| p.guard).count()
    }
    pub fn outstanding(&self) -> usize {
        self.deferred.len()
    }
    fn reserved(&self, path: &str) -> bool {
        fn has(a: &Act, path: &str) -> bool {
            match &a.op {
                Op::Store { path: p, .. } => p == path,
                Op::Grpc { on_reply, .. } => on_reply.iter().any(|c| has(c, path)),
                _ => false,
            }
        }
        self.queue
            .iter()
            .chain(self.deferred.values().filter_map(|p| p.task.as_ref()))
            .any(|t| matches!(&t.node, Node::Act(a) if has(a, path)))
    }
    fn st(&self, p: &str, own: Option<&Act>) -> E<String> {
        if let Some(v) = self.stored.get(p) {
            return E::Val(v.clone());
        }
        fn has(a: &Act, path: &str) -> bool {
            match &a.op {
                Op::Store { path: p, .. } => p == path,
                Op::Grpc { on_reply, .. } => on_reply.iter().any(|c| has(c, path)),
                _ => false,
            }
        }
        if self.reserved(p) || own.is_some_and(|a| has(a, p)) {
            return E::Pend;
        }
        // what a value beside others is before it is stored is not specified
        let root = format!("{}.", p.split('.').next().unwrap_or(p));
        if self.stored.keys().any(|k| k.starts_with(&root)) || STP.iter().any(|q| q.starts_with(&root) && (self.reserved(q) || own.is_some_and(|a| has(a, q)))) {
            self.unspecified.set(true);
        }
        E::Err
    }
    fn binding(&self, id: &str, var: &str) -> Option<i64> {
        self.bindings
            .iter()
            .rev()
            .find(|(s, v, _)| v == var && (id == s || id.starts_with(&format!("{s}."))))
            .map(|b| b.2)
    }
    fn pred(&self, p: &Pr, id: &str, own: &Act) -> E<bool> {
        match p {
            Pr::T => E::Val(true),
            Pr::F => E::Val(false),
            Pr::Hdr(n, v) => match self.req_headers.iter().find(|h| h.0 == *n) {
                Some(h) => E::Val(h.1 == *v),
                None => E::Err,
            },
            Pr::HasHdr(n) => E::Val(self.req_headers.iter().any(|h| h.0 == *n)),
            Pr::Code(c) => match self.resp_code {
                None => E::Pend,
                Some(x) => E::Val(x == *c),
            },
            Pr::RespHas(n) => match &self.resp_headers {
                None => E::Pend,
                Some(_) => E::Val(n == "x-up"),
            },
            Pr::St(p, v) => match self.st(p, Some(own)) {
                E::Val(x) => E::Val(x == *v),
                E::Pend => E::Pend,
                E::Err => E::Err,
            },
            Pr::Reply(v, c) => match self.binding(id, v) {
                Some(x) => E::Val(x == *c),
                None => E::Err,
            },
            Pr::RB(p, v) => match self.rb_values.get(p) {
                None => E::Pend,
                Some(J::String(s)) => E::Val(s == v),
                Some(_) => E::Val(false),
            },
            Pr::Err | Pr::NonBool => E::Err,
            Pr::And(a, b) => match (self.pred(a, id, own), self.pred(b, id, own)) {
                (E::Pend, _) | (_, E::Pend) => E::Pend,
                (E::Val(x), E::Val(y)) => E::Val(x && y),
                _ => E::Err,
            },
            Pr::Or(a, b) => match (self.pred(a, id, own), self.pred(b, id, own)) {
                (E::Pend, _) | (_, E::Pend) => E::Pend,
                (E::Val(x), E::Val(y)) => E::Val(x || y),
                _ => E::Err,
            },
            Pr::Not(a) => match self.pred(a, id, own) {
                E::Val(x) => E::Val(!x),
                o => o,
            },
        }
    }
    fn sx(&self, s: &Sx, id: &str, own: &Act) -> E<String> {
        match s {
            Sx::Lit(s) => E::Val(s.clone()),
            Sx::Hdr(n) => self.req_headers.iter().find(|h| h.0 == *n).map_or(E::Err, |h| E::Val(h.1.clone())),
            Sx::St(p) => self.st(p, Some(own)),
            Sx::Reply(v) => self.binding(id, v).map_or(E::Err, |c| E::Val(c.to_string())),
            Sx::RespHdr(_) => match &self.resp_headers {
                None => E::Pend,
                Some(_) => E::Val("x-up".into()),
            },
            Sx::RB(p) => match self.rb_values.get(p) {
                None => E::Pend,
                Some(J::String(s)) => E::Val(s.clone()),
                Some(_) => E::Err,
            },
            Sx::Cat(a, b) => match (self.sx(a, id, own), self.sx(b, id, own)) {
                (E::Pend, _) | (_, E::Pend) => E::Pend,
                (E::Val(x), E::Val(y)) => E::Val(x + &y),
                _ => E::Err,
            },
            Sx::Err => E::Err,
        }
    }
    fn list(&self, l: &[(String, Sx)], id: &str, own: &Act) -> E<Vec<(String, String)>> {
        // a pair that is not two strings is passed over
        let odd = |s: &Sx| matches!(s, Sx::RB(p) if self.rb_values.get(p).is_some_and(|v| !v.is_string()));
        let vals: Vec<_> = l.iter().filter(|(_, s)| !odd(s)).map(|(k, s)| (k.clone(), self.sx(s, id, own))).collect();
        if vals.iter().any(|v| v.1 == E::Pend) {
            return E::Pend;
        }
        let mut out = vec![];
        for (k, v) in vals {
            match v {
                E::Val(v) => out.push((k, v)),
                _ => return E::Err,
            }
        }
        E::Val(out)
    }
    fn set(headers: &mut Vec<(String, String)>, list: &[(String, String)]) {
        for (k, v) in list {
            headers.retain(|h| h.0 != *k);
            headers.push((k.clone(), v.clone()));
        }
    }
    fn ise(&self) -> (u32, Vec<(String, String)>, Option<Vec<u8>>) {
        (500, self.tag(vec![]), Some(ISE.as_bytes().to_vec()))
    }
    fn tag(&self, mut h: Vec<(String, String)>) -> Vec<(String, String)> {
        if let Some(i) = &self.ident {
            h.push((i.clone(), self.reqid.clone()));
        }
        h
    }
    fn apply(&mut self, t: Task) -> Out {
        let a = match &t.node {
            Node::Ident(name) => {
                let Some(h) = &mut self.resp_headers else { return Out::Requeue(t) };
                Self::set(h, &[(name.clone(), self.reqid.clone())]);
                self.fx.resp_headers = Some(h.clone());
                return Out::Done;
            }
            Node::TokenUsage(_) => {
                if self.resp_headers.is_none() || !self.resp_eos {
                    return Out::Requeue(t);
                }
                return Out::Done;
            }
            Node::Act(a) => a.clone(),
        };
        let deps_dead = |f: &dyn Fn(&mut BTreeSet<String>)| -> bool {
            let mut s = BTreeSet::new();
            f(&mut s);
            self.resp_eos && s.iter().any(|f| !self.rb_values.contains_key(f))
        };
        let pred = self.pred(&a.pred, &t.id, &a);
        match pred {
            E::Val(true) => {}
            E::Val(false) => return Out::Done,
            E::Err => return Out::Failed,
            E::Pend => {
                self.labels.insert("waited");
                if !matches!(a.op, Op::Store { .. }) && deps_dead(&|s| a.pred.resp_body(s)) {
                    return Out::Failed;
                }
                return Out::Requeue(t);
            }
        }
        match &a.op {
            Op::Grpc { svc, msg, .. } => {
                let domain = match self.sx(msg, &t.id, &a) {
                    E::Val(d) => d,
                    E::Err => return Out::Failed,
                    E::Pend => {
                        self.labels.insert("waited");
                        return if deps_dead(&|s| msg.resp_body(s)) { Out::Failed } else { Out::Requeue(t) };
                    }
                };
                let s = &self.svcs[*svc];
                let refused = self.refuse.contains(&s.endpoint);
                self.fx.calls.push(Dispatch {
                    upstream: s.endpoint.clone(),
                    method: match s.kind {
                        "ratelimit" => "ShouldRateLimit",
                        "ratelimit-check" => "CheckRateLimit",
                        _ => "Report",
                    }
                    .into(),
                    domain,
                    refused,
                    guard: a.guard,
                });
                if refused {
                    return Out::Failed;
                }
                let n = self.next_call;
                self.next_call += 1;
                let guard = a.guard;
                self.deferred.insert(n, Pending { task: Some(t), guard });
                Out::Deferred
            }
            Op::Deny { status, headers, body } => {
                let h = self.list(headers, &t.id, &a);
                // what is no status number is answered as if none was given
                let status = u32::try_from(*status).unwrap_or(500);
                // a body that is not a string is left out
                let odd = |s: &&Sx| !matches!(s, Sx::RB(p) if self.rb_values.get(p).is_some_and(|v| !v.is_string()));
                let b = body.as_ref().filter(odd).map(|b| self.sx(b, &t.id, &a));
                match (h, b) {
                    (E::Pend, _) | (_, Some(E::Pend)) => {
                        self.labels.insert("waited");
                        let needs = |s: &mut BTreeSet<String>| headers.iter().map(|h| &h.1).chain(body).for_each(|x| x.resp_body(s));
                        if deps_dead(&needs) { Out::Failed } else { Out::Requeue(t) }
                    }
                    (E::Val(h), None) => Out::Terminate(Some((status, self.tag(h), None))),
                    (E::Val(h), Some(E::Val(b))) => Out::Terminate(Some((status, self.tag(h), if b.is_empty() { None } else { Some(b.into_bytes()) }))),
                    _ => Out::Failed,
                }
            }
            Op::Headers { request, list } => {
                let l = match self.list(list, &t.id, &a) {
                    E::Val(l) => l,
                    E::Pend => {
                        self.labels.insert("waited");
                        return if deps_dead(&|s| list.iter().for_each(|h| h.1.resp_body(s))) { Out::Failed } else { Out::Requeue(t) };
                    }
                    E::Err => return Out::Failed,
                };
                if l.is_empty() {
                    return Out::Done;
                }
                if !*request && self.resp_headers.is_none() {
                    self.labels.insert("waited");
                    return Out::Requeue(t);
                }
                if l.iter().any(|h| h.0 == REFUSED_HDR) {
                    self.labels.insert("change-refused");
                    return Out::Failed;
                }
                if *request {
                    Self::set(&mut self.req_headers, &l);
                    self.fx.req_headers = Some(self.req_headers.clone());
                } else if let Some(h) = &mut self.resp_headers {
                    Self::set(h, &l);
                    self.fx.resp_headers = Some(h.clone());
                }
                Out::Done
            }
            Op::Store { path, value, export } => {
                let v = match self.sx(value, &t.id, &a) {
                    E::Val(v) => v,
                    E::Pend => return Out::Requeue(t),
                    E::Err => return Out::Failed,
                };
                if *export && path == REFUSED_PATH {
                    self.labels.insert("change-refused");
                    return Out::Failed;
                }
                if *export {
                    self.fx.exports.push((path.clone(), Msg::new().s(3, &v).encode()));
                }
                self.stored.insert(path.clone(), v);
                Out::Done
            }
            Op::Fail(n) => {
                self.fx.logs.extend(n.map(|n| format!("planned failure #{n}.")));
                if a.terminal {
                    self.fx.errors += 1;
                    let r = self.ise();
                    Out::Terminate(Some(r))
                } else {
                    Out::Done
                }
            }
        }
    }
    /// failure mode of the owning gRPC action
    fn settle(&mut self, mode: Option<bool>, o: Out) -> Out {
        match (mode, o) {
            (Some(deny), Out::Failed) => {
                self.fx.errors += 1;
                self.labels.insert(if deny { "failed-deny" } else { "failed-allow" });
                if deny {
                    let r = self.ise();
                    Out::Terminate(Some(r))
                } else {
                    Out::Done
                }
            }
            (None, Out::Failed) => {
                self.labels.insert("failed-plain");
                Out::Failed
            }
            (_, o) => o,
        }
    }
    fn terminate(&mut self, reply: Option<(u32, Vec<(String, String)>, Option<Vec<u8>>)>) {
        if let Some(r) = reply {
            self.fx.denied += 1;
            self.fx.replies.push(r);
        }
        self.queue.clear();
        self.terminated = true;
        self.labels.insert("terminated");
        for p in self.deferred.values_mut() {
            p.task = None;
        }
        if !self.deferred.is_empty() {
            self.labels.insert("terminated-with-calls-outstanding");
        }
    }
    /// What reads the body comes before what uses it.
    fn observe(&mut self) {
        if self.resp_headers.is_none() || !self.resp_eos {
            return;
        }
        let Ok(v) = serde_json::from_slice::<J>(&self.body) else { return };
        for t in &self.queue {
            let Node::TokenUsage(f) = &t.node else { continue };
            for p in f {
                if let Some(x) = v.pointer(p) {
                    if !(x.is_null() || x.is_array() || x.is_object()) {
                        self.rb_values.insert(p.clone(), x.clone());
                    }
                }
            }
        }
    }
    fn eval(&mut self) {
        self.observe();
        let todo: Vec<Task> = std::mem::take(&mut self.queue);
        let mut rest: std::collections::VecDeque<Task> = todo.into();
        let mut kept: Vec<Task> = vec![];
        while let Some(t) = rest.pop_front() {
            if t.deps.iter().any(|d| !self.completed.contains(d)) {
                self.labels.insert("blocked-by-dependency");
                kept.push(t);
                continue;
            }
            // everything not being applied stays visible (reserved paths)
            self.queue = kept.iter().chain(rest.iter()).cloned().collect();
            let id = t.id.clone();
            let mode = t.mode;
            let o = self.apply(t);
            let o = self.settle(mode, o);
            match o {
                Out::Done | Out::Failed => {
                    self.completed.insert(id);
                }
                Out::Deferred => {}
                Out::Requeue(t) => kept.push(t),
                Out::Terminate(r) => {
                    self.terminate(r);
                    return;
                }
            }
        }
        self.queue = kept;
    }
    pub fn request_headers(&mut self) {
        if self.started {
            self.fx.hits += 1;
            self.eval();
        } else if self.unroutable {
            self.fx.errors += 1;
            self.fx.replies.push((500, vec![], Some(ISE.into())));
            self.terminated = true;
            self.labels.insert("unroutable");
        } else {
            self.fx.misses += 1;
        }
    }
    pub fn request_body(&mut self) {
        self.eval();
    }
    pub fn response_headers(&mut self, code: i64, headers: Vec<(String, String)>) {
        if !self.terminated {
            self.fx.allowed += 1;
        }
        self.resp_code = Some(code);
        self.resp_headers = Some(headers);
        self.eval();
    }
    pub fn response_body(&mut self, chunk: &[u8], eos: bool) {
        self.body.extend_from_slice(chunk);
        self.resp_eos |= eos;
        self.eval();
    }
    pub fn answer(&mut self, call: usize, ans: &Ans) {
        let p = self.deferred.remove(&call).expect("model call");
        if let Some(t) = p.task {
            let id = t.id.clone();
            let mode = t.mode;
            let Node::Act(Act { op: Op::Grpc { on_reply, var, .. }, .. }) = &t.node else { unreachable!() };
            let o = match ans {
                Ans::Status(_) => Out::Failed,
                _ if on_reply.is_empty() => Out::Done,
                Ans::Garbage | Ans::NoBody => Out::Failed,
                Ans::Code(c) => {
                    self.bindings.push((id.clone(), var.clone(), *c));
                    self.labels.insert("reply-actions");
                    let kids: Vec<Task> = on_reply
                        .iter()
                        .enumerate()
                        .map(|(i, a)| Task { id: format!("{id}.{i}"), deps: vec![], node: Node::Act(a.clone()), mode })
                        .collect();
                    self.completed.insert(id.clone());
                    for k in kids.into_iter().rev() {
                        self.queue.insert(0, k);
                    }
                    self.eval();
                    return;
                }
            };
            match self.settle(mode, o) {
                Out::Done | Out::Failed => {
                    self.completed.insert(id);
                }
                Out::Terminate(r) => {
                    self.terminate(r);
                    return;
                }
                _ => {}
            }
        } else {
            self.labels.insert("answer-after-termination");
        }
        self.eval();
    }
}

// ---------------------------------------------------------------- answers
#[derive(Clone, Debug)]
pub enum Ans {
    Code(i64),
    Status(u32),
    Garbage,
    NoBody,
}
impl Ans {
    pub fn give(&self, r: &mut Req, token: u32) -> Step {
        match self {
            Ans::Code(c) => r.ok(token, Msg::new().v(1, *c as u64).encode()),
            Ans::Status(s) => r.answer(token, *s, Ok(None)),
            Ans::Garbage => r.ok(token, vec![0x0a, 0x7f, 0x01]),
            Ans::NoBody => r.answer(token, 0, Err(Status::InternalFailure)),
        }
    }
}

/// A gRPC status other than OK, now and then one gRPC does not define
pub fn any_status(s: &mut Src) -> u32 {
    match s.below(4) {
        0 => s.range(1, 16) as u32,
        1 => *s.pick(&[17, 99, 256, 65536, u32::MAX]),
        _ => *s.pick(&[14, 4, 13, 2]),
    }
}

// ---------------------------------------------------------------- generation
pub struct Profile {
    pub max_actions: usize,
    pub nested: usize,
    pub err: u64,      // weight of erroring expressions
    pub pend: u64,     // weight of expressions that wait for the response
    pub refuse: u64,   // percent chance that an upstream refuses calls
    pub bad_ans: u64,  // weight of failing answers
    pub seq: u64,      // percent
    pub nonguard: u64, // percent
    pub deny: u64,     // weight of deny/fail actions
    pub ident: u64,    // percent
    pub tracing: u64,  // percent
    pub plain_fail: bool,
    pub early_response: bool,
    pub legacy: u64, // percent
    pub miss: u64,   // percent of requests for a host that is not configured
}
impl Default for Profile {
    fn default() -> Self {
        Profile {
            max_actions: 5,
            nested: 2,
            err: 1,
            pend: 2,
            refuse: 8,
            bad_ans: 2,
            seq: 30,
            nonguard: 30,
            deny: 2,
            ident: 10,
            tracing: 15,
            plain_fail: true,
            early_response: true,
            legacy: 10,
            miss: 0,
        }
    }
}
const HN: &[&str] = &["x-a", "x-b", "x-c"];
const HV: &[&str] = &["v0", "v1", "v2"];
const STP: &[&str] = &["k0.v", "k0.w", "k1.v", "k2.longer_than_the_others.v"];
const STP_READ: &[&str] = &["k0.v", "k0.w", "k1.v", "k3.v", "k2.longer_than_the_others.v"];
/// what the host does not let the filter change
pub const REFUSED_HDR: &str = "x-refused";
pub const REFUSED_PATH: &str = "k3.v";
const BODY_PTR: &[&str] = &["/m", "/usage/t", "/list/1", "/nope"];

pub struct Gen<'a> {
    pub p: &'a Profile,
    pub svcs: Vec<Svc>,
    vars: usize,
    lits: usize,
    long: bool,
}
impl<'a> Gen<'a> {
    fn hdr(&self, s: &mut Src) -> String {
        s.pick(HN).to_string()
    }
    fn atom(&mut self, s: &mut Src, vars: &[String], safe: bool) -> Pr {
        let mut c: Vec<(u32, u8)> = vec![(16, 0), (2, 1), (2, 2)];
        if !safe {
            c.push((2, 3));
            c.push((2, 6));
            if self.p.err > 0 {
                c.push((self.p.err as u32, 7));
                if self.vars > 0 {
                    c.push((if self.long { 12 } else { 1 }, 10));
                }
            }
        }
        if self.p.pend > 0 {
            c.push((self.p.pend as u32, 4));
            c.push((1, 8));
            if !safe {
                c.push((self.p.pend as u32, 9));
            }
        }
        if !vars.is_empty() {
            c.push((6, 5));
        }
        match s.pickw(&c) {
            0 => Pr::T,
            1 => Pr::F,
            2 => Pr::HasHdr(self.hdr(s)),
            3 => Pr::Hdr(self.hdr(s), s.pick(HV).to_string()),
            4 => Pr::Code(*s.pick(&[200, 404])),
            5 => Pr::Reply(s.pick(vars).clone(), s.range(1, 2) as i64),
            6 => Pr::St(s.pick(STP_READ).to_string(), s.pick(HV).to_string()),
            7 => {
                if s.bool() {
                    Pr::Err
                } else {
                    Pr::NonBool
                }
            }
            // of any call, most of which are none of this action's concern
            10 => Pr::Reply(format!("r{}", s.range(1, self.vars)), s.range(1, 2) as i64),
            8 => Pr::RespHas(s.pick(&["x-up", "content-type", "x-no"]).to_string()),
            _ => Pr::RB(s.pick(BODY_PTR).to_string(), s.pick(&["hi", "7"]).to_string()),
        }
    }
    fn pred(&mut self, s: &mut Src, vars: &[String], body_ok: bool) -> Pr {
        let p = match s.below(8) {
            0 => {
                let (a, b) = (Box::new(self.atom(s, vars, true)), Box::new(self.atom(s, vars, true)));
                if s.bool() { Pr::Or(a, b) } else { Pr::And(a, b) }
            }
            1 => Pr::Not(Box::new(self.atom(s, vars, true))),
            _ => self.atom(s, vars, false),
        };
        let mut b = BTreeSet::new();
        p.resp_body(&mut b);
        if !b.is_empty() && !body_ok {
            return Pr::T;
        }
        p
    }
    fn lit(&mut self) -> Sx {
        self.lits += 1;
        Sx::Lit(format!("d{}", self.lits))
    }
    fn sx(&mut self, s: &mut Src, vars: &[String], body_ok: bool) -> Sx {
        if s.chance(1, 10) {
            let mut one = |s: &mut Src| if s.bool() { Sx::St(s.pick(STP).to_string()) } else { self.sx1(s, vars, body_ok) };
            return Sx::Cat(Box::new(one(s)), Box::new(one(s)));
        }
        self.sx1(s, vars, body_ok)
    }
    fn sx1(&mut self, s: &mut Src, vars: &[String], body_ok: bool) -> Sx {
        let mut c: Vec<(u32, u8)> = vec![(8, 0), (2, 1), (2, 2)];
        if self.p.pend > 0 {
            c.push((1, 3));
            if body_ok {
                c.push((1, 4));
            }
        }
        if self.p.err > 0 {
            c.push((self.p.err as u32, 5));
        }
        if !vars.is_empty() {
            c.push((2, 6));
        }
        match s.pickw(&c) {
            0 => self.lit(),
            1 => Sx::Hdr(self.hdr(s)),
            2 => Sx::St(s.pick(STP_READ).to_string()),
            3 => Sx::RespHdr(s.pick(&["x-up", "content-type"]).to_string()),
            4 => Sx::RB(s.pick(BODY_PTR).to_string()),
            5 => Sx::Err,
            _ => Sx::Reply(s.pick(vars).clone()),
        }
    }
    /// an expression of a denial, mostly one that is settled by the time it is needed
    fn settled(&mut self, s: &mut Src, vars: &[String]) -> Sx {
        if s.chance(1, 5) {
            return self.sx(s, vars, true);
        }
        match s.below(4) {
            0 if self.p.err > 0 => Sx::Hdr(self.hdr(s)),
            1 if !vars.is_empty() => Sx::Reply(s.pick(vars).clone()),
            _ => self.lit(),
        }
    }
    fn legacy(&mut self, s: &mut Src) -> Act {
        let svc = s.n(self.svcs.len());
        let pred = self.pred(s, &[], true);
        let report = self.svcs[svc].kind == "ratelimit-report";
        let v = if report { "report_response" } else { "ratelimit_response" }.to_string();
        let act = |pred: Pr, terminal: bool, op: Op| Act { pred, terminal, guard: true, seq: false, legacy: false, op };
        let on_reply = if report {
            vec![act(Pr::F, false, Op::Fail(None))]
        } else {
            vec![
                act(Pr::Reply(v.clone(), 2), true, Op::Deny { status: 429, headers: vec![], body: Some(Sx::Lit("Too Many Requests\n".into())) }),
                act(Pr::Reply(v.clone(), 1), false, Op::Headers { request: false, list: vec![] }),
                act(Pr::Not(Box::new(Pr::Or(Box::new(Pr::Reply(v.clone(), 1)), Box::new(Pr::Reply(v.clone(), 2))))), true, Op::Fail(None)),
            ]
        };
        Act { pred, terminal: false, guard: !report, seq: false, legacy: true, op: Op::Grpc { svc, var: v, msg: self.lit(), on_reply } }
    }
    pub fn act(&mut self, s: &mut Src, depth: usize, vars: &[String]) -> Act {
        let reply = depth > 0;
        if !reply && s.chance(self.p.legacy, 100) {
            return self.legacy(s);
        }
        let w: Vec<(u32, u8)> = vec![
            (if reply { if depth <= self.p.nested { 2 } else { 0 } } else { 7 }, 0),
            (self.p.deny as u32, 1),
            (2, 2),
            (2, 3),
            (if self.p.deny > 0 { 1 } else { 0 }, 4),
        ];
        let k = *s.pickw(&w);
        let seq = !reply && s.chance(self.p.seq, 100);
        let guard = !(k == 0 && s.chance(self.p.nonguard, 100));
        let pred = self.pred(s, vars, k != 3);
        let mut a = Act { pred, terminal: false, guard, seq, legacy: false, op: Op::Fail(None) };
        match k {
            0 => {
                self.vars += 1;
                let mut var = format!("r{}", self.vars);
                if self.vars > 1 && s.chance(1, 8) {
                    var = format!("r{}", s.range(1, self.vars - 1));
                }
                let msg = self.sx(s, vars, true);
                let n = s.pickw(&[(3u32, 0usize), (3, 1), (2, 2), (1, 3)]).to_owned();
                let mut vs = vars.to_vec();
                vs.push(var.clone());
                let on_reply = (0..n).map(|_| self.act(s, depth + 1, &vs)).collect();
                a.op = Op::Grpc { svc: s.n(self.svcs.len()), var, msg, on_reply };
            }
            1 => {
                a.terminal = true;
                let n = s.n(3);
                let headers = (0..n).map(|i| (format!("x-deny-{i}"), self.settled(s, vars))).collect();
                let body = if s.chance(1, 12) { Some(Sx::Lit(s.pick(&["", " ", "\n", "\t \r\n"]).to_string())) } else if s.bool() { Some(self.settled(s, vars)) } else { None };
                let status = if s.chance(1, 20) { (1 << 32) + 200 } else { *s.pick(&[403, 429, 401, 302, 503, 200, 418, 599]) };
                a.op = Op::Deny { status, headers, body };
            }
            2 => {
                let n = s.range(1, 2);
                let request = s.bool();
                let mut list: Vec<(String, Sx)> = (0..n).map(|i| (if s.bool() { s.pick(HN).to_string() } else { format!("x-new-{i}") }, self.sx(s, vars, true))).collect();
                if self.p.err > 0 && s.chance(1, 8) {
                    let i = s.n(list.len());
                    list[i].0 = REFUSED_HDR.into();
                }
                a.op = Op::Headers { request, list };
            }
            3 => {
                let export = s.chance(1, 3);
                let path = if self.p.err > 0 && s.chance(1, 8) { REFUSED_PATH } else { *s.pick(STP) };
                a.op = Op::Store { path: path.into(), value: self.sx(s, vars, false), export };
            }
            _ => {
                a.terminal = s.chance(2, 3);
                self.lits += 1;
                a.op = Op::Fail(Some(self.lits));
            }
        }
        if !self.p.plain_fail && !reply && k != 0 {
            // a failing stand-alone action is left to the profiles that want it
            a.pred = strip_err(a.pred);
            strip_op_err(&mut a.op);
        }
        a
    }
}
fn strip_err(p: Pr) -> Pr {
    match p {
        Pr::Err | Pr::NonBool => Pr::T,
        Pr::Hdr(n, _) => Pr::HasHdr(n),
        Pr::St(..) => Pr::T,
        p => p,
    }
}
fn strip_sx(x: &mut Sx) {
    if matches!(x, Sx::Err | Sx::Hdr(_) | Sx::St(_) | Sx::Cat(..)) {
        *x = Sx::Lit("plain".into());
    }
}
fn strip_op_err(o: &mut Op) {
    match o {
        Op::Deny { headers, body, .. } => {
            headers.iter_mut().for_each(|h| strip_sx(&mut h.1));
            body.iter_mut().for_each(strip_sx);
        }
        Op::Headers { list, .. } => list.iter_mut().for_each(|h| {
            strip_sx(&mut h.1);
            if h.0 == REFUSED_HDR {
                h.0 = "x-taken".into();
            }
        }),
        Op::Store { value, export, path } => {
            strip_sx(value);
            *export &= path != REFUSED_PATH;
        }
        _ => {}
    }
}
/// Actions that do nothing in between, so that there are more than ten
fn pad(s: &mut Src, acts: &mut Vec<Act>) {
    let to = s.range(11, 14);
    while acts.len() < to {
        let at = s.below(acts.len() as u64 + 1) as usize;
        acts.insert(at, Act { pred: Pr::F, terminal: false, guard: true, seq: false, legacy: false, op: Op::Fail(None) });
    }
}
/// The second action a call, and one whose number starts like its own after it that uses the
/// name of its answer
fn look_alike(s: &mut Src, acts: &mut Vec<Act>, p: &Profile) {
    let Some(at) = acts.iter().position(|a| !a.legacy && matches!(a.op, Op::Grpc { .. })) else { return };
    if at == 0 {
        acts.insert(0, Act { pred: Pr::F, terminal: false, guard: true, seq: false, legacy: false, op: Op::Fail(None) });
    } else {
        let a = acts.remove(at);
        acts.insert(1, a);
    }
    acts[1].pred = Pr::T;
    let Op::Grpc { var, .. } = &acts[1].op else { return };
    let var = var.clone();
    let to = s.range(10, acts.len() - 1);
    let guess = Pr::Reply(var.clone(), s.range(1, 2) as i64);
    let op = match s.below(3) {
        0 => Op::Headers { request: s.bool(), list: vec![("x-guess".into(), Sx::Reply(var))] },
        1 if p.plain_fail => Op::Fail(Some(999)),
        _ => Op::Store { path: "k9.v".into(), value: Sx::Reply(var), export: true },
    };
    let pred = if matches!(op, Op::Fail(_)) || s.bool() { guess } else { Pr::T };
    // it comes to be tried once the answer is there
    acts[to] = Act { pred, terminal: false, guard: true, seq: true, legacy: false, op };
}
pub fn gen_spec(s: &mut Src, p: &Profile) -> Spec {
    let nsvc = s.range(1, 3);
    let svcs: Vec<Svc> = (0..nsvc)
        .map(|i| Svc {
            name: format!("svc{i}"),
            endpoint: format!("cluster-{i}"),
            deny: !s.bool(),
            kind: *s.pickw(&[(6, "ratelimit"), (2, "ratelimit-check"), (if p.legacy > 0 { 2 } else { 0 }, "ratelimit-report")]),
            timeout_ms: 20,
        })
        .collect();
    let long = s.chance(1, 12);
    let mut g = Gen { p, svcs: svcs.clone(), vars: 0, lits: 0, long };
    let n = s.range(1, p.max_actions);
    let mut acts: Vec<Act> = (0..n).map(|_| g.act(s, 0, &[])).collect();
    // at times more calls in flight than any small number
    if s.chance(1, 60) {
        let plain = s.bool();
        for _ in 0..if plain { s.range(10, 90) } else { s.range(4, 40) } {
            let mut a = g.act(s, 0, &[]);
            if plain && (a.legacy || !matches!(a.op, Op::Grpc { .. })) {
                g.vars += 1;
                let msg = g.lit();
                a = Act { pred: Pr::T, terminal: false, guard: true, seq: false, legacy: false, op: Op::Grpc { svc: s.n(g.svcs.len()), var: format!("r{}", g.vars), msg, on_reply: vec![] } };
            }
            if let Op::Grpc { on_reply, .. } = &mut a.op {
                if !a.legacy {
                    on_reply.truncate(if plain { 0 } else { 1 });
                }
                if plain || s.chance(3, 4) {
                    a.pred = Pr::T;
                    a.seq = false;
                    a.guard |= plain;
                }
            } else if plain || s.bool() {
                continue;
            }
            acts.push(a);
        }
    }
    // at times a denial while calls of all kinds are in flight
    if p.deny > 0 && s.chance(1, 20) {
        let call = |g: &mut Gen, s: &mut Src, guards: u64, on_reply: Vec<Act>| {
            let guard = s.chance(guards, 4);
            g.vars += 1;
            let msg = g.lit();
            Act { pred: Pr::T, terminal: false, guard, seq: false, legacy: false, op: Op::Grpc { svc: s.n(g.svcs.len()), var: format!("r{}", g.vars), msg, on_reply } }
        };
        let mut fan = vec![];
        for _ in 0..s.range(1, 2) {
            let inner = call(&mut g, s, 3, vec![]);
            fan.push(call(&mut g, s, 2, vec![inner]));
        }
        for _ in 0..s.range(0, 2) {
            fan.push(call(&mut g, s, 2, vec![]));
        }
        let deny = Act { pred: Pr::T, terminal: true, guard: true, seq: false, legacy: false, op: Op::Deny { status: 403, headers: vec![], body: None } };
        fan.push(call(&mut g, s, 3, vec![deny]));
        s.shuffle(&mut fan);
        if s.bool() {
            acts = fan;
        } else {
            acts.extend(fan);
        }
    }
    if long {
        pad(s, &mut acts);
        for a in &mut acts {
            if let Op::Grpc { on_reply, .. } = &mut a.op {
                if !a.legacy && !on_reply.is_empty() && s.chance(1, 4) {
                    pad(s, on_reply);
                }
            }
        }
        if s.bool() {
            look_alike(s, &mut acts, p);
        }
    }
    Spec {
        svcs,
        acts,
        ident: if s.chance(p.ident, 100) { Some("x-kuadrant-id".into()) } else { None },
        tracing: s.chance(p.tracing, 100),
        level: None,
    }
}

// ---------------------------------------------------------------- lock-step run
#[derive(Clone, Copy, Default)]
pub struct Judge {
    pub gating: bool,
    pub liveness: bool,
    pub calls: bool,
    pub replies: bool,
    pub headers: bool,
    pub exports: bool,
    pub metrics: bool,
    pub logs: bool,
    /// judge only what happens after a denial
    pub after_denial: bool,
}
pub const ALL: Judge = Judge { gating: true, liveness: true, calls: true, replies: true, headers: true, exports: true, metrics: true, logs: false, after_denial: false };

fn effects(st: &Step) -> Effects {
    let mut f = Effects::default();
    for e in &st.events {
        match e {
            Ev::Call(c) if c.upstream == "tracing-cluster" => {}
            Ev::Call(c) => f.calls.push(Dispatch {
                upstream: c.upstream.clone(),
                method: c.method.clone(),
                domain: Msg::decode(&c.message).map(|m| m.get_s(1)).unwrap_or_else(|| "<undecodable>".into()),
                refused: false,
                guard: false,
            }),
            Ev::CallRefused(u, _, m) => f.calls.push(Dispatch { upstream: u.clone(), method: m.clone(), domain: String::new(), refused: true, guard: false }),
            Ev::SetProp(p, v) => f.exports.push((p.join("."), v.clone().unwrap_or_default())),
            _ => {}
        }
    }
    f.replies = st.replies();
    f.req_headers = last_map(&st.events, MapType::HttpRequestHeaders);
    f.resp_headers = last_map(&st.events, MapType::HttpResponseHeaders);
    f.logs = st.logs.iter().filter(|l| l.0 == LogLevel::Error).filter_map(|l| l.1.find("planned failure").map(|i| l.1[i..].to_string())).collect();
    f.hits = st.metric("kuadrant.hits");
    f.misses = st.metric("kuadrant.misses");
    f.errors = st.metric("kuadrant.errors");
    f.denied = st.metric("kuadrant.denied");
    f.allowed = st.metric("kuadrant.allowed");
    f
}
fn sorted(h: &Option<Vec<(String, String)>>) -> Option<Vec<(String, String)>> {
    h.clone().map(|mut h| {
        h.sort();
        h
    })
}

pub struct Run {
    pub trace: Vec<String>,
}

#[allow(clippy::too_many_arguments)]
fn compare(m: &mut Model, st: &Step, r: &Req, what: &str, j: &Judge, was_terminated: bool, in_resp: bool, eos_now: bool) -> Res {
    let got = effects(st);
    let mut want = std::mem::take(&mut m.fx);
    for c in &mut want.calls {
        if c.refused {
            c.domain = String::new();
        }
        c.guard = false;
    }
    ensure!(m.replied + got.replies.len() <= 1, "second-reply", "more than one reply was sent to the client: {:?} during {what}", got.replies);
    m.replied += got.replies.len();
    let live = if j.after_denial { was_terminated || m.terminated } else { true };
    if live {
        if j.calls {
            eq("dispatch", &format!("calls dispatched during {what}"), &got.calls, &want.calls)?;
        }
        if j.replies {
            eq("reply", &format!("replies to the client during {what}"), &got.replies, &want.replies)?;
        }
        if j.headers {
            eq("req-headers", &format!("request headers written during {what}"), &sorted(&got.req_headers), &sorted(&want.req_headers))?;
            eq("resp-headers", &format!("response headers written during {what}"), &sorted(&got.resp_headers), &sorted(&want.resp_headers))?;
        }
        if j.exports {
            eq(
                "export",
                &format!("metadata exported during {what}"),
                &got.exports,
                &want.exports.iter().map(|(p, v)| (format!("kuadrant.{p}"), v.clone())).collect(),
            )?;
        }
        if j.logs {
            if !want.logs.is_empty() {
                m.labels.insert("failure-logged");
            }
            eq("log", &format!("messages of fail actions logged during {what}"), &got.logs, &want.logs)?;
        }
        if j.metrics {
            eq("metrics", &format!("(hits, misses, errors, denied, allowed) counted during {what}"), &(got.hits, got.misses, got.errors, got.denied, got.allowed), &(want.hits, want.misses, want.errors, want.denied, if m.started || m.unroutable { want.allowed } else { got.allowed }))?;
        }
    }
    if m.guards() > 0 {
        m.labels.insert(if m.terminated { "guard-outstanding-after-denial" } else { "guard-outstanding" });
        if in_resp {
            m.labels.insert("guard-outstanding-in-response");
        }
        if m.outstanding() > 1 {
            m.labels.insert("guard-with-other-calls");
        }
    } else if m.outstanding() > 0 {
        m.labels.insert("only-other-calls-outstanding");
    }
    if eos_now && m.outstanding() > 0 {
        m.labels.insert("response-ends-with-calls-outstanding");
    }
    let held = if in_resp { r.resp == Dir::Held } else { r.req == Dir::Held };
    let tracing_out = r.outstanding.iter().any(|c| c.upstream == "tracing-cluster");
    if j.gating {
        if m.guards() > 0 && !(m.terminated && !in_resp) {
            if st.action.is_some() {
                ensure!(held, "released", "{} guard call(s) outstanding, yet {what} was let through (action {:?}, resumes req={} resp={})", m.guards(), st.action, st.resumed_req(), st.resumed_resp());
            } else {
                ensure!(st.resumed_req() + st.resumed_resp() == 0, "released", "{} guard call(s) outstanding, yet {what} resumed the stream", m.guards());
            }
        }
        if m.terminated && !in_resp {
            ensure!(st.resumed_req() == 0, "resumed-after-denial", "the request was resumed towards the upstream during {what} although it had been denied");
        }
    }
    if j.liveness {
        if m.guards() == 0 && m.outstanding() == 0 && !tracing_out && !(m.terminated && !in_resp) {
            ensure!(!held, "stuck", "nothing is outstanding, yet after {what} the stream is still held");
        }
        if m.guards() == 0 && !eos_now && !(m.terminated && !in_resp) && !(in_resp && r.resp_eos) {
            ensure!(!held, "held-without-guard", "no guard call is outstanding, yet after {what} the stream is held");
        }
        // the end of a body waits for every call: with it the host gives up what is still under way
        if in_resp && r.resp_ended && (m.outstanding() > 0 || tracing_out) {
            m.labels.insert("end-held");
            ensure!(held, "end-let-through", "{} call(s) outstanding, yet after {what} the end of the response was let through", m.outstanding());
        }
    }
    Ok(())
}

/// Drives one request through the real filter and the model under a random schedule.
pub fn lockstep(s: &mut Src, o: &mut Obs, p: &Profile, j: &Judge) -> Res {
    let spec = gen_spec(s, p);
    let mut headers: Vec<(&str, &str)> = vec![("x-request-id", "rid-1")];
    for n in HN {
        if s.bool() {
            headers.push((n, s.pick(HV)));
        }
    }
    let mut refuse = BTreeSet::new();
    for v in &spec.svcs {
        if s.chance(p.refuse, 100) {
            refuse.insert(v.endpoint.clone());
        }
    }
    let cfg = spec.json();
    let vm = Vm::new(&cfg);
    let Some(vm) = vm else { return fail("config-refused", format!("valid configuration refused: {cfg}")) };
    proxy_wasm::sim::with(|sm| {
        if j.logs {
            sm.logs = Some(vec![]);
        }
        for r in &refuse {
            sm.refuse.insert(r.clone(), Status::InternalFailure);
        }
    });
    let resp_code = *s.pick(&[200i64, 404]);
    let missed = p.miss > 0 && s.chance(p.miss, 100);
    let mut stream = stream(if missed { "api.example.org" } else { "api.example.com" }, "/p?q=1", "GET", &headers);
    stream.refused_header = Some(REFUSED_HDR.into());
    stream.refused_prop = Some(format!("kuadrant.{REFUSED_PATH}"));
    // attributes the host cannot give before the response
    stream.props.insert(vec!["request".into(), "size".into()], Prop::InResponse(resp_code.to_le_bytes().to_vec()));
    stream.props.insert(vec!["request".into(), "useragent".into()], Prop::InResponse(b"x-up".to_vec()));
    let unroutable = missed && s.chance(1, 3);
    if unroutable {
        stream.props.remove(&vec!["request".to_string(), "host".to_string()]);
    }
    let mut m = Model::new(&spec, &stream, &refuse);
    if unroutable {
        m.unroutable();
    } else if missed {
        m.nothing_to_do();
    }
    let mut r = vm.open(2, stream);
    let mut trace: Vec<String> = vec![format!("config {cfg}"), format!("headers {headers:?} refused {refuse:?}")];
    // real token -> model call index, by order of dispatch
    let mut tokens: BTreeMap<u32, usize> = BTreeMap::new();
    let mut seen_calls = 0usize;
    let nbody = s.n(4);
    let mut body_left = nbody;
    let body_text = s.pick(&[r#"{"m":"hi","usage":{"t":7},"list":["a","hi"]}"#, r#"{"m":"7"}"#, "{not json", r#"{"m":null,"usage":{"t":"hi"}}"#]).to_string();
    let nchunks = s.range(0, 3);
    let mut chunks: Vec<Vec<u8>> = vec![];
    if nchunks > 0 {
        let b = body_text.as_bytes();
        let mut cuts: Vec<usize> = (0..nchunks - 1).map(|_| s.n(b.len() + 1)).collect();
        cuts.sort();
        let mut prev = 0;
        for c in cuts.into_iter().chain([b.len()]) {
            chunks.push(b[prev..c].to_vec());
            prev = c;
        }
    }
    // the last part of a body may be trailers
    let (req_trailers, resp_trailers) = (s.chance(1, 6), s.chance(1, 6));
    if resp_trailers && !chunks.is_empty() {
        chunks.push(vec![]);
    }
    let mut next_chunk = 0;
    // 0 not started, 1 request phase, 2 response phase, 3 over
    let mut started = false;
    let mut responded = false;
    let mut local_reply_done = false;
    let mut steps = 0;
    let result = (|| -> Res {
        loop {
            steps += 1;
            if steps > 60 + 3 * spec.acts.len() {
                break;
            }
            let was_term = m.terminated;
            let in_resp = responded;
            let mut en: Vec<(u32, u8)> = vec![];
            if !started {
                en.push((1, 0));
            } else {
                if !r.outstanding.is_empty() {
                    en.push((3, 1));
                }
                if !responded && !m.terminated {
                    if r.req == Dir::Flowing && body_left > 0 {
                        en.push((2, 2));
                    }
                    // more data while an earlier body callback holds the stream
                    if r.req == Dir::Held && body_left > 0 && body_left < nbody {
                        en.push((1, 2));
                    }
                    if r.req == Dir::Flowing && (body_left == 0 || (p.early_response && s.chance(1, 8))) {
                        en.push((2, 3));
                    }
                }
                if m.terminated && !responded && !local_reply_done {
                    en.push((3, 4));
                }
                if responded && !(m.terminated && was_term) {
                    let can = r.resp == Dir::Flowing || next_chunk > 0;
                    if can && next_chunk < chunks.len() {
                        en.push((2, 5));
                    }
                }
                if responded && local_reply_done && next_chunk < chunks.len() && r.resp == Dir::Flowing {
                    en.push((2, 5));
                }
            }
            if en.is_empty() {
                break;
            }
            let (st, what, resp, eos_now): (Step, String, bool, bool) = match s.pickw(&en) {
                0 => {
                    started = true;
                    let eos = nbody == 0;
                    let st = r.headers(eos);
                    m.request_headers();
                    (st, "request headers".into(), false, false)
                }
                1 => {
                    let i = s.n(r.outstanding.len());
                    let c = r.outstanding[i].clone();
                    let ans = match s.pickw(&[(6u32, 0u8), (4, 1), (p.bad_ans as u32, 2), (p.bad_ans as u32, 3), (1, 4)]) {
                        0 => Ans::Code(1),
                        1 => Ans::Code(2),
                        4 => Ans::Code(s.below(2) as i64 * 3),
                        2 => Ans::Status(any_status(s)),
                        _ => {
                            if s.bool() {
                                Ans::Garbage
                            } else {
                                Ans::NoBody
                            }
                        }
                    };
                    trace.push(format!("answer call #{:?} ({}) with {ans:?}", tokens.get(&c.token), c.upstream));
                    let st = ans.give(&mut r, c.token);
                    if let Some(ix) = tokens.remove(&c.token) {
                        m.answer(ix, &ans);
                    } else if c.upstream == "tracing-cluster" {
                        m.eval();
                    }
                    (st, format!("answer {ans:?}"), in_resp, false)
                }
                2 => {
                    body_left -= 1;
                    let st = if req_trailers && body_left == 0 { r.trailers() } else { r.body(b"chunk", body_left == 0) };
                    m.request_body();
                    (st, "request body".into(), false, false)
                }
                3 | 4 if !responded => {
                    responded = true;
                    let denied = m.terminated;
                    let (code, hs, eos) = if denied {
                        local_reply_done = true;
                        // the local reply travels back through the filter
                        chunks = vec![b"denied".to_vec()];
                        next_chunk = 0;
                        (resp_code, vec![("content-type".to_string(), "text/plain".to_string())], false)
                    } else {
                        (resp_code, vec![("content-type".to_string(), "application/json".to_string()), ("x-up".to_string(), "u1".to_string())], chunks.is_empty())
                    };
                    r.enter_response(code as u32, &hs);
                    let st = r.resp_headers(eos);
                    let all = r.sim(|q| q.resp_headers.clone());
                    let mut base = vec![(":status".to_string(), code.to_string())];
                    base.extend(hs);
                    let _ = all;
                    m.response_headers(code, base);
                    (st, "response headers".into(), true, false)
                }
                _ => {
                    let c = chunks[next_chunk].clone();
                    next_chunk += 1;
                    let eos = next_chunk == chunks.len();
                    let st = if eos && resp_trailers && !local_reply_done { r.resp_trailers() } else { r.resp_body(&c, eos) };
                    m.response_body(&c, eos);
                    (st, format!("response body (end of stream: {eos})"), true, eos)
                }
            };
            trace.push(format!("{what} -> {:?} {:?}", st.action, st.events.iter().filter(|e| !matches!(e, Ev::Metric(..))).map(short).collect::<Vec<_>>()));
            for c in st.calls() {
                if c.upstream != "tracing-cluster" {
                    tokens.insert(c.token, seen_calls);
                    seen_calls += 1;
                }
            }
            if m.unspecified.get() {
                o.label("unset-beside-set");
                return Ok(());
            }
            compare(&mut m, &st, &r, &what, j, was_term, resp, eos_now)?;
            o.checks += 1;
            // the two sides must agree on which calls exist before going on
            if seen_calls != m.next_call {
                if j.calls {
                    return fail("dispatch", format!("{seen_calls} calls dispatched, expected {} after {what}", m.next_call));
                }
                o.label("abandoned");
                return Ok(());
            }
            if m.terminated && !responded && st.replies().is_empty() && !was_term && !j.replies {
                o.label("abandoned");
                return Ok(());
            }
        }
        Ok(())
    })();
    for l in &m.labels {
        o.label(*l);
    }
    if m.next_call > 0 {
        o.label("with-calls");
    }
    if m.next_call > 1 {
        o.label("several-calls");
    }
    o.sample = Some(trace.join("\n"));
    result.map_err(|mut f| {
        f.msg = format!("{}\nhistory:\n  {}", f.msg, trace.join("\n  "));
        f
    })
}

pub fn short(e: &Ev) -> String {
    match e {
        Ev::Call(c) => format!("Call#{}({} {} {})", c.token, c.upstream, c.method, Msg::decode(&c.message).map(|m| m.get_s(1)).unwrap_or_default()),
        Ev::Reply { status, headers, body } => format!("Reply({status} {headers:?} {:?})", body.as_ref().map(|b| String::from_utf8_lossy(b).into_owned())),
        e => format!("{e:?}"),
    }
}
#[allow(unused)]
pub fn held_action(a: Option<Action>) -> bool {
    a == Some(Action::Pause)
}

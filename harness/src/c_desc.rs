//! C20: the life cycle of service descriptors. Histories of loads, ticks, fetch answers and requests
//! against a model holding one state per (cluster, service).
use crate::env::*;
use crate::fw::*;
use crate::wire::{Msg, W};
use proxy_wasm::sim::{self, Call, Ev};
use proxy_wasm::types::{Action, MapType, Status};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};

const CLUSTERS: &[&str] = &["c0", "c1", "c2"];
const SVCS: &[&str] = &["p.A", "p.B", "q.r.C"];
const EMBEDDED: &[&str] = &["kuadrant.service.ratelimit.v1.RateLimitService", "envoy.service.ratelimit.v3.RateLimitService"];
type Key = (String, String);

#[derive(Clone, Debug, PartialEq)]
enum St {
    Missing,
    Pending(u32),
    /// the version of the descriptors taken
    Resolved(u32),
}

/// A file descriptor set offering `svcs`; the version shows as the number of the field `x`, and the input
/// message has a field of its own at each cluster.
pub fn fds(cluster: &str, version: u32, svcs: &[&str], method: bool) -> Vec<u8> {
    let mut set = Msg::new();
    let mut pkgs: Vec<&str> = svcs.iter().map(|s| s.rsplit_once('.').unwrap().0).collect();
    pkgs.sort();
    pkgs.dedup();
    let field = Msg::new().s(1, "x").v(3, version as u64).v(4, 1).v(5, 9);
    let noise = Msg::new().s(1, "y").v(3, version as u64 + 1).v(4, 1).v(5, 3);
    set = set.m(
        1,
        Msg::new().s(1, "io.proto").s(2, "p").m(4, Msg::new().s(1, "In").m(2, noise.clone()).m(2, field.clone()).m(2, Msg::new().s(1, &format!("only_{cluster}")).v(3, 100).v(4, 1).v(5, 3))).m(4, Msg::new().s(1, "Out").m(2, field).m(2, noise)).s(12, "proto3"),
    );
    for p in pkgs {
        let mut f = Msg::new().s(1, &format!("{p}.proto")).s(2, p).s(3, "io.proto");
        for s in svcs.iter().filter(|s| s.rsplit_once('.').unwrap().0 == p) {
            let mut svc = Msg::new().s(1, s.rsplit_once('.').unwrap().1);
            svc = svc.m(2, Msg::new().s(1, "Ping").s(2, ".p.Out").s(3, ".p.In"));
            if method {
                svc = svc.m(2, Msg::new().s(1, "Do").s(2, ".p.In").s(3, ".p.Out"));
            }
            f = f.m(6, svc);
        }
        set = set.m(1, f.s(12, "proto3"));
    }
    set.encode()
}

#[derive(Clone, Debug)]
struct Svc {
    key: Key,
    allow: bool,
    /// calls something else first
    behind: bool,
    /// and this service besides
    beside: Option<usize>,
}
impl Svc {
    fn builder(&self) -> String {
        if self.embedded() {
            "envoy.service.ratelimit.v3.RateLimitRequest{domain: 'v'}".into()
        } else {
            format!("p.In{{x: 'v', only_{}: 7}}", self.key.0)
        }
    }
    fn embedded(&self) -> bool {
        EMBEDDED.contains(&self.key.1.as_str())
    }
}
#[derive(Clone, Debug)]
struct Conf {
    svcs: Vec<Svc>,
    fetcher: Option<String>,
}
impl Conf {
    fn json(&self) -> J {
        let mut services = json!({"first": {"type": "ratelimit", "endpoint": "rl", "failureMode": "allow"}});
        let mut sets = vec![];
        for (i, s) in self.svcs.iter().enumerate() {
            let method = match s.key.1.as_str() {
                x if x == EMBEDDED[0] => "CheckRateLimit",
                x if x == EMBEDDED[1] => "ShouldRateLimit",
                _ => "Do",
            };
            services[format!("s{i}")] = json!({"type": "dynamic", "endpoint": s.key.0, "failureMode": if s.allow { "allow" } else { "deny" }, "timeout": "20ms", "grpcService": s.key.1, "grpcMethod": method});
            let read = if s.embedded() { "string(r.overall_code)" } else { "r.x" };
            let mut acts = vec![];
            if s.behind {
                acts.push(json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "f", "service": "first", "messageBuilder": "envoy.service.ratelimit.v3.RateLimitRequest{}", "execution": "sequential"}));
            }
            acts.push(json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "r", "service": format!("s{i}"), "messageBuilder": s.builder(), "onReply": [
                {"type": "headers", "predicate": "true", "terminal": false, "target": "request", "headers": format!("[['x-read', {read}]]")}]}));
            if let Some(b) = s.beside {
                acts.push(json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "r2", "service": format!("s{b}"), "messageBuilder": self.svcs[b].builder()}));
            }
            sets.push(json!({"name": format!("set{i}"), "routeRuleConditions": {"hostnames": [format!("h{i}")]}, "actions": acts}));
        }
        let mut c = json!({"services": services, "actionSets": sets});
        if let Some(f) = &self.fetcher {
            c["descriptorService"] = json!(f);
        }
        c
    }
    fn fetcher(&self) -> String {
        self.fetcher.clone().unwrap_or("kuadrant-operator-grpc".into())
    }
}

struct Model {
    st: BTreeMap<Key, St>,
    conf: Option<Conf>,
    /// fetches not answered yet
    out: Vec<u32>,
    done: Vec<u32>,
}
impl Model {
    fn required(&self) -> BTreeSet<Key> {
        self.conf.iter().flat_map(|c| &c.svcs).filter(|s| !s.embedded()).map(|s| s.key.clone()).collect()
    }
    /// The fetch made at a load or a tick, judged and taken over.
    fn fetch(&mut self, step: &Step, refused: bool) -> Res {
        let missing: BTreeSet<Key> = self.st.iter().filter(|x| *x.1 == St::Missing).map(|x| x.0.clone()).collect();
        let need: BTreeSet<Key> = missing.intersection(&self.required()).cloned().collect();
        let calls: Vec<&Call> = step.calls();
        let tries = step.events.iter().filter(|e| matches!(e, Ev::CallRefused(..))).count();
        if refused {
            ensure!(calls.is_empty(), "fetch-refused", "a call went out although the host refuses them");
            ensure!(tries >= 1 || need.is_empty(), "no-fetch", "no fetch attempted for {need:?}");
            return Ok(());
        }
        if need.is_empty() && calls.is_empty() {
            return Ok(());
        }
        ensure!(calls.len() == 1, "fetch-count", "{} fetches for {need:?}", calls.len());
        let c = calls[0];
        let f = self.conf.as_ref().map(|c| c.fetcher()).unwrap_or_default();
        ensure!(
            c.upstream == f && c.service == "kuadrant.v1.DescriptorService" && c.method == "GetServiceDescriptors" && c.timeout.as_millis() == 1000,
            "fetch-target",
            "{c:?} (descriptor service {f})"
        );
        let m = match Msg::decode(&c.message) {
            Some(m) => m,
            None => return fail("fetch-request", format!("{c:?}")),
        };
        let asked: Vec<Key> = m.msgs(1).iter().map(|s| (s.get_s(1), s.get_s(2))).collect();
        let set: BTreeSet<Key> = asked.iter().cloned().collect();
        ensure!(set.len() == asked.len(), "fetch-request", "repeated: {asked:?}");
        ensure!(need.is_subset(&set), "fetch-request", "asked for {set:?}, needs {need:?}");
        ensure!(set.is_subset(&missing), "fetch-request", "asked for {set:?}, of which only {missing:?} is neither resolved nor being asked for\nstates {:?}", self.st);
        for k in set {
            self.st.insert(k, St::Pending(c.token));
        }
        self.out.push(c.token);
        Ok(())
    }
}

fn conf(s: &mut Src) -> Conf {
    let big = s.chance(1, 25);
    let n = s.range(0, if big { 90 } else { 4 });
    let mut svcs = vec![];
    for _ in 0..n {
        let svc = if s.chance(1, 6) { *s.pick(EMBEDDED) } else { *s.pick(SVCS) };
        svcs.push(Svc { key: (if big { format!("c{}", s.n(50)) } else { s.pick(CLUSTERS).to_string() }, svc.to_string()), allow: s.bool(), behind: s.chance(1, 3), beside: if s.chance(1, 3) { Some(s.n(n)) } else { None } });
    }
    Conf { svcs, fetcher: if s.chance(1, 3) { Some(format!("ds{}", s.n(2))) } else { None } }
}

struct Live {
    q: Req,
    svc: Svc,
    beside: Option<Svc>,
}

/// The request has reached its calls: each dispatched exactly as the descriptors say, or failed.
fn reached(m: &Model, l: &mut Live, st: &Step, trace: &[String], o: &mut Obs) -> Res {
    o.checks += 1;
    let calls: Vec<Call> = st.calls().into_iter().cloned().collect();
    let rep = st.replies();
    let at = |x: String| format!("{x}\nservice {:?}, besides {:?}, states {:?}\n{trace:#?}", l.svc, l.beside, m.st);
    let mut want = vec![];
    let mut errors = 0;
    let mut denied = false;
    for svc in [Some(&l.svc), l.beside.as_ref()].into_iter().flatten() {
        let version = if svc.embedded() {
            Some(2)
        } else {
            match m.st.get(&svc.key) {
                Some(St::Resolved(v)) => Some(*v),
                _ => None,
            }
        };
        match version {
            Some(v) if v != 0 => {
                let msg = if svc.embedded() { Msg::new().s(1, "v") } else { Msg::new().s(v, "v").v(100, 7) };
                want.push((svc.key.clone(), msg, v));
                o.label(if svc.embedded() { "embedded-called" } else { "resolved-called" });
                o.nontrivial |= !svc.embedded();
            }
            _ => {
                errors += 1;
                o.label(if version.is_some() { "method-missing" } else { "unresolved-failed" });
                if !svc.allow {
                    denied = true;
                    break;
                }
            }
        }
    }
    let got: Vec<_> = calls.iter().map(|c| ((c.upstream.clone(), c.service.clone()), Msg::decode(&c.message).unwrap_or_default())).collect();
    let exp: Vec<_> = want.iter().map(|w| (w.0.clone(), w.1.clone())).collect();
    ensure!(got == exp, if got.len() < exp.len() { "not-called" } else if got.len() > exp.len() { "called-unresolved" } else { "call-encoding" }, "{}", at(format!("calls {got:?}, expected {exp:?}")));
    ensure!(st.metric("kuadrant.errors") == errors, "errors", "{}", at(format!("errors +{}, expected {errors}", st.metric("kuadrant.errors"))));
    let codes: Vec<u32> = rep.iter().map(|r| r.0).collect();
    ensure!(codes == if denied { vec![500] } else { vec![] }, "outcome", "{}", at(format!("replies {rep:?}")));
    // and the answer is read by the same descriptors
    if let (Some(w), false) = (want.first().filter(|w| w.0 == l.svc.key), denied) {
        let emb = l.svc.embedded();
        let reply = if emb { Msg::new().v(1, 1) } else { Msg::new().s(w.2, "read").v(w.2 + 1, 3) };
        let st = l.q.ok(calls[0].token, reply.encode());
        let got = last_map(&st.events, MapType::HttpRequestHeaders).and_then(|h| h.into_iter().find(|x| x.0 == "x-read")).map(|x| x.1);
        let want = if emb { "1" } else { "read" };
        ensure!(got.as_deref() == Some(want), "reply-decoding", "{}", at(format!("read {got:?}, expected {want}")));
    }
    Ok(())
}

fn c20(s: &mut Src, o: &mut Obs) -> Res {
    let mut vm = Vm::boot_only();
    let mut m = Model { st: BTreeMap::new(), conf: None, out: vec![], done: vec![] };
    let mut live: Vec<Live> = vec![];
    let mut trace: Vec<String> = vec![];
    let mut id = 10;
    let steps = if s.chance(1, 60) { s.range(20, 150) } else { s.range(3, 16) };
    for n in 0..steps {
        let op = if n == 0 { 0 } else { *s.pickw(&[(2, 0u32), (4, 1), (6, 2), (5, 3), (3, 4), (1, 5)]) };
        match op {
            0 => {
                let c = conf(s);
                let mut j = c.json();
                let bad = s.chance(1, 6);
                if bad {
                    j["actionSets"].as_array_mut().unwrap().push(json!({"name": "late", "routeRuleConditions": {"hostnames": ["z"]}, "actions": [
                        {"type": "deny", "predicate": "1 +", "terminal": true, "denyWith": "DenyResponse {}"}]}));
                }
                let refuse = s.chance(1, 8);
                refuse_all(refuse, &c, &m);
                trace.push(format!("configure {c:?} bad {bad} host-refuses {refuse}"));
                let (ok, st) = vm.configure(j.to_string().into_bytes());
                ensure!(ok != bad, "accept", "accepted {ok}\n{j}");
                if !bad {
                    // those of refused configurations are never asked for
                    for v in c.svcs.iter().filter(|v| !v.embedded()) {
                        m.st.entry(v.key.clone()).or_insert(St::Missing);
                    }
                }
                if bad {
                    ensure!(st.calls().is_empty(), "refused-fetches", "{trace:#?}");
                    o.label("refused-configuration");
                } else {
                    if m.conf.is_some() {
                        o.label("reloaded");
                    }
                    m.conf = Some(c);
                    m.fetch(&st, refuse).map_err(|f| Fail { msg: format!("{}\n{trace:#?}", f.msg), ..f })?;
                }
                sim::with(|s| s.refuse.clear());
            }
            1 => {
                // the host ticks only while the filter wants it to
                let period = sim::with(|s| s.tick_period);
                if period.is_zero() {
                    continue;
                }
                let Some(c) = m.conf.clone() else { continue };
                let refuse = s.chance(1, 8);
                refuse_all(refuse, &c, &m);
                trace.push(format!("tick host-refuses {refuse}"));
                let st = vm.tick();
                o.checks += 1;
                m.fetch(&st, refuse).map_err(|f| Fail { msg: format!("{}\n{trace:#?}", f.msg), ..f })?;
                if !st.calls().is_empty() {
                    o.label("fetched-at-tick");
                }
                sim::with(|s| s.refuse.clear());
            }
            2 => {
                if m.out.is_empty() {
                    continue;
                }
                let i = s.n(m.out.len());
                let tok = m.out.remove(i);
                m.done.push(tok);
                let asked: Vec<Key> = m.st.iter().filter(|x| *x.1 == St::Pending(tok)).map(|x| x.0.clone()).collect();
                let mut got: Vec<(Key, u32)> = vec![];
                let st = match s.below(10) {
                    0 => {
                        trace.push(format!("fetch {tok} fails"));
                        o.label("fetch-failed");
                        vm.answer(tok, crate::pipe::any_status(s), Ok(None), 0)
                    }
                    1 => {
                        trace.push(format!("fetch {tok} answered with nothing"));
                        vm.answer(tok, 0, s.pick(&[Ok(None), Err(Status::BadArgument)]).clone(), 0)
                    }
                    2 => {
                        trace.push(format!("fetch {tok} answered with garbage"));
                        o.label("garbage-answer");
                        // cut inside its last entry
                        let k = asked.first().cloned().unwrap_or(("c0".into(), "p.A".into()));
                        let mut b = Msg::new().m(1, Msg::new().s(1, &k.0).s(2, &k.1).b(3, &fds(&k.0, 3, &["p.A", "p.B", "q.r.C"], true))).encode();
                        b.truncate(b.len() - 1);
                        let n = b.len();
                        vm.answer(tok, 0, Ok(Some(b)), n)
                    }
                    _ => {
                        let mut body = Msg::new();
                        let mut entries = vec![];
                        for k in &asked {
                            let v = 2 + s.n(4) as u32;
                            let only = [k.1.as_str()];
                            let all = ["p.A", "p.B", "q.r.C"];
                            let entry = |b: Vec<u8>| Msg::new().s(1, &k.0).s(2, &k.1).b(3, &b);
                            // a broken one may stand beside a good one of the same service
                            let kind = s.below(9);
                            let broken = match kind {
                                0 => Some(vec![0xff, 0xff, 0x01]),
                                1 => {
                                    let others: Vec<&str> = all.iter().filter(|x| **x != k.1).copied().collect();
                                    Some(fds(&k.0, v, &others, true))
                                }
                                2 => Some(Msg::new().m(1, Msg::new().s(1, "z.proto").s(2, "p").m(6, Msg::new().s(1, "A").m(2, Msg::new().s(1, "Do").s(2, ".no.Such").s(3, ".no.Such")))).encode()),
                                3 => Some(vec![]),
                                _ => None,
                            };
                            let good = broken.is_none() && kind != 4 || broken.is_some() && s.chance(1, 4);
                            if let Some(b) = &broken {
                                o.label("broken-descriptor");
                                entries.push((entry(b.clone()), format!("{k:?} broken {kind}")));
                            }
                            if good {
                                let method = !s.chance(1, 10);
                                let b = if s.bool() { fds(&k.0, v, &only, method) } else { fds(&k.0, v, &all, method) };
                                got.push((k.clone(), if method { v } else { 0 }));
                                entries.push((entry(b), format!("{k:?} v{v} method {method}")));
                            }
                        }
                        // the built-in ones are not up for replacement
                        for v in m.conf.iter().flat_map(|c| &c.svcs).filter(|v| v.embedded()) {
                            if s.chance(1, 3) {
                                let b = Msg::new()
                                    .m(1, Msg::new().s(1, "e.proto").s(2, v.key.1.rsplit_once('.').unwrap().0).m(4, Msg::new().s(1, "In")).m(6, Msg::new().s(1, "RateLimitService")).s(12, "proto3"))
                                    .encode();
                                entries.push((Msg::new().s(1, &v.key.0).s(2, &v.key.1).b(3, &b), format!("built-in {:?}", v.key)));
                                o.label("embedded-offered");
                            }
                        }
                        s.shuffle(&mut entries);
                        for (e, _) in &entries {
                            body = body.m(1, e.clone());
                        }
                        trace.push(format!("fetch {tok} answered {:?}", entries.iter().map(|e| &e.1).collect::<Vec<_>>()));
                        // bytes the schema does not know
                        if s.chance(1, 6) {
                            body.0.push((9, W::Varint(3)));
                        }
                        let b = body.encode();
                        if b.is_empty() {
                            vm.answer(tok, 0, Ok(None), 0)
                        } else {
                            let n = b.len();
                            vm.answer(tok, 0, Ok(Some(b)), n)
                        }
                    }
                };
                ensure!(st.calls().is_empty() && st.replies().is_empty(), "answer-effect", "{st:?}\n{trace:#?}");
                for k in &asked {
                    m.st.insert(k.clone(), St::Missing);
                }
                if got.len() < asked.len() && !got.is_empty() {
                    o.label("partly-resolved");
                }
                for (k, v) in got {
                    m.st.insert(k, St::Resolved(v));
                }
            }
            3 => {
                let Some(c) = m.conf.clone() else { continue };
                if c.svcs.is_empty() {
                    continue;
                }
                id += 1;
                let i = s.n(c.svcs.len());
                let v = c.svcs[i].clone();
                trace.push(format!("request {id} for {v:?}"));
                let q = vm.open(id, stream(&format!("h{i}"), "/", "GET", &[]));
                let beside = v.beside.map(|b| c.svcs[b].clone());
                let mut l = Live { q, svc: v, beside };
                let st = l.q.headers(true);
                if l.svc.behind {
                    ensure!(st.action == Some(Action::Pause) && st.calls().len() == 1 && st.calls()[0].upstream == "rl", "first", "{st:?}\n{trace:#?}");
                    live.push(l);
                } else {
                    reached(&m, &mut l, &st, &trace, o)?;
                }
            }
            4 => {
                if live.is_empty() {
                    continue;
                }
                let i = s.n(live.len());
                let mut l = live.remove(i);
                trace.push(format!("request {} goes on", l.q.id));
                let tok = l.q.outstanding[0].token;
                let st = l.q.ok(tok, Msg::new().v(1, 1).encode());
                o.label("went-on-later");
                reached(&m, &mut l, &st, &trace, o)?;
            }
            _ => {
                // an answer to a fetch that is over, or that never was
                let tok = if m.done.is_empty() { 99_999 } else { *s.pick(&m.done) };
                let all = ["p.A", "p.B", "q.r.C"];
                let mut body = Msg::new();
                for k in m.st.keys() {
                    body = body.m(1, Msg::new().s(1, &k.0).s(2, &k.1).b(3, &fds(&k.0, 9, &all, true)));
                }
                trace.push(format!("stray answer {tok}"));
                let b = body.encode();
                if b.is_empty() {
                    continue;
                }
                let n = b.len();
                let st = vm.answer(tok, 0, Ok(Some(b)), n);
                o.label("stray-answer");
                ensure!(st.calls().is_empty(), "stray-effect", "{st:?}\n{trace:#?}");
            }
        }
        // something is left to fetch: the filter must be ticking
        let open: Vec<Key> = m.required().into_iter().filter(|k| !matches!(m.st.get(k), Some(St::Resolved(_)))).collect();
        let period = sim::with(|s| s.tick_period);
        if !open.is_empty() {
            ensure!(period.as_millis() == 2000, "tick-period", "{open:?} to fetch, ticking every {period:?}\n{trace:#?}");
        } else if m.st.is_empty() {
            ensure!(period.is_zero(), "tick-period", "nothing was ever to be fetched, yet ticking every {period:?}\n{trace:#?}");
        }
    }
    o.sample = Some(format!("{trace:?}"));
    Ok(())
}
fn refuse_all(on: bool, c: &Conf, m: &Model) {
    if on {
        let f2 = m.conf.as_ref().map(|c| c.fetcher()).unwrap_or_default();
        sim::with(|s| {
            s.refuse.insert(c.fetcher(), Status::InternalFailure);
            s.refuse.insert(f2, Status::InternalFailure);
        });
    }
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C20",
        run: c20,
        quick: 12_000,
        thorough: 4_000_000,
        rule: "a call of a dynamic service was made after its descriptors had been fetched",
        assumptions: &["the descriptor service offers only what it was asked for, or built-in services in use", "every fetch is answered or fails"],
    }]
}

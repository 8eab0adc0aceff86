//! C28: plugin configurations that live in one VM at the same time do not affect each other.
use crate::c_desc::fds;
use crate::c_iso::{configuration, plan, Going, Plan};
use crate::env::*;
use crate::fw::*;
use crate::wire::Msg;
use proxy_wasm::sim::{self, Call, Ev};
use serde_json::{json, Value as J};

/// The life of one root context, fixed in advance.
#[derive(Clone, Debug)]
struct Script {
    id: u32,
    mark: String,
    /// (configuration, whether it is valid)
    loads: Vec<(J, bool)>,
    plans: Vec<Plan>,
    /// what to do next, as far as it can be done
    ops: Vec<(u32, u64)>,
    /// the version of the descriptors it is given
    version: u32,
}

const LOAD: u32 = 0;
const TICK: u32 = 1;
const FETCHED: u32 = 2;
const OPEN: u32 = 3;
const STEP: u32 = 4;

fn load(s: &mut Src, o: &mut Obs, mark: &str, version: u32) -> (J, bool) {
    let mut c = configuration(s, o);
    let sets = c["actionSets"].as_array_mut().unwrap();
    for set in sets.iter_mut() {
        let acts = set["actions"].as_array_mut().unwrap();
        acts.insert(0, json!({"type": "store", "predicate": "true", "terminal": false, "path": "root.v", "value": format!("'{mark}'"), "exportToHost": true}));
        if s.chance(2, 3) {
            // of a service both have, whose descriptors need not be the same
            acts.push(json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "dy", "service": s.pick(&["dyn0", "dyn1"]).to_string(), "messageBuilder": "p.In{x: request.headers['x-mark'], only_c0: 7}",
                "onReply": [{"type": "headers", "predicate": "true", "terminal": false, "target": "request", "headers": "[['x-dyn', dy.x]]"}]}));
        }
    }
    for i in 0..2 {
        c["services"][format!("dyn{i}")] = json!({"type": "dynamic", "endpoint": s.pick(&["c0", "c1"]).to_string(), "failureMode": if s.chance(1, 3) { "deny" } else { "allow" }, "grpcService": s.pick(&["p.A", "p.B"]).to_string(), "grpcMethod": "Do"});
    }
    if s.bool() {
        c["descriptorService"] = json!(s.pick(&["ds", &format!("ds{version}")]).to_string());
    }
    let good = !s.chance(1, 6);
    if !good {
        c["actionSets"].as_array_mut().unwrap().push(json!({"name": "late", "routeRuleConditions": {"hostnames": ["z"]}, "actions": [
            {"type": "deny", "predicate": "1 +", "terminal": true, "denyWith": "DenyResponse {}"}]}));
    }
    (c, good)
}

fn script(s: &mut Src, o: &mut Obs, k: usize) -> Script {
    let (mark, version) = (format!("root{k}w"), (2 + 3 * s.n(30) + k) as u32);
    let loads: Vec<_> = (0..s.range(1, 3)).map(|_| load(s, o, &mark, version)).collect();
    let plans = (0..s.range(1, 3)).map(|i| plan(s, 10 * k + i)).collect();
    let mut ops = vec![(LOAD, 0)];
    if s.chance(3, 4) {
        ops.extend([(FETCHED, 1), (OPEN, 0)]);
    }
    for _ in 0..s.range(10, 60) {
        ops.push((*s.pickw(&[(1, LOAD), (2, TICK), (4, FETCHED), (5, OPEN), (24, STEP)]), s.below(5040)));
    }
    Script { id: if k == 0 { ROOT } else { 100 * k as u32 }, mark, loads, plans, ops, version }
}

struct Root {
    sc: Script,
    vm: Option<Vm>,
    at: usize,
    loaded: usize,
    tick: bool,
    fetches: Vec<Call>,
    going: Vec<Going>,
    live: Vec<usize>,
    log: Vec<String>,
}
impl Root {
    fn new(sc: &Script) -> Root {
        Root { sc: sc.clone(), vm: None, at: 0, loaded: 0, tick: false, fetches: vec![], going: vec![], live: vec![], log: vec![] }
    }
    fn say(&mut self, what: &str, from: usize) -> Res {
        let id = self.sc.id;
        let evs: Vec<(u32, Ev)> = sim::with(|s| s.events[from..].to_vec());
        let mut out = vec![];
        for (c, e) in evs {
            if c != id {
                return fail("foreign-effect", format!("{what} of root {id} made {e:?} happen to {c}"));
            }
            out.push(match e {
                Ev::Call(c) => {
                    let m = Msg::decode(&c.message).unwrap_or_default();
                    let mut asked: Vec<_> = m.msgs(1).iter().map(|s| (s.get_s(1), s.get_s(2))).collect();
                    asked.sort();
                    let t = format!("fetch {} {} {} {asked:?} {:?}", c.upstream, c.service, c.method, c.timeout);
                    self.fetches.push(c);
                    t
                }
                Ev::Metric(id, d) => format!("{} {d:+}", sim::metric_name(id)),
                Ev::TickPeriod(d) => {
                    self.tick = !d.is_zero();
                    format!("tick every {d:?}")
                }
                e => crate::pipe::short(&e),
            });
        }
        self.log.push(format!("{what} {out:?}"));
        Ok(())
    }
    /// One more step of this root; false when its script is over.
    fn step(&mut self, first: bool) -> Result<bool, Fail> {
        let from = if self.vm.is_none() && first { 0 } else { sim::with(|s| s.events.len()) };
        if self.vm.is_none() {
            if first {
                sim::with(|s| s.reset());
            }
            self.vm = Some(Vm::another(self.sc.id));
        }
        let Some(&(op, c)) = self.sc.ops.get(self.at) else {
            // first its streams go, then the root itself
            self.going.clear();
            self.vm = None;
            return Ok(false);
        };
        self.at += 1;
        let c = c as usize;
        let vm = self.vm.as_mut().unwrap();
        match op {
            LOAD => {
                let (cfg, good) = &self.sc.loads[self.loaded % self.sc.loads.len()];
                self.loaded += 1;
                let (ok, _) = vm.configure(cfg.to_string().into_bytes());
                ensure!(ok == *good, "accept", "accepted {ok}: {cfg}");
                self.say(&format!("load {ok}"), from)?;
            }
            TICK => {
                if !self.tick {
                    return Ok(true);
                }
                vm.tick();
                self.say("tick", from)?;
            }
            FETCHED => {
                if self.fetches.is_empty() {
                    return Ok(true);
                }
                let f = self.fetches.remove(c % self.fetches.len());
                let m = Msg::decode(&f.message).unwrap_or_default();
                if c % 7 == 0 {
                    vm.answer(f.token, 14, Ok(None), 0);
                    return self.say("fetch fails", from).map(|_| true);
                }
                let mut body = Msg::new();
                let mut asked: Vec<_> = m.msgs(1).iter().map(|s| (s.get_s(1), s.get_s(2))).collect();
                asked.sort();
                for (cl, svc) in &asked {
                    body = body.m(1, Msg::new().s(1, cl).s(2, svc).b(3, &fds("c0", self.sc.version, &[svc.as_str()], true)));
                }
                let b = body.encode();
                let n = b.len();
                vm.answer(f.token, 0, Ok(Some(b)), n);
                self.say("fetched", from)?;
            }
            OPEN => {
                if self.going.len() < self.sc.plans.len() {
                    let k = self.going.len();
                    self.going.push(Going::new(vm, self.sc.id * 10 + k as u32 + 1, &self.sc.plans[k]));
                    self.live.push(k);
                }
            }
            _ => {
                if !self.live.is_empty() {
                    let i = c % self.live.len();
                    if !self.going[self.live[i]].step()? {
                        self.live.remove(i);
                    }
                }
            }
        }
        Ok(true)
    }
    fn lines(&self, kept: &[String]) -> Vec<String> {
        self.log.iter().chain(kept).cloned().collect()
    }
}

/// Runs it to the end; what it did itself, and what was done for its requests.
fn finish(r: &mut Root, kept: &mut Vec<String>, first: bool) -> Result<bool, Fail> {
    let logs: Vec<String> = if r.at == r.sc.ops.len() {
        r.going.iter().enumerate().flat_map(|(i, g)| g.log.iter().map(move |l| format!("request {i}: {l}"))).collect()
    } else {
        vec![]
    };
    let more = r.step(first)?;
    if !more {
        *kept = logs;
    }
    Ok(more)
}

fn c28(s: &mut Src, o: &mut Obs) -> Res {
    let n = if s.chance(1, 4) { 3 } else { 2 };
    let scripts: Vec<Script> = (0..n).map(|k| script(s, o, k)).collect();
    let mut alone = vec![];
    for sc in &scripts {
        let (mut r, mut kept) = (Root::new(sc), vec![]);
        while finish(&mut r, &mut kept, true)? {}
        alone.push(r.lines(&kept));
    }
    let mut roots: Vec<(Root, Vec<String>)> = scripts.iter().map(|sc| (Root::new(sc), vec![])).collect();
    let mut live: Vec<usize> = (0..n).collect();
    let mut order = vec![];
    let mut together = false;
    while !live.is_empty() {
        let k = s.n(live.len());
        let i = live[k];
        together |= live.iter().filter(|j| roots[**j].0.at > 1).count() > 1;
        let (r, kept) = &mut roots[i];
        // the VM starts with the first of them
        let more = finish(r, kept, order.is_empty())?;
        order.push(i);
        if !more {
            live.remove(k);
        }
    }
    let info = || format!("order {order:?}\n{scripts:#?}");
    let mut busy = 0;
    for (i, (r, kept)) in roots.iter().enumerate() {
        o.checks += 1;
        let log = r.lines(kept);
        if let Some(k) = (0..log.len().max(alone[i].len())).find(|k| log.get(*k) != alone[i].get(*k)) {
            return fail("differs", format!("root {i} alone: {:?}\nin company:   {:?}\n{}", alone[i].get(k), log.get(k), info()));
        }
        for (j, other) in scripts.iter().enumerate().filter(|x| x.0 != i) {
            let marks = other.plans.iter().map(|p| &p.mark).chain([&other.mark]);
            for m in marks {
                if let Some(l) = log.iter().find(|l| l.contains(m.as_str())) {
                    return fail("leak", format!("root {i} shows {m} of root {j}: {l}\n{}", info()));
                }
            }
        }
        // as the descriptors say that it was given itself
        for l in log.iter().filter(|l| l.contains(" p.A Do ") || l.contains(" p.B Do ")) {
            let own = format!("[({}, Len(", r.sc.version);
            ensure!(log.iter().any(|l| l.starts_with("fetched")), "no-descriptors", "root {i} was given no descriptors: {l}\n{}", info());
            ensure!(l.contains(&own), "encoding", "root {i} has descriptors of version {}: {l}\n{}", r.sc.version, info());
        }
        let has = |x: &str| log.iter().any(|l| l.contains(x));
        busy += usize::from(has("call ") || has(&r.sc.mark));
        for (x, l) in [("fetched", "descriptors-fetched"), ("load false", "refused-configuration"), (" p.A Do", "dynamic-call"), (" p.B Do", "dynamic-call"), ("Reply(", "with-reply")] {
            if has(x) {
                o.label(l);
            }
        }
    }
    o.nontrivial = together && busy > 1;
    if together {
        o.label("together");
    }
    o.sample = Some(format!("order {order:?}: {:?}", alone.iter().map(|l| l.iter().take(12).collect::<Vec<_>>()).collect::<Vec<_>>()));
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C28",
        run: c28,
        quick: 2_000,
        thorough: 200_000,
        rule: "at least two root contexts were alive together and did something for a request each",
        assumptions: &["the host gives every root and HTTP context an id of its own and makes one callback at a time", "tracing is off"],
    }]
}

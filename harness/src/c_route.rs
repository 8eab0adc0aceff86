//! C07: which action set a request is routed to.
use crate::env::*;
use crate::fw::*;
use proxy_wasm::sim::Prop;
use proxy_wasm::types::Action;
use serde_json::{json, Value as J};

#[derive(Clone, Debug)]
enum P {
    Method(&'static str),
    PathIs(&'static str),
    Prefix(&'static str),
    HostIs(String),
    Has(&'static str),
    Header(&'static str, &'static str),
    Not(Box<P>),
    Or(Box<P>, Box<P>),
    NotBool,
    Const(bool),
}
impl P {
    fn cel(&self) -> String {
        match self {
            P::Method(m) => format!("request.method == '{m}'"),
            P::PathIs(m) => format!("request.path == '{m}'"),
            P::Prefix(m) => format!("request.url_path.startsWith('{m}')"),
            P::HostIs(m) => format!("request.host == '{m}'"),
            P::Has(h) => format!("'{h}' in request.headers"),
            P::Header(h, v) => format!("request.headers['{h}'] == '{v}'"),
            P::Not(p) => format!("!({})", p.cel()),
            P::Or(a, b) => format!("({}) || ({})", a.cel(), b.cel()),
            P::NotBool => "request.path".into(),
            P::Const(b) => b.to_string(),
        }
    }
    /// None: cannot be evaluated
    fn eval(&self, r: &R) -> Option<bool> {
        Some(match self {
            P::Method(m) => r.method == *m,
            P::PathIs(m) => r.path == *m,
            P::Prefix(m) => r.path.split('?').next().unwrap().starts_with(m),
            P::HostIs(m) => r.host == *m,
            P::Has(h) => r.headers.iter().any(|x| x.0 == *h),
            P::Header(h, v) => r.headers.iter().find(|x| x.0 == *h)?.1 == *v,
            P::Not(p) => !p.eval(r)?,
            P::Or(a, b) => match (a.eval(r), b.eval(r)) {
                (Some(true), _) | (_, Some(true)) => true,
                (Some(a), Some(b)) => a || b,
                _ => return None,
            },
            P::NotBool => return None,
            P::Const(b) => *b,
        })
    }
}
#[derive(Clone, Debug)]
struct R {
    host: String,
    has_host: bool,
    method: &'static str,
    path: &'static str,
    headers: Vec<(&'static str, &'static str)>,
}
#[derive(Clone, Debug)]
struct Set {
    hosts: Vec<String>,
    preds: Vec<P>,
    empty: bool,
}

const LABELS: &[&str] = &["com", "a", "b", "ab", "x-a", "ba", "k"];
const PATHS: &[&str] = &["/", "/a", "/a/b", "/a?q=/b", "/b"];
const METHODS: &[&str] = &["GET", "POST"];
const HDRS: &[&str] = &["x-k", "x-l"];
const VALS: &[&str] = &["v", "w"];

fn mix(s: &mut Src, h: String) -> String {
    if s.chance(1, 4) {
        h.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect()
    } else {
        h
    }
}
fn labels(s: &mut Src, max: usize) -> Vec<&'static str> {
    (0..s.range(1, max)).map(|_| *s.pick(LABELS)).collect()
}
fn hostname(s: &mut Src) -> String {
    let h = match s.below(12) {
        0 => "*".to_string(),
        1..=5 => format!("*.{}", labels(s, 2).join(".")),
        _ => labels(s, 3).join("."),
    };
    mix(s, h)
}
fn pred(s: &mut Src, depth: usize, host: &str) -> P {
    match s.below(if depth == 0 { 10 } else { 13 }) {
        0 | 1 => P::Const(true),
        2 => P::Method(*s.pick(METHODS)),
        3 => P::PathIs(*s.pick(PATHS)),
        4 | 5 => P::Prefix(*s.pick(&["/", "/a", "/a/", "/b"])),
        6 => P::HostIs(host.to_string()),
        7 => P::Has(*s.pick(HDRS)),
        8 => P::Header(*s.pick(HDRS), *s.pick(VALS)),
        9 => if s.chance(1, 6) { P::NotBool } else { P::Const(false) },
        10 => P::Not(Box::new(pred(s, depth - 1, host))),
        _ => P::Or(Box::new(pred(s, depth - 1, host)), Box::new(pred(s, depth - 1, host))),
    }
}

/// Does `pattern` cover `host`, and how specific is it?
fn covers(pattern: &str, host: &str) -> Option<(usize, bool)> {
    let p = pattern.to_ascii_lowercase();
    if let Some(suffix) = p.strip_prefix('*') {
        // suffix is "" or ".x.y"
        if host.len() > suffix.len() && host.ends_with(suffix) {
            return Some((suffix.len(), false));
        }
        None
    } else if p == host {
        Some((host.len(), true))
    } else {
        None
    }
}

#[derive(Debug, PartialEq)]
enum Want {
    Set(usize),
    Nothing,
    Error,
}

fn model(sets: &[Set], r: &R) -> (Want, bool) {
    if !r.has_host {
        return (Want::Error, true);
    }
    let host = r.host.split(':').next().unwrap().to_ascii_lowercase();
    let best = sets.iter().flat_map(|s| &s.hosts).filter_map(|h| covers(h, &host)).max();
    let Some(best) = best else { return (Want::Nothing, false) };
    let mut competing = 0;
    for (i, s) in sets.iter().enumerate() {
        if !s.hosts.iter().any(|h| covers(h, &host) == Some(best)) {
            continue;
        }
        competing += 1;
        let mut all = true;
        for p in &s.preds {
            match p.eval(r) {
                None => return (Want::Error, true),
                Some(false) => {
                    all = false;
                    break;
                }
                Some(true) => {}
            }
        }
        if all {
            return (Want::Set(i), competing > 1);
        }
    }
    (Want::Nothing, competing > 0)
}

fn run(s: &mut Src, o: &mut Obs) -> Res {
    let mut pool: Vec<String> = vec![];
    let mut sets = vec![];
    // at times one host and a rule after the other that does not hold
    let crowd = s.chance(1, 40);
    for _ in 0..if crowd { s.range(10, 60) } else { 1 + s.count(5, 40) } {
        let mut hosts = vec![];
        for _ in 0..1 + if crowd { 0 } else { s.count(2, 40) } {
            if crowd && !pool.is_empty() {
                hosts.push(pool[0].clone());
            } else if !pool.is_empty() && s.chance(1, 3) {
                let h = s.pick(&pool).clone();
                hosts.push(mix(s, h));
            } else {
                let h = hostname(s);
                pool.push(h.to_ascii_lowercase());
                hosts.push(h);
            }
        }
        let ph = if pool.is_empty() { "a.com".into() } else { s.pick(&pool).trim_start_matches('*').trim_start_matches('.').to_string() };
        let mut preds: Vec<P> = (0..s.count(3, 40)).map(|_| pred(s, 2, &ph)).collect();
        if crowd && !s.chance(1, 12) {
            preds.push(P::Const(false));
        }
        sets.push(Set { hosts, preds, empty: s.chance(1, 12) });
    }
    // the name of a set means nothing
    let alike = s.chance(1, 4);
    let ident = s.chance(1, 8);
    let mut cfg = json!({"services": {}, "actionSets": sets.iter().enumerate().map(|(i, x)| json!({
        "name": if alike { "set".to_string() } else { format!("set-{i}") },
        "routeRuleConditions": {"hostnames": x.hosts, "predicates": x.preds.iter().map(|p| p.cel()).collect::<Vec<_>>()},
        "actions": if x.empty { json!([]) } else { json!([{"type": "deny", "predicate": "true", "terminal": true, "denyWith": format!("DenyResponse {{ status: {}u }}", 400 + i)}]) },
    })).collect::<Vec<J>>()});
    if ident {
        cfg["observability"] = json!({"httpHeaderIdentifier": "x-request-id"});
    }
    let Some(vm) = Vm::new(&cfg) else { return fail("config-refused", format!("configuration refused: {cfg}")) };
    let mut id = 10;
    for _ in 0..s.range(1, 5) {
        id += 1;
        let base = if s.chance(3, 4) {
            let p = s.pick(&pool).clone();
            match p.strip_prefix('*') {
                Some(suf) => format!("{}{}", labels(s, 2).join("."), suf),
                None => p,
            }
        } else {
            labels(s, 3).join(".")
        };
        let mut host = mix(s, base);
        if s.chance(1, 20) {
            // no name of ours, though much like one
            host = host.replace('k', "\u{212a}").replace('a', "\u{ff41}");
        }
        if s.chance(1, 4) {
            host.push_str(*s.pick(&[":80", ":8443", ":"]));
        }
        let r = R {
            host,
            has_host: !s.chance(1, 25),
            method: *s.pick(METHODS),
            path: *s.pick(PATHS),
            headers: HDRS.iter().filter_map(|h| if s.chance(2, 3) { Some((*h, *s.pick(VALS))) } else { None }).collect(),
        };
        let mut st = stream(&r.host, r.path, r.method, &r.headers);
        if !r.has_host {
            st.props.insert(vec!["request".into(), "host".into()], Prop::Absent);
        }
        let mut q = vm.open(id, st);
        let step = q.headers(true);
        let (want, nt) = model(&sets, &r);
        o.checks += 1;
        o.nontrivial |= nt;
        let replies = step.replies();
        let ctx = || format!("request {r:?}\nconfiguration {cfg}");
        let got = match replies.len() {
            0 => Want::Nothing,
            1 => match replies[0].0 {
                500 => Want::Error,
                n => Want::Set(n as usize - 400),
            },
            n => return fail("several-replies", format!("{n} replies\n{}", ctx())),
        };
        let want = match want {
            Want::Set(i) if sets[i].empty => {
                o.label("selected-set-without-actions");
                Want::Nothing
            }
            w => w,
        };
        o.label(match want {
            Want::Set(_) => "routed",
            Want::Nothing => "no-match",
            Want::Error => "cannot-be-evaluated",
        });
        ensure!(got == want, "route", "observed {got:?}, expected {want:?}\n{}", ctx());
        if want == Want::Error {
            ensure!(
                replies[0].2.as_deref() == Some(b"Internal Server Error.\n") && step.metric("kuadrant.errors") == 1,
                "route-error", "reply {:?}, errors +{}\n{}", replies[0], step.metric("kuadrant.errors"), ctx()
            );
        }
        if want == Want::Nothing {
            ensure!(step.action == Some(Action::Continue), "route-held", "an unrouted request is held\n{}", ctx());
        }
        if !ident && step.metric("kuadrant.hits") + step.metric("kuadrant.misses") > 1 {
            return fail("route-metrics", format!("counted twice\n{}", ctx()));
        }
        if ident && want == Want::Nothing {
            // the requests of a configured hostname are identified to the client, whether or not a set governs them
            let host = r.host.split(':').next().unwrap().to_ascii_lowercase();
            let known = sets.iter().flat_map(|x| &x.hosts).any(|h| covers(h, &host).is_some());
            q.enter_response(200, &[]);
            q.resp_headers(true);
            let shown = q.sim(|x| x.resp_headers.iter().filter(|h| h.0 == "x-request-id").count());
            o.label(if known { "identified-without-a-set" } else { "unknown-host" });
            ensure!(shown == usize::from(known), "route-identifier", "{shown} identifiers are shown on the response, hostname configured: {known}\n{}", ctx());
        }
        if o.nontrivial {
            o.sample = Some(format!("{r:?} -> {want:?} among {:?}", sets.iter().map(|x| (&x.hosts, x.preds.iter().map(|p| p.cel()).collect::<Vec<_>>())).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C07",
        run,
        quick: 60_000,
        thorough: 4_000_000,
        rule: "several action sets competed for a request's most specific hostname, or its host or a predicate could not be evaluated, or a matching hostname's predicates were false",
        assumptions: &["hosts are names, optionally with a port; hostnames are exact names, '*.<suffix>' or '*'"],
    }]
}

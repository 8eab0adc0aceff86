//! Legacy rate limit actions: what is sent (C08) and what the answer does (C09).
use crate::env::*;
use crate::fw::*;
use crate::gen::*;
use crate::wire::Msg;
use proxy_wasm::types::MapType;
use serde_json::{json, Value as J};

#[derive(Clone, Debug)]
pub enum Item {
    Static(String, String),
    Expr(String, String, Ev<V>),
}
#[derive(Clone, Debug)]
pub struct Block {
    preds: Vec<(String, Ev<bool>)>,
    items: Vec<Item>,
}
#[derive(Clone, Debug)]
struct Act {
    svc: usize,
    scope: String,
    preds: Vec<(String, Ev<bool>)>,
    blocks: Vec<Block>,
    uses_body: bool,
}
#[derive(Clone, Debug)]
struct Svc {
    ty: &'static str,
    allow: bool,
}
/// (domain, descriptors, hits)
type Want = (String, Vec<Vec<(String, String)>>, u64);

fn j_preds(p: &[(String, Ev<bool>)]) -> J {
    J::from(p.iter().map(|x| x.0.clone()).collect::<Vec<_>>())
}
fn j_item(i: &Item) -> J {
    match i {
        Item::Static(k, v) => json!({"static": {"key": k, "value": v}}),
        Item::Expr(k, e, _) => json!({"expression": {"key": k, "value": e}}),
    }
}
fn j_act(a: &Act) -> J {
    let mut o = json!({"service": format!("s{}", a.svc), "scope": a.scope});
    if !a.preds.is_empty() {
        o["predicates"] = j_preds(&a.preds);
    }
    if !a.blocks.is_empty() {
        o["conditionalData"] = J::from(
            a.blocks
                .iter()
                .map(|b| {
                    let mut o = json!({"data": b.items.iter().map(j_item).collect::<Vec<_>>()});
                    if !b.preds.is_empty() {
                        o["predicates"] = j_preds(&b.preds);
                    }
                    o
                })
                .collect::<Vec<_>>(),
        );
    }
    o
}

const KEYS: &[&str] = &["user", "limit.abc__1", "a key", "q\"uote", "back\\slash", "ключ", "tab\there", "k", "ratelimit.tier", "ratelimit.domain.x", "ratelimit", "xratelimit.domain", "RATELIMIT.DOMAIN", "ratelimit.hits_addend_x", "domain", "hits_addend", ""];

/// The values of a response body, for expressions over it.
const BODY_DATA: &[&str] = &["responseBodyJSON('/usage/total_tokens')", "responseBodyJSON ('/usage/total_tokens')", "responseBodyJSON( \"/usage/total_tokens\" )"];
#[derive(Clone, Debug)]
struct Body {
    tokens: u64,
    model: String,
}
fn value(s: &mut Src, r: &Rq, body: Option<&Body>, err: u64) -> (String, Ev<V>) {
    if let Some(b) = body {
        if s.chance(1, 4) {
            return if s.bool() {
                (s.pick(BODY_DATA).to_string(), Ok(V::U(b.tokens)))
            } else {
                ("responseBodyJSON('/model')".into(), Ok(V::S(b.model.clone())))
            };
        }
    }
    if s.chance(1, 12) {
        let l = "responseBodyJSON('/model')";
        return (format!("\"{l}\""), Ok(V::S(l.into())));
    }
    scalar(s, r, 2, err)
}
fn reads_body(e: &str) -> bool {
    e.starts_with("responseBodyJSON")
}
fn hits(s: &mut Src, r: &Rq, body: Option<&Body>) -> Item {
    let k = "ratelimit.hits_addend".to_string();
    if body.is_some() && s.chance(1, 2) {
        return Item::Expr(k, "responseBodyJSON('/usage/total_tokens')".into(), Ok(V::U(body.unwrap().tokens)));
    }
    match s.below(if body.is_some() { 4 } else { 7 }) {
        0 => {
            let n = s.below(20);
            Item::Static(k, n.to_string())
        }
        1 => {
            let n = *s.pick(&[0u64, 1, 7, u32::MAX as u64, u32::MAX as u64 + 1, (1 << 32) + 5, u64::MAX]);
            Item::Expr(k, format!("{n}u"), Ok(V::U(n)))
        }
        2 => Item::Expr(k, "size(request.path)".into(), Ok(V::I(r.path.chars().count() as i64))),
        4 => Item::Expr(k, "0 - 1".into(), Err(())),
        3 => {
            let (c, cv) = boolean(s, r, 1, 0);
            Item::Expr(k, format!("({c}) ? 3 : 5"), cv.map(|c| V::I(if c { 3 } else { 5 })))
        }
        5 => {
            let n = s.below(50) as i64;
            Item::Expr(k, format!("{n} + 2"), Ok(V::I(n + 2)))
        }
        _ => Item::Expr(k, "request.headers['absent']".into(), Err(())),
    }
}
fn item(s: &mut Src, r: &Rq, body: Option<&Body>) -> Item {
    let k = s.pick(KEYS).to_string();
    if s.chance(1, 3) {
        let v = s.string(WILD, 6);
        Item::Static(k, v)
    } else {
        // with body values at hand, when exactly an error strikes is not specified
        let err = if body.is_none() && s.chance(1, 5) { 2 } else { 0 };
        let (e, v) = value(s, r, body, err);
        Item::Expr(k, e, v)
    }
}
fn num(v: &Ev<V>) -> Ev<u64> {
    match v.clone()? {
        V::I(i) => u64::try_from(i).map_err(|_| ()),
        V::U(u) => Ok(u),
        _ => Err(()),
    }
}

fn conditions(a: &Act) -> Ev<bool> {
    let cond = if a.blocks.iter().any(|b| b.preds.is_empty()) || a.blocks.is_empty() {
        Ok(true)
    } else {
        any_of(&a.blocks.iter().map(|b| all_of(&b.preds.iter().map(|p| p.1).collect::<Vec<_>>())).collect::<Vec<_>>())
    };
    all_of(&[all_of(&a.preds.iter().map(|p| p.1).collect::<Vec<_>>()), cond])
}

/// What must be sent for an action: Ok(None) nothing (its conditions do not hold), Err when it fails.
fn expect(a: &Act, data: &[(String, String, String, Ev<V>)], report: bool) -> Ev<Option<Want>> {
    if !conditions(a)? {
        return Ok(None);
    }
    let mut domain = a.scope.clone();
    let mut hits = 1u64;
    let (mut seen_d, mut seen_h) = (false, false);
    let mut first = vec![];
    for b in &a.blocks {
        let known = |i: &Item| matches!(i, Item::Static(k, _) | Item::Expr(k, _, _) if k == "ratelimit.domain" || k == "ratelimit.hits_addend");
        for i in b.items.iter().filter(|i| known(i)) {
            match i {
                Item::Static(k, v) if k == "ratelimit.domain" && !seen_d => {
                    domain = v.clone();
                    seen_d = true;
                }
                Item::Expr(k, _, v) if k == "ratelimit.domain" && !seen_d => {
                    domain = match v.clone()? {
                        V::S(s) => s,
                        _ => return Err(()),
                    };
                    seen_d = true;
                }
                Item::Static(k, v) if k == "ratelimit.hits_addend" && !seen_h => {
                    hits = v.parse().map_err(|_| ())?;
                    seen_h = true;
                }
                Item::Expr(k, _, v) if k == "ratelimit.hits_addend" && !seen_h => {
                    hits = num(v)?;
                    seen_h = true;
                }
                _ => {}
            }
        }
        let entries: Vec<&Item> = b.items.iter().filter(|i| !known(i)).collect();
        if entries.is_empty() || !all_of(&b.preds.iter().map(|p| p.1).collect::<Vec<_>>())? {
            continue;
        }
        for i in entries {
            match i {
                Item::Static(k, v) => first.push((k.clone(), v.clone())),
                Item::Expr(k, _, v) => first.push((k.clone(), v.clone()?.text()?)),
            }
        }
    }
    let mut second = vec![];
    for (d, f, e, v) in data {
        if !report && reads_body(e) {
            continue;
        }
        let k = if d.is_empty() || d == "metrics.labels" { f.clone() } else { format!("{d}.{f}") };
        second.push((k, v.clone()?.text()?));
    }
    if hits > u32::MAX as u64 {
        return Err(());
    }
    Ok(Some((domain, [first, second].into_iter().filter(|d| !d.is_empty()).collect(), hits)))
}

fn got(b: &[u8]) -> Option<Want> {
    let m = Msg::decode(b)?;
    if m.0.iter().any(|f| !(1..=3).contains(&f.0)) {
        return None;
    }
    let ds = m
        .msgs(2)
        .iter()
        .map(|d| d.msgs(1).iter().map(|e| (e.get_s(1), e.get_s(2))).collect::<Vec<_>>())
        .filter(|d| !d.is_empty())
        .collect();
    Some((m.get_s(1), ds, m.get_v(3)))
}

const TYPES: &[&str] = &["ratelimit", "ratelimit-check", "ratelimit-report"];
fn target(ty: &str) -> (&'static str, &'static str) {
    match ty {
        "ratelimit" => ("envoy.service.ratelimit.v3.RateLimitService", "ShouldRateLimit"),
        "ratelimit-check" => ("kuadrant.service.ratelimit.v1.RateLimitService", "CheckRateLimit"),
        _ => ("kuadrant.service.ratelimit.v1.RateLimitService", "Report"),
    }
}

fn c08(s: &mut Src, o: &mut Obs) -> Res {
    let r = Rq::gen(s);
    let with_body = s.chance(1, 3);
    let body = Body { tokens: s.below(5000), model: s.pick(&["gpt", "m-1", "é"]).to_string() };
    let svcs: Vec<Svc> = (0..3).map(|i| Svc { ty: TYPES[i], allow: s.bool() }).collect();
    // requestData
    let mut data: Vec<(String, String, String, Ev<V>)> = vec![];
    for _ in 0..s.count(3, 60) {
        let d = s.pick(&["", "metrics.labels", "metrics.labels.x", "auth.identity", "a", "b"]).to_string();
        let f = if s.chance(1, 4) { format!("f{}x", s.n(60)) } else { s.pick(&["user", "zed", "alpha", "k9k", "é", "ключ", "q\"uote", "日本"]).to_string() };
        if data.iter().any(|x| x.0 == d && x.1 == f) {
            continue;
        }
        let err = if !with_body && s.chance(1, 8) { 2 } else { 0 };
        let (e, v) = value(s, &r, if with_body { Some(&body) } else { None }, err);
        data.push((d, f, e, v));
    }
    data.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
    let data_has_body = data.iter().any(|d| reads_body(&d.2));
    let mut acts = vec![];
    let n = s.range(1, 3);
    for i in 0..n {
        let last = i + 1 == n;
        // an action that needs the response body is the last one, and is a report
        let svc = if with_body && last { 2 } else if data_has_body { s.n(2) } else { s.n(3) };
        let b = if with_body && last { Some(&body) } else { None };
        let pe = if s.chance(1, 6) { 1 } else { 0 };
        let preds = (0..s.range(0, 2)).map(|_| boolean(s, &r, 2, pe)).collect();
        let mut blocks = vec![];
        let (mut domain_given, mut hits_given) = (false, false);
        let many = s.count(3, 30);
        for _ in 0..many {
            let mut preds: Vec<_> = (0..s.range(0, 2)).map(|_| boolean(s, &r, 2, pe)).collect();
            if many > 4 && s.chance(7, 8) {
                preds.push(("request.path == '/never'".into(), Ok(false)));
            }
            let mut items: Vec<Item> = (0..s.count(3, 40)).map(|_| item(s, &r, b)).collect();
            if preds.is_empty() {
                if !domain_given && s.chance(1, 4) {
                    domain_given = true;
                    let d = if s.bool() {
                        Item::Static("ratelimit.domain".into(), s.string(WILD, 4))
                    } else {
                        Item::Expr("ratelimit.domain".into(), "request.host + '/d'".into(), Ok(V::S(format!("{}/d", r.host))))
                    };
                    items.push(d);
                }
                if !hits_given && s.chance(1, 3) {
                    hits_given = true;
                    let h = hits(s, &r, b);
                    let at = s.n(items.len() + 1);
                    items.insert(at, h);
                }
            }
            blocks.push(Block { preds, items });
        }
        let uses_body = data_has_body && svc == 2 || blocks.iter().any(|b| b.items.iter().any(|i| matches!(i, Item::Expr(_, e, _) if reads_body(e))));
        acts.push(Act { svc, scope: s.string(WILD, 4), preds, blocks, uses_body });
    }
    let cfg = json!({
        "services": svcs.iter().enumerate().map(|(i, v)| (format!("s{i}"), json!({"type": v.ty, "endpoint": format!("cluster-{i}"), "timeout": "10ms", "failureMode": if v.allow { "allow" } else { "deny" }}))).collect::<serde_json::Map<_, _>>(),
        "requestData": data.iter().map(|(d, f, e, _)| (if d.is_empty() { f.clone() } else { format!("{d}.{f}") }, json!(e))).collect::<serde_json::Map<_, _>>(),
        "actionSets": [{"name": "set", "routeRuleConditions": {"hostnames": ["api.example.com"]}, "actions": acts.iter().map(j_act).collect::<Vec<_>>()}],
    });
    let ctx = || format!("request {r:?} body {body:?}\nconfiguration {cfg:#}");
    let Some(vm) = Vm::new(&cfg) else { return fail("config-refused", format!("refused: {cfg:#}")) };
    let mut q = vm.open(11, r.stream());
    let mut evs = q.headers(true);
    let mut in_response = false;
    let mut sample = vec![];
    for (i, a) in acts.iter().enumerate() {
        let want = expect(a, &data, a.svc == 2);
        if a.uses_body && !in_response && conditions(a) == Ok(true) {
            in_response = true;
            ensure!(evs.calls().is_empty() && evs.replies().is_empty(), "too-early", "action {i} acted before the response body was known: {:?}\n{}", evs.events, ctx());
            q.enter_response(200, &[("content-type".into(), "application/json".into())]);
            q.resp_headers(false);
            let b = json!({"model": body.model, "usage": {"total_tokens": body.tokens}}).to_string();
            let cut = s.n(b.len() + 1);
            let mid = q.resp_body(&b.as_bytes()[..cut], false);
            ensure!(mid.calls().is_empty(), "too-early", "a call was made in the middle of the response body\n{}", ctx());
            evs = q.resp_body(&b.as_bytes()[cut..], true);
        }
        o.checks += 1;
        match want {
            Ok(None) => o.label("conditions-false"),
            Err(()) => {
                o.label("cannot-be-built");
                o.nontrivial = true;
                ensure!(svcs[a.svc].allow || evs.calls().is_empty(), "sent-although-unbuildable", "action {i} cannot be built, yet a call was made: {:?}\n{}", evs.calls()[0].message, ctx());
                ensure!(evs.metric("kuadrant.errors") >= 1, "no-error", "action {i} failed without an error being counted\n{}", ctx());
                if !svcs[a.svc].allow {
                    let rep = evs.replies();
                    ensure!(rep.len() == 1 && rep[0].0 == 500, "no-500", "action {i} failed: expected a reply 500, observed {rep:?}\n{}", ctx());
                    return Ok(());
                }
                // the next action, if any, acts in the same step
                continue;
            }
            Ok(Some(w)) => {
                let calls = evs.calls();
                ensure!(evs.replies().is_empty(), "replied", "unexpected reply {:?} (action {i} should send {w:?})\n{}", evs.replies(), ctx());
                ensure!(calls.len() == 1, "call-count", "{} calls where action {i} should send {w:?}\n{}", calls.len(), ctx());
                let c = calls[0].clone();
                let (sv, me) = target(svcs[a.svc].ty);
                ensure!(c.upstream == format!("cluster-{}", a.svc) && c.service == sv && c.method == me && c.timeout == std::time::Duration::from_millis(10),
                    "call-target", "action {i}: called {} {} {} {:?}\n{}", c.upstream, c.service, c.method, c.timeout, ctx());
                let Some(g) = got(&c.message) else { return fail("undecodable", format!("message {:?}\n{}", c.message, ctx())) };
                if g != w {
                    let part = if g.0 != w.0 { "domain" } else if g.2 != w.2 { "hits" } else { "descriptors" };
                    return fail(format!("message-{part}"), format!("action {i}\n observed {g:?}\n expected {w:?}\n{}", ctx()));
                }
                o.label(if w.1.is_empty() { "sent-without-descriptors" } else { "sent" });
                o.nontrivial |= !w.1.is_empty() && !a.blocks.is_empty();
                if a.uses_body {
                    o.label("sent-with-body-values");
                }
                sample.push(format!("{w:?}"));
                evs = q.ok(c.token, Msg::new().v(1, 1).encode());
                continue;
            }
        }
    }
    ensure!(evs.calls().is_empty() && evs.replies().is_empty(), "extra", "unexpected calls or replies at the end: {:?}\n{}", evs.events, ctx());
    if o.nontrivial {
        o.sample = Some(format!("actions {} -> {}", json!(acts.iter().map(j_act).collect::<Vec<_>>()), sample.join(" ; ")));
    }
    Ok(())
}

// ---------------------------------------------------------------- C09
#[derive(Clone, Debug)]
enum Ans {
    Code(u64, Vec<(String, String)>),
    Status(u32),
    Garbage,
    NoBody,
}
/// The names an answer sets; those of different actions are disjoint (their relative order is not specified).
const HN: &[&[&str]] = &[&["x-limit", "x-up"], &["x-ratelimit-remaining", "content-type"], &["retry-after", "x-a"], &["x-b"]];
fn ans(s: &mut Src, i: usize) -> Ans {
    match s.below(10) {
        7 => Ans::Status(crate::pipe::any_status(s)),
        8 => Ans::Garbage,
        9 => Ans::NoBody,
        k => {
            let code = if k < 4 { 1 } else if k == 4 { 2 } else if k == 5 { *s.pick(&[0, 3, 4, 1000, i32::MAX as u64]) } else { 1 };
            let mut h: Vec<(String, String)> = (0..s.count(3, 60)).map(|_| (if s.chance(1, 6) { format!("x-n{i}-{}", s.n(60)) } else { s.pick(HN[i]).to_string() }, s.string(&["a", "1", " ", ",", ";", "é", "\""], 3))).collect();
            if code == 0 && h.is_empty() {
                // an empty message is not delivered by the host
                h.push(("x-limit".into(), "0".into()));
            }
            Ans::Code(code, h)
        }
    }
}
fn set_all(m: &mut Vec<(String, String)>, add: &[(String, String)]) {
    for (k, v) in add {
        m.retain(|x| x.0 != *k);
        m.push((k.clone(), v.clone()));
    }
}

fn c09(s: &mut Src, o: &mut Obs) -> Res {
    let svcs: Vec<Svc> = (0..3).map(|i| Svc { ty: TYPES[i], allow: s.bool() }).collect();
    let acts: Vec<usize> = (0..s.range(1, 4)).map(|_| *s.pickw(&[(3, 0usize), (3, 1), (2, 2)])).collect();
    let cfg = json!({
        "services": svcs.iter().enumerate().map(|(i, v)| (format!("s{i}"), json!({"type": v.ty, "endpoint": format!("cluster-{i}"), "failureMode": if v.allow { "allow" } else { "deny" }}))).collect::<serde_json::Map<_, _>>(),
        "actionSets": [{"name": "set", "routeRuleConditions": {"hostnames": ["*"]}, "actions": acts.iter().enumerate().map(|(i, a)| json!({"service": format!("s{a}"), "scope": format!("scope-{i}")})).collect::<Vec<_>>()}],
    });
    let Some(vm) = Vm::new(&cfg) else { return fail("config-refused", format!("refused: {cfg:#}")) };
    let mut q = vm.open(11, stream("api.example.com", "/", "GET", &[("x-in", "1")]));
    let mut st = q.headers(true);
    let mut want: Vec<(String, String)> = vec![];
    let mut hist = vec![];
    let mut sets = vec![];
    for (i, a) in acts.iter().enumerate() {
        let calls = st.calls();
        ensure!(calls.len() == 1, "call-count", "{} calls, expected the one of action {i}\n{hist:?}\n{cfg:#}", calls.len());
        let c = calls[0].clone();
        ensure!(got(&c.message).map(|g| g.0) == Some(format!("scope-{i}")), "wrong-call", "expected the call of action {i}\n{hist:?}\n{cfg:#}");
        ensure!(q.sim(|s| s.req_headers.len()) == 4, "request-headers", "request headers changed");
        let an = ans(s, i);
        hist.push(format!("{} {:?}", svcs[*a].ty, an));
        o.checks += 1;
        st = match &an {
            Ans::Code(c0, h) => {
                let mut m = Msg::new();
                if *c0 != 0 || s.bool() {
                    m = m.v(1, *c0);
                }
                for (k, v) in h {
                    m = m.m(3, Msg::new().s(1, &crate::gen::cased(s, k)).s(2, v));
                }
                if m.0.is_empty() {
                    m = m.v(1, 0);
                }
                q.ok(c.token, m.encode())
            }
            Ans::Status(x) => q.answer(c.token, *x, Ok(None)),
            Ans::Garbage => q.ok(c.token, vec![0x0a, 0x7f, 0x01]),
            Ans::NoBody => q.answer(c.token, 0, Err(proxy_wasm::types::Status::InternalFailure)),
        };
        let (reply, err): (Option<(u32, Vec<(String, String)>, Vec<u8>)>, i64) = match &an {
            Ans::Code(..) if *a == 2 => (None, 0),
            Ans::Code(1, h) => {
                sets.push(h.clone());
                (None, 0)
            }
            Ans::Code(2, h) => (Some((429, h.clone(), b"Too Many Requests\n".to_vec())), 0),
            Ans::Code(..) => (Some((500, vec![], b"Internal Server Error.\n".to_vec())), 1),
            _ if svcs[*a].allow => (None, 1),
            _ => (Some((500, vec![], b"Internal Server Error.\n".to_vec())), 1),
        };
        ensure!(st.metric("kuadrant.errors") == err, "errors", "errors +{} after {an:?}, expected +{err}\n{hist:?}\n{cfg:#}", st.metric("kuadrant.errors"));
        match reply {
            Some((code, h, b)) => {
                o.label(format!("reply-{code}"));
                o.nontrivial = true;
                let rep = st.replies();
                ensure!(rep.len() == 1, "reply-count", "{} replies after {an:?}\n{hist:?}\n{cfg:#}", rep.len());
                eq("reply", &format!("reply after {hist:?}"), &(rep[0].0, crate::gen::lower(&rep[0].1), rep[0].2.clone()), &(code, h, Some(b)))?;
                ensure!(st.calls().is_empty() && st.resumed_req() == 0, "after-denial", "went on after the reply: {:?}\n{hist:?}", st.events);
                ensure!(st.metric("kuadrant.denied") == 1, "denied", "denied +{}\n{hist:?}", st.metric("kuadrant.denied"));
                o.sample = Some(format!("{hist:?}"));
                return Ok(());
            }
            None => {
                ensure!(st.replies().is_empty(), "replied", "unexpected reply {:?}\n{hist:?}\n{cfg:#}", st.replies());
            }
        }
    }
    ensure!(st.calls().is_empty(), "extra", "more calls than actions\n{hist:?}\n{cfg:#}");
    ensure!(acts == [2] || acts.iter().all(|a| *a == 2) || st.resumed_req() > 0, "held", "all calls answered and the request is not resumed\n{hist:?}\n{cfg:#}");
    // the response
    let up = [("content-type".to_string(), "text/plain".to_string()), ("x-up".into(), "1".into()), ("x-up".into(), "2".into())];
    let up: Vec<(String, String)> = up.into_iter().filter(|_| s.chance(2, 3)).collect();
    q.enter_response(200, &up);
    want.push((":status".into(), "200".into()));
    want.extend(up.iter().cloned());
    for h in &sets {
        set_all(&mut want, h);
    }
    let st = q.resp_headers(true);
    let mut have = q.sim(|s| s.resp_headers.clone());
    have.sort();
    want.sort();
    eq("response-headers", &format!("response headers after {hist:?} on {up:?}"), &have, &want)?;
    ensure!(q.sim(|s| s.req_headers.len()) == 4, "request-headers", "request headers changed");
    ensure!(st.replies().is_empty() && st.calls().is_empty(), "late", "unexpected effects in the response: {:?}", st.events);
    if sets.iter().any(|h| !h.is_empty()) {
        o.label("response-headers-set");
        o.nontrivial = true;
        o.sample = Some(format!("{hist:?} -> {have:?}"));
    }
    let _ = MapType::HttpRequestHeaders;
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![
        Check {
            id: "C08",
            run: c08,
            quick: 60_000,
            thorough: 3_000_000,
            rule: "a message with descriptors built from conditional data was compared, or the message could not be built",
            assumptions: &["ratelimit.domain and ratelimit.hits_addend are given in unconditional blocks", "requestData fields end in a name that contains a letter"],
        },
        Check {
            id: "C09",
            run: c09,
            quick: 60_000,
            thorough: 3_000_000,
            rule: "an answer denied the request, made it fail, or added response headers",
            assumptions: &["the host keeps header names in lower case, as Envoy does"],
        },
    ]
}

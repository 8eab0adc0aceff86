//! C21: what header actions leave on the request and on the response.
use crate::env::*;
use crate::fw::*;
use crate::gen::lit;
use crate::wire::Msg;
use proxy_wasm::types::Action;
use serde_json::{json, Value as J};

type H = Vec<(String, String)>;
const NAMES: &[&str] = &["x-a", "x-b", "x-user", "set-cookie", "content-type", "x-n0", "x-n1"];
const VALUES: &[&str] = &["", "1", "two", "a, b", "é'\"\\", "a=b; c", " in front", "behind  ", "\tboth "];

fn name(s: &mut Src) -> String {
    if s.chance(1, 8) {
        format!("x-n{}", s.n(70))
    } else {
        s.pick(NAMES).to_string()
    }
}
/// The same name as somebody might write it.
fn cased(s: &mut Src, n: &str) -> String {
    match s.below(4) {
        0 => n.to_uppercase(),
        1 => n.split('-').map(|p| if p.starts_with(':') { p.to_string() } else { p[..1].to_uppercase() + &p[1..] }).collect::<Vec<_>>().join("-"),
        _ => n.to_string(),
    }
}
fn set(h: &mut H, n: &str, v: &str) {
    h.retain(|(k, _)| !k.eq_ignore_ascii_case(n));
    h.push((n.to_ascii_lowercase(), v.to_string()));
}
/// what a client or upstream sees: every name's values in order
fn view(h: &H) -> Vec<(String, Vec<String>)> {
    let mut m: std::collections::BTreeMap<String, Vec<String>> = Default::default();
    for (k, v) in h {
        m.entry(k.clone()).or_default().push(v.clone());
    }
    m.into_iter().collect()
}

struct Act {
    json: J,
    pairs: Option<H>,
    request: bool,
}
/// `reply` tells what the service will answer with, when the action stands in its onReply list
fn act(s: &mut Src, o: &mut Obs, reply: Option<&H>, before: &[bool], always: bool) -> Act {
    let request = s.bool() || always;
    let on = !s.chance(1, 8);
    let mut pairs: H = vec![];
    let mut items: Vec<String> = vec![];
    let mut whole = None;
    if let (Some(r), true) = (reply, s.bool()) {
        // the answer's own headers
        whole = Some("r.ok_response.headers".to_string());
        pairs = r.clone();
        o.label("from-answer");
    } else {
        for _ in 0..s.count(4, 70) {
            // a request may be sent elsewhere
            let n = if request && s.chance(1, 20) { s.pick(&[":path", ":authority"]).to_string() } else { name(s) };
            let n = cased(s, &n);
            let v = s.pick(VALUES).to_string();
            match s.below(8) {
                0 => {
                    o.label("skipped-entry");
                    items.push(s.pick(&["'x-a'", "['x-a']", "['x-a', 'b', 'c']", "['x-a', 1]", "[1, 'x']", "1", "null", "{}", "[]"]).to_string());
                }
                1 => {
                    o.label("message-entry");
                    items.push(format!("envoy.config.core.v3.HeaderValue{{key: {}, value: {}}}", lit(&n), lit(&v)));
                    pairs.push((n, v));
                }
                2 => {
                    o.label("nested-message-entry");
                    items.push(format!("envoy.config.core.v3.HeaderValueOption{{header: envoy.config.core.v3.HeaderValue{{key: {}, value: {}}}}}", lit(&n), lit(&v)));
                    pairs.push((n, v));
                }
                _ => {
                    items.push(format!("[{}, {}]", lit(&n), lit(&v)));
                    pairs.push((n, v));
                }
            }
        }
    }
    let src = whole.unwrap_or_else(|| format!("[{}]", items.join(", ")));
    if !before.is_empty() && on && !pairs.is_empty() {
        o.label("several-actions");
    }
    if pairs.iter().any(|p| p.0.chars().any(|c| c.is_ascii_uppercase())) {
        o.label("other-case");
    }
    if pairs.iter().enumerate().any(|(i, p)| pairs[..i].iter().any(|q| q.0.eq_ignore_ascii_case(&p.0))) {
        o.label("name-twice");
    }
    Act {
        json: json!({"type": "headers", "predicate": if on { "true" } else { "1 == 2" }, "terminal": false, "target": if request { "request" } else { "response" }, "headers": src}),
        pairs: if on { Some(pairs) } else { None },
        request,
    }
}

fn c21(s: &mut Src, o: &mut Obs) -> Res {
    // what the service answers with
    let mut answer: H = vec![];
    for _ in 0..s.count(3, 70) {
        let n = name(s);
        answer.push((cased(s, &n), s.pick(VALUES).to_string()));
    }
    let called = s.chance(2, 3);
    let mut first = vec![];
    let mut replies = vec![];
    let mut last = vec![];
    let mut kinds = vec![];
    // a sequential call waits for whatever comes before it, so that must not wait for the response
    for _ in 0..s.range(0, 2) {
        first.push(act(s, o, None, &kinds, true));
        kinds.push(true);
    }
    if called {
        for _ in 0..s.range(0, 3) {
            replies.push(act(s, o, Some(&answer), &kinds, false));
            kinds.push(true);
        }
    }
    for _ in 0..s.range(0, 2) {
        last.push(act(s, o, None, &kinds, false));
        kinds.push(true);
    }
    let mut acts: Vec<J> = first.iter().map(|a| a.json.clone()).collect();
    // the message entries are written in the terms of this call's service, so it comes first
    let mut call = json!({"type": "grpc", "predicate": "true", "terminal": false, "var": "r", "service": "s", "execution": "sequential",
            "messageBuilder": "envoy.service.auth.v3.CheckRequest{}",
            "onReply": replies.iter().map(|a| a.json.clone()).collect::<Vec<_>>()});
    if !called {
        call["predicate"] = json!("false");
    }
    acts.push(call);
    // an expression over the headers sees what earlier actions made of them
    acts.extend(last.iter().map(|a| a.json.clone()));
    let probe = name(s);
    acts.push(json!({"type": "headers", "predicate": "true", "terminal": false, "target": "request", "headers": format!("[['x-probe', '{probe}' in request.headers ? request.headers['{probe}'] : '-']]")}));
    let cfg = json!({"services": {"s": {"type": "auth", "endpoint": "rl", "failureMode": "deny"}},
        "actionSets": [{"name": "a", "routeRuleConditions": {"hostnames": ["h"]}, "actions": acts}]});
    let sent: Vec<(String, &str)> = (0..s.count(5, 90)).map(|_| (name(s), *s.pick(VALUES))).collect();
    let sent: Vec<(&str, &str)> = sent.iter().map(|x| (x.0.as_str(), x.1)).collect();
    let mut up: H = vec![];
    for _ in 0..s.count(5, 90) {
        up.push((name(s), s.pick(VALUES).to_string()));
    }
    let Some(vm) = Vm::new(&cfg) else { return fail("config-refused", format!("{cfg}")) };
    let mut q = vm.open(3, stream("h", "/p", "GET", &sent));
    let before = q.sim(|x| x.req_headers.clone());
    let mut st = q.headers(true);
    if called {
        ensure!(st.action == Some(Action::Pause) && q.outstanding.len() == 1, "no-call", "{st:?}\n{cfg}");
        let tok = q.outstanding[0].token;
        let mut m = Msg::new();
        for (k, v) in &answer {
            m = m.m(2, Msg::new().m(1, Msg::new().s(1, k).s(2, v)));
        }
        st = q.ok(tok, Msg::new().m(3, m).encode());
        ensure!(st.resumed_req() == 1, "not-resumed", "{st:?}\n{cfg}");
    } else {
        ensure!(st.action == Some(Action::Continue), "held", "{st:?}\n{cfg}");
    }
    let mut want = before.clone();
    for a in first.iter().chain(&replies).chain(&last).filter(|a| a.request) {
        for (k, v) in a.pairs.iter().flatten() {
            set(&mut want, k, v);
        }
    }
    let p: Vec<String> = want.iter().filter(|h| h.0 == probe).map(|h| h.1.clone()).collect();
    set(&mut want, "x-probe", &if p.is_empty() { "-".to_string() } else { p.join(",") });
    o.checks += 2;
    let got = q.sim(|x| x.req_headers.clone());
    let info = format!("sent {before:?} answered {answer:?} upstream {up:?}\n{cfg}");
    ensure!(view(&got) == view(&want), "request-headers", "request headers {:?}\nexpected {:?}\n{info}", view(&got), view(&want));
    q.enter_response(200, &up);
    let mut want = q.sim(|x| x.resp_headers.clone());
    let st = q.resp_headers(true);
    ensure!(st.action == Some(Action::Continue), "response-held", "{st:?}\n{cfg}");
    // all of these waited for the response; the actions of an answer go before others that wait
    for a in replies.iter().chain(&first).chain(&last).filter(|a| !a.request) {
        for (k, v) in a.pairs.iter().flatten() {
            set(&mut want, k, v);
        }
    }
    let got = q.sim(|x| x.resp_headers.clone());
    ensure!(view(&got) == view(&want), "response-headers", "response headers {:?}\nexpected {:?}\n{info}", view(&got), view(&want));
    let after = q.sim(|x| x.req_headers.clone());
    let _ = after;
    let hit = |h: &H, req: bool| first.iter().chain(&replies).chain(&last).filter(|a| a.request == req).flat_map(|a| a.pairs.iter().flatten()).any(|(k, _)| h.iter().any(|x| x.0.eq_ignore_ascii_case(k)));
    if hit(&before, true) {
        o.label("replaces-request-header");
    }
    if hit(&up, false) {
        o.label("replaces-response-header");
    }
    o.nontrivial = hit(&before, true) || hit(&up, false);
    o.sample = Some(info);
    Ok(())
}

pub fn all() -> Vec<Check> {
    vec![Check {
        id: "C21",
        run: c21,
        quick: 60_000,
        thorough: 4_000_000,
        rule: "an action set a header that was there before",
        assumptions: &["the host keeps header names in lower case, as Envoy does"],
    }]
}

//! Checks decided by running the real filter in lock-step with the pipeline model.
use crate::fw::*;
use crate::pipe::{lockstep, Judge, Profile};

fn run(s: &mut Src, o: &mut Obs, p: &Profile, j: &Judge, interesting: &[&str]) -> Res {
    let r = lockstep(s, o, p, j);
    o.nontrivial = o.labels.iter().any(|l| interesting.contains(&l.as_str()));
    r
}

fn c01(s: &mut Src, o: &mut Obs) -> Res {
    let p = Profile { refuse: 4, bad_ans: 1, deny: 1, seq: 20, legacy: 25, ..Profile::default() };
    run(s, o, &p, &Judge { gating: true, ..Judge::default() }, &["guard-outstanding", "guard-outstanding-in-response"])
}
fn c02(s: &mut Src, o: &mut Obs) -> Res {
    let p = Profile { nonguard: 50, deny: 1, pend: 3, ..Profile::default() };
    run(s, o, &p, &Judge { liveness: true, ..Judge::default() }, &["guard-outstanding", "only-other-calls-outstanding", "response-ends-with-calls-outstanding"])
}
fn c03(s: &mut Src, o: &mut Obs) -> Res {
    let p = Profile { deny: 5, bad_ans: 3, max_actions: 6, seq: 10, ident: 0, tracing: 0, ..Profile::default() };
    let j = Judge { gating: true, calls: true, replies: true, headers: true, exports: true, after_denial: true, ..Judge::default() };
    run(s, o, &p, &j, &["terminated"])
}
fn c04(s: &mut Src, o: &mut Obs) -> Res {
    let p = Profile { err: 3, refuse: 20, bad_ans: 4, plain_fail: false, deny: 1, legacy: 25, pend: 3, ..Profile::default() };
    run(s, o, &p, &Judge { replies: true, calls: true, metrics: true, ..Judge::default() }, &["failed-allow", "failed-deny"])
}
fn c05(s: &mut Src, o: &mut Obs) -> Res {
    let p = Profile { seq: 55, max_actions: 7, deny: 1, pend: 3, legacy: 20, ..Profile::default() };
    run(s, o, &p, &Judge { calls: true, headers: true, exports: true, ..Judge::default() }, &["blocked-by-dependency"])
}
fn c06(s: &mut Src, o: &mut Obs) -> Res {
    let p = Profile { nested: 3, pend: 4, err: 1, seq: 15, ident: 0, tracing: 5, legacy: 5, refuse: 3, bad_ans: 1, ..Profile::default() };
    run(s, o, &p, &Judge { calls: true, replies: true, headers: true, exports: true, logs: true, ..Judge::default() }, &["reply-actions", "waited"])
}
fn c24(s: &mut Src, o: &mut Obs) -> Res {
    let p = Profile { err: 2, refuse: 12, bad_ans: 3, miss: 15, deny: 3, ..Profile::default() };
    run(s, o, &p, &Judge { metrics: true, ..Judge::default() }, &["failed-allow", "failed-deny", "terminated"])
}

const A: &[&str] = &["the host behaves as the simulated Envoy does: one callback at a time, body buffers accumulate while held, every call is answered at most once"];

pub fn all() -> Vec<Check> {
    vec![
        Check { id: "C01", run: c01, quick: 60_000, thorough: 2_500_000, rule: "at least one guard call was outstanding while some callback was made", assumptions: A },
        Check { id: "C02", run: c02, quick: 60_000, thorough: 2_500_000, rule: "some call was outstanding during the history", assumptions: A },
        Check { id: "C03", run: c03, quick: 60_000, thorough: 2_500_000, rule: "the request was denied by an action or failed closed", assumptions: A },
        Check { id: "C04", run: c04, quick: 60_000, thorough: 2_500_000, rule: "some gRPC action failed (refused dispatch, transport status, undecodable answer, evaluation error)", assumptions: A },
        Check { id: "C05", run: c05, quick: 60_000, thorough: 2_500_000, rule: "some action had to wait for another one it depends on", assumptions: A },
        Check { id: "C06", run: c06, quick: 60_000, thorough: 2_500_000, rule: "reply actions ran, or an action waited for a value not there yet", assumptions: A },
        Check { id: "C24", run: c24, quick: 60_000, thorough: 2_500_000, rule: "the request was denied or some gRPC action failed", assumptions: A },
    ]
}

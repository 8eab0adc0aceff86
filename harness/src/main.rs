mod env;
#[macro_use]
mod fw;
mod pipe;
mod c_pipe;
mod c_route;
mod c_cfg;
mod c_desc;
mod c_hdr;
mod c_call;
mod c_crash;
mod c_trace;
mod c_iso;
mod c_root;
mod c_attr;
mod c_body;
mod c_auth;
mod c_msg;
mod c_rl;
mod gen;
mod checks;
mod wire;

use fw::*;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const DIR: &str = "/verif";

fn known(id: &str) -> BTreeMap<String, String> {
    let t = std::fs::read_to_string(format!("{DIR}/known-findings.json")).unwrap_or_else(|_| "{}".into());
    let v: J = serde_json::from_str(&t).expect("known-findings.json");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["property"] == id)
                .map(|f| (f["signature"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()))
                .collect()
        })
        .unwrap_or_default()
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap()
}

fn find(id: &str) -> Check {
    checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| panic!("unknown check {id}"))
}

fn child(id: String, tier: String, seed: u64, shard: u64, of: u64, cases: u64, out: String) {
    let _ = tier;
    on_big_stack(move || {
        env::boot();
        let c = find(&id);
        let cap: u64 = std::env::var("VERIF_CAP").ok().and_then(|x| x.parse().ok()).unwrap_or(60);
        let k: HashSet<String> = known(&id).into_keys().collect();
        let sh = run_shard(&c, seed, shard, of, cases, Duration::from_secs(cap), &k, &format!("{out}.progress"));
        let mut bin: Vec<u8> = Vec::with_capacity(sh.nontrivial.len() * 8);
        for h in &sh.nontrivial {
            bin.extend(h.to_le_bytes());
        }
        std::fs::write(format!("{out}.hashes"), bin).unwrap();
        let v = json!({
            "evaluations": sh.evaluations, "checks": sh.checks, "labels": sh.labels, "nontrivial": sh.nontrivial_total,
            "samples": sh.samples, "known": sh.known, "capped": sh.capped,
            "violation": sh.violation.map(|(c, f, i)| json!({"choices": c, "sig": f.sig, "msg": f.msg, "case": i})),
        });
        std::fs::write(&out, v.to_string()).unwrap();
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--child" {
        return child(a[2].clone(), a[3].clone(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap(), a[8].clone());
    }
    if a[1] == "--replay" {
        let v: J = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let code = on_big_stack(move || {
            env::boot();
            let c = find(v["property"].as_str().unwrap());
            let mut src = match v["choices"].as_array() {
                Some(ch) => Src::replaying(&ch.iter().map(|x| x.as_u64().unwrap()).collect::<Vec<_>>()),
                None => Src::seeded(case_seed(v["seed"].as_u64().unwrap(), c.id, v["case"].as_u64().unwrap())),
            };
            let (o, r) = run_case(&c, &mut src);
            println!("{}", o.sample.unwrap_or_default());
            match r {
                Ok(()) => {
                    println!("replay: property holds on this case");
                    0
                }
                Err(f) => {
                    println!("replay: {} -- {}", f.sig, f.msg);
                    1
                }
            }
        });
        std::process::exit(code);
    }
    if a[1] == "--list" {
        for c in checks::all() {
            println!("{} quick={} thorough={}", c.id, c.quick, c.thorough);
        }
        return;
    }
    let id = a[1].clone();
    let tier = a.get(2).cloned().unwrap_or_else(|| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let c = find(&id);
    let t0 = Instant::now();
    let cases = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { c.thorough } else { c.quick });
    let cap = if tier == "thorough" { 780 } else { 240 };
    let of = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(8).clamp(2, 16);
    let tmp = std::env::temp_dir().join(format!("verif-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for i in 0..of {
        let out = tmp.join(format!("{i}.json")).to_string_lossy().into_owned();
        let k = Command::new(&exe)
            .args(["--child", &id, &tier, &seed.to_string(), &i.to_string(), &of.to_string(), &cases.to_string(), &out])
            .env("VERIF_CAP", cap.to_string())
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .unwrap();
        kids.push((k, out));
    }
    let mut evaluations = 0;
    let mut nchecks = 0;
    let mut nontrivial = 0;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<J> = vec![];
    let mut knownhits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations: Vec<J> = vec![];
    let mut capped = false;
    let mut no_answer = false;
    for (k, out) in kids {
        let o = k.wait_with_output().unwrap();
        let res = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<J>(&t).ok());
        match (o.status.success(), res) {
            (true, Some(v)) => {
                evaluations += v["evaluations"].as_u64().unwrap();
                nchecks += v["checks"].as_u64().unwrap();
                nontrivial += v["nontrivial"].as_u64().unwrap();
                for (l, n) in v["labels"].as_object().unwrap() {
                    *labels.entry(l.clone()).or_insert(0) += n.as_u64().unwrap();
                }
                for (l, n) in v["known"].as_object().unwrap() {
                    *knownhits.entry(l.clone()).or_insert(0) += n.as_u64().unwrap();
                }
                if samples.len() < 4 {
                    samples.extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
                }
                capped |= v["capped"].as_bool().unwrap();
                if !v["violation"].is_null() {
                    let mut w = v["violation"].clone();
                    w["seed"] = json!(seed);
                    violations.push(w);
                }
                for ch in std::fs::read(format!("{out}.hashes")).unwrap_or_default().chunks_exact(8) {
                    hashes.insert(u64::from_le_bytes(ch.try_into().unwrap()));
                }
            }
            (_, _) if matches!(o.status.code(), Some(97)) || o.status.signal() == Some(9) => {
                eprintln!("{id}: a shard gave no answer ({:?}): {}", o.status, String::from_utf8_lossy(&o.stderr));
                no_answer = true;
            }
            _ => {
                let idx: u64 = std::fs::read_to_string(format!("{out}.progress")).ok().and_then(|s| s.parse().ok()).unwrap_or(0);
                let err = String::from_utf8_lossy(&o.stderr).into_owned();
                violations.push(json!({"sig": "process-died", "seed": seed, "case": idx, "choices": J::Null,
                    "msg": format!("the process ended abnormally ({:?}) while running case {idx}: {}", o.status, err.chars().take(2000).collect::<String>())}));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    // smallest counterexample first
    violations.sort_by_key(|v| v["choices"].as_array().map_or(usize::MAX, |c| c.len()));
    let mut replay = None;
    if let Some(v) = violations.first() {
        let mut w = v.clone();
        w["property"] = json!(id);
        let d = format!("{DIR}/replays");
        let _ = std::fs::create_dir_all(&d);
        let h = hash64(&v.to_string().bytes().map(|b| b as u64).collect::<Vec<_>>());
        let p = format!("{d}/{id}-{h:016x}.json");
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&w).unwrap());
        replay = Some(p);
    }
    let kf = known(&id);
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": hashes.len(),
            "nontrivial_total": nontrivial,
            "rule": c.rule,
            "comparisons": nchecks,
            "classes": labels,
            "samples": samples,
            "planned_cases": cases,
            "time_cap_reached": capped,
            "known_finding_hits": knownhits,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.iter().take(3).map(|v| json!({"replay": replay, "signature": v["sig"], "message": v["msg"]})).collect::<Vec<_>>(),
        "assumptions": c.assumptions,
    });
    let _ = std::fs::create_dir_all(format!("{DIR}/evidence"));
    std::fs::write(format!("{DIR}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for (sig, what) in &kf {
        println!("KNOWN-FINDING: property={id} {what} [{sig}, met {} times]", knownhits.get(sig).copied().unwrap_or(0));
    }
    println!("{id} {tier}: {evaluations} cases, {} distinct non-trivial, {nchecks} comparisons, {:.1}s{}", hashes.len(), t0.elapsed().as_secs_f64(), if capped { " (time cap)" } else { "" });
    for (l, n) in &labels {
        println!("   {l}: {n}");
    }
    if let (Some(v), Some(p)) = (violations.first(), replay) {
        println!("{}", v["msg"].as_str().unwrap_or(""));
        println!("VIOLATION property={id} replay={p}");
        std::process::exit(1);
    }
    if no_answer {
        std::process::exit(2);
    }
}

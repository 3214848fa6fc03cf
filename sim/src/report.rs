//! Checks, replays, evidence.

use std::collections::{BTreeMap, HashSet};
use std::io::{Read as _, Write as _};
use std::os::fd::FromRawFd as _;
use std::time::Instant;

use serde::{Deserialize, Serialize};

use crate::gen::Gen;
use crate::minimise;
use crate::oracle::Violation;
use crate::plan::Plan;
use crate::prng;
use crate::proc;

#[derive(Serialize, Deserialize)]
struct Line {
    idx: u64,
    seed: u64,
    profile: String,
    outcome: Option<proc::Outcome>,
    error: Option<String>,
    ms: f64,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    /// VERIF_SEED and index of the run that failed first
    pub verif_seed: u64,
    pub index: u64,
    pub run_seed: u64,
    pub how: String,
    pub log_hash: u64,
    pub plan: Plan,
    /// the schedule and fault trace
    pub trace: Vec<String>,
}

fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    prng::mix(prng::hash_str(prng::mix(seed), prop) ^ prng::mix(idx))
}

pub fn plan_for(seed: u64, prop: &str, idx: u64) -> (u64, Plan) {
    let s = run_seed(seed, prop, idx);
    (s, Gen::new(s).plan(prop))
}

struct Budget {
    runs: u64,
    seconds: u64,
    minimise: u64,
}

fn budget(prop: &str, tier: &str) -> Budget {
    let runs = match prop {
        "C07" | "C08" | "C09" | "C10" | "C11" => 48_000,
        "C16" => 48_000,
        _ => 60_000,
    };
    if tier == "thorough" {
        Budget {
            runs: runs * 20,
            seconds: 780,
            minimise: 60,
        }
    } else {
        Budget {
            runs,
            seconds: 100,
            minimise: 40,
        }
    }
}

/// (counter that shows the oracle had something to judge, distinct by content and not only by shape)
fn nontrivial(prop: &str) -> (&'static [&'static str], bool, &'static str) {
    match prop {
        "C01" => (&["oracle:kept-token-judged"], false, "a kept token was sent to the signing service"),
        "C02" => (&["oracle:refresh-start-judged"], false, "at least one refresh was started"),
        "C03" => (&["oracle:signing-token-judged"], false, "a token was sent to the signing service"),
        "C04" => (&["oracle:recovery-probe-judged"], false, "a call was made after all faults had ended"),
        "C05" => (&["oracle:waiting-time-judged"], false, "the waiting time of a call was accounted for"),
        "C06" => (&["oracle:remote-success-judged"], false, "a remotely signed result was returned"),
        "C07" | "C08" | "C09" => (&["oracle:url-judged"], true, "a signed URL was returned and put to the verifier"),
        "C10" | "C11" => (&["oracle:form-judged"], true, "a signed form was returned and put to the verifier"),
        "C12" => (&["oracle:received-request-judged"], false, "a request reached a server"),
        "C13" => (&[], true, "every run counts"),
        "C14" => (
            &["oracle:error-text-judged", "oracle:remote-success-judged"],
            false,
            "a failed exchange was reported or a remotely signed result returned",
        ),
        "C15" => (&["oracle:remote-success-judged", "oracle:error-text-judged"], false, "a call with exchanges ended"),
        "C18" => (&["oracle:holdings-judged"], true, "what is held was counted in the quiet time after each of four rounds"),
        "C19" => (&["oracle:wakes-judged"], false, "the wake-ups of a call were counted"),
        "C16" => (&["oracle:key-file-judged"], true, "a key file was loaded or refused"),
        _ => (&["oracle:differential-judged"], true, "a local call was compared with its twin in a quiet world"),
    }
}

fn worker(prop: &str, seed: u64, from: u64, step: u64, runs: u64, seconds: u64, out: i32) -> ! {
    let mut f = unsafe { std::fs::File::from_raw_fd(out) };
    let t0 = Instant::now();
    let mut idx = from;
    while idx < runs && t0.elapsed().as_secs() < seconds {
        let (s, plan) = plan_for(seed, prop, idx);
        let t = Instant::now();
        let r = proc::run_child(&plan, idx < 3);
        let (outcome, error) = match r {
            Ok(o) => (Some(o), None),
            Err(e) => (None, Some(e)),
        };
        let line = Line {
            idx,
            seed: s,
            profile: plan.profile.clone(),
            outcome,
            error,
            ms: t.elapsed().as_secs_f64() * 1000.0,
        };
        let mut v = serde_json::to_vec(&line).unwrap();
        v.push(b'\n');
        if f.write_all(&v).is_err() {
            break;
        }
        idx += step;
    }
    unsafe { libc::_exit(0) }
}

struct Pool {
    pids: Vec<i32>,
    fds: Vec<i32>,
    bufs: Vec<Vec<u8>>,
}

impl Pool {
    fn start(prop: &str, seed: u64, runs: u64, seconds: u64, n: u64) -> Pool {
        let mut p = Pool {
            pids: vec![],
            fds: vec![],
            bufs: vec![],
        };
        for w in 0..n {
            unsafe {
                let mut fds = [0i32; 2];
                assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
                let pid = libc::fork();
                assert!(pid >= 0);
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::close(fds[0]);
                    for f in &p.fds {
                        libc::close(*f);
                    }
                    worker(prop, seed, w, n, runs, seconds, fds[1]);
                }
                libc::close(fds[1]);
                p.pids.push(pid);
                p.fds.push(fds[0]);
                p.bufs.push(vec![]);
            }
        }
        p
    }

    /// None: all workers are done.
    fn next(&mut self) -> Option<Vec<Line>> {
        let mut polls: Vec<libc::pollfd> = self
            .fds
            .iter()
            .map(|f| libc::pollfd {
                fd: *f,
                events: libc::POLLIN,
                revents: 0,
            })
            .collect();
        if self.fds.iter().all(|f| *f < 0) {
            return None;
        }
        unsafe { libc::poll(polls.as_mut_ptr(), polls.len() as libc::nfds_t, -1) };
        let mut lines = vec![];
        for (i, p) in polls.iter().enumerate() {
            if p.fd < 0 || p.revents == 0 {
                continue;
            }
            let mut b = vec![0u8; 1 << 16];
            let mut f = unsafe { std::fs::File::from_raw_fd(p.fd) };
            let n = f.read(&mut b).unwrap_or(0);
            if n == 0 {
                drop(f);
                self.fds[i] = -1;
                continue;
            }
            std::mem::forget(f);
            self.bufs[i].extend(&b[..n]);
            while let Some(nl) = self.bufs[i].iter().position(|c| *c == b'\n') {
                let l: Vec<u8> = self.bufs[i].drain(..=nl).collect();
                if let Ok(l) = serde_json::from_slice(&l) {
                    lines.push(l);
                }
            }
        }
        Some(lines)
    }

    fn stop(&mut self) {
        for p in &self.pids {
            unsafe { libc::kill(*p, libc::SIGKILL) };
        }
        for p in self.pids.drain(..) {
            let mut st = 0;
            unsafe { libc::waitpid(p, &mut st, 0) };
        }
        for f in self.fds.iter_mut().filter(|f| **f >= 0) {
            unsafe { libc::close(*f) };
            *f = -1;
        }
    }
}

fn workers() -> u64 {
    std::thread::available_parallelism()
        .map(|n| n.get() as u64)
        .unwrap_or(4)
        .clamp(1, 16)
}

pub fn check(prop: &str, tier: &str, seed: u64, dir: &str) -> i32 {
    let b = budget(prop, tier);
    let t0 = Instant::now();
    let mut pool = Pool::start(prop, seed, b.runs, b.seconds, workers());
    let mut runs = 0u64;
    let mut sim_ms = 0u64;
    let mut steps = 0u64;
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut profiles: BTreeMap<String, u64> = BTreeMap::new();
    let mut ends: BTreeMap<String, u64> = BTreeMap::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: BTreeMap<u64, serde_json::Value> = BTreeMap::new();
    let mut found: Option<(Line, Violation)> = None;
    let mut errors: Vec<String> = vec![];
    let mut others: BTreeMap<String, u64> = BTreeMap::new();
    let (need, by_content, rule) = nontrivial(prop);
    while let Some(lines) = pool.next() {
        for l in lines {
            runs += 1;
            *profiles.entry(l.profile.clone()).or_default() += 1;
            let Some(o) = &l.outcome else {
                errors.push(format!("run {}: {}", l.idx, l.error.clone().unwrap_or_default()));
                continue;
            };
            sim_ms += o.sim_ms;
            steps += o.steps;
            for (k, v) in &o.probes {
                *probes.entry(k.clone()).or_default() += v;
            }
            for (k, v) in &o.counts {
                *counts.entry(k.clone()).or_default() += v;
            }
            for (k, v) in &o.ends {
                *ends.entry(k.clone()).or_default() += v;
            }
            shapes.insert(o.shape);
            if need.is_empty() || need.iter().any(|n| o.counts.get(*n).copied().unwrap_or(0) > 0) {
                distinct.insert(if by_content { o.content } else { o.shape });
            }
            if l.idx < 3 {
                let log: Vec<String> = o.log.iter().take(30).map(|s| s.chars().take(200).collect()).collect();
                samples.insert(
                    l.idx,
                    serde_json::json!({"index": l.idx, "run_seed": l.seed, "profile": l.profile, "calls": o.ends,
                        "simulated_ms": o.sim_ms, "polls": o.steps, "trace_head": log}),
                );
            }
            for v in &o.violations {
                if v.property != prop {
                    *others.entry(format!("{} {}", v.property, v.class)).or_default() += 1;
                }
            }
            if let Some(v) = o.violations.iter().find(|v| v.property == prop) {
                let v = v.clone();
                if found.as_ref().map_or(true, |(f, _)| l.idx < f.idx) {
                    found = Some((l, v));
                }
            }
        }
        if found.is_some() || errors.len() > 5 {
            break;
        }
    }
    pool.stop();
    let search_s = t0.elapsed().as_secs_f64();
    let mut coverage = serde_json::json!({
        "evaluations": runs,
        "distinct_nontrivial": distinct.len(),
        "rule": format!("One evaluation is one simulated run of a seeded plan (keys, calls, network, servers, clock, scheduler, faults) in a process of its own. Non-trivial: {rule}. Distinct by {}.",
            if by_content { "the order of all events of the run together with the arguments of its calls" } else { "the order of all events of the run (call starts and ends, requests, answers and their kinds, connections, clock jumps), which is the interleaving" }),
        "samples": samples.values().collect::<Vec<_>>(),
        "distinct_interleavings": shapes.len(),
        "runs_per_hour": (runs as f64 / search_s.max(0.001) * 3600.0) as u64,
        "simulated_seconds": sim_ms / 1000,
        "polls_scheduled": steps,
        "runs_by_profile": profiles,
        "faults_and_events_fired": probes,
        "oracle_evaluations": counts,
        "calls_by_ending": ends,
        "real_components": "cloud-storage-signature from /repo (all of src), reqwest, hyper, hyper-util pool, http, url, tokio timers and mutexes, ring, pem, serde_json, chrono, std::fs above the system calls",
        "stubbed_components": "TCP/TLS connections (connector seam in vendored reqwest), metadata servers, IAM credentials service, Cloud Storage verifier, system and monotonic clock, entropy, key-file system calls, task executor",
    });
    if !others.is_empty() {
        coverage["violations_of_other_properties_seen"] = serde_json::json!(others);
    }
    let evidence = |extra: serde_json::Value| {
        let mut e = serde_json::json!({
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": coverage,
            "wall_s": (t0.elapsed().as_secs_f64() * 10.0).round() / 10.0,
        });
        if let Some(m) = extra.as_object() {
            for (k, v) in m {
                e["coverage"][k] = v.clone();
            }
        }
        let d = format!("{dir}/evidence");
        let _ = std::fs::create_dir_all(&d);
        std::fs::write(
            format!("{d}/{prop}.json"),
            serde_json::to_string_pretty(&e).unwrap() + "\n",
        )
    };
    if let Some((line, v)) = found {
        let (s, plan) = plan_for(seed, prop, line.idx);
        let (plan, o, v, tries) = minimise::minimise(&plan, &v, b.minimise);
        let file = format!("{dir}/replays/{prop}-{seed}-{}.json", line.idx);
        let _ = std::fs::create_dir_all(format!("{dir}/replays"));
        let r = Replay {
            property: prop.into(),
            class: v.class.clone(),
            detail: v.detail.clone(),
            verif_seed: seed,
            index: line.idx,
            run_seed: s,
            how: format!("target/release/sim replay {file}"),
            log_hash: o.log_hash,
            plan,
            trace: o.log,
        };
        if let Err(e) = std::fs::write(&file, serde_json::to_string_pretty(&r).unwrap() + "\n") {
            eprintln!("cannot write {file}: {e}");
            return 2;
        }
        let _ = evidence(serde_json::json!({"violation": {"class": v.class, "detail": v.detail, "run_seed": s, "index": line.idx, "minimising_runs": tries}}));
        println!("{prop}: {} after {runs} runs (run {} of seed {seed}, minimised in {tries} runs)", v.class, line.idx);
        println!("  {}", v.detail.chars().take(1500).collect::<String>());
        let exe = std::env::current_exe().unwrap();
        let again = std::process::Command::new(exe).arg("replay").arg(&file).output();
        match again {
            Ok(x) if x.status.code() == Some(1) => println!("  replayed in another process: the same violation, the same trace"),
            _ => println!("  replay in another process did not reproduce it exactly"),
        }
        println!("VIOLATION property={prop} replay={file}");
        return 1;
    }
    if !errors.is_empty() {
        eprintln!("{} runs gave no answer, e.g. {}", errors.len(), errors[0]);
        let _ = evidence(serde_json::json!({"errors": errors}));
        return 2;
    }
    if runs == 0 {
        eprintln!("no run was made");
        return 2;
    }
    if let Err(e) = evidence(serde_json::json!({})) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{prop}: held in {runs} runs ({} distinct non-trivial, {} simulated hours) in {search_s:.1} s",
        distinct.len(),
        sim_ms / 3_600_000
    );
    0
}

pub fn replay(file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let r: Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("bad replay file: {e}");
            return 2;
        }
    };
    let v = Violation {
        property: r.property.clone(),
        class: r.class.clone(),
        detail: String::new(),
    };
    match proc::run_child(&r.plan, true) {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok(o) => {
            for l in &o.log {
                println!("{l}");
            }
            match minimise::same(&o, &v) {
                Some(v) => {
                    println!("{}: {}: {}", v.property, v.class, v.detail);
                    println!(
                        "trace {}",
                        if o.log_hash == r.log_hash { "identical to the recorded one" } else { "differs from the recorded one" }
                    );
                    println!("VIOLATION property={} replay={file}", v.property);
                    if o.log_hash == r.log_hash {
                        1
                    } else {
                        3
                    }
                }
                None => {
                    println!("no such violation on this tree");
                    0
                }
            }
        }
    }
}

pub fn one(prop: &str, seed: u64, idx: u64) -> i32 {
    let (s, plan) = plan_for(seed, prop, idx);
    println!("run seed {s}");
    show(&plan)
}

/// Runs the plan in a file, verbosely.
pub fn run_file(file: &str) -> i32 {
    let Some(plan) = std::fs::read_to_string(file)
        .ok()
        .and_then(|t| serde_json::from_str::<Plan>(&t).ok())
    else {
        println!("no plan in {file}");
        return 2;
    };
    show(&plan)
}

/// Prints the plan of a run.
pub fn plan(prop: &str, seed: u64, idx: u64) -> i32 {
    println!("{}", serde_json::to_string(&plan_for(seed, prop, idx).1).unwrap());
    0
}

fn show(plan: &Plan) -> i32 {
    println!("{}", serde_json::to_string_pretty(plan).unwrap());
    match proc::run_child(plan, true) {
        Err(e) => {
            println!("{e}");
            2
        }
        Ok(o) => {
            for l in &o.log {
                println!("{l}");
            }
            println!("{:?}\n{:?}\n{:?}", o.probes, o.counts, o.ends);
            println!("sim {} ms, {} polls, {} choices, log {:016x}", o.sim_ms, o.steps, o.choices.len(), o.log_hash);
            for v in &o.violations {
                println!("{} {}: {}", v.property, v.class, v.detail);
            }
            i32::from(!o.violations.is_empty())
        }
    }
}

/// Runs plans of every property twice and compares the whole traces; also replays recorded choices.
pub fn selftest(n: u64, seed: u64) -> i32 {
    let mut bad = 0;
    let mut runs = 0;
    for k in 1..=19 {
        let prop = format!("C{k:02}");
        for idx in 0..n {
            let (_, plan) = plan_for(seed, &prop, idx);
            let a = proc::run_child(&plan, true);
            let b = proc::run_child(&plan, true);
            runs += 1;
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    let mut p = plan.clone();
                    p.sched.choices = Some(a.choices.clone());
                    let c = proc::run_child(&p, true);
                    let c = c.map(|c| c.log_hash).unwrap_or(0);
                    if a.log_hash != b.log_hash || c != a.log_hash {
                        bad += 1;
                        println!("{prop} run {idx}: traces differ ({:x} {:x} {c:x})", a.log_hash, b.log_hash);
                        for (x, y) in a.log.iter().zip(&b.log) {
                            if x != y {
                                println!("  {x}\n  {y}");
                                break;
                            }
                        }
                    }
                    for v in &a.violations {
                        println!("{prop} run {idx}: {} {}: {}", v.property, v.class, v.detail.chars().take(300).collect::<String>());
                    }
                }
                (a, b) => {
                    bad += 1;
                    println!("{prop} run {idx}: {:?} {:?}", a.err(), b.err());
                }
            }
        }
    }
    println!("{runs} plans, {bad} not repeatable");
    i32::from(bad > 0)
}

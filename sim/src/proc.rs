//! Every simulated run happens in a process of its own, forked from a parent that has never run the
//! code under test, and there on a fresh thread: no state is left over from another run.

use std::collections::BTreeMap;
use std::io::{Read as _, Write as _};
use std::os::fd::FromRawFd as _;

use serde::{Deserialize, Serialize};

use crate::oracle::{self, Violation};
use crate::ops;
use crate::plan::*;
use crate::prng;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violations: Vec<Violation>,
    pub shape: u64,
    pub content: u64,
    pub log_hash: u64,
    pub sim_ms: u64,
    pub steps: u64,
    pub probes: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    #[serde(default)]
    pub choices: Vec<u32>,
    #[serde(default)]
    pub log: Vec<String>,
    #[serde(default)]
    pub ends: BTreeMap<String, u64>,
}

pub const MAX_STEPS: u64 = 60_000;

/// One local call alone, in a world where nothing else happens.
fn quiet(plan: &Plan, which: &[usize]) -> Plan {
    let mut q = plan.clone();
    q.differential = false;
    q.ops = which
        .iter()
        .enumerate()
        .map(|(n, i)| Op {
            start: Start::At(n as u64 * 10),
            cancel: None,
            probe: false,
            ..plan.ops[*i].clone()
        })
        .collect();
    q.clock = Clock {
        wall0_s: 1_600_000_000,
        ..Default::default()
    };
    q.sched = Sched {
        seed: plan.sched.seed ^ 0xabcdef,
        strategy: Strategy::Fifo,
        burn: 0,
        hold: 0,
        hold_max_ms: 0,
        choices: None,
    };
    q.net = Net::default();
    q.horizon_ms = 100_000;
    q
}

/// What every local call with explicit times gives in a quiet world: the first few alone in a
/// process of their own, the others together and in the opposite order. The caller must be
/// single-threaded.
fn elsewhere(plan: &Plan) -> Vec<(usize, String)> {
    let which: Vec<usize> = (0..plan.ops.len())
        .filter(|i| oracle::local_explicit(plan, *i))
        .collect();
    let alone = which.len().min(3);
    let mut groups: Vec<Vec<usize>> = which[..alone].iter().map(|i| vec![*i]).collect();
    if alone < which.len() {
        groups.push(which[alone..].iter().rev().copied().collect());
    }
    let mut out = vec![];
    for g in groups {
        let q = quiet(plan, &g);
        let ends = fork_run(move || {
            let r = ops::run(&q, MAX_STEPS);
            let ends: Vec<Option<String>> = r.world.ops.iter().map(|o| o.end.as_ref().map(|e| format!("{e:?}"))).collect();
            serde_json::to_vec(&ends).unwrap()
        });
        let ends: Vec<Option<String>> = ends.and_then(|v| serde_json::from_slice(&v).ok()).unwrap_or_default();
        for (i, e) in g.iter().zip(ends) {
            if let Some(e) = e {
                out.push((*i, e));
            }
        }
    }
    out
}

/// Runs the function on a fresh thread of a forked process.
fn fork_run(f: impl FnOnce() -> Vec<u8> + Send + 'static) -> Option<Vec<u8>> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid < 0 {
            return None;
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join();
            if let Ok(v) = r {
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(&v);
                std::mem::forget(f);
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut v = vec![];
        let _ = f.read_to_end(&mut v);
        drop(f);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0
            && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR)
        {}
        Some(v)
    }
}

/// In the child, on a fresh thread.
fn simulate(plan: &Plan, elsewhere: &[(usize, String)]) -> Outcome {
    // the HTTP client's pool looks for idle connections every 90 s
    let ticks = plan.horizon_ms.min(1 << 33) / 90_000 * (2 + 2 * plan.keys.len() as u64);
    let ran = ops::run(plan, MAX_STEPS + ticks + 200 * plan.ops.len() as u64);
    let (mut violations, mut counts) = oracle::judge(&ran);
    for (i, b) in elsewhere {
        if let Some(a) = &ran.world.ops[*i].end {
            if *a == crate::world::OpEnd::Cancelled {
                continue;
            }
            let a = format!("{a:?}");
            *counts.entry("oracle:differential-judged".into()).or_default() += 1;
            if a != *b && !violations.iter().any(|v| v.class == "differs-from-quiet-world") {
                violations.push(Violation {
                    property: "C17".into(),
                    class: "differs-from-quiet-world".into(),
                    detail: format!("call {i}: {a}, in a quiet world {b}"),
                });
            }
        }
    }
    let w = &ran.world;
    let mut probes = w.probes.clone();
    for (k, v) in &ran.disk {
        *probes.entry(k.to_string()).or_default() += v;
    }
    let mut ends: BTreeMap<String, u64> = BTreeMap::new();
    for o in &w.ops {
        let k = match &o.end {
            None => "unfinished",
            Some(crate::world::OpEnd::Ok(_)) => "url",
            Some(crate::world::OpEnd::OkForm(_)) => "form",
            Some(crate::world::OpEnd::Err(_)) => "error",
            Some(crate::world::OpEnd::Panicked(_)) => "panic",
            Some(crate::world::OpEnd::Cancelled) => "cancelled",
        };
        *ends.entry(k.into()).or_default() += 1;
    }
    let mut h = 0;
    for l in &w.log {
        h = prng::hash_str(h, l);
    }
    Outcome {
        violations,
        shape: w.shape,
        content: prng::hash_str(w.shape, &serde_json::to_string(&plan.ops).unwrap()),
        log_hash: h,
        sim_ms: ran.sim_ms,
        steps: ran.steps,
        probes,
        counts,
        choices: ran.choices,
        log: w.log.clone(),
        ends,
    }
}

/// Runs the plan in a forked child. The caller must be single-threaded.
pub fn run_child(plan: &Plan, full: bool) -> Result<Outcome, String> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Err("pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Err("fork".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            let plan = plan.clone();
            crate::rt::install_panic_hook();
            let others = if plan.differential { elsewhere(&plan) } else { vec![] };
            let r = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let mut o = simulate(&plan, &others);
                    if !full && o.violations.is_empty() {
                        o.log.clear();
                        o.choices.clear();
                    }
                    serde_json::to_vec(&o).unwrap()
                })
                .unwrap()
                .join();
            let code = match r {
                Ok(v) => {
                    let mut f = std::fs::File::from_raw_fd(fds[1]);
                    let _ = f.write_all(&v);
                    let _ = f.flush();
                    std::mem::forget(f);
                    0
                }
                Err(_) => {
                    let m = format!("HARNESS {}", crate::rt::last_panic_any());
                    let mut f = std::fs::File::from_raw_fd(fds[1]);
                    let _ = f.write_all(m.as_bytes());
                    std::mem::forget(f);
                    77
                }
            };
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut v = vec![];
        let _ = f.read_to_end(&mut v);
        drop(f);
        let mut status = 0;
        loop {
            let r = libc::waitpid(pid, &mut status, 0);
            if r == pid {
                break;
            }
            if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                return Err("waitpid".into());
            }
        }
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            let mut o = Outcome::default();
            if sig == libc::SIGALRM {
                for p in ["C04", "C19"] {
                    o.violations.push(Violation {
                        property: p.into(),
                        class: "hang".into(),
                        detail: format!("a poll did not return within {} s of real time", crate::rt::POLL_S).into(),
                    });
                }
            } else if sig == libc::SIGKILL {
                return Err("child was killed".into());
            } else {
                o.violations.push(Violation {
                    property: "C13".into(),
                    class: "crash".into(),
                    detail: format!("the process died of signal {sig}"),
                });
            }
            return Ok(o);
        }
        let blocked = match libc::WEXITSTATUS(status) {
            crate::interpose::DEADLOCKED => Some(("C04", "hang", "a poll waits for a lock that nobody is left to release")),
            crate::interpose::SLEEPS_ON => Some(("C05", "thread-put-to-sleep", "calls put the whole thread to sleep for hours")),
            _ => None,
        };
        if let Some((property, class, detail)) = blocked {
            let mut o = Outcome::default();
            for p in [property, "C19"] {
                o.violations.push(Violation {
                    property: p.into(),
                    class: class.into(),
                    detail: detail.into(),
                });
            }
            return Ok(o);
        }
        if libc::WEXITSTATUS(status) != 0 {
            return Err(format!(
                "child ended with status {}: {}",
                libc::WEXITSTATUS(status),
                String::from_utf8_lossy(&v)
            ));
        }
        serde_json::from_slice(&v).map_err(|e| format!("bad result: {e}"))
    }
}

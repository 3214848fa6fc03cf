//! Makes a failing plan smaller while the same violation (property and class) remains.

use std::time::Instant;

use crate::oracle::Violation;
use crate::plan::*;
use crate::proc;

pub fn same(o: &proc::Outcome, v: &Violation) -> Option<Violation> {
    o.violations
        .iter()
        .find(|x| x.property == v.property && x.class == v.class)
        .cloned()
}

fn without_op(p: &Plan, n: usize) -> Option<Plan> {
    let mut q = p.clone();
    let gone = q.ops.remove(n);
    for o in &mut q.ops {
        let fix = |k: usize| -> Option<usize> {
            if k == n {
                None
            } else if k > n {
                Some(k - 1)
            } else {
                Some(k)
            }
        };
        o.start = match &o.start {
            Start::At(t) => Start::At(*t),
            Start::After(k, d) => match fix(*k) {
                Some(k) => Start::After(k, *d),
                None => match gone.start {
                    Start::At(t) => Start::At(t + d),
                    Start::After(k2, d2) => Start::After(fix(k2)?, d2 + d),
                    Start::NearExpiry(k2, x) => Start::NearExpiry(fix(k2)?, x),
                },
            },
            Start::NearExpiry(k, x) => match fix(*k) {
                Some(k) => Start::NearExpiry(k, *x),
                None => match gone.start {
                    Start::After(k2, _) | Start::NearExpiry(k2, _) => Start::NearExpiry(fix(k2)?, *x),
                    Start::At(_) => return None,
                },
            },
        };
    }
    Some(q)
}

/// One way of making a plan smaller; None when it does not apply.
type Edit = Box<dyn Fn(&Plan) -> Option<Plan>>;

fn edits(p: &Plan) -> Vec<Edit> {
    let mut v: Vec<Edit> = vec![];
    // whole stretches of calls first, then one by one
    let mut len = p.ops.len() / 2;
    while len >= 4 {
        for from in (0..p.ops.len()).step_by(len).rev() {
            let to = (from + len).min(p.ops.len());
            v.push(Box::new(move |p| {
                let mut q = p.clone();
                for n in (from..to).rev() {
                    if n < q.ops.len() {
                        q = without_op(&q, n)?;
                    }
                }
                Some(q)
            }));
        }
        len /= 2;
    }
    for n in (0..p.ops.len()).rev() {
        v.push(Box::new(move |p| if n < p.ops.len() { without_op(p, n) } else { None }));
    }
    fn plan(v: &mut Vec<Edit>, f: impl Fn(&mut Plan) + 'static) {
        v.push(Box::new(move |p| {
            let mut q = p.clone();
            f(&mut q);
            Some(q)
        }));
    }
    fn meta(v: &mut Vec<Edit>, k: usize, f: impl Fn(&mut Meta) + 'static) {
        plan(v, move |q| {
            if let KeyKind::Bound(m) = &mut q.keys[k].kind {
                f(m)
            }
        });
    }
    fn op(v: &mut Vec<Edit>, n: usize, f: impl Fn(&mut Op) + 'static) {
        plan(v, move |q| {
            if let Some(o) = q.ops.get_mut(n) {
                f(o)
            }
        });
    }
    fn url(v: &mut Vec<Edit>, n: usize, f: impl Fn(&mut UrlArgs) + 'static) {
        op(v, n, move |o| {
            if let OpKind::Url(a) = &mut o.kind {
                f(a)
            }
        });
    }
    fn form(v: &mut Vec<Edit>, n: usize, f: impl Fn(&mut FormArgs) + 'static) {
        op(v, n, move |o| {
            if let OpKind::Form(a) = &mut o.kind {
                f(a)
            }
        });
    }
    fn drop_at<T>(l: &mut Vec<T>, n: usize) {
        if n < l.len() {
            l.remove(n);
        }
    }
    fn calm(l: &mut [Answer], n: usize, delay_only: bool) {
        if let Some(a) = l.get_mut(n) {
            if delay_only {
                a.delay_ms = 0;
            } else {
                *a = Answer::default();
            }
        }
    }
    plan(&mut v, |q| q.sched.strategy = Strategy::Fifo);
    plan(&mut v, |q| q.sched.burn = 0);
    plan(&mut v, |q| q.sched.hold = 0);
    plan(&mut v, |q| q.net.jitter_ms = 0);
    plan(&mut v, |q| q.net.lat_ms = 0);
    plan(&mut v, |q| q.net.frag = 0);
    plan(&mut v, |q| q.net.idle_close_ms = 0);
    plan(&mut v, |q| q.net.connect.clear());
    plan(&mut v, |q| q.net.partitions.clear());
    plan(&mut v, |q| q.clock.jumps.clear());
    plan(&mut v, |q| q.clock.stalls.clear());
    plan(&mut v, |q| q.clock.tick_ns = 0);
    plan(&mut v, |q| q.clock.wall0_ns = 0);
    plan(&mut v, |q| q.iam.sign.clear());
    plan(&mut v, |q| q.differential = false);
    for n in 0..p.env.len() {
        plan(&mut v, move |q| drop_at(&mut q.env, n));
    }
    for n in 0..p.net.connect.len() {
        plan(&mut v, move |q| drop_at(&mut q.net.connect, n));
    }
    for n in 0..p.clock.jumps.len() {
        plan(&mut v, move |q| drop_at(&mut q.clock.jumps, n));
    }
    for n in 0..p.iam.sign.len() {
        if p.iam.sign[n] != Answer::default() {
            for d in [false, true] {
                plan(&mut v, move |q| calm(&mut q.iam.sign, n, d));
            }
        }
    }
    for k in 0..p.keys.len() {
        if let KeyKind::Bound(m) = &p.keys[k].kind {
            meta(&mut v, k, |m| m.email.clear());
            meta(&mut v, k, |m| m.token.clear());
            meta(&mut v, k, |m| m.unique_accounts = false);
            meta(&mut v, k, |m| m.accounts.truncate(1));
            meta(&mut v, k, |m| m.lifetimes.truncate(1));
            for d in [false, true] {
                for n in 0..m.email.len() {
                    if m.email[n] != Answer::default() {
                        meta(&mut v, k, move |m| calm(&mut m.email, n, d));
                    }
                }
                for n in 0..m.token.len() {
                    if m.token[n] != Answer::default() {
                        meta(&mut v, k, move |m| calm(&mut m.token, n, d));
                    }
                }
            }
        }
    }
    for n in 0..p.ops.len() {
        if p.ops[n].cancel.is_some() {
            op(&mut v, n, |o| o.cancel = None);
        }
        op(&mut v, n, |o| o.clone = false);
        match &p.ops[n].kind {
            OpKind::Url(a) => {
                for k in 0..a.headers.len() {
                    url(&mut v, n, move |a| drop_at(&mut a.headers, k));
                }
                for k in 0..a.query.len() {
                    url(&mut v, n, move |a| drop_at(&mut a.query, k));
                }
                if a.object.chars().count() > 1 {
                    url(&mut v, n, |a| {
                        a.object.pop();
                    });
                    url(&mut v, n, |a| {
                        if !a.object.is_empty() {
                            a.object.remove(0);
                        }
                    });
                    url(&mut v, n, |a| a.object = "o".into());
                }
            }
            OpKind::Form(f) => {
                for k in 0..f.fields.len() {
                    form(&mut v, n, move |f| drop_at(&mut f.fields, k));
                }
                form(&mut v, n, |f| {
                    f.content_length = None;
                    f.twice = false;
                });
                form(&mut v, n, |f| f.success_action_status = None);
            }
            OpKind::Load(_) => {
                op(&mut v, n, |o| {
                    if let OpKind::Load(l) = &mut o.kind {
                        l.fault = Default::default();
                    }
                });
                op(&mut v, n, |o| {
                    if let OpKind::Load(l) = &mut o.kind {
                        l.pad = 0;
                    }
                });
            }
        }
    }
    v
}

pub fn minimise(plan: &Plan, v: &Violation, seconds: u64) -> (Plan, proc::Outcome, Violation, u32) {
    let t0 = Instant::now();
    let mut runs = 0;
    let late = || t0.elapsed().as_secs() >= seconds;
    let mut best = plan.clone();
    let (mut out, mut viol) = match proc::run_child(&best, true) {
        Ok(o) => match same(&o, v) {
            Some(x) => (o, x),
            None => (o, v.clone()),
        },
        Err(_) => (proc::Outcome::default(), v.clone()),
    };
    let mut progress = true;
    while progress && !late() {
        progress = false;
        let mut skip = 0;
        loop {
            let c = edits(&best);
            let same_as = serde_json::to_string(&best).ok();
            let mut changed = false;
            for (n, edit) in c.iter().enumerate().skip(skip) {
                if late() {
                    break;
                }
                let Some(q) = edit(&best) else { continue };
                if serde_json::to_string(&q).ok() == same_as {
                    continue;
                }
                runs += 1;
                if let Ok(o) = proc::run_child(&q, true) {
                    if let Some(x) = same(&o, &viol) {
                        best = q;
                        out = o;
                        viol = x;
                        changed = true;
                        progress = true;
                        skip = n;
                        break;
                    }
                }
            }
            if !changed || late() {
                break;
            }
        }
    }
    // the schedule: as short a prefix of recorded choices as will do (0 beyond it)
    let rec = out.choices.clone();
    let mut n = 0usize;
    loop {
        let mut q = best.clone();
        q.sched.choices = Some(rec[..n.min(rec.len())].to_vec());
        runs += 1;
        if let Ok(o) = proc::run_child(&q, true) {
            if let Some(x) = same(&o, &viol) {
                let mut c = q.sched.choices.clone().unwrap_or_default();
                // zero single choices
                for k in 0..c.len() {
                    if late() || c[k] == 0 {
                        continue;
                    }
                    let mut q2 = q.clone();
                    let mut c2 = c.clone();
                    c2[k] = 0;
                    q2.sched.choices = Some(c2.clone());
                    runs += 1;
                    if proc::run_child(&q2, false).ok().and_then(|o| same(&o, &viol)).is_some() {
                        c = c2;
                    }
                }
                while c.last() == Some(&0) {
                    c.pop();
                }
                q.sched.choices = Some(c);
                if let Ok(o2) = proc::run_child(&q, true) {
                    if let Some(x2) = same(&o2, &viol) {
                        return (q, o2, x2, runs);
                    }
                }
                q.sched.choices = Some(rec[..n.min(rec.len())].to_vec());
                return (q, o, x, runs);
            }
        }
        if n >= rec.len() {
            return (best, out, viol, runs);
        }
        n = if n == 0 { 4 } else { n * 2 };
    }
}

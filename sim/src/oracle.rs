//! Judges the recorded history of a run. Every oracle looks at every run, whatever it was made for.

use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};

use crate::gcs::{self, Keyring, Sig};
use crate::ops::{self, Ran};
use crate::plan::*;
use crate::rt;
use crate::world::{Held, Kind, OpEnd, OpState, Outcome, Req, Token, World, IAM_NAME};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Violation {
    pub property: String,
    pub class: String,
    pub detail: String,
}

const SEC: i128 = 1_000_000_000;

pub struct Judge<'a> {
    ran: &'a Ran,
    w: &'a World,
    plan: &'a Plan,
    pub out: Vec<Violation>,
    pub counts: BTreeMap<String, u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Support {
    Yes,
    No,
    Unknown,
}

/// The storage service as it stands when the result of one call is used: of the account of that
/// call's key, the only user-managed key still active is the one the call was given.
struct Ring<'a> {
    w: &'a World,
    op: usize,
}

impl Keyring for Ring<'_> {
    fn user_keys(&self, account: &str) -> Vec<&'static [u8]> {
        match (&self.w.plan.ops[self.op].kind, &self.w.plan.keys[self.w.plan.ops[self.op].key].kind) {
            (OpKind::Load(l), _) if l.email == account => return vec![ops::PUB[l.rsa]],
            (OpKind::Url(_) | OpKind::Form(_), KeyKind::Local { rsa, email }) if email == account => {
                return vec![ops::PUB[*rsa]]
            }
            _ => {}
        }
        let mut v = vec![];
        for k in &self.w.plan.keys {
            if let KeyKind::Local { rsa, email } = &k.kind {
                if email == account {
                    v.push(ops::PUB[*rsa]);
                }
            }
            // damage to a part that signing does not need leaves the key usable
            if let KeyKind::BadLocal { email, .. } = &k.kind {
                if email == account {
                    v.push(ops::PUB[0]);
                }
            }
        }
        for o in &self.w.plan.ops {
            if let OpKind::Load(l) = &o.kind {
                if l.email == account {
                    v.push(ops::PUB[l.rsa]);
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }
    fn accounts(&self) -> Vec<String> {
        let mut v: Vec<String> = self.w.accounts.iter().map(|(a, _, _)| a.clone()).collect();
        for k in &self.w.plan.keys {
            match &k.kind {
                KeyKind::Local { email, .. } => v.push(email.clone()),
                KeyKind::Bound(m) => v.extend(m.accounts.iter().map(|a| a.1.clone())),
                _ => {}
            }
        }
        for o in &self.w.plan.ops {
            if let OpKind::Load(l) = &o.kind {
                v.push(l.email.clone());
            }
        }
        v.sort();
        v.dedup();
        v
    }
    fn remote(&self, account: &str) -> bool {
        // every account has Google-managed keys; whether it may be used is the service's business
        !account.is_empty()
    }
}

/// The metadata requests of one attempt of a call: one for the account and one for the token, in
/// either order, or only one of them.
struct Refresh<'a> {
    op: usize,
    key: usize,
    first: &'a Req,
    email: Option<&'a Req>,
    token: Option<&'a Req>,
    /// no longer in progress from here on
    end: u64,
    /// results are certainly kept from here on
    held: Option<u64>,
    abandoned: bool,
}

impl Refresh<'_> {
    fn whole(&self) -> bool {
        self.email.is_some() && self.token.is_some()
    }
    fn parts(&self) -> impl Iterator<Item = &Req> {
        self.email.into_iter().chain(self.token)
    }
    /// nothing is known to have gone wrong
    fn sound(&self) -> bool {
        self.whole() && self.parts().all(|r| ok_or_weird(&r.outcome))
    }
}

fn bearer(r: &Req) -> Option<&str> {
    let v: Vec<&str> = r
        .headers
        .iter()
        .filter(|(k, _)| k == "authorization")
        .map(|(_, v)| v.as_str())
        .collect();
    match v.as_slice() {
        [a] => a.strip_prefix("Bearer "),
        _ => None,
    }
}

fn ok_or_weird(o: &Outcome) -> bool {
    o.good() || *o == Outcome::Weird
}

pub fn judge(ran: &Ran) -> (Vec<Violation>, BTreeMap<String, u64>) {
    let mut j = Judge {
        ran,
        w: &ran.world,
        plan: &ran.world.plan,
        out: vec![],
        counts: BTreeMap::new(),
    };
    if !j.plan.checkpoints.is_empty() {
        // the other checks have runs of their own, and take calls on one key to share it
        j.holdings();
        return (j.out, j.counts);
    }
    j.refreshes();
    j.progress();
    j.unaccounted_time();
    j.woken_for_nothing();
    for i in 0..j.plan.ops.len() {
        j.result(i);
        j.exchanges(i);
    }
    j.confinement();
    j.panics();
    (j.out, j.counts)
}

impl<'a> Judge<'a> {
    /// C18: what is held in quiet times does not grow with the calls made.
    fn holdings(&mut self) {
        let h = &self.w.held;
        if h.len() < 4 || h.iter().any(|h| h.begun != h.ended) {
            return;
        }
        // fewer calls than this between two counts say nothing
        let between = h.windows(2).map(|w| w[1].ended - w[0].ended);
        let calls = between.min().unwrap_or(0);
        if h[0].ended.min(calls) < 24 {
            return;
        }
        // each key has gone all the way once before the first count: a client sets up what it keeps at its first use
        let warm = |k: usize| {
            self.plan.ops.iter().zip(&self.w.ops).any(|(o, s)| {
                o.key == k
                    && !o.fresh
                    && s.ended.is_some_and(|e| e.0 <= h[0].t)
                    && matches!(s.end, Some(OpEnd::Ok(_)) | Some(OpEnd::OkForm(_)))
            })
        };
        let bound = |k: usize| matches!(self.plan.keys[k].kind, KeyKind::Bound(_));
        if self.plan.ops.iter().any(|o| !o.fresh && bound(o.key) && !warm(o.key)) {
            return;
        }
        self.count("oracle:holdings-judged");
        // (growth that happens once is what a cache or a pool settles at)
        let grows = |f: &dyn Fn(&Held) -> i64, by: i64| {
            let d: Vec<i64> = h.windows(2).map(|w| f(&w[1]) - f(&w[0])).collect();
            // (or by leaps, as a vector does)
            d.iter().all(|d| *d >= by) || d.iter().sum::<i64>() >= 8 * by && d.iter().filter(|d| **d >= by).count() >= 2
        };
        let show = |f: &dyn Fn(&Held) -> i64| {
            let v: Vec<String> = h.iter().map(|h| f(h).to_string()).collect();
            format!("{}, at least {calls} calls per round", v.join(" -> "))
        };
        for (class, what, f, by) in [
            ("tasks-pile-up", "background tasks", &(|h: &Held| h.tasks as i64) as &dyn Fn(&Held) -> i64, 8),
            ("connections-pile-up", "open connections", &|h: &Held| h.conns as i64, 3),
            ("files-pile-up", "open files", &|h: &Held| h.files as i64, 1),
            // (a client's pool may still start the task that looks after it)
            ("memory-grows", "bytes held but for 1200 per background task", &|h: &Held| h.bytes - 1200 * h.tasks as i64, 32),
            ("blocks-pile-up", "blocks of memory held but for 9 per background task", &|h: &Held| h.blocks - 9 * h.tasks as i64, 2),
        ] {
            if grows(f, by) {
                let d = format!("{what} in the quiet time after each round: {}", show(f));
                self.bad("C18", class, d);
            }
        }
    }

    fn bad(&mut self, property: &str, class: &str, detail: String) {
        if !self
            .out
            .iter()
            .any(|v| v.property == property && v.class == class)
        {
            self.out.push(Violation {
                property: property.into(),
                class: class.into(),
                detail,
            });
        }
    }

    fn count(&mut self, what: &str) {
        *self.counts.entry(what.to_string()).or_default() += 1;
    }

    fn op_reqs(&self, i: usize) -> Vec<&'a Req> {
        self.w.reqs.iter().filter(|r| r.op == Some(i)).collect()
    }

    fn key_of(&self, r: &Req) -> Option<usize> {
        r.op.map(|o| self.plan.ops[o].key)
    }

    fn ended_seq(&self, i: usize) -> u64 {
        self.w.ops[i].ended.map(|e| e.1).unwrap_or(u64::MAX)
    }

    fn list_refreshes(&self) -> Vec<Refresh<'a>> {
        let mut v = vec![];
        for i in 0..self.plan.ops.len() {
            let key = self.plan.ops[i].key;
            let reqs = self.op_reqs(i);
            let ended = self.ended_seq(i);
            let mut n = 0;
            while n < reqs.len() {
                let a = reqs[n];
                n += 1;
                if a.kind != Kind::Email && a.kind != Kind::Token {
                    continue;
                }
                let b = reqs
                    .get(n)
                    .filter(|b| (b.kind == Kind::Email || b.kind == Kind::Token) && b.kind != a.kind && !a.outcome.failed())
                    .copied();
                if b.is_some() {
                    n += 1;
                }
                let after = reqs.get(n).copied();
                let parts: Vec<&Req> = std::iter::once(a).chain(b).collect();
                let of = |k: Kind| parts.iter().find(|r| r.kind == k).copied();
                let (email, token) = (of(Kind::Email), of(Kind::Token));
                let whole = b.is_some();
                let mut end = ended;
                if let Some(a) = after {
                    end = end.min(a.seq);
                }
                let failed = parts.iter().filter(|r| r.outcome.failed()).filter_map(|r| r.done).map(|d| d.1).min();
                let all_done = if parts.iter().all(|r| r.done.is_some()) {
                    parts.iter().filter_map(|r| r.done).map(|d| d.1).max()
                } else {
                    None
                };
                let over = if failed.is_some() { failed } else if whole { all_done } else { None };
                if let Some(s) = over {
                    let poll = self.w.ops[i].poll_seq.iter().find(|p| **p > s);
                    end = end.min(poll.copied().unwrap_or(u64::MAX));
                }
                let held = match after {
                    _ if !whole => None,
                    Some(a) => Some(a.seq),
                    None if matches!(self.w.ops[i].end, Some(OpEnd::Ok(_)) | Some(OpEnd::OkForm(_))) => Some(ended),
                    None => None,
                };
                let abandoned = match all_done {
                    None => true,
                    Some(s) => !self.w.ops[i].poll_seq.iter().any(|p| *p > s),
                };
                v.push(Refresh {
                    op: i,
                    key,
                    first: a,
                    email,
                    token,
                    end,
                    held,
                    abandoned,
                });
            }
        }
        v
    }

    fn token_of(&self, r: &Req) -> Option<&'a Token> {
        self.w.tokens.iter().rev().find(|t| t.req == Some(r.id))
    }

    fn jumped(&self, from: u64, to: u64) -> bool {
        self.plan
            .clock
            .jumps
            .iter()
            .any(|(t, ms)| *ms != 0 && *t >= from && *t <= to)
    }

    // C01, C02, C03
    fn refreshes(&mut self) {
        let all = self.list_refreshes();
        // one at a time, and only when needed
        for m in self.w.reqs.iter() {
            if m.kind != Kind::Email && m.kind != Kind::Token {
                continue;
            }
            let (Some(op), Some(key)) = (m.op, self.key_of(m)) else { continue };
            for r in all.iter().filter(|r| r.key == key && r.op != op) {
                if r.first.seq < m.seq && m.seq < r.end {
                    self.bad(
                        "C02",
                        "overlapping-refresh",
                        format!(
                            "call {op} sends {} (req {}) while the refresh of call {} (req {}..) is under way on the same key",
                            m.url, m.id, r.op, r.first.id
                        ),
                    );
                }
            }
            // the second half of an attempt
            if !all.iter().any(|r| r.first.id == m.id) {
                continue;
            }
            self.count("oracle:refresh-start-judged");
            let done = |r: &Refresh| r.parts().filter_map(|x| x.done).map(|d| d.1).max().unwrap_or(u64::MAX);
            let newest = all
                .iter()
                .filter(|r| {
                    r.key == key
                        && r.whole()
                        && r.parts().all(|t| !t.outcome.failed() && t.done.is_some_and(|d| d.1 < m.seq))
                })
                .max_by_key(|r| done(r));
            if let Some(r) = newest {
                let t = r.token.unwrap();
                let wall = r.parts().map(|x| x.wall).min().unwrap();
                if r.parts().all(|x| x.outcome.good())
                    && r.held.is_some_and(|h| h <= m.seq)
                    && !self.jumped(r.first.t, m.t)
                {
                    if let Some(tok) = self.token_of(t) {
                        let left = wall + i128::from(tok.lifetime) * SEC - m.wall;
                        if left > 30 * SEC {
                            self.bad(
                                "C02",
                                "live-token-not-reused",
                                format!(
                                    "call {op} sends {} (req {}) although the token from req {} has {} ms left",
                                    m.url,
                                    m.id,
                                    t.id,
                                    left / 1_000_000
                                ),
                            );
                        }
                    }
                }
            }
        }
        // what is used for signing
        for r in self.w.reqs.iter().filter(|r| r.kind == Kind::Sign) {
            let (Some(op), Some(key)) = (r.op, self.key_of(r)) else { continue };
            if let Some(half) = all.iter().find(|x| x.op == op && !x.whole() && x.first.seq < r.seq) {
                self.bad(
                    "C03",
                    "half-refreshed",
                    format!(
                        "call {op} sends signing request {} after asking the metadata server only for {} (req {})",
                        r.id, half.first.url, half.first.id
                    ),
                );
            }
            if let Some(tok) = bearer(r).and_then(|v| self.w.tokens.iter().find(|t| t.value == v)) {
                if let Some(tr) = tok.req.and_then(|id| self.w.reqs.get(id as usize - 1)) {
                    self.count("oracle:signing-token-judged");
                    if tr.op != Some(op) {
                        self.count("oracle:kept-token-judged");
                        let left = tr.wall + i128::from(tok.lifetime) * SEC - r.wall;
                        if left <= 30 * SEC {
                            self.bad(
                                "C01",
                                "expiring-token-used",
                                format!(
                                    "call {op} sends signing request {} with the token of req {} (lifetime {} s), which has {} ms left",
                                    r.id,
                                    tr.id,
                                    tok.lifetime,
                                    left / 1_000_000
                                ),
                            );
                        }
                    }
                    if let Some(k) = self.key_of(tr) {
                        if k != key {
                            self.bad(
                                "C02",
                                "token-of-another-key",
                                format!("call {op} on key {key} uses a token that was fetched for key {k}"),
                            );
                        }
                    }
                    if !ok_or_weird(&tr.outcome) {
                        self.bad(
                            "C03",
                            "token-of-failed-exchange",
                            format!("signing request {} uses the token of req {}, whose exchange ended {:?}", r.id, tr.id, tr.outcome),
                        );
                    }
                    let whole = all.iter().find(|x| x.token.is_some_and(|t| t.id == tr.id));
                    match whole {
                        None => {}
                        Some(x) => {
                            if !x.sound() {
                                self.bad(
                                    "C03",
                                    "token-of-failed-refresh",
                                    format!(
                                        "signing request {} uses a token of the refresh of call {}, whose account request ended {:?}",
                                        r.id,
                                        x.op,
                                        x.email.map(|e| &e.outcome)
                                    ),
                                );
                            }
                            if x.abandoned && x.op != op {
                                self.bad(
                                    "C03",
                                    "token-of-abandoned-refresh",
                                    format!("signing request {} uses the token of req {}, whose call was dropped before it had seen the answer", r.id, tr.id),
                                );
                            }
                        }
                    }
                }
            }
            let account = r
                .path
                .strip_prefix("/v1/projects/-/serviceAccounts/")
                .and_then(|p| p.strip_suffix(":signBlob"))
                .and_then(gcs::percent_decode);
            if let Some(a) = account {
                let sources: Vec<&Req> = self
                    .w
                    .accounts
                    .iter()
                    .filter(|(x, _, _)| *x == a)
                    .filter_map(|(_, _, id)| id.and_then(|id| self.w.reqs.get(id as usize - 1)))
                    .collect();
                if !sources.is_empty() {
                    if !sources
                        .iter()
                        .any(|e| self.key_of(e).is_none() || self.key_of(e) == Some(key))
                    {
                        self.bad(
                            "C02",
                            "account-of-another-key",
                            format!("call {op} on key {key} uses account {a}, which was obtained only through other keys"),
                        );
                    } else if !sources.iter().any(|e| {
                        e.op.is_none()
                            || (self.key_of(e) == Some(key)
                                && all.iter().any(|x| {
                                    x.email.is_some_and(|y| y.id == e.id)
                                        && x.sound()
                                        && (!x.abandoned || x.op == op)
                                }))
                    }) {
                        self.bad(
                            "C03",
                            "account-of-failed-refresh",
                            format!("signing request {} uses account {a}, which no completely successful refresh had returned", r.id),
                        );
                    }
                }
            }
        }
    }

    // C04
    fn progress(&mut self) {
        let stuck: Vec<usize> = (0..self.plan.ops.len())
            .filter(|i| self.w.ops[*i].end.is_none())
            .collect();
        match self.ran.end {
            rt::End::Finished => {}
            rt::End::Horizon => {
                if let Some(i) = stuck.first() {
                    let reqs = self.op_reqs(*i);
                    self.bad(
                        "C04",
                        "never-finished",
                        format!(
                            "call {i} has not finished {} ms after all faults ended ({} requests sent, started {:?})",
                            self.ran.sim_ms.saturating_sub(self.plan.heal_ms),
                            reqs.len(),
                            self.w.ops[*i].started.map(|s| s.0)
                        ),
                    );
                }
            }
            // (C19)
            rt::End::Steps if self.ran.idle_wakes.values().any(|n| *n > 1_000) => {}
            rt::End::Steps => {
                self.bad(
                    "C04",
                    "livelock",
                    format!("{} polls without an end; unfinished calls {stuck:?}", self.ran.steps),
                );
            }
        }
        let delays: u64 = self
            .plan
            .keys
            .iter()
            .filter_map(|k| match &k.kind {
                KeyKind::Bound(m) => Some(m),
                _ => None,
            })
            .flat_map(|m| m.email.iter().chain(m.token.iter()))
            .chain(self.plan.iam.sign.iter())
            .map(|a| u64::from(a.delay_ms))
            .sum::<u64>()
            + self.plan.net.connect.iter().map(|c| u64::from(c.delay_ms)).sum::<u64>();
        for (i, op) in self.plan.ops.iter().enumerate() {
            let o = &self.w.ops[i];
            if let (Some(s), Some(e)) = (o.started, o.ended) {
                let from = s.0.max(self.plan.heal_ms);
                if e.0 > from + 150_000 + delays {
                    self.bad(
                        "C04",
                        "finished-too-late",
                        format!("call {i} took until {} ms, faults ended at {} ms", e.0, self.plan.heal_ms),
                    );
                }
            }
            if op.probe {
                self.count("oracle:recovery-probe-judged");
                match &o.end {
                    Some(OpEnd::Ok(_)) | Some(OpEnd::OkForm(_)) | None => {}
                    Some(e) => self.bad(
                        "C04",
                        "not-recovered",
                        format!(
                            "call {i} on key {} started {} ms after all faults had ended: {e:?}",
                            op.key,
                            o.started.map(|s| s.0).unwrap_or(0).saturating_sub(self.plan.heal_ms)
                        ),
                    ),
                }
            }
        }
    }

    /// C19: a call that waits is woken by what it waits for.
    fn woken_for_nothing(&mut self) {
        if self.ran.blocked_ms > 0 {
            self.bad(
                "C19",
                "thread-put-to-sleep",
                format!("calls put the whole thread to sleep for {} ms", self.ran.blocked_ms),
            );
        }
        for i in 0..self.plan.ops.len() {
            let Some(s) = self.w.ops[i].started else { continue };
            self.count("oracle:wakes-judged");
            let n = self.ran.idle_wakes.get(&i).copied().unwrap_or(0);
            if n > 8 + 4 * self.w.ops[i].requests {
                let end = self.w.ops[i].ended.map(|e| e.0).unwrap_or(self.ran.sim_ms);
                self.bad(
                    "C19",
                    "woken-for-nothing",
                    format!("in {} ms call {i} was woken {n} times by itself or by a timer, with nothing it waits for having happened", end - s.0),
                );
            }
        }
    }

    /// C05: a call may wait for its own exchanges and for a refresh of its own key, nothing else.
    fn unaccounted_time(&mut self) {
        if self.ran.blocked_ms > 0 {
            self.bad(
                "C05",
                "thread-put-to-sleep",
                format!("calls put the whole thread to sleep for {} ms", self.ran.blocked_ms),
            );
        }
        if self.plan.sched.hold > 0 {
            return;
        }
        let mut meta: BTreeMap<usize, Vec<(u64, u64, usize)>> = BTreeMap::new();
        let mut own: BTreeMap<usize, Vec<(u64, u64)>> = BTreeMap::new();
        for i in 0..self.plan.ops.len() {
            let end = self.w.ops[i].ended.map(|e| e.0).unwrap_or(self.ran.sim_ms);
            let reqs = self.op_reqs(i);
            for (n, r) in reqs.iter().enumerate() {
                let to = match (r.done, r.left) {
                    (Some(d), None) => d.0,
                    (Some(d), Some(l)) => d.0.max(l.0),
                    // failed or given up
                    (None, Some((t, false))) => t,
                    // the body did not arrive: for as long as the call can have waited for it
                    (None, Some((_, true))) => reqs.get(n + 1).map_or(end, |x| x.t),
                    (None, None) => end,
                }
                .min(end);
                own.entry(i).or_default().push((r.t, to));
                if r.kind != Kind::Sign {
                    meta.entry(self.plan.ops[i].key).or_default().push((r.t, to, i));
                }
            }
        }
        for i in 0..self.plan.ops.len() {
            let o = &self.w.ops[i];
            let Some(s) = o.started else { continue };
            let end = o.ended.map(|e| e.0).unwrap_or(self.ran.sim_ms);
            let mut iv: Vec<(u64, u64)> = own.get(&i).cloned().unwrap_or_default();
            if let Some(m) = meta.get(&self.plan.ops[i].key) {
                iv.extend(m.iter().map(|x| (x.0, x.1)));
            }
            iv.sort();
            let mut at = s.0;
            let mut idle = 0;
            for (a, b) in iv {
                let (a, b) = (a.clamp(s.0, end), b.clamp(s.0, end));
                if a > at {
                    idle += a - at;
                }
                at = at.max(b);
            }
            if end > at {
                idle += end - at;
            }
            self.count("oracle:waiting-time-judged");
            if idle > 2_000 {
                self.bad(
                    "C05",
                    "waits-for-nothing-of-its-own",
                    format!(
                        "call {i} on key {} took {} ms, {idle} ms of them without an exchange of its own or a refresh of its key under way",
                        self.plan.ops[i].key,
                        end - s.0
                    ),
                );
            }
        }
    }

    fn panics(&mut self) {
        for i in 0..self.plan.ops.len() {
            if let Some(OpEnd::Panicked(m)) = &self.w.ops[i].end {
                let m = m.clone();
                self.bad("C13", "panic", format!("call {i} panicked: {m}"));
            }
        }
        if let Some(m) = self.w.bg_panics.first() {
            let m = m.clone();
            self.bad("C13", "panic", format!("a background task panicked: {m}"));
        }
    }

    // ------------------------------------------------------------------ arguments

    /// (lo, hi) of the start in ns
    fn start_range(&self, o: &OpState) -> (i128, i128) {
        match o.start {
            Some(s) => (s, s),
            None => (o.wall_lo, o.wall_hi),
        }
    }

    fn mode(&self, i: usize, use_sign_blob: bool) -> Support {
        if matches!(self.plan.ops[i].kind, OpKind::Load(_)) {
            return if use_sign_blob { Support::No } else { Support::Yes };
        }
        match (&self.plan.keys[self.plan.ops[i].key].kind, use_sign_blob) {
            (KeyKind::Bound(_), true) => Support::Yes,
            (KeyKind::Local { .. }, false) => Support::Yes,
            (KeyKind::BadLocal { .. }, false) => Support::Unknown,
            _ => Support::No,
        }
    }

    fn times(&self, o: &OpState, max: i128, min: i128) -> Support {
        let Some(e) = o.expires else { return Support::Unknown };
        let (lo, hi) = self.start_range(o);
        let y = |s: i128| s >= 0 && s < 253_402_300_800 * SEC;
        if lo != hi && (!y(lo) || !y(hi)) {
            return Support::Unknown;
        }
        if !y(lo) || !y(e) {
            // far outside the calendar: either answer is fine unless the rules below say no
            return if e - hi < min || e - lo > max + 2 * SEC { Support::No } else { Support::Unknown };
        }
        if e - hi >= min && e - lo <= max {
            Support::Yes
        } else if e - lo < min || e - hi >= max + SEC {
            Support::No
        } else {
            Support::Unknown
        }
    }

    fn supported(&self, i: usize) -> Support {
        let o = &self.w.ops[i];
        let all = |v: &[Support]| {
            if v.contains(&Support::No) {
                Support::No
            } else if v.contains(&Support::Unknown) {
                Support::Unknown
            } else {
                Support::Yes
            }
        };
        match &self.plan.ops[i].kind {
            OpKind::Url(a) => all(&[self.url_args(a), self.mode(i, a.use_sign_blob), self.times(o, 604_800 * SEC, 0)]),
            OpKind::Load(l) => all(&[
                self.url_args(&l.url),
                self.mode(i, l.url.use_sign_blob),
                self.times(o, 604_800 * SEC, 0),
            ]),
            OpKind::Form(f) => {
                let has = |n: &str| f.fields.iter().any(|(k, _)| k == n);
                let mut v = vec![];
                v.push(if has("key") { Support::Yes } else { Support::No });
                if f.fields.iter().any(|(k, v)| k == "key" && v.len() > 1_024) {
                    v.push(Support::Unknown);
                }
                if f.fields.iter().any(|(k, _)| k == "x-goog-meta-") {
                    v.push(Support::No);
                }
                if let Some(s) = &f.signing {
                    v.push(if has("bucket") { Support::Yes } else { Support::No });
                    v.push(self.mode(i, s.use_sign_blob));
                    v.push(self.times(o, i128::MAX / 4, 1));
                    if s.region.as_deref().is_some_and(|r| !plain_region(r)) {
                        v.push(Support::Unknown);
                    }
                }
                all(&v)
            }
        }
    }

    fn url_args(&self, a: &UrlArgs) -> Support {
        let dot = |s: &str| s == "." || s == "..";
        if !["GET", "HEAD", "PUT", "POST", "DELETE"].contains(&a.method.as_str())
            || dot(&a.bucket)
            || a.object.split('/').any(dot)
        {
            return Support::No;
        }
        let size = a.object.len()
            + a.bucket.len()
            + a.query.iter().map(|(k, v)| k.len() + v.len() + 2).sum::<usize>();
        if a.bucket.is_empty()
            || a.bucket.contains('/')
            || size > 8_000
            || a.headers.len() > 1000
            || a.region.as_deref().is_some_and(|r| !plain_region(r))
            || !plain_headers(&a.headers)
            || a.query
                .iter()
                .any(|(k, _)| gcs::SIGNING_PARAMETERS.iter().any(|n| n.eq_ignore_ascii_case(k)))
        {
            return Support::Unknown;
        }
        Support::Yes
    }

    // ------------------------------------------------------------------ results

    fn result(&mut self, i: usize) {
        let o = &self.w.ops[i];
        let Some(end) = &o.end else { return };
        let sup = self.supported(i);
        let is_ok = matches!(end, OpEnd::Ok(_) | OpEnd::OkForm(_));
        let mode = match &self.plan.ops[i].kind {
            OpKind::Url(a) => self.mode(i, a.use_sign_blob),
            OpKind::Load(l) => self.mode(i, l.url.use_sign_blob),
            OpKind::Form(f) => f.signing.as_ref().map_or(Support::Yes, |s| self.mode(i, s.use_sign_blob)),
        };
        if is_ok && mode == Support::No {
            self.bad("C13", "unsupported-mode-accepted", format!("call {i} returned {end:?}"));
        }
        if is_ok && sup == Support::No {
            let (prop, class) = match &self.plan.ops[i].kind {
                OpKind::Form(f) if f.signing.is_some() && self.times(o, i128::MAX / 4, 1) == Support::No => {
                    ("C11", "expiration-not-after-start-accepted")
                }
                OpKind::Url(_) | OpKind::Load(_) if self.times(o, 604_800 * SEC, 0) == Support::No => {
                    ("C09", "window-accepted")
                }
                OpKind::Url(a) if self.url_args(a) == Support::No => ("C08", "impossible-name-accepted"),
                _ => ("C13", "unsupported-accepted"),
            };
            if mode != Support::No {
                self.bad(
                    prop,
                    class,
                    format!("call {i} ({:?}) returned {end:?}", self.plan.ops[i].kind),
                );
            }
        }
        if let OpKind::Load(l) = &self.plan.ops[i].kind {
            self.loaded(i, l);
        }
        match (&self.plan.ops[i].kind, end) {
            (OpKind::Url(a), OpEnd::Ok(u)) => self.url(i, a, u, false),
            (OpKind::Load(l), OpEnd::Ok(u)) => self.url(i, &l.url, u, true),
            (OpKind::Form(f), OpEnd::OkForm(v)) => self.form(i, f, v),
            _ => {}
        }
        // C17
        if self.local_explicit(i) && o.ended.is_some() && self.plan.sched.hold == 0 {
            if let (Some(s), Some(e)) = (o.started, o.ended) {
                if e.0 != s.0 {
                    self.bad("C17", "local-signing-waits", format!("call {i} took {} ms of simulated time", e.0 - s.0));
                }
            }
        }
    }

    pub fn local_explicit(&self, i: usize) -> bool {
        local_explicit(self.plan, i)
    }

    /// Nobody promises a usable result: the metadata server gave out nonsense as the account, or
    /// the location is none that exists.
    fn hopeless(&self, i: usize, region: &Option<String>) -> bool {
        if region.as_deref().is_some_and(|r| !plain_region(r)) {
            return true;
        }
        match &self.plan.keys[self.plan.ops[i].key].kind {
            KeyKind::Bound(m) => m
                .email
                .iter()
                .any(|a| matches!(a.kind, AnswerKind::Body(_) | AnswerKind::Bytes(_) | AnswerKind::Status(200..=299, _))),
            _ => false,
        }
    }

    fn url(&mut self, i: usize, a: &UrlArgs, u: &str, loaded: bool) {
        if self.hopeless(i, &a.region) {
            return;
        }
        let ring = Ring { w: self.w, op: i };
        if self.url_args(a) == Support::Unknown && !a.bucket.is_empty() && !plain_headers(&a.headers) {
            return;
        }
        let Some(g) = gcs::glance(u) else {
            self.bad("C07", "unusable-url", format!("call {i}: not a URL of the service: {u} for {a:?}"));
            self.bad("C08", "another-object", format!("call {i}: not a URL of the service: {u} for {a:?}"));
            return;
        };
        self.grant(i, a, u, &g);
        self.window(i, u, &g);
        let s = match gcs::read_url(u, &a.method, &a.headers, &ring) {
            Err(e) => {
                self.bad("C07", "unusable-url", format!("call {i}: {e}: {u} for {a:?}"));
                return;
            }
            Ok(s) => s,
        };
        self.count("oracle:url-judged");
        match &s.signature {
            Sig::Good => {}
            Sig::Other(x) => {
                self.bad(
                    "C06",
                    "signed-by-another-account",
                    format!("call {i}: the credential names {}, the signature is by {x}", s.account),
                );
                self.bad(
                    "C07",
                    "signature-does-not-verify",
                    format!("call {i}: account {}: {u} for {a:?}", s.account),
                );
            }
            Sig::Bad => {
                self.bad(
                    "C07",
                    "signature-does-not-verify",
                    format!("call {i}: account {}: {u} for {a:?}", s.account),
                );
                self.unbound(i, a, u);
            }
        }
        let expected_account = if loaded {
            None
        } else {
            match &self.plan.keys[self.plan.ops[i].key].kind {
                KeyKind::Local { email, .. } => Some(email.clone()),
                _ => None,
            }
        };
        if let Some(e) = expected_account {
            if e != s.account {
                self.bad("C06", "wrong-account-named", format!("call {i}: {} instead of {e}", s.account));
            }
        }
        let region = a.region.clone().unwrap_or_else(|| "auto".into());
        if plain_region(&region) && s.location != region {
            self.bad("C07", "wrong-location", format!("call {i}: {} instead of {region}", s.location));
        }
    }

    /// C08: what the URL grants.
    fn grant(&mut self, i: usize, a: &UrlArgs, u: &str, s: &gcs::Glance) {
        if s.bucket != a.bucket.as_bytes() || s.object != a.object.as_bytes() {
            self.bad(
                "C08",
                "another-object",
                format!(
                    "call {i}: {:?} / {:?} asked for, {u} addresses {:?} / {:?}",
                    a.bucket,
                    a.object,
                    String::from_utf8_lossy(&s.bucket),
                    String::from_utf8_lossy(&s.object)
                ),
            );
        }
        let mut want: Vec<(Vec<u8>, Vec<u8>)> = a
            .query
            .iter()
            .map(|(k, v)| (k.clone().into_bytes(), v.clone().into_bytes()))
            .collect();
        let mut got = s.query.clone();
        want.sort();
        got.sort();
        if want != got {
            self.bad(
                "C08",
                "other-query-parameters",
                format!("call {i}: {:?} asked for, {u} carries others", a.query),
            );
        }
        for (k, _) in &a.headers {
            if !s.signed_headers.contains(&k.to_ascii_lowercase()) {
                self.bad("C08", "header-not-bound", format!("call {i}: header {k} is not signed in {u}"));
            }
        }
    }

    /// The signature is not one for the request asked for: is it one for a request with other headers?
    fn unbound(&mut self, i: usize, a: &UrlArgs, u: &str) {
        let ring = Ring { w: self.w, op: i };
        let asked = gcs::lower(&a.headers);
        for n in 0..a.headers.len() {
            let v = a.headers[n].1.clone();
            let first = |c: char| v.split(c).next().unwrap_or("").to_string();
            let mut others = vec![
                None,
                Some(String::new()),
                Some(v.to_ascii_lowercase()),
                Some(v.to_ascii_uppercase()),
                Some(v.chars().filter(|c| !c.is_whitespace()).collect()),
            ];
            for c in [',', ';', ' ', '=', ':', '"'] {
                others.push(Some(first(c)));
            }
            for x in others {
                let mut h = a.headers.clone();
                match &x {
                    None => {
                        h.remove(n);
                    }
                    Some(x) => h[n].1 = x.clone(),
                }
                if gcs::lower(&h) == asked {
                    continue;
                }
                if gcs::read_url(u, &a.method, &h, &ring).is_ok_and(|s| s.signature == Sig::Good) {
                    self.bad(
                        "C08",
                        "header-not-bound",
                        format!("call {i}: {u} is accepted with header {} = {x:?} instead of {v:?}", a.headers[n].0),
                    );
                    return;
                }
            }
        }
    }

    /// C09: when the URL can be used.
    fn window(&mut self, i: usize, u: &str, s: &gcs::Glance) {
        let o = self.w.ops[i].clone();
        let (lo, hi) = self.start_range(&o);
        let (Some(date), Some(expires)) = (s.date, s.expires) else {
            self.bad("C09", "no-window", format!("call {i}: {u} does not say when it is valid"));
            return;
        };
        let d = i128::from(date);
        if d < lo.div_euclid(SEC) || d > hi.div_euclid(SEC) {
            self.bad(
                "C09",
                "wrong-start",
                format!("call {i}: starts at {d}, asked for {lo}..{hi} ns"),
            );
        }
        if d > hi.div_euclid(SEC) && o.expires.is_some_and(|e| e > hi) {
            self.bad(
                "C07",
                "not-usable-in-the-window",
                format!("call {i}: starts at {d}, asked for {lo}..{hi} ns"),
            );
        }
        if let Some(e) = o.expires {
            let end = (d + i128::from(expires)) * SEC;
            if end > e {
                self.bad("C09", "valid-too-long", format!("call {i}: valid until {end} ns, asked for {e} ns"));
            }
            if end <= e - 2 * SEC {
                self.bad("C09", "valid-too-short", format!("call {i}: valid until {end} ns, asked for {e} ns"));
            }
            if end < lo && e > lo + 2 * SEC {
                self.bad(
                    "C07",
                    "not-usable-in-the-window",
                    format!("call {i}: valid until {end} ns, asked for {lo}..{e} ns"),
                );
            }
        }
    }

    fn form(&mut self, i: usize, f: &FormArgs, v: &[(String, String)]) {
        let Some(sg) = &f.signing else { return };
        if self.hopeless(i, &sg.region) {
            return;
        }
        let o = self.w.ops[i].clone();
        let ring = Ring { w: self.w, op: i };
        let mut want: Vec<(String, String)> = f.fields.clone();
        if let Some(n) = f.content_length {
            want.push(("Content-Length".into(), n.to_string()));
        }
        if let Some(n) = f.success_action_status {
            want.push(("success_action_status".into(), n.to_string()));
        }
        let generated = ["policy", "x-goog-algorithm", "x-goog-credential", "x-goog-date", "x-goog-signature"];
        let norm = |v: &[(String, String)]| {
            let mut v: Vec<(String, String)> = v
                .iter()
                .filter(|(k, _)| !generated.contains(&k.to_ascii_lowercase().as_str()))
                .map(|(k, v)| (k.to_ascii_lowercase(), v.clone()))
                .collect();
            v.sort();
            v
        };
        if norm(&want) != norm(v) {
            self.bad("C10", "fields-differ", format!("call {i}: set {want:?}, got {v:?}"));
        }
        let g = match gcs::read_form(v, &ring) {
            Err(e) => {
                self.bad("C10", "unusable-form", format!("call {i}: {e}: {v:?}"));
                // what it permits can be read off the policy alone
                if let Some(p) = v
                    .iter()
                    .find(|(k, _)| k.eq_ignore_ascii_case("policy"))
                    .and_then(|(_, p)| gcs::read_policy(p).ok())
                {
                    self.permissions(i, f, v, &p);
                }
                return;
            }
            Ok(g) => g,
        };
        self.count("oracle:form-judged");
        match &g.signature {
            Sig::Good => {}
            Sig::Other(x) => {
                self.bad(
                    "C06",
                    "signed-by-another-account",
                    format!("call {i}: the credential names {}, the signature is by {x}", g.account),
                );
                self.bad("C10", "signature-does-not-verify", format!("call {i}: {v:?}"));
            }
            Sig::Bad => self.bad("C10", "signature-does-not-verify", format!("call {i}: {v:?}")),
        }
        if let KeyKind::Local { email, .. } = &self.plan.keys[self.plan.ops[i].key].kind {
            if *email != g.account {
                self.bad("C06", "wrong-account-named", format!("call {i}: {} instead of {email}", g.account));
            }
        }
        let region = sg.region.clone().unwrap_or_else(|| "auto".into());
        if plain_region(&region) && g.location != region {
            self.bad("C10", "wrong-location", format!("call {i}: {} instead of {region}", g.location));
        }
        let (lo, hi) = self.start_range(&o);
        let d = i128::from(g.date);
        if d < lo.div_euclid(SEC) || d > hi.div_euclid(SEC) {
            self.bad("C10", "wrong-date", format!("call {i}: dated {d}, asked for {lo}..{hi} ns"));
        }
        let lens = match f.content_length {
            Some(n) => vec![n],
            None => vec![0, 1, 77_777, 5 << 40],
        };
        for n in &lens {
            if let Err(e) = gcs::permits(&g.policy, v, *n) {
                self.bad("C10", "upload-refused", format!("call {i}: {e}: {v:?}"));
            }
        }
        self.permissions(i, f, v, &g.policy);
    }

    /// C11: what the policy permits.
    fn permissions(&mut self, i: usize, f: &FormArgs, v: &[(String, String)], policy: &gcs::Policy) {
        let o = self.w.ops[i].clone();
        let len = f.content_length.unwrap_or(0);
        if let Some(e) = o.expires {
            if policy.expiration > e {
                self.bad("C11", "policy-valid-too-long", format!("call {i}: until {} ns, asked for {e} ns", policy.expiration));
            }
            if policy.expiration <= e - SEC {
                self.bad("C11", "policy-valid-too-short", format!("call {i}: until {} ns, asked for {e} ns", policy.expiration));
            }
        }
        let mut tampered: Vec<(String, Vec<(String, String)>, u64)> = vec![];
        for (n, (k, x)) in v.iter().enumerate() {
            let kl = k.to_ascii_lowercase();
            if kl == "policy" || kl == "x-goog-signature" {
                continue;
            }
            let mut values = vec![format!("{x}x"), format!("x{x}")];
            if !x.is_empty() {
                values.push(String::new());
                values.push(x[..x.len() - x.chars().last().unwrap().len_utf8()].to_string());
            }
            values.push(x.to_ascii_uppercase());
            values.push(x.to_ascii_lowercase());
            values.push(x.trim().to_string());
            values.push(format!(" {x} "));
            values.push(format!("{x}/"));
            values.push(gcs::encode(x.as_bytes()));
            let middle: String = {
                let n = x.chars().count() / 2;
                x.chars()
                    .enumerate()
                    .map(|(i, c)| if i == n { if c == '~' { '!' } else { '~' } } else { c })
                    .collect()
            };
            values.push(middle);
            for nv in values {
                if nv == *x {
                    continue;
                }
                let mut t = v.to_vec();
                t[n].1 = nv.clone();
                tampered.push((format!("{k} changed to {nv:?}"), t, len));
            }
            if kl != "content-length" {
                let mut t = v.to_vec();
                t.remove(n);
                tampered.push((format!("{k} removed"), t, len));
            }
        }
        for k in [
            "acl",
            "Cache-Control",
            "Content-Disposition",
            "Content-Encoding",
            "Content-Type",
            "Expires",
            "success_action_redirect",
            "success_action_status",
            "x-goog-custom-time",
            "x-goog-meta-zz",
            "bucket",
            "key",
        ] {
            let mut t = v.to_vec();
            t.push((k.into(), "added-7f3a".into()));
            tampered.push((format!("{k} added"), t, len));
        }
        if let Some(n) = f.content_length {
            tampered.push(("one byte more".into(), v.to_vec(), n.saturating_add(1)));
            for (what, m) in [
                ("one byte less", n.checked_sub(1)),
                ("no content", Some(0)),
                ("half of it", Some(n / 2)),
                ("twice as much", n.checked_mul(2)),
                ("a thousandth more", n.checked_add(n / 1000 + 1)),
                ("the largest object", Some(5 << 40)),
                ("one more than the largest object", Some((5 << 40) + 1)),
            ] {
                if let Some(m) = m.filter(|m| *m != n) {
                    tampered.push((what.into(), v.to_vec(), m));
                }
            }
        }
        for (what, t, n) in tampered {
            if f.content_length == Some(u64::MAX) && what == "one byte more" {
                continue;
            }
            self.count("oracle:tampered-form-judged");
            if gcs::permits(policy, &t, n).is_ok() {
                self.bad("C11", "tampered-upload-permitted", format!("call {i}: with {what}: {v:?}"));
            }
        }
    }

    fn loaded(&mut self, i: usize, l: &LoadArgs) {
        let o = self.w.ops[i].clone();
        let Some(t) = &o.file else {
            return;
        };
        self.count("oracle:key-file-judged");
        if t.fds_open > 0 {
            self.bad("C16", "file-left-open", format!("call {i}: {} descriptors still open after loading", t.fds_open));
        }
        match &t.load_error {
            None => {
                if !t.complete || t.hard_fault {
                    self.bad(
                        "C16",
                        "key-from-incomplete-file",
                        format!("call {i}: loading succeeded although the file was not read completely: {l:?}"),
                    );
                }
                if let Some(OpEnd::Ok(u)) = &o.end {
                    let ring = Ring { w: self.w, op: i };
                    if let Ok(s) = gcs::read_url(u, &l.url.method, &l.url.headers, &ring) {
                        if s.account != l.email || s.signature != Sig::Good {
                            self.bad(
                                "C16",
                                "other-key-loaded",
                                format!("call {i}: account {} signature {:?}", s.account, s.signature),
                            );
                        }
                    }
                } else if let Some(OpEnd::Err(e)) = &o.end {
                    if self.supported(i) == Support::Yes {
                        let e = e.clone();
                        self.bad("C16", "loaded-key-does-not-sign", format!("call {i}: {e}"));
                    }
                }
            }
            Some(e) => {
                if t.complete && !t.hard_fault && !t.soft_fault {
                    let e = e.clone();
                    self.bad("C16", "complete-file-refused", format!("call {i}: {e}: {l:?}"));
                }
            }
        }
    }

    // C14, C15
    fn exchanges(&mut self, i: usize) {
        let o = self.w.ops[i].clone();
        let reqs = self.op_reqs(i);
        let signs = reqs.iter().filter(|r| r.kind == Kind::Sign).count();
        let bound = matches!(self.plan.keys.get(self.plan.ops[i].key).map(|k| &k.kind), Some(KeyKind::Bound(_)))
            && !matches!(self.plan.ops[i].kind, OpKind::Load(_));
        if signs > 1 {
            self.bad("C15", "more-than-one-signing-request", format!("call {i} sent {signs}"));
        }
        for f in reqs.iter().filter(|r| r.kind != Kind::Sign && r.outcome.failed()) {
            if let Some(s) = reqs
                .iter()
                .find(|s| s.kind == Kind::Sign && f.done.is_some_and(|d| d.1 < s.seq))
            {
                self.bad(
                    "C14",
                    "went-on-after-failure",
                    format!("call {i} sent signing request {} although its {:?} request {} had ended {:?}", s.id, f.kind, f.id, f.outcome),
                );
            }
        }
        let needs = match &self.plan.ops[i].kind {
            OpKind::Url(_) => bound,
            OpKind::Form(f) => bound && f.signing.is_some(),
            OpKind::Load(_) => false,
        };
        let sup = self.supported(i);
        match &o.end {
            Some(OpEnd::Ok(_)) | Some(OpEnd::OkForm(_)) => {
                if needs && signs != 1 {
                    self.bad("C15", "result-without-signing-request", format!("call {i} sent {signs}"));
                }
                if !needs && !reqs.is_empty() {
                    self.bad("C15", "requests-without-need", format!("call {i} sent {}", reqs.len()));
                }
                if needs {
                    self.count("oracle:remote-success-judged");
                }
                for r in &reqs {
                    if r.outcome.failed() || r.outcome == Outcome::None {
                        self.bad(
                            "C14",
                            "failed-exchange-ignored",
                            format!("call {i} returned a result although req {} ({}) ended {:?}", r.id, r.url, r.outcome),
                        );
                    }
                }
            }
            Some(OpEnd::Err(e)) => {
                if sup == Support::No && signs > 0 {
                    self.bad("C15", "signing-request-of-refused-call", format!("call {i}: {e}"));
                }
                let failed: Vec<&&Req> = reqs.iter().filter(|r| r.outcome.failed()).collect();
                let unclear = reqs
                    .iter()
                    .any(|r| matches!(r.outcome, Outcome::Weird | Outcome::None));
                if failed.is_empty() && sup == Support::Unknown && signs > 0 && reqs.iter().all(|r| r.outcome.good()) {
                    // every exchange went well, so it was the arguments that were refused
                    self.bad("C15", "signing-request-of-refused-call", format!("call {i}: {e}"));
                }
                if failed.is_empty() {
                    let is_load_err = o.file.as_ref().is_some_and(|f| f.load_error.is_some());
                    if !unclear && sup == Support::Yes && !is_load_err && !self.odd_key(i) {
                        self.bad(
                            "C14",
                            "error-without-failure",
                            format!("call {i} failed although nothing went wrong: {e} ({:?})", self.plan.ops[i].kind),
                        );
                        let t = e.to_ascii_lowercase();
                        if !matches!(self.plan.ops[i].kind, OpKind::Form(_)) {
                            let says = |v: &[&str]| v.iter().any(|x| t.contains(x));
                            if says(&["expir", "out of range"]) {
                                self.bad("C09", "window-refused", format!("call {i}: {e}: {:?}", self.plan.ops[i].kind));
                            } else if says(&["object name", "bucket name", "dot segment"]) {
                                self.bad("C08", "name-refused", format!("call {i}: {e}: {:?}", self.plan.ops[i].kind));
                            }
                        }
                    }
                } else if !unclear && failed.len() == 1 {
                    let r = failed[0];
                    self.count("oracle:error-text-judged");
                    let mut text = e.clone();
                    if let Outcome::Status(code, body) = &r.outcome {
                        if !text.contains(&code.to_string()) || !text.contains(body.as_str()) {
                            self.bad(
                                "C14",
                                "status-or-body-not-reported",
                                format!("call {i}: {code} {body:?} answered, the error is {e}"),
                            );
                        }
                        // the body may itself name requests
                        if !body.is_empty() {
                            text = text
                                .split(" <- ")
                                .map(|part| match part.rfind(body.as_str()) {
                                    Some(at) => format!("{}{}", &part[..at], &part[at + body.len()..]),
                                    None => part.to_string(),
                                })
                                .collect::<Vec<_>>()
                                .join(" <- ");
                        }
                    }
                    let t = text.replace(&r.url, "").to_ascii_lowercase();
                    let says = |n: Kind| match n {
                        Kind::Email => t.contains("email request") || t.contains("account request"),
                        Kind::Token => t.contains("token request"),
                        Kind::Sign => t.contains("signblob") || t.contains("sign blob") || t.contains("signing request"),
                        Kind::Other => false,
                    };
                    let others = [Kind::Email, Kind::Token, Kind::Sign]
                        .into_iter()
                        .any(|k| k != r.kind && says(k));
                    if r.kind != Kind::Other && (!says(r.kind) || others) {
                        self.bad(
                            "C14",
                            "wrong-request-blamed",
                            format!("call {i}: the {:?} request failed ({:?}), the error is {e}", r.kind, r.outcome),
                        );
                    }
                }
            }
            _ => {}
        }
    }

    fn odd_key(&self, i: usize) -> bool {
        matches!(
            self.plan.keys.get(self.plan.ops[i].key).map(|k| &k.kind),
            Some(KeyKind::BadLocal { .. })
        )
    }

    // C12, C15 (requests of nobody)
    fn confinement(&mut self) {
        use base64::Engine as _;
        let std64 = base64::engine::general_purpose::STANDARD;
        let mut secrets: Vec<(&str, String)> = vec![];
        for t in &self.w.tokens {
            secrets.push(("access token", t.value.clone()));
        }
        secrets.push(("HMAC secret", ops::HMAC_SECRET.into()));
        // the same in other clothes
        for (what, v) in secrets.clone() {
            secrets.push((what, std64.encode(&v)));
            secrets.push((what, crate::gcs::hex(v.as_bytes())));
            if let Some(part) = v.split(['x', '.']).find(|x| x.len() == 16) {
                secrets.push((what, part.to_string()));
            }
        }
        let bad = self.plan.keys.iter().filter_map(|k| match &k.kind {
            KeyKind::BadLocal { pem, .. } => Some(pem.as_str()),
            _ => None,
        });
        for p in bad {
            key_pieces(p, &mut secrets);
        }
        static OF_KEYS: std::sync::OnceLock<Vec<(&'static str, String)>> = std::sync::OnceLock::new();
        let of_keys = OF_KEYS.get_or_init(|| {
            let mut v = vec![];
            ops::PEM.iter().for_each(|p| key_pieces(p, &mut v));
            v
        });
        let secrets = Secrets::new(secrets.iter().chain(of_keys));
        let planned: Vec<String> = self
            .plan
            .iam
            .sign
            .iter()
            .filter_map(|a| match &a.kind {
                AnswerKind::Redirect(_, to) => Some(to.clone()),
                _ => None,
            })
            .collect();
        // the HTTP client may follow a redirect of the signing service, as long as it carries nothing secret there
        if let Some(f) = self
            .w
            .foreign
            .iter()
            .find(|f| !planned.iter().any(|to| to.contains(&format!("://{f}"))))
        {
            let f = format!("connection to {f}");
            self.bad("C12", "foreign-connection", f);
        }
        for r in self.w.reqs.iter() {
            let Some(op) = r.op else {
                self.bad("C15", "request-of-nobody", format!("req {} {} belongs to no call that is running", r.id, r.url));
                continue;
            };
            let key = self.plan.ops[op].key;
            let bound = matches!(self.plan.keys[key].kind, KeyKind::Bound(_))
                && !matches!(self.plan.ops[op].kind, OpKind::Load(_));
            if !bound {
                self.bad("C12", "traffic-of-a-local-key", format!("call {op} sent {}", r.url));
                continue;
            }
            let flavor = r
                .headers
                .iter()
                .filter(|(k, v)| k == "metadata-flavor" && v == "Google")
                .count();
            if r.host == IAM_NAME {
                if r.scheme != "https" {
                    self.bad("C12", "token-not-over-tls", format!("call {op} sent {}", r.url));
                }
            } else {
                if r.host != crate::world::host_of(self.plan, key) || r.scheme != "http" {
                    self.bad(
                        "C12",
                        "wrong-metadata-host",
                        format!("call {op} on a key made for {} sent {}", crate::world::host_of(self.plan, key), r.url),
                    );
                }
                if flavor != 1 {
                    self.bad("C12", "no-metadata-flavor", format!("call {op} sent {} with {:?}", r.url, r.headers));
                }
                if r.headers.iter().any(|(k, _)| k == "authorization") {
                    self.bad("C12", "token-to-metadata-server", format!("call {op} sent {}", r.url));
                }
            }
            let body = r.body.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()).unwrap_or_default();
            let rightly = |k: &str, v: &str| {
                r.host == IAM_NAME
                    && k == "authorization"
                    && v.strip_prefix("Bearer ").is_some_and(|v| self.w.tokens.iter().any(|t| t.value == v))
            };
            let carries: Vec<&String> =
                r.headers.iter().filter(|(k, v)| !rightly(k, v)).map(|(_, v)| v).collect();
            let found = [&r.url, &body].into_iter().chain(carries).find_map(|t| secrets.find(t));
            if let Some(what) = found {
                self.bad("C12", "secret-in-request", format!("req {} {} carries the {what}", r.id, r.url));
            }
        }
        for r in &self.w.recvs {
            self.count("oracle:received-request-judged");
            let auth = r.headers.iter().any(|(k, _)| k == "authorization");
            if auth && (!r.https || !r.verified || r.host != IAM_NAME) {
                self.bad(
                    "C12",
                    "token-to-the-wrong-place",
                    format!("{} {} received credentials (https {}, verified {})", r.host, r.path, r.https, r.verified),
                );
            }
            if r.host != IAM_NAME {
                for t in &self.w.tokens {
                    if r.headers.iter().any(|(_, v)| v.contains(&t.value))
                        || r.path.contains(&t.value)
                        || String::from_utf8_lossy(&r.body).contains(&t.value)
                    {
                        self.bad("C12", "token-to-the-wrong-place", format!("{} {} received an access token", r.host, r.path));
                    }
                }
            }
        }
        for (i, o) in self.w.ops.iter().enumerate() {
            let mut texts = vec![o.debug.clone()];
            match &o.end {
                Some(OpEnd::Ok(u)) => texts.push(u.clone()),
                Some(OpEnd::OkForm(f)) => {
                    for (_, v) in f {
                        texts.push(v.clone());
                        use base64::Engine as _;
                        if let Ok(b) = base64::engine::general_purpose::STANDARD.decode(v) {
                            texts.push(String::from_utf8_lossy(&b).into_owned());
                        }
                    }
                }
                Some(OpEnd::Err(e)) => texts.push(e.clone()),
                Some(OpEnd::Panicked(e)) => texts.push(e.clone()),
                _ => {}
            }
            {
                if let Some(what) = texts.iter().find_map(|t| secrets.find(t)) {
                    let v = Violation {
                        property: "C12".into(),
                        class: "secret-in-output".into(),
                        detail: format!("the output of call {i} contains the {what}: {:?}", o.end),
                    };
                    if !self.out.iter().any(|x| x.property == v.property && x.class == v.class) {
                        self.out.push(v);
                    }
                }
            }
        }
    }
}

/// What gives a private key away: parts of its lines, of its bytes in hex and as a list of numbers.
fn key_pieces(pem: &str, out: &mut Vec<(&'static str, String)>) {
    use base64::Engine as _;
    let lines: Vec<&str> = pem.lines().filter(|l| l.len() >= 20 && !l.starts_with("---")).collect();
    for (n, l) in lines.iter().enumerate() {
        // what every such key begins with is no secret
        let l = if n == 0 { l.get(40..).unwrap_or("") } else { l };
        for piece in l.as_bytes().chunks_exact(12) {
            out.push(("private key", String::from_utf8_lossy(piece).into_owned()));
        }
    }
    if let Ok(der) = base64::engine::general_purpose::STANDARD.decode(lines.concat()) {
        for part in der.chunks_exact(16).skip(3).step_by(9) {
            out.push(("private key", gcs::hex(part)));
            let decimal: Vec<String> = part.iter().map(|b| b.to_string()).collect();
            out.push(("private key", decimal.join(", ")));
        }
    }
}

/// Looks for many needles at once.
struct Secrets<'a> {
    starts: Vec<u64>,
    needles: std::collections::BTreeMap<[u8; 4], Vec<&'a (&'static str, String)>>,
}

impl<'a> Secrets<'a> {
    fn new(all: impl Iterator<Item = &'a (&'static str, String)>) -> Self {
        let mut s = Secrets { starts: vec![0; 1024], needles: Default::default() };
        for n in all {
            let b = n.1.as_bytes();
            let two = usize::from(b[0]) << 8 | usize::from(b[1]);
            s.starts[two / 64] |= 1 << (two % 64);
            s.needles.entry([b[0], b[1], b[2], b[3]]).or_default().push(n);
        }
        s
    }

    fn find(&self, text: &str) -> Option<&'static str> {
        let t = text.as_bytes();
        let found = |t: &[u8]| {
            (0..t.len().saturating_sub(3)).find_map(|i| {
                let two = usize::from(t[i]) << 8 | usize::from(t[i + 1]);
                if self.starts[two / 64] >> (two % 64) & 1 == 0 {
                    return None;
                }
                let v = self.needles.get(&[t[i], t[i + 1], t[i + 2], t[i + 3]])?;
                v.iter().find(|n| t[i..].starts_with(n.1.as_bytes())).map(|n| n.0)
            })
        };
        found(t).or_else(|| {
            if !t.contains(&b'%') {
                return None;
            }
            let hex = |c: Option<&u8>| c.and_then(|c| char::from(*c).to_digit(16));
            let (mut d, mut i) = (vec![], 0);
            while i < t.len() {
                match (t[i], hex(t.get(i + 1)), hex(t.get(i + 2))) {
                    (b'%', Some(a), Some(b)) => {
                        d.push((a * 16 + b) as u8);
                        i += 3;
                    }
                    (c, ..) => {
                        d.push(c);
                        i += 1;
                    }
                }
            }
            found(&d)
        })
    }
}

pub fn local_explicit(plan: &Plan, i: usize) -> bool {
    let op = &plan.ops[i];
    if !matches!(plan.keys[op.key].kind, KeyKind::Local { .. } | KeyKind::BadLocal { .. } | KeyKind::Hmac) {
        return false;
    }
    let abs = |w: &Option<When>, e: &When| matches!(w, Some(When::Abs(..))) && matches!(e, When::Abs(..));
    match &op.kind {
        OpKind::Url(a) => abs(&a.accessible_at, &a.expires),
        OpKind::Form(f) => f.signing.as_ref().is_some_and(|s| abs(&s.accessible_at, &s.expiration)),
        OpKind::Load(_) => false,
    }
}

fn plain_region(r: &str) -> bool {
    !r.is_empty() && r.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-')
}

fn plain_header(k: &str, v: &str) -> bool {
    let token = |b: u8| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b);
    !k.is_empty()
        && k.bytes().all(token)
        && (!k.eq_ignore_ascii_case("host") || v == "storage.googleapis.com")
        && v.bytes().all(|b| (0x20..0x7f).contains(&b) || b == b'\t')
}

/// Headers a client can send and the service reads in one way only.
fn plain_headers(h: &[(String, String)]) -> bool {
    let once = |n: &str| h.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).count() < 2;
    h.iter().all(|(k, v)| plain_header(k, v)) && once("host") && once("x-goog-content-sha256")
}

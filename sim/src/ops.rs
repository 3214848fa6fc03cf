//! Runs one plan: makes the keys, starts, cancels and records the operations.

use std::cell::RefCell;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use cloud_storage_signature::{
    build_signed_url, BuildSignedUrlOptions, HtmlFormData, HtmlFormDataBuilder, PolicyDocumentSigningOptions,
    SigningKey,
};

use crate::alloc;
use crate::interpose::{self, SimFile};
use crate::plan::*;
use crate::rt::{self, Polled};
use crate::world::{self, FileTruth, Kind, OpEnd};

pub const PEM: [&str; 4] = [
    include_str!("../keys/k2048.pem"),
    include_str!("../keys/k2048b.pem"),
    include_str!("../keys/k3072.pem"),
    include_str!("../keys/k4096.pem"),
];
pub const PUB: [&[u8]; 4] = [
    include_bytes!("../keys/k2048.pub.der"),
    include_bytes!("../keys/k2048b.pub.der"),
    include_bytes!("../keys/k3072.pub.der"),
    include_bytes!("../keys/k4096.pub.der"),
];
pub const HMAC_SECRET: &str = "bGoa+V7g/yqDXvKRqq+JTFn4uQZbPiQJo4pf9RzJ";
pub const EVIL_HOST: &str = "evil-metadata.invalid";

thread_local! {
    static KEYS: RefCell<Vec<Option<SigningKey>>> = const { RefCell::new(Vec::new()) };
    static FAST: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) };
}

fn system_time(ns: i128) -> SystemTime {
    let secs = ns.div_euclid(1_000_000_000);
    let sub = ns.rem_euclid(1_000_000_000) as u32;
    let t = if secs >= 0 {
        UNIX_EPOCH.checked_add(Duration::from_secs(u64::try_from(secs).unwrap_or(u64::MAX)))
    } else {
        UNIX_EPOCH.checked_sub(Duration::from_secs(u64::try_from(-secs).unwrap_or(u64::MAX)))
    };
    t.and_then(|t| t.checked_add(Duration::new(0, sub)))
        .unwrap_or(UNIX_EPOCH)
}

fn resolve(w: &When, now: i128) -> i128 {
    match w {
        When::Abs(s, ns) => i128::from(*s) * 1_000_000_000 + i128::from(*ns),
        When::Rel(ms) => now + i128::from(*ms) * 1_000_000,
    }
}

fn make_keys(plan: &Plan) {
    for (k, v) in &plan.env {
        std::env::set_var(k, v);
    }
    let mut keys = vec![];
    for (n, k) in plan.keys.iter().enumerate() {
        let made = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| make_key(k)));
        if made.is_err() {
            let m = rt::last_panic_any();
            world::with(|w| w.bg_panics.push(format!("while making key {n}: {m}")));
        }
        keys.push(made.ok());
    }
    KEYS.with(|k| *k.borrow_mut() = keys);
}

fn make_key(k: &Key) -> SigningKey {
    let _as = alloc::inside();
    match &k.kind {
        KeyKind::Bound(m) => {
            match &m.host {
                Some(h) => std::env::set_var("GCE_METADATA_HOST", h),
                None => std::env::remove_var("GCE_METADATA_HOST"),
            }
            let k = SigningKey::bound_token();
            std::env::set_var("GCE_METADATA_HOST", EVIL_HOST);
            k
        }
        KeyKind::Local { rsa, email } => SigningKey::service_account(email.clone(), PEM[*rsa].to_string()),
        KeyKind::BadLocal { email, pem } => SigningKey::service_account(email.clone(), pem.clone()),
        KeyKind::Hmac => SigningKey::hmac("GOOG1EXAMPLEACCESSID".to_string(), HMAC_SECRET.to_string()),
    }
}

fn key(op: &Op) -> SigningKey {
    let _as = alloc::inside();
    if op.fresh {
        let k = world::with(|w| w.plan.keys[op.key].clone());
        return make_key(&k);
    }
    let k = KEYS.with(|k| k.borrow()[op.key].clone()).expect("key");
    if op.clone {
        #[allow(clippy::redundant_clone)]
        k.clone()
    } else {
        k
    }
}

fn key_options(a: &UrlArgs, k: SigningKey, start: Option<i128>, expires: i128) -> BuildSignedUrlOptions {
    let _as = alloc::inside();
    BuildSignedUrlOptions {
        bucket_name: a.bucket.clone(),
        object_name: a.object.clone(),
        region: a.region.clone(),
        expires: system_time(expires),
        http_method: a.method.clone(),
        accessible_at: start.map(system_time),
        signing_key: k,
        use_sign_blob: a.use_sign_blob,
        headers: a.headers.clone(),
        query_parameters: a.query.clone(),
    }
}

fn error_text<E: std::error::Error>(e: &E) -> String {
    let mut s = e.to_string();
    let mut src = std::error::Error::source(e);
    while let Some(x) = src {
        s += " <- ";
        s += &x.to_string();
        src = x.source();
    }
    s
}

fn begin(i: usize, start: Option<&When>, expires: Option<&When>) -> (Option<i128>, i128) {
    let now = interpose::wall_ns();
    let s = start.map(|s| resolve(s, now));
    let e = expires.map(|e| resolve(e, now));
    world::with(|w| {
        w.ops[i].start = s;
        w.ops[i].expires = e;
    });
    (s, e.unwrap_or(0))
}

fn finish(i: usize, end: OpEnd, debug: String) {
    world::with(|w| {
        let brief = match &end {
            OpEnd::Ok(u) => format!("url {u}"),
            OpEnd::OkForm(f) => format!("form {f:?}"),
            OpEnd::Err(e) => format!("error {e}"),
            OpEnd::Panicked(p) => format!("panic {p}"),
            OpEnd::Cancelled => "cancelled".to_string(),
        };
        let word = brief.split(' ').next().unwrap_or("").to_string();
        w.note(&format!("end:{i}:{word}"), brief);
        let o = &mut w.ops[i];
        if o.end.is_none() {
            o.end = Some(end);
            o.debug = debug;
            o.ended = Some((interpose::now_ms(), rt::seq(), interpose::wall_ns()));
        }
    });
}

async fn url(i: usize, op: &Op, a: &UrlArgs, k: Option<SigningKey>) {
    let (s, e) = begin(i, a.accessible_at.as_ref(), Some(&a.expires));
    let k = k.unwrap_or_else(|| key(op));
    let options = key_options(a, k, s, e);
    let r = alloc::lib(async { build_signed_url(options).await }).await;
    // the history keeps copies
    match &r {
        Ok(u) => finish(i, OpEnd::Ok(u.clone()), String::new()),
        Err(e) => finish(i, OpEnd::Err(error_text(e)), format!("{e:?}")),
    }
}

fn form_builder(i: usize, op: &Op, a: &FormArgs) -> HtmlFormDataBuilder {
    let _as = alloc::inside();
    let mut b = HtmlFormData::builder();
    if a.twice {
        for (k, _) in &a.fields {
            let v = "set-before";
            b = match k.as_str() {
                "acl" => b.acl(v),
                "bucket" => b.bucket(v),
                "Cache-Control" => b.cache_control(v),
                "Content-Disposition" => b.content_disposition(v),
                "Content-Encoding" => b.content_encoding(v),
                "Content-Type" => b.content_type(v),
                "Expires" => b.expires(v),
                "key" => b.key(v),
                "success_action_redirect" => b.success_action_redirect(v),
                "x-goog-custom-time" => b.x_goog_custom_time(v),
                _ => b,
            };
        }
        if a.content_length.is_some() {
            b = b.content_length(3);
        }
        if a.success_action_status.is_some() {
            b = b.success_action_status(299);
        }
    }
    for (k, v) in &a.fields {
        let v = v.clone();
        b = match k.as_str() {
            "acl" => b.acl(v),
            "bucket" => b.bucket(v),
            "Cache-Control" => b.cache_control(v),
            "Content-Disposition" => b.content_disposition(v),
            "Content-Encoding" => b.content_encoding(v),
            "Content-Type" => b.content_type(v),
            "Expires" => b.expires(v),
            "key" => b.key(v),
            "success_action_redirect" => b.success_action_redirect(v),
            "x-goog-custom-time" => b.x_goog_custom_time(v),
            other => b.x_goog_meta(other.strip_prefix("x-goog-meta-").unwrap_or(other), v),
        };
    }
    if let Some(n) = a.content_length {
        b = b.content_length(n);
    }
    if let Some(n) = a.success_action_status {
        b = b.success_action_status(n);
    }
    if let Some(s) = &a.signing {
        let (start, exp) = begin(i, s.accessible_at.as_ref(), Some(&s.expiration));
        b = b.policy_document_signing_options(PolicyDocumentSigningOptions {
            accessible_at: start.map(system_time),
            expiration: system_time(exp),
            region: s.region.clone(),
            signing_key: key(op),
            use_sign_blob: s.use_sign_blob,
        });
    }
    b
}

async fn form(i: usize, op: &Op, a: &FormArgs) {
    let b = form_builder(i, op, a);
    let r = alloc::lib(async { b.build().await.map(|f| f.into_vec()) }).await;
    match &r {
        Ok(f) => finish(i, OpEnd::OkForm(f.clone()), String::new()),
        Err(e) => finish(i, OpEnd::Err(error_text(e)), format!("{e:?}")),
    }
}

/// The bytes of a key file.
fn key_json(a: &LoadArgs) -> Vec<u8> {
    let mut m = serde_json::Map::new();
    let pad = |m: &mut serde_json::Map<String, serde_json::Value>| {
        if a.pad > 0 {
            m.insert("padding".into(), serde_json::json!("é".repeat(a.pad as usize / 2 + 1)));
        }
    };
    m.insert("type".into(), serde_json::json!("service_account"));
    if a.style == 2 {
        pad(&mut m);
    }
    m.insert("private_key_id".into(), serde_json::json!("0123abcd"));
    m.insert("private_key".into(), serde_json::json!(PEM[a.rsa]));
    if a.style != 2 {
        pad(&mut m);
    }
    m.insert("client_email".into(), serde_json::json!(a.email));
    m.insert("universe_domain".into(), serde_json::json!("googleapis.com"));
    let v = serde_json::Value::Object(m);
    let mut s = match a.style {
        1 => serde_json::to_string_pretty(&v).unwrap() + "\n",
        3 => v.to_string().replace('@', "\\u0040").replace('/', "\\/"),
        _ => v.to_string(),
    }
    .into_bytes();
    s.extend((0..a.tail).map(|n| if n % 64 == 0 { b'\n' } else { b' ' }));
    let at = |p: u32| (s.len() as u64 * u64::from(p) / 1000).min(s.len() as u64 - 1) as usize;
    let (cut, torn, bad) = (a.cut.map(at), a.torn.map(at), a.bad_utf8.map(at));
    if let Some(n) = bad {
        s[n] = 0xff;
    }
    if let Some(n) = torn {
        s[n..].fill(0);
    }
    if let Some(n) = cut {
        s.truncate(n);
    }
    s
}

async fn load(i: usize, op: &Op, a: &LoadArgs) {
    let data = key_json(a);
    let complete = !a.missing
        && std::str::from_utf8(&data)
            .ok()
            .and_then(|s| serde_json::from_str::<serde_json::Value>(s).ok())
            .is_some_and(|v| {
                v.get("client_email").and_then(|e| e.as_str()) == Some(&a.email)
                    && v.get("private_key").and_then(|e| e.as_str()) == Some(PEM[a.rsa])
            });
    let len = data.len() as u64;
    let mut fault = a.fault.clone();
    if let Some((back, e)) = a.end_errno {
        fault.read_errno = Some((len.saturating_sub(back), e));
    }
    let f = &fault;
    let truth = FileTruth {
        complete,
        hard_fault: f.open_errno.is_some() || f.read_errno.is_some_and(|(off, _)| off < len),
        // nobody has to read on once everything is there
        soft_fault: f.read_errno.is_some_and(|(off, _)| off == len)
            || f.stat_errno.is_some() || f.stat_size.is_some() || f.seek_errno.is_some(),
        ..Default::default()
    };
    let name = format!("/simfs/key{i}.json");
    if !a.missing {
        interpose::fs_put(
            &name,
            SimFile {
                data,
                fault,
            },
        );
    }
    let before = interpose::fs_open_count();
    let r = {
        let _as = alloc::inside();
        SigningKey::service_account_from_path(&name)
    };
    let after = interpose::fs_open_count();
    let load_error = r.as_ref().err().map(error_text);
    world::with(|w| {
        w.note(
            &format!("load:{}", r.is_ok()),
            format!("{name} {}", load_error.clone().unwrap_or_default()),
        );
        w.ops[i].file = Some(FileTruth {
            fds_open: after.saturating_sub(before),
            load_error: load_error.clone(),
            ..truth
        });
    });
    match r {
        Err(e) => {
            let (t, d) = (error_text(&e), format!("{e:?}"));
            finish(i, OpEnd::Err(t), d)
        }
        Ok(k) => url(i, op, &a.url, Some(k)).await,
    }
}

fn launch(i: usize) {
    rt::spawn(
        Box::pin(async move {
            let op = world::with(|w| {
                let now = interpose::wall_ns();
                let o = &mut w.ops[i];
                o.started = Some((interpose::now_ms(), rt::seq(), now));
                o.wall_lo = now;
                o.wall_hi = now;
                let op = w.plan.ops[i].clone();
                let word = match op.kind {
                    OpKind::Url(_) => "url",
                    OpKind::Form(_) => "form",
                    OpKind::Load(_) => "load",
                };
                w.note(&format!("start:{i}"), format!("{word} on key {}", op.key));
                op
            });
            if let Some(Cancel::Time(ms)) = op.cancel {
                rt::at(interpose::now_ms() + ms, move || {
                    if world::with(|w| w.ops[i].end.is_none()) {
                        world::probe("fault:cancel-at-time");
                        rt::cancel(i);
                    }
                });
            }
            match &op.kind {
                OpKind::Url(a) => url(i, &op, a, None).await,
                OpKind::Form(a) => form(i, &op, a).await,
                OpKind::Load(a) => load(i, &op, a).await,
            }
        }),
        Some(i),
    );
}

fn schedule_dependents(i: usize) {
    let plan = world::with(|w| w.plan.clone());
    let now = interpose::now_ms();
    for (j, op) in plan.ops.iter().enumerate() {
        match op.start {
            Start::After(k, d) if k == i => rt::at(now + d, move || launch(j)),
            Start::NearExpiry(k, offset) if k == i => {
                let newest = world::with(|w| {
                    w.reqs
                        .iter()
                        .rev()
                        .find(|r| {
                            r.kind == Kind::Token
                                && r.op.is_some_and(|o| w.plan.ops[o].key == op.key)
                        })
                        .and_then(|r| {
                            w.tokens
                                .iter()
                                .find(|t| t.req == Some(r.id))
                                .map(|t| (r.wall, t.lifetime))
                        })
                });
                let d = match newest {
                    None => 0,
                    Some((wall, life)) => {
                        let target = wall + i128::from(life) * 1_000_000_000 - 30_000_000_000
                            + i128::from(offset) * 1_000_000;
                        ((target - interpose::wall_ns()) / 1_000_000).clamp(0, 20_000_000) as u64
                    }
                };
                world::probe("workload:timed-to-expiry");
                rt::at(now + d, move || launch(j))
            }
            _ => {}
        }
    }
}

fn on_poll(i: usize, p: &Polled, polls: u32) {
    let cancelled = polls == u32::MAX;
    match p {
        Polled::Panicked(m) => finish(i, OpEnd::Panicked(m.clone()), String::new()),
        Polled::Done if cancelled => finish(i, OpEnd::Cancelled, String::new()),
        _ => {}
    }
    let cancel = world::with(|w| {
        let now = interpose::wall_ns();
        let s = rt::seq();
        let o = &mut w.ops[i];
        if !cancelled {
            o.polls = polls;
            o.poll_seq.push(s);
            o.wall_lo = o.wall_lo.min(now);
            o.wall_hi = o.wall_hi.max(now);
        }
        o.end.is_none() && matches!(w.plan.ops[i].cancel, Some(Cancel::Poll(n)) if n == polls)
    });
    if cancel {
        world::probe("fault:cancel-at-poll");
        rt::cancel(i);
    }
    if world::with(|w| w.ops[i].end.is_some()) && !cancelled {
        schedule_dependents(i);
    } else if cancelled {
        schedule_dependents(i);
    }
}

/// A poll is about to happen.
fn before_poll(i: usize) {
    world::with(|w| {
        let now = interpose::wall_ns();
        let o = &mut w.ops[i];
        if o.started.is_some() {
            o.wall_lo = o.wall_lo.min(now);
            o.wall_hi = o.wall_hi.max(now);
        }
    });
}

pub struct Ran {
    pub world: world::World,
    pub choices: Vec<u32>,
    pub end: rt::End,
    pub sim_ms: u64,
    pub blocked_ms: u64,
    pub idle_wakes: std::collections::BTreeMap<usize, u32>,
    pub steps: u64,
    pub disk: std::collections::BTreeMap<&'static str, u64>,
}

/// Must be called on a fresh thread.
pub fn run(plan: &Plan, max_steps: u64) -> Ran {
    interpose::enter(
        interpose::SimClock {
            wall0: i128::from(plan.clock.wall0_s) * 1_000_000_000 + i128::from(plan.clock.wall0_ns),
            jumps: plan
                .clock
                .jumps
                .iter()
                .map(|(at, ms)| (*at, i128::from(*ms) * 1_000_000))
                .collect(),
            tick: plan.clock.tick_ns,
            stalls: plan
                .clock
                .stalls
                .iter()
                .map(|(n, ms)| (*n, ms * 1_000_000))
                .collect(),
            reads: 0,
            extra: 0,
        },
        crate::prng::mix(plan.sched.seed ^ 0x77),
    );
    interpose::salt_environment(if plan.differential { plan.sched.seed | 1 } else { 0 });
    let p = std::rc::Rc::new(plan.clone());
    world::install(world::World::new(p.clone()));
    static SIM: world::Sim = world::Sim;
    reqwest::sim::install(&SIM);
    rt::HOOK.with(|h| *h.borrow_mut() = Some(Box::new(on_poll)));
    rt::BEFORE.with(|h| *h.borrow_mut() = Some(Box::new(before_poll)));
    let all_done = std::cell::Cell::new(None::<u64>);
    let total = plan.ops.len();
    let last_checkpoint = plan.checkpoints.last().copied().unwrap_or(0);
    let end = rt::run(
        &plan.sched,
        plan.heal_ms,
        plan.horizon_ms,
        max_steps,
        move || {
            make_keys(&p);
            for (at, _) in &p.clock.jumps {
                rt::at(*at, || {
                    world::with(|w| w.note("clock-jump", String::new()));
                    world::probe("fault:clock-jump");
                });
            }
            for at in &p.checkpoints {
                rt::at(*at, || {
                    let (bytes, blocks) = alloc::held();
                    let tasks = rt::background_tasks();
                    let files = interpose::fs_open_count();
                    world::with(|w| w.checkpoint(bytes, blocks, tasks, files));
                });
            }
            for (i, op) in p.ops.iter().enumerate() {
                if let Start::At(t) = op.start {
                    rt::at(t, move || launch(i));
                }
            }
        },
        move || {
            // some time is left for requests nobody should send any more
            let done = world::with(|w| w.ops.iter().take(total).all(|o| o.end.is_some()));
            if !done {
                return false;
            }
            let now = interpose::now_ms();
            if now < last_checkpoint {
                return false;
            }
            match all_done.get() {
                None => {
                    all_done.set(Some(now));
                    rt::at(now + 3_000, || {});
                    false
                }
                Some(t) => now >= t + 3_000,
            }
        },
    );
    let sim_ms = interpose::last_ms();
    let blocked_ms = interpose::blocked_ms();
    let steps = rt::steps();
    let disk = interpose::fs_stats();
    let mut world = world::take();
    if plan.differential {
        world.probes.insert("env:varied".into(), 1 + interpose::environment_asked());
    }
    interpose::salt_environment(0);
    interpose::leave();
    Ran {
        world,
        choices: rt::take_choices(),
        end,
        sim_ms,
        blocked_ms,
        idle_wakes: rt::idle_wakes(),
        steps,
        disk,
    }
}

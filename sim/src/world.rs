//! Everything outside the process under test: network, metadata servers, IAM; and the history.

use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

use base64::Engine as _;

use crate::interpose;
use crate::plan::*;
use crate::rt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Email,
    Token,
    Sign,
    Other,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    /// no complete answer (yet)
    None,
    Good(Answered),
    /// refused, lost, reset
    Conn(String),
    Status(u16, String),
    Body(String),
    /// neither clearly good nor clearly bad
    Weird,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answered {
    Email(String),
    Token(String),
    Sign,
}

impl Outcome {
    pub fn good(&self) -> bool {
        matches!(self, Outcome::Good(_))
    }
    pub fn failed(&self) -> bool {
        matches!(
            self,
            Outcome::Conn(_) | Outcome::Status(..) | Outcome::Body(_)
        )
    }
}

/// A request handed to the HTTP client.
#[allow(dead_code)]
#[derive(Clone, Debug)]
pub struct Req {
    pub id: u64,
    pub op: Option<usize>,
    pub kind: Kind,
    pub method: String,
    pub url: String,
    pub scheme: String,
    pub host: String,
    pub path: String,
    pub headers: Vec<(String, String)>,
    pub body: Option<Vec<u8>>,
    pub t: u64,
    pub seq: u64,
    pub wall: i128,
    pub outcome: Outcome,
    /// when the final byte of the answer (or the end of the connection) had been delivered
    pub done: Option<(u64, u64)>,
    /// when the caller had the head of the answer (true), or an error, or had given up
    pub left: Option<(u64, bool)>,
    pub received: u32,
    pub answered: u32,
}

/// A request as a server received it.
#[allow(dead_code)]
#[derive(Clone, Debug)]
pub struct Recv {
    pub id: Option<u64>,
    pub host: String,
    pub https: bool,
    pub verified: bool,
    pub method: String,
    pub path: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub t: u64,
}

#[allow(dead_code)]
#[derive(Clone, Debug)]
pub struct Token {
    pub value: String,
    pub host: usize,
    pub account: String,
    /// server time (ms) it was issued at
    pub t: u64,
    pub lifetime: u64,
    pub req: Option<u64>,
}

struct Conn {
    host: usize,
    name: String,
    https: bool,
    verified: bool,
    // towards the client
    rx: VecDeque<u8>,
    rx_eof: bool,
    rx_rst: bool,
    read_waker: Option<Waker>,
    last_to_client: u64,
    // towards the server
    buf: Vec<u8>,
    last_to_server: u64,
    client_closed: bool,
    server_closed: bool,
    busy: bool,
    served: u32,
    epoch: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum OpEnd {
    Ok(String),
    OkForm(Vec<(String, String)>),
    Err(String),
    Panicked(String),
    Cancelled,
}

#[derive(Clone, Debug, Default)]
pub struct OpState {
    pub started: Option<(u64, u64, i128)>,
    pub ended: Option<(u64, u64, i128)>,
    pub end: Option<OpEnd>,
    pub polls: u32,
    /// seq of each poll's end
    pub poll_seq: Vec<u64>,
    pub requests: u32,
    /// the start and the expiry asked for (ns), as resolved when the call began
    pub start: Option<i128>,
    pub expires: Option<i128>,
    /// what the key file held as far as it could be read, and whether a read failed for good
    pub file: Option<FileTruth>,
    /// clock readings (ns) the call may have seen
    pub wall_lo: i128,
    pub wall_hi: i128,
    /// text of the error and of its sources; Debug text
    pub debug: String,
}

#[derive(Clone, Debug, Default)]
pub struct FileTruth {
    pub complete: bool,
    pub hard_fault: bool,
    pub soft_fault: bool,
    pub fds_open: usize,
    pub load_error: Option<String>,
}

/// What the code under test holds at a checkpoint.
#[derive(Clone, Debug, PartialEq)]
pub struct Held {
    pub t: u64,
    /// operations begun and ended
    pub begun: usize,
    pub ended: usize,
    pub bytes: i64,
    pub blocks: i64,
    pub tasks: usize,
    pub files: usize,
    pub conns: usize,
}

pub struct World {
    pub plan: std::rc::Rc<Plan>,
    pub reqs: Vec<Req>,
    pub recvs: Vec<Recv>,
    pub tokens: Vec<Token>,
    pub accounts: Vec<(String, usize, Option<u64>)>,
    pub ops: Vec<OpState>,
    pub log: Vec<String>,
    pub shape: u64,
    pub probes: BTreeMap<String, u64>,
    pub bg_panics: Vec<String>,
    pub foreign: Vec<String>,
    pub held: Vec<Held>,
    conns: Vec<Conn>,
    streams: usize,
    hosts: Vec<String>,
    connects: BTreeMap<usize, u32>,
    counts: BTreeMap<(usize, Kind), u32>,
    serial: u64,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}

pub fn install(w: World) {
    WORLD.with(|x| *x.borrow_mut() = Some(w));
}
pub fn take() -> World {
    WORLD.with(|x| x.borrow_mut().take().expect("world"))
}
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _as = crate::alloc::outside();
    WORLD.with(|x| f(x.borrow_mut().as_mut().expect("world")))
}
pub fn try_with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    let _as = crate::alloc::outside();
    WORLD
        .try_with(|x| match x.try_borrow_mut() {
            Ok(mut g) => g.as_mut().map(f),
            Err(_) => None,
        })
        .ok()
        .flatten()
}
pub fn probe(name: &str) {
    let _ = try_with(|w| w.probe(name));
}
pub fn background_panic(m: &str) {
    let _ = try_with(|w| {
        w.note("panic", format!("background task: {m}"));
        w.bg_panics.push(m.to_string());
    });
}

pub fn host_of(plan: &Plan, i: usize) -> String {
    match &plan.keys[i].kind {
        KeyKind::Bound(m) => m
            .host
            .clone()
            .unwrap_or_else(|| "metadata.google.internal".to_string()),
        _ => format!("local{i}.invalid"),
    }
}

pub const IAM_NAME: &str = "iamcredentials.googleapis.com";

impl World {
    pub fn new(plan: std::rc::Rc<Plan>) -> Self {
        let n = plan.ops.len();
        World {
            hosts: (0..plan.keys.len()).map(|i| host_of(&plan, i)).collect(),
            plan,
            reqs: vec![],
            recvs: vec![],
            tokens: vec![],
            accounts: vec![],
            ops: vec![OpState::default(); n],
            log: vec![],
            shape: 0x1234,
            probes: BTreeMap::new(),
            bg_panics: vec![],
            foreign: vec![],
            held: vec![],
            conns: vec![],
            streams: 0,
            connects: BTreeMap::new(),
            counts: BTreeMap::new(),
            serial: 0,
        }
    }

    pub fn checkpoint(&mut self, bytes: i64, blocks: i64, tasks: usize, files: usize) {
        let h = Held {
            t: interpose::now_ms(),
            begun: self.ops.iter().filter(|o| o.started.is_some()).count(),
            ended: self.ops.iter().filter(|o| o.end.is_some()).count(),
            bytes,
            blocks,
            tasks,
            files,
            conns: self.streams,
        };
        self.note("checkpoint", format!("{h:?}"));
        self.held.push(h);
    }

    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_default() += 1;
    }

    /// Appends to the event log; `kind` alone goes into the interleaving fingerprint.
    pub fn note(&mut self, kind: &str, detail: String) {
        self.shape = crate::prng::hash_str(self.shape, kind);
        let t = interpose::now_ms();
        self.log.push(format!("[{t}ms #{}] {kind} {detail}", rt::seq()));
    }

    fn host_index(&self, authority: &str) -> Option<usize> {
        if authority == IAM_NAME {
            return Some(IAM_HOST);
        }
        self.hosts.iter().position(|h| h == authority)
    }

    fn arrive(&self, host: usize, base: u64) -> u64 {
        let mut t = base;
        loop {
            let mut moved = false;
            for (h, from, to) in &self.plan.net.partitions {
                if *h == host && t >= *from && t < *to {
                    t = *to;
                    moved = true;
                }
            }
            if !moved {
                return t;
            }
        }
    }

    fn latency(&self) -> u64 {
        let n = &self.plan.net;
        u64::from(n.lat_ms) + u64::from(rt::choose(n.jitter_ms + 1))
    }

    // ---------------------------------------------------------------- server to client

    fn send(&mut self, c: usize, bytes: Vec<u8>, done: Option<(u64, Outcome)>) {
        let frag = self.plan.net.frag as usize;
        let mut pieces = vec![];
        let mut rest = &bytes[..];
        while !rest.is_empty() {
            let n = if frag == 0 {
                rest.len()
            } else if pieces.len() > 40 {
                rest.len()
            } else {
                (1 + rt::choose(frag as u32) as usize).min(rest.len())
            };
            if n < rest.len() {
                self.probe("net:fragmented");
            }
            pieces.push(rest[..n].to_vec());
            rest = &rest[n..];
        }
        if pieces.is_empty() {
            pieces.push(vec![]);
        }
        let last = pieces.len() - 1;
        for (i, p) in pieces.into_iter().enumerate() {
            let base = interpose::now_ms() + self.latency();
            let t = self.arrive(self.conns[c].host, base);
            if t > base {
                self.probe("net:partition-delayed");
            }
            let t = t.max(self.conns[c].last_to_client);
            self.conns[c].last_to_client = t;
            let done = if i == last { done.clone() } else { None };
            rt::at(t, move || {
                let (waker, delivered) = with(|w| {
                    let conn = &mut w.conns[c];
                    if conn.client_closed || conn.rx_rst || conn.rx_eof {
                        return (None, None);
                    }
                    conn.rx.extend(p.iter());
                    let waker = conn.read_waker.take();
                    let mut delivered = None;
                    if let Some((id, outcome)) = done {
                        delivered = w.settle(id, outcome);
                    }
                    (waker, delivered)
                });
                if let Some(waker) = waker {
                    waker.wake();
                }
                if let Some(op) = delivered {
                    rt::cancel(op);
                }
            });
        }
    }

    /// Records how the exchange ended. Returns an operation to be cancelled at this very moment.
    fn settle(&mut self, id: u64, outcome: Outcome) -> Option<usize> {
        let Some(r) = self.reqs.get_mut(id as usize - 1) else {
            return None;
        };
        r.outcome = outcome;
        r.done = Some((interpose::now_ms(), rt::seq()));
        let (op, kind, brief) = (r.op, r.kind, brief(&r.outcome));
        let n = self
            .reqs
            .iter()
            .filter(|x| x.op == op && x.id <= id)
            .count() as u32;
        self.note(&format!("answered:{kind:?}:{}", brief.0), format!("req {id} {}", brief.1));
        let op = op?;
        match self.plan.ops[op].cancel {
            Some(Cancel::Delivered(k)) if k == n && self.ops[op].end.is_none() => {
                self.probe("fault:cancel-at-delivery");
                Some(op)
            }
            _ => None,
        }
    }

    fn hang_up(&mut self, c: usize, rst: bool, done: Option<(u64, Outcome)>) {
        self.conns[c].server_closed = true;
        let base = interpose::now_ms() + self.latency();
        let t = self
            .arrive(self.conns[c].host, base)
            .max(self.conns[c].last_to_client);
        self.conns[c].last_to_client = t;
        rt::at(t, move || {
            let (waker, delivered) = with(|w| {
                let conn = &mut w.conns[c];
                if conn.client_closed || conn.rx_rst || conn.rx_eof {
                    return (None, None);
                }
                if rst {
                    conn.rx_rst = true;
                } else {
                    conn.rx_eof = true;
                }
                let waker = conn.read_waker.take();
                let mut delivered = None;
                if let Some((id, outcome)) = done {
                    delivered = w.settle(id, outcome);
                }
                (waker, delivered)
            });
            if let Some(waker) = waker {
                waker.wake();
            }
            if let Some(op) = delivered {
                rt::cancel(op);
            }
        });
    }

    // ---------------------------------------------------------------- client to server

    fn bytes_at_server(&mut self, c: usize, bytes: Vec<u8>) {
        if self.conns[c].server_closed {
            // the peer is gone: reset
            if !self.conns[c].client_closed {
                self.probe("net:write-to-closed");
                self.hang_up(c, true, None);
            }
            return;
        }
        self.conns[c].buf.extend(bytes);
        self.parse(c);
    }

    fn parse(&mut self, c: usize) {
        if self.conns[c].busy {
            return;
        }
        let Some((recv, used)) = parse_request(&self.conns[c].buf) else {
            return;
        };
        self.conns[c].buf.drain(..used);
        self.conns[c].busy = true;
        self.conns[c].epoch += 1;
        let (name, https, verified) = {
            let conn = &self.conns[c];
            (conn.name.clone(), conn.https, conn.verified)
        };
        let recv = Recv {
            host: name,
            https,
            verified,
            t: interpose::now_ms(),
            ..recv
        };
        if let Some(id) = recv.id {
            if let Some(r) = self.reqs.get_mut(id as usize - 1) {
                r.received += 1;
                let elsewhere = (r.host != IAM_NAME && r.host != recv.host)
                    .then(|| format!("{}, sent there from {}", recv.host, r.host));
                if r.received > 1 {
                    self.probe("net:request-resent-by-client-library");
                }
                self.foreign.extend(elsewhere);
            }
        }
        self.recvs.push(recv.clone());
        self.serve(c, recv);
    }

    fn serve(&mut self, c: usize, recv: Recv) {
        let host = self.conns[c].host;
        let kind = if host == IAM_HOST {
            Kind::Sign
        } else if recv.path.ends_with("/email") {
            Kind::Email
        } else if recv.path.ends_with("/token") {
            Kind::Token
        } else {
            Kind::Other
        };
        let n = self.counts.entry((host, kind)).or_default();
        let idx = *n as usize;
        *n += 1;
        let answer = match (host, kind) {
            (IAM_HOST, _) => self.plan.iam.sign.get(idx).cloned(),
            (h, Kind::Email) => match self.plan.keys.get(h).map(|k| &k.kind) {
                Some(KeyKind::Bound(m)) => m.email.get(idx).cloned(),
                _ => None,
            },
            (h, Kind::Token) => match self.plan.keys.get(h).map(|k| &k.kind) {
                Some(KeyKind::Bound(m)) => m.token.get(idx).cloned(),
                _ => None,
            },
            _ => None,
        }
        .unwrap_or_default();
        let now = interpose::now_ms();
        let answer = if now >= self.plan.heal_ms { Answer::default() } else { answer };
        self.note(
            &format!("received:{kind:?}"),
            format!("{} {} req {:?} conn {c}", recv.host, recv.path, recv.id),
        );
        let mut when = now + u64::from(answer.delay_ms);
        if answer.delay_ms > 1000 {
            self.probe("fault:slow-answer");
        }
        if answer.stall {
            when = when.max(self.plan.heal_ms);
            self.probe(&format!("fault:stall-{kind:?}"));
        }
        rt::at(when, move || {
            with(|w| {
                if !w.conns[c].server_closed {
                    w.answer(c, kind, idx, recv, answer);
                }
            })
        });
    }

    fn answer(&mut self, c: usize, kind: Kind, idx: usize, recv: Recv, answer: Answer) {
        let host = self.conns[c].host;
        let id = recv.id;
        let normal = match kind {
            Kind::Email => self.email_answer(host, &recv),
            Kind::Token => self.token_answer(host, idx, &recv, &answer.kind),
            Kind::Sign => self.sign_answer(&recv),
            Kind::Other => Err((404, "not found".to_string())),
        };
        let (status, body, good) = match normal {
            Ok((body, a)) => (200, body, Ok(a)),
            Err((s, b)) => (s, b.clone(), Err((s, b))),
        };
        let settle = |o: Outcome| id.map(|id| (id, o));
        let normal_outcome = match &good {
            Ok(a) => Outcome::Good(a.clone()),
            Err((s, b)) => Outcome::Status(*s, b.clone()),
        };
        let ctype = if kind == Kind::Email { "application/text" } else { "application/json" };
        match answer.kind {
            AnswerKind::Ok | AnswerKind::OkExtra | AnswerKind::Expires(_) => {
                let o = match answer.kind {
                    AnswerKind::Expires(e) if good.is_ok() && kind == Kind::Token && e > (1 << 40) => {
                        self.probe("fault:extreme-lifetime");
                        Outcome::Weird
                    }
                    _ => normal_outcome,
                };
                let body = if answer.kind == AnswerKind::OkExtra && kind != Kind::Email && good.is_ok() {
                    extra_json(&body)
                } else {
                    body
                };
                self.respond(c, status, ctype, body.as_bytes(), &[], settle(o));
            }
            AnswerKind::OkChunked => {
                let b = body.as_bytes();
                let mut out = head(status, ctype, None, &[("transfer-encoding", "chunked".into())]);
                let cut = if b.is_empty() { 0 } else { rt::choose(b.len() as u32) as usize };
                for part in [&b[..cut], &b[cut..]] {
                    if !part.is_empty() {
                        out.extend(format!("{:x}\r\n", part.len()).bytes());
                        out.extend(part);
                        out.extend(b"\r\n");
                    }
                }
                out.extend(b"0\r\n\r\n");
                self.probe("net:chunked-answer");
                self.finish(c, out, settle(normal_outcome));
            }
            AnswerKind::OkClose => {
                self.respond(
                    c,
                    status,
                    ctype,
                    body.as_bytes(),
                    &[("connection", "close".to_string())],
                    settle(normal_outcome),
                );
                self.probe("net:connection-close-answer");
                self.hang_up(c, false, None);
            }
            AnswerKind::Status(s, b) => {
                self.probe(&format!("fault:status-{kind:?}"));
                let o = if (200..300).contains(&s) {
                    Outcome::Weird
                } else {
                    Outcome::Status(s, b.clone())
                };
                self.respond(c, s, "text/plain", b.as_bytes(), &[], settle(o));
            }
            AnswerKind::Reset => {
                self.probe(&format!("fault:reset-{kind:?}"));
                self.hang_up(c, true, settle(Outcome::Conn("reset".into())));
            }
            AnswerKind::Close => {
                self.probe(&format!("fault:close-{kind:?}"));
                self.hang_up(c, false, settle(Outcome::Conn("closed".into())));
            }
            AnswerKind::Truncate(permille, rst) => {
                let mut out = head(status, ctype, Some(body.len()), &[]);
                out.extend(body.as_bytes());
                let n = (out.len() as u64 * u64::from(permille) / 1000) as usize;
                out.truncate(n.min(out.len() - 1));
                self.probe(&format!("fault:truncate-{kind:?}"));
                self.send(c, out, None);
                self.hang_up(c, rst, settle(Outcome::Conn("truncated".into())));
            }
            AnswerKind::StatusBytes(s, b64) => {
                let b = base64::engine::general_purpose::STANDARD
                    .decode(b64)
                    .unwrap_or_default();
                self.probe(&format!("fault:status-bytes-{kind:?}"));
                // (how bytes that are no text are shown is nobody's business)
                self.respond(c, s, "text/plain", &b, &[], settle(Outcome::Status(s, String::new())));
            }
            AnswerKind::Body(b) => {
                let b = fill_in(b, &good, &body);
                let o = if status != 200 {
                    normal_outcome
                } else {
                    self.probe(&format!("fault:body-{kind:?}"));
                    self.classify_body(kind, &b)
                };
                let b = if status == 200 { b } else { body };
                self.respond(c, status, ctype, b.as_bytes(), &[], settle(o));
            }
            AnswerKind::Bytes(b64) => {
                let b = base64::engine::general_purpose::STANDARD
                    .decode(b64)
                    .unwrap_or_default();
                self.probe(&format!("fault:bytes-{kind:?}"));
                self.respond(c, 200, ctype, &b, &[], settle(Outcome::Weird));
            }
            AnswerKind::TokenType(t) => {
                let (body, o) = match (&good, kind) {
                    (Ok(Answered::Token(v)), Kind::Token) => {
                        self.probe("fault:token-type");
                        let o = if t.eq_ignore_ascii_case("bearer") {
                            Outcome::Weird
                        } else {
                            Outcome::Body("token type".into())
                        };
                        (
                            serde_json::json!({"access_token": v, "expires_in": 3599, "token_type": t})
                                .to_string(),
                            o,
                        )
                    }
                    _ => (body, normal_outcome),
                };
                self.respond(c, status, ctype, body.as_bytes(), &[], settle(o));
            }
            AnswerKind::NotHttp => {
                self.probe(&format!("fault:not-http-{kind:?}"));
                self.send(c, b"SSH-2.0-nope\r\n\r\n\r\n".to_vec(), None);
                self.hang_up(c, false, settle(Outcome::Conn("not http".into())));
            }
            AnswerKind::Redirect(s, to) => {
                self.probe(&format!("fault:redirect-{kind:?}"));
                self.respond(
                    c,
                    s,
                    "text/plain",
                    b"moved",
                    &[("location", to)],
                    settle(Outcome::Weird),
                );
            }
        }
    }

    fn respond(
        &mut self,
        c: usize,
        status: u16,
        ctype: &str,
        body: &[u8],
        extra: &[(&str, String)],
        done: Option<(u64, Outcome)>,
    ) {
        let mut out = head(status, ctype, Some(body.len()), extra);
        out.extend(body);
        self.finish(c, out, done);
    }

    fn finish(&mut self, c: usize, bytes: Vec<u8>, done: Option<(u64, Outcome)>) {
        self.send(c, bytes, done);
        let conn = &mut self.conns[c];
        conn.busy = false;
        conn.served += 1;
        let epoch = conn.epoch;
        if conn.served > 1 {
            self.probe("net:connection-reused");
        }
        let idle = self.plan.net.idle_close_ms;
        // a round of counted calls starts after a minute of warming up
        let warming = !self.plan.checkpoints.is_empty() && interpose::now_ms() < 60_000;
        if idle > 0 && !warming {
            rt::at(interpose::now_ms() + u64::from(idle), move || {
                with(|w| {
                    let conn = &w.conns[c];
                    // (no close can cross a request on the wire once faults have ended)
                    if interpose::now_ms() < w.plan.heal_ms && conn.epoch == epoch && !conn.busy && !conn.server_closed && !conn.client_closed
                    {
                        w.probe("net:idle-connection-closed");
                        w.hang_up(c, false, None);
                    }
                })
            });
        }
        self.parse(c);
    }

    // ---------------------------------------------------------------- metadata server

    fn meta(&self, host: usize) -> Option<&Meta> {
        match self.plan.keys.get(host).map(|k| &k.kind) {
            Some(KeyKind::Bound(m)) => Some(m),
            _ => None,
        }
    }

    fn account_now(&self, host: usize) -> String {
        let now = interpose::now_ms();
        let Some(m) = self.meta(host) else {
            return "nobody@example.com".into();
        };
        m.accounts
            .iter()
            .rev()
            .find(|(t, _)| *t <= now)
            .or(m.accounts.first())
            .map(|(_, a)| a.clone())
            .unwrap_or_else(|| format!("default{host}@example.com"))
    }

    fn flavor_ok(recv: &Recv) -> Result<(), (u16, String)> {
        if recv.method != "GET" {
            return Err((405, "method not allowed".into()));
        }
        let n = recv
            .headers
            .iter()
            .filter(|(k, v)| k == "metadata-flavor" && v == "Google")
            .count();
        if n == 1 {
            Ok(())
        } else {
            Err((403, "Missing Metadata-Flavor:Google header.".into()))
        }
    }

    fn email_answer(&mut self, host: usize, recv: &Recv) -> Result<(String, Answered), (u16, String)> {
        Self::flavor_ok(recv)?;
        if recv.path != "/computeMetadata/v1/instance/service-accounts/default/email" {
            return Err((404, "not found".into()));
        }
        let unique = self.meta(host).map(|m| m.unique_accounts).unwrap_or(false);
        let mut a = self.account_now(host);
        if unique {
            self.serial += 1;
            a = format!("u{}-{a}", self.serial);
        }
        self.accounts.push((a.clone(), host, recv.id));
        Ok((a.clone(), Answered::Email(a)))
    }

    fn token_answer(
        &mut self,
        host: usize,
        idx: usize,
        recv: &Recv,
        kind: &AnswerKind,
    ) -> Result<(String, Answered), (u16, String)> {
        Self::flavor_ok(recv)?;
        if recv.path != "/computeMetadata/v1/instance/service-accounts/default/token" {
            return Err((404, "not found".into()));
        }
        self.serial += 1;
        let lifetimes = self.meta(host).map(|m| m.lifetimes.clone()).unwrap_or_default();
        let mut lifetime = lifetimes
            .get(idx.min(lifetimes.len().saturating_sub(1)))
            .copied()
            .unwrap_or(3599);
        if let AnswerKind::Expires(e) = kind {
            lifetime = *e;
        }
        if interpose::now_ms() >= self.plan.heal_ms {
            lifetime = 3599;
        }
        let value = format!(
            "ya29.h{host}s{}x{:016x}.tok-en_",
            self.serial,
            crate::prng::hash_str(self.serial, "token")
        );
        let mut t = Token {
            value: value.clone(),
            host,
            account: self.account_now(host),
            t: interpose::now_ms(),
            lifetime,
            req: recv.id,
        };
        if self.meta(host).map(|m| m.unique_accounts).unwrap_or(false) {
            t.account = String::new(); // any account
        }
        self.tokens.push(t);
        Ok((
            format!(
                "{{\"access_token\":\"{value}\",\"expires_in\":{lifetime},\"token_type\":\"Bearer\"}}"
            ),
            Answered::Token(value),
        ))
    }

    // ---------------------------------------------------------------- IAM credentials service

    fn sign_answer(&mut self, recv: &Recv) -> Result<(String, Answered), (u16, String)> {
        let err = |code: u16, m: &str| {
            Err((
                code,
                format!("{{\"error\": {{\"code\": {code}, \"message\": \"{m}\"}}}}"),
            ))
        };
        if !recv.https {
            return err(403, "SSL is required");
        }
        if recv.method != "POST" {
            return err(404, "not found");
        }
        let Some(email) = recv
            .path
            .strip_prefix("/v1/projects/-/serviceAccounts/")
            .and_then(|p| p.strip_suffix(":signBlob"))
        else {
            return err(404, "not found");
        };
        let email = crate::gcs::percent_decode(email).unwrap_or_default();
        let auth: Vec<&String> = recv
            .headers
            .iter()
            .filter(|(k, _)| k == "authorization")
            .map(|(_, v)| v)
            .collect();
        let token = match auth.as_slice() {
            [a] => match a.strip_prefix("Bearer ") {
                Some(t) => t.to_string(),
                None => return err(401, "invalid authentication credentials"),
            },
            _ => return err(401, "missing authentication credentials"),
        };
        let Some(t) = self.tokens.iter().find(|t| t.value == token) else {
            return err(401, "unknown access token");
        };
        if self.plan.iam.strict {
            let age = interpose::now_ms().saturating_sub(t.t);
            if u128::from(age) >= u128::from(t.lifetime) * 1000 {
                self.probe("iam:expired-token-refused");
                return err(401, "access token expired");
            }
            if !t.account.is_empty() && t.account != email {
                self.probe("iam:account-mismatch-refused");
                return err(403, "permission iam.serviceAccounts.signBlob denied");
            }
        }
        let Ok(body) = serde_json::from_slice::<serde_json::Value>(&recv.body) else {
            return err(400, "invalid JSON payload");
        };
        let payload = body
            .get("payload")
            .and_then(|p| p.as_str())
            .and_then(|p| base64::engine::general_purpose::STANDARD.decode(p).ok());
        let Some(payload) = payload else {
            return err(400, "invalid payload");
        };
        let sig = pseudo_signature(&email, &payload);
        Ok((
            format!(
                "{{\n  \"keyId\": \"k{:08x}\",\n  \"signedBlob\": \"{}\"\n}}\n",
                crate::prng::hash_str(1, &email) as u32,
                base64::engine::general_purpose::STANDARD.encode(sig)
            ),
            Answered::Sign,
        ))
    }

    fn classify_body(&self, kind: Kind, b: &str) -> Outcome {
        match kind {
            Kind::Token => {
                let Ok(v) = serde_json::from_str::<serde_json::Value>(b) else {
                    return Outcome::Body("not json".into());
                };
                let ok = v.get("access_token").is_some_and(|x| x.is_string())
                    && v.get("expires_in").is_some_and(|x| x.is_u64())
                    && v.get("token_type").and_then(|x| x.as_str()) == Some("Bearer");
                if ok || v.is_array() {
                    Outcome::Weird
                } else {
                    Outcome::Body("bad token answer".into())
                }
            }
            Kind::Sign => {
                let Ok(v) = serde_json::from_str::<serde_json::Value>(b) else {
                    return Outcome::Body("not json".into());
                };
                match v.get("signedBlob").and_then(|x| x.as_str()) {
                    None => {
                        if v.is_array() {
                            Outcome::Weird
                        } else {
                            Outcome::Body("no signedBlob".into())
                        }
                    }
                    Some(s) => {
                        if base64::engine::general_purpose::STANDARD.decode(s).is_ok() {
                            Outcome::Weird
                        } else if s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'+' || b == b'/') && s.len() % 4 == 1 {
                            Outcome::Body("signedBlob is cut off".into())
                        } else if s.chars().any(|c| !c.is_ascii_alphanumeric() && !c.is_whitespace() && !"+/-_=".contains(c)) {
                            Outcome::Body("signedBlob is not base64".into())
                        } else {
                            Outcome::Weird
                        }
                    }
                }
            }
            _ => Outcome::Weird,
        }
    }
}

/// Puts the token or signature that the normal answer carries into a scripted body.
fn fill_in(b: String, good: &Result<Answered, (u16, String)>, body: &str) -> String {
    match good {
        Ok(Answered::Token(v)) => b.replace("{TOKEN}", v),
        Ok(Answered::Sign) => {
            let v: serde_json::Value = serde_json::from_str(body).unwrap_or_default();
            let sig = v.get("signedBlob").and_then(|s| s.as_str()).unwrap_or("").to_string();
            let cut = &sig[..sig.len().saturating_sub(7) / 4 * 4 + usize::from(sig.len() > 8)];
            b.replace("{SIG}", &sig).replace("{CUT}", cut)
        }
        _ => b,
    }
}

/// What the (simulated) Google-managed key of an account makes of a payload.
pub fn pseudo_signature(email: &str, payload: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for i in 0u8..8 {
        let mut m = vec![i];
        m.extend(email.as_bytes());
        m.push(0);
        m.extend(payload);
        out.extend(ring::digest::digest(&ring::digest::SHA256, &m).as_ref());
    }
    out
}

fn brief(o: &Outcome) -> (String, String) {
    match o {
        Outcome::None => ("none".into(), String::new()),
        Outcome::Good(a) => ("good".into(), format!("{a:?}")),
        Outcome::Conn(r) => (format!("conn-{r}"), r.clone()),
        Outcome::Status(s, b) => ("status".into(), format!("status {s} {b:?}")),
        Outcome::Body(r) => ("body".into(), r.clone()),
        Outcome::Weird => ("weird".into(), String::new()),
    }
}

fn extra_json(body: &str) -> String {
    match serde_json::from_str::<serde_json::Value>(body) {
        Ok(serde_json::Value::Object(mut m)) => {
            m.insert("x_unknown".into(), serde_json::json!({"a": [1, null, "é"]}));
            m.insert("id_token".into(), serde_json::json!(null));
            serde_json::to_string_pretty(&m).unwrap() + "\n"
        }
        _ => body.to_string(),
    }
}

fn head(status: u16, ctype: &str, len: Option<usize>, extra: &[(&str, String)]) -> Vec<u8> {
    let mut s = format!("HTTP/1.1 {status} X\r\ncontent-type: {ctype}\r\nmetadata-flavor: Google\r\n");
    if let Some(len) = len {
        s += &format!("content-length: {len}\r\n");
    }
    for (k, v) in extra {
        s += &format!("{k}: {v}\r\n");
    }
    s += "\r\n";
    s.into_bytes()
}

fn parse_request(buf: &[u8]) -> Option<(Recv, usize)> {
    let end = buf.windows(4).position(|w| w == b"\r\n\r\n")?;
    let text = String::from_utf8_lossy(&buf[..end]).into_owned();
    let mut lines = text.split("\r\n");
    let first = lines.next()?;
    let mut parts = first.split(' ');
    let method = parts.next()?.to_string();
    let path = parts.next()?.to_string();
    let mut headers = vec![];
    let mut len = 0usize;
    let mut chunked = false;
    let mut id = None;
    for l in lines {
        let (k, v) = l.split_once(':')?;
        let (k, v) = (k.trim().to_ascii_lowercase(), v.trim().to_string());
        match k.as_str() {
            "content-length" => len = v.parse().ok()?,
            "transfer-encoding" => chunked = v.eq_ignore_ascii_case("chunked"),
            "x-sim-req" => {
                id = v.parse().ok();
                continue;
            }
            _ => {}
        }
        headers.push((k, v));
    }
    let start = end + 4;
    let (body, used) = if chunked {
        let mut body = vec![];
        let mut at = start;
        loop {
            let nl = buf[at..].windows(2).position(|w| w == b"\r\n")? + at;
            let n = usize::from_str_radix(std::str::from_utf8(&buf[at..nl]).ok()?.trim(), 16).ok()?;
            let data = nl + 2;
            if buf.len() < data + n + 2 {
                return None;
            }
            body.extend(&buf[data..data + n]);
            at = data + n + 2;
            if n == 0 {
                break;
            }
        }
        (body, at)
    } else {
        if buf.len() < start + len {
            return None;
        }
        (buf[start..start + len].to_vec(), start + len)
    };
    Some((
        Recv {
            id,
            host: String::new(),
            https: false,
            verified: false,
            method,
            path,
            headers,
            body,
            t: 0,
        },
        used,
    ))
}

// -------------------------------------------------------------------- the seam in reqwest

pub struct Sim;

struct Connecting {
    slot: std::sync::Arc<std::sync::Mutex<(Option<Result<usize, String>>, Option<Waker>)>>,
}

impl Future for Connecting {
    type Output = Result<Box<dyn reqwest::sim::SimIo>, reqwest::sim::BoxError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let _as = crate::alloc::outside();
        let mut g = self.slot.lock().unwrap();
        match g.0.take() {
            None => {
                g.1 = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(Ok(c)) => {
                with(|w| w.streams += 1);
                Poll::Ready(Ok(Box::new(Stream { conn: c }) as Box<dyn reqwest::sim::SimIo>))
            }
            Some(Err(e)) => Poll::Ready(Err(Box::new(io::Error::other(e)))),
        }
    }
}

impl reqwest::sim::Simulator for Sim {
    fn connect(&self, dst: &http::Uri, verified: bool, proxied: bool) -> reqwest::sim::ConnectFuture {
        let _as = crate::alloc::outside();
        let slot = std::sync::Arc::new(std::sync::Mutex::new((None, None)));
        let slot2 = slot.clone();
        let authority = dst.authority().map(|a| a.as_str().to_string()).unwrap_or_default();
        let https = dst.scheme_str() == Some("https");
        let known = try_with(|w| {
            let mut name = authority.clone();
            if https {
                name = name.trim_end_matches(":443").to_string();
            } else {
                name = name.trim_end_matches(":80").to_string();
            }
            let host = w.host_index(&name).or_else(|| w.host_index(&authority));
            w.probe("net:connection-attempts");
            if proxied && https {
                // a tunnel: the proxy sees a name and ciphertext
                w.probe("net:tunnelled-through-proxy");
            } else if proxied && host.is_some_and(|h| h != IAM_HOST) {
                w.foreign.push(format!("a proxy, for {authority}"));
            }
            let now = interpose::now_ms();
            let h = host.unwrap_or(1000);
            let n = w.connects.entry(h).or_default();
            let nth = *n;
            *n += 1;
            w.note(&format!("connect:{}", if h == IAM_HOST { "iam" } else { "meta" }), format!("{authority} #{nth}"));
            let fault = w
                .plan
                .net
                .connect
                .iter()
                .find(|f| f.host == h && f.nth == nth && now < w.plan.heal_ms)
                .cloned();
            let mut t = now + 2 * w.latency();
            let mut result: Result<bool, String> = Ok(false);
            if host.is_none() {
                w.foreign.push(authority.clone());
            }
            if let Some(f) = fault {
                w.probe(&format!("fault:connect-{:?}", f.kind));
                t += u64::from(f.delay_ms);
                match f.kind {
                    ConnFaultKind::Refused => result = Err("connection refused (sim)".into()),
                    ConnFaultKind::TimedOut => result = Err("connection timed out (sim)".into()),
                    ConnFaultKind::Dns => result = Err("dns error (sim)".into()),
                    ConnFaultKind::Tls => result = Err("invalid peer certificate (sim)".into()),
                    ConnFaultKind::Silent => t = t.max(w.plan.heal_ms),
                    ConnFaultKind::ResetAtOnce => result = Ok(true),
                }
            }
            let t = w.arrive(h, t);
            (t, h, result)
        });
        let Some((t, h, result)) = known else {
            *slot.lock().unwrap() = (Some(Err("outside the simulation".into())), None);
            return Box::pin(Connecting { slot });
        };
        rt::at(t, move || {
            let r = match result {
                Err(e) => Err(e),
                Ok(reset) => Ok(with(|w| {
                    let c = w.conns.len();
                    w.conns.push(Conn {
                        host: h,
                        name: authority.trim_end_matches(if https { ":443" } else { ":80" }).to_string(),
                        https,
                        verified,
                        rx: VecDeque::new(),
                        rx_eof: false,
                        rx_rst: reset,
                        read_waker: None,
                        last_to_client: 0,
                        buf: vec![],
                        last_to_server: 0,
                        client_closed: false,
                        server_closed: reset,
                        busy: false,
                        served: 0,
                        epoch: 0,
                    });
                    c
                })),
            };
            let mut g = slot2.lock().unwrap();
            g.0 = Some(r);
            if let Some(w) = g.1.take() {
                w.wake();
            }
        });
        Box::pin(Connecting { slot })
    }

    fn spawn(&self, task: Pin<Box<dyn Future<Output = ()> + Send>>) {
        rt::spawn(task, None);
    }

    fn on_left(&self, id: u64, answered: bool) {
        let t = interpose::now_ms();
        let _ = try_with(|w| {
            if let Some(r) = w.reqs.get_mut(id as usize - 1) {
                r.left = Some((t, answered));
            }
        });
    }

    fn on_request(
        &self,
        method: &http::Method,
        url: &url::Url,
        headers: &http::HeaderMap,
        body: Option<&[u8]>,
    ) -> u64 {
        let op = rt::cur_op();
        let wall = interpose::wall_ns();
        let t = interpose::now_ms();
        let seq = rt::seq();
        let r = try_with(|w| {
            let id = w.reqs.len() as u64 + 1;
            let host = url.host_str().unwrap_or("").to_string()
                + &url.port().map(|p| format!(":{p}")).unwrap_or_default();
            let kind = if host == IAM_NAME || url.path().contains(":signBlob") {
                Kind::Sign
            } else if url.path().ends_with("/email") {
                Kind::Email
            } else if url.path().ends_with("/token") {
                Kind::Token
            } else {
                Kind::Other
            };
            w.reqs.push(Req {
                id,
                op,
                kind,
                method: method.to_string(),
                url: url.to_string(),
                scheme: url.scheme().to_string(),
                host,
                path: url.path().to_string(),
                headers: headers
                    .iter()
                    .map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned()))
                    .collect(),
                body: body.map(|b| b.to_vec()),
                t,
                seq,
                wall,
                outcome: Outcome::None,
                done: None,
                left: None,
                received: 0,
                answered: 0,
            });
            w.note(&format!("request:{kind:?}:{op:?}"), format!("req {id} {method} {url}"));
            if let Some(op) = op {
                w.ops[op].requests += 1;
                let n = w.ops[op].requests;
                if let Some(Cancel::Req(k, delay)) = w.plan.ops[op].cancel {
                    if k == n {
                        rt::at(t + delay, move || {
                            if with(|w| w.ops[op].end.is_none()) {
                                probe("fault:cancel-after-request");
                                rt::cancel(op);
                            }
                        });
                    }
                }
            }
            id
        });
        r.unwrap_or(0)
    }
}

struct Stream {
    conn: usize,
}

impl Drop for Stream {
    fn drop(&mut self) {
        let c = self.conn;
        let _ = try_with(|w| {
            w.streams -= 1;
            w.conns[c].client_closed = true;
            w.conns[c].server_closed = true;
        });
    }
}

impl hyper::rt::Read for Stream {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        mut buf: hyper::rt::ReadBufCursor<'_>,
    ) -> Poll<io::Result<()>> {
        let c = self.conn;
        with(|w| {
            let frag = w.plan.net.frag;
            let conn = &mut w.conns[c];
            if !conn.rx.is_empty() {
                let mut n = conn.rx.len().min(buf.remaining());
                if frag > 0 && n > 1 && rt::chance(100) {
                    n = 1 + rt::choose(n as u32) as usize;
                }
                let bytes: Vec<u8> = conn.rx.drain(..n).collect();
                buf.put_slice(&bytes);
                return Poll::Ready(Ok(()));
            }
            if conn.rx_rst {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if conn.rx_eof {
                return Poll::Ready(Ok(()));
            }
            conn.read_waker = Some(cx.waker().clone());
            Poll::Pending
        })
    }
}

impl hyper::rt::Write for Stream {
    fn poll_write(self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let c = self.conn;
        with(|w| {
            if w.conns[c].rx_rst {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            let mut n = buf.len();
            if w.plan.net.frag > 0 && n > 1 && rt::chance(200) {
                n = 1 + rt::choose(n as u32) as usize;
                w.probe("net:short-write");
            }
            let bytes = buf[..n].to_vec();
            let base = interpose::now_ms() + w.latency();
            let t = w.arrive(w.conns[c].host, base).max(w.conns[c].last_to_server);
            w.conns[c].last_to_server = t;
            rt::at(t, move || {
                with(|w| {
                    if !w.conns[c].client_closed {
                        w.bytes_at_server(c, bytes)
                    }
                })
            });
            Poll::Ready(Ok(n))
        })
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

//! A plan is everything that determines a run besides the code: the run is a pure function of it.

use serde::{Deserialize, Serialize};

use crate::interpose::FileFault;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    /// Name of the generator profile.
    pub profile: String,
    pub clock: Clock,
    pub sched: Sched,
    pub net: Net,
    pub iam: Iam,
    pub keys: Vec<Key>,
    /// environment of the process (proxy settings)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub env: Vec<(String, String)>,
    pub ops: Vec<Op>,
    /// All faults have ended at this simulated time (ms).
    pub heal_ms: u64,
    /// The run is cut off at this simulated time; whatever is unfinished then is stuck.
    pub horizon_ms: u64,
    /// Compare the outputs of local operations with those of a quiet world.
    #[serde(default)]
    pub differential: bool,
    /// Times (ms) at which nothing should be going on and what the code under test holds is counted.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub checkpoints: Vec<u64>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Clock {
    pub wall0_s: i64,
    #[serde(default)]
    pub wall0_ns: u32,
    /// (at ms, jump in ms)
    #[serde(default)]
    pub jumps: Vec<(u64, i64)>,
    /// ns added by every wall-clock read
    #[serde(default)]
    pub tick_ns: u64,
    /// (n-th read, ms)
    #[serde(default)]
    pub stalls: Vec<(u64, u64)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Strategy {
    Fifo,
    Lifo,
    Uniform,
    /// random priorities, changed at random points
    Priority,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub seed: u64,
    pub strategy: Strategy,
    /// permille of polls that run with a nearly exhausted cooperative budget
    pub burn: u32,
    /// permille of polls that are held back for some ms instead
    pub hold: u32,
    /// holding back stops at heal_ms
    pub hold_max_ms: u32,
    /// Recorded choices (replay); when exhausted, 0 is chosen.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub choices: Option<Vec<u32>>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Net {
    pub lat_ms: u32,
    pub jitter_ms: u32,
    /// Largest fragment delivered or accepted at once (0: unlimited)
    pub frag: u32,
    /// Connection attempts: (host index, n-th attempt to that host) -> fault
    #[serde(default)]
    pub connect: Vec<ConnFault>,
    /// (host index, from ms, to ms): nothing is delivered in the window
    #[serde(default)]
    pub partitions: Vec<(usize, u64, u64)>,
    /// servers close idle connections after this time (0: never)
    #[serde(default)]
    pub idle_close_ms: u32,
}

/// Host index: keys' metadata hosts are 0..keys, IAM is usize::MAX (99 in JSON).
pub const IAM_HOST: usize = 99;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConnFault {
    pub host: usize,
    pub nth: u32,
    pub kind: ConnFaultKind,
    #[serde(default)]
    pub delay_ms: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum ConnFaultKind {
    Refused,
    TimedOut,
    Dns,
    Tls,
    /// no answer until heal_ms, then connected
    Silent,
    /// connected, then reset at once
    ResetAtOnce,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Key {
    pub kind: KeyKind,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum KeyKind {
    Bound(Meta),
    /// index of the test RSA key, account
    Local { rsa: usize, email: String },
    /// a service account with an unusable private key
    BadLocal { email: String, pem: String },
    Hmac,
}

/// The metadata server of one key.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Meta {
    /// value of GCE_METADATA_HOST when the key is made; None: unset
    pub host: Option<String>,
    /// default account from a time on; the first entry is at 0
    pub accounts: Vec<(u64, String)>,
    /// every account answer names a new account
    #[serde(default)]
    pub unique_accounts: bool,
    /// token lifetimes by token request; the last repeats
    pub lifetimes: Vec<u64>,
    #[serde(default)]
    pub email: Vec<Answer>,
    #[serde(default)]
    pub token: Vec<Answer>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Iam {
    /// token must belong to the named account and be unexpired
    pub strict: bool,
    /// by order of arrival
    #[serde(default)]
    pub sign: Vec<Answer>,
}

/// What the n-th request of a kind meets. Requests beyond the list get a normal answer.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Answer {
    #[serde(default)]
    pub delay_ms: u32,
    /// answer not before heal_ms
    #[serde(default)]
    pub stall: bool,
    #[serde(default)]
    pub kind: AnswerKind,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum AnswerKind {
    #[default]
    Ok,
    /// normal answer in chunked encoding
    OkChunked,
    /// normal answer, connection closed afterwards
    OkClose,
    /// normal answer, JSON with unknown fields and whitespace
    OkExtra,
    Status(u16, String),
    /// status with a body of these bytes (base64)
    StatusBytes(u16, String),
    /// connection reset without an answer
    Reset,
    /// connection closed cleanly without an answer
    Close,
    /// permille of the answer, then closed (reset when true)
    Truncate(u32, bool),
    /// 200 with this body; {TOKEN}, {SIG} and {CUT} stand for the token, the signature and a part of it
    Body(String),
    /// 200 with these bytes (base64)
    Bytes(String),
    TokenType(String),
    /// normal answer but with this expires_in
    Expires(u64),
    /// something that is not HTTP
    NotHttp,
    /// redirect (status, location)
    Redirect(u16, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub kind: OpKind,
    pub key: usize,
    /// use a clone of the key
    #[serde(default)]
    pub clone: bool,
    /// use a key made for this call alone, like the named one
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub fresh: bool,
    pub start: Start,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancel: Option<Cancel>,
    /// checks that it succeeds (started after all faults)
    #[serde(default)]
    pub probe: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Start {
    At(u64),
    After(usize, u64),
    /// when the newest token asked for through the op's key has 30 s + offset left, and not before
    /// the given op has ended
    NearExpiry(usize, i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cancel {
    /// dropped after the n-th poll
    Poll(u32),
    /// dropped this long after its start
    Time(u64),
    /// dropped so long after its n-th request was issued
    Req(u32, u64),
    /// dropped when the answer to its n-th request has arrived, before it is polled again
    Delivered(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum OpKind {
    Url(UrlArgs),
    Form(FormArgs),
    Load(LoadArgs),
}

/// A point in time: absolute ns since the epoch, or relative to the clock when the op starts.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum When {
    /// (seconds, ns)
    Abs(i64, u32),
    /// ms relative to the wall clock at op start
    Rel(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UrlArgs {
    pub bucket: String,
    pub object: String,
    pub region: Option<String>,
    pub method: String,
    pub accessible_at: Option<When>,
    pub expires: When,
    pub use_sign_blob: bool,
    pub headers: Vec<(String, String)>,
    pub query: Vec<(String, String)>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct FormArgs {
    /// (field, value); x-goog-meta-* are custom metadata
    pub fields: Vec<(String, String)>,
    /// Every field that can be set again was set to something else before.
    #[serde(default)]
    pub twice: bool,
    pub content_length: Option<u64>,
    pub success_action_status: Option<u16>,
    pub signing: Option<FormSigning>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FormSigning {
    pub accessible_at: Option<When>,
    pub expiration: When,
    pub region: Option<String>,
    pub use_sign_blob: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LoadArgs {
    /// index of the test RSA key
    pub rsa: usize,
    pub email: String,
    /// how the JSON is written (0 compact, 1 pretty, 2 with extra fields, 3 escaped)
    pub style: u32,
    /// extra bytes of padding inside the JSON
    pub pad: u32,
    pub fault: FileFault,
    /// the file is cut after so many permille of its bytes
    #[serde(default)]
    pub cut: Option<u32>,
    /// the tail from this permille on reads as zeros (torn write)
    #[serde(default)]
    pub torn: Option<u32>,
    /// this permille's byte is replaced by 0xff
    #[serde(default)]
    pub bad_utf8: Option<u32>,
    /// so many bytes of white space follow the JSON
    #[serde(default)]
    pub tail: u32,
    /// reading fails with this error this many bytes before the end
    #[serde(default)]
    pub end_errno: Option<(u64, i32)>,
    /// no such file
    #[serde(default)]
    pub missing: bool,
    /// sign with the loaded key
    pub url: UrlArgs,
}

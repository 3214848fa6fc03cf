//! The receiving side, written from the published rules and not from the code under test: what the
//! storage service makes of a signed URL or an upload form.

use std::collections::BTreeMap;

use base64::Engine as _;

pub fn percent_decode_bytes(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = b.get(i + 1..i + 3)?;
            if !h.iter().all(|c| c.is_ascii_hexdigit()) {
                return None;
            }
            out.push(u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Some(out)
}

pub fn percent_decode(s: &str) -> Option<String> {
    String::from_utf8(percent_decode_bytes(s)?).ok()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn encode(bytes: &[u8]) -> String {
    let mut s = String::new();
    for b in bytes {
        if b.is_ascii_alphanumeric() || b"-._~".contains(b) {
            s.push(*b as char);
        } else {
            s += &format!("%{b:02X}");
        }
    }
    s
}

// ------------------------------------------------------------------------------- time

fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

fn civil(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> Option<i64> {
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let dim = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if !(1..=12).contains(&mo) || d < 1 || d > dim[mo as usize - 1] || h > 23 || mi > 59 || s > 59 {
        return None;
    }
    Some(days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + s)
}

fn num(s: &str) -> Option<i64> {
    if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) {
        s.parse().ok()
    } else {
        None
    }
}

/// 20220101T000000Z
pub fn parse_basic(s: &str) -> Option<i64> {
    if s.len() != 16 || !s.is_ascii() || &s[8..9] != "T" || &s[15..] != "Z" {
        return None;
    }
    civil(
        num(&s[0..4])?,
        num(&s[4..6])?,
        num(&s[6..8])?,
        num(&s[9..11])?,
        num(&s[11..13])?,
        num(&s[13..15])?,
    )
}

/// RFC 3339, in ns
pub fn parse_rfc3339(s: &str) -> Option<i128> {
    if s.len() < 20 || !s.is_ascii() {
        return None;
    }
    if &s[4..5] != "-" || &s[7..8] != "-" || &s[10..11] != "T" || &s[13..14] != ":" || &s[16..17] != ":" {
        return None;
    }
    let secs = civil(
        num(&s[0..4])?,
        num(&s[5..7])?,
        num(&s[8..10])?,
        num(&s[11..13])?,
        num(&s[14..16])?,
        num(&s[17..19])?,
    )?;
    let mut ns = i128::from(secs) * 1_000_000_000;
    let mut rest = &s[19..];
    if let Some(r) = rest.strip_prefix('.') {
        let n = r.bytes().take_while(|b| b.is_ascii_digit()).count();
        let mut f = format!("{:0<9}", &r[..n]);
        f.truncate(9);
        ns += i128::from(num(&f)?);
        rest = &r[n..];
    }
    if rest == "Z" {
        return Some(ns);
    }
    let sign = match rest.get(0..1)? {
        "+" => 1,
        "-" => -1,
        _ => return None,
    };
    if rest.len() != 6 || &rest[3..4] != ":" {
        return None;
    }
    Some(ns - sign * i128::from(num(&rest[1..3])? * 3600 + num(&rest[4..6])? * 60) * 1_000_000_000)
}

// ------------------------------------------------------------------------------- keys

/// Who can have signed what.
pub trait Keyring {
    /// The public keys (PKCS#1 DER) of user-managed keys of this account.
    fn user_keys(&self, account: &str) -> Vec<&'static [u8]>;
    /// All accounts that exist, for diagnosis.
    fn accounts(&self) -> Vec<String>;
    /// Whether the account has a Google-managed key in this world.
    fn remote(&self, account: &str) -> bool;
}

#[derive(Debug, PartialEq)]
pub enum Sig {
    Good,
    /// made by another account's key
    Other(String),
    Bad,
}

pub fn check_signature(ring: &dyn Keyring, account: &str, message: &[u8], hex: &str) -> Sig {
    let mut sig = vec![];
    if hex.len() % 2 != 0 || !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
        return Sig::Bad;
    }
    for i in (0..hex.len()).step_by(2) {
        sig.push(u8::from_str_radix(&hex[i..i + 2], 16).unwrap());
    }
    let ok = |a: &str| {
        (ring.remote(a) && crate::world::pseudo_signature(a, message) == sig)
            || ring.user_keys(a).iter().any(|der| {
                ring::signature::UnparsedPublicKey::new(&ring::signature::RSA_PKCS1_2048_8192_SHA256, der)
                    .verify(message, &sig)
                    .is_ok()
            })
    };
    if ok(account) {
        return Sig::Good;
    }
    for a in ring.accounts() {
        if a != account && ok(&a) {
            return Sig::Other(a);
        }
    }
    Sig::Bad
}

// ------------------------------------------------------------------------------- signed URL

pub struct Signed {
    pub account: String,
    pub location: String,
    pub signature: Sig,
}

/// What a URL asks for, decoded, whether or not the service would accept it.
pub struct Glance {
    pub bucket: Vec<u8>,
    pub object: Vec<u8>,
    pub query: Vec<(Vec<u8>, Vec<u8>)>,
    pub signed_headers: Vec<String>,
    pub date: Option<i64>,
    pub expires: Option<i64>,
}

pub const SIGNING_PARAMETERS: [&str; 6] = [
    "X-Goog-Algorithm",
    "X-Goog-Credential",
    "X-Goog-Date",
    "X-Goog-Expires",
    "X-Goog-SignedHeaders",
    "X-Goog-Signature",
];

fn signing_parameter(k: &[u8]) -> bool {
    SIGNING_PARAMETERS.iter().any(|n| k.eq_ignore_ascii_case(n.as_bytes()))
}

/// None: not a URL of the storage service at all.
pub fn glance(url: &str) -> Option<Glance> {
    let parsed = url::Url::parse(url).ok()?;
    let rest = parsed.as_str().strip_prefix("https://storage.googleapis.com/")?;
    let rest = rest.split('#').next()?;
    let (path, query) = rest.split_once('?').unwrap_or((rest, ""));
    let decoded = path
        .split('/')
        .map(|s| percent_decode_bytes(s).unwrap_or_else(|| s.as_bytes().to_vec()))
        .collect::<Vec<_>>();
    let lenient = |s: &str| percent_decode_bytes(s).unwrap_or_else(|| s.as_bytes().to_vec());
    let pairs: Vec<(Vec<u8>, Vec<u8>)> = query
        .split('&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let (k, v) = p.split_once('=').unwrap_or((p, ""));
            (lenient(k), lenient(v))
        })
        .collect();
    let get = |n: &str| {
        pairs
            .iter()
            .find(|(k, _)| k.eq_ignore_ascii_case(n.as_bytes()))
            .map(|(_, v)| String::from_utf8_lossy(v).into_owned())
    };
    Some(Glance {
        bucket: decoded[0].clone(),
        object: decoded[1..].join(&b'/'),
        signed_headers: get("X-Goog-SignedHeaders")
            .unwrap_or_default()
            .split(';')
            .map(|h| h.to_ascii_lowercase())
            .collect(),
        date: get("X-Goog-Date").and_then(|d| parse_basic(&d)),
        expires: get("X-Goog-Expires").and_then(|d| num(&d)),
        query: pairs.into_iter().filter(|(k, _)| !signing_parameter(k)).collect(),
    })
}

pub fn lower(headers: &[(String, String)]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in headers {
        m.entry(k.to_ascii_lowercase())
            .or_default()
            .push(
                v.split([' ', '\t'])
                    .filter(|w| !w.is_empty())
                    .collect::<Vec<_>>()
                    .join(" "),
            );
    }
    m
}

/// Err: the service answers 400 or the URL cannot be sent as it is.
pub fn read_url(
    url: &str,
    method: &str,
    headers: &[(String, String)],
    ring: &dyn Keyring,
) -> Result<Signed, String> {
    let parsed = url::Url::parse(url).map_err(|e| format!("not a URL: {e}"))?;
    if parsed.as_str() != url {
        return Err(format!("an HTTP client changes the URL to {}", parsed.as_str()));
    }
    let rest = url
        .strip_prefix("https://storage.googleapis.com")
        .ok_or("wrong scheme or host")?;
    let legal = |b: u8| b.is_ascii_alphanumeric() || b"-._~%/?=&!$'()*+,;:@".contains(&b);
    if let Some(b) = rest.bytes().find(|b| !legal(*b)) {
        return Err(format!("illegal byte {b:#04x} in the URL"));
    }
    let (path, query) = rest.split_once('?').ok_or("no query")?;
    if !path.starts_with('/') {
        return Err("no path".into());
    }
    let mut canonical_path = String::new();
    for seg in path[1..].split('/') {
        let d = percent_decode_bytes(seg).ok_or("bad percent-encoding in the path")?;
        canonical_path.push('/');
        canonical_path += &encode(&d);
    }
    let mut pairs = vec![];
    for p in query.split('&') {
        let (k, v) = p.split_once('=').unwrap_or((p, ""));
        let k = percent_decode_bytes(k).ok_or("bad percent-encoding in the query")?;
        let v = percent_decode_bytes(v).ok_or("bad percent-encoding in the query")?;
        pairs.push((k, v));
    }
    let goog = |name: &str| -> Result<String, String> {
        let all: Vec<_> = pairs
            .iter()
            .filter(|(k, _)| k.eq_ignore_ascii_case(name.as_bytes()))
            .collect();
        match all.as_slice() {
            [(_, v)] => String::from_utf8(v.clone()).map_err(|_| format!("{name} is not text")),
            [] => Err(format!("{name} is missing")),
            _ => Err(format!("{name} is given more than once")),
        }
    };
    let algorithm = goog("X-Goog-Algorithm")?;
    if algorithm != "GOOG4-RSA-SHA256" {
        return Err(format!("algorithm {algorithm}"));
    }
    let credential = goog("X-Goog-Credential")?;
    let date_s = goog("X-Goog-Date")?;
    let expires_s = goog("X-Goog-Expires")?;
    let signed_headers_s = goog("X-Goog-SignedHeaders")?;
    let signature_hex = goog("X-Goog-Signature")?;
    parse_basic(&date_s).ok_or_else(|| format!("bad date {date_s}"))?;
    let expires = num(&expires_s).ok_or_else(|| format!("bad expires {expires_s}"))?;
    if expires > 604_800 {
        return Err(format!("expires {expires} is too long"));
    }
    let (account, scope, location) = read_credential(&credential, &date_s)?;
    let signed_headers: Vec<String> = signed_headers_s.split(';').map(|s| s.to_string()).collect();
    let mut sorted = signed_headers.clone();
    sorted.sort();
    sorted.dedup();
    if sorted != signed_headers || signed_headers.iter().any(|h| h.to_ascii_lowercase() != *h) {
        return Err(format!("signed headers {signed_headers_s}"));
    }
    let mut sent = headers.to_vec();
    if !headers.iter().any(|(k, _)| k.eq_ignore_ascii_case("host")) {
        sent.push(("host".into(), "storage.googleapis.com".into()));
    }
    let sent = lower(&sent);
    if !signed_headers.iter().any(|h| h == "host") {
        return Err("host is not signed".into());
    }
    for name in sent.keys() {
        if name.starts_with("x-goog-") && !signed_headers.contains(name) {
            return Err(format!("{name} is sent but not signed"));
        }
    }
    let mut canonical_headers = String::new();
    for name in &signed_headers {
        let v = sent
            .get(name)
            .ok_or_else(|| format!("signed header {name} is not sent"))?;
        canonical_headers += &format!("{name}:{}\n", v.join(","));
    }
    let mut enc: Vec<(String, String)> = pairs
        .iter()
        .filter(|(k, _)| !k.eq_ignore_ascii_case(b"X-Goog-Signature"))
        .map(|(k, v)| (encode(k), encode(v)))
        .collect();
    enc.sort();
    let canonical_query = enc
        .iter()
        .map(|(k, v)| format!("{k}={v}"))
        .collect::<Vec<_>>()
        .join("&");
    let payload = sent
        .get("x-goog-content-sha256")
        .map_or("UNSIGNED-PAYLOAD".to_string(), |v| v.join(","));
    let canonical = format!(
        "{method}\n{canonical_path}\n{canonical_query}\n{canonical_headers}\n{signed_headers_s}\n{payload}"
    );
    let digest = ring::digest::digest(&ring::digest::SHA256, canonical.as_bytes());
    let hex: String = digest.as_ref().iter().map(|b| format!("{b:02x}")).collect();
    let to_sign = format!("{algorithm}\n{date_s}\n{scope}\n{hex}");
    let signature = check_signature(ring, &account, to_sign.as_bytes(), &signature_hex);
    Ok(Signed {
        account,
        location,
        signature,
    })
}

/// (account, scope, location)
fn read_credential(credential: &str, date: &str) -> Result<(String, String, String), String> {
    let mut p: Vec<&str> = credential.rsplitn(5, '/').collect();
    p.reverse();
    let [account, day, location, service, request] = p.as_slice() else {
        return Err(format!("bad credential {credential}"));
    };
    if account.is_empty() || location.is_empty() || *service != "storage" || *request != "goog4_request" {
        return Err(format!("bad credential {credential}"));
    }
    if date.get(0..8) != Some(*day) {
        return Err(format!("credential {credential} is not of {date}"));
    }
    Ok((
        account.to_string(),
        format!("{day}/{location}/{service}/{request}"),
        location.to_string(),
    ))
}

// ------------------------------------------------------------------------------- upload form

#[derive(Clone, Debug)]
pub enum Cond {
    Eq(String, String),
    Prefix(String, String),
    Length(u64, u64),
}

pub struct Policy {
    pub expiration: i128,
    pub conditions: Vec<Cond>,
}

pub struct Form {
    pub account: String,
    pub location: String,
    pub date: i64,
    pub policy: Policy,
    pub signature: Sig,
}

fn text(v: &serde_json::Value) -> Option<String> {
    match v {
        serde_json::Value::String(s) => Some(s.clone()),
        serde_json::Value::Number(n) => Some(n.to_string()),
        _ => None,
    }
}

pub fn read_policy(b64: &str) -> Result<Policy, String> {
    let bytes = base64::engine::general_purpose::STANDARD
        .decode(b64)
        .map_err(|_| "policy is not base64")?;
    let v: serde_json::Value = serde_json::from_slice(&bytes).map_err(|_| "policy is not JSON")?;
    let o = v.as_object().ok_or("policy is not an object")?;
    if let Some(k) = o.keys().find(|k| *k != "expiration" && *k != "conditions") {
        return Err(format!("unknown policy member {k}"));
    }
    let e = o
        .get("expiration")
        .and_then(|e| e.as_str())
        .ok_or("policy without expiration")?;
    let expiration = parse_rfc3339(e).ok_or_else(|| format!("bad expiration {e}"))?;
    let mut conditions = vec![];
    for c in o
        .get("conditions")
        .and_then(|c| c.as_array())
        .ok_or("policy without conditions")?
    {
        if let Some(m) = c.as_object() {
            for (k, v) in m {
                conditions.push(Cond::Eq(k.to_ascii_lowercase(), text(v).ok_or("bad condition")?));
            }
            continue;
        }
        let a = c.as_array().ok_or("bad condition")?;
        let op = a.first().and_then(|x| x.as_str()).ok_or("bad condition")?;
        if a.len() != 3 {
            return Err(format!("bad condition {c}"));
        }
        let field = || -> Result<String, String> {
            a[1].as_str()
                .and_then(|s| s.strip_prefix('$'))
                .map(|s| s.to_ascii_lowercase())
                .ok_or_else(|| format!("bad condition {c}"))
        };
        match op {
            "eq" => conditions.push(Cond::Eq(field()?, text(&a[2]).ok_or("bad condition")?)),
            "starts-with" => conditions.push(Cond::Prefix(field()?, text(&a[2]).ok_or("bad condition")?)),
            "content-length-range" => {
                let n = |v: &serde_json::Value| v.as_u64().or_else(|| v.as_str().and_then(|s| s.parse().ok()));
                conditions.push(Cond::Length(
                    n(&a[1]).ok_or("bad length")?,
                    n(&a[2]).ok_or("bad length")?,
                ))
            }
            _ => return Err(format!("unknown condition {c}")),
        }
    }
    Ok(Policy { expiration, conditions })
}

/// Whether an upload of `len` bytes with these fields is what the policy permits.
pub fn permits(policy: &Policy, fields: &[(String, String)], len: u64) -> Result<(), String> {
    let get = |name: &str| {
        fields
            .iter()
            .filter(|(k, _)| k.to_ascii_lowercase() == name)
            .map(|(_, v)| v.as_str())
            .collect::<Vec<_>>()
    };
    let mut covered: Vec<&str> = vec!["policy", "x-goog-signature", "file"];
    for c in &policy.conditions {
        match c {
            Cond::Eq(k, v) => {
                let f = get(k);
                if f.is_empty() {
                    return Err(format!("field {k} is required"));
                }
                if f.iter().any(|x| x != v) {
                    return Err(format!("field {k} must be {v:?}"));
                }
                covered.push(k);
            }
            Cond::Prefix(k, v) => {
                let f = get(k);
                if f.is_empty() || f.iter().any(|x| !x.starts_with(v)) {
                    return Err(format!("field {k} must start with {v:?}"));
                }
                covered.push(k);
            }
            Cond::Length(lo, hi) => {
                if len < *lo || len > *hi {
                    return Err(format!("length {len} is not within {lo}..={hi}"));
                }
                for x in get("content-length") {
                    match x.parse::<u64>() {
                        Ok(n) if n >= *lo && n <= *hi => {}
                        _ => return Err(format!("Content-Length {x} is not within {lo}..={hi}")),
                    }
                }
                covered.push("content-length");
            }
        }
    }
    for (k, _) in fields {
        let k = k.to_ascii_lowercase();
        if !k.starts_with("x-ignore-") && !covered.iter().any(|c| *c == k) {
            return Err(format!("field {k} is not in the policy"));
        }
    }
    Ok(())
}

pub fn read_form(fields: &[(String, String)], ring: &dyn Keyring) -> Result<Form, String> {
    let one = |name: &str| -> Result<String, String> {
        let f: Vec<_> = fields
            .iter()
            .filter(|(k, _)| k.eq_ignore_ascii_case(name))
            .collect();
        match f.as_slice() {
            [(_, v)] => Ok(v.clone()),
            [] => Err(format!("field {name} is missing")),
            _ => Err(format!("field {name} is given more than once")),
        }
    };
    let policy_s = one("policy")?;
    let algorithm = one("x-goog-algorithm")?;
    let credential = one("x-goog-credential")?;
    let date_s = one("x-goog-date")?;
    let signature = one("x-goog-signature")?;
    one("key")?;
    if algorithm != "GOOG4-RSA-SHA256" {
        return Err(format!("algorithm {algorithm}"));
    }
    let date = parse_basic(&date_s).ok_or_else(|| format!("bad date {date_s}"))?;
    let (account, _, location) = read_credential(&credential, &date_s)?;
    let policy = read_policy(&policy_s)?;
    let signature = check_signature(ring, &account, policy_s.as_bytes(), &signature);
    Ok(Form {
        account,
        location,
        date,
        policy,
        signature,
    })
}

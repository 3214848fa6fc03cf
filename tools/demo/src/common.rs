//! The parties the demonstrations talk to: a metadata server and a signing service behind the stand-in for
//! reqwest, and a reader of signed URLs and forms that knows the published V4 rules.
#![allow(dead_code)]
use std::{
    collections::BTreeMap,
    sync::{Arc, Mutex},
    time::{Duration, SystemTime},
};

use base64::Engine as _;
use cloud_storage_signature::{
    build_signed_url, BuildSignedUrlOptions, HtmlFormData, PolicyDocumentSigningOptions, SigningKey,
};
pub use reqwest::{Answer, Reply, Sent};

pub const EMAIL: &str = "key@project.iam.gserviceaccount.com";
pub const PEM: &str = include_str!("key.pem");

pub fn local_key() -> SigningKey {
    SigningKey::service_account(EMAIL.to_string(), PEM.to_string())
}

pub fn fail(what: impl std::fmt::Display) -> ! {
    println!("BROKEN: {what}");
    std::process::exit(1)
}

pub fn check(held: bool, what: impl std::fmt::Display) {
    if !held {
        fail(what)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Email,
    Token,
    Sign,
    Other,
}

pub fn kind(sent: &Sent) -> Kind {
    if sent.url.contains(":signBlob") {
        Kind::Sign
    } else if sent.url.contains("/token") {
        Kind::Token
    } else if sent.url.contains("/email") {
        Kind::Email
    } else {
        Kind::Other
    }
}

/// Every request in the order sent, with the token each carried.
#[derive(Default)]
pub struct Log {
    pub sent: Vec<Sent>,
    pub tokens: u32,
}

#[derive(Clone, Default)]
pub struct World(pub Arc<Mutex<Log>>);

impl World {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn note(&self, sent: &Sent) -> usize {
        let mut log = self.0.lock().unwrap();
        log.sent.push(sent.clone());
        log.sent.len() - 1
    }
    pub fn count(&self, k: Kind) -> usize {
        self.0.lock().unwrap().sent.iter().filter(|s| kind(s) == k).count()
    }
    pub fn of(&self, k: Kind) -> Vec<Sent> {
        self.0.lock().unwrap().sent.iter().filter(|s| kind(s) == k).cloned().collect()
    }
    pub fn next_token(&self) -> String {
        let mut log = self.0.lock().unwrap();
        log.tokens += 1;
        format!("token-{}", log.tokens)
    }
}

pub fn ok(body: impl Into<String>) -> Answer {
    status(200, body)
}
pub fn status(status: u16, body: impl Into<String>) -> Answer {
    Ok(Reply { status, body: Ok(body.into().into_bytes()) })
}
pub fn token_body(token: &str, expires_in: u64) -> String {
    format!(r#"{{"access_token":"{token}","expires_in":{expires_in},"token_type":"Bearer"}}"#)
}
/// The signing service's answer: the signature says which account signed which payload.
pub fn signed(sent: &Sent) -> Answer {
    let blob = format!("signed by {} over {}", signer(sent), payload(sent));
    ok(format!(
        r#"{{"keyId":"k","signedBlob":"{}"}}"#,
        base64::engine::general_purpose::STANDARD.encode(blob)
    ))
}
pub fn signer(sent: &Sent) -> String {
    let rest = sent.url.split("/serviceAccounts/").nth(1).unwrap_or("");
    let name = rest.split(":signBlob").next().unwrap_or("");
    percent_encoding::percent_decode_str(name).decode_utf8_lossy().into_owned()
}
pub fn payload(sent: &Sent) -> String {
    let body: serde_json::Value = serde_json::from_slice(&sent.body).unwrap_or_default();
    body["payload"].as_str().unwrap_or("").to_string()
}
pub fn bearer(sent: &Sent) -> Option<String> {
    sent.headers
        .iter()
        .find(|(k, _)| k.eq_ignore_ascii_case("authorization"))
        .map(|(_, v)| v.strip_prefix("Bearer ").unwrap_or(v).to_string())
}
/// Installs a world in which `f` answers; it may return None for the ordinary answer.
pub fn install<F, Fut>(world: &World, email: &'static str, expires_in: u64, f: F)
where
    F: Fn(usize, Kind, Sent) -> Fut + Send + Sync + 'static,
    Fut: std::future::Future<Output = Option<Answer>> + Send + 'static,
{
    let world = world.clone();
    reqwest::install(move |sent| {
        let n = world.note(&sent);
        let k = kind(&sent);
        let world = world.clone();
        let special = f(n, k, sent.clone());
        Box::pin(async move {
            match special.await {
                Some(answer) => answer,
                None => match k {
                    Kind::Email => ok(email),
                    Kind::Token => ok(token_body(&world.next_token(), expires_in)),
                    Kind::Sign => signed(&sent),
                    Kind::Other => status(404, "no such thing"),
                },
            }
        })
    });
}

pub fn options(key: &SigningKey, remote: bool) -> BuildSignedUrlOptions {
    let now = SystemTime::now();
    BuildSignedUrlOptions {
        bucket_name: "bucket".to_string(),
        object_name: "dir/object.txt".to_string(),
        region: None,
        expires: now + Duration::from_secs(600),
        http_method: "GET".to_string(),
        accessible_at: Some(now),
        signing_key: key.clone(),
        use_sign_blob: remote,
        headers: vec![],
        query_parameters: vec![],
    }
}
pub async fn url(key: &SigningKey) -> Result<String, String> {
    build_signed_url(options(key, true)).await.map_err(|e| e.to_string())
}
pub async fn build(o: BuildSignedUrlOptions) -> Result<String, String> {
    build_signed_url(o).await.map_err(|e| e.to_string())
}
pub fn policy_options(key: &SigningKey, remote: bool) -> PolicyDocumentSigningOptions {
    let now = SystemTime::now();
    PolicyDocumentSigningOptions {
        accessible_at: Some(now),
        expiration: now + Duration::from_secs(600),
        region: None,
        signing_key: key.clone(),
        use_sign_blob: remote,
    }
}
pub async fn form(key: &SigningKey) -> Result<Vec<(String, String)>, String> {
    HtmlFormData::builder()
        .bucket("bucket")
        .key("object")
        .policy_document_signing_options(policy_options(key, true))
        .build()
        .await
        .map(HtmlFormData::into_vec)
        .map_err(|e| e.to_string())
}

fn strict(s: &[u8]) -> String {
    s.iter()
        .map(|b| match b {
            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => (*b as char).to_string(),
            b => format!("%{b:02X}"),
        })
        .collect()
}
fn unescape(s: &str) -> Vec<u8> {
    percent_encoding::percent_decode_str(s).collect()
}

/// A signed URL as the storage service reads it.
pub struct SignedUrl {
    pub raw: String,
    pub path: Vec<u8>,
    pub query: Vec<(String, String)>,
    pub signature: Vec<u8>,
}
impl SignedUrl {
    pub fn read(raw: &str) -> Self {
        let rest = raw
            .strip_prefix("https://storage.googleapis.com")
            .unwrap_or_else(|| fail(format!("not a storage URL: {raw}")));
        let (path, query) = rest.split_once('?').unwrap_or((rest, ""));
        let query: Vec<(String, String)> = query
            .split('&')
            .filter(|p| !p.is_empty())
            .map(|p| {
                let (k, v) = p.split_once('=').unwrap_or((p, ""));
                (
                    String::from_utf8_lossy(&unescape(k)).into_owned(),
                    String::from_utf8_lossy(&unescape(v)).into_owned(),
                )
            })
            .collect();
        let hex = query
            .iter()
            .find(|(k, _)| k == "X-Goog-Signature")
            .map(|(_, v)| v.clone())
            .unwrap_or_default();
        let signature = (0..hex.len() / 2)
            .filter_map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok())
            .collect();
        Self { raw: raw.to_string(), path: unescape(path), query, signature }
    }
    pub fn get(&self, name: &str) -> String {
        self.query.iter().find(|(k, _)| k == name).map(|(_, v)| v.clone()).unwrap_or_default()
    }
    /// The parameters other than those of the signature, sorted.
    pub fn own(&self) -> Vec<(String, String)> {
        let mut v: Vec<_> =
            self.query.iter().filter(|(k, _)| !k.starts_with("X-Goog-")).cloned().collect();
        v.sort();
        v
    }
    pub fn account(&self) -> String {
        self.get("X-Goog-Credential").split('/').next().unwrap_or("").to_string()
    }
    /// What the storage service says the client must have signed when it gets this request.
    pub fn string_to_sign(&self, method: &str, headers: &[(&str, &str)]) -> String {
        let mut all: BTreeMap<String, Vec<String>> = BTreeMap::new();
        all.insert("host".into(), vec!["storage.googleapis.com".into()]);
        for (k, v) in headers {
            all.entry(k.to_ascii_lowercase()).or_default().push(v.trim().to_string());
        }
        let names = self.get("X-Goog-SignedHeaders");
        let canonical: String = names
            .split(';')
            .map(|n| format!("{n}:{}\n", all.get(n).map(|v| v.join(",")).unwrap_or_default()))
            .collect();
        let path: String = String::from_utf8_lossy(&self.path)
            .split('/')
            .map(|s| strict(s.as_bytes()))
            .collect::<Vec<_>>()
            .join("/");
        let mut query: Vec<(String, String)> = self
            .query
            .iter()
            .filter(|(k, _)| k != "X-Goog-Signature")
            .map(|(k, v)| (strict(k.as_bytes()), strict(v.as_bytes())))
            .collect();
        query.sort();
        let query: Vec<String> = query.into_iter().map(|(k, v)| format!("{k}={v}")).collect();
        let canonical = format!(
            "{method}\n{path}\n{}\n{canonical}\n{names}\nUNSIGNED-PAYLOAD",
            query.join("&")
        );
        let digest = ring::digest::digest(&ring::digest::SHA256, canonical.as_bytes());
        let hex: String = digest.as_ref().iter().map(|b| format!("{b:02x}")).collect();
        let credential = self.get("X-Goog-Credential");
        let scope = credential.split_once('/').map(|(_, s)| s).unwrap_or("");
        format!("GOOG4-RSA-SHA256\n{}\n{scope}\n{hex}", self.get("X-Goog-Date"))
    }
    pub fn verifies(&self, method: &str, headers: &[(&str, &str)]) -> bool {
        verify(self.string_to_sign(method, headers).as_bytes(), &self.signature)
    }
}

pub fn verify(message: &[u8], signature: &[u8]) -> bool {
    let der = pem::parse(PEM).unwrap();
    let pair = ring::signature::RsaKeyPair::from_pkcs8(der.contents()).unwrap();
    ring::signature::UnparsedPublicKey::new(
        &ring::signature::RSA_PKCS1_2048_8192_SHA256,
        pair.public().as_ref(),
    )
    .verify(message, signature)
    .is_ok()
}

pub fn field<'a>(form: &'a [(String, String)], name: &str) -> &'a str {
    form.iter().find(|(k, _)| k == name).map(|(_, v)| v.as_str()).unwrap_or("")
}
pub fn policy(form: &[(String, String)]) -> serde_json::Value {
    let raw = base64::engine::general_purpose::STANDARD
        .decode(field(form, "policy"))
        .unwrap_or_else(|e| fail(format!("policy is not base64: {e}")));
    serde_json::from_slice(&raw).unwrap_or_else(|e| fail(format!("policy is not JSON: {e}")))
}
pub fn unhex(hex: &str) -> Vec<u8> {
    (0..hex.len() / 2)
        .filter_map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok())
        .collect()
}
pub fn form_verifies(form: &[(String, String)]) -> bool {
    verify(field(form, "policy").as_bytes(), &unhex(field(form, "x-goog-signature")))
}
/// Would an upload of `size` bytes with these fields be let through by the policy?
pub fn permits(policy: &serde_json::Value, fields: &[(String, String)], size: u64) -> bool {
    let free = ["policy", "x-goog-signature", "file", "Content-Length"];
    let mut named: Vec<String> = vec![];
    for c in policy["conditions"].as_array().cloned().unwrap_or_default() {
        let (op, name, value) = match &c {
            serde_json::Value::Object(o) => match o.iter().next() {
                Some((k, v)) => ("eq".to_string(), k.clone(), v.as_str().unwrap_or("").to_string()),
                None => continue,
            },
            c => {
                if c[0].as_str() == Some("content-length-range") {
                    let (lo, hi) = (c[1].as_u64().unwrap_or(0), c[2].as_u64().unwrap_or(0));
                    if size < lo || size > hi {
                        return false;
                    }
                    continue;
                }
                (
                    c[0].as_str().unwrap_or("").to_string(),
                    c[1].as_str().unwrap_or("").trim_start_matches('$').to_string(),
                    c[2].as_str().unwrap_or("").to_string(),
                )
            }
        };
        let name = name.to_ascii_lowercase();
        let got = fields.iter().find(|(k, _)| k.to_ascii_lowercase() == name).map(|(_, v)| v.as_str());
        let held = match (op.as_str(), got) {
            ("eq", Some(v)) => v == value,
            ("starts-with", Some(v)) => v.starts_with(&value),
            ("starts-with", None) => value.is_empty(),
            _ => false,
        };
        if !held {
            return false;
        }
        named.push(name);
    }
    fields
        .iter()
        .filter(|(k, _)| !free.contains(&k.as_str()))
        .all(|(k, _)| named.contains(&k.to_ascii_lowercase()))
}

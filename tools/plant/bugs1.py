B='private/bound_token.rs'; K='private/signing_key_inner.rs'; S='private/signed_url.rs'; C='private/canonical_request.rs'; U='signed_url.rs'; H='html_form_data.rs'; G='signing_key.rs'; T='private/utils/unix_timestamp.rs'

bug('c01-entry-clock', 'C01',
 needs='two calls on one key whose token is close to its last thirty seconds: one call must wait for the lock behind a slow refresh or behind another holder long enough for the token it then finds to have run down',
 breaks='the clock is read before the cache lock is taken, so a call that waited for a slow refresh judges the kept token by an old clock and signs with a token that has thirty seconds or less left',
 edits=[(B,'''        let mut cache = self.cache.lock().await;
        Ok(match cache.clone() {''','''        let entered_at = SystemTime::now();
        let mut cache = self.cache.lock().await;
        let cached = cache.clone();
        Ok(match cached {'''),
        (B,'''                    .duration_since(SystemTime::now())
''','''                    .duration_since(entered_at)
''')],
 main='''
// Every token answer takes so long that the token has less than thirty seconds left when it is there. Only the
// call that fetched such a token may use it, so no token may be used twice.
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 32, move |_, k, _| async move {
        if k == Kind::Token {
            tokio::time::sleep(Duration::from_millis(2500)).await;
        }
        None
    });
    let key = SigningKey::bound_token();
    let calls: Vec<_> = (0..4)
        .map(|_| {
            let key = key.clone();
            tokio::spawn(async move { url(&key).await })
        })
        .collect();
    for call in calls {
        check(call.await.unwrap().is_ok(), "a call failed");
    }
    let mut tokens: Vec<_> = world.of(Kind::Sign).iter().filter_map(bearer).collect();
    let all = tokens.len();
    tokens.sort();
    tokens.dedup();
    check(all == tokens.len(), format!("{all} calls used {} tokens with 29.5 seconds to live", tokens.len()));
}
''')

bug('c02-clear-on-sign-error', 'C02',
 needs='a signing request answered with an error status while the key holds a live token, and a later call on the key',
 breaks='an error status from the signing service throws away a live token, so the next call goes back to the metadata server',
 edits=[(B,'''        let status = response.status();
        if !status.is_success() {
            let response_body = response
                .text()
                .await
                .map_err(BoundTokenError::SignBlobRequestErrorResponse)?;
            return''','''        let status = response.status();
        if !status.is_success() {
            self.cache.lock().await.take();
            let response_body = response
                .text()
                .await
                .map_err(BoundTokenError::SignBlobRequestErrorResponse)?;
            return'''),
        (B,'''        let response_body = response
            .text()
            .await
            .map_err(BoundTokenError::SignBlobRequestSuccessResponse)?;
        let response_body = serde_json''','''        let response_text = response
            .text()
            .await
            .map_err(BoundTokenError::SignBlobRequestSuccessResponse)?;
        let response_body = serde_json'''),
        (B,'''<'_, SignBlobResponseBody>(&response_body)''','''<'_, SignBlobResponseBody>(&response_text)''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    let w = world.clone();
    install(&world, EMAIL, 3600, move |_, k, _| {
        let first = k == Kind::Sign && w.count(Kind::Sign) == 1;
        async move { first.then(|| status(503, "try later")) }
    });
    let key = SigningKey::bound_token();
    check(url(&key).await.is_err(), "the first call should fail");
    check(url(&key).await.is_ok(), "the second call should succeed");
    let (e, t) = (world.count(Kind::Email), world.count(Kind::Token));
    check(e == 1 && t == 1, format!("a live token was not reused: {e} account and {t} token requests"));
}
''')

bug('c02-shared-cache', 'C02',
 needs='two keys created separately in one process for the same metadata host, both alive',
 breaks='living keys created for the same metadata host share one cache, so a key uses accounts and tokens obtained through another key',
 edits=[(B,"""    pub fn new() -> Self {
        Self {
            base_url: format!(
                "http://{}",
                std::env::var("GCE_METADATA_HOST")
                    .ok()
                    .unwrap_or_else(|| "metadata.google.internal".to_string())
            ),
            cache: Arc::new(tokio::sync::Mutex::new(None)),
""","""    pub fn new() -> Self {
        let base_url = format!(
            "http://{}",
            std::env::var("GCE_METADATA_HOST")
                .ok()
                .unwrap_or_else(|| "metadata.google.internal".to_string())
        );
        let mut caches = CACHES.lock().expect("caches to be locked");
        let cache = caches
            .get(&base_url)
            .and_then(std::sync::Weak::upgrade)
            .unwrap_or_default();
        caches.insert(base_url.clone(), Arc::downgrade(&cache));
        Self {
            base_url,
            cache,
"""),
        (B,"""impl BoundToken {
    pub fn new""","""type Cache = tokio::sync::Mutex<Option<(String, String, SystemTime)>>;
type Caches = std::collections::HashMap<String, std::sync::Weak<Cache>>;

/// The metadata server of a host always answers for the same accounts.
static CACHES: std::sync::LazyLock<std::sync::Mutex<Caches>> =
    std::sync::LazyLock::new(Default::default);

impl BoundToken {
    pub fn new"""),],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, _, _| async { None });
    let (one, two) = (SigningKey::bound_token(), SigningKey::bound_token());
    check(url(&one).await.is_ok(), "first key");
    check(url(&two).await.is_ok(), "second key");
    let t = world.count(Kind::Token);
    check(t == 2, format!("two keys asked for {t} tokens"));
}
''')

bug('c02-clone-own-cache', 'C02',
 needs='clones of a key taken before or around a refresh, used concurrently or one after the other',
 breaks='a clone gets a cache of its own (copied when idle), so clones do not share a live token and refresh side by side',
 edits=[(B,'''#[derive(Clone)]
pub(crate) struct BoundToken {''','''pub(crate) struct BoundToken {'''),
        (B,'''impl BoundToken {
    pub fn new''','''impl Clone for BoundToken {
    fn clone(&self) -> Self {
        let cached = self.cache.try_lock().ok().and_then(|cached| cached.clone());
        Self {
            base_url: self.base_url.clone(),
            cache: Arc::new(tokio::sync::Mutex::new(cached)),
            client: self.client.clone(),
            metadata_client: self.metadata_client.clone(),
        }
    }
}

impl BoundToken {
    pub fn new''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, _, _| async { None });
    let key = SigningKey::bound_token();
    let clone = key.clone();
    check(url(&key).await.is_ok(), "key");
    check(url(&clone).await.is_ok(), "clone");
    let t = world.count(Kind::Token);
    check(t == 1, format!("a key and its clone asked for {t} tokens"));
}
''')

bug('c03-store-before-type', 'C03',
 needs='a token answer with a token_type other than Bearer, followed by another call on the same key',
 breaks='the token is stored before its type is checked, so the token of the refused answer is used by the next call',
 edits=[(B,'''                if access_token.token_type != "Bearer" {
                    return Err(BoundTokenError::TokenRequestInvalidTokenType(
                        access_token.token_type,
                    ));
                }
''',''),
        (B,'''                (email, access_token.access_token)
''','''                if access_token.token_type != "Bearer" {
                    return Err(BoundTokenError::TokenRequestInvalidTokenType(
                        access_token.token_type,
                    ));
                }
                (email, access_token.access_token)
''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    let w = world.clone();
    install(&world, EMAIL, 3600, move |_, k, _| {
        let first = k == Kind::Token && w.count(Kind::Token) == 1;
        async move {
            first.then(|| ok(r#"{"access_token":"odd","expires_in":3600,"token_type":"MAC"}"#))
        }
    });
    let key = SigningKey::bound_token();
    check(url(&key).await.is_err(), "a token of the wrong type must be refused");
    check(url(&key).await.is_ok(), "the second call should succeed");
    let odd = world.of(Kind::Sign).iter().any(|s| bearer(s).as_deref() == Some("odd"));
    check(!odd, "the token of a failed refresh was used");
}
''')

bug('c03-email-kept', 'C03',
 needs='a refresh that gets the account and then fails on the token, a change of the default account, and a later successful refresh',
 breaks='the account is kept as soon as it is read, so after a failed token request the next refresh asks for the token only and joins the old account to the new token',
 edits=[(B,'''    metadata_client: reqwest::Client,
}

impl''','''    metadata_client: reqwest::Client,
    pending_email: Arc<std::sync::Mutex<Option<String>>>,
}

impl'''),
        (B,'''            client: reqwest::Client::new(),
''','''            client: reqwest::Client::new(),
            pending_email: Arc::default(),
'''),
        (B,'''                let email = response_body;
''','''                let email = self
                    .pending_email
                    .lock()
                    .unwrap_or_else(|e| e.into_inner())
                    .get_or_insert(response_body)
                    .clone();
'''),
        (B,'''                *cache = Some((email''','''                self.pending_email
                    .lock()
                    .unwrap_or_else(|e| e.into_inner())
                    .take();
                *cache = Some((email''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    let w = world.clone();
    install(&world, "new@p.iam.gserviceaccount.com", 3600, move |_, k, _| {
        let (e, t) = (w.count(Kind::Email), w.count(Kind::Token));
        async move {
            match k {
                Kind::Email if e == 1 => Some(ok("old@p.iam.gserviceaccount.com")),
                Kind::Token if t == 1 => Some(status(500, "no")),
                _ => None,
            }
        }
    });
    let key = SigningKey::bound_token();
    check(url(&key).await.is_err(), "the first call should fail");
    let u = SignedUrl::read(&url(&key).await.unwrap_or_else(|e| fail(e)));
    check(u.account() == "new@p.iam.gserviceaccount.com", format!("the account of a failed refresh was used: {}", u.account()));
}
''')

bug('c04-abandoned-refresh', 'C04',
 needs='a caller that drops its call while a refresh is under way (a timeout, a select), and any later call on the key',
 breaks='a flag says that a refresh is under way; it is put down on every way out but cancellation, and later calls wait for it for ever',
 edits=[(B,'''    metadata_client: reqwest::Client,
}

impl''','''    metadata_client: reqwest::Client,
    refreshing: Arc<std::sync::atomic::AtomicBool>,
}

impl'''),
        (B,'''            client: reqwest::Client::new(),
''','''            client: reqwest::Client::new(),
            refreshing: Arc::default(),
'''),
        (B,'''    pub(crate) async fn get_email_and_token(&self) -> Result<(String, String), BoundTokenError> {
''','''    pub(crate) async fn get_email_and_token(&self) -> Result<(String, String), BoundTokenError> {
        use std::sync::atomic::Ordering;
        while self
            .refreshing
            .compare_exchange(false, true, Ordering::AcqRel, Ordering::Acquire)
            .is_err()
        {
            tokio::task::yield_now().await;
        }
        let result = self.cached_or_refresh().await;
        self.refreshing.store(false, Ordering::Release);
        result
    }

    async fn cached_or_refresh(&self) -> Result<(String, String), BoundTokenError> {
'''),(B,'''            Some(_) | None => {
                // email
''','''            _ => {
                // email
''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    let w = world.clone();
    install(&world, EMAIL, 3600, move |_, k, _| {
        let first = k == Kind::Email && w.count(Kind::Email) == 1;
        async move {
            if first {
                tokio::time::sleep(Duration::from_secs(1000)).await;
            }
            None
        }
    });
    let key = SigningKey::bound_token();
    let given_up = tokio::time::timeout(Duration::from_millis(200), url(&key)).await;
    check(given_up.is_err(), "the first call should have been given up");
    match tokio::time::timeout(Duration::from_secs(10), url(&key)).await {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => fail(e),
        Err(_) => fail("a call waits for one that was cancelled"),
    }
}
''')

bug('c05-one-refresh-at-a-time', 'C05',
 needs='two keys created separately, one of whose metadata requests stalls while the other one needs a refresh',
 breaks='refreshes of all keys in the process go through one gate, so a stalled metadata server for one key holds up every other key',
 edits=[(B,'''            Some(_) | None => {
                // email
''','''            _ => {
                static REFRESH: tokio::sync::Mutex<()> = tokio::sync::Mutex::const_new(());
                let _refresh = REFRESH.lock().await;
                // email
''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    let w = world.clone();
    install(&world, EMAIL, 3600, move |_, k, _| {
        let first = k == Kind::Email && w.count(Kind::Email) == 1;
        async move {
            if first {
                tokio::time::sleep(Duration::from_secs(1000)).await;
            }
            None
        }
    });
    let (stuck, other) = (SigningKey::bound_token(), SigningKey::bound_token());
    tokio::spawn(async move { url(&stuck).await });
    tokio::time::sleep(Duration::from_millis(100)).await;
    match tokio::time::timeout(Duration::from_secs(10), url(&other)).await {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => fail(e),
        Err(_) => fail("a key waits for another key's metadata server"),
    }
}
''')

bug('c05-lock-held-while-signing', 'C05',
 needs='a signing request that is answered late, and another call on the same key (or a clone) with a live token',
 breaks='the cache lock is held across the signing request, so one slow signing request stalls every other call on the key',
 edits=[(B,'''        let response = self
            .client
            .execute(request)
            .await
            .map_err(BoundTokenError::SignBlobRequestExecute)?;
''','''        let cache = self.cache.lock().await;
        let response = self
            .client
            .execute(request)
            .await
            .map_err(BoundTokenError::SignBlobRequestExecute);
        drop(cache);
        let response = response?;
''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    let w = world.clone();
    install(&world, EMAIL, 3600, move |_, k, _| {
        let second = k == Kind::Sign && w.count(Kind::Sign) == 2;
        async move {
            if second {
                tokio::time::sleep(Duration::from_secs(1000)).await;
            }
            None
        }
    });
    let key = SigningKey::bound_token();
    check(url(&key).await.is_ok(), "first call");
    let slow = key.clone();
    tokio::spawn(async move { url(&slow).await });
    tokio::time::sleep(Duration::from_millis(100)).await;
    match tokio::time::timeout(Duration::from_secs(10), url(&key)).await {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => fail(e),
        Err(_) => fail("a call waits for another call's signing request"),
    }
}
''')

bug('c06-account-asked-twice', 'C06',
 needs='a refresh between the two readings of the account within one form call, and a change of the default account',
 breaks='the form names the account read first but has the signature made by the account read just before signing',
 edits=[(H,'''                let message = encoded_policy.as_str();
''','''                let service_account_client_email = signing_key
                    .0
                    .authorizer()
                    .await
                    .map_err(ErrorKind::BoundTokenAuthorizer)?;
                let message = encoded_policy.as_bytes();
'''),(H,'''                        message.as_bytes(),
''','''                        message,
''')],
 main='''
// Tokens that are never fresh enough to be kept make every reading of the account a new one, and the default
// account changes between them.
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    let w = world.clone();
    install(&world, EMAIL, 20, move |_, k, _| {
        let n = w.count(Kind::Email);
        async move { (k == Kind::Email).then(|| ok(format!("account{}@p.iam.gserviceaccount.com", (n - 1) / 2))) }
    });
    let key = SigningKey::bound_token();
    for _ in 0..6 {
        let before = world.count(Kind::Sign);
        let Ok(f) = form(&key).await else { continue };
        let named = field(&f, "x-goog-credential").split('/').next().unwrap_or("").to_string();
        let signed_by = world.of(Kind::Sign)[before..].iter().map(signer).collect::<Vec<_>>();
        check(signed_by == [named.clone()], format!("names {named}, signed by {signed_by:?}"));
    }
}
''')

bug('c07-crossed-messages', 'C07',
 needs='two signing calls on metadata-server keys in flight at the same time, the second one starting while the first waits for its token',
 breaks='the message to sign is parked in a process-wide buffer while the token is fetched, so of two concurrent calls one gets the signature of the other one\'s request',
 edits=[(B,'''        let url = format!(
            "https://iamcredentials''','''        let message = PENDING.lock().unwrap_or_else(|e| e.into_inner()).clone();
        let url = format!(
            "https://iamcredentials'''),
        (B,'''                        message,
                    ),''','''                        &message,
                    ),'''),
        (B,'''        let (_, token) = self.get_email_and_token().await?;
''','''        static PENDING: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
        *PENDING.lock().unwrap_or_else(|e| e.into_inner()) = message.to_vec();
        let (_, token) = self.get_email_and_token().await?;
''')],
 main='''
// Tokens too short to be kept: every call fetches one of its own before it signs.
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 10, |_, k, _| async move {
        if k == Kind::Token {
            tokio::time::sleep(Duration::from_millis(20)).await;
        }
        None
    });
    let mut calls = vec![];
    for i in 0..6 {
        calls.push(tokio::spawn(async move {
            let key = SigningKey::bound_token();
            let mut o = options(&key, true);
            o.object_name = format!("object-{i}");
            build(o).await
        }));
    }
    for call in calls {
        let u = SignedUrl::read(&call.await.unwrap().unwrap_or_else(|e| fail(e)));
        let expected = base64(&u.string_to_sign("GET", &[]));
        let signature = String::from_utf8_lossy(&u.signature).into_owned();
        check(signature.ends_with(&expected), format!("{}: the signature is over another request", u.raw));
    }
}
fn base64(s: &str) -> String {
    use base64::Engine as _;
    base64::engine::general_purpose::STANDARD.encode(s)
}
''')

bug('c07-header-values-sorted', 'C07',
 needs='a header given more than once, with values that are not in sorted order or that repeat',
 breaks='the values of a repeated header are collected into a sorted set, but the client sends them in the order given',
 edits=[(C,'''                    .or_insert_with(Vec::new)
                    .push(
''','''                    .or_insert_with(BTreeSet::new)
                    .insert(
'''),(C,'''                .map(|(name, values)| format!("{name}:{}", values.join(",")))
                .collect::<Vec<String>>()
                .join("\\n")
        };
        let payload''','''                .map(|(name, values)| {
                    let values = values.into_iter().collect::<Vec<String>>();
                    format!("{name}:{}", values.join(","))
                })
                .collect::<Vec<String>>()
                .join("\\n")
        };
        let payload''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    for (a, b) in [("one", "two"), ("two", "one"), ("same", "same")] {
        let mut o = options(&local_key(), false);
        o.headers = vec![("x-goog-meta-a".into(), a.into()), ("x-goog-meta-a".into(), b.into())];
        let u = SignedUrl::read(&build(o).await.unwrap_or_else(|e| fail(e)));
        check(u.verifies("GET", &[("x-goog-meta-a", a), ("x-goog-meta-a", b)]), format!("rejected with {a}, {b}"));
    }
}
''')

bug('c08-parameter-once', 'C08',
 needs='two query parameters with the same name',
 breaks='query parameters are collected into a map, so of two with the same name only the last is in the URL',
 edits=[(U,'''            .map(|(k, v)| (k.as_str(), v.as_str())),
''','''            .map(|(k, v)| (k.as_str(), v.as_str()))
            .collect::<std::collections::BTreeMap<&str, &str>>(),
''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut o = options(&local_key(), false);
    o.query_parameters = vec![("a".into(), "1".into()), ("b".into(), "x y".into()), ("a".into(), "2".into())];
    let mut expected = o.query_parameters.clone();
    expected.sort();
    let u = SignedUrl::read(&build(o).await.unwrap_or_else(|e| fail(e)));
    check(u.own() == expected, format!("carries {:?}", u.own()));
}
''')

bug('c09-round-up', 'C09',
 needs='a validity that is not a whole number of seconds (a start and expiry with different fractions)',
 breaks='a broken second is rounded up, so the URL outlives the requested expiry by up to a second',
 edits=[(U,'''            .as_secs(),
    )
    .map_err''','''            .as_millis()
            .div_ceil(1000),
    )
    .map_err''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let start = SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000);
    for (a, b) in [(0u64, 60_500u64), (0, 60_001), (250, 60_750), (900, 60_100)] {
        let mut o = options(&local_key(), false);
        o.accessible_at = Some(start + Duration::from_millis(a));
        o.expires = start + Duration::from_millis(b);
        let u = SignedUrl::read(&build(o).await.unwrap_or_else(|e| fail(e)));
        check(u.get("X-Goog-Date") == "20231114T221320Z", "start");
        let lifetime: u64 = u.get("X-Goog-Expires").parse().unwrap_or_else(|e| fail(e));
        check(lifetime * 1000 <= b, format!("asked to expire at {b} ms, usable until {lifetime} s"));
        check(lifetime * 1000 + 2000 > b, format!("asked to expire at {b} ms, usable until {lifetime} s"));
    }
}
''')

bug('c10-urlsafe-policy', 'C10',
 needs='a policy whose base64 text contains the characters 62 or 63 of the alphabet, which takes certain bytes (such as ~ or ? or non-ASCII) at certain offsets',
 breaks='the policy is encoded with the URL-safe alphabet, which the storage service does not decode',
 edits=[(H,'''                    &base64::engine::general_purpose::STANDARD,
                    policy.as_bytes(),''','''                    &base64::engine::general_purpose::URL_SAFE,
                    policy.as_bytes(),''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    for name in ["a", "ab~", "dir/abc~~~", "???", "名前", "abc~~~???>>>"] {
        let f = HtmlFormData::builder()
            .bucket("bucket")
            .key(name)
            .policy_document_signing_options(policy_options(&local_key(), false))
            .build()
            .await
            .unwrap_or_else(|e| fail(e))
            .into_vec();
        check(form_verifies(&f), "signature");
        check(permits(&policy(&f), &f, 1), "the policy does not permit the form");
    }
}
''')

bug('c11-length-slack', 'C11',
 needs='a form with a content length of a mebibyte or more, and an upload that is a little smaller',
 breaks='the policy allows an upload to be smaller than the given content length by one byte per mebibyte',
 edits=[(H,'''                    conditions.push(policy_document::Condition::ContentLengthRange(
                        content_length,
                        content_length,
''','''                    conditions.push(policy_document::Condition::ContentLengthRange(
                        content_length - content_length / (1 << 20),
                        content_length,
''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    for n in [0u64, 1, 2, 1024, 1 << 40] {
        let f = HtmlFormData::builder()
            .bucket("bucket")
            .key("k")
            .content_length(n)
            .policy_document_signing_options(policy_options(&local_key(), false))
            .build()
            .await
            .unwrap_or_else(|e| fail(e))
            .into_vec();
        let p = policy(&f);
        check(permits(&p, &f, n), format!("an upload of {n} bytes is refused"));
        for m in [n.wrapping_sub(1), n + 1, n / 2, 0, 1] {
            check(m == n || !permits(&p, &f, m), format!("made for {n} bytes, permits {m}"));
        }
    }
}
''')

bug('c11-folder-prefix', 'C11',
 needs='a key that ends with a slash',
 breaks='for a key ending in a slash the policy permits any object under it',
 edits=[(H,'''                conditions.push(policy_document::Condition::ExactMatching(
                    policy_document::Field::new("key").expect("key to be valid field name"),
                    policy_document::Value::new(key),
                ));''','''                let key_field =
                    policy_document::Field::new("key").expect("key to be valid field name");
                let key_value = policy_document::Value::new(key);
                conditions.push(if key.ends_with('/') {
                    policy_document::Condition::StartsWith(key_field, key_value)
                } else {
                    policy_document::Condition::ExactMatching(key_field, key_value)
                });''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    for name in ["a", "dir/", "dir/sub/", "a b", "/"] {
        let f = HtmlFormData::builder()
            .bucket("bucket")
            .key(name)
            .policy_document_signing_options(policy_options(&local_key(), false))
            .build()
            .await
            .unwrap_or_else(|e| fail(e))
            .into_vec();
        let p = policy(&f);
        check(permits(&p, &f, 1), "the form itself");
        let mut other = f.clone();
        for (k, v) in other.iter_mut() {
            if k == "key" {
                v.push_str("other");
            }
        }
        check(!permits(&p, &other, 1), format!("made for {name}, permits another object"));
    }
}
''')

bug('c12-token-in-error', 'C12',
 needs='a token answer that is valid JSON with a token in it but does not have the expected form (a missing or odd expires_in)',
 breaks='the error for an answer that does not parse quotes the answer, token included',
 edits=[(B,'''    TokenRequestSuccessResponseDeserialize(#[source] serde_json::Error),''','''    TokenRequestSuccessResponseDeserialize(#[source] serde_json::Error, String),'''),
        (B,'''success response deserialize error: {0}")]
    TokenRequestSuccessResponseDeserialize''','''success response deserialize error: {0}: {1}")]
    TokenRequestSuccessResponseDeserialize'''),
        (B,'''                    .map_err(BoundTokenError::TokenRequestSuccessResponseDeserialize)?;''','''                    .map_err(|e| {
                        BoundTokenError::TokenRequestSuccessResponseDeserialize(e, response_body)
                    })?;''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let bodies = [
        r#"{"access_token":"sesame","token_type":"Bearer"}"#,
        r#"{"access_token":"sesame","expires_in":-1,"token_type":"Bearer"}"#,
        r#"{"access_token":"sesame","expires_in":3600,"token_type":"MAC"}"#,
        r#"{"access_token":"sesame","expires_in":3600}"#,
    ];
    let world = World::new();
    let w = world.clone();
    install(&world, EMAIL, 3600, move |_, k, _| {
        let n = w.count(Kind::Token);
        async move { (k == Kind::Token && n <= 4).then(|| ok(bodies[n - 1])) }
    });
    for _ in 0..4 {
        match url(&SigningKey::bound_token()).await {
            Ok(_) => fail("a malformed token answer was accepted"),
            Err(e) => check(!e.contains("sesame"), format!("the token is in the error: {e}")),
        }
    }
}
''')

bug('c12-host-read-late', 'C12',
 needs='GCE_METADATA_HOST changing after the key was created',
 breaks='the token is asked of the host the environment names at the time of the refresh, not of the one the key was created for',
 edits=[(B,'''                let url = format!(
                    "{}/computeMetadata/v1/instance/service-accounts/default/token",
                    self.base_url
                );''','''                let base_url = std::env::var("GCE_METADATA_HOST")
                    .map_or_else(|_| self.base_url.clone(), |host| format!("http://{host}"));
                let url = format!(
                    "{base_url}/computeMetadata/v1/instance/service-accounts/default/token"
                );''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, _, _| async { None });
    std::env::set_var("GCE_METADATA_HOST", "first.example:80");
    let key = SigningKey::bound_token();
    std::env::set_var("GCE_METADATA_HOST", "second.example:80");
    check(url(&key).await.is_ok(), "the call should succeed");
    for s in world.of(Kind::Email).iter().chain(world.of(Kind::Token).iter()) {
        check(s.url.starts_with("http://first.example"), format!("asked {}", s.url));
    }
}
''')

bug('c13-cut-error-body', 'C13',
 needs='an error status of the signing service with a long body that has a multi-byte character across the 4096th byte',
 breaks='a long error body is cut at byte 4096, which panics inside a multi-byte character',
 edits=[(B,'''            return Err(BoundTokenError::SignBlobRequestStatus(
                status.as_u16(),
                response_body,
            ));''','''            let shown = response_body.len().min(4096);
            return Err(BoundTokenError::SignBlobRequestStatus(
                status.as_u16(),
                response_body[..shown].to_string(),
            ));''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    for pad in 0..4usize {
        let world = World::new();
        install(&world, EMAIL, 3600, move |_, k, _| async move {
            (k == Kind::Sign).then(|| status(500, format!("{}{}", "x".repeat(pad), "エラー".repeat(2000))))
        });
        let r = tokio::spawn(async { url(&SigningKey::bound_token()).await }).await;
        check(matches!(r, Ok(Err(_))), format!("{}", if r.is_err() { "panicked" } else { "succeeded" }));
    }
}
''')

bug('c14-wrong-name', 'C14',
 needs='a token answer whose body is lost part-way',
 breaks='a token answer that is cut off is reported as a failure of the account request',
 edits=[(B,'''                    .map_err(BoundTokenError::TokenRequestSuccessResponse)?;''','''                    .map_err(BoundTokenError::EmailRequestSuccessResponse)?;''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, k, _| async move {
        (k == Kind::Token).then(|| Ok(Reply { status: 200, body: Err("cut off".into()) }))
    });
    match url(&SigningKey::bound_token()).await {
        Ok(_) => fail("succeeded"),
        Err(e) => check(e.contains("token request") && !e.contains("email request"), format!("reported as: {e}")),
    }
}
''')

bug('c14-prefix-type', 'C14',
 needs='a token answer whose token_type is a word that begins with Bearer',
 breaks='a token of another type is accepted as a bearer token when its type begins with Bearer in any case',
 edits=[(B,'''                if access_token.token_type != "Bearer" {''','''                let token_type = access_token.token_type.to_ascii_lowercase();
                if !token_type.starts_with("bearer") {''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, k, _| async move {
        (k == Kind::Token).then(|| ok(r#"{"access_token":"t","expires_in":3600,"token_type":"Bearer-PoP"}"#))
    });
    check(url(&SigningKey::bound_token()).await.is_err(), "a token of another type was used");
}
''')

bug('c15-retry-503', 'C15',
 needs='a signing request answered with 503',
 breaks='a signing request that is answered with 503 is sent a second time within the call',
 edits=[(B,'''        let response = self
            .client
            .execute(request)
            .await
            .map_err(BoundTokenError::SignBlobRequestExecute)?;
''','''        let again = request.try_clone();
        let mut response = self
            .client
            .execute(request)
            .await
            .map_err(BoundTokenError::SignBlobRequestExecute)?;
        if let (503, Some(again)) = (response.status().as_u16(), again) {
            response = self
                .client
                .execute(again)
                .await
                .map_err(BoundTokenError::SignBlobRequestExecute)?;
        }
''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    for code in [400u16, 403, 429, 500, 503, 504] {
        let world = World::new();
        install(&world, EMAIL, 3600, move |_, k, _| async move { (k == Kind::Sign).then(|| status(code, "no")) });
        check(url(&SigningKey::bound_token()).await.is_err(), "an error status is an error");
        let n = world.count(Kind::Sign);
        check(n == 1, format!("{code}: {n} signing requests"));
    }
}
''')

bug('c15-detached', 'C15',
 needs='a call dropped by its caller while the signing request is about to be sent or in flight',
 breaks='the signing request runs in a task of its own, so it goes on after the call was cancelled',
 edits=[(B,'''        let response = self
            .client
            .execute(request)
            .await
            .map_err(BoundTokenError::SignBlobRequestExecute)?;
''','''        let client = self.client.clone();
        let exchange = tokio::spawn(async move { client.execute(request).await });
        let response = match exchange.await {
            Ok(response) => response.map_err(BoundTokenError::SignBlobRequestExecute)?,
            Err(e) => std::panic::resume_unwind(e.into_panic()),
        };
''')],
 main='''
use std::future::Future;
// Drops the call after each possible number of polls: what it has not sent by then it must never send.
#[tokio::main(flavor = "current_thread")]
async fn main() {
    for polls in 1..60 {
        let world = World::new();
        install(&world, EMAIL, 3600, |_, _, _| async {
            tokio::task::yield_now().await;
            None
        });
        let key = SigningKey::bound_token();
        let mut call = Box::pin(url(&key));
        let mut left = polls;
        let done = std::future::poll_fn(|cx| {
            left -= 1;
            match call.as_mut().poll(cx) {
                std::task::Poll::Ready(_) => std::task::Poll::Ready(true),
                std::task::Poll::Pending if left == 0 => std::task::Poll::Ready(false),
                std::task::Poll::Pending => {
                    cx.waker().wake_by_ref();
                    std::task::Poll::Pending
                }
            }
        })
        .await;
        drop(call);
        let before = world.count(Kind::Sign);
        for _ in 0..50 {
            tokio::task::yield_now().await;
        }
        let after = world.count(Kind::Sign);
        check(before == after, format!("cancelled after {polls} polls, then sent {} signing requests", after - before));
        if done {
            return;
        }
    }
}
''')

bug('c16-one-read', 'C16',
 needs='a read that returns fewer bytes than the file has (a FIFO, a network file system, an interrupted read)',
 breaks='the file is read with a single read call into a large buffer, so a short read yields a partial document, which can even be a complete JSON text of its own',
 edits=[(G,'''        let mut s = String::new();
        std::io::Read::read_to_string(&mut file, &mut s)
            .map_err(ErrorKind::ServiceAccountFileRead)?;
''','''        let mut buf = vec![0; 1 << 20];
        let len = std::io::Read::read(&mut file, &mut buf)
            .map_err(ErrorKind::ServiceAccountFileRead)?;
        buf.truncate(len);
        let s = String::from_utf8(buf)
            .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))
            .map_err(ErrorKind::ServiceAccountFileRead)?;
''')],
 main='''
use std::io::Write;
// A FIFO fed in pieces: the file is what was written until it was closed.
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let path = format!("{}/key.json", std::env::var("SCRATCH").unwrap());
    let name = std::ffi::CString::new(path.clone()).unwrap();
    check(unsafe { libc::mkfifo(name.as_ptr(), 0o600) } == 0, "mkfifo");
    let text = serde_json::json!({"client_email": EMAIL, "private_key": PEM}).to_string();
    let writer = std::thread::spawn({
        let path = path.clone();
        move || {
            let mut f = std::fs::OpenOptions::new().write(true).open(path).unwrap();
            for piece in text.as_bytes().chunks(500) {
                if f.write_all(piece).is_err() {
                    return;
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        }
    });
    let key = SigningKey::service_account_from_path(&path).unwrap_or_else(|e| fail(e));
    writer.join().unwrap();
    let u = SignedUrl::read(&build(options(&key, false)).await.unwrap_or_else(|e| fail(e)));
    check(u.account() == EMAIL && u.verifies("GET", &[]), "the key");
}
''')

bug('c16-line-errors-lost', 'C16',
 needs='an I/O error or invalid UTF-8 after the part of the file that holds a complete JSON text (in trailing white space)',
 breaks='the file is read line by line and an error ends the reading as if it were the end of the file',
 edits=[(G,'''        let mut file = std::fs::File::open(path).map_err(ErrorKind::ServiceAccountFileOpen)?;
        let mut s = String::new();
        std::io::Read::read_to_string(&mut file, &mut s)
            .map_err(ErrorKind::ServiceAccountFileRead)?;
''','''        let file = std::fs::File::open(path).map_err(ErrorKind::ServiceAccountFileOpen)?;
        let mut reader = std::io::BufReader::new(file);
        let mut s = String::new();
        loop {
            match std::io::BufRead::read_line(&mut reader, &mut s) {
                Ok(0) => break,
                Ok(_) => continue,
                Err(_) if !s.is_empty() => break,
                Err(e) => return Err(ErrorKind::ServiceAccountFileRead(e).into()),
            }
        }
''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let path = format!("{}/key.json", std::env::var("SCRATCH").unwrap());
    let mut text = serde_json::to_vec_pretty(&serde_json::json!({"client_email": EMAIL, "private_key": PEM})).unwrap();
    std::fs::write(&path, &text).unwrap();
    check(SigningKey::service_account_from_path(&path).is_ok(), "a whole file");
    text.extend_from_slice(b"\\n\\xff\\xfe\\n");
    std::fs::write(&path, &text).unwrap();
    check(SigningKey::service_account_from_path(&path).is_err(), "a file that is not UTF-8 was accepted");
}
''')

bug('c17-past-expiry', 'C17',
 needs='a URL with an explicit start and expiry, built when the process clock is already past the expiry',
 breaks='a URL with an explicit window is refused or not depending on the process clock',
 edits=[(U,'''            .duration_since(accessible_at)
''','''            .duration_since(accessible_at.max(SystemTime::now().min(expires)))
            .and_then(|left| expires.duration_since(accessible_at).map(|d| d.min(left.max(d / 2))))
''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let now = SystemTime::now();
    let mut o = options(&local_key(), false);
    o.accessible_at = Some(now - Duration::from_secs(3));
    o.expires = now + Duration::from_secs(7);
    let mut seen = None;
    for _ in 0..4 {
        let u = build(o.clone()).await.unwrap_or_else(|e| fail(e));
        if let Some(seen) = &seen {
            check(seen == &u, format!("the same URL came out differently: {u}"));
        }
        seen = Some(u);
        tokio::time::sleep(Duration::from_millis(1200)).await;
    }
}
''')

bug('c07-key-pair-kept', 'C07',
 needs='two service-account keys with the same account and different private keys (a rotated key) used in one process',
 breaks='the parsed private key is kept per account, so after a rotation URLs are signed with the old private key',
 edits=[(K,'''            SigningKeyInner::ServiceAccount { private_key, .. } => {
                if''','''            SigningKeyInner::ServiceAccount { private_key, client_email } => {
                if'''),(K,'''                    let pkcs8 = pem::parse(private_key.as_bytes())
                        .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
                    let signing_key = pkcs8.contents();
                    let key_pair = ring::signature::RsaKeyPair::from_pkcs8(signing_key)
                        .map_err(Error::ServiceAccountPrivateKeyPkcs8Parsing)?;
''','''                    type Pairs = std::collections::HashMap<
                        String,
                        std::sync::Arc<ring::signature::RsaKeyPair>,
                    >;
                    static PAIRS: std::sync::LazyLock<std::sync::Mutex<Pairs>> =
                        std::sync::LazyLock::new(Default::default);
                    let mut pairs = PAIRS.lock().unwrap_or_else(|e| e.into_inner());
                    let key_pair = match pairs.get(client_email) {
                        Some(key_pair) => std::sync::Arc::clone(key_pair),
                        None => {
                            let pkcs8 = pem::parse(private_key.as_bytes())
                                .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
                            let key_pair =
                                ring::signature::RsaKeyPair::from_pkcs8(pkcs8.contents())
                                    .map_err(Error::ServiceAccountPrivateKeyPkcs8Parsing)?;
                            let key_pair = std::sync::Arc::new(key_pair);
                            pairs.insert(client_email.clone(), std::sync::Arc::clone(&key_pair));
                            key_pair
                        }
                    };
                    drop(pairs);
''')],
 main='''
// The key of the documentation, and another one under the same account.
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let other = SigningKey::service_account(EMAIL.to_string(), include_str!("other.pem").to_string());
    check(build(options(&other, false)).await.is_ok(), "the old key");
    let u = SignedUrl::read(&build(options(&local_key(), false)).await.unwrap_or_else(|e| fail(e)));
    check(u.verifies("GET", &[]), "signed with another key than the one given");
}
''')

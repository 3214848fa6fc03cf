I='private/signing_key_inner.rs'
bug('c13-mode-by-size', 'C13',
 needs='a metadata-server key used for local signing (an unsupported mode) with a form whose policy is longer than four kilobytes',
 breaks='a metadata-server key asked for local signing signs remotely when the message is long, in place of reporting the mode as an error',
 edits=[(I,'''                if use_sign_blob {
                    Ok(bound_token''','''                // what is long is signed remotely in any case
                if use_sign_blob || message.len() > 4096 {
                    Ok(bound_token''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, _, _| async { None });
    let key = SigningKey::bound_token();
    for n in [1usize, 1000, 5000, 50_000] {
        let built = HtmlFormData::builder()
            .bucket("bucket")
            .key("k")
            .x_goog_meta("note", "v".repeat(n))
            .policy_document_signing_options(policy_options(&key, false))
            .build()
            .await;
        check(built.is_err(), format!("local signing with a metadata-server key was not refused ({n} bytes)"));
    }
}
''')

bug('c05-hundred-under-way', 'C05',
 needs='a hundred calls waiting for a signing service that does not answer them, and a call on any other key of the process',
 breaks='no more than a hundred signing requests of the whole process may be under way, so stuck calls hold up calls on other keys',
 edits=[(B,'''        let response = self
            .client
            .execute(request)
            .await
            .map_err(BoundTokenError::SignBlobRequestExecute)?;
''','''        static UNDER_WAY: tokio::sync::Semaphore = tokio::sync::Semaphore::const_new(100);
        let response = {
            let _permit = UNDER_WAY.acquire().await.expect("never closed");
            let sent = self.client.execute(request).await;
            sent.map_err(BoundTokenError::SignBlobRequestExecute)?
        };
''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    let w = world.clone();
    install(&world, EMAIL, 3600, move |_, k, _| {
        let stuck = k == Kind::Sign && w.count(Kind::Sign) <= 100;
        async move {
            if stuck {
                std::future::pending::<()>().await;
            }
            None
        }
    });
    let (key, other) = (SigningKey::bound_token(), SigningKey::bound_token());
    for _ in 0..100 {
        let key = key.clone();
        tokio::spawn(async move { url(&key).await });
    }
    tokio::time::sleep(Duration::from_millis(500)).await;
    match tokio::time::timeout(Duration::from_secs(10), url(&other)).await {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => fail(e),
        Err(_) => fail("a call waits for the calls of another key"),
    }
}
''')

bug('c08-byte-order-mark', 'C08',
 needs='a query parameter whose value begins with the character U+FEFF',
 breaks='a byte order mark at the start of a query parameter value is dropped, so the URL carries another value than the one given',
 edits=[(U,'''            .map(|(k, v)| (k.as_str(), v.as_str())),''','''            .map(|(k, v)| (k.as_str(), v.trim_start_matches('\\u{feff}'))),''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    for value in ["a", "", "\\u{feff}", "\\u{feff}a", "a\\u{feff}", " \\u{feff}b "] {
        let mut o = options(&local_key(), false);
        o.query_parameters = vec![("response-content-type".to_string(), value.to_string())];
        let u = SignedUrl::read(&build(o).await.unwrap_or_else(|e| fail(e)));
        check(u.get("response-content-type") == value, format!("asked for {value:?}, the URL carries another value"));
    }
}
''')

bug('c11-sixteen-metadata', 'C11',
 needs='a form with more than sixteen x-goog-meta fields',
 breaks='the policy constrains only the first sixteen custom metadata fields; the others may be changed by the uploader',
 edits=[(H,'''                for (name, value) in &self.x_goog_meta {
''','''                for (name, value) in self.x_goog_meta.iter().take(16) {
''')],
 main='''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    for n in [1usize, 8, 16, 17, 20] {
        let mut b = HtmlFormData::builder()
            .bucket("bucket")
            .key("k")
            .policy_document_signing_options(policy_options(&local_key(), false));
        for i in 0..n {
            b = b.x_goog_meta(format!("m{i}"), format!("v{i}"));
        }
        let f = b.build().await.unwrap_or_else(|e| fail(e)).into_vec();
        let p = policy(&f);
        let conditions = p.to_string();
        for i in 0..n {
            check(conditions.contains(&format!("x-goog-meta-m{i}\\"")), format!("field {i} of {n} is not constrained"));
        }
    }
}
''')

bug('c18-signatures-remembered', 'C18',
 needs='a service-account key, and a process that signs for a very long time',
 breaks='a few bytes of every signature made locally are kept for ever, to count how many different ones there were',
 edits=[(I,'''                    Ok(signature)
''','''                    Ok(counted(signature))
'''),
        (I,'''#[derive(Clone)]
pub(crate) enum SigningKeyInner {''','''fn counted(signature: Vec<u8>) -> Vec<u8> {
    type Seen = std::sync::Mutex<std::collections::BTreeSet<Vec<u8>>>;
    static SEEN: Seen = Seen::new(std::collections::BTreeSet::new());
    let mut seen = SEEN.lock().expect("signatures");
    seen.insert(signature.iter().take(8).copied().collect());
    signature
}

#[derive(Clone)]
pub(crate) enum SigningKeyInner {''')],
 main=GROWTH+'''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    let key = local_key();
    let mut seen = vec![];
    let mut n = 0;
    for _ in 0..3 {
        for _ in 0..300 {
            n += 1;
            let mut o = options(&key, false);
            o.object_name = format!("object-{n:06}");
            check(build(o).await.is_ok(), "a call failed");
        }
        seen.push(held(&world));
    }
    let grown = seen[2] - seen[1];
    check(grown < 2000, format!("300 calls left {grown} bytes behind"));
}
''')

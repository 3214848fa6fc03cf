GROWTH = '''
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicI64, Ordering},
};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// The bytes held, with what this program noted about the requests thrown away.
fn held(world: &World) -> i64 {
    world.0.lock().unwrap().sent = vec![];
    LIVE.load(Ordering::Relaxed)
}
'''
bug('c18-cache-history', 'C18',
 needs='a key that lives through very many refreshes of its token',
 breaks='the key keeps every token it ever fetched, expired ones too, and only reads the last of them: what it holds grows with every refresh',
 edits=[(B,'    cache: Arc<tokio::sync::Mutex<Option<(String, String, SystemTime)>>>,','    cache: Arc<tokio::sync::Mutex<Vec<(String, String, SystemTime)>>>,'),
        (B,'            cache: Arc::new(tokio::sync::Mutex::new(None)),','            cache: Arc::new(tokio::sync::Mutex::new(Vec::new())),'),
        (B,'        Ok(match cache.clone() {','        Ok(match cache.last().cloned() {'),
        (B,'                *cache = Some((email.clone(), access_token.access_token.clone(), expires));','                cache.push((email.clone(), access_token.access_token.clone(), expires));')],
 main=GROWTH+'''
// Tokens that live for a second must be refreshed by each call.
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 1, |_, _, _| async { None });
    let key = SigningKey::bound_token();
    let mut seen = vec![];
    for _ in 0..3 {
        for _ in 0..500 {
            check(url(&key).await.is_ok(), "a call failed");
        }
        seen.push(held(&world));
    }
    let grown = seen[2] - seen[1];
    check(grown < 4000, format!("500 calls left {grown} bytes behind"));
}
''')

bug('c18-in-flight', 'C18',
 needs='many calls given up by their callers while the signing service has not answered yet',
 breaks='a register of the requests under way to the signing service forgets a request only when its answer comes; a call dropped before that stays in it for ever',
 edits=[(B,'''        let response = self
            .client
            .execute(request)
            .await
            .map_err(BoundTokenError::SignBlobRequestExecute)?;
''','''        static UNDER_WAY: std::sync::Mutex<Vec<(String, Vec<u8>)>> = std::sync::Mutex::new(Vec::new());
        UNDER_WAY
            .lock()
            .expect("register")
            .push((email.to_string(), message.to_vec()));
        let response = self.client.execute(request).await;
        UNDER_WAY
            .lock()
            .expect("register")
            .retain(|(_, m)| m != message);
        let response = response.map_err(BoundTokenError::SignBlobRequestExecute)?;
''')],
 main=GROWTH+'''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, k, _| async move {
        if k == Kind::Sign {
            std::future::pending::<()>().await;
        }
        None
    });
    let key = SigningKey::bound_token();
    let mut seen = vec![];
    for _ in 0..3 {
        for n in 0..200 {
            let mut o = options(&key, true);
            o.object_name = format!("object-{n}");
            let answer = tokio::time::timeout(Duration::from_millis(2), build(o)).await;
            check(answer.is_err(), "a call ended without an answer");
        }
        seen.push(held(&world));
    }
    let grown = seen[2] - seen[1];
    check(grown < 4000, format!("200 calls given up left {grown} bytes behind"));
}
''')

bug('c18-error-leaked', 'C18',
 needs='a metadata server that keeps answering with error statuses, and many calls meeting them',
 breaks='the text of an error answer of the metadata server is leaked to make it a static string, so that each failed call leaves its text behind',
 edits=[(B,'    TokenRequestStatus(u16, String),','    TokenRequestStatus(u16, &\'static str),'),
        (B,'''                    return Err(BoundTokenError::TokenRequestStatus(
                        status.as_u16(),
                        response_body,
                    ));''','''                    return Err(BoundTokenError::TokenRequestStatus(
                        status.as_u16(),
                        response_body.leak(),
                    ));''')],
 main=GROWTH+'''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, k, _| async move {
        (k == Kind::Token).then(|| status(503, "the metadata server is not ready yet"))
    });
    let key = SigningKey::bound_token();
    let mut seen = vec![];
    for _ in 0..3 {
        for _ in 0..500 {
            check(url(&key).await.is_err(), "a call without a token succeeded");
        }
        seen.push(held(&world));
    }
    let grown = seen[2] - seen[1];
    check(grown < 4000, format!("500 failed calls left {grown} bytes behind"));
}
''')

bug('c18-keys-registered', 'C18',
 needs='a program that makes a key for each of its calls, or reloads keys again and again, for a long time',
 breaks='the token caches of all keys are registered, weakly, so that they could be emptied together; nothing ever takes an entry out, so that each key that went away leaves its entry and its cache cell behind',
 edits=[(B,'    pub fn new() -> Self {\n        Self {\n','''    pub fn new() -> Self {
        type Kept = tokio::sync::Mutex<Option<(String, String, SystemTime)>>;
        static KEPT: std::sync::Mutex<Vec<(std::sync::Weak<Kept>, SystemTime)>> =
            std::sync::Mutex::new(Vec::new());
        let cache = Arc::new(Kept::new(None));
        KEPT.lock()
            .expect("register of caches")
            .push((Arc::downgrade(&cache), SystemTime::now()));
        Self {
'''),(B,'            cache: Arc::new(tokio::sync::Mutex::new(None)),','            cache,')],
 main=GROWTH+'''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, _, _| async { None });
    let mut seen = vec![];
    for _ in 0..3 {
        for _ in 0..500 {
            check(url(&SigningKey::bound_token()).await.is_ok(), "a call failed");
        }
        seen.push(held(&world));
    }
    let grown = seen[2] - seen[1];
    check(grown < 4000, format!("500 keys that are gone left {grown} bytes behind"));
}
''')
POLLS = '''
use std::{
    future::Future,
    pin::Pin,
    sync::atomic::{AtomicU64, Ordering},
    sync::Arc,
    task::{Context, Poll},
};

/// Counts the polls of a future and notes the longest.
struct Polled<F>(Pin<Box<F>>, Arc<AtomicU64>, Arc<AtomicU64>);
impl<F: Future> Future for Polled<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        self.1.fetch_add(1, Ordering::Relaxed);
        let begun = std::time::Instant::now();
        let r = self.0.as_mut().poll(cx);
        self.2.fetch_max(begun.elapsed().as_millis() as u64, Ordering::Relaxed);
        r
    }
}
'''
bug('c19-looks-in-turns', 'C19',
 needs='a second call on a key while the first is refreshing from a metadata server that takes its time',
 breaks='a call that finds the refresh of another under way looks at short intervals whether it is over, for as long as that takes, instead of being woken when it is',
 edits=[(B,'        let mut cache = self.cache.lock().await;\n','''        let mut cache = loop {
            let waited = tokio::time::timeout(Duration::from_millis(10), self.cache.lock()).await;
            if let Ok(cache) = waited {
                break cache;
            }
        };
''')],
 main=POLLS+'''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, k, _| async move {
        if k == Kind::Token {
            tokio::time::sleep(Duration::from_millis(1500)).await;
        }
        None
    });
    let key = SigningKey::bound_token();
    let (polls, longest) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let first = key.clone();
    let first = tokio::spawn(async move { url(&first).await });
    tokio::time::sleep(Duration::from_millis(50)).await;
    let second = Polled(Box::pin(url(&key)), polls.clone(), longest).await;
    check(first.await.unwrap().is_ok() && second.is_ok(), "a call failed");
    let polls = polls.load(Ordering::Relaxed);
    check(polls < 30, format!("a call that waited for another was polled {polls} times"));
}
''')
bug('c19-sleeps-in-place', 'C19',
 needs='a metadata server that answers the token request with a server error status, and anything else on the same thread',
 breaks='before it reports a server error of the metadata server, a call puts its whole thread to sleep so that callers do not retry too fast',
 edits=[(B,'''                    let response_body = response
                        .text()
                        .await
                        .map_err(BoundTokenError::TokenRequestErrorResponse)?;
''','''                    let response_body = response.text().await;
                    if status.is_server_error() {
                        std::thread::sleep(Duration::from_millis(200));
                    }
                    let response_body =
                        response_body.map_err(BoundTokenError::TokenRequestErrorResponse)?;
''')],
 main=POLLS+'''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, k, _| async move {
        (k == Kind::Token).then(|| status(503, "not ready"))
    });
    let key = SigningKey::bound_token();
    let mut shortest = u64::MAX;
    for _ in 0..5 {
        let (polls, longest) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
        let r = Polled(Box::pin(url(&key)), polls, longest.clone()).await;
        check(r.is_err(), "a call without a token succeeded");
        shortest = shortest.min(longest.load(Ordering::Relaxed));
    }
    check(shortest < 150, format!("each failed call held its thread for {shortest} ms or more"));
}
''')
bug('c19-yields-while-locked', 'C19',
 needs='two calls on one key of which one is refreshing and waits for a slow answer',
 breaks='a call that finds the refresh of another under way yields and tries again at once, so that it keeps the thread and the processor busy for as long as the refresh takes',
 edits=[(B,'        let mut cache = self.cache.lock().await;\n','''        let mut cache = loop {
            if let Ok(cache) = self.cache.try_lock() {
                break cache;
            }
            tokio::task::yield_now().await;
        };
''')],
 main=POLLS+'''
#[tokio::main(flavor = "current_thread")]
async fn main() {
    let world = World::new();
    install(&world, EMAIL, 3600, |_, k, _| async move {
        if k == Kind::Email {
            tokio::time::sleep(Duration::from_millis(700)).await;
        }
        None
    });
    let key = SigningKey::bound_token();
    let (polls, longest) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let first = key.clone();
    let first = tokio::spawn(async move { url(&first).await });
    tokio::time::sleep(Duration::from_millis(50)).await;
    let second = Polled(Box::pin(url(&key)), polls.clone(), longest).await;
    check(first.await.unwrap().is_ok() && second.is_ok(), "a call failed");
    let polls = polls.load(Ordering::Relaxed);
    check(polls < 30, format!("a call that waited for another was polled {polls} times"));
}
''')

//! A stand-in for reqwest that sends nothing: every request goes to a handler the demonstration installs.
use std::{
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    time::Duration,
};

pub use http::{header, Method, StatusCode, Version};
pub use url::Url;

pub type Answer = Result<Reply, String>;
pub type Answering = Pin<Box<dyn Future<Output = Answer> + Send>>;

/// What came back: the status, and the body or the error met while it was read.
pub struct Reply {
    pub status: u16,
    pub body: Result<Vec<u8>, String>,
}

/// What was sent.
#[derive(Clone, Debug)]
pub struct Sent {
    pub method: String,
    pub url: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

type Handler = Arc<dyn Fn(Sent) -> Answering + Send + Sync>;
static HANDLER: Mutex<Option<Handler>> = Mutex::new(None);

pub fn install<F>(f: F)
where
    F: Fn(Sent) -> Answering + Send + Sync + 'static,
{
    *HANDLER.lock().unwrap() = Some(Arc::new(f));
}

#[derive(Debug)]
pub struct Error {
    text: String,
    status: Option<StatusCode>,
}
pub type Result2<T> = std::result::Result<T, Error>;
impl Error {
    fn new(text: impl Into<String>) -> Self {
        Self { text: text.into(), status: None }
    }
    pub fn status(&self) -> Option<StatusCode> {
        self.status
    }
    pub fn is_timeout(&self) -> bool {
        false
    }
    pub fn is_connect(&self) -> bool {
        self.text.contains("connect")
    }
    pub fn is_request(&self) -> bool {
        true
    }
    pub fn is_body(&self) -> bool {
        self.text.contains("body")
    }
    pub fn is_decode(&self) -> bool {
        self.text.contains("decod")
    }
    pub fn is_builder(&self) -> bool {
        self.text.contains("builder")
    }
    pub fn is_status(&self) -> bool {
        self.status.is_some()
    }
    pub fn is_redirect(&self) -> bool {
        false
    }
    pub fn without_url(self) -> Self {
        self
    }
    pub fn url(&self) -> Option<&Url> {
        None
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.text)
    }
}
impl std::error::Error for Error {}

pub mod redirect {
    #[derive(Debug, Default)]
    pub struct Policy;
    impl Policy {
        pub fn none() -> Self {
            Self
        }
        pub fn limited(_: usize) -> Self {
            Self
        }
    }
}

pub trait IntoUrl {
    fn into_url(self) -> Result2<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result2<Url> {
        Ok(self)
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result2<Url> {
        Url::parse(self).map_err(|e| Error::new(format!("builder error: {e}")))
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result2<Url> {
        self.as_str().into_url()
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result2<Url> {
        self.as_str().into_url()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Body(Vec<u8>);
impl Body {
    pub fn as_bytes(&self) -> Option<&[u8]> {
        Some(&self.0)
    }
}
impl From<String> for Body {
    fn from(s: String) -> Self {
        Self(s.into_bytes())
    }
}
impl From<&'static str> for Body {
    fn from(s: &'static str) -> Self {
        Self(s.as_bytes().to_vec())
    }
}
impl From<Vec<u8>> for Body {
    fn from(s: Vec<u8>) -> Self {
        Self(s)
    }
}
impl From<&'static [u8]> for Body {
    fn from(s: &'static [u8]) -> Self {
        Self(s.to_vec())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client;
#[derive(Clone, Debug, Default)]
pub struct ClientBuilder;
impl ClientBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn connect_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn read_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn no_proxy(self) -> Self {
        self
    }
    pub fn redirect(self, _: redirect::Policy) -> Self {
        self
    }
    pub fn user_agent<V>(self, _: V) -> Self {
        self
    }
    pub fn default_headers(self, _: header::HeaderMap) -> Self {
        self
    }
    pub fn tcp_nodelay(self, _: bool) -> Self {
        self
    }
    pub fn tcp_keepalive<D: Into<Option<Duration>>>(self, _: D) -> Self {
        self
    }
    pub fn http1_only(self) -> Self {
        self
    }
    pub fn https_only(self, _: bool) -> Self {
        self
    }
    pub fn pool_max_idle_per_host(self, _: usize) -> Self {
        self
    }
    pub fn pool_idle_timeout<D: Into<Option<Duration>>>(self, _: D) -> Self {
        self
    }
    pub fn danger_accept_invalid_certs(self, _: bool) -> Self {
        self
    }
    pub fn use_rustls_tls(self) -> Self {
        self
    }
    pub fn build(self) -> Result2<Client> {
        Ok(Client)
    }
}
impl Client {
    pub fn new() -> Self {
        Self
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder
    }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        RequestBuilder(url.into_url().map(|url| Request {
            method,
            url,
            headers: header::HeaderMap::new(),
            body: None,
            timeout: None,
        }))
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn execute(
        &self,
        request: Request,
    ) -> impl Future<Output = Result2<Response>> + Send + 'static {
        let handler = HANDLER.lock().unwrap().clone().expect("no handler");
        let url = request.url.clone();
        let sent = Sent {
            method: request.method.to_string(),
            url: request.url.to_string(),
            headers: request
                .headers
                .iter()
                .map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned()))
                .collect(),
            body: request.body.unwrap_or_default().0,
        };
        async move {
            match handler(sent).await {
                Ok(Reply { status, body }) => Ok(Response {
                    status: StatusCode::from_u16(status).unwrap(),
                    headers: header::HeaderMap::new(),
                    body,
                    url,
                }),
                Err(e) => Err(Error::new(format!("error sending request: {e}"))),
            }
        }
    }
}

pub struct RequestBuilder(Result2<Request>);
impl RequestBuilder {
    pub fn header<K, V>(mut self, key: K, value: V) -> Self
    where
        header::HeaderName: TryFrom<K>,
        <header::HeaderName as TryFrom<K>>::Error: Into<http::Error>,
        header::HeaderValue: TryFrom<V>,
        <header::HeaderValue as TryFrom<V>>::Error: Into<http::Error>,
    {
        if let Ok(request) = self.0.as_mut() {
            match (header::HeaderName::try_from(key), header::HeaderValue::try_from(value)) {
                (Ok(k), Ok(v)) => {
                    request.headers.append(k, v);
                }
                _ => self.0 = Err(Error::new("builder error")),
            }
        }
        self
    }
    pub fn headers(mut self, headers: header::HeaderMap) -> Self {
        if let Ok(request) = self.0.as_mut() {
            request.headers.extend(headers);
        }
        self
    }
    pub fn bearer_auth<T: std::fmt::Display>(self, token: T) -> Self {
        self.header(header::AUTHORIZATION, format!("Bearer {token}"))
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn query<T: serde::Serialize + ?Sized>(mut self, pairs: &T) -> Self {
        if let Ok(request) = self.0.as_mut() {
            if let Ok(serde_json::Value::Array(list)) = serde_json::to_value(pairs) {
                for pair in list {
                    if let (Some(k), Some(v)) = (pair[0].as_str(), pair[1].as_str()) {
                        request.url.query_pairs_mut().append_pair(k, v);
                    }
                }
            }
        }
        self
    }
    pub fn body<T: Into<Body>>(mut self, body: T) -> Self {
        if let Ok(request) = self.0.as_mut() {
            request.body = Some(body.into());
        }
        self
    }
    pub fn json<T: serde::Serialize + ?Sized>(self, json: &T) -> Self {
        self.header(header::CONTENT_TYPE, "application/json")
            .body(serde_json::to_vec(json).unwrap())
    }
    pub fn build(self) -> Result2<Request> {
        self.0
    }
    pub async fn send(self) -> Result2<Response> {
        Client.execute(self.0?).await
    }
}

#[derive(Debug)]
pub struct Request {
    method: Method,
    url: Url,
    headers: header::HeaderMap,
    body: Option<Body>,
    timeout: Option<Duration>,
}
impl Request {
    pub fn new(method: Method, url: Url) -> Self {
        Self { method, url, headers: header::HeaderMap::new(), body: None, timeout: None }
    }
    pub fn method(&self) -> &Method {
        &self.method
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn headers(&self) -> &header::HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut header::HeaderMap {
        &mut self.headers
    }
    pub fn body(&self) -> Option<&Body> {
        self.body.as_ref()
    }
    pub fn body_mut(&mut self) -> &mut Option<Body> {
        &mut self.body
    }
    pub fn timeout_mut(&mut self) -> &mut Option<Duration> {
        &mut self.timeout
    }
    pub fn try_clone(&self) -> Option<Self> {
        Some(Self {
            method: self.method.clone(),
            url: self.url.clone(),
            headers: self.headers.clone(),
            body: self.body.clone(),
            timeout: self.timeout,
        })
    }
}

#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    headers: header::HeaderMap,
    body: Result<Vec<u8>, String>,
    url: Url,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &header::HeaderMap {
        &self.headers
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn content_length(&self) -> Option<u64> {
        None
    }
    fn read(self) -> Result2<Vec<u8>> {
        self.body
            .map_err(|e| Error::new(format!("error decoding response body: {e}")))
    }
    pub async fn bytes(self) -> Result2<Vec<u8>> {
        self.read()
    }
    pub async fn chunk(&mut self) -> Result2<Option<Vec<u8>>> {
        match std::mem::replace(&mut self.body, Ok(vec![])) {
            Ok(b) if b.is_empty() => Ok(None),
            Ok(b) => Ok(Some(b)),
            Err(e) => Err(Error::new(format!("error decoding response body: {e}"))),
        }
    }
    pub async fn text(self) -> Result2<String> {
        self.read().map(|b| String::from_utf8_lossy(&b).into_owned())
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result2<T> {
        serde_json::from_slice(&self.read()?)
            .map_err(|e| Error::new(format!("error decoding response body: {e}")))
    }
    pub fn error_for_status_ref(&self) -> Result2<&Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error {
                text: format!("HTTP status error ({})", self.status),
                status: Some(self.status),
            });
        }
        Ok(self)
    }
    pub fn error_for_status(self) -> Result2<Self> {
        self.error_for_status_ref()?;
        Ok(self)
    }
}

//! Stand-in for reqwest: GET requests, answered by a function that a check has registered for the host
//! (see `sim`), or over plain HTTP/1.1 on the loopback network.
use serde::de::DeserializeOwned;
use std::fmt;
pub use http::{Method, StatusCode, header};
pub use url::Url;

/// For the side of the server.
pub mod sim {
    use std::collections::HashMap;
    use std::sync::{Arc, Mutex, OnceLock};
    use url::Url;

    pub enum Answer {
        Status(u16, Arc<Vec<u8>>),
        /// the connection breaks before an answer
        Broken,
    }
    pub type Server = Arc<dyn Fn(&Url) -> Answer + Send + Sync>;
    fn servers() -> &'static Mutex<HashMap<String, Server>> {
        static S: OnceLock<Mutex<HashMap<String, Server>>> = OnceLock::new();
        S.get_or_init(Default::default)
    }
    pub fn register(host: &str, server: Server) {
        servers().lock().unwrap().insert(host.to_string(), server);
    }
    pub fn unregister(host: &str) {
        servers().lock().unwrap().remove(host);
    }
    pub(crate) fn find(host: &str) -> Option<Server> {
        servers().lock().unwrap().get(host).cloned()
    }
}

pub struct Error {
    kind: Kind,
    url: Option<Url>,
}
enum Kind {
    Request(String),
    Status(StatusCode),
    Decode(serde_json::Error),
}
pub type Result<T> = std::result::Result<T, Error>;

impl Error {
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn is_decode(&self) -> bool {
        matches!(self.kind, Kind::Decode(_))
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Request(_))
    }
    pub fn is_connect(&self) -> bool {
        self.is_request()
    }
    pub fn is_timeout(&self) -> bool {
        false
    }
    pub fn is_body(&self) -> bool {
        false
    }
    pub fn is_builder(&self) -> bool {
        false
    }
    pub fn is_redirect(&self) -> bool {
        false
    }
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
    pub fn without_url(self) -> Self {
        Self { url: None, ..self }
    }
    pub fn with_url(self, url: Url) -> Self {
        Self { url: Some(url), ..self }
    }
    fn request(e: impl fmt::Display, url: &Url) -> Self {
        Self { kind: Kind::Request(e.to_string()), url: Some(url.clone()) }
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.kind {
            Kind::Request(e) => write!(f, "error sending request: {e}")?,
            Kind::Status(s) => write!(f, "HTTP status error ({s})")?,
            Kind::Decode(e) => write!(f, "error decoding response body: {e}")?,
        }
        match &self.url {
            Some(u) => write!(f, " for url ({u})"),
            None => Ok(()),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Debug)]
pub struct Request {
    method: Method,
    url: Url,
    headers: header::HeaderMap,
}
impl Request {
    pub fn new(method: Method, url: Url) -> Self {
        Self { method, url, headers: Default::default() }
    }
    pub fn try_clone(&self) -> Option<Self> {
        Some(Self { method: self.method.clone(), url: self.url.clone(), headers: self.headers.clone() })
    }
    pub fn url_mut(&mut self) -> &mut Url {
        &mut self.url
    }
    pub fn headers(&self) -> &header::HeaderMap {
        &self.headers
    }
    pub fn headers_mut(&mut self) -> &mut header::HeaderMap {
        &mut self.headers
    }
    pub fn method(&self) -> &Method {
        &self.method
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
}

#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    body: std::sync::Arc<Vec<u8>>,
    url: Url,
}
impl Response {
    #[doc(hidden)]
    pub fn from_parts(status: u16, body: Vec<u8>, url: Url) -> Self {
        Self { status: StatusCode::from_u16(status).unwrap(), body: body.into(), url }
    }
    #[doc(hidden)]
    pub fn body(&self) -> &[u8] {
        &self.body
    }
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn content_length(&self) -> Option<u64> {
        Some(self.body.len() as u64)
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error { kind: Kind::Status(self.status), url: Some(self.url) });
        }
        Ok(self)
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            return Err(Error { kind: Kind::Status(self.status), url: Some(self.url.clone()) });
        }
        Ok(self)
    }
    pub async fn json<T: DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.body).map_err(|e| Error { kind: Kind::Decode(e), url: Some(self.url) })
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.body.to_vec())
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.body).into_owned())
    }
}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|e| Error { kind: Kind::Request(e.to_string()), url: None })
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client;

/// Nothing of what it takes makes a difference on a network that answers at once.
#[derive(Clone, Debug, Default)]
pub struct ClientBuilder;
impl ClientBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client)
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn connect_timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn read_timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub fn pool_idle_timeout(self, _: impl Into<Option<std::time::Duration>>) -> Self {
        self
    }
    pub fn pool_max_idle_per_host(self, _: usize) -> Self {
        self
    }
    pub fn tcp_keepalive(self, _: impl Into<Option<std::time::Duration>>) -> Self {
        self
    }
    pub fn tcp_nodelay(self, _: bool) -> Self {
        self
    }
    pub fn user_agent(self, _: &str) -> Self {
        self
    }
    pub fn default_headers(self, _: header::HeaderMap) -> Self {
        self
    }
}

impl Client {
    pub fn new() -> Self {
        Self
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder
    }
    pub async fn execute(&self, req: Request) -> Result<Response> {
        let url = req.url;
        let host = url.host_str().unwrap_or_default().to_string();
        if let Some(server) = sim::find(&host) {
            // other tasks get their turn
            tokio::task::yield_now().await;
            return match server(&url) {
                sim::Answer::Status(s, body) => Ok(Response { status: StatusCode::from_u16(s).unwrap(), body, url }),
                sim::Answer::Broken => Err(Error::request("connection reset", &url)),
            };
        }
        http1(&url).await.map_err(|e| Error::request(e, &url))
    }
}

async fn http1(url: &Url) -> std::result::Result<Response, String> {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    if url.scheme() != "http" {
        return Err("only plain HTTP is available".into());
    }
    let host = url.host_str().ok_or("no host")?;
    let port = url.port_or_known_default().ok_or("no port")?;
    let mut s = tokio::net::TcpStream::connect((host, port)).await.map_err(|e| e.to_string())?;
    let path = &url[url::Position::BeforePath..url::Position::AfterQuery];
    let req = format!("GET {path} HTTP/1.1\r\nHost: {host}:{port}\r\nAccept: */*\r\nConnection: close\r\n\r\n");
    s.write_all(req.as_bytes()).await.map_err(|e| e.to_string())?;
    let mut all = Vec::new();
    s.read_to_end(&mut all).await.map_err(|e| e.to_string())?;
    let end = all.windows(4).position(|w| w == b"\r\n\r\n").ok_or("incomplete answer")?;
    let head = String::from_utf8_lossy(&all[..end]).into_owned();
    let status: u16 = head.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or("bad status line")?;
    let body = all.split_off(end + 4);
    let len = head.lines().find_map(|l| {
        let (k, v) = l.split_once(':')?;
        k.eq_ignore_ascii_case("content-length").then(|| v.trim().parse::<usize>().ok())?
    });
    if len.is_some_and(|n| n != body.len()) {
        return Err("connection closed before the message was complete".into());
    }
    Ok(Response { status: StatusCode::from_u16(status).map_err(|e| e.to_string())?, body: body.into(), url: url.clone() })
}

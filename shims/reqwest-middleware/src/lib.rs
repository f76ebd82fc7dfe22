//! Stand-in for reqwest-middleware: a chain of middlewares before a client.
use http::Extensions;
use reqwest::{Client, IntoUrl, Method, Request, Response};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;

#[derive(Debug, thiserror::Error)]
pub enum Error {
    #[error("Middleware error: {0}")]
    Middleware(#[from] anyhow::Error),
    #[error("Request error: {0}")]
    Reqwest(#[from] reqwest::Error),
}
impl Error {
    pub fn middleware<E: Into<anyhow::Error>>(e: E) -> Self {
        Self::Middleware(e.into())
    }
    fn http(&self) -> Option<&reqwest::Error> {
        match self {
            Self::Reqwest(e) => Some(e),
            Self::Middleware(_) => None,
        }
    }
    pub fn is_middleware(&self) -> bool {
        self.http().is_none()
    }
    pub fn status(&self) -> Option<reqwest::StatusCode> {
        self.http()?.status()
    }
    pub fn is_status(&self) -> bool {
        self.http().is_some_and(|e| e.is_status())
    }
    pub fn is_timeout(&self) -> bool {
        self.http().is_some_and(|e| e.is_timeout())
    }
    pub fn is_connect(&self) -> bool {
        self.http().is_some_and(|e| e.is_connect())
    }
    pub fn is_request(&self) -> bool {
        self.http().is_some_and(|e| e.is_request())
    }
    pub fn is_decode(&self) -> bool {
        self.http().is_some_and(|e| e.is_decode())
    }
    pub fn url(&self) -> Option<&reqwest::Url> {
        self.http()?.url()
    }
}
pub type Result<T> = std::result::Result<T, Error>;

pub trait Middleware: 'static + Send + Sync {
    fn handle(&self, req: Request, extensions: &mut Extensions, next: Next<'_>) -> impl Future<Output = Result<Response>> + Send;
}
type BoxFuture<'a> = Pin<Box<dyn Future<Output = Result<Response>> + Send + 'a>>;
pub trait Dyn: Send + Sync {
    fn handle_dyn<'a>(&'a self, req: Request, extensions: &'a mut Extensions, next: Next<'a>) -> BoxFuture<'a>;
}
impl<M: Middleware> Dyn for M {
    fn handle_dyn<'a>(&'a self, req: Request, extensions: &'a mut Extensions, next: Next<'a>) -> BoxFuture<'a> {
        Box::pin(self.handle(req, extensions, next))
    }
}

#[derive(Clone)]
pub struct Next<'a> {
    client: &'a Client,
    rest: &'a [Arc<dyn Dyn>],
}
impl<'a> Next<'a> {
    pub fn run(self, req: Request, extensions: &'a mut Extensions) -> BoxFuture<'a> {
        match self.rest.split_first() {
            Some((m, rest)) => m.handle_dyn(req, extensions, Next { client: self.client, rest }),
            None => Box::pin(async move { Ok(self.client.execute(req).await?) }),
        }
    }
}

pub struct ClientBuilder {
    client: Client,
    stack: Vec<Arc<dyn Dyn>>,
}
impl ClientBuilder {
    pub fn new(client: Client) -> Self {
        Self { client, stack: Vec::new() }
    }
    pub fn with<M: Middleware>(mut self, m: M) -> Self {
        self.stack.push(Arc::new(m));
        self
    }
    pub fn with_arc<M: Middleware>(mut self, m: Arc<M>) -> Self {
        self.stack.push(m);
        self
    }
    pub fn build(self) -> ClientWithMiddleware {
        ClientWithMiddleware { client: self.client, stack: self.stack.into() }
    }
}
#[derive(Clone)]
pub struct ClientWithMiddleware {
    client: Client,
    stack: Arc<[Arc<dyn Dyn>]>,
}
impl ClientWithMiddleware {
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        RequestBuilder { client: self.clone(), req: url.into_url().map(|u| Request::new(method, u)) }
    }
    pub async fn execute(&self, req: Request) -> Result<Response> {
        let mut extensions = Extensions::new();
        Next { client: &self.client, rest: &self.stack }.run(req, &mut extensions).await
    }
}
pub struct RequestBuilder {
    client: ClientWithMiddleware,
    req: reqwest::Result<Request>,
}
impl RequestBuilder {
    pub fn build(self) -> reqwest::Result<Request> {
        self.req
    }
    pub fn header(mut self, name: impl reqwest::header::IntoHeaderName, value: &str) -> Self {
        if let (Ok(r), Ok(v)) = (&mut self.req, value.parse()) {
            r.headers_mut().insert(name, v);
        }
        self
    }
    pub fn timeout(self, _: std::time::Duration) -> Self {
        self
    }
    pub async fn send(self) -> Result<Response> {
        let req = self.req?;
        self.client.execute(req).await
    }
}

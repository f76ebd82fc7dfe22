//! Stand-in for http-cache-reqwest in mode ForceCache: successful answers are kept in a directory and
//! given again.
use http::Extensions;
use reqwest::{Request, Response};
use reqwest_middleware::{Error, Middleware, Next, Result};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum CacheMode {
    #[default]
    Default,
    NoStore,
    Reload,
    NoCache,
    ForceCache,
    OnlyIfCached,
    IgnoreRules,
}
#[derive(Clone, Debug, Default)]
pub struct HttpCacheOptions {}
#[derive(Clone, Debug)]
pub struct CACacheManager {
    pub path: PathBuf,
}
#[derive(Clone, Debug)]
pub struct HttpCache<M> {
    pub mode: CacheMode,
    pub manager: M,
    pub options: HttpCacheOptions,
}
#[derive(Clone, Debug)]
pub struct Cache<M>(pub HttpCache<M>);

impl Middleware for Cache<CACacheManager> {
    async fn handle(&self, req: Request, extensions: &mut Extensions, next: Next<'_>) -> Result<Response> {
        let url = req.url().clone();
        let dir = &self.0.manager.path;
        let mut name = std::hash::DefaultHasher::new();
        (req.method().as_str(), url.as_str()).hash(&mut name);
        let file = dir.join(format!("{:016x}", name.finish()));
        use CacheMode::*;
        // the answers of the simulated node carry no headers that would limit their use
        if matches!(self.0.mode, ForceCache | IgnoreRules | OnlyIfCached) {
            if let Ok(body) = std::fs::read(&file) {
                return Ok(Response::from_parts(200, body, url));
            }
        }
        if self.0.mode == OnlyIfCached {
            return Ok(Response::from_parts(504, vec![], url));
        }
        let resp = next.run(req, extensions).await?;
        if resp.status().is_success() && self.0.mode != NoStore {
            std::fs::create_dir_all(dir).and_then(|()| std::fs::write(&file, resp.body())).map_err(Error::middleware)?;
        }
        Ok(resp)
    }
}

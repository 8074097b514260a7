//! Simulated HTTP servers behind the `reqwest` client seam (its middleware):
//! the loader's own code runs unchanged on responses built here; every answer,
//! body chunk, delay and failure is decided by the case.
use crate::exec::{Sim, Sleep};
use bytes::Bytes;
use reqwest::ResponseBuilderExt;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// Everything runs on one thread: nothing is ever sent.
pub struct Unsend<T>(pub T);
unsafe impl<T> Send for Unsend<T> {}
unsafe impl<T> Sync for Unsend<T> {}
impl<F: Future + Unpin> Future for Unsend<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}

/// A header value with parameters.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Header {
    /// Media type or link target.
    pub value: String,
    pub params: Vec<(String, String)>,
    /// Quote the parameter values.
    #[serde(default)]
    pub quoted: bool,
    /// Space after `;`.
    #[serde(default)]
    pub space: bool,
}
impl Header {
    fn params(&self, quoted: bool) -> String {
        let mut s = String::new();
        for (k, v) in &self.params {
            s.push(';');
            if self.space {
                s.push(' ');
            }
            s.push_str(k);
            s.push('=');
            if quoted {
                s.push('"');
            }
            s.push_str(v);
            if quoted {
                s.push('"');
            }
        }
        s
    }
    pub fn content_type(&self) -> String {
        format!("{}{}", self.value, self.params(self.quoted || self.params.iter().any(|(_, v)| v.contains(' '))))
    }
    pub fn link(&self) -> String {
        format!("<{}>{}", self.value, self.params(true))
    }
    pub fn param(&self, k: &str) -> Option<&str> {
        self.params.iter().find(|p| p.0 == k).map(|p| p.1.as_str())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Resource {
    pub status: u16,
    pub types: Vec<Header>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub links: Vec<Header>,
    pub body: String,
    /// URL after the regular redirections done by the client.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub final_url: Option<String>,
}
pub type Site = BTreeMap<String, Resource>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum HFaultKind {
    /// The connection cannot be established.
    Refused,
    /// Established, then lost before any answer, after that many ms.
    Hang(u64),
    Status(u16),
    /// Transport error after that part (per mille) of the body.
    Reset(u32),
    /// The body ends there without any error.
    Cut(u32),
    /// One bit of the body is flipped.
    Flip(u32, u8),
    /// The body is followed by other bytes.
    Extra(String),
    /// The body stalls in the middle for that many ms, then goes on.
    Stall(u64),
    /// The media type is lost.
    NoType,
}
impl HFaultKind {
    pub fn name(&self) -> &'static str {
        match self {
            HFaultKind::Refused => "connection_refused",
            HFaultKind::Hang(_) => "hang_then_lost",
            HFaultKind::Status(_) => "error_status",
            HFaultKind::Reset(_) => "reset_mid_body",
            HFaultKind::Cut(_) => "body_cut",
            HFaultKind::Flip(..) => "bit_flip",
            HFaultKind::Extra(_) => "trailing_bytes",
            HFaultKind::Stall(_) => "stall_mid_body",
            HFaultKind::NoType => "content_type_lost",
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HFault {
    pub url: String,
    pub client: Option<usize>,
    pub step: Option<usize>,
    /// First failing attempt of the step at that URL, and number of them.
    pub from: u32,
    pub count: u32,
    pub kind: HFaultKind,
}

/// One exchange, as it happened.
#[derive(Clone, Debug, PartialEq)]
pub struct Exchange {
    pub client: usize,
    pub step: usize,
    pub url: String,
    pub method: String,
    pub accept: Vec<String>,
    /// What was answered: `None` when the connection failed.
    pub served: Option<Served>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Served {
    pub res: Resource,
    pub body: Vec<u8>,
    /// The transport failed before the end of the body.
    pub broken: bool,
}

pub struct Shared {
    pub sim: Sim,
    pub site: Site,
    pub faults: Vec<HFault>,
    pub log: RefCell<Vec<Exchange>>,
    pub step: RefCell<BTreeMap<usize, usize>>,
    pub cap: usize,
    /// Largest body chunk.
    pub chunk: usize,
}

struct Body {
    sh: Rc<Shared>,
    data: Vec<u8>,
    pos: usize,
    wait: Option<Sleep>,
    broken: bool,
    stall: Option<(usize, u64)>,
    started: bool,
}
impl http_body::Body for Unsend<Body> {
    type Data = Bytes;
    type Error = Box<dyn std::error::Error + Send + Sync>;
    fn poll_frame(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Option<Result<http_body::Frame<Bytes>, Self::Error>>> {
        let b = &mut self.0;
        loop {
            if let Some(w) = b.wait.as_mut() {
                if Pin::new(w).poll(cx).is_pending() {
                    return Poll::Pending;
                }
                b.wait = None;
            } else if !b.started {
                b.started = true;
                b.wait = Some(b.sh.sim.io());
                continue;
            }
            if let Some((at, ms)) = b.stall {
                if b.pos >= at {
                    b.stall = None;
                    b.wait = Some(b.sh.sim.sleep(ms));
                    continue;
                }
            }
            if b.pos >= b.data.len() {
                if b.broken {
                    b.broken = false;
                    return Poll::Ready(Some(Err("connection reset by peer".into())));
                }
                return Poll::Ready(None);
            }
            let n = 1 + b.sh.sim.choose(b.sh.chunk.max(1));
            let end = (b.pos + n).min(b.data.len());
            let c = Bytes::copy_from_slice(&b.data[b.pos..end]);
            b.pos = end;
            b.wait = Some(b.sh.sim.io());
            return Poll::Ready(Some(Ok(http_body::Frame::data(c))));
        }
    }
}

fn transport(m: &str) -> reqwest_middleware::Error {
    reqwest_middleware::Error::Middleware(std::io::Error::new(std::io::ErrorKind::ConnectionRefused, m.to_string()).into())
}

fn handle(sh: &Rc<Shared>, req: reqwest::Request) -> Unsend<Pin<Box<dyn Future<Output = reqwest_middleware::Result<reqwest::Response>>>>> {
    let sh = sh.clone();
    let client = sh.sim.current();
    let step = sh.step.borrow().get(&client).copied().unwrap_or(0);
    let url = req.url().as_str().to_string();
    let attempt = sh.log.borrow().iter().filter(|e| e.client == client && e.step == step && e.url == url).count() as u32;
    let idx = {
        let mut l = sh.log.borrow_mut();
        l.push(Exchange {
            client,
            step,
            url: url.clone(),
            method: req.method().to_string(),
            accept: req.headers().get_all(http::header::ACCEPT).iter().map(|v| v.to_str().unwrap_or("?").to_string()).collect(),
            served: None,
        });
        l.len() - 1
    };
    Unsend(Box::pin(async move {
        sh.sim.log(format!("client {client} {} {url} #{attempt}", req.method()));
        if idx > sh.cap {
            return Err(transport("request cap"));
        }
        sh.sim.io().await;
        let fault = sh
            .faults
            .iter()
            .find(|f| {
                f.url == url
                    && f.client.map(|t| t == client).unwrap_or(true)
                    && f.step.map(|s| s == step).unwrap_or(true)
                    && attempt >= f.from
                    && attempt - f.from < f.count
            })
            .map(|f| f.kind.clone());
        let mut res = match sh.site.get(&url) {
            Some(r) => r.clone(),
            None => Resource { status: 404, body: "not found".into(), ..Default::default() },
        };
        let mut body = res.body.clone().into_bytes();
        let mut broken = false;
        let mut stall = None;
        let at = |p: u32, b: &[u8]| (p as usize * b.len() / 1000).min(b.len());
        if let Some(k) = &fault {
            sh.sim.fire(k.name());
            sh.sim.log(format!("client {client} fault {} on {url}", k.name()));
            match k {
                HFaultKind::Refused => return Err(transport("connection refused")),
                HFaultKind::Hang(ms) => {
                    sh.sim.sleep(*ms).await;
                    return Err(transport("connection lost"));
                }
                HFaultKind::Status(s) => res.status = *s,
                HFaultKind::Reset(p) => {
                    let n = at(*p, &body);
                    body.truncate(n);
                    broken = true;
                }
                HFaultKind::Cut(p) => {
                    let n = at(*p, &body);
                    body.truncate(n);
                }
                HFaultKind::Flip(p, bit) => {
                    let n = at(*p, &body);
                    if n < body.len() {
                        body[n] ^= 1 << (bit % 8);
                    }
                }
                HFaultKind::Extra(s) => body.extend_from_slice(s.as_bytes()),
                HFaultKind::Stall(ms) => stall = Some((body.len() / 2, *ms)),
                HFaultKind::NoType => res.types.clear(),
            }
        }
        sh.log.borrow_mut()[idx].served = Some(Served { res: res.clone(), body: body.clone(), broken });
        let u = reqwest::Url::parse(res.final_url.as_deref().unwrap_or(&url)).expect("harness URL");
        let mut b = http::Response::builder().status(res.status).url(u);
        for t in &res.types {
            b = b.header(http::header::CONTENT_TYPE, t.content_type());
        }
        for l in &res.links {
            b = b.header(http::header::LINK, l.link());
        }
        let data = Body { sh: sh.clone(), data: body, pos: 0, wait: None, broken, stall, started: false };
        Ok(reqwest::Response::from(b.body(reqwest::Body::wrap(Unsend(data))).expect("harness response")))
    }))
}

/// A client whose requests are answered by the simulated servers.
pub fn client(sh: Rc<Shared>) -> reqwest_middleware::ClientWithMiddleware {
    static REAL: std::sync::OnceLock<reqwest::Client> = std::sync::OnceLock::new();
    let real = REAL.get_or_init(reqwest::Client::new).clone();
    reqwest_middleware::ClientBuilder::new(real).with(Unsend(sh)).build()
}
#[async_trait::async_trait]
impl reqwest_middleware::Middleware for Unsend<Rc<Shared>> {
    async fn handle(
        &self,
        req: reqwest::Request,
        _: &mut http::Extensions,
        _: reqwest_middleware::Next<'_>,
    ) -> reqwest_middleware::Result<reqwest::Response> {
        let fut = handle(&self.0, req);
        fut.await
    }
}

//! C09, C10: the HTTP loader, over simulated servers.
use super::common::*;
use super::{Prop, Verdict};
use crate::canon;
use crate::case::on_thread;
use crate::exec::{self, Outcome, Sched, Sim};
use crate::http::{self, Exchange, HFault, HFaultKind, Header, Resource, Shared, Site};
use crate::model::{self, Env, MDoc};
use crate::ops::{self, Kind, Op, Res};
use crate::rng::Rng;
use iref::Iri;
use json_ld::syntax::Print;
use json_ld::Loader;
use json_ld_core::loader::reqwest::{Options, ReqwestLoader};
use json_ld_core::Profile;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C09, &C10]
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Load(String),
    Run(Op),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HStep {
    pub act: Act,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancel_at: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HClient {
    pub steps: Vec<HStep>,
    #[serde(default)]
    pub start_at: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct HCase {
    pub site: Site,
    pub clients: Vec<HClient>,
    #[serde(default)]
    pub faults: Vec<HFault>,
    #[serde(default)]
    pub profiles: Vec<String>,
    pub max: usize,
    #[serde(default)]
    pub chunk: usize,
    #[serde(default)]
    pub sched: Sched,
    #[serde(default)]
    pub latency: u64,
    #[serde(default)]
    pub spurious: u16,
    #[serde(default)]
    pub hash: u64,
}

#[derive(Clone, Debug)]
pub struct HOut {
    pub outcome: Vec<Outcome>,
    /// `None`: not run or abandoned.
    pub res: Vec<Vec<Option<Res>>>,
    pub cancelled: Vec<Vec<bool>>,
    pub log: Vec<Exchange>,
    pub events: Vec<String>,
    pub stats: exec::Stats,
}

pub fn doc_value(d: &json_ld::RemoteDocument) -> Value {
    let mut p: Vec<String> = d.profile.iter().map(|p| p.iri().to_string()).collect();
    p.sort();
    json!({
        "url": d.url().map(|u| u.to_string()),
        "type": d.content_type().map(|m| m.to_string()),
        "context": d.context_url().map(|u| u.to_string()),
        "profiles": p,
        "doc": crate::net::parse(&d.document().compact_print().to_string()).unwrap_or(Value::Null),
    })
}

pub fn run(case: &HCase) -> HOut {
    on_thread(case.hash, || {
        let sim = Sim::new(&case.sched, case.latency);
        let sh = Rc::new(Shared {
            sim: sim.clone(),
            site: case.site.clone(),
            faults: case.faults.clone(),
            log: Default::default(),
            step: Default::default(),
            cap: 3000,
            chunk: case.chunk,
        });
        let loader = ReqwestLoader::new_using(Options {
            request_profile: case.profiles.iter().map(|p| Profile::new(Iri::new(p).expect("profile"))).collect(),
            max_redirections: case.max,
            client: http::client(sh.clone()),
        });
        let res: RefCell<Vec<Vec<Option<Res>>>> = RefCell::new(case.clients.iter().map(|c| vec![None; c.steps.len()]).collect());
        let can: RefCell<Vec<Vec<bool>>> = RefCell::new(case.clients.iter().map(|c| vec![false; c.steps.len()]).collect());
        let tasks = case
            .clients
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let (loader, res, can, sh, sim) = (&loader, &res, &can, &sh, &sim);
                exec::Task {
                    start_at: c.start_at,
                    cancel_at: None,
                    fut: Box::pin(async move {
                        for (k, s) in c.steps.iter().enumerate() {
                            sh.step.borrow_mut().insert(i, k);
                            sim.log(format!("client {i} step {k}"));
                            let fut: Pin<Box<dyn Future<Output = Res> + '_>> = match &s.act {
                                Act::Load(u) => Box::pin(async move {
                                    match loader.load(Iri::new(u).expect("url")).await {
                                        Ok(d) => Res::Ok(doc_value(&d)),
                                        Err(e) => Res::Err { code: "load".into(), target: Some(e.target.to_string()), msg: e.cause.to_string() },
                                    }
                                }),
                                Act::Run(op) => Box::pin(async move {
                                    let mut gen = ops::Gen::new("g");
                                    ops::run(rdf_types::vocabulary::no_vocabulary_mut(), &mut gen, loader, op).await
                                }),
                            };
                            let out = crate::case::CancelAt::new(fut, s.cancel_at, sim).await;
                            match out {
                                Some(r) => res.borrow_mut()[i][k] = Some(r),
                                None => can.borrow_mut()[i][k] = true,
                            }
                        }
                    }),
                }
            })
            .collect();
        let outcome = exec::run(&sim, tasks, case.spurious);
        let log = sh.log.borrow().clone();
        let i = sim.0.borrow();
        HOut {
            outcome,
            res: res.into_inner(),
            cancelled: can.into_inner(),
            log,
            events: i.log.clone(),
            stats: i.stats.clone(),
        }
    })
}

// -------------------------------------------------------------------- oracle

fn norm(u: &str) -> String {
    reqwest::Url::parse(u)
        .map(|mut u| {
            u.set_fragment(None);
            u.to_string()
        })
        .unwrap_or(u.to_string())
}

pub enum Parsed {
    Doc(Value),
    Bad,
    /// The reference parser is stricter than JSON there.
    Unknown,
}
pub fn parse(b: &[u8]) -> Parsed {
    if std::str::from_utf8(b).is_err() {
        return Parsed::Bad;
    }
    match crate::net::parse_bytes(b) {
        Ok(v) => Parsed::Doc(v),
        Err(e) => {
            let m = e.to_string();
            if m.contains("out of range") || m.contains("surrogate") || m.contains("hex escape") || m.contains("recursion") || m.contains("control character") {
                Parsed::Unknown
            } else {
                Parsed::Bad
            }
        }
    }
}

pub enum Expect {
    Ok(Value),
    Err(&'static str),
    /// Nothing can be said about the result.
    Any,
}
/// What a load gives, from the exchanges which took place.
fn follow(url: &str, max: usize, log: &[&Exchange], complete: bool) -> Result<Expect, String> {
    let mut url = url.to_string();
    let mut it = log.iter();
    let mut n = 0;
    let exp = loop {
        if n > max {
            break Expect::Err("too many redirections");
        }
        let Some(e) = it.next() else {
            if complete {
                return Err(format!("missing request: {url} was never requested"));
            }
            return Ok(Expect::Any);
        };
        if e.url != norm(&url) {
            return Err(format!("wrong request: {} requested instead of {url}", e.url));
        }
        let Some(s) = &e.served else {
            break Expect::Err("no answer");
        };
        if s.res.status != 200 {
            break Expect::Err("status");
        }
        let base = s.res.final_url.clone().unwrap_or(url.clone());
        let t = s.res.types.iter().find(|t| ["application/json", "application/ld+json"].contains(&t.value.to_lowercase().as_str()));
        match t {
            Some(t) => {
                let ld = t.value.to_lowercase() == "application/ld+json";
                let mut ctx = None;
                if !ld {
                    let l: Vec<&Header> =
                        s.res.links.iter().filter(|l| l.param("rel") == Some("http://www.w3.org/ns/json-ld#context")).collect();
                    if l.len() > 1 {
                        break Expect::Err("multiple context links");
                    }
                    ctx = l.first().map(|l| model::resolve(Some(&base), &l.value));
                }
                if s.broken {
                    break Expect::Err("transport");
                }
                let mut p: Vec<&str> = t.param("profile").map(|p| p.split(' ').filter(|p| model::is_iri(p)).collect()).unwrap_or_default();
                p.sort();
                p.dedup();
                break match parse(&s.body) {
                    Parsed::Doc(d) => Expect::Ok(json!({
                        "url": base, "type": t.value.to_lowercase(), "context": ctx, "profiles": p, "doc": d
                    })),
                    Parsed::Bad => Expect::Err("invalid JSON"),
                    Parsed::Unknown => Expect::Any,
                };
            }
            None => {
                let alt = s
                    .res
                    .links
                    .iter()
                    .find(|l| l.param("rel") == Some("alternate") && l.param("type") == Some("application/ld+json"));
                match alt {
                    Some(l) => {
                        n += 1;
                        url = model::resolve(Some(&base), &l.value).ok_or("harness: bad link")?;
                    }
                    None => break Expect::Err("content type"),
                }
            }
        }
    };
    if let Some(e) = it.next() {
        return Err(format!("extra request: {} requested after the end of the load", e.url));
    }
    Ok(exp)
}
/// Does the Accept header ask for JSON-LD with the configured profiles, and JSON?
fn accept_ok(a: &[String], profiles: &[String]) -> bool {
    let all = a.join(", ");
    let items: Vec<&str> = all.split(", ").collect();
    let Some(ld) = items.iter().find(|i| i.starts_with("application/ld+json")) else { return false };
    if !items.iter().any(|i| i.starts_with("application/json")) {
        return false;
    }
    let given: Vec<&str> = match ld.split_once("profile=") {
        None => vec![],
        Some((_, p)) => p.trim_matches('"').split(' ').collect(),
    };
    given == profiles.iter().map(|s| s.as_str()).collect::<Vec<_>>()
}
/// The document a fault-free load of `url` gives.
fn fetch(site: &Site, max: usize, url: &str) -> Option<MDoc> {
    let mut url = url.to_string();
    for _ in 0..=max {
        let r = site.get(&norm(&url))?;
        let x = Exchange {
            client: 0,
            step: 0,
            url: norm(&url),
            method: "GET".into(),
            accept: vec![],
            served: Some(http::Served { res: r.clone(), body: r.body.clone().into_bytes(), broken: false }),
        };
        match follow(&url, 0, &[&x], false).ok()? {
            Expect::Ok(v) => {
                return Some(MDoc {
                    url: v["url"].as_str()?.to_string(),
                    doc: v["doc"].clone(),
                    context_url: v["context"].as_str().map(String::from),
                })
            }
            Expect::Err("too many redirections") => {
                let base = r.final_url.clone().unwrap_or(url.clone());
                let l = r.links.iter().find(|l| l.param("rel") == Some("alternate") && l.param("type") == Some("application/ld+json"))?;
                url = model::resolve(Some(&base), &l.value)?;
            }
            _ => return None,
        }
    }
    None
}

fn judge(case: &HCase, o: &HOut, vd: &mut Verdict) -> Option<String> {
    for (i, c) in case.clients.iter().enumerate() {
        match &o.outcome[i] {
            Outcome::Panicked(m) => return Some(format!("panic: {}", cut(m))),
            Outcome::Stuck => return Some("stuck: a load never ends although nothing is left to wait for".into()),
            _ => {}
        }
        for (k, s) in c.steps.iter().enumerate() {
            let log: Vec<&Exchange> = o.log.iter().filter(|e| e.client == i && e.step == k).collect();
            for e in &log {
                if e.method != "GET" {
                    return Some(format!("wrong method: {} {}", e.method, e.url));
                }
                if !accept_ok(&e.accept, &case.profiles) {
                    return Some(format!("wrong accept header: {:?} for the profiles {:?}", e.accept, case.profiles));
                }
            }
            let faulty = case.faults.iter().any(|f| {
                f.client.map(|x| x == i).unwrap_or(true) && f.step.map(|x| x == k).unwrap_or(true) && log.iter().any(|e| e.url == f.url)
            });
            match &s.act {
                Act::Load(u) => {
                    let r = o.res[i][k].as_ref();
                    if log.len() > case.max + 1 {
                        return Some(format!("too many requests: {} for {u} with at most {} redirections", log.len(), case.max));
                    }
                    let exp = match follow(u, case.max, &log, r.is_some()) {
                        Ok(e) => e,
                        Err(e) => return Some(e),
                    };
                    match (r, &exp) {
                        (None, _) => {
                            vd.agg.probe("load abandoned");
                        }
                        (Some(_), Expect::Any) => vd.agg.probe("undecided body"),
                        (Some(Res::Ok(v)), Expect::Ok(x)) => {
                            let (mut v, mut x) = (v.clone(), x.clone());
                            v["url"] = v["url"].as_str().map(norm).into();
                            x["url"] = x["url"].as_str().map(norm).into();
                            if v != x {
                                return Some(format!("wrong document: {} instead of {}", cut(&v.to_string()), cut(&x.to_string())));
                            }
                            vd.agg.probe("document");
                            if log.len() > 1 {
                                vd.agg.probe("document after alternates");
                            }
                            if faulty {
                                vd.agg.probe("document in spite of a fault");
                            } else {
                                vd.nontrivial = true;
                            }
                        }
                        (Some(Res::Err { target, .. }), Expect::Err(e)) => {
                            vd.agg.probe(&format!("error: {e}"));
                            let t = target.clone().map(|t| norm(&t));
                            let known = log.iter().any(|e| {
                                Some(&e.url) == t.as_ref()
                                    || e.served.as_ref().and_then(|s| s.res.final_url.as_ref()).map(|f| norm(f)) == t
                            }) || *e == "too many redirections";
                            if !known {
                                return Some(format!("wrong error target: {t:?} was not requested"));
                            }
                        }
                        (Some(r), Expect::Ok(x)) => {
                            return Some(format!("refused document: {} instead of {}", brief(r), cut(&x.to_string())))
                        }
                        (Some(r), Expect::Err(e)) => return Some(format!("accepted document: {} instead of an error ({e})", brief(r))),
                    }
                }
                Act::Run(op) => {
                    let Some(r) = &o.res[i][k] else { continue };
                    if faulty && case.faults.iter().any(|f| matches!(f.kind, HFaultKind::Flip(..) | HFaultKind::Cut(_) | HFaultKind::Extra(_))) {
                        continue;
                    }
                    let f = |u: &str| fetch(&case.site, case.max, u);
                    let env = Env::new(&f, false);
                    let (m, _) = model_expand(&env, op);
                    if env.fuel.get() == 0 {
                        continue;
                    }
                    match (r, m) {
                        (Res::Ok(v), Ok(x)) => {
                            if canon::expanded(v) != canon::expanded(&x) {
                                return Some(format!("wrong expansion: {} instead of {}", cut(&v.to_string()), cut(&x.to_string())));
                            }
                            vd.agg.probe("expansion over HTTP");
                            vd.nontrivial = true;
                        }
                        (Res::Err { code, .. }, _) if faulty && (code.contains("loading") || code == "invalid scoped context") => {}
                        (Res::Err { .. }, Err(_)) => {}
                        (r, m) => return Some(format!("wrong expansion: {} instead of {m:?}", brief(r))),
                    }
                }
            }
        }
    }
    None
}

// ----------------------------------------------------------------- generator

const PROFILES: &[&str] = &[
    "http://www.w3.org/ns/json-ld#expanded",
    "http://www.w3.org/ns/json-ld#compacted",
    "http://www.w3.org/ns/json-ld#context",
    "http://www.w3.org/ns/json-ld#flattened",
    "http://profiles.org/mine",
];
fn body(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth > 2 { 6 } else { 9 }) {
        0 => Value::Null,
        1 => json!(r.pct(50)),
        2 => json!(r.next() as u16),
        3 => json!((r.next() % 1000) as f64 / 8.0),
        4 | 5 => json!(["", "x", "été", "日本語", "a\nb\"c\\", "\u{1F600} smile", "http://a.org/b", "\u{7f}\u{80}"][r.below(8)]),
        6 => Value::Array((0..r.below(4)).map(|_| body(r, depth + 1)).collect()),
        _ => {
            let mut m = serde_json::Map::new();
            for _ in 0..r.below(5) {
                m.insert(["@context", "@id", "a", "bé", "@graph", ""][r.below(6)].into(), body(r, depth + 1));
            }
            Value::Object(m)
        }
    }
}
fn text(r: &mut Rng, v: &Value) -> String {
    let s = if r.pct(30) { serde_json::to_string_pretty(v).unwrap() } else { v.to_string() };
    if r.pct(20) {
        // escaped form
        s.chars()
            .map(|c| {
                if (c as u32) < 128 {
                    c.to_string()
                } else {
                    let mut b = [0u16; 2];
                    c.encode_utf16(&mut b).iter().map(|u| format!("\\u{u:04x}")).collect()
                }
            })
            .collect()
    } else {
        s
    }
}
fn mime(r: &mut Rng, m: &str) -> Header {
    let mut h = Header { value: m.into(), params: vec![], quoted: r.pct(50), space: r.pct(50) };
    if r.pct(40) {
        let n = r.range(1, 2);
        let p: Vec<&str> = (0..n).map(|_| *r.pick(PROFILES)).collect();
        h.params.push(("profile".into(), p.join(" ")));
    }
    if r.pct(25) {
        h.params.push(("charset".into(), "utf-8".into()));
    }
    if r.pct(15) {
        h.params.insert(0, ("q".into(), "1".into()));
    }
    if r.pct(8) {
        h.value = h.value.to_uppercase();
    }
    h
}
fn href(r: &mut Rng, n: usize) -> String {
    match r.below(5) {
        0 => format!("http://h{}.org/r{}", r.below(2), r.below(n)),
        1 => format!("/r{}", r.below(n)),
        2 => format!("../r{}", r.below(n)),
        3 => format!("./sub/../r{}", r.below(n)),
        _ => format!("r{}", r.below(n)),
    }
}
fn link(r: &mut Rng, n: usize, rel: &str) -> Header {
    let mut h = Header { value: href(r, n), params: vec![("rel".into(), rel.into())], quoted: true, space: r.pct(50) };
    if rel == "alternate" {
        let t = if r.pct(85) { "application/ld+json" } else { *r.pick(&["application/json", "text/html", "application/rdf+xml"]) };
        h.params.push(("type".into(), t.into()));
        if r.pct(20) {
            h.params.pop();
        }
    }
    if r.pct(20) {
        h.params.push(("title".into(), "a title; with <marks>".into()));
    }
    if r.pct(30) {
        h.params.reverse();
    }
    h
}
const CTX_REL: &str = "http://www.w3.org/ns/json-ld#context";
fn resource(r: &mut Rng, n: usize) -> Resource {
    let mut x = Resource { status: 200, ..Default::default() };
    let v = body(r, 0);
    let v = if r.pct(80) && !v.is_object() && !v.is_array() { json!({"v": v}) } else { v };
    x.body = text(r, &v);
    match r.below(12) {
        0..=2 => x.types.push(mime(r, "application/ld+json")),
        3..=5 => x.types.push(mime(r, "application/json")),
        6..=9 => {
            let t = *r.pick(&["text/html", "text/plain", "application/activity+json", "application/xml", "application/ld+jsonx"]);
            x.types.push(mime(r, t));
            x.body = "<html>not JSON</html>".into();
            if r.pct(30) {
                x.types.clear()
            }
        }
        10 => {
            x.types.push(mime(r, "application/json"));
            x.status = *r.pick(&[404, 500, 204, 201, 301, 304, 403, 503, 206, 203]);
        }
        _ => {
            x.types.push(Header { value: "text/html".into(), ..Default::default() });
            x.types.push(mime(r, "application/ld+json"));
        }
    }
    for _ in 0..[0, 0, 1, 1, 2, 3][r.below(6)] {
        let rel = if x.types.first().map(|t| t.value.to_lowercase().ends_with("/json")).unwrap_or(false) {
            [CTX_REL, CTX_REL, "alternate", "describedby"][r.below(4)]
        } else {
            [CTX_REL, "alternate", "alternate", "alternate", "stylesheet"][r.below(5)]
        };
        x.links.push(link(r, n, rel));
    }
    if r.pct(20) {
        x.final_url = Some(format!("http://moved.org/{}f{}", ["", "x/", "x/y/"][r.below(3)], r.below(3)));
    }
    x
}
fn site(r: &mut Rng) -> (Site, Vec<String>) {
    let n = r.range(1, 6);
    let mut s = Site::new();
    for i in 0..n {
        for h in 0..2 {
            for d in ["", "sub/"] {
                if r.pct(if d.is_empty() { 85 } else { 40 }) {
                    s.insert(format!("http://h{h}.org/{d}r{i}"), resource(r, n));
                }
            }
        }
    }
    if r.pct(25) {
        // a long chain or a cycle of alternates
        let len = r.range(1, 10);
        let cyc = r.pct(40);
        for i in 0..len {
            let next = if i + 1 == len { if cyc { "http://h0.org/alt0".to_string() } else { "/sub/r0".to_string() } } else { format!("alt{}", i + 1) };
            s.insert(
                format!("http://h0.org/alt{i}"),
                Resource {
                    status: 200,
                    types: vec![Header { value: "text/html".into(), ..Default::default() }],
                    links: vec![Header {
                        value: next,
                        params: vec![("rel".into(), "alternate".into()), ("type".into(), "application/ld+json".into())],
                        quoted: true,
                        space: true,
                    }],
                    body: "<p>".into(),
                    final_url: None,
                },
            );
        }
    }
    if s.is_empty() {
        s.insert("http://h0.org/r0".into(), resource(r, n));
    }
    let mut urls: Vec<String> = s.keys().cloned().collect();
    urls.push("http://h1.org/nothing".into());
    (s, urls)
}
/// The web of a scenario, as HTTP servers.
fn http_world(r: &mut Rng, w: &crate::net::World) -> Site {
    let mut s = Site::new();
    for (u, p) in w {
        let json = p.context_url.is_some() || r.pct(20);
        let mut x = Resource {
            status: 200,
            types: vec![mime(r, if json { "application/json" } else { "application/ld+json" })],
            links: vec![],
            body: text(r, &p.doc),
            final_url: p.final_url.clone(),
        };
        if let Some(c) = &p.context_url {
            x.links.push(Header { value: c.clone(), params: vec![("rel".into(), CTX_REL.into())], quoted: true, space: r.pct(50) });
        }
        if r.pct(10) && p.final_url.is_none() {
            // behind a web page
            let alt = format!("{u}.alt");
            s.insert(alt.clone(), Resource { final_url: Some(u.clone()), ..x });
            x = Resource {
                status: 200,
                types: vec![Header { value: "text/html".into(), ..Default::default() }],
                links: vec![Header { value: alt, params: vec![("rel".into(), "alternate".into()), ("type".into(), "application/ld+json".into())], quoted: true, space: true }],
                body: "<html>".into(),
                final_url: None,
            };
        }
        s.insert(norm(u), x);
    }
    s
}
fn gen(r: &mut Rng, faults: bool) -> HCase {
    let mut c = HCase { max: [8, 8, 0, 1, 2, 4][r.below(6)], chunk: [1, 3, 16, 64, 4096][r.below(5)], ..Default::default() };
    let mut profiles: Vec<String> = (0..[0, 0, 1, 2, 3][r.below(5)]).map(|_| r.pick(PROFILES).to_string()).collect();
    profiles.dedup();
    c.profiles = profiles;
    let urls;
    if r.pct(if faults { 15 } else { 25 }) {
        let n = r.range(1, 2);
        let s = scenario(r, n, &|_| {});
        c.site = http_world(r, &s.world);
        c.max = 8;
        urls = s.docs.clone();
        for _ in 0..r.range(1, 2) {
            let mut steps = vec![];
            for _ in 0..r.range(1, 2) {
                let mut o = op(r, &s, b"e");
                o.kind = Kind::Expand;
                o.input = crate::ops::Input::Iri(r.pick(&s.docs).clone());
                steps.push(HStep { act: Act::Run(o), cancel_at: None });
            }
            c.clients.push(HClient { steps, start_at: 0 });
        }
    } else {
        let (s, u) = site(r);
        c.site = s;
        urls = u;
        for _ in 0..r.range(1, 3) {
            let steps = (0..r.range(1, 4)).map(|_| HStep { act: Act::Load(r.pick(&urls).clone()), cancel_at: None }).collect();
            c.clients.push(HClient { steps, start_at: r.below(30) as u64 });
        }
    }
    if faults {
        let all: Vec<String> = c.site.keys().cloned().collect();
        // most faults hit what is requested
        for _ in 0..r.range(1, 3) {
            let kind = match r.below(10) {
                0 => HFaultKind::Refused,
                1 => HFaultKind::Hang(r.range(1, 60000) as u64),
                2 => HFaultKind::Status(*r.pick(&[500, 404, 503, 429, 206, 204, 304])),
                3 => HFaultKind::Reset(r.below(1001) as u32),
                4 | 5 => HFaultKind::Cut(r.below(1000) as u32),
                6 | 7 => HFaultKind::Flip(r.below(1000) as u32, r.below(8) as u8),
                8 => [HFaultKind::Stall(r.range(1, 100000) as u64), HFaultKind::NoType][r.below(2)].clone(),
                _ => HFaultKind::Extra(r.pick(&["}", " x", "\u{0}", "{}", "]", "  \n"]).to_string()),
            };
            let url = if r.pct(70) {
                let cl = r.pick(&c.clients).clone();
                match &r.pick(&cl.steps).act {
                    Act::Load(u) => u.clone(),
                    Act::Run(o) => match &o.input {
                        crate::ops::Input::Iri(u) if r.pct(40) => u.clone(),
                        _ => r.pick(&all).clone(),
                    },
                }
            } else {
                r.pick(&all).clone()
            };
            let n = c.clients.len();
            c.faults.push(HFault {
                url,
                client: if r.pct(50) { Some(r.below(n)) } else { None },
                step: if r.pct(60) { Some(r.below(3)) } else { None },
                from: r.below(2) as u32 * r.below(3) as u32,
                count: [1, 1, 2, u32::MAX][r.below(4)],
                kind,
            });
        }
        if r.pct(25) {
            let n = c.clients.len();
            let k = r.below(n);
            let m = c.clients[k].steps.len();
            let s = r.below(m);
            c.clients[k].steps[s].cancel_at = Some(r.range(1, 12) as u64);
        }
        // what failed is loaded again at the end, without faults
        let last: Vec<String> = c.clients[0].steps.iter().filter_map(|s| if let Act::Load(u) = &s.act { Some(u.clone()) } else { None }).collect();
        for u in last {
            c.clients[0].steps.push(HStep { act: Act::Load(u), cancel_at: None });
        }
    }
    let n = [40, 150, 400][r.below(3)];
    c.sched = Sched::random(r, n);
    c.latency = [0, 1, 3, 12, 60][r.below(5)];
    c.spurious = [0, 0, 15, 50][r.below(4)];
    c.hash = r.next() & 0xffff;
    let _ = urls;
    c
}
fn add(vd: &mut Verdict, o: &HOut) {
    vd.agg.stats(&o.stats);
    vd.agg.requests += o.log.len() as u64;
}
fn check(v: &Value) -> Result<Verdict, String> {
    let case: HCase = from_value(v)?;
    if case.clients.iter().flat_map(|c| &c.steps).any(|s| matches!(&s.act, Act::Load(u) if Iri::new(u.as_str()).is_err() || reqwest::Url::parse(u).is_err())) {
        return Err("not a URL".into());
    }
    let mut vd = Verdict::default();
    let o = run(&case);
    add(&mut vd, &o);
    if let Some(m) = judge(&case, &o, &mut vd) {
        return Ok(vd.fail(m, &o.events));
    }
    Ok(vd)
}
const REAL: &[&str] = &[
    "json-ld-core HTTP loader (ReqwestLoader, content type and link parsing)",
    "reqwest request building and response body collection",
    "reqwest-middleware",
    "json-syntax parser",
    "json-ld processor (expansions over HTTP)",
];
const STUBS: &[&str] = &["HTTP connections and servers (client middleware)", "regular HTTP redirections (final URL of the answer)", "executor and clock (simulated)", "hash map keys (seeded)"];

struct C09;
impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        to_value(&gen(r, false))
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        check(v)
    }
    fn rule(&self) -> &'static str {
        "at least one load or expansion over HTTP succeeded and was compared"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["header values are those servers usually send: quoted link parameters, one link per Link header, no space before `;`",
          "answers to several equivalent Content-Type headers and `+json` types other than JSON-LD are not constrained"]
    }
}
struct C10;
impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        to_value(&gen(r, true))
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let mut vd = check(v)?;
        vd.nontrivial = !vd.agg.fired.is_empty();
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "at least one fault happened during a load"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a body cut without transport error is judged on the bytes served: the message framing is the HTTP client's business",
          "damaged bodies on which JSON parsers legitimately differ (lone surrogates, huge numbers, control characters) are not judged"]
    }
}

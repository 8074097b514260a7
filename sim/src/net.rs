//! Simulated network of document servers behind the `Loader` seam.
use crate::exec::Sim;
use iref::{Iri, IriBuf};
use json_ld::{Loader, RemoteDocument};
use json_ld_core::{LoadError, LoadingResult};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// A document served under one URL.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Page {
    pub doc: Value,
    /// URL after redirections, when different.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub final_url: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context_url: Option<String>,
    /// The loader reports no URL at all.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub no_url: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    /// Host down for this request.
    Unreachable,
    /// The server answers with an error status.
    Status,
    /// The connection drops after a stall of that many simulated ms.
    StallThenDrop(u64),
    /// Not a fault of the result: the answer takes that much longer.
    Slow(u64),
    /// The served bytes were damaged into this other document.
    Replaced(Value),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub url: String,
    /// Only the request of that client task (None: any).
    pub task: Option<usize>,
    /// Only during that step of the client's history.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub step: Option<usize>,
    /// First failing attempt (0-based, per task, step and URL) and number of failing attempts.
    pub from: u32,
    pub count: u32,
    pub kind: FaultKind,
}
pub type World = BTreeMap<String, Page>;

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub task: usize,
    pub step: usize,
    pub attempt: u32,
    pub url: String,
    pub ok: bool,
    pub done: bool,
}

pub struct SimLoader<'a> {
    pub sim: Sim,
    pub world: &'a World,
    pub faults: &'a [Fault],
    pub reqs: RefCell<Vec<Req>>,
    pub attempts: RefCell<BTreeMap<(usize, usize, String), u32>>,
    /// Overall cap on requests per task: a runaway client is cut off.
    pub cap: usize,
    pub capped: RefCell<bool>,
    /// Step of its history each client is at.
    pub step: RefCell<BTreeMap<usize, usize>>,
}
impl<'a> SimLoader<'a> {
    pub fn new(sim: &Sim, world: &'a World, faults: &'a [Fault]) -> Self {
        SimLoader {
            sim: sim.clone(),
            world,
            faults,
            reqs: RefCell::new(vec![]),
            attempts: RefCell::new(BTreeMap::new()),
            cap: 4000,
            capped: RefCell::new(false),
            step: RefCell::new(BTreeMap::new()),
        }
    }
    pub fn reqs_of(&self, task: usize) -> Vec<Req> {
        self.reqs.borrow().iter().filter(|r| r.task == task).cloned().collect()
    }
}

#[derive(Debug)]
pub struct NetErr(pub String);
impl std::fmt::Display for NetErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for NetErr {}

/// Parses JSON of any depth.
pub fn parse(s: &str) -> Result<Value, serde_json::Error> {
    parse_bytes(s.as_bytes())
}
pub fn parse_bytes(b: &[u8]) -> Result<Value, serde_json::Error> {
    use serde::Deserialize;
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    let v = Value::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}
/// Keys ending with this stand for one more entry of the same key.
pub const AGAIN: &str = "~again~";
pub fn to_syntax(v: &Value) -> json_ld::syntax::Value {
    use json_ld::syntax::Parse;
    json_ld::syntax::Value::parse_str(&v.to_string().replace(AGAIN, "")).expect("harness JSON").0
}

impl Loader for SimLoader<'_> {
    async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
        let task = self.sim.current();
        let u = url.as_str().to_string();
        let step = self.step.borrow().get(&task).copied().unwrap_or(0);
        let attempt = {
            let mut a = self.attempts.borrow_mut();
            let c = a.entry((task, step, u.clone())).or_default();
            *c += 1;
            *c - 1
        };
        let idx = {
            let mut r = self.reqs.borrow_mut();
            r.push(Req { task, step, attempt, url: u.clone(), ok: false, done: false });
            r.len() - 1
        };
        if idx >= self.cap {
            *self.capped.borrow_mut() = true;
            return Err(LoadError::new(url.to_owned(), NetErr("request cap".into())));
        }
        self.sim.log(format!("task {task} GET {u} #{attempt}"));
        self.sim.io().await;
        let mut doc_override = None;
        for f in self.faults {
            if f.url == u
                && f.task.map(|t| t == task).unwrap_or(true)
                && f.step.map(|s| s == step).unwrap_or(true)
                && attempt >= f.from
                && attempt - f.from < f.count
            {
                match &f.kind {
                    FaultKind::Unreachable => {
                        self.sim.fire("unreachable");
                        self.reqs.borrow_mut()[idx].done = true;
                        return Err(LoadError::new(url.to_owned(), NetErr("unreachable".into())));
                    }
                    FaultKind::Status => {
                        self.sim.fire("error_status");
                        self.sim.io().await;
                        self.reqs.borrow_mut()[idx].done = true;
                        return Err(LoadError::new(url.to_owned(), NetErr("status".into())));
                    }
                    FaultKind::StallThenDrop(d) => {
                        self.sim.fire("stall_then_drop");
                        self.sim.sleep(*d).await;
                        self.reqs.borrow_mut()[idx].done = true;
                        return Err(LoadError::new(url.to_owned(), NetErr("dropped".into())));
                    }
                    FaultKind::Slow(d) => {
                        self.sim.fire("slow_server");
                        self.sim.sleep(*d).await;
                    }
                    FaultKind::Replaced(v) => {
                        self.sim.fire("replaced_document");
                        doc_override = Some(v.clone());
                    }
                }
            }
        }
        match self.world.get(&u) {
            None => {
                self.sim.fire("not_found");
                self.reqs.borrow_mut()[idx].done = true;
                self.sim.log(format!("task {task} 404 {u}"));
                Err(LoadError::new(url.to_owned(), NetErr("not found".into())))
            }
            Some(p) => {
                let mut r = self.reqs.borrow_mut();
                r[idx].done = true;
                r[idx].ok = true;
                self.sim.log(format!("task {task} 200 {u}"));
                let doc = doc_override.as_ref().unwrap_or(&p.doc);
                let furl = if p.no_url {
                    None
                } else {
                    Some(IriBuf::new(p.final_url.clone().unwrap_or(u.clone())).expect("world url"))
                };
                Ok(RemoteDocument::new_full(
                    furl,
                    Some("application/ld+json".parse().unwrap()),
                    p.context_url.clone().map(|c| IriBuf::new(c).expect("world ctx url")),
                    Default::default(),
                    to_syntax(doc),
                ))
            }
        }
    }
}

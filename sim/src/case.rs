//! A simulated execution: a web, some clients running histories of operations,
//! faults and a schedule. Everything that decides the run is in `Case`.
use crate::exec::{self, Outcome, Sched, Sim};
use crate::net::{Fault, Req, SimLoader, World};
use crate::ops::{self, Op, Res};
use crate::seam;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub op: Op,
    /// The client gives up just before its n-th poll of that operation.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancel_at: Option<u64>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub enum Vocab {
    #[default]
    None,
    /// One interning vocabulary for all the steps of the client.
    Shared,
    /// A fresh interning vocabulary for each step.
    Fresh,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Client {
    pub steps: Vec<Step>,
    #[serde(default)]
    pub vocab: Vocab,
    #[serde(default)]
    pub start_at: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Case {
    pub world: World,
    pub clients: Vec<Client>,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub sched: Sched,
    #[serde(default)]
    pub latency: u64,
    #[serde(default)]
    pub spurious: u16,
    #[serde(default)]
    pub hash: u64,
    /// All the clients draw blank node labels from the same generator.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub shared_gen: bool,
    /// What starts the labels of the generators (IRIs, if it is that of an IRI).
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub labels: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum StepOut {
    NotRun,
    Cancelled,
    Done(Res),
}
impl StepOut {
    pub fn res(&self) -> Option<&Res> {
        match self {
            StepOut::Done(r) => Some(r),
            _ => None,
        }
    }
}
#[derive(Clone, Debug)]
pub struct ClientOut {
    pub outcome: Outcome,
    pub steps: Vec<StepOut>,
    /// Labels issued by the client's generator during each step.
    pub issued: Vec<Vec<String>>,
    pub reqs: Vec<Vec<Req>>,
}
#[derive(Clone, Debug)]
pub struct RunOut {
    pub clients: Vec<ClientOut>,
    pub log: Vec<String>,
    pub stats: exec::Stats,
    pub capped: bool,
}

/// Runs `f` on a fresh thread whose hash maps draw their keys from `seed`.
pub fn on_thread<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
                seam::set_hash_seed(seed);
                f()
            })
            .expect("thread");
        match h.join() {
            Ok(t) => t,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

/// Drops its inner future before its n-th poll.
pub struct CancelAt<F> {
    fut: Option<Pin<Box<F>>>,
    at: Option<u64>,
    polls: u64,
    sim: Sim,
}
impl<F: Future> CancelAt<F> {
    pub fn new(fut: F, at: Option<u64>, sim: &Sim) -> Self {
        CancelAt { fut: Some(Box::pin(fut)), at, polls: 0, sim: sim.clone() }
    }
}
impl<F: Future> Future for CancelAt<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.polls += 1;
        if self.at == Some(self.polls) {
            self.fut = None;
            self.sim.log(format!("task {} gives up at poll {}", self.sim.current(), self.polls));
            self.sim.0.borrow_mut().stats.cancelled += 1;
            self.sim.fire("operation_abandoned");
            return Poll::Ready(None);
        }
        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(x) => {
                self.fut = None;
                Poll::Ready(Some(x))
            }
            Poll::Pending => Poll::Pending,
        }
    }
}

pub type IndexVocab = rdf_types::vocabulary::IndexVocabulary;

pub fn run(case: &Case) -> RunOut {
    on_thread(case.hash, || run_here(case))
}

pub fn run_here(case: &Case) -> RunOut {
    let sim = Sim::new(&case.sched, case.latency);
    let loader = SimLoader::new(&sim, &case.world, &case.faults);
    let n = case.clients.len();
    let steps: RefCell<Vec<Vec<StepOut>>> =
        RefCell::new(case.clients.iter().map(|c| vec![StepOut::NotRun; c.steps.len()]).collect());
    let issued: RefCell<Vec<Vec<Vec<String>>>> =
        RefCell::new(case.clients.iter().map(|c| vec![vec![]; c.steps.len()]).collect());
    let prefix = case.labels.as_deref().unwrap_or("g");
    let generator = ops::Gen::new(prefix);
    let tasks = case
        .clients
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let (loader, steps, issued, sim) = (&loader, &steps, &issued, sim.clone());
            let mut gen = if case.shared_gen { generator.clone() } else { ops::Gen::new(prefix) };
            exec::Task {
                start_at: c.start_at,
                cancel_at: None,
                fut: Box::pin(async move {
                    let mut shared = IndexVocab::default();
                    for (k, s) in c.steps.iter().enumerate() {
                        loader.step.borrow_mut().insert(i, k);
                        let from = gen.issued.len();
                        sim.log(format!("task {i} step {k}"));
                        let out = match c.vocab {
                            Vocab::None => {
                                CancelAt {
                                    fut: Some(Box::pin(ops::run(
                                        rdf_types::vocabulary::no_vocabulary_mut(),
                                        &mut gen,
                                        loader,
                                        &s.op,
                                    ))),
                                    at: s.cancel_at,
                                    polls: 0,
                                    sim: sim.clone(),
                                }
                                .await
                            }
                            Vocab::Shared => {
                                CancelAt {
                                    fut: Some(Box::pin(ops::run(&mut shared, &mut gen, loader, &s.op))),
                                    at: s.cancel_at,
                                    polls: 0,
                                    sim: sim.clone(),
                                }
                                .await
                            }
                            Vocab::Fresh => {
                                let mut v = IndexVocab::default();
                                CancelAt {
                                    fut: Some(Box::pin(ops::run(&mut v, &mut gen, loader, &s.op))),
                                    at: s.cancel_at,
                                    polls: 0,
                                    sim: sim.clone(),
                                }
                                .await
                            }
                        };
                        issued.borrow_mut()[i][k] = gen.issued[from..].to_vec();
                        steps.borrow_mut()[i][k] = match out {
                            Some(r) => StepOut::Done(r),
                            None => StepOut::Cancelled,
                        };
                    }
                }),
            }
        })
        .collect();
    let outcomes = exec::run(&sim, tasks, case.spurious);
    let reqs = loader.reqs.borrow().clone();
    let steps = steps.into_inner();
    let issued = issued.into_inner();
    let mut clients = vec![];
    for (i, ((st, is), oc)) in steps.into_iter().zip(issued).zip(outcomes).enumerate() {
        let r = (0..st.len())
            .map(|k| reqs.iter().filter(|r| r.task == i && r.step == k).cloned().collect())
            .collect();
        clients.push(ClientOut { outcome: oc, steps: st, issued: is, reqs: r });
    }
    debug_assert_eq!(clients.len(), n);
    let (log, stats) = {
        let i = sim.0.borrow();
        (i.log.clone(), i.stats.clone())
    };
    let capped = *loader.capped.borrow();
    RunOut { clients, log, stats, capped }
}

/// The same operation alone, on an instantly answering web.
pub fn alone(case: &Case, client: usize, step: usize, vocab: Vocab) -> ClientOut {
    let c = Case {
        world: case.world.clone(),
        clients: vec![Client {
            steps: vec![Step { op: case.clients[client].steps[step].op.clone(), cancel_at: None }],
            vocab,
            start_at: 0,
        }],
        hash: case.hash,
        ..Default::default()
    };
    run(&c).clients.pop().unwrap()
}

/// What a check accumulates over runs.
#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Agg {
    pub runs: u64,
    pub sim_ms: u64,
    pub switches: u64,
    pub polls: u64,
    pub spurious: u64,
    pub requests: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    #[serde(skip)]
    pub sigs: Vec<u64>,
}
impl Agg {
    pub fn add(&mut self, o: &RunOut) {
        self.stats(&o.stats);
        self.requests += o.clients.iter().map(|c| c.reqs.iter().map(|r| r.len() as u64).sum::<u64>()).sum::<u64>();
    }
    pub fn stats(&mut self, s: &exec::Stats) {
        self.runs += 1;
        self.sim_ms += s.sim_ms;
        self.switches += s.switches;
        self.polls += s.polls;
        self.spurious += s.spurious;
        for (k, v) in &s.fired {
            *self.fired.entry(k.clone()).or_default() += v;
        }
        self.sigs.push(s.sig);
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.into()).or_default() += 1;
    }
    pub fn merge(&mut self, o: &Agg) {
        self.runs += o.runs;
        self.sim_ms += o.sim_ms;
        self.switches += o.switches;
        self.polls += o.polls;
        self.spurious += o.spurious;
        self.requests += o.requests;
        for (k, v) in &o.fired {
            *self.fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
    }
}

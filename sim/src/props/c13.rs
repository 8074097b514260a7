//! C13: chains of loaders.
use super::c09::doc_value;
use super::common::*;
use super::{Prop, Verdict};
use crate::canon;
use crate::case::{on_thread, CancelAt, IndexVocab};
use crate::exec::{self, Outcome, Sched, Sim};
use crate::model::{Env, MDoc};
use crate::net::{to_syntax, Fault, FaultKind, NetErr, SimLoader, World};
use crate::ops::{self, Kind, Op, Res};
use crate::rng::Rng;
use iref::{Iri, IriBuf};
use json_ld::{ChainLoader, Loader, LoadingResult, NoLoader, RemoteDocument, RemoteDocumentReference};
use json_ld_core::{LoadError, Profile};
use rdf_types::vocabulary::{IriVocabulary, IriVocabularyMut};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C13]
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tree {
    Leaf(usize),
    Chain(Box<Tree>, Box<Tree>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum LeafKind {
    None,
    Hash,
    BTree,
    Host,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Leaf {
    pub kind: LeafKind,
    #[serde(default)]
    pub pages: World,
    #[serde(default)]
    pub faults: Vec<Fault>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CAct {
    Load(String),
    /// Through a vocabulary.
    LoadWith(String),
    Run(Op),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CStep {
    pub act: CAct,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancel_at: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CClient {
    pub steps: Vec<CStep>,
    #[serde(default)]
    pub start_at: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CCase {
    pub tree: Tree,
    pub leaves: Vec<Leaf>,
    pub clients: Vec<CClient>,
    #[serde(default)]
    pub sched: Sched,
    #[serde(default)]
    pub latency: u64,
    #[serde(default)]
    pub spurious: u16,
    #[serde(default)]
    pub hash: u64,
}

/// Answer of a member of the chain, or of the chain.
#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Doc(Value),
    Err { target: String, cause: String },
}
#[derive(Clone, Debug)]
enum Ev {
    Start(String),
    Ask(usize, String),
    Answer(usize, Ans),
    End(Ans),
}
#[derive(Clone)]
struct Log {
    sim: Sim,
    ev: std::rc::Rc<RefCell<Vec<(usize, usize, Ev)>>>,
    step: std::rc::Rc<RefCell<BTreeMap<usize, usize>>>,
}
impl Log {
    fn push(&self, e: Ev) {
        let c = self.sim.current();
        let s = self.step.borrow().get(&c).copied().unwrap_or(0);
        match &e {
            Ev::Start(u) => self.sim.log(format!("client {c} load {u}")),
            Ev::Ask(l, u) => self.sim.log(format!("client {c} asks member {l} for {u}")),
            Ev::Answer(l, a) => self.sim.log(format!("client {c} member {l} {}", if matches!(a, Ans::Doc(_)) { "answers" } else { "fails" })),
            Ev::End(a) => self.sim.log(format!("client {c} load {}", if matches!(a, Ans::Doc(_)) { "done" } else { "failed" })),
        }
        self.ev.borrow_mut().push((c, s, e));
    }
}
fn ans(r: &LoadingResult) -> Ans {
    match r {
        Ok(d) => Ans::Doc(doc_value(d)),
        Err(e) => Ans::Err { target: e.target.to_string(), cause: e.cause.to_string() },
    }
}

enum Inner<'a> {
    None(NoLoader),
    Hash(HashMap<IriBuf, RemoteDocument>),
    BTree(BTreeMap<IriBuf, RemoteDocument>),
    Host(SimLoader<'a>),
}
enum Node<'a> {
    Leaf(usize, Inner<'a>, Log),
    Chain(Box<ChainLoader<Node<'a>, Node<'a>>>),
}
impl Loader for Node<'_> {
    async fn load_with<V>(&self, vocabulary: &mut V, url: V::Iri) -> LoadingResult<V::Iri>
    where
        V: IriVocabularyMut,
        V::Iri: Clone + Eq + Hash,
    {
        match self {
            Node::Chain(c) => Box::pin(c.load_with(vocabulary, url)).await,
            Node::Leaf(..) => {
                let u = vocabulary.iri(&url).unwrap().to_owned();
                let d = self.load(&u).await?;
                Ok(d.map_iris(|i| vocabulary.insert_owned(i)))
            }
        }
    }
    async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
        match self {
            Node::Chain(c) => Box::pin(c.load(url)).await,
            Node::Leaf(i, inner, log) => {
                log.push(Ev::Ask(*i, url.to_string()));
                let r = match inner {
                    Inner::None(l) => l.load(url).await,
                    Inner::Hash(m) => m.load(url).await,
                    Inner::BTree(m) => m.load(url).await,
                    Inner::Host(h) => {
                        if let Some(s) = log.step.borrow().get(&log.sim.current()) {
                            h.step.borrow_mut().insert(log.sim.current(), *s);
                        }
                        h.load(url).await.map_err(|e| LoadError::new(e.target, NetErr(format!("member {i}: {}", e.cause))))
                    }
                };
                log.push(Ev::Answer(*i, ans(&r)));
                r
            }
        }
    }
}
/// What the processor is given: notes where each load starts and ends.
struct Top<'a, 'b>(&'b Node<'a>, Log);
impl Loader for Top<'_, '_> {
    async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
        self.1.push(Ev::Start(url.to_string()));
        let r = self.0.load(url).await;
        self.1.push(Ev::End(ans(&r)));
        r
    }
}
fn rdoc(leaf: usize, u: &str, p: &crate::net::Page) -> RemoteDocument {
    let iri = |s: &str| IriBuf::new(s.to_string()).expect("page URL");
    let mut d = RemoteDocument::new_full(
        if p.no_url { None } else { Some(iri(p.final_url.as_deref().unwrap_or(u))) },
        Some(if leaf % 3 == 0 { "application/ld+json" } else { "application/json" }.parse().unwrap()),
        p.context_url.as_deref().map(iri),
        Default::default(),
        to_syntax(&p.doc),
    );
    if leaf % 2 == 1 {
        d.profile.insert(Profile::new(Iri::new("http://www.w3.org/ns/json-ld#expanded").unwrap()));
        d.profile.insert(Profile::new(Iri::new("http://prof.org/x").unwrap()));
    }
    d
}
fn build<'a>(t: &Tree, case: &'a CCase, log: &Log) -> Node<'a> {
    match t {
        Tree::Chain(a, b) => Node::Chain(Box::new(ChainLoader::new(build(a, case, log), build(b, case, log)))),
        Tree::Leaf(i) => {
            let l = &case.leaves[*i];
            let docs = || l.pages.iter().map(|(u, p)| (IriBuf::new(u.clone()).expect("page URL"), rdoc(*i, u, p)));
            Node::Leaf(
                *i,
                match l.kind {
                    LeafKind::None => Inner::None(NoLoader),
                    LeafKind::Hash => Inner::Hash(docs().collect()),
                    LeafKind::BTree => Inner::BTree(docs().collect()),
                    LeafKind::Host => Inner::Host(SimLoader::new(&log.sim, &l.pages, &l.faults)),
                },
                log.clone(),
            )
        }
    }
}
fn leaves(t: &Tree, out: &mut Vec<usize>) {
    match t {
        Tree::Leaf(i) => out.push(*i),
        Tree::Chain(a, b) => {
            leaves(a, out);
            leaves(b, out);
        }
    }
}

struct COut {
    outcomes: Vec<Outcome>,
    ev: Vec<(usize, usize, Ev)>,
    /// Answers of LoadWith steps; results of operations.
    with: Vec<Vec<Option<Ans>>>,
    res: Vec<Vec<Option<Res>>>,
    log: Vec<String>,
    stats: exec::Stats,
}
fn run(case: &CCase) -> COut {
    on_thread(case.hash, || {
        let sim = Sim::new(&case.sched, case.latency);
        let log = Log { sim: sim.clone(), ev: Default::default(), step: Default::default() };
        let node = build(&case.tree, case, &log);
        let with: RefCell<Vec<Vec<Option<Ans>>>> = RefCell::new(case.clients.iter().map(|c| vec![None; c.steps.len()]).collect());
        let res: RefCell<Vec<Vec<Option<Res>>>> = RefCell::new(case.clients.iter().map(|c| vec![None; c.steps.len()]).collect());
        let tasks = case
            .clients
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let (node, log, with, res, sim) = (&node, log.clone(), &with, &res, sim.clone());
                exec::Task {
                    start_at: c.start_at,
                    cancel_at: None,
                    fut: Box::pin(async move {
                        let mut gen = ops::Gen::new("g");
                        let mut vocab = IndexVocab::default();
                        for (k, s) in c.steps.iter().enumerate() {
                            log.step.borrow_mut().insert(i, k);
                            sim.log(format!("client {i} step {k}"));
                            let top = Top(node, log.clone());
                            match &s.act {
                                CAct::Load(u) => {
                                    CancelAt::new(async { let _ = (&top).load(Iri::new(u).unwrap()).await; }, s.cancel_at, &sim).await;
                                }
                                CAct::LoadWith(u) => {
                                    let iri = vocab.insert(Iri::new(u).unwrap());
                                    log.push(Ev::Start(u.clone()));
                                    let v = &mut vocab;
                                    let r = CancelAt::new(
                                        async {
                                            let r = RemoteDocumentReference::iri(iri).load_with(&mut *v, &node).await;
                                            match r {
                                                Ok(d) => Ans::Doc(doc_value(&d.map_iris(|i| v.iri(&i).unwrap().to_owned()))),
                                                Err(e) => Ans::Err { target: e.target.to_string(), cause: e.cause.to_string() },
                                            }
                                        },
                                        s.cancel_at,
                                        &sim,
                                    )
                                    .await;
                                    if let Some(a) = r {
                                        log.push(Ev::End(a.clone()));
                                        with.borrow_mut()[i][k] = Some(a);
                                    }
                                }
                                CAct::Run(op) => {
                                    let r = CancelAt::new(
                                        ops::run(rdf_types::vocabulary::no_vocabulary_mut(), &mut gen, &top, op),
                                        s.cancel_at,
                                        &sim,
                                    )
                                    .await;
                                    res.borrow_mut()[i][k] = r;
                                }
                            }
                        }
                    }),
                }
            })
            .collect();
        let outcomes = exec::run(&sim, tasks, case.spurious);
        let (l, stats) = {
            let i = sim.0.borrow();
            (i.log.clone(), i.stats.clone())
        };
        let ev = log.ev.borrow().clone();
        COut { outcomes, ev, with: with.into_inner(), res: res.into_inner(), log: l, stats }
    })
}

/// One load: the questions it asked, and its answer if it completed.
struct One {
    url: String,
    asked: Vec<(usize, String, Option<Ans>)>,
    end: Option<Ans>,
}
fn loads(o: &COut, c: usize, s: usize) -> Vec<One> {
    let mut v: Vec<One> = vec![];
    for (_, _, e) in o.ev.iter().filter(|e| e.0 == c && e.1 == s) {
        match e {
            Ev::Start(u) => v.push(One { url: u.clone(), asked: vec![], end: None }),
            Ev::Ask(l, u) => v.last_mut().unwrap().asked.push((*l, u.clone(), None)),
            Ev::Answer(_, a) => v.last_mut().unwrap().asked.last_mut().unwrap().2 = Some(a.clone()),
            Ev::End(a) => v.last_mut().unwrap().end = Some(a.clone()),
        }
    }
    v
}
fn judge(case: &CCase, o: &COut, vd: &mut Verdict) -> Option<String> {
    let mut order = vec![];
    leaves(&case.tree, &mut order);
    for (i, c) in case.clients.iter().enumerate() {
        match &o.outcomes[i] {
            Outcome::Panicked(m) => return Some(format!("panic: {}", cut(m))),
            Outcome::Stuck => return Some("stuck: a load never completes".into()),
            _ => {}
        }
        for (k, s) in c.steps.iter().enumerate() {
            let ls = loads(o, i, k);
            for l in &ls {
                if let Some(m) = one(case, &order, l, vd) {
                    return Some(m);
                }
            }
            if let CAct::Run(op) = &s.act {
                let Some(r) = &o.res[i][k] else { continue };
                if ls.iter().any(|a| ls.iter().any(|b| a.url == b.url && a.end != b.end)) {
                    vd.agg.probe("answers changed in the middle of an operation");
                    continue;
                }
                let f = |u: &str| {
                    let Some(Ans::Doc(d)) = &ls.iter().find(|l| l.url == u)?.end else { return None };
                    Some(MDoc {
                        url: d["url"].as_str().unwrap_or(u).to_string(),
                        doc: d["doc"].clone(),
                        context_url: d["context"].as_str().map(|s| s.to_string()),
                    })
                };
                let env = Env::new(&f, false);
                let (m, _) = model_expand(&env, op);
                if env.fuel.get() == 0 {
                    continue;
                }
                match (r, m) {
                    (Res::Ok(v), Ok(x)) => {
                        if canon::expanded(v) != canon::expanded(&x) {
                            return Some(format!("wrong expansion: {} instead of {}", cut(&v.to_string()), cut(&x.to_string())));
                        }
                        vd.agg.probe("expansion over a chain");
                    }
                    (Res::Err { .. }, Err(_)) => vd.agg.probe("failed expansion over a chain"),
                    (r, m) => return Some(format!("wrong expansion: {} instead of {m:?}", brief(r))),
                }
            }
        }
    }
    None
}
fn one(case: &CCase, order: &[usize], l: &One, vd: &mut Verdict) -> Option<String> {
    for (n, (leaf, url, a)) in l.asked.iter().enumerate() {
        if order.get(n) != Some(leaf) {
            return Some(format!("wrong order: loading {} asked members {:?} of {order:?}", l.url, l.asked.iter().map(|a| a.0).collect::<Vec<_>>()));
        }
        if *url != l.url {
            return Some(format!("wrong question: member {leaf} was asked for {url} instead of {}", l.url));
        }
        let Some(a) = a else {
            if l.end.is_some() || n + 1 < l.asked.len() {
                return Some(format!("dropped question: loading {} went on without the answer of member {leaf}", l.url));
            }
            continue;
        };
        // members which are not simulated
        let lf = &case.leaves[*leaf];
        let page = match lf.kind {
            LeafKind::Host => continue_host(a),
            LeafKind::None => None,
            _ => lf.pages.get(url).map(|p| Ans::Doc(doc_value(&rdoc(*leaf, url, p)))),
        };
        match (&page, a) {
            (Some(p), a) if p == a => {}
            (None, Ans::Err { target, .. }) if *target == l.url => {}
            _ => return Some(format!("wrong member: {:?} loader gave {a:?} for {} instead of {page:?}", lf.kind, l.url)),
        }
        if matches!(a, Ans::Doc(_)) && n + 1 < l.asked.len() {
            return Some(format!("asked too much: loading {} went on after the answer of member {leaf}", l.url));
        }
    }
    let Some(end) = &l.end else {
        vd.agg.probe("load abandoned");
        return None;
    };
    match l.asked.last().and_then(|a| a.2.as_ref()) {
        Some(d @ Ans::Doc(_)) => {
            if d != end {
                return Some(format!("wrong answer: {end:?} instead of {d:?}"));
            }
            vd.agg.probe(&format!("answered by member {}", l.asked.len()));
            if l.asked.len() > 1 {
                vd.nontrivial = true;
            }
        }
        _ => {
            if l.asked.len() < order.len() {
                return Some(format!("gave up: loading {} ended with {end:?} after {} of {} members", l.url, l.asked.len(), order.len()));
            }
            let Ans::Err { target, cause } = end else {
                return Some(format!("invented: {end:?} although every member failed"));
            };
            if *target != l.url {
                return Some(format!("wrong error target: {target} instead of {}", l.url));
            }
            for (leaf, _, a) in &l.asked {
                let Some(Ans::Err { cause: c, .. }) = a else { continue };
                if !cause.contains(c.as_str()) {
                    return Some(format!("lost cause: {cause:?} does not tell {c:?} of member {leaf}"));
                }
            }
            vd.agg.probe("every member failed");
            if l.asked.len() > 1 {
                vd.nontrivial = true;
            }
        }
    }
    None
}
/// Simulated hosts are right by construction.
fn continue_host(a: &Ans) -> Option<Ans> {
    match a {
        Ans::Doc(_) => Some(a.clone()),
        _ => None,
    }
}

fn tree(r: &mut Rng, n: &mut usize, depth: usize) -> Tree {
    if depth == 0 || r.pct(25) {
        *n += 1;
        return Tree::Leaf(*n - 1);
    }
    let a = tree(r, n, depth - 1);
    let b = tree(r, n, depth - 1);
    Tree::Chain(Box::new(a), Box::new(b))
}
fn gen(r: &mut Rng) -> CCase {
    let mut n = 0;
    let a = {
        let d = r.range(0, 2);
        tree(r, &mut n, d)
    };
    let b = {
        let d = r.range(0, 2);
        tree(r, &mut n, d)
    };
    let t = Tree::Chain(Box::new(a), Box::new(b));
    let mut leaves: Vec<Leaf> = (0..n)
        .map(|_| Leaf {
            kind: [LeafKind::Host, LeafKind::Host, LeafKind::Hash, LeafKind::BTree, LeafKind::None][r.below(5)].clone(),
            pages: World::new(),
            faults: vec![],
        })
        .collect();
    let mut clients = vec![];
    let mut urls: Vec<String> = vec![];
    let web = r.pct(50);
    let nc = r.range(1, 3);
    if web {
        let nd = r.range(1, 2);
        let s = scenario(r, nd, &|_| {});
        for (u, p) in &s.world {
            urls.push(u.clone());
            // most documents are somewhere, some in several versions
            let k = r.below(n);
            leaves[k].pages.insert(u.clone(), p.clone());
            if r.pct(40) {
                let k = r.below(n);
                leaves[k].pages.insert(u.clone(), p.clone());
            }
            if r.pct(10) {
                let other = s.world.values().nth(r.below(s.world.len())).unwrap();
                let k = r.below(n);
                leaves[k].pages.insert(u.clone(), crate::net::Page { doc: other.doc.clone(), ..p.clone() });
            }
        }
        for _ in 0..nc {
            let mut steps = vec![];
            for _ in 0..r.range(1, 3) {
                let act = match r.below(6) {
                    0 => CAct::Load(r.pick(&urls).clone()),
                    1 => CAct::LoadWith(r.pick(&urls).clone()),
                    _ => {
                        let mut o = op(r, &s, b"e");
                        o.kind = Kind::Expand;
                        o.input = ops::Input::Iri(r.pick(&s.docs).clone());
                        CAct::Run(o)
                    }
                };
                steps.push(CStep { act, cancel_at: None });
            }
            clients.push(CClient { steps, start_at: r.below(20) as u64 });
        }
    } else {
        urls = (0..r.range(1, 5)).map(|i| format!("http://h{}.org/d{i}", i % 2)).collect();
        for (k, l) in leaves.iter_mut().enumerate() {
            for u in &urls {
                if r.pct(35) {
                    l.pages.insert(
                        u.clone(),
                        crate::net::Page {
                            doc: serde_json::json!({"from": k, "url": u}),
                            final_url: if r.pct(20) { Some(format!("{u}/final{k}")) } else { None },
                            context_url: if r.pct(20) { Some(format!("http://ctx.org/{k}")) } else { None },
                            no_url: r.pct(10),
                        },
                    );
                }
            }
        }
        for _ in 0..nc {
            let steps = (0..r.range(1, 5))
                .map(|_| {
                    let u = r.pick(&urls).clone();
                    CStep { act: if r.pct(60) { CAct::Load(u) } else { CAct::LoadWith(u) }, cancel_at: None }
                })
                .collect();
            clients.push(CClient { steps, start_at: r.below(20) as u64 });
        }
    }
    for l in leaves.iter_mut().filter(|l| l.kind == LeafKind::Host) {
        for _ in 0..r.below(3) {
            let kind = if r.pct(25) { FaultKind::Slow(r.range(1, 500) as u64) } else { some_fault(r) };
            l.faults.push(Fault {
                url: r.pick(&urls).clone(),
                task: if r.pct(40) { Some(r.below(nc)) } else { None },
                step: if r.pct(30) { Some(r.below(3)) } else { None },
                from: [0, 0, 1][r.below(3)],
                count: [1, 2, u32::MAX][r.below(3)],
                kind,
            });
        }
    }
    if r.pct(20) {
        let k = r.below(clients.len());
        let m = clients[k].steps.len();
        let s = r.below(m);
        clients[k].steps[s].cancel_at = Some(r.range(1, 12) as u64);
    }
    let ns = [40, 150, 400][r.below(3)];
    CCase {
        tree: t,
        leaves,
        clients,
        sched: Sched::random(r, ns),
        latency: [0, 1, 3, 12, 60][r.below(5)],
        spurious: [0, 0, 15, 50][r.below(4)],
        hash: r.next() & 0xffff,
    }
}

struct C13;
impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        to_value(&gen(r))
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: CCase = from_value(v)?;
        let mut order = vec![];
        leaves(&case.tree, &mut order);
        order.sort();
        if order.windows(2).any(|w| w[0] == w[1]) || order.iter().any(|i| *i >= case.leaves.len()) {
            return Err("not a tree".into());
        }
        let bad = |u: &str| Iri::new(u).is_err();
        if case.leaves.iter().any(|l| l.pages.iter().any(|(u, p)| bad(u) || p.final_url.as_deref().is_some_and(bad) || p.context_url.as_deref().is_some_and(bad)))
            || case.clients.iter().flat_map(|c| &c.steps).any(|s| matches!(&s.act, CAct::Load(u) | CAct::LoadWith(u) if bad(u)))
        {
            return Err("not a URL".into());
        }
        let mut vd = Verdict::default();
        let o = run(&case);
        vd.agg.stats(&o.stats);
        vd.agg.requests += o.ev.iter().filter(|e| matches!(e.2, Ev::Ask(..))).count() as u64;
        Ok(match judge(&case, &o, &mut vd) {
            Some(m) => vd.fail(m, &o.log),
            None => vd,
        })
    }
    fn rule(&self) -> &'static str {
        "at least one load went beyond the first member of the chain"
    }
    fn real(&self) -> &'static [&'static str] {
        &["json-ld-core loaders (ChainLoader, maps, NoLoader, references and vocabulary mapping)", "json-ld processor (expansions over chains)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["members are asked with URLs written as in the maps (equivalent spellings of a URL are not generated)"]
    }
}

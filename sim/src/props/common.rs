//! Shared scenario generation and comparison helpers.
use crate::canon;
use crate::case::{Case, Client, ClientOut, Step, StepOut, Vocab};
use crate::exec::{Outcome, Sched};
use crate::gen::{Feat, Gen};
use crate::model::{self, expand::EC, Env, MDoc, MErr};
use crate::net::{Fault, FaultKind, Page, World};
use crate::ops::{CtxIn, Input, Kind, Op, OpOpts, Res};
use crate::rng::Rng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub struct Scn {
    pub world: World,
    /// URLs of the input documents.
    pub docs: Vec<String>,
    /// URLs of the contexts.
    pub ctxs: Vec<String>,
    pub imports: Vec<String>,
    pub feat: Feat,
}

/// A web of contexts and `n` documents.
pub fn scenario(r: &mut Rng, n: usize, tweak: &dyn Fn(&mut Feat)) -> Scn {
    let mut f = Feat::random(r);
    tweak(&mut f);
    let mut g = Gen::new(r, f.clone());
    let mut world = g.world();
    let mut docs = vec![];
    for i in 0..n {
        let dir = ["", "base/", "base/deep/"][g.r.below(3)];
        let url = format!("http://docs.org/{dir}doc{i}.jsonld");
        let fin = if f.redirect && g.r.pct(35) {
            Some(format!("http://moved.org/{}doc{i}.jsonld", ["", "to/", "to/there/"][g.r.below(3)]))
        } else {
            None
        };
        let doc = g.document(Some(fin.as_deref().unwrap_or(&url)));
        let context_url = if f.link_ctx && g.r.pct(30) { Some(g.r.pick(&g.urls).clone()) } else { None };
        world.insert(url.clone(), Page { doc, final_url: fin, context_url, no_url: false });
        docs.push(url);
    }
    let (ctxs, imports) = (g.urls.clone(), g.imports.clone());
    Scn { world, docs, ctxs, imports, feat: f }
}

pub fn input(r: &mut Rng, s: &Scn, d: usize) -> Input {
    let url = &s.docs[d];
    if r.pct(65) {
        Input::Iri(url.clone())
    } else {
        loaded(&s.world, url)
    }
}
pub fn loaded(w: &World, url: &str) -> Input {
    let p = &w[url];
    Input::Loaded {
        url: if p.no_url { None } else { Some(p.final_url.clone().unwrap_or(url.to_string())) },
        context_url: p.context_url.clone(),
        doc: p.doc.clone(),
    }
}
/// A context with which to compact, flatten or expand.
pub fn ctx_in(r: &mut Rng, s: &Scn) -> CtxIn {
    if r.pct(60) {
        CtxIn::Iri(r.pick(&s.ctxs).clone())
    } else {
        let url = "http://c0.org/given/ctx.jsonld".to_string();
        let mut g = Gen::new(r, s.feat.clone());
        g.urls = s.ctxs.clone();
        g.imports = s.imports.clone();
        let (p, i) = (g.urls.clone(), g.imports.clone());
        let ctx = g.context(Some(&url), &p, &i, 0);
        CtxIn::Loaded { url: Some(url), ctx }
    }
}
pub fn opts(r: &mut Rng, s: &Scn) -> OpOpts {
    OpOpts {
        base: if r.pct(15) { Some("http://base-opt.org/dir/x".into()) } else { None },
        expand_context: if s.feat.expand_ctx && r.pct(40) { Some(ctx_in(r, s)) } else { None },
        ordered: r.pct(20),
        no_compact_arrays: r.pct(20),
        no_compact_to_relative: r.pct(20),
        mode10: false,
        policy: [0; 3],
    }
}
/// Kinds of operations: e(xpand), i(nto_document), c(ompact), f(latten),
/// r(df), q (compare).
pub fn op(r: &mut Rng, s: &Scn, kinds: &[u8]) -> Op {
    let d = r.below(s.docs.len());
    let k = *r.pick(kinds);
    let o = opts(r, s);
    let inp = input(r, s, d);
    let kind = match k {
        b'e' => Kind::Expand,
        b'i' => Kind::IntoDocument,
        b'c' => Kind::Compact(ctx_in(r, s)),
        b'f' => Kind::Flatten(if r.pct(50) { None } else { Some(ctx_in(r, s)) }),
        b'r' => Kind::ToRdf {
            direction: [None, Some("i18n-datatype".to_string()), Some("compound-literal".to_string())][r.below(3)].clone(),
            generalized: r.pct(30),
        },
        _ => {
            let d2 = r.below(s.docs.len());
            Kind::Compare(input(r, s, d2))
        }
    };
    Op { kind, input: inp, opts: o }
}
pub fn vocab(r: &mut Rng) -> Vocab {
    [Vocab::None, Vocab::Shared, Vocab::Fresh][r.below(3)]
}
pub fn schedule(r: &mut Rng, c: &mut Case) {
    let n = [40, 150, 400][r.below(3)];
    c.sched = Sched::random(r, n);
    c.latency = [0, 1, 3, 12, 60][r.below(5)];
    c.spurious = [0, 0, 15, 50][r.below(4)];
    c.hash = r.next() & 0xffff;
}
pub fn client(steps: Vec<Op>, vocab: Vocab) -> Client {
    Client { steps: steps.into_iter().map(|op| Step { op, cancel_at: None }).collect(), vocab, start_at: 0 }
}
pub fn to_value<T: serde::Serialize>(t: &T) -> Value {
    serde_json::to_value(t).expect("case")
}
pub fn from_value<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, String> {
    serde_json::from_value(v.clone()).map_err(|e| e.to_string())
}

// ------------------------------------------------------------------ results

/// Did the two results of the same operation come out the same?
pub fn same(kind: &Kind, a: &Res, b: &Res) -> bool {
    match (a, b) {
        // The nodes of a flattened document are in no order: the first one refused may vary.
        (Res::Err { .. }, Res::Err { .. }) if matches!(kind, Kind::Flatten(Some(_))) => true,
        (Res::Err { code: c1, target: t1, .. }, Res::Err { code: c2, target: t2, .. }) => c1 == c2 && t1 == t2,
        (Res::Ok(a), Res::Ok(b)) => same_value(kind, a, b),
        _ => false,
    }
}
pub fn same_value(kind: &Kind, a: &Value, b: &Value) -> bool {
    match kind {
        Kind::Expand => canon::expanded(a) == canon::expanded(b),
        Kind::IntoDocument => {
            a["url"] == b["url"] && canon::expanded(&a["expanded"]) == canon::expanded(&b["expanded"])
        }
        Kind::Compact(_) => canon::sorted(a) == canon::sorted(b),
        Kind::Compare(_) | Kind::History(_) | Kind::FromRdf { .. } | Kind::Linked => a == b,
        Kind::Flatten(_) | Kind::ToRdf { .. } => canon::iso(a, b, &canon::sorted),
    }
}
pub fn brief(r: &Res) -> String {
    match r {
        Res::Ok(v) => cut(&v.to_string()),
        Res::Err { code, target, msg } => cut(&format!("error {code:?} target {target:?} ({msg})")),
    }
}
pub fn cut(s: &str) -> String {
    if s.len() > 1500 {
        s.chars().take(1500).collect::<String>() + "…"
    } else {
        s.to_string()
    }
}
/// The class of an outcome which is neither a result nor an error.
pub fn broken(c: &ClientOut) -> Option<String> {
    match &c.outcome {
        Outcome::Panicked(m) => Some(format!("panic: {}", cut(m))),
        Outcome::Stuck => Some("stuck: the operation never completes although nothing is left to wait for".into()),
        _ => None,
    }
}
pub fn step_res(c: &ClientOut, k: usize) -> Option<&Res> {
    c.steps.get(k).and_then(StepOut::res)
}

// -------------------------------------------------------------------- model

pub struct MOut {
    pub res: Result<Value, MErr>,
    pub loads: Vec<String>,
    pub out_of_fuel: bool,
    /// Final URL of the input document.
    pub url: Option<String>,
}
fn mdoc(u: &str, p: &Page) -> MDoc {
    MDoc {
        url: if p.no_url { u.to_string() } else { p.final_url.clone().unwrap_or(u.to_string()) },
        doc: p.doc.clone(),
        context_url: p.context_url.clone(),
    }
}
pub fn ec(c: &CtxIn) -> EC {
    match c {
        CtxIn::Iri(u) => EC::Url(u.clone()),
        CtxIn::Loaded { url, ctx } => EC::Loaded(url.clone(), ctx.clone()),
    }
}
/// Serves the world with the failures that concern task 0, step 0.
pub fn server<'a>(world: &'a World, faults: &'a [Fault]) -> impl Fn(&str) -> Option<MDoc> + 'a {
    let attempts: RefCell<BTreeMap<String, u32>> = Default::default();
    move |u: &str| {
        let n = {
            let mut a = attempts.borrow_mut();
            let e = a.entry(u.to_string()).or_default();
            *e += 1;
            *e - 1
        };
        let mut doc = None;
        for f in faults {
            if f.url == u && f.task.unwrap_or(0) == 0 && f.step.unwrap_or(0) == 0 && n >= f.from && n - f.from < f.count {
                match &f.kind {
                    FaultKind::Slow(_) => {}
                    FaultKind::Replaced(v) => doc = Some(v.clone()),
                    _ => return None,
                }
            }
        }
        world.get(u).map(|p| {
            let mut d = mdoc(u, p);
            if let Some(v) = doc {
                d.doc = v;
            }
            d
        })
    }
}
pub fn model_expand(env: &Env, op: &Op) -> (Result<Value, MErr>, Option<String>) {
    let (doc, url, curl) = match &op.input {
        Input::Iri(u) => match env.load(u, "loading document failed") {
            Ok(d) => (d.doc, Some(d.url), d.context_url),
            Err(e) => return (Err(e), None),
        },
        Input::Loaded { url, context_url, doc } => (doc.clone(), url.clone(), context_url.clone()),
    };
    let o = model::expand::ExpandOpts {
        base: op.opts.base.clone(),
        expand_context: op.opts.expand_context.as_ref().map(ec),
    };
    let res = model::expand::expand_document(env, &doc, url.as_deref(), curl.as_deref(), &o);
    if matches!(&res, Ok(e) if !is_expanded(e)) {
        env.fuel.set(0);
    }
    (res, url)
}
/// The algorithms of the standard, followed to the letter, make something else than an expanded
/// document of some inputs (values with identifiers…): then they do not tell what is right.
fn is_expanded(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().all(is_expanded),
        Value::Object(m) if m.contains_key("@value") => {
            m.keys().all(|k| matches!(k.as_str(), "@value" | "@type" | "@language" | "@direction" | "@index"))
        }
        Value::Object(m) if m.contains_key("@list") => {
            m.keys().all(|k| matches!(k.as_str(), "@list" | "@index")) && m.values().all(is_expanded)
        }
        Value::Object(m) => m.iter().all(|(k, x)| match (k.as_str(), x) {
            ("@language" | "@direction" | "@set", _) => false,
            ("@reverse", Value::Object(r)) => r.values().all(|x| {
                x.as_array().map(|a| a.iter().all(|n| n.is_object() && n.get("@value").is_none() && n.get("@list").is_none())).unwrap_or(false)
                    && is_expanded(x)
            }),
            ("@reverse", _) => false,
            _ => is_expanded(x),
        }),
        _ => true,
    }
}
/// What the reference model says about the expansion part of an operation.
pub fn model(world: &World, faults: &[Fault], op: &Op) -> MOut {
    model_in(world, faults, op, model::Order::Sorted)
}
pub fn model_in(world: &World, faults: &[Fault], op: &Op, order: model::Order) -> MOut {
    let f = server(world, faults);
    let mut env = Env::new(&f, op.opts.mode10);
    env.order = order;
    env.policy = op.opts.policy;
    let (res, url) = model_expand(&env, op);
    let loads = env.loads.borrow().clone();
    MOut { res, loads, out_of_fuel: env.fuel.get() == 0, url }
}
pub fn fault(url: &str, kind: FaultKind) -> Fault {
    Fault { url: url.into(), task: None, step: None, from: 0, count: u32::MAX, kind }
}
pub fn some_fault(r: &mut Rng) -> FaultKind {
    match r.below(4) {
        0 => FaultKind::Unreachable,
        1 => FaultKind::Status,
        2 => FaultKind::StallThenDrop(r.range(1, 5000) as u64),
        _ => FaultKind::StallThenDrop(1),
    }
}
pub fn j(v: &Value) -> Value {
    json!(v)
}

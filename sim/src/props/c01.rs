//! Properties judged by comparing executions with each other: C01 concurrency,
//! C02 abandonment, C04 failed loads, C20 hash randomisation, C21 vocabularies.
use super::common::*;
use super::{Prop, Verdict};
use crate::case::{self, Case, Client, RunOut, Step, StepOut, Vocab};
use crate::exec::Outcome;
use crate::gen::Gen;
use crate::net::{Fault, FaultKind};
use crate::ops::{Kind, Res};
use crate::rng::Rng;
use serde_json::{json, Value};

const ALL: &[u8] = b"eeiccffrrq";

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C01, &C02, &C04, &C20, &C21]
}

/// Another document a server could serve under the URL of a context.
fn other_page(r: &mut Rng, s: &Scn, url: &str) -> Value {
    let mut g = Gen::new(r, s.feat.clone());
    let imp = s.imports.contains(&url.to_string());
    g.urls = s.ctxs.clone();
    let at = s.world[url].final_url.clone().unwrap_or(url.into());
    let c = if imp { g.ctx_object(Some(&at), &[], &[], 1, false) } else { g.context(Some(&at), &[], &[], 1) };
    json!({ "@context": c })
}

/// The case of that single step alone, with the content and the failures its
/// servers had for it.
fn alone(case: &Case, i: usize, k: usize, vocab: Vocab) -> case::ClientOut {
    let faults = case
        .faults
        .iter()
        .filter(|f| f.task.map(|t| t == i).unwrap_or(true) && f.step.map(|s| s == k).unwrap_or(true))
        .map(|f| Fault { task: None, step: None, ..f.clone() })
        .collect();
    let c = Case {
        world: case.world.clone(),
        clients: vec![Client {
            steps: vec![Step { op: case.clients[i].steps[k].op.clone(), cancel_at: None }],
            vocab,
            start_at: 0,
        }],
        faults,
        hash: case.hash,
        ..Default::default()
    };
    case::run(&c).clients.pop().unwrap()
}

/// Compares every finished step with its baseline. Returns the violation, and
/// how many steps were compared.
fn against_alone(case: &Case, o: &RunOut, vocab: Option<Vocab>, v: &mut Verdict) -> (Option<String>, usize) {
    let mut n = 0;
    for (i, c) in o.clients.iter().enumerate() {
        for (k, s) in c.steps.iter().enumerate() {
            let op = &case.clients[i].steps[k].op;
            let b = match s {
                StepOut::Cancelled => continue,
                StepOut::NotRun if k > 0 && c.steps[k - 1] == StepOut::NotRun => continue,
                _ => alone(case, i, k, vocab.unwrap_or(case.clients[i].vocab)),
            };
            v.agg.runs += 1;
            match (s, step_res(&b, 0)) {
                (StepOut::Done(r), Some(e)) => {
                    n += 1;
                    if !same(&op.kind, r, e) {
                        return (
                            Some(format!(
                                "different result: client {i} step {k} gave {} but alone {}",
                                brief(r),
                                brief(e)
                            )),
                            n,
                        );
                    }
                }
                (StepOut::NotRun, None) => {
                    // panicked or stuck in both: reported by C19
                }
                (StepOut::Done(r), None) => {
                    return (Some(format!("different result: client {i} step {k} gave {} but alone {:?}", brief(r), b.outcome)), n)
                }
                (StepOut::NotRun, Some(e)) => {
                    return (
                        Some(format!(
                            "not completed: client {i} step {k} ended as {:?} but alone gives {}",
                            c.outcome,
                            brief(e)
                        )),
                        n,
                    )
                }
                _ => {}
            }
        }
    }
    (None, n)
}

// ------------------------------------------------------------------------ C01
struct C01;
impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let nd = r.range(1, 3);
        let s = scenario(r, nd, &|_| {});
        let n = r.range(2, 4);
        let mut c = Case { world: s.world.clone(), ..Default::default() };
        for i in 0..n {
            let m = r.range(1, 3);
            let mut ops: Vec<_> = (0..m).map(|_| op(r, &s, ALL)).collect();
            if i > 0 && r.pct(35) {
                // the same operation from two clients at once
                ops[0] = c.clients[0].steps[0].op.clone();
            }
            let v = vocab(r);
            let mut cl = client(ops, v);
            cl.start_at = if r.pct(50) { 0 } else { r.below(40) as u64 };
            c.clients.push(cl);
        }
        // Content and failures which differ between clients, or between two
        // operations of a client.
        for _ in 0..r.below(4) {
            let t = r.below(n);
            let all: Vec<&String> = s.ctxs.iter().chain(&s.imports).collect();
            let url = (*r.pick(&all)).clone();
            let kind = match r.below(5) {
                0 => some_fault(r),
                1 => FaultKind::Slow(r.range(1, 900) as u64),
                _ => FaultKind::Replaced(other_page(r, &s, &url)),
            };
            let step = if r.pct(60) { Some(r.below(c.clients[t].steps.len())) } else { None };
            c.faults.push(Fault { url, task: Some(t), step, from: 0, count: u32::MAX, kind });
        }
        schedule(r, &mut c);
        if r.pct(80) && c.latency == 0 {
            c.latency = 5;
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let o = case::run(&case);
        let mut vd = Verdict::default();
        vd.agg.add(&o);
        let active = o.clients.iter().filter(|c| c.reqs.iter().any(|r| !r.is_empty())).count();
        vd.nontrivial = active >= 2 && o.stats.switches > o.clients.len() as u64;
        if vd.nontrivial {
            vd.agg.probe("clients_interleaved");
        }
        let (bad, n) = against_alone(&case, &o, None, &mut vd);
        for _ in 0..n {
            vd.agg.probe("results_compared");
        }
        Ok(match bad {
            Some(d) => vd.fail(d, &o.log),
            None => vd,
        })
    }
    fn rule(&self) -> &'static str {
        "at least two clients made requests and the executor switched between them"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["clients share a loader; each has its own vocabulary and generator, as the API requires (&mut)",
          "results are compared up to the order of unordered values and to blank node labels of generated nodes"]
    }
}

// ------------------------------------------------------------------------ C02
struct C02;
impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let nd = r.range(1, 2);
        let s = scenario(r, nd, &|_| {});
        let mut c = Case { world: s.world.clone(), ..Default::default() };
        let n = r.range(1, 3);
        for _ in 0..n {
            let m = r.range(1, 3);
            let mut ops: Vec<_> = (0..m).map(|_| op(r, &s, ALL)).collect();
            if r.pct(50) && m > 1 {
                ops[1] = ops[0].clone();
            }
            let v = if r.pct(60) { Vocab::Shared } else { vocab(r) };
            let mut cl = client(ops, v);
            cl.start_at = r.below(10) as u64;
            c.clients.push(cl);
        }
        for _ in 0..r.range(1, 2) {
            let i = r.below(n);
            let k = r.below(c.clients[i].steps.len());
            c.clients[i].steps[k].cancel_at = { let m = [2, 4, 9, 20][r.below(4)]; Some(1 + r.below(m) as u64) };
        }
        // always something after the last abandoned operation of client 0
        let again = c.clients[0].steps[0].op.clone();
        c.clients[0].steps.push(Step { op: again, cancel_at: None });
        schedule(r, &mut c);
        if c.latency == 0 {
            c.latency = 7;
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let o = case::run(&case);
        let mut vd = Verdict::default();
        vd.agg.add(&o);
        let started = o.clients.iter().any(|c| {
            c.steps.iter().zip(&c.reqs).any(|(s, r)| *s == StepOut::Cancelled && !r.is_empty())
        });
        vd.nontrivial = started;
        if o.clients.iter().any(|c| c.steps.contains(&StepOut::Cancelled)) {
            vd.agg.probe("abandoned");
        }
        if started {
            vd.agg.probe("abandoned_in_flight");
        }
        // No request on behalf of an abandoned operation once it is dropped.
        for (i, c) in o.clients.iter().enumerate() {
            let mut gone = false;
            for l in &o.log {
                let l = l.split_once(' ').map(|x| x.1).unwrap_or("");
                if l.starts_with(&format!("task {i} gives up")) {
                    gone = true;
                } else if l.starts_with(&format!("task {i} step")) {
                    gone = false;
                } else if gone && l.starts_with(&format!("task {i} GET")) {
                    return Ok(vd.fail(format!("request after abandonment: {l}"), &o.log));
                }
            }
            let _ = c;
        }
        let (bad, n) = against_alone(&case, &o, None, &mut vd);
        for _ in 0..n {
            vd.agg.probe("results_compared");
        }
        Ok(match bad {
            Some(d) => vd.fail(d, &o.log),
            None => vd,
        })
    }
    fn rule(&self) -> &'static str {
        "an operation was dropped after it had issued a request and before it completed"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["abandoning = dropping the future between two polls; later steps of the client reuse its vocabulary and generator"]
    }
}

// ------------------------------------------------------------------------ C04
struct C04;
impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let nd = r.range(1, 2);
        let s = scenario(r, nd, &|_| {});
        let mut c = Case { world: s.world.clone(), ..Default::default() };
        let o = op(r, &s, b"eeeiccffrrq");
        let v = if r.pct(60) { Vocab::Shared } else { vocab(r) };
        c.clients = vec![client(vec![o.clone(), o], v)];
        schedule(r, &mut c);
        // The fault hits one of the requests of the fault-free run.
        let probe = Case { clients: vec![client(vec![c.clients[0].steps[0].op.clone()], Vocab::None)], hash: c.hash, world: s.world, ..Default::default() };
        let o = case::run(&probe);
        let reqs = &o.clients[0].reqs[0];
        if !reqs.is_empty() {
            let q = r.pick(reqs).clone();
            let kind = if r.pct(12) { FaultKind::Slow(r.range(1, 100000) as u64) } else { some_fault(r) };
            // from the picked attempt on, once, or always
            let (from, count) = [(q.attempt, 1), (q.attempt, u32::MAX), (0, u32::MAX)][r.below(3)];
            c.faults.push(Fault { url: q.url, task: None, step: Some(0), from, count, kind });
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let mut vd = Verdict::default();
        if case.clients.is_empty() || case.clients[0].steps.len() != 2 {
            return Ok(vd);
        }
        let free = case::alone(&case, 0, 0, Vocab::None);
        let o = case::run(&case);
        vd.agg.add(&o);
        vd.agg.runs += 1;
        let op = &case.clients[0].steps[0].op;
        let Some(expected) = step_res(&free, 0) else { return Ok(vd) };
        let failed: Vec<_> = o.clients[0].reqs[0].iter().filter(|r| r.done && !r.ok).collect();
        // Only injected failures: the pages of the world are all there.
        let hit = !failed.is_empty() && case.faults.iter().any(|f| failed.iter().any(|q| q.url == f.url) && !matches!(f.kind, FaultKind::Slow(_)));
        let missing_anyway = free.reqs[0].iter().any(|r| !r.ok);
        match (&o.clients[0].outcome, step_res(&o.clients[0], 0)) {
            (Outcome::Done, Some(res)) | (_, Some(res)) => {
                if hit {
                    vd.nontrivial = true;
                    vd.agg.probe("load_failed");
                    let f = failed[0];
                    match res {
                        Res::Ok(_) => {
                            return Ok(vd.fail(
                                format!("success in spite of a failed load: {} failed but the result is {}", f.url, brief(res)),
                                &o.log,
                            ))
                        }
                        Res::Err { code, target, .. } => {
                            let is_doc = |i: &crate::ops::Input| matches!(i, crate::ops::Input::Iri(u) if *u == f.url);
                            let doc = is_doc(&op.input) || matches!(&op.kind, Kind::Compare(i) if is_doc(i));
                            let load = code == "loading document failed" || code == "loading remote context failed";
                            if load {
                                if target.as_deref() != Some(&f.url) {
                                    return Ok(vd.fail(
                                        format!("wrong document blamed: {} failed but the error is {}", f.url, brief(res)),
                                        &o.log,
                                    ));
                                }
                                let want = if doc { "loading document failed" } else { "loading remote context failed" };
                                // A document may also be used as a context.
                                if code != want && !doc {
                                    return Ok(vd.fail(
                                        format!("wrong error code: {} failed, expected {want:?}, got {}", f.url, brief(res)),
                                        &o.log,
                                    ));
                                }
                                vd.agg.probe(if doc { "document_load_failed" } else { "context_load_failed" });
                            } else if code == "invalid scoped context" && !doc {
                                vd.agg.probe("scoped_context_load_failed");
                            } else {
                                return Ok(vd.fail(
                                    format!("wrong error code: {} failed but the error is {}", f.url, brief(res)),
                                    &o.log,
                                ));
                            }
                            // For expansions, the model says which one of the codes.
                            if matches!(op.kind, Kind::Expand | Kind::IntoDocument) {
                                let reqs: Vec<_> = o.clients[0].reqs[0].iter().map(|r| r.url.clone()).collect();
                                let mut codes = vec![];
                                for order in crate::model::ORDERS {
                                    let m = model_in(&case.world, &case.faults, op, order);
                                    match &m.res {
                                        Err(e) if !m.out_of_fuel && e.target.as_deref() == Some(f.url.as_str()) && m.loads == reqs => codes.push(e.code),
                                        _ => {}
                                    }
                                }
                                if !codes.is_empty() && !codes.contains(&code.as_str()) {
                                    return Ok(vd.fail(
                                        format!("wrong error code: {} failed, expected {:?}, got {}", f.url, codes[0], brief(res)),
                                        &o.log,
                                    ));
                                }
                            }
                        }
                    }
                } else if failed.is_empty() && !same(&op.kind, res, expected) {
                    return Ok(vd.fail(
                        format!("fault-free result changed: {} instead of {}", brief(res), brief(expected)),
                        &o.log,
                    ));
                }
            }
            (oc, None) => {
                return Ok(vd.fail(format!("not completed: {oc:?} instead of {}", brief(expected)), &o.log));
            }
        }
        if missing_anyway {
            return Ok(vd);
        }
        match step_res(&o.clients[0], 1) {
            Some(res) if same(&op.kind, res, expected) => {
                if hit {
                    vd.agg.probe("retried_successfully");
                }
                Ok(vd)
            }
            Some(res) => Ok(vd.fail(
                format!("retry differs: {} instead of {}", brief(res), brief(expected)),
                &o.log,
            )),
            None => {
                let oc = o.clients[0].outcome.clone();
                Ok(vd.fail(format!("not completed: the retry ended as {oc:?} instead of {}", brief(expected)), &o.log))
            }
        }
    }
    fn rule(&self) -> &'static str {
        "an injected fault failed one of the requests of the operation"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["inside term definitions the standard prescribes `invalid scoped context` for any failure, which carries no URL"]
    }
}

// ------------------------------------------------------------------------ C20
struct C20;
impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let nd = r.range(1, 2);
        let s = scenario(r, nd, &|f| f.cyclic = false);
        let mut c = Case { world: s.world.clone(), ..Default::default() };
        let m = r.range(1, 2);
        let ops = (0..m).map(|_| op(r, &s, b"eccccffffrrq")).collect();
        let v = vocab(r);
        c.clients = vec![client(ops, v)];
        if r.pct(25) {
            let url = r.pick(&s.ctxs).clone();
            c.faults.push(fault(&url, some_fault(r)));
        }
        schedule(r, &mut c);
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let mut case: Case = from_value(v)?;
        let mut vd = Verdict::default();
        let h = case.hash;
        let first = case::run(&case);
        vd.agg.add(&first);
        vd.nontrivial = first.clients.iter().any(|c| c.steps.iter().any(|s| matches!(s, StepOut::Done(Res::Ok(_)))));
        for d in 1..4u64 {
            case.hash = h ^ (d.wrapping_mul(0x9E37_79B9_97F4_A7C1));
            let o = case::run(&case);
            vd.agg.add(&o);
            for (i, (a, b)) in first.clients.iter().zip(&o.clients).enumerate() {
                for (k, (x, y)) in a.steps.iter().zip(&b.steps).enumerate() {
                    let kind = &case.clients[i].steps[k].op.kind;
                    let ok = match (x, y) {
                        (StepOut::Done(x), StepOut::Done(y)) => same(kind, x, y),
                        (x, y) => x == y,
                    };
                    if !ok {
                        let f = |s: &StepOut| match s {
                            StepOut::Done(r) => brief(r),
                            s => format!("{s:?}"),
                        };
                        return Ok(vd.fail(format!("hash dependent result: step {k} gives {} or {}", f(x), f(y)), &o.log));
                    }
                    let urls = |c: &case::ClientOut| {
                        let mut u: Vec<String> = c.reqs[k].iter().map(|r| r.url.clone()).collect();
                        u.sort();
                        u
                    };
                    // A flattened document is compacted in any order, up to the first error.
                    let early = matches!((&case.clients[0].steps[k].op.kind, x), (Kind::Flatten(Some(_)), StepOut::Done(Res::Err { .. })));
                    if !early && urls(a) != urls(b) {
                        return Ok(vd.fail(
                            format!("hash dependent requests: step {k} makes {:?} or {:?}", urls(a), urls(b)),
                            &o.log,
                        ));
                    }
                    vd.agg.probe("steps_compared");
                }
            }
        }
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "at least one operation of the case succeeded; it was executed under four different hash keys"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["std's RandomState draws its keys from getrandom, which the simulator interposes per run",
          "ahash-like or fixed hashers of dependencies have no per-process randomness to control"]
    }
}

// ------------------------------------------------------------------------ C21
struct C21;
impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let nd = r.range(1, 3);
        let s = scenario(r, nd, &|f| f.blank = true);
        let mut c = Case { world: s.world.clone(), ..Default::default() };
        let m = r.range(1, 4);
        let ops: Vec<_> = (0..m).map(|_| op(r, &s, b"eiccfffrrrq")).collect();
        let mut cl = client(ops, Vocab::Shared);
        for k in 0..m.saturating_sub(1) {
            if r.pct(30) {
                cl.steps[k].cancel_at = Some(1 + r.below(8) as u64);
            } else if r.pct(30) {
                let url = r.pick(&s.ctxs).clone();
                c.faults.push(Fault { url, task: Some(0), step: Some(k), from: r.below(2) as u32, count: u32::MAX, kind: some_fault(r) });
            }
        }
        c.clients = vec![cl];
        schedule(r, &mut c);
        if c.latency == 0 {
            c.latency = 3;
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let o = case::run(&case);
        let mut vd = Verdict::default();
        vd.agg.add(&o);
        vd.nontrivial = o.clients.iter().any(|c| {
            c.steps.iter().skip(1).any(|s| matches!(s, StepOut::Done(Res::Ok(_))))
                || c.steps.iter().any(|s| *s == StepOut::Cancelled)
        });
        for mode in [Vocab::None, Vocab::Fresh] {
            let (bad, n) = against_alone(&case, &o, Some(mode), &mut vd);
            for _ in 0..n {
                vd.agg.probe(if mode == Vocab::None { "compared_without_vocabulary" } else { "compared_with_fresh_vocabulary" });
            }
            if let Some(d) = bad {
                return Ok(vd.fail(d, &o.log));
            }
        }
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "an operation completed over a vocabulary already used by another operation, or one was abandoned over it"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["vocabularies: rdf_types IndexVocabulary (interning) and () (none)"]
    }
}

//! C18 comparison tells whether two documents mean the same.
use super::common::*;
use super::{Prop, Verdict};
use crate::canon;
use crate::case::{self, Case, Step};
use crate::exec::Outcome;
use crate::model::{self, Env, MErr, Order};
use crate::net::{Fault, FaultKind, Page};
use crate::ops::{Input, Kind, Op, Res};
use crate::rng::Rng;
use crate::shrink;
use serde_json::{json, Value};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C18]
}

/// The same JSON up to the order of array items.
fn same_json(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(a), Value::Array(b)) => {
            let mut left: Vec<&Value> = b.iter().collect();
            a.len() == b.len()
                && a.iter().all(|x| match left.iter().position(|y| same_json(x, y)) {
                    Some(i) => {
                        left.remove(i);
                        true
                    }
                    None => false,
                })
        }
        (Value::Object(a), Value::Object(b)) => {
            a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map(|y| same_json(x, y)).unwrap_or(false))
        }
        (a, b) => a == b,
    }
}

#[derive(Debug)]
enum Answer {
    Must(bool),
    /// Equal, up to the order of the entries of JSON literals.
    EqualUpToLiterals,
    Any,
    Fails(MErr),
    GaveUp,
}
fn answer(case: &Case, op: &Op, other: &Input, order: Order) -> Answer {
    let f = server(&case.world, &case.faults);
    let mut env = Env::new(&f, op.opts.mode10);
    env.order = order;
    let load = |i: &Input| match i {
        Input::Iri(u) => {
            env.load(u, "loading document failed").map(|d| Input::Loaded { url: Some(d.url), context_url: d.context_url, doc: d.doc })
        }
        i => Ok(i.clone()),
    };
    let go = || -> Result<Answer, MErr> {
        let (a, b) = (load(&op.input)?, load(other)?);
        match (&a, &b) {
            (Input::Loaded { doc: x, .. }, Input::Loaded { doc: y, .. }) if same_json(x, y) => {}
            _ => return Ok(Answer::Must(false)),
        }
        let on = |i: Input| model_expand(&env, &Op { kind: Kind::Expand, input: i, opts: op.opts.clone() }).0;
        let (x, y) = (on(a)?, on(b)?);
        Ok(if canon::expanded(&x) != canon::expanded(&y) {
            Answer::Must(false)
        } else if canon::sorted(&canon::dedup(&x)) != canon::sorted(&canon::dedup(&y)) {
            Answer::Any
        } else if canon::sorted(&canon::dedup(&literals(&x))) != canon::sorted(&canon::dedup(&literals(&y))) {
            Answer::EqualUpToLiterals
        } else {
            Answer::Must(true)
        })
    };
    let r = go();
    match r {
        _ if env.fuel.get() == 0 => Answer::GaveUp,
        Ok(a) => a,
        Err(e) => Answer::Fails(e),
    }
}
/// JSON literals as written.
fn literals(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(literals).collect()),
        Value::Object(m) if m.get("@type").map(|t| t == "@json").unwrap_or(false) && m.contains_key("@value") => {
            let mut m = m.clone();
            m["@value"] = Value::String(m["@value"].to_string());
            Value::Object(m)
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), literals(x))).collect()),
        v => v.clone(),
    }
}
fn fits(a: &Answer, r: &Res) -> bool {
    match (a, r) {
        (Answer::GaveUp, _) => true,
        (Answer::Must(b), Res::Ok(g)) => *g == json!(b),
        (Answer::EqualUpToLiterals, Res::Ok(g)) => *g == json!(true),
        (Answer::Any, Res::Ok(_)) => true,
        (Answer::Fails(_), Res::Err { .. }) => true,
        _ => false,
    }
}

// --------------------------------------------------------------- generation

/// Another order of the entries and of the items.
fn shuffled(r: &mut Rng, v: &Value, p: u32) -> Value {
    let mix = |r: &mut Rng, n: usize| {
        let mut i: Vec<usize> = (0..n).collect();
        if r.pct(p) {
            for k in (1..n).rev() {
                i.swap(k, r.below(k + 1));
            }
        }
        i
    };
    match v {
        Value::Array(a) => {
            let a: Vec<Value> = a.iter().map(|x| shuffled(r, x, p)).collect();
            Value::Array(mix(r, a.len()).into_iter().map(|i| a[i].clone()).collect())
        }
        Value::Object(m) => {
            let e: Vec<(String, Value)> = m
                .iter()
                // Contexts in an array come in that order.
                .map(|(k, x)| (k.clone(), if k == "@context" { x.clone() } else { shuffled(r, x, p) }))
                .collect();
            Value::Object(mix(r, e.len()).into_iter().map(|i| e[i].clone()).collect())
        }
        v => v.clone(),
    }
}
/// One small change somewhere.
pub fn mutated(r: &mut Rng, v: &Value) -> Value {
    let mut ps = vec![];
    shrink::paths(v, &mut vec![], &mut ps);
    if ps.is_empty() {
        return json!({"http://ex.org/p": "changed"});
    }
    let p = r.pick(&ps).clone();
    let mut n = v.clone();
    match r.below(4) {
        0 => shrink::remove(v, &p).unwrap_or(n),
        1 => {
            if let Some(x) = shrink::at(&mut n, &p) {
                *x = json!([x.clone()]);
            }
            n
        }
        _ => {
            if let Some(x) = shrink::at(&mut n, &p) {
                *x = match x {
                    Value::String(s) if r.pct(50) => json!(format!("{s}2")),
                    Value::String(_) => r.pick(&[json!("a"), json!("v1"), json!("en"), json!("http://ex.org/p"), json!("ltr"), json!("foo")]).clone(),
                    Value::Bool(b) => json!(!*b),
                    Value::Number(_) => json!(77),
                    Value::Array(a) if !a.is_empty() => {
                        let x = r.pick(a).clone();
                        a.push(x);
                        Value::Array(a.clone())
                    }
                    _ => json!("changed"),
                };
            }
            n
        }
    }
}

struct C18;
impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let how = r.below(10);
        let s = scenario(r, 2, &|f| {
            if how >= 8 {
                f.relative = false;
            }
        });
        let mut c = Case { world: s.world.clone(), ..Default::default() };
        let mut o = op(r, &s, b"e");
        let a = s.docs[0].clone();
        let mut page = c.world[&a].clone();
        let mut b = "http://docs.org/base/other/b.jsonld".to_string();
        if r.pct(60) {
            // Next to the first one.
            b = format!("{}/b.jsonld", a.rsplit_once('/').unwrap().0);
            if let Some(f) = &page.final_url {
                page.final_url = Some(format!("{}/b.jsonld", f.rsplit_once('/').unwrap().0));
            }
        } else {
            page.final_url = None;
        }
        let doc = page.doc.clone();
        match how {
            0 => b = a.clone(),
            1 => {}
            2..=4 => page.doc = shuffled(r, &doc, 60),
            5 | 6 => {
                page.doc = mutated(r, &doc);
                if r.pct(50) {
                    page.doc = shuffled(r, &page.doc, 30);
                }
            }
            7 => {
                page.context_url = if r.pct(30) { None } else { Some(r.pick(&s.ctxs).clone()) };
                page.doc = shuffled(r, &doc, 20);
            }
            _ => {
                // The same reference leads to two contexts.
                let x = json!("here.jsonld");
                let k = json!({"@context": c.world[r.pick(&s.ctxs)].doc["@context"].clone()});
                let mut d = doc.clone();
                match &mut d {
                    Value::Object(m) => {
                        m.insert("@context".into(), x);
                    }
                    d => *d = json!({"@context": x, "@graph": d}),
                }
                let k2 = if r.pct(70) { mutated(r, &k) } else { k.clone() };
                for (u, k) in [("http://docs.org/one/", k), ("http://docs.org/two/", k2)] {
                    c.world.insert(format!("{u}here.jsonld"), Page { doc: k, final_url: None, context_url: None, no_url: false });
                }
                c.world.insert(a.clone(), Page { doc: d.clone(), final_url: Some("http://docs.org/one/d".into()), context_url: None, no_url: false });
                page = Page { doc: shuffled(r, &d, 20), final_url: Some("http://docs.org/two/d".into()), context_url: None, no_url: false };
            }
        }
        if b != a {
            c.world.insert(b.clone(), page);
        }
        let mut inp = |u: &str| if r.pct(65) { Input::Iri(u.to_string()) } else { loaded(&c.world, u) };
        o.input = inp(&a);
        o.kind = Kind::Compare(inp(&b));
        let v = vocab(r);
        c.clients = vec![client(vec![o.clone(), o.clone(), o], v)];
        schedule(r, &mut c);
        if r.pct(25) {
            let mut urls = s.ctxs.clone();
            urls.push(a);
            urls.push(b);
            let kind = if r.pct(50) { FaultKind::Slow(r.range(1, 3000) as u64) } else { some_fault(r) };
            c.faults.push(Fault { url: r.pick(&urls).clone(), task: None, step: None, from: 0, count: u32::MAX, kind });
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let mut case: Case = from_value(v)?;
        let mut vd = Verdict::default();
        let Some(Step { op, .. }) = case.clients.first().and_then(|c| c.steps.first()).cloned() else { return Ok(vd) };
        let Kind::Compare(other) = &op.kind else { return Ok(vd) };
        // The other way round, and with itself.
        let ops = [
            (op.clone(), other.clone()),
            (Op { kind: Kind::Compare(op.input.clone()), input: other.clone(), opts: op.opts.clone() }, op.input.clone()),
            (Op { kind: Kind::Compare(op.input.clone()), ..op.clone() }, op.input.clone()),
        ];
        case.clients[0].steps = ops.iter().map(|(o, _)| Step { op: o.clone(), cancel_at: None }).collect();
        let out = case::run(&case);
        vd.agg.add(&out);
        let c = &out.clients[0];
        for (k, (o, other)) in ops.iter().enumerate() {
            let Some(got) = step_res(c, k) else {
                if let o @ (Outcome::Panicked(_) | Outcome::Stuck) = &c.outcome {
                    return Ok(vd.fail(format!("not completed: {o:?}"), &out.log));
                }
                break;
            };
            let want = answer(&case, o, other, Order::Sorted);
            match (&want, got) {
                (Answer::GaveUp, _) => vd.agg.probe("model_gave_up"),
                (Answer::Must(true), Res::Ok(_)) if k < 2 && o.input != *other => {
                    vd.nontrivial = true;
                    vd.agg.probe("equal");
                }
                (Answer::Must(false), Res::Ok(_)) => {
                    vd.nontrivial = true;
                    vd.agg.probe("different");
                }
                (Answer::Fails(_), _) => vd.agg.probe("failing"),
                _ => vd.agg.probe("other"),
            }
            if fits(&want, got) || model::ORDERS.iter().any(|x| fits(&answer(&case, o, other, *x), got)) {
                continue;
            }
            // How strict the syntax of contexts is, is another matter.
            if matches!(got, Res::Err { msg, .. } if msg.contains("context syntax error")) {
                vd.agg.probe("malformed_context");
                continue;
            }
            let what = ["compared", "the other way round", "compared with itself"][k];
            let class = match (&want, got) {
                (Answer::EqualUpToLiterals, Res::Ok(_)) => "found different by the order of the entries of a JSON literal",
                (Answer::Must(true), Res::Ok(_)) => "found different",
                (Answer::Must(false), Res::Ok(_)) => "found equal",
                (Answer::Fails(_), _) => "accepted",
                _ => "refused",
            };
            return Ok(vd.fail(format!("{class}: {what}: {} but expected {want:?}", brief(got)), &out.log));
        }
        if let (Some(x), Some(y)) = (step_res(c, 0), step_res(c, 1)) {
            let literals = matches!(answer(&case, &op, other, Order::Sorted), Answer::EqualUpToLiterals);
            let ok = literals || match (x, y) {
                (Res::Ok(a), Res::Ok(b)) => a == b,
                (Res::Err { .. }, Res::Err { .. }) => true,
                _ => false,
            };
            if !ok {
                return Ok(vd.fail(format!("not symmetric: {} and {}", brief(x), brief(y)), &out.log));
            }
        }
        if let Some(Res::Ok(x)) = step_res(c, 2) {
            if *x != json!(true) {
                return Ok(vd.fail("not reflexive: a document differs from itself".into(), &out.log));
            }
        }
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "two distinct documents were compared and the model of the standard's expansion tells whether they are equal"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["expanded forms which differ by the case of language tags, repetitions or anonymous empty graphs only may compare either way"]
    }
}

//! C08: how inputs are delivered does not change the result.
use super::common::*;
use super::{Prop, Verdict};
use crate::case::{self, Case};
use crate::ops::{CtxIn, Input, Kind, Op, Res};
use crate::rng::Rng;
use serde_json::Value;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C08]
}

struct C08;

/// Does the text of a context depend on where it stands (apart from relative references)?
fn position_dependent(w: &crate::net::World, url: &str) -> bool {
    let t = w[url].doc["@context"].to_string();
    t.contains("@base") || t.contains("@import")
}
fn body(w: &crate::net::World, u: &str) -> Option<CtxIn> {
    let p = w.get(u)?;
    Some(CtxIn::Loaded { url: Some(p.final_url.clone().unwrap_or(u.into())), ctx: p.doc.get("@context")?.clone() })
}
/// A reference to the document itself (a context which refers to itself would
/// be followed when it is given by value).
fn closed(w: &crate::net::World, u: &str) -> bool {
    !w[u].doc.to_string().contains("jsonld")
}

type Variant = (&'static str, bool, Case);

fn variants(case: &Case) -> Vec<Variant> {
    let mut out: Vec<Variant> = vec![];
    let op = &case.clients[0].steps[0].op;
    let with = |f: &dyn Fn(&mut Case, &mut Op)| {
        let mut c = case.clone();
        let mut o = op.clone();
        f(&mut c, &mut o);
        c.clients[0].steps[0].op = o;
        c
    };
    if let Input::Iri(u) = &op.input {
        if case.world.contains_key(u) {
            out.push(("document by value", true, with(&|c, o| o.input = loaded(&c.world, u))));
        }
        if let (Some(p), None) = (case.world.get(u), &op.opts.expand_context) {
            if let Some(l) = &p.context_url {
                let swap = |c: &mut Case, o: &mut Op| {
                    c.world.get_mut(u).unwrap().context_url = None;
                    o.opts.expand_context = Some(CtxIn::Iri(l.clone()));
                };
                // the other input of a comparison would get the option as well
                if !matches!(op.kind, Kind::Compare(_)) {
                    out.push(("Link context as option", true, with(&swap)));
                }
            }
        }
    }
    if let Input::Loaded { url: Some(u), context_url, doc } = &op.input {
        // the base option also decides what compaction makes relative
        let relative_output = matches!(op.kind, Kind::Compact(_) | Kind::Flatten(Some(_)));
        if op.opts.base.is_none() && !relative_output && !matches!(op.kind, Kind::Compare(_) | Kind::IntoDocument) {
            out.push((
                "URL as base option",
                true,
                with(&|_, o| {
                    o.input = Input::Loaded { url: None, context_url: context_url.clone(), doc: doc.clone() };
                    o.opts.base = Some(u.clone());
                }),
            ));
        }
    }
    if let Some(CtxIn::Iri(u)) = &op.opts.expand_context {
        if case.world.contains_key(u) && !position_dependent(&case.world, u) && closed(&case.world, u) {
            if let Some(b) = body(&case.world, u) {
                out.push(("expansion context by value", false, with(&|_, o| o.opts.expand_context = Some(b.clone()))));
            }
        }
    }
    let target = match &op.kind {
        Kind::Compact(c) => Some(c.clone()),
        Kind::Flatten(Some(c)) => Some(c.clone()),
        _ => None,
    };
    if let Some(CtxIn::Iri(u)) = &target {
        if case.world.contains_key(u) && !position_dependent(&case.world, u) && closed(&case.world, u) {
            if let Some(b) = body(&case.world, u) {
                out.push((
                    "compaction context by value",
                    false,
                    with(&|_, o| {
                        o.kind = match &o.kind {
                            Kind::Compact(_) => Kind::Compact(b.clone()),
                            _ => Kind::Flatten(Some(b.clone())),
                        }
                    }),
                ));
            }
        }
    }
    // The contexts of the document written in place.
    let doc_url = match &op.input {
        // a comparison also looks at how documents are written; identical protected
        // definitions are those coming from the same place
        Input::Iri(u) if !matches!(op.kind, Kind::Compare(_)) && !to_value(&case.world).to_string().contains("@protected") => Some(u.clone()),
        _ => None,
    };
    if let Some(u) = doc_url {
        if let Some(d) = case.world.get(&u).and_then(|p| inline(&case.world, &p.doc)) {
            out.push(("context in place", false, with(&|c, _| c.world.get_mut(&u).unwrap().doc = d.clone())));
        }
    }
    if op.kind == Kind::Expand {
        out.push(("loaded as document", true, with(&|_, o| o.kind = Kind::IntoDocument)));
    }
    out
}

fn inline(w: &crate::net::World, doc: &Value) -> Option<Value> {
    let c = doc.get("@context")?;
    let items: Vec<Value> = match c {
        Value::Array(a) => a.clone(),
        v => vec![v.clone()],
    };
    let mut out = vec![];
    let mut any = false;
    for i in items {
        match &i {
            Value::String(u) if w.contains_key(u) => {
                if position_dependent(w, u) || !closed(w, u) {
                    return None;
                }
                let b = w[u].doc.get("@context")?.clone();
                if b.to_string().contains("@propagate") {
                    return None;
                }
                any = true;
                match b {
                    Value::Array(a) => out.extend(a),
                    b => out.push(b),
                }
            }
            Value::String(_) => return None,
            v => {
                // @propagate counts only in a context which is a single map
                if v.to_string().contains("@propagate") {
                    return None;
                }
                out.push(i)
            }
        }
    }
    if !any {
        return None;
    }
    let mut d = doc.clone();
    d["@context"] = if out.len() == 1 { out.pop().unwrap() } else { Value::Array(out) };
    Some(d)
}

fn without_context(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(k, _)| *k != "@context").map(|(k, v)| (k.clone(), v.clone())).collect()),
        v => v.clone(),
    }
}

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let rel = r.pct(25);
        let s = scenario(r, 2, &|f| {
            f.cyclic = false;
            f.relative &= rel;
            f.link_ctx = true;
            f.expand_ctx = true;
            f.nested_remote &= rel;
        });
        let mut c = Case { world: s.world.clone(), ..Default::default() };
        let mut o = op(r, &s, b"eeeccfrq");
        if r.pct(60) {
            // prefer references over values: the variants do the opposite
            if let Input::Loaded { .. } = o.input {
                o.input = Input::Iri(s.docs[0].clone());
            }
        }
        let v = vocab(r);
        c.clients = vec![client(vec![o], v)];
        schedule(r, &mut c);
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let mut vd = Verdict::default();
        let a = case::run(&case);
        vd.agg.add(&a);
        let kind = case.clients[0].steps[0].op.kind.clone();
        let Some(ra) = step_res(&a.clients[0], 0) else { return Ok(vd) };
        for (name, strict, c) in variants(&case) {
            let b = case::run(&c);
            vd.agg.add(&b);
            let Some(rb) = step_res(&b.clients[0], 0) else {
                return Ok(vd.fail(format!("different outcome: {name}: {:?} instead of {}", b.clients[0].outcome, brief(ra)), &b.log));
            };
            let ok = match (ra, rb) {
                (Res::Err { code: x, .. }, Res::Err { code: y, .. }) => !strict || x == y,
                (Res::Ok(x), Res::Ok(y)) => {
                    let y = if name == "loaded as document" { &y["expanded"] } else { y };
                    same_value(&kind, &without_context(x), &without_context(y))
                }
                _ => false,
            };
            if !ok {
                return Ok(vd.fail(format!("different result: {name}: {} instead of {}", brief(rb), brief(ra)), &b.log));
            }
            if matches!(ra, Res::Ok(_)) {
                vd.agg.probe(name);
                vd.nontrivial = true;
            }
        }
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "the operation succeeded and at least one other delivery of the same inputs applied"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["contexts with @base, @import or references are not written in place (their meaning depends on where they stand)",
          "@context entries of compacted documents are not compared: they repeat the given reference"]
    }
}

//! C28: expanded documents visited as linked data.
use super::common::*;
use super::{Prop, Verdict};
use crate::canon;
use crate::case::{self, Case};
use crate::model::rdf;
use crate::ops::{Kind, Res};
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C28]
}

/// Identifiers which RDF does not have, properties which it has not, either.
fn beyond_rdf(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(beyond_rdf),
        Value::Object(m) => m.iter().any(|(k, x)| {
            k.starts_with("_:")
                || match k.as_str() {
                    "@language" => x.as_str().map(|l| langtag::LangTag::new(l).is_err()).unwrap_or(true),
                    "@value" | "@index" | "@direction" => false,
                    "@id" | "@type" => {
                        let a = x.as_array().cloned().unwrap_or_else(|| vec![x.clone()]);
                        a.iter().any(|s| !(k == "@type" && s == "@json" && m.contains_key("@value")) && !s.as_str().map(valid).unwrap_or(false))
                    }
                    // What is no subject.
                    "@graph" => beyond_rdf(x) || x.as_array().into_iter().flatten().any(|o| !o.as_object().map(super::c26::is_node).unwrap_or(true)),
                    "@reverse" | "@included" | "@list" => beyond_rdf(x),
                    k => !valid(k) || beyond_rdf(x),
                }
        }),
        _ => false,
    }
}
fn valid(s: &str) -> bool {
    s.starts_with("_:") || iref::Iri::new(s).is_ok()
}

fn unindexed(v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().map(unindexed).collect(),
        Value::Object(m) if m.get("@type").map(|t| t == "@json").unwrap_or(false) => v.clone(),
        Value::Object(m) => {
            Value::Object(m.iter().filter(|(k, _)| *k != "@index").map(|(k, x)| (k.clone(), unindexed(x))).collect())
        }
        v => v.clone(),
    }
}
/// Numbers are told apart by their values only.
fn numeric(quads: &Value) -> Value {
    let mut quads = quads.clone();
    for q in quads.as_array_mut().into_iter().flatten() {
        let Some(t) = q[2]["t"].as_str().map(str::to_string) else { continue };
        let Some(xsd) = t.strip_prefix("http://www.w3.org/2001/XMLSchema#").or(Some("")) else { continue };
        if matches!(xsd, "string" | "boolean") {
            continue;
        }
        if let Some(f) = q[2]["v"].as_str().and_then(|v| v.parse::<f64>().ok()) {
            let f = if f == 0.0 { 0.0 } else { f };
            q[2]["v"] = json!(format!("{f:e}"));
            if !xsd.is_empty() {
                q[2]["t"] = json!("number");
            }
        }
    }
    quads
}

/// Statements up to anonymous nodes of which the same is said.
fn lean(quads: &Value) -> BTreeSet<String> {
    let quads = rdf::canon(quads);
    let quads = quads.as_array().unwrap();
    let blank = |t: &Value| t.as_str().filter(|s| s.starts_with("_:")).map(str::to_string);
    let mut colors: BTreeMap<String, String> = BTreeMap::new();
    let show = |q: &Value, this: &str, colors: &BTreeMap<String, String>| -> String {
        let mut q = q.clone();
        for t in q.as_array_mut().unwrap() {
            if let Some(b) = blank(t) {
                *t = match b == this {
                    true => json!("this"),
                    false => json!(format!("_:{}", colors.get(&b).map(String::as_str).unwrap_or(""))),
                };
            }
        }
        q.to_string()
    };
    for _ in 0..12 {
        let mut said: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for q in quads {
            for b in q.as_array().unwrap().iter().filter_map(blank) {
                let t = show(q, &b, &colors);
                said.entry(b).or_default().insert(t);
            }
        }
        colors = said
            .into_iter()
            .map(|(b, s)| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                s.hash(&mut h);
                (b, format!("{:x}", h.finish()))
            })
            .collect();
    }
    quads.iter().map(|q| show(q, "", &colors)).collect()
}

struct C28;
impl Prop for C28 {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let n = [1, 1, 2, 3][r.below(4)];
        let s = scenario(r, 2, &|f| f.junk = false);
        let mut c = Case { world: s.world.clone(), ..Default::default() };
        c.shared_gen = r.pct(70);
        for _ in 0..n {
            let mut ops = vec![];
            for _ in 0..1 + r.below(3) {
                let mut o = op(r, &s, b"e");
                if r.pct(60) {
                    let doc = Value::Array((0..1 + r.below(3)).map(|_| super::c26::node(r, 0)).collect());
                    o.opts.expand_context = None;
                    o.input = crate::ops::Input::Loaded { url: None, context_url: None, doc };
                }
                o.kind = Kind::Linked;
                ops.push(o);
            }
            let v = vocab(r);
            let mut k = client(ops, v);
            if n > 1 && r.pct(20) {
                let i = r.below(k.steps.len());
                k.steps[i].cancel_at = Some(1 + r.below(6) as u64);
            }
            c.clients.push(k);
        }
        schedule(r, &mut c);
        if r.pct(15) {
            let url = r.pick(&s.ctxs).clone();
            let k = some_fault(r);
            c.faults.push(fault(&url, k));
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let mut vd = Verdict::default();
        let out = case::run(&case);
        vd.agg.add(&out);
        for (i, c) in out.clients.iter().enumerate() {
            if let Some(b) = broken(c) {
                return Ok(vd.fail(b, &out.log));
            }
            for (k, _) in case.clients[i].steps.iter().enumerate() {
                let Some(Res::Ok(o)) = step_res(c, k) else { continue };
                let d = &o["doc"];
                if d.is_null() || beyond_rdf(&json!([{"@graph": d}])) {
                    vd.agg.probe("more_than_rdf");
                    continue;
                }
                let Ok(want) = rdf::to_rdf(d, None, false).map(|w| numeric(&w)) else { continue };
                let show = |what: &str, got: &Value| format!("{what}: {} became {}", cut(&d.to_string()), cut(&got.to_string()));
                if !o["quads"]["error"].is_null() || !canon::iso(&numeric(&o["quads"]), &want, &rdf::canon) {
                    return Ok(vd.fail(show("quads", &o["quads"]), &out.log));
                }
                // Documents and graphs are sets: equal anonymous nodes count once.
                let once = |d: &Value| rdf::to_rdf(&canon::dedup(&unindexed(d)), None, false).ok().map(|d| numeric(&d));
                let again = match o["again"]["error"].is_null() {
                    true => once(&o["again"]),
                    false => None,
                };
                let want = once(d).unwrap_or(want);
                if !again.map(|a| canon::iso(&a, &want, &rdf::canon) || lean(&a) == lean(&want)).unwrap_or(false) {
                    return Ok(vd.fail(show("document", &o["again"]), &out.log));
                }
                vd.agg.probe("visited");
                vd.nontrivial |= want != json!([]);
            }
        }
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "a document with statements was visited"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the model's conversion of expanded documents to RDF, which is that of the standard"]
    }
}

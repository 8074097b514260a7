//! C14 flattening, C15 blank node labels, C16 conversion to RDF.
use super::common::*;
use super::{Prop, Verdict};
use crate::canon;
use crate::case::{self, Case};
use crate::exec::Outcome;
use crate::gen::Feat;
use crate::model::{self, MErr};
use crate::net::{Fault, FaultKind};
use crate::ops::{Kind, Op, Res};
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C14, &C15, &C16]
}

/// Flattened documents up to what is not significant.
fn tidy(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(tidy).collect()),
        Value::Object(m) => {
            if m.get("@type").map(|t| t == "@json").unwrap_or(false) {
                return canon::exact(v);
            }
            let list = m.contains_key("@list");
            Value::Object(
                m.iter()
                    .filter(|(k, x)| {
                        // the standard drops the index of lists
                        !(list && *k == "@index") && !(*k == "@type" && **x == json!([]))
                    })
                    .map(|(k, x)| match (k.as_str(), x) {
                        ("@language", Value::String(s)) => (k.clone(), json!(s.to_lowercase())),
                        _ => (k.clone(), tidy(x)),
                    })
                    .collect(),
            )
        }
        v => v.clone(),
    }
}
pub fn same_flat(a: &Value, b: &Value) -> bool {
    canon::iso(&tidy(a), &tidy(b), &canon::sorted)
}
fn same_rdf(a: &Value, b: &Value) -> bool {
    canon::iso(a, b, &model::rdf::canon)
}

fn model_result(case: &Case, faults: &[Fault], op: &Op) -> (MOut, Result<Value, MErr>) {
    let m = model(&case.world, faults, op);
    let r = m.res.clone().map(|e| canon::dedup(&e)).and_then(|e| match &op.kind {
        Kind::ToRdf { direction, generalized } => model::rdf::to_rdf(&e, direction.as_deref(), *generalized),
        _ => model::flatten::flatten(&e),
    });
    (m, r)
}
fn agrees(op: &Op, got: &Value, want: &Value) -> bool {
    match &op.kind {
        Kind::ToRdf { .. } => same_rdf(got, want),
        _ => same_flat(got, want),
    }
}
fn labels(v: &Value) -> BTreeSet<String> {
    let mut l = BTreeSet::new();
    canon::labels(v, &mut l);
    l
}
/// Does a node have the same directional value twice for a property? The standard gives it a
/// single compound literal.
fn repeated_direction(e: &Value) -> bool {
    let Ok(a) = model::flatten::node_map(e, true) else { return false };
    let count = |v: &Value| {
        let mut n = 0;
        fn walk(v: &Value, n: &mut usize) {
            match v {
                Value::Array(a) => a.iter().for_each(|x| walk(x, n)),
                Value::Object(m) => {
                    if m.contains_key("@value") && m.contains_key("@direction") {
                        *n += 1;
                    }
                    m.values().for_each(|x| walk(x, n));
                }
                _ => {}
            }
        }
        walk(v, &mut n);
        n
    };
    let merged: usize = a.graphs.values().flat_map(|g| g.values()).map(|n| count(&Value::Object(n.clone()))).sum();
    merged != count(e)
}

fn judge(case: &Case, vd: &mut Verdict) -> Result<Option<Value>, (String, Vec<String>)> {
    let op = &case.clients[0].steps[0].op;
    let (m, want) = model_result(case, &case.faults, op);
    let out = case::run(case);
    vd.agg.add(&out);
    if m.out_of_fuel {
        vd.agg.probe("model_gave_up");
        return Ok(None);
    }
    let c = &out.clients[0];
    let show = |w: &Result<Value, MErr>| match w {
        Ok(v) => cut(&v.to_string()),
        Err(e) => format!("{e:?}"),
    };
    match (&want, step_res(c, 0)) {
        (w, None) => match &c.outcome {
            Outcome::Panicked(_) | Outcome::Stuck => {
                Err((format!("not completed: {:?}; expected {}", c.outcome, show(w)), out.log))
            }
            _ => Ok(None),
        },
        (Ok(w), Some(Res::Ok(g))) => {
            if matches!(&op.kind, Kind::ToRdf { direction: Some(d), .. } if d == "compound-literal")
                && repeated_direction(m.res.as_ref().unwrap())
            {
                vd.agg.probe("repeated_directional_values_skipped");
                return Ok(None);
            }
            if !agrees(op, g, w) {
                return Err((
                    format!("wrong result: {} but the standard gives {}", cut(&g.to_string()), cut(&w.to_string())),
                    out.log,
                ));
            }
            vd.agg.probe("agreed_on_result");
            Ok(Some(g.clone()))
        }
        (Err(_), Some(Res::Err { .. })) => {
            vd.agg.probe("agreed_on_failure");
            if matches!(&want, Err(e) if e.code == "conflicting indexes") {
                vd.agg.probe("conflicting_indexes");
            }
            Ok(None)
        }
        (Ok(_), Some(r)) => Err((format!("refused: {} but the standard gives {}", brief(r), show(&want)), out.log)),
        (Err(e), Some(r)) => Err((format!("accepted: {} but the standard gives {e:?}", brief(r)), out.log)),
    }
}

fn one(r: &mut Rng, kind: u8, tweak: &dyn Fn(&mut Feat)) -> Case {
    let s = scenario(r, 1, tweak);
    let mut c = Case { world: s.world.clone(), ..Default::default() };
    let mut o = op(r, &s, &[kind]);
    if let Kind::Flatten(x) = &mut o.kind {
        *x = None;
    }
    let v = vocab(r);
    c.clients = vec![client(vec![o], v)];
    schedule(r, &mut c);
    if r.pct(15) {
        let url = r.pick(&s.ctxs).clone();
        c.faults.push(Fault { url, task: None, step: None, from: 0, count: u32::MAX, kind: FaultKind::Slow(r.range(1, 3000) as u64) });
    }
    c
}

// ------------------------------------------------------------------------ C14
struct C14;
impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let (a, b, d) = (r.pct(70), r.pct(70), r.pct(60));
        to_value(&one(r, b'f', &|f| {
            f.graphs |= a;
            f.reverse |= b;
            f.included |= d;
            f.blank |= a;
            f.lists |= b;
            f.containers |= d;
            f.protected = false;
        }))
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let mut vd = Verdict::default();
        match judge(&case, &mut vd) {
            Err((d, log)) => Ok(vd.fail(d, &log)),
            Ok(Some(g)) => {
                let t = g.to_string();
                vd.nontrivial = g.as_array().map(|a| a.len() > 1).unwrap_or(false);
                for (k, p) in [("@graph", "named_graphs"), ("_:", "blank_nodes"), ("@list", "lists"), ("@index", "indexes")] {
                    if t.contains(k) {
                        vd.agg.probe(p);
                    }
                }
                Ok(vd)
            }
            Ok(None) => Ok(vd),
        }
    }
    fn rule(&self) -> &'static str {
        "the flattened document has several nodes"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["results are compared with the reference model up to blank node renaming and the order of unordered values",
          "the index of a list object may be kept or dropped",
          "sets of the expanded document hold an anonymous object once: copies of it state the same"]
    }
}

// ------------------------------------------------------------------------ C15
struct C15;
impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let s = scenario(r, 3, &|f| {
            f.blank = true;
            f.protected = false;
        });
        let mut c = Case { world: s.world.clone(), shared_gen: r.pct(70), ..Default::default() };
        // Labels of documents may look like those of the generator.
        if r.pct(60) {
            for d in &s.docs {
                let p = c.world.get_mut(d).unwrap();
                p.doc = canon::relabel(&p.doc, &|l| l.replace("_:b", "_:g").replace("_:p", "_:g"));
            }
        }
        let s = Scn { world: c.world.clone(), ..s };
        for _ in 0..r.range(1, 3) {
            let mut ops = vec![];
            for _ in 0..r.range(1, 4) {
                let mut o = op(r, &s, b"ffrr");
                if let Kind::Flatten(x) = &mut o.kind {
                    *x = None;
                }
                ops.push(o);
            }
            let v = vocab(r);
            let mut cl = client(ops, v);
            for st in &mut cl.steps {
                if r.pct(20) {
                    st.cancel_at = Some(r.range(1, 8) as u64);
                }
            }
            cl.start_at = r.below(20) as u64;
            c.clients.push(cl);
        }
        schedule(r, &mut c);
        let urls: Vec<String> = c.world.keys().cloned().collect();
        if r.pct(50) {
            let url = r.pick(&urls).clone();
            let mut f = fault(&url, some_fault(r));
            f.task = Some(r.below(c.clients.len()));
            f.step = Some(r.below(2));
            c.faults.push(f);
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let out = case::run(&case);
        let mut vd = Verdict::default();
        vd.agg.add(&out);
        let mut owner: BTreeMap<String, (usize, usize)> = BTreeMap::new();
        let mut with_labels = 0;
        for (i, c) in out.clients.iter().enumerate() {
            if let Some(d) = broken(c) {
                return Ok(vd.fail(d, &out.log));
            }
            for (k, st) in case.clients[i].steps.iter().enumerate() {
                let Some(Res::Ok(g)) = step_res(c, k) else { continue };
                let used = labels(g);
                let issued: BTreeSet<&String> = c.issued[k].iter().collect();
                if issued.len() < c.issued[k].len() {
                    return Err("the harness generator repeated itself".into());
                }
                for l in &used {
                    if !issued.contains(l) {
                        return Ok(vd.fail(
                            format!("foreign label: {l} in the result of client {i} step {k} was not issued by the generator during it: {}", cut(&g.to_string())),
                            &out.log,
                        ));
                    }
                    if case.shared_gen {
                        if let Some(o) = owner.insert(l.clone(), (i, k)) {
                            if o != (i, k) {
                                return Ok(vd.fail(
                                    format!("shared label: {l} is used by client {} step {} and by client {i} step {k}", o.0, o.1),
                                    &out.log,
                                ));
                            }
                        }
                    }
                }
                if !used.is_empty() {
                    with_labels += 1;
                    vd.agg.probe("results_with_labels");
                }
                // Same nodes, distinct labels.
                let (m, want) = model_result(&case, &[], &st.op);
                if m.out_of_fuel {
                    continue;
                }
                let Ok(w) = want else { continue };
                if matches!(&st.op.kind, Kind::ToRdf { direction: Some(d), .. } if d == "compound-literal")
                    && repeated_direction(m.res.as_ref().unwrap())
                {
                    continue;
                }
                let n = labels(&w).len();
                if n != used.len() {
                    return Ok(vd.fail(
                        format!("wrong number of blank nodes: {} labels for {n} blank nodes in {} (client {i} step {k})", used.len(), cut(&g.to_string())),
                        &out.log,
                    ));
                }
                if !agrees(&st.op, g, &w) {
                    return Ok(vd.fail(
                        format!("wrong nodes: {} but the standard gives {} (client {i} step {k})", cut(&g.to_string()), cut(&w.to_string())),
                        &out.log,
                    ));
                }
                vd.agg.probe("labelling_checked");
            }
        }
        vd.nontrivial = with_labels >= 2;
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "at least two results of the history contain blank nodes"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the generator never issues the same label twice",
          "two results are compared with the reference model up to a bijection between labels"]
    }
}

// ------------------------------------------------------------------------ C16
struct C16;
impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let (a, b, d) = (r.pct(70), r.pct(70), r.pct(60));
        to_value(&one(r, b'r', &|f| {
            f.direction |= a;
            f.lists |= b;
            f.nums |= d;
            f.json_lit |= d;
            f.blank |= a;
            f.graphs |= b;
            f.protected = false;
        }))
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let mut vd = Verdict::default();
        match judge(&case, &mut vd) {
            Err((d, log)) => Ok(vd.fail(d, &log)),
            Ok(Some(g)) => {
                vd.nontrivial = g.as_array().map(|a| !a.is_empty()).unwrap_or(false);
                let t = g.to_string();
                for (k, p) in [
                    ("#first", "lists"),
                    ("ns#JSON", "json_literals"),
                    ("#direction", "compound_literals"),
                    ("ns/i18n#", "i18n_datatypes"),
                    ("\"l\":", "language_tags"),
                    ("#double", "doubles"),
                ] {
                    if t.contains(k) {
                        vd.agg.probe(p);
                    }
                }
                if g.as_array().unwrap().iter().any(|q| !q[3].is_null()) {
                    vd.agg.probe("named_graphs");
                }
                if g.as_array().unwrap().iter().any(|q| q[1].as_str().unwrap_or("").starts_with("_:")) {
                    vd.agg.probe("generalized_triples");
                }
                Ok(vd)
            }
            Ok(None) => Ok(vd),
        }
    }
    fn rule(&self) -> &'static str {
        "the dataset is not empty"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["datasets are compared up to blank node renaming; JSON literals are compared as JSON values; language tags are case insensitive",
          "documents in which a property of a node has the same directional value twice are skipped with compound literals"]
    }
}

//! Properties judged against the reference model of expansion: C03, C05, C06,
//! C07, C22, C23.
use super::common::*;
use super::{Prop, Verdict};
use crate::canon;
use crate::case::{self, Case};
use crate::exec::Outcome;
use crate::gen::Feat;
use crate::net::{Fault, FaultKind, Page};
use crate::ops::{Kind, Res};
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C03, &C05, &C06, &C07, &C22, &C23]
}

pub(super) fn one_op(r: &mut Rng, kinds: &[u8], tweak: &dyn Fn(&mut Feat)) -> (Case, Scn) {
    let s = scenario(r, 1, tweak);
    let mut c = Case { world: s.world.clone(), ..Default::default() };
    let o = op(r, &s, kinds);
    let v = vocab(r);
    c.clients = vec![client(vec![o], v)];
    schedule(r, &mut c);
    if r.pct(15) {
        let url = r.pick(&s.ctxs).clone();
        c.faults.push(Fault { url, task: None, step: None, from: 0, count: u32::MAX, kind: FaultKind::Slow(r.range(1, 3000) as u64) });
    }
    (c, s)
}

pub struct Judged {
    pub vd: Verdict,
    pub out: case::RunOut,
    pub m: MOut,
}
/// Runs a single operation and compares it with the model.
/// `Err` carries the finished verdict of a violation.
pub fn judge(case: &Case) -> Result<Judged, Verdict> {
    judge_with(case, false)
}
/// `strict_parser`: entries the standard ignores where they are found (`@base` in a remote
/// context, `@version` in an imported one) may still be refused when they are malformed.
pub fn judge_with(case: &Case, strict_parser: bool) -> Result<Judged, Verdict> {
    let mut vd = Verdict::default();
    let op = &case.clients[0].steps[0].op;
    let m = model(&case.world, &case.faults, op);
    let out = case::run(case);
    vd.agg.add(&out);
    if m.out_of_fuel {
        vd.agg.probe("model_gave_up");
        return Ok(Judged { vd, out, m });
    }
    let c = &out.clients[0];
    match (&m.res, step_res(c, 0)) {
        (_, None) => {
            // reported by the properties about crashes
            if let Outcome::Panicked(_) | Outcome::Stuck = c.outcome {
                let d = format!("not completed: {:?}; expected {}", c.outcome, show(&m));
                return Err(vd.fail(d, &out.log));
            }
        }
        (Ok(e), Some(Res::Ok(r))) => {
            let r = if op.kind == Kind::IntoDocument { &r["expanded"] } else { r };
            if canon::expanded(r) != canon::expanded(e) {
                let d = format!("wrong result: {} but the standard gives {}", cut(&r.to_string()), cut(&e.to_string()));
                return Err(vd.fail(d, &out.log));
            }
            vd.agg.probe("agreed_on_result");
        }
        (Err(e), Some(Res::Err { code, .. })) => {
            vd.agg.probe("agreed_on_failure");
            if e.code == code {
                vd.agg.probe("agreed_on_code");
            }
        }
        (Ok(_), Some(Res::Err { .. })) if strict_parser => vd.agg.probe("refused_by_the_parser_only"),
        (Ok(_), Some(r @ Res::Err { .. })) => {
            let d = format!("refused: {} but the standard gives {}", brief(r), show(&m));
            return Err(vd.fail(d, &out.log));
        }
        (Err(_), Some(r @ Res::Ok(_))) => {
            let d = format!("accepted: {} but the standard gives {}", brief(r), show(&m));
            return Err(vd.fail(d, &out.log));
        }
    }
    Ok(Judged { vd, out, m })
}
fn show(m: &MOut) -> String {
    match &m.res {
        Ok(v) => cut(&v.to_string()),
        Err(e) => format!("{e:?}"),
    }
}
fn has_nodes(v: &Value) -> bool {
    v.as_array().map(|a| !a.is_empty()).unwrap_or(false)
}

// ------------------------------------------------------------------------ C03
struct C03;
impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        to_value(&one_op(r, b"eeei", &|_| {}).0)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        Ok(match judge(&case) {
            Err(vd) => vd,
            Ok(mut j) => {
                j.vd.nontrivial = matches!(&j.m.res, Ok(v) if has_nodes(v)) && j.out.clients[0].reqs[0].iter().any(|r| r.ok);
                j.vd
            }
        })
    }
    fn rule(&self) -> &'static str {
        "the expansion made at least one request and its result is not empty"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the oracle is an independent sequential model of the JSON-LD 1.1 context processing and expansion algorithms",
          "results are compared up to the order of the values of a property; when both fail, the codes may differ (C23 decides them)"]
    }
    fn quick_secs(&self) -> u64 {
        22
    }
}

// ------------------------------------------------------------------------ C05
struct C05;
impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let (mut c, s) = one_op(r, b"eeeiccfrq", &|f| {
            f.nested_remote = true;
        });
        // Everything else a document mentions can be retrieved as well.
        let page = |n: &str| Page { doc: json!({"@context": {"trap": "http://trap.org/"}, "@id": n}), ..Page::default() };
        for ns in crate::gen::NS {
            for l in crate::gen::LOCAL {
                let u = format!("{ns}{l}");
                c.world.insert(u.clone(), page(&u));
            }
            c.world.insert(ns.to_string(), page(ns));
        }
        for i in 0..8 {
            let u = format!("http://n.org/n{i}");
            c.world.insert(u.clone(), page(&u));
        }
        for u in ["http://ex.org/Type", "http://ex.org/dt", "http://base.org/x/y", "http://base-opt.org/dir/x", "http://www.w3.org/2001/XMLSchema#integer"] {
            c.world.insert(u.into(), page(u));
        }
        if r.pct(15) {
            // a document without any remote reference
            let d = &s.docs[0];
            let mut p = s.world[d].clone();
            p.context_url = None;
            p.doc = strip(&p.doc);
            c.world.insert(d.clone(), p);
            c.clients[0].steps[0].op.input = loaded(&c.world, d);
            c.clients[0].steps[0].op.opts.expand_context = None;
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let op = &case.clients[0].steps[0].op;
        let out = case::run(&case);
        let mut vd = Verdict::default();
        vd.agg.add(&out);
        // What is requested before an error, and by a compaction, depends on the order of entries.
        let mut wants = vec![];
        for o in crate::model::ORDERS {
            for t in [false, true] {
                let (res, loads, sure) = super::c17::loads_of(&case, op, o, t);
                if !sure {
                    vd.agg.probe("model_gave_up");
                    return Ok(vd);
                }
                wants.push((res, loads));
                if !matches!(op.kind, Kind::Compact(_) | Kind::Flatten(Some(_))) {
                    break;
                }
            }
            if wants.iter().all(|w| w.0.is_ok()) && !matches!(op.kind, Kind::Compact(_) | Kind::Flatten(Some(_))) {
                break;
            }
        }
        let made: Vec<&String> = out.clients[0].reqs[0].iter().map(|r| &r.url).collect();
        // Never anything which is not a document or context of the web.
        let web = |u: &str| u.starts_with("http://c0.org/") || u.starts_with("http://c1.org/") || u.starts_with("http://docs.org/");
        if let Some(u) = made.iter().find(|u| !web(u) && !wants.iter().any(|w| w.1.contains(u))) {
            return Ok(vd.fail(format!("needless request: {u}"), &out.log));
        }
        if let (true, Some(Res::Ok(_))) = (wants.iter().any(|w| w.0.is_ok()), step_res(&out.clients[0], 0)) {
            // Documents whose entries differ need no expansion to be told apart.
            let unlike = matches!((&op.kind, step_res(&out.clients[0], 0)), (Kind::Compare(_), Some(Res::Ok(Value::Bool(false)))));
            let mut why = None;
            for (_, want) in wants.iter().filter(|w| w.0.is_ok()) {
                let count = |l: &mut dyn Iterator<Item = &String>, u: &str| l.filter(|x| *x == u).count();
                let bad = if let Some(u) = made.iter().find(|u| !want.contains(u)) {
                    format!("needless request: {u}; needed {want:?}")
                } else if let (Some(u), false) = (want.iter().find(|u| !made.contains(u)), unlike) {
                    format!("missing request: {u}; made {made:?}")
                } else if let Some(u) = made.iter().find(|u| {
                    // Nor more often than the algorithms dereference it without remembering anything.
                    count(&mut made.iter().copied(), u) > count(&mut want.iter(), u)
                }) {
                    let (n, m) = (count(&mut made.iter().copied(), u), count(&mut want.iter(), u));
                    format!("{u} requested {n} times; needed {m} times at most")
                } else {
                    vd.agg.probe("footprints_equal");
                    vd.agg.probe(match op.kind {
                        Kind::Compact(_) | Kind::Flatten(Some(_)) => "footprints_of_compactions",
                        Kind::Compare(_) => "footprints_of_comparisons",
                        _ => "footprints_of_expansions",
                    });
                    let distinct: BTreeSet<&String> = want.iter().collect();
                    vd.nontrivial = distinct.len() >= 2;
                    if want.is_empty() {
                        vd.agg.probe("no_request_needed");
                    }
                    return Ok(vd);
                };
                why.get_or_insert(bad);
            }
            return Ok(vd.fail(why.unwrap(), &out.log));
        }
        if let Some(Res::Err { .. }) = step_res(&out.clients[0], 0) {
            vd.agg.probe("failed_footprints");
        }
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "the operation succeeded and needed at least two documents"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["needed documents are those the reference model loads; a document may be remembered, but is not requested more often than the model does",
          "identifiers, types and properties used by documents are also served, so that dereferencing them would succeed"]
    }
}
fn strip(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(
            m.iter()
                .filter(|(k, _)| *k != "@import")
                .map(|(k, x)| (k.clone(), if k == "@context" { strip_ctx(x) } else { strip(x) }))
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        v => v.clone(),
    }
}
fn strip_ctx(v: &Value) -> Value {
    match v {
        Value::String(_) => json!({"@vocab": "http://ex.org/"}),
        Value::Array(a) => Value::Array(a.iter().map(strip_ctx).collect()),
        v => strip(v),
    }
}

// ------------------------------------------------------------------------ C06
struct C06;
impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let (mut c, s) = one_op(r, b"eeicfr", &|f| {
            f.cyclic = true;
            f.nested_remote = true;
            f.protected = false;
        });
        // More edges, to make sure there are cycles.
        for u in &s.ctxs {
            if r.pct(60) {
                let to = r.pick(&s.ctxs).clone();
                let p = c.world.get_mut(u).unwrap();
                let old = p.doc["@context"].clone();
                let at = p.final_url.clone().unwrap_or(u.clone());
                let to = if r.pct(50) { crate::gen::relative(&at, &to) } else { to };
                p.doc["@context"] = match r.below(4) {
                    0 => json!([to, old]),
                    1 => json!([old, to]),
                    2 => json!({"@vocab": "http://ex.org/", "T": {"@id": "http://ex.org/T", "@context": to}}),
                    _ => json!({"@vocab": "http://ex.org/", "a": {"@id": "http://ex.org/a", "@context": [to, {"b": "http://ex.org/b2"}]}}),
                };
            }
        }
        for u in &s.imports {
            if r.pct(20) {
                let to = s.imports[r.below(s.imports.len())].clone();
                c.world.get_mut(u).unwrap().doc["@context"]["@import"] = json!(to);
            }
            // Imported contexts whose scoped contexts import or include others.
            if r.pct(60) {
                let sub = if r.pct(70) {
                    let mut d = json!({"@import": r.pick(&s.imports).clone()});
                    if r.pct(40) {
                        d["b"] = json!("http://ex.org/b3");
                    }
                    if r.pct(20) {
                        d["sp"] = json!({"@id": "http://ex.org/s", "@context": {"@import": r.pick(&s.imports).clone()}});
                    }
                    if r.pct(30) { json!([r.pick(&s.ctxs).clone(), d]) } else { d }
                } else {
                    json!(r.pick(&s.ctxs).clone())
                };
                let t = *r.pick(&["a", "sp", "T", "b"]);
                c.world.get_mut(u).unwrap().doc["@context"][t] = json!({"@id": format!("http://ex.org/{}", t.to_lowercase()), "@context": sub});
            }
        }
        if !s.imports.is_empty() && r.pct(50) {
            let u = r.pick(&s.ctxs).clone();
            let i = r.pick(&s.imports).clone();
            c.world.get_mut(&u).unwrap().doc["@context"] = if r.pct(50) {
                json!({"@import": i, "@vocab": "http://ex.org/"})
            } else {
                json!({"@vocab": "http://ex.org/", "T": {"@id": "http://ex.org/T", "@context": {"@import": i}}})
            };
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let op = &case.clients[0].steps[0].op;
        let m = model(&case.world, &case.faults, op);
        let mut vd = Verdict::default();
        if m.out_of_fuel || m.loads.len() > 600 {
            vd.agg.probe("too_large");
            return Ok(vd);
        }
        let out = case::run(&case);
        vd.agg.add(&out);
        let made = out.clients[0].reqs[0].len();
        let repeated = m.loads.iter().collect::<BTreeSet<_>>().len() < m.loads.len();
        if repeated {
            vd.agg.probe("documents_met_again");
        }
        vd.nontrivial = repeated;
        if let Some(d) = broken(&out.clients[0]) {
            return Ok(vd.fail(d, &out.log));
        }
        // A mistake ends the expansion: what is requested before depends on the order of the entries.
        let bound = 3 * m.loads.len() + 20;
        let mut most = m.loads.len();
        if out.capped || made > bound {
            for o in crate::model::ORDERS {
                let m = model_in(&case.world, &case.faults, op, o);
                if m.out_of_fuel || m.loads.len() > 600 {
                    vd.agg.probe("too_large");
                    return Ok(vd);
                }
                most = most.max(m.loads.len());
            }
        }
        if out.capped {
            return Ok(vd.fail(format!("endless requests: more than {made} requests, the standard needs {}", most), &out.log));
        }
        if matches!(op.kind, Kind::Expand | Kind::IntoDocument) {
            if made > 3 * most + 20 {
                return Ok(vd.fail(format!("too many requests: {made} requests, the standard needs {}", most), &out.log));
            }
            if let Err(v) = judge(&case) {
                return Ok(v);
            }
            vd.agg.probe("judged");
        }
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "the same document is met at least twice while processing (cycles or shared inclusions)"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["webs on which the model itself needs more than 600 loads are skipped",
          "a context met again while it is being processed is not followed, as the pinned code does"]
    }
}

// ------------------------------------------------------------------------ C07
struct C07;
impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let p = r.pct(50);
        let (mut c, s) = one_op(r, b"eeei", &|f| {
            f.protected = true;
            f.array_ctx = true;
            f.null_ctx |= p;
            f.type_scoped |= !p;
            f.scoped |= p;
            f.alias = false;
            f.cyclic = false;
        });
        // A web where protected definitions meet later definitions.
        let protect = |r: &mut Rng, v: &mut Value| {
            if let Value::Object(m) = v {
                if r.pct(60) {
                    m.insert("@protected".into(), json!(true));
                } else {
                    for (k, d) in m.iter_mut() {
                        if let (false, Value::Object(o)) = (k.starts_with('@'), d) {
                            if r.pct(50) {
                                o.insert("@protected".into(), json!(true));
                            }
                        }
                    }
                }
            }
        };
        for u in s.ctxs.iter().chain(&s.imports) {
            if r.pct(35) {
                let p = c.world.get_mut(u).unwrap();
                match &mut p.doc["@context"] {
                    Value::Array(a) => a.iter_mut().for_each(|x| protect(r, x)),
                    x => protect(r, x),
                }
            }
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        Ok(match judge(&case) {
            Err(vd) => vd,
            Ok(mut j) => {
                if j.m.out_of_fuel {
                    return Ok(j.vd);
                }
                let txt = to_value(&case.world).to_string();
                let has = txt.contains("\"@protected\":true");
                match (&j.m.res, step_res(&j.out.clients[0], 0)) {
                    (Ok(_), _) if has => {
                        j.vd.agg.probe("kept_its_meaning");
                        j.vd.nontrivial = true;
                    }
                    (Err(e), Some(Res::Err { code, .. })) => {
                        let prot = ["protected term redefinition", "invalid context nullification"];
                        if prot.contains(&e.code) {
                            j.vd.nontrivial = true;
                            j.vd.agg.probe(e.code);
                            // Which of several mistakes is met first depends on the order of the
                            // entries; C23 decides the codes of single ones.
                            if code == e.code {
                                j.vd.agg.probe("for_the_same_reason");
                            }
                        }
                    }
                    _ => {}
                }
                j.vd
            }
        })
    }
    fn rule(&self) -> &'static str {
        "the web has a protected definition and the operation succeeded, or failed because of one"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the oracle is the reference model; when a context has several errors either may be reported"]
    }
}
// ------------------------------------------------------------------------ C22
struct C22;
impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let dense = r.pct(50);
        let (mut c, s) = one_op(r, b"eeei", &|f| {
            f.relative = true;
            f.redirect = true;
            f.base = true;
            f.scoped |= dense;
            f.scoped_remote |= dense;
            f.import |= !dense;
            f.nested_remote = true;
            f.protected = false;
        });
        // Relative identifiers everywhere.
        let d = s.docs[0].clone();
        let p = c.world.get_mut(&d).unwrap();
        relativize(r, &mut p.doc, 0);
        // When the document came as a loaded value it is a copy.
        if let crate::ops::Input::Loaded { doc, .. } = &mut c.clients[0].steps[0].op.input {
            *doc = c.world[&d].doc.clone();
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        Ok(match judge(&case) {
            Err(vd) => vd,
            Ok(mut j) => {
                let op = &case.clients[0].steps[0].op;
                if let Ok(e) = &j.m.res {
                    let t = e.to_string();
                    j.vd.nontrivial = has_nodes(e)
                        && (t.contains("docs.org") || t.contains("moved.org") || t.contains("base-opt.org") || t.contains("base.org/"));
                    for (k, s) in [("against_final_url", "moved.org"), ("against_url", "docs.org"), ("against_option", "base-opt.org"), ("against_@base", "//base.org")] {
                        if t.contains(s) {
                            j.vd.agg.probe(k);
                        }
                    }
                    if let (Kind::IntoDocument, Some(Res::Ok(r))) = (&op.kind, step_res(&j.out.clients[0], 0)) {
                        if r["url"] != json!(j.m.url) {
                            let d = format!("wrong document URL: {} instead of {:?}", r["url"], j.m.url);
                            return Ok(j.vd.fail(d, &j.out.log));
                        }
                    }
                }
                j.vd
            }
        })
    }
    fn rule(&self) -> &'static str {
        "the result has an identifier obtained by resolving a reference of the document"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["reference resolution itself is delegated to the iref crate in both the code and the model"]
    }
}
fn relativize(r: &mut Rng, v: &mut Value, depth: usize) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| relativize(r, x, depth)),
        Value::Object(m) => {
            if m.contains_key("@value") || m.contains_key("@list") || m.contains_key("@set") {
                return;
            }
            if let Some(Value::String(s)) = m.get_mut("@id") {
                if r.pct(60) && !s.starts_with("_:") {
                    *s = ["rel", "../up", "#f", "/abs", "?q", "a/b", "./c", "//h.org/d"][r.below(8)].to_string();
                }
            } else if depth == 0 && !m.contains_key("@graph") && !m.contains_key("kid") && r.pct(60) {
                m.insert("@id".into(), json!("self"));
            }
            for (k, x) in m.iter_mut() {
                if !["@context", "@value", "@type", "@id", "js", "grid", "idm", "@reverse", "rev", "langm"].contains(&k.as_str()) {
                    relativize(r, x, depth + 1);
                }
            }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------------ C23
/// Violations of a term definition or of a context: (key, value, found by the
/// parser of contexts). The code is the model's.
fn context_violations() -> Vec<(&'static str, Value, bool)> {
    let z = |v: Value| v;
    vec![
        // semantic
        ("zz", json!({"@id": "@context"}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@container": ["@list", "@set"]}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@container": ["@graph", "@id", "@index"]}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@container": ["@list", "@index"]}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@container": ["@language", "@index"]}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@container": ["@id", "@type"]}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@container": "@type", "@type": "http://ex.org/dt"}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@type": "_:b"}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@type": "@list"}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@type": "@value"}), false),
        ("zz", json!({"@reverse": "http://ex.org/zz", "@id": "http://ex.org/zz"}), false),
        ("zz", json!({"@reverse": "http://ex.org/zz", "@nest": "@nest"}), false),
        ("zz", json!({"@reverse": "http://ex.org/zz", "@container": "@list"}), false),
        ("zz", json!({"@reverse": "http://ex.org/zz", "@container": "@language"}), false),
        ("zz", json!({"@reverse": "@type"}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@index": "http://ex.org/i"}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@container": "@index", "@index": "@type"}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@container": "@set", "@index": "http://ex.org/i"}), false),
        ("zz:y", json!({"@id": "http://ex.org/other"}), false),
        ("zz:y", json!({"@id": "zz:y", "@prefix": true}), false),
        ("zz/y", json!({"@id": "http://ex.org/other"}), false),
        ("zz", json!({"@id": "@type", "@prefix": true}), false),
        ("zz", json!({"@id": "zz:x"}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@type": "zz"}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@context": {"yy": {"@id": "yy:x"}}}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@context": {"yy": {"@id": "@context"}}}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@context": [{"yy": {"@id": "http://ex.org/yy", "@container": ["@list", "@set"]}}]}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@context": "http://c9.org/nowhere.jsonld"}), false),
        ("zz", json!({"@id": "http://ex.org/zz", "@context": {"@import": "http://c9.org/nowhere.jsonld"}}), false),
        ("@type", json!({"@container": "@set", "@id": "http://ex.org/zz"}), true),
        ("@type", json!({"@container": "@list"}), true),
        ("@type", json!("http://ex.org/zz"), true),
        // of the parser
        ("zz", json!(5), true),
        ("zz", json!(true), true),
        ("zz", json!(["http://ex.org/zz"]), true),
        ("zz", json!({"@id": 5}), true),
        ("zz", json!({"@id": ["http://ex.org/zz"]}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@type": 5}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@container": "@value"}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@container": 5}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@language": 5}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@direction": "up"}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@nest": "@id"}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@nest": 5}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@prefix": "yes"}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@protected": "yes"}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@index": 5, "@container": "@index"}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@value": "x"}), true),
        ("zz", json!({"@id": "http://ex.org/zz", "@context": 5}), true),
        ("zz", json!({"@reverse": 5}), true),
        ("@version", json!(1.0), true),
        ("@version", json!("1.1"), true),
        ("@base", json!(5), true),
        ("@vocab", json!(5), true),
        ("@vocab", json!("a b"), false),
        ("@language", json!(5), true),
        ("@direction", json!("up"), true),
        ("@propagate", json!("no"), true),
        ("@protected", json!("no"), true),
        ("@import", json!(5), true),
        ("@import", json!("http://c9.org/nowhere.jsonld"), false),
        ("@import", json!("http://c9.org/array.jsonld"), false),
        ("@import", json!("http://c9.org/import.jsonld"), false),
        ("@import", json!("http://c9.org/none.jsonld"), false),
        ("zz", z(json!({"@id": ""})), false),
        ("", json!("http://ex.org/zz"), false),
    ]
}
fn value_violations() -> Vec<Value> {
    vec![
        json!({"@id": 5}),
        json!({"@id": ["http://n.org/n"]}),
        json!({"@type": 5}),
        json!({"@type": [5]}),
        json!({"@type": {"a": "b"}}),
        json!({"@value": {"a": 1}}),
        json!({"@value": ["a"]}),
        json!({"@value": "a", "@language": 5}),
        json!({"@value": 5, "@language": "en"}),
        json!({"@value": "a", "@type": "_:b"}),
        json!({"@value": "a", "@type": ["http://ex.org/dt"]}),
        json!({"@value": "a", "@type": "@id"}),
        json!({"@value": "a", "@type": "http://ex.org/dt", "@language": "en"}),
        json!({"@value": "a", "@type": "http://ex.org/dt", "@direction": "ltr"}),
        json!({"@value": "a", "http://ex.org/x": "b"}),
        json!({"@value": "a", "@id": "http://n.org/n"}),
        json!({"@value": "a", "@direction": "up"}),
        json!({"@value": "a", "@index": 5}),
        json!({"@id": "http://n.org/n", "@index": true}),
        json!({"@list": ["a"], "http://ex.org/x": "b"}),
        json!({"@list": ["a"], "@id": "http://n.org/n"}),
        json!({"@set": ["a"], "@id": "http://n.org/n"}),
        json!({"@set": ["a"], "@type": "http://ex.org/T"}),
        json!({"@list": [{"@id": 5}]}),
        json!({"@set": [{"@value": {"a": 1}}]}),
        json!({"@reverse": "x"}),
        json!({"@reverse": ["x"]}),
        json!({"@reverse": {"http://ex.org/x": "literal"}}),
        json!({"@reverse": {"http://ex.org/x": {"@list": ["a"]}}}),
        json!({"@reverse": {"@id": "http://n.org/n"}}),
        json!({"@reverse": {"@type": "http://n.org/n"}}),
        json!({"@included": "x"}),
        json!({"@included": {"@value": "x"}}),
        json!({"@included": [{"@list": []}]}),
        json!({"@nest": "x"}),
        json!({"@nest": [5]}),
        json!({"@nest": {"@value": "x"}}),
        json!({"@graph": [{"@id": 5}]}),
        json!({"@context": {"zzk": "@id"}, "@id": "http://n.org/n", "zzk": "http://n.org/m"}),
        json!({"@context": {"zzl": {"@id": "http://ex.org/zz", "@container": "@language"}}, "zzl": {"en": 5}}),
        json!({"@context": {"zzl": {"@id": "http://ex.org/zz", "@container": "@language"}}, "zzl": {"en": [{"@id": "x"}]}}),
        json!({"@context": {"zzr": {"@reverse": "http://ex.org/zz"}}, "zzr": "literal"}),
        json!({"@context": {"zzr": {"@reverse": "http://ex.org/zz"}}, "zzr": {"@list": []}}),
        json!({"@context": {"zzp": {"@id": "http://ex.org/zz", "@protected": true}}, "http://ex.org/y": {"@context": {"zzp": "http://ex.org/yy"}}}),
        json!({"@context": [{"zzp": {"@id": "http://ex.org/zz", "@protected": true}}, null]}),
        json!({"@context": ["http://c9.org/prot.jsonld", "http://c9.org/redef.jsonld"]}),
        json!({"@context": ["http://c9.org/prot.jsonld", null]}),
        json!({"@context": "http://c9.org/prot.jsonld", "http://ex.org/y": {"@context": null}}),
        json!({"@context": "http://c9.org/prot.jsonld", "http://ex.org/y": [{"@context": "http://c9.org/redef.jsonld"}]}),
        json!({"@context": "http://c9.org/prot.jsonld", "http://ex.org/y": {"@context": {"zzp": null}}}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"zzp": {"@id": "http://ex.org/zz", "@language": "fr"}}]}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"zzp": {"@id": "http://ex.org/zz", "@direction": "rtl"}}]}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"zzp": {"@id": "http://ex.org/zz", "@container": "@set"}}]}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"zzp": {"@id": "http://ex.org/zz", "@type": "@id"}}]}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"zzp": {"@reverse": "http://ex.org/zz"}}]}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"zzp": {"@id": "http://ex.org/zz", "@context": {}}}]}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"zzp": {"@id": "http://ex.org/zz", "@nest": "@nest"}}]}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"zzp": {"@id": "http://ex.org/zz", "@prefix": true}}]}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"Tz": {"@id": "http://ex.org/Tz", "@context": {"zzp": "http://ex.org/yy"}}}], "@type": "Tz"}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"Tz": {"@id": "http://ex.org/Tz", "@context": null}}], "@type": "Tz"}),
        // allowed
        json!({"@context": ["http://c9.org/prot.jsonld", "http://c9.org/prot.jsonld"], "zzp": "x"}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"zzp": "http://ex.org/zz"}], "zzp": "x"}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"q": {"@id": "http://ex.org/q", "@context": {"zzp": "http://ex.org/yy"}}}], "q": {"zzp": "x"}}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"q": {"@id": "http://ex.org/q", "@context": null}}], "q": {"zzp": "x", "http://ex.org/r": "y"}}),
        json!({"@context": ["http://c9.org/prot.jsonld", {"q": {"@id": "http://ex.org/q", "@context": [null, {"zzp": "http://ex.org/yy"}]}}], "q": {"zzp": "x"}}),
        json!({"@context": 5}),
        json!({"@context": [[]]}),
        json!({"@context": "http://c9.org/nowhere.jsonld"}),
        json!({"@context": "http://c9.org/none.jsonld"}),
        json!({"@context": "http://c9.org/string.jsonld"}),
    ]
}
/// Paths of the context objects of a context (top level only, or anywhere).
fn ctx_sites(v: &Value, at: Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                let mut p = at.clone();
                p.push(i.to_string());
                ctx_sites(x, p, out);
            }
        }
        Value::Object(m) => {
            out.push(at.clone());
            for (k, d) in m {
                if let Some(c) = d.get("@context") {
                    let mut p = at.clone();
                    p.extend([k.clone(), "@context".into()]);
                    ctx_sites(c, p, out);
                }
            }
        }
        _ => {}
    }
}
/// Paths of the node objects of a document, and of its contexts.
pub(super) fn doc_sites(v: &Value, at: Vec<String>, nodes: &mut Vec<Vec<String>>, ctxs: &mut Vec<Vec<String>>) {
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                let mut p = at.clone();
                p.push(i.to_string());
                doc_sites(x, p, nodes, ctxs);
            }
        }
        Value::Object(m) => {
            if m.contains_key("@value") {
                return;
            }
            if ["@id", "@type", "a", "b", "c", "ref"].iter().any(|k| m.contains_key(*k)) {
                nodes.push(at.clone());
            }
            for (k, x) in m {
                let mut p = at.clone();
                p.push(k.clone());
                if k == "@context" {
                    ctx_sites(x, p, ctxs);
                } else if k != "js" && k != "langm" {
                    doc_sites(x, p, nodes, ctxs);
                }
            }
        }
        _ => {}
    }
}
pub(super) fn walk<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Object(m) => m.get_mut(k)?,
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(c)
}

struct C23;
impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let (mut c, s) = one_op(r, b"eeei", &|f| {
            f.junk = false;
            f.kalias = false;
            f.cyclic = false;
        });
        let d = s.docs[0].clone();
        c.clients[0].steps[0].op.input = crate::ops::Input::Iri(d.clone());
        let page = |v: Value| Page { doc: v, ..Page::default() };
        c.world.insert("http://c9.org/array.jsonld".into(), page(json!({"@context": [{"a": "http://ex.org/a"}]})));
        c.world.insert("http://c9.org/import.jsonld".into(), page(json!({"@context": {"@import": "http://c0.org/x"}})));
        c.world.insert("http://c9.org/none.jsonld".into(), page(json!({"a": "b"})));
        c.world.insert("http://c9.org/string.jsonld".into(), page(json!("a")));
        c.world.insert("http://c9.org/prot.jsonld".into(), page(json!({"@context": {"zzp": {"@id": "http://ex.org/zz", "@protected": true}}})));
        c.world.insert("http://c9.org/redef.jsonld".into(), page(json!({"@context": [{"zzq": "http://ex.org/q"}, {"zzp": "http://ex.org/yy"}]})));
        let m = model(&c.world, &c.faults, &c.clients[0].steps[0].op);
        let mut case = to_value(&c);
        case["syntactic"] = json!(false);
        case["injected"] = json!(false);
        if m.res.is_err() || m.out_of_fuel || r.pct(8) {
            return case;
        }
        // One violation, somewhere the operation looks at.
        let (mut nodes, mut dctx) = (vec![], vec![]);
        doc_sites(&c.world[&d].doc, vec![], &mut nodes, &mut dctx);
        if r.pct(50) && !nodes.is_empty() {
            let p = r.pick(&nodes).clone();
            let vs = value_violations();
            let v = r.pick(&vs).clone();
            if let Some(Value::Object(o)) = walk(&mut c.world.get_mut(&d).unwrap().doc, &p) {
                let syn = v.get("@context").map(|c| !c.is_object()).unwrap_or(false);
                let at = ["http://inj.org/p"][0];
                let v = match r.below(3) {
                    0 => json!([v]),
                    1 => json!(["x", v]),
                    _ => v,
                };
                o.insert(at.into(), v);
                case["syntactic"] = json!(syn);
                case["injected"] = json!(true);
            }
        } else {
            // a context which was loaded, or one of the document
            let loaded: Vec<String> = m.loads.iter().filter(|u| s.ctxs.contains(u) || s.imports.contains(u)).cloned().collect();
            let (doc, sites) = if !loaded.is_empty() && r.pct(65) {
                let u = r.pick(&loaded).clone();
                let mut sites = vec![];
                ctx_sites(&c.world[&u].doc["@context"], vec!["@context".into()], &mut sites);
                (u, sites)
            } else {
                (d.clone(), dctx)
            };
            if sites.is_empty() {
                return case;
            }
            let p = r.pick(&sites).clone();
            let vs = context_violations();
            let (k, v, syn) = r.pick(&vs).clone();
            if let Some(Value::Object(o)) = walk(&mut c.world.get_mut(&doc).unwrap().doc, &p) {
                if k == "@import" && s.imports.contains(&doc) {
                    return case;
                }
                o.insert(k.into(), v);
                case["shared"] = json!(doc != d);
                case["syntactic"] = json!(syn);
                case["injected"] = json!(true);
            }
        }
        case["world"] = to_value(&c.world);
        case
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let syntactic = v["syntactic"] == json!(true);
        Ok(match judge_with(&case, syntactic) {
            Err(vd) => vd,
            Ok(mut j) => {
                if j.m.out_of_fuel {
                    return Ok(j.vd);
                }
                let injected = v["injected"] == json!(true);
                match (&j.m.res, step_res(&j.out.clients[0], 0)) {
                    (Err(e), Some(Res::Err { code, .. })) if injected => {
                        j.vd.nontrivial = true;
                        j.vd.agg.probe(e.code);
                        // The parser of contexts reports the violations it finds with
                        // one of its own codes.
                        let parser = ["invalid context entry", "invalid term definition", "invalid IRI mapping", "invalid base direction", "invalid @nest value", "invalid local context"];
                        // A remote context may be both a scoped context and one of its own: which
                        // of its uses is met first is not specified.
                        let scoped = "invalid scoped context";
                        let ok = *code == e.code
                            || (syntactic && parser.contains(&code.as_str()))
                            || (v["shared"] == json!(true) && (code == scoped || e.code == scoped));
                        if !ok {
                            let d = format!("wrong error code: {code:?} instead of {:?}", e.code);
                            return Ok(j.vd.fail(d, &j.out.log));
                        }
                    }
                    (Ok(_), _) => {
                        j.vd.agg.probe("valid");
                        j.vd.nontrivial = !injected;
                    }
                    _ => {}
                }
                j.vd
            }
        })
    }
    fn rule(&self) -> &'static str {
        "a valid web into which exactly one violation was injected where the operation looks, or a valid one left as it is"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["violations found while parsing a context (wrong JSON types, unknown keywords in definitions) are reported with the coarser codes of the context parser; all the others with the code of the standard"]
    }
}

//! C26: expanded documents in memory: identified, relabelled, canonicalised, renamed, written
//! and read back, in any order, by several clients sharing a generator of labels.
use super::common::*;
use super::{Prop, Verdict};
use crate::canon;
use crate::case::{self, Case};
use crate::ops::{DocStep, Kind, Res};
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C26]
}

// ---------------------------------------------------------------- the oracle

/// Is it a node (and not a value nor a list)?
pub(super) fn is_node(m: &Map<String, Value>) -> bool {
    !m.contains_key("@value") && !m.contains_key("@list")
}
/// Renames every identifier of an expanded document; `anon` names the anonymous nodes.
fn rename(v: &Value, f: &dyn Fn(&str) -> String, anon: &mut dyn FnMut() -> Option<String>) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|x| rename(x, f, anon)).collect()),
        Value::Object(m) => {
            let id = |s: &Value| match s {
                Value::String(s) => json!(f(s)),
                v => v.clone(),
            };
            let mut o = Map::new();
            if is_node(m) && !m.contains_key("@id") {
                if let Some(l) = anon() {
                    o.insert("@id".into(), json!(l));
                }
            }
            for (k, x) in m {
                let y = match k.as_str() {
                    "@value" | "@index" | "@language" | "@direction" => x.clone(),
                    "@id" => id(x),
                    "@type" => match x {
                        Value::Array(a) => Value::Array(a.iter().map(id).collect()),
                        Value::String(s) if s == "@json" => x.clone(),
                        x => id(x),
                    },
                    "@reverse" => match x {
                        Value::Object(r) => Value::Object(
                            r.iter().map(|(k, x)| (f(k), rename(x, f, anon))).collect(),
                        ),
                        x => x.clone(),
                    },
                    k if k.starts_with('@') => rename(x, f, anon),
                    _ => rename(x, f, anon),
                };
                let k = if k.starts_with('@') { k.clone() } else { f(k) };
                o.insert(k, y);
            }
            Value::Object(o)
        }
        v => v.clone(),
    }
}
pub(super) fn ids(v: &Value) -> (BTreeSet<String>, usize) {
    let seen = std::cell::RefCell::new(BTreeSet::new());
    let mut anonymous = 0;
    rename(
        v,
        &|s| {
            seen.borrow_mut().insert(s.to_string());
            s.to_string()
        },
        &mut || {
            anonymous += 1;
            None
        },
    );
    (seen.into_inner(), anonymous)
}
fn blanks(v: &Value) -> BTreeSet<String> {
    ids(v).0.into_iter().filter(|s| s.starts_with("_:")).collect()
}
/// Numbers as ECMAScript prints them.
pub fn es_number(x: f64) -> String {
    if x == 0.0 {
        return "0".into();
    }
    let s = format!("{:e}", x.abs());
    let (m, e) = s.split_once('e').unwrap();
    let d: String = m.chars().filter(|c| *c != '.').collect();
    let (k, n) = (d.len() as i32, e.parse::<i32>().unwrap() + 1);
    let r = if k <= n && n <= 21 {
        format!("{d}{}", "0".repeat((n - k) as usize))
    } else if 0 < n && n <= 21 {
        format!("{}.{}", &d[..n as usize], &d[n as usize..])
    } else if -6 < n && n <= 0 {
        format!("0.{}{d}", "0".repeat(-n as usize))
    } else {
        let e = n - 1;
        let sign = if e < 0 { '-' } else { '+' };
        let m = if k == 1 { d } else { format!("{}.{}", &d[..1], &d[1..]) };
        format!("{m}e{sign}{}", e.abs())
    };
    if x < 0.0 {
        format!("-{r}")
    } else {
        r
    }
}
/// The numbers of a text of JSON.
fn numbers(text: &str) -> Vec<String> {
    let (mut out, mut cur) = (vec![], String::new());
    let (mut string, mut escaped) = (false, false);
    for c in text.chars() {
        if string {
            match c {
                _ if escaped => escaped = false,
                '\\' => escaped = true,
                '"' => string = false,
                _ => {}
            }
            continue;
        }
        if c.is_ascii_digit() || (c == '-' || (!cur.is_empty() && matches!(c, '.' | 'e' | 'E' | '+'))) {
            cur.push(c);
            continue;
        }
        if !cur.is_empty() {
            out.push(std::mem::take(&mut cur));
        }
        string = c == '"';
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
/// The entries of the JSON literals, in the order of the canonical form?
fn literals_sorted(v: &Value, json_literal: bool) -> bool {
    match v {
        Value::Array(a) => a.iter().all(|x| literals_sorted(x, json_literal)),
        Value::Object(m) => {
            // By UTF-16 code units, says RFC 8785; the JSON library sorts by code points.
            let keys: Vec<&String> = m.keys().filter(|k| **k != "\u{fb33}").collect();
            let lit = m.get("@type").map(|t| t == "@json").unwrap_or(false);
            (!json_literal || keys.windows(2).all(|w| w[0] <= w[1]))
                && m.iter().all(|(k, x)| literals_sorted(x, json_literal || (lit && k == "@value")))
        }
        _ => true,
    }
}
fn set(v: &Value) -> BTreeSet<String> {
    v.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(str::to_string)).collect()
}

/// Counts the nodes, values and lists.
fn count(v: &Value, n: &mut [usize; 3]) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| count(x, n)),
        Value::Object(m) if m.contains_key("@value") => n[1] += 1,
        Value::Object(m) => {
            n[if m.contains_key("@list") { 2 } else { 0 }] += 1;
            for (k, x) in m {
                match (k.as_str(), x) {
                    ("@reverse", Value::Object(r)) => r.values().for_each(|x| count(x, n)),
                    ("@id" | "@type" | "@index", _) => {}
                    _ => count(x, n),
                }
            }
        }
        _ => {}
    }
}
/// What one observation must show of itself.
fn coherent(o: &Value) -> Result<(), String> {
    let d = &o["printed"];
    if canon::sorted(d) != canon::sorted(&o["json"]) {
        return Err(format!("conversion to JSON: printed as {} but converted into {}", cut(&d.to_string()), cut(&o["json"].to_string())));
    }
    let b: Vec<String> = blanks(d).into_iter().collect();
    if o["blanks"] != json!(b) {
        return Err(format!("blank identifiers: {} found in {}", o["blanks"], cut(&d.to_string())));
    }
    let all: Vec<String> = ids(d).0.into_iter().collect();
    if o["ids"] != json!(all) {
        return Err(format!("identifiers: {} met in {}", o["ids"], cut(&d.to_string())));
    }
    let mut n = [0; 3];
    count(d, &mut n);
    if o["met"] != json!(n) {
        return Err(format!("traversal: {} nodes, values and lists met in {}", o["met"], cut(&d.to_string())));
    }
    let nodes: Vec<&Value> =
        d.as_array().into_iter().flatten().filter(|x| x.as_object().map(is_node).unwrap_or(false)).collect();
    // (`@index` is not the node's.)
    let main = match nodes[..] {
        [Value::Object(n)] => canon::sorted(&Value::Object(n.iter().filter(|(k, _)| *k != "@index").map(|(k, x)| (k.clone(), x.clone())).collect())),
        _ => Value::Null,
    };
    if canon::sorted(&o["main"]) != main {
        return Err(format!("main node: {} of {}", cut(&o["main"].to_string()), cut(&d.to_string())));
    }
    if o["len"] != json!(d.as_array().map(|a| a.len())) {
        return Err(format!("length: {} of {}", o["len"], cut(&d.to_string())));
    }
    Ok(())
}

/// Is `after` what the step makes of `before`?
fn follows(step: &DocStep, before: &Value, after: &Value) -> Result<(), String> {
    let (b, a) = (&before["printed"], &after["printed"]);
    let show = |what: &str| {
        Err(format!("{what}: {} became {} (labels issued: {})", cut(&b.to_string()), cut(&a.to_string()), after["issued"]))
    };
    let issued = set(&after["issued"]);
    let unchanged = |x: &Value, y: &Value| canon::expanded(x) == canon::expanded(y);
    let fresh = || {
        let mut n = 0;
        move || {
            n += 1;
            Some(format!("_:anonymous{n}"))
        }
    };
    let back = |s: &str| if issued.contains(s) { format!("_:issued-{}", s.replace([':', '/'], "-")) } else { s.to_string() };
    let canonical = || -> Result<(), String> {
        let text = after["text"].as_str().unwrap_or("");
        for n in numbers(text) {
            if n.parse::<f64>().map(es_number).as_ref() != Ok(&n) {
                return Err(format!("canonicalisation: {n} is not canonical in {}", cut(text)));
            }
        }
        if !literals_sorted(a, false) {
            return Err(format!("canonicalisation: entries out of order in {}", cut(text)));
        }
        Ok(())
    };
    match step {
        DocStep::Identify => {
            let keep = |s: &str| match s.strip_prefix("_:") {
                Some(l) if !issued.contains(s) => format!("label-{l}"),
                _ => back(s),
            };
            let x = rename(b, &keep, &mut fresh());
            let y = rename(a, &keep, &mut || None);
            if ids(a).1 > 0 || !canon::iso(&x, &y, &canon::expanded) {
                return show("identification");
            }
        }
        DocStep::Relabel | DocStep::RelabelCanonicalize => {
            let x = rename(b, &|s| s.to_string(), &mut fresh());
            let y = rename(a, &back, &mut || None);
            if ids(a).1 > 0 || blanks(a).iter().any(|l| !issued.contains(l)) || !canon::iso(&x, &y, &canon::expanded) {
                return show("relabelling");
            }
            if *step == DocStep::RelabelCanonicalize {
                canonical()?;
            }
        }
        DocStep::Canonicalize => {
            if !unchanged(b, a) {
                return show("canonicalisation");
            }
            canonical()?;
        }
        DocStep::Reload => {
            if !after["error"].is_null() {
                return show(&format!("reading back: {}", after["error"]));
            }
            if canon::sorted(b) != canon::sorted(a) {
                return show("reading back");
            }
        }
        DocStep::Rename(s) => {
            if !unchanged(&rename(b, &|x| format!("{x}{s}"), &mut || None), a) {
                return show("renaming");
            }
        }
        DocStep::Damaged(v) => {
            if canon::sorted(b) != canon::sorted(a) {
                return show("nothing was to change");
            }
            if let Some(t) = after["error"].as_str().and_then(|e| e.strip_prefix("accepted: ")) {
                let got = crate::net::parse(t).map_err(|e| e.to_string())?;
                if !v.is_array() || canon::expanded(&got) != canon::expanded(v) {
                    return Err(format!("damaged document: {} was read as {}", cut(&v.to_string()), cut(t)));
                }
            } else if v.as_array().map(|a| a.iter().all(well_formed)).unwrap_or(false) {
                return Err(format!("expanded document: {} was refused: {}", cut(&v.to_string()), after["error"]));
            }
        }
    }
    Ok(())
}
/// Is it, without doubt, an object of an expanded document?
fn well_formed(v: &Value) -> bool {
    let Value::Object(m) = v else { return false };
    let str = |x: &Value| x.is_string();
    let objects = |x: &Value| x.as_array().map(|a| a.iter().all(well_formed)).unwrap_or(false);
    let nodes = |x: &Value| objects(x) && x.as_array().unwrap().iter().all(|n| is_node(n.as_object().unwrap()));
    let iri = |x: &Value| x.as_str().map(|s| s.starts_with("http://") && !s.contains(' ')).unwrap_or(false);
    if !m.get("@index").map(str).unwrap_or(true) {
        return false;
    }
    if let Some(x) = m.get("@value") {
        let lang = m.contains_key("@language") || m.contains_key("@direction");
        return m.keys().all(|k| matches!(k.as_str(), "@value" | "@type" | "@language" | "@direction" | "@index"))
            && match m.get("@type") {
                Some(t) if t == "@json" => !lang,
                Some(t) => iri(t) && !lang && !x.is_array() && !x.is_object(),
                None if lang => {
                    x.is_string()
                        && m.get("@language").map(|l| l.as_str().map(|l| l.len() > 1 && l.chars().all(|c| c.is_ascii_alphabetic())).unwrap_or(false)).unwrap_or(true)
                        && m.get("@direction").map(|d| d == "ltr" || d == "rtl").unwrap_or(true)
                }
                None => !x.is_array() && !x.is_object(),
            };
    }
    if let Some(l) = m.get("@list") {
        return objects(l) && m.keys().all(|k| matches!(k.as_str(), "@list" | "@index"));
    }
    m.iter().all(|(k, x)| match k.as_str() {
        "@id" => str(x),
        "@index" => true,
        "@type" => x.as_array().map(|a| a.iter().all(str)).unwrap_or(false),
        "@graph" => objects(x),
        "@included" => nodes(x),
        "@reverse" => x.as_object().map(|r| r.iter().all(|(k, x)| !k.starts_with('@') && nodes(x))).unwrap_or(false),
        k => !k.starts_with('@') && objects(x),
    })
}

// ------------------------------------------------------------- the generator

fn some_id(r: &mut Rng) -> String {
    ["http://n.org/n1", "http://n.org/n2", "http://n.org/n3", "_:b0", "_:b1", "_:x", "not an iri"][r.below(7)].into()
}
fn some_prop(r: &mut Rng) -> String {
    ["http://ex.org/p", "http://ex.org/q", "http://ex.org/r", "_:bp"][r.below(4)].into()
}
fn some_json(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth > 2 { 6 } else { 8 }) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(r.below(100)),
        3 => json!([0.1, 1.0, -0.0, 1e21, 1e-7, 123456789012345680.0, 100.0, 5e-324, 1.5e300, 0.000001][r.below(10)]),
        4 => json!("s"),
        5 => json!("_:b0"),
        6 => Value::Array((0..r.below(3)).map(|_| some_json(r, depth + 1)).collect()),
        _ => {
            let mut m = Map::new();
            for _ in 0..r.below(4) {
                let k = ["b", "a", "@id", "\u{fb33}", "\u{1f600}", "10", "2", ""][r.below(8)];
                m.insert(k.into(), some_json(r, depth + 1));
            }
            Value::Object(m)
        }
    }
}
fn object(r: &mut Rng, depth: usize) -> Value {
    let mut m = Map::new();
    match if depth > 3 { r.below(5) } else { r.below(8) } {
        0 => m.insert("@value".into(), json!("v")),
        1 => {
            m.insert("@value".into(), some_json(r, 0));
            m.insert("@type".into(), json!("@json"))
        }
        2 => {
            m.insert("@value".into(), [json!("5"), json!(5), json!(5.5), json!(1e21), json!(2.0), json!(true)][r.below(6)].clone());
            if r.pct(60) {
                m.insert("@type".into(), json!("http://ex.org/D"));
            }
            None
        }
        3 => {
            m.insert("@value".into(), json!("v"));
            if r.pct(60) {
                m.insert("@language".into(), json!(["en", "fr"][r.below(2)]));
            }
            if r.pct(40) {
                m.insert("@direction".into(), json!(["ltr", "rtl"][r.below(2)]));
            }
            None
        }
        4 => m.insert("@id".into(), json!(some_id(r))),
        5 => m.insert("@list".into(), objects(r, depth + 1, false)),
        _ => return node(r, depth),
    };
    if r.pct(15) {
        m.insert("@index".into(), json!("i"));
    }
    Value::Object(m)
}
fn objects(r: &mut Rng, depth: usize, nodes: bool) -> Value {
    Value::Array((0..r.below(3)).map(|_| if nodes { node(r, depth) } else { object(r, depth) }).collect())
}
pub(super) fn node(r: &mut Rng, depth: usize) -> Value {
    let mut m = Map::new();
    if r.pct(60) {
        m.insert("@id".into(), json!(some_id(r)));
    }
    if r.pct(30) {
        m.insert("@type".into(), Value::Array((0..r.below(3)).map(|_| json!(some_id(r))).collect()));
    }
    if r.pct(10) {
        m.insert("@index".into(), json!("j"));
    }
    if depth < 4 {
        if r.pct(20) {
            m.insert("@graph".into(), objects(r, depth + 1, false));
        }
        if r.pct(15) {
            m.insert("@included".into(), objects(r, depth + 1, true));
        }
        if r.pct(15) {
            let mut x = Map::new();
            for _ in 0..r.below(3) {
                x.insert(some_prop(r), objects(r, depth + 1, true));
            }
            m.insert("@reverse".into(), Value::Object(x));
        }
        for _ in 0..r.below(3) {
            m.insert(some_prop(r), objects(r, depth + 1, false));
        }
    }
    Value::Object(m)
}
/// Something breaks in an expanded document.
fn damage(r: &mut Rng, v: &Value) -> Value {
    let mut paths = vec![];
    crate::shrink::paths(v, &mut vec![], &mut paths);
    let junk = |r: &mut Rng| {
        [json!(null), json!(3), json!(true), json!("x y"), json!([]), json!({}), json!(["x"]), json!({"@id": "_:b0"}), json!([{"@value": "v"}]), json!("_:b1")]
            [r.below(10)]
        .clone()
    };
    if paths.is_empty() {
        return junk(r);
    }
    let p = r.pick(&paths).clone();
    match r.below(4) {
        0 => crate::shrink::remove(v, &p),
        1 | 2 => {
            let j = junk(r);
            crate::shrink::replace(v, &p, j)
        }
        _ => {
            let mut n = v.clone();
            let j = junk(r);
            if let Some(Value::Object(m)) = crate::shrink::at(&mut n, &p) {
                let k = ["@index", "@id", "@type", "@value", "@list", "@language", "@direction", "@context", "@set", "@graph", "@reverse", "@included", "@foo", "http://ex.org/p"]
                    [r.below(14)];
                m.insert(k.into(), j);
            }
            Some(n)
        }
    }
    .unwrap_or_else(|| v.clone())
}

struct C26;
impl Prop for C26 {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let n = [1, 1, 2, 3][r.below(4)];
        let s = scenario(r, 2, &|f| f.junk = false);
        let mut c = Case { world: s.world.clone(), ..Default::default() };
        c.shared_gen = r.pct(70);
        c.labels = [None, None, Some("b".to_string()), Some("http://sk.org/id/".into())][r.below(4)].clone();
        for _ in 0..n {
            let mut ops = vec![];
            for _ in 0..1 + r.below(2) {
                let mut o = op(r, &s, b"e");
                // A document of the web, or one which already is expanded.
                if r.pct(50) {
                    let doc = Value::Array((0..1 + r.below(3)).map(|_| node(r, 0)).collect());
                    o.opts.expand_context = None;
                    o.input = crate::ops::Input::Loaded { url: None, context_url: None, doc };
                }
                let steps = (0..1 + r.below(5))
                    .map(|_| match r.below(10) {
                        // Labels which the document already uses can only be given to all of it.
                        0 | 1 if c.labels.as_deref() != Some("b") => DocStep::Identify,
                        2 | 3 => DocStep::Relabel,
                        4 => DocStep::Canonicalize,
                        5 => DocStep::RelabelCanonicalize,
                        6 => DocStep::Rename(["x", "-2", "é"][r.below(3)].into()),
                        7 | 8 => {
                            let mut v = Value::Array((0..r.below(3)).map(|_| object(r, 0)).collect());
                            for _ in 0..r.below(3) {
                                v = damage(r, &v);
                            }
                            DocStep::Damaged(v)
                        }
                        _ => DocStep::Reload,
                    })
                    .collect();
                o.kind = Kind::History(steps);
                ops.push(o);
            }
            let v = vocab(r);
            let mut k = client(ops, v);
            if n > 1 && r.pct(20) {
                let i = r.below(k.steps.len());
                k.steps[i].cancel_at = Some(1 + r.below(6) as u64);
            }
            c.clients.push(k);
        }
        schedule(r, &mut c);
        if r.pct(15) {
            let url = r.pick(&s.ctxs).clone();
            let k = some_fault(r);
            c.faults.push(fault(&url, k));
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let mut vd = Verdict::default();
        let out = case::run(&case);
        vd.agg.add(&out);
        let mut all: BTreeSet<String> = BTreeSet::new();
        for (i, c) in out.clients.iter().enumerate() {
            if let Some(b) = broken(c) {
                return Ok(vd.fail(b, &out.log));
            }
            let mut labels: Vec<&String> = c.issued.iter().flatten().collect();
            labels.sort();
            if case.shared_gen {
                for l in &labels {
                    if !all.insert(l.to_string()) {
                        return Ok(vd.fail(format!("label {l} was handed out twice"), &out.log));
                    }
                }
            }
            for (k, st) in case.clients[i].steps.iter().enumerate() {
                let Kind::History(steps) = &st.op.kind else { continue };
                let Some(Res::Ok(o)) = step_res(c, k) else { continue };
                let Some(o) = o.as_array() else { continue };
                for (n, x) in o.iter().enumerate() {
                    if let Err(e) = coherent(x) {
                        return Ok(vd.fail(e, &out.log));
                    }
                    if n == 0 {
                        continue;
                    }
                    if let Err(e) = follows(&steps[n - 1], &o[n - 1], x) {
                        return Ok(vd.fail(e, &out.log));
                    }
                    vd.agg.probe(match &steps[n - 1] {
                        DocStep::Identify => "identified",
                        DocStep::Relabel => "relabelled",
                        DocStep::Canonicalize => "canonicalised",
                        DocStep::RelabelCanonicalize => "relabelled_and_canonicalised",
                        DocStep::Reload => "read_back",
                        DocStep::Rename(_) => "renamed",
                        DocStep::Damaged(_) => match x["error"].as_str() {
                            Some(e) if e.starts_with("accepted") => "damaged_accepted_without_loss",
                            _ => "damaged_refused",
                        },
                    });
                    vd.nontrivial |= x["len"] != json!(0);
                }
            }
        }
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "a step was applied to a non-empty document"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["documents are compared as the sets and lists they are, up to the labels that a step hands out",
          "the canonical form of numbers is that of ECMAScript, of the nearest double"]
    }
}

//! Deserialization to RDF, after the JSON-LD 1.1 API. Quads are JSON arrays
//! `[s, p, o, g]` in the form of `ops::quad_value`.
use super::flatten::node_map;
use super::*;
use serde_json::{json, Value};

const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

pub fn double(f: f64) -> String {
    let s = format!("{f:E}");
    let (m, e) = s.split_once('E').unwrap();
    if m.contains('.') {
        s
    } else {
        format!("{m}.0E{e}")
    }
}

struct Conv<'a> {
    out: Vec<Value>,
    n: usize,
    dir: Option<&'a str>,
}
impl Conv<'_> {
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("_:r{}", self.n)
    }
    fn quad(&mut self, s: &str, p: &str, o: Value, g: &Value) {
        self.out.push(json!([s, p, o, g]));
    }
    fn object(&mut self, e: &Value, g: &Value) -> Option<Value> {
        if let Some(v) = e.get("@value") {
            return self.literal(e, v, g);
        }
        if let Some(l) = e.get("@list") {
            return Some(json!({ "id": self.list(&arr(l), g) }));
        }
        let id = e["@id"].as_str()?;
        if is_blank(id) || is_iri(id) {
            Some(json!({ "id": id }))
        } else {
            None
        }
    }
    fn list(&mut self, items: &[&Value], g: &Value) -> String {
        let nodes: Vec<String> = items.iter().map(|_| self.fresh()).collect();
        for (i, item) in items.iter().enumerate() {
            if let Some(o) = self.object(item, g) {
                self.quad(&nodes[i], &format!("{RDF}first"), o, g);
            }
            let rest = nodes.get(i + 1).cloned().unwrap_or(format!("{RDF}nil"));
            self.quad(&nodes[i], &format!("{RDF}rest"), json!({ "id": rest }), g);
        }
        nodes.first().cloned().unwrap_or(format!("{RDF}nil"))
    }
    fn literal(&mut self, e: &Value, v: &Value, g: &Value) -> Option<Value> {
        let t = e.get("@type").and_then(|t| t.as_str());
        if t == Some("@json") {
            return Some(json!({"v": v.to_string(), "t": format!("{RDF}JSON")}));
        }
        if let Some(t) = t {
            if !is_iri(t) {
                return None;
            }
        }
        let lang = e.get("@language").and_then(|l| l.as_str()).map(|l| l.to_lowercase());
        if let Some(l) = &lang {
            if langtag::LangTag::new(l.as_str()).is_err() {
                return None;
            }
        }
        let (lex, native) = match v {
            Value::Bool(b) => (b.to_string(), Some("boolean")),
            Value::Number(n) => {
                let f = n.as_f64().unwrap();
                if f.fract() != 0.0 || f.abs() >= 1e21 || t == Some(&format!("{XSD}double")) {
                    (double(f), Some("double"))
                } else {
                    (n.as_i64().map(|i| i.to_string()).unwrap_or(format!("{f:.0}")), Some("integer"))
                }
            }
            Value::String(s) => (s.clone(), None),
            _ => return None,
        };
        let dir = e.get("@direction").and_then(|d| d.as_str());
        match (dir, self.dir) {
            (Some(d), Some("i18n-datatype")) => {
                let t = format!("https://www.w3.org/ns/i18n#{}_{d}", lang.unwrap_or_default());
                return Some(json!({"v": lex, "t": t}));
            }
            (Some(d), Some("compound-literal")) => {
                let b = self.fresh();
                let s = format!("{XSD}string");
                self.quad(&b, &format!("{RDF}value"), json!({"v": lex, "t": s}), g);
                if let Some(l) = lang {
                    self.quad(&b, &format!("{RDF}language"), json!({"v": l, "t": s}), g);
                }
                self.quad(&b, &format!("{RDF}direction"), json!({"v": d, "t": s}), g);
                return Some(json!({ "id": b }));
            }
            _ => {}
        }
        if let Some(l) = lang {
            return Some(json!({"v": lex, "l": l}));
        }
        let t = t.map(|t| t.to_string()).unwrap_or(format!("{XSD}{}", native.unwrap_or("string")));
        Some(json!({"v": lex, "t": t}))
    }
}

pub fn to_rdf(expanded: &Value, dir: Option<&str>, generalized: bool) -> R<Value> {
    let m = node_map(expanded, true)?;
    let ok = |s: &str| is_blank(s) || is_iri(s);
    let mut c = Conv { out: vec![], n: 0, dir };
    for (g, nodes) in &m.graphs {
        let gv = if g == super::flatten::DEFAULT {
            Value::Null
        } else if ok(g) {
            json!(g)
        } else {
            continue;
        };
        for (s, n) in nodes {
            if !ok(s) {
                continue;
            }
            for (p, vs) in n {
                if p == "@type" {
                    for t in arr(vs) {
                        let t = t.as_str().unwrap_or_default();
                        if ok(t) {
                            c.quad(s, &format!("{RDF}type"), json!({ "id": t }), &gv);
                        }
                    }
                } else if p.starts_with('@') || !ok(p) || (is_blank(p) && !generalized) {
                } else {
                    for v in arr(vs) {
                        if let Some(o) = c.object(v, &gv) {
                            c.quad(s, p, o, &gv);
                        }
                    }
                }
            }
        }
    }
    Ok(Value::Array(c.out))
}

/// Dataset up to what is not significant: quads form a set, language tags are
/// case insensitive, JSON literals are compared as JSON.
pub fn canon(v: &Value) -> Value {
    let mut a: Vec<Value> = arr(v)
        .into_iter()
        .map(|q| {
            let mut q = q.clone();
            if let Some(t) = q[2].get("t").and_then(|t| t.as_str()) {
                if t == format!("{RDF}JSON") {
                    let x = q[2]["v"].as_str().and_then(|s| crate::net::parse(s).ok()).unwrap_or(json!("not JSON"));
                    q[2]["v"] = crate::canon::exact(&x);
                } else if let Some(r) = t.strip_prefix("https://www.w3.org/ns/i18n#") {
                    q[2]["t"] = json!(format!("https://www.w3.org/ns/i18n#{}", r.to_lowercase()));
                }
            }
            q
        })
        .collect();
    crate::canon::sort(&mut a);
    a.dedup();
    Value::Array(a)
}

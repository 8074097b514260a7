//! Node map generation and flattening, after the JSON-LD 1.1 API.
use super::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

pub const DEFAULT: &str = "@default";
pub type Graph = BTreeMap<String, Map<String, Value>>;
#[derive(Default)]
pub struct NodeMap {
    /// The default graph is `DEFAULT`.
    pub graphs: BTreeMap<String, Graph>,
    labels: BTreeMap<String, String>,
    n: usize,
    /// Do not report conflicting indexes.
    lax: bool,
}
impl NodeMap {
    fn fresh(&mut self) -> String {
        self.n += 1;
        format!("_:m{}", self.n)
    }
    fn label(&mut self, s: &str) -> String {
        if !is_blank(s) {
            return s.to_string();
        }
        if let Some(l) = self.labels.get(s) {
            return l.clone();
        }
        let l = self.fresh();
        self.labels.insert(s.to_string(), l.clone());
        l
    }
    fn node(&mut self, graph: &str, id: &str) -> &mut Map<String, Value> {
        self.graphs.entry(graph.to_string()).or_default().entry(id.to_string()).or_insert_with(|| {
            let mut m = Map::new();
            m.insert("@id".into(), json!(id));
            m
        })
    }
    fn add(&mut self, graph: &str, id: &str, prop: &str, v: Option<Value>) {
        let n = self.node(graph, id);
        let e = n.entry(prop.to_string()).or_insert_with(|| json!([]));
        let a = e.as_array_mut().unwrap();
        if let Some(v) = v {
            // Lists are always appended.
            if v.get("@list").is_some() || !a.contains(&v) {
                a.push(v);
            }
        }
    }
    /// Adds `e` and what is below to the map; gives what refers to it.
    fn element(&mut self, e: &Value, graph: &str) -> R<Option<Value>> {
        let m = match e {
            Value::Object(m) => m,
            _ => return Ok(None),
        };
        if m.contains_key("@value") {
            return Ok(Some(e.clone()));
        }
        if let Some(l) = m.get("@list") {
            let mut items = vec![];
            for i in arr(l) {
                if let Some(x) = self.element(i, graph)? {
                    items.push(x);
                }
            }
            // The standard forgets the index of lists, without saying why: both are accepted.
            let mut l = json!({ "@list": items });
            if let Some(i) = m.get("@index") {
                l["@index"] = i.clone();
            }
            return Ok(Some(l));
        }
        let id = match m.get("@id") {
            Some(Value::String(s)) => self.label(s),
            _ => self.fresh(),
        };
        self.node(graph, &id);
        if let Some(t) = m.get("@type") {
            for t in arr(t) {
                let t = self.label(t.as_str().unwrap_or_default());
                self.add(graph, &id, "@type", Some(json!(t)));
            }
        }
        if let Some(i) = m.get("@index") {
            let lax = self.lax;
            let n = self.node(graph, &id);
            match n.get("@index") {
                Some(j) if j != i && !lax => return err("conflicting indexes"),
                _ => {
                    n.insert("@index".into(), i.clone());
                }
            }
        }
        if let Some(Value::Object(r)) = m.get("@reverse") {
            for (p, vs) in r {
                let p = self.label(p);
                for v in arr(vs) {
                    if let Some(s) = self.element(v, graph)? {
                        let s = s["@id"].as_str().unwrap_or_default().to_string();
                        self.add(graph, &s, &p, Some(json!({ "@id": id })));
                    }
                }
            }
        }
        if let Some(g) = m.get("@graph") {
            self.graphs.entry(id.clone()).or_default();
            for x in arr(g) {
                self.element(x, &id)?;
            }
        }
        if let Some(g) = m.get("@included") {
            for x in arr(g) {
                self.element(x, graph)?;
            }
        }
        for (p, vs) in m {
            if p.starts_with('@') {
                continue;
            }
            let p = self.label(p);
            self.add(graph, &id, &p, None);
            for v in arr(vs) {
                if let Some(x) = self.element(v, graph)? {
                    self.add(graph, &id, &p, Some(x));
                }
            }
        }
        Ok(Some(json!({ "@id": id })))
    }
}

pub fn node_map(expanded: &Value, lax: bool) -> R<NodeMap> {
    let mut m = NodeMap { lax, ..Default::default() };
    m.graphs.insert(DEFAULT.into(), Graph::new());
    for e in arr(expanded) {
        m.element(e, DEFAULT)?;
    }
    Ok(m)
}

pub fn flatten(expanded: &Value) -> R<Value> {
    let mut m = node_map(expanded, false)?;
    let named: Vec<String> = m.graphs.keys().filter(|k| *k != DEFAULT).cloned().collect();
    for g in named {
        let nodes: Vec<Value> =
            m.graphs[&g].values().filter(|n| n.len() > 1).map(|n| Value::Object(n.clone())).collect();
        m.node(DEFAULT, &g).insert("@graph".into(), Value::Array(nodes));
    }
    Ok(Value::Array(m.graphs[DEFAULT].values().filter(|n| n.len() > 1).map(|n| Value::Object(n.clone())).collect()))
}

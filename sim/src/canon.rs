//! Order-insensitive canonical forms of expanded / flattened documents.
use serde_json::{Map, Value};

/// JSON up to the order of entries and the form of numbers.
pub fn exact(v: &Value) -> Value {
    num(v)
}
fn num(v: &Value) -> Value {
    match v {
        Value::Number(n) => {
            let f = n.as_f64().unwrap();
            if f == f.trunc() && f.abs() < 1e15 {
                Value::from(f as i64)
            } else {
                Value::from(f)
            }
        }
        Value::Array(a) => Value::Array(a.iter().map(num).collect()),
        Value::Object(m) => {
            let mut k: Vec<&String> = m.keys().collect();
            k.sort();
            Value::Object(k.into_iter().map(|k| (k.clone(), num(&m[k.as_str()]))).collect())
        }
        v => v.clone(),
    }
}

/// Expanded form: arrays are multisets, except lists; document-level arrays,
/// `@graph` and `@included` are sets.
pub fn expanded(v: &Value) -> Value {
    let mut a: Vec<Value> = match v {
        Value::Array(a) => a.iter().map(obj).collect(),
        v => vec![obj(v)],
    };
    // An anonymous empty graph states nothing.
    a.retain(|x| *x != serde_json::json!({"@graph": []}) && *x != serde_json::json!({}));
    sort(&mut a);
    a.dedup();
    Value::Array(a)
}
/// Removes what is repeated in the sets of an expanded document.
pub fn dedup(v: &Value) -> Value {
    fn set(a: &[Value]) -> Value {
        let mut seen = std::collections::BTreeSet::new();
        Value::Array(a.iter().filter(|x| seen.insert(obj(x).to_string())).map(walk).collect())
    }
    fn walk(v: &Value) -> Value {
        match v {
            Value::Array(a) => Value::Array(a.iter().map(walk).collect()),
            Value::Object(m) if !m.contains_key("@value") => Value::Object(
                m.iter()
                    .map(|(k, x)| match (k.as_str(), x) {
                        ("@graph" | "@included", Value::Array(a)) => (k.clone(), set(a)),
                        _ => (k.clone(), walk(x)),
                    })
                    .collect(),
            ),
            v => v.clone(),
        }
    }
    match v {
        Value::Array(a) => set(a),
        v => walk(v),
    }
}
pub fn sort(a: &mut [Value]) {
    a.sort_by_cached_key(|v| v.to_string());
}
fn obj(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut k: Vec<&String> = m.keys().collect();
            k.sort();
            let mut out = Map::new();
            if m.get("@type").map(|t| t == "@json").unwrap_or(false) {
                for k in k {
                    out.insert(k.clone(), num(&m[k.as_str()]));
                }
                return Value::Object(out);
            }
            for k in k {
                let x = &m[k.as_str()];
                if (k == "@type" && *x == Value::Array(vec![])) || (k == "@id" && x.is_null()) {
                    continue;
                }
                let y = match k.as_str() {
                    "@list" => match x {
                        Value::Array(a) => Value::Array(a.iter().map(obj).collect()),
                        x => Value::Array(vec![obj(x)]),
                    },
                    "@value" => num(x),
                    // Language tags are case insensitive.
                    "@language" => match x {
                        Value::String(s) => Value::String(s.to_lowercase()),
                        x => x.clone(),
                    },
                    "@graph" | "@included" => expanded(x),
                    // Nothing is the subject of an empty entry.
                    "@reverse" => match obj(x) {
                        Value::Object(mut r) => {
                            r.retain(|_, x| *x != Value::Array(vec![]));
                            if r.is_empty() {
                                continue;
                            }
                            Value::Object(r)
                        }
                        r => r,
                    },
                    _ => match x {
                        Value::Array(a) => {
                            let mut a: Vec<Value> = a.iter().map(obj).collect();
                            sort(&mut a);
                            Value::Array(a)
                        }
                        x => obj(x),
                    },
                };
                // An entry without values says nothing.
                if y == Value::Array(vec![]) && !k.starts_with('@') && false {
                    continue;
                }
                out.insert(k.clone(), y);
            }
            Value::Object(out)
        }
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(obj).collect();
            sort(&mut a);
            Value::Array(a)
        }
        v => v.clone(),
    }
}

/// Generic order-insensitive form: every array is a multiset except `@list`s.
pub fn sorted(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut k: Vec<&String> = m.keys().collect();
            k.sort();
            let mut o = Map::new();
            for k in k {
                let x = &m[k.as_str()];
                let y = match (k.as_str(), x) {
                    ("@list", Value::Array(a)) => Value::Array(a.iter().map(sorted).collect()),
                    _ => sorted(x),
                };
                o.insert(k.clone(), y);
            }
            Value::Object(o)
        }
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(sorted).collect();
            sort(&mut a);
            Value::Array(a)
        }
        v => num(v),
    }
}

// ---------------------------------------------------------------------------
// Equality up to blank node labels.

/// Entries whose strings are not labels (`v` is that of RDF literals).
fn opaque(k: &str) -> bool {
    matches!(k, "@value" | "@index" | "@language" | "v")
}
pub fn labels(v: &Value, out: &mut std::collections::BTreeSet<String>) {
    match v {
        Value::String(s) if s.starts_with("_:") => {
            out.insert(s.clone());
        }
        Value::Array(a) => a.iter().for_each(|x| labels(x, out)),
        Value::Object(m) => {
            for (k, x) in m {
                if k.starts_with("_:") {
                    out.insert(k.clone());
                }
                if !opaque(k) {
                    labels(x, out);
                }
            }
        }
        _ => {}
    }
}
pub fn relabel(v: &Value, f: &dyn Fn(&str) -> String) -> Value {
    match v {
        Value::String(s) if s.starts_with("_:") => Value::String(f(s)),
        Value::Array(a) => Value::Array(a.iter().map(|x| relabel(x, f)).collect()),
        Value::Object(m) => {
            let mut o = Map::new();
            for (k, x) in m {
                let x = if opaque(k) { x.clone() } else { relabel(x, f) };
                let k = if k.starts_with("_:") { f(k) } else { k.clone() };
                // Labels may be confused on purpose: entries are not to be lost.
                match o.get_mut(&k) {
                    None => {
                        o.insert(k, x);
                    }
                    Some(Value::Object(y)) if y.contains_key("@confused") => {
                        y["@confused"].as_array_mut().unwrap().push(x);
                    }
                    Some(y) => *y = serde_json::json!({"@confused": [y.clone(), x]}),
                }
            }
            Value::Object(o)
        }
        v => v.clone(),
    }
}
fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
type Colors = std::collections::BTreeMap<String, u64>;
fn refine(v: &Value, c: &mut Colors, canon: &dyn Fn(&Value) -> Value) {
    let n = |c: &Colors| c.values().collect::<std::collections::BTreeSet<_>>().len();
    let mut classes = n(c);
    for _ in 0..12 {
        let mut next = Colors::new();
        for l in c.keys() {
            let x = relabel(v, &|s| if s == l { "_:*".into() } else { format!("_:{:x}", c[s]) });
            next.insert(l.clone(), fnv(&format!("{:x}|{}", c[l], canon(&x))));
        }
        *c = next;
        let k = n(c);
        if k == classes || k == c.len() {
            break;
        }
        classes = k;
    }
}
fn form(v: &Value, c: &Colors, canon: &dyn Fn(&Value) -> Value) -> String {
    canon(&relabel(v, &|s| format!("_:{:x}", c[s]))).to_string()
}
fn search(
    a: &Value, b: &Value, ca: Colors, cb: Colors, canon: &dyn Fn(&Value) -> Value, budget: &mut u32,
) -> bool {
    if *budget == 0 {
        return true; // undecided: not reported as a difference
    }
    *budget -= 1;
    let (mut ca, mut cb) = (ca, cb);
    refine(a, &mut ca, canon);
    refine(b, &mut cb, canon);
    let mut va: Vec<u64> = ca.values().cloned().collect();
    let mut vb: Vec<u64> = cb.values().cloned().collect();
    va.sort();
    vb.sort();
    if va != vb {
        return false;
    }
    let tied = ca.iter().find(|(_, x)| va.iter().filter(|y| y == x).count() > 1);
    let Some((l, col)) = tied else { return form(a, &ca, canon) == form(b, &cb, canon) };
    let (l, col) = (l.clone(), *col);
    let mut ca2 = ca.clone();
    ca2.insert(l, 0x5151);
    let cands: Vec<String> = cb.iter().filter(|(_, x)| **x == col).map(|(k, _)| k.clone()).collect();
    for m in cands {
        let mut cb2 = cb.clone();
        cb2.insert(m, 0x5151);
        if search(a, b, ca2.clone(), cb2, canon, budget) {
            return true;
        }
    }
    false
}
/// Are the two values equal up to a bijection between their blank labels (and
/// up to `canon`)?
pub fn iso(a: &Value, b: &Value, canon: &dyn Fn(&Value) -> Value) -> bool {
    let (mut la, mut lb) = Default::default();
    labels(a, &mut la);
    labels(b, &mut lb);
    if la.len() != lb.len() {
        return false;
    }
    let ca: Colors = la.into_iter().map(|l| (l, 1)).collect();
    let cb: Colors = lb.into_iter().map(|l| (l, 1)).collect();
    search(a, b, ca, cb, canon, &mut 400)
}

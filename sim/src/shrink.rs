//! Generic minimiser over JSON cases: drop entries, hoist children, simplify scalars.
use serde_json::{json, Value};

pub fn paths(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                cur.push(k.clone());
                out.push(cur.clone());
                paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                cur.push(i.to_string());
                out.push(cur.clone());
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}
pub fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for k in p {
        c = match c {
            Value::Object(m) => m.get_mut(k)?,
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(c)
}
pub fn remove(v: &Value, p: &[String]) -> Option<Value> {
    let mut n = v.clone();
    let (last, init) = p.split_last()?;
    match at(&mut n, init)? {
        Value::Object(m) => {
            m.shift_remove(last)?;
        }
        Value::Array(a) => {
            let i: usize = last.parse().ok()?;
            if i >= a.len() {
                return None;
            }
            a.remove(i);
        }
        _ => return None,
    }
    Some(n)
}
pub fn replace(v: &Value, p: &[String], x: Value) -> Option<Value> {
    let mut n = v.clone();
    let s = at(&mut n, p)?;
    if *s == x {
        return None;
    }
    *s = x;
    Some(n)
}
fn size(v: &Value) -> usize {
    v.to_string().len()
}

/// Greedy minimisation; `budget` bounds the number of candidate executions.
pub fn shrink(mut v: Value, mut budget: usize, still: &mut dyn FnMut(&Value) -> bool) -> Value {
    loop {
        let mut progress = false;
        let mut ps = vec![];
        paths(&v, &mut vec![], &mut ps);
        // Bigger subtrees first (shallower paths).
        ps.sort_by_key(|p| p.len());
        // Chunked removal for long arrays (schedules).
        let mut i = 0;
        while i < ps.len() {
            let p = ps[i].clone();
            i += 1;
            if budget == 0 {
                return v;
            }
            let mut vv = v.clone();
            let Some(cur) = at(&mut vv, &p).cloned() else { continue };
            if let Value::Array(a) = &cur {
                let mut chunk = a.len() / 2;
                let mut cur_a = a.clone();
                while chunk >= 2 && budget > 0 {
                    let mut s = 0;
                    while s < cur_a.len() && budget > 0 {
                        let mut b = cur_a.clone();
                        b.drain(s..(s + chunk).min(cur_a.len()));
                        if let Some(c) = replace(&v, &p, Value::Array(b.clone())) {
                            budget -= 1;
                            if still(&c) {
                                v = c;
                                cur_a = b;
                                progress = true;
                                continue;
                            }
                        }
                        s += chunk;
                    }
                    chunk /= 2;
                }
            }
            let mut cands = vec![];
            if let Some(c) = remove(&v, &p) {
                cands.push(c);
            }
            match &cur {
                Value::Array(a) if a.len() == 1 => cands.extend(replace(&v, &p, a[0].clone())),
                Value::Array(a) if !a.is_empty() => cands.extend(replace(&v, &p, json!([]))),
                Value::Object(m) if !m.is_empty() => {
                    cands.extend(replace(&v, &p, json!({})));
                    for x in m.values() {
                        if x.is_object() || x.is_string() {
                            cands.extend(replace(&v, &p, x.clone()));
                        }
                    }
                }
                Value::Number(_) => {
                    cands.extend(replace(&v, &p, json!(0)));
                    if cur.as_u64().unwrap_or(0) > 1 {
                        cands.extend(replace(&v, &p, json!(1)));
                    }
                }
                Value::Bool(true) => cands.extend(replace(&v, &p, json!(false))),
                Value::String(s) if s.len() > 1 && !s.contains(':') && !s.starts_with('@') => {
                    cands.extend(replace(&v, &p, json!("a")))
                }
                _ => {}
            }
            for c in cands {
                if budget == 0 {
                    return v;
                }
                if size(&c) > size(&v) {
                    continue;
                }
                budget -= 1;
                if still(&c) {
                    v = c;
                    progress = true;
                    break;
                }
            }
        }
        if !progress {
            return v;
        }
    }
}

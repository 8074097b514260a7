//! C19: hostile servers.
use super::common::*;
use super::{Prop, Verdict};
use crate::case::{self, Case};
use crate::net::{Fault, FaultKind};
use crate::ops::Res;
use crate::rng::Rng;
use serde_json::{json, Map, Value};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C19]
}

pub const KW: &[&str] = &[
    "@id", "@type", "@value", "@language", "@direction", "@index", "@list", "@set", "@graph", "@reverse", "@included",
    "@nest", "@context", "@none", "@json", "@base", "@vocab", "@import", "@propagate", "@protected", "@container",
    "@prefix", "@version", "@foo", "@", "", ":", "_:", "_:b", "a:", ":a", "ex:", "//", "http://", "a b", "é", "%zz", "http://[",
];
fn junk(r: &mut Rng, depth: usize) -> Value {
    match r.below(12) {
        0 => Value::Null,
        1 => json!(r.pct(50)),
        2 => json!([0, 1, -1][r.below(3)]),
        3 => [json!(1e308), json!(-0.0), json!(1e-7), json!(u64::MAX), json!(i64::MIN), json!(1.0), json!(1e21)][r.below(7)].clone(),
        4 | 5 => json!(r.pick(KW)),
        6 if depth < 3 => {
            let n = r.below(3);
            Value::Array((0..n).map(|_| junk(r, depth + 1)).collect())
        }
        7 | 8 if depth < 3 => {
            let n = r.below(3);
            let mut m = Map::new();
            for _ in 0..n {
                let k = r.pick(KW).to_string();
                let v = junk(r, depth + 1);
                m.insert(k, v);
            }
            Value::Object(m)
        }
        9 => json!("http://ex.org/p"),
        10 => json!(["en", "a", "b", "ex:p", "T", "ref", "_:x", "\u{0}", "x-y-z", "ltr"][r.below(10)]),
        _ => json!("plain"),
    }
}
fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count).sum(),
        Value::Object(m) => m.values().map(count).sum(),
        _ => 0,
    }
}
/// Damages the `n`-th node of the tree.
fn damage(r: &mut Rng, v: &mut Value, n: &mut usize, donor: &Value) {
    if *n == 0 {
        *n = usize::MAX;
        match (r.below(8), &mut *v) {
            (0, Value::Object(m)) if !m.is_empty() => {
                let k: Vec<String> = m.keys().cloned().collect();
                let k = r.pick(&k).clone();
                m.shift_remove(&k);
            }
            (1, Value::Object(m)) => {
                let x = junk(r, 0);
                m.insert(r.pick(KW).to_string(), x);
            }
            (2, Value::Object(m)) if !m.is_empty() => {
                // rename an entry
                let k: Vec<String> = m.keys().cloned().collect();
                let k = r.pick(&k).clone();
                let x = m.shift_remove(&k).unwrap();
                m.insert(r.pick(KW).to_string(), x);
            }
            (3, Value::Array(a)) if !a.is_empty() => {
                let i = r.below(a.len());
                a.remove(i);
            }
            (7, Value::Object(m)) if !m.is_empty() => {
                // an entry occurs twice
                let k: Vec<String> = m.keys().cloned().collect();
                let k = r.pick(&k).clone();
                let x = if r.pct(40) { m[&k].clone() } else { subtree(r, donor) };
                let k = format!("{k}{}", crate::net::AGAIN);
                if r.pct(50) {
                    m.insert(k, x);
                } else {
                    m.shift_insert(0, k, x);
                }
            }
            (4, x) => {
                let old = x.take();
                *x = if r.pct(50) { json!([old]) } else { let k = *r.pick(KW); json!({ k: old }) };
            }
            (5, x) => *x = subtree(r, donor),
            (_, x) => *x = junk(r, 0),
        }
        return;
    }
    *n -= 1;
    match v {
        Value::Array(a) => {
            for x in a {
                damage(r, x, n, donor);
                if *n == usize::MAX {
                    return;
                }
            }
        }
        Value::Object(m) => {
            for (_, x) in m.iter_mut() {
                damage(r, x, n, donor);
                if *n == usize::MAX {
                    return;
                }
            }
        }
        _ => {}
    }
}
fn subtree(r: &mut Rng, v: &Value) -> Value {
    let mut n = r.below(count(v));
    fn go(v: &Value, n: &mut usize) -> Option<Value> {
        if *n == 0 {
            return Some(v.clone());
        }
        *n -= 1;
        match v {
            Value::Array(a) => a.iter().find_map(|x| go(x, n)),
            Value::Object(m) => m.values().find_map(|x| go(x, n)),
            _ => None,
        }
    }
    go(v, &mut n).unwrap_or(Value::Null)
}
pub fn mutate(r: &mut Rng, v: &mut Value, donor: &Value) {
    for _ in 0..[1, 1, 2, 4, 8][r.below(5)] {
        let mut n = r.below(count(v));
        damage(r, v, &mut n, donor);
    }
}

struct C19;
impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let s = scenario(r, 2, &|_| {});
        let mut c = Case { world: s.world.clone(), ..Default::default() };
        let n = r.range(1, 2);
        for _ in 0..n {
            let m = r.range(1, 2);
            let ops = (0..m).map(|_| {
                let mut o = op(r, &s, b"eiccccfffrrrq");
                o.opts.mode10 = r.pct(10);
                o
            }).collect();
            let v = vocab(r);
            c.clients.push(client(ops, v));
        }
        let urls: Vec<String> = c.world.keys().cloned().collect();
        for _ in 0..r.range(1, 3) {
            let u = r.pick(&urls).clone();
            let donor = c.world[r.pick(&urls)].doc.clone();
            let mut d = c.world[&u].doc.clone();
            match r.below(10) {
                0 => d = donor,
                1 => d = junk(r, 0),
                2 => {
                    // deep nesting
                    let k = *r.pick(&["@list", "@graph", "@reverse", "@set", "a", "@nest", "@included"]);
                    for _ in 0..r.range(5, 60) {
                        d = if r.pct(50) { json!({ k: d }) } else { json!([d]) };
                    }
                }
                _ => mutate(r, &mut d, &donor),
            }
            if r.pct(70) {
                c.world.get_mut(&u).unwrap().doc = d;
            } else {
                c.faults.push(Fault { url: u, task: None, step: None, from: r.below(2) as u32, count: 1, kind: FaultKind::Replaced(d) });
            }
        }
        // values given directly may be just as wrong
        for i in 0..c.clients.len() {
            for st in 0..c.clients[i].steps.len() {
                if let crate::ops::Input::Loaded { doc, .. } = &mut c.clients[i].steps[st].op.input {
                    if r.pct(60) {
                        let donor = doc.clone();
                        mutate(r, doc, &donor);
                    }
                }
            }
        }
        schedule(r, &mut c);
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let o = case::run(&case);
        let mut vd = Verdict::default();
        vd.agg.add(&o);
        if v.to_string().contains(crate::net::AGAIN) {
            vd.agg.probe("repeated_keys");
        }
        vd.nontrivial = o.clients.iter().any(|c| c.reqs.iter().any(|r| r.iter().any(|r| r.ok)));
        for c in &o.clients {
            for s in &c.steps {
                if let Some(r) = s.res() {
                    vd.agg.probe(match r {
                        Res::Ok(_) => "ended_with_result",
                        Res::Err { .. } => "ended_with_error",
                    });
                }
            }
        }
        if o.capped {
            vd.agg.probe("capped");
            return Ok(vd);
        }
        for c in &o.clients {
            if let Some(d) = broken(c) {
                return Ok(vd.fail(d, &o.log));
            }
        }
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "at least one damaged web was read by an operation"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["nesting stays below 200 levels: the recursive algorithms need stack space proportional to the depth"]
    }
}

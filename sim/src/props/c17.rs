//! C17 compaction loses nothing, C24 compaction yields the form the standard describes.
use super::common::*;
use super::{Prop, Verdict};
use crate::canon;
use crate::case::{self, Case};
use crate::exec::Outcome;
use crate::gen::Feat;
use crate::model::compact::{compact, CompactOpts};
use crate::model::{self, Env, MErr, Order};
use crate::net::{Fault, FaultKind};
use crate::ops::{CtxIn, Input, Kind, Op, Res};
use crate::rng::Rng;
use serde_json::Value;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C17, &C24]
}

fn copts(op: &Op) -> CompactOpts {
    CompactOpts {
        arrays: !op.opts.no_compact_arrays,
        relative: !op.opts.no_compact_to_relative,
        ordered: op.opts.ordered,
    }
}
struct Want {
    res: Result<Value, MErr>,
    expanded: Option<Value>,
    murky: bool,
    out_of_fuel: bool,
    loads: Vec<String>,
}
/// The documents an operation of any kind dereferences (in order), whether it succeeds, and
/// whether the model is sure of it.
pub(super) fn loads_of(case: &Case, op: &Op, order: Order, scoped_types: bool) -> (Result<(), MErr>, Vec<String>, bool) {
    match &op.kind {
        Kind::Compact(_) | Kind::Flatten(Some(_)) => {
            let w = want_of(case, op, order, scoped_types);
            (w.res.map(|_| ()), w.loads, !w.murky && !w.out_of_fuel)
        }
        k => {
            let f = server(&case.world, &case.faults);
            let mut env = Env::new(&f, op.opts.mode10);
            env.order = order;
    env.policy = op.opts.policy;
            let mut res = model_expand(&env, op).0;
            match k {
                Kind::Compare(other) if res.is_ok() => {
                    let mut o = op.clone();
                    o.input = other.clone();
                    res = model_expand(&env, &o).0;
                }
                Kind::Flatten(None) => res = res.and_then(|e| model::flatten::flatten(&e)),
                _ => {}
            }
            let loads = env.loads.borrow().clone();
            (res.map(|_| ()), loads, env.fuel.get() > 0)
        }
    }
}
fn want_of(case: &Case, op: &Op, order: Order, scoped_types: bool) -> Want {
    let f = server(&case.world, &case.faults);
    let mut env = Env::new(&f, op.opts.mode10);
    env.order = order;
    env.policy = op.opts.policy;
    let (res, url) = model_expand(&env, op);
    let mut expanded = None;
    let murky = std::cell::Cell::new(false);
    let res = res.map(|e| canon::dedup(&no_null_ids(&e))).and_then(|e| {
        expanded = Some(e.clone());
        let (e, c) = match &op.kind {
            Kind::Compact(c) => (e, c),
            Kind::Flatten(Some(c)) => (model::flatten::flatten(&e)?, c),
            _ => unreachable!(),
        };
        compact(&env, &e, &ec(c), url.as_deref(), op.opts.base.as_deref(), copts(op), scoped_types, &murky)
    });
    let loads = env.loads.borrow().clone();
    let murky = murky.get() || expanded.as_ref().map(keyword_ids).unwrap_or(false);
    Want { res, expanded, murky, out_of_fuel: env.fuel.get() == 0, loads }
}
/// Is the identifier of a node a keyword? It is no identifier then.
fn keyword_ids(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(keyword_ids),
        Value::Object(m) => m.iter().any(|(k, x)| match (k.as_str(), x) {
            ("@value", _) => false,
            ("@id", Value::String(s)) => s.starts_with('@'),
            (_, x) => keyword_ids(x),
        }),
        _ => false,
    }
}
/// A node whose identifier expands to nothing has no identifier.
fn no_null_ids(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(no_null_ids).collect()),
        Value::Object(m) if m.contains_key("@value") => v.clone(),
        Value::Object(m) => Value::Object(
            m.iter().filter(|(k, x)| *k != "@id" || !x.is_null()).map(|(k, x)| (k.clone(), no_null_ids(x))).collect(),
        ),
        v => v.clone(),
    }
}
/// Is the result the one of another order of entries, which the standard leaves open?
fn otherwise(case: &Case, op: &Op, got: &Res) -> bool {
    model::ORDERS.iter().any(|o| {
        [false, true].into_iter().any(|t| {
            let w = want_of(case, op, *o, t);
            match (&w.res, got) {
                (Ok(x), Res::Ok(g)) => w.murky || agrees(op, g, x),
                (Err(_), Res::Err { .. }) => true,
                _ => false,
            }
        })
    })
}

/// Language tags are case insensitive, and the ones generated are known.
fn tags(v: &Value) -> Value {
    let f = |s: &str| match s {
        "EN" | "EN-us" | "de-AT" => s.to_lowercase(),
        _ => s.to_string(),
    };
    match v {
        Value::String(s) => Value::String(f(s)),
        Value::Array(a) => Value::Array(a.iter().map(tags).collect()),
        Value::Object(m) => {
            let mut out = serde_json::Map::new();
            for (k, x) in m {
                let (k, x) = (f(k), tags(x));
                match out.get_mut(&k) {
                    None => {
                        out.insert(k, x);
                    }
                    Some(y) => {
                        let list = |v: &Value| v.as_array().cloned().unwrap_or(vec![v.clone()]);
                        *y = Value::Array(list(y).into_iter().chain(list(&x)).collect());
                    }
                }
            }
            Value::Object(out)
        }
        v => v.clone(),
    }
}
/// Compacted documents up to the order of arrays and the form of numbers.
fn split(v: &Value) -> (Value, Option<Value>) {
    match v {
        Value::Object(m) => {
            let mut m = m.clone();
            let c = m.shift_remove("@context");
            (Value::Object(m), c)
        }
        v => (v.clone(), None),
    }
}
fn agrees(op: &Op, got: &Value, want: &Value) -> bool {
    let ((g, gc), (w, wc)) = (split(&tags(got)), split(&tags(want)));
    if gc.map(|c| canon::exact(&c)) != wc.map(|c| canon::exact(&c)) {
        return false;
    }
    match &op.kind {
        Kind::Flatten(_) => canon::iso(&g, &w, &canon::sorted),
        _ => canon::sorted(&g) == canon::sorted(&w),
    }
}

fn gen_case(r: &mut Rng, kinds: &[u8], tweak: &dyn Fn(&mut Feat)) -> Case {
    let s = scenario(r, 1, tweak);
    let mut c = Case { world: s.world.clone(), ..Default::default() };
    let mut o = op(r, &s, kinds);
    if r.pct(85) {
        o.opts.mode10 = false;
    }
    if let Kind::Flatten(x @ None) = &mut o.kind {
        *x = Some(ctx_in(r, &s));
    }
    // Half of the time, compact with what the document was expanded with.
    if r.pct(50) {
        let k = match &o.input {
            crate::ops::Input::Loaded { doc, .. } => doc.get("@context").cloned(),
            crate::ops::Input::Iri(u) => c.world.get(u).and_then(|p| p.doc.get("@context").cloned()),
        };
        if let (Some(k), Kind::Compact(x) | Kind::Flatten(Some(x))) = (k, &mut o.kind) {
            *x = CtxIn::Loaded { url: Some("http://docs.org/base/doc.jsonld".into()), ctx: k };
        }
    }
    let v = vocab(r);
    c.clients = vec![client(vec![o], v)];
    schedule(r, &mut c);
    if r.pct(15) {
        let url = r.pick(&s.ctxs).clone();
        c.faults.push(Fault { url, task: None, step: None, from: 0, count: u32::MAX, kind: FaultKind::Slow(r.range(1, 3000) as u64) });
    }
    c
}

// ------------------------------------------------------------------------ C24
struct C24;
impl Prop for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let p = r.pct(80);
        let kind: &[u8] = if r.pct(20) { b"f" } else { b"c" };
        to_value(&gen_case(r, kind, &|f| {
            if p {
                f.protected = false;
            }
        }))
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let mut vd = Verdict::default();
        let op = &case.clients[0].steps[0].op;
        let w = want_of(&case, op, Order::Given, false);
        let out = case::run(&case);
        vd.agg.add(&out);
        if w.out_of_fuel {
            vd.agg.probe("model_gave_up");
            return Ok(vd);
        }
        let c = &out.clients[0];
        let show = |w: &Result<Value, MErr>| match w {
            Ok(v) => cut(&v.to_string()),
            Err(e) => format!("{e:?}"),
        };
        let bad = match (&w.res, step_res(c, 0)) {
            (x, None) => match &c.outcome {
                Outcome::Panicked(_) | Outcome::Stuck => {
                    Some(format!("not completed: {:?}; expected {}", c.outcome, show(x)))
                }
                _ => None,
            },
            (Ok(x), Some(Res::Ok(g))) => {
                if agrees(op, g, x) {
                    vd.agg.probe("agreed_on_result");
                    vd.nontrivial = g.as_object().map(|m| m.len() > 1).unwrap_or(false);
                    None
                } else {
                    let (a, b) = match (split(g), split(x)) {
                        ((a, ca), (b, cb)) if ca == cb => (a, b),
                        _ => (g.clone(), x.clone()),
                    };
                    Some(format!("wrong form: {} but the standard gives {}", cut(&a.to_string()), cut(&b.to_string())))
                }
            }
            (Err(_), Some(Res::Err { .. })) => {
                vd.agg.probe("agreed_on_failure");
                None
            }
            (Ok(_), Some(r)) => Some(format!("refused: {} but the standard gives {}", brief(r), show(&w.res))),
            (Err(e), Some(r)) => Some(format!("accepted: {} but the standard gives {e:?}", brief(r))),
        };
        Ok(match bad {
            Some(_) if step_res(c, 0).map(|g| otherwise(&case, op, g)).unwrap_or(false) => {
                vd.agg.probe("agreed_otherwise");
                vd
            }
            Some(d) => vd.fail(d, &out.log),
            None => vd,
        })
    }
    fn rule(&self) -> &'static str {
        "the compacted document has entries besides its context"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["results are compared with the reference model up to the order of arrays and the form of numbers"]
    }
}

// ------------------------------------------------------------------------ C17
struct C17;
/// Canonical form, where anonymous empty graphs are not counted.
fn stated(v: &Value) -> Value {
    fn once(v: &Value) -> Value {
        match v {
            Value::Array(a) => {
                let mut b: Vec<Value> = vec![];
                for x in a.iter().map(once) {
                    let empty = matches!(&x, Value::Object(m) if m.len() == 1 && m.get("@graph") == Some(&Value::Array(vec![])));
                    if !(empty && b.contains(&x)) {
                        b.push(x);
                    }
                }
                Value::Array(b)
            }
            Value::Object(m) if !m.contains_key("@value") && !m.contains_key("@list") => {
                Value::Object(m.iter().map(|(k, x)| (k.clone(), once(x))).collect())
            }
            v => v.clone(),
        }
    }
    once(&canon::expanded(v))
}
/// Expands the result of a compaction with the context of that compaction.
fn back(op: &Op, c: &CtxIn, url: Option<String>, compacted: &Value) -> Op {
    let mut b = op.clone();
    b.kind = Kind::Expand;
    b.input = Input::Loaded { url, context_url: None, doc: split(compacted).0 };
    b.opts.expand_context = Some(c.clone());
    b
}
impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let p = r.pct(80);
        let mut c = gen_case(r, b"c", &|f| {
            if p {
                f.protected = false;
            }
        });
        let mut e = c.clients[0].steps[0].clone();
        e.op.kind = Kind::Expand;
        c.clients[0].steps.push(e);
        // Properties which are not even IRIs have no meaning to keep.
        let c = to_value(&c).to_string().replace("undefined term", "undefined-term").replace("x y", "x-y");
        crate::net::parse(&c).unwrap()
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let mut case: Case = from_value(v)?;
        let mut vd = Verdict::default();
        if case.clients[0].steps.len() < 2 {
            return Ok(vd);
        }
        case.clients[0].steps[1].op = case.clients[0].steps[0].op.clone();
        case.clients[0].steps[1].op.kind = Kind::Expand;
        let op = &case.clients[0].steps[0].op;
        let c = match &op.kind {
            Kind::Compact(c) => c,
            _ => return Ok(vd),
        };
        let out = case::run(&case);
        vd.agg.add(&out);
        let (compacted, original) = match (step_res(&out.clients[0], 0), step_res(&out.clients[0], 1)) {
            (Some(Res::Ok(c)), Some(Res::Ok(e))) => (c.clone(), e.clone()),
            (Some(Res::Err { .. }), _) | (_, Some(Res::Err { .. })) => {
                vd.agg.probe("refused");
                return Ok(vd);
            }
            _ => match &out.clients[0].outcome {
                o @ (Outcome::Panicked(_) | Outcome::Stuck) => return Ok(vd.fail(format!("not completed: {o:?}"), &out.log)),
                _ => return Ok(vd),
            },
        };
        let url = {
            let f = server(&case.world, &case.faults);
            let env = Env::new(&f, op.opts.mode10);
            model_expand(&env, op).1
        };
        let mut again = case.clone();
        again.clients[0].steps.truncate(1);
        again.clients[0].steps[0].op = back(op, c, url.clone(), &compacted);
        let out = case::run(&again);
        vd.agg.add(&out);
        let got = step_res(&out.clients[0], 0);
        let want = stated(&original);
        let bad = match got {
            Some(Res::Ok(g)) if stated(g) == want => {
                vd.agg.probe("came_back");
                vd.nontrivial = want.as_array().map(|a| !a.is_empty()).unwrap_or(false);
                None
            }
            Some(Res::Ok(g)) => Some(format!(
                "lost or changed: {} came back as {}",
                cut(&want.to_string()),
                cut(&stated(g).to_string())
            )),
            Some(e) => Some(format!("does not expand any more: {} from {}", brief(e), cut(&compacted.to_string()))),
            None => Some(format!("not completed: {:?}", out.clients[0].outcome)),
        };
        let Some(d) = bad else { return Ok(vd) };
        // What the standard's own algorithms lose is no fault of this implementation.
        for o in model::ORDERS {
            for t in [false, true] {
                let w = want_of(&case, op, o, t);
                let x = match &w.res {
                    _ if w.out_of_fuel || w.murky => {
                        vd.agg.probe("model_gave_up");
                        return Ok(vd);
                    }
                    Ok(x) if agrees(op, &compacted, x) => x,
                    _ => continue,
                };
                let m = model_in(&case.world, &case.faults, &back(op, c, url.clone(), x), o);
                let whole = w.expanded.as_ref().map(stated);
                if m.out_of_fuel || m.res.ok().map(|x| stated(&canon::dedup(&x))) != whole {
                    vd.agg.probe("the_standard_loses_it_too");
                    return Ok(vd);
                }
            }
        }
        Ok(vd.fail(d, &out.log))
    }
    fn rule(&self) -> &'static str {
        "a non-empty document was compacted, expanded again and came back"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a loss which the reference model of the standard makes too, from the very same compacted form, is not held against the code"]
    }
}

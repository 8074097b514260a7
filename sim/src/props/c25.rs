//! C25: expansion policies.
use super::c03::{doc_sites, judge, one_op, walk};
use super::common::*;
use super::{Prop, Verdict};
use super::c17::loads_of;
use crate::case::{self, Case};
use crate::ops::{Input, Kind, Res};
use crate::rng::Rng;
use serde_json::{json, Value};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C25]
}
struct C25;
impl Prop for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let (mut c, s) = one_op(r, b"eeeeicfr", &|f| {
            f.junk = false;
            f.kalias = false;
        });
        let p = [[0, 0, 1, 1, 2][r.below(5)], [0, 1, 1, 1, 2][r.below(5)], [0, 0, 1][r.below(3)]];
        let o = &mut c.clients[0].steps[0].op;
        o.opts.policy = if p == [0; 3] { [1, 1, 0] } else { p };
        // Some keys and types whose meaning depends on the policy.
        let edit = |r: &mut Rng, doc: &mut Value| {
            let (mut nodes, mut ctxs) = (vec![], vec![]);
            doc_sites(doc, vec![], &mut nodes, &mut ctxs);
            for _ in 0..r.below(3) {
                if nodes.is_empty() {
                    return;
                }
                let at = r.pick(&nodes).clone();
                let Some(Value::Object(m)) = walk(doc, &at) else { continue };
                match r.below(9) {
                    0 => m.insert("undef".into(), json!("x")),
                    1 => m.insert("un def".into(), json!("x")),
                    2 => m.insert("bad key:x".into(), json!({"@id": "http://n.org/n9"})),
                    3 => m.insert("@type".into(), json!(["Undef", "http://ex.org/T"])),
                    4 => m.insert("@type".into(), json!(["bad type:x", "http://ex.org/T"])),
                    5 => m.insert("@unknown".into(), json!("x")),
                    6 => m.insert("http://ex.org/p".into(), json!({"@value": "x", "@language": "en"})),
                    7 => m.insert("voc".into(), json!("Undef")),
                    _ => m.insert("undef:x".into(), json!(["x"])),
                };
            }
        };
        let d = s.docs[0].clone();
        let docp = c.world.get_mut(&d).unwrap();
        edit(r, &mut docp.doc);
        if let Input::Loaded { doc, .. } = &mut c.clients[0].steps[0].op.input {
            edit(r, doc);
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let op = &case.clients[0].steps[0].op;
        if op.opts.policy.iter().zip([3, 3, 2]).any(|(p, n)| *p >= n) {
            return Ok(Verdict::default());
        }
        let mut lenient = op.clone();
        lenient.opts.policy = [0; 3];
        // Compaction, flattening and conversion start with the same expansion.
        if !matches!(op.kind, Kind::Expand | Kind::IntoDocument) {
            let mut vd = Verdict::default();
            let out = case::run(&case);
            vd.agg.add(&out);
            let Some(got) = step_res(&out.clients[0], 0) else { return Ok(vd) };
            let mut said = vec![];
            for o in crate::model::ORDERS {
                for t in [false, true] {
                    let (res, _, sure) = loads_of(&case, op, o, t);
                    if !sure {
                        return Ok(vd);
                    }
                    said.push(res.is_ok());
                }
            }
            let ok = matches!(got, Res::Ok(_));
            if !said.contains(&ok) {
                return Ok(vd.fail(format!("wrong outcome under a policy: {}", brief(got)), &out.log));
            }
            vd.agg.probe(if ok { "accepted_by_the_policy" } else { "rejected" });
            return Ok(vd);
        }
        let base = model(&case.world, &case.faults, &lenient);
        Ok(match judge(&case) {
            Err(vd) => vd,
            Ok(mut j) => {
                if j.m.out_of_fuel || base.out_of_fuel {
                    return Ok(j.vd);
                }
                let got = step_res(&j.out.clients[0], 0);
                match (&base.res, &j.m.res, got) {
                    (Ok(_), Err(_), Some(Res::Err { .. })) => {
                        j.vd.agg.probe("rejected_by_the_policy");
                        j.vd.nontrivial = true;
                    }
                    (Ok(a), Ok(b), Some(Res::Ok(_))) => {
                        let differs = a != b;
                        j.vd.agg.probe(if differs { "dropped_by_the_policy" } else { "not_concerned" });
                        j.vd.nontrivial = differs || a.as_array().map(|a| !a.is_empty()).unwrap_or(false);
                    }
                    _ => {}
                }
                j.vd
            }
        })
    }
    fn rule(&self) -> &'static str {
        "the policy rejected or dropped something, or nothing of a non-empty result was its concern"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the oracle is the reference model of expansion, extended with the documented meaning of policies",
          "index properties and datatypes which a policy drops are not judged (nothing is documented)"]
    }
}

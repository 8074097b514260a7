//! C27: quads, in whatever order and however many times they arrive, become a document which
//! represents their dataset.
use super::common::*;
use super::{Prop, Verdict};
use crate::canon;
use crate::case::{self, Case};
use crate::model::rdf;
use crate::ops::{Input, Kind, Op, Res};
use crate::rng::Rng;
use serde_json::{json, Value};

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C27]
}

const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

fn resource(r: &mut Rng) -> String {
    ["http://n.org/n1", "http://n.org/n2", "http://n.org/n3", "_:b0", "_:b1", "_:b2", "_:b3"][r.below(7)].into()
}
fn literal(r: &mut Rng) -> Value {
    let x = |s: &str| format!("{XSD}{s}");
    let t = |v: &str, t: String| json!({"v": v, "t": t});
    match r.below(16) {
        0 => t("5", x("integer")),
        1 => t("-12", x("integer")),
        2 => t(["5.5E0", "1.0E2", "-1.0E-7", "1.0E21"][r.below(4)], x("double")),
        3 => t(["true", "false"][r.below(2)], x("boolean")),
        4 => json!({"v": "v", "l": (["en", "fr", "en-us"][r.below(3)])}),
        5 => json!({"v": "", "l": "en"}),
        6 => t("2024-01-01", x("date")),
        7 => t(["{\"a\":1}", "[]", "null", "\"s\"", "{\"b\":[1,{\"@id\":\"_:b0\"}]}"][r.below(5)], format!("{RDF}JSON")),
        8 => t("v", "https://www.w3.org/ns/i18n#en_ltr".into()),
        9 => t("5", x("string")),
        10 => t("", x("string")),
        11 => t("_:b0", x("string")),
        12 => t("5", x("decimal")),
        13 => t("v", "http://ex.org/D".into()),
        // Nothing that JSON can tell.
        14 if r.pct(8) => match r.below(3) {
            0 => t("INF", x("double")),
            1 => t("maybe", x("boolean")),
            _ => t("{", format!("{RDF}JSON")),
        },
        _ => t("v", x("string")),
    }
}
/// Literals which the serialization has no form for.
fn unspeakable(o: &Value) -> bool {
    let (Some(v), Some(t)) = (o["v"].as_str(), o["t"].as_str()) else { return false };
    match t.strip_prefix(XSD) {
        Some("integer" | "double") => crate::net::parse(v).map(|v| !v.is_number()).unwrap_or(true),
        Some("boolean") => !matches!(v, "true" | "false" | "1" | "0"),
        _ => t.strip_prefix(RDF) == Some("JSON") && crate::net::parse(v).is_err(),
    }
}
fn dataset(r: &mut Rng) -> Vec<Value> {
    let rdf = |s: &str| format!("{RDF}{s}");
    let mut out = vec![];
    let graph = |r: &mut Rng| match r.below(8) {
        0 => json!("http://n.org/n1"),
        1 => json!("_:b0"),
        2 => json!("http://n.org/g"),
        _ => Value::Null,
    };
    for _ in 0..r.below(7) {
        let p = match r.below(10) {
            0 | 1 => rdf("type"),
            2 => rdf("first"),
            3 => rdf("rest"),
            4 => "_:p".into(),
            5 | 6 => "http://ex.org/q".into(),
            _ => "http://ex.org/p".into(),
        };
        let o = match r.below(10) {
            0..=2 => literal(r),
            3 => json!({"id": (rdf(["nil", "List", "type"][r.below(3)]))}),
            _ => json!({"id": resource(r)}),
        };
        let g = graph(r);
        out.push(json!([resource(r), p, o, g]));
    }
    // Lists, mostly well-formed.
    for k in 0..r.below(3) {
        let g = graph(r);
        let n = r.below(4);
        let label = |i: usize| if i == n { rdf("nil") } else { format!("_:l{k}{i}") };
        for i in 0..n {
            let o = if r.pct(50) { literal(r) } else { json!({"id": resource(r)}) };
            out.push(json!([label(i), rdf("first"), o, g]));
            out.push(json!([label(i), rdf("rest"), {"id": label(i + 1)}, g]));
            if r.pct(20) {
                out.push(json!([label(i), rdf("type"), {"id": rdf("List")}, g]));
            }
            if r.pct(8) {
                let x = json!({"id": resource(r)});
                let p = rdf(["first", "rest", "type", "value"][r.below(4)]);
                out.push(json!([label(i), p, x, g]));
            }
        }
        if r.pct(80) {
            out.push(json!([resource(r), "http://ex.org/p", {"id": label(0)}, g]));
        }
        if r.pct(10) {
            out.push(json!([resource(r), "http://ex.org/q", {"id": label(n / 2)}, graph(r)]));
        }
    }
    out
}

struct C27;
impl Prop for C27 {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        let n = [1, 1, 2, 3][r.below(4)];
        let s = scenario(r, 2, &|f| f.junk = false);
        let mut c = Case { world: s.world.clone(), ..Default::default() };
        c.shared_gen = r.pct(70);
        for _ in 0..n {
            let mut ops = vec![];
            for _ in 0..1 + r.below(3) {
                let order = if r.pct(80) { 1 + r.next() % 1_000_000 } else { 0 };
                if r.pct(70) {
                    let input = Input::Loaded { url: None, context_url: None, doc: json!([]) };
                    let quads = Some(dataset(r));
                    ops.push(Op { kind: Kind::FromRdf { quads, order }, input, opts: Default::default() });
                } else {
                    let mut o = op(r, &s, b"e");
                    o.kind = Kind::FromRdf { quads: None, order };
                    ops.push(o);
                }
            }
            let v = vocab(r);
            let mut k = client(ops, v);
            if n > 1 && r.pct(20) {
                let i = r.below(k.steps.len());
                k.steps[i].cancel_at = Some(1 + r.below(6) as u64);
            }
            c.clients.push(k);
        }
        schedule(r, &mut c);
        if r.pct(15) {
            let url = r.pick(&s.ctxs).clone();
            let k = some_fault(r);
            c.faults.push(fault(&url, k));
        }
        to_value(&c)
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let case: Case = from_value(v)?;
        let mut vd = Verdict::default();
        let out = case::run(&case);
        vd.agg.add(&out);
        for (i, c) in out.clients.iter().enumerate() {
            if let Some(b) = broken(c) {
                return Ok(vd.fail(b, &out.log));
            }
            for (k, st) in case.clients[i].steps.iter().enumerate() {
                if !matches!(st.op.kind, Kind::FromRdf { .. }) {
                    continue;
                }
                let (quads, doc, error) = match step_res(c, k) {
                    Some(Res::Ok(o)) => (o["quads"].clone(), &o["doc"], &o["error"]),
                    _ => continue,
                };
                let told = quads.as_array().cloned().unwrap_or_default();
                let hopeless = told.iter().any(|q| unspeakable(&q[2]));
                if !error.is_null() {
                    if !hopeless {
                        return Ok(vd.fail(format!("{error} for {}", cut(&quads.to_string())), &out.log));
                    }
                    vd.agg.probe("no_form_in_json");
                    continue;
                }
                if hopeless {
                    return Ok(vd.fail(format!("{} became {}", cut(&quads.to_string()), cut(&doc.to_string())), &out.log));
                }
                let back = match rdf::to_rdf(doc, None, true) {
                    Ok(b) => b,
                    Err(e) => return Ok(vd.fail(format!("{} became {}: {e:?}", cut(&quads.to_string()), cut(&doc.to_string())), &out.log)),
                };
                if !canon::iso(&quads, &back, &rdf::canon) {
                    let what = format!(
                        "{} became {} which is {}",
                        cut(&quads.to_string()),
                        cut(&doc.to_string()),
                        cut(&back.to_string())
                    );
                    return Ok(vd.fail(what, &out.log));
                }
                vd.agg.probe("dataset_read");
                if told.iter().any(|q| !q[3].is_null()) {
                    vd.agg.probe("with_named_graphs");
                }
                if told.iter().any(|q| q[1] == json!(format!("{RDF}first"))) {
                    vd.agg.probe("with_lists");
                }
                vd.nontrivial |= !told.is_empty();
            }
        }
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "a dataset which is not empty was read"
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the model's conversion of expanded documents to RDF, which is that of the standard",
          "native literals (integers, doubles, booleans) are generated in canonical form or in none that JSON has"]
    }
}

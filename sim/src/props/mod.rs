//! Properties: case generators and oracles.
use crate::case::Agg;
use crate::rng::Rng;
use serde_json::Value;

pub mod common;
mod c01;
mod c03;
mod c08;
mod c09;
mod c11;
mod c13;
mod c14;
mod c17;
mod c18;
mod c19;
mod c25;
mod c26;
mod c27;
mod c28;

#[derive(Default, Debug, Clone)]
pub struct Verdict {
    /// `class: details`.
    pub violation: Option<String>,
    /// Did the case exercise what the property is about?
    pub nontrivial: bool,
    pub agg: Agg,
    pub trace: Vec<String>,
}
impl Verdict {
    pub fn fail(mut self, d: String, log: &[String]) -> Verdict {
        if self.violation.is_none() {
            self.violation = Some(d);
            self.trace = log.to_vec();
        }
        self
    }
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn gen(&self, r: &mut Rng) -> Value;
    fn run(&self, case: &Value) -> Result<Verdict, String>;
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static [&'static str] {
        &[
            "json-ld processor (src/processor)",
            "json-ld-context-processing",
            "json-ld-expansion",
            "json-ld-compaction",
            "json-ld-core (documents, flattening, RDF, loaders' traits)",
            "json-ld-syntax",
        ]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["network and servers (simulated loader)", "executor and clock (simulated)", "hash map keys (seeded)"]
    }
    fn assumptions(&self) -> &'static [&'static str];
    fn quick_secs(&self) -> u64 {
        18
    }
}

pub fn all() -> Vec<&'static dyn Prop> {
    let mut v: Vec<&'static dyn Prop> = vec![];
    v.extend(c01::props());
    v.extend(c03::props());
    v.extend(c08::props());
    v.extend(c09::props());
    v.extend(c11::props());
    v.extend(c13::props());
    v.extend(c14::props());
    v.extend(c17::props());
    v.extend(c18::props());
    v.extend(c19::props());
    v.extend(c25::props());
    v.extend(c26::props());
    v.extend(c27::props());
    v.extend(c28::props());
    v.sort_by_key(|p| p.id());
    v
}
pub fn get(id: &str) -> Option<&'static dyn Prop> {
    all().into_iter().find(|p| p.id() == id)
}

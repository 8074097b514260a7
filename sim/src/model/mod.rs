//! Small executable reference model of JSON-LD 1.1 processing, written from the
//! JSON-LD 1.1 API recommendation and sharing no code with /repo. It is
//! synchronous and sequential: remote documents are looked up in a table.
pub mod ctx;
pub mod expand;
pub mod compact;
pub mod rdf;
pub mod flatten;

use serde_json::Value;
use std::cell::RefCell;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MErr {
    pub code: &'static str,
    /// URL whose retrieval failed, when the error is a retrieval failure.
    pub target: Option<String>,
}
pub fn err<T>(code: &'static str) -> Result<T, MErr> {
    Err(MErr { code, target: None })
}
pub type R<T> = Result<T, MErr>;

/// What a successful retrieval yields.
#[derive(Debug, Clone)]
pub struct MDoc {
    pub url: String,
    pub doc: Value,
    pub context_url: Option<String>,
}

pub struct Env<'a> {
    /// Table of served documents. `None` means that the retrieval fails.
    pub fetch: &'a dyn Fn(&str) -> Option<MDoc>,
    pub loads: RefCell<Vec<String>>,
    pub mode10: bool,
    /// Model step counter, bounds runaway recursion.
    pub fuel: std::cell::Cell<u64>,
    /// Order in which entries are expanded, where the standard leaves it open.
    pub order: Order,
    /// What to do with keys and types (invalid, needing the vocabulary mapping: 0 keep, 1 drop,
    /// 2 reject; undefined keys: 0 drop, 1 reject).
    pub policy: [u8; 3],
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Order {
    Sorted,
    Given,
    SortedBack,
    GivenBack,
    /// Nested entries where they appear rather than after the others.
    SortedInline,
    GivenInline,
}
pub const ORDERS: [Order; 6] =
    [Order::Sorted, Order::Given, Order::SortedBack, Order::GivenBack, Order::SortedInline, Order::GivenInline];
impl<'a> Env<'a> {
    pub fn new(fetch: &'a dyn Fn(&str) -> Option<MDoc>, mode10: bool) -> Self {
        Env { fetch, loads: RefCell::new(vec![]), mode10, fuel: std::cell::Cell::new(200_000), order: Order::Sorted, policy: [0; 3] }
    }
    pub fn arrange(&self, keys: &mut [&String]) {
        if matches!(self.order, Order::Sorted | Order::SortedBack | Order::SortedInline) {
            keys.sort();
        }
        if matches!(self.order, Order::SortedBack | Order::GivenBack) {
            keys.reverse();
        }
    }
    pub fn load(&self, url: &str, code: &'static str) -> R<MDoc> {
        self.loads.borrow_mut().push(url.to_string());
        match (self.fetch)(url) {
            Some(d) => Ok(d),
            None => Err(MErr { code, target: Some(url.to_string()) }),
        }
    }
    pub fn burn(&self) -> R<()> {
        let f = self.fuel.get();
        if f == 0 {
            return err("model out of fuel");
        }
        self.fuel.set(f - 1);
        Ok(())
    }
}

pub fn arr(v: &Value) -> Vec<&Value> {
    match v {
        Value::Array(a) => a.iter().collect(),
        v => vec![v],
    }
}

pub const KEYWORDS: &[&str] = &[
    "@base", "@container", "@context", "@default", "@direction", "@graph", "@id", "@import", "@included",
    "@index", "@json", "@language", "@list", "@nest", "@none", "@prefix", "@preserve", "@protected", "@reverse",
    "@set", "@type", "@value", "@version", "@vocab", "@propagate",
];
pub fn is_keyword(s: &str) -> bool {
    KEYWORDS.contains(&s)
}
/// `"@"1*ALPHA`
pub fn keyword_like(s: &str) -> bool {
    s.len() > 1 && s.starts_with('@') && s[1..].bytes().all(|b| b.is_ascii_alphabetic())
}
pub fn is_iri(s: &str) -> bool {
    iref::Iri::new(s).is_ok()
}
pub fn is_blank(s: &str) -> bool {
    s.starts_with("_:")
}
pub fn resolve(base: Option<&str>, r: &str) -> Option<String> {
    if is_iri(r) {
        // still normalise dot segments the way the resolution algorithm does
        if base.is_none() {
            return Some(r.to_string());
        }
    }
    let rr = iref::IriRef::new(r).ok()?;
    let b = iref::Iri::new(base?).ok()?;
    Some(rr.resolved(b).to_string())
}

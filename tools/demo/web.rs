//! A small web of documents served by a `Loader`, with an optional delay
//! (number of times an answer makes its caller wait).
#![allow(dead_code)]
use contextual::WithContext;
use iref::{Iri, IriBuf};
use json_ld::{JsonLdProcessor, Loader, Options, RemoteDocument, RemoteDocumentReference};
use json_ld_core::{LoadError, LoadingResult, RemoteContextReference};
use json_syntax::{Parse, Print, Value};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
pub struct Web {
    pub pages: HashMap<String, Page>,
    pub log: RefCell<Vec<String>>,
}
pub struct Page {
    pub doc: String,
    pub final_url: Option<String>,
    pub context_url: Option<String>,
    pub delay: usize,
}
#[derive(Debug)]
pub struct NotFound;
impl std::fmt::Display for NotFound {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("not found")
    }
}
impl std::error::Error for NotFound {}

pub fn iri(s: &str) -> IriBuf {
    IriBuf::new(s.to_string()).unwrap()
}
pub fn json(s: &str) -> Value {
    Value::parse_str(s).unwrap().0
}
impl Web {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn page(mut self, url: &str, doc: &str) -> Self {
        self.pages.insert(url.into(), Page { doc: doc.into(), final_url: None, context_url: None, delay: 0 });
        self
    }
    pub fn full(mut self, url: &str, doc: &str, final_url: Option<&str>, context_url: Option<&str>, delay: usize) -> Self {
        self.pages.insert(
            url.into(),
            Page { doc: doc.into(), final_url: final_url.map(Into::into), context_url: context_url.map(Into::into), delay },
        );
        self
    }
    pub fn requests(&self) -> Vec<String> {
        self.log.borrow().clone()
    }
    pub fn options() -> Options {
        Options::default()
    }
    /// Result of the expansion of a document, or its error code.
    pub fn expand(&self, url: &str) -> Result<Value, String> {
        self.expand_with(url, Options::default())
    }
    pub fn expand_with(&self, url: &str, options: Options) -> Result<Value, String> {
        let d: RemoteDocumentReference = RemoteDocumentReference::iri(iri(url));
        match futures::executor::block_on(d.expand_using(self, options)) {
            Ok(e) => Ok(json(&e.with(&rdf_types::vocabulary::no_vocabulary_mut()).compact_print().to_string())),
            Err(e) => Err(e.code().as_str().to_string()),
        }
    }
    pub fn compact(&self, url: &str, context: &str) -> Result<Value, String> {
        let d: RemoteDocumentReference = RemoteDocumentReference::iri(iri(url));
        let c: RemoteContextReference = RemoteContextReference::iri(iri(context));
        match futures::executor::block_on(d.compact(c, self)) {
            Ok(v) => Ok(v),
            Err(e) => Err(e.code().as_str().to_string()),
        }
    }
    /// Expands what `v` holds with this web.
    pub fn expand_value(&self, v: Value) -> Result<Value, String> {
        let d: RemoteDocumentReference =
            RemoteDocumentReference::Loaded(RemoteDocument::new(Some(iri("http://given.org/doc")), None, v));
        match futures::executor::block_on(d.expand(self)) {
            Ok(e) => Ok(json(&e.with(&rdf_types::vocabulary::no_vocabulary_mut()).compact_print().to_string())),
            Err(e) => Err(e.code().as_str().to_string()),
        }
    }
    pub fn flatten(&self, url: &str) -> Result<Value, String> {
        let d: RemoteDocumentReference = RemoteDocumentReference::iri(iri(url));
        let mut g = rdf_types::generator::Blank::new_with_prefix("g".to_string());
        match futures::executor::block_on(d.flatten(&mut g, self)) {
            Ok(v) => Ok(v),
            Err(e) => Err(e.code().as_str().to_string()),
        }
    }
}
struct Delay(usize);
impl std::future::Future for Delay {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 == 0 {
            std::task::Poll::Ready(())
        } else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    }
}
impl Loader for Web {
    async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
        self.log.borrow_mut().push(url.to_string());
        if self.log.borrow().len() > 300 {
            println!("endless requests");
            std::process::exit(1);
        }
        match self.pages.get(url.as_str()) {
            Some(p) => {
                Delay(p.delay).await;
                let u = p.final_url.as_deref().unwrap_or(url.as_str());
                Ok(RemoteDocument::new_full(
                    Some(iri(u)),
                    Some("application/ld+json".parse().unwrap()),
                    p.context_url.as_deref().map(iri),
                    Default::default(),
                    json(&p.doc),
                ))
            }
            None => Err(LoadError::new(url.to_owned(), NotFound)),
        }
    }
}
/// Equal up to the order of arrays, except under `@list`.
pub fn sorted(v: &Value) -> String {
    fn go(v: &Value, keep: bool) -> String {
        match v {
            Value::Array(a) => {
                let mut i: Vec<String> = a.iter().map(|x| go(x, false)).collect();
                if !keep {
                    i.sort();
                }
                format!("[{}]", i.join(","))
            }
            Value::Object(o) => {
                let mut i: Vec<String> =
                    o.iter().map(|e| format!("{:?}:{}", e.key.as_str(), go(&e.value, e.key.as_str() == "@list"))).collect();
                i.sort();
                format!("{{{}}}", i.join(","))
            }
            v => v.compact_print().to_string(),
        }
    }
    go(v, false)
}
pub fn check(what: &str, got: &Result<Value, String>, expected: Result<&str, &str>) {
    let ok = match (got, expected) {
        (Ok(a), Ok(b)) => sorted(a) == sorted(&json(b)),
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    if !ok {
        println!("{what}: got {got:?} instead of {expected:?}");
        std::process::exit(1);
    }
}

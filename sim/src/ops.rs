//! Operations of the real processor, driven through its public API.
use crate::net::to_syntax;
use contextual::WithContext;
use iref::Iri;
use json_ld::syntax::Print;
use json_ld::{JsonLdProcessor, Loader, Options, RemoteDocument, RemoteDocumentReference};
use json_ld_core::RemoteContextReference;
use rdf_types::{
    BlankIdBuf, Generator, VocabularyMut,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::hash::Hash;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Input {
    Iri(String),
    Loaded { url: Option<String>, context_url: Option<String>, doc: Value },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CtxIn {
    Iri(String),
    Loaded { url: Option<String>, ctx: Value },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Expand,
    IntoDocument,
    Compact(CtxIn),
    Flatten(Option<CtxIn>),
    ToRdf { direction: Option<String>, generalized: bool },
    Compare(Input),
    /// Expansion, then a history of operations on the document in memory.
    History(Vec<DocStep>),
    /// The dataset (these quads, or else those of the input) becomes a document again; its quads
    /// arrive in some order, some of them several times.
    FromRdf { quads: Option<Vec<Value>>, order: u64 },
    /// Expansion; the document is visited as linked data, and made again from this.
    Linked,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum DocStep {
    Identify,
    Relabel,
    Canonicalize,
    RelabelCanonicalize,
    /// To JSON and back, in place.
    Reload,
    /// Every identifier is renamed: `x` becomes `x` + this.
    Rename(String),
    /// Something else than an expanded document is read: the document itself does not change.
    Damaged(Value),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct OpOpts {
    pub base: Option<String>,
    pub expand_context: Option<CtxIn>,
    pub ordered: bool,
    /// Inverted: false is the library default (`true`).
    pub no_compact_arrays: bool,
    pub no_compact_to_relative: bool,
    pub mode10: bool,
    /// Expansion policy: for invalid keys and for those that need the vocabulary mapping (0 keep,
    /// 1 drop, 2 reject), and for undefined keys (0 allow, 1 reject).
    #[serde(default, skip_serializing_if = "is_default")]
    pub policy: [u8; 3],
}
fn is_default(p: &[u8; 3]) -> bool {
    *p == [0; 3]
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub kind: Kind,
    pub input: Input,
    #[serde(default)]
    pub opts: OpOpts,
}
#[derive(Clone, Debug, PartialEq, Serialize)]
pub enum Res {
    Ok(Value),
    Err { code: String, target: Option<String>, msg: String },
}
impl Res {
    pub fn ok(&self) -> Option<&Value> {
        match self {
            Res::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn code(&self) -> Option<&str> {
        match self {
            Res::Err { code, .. } => Some(code),
            _ => None,
        }
    }
}

/// Finds a `LoadError` anywhere in an error: the processor's error types are
/// walked structurally because `transparent` hides the source.
pub fn load_target(msg: &str) -> Option<String> {
    // LoadError displays as "loading document `TARGET` failed: CAUSE"; the
    // simulator's URLs never contain '`' .
    let i = msg.find("loading document `")?;
    let r = &msg[i + "loading document `".len()..];
    r.find('`').map(|j| r[..j].to_string())
}

fn fail<E: std::error::Error>(code: &json_ld_syntax::ErrorCode, e: &E) -> Res {
    let mut msg = e.to_string();
    let mut s = e.source();
    while let Some(x) = s {
        msg.push_str(" <- ");
        msg.push_str(&x.to_string());
        s = x.source();
    }
    Res::Err { code: code.as_str().to_string(), target: load_target(&msg), msg }
}

fn iri<V: VocabularyMut>(v: &mut V, s: &str) -> V::Iri {
    v.insert(Iri::new(s).expect("harness IRI"))
}
pub fn input<V: VocabularyMut>(v: &mut V, i: &Input) -> RemoteDocumentReference<V::Iri> {
    match i {
        Input::Iri(s) => RemoteDocumentReference::iri(iri(v, s)),
        Input::Loaded { url, context_url, doc } => RemoteDocumentReference::Loaded(RemoteDocument::new_full(
            url.as_ref().map(|u| iri(v, u)),
            Some("application/ld+json".parse().unwrap()),
            context_url.as_ref().map(|u| iri(v, u)),
            Default::default(),
            to_syntax(doc),
        )),
    }
}
/// A local context in the processor's own syntax, or the reason it was refused.
pub fn ctx_in<V: VocabularyMut>(v: &mut V, i: &CtxIn) -> Result<RemoteContextReference<V::Iri>, Res> {
    use json_ld::syntax::TryFromJson;
    Ok(match i {
        CtxIn::Iri(s) => RemoteContextReference::Iri(iri(v, s)),
        CtxIn::Loaded { url, ctx } => {
            let c = json_ld::syntax::Context::try_from_json(to_syntax(ctx)).map_err(|e| Res::Err {
                code: "context syntax".into(),
                target: None,
                msg: format!("{e:?}"),
            })?;
            RemoteContextReference::Loaded(RemoteDocument::new(url.as_ref().map(|u| iri(v, u)), None, c))
        }
    })
}
pub fn options<V: VocabularyMut>(v: &mut V, o: &OpOpts) -> Result<Options<V::Iri>, Res> {
    let mut r: Options<V::Iri> = Options {
        base: o.base.as_ref().map(|b| iri(v, b)),
        expand_context: None,
        ordered: o.ordered,
        compact_arrays: !o.no_compact_arrays,
        compact_to_relative: !o.no_compact_to_relative,
        processing_mode: if o.mode10 {
            json_ld_core::ProcessingMode::JsonLd1_0
        } else {
            json_ld_core::ProcessingMode::JsonLd1_1
        },
        rdf_direction: None,
        produce_generalized_rdf: false,
        expansion_policy: {
            use json_ld_expansion::{Action, Policy};
            let a = |n| [Action::Keep, Action::Drop, Action::Reject][n as usize % 3];
            Policy { invalid: a(o.policy[0]), vocab: a(o.policy[1]), allow_undefined: o.policy[2] == 0 }
        },
    };
    if let Some(c) = &o.expand_context {
        r.expand_context = Some(ctx_in(v, c)?);
    }
    Ok(r)
}

fn js(v: String) -> Value {
    crate::net::parse(&v).expect("processor printed invalid JSON")
}


/// Runs one operation with the given vocabulary and generator.
pub async fn run<V>(vocab: &mut V, gen: &mut Gen, loader: &impl Loader, op: &Op) -> Res
where
    V: VocabularyMut,
    V::Iri: Clone + Eq + Hash,
    V::BlankId: Clone + Eq + Hash,
    V::Literal: Clone + Eq + Hash,
{
    let doc = input(vocab, &op.input);
    let mut opts = match options(vocab, &op.opts) {
        Ok(o) => o,
        Err(e) => return e,
    };
    match &op.kind {
        Kind::Expand => match doc.expand_full(vocab, loader, opts, ()).await {
            Ok(d) => Res::Ok(js(d.with(&*vocab).compact_print().to_string())),
            Err(e) => fail(&e.code(), &e),
        },
        Kind::IntoDocument => match doc.into_document_full(vocab, loader, opts, ()).await {
            Ok(d) => {
                let rurl = d.as_remote().url().map(|u| vocab.iri(u).unwrap().to_string());
                let e = js(d.as_expanded().with(&*vocab).compact_print().to_string());
                Res::Ok(json!({"url": rurl, "expanded": e}))
            }
            Err(e) => fail(&e.code(), &e),
        },
        Kind::Compact(c) => {
            let c = match ctx_in(vocab, c) {
                Ok(c) => c,
                Err(e) => return e,
            };
            match doc.compact_full(vocab, c, loader, opts, ()).await {
                Ok(d) => Res::Ok(js(d.compact_print().to_string())),
                Err(e) => fail(&e.code(), &e),
            }
        }
        Kind::Flatten(c) => {
            let c = match c {
                None => None,
                Some(c) => match ctx_in(vocab, c) {
                    Ok(c) => Some(c),
                    Err(e) => return e,
                },
            };
            match doc.flatten_full(vocab, gen, c, loader, opts, ()).await {
                Ok(d) => Res::Ok(js(d.compact_print().to_string())),
                Err(e) => {
                    let code = e.code();
                    let msg = match &e {
                        json_ld::FlattenError::Expand(e) => e.to_string(),
                        json_ld::FlattenError::Compact(e) => e.to_string(),
                        json_ld::FlattenError::ConflictingIndexes(_) => "conflicting indexes".to_string(),
                        json_ld::FlattenError::Loading(e) => e.to_string(),
                        json_ld::FlattenError::ContextLoading(e) => e.to_string(),
                    };
                    Res::Err { code: code.as_str().into(), target: load_target(&msg), msg }
                }
            }
        }
        Kind::Compare(o) => {
            let other = input(vocab, o);
            match doc.compare_full(&other, vocab, loader, opts, ()).await {
                Ok(b) => Res::Ok(json!(b)),
                Err(e) => fail(&e.code(), &e),
            }
        }
        Kind::History(steps) => match doc.expand_full(vocab, loader, opts, ()).await {
            Ok(mut d) => {
                let mut out = vec![observe(vocab, &d)];
                for s in steps {
                    Turn(false).await;
                    let from = gen.issued.len();
                    let e = doc_step(vocab, gen, &mut d, s);
                    let mut o = observe(vocab, &d);
                    o["issued"] = json!(gen.issued[from..]);
                    o["error"] = json!(e);
                    out.push(o);
                }
                Res::Ok(json!(out))
            }
            Err(e) => fail(&e.code(), &e),
        },
        Kind::FromRdf { quads, order } => {
            let mut quads: Vec<Value> = match quads {
                Some(q) => {
                    Turn(false).await;
                    q.iter().map(|q| json!([q[0], q[1], q[2], q[3]])).collect()
                }
                None => match doc.to_rdf_full(&mut *vocab, &mut *gen, loader, opts, ()).await {
                    Ok(mut r) => {
                        let quads: Vec<_> = r.cloned_quads().collect();
                        quads.into_iter().map(|q| quad_value(&**r.vocabulary(), q)).collect()
                    }
                    Err(e) => return fail(&e.code(), &e),
                },
            };
            let mut r = crate::rng::Rng::new(*order);
            for i in 0..quads.len() {
                if *order > 0 && r.pct(15) {
                    let q = quads[i].clone();
                    quads.push(q);
                }
            }
            if *order > 0 {
                r.shuffle(&mut quads);
            }
            let (doc, error) = from_rdf(&quads);
            Res::Ok(json!({"quads": quads, "doc": doc, "error": error}))
        }
        Kind::Linked => match doc.expand_full(vocab, loader, opts, ()).await {
            Ok(d) => {
                let text = d.with(&*vocab).compact_print().to_string();
                Turn(false).await;
                Res::Ok(linked(&text))
            }
            Err(e) => fail(&e.code(), &e),
        },
        Kind::ToRdf { direction, generalized } => {
            opts.rdf_direction = match direction.as_deref() {
                Some("i18n-datatype") => Some(json_ld::rdf::RdfDirection::I18nDatatype),
                Some("compound-literal") => Some(json_ld::rdf::RdfDirection::CompoundLiteral),
                _ => None,
            };
            opts.produce_generalized_rdf = *generalized;
            match doc.to_rdf_full(&mut *vocab, &mut *gen, loader, opts, ()).await {
                Ok(mut r) => {
                    let quads: Vec<_> = r.cloned_quads().collect();
                    let mut out = vec![];
                    for q in quads {
                        out.push(quad_value(&**r.vocabulary(), q));
                    }
                    Res::Ok(json!(out))
                }
                Err(e) => fail(&e.code(), &e),
            }
        }
    }
}

/// Reads quads (of the form that `quad_value` writes) into a document.
fn from_rdf(quads: &[Value]) -> (Option<Value>, Option<String>) {
    use rdf_types::{Id, Literal, LiteralType, Quad, Term};
    let id = |s: &str| match s.starts_with("_:") {
        true => Id::Blank(BlankIdBuf::new(s.into()).expect("harness label")),
        false => Id::Iri(iref::IriBuf::new(s.into()).expect("harness IRI")),
    };
    let s = |v: &Value| v.as_str().expect("harness quad").to_string();
    let object = |v: &Value| match (v.get("id"), v.get("t"), v.get("l")) {
        (Some(i), ..) => Term::Id(id(&s(i))),
        (_, Some(t), _) => Term::Literal(Literal::new(s(&v["v"]), LiteralType::Any(iref::IriBuf::new(s(t)).expect("harness IRI")))),
        (_, _, Some(l)) => {
            let tag = langtag::LangTagBuf::new(s(l)).expect("harness tag");
            Term::Literal(Literal::new(s(&v["v"]), LiteralType::LangString(tag)))
        }
        _ => panic!("harness quad"),
    };
    let quads: Vec<(Term, Term, Term, Option<Term>)> = quads
        .iter()
        .map(|q| {
            (
                Term::Id(id(&s(&q[0]))),
                Term::Id(id(&s(&q[1]))),
                object(&q[2]),
                q[3].as_str().map(|g| Term::Id(id(g))),
            )
        })
        .collect();
    let refs = quads.iter().map(|(s, p, o, g)| Quad(s, p, o, g.as_ref()));
    match json_ld::ExpandedDocument::from_interpreted_quads(&(), &(), refs) {
        Ok(d) => (Some(js(d.with(&()).compact_print().to_string())), None),
        Err(e) => (None, Some(e.to_string())),
    }
}

/// Visits an expanded document as linked data.
fn linked(text: &str) -> Value {
    use json_ld_core::TryFromJson;
    let print = |d: &json_ld::ExpandedDocument| js(d.with(&()).compact_print().to_string());
    let d = match json_ld::ExpandedDocument::try_from_json_in(
        rdf_types::vocabulary::no_vocabulary_mut(),
        to_syntax(&crate::net::parse(text).expect("printed")),
    ) {
        Ok(d) => d,
        Err(e) => return json!({"unread": format!("{e:?}")}),
    };
    let mut gen = Gen::new("visited");
    let quads = match linked_data::to_lexical_quads(&mut gen, &d) {
        Ok(q) => json!(q
            .into_iter()
            .map(|q| {
                let q = rdf_types::Quad(q.0, rdf_types::Id::Iri(q.1), q.2, q.3);
                quad_value(&(), q)
            })
            .collect::<Vec<_>>()),
        Err(e) => json!({"error": e.to_string()}),
    };
    let again = match json_ld::ser::serialize(&d) {
        Ok(d) => print(&d),
        Err(e) => json!({"error": e.to_string()}),
    };
    json!({"doc": print(&d), "quads": quads, "again": again})
}

/// Lets the other clients run.
struct Turn(bool);
impl std::future::Future for Turn {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            return std::task::Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
/// What an expanded document in memory shows of itself.
fn observe<V>(vocab: &V, d: &json_ld::ExpandedDocument<V::Iri, V::BlankId>) -> Value
where
    V: VocabularyMut,
    V::Iri: Clone + Eq + Hash,
    V::BlankId: Clone + Eq + Hash,
{
    use json_ld::syntax::IntoJsonWithContext;
    let mut blanks: Vec<String> = d.blank_ids().into_iter().map(|b| vocab.blank_id(b).unwrap().to_string()).collect();
    blanks.sort();
    let objects: Vec<json_ld::syntax::Value> =
        d.objects().iter().map(|o| o.clone().into_json_with(vocab)).collect();
    let mut ids = std::collections::BTreeSet::new();
    let mut met = [0; 3];
    for f in d.traverse() {
        match f.as_id() {
            Some(json_ld::Id::Valid(rdf_types::Id::Iri(i))) => ids.insert(vocab.iri(i).unwrap().to_string()),
            Some(json_ld::Id::Valid(rdf_types::Id::Blank(b))) => ids.insert(vocab.blank_id(b).unwrap().to_string()),
            Some(json_ld::Id::Invalid(s)) => ids.insert(s),
            None => false,
        };
        match f.into_ref() {
            Some(json_ld_core::object::Ref::Node(_)) => met[0] += 1,
            Some(json_ld_core::object::Ref::Value(_)) => met[1] += 1,
            Some(json_ld_core::object::Ref::List(_)) => met[2] += 1,
            None => {}
        }
    }
    let main = d.main_node().map(|n| n.clone().into_json_with(vocab));
    json!({
        "printed": js(d.with(vocab).compact_print().to_string()),
        "json": js(json_ld::syntax::Value::Array(objects).compact_print().to_string()),
        "blanks": blanks,
        "ids": ids,
        "met": met,
        "main": main.map(|m| js(m.compact_print().to_string())),
        "text": d.with(vocab).compact_print().to_string(),
        "len": d.len(),
    })
}
/// One step of a history; returns the error of an operation that refused.
fn doc_step<V>(
    vocab: &mut V, gen: &mut Gen, d: &mut json_ld::ExpandedDocument<V::Iri, V::BlankId>, s: &DocStep,
) -> Option<String>
where
    V: VocabularyMut,
    V::Iri: Clone + Eq + Hash,
    V::BlankId: Clone + Eq + Hash,
{
    use json_ld::syntax::IntoJsonWithContext;
    use json_ld_core::TryFromJson;
    match s {
        DocStep::Identify => d.identify_all_with(vocab, gen),
        DocStep::Relabel => d.relabel_with(vocab, gen),
        DocStep::Canonicalize => d.canonicalize(),
        DocStep::RelabelCanonicalize => d.relabel_and_canonicalize_with(vocab, gen),
        DocStep::Reload => {
            let objects = d.objects().iter().map(|o| o.clone().into_json_with(vocab)).collect();
            match json_ld::ExpandedDocument::try_from_json_in(vocab, json_ld::syntax::Value::Array(objects)) {
                Ok(e) => {
                    let same = e == *d && *d == e;
                    *d = e;
                    if !same {
                        return Some("differs".into());
                    }
                }
                Err(e) => return Some(format!("{e:?}")),
            }
        }
        DocStep::Rename(suffix) => {
            let old = std::mem::take(d);
            let cell = std::cell::RefCell::new(vocab);
            let new_iri = |i: V::Iri| {
                let mut v = cell.borrow_mut();
                let s = format!("{}{suffix}", v.iri(&i).unwrap());
                v.insert_owned(iref::IriBuf::new(s).unwrap())
            };
            *d = old.map_ids(new_iri, |id| match id {
                json_ld::Id::Valid(rdf_types::Id::Iri(i)) => json_ld::Id::iri(new_iri(i)),
                json_ld::Id::Valid(rdf_types::Id::Blank(b)) => {
                    let mut v = cell.borrow_mut();
                    let s = format!("{}{suffix}", v.blank_id(&b).unwrap());
                    json_ld::Id::blank(v.insert_owned_blank_id(BlankIdBuf::new(s).unwrap()))
                }
                json_ld::Id::Invalid(s) => json_ld::Id::Invalid(format!("{s}{suffix}")),
            });
        }
        DocStep::Damaged(v) => {
            return Some(match json_ld::ExpandedDocument::<V::Iri, V::BlankId>::try_from_json_in(vocab, to_syntax(v)) {
                Ok(d) => format!("accepted: {}", d.with(&*vocab).compact_print()),
                Err(e) => format!("{e:?}"),
            })
        }
    }
    None
}

pub fn quad_value<V: VocabularyMut>(
    vocab: &V, q: rdf_types::Quad<json_ld::ValidId<V::Iri, V::BlankId>, json_ld::ValidId<V::Iri, V::BlankId>, rdf_types::Term<json_ld::ValidId<V::Iri, V::BlankId>, V::Literal>, json_ld::ValidId<V::Iri, V::BlankId>>,
) -> Value {
    let id = |i: &json_ld::ValidId<V::Iri, V::BlankId>| match i {
        json_ld::ValidId::Iri(i) => vocab.iri(i).unwrap().to_string(),
        json_ld::ValidId::Blank(b) => vocab.blank_id(b).unwrap().to_string(),
    };
    let o = match &q.2 {
        rdf_types::Term::Id(i) => json!({ "id": id(i) }),
        rdf_types::Term::Literal(l) => {
            let l = vocab.literal(l).unwrap();
            match &l.type_ {
                rdf_types::LiteralTypeRef::Any(t) => json!({"v": l.value, "t": vocab.iri(t).unwrap().to_string()}),
                rdf_types::LiteralTypeRef::LangString(t) => json!({"v": l.value, "l": t.to_string().to_lowercase()}),
            }
        }
    };
    json!([id(&q.0), id(&q.1), o, q.3.as_ref().map(id)])
}

/// Blank node generator that keeps the list of the labels it handed out.
#[derive(Clone, Debug, Default)]
pub struct Gen {
    pub prefix: String,
    /// Shared by all the handles of a generator.
    pub count: std::rc::Rc<std::cell::Cell<usize>>,
    pub issued: Vec<String>,
}
impl Gen {
    pub fn new(prefix: &str) -> Gen {
        Gen { prefix: prefix.into(), ..Gen::default() }
    }
}
impl<V: VocabularyMut> Generator<V> for Gen {
    fn next(&mut self, v: &mut V) -> rdf_types::Id<V::Iri, V::BlankId> {
        let n = self.count.get();
        self.count.set(n + 1);
        if self.prefix.contains(':') {
            let l = format!("{}{n}", self.prefix);
            self.issued.push(l.clone());
            return rdf_types::Id::Iri(v.insert_owned(iref::IriBuf::new(l).unwrap()));
        }
        let l = format!("_:{}{n}", self.prefix);
        self.issued.push(l.clone());
        rdf_types::Id::Blank(v.insert_owned_blank_id(BlankIdBuf::new(l).unwrap()))
    }
}

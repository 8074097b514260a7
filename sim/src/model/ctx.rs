use super::*;
use serde_json::{Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub struct Term {
    pub iri: Option<String>,
    pub prefix: bool,
    pub protected: bool,
    pub reverse: bool,
    pub base_url: Option<String>,
    pub context: Option<Value>,
    pub container: BTreeSet<String>,
    pub direction: Option<Option<String>>,
    pub index: Option<String>,
    pub language: Option<Option<String>>,
    pub nest: Option<String>,
    pub typ: Option<String>,
}
impl Term {
    fn new() -> Self {
        Term {
            iri: None,
            prefix: false,
            protected: false,
            reverse: false,
            base_url: None,
            context: None,
            container: BTreeSet::new(),
            direction: None,
            index: None,
            language: None,
            nest: None,
            typ: None,
        }
    }
    fn same_but_protected(&self, o: &Term) -> bool {
        let mut a = self.clone();
        let mut b = o.clone();
        a.protected = false;
        b.protected = false;
        a == b
    }
}

#[derive(Debug, Clone)]
pub struct Ctx {
    pub terms: BTreeMap<String, Term>,
    pub base: Option<String>,
    pub orig_base: Option<String>,
    pub vocab: Option<String>,
    pub lang: Option<String>,
    pub dir: Option<String>,
    pub prev: Option<Rc<Ctx>>,
}
impl Ctx {
    pub fn new(base: Option<&str>) -> Self {
        Ctx {
            terms: BTreeMap::new(),
            base: base.map(|s| s.into()),
            orig_base: base.map(|s| s.into()),
            vocab: None,
            lang: None,
            dir: None,
            prev: None,
        }
    }
}

#[derive(Clone)]
pub struct Opts {
    pub remote: Vec<String>,
    /// Imported documents in a scoped context of which we are.
    pub imports: Vec<String>,
    /// Document imported by the definition being processed, and its own keys.
    pub importing: Option<(String, BTreeSet<String>)>,
    pub override_protected: bool,
    pub propagate: bool,
    pub validate_scoped: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { remote: vec![], imports: vec![], importing: None, override_protected: false, propagate: true, validate_scoped: true }
    }
}

pub fn process(env: &Env, active: &Ctx, local: &Value, base_url: Option<&str>, mut o: Opts) -> R<Ctx> {
    env.burn()?;
    let mut result = active.clone();
    if let Value::Object(m) = local {
        if let Some(p) = m.get("@propagate") {
            match p {
                Value::Bool(b) => o.propagate = *b,
                _ => return err("invalid @propagate value"),
            }
        }
    }
    if !o.propagate && result.prev.is_none() {
        result.prev = Some(Rc::new(active.clone()));
    }
    for context in arr(local) {
        match context {
            Value::Null => {
                if !o.override_protected && result.terms.values().any(|t| t.protected) {
                    return err("invalid context nullification");
                }
                let prev = result;
                result = Ctx::new(active.orig_base.as_deref());
                if !o.propagate {
                    result.prev = Some(Rc::new(prev));
                }
            }
            Value::String(s) => {
                let url = match resolve(base_url, s) {
                    Some(u) => u,
                    None => return err("loading document failed"),
                };
                if !o.validate_scoped && o.remote.contains(&url) {
                    continue;
                }
                if o.remote.contains(&url) {
                    // Already being processed (cyclic inclusion).
                    continue;
                }
                let mut remote = o.remote.clone();
                remote.push(url.clone());
                let d = env.load(&url, "loading remote context failed")?;
                let c = match &d.doc {
                    Value::Object(m) if m.contains_key("@context") => &m["@context"],
                    _ => return err("invalid remote context"),
                };
                result = process(
                    env,
                    &result,
                    c,
                    Some(&d.url),
                    Opts {
                        remote,
                        imports: o.imports.clone(),
                        importing: None,
                        override_protected: false,
                        propagate: true,
                        validate_scoped: o.validate_scoped,
                    },
                )?;
            }
            Value::Object(m) => {
                let mut m = m.clone();
                if let Some(v) = m.get("@version") {
                    if v.as_f64() != Some(1.1) {
                        return err("invalid @version value");
                    }
                    if env.mode10 {
                        return err("processing mode conflict");
                    }
                }
                o.importing = None;
                if let Some(i) = m.get("@import") {
                    if env.mode10 {
                        return err("invalid context entry");
                    }
                    let i = match i.as_str() {
                        Some(i) => i,
                        None => return err("invalid @import value"),
                    };
                    let url = match resolve(base_url, i) {
                        Some(u) => u,
                        None => return err("loading document failed"),
                    };
                    let d = env.load(&url, "loading remote context failed")?;
                    let ic = match &d.doc {
                        Value::Object(dm) => match dm.get("@context") {
                            Some(Value::Object(ic)) => ic.clone(),
                            _ => return err("invalid remote context"),
                        },
                        _ => return err("invalid remote context"),
                    };
                    if ic.contains_key("@import") {
                        return err("invalid context entry");
                    }
                    let taken = ic.keys().filter(|k| !m.contains_key(*k)).cloned().collect();
                    o.importing = Some((url.clone(), taken));
                    // Imported entries which are not replaced come first.
                    let mut merged: Map<String, Value> =
                        ic.into_iter().filter(|(k, _)| !m.contains_key(k)).collect();
                    for (k, v) in m.iter() {
                        if k != "@import" {
                            merged.insert(k.clone(), v.clone());
                        }
                    }
                    m = merged;
                }
                if let Some(b) = m.get("@base") {
                    if o.remote.is_empty() {
                        match b {
                            Value::Null => result.base = None,
                            Value::String(s) => match resolve(result.base.as_deref(), s) {
                                Some(u) => result.base = Some(u),
                                None => return err("invalid base IRI"),
                            },
                            _ => return err("invalid base IRI"),
                        }
                    }
                }
                if let Some(v) = m.get("@vocab") {
                    match v {
                        Value::Null => result.vocab = None,
                        Value::String(s) => {
                            match expand_iri_plain(&result, s, true, true) {
                                Some(e) if is_iri(&e) || is_blank(&e) => result.vocab = Some(e),
                                _ => return err("invalid vocab mapping"),
                            }
                        }
                        _ => return err("invalid vocab mapping"),
                    }
                }
                if let Some(v) = m.get("@language") {
                    match v {
                        Value::Null => result.lang = None,
                        Value::String(s) => result.lang = Some(s.to_lowercase()),
                        _ => return err("invalid default language"),
                    }
                }
                if let Some(v) = m.get("@direction") {
                    if env.mode10 {
                        return err("invalid context entry");
                    }
                    match v {
                        Value::Null => result.dir = None,
                        Value::String(s) if s == "ltr" || s == "rtl" => result.dir = Some(s.clone()),
                        _ => return err("invalid base direction"),
                    }
                }
                if let Some(v) = m.get("@propagate") {
                    if env.mode10 {
                        return err("invalid context entry");
                    }
                    if !v.is_boolean() {
                        return err("invalid @propagate value");
                    }
                }
                let protected = match m.get("@protected") {
                    Some(Value::Bool(b)) => *b,
                    Some(_) => return err("invalid @protected value"),
                    None => false,
                };
                let mut defined: BTreeMap<String, bool> = BTreeMap::new();
                for k in m.keys().filter(|k| *k == "@type").chain(m.keys().filter(|k| *k != "@type")) {
                    if [
                        "@base", "@direction", "@import", "@language", "@propagate", "@protected", "@version",
                        "@vocab",
                    ]
                    .contains(&k.as_str())
                    {
                        continue;
                    }
                    define(env, &mut result, &m, k, &mut defined, base_url, protected, &o)?;
                }
            }
            _ => return err("invalid local context"),
        }
    }
    Ok(result)
}

/// IRI expansion outside of context processing.
pub fn expand_iri_plain(c: &Ctx, v: &str, doc_rel: bool, vocab: bool) -> Option<String> {
    if is_keyword(v) {
        return Some(v.to_string());
    }
    if keyword_like(v) {
        return None;
    }
    if let Some(t) = c.terms.get(v) {
        if let Some(i) = &t.iri {
            if is_keyword(i) {
                return Some(i.clone());
            }
        }
        if vocab {
            return t.iri.clone();
        }
    }
    if v.len() > 1 && v[1..].contains(':') {
        let p = v.find(':').unwrap();
        let (prefix, suffix) = (&v[..p], &v[p + 1..]);
        if prefix == "_" || suffix.starts_with("//") {
            return Some(v.to_string());
        }
        if let Some(t) = c.terms.get(prefix) {
            if let (Some(i), true) = (&t.iri, t.prefix) {
                return Some(format!("{i}{suffix}"));
            }
        }
        if is_iri(v) {
            return Some(v.to_string());
        }
    }
    if vocab {
        if let Some(voc) = &c.vocab {
            return Some(format!("{voc}{v}"));
        }
    }
    if doc_rel {
        if let Some(b) = &c.base {
            if let Some(r) = resolve(Some(b), v) {
                return Some(r);
            }
        }
    }
    Some(v.to_string())
}

#[allow(clippy::too_many_arguments)]
fn expand_iri_ctx(
    env: &Env, active: &mut Ctx, local: &Map<String, Value>, defined: &mut BTreeMap<String, bool>, v: &str,
    doc_rel: bool, vocab: bool, base_url: Option<&str>, protected: bool, o: &Opts,
) -> R<Option<String>> {
    if is_keyword(v) {
        return Ok(Some(v.to_string()));
    }
    if keyword_like(v) {
        return Ok(None);
    }
    if local.contains_key(v) && defined.get(v) != Some(&true) {
        define(env, active, local, v, defined, base_url, protected, o)?;
    }
    if v.len() > 1 && v[1..].contains(':') {
        let p = v.find(':').unwrap();
        let (prefix, suffix) = (&v[..p], &v[p + 1..]);
        if !(prefix == "_" || suffix.starts_with("//"))
            && local.contains_key(prefix)
            && defined.get(prefix) != Some(&true)
            && !active.terms.get(v).map(|_| vocab).unwrap_or(false)
        {
            define(env, active, local, prefix, defined, base_url, protected, o)?;
        }
    }
    Ok(expand_iri_plain(active, v, doc_rel, vocab))
}

#[allow(clippy::too_many_arguments)]
fn define(
    env: &Env, active: &mut Ctx, local: &Map<String, Value>, term: &str, defined: &mut BTreeMap<String, bool>,
    base_url: Option<&str>, protected: bool, o: &Opts,
) -> R<()> {
    env.burn()?;
    match defined.get(term) {
        Some(true) => return Ok(()),
        Some(false) => return err("cyclic IRI mapping"),
        None => {}
    }
    if term.is_empty() {
        return err("invalid term definition");
    }
    defined.insert(term.to_string(), false);
    let value = local[term].clone();
    if term == "@type" {
        if env.mode10 {
            return err("keyword redefinition");
        }
        match &value {
            Value::Object(m)
                if !m.is_empty()
                    && m.iter().all(|(k, v)| {
                        (k == "@container" && v == "@set") || (k == "@protected")
                    }) => {}
            _ => return err("keyword redefinition"),
        }
    } else if is_keyword(term) {
        return err("keyword redefinition");
    } else if keyword_like(term) {
        return Ok(());
    }
    let previous = active.terms.remove(term);
    let (m, simple) = match value {
        Value::Null => {
            let mut m = Map::new();
            m.insert("@id".into(), Value::Null);
            (m, false)
        }
        Value::String(s) => {
            let mut m = Map::new();
            m.insert("@id".into(), Value::String(s));
            (m, true)
        }
        Value::Object(m) => (m, false),
        _ => return err("invalid term definition"),
    };
    let mut d = Term::new();
    d.protected = match m.get("@protected") {
        None => protected,
        Some(Value::Bool(b)) => {
            if env.mode10 {
                return err("invalid term definition");
            }
            *b
        }
        Some(_) => return err("invalid @protected value"),
    };
    if let Some(t) = m.get("@type") {
        let t = match t.as_str() {
            Some(t) => t,
            None => return err("invalid type mapping"),
        };
        let t = expand_iri_ctx(env, active, local, defined, t, false, true, base_url, protected, o)?;
        match t {
            Some(t) => {
                if (t == "@json" || t == "@none") && env.mode10 {
                    return err("invalid type mapping");
                }
                if !["@id", "@json", "@none", "@vocab"].contains(&t.as_str()) && !is_iri(&t) {
                    return err("invalid type mapping");
                }
                d.typ = Some(t);
            }
            None => return err("invalid type mapping"),
        }
    }
    if let Some(r) = m.get("@reverse") {
        if m.contains_key("@id") || m.contains_key("@nest") {
            return err("invalid reverse property");
        }
        let r = match r.as_str() {
            Some(r) => r,
            None => return err("invalid IRI mapping"),
        };
        if keyword_like(r) {
            return Ok(());
        }
        match expand_iri_ctx(env, active, local, defined, r, false, true, base_url, protected, o)? {
            Some(i) if is_iri(&i) || is_blank(&i) => d.iri = Some(i),
            _ => return err("invalid IRI mapping"),
        }
        if let Some(c) = m.get("@container") {
            match c {
                Value::Null => {}
                Value::String(s) if s == "@set" || s == "@index" => {
                    d.container.insert(s.clone());
                }
                Value::Array(a) if a.len() == 1 => env.fuel.set(0),
                _ => return err("invalid reverse property"),
            }
        }
        d.reverse = true;
    } else if m.contains_key("@id") && m.get("@id").and_then(|v| v.as_str()) != Some(term) {
        match &m["@id"] {
            Value::Null => {}
            Value::String(id) => {
                if !is_keyword(id) && keyword_like(id) {
                    return Ok(());
                }
                match expand_iri_ctx(env, active, local, defined, id, false, true, base_url, protected, o)? {
                    Some(i) if is_keyword(&i) || is_iri(&i) || is_blank(&i) => {
                        if i == "@context" {
                            return err("invalid keyword alias");
                        }
                        d.iri = Some(i)
                    }
                    _ => return err("invalid IRI mapping"),
                }
                let inner_colon = term.len() > 2 && term[1..term.len() - 1].contains(':');
                if inner_colon || term.contains('/') {
                    defined.insert(term.to_string(), true);
                    let e = expand_iri_ctx(env, active, local, defined, term, false, true, base_url, protected, o)?;
                    if e != d.iri {
                        return err("invalid IRI mapping");
                    }
                }
                if !term.contains(':') && !term.contains('/') && simple {
                    if let Some(i) = &d.iri {
                        if i.ends_with([':', '/', '?', '#', '[', ']', '@']) || is_blank(i) {
                            d.prefix = true;
                        }
                    }
                }
            }
            _ => return err("invalid IRI mapping"),
        }
    } else if term.len() > 1 && term[1..].contains(':') {
        let p = term.find(':').unwrap();
        let (prefix, suffix) = (&term[..p], &term[p + 1..]);
        if local.contains_key(prefix) && prefix != "_" && !suffix.starts_with("//") {
            define(env, active, local, prefix, defined, base_url, protected, o)?;
        }
        match active.terms.get(prefix).and_then(|t| t.iri.clone()) {
            Some(i) if prefix != "_" && !suffix.starts_with("//") => d.iri = Some(format!("{i}{suffix}")),
            _ => d.iri = Some(term.to_string()),
        }
    } else if term.contains('/') {
        match expand_iri_plain(active, term, false, true) {
            Some(i) if is_iri(&i) => d.iri = Some(i),
            _ => return err("invalid IRI mapping"),
        }
    } else if term == "@type" {
        d.iri = Some("@type".into());
    } else if let Some(v) = &active.vocab {
        d.iri = Some(format!("{v}{term}"));
    } else {
        return err("invalid IRI mapping");
    }
    if let (Some(c), false) = (m.get("@container"), d.reverse) {
        let vals: Vec<&Value> = arr(c);
        if c.is_null() {
            // Allowed by the grammar, not by the algorithm.
            env.fuel.set(0);
        }
        if env.mode10 && !c.is_string() {
            return err("invalid container mapping");
        }
        for v in vals {
            match v.as_str() {
                Some(s)
                    if ["@graph", "@id", "@index", "@language", "@list", "@set", "@type"].contains(&s) =>
                {
                    if env.mode10 && ["@graph", "@id", "@type"].contains(&s) {
                        return err("invalid container mapping");
                    }
                    d.container.insert(s.into());
                }
                _ => return err("invalid container mapping"),
            }
        }
        let cs: BTreeSet<&str> = d.container.iter().map(|s| s.as_str()).collect();
        let n = cs.len();
        let ok = if cs.contains("@list") {
            n == 1
        } else if cs.contains("@graph") {
            let rest: Vec<&&str> = cs.iter().filter(|s| **s != "@graph" && **s != "@set").collect();
            rest.len() <= 1 && rest.iter().all(|s| ***s == *"@id" || ***s == *"@index")
        } else {
            cs.iter().filter(|s| **s != "@set").count() <= 1
        };
        // Whether an empty array is a container mapping is not told apart here.
        if !ok {
            return err("invalid container mapping");
        }
        if cs.contains("@type") {
            match d.typ.as_deref() {
                None => d.typ = Some("@id".into()),
                Some("@id") | Some("@vocab") => {}
                _ => return err("invalid type mapping"),
            }
        }
    }
    if let Some(i) = m.get("@index") {
        if env.mode10 || !d.container.contains("@index") {
            return err("invalid term definition");
        }
        let i = match i.as_str() {
            Some(i) => i,
            None => return err("invalid term definition"),
        };
        // Without the context being defined, contrarily to the type.
        match expand_iri_plain(active, i, false, true) {
            Some(e) if is_iri(&e) => {}
            _ => return err("invalid term definition"),
        }
        d.index = Some(i.into());
    }
    if let Some(c) = m.get("@context") {
        if env.mode10 {
            return err("invalid term definition");
        }
        let mut imports = o.imports.clone();
        let mut looping = false;
        if let Some((u, taken)) = &o.importing {
            if taken.contains(term) {
                looping = imports.contains(u);
                imports.push(u.clone());
            }
        }
        if o.validate_scoped && !looping {
            let oo = Opts {
                override_protected: true,
                remote: o.remote.clone(),
                imports,
                importing: None,
                validate_scoped: true,
                propagate: true,
            };
            if let Err(e) = process(env, active, c, base_url, oo) {
                if e.code == "model out of fuel" {
                    return Err(e);
                }
                return Err(MErr { code: "invalid scoped context", target: e.target });
            }
        }
        d.context = Some(c.clone());
        d.base_url = base_url.map(|s| s.into());
    }
    if let (Some(l), false) = (m.get("@language"), m.contains_key("@type")) {
        match l {
            Value::Null => d.language = Some(None),
            Value::String(s) => d.language = Some(Some(s.to_lowercase())),
            _ => return err("invalid language mapping"),
        }
    }
    if let (Some(l), false) = (m.get("@direction"), m.contains_key("@type")) {
        match l {
            Value::Null => d.direction = Some(None),
            Value::String(s) if s == "ltr" || s == "rtl" => d.direction = Some(Some(s.clone())),
            _ => return err("invalid base direction"),
        }
    }
    if let Some(n) = m.get("@nest") {
        if env.mode10 {
            return err("invalid term definition");
        }
        match n {
            Value::String(s) if s == "@nest" || !is_keyword(s) => d.nest = Some(s.clone()),
            _ => return err("invalid @nest value"),
        }
    }
    if let Some(p) = m.get("@prefix") {
        if env.mode10 || term.contains(':') || term.contains('/') {
            return err("invalid term definition");
        }
        match p {
            Value::Bool(b) => d.prefix = *b,
            _ => return err("invalid @prefix value"),
        }
        if d.prefix && d.iri.as_deref().map(is_keyword).unwrap_or(false) {
            return err("invalid term definition");
        }
    }
    for k in m.keys() {
        if ![
            "@id", "@reverse", "@container", "@context", "@direction", "@index", "@language", "@nest", "@prefix",
            "@protected", "@type",
        ]
        .contains(&k.as_str())
        {
            return err("invalid term definition");
        }
    }
    if let Some(prev) = previous {
        if prev.protected && !o.override_protected {
            if !d.same_but_protected(&prev) {
                return err("protected term redefinition");
            }
            d = prev;
        }
    }
    active.terms.insert(term.to_string(), d);
    defined.insert(term.to_string(), true);
    Ok(())
}

//! Compaction, after the JSON-LD 1.1 API.
use super::ctx::{process, Ctx, Opts, Term};
use super::expand::{is_graph_object, EC};
use super::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;


#[derive(Clone, Copy)]
pub struct CompactOpts {
    pub arrays: bool,
    pub relative: bool,
    pub ordered: bool,
}

/// container → (language, type, any) → selector → term
type Inverse = BTreeMap<String, BTreeMap<String, [BTreeMap<String, String>; 3]>>;
const LANG: usize = 0;
const TYPE: usize = 1;
const ANY: usize = 2;

fn lang_dir(lang: Option<&str>, dir: Option<&str>) -> Option<String> {
    match (lang, dir) {
        (None, None) => None,
        (Some(l), None) => Some(l.to_lowercase()),
        (l, Some(d)) => Some(format!("{}_{d}", l.unwrap_or_default()).to_lowercase()),
    }
}
fn container_key(t: &Term) -> String {
    if t.container.is_empty() {
        "@none".into()
    } else {
        t.container.iter().cloned().collect::<Vec<_>>().concat()
    }
}

pub struct C<'a, 'b> {
    pub env: &'a Env<'b>,
    pub o: CompactOpts,
    /// Types that select scoped contexts are compacted with the active context by the standard,
    /// but in the result with the type-scoped context. This takes the latter for both.
    pub scoped_types: bool,
    pub murky: &'a std::cell::Cell<bool>,
}

fn inverse(c: &Ctx) -> Inverse {
    let mut inv = Inverse::new();
    let default = lang_dir(c.lang.as_deref(), c.dir.as_deref()).unwrap_or("@none".into());
    let mut terms: Vec<(&String, &Term)> = c.terms.iter().collect();
    terms.sort_by(|a, b| (a.0.len(), a.0).cmp(&(b.0.len(), b.0)));
    for (name, t) in terms {
        let Some(iri) = &t.iri else { continue };
        let m = inv.entry(iri.clone()).or_default().entry(container_key(t)).or_insert_with(|| {
            let mut any = BTreeMap::new();
            any.insert("@none".to_string(), name.clone());
            [BTreeMap::new(), BTreeMap::new(), any]
        });
        let mut put = |k: usize, s: &str| {
            m[k].entry(s.to_string()).or_insert_with(|| name.clone());
        };
        if t.reverse {
            put(TYPE, "@reverse");
        } else if t.typ.as_deref() == Some("@none") {
            put(LANG, "@any");
            put(TYPE, "@any");
        } else if let Some(ty) = &t.typ {
            put(TYPE, ty);
        } else {
            match (&t.language, &t.direction) {
                (Some(l), Some(d)) => {
                    put(LANG, &lang_dir(l.as_deref(), d.as_deref()).unwrap_or("@null".into()))
                }
                (Some(l), None) => put(LANG, &l.as_ref().map(|l| l.to_lowercase()).unwrap_or("@null".into())),
                (None, Some(d)) => put(LANG, &d.as_ref().map(|d| format!("_{d}")).unwrap_or("@none".into())),
                (None, None) => {
                    put(LANG, &default);
                    put(LANG, "@none");
                    put(TYPE, "@none");
                }
            }
        }
    }
    inv
}

/// The value which IRI compaction considers.
type Val<'v> = Option<&'v Value>;

impl C<'_, '_> {
    fn keyword(&self, c: &Ctx, k: &str) -> R<String> {
        self.iri(c, k, None, true, false)
    }
    pub fn iri(&self, c: &Ctx, var: &str, value: Val, vocab: bool, reverse: bool) -> R<String> {
        self.env.burn()?;
        if vocab {
            let inv = inverse(c);
            if let Some(e) = inv.get(var) {
                if let Some(t) = self.select(c, e, value, reverse)? {
                    return Ok(t);
                }
            }
            if let Some(v) = &c.vocab {
                if let Some(s) = var.strip_prefix(v.as_str()) {
                    if !s.is_empty() && !c.terms.contains_key(s) {
                        return Ok(s.to_string());
                    }
                }
            }
        }
        let mut best: Option<String> = None;
        for (k, t) in &c.terms {
            let Some(i) = &t.iri else { continue };
            if !t.prefix || i == var || !var.starts_with(i.as_str()) {
                continue;
            }
            let cand = format!("{k}:{}", &var[i.len()..]);
            let shorter = match &best {
                None => true,
                Some(b) => (cand.len(), &cand) < (b.len(), b),
            };
            let free = match c.terms.get(&cand) {
                None => true,
                Some(d) => d.iri.as_deref() == Some(var) && value.is_none(),
            };
            if shorter && free {
                best = Some(cand);
            }
        }
        if let Some(b) = best {
            return Ok(b);
        }
        if let Ok(i) = iref::Iri::new(var) {
            if i.authority().is_none() && c.terms.get(i.scheme().as_str()).map(|t| t.prefix).unwrap_or(false) {
                return err("IRI confused with prefix");
            }
        }
        if !vocab {
            if let (Ok(i), Some(b)) = (iref::Iri::new(var), c.base.as_ref().and_then(|b| iref::Iri::new(b.as_str()).ok())) {
                return Ok(relative(i, b));
            }
        }
        Ok(var.to_string())
    }
    fn select(
        &self, c: &Ctx, e: &BTreeMap<String, [BTreeMap<String, String>; 3]>, value: Val, reverse: bool,
    ) -> R<Option<String>> {
        let default = lang_dir(c.lang.as_deref(), c.dir.as_deref()).unwrap_or("@none".into());
        let mut cs: Vec<&str> = vec![];
        let mut kind = LANG;
        let mut tl: String = "@null".into();
        let m = value.and_then(|v| v.as_object());
        let has = |k: &str| m.map(|m| m.contains_key(k)).unwrap_or(false);
        let graph = value.map(is_graph_object).unwrap_or(false);
        if has("@index") && !graph {
            cs.extend(["@index", "@index@set"]);
        }
        let mut empty_list = false;
        if reverse {
            kind = TYPE;
            tl = "@reverse".into();
            cs.push("@set");
        } else if has("@list") {
            if !has("@index") {
                cs.push("@list");
            }
            let list = arr(&m.unwrap()["@list"]);
            let (mut ct, mut cl): (Option<String>, Option<String>) = (None, None);
            if list.is_empty() {
                cl = Some(default.clone());
                empty_list = true;
            }
            for item in list {
                let (mut il, mut it) = ("@none".to_string(), "@none".to_string());
                let is_value = item.get("@value").is_some();
                if is_value {
                    let s = |k: &str| item.get(k).and_then(|x| x.as_str());
                    if s("@direction").is_some() || s("@language").is_some() {
                        il = lang_dir(s("@language"), s("@direction")).unwrap();
                    } else if let Some(t) = s("@type") {
                        it = t.to_string();
                    } else {
                        il = "@null".into();
                    }
                } else {
                    it = "@id".into();
                }
                match &cl {
                    None => cl = Some(il),
                    Some(x) if *x != il && is_value => cl = Some("@none".into()),
                    _ => {}
                }
                match &ct {
                    None => ct = Some(it),
                    Some(x) if *x != it => ct = Some("@none".into()),
                    _ => {}
                }
                if cl.as_deref() == Some("@none") && ct.as_deref() == Some("@none") {
                    break;
                }
            }
            let cl = cl.unwrap_or("@none".into());
            let ct = ct.unwrap_or("@none".into());
            if ct != "@none" {
                kind = TYPE;
                tl = ct;
            } else {
                tl = cl;
            }
        } else if graph {
            if has("@index") {
                cs.extend(["@graph@index", "@graph@index@set"]);
            }
            if has("@id") {
                cs.extend(["@graph@id", "@graph@id@set"]);
            }
            cs.extend(["@graph", "@graph@set", "@set"]);
            if !has("@index") {
                cs.extend(["@graph@index", "@graph@index@set"]);
            }
            if !has("@id") {
                cs.extend(["@graph@id", "@graph@id@set"]);
            }
            cs.extend(["@index", "@index@set"]);
            kind = TYPE;
            tl = "@id".into();
        } else {
            if has("@value") {
                let s = |k: &str| m.unwrap().get(k).and_then(|x| x.as_str());
                if (s("@direction").is_some() || s("@language").is_some()) && !has("@index") {
                    tl = lang_dir(s("@language"), s("@direction")).unwrap();
                    cs.extend(["@language", "@language@set"]);
                } else if let Some(t) = s("@type") {
                    kind = TYPE;
                    tl = t.to_string();
                }
            } else {
                // also without value: what a null value is, is not a value object
                kind = TYPE;
                tl = "@id".into();
                cs.extend(["@id", "@id@set", "@type", "@set@type"]);
            }
            cs.push("@set");
        }
        cs.push("@none");
        if !self.env.mode10 && !has("@index") {
            cs.extend(["@index", "@index@set"]);
        }
        if !self.env.mode10 && has("@value") && m.unwrap().len() == 1 {
            cs.extend(["@language", "@language@set"]);
        }
        let mut pref: Vec<String> = vec![];
        if tl == "@reverse" {
            pref.push("@reverse".into());
        }
        if (tl == "@id" || tl == "@reverse") && has("@id") {
            let id = m.unwrap()["@id"].as_str().unwrap_or_default();
            let t = self.iri(c, id, None, true, false)?;
            if c.terms.get(&t).and_then(|t| t.iri.as_deref()) == Some(id) {
                pref.extend(["@vocab".into(), "@id".into(), "@none".into()]);
            } else {
                pref.extend(["@id".into(), "@vocab".into(), "@none".into()]);
            }
        } else {
            pref.extend([tl, "@none".into()]);
            if empty_list {
                kind = ANY;
            }
        }
        pref.push("@any".into());
        if let Some(d) = pref.iter().find_map(|p| p.find('_').map(|i| p[i..].to_string())) {
            if kind == LANG {
                pref.push(d);
            }
        }
        for k in cs {
            if let Some(m) = e.get(k) {
                for p in &pref {
                    if let Some(t) = m[kind].get(p) {
                        return Ok(Some(t.clone()));
                    }
                }
            }
        }
        Ok(None)
    }

    fn value(&self, c: &Ctx, prop: Option<&str>, v: &Value) -> R<Value> {
        let m = v.as_object().unwrap();
        let def = prop.and_then(|p| c.terms.get(p));
        let lang = match def.and_then(|d| d.language.clone()) {
            Some(l) => l,
            None => c.lang.clone(),
        };
        let dir = match def.and_then(|d| d.direction.clone()) {
            Some(d) => d,
            None => c.dir.clone(),
        };
        let typ = def.and_then(|d| d.typ.as_deref());
        let indexed = def.map(|d| d.container.contains("@index")).unwrap_or(false);
        let drop_index = !m.contains_key("@index") || indexed;
        let vt = m.get("@type").and_then(|t| t.as_str());
        if let (Some(id), true) = (m.get("@id").and_then(|i| i.as_str()), m.keys().all(|k| k == "@id" || k == "@index")) {
            match typ {
                Some("@id") => return Ok(json!(self.iri(c, id, None, false, false)?)),
                Some("@vocab") => return Ok(json!(self.iri(c, id, None, true, false)?)),
                _ => {}
            }
        } else if !m.contains_key("@value") {
        } else if vt.is_some() && vt == typ {
            // The standard forgets the index here.
            if drop_index {
                return Ok(m["@value"].clone());
            }
        } else if typ.is_some() || vt.is_some() {
            // The standard only does this for `@none`; other terms would change what the
            // value is, and are only met when the IRI of a property is also a term.
        } else if !m["@value"].is_string() {
            if drop_index {
                return Ok(m["@value"].clone());
            }
        } else {
            let l = m.get("@language").and_then(|l| l.as_str()).map(|l| l.to_lowercase());
            let d = m.get("@direction").and_then(|l| l.as_str());
            if l == lang.map(|l| l.to_lowercase()) && d == dir.as_deref() && drop_index {
                return Ok(m["@value"].clone());
            }
        }
        let mut out = Map::new();
        for (k, x) in m {
            if k == "@index" && indexed {
                continue;
            }
            let x = match k.as_str() {
                "@type" => json!(self.iri(c, x.as_str().unwrap_or_default(), None, true, false)?),
                "@id" => json!(self.iri(c, x.as_str().unwrap_or_default(), None, false, false)?),
                _ => x.clone(),
            };
            out.insert(self.keyword(c, k)?, x);
        }
        Ok(Value::Object(out))
    }

    pub fn element(&self, c: &Ctx, prop: Option<&str>, e: &Value) -> R<Value> {
        self.env.burn()?;
        match e {
            Value::Array(a) => {
                let mut out = vec![];
                for x in a {
                    let y = self.element(c, prop, x)?;
                    if !y.is_null() {
                        out.push(y);
                    }
                }
                let keep = matches!(prop, Some("@graph" | "@set"))
                    || prop
                        .and_then(|p| c.terms.get(p))
                        .map(|t| t.container.contains("@list") || t.container.contains("@set"))
                        .unwrap_or(false);
                if out.len() != 1 || !self.o.arrays || keep {
                    return Ok(Value::Array(out));
                }
                Ok(out.pop().unwrap())
            }
            Value::Object(m) => self.map(c, prop, m, e),
            v => Ok(v.clone()),
        }
    }
    fn map(&self, c: &Ctx, prop: Option<&str>, m: &Map<String, Value>, e: &Value) -> R<Value> {
        let tsc = c;
        let mut c = c.clone();
        if let Some(p) = &c.prev {
            if !m.contains_key("@value") && !(m.len() == 1 && m.contains_key("@id")) {
                c = (**p).clone();
            }
        }
        // The definition is looked up in the type-scoped context (w3c/json-ld-api#502).
        if let Some(d) = prop.and_then(|p| tsc.terms.get(p)) {
            if let Some(l) = &d.context {
                c = process(
                    self.env,
                    &c,
                    l,
                    d.base_url.as_deref(),
                    Opts { override_protected: true, ..Default::default() },
                )?;
            }
        }
        if m.contains_key("@value") || m.contains_key("@id") {
            let is_ref = m.keys().all(|k| k == "@id" || k == "@index");
            if m.contains_key("@value") || is_ref {
                let v = self.value(&c, prop, e)?;
                let json = prop.and_then(|p| c.terms.get(p)).map(|t| t.typ.as_deref() == Some("@json")).unwrap_or(false);
                if m.contains_key("@value") || !(v.is_object() || v.is_array()) || json {
                    return Ok(v);
                }
            }
        }
        if let (Some(l), Some(d)) = (m.get("@list"), prop.and_then(|p| c.terms.get(p))) {
            if d.container.contains("@list") {
                return self.element(&c, prop, l);
            }
        }
        let inside_reverse = prop == Some("@reverse");
        let mut out = Map::new();
        if let Some(ts) = m.get("@type") {
            let mut types = vec![];
            for t in arr(ts) {
                types.push(self.iri(if self.scoped_types { tsc } else { &c }, t.as_str().unwrap_or_default(), None, true, false)?);
            }
            types.sort();
            for t in types {
                if let Some(d) = tsc.terms.get(&t) {
                    if let Some(l) = &d.context {
                        c = process(
                            self.env,
                            &c,
                            l,
                            d.base_url.as_deref(),
                            Opts { propagate: false, ..Default::default() },
                        )?;
                    }
                }
            }
        }
        let c = &c;
        let mut keys: Vec<&String> = m.keys().collect();
        if self.o.ordered {
            keys.sort();
        }
        for k in keys {
            let v = &m[k.as_str()];
            match k.as_str() {
                "@id" => {
                    let x = self.iri(c, v.as_str().unwrap_or_default(), None, false, false)?;
                    out.insert(self.keyword(c, "@id")?, json!(x));
                }
                "@type" => {
                    let mut x = vec![];
                    for t in arr(v) {
                        x.push(json!(self.iri(tsc, t.as_str().unwrap_or_default(), None, true, false)?));
                    }
                    let alias = self.keyword(c, "@type")?;
                    let set = c.terms.get(&alias).map(|t| t.container.contains("@set")).unwrap_or(false);
                    add(&mut out, &alias, Value::Array(x), (!self.env.mode10 && set) || !self.o.arrays);
                }
                "@reverse" => {
                    let mut x = match self.element(c, Some("@reverse"), v)? {
                        Value::Object(m) => m,
                        _ => Map::new(),
                    };
                    let ps: Vec<String> = x.keys().cloned().collect();
                    for p in ps {
                        if let Some(d) = c.terms.get(&p) {
                            if d.reverse {
                                let v = x.shift_remove(&p).unwrap();
                                add(&mut out, &p, v, d.container.contains("@set") || !self.o.arrays);
                            }
                        }
                    }
                    if !x.is_empty() {
                        out.insert(self.keyword(c, "@reverse")?, Value::Object(x));
                    }
                }
                "@index" if prop.and_then(|p| c.terms.get(p)).map(|t| t.container.contains("@index")).unwrap_or(false) => {}
                "@index" | "@value" | "@language" | "@direction" => {
                    out.insert(self.keyword(c, k)?, v.clone());
                }
                _ => self.property(c, &mut out, k, v, inside_reverse)?,
            }
        }
        Ok(Value::Object(out))
    }
    fn nest<'o>(&self, c: &Ctx, out: &'o mut Map<String, Value>, p: &str) -> R<&'o mut Map<String, Value>> {
        if let Some(n) = c.terms.get(p).and_then(|t| t.nest.as_ref()) {
            if n != "@nest" && c.terms.get(n).and_then(|t| t.iri.as_deref()) != Some("@nest") {
                return err("invalid @nest value");
            }
            let e = out.entry(n.clone()).or_insert_with(|| json!({}));
            return match e {
                Value::Object(m) => Ok(m),
                _ => err("model: nest is not a map"),
            };
        }
        Ok(out)
    }
    fn property(&self, c: &Ctx, out: &mut Map<String, Value>, k: &str, v: &Value, inside_reverse: bool) -> R<()> {
        let items = arr(v);
        if items.is_empty() {
            let p = self.iri(c, k, Some(v), true, inside_reverse)?;
            let n = self.nest(c, out, &p)?;
            add(n, &p, json!([]), true);
        }
        for item in items {
            let p = self.iri(c, k, Some(item), true, inside_reverse)?;
            let out = self.nest(c, out, &p)?;
            let def = c.terms.get(&p);
            let has = |x: &str| def.map(|d| d.container.contains(x)).unwrap_or(false);
            let as_array = has("@set") || p == "@graph" || p == "@list" || !self.o.arrays;
            let index = item.get("@index").and_then(|i| i.as_str());
            let id = item.get("@id").and_then(|i| i.as_str());
            let graph = is_graph_object(item);
            let inner = match (item.get("@list"), item.get("@graph")) {
                (Some(l), _) => l,
                (_, Some(g)) if graph => g,
                _ => item,
            };
            let mut x = self.element(c, Some(&p), inner)?;
            if item.get("@list").is_some() {
                if !x.is_array() {
                    x = json!([x]);
                }
                if !has("@list") {
                    if ["@index", "@id", "@type", "@language"].iter().any(|k| has(k)) {
                        // The standard puts the list beside the map, or within.
                        self.murky.set(true);
                    }
                    let mut m = Map::new();
                    m.insert(self.keyword(c, "@list")?, x);
                    if let Some(i) = index {
                        m.insert(self.keyword(c, "@index")?, json!(i));
                    }
                    add(out, &p, Value::Object(m), as_array);
                } else {
                    out.insert(p, x);
                }
                continue;
            }
            if graph {
                let simple = id.is_none();
                let fits = out.get(&p).map(|v| v.is_object()).unwrap_or(true);
                if fits && has("@graph") && has("@id") {
                    let key = match id {
                        Some(i) => self.iri(c, i, None, false, false)?,
                        None => self.keyword(c, "@none")?,
                    };
                    add(sub(out, &p), &key, x, as_array);
                } else if fits && has("@graph") && has("@index") && simple {
                    let key = index.map(|s| s.to_string()).unwrap_or("@none".into());
                    add(sub(out, &p), &key, x, as_array);
                } else if has("@graph") && !has("@id") && !has("@index") && simple {
                    if x.as_array().map(|a| a.len() > 1).unwrap_or(false) {
                        let mut m = Map::new();
                        m.insert(self.keyword(c, "@included")?, x);
                        x = Value::Object(m);
                    }
                    add(out, &p, x, as_array);
                } else {
                    // The standard mixes up maps and graph objects there.
                    if ["@language", "@index", "@id", "@type"].into_iter().any(has) {
                        self.murky.set(true);
                    }
                    let mut m = Map::new();
                    m.insert(self.keyword(c, "@graph")?, x);
                    if let Some(i) = id {
                        m.insert(self.keyword(c, "@id")?, json!(self.iri(c, i, None, false, false)?));
                    }
                    if let Some(i) = index {
                        m.insert(self.keyword(c, "@index")?, json!(i));
                    }
                    add(out, &p, Value::Object(m), as_array);
                }
                continue;
            }
            let fits = out.get(&p).map(|v| v.is_object()).unwrap_or(true);
            if fits && !has("@graph") && (has("@language") || has("@index") || has("@id") || has("@type")) {
                let kind = ["@language", "@index", "@id", "@type"].into_iter().find(|k| has(k)).unwrap();
                let mut ck = self.keyword(c, kind)?;
                let ik = def.and_then(|d| d.index.clone()).unwrap_or("@index".into());
                let mut mk: Option<String> = None;
                if has("@language") && item.get("@value").is_some() {
                    x = item["@value"].clone();
                    mk = item.get("@language").and_then(|l| l.as_str()).map(|s| s.to_string());
                } else if has("@index") && ik == "@index" {
                    mk = index.map(|s| s.to_string());
                } else if has("@index") {
                    // Never confused with a prefix, as the key may well be a compact IRI.
                    ck = self.iri(c, &ik, None, true, false).unwrap_or(ik.clone());
                    mk = take_first(&mut x, &ck, true);
                } else if has("@id") {
                    if let Value::Object(m) = &mut x {
                        mk = m.shift_remove(&ck).and_then(|v| v.as_str().map(|s| s.to_string()));
                    }
                } else if has("@type") {
                    mk = take_first(&mut x, &ck, false);
                    if let Value::Object(m) = &x {
                        if m.len() == 1 {
                            let k = m.keys().next().unwrap();
                            if super::ctx::expand_iri_plain(c, k, false, true).as_deref() == Some("@id") {
                                if let Some(i) = id {
                                    x = self.element(c, Some(&p), &json!({ "@id": i }))?;
                                }
                            }
                        }
                    }
                }
                let mk = match mk {
                    Some(k) => k,
                    None => self.keyword(c, "@none")?,
                };
                add(sub(out, &p), &mk, x, as_array);
            } else {
                add(out, &p, x, as_array);
            }
        }
        Ok(())
    }
}
fn sub<'o>(out: &'o mut Map<String, Value>, p: &str) -> &'o mut Map<String, Value> {
    out.entry(p.to_string()).or_insert_with(|| json!({})).as_object_mut().unwrap()
}
/// Takes the first value of an entry; only strings can be keys.
fn take_first(x: &mut Value, key: &str, only_strings: bool) -> Option<String> {
    let m = x.as_object_mut()?;
    let v = m.get(key)?.clone();
    let mut vals: Vec<Value> = arr(&v).into_iter().cloned().collect();
    if vals.is_empty() {
        return None;
    }
    if !vals[0].is_string() && only_strings {
        return None;
    }
    let first = vals.remove(0);
    m.shift_remove(key);
    for v in vals {
        add(m, key, v, false);
    }
    first.as_str().map(|s| s.to_string())
}
fn add(m: &mut Map<String, Value>, k: &str, v: Value, as_array: bool) {
    if as_array {
        match m.get_mut(k) {
            None => {
                m.insert(k.to_string(), json!([]));
            }
            Some(x) if !x.is_array() => *x = json!([x.clone()]),
            _ => {}
        }
    }
    if let Value::Array(a) = v {
        for x in a {
            add(m, k, x, as_array);
        }
        return;
    }
    match m.get_mut(k) {
        None => {
            m.insert(k.to_string(), v);
        }
        Some(Value::Array(a)) => a.push(v),
        Some(x) => *x = json!([x.clone(), v]),
    }
}
/// A reference which resolves to `i` from `b`.
pub fn relative(i: &iref::Iri, b: &iref::Iri) -> String {
    i.relative_to(b).to_string()
}

/// The context of a compaction.
pub fn context(env: &Env, ctx: &EC, doc_url: Option<&str>, base: Option<&str>, o: &CompactOpts) -> R<(Ctx, Value)> {
    let (body, url) = match ctx {
        EC::Url(u) => {
            let d = env.load(u, "loading remote context failed")?;
            match &d.doc {
                Value::Object(m) if m.contains_key("@context") => (m["@context"].clone(), Some(d.url)),
                _ => return err("invalid remote context"),
            }
        }
        EC::Loaded(u, c) => (c.clone(), u.clone()),
    };
    let cb = url.or(doc_url.map(|s| s.to_string())).or(base.map(|s| s.to_string()));
    let mut c = process(env, &Ctx::new(None), &body, cb.as_deref(), Opts::default())?;
    match base {
        Some(b) => c.base = Some(b.to_string()),
        None => {
            if o.relative && c.base.is_none() {
                c.base = doc_url.map(|s| s.to_string());
            }
        }
    }
    Ok((c, body))
}

/// Compacts an expanded document.
pub fn compact(
    env: &Env, expanded: &Value, ctx: &EC, doc_url: Option<&str>, base: Option<&str>, o: CompactOpts,
    scoped_types: bool, murky: &std::cell::Cell<bool>,
) -> R<Value> {
    let (c, body) = context(env, ctx, doc_url, base, &o)?;
    let k = C { env, o, scoped_types, murky };
    let mut out = match k.element(&c, None, expanded)? {
        Value::Array(a) if a.is_empty() => Map::new(),
        Value::Array(a) => {
            let mut m = Map::new();
            m.insert(k.keyword(&c, "@graph")?, Value::Array(a));
            m
        }
        Value::Object(m) => m,
        v => return Ok(v),
    };
    let empty = match &body {
        Value::Null => true,
        Value::Array(a) => a.is_empty(),
        Value::Object(m) => m.is_empty(),
        _ => false,
    };
    if !empty && !out.is_empty() {
        out.insert("@context".into(), body);
    }
    Ok(Value::Object(out))
}

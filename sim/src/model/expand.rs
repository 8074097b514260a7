use super::ctx::*;
use super::*;
use serde_json::{json, Map, Value};
use std::rc::Rc;

/// The expansion context: by reference, or at hand with its URL.
pub enum EC {
    Url(String),
    Loaded(Option<String>, Value),
}
pub struct ExpandOpts {
    pub base: Option<String>,
    pub expand_context: Option<EC>,
}

/// `doc` is the document already at hand; `doc_url` its URL; `context_url` the
/// context announced by its Link header.
pub fn expand_document(
    env: &Env, doc: &Value, doc_url: Option<&str>, context_url: Option<&str>, o: &ExpandOpts,
) -> R<Value> {
    let base = o.base.as_deref().or(doc_url);
    let mut active = Ctx::new(base);
    // Relative context references are resolved against the document location.
    let loc = doc_url.or(o.base.as_deref());
    if let Some(ec) = &o.expand_context {
        let (ec, ec_base) = match ec {
            EC::Url(u) => (Value::String(u.clone()), base),
            EC::Loaded(u, v) => (v.clone(), u.as_deref().or(base)),
        };
        active = process(env, &active, &ec, ec_base, Opts::default())?;
    }
    if let Some(cu) = context_url {
        active = process(env, &active, &Value::String(cu.into()), base, Opts::default())?;
    }
    let e = expand(env, &active, None, doc, loc, false)?;
    let e = match e {
        Value::Object(m) if m.len() == 1 && m.contains_key("@graph") => m["@graph"].clone(),
        Value::Null => json!([]),
        v => v,
    };
    Ok(if e.is_array() { e } else { json!([e]) })
}

/// Entries of value objects found elsewhere mean nothing: whether they are checked is not told.
fn only_values(env: &Env, c: &Ctx, m: &Map<String, Value>) {
    if !m.keys().any(|k| expand_iri_plain(c, k, false, true).as_deref() == Some("@value")) {
        env.fuel.set(0);
    }
}
fn scalar(v: &Value) -> bool {
    v.is_string() || v.is_number() || v.is_boolean()
}
fn push(m: &mut Map<String, Value>, k: &str, v: Value) {
    let e = m.entry(k.to_string()).or_insert_with(|| json!([]));
    if !e.is_array() {
        *e = json!([e.clone()]);
    }
    match v {
        Value::Array(a) => e.as_array_mut().unwrap().extend(a),
        v => e.as_array_mut().unwrap().push(v),
    }
}

pub fn expand(env: &Env, active: &Ctx, prop: Option<&str>, el: &Value, base: Option<&str>, from_map: bool) -> R<Value> {
    env.burn()?;
    let def = prop.and_then(|p| active.terms.get(p));
    let ps = def.and_then(|d| d.context.clone());
    let ps_base = def.and_then(|d| d.base_url.clone());
    match el {
        Value::Null => Ok(Value::Null),
        Value::Array(a) => {
            let mut out = vec![];
            for i in a {
                let e = expand(env, active, prop, i, base, from_map)?;
                let is_list = def.map(|d| d.container.contains("@list")).unwrap_or(false);
                let e = if is_list && e.is_array() { json!({ "@list": e }) } else { e };
                match e {
                    Value::Array(x) => out.extend(x),
                    Value::Null => {}
                    x => out.push(x),
                }
            }
            Ok(Value::Array(out))
        }
        Value::Object(m) => expand_map(env, active, prop, m, base, from_map, ps, ps_base),
        _ => {
            if prop.is_none() || prop == Some("@graph") {
                return Ok(Value::Null);
            }
            let mut c = active.clone();
            if let Some(ps) = ps {
                c = process(env, active, &ps, ps_base.as_deref(), Opts { override_protected: true, ..Opts::default() })?;
            }
            expand_value(env, &c, prop.unwrap(), el)
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn expand_map(
    env: &Env, active: &Ctx, prop: Option<&str>, m: &Map<String, Value>, base: Option<&str>, from_map: bool,
    ps: Option<Value>, ps_base: Option<String>,
) -> R<Value> {
    let mut c = active.clone();
    if let Some(prev) = &active.prev {
        let keys: Vec<Option<String>> = m.keys().map(|k| expand_iri_plain(active, k, false, true)).collect();
        let has_value = keys.iter().any(|k| k.as_deref() == Some("@value"));
        let only_id = m.len() == 1 && keys[0].as_deref() == Some("@id");
        if !from_map && !has_value && !only_id {
            c = (**prev).clone();
        }
    }
    if let Some(ps) = ps {
        c = process(env, &c, &ps, ps_base.as_deref(), Opts { override_protected: true, ..Opts::default() })?;
    }
    if let Some(lc) = m.get("@context") {
        c = process(env, &c, lc, base, Opts::default())?;
    }
    let tsc = c.clone();
    let mut keys: Vec<&String> = m.keys().collect();
    keys.sort();
    let mut input_type: Option<String> = None;
    let mut first = true;
    // The keys are expanded with the context before type-scoped contexts apply.
    let type_keys: Vec<&String> =
        keys.iter().filter(|k| expand_iri_plain(&tsc, k, false, true).as_deref() == Some("@type")).cloned().collect();
    let mut last_type: Option<String> = None;
    for k in &type_keys {
        let vals = arr(&m[k.as_str()]);
        let mut s: Vec<&str> = vals.iter().filter_map(|v| v.as_str()).collect();
        if first {
            last_type = vals.last().and_then(|v| v.as_str()).map(|s| s.to_string());
            first = false;
        }
        s.sort();
        for t in s {
            if let Some(d) = tsc.terms.get(t) {
                if let Some(lc) = &d.context {
                    c = process(env, &c, lc, d.base_url.as_deref(), Opts { propagate: false, ..Opts::default() })?;
                }
            }
        }
    }
    if let Some(t) = last_type {
        input_type = expand_iri_plain(&c, &t, false, true);
    }
    let mut result = Map::new();
    let mut nests: Vec<String> = vec![];
    expand_entries(env, &c, &tsc, prop, m, base, input_type.as_deref(), &mut result, &mut nests)?;

    if ["@value", "@list", "@set"].iter().any(|k| result.contains_key(*k)) {
        // Keywords which mean nothing in a document may be forbidden there, or ignored.
        let ignored = |k: &String| match expand_iri_plain(&c, k, false, true) {
            Some(i) => is_keyword(&i) && i != "@context" && !["@value", "@list", "@set", "@index", "@type", "@language", "@direction"].contains(&i.as_str()),
            None => false,
        };
        if m.keys().any(ignored) && !["@id", "@reverse", "@graph", "@included"].iter().any(|k| result.contains_key(*k)) {
            env.fuel.set(0);
        }
    }
    if result.contains_key("@value") {
        for k in result.keys() {
            if !["@direction", "@index", "@language", "@type", "@value"].contains(&k.as_str()) {
                return err("invalid value object");
            }
        }
        if result.contains_key("@type") && (result.contains_key("@language") || result.contains_key("@direction")) {
            return err("invalid value object");
        }
        let is_json = result.get("@type").map(|t| t == "@json" || t == &json!(["@json"])).unwrap_or(false);
        if is_json {
            result.insert("@type".into(), json!("@json"));
            return finish(result, prop);
        }
        let v = &result["@value"];
        if v.is_null() || v == &json!([]) {
            return Ok(Value::Null);
        }
        if !v.is_string() && result.contains_key("@language") {
            return err("invalid language-tagged value");
        }
        if let Some(t) = result.get("@type") {
            match t.as_str() {
                Some(t) if is_iri(t) => {}
                _ => return err("invalid typed value"),
            }
        }
    } else if result.contains_key("@list") || result.contains_key("@set") {
        for k in result.keys() {
            if !["@list", "@set", "@index"].contains(&k.as_str()) {
                return err("invalid set or list object");
            }
        }
        if result.contains_key("@set") {
            let s = result.remove("@set").unwrap();
            return match s {
                Value::Object(m) => finish(m, prop),
                v => Ok(v),
            };
        }
    } else if result.contains_key("@type") && !result["@type"].is_array() {
        let t = result["@type"].clone();
        result.insert("@type".into(), json!([t]));
    }
    finish(result, prop)
}

fn finish(result: Map<String, Value>, prop: Option<&str>) -> R<Value> {
    if result.len() == 1 && result.contains_key("@language") {
        return Ok(Value::Null);
    }
    if prop.is_none() || prop == Some("@graph") {
        if result.is_empty() || result.contains_key("@value") || result.contains_key("@list") {
            return Ok(Value::Null);
        }
        if result.len() == 1 && result.contains_key("@id") {
            return Ok(Value::Null);
        }
    }
    Ok(Value::Object(result))
}

#[allow(clippy::too_many_arguments)]
fn expand_entries(
    env: &Env, c: &Ctx, tsc: &Ctx, prop: Option<&str>, m: &Map<String, Value>, base: Option<&str>,
    input_type: Option<&str>, result: &mut Map<String, Value>, _n: &mut Vec<String>,
) -> R<()> {
    let mut nests: Vec<&String> = vec![];
    let mut keys: Vec<&String> = m.keys().collect();
    env.arrange(&mut keys);
    for key in keys {
        if key == "@context" {
            continue;
        }
        let value = &m[key.as_str()];
        let ep = match term_iri(env, c, key, false)? {
            Some(e) => e,
            None => continue,
        };
        if !is_keyword(&ep) && !is_iri(&ep) && !is_blank_id(&ep) {
            match env.policy[0] {
                2 => return err("invalid key"),
                1 if ep.contains(':') => continue,
                _ => {}
            }
        }
        if !ep.contains(':') && !is_keyword(&ep) {
            if env.policy[2] == 1 {
                return err("undefined key");
            }
            continue;
        }
        if is_keyword(&ep) {
            if prop == Some("@reverse") {
                return err("invalid reverse property map");
            }
            if result.contains_key(&ep) && ep != "@included" && ep != "@type" {
                return err("colliding keywords");
            }
            let ev: Value = match ep.as_str() {
                "@id" => match value {
                    Value::String(s) => match expand_iri_plain(c, s, true, false) {
                        Some(s) => json!(s),
                        None => Value::Null,
                    },
                    _ => return err("invalid @id value"),
                },
                "@type" => {
                    if !arr(value).iter().all(|v| v.is_string()) {
                        return err("invalid type value");
                    }
                    let mut out: Vec<Value> = vec![];
                    for v in arr(value) {
                        let of_value = || m.keys().any(|k| expand_iri_plain(c, k, false, true).as_deref() == Some("@value"));
                        let t = term_iri(env, tsc, v.as_str().unwrap(), true)?;
                        if env.policy[1] == 1 && t.is_none() && of_value() {
                            env.fuel.set(0);
                        }
                        if let Some(t) = t {
                            if !is_keyword(&t) && !is_iri(&t) && !is_blank_id(&t) && !of_value() {
                                match env.policy[0] {
                                    2 => return err("invalid type value"),
                                    1 => continue,
                                    _ => {}
                                }
                            }
                            // A node cannot be an instance of a keyword.
                            if is_keyword(&t) && !m.keys().any(|k| expand_iri_plain(c, k, false, true).as_deref() == Some("@value")) {
                                return err("invalid type value");
                            }
                            out.push(json!(t));
                        }
                    }
                    let single = !value.is_array();
                    if out.is_empty() && !arr(value).is_empty() && env.policy[..2].contains(&1) {
                        continue;
                    }
                    if let Some(p) = result.get("@type") {
                        let mut p: Vec<Value> = arr(p).into_iter().cloned().collect();
                        p.extend(out);
                        Value::Array(p)
                    } else if single && out.len() == 1 {
                        out.pop().unwrap()
                    } else {
                        Value::Array(out)
                    }
                }
                "@graph" => {
                    let e = expand(env, c, Some("@graph"), value, base, false)?;
                    match e {
                        Value::Array(a) => Value::Array(a),
                        Value::Null => json!([]),
                        e => json!([e]),
                    }
                }
                "@included" => {
                    if env.mode10 {
                        continue;
                    }
                    let e = expand(env, c, Some("@included"), value, base, false)?;
                    let mut a = match e {
                        Value::Array(a) => a,
                        Value::Null => vec![],
                        e => vec![e],
                    };
                    for i in &a {
                        let o = match i.as_object() {
                            Some(o) => o,
                            None => return err("invalid @included value"),
                        };
                        if o.contains_key("@value") || o.contains_key("@list") || o.contains_key("@set") {
                            return err("invalid @included value");
                        }
                    }
                    if let Some(p) = result.get("@included") {
                        let mut p: Vec<Value> = arr(p).into_iter().cloned().collect();
                        p.append(&mut a);
                        Value::Array(p)
                    } else {
                        Value::Array(a)
                    }
                }
                "@value" => {
                    if input_type == Some("@json") {
                        if env.mode10 {
                            return err("invalid value object value");
                        }
                        value.clone()
                    } else if scalar(value) || value.is_null() {
                        if value.is_null() {
                            result.insert("@value".into(), Value::Null);
                            continue;
                        }
                        value.clone()
                    } else {
                        return err("invalid value object value");
                    }
                }
                "@language" => match value {
                    Value::String(s) => json!(s.to_lowercase()),
                    _ => {
                        only_values(env, c, m);
                        return err("invalid language-tagged string");
                    }
                },
                "@direction" => {
                    if env.mode10 {
                        continue;
                    }
                    match value.as_str() {
                        Some("ltr") | Some("rtl") => value.clone(),
                        _ => {
                            only_values(env, c, m);
                            return err("invalid base direction");
                        }
                    }
                }
                "@index" => match value {
                    Value::String(_) => value.clone(),
                    _ => return err("invalid @index value"),
                },
                "@list" => {
                    if prop.is_none() || prop == Some("@graph") {
                        continue;
                    }
                    let e = expand(env, c, prop, value, base, false)?;
                    match e {
                        Value::Array(a) => Value::Array(a),
                        Value::Null => json!([]),
                        e => json!([e]),
                    }
                }
                "@set" => expand(env, c, prop, value, base, false)?,
                "@reverse" => {
                    if !value.is_object() {
                        return err("invalid @reverse value");
                    }
                    // Terms which are reverse properties collide with `@reverse` when they come
                    // first, in an order which is left open.
                    if m.keys().any(|k| c.terms.get(k.as_str()).map(|d| d.reverse).unwrap_or(false)) {
                        env.fuel.set(0);
                    }
                    let e = expand(env, c, Some("@reverse"), value, base, false)?;
                    if let Value::Object(mut e) = e {
                        if let Some(Value::Object(r)) = e.remove("@reverse") {
                            for (p, items) in r {
                                push(result, &p, items);
                            }
                        }
                        if !e.is_empty() {
                            let rm = result
                                .entry("@reverse".to_string())
                                .or_insert_with(|| json!({}))
                                .as_object_mut()
                                .unwrap();
                            for (p, items) in e {
                                rm.entry(p.clone()).or_insert_with(|| json!([]));
                                for i in arr(&items) {
                                    let o = i.as_object();
                                    if o.map(|o| o.contains_key("@value") || o.contains_key("@list")).unwrap_or(true) {
                                        return err("invalid reverse property value");
                                    }
                                    push(rm, &p, i.clone());
                                }
                            }
                        }
                    }
                    continue;
                }
                "@nest" => {
                    if matches!(env.order, super::Order::SortedInline | super::Order::GivenInline) {
                        expand_nest(env, c, tsc, prop, m, base, input_type, result, _n, key)?;
                    } else {
                        nests.push(key);
                    }
                    continue;
                }
                _ => continue,
            };
            if !(ev.is_null() && ep == "@value" && input_type != Some("@json")) {
                result.insert(ep, ev);
            }
            continue;
        }
        let d = c.terms.get(key.as_str());
        let cont = |s: &str| d.map(|d| d.container.contains(s)).unwrap_or(false);
        let mut ev = if d.and_then(|d| d.typ.as_deref()) == Some("@json") {
            json!({"@value": value, "@type": "@json"})
        } else if cont("@language") && value.is_object() {
            let dir = match d.and_then(|d| d.direction.clone()) {
                Some(x) => x,
                None => c.dir.clone(),
            };
            let mut out = vec![];
            let vm = value.as_object().unwrap();
            let mut lk: Vec<&String> = vm.keys().collect();
            lk.sort();
            for l in lk {
                for item in arr(&vm[l.as_str()]) {
                    if item.is_null() {
                        continue;
                    }
                    if !item.is_string() {
                        return err("invalid language map value");
                    }
                    let mut v = Map::new();
                    v.insert("@value".into(), item.clone());
                    if l != "@none" && expand_iri_plain(c, l, false, true).as_deref() != Some("@none") {
                        v.insert("@language".into(), json!(l.to_lowercase()));
                    }
                    if let Some(d) = &dir {
                        v.insert("@direction".into(), json!(d));
                    }
                    out.push(Value::Object(v));
                }
            }
            Value::Array(out)
        } else if (cont("@index") || cont("@type") || cont("@id")) && value.is_object() {
            let index_key = d.and_then(|d| d.index.clone()).unwrap_or_else(|| "@index".into());
            let as_graph = cont("@graph");
            let vm = value.as_object().unwrap();
            let mut out = vec![];
            let mut ik: Vec<&String> = vm.keys().collect();
            env.arrange(&mut ik);
            for index in ik {
                let iv = &vm[index.as_str()];
                let mut mc = if cont("@id") || cont("@type") {
                    match &c.prev {
                        Some(p) => (**p).clone(),
                        None => c.clone(),
                    }
                } else {
                    c.clone()
                };
                if cont("@type") {
                    // The definition is looked up in the map context.
                    if let Some((Some(lc), bu)) = mc.terms.get(index.as_str()).map(|t| (t.context.clone(), t.base_url.clone())) {
                        mc = process(env, &mc, &lc, bu.as_deref(), Opts::default())?;
                    }
                } else if !cont("@id") {
                    mc = c.clone();
                }
                let expanded_index = if cont("@type") && !expand_iri_plain(c, index, false, true).map(|i| is_keyword(&i)).unwrap_or(true) {
                    let t = term_iri(env, c, index, false)?;
                    if t.as_deref().map(|t| !is_iri(t) && !is_blank_id(t)).unwrap_or(false) && env.policy[0] != 0 {
                        env.fuel.set(0);
                    }
                    t.unwrap_or_default()
                } else {
                    expand_iri_plain(c, index, false, true).unwrap_or_default()
                };
                let ivs = Value::Array(arr(iv).into_iter().cloned().collect());
                let e = expand(env, &mc, Some(key), &ivs, base, true)?;
                let items = match e {
                    Value::Array(a) => a,
                    Value::Null => vec![],
                    e => vec![e],
                };
                for item in items {
                    let mut item = if as_graph && !is_graph_object(&item) {
                        json!({"@graph": [item]})
                    } else {
                        item
                    };
                    let im = item.as_object_mut().unwrap();
                    // Only node objects have identifiers, types and properties: what becomes of
                    // anything else in such a map is left open.
                    let node = !im.contains_key("@value") && !im.contains_key("@list");
                    if cont("@id") && im.get("@id") == Some(&Value::Null) {
                        // An identifier which means nothing.
                        env.fuel.set(0);
                    }
                    if !node && (cont("@id") || cont("@type") || (index_key != "@index" && !im.contains_key("@value"))) {
                        env.fuel.set(0);
                    }
                    if cont("@index") && index_key != "@index" && expanded_index != "@none" {
                        let re = expand_value(env, c, &index_key, &json!(index))?;
                        if env.policy[1] != 0 && needs_vocab(c, &index_key) {
                            env.fuel.set(0);
                        }
                        let Some(eik) = expand_iri_plain(c, &index_key, false, true) else {
                            // Redefined since.
                            env.fuel.set(0);
                            continue;
                        };
                        let mut vals = vec![re];
                        if let Some(p) = im.get(&eik) {
                            vals.extend(arr(p).into_iter().cloned());
                        }
                        im.insert(eik, Value::Array(vals));
                        if im.contains_key("@value") && im.len() > 1 {
                            return err("invalid value object");
                        }
                    } else if cont("@index") && !im.contains_key("@index") && expanded_index != "@none" {
                        im.insert("@index".into(), json!(index));
                    } else if cont("@id") && !im.contains_key("@id") && expanded_index != "@none" {
                        if let Some(i) = expand_iri_plain(c, index, true, false) {
                            im.insert("@id".into(), json!(i));
                        }
                    } else if cont("@type") && !expanded_index.is_empty() && expanded_index != "@none" {
                        if is_keyword(&expanded_index) {
                            return err("invalid type value");
                        }
                        let mut t = vec![json!(expanded_index)];
                        if let Some(p) = im.get("@type") {
                            t.extend(arr(p).into_iter().cloned());
                        }
                        im.insert("@type".into(), Value::Array(t));
                    }
                    out.push(item);
                }
            }
            Value::Array(out)
        } else {
            expand(env, c, Some(key), value, base, false)?
        };
        if ev.is_null() {
            continue;
        }
        if cont("@list") && !ev.as_object().map(|o| o.contains_key("@list")).unwrap_or(false) {
            let a: Vec<Value> = arr(&ev).into_iter().cloned().collect();
            ev = json!({ "@list": a });
        }
        if cont("@graph") && !cont("@id") && !cont("@index") {
            let a: Vec<Value> = arr(&ev).into_iter().map(|e| json!({"@graph": arr(e).into_iter().cloned().collect::<Vec<_>>()})).collect();
            ev = Value::Array(a);
        }
        if d.map(|d| d.reverse).unwrap_or(false) {
            let rm = result.entry("@reverse".to_string()).or_insert_with(|| json!({})).as_object_mut().unwrap();
            // The standard only mentions properties with values; empty ones say nothing.
            rm.entry(ep.clone()).or_insert_with(|| json!([]));
            for i in arr(&ev) {
                let o = i.as_object();
                if o.map(|o| o.contains_key("@value") || o.contains_key("@list")).unwrap_or(true) {
                    return err("invalid reverse property value");
                }
                push(rm, &ep, i.clone());
            }
        } else {
            push(result, &ep, ev);
        }
    }
    for nk in nests {
        expand_nest(env, c, tsc, prop, m, base, input_type, result, _n, nk)?;
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn expand_nest(
    env: &Env, c: &Ctx, tsc: &Ctx, prop: Option<&str>, m: &Map<String, Value>, base: Option<&str>,
    input_type: Option<&str>, result: &mut Map<String, Value>, _n: &mut Vec<String>, nk: &str,
) -> R<()> {
    for nv in arr(&m[nk]) {
        let no = match nv {
            Value::Object(o) => o,
            _ => return err("invalid @nest value"),
        };
        if no.keys().any(|k| expand_iri_plain(c, k, false, true).as_deref() == Some("@value")) {
            return err("invalid @nest value");
        }
        // A property-scoped context on the nesting term applies to the nested entries.
        let mut nc: Rc<Ctx> = Rc::new(c.clone());
        if let Some(d) = c.terms.get(nk) {
            if let Some(lc) = &d.context {
                nc = Rc::new(process(
                    env,
                    c,
                    lc,
                    d.base_url.as_deref(),
                    Opts { override_protected: true, ..Opts::default() },
                )?);
            }
        }
        expand_entries(env, &nc, tsc, prop, no, base, input_type, result, _n)?;
    }
    Ok(())
}

/// Value expansion.
fn is_blank_id(s: &str) -> bool {
    s.starts_with("_:") && s.len() > 2
}
/// Does a term only have a meaning through the vocabulary mapping?
fn needs_vocab(c: &Ctx, v: &str) -> bool {
    let mut d = c.clone();
    d.vocab = Some("vocab:1:".into());
    let mut e = c.clone();
    e.vocab = Some("vocab:2:".into());
    c.vocab.is_some() && expand_iri_plain(&d, v, true, true) != expand_iri_plain(&e, v, true, true)
}
/// Expansion of a term, under the policy.
fn term_iri(env: &Env, c: &Ctx, v: &str, doc_rel: bool) -> R<Option<String>> {
    match env.policy[1] {
        1 if needs_vocab(c, v) => Ok(None),
        2 if needs_vocab(c, v) => err("forbidden vocabulary mapping"),
        _ => Ok(expand_iri_plain(c, v, doc_rel, true)),
    }
}
pub fn expand_value(env: &Env, c: &Ctx, prop: &str, v: &Value) -> R<Value> {
    let d = c.terms.get(prop);
    let ty = d.and_then(|d| d.typ.as_deref());
    if ty == Some("@id") && v.is_string() {
        return match expand_iri_plain(c, v.as_str().unwrap(), true, false) {
            Some(i) => Ok(json!({ "@id": i })),
            None => Ok(json!({ "@id": null })),
        };
    }
    if ty == Some("@vocab") && v.is_string() {
        return match term_iri(env, c, v.as_str().unwrap(), true)? {
            Some(i) => Ok(json!({ "@id": i })),
            None => Ok(json!({ "@id": null })),
        };
    }
    let mut m = Map::new();
    m.insert("@value".into(), v.clone());
    match ty {
        Some(t) if t != "@id" && t != "@vocab" && t != "@none" => {
            m.insert("@type".into(), json!(t));
        }
        _ => {
            if v.is_string() {
                let lang = match d.and_then(|d| d.language.clone()) {
                    Some(l) => l,
                    None => c.lang.clone(),
                };
                let dir = match d.and_then(|d| d.direction.clone()) {
                    Some(l) => l,
                    None => c.dir.clone(),
                };
                if let Some(l) = lang {
                    m.insert("@language".into(), json!(l));
                }
                if let Some(l) = dir {
                    m.insert("@direction".into(), json!(l));
                }
            }
        }
    }
    Ok(Value::Object(m))
}

pub fn is_graph_object(v: &Value) -> bool {
    v.as_object()
        .map(|o| o.contains_key("@graph") && o.keys().all(|k| ["@graph", "@id", "@index"].contains(&k.as_str())))
        .unwrap_or(false)
}

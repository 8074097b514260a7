//! Workload generation: worlds of served context documents, input documents,
//! operations. Term names imply the shape of their values, so that generated
//! documents exercise the definitions; what a term *means* varies per context.
use crate::net::{Page, World};
use crate::rng::Rng;
use serde_json::{json, Map, Value};

/// Features enabled for a case (swarm testing: a random subset per run).
#[derive(Clone, Debug)]
pub struct Feat {
    pub import: bool,
    pub nested_remote: bool,
    pub relative: bool,
    pub scoped: bool,
    pub type_scoped: bool,
    pub scoped_remote: bool,
    pub null_ctx: bool,
    pub protected: bool,
    pub propagate: bool,
    pub base: bool,
    pub vocab: bool,
    pub lang: bool,
    pub direction: bool,
    pub containers: bool,
    pub graphs: bool,
    pub lists: bool,
    pub reverse: bool,
    pub json_lit: bool,
    pub nest: bool,
    pub included: bool,
    pub alias: bool,
    pub cyclic: bool,
    pub redirect: bool,
    pub link_ctx: bool,
    pub blank: bool,
    pub compact_iri: bool,
    pub array_ctx: bool,
    pub prop_index: bool,
    pub type_maps: bool,
    pub junk: bool,
    pub expand_ctx: bool,
    pub nums: bool,
    pub wild: bool,
    pub kalias: bool,
}
impl Feat {
    pub fn random(r: &mut Rng) -> Feat {
        let dense = [25, 50, 75][r.below(3)];
        let mut b = || r.pct(dense);
        Feat {
            import: b(),
            nested_remote: b(),
            relative: b(),
            scoped: b(),
            type_scoped: b(),
            scoped_remote: b(),
            null_ctx: b(),
            protected: b(),
            propagate: b(),
            base: b(),
            vocab: b(),
            lang: b(),
            direction: b(),
            containers: b(),
            graphs: b(),
            lists: b(),
            reverse: b(),
            json_lit: b(),
            nest: b(),
            included: b(),
            alias: b(),
            cyclic: b(),
            redirect: b(),
            link_ctx: b(),
            blank: b(),
            compact_iri: b(),
            array_ctx: b(),
            prop_index: b(),
            type_maps: b(),
            junk: b(),
            expand_ctx: b(),
            nums: b(),
            wild: b(),
            kalias: b(),
        }
    }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub f: Feat,
    pub urls: Vec<String>,
    pub imports: Vec<String>,
    pub max_depth: usize,
}

pub const NS: &[&str] = &["http://ex.org/", "http://ns.org/v#", "http://ex.org/deep/"];
pub const LOCAL: &[&str] = &["p", "q", "r", "s", "x"];
pub const PLAIN: &[&str] = &["a", "b", "c"];

/// Terms of any combination of container, type, language, direction and index.
pub const WILD: &[&str] = &["w0", "w1", "w2", "w3"];
/// Aliases of keywords.
pub const ALIASES: &[(&str, &str)] = &[
    ("kval", "@value"),
    ("klang", "@language"),
    ("kdir", "@direction"),
    ("klist", "@list"),
    ("kset", "@set"),
    ("kidx", "@index"),
    ("kgraph", "@graph"),
    ("knone", "@none"),
    ("kinc", "@included"),
    ("krev", "@reverse"),
    ("ktype", "@type"),
];
fn unalias(t: &str) -> bool {
    ["T", "U", "kid", "ktype"].contains(&t)
}
/// Uses aliases for some of the keywords of a document.
fn alias(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| alias(r, x)),
        Value::Object(m) => {
            let old = std::mem::take(m);
            for (k, mut x) in old {
                if k == "@context" {
                    m.insert(k, x);
                    continue;
                }
                alias(r, &mut x);
                match ALIASES.iter().find(|(_, w)| *w == k) {
                    Some((a, _)) if r.pct(40) => m.insert(a.to_string(), x),
                    _ => m.insert(k, x),
                };
            }
        }
        _ => {}
    }
}

fn pick_ns(r: &mut Rng) -> &'static str {
    NS[r.below(NS.len())]
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, f: Feat) -> Self {
        Gen { r, f, urls: vec![], imports: vec![], max_depth: 3 }
    }
    fn iri(&mut self) -> String {
        let ns = pick_ns(self.r);
        format!("{ns}{}", self.r.pick(LOCAL))
    }
    /// A reference to a served context, possibly relative to `at`.
    fn ctx_ref(&mut self, at: Option<&str>, pool: &[String]) -> String {
        let u = self.r.pick(pool).clone();
        if self.f.relative && self.r.pct(60) {
            if let Some(at) = at {
                return relative(at, &u);
            }
        }
        u
    }

    /// One served world: `n` context documents and `m` importable ones.
    pub fn world(&mut self) -> World {
        let mut w = World::new();
        let n = self.r.range(1, 5);
        let m = if self.f.import { self.r.range(1, 2) } else { 0 };
        for i in 0..n {
            let h = self.r.below(2);
            let dir = ["", "d/", "d/e/"][self.r.below(3)];
            self.urls.push(format!("http://c{h}.org/{dir}ctx{i}.jsonld"));
        }
        for i in 0..m {
            let dir = ["", "d/"][self.r.below(2)];
            self.imports.push(format!("http://c0.org/{dir}imp{i}.jsonld"));
        }
        for i in 0..m {
            let at = self.imports[i].clone();
            // Scoped contexts may import and include in turn.
            let (urls, imps) = match (self.f.cyclic, self.r.pct(30)) {
                (true, true) => (self.urls.clone(), self.imports.clone()),
                (false, true) => (vec![], self.imports[i + 1..].to_vec()),
                _ => (vec![], vec![]),
            };
            let c = self.ctx_object(Some(&at), &urls, &imps, 1, false);
            let p = self.page(json!({ "@context": c }), &at, "imp", i);
            w.insert(at, p);
        }
        for i in (0..n).rev() {
            let url = self.urls[i].clone();
            // The base for relative references is the final URL.
            let fin = if self.f.redirect && self.r.pct(40) {
                Some(format!("http://r.org/{}ctx{i}.jsonld", ["", "far/", "far/er/"][self.r.below(3)]))
            } else {
                None
            };
            let at = fin.clone().unwrap_or(url.clone());
            let pool: Vec<String> =
                if self.f.cyclic { self.urls.clone() } else { self.urls[i + 1..].to_vec() };
            let imps = self.imports.clone();
            let c = self.context(Some(&at), &pool, &imps, 0);
            let mut doc = Map::new();
            if self.r.pct(15) {
                doc.insert("ignored".into(), json!("x"));
            }
            doc.insert("@context".into(), c);
            let mut p = Page { doc: Value::Object(doc), ..Page::default() };
            p.final_url = fin;
            w.insert(url, p);
        }
        w
    }
    fn page(&mut self, doc: Value, _at: &str, _k: &str, _i: usize) -> Page {
        Page { doc, ..Page::default() }
    }

    /// A local context (value of @context).
    pub fn context(&mut self, at: Option<&str>, pool: &[String], imps: &[String], depth: usize) -> Value {
        let k = self.r.below(10);
        let nested = self.f.nested_remote || depth == 0;
        if self.f.array_ctx && k < 4 {
            let n = self.r.range(1, 3);
            let mut a = vec![];
            for _ in 0..n {
                if nested && !pool.is_empty() && self.r.pct(50) {
                    a.push(json!(self.ctx_ref(at, pool)));
                } else if self.f.null_ctx && self.r.pct(12) {
                    a.push(Value::Null);
                } else {
                    a.push(self.ctx_object(at, pool, imps, depth, true));
                }
            }
            return Value::Array(a);
        }
        if nested && !pool.is_empty() && k < 7 && depth > 0 {
            return json!(self.ctx_ref(at, pool));
        }
        self.ctx_object(at, pool, imps, depth, true)
    }

    pub fn ctx_object(
        &mut self, at: Option<&str>, pool: &[String], imps: &[String], depth: usize, can_import: bool,
    ) -> Value {
        let mut m = Map::new();
        if self.r.pct(10) {
            m.insert("@version".into(), json!(1.1));
        }
        if can_import && self.f.import && !imps.is_empty() && self.r.pct(45) {
            let imps = imps.to_vec();
            m.insert("@import".into(), json!(self.ctx_ref(at, &imps)));
        }
        if self.f.vocab && self.r.pct(35) {
            let v = match self.r.below(6) {
                0 => Value::Null,
                1 if self.f.compact_iri && !self.f.base => json!("v/"),
                _ => json!(pick_ns(self.r)),
            };
            m.insert("@vocab".into(), v);
        }
        if self.f.base && self.r.pct(30) {
            let v = match self.r.below(5) {
                0 => Value::Null,
                1 => json!("sub/dir/"),
                2 => json!("../up"),
                _ => json!("http://base.org/x/y"),
            };
            m.insert("@base".into(), v);
        }
        if self.f.lang && self.r.pct(35) {
            let l = [json!("en"), json!("fr"), json!("de-at"), Value::Null];
            m.insert("@language".into(), self.r.pick(&l).clone());
        }
        if self.f.direction && self.r.pct(30) {
            let l = [json!("ltr"), json!("rtl"), Value::Null];
            m.insert("@direction".into(), self.r.pick(&l).clone());
        }
        if self.f.protected && self.r.pct(15) {
            m.insert("@protected".into(), json!(true));
        }
        if self.f.propagate && self.r.pct(15) {
            m.insert("@propagate".into(), json!(self.r.pct(40)));
        }
        // prefix first in the order half of the time
        let mut terms = vec![];
        if self.f.compact_iri && self.r.pct(50) {
            terms.push("ex");
        }
        let all: Vec<&str> = self.term_pool();
        for _ in 0..self.r.range(1, 5) {
            let t = *self.r.pick(&all);
            if !terms.contains(&t) {
                terms.push(t);
            }
        }
        if self.f.wild {
            for t in WILD {
                if self.r.pct(40) {
                    terms.push(t);
                }
            }
        }
        if self.f.kalias {
            for (a, _) in ALIASES {
                if self.r.pct(30) && !terms.contains(a) {
                    terms.push(a);
                }
            }
        }
        self.r.shuffle(&mut terms);
        for t in terms {
            let d = self.term_def(t, at, pool, imps, depth);
            m.insert(t.into(), d);
        }
        Value::Object(m)
    }

    pub fn term_pool(&self) -> Vec<&'static str> {
        let f = &self.f;
        let mut v = vec!["a", "b", "c", "ref", "voc", "num"];
        if f.containers {
            v.extend(["setc", "idxm"]);
        }
        if f.lang {
            v.extend(["langm", "langt"]);
        }
        if f.lists {
            v.push("lst");
        }
        if f.graphs {
            v.extend(["gr", "gridx", "grid"]);
        }
        if f.reverse {
            v.push("rev");
        }
        if f.json_lit {
            v.push("js");
        }
        if f.nest {
            v.extend(["nst", "nsta"]);
        }
        if f.alias {
            v.extend(["kid", "ktype"]);
        }
        if f.scoped {
            v.push("sp");
        }
        if f.type_scoped {
            v.extend(["T", "U"]);
        }
        if f.type_maps {
            v.extend(["idm", "typm"]);
        }
        if f.prop_index {
            v.extend(["pidx", "idx"]);
        }
        if f.compact_iri {
            v.extend(["ex:p", "ex:q"]);
        }
        if f.direction {
            v.push("dirt");
        }
        if f.wild {
            v.extend(WILD);
        }
        v
    }

    fn term_iri(&mut self, t: &str) -> Value {
        if t == "idx" {
            return json!("http://ex.org/index");
        }
        if t.contains(':') {
            // must expand to itself: leave it to the prefix
            return Value::Null;
        }
        if self.f.compact_iri && self.r.pct(25) {
            return json!(format!("ex:{}", self.r.pick(LOCAL)));
        }
        json!(self.iri())
    }

    fn term_def(&mut self, t: &str, at: Option<&str>, pool: &[String], imps: &[String], depth: usize) -> Value {
        if t == "ex" {
            let ns = pick_ns(self.r);
            return if self.r.pct(25) { json!({"@id": ns, "@prefix": true}) } else { json!(ns) };
        }
        if t == "kid" {
            return json!("@id");
        }
        if let Some((_, k)) = ALIASES.iter().find(|(a, _)| *a == t) {
            return json!(k);
        }
        if WILD.contains(&t) {
            return self.wild_def(at, pool, imps, depth);
        }
        if t == "nst" {
            return json!("@nest");
        }
        let mut m = Map::new();
        let id = self.term_iri(t);
        if !id.is_null() {
            m.insert("@id".into(), id.clone());
        } else if t.contains(':') && !self.f.vocab && self.r.pct(30) {
            // fallthrough: definition without @id
        }
        let mut simple = true;
        match t {
            "a" | "b" | "c" => {
                if self.f.null_ctx && self.r.pct(6) {
                    return Value::Null;
                }
                if self.r.pct(20) {
                    m.insert("@type".into(), json!("http://www.w3.org/2001/XMLSchema#integer"));
                    simple = false;
                }
            }
            "ref" => {
                m.insert("@type".into(), json!("@id"));
                simple = false;
            }
            "voc" => {
                m.insert("@type".into(), json!("@vocab"));
                simple = false;
            }
            "num" => {
                let ty = if self.f.compact_iri && self.r.pct(40) { json!("ex:type") } else { json!("http://www.w3.org/2001/XMLSchema#double") };
                m.insert("@type".into(), ty);
                simple = false;
            }
            "setc" => {
                m.insert("@container".into(), json!("@set"));
                simple = false;
            }
            "idxm" => {
                m.insert("@container".into(), if self.r.pct(30) { json!(["@index", "@set"]) } else { json!("@index") });
                simple = false;
            }
            "pidx" => {
                m.insert("@container".into(), json!("@index"));
                let i = ["http://ex.org/index", "http://ex.org/index", "ex:index"];
                let i = i[self.r.below(if self.f.compact_iri { 3 } else { 2 })];
                m.insert("@index".into(), json!(i));
                simple = false;
            }
            "langm" => {
                m.insert("@container".into(), if self.r.pct(30) { json!(["@language", "@set"]) } else { json!("@language") });
                simple = false;
            }
            "langt" => {
                m.insert("@language".into(), [json!("en"), json!("it"), Value::Null][self.r.below(3)].clone());
                simple = false;
            }
            "dirt" => {
                m.insert("@direction".into(), [json!("ltr"), json!("rtl"), Value::Null][self.r.below(3)].clone());
                simple = false;
            }
            "lst" => {
                m.insert("@container".into(), json!("@list"));
                simple = false;
            }
            "gr" => {
                m.insert("@container".into(), json!("@graph"));
                simple = false;
            }
            "gridx" => {
                m.insert("@container".into(), json!(["@graph", "@index"]));
                simple = false;
            }
            "grid" => {
                m.insert("@container".into(), json!(["@graph", "@id"]));
                simple = false;
            }
            "idm" => {
                m.insert("@container".into(), json!("@id"));
                simple = false;
            }
            "typm" => {
                m.insert("@container".into(), json!("@type"));
                simple = false;
            }
            "js" => {
                m.insert("@type".into(), json!("@json"));
                simple = false;
            }
            "nsta" => {
                m.insert("@nest".into(), json!("@nest"));
                simple = false;
            }
            "rev" => {
                let id = m.remove("@id");
                if let Some(id) = id {
                    m.insert("@reverse".into(), id);
                }
                return Value::Object(m);
            }
            "sp" | "T" | "U" => {}
            _ => {}
        }
        let scoped = match t {
            "sp" => true,
            "T" | "U" => self.r.pct(85),
            "a" | "ref" | "idxm" | "setc" | "gr" => self.f.scoped && self.r.pct(15),
            _ => false,
        };
        if scoped && depth < 2 {
            let c = if self.f.scoped_remote && !pool.is_empty() && self.r.pct(55) {
                json!(self.ctx_ref(at, pool))
            } else {
                self.context(at, pool, imps, depth + 1)
            };
            m.insert("@context".into(), c);
            simple = false;
        }
        if self.f.protected && self.r.pct(10) {
            m.insert("@protected".into(), json!(self.r.pct(80)));
            simple = false;
        }
        if t.contains(':') && m.is_empty() {
            m.insert("@type".into(), json!("@id"));
            simple = false;
        }
        if simple && !id.is_null() && self.r.pct(60) {
            return id;
        }
        Value::Object(m)
    }

    fn wild_def(&mut self, at: Option<&str>, pool: &[String], imps: &[String], depth: usize) -> Value {
        let mut m = Map::new();
        let id = json!(["http://ex.org/p", "http://ex.org/p", "http://ex.org/q", "http://ns.org/v#p"][self.r.below(4)]);
        if self.f.reverse && self.r.pct(15) {
            m.insert("@reverse".into(), id);
            if self.r.pct(40) {
                m.insert("@type".into(), json!(["@id", "@vocab"][self.r.below(2)]));
            }
            if self.r.pct(50) {
                m.insert("@container".into(), [json!("@set"), json!("@index"), Value::Null][self.r.below(3)].clone());
            }
            return Value::Object(m);
        }
        m.insert("@id".into(), id);
        let mut index = false;
        if self.r.pct(70) {
            let c = [
                json!("@set"),
                json!("@list"),
                json!("@index"),
                json!(["@index", "@set"]),
                json!("@language"),
                json!(["@set", "@language"]),
                json!("@id"),
                json!(["@id", "@set"]),
                json!("@type"),
                json!(["@type", "@set"]),
                json!("@graph"),
                json!(["@graph", "@set"]),
                json!(["@graph", "@index"]),
                json!(["@graph", "@index", "@set"]),
                json!(["@graph", "@id"]),
                json!(["@set", "@id", "@graph"]),
                json!([]),
                json!(["@list"]),
            ];
            let c = self.r.pick(&c).clone();
            index = c.to_string().contains("@index");
            m.insert("@container".into(), c);
        }
        if self.r.pct(50) {
            let t = ["@id", "@vocab", "@json", "@none", "http://www.w3.org/2001/XMLSchema#integer", "http://ex.org/dt"];
            m.insert("@type".into(), json!(self.r.pick(&t)));
        }
        if self.f.lang && self.r.pct(40) {
            m.insert("@language".into(), [json!("en"), json!("fr"), Value::Null][self.r.below(3)].clone());
        }
        if self.f.direction && self.r.pct(40) {
            m.insert("@direction".into(), [json!("ltr"), json!("rtl"), Value::Null][self.r.below(3)].clone());
        }
        if index && self.f.prop_index && self.r.pct(40) {
            m.insert("@index".into(), json!(["http://ex.org/index", "idx", "a"][self.r.below(3)]));
        }
        if self.f.nest && self.r.pct(15) {
            m.insert("@nest".into(), json!("@nest"));
        }
        if self.f.scoped && depth < 2 && self.r.pct(10) {
            let c = self.context(at, pool, imps, depth + 1);
            m.insert("@context".into(), c);
        }
        Value::Object(m)
    }
    fn wild_value(&mut self, depth: usize) -> Value {
        match self.r.below(6) {
            0 => self.value(depth),
            1 => self.many(depth),
            2 => json!(["x", "a", "http://ex.org/p", "5"][self.r.below(4)]),
            _ => {
                let keys = ["en", "k0", "http://n.org/n0", "http://ex.org/t", "@none"];
                let mut m = Map::new();
                for _ in 0..self.r.range(1, 3) {
                    let k = self.r.pick(&keys).to_string();
                    let v = match self.r.below(5) {
                        0 => json!({"@list": [self.item(depth)]}),
                        1 if depth < self.max_depth => json!({"@graph": [self.node(depth)]}),
                        2 => json!(["l0", "l1"][self.r.below(2)]),
                        _ => self.many(depth),
                    };
                    m.insert(k, v);
                }
                Value::Object(m)
            }
        }
    }

    // ------------------------------------------------------------------
    pub fn document(&mut self, at: Option<&str>) -> Value {
        let mut d = self.plain_document(at);
        if self.f.kalias && self.r.pct(60) {
            alias(self.r, &mut d);
        }
        d
    }
    fn plain_document(&mut self, at: Option<&str>) -> Value {
        let pool = self.urls.clone();
        let imps = self.imports.clone();
        let mut node = match self.r.below(10) {
            0 => {
                let n = self.r.range(0, 2);
                let mut a = vec![];
                for _ in 0..=n {
                    let mut x = self.node(0);
                    self.attach_ctx(&mut x, at, &pool, &imps);
                    a.push(x);
                }
                return Value::Array(a);
            }
            1 if self.f.graphs => {
                let n = self.r.range(1, 2);
                let items: Vec<Value> = (0..n).map(|_| self.node(1)).collect();
                let mut m = Map::new();
                m.insert("@graph".into(), Value::Array(items));
                if self.r.pct(40) {
                    m.insert("@id".into(), json!(self.node_id()));
                }
                Value::Object(m)
            }
            _ => self.node(0),
        };
        self.attach_ctx(&mut node, at, &pool, &imps);
        node
    }
    fn attach_ctx(&mut self, node: &mut Value, at: Option<&str>, pool: &[String], imps: &[String]) {
        if let Value::Object(m) = node {
            let c = match self.r.below(10) {
                0..=3 if !pool.is_empty() => json!(self.ctx_ref(at, pool)),
                4..=7 if !pool.is_empty() => {
                    let mut a = vec![json!(self.ctx_ref(at, pool))];
                    for _ in 0..self.r.range(0, 2) {
                        if self.r.pct(50) {
                            a.push(json!(self.ctx_ref(at, pool)));
                        } else {
                            a.push(self.ctx_object(at, pool, imps, 0, true));
                        }
                    }
                    if self.r.pct(30) {
                        a.rotate_left(1);
                    }
                    Value::Array(a)
                }
                _ => self.context(at, pool, imps, 0),
            };
            let old = std::mem::take(m);
            m.insert("@context".into(), c);
            m.extend(old.into_iter().filter(|(k, _)| k != "@context"));
        }
    }
    pub fn node_id(&mut self) -> String {
        match self.r.below(6) {
            0 if self.f.blank => format!("_:b{}", self.r.below(3)),
            1 if self.f.base => ["rel", "../rel2", "#frag", "", "?q=1"][self.r.below(5)].to_string(),
            2 if self.f.compact_iri => format!("ex:n{}", self.r.below(3)),
            _ => format!("http://n.org/n{}", self.r.below(4)),
        }
    }
    pub fn node(&mut self, depth: usize) -> Value {
        let mut m = Map::new();
        if depth > self.max_depth {
            m.insert("@id".into(), json!(self.node_id()));
            if self.r.pct(50) {
                m.insert("a".into(), json!("leaf"));
            }
            return Value::Object(m);
        }
        if self.r.pct(55) {
            let k = if self.f.alias && self.r.pct(40) { "kid" } else { "@id" };
            m.insert(k.into(), json!(self.node_id()));
        }
        if self.r.pct(45) {
            let k = if self.f.alias && self.r.pct(40) { "ktype" } else { "@type" };
            let tys = self.types();
            m.insert(k.into(), tys);
        }
        if self.f.junk && self.r.pct(15) {
            m.insert("undefined term".into(), json!("x"));
        }
        let n = self.r.range(0, 3) + (depth == 0) as usize;
        let pool = self.term_pool();
        for _ in 0..n {
            let t = *self.r.pick(&pool);
            if unalias(t) || m.contains_key(t) {
                continue;
            }
            let v = self.value_for(t, depth + 1);
            m.insert(t.into(), v);
        }
        if self.r.pct(10) {
            let i = self.iri();
            let v = self.value(depth + 1);
            m.insert(i, v);
        }
        if self.f.blank && self.r.pct(6) {
            let k = ["_:b0", "_:p0", "_:p1"][self.r.below(3)];
            let v = self.value(depth + 1);
            m.insert(k.into(), v);
        }
        if self.f.included && self.r.pct(12) && depth < self.max_depth {
            m.insert("@included".into(), json!([self.node(depth + 1)]));
        }
        if self.f.reverse && !m.contains_key("rev") && !m.contains_key("nst") && self.r.pct(10) && depth < self.max_depth {
            let mut e = Map::new();
            for _ in 0..self.r.range(1, 2) {
                if self.r.pct(50) {
                    let i = self.iri();
                    e.insert(i, self.node(depth + 1));
                } else {
                    // Terms with containers, scoped contexts, or which are reverse themselves.
                    let t = *self.r.pick(&pool);
                    if !["T", "U", "kid", "ktype", "nst"].contains(&t) {
                        let map = ["idm", "typm", "idx", "idxm", "gridx", "grid", "pidx", "langm"].contains(&t);
                        let v = if !map && self.r.pct(40) { self.node(depth + 1) } else { self.value_for(t, depth + 1) };
                        e.insert(t.into(), v);
                    }
                }
            }
            m.insert("@reverse".into(), Value::Object(e));
        }
        if self.f.graphs && self.r.pct(8) && depth < self.max_depth {
            m.insert("@graph".into(), json!([self.node(depth + 1)]));
        }
        if self.f.containers && self.r.pct(5) && depth > 0 {
            m.insert("@index".into(), json!("i0"));
        }
        if depth > 0 && self.r.pct(12) {
            let p = self.urls.clone();
            let i = self.imports.clone();
            let mut v = Value::Object(m);
            self.attach_ctx(&mut v, Some("http://docs.org/base/doc.jsonld"), &p, &i);
            return v;
        }
        Value::Object(m)
    }
    fn types(&mut self) -> Value {
        let one = |g: &mut Self| -> Value {
            match g.r.below(5) {
                0 => json!(g.iri()),
                1 if g.f.compact_iri => json!("ex:Type"),
                2 | 3 if g.f.type_scoped => json!(["T", "U"][g.r.below(2)]),
                _ => json!(["T", "http://ex.org/Type"][g.r.below(2)]),
            }
        };
        if self.r.pct(35) {
            let mut a = vec![one(self), one(self)];
            if a[0] == a[1] {
                a.pop();
            }
            Value::Array(a)
        } else {
            one(self)
        }
    }
    pub fn literal(&mut self) -> Value {
        match self.r.below(if self.f.nums { 7 } else { 4 }) {
            0 | 1 => json!(["foo", "bar", "x y", ""][self.r.below(4)]),
            2 => json!(self.r.below(3)),
            3 => json!(self.r.pct(50)),
            4 => json!([1.5, 2.25, 1e21, 100.0][self.r.below(4)]),
            5 => json!("http://n.org/n1"),
            _ => json!(-5),
        }
    }
    fn value_object(&mut self) -> Value {
        match self.r.below(5) {
            0 if self.f.lang => { let l = ["en", "EN-us", "fr"][self.r.below(3)]; json!({"@value": "v", "@language": l}) },
            1 if self.f.direction => json!({"@value": "v", "@direction": "rtl", "@language": "ar"}),
            2 => json!({"@value": self.literal(), "@type": "http://ex.org/dt"}),
            3 if self.f.json_lit => json!({"@value": {"k": [1, null, {"z": "y"}], "a": 1}, "@type": "@json"}),
            _ => {
                let mut m = Map::new();
                m.insert("@value".into(), self.literal());
                if self.f.containers && self.r.pct(30) {
                    m.insert("@index".into(), json!("i1"));
                }
                Value::Object(m)
            }
        }
    }
    pub fn value(&mut self, depth: usize) -> Value {
        let k = self.r.below(10);
        match k {
            0..=2 => self.literal(),
            3 => self.value_object(),
            4 if self.r.pct(50) => Value::Null,
            5 if depth < self.max_depth => {
                let n = self.r.range(0, 2);
                Value::Array((0..n).map(|_| self.value(depth + 1)).collect())
            }
            6 if self.f.lists && depth < self.max_depth => {
                let n = self.r.range(0, 3);
                let mut items: Vec<Value> = (0..n).map(|_| self.item(depth + 1)).collect();
                if self.r.pct(15) {
                    items.push(json!({"@list": [self.literal()]}));
                }
                json!({ "@list": items })
            }
            7 if self.f.containers => json!({"@set": [self.item(depth + 1)]}),
            _ if depth < self.max_depth => self.node(depth),
            _ => self.literal(),
        }
    }
    fn item(&mut self, depth: usize) -> Value {
        match self.r.below(4) {
            0 if depth < self.max_depth => self.node(depth),
            1 => self.value_object(),
            _ => self.literal(),
        }
    }
    fn many(&mut self, depth: usize) -> Value {
        if self.r.pct(40) {
            let n = self.r.range(0, 3);
            Value::Array((0..n).map(|_| self.item(depth)).collect())
        } else {
            self.item(depth)
        }
    }
    pub fn value_for(&mut self, t: &str, depth: usize) -> Value {
        if depth > self.max_depth + 1 {
            return self.literal();
        }
        match t {
            "ref" => match self.r.below(3) {
                0 if depth < self.max_depth => self.node(depth),
                _ => json!(self.node_id()),
            },
            "voc" => json!(["a", "b", "ex:p", "http://ex.org/vv", "T"][self.r.below(5)]),
            "idxm" | "gridx" | "pidx" => {
                if t == "gridx" || t == "pidx" {
                    let mut m = Map::new();
                    for k in ["k1", "k0", "@none"].iter().take(self.r.range(1, 3)) {
                        m.insert(k.to_string(), self.node(depth));
                    }
                    return Value::Object(m);
                }
                let mut m = Map::new();
                for k in ["k1", "k0", "@none"].iter().take(self.r.range(1, 3)) {
                    let v = self.many(depth);
                    m.insert(k.to_string(), v);
                }
                Value::Object(m)
            }
            "langm" => {
                let mut m = Map::new();
                for k in ["fr", "EN", "@none"].iter().take(self.r.range(1, 3)) {
                    let v = if self.r.pct(30) { json!(["l1", "l2"]) } else { json!("l0") };
                    m.insert(k.to_string(), v);
                }
                Value::Object(m)
            }
            "lst" => {
                let n = self.r.range(0, 3);
                let mut a: Vec<Value> = (0..n).map(|_| self.item(depth)).collect();
                if self.r.pct(15) {
                    a.push(json!([self.literal()]));
                }
                Value::Array(a)
            }
            "gr" => {
                if self.r.pct(30) {
                    json!([self.node(depth), self.node(depth)])
                } else {
                    self.node(depth)
                }
            }
            "grid" | "idm" => {
                let mut m = Map::new();
                for k in ["http://n.org/n0", "http://n.org/n7", "@none"].iter().take(self.r.range(1, 3)) {
                    let mut n = self.node(depth);
                    if let Value::Object(o) = &mut n {
                        o.shift_remove("@id");
                        o.shift_remove("kid");
                    }
                    m.insert(k.to_string(), n);
                }
                Value::Object(m)
            }
            "typm" => {
                let mut m = Map::new();
                for k in ["http://ex.org/Type", "T", "@none"].iter().take(self.r.range(1, 3)) {
                    let n = self.node(depth);
                    m.insert(k.to_string(), n);
                }
                Value::Object(m)
            }
            "js" => json!({"k": [1, true, null], "@id": "x", "a": {"b": "c"}}),
            "nst" => {
                let mut m = Map::new();
                for t in ["a", "ref", "b"].iter().take(self.r.range(1, 3)) {
                    let v = self.value_for(t, depth + 1);
                    m.insert(t.to_string(), v);
                }
                Value::Object(m)
            }
            "rev" => {
                if self.r.pct(50) {
                    json!({"@id": self.node_id()})
                } else {
                    self.node(depth.min(self.max_depth))
                }
            }
            t if WILD.contains(&t) => self.wild_value(depth),
            _ => self.value(depth),
        }
    }
}

/// A reference which, resolved against `at`, gives `to` (same host only).
pub fn relative(at: &str, to: &str) -> String {
    let split = |u: &str| -> Option<(String, String)> {
        let rest = u.strip_prefix("http://")?;
        let i = rest.find('/')?;
        Some((rest[..i].to_string(), rest[i..].to_string()))
    };
    let (Some((h1, p1)), Some((h2, p2))) = (split(at), split(to)) else { return to.to_string() };
    if h1 != h2 {
        return format!("//{h2}{p2}");
    }
    let dir = &p1[..p1.rfind('/').unwrap() + 1];
    if let Some(r) = p2.strip_prefix(dir) {
        if !r.is_empty() && !r.contains(':') {
            return r.to_string();
        }
    }
    // climb one level when possible
    let up = &dir[..dir.len() - 1];
    if let Some(i) = up.rfind('/') {
        let parent = &up[..i + 1];
        if let Some(r) = p2.strip_prefix(parent) {
            if !r.is_empty() {
                return format!("../{r}");
            }
        }
    }
    p2
}

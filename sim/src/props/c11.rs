//! C11, C12: the file loader over a simulated disk.
use super::c09::{doc_value, parse, Parsed};
use super::common::*;
use super::{Prop, Verdict};
use crate::canon;
use crate::exec::{self, Outcome, Sched, Sim};
use crate::model::{Env, MDoc};
use crate::ops::{self, Kind, Op, Res};
use crate::rng::Rng;
use crate::seam::{self, Disk, DiskFault};
use iref::{Iri, IriBuf};
use json_ld::{FsLoader, Loader, LoadingResult};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub fn props() -> Vec<&'static dyn Prop> {
    vec![&C11, &C12]
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Change {
    Put(String),
    Remove,
    Fault(DiskFault),
    Heal,
}
/// Something happening to the disk at a simulated time.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Event {
    pub at: u64,
    pub path: String,
    pub change: Change,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FAct {
    Load(String),
    Run(Op),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FClient {
    pub steps: Vec<FAct>,
    #[serde(default)]
    pub start_at: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct FCase {
    pub mounts: Vec<(String, String)>,
    pub files: BTreeMap<String, String>,
    #[serde(default)]
    pub faults: Vec<(String, DiskFault)>,
    #[serde(default)]
    pub events: Vec<Event>,
    pub clients: Vec<FClient>,
    #[serde(default)]
    pub sched: Sched,
    #[serde(default)]
    pub latency: u64,
    #[serde(default)]
    pub spurious: u16,
    #[serde(default)]
    pub hash: u64,
}

// -------------------------------------------------------------------- model

/// Scheme, authority, path (without dot segments) of a URL.
fn split(u: &str) -> (String, Option<String>, bool, Vec<String>) {
    let (scheme, rest) = u.split_once(':').unwrap_or(("", u));
    let rest = rest.split(['?', '#']).next().unwrap();
    let (auth, path) = match rest.strip_prefix("//") {
        None => (None, rest),
        Some(r) => {
            let i = r.find('/').unwrap_or(r.len());
            (Some(r[..i].to_string()), &r[i..])
        }
    };
    let abs = path.starts_with('/');
    let p = path.strip_prefix('/').unwrap_or(path);
    let mut out: Vec<String> = vec![];
    if !p.is_empty() {
        for s in p.split('/') {
            match s {
                "." => {}
                ".." if abs || out.last().is_some_and(|l| l != "..") => {
                    out.pop();
                }
                s => out.push(s.into()),
            }
        }
    }
    (scheme.into(), auth, abs, out)
}
fn pct(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        match (b[i], s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())) {
            (b'%', Some(x)) => {
                o.push(x);
                i += 3
            }
            (x, _) => {
                o.push(x);
                i += 1
            }
        }
    }
    o
}
/// The mounted directory and the path of the file a URL stands for.
fn map(mounts: &[(String, String)], url: &str) -> Option<(String, String)> {
    let (s, a, abs, segs) = split(url);
    for (m, dir) in mounts {
        let (ms, ma, mut mabs, mut msegs) = split(m);
        if ma.is_some() && !mabs && msegs.is_empty() {
            mabs = true;
        }
        if msegs.last().is_some_and(|l| l.is_empty()) {
            msegs.pop();
        }
        if ms != s || ma != a || mabs != abs || segs.len() < msegs.len() {
            continue;
        }
        if msegs.iter().zip(&segs).any(|(x, y)| pct(x) != pct(y)) {
            continue;
        }
        let rest = &segs[msegs.len()..];
        if rest.iter().any(|s| s == "..") {
            return None;
        }
        let mut p = dir.clone();
        for r in rest {
            p.push('/');
            p.push_str(r);
        }
        return Some((dir.clone(), p));
    }
    None
}
enum Exp {
    Doc(Value),
    Err(&'static str),
    Any,
}
/// What reading that file gives, on the disk as it is.
fn read(d: &Disk, path: &str) -> Exp {
    let norm = seam::normalize(path);
    let Some(data) = d.files.get(&norm) else { return Exp::Err("missing file") };
    if path.ends_with('/') {
        return Exp::Err("not a directory");
    }
    let mut data = data.clone();
    let faults = d.faults.get(&norm).cloned().unwrap_or_default();
    for f in &faults {
        match f {
            DiskFault::Open(_) => return Exp::Err("open error"),
            DiskFault::Torn(n) => data.truncate(*n),
            DiskFault::Flip(o, m) if *o < data.len() => data[*o] ^= m,
            _ => {}
        }
    }
    // The last read error prevails in the simulated disk.
    if let Some(DiskFault::ReadErr(_, n)) = faults.iter().rev().find(|f| matches!(f, DiskFault::ReadErr(..))) {
        if *n <= data.len() {
            return Exp::Err("read error");
        }
    }
    match parse(&data) {
        Parsed::Doc(v) => Exp::Doc(v),
        Parsed::Bad => Exp::Err("not JSON"),
        Parsed::Unknown => Exp::Any,
    }
}

// ---------------------------------------------------------------------- run

pub struct LoadOut {
    client: usize,
    step: usize,
    url: String,
    expected: Exp,
    /// Ok(url, type, document) or Err(target).
    got: Result<(Option<String>, Option<String>, Value), String>,
    opened: Vec<String>,
    leaked: usize,
}
/// The real file loader, reached after some delay.
struct Host<'a> {
    sim: Sim,
    fs: FsLoader,
    mounts: &'a [(String, String)],
    out: &'a RefCell<Vec<LoadOut>>,
    step: &'a RefCell<BTreeMap<usize, usize>>,
}
impl Loader for Host<'_> {
    async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
        let client = self.sim.current();
        self.sim.log(format!("client {client} load {url}"));
        self.sim.io().await;
        let (expected, opened) = seam::with_disk(|d| {
            let e = match map(self.mounts, url.as_str()) {
                None => Exp::Err("no mount point"),
                Some((_, p)) => read(d, &p),
            };
            (e, d.opened.len())
        });
        let r = self.fs.load(url).await;
        let (opened, leaked) = seam::with_disk(|d| {
            for l in d.log.drain(..) {
                self.sim.log(l);
            }
            (d.opened[opened..].to_vec(), seam::disk_open_fds(d))
        });
        self.out.borrow_mut().push(LoadOut {
            client,
            step: self.step.borrow().get(&client).copied().unwrap_or(0),
            url: url.as_str().to_string(),
            expected,
            got: match &r {
                Ok(d) => Ok((d.url().map(|u| u.to_string()), d.content_type().map(|t| t.to_string()), doc_value(d)["doc"].clone())),
                Err(e) => Err(e.target.to_string()),
            },
            opened,
            leaked,
        });
        self.sim.log(format!("client {client} {}", if r.is_ok() { "loaded" } else { "failed" }));
        self.sim.io().await;
        r
    }
}
pub struct FOut {
    outcomes: Vec<Outcome>,
    loads: Vec<LoadOut>,
    res: Vec<Vec<Option<Res>>>,
    paths: Vec<(String, Option<String>)>,
    log: Vec<String>,
    stats: exec::Stats,
}
fn run(case: &FCase) -> FOut {
    crate::case::on_thread(case.hash, || run_here(case))
}
fn apply(d: &mut Disk, path: &str, c: &Change) {
    match c {
        Change::Put(s) => {
            d.files.insert(path.into(), s.clone().into_bytes());
        }
        Change::Remove => {
            d.files.remove(path);
        }
        Change::Fault(f) => d.faults.entry(path.into()).or_default().push(f.clone()),
        Change::Heal => {
            d.faults.remove(path);
        }
    }
}
fn run_here(case: &FCase) -> FOut {
    let sim = Sim::new(&case.sched, case.latency);
    let mut disk = Disk::default();
    for (p, s) in &case.files {
        apply(&mut disk, p, &Change::Put(s.clone()));
    }
    for (p, f) in &case.faults {
        apply(&mut disk, p, &Change::Fault(f.clone()));
    }
    seam::disk_install(disk);
    let mut fs = FsLoader::new();
    for (u, d) in &case.mounts {
        fs.mount(IriBuf::new(u.clone()).expect("mount URL"), d);
    }
    let mut paths = vec![];
    for c in &case.clients {
        for s in &c.steps {
            if let FAct::Load(u) = s {
                paths.push((u.clone(), fs.filepath(Iri::new(u).expect("URL")).map(|p| p.to_string_lossy().into_owned())));
            }
        }
    }
    let out = RefCell::new(vec![]);
    let step = RefCell::new(BTreeMap::new());
    let host = Host { sim: sim.clone(), fs, mounts: &case.mounts, out: &out, step: &step };
    let res: RefCell<Vec<Vec<Option<Res>>>> = RefCell::new(case.clients.iter().map(|c| vec![None; c.steps.len()]).collect());
    let mut tasks: Vec<exec::Task> = vec![];
    for (i, c) in case.clients.iter().enumerate() {
        let (host, step, res, sim) = (&host, &step, &res, sim.clone());
        tasks.push(exec::Task {
            start_at: c.start_at,
            cancel_at: None,
            fut: Box::pin(async move {
                let mut gen = ops::Gen::new("g");
                for (k, s) in c.steps.iter().enumerate() {
                    step.borrow_mut().insert(i, k);
                    sim.log(format!("client {i} step {k}"));
                    match s {
                        FAct::Load(u) => {
                            let _ = host.load(Iri::new(u).unwrap()).await;
                        }
                        FAct::Run(op) => {
                            let r = ops::run(rdf_types::vocabulary::no_vocabulary_mut(), &mut gen, host, op).await;
                            res.borrow_mut()[i][k] = Some(r);
                        }
                    }
                }
            }),
        });
    }
    for e in &case.events {
        let sim2 = sim.clone();
        tasks.push(exec::Task {
            start_at: e.at,
            cancel_at: None,
            fut: Box::pin(async move {
                sim2.log(format!("disk: {} {:?}", e.path, e.change));
                seam::with_disk(|d| apply(d, &e.path, &e.change));
            }),
        });
    }
    let mut outcomes = exec::run(&sim, tasks, case.spurious);
    outcomes.truncate(case.clients.len());
    drop(host);
    let d = seam::disk_take().unwrap();
    let (log, mut stats) = {
        let i = sim.0.borrow();
        (i.log.clone(), i.stats.clone())
    };
    for (k, v) in d.fired {
        *stats.fired.entry(k).or_default() += v;
    }
    FOut { outcomes, loads: out.into_inner(), res: res.into_inner(), paths, log, stats }
}

// -------------------------------------------------------------------- judge

fn judge(case: &FCase, o: &FOut, vd: &mut Verdict) -> Option<String> {
    for (u, p) in &o.paths {
        let want = map(&case.mounts, u).map(|(_, p)| seam::normalize(&p));
        if p.as_ref().map(|p| seam::normalize(p)) != want {
            return Some(format!("wrong path: {u} is mapped to {p:?} instead of {want:?}"));
        }
    }
    for l in &o.loads {
        let m = map(&case.mounts, &l.url);
        match &m {
            None if !l.opened.is_empty() => return Some(format!("disk touched: {} is under no mount point but {:?} was opened", l.url, l.opened)),
            None => vd.agg.probe("not under a mount point"),
            Some((dir, _)) => {
                for p in &l.opened {
                    let n = seam::normalize(p);
                    if n != *dir && !n.starts_with(&format!("{dir}/")) {
                        return Some(format!("escape: {} opened {p}, out of {dir}", l.url));
                    }
                }
            }
        }
        if l.leaked > 0 {
            return Some(format!("descriptor leak: {} file(s) left open by loading {}", l.leaked, l.url));
        }
        match (&l.expected, &l.got) {
            (Exp::Any, _) => vd.agg.probe("undecided content"),
            (Exp::Err(e), Err(t)) => {
                vd.agg.probe(&format!("error: {e}"));
                if *t != l.url {
                    return Some(format!("wrong error target: {t} instead of {}", l.url));
                }
            }
            (Exp::Doc(v), Ok((u, t, d))) => {
                if d != v {
                    return Some(format!("wrong content: {} gave {} instead of {}", l.url, cut(&d.to_string()), cut(&v.to_string())));
                }
                if u.as_deref() != Some(&l.url) {
                    return Some(format!("wrong document URL: {u:?} instead of {}", l.url));
                }
                if t.as_deref() != Some("application/ld+json") {
                    return Some(format!("wrong content type: {t:?}"));
                }
                vd.agg.probe("document");
            }
            (Exp::Doc(v), Err(_)) => return Some(format!("refused document: {} failed instead of giving {}", l.url, cut(&v.to_string()))),
            (Exp::Err(e), Ok((_, _, d))) => return Some(format!("accepted document: {} gave {} instead of an error ({e})", l.url, cut(&d.to_string()))),
        }
    }
    for (i, c) in case.clients.iter().enumerate() {
        match &o.outcomes[i] {
            Outcome::Panicked(m) => return Some(format!("panic: {}", cut(m))),
            Outcome::Stuck => return Some("stuck: a load never completes".into()),
            _ => {}
        }
        for (k, s) in c.steps.iter().enumerate() {
            let (FAct::Run(op), Some(r)) = (s, &o.res[i][k]) else { continue };
            let loads: Vec<&LoadOut> = o.loads.iter().filter(|l| l.client == i && l.step == k).collect();
            let seen = |l: &LoadOut| l.got.as_ref().ok().map(|g| g.2.clone());
            if loads.iter().any(|a| loads.iter().any(|b| a.url == b.url && seen(a) != seen(b))) {
                vd.agg.probe("disk changed in the middle of an expansion");
                continue;
            }
            // The model of expansion is only meant for well-formed contexts.
            let damaged = |l: &&LoadOut| {
                let Some((_, p)) = map(&case.mounts, &l.url) else { return false };
                let p = seam::normalize(&p);
                seen(l).is_some_and(|v| case.files.get(&p).and_then(|s| crate::net::parse(s).ok()) != Some(v))
            };
            if loads.iter().any(damaged) {
                vd.agg.probe("expansion over damaged files");
                continue;
            }
            let f = |u: &str| {
                let l = loads.iter().find(|l| l.url == u)?;
                let d = l.got.as_ref().ok()?;
                Some(MDoc { url: u.to_string(), doc: d.2.clone(), context_url: None })
            };
            let env = Env::new(&f, false);
            let (m, _) = model_expand(&env, op);
            if env.fuel.get() == 0 {
                continue;
            }
            match (r, m) {
                (Res::Ok(v), Ok(x)) => {
                    if canon::expanded(v) != canon::expanded(&x) {
                        return Some(format!("wrong expansion: {} instead of {}", cut(&v.to_string()), cut(&x.to_string())));
                    }
                    vd.agg.probe("expansion over files");
                }
                (Res::Err { .. }, Err(_)) => vd.agg.probe("failed expansion over files"),
                (r, m) => return Some(format!("wrong expansion: {} instead of {m:?}", brief(r))),
            }
        }
    }
    None
}
fn check(v: &Value) -> Result<Verdict, String> {
    let case: FCase = from_value(v)?;
    let ok = |u: &str| Iri::new(u).is_ok();
    let under = |p: &str| p.starts_with("/simdisk/") && seam::normalize(p) == p;
    if case.mounts.iter().any(|(u, d)| !ok(u) || !under(d))
        || case.files.keys().any(|p| !under(p))
        || case.events.iter().any(|e| !under(&e.path))
        || case.clients.iter().flat_map(|c| &c.steps).any(|s| matches!(s, FAct::Load(u) if !ok(u)))
    {
        return Err("not a valid case".into());
    }
    // Generated trees have no file in place of a directory.
    let mut vd = Verdict::default();
    let o = run(&case);
    vd.agg.stats(&o.stats);
    vd.agg.requests += o.loads.len() as u64;
    if let Some(m) = judge(&case, &o, &mut vd) {
        return Ok(vd.fail(m, &o.log));
    }
    Ok(vd)
}

// ---------------------------------------------------------------- generator

fn content(r: &mut Rng, tag: usize) -> String {
    let v = match r.below(6) {
        0 => json!({"@context": {"@vocab": "http://ns.org/v#"}, "n": tag}),
        1 => json!([tag, "x", null, 1.5, true]),
        2 => json!({"k": "été \u{1F600} ".repeat(1 + r.below(40)), "n": tag}),
        // longer than the buffers
        3 => json!({"pad": "0123456789abcdef".repeat(r.range(200, 3000)), "n": tag}),
        4 => json!(format!("v{tag}")),
        _ => json!({"a": {"b": [{"c": tag}]}}),
    };
    match r.below(4) {
        0 => serde_json::to_string_pretty(&v).unwrap(),
        1 => format!("\n  {v} \n"),
        _ => v.to_string(),
    }
}
fn fault_of(r: &mut Rng, len: usize) -> DiskFault {
    let at = |r: &mut Rng| match r.below(4) {
        0 => r.below(8),
        1 => len.saturating_sub(r.below(4)),
        2 => 8192 * r.below(3),
        _ => r.below(len + 2),
    };
    match r.below(12) {
        0 => DiskFault::Open(*r.pick(&[libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ELOOP, libc::ENOMEM])),
        1 | 2 => DiskFault::ReadErr(*r.pick(&[libc::EIO, libc::ENOMEM, libc::EISDIR, libc::EAGAIN]), at(r)),
        3 | 4 => DiskFault::Torn(at(r)),
        5 | 6 => DiskFault::Short([1, 2, 3, 7, 100, 4095][r.below(6)]),
        7 => DiskFault::Eintr(r.range(1, 20)),
        8 => DiskFault::OpenEintr(r.range(1, 5)),
        _ => DiskFault::Flip(at(r), 1 << r.below(8)),
    }
}
fn schedule_f(r: &mut Rng, c: &mut FCase) {
    let n = [40, 150, 400][r.below(3)];
    c.sched = Sched::random(r, n);
    c.latency = [0, 1, 3, 12, 60][r.below(5)];
    c.spurious = [0, 0, 15, 50][r.below(4)];
    c.hash = r.next() & 0xffff;
}
fn gen_world(r: &mut Rng) -> FCase {
    let mut c = FCase::default();
    let n = r.range(1, 2);
    let s = scenario(r, n, &|f| {
        f.redirect = false;
        f.link_ctx = false;
    });
    for (i, h) in ["http://docs.org/", "http://c0.org", "http://c1.org/", "http://moved.org"].iter().enumerate() {
        c.mounts.push((h.to_string(), format!("/simdisk/w{i}")));
    }
    r.shuffle(&mut c.mounts);
    for (u, p) in &s.world {
        if let Some((_, path)) = map(&c.mounts, u) {
            c.files.insert(path, if r.pct(50) { p.doc.to_string() } else { serde_json::to_string_pretty(&p.doc).unwrap() });
        }
    }
    for _ in 0..r.range(1, 2) {
        let mut steps = vec![];
        for _ in 0..r.range(1, 3) {
            if r.pct(80) {
                let mut o = op(r, &s, b"e");
                o.kind = Kind::Expand;
                o.input = ops::Input::Iri(r.pick(&s.docs).clone());
                steps.push(FAct::Run(o));
            } else {
                steps.push(FAct::Load(r.pick(&s.ctxs).clone()));
            }
        }
        c.clients.push(FClient { steps, start_at: r.below(20) as u64 });
    }
    c
}
fn gen11(r: &mut Rng) -> FCase {
    let mut c;
    if r.pct(25) {
        c = gen_world(r);
    } else {
        c = FCase::default();
        c.mounts.push(("http://h0.org/".into(), "/simdisk/m0".into()));
        if r.pct(50) {
            c.mounts.push(("http://h1.org/lib".into(), "/simdisk/m1".into()));
        }
        let mut urls = vec![];
        for (u, d) in c.mounts.clone() {
            let u = u.trim_end_matches('/').to_string();
            for i in 0..r.range(1, 3) {
                let p = ["f", "dir/f", "dir/deep/f"][r.below(3)];
                let n = c.files.len();
                let t = content(r, n);
                c.files.insert(format!("{d}/{p}{i}.jsonld"), t);
                urls.push(format!("{u}/{p}{i}.jsonld"));
            }
            urls.push(format!("{u}/missing"));
            urls.push(format!("{u}/dir"));
        }
        urls.push("http://elsewhere.org/f0.jsonld".into());
        for _ in 0..r.range(1, 3) {
            let steps = (0..r.range(1, 5)).map(|_| FAct::Load(r.pick(&urls).clone())).collect();
            c.clients.push(FClient { steps, start_at: r.below(30) as u64 });
        }
    }
    schedule_f(r, &mut c);
    let paths: Vec<String> = c.files.keys().cloned().collect();
    if paths.is_empty() {
        return c;
    }
    for _ in 0..r.below(3) {
        let p = r.pick(&paths).clone();
        let l = c.files[&p].len();
        let f = fault_of(r, l);
        c.faults.push((p, f));
    }
    let horizon = 20 + c.latency * 6;
    for _ in 0..r.below(5) {
        let p = r.pick(&paths).clone();
        let l = c.files[&p].len();
        let change = match r.below(6) {
            0 => Change::Remove,
            1 => Change::Fault(fault_of(r, l)),
            2 => {
                // a torn write: a prefix of the new content
                let t = content(r, 77);
                let mut n = r.below(t.len() + 1);
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                Change::Put(t[..n].to_string())
            }
            3 => Change::Heal,
            _ => Change::Put(content(r, 99)),
        };
        c.events.push(Event { at: r.below(horizon as usize) as u64, path: p, change });
    }
    // once the disk is repaired, everything can be loaded again
    if c.clients.iter().all(|k| k.steps.iter().all(|s| matches!(s, FAct::Load(_)))) {
        for p in &paths {
            c.events.push(Event { at: 1_000_000, path: p.clone(), change: Change::Heal });
        }
        let steps = c.clients[0].steps.clone();
        c.clients.push(FClient { steps, start_at: 1_000_001 });
    }
    c
}
const MOUNTS: &[&str] = &[
    "http://h0.org", "http://h0.org/", "http://h0.org/a", "http://h0.org/a/", "http://h0.org/a/b", "http://h0.org/a/b/", "http://h0.org/ab",
    "http://h0.org/%61", "http://h1.org:8080/", "http://h1.org/a", "https://h0.org/a", "http://h0.org/a/c.jsonld", "urn:x", "tag:", "file:///d", "file:/e",
    "http://h0.org/a/../b", "http://h0.org/?q=a", "http://h0.org/a#f",
];
const SEGS: &[&str] = &["a", "b", "ab", "c.jsonld", "d", "%61", "%2e%2e", "%2E%2e", "..", "..", ".", "", "sub", "x:y", "%2F", "é", "%C3%A9", "secret.json", "m1", "..."];
fn gen12(r: &mut Rng) -> FCase {
    let mut c = FCase::default();
    let dirs = ["/simdisk/m0", "/simdisk/m1", "/simdisk/m0/sub", "/simdisk/m1/a", "/simdisk/m", "/simdisk/m0/c.jsonld"];
    for _ in 0..r.range(1, 4) {
        c.mounts.push((r.pick(MOUNTS).to_string(), r.pick(&dirs).to_string()));
    }
    let mut steps = vec![];
    for _ in 0..r.range(2, 8) {
        let base = if r.pct(75) { r.pick(&c.mounts).0.clone() } else { r.pick(MOUNTS).to_string() };
        let base = base.split(['?', '#']).next().unwrap().to_string();
        let mut u = base;
        let n = r.below(5);
        for i in 0..n {
            let s = r.pick(SEGS);
            if i > 0 || !(u.ends_with('/') || u.ends_with(':')) || r.pct(5) {
                u.push('/');
            }
            u.push_str(s);
        }
        if r.pct(15) {
            u.push_str(["?x=1", "#frag", "?../../secret.json", "#/../m1"][r.below(4)]);
        }
        if Iri::new(u.as_str()).is_ok() {
            steps.push(u);
        }
    }
    if steps.is_empty() {
        steps.push("http://h0.org/a/b".into());
    }
    // Files where the URLs lead, for that mount or another one, and decoys.
    let mut put = |p: String| {
        let p = seam::normalize(&p);
        if p.starts_with("/simdisk/") {
            let parent = |a: &str, b: &str| b.starts_with(&format!("{a}/"));
            if !c.files.keys().any(|f| parent(f, &p) || parent(&p, f)) {
                c.files.insert(p.clone(), json!({ "at": p }).to_string());
            }
        }
    };
    for u in &steps {
        if r.pct(80) {
            if let Some((_, p)) = map(&c.mounts, u) {
                put(p);
            }
        }
        if r.pct(40) {
            for i in 0..c.mounts.len() {
                if let Some((_, p)) = map(&c.mounts[i..=i], u) {
                    put(p);
                }
            }
        }
        if r.pct(30) {
            let s = split(u).3.join("/");
            put(format!("{}/{s}", r.pick(&dirs)));
        }
    }
    put("/simdisk/secret.json".into());
    put("/simdisk/m1/secret.json".into());
    let k = r.range(1, 2);
    for i in 0..k {
        let s = steps.iter().skip(i).step_by(k).map(|u| FAct::Load(u.clone())).collect();
        c.clients.push(FClient { steps: s, start_at: 0 });
    }
    if r.pct(10) {
        let w = gen_world(r);
        c.files.extend(w.files);
        c.mounts.extend(w.mounts);
        c.clients.extend(w.clients);
    }
    schedule_f(r, &mut c);
    c
}

const REAL: &[&str] =
    &["json-ld-core file loader (FsLoader)", "libstd file reading and buffering", "json-syntax parser", "json-ld processor (expansions over files)"];
const STUBS: &[&str] = &["kernel file system calls (open, read, close, statx, lseek, realpath)", "executor and clock (simulated)", "hash map keys (seeded)"];

struct C11;
impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        to_value(&gen11(r))
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let mut vd = check(v)?;
        vd.nontrivial = vd.agg.probes.contains_key("document") || !vd.agg.fired.is_empty();
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "at least one document was loaded or one disk fault happened"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the disk changes between the reads of different loads, not between the reads of one load (libstd blocks in it)",
          "damaged contents on which JSON parsers legitimately differ (lone surrogates, huge numbers, control characters) are not judged"]
    }
}
struct C12;
impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn gen(&self, r: &mut Rng) -> Value {
        to_value(&gen12(r))
    }
    fn run(&self, v: &Value) -> Result<Verdict, String> {
        let mut vd = check(v)?;
        vd.nontrivial = vd.agg.probes.contains_key("document");
        Ok(vd)
    }
    fn rule(&self) -> &'static str {
        "at least one document was loaded"
    }
    fn real(&self) -> &'static [&'static str] {
        REAL
    }
    fn stubs(&self) -> &'static [&'static str] {
        STUBS
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["the simulated disk has no symbolic link", "file names are the URL segments as they are written (percent-encoding kept)"]
    }
}

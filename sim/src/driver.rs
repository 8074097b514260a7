//! Seeded search: parent process, worker processes, minimisation, replay files,
//! evidence.
use crate::case::Agg;
use crate::props::{self, Prop, Verdict};
use crate::rng::Rng;
use crate::shrink;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// CPU seconds a single case may use before it counts as a hang.
const HANG_CPU_S: u64 = 40;
static CASE_START_CPU: AtomicU64 = AtomicU64::new(u64::MAX);

fn cpu_ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}
fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = CASE_START_CPU.load(Ordering::SeqCst);
        if s != u64::MAX && cpu_ms().saturating_sub(s) > HANG_CPU_S * 1000 {
            println!("H");
            let _ = std::io::stdout().flush();
            unsafe { libc::_exit(3) };
        }
    });
}
pub fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &c) };
}

fn case_seed(base: u64, id: &str, i: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(base.wrapping_mul(0x9E3779B97F4A7C15) ^ h ^ i.wrapping_mul(0xD1B54A32D192ED03));
    r.next()
}

/// Runs a case, turning panics of the harness itself into harness errors.
pub fn run_case(p: &dyn Prop, case: &Value) -> Result<Verdict, String> {
    CASE_START_CPU.store(cpu_ms(), Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.run(case)));
    CASE_START_CPU.store(u64::MAX, Ordering::SeqCst);
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("harness panic: {}", crate::exec::panic_message(e))),
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub class: String,
    pub contains: String,
    pub text: String,
}
pub fn known() -> Vec<Known> {
    let s = std::fs::read_to_string("KNOWN_FINDINGS.json").unwrap_or("{}".into());
    let v: Value = crate::net::parse(&s).expect("KNOWN_FINDINGS.json");
    let g = |x: &Value, k: &str| x[k].as_str().unwrap_or("").to_string();
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|x| Known {
                    property: g(x, "property"),
                    class: g(x, "class"),
                    contains: g(x, "contains"),
                    text: g(x, "text"),
                })
                .collect()
        })
        .unwrap_or_default()
}
pub fn class(d: &str) -> String {
    d.split(':').next().unwrap_or(d).to_string()
}

/// One worker: cases `w, w+n, w+2n, …` until the deadline or the count.
pub fn worker(id: &str, base: u64, w: u64, n: u64, secs: u64, count: u64) {
    watchdog();
    limit_memory();
    let p = props::get(id).expect("property");
    let known = known();
    let start = Instant::now();
    let mut agg = Agg::default();
    let (mut evals, mut nontrivial) = (0u64, HashSet::new());
    let mut sigs = HashSet::new();
    let mut samples = vec![];
    let mut kf: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = w;
    let stdout = std::io::stdout();
    while i < count && start.elapsed() < Duration::from_secs(secs) {
        let seed = case_seed(base, id, i);
        {
            let mut o = stdout.lock();
            let _ = writeln!(o, "B {i}");
            let _ = o.flush();
        }
        CASE_START_CPU.store(cpu_ms(), Ordering::SeqCst);
        let case = p.gen(&mut Rng::new(seed));
        match run_case(p, &case) {
            Err(e) => {
                println!("X case {i} (seed {seed}): {e}");
                println!("Y {case}");
                return;
            }
            Ok(v) => {
                evals += 1;
                agg.merge(&v.agg);
                for s in &v.agg.sigs {
                    sigs.insert(*s);
                }
                if v.nontrivial {
                    let mut c = case.clone();
                    if let Value::Object(m) = &mut c {
                        m.remove("hash");
                    }
                    if nontrivial.insert(fnv(&c.to_string())) && samples.len() < 2 {
                        samples.push(json!({"seed": seed, "case": case}));
                    }
                }
                if let Some(d) = v.violation {
                    if let Some(k) = known.iter().find(|k| k.property == id && k.class == class(&d) && d.contains(&k.contains)) {
                        *kf.entry(k.text.clone()).or_default() += 1;
                    } else {
                        println!("V {}", json!({"i": i, "seed": seed, "detail": d, "case": case}));
                        return;
                    }
                }
            }
        }
        i += n;
    }
    let nt: Vec<u64> = nontrivial.into_iter().collect();
    let sg: Vec<u64> = sigs.into_iter().collect();
    println!(
        "E {}",
        json!({"evals": evals, "agg": agg, "nontrivial": nt, "sigs": sg, "samples": samples, "known": kf, "next": i})
    );
}

fn spawn(args: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    c
}

/// Runs a case file in a child process: Ok(detail) or a crash description.
fn run_isolated(id: &str, case: &Value, dir: &str) -> Result<Option<String>, String> {
    let f = format!("{dir}/.iso-{}-{}.json", id, std::process::id());
    std::fs::write(&f, json!({"property": id, "case": case}).to_string()).map_err(|e| e.to_string())?;
    let out = spawn(&["runcase".into(), f.clone()]).output();
    let _ = std::fs::remove_file(&f);
    let out = out.map_err(|e| e.to_string())?;
    let s = String::from_utf8_lossy(&out.stdout).to_string();
    match out.status.code() {
        Some(0) => Ok(None),
        Some(1) => Ok(s.lines().find_map(|l| l.strip_prefix("D ").map(|x| x.to_string()))),
        Some(3) => Ok(Some(format!("hang: more than {HANG_CPU_S} s of processor time"))),
        Some(2) => Err(s),
        Some(c) => Ok(Some(format!("crash: process exited with status {c}"))),
        None => {
            use std::os::unix::process::ExitStatusExt;
            Ok(Some(format!("crash: process killed by signal {}", out.status.signal().unwrap_or(0))))
        }
    }
}
pub fn runcase(file: &str) -> i32 {
    watchdog();
    limit_memory();
    let v: Value = crate::net::parse(&std::fs::read_to_string(file).expect("file")).expect("json");
    let p = props::get(v["property"].as_str().unwrap()).expect("property");
    match run_case(p, &v["case"]) {
        Err(e) => {
            println!("X {e}");
            2
        }
        Ok(v) => match v.violation {
            Some(d) => {
                println!("D {}", d.replace('\n', " "));
                for l in v.trace {
                    println!("T {l}");
                }
                1
            }
            None => 0,
        },
    }
}
pub fn replay(file: &str) -> i32 {
    let v: Value = crate::net::parse(&std::fs::read_to_string(file).expect("file")).expect("json");
    let id = v["property"].as_str().expect("property").to_string();
    match run_isolated(&id, &v["case"], "replays") {
        Err(e) => {
            println!("ERROR {e}");
            2
        }
        Ok(None) => {
            println!("the violation does not occur: {file}");
            0
        }
        Ok(Some(d)) => {
            println!("{d}");
            println!("recorded: {}", v["violation"].as_str().unwrap_or(""));
            println!("VIOLATION property={id} replay={file}");
            1
        }
    }
}

/// Minimises a violating case (in process, or isolated for crashes) and writes
/// its replay file.
fn report(p: &dyn Prop, id: &str, seed: u64, case: Value, detail: &str) -> String {
    let cls = class(detail);
    let isolated = cls == "crash" || cls == "hang";
    let t0 = Instant::now();
    let longest = std::env::var("VERIF_MIN_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(75);
    let limit = Duration::from_secs(if cls == "hang" { 1 } else { longest });
    let mut still = |c: &Value| -> bool {
        if t0.elapsed() > limit {
            return false;
        }
        if isolated {
            matches!(run_isolated(id, c, "replays"), Ok(Some(d)) if class(&d) == cls)
        } else {
            matches!(run_case(p, c), Ok(Verdict { violation: Some(d), .. }) if class(&d) == cls)
        }
    };
    let min = shrink::shrink(case.clone(), 6000, &mut still);
    let (min, d, trace) = if isolated {
        (min, detail.to_string(), vec![])
    } else {
        match run_case(p, &min) {
            Ok(Verdict { violation: Some(d), trace, .. }) => (min, d, trace),
            _ => (case, detail.to_string(), vec![]),
        }
    };
    let path = format!("replays/{id}-{seed:016x}.json");
    let v = json!({"property": id, "seed": seed, "violation": d, "found_as": detail, "trace": trace, "case": min});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
    println!("{d}");
    path
}

/// Minimises a case which crashes the process.
pub fn isomin(id: &str, i: u64) {
    let p = props::get(id).expect("property");
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let seed = case_seed(base, id, i);
    let case = p.gen(&mut Rng::new(seed));
    println!("{}", report(p, id, seed, case, "crash: found by hand"));
}
pub fn check(id: &str, tier: &str) -> i32 {
    let Some(p) = props::get(id) else {
        println!("unknown property {id}");
        return 2;
    };
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let _ = std::fs::create_dir_all("replays");
    let _ = std::fs::create_dir_all("evidence");
    let secs: u64 = std::env::var("VERIF_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else { p.quick_secs() });
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16) as u64;
    println!("property {id} tier {tier} seed {base}, {n} workers, {secs} s");
    let start = Instant::now();
    let children = std::sync::Mutex::new(vec![]);
    // (worker, last begun case, lines)
    let results: Vec<(Option<u64>, Vec<String>, std::process::ExitStatus)> = std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..n {
            let mut child = spawn(&[
                "worker".into(),
                id.into(),
                base.to_string(),
                w.to_string(),
                n.to_string(),
                secs.to_string(),
                u64::MAX.to_string(),
            ])
            .spawn()
            .expect("worker");
            let out = child.stdout.take().unwrap();
            let pid = child.id();
            children.lock().unwrap().push(pid);
            let children = &children;
            hs.push(s.spawn(move || {
                let mut last = None;
                let mut lines = vec![];
                for l in BufReader::new(out).lines().map_while(|l| l.ok()) {
                    if let Some(i) = l.strip_prefix("B ") {
                        last = i.parse().ok();
                    } else {
                        let stop = l.starts_with('V') || l.starts_with('X') || l.starts_with('H');
                        lines.push(l);
                        if stop {
                            // the others stop at their own pace: tell them
                            for c in children.lock().unwrap().iter() {
                                if *c != pid {
                                    unsafe { libc::kill(*c as i32, libc::SIGTERM) };
                                }
                            }
                        }
                    }
                }
                let st = child.wait().expect("wait");
                if !st.success() {
                    use std::os::unix::process::ExitStatusExt;
                    if st.signal() != Some(libc::SIGTERM) {
                        for c in children.lock().unwrap().iter() {
                            if *c != pid {
                                unsafe { libc::kill(*c as i32, libc::SIGTERM) };
                            }
                        }
                    }
                }
                children.lock().unwrap().retain(|c| *c != pid);
                (last, lines, st)
            }));
        }
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut violation: Option<(u64, Value, String)> = None;
    let mut agg = Agg::default();
    let (mut evals, mut nt, mut sigs) = (0u64, HashSet::new(), HashSet::new());
    let mut samples = vec![];
    let mut kf: BTreeMap<String, u64> = BTreeMap::new();
    let mut errors = vec![];
    for (last, lines, st) in &results {
        use std::os::unix::process::ExitStatusExt;
        for l in lines {
            if let Some(x) = l.strip_prefix("V ") {
                let v: Value = crate::net::parse(x).expect("worker line");
                let c = (v["seed"].as_u64().unwrap(), v["case"].clone(), v["detail"].as_str().unwrap().to_string());
                if violation.as_ref().map(|o| o.1.to_string().len() > c.1.to_string().len()).unwrap_or(true) {
                    violation = Some(c);
                }
            } else if let Some(x) = l.strip_prefix("E ") {
                let v: Value = crate::net::parse(x).expect("worker line");
                evals += v["evals"].as_u64().unwrap();
                agg.merge(&serde_json::from_value(v["agg"].clone()).expect("agg"));
                for k in v["nontrivial"].as_array().unwrap() {
                    nt.insert(k.as_u64().unwrap());
                }
                for k in v["sigs"].as_array().unwrap() {
                    sigs.insert(k.as_u64().unwrap());
                }
                if samples.len() < 3 {
                    samples.extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
                }
                for (k, c) in v["known"].as_object().unwrap() {
                    *kf.entry(k.clone()).or_default() += c.as_u64().unwrap();
                }
            } else if l.starts_with("X ") || l.starts_with("Y ") {
                errors.push(l.clone());
            }
        }
        let crashed = !st.success() && st.signal() != Some(libc::SIGTERM);
        if crashed && violation.is_none() {
            if let Some(i) = last {
                let seed = case_seed(base, id, *i);
                let case = p.gen(&mut Rng::new(seed));
                match run_isolated(id, &case, "replays") {
                    Ok(Some(d)) => violation = Some((seed, case, d)),
                    Ok(None) => errors.push(format!("worker died at case {i} ({st}), not reproduced")),
                    Err(e) => errors.push(e),
                }
            }
        }
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some((seed, case, d)) = violation {
        nviol = 1;
        let path = report(p, id, seed, case, &d);
        println!("VIOLATION property={id} replay={path}");
        code = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            println!("ERROR {}", e.chars().take(6000).collect::<String>());
        }
        code = 2;
    }
    let wall = start.elapsed().as_secs_f64();
    let per_h = |x: u64| (x as f64 / wall * 3600.0).round();
    let samples: Vec<Value> = samples
        .into_iter()
        .map(|s| {
            let t = s.to_string();
            if t.len() > 6000 {
                json!(t.chars().take(6000).collect::<String>())
            } else {
                s
            }
        })
        .collect();
    let ev = json!({
        "property": id, "tier": tier, "seed": base, "level": "exploration", "wall_s": wall, "violations": nviol,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nt.len(),
            "rule": p.rule(),
            "samples": samples,
            "simulated_runs": agg.runs,
            "runs_per_hour": per_h(agg.runs),
            "case_seeds_per_hour": per_h(evals),
            "simulated_time_ms": agg.sim_ms,
            "requests": agg.requests,
            "polls": agg.polls,
            "spurious_polls": agg.spurious,
            "task_switches": agg.switches,
            "faults_fired": agg.fired,
            "distinct_interleavings": sigs.len(),
            "interleaving_measure": "hash of the sequence of decisions (task picked, latency, spurious poll, fault time) taken during a run",
            "probes": agg.probes,
            "known_findings_hit": kf,
            "real_components": p.real(),
            "stub_components": p.stubs(),
        },
        "assumptions": p.assumptions(),
    });
    std::fs::write(format!("evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    for k in known().iter().filter(|k| k.property == id) {
        println!("KNOWN-FINDING: property={id} {}", k.text);
    }
    println!(
        "{id}: {} cases, {} simulated runs, {} distinct non-trivial, {} interleavings, {:.1} s; probes {:?}; faults {:?}",
        evals, agg.runs, nt.len(), sigs.len(), wall, agg.probes, agg.fired
    );
    if code == 0 && evals == 0 {
        println!("ERROR no case was run");
        return 2;
    }
    code
}

/// Runs `n` cases in process and prints a histogram (development aid).
pub fn hist(id: &str, from: u64, n: u64) {
    let p = props::get(id).expect("property");
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut h: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut agg = Agg::default();
    let t = Instant::now();
    for i in from..from + n {
        let seed = case_seed(base, id, i);
        let case = p.gen(&mut Rng::new(seed));
        let k = match run_case(p, &case) {
            Err(e) => format!("ERROR {e}"),
            Ok(v) => {
                agg.merge(&v.agg);
                match v.violation {
                    Some(d) => format!("VIOL {}", d.chars().take(90).collect::<String>()),
                    None => if v.nontrivial { "ok nontrivial".into() } else { "ok trivial".into() },
                }
            }
        };
        let e = h.entry(k).or_insert((0, i));
        e.0 += 1;
    }
    let mut v: Vec<_> = h.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (k, (c, i)) in v.iter().take(25) {
        println!("{c:6} (case {i}) {k}");
    }
    println!("probes {:?}\nfaults {:?}\n{:.1} cases/s", agg.probes, agg.fired, n as f64 / t.elapsed().as_secs_f64());
}
pub fn show(id: &str, i: u64, min: bool) {
    let p = props::get(id).expect("property");
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let seed = if i < 1 << 40 { case_seed(base, id, i) } else { i };
    let mut case = p.gen(&mut Rng::new(seed));
    let v = run_case(p, &case);
    if min {
        if let Ok(Verdict { violation: Some(d), .. }) = &v {
            let cls = class(d);
            case = shrink::shrink(case, 8000, &mut |c| matches!(run_case(p, c), Ok(Verdict { violation: Some(d), .. }) if class(&d) == cls));
        } else if let Err(e) = &v {
            let e = e.clone();
            case = shrink::shrink(case, 8000, &mut |c| matches!(run_case(p, c), Err(x) if x == e));
        }
    }
    for (k, x) in case.as_object().unwrap() {
        match x {
            Value::Object(m) if m.len() > 1 => {
                println!("{k}:");
                for (k, x) in m {
                    println!("   {k}: {x}");
                }
            }
            x => println!("{k}: {x}"),
        }
    }
    match run_case(p, &case) {
        Err(e) => println!("ERROR {e}"),
        Ok(v) => {
            println!("=> {:?}", v.violation);
            for l in v.trace {
                println!("  {l}");
            }
        }
    }
}

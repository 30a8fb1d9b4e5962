//! Runs a check: worker processes produce observations, the parent merges them into evidence.

use crate::rng::{hash_str, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Check {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx, u64),
    /// Counters that must be at least this large (scaled runs fail as inconclusive otherwise).
    pub need: &'static [(&'static str, u64)],
    pub workers: usize,
    /// CPU seconds that one case may use before it counts as not answering.
    pub case_cpu_s: u64,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub total: u64,
    pub idx: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub verbose: bool,
    sigs: HashSet<String>,
    pub evals: u64,
    /// Long-lived per-worker state (LSP sessions).
    pub scratch: PathBuf,
}

impl Ctx {
    pub fn rng(&self, salt: &str) -> Rng {
        Rng::case(self.seed, &format!("{}{}", self.id, salt), self.idx)
    }
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }
    /// Records a distinct non-trivial observation.
    pub fn seen(&mut self, s: &str) {
        self.distinct.insert(hash_str(s));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 2 {
            let v = f();
            self.samples.push(v);
        }
    }
    /// `sig` identifies the kind of failure (deduplication and known findings).
    pub fn violate(&mut self, sig: &str, what: &str, detail: Value) {
        self.count("violations_raw");
        if self.violations.len() >= 40 || !self.sigs.insert(sig.to_string()) {
            return;
        }
        if self.verbose {
            println!("--- violation sig={sig}\n{what}\n{}", pretty(&detail));
        }
        self.violations.push(json!({
            "sig": sig, "what": what, "detail": detail, "idx": self.idx, "seed": self.seed, "thorough": self.thorough,
        }));
    }
}

pub fn pretty(v: &Value) -> String {
    let mut s = String::new();
    if let Value::Object(m) = v {
        for (k, v) in m {
            match v {
                Value::String(t) => s.push_str(&format!("  {k}:\n{t}\n")),
                o => s.push_str(&format!("  {k}: {o}\n")),
            }
        }
    } else {
        s = v.to_string();
    }
    s
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

pub fn new_ctx(c: &Check, seed: u64, thorough: bool, scratch: PathBuf) -> Ctx {
    Ctx {
        id: c.id.into(),
        seed,
        thorough,
        total: if thorough { c.thorough } else { c.quick },
        idx: 0,
        counters: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        violations: vec![],
        verbose: false,
        sigs: HashSet::new(),
        evals: 0,
        scratch,
    }
}

/// One worker: cases k, k+n, k+2n, ...
pub fn worker(c: &Check, seed: u64, thorough: bool, k: u64, n: u64, from: u64, total: u64, out: &Path, scratch: PathBuf) {
    crate::api::install_panic_hook();
    let prog = std::fs::OpenOptions::new().create(true).write(true).open(out.with_extension("prog")).unwrap();
    let mut cx = new_ctx(c, seed, thorough, scratch);
    cx.total = total;
    let mut i = k;
    use std::os::unix::fs::FileExt;
    while i < total {
        if i >= from {
            cx.idx = i;
            let _ = prog.write_at(&i.to_le_bytes(), 0);
            cx.evals += 1;
            let t = Instant::now();
            (c.run)(&mut cx, i);
            if t.elapsed().as_secs() >= 3 {
                eprintln!("case {i} took {:?}", t.elapsed());
                cx.count("cases_over_3s");
            }
            if cx.violations.len() >= 40 || cx.counters.get("violations_raw").copied().unwrap_or(0) > 400 {
                break;
            }
        }
        i += n;
    }
    let _ = prog.write_at(&u64::MAX.to_le_bytes(), 0);
    crate::lsp::cleanup();
    let v = json!({
        "counters": cx.counters, "distinct": cx.distinct.iter().collect::<Vec<_>>(), "samples": cx.samples,
        "violations": cx.violations, "evals": cx.evals,
    });
    std::fs::write(out, v.to_string()).unwrap();
}

struct W {
    child: Child,
    k: u64,
    out: PathBuf,
    last_idx: u64,
    base_ticks: u64,
    done: bool,
    restarts: u32,
}

fn read_prog(out: &Path) -> Option<u64> {
    let b = std::fs::read(out.with_extension("prog")).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

fn spawn(c: &Check, seed: u64, thorough: bool, k: u64, n: u64, from: u64, total: u64, out: &Path, scratch: &Path) -> Child {
    let exe = std::env::current_exe().unwrap();
    let errf = std::fs::OpenOptions::new().create(true).append(true).open(out.with_extension("err")).unwrap();
    Command::new(exe)
        .args(["worker", c.id, &seed.to_string(), if thorough { "1" } else { "0" }, &k.to_string(), &n.to_string(), &from.to_string(), &total.to_string()])
        .arg(out)
        .arg(scratch)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(errf)
        .spawn()
        .expect("spawn worker")
}

pub fn known(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known-findings.txt");
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        // known: property=<id> sig=<sig> :: <what>
        if let Some(rest) = l.strip_prefix(&format!("known: property={id} sig=")) {
            if let Some((sig, what)) = rest.split_once(" :: ") {
                v.push((sig.to_string(), what.to_string()));
            }
        }
    }
    v
}

pub fn main(c: &Check, seed: u64, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}", c.id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut total = if thorough { c.thorough } else { c.quick };
    if let Ok(x) = std::env::var("VERIF_CASES") {
        total = x.parse().unwrap_or(total);
    }
    let n = c.workers as u64;
    let cap = Duration::from_secs(if thorough { 3 * 3600 } else { 780 });
    let mut ws: Vec<W> = (0..n)
        .map(|k| {
            let out = scratch.join(format!("w{k}.json"));
            let child = spawn(c, seed, thorough, k, n, 0, total, &out, &scratch.join(format!("s{k}")));
            W { child, k, out, last_idx: u64::MAX - 1, base_ticks: 0, done: false, restarts: 0 }
        })
        .collect();
    let mut violations: Vec<Value> = vec![];
    let mut errors: Vec<String> = vec![];
    let hz = 100;
    loop {
        let mut alive = false;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    let idx = read_prog(&w.out).unwrap_or(0);
                    if st.success() {
                        w.done = true;
                    } else if let Some(sig) = st.signal() {
                        if sig == 6 || sig == 11 || sig == 7 || sig == 4 || sig == 8 {
                            violations.push(json!({"sig": format!("process-died-signal-{sig}"), "what": format!("the process running the analyzer died with signal {sig} on case {idx}"), "detail": {"stderr": tail(&w.out.with_extension("err"))}, "idx": idx, "seed": seed, "thorough": thorough}));
                            w.restarts += 1;
                            if w.restarts < 3 {
                                w.child = spawn(c, seed, thorough, w.k, n, idx + 1, total, &w.out, &scratch.join(format!("s{}", w.k)));
                                alive = true;
                            } else {
                                w.done = true;
                            }
                        } else {
                            errors.push(format!("worker {} ended by signal {sig} at case {idx}", w.k));
                            w.done = true;
                        }
                    } else {
                        errors.push(format!("worker {} failed ({st}) at case {idx}: {}", w.k, tail(&w.out.with_extension("err"))));
                        w.done = true;
                    }
                }
                None => {
                    alive = true;
                    if let Some(idx) = read_prog(&w.out) {
                        let t = cpu_ticks(w.child.id()).unwrap_or(0);
                        if idx != w.last_idx {
                            w.last_idx = idx;
                            w.base_ticks = t;
                        } else if idx != u64::MAX && t.saturating_sub(w.base_ticks) > c.case_cpu_s * hz {
                            let _ = w.child.kill();
                            let _ = w.child.wait();
                            if c.id == "R01" {
                                violations.push(json!({"sig": "no-answer", "what": format!("a query of case {idx} used more than {} s of CPU time without answering", c.case_cpu_s), "detail": {}, "idx": idx, "seed": seed, "thorough": thorough}));
                            } else {
                                errors.push(format!("case {idx} used more than {} s of CPU time (inconclusive)", c.case_cpu_s));
                            }
                            w.done = true;
                        }
                    }
                }
            }
        }
        if !alive {
            break;
        }
        if t0.elapsed() > cap {
            errors.push("wall-clock cap reached (inconclusive)".into());
            for w in ws.iter_mut() {
                if !w.done {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(40));
    }
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut evals = 0;
    for w in &ws {
        let Ok(t) = std::fs::read_to_string(&w.out) else { continue };
        let Ok(v) = serde_json::from_str::<Value>(&t) else { continue };
        for (k, n) in v["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        distinct.extend(v["distinct"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()));
        if samples.len() < 4 {
            samples.extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
        }
        violations.extend(v["violations"].as_array().unwrap().iter().cloned());
        evals += v["evals"].as_u64().unwrap();
    }
    let kn = known(c.id);
    for (_, what) in &kn {
        println!("KNOWN-FINDING: property={} {}", c.id, what);
    }
    let mut seen_sigs = HashSet::new();
    let mut fresh: Vec<&Value> = vec![];
    for v in &violations {
        let sig = v["sig"].as_str().unwrap().to_string();
        if kn.iter().any(|(s, _)| *s == sig) {
            *counters.entry("known_findings_observed".into()).or_insert(0) += 1;
            continue;
        }
        if seen_sigs.insert(sig) {
            fresh.push(v);
        }
    }
    let ev = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(ev.join("replays"));
    let mut code = 0;
    let max: usize = std::env::var("VERIF_MAX").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    for v in fresh.iter().take(max) {
        let sig = v["sig"].as_str().unwrap();
        let p = ev.join("replays").join(format!("{}-{:016x}.json", c.id, hash_str(sig)));
        let mut o = (*v).clone();
        o["property"] = json!(c.id);
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&o).unwrap());
        println!("VIOLATION property={} replay={}", c.id, p.display());
        println!("  sig={sig}");
        for l in v["what"].as_str().unwrap_or("").lines().take(6) {
            println!("  {l}");
        }
        code = 1;
    }
    let mut missing = vec![];
    if fresh.is_empty() && std::env::var("VERIF_CASES").is_err() {
        for (k, want) in c.need {
            let got = counters.get(*k).copied().unwrap_or(0);
            if got < *want {
                missing.push(format!("{k}: {got} < {want}"));
            }
        }
    }
    if !missing.is_empty() {
        errors.push(format!("observed too little: {}", missing.join(", ")));
    }
    let cov = json!({
        "evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": c.rule, "samples": samples,
        "observed": counters,
    });
    let e = json!({
        "property": c.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": cov, "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0, "violations": fresh.len(),
        "assumptions": ["held on the executions counted here; says nothing about inputs the workload did not drive"],
        "errors": errors,
    });
    let _ = std::fs::write(ev.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&e).unwrap() + "\n");
    let _ = std::fs::remove_dir_all(&scratch);
    if code == 0 && !errors.is_empty() {
        for e in &errors {
            println!("INCONCLUSIVE property={} {}", c.id, e.chars().take(300).collect::<String>());
        }
        return 2;
    }
    if code == 0 {
        println!("OK property={} evaluations={evals} distinct={} wall={:.1}s", c.id, distinct.len(), t0.elapsed().as_secs_f64());
    }
    let _ = std::io::stdout().flush();
    code
}

fn tail(p: &Path) -> String {
    let s = std::fs::read_to_string(p).unwrap_or_default();
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(1500)).collect()
}

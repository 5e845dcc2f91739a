//! Batches of runs, minimisation, replay files and evidence.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde_json::{json, Value as Json};

use crate::choices::{Choices, STREAMS};
use crate::exec::{self, End, Outcome, RunCfg, Violation};
use crate::scen::{scenarios, Scenario};

const HANG_S: u64 = 60;

pub fn main(a: &[String]) -> i32 {
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let tier = get("--tier").unwrap_or_else(|| "quick".into());
            let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let runs = get("--runs").and_then(|s| s.parse().ok());
            let out = get("--out").unwrap_or_else(|| "/verif".into());
            check(&a[1], &tier, seed, runs, &out)
        }
        Some("worker") => worker(a),
        Some("one") => one(&a[1], a[2].parse().unwrap(), a.iter().any(|x| x == "--trace")),
        Some("replay") => replay(&a[1], a.iter().any(|x| x == "--quiet")),
        Some("shrink") => shrink(&a[1], &a[2]),
        Some("det") => det(&a[1], a[2].parse().unwrap()),
        _ => {
            eprintln!("usage: hypsim check PROP [--tier quick|thorough] [--seed N] | replay FILE | one PROP INDEX [--trace] | det PROP N");
            2
        }
    }
}

fn run_seed(prop: &str, base: u64, idx: u64) -> u64 {
    let mut h = base.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x51;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h.wrapping_add(idx.wrapping_mul(0xD6E8_FEB8_6659_FD93))
}

fn choose(prop: &str, idx: u64) -> &'static Scenario {
    let v: Vec<&'static Scenario> = scenarios().iter().filter(|s| s.prop == prop).collect();
    if v.is_empty() {
        eprintln!("no scenario for {prop}");
        std::process::exit(2);
    }
    // shares as large as their numbers of quick runs, well mixed
    let total: u64 = v.iter().map(|s| s.quick_runs).sum();
    let mut x = idx.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(32) % total;
    for s in &v {
        if x < s.quick_runs {
            return s;
        }
        x -= s.quick_runs;
    }
    v[0]
}

fn simulate(sc: &'static Scenario, ch: Choices, seed: u64, trace: bool) -> Outcome {
    let mut o = exec::run(&RunCfg { seed, trace, step_cap: sc.step_cap }, ch, || (sc.root)(sc.prop));
    if o.end != End::Done && o.violations.is_empty() {
        o.violations.push(Violation { prop: sc.prop, class: sc.stuck.into(), msg: format!("the run did not end: {:?} after {} steps", o.end, o.steps) });
    }
    o
}

fn find<'a>(o: &'a Outcome, prop: &str, class: Option<&str>) -> Option<&'a Violation> {
    o.violations.iter().find(|v| v.prop == prop && class.map(|c| c == v.class).unwrap_or(true))
}

fn harness_panic(o: &Outcome) -> Option<&String> {
    o.panics.iter().find(|p| p.0 == 0 || p.1.contains("panicked at src/")).map(|p| &p.1)
}

// ------------------------------------------------------------------ single runs

fn one(prop: &str, idx: u64, trace: bool) -> i32 {
    exec::init();
    let base = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let sc = choose(prop, idx);
    let seed = run_seed(prop, base, idx);
    let t = Instant::now();
    let o = simulate(sc, Choices::generate(seed), seed, trace);
    for l in &o.trace {
        println!("{l}");
    }
    println!("end {:?} steps {} switches {} now {:.6} hash {:x} wall {:?}", o.end, o.steps, o.switches, o.now as f64 / 1e9, o.hash, t.elapsed());
    println!("{:?}", o.stats);
    for v in &o.violations {
        println!("{} {}: {}", v.prop, v.class, v.msg);
    }
    for p in &o.panics {
        println!("panic {}: {}", p.0, p.1);
    }
    0
}

fn det(prop: &str, n: u64) -> i32 {
    exec::init();
    for i in 0..n {
        let sc = choose(prop, i);
        let seed = run_seed(prop, 1, i);
        let a = simulate(sc, Choices::generate(seed), seed, true);
        let b = simulate(sc, Choices::replay(seed, a.choices.clone()), seed, true);
        if a.hash != b.hash {
            println!("run {i} differs");
            for (x, y) in a.trace.iter().zip(b.trace.iter()) {
                if x != y {
                    println!("A {x}\nB {y}");
                    break;
                }
            }
            return 1;
        }
        println!("{i} {:x}", a.hash);
    }
    0
}

// ------------------------------------------------------------------ workers

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static CUR_T: AtomicU64 = AtomicU64::new(0);

fn watchdog(limit: u64) {
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = CUR.load(Ordering::SeqCst);
        if c != u64::MAX {
            let began = CUR_T.load(Ordering::SeqCst);
            if t0.elapsed().as_secs() > began + limit {
                println!("H {c}");
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(9) };
            }
        }
    });
    // CUR_T is in seconds since t0
    BASE.get_or_init(|| t0);
}

static BASE: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn mark(idx: u64) {
    CUR_T.store(BASE.get().map(|t| t.elapsed().as_secs()).unwrap_or(0), Ordering::SeqCst);
    CUR.store(idx, Ordering::SeqCst);
}

fn limit_memory() {
    let r = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &r) };
}

fn worker(a: &[String]) -> i32 {
    // worker PROP BASE START STEP END DEADLINE_MS
    let prop = &a[1];
    let n: Vec<u64> = a[2..7].iter().map(|s| s.parse().unwrap()).collect();
    let (base, start, step, end, dl) = (n[0], n[1], n[2], n[3], n[4]);
    limit_memory();
    exec::init();
    watchdog(HANG_S);
    let t0 = Instant::now();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut runs, mut nontrivial, mut sim_ns, mut steps, mut switches, mut redo, mut redo_bad) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut ends: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Json> = Vec::new();
    let mut other: BTreeSet<String> = BTreeSet::new();
    let mut i = start;
    let mut code = 0;
    let out = std::io::stdout();
    while i < end && t0.elapsed() < Duration::from_millis(dl) {
        {
            let mut o = out.lock();
            let _ = writeln!(o, "S {i}");
            let _ = o.flush();
        }
        mark(i);
        let sc = choose(prop, i);
        let seed = run_seed(prop, base, i);
        let want_sample = samples.len() < 2 && start == 0 && runs % 7 == 3;
        let o = simulate(sc, Choices::generate(seed), seed, want_sample);
        runs += 1;
        sim_ns += o.now;
        steps += o.steps;
        switches += o.switches;
        *ends.entry(format!("{:?}", o.end)).or_insert(0) += 1;
        let faults: u64 = o.stats.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(_, v)| v).sum();
        if faults > 0 || o.switches >= 20 {
            nontrivial += 1;
            hashes.insert(o.hash);
        }
        for (k, v) in &o.stats {
            *stats.entry(k.to_string()).or_insert(0) += v;
        }
        if want_sample {
            let mut t: Vec<String> = o.trace.clone();
            if t.len() > 60 {
                let skip = t.len() - 60;
                t.truncate(60);
                t.push(format!("... {skip} more events"));
            }
            samples.push(json!({"run": i, "seed": seed, "scenario": sc.name, "steps": o.steps, "events": t}));
        }
        if let Some(m) = harness_panic(&o) {
            println!("E {}", json!({"idx": i, "msg": m}));
            code = 2;
            break;
        }
        for v in &o.violations {
            if v.prop != prop {
                other.insert(format!("{} {}", v.prop, v.class));
            }
        }
        let mine: Vec<&Violation> = o.violations.iter().filter(|v| v.prop == prop).collect();
        for v in &mine {
            println!("V {}", json!({"idx": i, "seed": seed, "scenario": sc.name, "class": v.class, "msg": v.msg, "choices": o.choices}));
        }
        let leaked = o.leaked;
        if mine.is_empty() && runs % 40 == 7 && !leaked {
            // determinism: the same seed must give the same execution
            redo += 1;
            let p = simulate(sc, Choices::replay(seed, o.choices.clone()), seed, false);
            if p.hash != o.hash {
                redo_bad += 1;
            }
        }
        i += step;
        if leaked {
            println!("L {i}");
            break;
        }
        if mine.len() > 0 {
            // let the parent decide whether to go on
            println!("C {i}");
            break;
        }
    }
    CUR.store(u64::MAX, Ordering::SeqCst);
    let hx: Vec<String> = hashes.iter().map(|h| format!("{h:x}")).collect();
    println!("R {}", json!({"runs": runs, "nontrivial": nontrivial, "sim_ns": sim_ns, "steps": steps, "switches": switches,
        "stats": stats, "ends": ends, "hashes": hx, "samples": samples, "redo": redo, "redo_bad": redo_bad, "other": other}));
    code
}

// ------------------------------------------------------------------ the check

#[derive(Default)]
struct Total {
    runs: u64,
    nontrivial: u64,
    sim_ns: u64,
    steps: u64,
    switches: u64,
    redo: u64,
    redo_bad: u64,
    stats: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    hashes: HashSet<String>,
    samples: Vec<Json>,
    other: BTreeSet<String>,
}

impl Total {
    fn add(&mut self, j: &Json) {
        let u = |k: &str| j[k].as_u64().unwrap_or(0);
        self.runs += u("runs");
        self.nontrivial += u("nontrivial");
        self.sim_ns += u("sim_ns");
        self.steps += u("steps");
        self.switches += u("switches");
        self.redo += u("redo");
        self.redo_bad += u("redo_bad");
        for (m, k) in [(&mut self.stats, "stats"), (&mut self.ends, "ends")] {
            for (k, v) in j[k].as_object().unwrap() {
                *m.entry(k.clone()).or_insert(0) += v.as_u64().unwrap();
            }
        }
        for h in j["hashes"].as_array().unwrap() {
            self.hashes.insert(h.as_str().unwrap().into());
        }
        self.samples.extend(j["samples"].as_array().unwrap().iter().cloned());
        for h in j["other"].as_array().unwrap() {
            self.other.insert(h.as_str().unwrap().into());
        }
    }
}

enum Died {
    Fine,
    Hang(u64),
    Crash(u64, String),
    Harness(String),
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

type Found = Vec<Json>;

fn spawn_range(prop: &str, base: u64, start: u64, step: u64, end: u64, t0: Instant, dl: Duration, known: &HashSet<String>) -> (Vec<Json>, Found, Vec<Died>) {
    let mut results = Vec::new();
    let mut found: Found = Vec::new();
    let mut died = Vec::new();
    let mut next = start;
    loop {
        let left = dl.saturating_sub(t0.elapsed());
        if next >= end || left.is_zero() {
            break;
        }
        let mut ch = Command::new(exe())
            .args(["worker", prop, &base.to_string(), &next.to_string(), &step.to_string(), &end.to_string(), &left.as_millis().to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let err = ch.stderr.take().unwrap();
        let errs = std::thread::spawn(move || {
            let mut v: Vec<String> = Vec::new();
            for l in BufReader::new(err).lines().map_while(Result::ok) {
                if v.len() < 20 {
                    v.push(l);
                }
            }
            v
        });
        let rd = BufReader::new(ch.stdout.take().unwrap());
        let (mut cur, mut done, mut cont, mut hang, mut stop) = (next, false, None, None, false);
        for l in rd.lines().map_while(Result::ok) {
            let (k, v) = l.split_at(1);
            let v = v.trim();
            match k {
                "S" => cur = v.parse().unwrap_or(cur),
                "V" => {
                    let j: Json = serde_json::from_str(v).unwrap();
                    if !known.contains(j["class"].as_str().unwrap()) {
                        stop = true;
                    }
                    found.push(j);
                }
                "R" => {
                    results.push(serde_json::from_str(v).unwrap());
                    done = true;
                }
                "C" | "L" => cont = v.parse().ok(),
                "H" => hang = v.parse::<u64>().ok(),
                "E" => died.push(Died::Harness(v.to_string())),
                _ => {}
            }
        }
        let st = ch.wait();
        let errs = errs.join().unwrap_or_default();
        if !died.is_empty() || stop {
            break;
        }
        if let Some(h) = hang {
            died.push(Died::Hang(h));
            break;
        }
        if !done {
            died.push(Died::Crash(cur, format!("{st:?} {}", errs.join(" | "))));
            break;
        }
        match cont {
            Some(c) => next = c,
            None => break,
        }
    }
    (results, found, died)
}

fn known_findings(out: &str, prop: &str) -> (HashSet<String>, BTreeMap<String, String>) {
    let mut k = HashSet::new();
    let mut text = BTreeMap::new();
    if let Ok(f) = std::fs::read_to_string(format!("{out}/known-findings.txt")) {
        for l in f.lines() {
            if let Some(r) = l.strip_prefix("KNOWN-FINDING: ") {
                let p = r.split_whitespace().find_map(|w| w.strip_prefix("property="));
                let c = r.split_whitespace().find_map(|w| w.strip_prefix("class="));
                if let (Some(p), Some(c)) = (p, c) {
                    if p == prop {
                        k.insert(c.to_string());
                        text.insert(c.to_string(), l.to_string());
                    }
                }
            }
        }
    }
    (k, text)
}

fn check(prop: &str, tier: &str, base: u64, runs: Option<u64>, out: &str) -> i32 {
    let t0 = Instant::now();
    let scs: Vec<&Scenario> = scenarios().iter().filter(|s| s.prop == prop).collect();
    if scs.is_empty() {
        eprintln!("no scenario for {prop}");
        return 2;
    }
    let thorough = tier == "thorough";
    let want: u64 = runs.unwrap_or_else(|| scs.iter().map(|s| if thorough { s.thorough_runs } else { s.quick_runs }).sum());
    let dl = Duration::from_secs(if thorough { 660 } else { 240 });
    let nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) as u64;
    println!("check {prop} tier={tier} seed={base} runs={want} workers={nw}");
    let (known, known_text) = known_findings(out, prop);
    let hs: Vec<_> = (0..nw)
        .map(|i| {
            let (p, k) = (prop.to_string(), known.clone());
            std::thread::spawn(move || spawn_range(&p, base, i, nw, want, t0, dl, &k))
        })
        .collect();
    let mut tot = Total::default();
    let mut found: Found = Vec::new();
    let mut died = Vec::new();
    for h in hs {
        let (r, f, d) = h.join().unwrap();
        for j in &r {
            tot.add(j);
        }
        found.extend(f);
        died.extend(d);
    }
    let mut code = 0;
    let mut shown: BTreeSet<String> = BTreeSet::new();
    found.sort_by_key(|j| (j["idx"].as_u64(), j["class"].as_str().map(String::from)));
    for f in &found {
        let c = f["class"].as_str().unwrap();
        if known.contains(c) && shown.insert(c.to_string()) {
            println!("{}", known_text[c]);
        }
    }
    let mut violations = 0;
    for d in &died {
        if let Died::Harness(m) = d {
            eprintln!("harness error: {m}");
            code = 2;
        }
    }
    let _ = std::fs::create_dir_all(format!("{out}/replays"));
    let mut classes: Vec<&Json> = Vec::new();
    for f in &found {
        let c = f["class"].as_str().unwrap();
        if !known.contains(c) && !classes.iter().any(|g| g["class"] == f["class"]) {
            classes.push(f);
        }
    }
    let mut unrep = 0;
    for f in classes.iter().take(2) {
        let c = f["class"].as_str().unwrap();
        let file: String = c.chars().map(|x| if x.is_ascii_alphanumeric() { x } else { '-' }).collect();
        let path = format!("{out}/replays/{prop}-{file}.json");
        let rec = json!({"property": prop, "scenario": f["scenario"], "seed": f["seed"], "run": f["idx"], "base_seed": base,
            "class": c, "message": f["msg"], "choices": f["choices"]});
        std::fs::write(&path, rec.to_string()).expect("write replay");
        // minimise and replay in fresh processes
        let _ = Command::new(exe()).args(["shrink", &path, if thorough { "90" } else { "40" }]).stdout(Stdio::null()).stderr(Stdio::null()).status();
        let ok = |p: &str| Command::new(exe()).args(["replay", p, "--quiet"]).stdout(Stdio::null()).stderr(Stdio::null()).status().map(|s| s.code() == Some(1)).unwrap_or(false);
        if !ok(&path) {
            std::fs::write(&path, rec.to_string()).expect("write replay");
            if !ok(&path) {
                println!("a violation of class {c} in run {} did not reproduce", f["idx"]);
                unrep += 1;
                continue;
            }
        }
        let msg = std::fs::read_to_string(&path).ok().and_then(|s| serde_json::from_str::<Json>(&s).ok()).map(|j| j["message"].as_str().unwrap_or("").to_string()).unwrap_or_default();
        violations += 1;
        println!("{prop} {c}: {msg}");
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    for d in &died {
        let (idx, class, what) = match d {
            Died::Hang(i) => (*i, "hang", "a run does not come back".to_string()),
            Died::Crash(i, s) => (*i, "abort", format!("the process died: {s}")),
            _ => continue,
        };
        if violations > 0 || known.contains(class) {
            continue;
        }
        let path = format!("{out}/replays/{prop}-{class}.json");
        let rec = json!({"property": prop, "scenario": choose(prop, idx).name, "seed": run_seed(prop, base, idx), "run": idx, "base_seed": base,
            "class": class, "message": what, "choices": Json::Null});
        std::fs::write(&path, rec.to_string()).expect("write replay");
        let ok = Command::new(exe()).args(["replay", &path, "--quiet"]).stdout(Stdio::null()).stderr(Stdio::null()).status().map(|s| s.code() == Some(1)).unwrap_or(false);
        if ok {
            violations += 1;
            println!("{prop} {class}: {what}");
            println!("VIOLATION property={prop} replay={path}");
            code = 1;
        } else {
            println!("run {idx}: {what}: did not reproduce");
            unrep += 1;
        }
    }
    if code == 0 && unrep > 0 {
        code = 2;
    }
    if tot.redo_bad > 0 {
        println!("warning: {} of {} repeated runs differed", tot.redo_bad, tot.redo);
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = tot.stats.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let rest: BTreeMap<&String, &u64> = tot.stats.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": tot.hashes.len(),
            "rule": "one evaluation is one simulated run of the scenario (workload, schedule, faults and network drawn from its seed); non-trivial: at least one injected fault fired or at least 20 context switches between operations; distinct: by hash of the full event log",
            "samples": tot.samples,
            "runs_requested": want,
            "seeds_per_hour": (tot.runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": tot.sim_ns as f64 / 1e9,
            "scheduling_steps": tot.steps,
            "context_switches": tot.switches,
            "faults_fired": faults,
            "operations": rest,
            "run_endings": tot.ends,
            "determinism_reruns": tot.redo,
            "determinism_mismatches": tot.redo_bad,
            "violations_of_other_properties_seen": tot.other,
            "scenarios": scs.iter().map(|s| s.name).collect::<Vec<_>>(),
            "real_code": "hyperborealib from /repo (drivers, middleware, rest_api, crypto), std::fs and tokio::fs down to the libc boundary",
            "stubs": "libc file, clock, random and futex calls (in-memory file system, simulated clock, seeded source, scheduler); tokio's blocking pool hands jobs to the scheduler; HTTP transport and UPnP gateway are simulated implementations of the repository's traits / the easy-upnp API",
        },
        "assumptions": [
            "a crash is a process crash: completed system calls survive, nothing else does",
            "interleavings are decided at system calls, contended locks, task polls and network events; code between two of these runs without preemption",
            "runs are sampled, not enumerated"
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{out}/evidence"));
    std::fs::write(format!("{out}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!("{prop}: {} runs, {} distinct, {:.1}s simulated, {:.1}s wall, exit {code}", tot.runs, tot.hashes.len(), tot.sim_ns as f64 / 1e9, wall);
    code
}

// ------------------------------------------------------------------ replay and minimisation

fn load(path: &str) -> Option<(&'static Scenario, u64, String, Option<[Vec<u32>; STREAMS]>, Json)> {
    let j: Json = serde_json::from_str(&std::fs::read_to_string(path).ok()?).ok()?;
    let sc = scenarios().iter().find(|s| Some(s.name) == j["scenario"].as_str() && Some(s.prop) == j["property"].as_str())?;
    let ch: Option<[Vec<u32>; STREAMS]> = serde_json::from_value(j["choices"].clone()).ok();
    Some((sc, j["seed"].as_u64()?, j["class"].as_str()?.to_string(), ch, j))
}

fn replay(path: &str, quiet: bool) -> i32 {
    let Some((sc, seed, class, ch, _)) = load(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    if class == "abort" && !quiet {
        println!("(re-running in a child: the failure ends the process)");
    }
    if class == "abort" && std::env::var("HYPSIM_CHILD").is_err() {
        let st = Command::new(exe()).args(["replay", path, "--quiet"]).env("HYPSIM_CHILD", "1").stdout(Stdio::null()).stderr(Stdio::null()).status();
        let dead = st.map(|s| s.code().is_none()).unwrap_or(false);
        if dead {
            println!("VIOLATION property={} replay={path}", sc.prop);
            return 1;
        }
        return 0;
    }
    limit_memory();
    exec::init();
    let c = match ch {
        Some(c) => Choices::replay(seed, c),
        None => Choices::generate(seed),
    };
    if class == "hang" && ch_none(path) {
        let t0 = Instant::now();
        let p = path.to_string();
        let prop = sc.prop;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if t0.elapsed().as_secs() > HANG_S {
                println!("VIOLATION property={prop} replay={p}");
                let _ = std::io::stdout().flush();
                unsafe { libc::_exit(1) };
            }
        });
    }
    let o = simulate(sc, c, seed, true);
    if !quiet {
        for l in &o.trace {
            println!("{l}");
        }
    }
    println!("hash {:x}", o.hash);
    match find(&o, sc.prop, Some(&class)) {
        Some(v) => {
            println!("{} {}: {}", v.prop, v.class, v.msg);
            println!("VIOLATION property={} replay={path}", sc.prop);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

fn ch_none(path: &str) -> bool {
    load(path).map(|l| l.3.is_none()).unwrap_or(false)
}

fn shrink(path: &str, secs: &str) -> i32 {
    let Some((sc, seed, class, Some(mut best), mut j)) = load(path) else { return 2 };
    let budget = Duration::from_secs(secs.parse().unwrap_or(30));
    limit_memory();
    exec::init();
    watchdog(HANG_S);
    mark(0);
    let t0 = Instant::now();
    let mut tries = 0u32;
    let mut attempt = |c: &[Vec<u32>; STREAMS]| -> Option<[Vec<u32>; STREAMS]> {
        tries += 1;
        mark(0);
        let o = simulate(sc, Choices::replay(seed, c.clone()), seed, false);
        if o.leaked {
            return None;
        }
        find(&o, sc.prop, Some(&class)).map(|_| o.choices.clone())
    };
    let size = |c: &[Vec<u32>; STREAMS]| -> (usize, u64) { (c.iter().map(|v| v.iter().filter(|x| **x != 0).count() + v.len() / 8).sum(), c.iter().flatten().map(|x| *x as u64).sum()) };
    let mut save = |best: &[Vec<u32>; STREAMS], j: &mut Json, msg: Option<(String, Vec<String>, u64)>| {
        j["choices"] = serde_json::to_value(best).unwrap();
        if let Some((m, log, h)) = msg {
            j["message"] = json!(m);
            j["log"] = json!(log);
            j["hash"] = json!(format!("{h:x}"));
        }
        let _ = std::fs::write(path, j.to_string());
    };
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        // faults first, then schedule, network, workload
        for si in [2usize, 1, 3, 0] {
            // cut the tail
            let mut len = best[si].len();
            while len > 0 && t0.elapsed() < budget {
                let mut c = best.clone();
                c[si].truncate(best[si].len().saturating_sub(len));
                match attempt(&c) {
                    Some(n) if size(&n) < size(&best) => {
                        best = n;
                        progress = true;
                        len = len.min(best[si].len());
                    }
                    _ => len /= 2,
                }
            }
            // zero or remove chunks
            let mut chunk = (best[si].len() / 2).max(1);
            loop {
                let mut p = 0;
                while p < best[si].len() && t0.elapsed() < budget {
                    let e = (p + chunk).min(best[si].len());
                    let mut won = false;
                    if best[si][p..e].iter().any(|x| *x != 0) {
                        let mut c = best.clone();
                        c[si][p..e].fill(0);
                        if let Some(n) = attempt(&c) {
                            if size(&n) < size(&best) {
                                best = n;
                                progress = true;
                                won = true;
                            }
                        }
                    }
                    if !won && si != 1 && p < best[si].len() {
                        let mut c = best.clone();
                        let e = e.min(c[si].len());
                        c[si].drain(p..e);
                        if let Some(n) = attempt(&c) {
                            if size(&n) < size(&best) {
                                best = n;
                                progress = true;
                                continue;
                            }
                        }
                    }
                    p += chunk;
                }
                if chunk == 1 || t0.elapsed() >= budget {
                    break;
                }
                chunk /= 2;
            }
            // smaller values
            let mut p = 0;
            while p < best[si].len() && t0.elapsed() < budget {
                if best[si][p] > 1 {
                    let mut c = best.clone();
                    c[si][p] /= 2;
                    if let Some(n) = attempt(&c) {
                        if size(&n) < size(&best) {
                            best = n;
                            progress = true;
                            continue;
                        }
                    }
                }
                p += 1;
            }
        }
        save(&best, &mut j, None);
    }
    mark(0);
    let o = simulate(sc, Choices::replay(seed, best.clone()), seed, true);
    if let Some(v) = find(&o, sc.prop, Some(&class)) {
        let msg = v.msg.clone();
        save(&best, &mut j, Some((msg, o.trace.iter().take(4000).cloned().collect(), o.hash)));
    }
    CUR.store(u64::MAX, Ordering::SeqCst);
    0
}

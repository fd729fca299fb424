//! The example programs under simulation: the asset downloader, the scene list, playback, frame statistics and
//! touch gestures.
mod download;
mod kernel;
mod out;
#[allow(dead_code)]
#[path = "../../src/rng.rs"]
mod rng;
mod stats;
mod touch;
mod viewer_files;
use out::*;
use rng::{hash_bytes, mix};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

fn plan(prop: &str, seed: u64) -> Value {
    match prop {
        "C21" => download::plan(seed),
        "C22" => stats::plan(seed),
        "C23" => touch::plan(seed),
        "C24" => viewer_files::plan_play(seed),
        "C25" => viewer_files::plan_list(seed),
        _ => panic!("unknown property {prop}"),
    }
}
fn run(prop: &str, p: &Value) -> Out {
    match prop {
        "C21" => download::run(p),
        "C22" => stats::run(p),
        "C23" => touch::run(p),
        "C24" => viewer_files::run_play(p),
        "C25" => viewer_files::run_list(p),
        _ => panic!("unknown property {prop}"),
    }
}
fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    mix(mix(base, hash_bytes(prop.as_bytes())), i) >> 12
}
#[derive(Default, serde::Serialize, serde::Deserialize)]
struct Tally {
    runs: u64,
    judged_runs: u64,
    judged: u64,
    sim_ns: u64,
    plans: BTreeSet<u64>,
    states: BTreeSet<u64>,
    injected: BTreeMap<String, u64>,
    bad: Vec<(u64, u64, String, String)>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
}
fn worker(prop: &str, base: u64, w: u64, nw: u64, max: u64, end: Instant) -> Tally {
    let mut t = Tally::default();
    let mut i = w;
    while i < max && Instant::now() < end && t.bad.is_empty() {
        let seed = seed_of(base, prop, i);
        let p = plan(prop, seed);
        let o = run(prop, &p);
        t.runs += 1;
        t.judged += o.judged;
        if o.judged > 0 {
            t.judged_runs += 1;
            if t.plans.len() < 400_000 {
                t.plans.insert(hash_bytes(p.to_string().as_bytes()));
            }
        }
        t.sim_ns = t.sim_ns.saturating_add(o.sim_ns);
        for s in o.states {
            if t.states.len() < 300_000 {
                t.states.insert(s);
            }
        }
        for (k, n) in o.injected {
            *t.injected.entry(k).or_insert(0) += n;
        }
        for k in o.known.into_keys() {
            *t.known.entry(k).or_insert(0) += 1;
        }
        if i < 3 {
            t.samples.push(json!({"seed": seed, "plan": p}));
        }
        if let Some((c, d)) = o.viol {
            t.bad.push((i, seed, c, d));
        }
        i += nw;
    }
    t
}
fn explore(prop: &str, base: u64, max: u64, secs: u64, nw: u64) -> Result<Tally, String> {
    let end = Instant::now() + Duration::from_secs(secs);
    let mut kids = vec![];
    for w in 0..nw {
        let mut fds = [0i32; 2];
        let pid = unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            libc::fork()
        };
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            mute();
            let b = guard(|| serde_json::to_vec(&worker(prop, base, w, nw, max, end)).unwrap()).unwrap_or_else(|e| e.into_bytes());
            let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            let _ = f.write_all(&b);
            drop(f);
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(fds[1]) };
        kids.push((pid, fds[0]));
    }
    let mut t = Tally::default();
    let mut lost = None;
    for (pid, fd) in kids {
        let mut b = vec![];
        let _ = unsafe { std::fs::File::from_raw_fd(fd) }.read_to_end(&mut b);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let Ok(x) = serde_json::from_slice::<Tally>(&b) else {
            lost = Some(format!("a worker died with status {st:#x}: {}", String::from_utf8_lossy(&b)));
            continue;
        };
        t.runs += x.runs;
        t.judged_runs += x.judged_runs;
        t.judged += x.judged;
        t.sim_ns = t.sim_ns.saturating_add(x.sim_ns);
        t.plans.extend(x.plans);
        t.states.extend(x.states);
        for (k, n) in x.injected {
            *t.injected.entry(k).or_insert(0) += n;
        }
        for (k, n) in x.known {
            *t.known.entry(k).or_insert(0) += n;
        }
        t.bad.extend(x.bad);
        t.samples.extend(x.samples);
    }
    t.bad.sort();
    match lost {
        Some(e) => Err(e),
        None => Ok(t),
    }
}
/// Sends what the example programs print to nowhere.
fn mute() {
    hush();
    unsafe {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        libc::dup2(n, 2);
    }
}
/// Runs a closure with the programs' output muted, and brings the output back.
fn quietly<T>(f: impl FnOnce() -> T) -> T {
    let _ = std::io::stdout().flush();
    unsafe {
        let (a, b) = (libc::dup(1), libc::dup(2));
        mute();
        let r = f();
        let _ = std::io::stdout().flush();
        libc::dup2(a, 1);
        libc::dup2(b, 2);
        libc::close(a);
        libc::close(b);
        let _ = std::panic::take_hook();
        r
    }
}
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Array(a) => {
            out.push(at.clone());
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn ptr(at: &[String]) -> String {
    at.iter().map(|x| format!("/{x}")).collect()
}
/// Takes steps, events, faults and files out of a plan while the same class of violation remains.
fn shrink(prop: &str, p: &Value, class: &str, secs: u64) -> (Value, u64) {
    let end = Instant::now() + Duration::from_secs(secs);
    let mut best = p.clone();
    let mut tries = 0;
    let bad = |v: &Value| run(prop, v).viol.is_some_and(|x| x.0 == class);
    loop {
        let mut better = false;
        let mut all = vec![];
        paths(&best, &mut vec![], &mut all);
        for at in all {
            let Some(n) = best.pointer(&ptr(&at)).and_then(|x| x.as_array()).map(|x| x.len()) else { continue };
            // points and sizes are not lists of things to leave out
            if matches!(at.last().map(|s| s.as_str()), Some("at" | "draw")) {
                continue;
            }
            let mut k = n;
            while k >= 1 {
                let mut i = 0;
                while Instant::now() < end {
                    let len = best.pointer(&ptr(&at)).and_then(|x| x.as_array()).map_or(0, |x| x.len());
                    if i + k > len {
                        break;
                    }
                    let mut c = best.clone();
                    c.pointer_mut(&ptr(&at)).unwrap().as_array_mut().unwrap().drain(i..i + k);
                    tries += 1;
                    if bad(&c) {
                        best = c;
                        better = true;
                    } else {
                        i += k;
                    }
                }
                k /= 2;
            }
        }
        // single faults
        if let Some(n) = best["runs"].as_array().map(|a| a.len()) {
            for i in 0..n {
                for k in ["crash_at", "space", "power"] {
                    if best["runs"][i].get(k).is_none() {
                        continue;
                    }
                    let mut c = best.clone();
                    c["runs"][i].as_object_mut().unwrap().remove(k);
                    tries += 1;
                    if bad(&c) {
                        best = c;
                        better = true;
                    }
                }
            }
        }
        if !better || Instant::now() >= end {
            return (best, tries);
        }
    }
}
struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|x| x == k).and_then(|i| self.0.get(i + 1)).map(|x| x.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}
fn selftest(prop: &str, base: u64, n: u64) -> Result<u64, String> {
    let mut d = 0;
    for i in 0..n {
        let p = plan(prop, seed_of(base, prop, i));
        let (a, b) = (run(prop, &p), run(prop, &p));
        if a.hash != b.hash || a.log != b.log || a.viol != b.viol || a.injected != b.injected || a.sim_ns != b.sim_ns {
            let k = a.log.iter().zip(&b.log).position(|(x, y)| x != y);
            return Err(format!("run {i} of {prop} is not repeatable (log line {k:?}: {:?} {:?})", k.map(|k| &a.log[k]), k.map(|k| &b.log[k])));
        }
        d = mix(d, a.hash);
    }
    Ok(d)
}
/// The listed findings of a property.
fn listed(a: &Args, prop: &str) -> Vec<Value> {
    let known: Vec<Value> = a
        .get("--known")
        .and_then(|f| std::fs::read(f).ok())
        .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
        .map(|v| arr(&v, "findings").iter().filter(|k| k["property"] == prop).cloned().collect())
        .unwrap_or_default();
    set_known(known.iter().filter_map(|k| k["key"].as_str().map(String::from)).collect());
    known
}
fn check(a: &Args) -> i32 {
    let start = Instant::now();
    let prop = a.get("--prop").unwrap().to_string();
    let tier = a.get("--tier").unwrap_or("quick").to_string();
    let base = a.num("--seed", 1);
    let nw = a.num("--jobs", std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8));
    let known = listed(a, &prop);
    let st = quietly(|| selftest(&prop, base, 6));
    let t = match explore(&prop, base, a.num("--runs", 100_000), a.num("--secs", 20), nw) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("harness: {e}");
            return 3;
        }
    };
    let explored = start.elapsed().as_secs_f64();
    for k in &known {
        println!("KNOWN-FINDING: property={prop} {}", k["what"].as_str().unwrap_or(""));
    }
    let mut code = 0;
    if let Some((i, seed, class, _)) = t.bad.first() {
        code = 1;
        let p = plan(&prop, *seed);
        let (m, tries) = quietly(|| shrink(&prop, &p, class, a.num("--shrink-secs", 20)));
        let o = quietly(|| run(&prop, &m));
        let v = o.viol.clone().unwrap_or_default();
        let out = a.get("--out").unwrap_or("out");
        std::fs::create_dir_all(out).ok();
        let path = format!("{out}/{prop}-{seed}.json");
        let f = json!({"property": prop, "seed": seed, "base_seed": base, "index": i, "violation": {"class": v.0, "detail": v.1}, "shrink_tries": tries, "plan": m, "trace": o.log});
        std::fs::write(&path, serde_json::to_vec_pretty(&f).unwrap()).ok();
        println!("run {i} (seed {seed}): {}: {}", v.0, v.1.chars().take(1500).collect::<String>());
        println!("VIOLATION property={prop} replay={path}");
    }
    let wall = start.elapsed().as_secs_f64();
    let (real, stub): (Vec<&str>, Vec<&str>) = match prop.as_str() {
        "C21" => (vec!["examples/scenes download.rs and argument handling", "ureq and the HTTP client stack", "std file and socket code"], vec!["libc file system, socket, name lookup and clock calls: simulated kernel", "TLS: plain HTTP in the simulated network", "HTTP servers: scripted"]),
        "C22" => (vec!["examples/with_winit stats.rs", "examples/scenes text drawing", "vello scene encoding"], vec!["clock: simulated frame times", "GPU: none"]),
        "C23" => (vec!["examples/with_winit multi_touch.rs"], vec!["winit: its event types only; the simulator is the touch screen"]),
        _ => (vec!["examples/scenes lib.rs and lottie.rs", "velato", "vello scene encoding", "std file code"], vec!["libc file system, directory and clock calls: simulated kernel"]),
    };
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration", "wall_s": wall, "violations": t.bad.len(),
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.plans.len(),
            "rule": "one evaluation is one simulated execution of a seeded plan (inputs, events, network and disk behaviour, crashes, clock); it counts as non-trivial if the oracle judged at least one state of it, and as distinct by the plan",
            "samples": t.samples.iter().take(2).collect::<Vec<_>>(),
            "runs_with_a_judged_state": t.judged_runs,
            "states_judged": t.judged,
            "seeds_per_hour": (t.runs as f64 / explored.max(0.001) * 3600.0) as u64,
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "faults_injected": t.injected,
            "runs_that_met_a_known_finding": t.known,
            "distinct_states": t.states.len(),
            "distinct_states_rule": "hash of everything observed up to a judged state",
            "repeatability_selftest_runs": 6,
            "real_components": real,
            "stubbed_components": stub
        }
    });
    if let Some(p) = a.get("--evidence") {
        if let Some(d) = std::path::Path::new(p).parent() {
            std::fs::create_dir_all(d).ok();
        }
        std::fs::write(p, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    }
    println!("{prop}: {} runs, {} judged, {} distinct, {} states, {:.1}s", t.runs, t.judged_runs, t.plans.len(), t.states.len(), wall);
    if code == 0 {
        if let Err(e) = st {
            eprintln!("harness: {e}");
            return 3;
        }
        if t.judged_runs * 4 < t.runs {
            eprintln!("harness: only {} of {} runs were judged", t.judged_runs, t.runs);
            return 3;
        }
    }
    code
}
fn main() {
    let a = Args(std::env::args().skip(1).collect());
    let code = match a.0.first().map(|x| x.as_str()) {
        Some("check") => check(&a),
        Some("replay") => {
            let f: Value = serde_json::from_slice(&std::fs::read(&a.0[1]).unwrap()).unwrap();
            let prop = f["property"].as_str().unwrap().to_string();
            let known = listed(&a, &prop);
            let o = quietly(|| run(&prop, &f["plan"]));
            for l in &o.log {
                println!("{l}");
            }
            println!("trace hash {:016x}", o.hash);
            for (key, detail) in &o.known {
                let what = known.iter().find(|k| k["key"] == key.as_str()).and_then(|k| k["what"].as_str()).unwrap_or("");
                println!("KNOWN-FINDING: property={prop} {what}: {detail}");
            }
            match o.viol {
                Some((c, d)) => {
                    println!("{c}: {d}");
                    println!("VIOLATION property={prop} replay={}", a.0[1]);
                    1
                }
                None => 0,
            }
        }
        Some("selftest") => match quietly(|| selftest(a.get("--prop").unwrap(), a.num("--seed", 1), a.num("--runs", 100))) {
            Ok(d) => {
                println!("repeated exactly, digest {d:016x}");
                0
            }
            Err(e) => {
                println!("{e}");
                1
            }
        },
        _ => {
            eprintln!("usage: vapps check --prop P [--tier T --seed N --secs N] | replay FILE | selftest --prop P");
            2
        }
    };
    std::process::exit(code);
}

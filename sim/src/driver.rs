//! Command line: seeded search over many runs, replay, evidence.
use crate::props::{self, cut, Viol};
use crate::rng::{hash_bytes, mix};
use crate::rt;
use crate::run;
use crate::scen::{Op, Route, Scenario};
use crate::shrink;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|x| x == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|x| x.parse().ok()).unwrap_or(d)
    }
}
#[derive(Serialize, Deserialize, Default)]
struct Tally {
    runs: u64,
    executions: u64,
    counts: BTreeMap<String, u64>,
    streams: HashSet<u64>,
    ilvs: HashSet<u64>,
    scen: HashSet<u64>,
    judged_runs: u64,
    steps: u64,
    secs: f64,
    switches: u64,
    trouble: Vec<String>,
    cover: Vec<u32>,
    samples: Vec<Value>,
    /// (index, seed, violations)
    bad: Vec<(u64, u64, Vec<Viol>)>,
}
impl Tally {
    fn add(&mut self, o: Tally) {
        self.runs += o.runs;
        self.executions += o.executions;
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.streams.extend(o.streams);
        self.ilvs.extend(o.ilvs);
        self.scen.extend(o.scen);
        self.judged_runs += o.judged_runs;
        self.steps += o.steps;
        self.secs += o.secs;
        self.switches += o.switches;
        self.trouble.extend(o.trouble);
        let mut c: BTreeSet<u32> = self.cover.iter().copied().collect();
        c.extend(o.cover);
        self.cover = c.into_iter().collect();
        self.samples.extend(o.samples);
        self.bad.extend(o.bad);
    }
}
fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    mix(mix(base, hash_bytes(prop.as_bytes())), i) >> 1
}
fn scenario(prop: &str, seed: u64) -> Scenario {
    props::make(prop, seed)
}
fn worker(prop: &str, base: u64, w: u64, nw: u64, count: u64, deadline: Instant, min: &AtomicU64, all: bool) -> Tally {
    run::init_worker();
    let mut t = Tally::default();
    let mut i = w;
    while i < count && i < min.load(SeqCst) && Instant::now() < deadline {
        let seed = run_seed(base, prop, i);
        let sc = scenario(prop, seed);
        let mut o = run::run(&sc);
        if o.trouble.is_some() {
            // an overloaded machine gets a second chance
            o = run::run(&sc);
        }
        t.runs += 1;
        t.executions += o.counts.get("executions").copied().unwrap_or(1);
        let judged = o.counts.get("judged").copied().unwrap_or(0) > 0 || matches!(sc.kind.as_str(), "bytes" | "total");
        for (k, v) in &o.counts {
            *t.counts.entry(k.clone()).or_insert(0) += v;
        }
        if t.streams.len() < 400_000 {
            t.streams.extend(o.streams.iter());
        }
        if sc.clients.len() > 1 {
            t.ilvs.insert(o.ilv);
        }
        if judged {
            t.judged_runs += 1;
            t.scen.insert(hash_bytes(serde_json::to_string(&(&sc.docs, &sc.faults, &sc.clients, o.ilv)).unwrap().as_bytes()));
        }
        t.steps += o.steps;
        t.secs += o.secs;
        t.switches += o.switches;
        if i < 2 {
            t.samples.push(json!({"index": i, "seed": seed, "clients": sc.clients, "faults": sc.faults, "documents": sc.docs.iter().map(|d| cut(&d.to_string(), 600)).collect::<Vec<_>>(), "steps": o.steps, "switches": o.switches}));
        }
        if let Some(x) = o.trouble {
            t.trouble.push(format!("run {i} seed {seed}: {x}"));
        } else if !o.viol.is_empty() {
            t.bad.push((i, seed, o.viol));
            if !all {
                min.fetch_min(i, SeqCst);
            }
        }
        i += nw;
    }
    t.cover = run::coverage().iter().enumerate().filter(|x| *x.1 != 0).map(|x| x.0 as u32).collect();
    t
}
fn explore(prop: &str, base: u64, count: u64, secs: u64, nw: u64, all: bool) -> Tally {
    let min = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    min.store(u64::MAX, SeqCst);
    let deadline = Instant::now() + Duration::from_secs(secs);
    let mut kids = vec![];
    for w in 0..nw {
        let mut fds = [0i32; 2];
        let pid = unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            libc::fork()
        };
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let t = worker(prop, base, w, nw, count, deadline, min, all);
            let b = serde_json::to_vec(&t).unwrap();
            let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            let _ = f.write_all(&b);
            drop(f);
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(fds[1]) };
        kids.push((pid, fds[0]));
    }
    let mut t = Tally::default();
    for (pid, fd) in kids {
        let mut b = vec![];
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_end(&mut b);
        unsafe { libc::waitpid(pid, std::ptr::null_mut(), 0) };
        match serde_json::from_slice::<Tally>(&b) {
            Ok(x) => t.add(x),
            Err(_) => t.trouble.push("a worker died".into()),
        }
    }
    t.bad.sort_by_key(|x| x.0);
    t
}
/// Same seed, same run: everything observable must be identical.
fn selftest(prop: &str, base: u64, n: u64) -> Result<(u64, u64), String> {
    run::init_worker();
    let mut digest = 0;
    for i in 0..n {
        let seed = run_seed(base, prop, i);
        let (a, b) = (run::run_one(&scenario(prop, seed)), run::run_one(&scenario(prop, seed)));
        let f = |o: &props::Outcome| {
            [
                ("digests", format!("{:?}", o.digs)),
                ("steps", format!("{} {} {}", o.steps, o.switches, o.ilv)),
                ("log", format!("{:?}", o.log)),
                ("counts", format!("{:?}", o.counts)),
                ("streams", format!("{:?}", o.streams)),
                ("trouble", format!("{:?}", o.trouble)),
            ]
        };
        digest = mix(digest, hash_bytes(format!("{:?}", f(&a)).as_bytes()));
        for ((what, x), (_, y)) in f(&a).iter().zip(&f(&b)) {
            if x != y {
                return Err(format!("run {i} seed {seed} of {prop} is not repeatable: {what}: {} and {}", cut(x, 1500), cut(y, 1500)));
            }
        }
    }
    Ok((n, digest))
}
pub fn main() -> i32 {
    let a = Args(std::env::args().skip(1).collect());
    let cmd = a.0.first().cloned().unwrap_or_default();
    match cmd.as_str() {
        "check" => check(&a),
        "replay" => replay(&a),
        "export" => export(&a),
        "selftest" => match selftest(a.get("--prop").unwrap(), a.num("--seed", 1), a.num("--runs", 100)) {
            Ok((n, d)) => {
                println!("{n} runs repeated exactly, digest {d:016x}");
                0
            }
            Err(e) => {
                println!("{e}");
                1
            }
        },
        "one" => {
            let prop = a.get("--prop").unwrap();
            let seed = match a.get("--index") {
                Some(i) => run_seed(a.num("--seed", 1), prop, i.parse().unwrap()),
                None => a.num("--seed", 1),
            };
            let sc = scenario(prop, seed);
            println!("{}", serde_json::to_string(&sc).unwrap());
            run::init_worker();
            let o = run::run(&sc);
            for v in &o.viol {
                println!("{}: {}", v.class, v.detail);
            }
            println!("{:?} steps {} switches {} trouble {:?}", o.counts, o.steps, o.switches, o.trouble);
            0
        }
        "hunt" => {
            let prop = a.get("--prop").unwrap();
            let t = explore(prop, a.num("--seed", 1), a.num("--runs", 1000), a.num("--secs", 60), a.num("--jobs", 8), true);
            let mut by: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
            for (_, seed, vs) in &t.bad {
                for v in vs {
                    let k = if v.class == "panic" || v.class == "abort" { format!("panic {}", v.detail.rsplit(" at ").next().unwrap_or("")) } else { v.class.clone() };
                    let e = by.entry(k).or_insert((0, *seed, v.detail.clone()));
                    e.0 += 1;
                }
            }
            for (k, (n, seed, d)) in &by {
                println!("{k} x{n} seed {seed}: {}", cut(d, 700));
            }
            println!("runs {} bad {} judged {} {:?} steps {} streams {} ilvs {} cover {}", t.runs, t.bad.len(), t.judged_runs, t.counts, t.steps, t.streams.len(), t.ilvs.len(), t.cover.len());
            for x in t.trouble.iter().take(5) {
                println!("TROUBLE {x}");
            }
            0
        }
        "shrink" => {
            run::init_worker();
            let prop = a.get("--prop").unwrap();
            let sc = scenario(prop, a.num("--seed", 1));
            let o = run::run(&sc);
            let Some(v) = o.viol.iter().find(|v| a.get("--class").map_or(true, |c| c == v.class)) else {
                println!("no violation");
                return 0;
            };
            let (m, tries) = shrink::shrink(&sc, &v.class, a.num("--secs", 20), 2000);
            println!("{}", serde_json::to_string(&m).unwrap());
            for v in &run::run(&m).viol {
                println!("{}: {}", v.class, v.detail);
            }
            println!("{tries} tries");
            0
        }
        _ => {
            eprintln!("check | replay | one | hunt | shrink");
            2
        }
    }
}
fn replay(a: &Args) -> i32 {
    let Some(p) = a.0.get(1) else { return 2 };
    let v: Value = serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap();
    let sc: Scenario = serde_json::from_value(v["scenario"].clone()).unwrap();
    run::init_worker();
    let o = run::run(&sc);
    for v in &o.viol {
        println!("{}: {}", v.class, v.detail);
    }
    if let Some(t) = o.trouble {
        println!("TROUBLE {t}");
        return 3;
    }
    if o.viol.is_empty() {
        println!("no violation");
        return 0;
    }
    let same = v["violation"]["class"].as_str().map_or(true, |c| o.viol.iter().any(|v| v.class == c));
    println!("VIOLATION property={} replay={p}{}", sc.prop, if same { "" } else { " (another violation than recorded)" });
    1
}
/// A replay file as a plain script (documents as text, then loads and renders one after another).
fn export(a: &Args) -> i32 {
    let Some(p) = a.0.get(1) else { return 2 };
    let v: Value = serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap();
    let sc: Scenario = serde_json::from_value(v["scenario"].clone()).unwrap();
    let mut docs = vec![];
    for i in 0..sc.docs.len() {
        let b = crate::scen::stored_bytes(&sc, i);
        docs.push(match serde_json::from_slice::<Value>(&b) {
            Ok(v) => v,
            Err(_) => Value::String(String::from_utf8_lossy(&b).into_owned()),
        });
    }
    let mut steps = vec![];
    for op in sc.before.iter().chain(sc.clients.iter().flatten()).chain(&sc.after) {
        steps.push(match op {
            Op::Load { slot, doc, route } => json!({"load": doc, "slot": slot, "route": match route { Route::Slice => "slice", Route::Str => "str", Route::Json => "json", Route::Rewritten => "rewritten", Route::Built => "built" }}),
            Op::Render { slot, rend, frame, tr, alpha, crash } => {
                let mut o = json!({"render": format!("{frame:?}"), "slot": slot, "renderer": rend});
                if *tr != crate::scen::IDENT {
                    o["transform"] = json!(tr.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>());
                }
                if *alpha != 1.0 {
                    o["alpha"] = json!(format!("{alpha:?}"));
                }
                if let Some(c) = crash {
                    o["fail_after"] = json!(c);
                }
                o
            }
            Op::Edit { slot, doc } => json!({"edit": slot, "doc": doc}),
            Op::NewRend { rend } => json!({"new_renderer": rend}),
            Op::Drop { slot } => json!({"drop": slot}),
            Op::CloneSlot { from, to } => json!({"clone": from, "to": to}),
            Op::Resave { doc } => json!({"resave": doc}),
            Op::Yield => continue,
        });
    }
    println!("{}", json!({"docs": docs, "steps": steps}));
    0
}
fn known(a: &Args, prop: &str) -> Vec<Value> {
    let Some(p) = a.get("--known") else { return vec![] };
    let Ok(b) = std::fs::read(p) else { return vec![] };
    let v: Value = serde_json::from_slice(&b).unwrap_or(Value::Null);
    v["findings"].as_array().map(|x| x.iter().filter(|k| k["property"] == prop).cloned().collect()).unwrap_or_default()
}
fn check(a: &Args) -> i32 {
    let start = Instant::now();
    let prop = a.get("--prop").unwrap().to_string();
    let tier = a.get("--tier").unwrap_or("quick").to_string();
    let base = a.num("--seed", 1);
    let (runs, secs) = (a.num("--runs", 2000), a.num("--secs", 60));
    let nw = a.num("--jobs", std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8));
    let out = a.get("--out").unwrap_or("out").to_string();
    // files that always get replayed first: scenarios that once exposed a defect
    let mut replayed = 0;
    let mut early: Option<(Scenario, Viol, String)> = None;
    if let Some(dir) = a.get("--regress") {
        run::init_worker();
        let mut fs: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
        fs.sort();
        for f in fs {
            let Ok(b) = std::fs::read(&f) else { continue };
            let Ok(v) = serde_json::from_slice::<Value>(&b) else { continue };
            let Ok(sc) = serde_json::from_value::<Scenario>(v["scenario"].clone()) else { continue };
            if sc.prop != prop {
                continue;
            }
            replayed += 1;
            let o = run::run(&sc);
            if let Some(x) = o.viol.first() {
                early = Some((sc, x.clone(), f.display().to_string()));
                break;
            }
        }
    }
    for k in known(a, &prop) {
        println!("KNOWN-FINDING: property={prop} {}", k["what"].as_str().unwrap_or(""));
    }
    let st = if early.is_none() { selftest(&prop, base, 6) } else { Ok((0, 0)) };
    let t = if early.is_none() { explore(&prop, base, runs, secs, nw, false) } else { Tally::default() };
    let explored = start.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    run::init_worker();
    if let Some((sc, v, f)) = &early {
        code = 1;
        nviol = 1;
        println!("{}: {}", v.class, v.detail);
        println!("(scenario kept from an earlier search: {f})");
        println!("VIOLATION property={} replay={}", sc.prop, f);
    } else if let Some((i, seed, vs)) = t.bad.first() {
        code = 1;
        nviol = t.bad.len();
        let sc = scenario(&prop, *seed);
        let (m, tries) = shrink::shrink(&sc, &vs[0].class, a.num("--shrink-secs", 25), 1500);
        let o = run::run(&m);
        let v = o.viol.iter().find(|v| v.class == vs[0].class).cloned().unwrap_or(vs[0].clone());
        std::fs::create_dir_all(&out).ok();
        let path = format!("{out}/{prop}-{seed}.json");
        let f = json!({"violation": v, "seed": seed, "base_seed": base, "index": i, "shrink_tries": tries, "scenario": m, "found_as": vs[0]});
        std::fs::write(&path, serde_json::to_vec_pretty(&f).unwrap()).ok();
        println!("run {i} (seed {seed}): {}: {}", v.class, cut(&v.detail, 1500));
        println!("VIOLATION property={prop} replay={path}");
    }
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &t.counts {
        match k.strip_prefix("fault.") {
            Some(x) => faults.insert(x.into(), *v),
            None => other.insert(k.clone(), *v),
        };
    }
    let wall = start.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration", "wall_s": wall, "violations": nviol,
        "coverage": {
            "evaluations": t.executions,
            "distinct_nontrivial": t.scen.len(),
            "rule": "one evaluation is one forked, fully simulated process execution of a seeded scenario (documents, storage faults, client operations, schedule, environment); it counts as non-trivial if at least one of its results was judged by the oracle, and as distinct by documents + faults + operations + interleaving",
            "samples": t.samples,
            "simulated_runs": t.runs,
            "runs_with_a_judged_result": t.judged_runs,
            "seeds_per_hour": (t.runs as f64 / explored.max(0.001) * 3600.0) as u64,
            "simulated_playback_seconds": t.secs,
            "simulated_edge_ticks": t.steps,
            "faults_injected": faults,
            "counts": other,
            "thread_switches": t.switches,
            "distinct_interleavings": t.ilvs.len(),
            "distinct_interleavings_rule": "hash of the sequence of (edge id, from, to) at every switch, multi-client runs only",
            "distinct_streams": t.streams.len(),
            "instrumented_edges_reached": t.cover.len(),
            "instrumented_edges_total": rt::guards(),
            "repeatability_selftest_runs": st.as_ref().map_or(0, |x| x.0),
            "regression_scenarios_replayed": replayed,
            "real_components": ["velato (all of src/, built from /repo's working tree)", "serde_json", "kurbo", "peniko", "std synchronisation primitives"],
            "stubbed_components": ["canvas: recording RenderSink that can crash at any call", "storage: byte vectors with injected damage", "scheduler, futex, clocks, getrandom: simulated", "allocator: counting, with a cap"]
        }
    });
    if let Some(p) = a.get("--evidence") {
        if let Some(d) = std::path::Path::new(p).parent() {
            std::fs::create_dir_all(d).ok();
        }
        std::fs::write(p, serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    }
    println!("{prop}: {} runs ({} executions), {} judged, {} distinct, {} streams, {} interleavings, {:.1}s", t.runs, t.executions, t.judged_runs, t.scen.len(), t.streams.len(), t.ilvs.len(), wall);
    if code == 0 {
        if let Err(e) = st {
            eprintln!("harness: {e}");
            return 3;
        }
        if !t.trouble.is_empty() {
            for x in t.trouble.iter().take(5) {
                eprintln!("harness: {x}");
            }
            return 3;
        }
        if t.judged_runs * 4 < t.runs {
            eprintln!("harness: only {} of {} runs were judged", t.judged_runs, t.runs);
            return 3;
        }
    }
    code
}

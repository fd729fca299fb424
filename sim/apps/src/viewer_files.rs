//! C24: playback follows the clock. C25: the scene list does not depend on the order the file system lists files in.
use crate::kernel::*;
use crate::out::*;
use crate::rng::{hash_bytes, mix, Rng};
use clap::{CommandFactory, Parser};
use serde_json::{json, Value};

#[derive(Parser, Debug)]
#[command(about, long_about = None)]
pub struct Cli {
    #[command(flatten)]
    pub args: scenes::Arguments,
}
pub fn select(argv: &[String]) -> anyhow_like::R<Option<scenes::SceneSet>> {
    let cli = Cli::try_parse_from(std::iter::once("viewer".to_string()).chain(argv.iter().cloned())).map_err(|e| e.to_string())?;
    cli.args.select_scene_set(Cli::command).map_err(|e| format!("{e:#}"))
}
pub mod anyhow_like {
    pub type R<T> = Result<T, String>;
}
pub struct NoNet;
impl Outside for NoNet {
    fn resolve(&mut self, _: &str) -> bool {
        false
    }
    fn connect(&mut self, _: &str) -> Result<(), i32> {
        Err(libc::ENETUNREACH)
    }
    fn request(&mut self, _: &str, _: &str) -> Vec<Item> {
        vec![]
    }
}
/// A document whose only shape sits at x = (frame - first frame).
fn doc(ip: f64, op: f64, fr: f64) -> String {
    json!({"v": "5.5.2", "fr": fr, "ip": ip, "op": op, "w": 100, "h": 100, "ddd": 0, "assets": [], "layers": [{
        "ddd": 0, "ind": 1, "ty": 4, "nm": "L", "sr": 1, "st": 0, "ip": ip - 1.0, "op": op + 1.0, "bm": 0, "ao": 0,
        "ks": {"o": {"a": 0, "k": 100}, "r": {"a": 0, "k": 0}, "a": {"a": 0, "k": [0, 0, 0]}, "s": {"a": 0, "k": [100, 100, 100]},
            "p": {"a": 1, "k": [
                {"t": ip, "s": [0, 0, 0], "o": {"x": 1.0 / 3.0, "y": 1.0 / 3.0}, "i": {"x": 2.0 / 3.0, "y": 2.0 / 3.0}},
                {"t": op, "s": [op - ip, 0, 0], "o": {"x": 1.0 / 3.0, "y": 1.0 / 3.0}, "i": {"x": 2.0 / 3.0, "y": 2.0 / 3.0}}]}},
        "shapes": [{"ty": "gr", "nm": "g", "it": [
            {"ty": "rc", "nm": "r", "p": {"a": 0, "k": [0, 0]}, "s": {"a": 0, "k": [10, 10]}, "r": {"a": 0, "k": 0}},
            {"ty": "fl", "nm": "f", "c": {"a": 0, "k": [1, 0, 0, 1]}, "o": {"a": 0, "k": 100}},
            {"ty": "tr", "p": {"a": 0, "k": [0, 0]}, "a": {"a": 0, "k": [0, 0]}, "s": {"a": 0, "k": [100, 100]}, "r": {"a": 0, "k": 0}, "o": {"a": 0, "k": 100}}]}]}]})
    .to_string()
}
pub fn plan_play(seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let n = r.range(1, 3);
    let films: Vec<Value> = (0..n)
        .map(|_| {
            let ip = *r.pick(&[0.0, 0.0, 1.0, 17.5, -30.0, 240.0]);
            let len = if r.chance(0.08) { *r.pick(&[0.0, -10.0]) } else { *r.pick(&[1.0, 2.0, 24.0, 60.0, 90.5, 121.0, 300.0]) };
            json!({"ip": ip, "op": ip + len, "fr": *r.pick(&[24.0, 25.0, 29.97, 30.0, 60.0, 120.0, 1.0, 0.5])})
        })
        .collect();
    let mut steps = vec![];
    for _ in 0..r.range(1, 40) {
        let dt: u64 = match r.below(8) {
            0 => 0,
            1 => 1 + r.below(1000) as u64,
            2 => r.range(1, 3600) as u64 * 1_000_000_000,
            3 => r.range(1, 400) as u64 * 86_400_000_000_000,
            _ => 16_666_667 + r.below(3_000_000) as u64,
        };
        steps.push(json!({"wait": dt, "show": r.below(n as usize)}));
    }
    json!({"films": films, "steps": steps, "boot": r.below(1_000_000_000)})
}
pub fn run_play(p: &Value) -> Out {
    let mut o = Out::default();
    let films: Vec<(f64, f64, f64)> = arr(p, "films").iter().map(|f| (f["ip"].as_f64().unwrap_or(0.0), f["op"].as_f64().unwrap_or(1.0), f["fr"].as_f64().unwrap_or(1.0))).collect();
    if films.is_empty() {
        return o;
    }
    let mut disk = Disk::default();
    let mut argv = vec![];
    for (i, (a, b, c)) in films.iter().enumerate() {
        disk.put(&format!("/simfs/{i}.json"), doc(*a, *b, *c).into_bytes());
        argv.push(format!("/simfs/{i}.json"));
    }
    let boot = p["boot"].as_u64().unwrap_or(0);
    let w = World::new(disk, Box::new(NoNet), 1, boot);
    let (w, r) = w.run(|| -> Result<(), String> {
        let t0 = now();
        let set = guard(|| select(&argv))??;
        let Some(mut set) = set else { return Err("no scenes".into()) };
        let t1 = now();
        if set.scenes.len() != films.len() {
            return Err(format!("{} scenes for {} files", set.scenes.len(), films.len()));
        }
        let mut text = scenes::RobotoText::new();
        for (i, st) in arr(p, "steps").iter().enumerate() {
            let dt = st["wait"].as_u64().unwrap_or(0);
            set_now(now() + dt);
            o.sim_ns = o.sim_ns.saturating_add(dt);
            if dt == 0 {
                o.inject("StoppedClock", 1);
            }
            if dt > 500_000_000 {
                o.inject("Stall", 1);
            }
            let k = st["show"].as_u64().unwrap_or(0) as usize % films.len();
            let (ip, op, fr) = films[k];
            let mut sc = vello::Scene::new();
            let mut par = scenes::SceneParams {
                time: 0.0,
                interactive: true,
                text: &mut text,
                resolution: None,
                base_color: None,
                complexity: 0,
                cursor_position: None,
                viewport_size: None,
                camera_transform: kurbo::Affine::IDENTITY,
            };
            let t = now();
            if let Err(e) = guard(|| set.scenes[k].function.render(&mut sc, &mut par)) {
                o.fail("panic", format!("step {i}: showing a film of frames {ip}..{op} at {fr} fps panicked: {e}"));
                break;
            }
            if par.resolution.map(|v| (v.x, v.y)) != Some((100.0, 100.0)) {
                o.fail("resolution", format!("step {i}: resolution {:?}", par.resolution));
            }
            o.judged += 1;
            let len = op - ip;
            let tr = sc.encoding().transforms.clone();
            
            o.see(tr.last().map_or(7, |t| t.translation[0].to_bits() as u64));
            if len <= 0.0 {
                continue;
            }
            let Some(x) = tr.last().map(|t| t.translation[0] as f64) else {
                o.fail("blank", format!("step {i}: nothing shown of frames {ip}..{op}"));
                break;
            };
            // the film started at some moment between t0 and t1
            let at = |t: u64| (t as f64 / 1e9 * fr).rem_euclid(len);
            let (lo, hi) = (at(t - t1), at(t - t0));
            let tol = 1e-3 + len * 1e-6 + (t - t0) as f64 / 1e9 * fr * 1e-12 + (t1 - t0) as f64 / 1e9 * fr;
            let off = |a: f64, b: f64| {
                let d = (a - b).rem_euclid(len);
                d.min(len - d)
            };
            o.states.push(mix(x.to_bits(), fr.to_bits()));
            if x < -1e-3 || x > len + 1e-3 {
                o.fail("range", format!("step {i}: frame {} shown of a film of frames {ip}..{op}", x + ip));
            } else if off(x, lo) > tol && off(x, hi) > tol {
                o.fail("frame", format!("step {i}: {} ns after the start, frame {} shown of frames {ip}..{op} at {fr} fps; expected {}", t - t0, x + ip, hi + ip));
            }
            if o.viol.is_some() {
                break;
            }
        }
        Ok(())
    });
    if let Err(e) = r {
        o.fail("load", e);
    }
    o.log.extend(w.log.clone());
    o.see(w.hash);
    o
}
pub fn plan_list(seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let stems = ["a", "A", "b", "B", "Ab", "aB", "AB", "ab", "z", "Z", "tiger", "Tiger", "TIGER", "0", "_", "é", "É", "a.b", "a b"];
    let dirs: Vec<Value> = (0..r.range(1, 3))
        .map(|d| {
            let mut names: Vec<String> = vec![];
            for _ in 0..r.range(1, 12) {
                let n = format!("{}{}", r.pick(&stems), r.pick(&[".json", ".json", ".json", ".json", ".JSON", ".json.part", ".txt", ""]));
                if !names.contains(&n) {
                    names.push(n);
                }
            }
            json!({"dir": format!("/simfs/d{d}"), "names": names})
        })
        .collect();
    json!({"dirs": dirs, "orders": (0..3).map(|_| r.u64() >> 12).collect::<Vec<_>>()})
}
pub fn run_list(p: &Value) -> Out {
    let mut o = Out::default();
    let mut seen: Option<Vec<String>> = None;
    for (i, ord) in arr(p, "orders").iter().enumerate() {
        let mut disk = Disk::default();
        disk.order = ord.as_u64().unwrap_or(0);
        let mut argv = vec![];
        let mut want: Vec<Vec<String>> = vec![];
        for d in arr(p, "dirs") {
            let dir = d["dir"].as_str().unwrap_or("/simfs/d");
            disk.dirs.push(dir.into());
            argv.push(dir.to_string());
            let mut w = vec![];
            for n in arr(d, "names").iter().filter_map(|n| n.as_str()) {
                let loads = n.len() > 5 && n.ends_with(".json");
                // only what the viewer may load is a document
                disk.put(&format!("{dir}/{n}"), if loads { doc(0.0, 10.0, 10.0).into_bytes() } else { b"{\"half\":".to_vec() });
                if loads {
                    w.push(n[..n.len() - 5].to_string());
                }
            }
            want.push(w);
        }
        o.inject("DirectoryOrder", 1);
        let w = World::new(disk, Box::new(NoNet), 1, 0);
        let (w, r) = w.run(|| guard(|| select(&argv)));
        o.see(w.hash);
        o.log = w.log.clone();
        let names = match r {
            Err(e) => {
                o.fail("panic", format!("order {i}: {e}"));
                break;
            }
            Ok(Err(e)) => {
                o.fail("error", format!("order {i}: {e}"));
                break;
            }
            Ok(Ok(None)) => vec![],
            Ok(Ok(Some(s))) => s.scenes.iter().map(|s| s.config.name.clone()).collect::<Vec<_>>(),
        };
        o.judged += 1;
        for n in &names {
            o.see(hash_bytes(n.as_bytes()));
        }
        o.states.push(o.hash);
        let mut at = 0;
        for mut w in want {
            let part: Vec<String> = names.iter().skip(at).take(w.len()).cloned().collect();
            at += w.len();
            let mut got = part.clone();
            got.sort();
            w.sort();
            if got != w {
                o.fail("files", format!("order {i}: scenes {got:?} for the files {w:?}"));
            }
            if part.windows(2).any(|x| x[0].to_lowercase() > x[1].to_lowercase()) {
                o.fail("sorted", format!("order {i}: scenes {part:?} are not in alphabetical order"));
            }
        }
        if at != names.len() {
            o.fail("files", format!("order {i}: {} scenes for {at} files", names.len()));
        }
        match &seen {
            None => seen = Some(names),
            Some(s) if *s != names => o.fail_as(if s.iter().map(|x| x.to_lowercase()).eq(names.iter().map(|x| x.to_lowercase())) { "scenes-case" } else { "" }, "order", format!("the same files are scenes {s:?} or {names:?}, depending on how the file system lists them")),
            _ => {}
        }
        if o.viol.is_some() {
            break;
        }
    }
    o
}

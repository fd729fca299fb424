//! C22: the frame statistics of the viewer under any history of frame times.
use crate::out::*;
use crate::rng::{mix, Rng};
use serde_json::{json, Value};
use viewer::stats::{Sample, Stats};

pub fn plan(seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let n = if r.chance(0.4) { r.range(90, 330) } else { r.range(1, 60) };
    let base = *r.pick(&[0u64, 1, 90, 400, 700, 5_000, 16_667, 33_334, 400_000]);
    let mut steps = vec![];
    let (spike, clear, draw) = (r.unit() * 0.2, r.unit() * 0.1, r.unit() * 0.3);
    for _ in 0..n {
        let us = if r.chance(spike) {
            // a stalled compositor, a suspended machine, two events at one clock reading
            *r.pick(&[0u64, 0, 1, 2_000, 50_000, 3_000_000, 86_400_000_000, 1_000_000_000_000_000])
        } else {
            base + r.below(1 + base as usize / 4) as u64
        };
        steps.push(json!({"frame": us}));
        if r.chance(clear) {
            steps.push(json!({"clear": 1}));
        }
        if r.chance(draw) {
            let size = |r: &mut Rng| *r.pick(&[0.0, 1.0, 300.0, 1044.0, 1920.0, 10_000.0]);
            steps.push(json!({"draw": [size(&mut r), size(&mut r)], "vsync": r.chance(0.5), "bump": r.chance(0.5)}));
        }
    }
    if r.chance(0.3) {
        steps.insert(0, json!({"draw": [800.0, 600.0], "vsync": true, "bump": false}));
    }
    json!({"steps": steps})
}
struct Text(scenes::RobotoText);
thread_local! { static TEXT: std::cell::RefCell<Text> = std::cell::RefCell::new(Text(scenes::RobotoText::new())); }
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1e-3 + a.abs().max(b.abs()))
}
pub fn run(p: &Value) -> Out {
    let mut o = Out::default();
    let mut s = Stats::new();
    // the reference: everything kept, everything recomputed
    let mut all: Vec<u64> = vec![];
    let mut since: Vec<u64> = vec![];
    for (i, st) in arr(p, "steps").iter().enumerate() {
        if let Some(us) = st["frame"].as_u64() {
            o.sim_ns = o.sim_ns.saturating_add(us.saturating_mul(1000));
            all.push(us);
            since.push(us);
            if us == 0 {
                o.inject("StoppedClock", 1);
            }
            if us > 1_000_000 {
                o.inject("Stall", 1);
            }
            if let Err(e) = guard(|| s.add_sample(Sample { frame_time_us: us })) {
                o.fail("panic", format!("step {i}: adding a sample of {us} us panicked: {e}"));
            }
        } else if st["clear"].is_u64() {
            s.clear_min_and_max();
            since.clear();
            o.inject("ClearExtremes", 1);
        } else if st["draw"].is_array() {
            let (w, h) = (st["draw"][0].as_f64().unwrap_or(0.0), st["draw"][1].as_f64().unwrap_or(0.0));
            let mut sc = vello::Scene::new();
            let bump = st["bump"].as_bool().unwrap_or(false).then(|| vello::low_level::BumpAllocators { failed: (i % 2) as u32, ..Default::default() });
            let vs = st["vsync"].as_bool().unwrap_or(false);
            let aa = [vello::AaConfig::Area, vello::AaConfig::Msaa8, vello::AaConfig::Msaa16][i % 3];
            let r = TEXT.with(|t| guard(|| s.snapshot().draw_layer(&mut sc, &mut t.borrow_mut().0, w, h, s.samples(), bump, vs, aa)));
            o.judged += 1;
            match r {
                // finding: no full millisecond to scale the bars by
                Err(e) if !all.is_empty() && mean(&all) * 1.33334 < 1000.0 && since.iter().max().is_some_and(|m| *m as f64 > 2.9999999 * mean(&all)) => {
                    o.fail_as("stats-subms", "panic", format!("step {i}: drawing {}x{} after {} frames (mean {:?} us) panicked: {e}", w, h, all.len(), mean(&all)))
                }
                Err(e) => o.fail("panic", format!("step {i}: drawing {}x{} after {} frames (mean {:?} us) panicked: {e}", w, h, all.len(), mean(&all))),
                Ok(()) => {
                    let e = sc.encoding();
                    let bars = e.draw_tags.len();
                    o.see(bars as u64);
                    for t in &e.transforms {
                        for x in t.matrix.iter().chain(&t.translation) {
                            if !x.is_finite() {
                                // finding: the largest frame time is zero (none seen since the reset, or a stopped clock)
                                let none = !all.is_empty() && since.iter().max().is_none_or(|m| *m == 0);
                                let k = if none { "stats-nomax" } else { "" };
                                o.fail_as(k, "undefined", format!("step {i}: the overlay drawn after {} frames has a transform with {x}", all.len()));
                            }
                        }
                    }
                }
            }
        }
        if all.is_empty() {
            continue;
        }
        o.judged += 1;
        let w = &all[all.len().saturating_sub(100)..];
        if !s.samples().eq(w.iter()) {
            o.fail("window", format!("step {i}: the window holds {:?}, not the last frames {:?}", s.samples().collect::<Vec<_>>(), w));
        }
        match guard(|| s.snapshot()) {
            Err(e) => o.fail("panic", format!("step {i}: snapshot panicked: {e}")),
            Ok(n) => {
                let m = mean(&all) * 0.001;
                if !close(n.frame_time_ms, m) {
                    o.fail("mean", format!("step {i}: mean {} ms, the last frames have {m} ms", n.frame_time_ms));
                }
                if m > 0.0 && !close(n.fps * m, 1000.0) {
                    o.fail("fps", format!("step {i}: {} fps at a mean of {m} ms", n.fps));
                }
                if let (Some(a), Some(b)) = (since.iter().min(), since.iter().max()) {
                    if !close(n.frame_time_min_ms, *a as f64 * 0.001) || !close(n.frame_time_max_ms, *b as f64 * 0.001) {
                        o.fail("extremes", format!("step {i}: extremes {} and {} ms, seen since the reset {a} and {b} us", n.frame_time_min_ms, n.frame_time_max_ms));
                    }
                }
                o.see(n.frame_time_ms.to_bits());
                o.states.push(mix(n.frame_time_ms.to_bits(), n.frame_time_max_ms.to_bits()));
            }
        }
        if o.viol.is_some() {
            break;
        }
    }
    o
}
fn mean(all: &[u64]) -> f64 {
    let w = &all[all.len().saturating_sub(100)..];
    w.iter().map(|x| *x as u128).sum::<u128>() as f64 / w.len() as f64
}

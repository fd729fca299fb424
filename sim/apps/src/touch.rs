//! C23: touch gestures under any sequence of touch events, lost, duplicated and reordered ones included.
use crate::out::*;
use crate::rng::{mix, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use viewer::multi_touch::TouchState;
use winit::event::{Touch, TouchPhase};

pub fn plan(seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let n = r.range(2, 60);
    let ids = r.range(1, 5);
    let fault = if r.chance(0.5) { r.unit() * 0.2 } else { 0.0 };
    let mut down: BTreeMap<i64, (f64, f64)> = BTreeMap::new();
    let mut frames = vec![];
    let spot = |r: &mut Rng| (r.grid(-10.0, 4000.0, 4.0), r.grid(-10.0, 4000.0, 4.0));
    let shared = spot(&mut r);
    for _ in 0..n {
        let mut ev = vec![];
        for _ in 0..r.below(5) {
            let id = r.range(0, ids);
            let (ph, pos) = match down.get(&id) {
                None => ("start", if r.chance(0.1) { shared } else { spot(&mut r) }),
                Some(p) if r.chance(0.75) => (
                    "move",
                    match r.below(8) {
                        0 => shared,
                        1 => spot(&mut r),
                        2 => *p,
                        3 => (shared.0, p.1),
                        _ => (p.0 + r.grid(-20.0, 20.0, 4.0), p.1 + r.grid(-20.0, 20.0, 4.0)),
                    },
                ),
                Some(p) => (if r.chance(0.7) { "end" } else { "cancel" }, *p),
            };
            match ph {
                "start" | "move" => {
                    down.insert(id, pos);
                }
                _ => {
                    down.remove(&id);
                }
            }
            let e = json!({"id": id, "phase": ph, "at": [pos.0, pos.1]});
            if r.chance(fault) {
                // lost, duplicated or swapped with the one before
                match r.below(3) {
                    0 => continue,
                    1 => ev.push(e.clone()),
                    _ => {
                        let k = ev.len().saturating_sub(1);
                        ev.insert(k, e);
                        continue;
                    }
                }
            }
            ev.push(e);
        }
        frames.push(json!({"events": ev}));
    }
    json!({"frames": frames, "faulty": fault > 0.0})
}
type P = (f64, f64);
fn centre(m: &BTreeMap<u64, P>) -> P {
    let n = m.len() as f64;
    (m.values().map(|p| p.0).sum::<f64>() / n, m.values().map(|p| p.1).sum::<f64>() / n)
}
fn spread(m: &BTreeMap<u64, P>) -> f64 {
    let c = centre(m);
    m.values().map(|p| (p.0 - c.0).hypot(p.1 - c.1)).sum::<f64>() / m.len() as f64
}
fn heading(m: &BTreeMap<u64, P>) -> Option<f64> {
    let c = centre(m);
    let f = m.values().next()?;
    let (x, y) = (c.0 - f.0, c.1 - f.1);
    (x.hypot(y) > 1e-3).then(|| y.atan2(x))
}
fn turn(a: f64) -> f64 {
    let t = a.rem_euclid(std::f64::consts::TAU);
    t.min(std::f64::consts::TAU - t)
}
pub fn run(p: &Value) -> Out {
    let mut o = Out::default();
    let mut s = TouchState::new();
    let mut now: BTreeMap<u64, P> = BTreeMap::new();
    let mut before: BTreeMap<u64, P>;
    for (i, f) in arr(p, "frames").iter().enumerate() {
        before = now.clone();
        let (mut changed, mut spurious) = (false, false);
        for e in arr(f, "events") {
            let id = e["id"].as_u64().unwrap_or(0);
            let at = (e["at"][0].as_f64().unwrap_or(0.0), e["at"][1].as_f64().unwrap_or(0.0));
            let phase = match e["phase"].as_str().unwrap_or("") {
                "start" => TouchPhase::Started,
                "move" => TouchPhase::Moved,
                "end" => TouchPhase::Ended,
                _ => TouchPhase::Cancelled,
            };
            match phase {
                TouchPhase::Started => {
                    if now.insert(id, at).is_some() {
                        spurious = true;
                        o.inject("RepeatedStart", 1);
                    } else {
                        changed = true;
                    }
                }
                TouchPhase::Moved => match now.get_mut(&id) {
                    Some(x) => *x = at,
                    None => o.inject("MoveWithoutStart", 1),
                },
                _ => {
                    if now.remove(&id).is_some() {
                        changed = true;
                    } else {
                        spurious = true;
                        o.inject("EndWithoutStart", 1);
                    }
                }
            }
            let t = Touch { device_id: Default::default(), phase, location: winit::dpi::PhysicalPosition { x: at.0, y: at.1 }, force: None, id };
            if let Err(e) = guard(|| s.add_event(&t)) {
                o.fail("panic", format!("frame {i}: an event panicked: {e}"));
            }
        }
        o.sim_ns += 16_666_667;
        let info = match guard(|| {
            s.end_frame();
            s.info()
        }) {
            Ok(x) => x,
            Err(e) => {
                o.fail("panic", format!("frame {i}: panicked: {e}"));
                break;
            }
        };
        o.judged += 1;
        let Some(g) = info else {
            if !now.is_empty() {
                o.fail("gesture", format!("frame {i}: no gesture although {} fingers are down", now.len()));
            }
            continue;
        };
        if now.is_empty() {
            o.fail("gesture", format!("frame {i}: a gesture although no finger is down"));
            break;
        }
        let all = [g.zoom_delta, g.zoom_delta_2d.x, g.zoom_delta_2d.y, g.rotation_delta, g.translation_delta.x, g.translation_delta.y, g.zoom_centre.x, g.zoom_centre.y];
        for x in all {
            o.see(x.to_bits());
        }
        o.states.push(mix(o.hash, now.len() as u64));
        if all.iter().any(|x| !x.is_finite()) || g.zoom_delta <= 0.0 || g.zoom_delta_2d.x <= 0.0 || g.zoom_delta_2d.y <= 0.0 {
            // finding: fingers in the same place (along the axis they pinch) are no distance apart
            let flat = |m: &BTreeMap<u64, P>| {
                let c = centre(m);
                let off = |f: &dyn Fn(&P) -> f64| m.values().map(f).fold(0.0, f64::max);
                m.len() > 1 && (off(&|p| (p.0 - c.0).abs()) < 1e-9 || off(&|p| (p.1 - c.1).abs()) < 1e-9)
            };
            let still = g.rotation_delta.is_finite() && g.translation_delta.x.is_finite() && g.translation_delta.y.is_finite();
            if still && (flat(&before) || flat(&now)) {
                o.fail_as("touch-sameplace", "undefined", format!("frame {i}: fingers went from {before:?} to {now:?} and the gesture is {g:?}: the view cannot be recovered from that"));
                if o.viol.is_some() {
                    break;
                }
                continue;
            }
            o.fail("undefined", format!("frame {i}: fingers went from {before:?} to {now:?} and the gesture is {g:?}: the view cannot be recovered from that"));
            break;
        }
        if g.num_touches != now.len() {
            o.fail("fingers", format!("frame {i}: {} fingers reported, {} are down", g.num_touches, now.len()));
        }
        let near = |a: f64, b: f64, tol: f64| (a - b).abs() <= tol;
        let c = centre(&now);
        if !near(g.zoom_centre.x, c.0, 1e-6) || !near(g.zoom_centre.y, c.1, 1e-6) {
            o.fail("centre", format!("frame {i}: zoom centre {:?}, fingers are at {now:?}", g.zoom_centre));
        }
        let still = g.zoom_delta == 1.0 && g.zoom_delta_2d.x == 1.0 && g.zoom_delta_2d.y == 1.0 && g.rotation_delta == 0.0 && g.translation_delta.x == 0.0 && g.translation_delta.y == 0.0;
        if changed || before.is_empty() {
            if !still {
                o.fail("jump", format!("frame {i}: the fingers changed from {before:?} to {now:?} and the view jumped by {g:?}"));
            }
            continue;
        }
        if spurious && still {
            continue;
        }
        let b = centre(&before);
        if !near(g.translation_delta.x, c.0 - b.0, 1e-6) || !near(g.translation_delta.y, c.1 - b.1, 1e-6) {
            o.fail("translation", format!("frame {i}: fingers moved from {before:?} to {now:?}, translation {:?}", g.translation_delta));
        }
        let (d0, d1) = (spread(&before), spread(&now));
        if now.len() == 1 {
            if g.zoom_delta != 1.0 || g.zoom_delta_2d.x != 1.0 || g.zoom_delta_2d.y != 1.0 || g.rotation_delta != 0.0 {
                o.fail("single", format!("frame {i}: one finger zooms or rotates: {g:?}"));
            }
        } else {
            if d0 > 1e-3 && d1 > 1e-3 && !near(g.zoom_delta / (d1 / d0), 1.0, 1e-6) {
                o.fail("zoom", format!("frame {i}: fingers moved from {before:?} to {now:?}, zoom {}", g.zoom_delta));
            }
            if let (Some(h0), Some(h1)) = (heading(&before), heading(&now)) {
                if turn(g.rotation_delta - (h1 - h0)) > 1e-6 {
                    o.fail("rotation", format!("frame {i}: fingers moved from {before:?} to {now:?}, rotation {}", g.rotation_delta));
                }
            }
        }
        if o.viol.is_some() {
            break;
        }
    }
    o
}

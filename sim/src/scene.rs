//! Compares velato's own Vello sink with a replay of the calls another sink recorded.
use crate::props::{Outcome, Viol};
use kurbo::{Affine, BezPath};
use peniko::Fill;
use std::sync::{Arc, Mutex};
use subject::scene::Scene;
use subject::velato::{Composition, Renderer};
use subject::Op;

pub type Job = (String, crate::exec::Job, Arc<Vec<Op>>);

fn bez(p: &[kurbo::PathEl]) -> BezPath {
    p.iter().copied().collect()
}
fn replay(ops: &[Op], s: &mut Scene) {
    for o in ops {
        match o {
            Op::PushLayer { blend, alpha, t, path } => s.push_layer(Fill::NonZero, *blend, *alpha, *t, &bez(path)),
            Op::PushClip { t, path } => s.push_clip_layer(Fill::NonZero, *t, &bez(path)),
            Op::Pop => s.pop_layer(),
            Op::Draw { stroke: None, t, brush, path } => s.fill(Fill::NonZero, *t, brush, None, &bez(path)),
            Op::Draw { stroke: Some(k), t, brush, path } => s.stroke(k, *t, brush, None, &bez(path)),
            Op::Begin { .. } | Op::End => {}
        }
    }
}
/// Everything the encoding holds, as text by part.
fn parts(s: &Scene) -> Vec<(&'static str, Vec<u8>)> {
    let e = s.encoding();
    let dbg = |x: &dyn std::fmt::Debug| format!("{x:?}").into_bytes();
    let mut v = vec![
        ("path tags", dbg(&e.path_tags.iter().map(|t| t.0).collect::<Vec<_>>())),
        ("path data", dbg(&e.path_data)),
        ("draw tags", dbg(&e.draw_tags.iter().map(|t| t.0).collect::<Vec<_>>())),
        ("draw data", dbg(&e.draw_data)),
        ("transforms", dbg(&e.transforms)),
        ("styles", dbg(&e.styles)),
    ];
    v.push(("counts", dbg(&(e.n_paths, e.n_path_segments, e.n_clips, e.n_open_clips))));
    let r = &e.resources;
    let patches: Vec<String> = r
        .patches
        .iter()
        .map(|p| match p {
            vello_encoding::Patch::Ramp { draw_data_offset, stops, extend } => format!("{draw_data_offset} {stops:?} {extend:?}"),
            _ => "other".into(),
        })
        .collect();
    v.push(("gradients", dbg(&(patches, &r.color_stops))));
    v
}
fn differ(a: &Scene, b: &Scene) -> Option<String> {
    parts(a).into_iter().zip(parts(b)).find(|(x, y)| x.1 != y.1).map(|(x, y)| {
        let k = x.1.iter().zip(&y.1).position(|(p, q)| p != q).unwrap_or(x.1.len().min(y.1.len()));
        let cut = |v: &[u8]| String::from_utf8_lossy(&v[k.saturating_sub(20)..(k + 60).min(v.len())]).to_string();
        format!("{} differ: {} expected {}", x.0, cut(&x.1), cut(&y.1))
    })
}
pub fn judge(bytes: Vec<Vec<u8>>, jobs: &[Job], out: &mut Outcome) {
    let jobs: Vec<Job> = jobs.to_vec();
    let res: &'static Mutex<(u64, Vec<Viol>)> = Box::leak(Box::new(Mutex::new((0, vec![]))));
    crate::rt::LOUD.store(true, std::sync::atomic::Ordering::SeqCst);
    crate::rt::shared().phase.store(crate::rt::PHASE_SIM, std::sync::atomic::Ordering::SeqCst);
    crate::rt::run_threads(vec![Box::new(move || {
        let mut r = Renderer::new();
        let mut comps: Vec<(usize, crate::scen::Route, Composition)> = vec![];
        // a scene that already holds something
        let mut old: Option<(Scene, Vec<Op>)> = None;
        for (what, (c, f, t, a), ops) in &jobs {
            if !comps.iter().any(|x| x.0 == c.doc && x.1 == c.route) {
                match crate::exec::guarded(|| crate::exec::load(&bytes[c.doc], c.route)) {
                    Ok(Some(Ok(x))) => comps.push((c.doc, c.route, x)),
                    _ => {
                        res.lock().unwrap().1.push(Viol { class: "load".into(), detail: format!("{what}: could not be loaded again") });
                        continue;
                    }
                }
            }
            let c = &comps.iter().find(|x| x.0 == c.doc && x.1 == c.route).unwrap().2;
            let t = Affine::new(*t);
            let mut want = Scene::new();
            replay(ops, &mut want);
            let got = subject::scene::render_new(&mut r, c, *f, t, *a);
            let mut empty = Scene::new();
            subject::scene::append_to(&mut r, c, *f, t, *a, &mut empty);
            let mut bad = vec![];
            let mut put = |class: &str, d: Option<String>, w: &str| {
                if let Some(d) = d {
                    bad.push(Viol { class: class.into(), detail: format!("{what}: {w}: {d}") });
                }
            };
            put("encoding", differ(&got, &want), "rendered scene is not the recorded call sequence");
            put("empty", differ(&empty, &got), "appending to an empty scene differs from rendering a new one");
            if let Some((mut s, mut pre)) = old.take() {
                pre.extend(ops.iter().cloned());
                let mut both = Scene::new();
                replay(&pre, &mut both);
                subject::scene::append_to(&mut r, c, *f, t, *a, &mut s);
                put("append", differ(&s, &both), "appending to a scene with content");
            }
            let mut g = res.lock().unwrap();
            g.0 += 1;
            g.1.extend(bad);
            old = Some((got, ops.to_vec()));
        }
    })], crate::exec::STACK, &crate::rt::Plan::default(), crate::exec::STEP_BUDGET);
    crate::rt::shared().phase.store(crate::rt::PHASE_ORACLE, std::sync::atomic::Ordering::SeqCst);
    let g = res.lock().unwrap();
    out.n("judged", g.0);
    out.viol.extend(g.1.iter().cloned());
}

//! Compares the stream a sink received with the stream the model expects, aspect by aspect.
use crate::model::{at, close_aff, segs, E};
use kurbo::{Affine, PathEl, Point};
use peniko::{Brush, GradientKind};
use std::collections::{BTreeMap, HashMap};
use subject::Op;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Aspect {
    /// pushes and pops do not nest
    Nesting,
    /// first/last call or canvas rectangle wrong
    Canvas,
    /// a layer is missing or should not be there
    Group,
    Index,
    /// layers in the wrong order
    Order,
    /// clips and layers pushed around a layer's content
    Layering,
    Blend,
    ClipPath,
    ClipPlace,
    /// number or kind of paints
    Paint,
    /// something painted where nothing should be
    Extra,
    Place,
    Path,
    Color,
    Alpha,
    Stroke,
    NaN,
}
#[derive(Clone, Debug)]
pub struct Diff {
    pub aspect: Aspect,
    pub at: String,
    pub what: String,
}

const TOL: f64 = 1e-4;
fn eq(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
fn eqp(a: Point, b: Point) -> bool {
    // relative to the size of the point, not of each coordinate
    let m = 1.0 + a.to_vec2().hypot().max(b.to_vec2().hypot());
    a.distance(b) <= TOL * m
}
fn nan_path(p: &[PathEl]) -> bool {
    segs(p).iter().flatten().any(|q| !q.x.is_finite() || !q.y.is_finite())
}
fn drawn(p: &[PathEl]) -> Vec<[Point; 4]> {
    // moves that draw nothing and zero-length edges do not matter
    let mut s = segs(p);
    s.retain(|q| !(1..4).all(|k| q[0].distance(q[k]) < 1e-9 * (1.0 + q[0].to_vec2().hypot())));
    s
}
fn same_path(e: &[PathEl], a: &[PathEl], tol: f64) -> bool {
    let (x, y) = (drawn(e), drawn(a));
    if tol == 0.0 {
        if x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| seg_eq(p, q)) {
            return closed_flags(e) == closed_flags(a) || x.is_empty();
        }
        return false;
    }
    near_paths(&x, &y, tol)
}
fn line(s: &[Point; 4]) -> bool {
    let f = |p: Point| {
        let d = s[3] - s[0];
        let l = d.hypot();
        let w = p - s[0];
        if l < 1e-9 { w.hypot() < 1e-9 } else { (d.cross(w) / l).abs() < 1e-6 * (1.0 + l) && d.dot(w) > -1e-6 * l && d.dot(w) < l * l * (1.0 + 1e-6) }
    };
    f(s[1]) && f(s[2])
}
fn seg_eq(p: &[Point; 4], q: &[Point; 4]) -> bool {
    if !eqp(p[0], q[0]) || !eqp(p[3], q[3]) {
        return false;
    }
    (eqp(p[1], q[1]) && eqp(p[2], q[2])) || (line(p) && line(q))
}
/// Whether each subpath is closed matters for strokes; subpaths that go nowhere do not.
fn closed_flags(p: &[PathEl]) -> Vec<bool> {
    let mut out: Vec<bool> = vec![];
    let (mut some, mut cur) = (false, Point::ZERO);
    for e in p {
        match e {
            PathEl::MoveTo(a) => {
                if some {
                    out.push(false)
                }
                some = false;
                cur = *a;
            }
            PathEl::ClosePath => {
                if some {
                    out.push(true)
                }
                some = false;
            }
            PathEl::LineTo(a) => {
                some |= *a != cur;
                cur = *a;
            }
            PathEl::QuadTo(b, a) => {
                some |= *a != cur || *b != cur;
                cur = *a;
            }
            PathEl::CurveTo(b, c, a) => {
                some |= *a != cur || *b != cur || *c != cur;
                cur = *a;
            }
        }
    }
    if some {
        out.push(false)
    }
    out
}
fn samples(s: &[[Point; 4]]) -> Vec<(Point, Point)> {
    let mut out = vec![];
    for q in s {
        let n = 24;
        for k in 0..n {
            out.push((at(q, k as f64 / n as f64), at(q, (k + 1) as f64 / n as f64)));
        }
    }
    out
}
fn dist(p: Point, s: &(Point, Point)) -> f64 {
    let d = s.1 - s.0;
    let l2 = d.hypot2();
    let t = if l2 > 0.0 { ((p - s.0).dot(d) / l2).clamp(0.0, 1.0) } else { 0.0 };
    (s.0 + d * t).distance(p)
}
/// Pieces of a path (runs of connected segments) with their lengths, as chords.
fn pieces(s: &[[Point; 4]]) -> Vec<(f64, Vec<(Point, Point)>)> {
    let mut out: Vec<(f64, Vec<(Point, Point)>)> = vec![];
    let mut pen = None;
    for q in s {
        let c = samples(std::slice::from_ref(q));
        let l: f64 = c.iter().map(|s| s.0.distance(s.1)).sum();
        match out.last_mut() {
            Some(p) if pen.is_some_and(|e: Point| e.distance(q[0]) < 1e-6 * (1.0 + e.to_vec2().hypot())) => {
                p.0 += l;
                p.1.extend(c);
            }
            _ => out.push((l, c)),
        }
        pen = Some(q[3]);
    }
    out
}
/// The same curve up to a shift of where it is cut. A cut that falls next to the end of a piece
/// leaves or loses a sliver of it, so slivers count only towards the length.
fn near_paths(x: &[[Point; 4]], y: &[[Point; 4]], tol: f64) -> bool {
    let (a, b) = (pieces(x), pieces(y));
    let la: f64 = a.iter().map(|s| s.0).sum();
    let lb: f64 = b.iter().map(|s| s.0).sum();
    if (la - lb).abs() > tol * 2.0 + 0.001 * la.max(lb) {
        return false;
    }
    if la < tol * 2.0 || lb < tol * 2.0 {
        return true;
    }
    let cover = |a: &[(f64, Vec<(Point, Point)>)], b: &[(f64, Vec<(Point, Point)>)]| {
        a.iter().filter(|p| p.0 > tol).all(|p| p.1.iter().all(|s| b.iter().any(|q| q.1.iter().any(|t| dist(s.0, t) <= tol))))
    };
    cover(&a, &b) && cover(&b, &a)
}

#[derive(Clone)]
enum Item {
    Child(String),
    Push(Op),
    Pop,
    Draw(Op, f64),
}
#[derive(Default)]
struct Tree {
    /// group key -> (index, own items)
    groups: BTreeMap<String, (usize, Vec<Item>)>,
    bad: Option<String>,
}
fn tree<'a>(ops: impl Iterator<Item = (&'a Op, f64)>) -> Tree {
    let mut t = Tree::default();
    t.groups.insert(String::new(), (0, vec![]));
    // (key, is group)
    let mut stack: Vec<(String, u8)> = vec![(String::new(), 0)];
    let mut seen: HashMap<String, usize> = HashMap::new();
    for (n, (op, tol)) in ops.enumerate() {
        let key = stack.last().unwrap().0.clone();
        let own = |t: &mut Tree, i: Item| t.groups.get_mut(&key).unwrap().1.push(i);
        match op {
            Op::Begin { name, index } => {
                let base = format!("{key}/{name}");
                let k = seen.entry(base.clone()).or_insert(0);
                *k += 1;
                let g = if *k == 1 { base } else { format!("{base}#{k}") };
                own(&mut t, Item::Child(g.clone()));
                t.groups.insert(g.clone(), (*index, vec![]));
                stack.push((g, 1));
            }
            Op::End => {
                if stack.last().unwrap().1 != 1 {
                    t.bad = Some(format!("call {n}: layer group ended while something else is open"));
                    return t;
                }
                stack.pop();
            }
            Op::PushLayer { .. } | Op::PushClip { .. } => {
                own(&mut t, Item::Push(op.clone()));
                stack.push((key.clone(), 2));
            }
            Op::Pop => {
                if stack.last().unwrap().1 != 2 {
                    t.bad = Some(format!("call {n}: pop without a matching push"));
                    return t;
                }
                stack.pop();
                own(&mut t, Item::Pop);
            }
            Op::Draw { .. } => own(&mut t, Item::Draw(op.clone(), tol)),
        }
    }
    if stack.len() != 1 {
        t.bad = Some(format!("{} pushes or groups left open", stack.len() - 1));
    }
    t
}
/// Structural check that needs no model.
pub fn nesting(ops: &[Op], w: f64, h: f64, t: Affine) -> Vec<Diff> {
    let mut out = vec![];
    let tr = tree(ops.iter().map(|o| (o, 0.0)));
    if let Some(b) = tr.bad {
        out.push(Diff { aspect: Aspect::Nesting, at: String::new(), what: b });
    }
    let canvas = crate::model::rect_path(w, h);
    let ok_first = matches!(ops.first(), Some(Op::PushClip { t: x, path }) if close_aff(*x, t, 1e-9) && same_path(&canvas, path, 0.0));
    if !ok_first {
        out.push(Diff { aspect: Aspect::Canvas, at: String::new(), what: format!("first call is {:?}", ops.first().map(brief)) });
    }
    if !matches!(ops.last(), Some(Op::Pop)) {
        out.push(Diff { aspect: Aspect::Canvas, at: String::new(), what: format!("last call is {:?}", ops.last().map(brief)) });
    }
    // the canvas clip must enclose everything: depth returns to zero only at the end
    let mut d = 0i64;
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::PushLayer { .. } | Op::PushClip { .. } | Op::Begin { .. } => d += 1,
            Op::Pop | Op::End => d -= 1,
            _ => {}
        }
        if d <= 0 && i + 1 < ops.len() {
            out.push(Diff { aspect: Aspect::Canvas, at: String::new(), what: format!("canvas closed at call {i} of {}", ops.len()) });
            break;
        }
    }
    out
}
pub fn brief(o: &Op) -> String {
    match o {
        Op::PushLayer { blend, alpha, t, path } => format!("push_layer({blend:?}, {alpha}, {:?}, {} els)", t.as_coeffs(), path.len()),
        Op::PushClip { t, path } => format!("push_clip({:?}, {} els {:?})", t.as_coeffs(), path.len(), path.get(1)),
        Op::Pop => "pop".into(),
        Op::Draw { stroke, t, brush, path } => format!("draw({:?}, {:?}, {brush:?}, {:?})", stroke.as_ref().map(|s| s.width), t.as_coeffs(), path),
        Op::Begin { name, index } => format!("begin({name}, {index})"),
        Op::End => "end".into(),
    }
}
fn has_nan(o: &Op) -> bool {
    let ta = |t: &Affine| t.as_coeffs().iter().any(|x| !x.is_finite());
    match o {
        Op::PushLayer { t, path, alpha, .. } => ta(t) || nan_path(path) || !alpha.is_finite(),
        Op::PushClip { t, path } => ta(t) || nan_path(path),
        Op::Draw { stroke, t, brush, path } => ta(t) || nan_path(path) || brush_nan(brush) || stroke.as_ref().map_or(false, |s| !s.width.is_finite()),
        _ => false,
    }
}
fn brush_nan(b: &Brush) -> bool {
    match b {
        Brush::Solid(c) => c.components.iter().any(|x| !x.is_finite()),
        Brush::Gradient(g) => g.stops.iter().any(|s| !s.offset.is_finite() || s.color.components.iter().any(|x| !x.is_finite())),
        _ => false,
    }
}

/// All differences between what was expected and what a sink got.
pub fn compare(exp: &[E], act: &[Op]) -> Vec<Diff> {
    let (x, y) = (tree(exp.iter().map(|e| (&e.op, e.tol))), tree(act.iter().map(|o| (o, 0.0))));
    let mut out: Vec<Diff> = vec![];
    let diff = |a: Aspect, at: &str, what: String| Diff { aspect: a, at: at.to_string(), what };
    if let Some(o) = act.iter().find(|o| has_nan(o)) {
        out.push(diff(Aspect::NaN, "", brief(o)));
    }
    if let Some(b) = y.bad {
        out.push(diff(Aspect::Nesting, "", b));
        return out;
    }
    let kids = |v: &Vec<Item>| -> Vec<String> { v.iter().filter_map(|i| if let Item::Child(c) = i { Some(c.clone()) } else { None }).collect() };
    for (k, (xi, xs)) in &x.groups {
        let Some((yi, ys)) = y.groups.get(k) else { continue };
        if xi != yi {
            out.push(diff(Aspect::Index, k, format!("position {yi} announced, {xi} expected")));
        }
        let (xc, yc) = (kids(xs), kids(ys));
        if xc != yc {
            let (mut a, mut b) = (xc.clone(), yc.clone());
            a.sort();
            b.sort();
            let asp = if a == b { Aspect::Order } else { Aspect::Group };
            out.push(diff(asp, k, format!("layers drawn {yc:?}, expected {xc:?}")));
        }
        // compare the rest without the layers only one side has
        let both: Vec<&String> = xc.iter().filter(|c| yc.contains(c)).collect();
        let strip = |v: &Vec<Item>| -> Vec<Item> {
            v.iter().filter(|i| if let Item::Child(c) = i { both.contains(&c) } else { true }).cloned().collect()
        };
        let same = |v: &[String]| v.iter().filter(|c| both.contains(c)).cloned().collect::<Vec<_>>();
        if same(&xc) == same(&yc) {
            own(k, &strip(xs), &strip(ys), &mut |a, w| out.push(Diff { aspect: a, at: k.clone(), what: w }));
        }
    }
    out
}
fn skeleton(v: &[Item]) -> Vec<String> {
    let mut s = vec![];
    for i in v {
        match i {
            Item::Child(c) => s.push(format!("G{c}")),
            Item::Push(Op::PushLayer { .. }) => s.push("L".into()),
            Item::Push(_) => s.push("C".into()),
            Item::Pop => s.push("P".into()),
            Item::Draw(..) => {}
        }
    }
    s
}
fn own(_k: &str, xs: &[Item], ys: &[Item], add: &mut dyn FnMut(Aspect, String)) {
    let (a, b) = (skeleton(xs), skeleton(ys));
    if a != b {
        add(Aspect::Layering, format!("structure {b:?}, expected {a:?}"));
        // still say whether the paints themselves are there
        let d = |v: &[Item]| -> Vec<(Op, f64)> { v.iter().filter_map(|i| if let Item::Draw(o, t) = i { Some((o.clone(), *t)) } else { None }).collect() };
        draws(&d(xs), &d(ys), add);
        return;
    }
    // split into runs of draws between structural items
    let runs = |v: &[Item]| -> (Vec<Item>, Vec<Vec<(Op, f64)>>) {
        let (mut st, mut rs) = (vec![], vec![vec![]]);
        for i in v {
            match i {
                Item::Draw(o, t) => rs.last_mut().unwrap().push((o.clone(), *t)),
                o => {
                    st.push(o.clone());
                    rs.push(vec![]);
                }
            }
        }
        (st, rs)
    };
    let ((sx, rx), (sy, ry)) = (runs(xs), runs(ys));
    let mut first_clip = _k.is_empty();
    for (p, q) in sx.iter().zip(&sy) {
        match (p, q) {
            (Item::Push(Op::PushLayer { blend: b1, alpha: a1, t: t1, path: p1 }), Item::Push(Op::PushLayer { blend: b2, alpha: a2, t: t2, path: p2 })) => {
                if b1 != b2 {
                    add(Aspect::Blend, format!("layer blends with {b2:?}, expected {b1:?}"));
                }
                if !eq(*a1 as f64, *a2 as f64, 1e-5) {
                    add(Aspect::Blend, format!("layer alpha {a2}, expected {a1}"));
                }
                if !close_aff(*t1, *t2, TOL) {
                    add(Aspect::ClipPlace, format!("layer placed at {:?}, expected {:?}", t2.as_coeffs(), t1.as_coeffs()));
                }
                if !same_path(p1, p2, 0.0) {
                    add(Aspect::ClipPath, format!("layer bounds {p2:?}, expected {p1:?}"));
                }
            }
            (Item::Push(Op::PushClip { t: t1, path: p1 }), Item::Push(Op::PushClip { t: t2, path: p2 })) => {
                let canvas = std::mem::take(&mut first_clip);
                if !close_aff(*t1, *t2, TOL) {
                    add(if canvas { Aspect::Canvas } else { Aspect::ClipPlace }, format!("clip placed at {:?}, expected {:?}", t2.as_coeffs(), t1.as_coeffs()));
                }
                if !same_path(p1, p2, 0.0) {
                    add(if canvas { Aspect::Canvas } else { Aspect::ClipPath }, format!("clip path {p2:?}, expected {p1:?}"));
                }
            }
            _ => {}
        }
    }
    let mut moved = false;
    for (p, q) in rx.iter().zip(&ry) {
        let vis = |v: &Vec<(Op, f64)>| canon(v).len();
        if (vis(p) == 0) != (vis(q) == 0) {
            moved = true;
        }
    }
    if moved && rx.len() > 1 && rx.iter().map(|v| canon(v).len()).sum::<usize>() == ry.iter().map(|v| canon(v).len()).sum::<usize>() {
        add(Aspect::Layering, "content drawn outside its clips or layers".into());
    }
    for (p, q) in rx.iter().zip(&ry) {
        draws(p, q, add);
    }
}
fn parts(o: &Op) -> (&Option<kurbo::Stroke>, Affine, &Brush, &Vec<PathEl>) {
    match o {
        Op::Draw { stroke, t, brush, path } => (stroke, *t, brush, path),
        _ => unreachable!(),
    }
}
fn invisible(b: &Brush) -> bool {
    match b {
        Brush::Solid(c) => c.components[3] == 0.0,
        Brush::Gradient(g) => !g.stops.is_empty() && g.stops.iter().all(|s| s.color.components[3] == 0.0),
        _ => false,
    }
}
/// Draws that leave marks, neighbours with the same look and place joined.
fn canon(v: &[(Op, f64)]) -> Vec<(Op, f64)> {
    let mut out: Vec<(Op, f64)> = vec![];
    for (o, tol) in visible(v) {
        let (s, t, b, p) = parts(&o);
        if let Some((l, lt)) = out.last_mut() {
            let (s2, t2, b2, _) = parts(l);
            if same_stroke(s, s2) && close_aff(t, t2, 1e-9) && brush_diff(b2, b).is_none() {
                if let Op::Draw { path, .. } = l {
                    path.extend(p.iter().copied());
                }
                *lt = lt.max(tol);
                continue;
            }
        }
        out.push((o.clone(), tol));
    }
    out
}
fn visible(v: &[(Op, f64)]) -> Vec<(Op, f64)> {
    v.iter()
        .filter(|(o, tol)| {
            let (_, _, b, p) = parts(o);
            let s = drawn(p);
            let len: f64 = if *tol > 0.0 { samples(&s).iter().map(|s| s.0.distance(s.1)).sum() } else { 1.0 };
            !s.is_empty() && !invisible(b) && len > 1e-6
        })
        .cloned()
        .collect()
}
fn same_stroke(a: &Option<kurbo::Stroke>, b: &Option<kurbo::Stroke>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => {
            eq(x.width, y.width, TOL) && x.join == y.join && x.start_cap == y.start_cap && x.end_cap == y.end_cap
                && eq(x.miter_limit, y.miter_limit, 1e-9) && x.dash_pattern.len() == y.dash_pattern.len()
        }
        _ => false,
    }
}
const CTOL: f64 = 1e-4;
fn brush_diff(x: &Brush, y: &Brush) -> Option<(Aspect, String)> {
    let rgb = |a: &[f32; 4], b: &[f32; 4]| (0..3).all(|k| eq(a[k] as f64, b[k] as f64, CTOL));
    let al = |a: &[f32; 4], b: &[f32; 4]| eq(a[3] as f64, b[3] as f64, CTOL);
    match (x, y) {
        (Brush::Solid(a), Brush::Solid(b)) => {
            if !rgb(&a.components, &b.components) {
                return Some((Aspect::Color, format!("colour {:?}, expected {:?}", b.components, a.components)));
            }
            if !al(&a.components, &b.components) {
                return Some((Aspect::Alpha, format!("alpha {}, expected {}", b.components[3], a.components[3])));
            }
            None
        }
        (Brush::Gradient(a), Brush::Gradient(b)) => {
            let geo = match (&a.kind, &b.kind) {
                (GradientKind::Linear(p), GradientKind::Linear(q)) => eqp(p.start, q.start) && eqp(p.end, q.end),
                (GradientKind::Radial(p), GradientKind::Radial(q)) => {
                    eqp(p.start_center, q.start_center) && eqp(p.end_center, q.end_center)
                        && eq(p.start_radius as f64, q.start_radius as f64, TOL) && eq(p.end_radius as f64, q.end_radius as f64, TOL)
                }
                _ => false,
            };
            if !geo {
                return Some((Aspect::Color, format!("gradient {:?}, expected {:?}", b.kind, a.kind)));
            }
            if a.stops.len() != b.stops.len() {
                return Some((Aspect::Color, format!("{} stops, expected {}", b.stops.len(), a.stops.len())));
            }
            for (p, q) in a.stops.iter().zip(b.stops.iter()) {
                if !eq(p.offset as f64, q.offset as f64, CTOL) || !rgb(&p.color.components, &q.color.components) {
                    return Some((Aspect::Color, format!("stop {q:?}, expected {p:?}")));
                }
                if !al(&p.color.components, &q.color.components) {
                    return Some((Aspect::Alpha, format!("stop alpha {}, expected {}", q.color.components[3], p.color.components[3])));
                }
            }
            None
        }
        _ => Some((Aspect::Color, format!("brush {y:?}, expected {x:?}"))),
    }
}
fn pairwise(x: &[(Op, f64)], y: &[(Op, f64)]) -> Vec<(Aspect, String)> {
    let mut out = vec![];
    for (n, ((p, tol), (q, _))) in x.iter().zip(y).enumerate() {
        let ((s1, t1, b1, p1), (s2, t2, b2, p2)) = (parts(p), parts(q));
        if !same_stroke(s1, s2) {
            out.push((Aspect::Stroke, format!("paint {n}: stroke {s2:?}, expected {s1:?}")));
        }
        if !close_aff(t1, t2, TOL) {
            out.push((Aspect::Place, format!("paint {n}: placed at {:?}, expected {:?}", t2.as_coeffs(), t1.as_coeffs())));
        }
        if let Some((a, w)) = brush_diff(b1, b2) {
            out.push((a, format!("paint {n}: {w}")));
        }
        if !same_path(p1, p2, *tol) {
            out.push((Aspect::Path, format!("paint {n}: path {p2:?}, expected {p1:?}")));
        }
    }
    out
}
fn draws(x: &[(Op, f64)], y: &[(Op, f64)], add: &mut dyn FnMut(Aspect, String)) {
    let (vx, vy) = (visible(x), visible(y));
    if vx.len() == vy.len() {
        let d = pairwise(&vx, &vy);
        if d.is_empty() {
            return;
        }
        let (cx, cy) = (canon(x), canon(y));
        if cx.len() == cy.len() && pairwise(&cx, &cy).is_empty() {
            return;
        }
        for (a, w) in d {
            add(a, w);
        }
        return;
    }
    let (cx, cy) = (canon(x), canon(y));
    let d = if cx.len() == cy.len() { Some(pairwise(&cx, &cy)) } else { None };
    match d {
        Some(d) if d.is_empty() => {
            // same marks; but one shape painted as several pieces doubles up where they overlap
            if vy.len() > vx.len() {
                add(Aspect::Paint, format!("{} separate shapes painted, expected {}", vy.len(), vx.len()));
            }
        }
        _ => {
            let a = if vx.is_empty() { Aspect::Extra } else { Aspect::Paint };
            add(a, format!("{} shapes painted, expected {}", vy.len(), vx.len()));
            // what matches in sequence may still differ in looks
            if let Some(d) = d {
                for (a, w) in d {
                    add(a, w);
                }
            }
        }
    }
}

/// Bit-exact digest of a stream.
pub fn digest(ops: &[Op]) -> u64 {
    let mut h = 0u64;
    let mut m = |x: u64| h = crate::rng::mix(h, x);
    fn aff(t: &Affine, m: &mut dyn FnMut(u64)) {
        for c in t.as_coeffs() {
            m(c.to_bits())
        }
    }
    fn pt(p: &Point, m: &mut dyn FnMut(u64)) {
        m(p.x.to_bits());
        m(p.y.to_bits())
    }
    fn path(p: &[PathEl], m: &mut dyn FnMut(u64)) {
        m(p.len() as u64);
        for e in p {
            match e {
                PathEl::MoveTo(a) => {
                    m(1);
                    pt(a, m)
                }
                PathEl::LineTo(a) => {
                    m(2);
                    pt(a, m)
                }
                PathEl::QuadTo(a, b) => {
                    m(3);
                    pt(a, m);
                    pt(b, m)
                }
                PathEl::CurveTo(a, b, c) => {
                    m(4);
                    pt(a, m);
                    pt(b, m);
                    pt(c, m)
                }
                PathEl::ClosePath => m(5),
            }
        }
    }
    for o in ops {
        match o {
            Op::PushLayer { blend, alpha, t, path: p } => {
                m(10);
                m(blend.mix as u64 * 64 + blend.compose as u64);
                m(alpha.to_bits() as u64);
                aff(t, &mut m);
                path(p, &mut m);
            }
            Op::PushClip { t, path: p } => {
                m(11);
                aff(t, &mut m);
                path(p, &mut m);
            }
            Op::Pop => m(12),
            Op::Draw { stroke, t, brush, path: p } => {
                m(13);
                if let Some(s) = stroke {
                    m(s.width.to_bits());
                    m(s.miter_limit.to_bits());
                    m(s.join as u64 * 64 + s.start_cap as u64 * 8 + s.end_cap as u64);
                    m(s.dash_pattern.len() as u64);
                }
                aff(t, &mut m);
                m(crate::rng::hash_bytes(format!("{brush:?}").as_bytes()));
                path(p, &mut m);
            }
            Op::Begin { name, index } => {
                m(14);
                m(crate::rng::hash_bytes(name.as_bytes()));
                m(*index as u64);
            }
            Op::End => m(15),
        }
    }
    h
}

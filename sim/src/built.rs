//! Compositions put together by hand, through the public model, from a lowered document. The same value can be
//! written in several ways (fixed, a single keyframe, keyframes of one value); which one is drawn from a seed.
use crate::model as m;
use crate::rng::Rng;
use kurbo::{Point, Size, Vec2};
use peniko::{Brush, Color, Gradient};
use subject::velato::model::{self as v, animated, Animated, EasingHandle, Time, Tween, Value};
use subject::velato::Composition;

fn time(r: &mut Rng, t: f64, o: (f64, f64), i: (f64, f64), hold: bool) -> Time {
    let h = |r: &mut Rng, p: (f64, f64), d: (f64, f64)| if p == d && r.chance(0.5) { None } else { Some(EasingHandle { x: p.0, y: p.1 }) };
    Time { frame: t, out_tangent: h(r, o, (0.0, 0.0)), in_tangent: h(r, i, (1.0, 1.0)), hold }
}
fn any_time(r: &mut Rng, t: f64) -> Time {
    let hold = r.chance(0.3);
    time(r, t, (0.25, 0.5), (0.75, 0.5), hold)
}
fn val<T: Tween>(r: &mut Rng, a: &m::Anim, f: impl Fn(&[f64]) -> T) -> Value<T> {
    match a {
        m::Anim::Static(x) => {
            let t = f(x);
            if r.chance(0.85) {
                Value::Fixed(t)
            } else {
                // keyframes of one value, or values nothing refers to
                let n = r.range(1, 3) as usize;
                let t0 = r.grid(-100.0, 100.0, 4.0);
                let times: Vec<Time> = (0..n).map(|k| any_time(r, t0 + 7.0 * k as f64)).collect();
                let extra = r.chance(0.2) as usize;
                Value::Animated(Animated { times, values: vec![t; n + extra] })
            }
        }
        m::Anim::Keys(ks) => Value::Animated(Animated { times: ks.iter().map(|k| time(r, k.t, k.o, k.i, k.hold)).collect(), values: ks.iter().map(|k| f(&k.v)).collect() }),
    }
}
fn num(r: &mut Rng, a: &m::Anim) -> Value<f64> {
    val(r, a, |x| x[0])
}
fn pt(r: &mut Rng, a: &m::Anim) -> Value<Point> {
    val(r, a, |x| Point::new(x[0], x[1]))
}
fn vec2(r: &mut Rng, a: &m::Anim) -> Value<Vec2> {
    val(r, a, |x| Vec2::new(x[0], x[1]))
}
fn size(r: &mut Rng, a: &m::Anim) -> Value<Size> {
    val(r, a, |x| Size::new(x[0], x[1]))
}
fn fixed(r: &mut Rng) -> m::Ctx {
    let _ = r;
    m::Ctx { inexact: false, unspec: false, why: "" }
}
fn still(xs: &[&m::Anim]) -> bool {
    xs.iter().all(|a| matches!(a, m::Anim::Static(_)))
}
fn xf(r: &mut Rng, x: &m::Xf) -> v::Transform {
    let parts = match &x.pos {
        Ok(p) => vec![p],
        Err((p, q)) => vec![p, q],
    };
    let fixed = r.chance(0.4) && still(&[&x.anchor, &x.scale, &x.rot, &x.skew, &x.axis]) && still(&parts);
    let t = animated::Transform {
        anchor: pt(r, &x.anchor),
        position: match &x.pos {
            Ok(p) => animated::Position::Value(pt(r, p)),
            Err((a, b)) => animated::Position::SplitValues((num(r, a), num(r, b))),
        },
        rotation: num(r, &x.rot),
        scale: vec2(r, &x.scale),
        skew: num(r, &x.skew),
        skew_angle: num(r, &x.axis),
    };
    if fixed {
        // (whether outlines merge depends on the last bit of where a group is)
        v::Transform::Fixed(t.evaluate(r.grid(-10.0, 90.0, 1.0)))
    } else if r.chance(0.5) {
        t.into_model()
    } else {
        v::Transform::Animated(t)
    }
}
fn points(b: &m::Bez) -> Vec<Point> {
    (0..b.v.len()).flat_map(|k| [b.v[k], b.i[k].to_point(), b.o[k].to_point()]).collect()
}
fn path(r: &mut Rng, p: &m::PathA) -> v::Geometry {
    match p {
        m::PathA::Static(b, closed) => {
            if r.chance(0.6) {
                let mut c = fixed(r);
                v::Geometry::Fixed(p.at(0.0, &mut c))
            } else {
                let n = r.range(1, 3) as usize;
                let times = (0..n).map(|k| any_time(r, 7.0 * k as f64)).collect();
                let values = (0..n).map(|_| animated::SplineKeyframeValues { start: points(b), end: r.chance(0.3).then(|| points(b)) }).collect();
                v::Geometry::Spline(animated::Spline { is_closed: *closed, times, values })
            }
        }
        m::PathA::Keys(ks, closed) => v::Geometry::Spline(animated::Spline {
            is_closed: *closed,
            times: ks.iter().map(|k| time(r, k.t, k.o, k.i, k.hold)).collect(),
            values: ks.iter().map(|k| animated::SplineKeyframeValues { start: points(&k.s), end: k.e.as_ref().map(points) }).collect(),
        }),
    }
}
fn geo(r: &mut Rng, g: &m::Geo) -> v::Geometry {
    match g {
        m::Geo::Rect { p, s, r: rad } => v::Geometry::Rect(animated::Rect { is_ccw: false, position: pt(r, p), size: size(r, s), corner_radius: num(r, rad) }),
        m::Geo::Ellipse { p, s } => v::Geometry::Ellipse(animated::Ellipse { is_ccw: false, position: pt(r, p), size: size(r, s) }),
        m::Geo::Path(p) => path(r, p),
        m::Geo::Raw(p) => v::Geometry::Fixed(p.clone()),
        m::Geo::Star { polygon, p, or, os, ir, is, r: rot, pt: n } => {
            let s = animated::Star {
                is_polygon: *polygon,
                direction: 1.0,
                position: pt(r, p),
                inner_radius: num(r, ir),
                inner_roundness: num(r, is),
                outer_radius: num(r, or),
                outer_roundness: num(r, os),
                rotation: num(r, rot),
                points: num(r, n),
            };
            if r.chance(0.5) {
                s.into_model()
            } else {
                v::Geometry::Star(s)
            }
        }
    }
}
fn stops(x: &[f64], n: usize) -> peniko::ColorStops {
    let mut s = peniko::ColorStops::default();
    for c in x.chunks(5).take(n) {
        s.push((c[0] as f32, Color::new([c[1] as f32, c[2] as f32, c[3] as f32, c[4] as f32])).into());
    }
    s
}
fn paint(r: &mut Rng, p: &m::Paint) -> v::Brush {
    let color = |x: &[f64]| Color::new([x[0] as f32, x[1] as f32, x[2] as f32, 1.0]);
    let b = match p {
        m::Paint::Solid(m::Anim::Static(c)) if r.chance(0.5) => return v::Brush::Fixed(color(c).into()),
        m::Paint::Solid(c) => animated::Brush::Solid(val(r, c, color)),
        m::Paint::Grad { radial, s: m::Anim::Static(s), e: m::Anim::Static(e), stops: m::Anim::Static(k), count } if r.chance(0.4) => {
            let (s, e) = (Point::new(s[0], s[1]), Point::new(e[0], e[1]));
            let mut g = if *radial { Gradient::new_radial(s, (e - s).hypot() as f32) } else { Gradient::new_linear(s, e) };
            g.stops = stops(k, *count);
            return v::Brush::Fixed(Brush::Gradient(g));
        }
        m::Paint::Grad { radial, s, e, stops: k, count } => animated::Brush::Gradient(animated::Gradient {
            is_radial: *radial,
            start_point: pt(r, s),
            end_point: pt(r, e),
            stops: match k {
                m::Anim::Static(k) if r.chance(0.7) => v::ColorStops::Fixed(stops(k, *count)),
                m::Anim::Static(k) => {
                    let n = r.range(1, 2) as usize;
                    v::ColorStops::Animated(animated::ColorStops { frames: (0..n).map(|i| any_time(r, 9.0 * i as f64)).collect(), values: vec![k[..5 * count].to_vec(); n], count: *count })
                }
                m::Anim::Keys(ks) => v::ColorStops::Animated(animated::ColorStops { frames: ks.iter().map(|k| time(r, k.t, k.o, k.i, k.hold)).collect(), values: ks.iter().map(|k| k.v.clone()).collect(), count: *count }),
            },
        }),
    };
    if r.chance(0.5) {
        b.into_model()
    } else {
        v::Brush::Animated(b)
    }
}
fn stroke(r: &mut Rng, s: &m::Stroke) -> v::Stroke {
    let cap = match s.cap {
        1 => kurbo::Cap::Butt,
        2 => kurbo::Cap::Round,
        _ => kurbo::Cap::Square,
    };
    let join = match s.join {
        1 => kurbo::Join::Miter,
        2 => kurbo::Join::Round,
        _ => kurbo::Join::Bevel,
    };
    match &s.w {
        m::Anim::Static(w) if r.chance(0.5) => {
            let mut k = kurbo::Stroke::new(w[0]).with_caps(cap).with_join(join);
            if let Some(l) = s.miter {
                k = k.with_miter_limit(l);
            }
            v::Stroke::Fixed(k)
        }
        w => {
            let k = animated::Stroke { width: num(r, w), join, miter_limit: s.miter, cap };
            if r.chance(0.5) {
                k.into_model()
            } else {
                v::Stroke::Animated(k)
            }
        }
    }
}
fn hollow(it: &m::Item) -> bool {
    matches!(it, m::Item::Group { items, .. } if items.iter().all(hollow))
}
fn items(r: &mut Rng, its: &[m::Item]) -> Vec<v::Shape> {
    its.iter()
        // (groups of nothing are not loaded; whether they keep paths apart is nobody's business)
        .filter(|it| !hollow(it))
        .map(|it| match it {
            m::Item::Geo(g) => v::Shape::Geometry(geo(r, g)),
            m::Item::Paint { stroke: s, paint: p, opacity } => v::Shape::Draw(v::Draw { stroke: s.as_ref().map(|s| stroke(r, s)), brush: paint(r, p), opacity: num(r, opacity) }),
            m::Item::Group { items: inner, xf: x } => {
                let inner = items(r, inner);
                let x = match x {
                    Some((x, o)) => Some(v::GroupTransform { transform: xf(r, x), opacity: num(r, o) }),
                    None if r.chance(0.3) => Some(v::GroupTransform { transform: v::Transform::default(), opacity: Value::Fixed(100.0) }),
                    None => None,
                };
                v::Shape::Group(inner, x)
            }
            m::Item::Trim { s, e, o } => {
                let t = animated::Trim { start: num(r, s), end: num(r, e), offset: num(r, o) };
                v::Shape::Trim(if r.chance(0.5) { t.into_model() } else { v::Trim::Animated(t) })
            }
            m::Item::Repeat(p) => {
                let t = animated::Repeater {
                    copies: num(r, &p.copies),
                    offset: num(r, &p.offset),
                    anchor_point: pt(r, &p.anchor),
                    position: pt(r, &p.pos),
                    rotation: num(r, &p.rot),
                    scale: vec2(r, &p.scale),
                    start_opacity: num(r, &p.so),
                    end_opacity: num(r, &p.eo),
                };
                v::Shape::Repeater(if r.chance(0.5) { t.into_model() } else { v::Repeater::Animated(t) })
            }
        })
        .collect()
}
fn layers(r: &mut Rng, ls: &[m::Layer]) -> Vec<v::Layer> {
    ls.iter()
        .map(|l| v::Layer {
            name: l.name.clone(),
            parent: l.parent,
            transform: xf(r, &l.xf),
            opacity: num(r, &l.opacity),
            width: 0.0,
            height: 0.0,
            blend_mode: None,
            frames: l.ip..l.op,
            stretch: l.sr,
            start_frame: l.st,
            masks: l.masks.iter().map(|p| v::Mask { mode: peniko::Mix::Normal.into(), geometry: path(r, p), opacity: Value::Fixed(100.0) }).collect(),
            is_mask: l.td,
            mask_layer: l.matte.map(|(mode, k)| (m::matte_mode(mode), k)),
            content: match &l.kind {
                m::Kind::Empty => v::Content::None,
                m::Kind::Shapes(s) => v::Content::Shape(items(r, s)),
                m::Kind::Instance(n) => v::Content::Instance { name: n.clone(), time_remap: None },
            },
        })
        .collect()
}
pub fn build(d: &m::Doc, seed: u64) -> Composition {
    let mut r = Rng::new(seed);
    let mut c = Composition::default();
    edit(&mut c, d, &mut r);
    c
}
/// Turns a composition, whatever it holds, into this one.
pub fn edit(c: &mut Composition, d: &m::Doc, r: &mut Rng) {
    c.frames = d.ip..d.op;
    c.frame_rate = d.fr;
    c.width = d.w as usize;
    c.height = d.h as usize;
    let ls = layers(r, &d.layers);
    if r.chance(0.5) {
        // in place, one by one
        c.layers.truncate(ls.len());
        for (k, l) in ls.into_iter().enumerate() {
            match c.layers.get_mut(k) {
                Some(o) => *o = l,
                None => c.layers.push(l),
            }
        }
    } else {
        c.layers = ls;
    }
    c.assets.retain(|k, _| d.assets.contains_key(k));
    let mut names: Vec<&String> = d.assets.keys().collect();
    names.sort();
    for n in names {
        let ls = layers(r, &d.assets[n]);
        match c.assets.get_mut(n) {
            Some(o) if r.chance(0.5) => {
                o.clear();
                o.extend(ls);
            }
            _ => {
                c.assets.insert(n.clone(), ls);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ what only the public model can say
use serde_json::{json, Value as J};

fn prop(r: &mut Rng, anim: f64, mut one: impl FnMut(&mut Rng) -> Vec<f64>) -> J {
    let first = one(r);
    if !r.chance(anim) {
        return json!({"a": 0, "k": first});
    }
    let mut t = r.grid(-5.0, 40.0, 1.0);
    let mut ks = vec![];
    for _ in 0..r.range(1, 4) {
        let mut k = json!({"t": t, "s": one(r)});
        if r.chance(0.25) {
            k["h"] = json!(1);
        }
        if r.chance(0.5) {
            let g = |r: &mut Rng| r.grid(0.0, 1.0, 10.0);
            k["o"] = json!({"x": g(r), "y": g(r)});
            k["i"] = json!({"x": g(r), "y": g(r)});
        }
        ks.push(k);
        t += r.grid(1.0, 30.0, 1.0);
    }
    json!({"a": 1, "k": ks})
}
fn repeater(r: &mut Rng, most: i64) -> J {
    let share = *r.pick(&[0.0, 0.0, 0.3]);
    // often one property only keeps moving
    let one = if r.chance(0.3) { Some(r.below(8)) } else { None };
    let an = |k: usize| one.map_or(share, |o| if o == k { 1.0 } else { 0.0 });
    let whole = r.chance(0.6);
    let plain = r.chance(0.3);
    json!({
        "ty": "x-repeat",
        "c": prop(r, an(0), |r| vec![if r.chance(0.08) { 0.0 } else { r.range(1, most.max(1)) as f64 }]),
        "o": prop(r, if whole { 0.0 } else { an(1) }, |r| vec![if plain { 0.0 } else if whole { r.range(-2, 3) as f64 } else { r.grid(-2.0, 3.0, 4.0) }]),
        "a": prop(r, an(2), |r| vec![r.grid(-60.0, 60.0, 1.0), r.grid(-60.0, 60.0, 1.0)]),
        "p": prop(r, an(3), |r| if r.chance(0.1) { vec![0.0, 0.0] } else { vec![r.grid(-80.0, 80.0, 2.0), r.grid(-80.0, 80.0, 2.0)] }),
        "r": prop(r, an(4), |r| vec![if plain { 0.0 } else { r.grid(-90.0, 180.0, 1.0) }]),
        "s": prop(r, an(5), |r| if plain { vec![100.0, 100.0] } else { let f = if whole && r.chance(0.2) { -1.0 } else { 1.0 }; vec![f * r.grid(60.0, 130.0, 1.0), r.grid(60.0, 130.0, 1.0)] }),
        "so": prop(r, an(6), |r| vec![*r.pick(&[100.0, 100.0, 100.0, 0.0, 50.0]) * if r.chance(0.4) { r.grid(0.0, 1.0, 100.0) } else { 1.0 }]),
        "eo": prop(r, an(7), |r| vec![*r.pick(&[100.0, 100.0, 100.0, 0.0, 50.0]) * if r.chance(0.4) { r.grid(0.0, 1.0, 100.0) } else { 1.0 }]),
    })
}
/// An outline no document can hold: quadratic pieces, several subpaths, open and closed ones.
fn outline(r: &mut Rng) -> J {
    let mut d = String::new();
    for _ in 0..r.range(1, 3) {
        let p = |r: &mut Rng| format!("{} {}", r.grid(-100.0, 300.0, 1.0), r.grid(-100.0, 300.0, 1.0));
        d += &format!("M{}", p(r));
        for _ in 0..r.range(1, 5) {
            d += &match r.below(3) {
                0 => format!(" L{}", p(r)),
                1 => format!(" Q{} {}", p(r), p(r)),
                _ => format!(" C{} {} {}", p(r), p(r), p(r)),
            };
        }
        if r.chance(0.5) {
            d += " Z ";
        }
    }
    json!({"ty": "x-raw", "d": d})
}
fn spice_items(r: &mut Rng, its: &mut Vec<J>, repeat: f64, raw: f64, mut budget: i64) {
    if r.chance(raw) {
        let k = r.below(its.len() + 1);
        its.insert(k, outline(r));
    }
    let mut n = 0;
    while n < 2 && r.chance(repeat) && budget > 1 {
        let most = budget.min(5);
        budget /= most;
        let k = if r.chance(0.5) { its.len() } else { r.below(its.len() + 1) };
        its.insert(k, repeater(r, most));
        n += 1;
    }
    for it in its {
        if let Some(J::Array(a)) = it.get_mut("it") {
            spice_items(r, a, repeat, raw, budget);
        }
    }
}
/// Adds repeaters, free outlines and blend modes.
pub fn spice(r: &mut Rng, d: &J, repeat: f64, raw: f64) -> J {
    let mut d = d.clone();
    for (_, l) in crate::props::all_lists(&mut d) {
        for x in l {
            if let Some(J::Array(a)) = x.get_mut("shapes") {
                spice_items(r, a, repeat, raw, 40);
            }
            if x.get("tt").is_some() && raw > 0.0 && r.chance(0.5) {
                x["tt"] = json!(r.range(100, 103));
            }
        }
    }
    d
}
/// Every load of these documents becomes one of the composition built by hand, or an edit of another one.
pub fn by_hand(r: &mut Rng, ops: &mut Vec<crate::scen::Op>, docs: &[usize], other: Option<usize>) {
    use crate::scen::{Op, Route};
    let mut k = 0;
    while k < ops.len() {
        if let Op::Load { slot, doc, route } = &mut ops[k] {
            if docs.contains(doc) {
                let (slot, doc) = (*slot, *doc);
                *route = Route::Built;
                if let (Some(o), true) = (other, r.chance(0.5)) {
                    ops[k] = Op::Edit { slot, doc };
                    ops.insert(k, Op::Load { slot, doc: o, route: *r.pick(&[Route::Built, Route::Slice]) });
                    if r.chance(0.7) {
                        ops.insert(k + 1, Op::Render { slot, rend: r.below(3), frame: r.grid(0.0, 60.0, 1.0), tr: crate::scen::IDENT, alpha: 1.0, crash: if r.chance(0.2) { Some(r.below(20) as u64) } else { None } });
                        k += 1;
                    }
                    k += 1;
                }
            }
        }
        k += 1;
    }
}

// ------------------------------------------------------------------------------------------ inconsistent by hand
const ODD: &[f64] = &[0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e-9, 1e9, -1e9, 1e18, 1e300, -1e300, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
const FAR: &[f64] = &[0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 1e-9, 1e9, -1e9, 1e18];
struct Twist<'a> {
    r: &'a mut Rng,
    q: f64,
    /// instances that may still be pointed elsewhere (every one multiplies what is drawn)
    refs: usize,
    odd: &'static [f64],
}
impl Twist<'_> {
    fn hit(&mut self) -> bool {
        self.r.chance(self.q)
    }
    fn f(&mut self, x: &mut f64) {
        if self.hit() {
            *x = *self.r.pick(self.odd);
        }
    }
    fn times(&mut self, ts: &mut Vec<Time>) {
        if self.hit() {
            match self.r.below(6) {
                0 => ts.clear(),
                1 => ts.reverse(),
                2 => {
                    if let Some(t) = ts.last().copied() {
                        ts.push(t)
                    }
                }
                3 => ts.truncate(1),
                4 => {
                    let n = ts.len();
                    if n > 0 {
                        let k = self.r.below(n);
                        ts[k].frame = *self.r.pick(ODD);
                    }
                }
                _ => {
                    for t in ts {
                        let h = EasingHandle { x: *self.r.pick(ODD), y: *self.r.pick(ODD) };
                        t.out_tangent = Some(h);
                        t.in_tangent = if self.r.chance(0.5) { None } else { Some(EasingHandle { x: h.y, y: h.x }) };
                    }
                }
            }
        }
    }
    fn val<T: Tween>(&mut self, v: &mut Value<T>, mut f: impl FnMut(&mut Self, &mut T)) {
        match v {
            Value::Fixed(x) => f(self, x),
            Value::Animated(a) => {
                self.times(&mut a.times);
                for x in &mut a.values {
                    f(self, x)
                }
                if self.hit() {
                    let n = self.r.below(a.values.len() + 1);
                    a.values.truncate(n);
                }
            }
        }
    }
    fn num(&mut self, v: &mut Value<f64>) {
        self.val(v, |t, x| t.f(x))
    }
    fn pt(&mut self, v: &mut Value<Point>) {
        self.val(v, |t, x| {
            t.f(&mut x.x);
            t.f(&mut x.y)
        })
    }
    fn xf(&mut self, x: &mut v::Transform) {
        match x {
            v::Transform::Fixed(a) => {
                if self.hit() {
                    let mut c = a.as_coeffs();
                    c[self.r.below(6)] = *self.r.pick(ODD);
                    *a = kurbo::Affine::new(c);
                }
            }
            v::Transform::Animated(t) => {
                self.pt(&mut t.anchor);
                match &mut t.position {
                    animated::Position::Value(p) => self.pt(p),
                    animated::Position::SplitValues((a, b)) => {
                        self.num(a);
                        self.num(b)
                    }
                }
                self.num(&mut t.rotation);
                self.val(&mut t.scale, |t, x| {
                    t.f(&mut x.x);
                    t.f(&mut x.y)
                });
                self.num(&mut t.skew);
                self.num(&mut t.skew_angle);
            }
        }
    }
    fn geo(&mut self, g: &mut v::Geometry) {
        // (measuring an outline without a length takes its time)
        let odd = std::mem::replace(&mut self.odd, FAR);
        self.shape(g);
        self.odd = odd;
    }
    fn shape(&mut self, g: &mut v::Geometry) {
        match g {
            v::Geometry::Fixed(p) => {
                if self.hit() {
                    match self.r.below(4) {
                        0 => p.clear(),
                        1 => p.truncate(1),
                        2 if !p.is_empty() => p.push(kurbo::PathEl::ClosePath),
                        _ => {
                            let k = self.r.below(p.len().max(1));
                            if let Some(kurbo::PathEl::LineTo(x) | kurbo::PathEl::MoveTo(x)) = p.get_mut(k) {
                                x.x = *self.r.pick(FAR);
                            }
                        }
                    }
                }
            }
            v::Geometry::Rect(x) => {
                self.pt(&mut x.position);
                self.val(&mut x.size, |t, s| {
                    t.f(&mut s.width);
                    t.f(&mut s.height)
                });
                self.num(&mut x.corner_radius);
            }
            v::Geometry::Ellipse(x) => {
                self.pt(&mut x.position);
                self.val(&mut x.size, |t, s| {
                    t.f(&mut s.width);
                    t.f(&mut s.height)
                });
            }
            v::Geometry::Spline(s) => {
                self.times(&mut s.times);
                if self.hit() {
                    let n = self.r.below(s.values.len() + 1);
                    s.values.truncate(n);
                }
                for x in &mut s.values {
                    if self.hit() {
                        let n = self.r.below(x.start.len() + 1);
                        x.start.truncate(n);
                    }
                    if self.hit() {
                        let n = self.r.below(7);
                        x.end = Some(vec![Point::new(1.0, 2.0); n]);
                    }
                }
            }
            v::Geometry::Star(s) => {
                for x in [&mut s.inner_radius, &mut s.inner_roundness, &mut s.outer_radius, &mut s.outer_roundness, &mut s.rotation] {
                    self.num(x);
                }
                self.pt(&mut s.position);
                // (a hundred thousand points are a lot to record)
                self.val(&mut s.points, |t, x| {
                    if t.hit() {
                        *x = *t.r.pick(&[0.0, -1.0, -1e300, 0.5, 1.0, 2.0, f64::NAN, f64::NEG_INFINITY, 3.49]);
                    }
                });
            }
        }
    }
    fn items(&mut self, its: &mut Vec<v::Shape>) {
        for it in its.iter_mut() {
            match it {
                v::Shape::Group(a, x) => {
                    self.items(a);
                    if let Some(x) = x {
                        self.xf(&mut x.transform);
                        self.num(&mut x.opacity);
                    }
                    if self.hit() {
                        *x = None;
                    }
                }
                v::Shape::Geometry(g) => self.geo(g),
                v::Shape::Draw(d) => {
                    self.num(&mut d.opacity);
                    match &mut d.stroke {
                        Some(v::Stroke::Fixed(s)) => self.f(&mut s.width),
                        Some(v::Stroke::Animated(s)) => self.num(&mut s.width),
                        None => {}
                    }
                    if let v::Brush::Animated(animated::Brush::Gradient(g)) = &mut d.brush {
                        self.pt(&mut g.start_point);
                        self.pt(&mut g.end_point);
                        if let v::ColorStops::Animated(s) = &mut g.stops {
                            self.times(&mut s.frames);
                            if self.hit() {
                                s.count = *self.r.pick(&[0, 1, 2, 7, 1000, usize::MAX / 8]);
                            }
                            if self.hit() {
                                if let Some(x) = s.values.last_mut() {
                                    x.truncate(3);
                                }
                            }
                        }
                    }
                }
                v::Shape::Repeater(v::Repeater::Animated(p)) => {
                    for x in [&mut p.offset, &mut p.rotation, &mut p.start_opacity, &mut p.end_opacity] {
                        self.num(x);
                    }
                    self.val(&mut p.copies, |t, x| {
                        if t.hit() {
                            *x = *t.r.pick(&[0.0, -1.0, -1e300, f64::NAN, f64::NEG_INFINITY, 0.5, 1.0]);
                        }
                    });
                    self.pt(&mut p.position);
                }
                v::Shape::Repeater(v::Repeater::Fixed(p)) => {
                    self.f(&mut p.offset);
                    self.f(&mut p.scale.x);
                    self.f(&mut p.end_opacity);
                }
                v::Shape::Trim(v::Trim::Fixed(p)) => {
                    self.f(&mut p.start);
                    self.f(&mut p.end);
                    self.f(&mut p.offset);
                }
                v::Shape::Trim(v::Trim::Animated(p)) => {
                    self.num(&mut p.start);
                    self.num(&mut p.end);
                    self.num(&mut p.offset);
                }
            }
        }
        if self.hit() && !its.is_empty() {
            let (a, b) = (self.r.below(its.len()), self.r.below(its.len()));
            its.swap(a, b);
        }
        if self.hit() {
            its.push(v::Shape::Group(vec![], None));
        }
    }
    fn layers(&mut self, ls: &mut Vec<v::Layer>, names: &[String]) {
        let n = ls.len();
        for l in ls.iter_mut() {
            if self.hit() {
                l.parent = Some(*self.r.pick(&[0, n / 2, n, n + 5, usize::MAX]));
            }
            if self.hit() {
                let k = *self.r.pick(&[0, n / 2, n.max(1) - 1, n, n + 7, usize::MAX]);
                l.mask_layer = Some((m::matte_mode(101), k));
            }
            if self.hit() {
                l.is_mask = !l.is_mask;
            }
            self.f(&mut l.stretch);
            self.f(&mut l.start_frame);
            self.f(&mut l.frames.start);
            self.f(&mut l.frames.end);
            self.xf(&mut l.transform);
            self.num(&mut l.opacity);
            for k in &mut l.masks {
                self.geo(&mut k.geometry);
            }
            if self.refs > 0 && self.hit() {
                self.refs -= 1;
                let name = if names.is_empty() || self.r.chance(0.2) { "nowhere".to_string() } else { self.r.pick(names).clone() };
                l.content = v::Content::Instance { name, time_remap: if self.r.chance(0.5) { Some(Value::Fixed(f64::NAN)) } else { None } };
            }
            if let v::Content::Shape(s) = &mut l.content {
                self.items(s);
            }
        }
        if self.hit() {
            ls.push(v::Layer::default());
        }
        if self.hit() && n > 0 {
            ls.remove(0);
        }
    }
}
/// Sets fields of a composition to what no import would leave there.
pub fn twist(c: &mut Composition, seed: u64) {
    let mut r = Rng::new(seed);
    let q = *r.pick(&[0.01, 0.05, 0.2]);
    let mut t = Twist { r: &mut r, q, refs: 3, odd: ODD };
    let mut names: Vec<String> = c.assets.keys().cloned().collect();
    names.sort();
    if t.hit() {
        c.width = 0;
    }
    if t.hit() {
        c.height = 1 << 40;
    }
    t.f(&mut c.frame_rate);
    t.f(&mut c.frames.end);
    t.layers(&mut c.layers, &names);
    for n in &names {
        let ls = c.assets.get_mut(n).unwrap();
        t.layers(ls, &names);
        if t.hit() {
            c.assets.remove(n);
        }
    }
}

//! Renders compositions made by hand and prints what a canvas receives, with coarse rounding.
use std::panic::{catch_unwind, AssertUnwindSafe};
use velato::{Composition, RenderSink, Renderer};
use kurbo::{Affine, PathEl, Shape, Stroke, BezPath};
use velato::model::{animated, fixed, Animated, Content, Draw, EasingHandle, Geometry, GroupTransform, Layer, Repeater, Shape as S, Time, Transform, Value};
use kurbo::{Point, Rect, Size, Vec2};

struct Sink { out: Vec<String>, left: Option<usize>, depth: i64 }
impl Sink {
    fn call(&mut self) {
        if let Some(n) = &mut self.left {
            if *n == 0 { std::panic::resume_unwind(Box::new("sink failed")); }
            *n -= 1;
        }
    }
}
fn num(x: f64) -> String {
    let r = (x * 20.0).round() / 20.0;
    format!("{}", if r == 0.0 { 0.0 } else { r })
}
fn aff(a: Affine) -> String {
    let c = a.as_coeffs();
    format!("[{}]", c.iter().map(|x| format!("{:.3}", x + 0.0).replace("-0.000", "0.000")).collect::<Vec<_>>().join(" "))
}
fn path(s: &impl Shape) -> String {
    let p: BezPath = s.to_path(0.1);
    let mut o = String::new();
    for e in p.elements() {
        let pt = |p: kurbo::Point| format!("{},{}", num(p.x), num(p.y));
        o += &match e {
            PathEl::MoveTo(a) => format!("M{} ", pt(*a)),
            PathEl::LineTo(a) => format!("L{} ", pt(*a)),
            PathEl::QuadTo(a, b) => format!("Q{} {} ", pt(*a), pt(*b)),
            PathEl::CurveTo(a, b, c) => format!("C{} {} {} ", pt(*a), pt(*b), pt(*c)),
            PathEl::ClosePath => "Z ".into(),
        };
    }
    o
}
fn brush(b: &fixed::Brush) -> String {
    use fixed::Brush as B;
    match b {
        B::Solid(c) => format!("solid {:.2?}", c.components),
        B::Gradient(g) => format!("gradient {:?} {:?}", g.kind, g.stops.iter().map(|s| format!("{:.2} {:.2?}", s.offset, s.color.components)).collect::<Vec<_>>()),
        _ => "image".into(),
    }
}
impl RenderSink for Sink {
    fn push_layer(&mut self, b: impl Into<peniko::BlendMode>, a: f32, t: Affine, s: &impl Shape) {
        self.call(); self.depth += 1;
        self.out.push(format!("push_layer {:?} {a:.2} {} {}", b.into(), aff(t), path(s)));
    }
    fn push_clip_layer(&mut self, t: Affine, s: &impl Shape) {
        self.call(); self.depth += 1;
        self.out.push(format!("push_clip {} {}", aff(t), path(s)));
    }
    fn pop_layer(&mut self) { self.call(); self.depth -= 1; self.out.push("pop".into()); }
    fn begin_layer_group(&mut self, name: &str, i: usize) { self.call(); self.out.push(format!("begin {name:?} {i}")); }
    fn end_layer_group(&mut self) { self.call(); self.out.push("end".into()); }
    fn draw(&mut self, s: Option<&Stroke>, t: Affine, b: &fixed::Brush, p: &impl Shape) {
        self.call();
        let st = s.map(|s| format!("stroke {:.2} {:?} {:?} {:.2}", s.width, s.join, s.start_cap, s.miter_limit)).unwrap_or("fill".into());
        self.out.push(format!("{st} {} {} {}", brush(b), aff(t), path(p)));
    }
}

fn key(t: f64) -> Time { Time { frame: t, in_tangent: None, out_tangent: None, hold: false } }
fn keys<T: velato::model::Tween>(ks: Vec<(f64, T)>) -> Value<T> {
    let (t, v): (Vec<_>, Vec<_>) = ks.into_iter().unzip();
    Value::Animated(Animated { times: t.into_iter().map(key).collect(), values: v })
}
fn rect(x: f64, y: f64, w: f64, h: f64) -> S {
    S::Geometry(Geometry::Rect(animated::Rect { is_ccw: false, position: Value::Fixed(Point::new(x, y)), size: Value::Fixed(Size::new(w, h)), corner_radius: Value::Fixed(0.0) }))
}
fn fill(c: [f32; 4]) -> S {
    S::Draw(Draw { stroke: None, brush: velato::model::Brush::Fixed(peniko::Color::new(c).into()), opacity: Value::Fixed(100.0) })
}
fn red() -> S { fill([1.0, 0.0, 0.0, 1.0]) }
fn blue() -> S { fill([0.0, 0.0, 1.0, 1.0]) }
fn rep(copies: f64) -> animated::Repeater {
    animated::Repeater {
        copies: Value::Fixed(copies), offset: Value::Fixed(0.0), anchor_point: Value::Fixed(Point::ZERO), position: Value::Fixed(Point::new(10.0, 0.0)),
        rotation: Value::Fixed(0.0), scale: Value::Fixed(Vec2::new(100.0, 100.0)), start_opacity: Value::Fixed(100.0), end_opacity: Value::Fixed(100.0),
    }
}
fn r(x: animated::Repeater) -> S { S::Repeater(x.into_model()) }
fn moved(x: f64, y: f64) -> Option<GroupTransform> {
    Some(GroupTransform { transform: Transform::Fixed(kurbo::Affine::translate((x, y))), opacity: Value::Fixed(100.0) })
}
fn layer(shapes: Vec<S>) -> Layer {
    Layer { name: "l".into(), opacity: Value::Fixed(100.0), frames: 0.0..100.0, stretch: 1.0, transform: Transform::Fixed(kurbo::Affine::IDENTITY), content: Content::Shape(shapes), ..Default::default() }
}
fn comp(layers: Vec<Layer>) -> Composition {
    Composition { frames: 0.0..100.0, frame_rate: 60.0, width: 100, height: 100, assets: Default::default(), layers }
}
fn show(re: &mut Renderer, what: &str, c: &Composition, frames: &[f64]) {
    for fr in frames {
        let mut k = Sink { out: vec![], left: None, depth: 0 };
        let res = catch_unwind(AssertUnwindSafe(|| re.append(c, *fr, Affine::IDENTITY, 1.0, &mut k)));
        println!("{what}: frame {fr} depth {}{}", k.depth, if res.is_err() { " did not return" } else { "" });
        for l in &k.out { println!("  {l}"); }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut re = Renderer::new();
    let f = [0.0, 7.5, 25.0];
    let list = |v: Vec<S>| comp(vec![layer(v)]);
    // repeaters
    show(&mut re, "plain", &list(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(rep(3.0))]), &[0.0]);
    for offset in [0.5, -1.0, 2.25] {
        let x = animated::Repeater { offset: Value::Fixed(offset), rotation: Value::Fixed(30.0), scale: Value::Fixed(Vec2::new(120.0, 80.0)), anchor_point: Value::Fixed(Point::new(5.0, -3.0)), position: Value::Fixed(Point::new(8.0, -6.0)), ..rep(3.0) };
        show(&mut re, "offset", &list(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(x)]), &[0.0]);
    }
    let x = animated::Repeater { copies: keys(vec![(0.0, 1.0), (20.0, 4.0)]), ..rep(0.0) };
    show(&mut re, "copies", &list(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(x)]), &[0.0, 7.0, 9.0, 11.0, 25.0]);
    for (s, e) in [(100.0, 0.0), (0.0, 100.0), (25.0, 75.0)] {
        for n in [1.0, 2.0, 4.0] {
            let x = animated::Repeater { start_opacity: Value::Fixed(s), end_opacity: Value::Fixed(e), ..rep(n) };
            show(&mut re, "opacity", &list(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(x)]), &[0.0]);
        }
    }
    let x = animated::Repeater { end_opacity: keys(vec![(0.0, 100.0), (20.0, 0.0)]), ..rep(3.0) };
    show(&mut re, "fading", &list(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(x)]), &f);
    let x = animated::Repeater { anchor_point: keys(vec![(0.0, Point::ZERO), (20.0, Point::new(9.0, 4.0))]), rotation: Value::Fixed(45.0), ..rep(2.0) };
    show(&mut re, "anchor", &list(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(x)]), &f);
    show(&mut re, "twice", &list(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(rep(2.0)), blue(), r(animated::Repeater { position: Value::Fixed(Point::new(0.0, 20.0)), ..rep(3.0) })]), &[0.0]);
    show(&mut re, "after", &list(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(rep(1.0)), rect(50.0, 2.0, 4.0, 4.0), blue()]), &[0.0]);
    show(&mut re, "nothing", &list(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(rep(0.0)), rect(50.0, 2.0, 4.0, 4.0), blue()]), &[0.0]);
    show(&mut re, "nothing first", &list(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(rep(0.0)), rect(50.0, 2.0, 4.0, 4.0), blue(), r(rep(2.0))]), &[0.0]);
    show(&mut re, "then", &list(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(rep(2.0))]), &[0.0]);
    let g = S::Group(vec![rect(1.0, 2.0, 4.0, 4.0), red(), r(rep(2.0))], moved(5.0, 5.0));
    show(&mut re, "group", &list(vec![rect(60.0, 2.0, 4.0, 4.0), blue(), g.clone(), rect(80.0, 2.0, 4.0, 4.0), blue()]), &[0.0]);
    show(&mut re, "nested", &list(vec![rect(60.0, 2.0, 4.0, 4.0), blue(), S::Group(vec![g.clone(), r(rep(2.0))], moved(0.0, 30.0)), blue()]), &[0.0]);
    show(&mut re, "two groups", &list(vec![g.clone(), g.clone(), r(rep(2.0)), red()]), &[0.0]);
    // representations
    let raw = |x: f64| S::Geometry(Geometry::Fixed(Rect::new(x, 0.0, x + 5.0, 5.0).to_path(0.1).into_elements()));
    show(&mut re, "raw", &list(vec![raw(0.0), raw(20.0), red()]), &[0.0]);
    let several = BezPath::from_svg("M0 0 L9 0 Q9 9 0 9 Z M20 0 L29 0 L29 9 Z").unwrap();
    show(&mut re, "several", &list(vec![S::Geometry(Geometry::Fixed(several.into_elements())), red()]), &[0.0]);
    let mut c = list(vec![raw(0.0), red()]);
    show(&mut re, "before", &c, &[0.0]);
    if let Content::Shape(s) = &mut c.layers[0].content {
        if let S::Geometry(Geometry::Fixed(p)) = &mut s[0] { for e in p.iter_mut() { *e = Affine::translate((40.0, 1.0)) * *e; } }
    }
    c.layers[0].opacity = Value::Fixed(50.0);
    c.width = 300;
    show(&mut re, "edited", &c, &[0.0]);
    let mut extra = layer(vec![raw(0.0), red()]);
    extra.opacity = Value::Animated(Animated { times: vec![key(0.0), key(10.0)], values: vec![20.0, 60.0, 90.0] });
    show(&mut re, "more values", &comp(vec![extra]), &f);
    let mut one = layer(vec![raw(0.0), red()]);
    one.opacity = keys(vec![(10.0, 40.0)]);
    show(&mut re, "one key", &comp(vec![one]), &f);
    for (name, mix, compose) in [("xor", peniko::Mix::Normal, peniko::Compose::Xor), ("multiply", peniko::Mix::Multiply, peniko::Compose::SrcOver), ("over", peniko::Mix::Normal, peniko::Compose::SrcOver), ("clear", peniko::Mix::Normal, peniko::Compose::Clear)] {
        let mut m = layer(vec![raw(0.0), red()]);
        m.mask_layer = Some((peniko::BlendMode::new(mix, compose), 1));
        let mut b = layer(vec![raw(2.0), blue()]);
        b.is_mask = true;
        show(&mut re, name, &comp(vec![m, b]), &[0.0]);
    }
    let mut masked = layer(vec![raw(0.0), red()]);
    masked.masks = vec![velato::model::Mask { mode: peniko::Mix::Normal.into(), geometry: Geometry::Fixed(Rect::new(1.0, 1.0, 3.0, 3.0).to_path(0.1).into_elements()), opacity: Value::Fixed(100.0) }; 2];
    show(&mut re, "masks", &comp(vec![masked]), &[0.0]);
    let spin = animated::Transform { anchor: Value::Fixed(Point::new(3.0, 4.0)), position: animated::Position::SplitValues((Value::Fixed(7.0), keys(vec![(0.0, 0.0), (10.0, 20.0)]))), rotation: Value::Fixed(90.0), scale: Value::Fixed(Vec2::new(100.0, 50.0)), skew: Value::Fixed(0.0), skew_angle: Value::Fixed(0.0) };
    let mut m = layer(vec![raw(0.0), red()]);
    m.transform = spin.into_model();
    show(&mut re, "split", &comp(vec![m]), &f);
    // what is inconsistent
    let mut m = layer(vec![raw(0.0), red()]);
    m.mask_layer = Some((peniko::Compose::SrcIn.into(), 77));
    m.parent = Some(99);
    show(&mut re, "no such layer", &comp(vec![m]), &[0.0]);
    let mut m = layer(vec![raw(0.0), red()]);
    m.mask_layer = Some((peniko::Compose::SrcIn.into(), 0));
    m.parent = Some(0);
    show(&mut re, "itself", &comp(vec![m]), &[0.0]);
    let mut m = layer(vec![raw(0.0), red()]);
    m.parent = Some(1);
    show(&mut re, "one past the end", &comp(vec![m]), &[0.0]);
    let mut m = layer(vec![raw(0.0), red()]);
    m.content = Content::Instance { name: "nowhere".into(), time_remap: None };
    show(&mut re, "no such asset", &comp(vec![m]), &[0.0]);
    for (t, v) in [(vec![0.0, 10.0], vec![50.0]), (vec![0.0, 10.0], vec![]), (vec![], vec![50.0]), (vec![10.0, 0.0, 5.0], vec![10.0, 20.0, 30.0]), (vec![f64::NAN, 0.0], vec![10.0, 20.0]), (vec![5.0, 5.0, 5.0], vec![10.0, 20.0, 30.0])] {
        let mut m = layer(vec![raw(0.0), red()]);
        m.opacity = Value::Animated(Animated { times: t.into_iter().map(key).collect(), values: v });
        show(&mut re, "odd keys", &comp(vec![m]), &f);
    }
    let pts = |n: usize| (0..n).map(|i| Point::new((i * 7 % 11) as f64, (i * 5 % 13) as f64)).collect::<Vec<_>>();
    for (a, b) in [(6, 12), (12, 6), (0, 6), (7, 8), (1, 2), (5, 5), (2, 2)] {
        for times in [vec![0.0, 10.0], vec![0.0], vec![], vec![0.0, 1.0, 10.0]] {
            let s = animated::Spline { is_closed: true, times: times.iter().map(|t| key(*t)).collect(), values: vec![animated::SplineKeyframeValues { start: pts(a), end: None }, animated::SplineKeyframeValues { start: pts(b), end: (a > b).then(|| pts(a)) }] };
            show(&mut re, "odd path", &list(vec![S::Geometry(Geometry::Spline(s)), red()]), &f);
        }
    }
    let mut m = layer(vec![raw(0.0), red()]);
    m.frames = 50.0..10.0;
    let mut n = layer(vec![raw(0.0), red()]);
    n.stretch = 0.0;
    n.opacity = Value::Animated(Animated { times: vec![Time { hold: true, out_tangent: Some(EasingHandle { x: f64::NAN, y: 2.0 }), ..key(0.0) }, key(9.0)], values: vec![30.0, 60.0] });
    show(&mut re, "odd layer", &comp(vec![m, n]), &f);
    let star = animated::Star { is_polygon: false, direction: 1.0, position: Value::Fixed(Point::ZERO), inner_radius: Value::Fixed(5.0), inner_roundness: Value::Fixed(0.0), outer_radius: Value::Fixed(10.0), outer_roundness: Value::Fixed(0.0), rotation: Value::Fixed(0.0), points: Value::Fixed(-3.0) };
    show(&mut re, "odd star", &list(vec![S::Geometry(Geometry::Star(star)), red()]), &[0.0]);
}

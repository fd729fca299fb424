//! Plays a script against velato and prints what a canvas receives, with coarse rounding.
//! Usage: demo SCRIPT.json   (documents and steps; see the file)
use std::panic::{catch_unwind, AssertUnwindSafe};
use velato::{Composition, RenderSink, Renderer};
use kurbo::{Affine, PathEl, Shape, Stroke, BezPath};
use velato::model::fixed;

struct Sink { out: Vec<String>, left: Option<usize>, depth: i64 }
impl Sink {
    fn call(&mut self) {
        if let Some(n) = &mut self.left {
            if *n == 0 { std::panic::resume_unwind(Box::new("sink failed")); }
            *n -= 1;
        }
    }
}
fn num(x: f64) -> String {
    let r = (x * 20.0).round() / 20.0;
    format!("{}", if r == 0.0 { 0.0 } else { r })
}
fn aff(a: Affine) -> String {
    let c = a.as_coeffs();
    format!("[{}]", c.iter().map(|x| format!("{:.3}", x + 0.0).replace("-0.000", "0.000")).collect::<Vec<_>>().join(" "))
}
fn path(s: &impl Shape) -> String {
    let p: BezPath = s.to_path(0.1);
    let mut o = String::new();
    for e in p.elements() {
        let pt = |p: kurbo::Point| format!("{},{}", num(p.x), num(p.y));
        o += &match e {
            PathEl::MoveTo(a) => format!("M{} ", pt(*a)),
            PathEl::LineTo(a) => format!("L{} ", pt(*a)),
            PathEl::QuadTo(a, b) => format!("Q{} {} ", pt(*a), pt(*b)),
            PathEl::CurveTo(a, b, c) => format!("C{} {} {} ", pt(*a), pt(*b), pt(*c)),
            PathEl::ClosePath => "Z ".into(),
        };
    }
    o
}
fn brush(b: &fixed::Brush) -> String {
    use fixed::Brush as B;
    match b {
        B::Solid(c) => format!("solid {:.2?}", c.components),
        B::Gradient(g) => format!("gradient {:?} {:?}", g.kind, g.stops.iter().map(|s| format!("{:.2} {:.2?}", s.offset, s.color.components)).collect::<Vec<_>>()),
        _ => "image".into(),
    }
}
impl RenderSink for Sink {
    fn push_layer(&mut self, b: impl Into<peniko::BlendMode>, a: f32, t: Affine, s: &impl Shape) {
        self.call(); self.depth += 1;
        self.out.push(format!("push_layer {:?} {a:.2} {} {}", b.into(), aff(t), path(s)));
    }
    fn push_clip_layer(&mut self, t: Affine, s: &impl Shape) {
        self.call(); self.depth += 1;
        self.out.push(format!("push_clip {} {}", aff(t), path(s)));
    }
    fn pop_layer(&mut self) { self.call(); self.depth -= 1; self.out.push("pop".into()); }
    fn begin_layer_group(&mut self, name: &str, i: usize) { self.call(); self.out.push(format!("begin {name:?} {i}")); }
    fn end_layer_group(&mut self) { self.call(); self.out.push("end".into()); }
    fn draw(&mut self, s: Option<&Stroke>, t: Affine, b: &fixed::Brush, p: &impl Shape) {
        self.call();
        let st = s.map(|s| format!("stroke {:.2} {:?} {:?} {:.2}", s.width, s.join, s.start_cap, s.miter_limit)).unwrap_or("fill".into());
        self.out.push(format!("{st} {} {} {}", brush(b), aff(t), path(p)));
    }
}
fn f(v: &serde_json::Value, d: f64) -> f64 {
    v.as_f64().unwrap_or_else(|| v.as_str().and_then(|s| s.parse().ok()).unwrap_or(d))
}
fn main() {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut comps: Vec<Option<Composition>> = (0..16).map(|_| None).collect();
    let mut rends: Vec<Renderer> = (0..16).map(|_| Renderer::new()).collect();
    for s in v["steps"].as_array().unwrap() {
        let text = |d: &serde_json::Value| match &v["docs"][d.as_u64().unwrap() as usize] { serde_json::Value::String(s) => s.clone(), d => d.to_string() };
        if let Some(n) = s.get("new_renderer") { rends[n.as_u64().unwrap() as usize] = Renderer::new() }
        if let Some(n) = s.get("drop") { comps[n.as_u64().unwrap() as usize] = None }
        if let Some(n) = s.get("clone") { comps[s["to"].as_u64().unwrap() as usize] = comps[n.as_u64().unwrap() as usize].clone() }
        if let Some(d) = s.get("resave") {
            match text(d).parse::<velato::schema::Animation>() {
                Ok(a) => {
                    let v: serde_json::Value = serde_json::from_str(&a.to_string()).unwrap();
                    println!("rewritten {v}");
                    println!("{}", match a.to_string().parse::<velato::schema::Animation>() { Ok(b) => b == a, _ => false });
                }
                Err(_) => println!("rejected"),
            }
        }
        if let Some(d) = s.get("load") {
            let text = text(d);
            let slot = s["slot"].as_u64().unwrap_or(0) as usize;
            let r = catch_unwind(AssertUnwindSafe(|| match s["route"].as_str() {
                Some("str") => text.parse::<Composition>().map_err(|e| e.to_string()),
                Some("json") => Composition::from_json(serde_json::from_str(&text).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
                Some("rewritten") => text.parse::<velato::schema::Animation>().map_err(|e| e.to_string())?.to_string().parse::<Composition>().map_err(|e| e.to_string()),
                _ => Composition::from_slice(text.as_bytes()).map_err(|e| e.to_string()),
            }));
            match r {
                Ok(Ok(c)) => { println!("loaded {:?} {} {}x{}", c.frames, c.frame_rate, c.width, c.height); comps[slot] = Some(c) }
                Ok(Err(_)) => println!("rejected"),
                Err(_) => println!("load panicked"),
            }
        }
        if let Some(fr) = s.get("render") {
            let Some(c) = &comps[s["slot"].as_u64().unwrap_or(0) as usize] else { println!("nothing loaded"); continue };
            let r = &mut rends[s["renderer"].as_u64().unwrap_or(0) as usize];
            let mut k = Sink { out: vec![], left: s["fail_after"].as_u64().map(|x| x as usize), depth: 0 };
            let t = match s["transform"].as_array() { Some(a) => Affine::new(std::array::from_fn(|i| f(&a[i], 0.0))), None => Affine::IDENTITY };
            let frame = f(fr, 0.0);
            let res = catch_unwind(AssertUnwindSafe(|| r.append(c, frame, t, f(&s["alpha"], 1.0), &mut k)));
            if s["quiet"] == true { continue }
            println!("frame {frame} depth {}{}", k.depth, if res.is_err() { " did not return" } else { "" });
            for l in &k.out { println!("  {l}"); }
        }
    }
}

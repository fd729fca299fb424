//! The reference model: reads the generated JSON document directly (not velato's schema types) and says which
//! sink calls a frame must produce. Written from the format's definition and velato's documented behaviour;
//! anything the two leave open is rejected by `lower` or flagged `unspec` and not judged.
use kurbo::{Affine, PathEl, Point, Rect, Shape, Vec2};
use peniko::{BlendMode, Brush, Color, Compose, Gradient, Mix};
use serde_json::Value;
use std::collections::HashMap;
use subject::Op;

type R<T> = Result<T, String>;

#[derive(Clone, Debug)]
pub struct Key {
    pub t: f64,
    pub v: Vec<f64>,
    pub o: (f64, f64),
    pub i: (f64, f64),
    pub hold: bool,
}
#[derive(Clone, Debug)]
pub enum Anim {
    Static(Vec<f64>),
    Keys(Vec<Key>),
}
#[derive(Clone, Debug)]
pub struct Xf {
    pub anchor: Anim,
    pub pos: Result<Anim, (Anim, Anim)>,
    pub scale: Anim,
    pub rot: Anim,
    pub skew: Anim,
    pub axis: Anim,
}
#[derive(Clone, Debug)]
pub struct Bez {
    pub v: Vec<Point>,
    pub i: Vec<Vec2>,
    pub o: Vec<Vec2>,
}
#[derive(Clone, Debug)]
pub struct BezKey {
    pub t: f64,
    pub s: Bez,
    pub e: Option<Bez>,
    pub o: (f64, f64),
    pub i: (f64, f64),
    pub hold: bool,
}
#[derive(Clone, Debug)]
pub enum PathA {
    Static(Bez, bool),
    Keys(Vec<BezKey>, bool),
}
#[derive(Clone, Debug)]
pub enum Geo {
    Rect { p: Anim, s: Anim, r: Anim },
    Ellipse { p: Anim, s: Anim },
    Path(PathA),
    Star { polygon: bool, p: Anim, or: Anim, os: Anim, ir: Anim, is: Anim, r: Anim, pt: Anim },
    /// only in compositions built by hand
    Raw(Vec<PathEl>),
}
#[derive(Clone, Debug)]
pub enum Paint {
    Solid(Anim),
    Grad { radial: bool, s: Anim, e: Anim, stops: Anim, count: usize },
}
#[derive(Clone, Debug)]
pub struct Stroke {
    pub w: Anim,
    pub join: u64,
    pub cap: u64,
    pub miter: Option<f64>,
}
#[derive(Clone, Debug)]
pub enum Item {
    Geo(Geo),
    Paint { stroke: Option<Stroke>, paint: Paint, opacity: Anim },
    Group { items: Vec<Item>, xf: Option<(Xf, Anim)> },
    Trim { s: Anim, e: Anim, o: Anim },
    /// only in compositions built by hand
    Repeat(Box<Rep>),
}
#[derive(Clone, Debug)]
pub struct Rep {
    pub copies: Anim,
    pub offset: Anim,
    pub anchor: Anim,
    pub pos: Anim,
    pub rot: Anim,
    pub scale: Anim,
    pub so: Anim,
    pub eo: Anim,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Empty,
    Shapes(Vec<Item>),
    Instance(String),
}
#[derive(Clone, Debug)]
pub struct Layer {
    pub name: String,
    pub ip: f64,
    pub op: f64,
    pub st: f64,
    pub sr: f64,
    pub td: bool,
    pub hidden: bool,
    pub parent: Option<usize>,
    pub matte: Option<(u64, usize)>,
    pub xf: Xf,
    pub opacity: Anim,
    pub masks: Vec<PathA>,
    pub kind: Kind,
}
#[derive(Clone, Debug)]
pub struct Doc {
    pub w: f64,
    pub h: f64,
    pub ip: f64,
    pub op: f64,
    pub fr: f64,
    pub layers: Vec<Layer>,
    pub assets: HashMap<String, Vec<Layer>>,
    /// some reference chain returns to itself
    pub cyclic: bool,
}

// ------------------------------------------------------------------------------------------ lowering
fn f(v: &Value) -> R<f64> {
    v.as_f64().ok_or_else(|| format!("not a number: {v}"))
}
fn fo(v: &Value, k: &str, d: f64) -> R<f64> {
    match v.get(k) {
        None | Some(Value::Null) => Ok(d),
        Some(x) => f(x),
    }
}
fn req<'a>(v: &'a Value, k: &str) -> R<&'a Value> {
    v.get(k).ok_or_else(|| format!("missing {k}"))
}
fn comps(v: &Value) -> R<Vec<f64>> {
    match v {
        Value::Array(a) => a.iter().map(f).collect(),
        _ => Ok(vec![f(v)?]),
    }
}
/// `dims`: how many numbers ease. A single one uses the first component, whatever follows.
fn handle(v: Option<&Value>, dims: usize) -> R<Option<(f64, f64)>> {
    let Some(h) = v else { return Ok(None) };
    let one = |k: &str| -> R<f64> {
        let c = comps(req(h, k)?)?;
        if c.is_empty() || dims > 1 && c.iter().any(|x| *x != c[0]) {
            return Err("per-component easing".into());
        }
        Ok(c[0])
    };
    let p = (one("x")?, one("y")?);
    if !(0.0..=1.0).contains(&p.0) {
        return Err("easing handle outside its segment".into());
    }
    Ok(Some(p))
}
fn is_hold(k: &Value) -> bool {
    k.get("h").and_then(Value::as_u64) == Some(1)
}
/// `pair`: easing counts only if both handles are present (vectors), otherwise each on its own (scalars).
fn keys(a: &[Value], dims: usize, pair: bool) -> R<Vec<Key>> {
    let mut out: Vec<Key> = vec![];
    for k in a {
        let t = f(req(k, "t")?)?;
        let v = comps(req(k, "s")?)?;
        if v.len() < dims {
            return Err("short keyframe value".into());
        }
        let (o, i) = (handle(k.get("o"), dims)?, handle(k.get("i"), dims)?);
        let hold = is_hold(k);
        if pair && !hold && (o.is_some() != i.is_some()) {
            return Err("one-sided easing on a vector".into());
        }
        if let Some(p) = out.last() {
            if t - p.t < 1e-3 {
                return Err("keyframes not increasing".into());
            }
        }
        out.push(Key { t, v, o: o.unwrap_or((0.0, 0.0)), i: i.unwrap_or((1.0, 1.0)), hold });
    }
    if out.is_empty() {
        return Err("no keyframes".into());
    }
    Ok(out)
}
fn anim(v: &Value, dims: usize) -> R<Anim> {
    let k = req(v, "k")?;
    match k {
        Value::Array(a) if a.first().map_or(false, |x| x.is_object()) => Ok(Anim::Keys(keys(a, dims, dims > 1)?)),
        _ => {
            let c = comps(k)?;
            if c.len() < dims {
                return Err("short value".into());
            }
            Ok(Anim::Static(c))
        }
    }
}
fn anim_or(v: &Value, k: &str, dims: usize, d: &[f64]) -> R<Anim> {
    match v.get(k) {
        None | Some(Value::Null) => Ok(Anim::Static(d.to_vec())),
        Some(x) => anim(x, dims),
    }
}
fn xf(v: &Value) -> R<Xf> {
    let p = req(v, "p")?;
    let pos = if p.get("k").is_some() { Ok(anim(p, 2)?) } else { Err((anim(req(p, "x")?, 1)?, anim(req(p, "y")?, 1)?)) };
    let rot = match v.get("r") {
        None => Anim::Static(vec![0.0]),
        Some(r) if r.get("k").is_some() => anim(r, 1)?,
        Some(r) => anim(req(r, "z")?, 1)?,
    };
    Ok(Xf {
        anchor: anim_or(v, "a", 2, &[0.0, 0.0])?,
        pos,
        scale: anim_or(v, "s", 2, &[100.0, 100.0])?,
        rot,
        skew: anim_or(v, "sk", 1, &[0.0])?,
        axis: anim_or(v, "sa", 1, &[0.0])?,
    })
}
fn bez(v: &Value) -> R<(Bez, bool)> {
    let pts = |k: &str| -> R<Vec<(f64, f64)>> {
        req(v, k)?.as_array().ok_or("points")?.iter().map(|p| {
            let c = comps(p)?;
            if c.len() != 2 {
                return Err("point".to_string());
            }
            Ok((c[0], c[1]))
        }).collect()
    };
    let vs = pts("v")?;
    let mut i: Vec<Vec2> = pts("i")?.into_iter().map(Into::into).collect();
    let mut o: Vec<Vec2> = pts("o")?.into_iter().map(Into::into).collect();
    i.resize(vs.len(), Vec2::ZERO);
    o.resize(vs.len(), Vec2::ZERO);
    let c = v.get("c").and_then(Value::as_bool).unwrap_or(false);
    Ok((Bez { v: vs.into_iter().map(Into::into).collect(), i, o }, c))
}
fn patha(v: &Value) -> R<PathA> {
    let k = req(v, "k")?;
    if let Value::Array(a) = k {
        let mut out: Vec<BezKey> = vec![];
        let mut closed = false;
        for (n, kf) in a.iter().enumerate() {
            let first = |x: &Value| -> R<(Bez, bool)> { bez(x.as_array().and_then(|a| a.first()).ok_or("empty path keyframe")?) };
            let (s, c) = match kf.get("s") {
                Some(s) => first(s)?,
                None if n + 1 == a.len() && n > 0 => match a[n - 1].get("e") {
                    Some(e) => first(e)?,
                    None => first(req(&a[n - 1], "s")?)?,
                },
                None => return Err("missing s".into()),
            };
            closed |= c;
            let e = match kf.get("e") {
                Some(e) => {
                    let (e, c) = first(e)?;
                    closed |= c;
                    Some(e)
                }
                None => None,
            };
            let t = f(req(kf, "t")?)?;
            if let Some(p) = out.last() {
                if t - p.t < 1e-3 {
                    return Err("path keyframes not increasing".into());
                }
                if s.v.len() != p.s.v.len() {
                    return Err("vertex counts differ".into());
                }
            }
            if let Some(e) = &e {
                if e.v.len() != s.v.len() {
                    return Err("vertex counts differ".into());
                }
            }
            if n + 1 == a.len() && e.is_some() {
                return Err("last path keyframe with an end value".into());
            }
            out.push(BezKey {
                t,
                s,
                e,
                o: handle(kf.get("o"), 1)?.unwrap_or((0.0, 0.0)),
                i: handle(kf.get("i"), 1)?.unwrap_or((1.0, 1.0)),
                hold: is_hold(kf),
            });
        }
        if out.is_empty() {
            return Err("no path keyframes".into());
        }
        Ok(PathA::Keys(out, closed))
    } else {
        let (b, c) = bez(k)?;
        Ok(PathA::Static(b, c))
    }
}
fn stroke(v: &Value, join: u64, cap: u64) -> R<Stroke> {
    if v.get("d").is_some() {
        return Err("dashes".into());
    }
    Ok(Stroke {
        w: anim(req(v, "w")?, 1)?,
        join: v.get("lj").and_then(Value::as_u64).unwrap_or(join),
        cap: v.get("lc").and_then(Value::as_u64).unwrap_or(cap),
        miter: match v.get("ml") {
            None => None,
            Some(m) => Some(f(m)?),
        },
    })
}
/// Color stops with the transparency that lies under them: offset, r, g, b, a.
fn clear(c: &[f64], count: usize) -> R<Vec<f64>> {
    let alpha: Box<dyn Fn(f64) -> R<f64>> = match &c[4 * count..] {
        [] => Box::new(|_| Ok(1.0)),
        &[x0, a0, x1, a1] if x0 == 0.0 && x1 == 1.0 && (0.0..=1.0).contains(&a0) && (0.0..=1.0).contains(&a1) => Box::new(move |o| {
            if o == 0.0 || o == 1.0 || (0.1 < o && o < 0.9) {
                Ok(a0 + (a1 - a0) * o)
            } else {
                Err("transparency near a gradient's end".into())
            }
        }),
        _ => return Err("gradient with other transparency stops".into()),
    };
    let mut out = vec![];
    for s in c[..4 * count].chunks(4) {
        out.extend(s);
        out.push(alpha(s[0])?);
    }
    Ok(out)
}
fn grad(v: &Value) -> R<Paint> {
    let g = req(v, "g")?;
    let count = req(g, "p")?.as_u64().ok_or("p")? as usize;
    if count == 0 || count > 10000 {
        return Err("gradient without stops".into());
    }
    let mut stops = anim(req(g, "k")?, count * 4)?;
    match &mut stops {
        Anim::Static(c) => *c = clear(c, count)?,
        Anim::Keys(ks) => {
            let places: Vec<f64> = ks[0].v[..4 * count].iter().step_by(4).copied().collect();
            for k in ks.iter_mut() {
                // which alpha belongs to a stop that moves between them is left open
                if k.v.len() > 4 * count && k.v[..4 * count].iter().step_by(4).ne(&places) {
                    return Err("moving stops over transparency stops".into());
                }
                k.v = clear(&k.v, count)?;
            }
        }
    }
    Ok(Paint::Grad {
        radial: v.get("t").and_then(Value::as_u64) == Some(2),
        s: anim(req(v, "s")?, 2)?,
        e: anim(req(v, "e")?, 2)?,
        stops,
        count,
    })
}
fn items(a: &[Value]) -> R<Vec<Item>> {
    let mut out = vec![];
    for v in a {
        let ty = v.get("ty").and_then(Value::as_str).ok_or("shape type")?;
        match ty {
            "rc" => out.push(Item::Geo(Geo::Rect { p: anim(req(v, "p")?, 2)?, s: anim(req(v, "s")?, 2)?, r: anim(req(v, "r")?, 1)? })),
            "el" => out.push(Item::Geo(Geo::Ellipse { p: anim(req(v, "p")?, 2)?, s: anim(req(v, "s")?, 2)? })),
            "sh" => out.push(Item::Geo(Geo::Path(patha(req(v, "ks")?)?))),
            "sr" => {
                let polygon = v.get("sy").and_then(Value::as_u64) == Some(2);
                out.push(Item::Geo(Geo::Star {
                    polygon,
                    p: anim(req(v, "p")?, 2)?,
                    or: anim(req(v, "or")?, 1)?,
                    os: anim(req(v, "os")?, 1)?,
                    ir: anim_or(v, "ir", 1, &[0.0])?,
                    is: anim_or(v, "is", 1, &[0.0])?,
                    r: anim(req(v, "r")?, 1)?,
                    pt: anim(req(v, "pt")?, 1)?,
                }))
            }
            "fl" => out.push(Item::Paint { stroke: None, paint: Paint::Solid(anim(req(v, "c")?, 3)?), opacity: anim(req(v, "o")?, 1)? }),
            "st" => out.push(Item::Paint {
                stroke: Some(stroke(v, 3, 1)?),
                paint: Paint::Solid(anim(req(v, "c")?, 3)?),
                opacity: anim(req(v, "o")?, 1)?,
            }),
            "gf" => out.push(Item::Paint { stroke: None, paint: grad(v)?, opacity: anim(req(v, "o")?, 1)? }),
            "gs" => out.push(Item::Paint { stroke: Some(stroke(v, 2, 2)?), paint: grad(v)?, opacity: anim(req(v, "o")?, 1)? }),
            "gr" => {
                let it = req(v, "it")?.as_array().ok_or("it")?;
                let trs: Vec<&Value> = it.iter().filter(|x| x.get("ty").and_then(Value::as_str) == Some("tr")).collect();
                if trs.len() > 1 {
                    return Err("several group transforms".into());
                }
                let x = match trs.first() {
                    None => None,
                    Some(t) => Some((xf(t)?, anim_or(t, "o", 1, &[100.0])?)),
                };
                let inner: Vec<Value> = it.iter().filter(|x| x.get("ty").and_then(Value::as_str) != Some("tr")).cloned().collect();
                out.push(Item::Group { items: items(&inner)?, xf: x });
            }
            "tm" => out.push(Item::Trim { s: anim(req(v, "s")?, 1)?, e: anim(req(v, "e")?, 1)?, o: anim(req(v, "o")?, 1)? }),
            "x-raw" => {
                let d = v.get("d").and_then(Value::as_str).ok_or("d")?;
                out.push(Item::Geo(Geo::Raw(kurbo::BezPath::from_svg(d).map_err(|e| e.to_string())?.into_elements())));
            }
            "x-repeat" => out.push(Item::Repeat(Box::new(Rep {
                copies: anim(req(v, "c")?, 1)?,
                offset: anim(req(v, "o")?, 1)?,
                anchor: anim(req(v, "a")?, 2)?,
                pos: anim(req(v, "p")?, 2)?,
                rot: anim(req(v, "r")?, 1)?,
                scale: anim(req(v, "s")?, 2)?,
                so: anim(req(v, "so")?, 1)?,
                eo: anim(req(v, "eo")?, 1)?,
            }))),
            // modifiers velato does not support have no effect
            "mm" | "rd" | "pb" | "tw" | "op" => {}
            x => return Err(format!("shape {x}")),
        }
        if v.get("hd").and_then(Value::as_bool) == Some(true) {
            return Err("hidden shape".into());
        }
    }
    Ok(out)
}
fn layers(a: &[Value]) -> R<Vec<Layer>> {
    let mut ids: HashMap<u64, usize> = HashMap::new();
    let mut dup: Vec<u64> = vec![];
    for (n, l) in a.iter().enumerate() {
        let Some(id) = l.get("ind").and_then(Value::as_u64) else { continue };
        if ids.insert(id, n).is_some() {
            dup.push(id);
        }
    }
    let find = |id: u64| -> R<Option<usize>> {
        if dup.contains(&id) {
            return Err("ambiguous layer id".into());
        }
        Ok(ids.get(&id).copied())
    };
    let mut out: Vec<Layer> = vec![];
    let mut prev: Option<usize> = None;
    for (n, l) in a.iter().enumerate() {
        let ty = l.get("ty").and_then(Value::as_u64).ok_or("layer type")?;
        let hidden = l.get("hd").and_then(Value::as_bool).unwrap_or(false);
        let td = l.get("td").and_then(Value::as_u64) == Some(1) && !hidden;
        let tt = l.get("tt").and_then(Value::as_u64);
        if tt == Some(0) {
            return Err("matte mode 0".into());
        }
        let mut matte = None;
        if let Some(tt) = tt {
            let src = match l.get("tp") {
                Some(tp) => find(f(tp)? as u64)?,
                None => prev,
            };
            matte = src.map(|s| (tt, s));
        }
        if td {
            prev = Some(n);
        } else if tt.is_some() {
            prev = None;
        }
        let ks = req(l, "ks")?;
        let mut masks = vec![];
        if let Some(ms) = l.get("masksProperties").and_then(Value::as_array) {
            for m in ms {
                if let Some(pt) = m.get("pt") {
                    masks.push(patha(pt)?);
                }
            }
        }
        let kind = match ty {
            _ if hidden => Kind::Empty,
            0 => {
                if l.get("tm").is_some() {
                    return Err("time remap".into());
                }
                Kind::Instance(req(l, "refId")?.as_str().ok_or("refId")?.into())
            }
            4 => Kind::Shapes(items(req(l, "shapes")?.as_array().ok_or("shapes")?)?),
            1..=3 => Kind::Empty,
            _ => return Err("layer kind".into()),
        };
        let sr = fo(l, "sr", 1.0)?;
        if ty == 0 && (sr == 0.0 || !sr.is_finite()) {
            return Err("stretch".into());
        }
        out.push(Layer {
            name: l.get("nm").and_then(Value::as_str).unwrap_or("").into(),
            ip: f(req(l, "ip")?)?,
            op: f(req(l, "op")?)?,
            st: fo(l, "st", 0.0)?,
            sr,
            td,
            hidden,
            parent: match l.get("parent").and_then(Value::as_u64) {
                None => None,
                Some(p) => find(p)?,
            },
            matte,
            xf: xf(ks)?,
            opacity: anim_or(ks, "o", 1, &[100.0])?,
            masks,
            kind,
        });
    }
    // parent cycles have no defined picture
    for n in 0..out.len() {
        let (mut p, mut k) = (out[n].parent, 0);
        while let Some(q) = p {
            k += 1;
            if k > out.len() {
                return Err("parent cycle".into());
            }
            p = out[q].parent;
        }
    }
    Ok(out)
}
pub fn lower(d: &Value) -> R<Doc> {
    let mut assets = HashMap::new();
    if let Some(a) = d.get("assets").and_then(Value::as_array) {
        for x in a {
            let id = req(x, "id")?.as_str().ok_or("id")?.to_string();
            if let Some(l) = x.get("layers") {
                if assets.insert(id, layers(l.as_array().ok_or("layers")?)?).is_some() {
                    return Err("asset id twice".into());
                }
            }
        }
    }
    let mut doc = Doc {
        w: f(req(d, "w")?)?,
        h: f(req(d, "h")?)?,
        ip: f(req(d, "ip")?)?,
        op: f(req(d, "op")?)?,
        fr: f(req(d, "fr")?)?,
        layers: layers(req(d, "layers")?.as_array().ok_or("layers")?)?,
        assets,
        cyclic: false,
    };
    doc.cyclic = {
        let mut stack = vec![];
        cyc(&doc, &doc.layers, &mut stack, 0)
    };
    Ok(doc)
}
fn cyc(d: &Doc, ls: &[Layer], stack: &mut Vec<String>, depth: usize) -> bool {
    for l in ls {
        if let Kind::Instance(r) = &l.kind {
            if stack.contains(r) {
                return true;
            }
            if let Some(a) = d.assets.get(r) {
                stack.push(r.clone());
                if depth > 12 || cyc(d, a, stack, depth + 1) {
                    return true;
                }
                stack.pop();
            }
        }
        // matte chains
        let (mut m, mut k) = (l.matte, 0);
        while let Some((_, s)) = m {
            k += 1;
            if k > ls.len() {
                return true;
            }
            m = ls[s].matte;
        }
    }
    false
}

// ------------------------------------------------------------------------------------------ evaluation
pub struct Ctx {
    /// the frame was computed inexactly: decisions within rounding distance of a boundary are not judged
    pub inexact: bool,
    pub unspec: bool,
    pub why: &'static str,
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs()))
}
fn bezier_ease(o: (f64, f64), i: (f64, f64), t: f64) -> f64 {
    if t <= 0.0 {
        return 0.0;
    }
    if t >= 1.0 {
        return 1.0;
    }
    let b = |p1: f64, p2: f64, u: f64| {
        let m = 1.0 - u;
        3.0 * m * m * u * p1 + 3.0 * m * u * u * p2 + u * u * u
    };
    let (mut lo, mut hi) = (0.0, 1.0);
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if b(o.0, i.0, m) < t {
            lo = m
        } else {
            hi = m
        }
    }
    b(o.1, i.1, 0.5 * (lo + hi))
}
/// Which segment and how far along it: (index, eased progress). Progress 0 means exactly key `index`.
fn locate(ts: &[(f64, (f64, f64), (f64, f64), bool)], frame: f64, c: &mut Ctx) -> (usize, f64) {
    if c.inexact && ts.iter().any(|k| near(k.0, frame)) && ts.iter().any(|k| k.3) {
        c.unspec = true;
        c.why = "hold edge";
    }
    let n = ts.len();
    if !(frame > ts[0].0) {
        return (0, 0.0);
    }
    if frame >= ts[n - 1].0 {
        return (n - 1, 0.0);
    }
    let mut k = 0;
    while ts[k + 1].0 <= frame {
        k += 1;
    }
    if ts[k].3 {
        return (k, 0.0);
    }
    let t = (frame - ts[k].0) / (ts[k + 1].0 - ts[k].0);
    (k, bezier_ease(ts[k].1, ts[k].2, t))
}
impl Anim {
    pub fn at(&self, frame: f64, c: &mut Ctx) -> Vec<f64> {
        match self {
            Anim::Static(v) => v.clone(),
            Anim::Keys(ks) => {
                let ts: Vec<_> = ks.iter().map(|k| (k.t, k.o, k.i, k.hold)).collect();
                let (k, e) = locate(&ts, frame, c);
                if e == 0.0 {
                    return ks[k].v.clone();
                }
                ks[k].v.iter().zip(&ks[k + 1].v).map(|(a, b)| a + (b - a) * e).collect()
            }
        }
    }
    fn n(&self, frame: f64, c: &mut Ctx) -> f64 {
        self.at(frame, c)[0]
    }
    fn p(&self, frame: f64, c: &mut Ctx) -> Point {
        let v = self.at(frame, c);
        Point::new(v[0], v[1])
    }
    pub fn times(&self, out: &mut Vec<f64>) {
        if let Anim::Keys(k) = self {
            out.extend(k.iter().map(|k| k.t));
        }
    }
}
impl Xf {
    pub fn at(&self, fr: f64, c: &mut Ctx) -> Affine {
        let a = self.anchor.p(fr, c);
        let p = match &self.pos {
            Ok(p) => p.p(fr, c),
            Err((x, y)) => Point::new(x.n(fr, c), y.n(fr, c)),
        };
        let s = self.scale.p(fr, c);
        let r = self.rot.n(fr, c).to_radians();
        let sk = self.skew.n(fr, c).to_radians();
        let ax = self.axis.n(fr, c).to_radians();
        // matrix entries written out: [m00 m10 m01 m11]
        let rot = |x: f64| Affine::new([x.cos(), x.sin(), -x.sin(), x.cos(), 0.0, 0.0]);
        let mut m = Affine::new([1.0, 0.0, 0.0, 1.0, p.x, p.y]) * rot(r);
        if sk != 0.0 {
            m = m * rot(-ax) * Affine::new([1.0, 0.0, sk.tan(), 1.0, 0.0, 0.0]) * rot(ax);
        }
        m * Affine::new([s.x / 100.0, 0.0, 0.0, s.y / 100.0, 0.0, 0.0]) * Affine::new([1.0, 0.0, 0.0, 1.0, -a.x, -a.y])
    }
    fn times(&self, o: &mut Vec<f64>) {
        self.anchor.times(o);
        match &self.pos {
            Ok(p) => p.times(o),
            Err((x, y)) => {
                x.times(o);
                y.times(o)
            }
        }
        self.scale.times(o);
        self.rot.times(o);
        self.skew.times(o);
        self.axis.times(o);
    }
}
fn bez_path(b: &Bez, closed: bool) -> Vec<PathEl> {
    let n = b.v.len();
    let mut out = vec![];
    if n == 0 {
        return out;
    }
    out.push(PathEl::MoveTo(b.v[0]));
    let mut seg = |a: usize, z: usize| {
        let (c0, c1) = (b.v[a] + b.o[a], b.v[z] + b.i[z]);
        if c0 == b.v[a] && c1 == b.v[z] {
            out.push(PathEl::LineTo(b.v[z]))
        } else {
            out.push(PathEl::CurveTo(c0, c1, b.v[z]))
        }
    };
    for k in 1..n {
        seg(k - 1, k);
    }
    if closed {
        seg(n - 1, 0);
        out.push(PathEl::ClosePath);
    }
    out
}
impl PathA {
    pub fn at(&self, fr: f64, c: &mut Ctx) -> Vec<PathEl> {
        match self {
            PathA::Static(b, cl) => bez_path(b, *cl),
            PathA::Keys(ks, cl) => {
                let ts: Vec<_> = ks.iter().map(|k| (k.t, k.o, k.i, k.hold)).collect();
                if c.inexact && ks.iter().any(|k| near(k.t, fr)) && ks.iter().any(|k| k.e.is_some()) {
                    c.unspec = true;
                    c.why = "path jump edge";
                }
                let (k, e) = locate(&ts, fr, c);
                let mut b = ks[k].s.clone();
                if e != 0.0 {
                    let z = ks[k].e.as_ref().unwrap_or(&ks[k + 1].s);
                    for q in 0..b.v.len() {
                        b.v[q] = b.v[q].lerp(z.v[q], e);
                        b.i[q] = b.i[q].lerp(z.i[q], e);
                        b.o[q] = b.o[q].lerp(z.o[q], e);
                    }
                }
                bez_path(&b, *cl)
            }
        }
    }
    fn times(&self, o: &mut Vec<f64>) {
        if let PathA::Keys(k, _) = self {
            o.extend(k.iter().map(|k| k.t));
        }
    }
}
impl Geo {
    pub fn at(&self, fr: f64, c: &mut Ctx) -> Vec<PathEl> {
        match self {
            Geo::Rect { p, s, r } => {
                let (p, s, r) = (p.p(fr, c), s.p(fr, c), r.n(fr, c));
                let q = Rect::new(p.x - s.x / 2.0, p.y - s.y / 2.0, p.x + s.x / 2.0, p.y + s.y / 2.0);
                q.to_rounded_rect(r).path_elements(0.1).collect()
            }
            Geo::Ellipse { p, s: size } => {
                let (p, s) = (p.p(fr, c), size.p(fr, c));
                // where an outline starts flips as an ellipse passes through a circle
                let mut ts = vec![];
                size.times(&mut ts);
                if ts.len() > 1 && (s.x.abs() - s.y.abs()).abs() < 1e-6 * (1.0 + s.x.abs()) {
                    c.unspec = true;
                    c.why = "ellipse passing through a circle";
                }
                kurbo::Ellipse::new(p, (s.x / 2.0, s.y / 2.0), 0.0).path_elements(0.1).collect()
            }
            Geo::Path(p) => p.at(fr, c),
            Geo::Raw(p) => p.clone(),
            Geo::Star { polygon, p, or, os, ir, is, r, pt } => {
                let ctr = p.p(fr, c);
                let ptv = pt.n(fr, c);
                let n = ptv.round();
                if ((ptv - n).abs() - 0.5).abs() < 1e-6 {
                    c.unspec = true;
                    c.why = "point count between integers";
                }
                if n < 1.0 {
                    return vec![];
                }
                let n = n as usize;
                let (or, os) = (or.n(fr, c), os.n(fr, c) / 100.0);
                let (ir, is) = (ir.n(fr, c), is.n(fr, c) / 100.0);
                let total = if *polygon { n } else { 2 * n };
                let step = std::f64::consts::TAU / total as f64;
                let a0 = r.n(fr, c).to_radians() - std::f64::consts::FRAC_PI_2;
                // vertex, tangent vector
                let vs: Vec<(Point, Vec2)> = (0..total).map(|k| {
                    let (rad, ro) = if *polygon || k % 2 == 0 { (or, os) } else { (ir, is) };
                    let a = a0 + step * k as f64;
                    let len = if ro.abs() > 1e-6 { rad * (step / 2.0).tan() * ro * 4.0 / 3.0 } else { 0.0 };
                    (ctr + Vec2::new(a.cos(), a.sin()) * rad, Vec2::new(-a.sin(), a.cos()) * len)
                }).collect();
                let mut out = vec![PathEl::MoveTo(vs[0].0)];
                for k in 0..total {
                    let (a, z) = (vs[k], vs[(k + 1) % total]);
                    out.push(PathEl::CurveTo(a.0 + a.1, z.0 - z.1, z.0));
                }
                out.push(PathEl::ClosePath);
                out
            }
        }
    }
    fn times(&self, o: &mut Vec<f64>) {
        match self {
            Geo::Rect { p, s, r } => {
                p.times(o);
                s.times(o);
                r.times(o)
            }
            Geo::Ellipse { p, s } => {
                p.times(o);
                s.times(o)
            }
            Geo::Path(p) => p.times(o),
            Geo::Raw(_) => {}
            Geo::Star { p, or, os, ir, is, r, pt, .. } => {
                for a in [p, or, os, ir, is, r, pt] {
                    a.times(o)
                }
            }
        }
    }
}

/// A sink call with the tolerance its path is judged with (trimming is approximate by design).
#[derive(Clone, Debug)]
pub struct E {
    pub op: Op,
    pub tol: f64,
}
#[derive(Clone)]
struct G {
    t: Affine,
    path: Vec<PathEl>,
    tol: f64,
    /// placement within the current group (`t` is the placement on the canvas)
    rel: Affine,
    /// directly follows an unpainted path of another group in a coinciding frame
    joinable: bool,
}
struct P {
    geoms: Vec<usize>,
    stroke: Option<kurbo::Stroke>,
    brush: Brush,
}
struct Scope {
    all: Vec<G>,
    paints: Vec<P>,
    /// number of geometries when the last paint was recorded: those are fixed
    painted: usize,
}
/// An opacity as a share of one. What an easing makes of it beyond its range is not defined.
fn share(o: &Anim, fr: f64, c: &mut Ctx) -> f64 {
    let v = o.n(fr, c);
    if !(-1e-9..=100.0 + 1e-9).contains(&v) {
        c.unspec = true;
        c.why = "opacity out of range";
    }
    v / 100.0
}
fn color(v: &[f64], alpha: f64) -> Color {
    Color::new([v[0] as f32, v[1] as f32, v[2] as f32, alpha as f32])
}
impl Scope {
    fn walk(&mut self, its: &[Item], t: Affine, alpha: f64, fr: f64, c: &mut Ctx) -> Vec<usize> {
        let mut mine: Vec<usize> = vec![];
        let before = self.paints.len();
        // the last path of this scope that later sibling paths join
        let mut open: Option<usize> = None;
        for it in its {
            match it {
                Item::Geo(g) => {
                    let path = g.at(fr, c);
                    match open {
                        Some(k) => self.all[k].path.extend(path),
                        None => {
                            let k = self.all.len();
                            let joinable = k > self.painted && close_aff(self.all[k - 1].t, t, 1e-6);
                            self.all.push(G { t, path, tol: 0.0, rel: Affine::IDENTITY, joinable });
                            open = Some(self.all.len() - 1);
                            mine.push(self.all.len() - 1);
                        }
                    }
                }
                Item::Paint { stroke, paint, opacity } => {
                    let a = alpha * share(opacity, fr, c);
                    let brush: Brush = match paint {
                        Paint::Solid(col) => color(&col.at(fr, c), a).into(),
                        Paint::Grad { radial, s, e, stops, count } => {
                            let (s, e) = (s.p(fr, c), e.p(fr, c));
                            let v = stops.at(fr, c);
                            let mut g = if *radial { Gradient::new_radial(s, (e - s).hypot() as f32) } else { Gradient::new_linear(s, e) };
                            for k in 0..*count {
                                g.stops.push((v[5 * k] as f32, color(&v[5 * k + 1..], a * v[5 * k + 4])).into());
                            }
                            g.into()
                        }
                    };
                    let stroke = stroke.as_ref().map(|s| {
                        let mut k = kurbo::Stroke::new(s.w.n(fr, c))
                            .with_caps(match s.cap {
                                1 => kurbo::Cap::Butt,
                                2 => kurbo::Cap::Round,
                                _ => kurbo::Cap::Square,
                            })
                            .with_join(match s.join {
                                1 => kurbo::Join::Miter,
                                2 => kurbo::Join::Round,
                                _ => kurbo::Join::Bevel,
                            });
                        if let Some(m) = s.miter {
                            k.miter_limit = m;
                        }
                        k
                    });
                    self.paints.push(P { geoms: mine.clone(), stroke, brush });
                    self.painted = self.all.len();
                    open = None;
                }
                Item::Group { items, xf } => {
                    let (m, a) = match xf {
                        None => (Affine::IDENTITY, 1.0),
                        Some((x, o)) => (x.at(fr, c), share(o, fr, c)),
                    };
                    let inner = self.walk(items, t * m, alpha * a, fr, c);
                    for &k in &inner {
                        self.all[k].rel = m * self.all[k].rel;
                    }
                    mine.extend(inner);
                    open = None;
                }
                Item::Repeat(rp) => {
                    let n = rp.copies.n(fr, c);
                    if ((n - n.round()).abs() - 0.5).abs() < 1e-6 {
                        c.unspec = true;
                        c.why = "copies between integers";
                    }
                    let n = n.round().max(0.0) as usize;
                    if n > 64 {
                        c.unspec = true;
                        c.why = "copies";
                        continue;
                    }
                    let off = rp.offset.n(fr, c);
                    let (a, p, s, r) = (rp.anchor.p(fr, c), rp.pos.p(fr, c), rp.scale.p(fr, c), rp.rot.n(fr, c));
                    let (so, eo) = (share(&rp.so, fr, c), share(&rp.eo, fr, c));
                    let base = self.all.len();
                    let paints: Vec<P> = self.paints.drain(before..).collect();
                    let mut moved = vec![];
                    for i in 0..n {
                        let x = off + i as f64;
                        let m = Affine::translate((x * p.x + a.x, x * p.y + a.y))
                            * Affine::rotate((x * r).to_radians())
                            * Affine::new([(s.x / 100.0).powf(x), 0.0, 0.0, (s.y / 100.0).powf(x), -a.x * (s.x / 100.0).powf(x), -a.y * (s.y / 100.0).powf(x)]);
                        if !m.is_finite() {
                            c.unspec = true;
                            c.why = "scale without a power";
                        }
                        for &k in &mine {
                            let mut g = self.all[k].clone();
                            g.rel = m * g.rel;
                            g.t = t * g.rel;
                            moved.push(self.all.len());
                            self.all.push(g);
                        }
                        let al = if n > 1 { so + (eo - so) * i as f64 / n as f64 } else { so };
                        for q in &paints {
                            if al > 0.0 {
                                let geoms = q.geoms.iter().map(|k| base + i * mine.len() + mine.iter().position(|x| x == k).unwrap()).collect();
                                self.paints.push(P { geoms, stroke: q.stroke.clone(), brush: q.brush.clone().multiply_alpha(al as f32) });
                            }
                        }
                    }
                    mine = moved;
                    self.painted = self.all.len();
                    open = None;
                }
                Item::Trim { s, e, o } => {
                    let (s, e, o) = (s.n(fr, c), e.n(fr, c), o.n(fr, c));
                    // adjacent unpainted paths in coinciding frames of different groups: whether they count as
                    // one length or several is not defined
                    for w in mine.windows(2) {
                        if self.all[w[1]].joinable {
                            c.unspec = true;
                            c.why = "trim over coinciding groups";
                        }
                    }
                    let ranges = trim_ranges(s, e, o, c);
                    if let Some(r) = ranges {
                        for &k in &mine {
                            let g = &mut self.all[k];
                            let had = length(&g.path);
                            // (velato measures each segment to within a tenth)
                            let far = if had > 2500.0 { 0.3 * g.path.len() as f64 } else { 0.0 };
                            g.path = trim_path(&g.path, &r);
                            g.tol = g.tol.max(1.5 + far);
                            if !r.is_empty() && had > 0.0 && length(&g.path) < 1.0 {
                                c.unspec = true;
                                c.why = "vanishing trim";
                            }
                        }
                    }
                }
            }
        }
        mine
    }
}
/// None: path stays as it is. Otherwise visible parts as fractions of the length, in drawing order.
fn trim_ranges(s: f64, e: f64, o: f64, c: &mut Ctx) -> Option<Vec<(f64, f64)>> {
    let (lo, hi) = (s.min(e), s.max(e));
    let len = hi - lo;
    if len < 1e-9 {
        return Some(vec![]);
    }
    if len < 1e-4 {
        c.unspec = true;
        c.why = "vanishing trim";
    }
    if len >= 100.0 - 1e-9 {
        return None;
    }
    let st = (lo + o / 3.6).rem_euclid(100.0);
    // within rounding of the wrap point the first part may be empty or whole
    if near(st, 100.0) || near(st, 0.0) && st != 0.0 || near(st + len, 100.0) && st + len != 100.0 {
        c.unspec = true;
        c.why = "trim wrap edge";
    }
    Some(if st + len <= 100.0 {
        vec![(st / 100.0, (st + len) / 100.0)]
    } else {
        vec![(st / 100.0, 1.0), (0.0, (st + len - 100.0) / 100.0)]
    })
}
/// Path as cubic segments with explicit starts; closing edges become lines.
pub fn segs(p: &[PathEl]) -> Vec<[Point; 4]> {
    let mut out = vec![];
    let (mut cur, mut start) = (Point::ZERO, Point::ZERO);
    for e in p {
        match *e {
            PathEl::MoveTo(a) => {
                cur = a;
                start = a
            }
            PathEl::LineTo(a) => {
                out.push([cur, cur, a, a]);
                cur = a
            }
            PathEl::QuadTo(q, a) => {
                out.push([cur, cur + (q - cur) * (2.0 / 3.0), a + (q - a) * (2.0 / 3.0), a]);
                cur = a
            }
            PathEl::CurveTo(a, b, d) => {
                out.push([cur, a, b, d]);
                cur = d
            }
            PathEl::ClosePath => {
                if cur != start {
                    out.push([cur, cur, start, start]);
                }
                cur = start
            }
        }
    }
    out
}
pub fn at(s: &[Point; 4], u: f64) -> Point {
    let m = 1.0 - u;
    let v = s[0].to_vec2() * (m * m * m) + s[1].to_vec2() * (3.0 * m * m * u) + s[2].to_vec2() * (3.0 * m * u * u) + s[3].to_vec2() * (u * u * u);
    v.to_point()
}
const N: usize = 64;
fn chords(s: &[Point; 4]) -> Vec<f64> {
    let mut acc = vec![0.0];
    let mut p = s[0];
    for k in 1..=N {
        let q = at(s, k as f64 / N as f64);
        acc.push(acc[k - 1] + p.distance(q));
        p = q;
    }
    acc
}
fn param_at(ch: &[f64], l: f64) -> f64 {
    if l <= 0.0 {
        return 0.0;
    }
    for k in 1..=N {
        if ch[k] >= l {
            let d = ch[k] - ch[k - 1];
            return ((k - 1) as f64 + if d > 0.0 { (l - ch[k - 1]) / d } else { 0.0 }) / N as f64;
        }
    }
    1.0
}
fn sub(s: &[Point; 4], a: f64, b: f64) -> [Point; 4] {
    kurbo::ParamCurve::subsegment(&kurbo::CubicBez::new(s[0], s[1], s[2], s[3]), a..b).into_arr()
}
trait IntoArr {
    fn into_arr(self) -> [Point; 4];
}
impl IntoArr for kurbo::CubicBez {
    fn into_arr(self) -> [Point; 4] {
        [self.p0, self.p1, self.p2, self.p3]
    }
}
fn length(p: &[PathEl]) -> f64 {
    segs(p).iter().map(|s| chords(s)[N]).sum()
}
fn trim_path(p: &[PathEl], ranges: &[(f64, f64)]) -> Vec<PathEl> {
    let ss = segs(p);
    let ch: Vec<Vec<f64>> = ss.iter().map(chords).collect();
    let total: f64 = ch.iter().map(|c| c[N]).sum();
    let mut out = vec![];
    for (a, b) in ranges {
        let (a, b) = (a * total, b * total);
        let mut pos = 0.0;
        let mut pen = None;
        for (s, c) in ss.iter().zip(&ch) {
            let (lo, hi) = (a.max(pos) - pos, b.min(pos + c[N]) - pos);
            if hi - lo > 1e-6 {
                let q = sub(s, param_at(c, lo), param_at(c, hi));
                // separate subpaths stay separate
                if pen != Some(s[0]) {
                    out.push(PathEl::MoveTo(q[0]));
                }
                pen = Some(s[3]);
                out.push(PathEl::CurveTo(q[1], q[2], q[3]));
            }
            pos += c[N];
        }
    }
    out
}
pub fn close_aff(a: Affine, b: Affine, tol: f64) -> bool {
    let (x, y) = (a.as_coeffs(), b.as_coeffs());
    (0..6).all(|k| (x[k] - y[k]).abs() <= tol * (1.0 + x[k].abs().max(y[k].abs())))
}

pub struct Frame {
    pub ops: Vec<E>,
    pub unspec: bool,
    pub why: &'static str,
}
fn push(o: &mut Vec<E>, op: Op) {
    o.push(E { op, tol: 0.0 });
}
pub fn rect_path(w: f64, h: f64) -> Vec<PathEl> {
    Rect::new(0.0, 0.0, w, h).path_elements(0.1).collect()
}
pub fn render(d: &Doc, frame: f64, t: Affine, alpha: f64) -> Frame {
    let mut c = Ctx { inexact: false, unspec: false, why: "" };
    let mut o = vec![];
    push(&mut o, Op::PushClip { t, path: rect_path(d.w, d.h) });
    list(d, &d.layers, t, alpha, frame, &mut c, &mut o, 0);
    push(&mut o, Op::Pop);
    Frame { ops: o, unspec: c.unspec || !frame.is_finite(), why: c.why }
}
fn list(d: &Doc, ls: &[Layer], t: Affine, alpha: f64, fr: f64, c: &mut Ctx, o: &mut Vec<E>, depth: usize) {
    for k in (0..ls.len()).rev() {
        if !ls[k].td {
            layer(d, ls, k, t, alpha, fr, c, o, depth);
        }
    }
}
/// Modes from 100 on stand for the blend modes only compositions built by hand can ask for.
pub fn matte_mode(mode: u64) -> BlendMode {
    match mode {
        1 | 3 => Compose::SrcIn.into(),
        100 => Mix::Multiply.into(),
        101 => Mix::Screen.into(),
        102 => Compose::DestOut.into(),
        103 => BlendMode::new(Mix::Luminosity, Compose::Xor),
        _ => Compose::SrcOut.into(),
    }
}
fn layer(d: &Doc, ls: &[Layer], k: usize, t: Affine, alpha: f64, fr: f64, c: &mut Ctx, o: &mut Vec<E>, depth: usize) {
    let l = &ls[k];
    if depth > 40 {
        c.unspec = true;
        c.why = "cycle";
        return;
    }
    if c.inexact && (near(l.ip, fr) || near(l.op, fr)) {
        c.unspec = true;
        c.why = "window edge";
    }
    if !(l.ip <= fr && fr < l.op) {
        return;
    }
    push(o, Op::Begin { name: l.name.clone(), index: k });
    // placement: outermost parent first
    let mut m = l.xf.at(fr, c);
    let mut p = l.parent;
    while let Some(q) = p {
        m = ls[q].xf.at(fr, c) * m;
        p = ls[q].parent;
    }
    let m = t * m;
    let mut pops = 0;
    if let Some((mode, src)) = l.matte {
        let canvas = rect_path(d.w, d.h);
        push(o, Op::PushLayer { blend: Mix::Normal.into(), alpha: 1.0, t, path: canvas.clone() });
        layer(d, ls, src, t, alpha, fr, c, o, depth + 1);
        let blend = matte_mode(mode);
        push(o, Op::PushLayer { blend, alpha: 1.0, t, path: canvas });
        pops += 2;
    }
    let a = alpha * share(&l.opacity, fr, c);
    for mk in &l.masks {
        let path = mk.at(fr, c);
        push(o, Op::PushClip { t: m, path });
        pops += 1;
    }
    match &l.kind {
        Kind::Empty => {}
        Kind::Shapes(its) => {
            let mut s = Scope { all: vec![], paints: vec![], painted: 0 };
            s.walk(its, m, a, fr, c);
            for p in s.paints.iter().rev() {
                for &g in &p.geoms {
                    let g = &s.all[g];
                    o.push(E { op: Op::Draw { stroke: p.stroke.clone(), t: g.t, brush: p.brush.clone(), path: g.path.clone() }, tol: g.tol });
                }
            }
        }
        Kind::Instance(r) => {
            if let Some(inner) = d.assets.get(r) {
                let local = (fr - l.st) / l.sr;
                let other = fr / l.sr - l.st / l.sr;
                let was = c.inexact;
                c.inexact |= local != other;
                list(d, inner, m, a, local, c, o, depth + 1);
                c.inexact = was;
            }
        }
    }
    for _ in 0..pops {
        push(o, Op::Pop);
    }
    push(o, Op::End);
}

// ------------------------------------------------------------------------------------------ instants of interest
fn item_times(its: &[Item], o: &mut Vec<f64>) {
    for it in its {
        match it {
            Item::Geo(g) => g.times(o),
            Item::Paint { stroke, paint, opacity } => {
                if let Some(s) = stroke {
                    s.w.times(o)
                }
                match paint {
                    Paint::Solid(c) => c.times(o),
                    Paint::Grad { s, e, stops, .. } => {
                        s.times(o);
                        e.times(o);
                        stops.times(o)
                    }
                }
                opacity.times(o)
            }
            Item::Group { items, xf } => {
                item_times(items, o);
                if let Some((x, a)) = xf {
                    x.times(o);
                    a.times(o)
                }
            }
            Item::Repeat(r) => {
                for a in [&r.copies, &r.offset, &r.anchor, &r.pos, &r.rot, &r.scale, &r.so, &r.eo] {
                    a.times(o)
                }
            }
            Item::Trim { s, e, o: off } => {
                s.times(o);
                e.times(o);
                off.times(o)
            }
        }
    }
}
fn list_times(d: &Doc, ls: &[Layer], depth: usize, o: &mut Vec<f64>) {
    for l in ls {
        o.push(l.ip);
        o.push(l.op);
        l.xf.times(o);
        l.opacity.times(o);
        for m in &l.masks {
            m.times(o)
        }
        match &l.kind {
            Kind::Shapes(s) => item_times(s, o),
            Kind::Instance(r) if depth < 4 => {
                if let Some(a) = d.assets.get(r) {
                    let mut inner = vec![];
                    list_times(d, a, depth + 1, &mut inner);
                    o.extend(inner.into_iter().map(|t| t * l.sr + l.st));
                }
            }
            _ => {}
        }
    }
}
/// Outer-clock instants at which something starts, stops or has a keyframe.
pub fn events(d: &Doc) -> Vec<f64> {
    let mut o = vec![d.ip, d.op];
    list_times(d, &d.layers, 0, &mut o);
    o.retain(|x| x.is_finite());
    o.sort_by(f64::total_cmp);
    o.dedup();
    o
}

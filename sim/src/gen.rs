//! Scenario generator: documents, playback clocks, storage faults. Everything is a function of the run's seed.
use crate::rng::Rng;
use crate::scen::*;
use serde_json::{json, Map, Value};

/// What a workload's documents contain and how often.
#[derive(Clone)]
pub struct Prof {
    pub layers: (i64, i64),
    /// weights: shape, null, solid, image, instance
    pub kinds: [u32; 5],
    pub depth: usize,
    pub anim: f64,
    pub hold: f64,
    pub ease: f64,
    pub hidden: f64,
    pub parent: f64,
    pub matte: f64,
    pub mask: f64,
    pub td: f64,
    pub items: (i64, i64),
    pub gdepth: usize,
    pub group: f64,
    pub trim: f64,
    pub grad: f64,
    pub stroke: f64,
    pub unsup: f64,
    pub split: f64,
    pub skew: f64,
    pub opac: f64,
    pub omit: f64,
    pub missing: f64,
    pub window: f64,
    pub star: f64,
    /// group transforms that coincide with their parent's
    pub ident: f64,
    pub shift: f64,
    /// layer transforms that do nothing
    pub still: f64,
    /// documents with much more of one thing
    pub big: f64,
}
impl Prof {
    pub fn all() -> Prof {
        Prof {
            layers: (1, 5),
            kinds: [10, 2, 1, 1, 3],
            depth: 2,
            anim: 0.35,
            hold: 0.25,
            ease: 0.5,
            hidden: 0.06,
            parent: 0.3,
            matte: 0.2,
            mask: 0.2,
            td: 0.04,
            items: (1, 5),
            gdepth: 2,
            group: 0.3,
            trim: 0.12,
            grad: 0.2,
            stroke: 0.35,
            unsup: 0.06,
            split: 0.25,
            skew: 0.15,
            opac: 0.4,
            omit: 0.3,
            missing: 0.05,
            window: 0.5,
            star: 0.1,
            ident: 0.25,
            shift: 0.3,
            still: 0.06,
            big: 0.15,
        }
    }
    /// The same mixture in as small a document as it fits.
    pub fn tight(self) -> Prof {
        Prof { layers: (self.layers.0.min(2), self.layers.1.min(3)), items: (1, 2), depth: self.depth.min(1), gdepth: self.gdepth.min(1), big: 0.0, ..self }
    }
    /// Small documents with one thing happening per layer.
    pub fn lean() -> Prof {
        Prof {
            layers: (1, 4),
            kinds: [10, 1, 0, 0, 1],
            depth: 1,
            hidden: 0.0,
            parent: 0.1,
            matte: 0.05,
            mask: 0.05,
            td: 0.0,
            items: (1, 3),
            gdepth: 1,
            group: 0.2,
            trim: 0.0,
            grad: 0.1,
            stroke: 0.2,
            unsup: 0.0,
            missing: 0.0,
            ..Prof::all()
        }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Prof,
    times: Vec<f64>,
    t0: f64,
    t1: f64,
    names: usize,
    ids_seen: Vec<i64>,
    nassets: usize,
    size: usize,
    /// which dimension is enlarged
    boost: usize,
}

/// Integral floats are written both ways, like real exporters do.
pub fn num(r: &mut Rng, v: f64) -> Value {
    if v.fract() == 0.0 && v.abs() < 1e15 && !r.chance(0.1) {
        json!(v as i64)
    } else {
        json!(v)
    }
}

const OX: [f64; 6] = [0.0, 0.167, 0.333, 0.42, 0.5, 0.6];
const IX: [f64; 6] = [0.4, 0.5, 0.58, 0.667, 0.833, 1.0];
const CANVAS: [(i64, i64); 12] =
    [(512, 512), (100, 200), (1920, 1080), (64, 48), (300, 300), (512, 512), (100, 200), (1, 1), (70000, 3), (0, 100), (100, 0), (0, 0)];

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, mut p: Prof) -> Self {
        let boost = if r.chance(p.big) { r.range(1, 10) as usize } else { 0 };
        match boost {
            1 => {
                p.layers = (p.layers.1, if r.chance(0.2) { 70 } else { 24 });
                p.items = (1, 2);
                p.depth = p.depth.min(1);
            }
            5 => {
                p.gdepth = 7;
                p.group = 0.75;
                p.items = (1, 2);
                p.layers = (1, 2);
            }
            6 => {
                p.depth = 5;
                p.layers = (1, 2);
                p.kinds = [3, 0, 0, 0, 9];
                p.items = (1, 2);
            }
            7 => {
                p.items = (p.items.1, if r.chance(0.2) { 60 } else { 20 });
                p.layers = (1, 2);
                p.group *= 0.5;
            }
            8 => {
                p.layers = if r.chance(0.2) { (20, 40) } else { (4, 16) };
                p.parent = 0.97;
                p.items = (1, 1);
                p.depth = p.depth.min(1);
            }
            10 => {
                p.layers = (1, 2);
                p.items = (1, 2);
                p.kinds[4] = p.kinds[4].max(if p.depth > 0 { 8 } else { 0 });
            }
            _ => {}
        }
        let t0 = if r.chance(p.shift) { *r.pick(&[-20.0, -3.5, 5.0, 7.25, 100.0, 100000.0]) } else { 0.0 };
        let len = *r.pick(&[8.0, 16.0, 30.0, 60.0, 24.5]);
        let mut times = vec![t0, t0 + len];
        for _ in 0..r.range(4, 9) {
            let q = *r.pick(&[1.0, 1.0, 4.0, 8.0]);
            times.push(t0 + r.grid(0.0, len, q));
        }
        times.sort_by(f64::total_cmp);
        times.dedup();
        Gen { r, p, times, t0, t1: t0 + len, names: 0, ids_seen: vec![], nassets: 0, size: 0, boost }
    }
    fn n(&mut self, v: f64) -> Value {
        num(self.r, v)
    }
    /// Sorted distinct keyframe times.
    fn key_times(&mut self) -> Vec<f64> {
        let k = *self.r.pick(&[1usize, 2, 2, 2, 3, 3, 4]);
        let mut t: Vec<f64> = (0..k).map(|_| *self.r.pick(&self.times)).collect();
        if self.boost == 2 && self.r.chance(0.4) {
            let more = if self.r.chance(0.15) { 70 } else { 20 };
            for _ in 0..self.r.range(4, more) {
                t.push(self.r.grid(self.t0, self.t1, 4.0));
            }
        }
        if self.r.chance(0.3) {
            let x = self.r.grid(self.t0 - 5.0, self.t1 + 5.0, 10.0);
            t.push(x);
        }
        t.sort_by(f64::total_cmp);
        t.dedup_by(|a, b| (*a - *b).abs() < 0.01);
        t
    }
    fn coord(&mut self, x: f64, y: f64, dims: usize) -> (Value, Value) {
        let arr = |g: &mut Self, v: f64, n: usize| {
            let v = g.n(v);
            Value::Array(vec![v; n])
        };
        if dims == 1 && self.r.chance(0.15) {
            // a number has one component: whatever follows the first handle component belongs to nothing
            let mut more = |g: &mut Self, v: f64| {
                let mut a = vec![g.n(v)];
                for _ in 0..g.r.range(0, 2) {
                    let w = g.r.grid(0.0, 1.0, 100.0);
                    a.push(g.n(w));
                }
                Value::Array(a)
            };
            return (more(self, x), more(self, y));
        }
        match self.r.below(7) {
            0 | 1 => (self.n(x), self.n(y)),
            2 | 3 => (arr(self, x, 1), arr(self, y, 1)),
            4 => {
                let n = self.r.range(1, dims.clamp(1, 3) as i64) as usize;
                if self.r.chance(0.5) {
                    (self.n(x), arr(self, y, n))
                } else {
                    (arr(self, x, n), self.n(y))
                }
            }
            _ => {
                let n = dims.clamp(1, 3);
                (arr(self, x, n), arr(self, y, n))
            }
        }
    }
    /// Adds easing handles and hold flag to a keyframe.
    fn easing(&mut self, k: &mut Map<String, Value>, dims: usize) {
        if self.r.chance(self.p.hold) {
            k.insert("h".into(), json!(1));
        } else if self.r.chance(0.1) {
            k.insert("h".into(), json!(0));
        }
        if self.r.chance(self.p.ease) {
            let (ox, ix) = (*self.r.pick(&OX), *self.r.pick(&IX));
            let (oy, iy) = if self.r.chance(0.5) { (ox, ix) } else { (self.r.grid(-0.3, 1.0, 100.0), self.r.grid(0.0, 1.3, 100.0)) };
            let (oy, iy) = if self.r.chance(0.3) { (0.0, 1.0) } else { (oy, iy) };
            let (x, y) = self.coord(ox, oy, dims);
            k.insert("o".into(), json!({"x": x, "y": y}));
            let (x, y) = self.coord(ix, iy, dims);
            k.insert("i".into(), json!({"x": x, "y": y}));
        }
    }
    fn vals(&mut self, lo: f64, hi: f64, q: f64, dims: usize) -> Vec<f64> {
        (0..dims).map(|_| self.r.grid(lo, hi, q)).collect()
    }
    fn arr(&mut self, v: &[f64]) -> Value {
        Value::Array(v.iter().map(|x| num(self.r, *x)).collect())
    }
    /// An animatable property. `dims` values per key, `pad` extra components.
    pub fn prop(&mut self, dims: usize, lo: f64, hi: f64, q: f64) -> Value {
        let pad = if dims == 2 && self.r.chance(0.4) { vec![0.0] } else { vec![] };
        self.prop_with(dims, &mut |g| {
            let mut v = g.vals(lo, hi, q, dims);
            v.extend(&pad);
            v
        })
    }
    fn prop_with(&mut self, dims: usize, f: &mut dyn FnMut(&mut Self) -> Vec<f64>) -> Value {
        let mut m = Map::new();
        if self.r.chance(self.p.anim) {
            let ts = self.key_times();
            let mut ks = vec![];
            let mut last: Option<Vec<f64>> = None;
            for (i, t) in ts.iter().enumerate() {
                let mut k = Map::new();
                k.insert("t".into(), self.n(*t));
                let v = match &last {
                    Some(l) if self.r.chance(0.1) => l.clone(),
                    _ => f(self),
                };
                k.insert("s".into(), self.arr(&v));
                last = Some(v);
                if i + 1 < ts.len() || self.r.chance(0.3) {
                    self.easing(&mut k, dims);
                }
                ks.push(Value::Object(k));
            }
            // the old format repeats the next start as this key's end
            if self.r.chance(0.15) {
                for i in 0..ks.len() - 1 {
                    let e = ks[i + 1]["s"].clone();
                    ks[i]["e"] = e;
                }
            }
            m.insert("a".into(), json!(1));
            m.insert("k".into(), Value::Array(ks));
        } else {
            let v = f(self);
            m.insert("a".into(), json!(0));
            let k = if dims == 1 { self.n(v[0]) } else { self.arr(&v) };
            m.insert("k".into(), k);
        }
        if self.r.chance(0.1) {
            m.insert("ix".into(), json!(self.r.range(1, 9)));
        }
        Value::Object(m)
    }
    fn scalar(&mut self, lo: f64, hi: f64, q: f64) -> Value {
        self.prop(1, lo, hi, q)
    }
    fn opacity(&mut self) -> Value {
        if self.r.chance(self.p.opac) {
            let q = *self.r.pick(&[0.2, 1.0, 4.0]);
            self.scalar(0.0, 100.0, q)
        } else {
            json!({"a": 0, "k": 100})
        }
    }
    pub fn transform(&mut self, ident: bool) -> Map<String, Value> {
        let mut m = Map::new();
        if ident {
            m.insert("p".into(), json!({"a": 0, "k": [0, 0]}));
            m.insert("r".into(), json!({"a": 0, "k": 0}));
            m.insert("s".into(), json!({"a": 0, "k": [100, 100]}));
            if self.r.chance(self.p.opac * 0.5) {
                m.insert("o".into(), self.opacity());
            }
            return m;
        }
        if self.r.chance(self.p.split) {
            let (x, y) = (self.scalar(-50.0, 300.0, 2.0), self.scalar(-50.0, 300.0, 2.0));
            let mut p = json!({"s": true, "x": x, "y": y});
            if self.r.chance(0.2) {
                p["z"] = self.scalar(-5.0, 5.0, 1.0);
            }
            m.insert("p".into(), p);
        } else {
            m.insert("p".into(), self.prop(2, -50.0, 300.0, 2.0));
        }
        if !self.r.chance(self.p.omit) {
            m.insert("a".into(), self.prop(2, -40.0, 60.0, 2.0));
        }
        if !self.r.chance(self.p.omit) {
            m.insert("s".into(), self.prop(2, -120.0, 220.0, 0.5));
        }
        if !self.r.chance(self.p.omit) {
            if self.r.chance(self.p.split * 0.3) {
                let (x, y) = (json!({"a": 0, "k": 0}), json!({"a": 0, "k": 0}));
                let z = self.scalar(-180.0, 400.0, 1.0);
                m.insert("r".into(), json!({"x": x, "y": y, "z": z, "or": {"a": 0, "k": [0, 0, 0]}}));
            } else {
                m.insert("r".into(), self.scalar(-180.0, 400.0, 1.0));
            }
        }
        if self.r.chance(self.p.opac) {
            m.insert("o".into(), self.opacity());
        }
        if self.r.chance(self.p.skew) {
            m.insert("sk".into(), self.scalar(-40.0, 40.0, 1.0));
            if self.r.chance(0.7) {
                m.insert("sa".into(), self.scalar(-90.0, 180.0, 1.0));
            }
        }
        m
    }
    fn bezier(&mut self, n: usize, closed: bool) -> Value {
        let curved = self.r.chance(0.6);
        let pts = |g: &mut Self, lo: f64, hi: f64, k: usize| -> Vec<Value> {
            (0..k).map(|_| { let v = g.vals(lo, hi, 2.0, 2); g.arr(&v) }).collect()
        };
        let v = pts(self, -100.0, 100.0, n);
        let z = |k: usize| vec![json!([0, 0]); k];
        let short = self.r.chance(0.1);
        let k = if short { n.saturating_sub(1) } else { n };
        let (i, o) = if curved { (pts(self, -30.0, 30.0, k), pts(self, -30.0, 30.0, n)) } else { (z(k), z(n)) };
        let mut b = json!({"v": v, "i": i, "o": o});
        if closed || self.r.chance(0.5) {
            b["c"] = json!(closed);
        }
        b
    }
    pub fn path(&mut self) -> Value {
        let n = match self.r.below(30) {
            0 => 0,
            1 => 1,
            _ if self.boost == 3 => {
                let most = if self.r.chance(0.15) { 150 } else { 40 };
                self.r.range(5, most) as usize
            }
            _ => self.r.range(2, 5) as usize,
        };
        let closed = self.r.chance(0.6);
        if self.r.chance(self.p.anim) {
            let ts = self.key_times();
            let vals: Vec<Value> = ts.iter().map(|_| self.bezier(n, closed)).collect();
            let with_e = self.r.chance(0.3);
            let own_e = with_e && self.r.chance(0.3);
            let drop_last = ts.len() > 1 && self.r.chance(0.3);
            let mut ks = vec![];
            for i in 0..ts.len() {
                let mut k = Map::new();
                k.insert("t".into(), self.n(ts[i]));
                if !(drop_last && i + 1 == ts.len()) {
                    k.insert("s".into(), json!([vals[i]]));
                }
                if i + 1 < ts.len() {
                    if with_e {
                        let e = if own_e { self.bezier(n, closed) } else { vals[i + 1].clone() };
                        k.insert("e".into(), json!([e]));
                    }
                    self.easing(&mut k, 1);
                }
                ks.push(Value::Object(k));
            }
            json!({"a": 1, "k": ks})
        } else {
            json!({"a": 0, "k": self.bezier(n, closed)})
        }
    }
    fn geometry(&mut self) -> Value {
        self.size += 1;
        let mut g = if self.r.chance(self.p.star) {
            let polygon = self.r.chance(0.5);
            let round = if self.r.chance(0.2) { (-60.0, 260.0) } else { (0.0, 60.0) };
            let mut s = json!({"ty": "sr", "sy": if polygon { 2 } else { 1 }, "d": 1,
                "p": self.prop(2, -50.0, 50.0, 2.0), "or": self.scalar(10.0, 80.0, 1.0), "os": self.scalar(round.0, round.1, 1.0),
                "r": self.scalar(-90.0, 180.0, 1.0), "pt": self.scalar(3.0, 8.0, 1.0)});
            if !polygon || self.r.chance(0.3) {
                s["ir"] = self.scalar(5.0, 40.0, 1.0);
                s["is"] = self.scalar(round.0, round.1, 1.0);
            }
            s
        } else {
            match self.r.below(3) {
                0 => json!({"ty": "rc", "p": self.prop(2, -80.0, 80.0, 2.0), "s": self.prop(2, 4.0, 150.0, 2.0),
                    "r": if self.r.chance(0.6) { json!({"a": 0, "k": 0}) } else { self.scalar(0.0, 20.0, 2.0) }}),
                1 => json!({"ty": "el", "p": self.prop(2, -80.0, 80.0, 2.0), "s": self.prop(2, 4.0, 150.0, 2.0)}),
                _ => json!({"ty": "sh", "ks": self.path()}),
            }
        };
        if self.r.chance(0.2) {
            g["nm"] = json!(format!("geo {}", self.r.below(9)));
        }
        if self.r.chance(0.1) {
            g["hd"] = json!(false);
        }
        g
    }
    fn color(&mut self) -> Value {
        let four = self.r.chance(0.6);
        self.prop_with(3, &mut |g| {
            let mut v = g.vals(0.0, 1.0, 100.0, 3);
            if four {
                v.push(1.0);
            }
            v
        })
    }
    fn stops(&mut self, n: usize) -> Value {
        // two transparency stops, at either end; in between alpha is linear (velato rounds it near the ends)
        let clear = self.r.chance(0.25);
        let places: Vec<f64> = (0..n).map(|_| *self.r.pick(&[0.0, 1.0, 0.125, 0.25, 0.5, 0.625, 0.875])).collect();
        self.prop_with(3, &mut |g| {
            let mut off: Vec<f64> = if clear { places.clone() } else { (0..n).map(|_| g.r.grid(0.0, 1.0, 100.0)).collect() };
            off.sort_by(f64::total_cmp);
            let mut v = vec![];
            for o in off {
                v.push(o);
                v.extend(g.vals(0.0, 1.0, 100.0, 3));
            }
            if clear {
                let a = g.vals(0.0, 1.0, 20.0, 2);
                v.extend([0.0, a[0], 1.0, a[1]]);
            }
            v
        })
    }
    pub fn paint(&mut self) -> Value {
        let grad = self.r.chance(self.p.grad);
        let stroke = self.r.chance(self.p.stroke);
        let mut m = Map::new();
        m.insert("ty".into(), json!(match (grad, stroke) {
            (false, false) => "fl",
            (false, true) => "st",
            (true, false) => "gf",
            _ => "gs",
        }));
        m.insert("o".into(), self.opacity());
        if grad {
            let n = if self.boost == 4 { self.r.range(4, 16) } else { self.r.range(2, 4) } as usize;
            m.insert("g".into(), json!({"p": n, "k": self.stops(n)}));
            m.insert("s".into(), self.prop(2, -60.0, 0.0, 2.0));
            let e = match self.r.below(12) {
                0 => m["s"].clone(),
                1 => self.prop(2, -60.0, 1.0, 2.0),
                _ => self.prop(2, 5.0, 90.0, 2.0),
            };
            m.insert("e".into(), e);
            m.insert("t".into(), json!(self.r.range(1, 2)));
        } else {
            m.insert("c".into(), self.color());
        }
        if stroke {
            m.insert("w".into(), if self.r.chance(0.15) { self.scalar(0.0, 3.0, 1.0) } else { self.scalar(0.5, 12.0, 4.0) });
            if self.r.chance(0.7) {
                m.insert("lc".into(), json!(self.r.range(1, 3)));
            }
            if self.r.chance(0.7) {
                m.insert("lj".into(), json!(self.r.range(1, 3)));
            }
            if self.r.chance(0.3) {
                let ml = *self.r.pick(&[4.5, 4.0, 1.0, 0.5, 2.0, 10.0, 100.0]);
                m.insert("ml".into(), self.n(ml));
            }
        } else if self.r.chance(0.3) {
            m.insert("r".into(), json!(1));
        }
        if self.r.chance(0.2) {
            m.insert("nm".into(), json!("paint"));
        }
        Value::Object(m)
    }
    fn trim(&mut self) -> Value {
        let full = self.r.chance(0.2);
        let edge = self.r.chance(0.12);
        let (s, e) = if edge {
            // nearly everything, or only an end of it
            match self.r.below(5) {
                3 => {
                    let at = self.r.grid(0.0, 99.0, 4.0);
                    let by = *self.r.pick(&[0.0625, 0.25, 0.5]);
                    (json!({"a": 0, "k": at}), json!({"a": 0, "k": at + by}))
                }
                4 => (json!({"a": 0, "k": 0}), json!({"a": 0, "k": 100.0 - *self.r.pick(&[0.03125, 0.0625, 0.25])})),
                0 => (self.scalar(0.0, 1.5, 4.0), self.scalar(98.0, 100.0, 4.0)),
                1 => (self.scalar(0.0, 2.0, 4.0), self.scalar(2.25, 5.0, 4.0)),
                _ => (self.scalar(95.0, 97.5, 4.0), self.scalar(97.75, 100.0, 4.0)),
            }
        } else {
            let s = if full { json!({"a": 0, "k": 0}) } else { self.scalar(0.0, 100.0, 0.4) };
            (s, if full { json!({"a": 0, "k": 100}) } else { self.scalar(0.0, 100.0, 0.4) })
        };
        let o = if self.r.chance(0.5) { json!({"a": 0, "k": 0}) } else { self.scalar(-400.0, 400.0, 0.1) };
        let mut t = json!({"ty": "tm", "s": s, "e": e, "o": o});
        if self.r.chance(0.5) {
            t["m"] = json!(1);
        }
        t
    }
    fn unsupported(&mut self) -> Value {
        match self.r.below(5) {
            0 => json!({"ty": "mm", "mm": 1}),
            1 => json!({"ty": "rd", "r": self.scalar(0.0, 9.0, 1.0)}),
            2 => json!({"ty": "pb", "a": self.scalar(0.0, 50.0, 1.0)}),
            3 => json!({"ty": "tw", "a": self.scalar(0.0, 50.0, 1.0), "p": self.prop(2, 0.0, 9.0, 1.0)}),
            _ => json!({"ty": "op", "a": self.scalar(0.0, 9.0, 1.0), "lj": 1}),
        }
    }
    pub fn items(&mut self, depth: usize) -> Vec<Value> {
        let mut out = vec![];
        let n = self.r.range(self.p.items.0, self.p.items.1).min(if self.size > 250 { 2 } else { 99 });
        let paint_last = self.r.chance(0.8);
        for _ in 0..n {
            let u = self.r.unit();
            if depth < self.p.gdepth && u < self.p.group {
                let mut it = self.items(depth + 1);
                if !self.r.chance(0.15) {
                    let ident = self.r.chance(self.p.ident);
                    let mut t = self.transform(ident);
                    if ident && self.r.chance(0.4) {
                        // all but one thing as in the parent
                        match self.r.below(5) {
                            0 => t.insert("p".into(), self.prop(2, -50.0, 300.0, 2.0)),
                            1 => t.insert("s".into(), self.prop(2, -120.0, 220.0, 0.5)),
                            2 => t.insert("r".into(), self.scalar(-180.0, 400.0, 1.0)),
                            3 => t.insert("a".into(), self.prop(2, -40.0, 60.0, 2.0)),
                            _ => t.insert("o".into(), self.opacity()),
                        };
                    }
                    t.insert("ty".into(), json!("tr"));
                    // usually last, but the format does not insist
                    let at = if self.r.chance(0.9) { it.len() } else { self.r.below(it.len() + 1) };
                    it.insert(at, Value::Object(t));
                }
                let mut g = json!({"ty": "gr", "it": it});
                if self.r.chance(0.5) {
                    g["nm"] = json!("group");
                    g["np"] = json!(self.r.range(1, 4));
                }
                out.push(g);
            } else if self.r.chance(self.p.unsup) {
                out.push(self.unsupported());
            } else if self.r.chance(self.p.trim) {
                out.push(self.trim());
            } else if self.r.chance(0.4) {
                out.push(self.paint());
            } else {
                out.push(self.geometry());
            }
        }
        if depth == 0 && !out.iter().any(|x| matches!(x["ty"].as_str(), Some("rc" | "el" | "sh" | "sr" | "gr"))) {
            out.insert(0, self.geometry());
        }
        if paint_last {
            out.push(self.paint());
        }
        out
    }
    fn mask(&mut self) -> Value {
        let mut m = Map::new();
        m.insert("mode".into(), json!(*self.r.pick(&["a", "s", "i"])));
        m.insert("inv".into(), json!(false));
        if !self.r.chance(0.1) {
            m.insert("pt".into(), self.path());
        }
        if self.r.chance(0.5) {
            m.insert("o".into(), json!({"a": 0, "k": 100}));
        }
        if self.r.chance(0.2) {
            m.insert("x".into(), json!({"a": 0, "k": 0}));
        }
        if self.r.chance(0.2) {
            m.insert("nm".into(), json!("mask"));
        }
        Value::Object(m)
    }
    fn window(&mut self) -> (f64, f64) {
        if self.r.chance(self.p.window) {
            for _ in 0..4 {
                let (a, b) = (*self.r.pick(&self.times), *self.r.pick(&self.times));
                if a < b {
                    return (a, b);
                }
                if self.r.chance(if a == b { 0.2 } else { 0.08 }) {
                    // never shown
                    return (a, b);
                }
            }
        }
        match self.r.below(3) {
            0 => (self.t0, self.t1),
            1 => (self.t0 - 10.0, self.t1 + 10.0),
            _ => (self.t0, self.t1 + 3.5),
        }
    }
    /// One layer list. `level` is the list's depth; instances refer to assets of a deeper level only.
    pub fn layer_list(&mut self, level: usize, assets: &[Vec<String>]) -> Vec<Value> {
        let mut n = self.r.range(self.p.layers.0, self.p.layers.1) as usize;
        let last = level + 2 >= assets.len();
        let many = last && level + 1 < assets.len() && self.p.kinds[4] > 0 && self.r.chance(0.08);
        if many {
            n = n.max(self.r.range(4, 7) as usize);
        }
        let mut ids: Vec<i64> = (1..40.max(n as i64 + 10)).collect();
        self.r.shuffle(&mut ids);
        ids.truncate(n);
        match self.r.below(10) {
            0..=2 => ids = (1..=n as i64).collect(),
            3 => ids = (0..n as i64).collect(),
            4 => {
                // numbers that only differ in their high bits
                let (base, step) = (self.r.range(0, 3), *self.r.pick(&[256i64, 65536, 1 << 32, 1000]));
                ids = (0..n as i64).map(|k| base + k * step).collect();
                self.r.shuffle(&mut ids);
            }
            _ => {}
        }
        let mut ls: Vec<Value> = vec![];
        let mut instances = 0;
        for i in 0..n {
            self.names += 1;
            let can_inst = level + 1 < assets.len() && !assets[level + 1].is_empty() && instances < if many { 7 } else { 2 };
            let mut k = {
                let w = self.p.kinds;
                let tot: u32 = w.iter().sum();
                let mut x = self.r.below(tot as usize) as u32;
                let mut k = 0;
                while x >= w[k] {
                    x -= w[k];
                    k += 1;
                }
                k
            };
            if many && can_inst && self.r.chance(0.7) {
                k = 4;
            }
            if k == 4 && !can_inst && !self.r.chance(0.2) {
                k = 0;
            }
            // another one like the last
            let twin: Option<Value> = if k == 4 && self.r.chance(if many { 0.8 } else { 0.2 }) { ls.iter().rev().find(|l| l["ty"] == 0).cloned() } else { None };
            let (ip, op) = self.window();
            let mut m = Map::new();
            if !self.r.chance(0.03) {
                let nm = match self.r.below(40) {
                    0 => String::new(),
                    1 => "名前 \u{1F600}".into(),
                    2 => "same".into(),
                    3 => "x".repeat(200),
                    4 => long_name(self.r),
                    _ => format!("L{}", self.names),
                };
                m.insert("nm".into(), json!(nm));
            }
            m.insert("ind".into(), json!(ids[i]));
            m.insert("ip".into(), self.n(ip));
            m.insert("op".into(), self.n(op));
            m.insert("ks".into(), {
                let still = self.r.chance(self.p.still);
                Value::Object(self.transform(still))
            });
            if let Some(t) = &twin {
                for key in ["ip", "op"] {
                    m.insert(key.into(), t[key].clone());
                }
                if self.r.chance(0.5) {
                    m.insert("ks".into(), t["ks"].clone());
                }
            }
            m.insert("ty".into(), json!([4, 3, 1, 2, 0][k]));
            match k {
                0 => {
                    let it = self.items(0);
                    m.insert("shapes".into(), Value::Array(it));
                }
                2 => {
                    m.insert("sw".into(), json!(40));
                    m.insert("sh".into(), json!(30));
                    m.insert("sc".into(), json!("#ff8800"));
                }
                3 => {
                    m.insert("refId".into(), json!("img"));
                }
                4 => {
                    instances += 1;
                    let id = if can_inst && !self.r.chance(self.p.missing) {
                        let deeper: Vec<&String> = assets[level + 1..].iter().flatten().collect();
                        (*self.r.pick(&deeper)).clone()
                    } else {
                        let near: Vec<String> = assets.iter().flatten().flat_map(|a| [a.to_uppercase(), format!("{a} "), format!("{a}0"), format!("{a}.json"), format!("_{a}"), a.chars().take(a.chars().count() - 1).collect()]).filter(|x| assets.iter().flatten().all(|a| a != x)).collect();
                        if near.is_empty() || self.r.chance(0.6) {
                            (*self.r.pick(&["nope", "img", ""])).to_string()
                        } else {
                            self.r.pick(&near).clone()
                        }
                    };
                    m.insert("refId".into(), json!(id));
                    m.insert("w".into(), json!(200));
                    m.insert("h".into(), json!(150));
                    let st = if self.r.chance(0.5) { 0.0 } else { self.r.grid(-12.0, 12.0, 4.0) };
                    m.insert("st".into(), self.n(st));
                    if self.r.chance(0.5) {
                        let v = if self.r.chance(0.12) { *self.r.pick(&[-1.0, -2.0, -0.5, 10.0]) } else { *self.r.pick(&[1.0, 2.0, 0.5, 4.0, 0.25, 1.5, 3.0, 1.0078125, 0.984375]) };
                        let v = self.n(v);
                        m.insert("sr".into(), v);
                    }
                    if let Some(t) = &twin {
                        m.remove("sr");
                        for key in ["refId", "st", "sr"] {
                            if let Some(v) = t.get(key) {
                                m.insert(key.into(), v.clone());
                            }
                        }
                    }
                }
                _ => {}
            }
            if k != 4 {
                if self.r.chance(0.6) {
                    let v = if self.r.chance(0.5) { 0.0 } else { self.r.grid(-12.0, 12.0, 4.0) };
                    m.insert("st".into(), self.n(v));
                }
                if self.r.chance(0.3) {
                    m.insert("sr".into(), json!(*self.r.pick(&[1, 2])));
                }
            }
            if self.r.chance(self.p.hidden) {
                m.insert("hd".into(), json!(true));
            } else if self.r.chance(0.1) {
                m.insert("hd".into(), json!(false));
            }
            if self.r.chance(self.p.mask) {
                let k = if self.boost == 9 { self.r.range(2, 10) } else { self.r.range(1, 2) };
                let ms: Vec<Value> = (0..k).map(|_| self.mask()).collect();
                m.insert("masksProperties".into(), Value::Array(ms));
                m.insert("hasMask".into(), json!(true));
            }
            if self.r.chance(self.p.td) {
                m.insert("td".into(), json!(1));
            }
            if self.r.chance(0.2) {
                m.insert("ddd".into(), json!(0));
                m.insert("ao".into(), json!(0));
                m.insert("bm".into(), json!(if self.r.chance(0.3) { self.r.range(0, 17) } else { 0 }));
            }
            ls.push(Value::Object(m));
        }
        // parents follow a random order, so forward and backward references both occur and nothing loops
        let mut perm: Vec<usize> = (0..n).collect();
        self.r.shuffle(&mut perm);
        let chain = self.boost == 8 && self.r.chance(0.6);
        for j in 0..n {
            if self.r.chance(if chain { 0.98 } else { self.p.parent }) {
                if j > 0 && !self.r.chance(if chain { self.p.missing * 0.1 } else { self.p.missing }) {
                    let q = perm[if chain { j - 1 } else { self.r.below(j) }];
                    ls[perm[j]]["parent"] = json!(ids[q]);
                } else if self.r.chance(0.3) {
                    // an id of some other list, or of nothing
                    let alien: Vec<i64> = self.ids_seen.iter().copied().filter(|x| !ids.contains(x)).collect();
                    let x = if alien.is_empty() || self.r.chance(0.3) { 777 } else { *self.r.pick(&alien) };
                    ls[perm[j]]["parent"] = json!(x);
                }
            }
        }
        // mattes
        let mut used: Vec<usize> = vec![];
        for i in 0..n {
            if !self.r.chance(self.p.matte) {
                continue;
            }
            let tt = json!(self.r.range(1, 4));
            if self.r.chance(0.55) {
                // something may stand between source and consumer
                let back = if i > 1 && self.r.chance(0.3) { self.r.range(2, 3.min(i as i64)) as usize } else { 1 };
                let plain = |l: &Value| l.get("tt").is_none();
                if i >= back && plain(&ls[i - back]) && ls[i + 1 - back..i].iter().all(|l| plain(l) && l.get("td").is_none()) {
                    ls[i - back]["td"] = json!(1);
                    ls[i]["tt"] = tt;
                    used.push(i - back);
                } else if self.r.chance(0.2) {
                    ls[i]["tt"] = tt;
                }
            } else if n > 1 {
                let j = self.r.below(n);
                if self.r.chance(self.p.missing) {
                    ls[i]["tt"] = tt;
                    ls[i]["tp"] = json!(778);
                } else if j != i && (ls[j].get("tt").is_none() || (j < i && !used.contains(&i))) && !chain_hits(&ls, &ids, j, i) {
                    ls[i]["tt"] = tt;
                    ls[i]["tp"] = self.n(ids[j] as f64);
                    if self.r.chance(0.8) {
                        ls[j]["td"] = json!(1);
                    }
                    used.push(j);
                }
            }
        }
        for _ in 0..if n > 0 && self.r.chance(if ids.contains(&0) { 0.4 } else { 0.1 }) { self.r.range(1, 3) } else { 0 } {
            let k = self.r.below(n);
            let Some(id) = ls[k].get("ind").cloned() else { continue };
            let referenced = ls.iter().any(|l| l.get("parent") == Some(&id) || l.get("tp").and_then(Value::as_f64) == id.as_f64());
            if !referenced {
                ls[k].as_object_mut().unwrap().remove("ind");
            }
        }
        self.ids_seen.extend(&ids);
        ls
    }
    pub fn doc(&mut self) -> Value {
        let depth = self.p.depth;
        // names of assets per level; level 0 is the composition itself
        let mut names: Vec<Vec<String>> = vec![vec![]];
        for _ in 0..depth {
            let k = if self.boost == 10 { if self.r.chance(0.25) { self.r.range(12, 40) } else { self.r.range(4, 9) } } else { self.r.range(1, 2) };
            let v = (0..k)
                .map(|_| {
                    self.nassets += 1;
                    if self.nassets > 1 && self.r.chance(0.06) {
                        // a name close to another one's
                        format!("{}{}", *self.r.pick(&["A1", "a1 ", " a1", "a01", "a1\u{301}"]), " ".repeat(self.nassets - 2))
                    } else if self.r.chance(0.04) {
                        format!("{}{}", long_name(self.r), self.nassets)
                    } else {
                        format!("a{}", self.nassets)
                    }
                })
                .collect();
            names.push(v);
        }
        let mut assets = vec![];
        for lvl in (1..=depth).rev() {
            for id in names[lvl].clone() {
                let ls = if self.r.chance(0.04) { vec![] } else { self.layer_list(lvl, &names) };
                let mut a = json!({"id": id, "layers": ls});
                if self.r.chance(0.3) {
                    a["nm"] = json!("comp");
                    a["fr"] = json!(60);
                }
                assets.push(a);
            }
        }
        if self.r.chance(0.25) {
            assets.push(json!({"id": "img", "w": 8, "h": 8, "u": "", "p": "i.png", "e": 0}));
        }
        self.r.shuffle(&mut assets);
        let ls = self.layer_list(0, &names);
        let (w, h) = *self.r.pick(&CANVAS);
        let fr = *self.r.pick(&[30.0, 60.0, 24.0, 29.97, 25.0, 1.0, 120.0]);
        let (ip, op) = (self.t0, self.t1);
        let mut d = json!({"w": w, "h": h, "fr": self.n(fr), "ip": self.n(ip), "op": self.n(op), "layers": ls});
        if self.r.chance(0.5) {
            d["v"] = json!("5.7.1");
            d["nm"] = json!("sim");
            d["ddd"] = json!(0);
        }
        if !assets.is_empty() || self.r.chance(0.5) {
            d["assets"] = Value::Array(assets);
        }
        if self.r.chance(0.1) {
            d["markers"] = json!([{"cm": "m", "tm": 3, "dr": 2}]);
            d["meta"] = json!({"g": "sim", "a": "x"});
        }
        d
    }
}

/// Names as long as they get, in scripts where a character takes several bytes.
fn long_name(r: &mut Rng) -> String {
    let c = *r.pick(&["é", "名", "\u{1F600}", "a"]);
    format!("{}{}", "x".repeat(r.below(4)), c.repeat(r.range(10, 90) as usize))
}
/// Would matte source `from` lead back to `to`?
fn chain_hits(ls: &[Value], ids: &[i64], from: usize, to: usize) -> bool {
    // conservative: follow explicit sources and every earlier layer for implicit ones
    let mut todo = vec![from];
    let mut seen = vec![];
    while let Some(x) = todo.pop() {
        if x == to {
            return true;
        }
        if seen.contains(&x) {
            continue;
        }
        seen.push(x);
        if ls[x].get("tt").is_some() {
            match ls[x].get("tp").and_then(Value::as_f64) {
                Some(tp) => todo.extend(ids.iter().position(|i| *i as f64 == tp)),
                None => todo.extend(0..x),
            }
        }
    }
    false
}

pub fn doc(r: &mut Rng, p: &Prof) -> Value {
    let mut d = Gen::new(r, p.clone()).doc();
    if r.chance(if p.anim > 0.7 { 0.4 } else { 0.2 }) {
        let q = *r.pick(&[1.0, 0.5]);
        spotlight(r, &mut d, q);
    }
    d
}
/// In (some) shapes, transforms and masks at most one property keeps moving; the others keep their first value.
fn spotlight(r: &mut Rng, v: &mut Value, q: f64) {
    fn moving(v: &Value) -> bool {
        v.get("k").and_then(Value::as_array).and_then(|a| a.first()).map_or(false, |x| x.get("t").is_some() && x.get("s").is_some())
    }
    fn leaves<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Value>) {
        if moving(v) {
            out.push(v);
            return;
        }
        if let Value::Object(o) = v {
            for (k, x) in o.iter_mut() {
                if !matches!(k.as_str(), "it" | "shapes" | "layers" | "masksProperties" | "ks" | "assets") || (k == "ks" && moving(x)) {
                    leaves(x, out);
                }
            }
        }
    }
    let unit = |r: &mut Rng, v: &mut Value| {
        let mut l = vec![];
        leaves(v, &mut l);
        if l.len() < 2 || !r.chance(q) {
            return;
        }
        let keep = r.below(l.len());
        for (i, x) in l.into_iter().enumerate() {
            if i != keep {
                let s = x["k"][0]["s"].clone();
                let one = match s.as_array() {
                    Some(a) if a.len() == 1 => Some(a[0].clone()),
                    _ => None,
                };
                *x = json!({"a": 0, "k": one.unwrap_or(s)});
            }
        }
    };
    match v {
        Value::Object(o) => {
            let shape = o.get("ty").map_or(false, Value::is_string);
            if shape || o.contains_key("pt") {
                unit(r, v);
            } else if let Some(ks) = o.get_mut("ks") {
                if ks.get("p").is_some() {
                    unit(r, ks);
                }
            }
            if let Value::Object(o) = v {
                for (k, x) in o.iter_mut() {
                    if matches!(k.as_str(), "it" | "shapes" | "layers" | "masksProperties" | "assets") {
                        spotlight(r, x, q);
                    }
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| spotlight(r, x, q)),
        _ => {}
    }
}

/// A playback clock: jitter, stalls, seeks, reversals, exact hits and near misses of interesting instants.
pub fn player(r: &mut Rng, events: &[f64], n: usize) -> Vec<f64> {
    let (lo, hi) = (events.first().copied().unwrap_or(0.0), events.last().copied().unwrap_or(10.0));
    let mut out: Vec<f64> = vec![];
    let mut t = lo;
    let mut step = *r.pick(&[0.5, 1.0, 0.7, 2.0]);
    while out.len() < n {
        match r.below(10) {
            0..=3 => t = *r.pick(events),
            4 | 5 => {
                let e = *r.pick(events);
                let d = *r.pick(&[1e-9, 1e-6, 1e-3, 0.25, 0.5]);
                t = if r.chance(0.5) { e + d } else { e - d };
            }
            6 | 7 => {
                let i = r.below(events.len());
                let j = (i + 1).min(events.len() - 1);
                t = events[i] + (events[j] - events[i]) * r.unit();
            }
            8 => {
                for _ in 0..r.range(1, 3) {
                    t += step * (1.0 + 0.3 * (r.unit() - 0.5));
                    out.push(t);
                }
            }
            _ => match r.below(5) {
                0 => step = -step,
                1 => t = lo - r.grid(0.0, 50.0, 4.0),
                2 => t = hi + r.grid(0.0, 50.0, 4.0),
                3 => {} // stalled clock
                _ => t = *r.pick(&[0.0, -1.0, 1e6, -1e6]),
            },
        }
        out.push(t);
    }
    out.truncate(n);
    out
}
pub fn odd_frames(r: &mut Rng) -> f64 {
    *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 1e300, -1e300, 5e-324, 1e15, -1e15, -0.0])
}
pub fn affine(r: &mut Rng) -> [f64; 6] {
    match r.below(8) {
        0 | 1 => IDENT,
        6 => *r.pick(&[
            [0.0, 0.0, 0.0, 0.0, 10.0, 20.0],
            [1.0, 0.0, 0.0, 0.0, 0.0, 0.0],
            [0.0, 0.0, 0.0, 1.0, 5.0, 0.0],
            [1.0, 2.0, 0.5, 1.0, 0.0, 0.0],
            [1e-6, 0.0, 0.0, 1e-6, 0.0, 0.0],
            [1000.0, 0.0, 0.0, 1000.0, -1e6, 1e6],
            [1.0, 0.0, 0.0, -1.0, 0.0, 100.0],
            [0.0, 1.0, 1.0, 0.0, 0.0, 0.0],
            [1.0, 0.0, 0.0, 1.0, 1e9, 0.0],
        ]),
        2 => [1.0, 0.0, 0.0, 1.0, r.grid(-200.0, 200.0, 2.0), r.grid(-200.0, 200.0, 2.0)],
        3 => {
            let (s, c) = (r.unit() * 6.0).sin_cos();
            [c, s, -s, c, r.grid(-100.0, 100.0, 2.0), 7.0]
        }
        4 => [-1.0, 0.0, 0.0, 1.0, 50.0, 0.0],
        5 => [0.5, 0.25, 2.0, 1.5, -3.0, 8.0],
        _ => [2.0, 0.0, 0.0, 0.5, 0.0, 0.0],
    }
}
pub fn alpha(r: &mut Rng) -> f64 {
    if r.chance(0.5) { 1.0 } else { *r.pick(&[0.5, 0.25, 0.9, 0.0, 0.125]) }
}
/// Storage faults for a document of `len` bytes (`ndocs` documents exist to take stale data from).
pub fn byte_fault(r: &mut Rng, len: usize, ndocs: usize) -> Fault {
    let sec = *r.pick(&[1usize, 4, 16, 64, 512]);
    let at = r.below(len.max(1));
    let sat = at / sec * sec;
    match r.below(11) {
        0 => Fault::Truncate(at),
        1 | 2 => Fault::Flip { at, mask: 1 << r.below(8) },
        3 => {
            let n = r.range(1, 6) as usize;
            Fault::Overwrite { at, bytes: (0..n).map(|_| *r.pick(b"0123456789-+eE.,:{}[]\"\\ truefalsn\x00\xff\x80")).collect() }
        }
        4 => Fault::ZeroSector { at: sat, len: sec },
        5 => Fault::LostSector { at: sat, len: sec },
        6 => Fault::DupSector { at: sat, len: sec },
        7 => Fault::SwapSectors { a: sat, b: r.below(len.max(1)) / sec * sec, len: sec },
        8 => Fault::StaleTail { doc: r.below(ndocs), from: at },
        9 => Fault::StaleSector { doc: r.below(ndocs), at: sat, len: sec },
        _ => {
            let s: &[&str] = &["-", "e9", "99999999999", "null", "[", "]", "{", "}", "1e400", "\"", "\\ud800", "0", ",", "-0.0", "NaN"];
            Fault::Insert { at, bytes: r.pick(s).as_bytes().to_vec() }
        }
    }
}
/// Where a document's values stand: position in document order, and the names of the member and of what it is in.
type Kind<'a> = (&'a str, &'a str, &'a str);
fn places<'a>(v: &'a Value, key: Kind<'a>, n: &mut usize, out: &mut Vec<(usize, Kind<'a>, bool)>) {
    out.push((*n, key, v.is_number()));
    *n += 1;
    match v {
        Value::Array(a) => a.iter().for_each(|x| places(x, key, n, out)),
        Value::Object(o) => {
            let ty = o.get("ty").and_then(Value::as_str);
            o.iter().for_each(|(k, x)| places(x, (ty.unwrap_or(key.0), if ty.is_some() { "" } else { key.2 }, k), n, out))
        }
        _ => {}
    }
}
/// A value below the top: any kind of member (its name, of what kind of thing) is as likely as any other, however
/// many there are of it.
pub fn some_place(r: &mut Rng, d: &Value, numbers: bool) -> usize {
    let mut all = vec![];
    places(d, ("", "", ""), &mut 0, &mut all);
    all.remove(0);
    if numbers {
        all.retain(|p| p.2);
    }
    let mut keys: Vec<Kind> = all.iter().map(|p| p.1).collect();
    keys.sort();
    keys.dedup();
    if keys.is_empty() {
        return 1;
    }
    let k = *r.pick(&keys);
    let c: Vec<usize> = all.iter().filter(|p| p.1 == k).map(|p| p.0).collect();
    *r.pick(&c)
}
/// Some number that may be any real number, far out or very near.
pub fn far(r: &mut Rng, d: &Value) -> Option<Fault> {
    let mut all = vec![];
    places(d, ("", "", ""), &mut 0, &mut all);
    all.retain(|p| p.2 && matches!(p.1 .2, "k" | "s" | "e" | "x" | "y" | "i" | "o" | "v" | "t" | "st" | "sr" | "ip" | "op" | "w" | "h" | "fr" | "ml" | "p" | "tm"));
    let mut keys: Vec<Kind> = all.iter().map(|p| p.1).collect();
    keys.sort();
    keys.dedup();
    if keys.is_empty() {
        return None;
    }
    let k = *r.pick(&keys);
    let c: Vec<usize> = all.iter().filter(|p| p.1 == k).map(|p| p.0).collect();
    let big = *r.pick(&[1e300, 1e200, 1e30, 1e20, 1e18, 1e17, 1e16, 1e10, 3e9, 1e6, 1e-300, 5e-324, 1e-9, 0.0]);
    Some(Fault::Graft { index: *r.pick(&c), value: json!(if r.chance(0.4) { -big } else { big }) })
}
/// The value a writer might have meant, nearly.
fn variant(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut a = a.clone();
            match r.below(6) {
                0 => a.clear(),
                1 => {
                    a.pop();
                }
                2 if !a.is_empty() => {
                    a.remove(0);
                }
                3 if !a.is_empty() => a.push(a[a.len() - 1].clone()),
                4 => a.truncate(1),
                _ => a.extend(a.clone()),
            }
            Value::Array(a)
        }
        Value::Number(n) => {
            let x = n.as_f64().unwrap_or(0.0);
            match r.below(9) {
                0 => json!(0),
                1 => json!(1),
                2 => json!(-1),
                3 => json!(-x),
                4 => json!(*r.pick(&[1e308, -1e308, 1e19, 1e9, 1e15])),
                5 => json!(x + 0.5),
                6 => json!(x * 1000.0),
                7 => json!([x]),
                _ => json!((x as i64).wrapping_add(1)),
            }
        }
        Value::String(s) => match r.below(4) {
            0 => json!(""),
            1 => json!(long_name(r)),
            2 => json!(format!("{s}{s}")),
            _ => json!(s.to_uppercase()),
        },
        Value::Bool(b) => json!(!b),
        Value::Object(o) => {
            let mut o = o.clone();
            let k = o.keys().nth(r.below(o.len().max(1))).cloned();
            if let Some(k) = k {
                o.remove(&k);
            }
            Value::Object(o)
        }
        Value::Null => json!(0),
    }
}
/// Corruption that keeps the JSON syntax: values replaced by others.
pub fn value_fault(r: &mut Rng, d: &Value) -> Fault {
    let nodes = count_nodes(d);
    let index = if r.chance(0.6) { some_place(r, d, false) } else { 1 + r.below(nodes.max(2) - 1) };
    if r.chance(0.5) {
        if let Some(v) = get_nth(d, index, &mut 0) {
            return Fault::Graft { index, value: variant(r, v) };
        }
    }
    let small = [
        json!(null), json!(0), json!(-1), json!(1), json!(2), json!(17), json!(1e308), json!(-1e308), json!(1e19), json!(4294967296u64),
        json!(1e-320), json!(""), json!("x"), json!([]), json!({}), json!([[]]), json!([0]), json!([0, 0]), json!(true), json!(false),
        json!([1, 2, 3, 4, 5]), json!({"k": 0}), json!({"a": 1, "k": []}), json!({"a": 0, "k": [0, 0]}), json!({"x": [], "y": []}),
        json!({"x": [0.1, 0.2], "y": [0.3, 0.4]}), json!([{"t": 0, "s": []}]), json!([{"t": 0, "s": [1]}, {"t": 0, "s": [2]}]),
        json!({"a": 1, "k": [{"t": 1, "s": [1]}, {"t": 0, "s": [2]}]}), json!(9007199254740993u64), json!(u64::MAX), json!(255), json!(256),
        json!([{"ty": "gr", "it": []}]), json!(0.5), json!(3), json!(4), json!(5),
    ];
    match r.below(10) {
        0..=4 => Fault::Graft { index, value: r.pick(&small).clone() },
        5 | 6 => Fault::Remove { index },
        _ => Fault::Copy { index, from: 1 + r.below(nodes.max(2) - 1) },
    }
}

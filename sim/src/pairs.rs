//! Pairs of documents that must show the same picture, or the same up to a known difference.
use crate::gen;
use crate::model;
use crate::props::all_lists;
use crate::rng::{hash_bytes, mix, Rng};
use crate::scen::*;
use kurbo::{Affine, PathEl, Point};
use peniko::{Brush, GradientKind};
use serde_json::{json, Value};
use subject::Op as Call;

fn f(v: &Value) -> f64 {
    v.as_f64().unwrap_or(0.0)
}
/// Visits every property (the object holding `k`) below `v`.
fn properties(v: &mut Value, go: &mut dyn FnMut(&mut Value)) {
    match v {
        Value::Object(o) => {
            let leaf = match o.get("k") {
                Some(Value::Number(_)) => true,
                Some(Value::Array(a)) => a.first().is_none_or(|x| x.is_number() || x.get("t").is_some()),
                Some(Value::Object(p)) => p.contains_key("v"),
                _ => false,
            };
            if leaf {
                go(v);
            } else {
                o.values_mut().for_each(|x| properties(x, go));
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| properties(x, go)),
        _ => {}
    }
}
fn layer_properties(l: &mut Value, go: &mut dyn FnMut(&mut Value)) {
    for k in ["ks", "shapes", "masksProperties"] {
        if let Some(x) = l.get_mut(k) {
            properties(x, go);
        }
    }
}

// ------------------------------------------------------------------------------------------ precompositions
/// The layers of the composition become those of a precomposition, `n` times over. Tells where each instance puts it.
pub fn wrap(r: &mut Rng, d: &Value) -> (Value, Value) {
    let mut d = d.clone();
    let mut how = vec![];
    for i in 0..*r.pick(&[1usize, 1, 1, 2, 3]) {
        let inner = std::mem::replace(&mut d["layers"], json!([]));
        let name = format!("everything {i}");
        let sr = *r.pick(&[1.0, 1.0, 2.0, 0.5, 4.0, 0.25]);
        let st = *r.pick(&[0.0, 0.0, 3.0, -7.5, 100.25, -64.0]);
        let n = |r: &mut Rng, lo: f64, hi: f64, q: f64| r.grid(lo, hi, q);
        let (p, a) = if r.chance(0.3) { ([0.0; 2], [0.0; 2]) } else { ([n(r, -50.0, 300.0, 2.0), n(r, -50.0, 300.0, 2.0)], [n(r, -50.0, 80.0, 2.0), n(r, -50.0, 80.0, 2.0)]) };
        let s = if r.chance(0.4) { [100.0; 2] } else { [n(r, -150.0, 200.0, 1.0), n(r, 20.0, 200.0, 1.0)] };
        let rot = if r.chance(0.5) { 0.0 } else { n(r, -180.0, 360.0, 2.0) };
        let o = if r.chance(0.5) { 100.0 } else { n(r, 0.0, 100.0, 1.0) };
        let mut l = json!({"ty": 0, "nm": name, "ind": 3 + i, "refId": name, "ip": -1e12, "op": 1e12, "st": st, "w": 10, "h": 10,
            "ks": {"p": {"a": 0, "k": p}, "a": {"a": 0, "k": a}, "s": {"a": 0, "k": s}, "r": {"a": 0, "k": rot}, "o": {"a": 0, "k": o}}});
        if sr != 1.0 || r.chance(0.5) {
            l["sr"] = json!(sr);
        }
        if d.get("assets").is_none() {
            d["assets"] = json!([]);
        }
        let at = d["assets"].as_array_mut().unwrap();
        let k = r.below(at.len() + 1);
        at.insert(k, json!({"id": name, "layers": inner}));
        d["layers"] = json!([l]);
        let t = Affine::translate((p[0], p[1])) * Affine::rotate(rot.to_radians()) * Affine::scale_non_uniform(s[0] / 100.0, s[1] / 100.0) * Affine::translate((-a[0], -a[1]));
        how.push(json!({"sr": sr, "st": st, "t": t.as_coeffs(), "o": o}));
    }
    (d, Value::Array(how))
}
/// Where the wrapped document shows what the other one shows at `frame` ... : frame of the wrapped one, transform and
/// alpha of the other one.
pub fn unwrap_at(how: &Value, frame: f64, tr: [f64; 6], alpha: f64) -> (f64, [f64; 6], f64) {
    let (mut fr, mut t, mut al) = (frame, Affine::IDENTITY, alpha);
    for h in how.as_array().unwrap() {
        fr = fr * f(&h["sr"]) + f(&h["st"]);
        let c: [f64; 6] = serde_json::from_value(h["t"].clone()).unwrap();
        t = Affine::new(c) * t;
        al = al * f(&h["o"]) / 100.0;
    }
    (fr, (Affine::new(tr) * t).as_coeffs(), al)
}
/// Drops the canvas and `n` layer groups around everything.
pub fn unwrapped(ops: &[Call], n: usize) -> Option<Vec<Call>> {
    let l = ops.len();
    if l < 2 + 2 * n || !matches!(ops[0], Call::PushClip { .. }) || !matches!(ops[l - 1], Call::Pop) {
        return None;
    }
    for i in 0..n {
        if !matches!(ops[1 + i], Call::Begin { .. }) || !matches!(ops[l - 2 - i], Call::End) {
            return None;
        }
    }
    Some(ops[1 + n..l - 1 - n].to_vec())
}

// ------------------------------------------------------------------------------------------ keyframes without effect
/// The same values with more, fewer or no keyframes. Equal properties are changed in equal ways.
pub fn rekey(r: &mut Rng, d: &Value, q: f64) -> Value {
    let mut d = d.clone();
    let salt = r.u64();
    let mut go = |p: &mut Value| {
        let mut r = Rng::new(mix(salt, hash_bytes(p.to_string().as_bytes())));
        if r.chance(q) {
            rekey_one(&mut r, p);
        }
    };
    for (_, l) in all_lists(&mut d) {
        for x in l {
            layer_properties(x, &mut go);
        }
    }
    d
}
fn handles(r: &mut Rng, k: &mut Value) {
    if r.chance(0.2) {
        k["h"] = json!(1);
    }
    if r.chance(0.5) {
        let g = |r: &mut Rng| r.grid(0.0, 1.0, 10.0);
        let (a, b, c, e) = (g(r), g(r), g(r), g(r));
        if r.chance(0.5) {
            k["o"] = json!({"x": a, "y": b});
            k["i"] = json!({"x": c, "y": e});
        } else {
            k["o"] = json!({"x": [a], "y": [b]});
            k["i"] = json!({"x": [c], "y": [e]});
        }
    }
}
fn rekey_one(r: &mut Rng, p: &mut Value) {
    let k = p["k"].clone();
    let keyed = k.as_array().is_some_and(|a| a.first().is_some_and(|x| x.get("t").is_some()));
    if !keyed {
        if k.as_array().is_some_and(|a| a.is_empty()) {
            return;
        }
        let s = if k.is_array() { k } else { json!([k]) };
        let mut t = r.grid(-30.0, 60.0, 4.0);
        let mut ks = vec![];
        for _ in 0..r.range(1, 4) {
            let mut x = json!({"t": t, "s": s});
            handles(r, &mut x);
            if r.chance(0.1) {
                x["e"] = s.clone();
            }
            ks.push(x);
            t += *r.pick(&[0.25, 1.0, 2.0, 17.5, 300.0]);
        }
        p["k"] = Value::Array(ks);
        p["a"] = json!(1);
        return;
    }
    let mut ks = k.as_array().unwrap().clone();
    if ks.iter().any(|x| x.get("s").is_none() || x.get("t").and_then(Value::as_f64).is_none()) {
        return;
    }
    let constant = ks.iter().all(|x| x["s"] == ks[0]["s"] && (x.get("e").is_none_or(|e| *e == ks[0]["s"])));
    if constant && r.chance(0.5) {
        // no keyframes at all
        let s = ks[0]["s"].clone();
        p["k"] = match s.as_array() {
            Some(a) if a.len() == 1 => a[0].clone(),
            _ => s,
        };
        p["a"] = json!(0);
        return;
    }
    // between: where the value stands still, or moves evenly
    let mut i = 0;
    while i + 1 < ks.len() {
        let (t0, t1) = (f(&ks[i]["t"]), f(&ks[i + 1]["t"]));
        let hold = ks[i].get("h").map_or(false, |h| f(h) != 0.0);
        let still = hold || (ks[i]["s"] == ks[i + 1]["s"] && ks[i].get("e").is_none_or(|e| *e == ks[i]["s"]));
        if r.chance(0.4) && t1 - t0 > 0.01 {
            let w = *r.pick(&[0.5, 0.25, 0.75]);
            let t = t0 + (t1 - t0) * w;
            if still {
                let mut x = json!({"t": t, "s": ks[i]["s"]});
                if hold {
                    x["h"] = json!(1);
                } else {
                    handles(r, &mut x);
                }
                // a held value jumps at the next keyframe only
                if ks[i].get("e").is_some() {
                    ks[i].as_object_mut().unwrap().remove("e");
                }
                ks.insert(i + 1, x);
                i += 1;
            } else if ks[i].get("o").is_none() && ks[i].get("i").is_none() && ks[i].get("e").is_none_or(|e| *e == ks[i + 1]["s"]) {
                let (a, b) = (ks[i]["s"].as_array(), ks[i + 1]["s"].as_array());
                if let (Some(a), Some(b)) = (a, b) {
                    if a.len() == b.len() && a.iter().chain(b).all(Value::is_number) {
                        let s: Vec<f64> = a.iter().zip(b).map(|(x, y)| f(x) + (f(y) - f(x)) * w).collect();
                        ks[i].as_object_mut().unwrap().remove("e");
                        ks.insert(i + 1, json!({"t": t, "s": s}));
                        i += 1;
                    }
                }
            }
        }
        i += 1;
    }
    // before the first and after the last
    for _ in 0..r.below(3) {
        let t = f(&ks[0]["t"]) - *r.pick(&[0.125, 1.0, 40.0, 1e6]);
        let mut x = json!({"t": t, "s": ks[0]["s"]});
        handles(r, &mut x);
        ks.insert(0, x);
    }
    for _ in 0..r.below(3) {
        let l = ks.len() - 1;
        ks[l].as_object_mut().unwrap().remove("e");
        let t = f(&ks[l]["t"]) + *r.pick(&[0.125, 1.0, 40.0, 1e6]);
        let mut x = json!({"t": t, "s": ks[l]["s"]});
        handles(r, &mut x);
        ks.push(x);
    }
    p["k"] = Value::Array(ks);
}

// ------------------------------------------------------------------------------------------ groups and parents without effect
pub fn regroup(r: &mut Rng, d: &Value, q: f64) -> Value {
    let mut d = d.clone();
    for (_, l) in all_lists(&mut d) {
        for x in l.iter_mut() {
            if let Some(s) = x.get_mut("shapes").and_then(Value::as_array_mut) {
                groups(r, s, true, q);
            }
        }
        let inds: Vec<u64> = l.iter().filter_map(|x| x.get("ind").and_then(Value::as_u64)).collect();
        let mut u = inds.clone();
        u.sort();
        u.dedup();
        if u.len() != inds.len() {
            continue;
        }
        // placement handed to a layer that shows nothing
        let mut fresh = 50_000_000u64;
        let mut more = vec![];
        for x in l.iter_mut() {
            if !r.chance(q * 0.6) || x.get("ks").is_none_or(|k| !k.is_object()) {
                continue;
            }
            for _ in 0..r.range(1, 2) {
                fresh += 1;
                let mut null = json!({"ty": 3, "ind": fresh, "ip": -1e7, "op": 1e7, "ks": {}});
                if r.chance(0.3) {
                    null["ip"] = json!(5.0e6);
                }
                if r.chance(0.5) {
                    null["st"] = json!(r.grid(-9.0, 9.0, 2.0));
                }
                if r.chance(0.3) {
                    null["hd"] = json!(true);
                }
                if let Some(p) = x.get("parent") {
                    null["parent"] = p.clone();
                }
                if r.chance(0.5) {
                    // the layer keeps its opacity only
                    let mut ks = x["ks"].as_object().unwrap().clone();
                    let o = ks.remove("o");
                    null["ks"] = Value::Object(ks);
                    if r.chance(0.5) {
                        null["ks"]["o"] = json!({"a": 0, "k": r.grid(0.0, 100.0, 1.0)});
                    }
                    x["ks"] = identity(r);
                    if let Some(o) = o {
                        x["ks"]["o"] = o;
                    }
                } else {
                    null["ks"] = identity(r);
                }
                x["parent"] = json!(fresh);
                more.push(null);
            }
        }
        for x in more {
            // not between a matte and the layer it cuts
            let at: Vec<usize> = (0..=l.len()).filter(|i| l[*i..].iter().all(|y| y.get("tt").is_none() || y.get("tp").is_some())).collect();
            let at = *r.pick(&at);
            l.insert(at, x);
        }
    }
    d
}
fn identity(r: &mut Rng) -> Value {
    let mut t = json!({"p": {"a": 0, "k": [0, 0]}});
    if r.chance(0.5) {
        t["a"] = json!({"a": 0, "k": [0, 0]});
    }
    if r.chance(0.5) {
        t["s"] = json!({"a": 0, "k": [100, 100]});
    }
    if r.chance(0.5) {
        t["r"] = json!({"a": 0, "k": 0});
    }
    t
}
fn groups(r: &mut Rng, items: &mut Vec<Value>, layer: bool, q: f64) {
    for x in items.iter_mut() {
        if x["ty"] == "gr" {
            if let Some(it) = x.get_mut("it").and_then(Value::as_array_mut) {
                groups(r, it, false, q);
            }
            if r.chance(q) {
                let mut inner = x.take();
                let mut it = vec![];
                // one of the two places the group
                let mut tr = None;
                if inner.get("hd").is_none_or(|h| *h == false) && r.chance(0.6) {
                    if let Some(a) = inner["it"].as_array_mut() {
                        let n = a.iter().filter(|y| y["ty"] == "tr").count();
                        if n == 1 && a.last().is_some_and(|y| y["ty"] == "tr" && y.get("hd").is_none()) {
                            tr = a.pop();
                            // (its opacity may stay, or go alone)
                            let apart = tr.as_ref().is_some_and(|t| t.get("o").is_some()) && r.chance(0.4);
                            if apart || r.chance(0.5) {
                                let mut t = identity(r);
                                t["ty"] = json!("tr");
                                if apart {
                                    t["o"] = tr.as_mut().unwrap().as_object_mut().unwrap().remove("o").unwrap();
                                }
                                if apart && r.chance(0.5) {
                                    let x = tr.replace(t).unwrap();
                                    a.push(x);
                                } else {
                                    a.push(t);
                                }
                            }
                        }
                    }
                }
                it.push(inner);
                match tr {
                    Some(t) => it.push(t),
                    None if r.chance(0.7) => {
                        let mut t = identity(r);
                        t["ty"] = json!("tr");
                        if r.chance(0.5) {
                            t["o"] = json!({"a": 0, "k": 100});
                        }
                        it.push(t);
                    }
                    None => {}
                }
                *x = json!({"ty": "gr", "it": it});
                if r.chance(0.3) {
                    x["nm"] = json!("group");
                }
            }
        }
    }
    if layer && r.chance(q) {
        let mut it = std::mem::take(items);
        if r.chance(0.7) {
            let mut t = identity(r);
            t["ty"] = json!("tr");
            it.push(t);
        }
        items.push(json!({"ty": "gr", "it": it}));
    }
}

// ------------------------------------------------------------------------------------------ documents on top of each other
/// A document that can be put on top of, or below, others.
fn stackable(d: &Value, top: bool) -> bool {
    let Some(l) = d["layers"].as_array() else { return false };
    let inds: Vec<u64> = l.iter().filter_map(|x| x.get("ind").and_then(Value::as_u64)).collect();
    let mut u = inds.clone();
    u.sort();
    u.dedup();
    inds.len() == u.len() && (top || l.iter().enumerate().all(|(i, x)| x.get("tt").is_none() || x.get("tp").is_some() || (i > 0 && l[i - 1].get("td").is_some_and(|t| f(t) != 0.0) && l[i - 1].get("hd").is_none_or(|h| *h == false))))
}
/// Two or three documents of one size, and the one that has the layers of all of them, the first one's on top.
pub fn stack(r: &mut Rng, prof: &gen::Prof) -> Vec<Value> {
    let n = if r.chance(0.7) { 2 } else { 3 };
    let mut parts: Vec<Value> = vec![];
    while parts.len() < n {
        let d = gen::doc(r, prof);
        if stackable(&d, parts.is_empty()) {
            parts.push(d);
        }
    }
    for i in 1..n {
        for k in ["w", "h", "fr", "ip", "op"] {
            parts[i][k] = parts[0][k].clone();
        }
    }
    let mut whole = json!({"layers": [], "assets": []});
    for k in ["w", "h", "fr", "ip", "op"] {
        whole[k] = parts[0][k].clone();
    }
    let (mut ls, mut assets) = (vec![], vec![]);
    let same_ids = r.chance(0.5);
    for (i, p) in parts.iter().enumerate() {
        let mut p = p.clone();
        let name = |v: &Value| json!(format!("{i}/{}", v.as_str().unwrap_or("")));
        if let Some(a) = p.get_mut("assets").and_then(Value::as_array_mut) {
            for x in a.iter_mut() {
                x["id"] = name(&x["id"]);
            }
        }
        let off = (i as u64) << 40;
        for (root, l) in all_lists(&mut p) {
            for x in l.iter_mut() {
                if x.get("refId").is_some() {
                    x["refId"] = name(&x["refId"]);
                }
                // numbers count within one list only
                if root || !same_ids {
                    for k in ["ind", "parent", "tp"] {
                        if let Some(v) = x.get_mut(k) {
                            *v = json!(f(v) as u64 + off);
                        }
                    }
                }
            }
        }
        if let Some(a) = p.get_mut("assets").and_then(Value::as_array_mut) {
            assets.append(a);
        }
        ls.append(p["layers"].as_array_mut().unwrap());
    }
    r.shuffle(&mut assets);
    whole["layers"] = Value::Array(ls);
    whole["assets"] = Value::Array(assets);
    parts.push(whole);
    parts
}

// ------------------------------------------------------------------------------------------ units of length
fn scale_value(v: &mut Value, k: f64) {
    match v {
        Value::Number(_) => *v = json!(f(v) * k),
        Value::Array(a) => a.iter_mut().for_each(|x| scale_value(x, k)),
        Value::Object(o) => {
            for m in ["v", "i", "o"] {
                if let Some(x) = o.get_mut(m) {
                    scale_value(x, k);
                }
            }
        }
        _ => {}
    }
}
fn scale_prop(p: &mut Value, k: f64) {
    if p.get("s").is_some_and(|s| *s == true) {
        for m in ["x", "y", "z"] {
            if let Some(x) = p.get_mut(m) {
                scale_prop(x, k);
            }
        }
        return;
    }
    if let Some(Value::Array(a)) = p.get_mut("k") {
        if a.first().is_some_and(Value::is_object) {
            for x in a {
                for m in ["s", "e", "to", "ti"] {
                    if let Some(y) = x.get_mut(m) {
                        scale_value(y, k);
                    }
                }
            }
            return;
        }
    }
    if let Some(x) = p.get_mut("k") {
        scale_value(x, k);
    }
}
fn scale_members(o: &mut Value, ms: &[&str], k: f64) {
    for m in ms {
        if let Some(x) = o.get_mut(*m) {
            scale_prop(x, k);
        }
    }
}
fn scale_shapes(items: &mut Value, k: f64) {
    for x in items.as_array_mut().into_iter().flatten() {
        let ty = x["ty"].as_str().unwrap_or("").to_string();
        match ty.as_str() {
            "gr" => scale_shapes(&mut x["it"], k),
            "tr" => scale_members(x, &["p", "a"], k),
            "rc" => scale_members(x, &["p", "s", "r"], k),
            "el" => scale_members(x, &["p", "s"], k),
            "sr" => scale_members(x, &["p", "or", "ir"], k),
            "sh" => scale_members(x, &["ks"], k),
            "gf" => scale_members(x, &["s", "e"], k),
            "gs" => scale_members(x, &["s", "e", "w"], k),
            "st" => scale_members(x, &["w"], k),
            _ => {}
        }
    }
}
/// Every length is `k` times as long.
pub fn enlarge(d: &Value, k: f64) -> Value {
    let mut d = d.clone();
    for m in ["w", "h"] {
        d[m] = json!((f(&d[m]) * k) as u64);
    }
    for (_, l) in all_lists(&mut d) {
        for x in l {
            if let Some(t) = x.get_mut("ks") {
                scale_members(t, &["p", "a"], k);
            }
            if let Some(s) = x.get_mut("shapes") {
                scale_shapes(s, k);
            }
            for m in x.get_mut("masksProperties").and_then(Value::as_array_mut).into_iter().flatten() {
                scale_members(m, &["pt"], k);
            }
        }
    }
    d
}
/// The same calls in units `k` times as long.
pub fn shrunk(ops: &[Call], k: f64) -> Vec<Call> {
    let pt = |p: &mut Point| *p = Point::new(p.x / k, p.y / k);
    let pa = |p: &mut Vec<PathEl>| {
        for e in p {
            match e {
                PathEl::MoveTo(a) | PathEl::LineTo(a) => pt(a),
                PathEl::QuadTo(a, b) => {
                    pt(a);
                    pt(b)
                }
                PathEl::CurveTo(a, b, c) => {
                    pt(a);
                    pt(b);
                    pt(c)
                }
                PathEl::ClosePath => {}
            }
        }
    };
    let s = Affine::scale(k);
    let mut v = ops.to_vec();
    for o in &mut v {
        match o {
            Call::PushLayer { t, path, .. } | Call::PushClip { t, path } => {
                *t = *t * s;
                pa(path);
            }
            Call::Draw { stroke, t, brush, path } => {
                *t = *t * s;
                pa(path);
                if let Some(w) = stroke {
                    w.width /= k;
                    w.dash_pattern.iter_mut().for_each(|x| *x /= k);
                    w.dash_offset /= k;
                }
                if let Brush::Gradient(g) = brush {
                    match &mut g.kind {
                        GradientKind::Linear(p) => {
                            pt(&mut p.start);
                            pt(&mut p.end);
                        }
                        GradientKind::Radial(p) => {
                            pt(&mut p.start_center);
                            pt(&mut p.end_center);
                            p.start_radius /= k as f32;
                            p.end_radius /= k as f32;
                        }
                        GradientKind::Sweep(p) => pt(&mut p.center),
                    }
                }
            }
            _ => {}
        }
    }
    v
}

// ------------------------------------------------------------------------------------------ what is far away in time
/// Other values where they do not matter on one side of `c`: later ones (frames before it are shown) or earlier ones.
pub fn elsewhere(r: &mut Rng, d: &Value, c: f64, later: bool) -> Value {
    let mut d = d.clone();
    let salt = r.u64();
    let mut go = |p: &mut Value| {
        let mut r = Rng::new(mix(salt, hash_bytes(p.to_string().as_bytes())));
        let Some(ks) = p["k"].as_array_mut() else { return };
        if ks.iter().any(|x| x.get("t").and_then(Value::as_f64).is_none() || x.get("s").is_none()) {
            return;
        }
        let t: Vec<f64> = ks.iter().map(|x| f(&x["t"])).collect();
        let n = ks.len();
        let far: Vec<bool> = (0..n).map(|i| if later { i > 0 && t[i - 1] >= c } else { i + 1 < n && t[i + 1] <= c }).collect();
        for i in 0..n {
            if far[i] && r.chance(0.8) {
                for m in ["s", "e"] {
                    if let Some(x) = ks[i].get_mut(m) {
                        perturb(&mut r, x);
                    }
                }
                if r.chance(0.3) {
                    for m in ["h", "i", "o"] {
                        ks[i].as_object_mut().unwrap().remove(m);
                    }
                    handles(&mut r, &mut ks[i]);
                }
                // somewhere else on the far side, in order
                if r.chance(0.4) {
                    let (lo, hi) = (if i > 0 { f(&ks[i - 1]["t"]) } else { t[i] - 50.0 }, if i + 1 < n { t[i + 1] } else { t[i] + 50.0 });
                    let x = lo + (hi - lo) * *r.pick(&[0.25, 0.5, 0.75]);
                    if if later { x >= c } else { x <= c } {
                        ks[i]["t"] = json!(x);
                    }
                }
            }
        }
        // gone, or more of them
        if r.chance(0.3) {
            let mut i = 0;
            ks.retain(|_| {
                i += 1;
                !(far[i - 1] && r.chance(0.5))
            });
        } else if r.chance(0.3) && n > 0 {
            let e = if later { n - 1 } else { 0 };
            if far[e] || (later && t[e] >= c) || (!later && t[e] <= c) {
                let mut x = ks[e].clone();
                if later {
                    ks[e].as_object_mut().unwrap().remove("e");
                }
                perturb(&mut r, &mut x["s"]);
                x.as_object_mut().unwrap().remove("e");
                let te = f(&ks[e]["t"]);
                let by = *r.pick(&[9.0, 5000.0]);
                if later {
                    x["t"] = json!(te + by);
                    ks.push(x);
                } else {
                    x["t"] = json!(te - by);
                    ks.insert(0, x);
                }
            }
        }
    };
    if let Some(l) = d["layers"].as_array_mut() {
        for x in l {
            layer_properties(x, &mut go);
            let (ip, op) = (f(&x["ip"]), f(&x["op"]));
            if later {
                if ip >= c && r.chance(0.7) {
                    x["ip"] = json!(c + r.below(40) as f64);
                    x["op"] = json!(c + r.below(60) as f64);
                } else if op > c && ip < c && r.chance(0.5) {
                    x["op"] = json!(c + r.below(60) as f64);
                }
            } else if op <= c && r.chance(0.7) {
                x["ip"] = json!(c - r.below(40) as f64);
                x["op"] = json!(c - r.below(60) as f64);
            } else if ip < c && op > c && r.chance(0.5) {
                x["ip"] = json!(c - r.below(60) as f64);
            }
        }
    }
    d
}
fn perturb(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Number(_) => {
            if r.chance(0.8) {
                *v = json!(f(v) * 0.5 + *r.pick(&[0.0, 0.25, 7.0, -3.5]));
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| perturb(r, x)),
        Value::Object(o) => {
            // (every keyframe of a path has the same number of points)
            if o.contains_key("v") {
                for m in ["v", "i", "o"] {
                    if let Some(x) = o.get_mut(m) {
                        perturb(r, x);
                    }
                }
            }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------------------------------ scenarios
/// Frames at which the two are drawn side by side.
// ------------------------------------------------------------------------------------------ one layer at a time
/// Takes away what makes a shape layer draw, in one of several ways.
fn silence(r: &mut Rng, shapes: &mut Value) {
    fn without(v: &mut Value, gone: &[&str]) {
        if let Some(a) = v.as_array_mut() {
            a.retain(|x| !x["ty"].as_str().is_some_and(|t| gone.contains(&t)));
            for x in a {
                if let Some(it) = x.get_mut("it") {
                    without(it, gone);
                }
            }
        }
    }
    match r.below(3) {
        0 => *shapes = json!([]),
        1 => without(shapes, &["fl", "st", "gf", "gs"]),
        _ => without(shapes, &["rc", "el", "sh", "sr"]),
    }
}
/// The document, preceded by `n` of its kind in which only some of the layers draw: each layer in exactly one of them.
pub fn soli(r: &mut Rng, d: &Value, n: usize) -> Vec<Value> {
    let mut docs = vec![d.clone(); n + 1];
    let at: Vec<(usize, usize)> = all_lists(&mut docs[n]).iter().enumerate().flat_map(|(i, (_, l))| (0..l.len()).map(move |k| (i, k))).collect();
    for (i, k) in at {
        let own = r.below(n);
        for (m, e) in docs[..n].iter_mut().enumerate() {
            if m != own {
                let l = &mut all_lists(e)[i].1[k];
                if let Some(s) = l.get_mut("shapes") {
                    silence(r, s);
                }
            }
        }
    }
    docs
}
/// The calls between which draws are made, and those draws.
fn rhythm(ops: &[Call]) -> (Vec<Call>, Vec<Vec<Call>>) {
    let (mut beats, mut runs) = (vec![], vec![vec![]]);
    for o in ops {
        if let Call::Draw { .. } = o {
            runs.last_mut().unwrap().push(o.clone());
        } else {
            beats.push(o.clone());
            runs.push(vec![]);
        }
    }
    (beats, runs)
}
/// What the parts drawn together must look like.
pub fn together(parts: &[&Vec<Call>]) -> Result<Vec<Call>, String> {
    let all: Vec<_> = parts.iter().map(|p| rhythm(p)).collect();
    let digest = |v: &[Call]| crate::compare::digest(v);
    for (i, a) in all.iter().enumerate() {
        if digest(&a.0) != digest(&all[0].0) {
            return Err(format!("emptying layers changes layers and clips (part {i}: {} of them, part 0: {})", a.0.len(), all[0].0.len()));
        }
    }
    let mut out = vec![];
    for k in 0..all[0].1.len() {
        let full: Vec<_> = all.iter().filter(|a| !a.1[k].is_empty()).collect();
        if full.len() > 1 {
            return Err("a layer that was emptied draws".into());
        }
        if let Some(a) = full.first() {
            out.extend(a.1[k].iter().cloned());
        }
        out.extend(all[0].0.get(k).cloned());
    }
    Ok(out)
}
pub fn frames(r: &mut Rng, d: &Value, n: usize) -> Vec<f64> {
    let ev = crate::props::events(d);
    gen::player(r, &ev, n).into_iter().map(|x| (x.clamp(-1e5, 2e5) * 64.0).round() / 64.0).collect()
}
/// A document whose times are exact in binary.
pub fn plain(r: &mut Rng, prof: &gen::Prof) -> Value {
    loop {
        let mut d = gen::doc(r, prof);
        if crate::props::dyadic(&mut d) && model::lower(&d).is_ok_and(|m| !m.cyclic) {
            return d;
        }
    }
}
/// Loads the documents into slots 0, 1, ... and draws them in turns.
pub fn ops(r: &mut Rng, sc: &mut Scenario, frames: &[f64], at: &dyn Fn(usize, f64, [f64; 6], f64) -> (f64, [f64; 6], f64)) {
    let n = sc.docs.len();
    let mut ops: Vec<Op> = (0..n).map(|i| Op::Load { slot: i, doc: i, route: *r.pick(&[Route::Slice, Route::Str, Route::Json]) }).collect();
    r.shuffle(&mut ops);
    let (mut tr, mut al) = (gen::affine(r), gen::alpha(r));
    let same = r.chance(0.5);
    for fr in frames {
        if r.chance(0.15) {
            tr = gen::affine(r);
            al = gen::alpha(r);
        }
        if r.chance(0.1) {
            let slot = r.below(n);
            let (f, t, a) = at(slot, *fr, tr, al);
            ops.push(Op::Render { slot, rend: if same { 0 } else { slot }, frame: f, tr: t, alpha: a, crash: Some(r.below(24) as u64) });
        }
        for slot in 0..n {
            let (f, t, a) = at(slot, *fr, tr, al);
            ops.push(Op::Render { slot, rend: if same { 0 } else { slot }, frame: f, tr: t, alpha: a, crash: None });
        }
    }
    sc.clients.push(ops);
}

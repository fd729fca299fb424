//! Per property: which scenarios a seed stands for and what is checked about a run.
use crate::built;
use crate::compare::{self, Aspect, Diff};
use crate::exec::{Got, Ran};
use crate::gen::{self, Prof};
use crate::model;
use crate::pairs;
use crate::rng::{hash_bytes, mix, Rng};
use crate::scen::*;
use kurbo::Affine;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dig {
    pub phase: u8,
    pub client: usize,
    pub op: usize,
    /// what happened, exactly
    pub h: u64,
    /// the same without wording of errors
    pub c: u64,
    pub note: String,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub viol: Vec<Viol>,
    pub digs: Vec<Dig>,
    pub counts: BTreeMap<String, u64>,
    pub streams: Vec<u64>,
    pub switches: u64,
    pub ilv: u64,
    pub blocked: u64,
    pub steps: u64,
    pub log: Vec<(u64, u32)>,
    /// playback time covered, in animation seconds
    pub secs: f64,
    /// harness trouble: no verdict
    pub trouble: Option<String>,
}
impl Outcome {
    pub fn n(&mut self, k: &str, d: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += d;
    }
    fn v(&mut self, class: &str, detail: String) {
        if self.viol.len() < 12 {
            self.viol.push(Viol { class: class.to_string(), detail });
        }
    }
}
pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
    "C26", "C27", "C28", "C29", "C34", "C35", "C36", "C37", "C38", "C39", "C40", "C41", "C42", "C43",
];

// ------------------------------------------------------------------------------------------ scenarios
/// Fixed documents with everything in them.
pub fn scouts() -> Vec<Vec<u8>> {
    let mut r = Rng::new(77);
    (0..12).map(|i| serde_json::to_vec(&gen::doc(&mut r, &profile(["C05", "C06", "C07", "C08", "C12", "C13"][i % 6]))).unwrap()).collect()
}
fn profile(prop: &str) -> Prof {
    let a = Prof::all();
    let l = Prof::lean();
    match prop {
        "C05" => Prof { matte: 0.4, mask: 0.4, hidden: 0.12, items: (1, 3), ..a },
        "C06" => Prof { layers: (1, 6), window: 0.9, hidden: 0.2, td: 0.15, matte: 0.2, kinds: [10, 3, 2, 2, 3], unsup: 0.2, items: (1, 2), anim: 0.15, ..a },
        "C07" => Prof { anim: 0.8, ..l },
        "C08" => Prof { kinds: [6, 1, 0, 0, 8], depth: 3, layers: (1, 3), items: (1, 2), anim: 0.5, window: 0.6, ..a },
        "C09" => Prof { parent: 0.8, hidden: 0.2, kinds: [8, 6, 1, 2, 2], window: 0.7, anim: 0.6, items: (1, 1), layers: (2, 6), trim: 0.0, ..a },
        "C10" => Prof { matte: 0.6, mask: 0.4, layers: (2, 6), window: 0.6, items: (1, 2), anim: 0.3, ..a },
        "C11" => Prof { opac: 0.9, group: 0.5, gdepth: 3, grad: 0.4, parent: 0.4, anim: 0.4, layers: (1, 4), ..a },
        "C12" => Prof { still: 0.3, items: (2, 7), group: 0.4, gdepth: 3, ident: 0.5, stroke: 0.5, layers: (1, 3), matte: 0.05, mask: 0.05, anim: 0.2, ..a },
        "C13" => Prof { still: 0.35, ident: 0.5, trim: 0.3, items: (2, 6), group: 0.3, layers: (1, 3), matte: 0.05, mask: 0.1, ..a },
        "C41" => Prof { layers: (1, 3), kinds: [12, 1, 0, 0, 2], group: 0.35, gdepth: 3, items: (2, 6), trim: 0.06, anim: 0.2, matte: 0.05, mask: 0.05, stroke: 0.3, ..a },
        "C03" => Prof { mask: 0.4, matte: 0.3, trim: 0.2, ..a },
        "C04" => Prof { matte: 0.4, parent: 0.4, ..a },
        _ => a,
    }
}
fn aspects(prop: &str) -> Vec<Aspect> {
    use Aspect::*;
    match prop {
        "C05" => vec![Nesting, Canvas],
        "C06" => vec![Group, Index, Order, Extra],
        "C07" => vec![Place, ClipPlace, ClipPath, Path, Color, Alpha, Stroke, NaN],
        "C08" => vec![Group, Place, ClipPlace, ClipPath, Path, Color, Alpha, Order, Extra, Layering],
        "C09" => vec![Place, ClipPlace, Alpha, Group],
        "C10" => vec![Layering, Blend, ClipPath, ClipPlace, Group, Order, Nesting],
        "C11" => vec![Alpha, Paint, Extra],
        "C12" => vec![Paint, Extra, Place, Path, Color, Stroke],
        "C13" => vec![Path, Paint, Extra, Place],
        "C42" => vec![Nesting, Canvas],
        "C40" | "C41" => vec![Nesting, Canvas, Group, Index, Order, Extra, Place, ClipPlace, ClipPath, Path, Color, Alpha, Stroke, Paint, Blend, Layering],
        _ => vec![],
    }
}
pub fn events(d: &Value) -> Vec<f64> {
    match model::lower(d) {
        Ok(m) if !m.cyclic => model::events(&m),
        _ => {
            fn times(v: &Value, out: &mut Vec<f64>) {
                match v {
                    Value::Object(o) => {
                        for (k, x) in o {
                            match x.as_f64() {
                                Some(t) if matches!(k.as_str(), "ip" | "op" | "t") && t.abs() < 1e7 => out.push(t),
                                _ => times(x, out),
                            }
                        }
                    }
                    Value::Array(a) => a.iter().for_each(|x| times(x, out)),
                    _ => {}
                }
            }
            let mut t = vec![];
            times(d, &mut t);
            if t.is_empty() {
                t.push(0.0);
            }
            t.sort_by(f64::total_cmp);
            t.dedup();
            t
        }
    }
}
fn env(r: &mut Rng) -> EnvSpec {
    EnvSpec {
        hash_seed: r.u64() >> 1,
        clock_base: r.below(1 << 40) as u64,
        clock_rate: *r.pick(&[0, 1, 1000, 1_000_000]),
        clock_jump: *r.pick(&[0, 0, 1_000_000_000, u64::MAX - 3_000_000_000]),
        recycle: r.chance(0.5),
    }
}
fn blank(prop: &str, kind: &str, seed: u64, r: &mut Rng) -> Scenario {
    Scenario {
        prop: prop.into(),
        kind: kind.into(),
        seed,
        docs: vec![],
        faults: vec![],
        style: vec![],
        before: vec![],
        clients: vec![],
        after: vec![],
        env: env(r),
        sched_seed: r.u64() >> 1,
        mean: *r.pick(&[40, 300, 300, 2500, 20000, crate::rt::HOT + 6, crate::rt::HOT + 24, crate::rt::HOT + 24]),
        schedule: None,
        extra: Value::Null,
    }
}
fn route(r: &mut Rng) -> Route {
    *r.pick(&[Route::Slice, Route::Str, Route::Json])
}
/// A client that plays its documents: loads, seeks, renderer swaps, crashes of its sink.
struct Play {
    renders: usize,
    crash: f64,
    odd: f64,
    /// identity transform and full opacity only
    plain: bool,
}
/// `slots`: (slot, doc) pairs this client may draw; those it must load first are loaded by it.
fn client(r: &mut Rng, docs: &[Value], slots: &[(usize, usize)], load: bool, p: &Play) -> Vec<Op> {
    let mut ops = vec![];
    if load {
        for (s, d) in slots {
            ops.push(Op::Load { slot: *s, doc: *d, route: route(r) });
        }
    }
    let mut frames: Vec<Vec<f64>> = slots.iter().map(|(_, d)| { let e = events(&docs[*d]); gen::player(r, &e, p.renders) }).collect();
    let nr = r.range(1, 3) as usize;
    let (mut tr, mut al) = (if p.plain { IDENT } else { gen::affine(r) }, if p.plain { 1.0 } else { gen::alpha(r) });
    let mut cur = 0;
    for _ in 0..p.renders {
        if r.chance(0.3) {
            cur = r.below(slots.len());
        }
        if !p.plain && r.chance(0.2) {
            tr = gen::affine(r);
            al = gen::alpha(r);
        }
        if r.chance(0.04) {
            ops.push(Op::NewRend { rend: r.below(nr) });
        }
        if load && r.chance(0.04) {
            ops.push(Op::Load { slot: slots[cur].0, doc: slots[cur].1, route: route(r) });
        }
        if r.chance(0.03) {
            let (from, to) = (slots[cur].0, slots[cur].0);
            ops.push(Op::CloneSlot { from, to });
        }
        let mut frame = frames[cur].pop().unwrap();
        if r.chance(p.odd) {
            frame = gen::odd_frames(r);
        }
        let crash = if r.chance(p.crash) { Some(r.below(24) as u64) } else { None };
        ops.push(Op::Render { slot: slots[cur].0, rend: r.below(nr), frame, tr, alpha: al, crash });
    }
    ops
}
/// Documents, one to three clients, own or shared compositions.
fn session(r: &mut Rng, sc: &mut Scenario, prof: &Prof, single: f64, p: &Play) {
    let nd = if r.chance(0.6) { 1 } else { 2 };
    for _ in 0..nd {
        let d = gen::doc(r, prof);
        sc.docs.push(d);
    }
    clients(r, sc, single, p);
}
fn clients(r: &mut Rng, sc: &mut Scenario, single: f64, p: &Play) {
    let nd = sc.docs.len();
    let nc = if r.chance(single) { 1 } else { r.range(2, 3) as usize };
    let shared = nc > 1 && r.chance(0.5);
    if shared {
        for d in 0..nd {
            sc.before.push(Op::Load { slot: d, doc: d, route: route(r) });
        }
    }
    for c in 0..nc {
        let slots: Vec<(usize, usize)> = (0..nd).map(|d| (if shared { d } else { 4 + 3 * c + d }, d)).collect();
        let q = Play { renders: (p.renders + nc - 1) / nc, ..*p };
        let ops = client(r, &sc.docs, &slots, !shared, &q);
        sc.clients.push(ops);
    }
}
/// Makes references circular and values extreme.
pub fn twist(r: &mut Rng, d: &mut Value, extreme: bool) {
    let ids: Vec<String> = d.get("assets").and_then(Value::as_array).map(|a| a.iter().filter(|x| x.get("layers").is_some()).filter_map(|x| x["id"].as_str().map(String::from)).collect()).unwrap_or_default();
    let mut lists: Vec<&mut Vec<Value>> = vec![];
    let (mut root, mut assets) = (None, None);
    if let Some(o) = d.as_object_mut() {
        for (k, v) in o.iter_mut() {
            if k == "layers" {
                root = v.as_array_mut();
            } else if k == "assets" {
                assets = v.as_array_mut();
            }
        }
    }
    if let Some(a) = assets {
        for x in a {
            if let Some(l) = x.get_mut("layers").and_then(Value::as_array_mut) {
                lists.push(l);
            }
        }
    }
    if let Some(l) = root {
        lists.push(l);
    }
    for l in lists {
        let inds: Vec<i64> = l.iter().filter_map(|x| x["ind"].as_i64()).collect();
        let mut inst = 0;
        for x in l.iter_mut() {
            if x["ty"] == 0 {
                inst += 1;
                if inst > 2 {
                    x["refId"] = json!("nope");
                } else if !ids.is_empty() && r.chance(0.7) {
                    x["refId"] = json!(r.pick(&ids).clone());
                }
            }
            if !inds.is_empty() {
                if r.chance(0.4) {
                    x["tt"] = json!(r.range(1, 4));
                    x["tp"] = json!(*r.pick(&inds));
                }
                if r.chance(0.4) {
                    x["parent"] = json!(*r.pick(&inds));
                }
                if r.chance(0.1) {
                    x["ind"] = json!(*r.pick(&inds));
                }
            }
            if r.chance(0.1) {
                x["td"] = json!(1);
            }
        }
    }
    if extreme {
        let by_name = r.chance(0.5);
        for _ in 0..r.range(0, 6) {
            // aim at numbers
            for _ in 0..20 {
                let k = if by_name { gen::some_place(r, d, true) } else { r.below(count_nodes(d)) };
                let mut c = 0;
                let is_num = matches!(get_nth(d, k, &mut c), Some(Value::Number(_)));
                if is_num {
                    let v = r.pick(&[json!(1e308), json!(-1e308), json!(0), json!(-1), json!(1e-320), json!(1e19), json!(65536), json!(1e9), json!(-0.0), json!(100000), json!(2)]).clone();
                    let mut c = 0;
                    replace_nth(d, k, &mut c, &v);
                    break;
                }
            }
        }
    }
}
/// Shapes that are infinitely far away at some time, of any size.
fn beyond(r: &mut Rng, v: &mut Value, ev: &[f64], q: f64) {
    match v {
        Value::Object(o) => {
            let ty = o.get("ty").and_then(Value::as_str).unwrap_or("").to_string();
            if matches!(ty.as_str(), "rc" | "el" | "sr") && r.chance(q) {
                let far = |r: &mut Rng| *r.pick(&[1e308, 1e308, -1.5e308, 0.0]);
                let (x, y) = (far(r), far(r));
                let (a, b) = (*r.pick(ev), *r.pick(ev));
                let (a, b) = (a.min(b), a.max(b) + 1.0);
                let huge = |r: &mut Rng| *r.pick(&[1e300, 1e100, 1e18, 50.0, 0.0, -1e300]);
                o.insert("p".into(), json!({"a": 1, "k": [{"t": a, "s": [x, y], "o": {"x": 0, "y": 0}, "i": {"x": 1, "y": 1}}, {"t": b, "s": [-x, -y]}]}));
                if ty != "sr" && r.chance(0.8) {
                    o.insert("s".into(), json!({"a": 0, "k": [huge(r), huge(r)]}));
                }
                if ty == "rc" && r.chance(0.6) {
                    o.insert("r".into(), json!({"a": 0, "k": huge(r)}));
                }
            }
            o.values_mut().for_each(|x| beyond(r, x, ev, q));
        }
        Value::Array(a) => a.iter_mut().for_each(|x| beyond(r, x, ev, q)),
        _ => {}
    }
}
fn rare_nums(r: &mut Rng, lo: i64, hi: i64) -> Vec<Value> {
    (0..r.range(lo, hi)).map(|_| if r.chance(0.9) { gen::num(r, 3.5) } else { json!(*r.pick(&[-1.0, 0.0, 1e9, 100.0, 0.25])) }).collect()
}
fn rare_handle(r: &mut Rng) -> Value {
    let side = |r: &mut Rng| if r.chance(0.3) { json!(0.4) } else { Value::Array(rare_nums(r, 0, 4)) };
    json!({"x": side(r), "y": side(r)})
}
/// Keyframes as loosely as the format allows; `value` makes what a keyframe holds.
fn rare_keys(r: &mut Rng, t0: f64, value: &mut dyn FnMut(&mut Rng) -> Value) -> Value {
    let n = r.below(5);
    let mut t = t0;
    let ks: Vec<Value> = (0..n)
        .map(|_| {
            let mut k = json!({"t": t});
            t += *r.pick(&[0.0, 1.0, 2.5, 4.0, -1.0]);
            for key in ["s", "e"] {
                if r.chance(if key == "s" { 0.8 } else { 0.3 }) {
                    k[key] = value(r);
                }
            }
            for key in ["i", "o"] {
                if r.chance(0.3) {
                    k[key] = rare_handle(r);
                }
            }
            if r.chance(0.2) {
                k["h"] = json!(1);
            }
            if r.chance(0.15) {
                k["to"] = Value::Array(rare_nums(r, 0, 3));
                k["ti"] = Value::Array(rare_nums(r, 0, 3));
            }
            k
        })
        .collect();
    json!({"a": 1, "k": ks})
}
fn rare_bezier(r: &mut Rng) -> Value {
    let n = r.range(0, 5);
    let pts = |r: &mut Rng, n: i64| -> Value { (0..n).map(|k| if r.chance(0.97) { json!([k * 7, k * k]) } else { Value::Array(rare_nums(r, 0, 3)) }).collect() };
    let off = |r: &mut Rng| if r.chance(0.8) { n } else { r.range(0, 6) };
    let (a, b) = (off(r), off(r));
    let mut v = json!({"v": pts(r, n), "i": pts(r, a), "o": pts(r, b)});
    if r.chance(0.8) {
        v["c"] = json!(r.chance(0.5));
    }
    v
}
fn rare_path(r: &mut Rng, t0: f64) -> Value {
    if r.chance(0.25) {
        return json!({"a": 0, "k": rare_bezier(r)});
    }
    rare_keys(r, t0, &mut |r| (0..*r.pick(&[0, 1, 1, 1, 2])).map(|_| rare_bezier(r)).collect())
}
fn rare_prop(r: &mut Rng, t0: f64, dims: i64) -> Value {
    let one = if r.chance(0.06) { dims != 1 } else { dims == 1 };
    match r.below(5) {
        0 if one => json!({"a": 0, "k": rare_nums(r, 1, 1)[0]}),
        0 => json!({"a": 0, "k": Value::Array(if r.chance(0.7) { rare_nums(r, dims, dims) } else { rare_nums(r, 0, 6.max(dims)) })}),
        _ => {
            let fix = r.chance(0.4);
            rare_keys(r, t0, &mut |r| if r.chance(0.97) { Value::Array(if fix { rare_nums(r, dims, dims) } else { rare_nums(r, 0, 5.max(dims)) }) } else { json!(2) })
        }
    }
}
/// Says something twice, in another order or not at all: any list of the document.
fn rearrange(r: &mut Rng, d: &mut Value) -> &'static str {
    fn lists<'a>(r: &mut Rng, v: &'a mut Value, out: &mut Vec<&'a mut Vec<Value>>) {
        match v {
            Value::Array(a) => {
                // one list or those below it: both would borrow twice
                if a.iter().any(Value::is_object) && r.chance(0.4) {
                    out.push(a);
                    return;
                }
                a.iter_mut().for_each(|x| lists(r, x, out));
            }
            Value::Object(o) => o.iter_mut().for_each(|(_, x)| lists(r, x, out)),
            _ => {}
        }
    }
    if let Some(a) = d.get_mut("assets").and_then(Value::as_array_mut).filter(|a| !a.is_empty()) {
        if r.chance(0.4) {
            // a second asset under the name of the first
            let mut x = r.pick(a).clone();
            if a.len() > 1 && r.chance(0.5) {
                x["id"] = a[0]["id"].clone();
            }
            let at = r.below(a.len() + 1);
            a.insert(at, x);
            return "asset twice";
        }
    }
    let mut all = vec![];
    lists(r, d, &mut all);
    if all.is_empty() {
        return "none";
    }
    let k = r.below(all.len());
    let l = &mut *all[k];
    match r.below(4) {
        0 => l.reverse(),
        1 => {
            let (a, b) = (r.below(l.len()), r.below(l.len()));
            l.swap(a, b);
        }
        2 => {
            let k = r.below(l.len());
            let x = l[k].clone();
            let at = r.below(l.len() + 1);
            l.insert(at, x);
        }
        _ => {
            let k = r.below(l.len());
            l.remove(k);
        }
    }
    "rearranged"
}
/// Mask settings beyond those the drawing model knows.
fn mask_settings(r: &mut Rng, d: &mut Value) {
    for (_, l) in all_lists(d) {
        for x in l {
            let t0 = x["ip"].as_f64().unwrap_or(0.0);
            for m in x.get_mut("masksProperties").and_then(Value::as_array_mut).into_iter().flatten() {
                if r.chance(0.5) {
                    m["o"] = match r.below(5) {
                        0 => json!({"a": 0, "k": 0}),
                        1 => json!({"a": 0, "k": 50}),
                        2 => json!({"a": 1, "k": [{"t": t0 - 4.0, "s": [80], "h": 1}, {"t": t0 + 6.0, "s": [0], "h": 1}, {"t": t0 + 12.0, "s": [100]}]}),
                        _ => json!({"a": 1, "k": [{"t": t0, "s": [*r.pick(&[100, 0])]}, {"t": t0 + 8.0, "s": [*r.pick(&[0, 0, 100])]}, {"t": t0 + 30.0, "s": [50]}]}),
                    };
                }
                if r.chance(0.3) {
                    m["mode"] = json!(*r.pick(&["n", "l", "d", "f"]));
                }
                if r.chance(0.3) {
                    m["inv"] = json!(r.chance(0.5));
                }
                if r.chance(0.2) {
                    m["x"] = json!({"a": 0, "k": *r.pick(&[-5.0, 3.0, 0.0])});
                }
            }
        }
    }
}
/// One feature the format defines and exporters rarely write.
fn rare(r: &mut Rng, d: &mut Value, bias: f64) -> &'static str {
    let which = if r.chance(bias) { r.range(22, 29) as usize } else { r.below(33) };
    if which >= 30 {
        return rearrange(r, d);
    }
    let mut layers: Vec<&mut Value> = vec![];
    let (mut roots, mut assets) = (None, None);
    let Some(o) = d.as_object_mut() else { return "none" };
    for (k, v) in o.iter_mut() {
        if k == "layers" {
            roots = v.as_array_mut();
        } else if k == "assets" {
            assets = v.as_array_mut();
        }
    }
    if let Some(a) = assets {
        for x in a {
            if let Some(l) = x.get_mut("layers").and_then(Value::as_array_mut) {
                layers.extend(l.iter_mut());
            }
        }
    }
    if let Some(l) = roots {
        layers.extend(l.iter_mut());
    }
    if layers.is_empty() {
        return "none";
    }
    let k = r.below(layers.len());
    let l = &mut *layers[k];
    let t0 = l["ip"].as_f64().unwrap_or(0.0) + *r.pick(&[0.0, 0.0, 1.0, -2.0]);
    let st = json!({"a": 0, "k": 1});
    match which {
        0 => {
            l["ty"] = json!(*r.pick(&[2, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, -1, 99]));
            "layer type"
        }
        1 => {
            l["bm"] = json!(r.range(-1, 18));
            "blend mode"
        }
        2 => {
            l["ks"].as_object_mut().map(|o| o.remove("r"));
            "no rotation"
        }
        3 => {
            let o = l["ks"].as_object_mut().unwrap();
            o.remove("r");
            o.insert("rx".into(), st.clone());
            o.insert("ry".into(), st.clone());
            o.insert("rz".into(), st.clone());
            "three rotations"
        }
        4 => {
            l["ks"]["r"] = json!({"x": st, "y": st, "z": st, "or": {"a": 0, "k": [0, 0, 0]}});
            "split rotation"
        }
        5 => {
            l["ks"]["p"] = json!({"s": true, "x": st, "y": st});
            "split position"
        }
        6 => {
            l["ks"]["o"] = json!({"a": 1, "k": [{"t": 0, "s": []}, {"t": 5, "s": [100]}]});
            "empty keyframe value"
        }
        7 => {
            let h = r.pick(&[json!({"x": [], "y": []}), json!({"x": [0.1, 0.2], "y": [0.3, 0.4]}), json!({"x": [0.1, 0.2, 0.3], "y": [0.3]}), json!({"x": 0.2, "y": []})]).clone();
            let kf = json!({"a": 1, "k": [{"t": 0, "s": [10, 20, 30], "i": h, "o": h}, {"t": 5, "s": [100, 50, 20]}]});
            let key = *r.pick(&["o", "r", "p", "s", "a"]);
            l["ks"][key] = kf;
            "easing arrays"
        }
        8 => {
            l["tm"] = json!({"a": 1, "k": [{"t": 0, "s": [0]}, {"t": 5, "s": [1]}]});
            "time remap"
        }
        9 => {
            l["ef"] = json!([{"ty": 21, "nm": "Fill", "ef": [{"ty": 10, "v": {"a": 0, "k": 0}}]}]);
            "effects"
        }
        10 => {
            l["sy"] = json!([{"ty": r.range(0, 9), "nm": "st", "c": {"a": 0, "k": [1, 0, 0]}, "o": st, "s": st, "a": st}]);
            "layer styles"
        }
        11 => {
            l["ty"] = json!(5);
            l["t"] = json!({"d": {"k": [{"s": {"s": 20, "f": "F", "t": "hi", "j": 0, "tr": 0, "lh": 20, "ls": 0, "fc": [1, 0, 0]}, "t": 0}]}, "p": {}, "m": {"g": 1, "a": {"a": 0, "k": [0, 0]}}, "a": []});
            "text layer"
        }
        12 | 13 => {
            let c = st.clone();
            let tr = json!({"p": {"a": 0, "k": [1, 2]}, "a": {"a": 0, "k": [0, 0]}, "s": {"a": 0, "k": [100, 100]}, "r": st, "o": st, "so": st, "eo": st});
            let it = r.pick(&[
                json!({"ty": "rp", "c": c, "o": st, "m": 1, "tr": tr}),
                json!({"ty": "zz", "pt": st, "a": st, "s": st}),
                json!({"ty": "no-such-shape"}),
                json!({"ty": "st", "c": {"a": 0, "k": [1, 0, 0]}, "o": st, "w": st, "d": [{"n": "d", "v": st}, {"n": "g", "v": st}, {"n": "o", "v": st}]}),
                json!({"ty": "sr", "sy": 1, "p": {"a": 0, "k": [0, 0]}, "or": st, "os": st, "ir": st, "is": st, "r": st, "pt": {"a": 0, "k": 1e9}}),
                json!({"ty": "sr", "sy": 2, "p": {"a": 0, "k": [0, 0]}, "or": st, "os": st, "r": st, "pt": {"a": 0, "k": -3}}),
                json!({"ty": "gf", "o": st, "g": {"p": 2, "k": {"a": 0, "k": [0, 1, 0, 0, 1, 0, 0, 1, 0, 0.5, 1, 0.25]}}, "s": {"a": 0, "k": [0, 0]}, "e": {"a": 0, "k": [9, 0]}, "t": 1}),
                json!({"ty": "gf", "o": st, "g": {"p": 3, "k": {"a": 0, "k": [0, 1, 0]}}, "s": {"a": 0, "k": [0, 0]}, "e": {"a": 0, "k": [9, 0]}, "t": 1}),
                json!({"ty": "gf", "o": st, "g": {"p": 0, "k": {"a": 0, "k": []}}, "s": {"a": 0, "k": [0, 0]}, "e": {"a": 0, "k": [9, 0]}, "t": 2}),
                json!({"ty": "gr", "it": [{"ty": "tr", "p": {"a": 0, "k": [0, 0]}}]}),
                json!({"ty": "gr", "it": [{"ty": "tr", "p": {"s": true, "x": st, "y": st}, "r": {"x": st, "y": st, "z": st}}]}),
                json!({"ty": "sh", "ks": {"a": 0, "k": {"v": [], "i": [], "o": [], "c": true}}}),
                json!({"ty": "sh", "ks": {"a": 1, "k": [{"t": 0, "s": []}, {"t": 4}]}}),
                json!({"ty": "sh", "ks": {"a": 1, "k": []}}),
                json!({"ty": "fl", "c": {"a": 1, "k": [{"t": 0, "s": [1]}]}, "o": st}),
                json!({"ty": "fl", "c": {"a": 0, "k": []}, "o": st}),
            ]).clone();
            l["ty"] = json!(4);
            match l["shapes"].as_array_mut() {
                Some(a) => {
                    let at = r.below(a.len() + 1);
                    a.insert(at, it);
                }
                None => l["shapes"] = json!([it]),
            }
            "rare shape"
        }
        14 => {
            l["masksProperties"] = json!([{"mode": *r.pick(&["n", "a", "s", "i", "l", "d", "f", "?"]), "inv": true, "o": st, "x": st, "pt": {"a": 0, "k": {"v": [[0, 0]], "i": [[0, 0]], "o": [[0, 0]], "c": true}}}]);
            "mask modes"
        }
        15 => {
            l["tt"] = json!(r.range(-1, 6));
            "matte modes"
        }
        16 => {
            let mut l = vec![json!({"id": "img", "w": 8, "h": 8, "u": "", "p": "data:image/png;base64,AAAA", "e": 1, "t": *r.pick(&["seq", "", "other"])})];
            if r.chance(0.3) {
                l.push(r.pick(&[json!({"id": "snd", "u": "", "p": "a.mp3", "e": 0}), json!({"id": "data", "p": "a.json", "t": 3}), json!({"id": "neither"})]).clone());
            }
            if r.chance(0.5) {
                l.push(json!({"id": "frame", "w": 8.5, "h": 8, "p": "f.png", "t": "seq", "sid": "s", "nm": "n"}));
            }
            match d["assets"].as_array_mut() {
                Some(a) => a.extend(l),
                None => d["assets"] = Value::Array(l),
            }
            "image assets"
        }
        17 => {
            d["fonts"] = json!({"list": [{"fName": "F", "fFamily": "F", "fStyle": "Regular", "ascent": 70}]});
            d["chars"] = json!([]);
            "fonts"
        }
        18 => {
            d["slots"] = json!({"x": {"p": {"a": 0, "k": [1, 1, 1]}}});
            "slots"
        }
        19 => {
            // deep but legal nesting
            let n = r.range(5, 70);
            let mut g = json!({"ty": "rc", "p": {"a": 0, "k": [0, 0]}, "s": {"a": 0, "k": [9, 9]}, "r": {"a": 0, "k": 0}});
            for _ in 0..n {
                g = json!({"ty": "gr", "it": [g]});
            }
            l["ty"] = json!(4);
            l["shapes"] = json!([g]);
            "deep groups"
        }
        22 | 23 => {
            // paths: of a mask or of a shape
            if r.chance(0.4) {
                l["masksProperties"] = json!([{"mode": "a", "inv": false, "pt": rare_path(r, t0)}]);
            } else {
                l["ty"] = json!(4);
                l["shapes"] = json!([{"ty": "sh", "ks": rare_path(r, t0)}, {"ty": "fl", "c": {"a": 0, "k": [1, 0, 0]}, "o": st}]);
            }
            "odd paths"
        }
        24..=26 => {
            let key = *r.pick(&["p", "a", "s", "r", "o", "sk", "sa"]);
            l["ks"][key] = if key == "p" && r.chance(0.2) { json!({"s": true, "x": rare_prop(r, t0, 1), "y": rare_prop(r, t0, 1)}) } else { rare_prop(r, t0, if matches!(key, "p" | "a" | "s") { 2 } else { 1 }) };
            "odd keyframes"
        }
        27..=29 => {
            l["ty"] = json!(4);
            let it = match r.below(8) {
                0 => json!({"ty": "fl", "c": rare_prop(r, t0, 4), "o": rare_prop(r, t0, 1)}),
                1 => json!({"ty": "st", "c": rare_prop(r, t0, 4), "o": st, "w": rare_prop(r, t0, 1), "lc": r.range(1, 3), "lj": r.range(1, 3)}),
                2 | 3 => {
                    let n = r.range(0, 6);
                    let k = if r.chance(0.5) { rare_prop(r, t0, n * 4) } else { json!({"a": 0, "k": Value::Array(rare_nums(r, 0, 30))}) };
                    let huge = r.chance(0.1);
                    let p = if huge { *r.pick(&[1i64 << 31, 1 << 40, 1 << 59, i64::MAX, -1]) } else if r.chance(0.3) { r.range(0, 8) } else { n };
                    let ends = [json!({"a": 0, "k": [0, 0]}), json!({"a": 0, "k": [9, 4]})];
                    let (s, e) = if r.chance(0.6) { (ends[0].clone(), ends[1].clone()) } else { (rare_prop(r, t0, 2), rare_prop(r, t0, 2)) };
                    let mut g = json!({"ty": "gf", "o": st, "g": {"p": p, "k": k}, "s": s, "e": e, "t": r.range(1, 2)});
                    if r.chance(0.4) {
                        g["ty"] = json!("gs");
                        g["w"] = st.clone();
                    }
                    g
                }
                4 => json!({"ty": "tm", "s": rare_prop(r, t0, 1), "e": rare_prop(r, t0, 1), "o": rare_prop(r, t0, 1), "m": r.range(1, 2)}),
                5 => json!({"ty": "rc", "p": rare_prop(r, t0, 2), "s": rare_prop(r, t0, 2), "r": rare_prop(r, t0, 1)}),
                6 => json!({"ty": "el", "p": rare_prop(r, t0, 2), "s": rare_prop(r, t0, 2)}),
                _ => json!({"ty": "sr", "sy": r.range(1, 2), "p": rare_prop(r, t0, 2), "or": rare_prop(r, t0, 1), "os": rare_prop(r, t0, 1), "ir": rare_prop(r, t0, 1), "is": rare_prop(r, t0, 1), "r": rare_prop(r, t0, 1), "pt": rare_prop(r, t0, 1)}),
            };
            let rc = json!({"ty": "rc", "p": {"a": 0, "k": [0, 0]}, "s": {"a": 0, "k": [9, 9]}, "r": {"a": 0, "k": 0}});
            let mut v = vec![rc, it];
            if r.chance(0.5) {
                v.push(json!({"ty": "fl", "c": {"a": 0, "k": [1, 0, 0]}, "o": {"a": 0, "k": 100}}));
            }
            l["shapes"] = Value::Array(v);
            "odd shape values"
        }
        20 => {
            l["ks"]["s"] = json!({"a": 1, "k": []});
            "no keyframes"
        }
        _ => {
            l["ks"]["p"] = json!({"a": 1, "k": [{"t": 0, "s": [0, 0], "to": [1, 2], "ti": [3, 4]}, {"t": 10, "s": [50, 50]}, {"t": 5}]});
            "spatial keyframes"
        }
    }
}
/// Writes optional members the format defines (and velato's schema models) into a document: what a C16 document
/// must carry over beyond the members that matter for drawing.
fn decorate(r: &mut Rng, d: &mut Value) {
    fn put(r: &mut Rng, o: &mut serde_json::Map<String, Value>, k: &str, v: Value, p: f64) {
        if r.chance(p) && !o.contains_key(k) {
            o.insert(k.into(), v);
        }
    }
    fn named(r: &mut Rng, o: &mut serde_json::Map<String, Value>, p: f64) {
        let nm = json!(*r.pick(&["name", "", "näme \u{1f600}", "a\"b\\c"]));
        put(r, o, "nm", nm, p);
        put(r, o, "mn", json!("ADBE Thing"), p);
    }
    fn flag(r: &mut Rng) -> Value {
        json!(r.below(2))
    }
    /// key: the member this value stands under; up: the member its parent stands under.
    fn go(r: &mut Rng, v: &mut Value, key: &str, up: &str, p: f64) {
        let q = &mut r.fork(7);
        match v {
            Value::Array(a) => {
                if key == "it" || key == "shapes" {
                    if r.chance(p) {
                        let f = json!({"a": 0, "k": 1.5});
                        let tr = json!({"p": {"a": 0, "k": [1, 2]}, "a": {"a": 0, "k": [3, 4]}, "s": {"a": 0, "k": [90, 110]}, "r": {"a": 0, "k": 5}, "o": {"a": 0, "k": 60}, "so": {"a": 0, "k": 70}, "eo": {"a": 0, "k": 20}, "sk": f, "sa": f});
                        let n = r.range(1, 5);
                        let x = r.pick(&[
                            json!({"ty": "rd", "r": f}),
                            json!({"ty": "pb", "a": f}),
                            json!({"ty": "tw", "a": f, "p": {"a": 0, "k": [1, 2]}}),
                            json!({"ty": "op", "a": f, "lj": q.range(1, 3), "ml": f}),
                            json!({"ty": "mm", "mm": n}),
                            json!({"ty": "rp", "c": f, "o": f, "m": q.range(1, 2), "tr": tr}),
                        ]).clone();
                        let at = if key == "it" { 0 } else { r.below(a.len() + 1) };
                        a.insert(at, x);
                    }
                }
                for x in a {
                    go(r, x, key, up, p);
                }
            }
            Value::Object(o) => {
                if key == "markers" || key == "meta" || key == "metadata" {
                    return;
                }
                let inner: Vec<String> = o.keys().cloned().collect();
                for k in inner {
                    go(r, o.get_mut(&k).unwrap(), &k, key, p);
                }
                let ty = o.get("ty").cloned();
                match ty {
                    Some(Value::String(ty)) => {
                        // a shape
                        named(r, o, p);
                        put(r, o, "ix", json!(q.range(1, 9)), p);
                        put(r, o, "ind", json!(q.range(0, 9)), p);
                        put(r, o, "cl", json!("css"), p);
                        put(r, o, "ln", json!("xml"), p);
                        put(r, o, "bm", json!(q.below(17)), p);
                        put(r, o, "hd", json!(q.chance(0.3)), p);
                        match ty.as_str() {
                            "gr" => {
                                put(r, o, "np", json!(q.range(0, 5)), p);
                                put(r, o, "cix", json!(q.range(0, 255)), p);
                            }
                            "rc" | "el" | "sh" | "sr" => put(r, o, "d", json!(*q.pick(&[1, 3])), p),
                            "fl" | "gf" => put(r, o, "r", json!(q.range(1, 2)), p),
                            "tm" => put(r, o, "m", json!(q.range(1, 2)), p),
                            _ => {}
                        }
                        if ty == "gf" || ty == "gs" {
                            put(r, o, "h", json!({"a": 0, "k": 20}), p);
                            put(r, o, "a", json!({"a": 0, "k": 30}), p);
                        }
                        if ty == "st" || ty == "gs" {
                            put(r, o, "lc", json!(q.range(1, 3)), p);
                            put(r, o, "lj", json!(q.range(1, 3)), p);
                            put(r, o, "ml", json!(3.5), p);
                            put(r, o, "ml2", json!({"a": 0, "k": 2.5}), p);
                            put(r, o, "d", json!([{"n": "d", "nm": "dash", "v": {"a": 0, "k": 3}}, {"n": "g", "v": {"a": 0, "k": 2}}, {"n": "o", "v": {"a": 0, "k": 1}}]), p);
                        }
                    }
                    Some(Value::Number(_)) if o.contains_key("ks") => {
                        // a layer
                        named(r, o, p);
                        let f = flag(r);
                        put(r, o, "ddd", f, p);
                        let f = flag(r);
                        put(r, o, "ao", f, p);
                        let f = flag(r);
                        put(r, o, "hasMask", json!(f == 1), p);
                        put(r, o, "mb", json!(q.chance(0.5)), p);
                        put(r, o, "hd", json!(q.chance(0.2)), p);
                        put(r, o, "bm", json!(q.below(17)), p);
                        put(r, o, "sr", json!(1), p);
                        put(r, o, "cl", json!("css"), p);
                        put(r, o, "ln", json!("xml"), p);
                        put(r, o, "tg", json!("g"), p);
                        put(r, o, "cp", json!("yes"), p);
                        let f = flag(r);
                        put(r, o, "ct", f, p);
                        if o["ty"] == 0 {
                            put(r, o, "tm", json!({"a": 1, "k": [{"t": 0, "s": [0]}, {"t": 9, "s": [1.5]}]}), p);
                        }
                    }
                    _ if key == "assets" => {
                        named(r, o, p);
                        if o.contains_key("layers") {
                            put(r, o, "fr", json!(29.97), p);
                            let f = flag(r);
                            put(r, o, "xt", f, p);
                        } else {
                            put(r, o, "sid", json!("slot"), p);
                            put(r, o, "t", json!("seq"), p);
                            put(r, o, "u", json!("images/"), p);
                        }
                    }
                    _ if key == "masksProperties" => {
                        named(r, o, p);
                        put(r, o, "mode", json!(*q.pick(&["n", "a", "s", "i", "l", "d", "f"])), p.max(0.5));
                        put(r, o, "inv", json!(q.chance(0.5)), p);
                        put(r, o, "o", json!({"a": 0, "k": 80}), p);
                        put(r, o, "x", json!({"a": 0, "k": 3}), p);
                    }
                    _ if o.contains_key("k") && o.contains_key("a") => {
                        // a property; vectors, positions and scalars have different extra members
                        let path = key == "ks" || key == "pt" && up == "masksProperties";
                        put(r, o, "ix", json!(q.range(1, 90)), p);
                        put(r, o, "x", json!("var $bm_rt;\n$bm_rt = loopOut();"), p * 0.5);
                        let many = |v: &Value| v.get(0).is_some_and(|x| x.is_number() || x["s"].get(1).is_some());
                        if !path && (key == "p" || key == "s" || key == "a") && many(&o["k"]) {
                            put(r, o, "l", json!(q.range(2, 3)), p);
                        }
                        if !path && key != "p" && key != "a" {
                            put(r, o, "sid", json!("slot"), p);
                        }
                    }
                    _ if key == "k" && o.contains_key("t") => {
                        // a keyframe
                        if o.get("s").and_then(|s| s.get(0)).is_some_and(Value::is_number) {
                            let s = o["s"].clone();
                            put(r, o, "e", s, p);
                        } else if let Some(s) = o.get("s").cloned() {
                            put(r, o, "e", s, p);
                        }
                        let f = flag(r);
                        put(r, o, "h", f, p);
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    let p = *r.pick(&[0.03, 0.1, 0.3]);
    go(r, d, "", "", p);
    if let Some(o) = d.as_object_mut() {
        named(r, o, p);
        put(r, o, "v", json!("5.9.6"), p);
        put(r, o, "ver", json!(50906), p);
        put(r, o, "ddd", json!(0), p);
        put(r, o, "metadata", json!({"customProps": {"a": [1, null, {"b": false}]}}), p);
        put(r, o, "meta", json!({"g": "sim", "a": "x", "k": ["one", "two"], "d": "about", "tc": ""}), p);
        put(r, o, "markers", json!([{"cm": "", "tm": -3.25}, {"tm": 7, "dr": 0.5}, {"cm": "last"}]), p);
    }
}
/// A frame range, rate and size few documents have.
fn odd_header(r: &mut Rng, d: &mut Value) {
    for k in ["ip", "op", "fr", "w", "h"] {
        if r.chance(0.6) {
            d[k] = match k {
                "fr" => json!(*r.pick(&[0.0, 0.001, 1.0, 12.0, 23.976, 24.0, 25.0, 29.97, 29.9700012, 30.0, 59.94, 60.0, 120.0, 240.0, 1000.0, 1e9, -30.0])),
                "w" | "h" => json!(*r.pick(&[0u64, 1, 2, 255, 256, 512, 1080, 1920, 4096, 32767, 32768, 65535, 65536, 70000, 16777217, 4294967295, 4294967296, 1 << 40])),
                _ => match r.below(8) {
                    0 => json!(r.range(-100, 100)),
                    1 => json!(r.range(-1000, 1000) as f64 / 8.0),
                    2 => json!(r.range(-1_000_000, 1_000_000) as f64 / 1000.0),
                    3 => json!(*r.pick(&[16777217.0, 1e12, -1e12, 4294967296.5, 1e-6, 2147483648.0, 0.1, 33.333333333])),
                    4 => json!(-0.5),
                    5 => d[if k == "ip" { "op" } else { "ip" }].clone(),
                    _ => json!(r.range(0, 400)),
                },
            };
        }
    }
}
/// Numbers with many decimals, as programs write them.
fn precise(r: &mut Rng, d: &mut Value, q: f64) {
    fn go(r: &mut Rng, v: &mut Value, key: &str, q: f64) {
        match v {
            Value::Object(o) => {
                for (k, x) in o.iter_mut() {
                    go(r, x, k, q)
                }
            }
            Value::Array(a) => {
                for x in a {
                    go(r, x, key, q)
                }
            }
            Value::Number(n) if matches!(key, "k" | "s" | "e" | "v" | "i" | "o" | "st" | "fr" | "ip" | "op") && r.chance(q) => {
                let x = n.as_f64().unwrap_or(0.0);
                // not the kinds written as integers
                if x.abs() < 1e5 && (x.fract() != 0.0 || key != "e") {
                    *v = json!(((x + r.range(1, 99_999_999) as f64 / 1e8) * 1e8).round() / 1e8);
                }
            }
            _ => {}
        }
    }
    go(r, d, "", q);
}
/// Another version of a document: same shape, some numbers changed.
fn edit(r: &mut Rng, d: &Value) -> Value {
    fn go(r: &mut Rng, v: &mut Value, key: &str) {
        match v {
            Value::Object(o) => {
                for (k, x) in o.iter_mut() {
                    go(r, x, k)
                }
            }
            Value::Array(a) => {
                for x in a {
                    go(r, x, key)
                }
            }
            Value::Number(n) if matches!(key, "k" | "s" | "v") && r.chance(0.5) => {
                let x = n.as_f64().unwrap_or(0.0);
                if x > 1.0 {
                    *v = json!(x - 0.5);
                }
            }
            _ => {}
        }
    }
    let mut d = d.clone();
    go(r, &mut d, "");
    d
}
fn fault_doc(r: &mut Rng, sc: &mut Scenario, d: usize) {
    if r.chance(0.6) {
        let len = serde_json::to_vec(&sc.docs[d]).unwrap().len();
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            let f = gen::byte_fault(r, len, sc.docs.len());
            sc.faults.push((d, f));
        }
    } else {
        for _ in 0..*r.pick(&[1, 1, 2, 4]) {
            let f = gen::value_fault(r, &sc.docs[d]);
            sc.faults.push((d, f));
        }
    }
}

pub fn make(prop: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(mix(seed, hash_bytes(prop.as_bytes())));
    let r = &mut r;
    let mut prof = profile(prop);
    if r.chance(match prop { "C01" | "C15" => 0.75, "C08" => 0.1, _ => 0.25 }) {
        prof = prof.tight();
    }
    let prof = prof;
    let play = Play { renders: 12, crash: 0.1, odd: 0.0, plain: false };
    let mut sc = make_from(prop, seed, r, &prof, play);
    if matches!(prop, "C02" | "C03" | "C04" | "C05" | "C14" | "C17" | "C19") && r.chance(0.3) {
        for d in &mut sc.docs {
            mask_settings(r, d);
        }
    }
    if r.chance(if prop == "C15" { 0.15 } else { 0.3 }) {
        for d in 0..sc.docs.len() {
            if sc.style.iter().all(|s| s.0 != d) && r.chance(0.8) {
                sc.style.push((d, r.u64() >> 12));
            }
        }
    }
    sc
}
fn make_from(prop: &str, seed: u64, r: &mut Rng, prof: &Prof, play: Play) -> Scenario {
    let prof = prof.clone();
    match prop {
        "C01" => {
            let mut sc = blank(prop, "bytes", seed, r);
            let base = gen::doc(r, &prof);
            let n = r.range(4, 8) as usize;
            for i in 0..n {
                let mut d = base.clone();
                if r.chance(0.4) {
                    for _ in 0..r.range(1, 2) {
                        rare(r, &mut d, 0.2);
                    }
                }
                if r.chance(0.15) {
                    twist(r, &mut d, true);
                }
                sc.docs.push(d);
                if i > 0 && r.chance(0.8) {
                    fault_doc(r, &mut sc, i);
                }
            }
            let mut ops = vec![];
            for i in 0..n {
                for rt in [Route::Slice, Route::Str, Route::Json, Route::Rewritten] {
                    if r.chance(0.6) {
                        ops.push(Op::Load { slot: i, doc: i, route: rt });
                    }
                }
            }
            sc.clients.push(ops);
            sc
        }
        "C02" => {
            let mut sc = blank(prop, "total", seed, r);
            for _ in 0..r.range(1, 2) {
                let depth = *r.pick(&[0, 1, 2]);
                let mut d = gen::doc(r, &Prof { depth, layers: (1, prof.layers.1.min(4)), kinds: [6, 2, 1, 1, 6], ..prof.clone() });
                if r.chance(0.7) {
                    let ex = r.chance(0.5);
                    twist(r, &mut d, ex);
                }
                if r.chance(0.5) {
                    for _ in 0..*r.pick(&[1, 1, 2, 4]) {
                        rare(r, &mut d, 0.6);
                    }
                }
                if r.chance(0.12) {
                    let (ev, q) = (events(&d), *r.pick(&[0.2, 1.0]));
                    beyond(r, &mut d, &ev, q);
                }
                sc.docs.push(d);
            }
            if r.chance(0.3) {
                for _ in 0..r.range(1, 4) {
                    let f = gen::value_fault(r, &sc.docs[0]);
                    sc.faults.push((0, f));
                }
            }
            if r.chance(0.4) {
                for _ in 0..*r.pick(&[1, 1, 1, 2, 4]) {
                    sc.faults.extend(gen::far(r, &sc.docs[0]).map(|f| (0, f)));
                }
            }
            clients(r, &mut sc, 0.8, &Play { odd: 0.25, ..play });
            for c in &mut sc.clients {
                for o in c {
                    if let Op::Render { tr, alpha, .. } = o {
                        if r.chance(0.15) {
                            tr[r.below(6)] = gen::odd_frames(r);
                        }
                        if r.chance(0.1) {
                            *alpha = gen::odd_frames(r);
                        }
                    }
                }
            }
            sc
        }
        "C03" => {
            let mut sc = blank(prop, "history", seed, r);
            let small = r.chance(0.2);
            for _ in 0..r.range(1, 3) {
                let mut d = if small { gen::doc(r, &Prof { layers: (1, 2), depth: 0, ..prof.clone() }) } else { gen::doc(r, &prof) };
                if r.chance(0.15) {
                    twist(r, &mut d, false);
                }
                sc.docs.push(d);
            }
            clients(r, &mut sc, 0.9, &Play { renders: 16, crash: 0.25, odd: 0.03, ..play });
            if r.chance(0.08) {
                // a sink that fails over and over, then recovers
                for c in &mut sc.clients {
                    let Some(one) = c.iter().rev().find(|o| matches!(o, Op::Render { .. })).cloned() else { continue };
                    let at = 1 + r.below(16) as u64;
                    for _ in 0..*r.pick(&[20, 70, 140]) {
                        let mut o = one.clone();
                        if let Op::Render { crash, .. } = &mut o {
                            *crash = Some(if r.chance(0.7) { at } else { 1 + r.below(24) as u64 });
                        }
                        c.push(o);
                    }
                    let mut o = one.clone();
                    if let Op::Render { crash, .. } = &mut o {
                        *crash = None;
                    }
                    c.push(o);
                }
            }
            if sc.before.is_empty() && r.chance(0.4) {
                // the file is edited and loaded again while the renderers live on
                let edited = edit(r, &sc.docs[0]);
                sc.docs.push(edited);
                let e = sc.docs.len() - 1;
                for c in &mut sc.clients {
                    let Some(slot) = c.iter().find_map(|o| match o { Op::Load { slot, doc: 0, .. } => Some(*slot), _ => None }) else { continue };
                    let ev = events(&sc.docs[0]);
                    let frame = gen::player(r, &ev, 1)[0];
                    let draw = |rend| Op::render(slot, rend, frame);
                    for cycle in 0..r.range(2, 4) {
                        let doc = if cycle % 2 == 0 { e } else { 0 };
                        let mut last = draw(0);
                        if let Op::Render { crash, .. } = &mut last {
                            // the window may close while the frame is drawn
                            *crash = if r.chance(0.4) { Some(1 + r.below(12) as u64) } else { None };
                        }
                        c.push(last);
                        if r.chance(0.7) {
                            c.push(Op::Drop { slot });
                        }
                        c.push(Op::Load { slot, doc, route: Route::Slice });
                        c.push(draw(0));
                    }
                }
            }
            sc
        }
        "C04" => {
            let mut sc = blank(prop, "solo", seed, r);
            for _ in 0..r.range(1, 2) {
                let d = gen::doc(r, &prof);
                sc.docs.push(d);
            }
            clients(r, &mut sc, 0.0, &Play { renders: 10, crash: 0.08, odd: 0.02, ..play });
            if r.chance(0.25) && sc.before.is_empty() {
                // everyone opens files again and again
                for c in &mut sc.clients {
                    let loads: Vec<Op> = c.iter().filter(|o| matches!(o, Op::Load { .. })).cloned().collect();
                    let at = r.below(c.len());
                    let n = r.range(4, 16) as usize;
                    for k in 0..n {
                        // and looks at one of them every now and then
                        let draw = c.iter().find(|o| matches!(o, Op::Render { crash: None, .. })).cloned().filter(|_| k % 3 == 2);
                        c.splice(at..at, draw.into_iter().chain([r.pick(&loads).clone()]));
                    }
                }
            }
            if r.chance(0.2) {
                for d in &mut sc.docs {
                    odd_header(r, d);
                }
            }
            if r.chance(0.2) && sc.before.is_empty() {
                // a file one of the clients cannot read
                let d = sc.docs[0].clone();
                sc.docs.push(d);
                let k = sc.docs.len() - 1;
                fault_doc(r, &mut sc, k);
                let c = r.below(sc.clients.len());
                let at = r.below(sc.clients[c].len());
                sc.clients[c].insert(at, Op::Load { slot: 15, doc: k, route: Route::Slice });
            }
            sc
        }
        "C05" => {
            let mut sc = blank(prop, "model", seed, r);
            session(r, &mut sc, &prof, 0.8, &Play { crash: 0.2, odd: 0.05, ..play });
            if r.chance(0.3) {
                twist(r, &mut sc.docs[0], false);
            }
            if r.chance(0.15) {
                let f = gen::value_fault(r, &sc.docs[0]);
                sc.faults.push((0, f));
            }
            sc
        }
        "C14" => {
            let mut sc = blank(prop, "endurance", seed, r);
            // nothing moves and everything stays: the frame makes no difference to the work
            let still = r.chance(0.3);
            for _ in 0..r.range(1, 2) {
                let mut d = gen::doc(r, &if still { Prof { anim: 0.0, ..prof.clone() } } else { prof.clone() });
                if still {
                    for (_, l) in all_lists(&mut d) {
                        for x in l {
                            x["ip"] = json!(-1e9);
                            x["op"] = json!(1e9);
                        }
                    }
                }
                sc.docs.push(d);
            }
            // one long outline
            if r.chance(0.15) {
                let pt = r.range(1000, 3000);
                'one: for (_, l) in all_lists(&mut sc.docs[0]) {
                    for x in l {
                        if let Some(it) = x.get_mut("shapes").and_then(Value::as_array_mut) {
                            it.insert(0, json!({"ty": "sr", "sy": 1, "p": {"k": [0, 0]}, "or": {"k": 50}, "os": {"k": 0}, "ir": {"k": 20}, "is": {"k": 0}, "r": {"k": 0}, "pt": {"k": pt}}));
                            break 'one;
                        }
                    }
                }
            }
            clients(r, &mut sc, 1.0, &Play { renders: 8, crash: 0.1, ..play });
            for o in &mut sc.clients[0] {
                if let Op::Render { frame, .. } = o {
                    if still {
                        *frame = r.grid(-1000.0, 1000.0, 4.0);
                    }
                }
                if let Op::Load { slot, .. } | Op::Render { slot, .. } = o {
                    *slot -= 4;
                }
            }
            sc.extra = json!({"passes": 40, "still": still});
            sc
        }
        "C15" => {
            let mut sc = blank(prop, "torn", seed, r);
            let base = gen::doc(r, &prof);
            let other = gen::doc(r, &prof);
            let (lb, lo) = (serde_json::to_vec(&base).unwrap().len(), serde_json::to_vec(&other).unwrap().len());
            sc.docs.push(other);
            for i in 1..=8 {
                let mut d = base.clone();
                let f = match r.below(6) {
                    0 | 1 => {
                        // interesting cut points: right at the end, and after any structural character
                        let b = serde_json::to_vec(&d).unwrap();
                        let cuts: Vec<usize> = b.iter().enumerate().filter(|(_, c)| b"{}[],:".contains(c)).map(|(i, _)| i).collect();
                        let at = match r.below(3) {
                            0 => *r.pick(&cuts) + r.below(2),
                            1 => lb - 1 - r.below(lb.min(9) - 1),
                            _ => r.below(lb),
                        };
                        Some(Fault::Truncate(at.min(lb - 1)))
                    }
                    2 => Some(Fault::StaleTail { doc: 0, from: if r.chance(0.4) { lo - 1 - r.below(9) } else { r.below(lo) } }),
                    3 => {
                        let sec = *r.pick(&[16usize, 64, 512]);
                        Some(Fault::StaleSector { doc: 0, at: r.below(lb) / sec * sec, len: sec })
                    }
                    4 => Some(Fault::Insert { at: if r.chance(0.5) { lb } else { r.below(lb) }, bytes: r.pick(&["}", "]", ",", " {}", "null", "0", "\u{0}", "[]", "{", "\"x\"", "\n\n{\"v\":1}"]).as_bytes().to_vec() }),
                    _ => {
                        if !drop_required(r, &mut d) {
                            d.as_object_mut().unwrap().remove("fr");
                        }
                        None
                    }
                };
                sc.docs.push(d);
                if let Some(f) = f {
                    sc.faults.push((i, f));
                }
            }
            let mut ops = vec![];
            for i in 1..=8 {
                for rt in [Route::Slice, Route::Str, Route::Json, Route::Rewritten] {
                    ops.push(Op::Load { slot: i, doc: i, route: rt });
                }
            }
            sc.clients.push(ops);
            sc
        }
        "C16" => {
            let mut sc = blank(prop, "resave", seed, r);
            let mut d = gen::doc(r, &prof);
            if r.chance(0.6) {
                d["markers"] = json!([{"cm": "m one", "tm": 3.5, "dr": 2}, {"cm": "two", "tm": 0, "dr": 0}]);
                d["meta"] = json!({"g": "sim", "a": "x", "k": "word, other", "d": "about", "tc": "#00ff00"});
            }
            if r.chance(0.5) {
                decorate(r, &mut d);
            } else if r.chance(0.4) {
                // what velato does not model may be lost, but only once
                for _ in 0..r.range(1, 3) {
                    rare(r, &mut d, 0.2);
                }
                sc.extra = json!({"rare": true});
            }
            if r.chance(0.3) {
                let q = *r.pick(&[0.1, 0.6]);
                precise(r, &mut d, q);
            }
            if r.chance(0.2) {
                odd_header(r, &mut d);
            }
            sc.docs.push(d);
            let mut ops = vec![Op::Resave { doc: 0 }, Op::Load { slot: 0, doc: 0, route: Route::Slice }, Op::Load { slot: 1, doc: 0, route: Route::Rewritten }];
            let e = events(&sc.docs[0]);
            for f in gen::player(r, &e, 8) {
                for s in 0..2 {
                    ops.push(Op::render(s, s, f));
                }
            }
            sc.clients.push(ops);
            sc
        }
        "C17" => {
            let mut sc = blank(prop, "env", seed, r);
            let d = gen::doc(r, &prof);
            let other = gen::doc(r, &prof);
            sc.docs = vec![d, other];
            if r.chance(0.3) {
                odd_header(r, &mut sc.docs[0]);
            }
            if r.chance(0.3) {
                twist(r, &mut sc.docs[0], false);
            }
            sc.docs.push(sc.docs[1].clone());
            fault_doc(r, &mut sc, 2);
            if r.chance(0.3) {
                let d = &mut sc.docs[0];
                for _ in 0..r.range(1, 3) {
                    rare(r, d, 0.3);
                }
            }
            if r.chance(0.2) {
                fault_doc(r, &mut sc, 0);
            }
            let mut ops = client(r, &sc.docs, &[(4, 0)], true, &Play { renders: 8, crash: 0.0, odd: 0.03, ..play });
            ops.retain(|o| !matches!(o, Op::Load { .. }));
            ops.insert(0, Op::Load { slot: 4, doc: 0, route: Route::Slice });
            sc.clients.push(ops);
            let mut vs = vec![];
            for rt in ["Str", "Json", "Slice"] {
                let hist: Vec<Op> = if r.chance(0.7) {
                    let mut h = client(r, &sc.docs, &[(8, 1), (9, 0)], true, &Play { renders: 4, ..play });
                    let at = r.below(h.len() + 1);
                    // a file that cannot be read, perhaps tried again and again
                    for _ in 0..*r.pick(&[1, 1, 3, 10, 40]) {
                        h.insert(at, Op::Load { slot: 10, doc: 2, route: *r.pick(&[Route::Slice, Route::Str]) });
                    }
                    h
                } else {
                    vec![]
                };
                let same_thread = r.chance(0.5);
                vs.push(json!({"env": env(r), "history": hist, "route": rt, "same_thread": same_thread}));
            }
            sc.extra = json!({"variants": vs});
            sc
        }
        "C18" => {
            let mut sc = blank(prop, "scene", seed, r);
            session(r, &mut sc, &prof, 1.0, &Play { crash: 0.05, ..play });
            sc
        }
        "C19" => {
            let mut sc = blank(prop, "transform", seed, r);
            session(r, &mut sc, &prof, 0.9, &Play { crash: 0.08, ..play });
            for c in &mut sc.clients {
                for o in c {
                    if let Op::Render { tr, .. } = o {
                        while *tr == IDENT {
                            *tr = gen::affine(r);
                        }
                    }
                }
            }
            sc
        }
        "C20" => {
            let mut sc = blank(prop, "shift", seed, r);
            let d = loop {
                let mut d = gen::doc(r, &Prof { window: 0.8, anim: 0.6, ..prof.clone() });
                if dyadic(&mut d) {
                    break d;
                }
            };
            let s = *r.pick(&[-4096.0, -1000.0, -64.0, -7.5, -1.0, -0.125, 0.5, 3.0, 16.25, 1000.0, 100000.0, 1048576.0]);
            let inner = r.chance(0.35);
            let moved = if inner { shift_inner(&d, s) } else { shift_root(&d, s) };
            sc.extra = json!({"shift": if inner { 0.0 } else { s }});
            let ev = events(&d);
            sc.docs = vec![d, moved];
            let mut ops = vec![Op::Load { slot: 0, doc: 0, route: Route::Slice }, Op::Load { slot: 1, doc: 1, route: Route::Slice }];
            for f in gen::player(r, &ev, 10) {
                let f = (f.clamp(-1e5, 2e5) * 64.0).round() / 64.0;
                ops.push(Op::render(0, 0, f));
                ops.push(Op::render(1, 1, if inner { f } else { f + s }));
            }
            sc.clients.push(ops);
            sc
        }
        "C26" => {
            let mut sc = blank(prop, "header", seed, r);
            for _ in 0..r.range(2, 4) {
                let mut d = gen::doc(r, &Prof { layers: (0, 2), depth: prof.depth.min(1), ..prof.clone() });
                odd_header(r, &mut d);
                sc.docs.push(d);
            }
            clients(r, &mut sc, 0.4, &Play { renders: 6, crash: 0.1, odd: 0.05, ..play });
            for c in &mut sc.clients {
                let n = r.range(1, 3);
                for _ in 0..n {
                    let (slot, doc) = (12 + r.below(2), r.below(sc.docs.len()));
                    let at = r.below(c.len() + 1);
                    c.insert(at, Op::Load { slot, doc, route: *r.pick(&[Route::Slice, Route::Str, Route::Json, Route::Rewritten]) });
                }
            }
            if r.chance(0.3) {
                let d = r.below(sc.docs.len());
                fault_doc(r, &mut sc, d);
            }
            sc
        }
        "C27" => {
            let mut sc = blank(prop, "rewritten", seed, r);
            let missing = if r.chance(0.3) { 0.4 } else { prof.missing };
            let mut d = gen::doc(r, &Prof { missing, ..prof.clone() });
            if r.chance(0.3) {
                twist(r, &mut d, false);
            }
            let mut e = d.clone();
            if r.chance(0.8) {
                reword(r, &mut e);
            }
            sc.docs = vec![d, e];
            if r.chance(0.4) {
                sc.style.push((0, r.u64() >> 12));
            }
            sc.style.push((1, r.u64() >> 12));
            pair_ops(r, &mut sc, &|f| f, &play);
            sc
        }
        "C28" => {
            let mut sc = blank(prop, "silent", seed, r);
            // (without circular references: how far those are followed may depend on the number of layers)
            let d = gen::doc(r, &prof);
            let other = gen::doc(r, &prof);
            let e = pad(r, &d, &other);
            sc.docs = vec![d, e];
            pair_ops(r, &mut sc, &|f| f, &play);
            sc
        }
        "C29" => {
            let mut sc = blank(prop, "speed", seed, r);
            let d = loop {
                let mut d = gen::doc(r, &Prof { window: 0.7, anim: 0.7, ..prof.clone() });
                if dyadic(&mut d) {
                    break d;
                }
            };
            let mut d = d;
            for (_, l) in all_lists(&mut d) {
                for x in l {
                    if x.get("refId").is_some() && r.chance(0.3) {
                        x["sr"] = json!(*r.pick(&[1.0078125, 0.99, 3.0, 1.25]));
                    }
                }
            }
            let m = *r.pick(&[1.0 / 16384.0, 1.0 / 256.0, 0.125, 0.25, 0.5, 2.0, 4.0, 16.0, 1024.0, 16384.0]);
            let inner = r.chance(0.35);
            let e = if inner { scale_inner(&d, m) } else { scale_root(&d, m) };
            sc.extra = json!({"speed": if inner { 1.0 } else { m }});
            sc.docs = vec![d, e];
            pair_ops(r, &mut sc, &|f| if inner { f } else { f * m }, &play);
            sc
        }
        "C34" => {
            let mut sc = blank(prop, "wrapped", seed, r);
            let d = pairs::plain(r, &prof);
            let (e, how) = pairs::wrap(r, &d);
            sc.docs = vec![d, e];
            let fs = pairs::frames(r, &sc.docs[0], 8);
            pairs::ops(r, &mut sc, &fs, &|slot, fr, t, a| {
                let (f, u, b) = pairs::unwrap_at(&how, fr, t, a);
                if slot == 0 { (fr, u, b) } else { (f, t, a) }
            });
            sc.extra = json!({"levels": how.as_array().unwrap().len()});
            noise(r, &mut sc, &play);
            sc
        }
        "C35" => {
            let mut sc = blank(prop, "rekeyed", seed, r);
            let anim = *r.pick(&[0.1, 0.5, 0.9]);
            let d = pairs::plain(r, &Prof { anim, ..prof.clone() });
            let q = *r.pick(&[0.05, 0.3, 1.0]);
            let e = pairs::rekey(r, &d, q);
            sc.docs = vec![d, e];
            let fs = pairs::frames(r, &sc.docs[1], 8);
            pairs::ops(r, &mut sc, &fs, &|_, f, t, a| (f, t, a));
            noise(r, &mut sc, &play);
            sc
        }
        "C36" => {
            let mut sc = blank(prop, "regrouped", seed, r);
            let d = pairs::plain(r, &prof);
            let q = *r.pick(&[0.1, 0.4, 1.0]);
            let e = pairs::regroup(r, &d, q);
            sc.docs = vec![d, e];
            let fs = pairs::frames(r, &sc.docs[0], 8);
            pairs::ops(r, &mut sc, &fs, &|_, f, t, a| (f, t, a));
            noise(r, &mut sc, &play);
            sc
        }
        "C37" => {
            let mut sc = blank(prop, "stacked", seed, r);
            sc.docs = pairs::stack(r, &Prof { layers: (1, 4), ..prof.clone() });
            let mut fs = vec![];
            for d in 0..sc.docs.len() - 1 {
                fs.extend(pairs::frames(r, &sc.docs[d], 4));
            }
            pairs::ops(r, &mut sc, &fs, &|_, f, t, a| (f, t, a));
            noise(r, &mut sc, &play);
            sc
        }
        "C43" => {
            let mut sc = blank(prop, "soli", seed, r);
            let d = pairs::plain(r, &Prof { layers: (2, 7), ..prof.clone() });
            let n = r.range(2, 3) as usize;
            sc.docs = pairs::soli(r, &d, n);
            let fs = pairs::frames(r, &d, 7);
            pairs::ops(r, &mut sc, &fs, &|_, f, t, a| (f, t, a));
            noise(r, &mut sc, &play);
            sc
        }
        "C38" => {
            let mut sc = blank(prop, "elsewhere", seed, r);
            let d = pairs::plain(r, &Prof { anim: 0.7, window: 0.7, ..prof.clone() });
            let ev = events(&d);
            let off = *r.pick(&[0.0, 0.0, 0.5]);
            let c = (*r.pick(&ev)).clamp(-1e5, 2e5) + off;
            let later = r.chance(0.5);
            let e = pairs::elsewhere(r, &d, c, later);
            sc.docs = vec![d, e];
            let mut fs: Vec<f64> = vec![];
            for _ in 0..20 {
                let k = r.below(2);
                fs.extend(pairs::frames(r, &sc.docs[k], 8).into_iter().filter(|f| if later { *f < c } else { *f > c }));
                if fs.len() > 8 {
                    break;
                }
            }
            fs.truncate(10);
            let near = if later { c - 1.0 / 64.0 } else { c + 1.0 / 64.0 };
            fs.push(near);
            pairs::ops(r, &mut sc, &fs, &|_, f, t, a| (f, t, a));
            sc
        }
        "C39" => {
            let mut sc = blank(prop, "enlarged", seed, r);
            // (where a path is cut is only known to within a length)
            let tiny = r.chance(0.35);
            let mut d = pairs::plain(r, &Prof { trim: 0.0, star: if tiny { 0.0 } else { 0.4 }, ..prof.clone() });
            let mut unit = 1.0;
            if tiny {
                for m in ["w", "h"] {
                    d[m] = json!(d[m].as_u64().unwrap_or(0) * 64);
                }
                unit = *r.pick(&[0.125, 1.0 / 64.0]);
                d = pairs::enlarge(&d, unit);
            } else if r.chance(0.4) {
                d = pairs::enlarge(&d, *r.pick(&[0.7312, 1.137, 3.3]));
            }
            let k = *r.pick(&[2.0, 2.0, 4.0, 16.0, 256.0]);
            let e = pairs::enlarge(&d, k);
            sc.docs = vec![d, e];
            let fs = pairs::frames(r, &sc.docs[0], 8);
            pairs::ops(r, &mut sc, &fs, &|slot, f, t, a| (f, if slot == 0 { t } else { (Affine::new(t) * Affine::scale(1.0 / k)).as_coeffs() }, a));
            sc.extra = json!({"k": k, "unit": unit});
            noise(r, &mut sc, &play);
            sc
        }
        "C40" if r.chance(0.6) => {
            let mut sc = blank(prop, "built", seed, r);
            let d = pairs::plain(r, &prof);
            let mut e = d.clone();
            e["x-seed"] = json!(r.u64() >> 12);
            sc.docs = vec![d, e];
            let fs = pairs::frames(r, &sc.docs[0], 8);
            pairs::ops(r, &mut sc, &fs, &|_, f, t, a| (f, t, a));
            sc.docs.push(pairs::plain(r, &prof));
            built::by_hand(r, &mut sc.clients[0], &[1], Some(2));
            noise(r, &mut sc, &play);
            sc
        }
        "C40" | "C41" | "C42" => {
            let mut sc = blank(prop, "model", seed, r);
            for _ in 0..2 {
                let d = pairs::plain(r, &prof);
                let (rep, raw) = match prop {
                    "C41" => (0.55, 0.1),
                    "C42" => (0.2, 0.2),
                    _ => (0.0, 0.4),
                };
                let mut d = built::spice(r, &d, rep, raw);
                d["x-seed"] = json!(r.u64() >> 12);
                if prop == "C42" {
                    d["x-twist"] = json!(r.u64() >> 12);
                }
                sc.docs.push(d);
            }
            clients(r, &mut sc, 0.75, &play);
            for ops in std::iter::once(&mut sc.before).chain(&mut sc.clients) {
                built::by_hand(r, ops, &[0, 1], None);
            }
            // a composition becomes another one while it is being played
            for ops in &mut sc.clients {
                if r.chance(0.4) {
                    let slots: Vec<usize> = ops.iter().filter_map(|o| if let Op::Render { slot, .. } = o { Some(*slot) } else { None }).collect();
                    if !slots.is_empty() {
                        let at = r.below(ops.len() + 1);
                        ops.insert(at, Op::Edit { slot: *r.pick(&slots), doc: r.below(2) });
                    }
                }
            }
            sc
        }
        _ => {
            let mut sc = blank(prop, "model", seed, r);
            session(r, &mut sc, &prof, 0.75, &play);
            // (what is cut off a large path shows)
            if r.chance(match prop {
                "C13" => 0.3,
                "C07" => 0.08,
                _ => 0.0,
            }) {
                let k = *r.pick(&[16.0, 64.0]);
                for d in &mut sc.docs {
                    *d = pairs::enlarge(d, k);
                }
            }
            sc
        }
    }
}

// ------------------------------------------------------------------------------------------ helpers for single workloads
pub fn all_lists(d: &mut Value) -> Vec<(bool, &mut Vec<Value>)> {
    let mut out = vec![];
    if let Some(o) = d.as_object_mut() {
        for (k, v) in o.iter_mut() {
            if k == "layers" {
                out.extend(v.as_array_mut().map(|a| (true, a)));
            } else if k == "assets" {
                if let Some(a) = v.as_array_mut() {
                    for x in a {
                        if let Some(l) = x.get_mut("layers").and_then(Value::as_array_mut) {
                            out.push((false, l));
                        }
                    }
                }
            }
        }
    }
    out
}
const ROOT_REQ: [&str; 6] = ["w", "h", "fr", "ip", "op", "layers"];
const LAYER_REQ: [&str; 4] = ["ty", "ks", "ip", "op"];
fn drop_required(r: &mut Rng, d: &mut Value) -> bool {
    let null = r.chance(0.3);
    let hit = |o: &mut Value, k: &str| {
        if null {
            o[k] = Value::Null;
        } else {
            o.as_object_mut().unwrap().remove(k);
        }
    };
    if r.chance(0.4) {
        let k = *r.pick(&ROOT_REQ);
        hit(d, k);
        return true;
    }
    if r.chance(0.15) {
        if let Some(a) = d.get_mut("assets").and_then(Value::as_array_mut) {
            let mut c: Vec<&mut Value> = a.iter_mut().filter(|x| x.get("layers").is_some()).collect();
            if !c.is_empty() {
                let k = r.below(c.len());
                hit(c[k], "layers");
                return true;
            }
        }
    }
    let mut ls: Vec<&mut Value> = all_lists(d).into_iter().flat_map(|(_, l)| l.iter_mut()).collect();
    if ls.is_empty() {
        return false;
    }
    let n = r.below(ls.len());
    let k = *r.pick(&LAYER_REQ);
    hit(ls[n], k);
    true
}
/// What a document lacks that it must have.
fn lacks(d: &Value) -> Option<String> {
    let bad = |o: &Value, k: &str| o.get(k).map_or(true, Value::is_null);
    if !d.is_object() {
        return None;
    }
    for k in ROOT_REQ {
        if bad(d, k) {
            return Some(format!("no {k}"));
        }
    }
    for a in d.get("assets").and_then(Value::as_array).into_iter().flatten() {
        // neither a precomposition nor a file
        if a.is_object() && ["layers", "p", "u", "w", "h", "e", "t"].iter().all(|k| bad(a, k)) {
            return Some("an asset without layers".into());
        }
    }
    let mut d = d.clone();
    for (_, l) in all_lists(&mut d) {
        for x in l.iter() {
            if x.is_object() {
                for k in LAYER_REQ {
                    if bad(x, k) {
                        return Some(format!("a layer without {k}"));
                    }
                }
            }
        }
    }
    None
}
fn map_keys(v: &mut Value, f: &mut dyn FnMut(&mut Value)) {
    match v {
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                if k == "k" {
                    if let Value::Array(a) = x {
                        if a.first().map_or(false, Value::is_object) {
                            for kf in a.iter_mut() {
                                if let Some(t) = kf.get_mut("t") {
                                    f(t);
                                }
                            }
                        }
                    }
                }
                map_keys(x, f);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| map_keys(x, f)),
        _ => {}
    }
}
fn layer_times(l: &mut Value, f: &mut dyn FnMut(&mut Value)) {
    for k in ["ip", "op"] {
        if let Some(t) = l.get_mut(k) {
            f(t);
        }
    }
    for k in ["ks", "shapes", "masksProperties"] {
        if let Some(t) = l.get_mut(k) {
            map_keys(t, f);
        }
    }
}
/// Rounds every time to a multiple of 1/8 and every stretch to a power of two, so that shifting is exact.
pub fn dyadic(d: &mut Value) -> bool {
    let mut q = |v: &mut Value| {
        if let Some(x) = v.as_f64() {
            *v = json!((x * 8.0).round() / 8.0);
        }
    };
    q(&mut d["ip"]);
    q(&mut d["op"]);
    for (_, l) in all_lists(d) {
        for x in l {
            layer_times(x, &mut q);
            if let Some(t) = x.get_mut("st") {
                q(t);
            }
            if let Some(s) = x.get("sr").and_then(Value::as_f64) {
                if ![1.0, 2.0, 4.0, 0.5, 0.25].contains(&s) {
                    x["sr"] = json!(2.0);
                }
            }
        }
    }
    model::lower(d).is_ok()
}
fn add(s: f64) -> impl FnMut(&mut Value) {
    move |v: &mut Value| {
        if let Some(x) = v.as_f64() {
            *v = json!(x + s);
        }
    }
}
/// The composition's own timeline starts `s` later.
fn shift_root(d: &Value, s: f64) -> Value {
    let mut d = d.clone();
    let mut f = add(s);
    f(&mut d["ip"]);
    f(&mut d["op"]);
    for (root, l) in all_lists(&mut d) {
        if root {
            for x in l {
                layer_times(x, &mut f);
                if x.get("st").is_none() {
                    x["st"] = json!(0.0);
                }
                f(&mut x["st"]);
            }
        }
    }
    d
}
/// Every precomposition's local timeline starts `s` later, and its instances start earlier to make up for it.
fn shift_inner(d: &Value, s: f64) -> Value {
    let mut d = d.clone();
    let has: Vec<String> = d.get("assets").and_then(Value::as_array).map(|a| a.iter().filter(|x| x.get("layers").is_some()).filter_map(|x| x["id"].as_str().map(String::from)).collect()).unwrap_or_default();
    for (root, l) in all_lists(&mut d) {
        for x in l {
            let sr = x.get("sr").and_then(Value::as_f64).unwrap_or(1.0);
            let st = x.get("st").and_then(Value::as_f64).unwrap_or(0.0);
            let mut st2 = st;
            if !root {
                layer_times(x, &mut add(s));
                st2 += s;
            }
            if x["ty"] == 0 && x["refId"].as_str().map_or(false, |r| has.iter().any(|h| h == r)) {
                st2 -= s * sr;
            }
            x["st"] = json!(st2);
        }
    }
    d
}

/// The composition plays `m` times as slowly.
fn scale_root(d: &Value, m: f64) -> Value {
    let mut d = d.clone();
    let mut f = times(m);
    for k in ["ip", "op"] {
        f(&mut d[k]);
    }
    d["fr"] = json!(d["fr"].as_f64().unwrap_or(1.0) * m);
    for (root, l) in all_lists(&mut d) {
        if root {
            for x in l {
                layer_times(x, &mut f);
                if let Some(t) = x.get_mut("st") {
                    f(t);
                }
                let sr = x.get("sr").and_then(Value::as_f64).unwrap_or(1.0);
                x["sr"] = json!(sr * m);
            }
        }
    }
    d
}
/// Every precomposition's local timeline is stretched, and its instances play it faster to make up for it.
fn scale_inner(d: &Value, m: f64) -> Value {
    let mut d = d.clone();
    for (root, l) in all_lists(&mut d) {
        for x in l {
            if root {
                let sr = x.get("sr").and_then(Value::as_f64).unwrap_or(1.0);
                x["sr"] = json!(sr / m);
            } else {
                layer_times(x, &mut times(m));
                if let Some(t) = x.get_mut("st") {
                    times(m)(t);
                }
            }
        }
    }
    d
}
fn times(m: f64) -> impl FnMut(&mut Value) {
    move |v: &mut Value| {
        if let Some(x) = v.as_f64() {
            *v = json!(x * m);
        }
    }
}
/// Both documents of a pair are loaded and drawn side by side, among other things that happen.
fn pair_ops(r: &mut Rng, sc: &mut Scenario, at: &dyn Fn(f64) -> f64, p: &Play) {
    let ev = events(&sc.docs[0]);
    let mut ops = vec![Op::Load { slot: 0, doc: 0, route: route(r) }, Op::Load { slot: 1, doc: 1, route: route(r) }];
    if r.chance(0.3) {
        ops.swap(0, 1);
    }
    let (mut tr, mut al) = (gen::affine(r), gen::alpha(r));
    let same = r.chance(0.5);
    for f in gen::player(r, &ev, 10) {
        let f = if r.chance(0.9) { (f.clamp(-1e5, 2e5) * 64.0).round() / 64.0 } else { f };
        if r.chance(0.15) {
            tr = gen::affine(r);
            al = gen::alpha(r);
        }
        if r.chance(0.1) {
            let slot = r.below(2);
            ops.push(Op::Render { slot, rend: slot, frame: if slot == 0 { f } else { at(f) }, tr, alpha: al, crash: Some(r.below(24) as u64) });
        }
        ops.push(Op::Render { slot: 0, rend: 0, frame: f, tr, alpha: al, crash: None });
        ops.push(Op::Render { slot: 1, rend: if same { 0 } else { 1 }, frame: at(f), tr, alpha: al, crash: None });
    }
    sc.clients.push(ops);
    noise(r, sc, p);
}
/// Perhaps another client plays the same documents meanwhile.
fn noise(r: &mut Rng, sc: &mut Scenario, p: &Play) {
    if r.chance(0.25) {
        let k = r.below(2);
        let noise = client(r, &sc.docs, &[(8, k), (9, 1 - k)], true, &Play { renders: 6, ..*p });
        sc.clients.push(noise);
    }
}
/// Other names, numbers and notes, the same picture.
fn reword(r: &mut Rng, d: &mut Value) {
    // precompositions and images under other names, in another order
    if let Some(a) = d.get_mut("assets").and_then(Value::as_array_mut) {
        let mut ids: Vec<String> = a.iter().filter_map(|x| x["id"].as_str().map(String::from)).collect();
        let n = ids.len();
        ids.sort();
        ids.dedup();
        if ids.len() == n && r.chance(0.6) {
            r.shuffle(a);
        }
        if r.chance(0.7) {
            let pre = *r.pick(&["c", "comp_", "A/", "\u{e9}", " ", "0"]);
            let mut order: Vec<usize> = (0..ids.len()).collect();
            r.shuffle(&mut order);
            // names that differ in little, or a plain series
            let near = ["a", "A", "a ", " a", "a1", "a01", "a10", "a1x", "a_1", "a.json", "./a", "a\u{301}", "\u{e1}", "aa", "a-2", "a2", "", "0", "00"];
            let mut close: Vec<&str> = near.to_vec();
            r.shuffle(&mut close);
            let close = if ids.len() + 4 <= close.len() && r.chance(0.5) { Some(close) } else { None };
            let new = |old: &str| match (ids.iter().position(|x| x == old), &close) {
                (Some(k), Some(c)) => c[k].to_string(),
                (None, Some(c)) => c[ids.len() + old.len() % 4].to_string(),
                (Some(k), None) => format!("{pre}{}", order[k]),
                (None, None) => format!("?{old}"),
            };
            for x in a.iter_mut() {
                if let Some(i) = x["id"].as_str().map(|i| new(i)) {
                    x["id"] = json!(i);
                }
            }
            for (_, l) in all_lists(d) {
                for x in l {
                    if let Some(i) = x.get("refId").and_then(Value::as_str).map(|i| new(i)) {
                        x["refId"] = json!(i);
                    }
                }
            }
        }
    }
    // layers under other numbers
    for (_, l) in all_lists(d) {
        if l.iter().all(|x| x.get("ind").is_none_or(Value::is_u64)) && r.chance(0.7) {
            if r.chance(0.4) {
                // any other numbers will do
                let num = |v: &Value| v.as_u64().or(v.as_f64().filter(|f| *f >= 0.0 && f.fract() == 0.0).map(|f| f as u64));
                let mut old: Vec<u64> = l.iter().flat_map(|x| ["ind", "parent", "tp"].map(|k| x.get(k).and_then(num))).flatten().collect();
                old.sort();
                old.dedup();
                let step = *r.pick(&[1u64, 10, 256, 65536, 1 << 32]);
                let mut to: Vec<u64> = (0..old.len() as u64 + 2).map(|i| i * step + if step > 1 && r.chance(0.3) { 1 } else { 0 }).collect();
                r.shuffle(&mut to);
                for x in l.iter_mut() {
                    for key in ["ind", "parent", "tp"] {
                        if let Some(k) = x.get(key).and_then(num).and_then(|n| old.iter().position(|o| *o == n)) {
                            x[key] = json!(to[k]);
                        }
                    }
                }
                continue;
            }
            let (k, c) = (*r.pick(&[1u64, 1, 2, 7]), *r.pick(&[0u64, 1, 3, 100, 1 << 33]));
            for x in l.iter_mut() {
                for key in ["ind", "parent", "tp"] {
                    if let Some(n) = x.get(key).and_then(|v| v.as_u64().or(v.as_f64().filter(|f| *f >= 0.0 && f.fract() == 0.0).map(|f| f as u64))) {
                        if n < 1 << 40 {
                            x[key] = json!(n * k + c);
                        }
                    }
                }
            }
        }
    }
    // what other programs note down
    fn notes(r: &mut Rng, v: &mut Value, q: f64) {
        match v {
            Value::Object(o) => {
                for x in o.values_mut() {
                    notes(r, x, q);
                }
                if r.chance(q) {
                    let (k, x) = match r.below(7) {
                        0 => ("ix", json!(r.below(9))),
                        1 => ("x_note", json!("n")),
                        2 => ("np", json!(r.below(9))),
                        3 => ("cix", json!(r.below(9))),
                        4 => ("x_tool", json!({"a": 1, "k": [1, 2], "ty": "gr", "layers": [], "t": 3})),
                        5 => ("zz", Value::Null),
                        _ => ("x_list", json!([[], {"s": [1]}, "a", false, 1.5])),
                    };
                    o.entry(k.to_string()).or_insert(x);
                }
            }
            Value::Array(a) => a.iter_mut().for_each(|x| notes(r, x, q)),
            _ => {}
        }
    }
    if r.chance(0.6) {
        let q = *r.pick(&[0.02, 0.15]);
        notes(r, d, q);
    }
    // numbers nobody refers to
    for (_, l) in all_lists(d) {
        let used: Vec<f64> = l.iter().flat_map(|x| ["parent", "tp"].map(|k| x.get(k).and_then(Value::as_f64))).flatten().collect();
        let free = |x: &Value| x.get("ind").is_none_or(|i| i.as_f64().is_some_and(|i| !used.contains(&i)));
        for k in 0..l.len() {
            if free(&l[k]) && r.chance(0.3) {
                if l[k].get("ind").is_some() {
                    l[k].as_object_mut().unwrap().remove("ind");
                } else {
                    l[k]["ind"] = json!(r.range(1, 5) + 4_000_000);
                }
            }
            // no name and an empty one are the same
            if l[k].get("nm").is_some_and(|n| *n == "") && r.chance(0.5) {
                l[k].as_object_mut().unwrap().remove("nm");
            } else if l[k].get("nm").is_none() && r.chance(0.5) {
                l[k]["nm"] = json!("");
            }
        }
    }
    // names nobody is told about
    fn names(r: &mut Rng, v: &mut Value, told: bool) {
        match v {
            Value::Object(o) => {
                for (k, x) in o.iter_mut() {
                    names(r, x, k == "layers");
                }
                if !told && r.chance(0.3) && o.contains_key("ty") {
                    o.insert("nm".into(), json!(*r.pick(&["", "a", "Fill 1", "layers"])));
                }
            }
            Value::Array(a) => a.iter_mut().for_each(|x| names(r, x, told)),
            _ => {}
        }
    }
    if r.chance(0.5) {
        names(r, d, false);
    }
}
/// The document with things in it that never show: hidden layers, layers outside their time, null layers, parts nobody
/// uses.
fn pad(r: &mut Rng, d: &Value, other: &Value) -> Value {
    let mut d = d.clone();
    let has: Vec<String> = d.get("assets").and_then(Value::as_array).map(|a| a.iter().filter_map(|x| x["id"].as_str().map(String::from)).collect()).unwrap_or_default();
    let mut pool: Vec<Value> = vec![];
    let mut oc = other.clone();
    for (_, l) in all_lists(&mut oc) {
        pool.extend(l.iter().cloned());
    }
    for (_, l) in all_lists(&mut d) {
        pool.extend(l.iter().cloned());
    }
    if pool.is_empty() {
        pool.push(json!({"ty": 3, "ind": 0, "ip": 0, "op": 10, "st": 0, "ks": {}}));
    }
    let mut fresh = 10_000;
    for (_, l) in all_lists(&mut d) {
        let inds: Vec<u64> = l.iter().filter_map(|x| x.get("ind").and_then(Value::as_u64)).collect();
        for _ in 0..r.below(4) {
            let mut x = r.pick(&pool).clone();
            for k in ["tt", "tp", "td", "parent", "hd", "refId"] {
                x.as_object_mut().unwrap().remove(k);
            }
            fresh += 1;
            x["ind"] = json!(fresh);
            if r.chance(0.25) {
                x.as_object_mut().unwrap().remove("ind");
            }
            if x["ty"] == 0 || x["ty"] == 2 {
                x["refId"] = match has.is_empty() || r.chance(0.2) {
                    true => json!("nowhere"),
                    false => json!(r.pick(&has)),
                };
            }
            if !inds.is_empty() && r.chance(0.4) {
                x["parent"] = json!(r.pick(&inds));
            }
            match r.below(4) {
                0 | 1 => x["hd"] = json!(true),
                2 => {
                    let t = if r.chance(0.5) { -4e6 } else { 4e6 };
                    x["ip"] = json!(t);
                    x["op"] = json!(t + r.below(2) as f64);
                }
                _ => {
                    x["ty"] = json!(3);
                    for k in ["shapes", "masksProperties", "hasMask", "refId"] {
                        x.as_object_mut().unwrap().remove(k);
                    }
                }
            }
            // not between a matte and the layer it cuts
            let at: Vec<usize> = (0..=l.len()).filter(|i| l.get(*i).is_none_or(|y| y.get("tt").is_none())).collect();
            let at = *r.pick(&at);
            l.insert(at, x);
        }
    }
    if r.chance(0.4) {
        let mut l = pool[r.below(pool.len())].clone();
        l["ind"] = json!(1);
        for k in ["tt", "tp", "td", "parent"] {
            l.as_object_mut().unwrap().remove(k);
        }
        let extra = [json!({"id": "nobody's", "layers": [l]}), json!({"id": "no image", "w": 10, "h": 10, "u": "", "p": "a.png", "e": 0}), json!({"id": "empty", "layers": []})];
        if d.get("assets").is_none() {
            d["assets"] = json!([]);
        }
        let a = d["assets"].as_array_mut().unwrap();
        for x in extra {
            if r.chance(0.5) {
                let at = r.below(a.len() + 1);
                a.insert(at, x);
            }
        }
        if r.chance(0.15) {
            for i in 0..*r.pick(&[12, 40, 100]) {
                let at = if r.chance(0.7) { 0 } else { r.below(a.len() + 1) };
                a.insert(at, json!({"id": format!("spare {i}"), "layers": []}));
            }
        }
    }
    d
}

// ------------------------------------------------------------------------------------------ oracles
fn describe(o: &crate::exec::Obs) -> String {
    let ph = ["before", "client", "after"][o.phase as usize];
    let what = match &o.what {
        Op::Render { slot, rend, frame, tr, alpha, .. } => format!("render(slot {slot}, renderer {rend}, frame {frame:?}, transform {tr:?}, alpha {alpha})"),
        x => format!("{x:?}"),
    };
    format!("{ph} {} op {}: {what}", o.client, o.op)
}
fn dig(o: &crate::exec::Obs) -> Dig {
    let (h, c, note) = match &o.got {
        Got::Loaded(c) => {
            let d = header(c).iter().fold(1, |h, x| mix(h, x.to_bits()));
            (d, d, format!("loaded {}", head_text(c)))
        }
        Got::Rejected(e) => (mix(2, hash_bytes(e.as_bytes())), 2, format!("rejected: {e}")),
        Got::NotApplicable => (3, 3, "n/a".into()),
        Got::Panicked(m) => (mix(4, hash_bytes(m.as_bytes())), 4, format!("panicked: {m}")),
        Got::Render { ops, aborted, overrun, .. } => {
            let d = mix(compare::digest(ops), *aborted as u64 * 2 + *overrun as u64);
            (d, d, format!("{} calls{}", ops.len(), if *aborted { " (interrupted)" } else { "" }))
        }
        Got::Resaved { first, .. } => {
            let d = match first {
                Ok(t) => hash_bytes(t.as_bytes()),
                Err(_) => 6,
            };
            (d, d, "resaved".into())
        }
        Got::Nothing => (7, 7, "nothing".into()),
    };
    Dig { phase: o.phase, client: o.client, op: o.op, h, c, note }
}
/// What a composition says about itself.
fn header(c: &crate::exec::CompRef) -> [f64; 5] {
    [c.start, c.end, c.frame_rate, c.width as f64, c.height as f64]
}
fn head_text(c: &crate::exec::CompRef) -> String {
    format!("frames {:?}..{:?} at {:?}/s, {}x{}", c.start, c.end, c.frame_rate, c.width, c.height)
}
fn is_render(o: &crate::exec::Obs) -> Option<(usize, f64, [f64; 6], f64)> {
    match &o.what {
        Op::Render { slot, frame, tr, alpha, .. } => Some((*slot, *frame, *tr, *alpha)),
        _ => None,
    }
}
/// Judges one finished run inside its process.
pub fn judge(sc: &Scenario, ran: &Ran) -> Outcome {
    let mut out = Outcome { switches: ran.switches, ilv: ran.ilv, blocked: ran.blocked, steps: ran.steps, log: ran.log.clone(), ..Default::default() };
    for (_, f) in &sc.faults {
        let s = format!("{f:?}");
        let k = s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
        out.n(&format!("fault.{k}"), 1);
    }
    if sc.env.clock_jump > 0 {
        out.n("fault.ClockJump", 1);
    }
    out.n("fault.Preemption", ran.switches);
    out.n("fault.BlockedThread", ran.blocked);
    let mut last: BTreeMap<(u8, usize), f64> = BTreeMap::new();
    for o in &ran.obs {
        out.digs.push(dig(o));
        match &o.got {
            Got::Panicked(m) => {
                let m = m.clone();
                out.v("panic", format!("{}: panicked: {m}", describe(o)));
            }
            Got::Render { ops, aborted, overrun, comp, .. } => {
                out.n("renders", 1);
                out.n("calls", ops.len() as u64);
                out.streams.push(compare::digest(ops));
                if *aborted {
                    out.n("fault.SinkCrash", 1);
                }
                if *overrun {
                    out.v("runaway", format!("{}: more than {} canvas calls", describe(o), crate::exec::CALL_BUDGET));
                }
                if let Some((_, f, _, _)) = is_render(o) {
                    if let Some(p) = last.insert((o.phase, o.client), f) {
                        let d = (f - p).abs() / comp.frame_rate;
                        if d.is_finite() {
                            out.secs += d.abs().min(1e4);
                        }
                    }
                }
            }
            Got::Loaded(_) => out.n("loaded", 1),
            Got::Rejected(_) => out.n("rejected", 1),
            _ => {}
        }
    }
    match sc.kind.as_str() {
        "model" => judge_model(sc, ran, &mut out),
        "history" => judge_history(ran, &mut out),
        "torn" => judge_torn(sc, ran, &mut out),
        "resave" => judge_resave(sc, ran, &mut out),
        "transform" => judge_transform(ran, &mut out),
        "shift" => judge_shift(sc, ran, &mut out),
        "header" => judge_header(ran, &mut out),
        "rewritten" => judge_pair(sc, ran, &mut out, "the same document written differently is another picture"),
        "silent" => judge_pair(sc, ran, &mut out, "what does not show changes the picture"),
        "speed" => judge_pair(sc, ran, &mut out, "playing at another speed changes the picture"),
        "wrapped" => judge_pair(sc, ran, &mut out, "a precomposition looks different from the layers it holds"),
        "rekeyed" => judge_pair(sc, ran, &mut out, "keyframes that change no value change the picture"),
        "regrouped" => judge_pair(sc, ran, &mut out, "groups and parents that change nothing change the picture"),
        "elsewhere" => judge_pair(sc, ran, &mut out, "what happens at other times changes the picture"),
        "built" => judge_pair(sc, ran, &mut out, "a composition put together by hand looks different from the file it mirrors"),
        "enlarged" => judge_pair(sc, ran, &mut out, "the enlarged document is another picture"),
        "stacked" | "soli" => judge_stack(sc, ran, &mut out),
        "endurance" => judge_endurance(ran, &mut out),
        #[cfg(feature = "vello")]
        "scene" => judge_scene(ran, &mut out),
        _ => {}
    }
    out
}
fn judge_model(sc: &Scenario, ran: &Ran, out: &mut Outcome) {
    let want = aspects(&sc.prop);
    let docs: Vec<Option<model::Doc>> = (0..sc.docs.len())
        .map(|i| {
            if sc.faults.iter().any(|f| f.0 == i) {
                return None;
            }
            match model::lower(&sc.docs[i]) {
                Ok(d) => Some(d),
                Err(_) => None,
            }
        })
        .collect();
    out.n("docs", docs.len() as u64);
    out.n("docs.outside_model", docs.iter().filter(|d| d.is_none()).count() as u64);
    for o in &ran.obs {
        match (&o.what, &o.got) {
            (Op::Load { doc, .. }, Got::Rejected(e)) if docs[*doc].is_some() => {
                out.v("load", format!("{}: valid document rejected: {e}", describe(o)));
            }
            (Op::Render { frame, tr, alpha, .. }, Got::Render { doc, ops, aborted, underflow, comp, overrun }) => {
                let t = Affine::new(*tr);
                if *underflow {
                    if want.contains(&Aspect::Nesting) {
                        out.v("underflow", format!("{}: more closed than opened", describe(o)));
                    }
                }
                if sc.prop == "C42" {
                    out.n("judged", 1);
                }
                if *aborted || *overrun {
                    continue;
                }
                let mut ds: Vec<Diff> = vec![];
                if want.contains(&Aspect::Canvas) {
                    ds.extend(compare::nesting(ops, comp.width as f64, comp.height as f64, t));
                }
                if let (Some(d), true) = (&docs[*doc], sc.prop != "C42") {
                    if !d.cyclic {
                        let f = model::render(d, *frame, t, *alpha);
                        if f.unspec {
                            out.n(&format!("unjudged.{}", if f.why.is_empty() { "frame" } else { f.why }), 1);
                        } else {
                            out.n("judged", 1);
                            ds.extend(compare::compare(&f.ops, ops));
                        }
                    }
                }
                ds.retain(|d| want.contains(&d.aspect));
                for d in ds {
                    out.v(&format!("{:?}", d.aspect), format!("{}: [{}] {}", describe(o), d.at, cut(&d.what, 600)));
                }
            }
            _ => {}
        }
    }
}
pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    }
}
fn first_diff(a: &[subject::Op], b: &[subject::Op]) -> String {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i).map(compare::brief), b.get(i).map(compare::brief));
        if x != y {
            return format!("call {i} is {}, expected {}", cut(&x.unwrap_or("missing".into()), 300), cut(&y.unwrap_or("nothing".into()), 300));
        }
    }
    "streams differ in the last digits".into()
}
use crate::exec::Job;
fn renders(ran: &Ran) -> Vec<(usize, Job, std::sync::Arc<Vec<subject::Op>>)> {
    let mut v = vec![];
    for (i, o) in ran.obs.iter().enumerate() {
        if let (Some((_, f, t, a)), Got::Render { comp, ops, aborted: false, overrun: false, .. }) = (is_render(o), &o.got) {
            v.push((i, (*comp, f, t, a), ops.clone()));
        }
    }
    v
}
fn judge_history(ran: &Ran, out: &mut Outcome) {
    let rs = renders(ran);
    let fresh = crate::exec::render_fresh(ran.bytes.clone(), rs.iter().map(|r| r.1.clone()).collect());
    for ((i, _, ops), f) in rs.iter().zip(&fresh) {
        out.n("judged", 1);
        let o = &ran.obs[*i];
        match f {
            Ok(f) => {
                if compare::digest(f) != compare::digest(ops) {
                    out.v("differs", format!("{}: a fresh renderer emits something else: {}", describe(o), first_diff(ops, f)));
                }
            }
            Err(m) => out.v("panic", format!("{}: fresh renderer panicked: {m}", describe(o))),
        }
    }
}
fn judge_torn(sc: &Scenario, ran: &Ran, out: &mut Outcome) {
    for o in &ran.obs {
        let Op::Load { doc, route, .. } = &o.what else { continue };
        let b = &ran.bytes[*doc];
        let why = if serde_json::from_slice::<serde::de::IgnoredAny>(b).is_err() {
            Some(format!("bytes that are not a JSON document ({} bytes, end {:?})", b.len(), String::from_utf8_lossy(&b[b.len().saturating_sub(24)..])))
        } else {
            serde_json::from_slice::<Value>(b).ok().and_then(|v| lacks(&v))
        };
        let Some(why) = why else {
            out.n("torn.still_valid", 1);
            // an undamaged document that follows the format must load
            continue;
        };
        out.n("judged", 1);
        if let Got::Loaded(_) = o.got {
            let fs: Vec<_> = sc.faults.iter().filter(|f| f.0 == *doc).map(|f| &f.1).collect();
            out.v("accepted", format!("{}: loaded from {why} via {route:?}; damage {fs:?}", describe(o)));
        }
    }
}
fn num_eq(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}
fn same_json(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => (!num_eq(x.as_f64()?, y.as_f64()?)).then(|| format!("{at}: {x} became {y}")),
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{at}: {} elements became {}", x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| same_json(p, q, &format!("{at}/{i}")))
        }
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{at}/{k} lost")),
                    Some(w) => {
                        if let Some(d) = same_json(v, w, &format!("{at}/{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            y.keys().find(|k| !x.contains_key(*k)).map(|k| format!("{at}/{k} appeared"))
        }
        _ => (a != b).then(|| format!("{at}: {a} became {b}")),
    }
}
/// Every member of the original that the format defines must be in the rewritten text.
fn survives(a: &Value, b: &Value, at: &str) -> Option<String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => (!num_eq(x.as_f64()?, y.as_f64()?)).then(|| format!("{at}: {x} became {y}")),
        // flags may be written as numbers or booleans
        (Value::Bool(x), Value::Number(n)) | (Value::Number(n), Value::Bool(x)) => (n.as_f64() != Some(*x as u8 as f64)).then(|| format!("{at}: {a} became {b}")),
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{at}: {} elements became {}", x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| survives(p, q, &format!("{at}/{i}")))
        }
        (Value::Array(x), y) if x.len() == 1 && y.is_number() => survives(&x[0], y, at),
        (x, Value::Array(y)) if y.len() == 1 && x.is_number() => survives(x, &y[0], at),
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None if undefined_member(k, a) => {}
                    None => return Some(format!("{at}/{k} lost (was {v})")),
                    Some(w) => {
                        if let Some(d) = survives(v, w, &format!("{at}/{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            None
        }
        _ => (a != b).then(|| format!("{at}: {a} became {b}")),
    }
}
/// Members this generator writes that carry no meaning where they stand or that velato's schema does not model.
fn undefined_member(_k: &str, _o: &Value) -> bool {
    false
}
fn judge_resave(sc: &Scenario, ran: &Ran, out: &mut Outcome) {
    let faulty = !sc.faults.is_empty() || sc.extra["rare"] == true;
    for o in &ran.obs {
        match &o.got {
            Got::Resaved { first: Err(e), .. } if !faulty => {
                out.v("load", format!("{}: valid document rejected: {e}", describe(o)))
            }
            Got::Resaved { first: Ok(a), second } => {
                out.n("judged", 1);
                match second {
                    Err(e) => out.v("reread", format!("{}: cannot read back what was written: {e}", describe(o))),
                    Ok(b) => {
                        let (Ok(x), Ok(y)) = (serde_json::from_str::<Value>(a), serde_json::from_str::<Value>(b)) else {
                            out.v("reread", "written text is not JSON".into());
                            continue;
                        };
                        if let Some(d) = same_json(&x, &y, "") {
                            out.v("unstable", format!("{}: second save differs: {d}", describe(o)));
                        }
                        if !faulty {
                            if let Some(d) = survives(&sc.docs[0], &x, "") {
                                out.v("lost", format!("{}: {d}", describe(o)));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    agree(ran, out, "the rewritten document renders differently", &|_| 0.0, &|h| h, true);
}
/// Renders of slots 0 and 1 come in pairs and must agree.
fn agree(ran: &Ran, out: &mut Outcome, what: &str, tol: &dyn Fn(&subject::Op) -> f64, head: &dyn Fn([f64; 5]) -> [f64; 5], numbers: bool) {
    agree_as(ran, out, what, tol, head, numbers, &|_, v| Some(v.to_vec()))
}
/// Leaves out what only the number of layers tells.
fn strip(v: &[subject::Op]) -> Vec<subject::Op> {
    let mut v = v.to_vec();
    for o in &mut v {
        if let subject::Op::Begin { index, .. } = o {
            *index = 0;
        }
    }
    // layers that draw nothing may be announced and clipped or not
    let mut w: Vec<subject::Op> = vec![];
    for o in v {
        if matches!((w.last(), &o), (Some(subject::Op::Begin { .. }), subject::Op::End) | (Some(subject::Op::PushClip { .. }), subject::Op::Pop)) {
            w.pop();
        } else {
            w.push(o);
        }
    }
    w
}
#[allow(clippy::type_complexity)]
fn agree_as(ran: &Ran, out: &mut Outcome, what: &str, tol: &dyn Fn(&subject::Op) -> f64, head: &dyn Fn([f64; 5]) -> [f64; 5], numbers: bool, norm: &dyn Fn(usize, &[subject::Op]) -> Option<Vec<subject::Op>>) {
    let rs: Vec<_> = ran.obs.iter().filter(|o| o.phase == 1 && o.client == 0 && is_render(o).is_some()).collect();
    let mut i = 0;
    while i + 1 < rs.len() {
        let (p, q) = (rs[i], rs[i + 1]);
        let crash = |o: &crate::exec::Obs| matches!(o.what, Op::Render { crash: Some(_), .. });
        if is_render(p).unwrap().0 == 0 && is_render(q).unwrap().0 == 1 && !crash(p) && !crash(q) {
            i += 2;
            match (&p.got, &q.got) {
                (Got::Render { ops: a, comp: ca, .. }, Got::Render { ops: b, comp: cb, .. }) => {
                    out.n("judged", 1);
                    let want = head(header(ca));
                    if want.iter().zip(header(cb)).any(|(x, y)| !num_eq(*x, y)) {
                        out.v("header", format!("{}: {what}: {} became {}", describe(q), head_text(ca), head_text(cb)));
                    }
                    let (Some(a), Some(b)) = (norm(0, a), norm(1, b)) else {
                        out.v("Nesting", format!("{}: {what}: the groups around it are missing", describe(q)));
                        continue;
                    };
                    let (sa, sb) = if numbers { (a, b) } else { (strip(&a), strip(&b)) };
                    if compare::digest(&sa) != compare::digest(&sb) {
                        let e: Vec<model::E> = sa.iter().map(|o| model::E { op: o.clone(), tol: tol(o) }).collect();
                        if let Some(d) = compare::compare(&e, &sb).into_iter().find(|d| d.aspect != Aspect::NaN) {
                            out.v(&format!("{:?}", d.aspect), format!("{}: {what}: [{}] {}", describe(q), d.at, cut(&d.what, 600)));
                        }
                    }
                }
                (Got::Nothing, Got::Nothing) => {}
                (Got::Panicked(_), _) | (_, Got::Panicked(_)) => {}
                _ => out.v("missing", format!("{}: only one of two equal documents loads", describe(q))),
            }
        } else {
            i += 1;
        }
    }
}
fn judge_pair(sc: &Scenario, ran: &Ran, out: &mut Outcome, what: &str) {
    for o in &ran.obs {
        if let (Op::Load { doc, .. }, Got::Rejected(e)) = (&o.what, &o.got) {
            if *doc < 2 && !sc.faults.iter().any(|f| f.0 == *doc) {
                out.v("load", format!("{}: valid document rejected: {e}", describe(o)));
            }
        }
    }
    let m = sc.extra["speed"].as_f64().unwrap_or(1.0);
    let k = sc.extra["k"].as_f64().unwrap_or(1.0);
    let trims = sc.kind == "rekeyed" && serde_json::to_string(&sc.docs[0]).unwrap().contains("\"tm\"");
    // round shapes are drawn to within a length
    let round = sc.kind == "enlarged" && ["el", "rc"].iter().any(|t| serde_json::to_string(&sc.docs[0]).unwrap().contains(&format!("\"ty\":\"{t}\"")));
    let tol = |o: &subject::Op| match o {
        _ if trims => 1.5,
        subject::Op::Draw { path, .. } if round && path.iter().any(|e| matches!(e, kurbo::PathEl::CurveTo(..))) => 0.3 * sc.extra["unit"].as_f64().unwrap_or(1.0),
        _ => 0.0,
    };
    let levels = sc.extra["levels"].as_u64().unwrap_or(0) as usize;
    agree_as(ran, out, what, &tol, &|h| [h[0] * m, h[1] * m, h[2] * m, h[3] * k, h[4] * k], !matches!(sc.kind.as_str(), "silent" | "wrapped" | "regrouped"), &|i, v| match sc.kind.as_str() {
        "wrapped" => pairs::unwrapped(v, if i == 0 { 0 } else { levels }),
        "enlarged" if i == 1 => Some(pairs::shrunk(v, k)),
        _ => Some(v.to_vec()),
    });
}
/// The last document shows what the others show, each on top of the next.
fn judge_stack(sc: &Scenario, ran: &Ran, out: &mut Outcome) {
    let n = sc.docs.len();
    let rs: Vec<_> = ran
        .obs
        .iter()
        .filter(|o| o.phase == 1 && o.client == 0 && is_render(o).is_some() && !matches!(o.what, Op::Render { crash: Some(_), .. }))
        .collect();
    for c in rs.chunks(n) {
        if c.iter().enumerate().any(|(i, o)| is_render(o).unwrap().0 != i) {
            continue;
        }
        let all: Option<Vec<&Vec<subject::Op>>> = c.iter().map(|o| if let Got::Render { ops, .. } = &o.got { Some(&**ops) } else { None }).collect();
        let Some(all) = all else { continue };
        out.n("judged", 1);
        let whole = all[n - 1];
        let (want, have, what) = if sc.kind == "soli" {
            match pairs::together(&all[..n - 1]) {
                Ok(want) => (want, whole.clone(), "layers draw differently beside others than alone"),
                Err(e) => {
                    out.v("Structure", format!("{}: {e}", describe(c[n - 1])));
                    continue;
                }
            }
        } else {
            let mut want = whole[..1.min(whole.len())].to_vec();
            for p in all[..n - 1].iter().rev() {
                want.extend(pairs::unwrapped(p, 0).unwrap_or_default());
            }
            want.push(subject::Op::Pop);
            (strip(&want), strip(whole), "documents put on top of each other look different")
        };
        if compare::digest(&want) != compare::digest(&have) {
            let e: Vec<model::E> = want.iter().map(|o| model::E { op: o.clone(), tol: 0.0 }).collect();
            if let Some(d) = compare::compare(&e, &have).into_iter().find(|d| d.aspect != Aspect::NaN) {
                out.v(&format!("{:?}", d.aspect), format!("{}: {what}: [{}] {}", describe(c[n - 1]), d.at, cut(&d.what, 600)));
            }
        }
    }
}
/// A composition tells the frame range, rate and size of the document it was loaded from.
fn judge_header(ran: &Ran, out: &mut Outcome) {
    for o in &ran.obs {
        let (doc, c) = match (&o.what, &o.got) {
            (Op::Load { doc, .. }, Got::Loaded(c)) => (*doc, *c),
            (_, Got::Render { doc, comp, .. }) => (*doc, *comp),
            _ => continue,
        };
        let Ok(v) = serde_json::from_slice::<Value>(&ran.bytes[doc]) else { continue };
        out.n("judged", 1);
        for (k, have) in ["ip", "op", "fr", "w", "h"].iter().zip(header(&c)) {
            let Some(want) = v[*k].as_f64() else { continue };
            if !num_eq(want, have) {
                out.v("header", format!("{}: the document has {k} {want:?}, the composition {have:?} ({})", describe(o), head_text(&c)));
            }
        }
    }
}
fn judge_shift(sc: &Scenario, ran: &Ran, out: &mut Outcome) {
    let m: Vec<_> = sc.docs.iter().map(model::lower).collect();
    if m.iter().any(|m| m.is_err()) || !sc.faults.is_empty() {
        return;
    }
    let trims = serde_json::to_string(&sc.docs[0]).unwrap().contains("\"tm\"");
    let s = sc.extra["shift"].as_f64().unwrap_or(0.0);
    agree(ran, out, "shifting the timeline changes the picture", &|_| if trims { 1.5 } else { 0.0 }, &|h| [h[0] + s, h[1] + s, h[2], h[3], h[4]], true);
}
fn judge_transform(ran: &Ran, out: &mut Outcome) {
    let rs = renders(ran);
    let fresh = crate::exec::render_fresh(ran.bytes.clone(), rs.iter().map(|r| (r.1 .0.clone(), r.1 .1, IDENT, r.1 .3)).collect());
    for ((i, job, ops), f) in rs.iter().zip(&fresh) {
        out.n("judged", 1);
        let o = &ran.obs[*i];
        let Ok(base) = f else {
            out.v("panic", format!("{}: panicked under the identity", describe(o)));
            continue;
        };
        let t = Affine::new(job.2);
        let e: Vec<model::E> = base
            .iter()
            .map(|o| {
                let mut o = o.clone();
                match &mut o {
                    subject::Op::PushLayer { t: x, .. } | subject::Op::PushClip { t: x, .. } | subject::Op::Draw { t: x, .. } => *x = t * *x,
                    _ => {}
                }
                model::E { op: o, tol: 0.0 }
            })
            .collect();
        if let Some(d) = compare::compare(&e, ops).into_iter().find(|d| d.aspect != Aspect::NaN) {
            out.v(&format!("{:?}", d.aspect), format!("{}: not the transformed picture: [{}] {}", describe(o), d.at, cut(&d.what, 600)));
        }
    }
}
fn judge_endurance(ran: &Ran, out: &mut Outcome) {
    let Some(e) = &ran.endurance else { return };
    if e.live.len() < 12 {
        return;
    }
    out.n("judged", 1);
    out.n("passes", e.live.len() as u64);
    let last = e.live.len() - 1;
    if e.live[last] > e.live[7] {
        out.v("leak", format!("retained memory grows: {} bytes after pass 8, {} after pass {}", e.live[7] - e.before, e.live[last] - e.before, last + 1));
    }
    let (w7, wl) = (*e.work[4..8].iter().max().unwrap(), *e.work[last - 3..].iter().max().unwrap());
    if wl > w7 + w7 / 50 + 64 {
        out.v("work", format!("a pass costs {w7} steps early on and {wl} steps later"));
    }
    let pk = |i: usize| e.peak[i] - e.before;
    if pk(last) > pk(7) + 64 {
        out.v("peak", format!("transient memory grows from {} to {}", pk(7), pk(last)));
    }
    if e.after != e.before {
        out.v("unreleased", format!("{} bytes still held after everything was dropped", e.after - e.before));
    }
}
#[cfg(feature = "vello")]
fn judge_scene(ran: &Ran, out: &mut Outcome) {
    let rs = renders(ran);
    crate::scene::judge(ran.bytes.clone(), &rs.into_iter().map(|(i, j, o)| (describe(&ran.obs[i]), j, o)).collect::<Vec<_>>(), out);
}

// ------------------------------------------------------------------------------------------ several executions of one scenario
pub fn variants(sc: &Scenario) -> Vec<Scenario> {
    let mut v = vec![sc.clone()];
    match sc.kind.as_str() {
        "solo" => {
            for c in &sc.clients {
                let mut s = sc.clone();
                s.clients = vec![c.clone()];
                s.schedule = None;
                v.push(s);
            }
        }
        "history" => {
            // some renders again, each in a process of its own that did nothing else
            let mut r = Rng::new(mix(sc.seed, 0x4157));
            let mut cand: Vec<(usize, usize)> = vec![];
            for (c, ops) in sc.clients.iter().enumerate() {
                cand.extend(ops.iter().enumerate().filter(|(_, o)| matches!(o, Op::Render { crash: None, .. })).map(|(k, _)| (c, k)));
            }
            r.shuffle(&mut cand);
            for (c, k) in cand.into_iter().take(2) {
                let o = &sc.clients[c][k];
                let Op::Render { slot, .. } = o else { continue };
                // the load this render draws: slots belong to one client or are filled before all of them
                let loads = |l: &&Op| matches!(l, Op::Load { slot: x, .. } if x == slot);
                let Some(ld) = sc.clients[c][..k].iter().rev().find(loads).or_else(|| sc.before.iter().rev().find(loads)).cloned() else { continue };
                let mut s = sc.clone();
                s.schedule = None;
                s.before.clear();
                s.clients = vec![vec![ld, o.clone()]];
                s.kind = "single".into();
                s.extra = json!({"of": [c, k]});
                v.push(s);
            }
        }
        "env" => {
            if let Some(vs) = sc.extra.get("variants").and_then(Value::as_array) {
                for x in vs {
                    let mut s = sc.clone();
                    s.env = serde_json::from_value(x["env"].clone()).unwrap();
                    let hist: Vec<Op> = serde_json::from_value(x["history"].clone()).unwrap();
                    let rt: Route = serde_json::from_value(x["route"].clone()).unwrap();
                    let mut ops = sc.clients[0].clone();
                    for o in &mut ops {
                        if let Op::Load { route, .. } = o {
                            *route = rt;
                        }
                    }
                    if x["same_thread"] == true {
                        let n = hist.len();
                        s.clients = vec![hist.into_iter().chain(ops).collect()];
                        s.extra = json!({"skip": n});
                    } else {
                        s.before = hist;
                        s.clients = vec![ops];
                    }
                    v.push(s);
                }
            }
        }
        _ => {}
    }
    v
}
/// Checks across the executions of one scenario.
pub fn combine(sc: &Scenario, vs: &[Scenario], outs: &[Outcome]) -> Vec<Viol> {
    let mut bad = vec![];
    let mut add = |class: &str, detail: String| bad.push(Viol { class: class.into(), detail });
    match sc.kind.as_str() {
        "solo" => {
            for (c, o) in outs[1..].iter().enumerate() {
                let a: Vec<&Dig> = outs[0].digs.iter().filter(|d| d.phase == 1 && d.client == c).collect();
                let b: Vec<&Dig> = o.digs.iter().filter(|d| d.phase == 1).collect();
                for (x, y) in a.iter().zip(&b) {
                    if x.h != y.h {
                        add("interference", format!("client {c} op {} ({:?}): {} when run alongside others, {} when run alone", x.op, sc.clients[c][x.op], cut(&x.note, 300), cut(&y.note, 300)));
                        break;
                    }
                }
                if a.len() != b.len() {
                    add("interference", format!("client {c} completed {} operations of {}", a.len(), b.len()));
                }
            }
        }
        "history" => {
            for (s, o) in vs[1..].iter().zip(&outs[1..]) {
                let want = s.clients[0].last().unwrap();
                let (c, k) = (s.extra["of"][0].as_u64().unwrap() as usize, s.extra["of"][1].as_u64().unwrap() as usize);
                let Some(y) = o.digs.last() else { continue };
                if let Some(d) = outs[0].digs.iter().find(|d| d.phase == 1 && d.client == c && d.op == k) {
                    if d.h != y.h {
                        add("differs", format!("client {} op {} ({want:?}): {} after this history, {} in a process of its own", d.client, d.op, d.note, y.note));
                    }
                }
            }
        }
        "env" => {
            let a: Vec<&Dig> = outs[0].digs.iter().filter(|d| d.phase == 1).collect();
            for (k, (s, o)) in vs[1..].iter().zip(&outs[1..]).enumerate() {
                let skip = s.extra.get("skip").and_then(Value::as_u64).unwrap_or(0) as usize;
                let b: Vec<&Dig> = o.digs.iter().filter(|d| d.phase == 1 && d.op >= skip).collect();
                // a route that cannot carry these bytes says nothing
                if b.first().map_or(false, |d| d.c == 3) {
                    continue;
                }
                let mut strange = false;
                for (x, y) in a.iter().zip(&b) {
                    if x.c != y.c && !strange {
                        strange = true;
                        add("environment", format!("op {} ({:?}): {} at first, {} in environment {k} ({:?}, {:?})", x.op, sc.clients[0].get(x.op), cut(&x.note, 300), cut(&y.note, 300), s.env, s.clients[0].get(skip)));
                    }
                }
            }
        }
        _ => {}
    }
    bad
}

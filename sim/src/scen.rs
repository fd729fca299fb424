//! A scenario is everything one simulated run depends on, as plain data (and as the replay file).
use serde::{Deserialize, Serialize};
use crate::rng::Rng;
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub prop: String,
    /// what the oracle is asked to judge (a property may use several workloads)
    pub kind: String,
    pub seed: u64,
    pub docs: Vec<Value>,
    /// storage faults applied to the bytes of a document, by document index
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<(usize, Fault)>,
    /// how a document is written down (member order, white space, spellings), by document index; plain if not listed
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub style: Vec<(usize, u64)>,
    /// executed first, on a thread of its own
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub before: Vec<Op>,
    pub clients: Vec<Vec<Op>>,
    /// executed one after another on a fresh thread once all clients are done
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub after: Vec<Op>,
    #[serde(default)]
    pub env: EnvSpec,
    #[serde(default)]
    pub sched_seed: u64,
    #[serde(default)]
    pub mean: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub schedule: Option<Vec<(u64, u32)>>,
    /// free parameters of the workload
    #[serde(default, skip_serializing_if = "Value::is_null")]
    pub extra: Value,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct EnvSpec {
    pub hash_seed: u64,
    #[serde(default)]
    pub clock_base: u64,
    #[serde(default)]
    pub clock_rate: u64,
    #[serde(default)]
    pub clock_jump: u64,
    /// new objects take the addresses of freed ones
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub recycle: bool,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Route {
    Slice,
    Str,
    Json,
    /// schema parse, write back out, load the rewritten text
    Rewritten,
    /// lowered by the simulator and put together through the public model
    Built,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Load { slot: usize, doc: usize, route: Route },
    Render {
        slot: usize,
        rend: usize,
        #[serde(with = "fl")]
        frame: f64,
        #[serde(with = "fl6")]
        tr: [f64; 6],
        #[serde(with = "fl")]
        alpha: f64,
        /// the sink panics at this call
        #[serde(default, skip_serializing_if = "Option::is_none")]
        crash: Option<u64>,
    },
    /// change the composition in a slot, in place, into the one built from a document
    Edit { slot: usize, doc: usize },
    /// replace a renderer by a new one
    NewRend { rend: usize },
    /// drop the composition in a slot
    Drop { slot: usize },
    /// copy a composition to another slot
    CloneSlot { from: usize, to: usize },
    /// parse a document, write it, read that back and write it again
    Resave { doc: usize },
    Yield,
}

/// Damage done to a stored document between the write and the read.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// the write stopped here
    Truncate(usize),
    /// bit rot
    Flip { at: usize, mask: u8 },
    Overwrite { at: usize, bytes: Vec<u8> },
    /// a sector that never reached the disk reads as zeros
    ZeroSector { at: usize, len: usize },
    /// a sector was lost and later data moved up
    LostSector { at: usize, len: usize },
    DupSector { at: usize, len: usize },
    SwapSectors { a: usize, b: usize, len: usize },
    /// leftover bytes of an older, longer version
    StaleTail { doc: usize, from: usize },
    /// a sector of an older version was not replaced
    StaleSector { doc: usize, at: usize, len: usize },
    Insert { at: usize, bytes: Vec<u8> },
    /// replace one JSON value (addressed by pre-order index) by another: corruption that keeps the syntax
    Graft { index: usize, value: Value },
    /// remove one object member or array element (pre-order index)
    Remove { index: usize },
    /// replace one JSON value by a copy of another one of the same document
    Copy { index: usize, from: usize },
}

/// JSON has no infinities: odd floats are written as strings.
pub mod fl {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &f64, s: S) -> Result<S::Ok, S::Error> {
        if v.is_finite() {
            s.serialize_str(&format!("{v:?}"))
        } else {
            s.serialize_str(&v.to_string())
        }
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}
pub mod fl6 {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[f64; 6], s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(v.iter().map(|x| format!("{x:?}")))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<[f64; 6], D::Error> {
        let s = <Vec<String>>::deserialize(d)?;
        let v: Result<Vec<f64>, _> = s.iter().map(|x| x.parse()).collect();
        v.map_err(serde::de::Error::custom)?.try_into().map_err(|_| serde::de::Error::custom("need six numbers"))
    }
}

pub const IDENT: [f64; 6] = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];

impl Op {
    pub fn render(slot: usize, rend: usize, frame: f64) -> Op {
        Op::Render { slot, rend, frame, tr: IDENT, alpha: 1.0, crash: None }
    }
}

/// Applies the faults of document `i`. Structural faults come first (they need the syntax), then byte faults.
pub fn stored_bytes(sc: &Scenario, i: usize) -> Vec<u8> {
    let mut v = sc.docs[i].clone();
    for (d, f) in &sc.faults {
        if *d == i {
            match f {
                Fault::Graft { index, value } => {
                    let mut n = 0;
                    replace_nth(&mut v, *index, &mut n, value);
                }
                Fault::Remove { index } => {
                    let mut n = 0;
                    remove_nth(&mut v, *index, &mut n);
                }
                Fault::Copy { index, from } => {
                    let mut n = 0;
                    if let Some(src) = get_nth(&v, *from, &mut n).cloned() {
                        let mut n = 0;
                        replace_nth(&mut v, *index, &mut n, &src);
                    }
                }
                _ => {}
            }
        }
    }
    let mut b = match sc.style.iter().find(|x| x.0 == i) {
        Some((_, seed)) => styled(&v, *seed),
        None => serde_json::to_vec(&v).unwrap(),
    };
    for (d, f) in &sc.faults {
        if *d != i {
            continue;
        }
        let l = b.len();
        match f {
            Fault::Truncate(n) => b.truncate(*n),
            Fault::Flip { at, mask } => {
                if let Some(x) = b.get_mut(*at) {
                    *x ^= mask
                }
            }
            Fault::Overwrite { at, bytes } => {
                for (k, x) in bytes.iter().enumerate() {
                    if let Some(y) = b.get_mut(at + k) {
                        *y = *x
                    }
                }
            }
            Fault::ZeroSector { at, len } => {
                for k in *at..(at + len).min(l) {
                    b[k] = 0
                }
            }
            Fault::LostSector { at, len } => {
                if *at < l {
                    b.drain(*at..(at + len).min(l));
                }
            }
            Fault::DupSector { at, len } => {
                if *at < l {
                    let e = (at + len).min(l);
                    let c = b[*at..e].to_vec();
                    b.splice(e..e, c);
                }
            }
            Fault::SwapSectors { a, b: c, len } => {
                let (p, q) = (*a.min(c), *a.max(c));
                if q + len <= l && p + len <= q {
                    for k in 0..*len {
                        b.swap(p + k, q + k)
                    }
                }
            }
            Fault::StaleTail { doc, from } => {
                let o = serde_json::to_vec(&sc.docs[*doc % sc.docs.len()]).unwrap();
                if *from < o.len() {
                    b.extend_from_slice(&o[*from..]);
                }
            }
            Fault::StaleSector { doc, at, len } => {
                let o = serde_json::to_vec(&sc.docs[*doc % sc.docs.len()]).unwrap();
                for k in *at..at + len {
                    if k < b.len() && k < o.len() {
                        b[k] = o[k]
                    }
                }
            }
            Fault::Insert { at, bytes } => {
                let p = (*at).min(b.len());
                b.splice(p..p, bytes.iter().copied());
            }
            _ => {}
        }
    }
    b
}

/// The same JSON document, written by another program: members in another order, other white space, numbers and
/// strings spelled differently.
pub fn styled(v: &Value, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut p = |q: f64, x: f64| if r.chance(q) { x } else { 0.0 };
    let w = Writer { order: p(0.85, 1.0), space: p(0.6, 0.2), number: p(0.6, 0.3), escape: p(0.4, 0.04) };
    let mut out = vec![];
    w.space(&mut r, &mut out);
    w.value(v, false, &mut r, &mut out);
    w.space(&mut r, &mut out);
    out
}
struct Writer {
    order: f64,
    space: f64,
    number: f64,
    escape: f64,
}
impl Writer {
    fn space(&self, r: &mut Rng, out: &mut Vec<u8>) {
        if r.chance(self.space) {
            out.extend_from_slice(r.pick(&[" ", "\n", "\t", "\r\n", "    ", "\n\t "]).as_bytes());
        }
    }
    fn string(&self, s: &str, r: &mut Rng, out: &mut Vec<u8>) {
        if self.escape == 0.0 {
            out.extend_from_slice(serde_json::to_string(s).unwrap().as_bytes());
            return;
        }
        out.push(b'"');
        for c in s.chars() {
            if r.chance(self.escape) {
                for u in c.encode_utf16(&mut [0; 2]) {
                    out.extend_from_slice(format!("\\u{u:04x}").as_bytes());
                }
            } else {
                let q = serde_json::to_string(c.encode_utf8(&mut [0; 4]) as &str).unwrap();
                out.extend_from_slice(&q.as_bytes()[1..q.len() - 1]);
            }
        }
        out.push(b'"');
    }
    /// `real`: the format has a real number here, so an integer may be written with a point.
    fn value(&self, v: &Value, real: bool, r: &mut Rng, out: &mut Vec<u8>) {
        match v {
            Value::Object(o) => {
                let mut m: Vec<_> = o.iter().collect();
                if self.order > 0.0 {
                    r.shuffle(&mut m);
                }
                out.push(b'{');
                for (i, (k, x)) in m.into_iter().enumerate() {
                    if i > 0 {
                        out.push(b',');
                    }
                    self.space(r, out);
                    self.string(k, r, out);
                    self.space(r, out);
                    out.push(b':');
                    self.space(r, out);
                    // the kind of a gradient and the place of an image are integers
                    let kind = (k == "t" && o.contains_key("g")) || (k == "e" && o.contains_key("id"));
                    let real = !kind && matches!(k.as_str(), "k" | "s" | "e" | "t" | "ip" | "op" | "st" | "sr" | "fr" | "v" | "i" | "o" | "x" | "y");
                    self.value(x, real, r, out);
                    self.space(r, out);
                }
                out.push(b'}');
            }
            Value::Array(a) => {
                out.push(b'[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(b',');
                    }
                    self.space(r, out);
                    self.value(x, real, r, out);
                    self.space(r, out);
                }
                out.push(b']');
            }
            Value::String(s) => self.string(s, r, out),
            Value::Number(n) => {
                let t = n.to_string();
                // spellings that every reader turns into the same number
                let short = t.len() <= 13 && !t.contains(['e', 'E']);
                let t = if real && short && r.chance(self.number) {
                    match (t.contains('.'), r.below(4)) {
                        (false, 0) => format!("{t}.0"),
                        (false, 1) => format!("{t}.00"),
                        (false, 2) => format!("{t}e0"),
                        (false, _) => format!("{t}.0E+0"),
                        (true, 0) => format!("{t}0"),
                        (true, 1) => format!("{t}00"),
                        (true, 2) => format!("{t}E0"),
                        (true, _) => format!("{t}e-0"),
                    }
                } else {
                    t
                };
                out.extend_from_slice(t.as_bytes());
            }
            x => out.extend_from_slice(x.to_string().as_bytes()),
        }
    }
}

pub fn count_nodes(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count_nodes).sum(),
        Value::Object(o) => o.values().map(count_nodes).sum(),
        _ => 0,
    }
}
pub fn get_nth<'a>(v: &'a Value, want: usize, n: &mut usize) -> Option<&'a Value> {
    if *n == want {
        return Some(v);
    }
    *n += 1;
    match v {
        Value::Array(a) => a.iter().find_map(|x| get_nth(x, want, n)),
        Value::Object(o) => o.values().find_map(|x| get_nth(x, want, n)),
        _ => None,
    }
}
pub fn replace_nth(v: &mut Value, want: usize, n: &mut usize, by: &Value) -> bool {
    if *n == want {
        *v = by.clone();
        return true;
    }
    *n += 1;
    match v {
        Value::Array(a) => a.iter_mut().any(|x| replace_nth(x, want, n, by)),
        Value::Object(o) => o.values_mut().any(|x| replace_nth(x, want, n, by)),
        _ => false,
    }
}
pub fn remove_nth(v: &mut Value, want: usize, n: &mut usize) -> bool {
    *n += 1;
    match v {
        Value::Array(a) => {
            for i in 0..a.len() {
                if *n == want {
                    a.remove(i);
                    return true;
                }
                if remove_nth(&mut a[i], want, n) {
                    return true;
                }
            }
            false
        }
        Value::Object(o) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            for k in keys {
                if *n == want {
                    o.remove(&k);
                    return true;
                }
                if remove_nth(o.get_mut(&k).unwrap(), want, n) {
                    return true;
                }
            }
            false
        }
        _ => false,
    }
}

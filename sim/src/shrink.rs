//! Reduces a failing scenario: fewer operations, clients, faults, smaller documents, shorter schedule.
use crate::model;
use crate::run;
use crate::scen::*;
use serde_json::Value;
use std::time::{Duration, Instant};

pub struct Shrinker {
    class: String,
    deadline: Instant,
    pub tries: u64,
    max: u64,
    /// documents that must stay within the model
    lowered: Vec<bool>,
}
impl Shrinker {
    fn still(&mut self, sc: &Scenario) -> bool {
        if self.tries >= self.max || Instant::now() > self.deadline {
            return false;
        }
        self.tries += 1;
        let o = run::run(sc);
        o.trouble.is_none() && o.viol.iter().any(|v| v.class == self.class)
    }
    fn done(&self) -> bool {
        self.tries >= self.max || Instant::now() > self.deadline
    }
}
fn sections(sc: &mut Scenario) -> Vec<&mut Vec<Op>> {
    let mut v: Vec<&mut Vec<Op>> = vec![&mut sc.before];
    v.extend(sc.clients.iter_mut());
    v.push(&mut sc.after);
    v
}
pub fn shrink(sc: &Scenario, class: &str, secs: u64, max: u64) -> (Scenario, u64) {
    let mut s = Shrinker { class: class.into(), deadline: Instant::now() + Duration::from_secs(secs), tries: 0, max, lowered: vec![] };
    let mut cur = sc.clone();
    s.lowered = cur.docs.iter().map(|d| model::lower(d).is_ok()).collect();
    if matches!(cur.kind.as_str(), "shift" | "rewritten" | "silent" | "speed" | "wrapped" | "rekeyed" | "regrouped" | "stacked" | "elsewhere" | "enlarged" | "built") {
        return (schedule(cur, &mut s), s.tries);
    }
    for round in 0..4 {
        let before = serde_json::to_string(&cur).unwrap();
        // clients
        let mut c = 0;
        while cur.clients.len() > 1 && c < cur.clients.len() {
            let mut t = cur.clone();
            t.clients.remove(c);
            if s.still(&t) {
                cur = t
            } else {
                c += 1
            }
        }
        // runs of operations, then single ones
        let nsec = cur.clients.len() + 2;
        for k in 0..nsec {
            let mut w = (sections(&mut cur)[k].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < sections(&mut cur)[k].len() && !s.done() {
                    let mut t = cur.clone();
                    {
                        let mut sec = sections(&mut t);
                        let e = (i + w).min(sec[k].len());
                        sec[k].drain(i..e);
                    }
                    if t.clients.iter().all(|c| c.is_empty()) {
                        i += w;
                        continue;
                    }
                    if s.still(&t) {
                        cur = t
                    } else {
                        i += w
                    }
                }
                if w == 1 {
                    break;
                }
                w = (w / 2).max(1);
            }
        }
        if !cur.style.is_empty() {
            let mut t = cur.clone();
            t.style.clear();
            if s.still(&t) {
                cur = t
            }
        }
        let mut i = 0;
        while i < cur.faults.len() {
            let mut t = cur.clone();
            t.faults.remove(i);
            if s.still(&t) {
                cur = t
            } else {
                i += 1
            }
        }
        if let Some(vs) = cur.extra.get("variants").and_then(Value::as_array).map(|a| a.len()) {
            for i in (0..vs).rev() {
                let mut t = cur.clone();
                t.extra["variants"].as_array_mut().unwrap().remove(i);
                if s.still(&t) {
                    cur = t
                }
            }
        }
        // plain operands
        for k in 0..cur.clients.len() + 2 {
            for i in 0..sections(&mut cur)[k].len() {
                let mut t = cur.clone();
                if let Op::Render { tr, alpha, crash, rend, .. } = &mut sections(&mut t)[k][i] {
                    if cur.kind != "transform" {
                        *tr = IDENT;
                    }
                    *alpha = 1.0;
                    *crash = None;
                    *rend = 0;
                }
                if t != cur && s.still(&t) {
                    cur = t;
                }
            }
        }
        cur = used_docs(cur, &mut s);
        // documents: drop what can be dropped (byte faults address offsets, so documents with faults stay)
        if class != "load" && class != "lost" {
            for d in 0..cur.docs.len() {
                if cur.faults.iter().any(|f| f.0 == d) {
                    continue;
                }
                cur = shrink_doc(cur, d, &mut s);
            }
        }
        if s.done() || (round > 0 && serde_json::to_string(&cur).unwrap() == before) || serde_json::to_string(&cur).unwrap() == before {
            break;
        }
    }
    (schedule(cur, &mut s), s.tries)
}
fn used_docs(cur: Scenario, s: &mut Shrinker) -> Scenario {
    let mut cur = cur;
    let mut d = 0;
    while d < cur.docs.len() {
        let mut probe = cur.clone();
        let used = sections(&mut probe).iter().any(|x| x.iter().any(|o| matches!(o, Op::Load { doc, .. } | Op::Resave { doc } if *doc == d)))
            || cur.faults.iter().any(|f| matches!(&f.1, Fault::StaleTail { doc, .. } | Fault::StaleSector { doc, .. } if doc % cur.docs.len() == d))
            || cur.extra.get("variants").is_some();
        if used || cur.docs.len() == 1 {
            d += 1;
            continue;
        }
        let n = cur.docs.len();
        let mut t = cur.clone();
        t.docs.remove(d);
        t.faults.retain(|f| f.0 != d);
        t.style.retain(|f| f.0 != d);
        for f in &mut t.style {
            if f.0 > d {
                f.0 -= 1
            }
        }
        for f in &mut t.faults {
            if f.0 > d {
                f.0 -= 1
            }
            if let Fault::StaleTail { doc, .. } | Fault::StaleSector { doc, .. } = &mut f.1 {
                let x = *doc % n;
                *doc = if x > d { x - 1 } else { x };
            }
        }
        for sec in sections(&mut t) {
            for o in sec.iter_mut() {
                if let Op::Load { doc, .. } | Op::Resave { doc } = o {
                    if *doc > d {
                        *doc -= 1
                    }
                }
            }
        }
        if s.still(&t) {
            cur = t;
            if d < s.lowered.len() {
                s.lowered.remove(d);
            }
        } else {
            d += 1;
        }
    }
    cur
}
/// Indices (pre-order) of removable nodes, biggest first.
fn candidates(v: &Value) -> Vec<(usize, usize)> {
    fn walk(v: &Value, n: &mut usize, out: &mut Vec<(usize, usize)>, can: bool) {
        let me = *n;
        *n += 1;
        match v {
            Value::Array(a) => {
                // numbers of a point are not removable
                let ok = a.iter().any(|x| x.is_object());
                for x in a {
                    walk(x, n, out, ok);
                }
            }
            Value::Object(o) => {
                for x in o.values() {
                    walk(x, n, out, true);
                }
            }
            _ => {}
        }
        if can {
            out.push((me, *n - me));
        }
    }
    let mut out = vec![];
    walk(v, &mut 0, &mut out, false);
    out.sort_by_key(|x| std::cmp::Reverse(x.1));
    out
}
fn shrink_doc(cur: Scenario, d: usize, s: &mut Shrinker) -> Scenario {
    let mut cur = cur;
    let must = s.lowered.get(d).copied().unwrap_or(false);
    let mut skip = 0;
    loop {
        let c = candidates(&cur.docs[d]);
        if skip >= c.len() || s.done() {
            return cur;
        }
        let mut hit = false;
        for (i, (idx, _)) in c.iter().enumerate().skip(skip) {
            if s.done() {
                return cur;
            }
            let mut t = cur.clone();
            let mut n = 0;
            if !remove_nth(&mut t.docs[d], *idx, &mut n) {
                continue;
            }
            if must && model::lower(&t.docs[d]).is_err() {
                continue;
            }
            if !must && !loads_like(&cur.docs[d], &t.docs[d]) {
                continue;
            }
            if s.still(&t) {
                cur = t;
                skip = i;
                hit = true;
                break;
            }
        }
        if !hit {
            return cur;
        }
    }
}
/// Keep the members every document needs.
fn loads_like(_a: &Value, b: &Value) -> bool {
    ["w", "h", "fr", "ip", "op", "layers"].iter().all(|k| b.get(k).is_some())
}
fn schedule(cur: Scenario, s: &mut Shrinker) -> Scenario {
    let mut cur = cur;
    s.max += 200;
    if cur.clients.len() < 2 {
        return cur;
    }
    if cur.schedule.is_none() {
        let o = run::run_one(&cur);
        let mut t = cur.clone();
        t.schedule = Some(o.log);
        if !s.still(&t) {
            return cur;
        }
        cur = t;
    }
    let mut w = (cur.schedule.as_ref().unwrap().len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < cur.schedule.as_ref().unwrap().len() && !s.done() {
            let mut t = cur.clone();
            let l = t.schedule.as_mut().unwrap();
            let e = (i + w).min(l.len());
            l.drain(i..e);
            if s.still(&t) {
                cur = t
            } else {
                i += w
            }
        }
        if w == 1 || s.done() {
            return cur;
        }
        w = (w / 2).max(1);
    }
}

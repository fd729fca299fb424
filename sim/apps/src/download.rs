//! C21: what the download command leaves behind, whatever the network, the disk and the power do.
use crate::kernel::*;
use crate::out::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::viewer_files::select;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

const DIR: &str = "/simfs/dl";
/// (file name, remote id, size) of every built-in asset, as the tree under test lists them
pub fn builtins() -> Vec<(String, String, u64)> {
    let s = include_str!("../gen/scenes/src/download/default_downloads.rs");
    s.lines()
        .filter_map(|l| {
            let a = l.trim().strip_prefix("google_noto_asset!(")?;
            let mut q = a.split('"');
            q.next()?;
            let name = q.next()?.to_string();
            q.next()?;
            let id = q.next()?.to_string();
            let n: String = q.next()?.chars().filter(|c| c.is_ascii_digit()).collect();
            Some((name, id, n.parse().ok()?))
        })
        .collect()
}
fn final_name(name: &str) -> String {
    std::path::Path::new(DIR).join(name).with_extension("json").to_string_lossy().into_owned()
}
const KINDS: [&str; 24] = [
    "ok", "ok", "ok", "ok_close", "chunked", "slow", "dns", "refuse", "unreachable", "early_fin", "early_rst", "status", "redirect", "redirect_loop", "garbage", "stall",
    "cut_fin", "cut_rst", "nolen_cut", "nolen_rst", "chunked_cut", "longer", "shorter", "extra",
];
pub fn plan(seed: u64) -> Value {
    let mut r = Rng::new(seed);
    let custom = r.chance(0.5);
    let limit = *r.pick(&[2_000u64, 5_000, 20_000, 10_000_000]);
    let mut want = vec![];
    if custom {
        for i in 0..r.range(1, 3) {
            let host = format!("h{}.test", r.below(2));
            let size = match r.below(6) {
                0 => limit.min(30_000),
                1 => (limit + 1).min(30_000),
                2 => 0,
                _ => r.range(1, 8_000) as u64,
            };
            let name = *r.pick(&["one", "two", "three", "v1.2", "one"]);
            if r.chance(0.3) {
                want.push(json!({"spec": format!("http://{host}/p/{i}/{name}.json"), "path": format!("/p/{i}/{name}.json"), "name": name, "size": size}));
            } else {
                want.push(json!({"spec": format!("{name}@http://{host}/p/{i}"), "path": format!("/p/{i}"), "name": name, "size": size}));
            }
        }
    } else {
        let b = builtins();
        for _ in 0..r.range(1, 3) {
            let k = r.below(b.len());
            want.push(json!({"builtin": k}));
        }
    }
    let fault = r.chance(0.9);
    let mut runs = vec![];
    for _ in 0..r.range(1, 3) {
        let mut serve = vec![];
        for _ in 0..r.range(0, 6) {
            let k = if !fault || r.chance(0.5) { "ok" } else { *r.pick(&KINDS) };
            serve.push(json!({"kind": k, "at": r.below(1001), "n": r.range(1, 400), "status": r.pick(&[400, 404, 403, 429, 500, 503]), "head_lies": fault && r.chance(0.05)}));
        }
        let mut run = json!({"serve": serve, "faults": [], "seed": r.u64() >> 12});
        if fault && r.chance(0.4) {
            let mut f = vec![];
            for _ in 0..r.range(1, 3) {
                let at = if r.chance(0.5) { r.below(6) } else { r.below(40) };
                f.push(if r.chance(0.35) { json!({"at": at, "short": r.below(3000)}) } else { json!({"at": at, "errno": r.pick(&[libc::EIO, libc::ENOSPC, libc::EINTR, libc::EDQUOT, libc::EACCES, libc::EROFS])}) });
            }
            run["faults"] = json!(f);
        }
        if fault && r.chance(0.15) {
            run["space"] = json!(r.below(60_000));
        }
        if fault && r.chance(0.4) {
            run["crash_at"] = json!(if r.chance(0.5) { r.below(120) } else { r.below(400) });
        }
        if fault && r.chance(0.35) {
            run["power"] = json!(r.u64() >> 12);
        }
        runs.push(run);
    }
    json!({"custom": custom, "limit": limit, "want": want, "runs": runs, "left": r.chance(0.2)})
}
#[derive(Default)]
struct Shared {
    /// by remote path: bodies a client may take for a complete answer
    whole: BTreeMap<String, Vec<Vec<u8>>>,
    counts: BTreeMap<String, u64>,
}
struct Net {
    sizes: BTreeMap<String, u64>,
    serve: std::collections::VecDeque<Value>,
    sh: Rc<RefCell<Shared>>,
}
pub fn body(path: &str, n: u64) -> Vec<u8> {
    let mut r = Rng::new(hash_bytes(path.as_bytes()));
    let mut v = Vec::with_capacity(n as usize + 8);
    while v.len() < n as usize {
        v.extend_from_slice(&r.u64().to_le_bytes());
    }
    v.truncate(n as usize);
    v
}
impl Net {
    fn front(&self) -> &str {
        self.serve.front().map_or("ok", |v| v["kind"].as_str().unwrap_or("ok"))
    }
    fn count(&self, k: &str) {
        if k != "ok" {
            *self.sh.borrow_mut().counts.entry(format!("net.{k}")).or_insert(0) += 1;
        }
    }
}
/// The data in a prefix of a chunked body.
fn unchunk(mut c: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    while let Some(e) = c.windows(2).position(|x| x == b"\r\n") {
        let n = usize::from_str_radix(std::str::from_utf8(&c[..e]).unwrap_or("0"), 16).unwrap_or(0);
        c = &c[e + 2..];
        o.extend_from_slice(&c[..n.min(c.len())]);
        c = &c[(n + 2).min(c.len())..];
    }
    o
}
impl Outside for Net {
    fn resolve(&mut self, _: &str) -> bool {
        if self.front() == "dns" {
            self.count("dns");
            self.serve.pop_front();
            return false;
        }
        true
    }
    fn connect(&mut self, _: &str) -> Result<(), i32> {
        let e = match self.front() {
            "refuse" => libc::ECONNREFUSED,
            "unreachable" => libc::EHOSTUNREACH,
            _ => return Ok(()),
        };
        self.count(&self.front().to_string());
        self.serve.pop_front();
        Err(e)
    }
    fn request(&mut self, _host: &str, head: &str) -> Vec<Item> {
        let b = self.serve.pop_front().unwrap_or_default();
        let kind = b["kind"].as_str().unwrap_or("ok").to_string();
        self.count(&kind);
        let mut first = head.lines().next().unwrap_or("").split(' ');
        let method = first.next().unwrap_or("");
        let asked = first.next().unwrap_or("").to_string();
        let path = asked.strip_prefix("/moved").unwrap_or(&asked).to_string();
        let n = self.sizes.get(&path).copied().unwrap_or(300);
        let (at, extra) = (b["at"].as_u64().unwrap_or(500), b["n"].as_u64().unwrap_or(1));
        let data = |b: Vec<u8>| Item::Data(1_000_000, b);
        let text = |s: String| Item::Data(20_000_000, s.into_bytes());
        let hdr = |n: u64| format!("HTTP/1.1 200 OK\r\nContent-Length: {n}\r\nContent-Type: application/json\r\n\r\n");
        match kind.as_str() {
            "early_fin" => return vec![Item::Fin],
            "early_rst" => return vec![Item::Rst],
            "garbage" => return vec![text("\u{1}\u{2}SSH-2.0-nope\r\n\r\n".into()), Item::Fin],
            "redirect" | "redirect_loop" => {
                let to = if kind == "redirect" { format!("http://mirror.test/moved{path}") } else { format!("http://mirror.test{asked}") };
                if kind == "redirect_loop" {
                    for _ in 0..12 {
                        self.serve.push_front(json!({"kind": "redirect_loop_more"}));
                    }
                }
                return vec![text(format!("HTTP/1.1 302 Found\r\nLocation: {to}\r\nContent-Length: 0\r\n\r\n"))];
            }
            "redirect_loop_more" => return vec![text(format!("HTTP/1.1 302 Found\r\nLocation: http://mirror.test{asked}\r\nContent-Length: 0\r\n\r\n"))],
            "status" => {
                let s = b["status"].as_u64().unwrap_or(500);
                let page = if method == "HEAD" { "" } else { "<h1>sorry</h1>" };
                return vec![text(format!("HTTP/1.1 {s} Sorry\r\nContent-Length: 14\r\n\r\n{page}"))];
            }
            _ => {}
        }
        if method == "HEAD" {
            let m = if b["head_lies"].as_bool().unwrap_or(false) || kind == "longer" || kind == "shorter" { n + extra } else { n };
            return match kind.as_str() {
                "stall" => vec![Item::Stall],
                "cut_fin" | "cut_rst" => {
                    let h = hdr(m);
                    let k = at as usize * h.len() / 1001;
                    vec![text(h[..k].into()), if kind == "cut_fin" { Item::Fin } else { Item::Rst }]
                }
                "ok_close" | "nolen_cut" | "nolen_rst" | "chunked" | "chunked_cut" => vec![text("HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n".into()), Item::Fin],
                _ => vec![text(hdr(m))],
            };
        }
        let full = body(&path, n);
        let cut = (n * at / 1001) as usize;
        let whole = |v: Vec<u8>| self.sh.borrow_mut().whole.entry(path.clone()).or_default().push(v);
        let chunked = |v: &[u8]| {
            let mut o = vec![];
            for c in v.chunks(1500) {
                o.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                o.extend_from_slice(c);
                o.extend_from_slice(b"\r\n");
            }
            o
        };
        let close = "HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n".to_string();
        let ch = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n".to_string();
        match kind.as_str() {
            "ok_close" => {
                whole(full.clone());
                vec![text(close), data(full), Item::Fin]
            }
            "chunked" => {
                whole(full.clone());
                let mut c = chunked(&full);
                c.extend_from_slice(b"0\r\n\r\n");
                vec![text(ch), data(c)]
            }
            "chunked_cut" => {
                let c = chunked(&full);
                let k = c.len() * at as usize / 1001;
                // ureq does not tell a chunk cut short from the end of the body
                whole(unchunk(&c[..k]));
                vec![text(ch), data(c[..k].to_vec()), Item::Fin]
            }
            "slow" => {
                whole(full.clone());
                let mut v = vec![text(hdr(n))];
                for c in full.chunks(1 + full.len() / 7) {
                    v.push(Item::Data(4_000_000_000, c.to_vec()));
                }
                v
            }
            "stall" => {
                if cut as u64 == n {
                    whole(full.clone());
                }
                vec![text(hdr(n)), data(full[..cut].to_vec()), Item::Stall]
            }
            "cut_fin" | "cut_rst" => {
                if cut as u64 == n {
                    whole(full.clone());
                }
                vec![text(hdr(n)), data(full[..cut].to_vec()), if kind == "cut_fin" { Item::Fin } else { Item::Rst }]
            }
            "nolen_cut" => {
                // nothing tells the client that more was to come
                whole(full[..cut].to_vec());
                vec![text(close), data(full[..cut].to_vec()), Item::Fin]
            }
            "nolen_rst" => vec![text(close), data(full[..cut].to_vec()), Item::Rst],
            "longer" | "shorter" => {
                let m = if kind == "longer" { n + extra } else { n.saturating_sub(extra) };
                let v = body(&path, m);
                whole(v.clone());
                vec![text(hdr(m)), data(v)]
            }
            "extra" => {
                whole(full.clone());
                let mut v = full;
                v.extend_from_slice(&[b'x'; 20]);
                vec![text(hdr(n)), data(v), Item::Fin]
            }
            _ => {
                whole(full.clone());
                vec![text(hdr(n)), data(full)]
            }
        }
    }
}
struct Want {
    spec: Option<String>,
    path: String,
    file: String,
    size: u64,
    exact: bool,
}
pub fn run(p: &Value) -> Out {
    let mut o = Out::default();
    let custom = p["custom"].as_bool().unwrap_or(false);
    let limit = p["limit"].as_u64().unwrap_or(10_000_000);
    let b = builtins();
    let mut want: Vec<Want> = vec![];
    for w in arr(p, "want") {
        if let Some(k) = w["builtin"].as_u64() {
            let (name, id, n) = &b[k as usize % b.len()];
            want.push(Want { spec: None, path: format!("/s/e/notoemoji/latest/{id}/lottie.json"), file: final_name(name), size: *n, exact: true });
        } else {
            let s = |k: &str| w[k].as_str().unwrap_or("").to_string();
            want.push(Want { spec: Some(s("spec")), path: s("path"), file: final_name(&s("name")), size: w["size"].as_u64().unwrap_or(0), exact: false });
        }
    }
    if want.is_empty() {
        return o;
    }
    let mut disk = Disk::default();
    disk.dirs.push(DIR.into());
    if !custom {
        for (name, _, _) in &b {
            let f = final_name(name);
            if !want.iter().any(|w| w.file == f) {
                disk.put(&f, b"{}".to_vec());
            }
        }
    }
    disk.put("/simfs/dl/notes.txt", b"keep me".to_vec());
    if p["left"].as_bool().unwrap_or(false) {
        // the user already has a file of that name
        disk.put(&want[0].file, b"{\"mine\": true}".to_vec());
    }
    let initial: std::collections::BTreeSet<String> = disk.names.keys().cloned().collect();
    let sh = Rc::new(RefCell::new(Shared::default()));
    let sizes: BTreeMap<String, u64> = want.iter().map(|w| (w.path.clone(), w.size)).collect();
    let mut clock = 0;
    let steps = arr(p, "runs");
    for i in 0..=steps.len() {
        let last = i == steps.len();
        let st = steps.get(i).cloned().unwrap_or(json!({}));
        let mut argv: Vec<String> = ["download", "--auto", "--directory", DIR].iter().map(|x| x.to_string()).collect();
        argv.push("--size-limit".into());
        argv.push(format!("{limit} B"));
        let mut asked: Vec<&Want> = vec![];
        for w in &want {
            let there = disk.get(&w.file).is_some();
            if custom {
                // the last, undisturbed run asks for what is missing and allowed
                if last && (there || w.size > limit || asked.iter().any(|x| x.file == w.file)) {
                    continue;
                }
                argv.push(w.spec.clone().unwrap());
                asked.push(w);
            } else if !there && !asked.iter().any(|x| x.file == w.file) {
                asked.push(w);
            }
        }
        if custom && asked.is_empty() {
            continue;
        }
        let before: BTreeMap<String, Vec<u8>> = disk.names.keys().map(|k| (k.clone(), disk.get(k).unwrap().clone())).collect();
        let net = Net { sizes: sizes.clone(), serve: arr(&st, "serve").iter().cloned().collect(), sh: sh.clone() };
        let mut w = World::new(disk, Box::new(net), st["seed"].as_u64().unwrap_or(1), clock);
        w.space = st["space"].as_u64();
        w.crash_at = st["crash_at"].as_u64();
        for f in arr(&st, "faults") {
            let at = f["at"].as_u64().unwrap_or(0);
            w.fs_faults.push((at, if let Some(n) = f["short"].as_u64() { FsFault::Short(n as usize) } else { FsFault::Errno(f["errno"].as_i64().unwrap_or(5) as i32) }));
        }
        let (mut w, r) = w.run(|| guard(|| select(&argv)));
        o.see(w.hash);
        o.sim_ns += w.now - clock;
        clock = w.now + 1_000_000_000;
        for (k, n) in &w.injected {
            o.inject(k, *n);
        }
        let mut log = std::mem::take(&mut w.log);
        o.log.push(format!("-- run {i}: viewer {}", argv.join(" ")));
        o.log.append(&mut log);
        if w.killed_by_stall {
            o.inject("KilledWhileWaiting", 1);
        }
        if w.runaway {
            o.fail("runaway", format!("run {i} never ends"));
        }
        let alive = !w.frozen;
        let mut lost = false;
        if let Some(s) = st["power"].as_u64() {
            w.disk.power_loss(&mut Rng::new(s));
            o.inject("PowerLoss", 1);
            lost = true;
        }
        disk = std::mem::take(&mut w.disk);
        if alive {
            match &r {
                Err(e) => o.fail("panic", format!("run {i} panicked: {e}")),
                Ok(Ok(_)) => {
                    o.log.push("-- reports success".into());
                    for a in &asked {
                        if !lost && disk.get(&a.file).is_none() {
                            o.fail("missing", format!("run {i} reported success, but {} is not there", a.file));
                        }
                    }
                }
                Ok(Err(e)) => {
                    o.log.push(format!("-- reports: {e}"));
                    if last {
                        o.fail("stuck", format!("with the network and the disk back to normal the download still fails: {e}"));
                    }
                }
            }
        }
        o.judged += 1;
        for (f, old) in &before {
            match disk.get(f) {
                Some(d) if d == old => {}
                Some(d) if f.ends_with(".json") || f.ends_with(".txt") => o.fail_as(if lost && !initial.contains(f) { "download-durable" } else { "" }, "overwritten", format!("run {i}: {f} was there before ({} bytes) and is now {} bytes", old.len(), d.len())),
                None if (!lost || initial.contains(f)) && (f.ends_with(".json") || f.ends_with(".txt")) => o.fail("removed", format!("run {i}: {f} was there before and is gone")),
                _ => {}
            }
        }
        let sh = sh.borrow();
        for f in disk.names.keys().filter(|f| f.ends_with(".json") && !before.contains_key(*f)) {
            let d = disk.get(f).unwrap();
            let cands: Vec<&Want> = want.iter().filter(|w| w.file == *f).collect();
            if cands.is_empty() {
                o.fail("stranger", format!("run {i}: {f} appeared, which nobody asked for"));
                continue;
            }
            let ok = cands.iter().any(|c| {
                let fits = if c.exact { d.len() as u64 == c.size } else { d.len() as u64 <= limit };
                fits && sh.whole.get(&c.path).is_some_and(|v| v.iter().any(|x| x == d))
            });
            if !ok {
                // findings: the file has its final name from the first byte on; nothing makes it durable; a connection
                // that breaks at the size limit counts as ended
                let begun = cands.iter().any(|c| body(&c.path, d.len() as u64) == *d);
                let done = alive && matches!(r, Ok(Ok(_)));
                let key = match () {
                    _ if lost => "download-durable",
                    _ if !done && begun => "download-inplace",
                    _ if done && d.len() as u64 == limit && begun => "download-limit",
                    _ => "",
                };
                o.fail_as(
                    key,
                    "partial",
                    format!("run {i} ({}): {f} is there with {} bytes, which is no complete download of {} bytes: the viewer loads it and later downloads take it for finished", if alive { "over" } else { "killed" }, d.len(), cands[0].size),
                );
            }
        }
        for (k, d) in disk.names.keys().map(|k| (k, disk.get(k).unwrap())) {
            if d.len() > 2 {
                o.see(mix(hash_bytes(k.as_bytes()), hash_bytes(d)));
            }
        }
        o.states.push(o.hash);
        if o.viol.is_some() {
            break;
        }
    }
    for (k, n) in &sh.borrow().counts {
        o.inject(k, *n);
    }
    o
}

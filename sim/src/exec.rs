//! Executes one scenario inside a (forked) process: client threads under the baton scheduler, observations kept.
use crate::rt;
use crate::scen::*;
use kurbo::Affine;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use subject::velato::{schema::Animation, Composition, Renderer};
use subject::{Mode, Rec, SinkBudget, SinkCrash};

pub const STACK: usize = 4 << 20;
pub const STEP_BUDGET: u64 = 400_000_000;
pub const CALL_BUDGET: u64 = 400_000;
pub const MEM_CAP: i64 = 384 << 20;

/// Which composition was drawn (not the composition itself: dropping one must really free it).
#[derive(Clone, Copy, Debug)]
pub struct CompRef {
    pub doc: usize,
    pub route: Route,
    pub width: usize,
    pub height: usize,
    pub frame_rate: f64,
    pub start: f64,
    pub end: f64,
}
pub type Job = (CompRef, f64, [f64; 6], f64);

#[derive(Clone)]
pub enum Got {
    Loaded(CompRef),
    Rejected(String),
    NotApplicable,
    Panicked(String),
    Render { doc: usize, comp: CompRef, ops: Arc<Vec<subject::Op>>, aborted: bool, underflow: bool, overrun: bool },
    Resaved { first: Result<String, String>, second: Result<String, String> },
    Nothing,
}
#[derive(Clone)]
pub struct Obs {
    /// 0 before, 1 clients, 2 after
    pub phase: u8,
    pub client: usize,
    pub op: usize,
    pub what: Op,
    pub got: Got,
    pub steps: u64,
}
pub struct World {
    pub slots: Mutex<Vec<Option<(Arc<Composition>, CompRef)>>>,
    pub bytes: Vec<Vec<u8>>,
    pub obs: Mutex<Vec<Obs>>,
}
pub struct Ran {
    pub obs: Vec<Obs>,
    pub bytes: Vec<Vec<u8>>,
    pub log: Vec<(u64, u32)>,
    pub switches: u64,
    pub ilv: u64,
    pub blocked: u64,
    pub steps: u64,
    pub endurance: Option<Endurance>,
}
thread_local! { static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<SinkCrash>() || i.payload().is::<SinkBudget>() {
            return;
        }
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let m = format!("{m} at {}", i.location().map(|l| l.to_string()).unwrap_or_default());
        let ph = rt::shared().phase.load(SeqCst);
        if ph == rt::PHASE_ORACLE || ph == rt::PHASE_SETUP || rt::LOUD.load(SeqCst) {
            eprintln!("panic: {m}");
        }
        MSG.with(|x| *x.borrow_mut() = m);
    }));
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Option<String>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) if p.is::<SinkCrash>() => Err(None),
        Err(p) if p.is::<SinkBudget>() => Err(Some("\u{1}".into())),
        Err(_) => Err(Some(MSG.with(|x| x.borrow().clone()))),
    }
}
pub fn load(b: &[u8], route: Route) -> Option<Result<Composition, String>> {
    Some(match route {
        Route::Slice => Composition::from_slice(b).map_err(|e| e.to_string()),
        Route::Str => {
            let s = std::str::from_utf8(b).ok()?;
            s.parse::<Composition>().map_err(|e| e.to_string())
        }
        Route::Json => {
            let v = serde_json::from_slice(b).ok()?;
            Composition::from_json(v).map_err(|e| e.to_string())
        }
        Route::Rewritten => match Animation::from_slice(b) {
            Err(e) => Err(e.to_string()),
            Ok(a) => a.to_string().parse::<Composition>().map_err(|e| e.to_string()),
        },
        Route::Built => {
            let v: serde_json::Value = serde_json::from_slice(b).ok()?;
            let d = crate::model::lower(&v).ok()?;
            let mut c = crate::built::build(&d, salt(&v));
            if let Some(t) = v.get("x-twist").and_then(|x| x.as_u64()) {
                crate::built::twist(&mut c, t);
            }
            Ok(c)
        }
    })
}
fn salt(v: &serde_json::Value) -> u64 {
    v.get("x-seed").and_then(|x| x.as_u64()).unwrap_or(1)
}
fn edit(slot: &mut Option<(Arc<Composition>, CompRef)>, b: &[u8], doc: usize) -> Got {
    let Ok(v) = serde_json::from_slice::<serde_json::Value>(b) else { return Got::NotApplicable };
    let Ok(d) = crate::model::lower(&v) else { return Got::NotApplicable };
    let (mut c, _) = slot.take().unwrap_or_else(|| (Arc::new(Composition::default()), NONE));
    let x = Arc::make_mut(&mut c);
    crate::built::edit(x, &d, &mut crate::rng::Rng::new(salt(&v)));
    if let Some(t) = v.get("x-twist").and_then(|x| x.as_u64()) {
        crate::built::twist(x, t);
    }
    let r = CompRef { doc, route: Route::Built, width: x.width, height: x.height, frame_rate: x.frame_rate, start: x.frames.start, end: x.frames.end };
    *slot = Some((c, r));
    Got::Loaded(r)
}
const NONE: CompRef = CompRef { doc: 0, route: Route::Built, width: 0, height: 0, frame_rate: 0.0, start: 0.0, end: 0.0 };
/// Runs over documents once: reading only, or everything.
pub fn scout(docs: &[Vec<u8>], all: bool) {
    rt::set_env(rt::Env { hash_seed: 1, clock_base: 1_700_000_000_000_000_000, clock_rate: 1, clock_jump: 0 });
    for d in docs {
        if !all {
            let _ = guarded(|| Animation::from_slice(d).map(|a| a.to_string()));
        } else if let Ok(Some(Ok(c))) = guarded(|| load(d, Route::Slice)) {
            let mut r = Renderer::new();
            for k in 0..6 {
                let f = c.frames.start + (c.frames.end - c.frames.start) * k as f64 / 6.0;
                let _ = guarded(|| subject::append(&mut r, &c, f, Affine::IDENTITY, 1.0, &mut Rec::new(Mode::Record, None, CALL_BUDGET)));
            }
        }
    }
}
fn mark(phase: u8, client: usize, op: usize, what: &Op) {
    let s = rt::shared();
    s.client.store(phase as u32 * 256 + client as u32, SeqCst);
    s.op.store(op as u32, SeqCst);
    let m = format!("{what:?}");
    let n = m.len().min(400);
    unsafe { std::ptr::copy_nonoverlapping(m.as_ptr(), s.msg.as_ptr() as *mut u8, n) };
    s.msg_len.store(n as u32, SeqCst);
}
fn run_ops(w: &World, phase: u8, client: usize, ops: &[Op]) {
    let mut rends: Vec<Renderer> = (0..4).map(|_| Renderer::new()).collect();
    for (n, what) in ops.iter().enumerate() {
        rt::yield_point();
        mark(phase, client, n, what);
        let s0 = rt::steps();
        let got = match what {
            Op::Load { slot, doc, route } => match guarded(|| load(&w.bytes[*doc], *route)) {
                Ok(Some(Ok(c))) => {
                    let r = CompRef { doc: *doc, route: *route, width: c.width, height: c.height, frame_rate: c.frame_rate, start: c.frames.start, end: c.frames.end };
                    w.slots.lock().unwrap()[*slot] = Some((Arc::new(c), r));
                    Got::Loaded(r)
                }
                Ok(Some(Err(e))) => Got::Rejected(e),
                Ok(None) => Got::NotApplicable,
                Err(m) => Got::Panicked(m.unwrap_or_default()),
            },
            Op::Render { slot, rend, frame, tr, alpha, crash } => {
                let c = w.slots.lock().unwrap()[*slot].clone();
                match c {
                    None => Got::Nothing,
                    Some((comp, cref)) => {
                        let cref = CompRef { width: comp.width, height: comp.height, frame_rate: comp.frame_rate, start: comp.frames.start, end: comp.frames.end, ..cref };
                        let mut rec = Rec::new(Mode::Record, *crash, CALL_BUDGET);
                        let r = &mut rends[*rend % 4];
                        let res = guarded(|| subject::append(r, &comp, *frame, Affine::new(*tr), *alpha, &mut rec));
                        let (mut aborted, mut overrun, mut pan) = (false, false, None);
                        match res {
                            Ok(()) => {}
                            Err(None) => aborted = true,
                            Err(Some(m)) if m == "\u{1}" => overrun = true,
                            Err(Some(m)) => pan = Some(m),
                        }
                        match pan {
                            Some(m) => Got::Panicked(m),
                            None => Got::Render { doc: cref.doc, comp: cref, ops: Arc::new(rec.ops), aborted, underflow: rec.underflow, overrun },
                        }
                    }
                }
            }
            Op::Edit { slot, doc } => {
                // (others may be drawing it: a shared composition is copied first)
                let mut mine = w.slots.lock().unwrap()[*slot].take();
                let got = match guarded(|| edit(&mut mine, &w.bytes[*doc], *doc)) {
                    Ok(g) => g,
                    Err(m) => Got::Panicked(m.unwrap_or_default()),
                };
                w.slots.lock().unwrap()[*slot] = mine;
                got
            }
            Op::NewRend { rend } => {
                rends[*rend % 4] = Renderer::new();
                Got::Nothing
            }
            Op::Drop { slot } => {
                w.slots.lock().unwrap()[*slot] = None;
                Got::Nothing
            }
            Op::CloneSlot { from, to } => {
                let c = w.slots.lock().unwrap()[*from].clone();
                if let Some((c, d)) = c {
                    match guarded(|| (*c).clone()) {
                        Ok(c) => w.slots.lock().unwrap()[*to] = Some((Arc::new(c), d)),
                        Err(_) => {}
                    }
                }
                Got::Nothing
            }
            Op::Resave { doc } => {
                let b = &w.bytes[*doc];
                match guarded(|| Animation::from_slice(b).map(|a| a.to_string())) {
                    Ok(Ok(first)) => match guarded(|| first.parse::<Animation>().map(|a| a.to_string())) {
                        Ok(s) => Got::Resaved { first: Ok(first), second: s.map_err(|e| e.to_string()) },
                        Err(m) => Got::Panicked(m.unwrap_or_default()),
                    },
                    Ok(Err(e)) => Got::Resaved { first: Err(e.to_string()), second: Err(String::new()) },
                    Err(m) => Got::Panicked(m.unwrap_or_default()),
                }
            }
            Op::Yield => Got::Nothing,
        };
        let o = Obs { phase, client, op: n, what: what.clone(), got, steps: rt::steps() - s0 };
        w.obs.lock().unwrap().push(o);
    }
    rt::yield_point();
}

/// Memory and work over a long playback history.
#[derive(Clone, Debug, Default)]
pub struct Endurance {
    /// bytes live after each pass
    pub live: Vec<i64>,
    pub peak: Vec<i64>,
    /// edges executed in each pass
    pub work: Vec<u64>,
    /// bytes live before the first load and after everything was released
    pub before: i64,
    pub after: i64,
    pub fail: Option<String>,
}
/// The same renders pass after pass, each time with another opacity and root transform (and another frame, where
/// that makes no difference to the work).
fn endurance(bytes: &[Vec<u8>], ops: &[Op], passes: usize, still: bool, e: &mut Endurance) {
    // every vector is sized up front so that only the library's own memory moves
    e.live.reserve(passes + 1);
    e.peak.reserve(passes + 1);
    e.work.reserve(passes + 1);
    let round = |passes: usize, e: &mut Endurance, keep: bool| {
        let mut comps: [Option<Composition>; 4] = [None, None, None, None];
        let mut rends: [Renderer; 4] = std::array::from_fn(|_| Renderer::new());
        for p in 0..passes {
            let s0 = rt::steps();
            rt::PEAK.store(rt::LIVE.load(SeqCst), SeqCst);
            for what in ops {
                match what {
                    Op::Load { slot, doc, route } if p == 0 => match guarded(|| load(&bytes[*doc], *route)) {
                        Ok(Some(Ok(c))) => comps[*slot % 4] = Some(c),
                        _ => {}
                    },
                    Op::Render { slot, rend, frame, tr, alpha, crash } => {
                        if let Some(c) = &comps[*slot % 4] {
                            let mut rec = Rec::new(Mode::Count, *crash, CALL_BUDGET);
                            let r = &mut rends[*rend % 4];
                            let q = p as f64;
                            let frame = if still { *frame + q * 0.37 } else { *frame };
                            let mut tr = *tr;
                            tr[4] += q * 0.01;
                            let alpha = *alpha * (1.0 - q * 1e-4);
                            let _ = guarded(|| subject::append(r, c, frame, Affine::new(tr), alpha, &mut rec));
                        }
                    }
                    _ => {}
                }
            }
            if keep {
                e.live.push(rt::LIVE.load(SeqCst));
                e.peak.push(rt::PEAK.load(SeqCst));
                e.work.push(rt::steps() - s0);
            }
        }
    };
    round(2, e, false); // warm up process-wide lazies
    e.before = rt::LIVE.load(SeqCst);
    round(passes, e, true);
    e.after = rt::LIVE.load(SeqCst);
}

pub fn execute(sc: &Scenario) -> Ran {
    use rt::*;
    let bytes: Vec<Vec<u8>> = (0..sc.docs.len()).map(|i| stored_bytes(sc, i)).collect();
    set_env(Env {
        hash_seed: sc.env.hash_seed,
        clock_base: 1_700_000_000_000_000_000 + sc.env.clock_base,
        clock_rate: 1 + sc.env.clock_rate,
        clock_jump: sc.env.clock_jump,
    });
    let w: &'static World = Box::leak(Box::new(World { slots: Mutex::new(vec![None; 16]), bytes, obs: Mutex::new(vec![]) }));
    let mut ran = Ran { obs: vec![], bytes: w.bytes.clone(), log: vec![], switches: 0, ilv: 0, blocked: 0, steps: 0, endurance: None };
    // the edge clock starts here: what the process did before (generation, other runs) does not show in the schedule
    reset_steps();
    let s0 = steps();
    CAP.store(LIVE.load(SeqCst) + MEM_CAP, SeqCst);
    recycle(sc.env.recycle);
    shared().phase.store(PHASE_SIM, SeqCst);
    let single = Plan::default();
    if sc.kind == "endurance" {
        let ops = sc.clients.first().cloned().unwrap_or_default();
        let passes = sc.extra.get("passes").and_then(|v| v.as_u64()).unwrap_or(40) as usize;
        let still = sc.extra.get("still").and_then(|v| v.as_bool()).unwrap_or(false);
        let cell: &'static Mutex<Endurance> = Box::leak(Box::new(Mutex::new(Endurance::default())));
        run_threads(vec![Box::new(move || endurance(&w.bytes, &ops, passes, still, &mut cell.lock().unwrap()))], STACK, &single, 8 * STEP_BUDGET);
        ran.endurance = Some(cell.lock().unwrap().clone());
    } else {
        if !sc.before.is_empty() {
            let ops = sc.before.clone();
            run_threads(vec![Box::new(move || run_ops(w, 0, 0, &ops))], STACK, &single, STEP_BUDGET);
        }
        if sc.clients.iter().any(|c| !c.is_empty()) {
            let fs: Vec<Box<dyn FnOnce() + Send>> = sc.clients.iter().cloned().enumerate().map(|(i, ops)| {
                let f: Box<dyn FnOnce() + Send> = Box::new(move || run_ops(w, 1, i, &ops));
                f
            }).collect();
            let plan = Plan { seed: sc.sched_seed, mean: sc.mean, replay: sc.schedule.clone() };
            let r = run_threads(fs, STACK, &plan, STEP_BUDGET);
            ran.log = r.log;
            ran.switches = r.switches;
            ran.ilv = r.ilv;
            ran.blocked = r.blocked;
        }
        if !sc.after.is_empty() {
            let ops = sc.after.clone();
            run_threads(vec![Box::new(move || run_ops(w, 2, 0, &ops))], STACK, &single, STEP_BUDGET);
        }
    }
    recycle(false);
    shared().phase.store(PHASE_ORACLE, SeqCst);
    CAP.store(i64::MAX, SeqCst);
    ran.steps = steps() - s0;
    shared().steps.store(ran.steps, SeqCst);
    ran.obs = std::mem::take(&mut *w.obs.lock().unwrap());
    ran
}

/// Renders on a simulated thread of its own with a fresh load and a fresh renderer (second phase of an oracle).
pub fn render_fresh(bytes: Vec<Vec<u8>>, jobs: Vec<Job>) -> Vec<Result<Vec<subject::Op>, String>> {
    let out: &'static Mutex<Vec<Result<Vec<subject::Op>, String>>> = Box::leak(Box::new(Mutex::new(vec![])));
    rt::recycle(false);
    rt::shared().phase.store(rt::PHASE_SIM, SeqCst);
    rt::run_threads(vec![Box::new(move || {
        let mut comps: Vec<(usize, Route, Composition)> = vec![];
        for (c, f, t, a) in jobs {
            if !comps.iter().any(|x| x.0 == c.doc && x.1 == c.route) {
                match guarded(|| load(&bytes[c.doc], c.route)) {
                    Ok(Some(Ok(x))) => comps.push((c.doc, c.route, x)),
                    _ => {
                        out.lock().unwrap().push(Err("could not be loaded again".into()));
                        continue;
                    }
                }
            }
            let comp = &comps.iter().find(|x| x.0 == c.doc && x.1 == c.route).unwrap().2;
            let mut r = Renderer::new();
            let mut rec = Rec::new(Mode::Record, None, CALL_BUDGET);
            let res = guarded(|| subject::append(&mut r, comp, f, Affine::new(t), a, &mut rec));
            out.lock().unwrap().push(match res {
                Ok(()) => Ok(rec.ops),
                Err(m) => Err(m.unwrap_or_default()),
            });
        }
    })], STACK, &rt::Plan::default(), STEP_BUDGET);
    rt::shared().phase.store(rt::PHASE_ORACLE, SeqCst);
    std::mem::take(&mut *out.lock().unwrap())
}

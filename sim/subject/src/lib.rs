//! Instantiates velato's generic entry points with the simulator's sink. This crate is compiled with the
//! same edge callbacks as velato itself, so code generated here (the renderer is generic over the sink)
//! is counted and can be preempted.
use kurbo::{Affine, PathEl, Shape};
use peniko::{BlendMode, Brush};
pub use velato;
use velato::{Composition, RenderSink, Renderer};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    PushLayer { blend: BlendMode, alpha: f32, t: Affine, path: Vec<PathEl> },
    PushClip { t: Affine, path: Vec<PathEl> },
    Pop,
    Draw { stroke: Option<kurbo::Stroke>, t: Affine, brush: Brush, path: Vec<PathEl> },
    Begin { name: String, index: usize },
    End,
}

/// What the sink does with the calls it gets.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// Record every call.
    Record,
    /// Only count calls and balance.
    Count,
}

/// Payload of the panic a crashing sink raises.
pub struct SinkCrash;
/// Payload of the panic raised when a render makes more calls than the budget allows.
pub struct SinkBudget;

pub struct Rec {
    pub ops: Vec<Op>,
    pub mode: Mode,
    pub calls: u64,
    pub crash_at: Option<u64>,
    pub budget: u64,
    pub depth: i64,
    pub max_depth: i64,
    pub underflow: bool,
}

impl Rec {
    pub fn new(mode: Mode, crash_at: Option<u64>, budget: u64) -> Self {
        Rec { ops: vec![], mode, calls: 0, crash_at, budget, depth: 0, max_depth: 0, underflow: false }
    }
    fn call(&mut self) {
        if self.crash_at == Some(self.calls) {
            self.crash_at = None;
            std::panic::panic_any(SinkCrash);
        }
        self.calls += 1;
        if self.calls > self.budget {
            std::panic::panic_any(SinkBudget);
        }
    }
    fn open(&mut self) {
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
    }
    fn close(&mut self) {
        self.depth -= 1;
        if self.depth < 0 {
            self.underflow = true;
        }
    }
    fn rec(&mut self, f: impl FnOnce() -> Op) {
        if self.mode == Mode::Record {
            self.ops.push(f());
        }
    }
}

/// Bytes the recording itself may take: they are not the library's.
pub static RECORDED: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
fn els(s: &impl Shape) -> Vec<PathEl> {
    let n = s.path_elements(0.1).count();
    RECORDED.fetch_add((n * size_of::<PathEl>()) as i64, std::sync::atomic::Ordering::Relaxed);
    let mut v = Vec::with_capacity(n);
    v.extend(s.path_elements(0.1));
    v
}

impl RenderSink for Rec {
    fn push_layer(&mut self, blend: impl Into<BlendMode>, alpha: f32, t: Affine, shape: &impl Shape) {
        self.call();
        self.open();
        self.rec(|| Op::PushLayer { blend: blend.into(), alpha, t, path: els(shape) });
    }
    fn push_clip_layer(&mut self, t: Affine, shape: &impl Shape) {
        self.call();
        self.open();
        self.rec(|| Op::PushClip { t, path: els(shape) });
    }
    fn pop_layer(&mut self) {
        self.call();
        self.close();
        self.rec(|| Op::Pop);
    }
    fn draw(&mut self, stroke: Option<&kurbo::Stroke>, t: Affine, brush: &Brush, shape: &impl Shape) {
        self.call();
        self.rec(|| Op::Draw { stroke: stroke.cloned(), t, brush: brush.clone(), path: els(shape) });
    }
    fn begin_layer_group(&mut self, name: &str, index: usize) {
        self.call();
        self.open();
        self.rec(|| Op::Begin { name: name.to_string(), index });
    }
    fn end_layer_group(&mut self) {
        self.call();
        self.close();
        self.rec(|| Op::End);
    }
}

pub fn append(r: &mut Renderer, c: &Composition, frame: f64, t: Affine, alpha: f64, rec: &mut Rec) {
    r.append(c, frame, t, alpha, rec);
}

#[cfg(feature = "vello")]
pub mod scene {
    use super::*;
    pub use velato::vello::Scene;
    pub fn render_new(r: &mut Renderer, c: &Composition, frame: f64, t: Affine, alpha: f64) -> Scene {
        r.render_to_vello_scene(c, frame, t, alpha)
    }
    pub fn append_to(r: &mut Renderer, c: &Composition, frame: f64, t: Affine, alpha: f64, s: &mut Scene) {
        r.append(c, frame, t, alpha, s);
    }
}

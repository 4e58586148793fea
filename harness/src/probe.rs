//! Probe UGens: real nodes placed in the real graph whose behaviour the
//! reference model can compute exactly and which record what happens to them.
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::{
    AudioCtx, Block, BlockRead, Float, Frame, PFloat, ParameterHint, ParameterValue, Size, UGen,
    UGenFlags,
};
use knaster_graph::graph::{Graph, NodeId};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};

pub const NPARAMS: usize = 3;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// clock, absolute frame the node has reached, param index, rendered value
    Param(u64, u64, usize, String),
    /// clock, delay handed over for parameter
    Delay(u64, usize, u16),
}

/// What a probe observed; outlives the probe.
#[derive(Default)]
pub struct Shared {
    pub id: u64,
    pub inits: AtomicU64,
    pub blocks: AtomicU64,
    pub frames: AtomicU64,
    /// frames processed one by one
    pub singles: AtomicU64,
    /// clock expected for the next block, -1 before the first
    pub next_clock: AtomicI64,
    pub first_clock: AtomicI64,
    pub last_clock: AtomicI64,
    pub drops: AtomicU64,
    pub dropped_on_audio: AtomicBool,
    pub processing: AtomicBool,
    pub after_drop: AtomicBool,
    pub sr: AtomicU64,
    pub bs: AtomicU64,
    /// monitor of the done action: block counter at which to report done
    pub done_at_block: AtomicI64,
    pub done_frame: AtomicU64,
    /// absolute frame of this node at which it reports done, -1: never
    pub done_at_frame: AtomicI64,
    /// reported this many frames later (0: first frame to silence, 1: frame after)
    pub done_extra: AtomicU64,
    /// reports done again at the start of every later block
    pub done_repeat: AtomicBool,
    pub errors: Mutex<Vec<String>>,
    pub events: Mutex<Vec<Ev>>,
    pub record_events: AtomicBool,
}
impl Shared {
    pub fn new(id: u64) -> Arc<Self> {
        let s = Self { id, ..Default::default() };
        s.next_clock.store(-1, SeqCst);
        s.first_clock.store(-1, SeqCst);
        s.last_clock.store(-1, SeqCst);
        s.done_at_block.store(-1, SeqCst);
        s.done_at_frame.store(-1, SeqCst);
        Arc::new(s)
    }
    pub fn error(&self, e: String) {
        crate::alloc::off_duty(|| {
            let mut v = self.errors.lock().unwrap();
            if v.len() < 8 {
                v.push(e);
            }
        })
    }
}

thread_local! {
    /// set while the harness is inside AudioProcessor::run on this thread
    pub static ON_AUDIO: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

#[derive(Clone)]
pub struct Core {
    pub salt: i64,
    pub acc: i64,
    pub stateful: bool,
    pub params: [i64; NPARAMS],
    pub shared: Arc<Shared>,
}
impl Core {
    pub fn new(salt: i64, stateful: bool, shared: Arc<Shared>) -> Self {
        Core { salt, acc: 0, stateful, params: [0; NPARAMS], shared }
    }
}

/// One frame of a probe; the single definition shared by the real node and the
/// reference model.
#[inline]
pub fn probe_frame(
    salt: i64,
    acc: &mut i64,
    stateful: bool,
    params: &[i64; NPARAMS],
    ins: &[i64],
    outs: &mut [i64],
) {
    let mut m = salt + 3 * *acc;
    for (i, v) in ins.iter().enumerate() {
        m += (2 * i as i64 + 3) * v;
    }
    for (i, v) in params.iter().enumerate() {
        m += (5 * i as i64 + 11) * v;
    }
    for (j, o) in outs.iter_mut().enumerate() {
        *o = (m * (2 * j as i64 + 5) + 77 * j as i64).rem_euclid(8191) - 4095;
    }
    if stateful {
        let mut s = 0;
        for v in ins {
            s += v;
        }
        *acc = (*acc * 5 + 1 + s + params[0]).rem_euclid(65521);
    }
}

pub struct Probe<F, I, O> {
    pub core: Core,
    _p: PhantomData<(F, I, O)>,
}
impl<F, I, O> Probe<F, I, O> {
    pub fn new(core: Core) -> Self {
        Probe { core, _p: PhantomData }
    }
}
impl<F, I, O> Drop for Probe<F, I, O> {
    fn drop(&mut self) {
        let s = &self.core.shared;
        s.drops.fetch_add(1, SeqCst);
        if s.processing.load(SeqCst) {
            s.error("dropped while being processed".into());
        }
        if ON_AUDIO.with(|a| a.get()) {
            s.dropped_on_audio.store(true, SeqCst);
        }
    }
}
pub fn to_i<F: Float>(x: F, s: &Shared, what: &str) -> i64 {
    let v = x.to_f64();
    if !(v.abs() < 1e9) || v != v.trunc() {
        s.error(format!("{what} is {v}, not a value any node produced"));
        return 0;
    }
    v as i64
}
/// Report done if that is due within the n frames from `before`.
fn mark(sh: &Shared, flags: &mut UGenFlags, before: i64, n: i64) {
    let at = sh.done_at_frame.load(SeqCst);
    if at < 0 || before + n <= at {
        return;
    }
    if before <= at {
        flags.mark_done((at - before) as u32 + sh.done_extra.load(SeqCst) as u32);
    } else if sh.done_repeat.load(SeqCst) {
        flags.mark_done(0);
    }
}
impl<F: Float, I: Size, O: Size> UGen for Probe<F, I, O> {
    type Sample = F;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U3;
    fn init(&mut self, sr: u32, bs: usize) {
        let s = &self.core.shared;
        s.inits.fetch_add(1, SeqCst);
        s.sr.store(sr as u64, SeqCst);
        s.bs.store(bs as u64, SeqCst);
        if s.frames.load(SeqCst) > 0 {
            s.error("init after processing".into());
        }
    }
    fn process(
        &mut self,
        ctx: &mut AudioCtx,
        flags: &mut UGenFlags,
        input: Frame<F, I>,
    ) -> Frame<F, O> {
        let mut ins = [0i64; 32];
        for i in 0..I::USIZE {
            ins[i] = to_i(input[i], &self.core.shared, "input");
        }
        let mut outs = [0i64; 32];
        let c = &mut self.core;
        probe_frame(c.salt, &mut c.acc, c.stateful, &c.params, &ins[..I::USIZE], &mut outs[..O::USIZE]);
        let _ = ctx;
        let mut o = Frame::<F, O>::default();
        for j in 0..O::USIZE {
            o[j] = F::new(outs[j] as f64);
        }
        let sh = &self.core.shared;
        let before = sh.frames.fetch_add(1, Relaxed) as i64;
        mark(sh, flags, before, 1);
        sh.singles.fetch_add(1, Relaxed);
        if sh.inits.load(SeqCst) != 1 {
            sh.error(format!("processed after {} inits", sh.inits.load(SeqCst)));
        }
        if sh.drops.load(SeqCst) > 0 {
            sh.after_drop.store(true, SeqCst);
        }
        o
    }
    fn process_block<InB, OutB>(
        &mut self,
        ctx: &mut AudioCtx,
        flags: &mut UGenFlags,
        input: &InB,
        output: &mut OutB,
    ) where
        InB: BlockRead<Sample = F> + ?Sized,
        OutB: Block<Sample = F> + ?Sized,
    {
        let sh = self.core.shared.clone();
        sh.processing.store(true, SeqCst);
        if sh.drops.load(SeqCst) > 0 {
            sh.after_drop.store(true, SeqCst);
        }
        if sh.inits.load(SeqCst) != 1 {
            sh.error(format!("processed after {} inits", sh.inits.load(SeqCst)));
        }
        let clock = ctx.frame_clock() as i64;
        let n = ctx.frames_to_process();
        let want = sh.next_clock.load(SeqCst);
        if want >= 0 && want != clock {
            sh.error(format!("clock jumped: expected {want}, got {clock}"));
        }
        if sh.first_clock.load(SeqCst) < 0 {
            sh.first_clock.store(clock, SeqCst);
        }
        sh.last_clock.store(clock, SeqCst);
        sh.next_clock.store(clock + n as i64, SeqCst);
        if n as u64 != sh.bs.load(SeqCst) && sh.bs.load(SeqCst) != 0 && ctx.block_start_offset() == 0 && n > ctx.block_size() {
            sh.error(format!("asked for {n} frames, block size {}", ctx.block_size()));
        }
        if self.core.salt & 1 == 0 {
            // What was in the output is nobody's input
            for j in 0..O::USIZE {
                for f in 0..n {
                    output.write(F::new(f64::NAN), j, f);
                }
            }
        }
        for f in 0..n {
            let mut ins = [0i64; 32];
            for i in 0..I::USIZE {
                ins[i] = to_i(input.read(i, f), &sh, "input");
            }
            let mut outs = [0i64; 32];
            let c = &mut self.core;
            probe_frame(
                c.salt,
                &mut c.acc,
                c.stateful,
                &c.params,
                &ins[..I::USIZE],
                &mut outs[..O::USIZE],
            );
            for j in 0..O::USIZE {
                output.write(F::new(outs[j] as f64), j, f);
            }
        }
        let before = sh.frames.fetch_add(n as u64, SeqCst) as i64;
        mark(&sh, flags, before, n as i64);
        let b = sh.blocks.fetch_add(1, SeqCst) as i64;
        let at = sh.done_at_block.load(SeqCst);
        if at >= 0 && b == at {
            flags.mark_done(sh.done_frame.load(SeqCst) as u32);
        }
        sh.processing.store(false, SeqCst);
    }
    fn param_descriptions() -> NumericArray<&'static str, U3> {
        ["alpha", "beta", "gamma"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U3> {
        [
            ParameterHint::infinite_float(),
            ParameterHint::infinite_float(),
            ParameterHint::infinite_float(),
        ]
        .into()
    }
    fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        let sh = &self.core.shared;
        if sh.drops.load(SeqCst) > 0 {
            sh.after_drop.store(true, SeqCst);
        }
        if index >= NPARAMS {
            sh.error(format!("param index {index} applied"));
            return;
        }
        if sh.record_events.load(Relaxed) {
            let first = sh.first_clock.load(SeqCst);
            let at = if first < 0 { ctx.frame_clock() } else { first as u64 + sh.frames.load(SeqCst) };
            crate::alloc::off_duty(|| {
                sh.events.lock().unwrap().push(Ev::Param(ctx.frame_clock(), at, index, format!("{value:?}")))
            });
        }
        match value {
            ParameterValue::Float(v) => {
                let v = v as PFloat as f64;
                if v != v.trunc() || v.abs() > 1e9 {
                    if !sh.record_events.load(Relaxed) {
                        sh.error(format!("param value {v} was never set"));
                    }
                } else {
                    self.core.params[index] = v as i64;
                }
            }
            ParameterValue::Integer(p) => self.core.params[index] = p.0 as i64,
            ParameterValue::Trigger => self.core.params[index] = 1 - self.core.params[index],
            ParameterValue::Bool(b) => self.core.params[index] = b as i64,
            ParameterValue::Smoothing(..) => {}
        }
    }
    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
        if self.core.shared.record_events.load(Relaxed) {
            crate::alloc::off_duty(|| {
                self.core.shared.events.lock().unwrap().push(Ev::Delay(ctx.frame_clock(), index, delay))
            });
        }
    }
}

pub const SHAPES: &[(usize, usize)] = &[
    (0, 1),
    (0, 2),
    (1, 1),
    (1, 2),
    (2, 1),
    (2, 2),
    (3, 1),
    (1, 0),
    (2, 0),
    (0, 3),
    (3, 4),
    (4, 2),
    (0, 0),
];
/// Only for pushing raw.
pub const WIDE_SHAPES: &[(usize, usize)] = &[(8, 8), (0, 8), (6, 1), (1, 16), (20, 5), (16, 0)];
#[macro_export]
macro_rules! with_shape {
    ($ins:expr, $outs:expr, $F:ty, $core:expr, |$p:ident| $body:expr) => {
        match ($ins, $outs) {
            (0, 0) => { let $p = $crate::probe::Probe::<$F, U0, U0>::new($core); $body }
            (0, 1) => { let $p = $crate::probe::Probe::<$F, U0, U1>::new($core); $body }
            (0, 2) => { let $p = $crate::probe::Probe::<$F, U0, U2>::new($core); $body }
            (0, 3) => { let $p = $crate::probe::Probe::<$F, U0, U3>::new($core); $body }
            (1, 0) => { let $p = $crate::probe::Probe::<$F, U1, U0>::new($core); $body }
            (2, 0) => { let $p = $crate::probe::Probe::<$F, U2, U0>::new($core); $body }
            (1, 1) => { let $p = $crate::probe::Probe::<$F, U1, U1>::new($core); $body }
            (1, 2) => { let $p = $crate::probe::Probe::<$F, U1, U2>::new($core); $body }
            (2, 1) => { let $p = $crate::probe::Probe::<$F, U2, U1>::new($core); $body }
            (2, 2) => { let $p = $crate::probe::Probe::<$F, U2, U2>::new($core); $body }
            (3, 1) => { let $p = $crate::probe::Probe::<$F, U3, U1>::new($core); $body }
            (3, 4) => { let $p = $crate::probe::Probe::<$F, U3, U4>::new($core); $body }
            (4, 2) => { let $p = $crate::probe::Probe::<$F, U4, U2>::new($core); $body }
            _ => panic!("harness: no probe of that shape"),
        }
    };
}
/// Push without committing (the deprecated entry point is still public API).
pub fn push_probe_raw<F: Float>(g: &mut Graph<F>, ins: usize, outs: usize, core: Core) -> NodeId {
    #[allow(deprecated)]
    {
        use knaster_graph::handle::HandleTrait;
        match (ins, outs) {
            (8, 8) => g.push(Probe::<F, U8, U8>::new(core)).node_id(),
            (0, 8) => g.push(Probe::<F, U0, U8>::new(core)).node_id(),
            (6, 1) => g.push(Probe::<F, U6, U1>::new(core)).node_id(),
            (1, 16) => g.push(Probe::<F, U1, U16>::new(core)).node_id(),
            (20, 5) => g.push(Probe::<F, U20, U5>::new(core)).node_id(),
            (16, 0) => g.push(Probe::<F, U16, U0>::new(core)).node_id(),
            _ => with_shape!(ins, outs, F, core, |p| g.push(p).node_id()),
        }
    }
}
pub fn push_probe_edit<F: Float>(
    g: &knaster_graph::graph_edit::GraphEdit<F>,
    ins: usize,
    outs: usize,
    core: Core,
) -> NodeId {
    with_shape!(ins, outs, F, core, |p| g.push(p).id())
}
/// As push_probe_edit, wrapped so that parameters can be linked at audio rate.
pub fn push_probe_ar<F: Float>(
    g: &knaster_graph::graph_edit::GraphEdit<F>,
    ins: usize,
    outs: usize,
    core: Core,
) -> NodeId {
    use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
    with_shape!(ins, outs, F, core, |p| g.push(p.ar_params()).id())
}
/// A probe with one output, wrapped for sample accurate parameter changes; the wrappers around it have
/// to hand the changes and their times on.
pub fn push_probe_precise<F: Float>(g: &knaster_graph::graph_edit::GraphEdit<F>, core: Core, stack: usize) -> NodeId {
    use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
    let p = Probe::<F, U0, U1>::new(core).precise_timing::<64>();
    match stack {
        0 => g.push(p.wr_mul(F::ONE)).id(),
        1 => g.push(p.wr_add(F::ZERO)).id(),
        2 => g.push(p.wr_sub(F::ZERO)).id(),
        3 => g.push(p.wr_v_sub_gen(F::ONE)).id(),
        4 => g.push(p.wr_div(F::ONE)).id(),
        5 => g.push(p.wr_v_div_gen(F::ONE)).id(),
        6 => g.push(p.wr_powf(F::ONE)).id(),
        7 => g.push(p.wr_powi(1)).id(),
        8 => g.push(p.wr(|x| x)).id(),
        9 => g.push_with_done_action(p, knaster_core::Done::None).id(),
        10 => g.push_with_done_action(p.wr_mul(F::ONE).wr(|x| x), knaster_core::Done::FreeSelf).id(),
        _ => g.push(p).id(),
    }
}
/// The number of stacks, more than half of them plain.
pub const PRECISE_STACKS: usize = 24;
pub fn push_probe_done<F: Float>(
    g: &knaster_graph::graph_edit::GraphEdit<F>,
    ins: usize,
    outs: usize,
    core: Core,
    done: knaster_core::Done,
) -> NodeId {
    with_shape!(ins, outs, F, core, |p| g.push_with_done_action(p, done).id())
}

/// In different wrappers, all of which leave the output as it is; the last parameter is "done_action".
pub fn push_probe_done_wrapped<F: Float>(
    g: &knaster_graph::graph_edit::GraphEdit<F>,
    ins: usize,
    outs: usize,
    core: Core,
    done: knaster_core::Done,
    wrapper: usize,
) -> NodeId {
    use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
    match wrapper {
        0 => with_shape!(ins, outs, F, core, |p| g.push_with_done_action(p, done).id()),
        1 => with_shape!(ins, outs, F, core, |p| g.push_with_done_action(p.ar_params(), done).id()),
        2 => with_shape!(ins, outs, F, core, |p| g.push_with_done_action(p.precise_timing::<64>(), done).id()),
        3 => with_shape!(ins, outs, F, core, |p| g.push_with_done_action(p.wr_mul(F::ONE), done).id()),
        4 => with_shape!(ins, outs, F, core, |p| g.push_with_done_action(p.smooth_params(), done).id()),
        _ => with_shape!(ins, outs, F, core, |p| g
            .push_with_done_action(p.ar_params().precise_timing::<64>(), done)
            .id()),
    }
}

thread_local! { static RUNS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// Called at the start of each case, so that a case always renders through the same entry points.
pub fn runs_from(n: u64) {
    RUNS.with(|r| r.set(n));
}
/// Render one block through one of the public entry points, taking turns.
pub fn run_any<F: Float>(p: &mut knaster_graph::processor::AudioProcessor<F>, inputs: &[&[F]]) {
    let k = RUNS.with(|r| {
        let k = r.get();
        r.set(k + 1);
        k
    });
    match k % 3 {
        0 => crate::alloc::audio(|| p.run(inputs)),
        1 if inputs.is_empty() => crate::alloc::audio(|| p.run_without_inputs()),
        _ => {
            let bs = p.block_size();
            assert!(inputs.iter().all(|i| i.len() >= bs));
            let mut ptrs = [std::ptr::null(); 32];
            for (q, i) in ptrs.iter_mut().zip(inputs) {
                *q = i.as_ptr();
            }
            // SAFETY: the pointers come from live slices of at least the block size
            crate::alloc::audio(|| unsafe { p.run_raw_ptr_inputs(&ptrs[..inputs.len()]) })
        }
    }
}

//! Bench for running a single UGen outside of a graph, with time divided in different ways.
use crate::alloc;
use crate::common::*;
use crate::{bail, ensure};
use knaster_core::log::ArLogSender;
use knaster_core::typenum::*;
use knaster_core::{
    AudioCtx, Block, BlockMetadata, Float, Frame, ParameterValue, PartialBlock, UGen, UGenFlags,
    VecBlock,
};

pub fn ctx(sr: u32, bs: usize) -> AudioCtx {
    AudioCtx::new(sr, bs, ArLogSender::non_rt())
}

/// How time is divided.
#[derive(Clone, Debug)]
pub enum Div {
    /// `process` once per frame
    Frames,
    /// `process_block` on whole blocks
    Blocks(usize),
    /// `process_block` on blocks of that size split at these frames (absolute)
    Parts(usize, Vec<usize>),
}
/// A parameter change at a frame; in block modes only frames at which a part starts are possible.
#[derive(Clone, Debug)]
pub struct Change {
    pub frame: usize,
    pub param: usize,
    pub value: ParameterValue,
}
pub fn ch(frame: usize, param: usize, value: impl Into<ParameterValue>) -> Change {
    Change { frame, param, value: value.into() }
}
#[derive(Clone, Default, Debug)]
pub struct Trace {
    /// out[channel][frame]
    pub out: Vec<Vec<f64>>,
    /// absolute frames at which done was reported
    pub done: Vec<u64>,
    /// absolute frames from which the parent should be removed
    pub parent: Vec<u64>,
    pub remove_self: bool,
    /// the frames (or starts of blocks) in which `done` and `parent` were reported
    pub done_from: Vec<u64>,
    pub parent_from: Vec<u64>,
}
impl Trace {
    pub fn ch(&self, c: usize) -> &[f64] {
        &self.out[c]
    }
}
const SENTINEL: f64 = -12345.5;

/// A UGen without its type.
trait Drive<F: Float> {
    fn frame(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, ins: &[F], outs: &mut [F]);
    fn block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, i: &VecBlock<F>, o: &mut VecBlock<F>);
    fn part(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, i: &VecBlock<F>, o: &mut VecBlock<F>, at: usize, n: usize);
    fn apply(&mut self, ctx: &mut AudioCtx, param: usize, v: ParameterValue);
}
impl<T: UGen> Drive<T::Sample> for T {
    fn frame(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, ins: &[T::Sample], outs: &mut [T::Sample]) {
        let mut i = Frame::<T::Sample, T::Inputs>::default();
        i.copy_from_slice(ins);
        let w = alloc::watch();
        let o = self.process(ctx, flags, i);
        w.end();
        outs.copy_from_slice(&o);
    }
    fn block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, i: &VecBlock<T::Sample>, o: &mut VecBlock<T::Sample>) {
        let w = alloc::watch();
        self.process_block(ctx, flags, i, o);
        w.end();
    }
    fn part(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, i: &VecBlock<T::Sample>, o: &mut VecBlock<T::Sample>, at: usize, n: usize) {
        let i = PartialBlock::from_block(i, at, n);
        let mut o = o.partial_mut(at, n);
        let w = alloc::watch();
        flags.partial(at, |fl| self.process_block(ctx, fl, &i, &mut o));
        w.end();
    }
    fn apply(&mut self, ctx: &mut AudioCtx, param: usize, v: ParameterValue) {
        let w = alloc::watch();
        self.param_apply(ctx, param, v);
        w.end();
    }
}
/// Process n frames of an initialised UGen, starting at the absolute frame `t0`.
pub fn run_from<T: UGen>(
    u: &mut T,
    ctx: &mut AudioCtx,
    div: &Div,
    t0: usize,
    n: usize,
    input: &[Vec<f64>],
    changes: &[Change],
) -> Result<Trace, Violation> {
    drive::<T::Sample>(u, (T::Inputs::USIZE, T::Outputs::USIZE), ctx, div, t0, n, input, changes)
}
#[allow(clippy::too_many_arguments)]
fn drive<F: Float>(
    u: &mut dyn Drive<F>,
    (ni, no): (usize, usize),
    ctx: &mut AudioCtx,
    div: &Div,
    t0: usize,
    n: usize,
    input: &[Vec<f64>],
    changes: &[Change],
) -> Result<Trace, Violation> {
    let mut tr = Trace { out: vec![vec![0.0; n]; no], ..Default::default() };
    ensure!(input.len() >= ni, "harness", "harness: {} inputs given, {ni} needed", input.len());
    let f_of = |c: usize, f: usize| -> F { F::new(input[c][f]) };
    match div {
        Div::Frames => {
            let mut ci = 0;
            let (mut fin, mut fout) = (vec![F::ZERO; ni], vec![F::ZERO; no]);
            for f in 0..n {
                let mut b = BlockMetadata::new(1);
                b.set_frame_clock((t0 + f) as u64);
                ctx.block = b;
                while ci < changes.len() && changes[ci].frame <= f {
                    u.apply(ctx, changes[ci].param, changes[ci].value);
                    ci += 1;
                }
                let mut flags = UGenFlags::new();
                flags.mark_remove_self_supported();
                for c in 0..ni {
                    fin[c] = f_of(c, f);
                }
                u.frame(ctx, &mut flags, &fin[..ni], &mut fout[..no]);
                for c in 0..no {
                    tr.out[c][f] = fout[c].to_f64();
                }
                if let Some(d) = flags.done() {
                    tr.done.push((t0 + f) as u64 + d as u64);
                    tr.done_from.push((t0 + f) as u64);
                }
                if let Some(d) = flags.remove_graph() {
                    tr.parent.push((t0 + f) as u64 + d as u64);
                    tr.parent_from.push((t0 + f) as u64);
                }
                tr.remove_self |= flags.remove_self();
            }
        }
        Div::Blocks(_) | Div::Parts(..) => {
            let (bs, mut cuts): (usize, Vec<usize>) = match div {
                Div::Blocks(b) => (*b, vec![]),
                Div::Parts(b, c) => (*b, c.clone()),
                _ => unreachable!(),
            };
            cuts.sort();
            ensure!(n % bs == 0, "harness", "harness: {n} frames are not whole blocks of {bs}");
            let mut ci = 0;
            for b in 0..n / bs {
                let base = b * bs;
                let mut inb = VecBlock::<F>::new(ni, bs);
                let mut outb = VecBlock::<F>::new(no, bs);
                for c in 0..ni {
                    for f in 0..bs {
                        inb.write(f_of(c, base + f), c, f);
                    }
                }
                // Every other block also has the last output in some frames, as memory that is used
                // again has.
                let pre = |last: f64, f: usize| if b % 2 == 1 && f % 3 == 0 { last } else { SENTINEL };
                let last: Vec<f64> = (0..no).map(|c| if b > 0 { tr.out[c][base - 1] } else { SENTINEL }).collect();
                for c in 0..no {
                    for f in 0..bs {
                        outb.write(F::new(pre(last[c], f)), c, f);
                    }
                }
                let mut whole = BlockMetadata::new(bs);
                whole.set_frame_clock((t0 + base) as u64);
                let mut pts: Vec<usize> =
                    cuts[cuts.partition_point(|c| *c <= base)..cuts.partition_point(|c| *c < base + bs)]
                        .iter()
                        .map(|c| c - base)
                        .collect();
                pts.push(0);
                pts.push(bs);
                pts.sort();
                pts.dedup();
                let mut flags = UGenFlags::new();
                flags.mark_remove_self_supported();
                for w in pts.windows(2) {
                    let (s, e) = (w[0], w[1]);
                    ctx.block = if s == 0 && e == bs { whole } else { whole.make_partial(s, e - s) };
                    while ci < changes.len() && changes[ci].frame <= base + s {
                        u.apply(ctx, changes[ci].param, changes[ci].value);
                        ci += 1;
                    }
                    if s == 0 && e == bs {
                        u.block(ctx, &mut flags, &inb, &mut outb);
                    } else {
                        u.part(ctx, &mut flags, &inb, &mut outb, s, e - s);
                    }
                    for c in 0..no {
                        for f in 0..bs {
                            let v = outb.read(c, f).to_f64();
                            let p = pre(last[c], f);
                            if f >= e {
                                ensure!(
                                    v == p || (v.is_nan() && p.is_nan()),
                                    "partial-overrun",
                                    "asked for frames {s}..{e} of a block of {bs}, channel {c} frame {f} was written"
                                );
                            } else if f >= s {
                                ensure!(
                                    v != SENTINEL,
                                    "partial-missing",
                                    "asked for frames {s}..{e} of a block of {bs}, channel {c} frame {f} was not written"
                                );
                                tr.out[c][base + f] = v;
                            } else {
                                let w = tr.out[c][base + f];
                                ensure!(
                                    w == v || (w.is_nan() && v.is_nan()),
                                    "partial-overrun",
                                    "asked for frames {s}..{e} of a block of {bs}, channel {c} frame {f} was changed"
                                );
                            }
                        }
                    }
                }
                if let Some(d) = flags.done() {
                    tr.done.push((t0 + base) as u64 + d as u64);
                }
                if let Some(d) = flags.remove_graph() {
                    tr.parent.push((t0 + base) as u64 + d as u64);
                }
                tr.remove_self |= flags.remove_self();
            }
        }
    }
    Ok(tr)
}
/// Init and process n frames.
pub fn run<T: UGen>(
    u: &mut T,
    sr: u32,
    div: &Div,
    n: usize,
    input: &[Vec<f64>],
    changes: &[Change],
) -> Result<Trace, Violation> {
    let bs = match div {
        Div::Frames => 1,
        Div::Blocks(b) | Div::Parts(b, _) => *b,
    };
    let mut c = ctx(sr, bs);
    u.init(sr, bs);
    run_from(u, &mut c, div, 0, n, input, changes)
}
/// One frame through a UGen that was initialised.
pub fn tick<T: UGen>(u: &mut T, ctx: &mut AudioCtx, ins: &[f64]) -> (Vec<f64>, Option<u32>) {
    let mut flags = UGenFlags::new();
    let mut i = Frame::<T::Sample, T::Inputs>::default();
    for c in 0..T::Inputs::USIZE {
        i[c] = T::Sample::new(ins[c]);
    }
    let o = u.process(ctx, &mut flags, i);
    let f = ctx.block.frame_clock();
    ctx.block.set_frame_clock(f + 1);
    ((0..T::Outputs::USIZE).map(|c| o[c].to_f64()).collect(), flags.done())
}
pub fn eps<F: Float>() -> f64 {
    if std::mem::size_of::<F>() == 4 { 2e-5 } else { 1e-10 }
}
pub fn is32<F: Float>() -> bool {
    std::mem::size_of::<F>() == 4
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
pub fn same(what: &str, key: &str, a: &Trace, b: &Trace, tol: f64) -> Res {
    for c in 0..a.out.len() {
        for f in 0..a.out[c].len() {
            if !close(a.out[c][f], b.out[c][f], tol) {
                bail!(key, "{what}: channel {c} frame {f}: {} and {}", a.out[c][f], b.out[c][f]);
            }
        }
    }
    Ok(())
}
pub fn noise(rng: &mut Rng, ch: usize, n: usize) -> Vec<Vec<f64>> {
    (0..ch).map(|_| (0..n).map(|_| rng.uniform(-1.0, 1.0) as f32 as f64).collect()).collect()
}
/// Random cut points
pub fn cuts(rng: &mut Rng, n: usize, bs: usize) -> Vec<usize> {
    let k = rng.below(1 + 3 * n.div_ceil(bs));
    let mut v: Vec<usize> = (0..k).map(|_| rng.below(n)).collect();
    v.sort();
    v.dedup();
    v
}

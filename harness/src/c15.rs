//! C15: output does not depend on how time is divided into blocks.
use crate::catalog::{self, Visit};
use crate::common::*;
use crate::dsp::{self, Change, Div, Trace};
use crate::{bail, ensure};
use knaster_core::typenum::bit::B1;
use knaster_core::typenum::*;
use knaster_core::{Block, Float, ParameterSmoothing, ParameterType, ParameterValue, Rate, Size, UGen};
use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
use knaster_graph::Time;
use knaster_graph::graph::NodeOrGraph;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use std::ops::Add;

/// Frames in a run; a multiple of every block size used.
const N: usize = 768;
const SIZES: [usize; 10] = [1, 2, 3, 4, 8, 16, 32, 64, 128, 256];

struct Plan {
    sr: u32,
    input: Vec<Vec<f64>>,
    changes: Vec<Change>,
}
fn changes_for<U: UGen>(c: &mut Case, name: &str, sr: u32) -> Vec<Change> {
    let hints = U::param_hints();
    let names = U::param_descriptions();
    let n = names.len();
    let mut ch: Vec<Change> = vec![];
    if n > 0 {
        // sometimes none, sometimes only at the start, mostly anywhere
        let k = *c.rng.pick(&[0usize, 1, 3, 6, 12]);
        let start = c.rng.chance(1, 4);
        for _ in 0..k {
            let i = c.rng.below(n);
            let f = if start { 0 } else { c.rng.below(N) };
            ch.push(Change { frame: f, param: i, value: catalog::legal(&mut c.rng, name, names[i], &hints[i], sr) });
        }
        ch.sort_by_key(|c| c.frame);
    }
    ch
}
/// A division in which every change is at the start of a block or part
fn division(c: &mut Case, changes: &[Change]) -> Div {
    let at: Vec<usize> = changes.iter().map(|c| c.frame).collect();
    for _ in 0..3 {
        let bs = *c.rng.pick(&SIZES);
        if c.rng.chance(1, 2) && at.iter().all(|f| f % bs == 0) {
            return Div::Blocks(bs);
        }
    }
    let bs = *c.rng.pick(&SIZES[1..]);
    let mut cuts = if c.rng.chance(1, 3) { vec![] } else { dsp::cuts(&mut c.rng, N, bs) };
    if c.rng.chance(1, 6) {
        // one long part and a part of one frame in each block
        cuts = (0..N / bs).map(|b| b * bs + bs - 1).collect();
    }
    cuts.extend(&at);
    cuts.sort();
    cuts.dedup();
    Div::Parts(bs, cuts)
}
/// The reports a division should make: the first one made in each block.
fn firsts(marks: &[u64], from: &[u64], div: &Div) -> Vec<u64> {
    let bs = match div {
        Div::Frames => 1,
        Div::Blocks(b) | Div::Parts(b, _) => *b,
    } as u64;
    let mut v: Vec<u64> = vec![];
    let mut last = u64::MAX;
    for (m, f) in marks.iter().zip(from) {
        if last != f / bs {
            v.push(*m);
            last = f / bs;
        }
    }
    v
}
fn compare(what: &str, div: &Div, got: &Trace, want: &Trace, tol: f64) -> Res {
    for ch in 0..want.out.len() {
        for f in 0..N {
            let (a, b) = (got.out[ch][f], want.out[ch][f]);
            if !dsp::close(a, b, tol) {
                let d = match div {
                    Div::Frames => "single frames".to_string(),
                    Div::Blocks(b) => format!("blocks of {b}"),
                    Div::Parts(b, c) => {
                        let base = f - f % b;
                        let c: Vec<usize> = c.iter().filter(|x| **x > base && **x < base + b).map(|x| x - base).collect();
                        format!("blocks of {b}, this one split at {c:?}")
                    }
                };
                bail!("division", "{what}: channel {ch} frame {f} is {a} in {d} and {b} frame by frame");
            }
        }
    }
    let w = firsts(&want.done, &want.done_from, div);
    ensure!(got.done == w, "division-done", "{what}: done at {:?} instead of {w:?}", got.done);
    let w = firsts(&want.parent, &want.parent_from, div);
    ensure!(got.parent == w, "division-done", "{what}: parent removal at {:?} instead of {w:?}", got.parent);
    ensure!(got.remove_self == want.remove_self, "division-done", "{what}: removal of itself {} instead of {}", got.remove_self, want.remove_self);
    Ok(())
}
fn divided<W: UGen>(c: &mut Case, what: &str, make: &dyn Fn() -> W, p: &Plan, tol: f64) -> Res {
    let want = dsp::run(&mut make(), p.sr, &Div::Frames, N, &p.input, &p.changes)?;
    for _ in 0..3 {
        let d = division(c, &p.changes);
        let got = dsp::run(&mut make(), p.sr, &d, N, &p.input, &p.changes)?;
        compare(what, &d, &got, &want, tol)?;
        c.count("divisions compared", 1);
    }
    c.count("frames compared", 3 * N as u64);
    if want.out.iter().any(|ch| ch.iter().any(|x| *x != ch[0])) {
        c.nontrivial();
    }
    Ok(())
}
fn tolerance<F: Float>(name: &str) -> f64 {
    if catalog::seeded_by_counter(name) { 1e-5 } else { 0.0 * dsp::eps::<F>() }
}

pub struct Bare<'a> {
    pub c: &'a mut Case,
}
impl<F: Float> Visit<F> for Bare<'_> {
    fn visit<U>(&mut self, name: &'static str, make: &dyn Fn() -> U) -> Res
    where
        U: UGen<Sample = F> + Send + 'static,
        U::Parameters: Add<B1>,
        Add1<U::Parameters>: Size + Add<B1>,
        Add1<Add1<U::Parameters>>: Size,
    {
        let c = &mut *self.c;
        let sr = *c.rng.pick(&[22050u32, 44100, 48000, 96000]);
        let p = Plan { sr, input: dsp::noise(&mut c.rng, U::Inputs::USIZE, N), changes: changes_for::<U>(c, name, sr) };
        c.note(format!("{name} {sr} {:?} #{}", p.changes, c.index));
        divided(c, name, make, &p, tolerance::<F>(name))
    }
}
pub struct Wrapped<'a> {
    pub c: &'a mut Case,
}
impl<F: Float> Visit<F> for Wrapped<'_> {
    fn visit<U>(&mut self, name: &'static str, make: &dyn Fn() -> U) -> Res
    where
        U: UGen<Sample = F> + Send + 'static,
        U::Parameters: Add<B1>,
        Add1<U::Parameters>: Size + Add<B1>,
        Add1<Add1<U::Parameters>>: Size,
    {
        let c = &mut *self.c;
        let sr = *c.rng.pick(&[22050u32, 44100, 48000, 96000]);
        let mut changes = changes_for::<U>(c, name, sr);
        let input = dsp::noise(&mut c.rng, U::Inputs::USIZE, N);
        let v = F::new(c.rng.uniform(0.25, 2.0));
        // reciprocals blow up the difference between two reverbs
        let k = match c.rng.below(13) {
            3 | 5 | 6 if catalog::seeded_by_counter(name) => 0,
            k => k,
        };
        let tol = tolerance::<F>(name);
        let floats: Vec<usize> =
            U::param_types().iter().enumerate().filter(|t| *t.1 == ParameterType::Float).map(|t| t.0).collect();
        let mut extra = |c: &mut Case, smooth: bool, mul: bool| {
            let mut ch = vec![];
            if smooth && !floats.is_empty() {
                for _ in 0..1 + c.rng.below(3) {
                    let p = *c.rng.pick(&floats);
                    let s = if c.rng.chance(1, 5) { ParameterSmoothing::None } else { ParameterSmoothing::Linear(c.rng.uniform(0.0, 0.02) as f32) };
                    let f = if c.rng.chance(2, 3) { 0 } else { c.rng.below(N) };
                    ch.push(Change { frame: f, param: p, value: ParameterValue::Smoothing(s, Rate::AudioRate) });
                }
            }
            if mul {
                for _ in 0..c.rng.below(4) {
                    let f = c.rng.below(N);
                    ch.push(Change { frame: f, param: U::Parameters::USIZE, value: ParameterValue::Float(c.rng.uniform(-2.0, 2.0)) });
                }
            }
            ch.append(&mut changes);
            ch.sort_by_key(|c| c.frame);
            ch
        };
        macro_rules! go {
            ($n:expr, $smooth:expr, $mul:expr, $w:expr) => {{
                let p = Plan { sr, input, changes: extra(c, $smooth, $mul) };
                let what = format!("{name} in {}", $n);
                c.note(format!("{what} {sr} {:?} #{}", p.changes, c.index));
                divided(c, &what, &|| $w, &p, tol)
            }};
        }
        match k {
            0 => go!("mul", false, true, make().wr_mul(v)),
            1 => go!("add", false, false, make().wr_add(v)),
            2 => go!("sub", false, false, make().wr_sub(v)),
            3 => go!("v_sub", false, false, make().wr_v_sub_gen(v)),
            4 => go!("div", false, false, make().wr_div(v)),
            5 => go!("v_div", false, false, make().wr_v_div_gen(v)),
            6 => go!("powf", false, false, make().wr_powf(v)),
            7 => go!("powi", false, false, make().wr_powi(2)),
            8 => go!("closure", false, false, {
                // a closure with a state of its own, on nodes where the order of calls is fixed
                let mut n = 0.0;
                let multi = U::Outputs::USIZE > 1;
                make().wr(move |x| {
                    n = if multi { 0.0 } else { n * 0.5 + Float::to_f64(x) };
                    x + F::new(n)
                })
            }),
            9 => go!("smooth", true, false, make().smooth_params()),
            10 => go!("ar", false, false, make().ar_params()),
            11 => go!("smooth ar mul", true, true, make().smooth_params().ar_params().wr_mul(v)),
            _ => go!("mul precise", false, true, make().wr_mul(v).precise_timing::<16>()),
        }
    }
}
/// The whole graph at different block sizes, with changes at exact frames.
pub struct InGraph<'a> {
    pub c: &'a mut Case,
}
impl<F: Float> Visit<F> for InGraph<'_> {
    fn visit<U>(&mut self, name: &'static str, make: &dyn Fn() -> U) -> Res
    where
        U: UGen<Sample = F> + Send + 'static,
        U::Parameters: Add<B1>,
        Add1<U::Parameters>: Size + Add<B1>,
        Add1<Add1<U::Parameters>>: Size,
    {
        let c = &mut *self.c;
        let (ni, no) = (U::Inputs::USIZE, U::Outputs::USIZE);
        if ni > 6 || no > 3 {
            return Ok(());
        }
        let sr = *c.rng.pick(&[44100u32, 48000]);
        let mut changes = changes_for::<U>(c, name, sr);
        // one change per frame, so that their order does not matter
        changes.dedup_by_key(|c| c.frame);
        let input = dsp::noise(&mut c.rng, 6, N);
        let gain = F::new(c.rng.uniform(0.25, 2.0));
        c.note(format!("graph {name} {sr} {changes:?} #{}", c.index));
        let render = |bs: usize| -> Result<Vec<Vec<f64>>, Violation> {
            let (mut g, mut ap, _rx) = AudioProcessor::<F>::new::<U6, U3>(AudioProcessorOptions {
                block_size: bs,
                sample_rate: sr,
                ring_buffer_size: 100,
                ..Default::default()
            });
            let id = g.edit(|e| e.push(make().wr_mul(gain).precise_timing::<16>()).id());
            for i in 0..ni {
                if let Err(e) = g.connect2(NodeOrGraph::Graph, i as u16, i as u16, NodeOrGraph::Node(id)) {
                    bail!("valid-refused", "{e}");
                }
            }
            for o in 0..no {
                if let Err(e) = g.connect2(NodeOrGraph::Node(id), o as u16, o as u16, NodeOrGraph::Graph) {
                    bail!("valid-refused", "{e}");
                }
            }
            g.edit(|_| {});
            for ch in &changes {
                let at = knaster_graph::Seconds::from_samples(ch.frame as u64, sr as u64);
                if let Err(e) = g.set(id, ch.param, ch.value, Time::at(at)) {
                    bail!("valid-refused", "{e}");
                }
            }
            let mut out = vec![vec![]; no];
            for b in 0..N / bs {
                let ins: Vec<Vec<F>> =
                    input.iter().map(|c| c[b * bs..(b + 1) * bs].iter().map(|x| F::new(*x)).collect()).collect();
                let slices: Vec<&[F]> = ins.iter().map(|v| &v[..]).collect();
                crate::probe::run_any(&mut ap, &slices);
                for (o, out) in out.iter_mut().enumerate() {
                    for f in 0..bs {
                        out.push(Float::to_f64(Block::read(&ap.output_block(), o, f)));
                    }
                }
            }
            Ok(out)
        };
        let want = render(1)?;
        for _ in 0..2 {
            let bs = *c.rng.pick(&SIZES[1..]);
            let got = render(bs)?;
            for ch in 0..no {
                for f in 0..N {
                    ensure!(
                        dsp::close(got[ch][f], want[ch][f], tolerance::<F>(name)),
                        "division-graph",
                        "{name} in a graph: channel {ch} frame {f} is {} at block size {bs} and {} at block size 1",
                        got[ch][f],
                        want[ch][f]
                    );
                }
            }
            c.count("graphs compared", 1);
        }
        c.nontrivial();
        Ok(())
    }
}

pub fn run_check(r: &mut Run) {
    r.rule = "(bare) every node of the library with random legal changes at random frames and noise as input, processed frame by frame and in three random divisions of the same time into whole blocks and partial blocks: all samples equal, completion reported for the same frames, partial processing writes exactly its frames; (wrapped) the same in stacks of wrappers with audio-rate smoothing and changes of the wrappers' parameters; (graph) whole graphs at block size 1 and others with the changes scheduled at exact frames; distinct by node, configuration and changes".into();
    r.assumptions = vec![
        "block-rate smoothing is defined in terms of blocks and left out".into(),
        "the reverb is compared to 1e-5 as its dither differs between instances, everything else exactly".into(),
    ];
    let n = r.n(30_000, 1_000_000);
    macro_rules! both {
        ($a:expr, $b:expr, $v:ident) => {
            r.cases($a, n, |c| {
                let i = c.index % catalog::COUNT;
                let mut rng = Rng::new(c.rng.next());
                catalog::pick::<f32, _>(i, &mut rng, &mut $v { c })
            });
            r.cases($b, n, |c| {
                let i = c.index % catalog::COUNT;
                let mut rng = Rng::new(c.rng.next());
                catalog::pick::<f64, _>(i, &mut rng, &mut $v { c })
            });
        };
    }
    both!("bare32", "bare64", Bare);
    both!("wrapped32", "wrapped64", Wrapped);
    both!("graph32", "graph64", InGraph);
}

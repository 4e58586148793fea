//! C07: no undefined behaviour, no data races. The oracle is the sanitizer this was built with
//! (address or thread sanitizer), or the interpreter it runs in (Miri); see c07.sh.
use crate::catalog;
use crate::common::*;
use crate::tree;
use crate::world;
use knaster_core::log::ArLogSender;
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::{
    AudioCtx, Block, BlockMetadata, BlockRead, Float, Frame, ParameterHint, ParameterValue, Seconds, UGen, UGenFlags,
};
use knaster_core_dsp::delay::SampleDelay;
use knaster_core_dsp::dsp::buffer::Buffer;
use knaster_core_dsp::dsp::wavetable::{NonAaWavetable, TABLE_SIZE, Wavetable, WavetablePhase};
use knaster_core_dsp::osc::SinWt;
use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
use knaster_graph::Time;
use knaster_graph::graph::{NodeId, NodeOrGraph};
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};

/// Only the sanitizer has a say here.
fn under(c: &mut Case, f: impl FnOnce(&mut Case) -> Res) -> Res {
    match guarded(|| f(c)) {
        Err(e) => {
            if std::env::var("KVERIF_PANICS").is_ok() {
                eprintln!("panic: {e}");
            }
            c.count("workloads that panicked", 1)
        }
        Ok(Err(_)) => c.count("workloads cut short by another check's oracle", 1),
        Ok(Ok(())) => c.nontrivial(),
    }
    Ok(())
}
macro_rules! both {
    ($c:expr, $f:ident $(, $a:expr)*) => {
        if $c.rng.chance(1, 2) { $f::<f32>($c $(, $a)*) } else { $f::<f64>($c $(, $a)*) }
    };
}
pub fn run_check(r: &mut Run) {
    let part = std::env::var("KVERIF_PART").unwrap_or_else(|_| "plain".into());
    r.assumptions = vec![
        "compiled without debug assertions and overflow checks, as a user's release build is".into(),
        "panics in the workloads are contained and counted: they are another property's business".into(),
        "the sanitizers see the executions that were run, on the memory model of x86-64; the interpreter also simulates weaker orderings".into(),
    ];
    r.rule = match part.as_str() {
        "tsan" => "control threads, handle threads, log receivers and the audio thread running at once on graphs of library nodes, on graphs of probes, on queues of changes and on log channels, every access watched by the thread sanitizer",
        "miri" => "short versions of the workloads of the other parts interpreted: uninitialised memory, aliasing, alignment, out of bounds, use after free and data races with simulated weak memory",
        _ => "random histories of edits, links, drops, subgraphs, parameter changes, logs and hostile values, library nodes alone and in graphs, nodes that misuse everything they are given, every access watched by the address sanitizer; distinct by history",
    }
    .into();
    match part.as_str() {
        "plain" | "asan" => memory(r),
        "tsan" => races(r),
        "miri" => interpreted(r),
        p => panic!("harness: unknown part {p}"),
    }
}
fn memory(r: &mut Run) {
    let n = r.n(1500, 60_000);
    r.cases("edits", n, |c| {
        under(c, |c| match c.rng.below(3) {
            0 => both!(c, raw, false),
            1 => both!(c, raw, true),
            _ => both!(c, closure),
        })
    });
    r.cases("links", n, |c| under(c, |c| both!(c, links)));
    r.cases("drops", n, |c| {
        under(c, |c| if c.rng.chance(1, 2) { both!(c, drops) } else { both!(c, drops_tree) })
    });
    let cfgs = [tree::cfg(true, true, true, 0), tree::cfg(true, true, true, 5), tree::cfg(false, true, true, 6)];
    r.cases("trees", n, |c| {
        let cfg = c.rng.pick(&cfgs).clone();
        under(c, |c| both!(c, trees, &cfg))
    });
    r.cases("changes", n, |c| {
        under(c, |c| if c.rng.chance(1, 2) { crate::params::ledger(c) } else { crate::params::due(c) })
    });
    r.cases("logs", n, |c| under(c, |c| if c.rng.chance(1, 2) { crate::c18::graph(c) } else { crate::c18::model(c) }));
    r.cases("nodes", r.n(3000, 100_000), |c| {
        let i = c.index % catalog::COUNT;
        let mut rng = Rng::new(c.rng.next());
        under(c, |c| match c.rng.below(2) {
            0 => catalog::pick::<f32, _>(i, &mut rng, &mut crate::c15::Bare { c }),
            _ => catalog::pick::<f64, _>(i, &mut rng, &mut crate::c15::Bare { c }),
        })
    });
    r.cases("library", r.n(6000, 200_000), |c| under(c, |c| world::alone::<f32>(c, false)));
    r.cases("hostile", r.n(6000, 200_000), |c| under(c, |c| world::alone::<f32>(c, true)));
    r.cases("rogue", n, |c| under(c, |c| both!(c, rogue, 30)));
    r.cases("large", r.n(150, 4000), |c| under(c, |c| both!(c, large)));
    r.cases("backlog", r.n(600, 20_000), |c| under(c, |c| both!(c, backlog)));
    r.cases("direct", r.n(200, 5000), |c| under(c, |c| both!(c, direct)));
    r.cases_t("threads", r.n(20, 400), 2, |c| under(c, |c| {
        let h = c.rng.chance(1, 2);
        world::threads::<f32>(c, h, 2000);
        Ok(())
    }));
}
fn large<F: Float>(c: &mut Case) -> Res {
    let fb = c.rng.chance(1, 2);
    crate::c01::large::<F>(c, fb)
}
fn backlog<F: Float>(c: &mut Case) -> Res {
    crate::c02::backlog::<F>(c)
}
/// A node that does everything it can with what it is given.
struct Rogue<F> {
    mode: usize,
    n: usize,
    _f: std::marker::PhantomData<F>,
}
impl<F: Float> Rogue<F> {
    fn meddle(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) {
        let big = [0, 1, 7, 64, 1000, 100_000][self.n % 6];
        match self.mode {
            0 => *ctx = AudioCtx::new(ctx.sample_rate(), big, ArLogSender::non_rt()),
            1 => ctx.block = BlockMetadata::new(big),
            2 => ctx.block = ctx.block.make_partial(big, big / 2),
            3 => ctx.block.set_frame_clock(u64::MAX - big as u64),
            4 => flags.mark_remove_parent(big as u32),
            5 => flags.mark_done(u32::MAX),
            6 => {
                let other = AudioCtx::new(1, big, ArLogSender::non_rt());
                let mine = std::mem::replace(ctx, other);
                drop(mine);
            }
            _ => {}
        }
        self.n += 1;
    }
}
impl<F: Float> UGen for Rogue<F> {
    type Sample = F;
    type Inputs = U2;
    type Outputs = U2;
    type Parameters = U1;
    fn init(&mut self, _: u32, _: usize) {}
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, i: Frame<F, U2>) -> Frame<F, U2> {
        self.meddle(ctx, flags);
        i
    }
    fn process_block<I, O>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &I, output: &mut O)
    where
        I: BlockRead<Sample = F> + ?Sized,
        O: Block<Sample = F> + ?Sized,
    {
        let (ch, fr) = ([0, 1, 2, 3, 200][self.n % 5], [0, 1, 15, 16, 4000, usize::MAX][self.n % 6]);
        let n = ctx.block_size();
        match self.mode {
            7 => output.write(input.read(ch, fr), 0, 0),
            8 => output.write(F::ONE, ch, fr),
            9 => {
                output.channel_as_slice_mut(ch)[fr % n] = F::ONE;
            }
            10 => {
                let x = input.channel_as_slice(ch)[fr % n];
                output.write(x, 1, 0);
            }
            11 => {
                let x = output.channel_as_slice(ch)[fr % n] + output.read(ch, fr);
                output.write(x, 1, 0);
            }
            12 => {
                for (c, s) in output.iter_mut().enumerate() {
                    s.fill(F::new(c as f64));
                }
            }
            _ => {}
        }
        self.meddle(ctx, flags);
    }
    fn param_hints() -> NumericArray<ParameterHint, U1> {
        [ParameterHint::infinite_float()].into()
    }
    fn param_apply(&mut self, ctx: &mut AudioCtx, _: usize, _: ParameterValue) {
        let mut f = UGenFlags::new();
        self.meddle(ctx, &mut f);
    }
}
/// Rogue nodes among others: whatever they do, and whatever panics come of it, the memory of the
/// graph stays as it should. Also inputs of the wrong number and length.
fn rogue<F: Float>(c: &mut Case, blocks: usize) -> Res {
    let bs = c.rng.block(&[1usize, 2, 16, 64]);
    let (mut g, mut p, rx) = AudioProcessor::<F>::new::<U2, U2>(AudioProcessorOptions {
        block_size: bs,
        sample_rate: 48000,
        ring_buffer_size: 20,
        ..Default::default()
    });
    let n = 1 + c.rng.below(3);
    let mut all: Vec<NodeId> = vec![];
    for _ in 0..n {
        let mode = c.rng.below(13);
        c.note(format!("rogue {mode} bs {bs}"));
        let r = Rogue { mode, n: c.rng.below(100), _f: std::marker::PhantomData };
        let wrap = c.rng.below(4);
        let f = |s: f64| F::new(s);
        let (a, b) = (f(c.rng.uniform(20.0, 900.0)), f(c.rng.uniform(1.0, 3.0)));
        g.edit(|g| {
            let r = match wrap {
                0 => g.push(r).id(),
                1 => g.push(r.wr_mul(F::ONE)).id(),
                2 => g.push(r.ar_params().precise_timing::<4>()).id(),
                _ => g.push(r.smooth_params()).id(),
            };
            let s = g.push(SinWt::new(a));
            let m = g.push(SinWt::new(b).ar_params().precise_timing::<4>());
            let d = g.push(SampleDelay::<F>::new(Seconds::from_secs_f64(0.02)).ar_params());
            m.link("freq", s.out([0]));
            d.link("delay_time", m.out([0]));
            (m * s >> d).to_graph_out();
            all.extend([r, s.id(), m.id(), d.id()]);
        });
        for ch in 0..2u16 {
            let to = g.connect2(NodeOrGraph::Graph, ch, ch, NodeOrGraph::Graph);
            let _ = to;
        }
        // the rogue runs somewhere between the others
        for _ in 0..6 {
            let (x, y) = (*c.rng.pick(&all), *c.rng.pick(&all));
            let (o, i) = (c.rng.below(2) as u16, c.rng.below(2) as u16);
            let _ = guarded(|| g.connect2(NodeOrGraph::Node(x), o, i, NodeOrGraph::Node(y)));
        }
    }
    let _ = guarded(|| g.edit(|_| {}));
    let whole: Vec<Vec<F>> = (0..3).map(|k| vec![F::new(k as f64); bs]).collect();
    let mut panics = 0;
    for b in 0..blocks {
        if !all.is_empty() && c.rng.chance(1, 3) {
            let id = *c.rng.pick(&all);
            let v = ParameterValue::Float(c.rng.uniform(-1e3, 1e3));
            let at = [Time::asap(), Time::at(Seconds::from_samples((b * bs) as u64 + 1, 48000))][c.rng.below(2)];
            let _ = guarded(|| g.set(id, 0, v, at));
        }
        if !all.is_empty() && c.rng.chance(1, 6) {
            let id = *c.rng.pick(&all);
            let _ = guarded(|| g.edit(|_| {}));
            let _ = guarded(|| g.disconnect_output_from_source(NodeOrGraph::Node(id), c.rng.below(2) as u16));
            let _ = guarded(|| g.edit(|_| {}));
        }
        let k = c.rng.below(10);
        let ok = guarded(|| match k {
            // too many, too few, too short
            0 => p.run(&[&whole[0], &whole[1], &whole[2]]),
            1 => p.run(&[&whole[0]]),
            2 => p.run(&[&whole[0], &whole[1][..bs - 1]]),
            3 => p.run_without_inputs(),
            _ => p.run(&[&whole[0], &whole[1]]),
        });
        panics += ok.is_err() as u64;
        let _ = guarded(|| {
            let o = p.output_block();
            let mut s = F::ZERO;
            for ch in 0..2 {
                for f in 0..bs {
                    s = s + Block::read(&o, ch, f);
                }
            }
            std::hint::black_box(s);
        });
    }
    c.count("blocks with rogue nodes", blocks as u64);
    c.count("panics of rogue nodes contained", panics);
    match c.rng.below(3) {
        0 => drop(p),
        1 => drop(g),
        _ => drop(rx),
    }
    c.nontrivial();
    Ok(())
}
/// The tables and buffers read on their own, at any position.
fn direct<F: Float>(c: &mut Case) -> Res {
    let len = *c.rng.pick(&[0usize, 1, 2, 100, TABLE_SIZE - 1, TABLE_SIZE, TABLE_SIZE + 1]);
    c.note(format!("{len} #{}", c.index));
    let data: Vec<F> = (0..len).map(|i| F::new(i as f64)).collect();
    let mut t = NonAaWavetable::<F>::new();
    let mut x = F::ZERO;
    let _ = guarded(|| t.set_from_buffer(data.clone()));
    let w = guarded(|| Wavetable::<F>::from_buffer(data.clone())).ok().and_then(|w| w.ok());
    let ch = 1 + c.rng.below(3);
    let b = Buffer::<F>::from_vec_interleaved(data.clone(), ch, 44100.0);
    for _ in 0..200 {
        let ph = WavetablePhase(if c.rng.chance(1, 4) { *c.rng.pick(&[0, 1, u32::MAX, 0xffff, 0x10000, 0x3fff_ffff, 0x4000_0000]) } else { c.rng.next() as u32 });
        let f = F::new(*c.rng.pick(&[0.0, 20.0, 440.0, 2e4, 1e9, -1.0, f64::NAN, f64::INFINITY]));
        let i = *c.rng.pick(&[0.0, 1.0, len as f64, len as f64 - 1.0, len as f64 / ch as f64, -1.0, f64::NAN, 1e30, c.index as f64]);
        let k = c.rng.below(5);
        let _ = guarded(|| x = x + t.get(ph));
        let _ = guarded(|| x = x + t.get_linear_interp(ph));
        if let Some(w) = &w {
            let _ = guarded(|| x = x + w.get(ph, f));
            let _ = guarded(|| x = x + w.get_linear_interp(ph, f));
        }
        let _ = guarded(|| x = x + b.get_linear_interp(F::new(i), k));
        let _ = guarded(|| x = x + b.get_linear_interp_f64(i, k));
        let _ = guarded(|| b.get_interleaved(i as usize).iter().for_each(|y| x = x + *y));
    }
    c.count("reads of tables and buffers", 1400);
    std::hint::black_box(x);
    c.nontrivial();
    Ok(())
}
fn races(r: &mut Run) {
    r.cases_t("library", r.n(60, 1500), 2, |c| under(c, |c| {
        let h = c.rng.chance(1, 4);
        world::threads::<f32>(c, h, 1500);
        Ok(())
    }));
    r.cases_t("edits", r.n(20, 400), 2, |c| under(c, |c| both!(c, edits_threads)));
    r.cases_t("changes", r.n(20, 400), 2, |c| under(c, crate::params::threads));
    r.cases_t("logs", r.n(40, 400), 2, |c| under(c, crate::c18::threads));
}
/// The interpreter is some thousand times slower: short histories, one process per core, each with
/// its share of the cases.
fn interpreted(r: &mut Run) {
    let cfgs = [tree::cfg(true, true, true, 0), tree::cfg(true, true, true, 2)];
    r.cases_t("interpreted", r.n(160, 4000), 1, |c| {
        let k = c.index / 8;
        under(c, |c| match k % 10 {
            0 => both!(c, rogue, 4),
            1 => crate::c02::raw_history::<f32>(c, 2, true),
            2 => {
                world::threads::<f32>(c, false, 12);
                Ok(())
            }
            3 => crate::c02::closure_history::<f64>(c, 2),
            4 => crate::c10::history::<f32>(c, 2),
            5 => if c.rng.chance(1, 2) { crate::c05::history::<f32>(c, 2) } else { crate::c05::tree::<f32>(c) },
            6 => tree::history::<f32>(c, &cfgs[c.index % 2]),
            7 => world::alone_n::<f32>(c, true, 25),
            8 => if c.rng.chance(1, 2) { crate::c18::model(c) } else { crate::c18::graph(c) },
            _ => crate::params::ledger(c),
        })
    });
}
fn raw<F: Float>(c: &mut Case, mid: bool) -> Res {
    crate::c02::raw_history::<F>(c, 8, mid)
}
fn closure<F: Float>(c: &mut Case) -> Res {
    crate::c02::closure_history::<F>(c, 8)
}
fn edits_threads<F: Float>(c: &mut Case) -> Res {
    crate::c02::threads::<F>(c)
}
fn links<F: Float>(c: &mut Case) -> Res {
    crate::c10::history::<F>(c, 8)
}
fn drops<F: Float>(c: &mut Case) -> Res {
    crate::c05::history::<F>(c, 8)
}
fn drops_tree<F: Float>(c: &mut Case) -> Res {
    crate::c05::tree::<F>(c)
}
fn trees<F: Float>(c: &mut Case, cfg: &tree::TreeCfg) -> Res {
    tree::history::<F>(c, cfg)
}

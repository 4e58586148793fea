//! C11: smoothed parameters.
use crate::common::*;
use crate::dsp::{self, Change, Div};
use crate::{bail, ensure};
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::{
    AudioCtx, Frame, PInteger, ParameterHint, ParameterSmoothing, ParameterValue, Rate, Seconds, UGen, UGenFlags,
};
use knaster_core_dsp::wrappers_core::{UGenWrapperCoreExt, WrSmoothParams};
use knaster_graph::Time;
use knaster_graph::handle::HandleTrait;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};

/// Outputs the values its parameters have: two floats, an integer, triggers received and a bool.
#[derive(Default)]
struct Show {
    a: [f64; 2],
    int: f64,
    trig: f64,
    boolean: f64,
    /// floats applied to parameters that were not smoothed
    applied: u64,
}
impl UGen for Show {
    type Sample = f64;
    type Inputs = U0;
    type Outputs = U5;
    type Parameters = U5;
    fn init(&mut self, _: u32, _: usize) {}
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f64, U0>) -> Frame<f64, U5> {
        [self.a[0], self.a[1], self.int, self.trig, self.boolean].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U5> {
        [
            ParameterHint::new_float(|h| h),
            ParameterHint::new_float(|h| h),
            ParameterHint::new_integer((PInteger(0), PInteger(1000)), |h| h),
            ParameterHint::Trigger,
            ParameterHint::Bool,
        ]
        .into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U5> {
        ["a", "b", "int", "trig", "bool"].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) {
        match (i, v) {
            (0 | 1, ParameterValue::Float(f)) => {
                self.a[i] = f;
                self.applied += 1;
            }
            (_, ParameterValue::Integer(n)) => self.int += n.0 as f64,
            (_, ParameterValue::Trigger) => self.trig += 1.0,
            (_, ParameterValue::Bool(b)) => self.boolean = if b { 1.0 } else { -1.0 },
            _ => self.int = f64::NAN,
        }
    }
}

#[derive(Clone, Debug)]
struct Ramp {
    /// what it may start from; one value once the first step was seen
    starts: Vec<f64>,
    end: f64,
    d: usize,
    e: usize,
    rate: Rate,
    done: bool,
}
impl Ramp {
    fn at(&self, s: f64) -> f64 {
        if self.e >= self.d { self.end } else { s + (self.end - s) * self.e as f64 / self.d as f64 }
    }
}
/// The model of one smoothed parameter; what is left open is settled by the first value seen.
#[derive(Clone, Debug)]
struct Par {
    ramp: Option<Ramp>,
    /// values it may have while not ramping
    hold: Vec<f64>,
    /// the value seen last
    last: f64,
}
fn tol(a: f64, b: f64) -> f64 {
    1e-9 * (1.0 + a.abs() + b.abs())
}
impl Par {
    fn new() -> Self {
        Par { ramp: None, hold: vec![0.0], last: 0.0 }
    }
    /// where it may be said to be now
    fn reached(&self) -> Vec<f64> {
        match &self.ramp {
            // a change without duration is immediate
            Some(r) if !r.done && r.d == 0 => vec![r.end],
            Some(r) if !r.done => {
                let mut v = vec![self.last];
                v.extend(r.starts.iter().map(|s| r.at(*s)));
                v
            }
            _ => self.hold.clone(),
        }
    }
    fn smoothing(&mut self, d: Option<usize>, rate: Rate) {
        match d {
            None => {
                if let Some(r) = &self.ramp {
                    if !r.done {
                        // mid-ramp: it stays where it is or goes to the target
                        let mut h = self.reached();
                        if r.d > 0 {
                            h.push(r.end);
                        }
                        self.hold = h;
                    }
                    self.ramp = None;
                }
            }
            Some(d) => {
                let starts = self.reached();
                let (end, done) = match &self.ramp {
                    Some(r) => (r.end, r.done),
                    None => (f64::NAN, true),
                };
                self.ramp = Some(Ramp { starts, end, d, e: 0, rate, done });
            }
        }
    }
    fn set(&mut self, v: f64) {
        let starts = self.reached();
        match &mut self.ramp {
            None => {
                self.hold = vec![v];
                self.last = v;
            }
            Some(r) => *r = Ramp { starts, end: v, e: 0, done: false, ..r.clone() },
        }
    }
    /// A part of `out.len()` frames is processed and gives these values.
    fn part(&mut self, out: &[f64], c: &mut Case) -> Res {
        let Some(r) = &mut self.ramp else {
            return self.steady(out);
        };
        if r.done {
            return self.steady(out);
        }
        let mut i = 0;
        while i < out.len() {
            let x = out[i];
            let step = match r.rate {
                Rate::BlockRate => out.len(),
                Rate::AudioRate => 1,
            };
            let before = self.last;
            let Some(s) = r.starts.iter().copied().find(|s| (r.at(*s) - x).abs() <= tol(*s, r.end)) else {
                bail!(
                    "ramp",
                    "value {x} after {before}, expected {:?} ({} of {} frames towards {} at {:?})",
                    r.starts.iter().map(|s| r.at(*s)).collect::<Vec<_>>(),
                    r.e,
                    r.d,
                    r.end,
                    r.rate
                );
            };
            // it starts from what was seen, which may differ in the last digit
            let s = if r.e == 0 && r.d > 0 { x } else { s };
            r.starts = vec![s];
            let (lo, hi) = (s.min(r.end), s.max(r.end));
            ensure!(x >= lo && x <= hi, "overshoot", "value {x} outside of {s}..{} ", r.end);
            if r.e > 0 {
                ensure!(if r.end >= s { x >= before } else { x <= before }, "monotonic", "value {x} after {before} on the way to {}", r.end);
            }
            if r.e >= r.d {
                ensure!(x == r.end, "target", "ramp ends on {x}, target {}", r.end);
            }
            for y in &out[i..i + step] {
                ensure!(*y == x, "step", "value changes from {x} to {y} within a step");
            }
            self.last = x;
            i += step;
            c.count("ramp steps compared", 1);
            if r.e >= r.d {
                r.done = true;
                self.hold = vec![r.end];
                c.count("ramps completed", 1);
                let rest = out[i..].to_vec();
                return self.steady(&rest);
            }
            r.e = (r.e + step).min(r.d);
        }
        Ok(())
    }
    fn steady(&mut self, out: &[f64]) -> Res {
        if out.is_empty() {
            return Ok(());
        }
        let x = out[0];
        let ok = self.hold.iter().any(|h| *h == x || (self.hold.len() > 1 && (h - x).abs() <= tol(*h, x)));
        ensure!(ok, "steady", "value {x}, expected {:?} without a ramp", self.hold);
        // where a removed ramp may be continued from is still open
        if self.hold.len() == 1 {
            self.hold = vec![x];
        }
        for y in out {
            ensure!(*y == x, "steady", "value changes from {x} to {y} without a ramp");
        }
        self.last = x;
        Ok(())
    }
}

#[derive(Clone, Debug)]
enum Do {
    Smooth(usize, Option<usize>, Rate, f32),
    Set(usize, f64),
    Int(usize, i64),
    Trig(usize),
    Bool(usize, bool),
}
fn random_do(c: &mut Case, sr: u32) -> Do {
    let p = c.rng.below(2);
    let r = if c.rng.chance(1, 2) { Rate::AudioRate } else { Rate::BlockRate };
    match c.rng.below(12) {
        0..=2 => {
            let d = match c.rng.below(6) {
                0 => 0,
                1 => 1 + c.rng.below(4),
                2 => 100 + c.rng.below(1000),
                _ => 1 + c.rng.below(64),
            };
            // a little more than d frames, so that rounding does not matter
            let s = if d == 0 { 0.0 } else { ((d as f64 + 0.3) / sr as f64) as f32 };
            Do::Smooth(p, Some(d), r, s)
        }
        3 => Do::Smooth(p, None, r, 0.0),
        4 => Do::Int(c.rng.below(5), c.rng.range(0, 9)),
        5 => Do::Trig(c.rng.below(5)),
        6 => Do::Bool(c.rng.below(5), c.rng.chance(1, 2)),
        _ => Do::Set(
            p,
            match c.rng.below(8) {
                0 => 0.0,
                1 => c.rng.range(-5, 5) as f64,
                2 => c.rng.uniform(-1e6, 1e6),
                3 => c.rng.uniform(-1e-6, 1e-6),
                _ => c.rng.uniform(-10.0, 10.0),
            },
        ),
    }
}
fn change(d: &Do, f: usize) -> Change {
    match d {
        Do::Smooth(p, Some(_), r, s) => dsp::ch(f, *p, ParameterValue::Smoothing(ParameterSmoothing::Linear(*s), *r)),
        Do::Smooth(p, None, r, _) => dsp::ch(f, *p, ParameterValue::Smoothing(ParameterSmoothing::None, *r)),
        Do::Set(p, v) => dsp::ch(f, *p, *v),
        Do::Int(p, v) => dsp::ch(f, *p, ParameterValue::Integer(PInteger(*v as _))),
        Do::Trig(p) => dsp::ch(f, *p, ParameterValue::Trigger),
        Do::Bool(p, b) => dsp::ch(f, *p, *b),
    }
}
struct Model {
    p: [Par; 2],
    other: [f64; 3],
}
impl Model {
    fn new() -> Self {
        Model { p: [Par::new(), Par::new()], other: [0.0; 3] }
    }
    fn apply(&mut self, d: &Do, c: &mut Case) {
        match d {
            Do::Smooth(p, d, r, _) => self.p[*p].smoothing(*d, *r),
            Do::Set(p, v) => {
                if self.p[*p].ramp.as_ref().is_some_and(|r| !r.done) {
                    c.count("targets changed during a ramp", 1);
                }
                self.p[*p].set(*v)
            }
            Do::Int(_, v) => self.other[0] += *v as f64,
            Do::Trig(_) => self.other[1] += 1.0,
            Do::Bool(_, b) => self.other[2] = if *b { 1.0 } else { -1.0 },
        }
    }
    /// the frames `from..to` of the outputs are one part
    fn part(&mut self, c: &mut Case, out: &[Vec<f64>], from: usize, to: usize) -> Res {
        for p in 0..2 {
            if let Err(mut v) = self.p[p].part(&out[p][from..to], c) {
                v.msg = format!("parameter {p} in frames {from}..{to}: {}", v.msg);
                return Err(v);
            }
        }
        for (k, w) in self.other.iter().enumerate() {
            for f in from..to {
                ensure!(out[k + 2][f] == *w, "pass-through", "value {k} that is not a float is {} at frame {f}, expected {w}", out[k + 2][f]);
            }
        }
        Ok(())
    }
}

pub fn bench(c: &mut Case) -> Res {
    let sr = *c.rng.pick(&[8000u32, 44100, 48000, 96000]);
    let n = if c.rng.chance(1, 4) { 1024 } else { 256 };
    let bs = *c.rng.pick(&[1usize, 2, 8, 16, 64, 128, 256]);
    let mut div = match c.rng.below(3) {
        0 => Div::Frames,
        1 => Div::Blocks(bs),
        _ => Div::Parts(bs, dsp::cuts(&mut c.rng, n / 4, bs)),
    };
    let mut plan: Vec<(usize, Do)> = vec![];
    for _ in 0..3 + c.rng.below(14) {
        let f = c.rng.below(n);
        let f = if let Div::Blocks(b) = &div { f / b * b } else { f };
        for _ in 0..1 + c.rng.below(3) {
            let d = random_do(c, sr);
            plan.push((f, d));
        }
    }
    if c.rng.chance(3, 4) {
        // smoothed from the start
        for p in 0..2 {
            let d = 5 + c.rng.below(100);
            let r = if c.rng.chance(1, 2) { Rate::AudioRate } else { Rate::BlockRate };
            plan.push((0, Do::Smooth(p, Some(d), r, ((d as f64 + 0.3) / sr as f64) as f32)));
        }
    }
    plan.sort_by_key(|p| p.0);
    if let Div::Parts(_, cuts) = &mut div {
        cuts.extend(plan.iter().map(|p| p.0));
        cuts.sort();
        cuts.dedup();
    }
    c.note(format!("{sr} {div:?} {plan:?}"));
    let changes: Vec<Change> = plan.iter().map(|(f, d)| change(d, *f)).collect();
    let mut u = WrSmoothParams::new(Show::default());
    ensure!(
        WrSmoothParams::<Show>::param_descriptions()[..] == Show::param_descriptions()[..],
        "descriptions",
        "the smoothed parameters are called {:?}",
        WrSmoothParams::<Show>::param_descriptions()
    );
    let t = dsp::run(&mut u, sr, &div, n, &[], &changes)?;
    let bounds: Vec<usize> = match &div {
        Div::Frames => (0..=n).collect(),
        Div::Blocks(b) => (0..=n / b).map(|i| i * b).collect(),
        Div::Parts(b, cuts) => {
            let mut v: Vec<usize> = (0..=n / b).map(|i| i * b).chain(cuts.iter().copied()).collect();
            v.sort();
            v.dedup();
            v
        }
    };
    let mut m = Model::new();
    let mut k = 0;
    for w in bounds.windows(2) {
        while k < plan.len() && plan[k].0 <= w[0] {
            m.apply(&plan[k].1, c);
            k += 1;
        }
        m.part(c, &t.out, w[0], w[1])?;
    }
    if plan.iter().any(|p| matches!(p.1, Do::Set(..))) {
        c.nontrivial();
    }
    Ok(())
}

/// Outputs the value of its parameter and how many times it was set.
#[derive(Default)]
struct Tally {
    v: f64,
    sets: f64,
}
impl UGen for Tally {
    type Sample = f64;
    type Inputs = U0;
    type Outputs = U2;
    type Parameters = U1;
    fn init(&mut self, _: u32, _: usize) {}
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f64, U0>) -> Frame<f64, U2> {
        [self.v, self.sets].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U1> {
        [ParameterHint::new_float(|h| h)].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U1> {
        ["v"].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, v: ParameterValue) {
        if let ParameterValue::Float(f) = v {
            self.v = f;
            self.sets += 1.0;
        }
    }
}
/// Once a ramp has arrived the parameter is left alone.
pub fn rest(c: &mut Case) -> Res {
    let sr = *c.rng.pick(&[8000u32, 44100, 48000]);
    let bs = *c.rng.pick(&[1usize, 2, 7, 16, 64]);
    let frames = c.rng.below(*c.rng.clone().pick(&[1usize, 3, 40, 300]).max(&1));
    let rate = if c.rng.chance(1, 2) { Rate::BlockRate } else { Rate::AudioRate };
    let to = c.rng.uniform(-5.0, 5.0);
    let start = c.rng.below(3) * bs;
    let end = start + frames.next_multiple_of(bs) + 3 * bs;
    let n = end + 20 * bs;
    let div = match c.rng.below(3) {
        0 if matches!(rate, Rate::AudioRate) || bs == 1 => Div::Frames,
        1 if matches!(rate, Rate::AudioRate) => Div::Parts(bs, dsp::cuts(&mut c.rng, n, bs)),
        _ => Div::Blocks(bs),
    };
    c.note(format!("{frames} frames to {to} from frame {start} at {sr}, {rate:?}, {div:?}"));
    let changes = [
        dsp::ch(0, 0, ParameterValue::Smoothing(ParameterSmoothing::Linear((frames as f64 + 0.25) as f32 / sr as f32), rate)),
        dsp::ch(start, 0, to),
    ];
    let t = dsp::run(&mut WrSmoothParams::new(Tally::default()), sr, &div, n, &[], &changes)?;
    ensure!(t.out[0][n - 1] == to, "arrives", "the parameter rests at {} instead of {to}", t.out[0][n - 1]);
    let (then, last) = (t.out[1][end], t.out[1][n - 1]);
    ensure!(then == last, "rest", "the parameter is set {} more times in {} frames after it arrived, {} times before", last - then, n - end, then);
    ensure!(then >= 1.0 && (frames == 0 || matches!(rate, Rate::BlockRate) || then as usize >= frames), "steps", "set {then} times in a ramp of {frames} frames");
    c.nontrivial();
    Ok(())
}

/// The same in a running graph, with smoothing settings and values sent through handles.
pub fn graph(c: &mut Case) -> Res {
    let sr = 48000;
    let bs = c.rng.block(&[1usize, 4, 16, 64]);
    let precise = c.rng.chance(1, 2);
    let blocks = 600 / bs + 4;
    let (mut g, mut p, _rx) = AudioProcessor::<f64>::new::<U0, U5>(AudioProcessorOptions {
        block_size: bs,
        sample_rate: sr,
        ring_buffer_size: 512,
        ..Default::default()
    });
    let h = g.edit(|e| {
        if precise {
            let h = e.push(Show::default().smooth_params().precise_timing::<64>());
            h.to_graph_out();
            h.id()
        } else {
            let h = e.push(Show::default().smooth_params());
            h.to_graph_out();
            h.id()
        }
    });
    let mut m = Model::new();
    c.note(format!("block {bs} precise {precise}"));
    let mut frame = 0usize;
    let mut actions = 0;
    for _ in 0..blocks {
        // (frame in block, what)
        let mut now: Vec<(usize, Do)> = vec![];
        if c.rng.chance(2, 3) {
            for _ in 0..1 + c.rng.below(3) {
                let mut d = random_do(c, sr);
                if let Do::Smooth(_, _, r, _) = &mut d {
                    if precise {
                        // a step per block would depend on how the block is divided
                        *r = Rate::AudioRate;
                    }
                }
                let at = if precise && c.rng.chance(2, 3) { c.rng.below(bs) } else { 0 };
                now.push((at, d));
            }
        }
        now.sort_by_key(|x| x.0);
        for (at, d) in &now {
            let ch = change(d, *at);
            let t = if *at == 0 && c.rng.chance(1, 2) {
                Time::asap()
            } else {
                Time::at(Seconds::from_samples((frame + at) as u64, sr as u64))
            };
            c.note(format!("{}: {d:?}", frame + at));
            let r = match d {
                Do::Smooth(_, _, Rate::BlockRate, _) if c.rng.chance(1, 2) => {
                    // the block rate is what a smoothing alone stands for
                    let ParameterValue::Smoothing(s, _) = ch.value else { unreachable!() };
                    g.set(h, ch.param, s, t)
                }
                _ => g.set(h, ch.param, ch.value, t),
            };
            ensure!(r.is_ok(), "refused", "{d:?}: {r:?}");
            actions += 1;
        }
        crate::probe::run_any(&mut p, &[]);
        let mut o = p.output_block();
        let out: Vec<Vec<f64>> = (0..5).map(|k| (0..bs).map(|f| knaster_core::Block::read(&o, k, f)).collect()).collect();
        // changes for the start of the block that were sent as such come in the order sent
        let mut cuts: Vec<usize> = now.iter().map(|x| x.0).chain([0, bs]).collect();
        cuts.sort();
        cuts.dedup();
        let mut k = 0;
        for w in cuts.windows(2) {
            while k < now.len() && now[k].0 <= w[0] {
                m.apply(&now[k].1, c);
                k += 1;
            }
            if let Err(mut v) = m.part(c, &out, w[0], w[1]) {
                v.msg = format!("block at frame {frame}: {}", v.msg);
                return Err(v);
            }
        }
        frame += bs;
    }
    if actions > 5 {
        c.nontrivial();
    }
    Ok(())
}

pub fn run_check(r: &mut Run) {
    r.rule = "random sequences of setting and removing smoothing (either rate, durations from zero to thousands of frames), float targets and non-float values on two smoothed parameters, frame by frame, in blocks, in partial blocks and in a running graph with and without precise timing; the wrapped node shows its parameter values in every frame, which are compared with a model of the ramp; (rest) after a ramp has arrived its parameter isn't set any more; non-trivial: at least one target was set".into();
    r.assumptions.push("a ramp that is interrupted may be continued from the value taken last or from the one that was next; removing the smoothing during a ramp may leave the value there or move it to the target".into());
    r.assumptions.push("parts of a block count as blocks for smoothing at block rate".into());
    r.cases("bench", r.n(150000, 3_000_000), bench);
    r.cases("rest", r.n(20000, 400_000), rest);
    r.cases("graph", r.n(20000, 400_000), graph);
}

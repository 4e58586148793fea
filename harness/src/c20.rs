//! C20: envelopes.
use crate::common::*;
use crate::dsp::*;
use crate::{bail, ensure};
use knaster_core::{Float, ParameterValue, PInteger, UGen};
use knaster_core_dsp::envelopes::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Trig {
    Attack(f64),
    Release(f64),
    TRelease,
    TRestart,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Stopped,
    Attack,
    Sustain,
    Release,
}
/// The level of an attack (sustain) release envelope: linear attack from the current level,
/// cubic release from the current level to silence.
struct Asr {
    sustains: bool,
    st: St,
    /// level while attacking, position from 1 to 0 while releasing
    t: f64,
    scale: f64,
    atk: f64,
    rel: f64,
    sr: f64,
    /// rounding differences to expect, none while all positions are exact
    inexact: bool,
    margin: f64,
    /// a segment ended so close to a frame that rounding decides in which one
    tie: bool,
}
impl Asr {
    fn rate(secs: f64, sr: f64) -> f64 {
        if secs == 0.0 { 1.0 } else { 1.0 / (secs * sr) }
    }
    fn level(&self) -> f64 {
        match self.st {
            St::Stopped => 0.0,
            St::Attack => self.t,
            St::Sustain => 1.0,
            St::Release => self.t.powi(3) * self.scale,
        }
    }
    fn trig(&mut self, t: Trig) {
        match t {
            Trig::Attack(s) => self.atk = Self::rate(s, self.sr),
            Trig::Release(s) => self.rel = Self::rate(s, self.sr),
            Trig::TRestart => {
                self.inexact |= self.st == St::Release;
                self.t = self.level();
                self.st = St::Attack;
            }
            Trig::TRelease => {
                if self.st == St::Attack || self.st == St::Sustain {
                    self.scale = self.level();
                    self.t = 1.0;
                    self.st = St::Release;
                }
            }
        }
    }
    /// level in this frame, whether the envelope ends with it
    fn next(&mut self) -> (f64, bool) {
        let l = self.level();
        let mut done = false;
        match self.st {
            St::Attack => {
                self.t += self.atk;
                self.tie |= self.inexact && (self.t - 1.0).abs() < self.margin;
                if self.t >= 1.0 {
                    self.t = 1.0;
                    if self.sustains {
                        self.st = St::Sustain
                    } else {
                        self.scale = 1.0;
                        self.st = St::Release
                    }
                }
            }
            St::Release => {
                self.t -= self.rel;
                self.tie |= self.inexact && self.t.abs() < self.margin;
                if self.t <= 0.0 {
                    self.t = 0.0;
                    self.st = St::Stopped;
                    done = true;
                }
            }
            _ => (),
        }
        (l, done)
    }
}

fn asr<F: Float, T: UGen<Sample = F>>(
    c: &mut Case,
    sustains: bool,
    mk: impl Fn(F, F) -> T,
) -> Res {
    // Times whose rates are exact in f32, or arbitrary ones with one frame of slack
    let exact = c.rng.chance(1, 2);
    let sr = if exact { *c.rng.pick(&[32768u32, 65536]) } else { *c.rng.pick(&[44100u32, 48000]) };
    let secs = |c: &mut Case| -> f64 {
        if c.rng.chance(1, 8) {
            0.0
        } else if exact {
            (1u32 << c.rng.below(9)) as f64 / sr as f64
        } else {
            (c.rng.uniform(0.3, 400.0) / sr as f64) as f32 as f64
        }
    };
    let bs = c.rng.block(&[1usize, 4, 16, 64]);
    let n = (600 + c.rng.below(1500)).div_ceil(bs) * bs;
    let mode = c.rng.below(3);
    let div = match mode {
        0 => Div::Frames,
        1 => Div::Blocks(bs),
        _ => Div::Parts(bs, cuts(&mut c.rng, n, bs)),
    };
    let mut ok: Vec<usize> = match &div {
        Div::Frames => (0..n).collect(),
        Div::Blocks(b) => (0..n / b).map(|i| i * b).collect(),
        Div::Parts(b, c) => (0..n / b).map(|i| i * b).chain(c.iter().copied()).collect(),
    };
    ok.sort();
    ok.dedup();
    let (a0, r0) = (secs(c), secs(c));
    let mut trigs: Vec<(usize, Trig)> = vec![];
    let dense = *c.rng.pick(&[4usize, 12, 40]);
    for _ in 0..1 + c.rng.below(dense) {
        let f = *c.rng.pick(&ok);
        let t = match c.rng.below(10) {
            0 => Trig::Attack(secs(c)),
            1 => Trig::Release(secs(c)),
            2..=4 if sustains => Trig::TRelease,
            _ => Trig::TRestart,
        };
        trigs.push((f, t));
    }
    trigs.sort_by_key(|t| t.0);
    if c.rng.chance(3, 4) {
        trigs.insert(0, (0, Trig::TRestart));
    }
    let rel = if sustains { "t_release" } else { "" };
    let d = T::param_descriptions();
    let idx = |name: &str| d.iter().position(|x| *x == name);
    let mut changes = vec![];
    for (f, t) in &trigs {
        let (name, v) = match t {
            Trig::Attack(s) => ("attack_time", ParameterValue::Float(*s)),
            Trig::Release(s) => ("release_time", ParameterValue::Float(*s)),
            Trig::TRelease => (rel, ParameterValue::Trigger),
            Trig::TRestart => ("t_restart", ParameterValue::Trigger),
        };
        let Some(i) = idx(name) else { bail!("harness", "no parameter {name}") };
        changes.push(Change { frame: *f, param: i, value: v });
    }
    c.note(format!(
        "{} {} attack {a0} release {r0} at {sr} {div:?} {trigs:?}",
        if sustains { "EnvAsr" } else { "EnvAr" },
        std::any::type_name::<F>()
    ));
    let mut u = mk(F::new(a0), F::new(r0));
    let got = run(&mut u, sr, &div, n, &[], &changes)?;
    let mut m = Asr {
        sustains,
        st: St::Stopped,
        t: 0.0,
        scale: 1.0,
        atk: Asr::rate(a0, sr as f64),
        rel: Asr::rate(r0, sr as f64),
        sr: sr as f64,
        inexact: !exact,
        margin: if is32::<F>() { 1e-5 } else { 1e-9 },
        tie: false,
    };
    let fe = if is32::<F>() { 1e-5 } else { 1e-9 };
    let mut ti = 0;
    let mut want_done = vec![];
    let mut prev: Option<f64> = None;
    let out = &got.out[0];
    let (mut changed, mut max_rate) = (0, m.atk.max(3.0 * m.rel));
    for f in 0..n {
        while ti < trigs.len() && trigs[ti].0 <= f {
            m.trig(trigs[ti].1);
            max_rate = f64::max(max_rate, m.atk.max(3.0 * m.rel));
            changed += 1;
            ti += 1;
        }
        let st = m.st;
        let (w, d) = m.next();
        let g = out[f];
        ensure!(g.is_finite() && (0.0..=1.0).contains(&g), "range", "frame {f}: the envelope is at {g}");
        if d {
            want_done.push(f as u64);
        }
        ensure!(
            m.tie || (g - w).abs() <= fe,
            "level",
            "frame {f}: the envelope is at {g}, expected {w} ({st:?})"
        );
        // no jump bigger than the fastest segment moves in a frame
        if let Some(p) = prev {
            ensure!(
                (g - p).abs() <= 1.001 * max_rate + fe,
                "jump",
                "frame {f}: the envelope jumps from {p} to {g} ({st:?}, {changed} changes made)"
            );
        }
        prev = Some(g);
    }
    ensure!(
        m.tie || got.done == want_done || (mode != 0 && per_block(&got.done, &want_done, bs)),
        "done",
        "completion reported at {:?}, the envelope ended at {want_done:?}",
        got.done
    );
    if !m.tie {
        c.count("envelopes compared to the end", 1);
    }
    // the frame reported is the last one before silence
    if mode == 0 {
        for d in &got.done {
            let d = *d as usize;
            ensure!(
                d + 1 >= n || out[d + 1] == 0.0 || trigs.iter().any(|t| t.0 == d + 1),
                "done",
                "completion reported at frame {d}, the envelope goes on with {}",
                out[d + 1]
            );
        }
    }
    c.count("frames of envelopes compared", n as u64);
    c.count("completions observed", got.done.len() as u64);
    if out.iter().any(|x| *x > 0.0) {
        c.nontrivial();
    }
    Ok(())
}
/// When an envelope ends more than once in a block only one of the frames can be reported.
fn per_block(got: &[u64], want: &[u64], bs: usize) -> bool {
    let blocks = |v: &[u64]| {
        let mut b: Vec<u64> = v.iter().map(|x| x / bs as u64).collect();
        b.dedup();
        b
    };
    got.iter().all(|g| want.contains(g)) && blocks(got) == blocks(want)
}

#[derive(Clone, Copy, Debug)]
enum Ev {
    Scale(f64),
    Jump(usize),
    Restart,
    Stop,
}
struct Env {
    start: f64,
    segs: Vec<(f64, f64)>,
    looping: bool,
    scale: f64,
    step: f64,
    from: f64,
    run: Option<(usize, f64)>,
}
impl Env {
    fn at(&self, k: usize, t: f64) -> f64 {
        let (d, v) = self.segs[k];
        if t < d { self.from + t / d * (v - self.from) } else { v }
    }
    fn ev(&mut self, e: Ev) {
        match e {
            Ev::Scale(s) => self.scale = s,
            _ if self.segs.is_empty() => (),
            Ev::Jump(k) => {
                if let Some((k, t)) = self.run {
                    self.from = self.at(k, t);
                }
                self.run = Some((k.min(self.segs.len() - 1), 0.0));
            }
            Ev::Restart => {
                self.from = self.start;
                self.run = Some((0, 0.0));
            }
            Ev::Stop => {
                if let Some((k, t)) = self.run {
                    self.from = self.at(k, t);
                }
                self.run = None;
            }
        }
    }
    fn next(&mut self) -> (f64, bool) {
        let Some((k, t)) = self.run else { return (self.from, false) };
        let step = self.scale * self.step;
        let (d, v) = self.segs[k];
        if t < d {
            self.run = Some((k, t + step));
            (self.at(k, t), false)
        } else {
            self.from = v;
            if k + 1 < self.segs.len() {
                self.run = Some((k + 1, t - d + step));
                (v, false)
            } else if self.looping {
                self.run = Some((0, t - d + step));
                (v, false)
            } else {
                self.run = None;
                (v, true)
            }
        }
    }
}

fn envelope<F: Float>(c: &mut Case) -> Res {
    let exact = c.rng.chance(1, 2);
    let sr = if exact { *c.rng.pick(&[32768u32, 65536]) } else { *c.rng.pick(&[44100u32, 48000]) };
    let start = (c.rng.range(-64, 64) as f64) / 16.0;
    let k = match c.rng.below(12) {
        0 => 0,
        1 => 12,
        _ => 1 + c.rng.below(5),
    };
    let segs: Vec<(f64, f64)> = (0..k)
        .map(|_| {
            let d = match c.rng.below(6) {
                0 => 0.0,
                1 => 1.0 / sr as f64,
                _ if exact => c.rng.below(200) as f64 / sr as f64,
                _ => c.rng.uniform(0.1, 200.0) / sr as f64,
            };
            (d, c.rng.range(-64, 64) as f64 / 16.0)
        })
        .collect();
    let looping = c.rng.chance(1, 4);
    let scale = |c: &mut Case| -> f64 {
        if exact { *c.rng.pick(&[0.25, 0.5, 1.0, 1.0, 2.0, 4.0, 0.0]) } else { c.rng.uniform(0.01, 5.0) as f32 as f64 }
    };
    let s0 = if c.rng.chance(1, 2) { 1.0 } else { scale(c) };
    let bs = c.rng.block(&[1usize, 4, 16, 64]);
    let n = (300 + c.rng.below(1200)).div_ceil(bs) * bs;
    let mode = c.rng.below(3);
    let div = match mode {
        0 => Div::Frames,
        1 => Div::Blocks(bs),
        _ => Div::Parts(bs, cuts(&mut c.rng, n, bs)),
    };
    let mut ok: Vec<usize> = match &div {
        Div::Frames => (0..n).collect(),
        Div::Blocks(b) => (0..n / b).map(|i| i * b).collect(),
        Div::Parts(b, c) => (0..n / b).map(|i| i * b).chain(c.iter().copied()).collect(),
    };
    ok.sort();
    ok.dedup();
    let mut evs: Vec<(usize, Ev)> = vec![];
    let dense = *c.rng.pick(&[2usize, 6, 30]);
    for _ in 0..1 + c.rng.below(dense) {
        let f = *c.rng.pick(&ok);
        let e = match c.rng.below(8) {
            0 => Ev::Scale(scale(c)),
            1 | 2 => Ev::Jump(c.rng.below(k + 3)),
            3 => Ev::Stop,
            _ => Ev::Restart,
        };
        evs.push((f, e));
    }
    evs.sort_by_key(|e| e.0);
    if c.rng.chance(2, 3) {
        evs.insert(0, (0, Ev::Restart));
    }
    c.note(format!("Envelope {} from {start} {segs:?} looping {looping} scale {s0} at {sr} {div:?} {evs:?}", std::any::type_name::<F>()));
    let changes: Vec<Change> = evs
        .iter()
        .map(|(f, e)| match e {
            Ev::Scale(s) => ch(*f, 0, *s),
            Ev::Jump(k) => ch(*f, 1, ParameterValue::Integer(PInteger(*k))),
            Ev::Restart => ch(*f, 2, ParameterValue::Trigger),
            Ev::Stop => ch(*f, 3, ParameterValue::Trigger),
        })
        .collect();
    let mut u = Envelope::<F>::new(start, segs.iter().map(|(d, v)| EnvelopeSegment::new(*d, *v)).collect())
        .time_scale(s0)
        .looping(looping);
    let got = run(&mut u, sr, &div, n, &[], &changes)?;
    let mut m = Env {
        start,
        segs: segs.clone(),
        looping,
        scale: s0,
        step: 1.0 / sr as f64,
        from: start,
        run: None,
    };
    let lo = segs.iter().map(|s| s.1).fold(start, f64::min);
    let hi = segs.iter().map(|s| s.1).fold(start, f64::max);
    let out = &got.out[0];
    let mut ei = 0;
    let mut want_done = vec![];
    let mut off = 0usize;
    for f in 0..n {
        while ei < evs.len() && evs[ei].0 <= f {
            m.ev(evs[ei].1);
            ei += 1;
        }
        let (w, d) = m.next();
        if d {
            want_done.push(f as u64);
        }
        let g = out[f];
        let e = 1e-5;
        ensure!(
            g.is_finite() && g >= lo - e && g <= hi + e,
            "range",
            "frame {f}: the envelope is at {g}, its values are within {lo}..{hi}"
        );
        if (g - w).abs() > 2e-5 {
            ensure!(!exact, "level", "frame {f}: the envelope is at {g}, expected {w} (running {:?})", m.run);
            // rounding can move the end of a segment by a frame
            off += 1;
            ensure!(
                off <= 4,
                "level",
                "frame {f}: the envelope is at {g}, expected {w} (running {:?}); {off} frames differ",
                m.run
            );
        }
    }
    let exactly = got.done == want_done || (mode != 0 && per_block(&got.done, &want_done, bs));
    ensure!(
        exactly || (!exact && off > 0),
        "done",
        "completion reported at {:?}, the envelope ended at {want_done:?}",
        got.done
    );
    c.count("frames of envelopes compared", n as u64);
    c.count("completions observed", got.done.len() as u64);
    c.nontrivial();
    Ok(())
}
fn asr_any<F: Float>(c: &mut Case) -> Res {
    if c.rng.chance(1, 2) {
        asr::<F, _>(c, true, EnvAsr::<F>::new)
    } else {
        asr::<F, _>(c, false, EnvAr::<F>::new)
    }
}
/// Segments of up to minutes: how long they take, and where the envelope is on the way.
fn long<F: Float>(c: &mut Case) -> Res {
    use knaster_core::log::ArLogSender;
    use knaster_core::{AudioCtx, UGenFlags};
    let sr = *c.rng.pick(&[8000u32, 44100, 48000, 192000]);
    // seconds, but no more than so many frames
    let most: f64 = if c.thorough { 4e7 } else { 4e6 };
    let mut secs = |c: &mut Case| (most / sr as f64).min((c.rng.uniform(-1.0, 6.5)).exp()) as f32 as f64;
    let (a, r) = (secs(c), secs(c));
    let kind = c.rng.below(3);
    let ty = std::any::type_name::<F>();
    c.note(format!("{} of {ty} attack {a} s release {r} s at {sr}", ["EnvAsr", "EnvAr", "Envelope"][kind]));
    let mut ctx = AudioCtx::new(sr, 1, ArLogSender::non_rt());
    // (time of a segment, level after a part of it)
    let segs: [(f64, fn(f64) -> f64); 2] = if kind == 2 {
        [(a, |t| t * 0.75 - 0.25), (r, |t| 0.5 - t * 1.5)]
    } else {
        [(a, |t| t), (r, |t| (1.0 - t).powi(3))]
    };
    fn walk<F: Float, T: UGen<Sample = F, Inputs = knaster_core::typenum::U0, Outputs = knaster_core::typenum::U1>>(
        c: &mut Case,
        ctx: &mut AudioCtx,
        u: &mut T,
        kind: usize,
        sr: f64,
        segs: &[(f64, fn(f64) -> f64); 2],
    ) -> Res {
        let d = T::param_descriptions();
        let idx = |n: &str| d.iter().position(|x| *x == n).unwrap();
        u.init(sr as u32, 1);
        u.param_apply(ctx, idx("t_restart"), ParameterValue::Trigger);
        let mut total = 0u64;
        for (k, (secs, level)) in segs.iter().enumerate() {
            let frames = secs * sr;
            // leaves room for the rounding of every addition in double precision
            let slack = 2.0 + frames * 1e-8;
            if kind == 0 && k == 1 {
                u.param_apply(ctx, idx("t_release"), ParameterValue::Trigger);
            }
            let n = (frames + slack).ceil() as u64 + 1;
            let offset = if k == 0 { 0.0 } else { total as f64 - segs[0].0 * sr };
            let mut ended = None;
            // where the second segment starts within this count of frames
            for f in 0..n {
                let mut flags = UGenFlags::new();
                let v = u.process(ctx, &mut flags, [].into())[0].to_f64();
                let t = if kind == 0 { f as f64 } else { f as f64 + offset };
                let part = t / frames;
                if t >= 2.0 && t + slack < frames {
                    let (w, e) = (level(part), (level((t + slack) / frames) - level((t - slack).max(0.0) / frames)).abs() + 2e-6);
                    if (v - w).abs() > e {
                        bail!("level", "frame {f} of segment {k}, which takes {frames} frames: the envelope is at {v}, expected {w}");
                    }
                } else if t >= frames + slack {
                    let w = level(1.0);
                    if k == 1 || kind == 0 {
                        ensure!((v - w).abs() < 2e-6, "duration", "{t} frames into segment {k} of {frames} frames: the envelope is at {v}, expected {w}");
                    }
                }
                total += 1;
                if flags.done().is_some() {
                    ended = Some(t);
                }
                if k == 0 && kind != 0 && t + 1.0 >= frames {
                    break;
                }
            }
            if k == 1 {
                ensure!(
                    ended.is_some_and(|t| (t - frames).abs() <= slack + 1.0),
                    "done",
                    "completion reported at {ended:?} frames into the last segment, which takes {frames}"
                );
            } else {
                ensure!(ended.is_none(), "done", "completion reported in the first segment");
            }
        }
        c.count("frames of long envelopes", total);
        c.nontrivial();
        Ok(())
    }
    match kind {
        0 => walk(c, &mut ctx, &mut EnvAsr::<F>::new(F::new(a), F::new(r)), kind, sr as f64, &segs),
        1 => walk(c, &mut ctx, &mut EnvAr::<F>::new(F::new(a), F::new(r)), kind, sr as f64, &segs),
        _ => {
            let e = vec![EnvelopeSegment::new(a, 0.5), EnvelopeSegment::new(r, -1.0)];
            walk(c, &mut ctx, &mut Envelope::<F>::new(-0.25, e), kind, sr as f64, &segs)
        }
    }
}
pub fn run_check(r: &mut Run) {
    r.rule = "(asr) EnvAsr and EnvAr with random attack and release times, triggers and time changes at random frames and any division of time, compared with a state machine computing the level from the statement (exactly for times with exact rates, within one frame otherwise), plus monitors for range, jumps and completion reports; (long) segments of up to minutes, how long they take and where the envelope is on the way; (envelope) Envelope with random segments (zero-length, single-frame, none), looping, time scales, jumps, stops and restarts, compared in the same way; non-trivial: the envelope moved; distinct by configuration".into();
    r.cases("asr", r.n(30000, 600000), |c| {
        if c.rng.chance(1, 2) { asr_any::<f32>(c) } else { asr_any::<f64>(c) }
    });
    r.cases("long", r.n(60, 2000), |c| if c.rng.chance(1, 2) { long::<f32>(c) } else { long::<f64>(c) });
    r.cases("envelope", r.n(30000, 600000), |c| {
        if c.rng.chance(1, 2) { envelope::<f32>(c) } else { envelope::<f64>(c) }
    });
}

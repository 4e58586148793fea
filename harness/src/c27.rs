//! C27: panning, limiting, utility nodes and the reverb.
use crate::common::*;
use crate::dsp::*;
use crate::{bail, ensure};
use knaster_airwindows::galactic::Galactic;
use knaster_core::log::*;
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Float, ParameterValue, UGen, UGenFlags};
use knaster_core_dsp::closure::*;
use knaster_core_dsp::dynamics::*;
use knaster_core_dsp::pan::*;
use knaster_core_dsp::util::*;
use std::f64::consts::PI;

fn any_div(c: &mut Case, n: usize, bs: usize) -> (Div, Vec<usize>) {
    let d = match c.rng.below(3) {
        0 => Div::Frames,
        1 => Div::Blocks(bs),
        _ => Div::Parts(bs, cuts(&mut c.rng, n, bs)),
    };
    let mut ok: Vec<usize> = match &d {
        Div::Frames => (0..n).collect(),
        Div::Blocks(b) => (0..n / b).map(|i| i * b).collect(),
        Div::Parts(b, c) => (0..n / b).map(|i| i * b).chain(c.iter().copied()).collect(),
    };
    ok.sort();
    ok.dedup();
    (d, ok)
}
fn size(c: &mut Case) -> (usize, usize) {
    let bs = c.rng.block(&[1usize, 8, 16, 64]);
    (bs, (64 + c.rng.below(400)).div_ceil(bs) * bs)
}
fn events(c: &mut Case, ok: &[usize], k: usize, v: impl Fn(&mut Rng) -> f64) -> Vec<(usize, f64)> {
    let m = c.rng.below(k);
    let mut e: Vec<(usize, f64)> = (0..m).map(|_| (*c.rng.pick(ok), 0.0)).collect();
    for x in e.iter_mut() {
        x.1 = v(&mut c.rng);
    }
    e.sort_by_key(|x| x.0);
    e
}
fn value_at(e: &[(usize, f64)], first: f64, f: usize) -> f64 {
    e.iter().filter(|x| x.0 <= f).next_back().map_or(first, |x| x.1)
}
fn floats(e: &[(usize, f64)]) -> Vec<Change> {
    e.iter().map(|(f, v)| Change { frame: *f, param: 0, value: ParameterValue::Float(*v) }).collect()
}

fn pan<F: Float>(c: &mut Case) -> Res {
    let (bs, n) = size(c);
    let (div, ok) = any_div(c, n, bs);
    let pv = |r: &mut Rng| match r.below(5) {
        0 => -1.0,
        1 => 1.0,
        2 => 0.0,
        _ => r.uniform(-1.0, 1.0) as f32 as f64,
    };
    let p0 = pv(&mut c.rng);
    let e = events(c, &ok, 8, pv);
    c.note(format!("pan {} {p0} {e:?} {div:?}", std::any::type_name::<F>()));
    let input = noise(&mut c.rng, 1, n);
    let t = run(&mut Pan2::<F>::new(p0 as f32), 48000, &div, n, &input, &floats(&e))?;
    for f in 0..n {
        let p = value_at(&e, p0, f);
        let x = input[0][f];
        let (l, r) = (t.out[0][f], t.out[1][f]);
        let a = (p * 0.5 + 0.5) * PI / 2.0;
        let tol = 2e-3 * x.abs() + 1e-9;
        ensure!(
            (l - x * a.cos()).abs() <= tol && (r - x * a.sin()).abs() <= tol,
            "pan-law",
            "pan {p}: {x} becomes {l} and {r}, expected {} and {}",
            x * a.cos(),
            x * a.sin()
        );
        ensure!((l * l + r * r - x * x).abs() <= 2e-3 * x * x + 1e-12, "pan-power", "pan {p}: power {} instead of {}", l * l + r * r, x * x);
        if p == 1.0 {
            ensure!(l.abs() <= tol, "pan-side", "pan 1: {l} of {x} is still heard left");
        }
        if p == -1.0 {
            ensure!(r.abs() <= tol, "pan-side", "pan -1: {r} of {x} is still heard right");
        }
        if p == 0.0 {
            ensure!((l - r).abs() <= tol, "pan-centre", "pan 0: {l} and {r}");
        }
    }
    c.count("frames panned", n as u64);
    c.nontrivial();
    Ok(())
}

fn utility<F: Float>(c: &mut Case) -> Res {
    let (bs, n) = size(c);
    let (div, ok) = any_div(c, n, bs);
    let b = match &div {
        Div::Frames => 1,
        Div::Blocks(b) | Div::Parts(b, _) => *b,
    };
    match c.rng.below(4) {
        0 => {
            let v = |r: &mut Rng| *r.pick(&[0.0, -0.0, 1.0, 1e30, -1e-30, 0.1f32 as f64, -12.25]);
            let v0 = v(&mut c.rng);
            let e = events(c, &ok, 12, v);
            c.note(format!("constant {} {v0} {e:?} {div:?}", std::any::type_name::<F>()));
            let t = run(&mut Constant::<F>::new(F::new(v0)), 48000, &div, n, &[], &floats(&e))?;
            for f in 0..n {
                let w = Float::to_f64(F::new(value_at(&e, v0, f)));
                ensure!(t.out[0][f] == w, "constant", "frame {f} is {} instead of {w}", t.out[0][f]);
            }
        }
        1 => {
            let mut input = noise(&mut c.rng, 1, n);
            for x in input[0].iter_mut() {
                if c.rng.chance(1, 3) {
                    *x = *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0, -1.0, 1.0000001f32 as f64, 1e30, -3.0, -0.0, 1e-40]);
                }
            }
            c.note(format!("limiter {} {div:?} #{}", std::any::type_name::<F>(), c.index));
            let t = run(&mut SafetyLimiter::<F>::new(), 48000, &div, n, &input, &[])?;
            for f in 0..n {
                let x = Float::to_f64(F::new(input[0][f]));
                let w = if x.is_nan() { 0.0 } else { x.clamp(-1.0, 1.0) };
                ensure!(t.out[0][f] == w, "limiter", "frame {f}: {x} becomes {} instead of {w}", t.out[0][f]);
            }
        }
        2 => {
            let trig: Vec<usize> = {
                let m = c.rng.below(8);
                let mut v: Vec<usize> = (0..m).map(|_| *c.rng.pick(&ok)).collect();
                v.sort();
                v
            };
            c.note(format!("done on trig {trig:?} {div:?} {n}"));
            let chg: Vec<Change> = trig.iter().map(|f| Change { frame: *f, param: 0, value: ParameterValue::Trigger }).collect();
            let t = run(&mut DoneOnTrig::<F>::new(), 48000, &div, n, &[], &chg)?;
            // one report per block
            let mut want: Vec<u64> = vec![];
            for f in &trig {
                if want.last().is_none_or(|w| *w as usize / b != f / b) {
                    want.push(*f as u64);
                }
            }
            ensure!(t.done == want, "done-on-trig", "triggered at {trig:?}, done was reported at {:?} instead of {want:?}", t.done);
            if trig.is_empty() {
                return Ok(());
            }
        }
        _ => closure::<F>(c, &div, n)?,
    }
    c.count("frames of utility nodes", n as u64);
    c.nontrivial();
    Ok(())
}
fn closure<F: Float>(c: &mut Case, div: &Div, n: usize) -> Res {
    // functions of the frame, its number and channels which keep state between frames
    let kind = c.rng.below(6);
    c.note(format!("closure {kind} {} {div:?} {n}", std::any::type_name::<F>()));
    let input = noise(&mut c.rng, 4, n);
    let calls = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let k = calls.clone();
    let tick = move || k.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let x = |ch: usize, f: usize| Float::to_f64(F::new(input[ch][f]));
    let (t, want): (Trace, Vec<Vec<f64>>) = match kind {
        0 => {
            let mut i = 0.0;
            let mut u = ugen::<F, U0, U1>(move |_: &mut AudioCtx, _: &mut UGenFlags| {
                tick();
                i += 1.0;
                F::new(i)
            });
            (run(&mut u, 48000, div, n, &input, &[])?, vec![(0..n).map(|f| f as f64 + 1.0).collect()])
        }
        1 => {
            let seen = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
            let s2 = seen.clone();
            let mut u = ugen::<F, U1, U0>(move |_: &mut AudioCtx, _: &mut UGenFlags, s: F| {
                tick();
                s2.lock().unwrap().push(Float::to_f64(s));
            });
            let t = run(&mut u, 48000, div, n, &input, &[])?;
            let got = seen.lock().unwrap().clone();
            let want: Vec<f64> = (0..n).map(|f| x(0, f)).collect();
            ensure!(got == want, "closure", "a consuming closure saw {} frames, not the {n} of its input", got.len());
            (t, vec![])
        }
        2 => {
            let mut u = ugen::<F, U1, U2>(move |_: &mut AudioCtx, _: &mut UGenFlags, s: [F; 1]| {
                tick();
                [s[0], -s[0]]
            });
            (run(&mut u, 48000, div, n, &input, &[])?, vec![(0..n).map(|f| x(0, f)).collect(), (0..n).map(|f| -x(0, f)).collect()])
        }
        3 => {
            let mut last = 0.0f64;
            let mut u = ugen::<F, U2, U1>(move |_: &mut AudioCtx, _: &mut UGenFlags, s: [F; 2]| {
                tick();
                let o = F::new(last);
                last = Float::to_f64(s[1]);
                [o]
            });
            (run(&mut u, 48000, div, n, &input, &[])?, vec![(0..n).map(|f| if f == 0 { 0.0 } else { x(1, f - 1) }).collect()])
        }
        4 => {
            let mut u = ugen::<F, U4, U3>(move |_: &mut AudioCtx, _: &mut UGenFlags, s: [F; 4]| {
                tick();
                [s[3], s[2], s[1]]
            });
            (run(&mut u, 48000, div, n, &input, &[])?, vec![(0..n).map(|f| x(3, f)).collect(), (0..n).map(|f| x(2, f)).collect(), (0..n).map(|f| x(1, f)).collect()])
        }
        _ => {
            let at = c.rng.below(n);
            let mut i = 0;
            let mut u = ugen::<F, U1, U1>(move |cx: &mut AudioCtx, fl: &mut UGenFlags, s: [F; 1]| {
                tick();
                if i == at {
                    fl.mark_remove_self(cx);
                }
                i += 1;
                [s[0]]
            });
            let t = run(&mut u, 48000, div, n, &input, &[])?;
            ensure!(t.remove_self, "closure-flags", "the flags set by a closure were lost");
            (t, vec![(0..n).map(|f| x(0, f)).collect()])
        }
    };
    for (k, w) in want.iter().enumerate() {
        for f in 0..n {
            ensure!(t.out[k][f] == w[f], "closure", "closure {kind}: frame {f} channel {k} is {} instead of {}", t.out[k][f], w[f]);
        }
    }
    let k = calls.load(std::sync::atomic::Ordering::Relaxed);
    ensure!(k == n, "closure-calls", "a closure was called {k} times in {n} frames");
    Ok(())
}

fn probe<F: Float>(c: &mut Case) -> Res {
    let sr = 1 + c.rng.below(300);
    let n = 200 + c.rng.below(3000);
    c.note(format!("probe every {sr} of {n} {}", std::any::type_name::<F>()));
    let (tx, mut rx) = log_channel(sr, n);
    let mut cx = AudioCtx::new(sr as u32, 64, tx);
    let mut u = LogProbe::<F>::new("the probe");
    u.init(sr as u32, 64);
    let input = noise(&mut c.rng, 1, n);
    for x in &input[0] {
        tick(&mut u, &mut cx, &[*x]);
    }
    let got = rx();
    let want: Vec<String> = (0..n).step_by(sr).map(|f| format!("Probe the probe {}", Float::to_f64(F::new(input[0][f])))).collect();
    ensure!(got.len() == want.len(), "probe-count", "{} logs of {n} frames, expected one every {sr}: {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g == w, "probe-value", "log {i} is '{g}' instead of '{w}'");
    }
    c.nontrivial();
    Ok(())
}

fn reverb<F: Float>(c: &mut Case) -> Res {
    let sr = *c.rng.pick(&[8000u32, 16000, 44100, 48000, 96000]);
    let bs = c.rng.block(&[16usize, 64, 256]);
    let n = (if c.thorough { 60000 } else { 6000 } + c.rng.below(6000)).div_ceil(bs) * bs;
    let (div, ok) = any_div(c, n, bs);
    let set = |r: &mut Rng| match r.below(4) {
        0 => 0.0,
        1 => 1.0,
        _ => r.f64() as f32 as f64,
    };
    let mut p = [0.0; 5];
    for x in p.iter_mut() {
        *x = set(&mut c.rng);
    }
    let dry = c.rng.chance(1, 3);
    if dry {
        p[4] = 0.0;
    }
    let mut chg = vec![];
    let moving = *c.rng.pick(&[0usize, 5, 60]);
    for _ in 0..moving {
        let k = c.rng.below(if dry { 4 } else { 5 });
        let v = set(&mut c.rng);
        chg.push(ch(*c.rng.pick(&ok), k, v));
    }
    chg.sort_by_key(|x| x.frame);
    let loud = *c.rng.pick(&[1.0, 1.0, 0.0, 1e-30, 3.0, 1000.0]);
    let mut input = noise(&mut c.rng, 2, n);
    let burst = c.rng.chance(1, 2);
    for ch in input.iter_mut() {
        for (f, x) in ch.iter_mut().enumerate() {
            *x = if burst && f > n / 3 { 0.0 } else { (*x * loud) as f32 as f64 };
        }
    }
    c.note(format!("reverb {} {p:?} at {sr} loud {loud} moving {moving} dry {dry} {}", std::any::type_name::<F>(), c.index));
    let mut u = Galactic::<F>::new(F::new(p[0]), F::new(p[1]), F::new(p[2]), F::new(p[3]), F::new(p[4]));
    let t = match guarded(|| run(&mut u, sr, &div, n, &input, &chg)) {
        Ok(t) => t?,
        Err(e) => bail!("reverb-panic", "{p:?} at {sr}, input up to {loud}: panic {e}"),
    };
    for k in 0..2 {
        for f in 0..n {
            let (x, y) = (input[k][f], t.out[k][f]);
            ensure!(y.is_finite() && y.abs() <= 1e-3 + 60.0 * loud, "reverb-bounded", "{p:?} at {sr}: frame {f} channel {k} is {y} for input up to {loud}");
            if dry {
                ensure!((x - y).abs() <= 1e-6 * (1.0 + x.abs()), "reverb-dry", "{p:?} at {sr}: fully dry, frame {f} channel {k}: {x} becomes {y}");
            }
        }
    }
    c.count("frames of reverb", n as u64);
    c.nontrivial();
    Ok(())
}
/// A wet reverb lasts, is different on both sides and falls silent when it isn't infinite.
fn tail<F: Float>(c: &mut Case) -> Res {
    let sr = 44100;
    let rep = c.rng.uniform(0.5, 1.0);
    let bright = c.rng.uniform(0.3, 1.0);
    let n = 44100 * 3;
    c.note(format!("tail {} {rep} {bright} #{}", std::any::type_name::<F>(), c.index));
    let mut u = Galactic::<F>::new(F::new(rep), F::new(0.2), F::new(bright), F::new(0.0), F::new(1.0));
    let mut input = noise(&mut c.rng, 2, n);
    for ch in input.iter_mut() {
        for x in ch[2000..].iter_mut() {
            *x = 0.0;
        }
    }
    let t = run(&mut u, sr, &Div::Blocks(60), n, &input, &[])?;
    let e = |a: usize, b: usize| (t.out[0][a..b].iter().map(|x| x * x).sum::<f64>() / (b - a) as f64).sqrt();
    let (early, late) = (e(3000, 8000), e(n - 5000, n));
    ensure!(early > 1e-5, "reverb-silent", "no reverberation after a burst of noise: {early}");
    ensure!(late < early, "reverb-tail", "replace {rep}: the tail grows from {early} to {late} in 3 s");
    c.nontrivial();
    Ok(())
}

/// A log sender and a function that takes what was received
fn log_channel(_sr: usize, n: usize) -> (ArLogSender, impl FnMut() -> Vec<String>) {
    let (s, mut r) = ArLogReceiver::new().sender(n * 8 + 64);
    (s, move || {
        let mut v = vec![];
        let mut cur: Vec<String> = vec![];
        r.recv(|m| {
            for x in m {
                match x {
                    ArLogMessage::Str(s) => cur.push(s.to_string()),
                    ArLogMessage::Float(f) => cur.push(f.to_string()),
                    ArLogMessage::End => v.push(std::mem::take(&mut cur).join(" ")),
                    o => cur.push(format!("{o:?}")),
                }
            }
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur).join(" "));
            }
        });
        v
    })
}

pub fn run_check(r: &mut Run) {
    r.rule = "(pan) Pan2 at random and extreme positions changing while running: gains, power, ends and centre; (utility) Constant, SafetyLimiter, DoneOnTrig and closures of several shapes, with changes and triggers at random frames and any division of time, compared exactly; (probe) LogProbe's messages against every N-th frame; (reverb) Galactic at random and moving settings, sample rates and levels: bounded, finite, dry unchanged; (tail) its reverberation exists and decays; distinct by configuration".into();
    r.assumptions = vec!["panning uses an approximation of sine and cosine, compared to 0.2 % of the input".into(), "the dither of the reverb is below 1e-6 of the signal".into()];
    r.cases("pan", r.n(120000, 2400000), |c| if c.rng.chance(1, 2) { pan::<f32>(c) } else { pan::<f64>(c) });
    r.cases("utility", r.n(300000, 6000000), |c| if c.rng.chance(1, 2) { utility::<f32>(c) } else { utility::<f64>(c) });
    r.cases("probe", r.n(10000, 200000), |c| if c.rng.chance(1, 2) { probe::<f32>(c) } else { probe::<f64>(c) });
    r.cases("reverb", r.n(5000, 20000), |c| if c.rng.chance(1, 2) { reverb::<f32>(c) } else { reverb::<f64>(c) });
    r.cases("tail", r.n(64, 600), |c| if c.rng.chance(1, 2) { tail::<f32>(c) } else { tail::<f64>(c) });
}

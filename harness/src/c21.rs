//! C21: oscillators.
use crate::common::*;
use crate::dsp::*;
use crate::{bail, ensure};
use knaster_core::{Float, ParameterValue, PInteger, UGen};
use knaster_core_dsp::dsp::wavetable::*;
use knaster_core_dsp::osc::*;
use knaster_core_dsp::polyblep::*;
use std::f64::consts::{PI, TAU};

const RATES: &[u32] = &[8000, 22050, 44100, 48000, 96000, 192000];
fn frac(x: f64) -> f64 {
    x - x.floor()
}
/// distance of two phases on the circle
fn circ(a: f64, b: f64) -> f64 {
    let d = frac(a - b);
    d.min(1.0 - d)
}

struct Osc<T> {
    name: String,
    ugen: T,
    /// value at a phase, in periods
    shape: Box<dyn Fn(f64) -> f64>,
    /// how far the output can be off, per period of phase error
    slope: f64,
    /// phase resolution
    res: f64,
    /// phase error that may accumulate per frame
    drift: f64,
    lo: f64,
    hi: f64,
    /// compare as a phase (the output jumps)
    circular: bool,
}

/// The phase is the accumulated frequency plus the offset.
fn phase<F: Float, T: UGen<Sample = F>>(c: &mut Case, f0: f64, mut o: Osc<T>) -> Res {
    let sr = *c.rng.pick(RATES);
    let bs = *c.rng.pick(&[1usize, 8, 64, 128]);
    let len = if c.rng.chance(1, if c.thorough { 200 } else { 2500 }) {
        2_000_000
    } else if c.rng.chance(1, 20) {
        40_000
    } else {
        200 + c.rng.below(1500)
    };
    let n = len.div_ceil(bs) * bs;
    let div = match c.rng.below(3) {
        0 => Div::Frames,
        1 => Div::Blocks(bs),
        _ => Div::Parts(bs, cuts(&mut c.rng, n.min(4000), bs)),
    };
    let mut ok: Vec<usize> = match &div {
        Div::Frames => (0..n).collect(),
        Div::Blocks(b) => (0..n / b).map(|i| i * b).collect(),
        Div::Parts(b, c) => (0..n / b).map(|i| i * b).chain(c.iter().copied()).collect(),
    };
    ok.sort();
    ok.dedup();
    let d = T::param_descriptions();
    let idx = |name: &str| d.iter().position(|x| *x == name);
    let pick_f = |c: &mut Case| -> f64 {
        (match c.rng.below(8) {
            0 => 0.0,
            1 => -c.rng.uniform(1.0, 5000.0),
            2 => c.rng.uniform(0.001, 2.0),
            3 => sr as f64 / (1u32 << c.rng.below(9)) as f64,
            4 => c.rng.uniform(0.2, 1.9) * sr as f64,
            _ => c.rng.uniform(20.0, 5000.0),
        }) as f32 as f64
    };
    #[derive(Debug, Clone, Copy)]
    enum E {
        Freq(f64),
        Offset(f64),
        Reset,
    }
    let mut evs: Vec<(usize, E)> = vec![];
    for _ in 0..c.rng.below(8) {
        let f = *c.rng.pick(&ok);
        let e = match c.rng.below(5) {
            0 if idx("phase_offset").is_some() => {
                let v = if c.rng.chance(1, 5) { 1.0 } else { c.rng.f64() as f32 as f64 };
                E::Offset(v)
            }
            1 if idx("reset_phase").is_some() => E::Reset,
            _ => E::Freq(pick_f(c)),
        };
        evs.push((f, e));
    }
    evs.sort_by_key(|e| e.0);
    c.note(format!("{} at {sr} from {f0} Hz {div:?} {n} frames {evs:?}", o.name).chars().take(600).collect::<String>());
    let changes: Vec<Change> = evs
        .iter()
        .map(|(f, e)| match e {
            E::Freq(v) => ch(*f, idx("freq").unwrap(), *v),
            E::Offset(v) => ch(*f, idx("phase_offset").unwrap(), *v),
            E::Reset => ch(*f, idx("reset_phase").unwrap(), ParameterValue::Trigger),
        })
        .collect();
    let t = run(&mut o.ugen, sr, &div, n, &[], &changes)?;
    let (mut ph, mut off, mut freq) = (0.0f64, 0.0f64, f0);
    let mut ei = 0;
    let mut since = 0.0;
    for f in 0..n {
        while ei < evs.len() && evs[ei].0 <= f {
            match evs[ei].1 {
                E::Freq(v) => freq = v,
                E::Offset(v) => off = v,
                E::Reset => {
                    ph = 0.0;
                    since = 0.0;
                }
            }
            ei += 1;
        }
        let g = t.out[0][f];
        ensure!(
            g >= o.lo - 1e-6 && g <= o.hi + 1e-6,
            "range",
            "{} frame {f}: output {g} is outside of {}..{}",
            o.name,
            o.lo,
            o.hi
        );
        let tol = o.res + since * o.drift * (1.0 + (freq / sr as f64).abs());
        let p = ph + off;
        if o.circular {
            ensure!(
                circ(g, p) <= tol + 1e-6,
                "phase",
                "{} frame {f}: the phase is {g}, the accumulated frequency is {}",
                o.name,
                frac(p)
            );
        } else {
            let w = (o.shape)(frac(p));
            ensure!(
                (g - w).abs() <= o.slope * tol + 2e-6,
                "phase",
                "{} frame {f}: output {g}, the waveform at the accumulated phase {} is {w}",
                o.name,
                frac(p)
            );
        }
        // kept small for its resolution
        ph = frac(ph + freq / sr as f64);
        since += 1.0;
    }
    c.count("oscillator frames compared", n as u64);
    if n > 10 {
        c.nontrivial();
    }
    Ok(())
}
fn phase_any<F: Float>(c: &mut Case) -> Res {
    let f0 = (if c.rng.chance(1, 6) { 0.0 } else { c.rng.uniform(0.5, 6000.0) }) as f32 as f64;
    let fl = if is32::<F>() { 2.0 * f32::EPSILON as f64 } else { 1e-14 };
    let ty = std::any::type_name::<F>();
    match c.rng.below(5) {
        0 => phase::<F, _>(
            c,
            f0,
            Osc {
                name: format!("SinWt<{ty}>"),
                ugen: SinWt::<F>::new(F::new(f0)),
                shape: Box::new(|p| (p * TAU).sin()),
                slope: TAU,
                res: 1.01 / TABLE_SIZE as f64,
                drift: 1.0 / (1u64 << 30) as f64,
                lo: -1.0,
                hi: 1.0,
                circular: false,
            },
        ),
        1 => phase::<F, _>(
            c,
            f0,
            Osc {
                name: format!("SinNumeric<{ty}>"),
                ugen: SinNumeric::<F>::new(F::new(f0)),
                shape: Box::new(|p| (p * TAU).sin()),
                slope: TAU,
                res: 4.0 * fl,
                drift: fl,
                lo: -1.0,
                hi: 1.0,
                circular: false,
            },
        ),
        2 => phase::<F, _>(
            c,
            f0,
            Osc {
                name: format!("Phasor<{ty}>"),
                ugen: Phasor::<F>::new(f0),
                shape: Box::new(|p| p),
                slope: 1.0,
                res: fl,
                drift: 1e-15,
                lo: 0.0,
                hi: 1.0,
                circular: true,
            },
        ),
        k => phase::<F, _>(
            c,
            f0,
            Osc {
                name: format!("PolyBlep<{ty}> {}", if k == 3 { "sine" } else { "saw as sine above sr/4" }),
                ugen: PolyBlep::<F>::new(Waveform::Sine, F::new(f0)),
                shape: Box::new(|p| (p * TAU).sin()),
                slope: TAU,
                res: 4.0 * fl,
                drift: fl,
                lo: -1.0,
                hi: 1.0,
                circular: false,
            },
        ),
    }
}

const WAVES: [Waveform; 14] = [
    Waveform::Sawtooth,
    Waveform::Sine,
    Waveform::Cosine,
    Waveform::Triangle,
    Waveform::Square,
    Waveform::Rectangle,
    Waveform::Ramp,
    Waveform::ModifiedTriangle,
    Waveform::ModifiedSquare,
    Waveform::HalfWaveRectifiedSine,
    Waveform::FullWaveRectifiedSine,
    Waveform::TriangularPulse,
    Waveform::TrapezoidFixed,
    Waveform::TrapezoidVariable,
];
fn tri(t: f64) -> f64 {
    let t = frac(t);
    if t < 0.25 {
        4.0 * t
    } else if t < 0.75 {
        2.0 - 4.0 * t
    } else {
        4.0 * t - 4.0
    }
}
fn sq(t: f64) -> f64 {
    if frac(t) < 0.5 { 1.0 } else { -1.0 }
}
/// The ideal waveform: value, phases of its jumps, phases of its corners with the change of slope
fn ideal(w: Waveform, t: f64, pw: f64) -> f64 {
    let t = frac(t);
    match w {
        Waveform::Sine => (t * TAU).sin(),
        Waveform::Cosine => (t * TAU).cos(),
        Waveform::Triangle => tri(t),
        Waveform::Square => sq(t),
        Waveform::Rectangle => if t < pw { 2.0 - 2.0 * pw } else { -2.0 * pw },
        Waveform::Sawtooth => 2.0 * frac(t + 0.5) - 1.0,
        Waveform::Ramp => 1.0 - 2.0 * t,
        Waveform::ModifiedTriangle => {
            if t < pw / 2.0 {
                2.0 * t / pw
            } else if t < 1.0 - pw / 2.0 {
                (1.0 - 2.0 * t) / (1.0 - pw)
            } else {
                (2.0 * t - 2.0) / pw
            }
        }
        Waveform::ModifiedSquare => {
            let a = t + 0.875 + 0.25 * (pw - 0.5);
            0.5 * (sq(a) + sq(a + 0.5 * (1.0 - pw)))
        }
        Waveform::HalfWaveRectifiedSine => 2.0 * (t * TAU).sin().max(0.0) - 2.0 / PI,
        Waveform::FullWaveRectifiedSine => 2.0 * (frac(t + 0.25) * PI).sin() - 4.0 / PI,
        Waveform::TriangularPulse => {
            let a = frac(t + 0.75 + 0.5 * pw);
            if a >= pw {
                -pw
            } else {
                let x = a / pw;
                (if x < 0.5 { 4.0 * x } else { 4.0 - 4.0 * x }) - pw
            }
        }
        Waveform::TrapezoidFixed => (2.0 * tri(t)).clamp(-1.0, 1.0),
        Waveform::TrapezoidVariable => (tri(t) / (1.0 - pw.min(0.9999))).clamp(-1.0, 1.0),
    }
}
/// (phases of jumps, phases of corners, biggest jump, biggest change of slope)
fn breaks(w: Waveform, pw: f64) -> (Vec<f64>, Vec<f64>, f64, f64) {
    let a = -(0.875 + 0.25 * (pw - 0.5));
    match w {
        Waveform::Sine | Waveform::Cosine => (vec![], vec![], 0.0, 0.0),
        Waveform::Triangle => (vec![], vec![0.25, 0.75], 0.0, 8.0),
        Waveform::Square => (vec![0.0, 0.5], vec![], 2.0, 0.0),
        Waveform::Rectangle => (vec![0.0, pw], vec![], 2.0, 0.0),
        Waveform::Sawtooth => (vec![0.5], vec![], 2.0, 0.0),
        Waveform::Ramp => (vec![0.0], vec![], 2.0, 0.0),
        Waveform::ModifiedTriangle => {
            (vec![], vec![pw / 2.0, 1.0 - pw / 2.0], 0.0, 2.0 / pw + 2.0 / (1.0 - pw))
        }
        Waveform::ModifiedSquare => {
            let b = a - 0.5 * (1.0 - pw);
            (vec![a, a + 0.5, b, b + 0.5], vec![], 1.0, 0.0)
        }
        Waveform::HalfWaveRectifiedSine => (vec![], vec![0.0, 0.5], 0.0, 4.0 * PI),
        Waveform::FullWaveRectifiedSine => (vec![], vec![0.75], 0.0, 4.0 * PI),
        Waveform::TriangularPulse => {
            let s = 0.25 - 0.5 * pw;
            (vec![], vec![s, s + pw / 2.0, s + pw], 0.0, 8.0 / pw)
        }
        Waveform::TrapezoidFixed => (vec![], vec![0.125, 0.375, 0.625, 0.875], 0.0, 8.0),
        Waveform::TrapezoidVariable => {
            let s = 0.25 * (1.0 - pw.min(0.9999));
            (vec![], vec![s, 0.5 - s, 0.5 + s, 1.0 - s], 0.0, 4.0 / (1.0 - pw.min(0.9999)))
        }
    }
}

/// Sweeping the phase of a PolyBlep: its ideal waveform away from the corners, rounded corners at them.
fn waveform<F: Float>(c: &mut Case) -> Res {
    let w = *c.rng.pick(&WAVES);
    // at least two samples between any two corners
    let pw = c.rng.uniform(0.05, 0.95) as f32 as f64;
    let gap = {
        let (j, k, _, _) = breaks(w, pw);
        let mut all: Vec<f64> = j.iter().chain(k.iter()).map(|x| frac(*x)).collect();
        all.sort_by(|a, b| a.total_cmp(b));
        let mut g: f64 = 1.0;
        for i in 0..all.len() {
            let nx = if i + 1 < all.len() { all[i + 1] } else { all[0] + 1.0 };
            g = g.min(nx - all[i]);
        }
        g
    };
    let sr = *c.rng.pick(&[44100.0f64, 48000.0]);
    let mut dt = c.rng.uniform(0.0005, 0.2499).min(gap / 2.05);
    if c.rng.chance(1, 2) {
        dt = dt.min(0.02)
    }
    let dt = dt as f32 as f64;
    let down = c.rng.chance(1, 4);
    let ty = std::any::type_name::<F>();
    c.note(format!("PolyBlep<{ty}> {w:?} pulse width {pw} {dt} periods per sample {}", if down { "backwards" } else { "" }));
    if dt < 1e-4 {
        return Ok(());
    }
    let mut o = PolyBlep::<F>::new(w, F::new(440.0f32));
    o.init(sr as u32, 64);
    if c.rng.chance(1, 2) {
        o.waveform(PInteger::from(w));
    }
    o.pulse_width(pw);
    o.set_dt(F::new(if down { -dt } else { dt }));
    let (jumps, corners, jump, bend) = breaks(w, pw);
    let e = if is32::<F>() { 2e-6 } else { 1e-12 };
    let steps = 1200;
    let delta = 1.0 / steps as f64;
    let near = |t: f64, v: &[f64], d: f64| v.iter().any(|x| circ(*x, t) < d);
    let smooth = bend + 15.0;
    let lo_hi = (0..4000).map(|i| ideal(w, i as f64 / 4000.0, pw)).fold((f64::MAX, f64::MIN), |a, x| (a.0.min(x), a.1.max(x)));
    let mut prev: Option<f64> = None;
    let start = c.rng.f64() * 3.0 - 1.5;
    for i in 0..=steps {
        let t = start + i as f64 * delta;
        o.sync(F::new(t));
        let y = o.next_sample().to_f64();
        let id = ideal(w, t, pw);
        ensure!(
            y.is_finite() && y >= lo_hi.0 - 0.02 * (lo_hi.1 - lo_hi.0) && y <= lo_hi.1 + 0.02 * (lo_hi.1 - lo_hi.0),
            "range",
            "{w:?} at phase {}: {y} is outside of {lo_hi:?}",
            frac(t)
        );
        let scale = 1.0 + bend;
        if !near(t, &jumps, dt * 1.001 + 1e-6) && !near(t, &corners, dt * 1.001 + 1e-6) {
            ensure!(
                (y - id).abs() <= e * scale,
                "waveform",
                "{w:?} (pulse width {pw}) at phase {}: {y}, the waveform is {id}",
                frac(t)
            );
        } else {
            ensure!(
                (y - id).abs() <= jump * 0.51 * jumps.len().max(1) as f64 + bend * dt * 0.2 + e * scale,
                "waveform",
                "{w:?} (pulse width {pw}) at phase {}: {y} is too far from the waveform's {id}",
                frac(t)
            );
        }
        // jumps are spread over a sample on either side
        if let Some(p) = prev {
            let lim = delta * (smooth + 2.0 * (jump * 1.01 + 0.01) / dt) + 2.0 * e * scale;
            ensure!(
                (y - p).abs() <= lim,
                "discontinuity",
                "{w:?} (pulse width {pw}) around phase {}: goes from {p} to {y} in {delta} of a period, at {dt} of a period per sample",
                frac(t)
            );
        }
        prev = Some(y);
    }
    // corners: the slope changes over at least a sample (double precision only, differences are small)
    if !is32::<F>() && bend > 0.0 && dt > 1e-3 {
        let d = dt / 50.0;
        for k in &corners {
            for j in -60..60 {
                let t = k + j as f64 * d * 1.1 + 2.0;
                let mut y = [0.0; 3];
                for (m, y) in y.iter_mut().enumerate() {
                    o.sync(F::new(t + (m as f64 - 1.0) * d));
                    *y = o.next_sample().to_f64();
                }
                let turn = (y[2] - 2.0 * y[1] + y[0]).abs() / d;
                let lim = bend * d / dt * 1.6 + 90.0 * d + 1e-6 / d * 1e-6;
                ensure!(
                    turn <= lim,
                    "discontinuity",
                    "{w:?} (pulse width {pw}): the slope changes by {turn} within {d} of a period around {}, at most {lim} expected",
                    frac(t)
                );
            }
        }
    }
    // above a quarter of the sample rate only a sine is left
    let high = c.rng.uniform(0.2501, 0.9);
    o.set_dt(F::new(high));
    let t = c.rng.f64();
    o.sync(F::new(t));
    let y = o.next_sample().to_f64();
    ensure!(
        (y - (t * TAU).sin()).abs() < 1e-5,
        "waveform",
        "{w:?} above a quarter of the sample rate is {y} at phase {t}, a sine is {}",
        (t * TAU).sin()
    );
    c.count("waveform points compared", steps);
    c.nontrivial();
    Ok(())
}
/// A PolyBlep moved to another sample rate keeps its frequency and its phase.
fn moved<F: Float>(c: &mut Case) -> Res {
    let w = *c.rng.pick(&WAVES);
    let (sr0, sr1) = (*c.rng.pick(RATES), *c.rng.pick(RATES));
    let f = c.rng.uniform(10.0, sr0.min(sr1) as f64 / 5.0) * if c.rng.chance(1, 4) { -1.0 } else { 1.0 };
    let late = c.rng.chance(1, 2);
    c.note(format!("PolyBlep<{}> {w:?} {f} Hz from {sr0} to {sr1} {late}", std::any::type_name::<F>()));
    let mut o = PolyBlep::<F>::new(w, F::new(if late { 100.0 } else { f }));
    o.init(sr0, 64);
    if late {
        o.freq(f);
    }
    let mut phase = 0.0f64;
    for _ in 0..c.rng.below(50) {
        let _ = o.process();
        phase += f / sr0 as f64;
    }
    o.set_sample_rate(F::new(sr1 as f64));
    let got = o.get_freq_in_hz().to_f64();
    ensure!((got - f).abs() <= f.abs() * 1e-6, "rate-frequency", "{f} Hz becomes {got} Hz");
    // the same oscillator made for that rate, held at the phase
    let mut q = PolyBlep::<F>::new(w, F::new(f));
    q.init(sr1, 64);
    for k in 0..50 {
        let near = [-1e-4, 0.0, 1e-4].map(|d| {
            q.sync(F::new((phase + d).rem_euclid(1.0)));
            q.next_sample().to_f64()
        });
        let y = o.process()[0].to_f64();
        let (lo, hi) = (near.iter().fold(f64::MAX, |a, b| a.min(*b)), near.iter().fold(f64::MIN, |a, b| a.max(*b)));
        ensure!(y >= lo - 1e-3 && y <= hi + 1e-3, "rate-phase", "frame {k} after the move is {y}, at phase {phase} it would be {near:?}");
        phase += f / sr1 as f64;
    }
    c.nontrivial();
    Ok(())
}
/// The running PolyBlep moves through its phase continuously whatever is changed.
fn running<F: Float>(c: &mut Case) -> Res {
    let w = *c.rng.pick(&WAVES);
    let sr = *c.rng.pick(RATES);
    let f0 = c.rng.uniform(1.0, sr as f64 / 10.0) as f32 as f64;
    let bs = *c.rng.pick(&[1usize, 8, 64, 128]);
    let n = 640;
    let div = match c.rng.below(3) {
        0 => Div::Frames,
        1 => Div::Blocks(bs),
        _ => Div::Parts(bs, cuts(&mut c.rng, n, bs)),
    };
    let mut ok: Vec<usize> = match &div {
        Div::Frames => (0..n).collect(),
        Div::Blocks(b) => (0..n / b).map(|i| i * b).collect(),
        Div::Parts(b, c) => (0..n / b).map(|i| i * b).chain(c.iter().copied()).collect(),
    };
    ok.sort();
    ok.dedup();
    #[derive(Debug, Clone, Copy)]
    enum E {
        Freq(f64),
        Width(f64),
        Wave(Waveform),
    }
    let mut evs = vec![];
    for _ in 0..c.rng.below(8) {
        let f = *c.rng.pick(&ok);
        let e = match c.rng.below(4) {
            0 => E::Wave(*c.rng.pick(&WAVES)),
            1 => E::Width(c.rng.uniform(0.1, 0.9) as f32 as f64),
            2 => E::Freq(-c.rng.uniform(0.0, sr as f64 / 10.0) as f32 as f64),
            _ => E::Freq(c.rng.uniform(0.0, sr as f64 / 3.0) as f32 as f64),
        };
        evs.push((f, e));
    }
    evs.sort_by_key(|e| e.0);
    c.note(format!("PolyBlep<{}> {w:?} {f0} Hz at {sr} {div:?} {evs:?}", std::any::type_name::<F>()));
    let changes: Vec<Change> = evs
        .iter()
        .map(|(f, e)| match e {
            E::Freq(v) => ch(*f, 0, *v),
            E::Width(v) => ch(*f, 1, *v),
            E::Wave(w) => ch(*f, 2, ParameterValue::Integer(PInteger::from(*w))),
        })
        .collect();
    if PolyBlep::<F>::param_descriptions().as_slice() != ["freq", "pulse_width", "waveform"] {
        bail!("harness", "unexpected parameters {:?}", PolyBlep::<F>::param_descriptions());
    }
    let mut u = PolyBlep::<F>::new(w, F::new(f0));
    let t = run(&mut u, sr, &div, n, &[], &changes)?;
    // the phase accumulated by definition, the value by a second instance held at that phase
    let mut q = PolyBlep::<F>::new(w, F::new(f0));
    q.init(sr, 1);
    let (mut ph, mut freq) = (0.0, f0);
    let mut cur = (w, 0.5);
    let mut ei = 0;
    for f in 0..n {
        while ei < evs.len() && evs[ei].0 <= f {
            match evs[ei].1 {
                E::Freq(v) => {
                    freq = v;
                    q.freq(v)
                }
                E::Width(v) => {
                    cur.1 = v;
                    q.pulse_width(v)
                }
                E::Wave(v) => {
                    cur.0 = v;
                    q.waveform(PInteger::from(v))
                }
            }
            ei += 1;
        }
        let g = t.out[0][f];
        let (jumps, corners, jump, bend) = breaks(cur.0, cur.1);
        let dt = (freq / sr as f64).abs();
        ensure!(g.is_finite() && g.abs() < 4.0, "range", "PolyBlep frame {f}: {g}");
        if dt < 0.2499 {
            let d = dt * 1.01 + 1e-4;
            let close_to = |v: &[f64]| v.iter().any(|x| circ(*x, ph) < d);
            let sl = 14.0 + bend;
            let w = ideal(cur.0, ph, cur.1);
            let slack = if close_to(&jumps) || close_to(&corners) { 2.0 * jump + bend * dt } else { 0.0 };
            ensure!(
                (g - w).abs() <= sl * (f as f64 + 2.0) * (if is32::<F>() { 1.5e-7 } else { 1e-12 }) + slack + 1e-9,
                "phase",
                "PolyBlep {cur:?} frame {f}: {g}, the waveform at the accumulated phase {} is {w}",
                frac(ph)
            );
        } else if dt > 0.2501 {
            let w = (ph * TAU).sin();
            ensure!(
                (g - w).abs() <= 7.0 * (f as f64 + 2.0) * (if is32::<F>() { 1.5e-7 } else { 1e-12 }) + 1e-9,
                "phase",
                "PolyBlep {cur:?} at {freq} Hz frame {f}: {g}, a sine at the accumulated phase is {w}"
            );
        }
        // kept small for its resolution
        ph = frac(ph + freq / sr as f64);
    }
    c.count("oscillator frames compared", n as u64);
    c.nontrivial();
    Ok(())
}

/// Wavetables hold what they are named after and interpolate between neighbours.
fn table<F: Float>(c: &mut Case) -> Res {
    let k = c.rng.below(8);
    let (amp, fr, p0) = (c.rng.uniform(0.1, 2.0), 1.0 + c.rng.below(4) as f64, c.rng.f64() * TAU);
    let data: Vec<f64> = (0..TABLE_SIZE).map(|_| c.rng.uniform(-1.0, 1.0) as f32 as f64).collect();
    let buf = || -> Vec<F> { data.iter().map(|x| F::new(*x)).collect() };
    let mut one = NonAaWavetable::<F>::new();
    let mut w = Wavetable::<F>::new();
    let d2 = data.clone();
    let f: Box<dyn Fn(f64) -> f64> = match k {
        0 => {
            one = NonAaWavetable::sine();
            w = Wavetable::sine();
            Box::new(|p| (p * TAU).sin())
        }
        1 => {
            one = NonAaWavetable::cosine();
            w = Wavetable::cosine();
            Box::new(|p| (p * TAU).cos())
        }
        2 => {
            one = NonAaWavetable::aliasing_saw();
            w = Wavetable::aliasing_saw();
            Box::new(|p| 2.0 * p - 1.0)
        }
        3 => {
            one = NonAaWavetable::hann_window();
            w = Wavetable::hann_window();
            Box::new(|p| 0.5 - 0.5 * (p * TAU).cos())
        }
        4 => {
            one = NonAaWavetable::hamming_window();
            w = Wavetable::hamming_window();
            Box::new(|p| 0.53836 - 0.46164 * (p * TAU).cos())
        }
        5 => {
            one = NonAaWavetable::sine_window();
            w = Wavetable::sine_window();
            Box::new(|p| (p * PI).sin())
        }
        6 => {
            one.add_sine(fr, amp, p0);
            one.multiply(F::new(0.5f32));
            w.add_sine(fr, amp, p0);
            w.multiply(F::new(0.5f32));
            // the highest tables leave out harmonics
            Box::new(move |p| (p * TAU * fr + p0).sin() * amp * 0.5)
        }
        _ => {
            one.set_from_buffer(buf());
            w = if c.rng.chance(1, 2) {
                match Wavetable::from_buffer(buf()) {
                    Ok(w) => w,
                    Err(e) => bail!("table", "a buffer of the right size is refused: {e}"),
                }
            } else {
                Wavetable::from_closure(|b| b.copy_from_slice(&buf()))
            };
            Box::new(move |p| d2[(p * TABLE_SIZE as f64).round() as usize % TABLE_SIZE])
        }
    };
    c.note(format!("wavetable {k} {amp} {fr} {p0}"));
    let e = if is32::<F>() { 2e-5 } else { 1e-9 };
    let max_freq = if k == 6 { 4000.0 } else { 30000.0 };
    for _ in 0..400 {
        let i = c.rng.below(TABLE_SIZE);
        let frc = c.rng.below(65536);
        let ph = WavetablePhase((i * 65536 + frc) as u32 | ((c.rng.below(4) as u32) << 30));
        let a = f(i as f64 / TABLE_SIZE as f64);
        let b = f(((i + 1) % TABLE_SIZE) as f64 / TABLE_SIZE as f64);
        let freq = match c.rng.below(4) {
            0 => *c.rng.pick(&[0.0, 32.0, 48.0, -5.0, 9341.736, 14012.6045]),
            1 => c.rng.uniform(0.0, 200.0),
            _ => c.rng.uniform(0.0, max_freq),
        };
        let freq = if k == 6 { freq.min(4000.0) } else { freq };
        let lin = a + (b - a) * frc as f64 / 65536.0;
        let le = e + (b - a).abs() / 30000.0;
        ensure!(ph.integer_component() == i, "table", "phase {ph:?} is at {} instead of {i}", ph.integer_component());
        ensure!(ph.fractional_component() == frc as u32, "table", "phase {ph:?} has fraction {}", ph.fractional_component());
        ensure!(
            (ph.fractional_component_f32() as f64 - frc as f64 / 65536.0).abs() < 2e-5,
            "table",
            "phase {ph:?} has fraction {}",
            ph.fractional_component_f32()
        );
        for (what, g, w, t) in [
            ("get", one.get(ph), a, e),
            ("get_linear_interp", one.get_linear_interp(ph), lin, le),
            ("Wavetable get", w.get(ph, F::new(freq)), a, e),
            ("Wavetable get_linear_interp", w.get_linear_interp(ph, F::new(freq)), lin, le),
        ] {
            let g = g.to_f64();
            ensure!((g - w).abs() <= t, "table", "wavetable {k}: {what} at {i}+{frc}/65536 (freq {freq}) is {g}, expected {w}");
        }
    }
    // normalising scales the loudest sample to one
    w.normalize();
    let mut m = 0.0f64;
    for i in 0..TABLE_SIZE {
        m = m.max(w.get(WavetablePhase((i << 16) as u32), F::new(20.0f32)).to_f64().abs());
    }
    ensure!((m - 1.0).abs() < 1e-5, "table", "a normalised wavetable has a loudest sample of {m}");
    let bad = *c.rng.pick(&[0usize, 1, TABLE_SIZE - 1, TABLE_SIZE + 1]);
    ensure!(
        Wavetable::from_buffer(vec![F::ZERO; bad]).is_err(),
        "table",
        "a wavetable of {bad} samples was accepted"
    );
    c.count("table lookups compared", 1600);
    c.nontrivial();
    Ok(())
}
/// Tables built from harmonics: the amplitude of every harmonic, measured, in the plain table and in
/// the tables of a Wavetable for random frequencies, where harmonics that would sound above 20 kHz are
/// left out.
fn series<F: Float>(c: &mut Case) -> Res {
    let kind = c.rng.below(5);
    let num = 1 + c.rng.below(*c.rng.clone().pick(&[6usize, 60, 300]));
    let freq = 1 + c.rng.below(3);
    let amp = c.rng.uniform(0.1, 1.5);
    let first = c.rng.below(num);
    let falloff = *c.rng.pick(&[0.0, 1.0, 2.0, 0.5]);
    let mut one = NonAaWavetable::<F>::new();
    let mut w = Wavetable::<F>::new();
    // ratio, amplitude
    let want: Vec<(usize, f64)> = match kind {
        0 => {
            one.fill_sine(num, freq as f64);
            w.fill_sine(num, freq as f64);
            (0..num).map(|n| (freq * (n + 1), if n == 0 { 1.0 } else { (num - n) as f64 / num as f64 * 0.5 })).collect()
        }
        1 => {
            one.add_saw(first, num - 1, amp);
            w.add_saw(first, num - 1, amp);
            (first..num).map(|n| (n + 1, amp / (PI * (n + 1) as f64))).collect()
        }
        2 => {
            one.add_saw(0, num, amp);
            w.add_aliasing_saw(num, amp);
            (0..=num).map(|n| (n + 1, amp / (PI * (n + 1) as f64))).collect()
        }
        3 => {
            one.add_odd_harmonics(num, falloff);
            w.add_odd_harmonics(num, falloff);
            (0..num).map(|n| (2 * n + 1, 1.0 / ((2 * n + 1) as f64).powf(falloff))).collect()
        }
        _ => {
            for k in 1..=num.min(20) {
                one.add_sine(k as f64, amp / k as f64, 0.3 * k as f64);
                w.add_sine(k as f64, amp / k as f64, 0.3 * k as f64);
            }
            (1..=num.min(20)).map(|k| (k, amp / k as f64)).collect()
        }
    };
    c.note(format!("series {kind} num {num} freq {freq} amp {amp} first {first} falloff {falloff} F={}", std::any::type_name::<F>()));
    // the harmonics of these are sines; the quarter periods of the others aren't specified
    let sines = matches!(kind, 0..=2);
    let magnitude = |t: &Vec<f64>, r: usize| {
        let (mut a, mut b) = (0.0, 0.0);
        for (i, x) in t.iter().enumerate() {
            let p = ((i * r) % TABLE_SIZE) as f64 / TABLE_SIZE as f64 * TAU;
            a += x * p.sin();
            b += x * p.cos();
        }
        let m = (a * a + b * b).sqrt() * 2.0 / TABLE_SIZE as f64;
        // a sine in phase has all of its magnitude in a
        if sines && m > 1e-3 && a * 2.0 / (TABLE_SIZE as f64) < m * 0.999 { -m } else { m }
    };
    let e = if is32::<F>() { 1e-4 } else { 1e-7 };
    let plain: Vec<f64> = (0..TABLE_SIZE).map(|i| one.get(WavetablePhase((i << 16) as u32)).to_f64()).collect();
    let of = |r: usize| want.iter().filter(|x| x.0 == r).map(|x| x.1).sum::<f64>();
    for _ in 0..6 {
        let r = if c.rng.chance(2, 3) { c.rng.pick(&want).0 } else { 1 + c.rng.below(2 * num + 2) };
        let (g, a) = (magnitude(&plain, r), of(r));
        ensure!((g - a).abs() < e, "series", "harmonic {r} of kind {kind} has amplitude {g} instead of {a}");
    }
    for _ in 0..3 {
        let f = match c.rng.below(3) {
            0 => *c.rng.pick(&[31.9, 33.0, 108.0, 546.7, 9341.0, 9343.0, 14012.0, 14013.0, 20000.0]),
            _ => 20.0 * (1000.0f64).powf(c.rng.f64()),
        };
        let t: Vec<f64> = (0..TABLE_SIZE).map(|i| w.get(WavetablePhase((i << 16) as u32), F::new(f)).to_f64()).collect();
        let top = (20000.0 / f) as usize;
        // one table serves a range of frequencies, half an octave and a bit
        let sure = (20000.0 / (f.max(32.0) * 1.51)) as usize;
        for _ in 0..4 {
            let r = match c.rng.below(4) {
                0 => top.max(1),
                1 => top + 1,
                2 => c.rng.pick(&want).0,
                _ => 1 + c.rng.below(2 * num + 2),
            };
            if r >= TABLE_SIZE / 2 {
                continue;
            }
            let (g, a) = (magnitude(&t, r), of(r));
            // the roll-off of fill_sine depends on the number of harmonics, which is each table's own
            let there = if kind == 0 { (g > e) == (a > e) } else { (g - a).abs() < e };
            let absent = g < e;
            if r <= sure.max(1) {
                ensure!(there, "series", "played at {f} Hz, harmonic {r} of kind {kind} has amplitude {g} instead of {a}");
            } else if r > top.max(1) {
                ensure!(absent, "aliasing", "played at {f} Hz, the table has {g} of harmonic {r} ({} Hz), kind {kind}", f * r as f64);
            } else {
                ensure!(there || absent, "series", "played at {f} Hz, harmonic {r} of kind {kind} has amplitude {g} instead of {a}");
            }
        }
    }
    // noise stays within one, and the interpolation follows
    let seed = c.rng.below(1 << 30) as u32 + 1;
    let base = Float::to_f64(F::new(c.rng.uniform(-1.0, 1.0)));
    let mut n = NonAaWavetable::<F>::new();
    n.fill(F::new(base));
    let prob = c.rng.f64();
    n.add_noise(prob, seed);
    let v: Vec<f64> = (0..TABLE_SIZE).map(|i| n.get(WavetablePhase((i << 16) as u32)).to_f64()).collect();
    let changed = v.iter().filter(|x| **x != base).count() as f64 / TABLE_SIZE as f64;
    ensure!(v.iter().all(|x| x.abs() <= 1.0 + 1e-6), "series", "noise leaves -1..1");
    ensure!((changed - (1.0 - prob)).abs() < 0.03, "series", "noise with probability {prob} changed {changed} of the samples");
    for i in [0, 1, TABLE_SIZE / 2, TABLE_SIZE - 1] {
        let m = n.get_linear_interp(WavetablePhase(((i << 16) + 32768) as u32)).to_f64();
        let want = (v[i] + v[(i + 1) % TABLE_SIZE]) / 2.0;
        ensure!((m - want).abs() < 1e-4, "series", "between samples {i} and the next is {m} instead of {want}");
    }
    c.nontrivial();
    Ok(())
}
macro_rules! both {
    ($f:ident) => {
        |c| if c.rng.chance(1, 2) { $f::<f32>(c) } else { $f::<f64>(c) }
    };
}
pub fn run_check(r: &mut Run) {
    r.rule = "(phase) SinWt, SinNumeric, Phasor and PolyBlep sines with frequency (negative, zero, above the sample rate), offset and reset changes at random frames and any division of time: each sample compared with the waveform at the accumulated frequency plus offset within the resolution of table and float type; (waveform) PolyBlep phase sweeps of all waveforms against independent definitions of the ideal waveform, exact away from corners, bounded and without discontinuity in value or slope at them; (running) PolyBlep under parameter changes against the ideal waveform at the accumulated phase; (table) wavetable contents, lookup and interpolation against closed forms; (series) amplitudes of the harmonics of tables built from harmonics, measured by Fourier transform, for random frequencies; non-trivial: samples were compared; distinct by configuration".into();
    r.cases("phase", r.n(20000, 300000), both!(phase_any));
    r.cases("waveform", r.n(8000, 150000), both!(waveform));
    r.cases("moved", r.n(4000, 60000), both!(moved));
    r.cases("running", r.n(8000, 150000), both!(running));
    r.cases("table", r.n(200, 3000), both!(table));
    r.cases("series", r.n(60, 2000), both!(series));
}

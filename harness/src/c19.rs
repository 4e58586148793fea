//! C19: delay lines.
use crate::common::*;
use crate::dsp::*;
use crate::ensure;
use knaster_core::{Float, Seconds, UGenFlags};
use knaster_core_dsp::delay::*;

const RATES: &[u32] = &[8000, 44100, 48000, 96000];

fn divs(c: &mut Case, n: usize) -> (Div, usize) {
    let bs = c.rng.block(&[1usize, 3, 16, 64]);
    let n = n.div_ceil(bs) * bs;
    match c.rng.below(3) {
        0 => (Div::Frames, n),
        1 => (Div::Blocks(bs), n),
        _ => (Div::Parts(bs, cuts(&mut c.rng, n, bs)), n),
    }
}
fn starts(d: &Div, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = match d {
        Div::Frames => (0..n).collect(),
        Div::Blocks(b) => (0..n / b).map(|i| i * b).collect(),
        Div::Parts(b, c) => (0..n / b).map(|i| i * b).chain(c.iter().copied()).collect(),
    };
    v.sort();
    v.dedup();
    v
}

/// SampleDelay: every output sample is the input sample the set number of frames ago.
fn sample<F: Float>(c: &mut Case) -> Res {
    let sr = *c.rng.pick(RATES);
    let m = match c.rng.below(6) {
        _ if c.rng.chance(1, 300) => 20_000 + c.rng.below(130_000),
        0 => c.rng.below(4),
        1 => c.rng.below(2000),
        _ => c.rng.below(120),
    };
    let extra = c.rng.below(400);
    let (div, n) = divs(c, 1 + 3 * m + extra);
    let st = starts(&div, n);
    let inp = noise(&mut c.rng, 1, n);
    // (frame, shortest accepted, longest accepted)
    let mut set: Vec<(usize, usize, usize)> = vec![];
    let mut changes = vec![];
    for k in 0..1 + c.rng.below(6) {
        let f = if k == 0 { 0 } else { *c.rng.pick(&st) };
        let (secs, lo, hi) = match c.rng.below(8) {
            0 => (m as f64 / sr as f64, m, m),
            1 => ((m as f64 + c.rng.uniform(1.0, 1e7)) / sr as f64, m, m),
            2 => (-c.rng.uniform(0.0, 10.0), 0, 0),
            3 => {
                let x = c.rng.uniform(0.0, m as f64);
                (x / sr as f64, x.floor() as usize, x.ceil() as usize)
            }
            _ => {
                let k = c.rng.below(m + 1);
                (k as f64 / sr as f64, k, k)
            }
        };
        if set.iter().any(|s| s.0 == f) {
            continue;
        }
        set.push((f, lo, hi));
        changes.push(ch(f, 0, secs));
    }
    set.sort();
    changes.sort_by_key(|c| c.frame);
    c.note(format!("SampleDelay {} max {m} at {sr} {div:?}, delays {set:?}", std::any::type_name::<F>()));
    let mut u = SampleDelay::<F>::new(Seconds::from_samples(m as u64, sr as u64));
    let t = run(&mut u, sr, &div, n, &inp, &changes)?;
    let at = |t: usize, d: usize| if t >= d { inp[0][t - d] } else { 0.0 };
    // one accepted delay must explain a whole stretch
    for (i, (f, lo, hi)) in set.iter().enumerate() {
        let end = set.get(i + 1).map(|s| s.0).unwrap_or(n);
        let bad = |d: usize| (*f..end).find(|k| t.out[0][*k] != at(*k, d));
        let b = (*lo..=*hi).map(bad).collect::<Vec<_>>();
        ensure!(
            b.iter().any(|x| x.is_none()),
            "delay",
            "SampleDelay set to {lo}..={hi} frames at frame {f} (maximum {m}): frame {} is {}, the input {lo} frames earlier {}",
            b[0].unwrap(),
            t.out[0][b[0].unwrap()],
            at(b[0].unwrap(), *lo)
        );
    }
    c.count("delayed frames compared", n as u64);
    c.nontrivial();
    Ok(())
}

/// The checks on an impulse response of an all-pass delaying by d frames at DC.
fn allpass_response(h: &[f64], gd: f64, tol: f64, what: &str) -> Res {
    let dc: f64 = h.iter().sum();
    let en: f64 = h.iter().map(|x| x * x).sum();
    let delay: f64 = h.iter().enumerate().map(|(i, x)| i as f64 * x).sum();
    ensure!(h.iter().all(|x| x.is_finite()), "finite", "{what}: impulse response is not finite");
    ensure!((dc - 1.0).abs() < tol, "response", "{what}: the gain at 0 Hz is {dc}");
    ensure!((en - 1.0).abs() < tol, "response", "{what}: the energy of the impulse response is {en}");
    ensure!(
        (delay - gd).abs() < tol * (10.0 + gd),
        "response",
        "{what}: delays by {delay} frames instead of {gd}"
    );
    Ok(())
}
fn conv(h: &[f64], x: &[f64], t: usize) -> f64 {
    (0..h.len().min(t + 1)).map(|k| h[k] * x[t - k]).sum()
}
fn tol<F: Float>() -> f64 {
    if is32::<F>() { 3e-4 } else { 1e-8 }
}
fn impulse(n: usize) -> Vec<Vec<f64>> {
    let mut v = vec![0.0; n];
    v[0] = 1.0;
    vec![v]
}

fn allpass<F: Float>(c: &mut Case) -> Res {
    let sr = *c.rng.pick(RATES);
    let big = if c.rng.chance(1, 8) { 1500 } else { 90 };
    let huge = c.rng.chance(1, 150);
    let m = if huge { 30_000 + c.rng.below(100_000) } else { 2 + c.rng.below(big) };
    let mk = || AllpassDelay::<F>::new(Seconds::from_samples(m as u64, sr as u64));
    // delay asked for and the one expected
    let pick = |c: &mut Case| -> (f64, f64) {
        match c.rng.below(8) {
            0 => (m as f64, m as f64),
            1 => (m as f64 + c.rng.uniform(0.01, 1e6), m as f64),
            2 => {
                let d = c.rng.uniform(1.1, 1.5);
                (d, d)
            }
            3 | 4 => {
                let d = c.rng.uniform(1.5, m as f64);
                (d, d)
            }
            _ => {
                let d = (2 + c.rng.below(m - 1)) as f64;
                (d, d)
            }
        }
    };
    let (ask, d) = pick(c);
    let len = d as usize + 220;
    let by_param = c.rng.chance(1, 2);
    let set = |u: &mut AllpassDelay<F>, cx: &mut knaster_core::AudioCtx, ask: f64| {
        if by_param {
            u.delay_time(cx, ask / sr as f64)
        } else {
            u.set_delay_in_frames(F::new(ask))
        }
    };
    let fresh = |ask: f64, len: usize| -> Result<Vec<f64>, Violation> {
        let mut u = mk();
        let mut cx = ctx(sr, 16);
        u.init(sr, 16);
        set(&mut u, &mut cx, ask);
        Ok(run_from(&mut u, &mut cx, &Div::Frames, 0, len, &impulse(len), &[])?.out[0].clone())
    };
    let what = format!("AllpassDelay<{}> set to {ask} frames of at most {m}", std::any::type_name::<F>());
    c.note(what.clone());
    let h = fresh(ask, len)?;
    allpass_response(&h, d, tol::<F>(), &what)?;
    ensure!(
        h.iter().enumerate().all(|(t, x)| *x == 0.0 || t as f64 >= d - 1.5),
        "early",
        "{what}: reacts before {d} frames"
    );
    if huge {
        c.count("delays of more than 30000 frames", 1);
        c.nontrivial();
        return Ok(());
    }
    // Several settings one after another, on noise, with time divided anyhow
    let (div, n) = divs(c, 6 * (2 * m + 100));
    let st = starts(&div, n);
    let inp = noise(&mut c.rng, 1, n);
    let mut settings = vec![(0usize, ask)];
    for _ in 0..c.rng.below(4) {
        let f = *c.rng.pick(&st);
        let (a, _) = pick(c);
        if settings.iter().all(|s| s.0 != f) {
            settings.push((f, a));
        }
    }
    settings.sort_by_key(|s| s.0);
    c.note(format!("{div:?} {settings:?}"));
    let changes: Vec<Change> = settings.iter().map(|(f, a)| ch(*f, 0, a / sr as f64)).collect();
    let mut u = mk();
    let t = run(&mut u, sr, &div, n, &inp, &changes)?;
    for (i, (f, a)) in settings.iter().enumerate() {
        let end = settings.get(i + 1).map(|s| s.0).unwrap_or(n);
        let hd = fresh(*a, (a.min(m as f64)) as usize + 220)?;
        // the interpolator takes a moment to forget the previous setting
        let from = if i == 0 { 0 } else { f + if *a < 1.5 { 200 } else { 40 } };
        for k in from..end {
            let w = conv(&hd, &inp[0], k);
            let g = t.out[0][k];
            ensure!(
                (g - w).abs() < 4.0 * tol::<F>(),
                "delay",
                "AllpassDelay of at most {m} frames, set to {a} at frame {f}: frame {k} is {g}, expected {w}"
            );
            if a.fract() == 0.0 && *a >= 2.0 && *a <= m as f64 && k >= *a as usize {
                let x = inp[0][k - *a as usize];
                ensure!(
                    (g - x).abs() < 4.0 * tol::<F>(),
                    "delay",
                    "AllpassDelay set to {a} frames: frame {k} is {g}, the input {a} frames earlier {x}"
                );
            }
        }
        c.count("delayed frames compared", end.saturating_sub(from) as u64);
    }
    // clearing makes it as good as new
    let mut cx = ctx(sr, 16);
    let (a2, _) = pick(c);
    let how = c.rng.below(3);
    let part = c.rng.below(m);
    if how == 0 {
        u.set_delay_in_frames_and_clear(F::new(a2));
    } else {
        set(&mut u, &mut cx, a2);
        u.clear();
        if how == 2 {
            // interrupt the clearing
            run_from(&mut u, &mut cx, &Div::Frames, 0, part, &noise(&mut c.rng, 1, part), &[])?;
            u.set_delay_in_frames_and_clear(F::new(a2));
        }
    }
    let l2 = a2.min(m as f64) as usize + 220;
    let got = run_from(&mut u, &mut cx, &Div::Frames, 0, l2, &impulse(l2), &[])?.out[0].clone();
    let want = fresh(a2, l2)?;
    for k in 0..l2 {
        ensure!(
            (got[k] - want[k]).abs() < tol::<F>(),
            "clear",
            "AllpassDelay set to {a2} and cleared ({how}): frame {k} of the response is {}, of a new one {}",
            got[k],
            want[k]
        );
    }
    // anything below one frame is limited as well
    let lows = [0.0, -1.0, c.rng.uniform(-1e6, 1.0), c.rng.uniform(0.0, 1.0), f64::INFINITY];
    let low = *c.rng.pick(&lows);
    set(&mut u, &mut cx, low);
    let x = noise(&mut c.rng, 1, 3 * m);
    let o = run_from(&mut u, &mut cx, &Div::Frames, 0, 3 * m, &x, &[])?;
    ensure!(
        o.out[0].iter().all(|v| v.is_finite() && v.abs() < 20.0),
        "finite",
        "AllpassDelay set to {low} frames: output is not bounded"
    );
    let mut v = mk();
    v.init(sr, 16);
    set(&mut v, &mut cx, c.rng.uniform(-3.0, 1.0));
    let o = run_from(&mut v, &mut cx, &Div::Frames, 0, 3 * m, &x, &[])?;
    for k in 0..3 * m {
        let w = if k == 0 { 0.0 } else { x[0][k - 1] };
        ensure!(
            (o.out[0][k] - w).abs() < tol::<F>() * 10.0,
            "delay",
            "AllpassDelay set below one frame: frame {k} is {}, the previous input {w}",
            o.out[0][k]
        );
    }
    c.nontrivial();
    Ok(())
}

fn feedback<F: Float>(c: &mut Case) -> Res {
    let sr = *c.rng.pick(RATES);
    let huge = c.rng.chance(1, 200);
    let m = if huge { 30_000 + c.rng.below(100_000) } else { 3 + c.rng.below(60) };
    let g = c.rng.uniform(-0.85, 0.85) as f32 as f64;
    let mk = || AllpassFeedbackDelay::<F>::new(Seconds::from_samples(m as u64, sr as u64));
    let ask = match c.rng.below(5) {
        0 => m as f64,
        1 => m as f64 + c.rng.uniform(0.5, 1e5),
        2 if !huge => c.rng.uniform(1.5, m as f64),
        _ => (2 + c.rng.below(m - 1)) as f64,
    };
    let d = ask.min(m as f64);
    let by_param = c.rng.chance(1, 2);
    c.note(format!("AllpassFeedbackDelay<{}> {ask} of {m} feedback {g}", std::any::type_name::<F>()));
    let (div, n) = divs(c, 3 * m + 300);
    let mut u = mk();
    let mut cx = ctx(sr, 64);
    let set = |u: &mut AllpassFeedbackDelay<F>, cx: &mut knaster_core::AudioCtx, a: f64| {
        if by_param {
            u.delay_time(cx, a / sr as f64);
        } else {
            u.set_delay_in_frames(F::new(a));
        }
    };
    knaster_core::UGen::init(&mut u, sr, 64);
    set(&mut u, &mut cx, ask);
    u.feedback(g);
    if d.fract() == 0.0 {
        let dd = d as usize;
        let inp = noise(&mut c.rng, 1, n);
        let t = run_from(&mut u, &mut cx, &div, 0, n, &inp, &[])?;
        let mut v = vec![0.0f64; n];
        for k in 0..n {
            let del = if k >= dd { v[k - dd] } else { 0.0 };
            v[k] = inp[0][k] + g * del;
            let y = del - g * v[k];
            ensure!(
                (t.out[0][k] - y).abs() < tol::<F>(),
                "feedback",
                "AllpassFeedbackDelay of {dd} frames with feedback {g}: frame {k} is {}, expected {y}",
                t.out[0][k]
            );
        }
        c.count("delayed frames compared", n as u64);
    } else {
        let k = (d as usize + 2) * 240;
        let h = run_from(&mut u, &mut cx, &Div::Frames, 0, k, &impulse(k), &[])?.out[0].clone();
        allpass_response(
            &h,
            d * (1.0 + g) / (1.0 - g),
            tol::<F>() * 20.0,
            &format!("AllpassFeedbackDelay of {d} frames with feedback {g}"),
        )?;
        ensure!(
            (h[0] + g).abs() < tol::<F>(),
            "feedback",
            "AllpassFeedbackDelay with feedback {g}: responds to an impulse with {}",
            h[0]
        );
    }
    // bounded while the delay keeps changing by whole frames
    let mut u = mk();
    let n2 = 600;
    let inp = noise(&mut c.rng, 1, n2);
    let mut changes = vec![ch(0, 1, g), ch(0, 0, d.max(2.0).floor() / sr as f64)];
    let mut f = 0;
    loop {
        f += 1 + c.rng.below(60);
        if f >= n2 {
            break;
        }
        let k = 2 + c.rng.below(m + 4);
        changes.push(ch(f, 0, k as f64 / sr as f64));
    }
    let t = run(&mut u, sr, &Div::Frames, n2, &inp, &changes)?;
    // each change can make the interpolator repeat a remembered value once
    let bound = (1.0 + g.abs()) / (1.0 - g.abs()) * 1.5 + 1.0;
    ensure!(
        t.out[0].iter().all(|x| x.is_finite() && x.abs() <= bound),
        "bounded",
        "AllpassFeedbackDelay with feedback {g} and changing delay: output exceeds {bound}"
    );
    for bad in [0.0, -1.0, 0.3, 1e12] {
        set(&mut u, &mut cx, bad);
        let o = run_from(&mut u, &mut cx, &Div::Frames, 0, (2 * m).min(n2), &inp, &[])?;
        ensure!(
            o.out[0].iter().all(|x| x.is_finite()),
            "finite",
            "AllpassFeedbackDelay set to {bad} frames: output is not finite"
        );
    }
    // clear
    set(&mut u, &mut cx, d);
    u.clear();
    let o = run_from(&mut u, &mut cx, &Div::Frames, 0, 3 * m, &[vec![0.0; 3 * m]], &[])?;
    ensure!(
        o.out[0].iter().all(|x| *x == 0.0),
        "clear",
        "AllpassFeedbackDelay of {d} frames sounds after clear"
    );
    c.nontrivial();
    Ok(())
}

fn fixed<F: Float>(c: &mut Case) -> Res {
    let big = if c.rng.chance(1, 10) { 500 } else { 40 };
    let cap = 1 + c.rng.below(big);
    let mut u = StaticSampleDelay::<F>::new(cap);
    let mut len = cap;
    let mut hist: Vec<f64> = vec![];
    // from which number of writes on reads are determined
    let mut exact_from = 0usize;
    let mut compared = 0u64;
    let q = |x: f64| x as f32 as f64;
    c.note(format!("StaticSampleDelay<{}>({cap})", std::any::type_name::<F>()));
    let past = |hist: &Vec<f64>, t: usize, len: usize| if t >= len { hist[t - len] } else { 0.0 };
    for _ in 0..5 + c.rng.below(60) {
        let t = hist.len();
        match c.rng.below(10) {
            0 => {
                let (l, want) = match c.rng.below(4) {
                    0 => (cap + c.rng.below(1000), cap),
                    1 => (0, 1),
                    _ => {
                        let l = 1 + c.rng.below(cap);
                        (l, l)
                    }
                };
                u.set_delay_length(l);
                c.note(format!("length {l}"));
                if want != len {
                    exact_from = t + want;
                }
                len = want;
            }
            1 => {
                let k = c.rng.below(cap + 1);
                let fr = match c.rng.below(5) {
                    0 => 1.0,
                    1 => c.rng.uniform(1.0, 5.0),
                    2 => -0.5,
                    _ => (k as f64 + 0.5) / cap as f64,
                };
                u.set_delay_length_fraction(F::new(fr));
                c.note(format!("fraction {fr}"));
                let want = if fr >= 1.0 {
                    cap
                } else if fr < 0.0 {
                    1
                } else {
                    k.clamp(1, cap)
                };
                if want != len {
                    exact_from = t + want;
                }
                len = want;
            }
            2..=4 => {
                for _ in 0..1 + c.rng.below(2 * cap) {
                    let t = hist.len();
                    let x = q(c.rng.uniform(-1.0, 1.0));
                    let r = u.read().to_f64();
                    if t >= exact_from {
                        let w = past(&hist, t, len);
                        ensure!(r == w, "delay", "StaticSampleDelay of {len} (buffer {cap}): read {r} after {t} writes, expected {w}");
                        compared += 1;
                    }
                    u.write_and_advance(F::new(x));
                    hist.push(x);
                }
            }
            5..=6 => {
                let k = 1 + c.rng.below(len);
                let x: Vec<f64> = (0..k).map(|_| q(c.rng.uniform(-1.0, 1.0))).collect();
                let mut o = vec![F::ZERO; k];
                u.read_block(&mut o);
                c.note(format!("block {k}"));
                u.write_block_and_advance(&x.iter().map(|x| F::new(*x)).collect::<Vec<_>>());
                for (i, o) in o.iter().map(|o| Float::to_f64(*o)).enumerate() {
                    if t + i >= exact_from {
                        let w = past(&hist, t + i, len);
                        ensure!(
                            o == w,
                            "delay",
                            "StaticSampleDelay of {len} (buffer {cap}): block read {} at {i} after {t} writes, expected {w}",
                            o
                        );
                        compared += 1;
                    }
                }
                hist.extend(x);
            }
            7 => {
                let k = 1 + c.rng.below(2 * cap);
                let x: Vec<f64> = (0..k).map(|_| q(c.rng.uniform(-1.0, 1.0))).collect();
                let mut o = vec![F::ZERO; k];
                c.note(format!("process {k}"));
                u.process(&x.iter().map(|x| F::new(*x)).collect::<Vec<_>>(), &mut o, k);
                for i in 0..k {
                    hist.push(x[i]);
                    if t + i >= exact_from {
                        let w = past(&hist, t + i, len);
                        ensure!(
                            o[i].to_f64() == w,
                            "delay",
                            "StaticSampleDelay of {len} (buffer {cap}): processing {k} gave {} at {i} after {t} writes, expected {w}",
                            o[i].to_f64()
                        );
                        compared += 1;
                    }
                }
            }
            8 => {
                if t >= exact_from {
                    ensure!(u.position < len, "delay", "StaticSampleDelay position {} of {len}", u.position);
                    let j = c.rng.below(len);
                    let r = u.read_at((u.position + j) % len).to_f64();
                    let w = if t + j >= len { hist[t + j - len] } else { 0.0 };
                    ensure!(r == w, "delay", "StaticSampleDelay read_at {j} after the position gives {r}, expected {w}");
                }
            }
            _ => {
                let k = c.rng.below(2 * cap);
                let fr = c.rng.below(8) as f64 / 8.0;
                let a = u.read_at(k % cap).to_f64();
                let b = u.read_at((k + 1) % cap).to_f64();
                let r = u.read_at_lin(F::new(k as f64 + fr)).to_f64();
                let w = a + (b - a) * fr;
                ensure!(
                    (r - w).abs() < 1e-5,
                    "delay",
                    "StaticSampleDelay read_at_lin({}) of a buffer of {cap} gives {r}, expected {w}",
                    k as f64 + fr
                );
            }
        }
    }
    c.count("delayed frames compared", compared);
    if compared > 0 {
        c.nontrivial();
    }
    Ok(())
}
fn interpolator<F: Float>(c: &mut Case) -> Res {
    let mut u = AllpassInterpolator::<F>::new();
    let d = c.rng.uniform(0.1, 1.6);
    c.note(format!("AllpassInterpolator {d}"));
    if c.rng.chance(1, 2) {
        u.set_delta(F::new(c.rng.uniform(0.1, 1.6)));
        for _ in 0..50 {
            u.process_sample(F::new(c.rng.uniform(-1.0, 1.0)));
        }
        u.clear();
    }
    u.set_delta(F::new(d));
    let h: Vec<f64> =
        (0..260).map(|i| u.process_sample(if i == 0 { F::ONE } else { F::ZERO }).to_f64()).collect();
    allpass_response(&h, d, tol::<F>(), &format!("AllpassInterpolator with delta {d}"))?;
    let _ = UGenFlags::new();
    c.nontrivial();
    Ok(())
}
macro_rules! both {
    ($f:ident) => {
        |c| if c.rng.chance(1, 2) { $f::<f32>(c) } else { $f::<f64>(c) }
    };
}
pub fn run_check(r: &mut Run) {
    r.rule = "(sample) SampleDelay on noise with whole, fractional and out-of-range delays set at random frames and any division of time, each output sample compared with the input sample that many frames earlier; (allpass) AllpassDelay: impulse response checked for unit gain at 0 Hz, unit energy and a delay at 0 Hz of exactly the set time, then noise with several settings compared with the convolution by that response, and clearing compared with a new one; (feedback) AllpassFeedbackDelay against its difference equation (whole frames) and the all-pass invariants (fractions), bounded under changes; (fixed) StaticSampleDelay single, block and indexed operations mixed against a list of everything written; non-trivial: a delayed sample was compared; distinct by configuration".into();
    r.cases("sample", r.n(30000, 600000), both!(sample));
    r.cases("allpass", r.n(4000, 80000), both!(allpass));
    r.cases("feedback", r.n(8000, 150000), both!(feedback));
    r.cases("fixed", r.n(30000, 500000), both!(fixed));
    r.cases("interpolator", r.n(3000, 30000), both!(interpolator));
}

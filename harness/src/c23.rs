//! C23: noise and random ramps.
use crate::common::*;
use crate::dsp::*;
use crate::{bail, ensure};
use knaster_core::{AudioCtx, Float, ParameterValue, UGen};
use knaster_core_dsp::dsp::xorrng::XOrShift32Rng;
use knaster_core_dsp::noise::*;
use std::f64::consts::PI;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    White,
    Pink,
    Brown,
}
/// In place radix 2 transform
fn fft(re: &mut [f64], im: &mut [f64]) {
    let n = re.len();
    let mut j = 0;
    for i in 1..n {
        let mut bit = n >> 1;
        while j & bit != 0 {
            j ^= bit;
            bit >>= 1;
        }
        j |= bit;
        if i < j {
            re.swap(i, j);
            im.swap(i, j);
        }
    }
    let mut len = 2;
    while len <= n {
        let tw: Vec<(f64, f64)> = (0..len / 2).map(|k| (-2.0 * PI * k as f64 / len as f64).sin_cos()).collect();
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let (d, c) = tw[k];
                let (a, b) = (s + k, s + k + len / 2);
                let (xr, xi) = (re[b] * c - im[b] * d, re[b] * d + im[b] * c);
                (re[b], im[b]) = (re[a] - xr, im[a] - xi);
                (re[a], im[a]) = (re[a] + xr, im[a] + xi);
            }
        }
        len <<= 1;
    }
}
/// Power in octave bands (of a transform of 2048), from bins 8..16 to 256..512
fn octaves(x: &[f64]) -> Vec<f64> {
    let n = 2048;
    let mut p = vec![0.0; n / 2];
    for s in (0..x.len() - n + 1).step_by(n / 2) {
        let mut re: Vec<f64> = (0..n).map(|i| x[s + i] * (0.5 - 0.5 * (2.0 * PI * i as f64 / n as f64).cos())).collect();
        let mut im = vec![0.0; n];
        fft(&mut re, &mut im);
        for i in 0..n / 2 {
            p[i] += re[i] * re[i] + im[i] * im[i];
        }
    }
    (3..9).map(|o| p[1 << o..2 << o].iter().sum::<f64>() / (1 << o) as f64).collect()
}
/// Slope of the power spectrum, as an exponent of the frequency
fn slope(x: &[f64]) -> f64 {
    let o = octaves(x);
    let n = o.len() as f64;
    let m = o.iter().map(|p| p.log2()).sum::<f64>() / n;
    let mx = (n - 1.0) / 2.0;
    let (mut a, mut b) = (0.0, 0.0);
    for (i, p) in o.iter().enumerate() {
        a += (i as f64 - mx) * (p.log2() - m);
        b += (i as f64 - mx) * (i as f64 - mx);
    }
    a / b
}
fn take<T: UGen>(u: &mut T, c: &mut AudioCtx, n: usize) -> Vec<f64> {
    (0..n).map(|_| tick(u, c, &[]).0[0]).collect()
}
fn source<F: Float>(k: Kind, n: usize) -> Vec<f64> {
    let mut cx = ctx(48000, 64);
    match k {
        Kind::White => {
            let mut u = WhiteNoise::<F>::new();
            u.init(48000, 64);
            take(&mut u, &mut cx, n)
        }
        Kind::Pink => {
            let mut u = PinkNoise::<F>::new();
            u.init(48000, 64);
            take(&mut u, &mut cx, n)
        }
        Kind::Brown => {
            let mut u = BrownNoise::<F>::new();
            u.init(48000, 64);
            take(&mut u, &mut cx, n)
        }
    }
}

fn stats<F: Float>(c: &mut Case) -> Res {
    let k = *c.rng.pick(&[Kind::White, Kind::Pink, Kind::Brown]);
    let n = if c.thorough { 1 << 20 } else { 1 << 17 };
    c.note(format!("{k:?} {} #{}", std::any::type_name::<F>(), c.index));
    let x = source::<F>(k, n);
    let nf = n as f64;
    let mut run = 0;
    for (i, v) in x.iter().enumerate() {
        ensure!(v.is_finite() && v.abs() <= 1.0, "range", "{k:?}: frame {i} is {v}");
        if i > 0 {
            run = if *v == x[i - 1] { run + 1 } else { 0 };
            // white noise repeats once in 2^23, brown noise stays at its limits while clamped
            ensure!(run < if k == Kind::Brown { 40 } else { 4 }, "stuck", "{k:?}: {v} for {run} frames until frame {i}");
        }
    }
    let mean = x.iter().sum::<f64>() / nf;
    let var = x.iter().map(|v| (v - mean) * (v - mean)).sum::<f64>() / nf;
    // (standard deviation of the mean, variance and its tolerance)
    // brown noise is correlated over (2/0.0577)^2 frames
    let (sd, want, t) = match k {
        Kind::White => ((1.0 / 3.0 / nf).sqrt(), 1.0 / 3.0, 0.01),
        Kind::Pink => ((0.0333 * 256.0 / nf).sqrt(), 1.0 / 30.0, 0.012),
        Kind::Brown => ((0.4 * 1000.0 / nf).sqrt(), 0.33, 0.2),
    };
    ensure!(mean.abs() < 6.5 * sd, "mean", "{k:?}: the mean of {n} frames is {mean}");
    ensure!((var - want).abs() < t, "variance", "{k:?}: the variance of {n} frames is {var}, expected about {want}");
    let s = slope(&x);
    let (lo, hi) = match k {
        Kind::White => (-0.15, 0.15),
        Kind::Pink => (-1.25, -0.75),
        Kind::Brown => (-2.25, -1.6),
    };
    ensure!(s >= lo && s <= hi, "slope", "{k:?}: power falls with frequency to the {s}, expected {lo}..{hi}");
    // no periodicity or skew: both signs, and no correlation between neighbours in white noise
    let pos = x.iter().filter(|v| **v > 0.0).count() as f64 / nf;
    ensure!(pos > 0.25 && pos < 0.75, "sign", "{k:?}: {pos} of all frames are positive");
    if k == Kind::White {
        for lag in [1usize, 2, 3, 7, 64, 256, 4096] {
            let r = (0..n - lag).map(|i| x[i] * x[i + lag]).sum::<f64>() / nf * 3.0;
            ensure!(r.abs() < 6.5 / nf.sqrt(), "correlated", "white noise: correlation {r} at lag {lag}");
        }
        let mut bins = [0usize; 20];
        for v in &x {
            bins[(((v + 1.0) * 10.0) as usize).min(19)] += 1;
        }
        for (i, b) in bins.iter().enumerate() {
            let e = nf / 20.0;
            ensure!((*b as f64 - e).abs() < 6.5 * e.sqrt(), "uniform", "white noise: {b} of {n} samples in bin {i} of 20");
        }
    }
    if k == Kind::Brown {
        let mut v = 0.0;
        for i in 1..n {
            let d = x[i] - x[i - 1];
            ensure!(d.abs() <= 0.1 + 1e-6, "step", "brown noise: a step of {d}");
            v += d * d;
        }
        let v = v / nf;
        ensure!((v - 0.01 / 3.0).abs() < 0.0004, "step-variance", "brown noise: steps have a variance of {v}");
        let peak = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        ensure!(peak > 0.9, "excursion", "brown noise stayed within {peak}");
    }
    if k == Kind::Pink {
        let peak = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        ensure!(peak > 0.45 && peak < 0.95, "excursion", "pink noise peaked at {peak} in {n} frames");
    }
    c.count("samples", n as u64);
    c.nontrivial();
    Ok(())
}

/// Generators created in any order, by any thread, are all different.
fn differ(c: &mut Case) -> Res {
    let k = 4 + c.rng.below(12);
    let n = 64;
    let mut seqs: Vec<(String, Vec<f64>)> = vec![];
    let mut kinds = vec![];
    for _ in 0..k {
        kinds.push(c.rng.below(4));
    }
    c.note(format!("{kinds:?} #{}", c.index));
    let threads = c.rng.chance(1, 10);
    let mk = |kind: usize| -> (String, Vec<f64>) {
        let mut cx = ctx(48000, 64);
        match kind {
            0 => ("white".into(), source::<f32>(Kind::White, n)),
            1 => ("pink".into(), source::<f32>(Kind::Pink, n)),
            2 => ("brown".into(), source::<f32>(Kind::Brown, n)),
            _ => {
                let mut u = RandomLin::<f32>::new(48000.0);
                u.init(48000, 64);
                ("ramp".into(), take(&mut u, &mut cx, n))
            }
        }
    };
    if threads {
        std::thread::scope(|s| {
            let h: Vec<_> = kinds.iter().map(|k| s.spawn(|| mk(*k))).collect();
            for x in h {
                seqs.push(x.join().unwrap());
            }
        });
    } else {
        for kind in &kinds {
            seqs.push(mk(*kind));
        }
    }
    for i in 0..k {
        for j in 0..i {
            let (a, b) = (&seqs[i], &seqs[j]);
            if a.0 == b.0 {
                let eq = (0..n).filter(|f| a.1[*f] == b.1[*f] && a.1[*f].abs() < 1.0).count();
                ensure!(eq < n / 4, "same", "{} generators {j} and {i}: {eq} of {n} samples are the same", a.0);
                if a.0 == "white" {
                    let r = (0..n).map(|f| a.1[f] * b.1[f]).sum::<f64>() / n as f64 * 3.0;
                    ensure!(r.abs() < 7.0 / (n as f64).sqrt(), "same", "white noise generators {j} and {i} are correlated: {r}");
                }
                c.count("pairs compared", 1);
                c.nontrivial();
            }
        }
    }
    Ok(())
}

fn ramp<F: Float>(c: &mut Case) -> Res {
    let sr = *c.rng.pick(&[44100u32, 48000, 32768, 65536]);
    let bs = c.rng.block(&[1usize, 16, 64]);
    let n = (if c.thorough && c.rng.chance(1, 50) { 400_000 } else { 1500 + c.rng.below(6000) }).div_ceil(bs) * bs;
    let div = match c.rng.below(3) {
        0 => Div::Frames,
        1 => Div::Blocks(bs),
        _ => Div::Parts(bs, cuts(&mut c.rng, n, bs)),
    };
    let mut ok: Vec<usize> = match &div {
        Div::Frames => (0..n).collect(),
        Div::Blocks(b) => (0..n / b).map(|i| i * b).collect(),
        Div::Parts(b, c) => (0..n / b).map(|i| i * b).chain(c.iter().copied()).collect(),
    };
    ok.sort();
    ok.dedup();
    let pick = |c: &mut Case| -> f64 {
        let f = (match c.rng.below(8) {
            0 => sr as f64 / (1u32 << c.rng.below(10)) as f64,
            1 => 3.0 * sr as f64 / (1u32 << (3 + c.rng.below(8))) as f64,
            2 => 0.0,
            3 => c.rng.uniform(0.5, 4.0) * sr as f64,
            _ => c.rng.uniform(10.0, sr as f64 / 12.0),
        }) as f32 as f64;
        if c.rng.chance(1, 10) { -f } else { f }
    };
    let f0 = pick(c);
    let mut evs: Vec<(usize, f64)> = vec![];
    for _ in 0..c.rng.below(5) {
        let f = *c.rng.pick(&ok);
        evs.push((f, pick(c)));
    }
    evs.sort_by_key(|e| e.0);
    c.note(format!("{} {f0} {evs:?} at {sr} {n} frames {div:?}", std::any::type_name::<F>()).chars().take(300).collect::<String>());
    let chg: Vec<Change> = evs.iter().map(|(f, v)| Change { frame: *f, param: 0, value: ParameterValue::Float(*v) }).collect();
    let mut u = RandomLin::<F>::new(F::new(f0));
    let t = run(&mut u, sr, &div, n, &[], &chg)?;
    let x = &t.out[0];
    for (f, v) in x.iter().enumerate() {
        ensure!(*v >= -1e-6 && *v <= 1.0 + 1e-6, "ramp-range", "frame {f} is {v}");
    }
    // The phase, in ramps since the start, of every frame. A negative rate isn't specified beyond
    // the range of its output.
    // (whole ramps, fraction): a sum of many ramps would lose the precision of the fraction
    let mut phase = vec![(0u64, 0.0f64); n];
    let (mut p, mut rate, mut ei) = ((0u64, 0.0f64), f0, 0);
    let mut upto = n;
    for f in 0..n {
        while ei < evs.len() && evs[ei].0 <= f {
            rate = evs[ei].1;
            ei += 1;
        }
        if rate < 0.0 {
            upto = f;
            break;
        }
        phase[f] = p;
        p.1 += rate / sr as f64;
        p = (p.0 + p.1.floor() as u64, p.1 - p.1.floor());
    }
    let margin = |f: usize| if is32::<F>() { 1e-6 + f as f64 * 2e-7 } else { 1e-9 };
    // Fit a line to each ramp
    let mut prev: Option<(u64, f64, f64)> = None;
    let mut levels = vec![];
    let mut f = 0;
    while f < upto {
        let k = phase[f].0;
        let mut g = f;
        while g < upto && phase[g].0 == k {
            g += 1;
        }
        // frames clearly within the ramp
        let inside: Vec<usize> = (f..g).filter(|i| phase[*i].1 > margin(*i) || (phase[*i] == (0, 0.0))).filter(|i| 1.0 - phase[*i].1 > margin(*i)).collect();
        if inside.len() >= 3 {
            let (a, b) = (inside[0], inside[inside.len() - 1]);
            let (pa, pb) = (phase[a].1, phase[b].1);
            let span = pb - pa;
            if span > 0.3 {
                let s = (x[b] - x[a]) / span;
                let tl = 1e-5 + 4.0 * margin(g) / span;
                for i in &inside {
                    let w = x[a] + s * (phase[*i].1 - pa);
                    ensure!((x[*i] - w).abs() <= tl, "ramp-linear", "ramp {k} (frames {f}..{g}): frame {i} is {}, a line would be at {w}", x[*i]);
                }
                let (from, to) = (x[a] - s * pa, x[a] + s * (1.0 - pa));
                let e = 1e-3 + 2.0 * margin(g);
                ensure!(from > -e && from < 1.0 + e && to > -e && to < 1.0 + e, "ramp-ends", "ramp {k} goes from {from} to {to}");
                if let Some((pk, _, pt)) = prev {
                    if pk + 1 == k {
                        ensure!((pt - from).abs() <= 4.0 * tl + 1e-4, "ramp-joined", "ramp {pk} goes to {pt}, the next one starts from {from}");
                        c.count("joints", 1);
                    }
                }
                levels.push(to);
                prev = Some((k, from, to));
                c.count("ramps", 1);
                c.nontrivial();
            }
        }
        f = g.max(f + 1);
    }
    // successive values are random
    for w in levels.windows(3) {
        ensure!(!(w[0] == w[1] && w[1] == w[2]), "ramp-stuck", "three successive ramps end at {}", w[0]);
    }
    if levels.len() >= 100 {
        let m = levels.iter().sum::<f64>() / levels.len() as f64;
        let sd = (1.0 / 12.0 / levels.len() as f64).sqrt();
        ensure!((m - 0.5).abs() < 6.5 * sd, "ramp-mean", "the mean of {} random values is {m}", levels.len());
        let v = levels.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / levels.len() as f64;
        ensure!(v > 0.05 && v < 0.12, "ramp-variance", "the variance of {} random values is {v}", levels.len());
    }
    Ok(())
}

fn xorrng(c: &mut Case) -> Res {
    let seed = match c.rng.below(4) {
        0 => 0,
        1 => u32::MAX,
        2 => 1,
        _ => c.rng.next() as u32,
    };
    c.note(format!("xorshift {seed}"));
    let mut a = XOrShift32Rng::new(seed);
    let mut b = XOrShift32Rng::new(seed);
    let mut s = if seed == 0 { 17 } else { seed };
    let first = s;
    let (mut sum, n) = (0.0, 20000);
    for i in 0..n {
        s ^= s << 13;
        s ^= s >> 17;
        s ^= s << 5;
        ensure!(s != 0 && (s != first || i > 1 << 30), "xor-model", "harness: period");
        let v = if i % 2 == 0 { a.gen_f32() as f64 } else { a.gen_f64() };
        ensure!((0.0..=1.0).contains(&v), "xor-range", "seed {seed}: number {i} is {v}");
        let u = b.gen_u32();
        ensure!(u == s, "xor-sequence", "seed {seed}: number {i} is {u} instead of {s}");
        ensure!((v - u as f64 / u32::MAX as f64).abs() < 1e-6, "xor-scale", "seed {seed}: number {i} is {v} for {u}");
        sum += v;
    }
    ensure!((sum / n as f64 - 0.5).abs() < 6.5 * (1.0 / 12.0 / n as f64).sqrt(), "xor-mean", "seed {seed}: mean {}", sum / n as f64);
    c.nontrivial();
    Ok(())
}

pub fn run_check(r: &mut Run) {
    let _ = || -> Res { bail!("unused", "") };
    r.rule = "(stats) long runs of white, pink and brown noise: range, repeats, mean, variance, spectral slope over six octaves, sign balance; autocorrelation and distribution of white noise, steps and excursions of brown noise; (differ) generators created one after the other or by several threads compared pairwise; (ramp) RandomLin at random and changing rates and divisions of time: the line of every ramp, its ends, joints and times against the accumulated rate, the distribution of values; (xorrng) the xorshift generator against its definition; distinct by configuration. Generators are seeded from a process wide counter, so seeds differ between runs".into();
    r.assumptions = vec!["statistics are compared with tolerances of more than six standard deviations".into()];
    r.cases("stats", r.n(600, 1500), |c| if c.rng.chance(1, 2) { stats::<f32>(c) } else { stats::<f64>(c) });
    r.cases("differ", r.n(20000, 400000), differ);
    r.cases("ramp", r.n(20000, 400000), |c| if c.rng.chance(1, 2) { ramp::<f32>(c) } else { ramp::<f64>(c) });
    r.cases("xorrng", r.n(200, 5000), xorrng);
}

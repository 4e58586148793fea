//! C22: filters.
use crate::common::*;
use crate::dsp::*;
use crate::{bail, ensure};
use knaster_core::{Float, ParameterValue, PInteger, UGen};
use knaster_core_dsp::onepole::*;
use knaster_core_dsp::svf::*;
use std::f64::consts::PI;

const RATES: &[u32] = &[8000, 22050, 44100, 48000, 96000, 192000];
const TYPES: [SvfFilterType; 9] = [
    SvfFilterType::Low,
    SvfFilterType::High,
    SvfFilterType::Band,
    SvfFilterType::Notch,
    SvfFilterType::Peak,
    SvfFilterType::All,
    SvfFilterType::Bell,
    SvfFilterType::LowShelf,
    SvfFilterType::HighShelf,
];
#[derive(Clone, Copy, Debug)]
struct Set {
    ty: SvfFilterType,
    fc: f64,
    q: f64,
    db: f64,
}
/// Analog prototype (numerator from s^2 down, k of the denominator, frequency scale), cutoff at 1.
fn proto(s: &Set) -> ([f64; 3], f64, f64) {
    let k = 1.0 / s.q;
    let a = 10f64.powf(s.db / 40.0);
    use SvfFilterType::*;
    match s.ty {
        Low => ([0.0, 0.0, 1.0], k, 1.0),
        High => ([1.0, 0.0, 0.0], k, 1.0),
        Band => ([0.0, 1.0, 0.0], k, 1.0),
        Notch => ([1.0, 0.0, 1.0], k, 1.0),
        Peak => ([1.0, 0.0, -1.0], k, 1.0),
        All => ([1.0, -k, 1.0], k, 1.0),
        Bell => ([1.0, a / s.q, 1.0], 1.0 / (a * s.q), 1.0),
        // (s'^2 + sqrt(A)/Q s' .. ) in terms of the frequency scaled by A^-1/2
        LowShelf => ([1.0, k * a, a * a], k, a.powf(-0.5)),
        HighShelf => ([a * a, k * a, 1.0], k, a.powf(0.5)),
    }
}
/// Gain at a frequency relative to the cutoff frequency (prewarped)
fn analog(s: &Set, w: f64) -> (f64, f64) {
    let (n, k, sc) = proto(s);
    let w = w / sc;
    let (nr, ni) = (n[2] - n[0] * w * w, n[1] * w);
    let (dr, di) = (1.0 - w * w, k * w);
    let d = dr * dr + di * di;
    ((nr * dr + ni * di) / d, (ni * dr - nr * di) / d)
}
/// The bilinear transform of the prototype as a direct form filter
struct Biquad {
    b: [f64; 3],
    a: [f64; 3],
    x: [f64; 2],
    y: [f64; 2],
}
impl Biquad {
    fn new(s: &Set, sr: f64) -> Self {
        let (n, k, sc) = proto(s);
        let g = (PI * s.fc / sr).tan() * sc;
        // s = (1 - z^-1) / (g (1 + z^-1))
        let f = |c: [f64; 3]| {
            let (c2, c1, c0) = (c[0], c[1] * g, c[2] * g * g);
            [c2 + c1 + c0, 2.0 * (c0 - c2), c2 - c1 + c0]
        };
        Biquad { b: f(n), a: f([1.0, k, 1.0]), x: [0.0; 2], y: [0.0; 2] }
    }
    fn next(&mut self, v: f64) -> f64 {
        let o = (self.b[0] * v + self.b[1] * self.x[0] + self.b[2] * self.x[1] - self.a[1] * self.y[0] - self.a[2] * self.y[1]) / self.a[0];
        self.x = [v, self.x[0]];
        self.y = [o, self.y[0]];
        o
    }
}
/// Trapezoidal integration of the prototype's state equations, for changing settings
#[derive(Default)]
struct Trap {
    bp: f64,
    lp: f64,
}
impl Trap {
    fn next(&mut self, s: &Set, sr: f64, v: f64) -> f64 {
        let (n, k, sc) = proto(s);
        let g = (PI * s.fc / sr).tan() * sc;
        // band = bp + g * high, low = lp + g * band, high = v - k * band - low
        let high = (v - (k + g) * self.bp - self.lp) / (1.0 + g * (g + k));
        let band = self.bp + g * high;
        let low = self.lp + g * band;
        self.bp = band + g * high;
        self.lp = low + g * band;
        n[0] * high + n[1] * band + n[2] * low
    }
}
fn pick_set(c: &mut Case, sr: u32, ordinary: bool) -> Set {
    let r = if ordinary { c.rng.uniform(0.004, 0.42) } else { 10f64.powf(c.rng.uniform(-3.3, -0.32)) };
    Set {
        ty: *c.rng.pick(&TYPES),
        fc: (r * sr as f64) as f32 as f64,
        q: (if ordinary { 10f64.powf(c.rng.uniform(-0.5, 0.8)) } else { 10f64.powf(c.rng.uniform(-1.0, 1.5)) }) as f32 as f64,
        db: (c.rng.uniform(-24.0, 24.0)) as f32 as f64,
    }
}
struct P {
    fc: usize,
    q: usize,
    gain: usize,
    ty: usize,
    calc: usize,
}
fn params<F: Float>() -> Result<P, Violation> {
    let d = SvfFilter::<F>::param_descriptions();
    let i = |n: &str| match d.iter().position(|x| *x == n) {
        Some(i) => Ok(i),
        None => viol("harness", format!("harness: no parameter {n}")),
    };
    Ok(P { fc: i("cutoff_freq")?, q: i("q")?, gain: i("gain")?, ty: i("filter")?, calc: i("t_calculate_coefficients")? })
}
fn tyv(t: SvfFilterType) -> ParameterValue {
    ParameterValue::Integer(PInteger(t as usize))
}
/// Set through parameters in any order (true) or by the constructor
fn build<F: Float>(c: &mut Case, s: &Set, at: usize) -> Result<(SvfFilter<F>, Vec<Change>), Violation> {
    if at == 0 && c.rng.chance(1, 2) {
        return Ok((SvfFilter::new(s.ty, F::new(s.fc), F::new(s.q), F::new(s.db)), vec![]));
    }
    let o = Set { ty: *c.rng.pick(&TYPES), fc: 1000.0, q: 1.0, db: 3.0 };
    Ok((SvfFilter::new(o.ty, F::new(o.fc), F::new(o.q), F::new(o.db)), changes::<F>(c, s, at)?))
}
fn changes<F: Float>(c: &mut Case, s: &Set, at: usize) -> Result<Vec<Change>, Violation> {
    let p = params::<F>()?;
    let mut v = vec![ch(at, p.fc, s.fc), ch(at, p.q, s.q), ch(at, p.gain, s.db), ch(at, p.ty, tyv(s.ty))];
    for i in (1..v.len()).rev() {
        let j = c.rng.below(i + 1);
        v.swap(i, j);
    }
    if c.rng.chance(1, 4) {
        v.push(ch(at, p.calc, ParameterValue::Trigger));
    }
    Ok(v)
}
fn any_div(c: &mut Case, n: usize, bs: usize) -> Div {
    match c.rng.below(3) {
        0 => Div::Frames,
        1 => Div::Blocks(bs),
        _ => Div::Parts(bs, cuts(&mut c.rng, n, bs)),
    }
}
fn tol<F: Float>() -> f64 {
    if is32::<F>() { 2e-3 } else { 1e-7 }
}

/// Noise through the filter against the direct form.
fn response<F: Float>(c: &mut Case) -> Res {
    let sr = *c.rng.pick(RATES);
    let s = pick_set(c, sr, is32::<F>());
    let bs = *c.rng.pick(&[1usize, 16, 32, 64]);
    let n = 512 + 64 * c.rng.below(20);
    let div = any_div(c, n, bs);
    let input = match c.rng.below(4) {
        0 => vec![(0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect::<Vec<f64>>()],
        1 => vec![vec![1.0; n]],
        _ => noise(&mut c.rng, 1, n),
    };
    c.note(format!("{} {s:?} at {sr} {div:?} #{}", std::any::type_name::<F>(), c.index).chars().take(300).collect::<String>());
    let (mut u, chg) = build::<F>(c, &s, 0)?;
    let t = run(&mut u, sr, &div, n, &input, &chg)?;
    let mut r = Biquad::new(&s, sr as f64);
    let want: Vec<f64> = input[0].iter().map(|x| r.next(*x)).collect();
    let scale = want.iter().fold(1.0f64, |a, b| a.max(b.abs()));
    for f in 0..n {
        ensure!(
            (t.out[0][f] - want[f]).abs() <= tol::<F>() * scale,
            "response",
            "{s:?} at {sr}: frame {f} is {}, the transfer function gives {}",
            t.out[0][f],
            want[f]
        );
    }
    c.count("frames compared", n as u64);
    c.nontrivial();
    Ok(())
}

/// What is said about the types: gains at DC, Nyquist and cutoff, measured from the impulse response.
fn points<F: Float>(c: &mut Case) -> Res {
    let sr = *c.rng.pick(RATES);
    let mut s = pick_set(c, sr, true);
    s.fc = (s.fc.max(0.02 * sr as f64)) as f32 as f64;
    let n = 8192;
    let div = any_div(c, n, 64);
    c.note(format!("{} {s:?} at {sr}", std::any::type_name::<F>()));
    let (mut u, chg) = build::<F>(c, &s, 0)?;
    let mut x = vec![0.0; n];
    x[0] = 1.0;
    let t = run(&mut u, sr, &div, n, &[x], &chg)?;
    let h = &t.out[0];
    let tail: f64 = h[n - 64..].iter().map(|x| x.abs()).sum();
    if tail > 1e-6 {
        // rings for longer than was measured
        return Ok(());
    }
    let at = |w: f64| -> f64 {
        let (mut re, mut im) = (0.0, 0.0);
        for (i, x) in h.iter().enumerate() {
            re += x * (w * i as f64).cos();
            im -= x * (w * i as f64).sin();
        }
        (re * re + im * im).sqrt()
    };
    let a2 = 10f64.powf(s.db / 20.0);
    use SvfFilterType::*;
    let (dc, ny, cut) = match s.ty {
        Low => (1.0, 0.0, s.q),
        High => (0.0, 1.0, s.q),
        Band => (0.0, 0.0, s.q),
        Notch => (1.0, 1.0, 0.0),
        Peak => (1.0, 1.0, 2.0 * s.q),
        All => (1.0, 1.0, 1.0),
        Bell => (1.0, 1.0, a2),
        LowShelf => (a2, 1.0, a2.sqrt()),
        HighShelf => (1.0, a2, a2.sqrt()),
    };
    let w = 2.0 * PI * s.fc / sr as f64;
    let got = (at(0.0), at(PI), at(w));
    let ok = |g: f64, w: f64| (g - w).abs() <= 5e-3 * (1.0 + w + h[0].abs());
    ensure!(
        ok(got.0, dc) && ok(got.1, ny) && ok(got.2, cut),
        "points",
        "{s:?} at {sr}: gains at DC, Nyquist and cutoff are {got:?}, the type prescribes {:?}",
        (dc, ny, cut)
    );
    // the rest of the spectrum, at prewarped frequencies
    for _ in 0..6 {
        let f = c.rng.uniform(0.001, 0.499);
        let ratio = (PI * f).tan() / (PI * s.fc / sr as f64).tan();
        let (re, im) = analog(&s, ratio);
        let want = (re * re + im * im).sqrt();
        let g = at(2.0 * PI * f);
        ensure!(ok(g, want), "spectrum", "{s:?} at {sr}: gain at {} Hz is {g} instead of {want}", f * sr as f64);
    }
    c.count("gains measured", 9);
    c.nontrivial();
    Ok(())
}

/// Any filter here: linear and time invariant while its settings don't change.
fn linear_of<F: Float, T: UGen<Sample = F>>(c: &mut Case, mk: impl Fn() -> T, chg: &[Change], what: &str) -> Res {
    let sr = *c.rng.pick(RATES);
    let n = 512;
    let a = noise(&mut c.rng, 1, n);
    let b = noise(&mut c.rng, 1, n);
    let (p, q) = (c.rng.uniform(-2.0, 2.0), c.rng.uniform(-2.0, 2.0));
    let d = 1 + c.rng.below(100);
    let sum = vec![(0..n).map(|i| (p * a[0][i] + q * b[0][i]) as f32 as f64).collect::<Vec<f64>>()];
    let late = vec![(0..n).map(|i| if i < d { 0.0 } else { a[0][i - d] }).collect::<Vec<f64>>()];
    let go = |input: &[Vec<f64>]| run(&mut mk(), sr, &Div::Frames, n, input, chg);
    let (ya, yb, ys, yl) = (go(&a)?, go(&b)?, go(&sum)?, go(&late)?);
    let scale = [&ya, &yb, &ys].iter().flat_map(|t| t.out[0].iter()).fold(1.0f64, |a, b| a.max(b.abs()));
    let t = if is32::<F>() { 5e-3 } else { 1e-5 };
    for f in 0..n {
        let w = p * ya.out[0][f] + q * yb.out[0][f];
        ensure!((ys.out[0][f] - w).abs() <= t * scale, "linear", "{what} at {sr}: frame {f} of {p} a + {q} b is {} instead of {w}", ys.out[0][f]);
        let w = if f < d { 0.0 } else { ya.out[0][f - d] };
        ensure!((yl.out[0][f] - w).abs() <= 1e-6 * scale, "invariant", "{what} at {sr}: frame {f} delayed by {d} is {} instead of {w}", yl.out[0][f]);
    }
    c.nontrivial();
    Ok(())
}
fn linear<F: Float>(c: &mut Case) -> Res {
    let s = pick_set(c, 22050, true);
    match c.rng.below(4) {
        0 => {
            c.note(format!("{} OnePoleLpf {}", std::any::type_name::<F>(), s.fc));
            linear_of::<F, _>(c, || OnePoleLpf::new(F::new(s.fc)), &[], "OnePoleLpf")
        }
        1 => {
            c.note(format!("{} OnePoleHpf {}", std::any::type_name::<F>(), s.fc));
            let chg = [ch(0, 0, s.fc)];
            linear_of::<F, _>(c, || OnePoleHpf::new(), &chg, "OnePoleHpf")
        }
        _ => {
            let s = Set { fc: s.fc * 0.3, ..s };
            c.note(format!("{} {s:?}", std::any::type_name::<F>()));
            linear_of::<F, _>(c, || SvfFilter::new(s.ty, F::new(s.fc), F::new(s.q), F::new(s.db)), &[], &format!("{s:?}"))
        }
    }
}

/// Settings changing while running.
fn changing<F: Float>(c: &mut Case) -> Res {
    let sr = *c.rng.pick(RATES);
    let bs = *c.rng.pick(&[1usize, 16, 32, 64]);
    let n = 1024;
    let div = any_div(c, n, bs);
    let mut ok: Vec<usize> = match &div {
        Div::Frames => (0..n).collect(),
        Div::Blocks(b) => (0..n / b).map(|i| i * b).collect(),
        Div::Parts(b, c) => (0..n / b).map(|i| i * b).chain(c.iter().copied()).collect(),
    };
    ok.sort();
    ok.dedup();
    let first = pick_set(c, sr, true);
    let mut cur = first;
    let p = params::<F>()?;
    let mut sets: Vec<(usize, Set)> = vec![];
    let mut chg: Vec<Change> = vec![];
    let mut at: Vec<usize> = (0..1 + c.rng.below(12)).map(|_| *c.rng.pick(&ok)).collect();
    at.sort();
    for f in at {
        let s = pick_set(c, sr, true);
        match c.rng.below(5) {
            0 => {
                cur.fc = s.fc;
                chg.push(ch(f, p.fc, s.fc));
            }
            1 => {
                cur.q = s.q;
                chg.push(ch(f, p.q, s.q));
            }
            2 => {
                cur.db = s.db;
                chg.push(ch(f, p.gain, s.db));
            }
            3 => {
                cur.ty = s.ty;
                chg.push(ch(f, p.ty, tyv(s.ty)));
            }
            _ => {
                cur = s;
                chg.extend(changes::<F>(c, &s, f)?);
            }
        }
        sets.push((f, cur));
    }
    c.note(format!("{} {first:?} {sets:?} at {sr} {div:?}", std::any::type_name::<F>()));
    let input = noise(&mut c.rng, 1, n);
    let mut u = SvfFilter::new(first.ty, F::new(first.fc), F::new(first.q), F::new(first.db));
    let t = run(&mut u, sr, &div, n, &input, &chg)?;
    let mut r = Trap::default();
    let mut cur = first;
    let mut si = 0;
    let mut want = vec![];
    for f in 0..n {
        while si < sets.len() && sets[si].0 <= f {
            cur = sets[si].1;
            si += 1;
        }
        want.push(r.next(&cur, sr as f64, input[0][f]));
    }
    let scale = want.iter().fold(1.0f64, |a, b| a.max(b.abs()));
    for f in 0..n {
        ensure!(
            (t.out[0][f] - want[f]).abs() <= tol::<F>() * scale,
            "changing",
            "from {first:?}, {sets:?} at {sr}: frame {f} is {} instead of {}",
            t.out[0][f],
            want[f]
        );
    }
    // Causality, independent of the model: nothing before a change is affected by it
    if let Some(last) = chg.last().map(|c| c.frame) {
        let without: Vec<Change> = chg.iter().filter(|c| c.frame < last).cloned().collect();
        let mut u = SvfFilter::new(first.ty, F::new(first.fc), F::new(first.q), F::new(first.db));
        let t2 = run(&mut u, sr, &div, n, &input, &without)?;
        for f in 0..last {
            ensure!(t.out[0][f] == t2.out[0][f], "causal", "frame {f} is affected by a change at frame {last}");
        }
    }
    c.count("setting changes", sets.len() as u64);
    c.nontrivial();
    Ok(())
}

/// Legal settings moving every frame.
fn stable<F: Float>(c: &mut Case) -> Res {
    let sr = *c.rng.pick(RATES);
    let n = if c.thorough { 40000 } else { 4000 };
    let p = params::<F>()?;
    let style = c.rng.below(4);
    let loud = *c.rng.pick(&[1.0, 1e-30, 1e3]);
    let mut input = noise(&mut c.rng, 1, n);
    for (i, x) in input[0].iter_mut().enumerate() {
        *x *= loud;
        if i > n / 2 && style != 3 {
            *x = 0.0;
        }
    }
    let mut chg = vec![];
    let start = pick_set(c, sr, false);
    let mut slow = start;
    for f in 0..n {
        let s = Set {
            ty: *c.rng.pick(&TYPES),
            fc: match c.rng.below(4) {
                0 => 0.0,
                1 => 0.499 * sr as f64,
                _ => c.rng.uniform(0.0, 0.499) * sr as f64,
            },
            q: 10f64.powf(c.rng.uniform(-2.0, 3.0)),
            db: c.rng.uniform(-40.0, 40.0),
        };
        match style {
            0 => {
                chg.push(ch(f, p.fc, s.fc));
                chg.push(ch(f, p.q, s.q));
                chg.push(ch(f, p.gain, s.db));
                if c.rng.chance(1, 10) {
                    chg.push(ch(f, p.ty, tyv(s.ty)));
                }
            }
            1 => chg.push(ch(f, p.fc, s.fc)),
            2 => {
                slow.fc = (slow.fc * 1.001).min(0.499 * sr as f64);
                chg.push(ch(f, p.fc, slow.fc));
            }
            _ => {
                if f % 64 == 0 {
                    chg.push(ch(f, p.ty, tyv(s.ty)));
                    chg.push(ch(f, p.q, s.q));
                }
            }
        }
    }
    c.note(format!("{} style {style} loud {loud} {start:?} at {sr}", std::any::type_name::<F>()));
    let mut u = SvfFilter::new(start.ty, F::new(start.fc), F::new(start.q), F::new(start.db));
    let t = run(&mut u, sr, &Div::Frames, n, &input, &chg)?;
    // the states can't grow by more than what is put in, the output mixes them by at most this
    let bound = 4.0 * n as f64 * loud * 1e4;
    for (f, x) in t.out[0].iter().enumerate() {
        ensure!(x.is_finite() && x.abs() <= bound, "stable", "{start:?} at {sr}, settings moving: frame {f} is {x}");
    }
    c.count("frames with settings moving", n as u64);
    c.nontrivial();
    Ok(())
}

fn onepole<F: Float>(c: &mut Case) -> Res {
    let sr = *c.rng.pick(RATES);
    let n = 1024;
    let bs = *c.rng.pick(&[1usize, 16, 32, 64]);
    let div = any_div(c, n, bs);
    let mut ok: Vec<usize> = match &div {
        Div::Frames => (0..n).collect(),
        Div::Blocks(b) => (0..n / b).map(|i| i * b).collect(),
        Div::Parts(b, c) => (0..n / b).map(|i| i * b).chain(c.iter().copied()).collect(),
    };
    ok.sort();
    ok.dedup();
    let pick = |c: &mut Case| -> f64 {
        (match c.rng.below(6) {
            0 => 0.0,
            1 => sr as f64 * 0.5,
            2 => 0.01 * sr as f64,
            _ => 10f64.powf(c.rng.uniform(-4.0, -0.3)) * sr as f64,
        }) as f32 as f64
    };
    let f0 = pick(c);
    let hp = c.rng.chance(1, 2);
    let mut evs: Vec<(usize, f64)> = vec![];
    for _ in 0..c.rng.below(6) {
        let f = *c.rng.pick(&ok);
        evs.push((f, pick(c)));
    }
    evs.sort_by_key(|e| e.0);
    if hp {
        evs.insert(0, (0, f0));
    }
    let input = match c.rng.below(4) {
        0 => vec![vec![1.0; n]],
        1 => vec![(0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect()],
        _ => noise(&mut c.rng, 1, n),
    };
    c.note(format!("{} highpass {hp} {f0} {evs:?} at {sr} {div:?}", std::any::type_name::<F>()).chars().take(400).collect::<String>());
    let chg: Vec<Change> = evs.iter().map(|(f, v)| ch(*f, 0, *v)).collect();
    let t = if hp {
        run(&mut OnePoleHpf::<F>::new(), sr, &div, n, &input, &chg)?
    } else {
        run(&mut OnePoleLpf::new(F::new(f0)), sr, &div, n, &input, &chg)?
    };
    let mut y = 0.0;
    let mut fc = f0;
    let mut ei = 0;
    for f in 0..n {
        while ei < evs.len() && evs[ei].0 <= f {
            fc = evs[ei].1;
            ei += 1;
        }
        let b = (-2.0 * PI * fc / sr as f64).exp();
        let x = input[0][f];
        y = x * (1.0 - b) + y * b;
        let w = if hp { x - y } else { y };
        let tl = if is32::<F>() { 2e-4 } else { 1e-9 };
        ensure!(
            (t.out[0][f] - w).abs() <= tl,
            "onepole",
            "{} from {f0}, {evs:?} at {sr}: frame {f} is {} instead of {w}",
            if hp { "highpass" } else { "lowpass" },
            t.out[0][f]
        );
        ensure!(t.out[0][f].abs() <= 2.0 + 1e-3, "onepole-bound", "frame {f} is {} for input of 1", t.out[0][f]);
    }
    // the level at cutoff is -3 dB well below Nyquist
    let fc = c.rng.uniform(0.001, 0.01) * sr as f64;
    let m = 4096;
    let mut x = vec![0.0; m];
    x[0] = 1.0;
    let h = if hp {
        run(&mut OnePoleHpf::<F>::new(), sr, &Div::Frames, m, &[x], &[ch(0, 0, fc)])?
    } else {
        run(&mut OnePoleLpf::new(F::new(fc)), sr, &Div::Frames, m, &[x], &[])?
    };
    let gain = |w: f64| {
        let (mut re, mut im) = (0.0, 0.0);
        for (i, v) in h.out[0].iter().enumerate() {
            re += v * (w * i as f64).cos();
            im -= v * (w * i as f64).sin();
        }
        (re * re + im * im).sqrt()
    };
    let (dc, cut, ny) = (gain(0.0), gain(2.0 * PI * fc / sr as f64), gain(PI));
    let want = if hp { (0.0, 0.5f64.sqrt(), 1.0) } else { (1.0, 0.5f64.sqrt(), 0.0) };
    ensure!(
        (dc - want.0).abs() < 0.01 && (cut - want.1).abs() < 0.04 && (ny - want.2).abs() < 0.05,
        "onepole-gains",
        "{} at {fc} of {sr}: gains at DC, cutoff and Nyquist are {dc}, {cut} and {ny}",
        if hp { "highpass" } else { "lowpass" }
    );
    // the filter itself, as used within other nodes
    let mut o = OnePole::<F>::new();
    o.set_freq_lowpass(F::new(fc), F::new(sr as f64));
    for _ in 0..100 {
        o.process_lp(F::new(1.0));
    }
    o.reset();
    let z = Float::to_f64(o.process_lp(F::new(0.0)));
    ensure!(z == 0.0, "onepole-reset", "a reset filter gives {z} for silence");
    let z = Float::to_f64(o.process_lp(F::new(1.0)));
    let w = 1.0 - (-2.0 * PI * fc / sr as f64).exp();
    ensure!((z - w).abs() < 1e-5, "onepole-reset", "a reset filter gives {z} instead of {w}: coefficients must be kept");
    // what the lowpass takes away is what the highpass leaves, whichever way the coefficients were set
    let (mut lo, mut hi) = (OnePole::<F>::new(), OnePole::<F>::new());
    lo.set_freq_lowpass(F::new(fc), F::new(sr as f64));
    hi.set_freq_highpass(F::new(fc), F::new(sr as f64));
    for k in 0..200 {
        let x = F::new(c.rng.uniform(-1.0, 1.0));
        let (l, h) = (Float::to_f64(lo.process_lp(x)), Float::to_f64(hi.process_hp(x)));
        let x = Float::to_f64(x);
        ensure!((l + h - x).abs() < 1e-6, "onepole-complement", "frame {k} of {x} is {l} below and {h} above {fc} of {sr}");
    }
    c.nontrivial();
    Ok(())
}

pub fn run_check(r: &mut Run) {
    let _ = || -> Res { bail!("unused", "") };
    r.rule = "(response) SvfFilter of every type, random cutoff, Q, gain, sample rate, divisions of time, set by constructor or parameters in any order: every sample compared with a direct form filter computed from the analog transfer function; (points) gains at DC, Nyquist and cutoff and six other frequencies measured from the impulse response; (linear) superposition and time invariance; (changing) parameter and type changes while running compared with the trapezoidal state equations, and bit-exact causality; (stable) every parameter moving every frame over its whole range, half of the time with silence; (onepole) one pole filters compared with their recursion, gains, bounds and reset; distinct by configuration".into();
    r.assumptions = vec!["cutoff frequencies up to 0.499 of the sample rate, Q from 0.01 to 1000 and gains up to 40 dB are legal".into()];
    let w = |f32_: fn(&mut Case) -> Res, f64_: fn(&mut Case) -> Res| move |c: &mut Case| if c.rng.chance(1, 2) { f32_(c) } else { f64_(c) };
    r.cases("response", r.n(120000, 1600000), w(response::<f32>, response::<f64>));
    r.cases("points", r.n(6000, 80000), w(points::<f32>, points::<f64>));
    r.cases("linear", r.n(15000, 300000), w(linear::<f32>, linear::<f64>));
    r.cases("changing", r.n(20000, 400000), w(changing::<f32>, changing::<f64>));
    r.cases("stable", r.n(1500, 10000), w(stable::<f32>, stable::<f64>));
    r.cases("onepole", r.n(10000, 200000), w(onepole::<f32>, onepole::<f64>));
}

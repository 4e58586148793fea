//! C17: musical and clock time.
use crate::common::*;
use crate::ensure;
use knaster_core::{Beats, Seconds};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::time::Duration;

const TS: u128 = 282_240_000;
const TB: u128 = 1_476_034_560;
/// every sample rate that divides the resolution: whole frames are exact
const RATES: &[u64] = &[
    8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 64000, 88200, 96000, 176400, 192000, 352800,
    384000,
];

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// What both time types have in common; `n` is the exact number of tesimals.
trait T: Copy + PartialEq + Eq + Ord + Hash + std::fmt::Debug + std::ops::Add<Output = Self> + std::ops::AddAssign {
    const P: u128;
    fn mk(s: u32, t: u32) -> Self;
    fn csub(self, o: Self) -> Option<Self>;
    fn ssub(self, o: Self) -> Self;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
    fn scale(self, x: f64) -> Vec<Self>;
    fn scale32(self, x: f32) -> Vec<Self>;
    fn prod(self, o: Self) -> Vec<Self>;
    fn top() -> u128 {
        (1u128 << 32) * Self::P - 1
    }
    fn mkn(n: u128) -> Self {
        let n = n.min(Self::top());
        Self::mk((n / Self::P) as u32, (n % Self::P) as u32)
    }
}
impl T for Seconds {
    const P: u128 = TS;
    fn mk(s: u32, t: u32) -> Self {
        Seconds::new(s, t)
    }
    fn csub(self, o: Self) -> Option<Self> {
        self.checked_sub(o)
    }
    fn ssub(self, o: Self) -> Self {
        self.saturating_sub(o)
    }
    fn f(self) -> f64 {
        self.to_secs_f64()
    }
    fn of(x: f64) -> Self {
        Seconds::from_secs_f64(x)
    }
    fn scale(self, x: f64) -> Vec<Self> {
        let mut a = self;
        a *= x;
        vec![self * x, x * self, a]
    }
    fn scale32(self, x: f32) -> Vec<Self> {
        let mut a = self;
        a *= x;
        vec![self * x, x * self, a]
    }
    fn prod(self, o: Self) -> Vec<Self> {
        let mut a = self;
        a *= o;
        vec![self * o, a]
    }
}
impl T for Beats {
    const P: u128 = TB;
    fn mk(s: u32, t: u32) -> Self {
        Beats::new(s, t)
    }
    fn csub(self, o: Self) -> Option<Self> {
        self.checked_sub(o)
    }
    fn ssub(self, o: Self) -> Self {
        self.saturating_sub(o)
    }
    fn f(self) -> f64 {
        self.as_beats_f64()
    }
    fn of(x: f64) -> Self {
        Beats::from_beats_f64(x)
    }
    fn scale(self, x: f64) -> Vec<Self> {
        let mut a = self;
        a *= x;
        vec![self * x, a]
    }
    fn scale32(self, x: f32) -> Vec<Self> {
        let mut a = self;
        a *= x;
        vec![self * x, a]
    }
    fn prod(self, o: Self) -> Vec<Self> {
        let mut a = self;
        a *= o;
        vec![self * o, a]
    }
}

fn parts<K: T>(c: &mut Case) -> (u32, u32) {
    let p = K::P as u32;
    let s = match c.rng.below(6) {
        0 => 0,
        1 => 1 + c.rng.below(3) as u32,
        2 => u32::MAX - c.rng.below(3) as u32,
        3 => c.rng.next() as u32,
        4 => 1 << c.rng.below(32),
        _ => c.rng.below(100_000) as u32,
    };
    let t = match c.rng.below(8) {
        0 => 0,
        1 => 1 + c.rng.below(3) as u32,
        2 => p - 1 - c.rng.below(3) as u32,
        3 => p / [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 24, 32][c.rng.below(14)],
        _ => (c.rng.next() % p as u64) as u32,
    };
    (s, t)
}
fn n<K: T>(s: u32, t: u32) -> u128 {
    (s as u128 * K::P + t as u128).min(K::top())
}
/// the exact number of tesimals of a value, found by comparisons only
fn num<K: T>(x: K) -> u128 {
    let (mut lo, mut hi) = (0u128, K::top());
    while lo < hi {
        let m = (lo + hi + 1) / 2;
        if K::mkn(m) <= x { lo = m } else { hi = m - 1 }
    }
    lo
}
fn exact<K: T>(key: &str, what: &str, got: K, want: u128) -> Res {
    let w = K::mkn(want);
    ensure!(
        got == w && got.cmp(&w) == std::cmp::Ordering::Equal && h(&got) == h(&w),
        key,
        "{what} gives {got:?}, exactly {} tesimals ({:.9}), expected {w:?}",
        num(got),
        got.f()
    );
    Ok(())
}
/// `got` is within `tol` tesimals of `want`, and in normal form
fn near<K: T>(key: &str, what: &str, got: K, want: f64, tol: f64) -> Res {
    let want = want.clamp(0.0, K::top() as f64);
    let g = num(got);
    ensure!(
        (g as f64 - want).abs() <= tol,
        key,
        "{what} gives {got:?}, {g} tesimals, expected {want} within {tol}"
    );
    ensure!(got == K::mkn(g), "normal-form", "{what} gives {got:?}, which is not equal to {:?}", K::mkn(g));
    Ok(())
}

fn arith<K: T>(c: &mut Case) -> Res {
    let (s0, t0) = parts::<K>(c);
    let (s1, mut t1) = parts::<K>(c);
    let (s1, raw1) = if c.rng.chance(1, 6) { (s0, t0.wrapping_add(c.rng.below(3) as u32)) } else { (s1, t1) };
    t1 = raw1;
    if c.rng.chance(1, 8) {
        // tesimals beyond a whole unit carry over
        t1 = c.rng.next() as u32;
    }
    let (a, b) = (K::mk(s0, t0), K::mk(s1, t1));
    let (na, nb) = (n::<K>(s0, t0), n::<K>(s1, t1));
    c.note(format!("{} {s0}:{t0} {s1}:{t1}", std::any::type_name::<K>()));
    exact("normal-form", "new", b, nb)?;
    // order and equality are those of the numbers
    ensure!(
        a.cmp(&b) == na.cmp(&nb) && a.partial_cmp(&b) == Some(na.cmp(&nb)) && (a == b) == (na == nb),
        "order",
        "{a:?} {b:?} compare as {:?} / {}, the numbers are {na} and {nb}",
        a.cmp(&b),
        a == b
    );
    ensure!((a < b) == (na < nb) && (a >= b) == (na >= nb), "order", "{a:?} < {b:?} is {}", a < b);
    ensure!(a.max(b) == K::mkn(na.max(nb)), "order", "max of {a:?} {b:?}");
    // addition
    exact("add", "a+b", a + b, na + nb)?;
    let mut d = a;
    d += b;
    exact("add", "a+=b", d, na + nb)?;
    // subtraction
    match a.csub(b) {
        Some(x) => {
            ensure!(na >= nb, "sub", "{a:?}.checked_sub({b:?}) is {x:?}");
            exact("sub", "checked_sub", x, na - nb)?;
            exact("sub", "(a-b)+b", x + b, na)?;
        }
        None => ensure!(na < nb, "sub", "{a:?}.checked_sub({b:?}) is None"),
    }
    exact("sub", "saturating_sub", a.ssub(b), na.saturating_sub(nb))?;
    // product of two times
    let e = na * nb / K::P;
    for x in a.prod(b) {
        near("product", &format!("{a:?} * {b:?}"), x, e as f64, 1.0 + 4.0 * f64::EPSILON * e as f64)?;
        if e < 1 << 52 {
            let g = num(x);
            ensure!(g.abs_diff(e) <= 1, "product", "{a:?} * {b:?} is {g} tesimals, expected {e}");
        }
    }
    // scaling by a float
    let k = match c.rng.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3 => 1u32.wrapping_shl(c.rng.below(20) as u32) as f64,
        4 => c.rng.f64(),
        _ => c.rng.uniform(0.0, 1000.0),
    };
    for x in a.scale(k) {
        let e = na as f64 * k;
        near("scale", &format!("{a:?} * {k}"), x, e, 2.0 + 4.0 * f64::EPSILON * e)?;
    }
    for x in a.scale32(k as f32) {
        let e = na as f64 * (k as f32) as f64;
        near("scale", &format!("{a:?} * {}f32", k as f32), x, e, 2.0 + 4.0 * f64::EPSILON * e)?;
    }
    // to and from floating point
    let f = a.f();
    let e = na as f64 / K::P as f64;
    ensure!((f - e).abs() <= 2.0 * f64::EPSILON * e, "to-float", "{a:?} is {f}, expected {e}");
    near("round-trip", "of(f(a))", K::of(f), na as f64, 1.0 + 2.0 * f64::EPSILON * na as f64)?;
    let x = match c.rng.below(8) {
        0 => -c.rng.uniform(0.0, 10.0),
        1 => c.rng.uniform(4e9, 5e9),
        2 => *c.rng.pick(&[4294967295.0, 4294967295.5, 4294967296.0, 4294967296.5, 1e10, 1e20, f64::INFINITY, -1e20, f64::NEG_INFINITY]),
        3 => c.rng.below(1 << 20) as f64 / 1024.0,
        4 => c.rng.below(1000) as f64,
        5 => c.rng.below(1000) as f64 - 1e-12,
        _ => c.rng.uniform(0.0, 1000.0),
    };
    let e = x * K::P as f64;
    near("from-float", &format!("of({x:?})"), K::of(x), e, 1.0 + 2.0 * f64::EPSILON * e.abs().min(1e20))?;
    c.nontrivial();
    c.count("operations compared with exact arithmetic", 20);
    Ok(())
}

fn seconds(c: &mut Case) -> Res {
    let (s, t) = parts::<Seconds>(c);
    let a = Seconds::new(s, t);
    let na = n::<Seconds>(s, t);
    ensure!(a.to_subsample_tesimals_u64() as u128 == na, "tesimals", "{a:?} has {} tesimals", a.to_subsample_tesimals_u64());
    let u = match c.rng.below(4) {
        0 => u64::MAX - c.rng.below(5) as u64,
        1 => (Seconds::top() as u64).wrapping_add(c.rng.below(3) as u64).wrapping_sub(1),
        _ => c.rng.next() >> c.rng.below(64),
    };
    exact("tesimals", "from_subsample_tesimals_u64", Seconds::from_subsample_tesimals_u64(u), u as u128)?;
    ensure!(Seconds::ZERO == Seconds::new(0, 0) && a >= Seconds::ZERO, "constants", "zero");
    exact("constants", "MAX", Seconds::MAX, Seconds::top())?;
    ensure!(a <= Seconds::MAX, "constants", "{a:?} > MAX");
    // whole frames
    let sr = *c.rng.pick(RATES);
    let fr = match c.rng.below(4) {
        0 => c.rng.below(3 * sr as usize) as u64,
        1 => c.rng.next() % (sr << 32),
        2 => c.rng.below(1 << 40) as u64 / sr * sr,
        _ => (sr << 32) - 1 - c.rng.below(3) as u64,
    };
    c.note(format!("{s}:{t} {u} {fr}@{sr}"));
    let x = Seconds::from_samples(fr, sr);
    exact("from-samples", "from_samples", x, fr as u128 * TS / sr as u128)?;
    ensure!(x.to_samples(sr) == fr, "samples", "{fr} frames at {sr} come back as {}", x.to_samples(sr));
    let e = x.to_samples_f64(sr as f64);
    ensure!((e - fr as f64).abs() <= 1e-6 + 4.0 * f64::EPSILON * fr as f64, "samples-f64", "{fr} frames at {sr} come back as {e}");
    // any time, any rate: the frame that contains it
    let sr2 = if c.rng.chance(1, 2) { *c.rng.pick(RATES) } else { 1 + c.rng.next() % 400_000 };
    let want = na * sr2 as u128 / TS;
    ensure!(a.to_samples(sr2) as u128 == want, "to-samples", "{a:?} at {sr2} is {} frames, expected {want}", a.to_samples(sr2));
    let wf = na as f64 / TS as f64 * sr2 as f64;
    let g = a.to_samples_f64(sr2 as f64);
    ensure!((g - wf).abs() <= 1e-6 + 4.0 * f64::EPSILON * wf, "samples-f64", "{a:?} at {sr2} is {g} frames, expected {wf}");
    let y = Seconds::from_samples(fr, sr2);
    exact("from-samples", "from_samples", y, (fr / sr2) as u128 * TS + (fr % sr2) as u128 * TS / sr2 as u128)?;
    let back = y.to_samples(sr2);
    ensure!(
        fr / sr2 >= 1 << 32 || (back <= fr && fr - back <= 1),
        "samples",
        "{fr} frames at {sr2} come back as {back}"
    );
    // saturation
    let big = (1u64 << 32) * sr + c.rng.next() % (1 << 40);
    exact("from-samples", "from_samples beyond the range", Seconds::from_samples(big, sr), Seconds::top())?;
    // durations
    let d = Duration::new(if c.rng.chance(1, 10) { c.rng.next() } else { c.rng.next() >> 32 >> c.rng.below(32) }, (c.rng.next() % 1_000_000_000) as u32);
    let g: Seconds = d.into();
    let en = d.as_nanos() * TS / 1_000_000_000;
    let gn = num(g);
    ensure!(gn.abs_diff(en.min(Seconds::top())) <= 1, "duration", "{d:?} becomes {g:?}");
    ensure!(g == Seconds::mkn(gn), "normal-form", "{d:?} becomes {g:?}");
    // precision loss
    let f = c.rng.uniform(0.0, 1e6);
    let (q, loss) = Seconds::from_secs_f64_return_precision_loss(f);
    ensure!(q == Seconds::from_secs_f64(f), "precision-loss", "{f}: {q:?}");
    ensure!((q.to_secs_f64() + loss - f).abs() < 1e-9, "precision-loss", "{f}: {q:?} and {loss}");
    c.nontrivial();
    c.count("conversions compared with exact arithmetic", 12);
    Ok(())
}

fn frac<const F: u32>(b: u32, k: u32) -> Res {
    let k = k % F;
    let g = Beats::from_fractional_beats::<F>(b, k);
    exact("fraction", &format!("from_fractional_beats::<{F}>({b}, {k})"), g, b as u128 * TB + TB * k as u128 / F as u128)
}
fn beats(c: &mut Case) -> Res {
    let (s, t) = parts::<Beats>(c);
    let a = Beats::new(s, t);
    let na = n::<Beats>(s, t);
    c.note(format!("{s}:{t}"));
    exact("from-beats", "from_beats", Beats::from_beats(s), s as u128 * TB)?;
    ensure!(Beats::ZERO == Beats::new(0, 0), "constants", "zero");
    // musical subdivisions are exact
    let k = c.rng.next() as u32;
    frac::<2>(s, k)?;
    frac::<3>(s, k)?;
    frac::<4>(s, k)?;
    frac::<5>(s, k)?;
    frac::<6>(s, k)?;
    frac::<7>(s, k)?;
    frac::<8>(s, k)?;
    frac::<9>(s, k)?;
    frac::<10>(s, k)?;
    frac::<12>(s, k)?;
    frac::<14>(s, k)?;
    frac::<15>(s, k)?;
    frac::<16>(s, k)?;
    frac::<18>(s, k)?;
    frac::<20>(s, k)?;
    frac::<24>(s, k)?;
    frac::<32>(s, k)?;
    frac::<64>(s, k)?;
    frac::<128>(s, k)?;
    frac::<256>(s, k)?;
    frac::<512>(s, k)?;
    frac::<1920>(s, k)?;
    let g = Beats::from_fractional_beats::<11>(s, k % 11);
    let e = s as u128 * TB + TB * (k % 11) as u128 / 11;
    ensure!(num(g).abs_diff(e) <= 1, "fraction", "{}/11: {g:?}", k % 11);
    // n n-tuplets are a beat
    let mut sum = Beats::ZERO;
    for _ in 0..7 {
        sum += Beats::from_fractional_beats::<7>(0, 1);
    }
    exact("tuplets", "7 septuplets", sum, TB)?;
    // integer scaling is exact
    let m = match c.rng.below(3) {
        0 => c.rng.below(200) as u64,
        1 => c.rng.next() >> c.rng.below(64),
        _ => c.rng.below(100_000) as u64,
    };
    exact("scale-int", &format!("{a:?} * {m}u64"), a * m, na.saturating_mul(m as u128))?;
    exact("scale-int", &format!("{a:?} * {}u32", m as u32), a * m as u32, na * (m as u32) as u128)?;
    exact("scale-int", &format!("{a:?} * {}u16", m as u16), a * m as u16, na * (m as u16) as u128)?;
    exact("scale-int", &format!("{a:?} * {}u8", m as u8), a * m as u8, na * (m as u8) as u128)?;
    // sums
    let mut v = vec![];
    let mut e = 0u128;
    for _ in 0..c.rng.below(10) {
        let (s, t) = parts::<Beats>(c);
        let s = s >> 4;
        v.push(Beats::new(s, t));
        e += n::<Beats>(s, t);
    }
    exact("sum", "sum", v.into_iter().sum::<Beats>(), e)?;
    // floats
    let f = (c.rng.uniform(0.0, 1000.0) as f32).max(0.0);
    let e = f as f64 * TB as f64;
    for g in [Beats::from(f as f64), Beats::from_beats_f64(f as f64)] {
        near("from-float", &format!("from {f}f64"), g, e, 1.0 + 2.0 * f64::EPSILON * e)?;
    }
    // the fraction is scaled in single precision
    for g in [Beats::from_beats_f32(f), Beats::from(f)] {
        near("from-float", &format!("from {f}f32"), g, e, 1.0 + TB as f64 * f32::EPSILON as f64 / 2.0)?;
    }
    let back = a.as_beats_f32() as f64;
    let e = na as f64 / TB as f64;
    ensure!((back - e).abs() <= 2.0 * f32::EPSILON as f64 * e.max(1e-9), "to-float", "{a:?} is {back}f32, expected {e}");
    for x in [-1.0f32, -0.25, 0.0, 4294967296.0, 1e20, f32::INFINITY, f32::NEG_INFINITY] {
        let e = x as f64 * TB as f64;
        near("from-float", &format!("from {x}f32"), Beats::from_beats_f32(x), e, 1.0 + 1e-9 * e.abs().min(1e20))?;
    }
    c.nontrivial();
    c.count("conversions compared with exact arithmetic", 40);
    Ok(())
}

pub fn run_check(r: &mut Run) {
    r.rule = "random and extreme times (zero, one tesimal around a carry, powers of two, the end of the range, musical and sample subdivisions); each operation's result is located among all values by comparisons alone and compared with the result computed in 128 bit integers (exactly where the operation is exact, within the resolution plus float rounding where a float takes part); equality, order and hash must agree with the number; every case is non-trivial".into();
    r.assumptions.push("saturation at the ends of the range is what out-of-range results give; a sample rate of zero is out of scope".into());
    r.cases("seconds-arith", r.n(150000, 4_000_000), arith::<Seconds>);
    r.cases("beats-arith", r.n(150000, 4_000_000), arith::<Beats>);
    r.cases("seconds", r.n(150000, 4_000_000), seconds);
    r.cases("beats", r.n(150000, 4_000_000), beats);
}

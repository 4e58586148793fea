//! Every kind of node in the library, so that checks can say something about all of them.
use crate::common::*;
use knaster_airwindows::galactic::Galactic;
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::bit::B1;
use knaster_core::typenum::*;
use knaster_core::{Float, PInteger, ParameterHint, ParameterType, ParameterValue, Seconds, Size, UGen};
use knaster_core_dsp::buffer::BufferReader;
use knaster_core_dsp::closure::UGenClosure;
use knaster_core_dsp::delay::*;
use knaster_core_dsp::dsp::buffer::Buffer;
use knaster_core_dsp::dynamics::SafetyLimiter;
use knaster_core_dsp::envelopes::*;
use knaster_core_dsp::math::{self as km, Math1UGen, MathUGen};
use knaster_core_dsp::noise::*;
use knaster_core_dsp::onepole::*;
use knaster_core_dsp::osc::*;
use knaster_core_dsp::pan::Pan2;
use knaster_core_dsp::polyblep::{PolyBlep, Waveform};
use knaster_core_dsp::svf::{SvfFilter, SvfFilterType};
use knaster_core_dsp::util::*;
use std::ops::Add;
use std::sync::Arc;

pub const COUNT: usize = 33;
/// Seconds every delay can hold
pub const MAX_DELAY: f64 = 0.02;

pub trait Visit<F: Float> {
    /// `make` returns a new instance, each time an identical one.
    fn visit<U>(&mut self, name: &'static str, make: &dyn Fn() -> U) -> Res
    where
        U: UGen<Sample = F> + Send + 'static,
        U::Parameters: Add<B1>,
        Add1<U::Parameters>: Size + Add<B1>,
        Add1<Add1<U::Parameters>>: Size;
}

/// Instances with identical state of a type without heap memory.
fn copies<U>(u: U) -> impl Fn() -> U {
    assert!(!std::mem::needs_drop::<U>());
    move || unsafe { std::ptr::read(&u) }
}

pub fn pick<F: Float, V: Visit<F>>(i: usize, r: &mut Rng, v: &mut V) -> Res {
    let secs = Seconds::from_secs_f64(MAX_DELAY);
    let fr = |r: &mut Rng| F::new(*r.pick(&[20.0, 55.5, 440.0, 1234.5, 3000.0]));
    match i {
        0 => v.visit("SampleDelay", &|| SampleDelay::<F>::new(secs)),
        1 => v.visit("AllpassDelay", &|| AllpassDelay::<F>::new(secs)),
        2 => v.visit("AllpassFeedbackDelay", &|| AllpassFeedbackDelay::<F>::new(secs)),
        3 => {
            let (a, b) = (F::new(r.f64() * 0.005), F::new(r.f64() * 0.005));
            v.visit("EnvAsr", &|| EnvAsr::<F>::new(a, b))
        }
        4 => {
            let (a, b) = (F::new(r.f64() * 0.005), F::new(r.f64() * 0.005));
            v.visit("EnvAr", &|| EnvAr::<F>::new(a, b))
        }
        5 => {
            let s: Vec<(f64, f64)> = (0..r.below(4)).map(|_| (r.f64() * 0.002, r.f64() * 2.0 - 1.0)).collect();
            let l = r.chance(1, 2);
            v.visit("Envelope", &|| {
                Envelope::<F>::new(0.25, s.iter().map(|s| EnvelopeSegment::new(s.0, s.1)).collect()).looping(l)
            })
        }
        6 => v.visit("MathUGen<Add>", &|| MathUGen::<F, U1, km::Add>::new()),
        7 => v.visit("MathUGen<Mul, U3>", &|| MathUGen::<F, U3, km::Mul>::new()),
        8 => v.visit("MathUGen<Sub, U2>", &|| MathUGen::<F, U2, km::Sub>::new()),
        9 => v.visit("MathUGen<Div>", &|| MathUGen::<F, U1, km::Div>::new()),
        10 => v.visit("Math1UGen<Fract>", &|| Math1UGen::<F, km::Fract>::new()),
        11 => v.visit("Math1UGen<Exp>", &|| Math1UGen::<F, km::Exp>::new()),
        12 => v.visit("WhiteNoise", &copies(WhiteNoise::<F>::new())),
        13 => v.visit("PinkNoise", &copies(PinkNoise::<F>::new())),
        14 => v.visit("BrownNoise", &copies(BrownNoise::<F>::new())),
        15 => v.visit("RandomLin", &copies(RandomLin::<F>::new(fr(r)))),
        16 => {
            let f = fr(r);
            v.visit("OnePoleLpf", &|| OnePoleLpf::<F>::new(f))
        }
        17 => v.visit("OnePoleHpf", &|| OnePoleHpf::<F>::new()),
        18 => {
            let f = fr(r);
            v.visit("SinWt", &|| SinWt::<F>::new(f))
        }
        19 => {
            let f = Float::to_f64(fr(r));
            v.visit("Phasor", &|| Phasor::<F>::new(f))
        }
        20 => {
            let f = fr(r);
            v.visit("SinNumeric", &|| SinNumeric::<F>::new(f))
        }
        21 => {
            let f = fr(r);
            let w = Waveform::from(PInteger(r.below(20)));
            v.visit("PolyBlep", &|| PolyBlep::<F>::new(w, f))
        }
        22 => {
            let f = fr(r);
            let t = SvfFilterType::from(PInteger(r.below(9)));
            v.visit("SvfFilter", &|| SvfFilter::<F>::new(t, f, F::new(0.8f32), F::new(3.0f32)))
        }
        23 => {
            let p = (r.f64() * 2.0 - 1.0) as f32;
            v.visit("Pan2", &|| Pan2::<F>::new(p))
        }
        24 => v.visit("DoneOnTrig", &|| DoneOnTrig::<F>::new()),
        25 => {
            let x = F::new(r.f64());
            v.visit("Constant", &|| Constant::<F>::new(x))
        }
        26 => v.visit("LogProbe", &|| LogProbe::<F>::new("probe")),
        27 => v.visit("UGenClosure", &|| {
            let mut k = 0.0;
            UGenClosure::<F, U2, U3>::new(Box::new(move |_, _, i: NumericArray<F, U2>| {
                k += 0.125;
                let n = F::new(k);
                [i[0] + n, i[1] - i[0], n].into()
            }))
        }),
        28 => v.visit("SafetyLimiter", &|| SafetyLimiter::<F>::new()),
        29 | 30 => {
            let ch = if i == 29 { 1 } else { 2 };
            let n = 1 + r.below(300);
            let d: Vec<F> = (0..n * ch).map(|_| F::new(r.f64() * 2.0 - 1.0)).collect();
            let b = Arc::new(Buffer::<F>::from_vec_interleaved(d, ch, *r.pick(&[44100.0, 48000.0, 22050.0])));
            let l = r.chance(1, 2);
            let rate = *r.pick(&[1.0, 0.5, 1.37]);
            if ch == 1 {
                v.visit("BufferReader<U1>", &|| BufferReader::<F, U1>::new(b.clone(), rate, l))
            } else {
                v.visit("BufferReader<U2>", &|| BufferReader::<F, U2>::new(b.clone(), rate, l))
            }
        }
        31 => {
            let mut p: Vec<F> = (0..5).map(|_| F::new(r.f64())).collect();
            p[1] = F::new(Float::to_f64(p[1]) * DETUNE);
            v.visit("Galactic", &|| Galactic::<F>::new(p[0], p[1], p[2], p[3], p[4]))
        }
        32 => v.visit("MathUGen<Pow>", &|| MathUGen::<F, U1, km::Pow>::new()),
        _ => unreachable!(),
    }
}
/// The reverb draws a random number after its first cycle of modulation, with at most this much
/// detune that doesn't happen within 2200 frames.
const DETUNE: f64 = 0.014;
/// Random dither seeded from a global counter, two instances are identical except for that.
pub fn seeded_by_counter(name: &str) -> bool {
    name == "Galactic"
}
/// A legal value for a parameter.
pub fn legal(r: &mut Rng, node: &str, param: &str, h: &ParameterHint, sr: u32) -> ParameterValue {
    let f = |r: &mut Rng, lo: f64, hi: f64| ParameterValue::Float(r.uniform(lo, hi) as f32 as f64);
    match h.ty() {
        ParameterType::Trigger => ParameterValue::Trigger,
        ParameterType::Bool => ParameterValue::Bool(r.chance(1, 2)),
        ParameterType::Integer => {
            let (lo, hi) = h.integer_hint().unwrap().range;
            ParameterValue::Integer(PInteger(lo.0 + r.below((hi.0 - lo.0).min(20) + 1)))
        }
        ParameterType::Float => match param {
            "freq" | "cutoff_freq" | "cutoff" => f(r, 1.0, sr as f64 * 0.4),
            "delay_time" => f(r, 0.0, MAX_DELAY),
            "feedback" => f(r, -0.9, 0.9),
            "attack_time" | "release_time" => f(r, 0.0, 0.01),
            "time_scale" => f(r, 0.1, 4.0),
            "q" => f(r, 0.2, 8.0),
            "gain" | "gain_db" => f(r, -12.0, 12.0),
            "detune" => f(r, 0.0, DETUNE),
            "pan" => f(r, -1.0, 1.0),
            "rate" => f(r, 0.0, 3.0),
            "start_s" => f(r, 0.0, 0.004),
            "duration_s" => f(r, 0.0005, 0.005),
            "end_s" => f(r, 0.001, 0.008),
            _ => {
                if node == "Galactic" {
                    f(r, 0.0, 1.0)
                } else {
                    f(r, -1.0, 1.0)
                }
            }
        },
    }
}

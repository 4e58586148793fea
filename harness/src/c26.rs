//! C26: names, hints, indices and types of parameters line up.
use crate::catalog::{self, Visit};
use crate::common::*;
use crate::dsp::{self, Div};
use crate::{bail, ensure};
use knaster_core::log::ArLogReceiver;
use knaster_core::num_derive::{FromPrimitive, ToPrimitive};
use knaster_core::num_traits;
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::bit::B1;
use knaster_core::typenum::*;
use knaster_core::{
    AudioCtx, Block, BlockRead, Done, Float, FloatParameterKind, FloatParameterRange, Frame,
    KnasterIntegerParameter, PFloat, PInteger, PIntegerConvertible, Param, ParameterError, ParameterHint,
    ParameterSmoothing, ParameterType, ParameterValue, Rate, Size, UGen, UGenFlags, impl_ugen,
};
use knaster_core_dsp::polyblep::Waveform;
use knaster_core_dsp::svf::SvfFilterType;
use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
use knaster_graph::Time;
use knaster_graph::graph::{GraphError, NodeOrGraph};
use knaster_graph::handle::HandleTrait;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use std::ops::Add;
use std::sync::{Arc, Mutex};

type Log = Arc<Mutex<Vec<(&'static str, String)>>>;

#[derive(Default, Debug, PartialEq, Eq, Copy, Clone, FromPrimitive, ToPrimitive, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
pub enum Gappy {
    Low = 3,
    #[default]
    Middle = 5,
    Next,
    High = 9,
}
#[derive(Default, Debug, PartialEq, Eq, Copy, Clone, FromPrimitive, ToPrimitive, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
pub enum Plain {
    Alpha,
    Beta,
    #[default]
    Gamma,
    Delta,
    Epsilon,
}

/// Every supported kind of parameter function; each records what it was given.
pub struct Rec<F> {
    log: Log,
    gain: F,
}
#[impl_ugen]
impl<F: Float> Rec<F> {
    pub fn new(log: Log) -> Self {
        Self { log, gain: F::ONE }
    }
    fn say(&self, who: &'static str, what: String) {
        self.log.lock().unwrap().push((who, what));
    }
    #[param(default = 0.5, range = -1.0..=2.0, kind = Amplitude)]
    fn single(&mut self, v: f32) {
        self.say("single", format!("{v:?}"));
    }
    #[param(kind = Seconds, logarithmic = true)]
    fn double(&mut self, v: f64, ctx: &AudioCtx) {
        self.say("double", format!("{v:?} {} {}", ctx.sample_rate(), ctx.block_size()));
    }
    fn not_a_param(&mut self, _v: f64) {
        self.say("not_a_param", String::new());
    }
    #[param(kind = Frequency, default = 20.0)]
    fn pfloat(&mut self, ctx: &mut AudioCtx, v: PFloat) {
        self.say("pfloat", format!("{v:?} {} {}", ctx.sample_rate(), ctx.block_size()));
    }
    #[param(range = 2..=9)]
    fn int(&mut self, v: PInteger) {
        self.say("int", format!("{}", v.0));
    }
    #[param]
    fn any_int(&mut self, ctx: &AudioCtx, v: PInteger) {
        self.say("any_int", format!("{} {} {}", v.0, ctx.sample_rate(), ctx.block_size()));
    }
    #[param(from = Gappy)]
    fn gappy(&mut self, v: PInteger) {
        self.say("gappy", format!("{}", v.0));
    }
    #[param(from = Plain)]
    fn plain(&mut self, v: PInteger) {
        self.say("plain", format!("{}", v.0));
    }
    #[param]
    fn boolean(&mut self, v: bool) {
        self.say("boolean", format!("{v}"));
    }
    #[param(kind = Q)]
    fn gain(&mut self, v: PFloat) {
        self.gain = F::new(v);
        self.say("gain", format!("{v:?}"));
    }
    #[param]
    fn trigger(&mut self) {
        self.say("trigger", String::new());
    }
    #[param]
    fn trigger_ctx(&mut self, ctx: &mut AudioCtx) {
        self.say("trigger_ctx", format!("{} {}", ctx.sample_rate(), ctx.block_size()));
    }
    fn process(&mut self, input: [F; 2]) -> [F; 3] {
        [input[0] * self.gain, input[1] * self.gain, self.gain]
    }
}
const REC: [(&str, ParameterType); 11] = [
    ("single", ParameterType::Float),
    ("double", ParameterType::Float),
    ("pfloat", ParameterType::Float),
    ("int", ParameterType::Integer),
    ("any_int", ParameterType::Integer),
    ("gappy", ParameterType::Integer),
    ("plain", ParameterType::Integer),
    ("boolean", ParameterType::Bool),
    ("gain", ParameterType::Float),
    ("trigger", ParameterType::Trigger),
    ("trigger_ctx", ParameterType::Trigger),
];

fn any_float(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, 1e-320]),
        1 => f64::NAN,
        2 => f64::from_bits(r.next()),
        3 => r.uniform(-1e6, 1e6),
        _ => r.uniform(-1.0, 1.0),
    }
}
fn any_int(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => usize::MAX - r.below(3),
        1 => r.next() as usize,
        _ => r.below(12),
    }
}
fn any_value(r: &mut Rng, ty: ParameterType) -> ParameterValue {
    match ty {
        ParameterType::Float => ParameterValue::Float(any_float(r)),
        ParameterType::Integer => ParameterValue::Integer(PInteger(any_int(r))),
        ParameterType::Bool => ParameterValue::Bool(r.chance(1, 2)),
        ParameterType::Trigger => ParameterValue::Trigger,
    }
}
/// What the setter of Rec records for this value.
fn expected(i: usize, v: ParameterValue, sr: u32, bs: usize) -> String {
    let c = format!("{sr} {bs}");
    match (REC[i].0, v) {
        ("single", ParameterValue::Float(v)) => format!("{:?}", v as f32),
        ("double" | "pfloat", ParameterValue::Float(v)) => format!("{v:?} {c}"),
        ("gain", ParameterValue::Float(v)) => format!("{v:?}"),
        ("int" | "gappy" | "plain", ParameterValue::Integer(v)) => format!("{}", v.0),
        ("any_int", ParameterValue::Integer(v)) => format!("{} {c}", v.0),
        ("boolean", ParameterValue::Bool(v)) => format!("{v}"),
        ("trigger", ParameterValue::Trigger) => String::new(),
        ("trigger_ctx", ParameterValue::Trigger) => c,
        (n, v) => panic!("harness: {n} {v:?}"),
    }
}

/// The value reaching param_apply of a node written by hand.
struct Hand<F> {
    log: Log,
    x: F,
}
impl<F: Float> UGen for Hand<F> {
    type Sample = F;
    type Inputs = U1;
    type Outputs = U1;
    type Parameters = U5;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, i: Frame<F, U1>) -> Frame<F, U1> {
        [i[0] + self.x].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U5> {
        ["x", "n", "b", "t", "y"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U5> {
        [
            ParameterHint::infinite_float(),
            ParameterHint::new_integer((PInteger(1), PInteger(7)), |h| h),
            ParameterHint::boolean(),
            ParameterHint::Trigger,
            ParameterHint::one(),
        ]
        .into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) {
        if i == 0 {
            if let Some(v) = v.float() {
                self.x = F::new(v);
            }
        }
        self.log.lock().unwrap().push((["x", "n", "b", "t", "y"][i], format!("{v:?}")));
    }
}
const HAND: [(&str, ParameterType); 5] = [
    ("x", ParameterType::Float),
    ("n", ParameterType::Integer),
    ("b", ParameterType::Bool),
    ("t", ParameterType::Trigger),
    ("y", ParameterType::Float),
];

/// Pairwise different names, matching hints and types, the given parameters at the front.
fn declared<W: UGen>(what: &str, inner: &[(&'static str, ParameterType)], own: &[(&'static str, ParameterType)]) -> Res {
    let d = W::param_descriptions();
    let h = W::param_hints();
    let t = W::param_types();
    let want: Vec<_> = inner.iter().chain(own).collect();
    ensure!(d.len() == want.len(), "declared-count", "{what}: {} parameters instead of {}", d.len(), want.len());
    for i in 0..d.len() {
        ensure!(d[i] == want[i].0, "declared-name", "{what}: parameter {i} is called {:?} instead of {:?}", d[i], want[i].0);
        ensure!(t[i] == want[i].1, "declared-type", "{what}: parameter {:?} has type {:?} instead of {:?}", d[i], t[i], want[i].1);
        ensure!(h[i].ty() == t[i], "declared-type", "{what}: parameter {:?} has type {:?} but a hint of type {:?}", d[i], t[i], h[i].ty());
        ensure!(!d[i].is_empty(), "declared-name", "{what}: parameter {i} has no name");
        ensure!(!d[..i].contains(&d[i]), "declared-name", "{what}: two parameters are called {:?}", d[i]);
    }
    Ok(())
}
fn sig<U: UGen>() -> Vec<(&'static str, ParameterType)> {
    U::param_descriptions().iter().copied().zip(U::param_types().iter().copied()).collect()
}
/// The hints of the inner node are passed on unchanged.
fn hints_kept<U: UGen, W: UGen>(what: &str) -> Res {
    let (a, b) = (U::param_hints(), W::param_hints());
    for i in 0..a.len() {
        ensure!(
            format!("{:?}", a[i]) == format!("{:?}", b[i]),
            "wrapped-hint",
            "{what}: the hint of parameter {i} is {:?} wrapped and {:?} unwrapped",
            b[i],
            a[i]
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ recorded setters
/// How a change reaches the node.
const ROUTES: usize = 3;
fn set_by<W: UGen>(w: &mut W, ctx: &mut AudioCtx, route: usize, i: usize, v: ParameterValue) -> Res {
    let name = W::param_descriptions()[i];
    let r = match route {
        0 => w.param(ctx, name, v),
        1 => w.param(ctx, i, v),
        _ => {
            w.param_apply(ctx, i, v);
            Ok(())
        }
    };
    if let Err(e) = r {
        bail!("valid-refused", "setting {name:?} to {v:?} is refused: {e}");
    }
    Ok(())
}
fn drive<W: UGen>(
    c: &mut Case,
    what: &str,
    mut w: W,
    log: &Log,
    inner: &[(&'static str, ParameterType)],
    exp: &dyn Fn(usize, ParameterValue, u32, usize) -> String,
) -> Res {
    let sr = *c.rng.pick(&[44100u32, 48000, 96000]);
    let bs = c.rng.block(&[1usize, 16, 64]);
    let mut ctx = dsp::ctx(sr, bs);
    w.init(sr, bs);
    let all = sig::<W>();
    log.lock().unwrap().clear();
    for _ in 0..30 {
        match c.rng.below(10) {
            0 => {
                let i = all.len() + c.rng.below(5);
                let v = any_value(&mut c.rng, ParameterType::Float);
                match w.param(&mut ctx, i, v) {
                    Err(ParameterError::ParameterIndexOutOfBounds) => (),
                    r => bail!("unknown-index", "{what}: setting parameter {i} of {} gives {r:?}", all.len()),
                }
            }
            1 => {
                let v = any_value(&mut c.rng, ParameterType::Float);
                let names: Vec<&str> = all.iter().map(|a| a.0).collect();
                let s = near_name(&mut c.rng, &names);
                match w.param(&mut ctx, s, v) {
                    Err(ParameterError::DescriptionNotFound(_)) => (),
                    r => bail!("unknown-name", "{what}: setting {s:?} gives {r:?}"),
                }
            }
            2 => {
                let i = c.rng.below(all.len());
                let ty = *c.rng.pick(&[ParameterType::Float, ParameterType::Integer, ParameterType::Bool, ParameterType::Trigger]);
                if ty == all[i].1 {
                    continue;
                }
                let v = any_value(&mut c.rng, ty);
                let r = if c.rng.chance(1, 2) { w.param(&mut ctx, i, v) } else { w.param(&mut ctx, all[i].0, v) };
                match r {
                    Err(ParameterError::WrongParameterType) => (),
                    r => bail!("wrong-type", "{what}: setting {:?} to {v:?} gives {r:?}", all[i].0),
                }
            }
            3 => {
                // Smoothing does nothing where there is no smoothing
                let i = c.rng.below(all.len());
                if inner.get(i).is_some_and(|p| p.0 == "x") || what.contains("smooth") {
                    continue;
                }
                if all[i].1 == ParameterType::Float && !what.starts_with("hand") {
                    let v = ParameterValue::Smoothing(ParameterSmoothing::Linear(0.01), Rate::AudioRate);
                    set_by(&mut w, &mut ctx, 2, i, v)?;
                    c.count("smoothing ignored", 1);
                }
            }
            _ => {
                let i = c.rng.below(all.len());
                let v = any_value(&mut c.rng, all[i].1);
                let route = c.rng.below(ROUTES);
                set_by(&mut w, &mut ctx, route, i, v)?;
                let got: Vec<_> = log.lock().unwrap().drain(..).collect();
                if i < inner.len() {
                    let e = (inner[i].0, exp(i, v, sr, bs));
                    ensure!(
                        got == vec![e.clone()],
                        "setter",
                        "{what}: setting parameter {i} ({}) to {v:?} by route {route} called {got:?} instead of {e:?}",
                        inner[i].0
                    );
                    c.count("setter calls checked", 1);
                } else {
                    ensure!(got.is_empty(), "setter", "{what}: setting the wrapper's parameter {:?} called {got:?}", all[i].0);
                    c.count("wrapper parameters set", 1);
                }
            }
        }
        let got: Vec<_> = log.lock().unwrap().drain(..).collect();
        ensure!(got.is_empty(), "setter", "{what}: a refused change called {got:?}");
    }
    c.nontrivial();
    Ok(())
}
fn stacked<U>(
    c: &mut Case,
    what: &str,
    make: &dyn Fn(&Log) -> U,
    inner: &[(&'static str, ParameterType)],
    exp: &dyn Fn(usize, ParameterValue, u32, usize) -> String,
) -> Res
where
    U: UGen + 'static,
    U::Parameters: Add<B1>,
    Add1<U::Parameters>: Size + Add<B1>,
    Add1<Add1<U::Parameters>>: Size,
{
    let log: Log = Default::default();
    let u = make(&log);
    let one = <U::Sample as Float>::new(1.0f32);
    let own = ("wr_mul", ParameterType::Float);
    macro_rules! go {
        ($n:expr, $w:expr, $own:expr) => {{
            let w = $w;
            fn check<U: UGen, W: UGen>(
                what: &str,
                _: &W,
                inner: &[(&'static str, ParameterType)],
                own: &[(&'static str, ParameterType)],
            ) -> Res {
                declared::<W>(what, inner, own)?;
                hints_kept::<U, W>(what)
            }
            let what = format!("{what} {}", $n);
            c.note(format!("{what} #{}", c.index));
            check::<U, _>(&what, &w, inner, $own)?;
            drive(c, &what, w, &log, inner, exp)
        }};
    }
    match c.rng.below(16) {
        0 => go!("bare", u, &[]),
        1 => go!("mul", u.wr_mul(one), &[own]),
        2 => go!("add", u.wr_add(one), &[]),
        3 => go!("sub", u.wr_sub(one), &[]),
        4 => go!("v_sub", u.wr_v_sub_gen(one), &[]),
        5 => go!("div", u.wr_div(one), &[]),
        6 => go!("v_div", u.wr_v_div_gen(one), &[]),
        7 => go!("powf", u.wr_powf(one), &[]),
        8 => go!("powi", u.wr_powi(3), &[]),
        9 => go!("closure", u.wr(|x| x), &[]),
        10 => go!("smooth", u.smooth_params(), &[]),
        11 => go!("ar", u.ar_params(), &[]),
        12 => go!("precise", u.precise_timing::<4>(), &[]),
        13 => go!("mul precise add", u.wr_mul(one).precise_timing::<2>().wr_add(one), &[own]),
        14 => go!("smooth ar mul", u.smooth_params().ar_params().wr_mul(one), &[own]),
        _ => go!("closure precise smooth div", u.wr(|x| x).smooth_params().precise_timing::<3>().wr_div(one), &[]),
    }
}

// ------------------------------------------------------------------ every node: by name = by index, wrapped = unwrapped
struct Plan {
    sr: u32,
    bs: usize,
    blocks: usize,
    input: Vec<Vec<f64>>,
    /// block, parameter, value
    changes: Vec<(usize, usize, ParameterValue)>,
}
/// Render with changes sent by a route; `skip` own parameters of wrappers are not touched.
fn render<W: UGen>(w: &mut W, p: &Plan, route: &dyn Fn(usize) -> usize) -> Result<Vec<Vec<f64>>, Violation> {
    let mut ctx = dsp::ctx(p.sr, p.bs);
    w.init(p.sr, p.bs);
    let mut out = vec![vec![]; W::Outputs::USIZE];
    for b in 0..p.blocks {
        for (i, ch) in p.changes.iter().enumerate().filter(|(_, c)| c.0 == b) {
            set_by(w, &mut ctx, route(i), ch.1, ch.2)?;
        }
        let cut: Vec<Vec<f64>> = p.input.iter().map(|c| c[b * p.bs..(b + 1) * p.bs].to_vec()).collect();
        let t = dsp::run_from(w, &mut ctx, &Div::Blocks(p.bs), b * p.bs, p.bs, &cut, &[])?;
        for (o, t) in out.iter_mut().zip(t.out) {
            o.extend(t);
        }
    }
    Ok(out)
}
fn equal(what: &str, key: &str, a: &[Vec<f64>], b: &[Vec<f64>], tol: f64) -> Res {
    for c in 0..a.len() {
        for f in 0..a[c].len() {
            let (x, y) = (a[c][f], b[c][f]);
            if !dsp::close(x, y, tol) {
                bail!(key, "{what}: channel {c} frame {f} is {x} and {y}");
            }
        }
    }
    Ok(())
}
struct Nodes<'a> {
    c: &'a mut Case,
}
impl<F: Float> Visit<F> for Nodes<'_> {
    fn visit<U>(&mut self, name: &'static str, make: &dyn Fn() -> U) -> Res
    where
        U: UGen<Sample = F> + Send + 'static,
        U::Parameters: Add<B1>,
        Add1<U::Parameters>: Size + Add<B1>,
        Add1<Add1<U::Parameters>>: Size,
    {
        let c = &mut *self.c;
        let all = sig::<U>();
        declared::<U>(name, &all, &[])?;
        let hints = U::param_hints();
        let n = all.len();
        let sr = *c.rng.pick(&[44100u32, 48000]);
        let bs = c.rng.block(&[1usize, 16, 32]);
        let blocks = 3 + c.rng.below(64 / bs.min(16));
        let mut changes: Vec<(usize, usize, ParameterValue)> = vec![];
        if n > 0 {
            for _ in 0..c.rng.below(12) {
                let b = c.rng.below(blocks);
                let i = c.rng.below(n);
                let v = catalog::legal(&mut c.rng, name, all[i].0, &hints[i], sr);
                changes.push((b, i, v));
            }
            changes.sort_by_key(|x| x.0);
        }
        let p = Plan { sr, bs, blocks, input: dsp::noise(&mut c.rng, U::Inputs::USIZE, bs * blocks), changes };
        c.note(format!("{name} {sr} {bs} {:?}", p.changes));
        let tol = if catalog::seeded_by_counter(name) { 1e-5 } else { 0.0 };
        let want = render(&mut make(), &p, &|_| 2)?;
        let seed = c.rng.next() as usize;
        let mixed = |i: usize| (seed >> (i % 30)) & 1;
        for (what, r) in [("by name", &(|_| 0usize) as &dyn Fn(usize) -> usize), ("by index", &|_| 1usize), ("mixed", &mixed)] {
            let got = render(&mut make(), &p, r)?;
            equal(&format!("{name}: parameters set {what} and applied directly"), "name-index", &got, &want, tol)?;
        }
        c.count("changes compared by name and index", p.changes.len() as u64 * 3);
        // wrapped in something that changes nothing
        let one = F::ONE;
        macro_rules! neutral {
            ($n:expr, $w:expr, $own:expr) => {{
                fn check<U: UGen, W: UGen>(
                    what: &str,
                    w: &mut W,
                    own: &[(&'static str, ParameterType)],
                    p: &Plan,
                    mixed: &dyn Fn(usize) -> usize,
                ) -> Result<Vec<Vec<f64>>, Violation> {
                    declared::<W>(what, &sig::<U>(), own)?;
                    hints_kept::<U, W>(what)?;
                    render(w, p, mixed)
                }
                let what = format!("{name} in {}", $n);
                let got = check::<U, _>(&what, &mut $w, $own, &p, &mixed)?;
                equal(&format!("{what}: wrapped and unwrapped"), "wrapped", &got, &want, tol)?;
                c.count("wrapped nodes compared", 1);
            }};
        }
        let own: &[(&'static str, ParameterType)] = &[("wr_mul", ParameterType::Float)];
        match c.rng.below(10) {
            0 => neutral!("mul", make().wr_mul(one), own),
            1 => neutral!("add", make().wr_add(F::ZERO), &[]),
            2 => neutral!("sub", make().wr_sub(F::ZERO), &[]),
            3 => neutral!("div", make().wr_div(one), &[]),
            4 => neutral!("closure", make().wr(|x| x), &[]),
            5 => neutral!("smooth", make().smooth_params(), &[]),
            6 => neutral!("ar", make().ar_params(), &[]),
            7 => neutral!("precise", make().precise_timing::<12>(), &[]),
            8 => neutral!("smooth ar mul", make().smooth_params().ar_params().wr_mul(one), own),
            _ => neutral!("mul closure precise", make().wr_mul(one).wr(|x| x).precise_timing::<12>(), own),
        }
        // in a graph
        in_graph::<F, U>(c, name, make, &p, &want, tol)?;
        c.count("nodes compared", 1);
        c.nontrivial();
        Ok(())
    }
}
fn in_graph<F: Float, U>(c: &mut Case, name: &str, make: &dyn Fn() -> U, p: &Plan, want: &[Vec<f64>], tol: f64) -> Res
where
    U: UGen<Sample = F> + Send + 'static,
    U::Parameters: Add<B1>,
    Add1<U::Parameters>: Size,
{
    let ni = U::Inputs::USIZE;
    let no = U::Outputs::USIZE;
    if ni > 6 || no > 3 {
        return Ok(());
    }
    let (mut g, mut ap, _rx) = AudioProcessor::<F>::new::<U6, U3>(AudioProcessorOptions {
        block_size: p.bs,
        sample_rate: p.sr,
        ring_buffer_size: 200,
        ..Default::default()
    });
    let all = sig::<U>();
    let done = c.rng.chance(1, 3);
    let mut params = vec![];
    let mut params_dyn = vec![];
    let mut own = vec![];
    let mut handle = None;
    let mut any = None;
    let id;
    if done {
        id = g.edit(|e| {
            let h = e.push_with_done_action(make(), Done::None);
            let names: Vec<&str> = all.iter().map(|a| a.0).chain(["done_action"]).collect();
            for (i, n) in names.iter().enumerate() {
                params.push((h.try_param(i), h.try_param(*n)));
            }
            let near = near_name(&mut c.rng, &names);
            own.push(h.try_param(names.len()).is_none() && h.try_param(near).is_none());
            h.id()
        });
    } else {
        #[allow(deprecated)]
        let h = g.push(make());
        id = h.node_id();
        any = Some(h.clone().into_any());
        handle = Some(h);
        g.edit(|e| {
            let h = e.handle(id).unwrap();
            for (i, n) in all.iter().enumerate() {
                params_dyn.push((h.try_param(i), h.try_param(n.0)));
            }
            let names: Vec<&str> = all.iter().map(|a| a.0).collect();
            let near = near_name(&mut c.rng, &names);
            own.push(h.try_param(all.len()).is_none() && h.try_param(near).is_none());
        });
    }
    ensure!(own[0], "unknown-name", "{name}: a parameter that doesn't exist is found");
    for (a, b) in params.iter().chain(&params_dyn) {
        ensure!(a.is_some() && b.is_some(), "valid-refused", "{name}: a declared parameter isn't found through the graph");
    }
    if let (Some(h), Some(a)) = (&handle, &any) {
        let names: Vec<&str> = all.iter().map(|a| a.0).collect();
        ensure!(h.parameters() == names && a.parameters() == names, "graph-names", "{name}: handles list {:?}", a.parameters());
        let want: Vec<String> = U::param_hints().iter().map(|h| format!("{h:?}")).collect();
        let hints = |v: Vec<ParameterHint>| v.iter().map(|h| format!("{h:?}")).collect::<Vec<_>>();
        ensure!(hints(h.hints()) == want && hints(a.hints()) == want, "graph-hints", "{name}: handles have different hints");
        ensure!(
            h.inputs() as usize == ni && a.inputs() as usize == ni && h.outputs() as usize == no && a.outputs() as usize == no,
            "graph-channels",
            "{name}: handles have different channel counts"
        );
    }
    let insp = g.inspection();
    let node = insp.nodes.iter().find(|n| n.key == id.key());
    ensure!(node.is_some(), "graph-names", "{name}: not found by inspection");
    let listed: Vec<String> = node.unwrap().parameter_descriptions.iter().map(|s| s.to_string()).collect();
    let names: Vec<String> =
        all.iter().map(|a| a.0.to_string()).chain(done.then(|| "done_action".to_string())).collect();
    ensure!(listed == names, "graph-names", "{name}: inspection lists {listed:?} instead of {names:?}");
    for i in 0..ni {
        if let Err(e) = g.connect2(NodeOrGraph::Graph, i as u16, i as u16, NodeOrGraph::Node(id)) {
            bail!("valid-refused", "{e}");
        }
    }
    for o in 0..no {
        if let Err(e) = g.connect2(NodeOrGraph::Node(id), o as u16, o as u16, NodeOrGraph::Graph) {
            bail!("valid-refused", "{e}");
        }
    }
    g.edit(|_| {});
    let silence = vec![F::ZERO; p.bs];
    for b in 0..p.blocks {
        for ch in p.changes.iter().filter(|c| c.0 == b) {
            let (i, v) = (ch.1, ch.2);
            let n = all[i].0;
            let r: Result<(), GraphError> = match c.rng.below(8) {
                0 => g.set(id, n, v, Time::asap()),
                1 => g.set(id, i, v, Time::asap()),
                2 if handle.is_some() => handle.as_ref().unwrap().set((n, v)),
                3 if handle.is_some() => handle.as_ref().unwrap().set((i, v)),
                4 if any.is_some() => any.as_ref().unwrap().set((n, v)),
                5 if any.is_some() => any.as_ref().unwrap().set((i, v)),
                k => {
                    let l = if done { &mut params } else { &mut params_dyn };
                    let q = if k % 2 == 0 { &mut l[i].0 } else { &mut l[i].1 };
                    q.as_mut().unwrap().set(v)
                }
            };
            if let Err(e) = r {
                bail!("valid-refused", "{name}: setting {n:?} to {v:?} is refused: {e}");
            }
        }
        // what doesn't exist is an error
        let total = all.len() + done as usize;
        let names: Vec<&str> = all.iter().map(|a| a.0).chain(done.then_some("done_action")).collect();
        let near = near_name(&mut c.rng, &names);
        match c.rng.below(6) {
            0 => {
                let i = total + c.rng.below(3);
                ensure!(g.set(id, i, 0.5, Time::asap()).is_err(), "unknown-index", "{name}: the graph accepts parameter {i} of {total}");
            }
            1 => ensure!(g.set(id, near, 0.5, Time::asap()).is_err(), "unknown-name", "{name}: the graph accepts a parameter called {near:?}"),
            2 => {
                if let Some(h) = &any {
                    ensure!(h.set((total, 0.5)).is_err(), "unknown-index", "{name}: the handle accepts parameter {total}");
                    ensure!(h.set((near, 0.5)).is_err(), "unknown-name", "{name}: the handle accepts a parameter called {near:?}");
                }
            }
            3 => {
                if let Some(h) = &handle {
                    ensure!(h.set((total, 0.5)).is_err(), "unknown-index", "{name}: the handle accepts parameter {total}");
                    ensure!(h.set((near, 0.5)).is_err(), "unknown-name", "{name}: the handle accepts a parameter called {near:?}");
                }
            }
            _ => (),
        }
        let ins: Vec<Vec<F>> = p.input.iter().map(|c| c[b * p.bs..(b + 1) * p.bs].iter().map(|x| F::new(*x)).collect()).collect();
        let mut slices: Vec<&[F]> = ins.iter().map(|v| &v[..]).collect();
        while slices.len() < 6 {
            slices.push(&silence);
        }
        crate::probe::run_any(&mut ap, &slices);
        for o in 0..no {
            for f in 0..p.bs {
                let got = Float::to_f64(Block::read(&ap.output_block(), o, f));
                let w = want[o][b * p.bs + f];
                ensure!(
                    dsp::close(got, w, tol),
                    "graph",
                    "{name} in a graph: block {b} channel {o} frame {f} is {got} instead of {w}"
                );
            }
        }
    }
    c.count("changes sent through graphs", p.changes.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------ hints and enumerations
fn enumeration<T: PIntegerConvertible + Default + std::fmt::Debug + 'static>(
    c: &mut Case,
    what: &str,
    all: &[(usize, &str)],
    same: &dyn Fn(&T, usize) -> bool,
    default: usize,
) -> Res {
    c.note(format!("{what} #{}", c.index % 4));
    let (lo, hi) = T::pinteger_range();
    let (min, max) = (all.iter().map(|a| a.0).min().unwrap(), all.iter().map(|a| a.0).max().unwrap());
    ensure!((lo.0, hi.0) == (min, max), "enum-range", "{what}: values {min} to {max} have the range {} to {}", lo.0, hi.0);
    for (v, n) in all {
        let t: T = PInteger(*v).into();
        ensure!(same(&t, *v), "enum-value", "{what}: {v} becomes {t:?}");
        let back: PInteger = t.into();
        ensure!(back.0 == *v, "enum-value", "{what}: {v} comes back as {}", back.0);
        ensure!(T::pinteger_descriptions(PInteger(*v)) == Some(*n), "enum-description", "{what}: {v} is described as {:?} instead of {n}", T::pinteger_descriptions(PInteger(*v)));
        let t: T = PInteger(*v).into();
        match ParameterValue::from(t) {
            ParameterValue::Integer(i) if i.0 == *v => (),
            o => bail!("enum-value", "{what}: {n} is sent as {o:?}"),
        }
    }
    // values that aren't variants
    for _ in 0..20 {
        let v = any_int(&mut c.rng);
        if all.iter().any(|a| a.0 == v) {
            continue;
        }
        let t: T = PInteger(v).into();
        ensure!(same(&t, default), "enum-value", "{what}: {v}, which is not a value, becomes {t:?}");
        ensure!(T::pinteger_descriptions(PInteger(v)).is_none(), "enum-description", "{what}: {v}, which is not a value, is described");
    }
    let h = ParameterHint::from_pinteger_enum::<T>();
    let Some(h) = h.integer_hint() else { bail!("enum-hint", "{what}: the hint isn't an integer hint") };
    ensure!((h.range.0.0, h.range.1.0) == (min, max), "enum-range", "{what}: the hint has the range {:?}", h.range);
    ensure!(h.default.map(|d| d.0) == Some(default), "enum-hint", "{what}: the default is {:?}", h.default);
    let Some(d) = h.descriptions() else { bail!("enum-description", "{what}: no descriptions") };
    ensure!(d.len() == max - min + 1, "enum-description", "{what}: {} descriptions for {min} to {max}", d.len());
    for (k, (i, s)) in d.iter().enumerate() {
        ensure!(i.0 == min + k, "enum-description", "{what}: description {k} is for {}", i.0);
        if let Some((_, n)) = all.iter().find(|a| a.0 == i.0) {
            ensure!(s == n, "enum-description", "{what}: {} is listed as {s:?} instead of {n}", i.0);
        }
        ensure!(h.description(*i) == T::pinteger_descriptions(*i), "enum-description", "{what}: {} is described in two ways", i.0);
    }
    c.count("enumerations", 1);
    c.nontrivial();
    Ok(())
}
fn enums(c: &mut Case) -> Res {
    fn names<T: std::fmt::Debug>(v: &[T], val: impl Fn(&T) -> usize) -> Vec<(usize, String)> {
        v.iter().map(|x| (val(x), format!("{x:?}"))).collect()
    }
    macro_rules! en {
        ($t:ident, [$($v:ident),*]) => {{
            let all = names(&[$($t::$v),*], |x| *x as usize);
            let all: Vec<(usize, &str)> = all.iter().map(|(a, b)| (*a, &b[..])).collect();
            let d = $t::default() as usize;
            enumeration::<$t>(c, stringify!($t), &all, &|t, v| *t as usize == v, d)
        }};
    }
    match c.index % 5 {
        0 => en!(Gappy, [Low, Middle, Next, High]),
        1 => en!(Plain, [Alpha, Beta, Gamma, Delta, Epsilon]),
        2 => en!(Done, [None, FreeSelf, FreeParent]),
        3 => en!(SvfFilterType, [Low, High, Band, Notch, Peak, All, Bell, LowShelf, HighShelf]),
        _ => {
            let (lo, hi) = Waveform::pinteger_range();
            let all: Vec<(usize, String)> = (lo.0..=hi.0)
                .map(|i| (i, format!("{:?}", Waveform::from(PInteger(i)))))
                .collect();
            let all: Vec<(usize, &str)> = all.iter().map(|(a, b)| (*a, &b[..])).collect();
            enumeration::<Waveform>(c, "Waveform", &all, &|t, v| *t as usize == v, Waveform::default() as usize)
        }
    }
}
fn hints(c: &mut Case) -> Res {
    c.note(format!("hints #{}", c.index % 4));
    let h = Rec::<f32>::param_hints();
    let f = |i: usize| *h[i].float_hint().unwrap();
    let range = |i: usize| {
        let r = h[i].integer_hint().unwrap().range;
        (r.0.0, r.1.0)
    };
    ensure!(
        f(0).default == Some(0.5)
            && f(0).range == Some(FloatParameterRange::Range(-1.0, 2.0))
            && f(0).kind == Some(FloatParameterKind::Amplitude)
            && f(0).is_logarithmic.is_none(),
        "hint",
        "the hint of single is {:?}",
        f(0)
    );
    ensure!(
        f(1).kind == Some(FloatParameterKind::Seconds) && f(1).is_logarithmic == Some(true) && f(1).range.is_none() && f(1).default.is_none(),
        "hint",
        "the hint of double is {:?}",
        f(1)
    );
    ensure!(f(2).kind == Some(FloatParameterKind::Frequency) && f(2).default == Some(20.0), "hint", "the hint of pfloat is {:?}", f(2));
    ensure!(f(8).kind == Some(FloatParameterKind::Q), "hint", "the hint of gain is {:?}", f(8));
    ensure!(range(3) == (2, 9), "hint", "the range of int is {:?}", range(3));
    ensure!(range(4) == (0, usize::MAX), "hint", "the range of any_int is {:?}", range(4));
    ensure!(range(5) == (3, 9), "hint", "the range of gappy is {:?}", range(5));
    ensure!(range(6) == (0, 4), "hint", "the range of plain is {:?}", range(6));
    // hints made by hand
    {
        let (a, b) = (c.rng.uniform(-9.0, 0.0), c.rng.uniform(0.0, 9.0));
        let of = |h: ParameterHint| h.float_hint().and_then(|h| h.range);
        let hint = |f: fn(knaster_core::PFloatHint) -> knaster_core::PFloatHint| of(ParameterHint::new_float(f));
        use FloatParameterRange::*;
        let made = [
            (of(ParameterHint::new_float(|h| h.minmax(a, b))), Range(a, b)),
            (of(ParameterHint::new_float(|h| h.infinite().range(a..=b))), Range(a, b)),
            (hint(|h| h.unipolar()), Range(0.0, 1.0)),
            (hint(|h| h.nyquist()), Nyquist),
            (hint(|h| h.infinite()), Infinite),
            (hint(|h| h.positive_infinite()), PositiveInfinite),
            (hint(|h| h.negative_infinite()), NegativeInfinite),
            (of(ParameterHint::one()), Range(0.0, 1.0)),
            (of(ParameterHint::nyquist()), Nyquist),
            (of(ParameterHint::infinite_float()), Infinite),
            (of(ParameterHint::positive_infinite_float()), PositiveInfinite),
            (of(ParameterHint::negative_infinite_float()), NegativeInfinite),
        ];
        for (k, (got, want)) in made.iter().enumerate() {
            ensure!(*got == Some(*want), "hint", "hint {k} has the range {got:?} instead of {want:?}");
        }
        let all = ParameterHint::new_float(|h| h.nyquist().logarithmic(true).default(a).kind(FloatParameterKind::Q));
        let all = all.float_hint().unwrap();
        ensure!(
            all.range == Some(Nyquist) && all.is_logarithmic == Some(true) && all.default == Some(a) && all.kind == Some(FloatParameterKind::Q),
            "hint",
            "a complete hint is {all:?}"
        );
        ensure!(ParameterHint::boolean().ty() == ParameterType::Bool && ParameterHint::one().ty() == ParameterType::Float, "hint", "a hint has the wrong type");
    }
    // values and their conversions
    for _ in 0..50 {
        let x = any_float(&mut c.rng);
        let n = any_int(&mut c.rng);
        let b = c.rng.chance(1, 2);
        let bits = |v: ParameterValue| v.float().map(f64::to_bits);
        ensure!(bits(x.into()) == Some(x.to_bits()), "value", "{x:?} isn't kept");
        ensure!(bits((x as f32).into()) == Some((x as f32 as f64).to_bits()), "value", "{x:?} as f32 isn't kept");
        ensure!(ParameterValue::from(n).integer().map(|n| n.0) == Some(n), "value", "{n} isn't kept");
        ensure!(ParameterValue::from(b).bool() == Some(b), "value", "{b} isn't kept");
        let v: [ParameterValue; 4] = [x.into(), n.into(), b.into(), knaster_core::PTrigger.into()];
        let ty = [ParameterType::Float, ParameterType::Integer, ParameterType::Bool, ParameterType::Trigger];
        for (i, v) in v.iter().enumerate() {
            ensure!(
                v.ty() == ty[i]
                    && v.float().is_some() == (i == 0)
                    && v.f::<f32>().is_some() == (i == 0)
                    && v.integer().is_some() == (i == 1)
                    && v.bool().is_some() == (i == 2),
                "value",
                "{v:?} has the wrong type"
            );
        }
        match (Param::from(n), Param::from("name")) {
            (Param::Index(i), Param::Desc("name")) if i == n => (),
            p => bail!("value", "{p:?} isn't parameter {n} and name"),
        }
    }
    c.count("hints and conversions", 50);
    c.nontrivial();
    Ok(())
}
/// The macro's single-sample and block functions and channel counts.
fn channels(c: &mut Case) -> Res {
    c.note(format!("channels #{}", c.index));
    ensure!(
        <Rec<f32> as UGen>::Inputs::USIZE == 2 && <Rec<f32> as UGen>::Outputs::USIZE == 3,
        "channels",
        "2 in and 3 out are declared as {} and {}",
        <Rec<f32> as UGen>::Inputs::USIZE,
        <Rec<f32> as UGen>::Outputs::USIZE
    );
    let n = 32;
    let input = dsp::noise(&mut c.rng, 2, n);
    let div = match c.rng.below(3) {
        0 => Div::Frames,
        1 => Div::Blocks(16),
        _ => Div::Parts(16, dsp::cuts(&mut c.rng, n, 16)),
    };
    let log: Log = Default::default();
    let t = dsp::run(&mut Rec::<f32>::new(log.clone()), 48000, &div, n, &input, &[])?;
    let t2 = dsp::run(&mut Blocky::<f32> { m: Default::default() }, 48000, &div, n, &input, &[])?;
    for f in 0..n {
        ensure!(t.out[0][f] == input[0][f] && t.out[1][f] == input[1][f] && t.out[2][f] == 1.0, "channels", "frame {f} of channel passed through differs");
        ensure!(t2.out[0][f] == input[1][f] && t2.out[1][f] == input[0][f], "channels", "frame {f} of crossed channels differs");
    }
    let mut ctx = dsp::ctx(48000, 16);
    // unknown parameters are reported to the log and change nothing
    let (tx, mut rx) = ArLogReceiver::new().sender(2000);
    let mut logged = AudioCtx::new(48000, 16, tx);
    let log: Log = Default::default();
    let mut r = Rec::<f32>::new(log.clone());
    r.param_apply(&mut logged, 11 + c.rng.below(100), ParameterValue::Float(1.0));
    let mut messages = 0;
    rx.recv(|_| messages += 1);
    ensure!(messages > 0 && log.lock().unwrap().is_empty(), "unknown-index", "an unknown parameter is logged {messages} times");
    ensure!(r.param(&mut ctx, "gain", 2.0).is_ok(), "valid-refused", "gain refused");
    r.not_a_param(0.0);
    c.count("macro channel layouts", 2);
    c.nontrivial();
    Ok(())
}
/// Functions marked by attributes, with any order of the arguments.
struct Named<F> {
    rate: F,
    blocks: usize,
}
#[impl_ugen]
impl<F: Float> Named<F> {
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) {
        self.rate = F::new(sample_rate as f64 + block_size as f64 / 1024.0);
    }
    #[param]
    fn rate(&mut self, v: PFloat) {
        self.rate = F::new(v);
    }
    #[process]
    fn one(&mut self, input: [F; 1], flags: &mut UGenFlags, ctx: &mut AudioCtx) -> [F; 3] {
        if input[0] > F::new(0.99) {
            flags.mark_done(0);
        }
        [self.rate, input[0], F::new(ctx.block_size() as f64)]
    }
    #[process_block]
    fn all(&mut self, output: [&mut [F]; 3], flags: &mut UGenFlags, ctx: &mut AudioCtx, input: [&[F]; 1]) {
        self.blocks += 1;
        for f in 0..ctx.frames_to_process() {
            if input[0][f] > F::new(0.99) {
                flags.mark_done(f as u32);
            }
            output[0][f] = self.rate;
            output[1][f] = input[0][f];
            output[2][f] = F::new(ctx.block_size() as f64);
        }
    }
}
/// Output of a block only, and a node that only listens.
struct Level<F> {
    v: F,
}
#[impl_ugen]
impl<F: Float> Level<F> {
    fn process(&mut self) -> [F; 2] {
        [self.v, F::ZERO - self.v]
    }
    fn process_block(&mut self, output: [&mut [F]; 2]) {
        output[0].fill(self.v);
        output[1].fill(F::ZERO - self.v);
    }
}
struct Listen<F> {
    sum: F,
    blocks: usize,
}
#[impl_ugen]
impl<F: Float> Listen<F> {
    fn process(&mut self, input: [F; 2]) -> [F; 0] {
        self.sum += input[0] - input[1];
        []
    }
    fn process_block(&mut self, input: [&[F]; 2]) {
        self.blocks += 1;
        for (a, b) in input[0].iter().zip(input[1]) {
            self.sum += *a - *b;
        }
    }
}
fn named(c: &mut Case) -> Res {
    c.note(format!("named #{}", c.index));
    let shape = |i: usize, o: usize, want: (usize, usize)| -> Res {
        ensure!((i, o) == want, "channels", "{want:?} channels are declared as {i} and {o}");
        Ok(())
    };
    shape(<Named<f64> as UGen>::Inputs::USIZE, <Named<f64> as UGen>::Outputs::USIZE, (1, 3))?;
    shape(<Level<f64> as UGen>::Inputs::USIZE, <Level<f64> as UGen>::Outputs::USIZE, (0, 2))?;
    shape(<Listen<f64> as UGen>::Inputs::USIZE, <Listen<f64> as UGen>::Outputs::USIZE, (2, 0))?;
    declared::<Named<f64>>("Named", &[("rate", ParameterType::Float)], &[])?;
    declared::<Level<f64>>("Level", &[], &[])?;
    let n = 32;
    let mut input = dsp::noise(&mut c.rng, 1, n);
    for x in &mut input[0] {
        *x *= 0.9;
    }
    let end = c.rng.below(n);
    input[0][end] = 1.0;
    let div = match c.rng.below(3) {
        0 => Div::Frames,
        1 => Div::Blocks(16),
        _ => Div::Parts(16, dsp::cuts(&mut c.rng, n, 16)),
    };
    let whole = !matches!(div, Div::Frames);
    let bs = if whole { 16.0 } else { 1.0 };
    let at = c.rng.below(n);
    let mut u = Named::<f64> { rate: 0.0, blocks: 0 };
    let t = dsp::run(&mut u, 44100, &div, n, &input, &[dsp::ch(at, 0, 2.0)])?;
    let set = t.out[0].iter().position(|x| *x == 2.0);
    for f in 0..n {
        let rate = if set.is_some_and(|s| f >= s) { 2.0 } else { 44100.0 + bs / 1024.0 };
        ensure!(t.out[0][f] == rate, "init", "frame {f} is {} instead of {rate}: the init function has not been called with the rate and block size", t.out[0][f]);
        ensure!(t.out[1][f] == input[0][f] && t.out[2][f] == bs, "channels", "frame {f} is {} and {} instead of {} and {bs}", t.out[1][f], t.out[2][f], input[0][f]);
    }
    ensure!(whole == (u.blocks > 0), "block-function", "the block function has been called {} times", u.blocks);
    ensure!(t.done == vec![end as u64], "done", "done at {:?} instead of {end}", t.done);
    let v = c.rng.uniform(-1.0, 1.0);
    let t = dsp::run(&mut Level::<f64> { v }, 44100, &div, n, &[], &[])?;
    ensure!(t.out[0].iter().all(|x| *x == v) && t.out[1].iter().all(|x| *x == -v), "channels", "{v} and {} are {:?}", -v, t.out);
    let two: Vec<Vec<f64>> = (0..2).map(|_| (0..n).map(|_| c.rng.below(100) as f64).collect()).collect();
    let mut l = Listen::<f64> { sum: 0.0, blocks: 0 };
    dsp::run(&mut l, 44100, &div, n, &two, &[])?;
    let want = two[0].iter().sum::<f64>() - two[1].iter().sum::<f64>();
    ensure!(l.sum == want && whole == (l.blocks > 0), "channels", "heard {} in {} blocks instead of {want}", l.sum, l.blocks);
    c.nontrivial();
    Ok(())
}
struct Blocky<F> {
    m: std::marker::PhantomData<F>,
}
#[impl_ugen]
impl<F: Float> Blocky<F> {
    fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: [F; 2]) -> [F; 2] {
        [input[1], input[0]]
    }
    fn process_block(&mut self, input: [&[F]; 2], output: [&mut [F]; 2]) {
        let [a, b] = output;
        a.copy_from_slice(input[1]);
        b.copy_from_slice(input[0]);
    }
}
/// Overrides the channel types and uses the signatures of the trait.
struct Wide<F, N> {
    k: F,
    m: std::marker::PhantomData<N>,
}
#[impl_ugen]
impl<F: Float, N: Size> Wide<F, N> {
    type Inputs = N;
    type Outputs = U1;
    #[param]
    fn k(&mut self, v: PFloat) {
        self.k = F::new(v);
    }
    fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let mut s = F::ZERO;
        for c in 0..N::USIZE {
            s += input[c];
        }
        [s * self.k].into()
    }
    fn process_block<InBlock, OutBlock>(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where
        InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
        OutBlock: Block<Sample = Self::Sample> + ?Sized,
    {
        for f in 0..input.block_size() {
            let mut s = F::ZERO;
            for c in 0..N::USIZE {
                s += input.read(c, f);
            }
            output.write(s * self.k, 0, f);
        }
    }
}
fn wide<N: Size>(c: &mut Case) -> Res {
    c.note(format!("wide {} #{}", N::USIZE, c.index));
    declared::<Wide<f32, N>>("Wide", &[("k", ParameterType::Float)], &[])?;
    ensure!(
        <Wide<f32, N> as UGen>::Inputs::USIZE == N::USIZE && <Wide<f32, N> as UGen>::Outputs::USIZE == 1,
        "channels",
        "overridden channel counts are not used"
    );
    let n = 32;
    let input = dsp::noise(&mut c.rng, N::USIZE, n);
    let div = match c.rng.below(3) {
        0 => Div::Frames,
        1 => Div::Blocks(16),
        _ => Div::Parts(16, dsp::cuts(&mut c.rng, n, 16)),
    };
    let t = dsp::run(&mut Wide::<f32, N> { k: 0.5, m: std::marker::PhantomData }, 48000, &div, n, &input, &[dsp::ch(0, 0, 2.0)])?;
    for f in 0..n {
        let w: f32 = input.iter().fold(0.0, |a, c| a + c[f] as f32) * 2.0;
        ensure!(t.out[0][f] == w as f64, "channels", "frame {f} is {} instead of {w}", t.out[0][f]);
    }
    c.nontrivial();
    Ok(())
}

pub fn run_check(r: &mut Run) {
    r.rule = "(setters, by-hand) a node with every kind of parameter function the macro supports, and one written by hand, bare and in 16 stacks of wrappers: every change by name, index or directly must call exactly the addressed setter with the same value bit for bit, wrappers keep inner names, types and hints and append theirs, and unknown names, indices and wrong types are errors that call nothing; (nodes) each node of the library with random legal changes, by name, by index and mixed, wrapped in neutral wrappers and through a graph by all kinds of handle, compared sample by sample with direct application; (enums, hints) every value, range, description and default; (channels, wide, named) the channel layouts the macro derives, functions marked by attributes, arguments in any order; distinct by configuration and changes".into();
    r.assumptions = vec!["the reverb seeds its dither from a global counter and is compared to 1e-5, everything else exactly".into()];
    let n = r.n(20_000, 1_000_000);
    r.cases("setters", n, |c| {
        stacked(c, "rec", &|l| Rec::<f32>::new(l.clone()), &REC, &expected)
    });
    r.cases("by-hand", n, |c| {
        stacked(c, "hand", &|l| Hand::<f64> { log: l.clone(), x: 0.0 }, &HAND, &|_, v, _, _| format!("{v:?}"))
    });
    let n = r.n(80_000, 2_500_000);
    r.cases("nodes", n, |c| {
        let i = c.index % catalog::COUNT;
        let mut rng = Rng::new(c.rng.next());
        catalog::pick::<f32, _>(i, &mut rng, &mut Nodes { c })
    });
    let n = r.n(4000, 100_000);
    r.cases("enums", n, enums);
    r.cases("hints", n, hints);
    r.cases("channels", n, channels);
    r.cases("named", n, named);
    r.cases("wide", n, |c| match c.rng.below(4) {
        0 => wide::<U0>(c),
        1 => wide::<U1>(c),
        2 => wide::<U3>(c),
        _ => wide::<U7>(c),
    });
}

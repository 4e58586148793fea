//! C14: arithmetic on signals computes that arithmetic, in operand order.
use crate::common::*;
use crate::dsp::{self, Change, Div};
use crate::{bail, ensure};
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Block, Float, Frame, ParameterHint, ParameterValue, Size, UGen, UGenFlags};
use knaster_core_dsp::math as km;
use knaster_core_dsp::math::{Math1UGen, MathUGen};
use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
use knaster_graph::graph_edit::{ChannelsHandle, DH, DynamicChannelsHandle, SH};
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use std::marker::PhantomData;

// ------------------------------------------------------------------ harness nodes
/// Plays given vectors, one per output channel.
pub struct Src<F, N: Size> {
    pub data: Vec<Vec<F>>,
    pub pos: usize,
    pub m: PhantomData<N>,
}
impl<F: Float, N: Size> UGen for Src<F, N> {
    type Sample = F;
    type Inputs = U0;
    type Outputs = N;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<F, U0>) -> Frame<F, N> {
        let mut o = Frame::<F, N>::default();
        for c in 0..N::USIZE {
            o[c] = self.data[c][self.pos];
        }
        self.pos += 1;
        o
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
/// out[m] = w[m][0]*in[0] + w[m][1]*in[1] + ...
pub struct Lin<F, I: Size, O: Size> {
    pub w: Vec<Vec<F>>,
    pub m: PhantomData<(I, O)>,
}
fn lin_eval<F: Float>(w: &[Vec<F>], ins: &[F]) -> Vec<F> {
    w.iter()
        .map(|r| {
            let mut a = F::ZERO;
            for (x, k) in ins.iter().zip(r) {
                a = a + *k * *x;
            }
            a
        })
        .collect()
}
impl<F: Float, I: Size, O: Size> UGen for Lin<F, I, O> {
    type Sample = F;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, i: Frame<F, I>) -> Frame<F, O> {
        let v: Vec<F> = (0..I::USIZE).map(|c| i[c]).collect();
        let r = lin_eval(&self.w, &v);
        let mut o = Frame::<F, O>::default();
        for c in 0..O::USIZE {
            o[c] = r[c];
        }
        o
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}

/// Two inputs, two outputs: passes on the inputs; params "scale" and "offset".
struct Pass<F> {
    s: F,
    o: F,
}
impl<F: Float> UGen for Pass<F> {
    type Sample = F;
    type Inputs = U2;
    type Outputs = U2;
    type Parameters = U2;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, i: Frame<F, U2>) -> Frame<F, U2> {
        [i[0] * self.s + self.o, i[1] * self.s + self.o].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U2> {
        ["scale", "offset"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U2> {
        [ParameterHint::infinite_float(), ParameterHint::infinite_float()].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) {
        let v = F::new(v.float().unwrap());
        match i {
            0 => self.s = v,
            1 => self.o = v,
            _ => unreachable!(),
        }
    }
}

fn val(rng: &mut Rng) -> f64 {
    match rng.below(24) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => f64::INFINITY,
        4 => f64::NAN,
        5 => 1e30,
        6 => -0.0,
        7..=10 => rng.range(-6, 6) as f64,
        11..=16 => rng.uniform(0.01, 4.0) as f32 as f64,
        _ => rng.uniform(-3.0, 3.0) as f32 as f64,
    }
}
fn vals<F: Float>(rng: &mut Rng, ch: usize, n: usize) -> Vec<Vec<F>> {
    (0..ch).map(|_| (0..n).map(|_| F::new(val(rng))).collect()).collect()
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Pow,
}
const OPS: [Op; 4] = [Op::Add, Op::Sub, Op::Mul, Op::Div];
fn ap<F: Float>(o: Op, a: F, b: F) -> F {
    match o {
        Op::Add => a + b,
        Op::Sub => a - b,
        Op::Mul => a * b,
        Op::Div => a / b,
        Op::Pow => a.powf(b),
    }
}
type M<F> = Vec<Vec<F>>;
fn mop<F: Float>(o: Op, a: &M<F>, b: &M<F>) -> M<F> {
    a.iter().zip(b).map(|(x, y)| x.iter().zip(y).map(|(p, q)| ap(o, *p, *q)).collect()).collect()
}
fn mconst<F: Float>(o: Op, a: &M<F>, k: F, first: bool) -> M<F> {
    a.iter().map(|x| x.iter().map(|p| if first { ap(o, k, *p) } else { ap(o, *p, k) }).collect()).collect()
}
fn mlin<F: Float>(w: &[Vec<F>], ins: &M<F>) -> M<F> {
    let n = ins[0].len();
    let mut out: M<F> = vec![vec![]; w.len()];
    for f in 0..n {
        let v: Vec<F> = ins.iter().map(|c| c[f]).collect();
        for (o, x) in out.iter_mut().zip(lin_eval(w, &v)) {
            o.push(x);
        }
    }
    out
}
#[derive(Clone, Copy, Debug)]
enum K {
    F32(f32),
    F64(f64),
    Us(usize),
    I(i32),
}
impl K {
    fn any(rng: &mut Rng) -> K {
        match rng.below(4) {
            0 => K::F32(val(rng) as f32),
            1 => K::F64(if rng.chance(1, 2) { rng.uniform(-2.0, 2.0) } else { val(rng) }),
            2 => {
                let m = *rng.pick(&[4usize, 100, 20_000_000]);
                K::Us(rng.below(m))
            }
            _ => K::I(rng.range(-5, 5) as i32),
        }
    }
    fn f<F: Float>(self) -> F {
        match self {
            K::F32(x) => F::new(x),
            K::F64(x) => F::new(x),
            K::Us(x) => F::new(x as f64),
            K::I(x) => F::new(x as f64),
        }
    }
}
macro_rules! binop {
    ($o:expr, $a:expr, $b:expr) => {
        match $o {
            Op::Add => $a + $b,
            Op::Sub => $a - $b,
            Op::Mul => $a * $b,
            Op::Div => $a / $b,
            Op::Pow => unreachable!(),
        }
    };
}
macro_rules! constop {
    ($o:expr, $h:expr, $k:expr, $first:expr) => {
        match ($k, $first) {
            (K::F32(k), false) => binop!($o, $h, k),
            (K::F64(k), false) => binop!($o, $h, k),
            (K::Us(k), false) => binop!($o, $h, k),
            (K::I(k), false) => binop!($o, $h, k),
            (K::F32(k), true) => binop!($o, k, $h),
            (K::F64(k), true) => binop!($o, k, $h),
            (K::Us(k), true) => binop!($o, k, $h),
            (K::I(k), true) => binop!($o, k, $h),
        }
    };
}

type S1<'a, 'b, F> = SH<'a, 'b, F, ChannelsHandle<U1>>;
type S2<'a, 'b, F> = SH<'a, 'b, F, ChannelsHandle<U2>>;
type D<'a, 'b, F> = DH<'a, 'b, F, DynamicChannelsHandle>;

fn eqf<F: Float>(a: F, b: F) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn expr<F: Float>(c: &mut Case) -> Res {
    let bs = 1 + c.rng.below(9);
    let blocks = 2;
    let n = bs * blocks;
    let (mut g, mut p, _log) = AudioProcessor::<F>::new::<U3, U8>(AudioProcessorOptions {
        block_size: bs,
        sample_rate: 48000,
        ring_buffer_size: 200,
        ..Default::default()
    });
    let gin: M<F> = vals(&mut c.rng, 3, n);
    let mut expect: Vec<Option<Vec<F>>> = vec![None; 8];
    let steps = 4 + c.rng.below(14);
    c.note(format!("bs={bs} F={}", std::any::type_name::<F>()));
    let mut ops = 0u64;
    let mut orders = 0u64;
    let r: Res = g.edit(|g| {
        let mut s1: Vec<(S1<F>, M<F>)> = vec![];
        let mut s2: Vec<(S2<F>, M<F>)> = vec![];
        let mut d: Vec<(D<F>, M<F>)> = vec![];
        let sub = |m: &M<F>, idx: &[usize]| -> M<F> { idx.iter().map(|i| m[*i].clone()).collect() };
        // sources
        {
            let v = vals::<F>(&mut c.rng, 1, n);
            let h = g.push(Src::<F, U1> { data: v.clone(), pos: 0, m: PhantomData });
            d.push((h.dynamic().to_channels_handle(), v.clone()));
            s1.push((h.out(0), v));
            let v = vals::<F>(&mut c.rng, 2, n);
            let h = g.push(Src::<F, U2> { data: v.clone(), pos: 0, m: PhantomData });
            d.push((h.dynamic().to_channels_handle(), v.clone()));
            s1.push((h.out(1), sub(&v, &[1])));
            s2.push((h.out([0, 1]), v.clone()));
            s2.push((h.out([1, 0]), sub(&v, &[1, 0])));
            let v = vals::<F>(&mut c.rng, 3, n);
            let h = g.push(Src::<F, U3> { data: v.clone(), pos: 0, m: PhantomData });
            let dh = h.dynamic();
            d.push((dh.out([2, 0]), sub(&v, &[2, 0])));
            d.push((dh.to_channels_handle(), v.clone()));
            s2.push((h.out([2, 1]), sub(&v, &[2, 1])));
            s1.push((h.out([2]), sub(&v, &[2])));
            // graph inputs
            match g.from_inputs(1u16) {
                Ok(h) => s1.push((h, sub(&gin, &[1]))),
                Err(e) => bail!("inputs", "from_inputs(1) failed: {e}"),
            }
            match g.from_inputs([2u16, 0]) {
                Ok(h) => {
                    d.push((h.clone().dynamic(), sub(&gin, &[2, 0])));
                    s2.push((h, sub(&gin, &[2, 0])))
                }
                Err(e) => bail!("inputs", "from_inputs([2,0]) failed: {e}"),
            }
            ensure!(g.from_inputs([0u16, 3]).is_err(), "inputs", "from_inputs([0, 3]) on 3 inputs was accepted");
        }
        for _ in 0..steps {
            let o = *c.rng.pick(&OPS);
            let (i1, j1) = (c.rng.below(s1.len()), c.rng.below(s1.len()));
            let (i2, j2) = (c.rng.below(s2.len()), c.rng.below(s2.len()));
            let (a1, ma1) = s1[i1].clone();
            let (b1, mb1) = s1[j1].clone();
            let (a2, ma2) = s2[i2].clone();
            let (b2, mb2) = s2[j2].clone();
            // dynamic handles with the same number of outputs
            let id = c.rng.below(d.len());
            let (da, mda) = d[id].clone();
            let same: Vec<usize> = (0..d.len()).filter(|k| d[*k].1.len() == mda.len()).collect();
            let jd = *c.rng.pick(&same);
            let (db, mdb) = d[jd].clone();
            let k = K::any(&mut c.rng);
            let first = c.rng.chance(1, 2);
            ops += 1;
            if matches!(o, Op::Sub | Op::Div) {
                orders += 1;
            }
            let what = c.rng.below(34);
            c.note(format!("{what} {o:?} {i1},{j1},{i2},{j2},{id},{jd} {k:?} first={first}"));
            match what {
                0 | 1 => s1.push((binop!(o, a1, b1), mop(o, &ma1, &mb1))),
                2 | 3 => s2.push((binop!(o, a2, b2), mop(o, &ma2, &mb2))),
                4 => s1.push((a1.pow(b1), mop(Op::Pow, &ma1, &mb1))),
                5 => s2.push((a2.pow(b2), mop(Op::Pow, &ma2, &mb2))),
                6 => s1.push((constop!(o, a1, k, first), mconst(o, &ma1, k.f(), first))),
                7 => s2.push((constop!(o, a2, k, first), mconst(o, &ma2, k.f(), first))),
                8 | 9 => d.push((binop!(o, da, db), mop(o, &mda, &mdb))),
                10 => d.push((constop!(o, da, k, first), mconst(o, &mda, k.f(), first))),
                11 => d.push((da.pow(db), mop(Op::Pow, &mda, &mdb))),
                // static with dynamic
                12 | 13 => {
                    let two: Vec<usize> = (0..d.len()).filter(|k| d[*k].1.len() == 2).collect();
                    let (dd, m) = d[*c.rng.pick(&two)].clone();
                    if first {
                        d.push((binop!(o, a2, dd), mop(o, &ma2, &m)));
                    } else {
                        d.push((binop!(o, dd, a2), mop(o, &m, &ma2)));
                    }
                }
                14 => {
                    let one: Vec<usize> = (0..d.len()).filter(|k| d[*k].1.len() == 1).collect();
                    let (dd, m) = d[*c.rng.pick(&one)].clone();
                    if first {
                        d.push((binop!(o, a1, dd), mop(o, &ma1, &m)));
                    } else {
                        d.push((binop!(o, dd, a1), mop(o, &m, &ma1)));
                    }
                }
                // stacks
                15 => s2.push((binop!(o, (a1 | b1), a2), mop(o, &vec![ma1[0].clone(), mb1[0].clone()], &ma2))),
                16 => s2.push((binop!(o, a2, a1.stack(b1)), mop(o, &ma2, &vec![ma1[0].clone(), mb1[0].clone()]))),
                17 => s2.push(((a2 | b1).out([2, 0]), vec![mb1[0].clone(), ma2[0].clone()])),
                18 => d.push(((a1 | b2).dynamic(), vec![ma1[0].clone(), mb2[0].clone(), mb2[1].clone()])),
                19 if mda.len() + mdb.len() <= 4 => {
                    let mut m = mda.clone();
                    m.extend(mdb.clone());
                    d.push((if first { da | db } else { da.stack(db) }, m))
                }
                20 if mda.len() <= 2 => {
                    let mut m;
                    if first {
                        m = mda.clone();
                        m.extend(ma2.clone());
                        d.push((da | a2, m));
                    } else {
                        m = ma2.clone();
                        m.extend(mda.clone());
                        d.push((a2 | da, m));
                    }
                }
                21 if mda.len() <= 3 => {
                    let mut m;
                    if first {
                        m = mda.clone();
                        m.extend(ma1.clone());
                        d.push((da | a1, m));
                    } else {
                        m = ma1.clone();
                        m.extend(mda.clone());
                        d.push((a1 | da, m));
                    }
                }
                // selecting channels
                22 => {
                    let (x, y) = (c.rng.below(2), c.rng.below(2));
                    s2.push((a2.out([x as u16, y as u16]), sub(&ma2, &[x, y])))
                }
                23 => {
                    let x = c.rng.below(2);
                    s1.push((a2.out(x as u16), sub(&ma2, &[x])))
                }
                24 => {
                    let (x, y) = (c.rng.below(mda.len()), c.rng.below(mda.len()));
                    d.push((da.out([x as u16, y as u16]), sub(&mda, &[x, y])))
                }
                25 => d.push((a2.dynamic(), ma2)),
                // chains into nodes with distinct weights
                26..=28 => {
                    let w = weights::<F>(&mut c.rng, 2, 3);
                    let l = g.push(Lin::<F, U2, U3> { w: w.clone(), m: PhantomData });
                    let arm = c.rng.below(5);
                    let (r, m): (_, M<F>) = match arm {
                        0 => (a2 >> l, ma2),
                        1 => (a2.to(l), ma2),
                        2 => ((a1 | b1) >> l, vec![ma1[0].clone(), mb1[0].clone()]),
                        3 => {
                            let _ = b2 >> l;
                            (a2.to_replace(l), ma2)
                        }
                        _ => (a1.stack(b1).to(l), vec![ma1[0].clone(), mb1[0].clone()]),
                    };
                    let m = mlin(&w, &m);
                    s2.push((r.out([2, 0]), sub(&m, &[2, 0])));
                    d.push((r.dynamic().to_channels_handle(), m));
                }
                29 => {
                    // a chain through two nodes
                    let (w, w2) = (weights::<F>(&mut c.rng, 2, 2), weights::<F>(&mut c.rng, 2, 1));
                    let l = g.push(Lin::<F, U2, U2> { w: w.clone(), m: PhantomData });
                    let l2 = g.push(Lin::<F, U2, U1> { w: w2.clone(), m: PhantomData });
                    let r = if first { a2 >> l >> l2 } else { a2.to(l).to(l2) };
                    let m = mlin(&w2, &mlin(&w, &ma2));
                    s1.push((r.out(0), m));
                }
                30 => {
                    // into a stack of two nodes
                    let (w, w2) = (weights::<F>(&mut c.rng, 1, 1), weights::<F>(&mut c.rng, 1, 1));
                    let l = g.push(Lin::<F, U1, U1> { w: w.clone(), m: PhantomData });
                    let l2 = g.push(Lin::<F, U1, U1> { w: w2.clone(), m: PhantomData });
                    let (x, y) = (mlin(&w, &sub(&ma2, &[0])), mlin(&w2, &sub(&ma2, &[1])));
                    let r = a2 >> (l | l2);
                    s2.push((r.out([0, 1]), vec![x[0].clone(), y[0].clone()]));
                }
                31 => {
                    // dynamic into dynamic
                    let w = weights::<F>(&mut c.rng, 2, 2);
                    let l = g.push(Lin::<F, U2, U2> { w: w.clone(), m: PhantomData });
                    let h = l.dynamic();
                    let two: Vec<usize> = (0..d.len()).filter(|k| d[*k].1.len() == 2).collect();
                    let (dd, m) = d[*c.rng.pick(&two)].clone();
                    let r = match c.rng.below(4) {
                        0 => dd >> h,
                        1 => dd.to(h),
                        2 => match dd.try_to(h) {
                            Ok(h) => h,
                            Err(e) => bail!("try-to", "try_to a fresh node failed: {e}"),
                        },
                        _ => dd.to_replace(h),
                    };
                    d.push((r.to_channels_handle(), mlin(&w, &m)));
                }
                32 => {
                    // static into dynamic, dynamic into static
                    let w = weights::<F>(&mut c.rng, 2, 2);
                    let l = g.push(Lin::<F, U2, U2> { w: w.clone(), m: PhantomData });
                    if first {
                        let r = a2 >> l.dynamic();
                        d.push((r.to_channels_handle(), mlin(&w, &ma2)));
                    } else {
                        let two: Vec<usize> = (0..d.len()).filter(|k| d[*k].1.len() == 2).collect();
                        let (dd, m) = d[*c.rng.pick(&two)].clone();
                        let r = dd >> l;
                        s2.push((r.out([0, 1]), mlin(&w, &m)));
                    }
                }
                33 => {
                    // dynamic stack of nodes as a sink
                    let (w, w2) = (weights::<F>(&mut c.rng, 1, 1), weights::<F>(&mut c.rng, 1, 2));
                    let l = g.push(Lin::<F, U1, U1> { w: w.clone(), m: PhantomData });
                    let l2 = g.push(Lin::<F, U1, U2> { w: w2.clone(), m: PhantomData });
                    let mut m = mlin(&w, &sub(&ma2, &[0]));
                    m.extend(mlin(&w2, &sub(&ma2, &[1])));
                    let r = match c.rng.below(3) {
                        0 => a2.dynamic() >> (l.dynamic() | l2.dynamic()),
                        1 => a2 >> (l | l2.dynamic()),
                        _ => a2.dynamic() >> (l.dynamic().stack(l2.dynamic())),
                    };
                    d.push((r, m));
                }
                _ => ops -= 1,
            }
        }
        // route results to the graph outputs; prefer the most recent ones
        for _ in 0..2 + c.rng.below(4) {
            let o = c.rng.below(8);
            let o2 = (o + 1 + c.rng.below(7)) % 8;
            let rec = |rng: &mut Rng, n: usize| if rng.chance(3, 4) { n - 1 - rng.below(n.min(3)) } else { rng.below(n) };
            match c.rng.below(9) {
                0 => {
                    let (h, m) = s1[rec(&mut c.rng, s1.len())].clone();
                    h.to_graph_out_channels_replace(o as u16);
                    expect[o] = Some(m[0].clone());
                }
                1 => {
                    let (h, m) = s2[rec(&mut c.rng, s2.len())].clone();
                    h.to_graph_out_channels_replace([o as u16, o2 as u16]);
                    expect[o] = Some(m[0].clone());
                    expect[o2] = Some(m[1].clone());
                }
                2 => {
                    let (h, m) = s2[rec(&mut c.rng, s2.len())].clone();
                    h.to_graph_out_replace();
                    expect[0] = Some(m[0].clone());
                    expect[1] = Some(m[1].clone());
                }
                3 => {
                    let (h, m) = d[rec(&mut c.rng, d.len())].clone();
                    h.to_graph_out_replace();
                    for (k, x) in m.into_iter().enumerate() {
                        expect[k] = Some(x);
                    }
                }
                4 => {
                    let (h, m) = d[rec(&mut c.rng, d.len())].clone();
                    let h = if m.len() == 1 { h.clone() | h } else { h };
                    let m = if m.len() == 1 { vec![m[0].clone(), m[0].clone()] } else { m };
                    h.to_graph_out_channels_replace([o as u16, o2 as u16]);
                    expect[o] = Some(m[0].clone());
                    expect[o2] = Some(m[1].clone());
                }
                5 if expect[o].is_none() => {
                    let (h, m) = s1[rec(&mut c.rng, s1.len())].clone();
                    h.to_graph_out_channels([o as u16]);
                    expect[o] = Some(m[0].clone());
                }
                6 if expect[o].is_none() && expect[o2].is_none() => {
                    let (h, m) = s2[rec(&mut c.rng, s2.len())].clone();
                    h.to_graph_out_channels([o as u16, o2 as u16]);
                    expect[o] = Some(m[0].clone());
                    expect[o2] = Some(m[1].clone());
                }
                7 if expect[0].is_none() && expect[1].is_none() => {
                    let (h, m) = s2[rec(&mut c.rng, s2.len())].clone();
                    h.to_graph_out();
                    expect[0] = Some(m[0].clone());
                    expect[1] = Some(m[1].clone());
                }
                8 if expect[..4].iter().all(|e| e.is_none()) => {
                    let (h, m) = d[rec(&mut c.rng, d.len())].clone();
                    h.to_graph_out();
                    for (k, x) in m.into_iter().enumerate() {
                        expect[k] = Some(x);
                    }
                }
                _ => {}
            }
        }
        Ok(())
    });
    r?;
    for b in 0..blocks {
        let ins: Vec<&[F]> = gin.iter().map(|x| &x[b * bs..(b + 1) * bs]).collect();
        crate::probe::run_any(&mut p, &ins);
        let mut out = p.output_block();
        for (ch, e) in expect.iter().enumerate() {
            for f in 0..bs {
                let got = out.read(ch, f);
                let want = e.as_ref().map(|v| v[b * bs + f]).unwrap_or(F::ZERO);
                ensure!(
                    eqf(got, want),
                    "expression",
                    "output {ch} frame {}: {:?}, the expression evaluates to {:?}",
                    b * bs + f,
                    got,
                    want
                );
            }
        }
    }
    c.count("operations on handles evaluated", ops);
    c.count("operations whose operand order matters", orders);
    c.count("samples compared with the expression", (expect.iter().flatten().count() * n) as u64);
    if ops > 2 && expect.iter().any(|e| e.is_some()) {
        c.nontrivial();
    }
    Ok(())
}
fn weights<F: Float>(rng: &mut Rng, i: usize, o: usize) -> Vec<Vec<F>> {
    (0..o).map(|_| (0..i).map(|_| F::new(rng.range(1, 60) as f64 / 8.0)).collect()).collect()
}

// ------------------------------------------------------------------ wrappers
fn div_plan(c: &mut Case, n: usize) -> Div {
    let bs = *c.rng.pick(&[1usize, 2, 4, 8, 16, 32]);
    match c.rng.below(3) {
        0 => Div::Frames,
        1 => Div::Blocks(bs),
        _ => Div::Parts(bs, dsp::cuts(&mut c.rng, n, bs)),
    }
}
/// frames at which changes can be made under a division
fn change_frames(rng: &mut Rng, d: &mut Div, n: usize) -> Vec<usize> {
    let k = rng.below(5);
    let mut v: Vec<usize> = match d {
        Div::Frames => (0..k).map(|_| rng.below(n)).collect(),
        Div::Blocks(b) => (0..k).map(|_| rng.below(n / *b) * *b).collect(),
        Div::Parts(_, cuts) => {
            let v: Vec<usize> = (0..k).map(|_| rng.below(n)).collect();
            cuts.extend(v.iter());
            cuts.sort();
            cuts.dedup();
            v
        }
    };
    v.sort();
    v
}
fn wrappers<F: Float>(c: &mut Case) -> Res {
    let n = 64;
    let mut d = div_plan(c, n);
    let ins = vals::<F>(&mut c.rng, 2, n);
    let ins: Vec<Vec<f64>> = ins.iter().map(|v| v.iter().map(|x| Float::to_f64(*x)).collect()).collect();
    let kind = c.rng.below(10);
    let k0: F = F::new(val(&mut c.rng));
    let frames = change_frames(&mut c.rng, &mut d, n);
    // which parameter: 0/1 inner, 2 the wrapper's own
    let own = kind == 0;
    let changes: Vec<Change> = frames
        .iter()
        .map(|f| {
            let p = c.rng.below(if own { 3 } else { 2 });
            dsp::ch(*f, p, val(&mut c.rng) as f32 as f64)
        })
        .collect();
    let e = c.rng.range(-4, 6) as i32;
    c.note(format!("wrapper {kind} value {k0:?} pow {e} {d:?} {changes:?} F={}", std::any::type_name::<F>()));
    let pass = || Pass::<F> { s: F::ONE, o: F::ZERO };
    let tr = match kind {
        0 => dsp::run(&mut pass().wr_mul(k0), 48000, &d, n, &ins, &changes)?,
        1 => dsp::run(&mut pass().wr_add(k0), 48000, &d, n, &ins, &changes)?,
        2 => dsp::run(&mut pass().wr_sub(k0), 48000, &d, n, &ins, &changes)?,
        3 => dsp::run(&mut pass().wr_v_sub_gen(k0), 48000, &d, n, &ins, &changes)?,
        4 => dsp::run(&mut pass().wr_div(k0), 48000, &d, n, &ins, &changes)?,
        5 => dsp::run(&mut pass().wr_v_div_gen(k0), 48000, &d, n, &ins, &changes)?,
        6 => dsp::run(&mut pass().wr_powf(k0), 48000, &d, n, &ins, &changes)?,
        7 => dsp::run(&mut pass().wr_powi(e), 48000, &d, n, &ins, &changes)?,
        8 => dsp::run(&mut pass().wr(move |x| x * x - k0), 48000, &d, n, &ins, &changes)?,
        // a stack of wrappers: ((x * 2) - k0) as the divisor of 3
        _ => dsp::run(
            &mut pass().wr_mul(F::new(2.0)).wr_sub(k0).wr_v_div_gen(F::new(3.0)),
            48000,
            &d,
            n,
            &ins,
            &changes,
        )?,
    };
    let (mut s, mut o, mut k) = (F::ONE, F::ZERO, k0);
    let mut ci = 0;
    for f in 0..n {
        while ci < changes.len() && changes[ci].frame <= f {
            let v = F::new(changes[ci].value.float().unwrap());
            match changes[ci].param {
                0 => s = v,
                1 => o = v,
                _ => k = v,
            }
            ci += 1;
        }
        for chn in 0..2 {
            let x = F::new(ins[chn][f]) * s + o;
            let want = match kind {
                0 => x * k,
                1 => x + k,
                2 => x - k,
                3 => k - x,
                4 => x / k,
                5 => k / x,
                6 => x.powf(k),
                7 => x.powi(e),
                8 => x * x - k,
                _ => F::new(3.0) / (x * F::new(2.0) - k),
            };
            let got = tr.out[chn][f];
            let w = Float::to_f64(want);
            ensure!(
                dsp::close(got, w, dsp::eps::<F>()),
                "wrapper",
                "wrapper {kind} channel {chn} frame {f}: {got}, expected {w} (inner {x:?}, value {k:?}, power {e})"
            );
        }
    }
    c.count("wrapped frames compared", n as u64);
    c.count("parameter changes through a wrapper", changes.len() as u64);
    c.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ math nodes
fn nodes<F: Float>(c: &mut Case) -> Res {
    let n = 32;
    let d = div_plan(c, n);
    let which = c.rng.below(31);
    let ins = vals::<F>(&mut c.rng, 8, n);
    let ins: Vec<Vec<f64>> = ins.iter().map(|v| v.iter().map(|x| Float::to_f64(*x)).collect()).collect();
    c.note(format!("node {which} {d:?} F={}", std::any::type_name::<F>()));
    macro_rules! two {
        ($op:ty, $o:expr, $n:ty) => {{
            let t = dsp::run(&mut MathUGen::<F, $n, $op>::new(), 44100, &d, n, &ins, &[])?;
            (t, Some($o), <$n>::USIZE)
        }};
    }
    macro_rules! all {
        ($n:ty, $k:expr) => {
            match $k {
                0 => two!(km::Add, Op::Add, $n),
                1 => two!(km::Sub, Op::Sub, $n),
                2 => two!(km::Mul, Op::Mul, $n),
                3 => two!(km::Div, Op::Div, $n),
                _ => two!(km::Pow, Op::Pow, $n),
            }
        };
    }
    macro_rules! one {
        ($op:ty) => {
            (dsp::run(&mut Math1UGen::<F, $op>::new(), 44100, &d, n, &ins, &[])?, None, 1)
        };
    }
    use knaster::math_ugens as mu;
    let (t, op, ch) = match which {
        0..=4 => all!(U1, which),
        5..=9 => all!(U2, which - 5),
        10..=14 => all!(U3, which - 10),
        15..=19 => all!(U4, which - 15),
        20 => one!(km::Ceil),
        21 => one!(km::Sqrt),
        22 => one!(km::Floor),
        23 => one!(km::Trunc),
        24 => one!(km::Fract),
        25 => one!(km::Exp),
        26 => (dsp::run(&mut mu::sub::<F>(), 44100, &d, n, &ins, &[])?, Some(Op::Sub), 1),
        27 => (dsp::run(&mut mu::div::<F>(), 44100, &d, n, &ins, &[])?, Some(Op::Div), 1),
        28 => (dsp::run(&mut mu::pow::<F>(), 44100, &d, n, &ins, &[])?, Some(Op::Pow), 1),
        29 => {
            let k = c.rng.below(2);
            if k == 0 {
                (dsp::run(&mut mu::add::<F>(), 44100, &d, n, &ins, &[])?, Some(Op::Add), 1)
            } else {
                (dsp::run(&mut mu::mul::<F>(), 44100, &d, n, &ins, &[])?, Some(Op::Mul), 1)
            }
        }
        _ => {
            // the shortcuts of one input
            for f in 0..n {
                let x = F::new(ins[0][f]);
                let i = vec![vec![ins[0][f]]];
                let got = [
                    dsp::run(&mut mu::fract::<F>(), 44100, &Div::Frames, 1, &i, &[])?,
                    dsp::run(&mut mu::ceil::<F>(), 44100, &Div::Frames, 1, &i, &[])?,
                    dsp::run(&mut mu::exp::<F>(), 44100, &Div::Frames, 1, &i, &[])?,
                    dsp::run(&mut mu::trunc::<F>(), 44100, &Div::Frames, 1, &i, &[])?,
                    dsp::run(&mut mu::floor::<F>(), 44100, &Div::Frames, 1, &i, &[])?,
                    dsp::run(&mut mu::sqrt::<F>(), 44100, &Div::Frames, 1, &i, &[])?,
                ];
                let want = [x.fract(), x.ceil(), x.exp(), x.trunc(), x.floor(), x.sqrt()];
                for (k, (g, w)) in got.iter().zip(want).enumerate() {
                    let w = Float::to_f64(w);
                    ensure!(
                        dsp::close(g.out[0][0], w, dsp::eps::<F>()),
                        "math-shortcut",
                        "shortcut {k} of {x:?} gives {}, expected {w}",
                        g.out[0][0]
                    );
                }
            }
            c.nontrivial();
            c.count("math node samples compared", 6 * n as u64);
            return Ok(());
        }
    };
    for f in 0..n {
        for k in 0..ch {
            let a = F::new(ins[k][f]);
            let want = match op {
                Some(o) => ap(o, a, F::new(ins[k + ch][f])),
                None => match which {
                    20 => a.ceil(),
                    21 => a.sqrt(),
                    22 => a.floor(),
                    23 => a.trunc(),
                    24 => a.fract(),
                    _ => a.exp(),
                },
            };
            let w = Float::to_f64(want);
            let got = t.out[k][f];
            ensure!(
                dsp::close(got, w, dsp::eps::<F>()),
                "math-node",
                "node {which} channel {k} frame {f}: {got}, expected {w} for {a:?} and {}",
                ins[(k + ch).min(7)][f]
            );
        }
    }
    c.count("math node samples compared", (n * ch) as u64);
    c.nontrivial();
    Ok(())
}

pub fn run_check(r: &mut Run) {
    r.rule = "random expressions over handles (static, dynamic, mixed, with constants of every accepted type on either side, stacks, channel selections, chains into nodes with distinct weights) built in one edit of a real graph and rendered; every output sample is compared exactly with the expression evaluated in the same float type, on operands including zero, infinities and NaN; wrappers and math nodes compared with the formula of the operation under random divisions of time and parameter changes; non-trivial: at least three operations reaching an output".into();
    r.assumptions.push("operands of a different channel count are out of scope (rejected at compile time or by a documented panic)".into());
    r.cases("expr", r.n(30000, 600000), |c| {
        if c.rng.chance(1, 2) { expr::<f32>(c) } else { expr::<f64>(c) }
    });
    r.cases("wrappers", r.n(20000, 300000), |c| {
        if c.rng.chance(1, 2) { wrappers::<f32>(c) } else { wrappers::<f64>(c) }
    });
    r.cases("nodes", r.n(20000, 300000), |c| {
        if c.rng.chance(1, 2) { nodes::<f32>(c) } else { nodes::<f64>(c) }
    });
}

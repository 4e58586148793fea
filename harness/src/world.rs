//! Graphs of the library's own nodes under random use: no model, the monitors around it (allocator,
//! system calls, sanitizers) are what decides.
use crate::catalog::{self, Visit};
use crate::common::*;
use knaster_core::log::{ArLogMessage, ArLogReceiver};
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::bit::B1;
use knaster_core::typenum::*;
use knaster_core::{
    AudioCtx, Done, Float, Frame, PInteger, ParameterHint, ParameterSmoothing, ParameterType, ParameterValue, Rate,
    Seconds, Size, UGen, UGenFlags,
};
use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
use knaster_graph::Time;
use knaster_graph::graph::{Graph, GraphOptions, NodeId, NodeOrGraph};
use knaster_graph::graph_edit::Parameter;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use std::ops::Add;

pub struct N {
    pub id: NodeId,
    name: &'static str,
    ins: usize,
    outs: usize,
    params: Vec<(&'static str, ParameterHint)>,
    handles: Vec<Parameter>,
}
pub struct G<F: Float> {
    pub g: Option<Graph<F>>,
    nodes: Vec<N>,
    ins: usize,
    outs: usize,
    /// changes sent since the last block, and those that may be waiting
    sent: usize,
}
pub struct World<F: Float> {
    pub gs: Vec<G<F>>,
    pub p: Option<AudioProcessor<F>>,
    pub rx: Option<ArLogReceiver<U1>>,
    pub bs: usize,
    pub sr: u32,
    pub ring: usize,
    /// values and frames far outside of what the nodes expect
    pub hostile: bool,
    /// only calls without a ring capacity to watch
    pub clock: u64,
    pub steps: u64,
    pub logs: u64,
}
/// Sends a message now and then, sometimes longer than the channel.
struct Chatty<F> {
    n: usize,
    every: usize,
    len: usize,
    _f: std::marker::PhantomData<F>,
}
impl<F: Float> UGen for Chatty<F> {
    type Sample = F;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, ctx: &mut AudioCtx, _: &mut UGenFlags, _: Frame<F, U0>) -> Frame<F, U1> {
        self.n += 1;
        if self.n % self.every == 0 {
            let l = ctx.logger();
            for k in 0..self.len {
                l.send(ArLogMessage::Unsigned(k as u64));
            }
            l.send(ArLogMessage::End);
        }
        [F::ZERO].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}

struct Push<'a, F: Float> {
    g: &'a mut Graph<F>,
    stack: usize,
    done: usize,
    gain: f64,
    out: Option<N>,
}
impl<F: Float> Visit<F> for Push<'_, F> {
    fn visit<U>(&mut self, name: &'static str, make: &dyn Fn() -> U) -> Res
    where
        U: UGen<Sample = F> + Send + 'static,
        U::Parameters: Add<B1>,
        Add1<U::Parameters>: Size + Add<B1>,
        Add1<Add1<U::Parameters>>: Size,
    {
        let d = [Done::None, Done::FreeSelf, Done::FreeParent][self.done];
        let u = make();
        let v = F::new(self.gain);
        macro_rules! push {
            ($u:expr) => {
                self.g.edit(|e| {
                    let h = e.push($u);
                    let ps = U::param_descriptions().iter().map(|n| h.param(*n)).collect();
                    (h.id(), ps)
                })
            };
        }
        let (id, handles) = match self.stack {
            0 => push!(u),
            1 => push!(u.smooth_params().ar_params().precise_timing::<16>()),
            _ => self.g.edit(|e| (e.push_with_done_action(u.wr_mul(v).ar_params(), d).id(), vec![])),
        };
        self.out = Some(N {
            id,
            name,
            ins: U::Inputs::USIZE,
            outs: U::Outputs::USIZE,
            params: U::param_descriptions().iter().copied().zip(U::param_hints().iter().cloned()).collect(),
            handles,
        });
        Ok(())
    }
}
/// A value no node should be bothered by in a way that matters to memory.
fn weird(r: &mut Rng, t: ParameterType) -> ParameterValue {
    match t {
        ParameterType::Trigger => ParameterValue::Trigger,
        ParameterType::Bool => ParameterValue::Bool(r.chance(1, 2)),
        ParameterType::Integer => ParameterValue::Integer(PInteger(*r.pick(&[
            0,
            1,
            2,
            7,
            100,
            65535,
            1 << 31,
            usize::MAX / 2,
            usize::MAX,
        ]))),
        ParameterType::Float => ParameterValue::Float(*r.pick(&[
            0.0,
            -0.0,
            1.0,
            -1.0,
            1e-300,
            1e9,
            -1e9,
            1e19,
            -1e19,
            1e300,
            -1e300,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
            0.5,
            20000.0,
        ])),
    }
}
impl<F: Float> World<F> {
    pub fn new(rng: &mut Rng, ring: usize, hostile: bool) -> Self {
        let bs = rng.block(&[1usize, 2, 4, 8, 16, 32, 64]);
        let sr = *rng.pick(&[8000u32, 44100, 48000]);
        let (g, p, rx) = AudioProcessor::<F>::new::<U2, U2>(AudioProcessorOptions {
            block_size: bs,
            sample_rate: sr,
            ring_buffer_size: ring,
            log_channel_capacity: *rng.pick(&[0usize, 1, 5, 20, 100]),
        });
        World {
            gs: vec![G { g: Some(g), nodes: vec![], ins: 2, outs: 2, sent: 0 }],
            p: Some(p),
            rx: Some(rx),
            bs,
            sr,
            ring,
            hostile,
            clock: 0,
            steps: 0,
            logs: 0,
        }
    }
    fn graphs(&self) -> Vec<usize> {
        (0..self.gs.len()).filter(|k| self.gs[*k].g.is_some()).collect()
    }
    pub fn push(&mut self, rng: &mut Rng, k: usize) {
        let room = self.gs.len() < 6;
        let g = &mut self.gs[k];
        let real = g.g.as_mut().unwrap();
        let n = match rng.below(16) {
            0 => {
                let u = Chatty::<F> { n: 0, every: 1 + rng.below(9), len: rng.below(9), _f: std::marker::PhantomData };
                let id = real.edit(|e| e.push(u).id());
                N { id, name: "Chatty", ins: 0, outs: 1, params: vec![], handles: vec![] }
            }
            1 if room => {
                let (ins, outs) = *rng.pick(&[(0usize, 1usize), (1, 1), (2, 2)]);
                let o = GraphOptions::default().ring_buffer_size(self.ring);
                macro_rules! sub {
                    ($i:ty, $o:ty) => {
                        real.edit(|e| {
                            let (h, s) = e.subgraph::<$i, $o>(o, |_| {});
                            (h.id(), s)
                        })
                    };
                }
                let (id, s) = match ins {
                    0 => sub!(U0, U1),
                    1 => sub!(U1, U1),
                    _ => sub!(U2, U2),
                };
                self.gs[k].nodes.push(N { id, name: "graph", ins, outs, params: vec![], handles: vec![] });
                self.gs.push(G { g: Some(s), nodes: vec![], ins, outs, sent: 0 });
                return;
            }
            _ => {
                let mut v = Push { g: real, stack: rng.below(3), done: rng.below(3), gain: rng.uniform(-1.0, 1.0), out: None };
                let _ = catalog::pick::<F, _>(rng.below(catalog::COUNT), rng, &mut v);
                v.out.unwrap()
            }
        };
        g.nodes.push(n);
    }
    fn source(&self, rng: &mut Rng, k: usize) -> Option<(NodeOrGraph, u16)> {
        let g = &self.gs[k];
        if g.ins > 0 && rng.chance(1, 5) {
            return Some((NodeOrGraph::Graph, rng.below(g.ins) as u16));
        }
        let with: Vec<&N> = g.nodes.iter().filter(|n| n.outs > 0).collect();
        if with.is_empty() {
            return None;
        }
        let n = *rng.pick(&with);
        Some((NodeOrGraph::Node(n.id), rng.below(n.outs) as u16))
    }
    /// One random operation of the control side.
    pub fn step(&mut self, rng: &mut Rng) {
        self.steps += 1;
        let live = self.graphs();
        if live.is_empty() {
            return;
        }
        let k = *rng.pick(&live);
        if self.gs[k].nodes.len() < 2 {
            return self.push(rng, k);
        }
        let full = self.gs[k].nodes.len() >= 12;
        match rng.below(24) {
            0..=2 if !full => self.push(rng, k),
            3..=8 => {
                let Some((s, sc)) = self.source(rng, k) else { return };
                let g = &mut self.gs[k];
                let (d, dc) = if rng.chance(1, 3) {
                    (NodeOrGraph::Graph, rng.below(g.outs + usize::from(self.hostile)))
                } else {
                    let n = rng.pick(&g.nodes);
                    if n.ins == 0 && !self.hostile {
                        return;
                    }
                    (NodeOrGraph::Node(n.id), rng.below(n.ins.max(1) + usize::from(self.hostile)))
                };
                let (real, dc) = (g.g.as_mut().unwrap(), dc as u16);
                let _ = match rng.below(4) {
                    0 => real.connect2_replace(s, sc, dc, d),
                    1 => real.connect2_feedback(s, sc, dc, d),
                    2 => real.connect2_feedback_replace(s, sc, dc, d),
                    _ => real.connect2(s, sc, dc, d),
                };
            }
            9 => {
                let Some((NodeOrGraph::Node(s), sc)) = self.source(rng, k) else { return };
                let g = &mut self.gs[k];
                let n = rng.pick(&g.nodes);
                if n.params.is_empty() {
                    return;
                }
                let p = rng.below(n.params.len());
                let _ = g.g.as_mut().unwrap().connect_replace_to_parameter(s, sc, p, n.id);
            }
            10 => {
                let g = &mut self.gs[k];
                let n = rng.pick(&g.nodes);
                let real = g.g.as_mut().unwrap();
                let _ = if rng.chance(1, 2) {
                    real.disconnect_input_to_sink(rng.below(3) as u16, NodeOrGraph::Node(n.id))
                } else {
                    real.disconnect_output_from_source(NodeOrGraph::Node(n.id), rng.below(3) as u16)
                };
            }
            11 => {
                // free a node, sometimes one that is already gone
                let g = &mut self.gs[k];
                let at = rng.below(g.nodes.len());
                let id = g.nodes[at].id;
                let _ = g.g.as_mut().unwrap().edit(|e| e.free_node(id));
                if rng.chance(3, 4) {
                    g.nodes.remove(at);
                }
            }
            12..=19 => self.change(rng, k),
            20 => {
                if let Some(rx) = &mut self.rx {
                    let mut n = 0;
                    rx.recv(|m| n += m.len() as u64);
                    self.logs += n;
                }
            }
            21 if k > 0 && rng.chance(1, 4) => {
                // the handle of a subgraph goes, its node stays
                self.gs[k].g = None;
            }
            22 => {
                let g = &self.gs[k];
                let _ = g.g.as_ref().unwrap().inspection();
            }
            _ => {
                self.gs[k].g.as_mut().unwrap().edit(|_| {});
            }
        }
    }
    fn change(&mut self, rng: &mut Rng, k: usize) {
        let (hostile, sr, clock, bs) = (self.hostile, self.sr, self.clock, self.bs as u64);
        let ring = self.ring;
        let g = &mut self.gs[k];
        if g.sent + 2 >= ring && !hostile {
            return;
        }
        let i = rng.below(g.nodes.len());
        let n = &mut g.nodes[i];
        if n.params.is_empty() {
            return;
        }
        let p = rng.below(n.params.len());
        let (name, h) = n.params[p].clone();
        let float = h.ty() == ParameterType::Float;
        let v = if hostile && rng.chance(1, 3) {
            weird(rng, h.ty())
        } else if float && rng.chance(1, 6) {
            let s = if rng.chance(1, 4) {
                ParameterSmoothing::None
            } else {
                ParameterSmoothing::Linear(rng.uniform(0.0, 0.02) as f32)
            };
            ParameterValue::Smoothing(s, if rng.chance(1, 2) { Rate::AudioRate } else { Rate::BlockRate })
        } else {
            catalog::legal(rng, n.name, name, &h, sr)
        };
        let at = |f: u64| Seconds::from_samples(f, sr as u64);
        let f = rng.below(4 * bs as usize) as u64;
        g.sent += 1;
        if !n.handles.is_empty() && rng.chance(1, 2) {
            let q = &mut n.handles[p];
            let _ = match rng.below(3) {
                0 => q.set(v),
                1 => q.set_at(v, at(clock + f)),
                _ => q.set_after(v, at(f)),
            };
            return;
        }
        let t = match rng.below(3) {
            0 => Time::asap(),
            1 => Time::at(at(clock + f)),
            _ => Time::after(at(f)),
        };
        let _ = g.g.as_ref().unwrap().set(n.id, p, v, t);
    }
    /// Parameter handles to use from other threads
    pub fn parameters(&self) -> Vec<(Parameter, ParameterType)> {
        let all = self.gs.iter().flat_map(|g| &g.nodes);
        all.flat_map(|n| n.handles.iter().cloned().zip(n.params.iter().map(|p| p.1.ty()))).collect()
    }
    pub fn rendered(&mut self) {
        self.clock += self.bs as u64;
        // changes may wait for up to four blocks
        if self.clock / self.bs as u64 % 6 == 0 {
            for g in &mut self.gs {
                g.sent = 0;
            }
        }
    }
}
/// The audio side: noise in, one block out.
pub fn block<F: Float>(rng: &mut Rng, p: &mut AudioProcessor<F>, bufs: &mut [Vec<F>; 2], hostile: bool) {
    let bad = hostile && rng.chance(1, 10);
    for b in bufs.iter_mut() {
        for x in b.iter_mut() {
            *x = F::new(if bad && rng.chance(1, 4) {
                *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e38, -1e38, 1e-40])
            } else {
                rng.uniform(-1.0, 1.0)
            });
        }
    }
    let ins: [&[F]; 2] = [&bufs[0], &bufs[1]];
    crate::probe::run_any(p, &ins);
}
/// Everything in one thread, the audio side taking turns with the control side.
pub fn alone<F: Float>(c: &mut Case, hostile: bool) -> Res {
    let n = 60 + c.rng.below(200);
    alone_n::<F>(c, hostile, n)
}
pub fn alone_n<F: Float>(c: &mut Case, hostile: bool, steps: usize) -> Res {
    let mut rng = Rng::new(c.rng.next());
    let mut w = World::<F>::new(&mut rng, 60, hostile);
    let mut bufs = [vec![F::ZERO; w.bs], vec![F::ZERO; w.bs]];
    let mut blocks = 0;
    for _ in 0..steps {
        if rng.chance(1, 4) {
            if let Some(p) = &mut w.p {
                block(&mut rng, p, &mut bufs, hostile);
                blocks += 1;
            }
            w.rendered();
        } else {
            w.step(&mut rng);
        }
    }
    c.note(format!("{} steps {blocks} blocks {} graphs bs {} #{}", w.steps, w.gs.len(), w.bs, c.index));
    c.count("control operations on graphs of library nodes", w.steps);
    c.count("blocks of graphs of library nodes", blocks);
    c.count("parts of log messages received", w.logs);
    // the end: in any order, the processor keeps rendering for a while
    loop {
        let live = w.graphs();
        if live.is_empty() {
            break;
        }
        let k = *rng.pick(&live);
        w.gs[k].g = None;
        if let Some(p) = &mut w.p {
            if rng.chance(1, 2) {
                block(&mut rng, p, &mut bufs, hostile);
            }
        }
        if rng.chance(1, 6) {
            w.p = None;
        }
        if rng.chance(1, 6) {
            w.rx = None;
        }
    }
    c.nontrivial();
    Ok(())
}
/// What the threads did.
pub struct Tally {
    pub blocks: u64,
    pub steps: u64,
    pub sent: u64,
    pub audit: crate::alloc::Audit,
    /// the audio thread panicked
    pub panicked: bool,
}
/// A control thread, a thread with parameter handles, a thread that receives logs, and the audio
/// thread.
pub fn threads<F: Float>(c: &mut Case, hostile: bool, steps: usize) -> Tally {
    use std::sync::atomic::{AtomicBool, Ordering::*};
    let mut rng = Rng::new(c.rng.next());
    let mut w = World::<F>::new(&mut rng, 60, hostile);
    for _ in 0..20 {
        w.step(&mut rng);
    }
    let params = w.parameters();
    let mut p = w.p.take().unwrap();
    let mut rx = w.rx.take();
    let (bs, sr) = (w.bs, w.sr);
    let seeds: Vec<u64> = (0..4).map(|_| rng.next()).collect();
    let stop = AtomicBool::new(false);
    let early = rng.chance(1, 3);
    let tally = std::thread::scope(|s| {
        let audio = s.spawn(|| {
            let mut rng = Rng::new(seeds[0]);
            let mut bufs = [vec![F::ZERO; bs], vec![F::ZERO; bs]];
            let mut blocks = 0u64;
            crate::alloc::audit();
            let mut panicked = false;
            // a few blocks after the graphs are gone
            let mut more = 3;
            while more > 0 {
                if stop.load(Acquire) {
                    more -= 1;
                }
                if guarded(|| block(&mut rng, &mut p, &mut bufs, hostile)).is_err() {
                    panicked = true;
                    break;
                }
                blocks += 1;
                if rng.chance(1, 8) {
                    std::thread::yield_now();
                }
            }
            let a = crate::alloc::audit();
            let keep = if early { None } else { Some(p) };
            (blocks, a, panicked, keep)
        });
        let sender = s.spawn(|| {
            let mut rng = Rng::new(seeds[1]);
            let mut params = params;
            let mut n = 0u64;
            while !stop.load(Acquire) && !params.is_empty() {
                let k = rng.below(params.len());
                let (q, t) = &mut params[k];
                let v = if hostile { weird(&mut rng, *t) } else {
                    match t {
                        ParameterType::Float => ParameterValue::Float(rng.uniform(0.0, 1.0)),
                        ParameterType::Integer => ParameterValue::Integer(PInteger(rng.below(3))),
                        ParameterType::Bool => ParameterValue::Bool(rng.chance(1, 2)),
                        ParameterType::Trigger => ParameterValue::Trigger,
                    }
                };
                if q.set_after(v, Seconds::from_samples(rng.below(2 * bs) as u64, sr as u64)).is_ok() {
                    n += 1;
                }
                for _ in 0..rng.below(4) {
                    std::thread::yield_now();
                }
            }
            n
        });
        let logs = s.spawn(|| {
            let mut n = 0;
            while !stop.load(Acquire) {
                if let Some(r) = &mut rx {
                    r.recv(|m| n += m.len() as u64);
                }
                std::thread::yield_now();
            }
            n
        });
        for _ in 0..steps {
            w.step(&mut rng);
            if rng.chance(1, 4) {
                std::thread::yield_now();
                w.rendered();
            }
        }
        let drop_first = rng.chance(1, 2);
        if drop_first {
            w.gs.clear();
        }
        stop.store(true, Release);
        let (blocks, audit, panicked, keep) = audio.join().unwrap();
        let sent = sender.join().unwrap();
        w.logs = logs.join().unwrap();
        if rng.chance(1, 2) {
            w.gs.clear();
            drop(keep);
        } else {
            drop(keep);
            w.gs.clear();
        }
        Tally { blocks, steps: w.steps, sent, audit, panicked }
    });
    c.count("blocks rendered while other threads edit", tally.blocks);
    c.count("control operations while rendering", tally.steps);
    c.count("changes sent by another thread", tally.sent);
    c.count("parts of log messages received", w.logs);
    c.note(format!("{} steps bs {bs} sr {sr} #{}", tally.steps, c.index));
    tally
}

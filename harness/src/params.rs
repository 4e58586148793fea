//! C08 and C09: parameter changes and scheduling. Recording probes at top level and in nested
//! graphs; every accepted change is entered in a ledger, and after each block the events each
//! probe recorded are compared with what the ledger says is due.
use crate::common::*;
use crate::gm::make;
use crate::probe::*;
use crate::{bail, ensure};
use knaster_core::typenum::*;
use knaster_core::{Block, PFloat, Param, ParameterSmoothing, ParameterValue, PInteger, PTrigger, Seconds};
use knaster_graph::graph::{Graph, GraphOptions, NodeId};
use knaster_graph::graph_edit::Parameter;
use knaster_graph::handle::{AnyHandle, Handle, HandleTrait};
use knaster_graph::processor::AudioProcessor;
use knaster_graph::{SchedulingToken, Time};
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

type P1 = Probe<f32, U0, U1>;
const NAMES: [&str; 3] = ["alpha", "beta", "gamma"];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum When {
    Now,
    /// absolute frame
    At(u64),
    /// frames after reaching the audio thread
    After(u64),
}
#[derive(Clone, Debug)]
struct Pend {
    seq: u64,
    param: usize,
    values: Vec<String>,
    when: When,
    /// due frame, once it reached the audio thread
    due: Option<u64>,
    token: Option<usize>,
}
struct PN {
    id: NodeId,
    graph: usize,
    sh: Arc<Shared>,
    alive: bool,
    precise: bool,
    params: Vec<Parameter>,
    handle: Option<Handle<P1>>,
    any: Option<AnyHandle>,
    pend: Vec<Pend>,
    /// events checked so far
    seen: usize,
    applied: u64,
}
pub struct World {
    graphs: Vec<Graph<f32>>,
    gnode: Vec<Option<(usize, NodeId)>>,
    gdead: Vec<bool>,
    p: AudioProcessor<f32>,
    bs: usize,
    sr: u32,
    clock: u64,
    nodes: Vec<PN>,
    seq: u64,
    next_val: i64,
    tokens: Vec<(Option<SchedulingToken>, bool)>,
    ring: usize,
    sent: Vec<usize>,
    _rx: knaster_core::log::ArLogReceiver<U1>,
}
pub const RATES: &[u32] = &[8000, 22050, 44100, 48000, 88200, 96000, 192000];

impl World {
    pub fn new(bs: usize, sr: u32, ring: usize) -> World {
        let (g, p, rx) = make::<f32>(0, 1, bs, sr, ring);
        World {
            graphs: vec![g],
            gnode: vec![None],
            gdead: vec![false],
            p,
            bs,
            sr,
            clock: 0,
            nodes: vec![],
            seq: 0,
            next_val: 1,
            tokens: vec![],
            ring,
            sent: vec![0],
            _rx: rx,
        }
    }
    fn sub(&mut self, parent: usize) {
        let ring = self.ring;
        let (id, sub) = self.graphs[parent].edit(|e| {
            let (h, s) = e.subgraph::<U0, U1>(GraphOptions::default().ring_buffer_size(ring), |_| {});
            (h.id(), s)
        });
        self.graphs.push(sub);
        self.gnode.push(Some((parent, id)));
        self.gdead.push(false);
        self.sent.push(0);
    }
    fn live_graphs(&self) -> Vec<usize> {
        (0..self.graphs.len()).filter(|g| !self.gdead[*g]).collect()
    }
    fn live(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|k| self.nodes[*k].alive).collect()
    }
    fn value(&mut self, rng: &mut Rng, kinds: usize) -> (ParameterValue, String) {
        let v = self.next_val;
        self.next_val += 1;
        let pv = match rng.below(kinds) {
            0 | 1 => ParameterValue::Float(v as PFloat),
            2 => ParameterValue::Integer(PInteger(v as usize)),
            3 => ParameterValue::Trigger,
            4 => ParameterValue::Bool(v % 2 == 0),
            _ => ParameterValue::Float(v as PFloat),
        };
        (pv, format!("{pv:?}"))
    }
    /// Add a node; with some probability set parameters in the same edit.
    fn push(&mut self, c: &mut Case, graph: usize, precise_p: u64, sets: bool) {
        let sh = Shared::new(self.nodes.len() as u64);
        sh.record_events.store(true, SeqCst);
        let precise = c.rng.chance(precise_p, 100);
        let stack = c.rng.below(crate::probe::PRECISE_STACKS);
        let typed = !precise && c.rng.chance(1, 4);
        let core = Core::new(1, false, sh.clone());
        let mut inside: Vec<(usize, ParameterValue, bool)> = vec![];
        if sets {
            for _ in 0..c.rng.below(4) {
                let (v, _) = self.value(&mut c.rng, 5);
                inside.push((c.rng.below(NPARAMS), v, c.rng.chance(1, 2)));
            }
        }
        let mut handle = None;
        let mut any = None;
        let ins2 = inside.clone();
        let (id, params) = if typed {
            #[allow(deprecated)]
            let h = self.graphs[graph].push(P1::new(core));
            let id = h.node_id();
            any = Some(h.clone().into_any());
            for (p, v, name) in &inside {
                let par = if *name { Param::Desc(NAMES[*p]) } else { Param::Index(*p) };
                let _ = self.graphs[graph].set(id, par, *v, Time::asap());
            }
            handle = Some(h);
            let ps = self.graphs[graph].edit(|e| {
                NAMES.iter().map(|n| e.handle(id).unwrap().param(*n)).collect()
            });
            (id, ps)
        } else {
            self.graphs[graph].edit(|e| {
                let id = if precise {
                    push_probe_precise(&e, core, stack)
                } else {
                    push_probe_edit(&e, 0, 1, core)
                };
                let params: Vec<Parameter> =
                    NAMES.iter().map(|n| e.handle(id).unwrap().param(*n)).collect();
                for (p, v, name) in &ins2 {
                    if *name {
                        e.set(id, NAMES[*p], *v, Time::asap()).unwrap();
                    } else {
                        params[*p].clone().set(*v).unwrap();
                    }
                }
                (id, params)
            })
        };
        self.sent[graph] += inside.len();
        let mut pend = vec![];
        for (p, v, _) in inside {
            self.seq += 1;
            pend.push(Pend {
                seq: self.seq,
                param: p,
                values: vec![format!("{v:?}")],
                when: When::Now,
                due: None,
                token: None,
            });
        }
        c.note(format!("n{}=push g{graph} precise={precise} stack={stack} typed={typed} sets={}", self.nodes.len(), pend.len()));
        self.nodes.push(PN {
            id,
            graph,
            sh,
            alive: true,
            precise,
            params,
            handle,
            any,
            pend,
            seen: 0,
            applied: 0,
        });
    }
    fn free(&mut self, c: &mut Case, k: usize) -> Res {
        let (g, id) = (self.nodes[k].graph, self.nodes[k].id);
        if let Err(e) = self.graphs[g].edit(|e| e.free_node(id)) {
            bail!("valid-refused", "freeing live node {k}: {e}");
        }
        c.note(format!("free n{k}"));
        self.kill(k);
        Ok(())
    }
    fn kill(&mut self, k: usize) {
        self.nodes[k].alive = false;
        self.nodes[k].pend.clear();
    }
    fn free_graph(&mut self, c: &mut Case, gi: usize) -> Res {
        let (parent, id) = self.gnode[gi].unwrap();
        if let Err(e) = self.graphs[parent].edit(|e| e.free_node(id)) {
            bail!("valid-refused", "freeing subgraph {gi}: {e}");
        }
        c.note(format!("free g{gi}"));
        let mut dead = vec![gi];
        for g in gi + 1..self.graphs.len() {
            if let Some((p, _)) = self.gnode[g] {
                if dead.contains(&p) {
                    dead.push(g);
                }
            }
        }
        for g in &dead {
            self.gdead[*g] = true;
        }
        for k in 0..self.nodes.len() {
            if dead.contains(&self.nodes[k].graph) {
                self.kill(k);
            }
        }
        Ok(())
    }
    fn room(&self, g: usize) -> bool {
        let waiting: usize = self.nodes.iter().filter(|n| n.graph == g).map(|n| n.pend.len()).sum();
        waiting + 8 < self.ring && self.sent[g] + 8 < self.ring
    }
    /// Send one change to node k. `ok`: whether it has to be accepted.
    fn send(&mut self, c: &mut Case, k: usize, when: When, token: Option<usize>, kinds: usize) -> Res {
        let param = c.rng.below(NPARAMS);
        let (v, vs) = self.value(&mut c.rng, kinds);
        let alive = self.nodes[k].alive;
        let g = self.nodes[k].graph;
        let sr = self.sr as u64;
        let time = match when {
            When::Now => Time::asap(),
            When::At(f) => Time::at(Seconds::from_samples(f, sr)),
            When::After(f) => Time::after(Seconds::from_samples(f, sr)),
        };
        let name = c.rng.chance(1, 2);
        let par = if name { Param::Desc(NAMES[param]) } else { Param::Index(param) };
        let id = self.nodes[k].id;
        let graph_dead = self.gdead[g];
        let mut values = vec![vs];
        // through handles a freed node can't be recognised
        let mut must_fail = false;
        let mut may_fail = graph_dead;
        let r;
        let how;
        if let Some(t) = token {
            let tok = self.tokens[t].0.clone().unwrap();
            let mut ch: knaster_graph::handle::ParameterChange = if c.rng.chance(1, 3) {
                values.insert(
                    0,
                    format!("{:?}", ParameterValue::from(ParameterSmoothing::Linear(0.5))),
                );
                (par, v, ParameterSmoothing::Linear(0.5), tok).into()
            } else {
                (par, v, tok).into()
            };
            let _ = &mut ch;
            if self.nodes[k].handle.is_some() && c.rng.chance(1, 2) {
                how = "handle+token";
                r = self.nodes[k].handle.as_ref().unwrap().set(ch);
            } else if self.nodes[k].any.is_some() {
                how = "any+token";
                r = self.nodes[k].any.as_ref().unwrap().set(ch);
            } else {
                return Ok(());
            }
        } else {
            match c.rng.below(8) {
                0 | 1 => {
                    how = "graph.set";
                    must_fail = !alive && !graph_dead;
                    r = self.graphs[g].set(id, par, v, time);
                }
                2 => {
                    how = "edit.set";
                    must_fail = !alive && !graph_dead;
                    r = self.graphs[g].edit(|e| e.set(id, par, v, time));
                }
                3 if self.nodes[k].handle.is_some() && when == When::Now => {
                    how = "handle.set";
                    r = self.nodes[k].handle.as_ref().unwrap().set((par, v));
                }
                4 if self.nodes[k].any.is_some() && when == When::Now => {
                    how = "any.set";
                    if c.rng.chance(1, 3) {
                        values.insert(
                            0,
                            format!("{:?}", ParameterValue::from(ParameterSmoothing::Linear(0.25))),
                        );
                        r = self.nodes[k]
                            .any
                            .as_ref()
                            .unwrap()
                            .set((par, v, ParameterSmoothing::Linear(0.25)));
                    } else {
                        r = self.nodes[k].any.as_ref().unwrap().set((par, v));
                    }
                }
                5 => {
                    how = "param.smooth/trig";
                    let p = &mut self.nodes[k].params[param];
                    if c.rng.chance(1, 2) {
                        let s = ParameterSmoothing::Linear(self.next_val as f32);
                        values = vec![format!("{:?}", ParameterValue::from(s))];
                        r = match when {
                            When::Now => p.smooth(s),
                            _ if c.rng.chance(1, 2) => p.smooth_time(s, time),
                            When::At(f) => p.smooth_at(s, Seconds::from_samples(f, sr)),
                            When::After(f) => p.smooth_after(s, Seconds::from_samples(f, sr)),
                        };
                    } else {
                        values = vec![format!("{:?}", ParameterValue::Trigger)];
                        r = match when {
                            When::Now => p.trig(),
                            _ if c.rng.chance(1, 2) => p.trig_time(time),
                            When::At(f) => p.trig_at(Seconds::from_samples(f, sr)),
                            When::After(f) => p.trig_after(Seconds::from_samples(f, sr)),
                        };
                    }
                }
                6 if matches!(when, When::At(_)) => {
                    // several nodes in one call
                    how = "set_many";
                    must_fail = false;
                    self.graphs[g].set_many(&[(id, par, v)], time);
                    r = if alive { Ok(()) } else { Err(knaster_graph::graph::GraphError::NodeNotFound) };
                    may_fail |= !alive;
                }
                _ => {
                    how = "param.set";
                    let p = &mut self.nodes[k].params[param];
                    r = match when {
                        When::Now => p.set(v),
                        When::At(f) => {
                            if c.rng.chance(1, 2) {
                                p.set_at(v, Seconds::from_samples(f, sr))
                            } else {
                                p.set_time(v, time)
                            }
                        }
                        When::After(f) => {
                            if c.rng.chance(1, 2) {
                                p.set_after(v, Seconds::from_samples(f, sr))
                            } else {
                                p.set_time(v, time)
                            }
                        }
                    };
                }
            }
        }
        c.note(format!("{how} n{k}.{param} {values:?} {when:?} token={token:?} ok={}", r.is_ok()));
        c.count("changes sent", 1);
        match r {
            Ok(()) => {
                ensure!(!must_fail, "freed-accepted", "{how}: change for freed node n{k} was accepted");
                self.sent[g] += 1;
                if alive {
                    self.seq += 1;
                    let seq = self.seq;
                    self.nodes[k].pend.push(Pend { seq, param, values, when, due: None, token });
                }
            }
            Err(e) => {
                ensure!(
                    !alive || may_fail,
                    "valid-refused",
                    "{how}: change for live node n{k}.{param} refused: {e}"
                );
            }
        }
        Ok(())
    }
    /// Several changes in one call. Those that can't be made are logged, the others are all made in order.
    fn send_many(&mut self, c: &mut Case, g: usize, when: When) -> Res {
        let sr = self.sr as u64;
        let time = match when {
            When::Now => Time::asap(),
            When::At(f) => Time::at(Seconds::from_samples(f, sr)),
            When::After(f) => Time::after(Seconds::from_samples(f, sr)),
        };
        let mut list = vec![];
        let mut good = vec![];
        for _ in 0..1 + c.rng.below(6) {
            let k = c.rng.below(self.nodes.len());
            let mut param = c.rng.below(NPARAMS);
            let (v, vs) = self.value(&mut c.rng, 5);
            let n = &self.nodes[k];
            let mut ok = n.alive && n.graph == g;
            let mut par = if c.rng.chance(1, 2) { Param::Desc(NAMES[param]) } else { Param::Index(param) };
            if c.rng.chance(1, 8) {
                param = 5 + c.rng.below(5);
                par = if c.rng.chance(1, 2) { Param::Desc(near_name(&mut c.rng, &["alpha", "beta", "gamma"])) } else { Param::Index(param) };
                ok = false;
            }
            if ok {
                good.push((k, param, vs));
            }
            list.push((n.id, par, v));
        }
        c.note(format!("set_many in graph {g} {when:?}: {list:?}, of which are valid {good:?}"));
        self.graphs[g].set_many(&list, time);
        c.count("changes sent", list.len() as u64);
        for (k, param, vs) in good {
            self.sent[g] += 1;
            self.seq += 1;
            let seq = self.seq;
            self.nodes[k].pend.push(Pend { seq, param, values: vec![vs], when, due: None, token: None });
        }
        Ok(())
    }
    /// Invalid calls: have to be refused and leave nothing behind.
    fn invalid(&mut self, c: &mut Case, k: usize) -> Res {
        let id = self.nodes[k].id;
        let g = self.nodes[k].graph;
        // wrappers around precise timing add parameters
        let bad_i = if self.nodes[k].precise { 5 } else { 3 } + c.rng.below(5);
        let (r, how) = match c.rng.below(5) {
            0 => (self.graphs[g].set(id, bad_i, 1.0f32, Time::asap()), "index"),
            1 => (self.graphs[g].set(id, near_name(&mut c.rng, &["alpha", "beta", "gamma"]), 1.0f32, Time::asap()), "name"),
            2 => {
                let other = (0..self.graphs.len()).find(|x| *x != g);
                match other {
                    Some(o) => (self.graphs[o].set(id, 0usize, 1.0f32, Time::asap()), "foreign"),
                    None => return Ok(()),
                }
            }
            3 => match &self.nodes[k].handle {
                Some(h) => (h.set((bad_i, 1.0f32)), "handle index"),
                None => return Ok(()),
            },
            _ => match &self.nodes[k].any {
                Some(h) => (h.set(("Alpha", 1.0f32)), "any name"),
                None => return Ok(()),
            },
        };
        ensure!(r.is_err(), "invalid-accepted", "invalid {how} for n{k} was accepted");
        c.count("invalid calls refused", 1);
        Ok(())
    }
    fn render(&mut self) -> Res {
        ON_AUDIO.with(|a| a.set(true));
        crate::probe::run_any(&mut self.p, &[]);
        ON_AUDIO.with(|a| a.set(false));
        let (t, bs) = (self.clock, self.bs as u64);
        self.clock += bs;
        for s in &mut self.sent {
            *s = 0;
        }
        for k in 0..self.nodes.len() {
            let n = &mut self.nodes[k];
            let mut due: Vec<(u64, Pend)> = vec![];
            let mut rest = vec![];
            for mut p in n.pend.drain(..) {
                let d = *p.due.get_or_insert(match p.when {
                    When::Now => 0,
                    When::At(f) => f,
                    When::After(f) => t + f,
                });
                let act = p.token.is_none_or(|k| self.tokens[k].1);
                if act && d < t + bs {
                    due.push((d.max(t), p));
                } else {
                    rest.push(p);
                }
            }
            n.pend = rest;
            due.sort_by_key(|(d, p)| (*d, p.seq));
            let mut want = vec![];
            for (d, p) in &due {
                for v in &p.values {
                    // (frame the change is for, parameter, value)
                    want.push((*d, p.param, v.clone()));
                }
            }
            let ev = n.sh.events.lock().unwrap();
            let mut got = vec![];
            // a delay concerns the next change of its parameter
            let mut delay = [0u16; NPARAMS];
            for e in &ev[n.seen..] {
                match e {
                    Ev::Delay(_, i, d) => delay[*i] = *d,
                    Ev::Param(_, at, i, v) if n.precise => got.push((*at, *i, v.clone())),
                    Ev::Param(c, _, i, v) => {
                        got.push((*c + std::mem::take(&mut delay[*i]) as u64, *i, v.clone()))
                    }
                }
            }
            n.seen = ev.len();
            drop(ev);
            n.applied += want.len() as u64;
            if got != want {
                let missing: Vec<_> = want.iter().filter(|e| !got.contains(e)).collect();
                let extra: Vec<_> = got.iter().filter(|e| !want.contains(e)).collect();
                bail!(
                    "changes",
                    "node {k} (precise={}) in the block at {t} (block size {bs}): missing {missing:?}, not expected {extra:?}; got {got:?}, expected {want:?}",
                    n.precise
                );
            }
            let e = n.sh.errors.lock().unwrap();
            if let Some(e) = e.first() {
                bail!("probe", "node {k}: {e}");
            }
        }
        Ok(())
    }
    fn check_clock(&self) -> Res {
        let want = Seconds::from_samples(self.clock, self.sr as u64);
        for (i, g) in self.graphs.iter().enumerate() {
            let got = g.shared_frame_clock().get();
            ensure!(got == want, "clock", "graph {i}: clock says {got:?}, {} frames were rendered", self.clock);
        }
        for n in &self.nodes {
            if let Some(h) = &n.handle {
                let got = h.current_frame_time();
                ensure!(got == want, "clock", "handle: clock says {got:?}, {} frames were rendered", self.clock);
            }
        }
        Ok(())
    }
    fn reuse_place(&mut self, c: &mut Case, g: usize) {
        // a node that takes the place of a freed one as soon as it is reclaimed
        self.push(c, g, 0, false);
    }
}

fn setup(c: &mut Case, ring: usize) -> World {
    let bs = c.rng.block(&[1usize, 2, 4, 16, 32, 64]);
    let sr = *c.rng.pick(RATES);
    let mut w = World::new(bs, sr, ring);
    c.note(format!("block size {bs}, sample rate {sr}"));
    for _ in 0..c.rng.below(3) {
        let p = *c.rng.pick(&w.live_graphs());
        w.sub(p);
    }
    w
}

pub fn ledger(c: &mut Case) -> Res {
        let ring = 60;
        let mut w = setup(c, ring);
        let steps = 10 + c.rng.below(if c.thorough { 90 } else { 40 });
        for _ in 0..steps {
            let live = w.live();
            let graphs = w.live_graphs();
            match c.rng.below(20) {
                0..=2 if live.len() < 8 => {
                    let g = *c.rng.pick(&graphs);
                    if w.room(g) {
                        let pp = if c.rng.chance(1, 3) { 100 } else { 0 };
                        w.push(c, g, pp, true);
                    }
                }
                3 if !live.is_empty() => {
                    let k = *c.rng.pick(&live);
                    // also change it right before it is freed
                    if w.room(w.nodes[k].graph) && c.rng.chance(1, 2) {
                        w.send(c, k, When::Now, None, 5)?;
                    }
                    w.free(c, k)?;
                    let g = w.nodes[k].graph;
                    if c.rng.chance(1, 2) {
                        w.reuse_place(c, g);
                    }
                }
                4 if c.rng.chance(1, 4) => {
                    let subs: Vec<usize> = graphs.iter().copied().filter(|g| *g > 0).collect();
                    if !subs.is_empty() {
                        let g = *c.rng.pick(&subs);
                        w.free_graph(c, g)?;
                    }
                }
                5 if !w.nodes.is_empty() => {
                    let k = c.rng.below(w.nodes.len());
                    w.invalid(c, k)?;
                }
                6 if !w.nodes.is_empty() => {
                    // a change for any node, also freed ones
                    let k = c.rng.below(w.nodes.len());
                    if w.room(w.nodes[k].graph) {
                        w.send(c, k, When::Now, None, 5)?;
                    }
                }
                7..=12 if !live.is_empty() => {
                    let k = *c.rng.pick(&live);
                    if w.room(w.nodes[k].graph) {
                        w.send(c, k, When::Now, None, 5)?;
                    }
                }
                13 if c.rng.chance(1, 2) && !w.nodes.is_empty() => {
                    let g = *c.rng.pick(&graphs);
                    if w.room(g) {
                        w.send_many(c, g, When::Now)?;
                    }
                }
                13 => {
                    // an unrelated edit
                    let g = *c.rng.pick(&graphs);
                    w.graphs[g].edit(|_| {});
                }
                _ => {
                    w.render()?;
                }
            }
        }
        w.render()?;
        w.render()?;
        w.check_clock()?;
        if w.nodes.iter().any(|n| n.applied > 0) {
            c.nontrivial();
        }
        c.count("changes applied and compared", w.nodes.iter().map(|n| n.applied).sum());
        Ok(())
}
pub fn run_c08(r: &mut Run) {
    r.rule = "A case counts when at least one accepted change reached a node and was compared with the ledger; distinct by the hash of the operation log.".into();
    r.assumptions = vec!["changes pending at once stay below the ring buffer size".into()];
    r.cases("ledger", r.n(150000, 3000000), ledger);
    // the ring is full: a refused change is not applied, the accepted ones all are
    r.cases("full", r.n(2000, 20000), |c| {
        let bs = c.rng.block(&[1usize, 8, 32]);
        let ring = 4 + c.rng.below(20);
        let (mut g, mut p, _rx) = make::<f32>(0, 1, bs, 48000, ring);
        let sh = Shared::new(0);
        sh.record_events.store(true, SeqCst);
        let mut ps: Vec<Parameter> = g.edit(|e| {
            let id = push_probe_edit(&e, 0, 1, Core::new(1, false, sh.clone()));
            NAMES.iter().map(|n| e.handle(id).unwrap().param(*n)).collect()
        });
        crate::probe::run_any(&mut p, &[]);
        let mut v = 0;
        let mut want: Vec<Ev> = vec![];
        let mut refused = 0;
        for b in 0..10u64 {
            let n = c.rng.below(2 * ring);
            for k in 0..n {
                v += 1;
                let pi = c.rng.below(3);
                let r = ps[pi].set(v as PFloat);
                if r.is_ok() {
                    want.push(Ev::Param((b + 1) * bs as u64, (b + 1) * bs as u64, pi, format!("{:?}", ParameterValue::Float(v as PFloat))));
                } else {
                    refused += 1;
                    ensure!(k >= ring, "valid-refused", "change {k} of this block refused, the ring holds {ring}");
                }
            }
            crate::probe::run_any(&mut p, &[]);
        }
        c.note(format!("ring {ring} bs {bs} refused {refused}"));
        let got = sh.events.lock().unwrap().clone();
        ensure!(got == want, "changes", "accepted {} changes, applied {}: {:?}", want.len(), got.len(), got.iter().zip(&want).find(|(a, b)| a != b));
        c.nontrivial();
        c.count("changes refused on a full ring", refused);
        Ok(())
    });
    // several threads send while the audio thread renders
    r.cases_t("threads", r.n(60, 600), 2, threads);
}
/// several threads send while the audio thread renders
pub fn threads(c: &mut Case) -> Res {
        let bs = c.rng.block(&[1usize, 4, 16]);
        let ring = *c.rng.pick(&[8usize, 64, 300]);
        let (mut g, mut p, _rx) = make::<f32>(0, 1, bs, 48000, ring);
        let nn = 1 + c.rng.below(3);
        let mut shs = vec![];
        let mut ps = vec![];
        for k in 0..nn {
            let sh = Shared::new(k as u64);
            sh.record_events.store(true, SeqCst);
            let v: Vec<Parameter> = g.edit(|e| {
                let id = push_probe_edit(&e, 0, 1, Core::new(1, false, sh.clone()));
                NAMES.iter().map(|n| e.handle(id).unwrap().param(*n)).collect()
            });
            ps.push(v);
            shs.push(sh);
        }
        let senders = 1 + c.rng.below(3);
        let per = 400;
        let stop = std::sync::atomic::AtomicBool::new(false);
        let running = std::sync::atomic::AtomicUsize::new(senders);
        let (acc, blocks) = std::thread::scope(|s| {
            let audio = s.spawn(|| {
                let mut n = 0u64;
                while running.load(SeqCst) > 0 {
                    crate::probe::run_any(&mut p, &[]);
                    n += 1;
                    if n % 16 == 0 {
                        std::thread::yield_now();
                    }
                }
                crate::probe::run_any(&mut p, &[]);
                crate::probe::run_any(&mut p, &[]);
                n
            });
            let editor = s.spawn(|| {
                let mut n = 0;
                while !stop.load(SeqCst) && n < 200 {
                    let id = g.edit(|e| push_probe_edit(&e, 0, 1, Core::new(1, false, Shared::new(99))));
                    std::thread::yield_now();
                    let _ = g.edit(|e| e.free_node(id));
                    n += 1;
                }
            });
            let hs: Vec<_> = (0..senders)
                .map(|t| {
                    let mut ps = ps.clone();
                    let mut rng = Rng::new(c.rng.next());
                    let running = &running;
                    s.spawn(move || {
                        let mut acc: Vec<Vec<(usize, String)>> = vec![vec![]; ps.len()];
                        for i in 0..per {
                            let n = rng.below(ps.len());
                            let p = rng.below(3);
                            let v = (t * 100000 + i) as PFloat;
                            if ps[n][p].set(v).is_ok() {
                                acc[n].push((p, format!("{:?}", ParameterValue::Float(v))));
                            }
                            if rng.chance(1, 20) {
                                std::thread::yield_now();
                            }
                        }
                        running.fetch_sub(1, SeqCst);
                        acc
                    })
                })
                .collect();
            let acc: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
            stop.store(true, SeqCst);
            editor.join().unwrap();
            (acc, audio.join().unwrap())
        });
        let mut total = 0;
        for n in 0..nn {
            let ev = shs[n].events.lock().unwrap();
            let got: Vec<(usize, String)> = ev
                .iter()
                .map(|e| match e {
                    Ev::Param(_, _, p, v) => (*p, v.clone()),
                    Ev::Delay(..) => (9, "delay".into()),
                })
                .collect();
            let mut pos = vec![0usize; senders];
            for e in &got {
                let t = (0..senders).find(|t| acc[*t][n].get(pos[*t]) == Some(e));
                match t {
                    Some(t) => pos[t] += 1,
                    None => bail!("changes", "node {n}: {e:?} applied out of order, twice or without being accepted"),
                }
            }
            for t in 0..senders {
                ensure!(pos[t] == acc[t][n].len(), "changes", "node {n}: sender {t} had {} changes accepted, {} were applied", acc[t][n].len(), pos[t]);
            }
            total += got.len() as u64;
        }
        c.note(format!("{senders} senders, ring {ring}, bs {bs}, case {}", c.index));
        c.nontrivial();
        c.count("changes from threads applied", total);
        c.count("blocks rendered concurrently", blocks);
        Ok(())
}

pub fn due(c: &mut Case) -> Res {
        let ring = 60;
        let mut w = setup(c, ring);
        let kind = c.rng.below(3);
        let pp = [0, 100, 50][kind];
        for _ in 0..1 + c.rng.below(3) {
            let g = *c.rng.pick(&w.live_graphs());
            w.push(c, g, pp, false);
        }
        let steps = 10 + c.rng.below(if c.thorough { 120 } else { 50 });
        // how far ahead
        let far = *c.rng.pick(&[1u64, 3, 10, 60]) * w.bs as u64;
        let mut spread = 0;
        for _ in 0..steps {
            let live = w.live();
            match c.rng.below(20) {
                0 if w.nodes.len() < 8 => {
                    let g = *c.rng.pick(&w.live_graphs());
                    w.push(c, g, pp, true);
                }
                1 if live.len() > 1 => {
                    let k = *c.rng.pick(&live);
                    w.free(c, k)?;
                }
                2 => {
                    let t = SchedulingToken::new();
                    w.tokens.push((Some(t), false));
                }
                3 if !w.tokens.is_empty() => {
                    let k = c.rng.below(w.tokens.len());
                    if let Some(t) = w.tokens[k].0.take() {
                        c.note(format!("activate token {k}"));
                        t.activate_inner();
                        w.tokens[k].1 = true;
                    }
                }
                4..=13 if !live.is_empty() => {
                    let k = *c.rng.pick(&live);
                    if !w.room(w.nodes[k].graph) {
                        w.render()?;
                        continue;
                    }
                    let open: Vec<usize> = (0..w.tokens.len()).filter(|k| w.tokens[*k].0.is_some()).collect();
                    if !open.is_empty() && c.rng.chance(1, 6) {
                        let t = *c.rng.pick(&open);
                        w.send(c, k, When::Now, Some(t), 5)?;
                        continue;
                    }
                    let f = if c.rng.chance(1, 3) { spread } else { c.rng.below(far as usize) as u64 };
                    spread = f;
                    let when = match c.rng.below(8) {
                        0 => When::Now,
                        1 => When::At((w.clock + f).saturating_sub(far / 2)),
                        2..=4 => When::At(w.clock + f),
                        _ => When::After(f),
                    };
                    if c.rng.chance(1, 10) {
                        let g = w.nodes[k].graph;
                        w.send_many(c, g, when)?;
                        continue;
                    }
                    w.send(c, k, when, None, 5)?;
                }
                14 if c.rng.chance(1, 4) => {
                    let g = *c.rng.pick(&w.live_graphs());
                    w.graphs[g].edit(|_| {});
                }
                _ => {
                    w.render()?;
                    w.check_clock()?;
                }
            }
        }
        let mut guard = 0;
        while w.nodes.iter().any(|n| n.pend.iter().any(|p| p.token.is_none())) && guard < 200 {
            w.render()?;
            guard += 1;
        }
        ensure!(guard < 200, "harness", "harness: changes left in the ledger");
        w.render()?;
        w.check_clock()?;
        if w.nodes.iter().any(|n| n.applied > 0) {
            c.nontrivial();
        }
        c.count("scheduled changes applied and compared", w.nodes.iter().map(|n| n.applied).sum());
        Ok(())
}
pub fn run_c09(r: &mut Run) {
    r.rule = "A case counts when a change with a due time or token was applied and compared, also some 2^32 frames after the start; distinct by the hash of the operation log.".into();
    r.assumptions = vec![
        "changes pending at once stay below the ring buffer size and the capacity of the precise timing wrapper".into(),
        "sample rates that divide the resolution of Seconds".into(),
    ];
    r.cases("due", r.n(150000, 3000000), due);
    // the documented way of activating a token
    r.cases("activate", 1, |c| {
        let (mut g, mut p, _rx) = make::<f32>(0, 1, 4, 48000, 20);
        let sh = Shared::new(0);
        sh.record_events.store(true, SeqCst);
        #[allow(deprecated)]
        let h = g.push(P1::new(Core::new(1, false, sh.clone())));
        g.edit(|_| {});
        let t = SchedulingToken::new();
        ensure!(h.set(("alpha", 5.0f32, t.clone())).is_ok(), "valid-refused", "refused");
        crate::probe::run_any(&mut p, &[]);
        ensure!(sh.events.lock().unwrap().is_empty(), "changes", "applied before the token was activated");
        c.nontrivial();
        if let Err(e) = guarded(|| t.activate()) {
            bail!("activate-unimplemented", "SchedulingToken::activate panics: {e}");
        }
        crate::probe::run_any(&mut p, &[]);
        ensure!(sh.events.lock().unwrap().len() == 1, "changes", "not applied after the token was activated");
        Ok(())
    });
    // far in the future
    r.cases("far", r.n(120, 1500), |c| {
        let bs = c.rng.block(&[16usize, 64, 128]);
        let sr = *c.rng.pick(&[8000u32, 22050, 44100]);
        let mut w = World::new(bs, sr, 40);
        c.note(format!("bs {bs} sr {sr}"));
        w.push(c, 0, 50, false);
        w.push(c, 0, 50, false);
        let horizon = sr as u64 * (2 + c.rng.below(5) as u64);
        for _ in 0..10 {
            let k = c.rng.below(2);
            let f = c.rng.below(horizon as usize) as u64;
            let when = if c.rng.chance(1, 2) { When::At(f) } else { When::After(f) };
            w.send(c, k, when, None, 2)?;
        }
        while w.clock < horizon + 2 * bs as u64 {
            w.render()?;
            if c.rng.chance(1, 1000) && w.room(0) {
                let k = c.rng.below(2);
                w.send(c, k, When::Now, None, 2)?;
            }
        }
        // what was sent after the last block
        w.render()?;
        ensure!(w.nodes.iter().all(|n| n.pend.is_empty()), "harness", "harness: ledger not empty");
        w.check_clock()?;
        c.nontrivial();
        c.count("far changes applied", w.nodes.iter().map(|n| n.applied).sum());
        Ok(())
    });
    // the clock goes on past what 32 bits hold
    r.cases_t("clock", r.n(1, 2), 4, |c| {
        use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
        let bs = 60_000 + c.rng.below(5000);
        let sr = *c.rng.pick(&[44100u32, 48000, 96000]);
        let (mut g, mut p, _rx) = make::<f32>(0, 1, bs, sr, 60);
        let mut par = g.edit(|e| {
            let h = e.push(knaster_core_dsp::util::Constant::<f32>::new(0.0).precise_timing::<32>());
            h.to_graph_out();
            h.param("value")
        });
        let edge = 1u64 << 32;
        let mut at: Vec<u64> = [1u64 << 24, 1 << 31, edge, edge, edge, edge]
            .iter()
            .map(|e| e + c.rng.below(3 * bs) as u64 - bs as u64)
            .collect();
        at.extend([edge - 1, edge, edge + 1]);
        // one in each of the blocks that follow, whichever entry point renders it
        at.extend((1..12).map(|k| edge + (k * bs + c.rng.below(bs)) as u64));
        at.sort();
        at.dedup();
        c.note(format!("bs {bs} sr {sr} {at:?}"));
        for (i, f) in at.iter().enumerate() {
            let when = Seconds::from_samples(*f, sr as u64);
            let r = if c.rng.chance(1, 2) { par.set_at((i + 1) as f64, when) } else { par.set_after((i + 1) as f64, when) };
            ensure!(r.is_ok(), "valid-refused", "refused: {r:?}");
        }
        let mut clock = 0u64;
        let mut now = 0usize;
        while clock < edge + 13 * bs as u64 {
            crate::probe::run_any(&mut p, &[]);
            let mut ob = p.output_block();
            let o = ob.channel_as_slice_mut(0);
            let mut f = 0;
            while f < bs {
                while now < at.len() && at[now] <= clock + f as u64 {
                    now += 1;
                }
                let end = at.get(now).map_or(bs, |n| (n - clock).min(bs as u64) as usize);
                // all frames of the blocks around a change, the ends of the others
                let step = if at.iter().any(|a| a.abs_diff(clock) < 2 * bs as u64) { 1 } else { bs - 1 };
                if let Some(k) = (f..end).step_by(step).find(|k| o[*k] != now as f32) {
                    bail!("heard", "frame {} has the value {}, the {now} changes due by then leave {now}; changes at {at:?}", clock + k as u64, o[k]);
                }
                f = end;
            }
            clock += bs as u64;
            let (t, want) = (g.shared_frame_clock().get(), Seconds::from_samples(clock, sr as u64));
            ensure!(t == want, "clock", "the clock says {t:?}, {clock} frames were rendered");
        }
        c.count("frames counted past 32 bits", clock);
        c.nontrivial();
        Ok(())
    });
    // as many changes in a block as the wrapper was made for, and more
    r.cases("capacity", r.n(8000, 100000), |c| match c.rng.below(5) {
        0 => capacity::<1>(c),
        1 => capacity::<2>(c),
        2 => capacity::<3>(c),
        3 => capacity::<5>(c),
        _ => capacity::<10>(c),
    });
    // the wrappers inside the audio path: a change at a frame is heard from exactly that frame
    r.cases("heard", r.n(4000, 60000), |c| {
        use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
        let bs = c.rng.block(&[1usize, 4, 16, 64]);
        let sr = *c.rng.pick(RATES);
        let (mut g, mut p, _rx) = make::<f64>(0, 1, bs, sr, 60);
        let shape = c.rng.below(4);
        let mut par = g.edit(|e| {
            let k = || knaster_core_dsp::util::Constant::<f64>::new(0.0);
            match shape {
                0 => {
                    let h = e.push(k().precise_timing::<32>());
                    h.to_graph_out();
                    h.param("value")
                }
                1 => {
                    let h = e.push(k().wr_mul(2.0).precise_timing::<32>());
                    h.to_graph_out();
                    h.param("value")
                }
                2 => {
                    let h = e.push(k().precise_timing::<32>().wr_add(3.0));
                    h.to_graph_out();
                    h.param("value")
                }
                _ => {
                    let h = e.push(k().ar_params().smooth_params().precise_timing::<32>());
                    h.to_graph_out();
                    h.param("value")
                }
            }
        });
        let blocks = 6;
        let total = blocks * bs;
        let mut set: Vec<(usize, f64)> = vec![];
        let mut v = 0.0;
        let mut order: Vec<usize> = (0..1 + c.rng.below(10)).map(|_| c.rng.below(total)).collect();
        if c.rng.chance(1, 2) {
            order.sort();
        }
        for f in order {
            v += 1.0;
            let r = if c.rng.chance(1, 2) {
                par.set_at(v, Seconds::from_samples(f as u64, sr as u64))
            } else {
                par.set_after(v, Seconds::from_samples(f as u64, sr as u64))
            };
            ensure!(r.is_ok(), "valid-refused", "refused: {r:?}");
            set.push((f, v));
        }
        c.note(format!("shape {shape} bs {bs} {set:?}"));
        let mut got = vec![];
        for _ in 0..blocks {
            crate::probe::run_any(&mut p, &[]);
            got.extend_from_slice(&p.output_block().channel_as_slice_mut(0)[..bs]);
        }
        for (f, y) in got.iter().enumerate() {
            let x = set
                .iter()
                .enumerate()
                .filter(|(_, (at, _))| *at <= f)
                .max_by_key(|(i, (at, _))| (*at, *i))
                .map(|(_, (_, v))| *v)
                .unwrap_or(0.0);
            let want = match shape {
                1 => x * 2.0,
                2 => x + 3.0,
                _ => x,
            };
            ensure!(*y == want, "heard", "shape {shape} frame {f}: {y}, want {want}; changes {set:?}");
        }
        c.nontrivial();
        c.count("changes heard at their frame", set.len() as u64);
        Ok(())
    });
}

fn capacity<const D: usize>(c: &mut Case) -> Res {
    use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
    let bs = c.rng.block(&[4usize, 16, 64]);
    let sr = *c.rng.pick(RATES);
    let (mut g, mut p, _rx) = make::<f64>(0, 1, bs, sr, 100);
    let mut par = g.edit(|e| {
        let h = e.push(knaster_core_dsp::util::Constant::<f64>::new(0.0).precise_timing::<D>());
        h.to_graph_out();
        h.param("value")
    });
    crate::probe::run_any(&mut p, &[]);
    let (mut v, mut now, mut full) = (0.0, 0.0, 0u64);
    c.note(format!("capacity {D} bs {bs} sr {sr}"));
    for b in 1..2 + c.rng.below(6) {
        // changes at the start of the block don't have to wait
        let at_start = c.rng.chance(1, 3);
        let over = c.rng.chance(1, 4);
        let k = if over { D + c.rng.below(4) } else { c.rng.below(D + 1) };
        let mut frames: Vec<usize> = (0..k).map(|_| 1 + c.rng.below(bs - 1)).collect();
        if at_start {
            frames.push(0);
        }
        if c.rng.chance(1, 2) {
            frames.sort();
        }
        let mut sent = vec![];
        for f in frames {
            v += 1.0;
            ensure!(par.set_at(v, Seconds::from_samples((b * bs + f) as u64, sr as u64)).is_ok(), "valid-refused", "refused");
            sent.push((f, v));
        }
        c.note(format!("block {b}: {sent:?}"));
        crate::probe::run_any(&mut p, &[]);
        let got = p.output_block().channel_as_slice_mut(0)[..bs].to_vec();
        // what doesn't fit is ignored: the changes reach the node in time order
        sent.sort_by_key(|(f, _)| *f);
        let mut room = D;
        sent.retain(|(f, _)| {
            *f == 0 || {
                let fits = room > 0;
                room = room.saturating_sub(1);
                fits
            }
        });
        full += (room == 0) as u64;
        for (f, y) in got.iter().enumerate() {
            let x = sent.iter().rfind(|(at, _)| *at <= f).map_or(now, |(_, v)| *v);
            ensure!(*y == x, "capacity", "a wrapper for {D} changes, block {b} frame {f}: {y}, want {x}; changes {sent:?}");
        }
        now = *got.last().unwrap();
    }
    c.nontrivial();
    c.count("blocks with as many changes as fit", full);
    Ok(())
}

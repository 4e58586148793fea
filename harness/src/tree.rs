//! Trees of graphs with their reference model: C12 (done actions) and C13 (subgraphs).
use crate::common::*;
use crate::gm::*;
use crate::probe::*;
use crate::{bail, ensure};
use knaster_core::typenum::*;
use knaster_core::{Done, Float, PFloat};
use knaster_graph::Time;
use knaster_graph::graph::{Graph, GraphOptions, NodeId};
use knaster_graph::graph_edit::GraphEdit;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

pub struct SubG<F: Float> {
    /// its Graph handle, counters and (while it is being edited) its model
    pub sys: Sys<F>,
    pub parent: usize,
    pub node: usize,
    pub dead: bool,
}
/// graphs[0] is the outermost
pub struct Tree<F: Float> {
    pub gs: Vec<SubG<F>>,
}
#[derive(Clone)]
pub struct TreeCfg {
    pub edit: EditCfg,
    pub done: bool,
    pub subs: usize,
    pub rounds: usize,
    pub params: bool,
}
fn make_sub<F: Float>(
    e: &GraphEdit<F>,
    ins: usize,
    outs: usize,
    ring: usize,
    f: impl FnOnce(GraphEdit<F>),
) -> (NodeId, Graph<F>) {
    let o = GraphOptions::default().ring_buffer_size(ring);
    macro_rules! m {
        ($(($i:literal, $o:literal, $I:ty, $O:ty)),*) => {
            match (ins, outs) {
                $(($i, $o) => { let (h, g) = e.subgraph::<$I, $O>(o, f); (h.id(), g) })*
                _ => panic!("harness: subgraph shape"),
            }
        };
    }
    m!((0, 1, U0, U1), (0, 2, U0, U2), (0, 4, U0, U4), (1, 1, U1, U1), (1, 2, U1, U2), (2, 2, U2, U2), (3, 2, U3, U2), (2, 4, U2, U4), (4, 4, U4, U4))
}
impl<F: Float> Tree<F> {
    pub fn new(ni: usize, no: usize, bs: usize) -> Self {
        Tree { gs: vec![SubG { sys: Sys::new(ni, no, bs, 48000, 4000), parent: 0, node: 0, dead: false }] }
    }
    /// The model of graph k, wherever it is.
    pub fn model(&mut self, k: usize) -> &mut Model {
        if k == 0 {
            return &mut self.gs[0].sys.m;
        }
        let (p, n) = (self.gs[k].parent, self.gs[k].node);
        self.model(p).nodes[n].sub.as_mut().expect("harness: sub model")
    }
    pub fn dead(&self, k: usize) -> bool {
        k != 0 && (self.gs[k].dead || self.dead(self.gs[k].parent))
    }
    pub fn silenced(&mut self, k: usize) -> bool {
        self.model(k).freed || (k != 0 && { let p = self.gs[k].parent; self.silenced(p) })
    }
    /// Edit graph k through its Sys.
    pub fn with<R>(&mut self, k: usize, f: impl FnOnce(&mut Sys<F>) -> R) -> R {
        if k == 0 {
            return f(&mut self.gs[0].sys);
        }
        let m = std::mem::replace(self.model(k), Model::new(0, 0, 1));
        self.gs[k].sys.m = m;
        let r = f(&mut self.gs[k].sys);
        let m = std::mem::replace(&mut self.gs[k].sys.m, Model::new(0, 0, 1));
        *self.model(k) = m;
        r
    }
    /// Commit the edits of graph k.
    pub fn commit(&mut self, k: usize) -> usize {
        self.with(k, |s| {
            if s.g.is_some() {
                s.commit();
                s.m.committed()
            } else {
                0
            }
        })
    }
    /// Graphs whose node is not in their parent any more
    pub fn bury(&mut self) {
        for k in 1..self.gs.len() {
            let (p, n) = (self.gs[k].parent, self.gs[k].node);
            if !self.model(p).nodes[n].alive {
                self.gs[k].dead = true;
            }
        }
    }
    pub fn add_sub(&mut self, c: &mut Case, k: usize) {
        let (ni, no) = *c.rng.pick(GSHAPES);
        let bs = self.gs[0].sys.bs;
        let at = self.gs.len();
        let mut m = Model::new(ni, no, bs);
        let mut all = vec![];
        let mut salt = 1 + at as i64 * 1000;
        let filled = c.rng.below(4);
        let stateful = c.rng.chance(1, 2);
        let (id, g) = self.gs[k].sys.g.as_mut().unwrap().edit(|e| {
            make_sub(&e, ni, no, 500, |e| {
                for _ in 0..filled {
                    let (i, o) = *c.rng.pick(SHAPES);
                    let sh = Shared::new(salt as u64);
                    all.push(sh.clone());
                    let core = Core::new((salt * 1237) % 8191, stateful, sh);
                    salt += 1;
                    let id = push_probe_edit(&e, i, o, core.clone());
                    m.add(id, i, o, core, false);
                }
            })
        });
        let sys = Sys {
            g: Some(g),
            p: None,
            rx: None,
            m: Model::new(0, 0, 1),
            bs,
            sr: 48000,
            n_in: ni,
            n_out: no,
            next_salt: salt,
            all,
            sub: true,
        };
        let pm = self.model(k);
        let node = pm.add(id, ni, no, Core::new(0, false, Shared::new(0)), false);
        pm.nodes[node].sub = Some(Box::new(m));
        c.note(format!("g{at}=subgraph({ni},{no}) of g{k}, node n{node}, {filled} nodes"));
        self.gs.push(SubG { sys, parent: k, node, dead: false });
        // its outputs and inputs are used by something
        let _ = self.with(k, |s| -> Res {
            for ch in 0..no {
                if c.rng.chance(2, 3) && s.n_out > 0 {
                    let d = c.rng.below(s.n_out);
                    s.connect(Src::Node(node, ch as u16), None, d, Mode::Add)?;
                }
            }
            for ch in 0..ni {
                if s.n_in > 0 && c.rng.chance(1, 2) {
                    let i = c.rng.below(s.n_in) as u16;
                    s.connect(Src::In(i), Some(node), ch, Mode::Add)?;
                }
            }
            Ok(())
        });
    }
    pub fn push_done(&mut self, c: &mut Case, k: usize, within: usize) {
        let (i, o) = *c.rng.pick(SHAPES);
        let w = c.rng.below(6);
        let act = c.rng.below(3) as u8;
        let repeat = c.rng.chance(1, 4);
        let extra = c.rng.below(2) as i64;
        let at = if c.rng.chance(1, 5) { -1 } else { c.rng.below(within) as i64 };
        let immortal = c.rng.chance(1, 8);
        let stateful = c.rng.chance(1, 2);
        let d = [Done::None, Done::FreeSelf, Done::FreeParent][act as usize];
        let wire = c.rng.chance(2, 3);
        let r = &mut c.rng;
        let n = self.with(k, |s| {
            let core = s.core(stateful);
            let sh = core.shared.clone();
            sh.done_extra.store(extra as u64, SeqCst);
            sh.done_repeat.store(repeat, SeqCst);
            sh.done_at_frame.store(at, SeqCst);
            let id = s.g.as_mut().unwrap().edit(|e| push_probe_done_wrapped(&e, i, o, core.clone(), d, w));
            if immortal {
                s.g.as_mut().unwrap().set_mortality(id, false).expect("set_mortality of a live node");
            }
            let n = s.m.add(id, i, o, core, w == 1 || w == 5);
            s.m.committed();
            s.m.nodes[n].done = if at < 0 { None } else { Some(MDone { at, extra, repeat, action: act }) };
            s.m.nodes[n].immortal = immortal;
            if wire && o > 0 {
                let d = r.below(s.n_out);
                s.connect(Src::Node(n, r.below(o) as u16), None, d, Mode::Add).expect("valid connection");
            }
            n
        });
        c.note(format!("g{k}.n{n}=push({i},{o}) {d:?} done at {at}+{extra} repeat={repeat} immortal={immortal} wrapper {w}"));
    }
    pub fn set_some(&mut self, c: &mut Case, k: usize, done: bool) {
        let alive = self.model(k).alive();
        if alive.is_empty() {
            return;
        }
        let n = *c.rng.pick(&alive);
        let m = self.model(k);
        if m.nodes[n].sub.is_some() {
            return;
        }
        let id = m.nodes[n].id;
        let first = m.nodes[n].core.shared.frames.load(SeqCst) == 0;
        let _ = first;
        if done && m.nodes[n].done.is_some() && c.rng.chance(1, 2) {
            let a = c.rng.below(3) as u8;
            m.nodes[n].done.as_mut().unwrap().action = a;
            let g = self.gs[k].sys.g.as_ref().unwrap();
            g.set(id, "done_action", [Done::None, Done::FreeSelf, Done::FreeParent][a as usize], Time::asap()).expect("done_action exists");
            c.note(format!("g{k}.n{n}.done_action={a}"));
            return;
        }
        let p = c.rng.below(NPARAMS);
        if !m.nodes[n].links[p].is_empty() {
            return;
        }
        let v = c.rng.range(-500, 500);
        m.nodes[n].core.params[p] = v;
        let g = self.gs[k].sys.g.as_ref().unwrap();
        if c.rng.chance(1, 2) {
            g.set(id, p, v as PFloat, Time::asap()).expect("parameter exists");
        } else {
            g.set(id, ["alpha", "beta", "gamma"][p], v as PFloat, Time::asap()).expect("parameter exists");
        }
        c.note(format!("g{k}.n{n}.{p}={v}"));
    }
    /// Render in both and compare everything.
    pub fn render(&mut self, c: &mut Case) -> Res {
        self.gs[0].sys.render(&mut c.rng)?;
        for k in 1..self.gs.len() {
            self.gs[k].sys.errors()?;
        }
        let bs = self.gs[0].sys.bs as u64;
        for k in 0..self.gs.len() {
            let dead = self.dead(k);
            let m = self.model(k);
            for (i, n) in m.nodes.iter().enumerate() {
                if n.sub.is_none() {
                    let f = n.core.shared.frames.load(SeqCst);
                    ensure!(
                        f == n.blocks * bs,
                        "frames",
                        "g{k}.n{i} ({}, graph {}) has processed {f} frames, {} were due",
                        if n.alive { "live" } else { "freed" },
                        if dead { "freed" } else { "live" },
                        n.blocks * bs
                    );
                    let d = n.core.shared.drops.load(SeqCst);
                    ensure!(d <= 1, "double-drop", "g{k}.n{i} was dropped {d} times");
                    ensure!(d == 0 || !n.alive || dead, "dropped-live", "g{k}.n{i} was dropped but not freed");
                }
            }
        }
        Ok(())
    }
    pub fn shared(&mut self) -> Vec<Arc<Shared>> {
        self.gs.iter().flat_map(|g| g.sys.all.iter().cloned()).collect()
    }
}

pub fn history<F: Float>(c: &mut Case, cfg: &TreeCfg) -> Res {
    let (ni, no) = *c.rng.pick(GSHAPES);
    let bs = c.rng.block(&[1usize, 2, 3, 4, 8, 16]);
    c.note(format!("graph({ni},{no}) bs={bs} F={}", std::any::type_name::<F>()));
    let mut t = Tree::<F>::new(ni, no, bs);
    let (mut frees, mut silenced, mut compared, mut depth) = (0usize, 0usize, 0usize, 0usize);
    for _ in 0..cfg.rounds {
        let edits = c.rng.below(8);
        for _ in 0..edits {
            let live: Vec<usize> = (0..t.gs.len()).filter(|k| !t.dead(*k) && t.gs[*k].sys.g.is_some()).collect();
            // deeper graphs as often as the outermost
            let k = *c.rng.pick(&live);
            if t.model(k).pending() {
                frees += t.commit(k);
                t.bury();
                if t.dead(k) {
                    continue;
                }
            }
            match c.rng.below(10) {
                0..=1 if t.gs.len() <= cfg.subs => t.add_sub(c, k),
                2..=3 if cfg.done => t.push_done(c, k, bs * 10),
                _ => {
                    c.note(format!("in g{k}"));
                    t.with(k, |s| random_edit(s, c, &cfg.edit))?;
                    t.bury();
                }
            }
        }
        // the handle of a graph may go at any time
        for k in 1..t.gs.len() {
            if t.dead(k) && t.gs[k].sys.g.is_some() && c.rng.chance(1, 3) {
                t.gs[k].sys.g = None;
                c.note(format!("drop handle of g{k}"));
            }
        }
        if cfg.params {
            for _ in 0..c.rng.below(4) {
                let live: Vec<usize> = (0..t.gs.len()).filter(|k| !t.dead(*k) && t.gs[*k].sys.g.is_some()).collect();
                let k = *c.rng.pick(&live);
                if !t.silenced(k) {
                    t.set_some(c, k, cfg.done);
                }
            }
        }
        // commit everything, in any order
        let mut order: Vec<usize> = (0..t.gs.len()).filter(|k| !t.dead(*k)).collect();
        for i in 0..order.len() {
            let j = i + c.rng.below(order.len() - i);
            order.swap(i, j);
        }
        for k in order {
            if !t.dead(k) {
                frees += t.commit(k);
                t.bury();
            }
        }
        for _ in 0..1 + c.rng.below(3) {
            t.render(c)?;
            compared += bs * no;
            if t.gs[0].sys.m.freed {
                silenced += 1;
            }
        }
        for k in 0..t.gs.len() {
            if t.model(k).freed {
                silenced += 1;
            }
            let mut d = 0;
            let mut a = k;
            while a != 0 {
                d += 1;
                a = t.gs[a].parent;
            }
            depth = depth.max(d);
        }
    }
    // everything goes, each node once
    let all = t.shared();
    let mut gs: Vec<Option<Graph<F>>> = t.gs.iter_mut().map(|g| g.sys.g.take()).collect();
    let mut p = t.gs[0].sys.p.take();
    while p.is_some() || gs.iter().any(|g| g.is_some()) {
        let k = c.rng.below(gs.len() + 1);
        if k == gs.len() { p = None } else { gs[k] = None }
    }
    for s in &all {
        let d = s.drops.load(SeqCst);
        ensure!(d == 1, "drops", "node {} was dropped {d} times after everything was dropped", s.id);
    }
    c.count("output samples compared with the evaluation", compared as u64);
    c.count("nodes freed by done actions", frees as u64);
    c.count("graph rounds silenced by a done action", silenced as u64);
    c.count("subgraphs", t.gs.len() as u64 - 1);
    if depth >= 3 {
        c.count("histories with graphs three levels deep", 1);
    }
    if if cfg.done { frees + silenced > 0 } else { t.gs.len() > 1 } {
        c.nontrivial();
    }
    Ok(())
}
pub fn cfg(done: bool, feedback: bool, links: bool, subs: usize) -> TreeCfg {
    TreeCfg {
        edit: EditCfg {
            feedback,
            fb_only: false,
            free: true,
            links,
            stateful: true,
            max_nodes: 10,
            shapes: SHAPES.to_vec(),
            disconnect: true,
        },
        done,
        subs,
        rounds: 8,
        params: true,
    }
}
pub fn run_c12(r: &mut Run) {
    r.rule = "random histories of probe nodes that report done at a chosen frame (with and without repeating it, through every kind of wrapper, in the middle or at the end of a block), with every done action, actions changed while running and nodes that may not be freed, in trees of graphs; the outcome - which nodes are gone at the commit, which graph is silent from which frame - is part of the reference model every rendered sample, every node's frame count and every drop is compared with; non-trivial: a done action took place; distinct by history".into();
    let flat = cfg(true, false, false, 0);
    r.cases("flat", r.n(20000, 400000), |c| if c.rng.chance(1, 2) { history::<f32>(c, &flat) } else { history::<f64>(c, &flat) });
    let rich = cfg(true, true, true, 0);
    r.cases("rich", r.n(10000, 300000), |c| if c.rng.chance(1, 2) { history::<f32>(c, &rich) } else { history::<f64>(c, &rich) });
    let deep = cfg(true, true, true, 5);
    r.cases("nested", r.n(15000, 400000), |c| if c.rng.chance(1, 2) { history::<f32>(c, &deep) } else { history::<f64>(c, &deep) });
}
pub fn run_c13(r: &mut Run) {
    r.rule = "random histories of edits, parameter changes and frees in every graph of trees of nested graphs; every sample of the outermost graph is compared exactly with an evaluation in which a graph node is the evaluation of its contents on the signals connected to it, and every node's frame count and drop with what is due; non-trivial: a nested graph; distinct by history".into();
    let a = cfg(false, false, false, 6);
    r.cases("edits", r.n(20000, 500000), |c| if c.rng.chance(1, 2) { history::<f32>(c, &a) } else { history::<f64>(c, &a) });
    let b = cfg(false, true, true, 6);
    r.cases("rich", r.n(20000, 500000), |c| if c.rng.chance(1, 2) { history::<f32>(c, &b) } else { history::<f64>(c, &b) });
}

//! Reference model of a graph of probes, and the system under test paired with it.
use crate::common::*;
use crate::probe::*;
use crate::{bail, ensure};
use knaster_core::Float;
use knaster_core::log::ArLogReceiver;
use knaster_core::typenum::*;
use knaster_graph::graph::{Graph, GraphError, NodeId, NodeOrGraph};
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use knaster_graph::Block;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Src {
    In(u16),
    Node(usize, u16),
    /// node, channel, clock at which the connection was made (silent in its first block)
    Fb(usize, u16, u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Add,
    Replace,
    FbAdd,
    FbReplace,
}
#[derive(Clone)]
pub struct MNode {
    pub id: NodeId,
    pub ins: usize,
    pub outs: usize,
    pub core: Core,
    pub alive: bool,
    pub ar: bool,
    pub inputs: Vec<Vec<Src>>,
    pub links: Vec<Vec<(usize, u16)>>,
    pub out: Vec<Vec<i64>>,
    pub prev: Vec<Vec<i64>>,
    pub blocks: u64,
    pub first_clock: i64,
    /// this node is a graph
    pub sub: Option<Box<Model>>,
    pub done: Option<MDone>,
    /// to be freed by the next commit
    pub finished: bool,
    pub immortal: bool,
}
/// When a node reports done, and what happens then.
#[derive(Clone, Debug)]
pub struct MDone {
    pub at: i64,
    pub extra: i64,
    pub repeat: bool,
    /// 0: nothing, 1: free itself, 2: free its graph
    pub action: u8,
}
#[derive(Clone)]
pub struct Model {
    /// silent for good
    pub freed: bool,
    /// frame of the block from which it was freed
    pub freed_from: Option<usize>,

    pub nodes: Vec<MNode>,
    pub outputs: Vec<Vec<Src>>,
    pub bs: usize,
    pub n_in: usize,
    pub clock: u64,
}
impl Model {
    pub fn new(n_in: usize, n_out: usize, bs: usize) -> Self {
        Model { freed: false, freed_from: None, nodes: vec![], outputs: vec![vec![]; n_out], bs, n_in, clock: 0 }
    }
    pub fn alive(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|i| self.nodes[*i].alive).collect()
    }
    pub fn add(&mut self, id: NodeId, ins: usize, outs: usize, core: Core, ar: bool) -> usize {
        let z = vec![vec![0; self.bs]; outs];
        self.nodes.push(MNode {
            id,
            ins,
            outs,
            core,
            alive: true,
            ar,
            inputs: vec![vec![]; ins],
            links: vec![vec![]; NPARAMS],
            out: z.clone(),
            prev: z,
            blocks: 0,
            first_clock: -1,
            sub: None,
            done: None,
            finished: false,
            immortal: false,
        });
        self.nodes.len() - 1
    }
    /// is there a non-feedback path from `from` to `to`?
    pub fn has_path(&self, from: usize, to: usize) -> bool {
        let mut seen = vec![false; self.nodes.len()];
        let mut st = vec![to];
        while let Some(n) = st.pop() {
            if n == from {
                return true;
            }
            if std::mem::replace(&mut seen[n], true) {
                continue;
            }
            for c in &self.nodes[n].inputs {
                for s in c {
                    if let Src::Node(k, _) = s {
                        st.push(*k);
                    }
                }
            }
            for c in &self.nodes[n].links {
                for (k, _) in c {
                    st.push(*k);
                }
            }
        }
        false
    }
    pub fn connect(&mut self, src: Src, dst: Option<usize>, dch: usize, mode: Mode) {
        let src = match (src, mode) {
            (Src::Node(n, c), Mode::FbAdd | Mode::FbReplace) if dst.is_some() => Src::Fb(n, c, self.clock),
            (s, _) => s,
        };
        let list = match dst {
            Some(d) => &mut self.nodes[d].inputs[dch],
            None => &mut self.outputs[dch],
        };
        if matches!(mode, Mode::Replace | Mode::FbReplace) {
            list.clear();
        }
        list.push(src);
    }
    pub fn disc_in(&mut self, dst: Option<usize>, dch: usize) {
        match dst {
            Some(d) => self.nodes[d].inputs[dch].clear(),
            None => self.outputs[dch].clear(),
        }
    }
    pub fn disc_out(&mut self, src: Src) {
        let m = |s: &Src| match (*s, src) {
            (Src::In(a), Src::In(b)) => a == b,
            (Src::Node(n, c) | Src::Fb(n, c, _), Src::Node(n2, c2)) => n == n2 && c == c2,
            _ => false,
        };
        for n in &mut self.nodes {
            for c in &mut n.inputs {
                c.retain(|s| !m(s));
            }
            if let Src::Node(n2, c2) = src {
                for c in &mut n.links {
                    c.retain(|s| *s != (n2, c2));
                }
            }
        }
        for c in &mut self.outputs {
            c.retain(|s| !m(s));
        }
    }
    pub fn free(&mut self, k: usize) {
        self.nodes[k].alive = false;
        for c in &mut self.nodes[k].inputs {
            c.clear();
        }
        for c in &mut self.nodes[k].links {
            c.clear();
        }
        for n in &mut self.nodes {
            for c in &mut n.inputs {
                c.retain(|s| !matches!(s, Src::Node(n, _) | Src::Fb(n, _, _) if *n == k));
            }
            for c in &mut n.links {
                c.retain(|s| s.0 != k);
            }
        }
        for c in &mut self.outputs {
            c.retain(|s| !matches!(s, Src::Node(n, _) | Src::Fb(n, _, _) if *n == k));
        }
    }
    fn order(&self) -> Vec<usize> {
        // plain recursive topological order over non-feedback edges
        fn visit(m: &Model, n: usize, seen: &mut Vec<bool>, out: &mut Vec<usize>) {
            if std::mem::replace(&mut seen[n], true) {
                return;
            }
            for c in &m.nodes[n].inputs {
                for s in c {
                    if let Src::Node(k, _) = s {
                        visit(m, *k, seen, out);
                    }
                }
            }
            for c in &m.nodes[n].links {
                for (k, _) in c {
                    visit(m, *k, seen, out);
                }
            }
            out.push(n);
        }
        let mut seen = vec![false; self.nodes.len()];
        let mut out = vec![];
        for n in self.alive() {
            visit(self, n, &mut seen, &mut out);
        }
        out
    }
    fn sum(&self, list: &[Src], f: usize, inputs: &[Vec<i64>]) -> i64 {
        self.sum_at(list, f, inputs, self.clock)
    }
    fn sum_at(&self, list: &[Src], f: usize, inputs: &[Vec<i64>], clock: u64) -> i64 {
        list.iter()
            .map(|s| match s {
                Src::In(c) => inputs[*c as usize][f],
                Src::Node(n, c) => self.nodes[*n].out[*c as usize][f],
                Src::Fb(_, _, birth) if *birth == clock => 0,
                Src::Fb(n, c, _) => self.nodes[*n].prev[*c as usize][f],
            })
            .sum()
    }
    /// Evaluate one block.
    pub fn render(&mut self, inputs: &[Vec<i64>]) -> Vec<Vec<i64>> {
        if self.freed {
            self.clock += self.bs as u64;
            return vec![vec![0; self.bs]; self.outputs.len()];
        }
        let mut remove_from: Option<usize> = None;
        for n in &mut self.nodes {
            std::mem::swap(&mut n.out, &mut n.prev);
        }
        for k in self.order() {
            let mut outs = vec![vec![0; self.bs]; self.nodes[k].outs];
            if let Some(mut sub) = self.nodes[k].sub.take() {
                let ins: Vec<Vec<i64>> = (0..self.nodes[k].ins)
                    .map(|c| (0..self.bs).map(|f| self.sum(&self.nodes[k].inputs[c], f, inputs)).collect())
                    .collect();
                self.nodes[k].out = sub.render(&ins);
                self.nodes[k].finished |= sub.freed;
                self.nodes[k].sub = Some(sub);
                self.nodes[k].blocks += 1;
                continue;
            }
            for f in 0..self.bs {
                let ins: Vec<i64> =
                    (0..self.nodes[k].ins).map(|c| self.sum(&self.nodes[k].inputs[c], f, inputs)).collect();
                for p in 0..NPARAMS {
                    if !self.nodes[k].links[p].is_empty() {
                        let v = self.nodes[k].links[p]
                            .iter()
                            .map(|(n, c)| self.nodes[*n].out[*c as usize][f])
                            .sum();
                        self.nodes[k].core.params[p] = v;
                    }
                }
                let mut o = vec![0; self.nodes[k].outs];
                let c = &mut self.nodes[k].core;
                probe_frame(c.salt, &mut c.acc, c.stateful, &c.params, &ins, &mut o);
                for (j, v) in o.into_iter().enumerate() {
                    outs[j][f] = v;
                }
            }
            if self.nodes[k].first_clock < 0 {
                self.nodes[k].first_clock = self.clock as i64;
            }
            self.nodes[k].out = outs;
            let n = &mut self.nodes[k];
            let before = n.blocks as i64 * self.bs as i64;
            if let Some(d) = &n.done {
                let off = if d.at < before && d.repeat {
                    Some(0)
                } else if d.at >= before && d.at < before + self.bs as i64 {
                    Some((d.at - before + d.extra) as usize)
                } else {
                    None
                };
                match (off, d.action) {
                    (Some(_), 1) => n.finished = true,
                    (Some(o), 2) => remove_from = Some(remove_from.map_or(o, |r| r.min(o))),
                    _ => (),
                }
            }
            n.blocks += 1;
        }
        self.freed_from = remove_from;
        self.freed = remove_from.is_some();
        let live = remove_from.unwrap_or(self.bs).min(self.bs);
        self.clock += self.bs as u64;
        (0..self.outputs.len())
            .map(|c| {
                (0..self.bs)
                    .map(|f| if f < live { self.sum_at(&self.outputs[c], f, inputs, self.clock - self.bs as u64) } else { 0 })
                    .collect()
            })
            .collect()
    }
    /// What a commit of this graph does about the nodes that finished.
    pub fn committed(&mut self) -> usize {
        let done: Vec<usize> =
            self.alive().into_iter().filter(|k| self.nodes[*k].finished && !self.nodes[*k].immortal).collect();
        for k in &done {
            self.free(*k);
        }
        done.len()
    }
    pub fn pending(&self) -> bool {
        self.nodes.iter().any(|n| n.alive && n.finished && !n.immortal)
    }
}

/// Graph + processor + model.
pub struct Sys<F: Float> {
    pub g: Option<Graph<F>>,
    pub p: Option<AudioProcessor<F>>,
    pub rx: Option<ArLogReceiver<U1>>,
    pub m: Model,
    pub bs: usize,
    pub sr: u32,
    pub n_in: usize,
    pub n_out: usize,
    pub next_salt: i64,
    pub all: Vec<Arc<Shared>>,
    pub sub: bool,
}
pub fn make<F: Float>(
    n_in: usize,
    n_out: usize,
    bs: usize,
    sr: u32,
    ring: usize,
) -> (Graph<F>, AudioProcessor<F>, ArLogReceiver<U1>) {
    let o = AudioProcessorOptions {
        block_size: bs,
        sample_rate: sr,
        ring_buffer_size: ring,
        ..Default::default()
    };
    match (n_in, n_out) {
        (0, 1) => AudioProcessor::<F>::new::<U0, U1>(o),
        (0, 2) => AudioProcessor::<F>::new::<U0, U2>(o),
        (0, 4) => AudioProcessor::<F>::new::<U0, U4>(o),
        (1, 1) => AudioProcessor::<F>::new::<U1, U1>(o),
        (1, 2) => AudioProcessor::<F>::new::<U1, U2>(o),
        (2, 2) => AudioProcessor::<F>::new::<U2, U2>(o),
        (3, 2) => AudioProcessor::<F>::new::<U3, U2>(o),
        (2, 4) => AudioProcessor::<F>::new::<U2, U4>(o),
        (4, 4) => AudioProcessor::<F>::new::<U4, U4>(o),
        (0, 8) => AudioProcessor::<F>::new::<U0, U8>(o),
        (8, 8) => AudioProcessor::<F>::new::<U8, U8>(o),
        (5, 16) => AudioProcessor::<F>::new::<U5, U16>(o),
        (16, 1) => AudioProcessor::<F>::new::<U16, U1>(o),
        _ => panic!("harness: graph shape"),
    }
}
pub const WIDE_GSHAPES: &[(usize, usize)] = &[(0, 8), (8, 8), (5, 16), (16, 1), (0, 2), (2, 2)];
pub const GSHAPES: &[(usize, usize)] =
    &[(0, 1), (0, 2), (0, 4), (1, 1), (1, 2), (2, 2), (3, 2), (2, 4), (4, 4)];

pub fn ng(n: NodeId) -> NodeOrGraph {
    NodeOrGraph::Node(n)
}
impl<F: Float> Sys<F> {
    pub fn new(n_in: usize, n_out: usize, bs: usize, sr: u32, ring: usize) -> Self {
        let (g, p, rx) = make::<F>(n_in, n_out, bs, sr, ring);
        Sys {
            g: Some(g),
            p: Some(p),
            rx: Some(rx),
            m: Model::new(n_in, n_out, bs),
            bs,
            sr,
            n_in,
            n_out,
            next_salt: 1,
            all: vec![],
            sub: false,
        }
    }
    pub fn core(&mut self, stateful: bool) -> Core {
        let k = self.next_salt;
        self.next_salt += 1;
        let sh = Shared::new(k as u64);
        self.all.push(sh.clone());
        Core::new((k * 1237) % 8191, stateful, sh)
    }
    pub fn push(&mut self, ins: usize, outs: usize, stateful: bool) -> usize {
        let c = self.core(stateful);
        let id = push_probe_raw(self.g.as_mut().unwrap(), ins, outs, c.clone());
        self.m.add(id, ins, outs, c, false)
    }
    pub fn push_ar(&mut self, ins: usize, outs: usize, stateful: bool) -> usize {
        let c = self.core(stateful);
        let id = self.g.as_mut().unwrap().edit(|g| push_probe_ar(g_ref(&g), ins, outs, c.clone()));
        self.m.add(id, ins, outs, c, true)
    }
    pub fn nid(&self, k: usize) -> NodeId {
        self.m.nodes[k].id
    }
    pub fn src_of(&self, s: Src) -> (NodeOrGraph, u16) {
        match s {
            Src::In(c) => (NodeOrGraph::Graph, c),
            Src::Node(n, c) | Src::Fb(n, c, _) => (ng(self.m.nodes[n].id), c),
        }
    }
    pub fn dst_of(&self, d: Option<usize>) -> NodeOrGraph {
        match d {
            Some(k) => ng(self.m.nodes[k].id),
            None => NodeOrGraph::Graph,
        }
    }
    /// real connection only; the caller keeps the model in step
    pub fn real_connect(
        &mut self,
        src: Src,
        dst: Option<usize>,
        dch: usize,
        mode: Mode,
    ) -> Result<(), GraphError> {
        let (s, sc) = self.src_of(src);
        let d = self.dst_of(dst);
        let g = self.g.as_mut().unwrap();
        match mode {
            Mode::Add => g.connect2(s, sc, dch as u16, d),
            Mode::Replace => g.connect2_replace(s, sc, dch as u16, d),
            Mode::FbAdd => g.connect2_feedback(s, sc, dch as u16, d),
            Mode::FbReplace => g.connect2_feedback_replace(s, sc, dch as u16, d),
        }
    }
    pub fn connect(&mut self, src: Src, dst: Option<usize>, dch: usize, mode: Mode) -> Res {
        if let Err(e) = self.real_connect(src, dst, dch, mode) {
            bail!("valid-refused", "valid connection {src:?} -> {dst:?}[{dch}] {mode:?} refused: {e}");
        }
        self.m.connect(src, dst, dch, mode);
        Ok(())
    }
    pub fn disc_in(&mut self, dst: Option<usize>, dch: usize) -> Res {
        let d = self.dst_of(dst);
        if let Err(e) = self.g.as_mut().unwrap().disconnect_input_to_sink(dch as u16, d) {
            bail!("valid-refused", "valid disconnect of input {dst:?}[{dch}] refused: {e}");
        }
        self.m.disc_in(dst, dch);
        Ok(())
    }
    pub fn disc_out(&mut self, src: Src) -> Res {
        let (s, sc) = self.src_of(src);
        if let Err(e) = self.g.as_mut().unwrap().disconnect_output_from_source(s, sc) {
            bail!("valid-refused", "valid disconnect of output {src:?} refused: {e}");
        }
        self.m.disc_out(src);
        Ok(())
    }
    /// commits
    pub fn free(&mut self, k: usize) -> Res {
        let id = self.nid(k);
        if let Err(e) = self.g.as_mut().unwrap().edit(|g| g.free_node(id)) {
            bail!("valid-refused", "freeing live node {k} refused: {e}");
        }
        self.m.free(k);
        Ok(())
    }
    /// All in one edit.
    pub fn free_many(&mut self, ks: &[usize]) -> Res {
        let ids: Vec<NodeId> = ks.iter().map(|k| self.nid(*k)).collect();
        let mut err = None;
        self.g.as_mut().unwrap().edit(|g| {
            for id in &ids {
                if let Err(e) = g.free_node(*id) {
                    err = Some(format!("{e}"));
                }
            }
        });
        if let Some(e) = err {
            bail!("valid-refused", "freeing {} live nodes in one edit refused: {e}", ks.len());
        }
        for k in ks {
            self.m.free(*k);
        }
        Ok(())
    }
    pub fn commit(&mut self) {
        self.g.as_mut().unwrap().edit(|_| {});
    }
    /// Render a block in both and compare.
    pub fn render(&mut self, rng: &mut Rng) -> Res {
        let inputs: Vec<Vec<i64>> =
            (0..self.n_in).map(|_| (0..self.bs).map(|_| rng.range(-4000, 4000)).collect()).collect();
        let got = self.render_real(&inputs);
        let want = self.m.render(&inputs);
        self.compare(&got, &want)
    }
    pub fn render_real(&mut self, inputs: &[Vec<i64>]) -> Vec<Vec<f64>> {
        let fin: Vec<Vec<F>> =
            inputs.iter().map(|c| c.iter().map(|v| F::new(*v as f64)).collect()).collect();
        let refs: Vec<&[F]> = fin.iter().map(|v| &v[..]).collect();
        let p = self.p.as_mut().unwrap();
        ON_AUDIO.with(|a| a.set(true));
        crate::probe::run_any(&mut *p, &refs);
        ON_AUDIO.with(|a| a.set(false));
        let bs = self.bs;
        let mut ob = p.output_block();
        (0..self.n_out)
            .map(|c| ob.channel_as_slice_mut(c)[..bs].iter().map(|v| Float::to_f64(*v)).collect())
            .collect()
    }
    pub fn compare(&self, got: &[Vec<f64>], want: &[Vec<i64>]) -> Res {
        for c in 0..self.n_out {
            for f in 0..self.bs {
                if got[c][f] != want[c][f] as f64 {
                    bail!(
                        "output",
                        "graph output {c} frame {f} of the block at clock {}: rendered {}, evaluation of the graph gives {} (sources {:?})",
                        self.m.clock - self.bs as u64,
                        got[c][f],
                        want[c][f],
                        self.m.outputs[c]
                    );
                }
            }
        }
        self.errors()
    }
    pub fn errors(&self) -> Res {
        for s in &self.all {
            let e = s.errors.lock().unwrap();
            if let Some(e) = e.first() {
                bail!("probe", "node {}: {e}", s.id);
            }
            ensure!(!s.after_drop.load(SeqCst), "probe", "node {} processed after drop", s.id);
            ensure!(
                !s.dropped_on_audio.load(SeqCst),
                "probe",
                "node {} dropped while rendering",
                s.id
            );
        }
        Ok(())
    }
}
pub fn g_ref<'x, 'y, F: Float>(
    g: &'x knaster_graph::graph_edit::GraphEdit<'y, F>,
) -> &'x knaster_graph::graph_edit::GraphEdit<'y, F> {
    g
}

/// One random structural edit that is valid in the model. Returns a description.
#[derive(Clone)]
pub struct EditCfg {
    pub feedback: bool,
    /// node to node connections are feedback connections
    pub fb_only: bool,
    pub free: bool,
    pub links: bool,
    pub stateful: bool,
    pub max_nodes: usize,
    pub shapes: Vec<(usize, usize)>,
    pub disconnect: bool,
}
pub fn random_edit<F: Float>(s: &mut Sys<F>, c: &mut Case, cfg: &EditCfg) -> Res {
    let alive = s.m.alive();
    let r = c.rng.below(100);
    if alive.len() < 2 || (r < 18 && alive.len() < cfg.max_nodes) {
        let (i, o) = *c.rng.pick(&cfg.shapes);
        let st = cfg.stateful && c.rng.chance(2, 3);
        let k = if cfg.links && c.rng.chance(1, 2) { s.push_ar(i, o, st) } else { s.push(i, o, st) };
        c.note(format!("n{k}=push({i},{o})"));
        return Ok(());
    }
    if r < 70 {
        // connect something valid
        for _ in 0..8 {
            let dst = if c.rng.chance(1, 4) { None } else { Some(*c.rng.pick(&alive)) };
            let nd = match dst {
                Some(d) => s.m.nodes[d].ins,
                None => s.n_out,
            };
            if nd == 0 {
                continue;
            }
            let dch = c.rng.below(nd);
            let src = if s.n_in > 0 && c.rng.chance(1, 5) {
                Src::In(c.rng.below(s.n_in) as u16)
            } else {
                let n = *c.rng.pick(&alive);
                if s.m.nodes[n].outs == 0 {
                    continue;
                }
                Src::Node(n, c.rng.below(s.m.nodes[n].outs) as u16)
            };
            let mut mode = if c.rng.chance(1, 3) { Mode::Replace } else { Mode::Add };
            if let (Src::Node(a, _), Some(b)) = (src, dst) {
                if cfg.feedback && (cfg.fb_only || c.rng.chance(1, 3)) {
                    mode = if mode == Mode::Add { Mode::FbAdd } else { Mode::FbReplace };
                } else if s.m.has_path(b, a) {
                    continue;
                }
            }
            if cfg.feedback && (dst.is_none() || matches!(src, Src::In(_))) && c.rng.chance(1, 4) {
                // to or from the graph itself a feedback connection is made without the delay
                mode = if mode == Mode::Add { Mode::FbAdd } else { Mode::FbReplace };
                c.count("feedback asked for at a graph input or output", 1);
            }
            c.note(format!("{src:?}->{dst:?}[{dch}] {mode:?}"));
            return s.connect(src, dst, dch, mode);
        }
        return Ok(());
    }
    if cfg.links && r < 78 {
        let sinks: Vec<usize> = alive.iter().copied().filter(|k| s.m.nodes[*k].ar).collect();
        if !sinks.is_empty() {
            for _ in 0..4 {
                let d = *c.rng.pick(&sinks);
                let n = *c.rng.pick(&alive);
                if s.m.nodes[n].outs == 0 || s.m.has_path(d, n) {
                    continue;
                }
                let ch = c.rng.below(s.m.nodes[n].outs) as u16;
                let p = c.rng.below(NPARAMS);
                return link(s, c, n, ch, d, p);
            }
        }
        return Ok(());
    }
    if r < 88 && cfg.disconnect {
        if c.rng.chance(1, 2) {
            let dst = if c.rng.chance(1, 3) { None } else { Some(*c.rng.pick(&alive)) };
            let nd = match dst {
                Some(d) => s.m.nodes[d].ins,
                None => s.n_out,
            };
            if nd > 0 {
                let dch = c.rng.below(nd);
                c.note(format!("disc_in {dst:?}[{dch}]"));
                return s.disc_in(dst, dch);
            }
        } else {
            let src = if s.n_in > 0 && c.rng.chance(1, 3) {
                Src::In(c.rng.below(s.n_in) as u16)
            } else {
                let n = *c.rng.pick(&alive);
                if s.m.nodes[n].outs == 0 {
                    return Ok(());
                }
                Src::Node(n, c.rng.below(s.m.nodes[n].outs) as u16)
            };
            c.note(format!("disc_out {src:?}"));
            return s.disc_out(src);
        }
        return Ok(());
    }
    if cfg.free && alive.len() > 2 && r < 96 {
        let k = *c.rng.pick(&alive);
        if s.m.nodes[k].immortal {
            return Ok(());
        }
        c.note(format!("free n{k}"));
        return s.free(k);
    }
    Ok(())
}
pub fn link<F: Float>(s: &mut Sys<F>, c: &mut Case, n: usize, ch: u16, d: usize, p: usize) -> Res {
    let replace = c.rng.chance(1, 2);
    let (sid, did) = (s.nid(n), s.nid(d));
    let names = ["alpha", "beta", "gamma"];
    let by_name = c.rng.chance(1, 2);
    let g = s.g.as_mut().unwrap();
    let r = match (replace, by_name) {
        (true, true) => g.connect_replace_to_parameter(sid, ch, names[p], did),
        (true, false) => g.connect_replace_to_parameter(sid, ch, p, did),
        (false, true) => g.connect_to_parameter(sid, ch, names[p], did),
        (false, false) => g.connect_to_parameter(sid, ch, p, did),
    };
    c.note(format!("link n{n}.{ch} -> n{d}.{} replace={replace}", names[p]));
    if let Err(e) = r {
        bail!("valid-refused", "valid parameter link refused: {e}");
    }
    if replace {
        s.m.nodes[d].links[p].clear();
    }
    s.m.nodes[d].links[p].push((n, ch));
    Ok(())
}

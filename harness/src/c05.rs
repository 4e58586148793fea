//! C05: every node is dropped exactly once, after its last use, and reclaimed.
use crate::alloc;
use crate::c02::accounting;
use crate::common::*;
use crate::gm::*;
use crate::probe::*;
use crate::{bail, ensure};
use knaster_core::typenum::*;
use knaster_core::{Block, Done, Float, PFloat};
use knaster_graph::SchedulingToken;
use knaster_graph::graph::{Graph, GraphOptions, NodeId, NodeOrGraph};
use knaster_graph::handle::HandleTrait;
use knaster_graph::processor::AudioProcessor;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

fn drops(s: &Shared) -> u64 {
    s.drops.load(SeqCst)
}

/// Edit history with frees: freed nodes stop at once and are dropped within two further
/// render-and-commit rounds, live ones are not.
pub fn history<F: Float>(c: &mut Case, rounds: usize) -> Res {
    let cfg = EditCfg {
        feedback: c.rng.chance(1, 3),
        fb_only: false,
        free: true,
        links: c.rng.chance(1, 3),
        stateful: true,
        max_nodes: *c.rng.pick(&[4, 12, 30]),
        shapes: SHAPES.to_vec(),
        disconnect: true,
    };
    let (ni, no) = *c.rng.pick(GSHAPES);
    let bs = c.rng.block(&[1usize, 2, 4, 8]);
    let mut s = Sys::<F>::new(ni, no, bs, 48000, 4000);
    // rounds of (render, commit) completed since the node was freed
    let mut since: Vec<(usize, usize)> = vec![];
    let mut known_dead = vec![];
    let mut frees = 0;
    for _ in 0..rounds {
        for _ in 0..c.rng.below(8) {
            random_edit(&mut s, c, &cfg)?;
        }
        if c.rng.chance(1, 2) {
            let al = s.m.alive();
            for _ in 0..c.rng.below(4) {
                if al.is_empty() {
                    break;
                }
                let k = *c.rng.pick(&al);
                if s.m.nodes[k].alive {
                    c.note(format!("free n{k}"));
                    s.free(k)?;
                }
            }
        }
        for k in 0..s.m.nodes.len() {
            if !s.m.nodes[k].alive && !known_dead.contains(&k) {
                known_dead.push(k);
                since.push((k, 0));
                frees += 1;
            }
        }
        s.commit();
        for _ in 0..1 + c.rng.below(2) {
            s.render(&mut c.rng)?;
            accounting(&s)?;
        }
        s.commit();
        for (k, n) in since.iter_mut() {
            *n += 1;
            let d = drops(&s.m.nodes[*k].core.shared);
            ensure!(d <= 1, "double-drop", "node {k} was dropped {d} times");
            if *n >= 2 {
                ensure!(d == 1, "not-reclaimed", "freed node {k} was still not dropped after {n} further render and commit rounds");
            }
        }
        for (k, n) in s.m.nodes.iter().enumerate() {
            if n.alive {
                ensure!(drops(&n.core.shared) == 0, "live-dropped", "live node {k} was dropped");
            }
        }
    }
    c.count("nodes freed while running", frees);
    if frees > 0 {
        c.nontrivial();
    }
    teardown(c, s)
}
/// Drop graph and processor in either order, rendering and editing what is left.
fn teardown<F: Float>(c: &mut Case, mut s: Sys<F>) -> Res {
    let all = s.all.clone();
    // something uncommitted, something in flight
    if c.rng.chance(1, 2) {
        s.push(1, 1, true);
        s.push(0, 2, true);
        if c.rng.chance(1, 2) {
            s.commit();
        }
    }
    let all2 = s.all.clone();
    match c.rng.below(4) {
        0 => {
            c.note("drop graph, processor");
            // the processor goes on as it was
            let clock_probe: Vec<u64> = all.iter().map(|a| a.frames.load(SeqCst)).collect();
            let uncommitted = all2.len() > all.len();
            s.g = None;
            for _ in 0..c.rng.below(4) {
                if !uncommitted {
                    s.render(&mut c.rng)?;
                } else {
                    let z: Vec<Vec<i64>> = (0..s.n_in).map(|_| vec![0; s.bs]).collect();
                    s.render_real(&z);
                    s.errors()?;
                }
            }
            let _ = clock_probe;
            s.p = None;
        }
        1 => {
            c.note("drop processor, edit, drop graph");
            s.p = None;
            for _ in 0..c.rng.below(4) {
                let k = s.push(1, 1, true);
                let id = s.nid(k);
                let g = s.g.as_mut().unwrap();
                let _ = g.connect2(NodeOrGraph::Node(id), 0, 0, NodeOrGraph::Graph);
                g.edit(|_| {});
            }
            s.g = None;
        }
        2 => {
            c.note("drop graph+rx, processor");
            s.g = None;
            s.rx = None;
            s.p = None;
        }
        _ => {
            c.note("drop processor, graph");
            s.p = None;
            s.g = None;
        }
    }
    let last = s.all.clone();
    drop(s);
    for sh in &last {
        ensure!(drops(sh) == 1, "drop-count", "node {} was dropped {} times after everything was dropped", sh.id, drops(sh));
        if let Some(e) = sh.errors.lock().unwrap().first() {
            bail!("probe", "node {}: {e}", sh.id);
        }
    }
    Ok(())
}

struct G<F: Float> {
    g: Option<Graph<F>>,
    parent: Option<usize>,
    /// node in the parent
    node: NodeId,
    freed: bool,
    nodes: Vec<(NodeId, Arc<Shared>, bool)>,
}
fn push_some<F: Float>(g: &knaster_graph::graph_edit::GraphEdit<'_, F>, c: &mut Case, all: &mut Vec<Arc<Shared>>, nodes: &mut Vec<(NodeId, Arc<Shared>, bool)>) {
    let sh = Shared::new(all.len() as u64);
    let core = Core::new(3 + all.len() as i64, true, sh.clone());
    let (i, o) = *c.rng.pick(&[(0, 1), (1, 1), (2, 2), (1, 0), (0, 0)]);
    let id = match c.rng.below(4) {
        0 => {
            if c.rng.chance(1, 2) {
                sh.done_at_block.store(c.rng.below(6) as i64, SeqCst);
            }
            push_probe_done(g, i, o, core, *c.rng.pick(&[Done::None, Done::FreeSelf]))
        }
        1 => push_probe_ar(g, i, o, core),
        _ => push_probe_edit(g, i, o, core),
    };
    if o > 0 {
        if let Some(h) = g.handle(id) {
            h.out([0u16]).to_graph_out_channels([0u16]);
            if let Some((prev, _, _)) = nodes.last() {
                if let Some(p) = g.handle(*prev) {
                    let _ = h.try_to(p);
                }
            }
        }
    }
    all.push(sh.clone());
    nodes.push((id, sh, false));
}
/// Trees of graphs: freeing, dropping handles, done actions, in any order.
pub fn tree<F: Float>(c: &mut Case) -> Res {
    let base = alloc::net();
    let bs = c.rng.block(&[1usize, 4, 8]);
    let (g, p, rx) = make::<F>(1, 1, bs, 48000, 400);
    let input = vec![F::ZERO; bs];
    let mut p: Option<AudioProcessor<F>> = Some(p);
    let mut rx = Some(rx);
    let mut all: Vec<Arc<Shared>> = vec![];
    let mut gs: Vec<G<F>> = vec![G { g: Some(g), parent: None, node: NodeId::invalid(), freed: false, nodes: vec![] }];
    let mut tokens = vec![];
    let mut frees = 0;
    let steps = 10 + c.rng.below(40);
    for _ in 0..steps {
        let k = c.rng.below(gs.len());
        let op = c.rng.below(16);
        match op {
            0..=3 => {
                if let Some(mut g) = gs[k].g.take() {
                    let mut nodes = std::mem::take(&mut gs[k].nodes);
                    g.edit(|e| {
                        for _ in 0..1 + c.rng.below(3) {
                            push_some(&e, c, &mut all, &mut nodes);
                        }
                    });
                    gs[k].nodes = nodes;
                    gs[k].g = Some(g);
                    c.note(format!("push in g{k}"));
                }
            }
            4..=5 => {
                if gs.len() < 6 {
                    if let Some(mut g) = gs[k].g.take() {
                        let mut nodes = vec![];
                        let init = c.rng.chance(1, 2);
                        let (id, sub) = g.edit(|e| {
                            let (h, sub) = e.subgraph::<U1, U1>(GraphOptions::default().ring_buffer_size(200), |e| {
                                if init {
                                    push_some(&e, c, &mut all, &mut nodes);
                                }
                            });
                            h.to_graph_out();
                            (h.id(), sub)
                        });
                        gs[k].g = Some(g);
                        c.note(format!("g{} = subgraph of g{k} (filled: {init})", gs.len()));
                        gs.push(G { g: Some(sub), parent: Some(k), node: id, freed: false, nodes });
                    }
                }
            }
            6..=7 => {
                // free a node
                let G { g: Some(g), nodes, .. } = &mut gs[k] else { continue };
                if nodes.is_empty() {
                    continue;
                }
                let j = c.rng.below(nodes.len());
                let id = nodes[j].0;
                let r = g.edit(|e| e.free_node(id));
                if r.is_ok() {
                    nodes[j].2 = true;
                    frees += 1;
                }
                c.note(format!("free node {j} of g{k}: {}", r.is_ok()));
            }
            8 => {
                // free a subgraph through its parent
                if let Some(par) = gs[k].parent {
                    if gs[par].g.is_some() && !gs[k].freed {
                        let id = gs[k].node;
                        let r = gs[par].g.as_mut().unwrap().edit(|e| e.free_node(id));
                        ensure!(r.is_ok(), "valid-refused", "freeing a subgraph: {r:?}");
                        gs[k].freed = true;
                        frees += 1;
                        c.note(format!("free g{k}"));
                    }
                }
            }
            9 => {
                if k > 0 || c.rng.chance(1, 4) {
                    c.note(format!("drop handle of g{k}"));
                    gs[k].g = None;
                }
            }
            10 => {
                // events that will not be applied: tokens, far future
                let G { g: Some(g), nodes, .. } = &mut gs[k] else { continue };
                if let Some((id, _, _)) = nodes.last() {
                    let _ = g.set(*id, 0usize, 1.0 as PFloat, knaster_graph::Time::at(knaster_core::Seconds::from_secs_f64(100.0)));
                    let id = *id;
                    let t = SchedulingToken::new();
                    g.edit(|e| {
                        if let Some(h) = e.handle(id) {
                            let _ = h.try_param("alpha");
                        }
                    });
                    tokens.push(t);
                }
            }
            11 if c.rng.chance(1, 6) => {
                c.note("drop processor");
                p = None;
            }
            12 => {
                if let Some(g) = &mut gs[k].g {
                    g.edit(|_| {});
                }
            }
            13 if c.rng.chance(1, 6) => {
                rx = None;
            }
            _ => {
                if let Some(p) = &mut p {
                    c.note("render");
                    ON_AUDIO.with(|a| a.set(true));
                    crate::probe::run_any(p, &[&input]);
                    ON_AUDIO.with(|a| a.set(false));
                }
            }
        }
        for s in &all {
            ensure!(drops(s) <= 1, "double-drop", "node {} was dropped {} times", s.id, drops(s));
            ensure!(!s.after_drop.load(SeqCst), "use-after-drop", "node {} was used after it was dropped", s.id);
            ensure!(!s.dropped_on_audio.load(SeqCst), "dropped-on-audio", "node {} was dropped while rendering", s.id);
            if let Some(e) = s.errors.lock().unwrap().first() {
                bail!("probe", "node {}: {e}", s.id);
            }
        }
    }
    // what was freed must be reclaimed after two rounds, if there is still someone to do it
    if let Some(p) = &mut p {
        for _ in 0..3 {
            for g in &mut gs {
                if let Some(g) = &mut g.g {
                    g.edit(|_| {});
                }
            }
            ON_AUDIO.with(|a| a.set(true));
            crate::probe::run_any(p, &[&input]);
            ON_AUDIO.with(|a| a.set(false));
        }
        for g in &mut gs {
            if let Some(g) = &mut g.g {
                g.edit(|_| {});
            }
        }
        for (k, g) in gs.iter().enumerate() {
            // running: itself and every ancestor
            let mut running = true;
            let mut handles = true;
            let mut a = Some(k);
            while let Some(i) = a {
                running &= !gs[i].freed;
                handles &= gs[i].g.is_some();
                a = gs[i].parent;
            }
            if g.g.is_some() && running {
                for (j, (_, s, freed)) in g.nodes.iter().enumerate() {
                    let self_freed = s.done_at_block.load(SeqCst) >= 0;
                    if *freed {
                        ensure!(drops(s) == 1, "not-reclaimed", "freed node {j} of running graph g{k} is still not dropped");
                    } else if !self_freed {
                        ensure!(drops(s) == 0, "live-dropped", "live node {j} of running graph g{k} was dropped");
                    }
                }
            }
            if g.freed && handles {
                // the subgraph was freed and its parent reclaimed it: nodes that had been running are gone
                for (j, (_, s, _)) in g.nodes.iter().enumerate() {
                    if s.blocks.load(SeqCst) > 0 {
                        ensure!(drops(s) == 1, "not-reclaimed", "node {j} of freed subgraph g{k} is still not dropped");
                    }
                }
            }
        }
    }
    c.count("nodes in trees of graphs", all.len() as u64);
    c.count("frees", frees);
    if gs.len() > 1 && frees > 0 {
        c.nontrivial();
    }
    // drop everything in a random order
    let mut left: Vec<usize> = (0..gs.len() + 2).collect();
    while !left.is_empty() {
        let i = left.swap_remove(c.rng.below(left.len()));
        if i < gs.len() {
            gs[i].g = None;
        } else if i == gs.len() {
            p = None;
        } else {
            rx = None;
        }
    }
    drop(tokens);
    for s in &all {
        ensure!(drops(s) == 1, "drop-count", "node {} was dropped {} times after everything was dropped", s.id, drops(s));
    }
    let _ = base;
    Ok(())
}

fn leak_body<F: Float>(rng: &mut Rng) {
    let bs = rng.block(&[1usize, 4, 8]);
    let (mut g, p, rx) = make::<F>(1, 2, bs, 48000, 64);
    let mut p = Some(p);
    let mut rx = Some(rx);
    let input = vec![F::ZERO; bs];
    let mut ids: Vec<NodeId> = vec![];
    let mut subs: Vec<Graph<F>> = vec![];
    let mut handles = vec![];
    for _ in 0..rng.below(20) {
        match rng.below(10) {
            0..=3 => {
                let sh = Shared::new(0);
                let id = g.edit(|e| {
                    let id = match rng.below(3) {
                        0 => push_probe_done(&e, 1, 1, Core::new(1, true, sh), Done::FreeSelf),
                        1 => push_probe_ar(&e, 1, 1, Core::new(1, true, sh)),
                        _ => push_probe_edit(&e, 1, 1, Core::new(1, true, sh)),
                    };
                    e.handle(id).unwrap().to_graph_out();
                    if let Some(h) = e.handle(id).and_then(|h| h.try_param("alpha")) {
                        handles.push(h);
                    }
                    id
                });
                if let Some(o) = ids.last() {
                    match rng.below(3) {
                        0 => drop(g.connect2(*o, 0, 0, id)),
                        1 => drop(g.connect2_feedback(ng(id), 0, 0, ng(*o))),
                        _ => drop(g.connect_to_parameter(*o, 0, "beta", id)),
                    }
                }
                ids.push(id);
            }
            4 => {
                let sub = g.edit(|e| e.subgraph::<U1, U1>(GraphOptions::default().ring_buffer_size(20), |e| {
                    push_probe_edit(&e, 1, 1, Core::new(1, true, Shared::new(0)));
                }).1);
                if rng.chance(1, 2) {
                    subs.push(sub);
                }
            }
            5 => {
                if !ids.is_empty() {
                    let id = ids.swap_remove(rng.below(ids.len()));
                    let _ = g.edit(|e| e.free_node(id));
                }
            }
            6 => {
                for h in &mut handles {
                    let _ = h.set_after(1.0 as PFloat, knaster_core::Seconds::from_secs_f64(0.01));
                }
            }
            _ => {
                if let Some(p) = &mut p {
                    crate::probe::run_any(&mut *p, &[&input]);
                }
            }
        }
    }
    // any order
    match rng.below(3) {
        0 => {
            drop(p.take());
            drop(g);
            drop(rx.take());
            drop(subs);
        }
        1 => {
            drop(g);
            drop(subs);
            drop(p.take());
        }
        _ => {
            drop(subs);
            drop(rx.take());
            drop(p.take());
            drop(g);
        }
    }
}
/// Nothing stays allocated after graph, processor, handles and receiver are dropped.
fn leak<F: Float>(c: &mut Case) -> Res {
    let seed = c.rng.next();
    leak_body::<F>(&mut Rng::new(seed)); // one-time initialisations
    let before = alloc::net();
    let ops = alloc::ops();
    leak_body::<F>(&mut Rng::new(seed));
    let after = alloc::net();
    let n = alloc::ops() - ops;
    c.note(format!("leak seed {seed}: {n} heap operations"));
    ensure!(after == before, "leak", "{} bytes stay allocated after everything was dropped", after - before);
    c.count("heap operations balanced", n);
    c.nontrivial();
    Ok(())
}

/// Repeating the same edits does not accumulate anything.
fn cycles<F: Float>(c: &mut Case) -> Res {
    let bs = c.rng.block(&[1usize, 4, 8]);
    let (mut g, mut p, _rx) = make::<F>(1, 2, bs, 48000, 64);
    let input = vec![F::ZERO; bs];
    let seed = c.rng.next();
    let body = |g: &mut Graph<F>, p: &mut AudioProcessor<F>| {
        let mut rng = Rng::new(seed);
        let n = 1 + rng.below(5);
        let mut ids = vec![];
        let mut subs = vec![];
        let self_free = rng.chance(1, 2);
        g.edit(|e| {
            for _ in 0..n {
                let sh = Shared::new(0);
                let id = match rng.below(4) {
                    0 | 3 if self_free => {
                        sh.done_at_block.store(0, SeqCst);
                        push_probe_done(&e, 1, 1, Core::new(1, true, sh), Done::FreeSelf)
                    }
                    1 => push_probe_ar(&e, 1, 1, Core::new(1, true, sh)),
                    _ => push_probe_edit(&e, 1, 1, Core::new(1, true, sh)),
                };
                e.handle(id).unwrap().to_graph_out();
                ids.push(id);
            }
            if rng.chance(1, 3) {
                let (h, sub) = e.subgraph::<U1, U1>(GraphOptions::default().ring_buffer_size(20), |e| {
                    push_probe_edit(&e, 1, 1, Core::new(1, true, Shared::new(0)));
                });
                h.to_graph_out();
                ids.push(h.id());
                subs.push(sub);
            }
            for (k, id) in ids.iter().enumerate() {
                if rng.chance(1, 3) {
                    e.handle(*id).unwrap().name(format!("node {k}"));
                }
            }
        });
        for k in 1..ids.len() {
            for _ in 0..rng.below(3) {
                match rng.below(4) {
                    0 => drop(g.connect2(ids[k - 1], 0, 0, ids[k])),
                    1 => drop(g.connect2_feedback(ng(ids[k]), 0, 0, ng(ids[k - 1]))),
                    2 => drop(g.connect2_replace(ng(ids[k - 1]), 0, 0, ng(ids[k]))),
                    _ => drop(g.connect_to_parameter(ids[k - 1], 0, "beta", ids[k])),
                }
            }
            let _ = g.set(ids[k], 0usize, 0.0 as PFloat, knaster_graph::Time::asap());
        }
        g.edit(|_| {});
        crate::probe::run_any(&mut *p, &[&input]);
        if rng.chance(1, 2) {
            g.edit(|_| {});
            crate::probe::run_any(&mut *p, &[&input]);
        }
        if rng.chance(1, 2) {
            // disconnecting only: the rest is reclaimed when the nodes are freed
            let _ = g.disconnect_output_from_source(ids[0], 0);
            g.edit(|_| {});
            crate::probe::run_any(&mut *p, &[&input]);
        }
        g.edit(|e| {
            for id in &ids {
                // may have freed itself already
                let _ = e.free_node(*id);
            }
        });
        drop(subs);
        for _ in 0..3 {
            crate::probe::run_any(&mut *p, &[&input]);
            g.edit(|_| {});
        }
    };
    for _ in 0..12 {
        body(&mut g, &mut p);
    }
    let live = |g: &Graph<F>| g.inspection().nodes.len();
    let n0 = live(&g);
    let a = alloc::net();
    for _ in 0..24 {
        body(&mut g, &mut p);
    }
    let b = alloc::net();
    let n1 = live(&g);
    c.note(format!("cycle seed {seed} bs {bs}: {a} bytes"));
    ensure!(n0 == n1 && n1 == 0, "accumulates", "{n0} nodes are left after 12 and {n1} after 36 repetitions of the same edits");
    ensure!(b <= a, "accumulates", "24 repetitions of the same edits accumulated {} bytes", b - a);
    let mut ob = p.output_block();
    ensure!((0..bs).all(|f| ob.read(0, f) == F::ZERO), "not-silent", "an empty graph is not silent");
    c.count("edit cycles", 36);
    c.nontrivial();
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "(history) random edit histories with frees: a freed node stops at the commit, is dropped once within two render-and-commit rounds, live nodes are never dropped, then graph and processor are dropped in a random order at a random moment; (tree) trees of subgraphs with frees, done actions, dropped handles, dropped processor in random order; (leak) balance of all heap operations over a whole session; (cycles) repeated identical edits must not accumulate bytes or nodes. Non-trivial: something was freed while running".into();
    r.cases("history", r.n(12000, 300000), |c| {
        if c.rng.chance(1, 2) { history::<f32>(c, 7) } else { history::<f64>(c, 7) }
    });
    r.cases("tree", r.n(15000, 300000), |c| if c.rng.chance(1, 2) { tree::<f32>(c) } else { tree::<f64>(c) });
    r.cases("leak", r.n(8000, 150000), |c| if c.rng.chance(1, 2) { leak::<f32>(c) } else { leak::<f64>(c) });
    r.cases("cycles", r.n(2500, 40000), |c| if c.rng.chance(1, 2) { cycles::<f32>(c) } else { cycles::<f64>(c) });
}
#[allow(unused)]
fn unused<T: HandleTrait>(_: T) {}

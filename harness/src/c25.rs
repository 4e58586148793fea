//! C25: names, handles and inspection describe the actual graph.
use crate::common::*;
use crate::gm::*;
use crate::probe::*;
use crate::{bail, ensure};
use knaster_core::typenum::*;
use knaster_core::{Float, ParameterSmoothing};
use knaster_graph::graph::{Graph, GraphOptions, NodeId, NodeKey};
use knaster_graph::handle::HandleTrait;
use knaster_graph::inspection::*;
use std::collections::{BTreeMap, HashMap};

/// Sources of one inspected input, with the graph's own helper nodes resolved.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum R {
    In(u16),
    Node(usize, u16),
    /// a fed back signal
    Fb,
}
struct View<'a> {
    user: HashMap<NodeKey, usize>,
    by_key: HashMap<NodeKey, &'a NodeInspection>,
}
impl View<'_> {
    fn resolve(&self, e: &EdgeInspection, depth: usize, out: &mut Vec<R>) -> Res {
        ensure!(depth < 400, "helper-cycle", "edges through helper nodes never end");
        match e.source {
            EdgeSource::Graph => out.push(R::In(e.from_index)),
            EdgeSource::Node(k) => {
                if let Some(u) = self.user.get(&k) {
                    out.push(R::Node(*u, e.from_index));
                    return Ok(());
                }
                let Some(n) = self.by_key.get(&k) else {
                    bail!("dangling", "an edge comes from a node that the inspection does not list")
                };
                ensure!(e.from_index < n.outputs, "dangling", "an edge comes from output {} of a node with {} outputs", e.from_index, n.outputs);
                if n.inputs == 0 {
                    out.push(R::Fb);
                }
                for e in &n.input_edges {
                    self.resolve(e, depth + 1, out)?;
                }
            }
        }
        Ok(())
    }
}

/// Compare an inspection with the model.
fn check<F: Float>(s: &mut Sys<F>, c: &mut Case, names: &[String]) -> Res {
    let g = s.g.as_ref().unwrap();
    let i = g.inspection();
    let m = &s.m;
    ensure!(i.num_inputs as usize == s.n_in && i.num_outputs as usize == s.n_out, "channels", "inspection reports {}/{} channels of a graph with {}/{}", i.num_inputs, i.num_outputs, s.n_in, s.n_out);
    ensure!(i.graph_id == g.graph_id(), "graph id", "inspection carries another graph's id");
    let by_key: HashMap<_, _> = i.nodes.iter().map(|n| (n.key, n)).collect();
    ensure!(by_key.len() == i.nodes.len(), "listed twice", "a node is listed twice");
    let user: HashMap<NodeKey, usize> = m.alive().into_iter().map(|k| (m.nodes[k].id.key(), k)).collect();
    for k in 0..m.nodes.len() {
        let n = &m.nodes[k];
        if !n.alive {
            ensure!(by_key.get(&n.id.key()).is_none(), "freed listed", "freed node n{k} is listed by the inspection");
        }
    }
    let v = View { user, by_key };
    let mut fb_sinks: Vec<R> = vec![];
    let mut helpers = 0;
    for n in &i.nodes {
        let mut seen = vec![];
        for e in &n.input_edges {
            ensure!(e.to_index < n.inputs, "edge", "edge to input {} of a node with {} inputs", e.to_index, n.inputs);
            ensure!(!seen.contains(&e.to_index), "edge", "two edges to the same input of one node");
            seen.push(e.to_index);
        }
        if v.user.contains_key(&n.key) {
            continue;
        }
        helpers += 1;
        if n.inputs == 1 && n.outputs == 0 {
            // the sending side of a feedback connection
            for e in &n.input_edges {
                ensure!(e.is_feedback, "feedback flag", "the edge of a feedback connection from {:?} is not marked as feedback", e.source);
                v.resolve(e, 0, &mut fb_sinks)?;
            }
        }
    }
    let mut want_fb = vec![];
    let src = |x: &Src| match *x {
        Src::In(ch) => R::In(ch),
        Src::Node(n, ch) => R::Node(n, ch),
        Src::Fb(..) => R::Fb,
    };
    for (key, k) in &v.user {
        let n = &m.nodes[*k];
        let Some(x) = v.by_key.get(key) else { bail!("not listed", "live node n{k} is not listed by the inspection") };
        ensure!(x.inputs as usize == n.ins && x.outputs as usize == n.outs, "channels", "n{k} is listed with {}/{} channels, it has {}/{}", x.inputs, x.outputs, n.ins, n.outs);
        if !names[*k].is_empty() {
            ensure!(x.name == names[*k], "name", "n{k} named '{}' is listed as '{}'", names[*k], x.name);
        }
        ensure!(x.parameter_descriptions == ["alpha", "beta", "gamma"] && x.parameter_hints.len() == 3, "parameters", "n{k} is listed with parameters {:?} and {} hints", x.parameter_descriptions, x.parameter_hints.len());
        ensure!(x.is_graph.is_none(), "is graph", "n{k} is listed as a graph");
        for ch in 0..n.ins {
            let mut got = vec![];
            for e in x.input_edges.iter().filter(|e| e.to_index as usize == ch) {
                v.resolve(e, 0, &mut got)?;
                ensure!(!e.is_feedback || matches!(e.source, EdgeSource::Node(_)), "feedback flag", "graph input marked as feedback");
            }
            let mut want: Vec<R> = n.inputs[ch].iter().map(src).collect();
            for s in &n.inputs[ch] {
                if let Src::Fb(a, ch, _) = s {
                    want_fb.push(R::Node(*a, *ch));
                }
            }
            got.sort();
            want.sort();
            ensure!(got == want, "edges", "input {ch} of n{k} is listed with sources {got:?}, its connections are {want:?}");
        }
        if n.inputs.iter().all(|x| x.is_empty()) && n.links.iter().all(|l| l.is_empty()) {
            let used = m.alive().iter().any(|j| {
                let f = |x: &Src| matches!(x, Src::Node(a, _) | Src::Fb(a, _, _) if a == k);
                m.nodes[*j].inputs.iter().flatten().any(f) || m.nodes[*j].links.iter().flatten().any(|l| l.0 == *k)
            }) || m.outputs.iter().flatten().any(|x| matches!(x, Src::Node(a, _) if a == k));
            ensure!(used || x.unconnected, "unconnected", "n{k} has no connection but is not listed as unconnected");
        }
        if m.outputs.iter().flatten().any(|x| matches!(x, Src::Node(a, _) if a == k)) {
            ensure!(!x.unconnected, "unconnected", "n{k} is connected to a graph output but listed as unconnected");
        }
    }
    for ch in 0..s.n_out {
        let mut got = vec![];
        for e in i.graph_output_edges.iter().filter(|e| e.to_index as usize == ch) {
            v.resolve(e, 0, &mut got)?;
        }
        let mut want: Vec<R> = m.outputs[ch].iter().map(src).collect();
        got.sort();
        want.sort();
        ensure!(got == want, "edges", "graph output {ch} is listed with sources {got:?}, its connections are {want:?}");
    }
    // every live feedback connection has its sending side listed
    fb_sinks.sort();
    want_fb.sort();
    let mut left = fb_sinks.clone();
    for w in &want_fb {
        match left.iter().position(|x| x == w) {
            Some(p) => {
                left.remove(p);
            }
            None => bail!("feedback", "feedback connections from {want_fb:?} exist, the inspection lists {fb_sinks:?}"),
        }
    }
    c.count("inspected_nodes", v.user.len() as u64);
    c.count("inspected_helper_nodes", helpers as u64);
    c.count("inspected_feedback_edges", want_fb.len() as u64);

    // the dot text: every edge once, between declared nodes
    let dot = i.to_dot_string();
    let edges: usize = i.nodes.iter().map(|n| n.input_edges.len()).sum::<usize>() + i.graph_output_edges.len();
    let arrows: Vec<&str> = dot.lines().filter(|l| l.contains(" -> ")).collect();
    ensure!(arrows.len() == edges, "dot", "the dot text has {} edges, the graph has {edges}", arrows.len());
    let declared: Vec<String> = (0..i.nodes.len()).map(|k| format!("{k}_{}", i.nodes[k].name)).collect();
    for l in arrows {
        let (a, b) = l.split_once(" -> ").unwrap();
        for e in [a, b] {
            let id = e.trim().rsplit_once(':').unwrap().0.trim_matches('"').to_string();
            ensure!(id == "graph_in" || id == "graph_out" || declared.contains(&id), "dot", "the dot text connects the undeclared node {id}");
        }
    }

    // lookup
    let mut count: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (k, n) in names.iter().enumerate() {
        count.entry(n.as_str()).or_default().push(k);
    }
    for (name, ks) in &count {
        if name.is_empty() {
            continue;
        }
        let live: Vec<NodeId> = ks.iter().filter(|k| m.nodes[**k].alive).map(|k| m.nodes[*k].id).collect();
        let a = g.node_id_with_name(name);
        let b = g.node_data_from_name(*name);
        match (a, b) {
            (None, None) => ensure!(live.is_empty(), "lookup", "no node found for the name '{name}' of live nodes {ks:?}"),
            (Some(a), Some((b, d))) => {
                ensure!(live.contains(&a) && live.contains(&b), "lookup", "the name '{name}' leads to a node that is freed or named differently");
                let k = *v.user.get(&b.key()).unwrap();
                ensure!(m.nodes[k].alive && d.parameter_descriptions().count() == NPARAMS, "data", "metadata of '{name}' is wrong");
            }
            _ => bail!("lookup", "node_id_with_name and node_data_from_name disagree about '{name}'"),
        }
        c.count("names_looked_up", 1);
    }
    ensure!(g.node_id_with_name("no such node").is_none(), "lookup", "a node was found for a name that was never given");
    for (k, n) in m.nodes.iter().enumerate() {
        match g.node_data(n.id) {
            None => ensure!(!n.alive, "lookup", "no metadata for live node n{k}"),
            Some(d) => {
                ensure!(n.alive, "lookup", "metadata for freed node n{k}");
                let p: Vec<&str> = d.parameter_descriptions().collect();
                ensure!(p == ["alpha", "beta", "gamma"], "data", "wrong metadata for n{k}");
            }
        }
    }
    // handles from the inspection
    let hs = i.node_handles();
    ensure!(hs.len() == i.nodes.len(), "handles", "{} handles for {} nodes", hs.len(), i.nodes.len());
    let mut sets = vec![];
    for (h, n) in hs.iter().zip(&i.nodes) {
        ensure!(h.node_id().key() == n.key && h.inputs() == n.inputs && h.outputs() == n.outputs && h.parameters() == n.parameter_descriptions, "handles", "a handle of the inspection does not describe its node");
        ensure!(h.can_send(), "can_send", "a handle of a running graph reports that it cannot send");
        if let Some(k) = v.user.get(&n.key) {
            if !m.nodes[*k].ar && c.rng.chance(1, 4) {
                let p = c.rng.below(3);
                let val = c.rng.range(-50, 50);
                let name = ["alpha", "beta", "gamma"][p];
                if let Err(e) = h.set((name, val as f64)) {
                    bail!("handle-set", "setting {name} through a handle of the inspection failed: {e}");
                }
                sets.push((*k, p, val));
            }
            let bad = h.set(("delta", 1.0)).is_ok() || h.set((3usize, 1.0)).is_ok();
            ensure!(!bad, "handle-set", "a handle of the inspection accepted a parameter that does not exist");
        }
    }
    c.count("sets_through_inspection", sets.len() as u64);
    for (k, p, val) in sets {
        s.m.nodes[k].core.params[p] = val;
    }
    Ok(())
}

fn history<F: Float>(c: &mut Case, rounds: usize) -> Res {
    let (n_in, n_out) = *c.rng.pick(GSHAPES);
    let bs = c.rng.block(&[1usize, 2, 8, 16]);
    let mut s = Sys::<F>::new(n_in, n_out, bs, 48000, 4000);
    let cfg = EditCfg { feedback: c.rng.chance(1, 2), fb_only: false, free: true, links: c.rng.chance(1, 3), stateful: true, max_nodes: 9, shapes: SHAPES.to_vec(), disconnect: true };
    let mut names: Vec<String> = vec![];
    for _ in 0..rounds {
        for _ in 0..1 + c.rng.below(4) {
            random_edit(&mut s, c, &cfg)?;
        }
        names.resize(s.m.nodes.len(), String::new());
        // (re)name a node
        if c.rng.chance(2, 3) && !names.is_empty() {
            let k = c.rng.below(names.len());
            // names may be shared by several nodes
            let name = format!("name <{}>", c.rng.below(6));
            let id = s.nid(k);
            let alive = s.m.nodes[k].alive;
            match c.rng.below(3) {
                0 => s.g.as_mut().unwrap().set_name(id, name.as_str().into()),
                1 => s.g.as_mut().unwrap().edit(|g| {
                    let h = g.handle(id);
                    ensure!(h.is_some() == alive, "lookup", "handle() of n{k}: {}, alive: {alive}", h.is_some());
                    if let Some(h) = h {
                        ensure!(h.try_param("beta").is_some() && h.try_param(2).is_some() && h.try_param(3).is_none() && h.try_param("delta").is_none(), "data", "handle() of n{k} has the wrong parameters");
                        h.name(name.as_str());
                    }
                    Ok(())
                })?,
                _ => {
                    let old = names[k].clone();
                    s.g.as_mut().unwrap().edit(|g| {
                        let unique = names.iter().enumerate().filter(|(j, n)| **n == old && s.m.nodes[*j].alive).count() == 1;
                        if alive && unique && !old.is_empty() {
                            match g.handle_from_name(old.as_str()) {
                                Some(h) => {
                                    ensure!(h.id() == id, "lookup", "handle_from_name('{old}') is not n{k}");
                                    h.name(name.as_str());
                                }
                                None => bail!("lookup", "handle_from_name('{old}') found nothing, n{k} is alive"),
                            }
                        } else {
                            g.handle(id).map(|h| h.name(name.as_str()));
                        }
                        Ok(())
                    })?
                }
            }
            if alive {
                names[k] = name;
            }
        }
        s.commit();
        check(&mut s, c, &names)?;
        if c.rng.chance(3, 4) {
            s.render(&mut c.rng)?;
        }
    }
    if s.m.nodes.len() > 2 {
        c.nontrivial();
    }
    // handles after the audio side is gone
    let i = s.g.as_ref().unwrap().inspection();
    let hs = i.node_handles();
    let sender = s.g.as_ref().unwrap().scheduling_channel_sender();
    s.p = None;
    for h in &hs {
        ensure!(!h.can_send(), "can_send", "a handle reports that it can send after its processor was dropped");
    }
    ensure!(!sender.is_alive(), "can_send", "the scheduling channel reports to be alive after the processor was dropped");
    Ok(())
}

/// Nested graphs: the parent lists the subgraph as a node, the subgraph lists its own.
fn nested<F: Float>(c: &mut Case) -> Res {
    let (mut g, mut p, _rx) = make::<F>(2, 2, 8, 48000, 1000);
    struct L<F: Float> {
        g: Graph<F>,
        parent: usize,
        id: NodeId,
        shape: (u16, u16),
        name: String,
        nodes: Vec<(NodeId, u16, u16)>,
        alive: bool,
    }
    let mut subs: Vec<L<F>> = vec![];
    let mut top: Vec<(NodeId, u16, u16)> = vec![];
    let mut ids = 0;
    let run = |p: &mut knaster_graph::processor::AudioProcessor<F>| {
        let z = vec![F::ZERO; 8];
        crate::probe::run_any(&mut *p, &[&z, &z]);
    };
    for step in 0..4 + c.rng.below(14) {
        let live: Vec<usize> = (0..subs.len()).filter(|k| subs[*k].alive).collect();
        let at = if live.is_empty() || c.rng.chance(1, 2) { None } else { Some(*c.rng.pick(&live)) };
        let r = c.rng.below(10);
        if r < 4 {
            let name = format!("sub {step}");
            let o = GraphOptions::default().name(&name).ring_buffer_size(100);
            let parent = match at {
                None => &mut g,
                Some(k) => &mut subs[k].g,
            };
            let shape = *c.rng.pick(&[(0u16, 1u16), (1, 1), (2, 2), (0, 2)]);
            let old_api = c.rng.chance(1, 4);
            macro_rules! mk {
                ($i:ty, $o:ty) => {
                    if old_api {
                        let sg = parent.subgraph::<$i, $o>(o);
                        (sg.id(), sg)
                    } else {
                        parent.edit(|e| {
                            let (h, sg) = e.subgraph::<$i, $o>(o, |_| {});
                            (h.id(), sg)
                        })
                    }
                };
            }
            let (id, sg) = match shape {
                (0, 1) => mk!(U0, U1),
                (1, 1) => mk!(U1, U1),
                (0, 2) => mk!(U0, U2),
                _ => mk!(U2, U2),
            };
            parent.edit(|_| {});
            ensure!(sg.id() == id, "subgraph id", "Graph::id() of a subgraph is not its node in the parent");
            ensure!(sg.inputs() == shape.0 && sg.outputs() == shape.1, "channels", "subgraph reports {}/{} channels", sg.inputs(), sg.outputs());
            c.note(format!("sub{} in {at:?} {shape:?}", subs.len()));
            subs.push(L { g: sg, parent: at.map_or(usize::MAX, |k| k), id, shape, name, nodes: vec![], alive: true });
        } else if r < 8 {
            ids += 1;
            let core = Core::new(ids, false, Shared::new(ids as u64));
            let (gi, list) = match at {
                None => (&mut g, &mut top),
                Some(k) => {
                    let l = &mut subs[k];
                    (&mut l.g, &mut l.nodes)
                }
            };
            let (a, b) = *c.rng.pick(&[(1usize, 1usize), (0, 1), (2, 1)]);
            let id = gi.edit(|g| push_probe_edit(&g, a, b, core));
            list.push((id, a as u16, b as u16));
        } else if let (8, Some(k)) = (r, at) {
            let id = subs[k].id;
            let parent = subs[k].parent;
            let pg = if parent == usize::MAX { &mut g } else { &mut subs[parent].g };
            if let Err(e) = pg.edit(|e| e.free_node(id)) {
                bail!("valid-refused", "freeing live subgraph {k} refused: {e}");
            }
            c.note(format!("free sub{k}"));
            // it and everything below
            let mut dead = vec![k];
            subs[k].alive = false;
            while let Some(d) = dead.pop() {
                for j in 0..subs.len() {
                    if subs[j].parent == d && subs[j].alive {
                        subs[j].alive = false;
                        dead.push(j);
                    }
                }
            }
        } else {
            run(&mut p);
        }
        // check
        for at in std::iter::once(None).chain((0..subs.len()).filter(|k| subs[*k].alive).map(Some)) {
            let (gr, nodes) = match at {
                None => (&g, &top),
                Some(k) => (&subs[k].g, &subs[k].nodes),
            };
            let i = gr.inspection();
            if let Some(k) = at {
                ensure!(i.graph_name == subs[k].name.as_str(), "name", "subgraph '{}' is inspected as '{}'", subs[k].name, i.graph_name);
                ensure!((i.num_inputs, i.num_outputs) == subs[k].shape, "channels", "subgraph of shape {:?} is inspected as {}/{}", subs[k].shape, i.num_inputs, i.num_outputs);
            }
            let kids: Vec<&L<F>> = subs.iter().filter(|l| l.alive && l.parent == at.map_or(usize::MAX, |k| k)).collect();
            ensure!(i.nodes.len() == nodes.len() + kids.len(), "not listed", "graph {at:?} with {} nodes and {} subgraphs lists {} nodes", nodes.len(), kids.len(), i.nodes.len());
            for (id, a, b) in nodes {
                let Some(n) = i.nodes.iter().find(|n| n.key == id.key()) else { bail!("not listed", "a node of graph {at:?} is not listed") };
                ensure!(n.is_graph.is_none() && n.inputs == *a && n.outputs == *b, "data", "a node of graph {at:?} is listed wrongly");
            }
            for l in kids {
                let Some(n) = i.nodes.iter().find(|n| n.key == l.id.key()) else { bail!("not listed", "subgraph '{}' is not listed in its parent", l.name) };
                ensure!(n.is_graph == Some(l.g.graph_id()), "is graph", "subgraph '{}' is listed with graph id {:?}", l.name, n.is_graph);
                ensure!((n.inputs, n.outputs) == l.shape, "channels", "subgraph '{}' is listed with {}/{} channels", l.name, n.inputs, n.outputs);
                c.count("subgraphs_inspected", 1);
            }
        }
    }
    if subs.len() > 1 {
        c.nontrivial();
    }
    // graph ids are unique
    for a in 0..subs.len() {
        ensure!(subs[a].g.graph_id() != g.graph_id(), "graph id", "two graphs share an id");
        for b in 0..a {
            ensure!(subs[a].g.graph_id() != subs[b].g.graph_id(), "graph id", "two graphs share an id");
        }
    }
    run(&mut p);
    // a freed subgraph's channel is reported as closed once the audio side has let go of it
    let freed: Vec<usize> = (0..subs.len()).filter(|k| !subs[*k].alive).collect();
    for _ in 0..6 {
        run(&mut p);
        g.edit(|_| {});
        for l in subs.iter_mut().filter(|l| l.alive) {
            l.g.edit(|_| {});
        }
    }
    for k in freed {
        if subs[k].parent != usize::MAX && !subs[subs[k].parent].alive {
            // may sit in the unread channel of its freed parent until that is dropped
            continue;
        }
        ensure!(!subs[k].g.scheduling_channel_sender().is_alive(), "can_send", "freed subgraph {k} still reports that it can be sent to after {} blocks", 6);
        c.count("freed_subgraph_channels_closed", 1);
    }
    for l in subs.iter().filter(|l| l.alive) {
        ensure!(l.g.scheduling_channel_sender().is_alive(), "can_send", "live subgraph '{}' reports that it cannot be sent to", l.name);
    }
    let _ = ParameterSmoothing::None;
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "(history) random edit histories with renames (names shared by several nodes), feedback, parameter links and frees; after each commit the inspection, its dot text, node metadata, name lookup and the handles made from it are compared with an independent model of the graph, and parameters are set through those handles; (nested) random trees of subgraphs with frees, each level's inspection compared with the tree; non-trivial: more than two nodes or more than one subgraph; distinct by history".into();
    r.cases("history", r.n(30000, 400000), |c| if c.rng.chance(1, 2) { history::<f32>(c, 6) } else { history::<f64>(c, 6) });
    r.cases("nested", r.n(12000, 200000), |c| if c.rng.chance(1, 2) { nested::<f32>(c) } else { nested::<f64>(c) });
}

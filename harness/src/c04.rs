//! C04: invalid requests are refused and change nothing.
use crate::common::*;
use crate::gm::*;
use crate::probe::*;
use crate::{bail, ensure};
use knaster_core::typenum::*;
use knaster_core::{Float, PFloat, Param};
use knaster_graph::Time;
use knaster_graph::graph::{Graph, GraphError, GraphOptions, NodeId, NodeOrGraph};
use knaster_graph::inspection::EdgeSource;

/// Everything the inspection shows, in a canonical order.
pub fn snapshot<F: Float>(g: &Graph<F>) -> Vec<String> {
    let i = g.inspection();
    let src = |s: &EdgeSource| match s {
        EdgeSource::Node(k) => format!("{k:?}"),
        EdgeSource::Graph => "in".into(),
    };
    let mut v = vec![];
    for n in &i.nodes {
        v.push(format!("{:?} {} {}/{} {:?}", n.key, n.name, n.inputs, n.outputs, n.parameter_descriptions));
        for e in &n.input_edges {
            v.push(format!("{:?}[{}] <- {}[{}]", n.key, e.to_index, src(&e.source), e.from_index));
        }
    }
    for e in &i.graph_output_edges {
        v.push(format!("out[{}] <- {}[{}]", e.to_index, src(&e.source), e.from_index));
    }
    v.sort();
    v
}

struct Foreign<F: Float> {
    _g: Graph<F>,
    ids: Vec<NodeId>,
}

fn what_of(e: &GraphError) -> &'static str {
    match e {
        GraphError::CircularConnection => "cycle",
        GraphError::NodeNotFound => "node not found",
        GraphError::WrongSourceNodeGraph { .. } | GraphError::WrongSinkNodeGraph { .. } => "wrong graph",
        GraphError::InputOutOfBounds(_) | GraphError::OutputOutOfBounds(_) => "channel out of bounds",
        GraphError::GraphInputOutOfBounds(_) | GraphError::GraphOutputOutOfBounds(_) => "graph channel out of bounds",
        GraphError::ParameterDescriptionNotFound(_)
        | GraphError::ParameterIndexOutOfBounds(_)
        | GraphError::ParameterError(_) => "parameter",
        GraphError::FreeError(_) => "free",
        _ => "other error",
    }
}

/// One invalid request. Ok(None): none possible here.
fn invalid<F: Float>(s: &mut Sys<F>, c: &mut Case, f: &Foreign<F>) -> Result<Option<String>, Violation> {
    let alive = s.m.alive();
    let dead: Vec<usize> = (0..s.m.nodes.len()).filter(|k| !s.m.nodes[*k].alive).collect();
    if alive.is_empty() {
        return Ok(None);
    }
    let rng = &mut c.rng;
    let a = *rng.pick(&alive);
    let b = *rng.pick(&alive);
    let (ida, idb) = (s.nid(a), s.nid(b));
    let bad_id: Option<(NodeId, &str)> = match rng.below(4) {
        0 | 1 if !dead.is_empty() => Some((s.nid(*rng.pick(&dead)), "freed")),
        2 => Some((*rng.pick(&f.ids), "foreign")),
        3 if rng.chance(1, 4) => Some((NodeId::invalid(), "invalid")),
        _ => None,
    };
    let far = match rng.below(3) {
        0 => 0u16,
        1 => 1,
        _ => *rng.pick(&[7u16, 100, 9999, u16::MAX - 1]),
    };
    let a_out = s.m.nodes[a].outs as u16;
    let b_in = s.m.nodes[b].ins as u16;
    let mode = *rng.pick(&[Mode::Add, Mode::Replace, Mode::FbAdd, Mode::FbReplace]);
    let plain = if rng.chance(1, 2) { Mode::Add } else { Mode::Replace };
    let names = ["alpha", "beta", "gamma"];
    let kind = rng.below(24);
    let by_name = rng.chance(1, 2);
    let p = rng.below(NPARAMS);
    let par = if by_name { Param::Desc(names[p]) } else { Param::Index(p) };
    let (n_in, n_out) = (s.n_in as u16, s.n_out as u16);
    // a path b -> ... -> a, so that a -> b makes a cycle
    let cycle = s.m.has_path(b, a);
    let choose_link = rng.chance(1, 2);
    let in_edit = rng.chance(1, 3);
    let g = s.g.as_mut().unwrap();
    let conn = |g: &mut Graph<F>, m: Mode, src: NodeOrGraph, sc: u16, dc: u16, dst: NodeOrGraph| match m {
        Mode::Add => g.connect2(src, sc, dc, dst),
        Mode::Replace => g.connect2_replace(src, sc, dc, dst),
        Mode::FbAdd => g.connect2_feedback(src, sc, dc, dst),
        Mode::FbReplace => g.connect2_feedback_replace(src, sc, dc, dst),
    };
    let (r, what): (Result<(), GraphError>, String) = match kind {
        0 | 1 if cycle && a_out > 0 && b_in > 0 => {
            let (sc, dc) = (c.rng.below(a_out as usize) as u16, c.rng.below(b_in as usize) as u16);
            (conn(g, plain, ng(ida), sc, dc, ng(idb)), format!("cycle n{a}->n{b} {plain:?}"))
        }
        2 if a_out > 0 && s.m.nodes[a].ins > 0 => {
            (conn(g, plain, ng(ida), 0, 0, ng(ida)), format!("self loop n{a} {plain:?}"))
        }
        3 | 4 if cycle && a_out > 0 => {
            let sc = c.rng.below(a_out as usize) as u16;
            let r = if choose_link {
                g.connect_to_parameter(ida, sc, par, idb)
            } else {
                g.connect_replace_to_parameter(ida, sc, par, idb)
            };
            (r, format!("cycle by link n{a}->n{b}.{par:?}"))
        }
        5 if b_in > 0 => {
            let sc = a_out.saturating_add(far);
            (conn(g, mode, ng(ida), sc, 0, ng(idb)), format!("source channel {sc} of n{a} {mode:?}"))
        }
        6 if a_out > 0 => {
            let dc = b_in.saturating_add(far);
            (conn(g, mode, ng(ida), 0, dc, ng(idb)), format!("sink channel {dc} of n{b} {mode:?}"))
        }
        7 if b_in > 0 => {
            let sc = n_in.saturating_add(far);
            (conn(g, plain, NodeOrGraph::Graph, sc, 0, ng(idb)), format!("graph input {sc} {plain:?}"))
        }
        8 if a_out > 0 => {
            let dc = n_out.saturating_add(far);
            (conn(g, plain, ng(ida), 0, dc, NodeOrGraph::Graph), format!("graph output {dc} {plain:?}"))
        }
        9 => {
            if n_in > 0 && c.rng.chance(1, 2) {
                let dc = n_out.saturating_add(far);
                (conn(g, plain, NodeOrGraph::Graph, 0, dc, NodeOrGraph::Graph), format!("in 0 -> graph output {dc}"))
            } else {
                let sc = n_in.saturating_add(far);
                (conn(g, plain, NodeOrGraph::Graph, sc, 0, NodeOrGraph::Graph), format!("graph input {sc} -> out 0"))
            }
        }
        10 | 11 => {
            let Some((x, w)) = bad_id else { return Ok(None) };
            if c.rng.chance(1, 2) {
                (conn(g, mode, ng(x), 0, 0, ng(idb)), format!("{w} source -> n{b} {mode:?}"))
            } else if a_out > 0 && c.rng.chance(1, 2) {
                (conn(g, mode, ng(ida), 0, 0, ng(x)), format!("n{a} -> {w} sink {mode:?}"))
            } else if c.rng.chance(1, 2) {
                (conn(g, plain, ng(x), 0, 0, NodeOrGraph::Graph), format!("{w} source -> out {plain:?}"))
            } else if n_in > 0 {
                (conn(g, plain, NodeOrGraph::Graph, 0, 0, ng(x)), format!("in -> {w} sink {plain:?}"))
            } else {
                return Ok(None);
            }
        }
        12 if a_out > 0 => {
            let Some((x, w)) = bad_id else { return Ok(None) };
            let rev = c.rng.chance(1, 2);
            let (from, to) = if rev { (x, idb) } else { (ida, x) };
            let r = if choose_link {
                g.connect_to_parameter(from, 0, par, to)
            } else {
                g.connect_replace_to_parameter(from, 0, par, to)
            };
            (r, format!("link with {w} {}", if rev { "source" } else { "sink" }))
        }
        13 if a_out > 0 && a != b => {
            let bad = if by_name { Param::Desc(near_name(&mut c.rng, &["alpha", "beta", "gamma"])) } else { Param::Index(NPARAMS + far as usize) };
            let r = if choose_link {
                g.connect_to_parameter(ida, 0, bad, idb)
            } else {
                g.connect_replace_to_parameter(ida, 0, bad, idb)
            };
            (r, format!("link to {bad:?}"))
        }
        14 if a != b => {
            let sc = a_out.saturating_add(far);
            let r = if choose_link {
                g.connect_to_parameter(ida, sc, par, idb)
            } else {
                g.connect_replace_to_parameter(ida, sc, par, idb)
            };
            (r, format!("link from channel {sc} of n{a}"))
        }
        15 => {
            let sc = a_out.saturating_add(far);
            (g.disconnect_output_from_source(ng(ida), sc), format!("disconnect output {sc} of n{a}"))
        }
        16 => {
            let dc = b_in.saturating_add(far);
            (g.disconnect_input_to_sink(dc, ng(idb)), format!("disconnect input {dc} of n{b}"))
        }
        17 => {
            if c.rng.chance(1, 2) {
                let x = n_out.saturating_add(far);
                (g.disconnect_input_to_sink(x, NodeOrGraph::Graph), format!("disconnect graph output {x}"))
            } else {
                let x = n_in.saturating_add(far);
                (g.disconnect_output_from_source(NodeOrGraph::Graph, x), format!("disconnect graph input {x}"))
            }
        }
        18 => {
            let Some((x, w)) = bad_id else { return Ok(None) };
            if c.rng.chance(1, 2) {
                (g.disconnect_output_from_source(ng(x), 0), format!("disconnect output of {w}"))
            } else {
                (g.disconnect_input_to_sink(0, ng(x)), format!("disconnect input of {w}"))
            }
        }
        19 => {
            let Some((x, w)) = bad_id else { return Ok(None) };
            (g.edit(|e| e.free_node(x)), format!("free {w}"))
        }
        20 => {
            let Some((x, w)) = bad_id else { return Ok(None) };
            let m = c.rng.chance(1, 2);
            (g.set_mortality(x, m), format!("mortality of {w}"))
        }
        21 => {
            let Some((x, w)) = bad_id else { return Ok(None) };
            (g.set(x, par, 1.0 as PFloat, Time::asap()), format!("set {w}"))
        }
        22 => {
            let bad = if by_name { Param::Desc("") } else { Param::Index(NPARAMS + far as usize) };
            if in_edit {
                (g.edit(|e| e.set(ida, bad, 1.0 as PFloat, Time::asap())), format!("edit set {bad:?}"))
            } else {
                (g.set(ida, bad, 1.0 as PFloat, Time::asap()), format!("set {bad:?}"))
            }
        }
        23 => {
            // immortal nodes are not freed
            if let Err(e) = g.set_mortality(ida, false) {
                bail!("valid-refused", "set_mortality of live n{a}: {e}");
            }
            let r = g.edit(|e| e.free_node(ida));
            if let Err(e) = g.set_mortality(ida, true) {
                bail!("valid-refused", "set_mortality of live n{a}: {e}");
            }
            (r, format!("free immortal n{a}"))
        }
        _ => return Ok(None),
    };
    match r {
        Ok(()) => bail!("invalid-accepted", "{what}: accepted"),
        Err(e) => {
            c.count(what_of(&e), 1);
            Ok(Some(what))
        }
    }
}

/// Invalid requests through the handles of an edit, which report errors in the log or as None.
fn invalid_handles<F: Float>(s: &mut Sys<F>, c: &mut Case, f: &Foreign<F>) -> Result<Option<String>, Violation> {
    let alive = s.m.alive();
    let dead: Vec<usize> = (0..s.m.nodes.len()).filter(|k| !s.m.nodes[*k].alive).collect();
    if alive.is_empty() {
        return Ok(None);
    }
    let a = *c.rng.pick(&alive);
    let b = *c.rng.pick(&alive);
    let (ida, idb) = (s.nid(a), s.nid(b));
    let cycle = s.m.has_path(b, a) && s.m.nodes[a].outs > 0 && s.m.nodes[b].ins > 0;
    let x = match c.rng.below(3) {
        0 | 1 if !dead.is_empty() => s.nid(*c.rng.pick(&dead)),
        _ => *c.rng.pick(&f.ids),
    };
    let far = *c.rng.pick(&[0u16, 1, 50, 60000]);
    let kind = c.rng.below(9);
    let (ao, bi) = (s.m.nodes[a].outs as u16, s.m.nodes[b].ins as u16);
    let n_in = s.n_in as u16;
    let n_out = s.n_out as u16;
    let g = s.g.as_mut().unwrap();
    let r: Result<Option<String>, String> = g.edit(|e| match kind {
        0 => {
            if e.handle(x).is_some() {
                return Err("handle of a node that is not in the graph".into());
            }
            Ok(Some("handle".into()))
        }
        1 => {
            let h = e.handle(ida).unwrap();
            if h.try_param("delta").is_some() || e.handle(ida).unwrap().try_param(NPARAMS + far as usize).is_some() {
                return Err("parameter that does not exist".into());
            }
            Ok(Some("try_param".into()))
        }
        2 if cycle => {
            // only the first channels are certain to be cyclic, as all are between the same nodes
            e.handle(ida).unwrap().to(e.handle(idb).unwrap());
            Ok(Some(format!("DH.to cycle n{a}->n{b}")))
        }
        3 if cycle => {
            e.handle(ida).unwrap().to_replace(e.handle(idb).unwrap());
            Ok(Some(format!("DH.to_replace cycle n{a}->n{b}")))
        }
        4 if cycle => match e.handle(ida).unwrap().try_to(e.handle(idb).unwrap()) {
            Ok(_) => Err("try_to accepted a cycle".into()),
            Err(_) => Ok(Some(format!("DH.try_to cycle n{a}->n{b}"))),
        },
        5 => {
            e.handle(ida).unwrap().disconnect_output(ao.saturating_add(far));
            e.handle(idb).unwrap().disconnect_input(bi.saturating_add(far));
            Ok(Some("DH.disconnect out of range".into()))
        }
        6 => match e.from_inputs(n_in.saturating_add(far)) {
            Ok(_) => Err("graph input that does not exist".into()),
            Err(_) => Ok(Some("from_inputs".into())),
        },
        7 if ao > 0 => {
            e.handle(ida).unwrap().to_graph_out_channels(n_out.saturating_add(far));
            e.handle(ida).unwrap().to_graph_out_channels_replace(n_out.saturating_add(far));
            Ok(Some("graph output out of range".into()))
        }
        8 => {
            if e.handle_from_name("no such node").is_some() {
                return Err("found a node by a name nobody has".into());
            }
            match e.free_node(x) {
                Ok(_) => Err("freed a node that is not in the graph".into()),
                Err(_) => Ok(Some("free in edit".into())),
            }
        }
        _ => Ok(None),
    });
    match r {
        Err(w) => bail!("invalid-accepted", "{w}"),
        Ok(o) => {
            if o.is_some() {
                c.count("through handles", 1);
            }
            Ok(o)
        }
    }
}

/// The same with static handles, in one edit.
fn static_handles(c: &mut Case) -> Res {
    let bs = c.rng.block(&[1usize, 4, 16]);
    let (mut g, mut p, _rx) = make::<f32>(1, 2, bs, 48000, 30);
    let sh: Vec<_> = (0..3).map(|k| Shared::new(k)).collect();
    let kind = c.rng.below(10);
    let shc = sh.clone();
    g.edit(|e| {
        let k = |i: usize| Probe::<f32, U1, U1>::new(Core::new(100 * (i as i64 + 1), false, shc[i].clone()));
        let a = e.push(k(0));
        let b = e.push(k(1));
        a.to(b);
        b.to_graph_out();
        match kind {
            0 => drop(b.to(a)),
            1 => drop(b.to_replace(a)),
            2 => drop(a.to(a)),
            3 => drop(a.to_replace(a)),
            4 => {
                a.disconnect_output(1);
                a.disconnect_input(5);
                b.to_graph_out_channels(7);
                b.to_graph_out_channels_replace(2);
            }
            // outputs that do not exist, selected through either kind of handle
            6 => {
                drop(a.out(1).to_replace(b));
                drop((a | b).out([0, 7]).to(b | b));
                // the first of the two selected outputs does exist
                b.disconnect_input(0);
                drop(a.to(b));
                drop(a.out(u16::MAX).to_feedback(b));
                a.out(3).to_graph_out_replace();
            }
            7 => {
                drop(a.dynamic().out(1).to_replace(b.dynamic()));
                drop(a.dynamic().out([9, 1]).to(b.dynamic()));
                a.dynamic().out(2).to_graph_out();
                let _ = a.dynamic().out(4) * b.dynamic();
                let _ = a.out(2) + 1.5;
                b.link("alpha", a.out(9));
            }
            // a node freed in this very edit
            8 => {
                let q = e.push(k(2));
                if e.free_node(q.id()).is_err() {
                    panic!("freeing a node just pushed was refused");
                }
                drop(q.to(b));
                drop(q.to_replace(b));
                drop(q.dynamic().to(b.dynamic()));
                drop(b.dynamic().to_feedback(q.dynamic()));
                drop(q.dynamic().to_replace(b.dynamic()));
                drop((q | a).out(0).to_replace(b));
                q.to_graph_out_replace();
                let _ = q.name("ghost");
                b.link("beta", q);
                q.link("beta", b);
                let _ = q.try_param("alpha");
                let _ = q.try_param(9usize);
                let _ = q.dynamic().out(0) * 2.0;
            }
            _ => {
                let q = e.push(Probe::<f32, U0, U4>::new(Core::new(9, false, shc[2].clone())));
                let _ = q;
                a.link(near_name(&mut c.rng, &["alpha", "beta", "gamma"]), b);
                a.link("alpha", b);
            }
        }
    });
    c.note(format!("static {kind} bs {bs}"));
    let x = [0i64];
    let mut ain = [0i64];
    probe_frame(100, &mut 0, false, &[0; 3], &x, &mut ain);
    let mut out = [0i64];
    probe_frame(200, &mut 0, false, &[0; 3], &ain, &mut out);
    for _ in 0..2 {
        let inp = vec![7.0f32; bs];
        crate::probe::run_any(&mut p, &[&inp]);
        use knaster_core::Block;
        let got = p.output_block().channel_as_slice_mut(0)[0];
        ensure!(got as i64 == out[0], "output", "static handles, case {kind}: {got}, want {}", out[0]);
    }
    c.nontrivial();
    Ok(())
}

fn hist<F: Float>(c: &mut Case, links: bool) -> Res {
    let (i, o) = *c.rng.pick(GSHAPES);
    let bs = c.rng.block(&[1usize, 3, 8, 32]);
    let mut s = Sys::<F>::new(i, o, bs, 48000, 200);
    let (mut fg, _fp, _frx) = make::<F>(1, 1, bs, 48000, 20);
    let mut ids = vec![];
    for k in 0..3 {
        ids.push(push_probe_raw(&mut fg, 1, 1, Core::new(k, false, Shared::new(1000))));
    }
    // a node of a graph nested in this one
    let nested = s.g.as_mut().unwrap().edit(|e| {
        let (_h, mut sub) = e.subgraph::<U1, U1>(GraphOptions::default(), |_| {});
        let id = push_probe_raw(&mut sub, 1, 1, Core::new(1, false, Shared::new(1001)));
        sub.edit(|_| {});
        ids.push(id);
        sub
    });
    let f = Foreign { _g: fg, ids };
    let cfg = EditCfg {
        feedback: c.rng.chance(1, 2),
        fb_only: false,
        free: true,
        links,
        stateful: true,
        max_nodes: 8,
        shapes: SHAPES.to_vec(),
        disconnect: true,
    };
    let steps = 6 + c.rng.below(if c.thorough { 50 } else { 25 });
    let mut refused = 0;
    for _ in 0..steps {
        random_edit(&mut s, c, &cfg)?;
        let committed = c.rng.chance(1, 2);
        if committed {
            s.commit();
        }
        for _ in 0..c.rng.below(4) {
            let before = if committed { snapshot(s.g.as_ref().unwrap()) } else { vec![] };
            let r = if c.rng.chance(1, 5) { invalid_handles(&mut s, c, &f)? } else { invalid(&mut s, c, &f)? };
            if let Some(w) = r {
                refused += 1;
                c.note(format!("refused: {w}"));
                if committed {
                    let after = snapshot(s.g.as_ref().unwrap());
                    if after != before {
                        let d: Vec<_> = before.iter().filter(|x| !after.contains(x)).collect();
                        let e: Vec<_> = after.iter().filter(|x| !before.contains(x)).collect();
                        bail!("changed", "refused request ({w}) changed the graph: gone {d:?}, new {e:?}");
                    }
                }
            }
        }
        if c.rng.chance(1, 3) {
            s.commit();
            s.render(&mut c.rng.clone())?;
        }
    }
    s.commit();
    for _ in 0..3 {
        let mut r = c.rng.clone();
        s.render(&mut r)?;
    }
    if refused > 0 {
        c.nontrivial();
    }
    c.count("invalid requests refused", refused);
    drop(nested);
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "A case counts when at least one invalid request was made and refused, and the graph was rendered and compared with the reference model afterwards; distinct by the hash of the edit log.".into();
    r.cases("histories", r.n(40000, 800000), |c| {
        if c.rng.chance(1, 4) { hist::<f64>(c, true) } else { hist::<f32>(c, true) }
    });
    r.cases("static", r.n(3000, 30000), static_handles);
}

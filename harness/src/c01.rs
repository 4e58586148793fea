//! C01: rendered audio equals the evaluation of the connected graph.
use crate::common::*;
use crate::gm::*;
use crate::probe::{SHAPES, WIDE_SHAPES};
use knaster_core::Float;

pub fn history<F: Float>(c: &mut Case, cfg: &EditCfg, rounds: usize) -> Res {
    let (ni, no) = *c.rng.pick(GSHAPES);
    let bs = c.rng.block(&[1usize, 2, 3, 4, 7, 8, 16]);
    c.note(format!("graph({ni},{no}) bs={bs} F={}", std::any::type_name::<F>()));
    let mut s = Sys::<F>::new(ni, no, bs, 48000, 4000);
    let start = c.rng.below(14);
    for _ in 0..start {
        random_edit(&mut s, c, cfg)?;
    }
    let mut compared = 0;
    let mut fb = 0;
    for _ in 0..rounds {
        let edits = match c.rng.below(6) {
            0 => 0,
            1..=3 => 1 + c.rng.below(3),
            4 => 4 + c.rng.below(8),
            _ => 10 + c.rng.below(20),
        };
        for _ in 0..edits {
            random_edit(&mut s, c, cfg)?;
        }
        s.commit();
        for _ in 0..1 + c.rng.below(3) {
            fb += s.m.nodes.iter().flat_map(|n| n.inputs.iter().flatten()).filter(|e| matches!(e, Src::Fb(..))).count();
            s.render(&mut c.rng)?;
            compared += no * bs;
        }
    }
    c.count("output samples compared with the evaluation", compared as u64);
    c.count("feedback edge blocks rendered", fb as u64);
    c.count("edges in final graphs", s.m.nodes.iter().map(|n| n.inputs.iter().map(|i| i.len()).sum::<usize>()).sum::<usize>() as u64);
    if s.m.outputs.iter().any(|o| !o.is_empty()) && (s.m.alive().len() > 2 || cfg.fb_only) && (!cfg.feedback || fb > 0) {
        c.nontrivial();
    }
    Ok(())
}

/// Hundreds of nodes, wide nodes and graphs, long chains, many connections to one input, real world block
/// sizes, many nodes freed at once.
pub fn large<F: Float>(c: &mut Case, feedback: bool) -> Res {
    let (ni, no) = *c.rng.pick(WIDE_GSHAPES);
    let most = c.rng.below(400) + 1;
    let n = 60 + c.rng.below(most);
    let mut bs = *c.rng.pick(&[1usize, 5, 32, 64, 100, 128, 256, 441, 512, 1024, 2048]);
    while bs * n > 60_000 {
        bs /= 2;
    }
    c.note(format!("graph({ni},{no}) bs={bs} nodes={n} F={}", std::any::type_name::<F>()));
    let mut s = Sys::<F>::new(ni, no, bs, 44100, 4000);
    let shapes: Vec<(usize, usize)> = SHAPES.iter().chain(WIDE_SHAPES).chain(WIDE_SHAPES).copied().collect();
    let style = c.rng.below(4);
    c.note(format!("style {style}"));
    let mut ids = vec![];
    for _ in 0..n {
        let (i, o) = match style {
            0 => *c.rng.pick(&[(1, 1), (2, 1), (8, 8), (1, 2)]),
            _ => *c.rng.pick(&shapes),
        };
        let st = c.rng.chance(2, 3);
        ids.push(s.push(i, o, st));
    }
    // The order in which they depend on each other has nothing to do with the order they were made in
    for i in (1..ids.len()).rev() {
        let j = c.rng.below(i + 1);
        ids.swap(i, j);
    }
    let any_out = |s: &Sys<F>, rng: &mut Rng, n: usize| -> Option<Src> {
        let o = s.m.nodes[n].outs;
        if o == 0 { None } else { Some(Src::Node(n, rng.below(o) as u16)) }
    };
    let mut deepest = 0;
    let mut fan = 0;
    match style {
        0 => {
            // one chain
            for w in ids.windows(2) {
                let src = any_out(&s, &mut c.rng, w[0]).unwrap();
                let ch = c.rng.below(s.m.nodes[w[1]].ins);
                s.connect(src, Some(w[1]), ch, Mode::Add)?;
            }
            deepest = ids.len();
        }
        1 => {
            // very many connections to one input
            let sink = ids[ids.len() - 1];
            for k in 0..ids.len() - 1 {
                let Some(src) = any_out(&s, &mut c.rng, ids[k]) else { continue };
                if s.m.nodes[sink].ins > 0 && c.rng.chance(2, 3) {
                    s.connect(src, Some(sink), 0, Mode::Add)?;
                    fan += 1;
                } else if no > 0 {
                    s.connect(src, None, 0, Mode::Add)?;
                }
            }
        }
        _ => {
            // every input from a few earlier nodes
            for k in 1..ids.len() {
                for ch in 0..s.m.nodes[ids[k]].ins {
                    for _ in 0..c.rng.below(if style == 2 { 3 } else { 8 }) {
                        if ni > 0 && c.rng.chance(1, 8) {
                            let i = c.rng.below(ni) as u16;
                            s.connect(Src::In(i), Some(ids[k]), ch, Mode::Add)?;
                            continue;
                        }
                        let from = if style == 2 { k - 1 - c.rng.below(k.min(12)) } else { c.rng.below(k) };
                        let Some(src) = any_out(&s, &mut c.rng, ids[from]) else { continue };
                        s.connect(src, Some(ids[k]), ch, Mode::Add)?;
                    }
                }
            }
        }
    }
    if feedback {
        for _ in 0..n / 4 {
            let (a, b) = (*c.rng.pick(&ids), *c.rng.pick(&ids));
            let Some(src) = any_out(&s, &mut c.rng, a) else { continue };
            if s.m.nodes[b].ins > 0 {
                let ch = c.rng.below(s.m.nodes[b].ins);
                s.connect(src, Some(b), ch, Mode::FbAdd)?;
            }
        }
    }
    for ch in 0..no {
        for _ in 0..1 + c.rng.below(20) {
            let k = if style == 0 { ids.len() - 1 } else { c.rng.below(ids.len()) };
            if let Some(src) = any_out(&s, &mut c.rng, ids[k]) {
                s.connect(src, None, ch, Mode::Add)?;
            }
        }
    }
    s.commit();
    let mut compared = 0;
    for round in 0..3 {
        for _ in 0..2 {
            s.render(&mut c.rng)?;
            compared += no * bs;
        }
        let alive = s.m.alive();
        let mut gone = vec![];
        for k in alive {
            if c.rng.chance(1, if round == 0 { 8 } else { 2 }) {
                gone.push(k);
            }
        }
        s.free_many(&gone)?;
        c.count("nodes freed together", gone.len() as u64);
        s.render(&mut c.rng)?;
        // and others in their place
        let fresh: Vec<usize> = (0..gone.len() / 2)
            .map(|_| {
                let (i, o) = *c.rng.pick(&shapes);
                s.push(i, o, true)
            })
            .collect();
        for k in fresh {
            for ch in 0..s.m.nodes[k].ins {
                let alive = s.m.alive();
                let a = *c.rng.pick(&alive);
                if s.m.has_path(k, a) {
                    continue;
                }
                let Some(src) = any_out(&s, &mut c.rng, a) else { continue };
                s.connect(src, Some(k), ch, Mode::Add)?;
            }
            if no > 0 {
                if let Some(src) = any_out(&s, &mut c.rng, k) {
                    let ch = c.rng.below(no);
                    s.connect(src, None, ch, Mode::Add)?;
                }
            }
        }
        s.commit();
    }
    for _ in 0..2 {
        s.render(&mut c.rng)?;
        compared += no * bs;
    }
    c.count("output samples compared in large graphs", compared as u64);
    c.count("nodes in large graphs", n as u64);
    c.count("longest chains (nodes)", deepest as u64);
    c.count("connections to one input", fan as u64);
    if no > 0 {
        c.nontrivial();
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "random edit histories over probe nodes with integer-valued, stateful, injective outputs in graphs of several channel layouts and block sizes, and over large graphs of 60 to 460 nodes of up to 20 channels; every rendered sample of every graph output is compared exactly with an independent evaluation of the connection multigraph; non-trivial: more than two live nodes and a connected graph output; distinct by the edit history".into();
    let base = EditCfg {
        feedback: false,
        fb_only: false,
        free: true,
        links: false,
        stateful: true,
        max_nodes: 40,
        shapes: SHAPES.to_vec(),
        disconnect: true,
    };
    let build = EditCfg { free: false, disconnect: false, shapes: SHAPES.to_vec(), ..base };
    r.cases("build", r.n(20000, 300000), |c| {
        if c.rng.chance(1, 2) { history::<f32>(c, &build, 3) } else { history::<f64>(c, &build, 3) }
    });
    let base = EditCfg { free: true, disconnect: true, shapes: SHAPES.to_vec(), ..build };
    r.cases("edits", r.n(40000, 1000000), |c| {
        if c.rng.chance(1, 2) { history::<f32>(c, &base, 8) } else { history::<f64>(c, &base, 8) }
    });
    r.cases("large", r.n(600, 8000), |c| {
        let fb = c.rng.chance(1, 4);
        if c.rng.chance(1, 2) { large::<f32>(c, fb) } else { large::<f64>(c, fb) }
    });
}

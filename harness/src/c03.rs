//! C03: feedback delays by exactly one block.
use crate::c01::history;
use crate::common::*;
use crate::gm::*;
use crate::c14::{Lin, Src};
use crate::probe::SHAPES;
use crate::ensure;
use knaster_core::Float;
use knaster_core::typenum::*;
use std::marker::PhantomData;

/// Connections of every kind made through the handles of an edit, statically typed and dynamic.
fn handles<F: Float>(c: &mut Case) -> Res {
    let bs = c.rng.block(&[1usize, 2, 5, 16, 64]);
    let blocks = 5;
    let n = bs * blocks;
    let (mut g, mut p, _rx) = crate::gm::make::<F>(0, 2, bs, 48000, 100);
    let mut vals = |k: usize| -> Vec<Vec<f64>> {
        (0..k).map(|_| (0..n).map(|_| c.rng.below(19) as f64 - 9.0).collect()).collect()
    };
    let (va, vs) = (vals(2), vals(1));
    let mut w = |i: usize, o: usize| -> Vec<Vec<f64>> {
        (0..o).map(|_| (0..i).map(|_| c.rng.below(3) as f64 - 1.0).collect()).collect()
    };
    let (wb, wm) = (w(2, 2), w(1, 1));
    let f = |v: &Vec<Vec<f64>>| -> Vec<Vec<F>> { v.iter().map(|r| r.iter().map(|x| F::new(*x)).collect()).collect() };
    // inputs: b's two, m's one; sources: a's two channels, s, b's two, m: (source, channel, feedback)
    let mut ins: Vec<Vec<(char, usize, bool)>> = vec![vec![]; 3];
    let mut outs: Vec<Vec<(char, usize)>> = vec![vec![]; 2];
    let ops: Vec<(usize, usize, bool, usize)> =
        (0..1 + c.rng.below(5)).map(|_| (c.rng.below(9), c.rng.below(4), c.rng.chance(1, 2), c.rng.below(4))).collect();
    let order = c.rng.chance(1, 2);
    let out_kind = c.rng.below(4);
    c.note(format!("handles bs {bs} F={} wb {wb:?} wm {wm:?} ops {ops:?} order {order} out {out_kind}", std::any::type_name::<F>()));
    let fb_any = ops.iter().any(|o| o.1 & 2 != 0);
    g.edit(|g| {
        let mut sa = || g.push(Src::<F, U2> { data: f(&va), pos: 0, m: PhantomData });
        let mut ss = || g.push(Src::<F, U1> { data: f(&vs), pos: 0, m: PhantomData });
        let lb = || g.push(Lin::<F, U2, U2> { w: f(&wb), m: PhantomData });
        let lm = || g.push(Lin::<F, U1, U1> { w: f(&wm), m: PhantomData });
        let (a, s, b, m);
        if order {
            (a, s, b, m) = (sa(), ss(), lb(), lm());
        } else {
            (m, b) = (lm(), lb());
            (s, a) = (ss(), sa());
        }
        // mode: bit 0 replaces, bit 1 is feedback
        macro_rules! conn {
            ($x:expr, $y:expr, $mode:expr, $dynamic:expr) => {
                match ($mode, $dynamic) {
                    (0, false) => drop($x.to($y)),
                    (1, false) => drop($x.to_replace($y)),
                    (2, false) => drop($x.to_feedback($y)),
                    (_, false) => drop($x.to_feedback_replace($y)),
                    (0, true) => drop($x.dynamic().to($y.dynamic())),
                    (1, true) => drop($x.dynamic().to_replace($y.dynamic())),
                    (2, true) => drop($x.dynamic().to_feedback($y.dynamic())),
                    (_, true) => drop($x.dynamic().to_feedback_replace($y.dynamic())),
                }
            };
        }
        for (kind, mode, dynamic, sel) in &ops {
            let (mode, dynamic, sel) = (*mode, *dynamic, *sel);
            let (c0, c1) = (sel & 1, sel >> 1);
            // a node's own output can only be fed back
            let own = mode | 2;
            let (mode, to, from): (usize, usize, Vec<(char, usize)>) = match kind {
                0 => (mode, 0, vec![('a', 0), ('a', 1)]),
                1 => (mode, 0, vec![('a', c0), ('a', c1)]),
                2 => (own, 0, vec![('b', 0), ('b', 1)]),
                3 => (own, 0, vec![('b', c0), ('b', c1)]),
                4 => (own, 0, vec![('m', 0), ('s', 0)]),
                5 => (mode, 2, vec![('s', 0)]),
                6 => (own, 2, vec![('m', 0)]),
                7 => (mode, 2, vec![('b', c0)]),
                _ => (mode, 0, vec![('s', 0), ('a', c1)]),
            };
            let pick2 = [c0 as u16, c1 as u16];
            match kind {
                0 => conn!(a, b, mode, dynamic),
                1 => conn!(a.out(pick2), b, mode, dynamic),
                2 => conn!(b, b, mode, dynamic),
                3 => conn!(b.out(pick2), b, mode, dynamic),
                4 => conn!(m.stack(s), b, mode, dynamic),
                5 => conn!(s, m, mode, dynamic),
                6 => conn!(m, m, mode, dynamic),
                7 => conn!(b.out([c0 as u16]), m, mode, dynamic),
                _ => conn!(s.stack(a.out([c1 as u16])), b, mode, dynamic),
            }
            for (i, (x, ch)) in from.iter().enumerate() {
                if mode & 1 == 1 {
                    ins[to + i].clear();
                }
                ins[to + i].push((*x, *ch, mode & 2 == 2));
            }
        }
        match out_kind {
            0 => {
                b.to_graph_out();
                outs = vec![vec![('b', 0)], vec![('b', 1)]];
            }
            1 => {
                b.to_graph_out_channels([1, 0]);
                m.to_graph_out_channels([1]);
                outs = vec![vec![('b', 1)], vec![('b', 0), ('m', 0)]];
            }
            2 => {
                a.to_graph_out();
                b.to_graph_out_replace();
                outs = vec![vec![('b', 0)], vec![('b', 1)]];
            }
            _ => {
                b.out([1]).stack(m).to_graph_out();
                b.out([0]).to_graph_out_channels([0]);
                outs = vec![vec![('b', 1), ('b', 0)], vec![('m', 0)]];
            }
        }
    });
    let mut vb = vec![vec![0.0; n]; 2];
    let mut vm = vec![0.0; n];
    for fr in 0..n {
        // b before m: m's output only reaches b fed back
        for to in [0usize, 2] {
            let k = if to == 0 { 2 } else { 1 };
            let x: Vec<f64> = (0..k)
                .map(|i| {
                    ins[to + i]
                        .iter()
                        .map(|(s, ch, fb)| {
                            let at = if *fb { fr as i64 - bs as i64 } else { fr as i64 };
                            if at < 0 {
                                return 0.0;
                            }
                            match s {
                                'a' => va[*ch][at as usize],
                                's' => vs[0][at as usize],
                                'b' => vb[*ch][at as usize],
                                _ => vm[at as usize],
                            }
                        })
                        .sum()
                })
                .collect();
            let ws = if to == 0 { &wb } else { &wm };
            for (o, r) in ws.iter().enumerate() {
                let y = r.iter().zip(&x).map(|(a, b)| a * b).sum();
                if to == 0 { vb[o][fr] = y } else { vm[fr] = y }
            }
        }
    }
    for blk in 0..blocks {
        crate::probe::run_any(&mut p, &[]);
        let ob = p.output_block();
        for o in 0..2 {
            for fr in 0..bs {
                let got = Float::to_f64(knaster_core::Block::read(&ob, o, fr));
                let want: f64 =
                    outs[o].iter().map(|(s, ch)| if *s == 'b' { vb[*ch][blk * bs + fr] } else { vm[blk * bs + fr] }).sum();
                ensure!(
                    got == want,
                    "handles",
                    "output {o} frame {} is {got} instead of {want}; inputs {ins:?}, outputs {outs:?}",
                    blk * bs + fr
                );
            }
        }
    }
    if fb_any {
        c.nontrivial();
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "random edit histories with additive and replacing feedback connections between probe nodes (including cycles and self loops), compared sample by sample with an evaluation in which a feedback edge carries the source channel's samples of the previous block, and (handles) connections of every kind made through static and dynamic handles, selections and stacks against a recursion; non-trivial: a live feedback edge existed while rendering; distinct by edit history".into();
    let cfg = EditCfg {
        feedback: true,
        fb_only: false,
        free: true,
        links: false,
        stateful: true,
        max_nodes: 24,
        shapes: SHAPES.to_vec(),
        disconnect: true,
    };
    r.cases("build", r.n(12000, 200000), |c| {
        let cfg = EditCfg { free: false, disconnect: false, shapes: cfg.shapes.clone(), ..cfg };
        if c.rng.chance(1, 2) { history::<f32>(c, &cfg, 4) } else { history::<f64>(c, &cfg, 4) }
    });
    r.cases("edits", r.n(25000, 600000), |c| {
        if c.rng.chance(1, 2) { history::<f32>(c, &cfg, 8) } else { history::<f64>(c, &cfg, 8) }
    });
    r.cases("handles", r.n(20000, 400000), |c| if c.rng.chance(1, 2) { handles::<f32>(c) } else { handles::<f64>(c) });
    // small graphs made of feedback connections almost exclusively: every order of the two nodes
    r.cases("loops", r.n(8000, 100000), |c| {
        let cfg = EditCfg { fb_only: true, max_nodes: 3, shapes: vec![(1, 1), (2, 2), (1, 2)], ..cfg };
        if c.rng.chance(1, 2) { history::<f32>(c, &cfg, 6) } else { history::<f64>(c, &cfg, 6) }
    });
}

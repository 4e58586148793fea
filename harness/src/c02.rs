//! C02: edits are atomic; live nodes run once per frame and keep their state.
use crate::common::*;
use crate::gm::*;
use crate::probe::*;
use crate::{bail, ensure};
use knaster_core::typenum::*;
use knaster_core::{Block, Float};
use knaster_graph::graph::NodeOrGraph;
use knaster_graph::graph_edit::GraphEdit;
use std::sync::atomic::Ordering::SeqCst;

/// Every probe ran exactly as often as the model says, from the same frame on.
pub fn accounting<F: Float>(s: &Sys<F>) -> Res {
    for (k, n) in s.m.nodes.iter().enumerate() {
        let sh = &n.core.shared;
        let (b, i) = (sh.blocks.load(SeqCst), sh.inits.load(SeqCst));
        let single = sh.singles.load(SeqCst) > 0;
        ensure!(
            single || b == n.blocks,
            "run-count",
            "at clock {}: node {k} (alive: {}) processed {b} blocks, it should have processed {}",
            s.m.clock,
            n.alive,
            n.blocks
        );
        ensure!(
            sh.frames.load(SeqCst) == n.blocks * s.bs as u64,
            "run-count",
            "node {k} processed {} frames in {b} blocks of {}",
            sh.frames.load(SeqCst),
            s.bs
        );
        ensure!(
            single || sh.first_clock.load(SeqCst) == n.first_clock,
            "start",
            "node {k} first ran at frame {}, should be {}",
            sh.first_clock.load(SeqCst),
            n.first_clock
        );
        if n.blocks > 0 {
            ensure!(i == 1, "init-count", "node {k} was initialised {i} times");
            ensure!(
                single || sh.last_clock.load(SeqCst) == n.first_clock + (n.blocks as i64 - 1) * s.bs as i64,
                "clock",
                "node {k}: last clock {} after {} blocks from {}",
                sh.last_clock.load(SeqCst),
                n.blocks,
                n.first_clock
            );
            ensure!(
                sh.sr.load(SeqCst) == s.sr as u64 && sh.bs.load(SeqCst) == s.bs as u64,
                "init-args",
                "node {k} initialised with sample rate {} block size {}",
                sh.sr.load(SeqCst),
                sh.bs.load(SeqCst)
            );
        }
    }
    Ok(())
}
/// Render while an edit is under way: what is rendered is the graph as last committed.
pub fn render_committed<F: Float>(s: &mut Sys<F>, committed: &mut Model, rng: &mut Rng) -> Res {
    std::mem::swap(&mut s.m, committed);
    let r = s.render(rng);
    std::mem::swap(&mut s.m, committed);
    carry(&mut s.m, committed);
    r
}
pub fn carry(m: &mut Model, committed: &Model) {
    m.clock = committed.clock;
    for (a, b) in m.nodes.iter_mut().zip(committed.nodes.iter()) {
        a.core.acc = b.core.acc;
        a.out = b.out.clone();
        a.prev = b.prev.clone();
        a.blocks = b.blocks;
        a.first_clock = b.first_clock;
    }
}
/// feedback edges that are new in this commit are silent in its first block
fn births(m: &mut Model) {
    for e in m.nodes.iter_mut().flat_map(|n| n.inputs.iter_mut().flatten()) {
        if let Src::Fb(_, _, b @ UNBORN) = e {
            *b = m.clock;
        }
    }
}
/// made in an edit that is not committed yet
const UNBORN: u64 = u64::MAX;

pub fn raw_history<F: Float>(c: &mut Case, rounds: usize, mid: bool) -> Res {
    let cfg = EditCfg {
        feedback: !mid,
        fb_only: false,
        free: !mid,
        links: !mid && c.rng.chance(1, 3),
        stateful: true,
        max_nodes: 24,
        shapes: SHAPES.to_vec(),
        disconnect: true,
    };
    let (ni, no) = *c.rng.pick(GSHAPES);
    let bs = c.rng.block(&[1usize, 2, 3, 4, 7, 8, 16]);
    let sr = *c.rng.pick(&[44100u32, 48000, 96000]);
    let mut s = Sys::<F>::new(ni, no, bs, sr, 4000);
    let mut mids = 0;
    for _ in 0..rounds {
        let mut committed = s.m.clone();
        for _ in 0..c.rng.below(12) {
            random_edit(&mut s, c, &cfg)?;
            if mid && c.rng.chance(1, 4) {
                c.note("render");
                render_committed(&mut s, &mut committed, &mut c.rng)?;
                accounting(&s)?;
                mids += 1;
            }
        }
        s.commit();
        if c.rng.chance(1, 4) {
            // several commits between two blocks
            continue;
        }
        for _ in 0..1 + c.rng.below(3) {
            s.render(&mut c.rng)?;
            accounting(&s)?;
        }
    }
    s.render(&mut c.rng)?;
    accounting(&s)?;
    c.count("blocks rendered in the middle of edits", mids);
    c.count("node blocks accounted for", s.m.nodes.iter().map(|n| n.blocks).sum());
    if s.m.nodes.len() > 2 && (!mid || mids > 0) {
        c.nontrivial();
    }
    Ok(())
}

/// More commits between two blocks than the ring to the audio thread holds: those it has no room for
/// leave their changes to the next commit, none are lost, and nothing of them shows before.
pub fn backlog<F: Float>(c: &mut Case) -> Res {
    let cfg = EditCfg {
        feedback: false,
        fb_only: false,
        free: false,
        links: false,
        stateful: true,
        max_nodes: 60,
        shapes: SHAPES.to_vec(),
        disconnect: true,
    };
    let (ni, no) = *c.rng.pick(GSHAPES);
    let bs = c.rng.block(&[1usize, 2, 4, 7, 16]);
    let ring = *c.rng.pick(&[1usize, 2, 3, 4, 5, 8, 16, 33]);
    c.note(format!("ring {ring}"));
    let mut s = Sys::<F>::new(ni, no, bs, 48000, ring);
    let mut committed = s.m.clone();
    let (mut refused, mut full) = (0, 0);
    for _ in 0..6 {
        // always to the brim at times
        let commits = if c.rng.chance(1, 3) { ring } else { c.rng.below(2 * ring + 3) };
        let mut sent = 0;
        for _ in 0..commits {
            for _ in 0..c.rng.below(4) {
                random_edit(&mut s, c, &cfg)?;
            }
            // there is something to send in any case
            let k = s.push(0, 1, true);
            let to = c.rng.below(no);
            s.connect(Src::Node(k, 0), None, to, if c.rng.chance(1, 2) { Mode::Add } else { Mode::Replace })?;
            let alive = s.m.alive();
            if alive.len() > 3 && c.rng.chance(1, 4) {
                let k = *c.rng.pick(&alive);
                c.note(format!("free n{k}, commit"));
                s.free(k)?;
            } else {
                c.note("commit");
                s.commit();
            }
            if sent < ring {
                sent += 1;
                committed = s.m.clone();
            } else {
                refused += 1;
            }
        }
        full += (sent == ring) as u64;
        for _ in 0..1 + c.rng.below(2) {
            c.note("render");
            render_committed(&mut s, &mut committed, &mut c.rng)?;
            accounting(&s)?;
        }
        if c.rng.chance(1, 2) {
            // what is left over
            s.commit();
            committed = s.m.clone();
            render_committed(&mut s, &mut committed, &mut c.rng)?;
            accounting(&s)?;
        }
    }
    c.count("blocks that found the ring full", full);
    c.count("commits put off because the ring was full", refused);
    c.count("node blocks accounted for", s.m.nodes.iter().map(|n| n.blocks).sum());
    if full > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// One random operation through the GraphEdit API; the model is kept in step.
pub fn edit_op<F: Float>(g: &GraphEdit<'_, F>, m: &mut Model, c: &mut Case, core: Core, n_out: usize) -> Result<bool, Violation> {
    let alive = m.alive();
    let r = c.rng.below(100);
    if alive.len() < 2 || r < 20 {
        let (i, o) = *c.rng.pick(SHAPES);
        let id = push_probe_edit(g, i, o, core.clone());
        m.add(id, i, o, core, false);
        c.note(format!("n{}=push({i},{o})", m.nodes.len() - 1));
        return Ok(true);
    }
    let k = *c.rng.pick(&alive);
    let Some(h) = g.handle(m.nodes[k].id) else {
        bail!("handle", "no handle for live node {k}");
    };
    let outs = m.nodes[k].outs;
    let ch = c.rng.below(outs.max(1)) as u16;
    let before = m.nodes.len();
    match r {
        20..60 => {
            if outs == 0 {
                return Ok(false);
            }
            let fb = c.rng.chance(1, 4);
            let rep = c.rng.chance(1, 3);
            if c.rng.chance(1, 3) {
                let to = c.rng.below(n_out) as u16;
                c.note(format!("n{k}.{ch} -> out {to} rep={rep}"));
                if rep {
                    h.out([ch]).to_graph_out_channels_replace([to]);
                } else {
                    h.out([ch]).to_graph_out_channels([to]);
                }
                m.connect(Src::Node(k, ch), None, to as usize, if rep { Mode::Replace } else { Mode::Add });
                return Ok(false);
            }
            let d = *c.rng.pick(&alive);
            if m.nodes[d].ins == 0 || (!fb && m.has_path(d, k)) {
                return Ok(false);
            }
            let dh = g.handle(m.nodes[d].id).unwrap();
            c.note(format!("n{k}.{ch} -> n{d}[0] rep={rep} fb={fb}"));
            let o = h.out([ch]);
            match (fb, rep) {
                (false, false) => drop(o.to(dh)),
                (false, true) => drop(o.to_replace(dh)),
                (true, false) => drop(o.to_feedback(dh)),
                (true, true) => drop(o.to_feedback_replace(dh)),
            };
            let mode = match (fb, rep) {
                (false, false) => Mode::Add,
                (false, true) => Mode::Replace,
                (true, false) => Mode::FbAdd,
                (true, true) => Mode::FbReplace,
            };
            let clock = std::mem::replace(&mut m.clock, UNBORN);
            m.connect(Src::Node(k, ch), Some(d), 0, mode);
            m.clock = clock;
        }
        60..70 => {
            // every output to the inputs of the same number
            let d = *c.rng.pick(&alive);
            let n = outs.min(m.nodes[d].ins);
            if n == 0 || m.has_path(d, k) {
                return Ok(false);
            }
            let dh = g.handle(m.nodes[d].id).unwrap();
            c.note(format!("n{k} >> n{d}"));
            h.to(dh);
            for j in 0..n {
                m.connect(Src::Node(k, j as u16), Some(d), j, Mode::Add);
            }
        }
        70..78 => {
            if outs == 0 {
                return Ok(false);
            }
            c.note(format!("disconnect_output n{k}.{ch}"));
            h.disconnect_output(ch);
            m.disc_out(Src::Node(k, ch));
        }
        78..86 => {
            if m.nodes[k].ins == 0 {
                return Ok(false);
            }
            let i = c.rng.below(m.nodes[k].ins);
            c.note(format!("disconnect_input n{k}[{i}]"));
            h.disconnect_input(i as u16);
            m.disc_in(Some(k), i);
        }
        86..94 => {
            c.note(format!("free n{k}"));
            if let Err(e) = g.free_node(m.nodes[k].id) {
                bail!("valid-refused", "freeing live node {k}: {e}");
            }
            m.free(k);
        }
        _ => {}
    }
    let _ = before;
    Ok(false)
}

pub fn closure_history<F: Float>(c: &mut Case, rounds: usize) -> Res {
    let (ni, no) = *c.rng.pick(&[(0, 1), (0, 2), (0, 4), (2, 2), (1, 2)]);
    let bs = c.rng.block(&[1usize, 2, 4, 7, 16]);
    let mut s = Sys::<F>::new(ni, no, bs, 48000, 4000);
    let mut mids = 0u64;
    for _ in 0..rounds {
        let mut committed = s.m.clone();
        let mut g = s.g.take().unwrap();
        let ops = c.rng.below(14);
        let r: Res = g.edit(|g| {
            for _ in 0..ops {
                let core = s.core(c.rng.chance(2, 3));
                let mut m = std::mem::replace(&mut s.m, Model::new(0, 0, 1));
                let r = edit_op(&g, &mut m, c, core, no);
                s.m = m;
                if !r? {
                    s.all.pop();
                }
                if c.rng.chance(1, 4) {
                    c.note("render");
                    mids += 1;
                    render_committed(&mut s, &mut committed, &mut c.rng)?;
                    accounting(&s)?;
                }
            }
            Ok(())
        });
        s.g = Some(g);
        r?;
        births(&mut s.m);
        for _ in 0..c.rng.below(3) {
            s.render(&mut c.rng)?;
            accounting(&s)?;
        }
    }
    s.render(&mut c.rng)?;
    accounting(&s)?;
    c.count("blocks rendered in the middle of edits", mids);
    c.count("node blocks accounted for", s.m.nodes.iter().map(|n| n.blocks).sum());
    if s.m.nodes.len() > 2 && mids > 0 {
        c.nontrivial();
    }
    Ok(())
}

/// Edits made from another thread while blocks are rendering.
pub fn threads<F: Float>(c: &mut Case) -> Res {
    use std::sync::atomic::{AtomicBool, AtomicU64};
    let bs = *c.rng.pick(&[4usize, 16, 32]);
    let gens = if c.thorough { 400 } else { 120 };
    let (mut g, mut p, _rx) = make::<F>(0, 4, bs, 48000, 4000);
    // a counter that must never be disturbed: stateful, driven by nothing, on output 3
    let keep = Shared::new(9999);
    let kc = Core::new(17, true, keep.clone());
    g.edit(|g| {
        let id = push_probe_edit(&g, 0, 1, kc.clone());
        g.handle(id).unwrap().to_graph_out_channels([3u16]);
    });
    let mut all = vec![keep.clone()];
    let stop = AtomicBool::new(false);
    let committed = AtomicU64::new(0);
    let started = AtomicU64::new(0);
    let delay = c.rng.below(400);
    let mut arng = Rng::new(c.rng.next());
    let ks: Vec<usize> = (0..=gens).map(|_| 1 + c.rng.below(3)).collect();
    let r: Result<(u64, u64), String> = std::thread::scope(|sc| {
        let audio = sc.spawn(|| {
            let mut last = 0u64;
            let mut seen = 0u64;
            let mut frame = 0u64;
            let mut acc = 0i64;
            let mut extra = 0;
            let mut blocks = 0u64;
            let mut bad: Option<String> = None;
            loop {
                let must = committed.load(SeqCst);
                if stop.load(SeqCst) {
                    extra += 1;
                }
                ON_AUDIO.with(|a| a.set(true));
                crate::probe::run_any(&mut p, &[]);
                ON_AUDIO.with(|a| a.set(false));
                blocks += 1;
                let may = started.load(SeqCst);
                let mut ob = p.output_block();
                let v0 = ob.read(0, 0).to_f64();
                for f in 0..bs {
                    let v: Vec<f64> = (0..3).map(|ch| ob.read(ch, f).to_f64()).collect();
                    if v.iter().any(|x| *x != v0) && bad.is_none() {
                        bad = Some(format!("block at frame {frame}: frame {f} shows {v:?}, its first frame {v0}: parts of different edits"));
                    }
                    let mut o = [0i64];
                    probe_frame(17, &mut acc, true, &[0; 3], &[], &mut o);
                    let got = ob.read(3, f).to_f64();
                    if got != o[0] as f64 && bad.is_none() {
                        bad = Some(format!(
                            "frame {}: a node that no edit concerns gave {got}, it should be {}",
                            frame + f as u64,
                            o[0]
                        ));
                    }
                }
                let gen_ = v0 as u64;
                if (gen_ < last || gen_ < must || gen_ > may) && bad.is_none() {
                    bad = Some(format!(
                        "block at frame {frame} shows edit {gen_}; {last} was shown before, {must} was committed before the block, {may} started before its end"
                    ));
                }
                if gen_ != last {
                    seen += 1;
                }
                last = gen_;
                frame += bs as u64;
                for _ in 0..arng.below(200) {
                    std::hint::spin_loop();
                }
                if extra > 2 || bad.is_some() {
                    break;
                }
            }
            match bad {
                Some(b) => Err(b),
                None => Ok((blocks, seen)),
            }
        });
        let mut old: Vec<knaster_graph::graph::NodeId> = vec![];
        let mut crng = Rng::new(delay as u64);
        for gen_ in 1..=gens as u64 {
            started.store(gen_, SeqCst);
            let mut ids = vec![];
            g.edit(|g| {
                for o in &old {
                    g.free_node(*o).unwrap();
                    if crng.chance(1, 4) {
                        for _ in 0..delay {
                            std::hint::spin_loop();
                        }
                    }
                }
                for ch in 0..3u16 {
                    // ks sources whose sum is the number of the edit
                    let k = ks[gen_ as usize];
                    for j in 0..k {
                        let v = if j == 0 { gen_ as f64 - (k - 1) as f64 } else { 1.0 };
                        let h = g.push(knaster_core_dsp::util::Constant::new(F::new(v)));
                        h.to_graph_out_channels([ch]);
                        ids.push(h.id());
                    }
                    let _ = NodeOrGraph::Graph;
                    let sh = Shared::new(gen_);
                    let pid = push_probe_edit(&g, 1, 1, Core::new(3, true, sh.clone()));
                    g.handle(ids[ids.len() - 1]).unwrap().to(g.handle(pid).unwrap());
                    ids.push(pid);
                    all.push(sh);
                }
            });
            committed.store(gen_, SeqCst);
            old = ids;
            for _ in 0..crng.below(delay * 8 + 1) {
                std::hint::spin_loop();
            }
            if crng.chance(1, 8) {
                std::thread::yield_now();
            }
        }
        stop.store(true, SeqCst);
        audio.join().unwrap()
    });
    match r {
        Err(e) => bail!("concurrent", "{e}"),
        Ok((blocks, seen)) => {
            c.note(format!("threads bs={bs} blocks={blocks} edits seen={seen}"));
            c.count("blocks rendered concurrently with edits", blocks);
            c.count("distinct edits observed by the audio thread", seen);
            if seen > 1 {
                c.nontrivial();
            }
        }
    }
    for s in &all {
        if let Some(e) = s.errors.lock().unwrap().first() {
            bail!("probe", "node of edit {}: {e}", s.id);
        }
        ensure!(s.inits.load(SeqCst) == 1, "init-count", "node initialised {} times", s.inits.load(SeqCst));
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    r.rule = "(history, mid, closure) random edit histories over stateful probe nodes, with blocks rendered between, and in the middle of, edits made through the Graph and GraphEdit APIs: every block is compared sample by sample with the evaluation of the last committed graph, and every node's initialisations, processed blocks and frames, first and last clock are compared with the model after every block; (backlog) more commits between two blocks than a small ring to the audio thread holds, those put off must be made up by the next and must not show before; (threads) edits from another thread while rendering: every block must show exactly one edit in all channels and frames, edits in order, none committed before the block missing. Non-trivial: blocks were rendered while an edit was open / several edits were observed".into();
    r.cases("history", r.n(12000, 250000), |c| {
        if c.rng.chance(1, 2) { raw_history::<f32>(c, 8, false) } else { raw_history::<f64>(c, 8, false) }
    });
    r.cases("mid", r.n(12000, 250000), |c| {
        if c.rng.chance(1, 2) { raw_history::<f32>(c, 6, true) } else { raw_history::<f64>(c, 6, true) }
    });
    r.cases("closure", r.n(12000, 250000), |c| {
        if c.rng.chance(1, 2) { closure_history::<f32>(c, 6) } else { closure_history::<f64>(c, 6) }
    });
    r.cases("backlog", r.n(4000, 100_000), |c| if c.rng.chance(1, 2) { backlog::<f32>(c) } else { backlog::<f64>(c) });
    r.cases_t("threads", r.n(60, 600), 4, |c| if c.rng.chance(1, 2) { threads::<f32>(c) } else { threads::<f64>(c) });
}

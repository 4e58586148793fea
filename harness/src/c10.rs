//! C10: audio-rate parameter links.
use crate::common::*;
use crate::gm::*;
use crate::probe::SHAPES;
use crate::dsp::*;
use crate::{bail, ensure};
use knaster_core::Block;
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Float, Frame, PFloat, PInteger, ParameterHint, ParameterValue, UGen, UGenFlags};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use knaster_core_dsp::onepole::*;
use knaster_core_dsp::osc::*;
use knaster_core_dsp::svf::*;
use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;

/// Plays back a fixed signal.
pub struct Player<F> {
    pub data: Vec<F>,
    pub pos: usize,
}
impl<F: Float> UGen for Player<F> {
    type Sample = F;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<F, U0>) -> Frame<F, U1> {
        let v = self.data[self.pos % self.data.len()];
        self.pos += 1;
        [v].into()
    }
    fn param_hints() -> knaster_core::numeric_array::NumericArray<knaster_core::ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}

pub fn history<F: Float>(c: &mut Case, rounds: usize) -> Res {
    let cfg = EditCfg {
        feedback: c.rng.chance(1, 4),
        fb_only: false,
        free: c.rng.chance(2, 3),
        links: true,
        stateful: true,
        max_nodes: *c.rng.pick(&[4, 8, 16]),
        shapes: SHAPES.to_vec(),
        disconnect: c.rng.chance(2, 3),
    };
    let (ni, no) = *c.rng.pick(GSHAPES);
    let bs = c.rng.block(&[1usize, 2, 3, 4, 7, 8, 16]);
    let mut s = Sys::<F>::new(ni, no, bs, 48000, 4000);
    let mut linked = 0usize;
    for _ in 0..c.rng.below(14) {
        random_edit(&mut s, c, &cfg)?;
    }
    for _ in 0..rounds {
        for _ in 0..c.rng.below(8) {
            random_edit(&mut s, c, &cfg)?;
        }
        // ordinary changes: apply to parameters that are not linked, are ignored by linked ones
        s.commit();
        for _ in 0..c.rng.below(4) {
            let al = s.m.alive();
            if al.is_empty() {
                break;
            }
            let k = *c.rng.pick(&al);
            let p = c.rng.below(3);
            let v = c.rng.range(-300, 300);
            let id = s.nid(k);
            let r = s.g.as_ref().unwrap().set(id, p, v as PFloat, knaster_graph::Time::asap());
            c.note(format!("set n{k}.{p}={v}"));
            if let Err(e) = r {
                bail!("valid-refused", "set refused: {e}");
            }
            if s.m.nodes[k].links[p].is_empty() {
                s.m.nodes[k].core.params[p] = v;
            }
        }
        for _ in 0..1 + c.rng.below(3) {
            linked += s.m.nodes.iter().flat_map(|n| n.links.iter()).filter(|l| !l.is_empty()).count();
            s.render(&mut c.rng)?;
        }
    }
    c.count("linked parameter blocks rendered", linked as u64);
    if linked > 0 {
        c.nontrivial();
    }
    Ok(())
}


/// A real UGen with a linked parameter equals the same UGen with the parameter set before
/// every frame, whatever wraps it.
#[allow(clippy::too_many_arguments)]
fn equiv<F: Float, T>(c: &mut Case, name: &str, mk: impl Fn() -> T, param: &'static str, lo: f64, hi: f64) -> Res
where
    T: UGen<Sample = F> + Send + 'static,
    T::Parameters: std::ops::Add<B1>,
    <T::Parameters as std::ops::Add<B1>>::Output: knaster_core::Size,
{
    let bs = c.rng.block(&[1usize, 2, 5, 16, 64]);
    let blocks = 7;
    let n = bs * blocks;
    let q = |v: f64| v as f32 as f64;
    // several sources: the sum drives the parameter; halves are exact
    let k = 1 + c.rng.below(3);
    let parts: Vec<Vec<f64>> =
        (0..k).map(|_| (0..n).map(|_| q((c.rng.uniform(lo, hi) / k as f64 * 64.0).round() / 64.0)).collect()).collect();
    let inp = noise(&mut c.rng, 2, n);
    let sig: Vec<f64> = (0..n).map(|f| parts.iter().map(|p| p[f]).sum()).collect();
    let idx = match T::param_descriptions().into_iter().position(|d| d == param) {
        Some(i) => i,
        None => bail!("harness", "{name} has no parameter {param}"),
    };
    // the link is made after `linked_at` blocks and removed before block `unlinked_at`
    let mut linked_at = c.rng.below(3);
    let unlinked_at = if c.rng.chance(1, 2) { blocks } else { 4 + c.rng.below(3) };
    let how = c.rng.below(3);
    let wrap = c.rng.below(9);
    // how the link is made: by the graph, a handle from a name or id, the handle returned by push
    let route = if k > 1 { 0 } else { c.rng.below(if wrap == 0 { 3 } else { 2 }) };
    if route == 2 {
        linked_at = 0;
    }
    let order = c.rng.chance(1, 2);
    let by_index = c.rng.chance(1, 2);
    let initial = q(c.rng.uniform(lo, hi));
    c.note(format!(
        "{name}.{param} bs={bs} F={} sources={k} linked@{linked_at} unlinked@{unlinked_at} by {how} route={route} wrap={wrap} node first={order} {:?}",
        std::any::type_name::<F>(), sig[0]
    ));
    let mut g = T::Inputs::USIZE;
    let ni = g;
    g = T::Outputs::USIZE;
    let no = g;
    // reference
    let mut reference = mk();
    let mut changes = vec![ch(0, idx, initial)];
    for f in linked_at * bs..unlinked_at * bs {
        changes.push(ch(f, idx, sig[f]));
    }
    // changes of another parameter while the link is live: at the frame they are due with precise
    // timing, at the start of the block they are due in otherwise
    let others: Vec<(usize, f64, f64)> = T::param_descriptions()
        .into_iter()
        .enumerate()
        .filter(|(i, _)| *i != idx)
        .filter_map(|(i, d)| match d {
            "phase_offset" => Some((i, 0.0, 1.0)),
            "freq" | "cutoff_freq" => Some((i, 100.0, 1000.0)),
            "q" => Some((i, 0.5, 2.0)),
            "gain" => Some((i, -6.0, 6.0)),
            _ => None,
        })
        .collect();
    let mut timed = vec![];
    let precise = wrap == 3;
    if !others.is_empty() && wrap != 6 && c.rng.chance(2, 3) {
        let mut t = bs;
        for _ in 0..1 + c.rng.below(4) {
            t += 1 + c.rng.below(2 * bs);
            if t >= n {
                break;
            }
            let (o, a, b) = *c.rng.pick(&others);
            let v = q(c.rng.uniform(a, b));
            changes.push(ch(if precise { t } else { t / bs * bs }, o, v));
            timed.push((t, o, v));
        }
        changes.sort_by_key(|c| c.frame);
        c.note(format!("changes {timed:?}"));
    }
    let want = run(&mut reference, 48000, &Div::Frames, n, &inp, &changes)?;
    let gain = match wrap {
        2 | 6 => 0.5,
        7 => -1.0,
        _ => 1.0,
    };
    // subject
    let (mut g, mut p, _rx) = make::<F>(0, if no == 1 { 1 } else { 2 }, bs, 48000, 100);
    let mut srcs = vec![];
    let mut pins = vec![];
    let mut node = None;
    let mut linked_src = None;
    let mut mine: Option<T> = Some(mk());
    let fv = |v: &Vec<f64>| -> Vec<F> { v.iter().map(|x| F::new(*x)).collect() };
    // sources play only from the block in which they are pushed, so everything is pushed at the start
    g.edit(|g| {
        let mut push_node = || {
            let u = mine.take().unwrap();
            match wrap {
                0 if route == 2 => {
                    let h = g.push(u.ar_params());
                    let src = g.push(Player { data: fv(&parts[0]), pos: 0 });
                    linked_src = Some(src.id());
                    let h = if by_index { h.link(idx, src) } else { h.link(param, src) };
                    h.id()
                }
                0 => g.push(u.ar_params()).id(),
                1 => g.push(u.ar_params().smooth_params()).id(),
                2 => g.push(u.ar_params().wr_mul(F::new(0.5f32))).id(),
                3 => g.push(u.ar_params().precise_timing::<4>()).id(),
                4 => g.push_with_done_action(u.ar_params(), knaster_core::Done::FreeSelf).id(),
                5 => g.push(u.smooth_params().ar_params().wr(|x| x)).id(),
                7 => g.push(u.ar_params().wr_powf(F::ONE).wr_powi(1).wr_v_sub_gen(F::ZERO)).id(),
                8 => g.push(u.ar_params().wr_v_div_gen(F::ONE).wr_v_div_gen(F::ONE)).id(),
                _ => g.push(u.precise_timing::<4>().ar_params().wr_add(F::ZERO).wr_div(F::new(2.0f32)).wr_sub(F::ZERO)).id(),
            }
        };
        if order {
            node = Some(push_node());
        }
        for d in parts.iter().filter(|_| route == 0) {
            srcs.push(g.push(Player { data: fv(d), pos: 0 }).id());
        }
        for d in inp.iter().take(ni) {
            pins.push(g.push(Player { data: fv(d), pos: 0 }).id());
        }
        if !order {
            node = Some(push_node());
        }
    });
    let node = node.unwrap();
    srcs.extend(linked_src);
    for (i, pin) in pins.iter().enumerate() {
        if let Err(e) = g.connect2(ng(*pin), 0, i as u16, ng(node)) {
            bail!("valid-refused", "{e}");
        }
    }
    for o in 0..no {
        if let Err(e) = g.connect2(ng(node), o as u16, o as u16, knaster_graph::graph::NodeOrGraph::Graph) {
            bail!("valid-refused", "{e}");
        }
    }
    g.edit(|_| {});
    if let Err(e) = g.set(node, idx, initial as PFloat, knaster_graph::Time::asap()) {
        bail!("valid-refused", "{e}");
    }
    for (t, o, v) in &timed {
        let at = knaster_graph::Time::at(knaster_graph::Seconds::from_samples(*t as u64, 48000));
        if let Err(e) = g.set(node, *o, *v as PFloat, at) {
            bail!("valid-refused", "{e}");
        }
    }
    for b in 0..blocks {
        if b == linked_at && route == 1 {
            let id = g.edit(|g| {
                let src = g.push(Player { data: fv(&parts[0][b * bs..].to_vec()), pos: 0 });
                let id = src.id();
                let h = g.handle(node).unwrap();
                if by_index { h.link(idx, src) } else { h.link(param, src) };
                id
            });
            srcs.push(id);
        }
        if b == linked_at && route == 0 {
            for (i, s) in srcs.iter().enumerate() {
                let rep = i == 0 && c.rng.chance(1, 2);
                let r = match (rep, by_index) {
                    (false, false) => g.connect_to_parameter(*s, 0, param, node),
                    (false, true) => g.connect_to_parameter(*s, 0, idx, node),
                    (true, false) => g.connect_replace_to_parameter(*s, 0, param, node),
                    (true, true) => g.connect_replace_to_parameter(*s, 0, idx, node),
                };
                if let Err(e) = r {
                    bail!("valid-refused", "valid link refused: {e}");
                }
            }
            g.edit(|_| {});
        }
        if b == unlinked_at {
            for s in &srcs {
                if how == 0 {
                    let s = *s;
                    if let Err(e) = g.edit(|g| g.free_node(s)) {
                        bail!("valid-refused", "{e}");
                    }
                } else if let Err(e) = g.disconnect_output_from_source(ng(*s), 0) {
                    bail!("valid-refused", "{e}");
                }
            }
            g.edit(|_| {});
        }
        crate::probe::run_any(&mut p, &[]);
        let mut ob = p.output_block();
        for o in 0..no {
            for f in 0..bs {
                let got = knaster_core::Block::read(&ob, o, f).to_f64();
                let w = want.out[o][b * bs + f] * gain;
                ensure!(
                    close(got, w, eps::<F>()),
                    "linked",
                    "{name} with {param} linked: channel {o} frame {} is {got}, setting the parameter before each frame gives {w}",
                    b * bs + f
                );
            }
        }
    }
    c.count("frames driven by a link in real nodes", ((unlinked_at - linked_at) * bs) as u64);
    c.nontrivial();
    Ok(())
}
fn equiv_any<F: Float>(c: &mut Case) -> Res {
    use knaster_core_dsp::{pan::Pan2, util::Constant};
    match c.rng.below(9) {
        0 => equiv::<F, _>(c, "SinWt", || SinWt::new(F::new(440.0f32)), "freq", 20.0, 8000.0),
        1 => equiv::<F, _>(c, "Phasor", || Phasor::new(100.0), "freq", 20.0, 8000.0),
        2 => equiv::<F, _>(c, "OnePoleLpf", || OnePoleLpf::new(F::new(440.0f32)), "cutoff_freq", 20.0, 8000.0),
        3 => equiv::<F, _>(c, "OnePoleHpf", OnePoleHpf::new, "cutoff_freq", 20.0, 8000.0),
        4 => equiv::<F, _>(
            c,
            "SvfFilter",
            || SvfFilter::new(SvfFilterType::Low, F::new(440.0f32), F::new(0.7f32), F::ZERO),
            "cutoff_freq",
            50.0,
            4000.0,
        ),
        5 => equiv::<F, _>(c, "Pan2", || Pan2::new(0.0), "pan", -1.0, 1.0),
        6 => equiv::<F, _>(c, "Constant", || Constant::new(F::ZERO), "value", -10.0, 10.0),
        7 => equiv::<F, _>(c, "SinWt", || SinWt::new(F::new(440.0f32)), "phase_offset", 0.0, 1.0),
        _ => equiv::<F, _>(
            c,
            "SvfFilter",
            || SvfFilter::new(SvfFilterType::Bell, F::new(440.0f32), F::new(0.7f32), F::ZERO),
            "gain",
            -20.0,
            20.0,
        ),
    }
}

/// One parameter of each type, applied values of the wrong type are a mistake of the library.
struct Typed {
    float: f64,
    wrong: Arc<AtomicU64>,
}
impl UGen for Typed {
    type Sample = f32;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U4;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f32, U0>) -> Frame<f32, U1> {
        [self.float as f32].into()
    }
    fn param_hints() -> knaster_core::numeric_array::NumericArray<ParameterHint, U4> {
        [
            ParameterHint::Bool,
            ParameterHint::new_integer((PInteger(0), PInteger(9)), |h| h),
            ParameterHint::infinite_float(),
            ParameterHint::Trigger,
        ]
        .into()
    }
    fn param_descriptions() -> knaster_core::numeric_array::NumericArray<&'static str, U4> {
        ["bool", "int", "float", "trig"].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) {
        match (i, v) {
            (2, ParameterValue::Float(f)) => self.float = f,
            (0, ParameterValue::Bool(_)) | (1, ParameterValue::Integer(_)) | (3, _) => (),
            _ => {
                self.wrong.fetch_add(1, SeqCst);
            }
        }
    }
}
/// Links to parameters that can't take a signal are refused, the others work.
fn types(c: &mut Case) -> Res {
    let bs = c.rng.block(&[1usize, 4, 16]);
    let (mut g, mut p, _rx) = make::<f32>(0, 1, bs, 48000, 100);
    let wrong = Arc::new(AtomicU64::new(0));
    let stack = c.rng.below(4);
    let w2 = wrong.clone();
    let data: Vec<f32> = (0..bs * 6).map(|_| c.rng.below(1000) as f32).collect();
    let (src, sink) = g.edit(|e| {
        let a = e.push(Player { data: data.clone(), pos: 0 });
        let t = Typed { float: -1.0, wrong: w2 };
        macro_rules! out {
            ($h:expr) => {{
                let h = $h;
                h.to_graph_out();
                h.id()
            }};
        }
        let b = match stack {
            0 => out!(e.push(t.ar_params())),
            1 => out!(e.push(t.wr_mul(1.0).ar_params())),
            2 => out!(e.push(t.ar_params().wr_mul(1.0))),
            _ => out!(e.push(t.smooth_params().ar_params().precise_timing::<4>())),
        };
        (a.id(), b)
    });
    let mut linked = false;
    let mut log = vec![];
    for b in 0..6 {
        if c.rng.chance(2, 3) {
            let i = c.rng.below(3);
            let by_name = c.rng.chance(1, 2);
            let replace = i == 2 || c.rng.chance(1, 2);
            let r = match (by_name, replace) {
                (true, true) => g.connect_replace_to_parameter(src, 0, ["bool", "int", "float"][i], sink),
                (false, true) => g.connect_replace_to_parameter(src, 0, i, sink),
                (true, false) => g.connect_to_parameter(src, 0, ["bool", "int", "float"][i], sink),
                (false, false) => g.connect_to_parameter(src, 0, i, sink),
            };
            ensure!(r.is_ok() == (i == 2), "link-type", "linking a signal to the {} parameter: {r:?}", ["boolean", "integer", "float"][i]);
            linked |= i == 2;
            log.push((b, i));
            g.edit(|_| {});
        }
        crate::probe::run_any(&mut p, &[]);
        let o = p.output_block().channel_as_slice_mut(0)[..bs].to_vec();
        for f in 0..bs {
            let want = if linked { data[b * bs + f] } else { -1.0 };
            ensure!(o[f] == want, "link-type", "block {b} frame {f} is {}, {want} expected", o[f]);
        }
        ensure!(wrong.load(SeqCst) == 0, "link-type", "a value of the wrong type was applied");
    }
    c.note(format!("types bs {bs} stack {stack} {log:?} #{}", c.index));
    c.nontrivial();
    Ok(())
}
pub fn run_check(r: &mut Run) {
    r.rule = "(history) random edit histories with additive and replacing parameter links between probe nodes, by name and index, mixed with ordinary parameter changes, compared sample by sample with an evaluation that sets each linked parameter before every frame; (types) links to parameters of each type in several wrapper stacks, those that can't take a signal are refused and change nothing; (equiv) real UGens in several wrapper stacks with a parameter linked to one to three players for part of the run, compared with the same UGen processed frame by frame with the parameter set before each frame; non-trivial: a link was live while rendering; distinct by history".into();
    r.cases("history", r.n(30000, 600000), |c| {
        if c.rng.chance(1, 2) { history::<f32>(c, 6) } else { history::<f64>(c, 6) }
    });
    r.cases("types", r.n(4000, 60000), types);
    r.cases("equiv", r.n(12000, 200000), |c| {
        if c.rng.chance(1, 2) { equiv_any::<f32>(c) } else { equiv_any::<f64>(c) }
    });
}

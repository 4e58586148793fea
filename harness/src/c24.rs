//! C24: buffers and their playback.
use crate::common::*;
use crate::dsp::*;
use crate::{bail, ensure};
use knaster_core::typenum::*;
use knaster_core::{Float, ParameterValue, Seconds, Size, UGen};
use knaster_core_dsp::buffer::BufferReader;
use knaster_core_dsp::dsp::buffer::Buffer;

/// Distinct, never zero, exact in f32
fn content(c: &mut Case, n: usize) -> Vec<f64> {
    (0..n)
        .map(|i| {
            let m = (1 + c.rng.below(1 << 15)) as f64 / 32768.0;
            let s = if c.rng.chance(1, 2) { 1.0 } else { -1.0 };
            s * (m + i as f64 * 2.0)
        })
        .collect()
}
struct Data {
    v: Vec<f64>,
    ch: usize,
    frames: usize,
}
impl Data {
    fn at(&self, f: usize, ch: usize) -> f64 {
        self.v[f * self.ch + ch]
    }
    /// What may be read at a position: interpolation between the frame and the next one. What
    /// follows the last frame (or the last of a section) isn't defined beyond being in the channel
    /// or silence.
    fn read(&self, pos: f64, ch: usize, sect: Option<(f64, f64)>) -> Vec<f64> {
        if !(pos >= 0.0) || pos >= self.frames as f64 || ch >= self.ch {
            return vec![0.0];
        }
        let f = pos.floor() as usize;
        let mix = pos - pos.floor();
        let a = self.at(f, ch);
        let mut nexts = vec![];
        if f + 1 < self.frames {
            nexts.push(self.at(f + 1, ch));
        } else {
            nexts.extend([self.at(0, ch), 0.0, a]);
        }
        if let Some((start, end)) = sect {
            if (f + 1) as f64 >= end && start >= 0.0 && (start as usize) < self.frames {
                nexts.push(self.at(start as usize, ch));
            }
        }
        nexts.iter().map(|b| a * (1.0 - mix) + b * mix).collect()
    }
    /// Rounding errors are relative to the neighbours, not to what is between them
    fn scale(&self) -> f64 {
        self.v.iter().fold(1.0, |a, b| a.max(b.abs()))
    }
    fn buf<F: Float>(&self, sr: f64) -> Buffer<F> {
        Buffer::from_vec_interleaved(self.v.iter().map(|x| F::new(*x)).collect(), self.ch, sr)
    }
}
fn tol<F: Float>() -> f64 {
    if is32::<F>() { 1e-5 } else { 1e-11 }
}
fn hits(got: f64, want: &[f64], t: f64) -> bool {
    want.iter().any(|w| (got - w).abs() <= t)
}

fn store<F: Float>(c: &mut Case) -> Res {
    let ch = 1 + c.rng.below(6);
    let frames = c.rng.below(40);
    let sr = *c.rng.pick(&[44100.0, 48000.0, 8000.0, 96000.0, 50021.0]);
    let rest = if c.rng.chance(1, 4) { c.rng.below(ch) } else { 0 };
    let mode = c.rng.below(4);
    let mut v = content(c, frames * ch + rest);
    let b: Buffer<F> = match mode {
        0 => {
            v = vec![0.0; frames * ch];
            Buffer::new(frames, ch, sr)
        }
        1 if ch == 1 => Buffer::from_vec(v.iter().map(|x| F::new(*x)).collect(), sr),
        _ => Buffer::from_vec_interleaved(v.iter().map(|x| F::new(*x)).collect(), ch, sr),
    };
    let d = Data { v, ch, frames };
    c.note(format!("{} {ch} channels {frames} frames + {rest} samples {sr} Hz way {mode} #{}", std::any::type_name::<F>(), c.index));
    ensure!(b.num_channels() == ch, "channels", "{} channels instead of {ch}", b.num_channels());
    ensure!(b.num_frames() == frames as f64, "frames", "{} frames instead of {frames}", b.num_frames());
    ensure!(b.sample_rate() == sr, "rate", "sample rate {} instead of {sr}", b.sample_rate());
    let len = frames as f64 / sr;
    ensure!(close(b.length_seconds(), len, 1e-12), "seconds", "{} s instead of {len}", b.length_seconds());
    let ssr = *c.rng.pick(&[44100u32, 48000, 22050]);
    let scale = sr / ssr as f64;
    ensure!(close(b.buf_rate_scale(ssr), scale, 1e-12), "scale", "rate scale {} instead of {scale}", b.buf_rate_scale(ssr));
    for f in 0..frames {
        let fr = b.get_interleaved(f);
        ensure!(fr.len() == ch, "frame-len", "frame {f} has {} samples instead of {ch}", fr.len());
        for k in 0..ch {
            let want = d.at(f, k);
            ensure!(fr[k].to_f64() == want, "stored", "frame {f} channel {k}: {} instead of {want}", fr[k].to_f64());
            let a = b.get_linear_interp_f64(f as f64, k).to_f64();
            let e = b.get_linear_interp(F::new(f as f64), k).to_f64();
            ensure!(a == want && e == want, "whole-frame", "frame {f} channel {k} interpolates to {a} and {e} instead of {want}");
        }
        c.count("frames checked", 1);
    }
    let scale = d.scale();
    for _ in 0..30 {
        let k = c.rng.below(ch + 2);
        let pos = match c.rng.below(8) {
            0 => -c.rng.uniform(0.001, 5.0),
            1 => frames as f64 + c.rng.uniform(0.0, 5.0),
            2 => *c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 1e19, u64::MAX as f64, -0.0]),
            _ => c.rng.uniform(0.0, frames as f64),
        };
        let pos = pos as f32 as f64;
        let want = d.read(pos, k, None);
        let t = tol::<F>() * scale;
        let a = b.get_linear_interp_f64(pos, k).to_f64();
        let e = b.get_linear_interp(F::new(pos), k).to_f64();
        ensure!(hits(a, &want, t), "interp", "position {pos} of {frames} frames, channel {k} of {ch}: {a} instead of {want:?}");
        ensure!(hits(e, &want, t), "interp", "position {pos} of {frames} frames, channel {k} of {ch}: {e} instead of {want:?} (indexed with its own float type)");
        c.count("positions checked", 1);
    }
    if frames > 0 {
        c.nontrivial();
        // every channel of a multi channel buffer is filtered like it would be alone
        let mut multi = b.clone();
        multi.remove_dc();
        for k in 0..ch {
            let mut one = Buffer::from_vec((0..frames).map(|f| F::new(d.at(f, k))).collect::<Vec<F>>(), sr);
            one.remove_dc();
            for f in 0..frames {
                let (x, y) = (multi.get_interleaved(f)[k].to_f64(), one.get_interleaved(f)[0].to_f64());
                ensure!(x == y, "dc-channels", "remove_dc: channel {k} frame {f} is {x}, alone it is {y}");
            }
        }
    }
    Ok(())
}

/// Buffers of many frames: what is stored where, and playback around the frames where an index or
/// position would lose precision or wrap.
fn long<F: Float>(c: &mut Case) -> Res {
    let ch = 1 + c.rng.below(2);
    let most = if c.rng.chance(1, 6) { 1usize << 24 } else { 1 << 16 };
    let frames = if c.rng.chance(1, 4) { most + c.rng.below(4000) } else { most / 2 + c.rng.below(most) };
    // every sample known without storing it twice, exact in f32
    let salt = c.rng.next() as u32 | 1;
    let at = |f: usize, k: usize| -> f64 {
        let i = (f * ch + k) as u32;
        let h = (i ^ (i >> 15)).wrapping_mul(0x2c1b3c6d).wrapping_add(salt);
        ((h ^ (h >> 13)) & 0xffff) as f64 / 32768.0 - 1.0
    };
    let sr = *c.rng.pick(&[44100u32, 48000]);
    let b = std::sync::Arc::new(Buffer::<F>::from_vec_interleaved(
        (0..frames).flat_map(|f| (0..ch).map(move |k| (f, k))).map(|(f, k)| F::new(at(f, k))).collect(),
        ch,
        sr as f64,
    ));
    c.note(format!("{} {ch} channels {frames} frames #{}", std::any::type_name::<F>(), c.index));
    ensure!(b.num_frames() == frames as f64, "frames", "{} frames instead of {frames}", b.num_frames());
    let edges = [1usize << 15, 1 << 16, 1 << 23, 1 << 24, frames - 1, frames / 2];
    let near = |c: &mut Case| -> usize {
        let e = if c.rng.chance(1, 3) { c.rng.below(frames) } else { *c.rng.pick(&edges) };
        (e + 20).saturating_sub(c.rng.below(40)).min(frames - 2)
    };
    for _ in 0..60 {
        let f = near(c);
        let k = c.rng.below(ch);
        let w = at(f, k);
        let g = b.get_interleaved(f)[k].to_f64();
        ensure!(g == w, "stored", "frame {f} channel {k} of {frames} frames: {g} instead of {w}");
        let mix = c.rng.below(17) as f64 / 16.0;
        let pos = f as f64 + mix;
        let w = w * (1.0 - mix) + at(f + 1, k) * mix;
        let g = b.get_linear_interp_f64(pos, k).to_f64();
        ensure!((g - w).abs() < tol::<F>(), "interp", "position {pos} of {frames} frames, channel {k} of {ch}: {g} instead of {w}");
        if F::new(pos).to_f64() == pos {
            let g = b.get_linear_interp(F::new(pos), k).to_f64();
            ensure!((g - w).abs() < tol::<F>(), "interp", "position {pos} of {frames} frames, channel {k} of {ch}: {g} instead of {w} (own float type)");
        }
    }
    for _ in 0..4 {
        let start = near(c);
        let looping = c.rng.chance(1, 2);
        let length = 2 + c.rng.below(200);
        let rate = *c.rng.pick(&[1.0, 0.5, 1.25, 2.0]);
        let mut u = BufferReader::<F, U1>::new(b.clone(), rate, looping)
            .start_at(Seconds::from_samples(start as u64, sr as u64));
        let mut cx = ctx(sr, 64);
        u.init(sr, 64);
        u.duration_s(length as f64 / sr as f64);
        let stop = ((start + length) as f64).min(frames as f64);
        let mut p = start as f64;
        let mut over = false;
        let t = run_from(&mut u, &mut cx, &Div::Blocks(64), 0, 512, &[], &[])?;
        for i in 0..512 {
            let f = p as usize;
            let mix = p - f as f64;
            let end = (f + 1) as f64 >= stop;
            let got = t.out[0][i];
            // the sample between the last frame and the first is the matter of the reader scenario
            let w = if over { 0.0 } else { at(f, 0) * (1.0 - mix) + if mix > 0.0 && !end { at(f + 1, 0) * mix } else { 0.0 } };
            if over || !end || mix == 0.0 {
                ensure!(
                    (got - w).abs() < tol::<F>(),
                    "playback",
                    "frame {i} of playing {length} frames from {start} of {frames} at rate {rate}, looping {looping}: {got} instead of {w} (position {p})"
                );
            }
            p += rate;
            if p >= stop && !over {
                if looping {
                    p = start as f64 + (p - stop) % (stop - start as f64);
                } else {
                    over = true;
                }
            }
        }
        c.count("frames played from long buffers", 512);
    }
    c.nontrivial();
    Ok(())
}

struct Model {
    ptr: f64,
    start: f64,
    dur: f64,
    end: f64,
    step: f64,
    looping: bool,
    finished: bool,
}
impl Model {
    fn stop(&self, frames: usize) -> f64 {
        self.end.min(frames as f64)
    }
}

fn reader<F: Float, C: Size>(c: &mut Case) -> Res {
    let ch = 1 + c.rng.below(3);
    let most = if c.rng.chance(1, 2) { 12 } else { 60 };
    let frames = 2 + c.rng.below(most);
    let exact = c.rng.chance(1, 2);
    let (bsr, sr): (f64, u32) = if exact {
        *c.rng.pick(&[(44100.0, 44100), (48000.0, 48000), (24000.0, 48000), (96000.0, 48000), (32768.0, 65536)])
    } else {
        *c.rng.pick(&[(44100.0, 48000), (48000.0, 44100), (50021.0, 44100), (22050.0, 96000)])
    };
    let base = bsr / sr as f64;
    let rate_of = |c: &mut Case| -> f64 {
        if exact {
            if c.rng.chance(1, 3) { 1.0 } else { (1 + c.rng.below(40)) as f64 / 8.0 }
        } else {
            let most = if c.rng.chance(1, 4) { frames as f64 * 1.5 } else { 4.0 };
            c.rng.uniform(0.05, most)
        }
    };
    let d = Data { v: content(c, frames * ch), ch, frames };
    let bs = c.rng.block(&[1usize, 4, 16, 64]);
    let n = (64 + c.rng.below(400)).div_ceil(bs) * bs;
    let div = match c.rng.below(3) {
        0 => Div::Frames,
        1 => Div::Blocks(bs),
        _ => Div::Parts(bs, cuts(&mut c.rng, n, bs)),
    };
    let mut ok: Vec<usize> = match &div {
        Div::Frames => (0..n).collect(),
        Div::Blocks(b) => (0..n / b).map(|i| i * b).collect(),
        Div::Parts(b, c) => (0..n / b).map(|i| i * b).chain(c.iter().copied()).collect(),
    };
    ok.sort();
    ok.dedup();
    let dense = *c.rng.pick(&[0usize, 2, 6, 20]);
    let k = if dense == 0 { 0 } else { c.rng.below(dense) };
    let mut at: Vec<usize> = (0..k).map(|_| *c.rng.pick(&ok)).collect();
    at.sort();
    at.dedup();
    let names = BufferReader::<F, C>::param_descriptions();
    let idx = |name: &str| -> Result<usize, Violation> {
        match names.iter().position(|x| *x == name) {
            Some(i) => Ok(i),
            None => viol("harness", format!("harness: no parameter {name}")),
        }
    };
    let (rate, looping) = (rate_of(c), c.rng.chance(1, 2));
    let mut u = BufferReader::<F, C>::new(d.buf::<F>(bsr), rate, looping);
    let mut start = 0.0;
    if c.rng.chance(1, 4) {
        start = c.rng.below(frames) as f64;
        u = u.start_at(Seconds::from_samples(start as u64, bsr as u64));
    }
    let mut m = Model {
        ptr: start,
        start,
        dur: frames as f64,
        end: start + frames as f64,
        step: base * rate,
        looping,
        finished: false,
    };
    // Expected output: the alternatives for every frame and channel
    let mut want: Vec<Vec<Vec<f64>>> = vec![];
    let mut done: Vec<u64> = vec![];
    let mut changes: Vec<Change> = vec![];
    let mut ends = 0;
    let mut upto = n;
    // drift of the pointer due to rounding in long runs
    let margin = if exact { 0.0 } else { 1e-6 };
    let mut sections = vec![];
    for f in 0..n {
        if at.first() == Some(&f) {
            at.remove(0);
            match c.rng.below(6) {
                0 => {
                    let r = rate_of(c);
                    m.step = base * r;
                    changes.push(ch_(f, idx("rate")?, r));
                }
                1 if !m.finished => {
                    m.looping = !m.looping;
                    changes.push(Change { frame: f, param: idx("looping")?, value: ParameterValue::Bool(m.looping) });
                }
                2 | 3 => {
                    m.ptr = m.start;
                    m.finished = false;
                    changes.push(Change { frame: f, param: idx("t_restart")?, value: ParameterValue::Trigger });
                }
                _ => {
                    // a new section of at least a frame
                    let s = c.rng.below(frames) as f64;
                    let len = 1.0 + c.rng.below(frames) as f64;
                    changes.push(ch_(f, idx("start_s")?, s / bsr));
                    match c.rng.below(4) {
                        0 => {
                            changes.push(ch_(f, idx("end_s")?, (s + len) / bsr));
                            (m.start, m.end) = (s, s + len);
                        }
                        1 => {
                            changes.push(ch_(f, idx("duration_s")?, -c.rng.uniform(0.1, 2.0)));
                            (m.start, m.dur, m.end) = (s, -1.0, s + frames as f64);
                        }
                        _ => {
                            changes.push(ch_(f, idx("duration_s")?, len / bsr));
                            (m.start, m.dur, m.end) = (s, len, s + len);
                        }
                    }
                    sections.push((f, m.start, m.end));
                    // what a section moved away from the pointer does isn't part of the statement
                    if m.ptr < m.start || m.ptr >= m.stop(frames) - 1.0 || m.finished || c.rng.chance(1, 2) {
                        m.ptr = m.start;
                        m.finished = false;
                        changes.push(Change { frame: f, param: idx("t_restart")?, value: ParameterValue::Trigger });
                    }
                }
            }
        }
        if m.finished {
            want.push(vec![vec![0.0]; C::USIZE]);
            continue;
        }
        let stop = m.stop(frames);
        want.push((0..C::USIZE).map(|k| d.read(m.ptr, k, Some((m.start, stop)))).collect());
        m.ptr += m.step;
        if (m.ptr - stop).abs() < margin {
            upto = f;
            break;
        }
        if m.ptr >= stop {
            ends += 1;
            if m.looping {
                let len = stop - m.start;
                m.ptr = m.start + (m.ptr - stop) % len;
                // landing on the end of the loop again
                if margin > 0.0 && (m.ptr - m.start < margin || stop - m.ptr < margin) {
                    upto = f;
                    break;
                }
            } else {
                m.finished = true;
                done.push(f as u64 + 1);
            }
        }
    }
    c.note(format!(
        "{} {} of {ch} channels {frames} frames {bsr}->{sr} rate {rate} looping {looping} start {start} {div:?} {changes:?}",
        std::any::type_name::<F>(),
        C::USIZE
    ));
    changes.retain(|x| x.frame < upto);
    let got = run(&mut u, sr, &div, n, &[], &changes)?;
    let scale = d.scale();
    for f in 0..upto {
        for k in 0..C::USIZE {
            let w = &want[f][k];
            // Differences of the pointer are multiplied by the slope
            let slack = if exact { 0.0 } else { 1e-6 * scale };
            ensure!(
                w.iter().any(|w| (got.out[k][f] - w).abs() <= tol::<F>() * scale + slack),
                "playback",
                "frame {f} channel {k}: {} instead of {w:?}; {} loops or ends before; sections {sections:?}",
                got.out[k][f],
                ends
            );
        }
    }
    // Completion is reported once per block
    let bl = match &div {
        Div::Frames => 1,
        Div::Blocks(b) | Div::Parts(b, _) => *b,
    };
    let mut firsts: Vec<u64> = vec![];
    for x in &done {
        if firsts.last().is_none_or(|l| (l - 1) / bl as u64 != (x - 1) / bl as u64) {
            firsts.push(*x);
        }
    }
    let lim = if upto < n { (upto / bl * bl) as u64 } else { n as u64 };
    firsts.retain(|x| *x <= lim);
    let seen: Vec<u64> = got.done.iter().copied().filter(|x| *x <= lim).collect();
    ensure!(seen == firsts, "completion", "completion reported at frames {seen:?} instead of {firsts:?}");
    c.count("frames played", upto as u64);
    c.count("ends and loops", ends);
    c.count("completions", firsts.len() as u64);
    if ends > 0 {
        c.nontrivial();
    }
    Ok(())
}
fn ch_(f: usize, p: usize, v: f64) -> Change {
    Change { frame: f, param: p, value: ParameterValue::Float(v) }
}

/// Anything goes: only what is in the buffer is ever heard.
fn wild<F: Float, C: Size>(c: &mut Case) -> Res {
    let ch = 1 + c.rng.below(3);
    let frames = if c.rng.chance(1, 6) { 0 } else { 1 + c.rng.below(20) };
    let bsr = *c.rng.pick(&[44100.0, 48000.0, 8000.0]);
    let d = Data { v: content(c, frames * ch), ch, frames };
    let hostile = |c: &mut Case, scale: f64| -> f64 {
        let x = c.rng.uniform(-scale, scale);
        *c.rng.pick(&[0.0, -0.0, x, x, x, x * 100.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 1e-300])
    };
    let bs = c.rng.block(&[1usize, 4, 16, 64]);
    let n = (64 + c.rng.below(200)).div_ceil(bs) * bs;
    let div = if c.rng.chance(1, 3) { Div::Frames } else { Div::Parts(bs, cuts(&mut c.rng, n, bs)) };
    let ok: Vec<usize> = match &div {
        Div::Frames => (0..n).collect(),
        Div::Parts(b, c) => (0..n / b).map(|i| i * b).chain(c.iter().copied()).collect(),
        _ => vec![],
    };
    let mut changes = vec![];
    let names = BufferReader::<F, C>::param_descriptions();
    for _ in 0..c.rng.below(12) {
        let f = *c.rng.pick(&ok);
        let p = c.rng.below(names.len());
        let value = match names[p] {
            "looping" => ParameterValue::Bool(c.rng.chance(1, 2)),
            "t_restart" => ParameterValue::Trigger,
            "rate" => ParameterValue::Float(hostile(c, 8.0)),
            _ => ParameterValue::Float(hostile(c, 3.0 * (1 + frames) as f64 / bsr)),
        };
        changes.push(Change { frame: f, param: p, value });
    }
    changes.sort_by_key(|x| x.frame);
    let rate = hostile(c, 6.0);
    let looping = c.rng.chance(1, 2);
    c.note(format!("{} {} of {ch} channels {frames} frames rate {rate} looping {looping} {div:?} {changes:?}", std::any::type_name::<F>(), C::USIZE));
    let mut u = BufferReader::<F, C>::new(d.buf::<F>(bsr), rate, looping);
    if c.rng.chance(1, 4) {
        u = u.start_at(Seconds::from_samples(c.rng.below(2 * frames + 1) as u64, bsr as u64));
    }
    let got = match guarded(|| run(&mut u, 44100, &div, n, &[], &changes)) {
        Ok(g) => g?,
        Err(e) => bail!("wild-panic", "playback panicked: {e}"),
    };
    for k in 0..C::USIZE {
        let (mut lo, mut hi) = (0.0f64, 0.0f64);
        if k < ch {
            for f in 0..frames {
                lo = lo.min(d.at(f, k));
                hi = hi.max(d.at(f, k));
            }
        }
        for f in 0..n {
            let x = got.out[k][f];
            let t = 1e-4 * (1.0 + hi - lo);
            if x != 0.0 {
                c.nontrivial();
            }
            ensure!(
                x >= lo - t && x <= hi + t && (k < ch || x == 0.0),
                "wild-outside",
                "frame {f} channel {k}: {x} isn't between samples of the channel ({lo}..{hi}; {ch} channels, {frames} frames)"
            );
        }
    }
    c.count("frames under hostile settings", n as u64);
    Ok(())
}

#[cfg(feature = "sound")]
fn files<F: Float>(c: &mut Case) -> Res {
    struct Scratch(std::path::PathBuf);
    impl Drop for Scratch {
        fn drop(&mut self) {
            let _ = std::fs::remove_file(&self.0);
        }
    }
    let ch = 1 + c.rng.below(2);
    let frames = 1 + c.rng.below(3000);
    let sr = *c.rng.pick(&[44100.0, 48000.0, 8000.0, 96000.0, 22050.0]);
    let v: Vec<f64> = (0..frames * ch).map(|_| c.rng.uniform(-1.2, 1.2)).collect();
    let file = Scratch(std::env::temp_dir().join(format!("kverif-{}-{}-{}.wav", std::process::id(), std::any::type_name::<F>(), c.index)));
    c.note(format!("{} {ch} channels {frames} frames {sr} Hz", std::any::type_name::<F>()));
    let b: Buffer<F> = Buffer::from_vec_interleaved(v.iter().map(|x| F::new(*x)).collect(), ch, sr);
    if let Err(e) = b.save_to_disk(&file.0) {
        bail!("file-save", "saving failed: {e}");
    }
    let l = match Buffer::<F>::from_sound_file(&file.0) {
        Ok(l) => l,
        Err(e) => bail!("file-load", "loading what was saved failed: {e}"),
    };
    ensure!(
        l.num_channels() == ch && l.num_frames() == frames as f64 && l.sample_rate() == sr,
        "file-format",
        "saved {ch} channels {frames} frames {sr} Hz, loaded {} channels {} frames {} Hz",
        l.num_channels(),
        l.num_frames(),
        l.sample_rate()
    );
    for f in 0..frames {
        for k in 0..ch {
            let want = v[f * ch + k].clamp(-1.0, 1.0);
            let got = l.get_interleaved(f)[k].to_f64();
            ensure!((got - want).abs() <= 2.5 / 32768.0, "file-samples", "frame {f} channel {k}: saved {want}, loaded {got}");
        }
    }
    c.count("frames through files", frames as u64);
    // Damage: an error or a shorter sound but never a panic
    let bytes = std::fs::read(&file.0).map_err(|e| Violation { key: "harness".into(), msg: e.to_string() })?;
    let mut cut = bytes.clone();
    cut.truncate(c.rng.below(bytes.len()));
    if c.rng.chance(1, 2) {
        for _ in 0..1 + c.rng.below(4) {
            if !cut.is_empty() {
                // only the header is a format, damaged samples are samples
                let i = c.rng.below(cut.len().min(12));
                cut[i] = c.rng.next() as u8;
            }
        }
    }
    std::fs::write(&file.0, &cut).map_err(|e| Violation { key: "harness".into(), msg: e.to_string() })?;
    match guarded(|| Buffer::<F>::from_sound_file(&file.0).map(|b| b.num_frames())) {
        Ok(Ok(n)) => ensure!(n <= frames as f64, "file-damaged", "{n} frames from a truncated file of {frames}"),
        Ok(Err(_)) => c.count("damaged files refused", 1),
        Err(e) => {
            if !e.contains("symphonia") {
                bail!("file-panic", "a file of {} of {} bytes: panic {e}", cut.len(), bytes.len());
            }
        }
    }
    let missing = std::env::temp_dir().join(format!("kverif-no-such-{}.wav", c.index));
    match guarded(|| Buffer::<F>::from_sound_file(&missing).is_err()) {
        Ok(true) => {}
        Ok(false) => bail!("file-missing", "a missing file was loaded"),
        Err(e) => bail!("file-missing", "a missing file: panic {e}"),
    }
    c.nontrivial();
    Ok(())
}

pub fn run_check(r: &mut Run) {
    r.rule = "(store) buffers built in every way, all samples, whole and fractional positions, positions and channels outside; (reader) BufferReader of 1, 2 or 3 channels at random rates, sample rates, sections and looping with changes and restarts at random frames and any division of time, against a read pointer model (exactly at rates with exact steps); (wild) hostile rates, sections, empty buffers, too many channels: no panic, nothing but samples of the channel; (long) buffers up to 2^24 frames at random and extreme positions; (files) save and load round trips, damaged and missing files; non-trivial: an end or loop was reached, a sample was heard; distinct by configuration".into();
    r.assumptions = vec![
        "what follows the last frame of the buffer or section in an interpolation isn't specified".into(),
        "a section that ends before the current position isn't specified until the next restart".into(),
    ];
    r.cases_t("long", r.n(40, 1000), 4, |c| if c.rng.chance(1, 2) { long::<f32>(c) } else { long::<f64>(c) });
    r.cases("store", r.n(60000, 1000000), |c| if c.rng.chance(1, 2) { store::<f32>(c) } else { store::<f64>(c) });
    r.cases("reader", r.n(400000, 8000000), |c| match c.rng.below(6) {
        0 => reader::<f32, U1>(c),
        1 => reader::<f32, U2>(c),
        2 => reader::<f32, U3>(c),
        3 => reader::<f64, U1>(c),
        4 => reader::<f64, U2>(c),
        _ => reader::<f64, U3>(c),
    });
    r.cases("wild", r.n(200000, 4000000), |c| match c.rng.below(4) {
        0 => wild::<f32, U1>(c),
        1 => wild::<f32, U4>(c),
        2 => wild::<f64, U2>(c),
        _ => wild::<f64, U4>(c),
    });
    #[cfg(feature = "sound")]
    r.cases("files", r.n(2000, 20000), |c| if c.rng.chance(1, 2) { files::<f32>(c) } else { files::<f64>(c) });
}

//! C16: block views.
use crate::common::*;
use crate::{bail, ensure};
use knaster_core::typenum::*;
use knaster_core::{Block, BlockMetadata, BlockRead, EmptyBlock, Float, PartialBlock, PartialBlockMut, StaticBlock, VecBlock};
use knaster_graph::block::{RawAggregateBlock, RawAggregateBlockRead, RawContiguousBlock};

/// What the storage must hold: every channel of the whole storage, frame by frame, and the
/// window of it that the view in question shows.
struct Model {
    s: Vec<Vec<f64>>,
    next: f64,
}
#[derive(Clone, Copy, Debug)]
struct Win {
    /// first frame of the storage, length the view claims, length that exists
    off: usize,
    len: usize,
    valid: usize,
    /// a view it is made from reaches beyond its own source: access may be refused
    bad: bool,
}
impl Model {
    fn new(ch: usize, n: usize) -> Self {
        Model { s: vec![vec![0.0; n]; ch], next: 1.0 }
    }
    fn fresh(&mut self) -> f64 {
        self.next += 1.0;
        self.next
    }
}
fn v<F: Float>(x: f64) -> F {
    F::new(x)
}
fn f<F: Float>(x: F) -> f64 {
    Float::to_f64(x)
}

/// Reads through a read-only view.
fn reads<B: BlockRead + ?Sized>(c: &mut Case, b: &B, m: &Model, w: Win) -> Res {
    let ch = m.s.len();
    ensure!(b.channels() == ch, "channels", "{} channels reported, {ch} expected", b.channels());
    ensure!(b.block_size() == w.len, "block-size", "block size {} reported, {} expected", b.block_size(), w.len);
    for _ in 0..3 {
        let k = c.rng.below(ch + 1 + c.rng.clone().below(2));
        let i = match c.rng.below(6) {
            0 => w.len,
            1 => w.len + c.rng.below(70),
            2 => 0,
            3 => w.len.saturating_sub(1),
            _ => c.rng.below(w.len.max(1)),
        };
        let r = guarded(|| f(b.read(k, i)));
        let inside = k < ch && i < w.len && i < w.valid;
        match r {
            Ok(x) => {
                ensure!(inside, "outside", "reading channel {k} frame {i} of {w:?} gave {x}");
                let want = m.s[k][w.off + i];
                ensure!(x == want, "read", "channel {k} frame {i} of {w:?} is {x}, expected {want}");
            }
            Err(e) => ensure!(!inside || w.bad, "refused", "reading channel {k} frame {i} of {w:?}: {e}"),
        }
        c.count("single reads", 1);
    }
    let k = c.rng.below(ch + 1);
    let r = guarded(|| b.channel_as_slice(k).iter().map(|x| f(*x)).collect::<Vec<_>>());
    slice_is(r, k, m, w)?;
    c.count("slices read", 1);
    Ok(())
}
fn slice_is(r: Result<Vec<f64>, String>, k: usize, m: &Model, w: Win) -> Res {
    let ok = k < m.s.len() && w.valid >= w.len;
    match r {
        Ok(s) => {
            if w.len == 0 && s.is_empty() {
                return Ok(());
            }
            ensure!(ok, "outside", "channel {k} of {w:?} gave a slice of {}", s.len());
            ensure!(s.len() == w.len, "slice", "slice of {} frames for {w:?}", s.len());
            ensure!(s[..] == m.s[k][w.off..w.off + w.len], "slice", "channel {k} of {w:?} is {s:?}");
        }
        Err(e) => ensure!(!ok || w.len == 0 || w.bad, "refused", "channel {k} of {w:?}: {e}"),
    }
    Ok(())
}

/// Everything a mutable view can do.
fn ops<B: Block>(c: &mut Case, b: &mut B, m: &mut Model, w: Win) -> Res {
    reads(c, b as &B, m, w)?;
    let ch = m.s.len();
    ensure!(Block::channels(b) == ch, "channels", "{} channels reported, {ch} expected", Block::channels(b));
    ensure!(Block::block_size(b) == w.len, "block-size", "block size {} reported, {} expected", Block::block_size(b), w.len);
    for _ in 0..2 {
        let k = c.rng.below(ch + 1 + c.rng.clone().below(2));
        let i = match c.rng.below(6) {
            0 => w.len,
            1 => w.len + c.rng.below(70),
            2 => 0,
            3 => w.len.saturating_sub(1),
            _ => c.rng.below(w.len.max(1)),
        };
        let x = m.fresh();
        let inside = k < ch && i < w.len && i < w.valid;
        match guarded(|| b.write(v(x), k, i)) {
            Ok(()) => {
                ensure!(inside, "outside", "writing channel {k} frame {i} of {w:?} was accepted");
                m.s[k][w.off + i] = x;
            }
            Err(e) => ensure!(!inside || w.bad, "refused", "writing channel {k} frame {i} of {w:?}: {e}"),
        }
        c.count("single writes", 1);
    }
    let k = c.rng.below(ch + 1);
    let r = guarded(|| Block::channel_as_slice(b, k).iter().map(|x| f(*x)).collect::<Vec<_>>());
    slice_is(r, k, m, w)?;
    // a mutable channel
    let k = c.rng.below(ch + 1);
    let i = c.rng.below(w.len.max(1));
    let x = m.fresh();
    let r = guarded(|| {
        let s = b.channel_as_slice_mut(k);
        let old = s.iter().map(|x| f(*x)).collect::<Vec<_>>();
        if i < s.len() {
            s[i] = v(x);
        }
        old
    });
    let wrote = r.as_ref().is_ok_and(|s| i < s.len());
    slice_is(r, k, m, w)?;
    if wrote {
        m.s[k][w.off + i] = x;
    }
    c.count("mutable slices", 1);
    // all channels at once
    if w.valid >= w.len && !w.bad && c.rng.chance(1, 2) {
        let mut it = b.iter_mut();
        let mut all = vec![];
        for s in it.by_ref() {
            all.push(s);
            if all.len() > ch + 4 {
                bail!("iter", "iteration goes on beyond {ch} channels");
            }
        }
        ensure!(it.next().is_none(), "iter", "iteration continues after its end");
        ensure!(all.len() == ch, "iter", "iteration visited {} channels of {ch}", all.len());
        for (k, s) in all.iter().enumerate() {
            ensure!(s.len() == w.len, "iter", "channel {k} of {w:?} has {} frames", s.len());
            for (i, x) in s.iter().enumerate() {
                let want = m.s[k][w.off + i];
                ensure!(f(*x) == want, "iter", "channel {k} frame {i} of {w:?} is {}, expected {want}", f(*x));
            }
        }
        // written in an order of its own
        for k in (0..ch).rev() {
            for i in 0..w.len {
                if c.rng.chance(1, 4) {
                    let x = m.fresh();
                    all[k][i] = v(x);
                    m.s[k][w.off + i] = x;
                }
            }
        }
        c.count("iterations over all channels", 1);
    }
    Ok(())
}
fn sub(c: &mut Case, w: Win) -> Win {
    let o = match c.rng.below(5) {
        0 => 0,
        1 => w.len,
        _ => c.rng.below(w.len + 1),
    };
    let left = w.len.saturating_sub(o);
    let n = match c.rng.below(12) {
        0 => left,
        1 => 0,
        // reaches beyond the view it is made from
        2 => left + 1 + c.rng.below(8),
        _ => c.rng.below(left + 1),
    };
    let valid = w.valid.min(w.len).saturating_sub(o).min(n);
    let s = Win { off: w.off + o, len: n, valid, bad: w.bad || w.valid < w.len };
    c.note(format!("{o}+{n}"));
    s
}
fn nested_reads(c: &mut Case, b: &dyn AnyRead, m: &Model, w: Win, depth: usize) -> Res {
    b.check(c, m, w)?;
    if depth > 0 {
        let s = sub(c, w);
        b.nest(c, m, s, s.off - w.off, depth - 1)?;
    }
    Ok(())
}
/// views of views of any depth
trait AnyRead {
    fn check(&self, c: &mut Case, m: &Model, w: Win) -> Res;
    fn nest(&self, c: &mut Case, m: &Model, w: Win, o: usize, depth: usize) -> Res;
}
struct R<'a, F>(&'a dyn BlockRead<Sample = F>);
impl<F: Float> AnyRead for R<'_, F> {
    fn check(&self, c: &mut Case, m: &Model, w: Win) -> Res {
        reads(c, self.0, m, w)
    }
    fn nest(&self, c: &mut Case, m: &Model, w: Win, o: usize, depth: usize) -> Res {
        let p: PartialBlock<'_, F, dyn BlockRead<Sample = F>> = PartialBlock::from_block(self.0, o, w.len);
        nested_reads(c, &R(&p), m, w, depth)
    }
}
macro_rules! level {
    ($name:ident, $next:ident) => {
        fn $name<B: Block>(c: &mut Case, b: &mut B, m: &mut Model, w: Win) -> Res {
            for _ in 0..1 + c.rng.below(3) {
                match c.rng.below(4) {
                    0 => ops(c, b, m, w)?,
                    1 => {
                        let s = sub(c, w);
                        let p: PartialBlock<'_, B::Sample, B> = b.partial(s.off - w.off, s.len);
                        nested_reads(c, &R(&p), m, s, 2)?;
                    }
                    _ => {
                        let s = sub(c, w);
                        let mut p: PartialBlockMut<'_, B> = b.partial_mut(s.off - w.off, s.len);
                        $next(c, &mut p, m, s)?;
                    }
                }
            }
            ops(c, b, m, w)
        }
    };
}
level!(l2, ops);
level!(l1, l2);
level!(l0, l1);

fn whole<B: Block>(b: &B, m: &Model) -> Res {
    for (k, s) in m.s.iter().enumerate() {
        for (i, w) in s.iter().enumerate() {
            let x = f(Block::read(b, k, i));
            ensure!(x == *w, "storage", "storage channel {k} frame {i} is {x}, expected {w}");
        }
    }
    Ok(())
}
fn owned<B: Block>(c: &mut Case, mut b: B, ch: usize, n: usize) -> Res {
    let mut m = Model::new(ch, n);
    c.note(format!("{} {ch}x{n}", std::any::type_name::<B>()));
    let w = Win { off: 0, len: n, valid: n, bad: false };
    // starts out silent
    whole(&b, &m)?;
    for _ in 0..2 {
        l0(c, &mut b, &mut m, w)?;
        whole(&b, &m)?;
    }
    c.nontrivial();
    Ok(())
}
fn run_one<F: Float>(c: &mut Case) -> Res {
    let mut ch = c.rng.below(5);
    let mut n = *c.rng.pick(&[0usize, 1, 2, 3, 7, 16, 64]);
    if c.rng.chance(1, 1500) {
        // more than fits in small integers
        (ch, n) = if c.rng.chance(1, 2) { (1 + c.rng.below(3), 60_000 + c.rng.below(10_000)) } else { (200 + c.rng.below(100), 1 + c.rng.below(16)) };
        c.count("big blocks", 1);
    }
    match c.rng.below(10) {
        0 | 1 => owned(c, VecBlock::<F>::new(ch, n), ch, n),
        2 => owned(c, StaticBlock::<F, U3, U16>::new(), 3, 16),
        3 => owned(c, StaticBlock::<F, U1, U64>::default(), 1, 64),
        4 => owned(c, StaticBlock::<F, U5, U1>::new(), 5, 1),
        5 => owned(c, EmptyBlock::<F>::new(), 0, 0),
        6 | 7 => {
            // one allocation, with guards around it
            let g = 70;
            let mut mem = vec![v::<F>(-7.0); ch * n + 2 * g];
            mem[g..g + ch * n].fill(v(0.0));
            let b = unsafe { RawContiguousBlock::<F>::new(mem.as_mut_ptr().add(g), ch, n) };
            owned(c, b, ch, n)?;
            let hit = mem[..g].iter().chain(&mem[g + ch * n..]).position(|x| f(*x) != -7.0);
            ensure!(hit.is_none(), "outside", "memory around the block was written ({hit:?})");
            Ok(())
        }
        _ => {
            // one allocation per channel, in any order, with guards around each
            let g = 70;
            let mut mem: Vec<Vec<F>> = (0..ch)
                .map(|_| {
                    let mut x = vec![v::<F>(-7.0); n + 2 * g];
                    x[g..g + n].fill(v(0.0));
                    x
                })
                .collect();
            let ptrs: Vec<*mut F> = mem.iter_mut().rev().map(|x| unsafe { x.as_mut_ptr().add(g) }).collect();
            let cptrs: Vec<*const F> = ptrs.iter().map(|p| *p as *const F).collect();
            let mut m = Model::new(ch, n);
            let w = Win { off: 0, len: n, valid: n, bad: false };
            c.note(format!("aggregate {ch}x{n}"));
            for _ in 0..2 {
                {
                    let mut b = unsafe { RawAggregateBlock::<F>::new(&ptrs, n) };
                    l0(c, &mut b, &mut m, w)?;
                    whole(&b, &m)?;
                }
                let r = unsafe { RawAggregateBlockRead::<F>::new(&cptrs, n) };
                nested_reads(c, &R(&r), &m, w, 3)?;
            }
            for x in &mem {
                let hit = x[..g].iter().chain(&x[g + n..]).position(|x| f(*x) != -7.0);
                ensure!(hit.is_none(), "outside", "memory around a channel was written ({hit:?})");
            }
            c.nontrivial();
            Ok(())
        }
    }
}

/// The description of a partial block composes the same way.
fn metadata(c: &mut Case) -> Res {
    let most = if c.rng.chance(1, 10) { 1 << 18 } else { 256 };
    let n = 1 + c.rng.below(most);
    let clock = c.rng.next() >> 1 >> c.rng.below(62);
    let mut b = BlockMetadata::new(n);
    ensure!(
        b.frames_to_process() == n && b.block_start_offset() == 0 && b.frame_clock() == 0,
        "metadata",
        "new({n}) is {b:?}"
    );
    b.set_frame_clock(clock);
    c.note(format!("{n} {clock}"));
    let (mut off, mut len) = (0, n);
    for _ in 0..4 {
        let o = c.rng.below(len + 1);
        let l = c.rng.below(len - o + 1);
        let p = b.make_partial(o, l);
        (off, len) = (off + o, l);
        c.note(format!("{o}+{l}"));
        ensure!(
            p.frames_to_process() == len && p.block_start_offset() == off && p.frame_clock() == clock + off as u64,
            "metadata",
            "{l} frames from {o} of {b:?} are described as {p:?}"
        );
        b = p;
    }
    c.nontrivial();
    Ok(())
}

pub fn run_check(r: &mut Run) {
    r.rule = "every kind of block (heap, static, empty, raw contiguous, one pointer per channel, read-only) of several sizes, with mutable and read-only views of views up to four deep, windows at the edges, empty and reaching too far; every read, write, slice and iteration is compared with a model of the storage, accesses out of bounds must be refused, and the whole storage and the memory around it are compared afterwards; every case is non-trivial".into();
    r.assumptions.push("a view may be made that reaches beyond what it is made from, but nothing can be accessed through that part".into());
    r.cases("views-f32", r.n(40000, 1_500_000), run_one::<f32>);
    r.cases("views-f64", r.n(40000, 1_500_000), run_one::<f64>);
    r.cases("metadata", r.n(20000, 400_000), metadata);
}

//! C18: log messages from the audio side.
use crate::common::*;
use crate::{bail, ensure};
use knaster_core::log::{ArLogMessage, ArLogReceiver, ArLogSender};
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::{U0, U1};
use knaster_core::{AudioCtx, Frame, ParameterValue, Seconds, Size, UGen, UGenFlags, rt_log};
use knaster_graph::graph::{Graph, GraphOptions};
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

const STRS: &[&str] = &["", "a", "value: ", "mängd", "a longer string, with End in it", "\n"];

fn same(a: &ArLogMessage, b: &ArLogMessage) -> bool {
    use ArLogMessage::*;
    match (a, b) {
        (Str(a), Str(b)) => a == b,
        (Float(a), Float(b)) => a.to_bits() == b.to_bits(),
        (Unsigned(a), Unsigned(b)) => a == b,
        (Signed(a), Signed(b)) => a == b,
        (Timestamp(a), Timestamp(b)) => a == b,
        (End, End) => true,
        _ => false,
    }
}
fn item(r: &mut Rng) -> ArLogMessage {
    match r.below(5) {
        0 => ArLogMessage::Str(STRS[r.below(STRS.len())]),
        1 => ArLogMessage::Float(f64::from_bits(r.next())),
        2 => ArLogMessage::Unsigned(r.next() >> r.below(64)),
        3 => ArLogMessage::Signed(r.next() as i64),
        _ => ArLogMessage::Timestamp(Seconds::new(r.next() as u32 >> 1, r.next() as u32 >> 5)),
    }
}
/// first item of every message: who sent it and which one it is
fn tag(sender: usize, seq: u64) -> ArLogMessage {
    ArLogMessage::Unsigned((sender as u64) << 40 | seq)
}
type Msg = Vec<ArLogMessage>;

/// Splits what one call of `recv` handed out into messages.
#[derive(Default)]
struct Split {
    cur: Msg,
    calls: u64,
}
impl Split {
    fn feed(&mut self, s: &[ArLogMessage], mut f: impl FnMut(Msg)) {
        self.calls += 1;
        for m in s {
            if m.is_end() {
                f(std::mem::take(&mut self.cur));
            } else {
                self.cur.push(*m);
            }
        }
    }
}

struct Tx {
    s: Option<ArLogSender>,
    cap: usize,
    /// accepted messages not yet received, with the slots they use
    queue: VecDeque<Msg>,
    used: usize,
    pending: Msg,
    seq: u64,
    /// messages without a tag (only an end)
    empty: u64,
}
impl Tx {
    fn send(&mut self, m: ArLogMessage) {
        if let Some(s) = &mut self.s {
            s.send(m);
        }
    }
    fn end(&mut self, c: &mut Case) {
        self.send(ArLogMessage::End);
        let m = std::mem::take(&mut self.pending);
        if self.used + m.len() + 1 <= self.cap {
            self.used += m.len() + 1;
            if m.is_empty() {
                self.empty += 1;
            } else {
                self.queue.push_back(m);
            }
            c.count("messages accepted", 1);
        } else {
            c.count("messages dropped for lack of room", 1);
        }
    }
    /// some steps of sending
    fn step(&mut self, c: &mut Case, me: usize) {
        if self.s.is_none() {
            return;
        }
        if self.pending.is_empty() && c.rng.chance(1, 30) {
            return self.end(c);
        }
        if self.pending.is_empty() {
            let t = tag(me, self.seq);
            self.seq += 1;
            self.send(t);
            self.pending.push(t);
        }
        let n = match c.rng.below(8) {
            0 => 0,
            1 => self.cap + c.rng.below(3),
            2 => self.cap.saturating_sub(self.used + self.pending.len() + 1),
            _ => c.rng.below(6),
        };
        c.note(format!("send {me} {n}"));
        for _ in 0..n {
            let i = item(&mut c.rng);
            self.send(i);
            self.pending.push(i);
        }
        if c.rng.chance(5, 6) {
            self.end(c);
        }
    }
}

fn receive<N: Size>(c: &mut Case, rx: &mut ArLogReceiver<N>, txs: &mut [Tx]) -> Res {
    let mut got: Vec<Msg> = vec![];
    let mut sp = Split::default();
    rx.recv(|s| sp.feed(s, |m| got.push(m)));
    ensure!(sp.cur.is_empty(), "incomplete", "receiving ended in the middle of a message: {:?}", sp.cur);
    c.count("handler calls", sp.calls);
    c.count("messages received", got.len() as u64);
    for m in got {
        let Some(ArLogMessage::Unsigned(t)) = m.first() else {
            if m.is_empty() {
                if let Some(t) = txs.iter_mut().find(|t| t.empty > 0) {
                    t.empty -= 1;
                    continue;
                }
            }
            bail!("unknown", "received {m:?}, which was never sent");
        };
        let k = (t >> 40) as usize;
        ensure!(k < txs.len(), "unknown", "received {m:?}, which was never sent");
        let Some(w) = txs[k].queue.pop_front() else {
            bail!("unknown", "received {m:?} from sender {k}, which had nothing more to send");
        };
        ensure!(
            w.len() == m.len() && w.iter().zip(&m).all(|(a, b)| same(a, b)),
            "content",
            "received {m:?}, expected {w:?}"
        );
    }
    for (k, t) in txs.iter_mut().enumerate() {
        ensure!(t.queue.is_empty(), "lost", "sender {k}: {} accepted messages did not arrive, first {:?}", t.queue.len(), t.queue[0]);
        ensure!(t.empty == 0, "lost", "{} accepted empty messages did not arrive", t.empty);
        t.used = 0;
    }
    Ok(())
}

pub fn model(c: &mut Case) -> Res {
    let k = 1 + c.rng.below(4);
    let mut txs: Vec<Tx> = vec![];
    let steps = 5 + c.rng.below(40);
    fn go<N: Size>(c: &mut Case, rx: &mut ArLogReceiver<N>, txs: &mut Vec<Tx>, n: usize) -> Res {
        for _ in 0..n {
            match c.rng.below(12) {
                0..=2 => {
                    c.note("receive");
                    receive(c, rx, txs)?
                }
                3 if c.rng.chance(1, 6) => {
                    let i = c.rng.below(txs.len());
                    // what was accepted before the sender goes away still arrives
                    txs[i].s = None;
                    txs[i].pending.clear();
                }
                _ => {
                    let i = c.rng.below(txs.len());
                    txs[i].step(c, i);
                }
            }
        }
        Ok(())
    }
    fn add<N: Size>(c: &mut Case, rx: ArLogReceiver<N>, txs: &mut Vec<Tx>) -> (ArLogReceiver<knaster_core::typenum::Add1<N>>, Res)
    where
        N: std::ops::Add<knaster_core::typenum::B1>,
        knaster_core::typenum::Add1<N>: Size,
    {
        let cap = if c.rng.chance(1, 20) { 0 } else { 1 + c.rng.below(24) };
        c.note(format!("capacity {cap}"));
        let before = rx.channels();
        let (s, mut rx) = rx.sender(cap);
        txs.push(Tx { s: Some(s), cap, queue: VecDeque::new(), used: 0, pending: vec![], seq: 0, empty: 0 });
        if rx.channels() != before + 1 || rx.channels() != txs.len() {
            let n = rx.channels();
            return (rx, viol("channels", format!("{n} channels after registering {}", txs.len())));
        }
        // use it before the next one is registered
        let n = c.rng.below(8);
        let r = go(c, &mut rx, txs, n);
        (rx, r)
    }
    let rx = if c.rng.chance(1, 2) { ArLogReceiver::new() } else { ArLogReceiver::default() };
    ensure!(rx.channels() == 0, "channels", "{} channels to begin with", rx.channels());
    let (mut rx, r) = add(c, rx, &mut txs);
    r?;
    macro_rules! run {
        ($rx:expr) => {{
            go(c, &mut $rx, &mut txs, steps)?;
            receive(c, &mut $rx, &mut txs)?;
            // afterwards everything works again
            for (i, t) in txs.iter_mut().enumerate() {
                if t.s.is_none() || t.cap < 2 {
                    continue;
                }
                if !t.pending.is_empty() {
                    t.end(c);
                } else {
                    let m = tag(i, t.seq);
                    t.seq += 1;
                    t.send(m);
                    t.pending.push(m);
                    t.end(c);
                }
            }
            receive(c, &mut $rx, &mut txs)?;
        }};
    }
    if k == 1 {
        run!(rx);
    } else {
        let (mut rx, r) = add(c, rx, &mut txs);
        r?;
        if k == 2 {
            run!(rx);
        } else {
            let (mut rx, r) = add(c, rx, &mut txs);
            r?;
            if k == 3 {
                run!(rx);
            } else {
                let (mut rx, r) = add(c, rx, &mut txs);
                r?;
                run!(rx);
            }
        }
    }
    c.nontrivial();
    Ok(())
}

/// Every value type arrives as logged and is displayed as itself.
fn values(c: &mut Case) -> Res {
    use ArLogMessage::*;
    let (mut tx, mut rx) = ArLogReceiver::new().sender(64);
    let r = c.rng.next();
    let f = f64::from_bits(c.rng.next());
    let g = f32::from_bits(c.rng.next() as u32);
    let g = if g.is_nan() { 0.5 } else { g };
    let t = Seconds::new(r as u32 >> 1, (r >> 33) as u32 % 282_240_000);
    c.note(format!("{r} {f} {g} {t:?}"));
    let s = *c.rng.pick(STRS);
    rt_log!(tx; s, f, g, r as usize, r, r as u32, r as u16, r as u8, r as i64, r as i32, r as i16, r as i8, t);
    rt_log!(tx; "second",);
    rt_log!(tx;);
    let want = [
        vec![
            Str(s),
            Float(f),
            Float(g as f64),
            Unsigned(r as usize as u64),
            Unsigned(r),
            Unsigned(r as u32 as u64),
            Unsigned(r as u16 as u64),
            Unsigned(r as u8 as u64),
            Signed(r as i64),
            Signed(r as i32 as i64),
            Signed(r as i16 as i64),
            Signed(r as i8 as i64),
            Timestamp(t),
        ],
        vec![Str("second")],
        vec![],
    ];
    let mut got: Vec<Msg> = vec![];
    let mut sp = Split::default();
    rx.recv(|s| sp.feed(s, |m| got.push(m)));
    ensure!(
        got.len() == 3 && got.iter().zip(&want).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b))),
        "content",
        "received {got:?}, expected {want:?}"
    );
    let shown: Vec<String> = got[0].iter().map(|m| m.to_string()).collect();
    let disp = vec![
        s.to_string(),
        f.to_string(),
        (g as f64).to_string(),
        (r as usize).to_string(),
        r.to_string(),
        (r as u32).to_string(),
        (r as u16).to_string(),
        (r as u8).to_string(),
        (r as i64).to_string(),
        (r as i32).to_string(),
        (r as i16).to_string(),
        (r as i8).to_string(),
        format!("{} seconds", t.to_secs_f64()),
    ];
    ensure!(shown == disp, "display", "displayed as {shown:?}, expected {disp:?}");
    for m in &got[0] {
        ensure!(!m.is_end(), "is-end", "{m:?}");
    }
    ensure!(End.is_end(), "is-end", "End");
    // the non real-time fallback takes anything
    let mut l = ArLogSender::non_rt();
    rt_log!(l; s, f, r, t);
    c.nontrivial();
    Ok(())
}

/// Senders on their own threads, a receiver on another.
pub fn threads(c: &mut Case) -> Res {
    let caps: Vec<usize> = (0..3).map(|_| [4usize, 7, 16, 64, 1000][c.rng.below(5)]).collect();
    c.note(format!("capacities {caps:?} #{}", c.index));
    let (s0, rx) = ArLogReceiver::new().sender(caps[0]);
    let (s1, rx) = rx.sender(caps[1]);
    let (s2, mut rx) = rx.sender(caps[2]);
    let per = if c.thorough { 20000u64 } else { 3000 };
    let slow = c.rng.chance(1, 2);
    let live = AtomicU64::new(3);
    let mut last = [None::<u64>; 3];
    let mut n = 0u64;
    let mut err: Res = Ok(());
    // the last message of each sender is sent when its channel is empty
    let drained = [AtomicBool::new(false), AtomicBool::new(false), AtomicBool::new(false)];
    let waiting = [AtomicBool::new(false), AtomicBool::new(false), AtomicBool::new(false)];
    std::thread::scope(|sc| {
        for (i, mut s) in [s0, s1, s2].into_iter().enumerate() {
            let (live, drained, waiting) = (&live, &drained, &waiting);
            let mut r = Rng::new(c.rng.next());
            let cap = caps[i];
            sc.spawn(move || {
                for seq in 0..per {
                    let len = r.below(4).min(cap - 2) as u64;
                    s.send(tag(i, seq));
                    for k in 0..len {
                        s.send(ArLogMessage::Signed((seq * 8 + k) as i64));
                        if r.chance(1, 64) {
                            std::thread::yield_now();
                        }
                    }
                    s.send(ArLogMessage::End);
                    if !slow && r.chance(1, 8) {
                        std::hint::spin_loop();
                    }
                }
                waiting[i].store(true, Ordering::Release);
                while !drained[i].load(Ordering::Acquire) {
                    std::thread::yield_now();
                }
                rt_log!(s; (i as u64) << 40 | per, -1i64);
                live.fetch_sub(1, Ordering::Release);
            });
        }
        loop {
            let end = live.load(Ordering::Acquire) == 0;
            let w: Vec<bool> = waiting.iter().map(|w| w.load(Ordering::Acquire)).collect();
            let mut sp = Split::default();
            rx.recv(|s| {
                sp.feed(s, |m| {
                    n += 1;
                    if err.is_err() {
                        return;
                    }
                    err = (|| {
                        let Some(ArLogMessage::Unsigned(t)) = m.first() else {
                            bail!("content", "received {m:?}");
                        };
                        let (k, seq) = ((t >> 40) as usize, t & 0xff_ffff_ffff);
                        ensure!(k < 3, "content", "received {m:?}");
                        ensure!(last[k].is_none_or(|l| seq > l), "order", "sender {k}: message {seq} after {:?}", last[k]);
                        last[k] = Some(seq);
                        if seq == per {
                            ensure!(m.len() == 2, "content", "received {m:?}");
                            return Ok(());
                        }
                        ensure!(m.len() <= 4, "content", "received {m:?}");
                        for (j, x) in m[1..].iter().enumerate() {
                            ensure!(
                                matches!(x, ArLogMessage::Signed(v) if *v == (seq * 8 + j as u64) as i64),
                                "content",
                                "sender {k}, message {seq}: {m:?}"
                            );
                        }
                        Ok(())
                    })();
                });
            });
            if !sp.cur.is_empty() && err.is_ok() {
                err = viol("incomplete", format!("receiving ended in the middle of a message: {:?}", sp.cur));
            }
            for (i, w) in w.iter().enumerate() {
                if *w {
                    drained[i].store(true, Ordering::Release);
                }
            }
            if end {
                break;
            }
            if slow {
                for _ in 0..200 {
                    std::hint::spin_loop();
                }
                std::thread::yield_now();
            }
        }
    });
    err?;
    for (i, l) in last.iter().enumerate() {
        ensure!(*l == Some(per), "lost", "sender {i}: the message sent into an empty channel did not arrive (last {l:?})");
    }
    c.count("messages received across threads", n);
    c.count("messages dropped for lack of room", 3 * (per + 1) - n);
    c.nontrivial();
    Ok(())
}

/// Logs from a running graph.
struct Logger {
    id: u64,
    frame: u64,
    every: u64,
    sent: Arc<Mutex<Vec<(u64, u64)>>>,
}
impl UGen for Logger {
    type Sample = f32;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U0;
    fn init(&mut self, _: u32, _: usize) {}
    fn process(&mut self, ctx: &mut AudioCtx, _flags: &mut UGenFlags, _i: Frame<f32, U0>) -> Frame<f32, U1> {
        if self.frame % self.every == 0 {
            rt_log!(ctx.logger(); self.id << 40 | self.frame, "frame ", self.frame as f64, " of ", self.id as i64);
            crate::alloc::off_duty(|| self.sent.lock().unwrap().push((self.id, self.frame)));
        }
        self.frame += 1;
        NumericArray::from([0.0])
    }
    fn param_hints() -> NumericArray<knaster_core::ParameterHint, U0> {
        NumericArray::from([])
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        NumericArray::from([])
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}

pub fn graph(c: &mut Case) -> Res {
    let bs = c.rng.block(&[1usize, 4, 16]);
    let cap = [6, 12, 31, 100, 3000][c.rng.below(5)];
    let (mut g, mut p, mut rx) = AudioProcessor::<f32>::new::<U0, U1>(AudioProcessorOptions {
        block_size: bs,
        sample_rate: 44100,
        log_channel_capacity: cap,
        ..Default::default()
    });
    let sent = Arc::new(Mutex::new(vec![]));
    let n = 1 + c.rng.below(4);
    c.note(format!("block {bs} capacity {cap} loggers {n} #{}", c.index));
    let mut keep: Vec<Graph<f32>> = vec![];
    for id in 0..n as u64 {
        let every = 1 + c.rng.below(9) as u64;
        let l = Logger { id, frame: 0, every, sent: sent.clone() };
        if c.rng.chance(1, 3) {
            let sub = g.edit(|e| {
                let (h, s) = e.subgraph::<U0, U1>(GraphOptions::default(), |s| {
                    s.push(l).to_graph_out();
                });
                h.to_graph_out();
                s
            });
            keep.push(sub);
        } else {
            g.edit(|e| {
                e.push(l).to_graph_out();
            });
        }
    }
    let mut room = cap;
    let mut want: VecDeque<(u64, u64)> = VecDeque::new();
    for _ in 0..20 {
        for _ in 0..1 + c.rng.below(4) {
            crate::probe::run_any(&mut p, &[]);
            for s in sent.lock().unwrap().drain(..) {
                if room >= 6 {
                    room -= 6;
                    want.push_back(s);
                } else {
                    c.count("messages dropped for lack of room", 1);
                }
            }
        }
        if c.rng.chance(1, 2) {
            let mut got: Vec<Msg> = vec![];
            let mut sp = Split::default();
            rx.recv(|s| sp.feed(s, |m| got.push(m)));
            ensure!(sp.cur.is_empty(), "incomplete", "{:?}", sp.cur);
            c.count("messages received", got.len() as u64);
            for m in got {
                let w = want.pop_front();
                let Some((id, fr)) = w else { bail!("unknown", "received {m:?}, nothing more was sent") };
                use ArLogMessage::*;
                let e = [Unsigned(id << 40 | fr), Str("frame "), Float(fr as f64), Str(" of "), Signed(id as i64)];
                ensure!(m.len() == 5 && m.iter().zip(&e).all(|(a, b)| same(a, b)), "content", "received {m:?}, expected {e:?}");
            }
            ensure!(want.is_empty(), "lost", "{want:?} did not arrive");
            room = cap;
        }
    }
    c.nontrivial();
    Ok(())
}

pub fn run_check(r: &mut Run) {
    r.rule = "random sequences of sending parts of messages, ending them, receiving, registering further senders and dropping senders, with capacities from 0 and messages from empty to longer than the channel, compared message by message with a queue model of every channel; the same from UGens in a running graph; three sender threads and a receiver thread under stress (order, completeness and content of each message, and that a message sent into an empty channel arrives); every case is non-trivial".into();
    r.assumptions.push("the capacity counts the parts of a message and its end, as documented".into());
    r.cases("model", r.n(150000, 3_000_000), model);
    r.cases("values", r.n(10000, 300_000), values);
    r.cases("graph", r.n(6000, 100_000), graph);
    r.cases_t("threads", r.n(120, 600), 2, threads);
}

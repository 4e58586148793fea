// A node that shares an Rc with the control thread. The library should refuse it at compile time;
// if it doesn't, running this under the thread sanitizer shows the race.
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Float, Frame, ParameterHint, ParameterValue, UGen, UGenFlags};
#[allow(unused_imports)]
use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
#[allow(unused_imports)]
use knaster_graph::graph::{Graph, NodeOrGraph};
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use std::cell::Cell;
use std::rc::Rc;

struct Counter(Rc<Cell<u64>>);
impl UGen for Counter {
    type Sample = f32;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f32, U0>) -> Frame<f32, U1> {
        let c = self.0.clone();
        c.set(c.get() + 1);
        [f32::ZERO].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
fn main() {
    let (mut g, mut p, _rx) = AudioProcessor::<f32>::new::<U0, U1>(AudioProcessorOptions {
        block_size: 16,
        sample_rate: 48000,
        ring_buffer_size: 20,
        ..Default::default()
    });
    let n = Rc::new(Cell::new(0u64));
    push(&mut g, Counter(n.clone()));
    let t = std::thread::spawn(move || {
        for _ in 0..3000 {
            p.run_without_inputs();
        }
        std::mem::forget(p);
    });
    for _ in 0..100_000 {
        let m = n.clone();
        m.set(m.get() + 1);
    }
    t.join().unwrap();
}

//! C06: rendering never allocates, frees or blocks.
use crate::alloc;
use crate::catalog;
use crate::common::*;
use crate::ensure;
use crate::tree;
use crate::world;

/// Run a workload with an eye on what happens while it renders. What the workload itself has to
/// say is the matter of other checks.
fn watch(c: &mut Case, f: impl FnOnce(&mut Case) -> Res) -> Res {
    alloc::audit();
    let r = guarded(|| f(c));
    let a = alloc::audit();
    match r {
        // unwinding allocates
        Err(_) => {
            c.count("workloads that panicked", 1);
            return Ok(());
        }
        Ok(Err(_)) => c.count("workloads cut short by another check's oracle", 1),
        Ok(Ok(())) => (),
    }
    judge(c, &a)
}
fn judge(c: &mut Case, a: &alloc::Audit) -> Res {
    c.count("calls on the rendering thread monitored", a.calls);
    ensure!(
        a.heap == 0,
        "heap",
        "{} heap operations on the rendering thread, the first of the last call: {} (KVERIF_TRAP=1 prints a backtrace)",
        a.heap,
        alloc::first_op()
    );
    ensure!(a.sys == 0, "blocks", "{} system calls that may block on the rendering thread (KVERIF_TRAP=1 prints a backtrace)", a.sys);
    if a.calls > 0 {
        c.nontrivial();
    }
    Ok(())
}
/// The monitor sees what it should.
fn self_test() {
    alloc::audit();
    alloc::audio(|| drop(std::hint::black_box(Box::new(5u64))));
    let a = alloc::audit();
    assert!(a.heap == 2 && a.calls == 1, "harness: the heap monitor is blind");
    #[cfg(feature = "syscalls")]
    {
        alloc::audio(|| std::thread::yield_now());
        assert!(alloc::audit().sys == 1, "harness: the system call monitor is blind");
        alloc::audio(|| std::thread::sleep(std::time::Duration::from_micros(1)));
        assert!(alloc::audit().sys == 1, "harness: the system call monitor does not see sleep");
        let m = std::sync::Mutex::new(());
        let on = std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|s| {
            s.spawn(|| {
                let _g = m.lock().unwrap();
                on.store(true, std::sync::atomic::Ordering::SeqCst);
                std::thread::sleep(std::time::Duration::from_millis(20));
            });
            while !on.load(std::sync::atomic::Ordering::SeqCst) {}
            alloc::audio(|| drop(m.lock().unwrap()));
        });
        assert!(alloc::audit().sys > 0, "harness: the system call monitor does not see a blocked lock");
    }
}
macro_rules! both {
    ($c:expr, $f:ident $(, $a:expr)*) => {
        if $c.rng.chance(1, 2) { $f::<f32>($c $(, $a)*) } else { $f::<f64>($c $(, $a)*) }
    };
}
pub fn run_check(r: &mut Run) {
    self_test();
    r.hang_s = 90;
    r.rule = "an allocator that knows when the thread is rendering, and stand-ins for the system calls behind blocking locks, sleeping and printing, watch every call into the audio side (AudioProcessor::run and its variants, and process, process_block and param_apply of single nodes) of the workloads of the other checks - random edits, also in the middle of an edit on the control side, parameter links, scheduled changes, frees, done actions, nested graphs, logs, teardown in any order - and of random graphs of all library nodes in stacks of wrappers; then with control, parameter and log threads running against an audio thread; non-trivial: something was rendered under the monitors; distinct by history".into();
    r.assumptions = vec![
        "no more changes are under way than the ring buffer holds, and no more per block and node than the precise timing wrapper holds; log channels do overflow".into(),
        "a lock that is free when rendering takes it is not seen; the workloads hold the control side's locks while rendering where that is possible in one thread, and contend for them from other threads".into(),
    ];
    let n = r.n(6000, 200_000);
    r.cases("edits", n, |c| {
        watch(c, |c| match c.rng.below(3) {
            0 => both!(c, raw, false),
            1 => both!(c, raw, true),
            _ => both!(c, closure),
        })
    });
    r.cases("links", n, |c| watch(c, |c| both!(c, links)));
    r.cases("drops", n, |c| {
        watch(c, |c| if c.rng.chance(1, 2) { both!(c, drops) } else { both!(c, drops_tree) })
    });
    let cfgs = [tree::cfg(true, true, true, 0), tree::cfg(true, true, true, 5), tree::cfg(false, true, true, 6)];
    r.cases("trees", n, |c| {
        let cfg = c.rng.pick(&cfgs).clone();
        watch(c, |c| both!(c, trees, &cfg))
    });
    r.cases("large", r.n(150, 5000), |c| watch(c, |c| both!(c, large)));
    r.cases("backlog", r.n(3000, 80_000), |c| watch(c, |c| both!(c, backlog)));
    r.cases("changes", r.n(30_000, 800_000), |c| {
        watch(c, |c| if c.rng.chance(1, 2) { crate::params::ledger(c) } else { crate::params::due(c) })
    });
    r.cases("smoothing", n, |c| watch(c, |c| if c.rng.chance(1, 2) { crate::c11::graph(c) } else { crate::c11::bench(c) }));
    r.cases("logs", n, |c| watch(c, crate::c18::graph));
    r.cases("nodes", r.n(15_000, 400_000), |c| {
        let i = c.index % catalog::COUNT;
        let mut rng = Rng::new(c.rng.next());
        watch(c, |c| match c.rng.below(4) {
            0 => catalog::pick::<f32, _>(i, &mut rng, &mut crate::c15::Bare { c }),
            1 => catalog::pick::<f64, _>(i, &mut rng, &mut crate::c15::Bare { c }),
            2 => catalog::pick::<f32, _>(i, &mut rng, &mut crate::c15::Wrapped { c }),
            _ => catalog::pick::<f64, _>(i, &mut rng, &mut crate::c15::Wrapped { c }),
        })
    });
    r.cases("library", r.n(20_000, 600_000), |c| watch(c, |c| world::alone::<f32>(c, false)));
    r.cases_t("threads", r.n(80, 1500), 2, |c| {
        let t = world::threads::<f32>(c, false, 3000);
        if t.panicked {
            c.count("workloads that panicked", 1);
            return Ok(());
        }
        judge(c, &t.audit)
    });
}
use knaster_core::Float;
fn raw<F: Float>(c: &mut Case, mid: bool) -> Res {
    crate::c02::raw_history::<F>(c, 8, mid)
}
fn closure<F: Float>(c: &mut Case) -> Res {
    crate::c02::closure_history::<F>(c, 8)
}
fn large<F: Float>(c: &mut Case) -> Res {
    let fb = c.rng.chance(1, 2);
    crate::c01::large::<F>(c, fb)
}
fn backlog<F: Float>(c: &mut Case) -> Res {
    crate::c02::backlog::<F>(c)
}
fn links<F: Float>(c: &mut Case) -> Res {
    crate::c10::history::<F>(c, 8)
}
fn drops<F: Float>(c: &mut Case) -> Res {
    crate::c05::history::<F>(c, 8)
}
fn drops_tree<F: Float>(c: &mut Case) -> Res {
    crate::c05::tree::<F>(c)
}
fn trees<F: Float>(c: &mut Case, cfg: &tree::TreeCfg) -> Res {
    tree::history::<F>(c, cfg)
}

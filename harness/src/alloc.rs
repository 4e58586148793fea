//! Counting global allocator: per-thread balance of live bytes, and the number of heap
//! operations performed while the thread is marked as rendering.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
    static OPS: Cell<u64> = const { Cell::new(0) };
    static AUDIO_OPS: Cell<u64> = const { Cell::new(0) };
    static AUDIO: Cell<bool> = const { Cell::new(false) };
    static TRAP: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BAD: Cell<u64> = const { Cell::new(0) };
    static SYS: Cell<u64> = const { Cell::new(0) };
    static FIRST: Cell<(u8, usize)> = const { Cell::new((0, 0)) };
}
pub struct Counting;
#[inline]
fn note(kind: u8, size: usize, net: i64) {
    let _ = NET.try_with(|n| n.set(n.get() + net));
    let _ = OPS.try_with(|n| n.set(n.get() + 1));
    let _ = AUDIO.try_with(|a| {
        if a.get() {
            let _ = AUDIO_OPS.try_with(|n| {
                if n.get() == 0 {
                    let _ = FIRST.try_with(|f| f.set((kind, size)));
                    if TRAP.with(|t| t.get()) {
                        a.set(false);
                        eprintln!("{}", std::backtrace::Backtrace::force_capture());
                        a.set(true);
                    }
                }
                n.set(n.get() + 1)
            });
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(1, l.size(), l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(1, l.size(), l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(2, l.size(), -(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(3, n, n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}
/// live bytes allocated minus freed by this thread
pub fn net() -> i64 {
    NET.with(|n| n.get())
}
pub fn ops() -> u64 {
    OPS.with(|n| n.get())
}
fn trap() -> bool {
    static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::var("KVERIF_TRAP").is_ok())
}
/// Restores the state of the monitor at the end of a scope, also when unwinding.
struct Mark(bool);
impl Mark {
    fn set(on: bool) -> Mark {
        Mark(AUDIO.with(|a| a.replace(on)))
    }
}
impl Drop for Mark {
    fn drop(&mut self) {
        let _ = AUDIO.try_with(|a| a.set(self.0));
    }
}
/// From here to its end the thread is rendering; what happens is added to what `audit` reports.
pub struct Watch(Mark);
#[inline(never)]
pub fn watch() -> Watch {
    TRAP.with(|t| t.set(trap()));
    AUDIO_OPS.with(|n| n.set(0));
    Watch(Mark::set(true))
}
impl Watch {
    /// the number of heap operations performed
    #[inline(never)]
    pub fn end(self) -> u64 {
        drop(self.0);
        let n = AUDIO_OPS.with(|n| n.get());
        CALLS.with(|c| c.set(c.get() + 1));
        BAD.with(|b| b.set(b.get() + n));
        n
    }
}
/// Run f as the rendering thread.
#[inline]
pub fn audio<T>(f: impl FnOnce() -> T) -> T {
    let w = watch();
    let r = f();
    w.end();
    r
}
/// The harness's own bookkeeping in the middle of rendering is not monitored.
pub fn off_duty<T>(f: impl FnOnce() -> T) -> T {
    let _m = Mark::set(false);
    f()
}
pub struct Audit {
    /// calls of `audio`
    pub calls: u64,
    /// heap operations while rendering
    pub heap: u64,
    /// system calls that may block while rendering
    pub sys: u64,
}
/// What happened on this thread since the last audit.
pub fn audit() -> Audit {
    Audit { calls: CALLS.with(|c| c.replace(0)), heap: BAD.with(|c| c.replace(0)), sys: SYS.with(|c| c.replace(0)) }
}
pub fn first_op() -> String {
    let (k, s) = FIRST.with(|f| f.get());
    format!("{} of {s} bytes", ["", "allocation", "deallocation", "reallocation"][k as usize])
}

/// Stand-ins for the calls through which the standard library blocks, prints and sleeps: they
/// count calls made while rendering and pass everything on to the kernel.
#[cfg(all(feature = "syscalls", target_arch = "x86_64", target_os = "linux"))]
mod hooks {
    use super::*;
    unsafe extern "C" {
        fn __errno_location() -> *mut i32;
    }
    fn seen() {
        let _ = AUDIO.try_with(|a| {
            if a.get() {
                let _ = SYS.try_with(|s| s.set(s.get() + 1));
                if trap() {
                    a.set(false);
                    eprintln!("{}", std::backtrace::Backtrace::force_capture());
                    a.set(true);
                }
            }
        });
    }
    unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
        let r: i64;
        unsafe {
            std::arch::asm!(
                "syscall",
                inlateout("rax") n => r,
                in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
                lateout("rcx") _, lateout("r11") _,
            );
            if (-4095..0).contains(&r) {
                *__errno_location() = -r as i32;
                return -1;
            }
        }
        r
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
        seen();
        unsafe { raw(n, [a, b, c, d, e, f]) }
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
        seen();
        unsafe { raw(1, [fd as i64, p as i64, n as i64, 0, 0, 0]) as isize }
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn writev(fd: i32, p: *const u8, n: i32) -> isize {
        seen();
        unsafe { raw(20, [fd as i64, p as i64, n as i64, 0, 0, 0]) as isize }
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn sched_yield() -> i32 {
        seen();
        unsafe { raw(24, [0; 6]) as i32 }
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn nanosleep(a: *const u8, b: *mut u8) -> i32 {
        seen();
        unsafe { raw(35, [a as i64, b as i64, 0, 0, 0, 0]) as i32 }
    }
    /// returns the error instead of setting errno
    #[unsafe(no_mangle)]
    unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, a: *const u8, b: *mut u8) -> i32 {
        seen();
        unsafe {
            let e = *__errno_location();
            let r = raw(230, [c as i64, fl as i64, a as i64, b as i64, 0, 0]);
            let code = if r == -1 { *__errno_location() } else { 0 };
            *__errno_location() = e;
            code
        }
    }
}

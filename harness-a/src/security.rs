//! C06: ArrayBuffer limit. C07: wall-clock guard. C08: CPU guard. C09: heap limit.
use crate::iso;
use openworkers_runtime_v8::security::{
    CpuEnforcer, CpuTimer, CustomAllocator, TimeoutGuard, get_thread_cpu_time, install_heap_limit_callback,
};
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};
use vcommon::proptest::prelude::*;
use vcommon::{Ctx, Res, check, fail};

// ---- C06 --------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum AOp {
    /// A new buffer of so many 1/64 of the limit (plus a few bytes), in a slot (what was there is dropped).
    New { slot: u8, part: u8, plus: u8, view: bool },
    /// A new buffer of exactly what is left of the limit, or so many bytes more.
    Rest { slot: u8, delta: i8, view: bool },
    Slice { from: u8, slot: u8, part: u8 },
    Transfer { from: u8, slot: u8, part: u8 },
    Drop(u8),
    Gc,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct ACase {
    max: u32,
    ops: Vec<AOp>,
}

const SLOTS: usize = 6;

fn acase(max: usize) -> impl Strategy<Value = ACase> {
    let slot = 0u8..SLOTS as u8;
    let op = prop_oneof![
        8 => (slot.clone(), prop_oneof![0u8..40, 60u8..68], any::<u8>(), any::<bool>()).prop_map(|(slot, part, plus, view)| AOp::New { slot, part, plus, view }),
        2 => (slot.clone(), prop_oneof![3 => Just(0i8), 1 => -2i8..3], any::<bool>()).prop_map(|(slot, delta, view)| AOp::Rest { slot, delta, view }),
        2 => (slot.clone(), slot.clone(), 0u8..40).prop_map(|(from, slot, part)| AOp::Slice { from, slot, part }),
        2 => (slot.clone(), slot.clone(), 0u8..70).prop_map(|(from, slot, part)| AOp::Transfer { from, slot, part }),
        3 => slot.prop_map(AOp::Drop),
        1 => Just(AOp::Gc),
    ];
    (prop_oneof![4 => 1024u32..60_000, 1 => 60_000u32..300_000], prop::collection::vec(op, 1..max)).prop_map(|(max, ops)| ACase { max, ops })
}

struct Buffers {
    iso: v8::OwnedIsolate,
    ctx: v8::Global<v8::Context>,
    alloc: Arc<CustomAllocator>,
    hit: Arc<AtomicBool>,
}
impl Buffers {
    fn new(max: usize) -> Self {
        iso::init();
        let hit = Arc::new(AtomicBool::new(false));
        let alloc = CustomAllocator::new(max, hit.clone());
        let params = v8::CreateParams::default().array_buffer_allocator(alloc.clone().into_v8_allocator());
        let mut iso = v8::Isolate::new(params);
        let ctx = iso::global_context(&mut iso, false);
        iso::eval(&mut iso, &ctx, "globalThis.s = []; function put(i, b) { s[i] = b; return b.byteLength }").unwrap();
        Buffers { iso, ctx, alloc, hit }
    }
    fn js(&mut self, src: &str) -> Result<String, String> {
        iso::eval(&mut self.iso, &self.ctx, src)
    }
    /// Collects garbage until the allocator counts `want` bytes, or gives up.
    fn settle(&mut self, want: usize) -> usize {
        for k in 0..200 {
            self.iso.low_memory_notification();
            if self.alloc.current_usage() == want {
                break;
            }
            std::thread::sleep(Duration::from_micros(50 * k));
        }
        self.alloc.current_usage()
    }
}

fn run_alloc(c: &ACase) -> Res {
    let max = c.max as usize;
    let mut b = Buffers::new(max);
    let mut live = [0usize; SLOTS];
    let mut asked = 0usize; // all that was ever asked for
    let mut refused = false;
    let size = |part: u8, plus: u8| max * part as usize / 64 + plus as usize;
    for op in &c.ops {
        let (slot, src, want, fits) = match op {
            AOp::New { slot, view, .. } | AOp::Rest { slot, view, .. } => {
                let n = match op {
                    AOp::New { part, plus, .. } => size(*part, *plus),
                    AOp::Rest { delta, .. } => (max - live.iter().sum::<usize>()).saturating_add_signed(*delta as isize),
                    _ => unreachable!(),
                };
                // A small view has no buffer of its own until it is asked for: see the part small-views.
                let made = if *view && (n > 64 || b.alloc.current_usage() + n <= max) { format!("new Uint8Array({n}).buffer") } else { format!("new ArrayBuffer({n})") };
                // What the slot held stays alive until the new buffer is there.
                let fits = live.iter().sum::<usize>() + n <= max;
                (*slot as usize, format!("{{ const b = {made}; const u = new Uint8Array(b); if (!u.every(x => x === 0)) throw new Error('dirty'); u.fill({}); put({slot}, b) }}", slot + 1), n, fits)
            }
            AOp::Slice { from, slot, part } => {
                let n = size(*part, 0).min(live[*from as usize]);
                let fits = live.iter().sum::<usize>() + n <= max;
                (*slot as usize, format!("{{ const a = s[{from}] || new ArrayBuffer(0); const b = a.slice(0, {n}); new Uint8Array(b).fill({}); put({slot}, b) }}", slot + 1), n, fits)
            }
            AOp::Transfer { from, slot, part } => {
                let n = size(*part, 0);
                if from == slot || live[*from as usize] == 0 {
                    continue;
                }
                let others = live.iter().sum::<usize>() - live[*from as usize];
                // Moving in place or copying first are both fine.
                if others + n <= max && others + live[*from as usize] + n > max {
                    continue;
                }
                let fits = others + n <= max;
                (*slot as usize, format!("{{ const b = s[{from}].transfer({n}); s[{from}] = null; new Uint8Array(b).fill({}); put({slot}, b) }}", slot + 1), n, fits)
            }
            AOp::Drop(slot) => {
                b.js(&format!("s[{slot}] = null")).unwrap();
                live[*slot as usize] = 0;
                continue;
            }
            AOp::Gc => {
                let want = live.iter().sum::<usize>();
                let got = b.settle(want);
                check!(got == want, "usage", "{got} bytes are counted; the buffers alive have {want}");
                continue;
            }
        };
        let mut r = b.js(&src);
        asked += want;
        if r.is_err() && fits {
            // Garbage may not have been swept yet.
            let sum = live.iter().sum();
            b.settle(sum);
            asked += max; // a refusal may have been flagged
            r = b.js(&src);
        }
        match r {
            Ok(n) => {
                check!(n == want.to_string(), "length", "a buffer of {want} bytes has {n}");
                check!(fits, "over-limit", "a buffer of {want} bytes was given out with {} in use and a limit of {max}", live.iter().sum::<usize>());
                if let AOp::Transfer { from, .. } = op {
                    live[*from as usize] = 0;
                }
                live[slot] = want;
            }
            Err(e) => {
                check!(!e.contains("dirty"), "not-zeroed", "a new buffer of {want} bytes is not zero");
                check!(e.contains("RangeError"), "error", "{e}");
                check!(!fits, "refused", "a buffer of {want} bytes was refused with {} in use and a limit of {max}: {e}", live.iter().sum::<usize>());
                refused = true;
                check!(b.hit.load(Ordering::SeqCst), "flag-missing", "an allocation was refused and the limit flag is not set");
            }
        }
        let used = b.alloc.current_usage();
        check!(used <= max, "over-limit", "{used} bytes are counted with a limit of {max}");
        let sum: usize = live.iter().sum();
        check!(used >= sum, "under-counted", "{used} bytes are counted and the buffers alive have {sum}");
        let bad = b.js("s.findIndex((b, i) => b && new Uint8Array(b).some(x => x !== i + 1))").unwrap();
        check!(bad == "-1", "corrupt", "the buffer in slot {bad} has lost its content");
    }
    if !refused && asked <= max {
        check!(!b.hit.load(Ordering::SeqCst), "flag", "{asked} bytes were asked for with a limit of {max}, and the limit flag is set");
    }
    let want = live.iter().sum::<usize>();
    let got = b.settle(want);
    check!(got == want, "usage", "{got} bytes are counted; the buffers alive have {want}");
    b.js("s = []").unwrap();
    let got = b.settle(0);
    check!(got == 0, "usage", "{got} bytes are counted and no buffer is alive");
    let alloc = b.alloc.clone();
    let weak = Arc::downgrade(&alloc);
    drop(alloc);
    drop(b);
    check!(weak.upgrade().is_none(), "allocator-leak", "the allocator outlives its isolate");
    Ok(())
}

pub fn allocator(ctx: &Ctx) {
    let nontrivial = |c: &ACase| c.ops.iter().filter(|o| matches!(o, AOp::New { .. })).count() >= 3;
    ctx.part("buffers", 120, prop::collection::vec(acase(30), 1..9), move |c: &Vec<ACase>| c.iter().any(nontrivial), |cases| {
        iso::init();
        parallel(cases, run_alloc)
    });
    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct G {
        max: u32,
        part: u8,
        times: u16,
    }
    let s = (100_000u32..3_000_000, 1u8..30, 100u16..600).prop_map(|(max, part, times)| G { max, part, times });
    ctx.part("garbage", 30, s, |c| c.part as usize * c.times as usize > 64, |c| {
        let mut b = Buffers::new(c.max as usize);
        let n = c.max as usize / 64 * c.part as usize;
        let r = b.js(&format!("{{ let b; for (let i = 0; i < {}; i++) b = new ArrayBuffer({n}); b.byteLength }}", c.times));
        check!(r == Ok(n.to_string()), "refused", "{} buffers of {n} bytes one after the other, with a limit of {}: {r:?}", c.times, c.max);
        check!(!b.hit.load(Ordering::SeqCst), "flag-after-gc", "{} buffers of {n} bytes one after the other, each dropped before the next, are all given out, and the limit flag ({} bytes) is set", c.times, c.max);
        Ok(())
    });
    let s = (1024u32..60_000, 1u8..65).prop_map(|(max, n)| (max, n));
    ctx.part_in_child("small-views", 6, s, |_| true, "small-view-crash", |(max, n)| {
        let mut b = Buffers::new(*max as usize);
        let r = b.js(&format!("globalThis.a = new ArrayBuffer({}); const u = new Uint8Array({n}); let got; try {{ got = u.buffer.byteLength }} catch (e) {{ got = e.name }} got", max));
        check!(r == Ok("RangeError".into()), "error", "the buffer of a view of {n} bytes with all {max} bytes of the limit in use: {r:?}");
        Ok(())
    });
    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct R {
        max: u32,
        times: u8,
    }
    let s = (10_000u32..1_000_000, 2u8..20).prop_map(|(max, times)| R { max, times });
    ctx.part("resizable", 10, s, |_| true, |c| {
        let mut b = Buffers::new(c.max as usize);
        let r = b.js(&format!("const b = new ArrayBuffer({}, {{maxByteLength: {}}}); b.resize({0}); b.byteLength", c.max as u64 * c.times as u64, c.max as u64 * c.times as u64));
        check!(r.is_err(), "resizable-uncounted", "a resizable ArrayBuffer of {r:?} bytes was given out with a limit of {}", c.max);
        Ok(())
    });
}

// ---- C07 --------------------------------------------------------------------------------------

/// Work on an isolate that would go on for 30 s by itself.
const SPIN: &[&str] = &[
    "{ const end = Date.now() + 30000; while (Date.now() < end) {} 'over' }",
    "{ const end = Date.now() + 30000; const f = n => n < 2 ? n : f(n - 1) + f(n - 2); while (Date.now() < end) f(12); 'over' }",
    "{ const end = Date.now() + 30000; let a = []; while (Date.now() < end) { a.push({}); if (a.length > 1e4) a = [] } 'over' }",
    "{ const end = Date.now() + 30000; for (;;) { try { while (Date.now() < end) {} break } catch (e) {} finally {} } 'over' }",
    "{ const end = Date.now() + 30000; while (Date.now() < end) { try { null.x } catch {} } 'over' }",
    "{ const end = Date.now() + 30000; while (Date.now() < end) [3,1,2].sort((a, b) => a - b).map(x => x + 1); 'over' }",
    "{ const end = Date.now() + 30000; while (Date.now() < end) JSON.parse(JSON.stringify({a: [1,2,3]})); 'over' }",
];

#[derive(Debug, Clone, Serialize, Deserialize)]
enum TOp {
    /// A guard of so many ms around work that never ends by itself.
    Spin { ms: u8, work: u8 },
    /// A guard that is far away, around quick work.
    Quick { ms: u32 },
    /// A guard that is very far away, around work of some time.
    Far { ms: u64 },
    /// A short guard, dropped at once; the isolate then works for longer than the guard's time.
    DropThenWork { ms: u8 },
    /// No limit.
    Zero { work_ms: u8 },
    /// Two guards at once: the shorter one ends the work.
    Nested { short: u8, long: u16, work: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct TCase {
    ops: Vec<TOp>,
}

/// Limits that practically never are reached, around the widths of integers.
fn far() -> impl Strategy<Value = u64> {
    (prop_oneof![Just(0u64), Just(1u64)], 15u32..64, 0u64..40).prop_map(|(one, bit, low)| {
        let top = 1u64 << bit;
        (top + low - one * (low + 1)).max(20_000)
    })
}

fn spin_for(ms: u64) -> String {
    format!("{{ const end = Date.now() + {ms}; while (Date.now() < end) {{}} 'done' }}")
}

fn run_timeout(c: &TCase) -> Res {
    let mut isolate = iso::isolate();
    let ctx = iso::global_context(&mut isolate, false);
    let h = isolate.thread_safe_handle();
    for op in &c.ops {
        match op {
            TOp::Spin { ms, work } => {
                let ms = *ms as u64 + 1;
                let t = Instant::now();
                let g = TimeoutGuard::new(h.clone(), ms);
                let r = iso::eval(&mut isolate, &ctx, SPIN[*work as usize % SPIN.len()]);
                let el = t.elapsed();
                check!(r == Err("TERMINATED".into()), "not-terminated", "endless work under a limit of {ms} ms gave {r:?} after {el:?}");
                check!(el >= Duration::from_millis(ms), "early", "work was terminated after {el:?} with a limit of {ms} ms");
                check!(g.was_triggered(), "flag-missing", "work was terminated and was_triggered() is false");
                drop(g);
                isolate.cancel_terminate_execution();
            }
            TOp::Quick { ms } => {
                let t = Instant::now();
                let g = TimeoutGuard::new(h.clone(), 60_000 + *ms as u64);
                let r = iso::eval(&mut isolate, &ctx, "{ let z = 0; for (let i = 0; i < 1000; i++) z += i; z }");
                let flag = g.was_triggered();
                drop(g);
                check!(r == Ok("499500".into()) && !flag, "quick", "quick work under a limit of a minute gave {r:?}, was_triggered() {flag}");
                check!(t.elapsed() < Duration::from_secs(30), "drop-waits", "dropping the guard took {:?}", t.elapsed());
            }
            TOp::Far { ms } => {
                let g = TimeoutGuard::new(h.clone(), *ms);
                let r = iso::eval(&mut isolate, &ctx, &spin_for(60));
                check!(r == Ok("done".into()) && !g.was_triggered(), "early", "60 ms of work under a limit of {ms} ms gave {r:?}, was_triggered() {}", g.was_triggered());
            }
            TOp::DropThenWork { ms } => {
                let t = Instant::now();
                let g = TimeoutGuard::new(h.clone(), *ms as u64 + 20);
                let early = g.was_triggered();
                drop(g);
                if t.elapsed() < Duration::from_millis(15) {
                    check!(!early, "early", "was_triggered() within 15 ms of a limit of {} ms", ms + 20);
                    let r = iso::eval(&mut isolate, &ctx, &spin_for(*ms as u64 + 40));
                    check!(r == Ok("done".into()), "late", "work after the guard was dropped gave {r:?}");
                } else {
                    isolate.cancel_terminate_execution();
                }
            }
            TOp::Zero { work_ms } => {
                let g = TimeoutGuard::new(h.clone(), 0);
                let r = iso::eval(&mut isolate, &ctx, &spin_for(*work_ms as u64 / 4));
                check!(r == Ok("done".into()) && !g.was_triggered(), "zero", "work without a limit gave {r:?}");
            }
            TOp::Nested { short, long, work } => {
                let short = *short as u64 + 1;
                let g1 = TimeoutGuard::new(h.clone(), 20_000 + *long as u64);
                let g2 = TimeoutGuard::new(h.clone(), short);
                let r = iso::eval(&mut isolate, &ctx, SPIN[*work as usize % SPIN.len()]);
                check!(r == Err("TERMINATED".into()), "not-terminated", "endless work under a limit of {short} ms gave {r:?}");
                check!(g2.was_triggered() && !g1.was_triggered(), "wrong-guard", "the guard of {short} ms says {}, the one of 20 s says {}", g2.was_triggered(), g1.was_triggered());
                drop(g1);
                drop(g2);
                isolate.cancel_terminate_execution();
            }
        }
        let r = iso::eval(&mut isolate, &ctx, "1 + 1");
        check!(r == Ok("2".into()), "unusable", "after {op:?}, 1 + 1 gave {r:?}");
    }
    Ok(())
}

/// Runs many slow cases on threads of their own, a few at a time; the cases are independent.
pub fn timeout_guard(ctx: &Ctx) {
    let op = prop_oneof![
        3 => (0u8..60, any::<u8>()).prop_map(|(ms, work)| TOp::Spin { ms, work }),
        3 => (0u32..100_000).prop_map(|ms| TOp::Quick { ms }),
        1 => far().prop_map(|ms| TOp::Far { ms }),
        2 => (0u8..30).prop_map(|ms| TOp::DropThenWork { ms }),
        1 => any::<u8>().prop_map(|work_ms| TOp::Zero { work_ms }),
        1 => (0u8..60, any::<u16>(), any::<u8>()).prop_map(|(short, long, work)| TOp::Nested { short, long, work }),
    ];
    let one = prop::collection::vec(op, 1..6).prop_map(|ops| TCase { ops });
    let s = prop::collection::vec(one, 1..7);
    ctx.part("guards", 40, s, |c| c.iter().any(|c| c.ops.iter().any(|o| matches!(o, TOp::Spin { .. } | TOp::Nested { .. }))), |cases| {
        iso::init();
        parallel(cases, run_timeout)
    });
    ctx.part("seconds", 2, seconds(), |_| true, |cases| {
        iso::init();
        parallel(cases, |(ms, _, work)| {
            let mut isolate = iso::isolate();
            let ctx = iso::global_context(&mut isolate, false);
            let t = Instant::now();
            let g = TimeoutGuard::new(isolate.thread_safe_handle(), *ms);
            let r = iso::eval(&mut isolate, &ctx, SPIN[*work as usize % SPIN.len()]);
            let el = t.elapsed();
            check!(r == Err("TERMINATED".into()) && g.was_triggered(), "not-terminated", "endless work under a limit of {ms} ms gave {r:?} after {el:?}");
            check!(el >= Duration::from_millis(*ms), "early", "work was terminated after {el:?} with a limit of {ms} ms");
            Ok(())
        })
    });
}

/// Limits about whole seconds.
fn seconds() -> impl Strategy<Value = Vec<(u64, bool, u8)>> {
    let ms = prop_oneof![Just(999u64), Just(1000), Just(1001), Just(1999), Just(2000), Just(2001), 1000u64..2500];
    prop::collection::vec((ms, any::<bool>(), any::<u8>()), 4..8)
}

fn parallel<C: Sync>(cases: &[C], f: impl Fn(&C) -> Res + Sync) -> Res {
    std::thread::scope(|s| {
        let hs: Vec<_> = cases.iter().map(|c| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || f(c)).unwrap()).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect::<Result<Vec<()>, _>>().map(|_| ())
    })
}

// ---- C08 --------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum COp {
    Spin { ms: u8, work: u8 },
    /// Waits (uses no CPU) for longer than the limit, then does quick work.
    Sleep { ms: u8, extra: u8 },
    Quick { ms: u32 },
    /// A limit that is very far away, set at once or by a reset, around work of some time.
    Far { ms: u64, reset: bool },
    /// Dropped, then busy for longer than its limit.
    DropThenWork { ms: u8 },
    Zero { work_ms: u8 },
    /// One guard for several requests: spent (or not) and reset.
    Reset { first: u8, spend: bool, second: u8, work: u8 },
    /// Reset to no limit for a request.
    ResetZero { first: u8, work_ms: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct CCase {
    ops: Vec<COp>,
}

fn cpu() -> Duration {
    get_thread_cpu_time().unwrap_or_default()
}

/// CPU time of this thread by the system call itself.
fn cpu_now() -> Duration {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

fn flag_soon(e: &CpuEnforcer) -> bool {
    e.was_terminated()
}

fn run_cpu(c: &CCase) -> Res {
    let mut isolate = iso::isolate();
    let ctx = iso::global_context(&mut isolate, false);
    let h = isolate.thread_safe_handle();
    let slack = Duration::from_millis(5); // timers of CPU time run by the scheduler's tick
    for op in &c.ops {
        match op {
            COp::Spin { ms, work } => {
                let ms = *ms as u64 + 1;
                let t = cpu_now();
                let Some(e) = CpuEnforcer::new(h.clone(), ms) else { fail!("none", "no guard for a limit of {ms} ms") };
                let r = iso::eval(&mut isolate, &ctx, SPIN[*work as usize % SPIN.len()]);
                let el = cpu_now() - t;
                check!(r == Err("TERMINATED".into()), "not-terminated", "endless work under a CPU limit of {ms} ms gave {r:?} after {el:?} of CPU");
                check!(el + slack >= Duration::from_millis(ms), "early", "work was terminated after {el:?} of CPU with a limit of {ms} ms");
                check!(flag_soon(&e), "flag-missing", "work was terminated and was_terminated() is false");
                drop(e);
                isolate.cancel_terminate_execution();
            }
            COp::Sleep { ms, extra } => {
                let ms = *ms as u64 + 25;
                let Some(e) = CpuEnforcer::new(h.clone(), ms) else { fail!("none", "no guard for a limit of {ms} ms") };
                let t = cpu_now();
                std::thread::sleep(Duration::from_millis(ms + *extra as u64 / 4 + 5));
                let r = iso::eval(&mut isolate, &ctx, "1 + 1");
                let spent = cpu_now() - t;
                let f = e.was_terminated();
                drop(e);
                if spent < Duration::from_millis(ms - 15) {
                    check!(r == Ok("2".into()) && !f, "sleep-counted", "a limit of {ms} ms of CPU, {spent:?} spent: {r:?}, was_terminated() {f}");
                }
                isolate.cancel_terminate_execution();
            }
            COp::Quick { ms } => {
                let e = CpuEnforcer::new(h.clone(), 60_000 + *ms as u64);
                let r = iso::eval(&mut isolate, &ctx, "{ let z = 0; for (let i = 0; i < 1000; i++) z += i; z }");
                let f = e.as_ref().map(|e| e.was_terminated());
                check!(r == Ok("499500".into()) && f == Some(false), "quick", "quick work under a limit of a minute gave {r:?}, was_terminated() {f:?}");
            }
            COp::Far { ms, reset } => {
                let Some(e) = CpuEnforcer::new(h.clone(), if *reset { 50 } else { *ms }) else { fail!("none", "no guard for a limit of {ms} ms") };
                if *reset {
                    check!(e.reset(*ms).is_ok(), "reset", "reset({ms}) failed");
                }
                let r = iso::eval(&mut isolate, &ctx, &spin_for(80));
                check!(r == Ok("done".into()) && !e.was_terminated(), "early", "80 ms of work under a CPU limit of {ms} ms (reset: {reset}) gave {r:?}, was_terminated() {}", e.was_terminated());
            }
            COp::DropThenWork { ms } => {
                let ms = *ms as u64 + 20;
                let t = cpu_now();
                let e = CpuEnforcer::new(h.clone(), ms);
                let f = e.as_ref().map(|e| e.was_terminated());
                drop(e);
                if cpu_now() - t < Duration::from_millis(10) {
                    let r = iso::eval(&mut isolate, &ctx, &spin_for(ms + 30));
                    check!(r == Ok("done".into()) && f == Some(false), "late", "work after the guard was dropped gave {r:?} ({f:?})");
                } else {
                    isolate.cancel_terminate_execution();
                }
            }
            COp::Zero { work_ms } => {
                let e = CpuEnforcer::new(h.clone(), 0);
                check!(e.is_none(), "zero", "a guard was made for a limit of 0");
                let r = iso::eval(&mut isolate, &ctx, &spin_for(*work_ms as u64 / 4));
                check!(r == Ok("done".into()), "zero", "work without a limit gave {r:?}");
            }
            COp::Reset { first, spend, second, work } => {
                let (a, b) = (*first as u64 + 30, *second as u64 + 1);
                let Some(e) = CpuEnforcer::new(h.clone(), a) else { fail!("none", "no guard for a limit of {a} ms") };
                if *spend {
                    let r = iso::eval(&mut isolate, &ctx, SPIN[*work as usize % SPIN.len()]);
                    check!(r == Err("TERMINATED".into()) && e.was_terminated(), "not-terminated", "endless work under a CPU limit of {a} ms gave {r:?}");
                    isolate.cancel_terminate_execution();
                }
                let t = cpu_now();
                check!(e.reset(b).is_ok(), "reset", "reset({b}) failed");
                check!(*spend || !e.was_terminated() || cpu_now() - t > Duration::from_millis(b), "reset", "was_terminated() right after reset");
                let r = iso::eval(&mut isolate, &ctx, SPIN[*work as usize % SPIN.len()]);
                let el = cpu_now() - t;
                check!(r == Err("TERMINATED".into()) && e.was_terminated(), "reset-not-terminated",
                    "endless work under a CPU limit reset to {b} ms gave {r:?} after {el:?} of CPU, was_terminated() {}", e.was_terminated());
                check!(el + slack >= Duration::from_millis(b), "early", "work was terminated after {el:?} of CPU with a limit reset to {b} ms");
                drop(e);
                isolate.cancel_terminate_execution();
            }
            COp::ResetZero { first, work_ms } => {
                let a = *first as u64 + 30;
                let Some(e) = CpuEnforcer::new(h.clone(), a) else { fail!("none", "no guard for a limit of {a} ms") };
                let _ = e.reset(0);
                if !e.was_terminated() {
                    let r = iso::eval(&mut isolate, &ctx, &spin_for(a + *work_ms as u64 / 8 + 5));
                    check!(r == Ok("done".into()) && !e.was_terminated(), "reset-zero", "work with the limit reset to none gave {r:?}");
                }
            }
        }
        let r = iso::eval(&mut isolate, &ctx, "1 + 1");
        check!(r == Ok("2".into()), "unusable", "after {op:?}, 1 + 1 gave {r:?}");
    }
    Ok(())
}

pub fn cpu_enforcer(ctx: &Ctx) {
    let op = prop_oneof![
        3 => (0u8..50, any::<u8>()).prop_map(|(ms, work)| COp::Spin { ms, work }),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(ms, extra)| COp::Sleep { ms: ms / 4, extra }),
        2 => (0u32..100_000).prop_map(|ms| COp::Quick { ms }),
        1 => (far(), any::<bool>()).prop_map(|(ms, reset)| COp::Far { ms, reset }),
        2 => (0u8..30).prop_map(|ms| COp::DropThenWork { ms }),
        1 => any::<u8>().prop_map(|work_ms| COp::Zero { work_ms }),
        3 => (0u8..30, any::<bool>(), 0u8..60, any::<u8>()).prop_map(|(first, spend, second, work)| COp::Reset { first, spend, second, work }),
        1 => (0u8..30, any::<u8>()).prop_map(|(first, work_ms)| COp::ResetZero { first, work_ms }),
    ];
    let one = prop::collection::vec(op, 1..6).prop_map(|ops| CCase { ops });
    let s = prop::collection::vec(one, 1..7);
    ctx.part("guards", 40, s, |c| c.iter().any(|c| c.ops.iter().any(|o| matches!(o, COp::Spin { .. } | COp::Reset { .. }))), |cases| {
        iso::init();
        parallel(cases, run_cpu)
    });

    ctx.part("seconds", 2, seconds(), |_| true, |cases| {
        iso::init();
        parallel(cases, |(ms, reset, work)| {
            let mut isolate = iso::isolate();
            let ctx = iso::global_context(&mut isolate, false);
            let t = cpu_now();
            let Some(e) = CpuEnforcer::new(isolate.thread_safe_handle(), if *reset { 50_000 } else { *ms }) else {
                fail!("none", "no guard for a limit of {ms} ms (reset: {reset})")
            };
            if *reset {
                check!(e.reset(*ms).is_ok(), "reset", "reset({ms}) failed");
            }
            let r = iso::eval(&mut isolate, &ctx, SPIN[*work as usize % SPIN.len()]);
            let el = cpu_now() - t;
            check!(r == Err("TERMINATED".into()) && e.was_terminated(), "not-terminated", "endless work under a CPU limit of {ms} ms (reset: {reset}) gave {r:?} after {el:?} of CPU");
            check!(el + Duration::from_millis(5) >= Duration::from_millis(*ms), "early", "work was terminated after {el:?} of CPU with a limit of {ms} ms (reset: {reset})");
            Ok(())
        })
    });

    // Many workers that reach their limits together.
    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct Many {
        limits: Vec<u8>,
    }
    let s = (prop::collection::vec(1u8..40, 8..48), any::<bool>(), 1u8..40)
        .prop_map(|(limits, same, ms)| Many { limits: if same { vec![ms; limits.len()] } else { limits } });
    ctx.part_in_child("many", 8, s, |_| true, "many-kills", |c| {
        iso::init();
        parallel(&c.limits, |ms| {
            let mut isolate = iso::isolate();
            let ctx = iso::global_context(&mut isolate, false);
            let h = isolate.thread_safe_handle();
            let Some(e) = CpuEnforcer::new(h.clone(), *ms as u64) else { fail!("none", "no guard") };
            let t = cpu_now();
            let r = iso::eval(&mut isolate, &ctx, "{ const end = Date.now() + 20000; while (Date.now() < end) {} 'over' }");
            let el = cpu_now() - t;
            check!(r == Err("TERMINATED".into()) && e.was_terminated(), "many-lost", "{} workers under CPU limits of {:?} ms; one of {ms} ms gave {r:?} after {el:?} of CPU", c.limits.len(), c.limits);
            Ok(())
        })
    });
    // The first limit of a process is a short one.
    ctx.part_in_child("first", 12, 1u8..3, |_| true, "first-kills", |ms| {
        iso::init();
        let mut isolate = iso::isolate();
        let ctx = iso::global_context(&mut isolate, false);
        let h = isolate.thread_safe_handle();
        let Some(e) = CpuEnforcer::new(h.clone(), *ms as u64) else { fail!("none", "no guard") };
        let r = iso::eval(&mut isolate, &ctx, SPIN[0]);
        check!(r == Err("TERMINATED".into()) && e.was_terminated(), "not-terminated", "the first CPU limit of a process, {ms} ms, gave {r:?}");
        Ok(())
    });

    // A limit that is reached (or nearly so) just when the request ends.
    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct Edge {
        ms: u8,
        us: u16,
        reset: bool,
    }
    let s = prop::collection::vec((1u8..4, 0u16..2500, any::<bool>()).prop_map(|(ms, us, reset)| Edge { ms, us, reset }), 8..40);
    ctx.part("edge", 12, prop::collection::vec(s, 1..7), |_| true, |cases| {
        iso::init();
        parallel(cases, |edges| {
            let mut isolate = iso::isolate();
            let ctx = iso::global_context(&mut isolate, false);
            let h = isolate.thread_safe_handle();
            for e in edges {
                let t = cpu_now();
                let Some(g) = CpuEnforcer::new(h.clone(), e.ms as u64) else { fail!("none", "no guard") };
                let until = Duration::from_millis(e.ms as u64).saturating_sub(Duration::from_micros(1000)) + Duration::from_micros(e.us as u64);
                while cpu_now() - t < until {
                    std::hint::spin_loop();
                }
                let g = if e.reset {
                    check!(g.reset(60_000).is_ok(), "reset", "reset failed");
                    Some(g)
                } else {
                    drop(g);
                    None
                };
                // Whatever the first limit did belongs to the first request.
                isolate.cancel_terminate_execution();
                let r = iso::eval(&mut isolate, &ctx, &spin_for(3));
                check!(r == Ok("done".into()), if e.reset { "stale-reset" } else { "stale-drop" }, "a limit of {} ms, {until:?} of CPU spent, then {}: the next work gave {r:?}", e.ms, if e.reset { "reset to a minute" } else { "dropped" });
                check!(!g.is_some_and(|g| g.was_terminated()), "stale-reset", "a limit of {} ms, {until:?} of CPU spent, then reset to a minute: was_terminated() is true", e.ms);
            }
            Ok(())
        })
    });

    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct M {
        steps: Vec<(bool, u16)>,
    }
    let s = prop::collection::vec((any::<bool>(), 0u16..3000), 1..8).prop_map(|steps| M { steps });
    ctx.part("clock", 60, s, |m| m.steps.len() > 1, |m| {
        let (a0, t0) = (cpu_now(), CpuTimer::start());
        let b0 = cpu_now();
        let mut last = cpu();
        for (busy, us) in &m.steps {
            let d = Duration::from_micros(*us as u64);
            if *busy {
                let t = Instant::now();
                while t.elapsed() < d {
                    std::hint::spin_loop();
                }
            } else {
                std::thread::sleep(d);
            }
            let lo = cpu_now();
            let c = cpu();
            let hi = cpu_now();
            check!(c >= lo && c <= hi && c >= last, "clock", "CPU time {c:?} is outside {lo:?}..{hi:?} or before {last:?}");
            last = c;
            let lo = cpu_now() - b0;
            let e = t0.elapsed();
            let hi = cpu_now() - a0;
            check!(e >= lo && e <= hi, "timer", "elapsed CPU time {e:?} is outside {lo:?}..{hi:?}");
        }
        Ok(())
    });
}

// ---- C09 --------------------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum HOp {
    /// Keeps on allocating until it is stopped.
    Bomb { shape: u8, chunk: u16 },
    /// Stays far below the limit.
    Small { shape: u8, count: u16 },
    /// Allocates much in all, keeping little.
    Churn { mb: u8 },
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct HCase {
    limit_mb: u8,
    ops: Vec<HOp>,
}

/// `k`: a unit of growth; `keep(x)` keeps what it makes.
const SHAPES: &[&str] = &[
    "keep(new Array(k + 1).fill(1.5 + i))",
    "keep({a: i, b: 'x' + i, c: {d: [i]}})",
    "keep('s'.repeat(k + 1) + i)",
    "m.set('key' + i, {v: i})",
    "keep(() => i + k)",
    "keep([...Array(k % 50).keys()])",
    "keep(new Map([[i, k]]))",
    "keep(BigInt(i) ** 20n)",
    "o['p' + i] = {i}",
    "keep(Symbol('y' + i))",
];

fn run_heap(c: &HCase) -> Res {
    iso::init();
    let max = c.limit_mb as usize * 1024 * 1024;
    for op in &c.ops {
        let hit = Arc::new(AtomicBool::new(false));
        let mut isolate = v8::Isolate::new(v8::CreateParams::default().heap_limits(2 << 20, max));
        let state = install_heap_limit_callback(&mut isolate, hit.clone(), max);
        let ctx = iso::global_context(&mut isolate, false);
        iso::eval(&mut isolate, &ctx, "globalThis.a = []; globalThis.m = new Map(); globalThis.o = {}; function keep(x) { a.push(x) }").unwrap();
        match op {
            HOp::Bomb { shape, chunk } => {
                let s = SHAPES[*shape as usize % SHAPES.len()];
                let r = iso::eval(&mut isolate, &ctx, &format!("{{ const k = {}; for (let i = 0; i < 1e9; i++) {{ {s} }} 'over' }}", chunk % 2000));
                check!(r == Err("TERMINATED".into()), "not-terminated", "{s} for ever under a limit of {} MB gave {r:?}", c.limit_mb);
                check!(hit.load(Ordering::SeqCst), "flag-missing", "{s} was ended and the limit flag is not set");
            }
            HOp::Small { shape, count } => {
                let s = SHAPES[*shape as usize % SHAPES.len()];
                let n = count % 200;
                let r = iso::eval(&mut isolate, &ctx, &format!("{{ const k = 10; for (let i = 0; i < {n}; i++) {{ {s} }} 'over' }}"));
                check!(r == Ok("over".into()), "terminated", "{n} times {s} under a limit of {} MB gave {r:?}", c.limit_mb);
                check!(!hit.load(Ordering::SeqCst), "flag", "{n} times {s} under a limit of {} MB set the limit flag", c.limit_mb);
            }
            HOp::Churn { mb } => {
                let r = iso::eval(&mut isolate, &ctx, &format!("{{ let x; for (let i = 0; i < {}; i++) {{ x = new Array(1280).fill(i + .5) }} 'over' }}", *mb as usize * 100));
                check!(r == Ok("over".into()), "terminated", "{mb} MB of garbage under a limit of {} MB gave {r:?}", c.limit_mb);
                check!(!hit.load(Ordering::SeqCst), "flag", "{mb} MB of garbage under a limit of {} MB set the limit flag", c.limit_mb);
            }
        }
        drop(ctx);
        drop(isolate);
        drop(state);
    }
    Ok(())
}

pub fn heap_limit(ctx: &Ctx) {
    let op = prop_oneof![
        4 => (any::<u8>(), any::<u16>()).prop_map(|(shape, chunk)| HOp::Bomb { shape, chunk }),
        3 => (any::<u8>(), any::<u16>()).prop_map(|(shape, count)| HOp::Small { shape, count }),
        2 => any::<u8>().prop_map(|mb| HOp::Churn { mb }),
    ];
    let s = (20u8..48, prop::collection::vec(op, 1..3)).prop_map(|(limit_mb, ops)| HCase { limit_mb, ops });
    ctx.part_in_child("heap", 40, s, |c| c.ops.iter().any(|o| matches!(o, HOp::Bomb { .. })), "crash", run_heap);
    // A single allocation that is bigger than the limit.
    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct Huge {
        limit_mb: u8,
        times: u8,
        shape: u8,
    }
    let s = (20u8..32, 3u8..8, 0u8..4).prop_map(|(limit_mb, times, shape)| Huge { limit_mb, times, shape });
    ctx.part_in_child("huge", 8, s, |_| true, "huge-crash", |c| {
        iso::init();
        let max = c.limit_mb as usize * 1024 * 1024;
        let hit = Arc::new(AtomicBool::new(false));
        let mut isolate = v8::Isolate::new(v8::CreateParams::default().heap_limits(2 << 20, max));
        let state = install_heap_limit_callback(&mut isolate, hit.clone(), max);
        let ctx = iso::global_context(&mut isolate, false);
        let n = max * c.times as usize / 8;
        let src = match c.shape {
            0 => format!("new Array({n}).fill(1.5).length"),
            1 => format!("[...'x'.repeat({n})].length"),
            2 => format!("new Array({n}).fill({{}}).length"),
            _ => format!("Array.from({{length: {n}}}, (_, i) => i + .5).length"),
        };
        let r = iso::eval(&mut isolate, &ctx, &src);
        match &r {
            Err(e) if e == "TERMINATED" => check!(hit.load(Ordering::SeqCst), "flag-missing", "{src} was ended and the limit flag is not set"),
            Err(e) if e.contains("RangeError") => {}
            // The script may be over before the termination takes effect, and V8 now and then grants
            // one big object without asking the callback: what counts here is that the process lives.
            _ => {}
        }
        drop(ctx);
        drop(isolate);
        drop(state);
        Ok(())
    });
}

//! C04: external memory. C05: deferred destruction.
use crate::iso;
use openworkers_runtime_v8::gc::{DeferredDestructionQueue, ExternalMemoryGuard, JsLock, Tracked};
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, Ordering};
use vcommon::proptest::prelude::*;
use vcommon::{Ctx, Res, check};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// Takes the lock of isolate k (nested in those already held).
    Lock(u8),
    /// Gives back the lock taken last.
    Unlock,
    New(i64),
    Empty,
    Track(u16),
    Adjust(u8, i64),
    Set(u8, i64),
    /// Grows or shrinks a tracked value and tells its guard.
    Resize(u8, u16),
    Drop(u8),
    /// The same, on a thread that holds no lock.
    AwayAdjust(u8, i64),
    AwayDrop(u8),
    IntoInner(u8),
    /// Tells the isolate locked last without a guard: by its lock, or by what `try_current` gives.
    Direct(bool, i64),
    /// The same, by what `pending_delta()` gives.
    Later(i64),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    isolates: u8,
    ops: Vec<Op>,
}

fn case(max: usize) -> impl Strategy<Value = Case> {
    // Mostly small; now and then more than 32 bits hold.
    let size = || prop_oneof![150 => 0i64..100_000, 8 => 0i64..4, 1 => (1i64 << 31)..(1 << 31) + 100, 1 => (1i64 << 32)..(1 << 33)].boxed();
    let delta = || prop_oneof![150 => -40_000i64..60_000, 12 => -3i64..4, 1 => (1i64 << 31)..(1 << 33), 1 => -(1i64 << 33)..0].boxed();
    let op = prop_oneof![
        6 => any::<u8>().prop_map(Op::Lock),
        5 => Just(Op::Unlock),
        4 => size().prop_map(Op::New),
        1 => Just(Op::Empty),
        2 => (0u16..5000).prop_map(Op::Track),
        4 => (any::<u8>(), delta()).prop_map(|(g, d)| Op::Adjust(g, d)),
        2 => (any::<u8>(), size()).prop_map(|(g, d)| Op::Set(g, d)),
        2 => (any::<u8>(), 0u16..5000).prop_map(|(g, d)| Op::Resize(g, d)),
        4 => any::<u8>().prop_map(Op::Drop),
        1 => (any::<u8>(), delta()).prop_map(|(g, d)| Op::AwayAdjust(g, d)),
        2 => any::<u8>().prop_map(Op::AwayDrop),
        1 => any::<u8>().prop_map(Op::IntoInner),
        2 => (any::<bool>(), delta()).prop_map(|(r, d)| Op::Direct(r, d)),
        1 => delta().prop_map(Op::Later),
    ];
    (1u8..4, prop::collection::vec(op, 1..max)).prop_map(|(isolates, ops)| Case { isolates, ops })
}

enum G {
    Guard(ExternalMemoryGuard),
    Tracked(Tracked<Vec<u8>>),
}
struct Live {
    g: G,
    /// What it stands for, by its own history.
    amount: i64,
    /// The isolate it belongs to: the one locked when it was made, else the one locked when it
    /// was first adjusted.
    home: Option<usize>,
}

struct Iso {
    iso: Box<v8::UnenteredIsolate>,
    pending: Arc<AtomicI64>,
    base: i64,
}

thread_local! {
    static POOL: std::cell::RefCell<Vec<Iso>> = const { std::cell::RefCell::new(vec![]) };
}

fn external(i: &mut v8::Isolate) -> i64 {
    i.adjust_amount_of_external_allocated_memory(0)
}

fn run(c: &Case) -> Res {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() < 3 {
            iso::init();
            p.push(Iso { iso: Box::new(v8::Isolate::new_unentered(Default::default())), pending: Arc::new(AtomicI64::new(0)), base: 0 });
        }
        for i in p.iter_mut() {
            i.pending = Arc::new(AtomicI64::new(0));
            let mut l = v8::Locker::new(&mut i.iso);
            // Bring the counter back to a round state in case an earlier case left it off.
            let now = external(&mut l);
            if now != i.base {
                l.adjust_amount_of_external_allocated_memory(i.base - now);
            }
            i.base = external(&mut l);
        }
        run_in(c, &mut p)
    })
}

fn run_in(c: &Case, pool: &mut [Iso]) -> Res {
    // Raw pointers: locks of several isolates are held at once, in a stack.
    let ptrs: Vec<*mut v8::UnenteredIsolate> = pool.iter_mut().map(|i| &mut *i.iso as *mut _).collect();
    let mut held: Vec<(usize, JsLock, v8::Locker<'static>)> = vec![];
    let mut live: Vec<Live> = vec![];
    let n = c.isolates as usize;
    let mut direct = vec![0i64; n];
    let result = (|| -> Res {
        for op in &c.ops {
            let cur = held.last().map(|h| h.0);
            let attach = |l: &mut Live| {
                if l.home.is_none() {
                    l.home = cur;
                }
            };
            match op {
                Op::Lock(k) => {
                    let k = *k as usize % n;
                    if held.len() < 4 {
                        let mut locker = { let p = ptrs[k]; v8::Locker::new(unsafe { &mut *p }) };
                        let js = JsLock::new(&mut locker, &pool[k].pending);
                        check!(pool[k].pending.load(Ordering::SeqCst) == 0, "pending-kept",
                            "the lock of isolate {k} was taken and {} bytes are still pending", pool[k].pending.load(Ordering::SeqCst));
                        held.push((k, js, unsafe { std::mem::transmute::<v8::Locker<'_>, v8::Locker<'static>>(locker) }));
                    }
                }
                Op::Unlock => {
                    if let Some((_, js, locker)) = held.pop() {
                        drop(js);
                        drop(locker);
                    }
                }
                Op::New(a) => {
                    live.push(Live { g: G::Guard(ExternalMemoryGuard::new(*a)), amount: *a, home: cur });
                }
                Op::Direct(by_ref, d) => {
                    if let Some((k, js, _)) = held.last() {
                        match by_ref {
                            false => js.adjust_external_memory(*d),
                            true => match JsLock::try_current() {
                                Some(r) => r.clone().adjust_external_memory(*d),
                                None => vcommon::fail!("current", "try_current() is None with a lock held"),
                            },
                        }
                        direct[*k] += d;
                    }
                }
                Op::Later(d) => {
                    if let (Some((k, ..)), Some(r)) = (held.last(), JsLock::try_current()) {
                        r.pending_delta().fetch_add(*d, Ordering::SeqCst);
                        direct[*k] += d;
                    }
                }
                Op::Empty => live.push(Live { g: G::Guard(ExternalMemoryGuard::empty()), amount: 0, home: cur }),
                Op::Track(a) => {
                    let v: Vec<u8> = Vec::with_capacity(*a as usize);
                    let amount = v.capacity() as i64;
                    live.push(Live { g: G::Tracked(Tracked::new(v)), amount, home: cur });
                }
                Op::Adjust(g, _) | Op::Set(g, _) | Op::Resize(g, _) | Op::Drop(g) | Op::AwayAdjust(g, _) | Op::AwayDrop(g) | Op::IntoInner(g) => {
                    if live.is_empty() {
                        continue;
                    }
                    let k = *g as usize % live.len();
                    let l = &mut live[k];
                    match (op, &mut l.g) {
                        (Op::Adjust(_, d), G::Guard(g)) => {
                            let d = (*d).max(-l.amount);
                            g.adjust(d);
                            l.amount += d;
                            if d != 0 {
                                attach(l);
                            }
                        }
                        (Op::Set(_, a), G::Guard(g)) => {
                            let d = *a - l.amount;
                            g.set(*a);
                            l.amount = *a;
                            if d != 0 {
                                attach(l);
                            }
                        }
                        (Op::Resize(_, a), G::Tracked(t)) => {
                            let v = t.get_mut();
                            if (*a as usize) < v.capacity() {
                                v.shrink_to(*a as usize);
                            } else {
                                let add = *a as usize - v.len();
                                v.reserve_exact(add);
                            }
                            t.update_size();
                            let now = t.get().capacity() as i64;
                            if now != l.amount {
                                attach(l);
                            }
                            l.amount = now;
                        }
                        (Op::AwayAdjust(_, d), G::Guard(g)) => {
                            let d = (*d).max(-l.amount);
                            std::thread::scope(|s| {
                                s.spawn(|| g.adjust(d));
                            });
                            l.amount += d;
                        }
                        (Op::Drop(_), _) => {
                            live.remove(k);
                        }
                        (Op::AwayDrop(_), _) => {
                            let l = live.remove(k);
                            std::thread::scope(|s| {
                                s.spawn(move || drop(l.g));
                            });
                        }
                        (Op::IntoInner(_), G::Tracked(_)) => {
                            if let G::Tracked(t) = live.remove(k).g {
                                drop(t.into_inner());
                            }
                        }
                        _ => {}
                    }
                }
            }
            check!(JsLock::try_current().is_some() == !held.is_empty(), "current",
                "try_current() is {} with {} locks held", JsLock::try_current().is_some(), held.len());
            for (k, l) in live.iter().enumerate() {
                let a = match &l.g {
                    G::Guard(g) => g.amount(),
                    G::Tracked(_) => continue,
                };
                check!(a == l.amount, "amount", "guard {k} says {a}; its history makes {}", l.amount);
            }
            balance(c, pool, &ptrs, &live, &direct)?;
        }
        Ok(())
    })();
    while let Some((_, js, locker)) = held.pop() {
        drop(js);
        drop(locker);
    }
    result?;
    balance(c, pool, &ptrs, &live, &direct)?;
    // Without any guard left, every isolate is back where it began once its lock is taken.
    live.clear();
    for k in 0..n {
        let mut locker = { let p = ptrs[k]; v8::Locker::new(unsafe { &mut *p }) };
        let js = JsLock::new(&mut locker, &pool[k].pending);
        drop(js);
        let got = external(&mut locker) - pool[k].base - direct[k];
        check!(got == 0, "leak", "all guards are gone and isolate {k} still counts {got} bytes");
    }
    Ok(())
}

/// Reported plus pending bytes of each isolate are the sum over its live guards.
fn balance(c: &Case, pool: &[Iso], ptrs: &[*mut v8::UnenteredIsolate], live: &[Live], direct: &[i64]) -> Res {
    for k in 0..c.isolates as usize {
        let got = {
            let mut locker = { let p = ptrs[k]; v8::Locker::new(unsafe { &mut *p }) };
            external(&mut locker) - pool[k].base
        };
        let pending = pool[k].pending.load(Ordering::SeqCst);
        let want: i64 = live.iter().filter(|l| l.home == Some(k)).map(|l| l.amount).sum::<i64>() + direct[k];
        check!(got + pending == want, "balance",
            "isolate {k}: {got} bytes reported and {pending} pending; its live guards and what was told directly make {want}");
    }
    Ok(())
}

pub fn external_memory(ctx: &Ctx) {
    let nontrivial = |c: &Case| {
        let n = |f: fn(&Op) -> bool| c.ops.iter().filter(|o| f(o)).count();
        n(|o| matches!(o, Op::Lock(_))) >= 1 && n(|o| matches!(o, Op::New(_) | Op::Track(_))) >= 1
            && n(|o| matches!(o, Op::Drop(_) | Op::AwayDrop(_) | Op::Adjust(..) | Op::Set(..))) >= 1
    };
    ctx.part("guards", 50000, case(40), nontrivial, run);
    ctx.part("guards-long", 3000, case(300), nontrivial, run);

    // Guards that end on other threads while the isolate is locked and unlocked here.
    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct T {
        threads: u8,
        guards: Vec<u32>,
        locks: u8,
        #[serde(default)]
        rounds: u16,
    }
    let s = (1u8..5, prop::collection::vec(1u32..50_000, 1..60), 1u8..20, prop_oneof![Just(0u16), 1u16..1000]).prop_map(|(threads, guards, locks, rounds)| T { threads, guards, locks, rounds });
    ctx.part("threads", 200, s, |_| true, |t| {
        iso::init();
        let mut iso = v8::Isolate::new_unentered(Default::default());
        let pending = Arc::new(AtomicI64::new(0));
        let mut made = vec![];
        let base;
        {
            let mut l = v8::Locker::new(&mut iso);
            base = external(&mut l);
            let js = JsLock::new(&mut l, &pending);
            for g in &t.guards {
                made.push(ExternalMemoryGuard::new(*g as i64));
            }
            drop(js);
            let sum: i64 = t.guards.iter().map(|g| *g as i64).sum();
            check!(external(&mut l) - base == sum, "balance", "{} bytes reported; the guards hold {sum}", external(&mut l) - base);
        }
        let mut sets: Vec<Vec<ExternalMemoryGuard>> = (0..t.threads).map(|_| vec![]).collect();
        for (k, g) in made.into_iter().enumerate() {
            sets[k % t.threads as usize].push(g);
        }
        let running = std::sync::atomic::AtomicUsize::new(t.threads as usize);
        std::thread::scope(|s| {
            for set in sets {
                let running = &running;
                s.spawn(move || {
                    for mut g in set {
                        g.adjust(17);
                        std::thread::yield_now();
                        for _ in 0..t.rounds {
                            g.adjust(3);
                            g.adjust(-3);
                        }
                        drop(g);
                    }
                    running.fetch_sub(1, Ordering::SeqCst);
                });
            }
            let mut n = 0;
            while n < t.locks || (t.rounds > 0 && running.load(Ordering::SeqCst) > 0) {
                n = n.saturating_add(1);
                let mut l = v8::Locker::new(&mut iso);
                let js = JsLock::new(&mut l, &pending);
                drop(js);
                drop(l);
                if t.rounds == 0 {
                    std::thread::yield_now();
                }
            }
        });
        let mut l = v8::Locker::new(&mut iso);
        let js = JsLock::new(&mut l, &pending);
        drop(js);
        let left = external(&mut l) - base;
        check!(left == 0, "leak", "all guards are gone and the isolate still counts {left} bytes");
        Ok(())
    });
}

// ---- deferred destruction --------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum DOp {
    /// A handle of some kind to a new object; kept.
    Make(u8),
    /// Another handle to the object of a kept one; kept too.
    Share(u8),
    /// Drops a kept handle here, at once.
    DropNow(u8),
    /// Drops the queue with all that waits in it; another takes its place.
    NewQueue,
    /// Gives a kept handle to the queue, from a thread that holds no lock.
    Defer(u8),
    /// The same on this thread.
    DeferHere(u8),
    Process,
    Gc,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct DCase {
    ops: Vec<DOp>,
}

#[derive(Clone)]
enum Any {
    Value(v8::Global<v8::Value>),
    Object(v8::Global<v8::Object>),
    Function(v8::Global<v8::Function>),
    Array(v8::Global<v8::Array>),
    Buffer(v8::Global<v8::ArrayBuffer>),
    Promise(v8::Global<v8::Promise>),
    Map(v8::Global<v8::Map>),
}
const KINDS: [&str; 7] = ["({})", "({a: 1})", "() => 1", "[1, 2]", "new ArrayBuffer(8)", "new Promise(() => {})", "new Map()"];
impl Any {
    fn defer(self, q: &DeferredDestructionQueue) {
        match self {
            Any::Value(g) => q.defer(g),
            Any::Object(g) => q.defer(g),
            Any::Function(g) => q.defer(g),
            Any::Array(g) => q.defer(g),
            Any::Buffer(g) => q.defer(g),
            Any::Promise(g) => q.defer(g),
            Any::Map(g) => q.defer(g),
        }
    }
}

struct SendBox<T>(T);
unsafe impl<T> Send for SendBox<T> {}
impl<T> SendBox<T> {
    fn get(self) -> T {
        self.0
    }
}

struct Handles {
    iso: v8::OwnedIsolate,
    ctx: v8::Global<v8::Context>,
}
impl Handles {
    fn new() -> Self {
        let mut iso = iso::isolate();
        let ctx = iso::global_context(&mut iso, false);
        iso::eval(&mut iso, &ctx, "globalThis.refs = []").unwrap();
        Handles { iso, ctx }
    }
    /// A global handle to a new object that nothing else keeps; `refs[n]` watches it.
    fn make(&mut self, n: usize, kind: u8) -> Any {
        use std::pin::pin;
        let scope = pin!(v8::HandleScope::new(&mut self.iso));
        let mut scope = scope.init();
        let context = v8::Local::new(&scope, &self.ctx);
        let scope = &mut v8::ContextScope::new(&mut scope, context);
        let code = v8::String::new(scope, &format!("(() => {{ const o = {}; refs[{n}] = new WeakRef(o); return o }})()", KINDS[kind as usize % KINDS.len()])).unwrap();
        let v = v8::Script::compile(scope, code, None).unwrap().run(scope).unwrap();
        match kind as usize % KINDS.len() {
            0 => Any::Value(v8::Global::new(scope, v)),
            1 => Any::Object(v8::Global::new(scope, v8::Local::<v8::Object>::try_from(v).unwrap())),
            2 => Any::Function(v8::Global::new(scope, v8::Local::<v8::Function>::try_from(v).unwrap())),
            3 => Any::Array(v8::Global::new(scope, v8::Local::<v8::Array>::try_from(v).unwrap())),
            4 => Any::Buffer(v8::Global::new(scope, v8::Local::<v8::ArrayBuffer>::try_from(v).unwrap())),
            5 => Any::Promise(v8::Global::new(scope, v8::Local::<v8::Promise>::try_from(v).unwrap())),
            _ => Any::Map(v8::Global::new(scope, v8::Local::<v8::Map>::try_from(v).unwrap())),
        }
    }
    /// Which of the objects made so far are still there after a full collection.
    fn alive(&mut self) -> Vec<usize> {
        self.iso.perform_microtask_checkpoint();
        self.iso.clear_kept_objects();
        self.iso.low_memory_notification();
        let s = iso::eval(&mut self.iso, &self.ctx, "refs.map((r, i) => r.deref() ? i : '').filter(s => s !== '').join(',')").unwrap();
        self.iso.perform_microtask_checkpoint();
        self.iso.clear_kept_objects();
        s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()
    }
}

pub fn deferred(ctx: &Ctx) {
    let op = prop_oneof![
        5 => any::<u8>().prop_map(DOp::Make),
        1 => any::<u8>().prop_map(DOp::Share),
        1 => any::<u8>().prop_map(DOp::DropNow),
        1 => Just(DOp::NewQueue),
        4 => any::<u8>().prop_map(DOp::Defer),
        3 => any::<u8>().prop_map(DOp::DeferHere),
        2 => Just(DOp::Process),
        1 => Just(DOp::Gc),
    ];
    let s = prop::collection::vec(op, 1..40).prop_map(|ops| DCase { ops });
    let nontrivial = |c: &DCase| {
        c.ops.iter().any(|o| matches!(o, DOp::Make(_))) && c.ops.iter().any(|o| matches!(o, DOp::Defer(_) | DOp::DeferHere(_)))
            && c.ops.iter().any(|o| matches!(o, DOp::Process))
    };
    ctx.part("handles", 350, s, nontrivial, |c| {
        let mut h = Handles::new();
        let mut q = Arc::new(DeferredDestructionQueue::new());
        let mut kept: Vec<(usize, Any)> = vec![];
        let mut queued: Vec<usize> = vec![];
        let mut n = 0;
        for op in c.ops.iter().chain([&DOp::Process, &DOp::Gc]) {
            match op {
                DOp::Make(kind) => {
                    let g = h.make(n, *kind);
                    kept.push((n, g));
                    n += 1;
                }
                DOp::Share(k) if !kept.is_empty() => {
                    let one = kept[*k as usize % kept.len()].clone();
                    kept.push(one);
                }
                DOp::DropNow(k) if !kept.is_empty() => {
                    kept.remove(*k as usize % kept.len());
                }
                DOp::NewQueue => {
                    q = Arc::new(DeferredDestructionQueue::new());
                    queued.clear();
                }
                DOp::Defer(k) | DOp::DeferHere(k) if !kept.is_empty() => {
                    let (id, g) = kept.remove(*k as usize % kept.len());
                    queued.push(id);
                    if matches!(op, DOp::Defer(_)) {
                        let (g, q) = (SendBox(g), q.clone());
                        std::thread::spawn(move || g.get().defer(&q)).join().unwrap();
                    } else {
                        g.defer(&q);
                    }
                }
                DOp::Process => {
                    q.process_all();
                    queued.clear();
                }
                DOp::Gc => {
                    let mut want: Vec<usize> = kept.iter().map(|k| k.0).chain(queued.iter().copied()).collect();
                    want.sort();
                    want.dedup();
                    let got = h.alive();
                    check!(got == want, "alive", "objects {got:?} are alive; handles are held or queued for {want:?}");
                }
                _ => {}
            }
            check!(q.len() == queued.len() as u64 && q.is_empty() == queued.is_empty() && q.has_pending() != queued.is_empty(),
                "count", "{} handles wait; len() {} is_empty() {} has_pending() {}", queued.len(), q.len(), q.is_empty(), q.has_pending());
        }
        Ok(())
    });

    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct T {
        threads: u8,
        per: u8,
        process_first: bool,
    }
    let s = (1u8..6, 1u8..40, any::<bool>()).prop_map(|(threads, per, process_first)| T { threads, per, process_first });
    ctx.part("threads", 120, s, |_| true, |t| {
        let mut h = Handles::new();
        let q = Arc::new(DeferredDestructionQueue::new());
        let total = t.threads as usize * t.per as usize;
        let mut sets: Vec<Vec<SendBox<Any>>> = (0..t.threads).map(|_| vec![]).collect();
        for n in 0..total {
            let g = h.make(n, n as u8);
            sets[n % t.threads as usize].push(SendBox(g));
        }
        let done = std::sync::atomic::AtomicUsize::new(0);
        let mut worst = 0;
        std::thread::scope(|s| {
            for set in sets {
                let (q, done) = (q.clone(), &done);
                s.spawn(move || {
                    for g in set {
                        g.get().defer(&q);
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                });
            }
            while done.load(Ordering::SeqCst) < t.threads as usize {
                q.process_all();
                worst = worst.max(q.len());
            }
        });
        q.process_all();
        check!(q.is_empty() && q.len() == 0, "count", "every handle was processed and len() is {}", q.len());
        check!(worst <= total as u64, "count-underflow", "len() was {worst} with {total} handles in all");
        let left = h.alive();
        check!(left.is_empty(), "alive", "every handle was processed and objects {left:?} are still held");
        Ok(())
    });
}

//! C03: the turn-taking lock of requests that share an isolate.
use crate::exec::Flag;
use openworkers_runtime_v8::async_waiter::AsyncWaiter;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use std::task::{Context, Wake, Waker};
use vcommon::proptest::prelude::*;
use vcommon::{Ctx, Res, check, fail};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// A new request; it has `turns` turns to take, each kept for `hold` more polls.
    Spawn { turns: u8, hold: u8, rest: bool },
    /// Polls one of the requests that have been woken.
    Step(u8),
    /// Polls one that has not been woken (an event of its own arrives).
    Event(u8),
    /// Drops a request that neither has the turn nor waits for it.
    Drop(u8),
    /// Drops one that waits for it.
    Leave(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    /// How the requests still alive are polled to the end.
    tail: Vec<u8>,
}

fn case(max: usize, drops: bool, leaves: bool, events: bool) -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        4 => (1u8..4, 0u8..3, any::<bool>()).prop_map(|(turns, hold, rest)| Op::Spawn { turns, hold, rest }),
        12 => any::<u8>().prop_map(Op::Step),
        if events { 4 } else { 0 } => any::<u8>().prop_map(Op::Event),
        if drops { 1 } else { 0 } => any::<u8>().prop_map(Op::Drop),
        if leaves { 2 } else { 0 } => any::<u8>().prop_map(Op::Leave),
    ];
    (prop::collection::vec(op, 1..max), prop::collection::vec(any::<u8>(), 0..12))
        .prop_map(|(ops, tail)| Case { ops, tail })
}

struct Req {
    flag: Arc<Flag>,
    turns: u8,
    hold: u8,
    held: u8,
    /// Gives the thread back between two turns (woken at once) or goes on in the same poll.
    rest: bool,
    /// When it joined the queue, if it waits and has not been woken since.
    since: Option<u64>,
    waiting: bool,
    alive: bool,
}

struct World {
    w: AsyncWaiter,
    reqs: Vec<Req>,
    holder: Option<usize>,
    clock: u64,
    /// A request went away while it waited.
    left: bool,
    /// No request was polled without having been woken, and none was dropped, so far.
    regular: bool,
}

impl World {
    fn unlock(&mut self, k: usize) -> Res {
        check!(!self.w.is_free(), "free-while-held", "is_free() while request {k} has the turn");
        let before: Vec<bool> = self.reqs.iter().map(|r| r.flag.get()).collect();
        let oldest = (0..self.reqs.len()).filter(|i| self.reqs[*i].alive && self.reqs[*i].waiting)
            .filter_map(|i| self.reqs[i].since.map(|t| (t, i))).min();
        self.holder = None;
        self.w.unlock();
        let woken: Vec<usize> = (0..self.reqs.len()).filter(|i| !before[*i] && self.reqs[*i].flag.get()).collect();
        if self.regular {
            if let Some((_, o)) = oldest {
                check!(woken.contains(&o), "fifo", "request {k} gave up its turn: {woken:?} woken, but {o} has waited longest");
            }
        }
        for i in woken {
            self.reqs[i].since = None;
        }
        Ok(())
    }
    fn poll(&mut self, k: usize) -> Res {
        self.reqs[k].flag.take();
        if !self.reqs[k].alive {
            return Ok(()); // a wake-up of a request that is gone
        }
        loop {
            if self.holder == Some(k) {
                if self.reqs[k].held > 0 {
                    self.reqs[k].held -= 1;
                    Waker::from(self.reqs[k].flag.clone()).wake();
                    return Ok(());
                }
                self.unlock(k)?;
                self.reqs[k].turns -= 1;
                if self.reqs[k].turns == 0 {
                    self.reqs[k].alive = false;
                    return Ok(());
                }
                if self.reqs[k].rest {
                    Waker::from(self.reqs[k].flag.clone()).wake();
                    return Ok(());
                }
            }
            let waker: Waker = self.reqs[k].flag.clone().into();
            self.clock += 1;
            if self.w.try_lock(&mut Context::from_waker(&waker)) {
                if let Some(h) = self.holder {
                    fail!("two-holders", "request {k} was given the turn that request {h} has");
                }
                self.holder = Some(k);
                self.reqs[k].held = self.reqs[k].hold;
                self.reqs[k].waiting = false;
                self.reqs[k].since = None;
            } else {
                self.reqs[k].waiting = true;
                let now = self.clock;
                self.reqs[k].since.get_or_insert(now);
                check!(self.w.queue_len() > 0, "queue-len", "queue_len() is 0 with a request waiting");
                return Ok(());
            }
        }
    }
}

fn run(c: &Case) -> Res {
    let mut w = World { w: AsyncWaiter::new(), reqs: vec![], holder: None, clock: 0, left: false, regular: true };
    for op in &c.ops {
        match op {
            Op::Spawn { turns, hold, rest } => {
                w.reqs.push(Req { flag: Flag::new(true), turns: *turns, hold: *hold, held: 0, rest: *rest, since: None, waiting: false, alive: true });
            }
            Op::Step(s) | Op::Event(s) => {
                let event = matches!(op, Op::Event(_));
                let v: Vec<usize> = (0..w.reqs.len())
                    .filter(|i| w.reqs[*i].flag.get() != event && w.reqs[*i].alive).collect();
                if !v.is_empty() {
                    let k = v[*s as usize % v.len()];
                    if event && w.reqs[k].waiting {
                        w.regular = false;
                    }
                    w.poll(k)?;
                }
            }
            Op::Drop(s) => {
                let v: Vec<usize> = (0..w.reqs.len()).filter(|i| w.reqs[*i].alive && w.holder != Some(*i) && !w.reqs[*i].waiting).collect();
                if !v.is_empty() {
                    let k = v[*s as usize % v.len()];
                    w.reqs[k].alive = false;
                }
            }
            Op::Leave(s) => {
                let v: Vec<usize> = (0..w.reqs.len()).filter(|i| w.reqs[*i].alive && w.holder != Some(*i) && w.reqs[*i].waiting).collect();
                if !v.is_empty() {
                    let k = v[*s as usize % v.len()];
                    w.reqs[k].alive = false;
                    w.regular = false;
                    w.left = true;
                }
            }
        }
        check!(w.w.is_free() == w.holder.is_none(), "is-free", "is_free() is {} with holder {:?}", w.w.is_free(), w.holder);
    }
    // Poll what is woken until nothing is.
    let mut n = 0;
    loop {
        let v: Vec<usize> = (0..w.reqs.len()).filter(|i| w.reqs[*i].flag.get()).collect();
        if v.is_empty() {
            break;
        }
        let s = c.tail.get(n % c.tail.len().max(1)).copied().unwrap_or(0);
        n += 1;
        check!(n < 100_000, "livelock", "the requests do not come to an end");
        w.poll(v[s as usize % v.len()])?;
    }
    let stuck: Vec<usize> = (0..w.reqs.len()).filter(|i| w.reqs[*i].alive).collect();
    check!(stuck.is_empty(), if w.left { "left-waiting" } else { "lost-wakeup" },
        "requests {stuck:?} wait for a turn that nobody has, and nothing will wake them");
    Ok(())
}

/// A request on a thread of its own, which polls as soon as its waker is called.
struct Eager {
    w: Arc<AsyncWaiter>,
    got: Arc<Mutex<Vec<usize>>>,
    polled: Mutex<Option<std::thread::JoinHandle<()>>>,
    me: usize,
}
impl Wake for Eager {
    fn wake(self: Arc<Self>) {
        let me = self.clone();
        let (tx, rx) = std::sync::mpsc::channel();
        let t = std::thread::spawn(move || {
            me.clone().ask();
            let _ = tx.send(());
        });
        // The waking thread is held up here, as it may be by the scheduler. It may hold a lock
        // the other one needs, so not for ever.
        let _ = rx.recv_timeout(std::time::Duration::from_millis(2));
        *self.polled.lock().unwrap() = Some(t);
    }
}
impl Eager {
    fn ask(self: Arc<Self>) {
        let waker = Waker::from(self.clone());
        if self.w.try_lock(&mut Context::from_waker(&waker)) {
            self.got.lock().unwrap().push(self.me);
        }
    }
}

/// Request 0 has the turn, the others wait; each gives up its turn, and asks again if its number says so.
fn handover(v: &[u8]) -> Res {
    let w = Arc::new(AsyncWaiter::new());
    let got = Arc::new(Mutex::new(vec![]));
    let reqs: Vec<Arc<Eager>> = (0..v.len()).map(|me| Arc::new(Eager { w: w.clone(), got: got.clone(), polled: Mutex::new(None), me })).collect();
    let mut turns: Vec<u8> = v.iter().map(|t| 1 + t % 2).collect();
    for r in &reqs {
        r.clone().ask();
    }
    let mut waiting: std::collections::VecDeque<usize> = (1..v.len()).collect();
    let mut holder = 0;
    loop {
        check!(*got.lock().unwrap() == vec![holder], "two-holders", "{:?} have the turn, it should be {holder}", got.lock().unwrap());
        got.lock().unwrap().clear();
        turns[holder] -= 1;
        if turns[holder] > 0 {
            waiting.push_back(holder);
        }
        w.unlock();
        for r in &reqs {
            let t = r.polled.lock().unwrap().take();
            if let Some(t) = t {
                t.join().unwrap();
            }
        }
        if turns[holder] > 0 {
            reqs[holder].clone().ask();
        }
        let Some(next) = waiting.pop_front() else { break };
        check!(!got.lock().unwrap().is_empty(), "lost-wakeup", "request {holder} gave up its turn, {next} waits, and nobody has it");
        holder = next;
    }
    Ok(())
}

pub fn check_waiter(ctx: &Ctx) {
    let nontrivial = |c: &Case| c.ops.iter().filter(|o| matches!(o, Op::Spawn { .. })).count() >= 3;
    ctx.part("orderly", 60000, case(40, false, false, false), nontrivial, |c| run(c));
    ctx.part("events", 60000, case(40, false, false, true), nontrivial, |c| run(c));
    ctx.part("long", 3000, case(250, false, false, true), nontrivial, |c| run(c));
    ctx.part("dropped", 10000, case(40, true, false, true), nontrivial, |c| run(c));
    ctx.part("left", 10000, case(40, true, true, true), nontrivial, |c| run(c));
    ctx.part("handover", 300, prop::collection::vec(0u8..8, 2..12), |v| v.len() >= 3, |v| handover(v));

    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct T {
        threads: u8,
        turns: u16,
    }
    let s = (2u8..6, 50u16..400).prop_map(|(threads, turns)| T { threads, turns });
    ctx.part("threads", 60, s, |_| true, |t| {
        let w = AsyncWaiter::new();
        let inside = std::sync::atomic::AtomicU32::new(0);
        let bad = std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|s| {
            for _ in 0..t.threads {
                s.spawn(|| {
                    let waker: Waker = Flag::new(false).into();
                    for _ in 0..t.turns {
                        while !w.try_lock(&mut Context::from_waker(&waker)) {
                            std::thread::yield_now();
                        }
                        if inside.fetch_add(1, std::sync::atomic::Ordering::SeqCst) != 0 {
                            bad.store(true, std::sync::atomic::Ordering::SeqCst);
                        }
                        std::hint::spin_loop();
                        inside.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                        w.unlock();
                    }
                });
            }
        });
        check!(!bad.into_inner(), "two-holders", "two threads had the turn at once");
        Ok(())
    });
}

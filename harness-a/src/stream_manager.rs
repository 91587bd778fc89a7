//! C01: chunks of a stream. C02: backpressure. C22: request bodies pumped into a stream.
use crate::exec::Task;
use bytes::Bytes;
use openworkers_runtime_v8::runtime::stream_manager::{StreamChunk, StreamManager};
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::sync::Arc;
use vcommon::proptest::prelude::*;
use vcommon::{Ctx, Res, check, fail};

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Data,
    Done,
    Error,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Create,
    /// Starts a write on the stream (its future is polled once at once).
    Write(u8, Kind),
    TryWrite(u8, Kind),
    Read(u8),
    /// Polls one of the pending writes or reads that has been woken.
    Step(u8),
    /// Polls one that has not been woken (wake-ups may be spurious).
    Spurious(u8),
    /// Drops a pending write.
    CancelWrite(u8),
    Close(u8),
    Take(u8),
    Clear,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    hwm: usize,
    ops: Vec<Op>,
}

fn kind() -> impl Strategy<Value = Kind> {
    prop_oneof![12 => Just(Kind::Data), 1 => Just(Kind::Done), 1 => Just(Kind::Error)]
}

fn case(max: usize) -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        3 => Just(Op::Create),
        14 => (any::<u8>(), kind()).prop_map(|(s, k)| Op::Write(s, k)),
        6 => (any::<u8>(), kind()).prop_map(|(s, k)| Op::TryWrite(s, k)),
        14 => any::<u8>().prop_map(Op::Read),
        14 => any::<u8>().prop_map(Op::Step),
        3 => any::<u8>().prop_map(Op::Spurious),
        1 => any::<u8>().prop_map(Op::CancelWrite),
        1 => any::<u8>().prop_map(Op::Close),
        1 => any::<u8>().prop_map(Op::Take),
        1 => Just(Op::Clear),
    ];
    (1usize..5, prop::collection::vec(op, 1..max)).prop_map(|(hwm, ops)| Case { hwm, ops })
}

#[derive(Debug, Clone, PartialEq)]
enum Item {
    Data(u64),
    Done,
    Error(u64),
}

/// What one stream must look like, from the operations that have completed on it.
struct Model {
    id: u64,
    url: String,
    /// Accepted and not yet read.
    queue: VecDeque<Item>,
    /// Closed or cleared: gone for good.
    gone: bool,
    /// Its reader has seen the end, or has gone away with the receiver.
    ended: bool,
    taken: Option<tokio::sync::mpsc::Receiver<StreamChunk>>,
    reading: bool,
    /// Closed while a read was in progress (that read may still get a chunk).
    last_read: bool,
}

impl Model {
    fn close(&mut self) {
        if !self.gone {
            self.gone = true;
            self.last_read = self.reading;
            if self.taken.is_none() && !self.reading {
                self.queue.clear();
            }
        }
    }
}

enum Out {
    Wrote(Result<(), String>),
    Read(Result<StreamChunk, String>),
}
struct Pending {
    stream: usize,
    write: Option<Item>,
    begun_open: bool,
    task: Task<Out>,
}

struct World {
    m: StreamManager,
    hwm: usize,
    streams: Vec<Model>,
    pending: Vec<Pending>,
    next: u64,
}

fn chunk(i: &Item, stream: usize) -> StreamChunk {
    match i {
        Item::Data(n) => StreamChunk::Data(Bytes::from(format!("s{stream}-{n}"))),
        Item::Done => StreamChunk::Done,
        Item::Error(n) => StreamChunk::Error(format!("s{stream}-e{n}")),
    }
}
fn same(a: &StreamChunk, b: &StreamChunk) -> bool {
    match (a, b) {
        (StreamChunk::Data(x), StreamChunk::Data(y)) => x == y,
        (StreamChunk::Done, StreamChunk::Done) => true,
        (StreamChunk::Error(x), StreamChunk::Error(y)) => x == y,
        _ => false,
    }
}

impl World {
    fn pick(&self, s: u8) -> Option<usize> {
        if self.streams.is_empty() {
            return None;
        }
        // Mostly the latest streams.
        let n = self.streams.len();
        Some(n - 1 - (s as usize % n.min(3)))
    }
    fn item(&mut self, k: &Kind) -> Item {
        self.next += 1;
        match k {
            Kind::Data => Item::Data(self.next),
            Kind::Done => Item::Done,
            Kind::Error => Item::Error(self.next),
        }
    }
    /// `begun`: whether the write began before the stream was closed.
    fn accepted(&mut self, s: usize, i: Item, begun: bool) -> Res {
        let st = &mut self.streams[s];
        check!(!st.gone || (begun && (st.last_read || st.taken.is_some())), "write-after-close",
            "stream {} accepted a chunk after it was closed", st.id);
        st.queue.push_back(i);
        check!(st.queue.len() <= self.hwm, "over-capacity",
            "stream {} holds {} unread chunks; its limit is {}", st.id, st.queue.len(), self.hwm);
        Ok(())
    }
    fn delivered(&mut self, s: usize, r: Result<StreamChunk, String>) -> Res {
        let st = &mut self.streams[s];
        st.reading = false;
        let last = std::mem::take(&mut st.last_read);
        match r {
            Ok(c) => {
                check!(!st.gone || last, "read-after-close", "stream {} delivered {c:?} after it was closed", st.id);
                check!(!st.ended, "read-after-end", "stream {} delivered {c:?} after its end", st.id);
                let Some(want) = st.queue.pop_front() else {
                    fail!("invented", "stream {} delivered {c:?}, which nothing wrote", st.id);
                };
                let w = chunk(&want, s);
                check!(same(&w, &c), "order", "stream {} delivered {c:?}; next in order was {w:?}", st.id);
                if !matches!(want, Item::Data(_)) {
                    st.ended = true;
                }
                if last {
                    st.queue.clear();
                }
            }
            Err(e) => {
                check!(st.gone || st.ended || st.taken.is_some(), "lost",
                    "a read of the open stream {} failed: {e} (unread: {:?})", st.id, st.queue);
            }
        }
        Ok(())
    }
    fn settle(&mut self, k: usize) -> Res {
        let p = &mut self.pending[k];
        let s = p.stream;
        match p.task.poll() {
            None => Ok(()),
            Some(Out::Wrote(r)) => {
                let p = self.pending.remove(k);
                let (item, begun) = (p.write.unwrap(), p.begun_open);
                match r {
                    Ok(()) => self.accepted(s, item, begun),
                    Err(e) => {
                        let st = &self.streams[s];
                        check!(st.gone || st.ended, "rejected",
                            "a write to the open stream {} failed: {e}", st.id);
                        Ok(())
                    }
                }
            }
            Some(Out::Read(r)) => {
                self.pending.remove(k);
                self.delivered(s, r)
            }
        }
    }
    fn observe(&self) -> Res {
        let open = self.streams.iter().filter(|s| !s.gone && !s.ended).count();
        let n = self.m.active_count();
        let max = self.streams.iter().filter(|s| !s.gone).count();
        check!(n >= open && n <= max, "active-count", "{n} active streams; {open} are open, {max} not closed");
        for s in &self.streams {
            if s.gone {
                check!(!self.m.has_sender(s.id), "closed-still-open", "stream {} is closed and has a sender", s.id);
                check!(self.m.get_stream_info(s.id).is_none(), "closed-still-known", "stream {} is closed and known", s.id);
            } else {
                check!(self.m.get_stream_info(s.id).as_ref() == Some(&s.url), "info", "stream {}: info {:?}, made for {:?}",
                    s.id, self.m.get_stream_info(s.id), s.url);
                if !s.ended {
                    check!(self.m.has_sender(s.id), "open-not-open", "stream {} is open and has no sender", s.id);
                }
            }
        }
        Ok(())
    }
    /// Runs every woken task until nothing is woken; then nothing that could go on may be stuck.
    fn quiesce(&mut self) -> Res {
        while let Some(k) = self.pending.iter().position(|p| p.task.woken()) {
            self.settle(k)?;
        }
        for p in &self.pending {
            let st = &self.streams[p.stream];
            if p.write.is_some() {
                check!((!st.gone || st.taken.is_some() || st.last_read) && !st.ended, "stuck-write", "a write to the closed stream {} never returns", st.id);
                check!(st.queue.len() >= self.hwm, "stuck-write-room",
                    "a write to stream {} is stuck with {} of {} places used", st.id, st.queue.len(), self.hwm);
            } else {
                check!(!st.gone, "stuck-read-closed", "a read of the closed stream {} never returns", st.id);
                check!(st.queue.is_empty(), "stuck-read",
                    "a read of stream {} is stuck with {} chunks to read", st.id, st.queue.len());
            }
        }
        Ok(())
    }
    fn start_read(&mut self, s: usize) -> Res {
        let m = self.m.clone();
        let id = self.streams[s].id;
        if self.streams[s].reading {
            // One reader at a time: a second read is refused and takes nothing.
            let mut t = Task::new(async move { m.read_chunk(id).await });
            match t.poll() {
                Some(Err(_)) => return Ok(()),
                r => fail!("two-readers", "a second concurrent read of stream {id} gave {r:?}"),
            }
        }
        self.streams[s].reading = true;
        let task = Task::new(async move { Out::Read(m.read_chunk(id).await) });
        self.pending.push(Pending { stream: s, write: None, begun_open: true, task });
        self.settle(self.pending.len() - 1)
    }
}

fn run(c: &Case) -> Res {
    let mut w = World {
        m: StreamManager::with_high_water_mark(c.hwm),
        hwm: c.hwm,
        streams: vec![],
        pending: vec![],
        next: 0,
    };
    for op in &c.ops {
        match op {
            Op::Create => {
                let url = format!("u{}", w.streams.len());
                let id = w.m.create_stream(url.clone());
                check!(w.streams.iter().all(|s| s.id != id), "id-reused",
                    "create_stream gave id {id}, which an earlier stream had (so a late writer or reader of that stream reaches this one)");
                w.streams.push(Model { id, url, queue: VecDeque::new(), gone: false, ended: false, taken: None, reading: false, last_read: false });
            }
            Op::Write(s, k) => {
                let Some(s) = w.pick(*s) else { continue };
                let item = w.item(k);
                let (m, id, ch) = (w.m.clone(), w.streams[s].id, chunk(&item, s));
                let task = Task::new(async move { Out::Wrote(m.write_chunk(id, ch).await) });
                w.pending.push(Pending { stream: s, write: Some(item), begun_open: !w.streams[s].gone, task });
                w.settle(w.pending.len() - 1)?;
            }
            Op::TryWrite(s, k) => {
                let Some(s) = w.pick(*s) else { continue };
                let item = w.item(k);
                let waiting = w.pending.iter().any(|p| p.stream == s && p.write.is_some());
                match w.m.try_write_chunk(w.streams[s].id, chunk(&item, s)) {
                    Ok(()) => w.accepted(s, item, false)?,
                    Err(e) => {
                        let st = &w.streams[s];
                        check!(st.gone || st.ended || st.queue.len() >= w.hwm || waiting, "try-rejected",
                            "try_write_chunk on the open stream {} with {} of {} places used failed: {e}", st.id, st.queue.len(), w.hwm);
                    }
                }
            }
            Op::Read(s) => {
                let Some(s) = w.pick(*s) else { continue };
                if w.streams[s].taken.is_some() {
                    // The taker reads now.
                    let r = w.streams[s].taken.as_mut().unwrap().try_recv();
                    let st = &mut w.streams[s];
                    match r {
                        Ok(c) => {
                            let Some(want) = st.queue.pop_front() else {
                                fail!("invented", "stream {} delivered {c:?}, which nothing wrote", st.id);
                            };
                            let wc = chunk(&want, s);
                            check!(same(&wc, &c), "order", "stream {} delivered {c:?}; next in order was {wc:?}", st.id);
                        }
                        Err(_) => check!(st.queue.is_empty(), "lost", "the taken receiver of stream {} is empty; unread: {:?}", st.id, st.queue),
                    }
                } else {
                    w.start_read(s)?;
                }
            }
            Op::Step(k) | Op::Spurious(k) => {
                let woken = matches!(op, Op::Step(_));
                let ready: Vec<usize> = (0..w.pending.len()).filter(|i| w.pending[*i].task.woken() == woken).collect();
                if !ready.is_empty() {
                    w.settle(ready[*k as usize % ready.len()])?;
                }
            }
            Op::CancelWrite(k) => {
                let ws: Vec<usize> = (0..w.pending.len()).filter(|i| w.pending[*i].write.is_some()).collect();
                if !ws.is_empty() {
                    w.pending.remove(ws[*k as usize % ws.len()]);
                }
            }
            Op::Close(s) => {
                let Some(s) = w.pick(*s) else { continue };
                w.m.close_stream(w.streams[s].id);
                w.streams[s].close();
            }
            Op::Take(s) => {
                let Some(s) = w.pick(*s) else { continue };
                let r = w.m.take_receiver(w.streams[s].id);
                let st = &mut w.streams[s];
                let free = !st.gone && !st.ended && !st.reading && st.taken.is_none();
                check!(r.is_some() == free, "take", "take_receiver on stream {} gave {}; it is {}", st.id, r.is_some(),
                    if free { "open and unread" } else { "closed, ended or being read" });
                if r.is_some() {
                    st.taken = r;
                }
            }
            Op::Clear => {
                w.m.clear();
                for s in &mut w.streams {
                    s.close();
                }
                check!(w.m.active_count() == 0, "clear", "{} active streams after clear", w.m.active_count());
            }
        }
        w.observe()?;
    }
    w.quiesce()?;
    // Everything accepted on a stream that is still open must come out, in order, to the end.
    for s in 0..w.streams.len() {
        while !w.streams[s].gone && !w.streams[s].ended && w.streams[s].taken.is_none() && !w.streams[s].queue.is_empty() {
            if w.streams[s].reading {
                fail!("stuck-read", "a read of stream {} is stuck with chunks to read", w.streams[s].id);
            }
            w.start_read(s)?;
            w.quiesce()?;
        }
    }
    w.observe()
}

pub fn fifo(ctx: &Ctx) {
    let nontrivial = |c: &Case| {
        c.ops.iter().filter(|o| matches!(o, Op::Write(..) | Op::TryWrite(..))).count() >= 3
            && c.ops.iter().filter(|o| matches!(o, Op::Read(_))).count() >= 2
            && c.ops.iter().any(|o| matches!(o, Op::Create))
    };
    ctx.part("histories", 90000, case(60), nontrivial, |c| run(c));
    ctx.part("long-histories", 6000, case(400), nontrivial, |c| run(c));
    threads(ctx);
}

/// Streams made, written, read and closed from several threads at once.
fn threads(ctx: &Ctx) {
    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct T {
        hwm: usize,
        threads: u8,
        streams: u8,
        chunks: u8,
        close: Vec<bool>,
    }
    let s = (1usize..4, 2u8..5, 1u8..4, 1u8..20, prop::collection::vec(any::<bool>(), 12))
        .prop_map(|(hwm, threads, streams, chunks, close)| T { hwm, threads, streams, chunks, close });
    ctx.part("threads", 1500, s, |_| true, |t| {
        let m = StreamManager::with_high_water_mark(t.hwm);
        let ids = std::sync::Mutex::new(vec![]);
        let fails = std::sync::Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for th in 0..t.threads {
                let (m, ids, fails) = (m.clone(), &ids, &fails);
                sc.spawn(move || {
                    for k in 0..t.streams {
                        let url = format!("{th}/{k}");
                        let id = m.create_stream(url.clone());
                        ids.lock().unwrap().push(id);
                        let (mw, chunks) = (m.clone(), t.chunks);
                        let u2 = url.clone();
                        let writer = std::thread::spawn(move || {
                            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                            rt.block_on(async {
                                for c in 0..chunks {
                                    mw.write_chunk(id, StreamChunk::Data(Bytes::from(format!("{u2}:{c}")))).await?;
                                }
                                mw.write_chunk(id, StreamChunk::Done).await
                            })
                        });
                        let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
                        let got = rt.block_on(async {
                            let mut v = vec![];
                            loop {
                                match m.read_chunk(id).await {
                                    Ok(StreamChunk::Data(b)) => v.push(String::from_utf8_lossy(&b).to_string()),
                                    Ok(StreamChunk::Done) => return v,
                                    o => {
                                        v.push(format!("{o:?}"));
                                        return v;
                                    }
                                }
                            }
                        });
                        let wrote = writer.join().unwrap();
                        let want: Vec<String> = (0..t.chunks).map(|c| format!("{url}:{c}")).collect();
                        if got != want || wrote.is_err() {
                            fails.lock().unwrap().push(format!("stream {id} ({url}): got {got:?}, writer {wrote:?}"));
                        }
                        if m.get_stream_info(id).as_deref() != Some(&url) {
                            fails.lock().unwrap().push(format!("stream {id} is {:?}, made for {url}", m.get_stream_info(id)));
                        }
                        if t.close[(th as usize * 3 + k as usize) % t.close.len()] {
                            m.close_stream(id);
                        }
                    }
                });
            }
        });
        let mut ids = ids.into_inner().unwrap();
        let n = ids.len();
        ids.sort();
        ids.dedup();
        check!(ids.len() == n, "id-reused", "two threads were given the same stream id");
        let f = fails.into_inner().unwrap();
        check!(f.is_empty(), "threads", "{}", f[0]);
        Ok(())
    });

}

// ---- request bodies -------------------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Up {
    Data(u16),
    Err,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum PumpOp {
    /// Makes a new body (its own upstream channel) and starts pumping.
    Start { cap: usize },
    Send(u8, Up),
    /// The client has sent everything.
    End(u8),
    Read(u8),
    /// Lets the pump tasks run until none has anything to do.
    Run,
    Close(u8),
    /// End of the request: the manager is cleared for the next one.
    Clear,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PumpCase {
    hwm: usize,
    ops: Vec<PumpOp>,
}

fn pump_case(max: usize) -> impl Strategy<Value = PumpCase> {
    let up = prop_oneof![12 => (0u16..300).prop_map(Up::Data), 1 => Just(Up::Err)];
    let op = prop_oneof![
        2 => (1usize..5).prop_map(|cap| PumpOp::Start { cap }),
        12 => (any::<u8>(), up).prop_map(|(s, u)| PumpOp::Send(s, u)),
        2 => any::<u8>().prop_map(PumpOp::End),
        8 => any::<u8>().prop_map(PumpOp::Read),
        6 => Just(PumpOp::Run),
        1 => any::<u8>().prop_map(PumpOp::Close),
        1 => Just(PumpOp::Clear),
    ];
    (1usize..5, prop::collection::vec(op, 1..max)).prop_map(|(hwm, mut ops)| {
        ops.insert(0, PumpOp::Start { cap: 2 });
        PumpCase { hwm, ops }
    })
}

struct Body {
    id: u64,
    tx: Option<tokio::sync::mpsc::Sender<Result<Bytes, String>>>,
    cap: usize,
    /// What upstream has sent, in order.
    sent: Vec<Result<Bytes, String>>,
    got: usize,
    finished: bool,
    gone: bool,
    reading: Option<Task<Result<StreamChunk, String>>>,
}

impl Body {
    /// Items upstream sent before the first error (that one included): what the consumer must see.
    fn visible(&self) -> usize {
        self.sent.iter().position(|r| r.is_err()).map(|p| p + 1).unwrap_or(self.sent.len())
    }
    fn result(&mut self, r: Result<StreamChunk, String>) -> Res {
        match r {
            Ok(StreamChunk::Data(b)) => {
                check!(!self.finished, "after-end", "body {} delivered data after its end", self.id);
                match self.sent.get(self.got) {
                    Some(Ok(w)) => check!(*w == b, "order", "body {} delivered {:?}; item {} was {:?}", self.id, b, self.got, w),
                    o => fail!("invented", "body {} delivered {:?}; item {} sent was {:?}", self.id, b, self.got, o),
                }
                self.got += 1;
            }
            Ok(StreamChunk::Error(e)) => {
                check!(!self.finished, "after-end", "body {} delivered an error after its end", self.id);
                check!(self.sent.get(self.got) == Some(&Err(e.clone())), "invented-error",
                    "body {} delivered error {e}; item {} sent was {:?}", self.id, self.got, self.sent.get(self.got));
                self.got += 1;
                self.finished = true;
            }
            Ok(StreamChunk::Done) => {
                check!(!self.finished, "after-end", "body {} ended twice", self.id);
                check!(self.tx.is_none() && self.got == self.sent.len(), "early-end",
                    "body {} ended after {} of {} chunks (upstream {})", self.id, self.got, self.sent.len(),
                    if self.tx.is_none() { "finished" } else { "open" });
                self.finished = true;
            }
            Err(e) => check!(self.gone || self.finished, "lost", "a read of the open body {} failed: {e}", self.id),
        }
        Ok(())
    }
}

async fn run_tasks() {
    for _ in 0..60 {
        tokio::task::yield_now().await;
    }
}

fn run_pump(c: &PumpCase) -> Res {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    rt.block_on(async {
        let m = Arc::new(StreamManager::with_high_water_mark(c.hwm));
        let mut bodies: Vec<Body> = vec![];
        let mut n = 0u64;
        fn pick(bodies: &[Body], s: u8) -> usize {
            bodies.len() - 1 - (s as usize % bodies.len().min(3))
        }
        for op in &c.ops {
            if bodies.is_empty() && !matches!(op, PumpOp::Start { .. }) {
                continue;
            }
            match op {
                PumpOp::Start { cap } => {
                    let (tx, rx) = tokio::sync::mpsc::channel(*cap);
                    let id = m.pump_request_body(rx);
                    bodies.push(Body { id, tx: Some(tx), cap: *cap, sent: vec![], got: 0, finished: false, gone: false, reading: None });
                }
                PumpOp::Send(s, u) => {
                    let k = pick(&bodies, *s);
                    n += 1;
                    let b = &mut bodies[k];
                    let v = match u {
                        Up::Data(len) => Ok(Bytes::from(format!("{k}-{n}-{}", "x".repeat(*len as usize)))),
                        Up::Err => Err(format!("{k}-e{n}")),
                    };
                    if let Some(tx) = &b.tx {
                        match tx.try_send(v.clone()) {
                            Ok(()) => b.sent.push(v),
                            Err(tokio::sync::mpsc::error::TrySendError::Full(_)) => {}
                            Err(_) => check!(b.gone || b.visible() < b.sent.len() || b.sent.last().is_some_and(|r| r.is_err()),
                                "upstream-dropped", "the upstream of the open body {} was dropped", b.id),
                        }
                    }
                }
                PumpOp::End(s) => {
                    let k = pick(&bodies, *s);
                    bodies[k].tx = None;
                }
                PumpOp::Read(s) => {
                    let k = pick(&bodies, *s);
                    let b = &mut bodies[k];
                    let mut t = b.reading.take().unwrap_or_else(|| {
                        let (m, id) = (m.clone(), b.id);
                        Task::new(async move { m.read_chunk(id).await })
                    });
                    match t.poll() {
                        Some(r) => b.result(r)?,
                        None => b.reading = Some(t),
                    }
                }
                PumpOp::Run => run_tasks().await,
                PumpOp::Close(s) => {
                    let k = pick(&bodies, *s);
                    m.close_stream(bodies[k].id);
                    bodies[k].gone = true;
                }
                PumpOp::Clear => {
                    m.clear();
                    for b in &mut bodies {
                        b.gone = true;
                    }
                }
            }
            for b in &bodies {
                if let Some(tx) = b.tx.as_ref().filter(|tx| !tx.is_closed()) {
                    let pulled = b.sent.len() - (b.cap - tx.capacity());
                    check!(pulled <= b.got + c.hwm + 1 + b.reading.is_some() as usize, "read-ahead",
                        "body {}: {pulled} chunks taken from the client with {} consumed and a limit of {}", b.id, b.got, c.hwm);
                }
            }
        }
        // Then every body that is still open is read to the end.
        for k in 0..bodies.len() {
            for _ in 0..bodies[k].sent.len() + 3 {
                if bodies[k].gone || bodies[k].finished {
                    break;
                }
                let b = &mut bodies[k];
                b.tx = None;
                let (m2, id) = (m.clone(), b.id);
                let mut t = b.reading.take().unwrap_or_else(|| Task::new(async move { m2.read_chunk(id).await }));
                let mut r = t.poll();
                if r.is_none() {
                    run_tasks().await;
                    r = t.poll();
                }
                match r {
                    Some(r) => b.result(r)?,
                    None => fail!("stuck", "body {}: upstream has finished, {} of {} chunks were read, and a read never returns",
                        b.id, b.got, b.sent.len()),
                }
            }
            let b = &bodies[k];
            check!(b.gone || (b.finished && b.got == b.visible()), "lost", "body {}: {} of {} chunks came out", b.id, b.got, b.visible());
        }
        // The consumer has gone away: the pump must let go of the client.
        for b in &mut bodies {
            if let (true, Some(tx)) = (b.gone, b.tx.take()) {
                b.reading = None;
                for _ in 0..c.hwm + 3 {
                    run_tasks().await;
                    let _ = tx.try_send(Ok(Bytes::from_static(b"late")));
                }
                run_tasks().await;
                check!(tx.is_closed(), "pump-stays", "body {} was closed, and its pump still takes chunks from the client", b.id);
            }
        }
        Ok(())
    })
}

pub fn pump(ctx: &Ctx) {
    let nontrivial = |c: &PumpCase| {
        let n = |f: fn(&PumpOp) -> bool| c.ops.iter().filter(|o| f(o)).count();
        n(|o| matches!(o, PumpOp::Send(..))) >= 3 && n(|o| matches!(o, PumpOp::Read(_))) >= 2 && n(|o| matches!(o, PumpOp::Run)) >= 1
    };
    ctx.part("pump", 15000, pump_case(50), nontrivial, |c| run_pump(c));
    ctx.part("pump-long", 1500, pump_case(250), nontrivial, |c| run_pump(c));
}

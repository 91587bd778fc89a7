//! C19: the sizes that values report, against what the allocator says they hold.
use crate::iso;
use openworkers_runtime_v8::DeriveGcTraceable;
use openworkers_runtime_v8::gc::{GcTraceable, JsLock, Tracked, tracked_guard};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, Ordering};
use vcommon::proptest::prelude::*;
use vcommon::{Ctx, Res, check};

/// The system's allocator, which counts what the thread holds.
pub struct Counting;
thread_local! { static HELD: Cell<i64> = const { Cell::new(0) }; }
fn count(n: i64) {
    let _ = HELD.try_with(|h| h.set(h.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}
fn held() -> i64 {
    HELD.with(|h| h.get())
}

/// What to build: `n` and `cap` of buffers, and what is inside of what.
#[derive(Debug, Clone, Serialize, Deserialize, Hash, PartialEq)]
struct B {
    len: u16,
    spare: u16,
}
impl B {
    fn vec(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.len as usize + self.spare as usize);
        v.resize(self.len as usize, 7);
        v
    }
    fn string(&self) -> String {
        String::from_utf8(self.vec()).unwrap()
    }
}

#[derive(DeriveGcTraceable, Debug)]
struct Named {
    #[gc(track)]
    a: Vec<u8>,
    #[gc(track)]
    b: Option<String>,
    ignored: Vec<u8>,
    _n: u64,
    #[gc(track)]
    c: Vec<String>,
}
#[derive(DeriveGcTraceable, Debug)]
struct Pair(#[gc(track)] Box<Named>, Vec<u8>, #[gc(track)] Option<Box<Vec<u8>>>);
#[derive(DeriveGcTraceable, Debug)]
struct Unit;
#[derive(DeriveGcTraceable, Debug)]
struct Generic<T: GcTraceable> {
    #[gc(track)]
    items: Vec<T>,
    #[gc(track)]
    one: Option<T>,
}
#[derive(DeriveGcTraceable, Debug)]
struct Shared {
    #[gc(track)]
    rc: Rc<Named>,
    #[gc(track)]
    arc: Arc<Vec<u8>>,
    #[gc(track)]
    unit: Unit,
}
/// A trait of the same name elsewhere: `crate_path` says which one is meant.
mod elsewhere {
    pub trait GcTraceable {
        fn external_memory_size(&self) -> usize;
    }
    impl GcTraceable for Vec<u8> {
        fn external_memory_size(&self) -> usize {
            1_000_000 + self.len()
        }
    }
}
/// Whether a type has the trait of `elsewhere`, and what that one says.
struct There<'a, T>(&'a T);
trait NotThere {
    fn there(&self) -> Option<usize> {
        None
    }
}
impl<T> NotThere for &There<'_, T> {}
impl<T: elsewhere::GcTraceable> There<'_, T> {
    fn there(&self) -> Option<usize> {
        Some(self.0.external_memory_size())
    }
}
struct Here<'a, T>(&'a T);
trait NotHere {
    fn here(&self) -> Option<usize> {
        None
    }
}
impl<T> NotHere for &Here<'_, T> {}
impl<T: GcTraceable> Here<'_, T> {
    fn here(&self) -> Option<usize> {
        Some(self.0.external_memory_size())
    }
}

/// Documented.
#[derive(DeriveGcTraceable, Debug)]
#[allow(dead_code)]
#[gc(crate_path = "crate::sizes::elsewhere")]
#[allow(unused)]
struct Else {
    _a: Vec<u8>,
    #[doc = "tracked"]
    #[gc(track)]
    #[allow(unused)]
    b: Vec<u8>,
}
#[derive(DeriveGcTraceable, Debug)]
#[allow(dead_code)]
struct Annotated<'a, const N: usize, T>
where
    T: GcTraceable + Clone,
{
    /// Not tracked, though this says gc(track).
    _x: Vec<u8>,
    #[allow(unused)]
    /// Tracked.
    #[gc(track)]
    y: Vec<u8>,
    _r: &'a str,
    #[gc(track)]
    #[allow(unused)]
    z: T,
    _n: [u8; N],
}
#[derive(DeriveGcTraceable, Debug)]
#[gc(crate_path = "openworkers_runtime_v8::gc")]
struct None_ {
    _x: Vec<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Hash, PartialEq)]
struct NamedB {
    a: B,
    b: Option<B>,
    ignored: B,
    c: Vec<B>,
    spare: u8,
}
impl NamedB {
    fn build(&self) -> Named {
        let mut c = Vec::with_capacity(self.c.len() + self.spare as usize);
        c.extend(self.c.iter().map(B::string));
        Named { a: self.a.vec(), b: self.b.as_ref().map(B::string), ignored: self.ignored.vec(), _n: 1, c }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Case {
    Bytes(B),
    Text(B),
    Named(NamedB),
    Pair(NamedB, B, Option<B>),
    GenericNamed(Vec<NamedB>, Option<NamedB>, u8),
    Nested(Vec<Vec<B>>, u8),
    Boxes(Vec<Option<B>>),
    Shared(NamedB, B, u8, u8),
    Slices(B, u16, u16),
}

fn b() -> impl Strategy<Value = B> {
    (prop_oneof![Just(0u16), 1u16..200, 200u16..4000], prop_oneof![2 => Just(0u16), 1 => 1u16..3000]).prop_map(|(len, spare)| B { len, spare })
}
fn named() -> impl Strategy<Value = NamedB> {
    (b(), prop::option::of(b()), b(), prop::collection::vec(b(), 0..5), 0u8..5).prop_map(|(a, b, ignored, c, spare)| NamedB { a, b, ignored, c, spare })
}
fn case() -> impl Strategy<Value = Case> {
    prop_oneof![
        1 => b().prop_map(Case::Bytes),
        1 => b().prop_map(Case::Text),
        3 => named().prop_map(Case::Named),
        3 => (named(), b(), prop::option::of(b())).prop_map(|(n, x, o)| Case::Pair(n, x, o)),
        3 => (prop::collection::vec(named(), 0..4), prop::option::of(named()), 0u8..4).prop_map(|(v, o, s)| Case::GenericNamed(v, o, s)),
        3 => (prop::collection::vec(prop::collection::vec(b(), 0..4), 0..4), 0u8..4).prop_map(|(v, s)| Case::Nested(v, s)),
        2 => prop::collection::vec(prop::option::of(b()), 0..6).prop_map(Case::Boxes),
        3 => (named(), b(), 0u8..4, 0u8..4).prop_map(|(n, x, r, a)| Case::Shared(n, x, r, a)),
        2 => (b(), any::<u16>(), any::<u16>()).prop_map(|(x, i, j)| Case::Slices(x, i, j)),
    ]
}

/// Builds a value and compares what it reports with what it made the allocator hold, less `untracked`.
fn measure<T: GcTraceable>(what: &str, build: impl FnOnce() -> T, untracked: impl FnOnce(&T) -> i64) -> Res {
    let before = held();
    let v = build();
    let holds = held() - before;
    let says = v.external_memory_size() as i64;
    let want = holds - untracked(&v);
    check!(says == want, "size", "{what}: it says {says} bytes and holds {want}");
    let g = tracked_guard(&v);
    check!(g.amount() == want, "guard", "{what}: its guard counts {} of {want}", g.amount());
    drop(g);
    let t = Tracked::new(v);
    check!(t.external_memory_size() as i64 == want, "tracked", "{what}: tracked, it says {}", t.external_memory_size());
    let v = t.into_inner();
    check!(v.external_memory_size() as i64 == want, "tracked", "{what}: after into_inner it says {}", v.external_memory_size());
    Ok(())
}

fn run(c: &Case) -> Res {
    let ign = |n: &Named| n.ignored.capacity() as i64;
    match c {
        Case::Bytes(x) => measure("Vec<u8>", || x.vec(), |_| 0),
        Case::Text(x) => measure("String", || x.string(), |_| 0),
        Case::Named(x) => measure("struct", || x.build(), ign),
        Case::Pair(n, x, o) => measure("tuple struct", || Pair(Box::new(n.build()), x.vec(), o.as_ref().map(|o| Box::new(o.vec()))), |p| ign(&p.0) + p.1.capacity() as i64),
        Case::GenericNamed(v, o, s) => measure("generic struct", || {
            let mut items = Vec::with_capacity(v.len() + *s as usize);
            items.extend(v.iter().map(NamedB::build));
            Generic { items, one: o.as_ref().map(NamedB::build) }
        }, |g| g.items.iter().chain(&g.one).map(ign).sum()),
        Case::Nested(v, s) => measure("Vec<Vec<String>>", || {
            let mut out: Vec<Vec<String>> = Vec::with_capacity(v.len() + *s as usize);
            out.extend(v.iter().map(|w| w.iter().map(B::string).collect::<Vec<_>>()));
            out
        }, |_| 0),
        Case::Boxes(v) => measure("Vec<Option<Box<Vec<u8>>>>", || v.iter().map(|o| o.as_ref().map(|b| Box::new(b.vec()))).collect::<Vec<_>>(), |_| 0),
        Case::Shared(n, x, r, a) => {
            measure("unit struct", || Unit, |_| 0)?;
            let e = Else { _a: x.vec(), b: x.vec() };
            let (here, there) = ((&Here(&e)).here(), (&There(&e)).there());
            check!(here.is_none() && there == Some(1_000_000 + e.b.len()), "crate-path", "a struct with a crate_path has the trait there with {there:?}, and the usual one with {here:?}");
            measure("struct with annotations", || Annotated::<3, Vec<u8>> { _x: x.vec(), y: x.vec(), _r: "r", z: x.vec(), _n: [1; 3] }, |v| v._x.capacity() as i64)?;
            measure("struct without tracked fields", || None_ { _x: x.vec() }, |v| v._x.capacity() as i64)?;
            let s = Shared { rc: Rc::new(n.build()), arc: Arc::new(x.vec()), unit: Unit };
            let named = n.build();
            let rc_size = size_of::<Named>() as i64 + named.external_memory_size() as i64;
            let arc_size = size_of::<Vec<u8>>() as i64 + s.arc.capacity() as i64;
            let mut rcs: Vec<_> = (0..*r).map(|_| s.rc.clone()).collect();
            let mut arcs: Vec<_> = (0..*a).map(|_| s.arc.clone()).collect();
            loop {
                let want = if rcs.is_empty() { rc_size } else { 0 } + if arcs.is_empty() { arc_size } else { 0 };
                let says = s.external_memory_size() as i64;
                check!(says == want, "shared", "a value with {} and {} other owners says {says} bytes, not {want}", rcs.len(), arcs.len());
                if rcs.pop().is_none() & arcs.pop().is_none() {
                    return Ok(());
                }
            }
        }
        Case::Slices(x, i, j) => {
            let all = bytes::Bytes::from(x.vec());
            let (i, j) = ((*i as usize) % (all.len() + 1), (*j as usize) % (all.len() + 1));
            let part = all.slice(i.min(j)..i.max(j));
            check!(part.external_memory_size() == part.len() && all.external_memory_size() == all.len(), "bytes", "Bytes of {} says {}", part.len(), part.external_memory_size());
            let v = vec![all.clone(), part.clone()];
            check!(v.external_memory_size() == v.capacity() * size_of::<bytes::Bytes>() + all.len() + part.len(), "bytes", "Vec<Bytes> says {}", v.external_memory_size());
            Ok(())
        }
    }
}

// ---- a tracked value over its life, as V8 counts it ----
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Edit {
    PushItem(NamedB),
    PopItem,
    One(Option<NamedB>),
    Grow(u8, u16),
    Shrink(u8),
    Clear,
    Update,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Life {
    edits: Vec<Edit>,
    locked: bool,
}
fn life() -> impl Strategy<Value = Life> {
    let e = prop_oneof![
        3 => named().prop_map(Edit::PushItem), 1 => Just(Edit::PopItem), 1 => prop::option::of(named()).prop_map(Edit::One),
        2 => (any::<u8>(), 0u16..5000).prop_map(|(i, n)| Edit::Grow(i, n)), 1 => any::<u8>().prop_map(Edit::Shrink),
        1 => Just(Edit::Clear), 4 => Just(Edit::Update)];
    (prop::collection::vec(e, 1..25), any::<bool>()).prop_map(|(edits, locked)| Life { edits, locked })
}

fn run_life(c: &Life) -> Res {
    thread_local! { static ISO: std::cell::RefCell<Option<Box<v8::UnenteredIsolate>>> = const { std::cell::RefCell::new(None) }; }
    ISO.with(|i| {
        let mut i = i.borrow_mut();
        let iso = i.get_or_insert_with(|| { iso::init(); Box::new(v8::Isolate::new_unentered(Default::default())) });
        let pending = Arc::new(AtomicI64::new(0));
        let mut locker = v8::Locker::new(iso);
        let js = JsLock::new(&mut locker, &pending);
        let base = locker.adjust_amount_of_external_allocated_memory(0);
        let before = held();
        let mut t = Tracked::new(Generic::<Named> { items: vec![], one: None });
        let mut synced = 0;
        let mut edit = |t: &mut Tracked<Generic<Named>>, e: &Edit| {
            let g = t.get_mut();
            match e {
                Edit::PushItem(n) => g.items.push(n.build()),
                Edit::PopItem => drop(g.items.pop()),
                Edit::One(o) => g.one = o.as_ref().map(NamedB::build),
                Edit::Grow(i, n) => if let Some(k) = (!g.items.is_empty()).then(|| *i as usize % g.items.len()) { g.items[k].a.reserve(*n as usize) },
                Edit::Shrink(i) => if let Some(k) = (!g.items.is_empty()).then(|| *i as usize % g.items.len()) { g.items[k].a = vec![] },
                Edit::Clear => { g.items.clear(); g.items.shrink_to_fit() }
                Edit::Update => t.update_size(),
            }
        };
        let mut r = Ok(());
        for e in &c.edits {
            edit(&mut t, e);
            let now = locker.adjust_amount_of_external_allocated_memory(0) - base;
            if let Edit::Update = e {
                // Named's ignored fields are held and not counted.
                let ignored: i64 = t.get().items.iter().chain(&t.get().one).map(|n| n.ignored.capacity() as i64).sum();
                synced = held() - before - ignored;
            }
            if now != synced {
                r = (|| { vcommon::fail!("tracked-life", "after {e:?} of {:?} V8 counts {now} bytes of the tracked value, not {synced}", c.edits) })();
                break;
            }
        }
        if c.locked { drop(t) } else { drop(t.into_inner()) }
        let left = locker.adjust_amount_of_external_allocated_memory(0) - base + pending.load(Ordering::SeqCst);
        if left != 0 {
            locker.adjust_amount_of_external_allocated_memory(-left);
        }
        drop(js);
        r?;
        check!(left == 0, "tracked-left", "the tracked value is gone and {left} bytes of it are still counted");
        Ok(())
    })
}

pub fn check_sizes(ctx: &Ctx) {
    ctx.part("sizes", 30000, case(), |c| match c { Case::Bytes(_) | Case::Text(_) => false, _ => true }, run);
    ctx.part("life", 15000, life(), |c: &Life| c.edits.iter().filter(|e| matches!(e, Edit::Update)).count() > 1, run_life);
}

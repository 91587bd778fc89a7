//! Drives generated cases against an oracle, shrinks failures, and reports what was covered.
//!
//! A property is a list of parts. Each part has a proptest strategy over a serialisable case
//! type and a test function `case -> Result<(), Fail>`. The run is a function of the code and
//! VERIF_SEED: every part has its own generator, seeded with (seed, property, part).

use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub use proptest;
pub use serde;
pub use serde_json;

/// A violated oracle. `sig` names what is violated (stable across inputs of the same kind);
/// known findings are matched on it.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::Fail::new($sig, format!($($a)*))) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { $crate::fail!($sig, $($a)*) } };
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    /// Factor on the number of cases of each part.
    pub scale: f64,
    known: Vec<(String, String)>, // (sig, what)
    replay: Option<(String, Value)>,
    only: Option<String>,
    cur: RefCell<Option<std::fs::File>>,
    out: String,
    parts: RefCell<Vec<Value>>,
    samples: RefCell<Vec<Value>>,
    violations: RefCell<Vec<Value>>,
    known_hits: RefCell<BTreeMap<String, u64>>,
    evals: Cell<u64>,
    distinct: Cell<u64>,
    labels: RefCell<BTreeMap<String, u64>>,
    replayed: Cell<bool>,
    shrinking: Cell<bool>,
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// The source file of the last panic: a panic of the harness itself is not a violation.
static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

impl Ctx {
    pub fn from_env() -> Ctx {
        let var = |n: &str| std::env::var(n).unwrap_or_default();
        let replay = match var("VERIF_REPLAY") {
            p if p.is_empty() => None,
            p => {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
                Some((v["part"].as_str().unwrap().to_string(), v["case"].clone()))
            }
        };
        let known = serde_json::from_str::<Vec<(String, String)>>(&var("VERIF_KNOWN")).unwrap_or_default();
        let cur = var("VERIF_CUR");
        let thorough = var("VERIF_TIER") == "thorough";
        let only = Some(var("VERIF_ONLY")).filter(|s| !s.is_empty());
        std::panic::set_hook(Box::new(|i| {
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if std::env::var_os("VERIF_PANICS").is_some() {
                eprintln!("{i}\n{}", std::backtrace::Backtrace::force_capture());
            }
            *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = at;
        }));
        Ctx {
            prop: var("VERIF_PROP"),
            thorough,
            seed: var("VERIF_SEED").parse().unwrap_or(1),
            scale: var("VERIF_SCALE").parse().unwrap_or(if thorough { 12.0 } else { 1.0 }),
            known,
            replay,
            only,
            cur: RefCell::new(if cur.is_empty() { None } else { std::fs::File::create(cur).ok() }),
            out: var("VERIF_OUT"),
            parts: Default::default(),
            samples: Default::default(),
            violations: Default::default(),
            known_hits: Default::default(),
            evals: Cell::new(0),
            distinct: Cell::new(0),
            labels: Default::default(),
            replayed: Cell::new(false),
            shrinking: Cell::new(false),
        }
    }

    /// Counts a class of case or of observed behaviour, for the evidence.
    pub fn label(&self, l: &str) {
        *self.labels.borrow_mut().entry(l.to_string()).or_insert(0) += 1;
    }

    pub fn wants(&self, part: &str) -> bool {
        self.only.as_deref().is_none_or(|o| o == part)
            && self.replay.as_ref().is_none_or(|(p, _)| p == part)
    }

    fn note_cur<C: Serialize>(&self, part: &str, case: &C) {
        if let Some(f) = self.cur.borrow_mut().as_mut() {
            let s = serde_json::to_vec(&json!({"part": part, "case": case})).unwrap();
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(&s);
            let _ = f.set_len(s.len() as u64);
        }
    }

    fn is_known(&self, f: &Fail) -> bool {
        let hit = self.known.iter().any(|(s, _)| *s == f.sig);
        if hit {
            *self.known_hits.borrow_mut().entry(f.sig.clone()).or_insert(0) += 1;
        }
        hit
    }

    fn exec<C: Serialize>(&self, part: &str, case: &C, test: &dyn Fn(&C) -> Res) -> Res {
        self.note_cur(part, case);
        LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clear();
        match catch_unwind(AssertUnwindSafe(|| test(case))) {
            Ok(r) => r,
            Err(p) => {
                let at = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
                let msg = panic_text(p);
                if at.starts_with("src/") || at.contains("/verif/harness") || at.contains("/verif/common") {
                    if self.shrinking.get() {
                        return Ok(()); // not a case the generator makes
                    }
                    // An expectation of the harness about the code failed. If it does so again, the code is to blame.
                    let again = catch_unwind(AssertUnwindSafe(|| test(case)));
                    if matches!(again, Ok(Ok(()))) {
                        eprintln!("HARNESS: {at}: {msg}; part {part} case {}", serde_json::to_string(case).unwrap());
                        self.finish();
                        std::process::exit(72);
                    }
                    return Err(Fail::new(format!("expectation:{part}"), format!("expectation failed at {at}: {msg}")));
                }
                let file = at.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
                Err(Fail::new(format!("panic:{file}"), format!("panicked at {at}: {msg}")))
            }
        }
    }

    /// Runs `cases` (times the scale) generated cases of one part.
    pub fn part<S>(
        &self,
        part: &str,
        cases: u32,
        strategy: S,
        nontrivial: impl Fn(&S::Value) -> bool,
        test: impl Fn(&S::Value) -> Res,
    ) where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone,
    {
        if !self.wants(part) {
            return;
        }
        let t0 = std::time::Instant::now();
        if let Some((_, case)) = &self.replay {
            self.replayed.set(true);
            let case: S::Value = serde_json::from_value(case.clone()).expect("replay file");
            self.evals.set(self.evals.get() + 1);
            if let Err(f) = self.exec(part, &case, &test) {
                if !self.is_known(&f) {
                    self.violation(part, &case, &f);
                }
            }
            return;
        }
        let n = ((cases as f64 * self.scale).ceil() as u32).max(1);
        let mut h = DefaultHasher::new();
        (self.seed, &self.prop, part).hash(&mut h);
        let seed = h.finish();
        let mut bytes = [0u8; 32];
        for (i, b) in bytes.iter_mut().enumerate() {
            *b = (seed.rotate_left(i as u32 * 7) as u8) ^ i as u8;
        }
        let config = Config {
            cases: n,
            failure_persistence: None,
            max_shrink_iters: 3000,
            max_shrink_time: 40_000,
            rng_algorithm: RngAlgorithm::ChaCha,
            max_global_rejects: 65536,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
        let mut runner = TestRunner::new_with_rng(config, rng);
        let seen: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        let nontriv = Cell::new(0u64);
        let evals = Cell::new(0u64);
        let samples: RefCell<Vec<Value>> = RefCell::new(vec![]);
        let first: RefCell<Option<Fail>> = RefCell::new(None);
        let last: RefCell<Option<Fail>> = RefCell::new(None);
        let result = runner.run(&strategy, |case: S::Value| {
            let shrinking = first.borrow().is_some();
            if !shrinking {
                evals.set(evals.get() + 1);
                if nontrivial(&case) {
                    let js = serde_json::to_vec(&case).unwrap();
                    let mut h = DefaultHasher::new();
                    js.hash(&mut h);
                    if seen.borrow_mut().insert(h.finish()) {
                        nontriv.set(nontriv.get() + 1);
                        let k = nontriv.get();
                        if (k == 1 || k == 17 || k == 101) && js.len() < 4000 {
                            samples.borrow_mut().push(serde_json::to_value(&case).unwrap());
                        }
                    }
                }
            }
            match self.exec(part, &case, &test) {
                Ok(()) => Ok(()),
                Err(f) => {
                    if self.is_known(&f) {
                        return Ok(());
                    }
                    if let Some(f0) = first.borrow().as_ref() {
                        if f0.sig != f.sig {
                            return Ok(()); // shrink towards the same failure only
                        }
                    } else {
                        *first.borrow_mut() = Some(f.clone());
                        self.shrinking.set(true);
                    }
                    *last.borrow_mut() = Some(f.clone());
                    Err(TestCaseError::fail(f.msg))
                }
            }
        });
        match result {
            Ok(()) => {}
            Err(TestError::Fail(_, case)) => {
                let f = last.borrow().clone().unwrap();
                let case = self.delete_ops(part, case, &f.sig, &test);
                // The message of the minimal case.
                let f = match self.exec(part, &case, &test) {
                    Err(g) if g.sig == f.sig => g,
                    _ => f,
                };
                self.shrinking.set(false);
                self.violation(part, &case, &f);
            }
            Err(TestError::Abort(r)) => {
                eprintln!("HARNESS: generator gave up in {part}: {r}");
                std::process::exit(72);
            }
        }
        self.evals.set(self.evals.get() + evals.get());
        self.distinct.set(self.distinct.get() + nontriv.get());
        for s in samples.into_inner() {
            self.samples.borrow_mut().push(json!({"part": part, "case": s}));
        }
        self.parts.borrow_mut().push(json!({"part": part, "cases": evals.get(),
            "distinct_nontrivial": nontriv.get(), "wall_s": t0.elapsed().as_secs_f64()}));
        if std::env::var_os("VERIF_VERBOSE").is_some() {
            eprintln!("part {part}: {} cases, {} nontrivial, {:.2}s", evals.get(), nontriv.get(), t0.elapsed().as_secs_f64());
        }
    }

    /// A part whose every case runs in a process of its own: for cases that may end the process.
    pub fn part_in_child<S>(
        &self,
        part: &str,
        cases: u32,
        strategy: S,
        nontrivial: impl Fn(&S::Value) -> bool,
        crash_sig: &str,
        test: impl Fn(&S::Value) -> Res,
    ) where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone,
    {
        if std::env::var_os("VERIF_CHILD").is_some() {
            return self.part(part, cases, strategy, nontrivial, test);
        }
        self.part(part, cases, strategy, nontrivial, |case| self.in_child(part, case, crash_sig));
    }

    fn in_child<C: Serialize>(&self, part: &str, case: &C, crash_sig: &str) -> Res {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let base = format!("{}.child{n}", self.out);
        let (inp, out, err) = (format!("{base}.in"), format!("{base}.out"), format!("{base}.err"));
        std::fs::write(&inp, serde_json::to_vec(&json!({"part": part, "case": case})).unwrap()).unwrap();
        let host = std::env::args().nth(1).expect("HARNESS: no host script");
        let status = std::process::Command::new("/proc/self/exe")
            .arg(host)
            .env("VERIF_CHILD", "1")
            .env("VERIF_REPLAY", &inp)
            .env("VERIF_OUT", &out)
            .env("VERIF_CUR", "")
            .env("VERIF_KNOWN", "[]")
            .stderr(std::fs::File::create(&err).unwrap())
            .status()
            .unwrap();
        let res = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok());
        let text = String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).into_owned();
        for f in [&inp, &out, &err] {
            let _ = std::fs::remove_file(f);
        }
        if matches!(status.code(), Some(70..=72)) {
            eprintln!("HARNESS: in a child: {text}");
            std::process::exit(72);
        }
        if let Some(v) = res.as_ref().and_then(|r| r["violations"].get(0)) {
            return Err(Fail::new(v["sig"].as_str().unwrap(), v["msg"].as_str().unwrap()));
        }
        if !status.success() {
            let why = text.lines().find(|l| l.contains("FATAL") || l.contains("Fatal") || l.contains("panicked")).unwrap_or("");
            return Err(Fail::new(crash_sig, format!("the process is ended by this case ({status}) {why}")));
        }
        Ok(())
    }

    /// After proptest's shrinking: deletes elements of the arrays named `ops` as long as the same
    /// oracle fails.
    fn delete_ops<C: Serialize + DeserializeOwned>(&self, part: &str, case: C, sig: &str, test: &dyn Fn(&C) -> Res) -> C {
        let Ok(mut best) = serde_json::to_value(&case) else { return case };
        let t0 = std::time::Instant::now();
        let (mut changed, mut any) = (true, false);
        while changed && t0.elapsed().as_secs() < 20 {
            changed = false;
            let mut i = best["ops"].as_array().map(|a| a.len()).unwrap_or(0);
            while i > 0 && t0.elapsed().as_secs() < 20 {
                i -= 1;
                let mut v = best.clone();
                v["ops"].as_array_mut().unwrap().remove(i);
                if let Ok(c) = serde_json::from_value::<C>(v.clone()) {
                    if matches!(self.exec(part, &c, test), Err(f) if f.sig == sig) {
                        best = v;
                        (changed, any) = (true, true);
                    }
                }
            }
        }
        if any { serde_json::from_value(best).unwrap_or(case) } else { case }
    }

    pub fn violation<C: Serialize>(&self, part: &str, case: &C, f: &Fail) {
        self.violations.borrow_mut().push(json!({"part": part, "case": case, "sig": f.sig, "msg": f.msg}));
    }

    pub fn finish(&self) {
        let v = json!({
            "evaluations": self.evals.get(),
            "distinct_nontrivial": self.distinct.get(),
            "parts": *self.parts.borrow(),
            "labels": *self.labels.borrow(),
            "samples": *self.samples.borrow(),
            "violations": *self.violations.borrow(),
            "known_hits": *self.known_hits.borrow(),
            "replayed": self.replayed.get(),
        });
        std::fs::write(&self.out, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
    }
}

/// Bytes that serialise compactly (a string of hex) in samples and replay files.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Hex(pub Vec<u8>);
impl Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", hex(&self.0))
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
impl Serialize for Hex {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> serde::Deserialize<'de> for Hex {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Ok(Hex((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()))
    }
}

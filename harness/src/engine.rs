//! Case generation, shrinking, counting, replay and reporting shared by all checks.

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, FailurePersistence, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{json, Value};

/// Bytes, shown and stored as hex.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct B(pub Vec<u8>);

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok())
        .collect()
}

impl Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "x\"{}\"", hex(&self.0))
    }
}
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s).map(B).ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}
impl std::ops::Deref for B {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl From<Vec<u8>> for B {
    fn from(v: Vec<u8>) -> Self {
        B(v)
    }
}

/// What a single case observed.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    labels: Vec<String>,
    known: Vec<String>,
}

impl Obs {
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    /// The case showed a defect with this signature, which the known-findings file may list.
    pub fn finding(&mut self, sig: &str) {
        self.known.push(sig.to_owned());
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub sub: String,
    pub reason: String,
    pub case: Value,
}

pub struct Cx {
    pub prop: String,
    pub backend: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<(String, Value)>,
    pub listed: HashSet<String>,
    pub scale: f64,
    pub repo: String,
    /// where the report goes
    pub out: Option<String>,
    /// a single case that takes longer than this is a hang of the code under test
    pub case_limit: Duration,
    stats: Mutex<Stats>,
    rules: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    replayed: AtomicBool,
    started: Instant,
    /// since when, why, with what
    failing: Mutex<Option<(Instant, String, Value)>>,
}

pub const SHARDS: u32 = 8;
/// What the quick tier spends on one back end at the most.
const QUICK_BUDGET: Duration = Duration::from_secs(240);
/// After so long, a failure is reported as far as it has been shrunk.
const SHRINK_LIMIT: Duration = Duration::from_secs(75);

/// Where a sweep draws the context of its points from.
pub struct Dice {
    mix: crate::net::Mix,
    /// the plainest choice everywhere
    plain: bool,
}

impl Dice {
    pub fn below(&mut self, n: usize) -> usize {
        if self.plain { 0 } else { self.mix.below(n) }
    }
    /// One time in eight a literal of the code under test.
    fn literal(&mut self) -> Option<u64> {
        if !self.plain && self.mix.below(8) == 7 { Some(self.mix.next()) } else { None }
    }
    pub fn u8(&mut self) -> u8 {
        match self.literal() {
            Some(x) => crate::lits::within(x, 0, 255).unwrap_or(0) as u8,
            None => self.below(256) as u8,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.literal() {
            Some(x) => crate::lits::int(x) as u32,
            None if self.plain => 1,
            None => self.mix.next() as u32,
        }
    }
    pub fn pick<T: Copy>(&mut self, l: &[T]) -> T {
        l[self.below(l.len())]
    }
    pub fn bytes(&mut self, n: usize) -> B {
        if self.plain {
            return B(vec![b'a'; n]);
        }
        // of random octets, or of one of the particular kinds
        let (kind, x) = (self.below(256) as u8, self.below(256) as u8);
        let mut b: Vec<u8> = (0..n).map(|_| self.below(256) as u8).collect();
        if let Some(x) = self.literal() {
            crate::lits::salt(&mut b, x);
        } else if kind >= 96 {
            crate::gen::flavour(&mut b, kind, x);
        }
        B(b)
    }
    /// A secret of 1 to 24 octets.
    pub fn secret(&mut self) -> B {
        let n = 1 + self.below(24);
        self.bytes(n)
    }
    pub fn text(&mut self, n: usize) -> String {
        let wide = self.below(3) == 2;
        let mut s = String::new();
        while s.len() < n {
            let c = if wide { ['é', 'ß', '水', '😀', ' ', '\0', 'a'][self.below(7)] } else { (b' ' + if self.plain { 65 } else { self.u8() % 95 }) as char };
            s.push(if s.len() + c.len_utf8() <= n { c } else { 'x' });
        }
        s
    }
}

/// No case comes near this: code that allocates without end is stopped here and reported.
const MEMORY_LIMIT: u64 = 8 << 30;

/// Bytes of memory this process has resident.
fn resident() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok())
        .unwrap_or(0)
        * 4096
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Panics that happen while this is positive on any thread are expected (injected handler panics).
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_owned());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    std::process::exit(3);
}

/// Runs code under test; a panic inside it becomes an error. A panic raised by the harness's own code is an
/// error of the check, not of the code under test.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                harness_error(&format!("panic in the harness at {loc}: {msg}"));
            }
            Err(format!("panicked at {loc}: {msg}"))
        }
    }
}

/// A worker that panics outside the code under test would otherwise leave the others waiting for it.
struct Ends(&'static str);

impl Drop for Ends {
    fn drop(&mut self) {
        if std::thread::panicking() {
            harness_error(&format!("a worker of a {} panicked", self.0));
        }
    }
}

fn seed_bytes(parts: &[&str], seed: u64, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = DefaultHasher::new();
        (parts, seed, shard, i).hash(&mut h);
        out[(i as usize) * 8..(i as usize + 1) * 8].copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

impl Cx {
    pub fn new(
        prop: &str,
        backend: &'static str,
        seed: u64,
        thorough: bool,
        replay: Option<(String, Value)>,
        listed: HashSet<String>,
        scale: f64,
    ) -> Self {
        Cx {
            prop: prop.to_owned(),
            backend,
            seed,
            thorough,
            replay,
            listed,
            scale,
            repo: "/repo".to_owned(),
            out: None,
            // (the cases of C31 wait for each other)
            case_limit: Duration::from_secs(if prop == "C31" { 400 } else { 60 }),
            stats: Default::default(),
            rules: Default::default(),
            violations: Default::default(),
            replayed: AtomicBool::new(false),
            started: Instant::now(),
            failing: Default::default(),
        }
    }

    /// Number of cases: `quick` in the quick tier, `thorough` in the thorough tier.
    pub fn n(&self, quick: u32, thorough: u32) -> u32 {
        // (the costly ones stay at what they ask for)
        let boost = match &self.prop[..] {
            "C21" | "C24" | "C31" => 1.0,
            "C01" | "C02" | "C12" | "C17" | "C18" | "C20" | "C23" | "C30" => 2.0,
            _ => 3.0,
        };
        let n = if self.thorough { thorough as f64 } else { quick as f64 * boost } * self.scale;
        (n as u32).max(SHARDS)
    }

    pub fn rule(&self, r: &str) {
        self.rules.lock().unwrap().push(r.to_owned());
    }

    pub fn violate(&self, sub: &str, reason: String, case: Value) {
        self.violations.lock().unwrap().push(Violation {
            sub: sub.to_owned(),
            reason,
            case,
        });
    }

    pub fn has_violations(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }

    /// A failure as it is before it is shrunk (or as far as it has been).
    fn fails(&self, reason: &str, case: &Value) {
        let mut f = self.failing.lock().unwrap();
        let since = f.as_ref().map_or_else(Instant::now, |f| f.0);
        *f = Some((since, reason.to_owned(), case.clone()));
    }

    /// Whether the time is up for further cases. (Code that makes every case slow must not keep the check from an answer.)
    fn late(&self) -> bool {
        !self.thorough && self.replay.is_none() && self.started.elapsed() > QUICK_BUDGET
    }

    /// True when `sub` should run: unless replaying another sub-check, or when one has failed.
    pub fn wants(&self, sub: &str) -> bool {
        match &self.replay {
            None => !self.has_violations(),
            Some((s, _)) => s == sub,
        }
    }

    /// Records one evaluated case outside `drive` (exhaustive or custom loops).
    pub fn record<C: Serialize>(&self, case: &C, obs: Obs) -> Result<(), String> {
        let v = serde_json::to_value(case).unwrap_or(Value::Null);
        self.record_value(&v, obs)
    }

    /// Counts an evaluation that happened inside a recorded case.
    pub fn count(&self, label: &str) {
        let mut st = self.stats.lock().unwrap();
        st.evaluations += 1;
        *st.labels.entry(label.to_owned()).or_default() += 1;
    }

    fn record_value(&self, v: &Value, obs: Obs) -> Result<(), String> {
        let mut st = self.stats.lock().unwrap();
        st.evaluations += 1;
        if obs.nontrivial {
            let mut h = DefaultHasher::new();
            v.to_string().hash(&mut h);
            let fresh = st.distinct.insert(h.finish());
            if fresh && st.samples.len() < 6 {
                st.samples.push(clip(v));
            }
        }
        for l in obs.labels {
            *st.labels.entry(l).or_default() += 1;
        }
        for k in obs.known {
            if !self.listed.contains(&k) {
                return Err(format!("unlisted finding: {k}"));
            }
            *st.known.entry(k).or_default() += 1;
        }
        Ok(())
    }

    /// Generated-input search: `cases` cases from `strat`, checked by `check`, shrunk on failure.
    pub fn drive<C, S, F, M>(&self, sub: &str, cases: u32, strat: M, check: F)
    where
        C: Serialize + DeserializeOwned + Debug,
        S: Strategy<Value = C>,
        M: Fn() -> S + Sync,
        F: Fn(&C, &mut Obs) -> Result<(), String> + Sync,
    {
        self.drive_opts(sub, cases, 4096, strat, check)
    }

    pub fn drive_opts<C, S, F, M>(
        &self,
        sub: &str,
        cases: u32,
        max_shrink: u32,
        strat: M,
        check: F,
    ) where
        C: Serialize + DeserializeOwned + Debug,
        S: Strategy<Value = C>,
        M: Fn() -> S + Sync,
        F: Fn(&C, &mut Obs) -> Result<(), String> + Sync,
    {
        if !self.wants(sub) {
            return;
        }
        let one = |c: &C, obs: &mut Obs| -> Result<(), String> {
            match guard(|| crate::clock::apart(|| check(c, obs))) {
                Ok(r) => r,
                Err(p) => Err(p),
            }
        };
        if let Some((_, v)) = &self.replay {
            self.replayed.store(true, Ordering::SeqCst);
            let c: C = match serde_json::from_value(v.clone()) {
                Ok(c) => c,
                Err(e) => harness_error(&format!("bad replay file: {e}")),
            };
            let mut obs = Obs::default();
            let mut r = one(&c, &mut obs);
            if r.is_ok() {
                r = self.record(&c, obs);
            }
            if let Err(e) = r {
                self.violate(sub, e, v.clone());
            }
            return;
        }
        let stop = Arc::new(AtomicBool::new(false));
        type Slot = Mutex<Option<(Instant, Value)>>;
        let slots: Vec<Slot> = (0..SHARDS).map(|_| Mutex::new(None)).collect();
        let slots = &slots;
        let running = &std::sync::atomic::AtomicU32::new(SHARDS.min(cases));
        std::thread::scope(|scope| {
            scope.spawn(move || {
                while running.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    if resident() > MEMORY_LIMIT {
                        // the case that has run for longest is the one that does not end
                        let oldest = slots.iter().filter_map(|s| s.lock().unwrap().clone()).min_by_key(|(t, _)| *t);
                        if let Some((_, v)) = oldest {
                            let e = format!("the process grew beyond {} MB", MEMORY_LIMIT >> 20);
                            self.violate(sub, e, v);
                            self.finish();
                        }
                    }
                    for s in slots {
                        let g = s.lock().unwrap();
                        if let Some((t, v)) = &*g {
                            if t.elapsed() > self.case_limit {
                                self.violate(sub, format!("no result within {:?}", self.case_limit), v.clone());
                                self.finish();
                            }
                        }
                    }
                    let shrinking = self.failing.lock().unwrap().clone();
                    if let Some((_, reason, case)) = shrinking.filter(|(since, ..)| since.elapsed() > SHRINK_LIMIT) {
                        // as small as it got
                        self.violate(sub, reason, case);
                        self.finish();
                    }
                }
            });
            for shard in 0..SHARDS {
                let stop = stop.clone();
                let strat = &strat;
                let one = &one;
                let n = cases / SHARDS + u32::from(shard < cases % SHARDS);
                if n == 0 {
                    continue;
                }
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        let _end = Ends("search");
                        let cfg = Config {
                            cases: n,
                            failure_persistence: None::<Box<dyn FailurePersistence>>,
                            max_shrink_iters: max_shrink,
                            max_global_rejects: 1 << 20,
                            max_shrink_time: 40_000,
                            ..Config::default()
                        };
                        let rng = TestRng::from_seed(
                            RngAlgorithm::ChaCha,
                            &seed_bytes(&[&self.prop, sub], self.seed, shard),
                        );
                        let mut runner = TestRunner::new_with_rng(cfg, rng);
                        let failed = AtomicBool::new(false);
                        let res = runner.run(&strat(), |c| {
                            if (stop.load(Ordering::Relaxed) || self.late()) && !failed.load(Ordering::Relaxed) {
                                return Ok(()); // another shard has already failed
                            }
                            let mut obs = Obs::default();
                            let v = serde_json::to_value(&c).unwrap_or(Value::Null);
                            *slots[shard as usize].lock().unwrap() = Some((Instant::now(), v.clone()));
                            let mut r = one(&c, &mut obs);
                            *slots[shard as usize].lock().unwrap() = None;
                            if r.is_ok() {
                                if failed.load(Ordering::Relaxed) {
                                    if let Some(k) =
                                        obs.known.iter().find(|k| !self.listed.contains(*k))
                                    {
                                        r = Err(format!("unlisted finding: {k}"));
                                    }
                                } else {
                                    r = self.record_value(&v, obs);
                                }
                            }
                            r.map_err(|e| {
                                self.fails(&e, &v);
                                failed.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                                TestCaseError::fail(e)
                            })
                        });
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, c)) => {
                                let v = serde_json::to_value(&c).unwrap_or(Value::Null);
                                self.violate(sub, reason.message().to_owned(), v);
                            }
                            Err(TestError::Abort(reason)) => harness_error(&format!(
                                "generator of {}/{sub} gave up: {}",
                                self.prop,
                                reason.message()
                            )),
                        }
                        running.fetch_sub(1, Ordering::Relaxed);
                    })
                    .unwrap_or_else(|e| harness_error(&format!("cannot spawn a thread: {e}")));
            }
        });
    }

    /// Bounded-exhaustive search: each of the `total` points of a space, in a context drawn anew for each (several
    /// times over in the thorough tier). A failing point is tried again in the plainest context.
    pub fn sweep<C, M, F>(&self, sub: &str, total: u64, rounds: u64, make: M, check: F)
    where
        C: Serialize + DeserializeOwned + Debug,
        M: Fn(u64, &mut Dice) -> C + Sync,
        F: Fn(&C, &mut Obs) -> Result<(), String> + Sync,
    {
        if !self.wants(sub) {
            return;
        }
        if self.replay.is_some() {
            return self.drive(sub, 0, || proptest::strategy::Just(()).prop_map(|()| -> C { unreachable!() }), check);
        }
        let one = |c: &C, obs: &mut Obs| -> Result<(), String> { guard(|| crate::clock::apart(|| check(c, obs))).and_then(|r| r) };
        let total_all = total * if self.thorough { rounds } else { 1 };
        let base = seed_bytes(&[&self.prop, sub], self.seed, 0);
        let dice = |i: u64| Dice {
            mix: crate::net::Mix(u64::from_le_bytes(base[..8].try_into().unwrap_or_default()) ^ i.wrapping_mul(0xd134_2543_de82_ef95)),
            plain: false,
        };
        let worst: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let least = std::sync::atomic::AtomicU64::new(u64::MAX);
        let at: Vec<Mutex<Option<(Instant, u64)>>> = (0..SHARDS).map(|_| Mutex::new(None)).collect();
        let running = std::sync::atomic::AtomicU32::new(SHARDS);
        std::thread::scope(|scope| {
            let (worst, least, at, running, dice, make, one) = (&worst, &least, &at, &running, &dice, &make, &one);
            scope.spawn(move || {
                while running.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(Duration::from_millis(5));
                    let big = resident() > MEMORY_LIMIT;
                    let oldest = at.iter().filter_map(|s| *s.lock().unwrap()).min();
                    if let Some((t, i)) = oldest {
                        if big || t.elapsed() > self.case_limit {
                            let why = if big { format!("the process grew beyond {} MB", MEMORY_LIMIT >> 20) } else { format!("no result within {:?}", self.case_limit) };
                            self.violate(sub, why, serde_json::to_value(make(i % total, &mut dice(i))).unwrap_or(Value::Null));
                            self.finish();
                        }
                    }
                }
            });
            for shard in 0..SHARDS as u64 {
                let work = move || {
                    let _end = Ends("sweep");
                    let mut i = shard;
                    while i < total_all && i < least.load(Ordering::Relaxed) && !self.late() {
                        let c = make(i % total, &mut dice(i));
                        let mut obs = Obs::default();
                        *at[shard as usize].lock().unwrap() = Some((Instant::now(), i));
                        let mut r = one(&c, &mut obs);
                        *at[shard as usize].lock().unwrap() = None;
                        if r.is_ok() {
                            r = self.record(&c, obs);
                        }
                        if let Err(e) = r {
                            let mut w = worst.lock().unwrap();
                            if i < least.fetch_min(i, Ordering::Relaxed) {
                                *w = Some((i, e));
                            }
                        }
                        i += SHARDS as u64;
                    }
                    running.fetch_sub(1, Ordering::Relaxed);
                };
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, work)
                    .unwrap_or_else(|e| harness_error(&format!("cannot spawn a thread: {e}")));
            }
        });
        if let Some((i, e)) = worst.into_inner().unwrap() {
            let mut plain = dice(i);
            plain.plain = true;
            let c = make(i % total, &mut plain);
            let mut obs = Obs::default();
            let (c, e) = match one(&c, &mut obs) {
                Err(e) => (c, e),
                Ok(()) => (make(i % total, &mut dice(i)), e),
            };
            self.violate(sub, e, serde_json::to_value(&c).unwrap_or(Value::Null));
        }
    }

    pub fn report(&self) -> Value {
        if let Some((s, _)) = &self.replay {
            if !self.replayed.load(Ordering::SeqCst) {
                harness_error(&format!("{} has no sub-check {s}", self.prop));
            }
        }
        let st = self.stats.lock().unwrap();
        json!({
            "property": self.prop,
            "backend": self.backend,
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.distinct.len(),
            "labels": st.labels,
            "samples": st.samples,
            "rules": *self.rules.lock().unwrap(),
            "out_of_time": self.late(),
            "known": st.known,
            "violations": self.violations.lock().unwrap().iter().map(|v| json!({
                "sub": v.sub, "reason": v.reason, "case": v.case,
            })).collect::<Vec<_>>(),
        })
    }

    /// Writes the report and ends the process: 0 when everything held, 1 otherwise.
    pub fn finish(&self) -> ! {
        let r = self.report();
        match &self.out {
            Some(f) => std::fs::write(f, r.to_string())
                .unwrap_or_else(|e| harness_error(&format!("{f}: {e}"))),
            None => println!("{}", serde_json::to_string_pretty(&r).unwrap_or_default()),
        }
        std::process::exit(if self.has_violations() { 1 } else { 0 });
    }

    pub fn mark_replayed(&self) {
        self.replayed.store(true, Ordering::SeqCst);
    }
}

fn clip(v: &Value) -> Value {
    match v {
        Value::String(s) if s.len() > 160 => {
            let mut n = 120;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            Value::String(format!("{}.. ({} chars)", &s[..n], s.len()))
        }
        Value::Array(a) if a.len() > 12 => {
            let mut x: Vec<Value> = a[..12].iter().map(clip).collect();
            x.push(json!(format!(".. {} more", a.len() - 12)));
            Value::Array(x)
        }
        Value::Array(a) => Value::Array(a.iter().map(clip).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), clip(v))).collect()),
        _ => v.clone(),
    }
}

/// Fails the case with a message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)*) => {
        if !($c) {
            return Err(format!($($fmt)*));
        }
    };
}

//! Case engine on top of proptest: draws every case from a proptest strategy with a seeded RNG,
//! runs the oracle on it (in parallel), counts what was produced, shrinks the first failure.
use proptest::arbitrary::any;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a passing case was.
#[derive(Default, Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Info {
        Info { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Info {
        if on {
            self.labels.push(l);
        }
        self
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// Exact signature, compared with the known-findings file.
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Fail {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}

pub type Res = Result<Info, Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Fail::new($sig, format!($($arg)*)));
        }
    };
}

pub fn short(b: &[u8]) -> String {
    if b.len() <= 96 {
        hex::encode(b)
    } else {
        format!("{}..({} bytes)", hex::encode(&b[..64]), b.len())
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload(i.payload());
        LAST.with(|l| *l.borrow_mut() = (loc, msg));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into())
}

fn harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/src/")
}

/// Runs code under test that is allowed to refuse by panicking.  A panic raised by the harness
/// itself is passed on (it is an error of the check, not a refusal).
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let (loc, msg) = LAST.with(|l| l.borrow().clone());
            if harness_location(&loc) {
                std::panic::resume_unwind(p);
            }
            Err(format!("{msg} ({loc})"))
        }
    }
}

// ---------------------------------------------------------------- facets

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Profiles {
    Both,
    ReleaseOnly,
}

pub enum Gen<C> {
    Random(Box<dyn Fn() -> BoxedStrategy<C> + Send + Sync>),
    /// the strategy of the i-th case of an enumeration
    Indexed(Box<dyn Fn(u64) -> BoxedStrategy<C> + Send + Sync>),
}

pub struct Facet<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub gen: Gen<C>,
    pub quick: u64,
    pub thorough: u64,
    pub check: fn(&C) -> Res,
    pub profiles: Profiles,
    /// single-threaded, and records the case in flight so that an abort is attributable
    pub isolate: bool,
    /// cases per work unit
    pub chunk: u64,
    /// a case that runs longer than this is a hang
    pub limit: Duration,
    pub exhaustive: bool,
    /// coverage-guided search: executions per worker (quick), largest input
    pub fuzz_runs: u64,
    pub fuzz_len: usize,
    /// how a fuzzer's input becomes a case; without it the bytes are the random choices of `gen`
    pub decode: Option<fn(&[u8]) -> Option<C>>,
    pub seeds: Option<fn() -> Vec<Vec<u8>>>,
}

impl<C> Facet<C>
where
    C: Clone + Debug + Hash + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    pub fn random<S>(name: &'static str, rule: &'static str, quick: u64, s: impl Fn() -> S + Send + Sync + 'static, check: fn(&C) -> Res) -> Facet<C>
    where
        S: Strategy<Value = C> + 'static,
    {
        Facet {
            name,
            rule,
            gen: Gen::Random(Box::new(move || s().boxed())),
            quick,
            thorough: quick * 20,
            check,
            profiles: Profiles::Both,
            isolate: false,
            chunk: 64,
            limit: Duration::from_secs(120),
            exhaustive: false,
            fuzz_runs: 0,
            fuzz_len: 2048,
            decode: None,
            seeds: None,
        }
    }
    /// `n` cases, the i-th drawn from `s(i)`; thorough draws the enumeration 6 times.
    pub fn indexed<S>(name: &'static str, rule: &'static str, n: u64, s: impl Fn(u64) -> S + Send + Sync + 'static, check: fn(&C) -> Res) -> Facet<C>
    where
        S: Strategy<Value = C> + 'static,
    {
        Facet {
            name,
            rule,
            gen: Gen::Indexed(Box::new(move |i| s(i % n).boxed())),
            quick: n,
            thorough: n * 6,
            check,
            profiles: Profiles::Both,
            isolate: false,
            chunk: 64,
            limit: Duration::from_secs(120),
            exhaustive: true,
            fuzz_runs: 0,
            fuzz_len: 2048,
            decode: None,
            seeds: None,
        }
    }
    pub fn thorough(mut self, n: u64) -> Self {
        self.thorough = n;
        self
    }
    pub fn release_only(mut self) -> Self {
        self.profiles = Profiles::ReleaseOnly;
        self
    }
    pub fn isolated(mut self) -> Self {
        self.isolate = true;
        self
    }
    pub fn limit(mut self, secs: u64) -> Self {
        self.limit = Duration::from_secs(secs);
        self
    }
    pub fn chunk(mut self, n: u64) -> Self {
        self.chunk = n;
        self
    }
    /// Also search this facet guided by coverage, with the fuzzer's bytes as the generator's choices.
    pub fn fuzz(mut self, runs: u64) -> Self {
        self.fuzz_runs = runs;
        self
    }
    /// A facet that is only searched guided by coverage: inputs are decoded by `decode`.
    pub fn fuzzed(name: &'static str, rule: &'static str, runs: u64, len: usize, seeds: fn() -> Vec<Vec<u8>>, decode: fn(&[u8]) -> Option<C>, check: fn(&C) -> Res) -> Facet<C> {
        let strat = move || {
            let s = seeds();
            (proptest::sample::select(s), proptest::collection::vec((any::<proptest::sample::Index>(), any::<u8>(), 0u8..4), 0..4)).prop_map(move |(mut b, edits)| {
                for (at, v, k) in edits {
                    if b.is_empty() {
                        b.push(v);
                        continue;
                    }
                    let i = at.index(b.len());
                    match k {
                        0 => b[i] = v,
                        1 => b.insert(i, v),
                        2 => drop(b.remove(i)),
                        _ => b[i] ^= 1 << (v % 8),
                    }
                }
                decode(&b)
            })
        };
        let mut f = Facet::random(name, rule, 1, move || strat().prop_filter_map("decodable", |c| c), check);
        f.quick = (runs / 16).max(1);
        f.thorough = f.quick * 10;
        f.fuzz_runs = runs;
        f.fuzz_len = len;
        f.decode = Some(decode);
        f.seeds = Some(seeds);
        f
    }
    pub fn boxed(self) -> Box<dyn DynFacet> {
        Box::new(self)
    }
}

pub struct Ctx {
    pub seed: u64,
    pub tier: Tier,
    pub release: bool,
    pub known: HashSet<String>,
    pub threads: usize,
    pub inflight: Option<PathBuf>,
    /// run every facet like an isolated one (used to attribute a crash)
    pub isolate_all: bool,
    pub scale: f64,
    /// called when a case does not end; reports and exits
    pub hang: Box<dyn Fn(Violation) + Send + Sync>,
}

#[derive(Serialize, Default)]
pub struct Report {
    pub facet: String,
    pub rule: String,
    pub enumerated: bool,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub wall_s: f64,
    pub known: BTreeMap<String, (u64, String)>,
    pub violation: Option<Violation>,
}

#[derive(Serialize, Clone)]
pub struct Violation {
    pub facet: String,
    pub sig: String,
    pub msg: String,
    pub case: serde_json::Value,
    pub shrink_steps: u64,
}

pub trait DynFacet: Send + Sync {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &Ctx) -> Report;
    fn replay(&self, case: &serde_json::Value) -> Res;
    fn fuzz_runs(&self) -> u64;
    fn fuzz_len(&self) -> usize;
    /// Seeds of the corpus.
    fn fuzz_seeds(&self, seed: u64) -> Vec<Vec<u8>>;
    /// A function that runs the case a byte string stands for.
    fn fuzzer<'a>(&'a self, known: &'a HashSet<String>) -> Box<dyn FnMut(&[u8], &mut Fuzz) -> Option<Violation> + 'a>;
    /// The case a byte string stands for.
    fn fuzz_case(&self, bytes: &[u8]) -> Option<serde_json::Value>;
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn runner(seed: u64, name: &str, chunk: u64) -> TestRunner {
    let mut s = [0u8; 32];
    let mut z = mix(seed ^ mix(hash_of(&name)) ^ mix(chunk.wrapping_mul(0x2545f4914f6cdd1d)));
    for c in s.chunks_mut(8) {
        z = mix(z);
        c.copy_from_slice(&z.to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, max_shrink_iters: 0, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}

fn harness_error(what: String) -> ! {
    eprintln!("HARNESS-ERROR {what}");
    quit(3)
}

/// Ends the process without exit handlers (libFuzzer takes an ordinary exit for a crash).
pub fn quit(code: i32) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    unsafe { _exit(code) }
}

impl<C> Facet<C>
where
    C: Clone + Debug + Hash + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn eval(&self, c: &C) -> Res {
        match catch_unwind(AssertUnwindSafe(|| (self.check)(c))) {
            Ok(r) => r,
            Err(_) => {
                let (loc, msg) = LAST.with(|l| l.borrow().clone());
                if harness_location(&loc) {
                    harness_error(format!("panic in the harness at {loc}: {msg} on {}", json_short(c)));
                }
                // keep the signature free of line numbers
                let file = loc.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or(loc.clone());
                Err(Fail::new(format!("panic:{}:{file}", self.name), format!("panicked: {msg} (at {loc})")))
            }
        }
    }

    fn shrink(&self, mut tree: Box<dyn ValueTree<Value = C>>, first: Fail, known: &HashSet<String>) -> (C, Fail, u64) {
        let start = Instant::now();
        let mut best = (tree.current(), first);
        let mut steps = 0;
        if !tree.simplify() {
            return (best.0, best.1, 0);
        }
        while steps < 20_000 && start.elapsed() < Duration::from_secs(20) {
            steps += 1;
            let c = tree.current();
            match self.eval(&c) {
                Err(f) if !known.contains(&f.sig) => {
                    best = (c, f);
                    if !tree.simplify() {
                        break;
                    }
                }
                _ => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
        (best.0, best.1, steps)
    }
}

fn json_short<T: Serialize>(c: &T) -> String {
    let s = serde_json::to_string(c).unwrap_or_default();
    if s.len() > 600 {
        format!("{}...({} chars)", s.chars().take(500).collect::<String>(), s.len())
    } else {
        s
    }
}

impl<C> DynFacet for Facet<C>
where
    C: Clone + Debug + Hash + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, ctx: &Ctx) -> Report {
        let start = Instant::now();
        let mut rep = Report { facet: self.name.into(), rule: self.rule.into(), enumerated: self.exhaustive, ..Default::default() };
        if self.profiles == Profiles::ReleaseOnly && !ctx.release {
            return rep;
        }
        let mut total = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        if !self.exhaustive {
            total = ((total as f64 * ctx.scale) as u64).max(1);
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        struct Acc {
            evals: u64,
            seen: HashSet<u64>,
            labels: BTreeMap<&'static str, u64>,
            samples: Vec<(u64, serde_json::Value)>,
            known: BTreeMap<String, (u64, String)>,
            viol: Option<Violation>,
        }
        let acc = Mutex::new(Acc { evals: 0, seen: HashSet::new(), labels: BTreeMap::new(), samples: vec![], known: BTreeMap::new(), viol: None });
        let isolate = self.isolate || ctx.isolate_all;
        let nthreads = if isolate { 1 } else { ctx.threads };
        // one slot per worker: since when it has been running which case
        let slots: Vec<Mutex<Option<(Instant, C)>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
        let done = AtomicBool::new(false);
        let work = |me: usize| {
            let mut evals = 0u64;
            let mut seen = HashSet::new();
            let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut samples = vec![];
            let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
            let strat = match &self.gen {
                Gen::Random(f) => Some(f()),
                Gen::Indexed(_) => None,
            };
            while !stop.load(Ordering::Relaxed) {
                let ch = next.fetch_add(1, Ordering::Relaxed);
                let lo = ch * self.chunk;
                if lo >= total {
                    break;
                }
                let mut r = runner(ctx.seed, self.name, ch);
                for i in lo..(lo + self.chunk).min(total) {
                    let tree = match (&self.gen, &strat) {
                        (Gen::Indexed(f), _) => f(i).new_tree(&mut r),
                        (_, Some(s)) => s.new_tree(&mut r),
                        _ => unreachable!(),
                    };
                    let tree = match tree {
                        Ok(t) => t,
                        Err(e) => harness_error(format!("{}: generator rejected: {e}", self.name)),
                    };
                    let c = tree.current();
                    if isolate {
                        if let Some(p) = &ctx.inflight {
                            let v = serde_json::json!({"facet": self.name, "case": &c});
                            std::fs::write(p, v.to_string()).ok();
                        }
                    }
                    evals += 1;
                    *slots[me].lock().unwrap() = Some((Instant::now(), c.clone()));
                    let res = self.eval(&c);
                    *slots[me].lock().unwrap() = None;
                    match res {
                        Ok(info) => {
                            if info.nontrivial {
                                seen.insert(hash_of(&c));
                                let every = (total / 4).max(1);
                                if i % every == 0 && samples.len() < 3 {
                                    samples.push((i, serde_json::Value::String(json_short(&c))));
                                }
                            }
                            for l in info.labels {
                                *labels.entry(l).or_default() += 1;
                            }
                        }
                        Err(f) if ctx.known.contains(&f.sig) => {
                            let e = known.entry(f.sig.clone()).or_insert((0, f.msg.clone()));
                            e.0 += 1;
                            seen.insert(hash_of(&c));
                        }
                        Err(f) => {
                            if !stop.swap(true, Ordering::SeqCst) {
                                *slots[me].lock().unwrap() = Some((Instant::now(), c.clone()));
                                let (c, f, n) = self.shrink(Box::new(tree), f, &ctx.known);
                                acc.lock().unwrap().viol = Some(Violation {
                                    facet: self.name.into(),
                                    sig: f.sig,
                                    msg: f.msg,
                                    case: serde_json::to_value(&c).unwrap_or_default(),
                                    shrink_steps: n,
                                });
                                *slots[me].lock().unwrap() = None;
                            }
                            break;
                        }
                    }
                }
            }
            let mut a = acc.lock().unwrap();
            a.evals += evals;
            a.seen.extend(seen);
            a.samples.extend(samples);
            for (k, v) in labels {
                *a.labels.entry(k).or_default() += v;
            }
            for (k, v) in known {
                a.known.entry(k).or_insert((0, v.1)).0 += v.0;
            }
        };
        std::thread::scope(|s| {
            let work = &work;
            let hs: Vec<_> = (0..nthreads)
                .map(|i| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || work(i)).unwrap())
                .collect();
            s.spawn(|| {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(5));
                    for sl in &slots {
                        let Some((t, c)) = &*sl.lock().unwrap() else { continue };
                        if t.elapsed() > self.limit {
                            (ctx.hang)(Violation {
                                facet: self.name.into(),
                                sig: format!("hang:{}", self.name),
                                msg: format!("no answer within {} s", self.limit.as_secs()),
                                case: serde_json::to_value(c).unwrap_or_default(),
                                shrink_steps: 0,
                            });
                        }
                    }
                }
            });
            for h in hs {
                if h.join().is_err() {
                    let (loc, msg) = LAST.with(|l| l.borrow().clone());
                    harness_error(format!("{}: worker died {loc} {msg}", self.name));
                }
            }
            done.store(true, Ordering::Relaxed);
        });
        if isolate {
            if let Some(p) = &ctx.inflight {
                std::fs::remove_file(p).ok();
            }
        }
        let mut a = acc.into_inner().unwrap();
        a.samples.sort_by_key(|s| s.0);
        rep.evaluations = a.evals;
        rep.distinct_nontrivial = a.seen.len() as u64;
        rep.labels = a.labels.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        rep.samples = a.samples.into_iter().take(3).map(|s| s.1).collect();
        rep.known = a.known;
        rep.violation = a.viol;
        rep.wall_s = start.elapsed().as_secs_f64();
        rep
    }

    fn replay(&self, case: &serde_json::Value) -> Res {
        match serde_json::from_value::<C>(case.clone()) {
            Ok(c) => self.eval(&c),
            Err(e) => harness_error(format!("replay file does not parse: {e}")),
        }
    }

    fn fuzz_runs(&self) -> u64 {
        self.fuzz_runs
    }

    fn fuzz_len(&self) -> usize {
        self.fuzz_len
    }

    fn fuzz_seeds(&self, seed: u64) -> Vec<Vec<u8>> {
        if let Some(f) = self.seeds {
            return f();
        }
        // random choices of several lengths: what runs out reads as zero
        let mut z = mix(seed ^ hash_of(&self.name));
        (0..48usize)
            .map(|i| {
                let n = [24, 64, 200, 500, 1000, self.fuzz_len][i % 6].min(self.fuzz_len);
                (0..n)
                    .map(|_| {
                        z = mix(z);
                        z as u8
                    })
                    .collect()
            })
            .collect()
    }

    fn fuzzer<'a>(&'a self, known: &'a HashSet<String>) -> Box<dyn FnMut(&[u8], &mut Fuzz) -> Option<Violation> + 'a> {
        let strat = match &self.gen {
            Gen::Random(f) => Some(f()),
            Gen::Indexed(_) => None,
        };
        Box::new(move |bytes, st| {
            let c = self.from_bytes(&strat, bytes)?;
            st.evaluations += 1;
            match self.eval(&c) {
                Ok(info) => {
                    if info.nontrivial && st.seen.insert(hash_of(&c)) && st.seen.len() % 20_000 == 1_000 && st.samples.len() < 3 {
                        st.samples.push(serde_json::Value::String(json_short(&c)));
                    }
                    for l in info.labels {
                        *st.labels.entry(l).or_default() += 1;
                    }
                    None
                }
                Err(f) if known.contains(&f.sig) => {
                    st.known.entry(f.sig).or_insert((0, f.msg)).0 += 1;
                    st.seen.insert(hash_of(&c));
                    None
                }
                Err(f) => Some(Violation { facet: self.name.into(), sig: f.sig, msg: f.msg, case: serde_json::to_value(&c).unwrap_or_default(), shrink_steps: 0 }),
            }
        })
    }

    fn fuzz_case(&self, bytes: &[u8]) -> Option<serde_json::Value> {
        let strat = match &self.gen {
            Gen::Random(f) => Some(f()),
            Gen::Indexed(_) => None,
        };
        serde_json::to_value(self.from_bytes(&strat, bytes)?).ok()
    }
}

/// What a coverage-guided run has seen.
#[derive(Default)]
pub struct Fuzz {
    pub evaluations: u64,
    pub seen: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<serde_json::Value>,
    pub known: BTreeMap<String, (u64, String)>,
}

impl<C> Facet<C>
where
    C: Clone + Debug + Hash + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn from_bytes(&self, strat: &Option<BoxedStrategy<C>>, bytes: &[u8]) -> Option<C> {
        if let Some(d) = self.decode {
            return d(bytes);
        }
        let cfg = Config { failure_persistence: None, max_local_rejects: 64, ..Config::default() };
        match (&self.gen, strat) {
            (Gen::Indexed(f), _) => {
                let (head, tail) = bytes.split_at_checked(4)?;
                let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::PassThrough, tail));
                let i = u32::from_le_bytes(head.try_into().ok()?) as u64;
                Some(f(i % self.quick).new_tree(&mut r).ok()?.current())
            }
            (_, Some(s)) => {
                let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::PassThrough, bytes));
                Some(s.new_tree(&mut r).ok()?.current())
            }
            _ => None,
        }
    }
}

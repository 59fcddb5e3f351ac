//! Coverage-guided search: libFuzzer proposes byte strings, a facet turns them into cases.
use crate::engine::{quit, DynFacet, Fuzz, Report, Violation};
use std::collections::HashSet;
use std::ffi::{c_char, c_int, CString};
use std::os::unix::fs::FileExt;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

extern "C" {
    fn LLVMFuzzerRunDriver(argc: *mut c_int, argv: *mut *mut *mut c_char, cb: extern "C" fn(*const u8, usize) -> c_int) -> c_int;
}

type Callback = Box<dyn FnMut(&[u8])>;
static mut CALLBACK: Option<Callback> = None;

extern "C" fn one(data: *const u8, len: usize) -> c_int {
    let b: &[u8] = if len == 0 { &[] } else { unsafe { std::slice::from_raw_parts(data, len) } };
    unsafe {
        let cb = &raw mut CALLBACK;
        if let Some(f) = (*cb).as_mut() {
            f(b)
        }
    }
    0
}

/// Milliseconds since the start at which the case in flight began; 0 between cases.
static SINCE: AtomicU64 = AtomicU64::new(0);
static START: OnceLock<Instant> = OnceLock::new();

fn now() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Removes what a failing input does not need: whole ranges first, then values towards zero.
fn minimise(bytes: &[u8], fails: &mut dyn FnMut(&[u8]) -> Option<Violation>, first: Violation) -> Violation {
    let end = Instant::now() + Duration::from_secs(20);
    let (mut b, mut v, mut steps) = (bytes.to_vec(), first, 0u64);
    let mut again = true;
    while again && Instant::now() < end {
        again = false;
        let mut w = b.len().next_power_of_two();
        while w > 0 && Instant::now() < end {
            let mut i = 0;
            while i < b.len() && Instant::now() < end {
                let to = (i + w).min(b.len());
                let mut cut = b.clone();
                cut.drain(i..to);
                let mut zero = b.clone();
                zero[i..to].fill(0);
                let mut hit = false;
                for t in [cut, zero] {
                    if t != b {
                        steps += 1;
                        if let Some(f) = fails(&t) {
                            // fewer bytes, or as many with more zeros: this ends
                            b = t;
                            v = f;
                            hit = true;
                            again = true;
                            break;
                        }
                    }
                }
                if !hit {
                    i = to;
                }
            }
            w /= 2;
        }
    }
    v.shrink_steps = steps;
    v
}

pub struct Opts {
    pub id: String,
    pub seed: u64,
    pub runs: u64,
    pub dir: String,
    pub out: String,
    pub value_profile: bool,
    pub known: HashSet<String>,
}

pub fn run(facet: Box<dyn DynFacet>, o: Opts) -> ! {
    let facet: &'static dyn DynFacet = Box::leak(facet);
    let o: &'static Opts = Box::leak(Box::new(o));
    let corpus = Path::new(&o.dir).join("corpus");
    std::fs::create_dir_all(&corpus).expect("corpus directory");
    for (i, s) in facet.fuzz_seeds(o.seed).into_iter().enumerate() {
        std::fs::write(corpus.join(format!("{i:04}")), s).expect("corpus");
    }
    let inflight = std::fs::File::create(Path::new(&o.dir).join("inflight")).expect("inflight");
    let mut eval = facet.fuzzer(&o.known);
    let mut st = Fuzz::default();
    let mut calls = 0u64;
    let start = Instant::now();
    now();
    let limit: u64 = 120_000;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let t = SINCE.load(Ordering::Relaxed);
        if t != 0 && now() > t + limit {
            quit(4)
        }
    });
    let finish = move |st: &mut Fuzz, v: Option<Violation>| -> ! {
        let code = v.is_some() as i32;
        let rep = Report {
            facet: facet.name().into(),
            rule: String::new(),
            enumerated: false,
            evaluations: st.evaluations,
            distinct_nontrivial: st.seen.len() as u64,
            labels: st.labels.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
            samples: std::mem::take(&mut st.samples),
            wall_s: start.elapsed().as_secs_f64(),
            known: std::mem::take(&mut st.known),
            violation: v,
        };
        crate::cli::write(&Some(o.out.clone()), &o.id, false, &[rep]);
        quit(code)
    };
    let cb: Callback = Box::new(move |b| {
        let mut rec = (b.len() as u32).to_le_bytes().to_vec();
        rec.extend_from_slice(b);
        inflight.write_all_at(&rec, 0).ok();
        SINCE.store(now(), Ordering::Relaxed);
        let v = eval(b, &mut st);
        SINCE.store(0, Ordering::Relaxed);
        if let Some(v) = v {
            let mut scratch = Fuzz::default();
            let v = minimise(b, &mut |t| {
                SINCE.store(now(), Ordering::Relaxed);
                let r = eval(t, &mut scratch);
                SINCE.store(0, Ordering::Relaxed);
                r
            }, v);
            finish(&mut st, Some(v));
        }
        calls += 1;
        if calls >= o.runs {
            finish(&mut st, None);
        }
    });
    unsafe {
        *(&raw mut CALLBACK) = Some(cb);
    }
    let args: Vec<CString> = [
        "fuzz".to_string(),
        "-runs=-1".into(),
        format!("-seed={}", (o.seed as u32).max(1)),
        format!("-max_len={}", facet.fuzz_len()),
        format!("-use_value_profile={}", o.value_profile as u8),
        "-timeout=100000".into(),
        "-rss_limit_mb=0".into(),
        "-malloc_limit_mb=0".into(),
        "-detect_leaks=0".into(),
        "-handle_segv=0".into(),
        "-handle_bus=0".into(),
        "-handle_abrt=0".into(),
        "-handle_ill=0".into(),
        "-handle_fpe=0".into(),
        "-reload=0".into(),
        "-print_final_stats=0".into(),
        format!("-artifact_prefix={}/", o.dir),
        corpus.to_string_lossy().into_owned(),
    ]
    .into_iter()
    .map(|s| CString::new(s).unwrap())
    .collect();
    let mut ptrs: Vec<*mut c_char> = args.iter().map(|s| s.as_ptr() as *mut c_char).chain([std::ptr::null_mut()]).collect();
    let mut argc = args.len() as c_int;
    let mut argv = ptrs.as_mut_ptr();
    unsafe {
        LLVMFuzzerRunDriver(&mut argc, &mut argv, one);
    }
    eprintln!("HARNESS-ERROR libFuzzer ended early");
    quit(3)
}

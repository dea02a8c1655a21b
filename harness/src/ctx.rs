//! Running cases under observation: deterministic case seeds, panic capture, a black box that names
//! the case in flight when the process dies, a CPU-time watchdog, and the counts for the evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use serde_json::{json, Value};

use crate::rng::{hash_bytes, mix, Rng};

/// `Err` is a violation of the property, described.
pub type R = Result<(), String>;

pub const FATAL_HANG: i32 = 97;

static BLACKBOX_FD: AtomicI32 = AtomicI32::new(-1);
static SERIAL: AtomicU64 = AtomicU64::new(0);
static CASE_STREAM: Mutex<String> = Mutex::new(String::new());
static CASE_IDX: AtomicU64 = AtomicU64::new(0);
pub static CPU_LIMIT_SECS: AtomicU64 = AtomicU64::new(60);

#[cfg(not(miri))]
mod sys {
    extern "C" {
        pub fn clock_gettime(clock: i32, ts: *mut i64) -> i32;
        pub fn _exit(code: i32) -> !;
        pub fn dup2(a: i32, b: i32) -> i32;
        pub fn pwrite(fd: i32, buf: *const u8, n: usize, off: i64) -> isize;
    }
}

#[cfg(not(miri))]
pub fn process_cpu_secs() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { sys::clock_gettime(2, ts.as_mut_ptr()) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

#[cfg(not(miri))]
pub fn thread_cpu_secs() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { sys::clock_gettime(3, ts.as_mut_ptr()) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

#[cfg(miri)]
pub fn thread_cpu_secs() -> f64 {
    0.0
}

fn blackbox(text: &str) {
    #[cfg(not(miri))]
    {
        let fd = BLACKBOX_FD.load(Ordering::Relaxed);
        if fd >= 0 {
            let mut buf = [b' '; 512];
            let n = text.len().min(511);
            buf[..n].copy_from_slice(&text.as_bytes()[..n]);
            buf[511] = b'\n';
            unsafe { sys::pwrite(fd, buf.as_ptr(), 512, 0) };
        }
    }
    #[cfg(miri)]
    let _ = text;
}

/// End the process at once, leaving the reason in the black box.
pub fn fatal(code: i32, msg: &str) -> ! {
    let stream = match CASE_STREAM.try_lock() {
        Ok(s) => s.clone(),
        Err(_) => "?".to_owned(),
    };
    blackbox(&format!(
        "{}\t{}\t{}",
        stream,
        CASE_IDX.load(Ordering::Relaxed),
        msg
    ));
    let _ = writeln!(std::io::stderr(), "FATAL {}: {}", code, msg);
    #[cfg(not(miri))]
    unsafe {
        sys::_exit(code)
    }
    #[cfg(miri)]
    panic!("{}", msg)
}

#[cfg(not(miri))]
pub fn open_blackbox(path: &str) {
    use std::os::fd::IntoRawFd;
    let f = std::fs::File::create(path).expect("create the black box");
    BLACKBOX_FD.store(f.into_raw_fd(), Ordering::Relaxed);
}

#[cfg(not(miri))]
pub fn silence_stderr(sink: &str) {
    use std::os::fd::AsRawFd;
    if let Ok(f) = std::fs::OpenOptions::new().write(true).open(sink) {
        unsafe { sys::dup2(f.as_raw_fd(), 2) };
    }
}

/// Watches the CPU time of the process (not the wall clock), so that a loaded machine is no hang.
#[cfg(not(miri))]
pub fn start_watchdog() {
    std::thread::spawn(|| {
        let mut serial = u64::MAX;
        let mut start = 0.0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let now = SERIAL.load(Ordering::Relaxed);
            let cpu = process_cpu_secs();
            if now != serial {
                serial = now;
                start = cpu;
            } else if now != 0 && cpu - start > CPU_LIMIT_SECS.load(Ordering::Relaxed) as f64 {
                fatal(
                    FATAL_HANG,
                    &format!("did not finish within {:.0} s of CPU time", cpu - start),
                );
            }
        }
    });
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_owned()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_default()
}

/// Run library code that may not panic.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, loc) = take_panic();
            Err(format!("{} panicked: {} ({})", what, clip(&msg, 300), loc))
        }
    }
}

/// Run library code that has to panic (a documented bounds check): `Ok(true)` if it did.
pub fn panics(f: impl FnOnce()) -> bool {
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    take_panic();
    r
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_owned()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    stream: &'static str,
    replay: bool,
    buckets: &'a mut BTreeMap<String, u64>,
    /// What was registered with `distinct` so far, folded.
    key: Option<u64>,
    samples: &'a mut Vec<Value>,
    samples_here: &'a mut usize,
}

impl Case<'_> {
    pub fn stream(&self) -> &'static str {
        self.stream
    }
    /// Count one occurrence of something observed.
    pub fn bucket(&mut self, name: &str) {
        self.bucket_n(name, 1)
    }
    pub fn bucket_n(&mut self, name: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(v) = self.buckets.get_mut(name) {
            *v += n
        } else {
            self.buckets.insert(name.to_owned(), n);
        }
    }
    /// Keep the largest value seen.
    pub fn bucket_max(&mut self, name: &str, n: u64) {
        let v = self.buckets.entry(format!("max:{}", name)).or_insert(0);
        *v = (*v).max(n)
    }
    /// Register (part of) the identity of this case; a case without one counts as trivial.
    pub fn distinct(&mut self, key: impl AsRef<[u8]>) {
        let h = hash_bytes(key.as_ref());
        self.key = Some(self.key.unwrap_or(0x9e37_79b9).rotate_left(9).wrapping_mul(0x100_0000_01b3) ^ h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.replay {
            println!("input: {}", f());
            return;
        }
        if *self.samples_here < 2 {
            *self.samples_here += 1;
            let v = f();
            self.samples
                .push(json!({"stream": self.stream, "index": self.idx, "case": v}));
        }
    }
    /// Say what is about to run (only used when replaying one case).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.replay {
            println!("note: {}", f());
        }
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub only: Option<(String, u64)>,
    pub streams: Option<Vec<String>>,
    pub scale: f64,
    pub deadline: Option<Instant>,
    pub evals: u64,
    pub buckets: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub harness_errors: Vec<String>,
    pub truncated: Vec<String>,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Ctx {
        Ctx {
            prop: prop.to_owned(),
            seed,
            thorough,
            shard: 0,
            shards: 1,
            only: None,
            streams: None,
            scale: 1.0,
            deadline: None,
            evals: 0,
            buckets: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            violations: vec![],
            harness_errors: vec![],
            truncated: vec![],
        }
    }

    pub fn case_seed(&self, stream: &str, idx: u64) -> u64 {
        mix(self.seed ^ hash_bytes(self.prop.as_bytes()) ^ mix(hash_bytes(stream.as_bytes()) ^ mix(idx)))
    }

    /// Run the cases `0..quick` (or `0..thorough`) of a stream that fall into this shard.
    pub fn cases(
        &mut self,
        stream: &'static str,
        quick: u64,
        thorough: u64,
        f: impl FnMut(&mut Case) -> R,
    ) {
        let n = if self.thorough { thorough } else { quick };
        let n = ((n as f64) * self.scale).ceil() as u64;
        self.cases_exact(stream, n, f)
    }

    /// The same, for a stream that enumerates a space: not scaled.
    pub fn cases_exact(
        &mut self,
        stream: &'static str,
        n: u64,
        mut f: impl FnMut(&mut Case) -> R,
    ) {
        if let Some(streams) = &self.streams {
            if !streams.iter().any(|s| s == stream) {
                return;
            }
        }
        let mut samples_here = 0usize;
        let (mut idx, step, end) = match &self.only {
            Some((s, i)) => {
                if s != stream {
                    return;
                }
                (*i, 1, *i + 1)
            }
            None => (self.shard, self.shards, n),
        };
        if let Ok(mut s) = CASE_STREAM.lock() {
            *s = stream.to_owned();
        }
        let mut ran = 0u64;
        while idx < end {
            if self.violations.len() >= 3 {
                return;
            }
            {
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        self.truncated.push(format!("{} at {} of {}", stream, idx, n));
                        return;
                    }
                }
            }
            CASE_IDX.store(idx, Ordering::Relaxed);
            SERIAL.fetch_add(1, Ordering::Relaxed);
            blackbox(&format!("{}\t{}\t", stream, idx));
            let seed = self.case_seed(stream, idx);
            let replay = self.only.is_some();
            let (result, key) = {
                let mut case = Case {
                    rng: Rng::new(seed),
                    idx,
                    stream,
                    replay,
                    buckets: &mut self.buckets,
                    key: None,
                    samples: &mut self.samples,
                    samples_here: &mut samples_here,
                };
                let result = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                (result, case.key)
            };
            self.distinct.extend(key);
            self.evals += 1;
            ran += 1;
            match result {
                Ok(Ok(())) => {}
                Ok(Err(detail)) => self.violation(stream, idx, &detail),
                Err(_) => {
                    let (msg, loc) = take_panic();
                    if loc.starts_with("src/") {
                        self.harness_errors
                            .push(format!("{} {}: {} ({})", stream, idx, msg, loc));
                        return;
                    }
                    self.violation(stream, idx, &format!("panic: {} ({})", clip(&msg, 400), loc));
                }
            }
            idx += step;
        }
        *self.buckets.entry(format!("cases:{}", stream)).or_insert(0) += ran;
    }

    pub fn violation(&mut self, stream: &str, idx: u64, detail: &str) {
        self.violations.push(json!({
            "stream": stream, "index": idx, "detail": clip(detail, 4000)
        }));
    }

    pub fn report(&self) -> Value {
        json!({
            "prop": self.prop,
            "evals": self.evals,
            "buckets": self.buckets,
            "distinct": self.distinct.len(),
            "samples": self.samples,
            "violations": self.violations,
            "harness_errors": self.harness_errors,
            "truncated": self.truncated,
            "frees_checked": crate::alloc::frees_checked(),
        })
    }
}

/// `Err` unless `cond`.
#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}

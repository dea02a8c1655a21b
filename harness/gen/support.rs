//! For the generated crate of embedded puzzles: races the first uses, then compares.

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

use cubing::kpuzzle::{KPattern, KPuzzle, KPuzzleDefinition, KTransformation};

use crate::rng::Rng;

static BAD: Mutex<Vec<String>> = Mutex::new(Vec::new());
static USES: AtomicU64 = AtomicU64::new(0);
static ADDRESSES: Mutex<BTreeMap<String, usize>> = Mutex::new(BTreeMap::new());
static FIRST: Mutex<Vec<usize>> = Mutex::new(Vec::new());

static EVALUATED: [AtomicUsize; 1024] = [const { AtomicUsize::new(0) }; 1024];

/// Called where an embedded value names its puzzle.
pub fn evaluated(counter: usize) {
    EVALUATED[counter].fetch_add(1, Ordering::SeqCst);
}

fn evaluated_once(what: &str, counter: usize) {
    let n = EVALUATED[counter].load(Ordering::SeqCst);
    if n != 1 {
        bad(what, &format!("its puzzle was asked for {} times after a use", n));
    }
}

pub struct Track {
    pub thread: usize,
}

fn bad(what: &str, problem: &str) {
    BAD.lock().unwrap().push(format!("{}: {}", what, problem));
}

fn address(what: &str, a: usize, t: &Track) {
    USES.fetch_add(1, Ordering::Relaxed);
    let mut m = ADDRESSES.lock().unwrap();
    match m.get(what) {
        None => {
            m.insert(what.to_owned(), a);
            FIRST.lock().unwrap().push(t.thread);
        }
        Some(b) if *b != a => {
            drop(m);
            bad(what, "another object than before")
        }
        _ => {}
    }
}

pub fn puzzle(what: &str, get: fn() -> &'static KPuzzle, json: &[u8], t: &mut Track) {
    let p = get();
    address(what, p as *const KPuzzle as usize, t);
    if get() as *const KPuzzle != p as *const KPuzzle {
        bad(what, "another object on the second call");
    }
    let q = KPuzzle::try_from_json(json).expect("a valid definition");
    let value = |p: &KPuzzle| serde_json::to_value(p.definition()).unwrap();
    if value(p) != value(&q) {
        bad(what, "differs from parsing the file");
    }
    let mut keys: Vec<_> = q.definition().moves.keys().collect();
    if let Some(d) = &q.definition().derived_moves {
        keys.extend(d.keys());
    }
    for k in keys {
        let (a, b) = (p.transformation_from_move(k), q.transformation_from_move(k));
        match (a, b) {
            (Ok(a), Ok(b)) if a.to_data() == b.to_data() => {}
            _ => bad(what, &format!("move {} differs from parsing the file", k)),
        }
    }
    if p.default_pattern().to_data() != q.default_pattern().to_data() {
        bad(what, "the default pattern differs from parsing the file");
    }
}

pub fn pattern(what: &str, get: fn() -> &'static KPattern, p: fn() -> &'static KPuzzle, json: &[u8], counter: usize, t: &mut Track) {
    let x = get();
    evaluated_once(what, counter);
    address(what, x as *const KPattern as usize, t);
    let y = KPattern::try_from_json(p(), json).expect("valid data");
    if *x != y || x.to_data() != y.to_data() {
        bad(what, "differs from parsing the file");
    }
    if !std::sync::Arc::ptr_eq(&x.kpuzzle().data, &p().data) {
        bad(what, "is of another puzzle");
    }
    get();
    evaluated_once(what, counter);
}

pub fn transformation(
    what: &str,
    get: fn() -> &'static KTransformation,
    p: fn() -> &'static KPuzzle,
    json: &[u8],
    counter: usize,
    t: &mut Track,
) {
    let x = get();
    evaluated_once(what, counter);
    address(what, x as *const KTransformation as usize, t);
    let y = KTransformation::try_from_json(p(), json).expect("valid data");
    if *x != y || x.to_data() != y.to_data() {
        bad(what, "differs from parsing the file");
    }
    if !std::sync::Arc::ptr_eq(&x.kpuzzle().data, &p().data) {
        bad(what, "is of another puzzle");
    }
    get();
    evaluated_once(what, counter);
}

pub fn refuses(what: &str, f: fn()) {
    USES.fetch_add(1, Ordering::Relaxed);
    for _ in 0..2 {
        if std::panic::catch_unwind(f).is_ok() {
            bad(what, "accepted");
        }
    }
}

pub fn run(checks: &[fn(&mut Track)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let seed = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let n = 8;
    if EVALUATED.iter().any(|n| n.load(Ordering::SeqCst) != 0) {
        bad("start", "something was loaded before its first use");
    }
    let barrier = Barrier::new(n);
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for thread in 0..n {
            let (barrier, done) = (&barrier, &done);
            s.spawn(move || {
                let mut rng = Rng::new(seed.wrapping_mul(64) + thread as u64);
                // Some threads go through everything in the same order, the others in their own.
                let mut order: Vec<usize> = (0..checks.len()).collect();
                if thread % 2 == 0 {
                    Rng::new(seed).shuffle(&mut order)
                } else {
                    rng.shuffle(&mut order)
                }
                barrier.wait();
                let mut t = Track { thread };
                for i in order {
                    if rng.chance(1, 8) {
                        std::thread::yield_now()
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| checks[i](&mut t)));
                    if let Err(e) = r {
                        let text = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        bad(&format!("check {}", i), &format!("panicked: {}", text));
                    }
                }
                done.fetch_add(1, Ordering::Relaxed);
            });
        }
    });
    let mut b = BAD.lock().unwrap().clone();
    b.sort();
    b.dedup();
    for b in b.iter().take(20) {
        println!("BAD {}", b.replace('\n', " "));
    }
    let firsts: Vec<String> = FIRST.lock().unwrap().iter().map(|t| t.to_string()).collect();
    println!("FIRST {}", firsts.join(""));
    println!("DONE {}", USES.load(Ordering::Relaxed));
}

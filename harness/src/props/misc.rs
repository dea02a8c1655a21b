//! Cost, independence of history, and error reports; probes that may end the process.

use std::error::Error;
use std::str::FromStr;

use cubing_core::alg::{Alg, AlgBuilder, AlgNode, Grouping, Move, QuantumMove};
use cubing_core::kpuzzle::{
    ConversionError, InvalidAlgError, KPattern, KPuzzle, KPuzzleOrbitName, KTransformation,
    OrientationWithMod,
};
use serde_json::json;

use super::alg::any_text;
use super::data::{pattern_data_valid, trans_data_valid};
use super::eval::{make_pattern, make_trans, shipped};
use crate::check;
use crate::ctx::{clip, no_panic, panics, thread_cpu_secs, Case, Ctx, R};
use crate::model_alg::*;
use crate::model_puzzle::*;
use crate::rng::Rng;

// ---------------------------------------------------------------------------------------------
// Probes: inputs that may end the process. They run on the main thread's own stack.

pub fn probe(name: &str) {
    match name {
        // Far beyond any real alg.
        "deepnest" => {
            let n = 20_000;
            let text = format!("{}R{}", "(".repeat(n), ")".repeat(n));
            let ok = Alg::from_str(&text).is_ok();
            println!("parsed: {}", ok);
            std::process::exit(0)
        }
        // Well within what has to work, on an ordinary stack.
        "nest" => {
            let n = 300;
            for (open, close) in [("(", ")"), ("[", ", U]"), ("[", ": U]"), ("[U, ", "]"), ("[U: ", "]")] {
                let text = format!("{}R{}", open.repeat(n), close.repeat(n));
                let alg = match Alg::from_str(&text) {
                    Ok(alg) => alg,
                    Err(e) => {
                        println!("refused: {}", e);
                        std::process::exit(1)
                    }
                };
                let back = alg.to_string();
                if back.parse::<Alg>().ok().as_ref() != Some(&alg) || alg.invert().invert() != alg {
                    println!("a nested alg did not survive printing or inverting twice");
                    std::process::exit(1)
                }
            }
            println!("fine");
            std::process::exit(0)
        }
        // Each derived move made of the one before.
        "chain" | "deepchain" => {
            let n = if name == "chain" { 500 } else { 100_000 };
            let fam = |i: usize| {
                let mut s = String::from(if i == 0 { "X" } else { "Y" });
                let mut i = i;
                while i > 0 {
                    s.push((b'a' + (i % 26) as u8) as char);
                    i /= 26;
                }
                s
            };
            let derived: Vec<String> = (1..=n)
                .map(|i| format!("\"{}\": \"{}\"", fam(i), fam(i - 1)))
                .collect();
            let text = format!(
                r#"{{"name": "p", "orbits": [{{"orbitName": "A", "numPieces": 2, "numOrientations": 1}}],
                "defaultPattern": {{"A": {{"pieces": [0, 1], "orientation": [0, 0]}}}},
                "moves": {{"X": {{"A": {{"permutation": [1, 0], "orientationDelta": [0, 0]}}}}}},
                "derivedMoves": {{{}}}}}"#,
                derived.join(", ")
            );
            let p = match KPuzzle::try_from_json(text.as_bytes()) {
                Ok(p) => p,
                Err(e) => {
                    println!("refused: {}", e);
                    std::process::exit(1)
                }
            };
            let evaluate = |i: usize| {
                p.transformation_from_move(&fam(i).parse().expect("a move"))
                    .map(|t| t.to_data())
                    .map_err(|e| e.to_string())
            };
            if evaluate(n) != evaluate(0) {
                println!("the last move is not what the first one is");
                std::process::exit(1)
            }
            println!("fine");
            std::process::exit(0)
        }
        "default_pattern" => {
            let text = r#"{"name": "p", "orbits": [{"orbitName": "A", "numPieces": 2, "numOrientations": 1}],
                "defaultPattern": {"A": {"pieces": [0], "orientation": [0]}}, "moves": {}}"#;
            let p = match KPuzzle::try_from_json(text.as_bytes()) {
                Ok(p) => p,
                Err(e) => {
                    println!("refused at construction: {}", e);
                    std::process::exit(0)
                }
            };
            let panicked = panics(|| {
                p.default_pattern();
            });
            println!("panicked: {}", panicked);
            std::process::exit(if panicked { 3 } else { 0 })
        }
        _ => {
            eprintln!("no such probe");
            std::process::exit(2)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Cost

struct Cost {
    allocs: u64,
    bytes: u64,
    secs: f64,
}

fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let (a, b) = crate::alloc::thread_count();
    let s = thread_cpu_secs();
    let out = f();
    let secs = thread_cpu_secs() - s;
    let (a2, b2) = crate::alloc::thread_count();
    (
        out,
        Cost {
            allocs: a2 - a,
            bytes: b2 - b,
            secs,
        },
    )
}

/// A family of algs that grows with `n`: about `n` leaves.
fn family(kind: usize, n: usize) -> Vec<N> {
    let fams = ["R", "U", "F'", "Rw", "BL", "x"];
    let m = |i: usize| N::Move(mv(fams[i % 6].trim_end_matches('\''), [1, -1, 2, 3][i % 4]));
    match kind {
        0 => (0..n).map(m).collect(),
        1 => (0..n / 4)
            .map(|i| N::Group((0..4).map(|j| m(i + j)).collect(), [2, -1, 1, 5][i % 4]))
            .collect(),
        2 => (0..n / 4)
            .map(|i| N::Comm(vec![m(i), m(i + 1)], vec![m(i + 2), m(i + 3)]))
            .collect(),
        3 => (0..n / 4)
            .map(|i| N::Conj(vec![m(i), m(i + 1)], vec![m(i + 2), m(i + 3)]))
            .collect(),
        4 => vec![N::Comment("a".repeat(n))],
        5 => (0..n / 2).flat_map(|i| [N::Comment(format!("c{}", i % 10)), N::Newline]).collect(),
        6 => (0..n).map(|i| if i % 2 == 0 { N::Newline } else { N::Pause }).collect(),
        7 => vec![N::Move(mv(&"R".repeat(n), 1))],
        8 => vec![N::Group((0..n).map(m).collect(), -3)],
        9 => vec![N::Comm((0..n / 2).map(m).collect(), (0..n / 2).map(m).collect())],
        10 => (0..n / 3)
            .map(|i| N::Group(vec![N::Move(mv(USQ, (i % 5) as i64 - 2)), N::Move(mv(DSQ, (i % 7) as i64 - 3))], 1))
            .collect(),
        _ => (0..n)
            .map(|i| {
                N::Move(MMove {
                    pre: if i % 2 == 0 { Pre::Layer(i as u32 % 9 + 1) } else { Pre::Range(i as u32 % 7 + 1, 9) },
                    fam: "Uw".into(),
                    amt: [1, -2][i % 2],
                })
            })
            .collect(),
    }
}
const FAMILIES_OF_ALGS: usize = 12;

/// Nested `d` deep.
fn nested(kind: usize, d: usize) -> Vec<N> {
    let mut v = vec![N::Move(mv("R", 1))];
    for i in 0..d {
        let u = vec![N::Move(mv("U", 1 + (i % 3) as i64))];
        v = vec![match kind {
            0 => N::Group(v, [2, -1, 3][i % 3]),
            1 => N::Comm(v, u),
            2 => N::Comm(u, v),
            3 => N::Conj(v, u),
            4 => N::Conj(u, v),
            _ => match i % 4 {
                0 => N::Comm(v, u),
                1 => N::Conj(u, v),
                2 => N::Group(v, -2),
                _ => N::Comm(u, v),
            },
        }];
    }
    v
}
const KINDS_OF_NESTING: usize = 6;

/// A puzzle on which the families can be evaluated.
fn cost_puzzle() -> MDef {
    let orbits = vec![MOrbit {
        name: "P".into(),
        np: 5,
        no: 3,
    }];
    let mut rng = Rng::new(77);
    let mut moves = vec![];
    for f in ["R", "U", "F", "Rw", "BL", "x"] {
        moves.push((mv(f, 1), gen_trans(&mut rng, &orbits)));
    }
    MDef {
        name: "cost".into(),
        default: gen_pat(&mut rng, &orbits),
        default_has_mod: vec![true],
        moves,
        derived: None,
        orbits,
    }
}

/// `big` did `factor` times the work of `small`.
fn linear(what: &str, factor: u64, small: &Cost, big: &Cost) -> R {
    // Growing vectors double: hence the slack.
    check!(
        big.allocs <= small.allocs * factor * 5 / 2 + 64,
        "{}: {} times the input takes {} allocations instead of {}",
        what,
        factor,
        big.allocs,
        small.allocs
    );
    check!(
        big.bytes <= small.bytes * factor * 5 / 2 + 8192,
        "{}: {} times the input takes {} bytes of memory instead of {}",
        what,
        factor,
        big.bytes,
        small.bytes
    );
    Ok(())
}

/// The CPU time of an operation on 16 times the input: quadratic cost would be 256 times. Only
/// an excess that shows in every one of several attempts counts.
fn linear_time(c: &mut Case, what: &str, n: usize, f: &mut dyn FnMut(usize) -> f64) -> R {
    let mut worst = f64::MAX;
    for _ in 0..6 {
        let mut small = 0.0;
        // Repeat the small one, to have something to measure.
        for _ in 0..16 {
            small += f(n);
        }
        let small = small / 16.0;
        let big = f(16 * n);
        let ratio = big / small.max(1e-7);
        worst = worst.min(ratio);
        if ratio <= 80.0 || big < 0.002 {
            c.bucket("CPU time measurements");
            return Ok(());
        }
    }
    Err(format!(
        "{}: 16 times the input (from {}) takes {:.0} times the CPU time, in each of 6 attempts",
        what, n, worst
    ))
}

pub fn cost(ctx: &mut Ctx) {
    let counting = crate::alloc::ENABLED;
    let def = cost_puzzle();
    let Ok(puzzle) = def.build() else {
        ctx.violation("set-up", 0, "a valid definition was refused");
        return;
    };
    // Work on wide algs is proportional to their length.
    ctx.cases("length", 1_500, 20_000, |c| {
        let kind = c.rng.below(FAMILIES_OF_ALGS);
        let n = 40 + c.rng.below(200);
        c.distinct([kind as u8, n as u8]);
        c.sample(|| json!({"family": kind, "n": n, "small": clip(&print(&family(kind, 12)), 200)}));
        let factor = 8;
        let trees = [stable(&family(kind, n)), stable(&family(kind, n * factor))];
        let texts = [print(&trees[0]), print(&trees[1])];
        let algs = [to_lib(&trees[0]), to_lib(&trees[1])];
        // What is really proportional is the length of the text.
        let factor = texts[1].len().div_ceil(texts[0].len()).max(factor) as u64;
        let mut ops: Vec<(&str, [Cost; 2])> = vec![];
        let cost = |f: &dyn Fn(usize)| [measure(|| f(0)).1, measure(|| f(1)).1];
        // The same tree, parsed.
        for i in 0..2 {
            check!(
                Alg::from_str(&texts[i]).ok().as_ref() == Some(&algs[i]),
                "{:?} does not parse to itself",
                clip(&texts[i], 200)
            );
        }
        ops.push(("parsing", cost(&|i| drop(Alg::from_str(&texts[i])))));
        ops.push(("printing", cost(&|i| drop(algs[i].to_string()))));
        ops.push(("inverting", cost(&|i| drop(algs[i].invert()))));
        ops.push(("comparing", cost(&|i| { std::hint::black_box(algs[i] == algs[i]); })));
        ops.push(("writing JSON", cost(&|i| drop(serde_json::to_string(&algs[i])))));
        ops.push((
            "building",
            cost(&|i| {
                let mut b = AlgBuilder::default();
                for n in &algs[i].nodes {
                    b.push(n);
                }
                drop(b.to_alg())
            }),
        ));
        // A move that does not exist ends the evaluation.
        if kind != 7 && kind != 10 && kind != 11 {
            check!(puzzle.transformation_from_alg(&algs[1]).is_ok(), "the cost puzzle lacks a move");
            ops.push(("evaluating", cost(&|i| drop(puzzle.transformation_from_alg(&algs[i])))));
        }
        for (what, [small, big]) in &ops {
            if counting {
                linear(&format!("{} {:?}…", what, clip(&texts[0], 40)), factor, small, big)?;
            }
            c.bucket(&format!("{} at {} times the length", what, factor));
        }
        c.bucket_max("allocations by one operation", ops.iter().map(|o| o.1[1].allocs).max().unwrap());
        Ok(())
    });
    // Work on nested algs is proportional to the depth (not exponential in it).
    ctx.cases("depth", 600, 8_000, |c| {
        let kind = c.rng.below(KINDS_OF_NESTING);
        let d = 4 + c.rng.below(20);
        c.distinct([kind as u8, d as u8]);
        let factor = 4;
        let trees = [nested(kind, d), nested(kind, d * factor)];
        c.sample(|| json!({"kind": kind, "depth": d * factor, "small": print(&nested(kind, 3))}));
        let texts = [print(&trees[0]), print(&trees[1])];
        let algs = [to_lib(&trees[0]), to_lib(&trees[1])];
        let mut ops: Vec<(&str, [Cost; 2])> = vec![];
        let cost = |f: &dyn Fn(usize)| [measure(|| f(0)).1, measure(|| f(1)).1];
        ops.push(("parsing", cost(&|i| drop(Alg::from_str(&texts[i])))));
        ops.push(("inverting", cost(&|i| drop(algs[i].invert()))));
        ops.push(("comparing", cost(&|i| { std::hint::black_box(algs[i] == algs[i]); })));
        ops.push(("evaluating", cost(&|i| drop(puzzle.transformation_from_alg(&algs[i])))));
        check!(puzzle.transformation_from_alg(&algs[1]).is_ok(), "the cost puzzle lacks a move");
        for (what, [small, big]) in &ops {
            if counting {
                linear(&format!("{} {} deep", what, d), factor as u64, small, big)?;
            }
            c.bucket(&format!("{} at {} times the depth", what, factor));
        }
        // Printing nested text may copy each level's text into the next: quadratic, not more.
        if counting {
            let [small, big] = cost(&|i| drop(algs[i].to_string()));
            check!(
                big.allocs <= small.allocs * 4 * 5 / 2 + 64
                    && big.bytes <= small.bytes * 16 * 5 / 2 + 8192,
                "printing {} deep: 4 times the depth takes {} allocations, {} bytes instead of {}, {}",
                d,
                big.allocs,
                big.bytes,
                small.allocs,
                small.bytes
            );
            c.bucket("printing at 4 times the depth");
        }
        // Inverting twice, and the other way round: nothing grows.
        let twice = algs[1].invert().invert();
        check!(
            twice.to_string().len() == texts[1].len(),
            "inverting twice changes the size of {}",
            clip(&texts[1], 200)
        );
        Ok(())
    });
    // Work on repetitions is logarithmic in the amount.
    ctx.cases("amounts", 1_500, 20_000, |c| {
        let big = c.rng.chance(1, 2);
        let amount = if big {
            c.rng.range(1 << 28, i32::MAX as i64)
        } else {
            c.rng.range(1, i32::MAX as i64)
        };
        let amount = if c.rng.chance(1, 2) { amount } else { -amount };
        let leaf = vec![N::Move(mv(*c.rng.pick(&["R", "U", "F"]), 1))];
        let alg = match c.rng.below(4) {
            0 => vec![N::Move(mv("R", amount))],
            1 => vec![N::Group(leaf, amount)],
            2 => vec![N::Group(vec![N::Comm(leaf, vec![N::Move(mv("U", -amount))])], amount)],
            _ => vec![N::Group(vec![N::Group(leaf, amount)], amount)],
        };
        c.distinct(print(&alg));
        c.sample(|| json!(print(&alg)));
        let lib = to_lib(&alg);
        let (t, cost) = measure(|| puzzle.transformation_from_alg(&lib));
        let t = t.map_err(|e| e.to_string())?;
        check!(
            MTrans::read(&t, &def.orbits)? == def.eval(&alg).map_err(|m| print_move(&m))?,
            "{} is evaluated wrongly",
            print(&alg)
        );
        // 31 squarings and as many products, each of a few allocations, at most thrice.
        check!(
            !counting || cost.allocs <= 3 * 62 * 6,
            "evaluating {} takes {} allocations",
            print(&alg),
            cost.allocs
        );
        c.bucket_max("allocations for one repetition", cost.allocs);
        c.bucket("repetitions");
        Ok(())
    });
    // CPU time, coarsely.
    ctx.cases("time", 40, 200, |c| {
        let kind = c.rng.below(FAMILIES_OF_ALGS);
        let n = 600 + c.rng.below(300);
        c.distinct([kind as u8, n as u8, 1]);
        let sizes = [n, 16 * n];
        let trees: Vec<Vec<N>> = sizes.iter().map(|n| stable(&family(kind, *n))).collect();
        let texts: Vec<String> = trees.iter().map(|t| print(t)).collect();
        let algs: Vec<Alg> = trees.iter().map(|t| to_lib(t)).collect();
        let at = |m: usize| usize::from(m != n);
        let name = clip(&texts[0], 40);
        linear_time(c, &format!("parsing {:?}", name), n, &mut |m| {
            measure(|| Alg::from_str(&texts[at(m)])).1.secs
        })?;
        linear_time(c, &format!("printing {:?}", name), n, &mut |m| {
            measure(|| algs[at(m)].to_string()).1.secs
        })?;
        linear_time(c, &format!("inverting {:?}", name), n, &mut |m| {
            measure(|| algs[at(m)].invert()).1.secs
        })?;
        linear_time(c, &format!("evaluating {:?}", name), n, &mut |m| {
            measure(|| puzzle.transformation_from_alg(&algs[at(m)])).1.secs
        })?;
        // Refusing takes no longer than accepting.
        let broken: Vec<String> = texts.iter().map(|t| format!("{} (", t)).collect();
        linear_time(c, &format!("refusing {:?}", name), n, &mut |m| {
            measure(|| Alg::from_str(&broken[at(m)])).1.secs
        })?;
        Ok(())
    });
    // The time for a move does not depend on how many moves there are to choose from.
    ctx.cases("many moves", 16, 100, |c| {
        let n = 30 + c.rng.below(30);
        let derived = c.rng.chance(1, 2);
        c.distinct([n as u8, derived as u8]);
        let make = |n: usize| {
            let mut def = cost_puzzle();
            let key = |i: usize| {
                let mut s = String::from("M");
                let mut i = i;
                while i > 0 {
                    s.push((b'a' + (i % 26) as u8) as char);
                    i /= 26;
                }
                mv(&s, 1)
            };
            if derived {
                let alg = vec![N::Move(mv("R", 1)), N::Move(mv("U", 1))];
                def.derived = Some((0..n).map(|i| (key(i), alg.clone())).collect());
            } else {
                for i in 0..n {
                    let t = def.moves[i % 6].1.clone();
                    def.moves.push((key(i), t));
                }
            }
            def.to_definition()
        };
        let factor = 80;
        let (d0, d1) = (make(n), make(n * factor));
        let ((p0, small), (p1, big)) = (measure(|| KPuzzle::try_new(d0)), measure(|| KPuzzle::try_new(d1)));
        check!(p0.is_ok() && p1.is_ok(), "a valid definition was refused");
        if counting {
            linear("constructing a puzzle of many moves", factor as u64, &small, &big)?;
        }
        let puzzles = [p0.unwrap(), p1.unwrap()];
        let alg = to_lib(
            &(0..40)
                .map(|i| {
                    let name = ["Mb", "Mc", "Me", "R", "U", "Mx"][i % 6];
                    N::Move(mv(name, if i % 3 == 0 { -1 } else { 1 }))
                })
                .collect::<Vec<_>>(),
        );
        let mut best = f64::MAX;
        for _ in 0..6 {
            let time = |p: &KPuzzle| {
                (0..5)
                    .map(|_| measure(|| (0..10).all(|_| p.transformation_from_alg(&alg).is_ok())).1.secs)
                    .fold(f64::MAX, f64::min)
            };
            best = best.min(time(&puzzles[1]) / time(&puzzles[0]).max(1e-7));
            if best <= 8.0 {
                c.bucket("evaluations among many moves");
                return Ok(());
            }
        }
        Err(format!(
            "evaluating an alg takes {:.0} times the CPU time if the puzzle defines {} moves instead of {}",
            best,
            n * factor,
            n
        ))
    });
    // Constructing a puzzle from more moves, orbits, or a longer chain of derived moves.
    ctx.cases("definitions", 60, 1_000, |c| {
        let n = 10 + c.rng.below(30);
        let kind = c.rng.below(3);
        c.distinct([kind as u8, n as u8]);
        c.sample(|| json!({"kind": kind, "n": n}));
        let name = |i: usize| {
            let mut s = String::from("M");
            let mut i = i;
            while i > 0 {
                s.push((b'a' + (i % 26) as u8) as char);
                i /= 26;
            }
            s
        };
        let make = |n: usize| {
            let mut def = cost_puzzle();
            match kind {
                0 => {
                    for i in 0..n {
                        let t = def.moves[i % 6].1.clone();
                        def.moves.push((mv(&name(i), 1), t));
                    }
                }
                1 => {
                    let mut derived = vec![];
                    for i in 0..n {
                        let prev = if i == 0 { mv("R", 1) } else { mv(&name(i - 1), 1) };
                        derived.push((mv(&name(i), 1), vec![N::Move(prev), N::Move(mv("U", 1))]));
                    }
                    def.derived = Some(derived);
                }
                _ => {
                    // Each used twice by the next: 2^n paths.
                    let mut derived = vec![];
                    for i in 0..n {
                        let prev = if i == 0 { mv("R", 1) } else { mv(&name(i - 1), 1) };
                        derived.push((
                            mv(&name(i), 1),
                            vec![N::Comm(vec![N::Move(prev.clone())], vec![N::Move(prev.with_amt(2))])],
                        ));
                    }
                    def.derived = Some(derived);
                }
            }
            def
        };
        let defs = [make(n).to_definition(), make(4 * n).to_definition()];
        let [d0, d1] = defs;
        let (p0, small) = measure(|| KPuzzle::try_new(d0));
        let (p1, big) = measure(|| KPuzzle::try_new(d1));
        check!(p0.is_ok() && p1.is_ok(), "a valid definition was refused");
        if counting {
            linear("constructing a puzzle", 4, &small, &big)?;
        }
        c.bucket("constructions at 4 times the size");
        // Using a puzzle does not depend on how many moves it defines.
        let (p0, p1) = (p0.unwrap(), p1.unwrap());
        let alg = to_lib(&family(0, 60));
        let (a, small) = measure(|| p0.transformation_from_alg(&alg));
        let (b, big) = measure(|| p1.transformation_from_alg(&alg));
        check!(a.is_ok() && b.is_ok(), "an alg is refused");
        if counting {
            linear("evaluating on a puzzle with more moves", 1, &small, &big)?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// History

struct Task {
    def: MDef,
    tree: Vec<N>,
    alg: Alg,
    alg_text: String,
    pat: MPat,
    /// What the reference interpreter says.
    expected: Option<(MTrans, MPat)>,
    /// The messages seen in this case.
    said: Said,
}

/// What each refused operation said when it was first seen.
type Said = std::rc::Rc<std::cell::RefCell<std::collections::HashMap<(String, String), String>>>;

/// The message of a refusal is part of the result: the same arguments get the same message.
fn says_the_same(said: &Said, puzzle: &str, what: &str, message: String) -> R {
    let mut said = said.borrow_mut();
    let first = said
        .entry((puzzle.into(), what.into()))
        .or_insert_with(|| message.clone());
    check!(
        *first == message,
        "refusing {:?} now says {:?}, before it said {:?}",
        what,
        message,
        first
    );
    Ok(())
}

fn run_task(task: &Task, puzzle: &KPuzzle) -> R {
    let o = &task.def.orbits;
    let t = no_panic("transformation_from_alg", || puzzle.transformation_from_alg(&task.alg))?;
    let x = make_pattern(&task.def, puzzle, &task.pat)?;
    let y = no_panic("apply_alg", || x.apply_alg(&task.alg))?;
    match (&task.expected, t, y) {
        (None, Err(e), Err(f)) => {
            let def = task.def.to_json();
            says_the_same(&task.said, &def, &task.alg_text, e.to_string())?;
            says_the_same(&task.said, &def, &format!("apply_alg {}", task.alg_text), f.to_string())?;
        }
        (Some((mt, mp)), Ok(t), Ok(y)) => {
            check!(
                MTrans::read(&t, o)? == *mt,
                "{:?} now evaluates to something else on {}",
                task.alg_text,
                task.def.to_json()
            );
            check!(
                MPat::read(&y, o)? == *mp,
                "{:?} now takes a pattern to another one on {}",
                task.alg_text,
                task.def.to_json()
            );
            check!(
                no_panic("apply_transformation", || x.apply_transformation(&t))? == y,
                "{:?}: apply_alg and apply_transformation differ",
                task.alg_text
            );
        }
        (_, t, y) => {
            return Err(format!(
                "{:?} is valid or not, differently than before: {:?} {:?} on {}",
                task.alg_text,
                t.map(|t| t.to_data()).map_err(|e| e.to_string()),
                y.map(|y| y.to_data()).map_err(|e| e.to_string()),
                task.def.to_json()
            ))
        }
    }
    check!(
        MPat::read(&x, o)? == task.pat,
        "a pattern changed while it was only used"
    );
    // Moves on their own, too.
    for n in task.tree.iter().take(3) {
        if let N::Move(m) = n {
            let r = no_panic("transformation_from_move", || {
                puzzle.transformation_from_move(&to_lib_move(m))
            })?;
            match (task.def.eval_move(m), r) {
                (Ok(mt), Ok(t)) => {
                    check!(
                        MTrans::read(&t, o)? == mt,
                        "{} now evaluates to something else on {}",
                        print_move(m),
                        task.def.to_json()
                    );
                    let y = no_panic("apply_move", || x.apply_move(&to_lib_move(m)))?.map_err(|e| e.to_string())?;
                    check!(
                        MPat::read(&y, o)? == task.pat.apply(&mt, o),
                        "{} now takes a pattern to another one on {}",
                        print_move(m),
                        task.def.to_json()
                    );
                }
                (Err(_), Err(e)) => {
                    says_the_same(&task.said, &task.def.to_json(), &format!("move {}", print_move(m)), e.to_string())?
                }
                _ => return Err(format!("{} is valid or not, differently than before", print_move(m))),
            }
        }
    }
    // The inputs are as they were.
    check!(
        task.alg.to_string() == task.alg_text && from_lib(&task.alg) == task.tree,
        "an alg changed while it was only used: {}",
        task.alg_text
    );
    Ok(())
}

pub fn history(ctx: &mut Ctx) {
    ctx.cases("interleaving", 2_500, 60_000, |c| {
        // Puzzles that look alike: the same name, orbits and move names, other moves.
        let cfg = DefCfg {
            max_orbits: 2,
            max_pieces: 8,
            max_moves: 3,
            max_derived: 2,
            big: false,
            plain_keys: true,
        };
        let mut base = gen_def(&mut c.rng, &cfg);
        base.name = "same".into();
        let mut defs = vec![base.clone()];
        for _ in 0..3 {
            let mut d = base.clone();
            match c.rng.below(4) {
                0 => d = {
                    let mut d = gen_def(&mut c.rng, &cfg);
                    d.name = "same".into();
                    d
                },
                1 => d.moves.shrink_to_fit(),
                _ => {}
            }
            for (_, t) in d.moves.iter_mut() {
                *t = gen_trans(&mut c.rng, &d.orbits);
            }
            d.default = gen_pat(&mut c.rng, &d.orbits);
            d.default_has_mod = d.default.mods_needed();
            defs.push(d);
        }
        if c.rng.chance(1, 10) {
            defs[0] = shipped(c.rng.below(2)).0;
        }
        let acfg = AlgCfg {
            max_len: 5,
            max_depth: 2,
            unknown: Some(20),
            big_amounts: true,
        };
        let trees: Vec<Vec<N>> = (0..3).map(|_| gen_puzzle_alg(&mut c.rng, &base, &acfg, 0)).collect();
        let said = Said::default();
        let mut tasks: Vec<Task> = vec![];
        for _ in 0..8 {
            let def = c.rng.pick(&defs).clone();
            // Mostly the same algs on all of them.
            let tree = if c.rng.chance(2, 3) {
                c.rng.pick(&trees).clone()
            } else {
                gen_puzzle_alg(&mut c.rng, &def, &acfg, 0)
            };
            let pat = gen_pat(&mut c.rng, &def.orbits);
            let expected = def.eval(&tree).ok().map(|t| {
                let p = pat.apply(&t, &def.orbits);
                (t, p)
            });
            let alg = to_lib(&tree);
            tasks.push(Task {
                alg_text: alg.to_string(),
                alg,
                tree,
                pat,
                expected,
                def,
                said: said.clone(),
            });
        }
        c.distinct(format!("{:?}", tasks.iter().map(|t| (t.def.to_json(), &t.alg_text)).collect::<Vec<_>>()));
        c.sample(|| json!(tasks.iter().map(|t| t.alg_text.clone()).collect::<Vec<_>>()));
        // Live puzzles come and go; memory is given back and handed out again.
        let mut live: Vec<(usize, KPuzzle)> = vec![];
        let mut kept: Vec<(usize, KPattern, MPat)> = vec![];
        for _ in 0..30 {
            match c.rng.below(12) {
                0..=4 => {
                    let i = c.rng.below(tasks.len());
                    let p = no_panic("constructing a puzzle", || tasks[i].def.build())??;
                    run_task(&tasks[i], &p)?;
                    live.push((i, p));
                    c.bucket("evaluations on a new puzzle");
                }
                5..=7 if !live.is_empty() => {
                    let (i, p) = &live[c.rng.below(live.len())];
                    run_task(&tasks[*i], p)?;
                    c.bucket("evaluations on an old puzzle");
                }
                8 if !live.is_empty() => {
                    // Another puzzle at the same place, at once.
                    let k = c.rng.below(live.len());
                    drop(live.swap_remove(k));
                    let i = c.rng.below(tasks.len());
                    let p = no_panic("constructing a puzzle", || tasks[i].def.build())??;
                    run_task(&tasks[i], &p)?;
                    live.push((i, p));
                    c.bucket("evaluations after a drop");
                }
                9 => {
                    // Failures of all kinds.
                    let text = any_text(&mut c.rng);
                    let _ = no_panic("parsing", || Alg::from_str(&text));
                    let _ = no_panic("constructing a puzzle", || KPuzzle::try_from_json(b"{}"))?;
                    let mut bad = tasks[c.rng.below(tasks.len())].def.clone();
                    bad.derived = Some(vec![(mv("loop", 1), vec![N::Move(mv("loop", 1))])]);
                    let r = no_panic("constructing a puzzle", || KPuzzle::try_from_json(bad.to_json().as_bytes()))?;
                    check!(r.is_err(), "a recursive definition was accepted");
                    if let Some((i, p)) = live.first() {
                        let json = tasks[*i].def.to_json();
                        for _ in 0..1 + c.rng.below(4) {
                            let m = mv(if c.rng.chance(3, 4) { "nope" } else { "nay" }, c.rng.range(-2, 4));
                            match no_panic("transformation_from_move", || p.transformation_from_move(&to_lib_move(&m)))? {
                                Ok(_) => return Err("a move that does not exist was accepted".into()),
                                Err(e) => {
                                    says_the_same(&said, &json, &format!("move {}", print_move(&m)), e.to_string())?
                                }
                            }
                        }
                        c.bucket("messages compared with earlier ones");
                        let x = no_panic("identity", || p.identity_transformation())?;
                        if let Some(o) = p.orbit_info_iter().next() {
                            let mut x = x.clone();
                            panics(|| x.set_permutation_idx(o, 255, 255));
                            panics(|| {
                                x.get_permutation_idx(o, 255);
                            });
                        }
                    }
                    c.bucket("failures");
                }
                10 if !live.is_empty() => {
                    let (i, p) = &live[c.rng.below(live.len())];
                    let task = &tasks[*i];
                    let x = make_pattern(&task.def, p, &task.pat)?;
                    kept.push((*i, x, task.pat.clone()));
                }
                11 if !kept.is_empty() => {
                    // Patterns kept from before, some of puzzles without any other handle.
                    let k = c.rng.below(kept.len());
                    let (i, x, m) = &mut kept[k];
                    let task = &tasks[*i];
                    check!(
                        MPat::read(x, &task.def.orbits)? == *m,
                        "a pattern changed while something else ran"
                    );
                    if let Some((t, _)) = &task.expected {
                        *x = no_panic("apply_alg", || x.apply_alg(&task.alg))?
                            .map_err(|e| format!("{:?} was accepted before: {}", task.alg_text, e))?;
                        *m = m.apply(t, &task.def.orbits);
                        check!(
                            MPat::read(x, &task.def.orbits)? == *m,
                            "{:?} now takes a pattern to another one",
                            task.alg_text
                        );
                        c.bucket("old patterns advanced");
                    }
                }
                _ => {
                    if live.len() > 3 {
                        let k = c.rng.below(live.len());
                        live.swap_remove(k);
                    }
                    if kept.len() > 3 {
                        let k = c.rng.below(kept.len());
                        kept.swap_remove(k);
                    }
                }
            }
        }
        for (i, x, m) in &kept {
            check!(
                MPat::read(x, &tasks[*i].def.orbits)? == *m,
                "a pattern changed while something else ran"
            );
        }
        Ok(())
    });
    // What is read is what is there now: texts at the same address and of the same length, one
    // after another.
    ctx.cases("one buffer", 1_500, 30_000, |c| {
        let cfg = GenCfg { max_depth: 3, max_len: 8 };
        let mut buf = String::with_capacity(1 << 14);
        for _ in 0..3 {
            buf.clear();
            buf.push_str(&print(&gen_alg(&mut c.rng, &cfg, 0)));
            if buf.len() > 12_000 || buf.is_empty() {
                continue;
            }
            c.distinct(buf.clone());
            for _ in 0..6 {
                // Another character somewhere.
                let at = c.rng.below(buf.len());
                if buf.is_char_boundary(at) && buf.as_bytes()[at].is_ascii() {
                    let ch = *c.rng.pick(&["R", "U", "L", "'", "2", "7", " ", ".", "(", ",", ":", "/"]);
                    buf.replace_range(at..at + 1, ch);
                }
                let want = parse(&buf);
                let alg = no_panic("parsing", || Alg::from_str(&buf))?;
                check!(
                    alg.as_ref().ok().map(from_lib) == want,
                    "{:?}, in a buffer that held another text before, was read as {:?}",
                    clip(&buf, 300),
                    alg.map(|a| a.to_string())
                );
                c.bucket(if want.is_some() { "texts read" } else { "texts refused" });
                let word = buf.split_whitespace().next().unwrap_or("").to_owned();
                if !word.is_empty() && buf.starts_with(&word) {
                    let w = &buf[..word.len()];
                    let m = no_panic("parsing", || Move::from_str(w))?;
                    check!(
                        m.as_ref().ok().map(from_lib_move) == parse_move(w),
                        "{:?}, in a buffer that held another text before, was read as {:?}",
                        clip(w, 300),
                        m.map(|m| m.to_string())
                    );
                }
            }
        }
        // A definition, too.
        let mut def = gen_def(
            &mut c.rng,
            &DefCfg {
                max_orbits: 2,
                max_pieces: 5,
                max_moves: 2,
                max_derived: 0,
                big: false,
                plain_keys: true,
            },
        );
        let mut bytes = Vec::with_capacity(1 << 16);
        for _ in 0..3 {
            for (_, t) in def.moves.iter_mut() {
                *t = gen_trans(&mut c.rng, &def.orbits);
            }
            bytes.clear();
            bytes.extend_from_slice(def.to_json().as_bytes());
            let p = no_panic("constructing a puzzle", || KPuzzle::try_from_json(&bytes))?.map_err(|e| e.to_string())?;
            for (m, _) in &def.moves {
                let t = no_panic("transformation_from_move", || p.transformation_from_move(&to_lib_move(m)))?
                    .map_err(|e| e.to_string())?;
                check!(
                    MTrans::read(&t, &def.orbits)? == def.eval_move(m).map_err(|e| format!("{:?}", e))?,
                    "{} is something else on {}, read from a buffer that held another definition before",
                    print_move(m),
                    def.to_json()
                );
            }
        }
        Ok(())
    });
    // Nothing wears out: the same again after very many operations of one kind, in one thread.
    ctx.cases("wear", 32, 320, |c| {
        let cfg = DefCfg {
            max_orbits: 2,
            max_pieces: 6,
            max_moves: 3,
            max_derived: 2,
            big: false,
            plain_keys: true,
        };
        let def = gen_def(&mut c.rng, &cfg);
        let acfg = AlgCfg {
            max_len: 6,
            max_depth: 3,
            unknown: Some(20),
            big_amounts: true,
        };
        let mut tasks = vec![];
        for _ in 0..6 {
            let tree = gen_puzzle_alg(&mut c.rng, &def, &acfg, 0);
            let pat = gen_pat(&mut c.rng, &def.orbits);
            let expected = def.eval(&tree).ok().map(|t| {
                let p = pat.apply(&t, &def.orbits);
                (t, p)
            });
            let alg = to_lib(&tree);
            tasks.push(Task {
                alg_text: alg.to_string(),
                alg,
                tree,
                pat,
                expected,
                def: def.clone(),
                said: Said::default(),
            });
        }
        let mut texts: Vec<String> = (0..10).map(|_| any_text(&mut c.rng)).collect();
        for (open, close) in [("(", ")"), ("[R, ", "]"), ("[R: ", "]2")] {
            let d = 1 + c.rng.below(40);
            texts.push(format!("{}U{}", open.repeat(d), close.repeat(d)));
        }
        texts.push("R // a\n(U, D)\n".into());
        texts.push("(3, -4) / (0, 1)".into());
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let observe = |puzzle: &KPuzzle| -> R {
            for t in &texts {
                let r = no_panic("parsing", || Alg::from_str(t))?;
                match (parse(t), r) {
                    (Some(m), Ok(a)) => check!(
                        from_lib(&a) == m && a.to_string() == print(&m) && from_lib(&a.invert()) == invert(&m),
                        "{:?} now means something else",
                        t
                    ),
                    (None, Err(_)) => {}
                    (m, _) => return Err(format!("{:?} is {} now", t, if m.is_some() { "refused" } else { "accepted" })),
                }
            }
            for t in &tasks {
                run_task(t, puzzle)?;
            }
            let again = no_panic("constructing a puzzle", || def.build())??;
            run_task(&tasks[0], &again)
        };
        observe(&puzzle)?;
        let many = 70_000 / if cfg!(debug_assertions) { 2 } else { 1 };
        let kind = (c.idx % 8) as usize;
        let bad_texts = ["(R", "((R)", "[R, U", "[R: ", "[R", "R!", "(3, ", "[[R, U], [(", ")", "R)"];
        let bad = *c.rng.pick(&bad_texts);
        let name = |i: usize| {
            let mut s = String::new();
            let mut i = i + 1;
            while i > 0 {
                s.push((b'a' + (i % 26) as u8) as char);
                i /= 26;
            }
            s
        };
        let what = match kind {
            0 | 1 => {
                for i in 0..many {
                    let bad = if kind == 0 { bad } else { bad_texts[i % bad_texts.len()] };
                    let r = no_panic("parsing", || Alg::from_str(bad))?;
                    check!(r.is_err(), "{:?} is accepted now", bad);
                }
                "refused texts"
            }
            2 => {
                for i in 0..many {
                    let text = format!("{}{}", name(i), 2 + i % 7);
                    let m = no_panic("parsing", || to_lib_move(&mv("R", 1)).to_string() == "R" && text.parse::<Move>().is_ok())?;
                    check!(m, "{:?} is refused now", text);
                }
                "distinct moves"
            }
            3 => {
                for i in 0..many / 2 {
                    let text = format!("({})2 [{}: R]", name(i), name(i / 2));
                    let r = no_panic("parsing", || text.parse::<Alg>().map(|a| a.invert().invert().to_string() == text))?;
                    check!(r.unwrap_or(false), "{:?} is refused or changed now", text);
                }
                "distinct algs"
            }
            4 => {
                for i in 0..many {
                    let m = to_lib_move(&mv(&name(i * 17 + 40_000), 1 + (i % 5) as i64));
                    let r = no_panic("transformation_from_move", || puzzle.transformation_from_move(&m).is_err())?;
                    check!(r || def.eval_move(&from_lib_move(&m)).is_ok(), "{} is accepted now", m);
                }
                "unknown moves"
            }
            5 => {
                for i in 0..many / 4 {
                    for (m, _) in &def.moves {
                        let amt = m.amt * (i as i64 % 50_000);
                        let m = m.with_amt(if amt.abs() > i32::MAX as i64 { 0 } else { amt });
                        let r = no_panic("transformation_from_move", || puzzle.transformation_from_move(&to_lib_move(&m)))?;
                        check!(r.is_ok() == def.eval_move(&m).is_ok(), "{} is valid or not, differently than before", print_move(&m));
                    }
                }
                "evaluated moves"
            }
            6 => {
                // Steps on one pattern: back at the start after a move and its inverse.
                let start = make_pattern(&def, &puzzle, &tasks[0].pat)?;
                let alg = to_lib(&def.moves.iter().take(2).map(|(m, _)| N::Move(m.clone())).collect::<Vec<_>>());
                let back = alg.invert();
                let mut x = start.clone();
                for _ in 0..many / 4 {
                    x = no_panic("apply_alg", || x.apply_alg(&alg).and_then(|x| x.apply_alg(&back)))?.map_err(|e| e.to_string())?;
                }
                check!(x == start, "a move and its inverse lead elsewhere now");
                "steps on a pattern"
            }
            _ => {
                for _ in 0..many / 40 {
                    let p = no_panic("constructing a puzzle", || def.build())??;
                    let q = no_panic("constructing a puzzle", || KPuzzle::try_from_json(b"{\"name\": \"x\"}"))?;
                    check!(q.is_err(), "an incomplete definition is accepted now");
                    drop(p);
                }
                "puzzles"
            }
        };
        observe(&puzzle)?;
        c.bucket("observed again after tens of thousands of operations");
        c.bucket(&format!("wear: {}", what));
        c.distinct(format!("{} {} {:?}", kind, def.to_json(), texts));
        Ok(())
    });
    // The notation keeps nothing between calls, either.
    ctx.cases("notation", 8_000, 150_000, |c| {
        let mut texts: Vec<String> = (0..3).map(|_| any_text(&mut c.rng)).collect();
        // Texts of the same length, and prefixes of one another.
        let mut t = texts[0].clone();
        t.pop();
        texts.push(t);
        let t = texts[1].replace('R', "L").replace('2', "3");
        texts.push(t);
        c.distinct(texts.join("\0"));
        let models: Vec<Option<Vec<N>>> = texts.iter().map(|t| parse(t)).collect();
        let mut pool: Vec<(usize, Alg)> = vec![];
        let said = Said::default();
        for _ in 0..12 {
            let i = c.rng.below(texts.len());
            let r = no_panic("parsing", || Alg::from_str(&texts[i]))?;
            match (&models[i], r) {
                (Some(m), Ok(a)) => {
                    check!(
                        from_lib(&a) == *m,
                        "{:?} now parses to {:?}",
                        texts[i],
                        a.to_string()
                    );
                    check!(
                        a.to_string() == print(m) && from_lib(&a.invert()) == invert(m),
                        "{:?} now prints or inverts differently",
                        texts[i]
                    );
                    c.bucket("accepted");
                    pool.push((i, a));
                }
                (None, Err(e)) => {
                    says_the_same(&said, "", &texts[i], e.to_string())?;
                    c.bucket("refused")
                }
                _ => return Err(format!("{:?} is valid or not, differently than before", texts[i])),
            }
            if !pool.is_empty() {
                let k = c.rng.below(pool.len());
                let (i, a) = &pool[k];
                check!(
                    Some(from_lib(a)) == models[*i],
                    "an alg changed while something else ran"
                );
                if c.rng.chance(1, 2) {
                    pool.swap_remove(k);
                }
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// Errors

/// The chain of causes ends, and each has a text.
fn causes(e: &dyn Error) -> R {
    let mut at = e;
    for _ in 0..16 {
        check!(!at.to_string().is_empty(), "a cause without text");
        match at.source() {
            Some(next) => at = next,
            None => return Ok(()),
        }
    }
    Err(format!("the causes of {:?} do not end", e.to_string()))
}

fn invalid_move_error(e: &InvalidAlgError, unresolvable: &[MMove]) -> R {
    causes(e)?;
    let InvalidAlgError::InvalidMove(m) = e else {
        return Err(format!("a move that does not exist is reported as {:?}", e));
    };
    check!(
        e.to_string() == m.to_string() && m.description == m.to_string(),
        "the error says {:?}, its cause {:?}",
        e.to_string(),
        m.to_string()
    );
    let names: Vec<String> = unresolvable.iter().map(print_move).collect();
    check!(
        names.iter().any(|n| m.description.ends_with(n.as_str())),
        "none of the moves that do not exist, {:?}, is named by the error {:?}",
        names,
        m.description
    );
    Ok(())
}

pub fn errors(ctx: &mut Ctx) {
    ctx.cases("moves", 12_000, 250_000, |c| {
        let def = gen_def(&mut c.rng, &NORMAL);
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let cfg = AlgCfg {
            max_len: 6,
            max_depth: 3,
            unknown: Some(6),
            big_amounts: true,
        };
        let mut alg = gen_puzzle_alg(&mut c.rng, &def, &cfg, 0);
        // Where the result does not depend on it, too.
        if c.rng.chance(1, 3) {
            let m = N::Move(gen_move(&mut c.rng));
            let hidden = match c.rng.below(5) {
                0 => N::Group(vec![m], 0),
                1 => N::Comm(vec![m], vec![]),
                2 => N::Comm(vec![], vec![m]),
                3 => N::Conj(vec![m], vec![]),
                _ => N::Conj(vec![], vec![N::Group(vec![N::Pause, m], 0)]),
            };
            let at = c.rng.below(alg.len() + 1);
            alg.insert(at, hidden);
        }
        let missing = def.unresolvable(&alg);
        let lib = to_lib(&alg);
        c.distinct(format!("{}{}", def.to_json(), print(&alg)));
        c.sample(|| json!({"alg": print(&alg), "missing": missing.iter().map(print_move).collect::<Vec<_>>()}));
        let pat = gen_pat(&mut c.rng, &def.orbits);
        let x = make_pattern(&def, &puzzle, &pat)?;
        let a = no_panic("transformation_from_alg", || puzzle.transformation_from_alg(&lib))?;
        let b = no_panic("apply_alg", || x.apply_alg(&lib))?;
        match (missing.is_empty(), a, b) {
            (true, Ok(_), Ok(_)) => c.bucket("accepted"),
            (false, Err(a), Err(b)) => {
                c.bucket("refused");
                invalid_move_error(&a, &missing)?;
                invalid_move_error(&b, &missing)?;
            }
            (none, a, b) => {
                return Err(format!(
                    "an alg with {} moves that do not exist was {} and {}: {}",
                    if none { "no" } else { "some" },
                    if a.is_ok() { "accepted" } else { "refused" },
                    if b.is_ok() { "accepted" } else { "refused" },
                    print(&alg)
                ))
            }
        }
        check!(
            MPat::read(&x, &def.orbits)? == pat,
            "a pattern changed although it was only read"
        );
        // One move at a time.
        let m = if c.rng.chance(1, 2) {
            gen_move(&mut c.rng)
        } else {
            match gen_known_move(&mut c.rng, &def, true) {
                Some(m) => m,
                None => return Ok(()),
            }
        };
        let lib = to_lib_move(&m);
        let a = no_panic("transformation_from_move", || puzzle.transformation_from_move(&lib))?;
        let b = no_panic("apply_move", || x.apply_move(&lib))?;
        match (def.resolve(&m), a, b) {
            (Some(_), Ok(_), Ok(_)) => c.bucket("moves accepted"),
            (None, Err(a), Err(b)) => {
                c.bucket("moves refused");
                invalid_move_error(&a, &[m.clone()])?;
                invalid_move_error(&b, &[m])?;
            }
            (r, ..) => {
                return Err(format!(
                    "{} does {}exist on the puzzle, but is treated otherwise",
                    print_move(&m),
                    if r.is_some() { "" } else { "not " }
                ))
            }
        }
        Ok(())
    });
    ctx.cases("notation", 30_000, 600_000, |c| {
        let text = any_text(&mut c.rng);
        c.distinct(&text);
        if let Err(e) = no_panic("parsing", || Alg::from_str(&text))? {
            check!(parse(&text).is_none(), "{:?} is an alg, but refused", clip(&text, 300));
            check!(
                !e.to_string().is_empty() && e.description == e.to_string(),
                "the error for {:?} says {:?}, its text is {:?}",
                clip(&text, 300),
                e.description,
                e.to_string()
            );
            let again = Alg::from_str(&text);
            check!(
                again.is_err_and(|f| f.description == e.description),
                "{:?} is refused differently the second time",
                clip(&text, 300)
            );
            let as_alg_error = InvalidAlgError::from(e);
            causes(&as_alg_error)?;
            check!(
                matches!(as_alg_error, InvalidAlgError::AlgParse(_)),
                "a parse error turned into {:?}",
                as_alg_error
            );
            c.bucket("algs refused");
        } else {
            check!(parse(&text).is_some(), "{:?} is no alg, but accepted", clip(&text, 300));
            c.bucket("algs accepted");
        }
        if let Err(e) = no_panic("parsing a move", || Move::from_str(&text))? {
            check!(!e.to_string().is_empty(), "an error without text for the move {:?}", clip(&text, 300));
            c.bucket("moves refused");
        }
        if let Err(e) = no_panic("parsing a quantum move", || QuantumMove::from_str(&text))? {
            check!(!e.to_string().is_empty(), "an error without text for the quantum move {:?}", clip(&text, 300));
            c.bucket("quantum moves refused");
        }
        Ok(())
    });
    // Definitions: the description names what is wrong.
    ctx.cases("definitions", 12_000, 200_000, |c| {
        let mut def = gen_def(&mut c.rng, &NORMAL);
        def.name = "p".into();
        if def.orbits.is_empty() {
            return Ok(());
        }
        let k = c.rng.below(def.orbits.len());
        let orbit = def.orbits[k].name.clone();
        let (kind, names): (&str, Vec<String>) = match c.rng.below(4) {
            0 => {
                let bad: Vec<u32> = (0..=255).filter(|n| !valid_num_orientations(*n)).collect();
                let n = *c.rng.pick(&bad);
                def.orbits[k].no = n as u8;
                ("orientations", vec![format!("{}", n), orbit])
            }
            1 => {
                let m = mv("Zz", *c.rng.pick(&[1, 2, -1, 5]));
                let mut alg = vec![N::Move(m.clone())];
                for _ in 0..c.rng.below(3) {
                    alg = vec![match c.rng.below(4) {
                        0 => N::Group(alg, 2),
                        1 => N::Comm(alg, vec![]),
                        2 => N::Conj(vec![], alg),
                        _ => N::Conj(alg, vec![N::Pause]),
                    }];
                }
                let d = def.derived.get_or_insert_with(Vec::new);
                d.push((mv("Zy", 1), alg));
                ("unknown move", vec![print_move(&m)])
            }
            2 => {
                // A cycle through one to three moves.
                let n = 1 + c.rng.below(3);
                let d = def.derived.get_or_insert_with(Vec::new);
                let fams = ["Zya", "Zyb", "Zyc"];
                for i in 0..n {
                    d.push((mv(fams[i], 1), vec![N::Group(vec![N::Move(mv(fams[(i + 1) % n], 1))], 1)]));
                }
                // Not one of these names will do for the others: only a move on the cycle.
                ("recursive", vec!["Zya".into()])
            }
            _ => {
                if def.moves.is_empty() || def.orbits[k].np == 0 {
                    return Ok(());
                }
                let i = c.rng.below(def.moves.len());
                let (np, no) = (def.orbits[k].np, def.orbits[k].no);
                let o = &mut def.moves[i].1 .0[k];
                match c.rng.below(4) {
                    0 => {
                        o.pop();
                    }
                    1 => o[0].0 = np,
                    2 => o[0].1 = no,
                    _ => {
                        if np < 2 {
                            return Ok(());
                        }
                        o[0].0 = o[1].0
                    }
                }
                let m = def.moves[i].0.clone();
                ("move data", vec![orbit, print_move(&m)])
            }
        };
        c.distinct(format!("{}{}", kind, def.to_json()));
        c.sample(|| json!({"wrong": kind, "names": names}));
        let json = def.to_json();
        let a = no_panic("KPuzzle::try_from_json", || KPuzzle::try_from_json(json.as_bytes()))?;
        let b = no_panic("KPuzzle::try_new", || KPuzzle::try_new(def.to_definition()))?;
        for r in [a, b] {
            let Err(e) = r else {
                return Err(format!("a definition with a wrong {} was accepted: {}", kind, json));
            };
            check!(
                e.description == e.to_string(),
                "the error says {:?}, its text is {:?}",
                e.description,
                e.to_string()
            );
            for n in &names {
                check!(
                    super::data::names(&e.description, n)
                        || kind == "recursive" && def.moves_at_fault().iter().any(|m| super::data::names(&e.description, m)),
                    "the error for a definition with a wrong {} does not name {:?}: {:?}",
                    kind,
                    n,
                    e.description
                );
            }
            let e = ConversionError::from(e);
            check!(
                matches!(e, ConversionError::InvalidDefinition(_)) && !e.to_string().is_empty(),
                "a definition error turned into {:?}",
                e
            );
        }
        c.bucket(&format!("refused: {}", kind));
        Ok(())
    });
    // Data: the right kind of error, naming an orbit that is wrong.
    ctx.cases("data", 20_000, 400_000, |c| {
        let def = gen_def(&mut c.rng, &NORMAL);
        if def.orbits.is_empty() {
            return Ok(());
        }
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let orbits: Vec<(String, u8, u8)> = def.orbits.iter().map(|o| (o.name.clone(), o.np, o.no)).collect();
        let k = c.rng.below(orbits.len());
        let (name, np, no) = orbits[k].clone();
        let key = KPuzzleOrbitName(name.clone());
        let err = if c.rng.chance(1, 2) {
            let mut pat = gen_pat(&mut c.rng, &def.orbits);
            // A modulus that is no divisor, an orientation beyond it, a missing entry or orbit.
            let what = c.rng.below(4);
            if np > 0 {
                let i = c.rng.below(np as usize);
                match what {
                    0 => pat.0[k][i] = (0, no, 0),
                    1 => pat.0[k][i] = (0, 0, no.wrapping_add(1)),
                    _ => {}
                }
            }
            let mut data = pat.to_data(&def.orbits, &pat.mods_needed());
            match what {
                2 => {
                    data.remove(&key);
                }
                3 => {
                    let d = data.get_mut(&key).unwrap();
                    match c.rng.below(3) {
                        0 => {
                            d.pieces.pop();
                        }
                        1 => {
                            d.orientation.pop();
                        }
                        _ => d.orientation_mod = Some(vec![0; (np as usize).saturating_sub(1)]),
                    }
                }
                _ => {}
            }
            if pattern_data_valid(&orbits, &data) {
                return Ok(());
            }
            c.distinct(format!("{}{:?}", what, data));
            c.sample(|| json!(format!("{:?}", data)));
            let Err(e) = no_panic("try_from_data", || KPattern::try_from_data(&puzzle, &data))? else {
                return Err(format!("invalid pattern data was accepted: {:?}", data));
            };
            check!(
                matches!(e, ConversionError::InvalidKPatternData(_)),
                "invalid pattern data is reported as {:?}",
                e
            );
            c.bucket("pattern data refused");
            e
        } else {
            let mut data = gen_trans(&mut c.rng, &def.orbits).to_data(&def.orbits);
            match c.rng.below(4) {
                0 => {
                    data.remove(&key);
                }
                1 => {
                    data.get_mut(&key).unwrap().permutation.pop();
                }
                2 => {
                    data.get_mut(&key).unwrap().orientation_delta.pop();
                }
                _ => {
                    if np == 0 {
                        return Ok(());
                    }
                    let i = c.rng.below(np as usize);
                    let d = data.get_mut(&key).unwrap();
                    if c.rng.chance(1, 2) {
                        d.permutation[i] = np
                    } else {
                        d.orientation_delta[i] = no
                    }
                }
            }
            if trans_data_valid(&orbits, &data) {
                return Ok(());
            }
            c.distinct(format!("{:?}", data));
            let Err(e) = no_panic("try_from_data", || KTransformation::try_from_data(&puzzle, &data))? else {
                return Err(format!("invalid transformation data was accepted: {:?}", data));
            };
            check!(
                matches!(e, ConversionError::InvalidKTransformationData(_)),
                "invalid transformation data is reported as {:?}",
                e
            );
            c.bucket("transformation data refused");
            e
        };
        check!(
            err.to_string().contains(&name) && !err.to_string().is_empty(),
            "the error does not name the orbit {:?}: {:?}",
            name,
            err.to_string()
        );
        Ok(())
    });
    // Documented bounds: a wrong index or value is refused by a panic, and changes nothing.
    ctx.cases("bounds", 4_000, 60_000, |c| {
        let def = gen_def(&mut c.rng, &NORMAL);
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let pat = gen_pat(&mut c.rng, &def.orbits);
        let t = gen_trans(&mut c.rng, &def.orbits);
        let mut x = make_pattern(&def, &puzzle, &pat)?;
        let mut y = make_trans(&def, &puzzle, &t)?;
        c.distinct(format!("{:?}{:?}", pat, t));
        let mut refused = 0;
        for o in puzzle.orbit_info_iter() {
            let i = o.num_pieces.saturating_add(c.rng.below(3) as u8);
            if i < o.num_pieces {
                continue;
            }
            let w = OrientationWithMod {
                orientation: 0,
                orientation_mod: 0,
            };
            refused += panics(|| x.set_piece(o, i, 0)) as u64;
            refused += panics(|| x.set_orientation_with_mod(o, i, &w)) as u64;
            refused += panics(|| y.set_permutation_idx(o, i, 0)) as u64;
            refused += panics(|| y.set_orientation_delta(o, i, 0)) as u64;
        }
        c.bucket_n("refused accesses", refused);
        check!(
            MPat::read(&x, &def.orbits)? == pat && MTrans::read(&y, &def.orbits)? == t,
            "an access beyond an orbit changed another entry: {:?} {:?}",
            x,
            y
        );
        // A zero-amount group of anything, too, leaves things as they are.
        let g = Alg {
            nodes: vec![AlgNode::GroupingNode(Grouping {
                alg: std::sync::Arc::new(Alg { nodes: vec![] }),
                amount: 0,
            })],
        };
        check!(
            x.apply_alg(&g).is_ok_and(|y| y == x),
            "an empty group of amount 0 changes a pattern"
        );
        Ok(())
    });
}

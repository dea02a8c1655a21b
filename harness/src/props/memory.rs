//! Memory safety and thread safety: arbitrary programs over the safe API. The deciding observers
//! are outside: the monitoring allocator, AddressSanitizer, Miri, ThreadSanitizer. What is checked
//! here besides is that every value stays readable and within its bounds.

use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

use cubing_core::alg::{Alg, AlgBuilder, AlgNode, Commutator, Move, Pause, QuantumMove};
use cubing_core::kpuzzle::{
    KPattern, KPatternBuffer, KPuzzle, KPuzzleOrbitInfo, KTransformation, KTransformationBuffer,
    OrientationWithMod,
};
use cubing_core::puzzles::{cube2x2x2_kpuzzle, cube3x3x3_kpuzzle};
use serde_json::json;

use super::eval::{make_pattern, make_trans, shipped};
use crate::check;
use crate::ctx::{no_panic, panics, Case, Ctx, R};
use crate::model_alg::*;
use crate::model_puzzle::*;
use crate::rng::Rng;

const MIRI: bool = cfg!(miri);

/// Every entry of a pattern can be read and is a possible value.
fn intact_pattern(p: &KPattern) -> R {
    for o in p.kpuzzle().orbit_info_iter() {
        for i in 0..o.num_pieces {
            std::hint::black_box(p.get_piece(o, i));
            let w = p.get_orientation_with_mod(o, i);
            let limit = if w.orientation_mod == 0 {
                o.num_orientations
            } else {
                check!(
                    o.num_orientations % w.orientation_mod == 0,
                    "position {} of an orbit with {} orientations has {:?}",
                    i,
                    o.num_orientations,
                    w
                );
                w.orientation_mod
            };
            check!(
                w.orientation < limit,
                "position {} of an orbit with {} orientations has {:?}",
                i,
                o.num_orientations,
                w
            );
        }
    }
    Ok(())
}

fn intact_trans(t: &KTransformation) -> R {
    for o in t.kpuzzle().orbit_info_iter() {
        for i in 0..o.num_pieces {
            let (p, d) = (t.get_permutation_idx(o, i), t.get_orientation_delta(o, i));
            check!(
                p < o.num_pieces && d < o.num_orientations,
                "position {} of an orbit with {} pieces and {} orientations has {} {}",
                i,
                o.num_pieces,
                o.num_orientations,
                p,
                d
            );
        }
    }
    Ok(())
}

fn small_cfg(rng: &mut Rng) -> DefCfg {
    DefCfg {
        max_orbits: if MIRI { 2 } else { 4 },
        max_pieces: if MIRI { 5 } else { 20 },
        max_moves: 3,
        max_derived: 2,
        big: !MIRI && rng.chance(1, 30),
        plain_keys: false,
    }
}

fn gen_small(rng: &mut Rng) -> MDef {
    let cfg = small_cfg(rng);
    let mut def = gen_def(rng, &cfg);
    if MIRI {
        for o in def.orbits.iter_mut() {
            if o.no > 6 {
                // Building the tables takes Miri too long for large counts.
                return one(rng);
            }
        }
    }
    def.name = "p".into();
    def
}

/// A puzzle of one orbit.
fn one(rng: &mut Rng) -> MDef {
    let orbits = vec![MOrbit {
        name: "A".into(),
        np: rng.below(6) as u8,
        no: 1 + rng.below(4) as u8,
    }];
    let default = gen_pat(rng, &orbits);
    let t = gen_trans(rng, &orbits);
    MDef {
        name: "p".into(),
        default_has_mod: vec![true],
        default,
        moves: vec![(mv("R", 1), t)],
        derived: Some(vec![(mv("U", 1), vec![N::Move(mv("R", 2))])]),
        orbits,
    }
}

struct Pool {
    puzzles: Vec<(MDef, KPuzzle)>,
    patterns: Vec<KPattern>,
    transformations: Vec<KTransformation>,
    pattern_buffers: Vec<KPatternBuffer>,
    transformation_buffers: Vec<KTransformationBuffer>,
}

impl Pool {
    fn step(&mut self, c: &mut Case) -> R {
        let rng = &mut c.rng;
        // Keep the pool small; things are dropped in any order.
        fn trim<T>(rng: &mut Rng, v: &mut Vec<T>) {
            while v.len() > 6 {
                let i = rng.below(v.len());
                v.swap_remove(i);
            }
        }
        trim(rng, &mut self.patterns);
        trim(rng, &mut self.transformations);
        trim(rng, &mut self.pattern_buffers);
        trim(rng, &mut self.transformation_buffers);
        let op = rng.below(24);
        let n = self.puzzles.len();
        match op {
            0 | 1 => {
                let (def, p) = &self.puzzles[rng.below(n)];
                let pat = gen_pat(rng, &def.orbits);
                self.patterns.push(make_pattern(def, p, &pat)?);
                c.bucket("op:make pattern");
            }
            2 => {
                let (def, p) = &self.puzzles[rng.below(n)];
                let t = gen_trans(rng, &def.orbits);
                self.transformations.push(make_trans(def, p, &t)?);
                c.bucket("op:make transformation");
            }
            3 => {
                let (_, p) = &self.puzzles[rng.below(n)];
                self.patterns.push(no_panic("default_pattern", || p.default_pattern())?);
                self.transformations
                    .push(no_panic("identity_transformation", || p.identity_transformation())?);
                c.bucket("op:default");
            }
            4 => {
                let (def, p) = &self.puzzles[rng.below(n)];
                let cfg = AlgCfg {
                    max_len: 4,
                    max_depth: 2,
                    unknown: Some(8),
                    big_amounts: true,
                };
                let alg = to_lib(&gen_puzzle_alg(rng, def, &cfg, 0));
                if let Ok(t) = no_panic("transformation_from_alg", || p.transformation_from_alg(&alg))? {
                    self.transformations.push(t);
                    c.bucket("op:evaluate");
                } else {
                    c.bucket("op:evaluate (refused)");
                }
            }
            5 | 6 if !self.patterns.is_empty() && !self.transformations.is_empty() => {
                // Any pattern with any transformation: of the same puzzle, of one laid out alike,
                // or of another, which has to be refused.
                let x = &self.patterns[rng.below(self.patterns.len())];
                let t = &self.transformations[rng.below(self.transformations.len())];
                let mut out = None;
                let refused = panics(|| out = Some(x.apply_transformation(t)));
                c.bucket(if refused { "op:apply (refused)" } else { "op:apply" });
                if let Some(y) = out {
                    intact_pattern(&y)?;
                    self.patterns.push(y);
                }
            }
            7 | 8 if self.transformations.len() > 1 => {
                let a = &self.transformations[rng.below(self.transformations.len())];
                let b = &self.transformations[rng.below(self.transformations.len())];
                let mut out = None;
                let refused = panics(|| out = Some(a.apply_transformation(b)));
                c.bucket(if refused { "op:compose (refused)" } else { "op:compose" });
                if let Some(t) = out {
                    intact_trans(&t)?;
                    self.transformations.push(t);
                }
            }
            9 if self.patterns.len() > 1 && !self.transformations.is_empty() => {
                let i = rng.below(self.patterns.len());
                let mut target = self.patterns.swap_remove(i);
                let x = &self.patterns[rng.below(self.patterns.len())];
                let t = &self.transformations[rng.below(self.transformations.len())];
                let refused = panics(|| x.apply_transformation_into(t, &mut target));
                c.bucket(if refused { "op:apply into (refused)" } else { "op:apply into" });
                intact_pattern(&target)?;
                self.patterns.push(target);
            }
            10 if self.transformations.len() > 2 => {
                let i = rng.below(self.transformations.len());
                let mut target = self.transformations.swap_remove(i);
                let a = &self.transformations[rng.below(self.transformations.len())];
                let b = &self.transformations[rng.below(self.transformations.len())];
                let refused = panics(|| a.apply_transformation_into(b, &mut target));
                c.bucket(if refused { "op:compose into (refused)" } else { "op:compose into" });
                intact_trans(&target)?;
                self.transformations.push(target);
            }
            11 if !self.transformations.is_empty() => {
                let t = &self.transformations[rng.below(self.transformations.len())];
                let i = no_panic("invert", || t.invert())?;
                intact_trans(&i)?;
                self.transformations.push(i);
                c.bucket("op:invert");
            }
            12 | 13 if !self.patterns.is_empty() => {
                // Any orbit, of any puzzle; any index; any value.
                let k = rng.below(self.patterns.len());
                let x = &mut self.patterns[k];
                let own = x.kpuzzle().clone();
                let p = if rng.chance(1, 2) {
                    own
                } else {
                    self.puzzles[rng.below(n)].1.clone()
                };
                let infos: Vec<&KPuzzleOrbitInfo> = p.orbit_info_iter().collect();
                if infos.is_empty() {
                    return Ok(());
                }
                let o = infos[rng.below(infos.len())];
                let i = if rng.chance(1, 4) {
                    rng.u64() as u8
                } else {
                    rng.below(o.num_pieces.max(1) as usize) as u8
                };
                let w = OrientationWithMod {
                    orientation: if rng.chance(1, 4) { rng.u64() as u8 } else { rng.below(3) as u8 },
                    orientation_mod: if rng.chance(1, 4) { rng.u64() as u8 } else { rng.below(4) as u8 },
                };
                let v = rng.u64() as u8;
                let refused = match rng.below(4) {
                    0 => panics(|| x.set_piece(o, i, v)),
                    1 | 2 => panics(|| x.set_orientation_with_mod(o, i, &w)),
                    _ => panics(|| {
                        std::hint::black_box(x.get_piece(o, i));
                        std::hint::black_box(x.get_orientation_with_mod(o, i));
                    }),
                };
                c.bucket(if refused { "op:access (refused)" } else { "op:access" });
                intact_pattern(x)?;
            }
            14 | 15 if !self.transformations.is_empty() => {
                let k = rng.below(self.transformations.len());
                let x = &mut self.transformations[k];
                let own = x.kpuzzle().clone();
                let p = if rng.chance(1, 2) {
                    own
                } else {
                    self.puzzles[rng.below(n)].1.clone()
                };
                let infos: Vec<&KPuzzleOrbitInfo> = p.orbit_info_iter().collect();
                if infos.is_empty() {
                    return Ok(());
                }
                let o = infos[rng.below(infos.len())];
                let i = if rng.chance(1, 4) {
                    rng.u64() as u8
                } else {
                    rng.below(o.num_pieces.max(1) as usize) as u8
                };
                let v = if rng.chance(1, 3) {
                    rng.u64() as u8
                } else {
                    rng.below(o.num_pieces.max(1) as usize) as u8
                };
                let refused = match rng.below(4) {
                    // Makes duplicates, too.
                    0 | 1 => panics(|| x.set_permutation_idx(o, i, v)),
                    2 => panics(|| x.set_orientation_delta(o, i, v)),
                    _ => panics(|| {
                        std::hint::black_box(x.get_permutation_idx(o, i));
                        std::hint::black_box(x.get_orientation_delta(o, i));
                    }),
                };
                c.bucket(if refused { "op:access (refused)" } else { "op:access" });
                intact_trans(x)?;
            }
            16 if !self.patterns.is_empty() && !self.transformations.is_empty() => {
                let x = self.patterns[rng.below(self.patterns.len())].clone();
                let t = self.transformations[rng.below(self.transformations.len())].clone();
                self.pattern_buffers.push(KPatternBuffer::from(x));
                self.transformation_buffers.push(KTransformationBuffer::from(t));
                c.bucket("op:make buffer");
            }
            17 if !self.pattern_buffers.is_empty() && !self.transformations.is_empty() => {
                let k = rng.below(self.pattern_buffers.len());
                let k2 = rng.below(self.transformation_buffers.len());
                let t = &self.transformations[rng.below(self.transformations.len())];
                let b = &mut self.pattern_buffers[k];
                let refused = panics(|| b.apply_transformation(t));
                c.bucket(if refused { "op:buffer step (refused)" } else { "op:buffer step" });
                intact_pattern(b.current())?;
                let b = &mut self.transformation_buffers[k2];
                let refused = panics(|| b.apply_transformation(t));
                c.bucket(if refused { "op:buffer step (refused)" } else { "op:buffer step" });
                intact_trans(b.current())?;
            }
            18 if self.patterns.len() > 1 => {
                let a = &self.patterns[rng.below(self.patterns.len())];
                let b = &self.patterns[rng.below(self.patterns.len())];
                std::hint::black_box(a == b);
                let mut seen = std::collections::HashSet::new();
                seen.insert(a.clone());
                if !seen.contains(a) {
                    return Err("a pattern is not found in a set that contains it".into());
                }
                let text = no_panic("Debug", || format!("{:?}", b))?;
                std::hint::black_box(text.len());
                let d = no_panic("to_data", || a.to_data())?;
                check!(
                    no_panic("try_from_data", || KPattern::try_from_data(a.kpuzzle(), &d))?
                        .is_ok_and(|x| x == *a),
                    "a pattern can't be rebuilt from its data {:?}",
                    d
                );
                c.bucket("op:compare");
            }
            19 if self.transformations.len() > 1 => {
                let a = &self.transformations[rng.below(self.transformations.len())];
                let b = &self.transformations[rng.below(self.transformations.len())];
                std::hint::black_box(a == b);
                let text = no_panic("Debug", || format!("{:?}", b))?;
                std::hint::black_box(text.len());
                c.bucket("op:compare");
            }
            20 if !MIRI || rng.chance(1, 4) => {
                // Replace a puzzle while its patterns live on.
                let k = rng.below(n);
                let def = if rng.chance(1, 2) {
                    self.puzzles[rng.below(n)].0.clone()
                } else {
                    gen_small(rng)
                };
                let p = no_panic("constructing a puzzle", || def.build())??;
                self.puzzles[k] = (def, p);
                c.bucket("op:replace puzzle");
            }
            22 if self.patterns.len() > 1 => {
                // Of the same puzzle, or of another.
                let i = rng.below(self.patterns.len());
                let mut target = self.patterns.swap_remove(i);
                let x = &self.patterns[rng.below(self.patterns.len())];
                no_panic("clone_from", || target.clone_from(x))?;
                if target != *x || !std::ptr::eq(target.kpuzzle().definition(), x.kpuzzle().definition()) {
                    return Err("a pattern made by clone_from differs from its original".into());
                }
                intact_pattern(&target)?;
                self.patterns.push(target);
                c.bucket("op:clone from");
            }
            23 if self.transformations.len() > 1 => {
                let i = rng.below(self.transformations.len());
                let mut target = self.transformations.swap_remove(i);
                let x = &self.transformations[rng.below(self.transformations.len())];
                no_panic("clone_from", || target.clone_from(x))?;
                if target != *x || !std::ptr::eq(target.kpuzzle().definition(), x.kpuzzle().definition()) {
                    return Err("a transformation made by clone_from differs from its original".into());
                }
                intact_trans(&target)?;
                self.transformations.push(target);
                c.bucket("op:clone from");
            }
            21 => {
                match rng.below(4) {
                    0 => self.patterns.clear(),
                    1 => self.transformations.clear(),
                    2 => self.pattern_buffers.clear(),
                    _ => {
                        self.patterns.reverse();
                        self.patterns.pop();
                    }
                }
                c.bucket("op:drop");
            }
            _ => {}
        }
        Ok(())
    }
}

pub fn safety(ctx: &mut Ctx) {
    let steps = if MIRI { 150 } else { 60 };
    ctx.cases("programs", 4_000, 120_000, |c| {
        c.distinct(c.rng.clone().u64().to_le_bytes());
        let live = crate::alloc::live_bytes();
        {
            let mut pool = Pool {
                puzzles: vec![],
                patterns: vec![],
                transformations: vec![],
                pattern_buffers: vec![],
                transformation_buffers: vec![],
            };
            for k in 0..3 {
                let def = if k == 0 && !MIRI && c.rng.chance(1, 4) {
                    shipped(c.rng.below(2)).0
                } else {
                    gen_small(&mut c.rng)
                };
                let p = no_panic("constructing a puzzle", || def.build())??;
                pool.puzzles.push((def, p));
            }
            c.sample(|| json!(pool.puzzles.iter().map(|(d, _)| d.orbits.iter().map(|o| (o.np, o.no)).collect::<Vec<_>>()).collect::<Vec<_>>()));
            for _ in 0..steps {
                pool.step(c)?;
            }
            c.bucket_n("operations", steps);
            // Everything is still intact, and outlives the puzzles' handles.
            pool.puzzles.clear();
            for p in &pool.patterns {
                intact_pattern(p)?;
            }
            for t in &pool.transformations {
                intact_trans(t)?;
            }
        }
        // The evidence's own maps may have grown; nothing of the library's may remain.
        let grown = crate::alloc::live_bytes().saturating_sub(live);
        c.bucket_max("live bytes left after a program", grown);
        check!(
            grown < 1 << 20,
            "{} bytes are still allocated after everything was dropped",
            grown
        );
        Ok(())
    });
    // Memory comes back: the same work again and again leaves nothing behind.
    if crate::alloc::ENABLED {
        ctx.cases("leaks", 60, 600, |c| {
            let def = gen_small(&mut c.rng);
            let alg = gen_puzzle_alg(&mut c.rng, &def, &AlgCfg::normal(), 0);
            c.distinct(format!("{}{}", def.to_json(), print(&alg)));
            let json = def.to_json();
            let text = print(&alg);
            let mut bytes = vec![0u64; 6];
            for b in bytes.iter_mut() {
                for _ in 0..5 {
                    let p = KPuzzle::try_from_json(json.as_bytes()).map_err(|e| e.to_string())?;
                    let alg: Alg = text.parse().map_err(|_| "refused".to_owned())?;
                    std::hint::black_box(alg.invert().to_string());
                    let x = p.default_pattern();
                    std::hint::black_box(x.apply_alg(&alg).ok());
                    let t = p.identity_transformation();
                    let mut buffer = KPatternBuffer::from(x);
                    buffer.apply_transformation(&t);
                    let mut buffer = KTransformationBuffer::from(t.invert());
                    buffer.apply_transformation(&t);
                    std::hint::black_box(buffer.current() == &t);
                    let _ = "(R".parse::<Alg>();
                    let _ = KPattern::try_from_json(&p, b"{}");
                }
                *b = crate::alloc::live_bytes();
            }
            c.bucket_n("rounds", 6);
            check!(
                bytes[5] == bytes[2],
                "repeating the same work keeps allocating: {:?} live bytes",
                bytes
            );
            Ok(())
        });
    }
    // Algs share their moves' quantum; clones, nested algs and builders in any order.
    ctx.cases("algs", 4_000, 80_000, |c| {
        let g = GenCfg {
            max_depth: if MIRI { 2 } else { 4 },
            max_len: if MIRI { 3 } else { 8 },
        };
        let tree = gen_alg(&mut c.rng, &g, 0);
        c.distinct(print(&tree));
        let mut algs: Vec<Alg> = vec![to_lib(&tree)];
        for _ in 0..if MIRI { 8 } else { 30 } {
            let i = c.rng.below(algs.len());
            let a = algs[i].clone();
            match c.rng.below(7) {
                0 => algs.push(a.invert()),
                1 => {
                    let b = algs[c.rng.below(algs.len())].clone();
                    if a.nodes.len() + b.nodes.len() < 50 {
                        algs.push(Alg {
                            nodes: vec![AlgNode::CommutatorNode(Commutator {
                                a: Arc::new(a),
                                b: Arc::new(b),
                            })],
                        })
                    }
                }
                2 => {
                    let mut builder = AlgBuilder::default();
                    builder.push(&a);
                    builder.push(&AlgNode::PauseNode(Pause {}));
                    builder.push(&a);
                    if a.nodes.len() < 100 {
                        algs.push(builder.to_alg());
                    }
                }
                3 => {
                    let text = a.to_string();
                    if text.len() < 3000 {
                        if let Ok(b) = text.parse() {
                            algs.push(b)
                        }
                    }
                }
                4 => {
                    algs.swap_remove(i);
                }
                5 => {
                    std::hint::black_box(algs.iter().filter(|b| **b == a).count());
                }
                _ => {
                    for n in &a.nodes {
                        if let AlgNode::MoveNode(m) = n {
                            let q: Arc<QuantumMove> = m.quantum.clone();
                            algs.push(Alg {
                                nodes: vec![AlgNode::MoveNode(Move {
                                    quantum: q,
                                    amount: 2,
                                })],
                            });
                            break;
                        }
                    }
                }
            }
            if algs.is_empty() {
                algs.push(to_lib(&tree));
            }
            while algs.len() > 8 {
                let i = c.rng.below(algs.len());
                algs.swap_remove(i);
            }
            c.bucket("operations");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

fn assert_send_sync<T: Send + Sync>() {}

fn all_send_sync() {
    assert_send_sync::<KPuzzle>();
    assert_send_sync::<KPattern>();
    assert_send_sync::<KTransformation>();
    assert_send_sync::<KPatternBuffer>();
    assert_send_sync::<KTransformationBuffer>();
    assert_send_sync::<Alg>();
    assert_send_sync::<Move>();
    assert_send_sync::<QuantumMove>();
}

fn jitter(rng: &mut Rng) {
    match rng.below(6) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..rng.below(200) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}

/// Run `n` threads from a common start; the first error wins.
fn together(n: usize, f: impl Fn(usize) -> R + Sync) -> R {
    let barrier = Barrier::new(n);
    let results: Vec<R> = std::thread::scope(|s| {
        let handles: Vec<_> = (0..n)
            .map(|i| {
                let (f, barrier) = (&f, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    f(i)
                })
            })
            .collect();
        handles
            .into_iter()
            .map(|h| match h.join() {
                Ok(r) => r,
                Err(p) => Err(format!(
                    "a thread panicked: {}",
                    p.downcast_ref::<String>()
                        .map(|s| s.as_str())
                        .or(p.downcast_ref::<&str>().copied())
                        .unwrap_or("?")
                )),
            })
            .collect()
    });
    results.into_iter().collect()
}

static ORDER: AtomicU64 = AtomicU64::new(0);

pub fn threads(ctx: &mut Ctx) {
    all_send_sync();
    let n = if MIRI { 3 } else { 8 };
    // The first uses of the shipped puzzles race (once per process: the driver starts many).
    if !MIRI || std::env::var_os("VH_SHIPPED").is_some() {
        ctx.cases_exact("first use", 1, |c| {
            let which = c.rng.clone().u64();
            c.distinct(which.to_le_bytes());
            let addresses: Vec<AtomicU64> = (0..2 * n).map(|_| AtomicU64::new(0)).collect();
            together(n, |i| {
                let order = if i % 2 == 0 { [0, 1] } else { [1, 0] };
                for w in order {
                    let p = if w == 0 { cube3x3x3_kpuzzle() } else { cube2x2x2_kpuzzle() };
                    addresses[2 * i + w].store(p as *const KPuzzle as u64, Ordering::Relaxed);
                    let t = p
                        .transformation_from_alg(&"R U R' U'".parse().unwrap())
                        .map_err(|e| e.to_string())?;
                    intact_trans(&t)?;
                }
                Ok(())
            })?;
            for i in 1..n {
                for w in 0..2 {
                    check!(
                        addresses[2 * i + w].load(Ordering::Relaxed)
                            == addresses[w].load(Ordering::Relaxed),
                        "two threads got different puzzles"
                    );
                }
            }
            c.bucket_n("racing first uses", 2 * n as u64);
            Ok(())
        });
    }
    // One puzzle, its patterns and algs used by all threads at once.
    ctx.cases("shared", 250, 6_000, |c| {
        let (def, puzzle) = if !MIRI && c.rng.chance(1, 3) {
            let (d, p) = shipped(c.rng.below(2));
            (d, p.clone())
        } else {
            let def = gen_small(&mut c.rng);
            let p = no_panic("constructing a puzzle", || def.build())??;
            (def, p)
        };
        let jobs = if MIRI { 2 } else { 6 };
        let cfg = AlgCfg {
            max_len: if MIRI { 2 } else { 6 },
            max_depth: if MIRI { 1 } else { 3 },
            unknown: None,
            big_amounts: !MIRI,
        };
        let mut work = vec![];
        for _ in 0..jobs {
            let alg = gen_puzzle_alg(&mut c.rng, &def, &cfg, 0);
            let pat = gen_pat(&mut c.rng, &def.orbits);
            let expected = match def.eval(&alg) {
                Ok(t) => Some((t.clone(), pat.apply(&t, &def.orbits))),
                Err(_) => None,
            };
            let x = make_pattern(&def, &puzzle, &pat)?;
            work.push((to_lib(&alg), alg, x, pat, expected));
        }
        c.distinct(format!("{}{:?}", def.to_json(), work.iter().map(|w| print(&w.1)).collect::<Vec<_>>()));
        c.sample(|| json!({"algs": work.iter().map(|w| print(&w.1)).collect::<Vec<_>>(), "threads": n}));
        let seed = c.rng.u64();
        let before = ORDER.load(Ordering::Relaxed);
        let observed = std::sync::Mutex::new(Vec::new());
        together(n, |i| {
            let mut rng = Rng::new(seed ^ (i as u64) << 32);
            let mut order: Vec<usize> = (0..work.len()).collect();
            rng.shuffle(&mut order);
            let mut mine = vec![];
            for round in 0..if MIRI { 1 } else { 3 } {
                for j in &order {
                    jitter(&mut rng);
                    let (lib, alg, x, pat, expected) = &work[*j];
                    mine.push((ORDER.fetch_add(1, Ordering::Relaxed), i));
                    let p = if rng.chance(1, 2) { puzzle.clone() } else { x.kpuzzle().clone() };
                    let t = p.transformation_from_alg(lib);
                    match (t, expected) {
                        (Ok(t), Some((mt, mp))) => {
                            check!(
                                MTrans::read(&t, &def.orbits)? == *mt,
                                "thread {} evaluated {:?} wrongly",
                                i,
                                print(alg)
                            );
                            let y = x.apply_transformation(&t);
                            check!(
                                MPat::read(&y, &def.orbits)? == *mp,
                                "thread {} applied {:?} wrongly",
                                i,
                                print(alg)
                            );
                        }
                        (Err(_), None) => {}
                        _ => return Err(format!("thread {}: {:?} valid or not?", i, print(alg))),
                    }
                    if round == 0 {
                        check!(
                            MPat::read(x, &def.orbits)? == *pat,
                            "a shared pattern changed"
                        );
                        let text = lib.to_string();
                        let again: Alg = text.parse().map_err(|_| "refused".to_owned())?;
                        check!(again == *lib, "a shared alg changed: {}", text);
                        std::hint::black_box(lib.invert());
                    }
                    // Clones are this thread's own.
                    if let Some(o) = puzzle.orbit_info_iter().find(|o| o.num_pieces > 0) {
                        let mut own = x.clone();
                        own.set_piece(o, 0, i as u8);
                        check!(own.get_piece(o, 0) == i as u8, "a thread's own clone changed");
                    }
                }
            }
            observed.lock().unwrap().extend(mine);
            Ok(())
        })?;
        let mut seen = observed.into_inner().unwrap();
        seen.sort();
        // How the threads' steps interleaved.
        let switches = seen.windows(2).filter(|w| w[0].1 != w[1].1).count();
        let mut trace: Vec<u8> = seen.iter().map(|s| s.1 as u8).collect();
        trace.insert(0, (c.idx % 251) as u8);
        c.distinct(&trace);
        c.bucket_n("steps", ORDER.load(Ordering::Relaxed) - before);
        c.bucket_n("switches between threads", switches as u64);
        Ok(())
    });
    // Values made in one thread, used, changed and dropped in others.
    ctx.cases("hand-over", 250, 6_000, |c| {
        let def = gen_small(&mut c.rng);
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        c.distinct(def.to_json());
        let rounds = if MIRI { 2 } else { 12 };
        let mut moves: Vec<(MTrans, KTransformation)> = vec![];
        for _ in 0..3 {
            let t = gen_trans(&mut c.rng, &def.orbits);
            moves.push((t.clone(), make_trans(&def, &puzzle, &t)?));
        }
        let pats: Vec<MPat> = (0..n).map(|_| gen_pat(&mut c.rng, &def.orbits)).collect();
        let starts: Vec<KPattern> = pats
            .iter()
            .map(|p| make_pattern(&def, &puzzle, p))
            .collect::<Result<_, _>>()?;
        drop(puzzle);
        // A ring: each thread passes what it holds to the next.
        type Item = (KPatternBuffer, MPat, Alg);
        let slots: Vec<std::sync::Mutex<Option<Item>>> = starts
            .into_iter()
            .zip(pats)
            .map(|(x, m)| {
                let a: Alg = to_lib(&[N::Move(mv("R", 2)), N::Group(vec![N::Move(mv("U", 1))], 3)]);
                std::sync::Mutex::new(Some((KPatternBuffer::from(x), m, a)))
            })
            .collect();
        let seed = c.rng.u64();
        let passed = AtomicU64::new(0);
        together(n, |i| {
            let mut rng = Rng::new(seed ^ (i as u64) << 32);
            for r in 0..rounds {
                jitter(&mut rng);
                let taken = slots[(i + r) % n].lock().unwrap().take();
                let Some((mut buffer, model, alg)) = taken else { continue };
                let (mt, t) = &moves[rng.below(3)];
                buffer.apply_transformation(t);
                let model = model.apply(mt, &def.orbits);
                check!(
                    MPat::read(buffer.current(), &def.orbits)? == model,
                    "a buffer handed from thread to thread holds something else"
                );
                let alg = alg.invert();
                passed.fetch_add(1, Ordering::Relaxed);
                let item = if rng.chance(1, 4) {
                    // A fresh one, the old one dropped here.
                    (KPatternBuffer::from(buffer.current().clone()), model, alg.clone())
                } else {
                    (buffer, model, alg)
                };
                jitter(&mut rng);
                let mut k = (i + r + 1) % n;
                let mut item = Some(item);
                // Into the next free slot.
                for _ in 0..n {
                    let mut slot = slots[k].lock().unwrap();
                    if slot.is_none() {
                        *slot = item.take();
                        break;
                    }
                    drop(slot);
                    k = (k + 1) % n;
                }
                drop(item);
            }
            Ok(())
        })?;
        c.bucket_n("values handed over", passed.load(Ordering::Relaxed));
        Ok(())
    });
    // Many handles to the same data, dropped by all threads at once.
    ctx.cases("dropping", 250, 6_000, |c| {
        let def = gen_small(&mut c.rng);
        c.distinct(def.to_json());
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let pat = gen_pat(&mut c.rng, &def.orbits);
        let x = make_pattern(&def, &puzzle, &pat)?;
        let t = no_panic("identity_transformation", || puzzle.identity_transformation())?;
        let g = GenCfg {
            max_depth: 2,
            max_len: 3,
        };
        let alg = to_lib(&gen_alg(&mut c.rng, &g, 0));
        let q = to_lib_quantum(Pre::Layer(2), "R");
        let q = Arc::new(q);
        let held: Vec<std::sync::Mutex<Option<_>>> = (0..n)
            .map(|_| {
                std::sync::Mutex::new(Some((
                    puzzle.clone(),
                    x.clone(),
                    t.clone(),
                    alg.clone(),
                    Move {
                        quantum: q.clone(),
                        amount: 1,
                    },
                )))
            })
            .collect();
        drop((puzzle, x, t, alg, q));
        let seed = c.rng.u64();
        together(n, |i| {
            let mut rng = Rng::new(seed ^ (i as u64) << 32);
            let (p, x, t, alg, m) = held[i].lock().unwrap().take().unwrap();
            jitter(&mut rng);
            let y = x.apply_transformation(&t);
            check!(y == x, "the identity changed a pattern");
            let p2 = p.clone();
            drop(p);
            jitter(&mut rng);
            drop(x);
            std::hint::black_box((alg.invert(), m.invert().to_string()));
            drop(alg);
            let d = p2.default_pattern();
            drop(p2);
            drop(t);
            intact_pattern(&d)?;
            jitter(&mut rng);
            drop(d);
            intact_pattern(&y)
        })?;
        c.bucket_n("handles dropped", 5 * n as u64);
        Ok(())
    });
}

//! Evaluation of algs: against the reference interpreter, and its algebraic laws.

use cubing_core::alg::Alg;
use cubing_core::kpuzzle::{InvalidAlgError, KPattern, KPuzzle, KTransformation};
use cubing_core::puzzles::{cube2x2x2_kpuzzle, cube3x3x3_kpuzzle};
use serde_json::{json, Value};

use crate::check;
use crate::ctx::{clip, no_panic, Case, Ctx, R};
use crate::model_alg::*;
use crate::model_puzzle::*;
use crate::rng::Rng;

// ---------------------------------------------------------------------------------------------
// The definitions shipped with the library, read independently.

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap() as u8)
        .collect()
}

pub fn def_from_json(text: &str) -> MDef {
    let v: Value = serde_json::from_str(text).unwrap();
    let orbits: Vec<MOrbit> = v["orbits"]
        .as_array()
        .unwrap()
        .iter()
        .map(|o| MOrbit {
            name: o["orbitName"].as_str().unwrap().to_owned(),
            np: o["numPieces"].as_u64().unwrap() as u8,
            no: o["numOrientations"].as_u64().unwrap() as u8,
        })
        .collect();
    let trans = |t: &Value| {
        MTrans(
            orbits
                .iter()
                .map(|o| {
                    bytes(&t[&o.name]["permutation"])
                        .into_iter()
                        .zip(bytes(&t[&o.name]["orientationDelta"]))
                        .collect()
                })
                .collect(),
        )
    };
    let d = &v["defaultPattern"];
    let default = MPat(
        orbits
            .iter()
            .map(|o| {
                let x = &d[&o.name];
                let mods = if x["orientationMod"].is_null() {
                    vec![0; o.np as usize]
                } else {
                    bytes(&x["orientationMod"])
                };
                bytes(&x["pieces"])
                    .into_iter()
                    .zip(bytes(&x["orientation"]))
                    .zip(mods)
                    .map(|((p, o), m)| (p, o, m))
                    .collect()
            })
            .collect(),
    );
    let default_has_mod = orbits
        .iter()
        .map(|o| !d[&o.name]["orientationMod"].is_null())
        .collect();
    MDef {
        name: v["name"].as_str().unwrap().to_owned(),
        moves: v["moves"]
            .as_object()
            .unwrap()
            .iter()
            .map(|(k, t)| (parse_move(k).unwrap(), trans(t)))
            .collect(),
        derived: v["derivedMoves"].as_object().map(|d| {
            d.iter()
                .map(|(k, a)| (parse_move(k).unwrap(), parse(a.as_str().unwrap()).unwrap()))
                .collect()
        }),
        orbits,
        default,
        default_has_mod,
    }
}

pub const JSON_3: &str = include_str!("/repo/cubing_core/src/puzzles/3x3x3.kpuzzle.json");
pub const JSON_2: &str = include_str!("/repo/cubing_core/src/puzzles/2x2x2.kpuzzle.json");

pub fn shipped(i: usize) -> (MDef, &'static KPuzzle) {
    static DEFS: std::sync::OnceLock<[MDef; 2]> = std::sync::OnceLock::new();
    let def = DEFS.get_or_init(|| [def_from_json(JSON_3), def_from_json(JSON_2)])[i].clone();
    if i == 0 {
        (def, cube3x3x3_kpuzzle())
    } else {
        (def, cube2x2x2_kpuzzle())
    }
}

// ---------------------------------------------------------------------------------------------

pub fn show(t: &MTrans) -> String {
    clip(&format!("{:?}", t.0), 600)
}

pub fn observe(c: &mut Case, def: &MDef, alg: &[N]) {
    for (k, n) in resolution_kinds(def, alg) {
        c.bucket_n(&k, n);
    }
    for_each_node(alg, &mut |n| {
        let k = match n {
            N::Group(_, amt) if *amt < 0 => "grouping:negative",
            N::Group(_, 0) => "grouping:zero",
            N::Group(..) => "grouping:positive",
            N::Comm(..) => "commutator",
            N::Conj(..) => "conjugate",
            N::Pause => "pause",
            N::Newline => "newline",
            N::Comment(_) => "comment",
            N::Move(_) => return,
        };
        c.bucket(k)
    });
}

/// The library's transformation for an alg, compared with the reference interpreter's.
pub fn compare_alg(
    c: &mut Case,
    def: &MDef,
    puzzle: &KPuzzle,
    alg: &[N],
) -> Result<Option<KTransformation>, String> {
    let lib = to_lib(alg);
    c.note(|| format!("definition {}", def.to_json()));
    c.note(|| format!("alg {:?}", print(alg)));
    let expected = def.eval(alg);
    let got = no_panic("evaluating an alg", || puzzle.transformation_from_alg(&lib))?;
    match (expected, got) {
        (Ok(e), Ok(t)) => {
            let g = MTrans::read(&t, &def.orbits)?;
            check!(
                g == e,
                "{:?} evaluates to {} instead of {} on {}",
                print(alg),
                show(&g),
                show(&e),
                clip(&def.to_json(), 1500)
            );
            c.bucket("evaluated");
            Ok(Some(t))
        }
        (Err(m), Err(e)) => {
            check!(
                matches!(e, InvalidAlgError::InvalidMove(_)),
                "the error for the unknown move {} is not an invalid-move error: {:?}",
                print_move(&m),
                e
            );
            c.bucket("refused");
            Ok(None)
        }
        (Ok(_), Err(e)) => Err(format!(
            "{:?} was refused ({}) on {}",
            print(alg),
            e,
            clip(&def.to_json(), 1500)
        )),
        (Err(m), Ok(_)) => Err(format!(
            "{:?} was evaluated although {} does not exist on {}",
            print(alg),
            print_move(&m),
            clip(&def.to_json(), 1500)
        )),
    }
}

pub fn make_pattern(def: &MDef, puzzle: &KPuzzle, pat: &MPat) -> Result<KPattern, String> {
    let data = pat.to_data(&def.orbits, &vec![true; def.orbits.len()]);
    no_panic("making a pattern", || KPattern::try_from_data(puzzle, &data))?
        .map_err(|e| format!("valid pattern data was rejected: {} ({:?})", e, data))
}

pub fn make_trans(def: &MDef, puzzle: &KPuzzle, t: &MTrans) -> Result<KTransformation, String> {
    let data = t.to_data(&def.orbits);
    no_panic("making a transformation", || {
        KTransformation::try_from_data(puzzle, &data)
    })?
    .map_err(|e| format!("valid transformation data was rejected: {} ({:?})", e, data))
}

pub fn evaluate_case(c: &mut Case, def: &MDef, puzzle: &KPuzzle, cfg: &AlgCfg) -> R {
    let alg = if c.rng.chance(1, 2) {
        gen_puzzle_alg(&mut c.rng, def, cfg, 0)
    } else {
        c.bucket("trees that need not be those of a text");
        gen_raw_puzzle_alg(&mut c.rng, def, cfg, 0)
    };
    evaluate_alg(c, def, puzzle, alg)
}

pub fn evaluate_alg(c: &mut Case, def: &MDef, puzzle: &KPuzzle, alg: Vec<N>) -> R {
    observe(c, def, &alg);
    c.distinct(format!("{}{}", def.to_json(), print(&alg)));
    c.sample(|| json!({"alg": clip(&print(&alg), 200), "orbits": def.orbits.iter().map(|o| (o.np, o.no)).collect::<Vec<_>>()}));
    let t = compare_alg(c, def, puzzle, &alg)?;
    let lib = to_lib(&alg);
    // Patterns: the default one and an arbitrary one.
    for which in 0..2 {
        let (start, model) = if which == 0 {
            (
                no_panic("default_pattern", || puzzle.default_pattern())?,
                def.default.clone(),
            )
        } else {
            let pat = gen_pat(&mut c.rng, &def.orbits);
            (make_pattern(def, puzzle, &pat)?, pat)
        };
        check!(
            MPat::read(&start, &def.orbits)? == model,
            "the start pattern reads back differently: {:?} instead of {:?}",
            MPat::read(&start, &def.orbits)?,
            model
        );
        let after = no_panic("applying an alg", || start.apply_alg(&lib))?;
        check!(
            after.is_ok() == t.is_some(),
            "apply_alg and transformation_from_alg disagree on whether {:?} is valid",
            print(&alg)
        );
        if let (Some(t), Ok(after)) = (&t, after) {
            let mt = def.eval(&alg).map_err(|_| "model".to_owned())?;
            let expected = model.apply(&mt, &def.orbits);
            let got = MPat::read(&after, &def.orbits)?;
            check!(
                got == expected,
                "{:?} takes {:?} to {:?} instead of {:?} on {}",
                print(&alg),
                model,
                got,
                expected,
                clip(&def.to_json(), 1500)
            );
            let via = no_panic("applying a transformation", || start.apply_transformation(t))?;
            check!(via == after, "apply_transformation and apply_alg differ for {:?}", print(&alg));
            c.bucket("patterns");
            // Move by move, for algs that are just moves.
            if alg.iter().all(|n| matches!(n, N::Move(_))) {
                let mut p = start.clone();
                for n in &lib.nodes {
                    if let cubing_core::alg::AlgNode::MoveNode(m) = n {
                        p = no_panic("applying a move", || p.apply_move(m))?
                            .map_err(|e| format!("move {} was refused: {}", m, e))?;
                    }
                }
                check!(p == after, "applying {:?} move by move differs", print(&alg));
                c.bucket("move by move");
            }
        }
        check!(
            MPat::read(&start, &def.orbits)? == model,
            "applying {:?} changed the pattern it was applied to",
            print(&alg)
        );
    }
    Ok(())
}

pub fn evaluation(ctx: &mut Ctx) {
    ctx.cases("random puzzles", 12_000, 250_000, |c| {
        let def = gen_def(&mut c.rng, &NORMAL);
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        for _ in 0..3 {
            evaluate_case(c, &def, &puzzle, &AlgCfg::normal())?;
        }
        Ok(())
    });
    ctx.cases("unknown moves", 6_000, 100_000, |c| {
        let def = gen_def(&mut c.rng, &NORMAL);
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let cfg = AlgCfg {
            unknown: Some(6),
            ..AlgCfg::normal()
        };
        evaluate_case(c, &def, &puzzle, &cfg)
    });
    ctx.cases("shipped puzzles", 4_000, 100_000, |c| {
        let (def, puzzle) = shipped(c.rng.below(2));
        let cfg = AlgCfg {
            max_len: *c.rng.pick(&[1, 8, 25]),
            ..AlgCfg::normal()
        };
        evaluate_case(c, &def, puzzle, &cfg)
    });
    ctx.cases("large puzzles", 60, 1_000, |c| {
        let cfg = DefCfg {
            max_orbits: if c.rng.chance(1, 6) { 160 } else { 8 },
            max_pieces: 60,
            max_moves: 3,
            max_derived: 2,
            big: true,
            plain_keys: false,
        };
        let def = gen_def(&mut c.rng, &cfg);
        c.bucket_max("orbits", def.orbits.len() as u64);
        c.bucket_max(
            "bytes",
            def.orbits.iter().map(|o| o.np as u64 * 2).sum::<u64>(),
        );
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        evaluate_case(c, &def, &puzzle, &AlgCfg::normal())
    });
    ctx.cases("wide and deep algs", 60, 1_500, |c| {
        let def = loop {
            let def = gen_def(&mut c.rng, &DefCfg { max_moves: 4, max_derived: 1, ..NORMAL });
            let bytes: usize = def.orbits.iter().map(|o| o.np as usize).sum();
            if bytes <= 24 {
                break def;
            }
        };
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let alg = gen_long_puzzle_alg(&mut c.rng, &def);
        c.bucket_max("units at one level", alg.len() as u64);
        c.bucket_max("nesting depth", depth(&alg) as u64);
        evaluate_alg(c, &def, &puzzle, alg)
    });
    ctx.cases("long algs", 150, 3_000, |c| {
        let (def, puzzle) = shipped(c.rng.below(2));
        let cfg = AlgCfg {
            max_len: 1500,
            max_depth: 2,
            unknown: None,
            big_amounts: true,
        };
        let alg = gen_puzzle_alg(&mut c.rng, &def, &cfg, 0);
        c.bucket_max("alg nodes", count_nodes(&alg) as u64);
        observe(c, &def, &alg);
        c.distinct(print(&alg));
        compare_alg(c, &def, puzzle, &alg)?;
        // From its text.
        let text = print(&alg);
        let parsed: Alg = text.parse().map_err(|_| "valid text was rejected".to_owned())?;
        let t = puzzle
            .transformation_from_alg(&parsed)
            .map_err(|e| format!("refused: {}", e))?;
        let expected = def.eval(&alg).map_err(|m| format!("model: {:?}", m))?;
        check!(
            MTrans::read(&t, &def.orbits)? == expected,
            "the text of an alg evaluates differently from the alg"
        );
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

pub fn resolution(ctx: &mut Ctx) {
    ctx.cases("definitions", 8_000, 150_000, |c| {
        let cfg = DefCfg {
            max_orbits: 2,
            max_pieces: 7,
            max_moves: 6,
            max_derived: 5,
            big: false,
            plain_keys: false,
        };
        // A narrow choice of names, so that units, inverses and multiples of one move meet.
        let mut def = gen_def(&mut c.rng, &cfg);
        let base = gen_key(&mut c.rng, true);
        for amt in [1, -1, 2, -2, 3, 0] {
            if c.rng.chance(1, 3) {
                let key = base.with_amt(amt);
                if c.rng.chance(1, 2) {
                    if !def.moves.iter().any(|(m, _)| *m == key) {
                        let t = gen_trans(&mut c.rng, &def.orbits);
                        def.moves.push((key, t));
                    }
                } else {
                    let mut d = def.derived.take().unwrap_or_default();
                    if !d.iter().any(|(m, _)| *m == key) {
                        let alg = gen_puzzle_alg(&mut c.rng, &def, &AlgCfg::derived(), 0);
                        d.push((key, alg));
                    }
                    def.derived = Some(d);
                }
            }
        }
        if def.derived_ok().is_err() {
            c.bucket("skipped: not a valid definition");
            return Ok(());
        }
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let pat = gen_pat(&mut c.rng, &def.orbits);
        let start = make_pattern(&def, &puzzle, &pat)?;
        let mut queries: Vec<MMove> = vec![];
        for key in def.keys() {
            for amt in [1, -1, 2, -2, 3, -3, 0, 4, 5, -5, i32::MAX as i64, -(i32::MAX as i64)] {
                queries.push(key.with_amt(amt));
            }
            // Near misses: another prefix, another family.
            let mut q = key.clone();
            q.pre = gen_prefix(&mut c.rng);
            queries.push(q);
            let mut q = key.clone();
            q.fam.push_str("_PLUS_");
            queries.push(q);
            let mut q = key.clone();
            q.fam = q.fam.to_lowercase();
            queries.push(q);
            let mut q = key.clone();
            q.pre = match q.pre {
                Pre::Layer(l) => Pre::Range(1, l),
                Pre::Range(_, i) => Pre::Layer(i),
                Pre::None => Pre::Layer(1),
            };
            queries.push(q);
        }
        queries.push(gen_move(&mut c.rng));
        c.distinct(def.to_json());
        c.sample(|| json!({"moves": def.moves.iter().map(|m| print_move(&m.0)).collect::<Vec<_>>(), "derived": def.derived.as_ref().map(|d| d.iter().map(|(m, a)| (print_move(m), print(a))).collect::<Vec<_>>())}));
        c.note(|| def.to_json());
        for q in &queries {
            c.note(|| format!("move {}", print_move(q)));
            let lib = to_lib_move(q);
            let expected = def.eval_move(q);
            for (k, n) in resolution_kinds(&def, &[N::Move(q.clone())]) {
                c.bucket_n(&k, n);
            }
            let got = no_panic("transformation_from_move", || puzzle.transformation_from_move(&lib))?;
            let after = no_panic("apply_move", || start.apply_move(&lib))?;
            match (expected, got) {
                (Ok(e), Ok(t)) => {
                    let g = MTrans::read(&t, &def.orbits)?;
                    check!(
                        g == e,
                        "the move {} resolves to {} instead of {} on {}",
                        print_move(q),
                        show(&g),
                        show(&e),
                        clip(&def.to_json(), 2000)
                    );
                    let after = after.map_err(|x| format!("apply_move({}) failed: {}", print_move(q), x))?;
                    check!(
                        MPat::read(&after, &def.orbits)? == pat.apply(&e, &def.orbits),
                        "apply_move({}) gives another pattern",
                        print_move(q)
                    );
                }
                (Err(_), Err(e)) => {
                    check!(
                        matches!(e, InvalidAlgError::InvalidMove(_)) && after.is_err(),
                        "{} does not exist, but: {:?} / {:?}",
                        print_move(q),
                        e,
                        after.is_err()
                    );
                }
                (Ok(_), Err(e)) => {
                    return Err(format!(
                        "the move {} exists but was refused ({}) on {}",
                        print_move(q),
                        e,
                        clip(&def.to_json(), 2000)
                    ))
                }
                (Err(_), Ok(_)) => {
                    return Err(format!(
                        "the move {} does not exist but was accepted on {}",
                        print_move(q),
                        clip(&def.to_json(), 2000)
                    ))
                }
            }
        }
        Ok(())
    });
    ctx.cases("shipped puzzles", 3_000, 30_000, |c| {
        let (def, puzzle) = shipped(c.rng.below(2));
        let mut m = if c.rng.chance(4, 5) {
            let keys = def.keys();
            c.rng.pick(&keys).clone()
        } else {
            gen_move(&mut c.rng)
        };
        m.amt = gen_amount(&mut c.rng);
        if c.rng.chance(1, 6) {
            m.pre = gen_prefix(&mut c.rng);
        }
        c.distinct(print_move(&m));
        observe(c, &def, &[N::Move(m.clone())]);
        compare_alg(c, &def, puzzle, &[N::Move(m)])?;
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

fn eq(what: &str, a: &KTransformation, b: &KTransformation) -> R {
    check!(a == b, "{} does not hold: {:?} and {:?}", what, a, b);
    Ok(())
}

fn some_def(c: &mut Case) -> Result<(MDef, KPuzzle), String> {
    Ok(match c.rng.below(8) {
        0 => {
            let (d, p) = shipped(0);
            (d, p.clone())
        }
        1 => {
            let (d, p) = shipped(1);
            (d, p.clone())
        }
        2 => {
            let cfg = DefCfg {
                max_orbits: 3,
                max_pieces: 40,
                max_moves: 3,
                max_derived: 2,
                big: c.rng.chance(1, 4),
                plain_keys: true,
            };
            let d = gen_def(&mut c.rng, &cfg);
            let p = no_panic("constructing a puzzle", || d.build())??;
            (d, p)
        }
        k => {
            let cfg = DefCfg {
                plain_keys: k < 6,
                ..NORMAL
            };
            let d = gen_def(&mut c.rng, &cfg);
            let p = no_panic("constructing a puzzle", || d.build())??;
            (d, p)
        }
    })
}

/// Whether inverting each part of the alg inverts what it does, on this puzzle.
fn inversion_applies(def: &MDef, alg: &[N]) -> bool {
    let mut ok = true;
    for_each_node(alg, &mut |n| match n {
        N::Move(m) => match (def.eval_move(m), def.eval_move(&m.inverted())) {
            (Ok(t), Ok(i)) => ok &= t.inverse(&def.orbits) == i,
            _ => ok = false,
        },
        N::Group(a, amt) => {
            if square1_pair(a, *amt).is_some() || square1_pair(a, -*amt).is_some() {
                // A tuple stands for two turns that commute.
                if let (Ok(x), Ok(y)) = (def.eval(&a[..1]), def.eval(&a[1..])) {
                    ok &= x.then(&y, &def.orbits) == y.then(&x, &def.orbits);
                }
            }
        }
        _ => {}
    });
    ok
}

pub fn laws(ctx: &mut Ctx) {
    ctx.cases("transformations", 15_000, 300_000, |c| {
        let (def, p) = some_def(c)?;
        let mut made = vec![];
        for _ in 0..3 {
            let t = gen_trans(&mut c.rng, &def.orbits);
            made.push(make_trans(&def, &p, &t)?);
        }
        let [a, b, d] = [&made[0], &made[1], &made[2]];
        c.distinct(format!("{:?}{:?}{:?}", def.orbits, a.to_data().values().map(|v| v.permutation.clone()).collect::<Vec<_>>(), def.name));
        c.sample(|| json!({"orbits": def.orbits.iter().map(|o| (o.np, o.no)).collect::<Vec<_>>(), "a": clip(&format!("{:?}", a.to_data()), 300)}));
        c.note(|| format!("{:?}\n{:?}\n{:?}", a, b, d));
        let id = p.identity_transformation();
        let mul = |x: &KTransformation, y: &KTransformation| {
            no_panic("apply_transformation", || x.apply_transformation(y))
        };
        let inv = |x: &KTransformation| no_panic("invert", || x.invert());
        eq("a·id = a", &mul(a, &id)?, a)?;
        eq("id·a = a", &mul(&id, a)?, a)?;
        eq("id·id = id", &mul(&id, &id)?, &id)?;
        eq("id⁻¹ = id", &inv(&id)?, &id)?;
        eq("a·a⁻¹ = id", &mul(a, &inv(a)?)?, &id)?;
        eq("a⁻¹·a = id", &mul(&inv(a)?, a)?, &id)?;
        eq("(a⁻¹)⁻¹ = a", &inv(&inv(a)?)?, a)?;
        let ab = mul(a, b)?;
        eq("(a·b)·c = a·(b·c)", &mul(&ab, d)?, &mul(a, &mul(b, d)?)?)?;
        eq("(a·b)⁻¹ = b⁻¹·a⁻¹", &inv(&ab)?, &mul(&inv(b)?, &inv(a)?)?)?;
        c.bucket_n("laws evaluated", 9);
        // The group acts on patterns.
        let pat = gen_pat(&mut c.rng, &def.orbits);
        let x = make_pattern(&def, &p, &pat)?;
        let act = |x: &KPattern, t: &KTransformation| {
            no_panic("apply_transformation", || x.apply_transformation(t))
        };
        check!(act(&x, &id)? == x, "the identity changes the pattern {:?}", x);
        check!(
            act(&act(&x, a)?, b)? == act(&x, &ab)?,
            "applying a, then b, differs from applying a·b: {:?} {:?} {:?}",
            x,
            a,
            b
        );
        check!(
            act(&act(&x, a)?, &inv(a)?)? == x,
            "applying a, then its inverse, changes the pattern {:?} ({:?})",
            x,
            a
        );
        c.bucket_n("action laws evaluated", 3);
        if *a != id {
            c.bucket("non-identity");
        }
        Ok(())
    });
    ctx.cases("algs", 15_000, 300_000, |c| {
        let (def, p) = some_def(c)?;
        let cfg = AlgCfg {
            max_len: 6,
            max_depth: 3,
            unknown: None,
            big_amounts: c.rng.chance(1, 3),
        };
        let a = gen_puzzle_alg(&mut c.rng, &def, &cfg, 0);
        let b = gen_puzzle_alg(&mut c.rng, &def, &cfg, 0);
        c.distinct(format!("{:?}{}|{}", def.orbits, print(&a), print(&b)));
        c.sample(|| json!({"a": clip(&print(&a), 150), "b": clip(&print(&b), 150)}));
        c.note(|| format!("{}\na = {:?}\nb = {:?}", def.to_json(), print(&a), print(&b)));
        let eval = |alg: &[N]| -> Result<KTransformation, String> {
            let lib = to_lib(alg);
            no_panic("evaluating an alg", || p.transformation_from_alg(&lib))?
                .map_err(|e| format!("{:?} was refused: {}", print(alg), e))
        };
        if !def.unresolvable(&a).is_empty() || !def.unresolvable(&b).is_empty() {
            c.bucket("skipped: no such move");
            return Ok(());
        }
        let (ta, tb) = (eval(&a)?, eval(&b)?);
        let mut ab = a.clone();
        ab.extend(b.clone());
        eq("T(a b) = T(a)·T(b)", &eval(&ab)?, &ta.apply_transformation(&tb))?;
        let conj = vec![N::Conj(a.clone(), b.clone())];
        eq(
            "T([a: b]) = T(a)·T(b)·T(a)⁻¹",
            &eval(&conj)?,
            &ta.apply_transformation(&tb).apply_transformation(&ta.invert()),
        )?;
        let comm = vec![N::Comm(a.clone(), b.clone())];
        eq(
            "T([a, b]) = T(a)·T(b)·T(a)⁻¹·T(b)⁻¹",
            &eval(&comm)?,
            &ta.apply_transformation(&tb)
                .apply_transformation(&ta.invert())
                .apply_transformation(&tb.invert()),
        )?;
        eq("T((a)) = T(a)", &eval(&[N::Group(a.clone(), 1)])?, &ta)?;
        eq("T((a)') = T(a)⁻¹", &eval(&[N::Group(a.clone(), -1)])?, &ta.invert())?;
        eq("T(\"\") = id", &eval(&[])?, &p.identity_transformation())?;
        c.bucket_n("laws evaluated", 6);
        // Pauses, newlines and comments do nothing.
        let mut padded = vec![];
        for n in &a {
            padded.push(match c.rng.below(3) {
                0 => N::Pause,
                1 => N::Newline,
                _ => N::Comment(" U".into()),
            });
            padded.push(n.clone());
        }
        padded.push(N::Comment("x".into()));
        eq("pauses, newlines and comments do nothing", &eval(&padded)?, &ta)?;
        for alg in [&a, &comm, &conj] {
            if inversion_applies(&def, alg) {
                c.bucket("alg inverses evaluated");
                let lib = to_lib(alg);
                let inverse = no_panic("inverting an alg", || lib.invert())?;
                let ti = no_panic("evaluating an alg", || p.transformation_from_alg(&inverse))?
                    .map_err(|e| format!("the inverse {} was refused: {}", inverse, e))?;
                let t = eval(alg)?;
                check!(
                    ti == t.invert(),
                    "the inverse of {:?}, {:?}, does not undo it on {}",
                    print(alg),
                    inverse.to_string(),
                    clip(&def.to_json(), 1500)
                );
                let start = p.default_pattern();
                let end = start
                    .apply_alg(&lib)
                    .and_then(|x| x.apply_alg(&inverse))
                    .map_err(|e| format!("refused: {}", e))?;
                check!(
                    end == start,
                    "{:?} followed by its inverse changes the default pattern",
                    print(alg)
                );
            } else {
                c.bucket("alg inverses not applicable");
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

fn gen_power(rng: &mut Rng) -> i64 {
    match rng.below(4) {
        0 => rng.range(-40, 40),
        1 => {
            let k = rng.below(31);
            let p = 1i64 << k;
            let n = (p + rng.range(-2, 2)).clamp(0, i32::MAX as i64);
            if rng.chance(1, 2) {
                n
            } else {
                -n
            }
        }
        _ => gen_amount(rng),
    }
}

pub fn repetition(ctx: &mut Ctx) {
    // Every small amount, and powers of two and their neighbours.
    ctx.cases_exact("all amounts", if ctx.thorough { 12_000 } else { 2_600 }, |c| {
        let (def, p) = shipped((c.idx % 2) as usize);
        let k = (c.idx / 2) as i64;
        let amounts: Vec<i64> = if k < 1000 { vec![k - 500] } else { vec![gen_power(&mut c.rng)] };
        for amt in amounts {
            c.distinct(format!("{}:{}", def.name, amt));
            let key = def.keys()[c.rng.below(def.keys().len())].clone();
            let m = key.with_amt(amt);
            let expected = def
                .eval_move(&key)
                .map_err(|_| "model".to_owned())?
                .power(amt, &def.orbits);
            let t = no_panic("transformation_from_move", || {
                p.transformation_from_move(&to_lib_move(&m))
            })?
            .map_err(|e| format!("{} was refused: {}", print_move(&m), e))?;
            check!(
                MTrans::read(&t, &def.orbits)? == expected,
                "{} on {} is not {} repeated {} times",
                print_move(&m),
                def.name,
                print_move(&key),
                amt
            );
        }
        Ok(())
    });
    // Transformations that come back to the start only after a very long time.
    ctx.cases("long orders", 4_000, 100_000, |c| {
        let orbits: Vec<MOrbit> = (0..1 + c.rng.below(3))
            .map(|i| MOrbit {
                name: format!("O{}", i),
                np: 20 + c.rng.below(230) as u8,
                no: *c.rng.pick(&[1u8, 1, 2, 3, 5, 12, 107]),
            })
            .collect();
        let mut t = gen_trans(&mut c.rng, &orbits);
        for _ in 0..20 {
            let other = gen_trans(&mut c.rng, &orbits);
            if other.exact_order(&orbits) > t.exact_order(&orbits) {
                t = other;
            }
        }
        let order = t.exact_order(&orbits);
        c.bucket(match order {
            o if o > u64::MAX as u128 => "order beyond 64 bits",
            o if o > u32::MAX as u128 => "order beyond 32 bits",
            o if o > i32::MAX as u128 => "order beyond 31 bits",
            _ => "order within 31 bits",
        });
        let def = MDef {
            name: "long".into(),
            default: gen_pat(&mut c.rng, &orbits),
            default_has_mod: vec![false; orbits.len()],
            moves: vec![(mv("A", 1), t.clone())],
            derived: None,
            orbits,
        };
        let p = no_panic("constructing a puzzle", || def.build())??;
        c.distinct(def.to_json());
        c.note(|| def.to_json());
        for _ in 0..4 {
            let amt = match c.rng.below(4) {
                0 => c.rng.range(0x8000, 0x20000),
                1 if order <= i32::MAX as u128 => {
                    let times = c.rng.range(1, (i32::MAX as u128 / order) as i64);
                    (order as i64 * times + c.rng.range(-2, 2)).min(i32::MAX as i64)
                }
                2 => c.rng.range(i32::MAX as i64 - 1000, i32::MAX as i64),
                _ => c.rng.range(1, i32::MAX as i64),
            };
            let amt = if c.rng.chance(1, 3) { -amt } else { amt };
            let node = if c.rng.chance(1, 2) {
                N::Move(mv("A", amt))
            } else {
                N::Group(vec![N::Move(mv("A", 1))], amt)
            };
            let lib = to_lib(&[node.clone()]);
            let r = no_panic("evaluating an alg", || p.transformation_from_alg(&lib))?
                .map_err(|e| format!("{} was refused: {}", print_node(&node), e))?;
            check!(
                MTrans::read(&r, &def.orbits)? == t.power(amt, &def.orbits),
                "{} is not A repeated {} times on {}",
                print_node(&node),
                amt,
                clip(&def.to_json(), 3000)
            );
        }
        Ok(())
    });
    ctx.cases("powers", 20_000, 400_000, |c| {
        let (def, p) = some_def(c)?;
        let cfg = AlgCfg {
            max_len: 4,
            max_depth: 2,
            unknown: None,
            big_amounts: false,
        };
        let a = gen_puzzle_alg(&mut c.rng, &def, &cfg, 0);
        if !def.unresolvable(&a).is_empty() {
            c.bucket("skipped: no such move");
            return Ok(());
        }
        let base = def.eval(&a).map_err(|_| "model".to_owned())?;
        let order = base.order(&def.orbits);
        c.bucket_max("order", order);
        if order > 1 {
            c.bucket("order above 1");
            c.distinct(format!("{:?}{}", def.orbits, print(&a)));
        }
        c.sample(|| json!({"a": clip(&print(&a), 150), "order": order}));
        c.note(|| format!("{}\na = {:?}", def.to_json(), print(&a)));
        let eval = |alg: &[N]| -> Result<KTransformation, String> {
            let lib = to_lib(alg);
            no_panic("evaluating an alg", || p.transformation_from_alg(&lib))?
                .map_err(|e| format!("{:?} was refused: {}", print(alg), e))
        };
        let (n, m) = (gen_power(&mut c.rng), gen_power(&mut c.rng));
        let power = |k: i64| vec![N::Group(a.clone(), k)];
        let tn = eval(&power(n))?;
        c.bucket(match n {
            0 => "amount:zero",
            n if n < 0 => "amount:negative",
            n if n > 1_000_000 => "amount:huge",
            _ => "amount:positive",
        });
        check!(
            MTrans::read(&tn, &def.orbits)? == base.power(n, &def.orbits),
            "({}){} is not {} repeated {} times on {}",
            print(&a),
            n,
            print(&a),
            n,
            clip(&def.to_json(), 1500)
        );
        let tm = eval(&power(m))?;
        let mut both = power(n);
        both.extend(power(m));
        eq("Tⁿ·Tᵐ", &eval(&both)?, &tn.apply_transformation(&tm))?;
        if (n + m).abs() <= i32::MAX as i64 {
            eq("Tⁿ·Tᵐ = Tⁿ⁺ᵐ", &eval(&both)?, &eval(&power(n + m))?)?;
        }
        eq("T⁻ⁿ = (Tⁿ)⁻¹", &eval(&power(-n))?, &tn.invert())?;
        eq(
            "(Tⁿ)ᵐ",
            &eval(&[N::Group(power(n), m)])?,
            &make_trans(&def, &p, &base.power(n, &def.orbits).power(m, &def.orbits))?,
        )?;
        if order < 1000 {
            eq("T to its order is the identity", &eval(&power(order as i64))?, &p.identity_transformation())?;
        }
        // Brackets take amounts as well.
        let b = gen_puzzle_alg(&mut c.rng, &def, &cfg, 0);
        if def.unresolvable(&b).is_empty() {
            let node = if c.rng.chance(1, 2) {
                N::Comm(a.clone(), b)
            } else {
                N::Conj(a.clone(), b)
            };
            let inner = def.eval(&[node.clone()]).map_err(|_| "model".to_owned())?;
            let t = eval(&[N::Group(vec![node.clone()], n)])?;
            check!(
                MTrans::read(&t, &def.orbits)? == inner.power(n, &def.orbits),
                "{} repeated {} times evaluates wrongly",
                print_node(&node),
                n
            );
        }
        // A move with an amount is the unit move repeated.
        if let Some(mv) = gen_known_move(&mut c.rng, &def, true) {
            if def.resolve(&mv.with_amt(1)).is_some_and(|r| r.2 == "unit") {
                let unit = def.eval_move(&mv.with_amt(1)).map_err(|_| "model".to_owned())?;
                let t = eval(&[N::Move(mv.clone())])?;
                check!(
                    MTrans::read(&t, &def.orbits)? == unit.power(mv.amt, &def.orbits),
                    "{} is not {} repeated {} times",
                    print_move(&mv),
                    print_move(&mv.with_amt(1)),
                    mv.amt
                );
                eq(
                    "Xⁿ = (X)ⁿ",
                    &t,
                    &eval(&[N::Group(vec![N::Move(mv.with_amt(1))], mv.amt)])?,
                )?;
                c.bucket("move amounts");
            }
        }
        Ok(())
    });
}

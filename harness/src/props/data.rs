//! Pattern, transformation and definition data: validity, round trips, accessors, buffers.

use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use cubing_core::kpuzzle::{
    ConversionError, KPattern, KPatternBuffer, KPatternData, KPatternOrbitData, KPuzzle,
    KPuzzleDefinition, KPuzzleOrbitDefinition, KPuzzleOrbitName, KTransformation,
    KTransformationBuffer, KTransformationData, KTransformationOrbitData, OrientationWithMod,
};
use serde_json::{json, Value};

use super::eval::{compare_alg, def_from_json, make_pattern, make_trans, shipped, show};
use crate::check;
use crate::ctx::{clip, no_panic, panics, Case, Ctx, R};
use crate::model_alg::*;
use crate::model_puzzle::*;
use crate::rng::Rng;

pub const SMALL_DEF: DefCfg = DefCfg {
    max_orbits: 3,
    max_pieces: 8,
    max_moves: 3,
    max_derived: 2,
    big: false,
    plain_keys: false,
};

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn one_orbit(np: u8, no: u8, moves: Vec<(MMove, MTrans)>) -> MDef {
    MDef {
        name: "one".into(),
        orbits: vec![MOrbit {
            name: "P".into(),
            np,
            no,
        }],
        default: MPat(vec![(0..np).map(|i| (i, 0, 0)).collect()]),
        default_has_mod: vec![false],
        moves,
        derived: None,
    }
}

// ---------------------------------------------------------------------------------------------

pub fn orientation_mod(ctx: &mut Ctx) {
    // Every number of orientations; for each every modulus, orientation and delta.
    ctx.cases_exact("all orientation counts", 256, |c| {
        let n = c.idx as u32;
        let def = one_orbit(3, n as u8, vec![]);
        c.distinct(format!("{}", n));
        let built = no_panic("constructing a puzzle", || KPuzzle::try_new(def.to_definition()))?;
        if !valid_num_orientations(n) {
            check!(built.is_err(), "{} orientations per piece were accepted", n);
            c.bucket("unsupported counts");
            return Ok(());
        }
        check!(
            built.is_ok(),
            "{} orientations per piece were refused: {}",
            n,
            built.err().unwrap()
        );
        c.bucket("supported counts");
        let n = n as u8;
        // One piece per (orientation, modulus).
        let mut entries: Vec<(u8, u8, u8)> = vec![];
        let mut mods = vec![0];
        mods.extend(factors(n));
        for m in &mods {
            for o in 0..(if *m == 0 { n } else { *m }) {
                entries.push((entries.len() as u8, o, *m));
            }
        }
        c.bucket_max("states", entries.len() as u64);
        let np = entries.len() as u8;
        let def = one_orbit(np, n, vec![]);
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let pat = MPat(vec![entries.clone()]);
        let start = make_pattern(&def, &puzzle, &pat)?;
        check!(
            MPat::read(&start, &def.orbits)? == pat,
            "with {} orientations, orientations read back as {:?}",
            n,
            MPat::read(&start, &def.orbits)?
        );
        for d in 0..n {
            let t = MTrans(vec![(0..np).map(|i| (i, d)).collect()]);
            let lib = make_trans(&def, &puzzle, &t)?;
            let after = no_panic("apply_transformation", || start.apply_transformation(&lib))?;
            let got = MPat::read(&after, &def.orbits)?;
            for (i, e) in entries.iter().enumerate() {
                let m = if e.2 == 0 { n } else { e.2 };
                let expected = (e.0, ((e.1 as u32 + d as u32) % m as u32) as u8, e.2);
                check!(
                    got.0[0][i] == expected,
                    "orientation {} modulo {} (of {}) turned by {} becomes {:?}",
                    e.1,
                    e.2,
                    n,
                    d,
                    got.0[0][i]
                );
            }
            c.bucket_n("turns", np as u64);
        }
        // Deltas of transformations add up modulo the number of orientations, always.
        let def = one_orbit(n, n, vec![]);
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let all = MTrans(vec![(0..n).map(|i| (i, i)).collect()]);
        let all_lib = make_trans(&def, &puzzle, &all)?;
        for d in 0..n {
            let by_d = MTrans(vec![(0..n).map(|i| (i, d)).collect()]);
            let by_d_lib = make_trans(&def, &puzzle, &by_d)?;
            let sum = no_panic("apply_transformation", || all_lib.apply_transformation(&by_d_lib))?;
            check!(
                MTrans::read(&sum, &def.orbits)? == all.then(&by_d, &def.orbits),
                "deltas 0..{} plus {} are {}",
                n,
                d,
                show(&MTrans::read(&sum, &def.orbits)?)
            );
            c.bucket_n("delta sums", n as u64);
        }
        let inv = no_panic("invert", || all_lib.invert())?;
        check!(
            MTrans::read(&inv, &def.orbits)? == all.inverse(&def.orbits),
            "the negatives of the deltas 0..{} are {}",
            n,
            show(&MTrans::read(&inv, &def.orbits)?)
        );
        // Every value that is no orientation: refused as data and by the setters.
        let def = one_orbit(1, n, vec![]);
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let info = puzzle.orbit_info_iter().next().unwrap();
        let mut pattern = puzzle.default_pattern();
        for m in 0..=255u8 {
            for o in [0u8, 1, m.wrapping_sub(1), m, m.saturating_add(1), n - 1, n, n + 1, 254, 255] {
                let valid = if m == 0 { o < n } else { n % m == 0 && o < m };
                let data: KPatternData = HashMap::from([(
                    KPuzzleOrbitName("P".into()),
                    KPatternOrbitData {
                        pieces: vec![0],
                        orientation: vec![o],
                        orientation_mod: Some(vec![m]),
                    },
                )]);
                let made = no_panic("making a pattern", || KPattern::try_from_data(&puzzle, &data))?;
                check!(
                    made.is_ok() == valid,
                    "orientation {} modulo {} (of {}) was {}",
                    o,
                    m,
                    n,
                    if valid { "refused" } else { "accepted" }
                );
                let before = pattern.clone();
                let refused = panics(|| {
                    pattern.set_orientation_with_mod(
                        info,
                        0,
                        &OrientationWithMod {
                            orientation: o,
                            orientation_mod: m,
                        },
                    )
                });
                check!(
                    refused == !valid,
                    "setting orientation {} modulo {} (of {}) was {}",
                    o,
                    m,
                    n,
                    if valid { "refused" } else { "accepted" }
                );
                if valid {
                    let got = pattern.get_orientation_with_mod(info, 0);
                    check!(
                        (got.orientation, got.orientation_mod) == (o, m),
                        "orientation {} modulo {} (of {}) reads back as {:?}",
                        o,
                        m,
                        n,
                        got
                    );
                    check!(
                        made.is_ok_and(|p| p == pattern),
                        "set and built patterns differ for orientation {} modulo {} (of {})",
                        o,
                        m,
                        n
                    );
                    c.bucket("settable");
                } else {
                    check!(before == pattern, "a refused orientation changed the pattern");
                    c.bucket("unsettable");
                }
            }
        }
        Ok(())
    });
    ctx.cases("with permutations", 12_000, 250_000, |c| {
        let no = gen_num_orientations(&mut c.rng);
        let np = c.rng.range(1, 30) as u8;
        let def = one_orbit(np, no, vec![]);
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let pat = gen_pat(&mut c.rng, &def.orbits);
        c.distinct(format!("{} {:?}", no, pat));
        c.sample(|| json!({"orientations": no, "pattern": format!("{:?}", pat.0)}));
        let mut x = make_pattern(&def, &puzzle, &pat)?;
        let mut m = pat;
        let mut total = MTrans::identity(&def.orbits);
        for step in 0..4 {
            let t = gen_trans(&mut c.rng, &def.orbits);
            let lib = make_trans(&def, &puzzle, &t)?;
            x = no_panic("apply_transformation", || x.apply_transformation(&lib))?;
            m = m.apply(&t, &def.orbits);
            total = total.then(&t, &def.orbits);
            check!(
                MPat::read(&x, &def.orbits)? == m,
                "after {} transformations (the last {}): {:?} instead of {:?}, {} orientations",
                step + 1,
                show(&t),
                MPat::read(&x, &def.orbits)?,
                m,
                no
            );
            c.bucket("applications");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

pub fn data_round_trip(ctx: &mut Ctx) {
    ctx.cases("patterns", 20_000, 400_000, |c| {
        let (def, puzzle) = some_puzzle(c)?;
        let pat = gen_pat(&mut c.rng, &def.orbits);
        c.distinct(format!("{:?}{:?}", def.orbits, pat));
        c.sample(|| json!(format!("{:?}", pat.0)));
        let has = pat.mods_needed();
        let data = pat.to_data(&def.orbits, &has);
        let x = no_panic("making a pattern", || KPattern::try_from_data(&puzzle, &data))?
            .map_err(|e| format!("valid pattern data was rejected: {} {:?}", e, data))?;
        check!(
            MPat::read(&x, &def.orbits)? == pat,
            "{:?} reads back as {:?}",
            pat,
            MPat::read(&x, &def.orbits)?
        );
        let out = no_panic("to_data", || x.to_data())?;
        // Data: the same, with the moduli spelled out.
        let full = pat.to_data(&def.orbits, &vec![true; def.orbits.len()]);
        check!(out == full, "{:?} as data is {:?}", pat, out);
        let again = no_panic("making a pattern", || KPattern::try_from_data(&puzzle, &out))?
            .map_err(|e| format!("the data of a pattern was rejected: {} {:?}", e, out))?;
        check!(again == x, "a pattern and its data's pattern differ: {:?}", out);
        check!(hash_of(&again) == hash_of(&x), "equal patterns hash differently");
        // JSON: as users write it, and as the library writes it.
        for text in [
            pat.to_json(&def.orbits, &has),
            serde_json::to_string(&out).map_err(|e| e.to_string())?,
        ] {
            let y = no_panic("KPattern::try_from_json", || {
                KPattern::try_from_json(&puzzle, text.as_bytes())
            })?
            .map_err(|e| format!("valid pattern JSON was rejected: {} {}", e, text))?;
            check!(y == x, "the pattern read from {} differs from {:?}", text, out);
        }
        // The same on an identical puzzle made separately.
        let twin = no_panic("constructing a puzzle", || def.build())??;
        let y = make_pattern(&def, &twin, &pat)?;
        check!(
            y == x && hash_of(&y) == hash_of(&x),
            "the same pattern differs between two identical puzzles: {:?}",
            pat
        );
        // A puzzle that only has other names.
        if c.rng.chance(1, 3) {
            let mut renamed = def.clone();
            renamed.name += "2";
            for o in renamed.orbits.iter_mut() {
                o.name += "2";
            }
            let z = make_pattern(&renamed, &no_panic("constructing a puzzle", || renamed.build())??, &pat)?;
            let same = no_panic("==", || (x == z, z == x))?;
            check!(same.0 == same.1, "equality of patterns depends on the order: {:?}", pat);
            check!(
                !same.0 || hash_of(&x) == hash_of(&z),
                "equal patterns of puzzles of different names hash differently: {:?}",
                pat
            );
            c.bucket("compared with a renamed puzzle's");
        }
        // Changing anything makes a different pattern.
        let mut other = pat.clone();
        let orbit = c.rng.below(def.orbits.len().max(1));
        if def.orbits.get(orbit).is_some_and(|o| o.np > 0) {
            let o = &def.orbits[orbit];
            let i = c.rng.below(o.np as usize);
            let e = &mut other.0[orbit][i];
            match c.rng.below(3) {
                0 => e.0 = e.0.wrapping_add(1 + c.rng.below(255) as u8),
                1 => {
                    let m = if e.2 == 0 { o.no } else { e.2 };
                    e.1 = (e.1 + 1) % m;
                }
                _ => {
                    e.2 = if e.2 == 0 { *c.rng.pick(&factors(o.no)) } else { 0 };
                    e.1 %= if e.2 == 0 { o.no } else { e.2 };
                }
            }
            let y = make_pattern(&def, &puzzle, &other)?;
            check!(
                (x == y) == (pat == other),
                "{:?} and {:?} are {}",
                pat,
                other,
                if x == y { "equal" } else { "different" }
            );
            c.bucket(if pat == other { "equal" } else { "different" });
        }
        // Whatever else a larger puzzle has makes a difference.
        if c.rng.chance(1, 4) {
            let (more, larger) = extended(c, &def)?;
            let mut wide = gen_pat(&mut c.rng, &more.orbits);
            wide.0[..def.orbits.len()].clone_from_slice(&pat.0);
            let z = make_pattern(&more, &larger, &wide)?;
            let (a, b) = no_panic("==", || (x == z, z == x))?;
            check!(!a && !b, "{:?} equals {:?} of a puzzle with one more orbit", pat, wide);
            c.bucket("compared with a larger puzzle's");
        }
        let shown = no_panic("Debug", || format!("{:?}", x))?;
        check!(!shown.is_empty(), "empty Debug output");
        c.bucket_n("pieces", def.orbits.iter().map(|o| o.np as u64).sum());
        Ok(())
    });
    ctx.cases("transformations", 20_000, 400_000, |c| {
        let (def, puzzle) = some_puzzle(c)?;
        let t = gen_trans(&mut c.rng, &def.orbits);
        c.distinct(format!("{:?}{:?}", def.orbits, t));
        c.sample(|| json!(format!("{:?}", t.0)));
        let data = t.to_data(&def.orbits);
        let x = make_trans(&def, &puzzle, &t)?;
        check!(
            MTrans::read(&x, &def.orbits)? == t,
            "{:?} reads back as {:?}",
            t,
            MTrans::read(&x, &def.orbits)?
        );
        let out = no_panic("to_data", || x.to_data())?;
        check!(out == data, "{:?} as data is {:?}", t, out);
        for text in [
            t.to_json(&def.orbits),
            serde_json::to_string(&out).map_err(|e| e.to_string())?,
        ] {
            let y = no_panic("KTransformation::try_from_json", || {
                KTransformation::try_from_json(&puzzle, text.as_bytes())
            })?
            .map_err(|e| format!("valid transformation JSON was rejected: {} {}", e, text))?;
            check!(y == x, "the transformation read from {} differs from {:?}", text, out);
        }
        let twin = no_panic("constructing a puzzle", || def.build())??;
        let y = make_trans(&def, &twin, &t)?;
        check!(
            y == x,
            "the same transformation differs between two identical puzzles: {:?}",
            t
        );
        let other = if c.rng.chance(1, 2) {
            gen_trans(&mut c.rng, &def.orbits)
        } else {
            let mut o = t.clone();
            if let Some(k) = (0..def.orbits.len()).find(|k| def.orbits[*k].np > 0) {
                let no = def.orbits[k].no;
                let i = c.rng.below(o.0[k].len());
                o.0[k][i].1 = (o.0[k][i].1 + 1) % no;
            }
            o
        };
        let y = make_trans(&def, &puzzle, &other)?;
        check!(
            (x == y) == (t == other),
            "{:?} and {:?} are {}",
            t,
            other,
            if x == y { "equal" } else { "different" }
        );
        c.bucket(if t == other { "equal" } else { "different" });
        let id = no_panic("identity_transformation", || puzzle.identity_transformation())?;
        check!((x == id) == t.is_identity(), "{:?} compares wrongly with the identity", t);
        if c.rng.chance(1, 4) {
            let (more, larger) = extended(c, &def)?;
            let mut wide = gen_trans(&mut c.rng, &more.orbits);
            wide.0[..def.orbits.len()].clone_from_slice(&t.0);
            let z = make_trans(&more, &larger, &wide)?;
            let (a, b) = no_panic("==", || (x == z, z == x))?;
            check!(!a && !b, "{:?} equals {:?} of a puzzle with one more orbit", t, wide);
            c.bucket("compared with a larger puzzle's");
        }
        let shown = no_panic("Debug", || format!("{:?}", x))?;
        check!(!shown.is_empty(), "empty Debug output");
        c.bucket_n("pieces", def.orbits.iter().map(|o| o.np as u64).sum());
        Ok(())
    });
}

/// A puzzle with one more orbit, and what to put there.
fn extended(c: &mut Case, def: &MDef) -> Result<(MDef, KPuzzle), String> {
    let mut more = def.clone();
    let o = MOrbit {
        name: "ONE MORE".into(),
        np: c.rng.range(1, 3) as u8,
        no: gen_num_orientations(&mut c.rng),
    };
    more.orbits.push(o);
    more.default = gen_pat(&mut c.rng, &more.orbits);
    more.default_has_mod = vec![true; more.orbits.len()];
    more.moves.clear();
    more.derived = None;
    let puzzle = no_panic("constructing a puzzle", || more.build())??;
    Ok((more, puzzle))
}

fn some_puzzle(c: &mut Case) -> Result<(MDef, KPuzzle), String> {
    if c.rng.chance(1, 8) {
        let (d, p) = shipped(c.rng.below(2));
        return Ok((d, p.clone()));
    }
    let huge = !cfg!(miri) && c.rng.chance(1, 200);
    let big = huge || c.rng.chance(1, 10);
    let many = !huge && c.rng.chance(1, 30);
    let max_orbits = if huge {
        *c.rng.pick(&[80, 160, 250])
    } else if many {
        *c.rng.pick(&[20, 40, 70, 140, 300])
    } else {
        SMALL_DEF.max_orbits
    };
    let def = gen_def(
        &mut c.rng,
        &DefCfg {
            max_moves: 0,
            max_derived: 0,
            max_pieces: if many { 4 } else if big { 255 } else { 20 },
            max_orbits,
            big: big && !many,
            ..SMALL_DEF
        },
    );
    c.bucket_max("orbits", def.orbits.len() as u64);
    c.bucket_max("bytes", def.orbits.iter().map(|o| 2 * o.np as u64).sum());
    let puzzle = no_panic("constructing a puzzle", || def.build())??;
    Ok((def, puzzle))
}

// ---------------------------------------------------------------------------------------------

/// Sequences of writes: each changes exactly one entry; invalid ones change nothing.
pub fn accessors(ctx: &mut Ctx) {
    ctx.cases("patterns", 15_000, 300_000, |c| {
        let (def, puzzle) = some_puzzle(c)?;
        let pat = gen_pat(&mut c.rng, &def.orbits);
        let mut x = make_pattern(&def, &puzzle, &pat)?;
        let mut m = pat;
        let mut kept: Vec<(KPattern, MPat)> = vec![];
        let mut log = String::new();
        if def.orbits.is_empty() {
            return Ok(());
        }
        for _ in 0..12 {
            let k = c.rng.below(def.orbits.len());
            let o = &def.orbits[k];
            let info = puzzle.lookup_orbit(&KPuzzleOrbitName(o.name.clone()));
            let Some(info) = info else {
                return Err(format!("orbit {:?} can't be looked up", o.name));
            };
            check!(
                info.name.0 == o.name && info.num_pieces == o.np && info.num_orientations == o.no,
                "looking up {:?} found {:?}",
                o.name,
                info.name
            );
            let i = match c.rng.below(8) {
                0 => o.np,
                1 => 255,
                2 => o.np.saturating_add(1),
                _ => c.rng.below(o.np.max(1) as usize) as u8,
            };
            let in_range = i < o.np;
            let piece = c.rng.u64() as u8;
            match c.rng.below(4) {
                0 => {
                    log += &format!("set_piece({}, {}, {}) ", k, i, piece);
                    if in_range && c.rng.chance(1, 3) {
                        log += "(unchecked) ";
                        no_panic("set_piece_unchecked", || unsafe {
                            x.set_piece_unchecked(info, i, piece)
                        })?;
                        c.bucket("unchecked accesses in range");
                    } else {
                        let refused = panics(|| x.set_piece(info, i, piece));
                        check!(refused == !in_range, "{}: refused: {}", log, refused);
                    }
                    if in_range {
                        m.0[k][i as usize].0 = piece
                    }
                }
                1 | 2 => {
                    let fs = factors(o.no);
                    let omod = match c.rng.below(4) {
                        0 => c.rng.u64() as u8,
                        1 => 0,
                        _ => *c.rng.pick(&fs),
                    };
                    let limit = if omod == 0 { o.no } else { omod };
                    let ori = match c.rng.below(5) {
                        0 => limit,
                        1 => limit.saturating_add(c.rng.below(3) as u8),
                        _ => c.rng.below(limit as usize) as u8,
                    };
                    let valid = in_range && ori < limit && (omod == 0 || o.no % omod == 0);
                    log += &format!("set_orientation_with_mod({}, {}, {} mod {}) ", k, i, ori, omod);
                    let w = OrientationWithMod {
                        orientation: ori,
                        orientation_mod: omod,
                    };
                    if valid && c.rng.chance(1, 3) {
                        log += "(unchecked) ";
                        no_panic("set_orientation_with_mod_unchecked", || unsafe {
                            x.set_orientation_with_mod_unchecked(info, i, &w)
                        })?;
                        c.bucket("unchecked accesses in range");
                    } else {
                        let refused = panics(|| x.set_orientation_with_mod(info, i, &w));
                        check!(refused == !valid, "{}: refused: {}", log, refused);
                    }
                    if valid {
                        let e = &mut m.0[k][i as usize];
                        e.1 = ori;
                        e.2 = omod;
                    }
                }
                _ => {
                    log += &format!("get({}, {}) ", k, i);
                    let a = panics(|| {
                        x.get_piece(info, i);
                    });
                    let b = panics(|| {
                        x.get_orientation_with_mod(info, i);
                    });
                    check!(a == !in_range && b == !in_range, "{}: refused: {} {}", log, a, b);
                    if in_range {
                        let w = unsafe { x.get_orientation_with_mod_unchecked(info, i) };
                        let e = m.0[k][i as usize];
                        check!(
                            (w.orientation, w.orientation_mod) == (e.1, e.2),
                            "after {}: the unchecked orientation is {:?}, not {} mod {}",
                            log,
                            w,
                            e.1,
                            e.2
                        );
                        c.bucket("unchecked accesses in range");
                    }
                }
            }
            c.bucket(if in_range { "in range" } else { "out of range" });
            if c.rng.chance(1, 4) {
                let name = &o.name;
                let absent = match c.rng.below(7) {
                    0 => name.to_lowercase(),
                    1 => name.to_uppercase(),
                    2 => format!("{} ", name),
                    3 => name.chars().skip(1).collect(),
                    4 => format!("{}{}", name, name),
                    5 => name.chars().take(1).collect(),
                    _ => name.trim().to_owned(),
                };
                let there = def.orbits.iter().position(|o| o.name == absent);
                let found = puzzle
                    .lookup_orbit(&KPuzzleOrbitName(absent.clone()))
                    .map(|f| puzzle.orbit_info_iter().position(|g| std::ptr::eq(f, g)));
                check!(
                    found == there.map(Some),
                    "looking up {:?} finds orbit {:?} instead of {:?}",
                    absent,
                    found,
                    there
                );
                c.bucket(if there.is_some() { "orbits found" } else { "absent orbits not found" });
            }
            check!(
                MPat::read(&x, &def.orbits)? == m,
                "after {}: {:?} instead of {:?}",
                log,
                MPat::read(&x, &def.orbits)?,
                m
            );
            if c.rng.chance(1, 5) {
                kept.push((x.clone(), m.clone()));
            }
            if c.rng.chance(1, 10) && !kept.is_empty() {
                // Take over an earlier value, or be taken over by one.
                let n = c.rng.below(kept.len());
                if c.rng.chance(1, 2) {
                    no_panic("clone_from", || x.clone_from(&kept[n].0))?;
                    m = kept[n].1.clone();
                } else {
                    no_panic("clone_from", || kept[n].0.clone_from(&x))?;
                    kept[n].1 = m.clone();
                }
                log += "clone_from ";
                c.bucket("clone_from");
            }
            if in_range && c.rng.chance(1, 4) {
                // The stored values, as they are.
                let j = c.rng.below(o.np as usize) as u8;
                let e = unsafe { x.packed_orbit_data().get_raw_piece_or_permutation_value(info, i) };
                check!(
                    e == m.0[k][i as usize].0,
                    "after {}: the stored piece is {}, not {}",
                    log,
                    e,
                    m.0[k][i as usize].0
                );
                log += &format!("copy_raw({}, {} to {}) ", k, i, j);
                no_panic("raw values", || unsafe {
                    let d = x.packed_orbit_data_mut();
                    let v = d.get_raw_orientation_value(info, i);
                    d.set_raw_orientation_value(info, j, v);
                    d.set_raw_piece_or_permutation_value(info, j, e);
                })?;
                m.0[k][j as usize] = m.0[k][i as usize];
                c.bucket("stored values copied");
            }
            if c.rng.chance(1, 10) && !kept.is_empty() {
                // Go on with an earlier clone.
                let n = c.rng.below(kept.len());
                let (a, b) = kept[n].clone();
                kept.push((std::mem::replace(&mut x, a), std::mem::replace(&mut m, b)));
                log += "switch ";
            }
        }
        c.distinct(&log);
        c.sample(|| json!(log));
        for (x, m) in &kept {
            c.bucket("clones compared");
            check!(
                MPat::read(x, &def.orbits)? == *m,
                "a clone changed with its original: {}",
                log
            );
        }
        for (i, (x, m)) in kept.iter().enumerate() {
            for (y, n) in kept.iter().skip(i) {
                check!(
                    (x == y) == (m == n),
                    "equality of patterns set up by {} is wrong: {:?} {:?}",
                    log,
                    m,
                    n
                );
                let bytes = unsafe { x.byte_slice() == y.byte_slice() };
                check!(
                    bytes == (m == n),
                    "equality of the bytes of patterns set up by {} is wrong: {:?} {:?}",
                    log,
                    m,
                    n
                );
            }
        }
        Ok(())
    });
    ctx.cases("transformations", 15_000, 300_000, |c| {
        let (def, puzzle) = some_puzzle(c)?;
        let mut m = gen_trans(&mut c.rng, &def.orbits);
        let mut x = make_trans(&def, &puzzle, &m)?;
        let mut kept: Vec<(KTransformation, MTrans)> = vec![];
        let mut log = String::new();
        let infos: Vec<_> = puzzle.orbit_info_iter().collect();
        if def.orbits.is_empty() {
            return Ok(());
        }
        for _ in 0..12 {
            let k = c.rng.below(def.orbits.len());
            let o = &def.orbits[k];
            let info = infos[k];
            let i = match c.rng.below(8) {
                0 => o.np,
                1 => 255,
                _ => c.rng.below(o.np.max(1) as usize) as u8,
            };
            let in_range = i < o.np;
            match c.rng.below(5) {
                0 | 1 => {
                    // Swap two entries: stays a permutation.
                    let v = match c.rng.below(4) {
                        0 => o.np,
                        1 => c.rng.u64() as u8,
                        _ => c.rng.below(o.np.max(1) as usize) as u8,
                    };
                    let valid = in_range && v < o.np;
                    log += &format!("set_permutation_idx({}, {}, {}) ", k, i, v);
                    if valid && c.rng.chance(1, 3) {
                        log += "(unchecked) ";
                        no_panic("set_permutation_idx_unchecked", || unsafe {
                            x.set_permutation_idx_unchecked(info, i, v)
                        })?;
                        c.bucket("unchecked accesses in range");
                    } else {
                        let refused = panics(|| x.set_permutation_idx(info, i, v));
                        check!(refused == !valid, "{}: refused: {}", log, refused);
                    }
                    if valid {
                        m.0[k][i as usize].0 = v;
                    }
                }
                2 | 3 => {
                    let d = match c.rng.below(4) {
                        0 => o.no,
                        1 => c.rng.u64() as u8,
                        _ => c.rng.below(o.no as usize) as u8,
                    };
                    let valid = in_range && d < o.no;
                    log += &format!("set_orientation_delta({}, {}, {}) ", k, i, d);
                    if valid && c.rng.chance(1, 3) {
                        log += "(unchecked) ";
                        no_panic("set_orientation_delta_unchecked", || unsafe {
                            x.set_orientation_delta_unchecked(info, i, d)
                        })?;
                        c.bucket("unchecked accesses in range");
                    } else {
                        let refused = panics(|| x.set_orientation_delta(info, i, d));
                        check!(refused == !valid, "{}: refused: {}", log, refused);
                    }
                    if valid {
                        m.0[k][i as usize].1 = d;
                    }
                }
                _ => {
                    log += &format!("get({}, {}) ", k, i);
                    let a = panics(|| {
                        x.get_permutation_idx(info, i);
                    });
                    let b = panics(|| {
                        x.get_orientation_delta(info, i);
                    });
                    check!(a == !in_range && b == !in_range, "{}: refused: {} {}", log, a, b);
                    if in_range {
                        let e = unsafe {
                            (
                                x.get_permutation_idx_unchecked(info, i),
                                x.get_orientation_delta_unchecked(info, i),
                            )
                        };
                        let w = m.0[k][i as usize];
                        check!(
                            (e.0, e.1) == (w.0, w.1),
                            "after {}: unchecked, the entry is {:?}, not {:?}",
                            log,
                            e,
                            w
                        );
                        let e = unsafe {
                            let d = x.packed_orbit_data();
                            (
                                d.get_raw_piece_or_permutation_value(info, i),
                                d.get_raw_orientation_value(info, i),
                            )
                        };
                        check!(
                            (e.0, e.1) == (w.0, w.1),
                            "after {}: the stored entry is {:?}, not {:?}",
                            log,
                            e,
                            w
                        );
                        c.bucket("unchecked accesses in range");
                    }
                }
            }
            c.bucket(if in_range { "in range" } else { "out of range" });
            check!(
                MTrans::read(&x, &def.orbits)? == m,
                "after {}: {} instead of {}",
                log,
                show(&MTrans::read(&x, &def.orbits)?),
                show(&m)
            );
            if c.rng.chance(1, 10) && !kept.is_empty() {
                let n = c.rng.below(kept.len());
                if c.rng.chance(1, 2) {
                    no_panic("clone_from", || x.clone_from(&kept[n].0))?;
                    m = kept[n].1.clone();
                } else {
                    no_panic("clone_from", || kept[n].0.clone_from(&x))?;
                    kept[n].1 = m.clone();
                }
                log += "clone_from ";
                c.bucket("clone_from");
            }
            if c.rng.chance(1, 5) {
                kept.push((x.clone(), m.clone()));
            }
        }
        c.distinct(&log);
        c.sample(|| json!(log));
        for (x, m) in &kept {
            c.bucket("clones compared");
            check!(
                MTrans::read(x, &def.orbits)? == *m,
                "a clone changed with its original: {}",
                log
            );
        }
        // What was set is what acts (even if it is no permutation).
        let pat = gen_pat(&mut c.rng, &def.orbits);
        let p = make_pattern(&def, &puzzle, &pat)?;
        let after = no_panic("apply_transformation", || p.apply_transformation(&x))?;
        check!(
            MPat::read(&after, &def.orbits)? == pat.apply(&m, &def.orbits),
            "{} applied to {:?} gives {:?}",
            show(&m),
            pat,
            MPat::read(&after, &def.orbits)?
        );
        // Inverting what is no permutation has no meaning, but does not panic.
        let inv = no_panic("invert", || x.invert())?;
        let is_perm = m.0.iter().all(|o| {
            let mut s: Vec<u8> = o.iter().map(|e| e.0).collect();
            s.sort();
            s.iter().enumerate().all(|(i, v)| i == *v as usize)
        });
        if is_perm {
            check!(
                MTrans::read(&inv, &def.orbits)? == m.inverse(&def.orbits),
                "the inverse of {} is {}",
                show(&m),
                show(&MTrans::read(&inv, &def.orbits)?)
            );
            c.bucket("inverses");
        }
        Ok(())
    });
    // Every index of every orbit, on large puzzles: what is written is found again, and only there.
    ctx.cases("all entries", 400, 6_000, |c| {
        let cfg = DefCfg {
            max_orbits: 4,
            max_pieces: 255,
            max_moves: 0,
            max_derived: 0,
            big: true,
            plain_keys: false,
        };
        let def = gen_def(&mut c.rng, &cfg);
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        c.distinct(format!("{:?}", def.orbits));
        let target = gen_pat(&mut c.rng, &def.orbits);
        let mut x = no_panic("default_pattern", || puzzle.default_pattern())?;
        let mut t = no_panic("identity_transformation", || puzzle.identity_transformation())?;
        let tt = gen_trans(&mut c.rng, &def.orbits);
        let mut order: Vec<(usize, u8)> = vec![];
        for (k, o) in def.orbits.iter().enumerate() {
            for i in 0..o.np {
                order.push((k, i));
            }
        }
        c.rng.shuffle(&mut order);
        let infos: Vec<_> = puzzle.orbit_info_iter().collect();
        for (k, i) in &order {
            let e = target.0[*k][*i as usize];
            let w = OrientationWithMod {
                orientation: e.1,
                orientation_mod: e.2,
            };
            no_panic("set_piece", || x.set_piece(infos[*k], *i, e.0))?;
            no_panic("set_orientation_with_mod", || {
                x.set_orientation_with_mod(infos[*k], *i, &w)
            })?;
            let e = tt.0[*k][*i as usize];
            no_panic("set_permutation_idx", || t.set_permutation_idx(infos[*k], *i, e.0))?;
            no_panic("set_orientation_delta", || {
                t.set_orientation_delta(infos[*k], *i, e.1)
            })?;
        }
        c.bucket_n("entries written", order.len() as u64);
        check!(
            MPat::read(&x, &def.orbits)? == target,
            "after writing every entry of a pattern, one differs (orbits {:?})",
            def.orbits
        );
        check!(
            MTrans::read(&t, &def.orbits)? == tt,
            "after writing every entry of a transformation, one differs (orbits {:?})",
            def.orbits
        );
        check!(
            x == make_pattern(&def, &puzzle, &target)? && t == make_trans(&def, &puzzle, &tt)?,
            "built and written values differ (orbits {:?})",
            def.orbits
        );
        Ok(())
    });
    ctx.cases("orbits of other puzzles", 6_000, 100_000, orbits_of_others);
}

/// An orbit handed in may come from another puzzle, defined alike or not. Using it is refused, or
/// reads and writes one and the same entry.
fn orbits_of_others(c: &mut Case) -> R {
    let (def, puzzle) = some_puzzle(c)?;
    let mut other = def.clone();
    match c.rng.below(5) {
        0 => other = some_puzzle(c)?.0,
        1 => {
            // The same names, in another order.
            let mut names: Vec<String> = other.orbits.iter().map(|o| o.name.clone()).collect();
            c.rng.shuffle(&mut names);
            for (o, name) in other.orbits.iter_mut().zip(names) {
                o.name = name;
            }
        }
        2 => c.rng.shuffle(&mut other.orbits),
        3 => {
            for o in &mut other.orbits {
                o.name.push('2');
            }
        }
        _ => {
            if let Some(o) = other.orbits.last_mut() {
                o.no = if o.no == 2 { 3 } else { 2 };
            }
        }
    }
    other.default = MPat(other.orbits.iter().map(|o| (0..o.np).map(|i| (i, 0, 0)).collect()).collect());
    other.default_has_mod = vec![false; other.orbits.len()];
    other.moves = vec![];
    other.derived = None;
    let stranger = no_panic("constructing a puzzle", || other.build())??;
    if other.orbits.is_empty() {
        return Ok(());
    }
    let mut mp = gen_pat(&mut c.rng, &def.orbits);
    let mut p = make_pattern(&def, &puzzle, &mp)?;
    let mut mt = gen_trans(&mut c.rng, &def.orbits);
    let mut t = make_trans(&def, &puzzle, &mt)?;
    c.distinct(format!("{:?}{:?}{:?}{:?}", def.orbits, other.orbits, mp, mt));
    let infos: Vec<_> = stranger.orbit_info_iter().collect();
    for _ in 0..6 {
        let info = infos[c.rng.below(infos.len())];
        if info.num_pieces == 0 {
            continue;
        }
        let i = c.rng.below(info.num_pieces as usize) as u8;
        let what = format!(
            "entry {} of orbit {:?} ({} x {}) of {:?}, used on {:?}",
            i, info.name.0, info.num_pieces, info.num_orientations, other.orbits, def.orbits
        );
        let kind = c.rng.below(4);
        let (refused, read_back) = match kind {
            0 => {
                let v = c.rng.u64() as u8;
                let refused = panics(|| p.set_piece(info, i, v));
                (refused, refused || p.get_piece(info, i) == v)
            }
            1 => {
                let v = OrientationWithMod {
                    orientation: c.rng.below(info.num_orientations as usize) as u8,
                    orientation_mod: 0,
                };
                let refused = panics(|| p.set_orientation_with_mod(info, i, &v));
                (
                    refused,
                    refused || p.get_orientation_with_mod(info, i).orientation == v.orientation,
                )
            }
            2 => {
                let v = c.rng.below(info.num_pieces as usize) as u8;
                let refused = panics(|| t.set_permutation_idx(info, i, v));
                (refused, refused || t.get_permutation_idx(info, i) == v)
            }
            _ => {
                let v = c.rng.below(info.num_orientations as usize) as u8;
                let refused = panics(|| t.set_orientation_delta(info, i, v));
                (refused, refused || t.get_orientation_delta(info, i) == v)
            }
        };
        c.bucket(if refused { "stranger refused" } else { "stranger accepted" });
        check!(read_back, "{}: another value is read than was written", what);
        let (np, nt) = (MPat::read(&p, &def.orbits)?, MTrans::read(&t, &def.orbits)?);
        let changed: usize = np
            .0
            .iter()
            .flatten()
            .zip(mp.0.iter().flatten())
            .map(|(a, b)| (a.0 != b.0) as usize + ((a.1, a.2) != (b.1, b.2)) as usize)
            .sum::<usize>()
            + nt.0
                .iter()
                .flatten()
                .zip(mt.0.iter().flatten())
                .map(|(a, b)| (a.0 != b.0) as usize + (a.1 != b.1) as usize)
                .sum::<usize>();
        check!(
            changed <= if refused { 0 } else { 1 },
            "{}: {} entries changed ({})",
            what,
            changed,
            if refused { "refused" } else { "accepted" }
        );
        (mp, mt) = (np, nt);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn buffers(ctx: &mut Ctx) {
    ctx.cases("buffers", 12_000, 250_000, |c| {
        let (def, puzzle) = some_puzzle(c)?;
        let pat = gen_pat(&mut c.rng, &def.orbits);
        let start = make_pattern(&def, &puzzle, &pat)?;
        let m0 = gen_trans(&mut c.rng, &def.orbits);
        let t0 = make_trans(&def, &puzzle, &m0)?;
        let mut pb = KPatternBuffer::from(start.clone());
        let mut tb = KTransformationBuffer::from(t0.clone());
        // A second pair of buffers, lagging by some steps, to compare with.
        let mut pb2 = KPatternBuffer::from(start.clone());
        let mut tb2 = KTransformationBuffer::from(t0.clone());
        let (mut mp, mut mt) = (pat.clone(), m0.clone());
        let (mut mp2, mut mt2) = (pat.clone(), m0.clone());
        let n = match c.rng.below(8) {
            0 => 0,
            1 => 1,
            2 if c.rng.chance(1, 12) => 253 + c.rng.below(10),
            2 => 50,
            _ => c.rng.below(12),
        };
        let mut saved: Vec<(KPattern, MPat)> = vec![];
        let mut key = format!("{:?}{:?}", def.orbits, pat);
        // Targets that already hold something else.
        let junk_pat = gen_pat(&mut c.rng, &def.orbits);
        let mut into_p = make_pattern(&def, &puzzle, &junk_pat)?;
        let junk_trans = gen_trans(&mut c.rng, &def.orbits);
        let mut into_t = make_trans(&def, &puzzle, &junk_trans)?;
        for step in 0..=n {
            check!(
                MPat::read(pb.current(), &def.orbits)? == mp,
                "after {} transformations a pattern buffer holds {:?} instead of {:?}",
                step,
                MPat::read(pb.current(), &def.orbits)?,
                mp
            );
            check!(
                MTrans::read(tb.current(), &def.orbits)? == mt,
                "after {} transformations a transformation buffer holds {} instead of {}",
                step,
                show(&MTrans::read(tb.current(), &def.orbits)?),
                show(&mt)
            );
            check!(
                (pb == pb2) == (mp == mp2) && (tb == tb2) == (mt == mt2),
                "buffers compare by more than their current values ({} steps)",
                step
            );
            c.bucket(if mp == mp2 { "buffers equal" } else { "buffers different" });
            if step == n {
                break;
            }
            let t = gen_trans(&mut c.rng, &def.orbits);
            let lib = make_trans(&def, &puzzle, &t)?;
            key += &format!("{:?}", t.0);
            if c.rng.chance(1, 3) {
                saved.push((pb.current().clone(), mp.clone()));
            }
            // One step by value, one into an existing target.
            let by_value = no_panic("apply_transformation", || pb.current().apply_transformation(&lib))?;
            no_panic("apply_transformation_into", || {
                pb.current().apply_transformation_into(&lib, &mut into_p)
            })?;
            check!(
                by_value == into_p,
                "apply_transformation and apply_transformation_into differ"
            );
            let t_by_value =
                no_panic("apply_transformation", || tb.current().apply_transformation(&lib))?;
            no_panic("apply_transformation_into", || {
                tb.current().apply_transformation_into(&lib, &mut into_t)
            })?;
            check!(
                t_by_value == into_t,
                "apply_transformation and apply_transformation_into differ"
            );
            check!(
                MPat::read(pb.current(), &def.orbits)? == mp
                    && MTrans::read(tb.current(), &def.orbits)? == mt
                    && MTrans::read(&lib, &def.orbits)? == t,
                "applying a transformation changed its operands"
            );
            no_panic("apply_transformation", || pb.apply_transformation(&lib))?;
            no_panic("apply_transformation", || tb.apply_transformation(&lib))?;
            mp = mp.apply(&t, &def.orbits);
            mt = mt.then(&t, &def.orbits);
            check!(
                *pb.current() == by_value && *tb.current() == t_by_value,
                "a buffer steps differently from apply_transformation"
            );
            if c.rng.chance(1, 2) {
                no_panic("apply_transformation", || pb2.apply_transformation(&lib))?;
                no_panic("apply_transformation", || tb2.apply_transformation(&lib))?;
                mp2 = mp2.apply(&t, &def.orbits);
                mt2 = mt2.then(&t, &def.orbits);
            }
            c.bucket("steps");
        }
        for (x, m) in &saved {
            check!(
                MPat::read(x, &def.orbits)? == *m,
                "a pattern copied from a buffer changed later"
            );
        }
        check!(
            MPat::read(&start, &def.orbits)? == pat && MTrans::read(&t0, &def.orbits)? == m0,
            "a buffer changed what it was made from"
        );
        c.distinct(key);
        c.sample(|| json!({"steps": n, "orbits": def.orbits.iter().map(|o| (o.np, o.no)).collect::<Vec<_>>()}));
        Ok(())
    });
    ctx.cases("long histories", 48, 800, long_histories);
}

/// Long histories on small puzzles, looked at around the steps at which a counter wraps.
fn long_histories(c: &mut Case) -> R {
    let (def, puzzle) = loop {
        let (def, puzzle) = some_puzzle(c)?;
        let bytes: usize = def.orbits.iter().map(|o| o.np as usize).sum();
        if (1..=24).contains(&bytes) {
            break (def, puzzle);
        }
    };
    let pat = gen_pat(&mut c.rng, &def.orbits);
    let start = gen_trans(&mut c.rng, &def.orbits);
    let mut pb = KPatternBuffer::from(make_pattern(&def, &puzzle, &pat)?);
    let mut tb = KTransformationBuffer::from(make_trans(&def, &puzzle, &start)?);
    let (mut mp, mut mt) = (pat, start);
    let n_steps = 1 + c.rng.below(5);
    let mut steps = vec![];
    for _ in 0..n_steps {
        let t = gen_trans(&mut c.rng, &def.orbits);
        let lib = make_trans(&def, &puzzle, &t)?;
        steps.push((t, lib));
    }
    let n = *c.rng.pick(&[300usize, 1_030, 33_000, 65_600, 131_100]);
    let look_every_step = c.rng.chance(1, 2);
    c.distinct(format!("{:?}{:?}{:?}{}", def.orbits, mp, mt, n));
    for step in 1..=n {
        let (t, lib) = &steps[c.rng.below(n_steps)];
        no_panic("apply_transformation", || pb.apply_transformation(lib))?;
        no_panic("apply_transformation", || tb.apply_transformation(lib))?;
        mp = mp.apply(t, &def.orbits);
        mt = mt.then(t, &def.orbits);
        let near_power_of_two = (step + 3) & (step + 2) < 8 || (step & (step - 1)) < 4;
        if step == n || (near_power_of_two && look_every_step) || (look_every_step && step < 600) {
            c.bucket("looks into a long history");
            check!(
                MPat::read(pb.current(), &def.orbits)? == mp,
                "after {} transformations a pattern buffer holds {:?} instead of {:?}",
                step,
                MPat::read(pb.current(), &def.orbits)?,
                mp
            );
            check!(
                MTrans::read(tb.current(), &def.orbits)? == mt,
                "after {} transformations a transformation buffer holds {} instead of {}",
                step,
                show(&MTrans::read(tb.current(), &def.orbits)?),
                show(&mt)
            );
        }
    }
    c.bucket_max("steps of one history", n as u64);
    let fresh_p = KPatternBuffer::from(make_pattern(&def, &puzzle, &mp)?);
    let fresh_t = KTransformationBuffer::from(make_trans(&def, &puzzle, &mt)?);
    check!(
        pb == fresh_p && tb == fresh_t,
        "a buffer with a history of {} steps differs from a fresh one with the same value",
        n
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// Random graphs of derived moves: acyclic and cyclic ones, and ones with unknown moves.
pub fn derived_validation(ctx: &mut Ctx) {
    ctx.cases("graphs", 25_000, 500_000, |c| {
        let orbits = vec![MOrbit {
            name: "P".into(),
            np: 4,
            no: 3,
        }];
        let mut def = MDef {
            name: "graph".into(),
            default: MPat(vec![(0..4).map(|i| (i, 0, 0)).collect()]),
            default_has_mod: vec![false],
            moves: vec![],
            derived: Some(vec![]),
            orbits,
        };
        // Amounts make keys meet under resolution.
        let amounts: &[i64] = if c.rng.chance(1, 2) { &[1] } else { &[1, 1, 2, -1, -2, 3, 0] };
        let n_direct = c.rng.below(3);
        let n = 1 + c.rng.below(8);
        let families = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K"];
        for f in families.iter().take(n_direct) {
            let t = gen_trans(&mut c.rng, &def.orbits);
            def.moves.push((mv(f, *c.rng.pick(amounts)), t));
        }
        let mut keys: Vec<MMove> = def.moves.iter().map(|m| m.0.clone()).collect();
        for _ in 0..n {
            // Mostly fresh names.
            let f = families[if c.rng.chance(4, 5) { n_direct + c.rng.below(n) } else { c.rng.below(n + n_direct) }];
            let key = mv(f, *c.rng.pick(amounts));
            if !def.derived.as_ref().unwrap().iter().any(|(k, _)| *k == key) {
                def.derived.as_mut().unwrap().push((key.clone(), vec![]));
                keys.push(key);
            }
        }
        let total = def.derived.as_ref().unwrap().len();
        let back_edges = c.rng.chance(1, 3);
        let unknown = c.rng.chance(1, 6);
        for i in 0..total {
            let mut alg = vec![];
            for _ in 0..c.rng.below(4) {
                // Forward references only, unless a cycle is wanted.
                let lo = if back_edges && c.rng.chance(1, 3) { 0 } else { n_direct + i + 1 };
                let choices: Vec<&MMove> = keys[..n_direct.min(keys.len())]
                    .iter()
                    .chain(keys[lo.min(keys.len())..].iter())
                    .collect();
                let m = if unknown && c.rng.chance(1, 4) {
                    mv("Z", 1)
                } else if choices.is_empty() {
                    continue;
                } else {
                    (*c.rng.pick(&choices)).clone()
                };
                let m = if c.rng.chance(1, 3) {
                    m.with_amt(*c.rng.pick(&[1, -1, 2, -2, 3, 7]))
                } else {
                    m
                };
                let leaf = vec![N::Move(m)];
                // Hidden at any place a move can be.
                alg.push(match c.rng.below(8) {
                    0 => N::Group(leaf, *c.rng.pick(&[1, 0, -1, 3])),
                    1 => N::Comm(leaf, vec![]),
                    2 => N::Comm(vec![N::Pause], leaf),
                    3 => N::Conj(leaf, vec![]),
                    4 => N::Conj(vec![], vec![N::Group(leaf, 2)]),
                    _ => leaf.into_iter().next().unwrap(),
                });
            }
            def.derived.as_mut().unwrap()[i].1 = stable(&alg);
        }
        let text = def.to_json();
        c.distinct(&text);
        c.sample(|| json!(def.derived.as_ref().unwrap().iter().map(|(m, a)| (print_move(m), print(a))).collect::<Vec<_>>()));
        c.note(|| text.clone());
        let expected = def.derived_ok();
        let built = no_panic("constructing a puzzle", || KPuzzle::try_from_json(text.as_bytes()))?;
        match (&expected, built) {
            (Ok(()), Err(e)) => Err(format!("valid derived moves were refused: {} {}", e, text)),
            (Err(why), Ok(_)) => Err(format!("derived moves ({}) were accepted: {}", why, text)),
            (Err(why), Err(e)) => {
                c.bucket(&format!("refused: {}", why));
                let at_fault = def.moves_at_fault();
                check!(
                    at_fault.iter().any(|m| names(&e.description, m)),
                    "the error names none of the moves at fault, {:?}: {:?}",
                    at_fault,
                    e.description
                );
                Ok(())
            }
            (Ok(()), Ok(puzzle)) => {
                c.bucket("accepted");
                // Everything defined can be evaluated.
                for key in &keys {
                    compare_alg(c, &def, &puzzle, &[N::Move(key.clone())])?;
                }
                Ok(())
            }
        }
    });
    // Very many derived moves, one of which is not well founded.
    ctx.cases("very many", 24, 200, |c| {
        let n = *c.rng.pick(&[300usize, 1_100, 3_000, 5_000]);
        let mut def = one_orbit(3, 2, vec![]);
        let t = gen_trans(&mut c.rng, &def.orbits);
        def.moves.push((mv("X", 1), t));
        let name = |i: usize| i.to_string().bytes().map(|b| (b - b'0' + b'a') as char).collect::<String>() + "_";
        let mut derived: Vec<(MMove, Vec<N>)> =
            (0..n).map(|i| (mv(&name(i), 1), vec![N::Move(mv("X", 1 + i as i64))])).collect();
        let at = c.rng.below(n);
        let bad = c.idx % 4;
        derived[at].1 = match bad {
            0 => derived[at].1.clone(),
            1 => vec![N::Move(mv("nope", 1))],
            2 => vec![N::Move(derived[at].0.clone())],
            _ => {
                let next = N::Move(derived[(at + 1) % n].0.clone());
                derived[(at + 1) % n].1 = vec![N::Move(derived[at].0.clone())];
                vec![next]
            }
        };
        def.derived = Some(derived);
        c.distinct(format!("{} {} {}", n, at, bad));
        c.sample(|| json!({"derived moves": n, "broken": at, "how": bad}));
        let text = def.to_json();
        let built = no_panic("constructing a puzzle", || KPuzzle::try_from_json(text.as_bytes()))?;
        check!(
            built.is_ok() == (bad == 0),
            "a puzzle with {} derived moves of which {} is not well founded was {}",
            n,
            if bad == 0 { "none" } else { "one" },
            if built.is_ok() { "accepted" } else { "refused" }
        );
        c.bucket(if built.is_ok() { "large definitions accepted" } else { "large definitions refused" });
        if let Ok(puzzle) = built {
            compare_alg(c, &def, &puzzle, &[N::Move(mv(&name(at), 2)), N::Move(mv(&name(n - 1), 3))])?;
        }
        Ok(())
    });
    // Long chains, and diamonds (2^60 paths): validation looks at each move once.
    ctx.cases("chains", 200, 2_000, |c| {
        let n = *c.rng.pick(&[10usize, 60, 200]);
        let diamond = c.rng.chance(1, 2);
        let cyclic = c.rng.chance(1, 3);
        let base = c.rng.chance(3, 4);
        let mut def = one_orbit(3, 2, vec![]);
        if base {
            let t = gen_trans(&mut c.rng, &def.orbits);
            def.moves.push((mv("X", 1), t));
        }
        let name = |i: usize| {
            if i == 0 {
                "X".to_owned()
            } else {
                let mut s = String::from("Y");
                let mut i = i;
                while i > 0 {
                    s.push((b'a' + (i % 26) as u8) as char);
                    i /= 26;
                }
                s
            }
        };
        let mut derived: Vec<(MMove, Vec<N>)> = vec![];
        for i in 1..=n {
            let prev = N::Move(mv(&name(i - 1), 1));
            derived.push((
                mv(&name(i), 1),
                if diamond {
                    vec![N::Comm(vec![prev.clone()], vec![prev.clone()]), prev]
                } else {
                    vec![prev]
                },
            ));
        }
        if cyclic {
            let back = 1 + c.rng.below(n);
            let at = c.rng.below(back);
            derived[at].1.push(N::Group(vec![N::Move(mv(&name(back), 1))], 0));
        }
        c.rng.shuffle(&mut derived);
        def.derived = Some(derived);
        let text = def.to_json();
        c.distinct(&text);
        c.sample(|| json!({"moves": n, "diamond": diamond, "cyclic": cyclic, "base": base}));
        let built = no_panic("constructing a puzzle", || KPuzzle::try_from_json(text.as_bytes()))?;
        check!(
            built.is_ok() == (base && !cyclic),
            "a chain of {} derived moves (diamond: {}, cyclic: {}, base: {}) was {}",
            n,
            diamond,
            cyclic,
            base,
            if built.is_ok() { "accepted" } else { "refused" }
        );
        c.bucket(if built.is_ok() { "chains accepted" } else { "chains refused" });
        if let Ok(puzzle) = built {
            let i = if diamond { n.min(6) } else { n };
            compare_alg(c, &def, &puzzle, &[N::Move(mv(&name(i), 2))])?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// Malformed data.

pub fn pattern_data_valid(orbits: &[(String, u8, u8)], data: &KPatternData) -> bool {
    orbits.iter().all(|(name, np, no)| {
        let Some(d) = data.get(&KPuzzleOrbitName(name.clone())) else {
            return false;
        };
        let n = *np as usize;
        if d.pieces.len() < n || d.orientation.len() < n {
            return false;
        }
        if d.orientation_mod.as_ref().is_some_and(|m| m.len() < n) {
            return false;
        }
        (0..n).all(|i| {
            let m = d.orientation_mod.as_ref().map_or(0, |m| m[i]);
            if m == 0 {
                d.orientation[i] < *no
            } else {
                no % m == 0 && d.orientation[i] < m
            }
        })
    })
}

pub fn trans_data_valid(orbits: &[(String, u8, u8)], data: &KTransformationData) -> bool {
    orbits.iter().all(|(name, np, no)| {
        let Some(d) = data.get(&KPuzzleOrbitName(name.clone())) else {
            return false;
        };
        let n = *np as usize;
        if d.permutation.len() < n || d.orientation_delta.len() < n {
            return false;
        }
        let mut seen = vec![false; n];
        for p in &d.permutation[..n] {
            if *p as usize >= n || seen[*p as usize] {
                return false;
            }
            seen[*p as usize] = true;
        }
        d.orientation_delta[..n].iter().all(|x| x < no)
    })
}

fn mutate_vec(rng: &mut Rng, v: &mut Vec<u8>, limit: u8) {
    match rng.below(8) {
        0 => {
            v.pop();
        }
        1 => v.push(rng.u64() as u8),
        2 => v.clear(),
        3 if !v.is_empty() => {
            let i = rng.below(v.len());
            v.remove(i);
        }
        4 if !v.is_empty() => {
            let i = rng.below(v.len());
            v[i] = limit;
        }
        5 if v.len() > 1 => {
            let (i, j) = (rng.below(v.len()), rng.below(v.len()));
            v[i] = v[j];
        }
        6 if !v.is_empty() => {
            let i = rng.below(v.len());
            v[i] = limit.wrapping_sub(1);
        }
        _ if !v.is_empty() => {
            let i = rng.below(v.len());
            v[i] = *rng.pick(&[255, 254, 128, 127, 107, 108, 2, 1, 0]);
        }
        _ => {}
    }
}

fn mutate_pattern_data(rng: &mut Rng, orbits: &[MOrbit], data: &mut KPatternData) {
    for _ in 0..1 + rng.below(2) {
        if orbits.is_empty() {
            return;
        }
        let o = rng.pick(orbits).clone();
        let key = KPuzzleOrbitName(o.name.clone());
        if rng.chance(1, 10) {
            let removed = data.remove(&key);
            if let (Some(d), true) = (removed, rng.chance(1, 2)) {
                data.insert(KPuzzleOrbitName(format!("{} ", o.name)), d);
            }
            continue;
        }
        if rng.chance(1, 8) {
            // Of no orbit of this puzzle.
            let mut d = data.get(&key).cloned().unwrap_or_else(|| KPatternOrbitData {
                pieces: vec![],
                orientation: vec![],
                orientation_mod: None,
            });
            if rng.chance(1, 2) {
                mutate_vec(rng, &mut d.orientation, o.no);
            }
            data.insert(KPuzzleOrbitName(format!("{}{}", o.name, rng.below(3))), d);
            continue;
        }
        let Some(d) = data.get_mut(&key) else { continue };
        match rng.below(5) {
            0 => mutate_vec(rng, &mut d.pieces, o.np),
            1 | 2 => mutate_vec(rng, &mut d.orientation, o.no),
            3 => {
                let n = d.pieces.len();
                let mut m = d.orientation_mod.take().unwrap_or_else(|| vec![0; n]);
                mutate_vec(rng, &mut m, o.no);
                d.orientation_mod = Some(m);
            }
            _ => {
                // A modulus on its own.
                let n = d.pieces.len();
                let mut m = d.orientation_mod.take().unwrap_or_else(|| vec![0; n]);
                if !m.is_empty() {
                    let i = rng.below(m.len());
                    m[i] = rng.range(1, o.no as i64 + 1) as u8;
                }
                d.orientation_mod = Some(m);
            }
        }
    }
}

fn mutate_trans_data(rng: &mut Rng, orbits: &[MOrbit], data: &mut KTransformationData) {
    for _ in 0..1 + rng.below(2) {
        if orbits.is_empty() {
            return;
        }
        let o = rng.pick(orbits).clone();
        let key = KPuzzleOrbitName(o.name.clone());
        if rng.chance(1, 10) {
            let removed = data.remove(&key);
            if let (Some(d), true) = (removed, rng.chance(1, 2)) {
                data.insert(KPuzzleOrbitName(o.name.to_lowercase()), d);
            }
            continue;
        }
        if rng.chance(1, 8) {
            // Of no orbit of this puzzle.
            let mut d = data.get(&key).cloned().unwrap_or_else(|| KTransformationOrbitData {
                permutation: vec![],
                orientation_delta: vec![],
            });
            if rng.chance(1, 2) {
                mutate_vec(rng, &mut d.permutation, o.np);
            }
            data.insert(KPuzzleOrbitName(format!("{}{}", o.name, rng.below(3))), d);
            continue;
        }
        let Some(d) = data.get_mut(&key) else { continue };
        if rng.chance(3, 5) {
            mutate_vec(rng, &mut d.permutation, o.np)
        } else {
            mutate_vec(rng, &mut d.orientation_delta, o.no)
        }
    }
}

fn kind(e: &ConversionError) -> &'static str {
    match e {
        ConversionError::InvalidAlg(_) => "InvalidAlg",
        ConversionError::InvalidDefinition(_) => "InvalidDefinition",
        ConversionError::InvalidKPatternData(_) => "InvalidKPatternData",
        ConversionError::InvalidKTransformationData(_) => "InvalidKTransformationData",
    }
}

/// Everything that can be done with a puzzle that was accepted, without panicking.
fn exercise(c: &mut Case, puzzle: &KPuzzle) -> R {
    let def = puzzle.definition();
    let orbits: Vec<(String, u8, u8)> = def
        .orbits
        .iter()
        .map(|o| (o.orbit_name.0.clone(), o.num_pieces, o.num_orientations))
        .collect();
    let id = no_panic("identity_transformation", || puzzle.identity_transformation())?;
    let default_valid = pattern_data_valid(&orbits, &def.default_pattern);
    let default = match no_panic("default_pattern", || puzzle.default_pattern()) {
        Ok(p) => {
            check!(
                default_valid,
                "a default pattern was made from invalid data {:?}",
                def.default_pattern
            );
            Some(p)
        }
        Err(e) => {
            if default_valid {
                return Err(e);
            }
            // Recorded as a known finding: construction does not look at the default pattern.
            c.bucket("known finding: default_pattern() panics on a malformed default pattern");
            None
        }
    };
    let mut keys: Vec<_> = def.moves.keys().cloned().collect();
    if let Some(d) = &def.derived_moves {
        keys.extend(d.keys().cloned());
    }
    for m in keys {
        let t = no_panic("transformation_from_move", || puzzle.transformation_from_move(&m))?;
        let t = t.map_err(|e| format!("the defined move {} is refused: {}", m, e))?;
        let inv = no_panic("invert", || t.invert())?;
        check!(
            t.apply_transformation(&inv) == id,
            "the defined move {} is not invertible: {:?}",
            m,
            t.to_data()
        );
        let i = no_panic("transformation_from_move", || {
            puzzle.transformation_from_move(&m.invert())
        })?;
        check!(i.is_ok(), "the inverse of the defined move {} is refused", m);
        if let Some(p) = &default {
            let q = no_panic("apply_move", || p.apply_move(&m))?
                .map_err(|e| format!("the defined move {} is refused: {}", m, e))?;
            no_panic("to_data", || q.to_data())?;
        }
    }
    Ok(())
}

/// Whether the text has this name, and not just as a part of another.
pub fn names(text: &str, name: &str) -> bool {
    let part = |c: char| c.is_alphanumeric() || c == '_';
    text.match_indices(name).any(|(i, _)| {
        let before = text[..i].chars().next_back();
        let after = text[i + name.len()..].chars().next();
        !before.is_some_and(part)
            && !after.is_some_and(|c| part(c) || c == '\'' && before != Some('\''))
    })
}

fn mutate_json(rng: &mut Rng, v: &mut Value) {
    // Walk down at random, then damage what is there.
    match v {
        Value::Object(m) if !m.is_empty() && rng.chance(4, 5) => {
            let k = m.keys().nth(rng.below(m.len())).unwrap().clone();
            match rng.below(14) {
                0 => {
                    m.remove(&k);
                }
                3 | 4 => {
                    // A member that nothing asks for, next to those that are.
                    let x = match rng.below(4) {
                        0 => Value::Null,
                        1 => json!("c:t f 0"),
                        2 => json!({"a": [1, {"b": 2.5e3}], "c": "\u{e9}\"\n"}),
                        _ => m[&k].clone(),
                    };
                    m.insert((*rng.pick(&["experimentalPuzzleDescription", "orientation_mod", "Pieces", "comment", "EXTRA"])).to_owned(), x);
                }
                1 => {
                    let x = m.remove(&k).unwrap();
                    m.insert(format!("{}2", k), x);
                }
                5 | 6 => {
                    // A name that others use for it.
                    let x = m.remove(&k).unwrap();
                    let other = match rng.below(5) {
                        0 => k.chars().flat_map(|c| if c.is_ascii_uppercase() { vec!['_', c.to_ascii_lowercase()] } else { vec![c] }).collect(),
                        1 => k.to_lowercase(),
                        2 => {
                            let mut cs = k.chars();
                            cs.next().map(|c| c.to_ascii_uppercase().to_string()).unwrap_or_default() + cs.as_str()
                        }
                        _ => (*rng.pick(&[
                            "orientation", "orientations", "orientationDelta", "orientationMod", "pieces", "permutation",
                            "permutations", "piece", "delta", "mod", "numPieces", "numOrientations", "orbitName", "moves",
                            "derivedMoves", "defaultPattern", "startState", "startPattern", "definition", "orbits", "name",
                        ]))
                        .to_owned(),
                    };
                    m.insert(other, x);
                }
                2 => {
                    let x = m[&k].clone();
                    m.insert(
                        (*rng.pick(&["", "R", "R2'", "'", "(R U)", "EDGES", "pieces", "2R", "_SLASH_", "99999999999999R"])).to_owned(),
                        x,
                    );
                }
                _ => mutate_json(rng, m.get_mut(&k).unwrap()),
            }
        }
        Value::Array(a) if !a.is_empty() && rng.chance(4, 5) => {
            let i = rng.below(a.len());
            match rng.below(8) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    a.push(x);
                }
                2 => a.clear(),
                _ => mutate_json(rng, &mut a[i]),
            }
        }
        Value::Number(n) => {
            let old = n.as_i64().unwrap_or(0);
            let choices = [
                json!(old + 1),
                json!(old - 1),
                json!(0),
                json!(255),
                json!(256),
                json!(-1),
                json!(1.5),
                json!(107),
                json!(108),
                json!(u64::MAX),
                json!("1"),
                Value::Null,
                json!(rng.below(256)),
            ];
            *v = rng.pick(&choices).clone();
        }
        _ => {
            let choices = [
                Value::Null,
                json!([]),
                json!({}),
                json!(""),
                json!("R"),
                json!("R U"),
                json!("(R"),
                json!("[R, U]"),
                json!(0),
                json!(true),
                json!([0, 1]),
                json!("NOPE"),
            ];
            *v = rng.pick(&choices).clone();
        }
    }
}

fn def_valid(d: &KPuzzleDefinition) -> bool {
    let orbits: Vec<(String, u8, u8)> = d
        .orbits
        .iter()
        .map(|o| (o.orbit_name.0.clone(), o.num_pieces, o.num_orientations))
        .collect();
    let model = MDef {
        name: d.name.clone(),
        orbits: orbits
            .iter()
            .map(|o| MOrbit {
                name: o.0.clone(),
                np: o.1,
                no: o.2,
            })
            .collect(),
        default: MPat(vec![]),
        default_has_mod: vec![],
        moves: d
            .moves
            .keys()
            .map(|m| (from_lib_move(m), MTrans(vec![])))
            .collect(),
        derived: d.derived_moves.as_ref().map(|d| {
            d.iter()
                .map(|(m, a)| (from_lib_move(m), from_lib(a)))
                .collect()
        }),
    };
    let names: HashSet<&String> = orbits.iter().map(|o| &o.0).collect();
    // Data has one entry per name.
    names.len() == orbits.len()
        && orbits.iter().all(|o| valid_num_orientations(o.2 as u32))
        && d.moves.values().all(|t| trans_data_valid(&orbits, t))
        && model.derived_ok().is_ok()
}

/// What may go wrong with a whole text: something after its end, or bytes that are no UTF-8.
fn dress_up(rng: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
    match rng.below(10) {
        0 => b.extend_from_slice(*rng.pick(&[
            &b" "[..], b"\n", b"\r\n\t ", b"}", b"]", b",", b" {}", b"null", b"\n1", b"\0", b"//", b"\xa0", b"\xef\xbb\xbf",
        ])),
        1 => {
            let mut x = rng.pick(&[&b" "[..], b"\n\t", b"\xef\xbb\xbf", b"\0", b","]).to_vec();
            x.append(&mut b);
            b = x
        }
        2 => {
            // Inside of a string, wherever there is one.
            let quotes: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'"').collect();
            if !quotes.is_empty() {
                let i = *rng.pick(&quotes) + 1;
                let x = *rng.pick(&[
                    &b"\xff"[..], b"\xc3", b"\xe9", b"\xc3\xa9", b"\xed\xa0\x80", b"\x80", b"\xf4\x90\x80\x80", b"\xef\xbf\xbd", b"\\u00e9", b"\\ud800", b"\x01",
                ]);
                b.splice(i..i, x.iter().copied());
            }
        }
        _ => {}
    }
    b
}

/// Independent reading of the JSON forms: what the text describes, if it describes anything.
mod forms {
    use std::collections::HashMap;
    use std::fmt;
    use std::marker::PhantomData;

    use serde::de::{MapAccess, Visitor};
    use serde::{Deserialize, Deserializer};

    /// The members of an object, in order and with repeated ones.
    pub struct Members<V>(pub Vec<(String, V)>);

    impl<'de, V: Deserialize<'de>> Deserialize<'de> for Members<V> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct Reader<V>(PhantomData<V>);
            impl<'de, V: Deserialize<'de>> Visitor<'de> for Reader<V> {
                type Value = Members<V>;
                fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    f.write_str("an object")
                }
                fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Members<V>, A::Error> {
                    let mut v = vec![];
                    while let Some(e) = a.next_entry()? {
                        v.push(e)
                    }
                    Ok(Members(v))
                }
            }
            d.deserialize_map(Reader(PhantomData))
        }
    }

    #[derive(Deserialize)]
    pub struct Orbit {
        #[serde(rename = "orbitName")]
        pub name: String,
        #[serde(rename = "numPieces")]
        pub np: u8,
        #[serde(rename = "numOrientations")]
        pub no: u8,
    }

    #[derive(Deserialize)]
    pub struct PatOrbit {
        pub pieces: Vec<u8>,
        pub orientation: Vec<u8>,
        #[serde(rename = "orientationMod")]
        pub mods: Option<Vec<u8>>,
    }

    #[derive(Deserialize)]
    pub struct TransOrbit {
        pub permutation: Vec<u8>,
        #[serde(rename = "orientationDelta")]
        pub delta: Vec<u8>,
    }

    #[derive(Deserialize)]
    pub struct Def {
        pub name: String,
        pub orbits: Vec<Orbit>,
        #[serde(rename = "defaultPattern")]
        pub default: HashMap<String, PatOrbit>,
        pub moves: Members<HashMap<String, TransOrbit>>,
        #[serde(rename = "derivedMoves")]
        pub derived: Option<Members<String>>,
    }
}

fn form_of_pattern(x: HashMap<String, forms::PatOrbit>) -> KPatternData {
    x.into_iter()
        .map(|(k, o)| {
            let d = KPatternOrbitData {
                pieces: o.pieces,
                orientation: o.orientation,
                orientation_mod: o.mods,
            };
            (KPuzzleOrbitName(k), d)
        })
        .collect()
}

fn form_of_trans(x: HashMap<String, forms::TransOrbit>) -> KTransformationData {
    x.into_iter()
        .map(|(k, o)| {
            let d = KTransformationOrbitData {
                permutation: o.permutation,
                orientation_delta: o.delta,
            };
            (KPuzzleOrbitName(k), d)
        })
        .collect()
}

fn form_of_def(x: forms::Def) -> Option<KPuzzleDefinition> {
    let mut moves = HashMap::new();
    for (k, t) in x.moves.0 {
        moves.insert(to_lib_move(&parse_move(&k)?), form_of_trans(t));
    }
    let mut derived_moves = None;
    if let Some(d) = x.derived {
        let mut all = HashMap::new();
        for (k, a) in d.0 {
            all.insert(to_lib_move(&parse_move(&k)?), to_lib(&parse(&a)?));
        }
        derived_moves = Some(all)
    }
    Some(KPuzzleDefinition {
        name: x.name,
        orbits: x
            .orbits
            .into_iter()
            .map(|o| KPuzzleOrbitDefinition {
                orbit_name: KPuzzleOrbitName(o.name),
                num_pieces: o.np,
                num_orientations: o.no,
            })
            .collect(),
        default_pattern: form_of_pattern(x.default),
        moves,
        derived_moves,
    })
}

pub fn malformed(ctx: &mut Ctx) {
    ctx.cases("pattern data", 30_000, 500_000, |c| {
        let (def, puzzle) = some_puzzle(c)?;
        let orbits: Vec<(String, u8, u8)> = def.orbits.iter().map(|o| (o.name.clone(), o.np, o.no)).collect();
        let pat = gen_pat(&mut c.rng, &def.orbits);
        let has: Vec<bool> = pat.mods_needed().iter().map(|m| *m || c.rng.chance(1, 3)).collect();
        let mut data = pat.to_data(&def.orbits, &has);
        mutate_pattern_data(&mut c.rng, &def.orbits, &mut data);
        c.distinct(format!("{:?}{:?}", orbits, {
            let mut v: Vec<_> = data.iter().map(|(k, v)| format!("{}{:?}", k, v)).collect();
            v.sort();
            v
        }));
        c.sample(|| json!(format!("{:?}", data)));
        let valid = pattern_data_valid(&orbits, &data);
        let text = serde_json::to_string(&data).map_err(|e| e.to_string())?;
        let made = no_panic("making a pattern", || KPattern::try_from_data(&puzzle, &data))?;
        let from_json = no_panic("KPattern::try_from_json", || {
            KPattern::try_from_json(&puzzle, text.as_bytes())
        })?;
        check!(
            made.is_ok() == valid && from_json.is_ok() == valid,
            "pattern data was {} although it is {}valid: {:?} (orbits {:?})",
            if made.is_ok() { "accepted" } else { "refused" },
            if valid { "" } else { "in" },
            data,
            orbits
        );
        match made {
            Err(e) => {
                check!(
                    matches!(e, ConversionError::InvalidKPatternData(_)),
                    "invalid pattern data is reported as {}",
                    kind(&e)
                );
                check!(!e.to_string().is_empty(), "an error without text");
                c.bucket("refused pattern data");
            }
            Ok(x) => {
                let read = MPat::read(&x, &def.orbits)?;
                for (k, o) in def.orbits.iter().enumerate() {
                    let d = &data[&KPuzzleOrbitName(o.name.clone())];
                    for i in 0..o.np as usize {
                        let e = (
                            d.pieces[i],
                            d.orientation[i],
                            d.orientation_mod.as_ref().map_or(0, |m| m[i]),
                        );
                        check!(
                            read.0[k][i] == e,
                            "{:?} reads back as {:?}",
                            data,
                            read
                        );
                    }
                }
                let t = gen_trans(&mut c.rng, &def.orbits);
                let lib = make_trans(&def, &puzzle, &t)?;
                let y = no_panic("apply_transformation", || x.apply_transformation(&lib))?;
                check!(
                    MPat::read(&y, &def.orbits)? == read.apply(&t, &def.orbits),
                    "an accepted pattern moves wrongly: {:?}",
                    data
                );
                c.bucket("accepted pattern data");
            }
        }
        Ok(())
    });
    ctx.cases("transformation data", 30_000, 500_000, |c| {
        let (def, puzzle) = some_puzzle(c)?;
        let orbits: Vec<(String, u8, u8)> = def.orbits.iter().map(|o| (o.name.clone(), o.np, o.no)).collect();
        let t = gen_trans(&mut c.rng, &def.orbits);
        let mut data = t.to_data(&def.orbits);
        mutate_trans_data(&mut c.rng, &def.orbits, &mut data);
        c.distinct(format!("{:?}{:?}", orbits, {
            let mut v: Vec<_> = data.iter().map(|(k, v)| format!("{}{:?}", k, v)).collect();
            v.sort();
            v
        }));
        c.sample(|| json!(format!("{:?}", data)));
        let valid = trans_data_valid(&orbits, &data);
        let text = serde_json::to_string(&data).map_err(|e| e.to_string())?;
        let made = no_panic("making a transformation", || {
            KTransformation::try_from_data(&puzzle, &data)
        })?;
        let from_json = no_panic("KTransformation::try_from_json", || {
            KTransformation::try_from_json(&puzzle, text.as_bytes())
        })?;
        check!(
            made.is_ok() == valid && from_json.is_ok() == valid,
            "transformation data was {} although it is {}valid: {:?} (orbits {:?})",
            if made.is_ok() { "accepted" } else { "refused" },
            if valid { "" } else { "in" },
            data,
            orbits
        );
        match made {
            Err(e) => {
                check!(
                    matches!(e, ConversionError::InvalidKTransformationData(_)),
                    "invalid transformation data is reported as {}",
                    kind(&e)
                );
                check!(!e.to_string().is_empty(), "an error without text");
                c.bucket("refused transformation data");
            }
            Ok(x) => {
                let id = puzzle.identity_transformation();
                let inv = no_panic("invert", || x.invert())?;
                check!(
                    x.apply_transformation(&inv) == id,
                    "an accepted transformation is not invertible: {:?}",
                    data
                );
                c.bucket("accepted transformation data");
            }
        }
        Ok(())
    });
    ctx.cases("definitions", 25_000, 400_000, |c| {
        let def = gen_def(&mut c.rng, &SMALL_DEF);
        let mut d = def.to_definition();
        for _ in 0..1 + c.rng.below(2) {
            match c.rng.below(9) {
                8 => {
                    // Two orbits of one name.
                    if !d.orbits.is_empty() {
                        let o = c.rng.pick(&d.orbits);
                        let mut o = KPuzzleOrbitDefinition {
                            orbit_name: o.orbit_name.clone(),
                            num_pieces: o.num_pieces,
                            num_orientations: o.num_orientations,
                        };
                        if c.rng.chance(1, 2) {
                            o.num_pieces = o.num_pieces.saturating_sub(c.rng.below(3) as u8);
                        }
                        d.orbits.insert(c.rng.below(d.orbits.len() + 1), o);
                    }
                }
                0 => {
                    if !d.orbits.is_empty() {
                        let i = c.rng.below(d.orbits.len());
                        d.orbits[i].num_pieces = c.rng.u64() as u8
                    }
                }
                1 => {
                    if !d.orbits.is_empty() {
                        let i = c.rng.below(d.orbits.len());
                        d.orbits[i].num_orientations = match c.rng.below(4) {
                            0 => 0,
                            1 => 108,
                            2 => 96,
                            _ => c.rng.u64() as u8,
                        }
                    }
                }
                2 => d.orbits.push(KPuzzleOrbitDefinition {
                    orbit_name: KPuzzleOrbitName("EXTRA".into()),
                    num_pieces: c.rng.below(3) as u8,
                    num_orientations: 2,
                }),
                3 => {
                    d.orbits.pop();
                }
                4 => mutate_pattern_data(&mut c.rng, &def.orbits, &mut d.default_pattern),
                5 | 6 => {
                    let keys: Vec<_> = d.moves.keys().cloned().collect();
                    let mut keys = keys;
                    keys.sort_by_key(|m| m.to_string());
                    if !keys.is_empty() {
                        let k = c.rng.pick(&keys).clone();
                        mutate_trans_data(&mut c.rng, &def.orbits, d.moves.get_mut(&k).unwrap());
                    }
                }
                _ => {
                    let mut keys: Vec<_> = d.moves.keys().cloned().collect();
                    keys.sort_by_key(|m| m.to_string());
                    if !keys.is_empty() {
                        let k = c.rng.pick(&keys).clone();
                        d.moves.remove(&k);
                    }
                }
            }
        }
        let valid = def_valid(&d);
        let text = serde_json::to_string(&d).map_err(|e| e.to_string())?;
        c.distinct(format!("{:?}{:?}", c.idx, def.orbits));
        c.sample(|| json!(clip(&text, 400)));
        c.note(|| text.clone());
        let from_json = no_panic("KPuzzle::try_from_json", || KPuzzle::try_from_json(text.as_bytes()))?;
        let built = no_panic("KPuzzle::try_new", || KPuzzle::try_new(d))?;
        check!(
            built.is_ok() == valid && from_json.is_ok() == valid,
            "a definition was {} although it is {}valid: {}",
            if built.is_ok() { "accepted" } else { "refused" },
            if valid { "" } else { "in" },
            text
        );
        match built {
            Err(e) => {
                check!(!e.to_string().is_empty(), "an error without text");
                c.bucket("refused definitions");
                Ok(())
            }
            Ok(p) => {
                c.bucket("accepted definitions");
                exercise(c, &p)
            }
        }
    });
    ctx.cases("very many moves", 24, 200, |c| {
        let n = *c.rng.pick(&[300usize, 1_100, 3_000]);
        let name = |i: usize| i.to_string().bytes().map(|b| (b - b'0' + b'a') as char).collect::<String>() + "_";
        let at = c.rng.below(n);
        let bad = c.idx % 4;
        let moves: Vec<String> = (0..n)
            .map(|i| {
                let how = if i == at { bad } else { 0 };
                let (p, d) = match how {
                    0 => ("1,0,2", "0,1,0"),
                    1 => ("1,1,2", "0,1,0"),
                    2 => ("1,0,2", "0,2,0"),
                    _ => ("1,0", "0,1,0"),
                };
                format!(r#""{}":{{"A":{{"permutation":[{}],"orientationDelta":[{}]}}}}"#, name(i), p, d)
            })
            .collect();
        let text = format!(
            r#"{{"name":"t","orbits":[{{"orbitName":"A","numPieces":3,"numOrientations":2}}],"defaultPattern":{{"A":{{"pieces":[0,1,2],"orientation":[0,0,0]}}}},"moves":{{{}}}}}"#,
            moves.join(",")
        );
        c.distinct(format!("{} {} {}", n, at, bad));
        c.sample(|| json!({"moves": n, "broken": at, "how": bad}));
        let built = no_panic("KPuzzle::try_from_json", || KPuzzle::try_from_json(text.as_bytes()))?;
        check!(
            built.is_ok() == (bad == 0),
            "a puzzle with {} moves of which {} is invalid was {}",
            n,
            if bad == 0 { "none" } else { "one" },
            if built.is_ok() { "accepted" } else { "refused" }
        );
        c.bucket(if built.is_ok() { "large definitions accepted" } else { "large definitions refused" });
        Ok(())
    });
    ctx.cases("JSON", 30_000, 500_000, |c| {
        let def = gen_def(&mut c.rng, &SMALL_DEF);
        let puzzle = no_panic("constructing a puzzle", || def.build())??;
        let which = c.rng.below(3);
        let text = match which {
            0 => def.to_json(),
            1 => {
                let p = gen_pat(&mut c.rng, &def.orbits);
                let has = p.mods_needed();
                p.to_json(&def.orbits, &has)
            }
            _ => gen_trans(&mut c.rng, &def.orbits).to_json(&def.orbits),
        };
        let bytes: Vec<u8> = if c.rng.chance(1, 6) {
            // As it is, but for what `dress_up` does.
            text.into_bytes()
        } else if c.rng.chance(3, 4) {
            let mut v: Value = serde_json::from_str(&text).unwrap();
            for _ in 0..1 + c.rng.below(3) {
                mutate_json(&mut c.rng, &mut v);
            }
            v.to_string().into_bytes()
        } else {
            let mut b = text.into_bytes();
            for _ in 0..1 + c.rng.below(3) {
                let i = c.rng.below(b.len().max(1));
                match c.rng.below(4) {
                    0 => b.truncate(i),
                    1 if i < b.len() => b[i] = c.rng.u64() as u8,
                    2 if i < b.len() => {
                        b.remove(i);
                    }
                    _ => b.insert(i.min(b.len()), *c.rng.pick(b"{}[],:\"0-9\\ \xff")),
                }
            }
            b
        };
        let bytes = dress_up(&mut c.rng, bytes);
        c.distinct(&bytes);
        c.sample(|| json!(clip(&String::from_utf8_lossy(&bytes), 300)));
        c.note(|| String::from_utf8_lossy(&bytes).into_owned());
        let orbits: Vec<(String, u8, u8)> = def.orbits.iter().map(|o| (o.name.clone(), o.np, o.no)).collect();
        let shown = || clip(&String::from_utf8_lossy(&bytes), 1500);
        macro_rules! judge {
            ($accepted:expr, $valid:expr, $what:expr) => {{
                let (accepted, valid): (bool, bool) = ($accepted, $valid);
                check!(
                    accepted == valid,
                    "the JSON of a {} was {} although it is {}valid: {}",
                    $what,
                    if accepted { "accepted" } else { "refused" },
                    if valid { "" } else { "in" },
                    shown()
                );
                c.bucket(if accepted { "accepted JSON" } else { "refused JSON" });
            }};
        }
        match which {
            0 => {
                let form = serde_json::from_slice::<forms::Def>(&bytes)
                    .ok()
                    .and_then(form_of_def)
                    .filter(def_valid);
                let got = no_panic("KPuzzle::try_from_json", || KPuzzle::try_from_json(&bytes))?;
                judge!(got.is_ok(), form.is_some(), "puzzle");
                match got {
                    Err(e) => check!(!e.to_string().is_empty(), "an error without text"),
                    Ok(p) => {
                        let written = |d: &KPuzzleDefinition| serde_json::to_value(d).map_err(|e| e.to_string());
                        if let Some(form) = form {
                            check!(
                                written(&form)? == written(p.definition())?,
                                "the puzzle {} was read as {}",
                                shown(),
                                written(p.definition())?
                            );
                        }
                        exercise(c, &p)?
                    }
                }
            }
            1 => {
                let form = serde_json::from_slice::<HashMap<String, forms::PatOrbit>>(&bytes)
                    .ok()
                    .map(form_of_pattern)
                    .filter(|d| pattern_data_valid(&orbits, d));
                let got = no_panic("KPattern::try_from_json", || KPattern::try_from_json(&puzzle, &bytes))?;
                judge!(got.is_ok(), form.is_some(), "pattern");
                match got {
                    Err(e) => check!(
                        matches!(e, ConversionError::InvalidKPatternData(_)) && !e.to_string().is_empty(),
                        "invalid pattern JSON is reported as {}: {}",
                        kind(&e),
                        e
                    ),
                    Ok(p) => {
                        no_panic("to_data", || p.to_data())?;
                        if let Some(form) = form {
                            let same = KPattern::try_from_data(&puzzle, &form).is_ok_and(|q| q == p);
                            check!(same, "the pattern {} was read as {:?}", shown(), p.to_data());
                        }
                    }
                }
            }
            _ => {
                let form = serde_json::from_slice::<HashMap<String, forms::TransOrbit>>(&bytes)
                    .ok()
                    .map(form_of_trans)
                    .filter(|d| trans_data_valid(&orbits, d));
                let got = no_panic("KTransformation::try_from_json", || {
                    KTransformation::try_from_json(&puzzle, &bytes)
                })?;
                judge!(got.is_ok(), form.is_some(), "transformation");
                match got {
                    Err(e) => check!(
                        matches!(e, ConversionError::InvalidKTransformationData(_)) && !e.to_string().is_empty(),
                        "invalid transformation JSON is reported as {}: {}",
                        kind(&e),
                        e
                    ),
                    Ok(t) => {
                        let id = puzzle.identity_transformation();
                        check!(
                            t.apply_transformation(&t.invert()) == id,
                            "an accepted transformation is not invertible: {}",
                            shown()
                        );
                        if let Some(form) = form {
                            let same = KTransformation::try_from_data(&puzzle, &form).is_ok_and(|q| q == t);
                            check!(same, "the transformation {} was read as {:?}", shown(), t.to_data());
                        }
                    }
                }
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

/// Definitions survive being written and read, however they are handed over.
pub fn definitions(ctx: &mut Ctx) {
    fn same(c: &mut Case, a: &MDef, b: &MDef) -> R {
        let _ = c;
        check!(a.name == b.name, "the name {:?} came back as {:?}", a.name, b.name);
        check!(a.orbits == b.orbits, "orbits {:?} came back as {:?}", a.orbits, b.orbits);
        check!(
            a.default == b.default,
            "the default pattern {:?} came back as {:?}",
            a.default,
            b.default
        );
        let sorted = |d: &MDef| {
            let mut v: Vec<String> = d.moves.iter().map(|(m, t)| format!("{:?} {:?}", m, t)).collect();
            v.sort();
            v
        };
        check!(
            sorted(a) == sorted(b),
            "moves {:?} came back as {:?}",
            sorted(a),
            sorted(b)
        );
        let sorted = |d: &MDef| {
            d.derived.as_ref().map(|d| {
                let mut v: Vec<String> = d.iter().map(|(m, t)| format!("{:?} {:?}", m, t)).collect();
                v.sort();
                v
            })
        };
        check!(
            sorted(a) == sorted(b),
            "derived moves {:?} came back as {:?}",
            sorted(a),
            sorted(b)
        );
        Ok(())
    }
    ctx.cases("definitions", 10_000, 200_000, |c| {
        let def = if c.idx < 2 {
            shipped(c.idx as usize).0
        } else {
            gen_def(&mut c.rng, &NORMAL)
        };
        let text = def.to_json();
        c.distinct(&text);
        c.sample(|| json!(clip(&text, 300)));
        c.note(|| text.clone());
        let p = no_panic("constructing a puzzle", || def.build())??;
        let d = p.definition();
        check!(
            d.name == def.name && d.orbits.len() == def.orbits.len() && d.moves.len() == def.moves.len(),
            "the definition of a puzzle differs from what it was made from"
        );
        let written = serde_json::to_string(d).map_err(|e| format!("can't be serialized: {}", e))?;
        let read = no_panic("reading the JSON that was written as what it has to be", || def_from_json(&written))
            .map_err(|e| format!("{}: {}", e, written))?;
        same(c, &def, &read)?;
        // The ways to construct a puzzle.
        let parsed: KPuzzleDefinition = serde_json::from_str(&text).map_err(|e| format!("{}: {}", e, text))?;
        let again: KPuzzleDefinition =
            serde_json::from_str(&written).map_err(|e| format!("{}: {}", e, written))?;
        let pretty = serde_json::to_string_pretty(&serde_json::from_str::<Value>(&written).unwrap()).unwrap();
        let err = |e: cubing_core::kpuzzle::InvalidDefinitionError| format!("refused: {}", e);
        let puzzles: Vec<(&str, KPuzzle)> = vec![
            ("try_new", no_panic("try_new", || KPuzzle::try_new(def.to_definition()))?.map_err(err)?),
            ("try_new(Arc)", no_panic("try_new", || KPuzzle::try_new(Arc::new(parsed)))?.map_err(err)?),
            ("TryFrom", no_panic("try_from", || KPuzzle::try_from(again))?.map_err(err)?),
            (
                "written JSON",
                no_panic("try_from_json", || KPuzzle::try_from_json(written.as_bytes()))?.map_err(err)?,
            ),
            (
                "pretty JSON",
                no_panic("try_from_json", || KPuzzle::try_from_json(pretty.as_bytes()))?.map_err(err)?,
            ),
            ("clone", p.clone()),
            ("From<&KPuzzle>", KPuzzle::from(&p)),
        ];
        let alg = gen_puzzle_alg(&mut c.rng, &def, &AlgCfg::normal(), 0);
        let lib = to_lib(&alg);
        let reference = p.default_pattern();
        check!(
            MPat::read(&reference, &def.orbits)? == def.default,
            "the default pattern reads {:?} instead of {:?}",
            MPat::read(&reference, &def.orbits)?,
            def.default
        );
        let after = reference.apply_alg(&lib);
        for (how, q) in &puzzles {
            let start = no_panic("default_pattern", || q.default_pattern())?;
            check!(start == reference, "the default pattern differs when made by {}", how);
            check!(
                q.identity_transformation() == p.identity_transformation(),
                "the identity differs when made by {}",
                how
            );
            let end = start.apply_alg(&lib);
            match (&after, end) {
                (Ok(a), Ok(b)) => check!(
                    *a == b,
                    "{:?} acts differently on the puzzle made by {}",
                    print(&alg),
                    how
                ),
                (Err(_), Err(_)) => {}
                _ => {
                    return Err(format!(
                        "{:?} is valid on only one of two identical puzzles ({})",
                        print(&alg),
                        how
                    ))
                }
            }
            for key in def.keys() {
                let m = to_lib_move(&key);
                let (a, b) = (p.transformation_from_move(&m), q.transformation_from_move(&m));
                check!(
                    matches!((&a, &b), (Ok(a), Ok(b)) if a == b),
                    "{} differs on the puzzle made by {}",
                    print_move(&key),
                    how
                );
                c.bucket("moves compared");
            }
            c.bucket("puzzles compared");
            for (info, o) in q.orbit_info_iter().zip(&def.orbits) {
                check!(
                    info.name.0 == o.name && info.num_pieces == o.np && info.num_orientations == o.no,
                    "orbit {:?} differs on the puzzle made by {}",
                    o.name,
                    how
                );
                let found = q.lookup_orbit(&KPuzzleOrbitName(o.name.clone()));
                check!(
                    found.is_some_and(|f| std::ptr::eq(f, info)),
                    "orbit {:?} can't be looked up",
                    o.name
                );
            }
            check!(
                q.lookup_orbit(&KPuzzleOrbitName("no such orbit".into())).is_none(),
                "an orbit that does not exist was found"
            );
        }
        // `orientationMod`/`derivedMoves`: null, absent and empty mean the same.
        if def.derived.as_ref().is_none_or(|d| d.is_empty()) {
            for v in [None, Some(vec![])] {
                let mut e = def.clone();
                e.derived = v;
                let q = no_panic("constructing a puzzle", || e.build())??;
                check!(
                    q.default_pattern().apply_alg(&lib).ok() == after.as_ref().ok().cloned(),
                    "absent and empty derived moves differ"
                );
            }
            let mut v: Value = serde_json::from_str(&text).unwrap();
            v["derivedMoves"] = Value::Null;
            let q = no_panic("try_from_json", || KPuzzle::try_from_json(v.to_string().as_bytes()))?
                .map_err(|e| format!("null derived moves were refused: {}", e))?;
            check!(
                q.default_pattern().apply_alg(&lib).ok() == after.as_ref().ok().cloned(),
                "null derived moves differ"
            );
            c.bucket("null derived moves");
        }
        let _ = KTransformationOrbitData {
            permutation: vec![],
            orientation_delta: vec![],
        };
        Ok(())
    });
    // Whatever the definition, all ways of making a puzzle of it agree on whether it is one.
    ctx.cases("any definition", 12_000, 200_000, |c| {
        let def = gen_def(&mut c.rng, &SMALL_DEF);
        let mut v: Value = serde_json::from_str(&def.to_json()).unwrap();
        for _ in 0..1 + c.rng.below(2) {
            mutate_json(&mut c.rng, &mut v);
        }
        if c.rng.chance(1, 3) {
            // An orbit that is there twice.
            if let Some(orbits) = v.get_mut("orbits").and_then(Value::as_array_mut).filter(|o| !o.is_empty()) {
                let k = c.rng.below(orbits.len());
                let at = if c.rng.chance(1, 2) { k } else { c.rng.below(orbits.len() + 1) };
                orbits.insert(at, orbits[k].clone());
            }
        }
        let text = v.to_string();
        c.distinct(&text);
        c.sample(|| json!(clip(&text, 300)));
        let made = no_panic("try_from_json", || KPuzzle::try_from_json(text.as_bytes()))?;
        let parse = || serde_json::from_str::<KPuzzleDefinition>(&text);
        let Ok(d) = parse() else {
            check!(made.is_err(), "JSON that is no definition makes a puzzle: {}", text);
            c.bucket("not a definition");
            return Ok(());
        };
        let puzzles = [
            ("try_new", no_panic("try_new", || KPuzzle::try_new(d))?),
            ("try_new(Arc)", no_panic("try_new", || KPuzzle::try_new(Arc::new(parse().unwrap())))?),
            ("TryFrom", no_panic("try_from", || KPuzzle::try_from(parse().unwrap()))?),
        ];
        for (how, q) in &puzzles {
            match (&made, q) {
                (Ok(p), Ok(q)) => {
                    let shape = |p: &KPuzzle| {
                        p.orbit_info_iter()
                            .map(|o| (o.name.0.clone(), o.num_pieces, o.num_orientations))
                            .collect::<Vec<_>>()
                    };
                    check!(shape(p) == shape(q), "the orbits of {} differ when made by {}", text, how);
                    let d = p.definition();
                    for m in d.moves.keys().chain(d.derived_moves.iter().flat_map(|d| d.keys())) {
                        let (a, b) = (p.transformation_from_move(m), q.transformation_from_move(m));
                        check!(
                            matches!((&a, &b), (Ok(a), Ok(b)) if a == b),
                            "{} differs on the puzzle made by {} of {}",
                            m,
                            how,
                            text
                        );
                    }
                }
                (Err(e), Err(f)) => check!(
                    !e.to_string().is_empty() && !f.to_string().is_empty(),
                    "a refusal says nothing: {}",
                    text
                ),
                _ => {
                    return Err(format!(
                        "{} is {} as JSON text and {} by {}",
                        text,
                        if made.is_ok() { "accepted" } else { "refused" },
                        if q.is_ok() { "accepted" } else { "refused" },
                        how
                    ))
                }
            }
        }
        c.bucket(if made.is_ok() { "accepted by all" } else { "refused by all" });
        Ok(())
    });
}

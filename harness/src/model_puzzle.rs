//! An independent model of puzzles: definitions, transformations, patterns, move resolution and alg
//! evaluation, plus generators of random definitions.

use std::collections::BTreeMap;
use std::collections::HashMap;

use cubing_core::kpuzzle::{
    KPattern, KPatternData, KPatternOrbitData, KPuzzle, KPuzzleDefinition, KPuzzleOrbitDefinition,
    KPuzzleOrbitName, KTransformation, KTransformationData, KTransformationOrbitData,
};

use crate::model_alg::*;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MOrbit {
    pub name: String,
    pub np: u8,
    pub no: u8,
}

/// Per orbit, per position: where the piece comes from, and how much it is twisted.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MTrans(pub Vec<Vec<(u8, u8)>>);

/// Per orbit, per position: piece, orientation, orientation mod (0: the default).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MPat(pub Vec<Vec<(u8, u8, u8)>>);

#[derive(Clone, Debug)]
pub struct MDef {
    pub name: String,
    pub orbits: Vec<MOrbit>,
    pub default: MPat,
    /// Whether the default pattern's data has `orientationMod`.
    pub default_has_mod: Vec<bool>,
    pub moves: Vec<(MMove, MTrans)>,
    pub derived: Option<Vec<(MMove, Vec<N>)>>,
}

pub fn sigma(n: u32) -> u32 {
    (1..=n).filter(|d| n % d == 0).sum()
}

/// The numbers of orientations a definition may use: all (orientation, mod) pairs fit in a byte,
/// and the documented maximum is 107.
pub fn valid_num_orientations(n: u32) -> bool {
    n >= 1 && n <= 107 && n + sigma(n) <= 255
}

impl MTrans {
    pub fn identity(orbits: &[MOrbit]) -> MTrans {
        MTrans(
            orbits
                .iter()
                .map(|o| (0..o.np).map(|i| (i, 0)).collect())
                .collect(),
        )
    }

    pub fn is_identity(&self) -> bool {
        self.0
            .iter()
            .all(|o| o.iter().enumerate().all(|(i, e)| *e == (i as u8, 0)))
    }

    /// First `self`, then `next`.
    pub fn then(&self, next: &MTrans, orbits: &[MOrbit]) -> MTrans {
        MTrans(
            orbits
                .iter()
                .enumerate()
                .map(|(k, o)| {
                    (0..o.np as usize)
                        .map(|i| {
                            let (from, d2) = next.0[k][i];
                            let (origin, d1) = self.0[k][from as usize];
                            (origin, ((d1 as u32 + d2 as u32) % o.no as u32) as u8)
                        })
                        .collect()
                })
                .collect(),
        )
    }

    pub fn inverse(&self, orbits: &[MOrbit]) -> MTrans {
        MTrans(
            orbits
                .iter()
                .enumerate()
                .map(|(k, o)| {
                    let mut out = vec![(0u8, 0u8); o.np as usize];
                    for (i, (from, d)) in self.0[k].iter().enumerate() {
                        out[*from as usize] =
                            (i as u8, ((o.no as u32 - *d as u32) % o.no as u32) as u8);
                    }
                    out
                })
                .collect(),
        )
    }

    /// By following the cycles, not by repeated multiplication.
    pub fn power(&self, n: i64, orbits: &[MOrbit]) -> MTrans {
        let base;
        let t = if n < 0 {
            base = self.inverse(orbits);
            &base
        } else {
            self
        };
        let n = n.unsigned_abs();
        MTrans(
            orbits
                .iter()
                .enumerate()
                .map(|(k, o)| {
                    let e = &t.0[k];
                    (0..o.np as usize)
                        .map(|i| {
                            // The cycle of i.
                            let mut len = 0u64;
                            let mut total = 0u64;
                            let mut j = i;
                            loop {
                                len += 1;
                                total += e[j].1 as u64;
                                j = e[j].0 as usize;
                                if j == i {
                                    break;
                                }
                            }
                            let rounds = n / len;
                            let mut delta =
                                (rounds % o.no as u64) * (total % o.no as u64) % o.no as u64;
                            let mut j = i;
                            for _ in 0..(n % len) {
                                delta += e[j].1 as u64;
                                j = e[j].0 as usize;
                            }
                            (j as u8, (delta % o.no as u64) as u8)
                        })
                        .collect()
                })
                .collect(),
        )
    }

    pub fn order(&self, orbits: &[MOrbit]) -> u64 {
        // Capped: only used to count what was covered.
        let mut t = self.clone();
        let mut n = 1;
        while !t.is_identity() && n < 1000 {
            t = t.then(self, orbits);
            n += 1;
        }
        n
    }

    /// The order, whatever its size (`u128::MAX` for what is beyond).
    pub fn exact_order(&self, orbits: &[MOrbit]) -> u128 {
        fn gcd(a: u128, b: u128) -> u128 {
            if b == 0 {
                a
            } else {
                gcd(b, a % b)
            }
        }
        let mut order = 1u128;
        for (k, o) in orbits.iter().enumerate() {
            let e = &self.0[k];
            for i in 0..e.len() {
                let (mut len, mut total, mut j) = (1u128, e[i].1 as u128, e[i].0 as usize);
                while j != i {
                    len += 1;
                    total += e[j].1 as u128;
                    j = e[j].0 as usize;
                }
                let no = (o.no as u128).max(1);
                len *= no / gcd(no, total % no);
                order = match (order / gcd(order, len)).checked_mul(len) {
                    Some(n) => n,
                    None => return u128::MAX,
                };
            }
        }
        order
    }

    pub fn to_data(&self, orbits: &[MOrbit]) -> KTransformationData {
        let mut data: KTransformationData = HashMap::new();
        for (k, o) in orbits.iter().enumerate() {
            data.insert(
                KPuzzleOrbitName(o.name.clone()),
                KTransformationOrbitData {
                    permutation: self.0[k].iter().map(|e| e.0).collect(),
                    orientation_delta: self.0[k].iter().map(|e| e.1).collect(),
                },
            );
        }
        data
    }

    pub fn to_json(&self, orbits: &[MOrbit]) -> String {
        let parts: Vec<String> = orbits
            .iter()
            .enumerate()
            .map(|(k, o)| {
                format!(
                    "{}: {{\"permutation\": {:?}, \"orientationDelta\": {:?}}}",
                    json_str(&o.name),
                    self.0[k].iter().map(|e| e.0).collect::<Vec<u8>>(),
                    self.0[k].iter().map(|e| e.1).collect::<Vec<u8>>()
                )
            })
            .collect();
        format!("{{{}}}", parts.join(", "))
    }

    /// Read back through the library's accessors. `Err` if the shape is wrong.
    pub fn read(t: &KTransformation, orbits: &[MOrbit]) -> Result<MTrans, String> {
        let mut out = vec![];
        let mut n = 0;
        for (info, o) in t.kpuzzle().orbit_info_iter().zip(orbits) {
            n += 1;
            if info.num_pieces != o.np || info.num_orientations != o.no || info.name.0 != o.name {
                return Err(format!(
                    "orbit {} is reported as {} with {} pieces and {} orientations",
                    o.name, info.name, info.num_pieces, info.num_orientations
                ));
            }
            out.push(
                (0..o.np)
                    .map(|i| {
                        (
                            t.get_permutation_idx(info, i),
                            t.get_orientation_delta(info, i),
                        )
                    })
                    .collect(),
            );
        }
        if n != orbits.len() {
            return Err("wrong number of orbits".to_owned());
        }
        Ok(MTrans(out))
    }
}

impl MPat {
    pub fn apply(&self, t: &MTrans, orbits: &[MOrbit]) -> MPat {
        MPat(
            orbits
                .iter()
                .enumerate()
                .map(|(k, o)| {
                    (0..o.np as usize)
                        .map(|i| {
                            let (from, d) = t.0[k][i];
                            let (piece, ori, omod) = self.0[k][from as usize];
                            let m = if omod == 0 { o.no } else { omod };
                            (piece, ((ori as u32 + d as u32) % m as u32) as u8, omod)
                        })
                        .collect()
                })
                .collect(),
        )
    }

    pub fn to_data(&self, orbits: &[MOrbit], has_mod: &[bool]) -> KPatternData {
        let mut data: KPatternData = HashMap::new();
        for (k, o) in orbits.iter().enumerate() {
            data.insert(
                KPuzzleOrbitName(o.name.clone()),
                KPatternOrbitData {
                    pieces: self.0[k].iter().map(|e| e.0).collect(),
                    orientation: self.0[k].iter().map(|e| e.1).collect(),
                    orientation_mod: has_mod[k].then(|| self.0[k].iter().map(|e| e.2).collect()),
                },
            );
        }
        data
    }

    pub fn to_json(&self, orbits: &[MOrbit], has_mod: &[bool]) -> String {
        let parts: Vec<String> = orbits
            .iter()
            .enumerate()
            .map(|(k, o)| {
                let m = if has_mod[k] {
                    format!(
                        ", \"orientationMod\": {:?}",
                        self.0[k].iter().map(|e| e.2).collect::<Vec<u8>>()
                    )
                } else {
                    String::new()
                };
                format!(
                    "{}: {{\"pieces\": {:?}, \"orientation\": {:?}{}}}",
                    json_str(&o.name),
                    self.0[k].iter().map(|e| e.0).collect::<Vec<u8>>(),
                    self.0[k].iter().map(|e| e.1).collect::<Vec<u8>>(),
                    m
                )
            })
            .collect();
        format!("{{{}}}", parts.join(", "))
    }

    pub fn read(p: &KPattern, orbits: &[MOrbit]) -> Result<MPat, String> {
        let mut out = vec![];
        let mut n = 0;
        for (info, o) in p.kpuzzle().orbit_info_iter().zip(orbits) {
            n += 1;
            if info.num_pieces != o.np || info.num_orientations != o.no || info.name.0 != o.name {
                return Err(format!("orbit {} is reported differently", o.name));
            }
            out.push(
                (0..o.np)
                    .map(|i| {
                        let om = p.get_orientation_with_mod(info, i);
                        (p.get_piece(info, i), om.orientation, om.orientation_mod)
                    })
                    .collect(),
            );
        }
        if n != orbits.len() {
            return Err("wrong number of orbits".to_owned());
        }
        Ok(MPat(out))
    }

    /// Whether the orbits' data may leave `orientationMod` out.
    pub fn mods_needed(&self) -> Vec<bool> {
        self.0
            .iter()
            .map(|o| o.iter().any(|e| e.2 != 0))
            .collect()
    }
}

pub fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

// ---------------------------------------------------------------------------------------------
// Resolution and evaluation.

pub enum Found<'a> {
    Direct(&'a MTrans),
    Derived(usize, &'a [N]),
}

impl MDef {
    fn direct(&self, m: &MMove) -> Option<&MTrans> {
        self.moves.iter().find(|(k, _)| k == m).map(|(_, t)| t)
    }

    fn derived_alg(&self, m: &MMove) -> Option<(usize, &[N])> {
        let d = self.derived.as_ref()?;
        d.iter()
            .position(|(k, _)| k == m)
            .map(|i| (i, d[i].1.as_slice()))
    }

    fn at(&self, m: &MMove) -> Option<Found<'_>> {
        match self.direct(m) {
            Some(t) => Some(Found::Direct(t)),
            None => self.derived_alg(m).map(|(i, a)| Found::Derived(i, a)),
        }
    }

    /// The unit move raised to the amount; else the move itself; else the inverse of its inverse.
    pub fn resolve(&self, m: &MMove) -> Option<(Found<'_>, i64, &'static str)> {
        if let Some(f) = self.at(&m.with_amt(1)) {
            return Some((f, m.amt, "unit"));
        }
        if let Some(f) = self.at(m) {
            return Some((f, 1, "exact"));
        }
        if let Some(f) = self.at(&m.inverted()) {
            return Some((f, -1, "inverse"));
        }
        None
    }

    /// `Err`: the move (in the alg as given) that can't be resolved.
    pub fn eval_move(&self, m: &MMove) -> Result<MTrans, MMove> {
        let (found, rel, _) = self.resolve(m).ok_or_else(|| m.clone())?;
        let t = match found {
            Found::Direct(t) => t.clone(),
            Found::Derived(_, alg) => self.eval(alg)?,
        };
        Ok(t.power(rel, &self.orbits))
    }

    pub fn eval(&self, alg: &[N]) -> Result<MTrans, MMove> {
        let mut t = MTrans::identity(&self.orbits);
        for n in alg {
            let next = match n {
                N::Move(m) => self.eval_move(m)?,
                N::Pause | N::Newline | N::Comment(_) => continue,
                N::Group(a, amt) => self.eval(a)?.power(*amt, &self.orbits),
                N::Comm(a, b) => {
                    let a = self.eval(a)?;
                    let b = self.eval(b)?;
                    a.then(&b, &self.orbits)
                        .then(&a.inverse(&self.orbits), &self.orbits)
                        .then(&b.inverse(&self.orbits), &self.orbits)
                }
                N::Conj(a, b) => {
                    let a = self.eval(a)?;
                    let b = self.eval(b)?;
                    a.then(&b, &self.orbits)
                        .then(&a.inverse(&self.orbits), &self.orbits)
                }
            };
            t = t.then(&next, &self.orbits);
        }
        Ok(t)
    }

    /// The moves of an alg (at any depth) that can't be resolved.
    pub fn unresolvable(&self, alg: &[N]) -> Vec<MMove> {
        let mut out = vec![];
        for_each_node(alg, &mut |n| {
            if let N::Move(m) = n {
                if self.resolve(m).is_none() {
                    out.push(m.clone())
                }
            }
        });
        out
    }

    /// Whether the derived moves that can be reached are well-founded and only use existing moves.
    pub fn derived_ok(&self) -> Result<(), &'static str> {
        let Some(derived) = &self.derived else {
            return Ok(());
        };
        // 0: new, 1: in progress, 2: done
        let mut state = vec![0u8; derived.len()];
        for (key, _) in derived {
            self.visit_move(key, &mut state)?;
        }
        Ok(())
    }

    fn visit_move(&self, m: &MMove, state: &mut Vec<u8>) -> Result<(), &'static str> {
        match self.resolve(m) {
            None => Err("unknown move"),
            Some((Found::Direct(_), _, _)) => Ok(()),
            Some((Found::Derived(i, alg), _, _)) => {
                match state[i] {
                    1 => return Err("recursive"),
                    2 => return Ok(()),
                    _ => {}
                }
                state[i] = 1;
                let mut moves = vec![];
                for_each_node(alg, &mut |n| {
                    if let N::Move(m) = n {
                        moves.push(m.clone())
                    }
                });
                for m in &moves {
                    self.visit_move(m, state)?;
                }
                state[i] = 2;
                Ok(())
            }
        }
    }

    /// What an error about the derived moves may name: each unknown move in use, and each move that
    /// leads back to itself.
    pub fn moves_at_fault(&self) -> Vec<String> {
        let derived = self.derived.as_deref().unwrap_or(&[]);
        let mut names = vec![];
        let mut next: Vec<Vec<usize>> = vec![];
        for (_, alg) in derived {
            let mut to = vec![];
            for_each_node(alg, &mut |n| {
                if let N::Move(m) = n {
                    match self.resolve(m) {
                        None => names.push(print_move(m)),
                        Some((Found::Derived(i, _), _, _)) => to.push(i),
                        _ => {}
                    }
                }
            });
            next.push(to);
        }
        for start in 0..derived.len() {
            let mut seen = vec![false; derived.len()];
            let mut open = next[start].clone();
            while let Some(i) = open.pop() {
                if !std::mem::replace(&mut seen[i], true) {
                    open.extend(&next[i]);
                }
            }
            if seen[start] {
                names.push(print_move(&derived[start].0));
            }
        }
        names
    }

    // -----------------------------------------------------------------------------------------

    pub fn to_json(&self) -> String {
        self.to_json_with(&|_| None)
    }

    /// `replace` can put other text in place of a top-level field's value.
    pub fn to_json_with(&self, replace: &dyn Fn(&str) -> Option<String>) -> String {
        let mut fields: Vec<(String, String)> = vec![];
        fields.push(("name".into(), json_str(&self.name)));
        let orbits: Vec<String> = self
            .orbits
            .iter()
            .map(|o| {
                format!(
                    "{{\"orbitName\": {}, \"numPieces\": {}, \"numOrientations\": {}}}",
                    json_str(&o.name),
                    o.np,
                    o.no
                )
            })
            .collect();
        fields.push(("orbits".into(), format!("[{}]", orbits.join(", "))));
        fields.push((
            "defaultPattern".into(),
            self.default.to_json(&self.orbits, &self.default_has_mod),
        ));
        let moves: Vec<String> = self
            .moves
            .iter()
            .map(|(m, t)| format!("{}: {}", json_str(&print_move(m)), t.to_json(&self.orbits)))
            .collect();
        fields.push(("moves".into(), format!("{{{}}}", moves.join(", "))));
        if let Some(d) = &self.derived {
            let d: Vec<String> = d
                .iter()
                .map(|(m, a)| format!("{}: {}", json_str(&print_move(m)), json_str(&print(a))))
                .collect();
            fields.push(("derivedMoves".into(), format!("{{{}}}", d.join(", "))));
        }
        let parts: Vec<String> = fields
            .into_iter()
            .map(|(k, v)| {
                let v = replace(&k).unwrap_or(v);
                format!("\"{}\": {}", k, v)
            })
            .collect();
        format!("{{{}}}", parts.join(",\n "))
    }

    pub fn to_definition(&self) -> KPuzzleDefinition {
        KPuzzleDefinition {
            name: self.name.clone(),
            orbits: self
                .orbits
                .iter()
                .map(|o| KPuzzleOrbitDefinition {
                    orbit_name: KPuzzleOrbitName(o.name.clone()),
                    num_pieces: o.np,
                    num_orientations: o.no,
                })
                .collect(),
            default_pattern: self.default.to_data(&self.orbits, &self.default_has_mod),
            moves: self
                .moves
                .iter()
                .map(|(m, t)| (to_lib_move(m), t.to_data(&self.orbits)))
                .collect(),
            derived_moves: self.derived.as_ref().map(|d| {
                d.iter()
                    .map(|(m, a)| (to_lib_move(m), to_lib(a)))
                    .collect()
            }),
        }
    }

    pub fn build(&self) -> Result<KPuzzle, String> {
        KPuzzle::try_from_json(self.to_json().as_bytes())
            .map_err(|e| format!("a valid definition was rejected: {}\n{}", e, self.to_json()))
    }

    /// All moves that resolve by name, for generating algs.
    pub fn keys(&self) -> Vec<MMove> {
        let mut v: Vec<MMove> = self.moves.iter().map(|m| m.0.clone()).collect();
        if let Some(d) = &self.derived {
            v.extend(d.iter().map(|m| m.0.clone()));
        }
        v
    }
}

// ---------------------------------------------------------------------------------------------
// Generators.

#[derive(Clone)]
pub struct DefCfg {
    pub max_orbits: usize,
    pub max_pieces: u8,
    pub max_moves: usize,
    pub max_derived: usize,
    pub big: bool,
    /// Only moves whose amount is 1, with plain families (no resolution subtleties).
    pub plain_keys: bool,
}

pub const NORMAL: DefCfg = DefCfg {
    max_orbits: 4,
    max_pieces: 14,
    max_moves: 5,
    max_derived: 4,
    big: false,
    plain_keys: false,
};

pub fn gen_num_orientations(rng: &mut Rng) -> u8 {
    // The tables of large counts take Miri seconds.
    if cfg!(miri) && !rng.chance(1, 16) {
        return *rng.pick(&[1, 2, 3, 4, 5, 6, 8, 12]);
    }
    loop {
        let n = match rng.below(8) {
            0 => 1,
            1 => 2,
            2 => 3,
            3 => 4,
            4 => *rng.pick(&[5, 6, 8, 12, 24, 36, 60]),
            5 => *rng.pick(&[64, 107, 103, 100, 95, 81, 48]),
            _ => rng.range(1, 107),
        };
        if valid_num_orientations(n as u32) {
            return n as u8;
        }
    }
}

pub fn gen_orbits(rng: &mut Rng, cfg: &DefCfg) -> Vec<MOrbit> {
    let n = if cfg.big {
        1 + rng.below(cfg.max_orbits)
    } else {
        match rng.below(20) {
            0 => 0,
            _ => 1 + rng.below(cfg.max_orbits),
        }
    };
    let names = [
        "EDGES", "CORNERS", "CENTERS", "C", "edges", "", "Ω", "a b", "CORNERS2", "EDGE", "\"", "0",
    ];
    let mut order: Vec<usize> = (0..names.len()).collect();
    rng.shuffle(&mut order);
    let style = if n > 5 { rng.below(5) } else { 0 };
    (0..n)
        .map(|k| {
            let name = match (style, order.get(k)) {
                (1, _) => format!("O{:03}", k),
                (2, _) => format!("{}", 1000 - k),
                (3, _) => "X".repeat(k + 1),
                (_, Some(i)) => names[*i].to_owned(),
                (_, None) => format!("ORBIT{}", k),
            };
            let np = if cfg.big && rng.chance(1, 2) {
                *rng.pick(&[255u8, 254, 128, 127, 129, 200])
            } else {
                match rng.below(12) {
                    0 => 0,
                    1 => 1,
                    2 => 2,
                    3 => 3,
                    _ => rng.range(1, cfg.max_pieces as i64) as u8,
                }
            };
            MOrbit {
                name,
                np,
                no: gen_num_orientations(rng),
            }
        })
        .collect()
}

pub fn gen_trans(rng: &mut Rng, orbits: &[MOrbit]) -> MTrans {
    MTrans(
        orbits
            .iter()
            .map(|o| {
                let n = o.np as usize;
                let mut perm: Vec<u8> = (0..o.np).collect();
                match rng.below(7) {
                    0 => {}
                    6 => {
                        // Cycles of many lengths, for a long order.
                        let mut idx: Vec<usize> = (0..n).collect();
                        if rng.chance(1, 2) {
                            rng.shuffle(&mut idx);
                        }
                        let mut lens = [2, 3, 4, 5, 7, 8, 9, 11, 13, 16, 17, 19, 23, 25, 27, 29, 31, 37, 41, 43, 47, 53];
                        if rng.chance(1, 2) {
                            rng.shuffle(&mut lens);
                        }
                        let mut at = 0;
                        for len in lens {
                            let part = &idx[at..n.min(at + len)];
                            for (w, from) in part.iter().enumerate() {
                                perm[*from] = part[(w + 1) % part.len()] as u8;
                            }
                            at += part.len();
                        }
                    }
                    1 => {
                        if n > 1 {
                            // One short cycle.
                            let len = 2 + rng.below(n.min(5) - 1);
                            let mut idx: Vec<usize> = (0..n).collect();
                            rng.shuffle(&mut idx);
                            let first = perm[idx[0]];
                            for w in 0..len - 1 {
                                perm[idx[w]] = perm[idx[w + 1]];
                            }
                            perm[idx[len - 1]] = first;
                        }
                    }
                    2 => {
                        // One long cycle.
                        perm.rotate_left(usize::from(n > 0));
                    }
                    _ => rng.shuffle(&mut perm),
                }
                let style = rng.below(4);
                perm.into_iter()
                    .map(|p| {
                        let d = match style {
                            0 => 0,
                            1 => o.no - 1,
                            _ => rng.below(o.no as usize) as u8,
                        };
                        (p, d)
                    })
                    .collect()
            })
            .collect(),
    )
}

pub fn factors(n: u8) -> Vec<u8> {
    (1..=n).filter(|d| n % d == 0).collect()
}

pub fn gen_pat(rng: &mut Rng, orbits: &[MOrbit]) -> MPat {
    MPat(
        orbits
            .iter()
            .map(|o| {
                let style = rng.below(4);
                let use_mod = rng.chance(1, 2);
                let fs = factors(o.no);
                (0..o.np)
                    .map(|i| {
                        let piece = match style {
                            0 => i,
                            1 => rng.below(3) as u8,
                            2 => rng.below(o.np as usize) as u8,
                            _ => {
                                if rng.chance(1, 6) {
                                    // Pieces are labels; they need not be below the count.
                                    rng.u64() as u8
                                } else {
                                    rng.below(o.np as usize) as u8
                                }
                            }
                        };
                        let omod = if use_mod && rng.chance(2, 3) {
                            *rng.pick(&fs)
                        } else {
                            0
                        };
                        let m = if omod == 0 { o.no } else { omod };
                        (piece, rng.below(m as usize) as u8, omod)
                    })
                    .collect()
            })
            .collect(),
    )
}

pub const KEY_FAMILIES: &[&str] = &[
    "R", "U", "F", "L", "x", "y", "r", "Rw", "BLR", "UFR", "ALL", "_SLASH_", "U_SQ_", "D_SQ_",
    "R_PLUS_", "D_PLUSPLUS_", "a_b", "_",
];

pub fn gen_key(rng: &mut Rng, plain: bool) -> MMove {
    let fam = if plain {
        KEY_FAMILIES[rng.below(11)].to_owned()
    } else {
        (*rng.pick(KEY_FAMILIES)).to_owned()
    };
    let pre = match rng.below(8) {
        0 => Pre::Layer(rng.range(1, 3) as u32),
        1 => Pre::Range(rng.range(1, 2) as u32, rng.range(2, 3) as u32),
        _ => Pre::None,
    };
    let amt = if plain {
        1
    } else {
        match rng.below(10) {
            0 => 2,
            1 => -1,
            2 => *rng.pick(&[-2, 3, 4, -3, 0, 5]),
            _ => 1,
        }
    };
    let mut m = MMove { pre, fam, amt };
    if m.is_plain_slash() {
        m.amt = 1;
    }
    m
}

pub fn gen_def(rng: &mut Rng, cfg: &DefCfg) -> MDef {
    let orbits = gen_orbits(rng, cfg);
    let default = gen_pat(rng, &orbits);
    let mut default_has_mod = default.mods_needed();
    for h in default_has_mod.iter_mut() {
        if !*h {
            *h = rng.chance(1, 3)
        }
    }
    let mut def = MDef {
        name: (*rng.pick(&["3x3x3", "custom", "", "Ω \"q\"", "p"])).to_owned(),
        orbits,
        default,
        default_has_mod,
        moves: vec![],
        derived: None,
    };
    let n_moves = rng.below(cfg.max_moves + 1);
    for _ in 0..n_moves {
        let key = gen_key(rng, cfg.plain_keys);
        if !def.moves.iter().any(|(m, _)| *m == key) {
            let t = gen_trans(rng, &def.orbits);
            def.moves.push((key, t));
        }
    }
    if rng.chance(3, 4) {
        def.derived = Some(vec![]);
        let n = rng.below(cfg.max_derived + 1);
        for _ in 0..n {
            let key = gen_key(rng, cfg.plain_keys);
            if def.derived.as_ref().unwrap().iter().any(|(m, _)| *m == key) {
                continue;
            }
            let alg = gen_puzzle_alg(rng, &def, &AlgCfg::derived(), 0);
            def.derived.as_mut().unwrap().push((key, alg));
            if def.derived_ok().is_err() {
                // The new key changed how an earlier alg resolves.
                def.derived.as_mut().unwrap().pop();
            }
        }
    }
    def
}

pub struct AlgCfg {
    pub max_len: usize,
    pub max_depth: usize,
    /// One in so many moves is taken at random (and probably does not exist).
    pub unknown: Option<usize>,
    pub big_amounts: bool,
}

impl AlgCfg {
    pub fn derived() -> AlgCfg {
        AlgCfg {
            max_len: 4,
            max_depth: 2,
            unknown: None,
            big_amounts: false,
        }
    }
    pub fn normal() -> AlgCfg {
        AlgCfg {
            max_len: 8,
            max_depth: 3,
            unknown: None,
            big_amounts: true,
        }
    }
}

fn gen_eval_amount(rng: &mut Rng, big: bool) -> i64 {
    if big {
        gen_amount(rng)
    } else {
        match rng.below(8) {
            0..=3 => 1,
            4 => -1,
            5 => 2,
            6 => 0,
            _ => rng.range(-5, 5),
        }
    }
}

/// A move that the definition can resolve, or `None` if it has no moves.
pub fn gen_known_move(rng: &mut Rng, def: &MDef, big: bool) -> Option<MMove> {
    let keys = def.keys();
    if keys.is_empty() {
        return None;
    }
    for _ in 0..8 {
        let key = rng.pick(&keys);
        let amt = match rng.below(4) {
            0 => key.amt,
            1 => -key.amt,
            _ => gen_eval_amount(rng, big),
        };
        let m = key.with_amt(amt);
        if def.resolve(&m).is_some() {
            return Some(m);
        }
    }
    Some(rng.pick(&keys).clone())
}

/// The tree that the text of some alg denotes.
pub fn gen_puzzle_alg(rng: &mut Rng, def: &MDef, cfg: &AlgCfg, depth: usize) -> Vec<N> {
    stable(&gen_raw_puzzle_alg(rng, def, cfg, depth))
}

/// Any tree that can be built, also those that no text denotes (a move right after a comment, …).
pub fn gen_raw_puzzle_alg(rng: &mut Rng, def: &MDef, cfg: &AlgCfg, depth: usize) -> Vec<N> {
    let n = if depth == 0 {
        rng.below(cfg.max_len + 1)
    } else {
        rng.below((cfg.max_len / (depth + 1)).clamp(2, 8) + 1)
    };
    let mut out = vec![];
    for _ in 0..n {
        let kind = if depth >= cfg.max_depth {
            rng.weighted(&[20, 1, 1, 1])
        } else {
            rng.weighted(&[20, 1, 1, 1, 4, 4, 4, 1])
        };
        let node = match kind {
            0 => {
                if cfg.unknown.is_some_and(|u| rng.chance(1, u)) {
                    N::Move(gen_move(rng))
                } else {
                    match gen_known_move(rng, def, cfg.big_amounts) {
                        Some(m) => N::Move(m),
                        None => N::Pause,
                    }
                }
            }
            1 => N::Pause,
            2 => N::Newline,
            3 => N::Comment(gen_comment(rng)),
            4 => N::Group(
                gen_raw_puzzle_alg(rng, def, cfg, depth + 1),
                gen_eval_amount(rng, cfg.big_amounts),
            ),
            5 | 6 => {
                let a = gen_raw_puzzle_alg(rng, def, cfg, depth + 1);
                let b = match rng.below(10) {
                    0 => a.clone(),
                    1 => invert(&a),
                    _ => gen_raw_puzzle_alg(rng, def, cfg, depth + 1),
                };
                if kind == 5 {
                    N::Comm(a, b)
                } else {
                    N::Conj(a, b)
                }
            }
            _ => {
                let (a, b) = (mv(USQ, rng.range(-6, 6)), mv(DSQ, rng.range(-6, 6)));
                if def.resolve(&a).is_some() && def.resolve(&b).is_some() {
                    N::Group(vec![N::Move(a), N::Move(b)], 1)
                } else {
                    N::Pause
                }
            }
        };
        // What one undoes next to it still has to be known.
        let undo = rng.chance(1, 12);
        out.push(node);
        if undo {
            let last = out.len() - 1;
            out.extend(invert(&out[last..]));
        }
    }
    out
}

/// An alg with a great many units at one level, or nested deeply.
pub fn gen_long_puzzle_alg(rng: &mut Rng, def: &MDef) -> Vec<N> {
    let cfg = AlgCfg {
        max_len: 3,
        max_depth: 2,
        unknown: None,
        big_amounts: true,
    };
    let mut pool: Vec<N> = vec![N::Pause];
    for _ in 0..3 {
        pool.extend(gen_puzzle_alg(rng, def, &cfg, 0));
        pool.extend(gen_known_move(rng, def, false).map(N::Move));
    }
    let size = match rng.below(4) {
        0 => rng.range(253, 260),
        1 => rng.range(1_000, 5_000),
        2 => rng.range(32_766, 32_770),
        _ => rng.range(65_533, 65_540),
    };
    let mut alg: Vec<N> = if rng.chance(3, 4) {
        (0..size).map(|_| rng.pick(&pool).clone()).collect()
    } else {
        let mut alg = vec![rng.pick(&pool).clone()];
        for _ in 0..*rng.pick(&[31, 63, 64, 65, 100, 127, 128, 129]) {
            let other = vec![rng.pick(&pool).clone()];
            alg = vec![match rng.below(5) {
                0 => N::Group(alg, gen_eval_amount(rng, true)),
                1 => N::Comm(alg, other),
                2 => N::Comm(other, alg),
                3 => N::Conj(alg, other),
                _ => N::Conj(other, alg),
            }];
        }
        alg
    };
    let other = vec![rng.pick(&pool).clone(), rng.pick(&pool).clone()];
    alg = match rng.below(8) {
        0 => vec![N::Group(alg, gen_eval_amount(rng, true))],
        1 => vec![N::Comm(alg, other)],
        2 => vec![N::Comm(other, alg)],
        3 => vec![N::Conj(alg, other)],
        4 => vec![N::Conj(other, alg)],
        _ => alg,
    };
    stable(&alg)
}

/// Which ways of resolving a move the alg exercises.
pub fn resolution_kinds(def: &MDef, alg: &[N]) -> BTreeMap<String, u64> {
    let mut out = BTreeMap::new();
    for_each_node(alg, &mut |n| {
        if let N::Move(m) = n {
            let k = match def.resolve(m) {
                None => "move:unknown".to_owned(),
                Some((f, _, how)) => format!(
                    "move:{}:{}",
                    how,
                    match f {
                        Found::Direct(_) => "direct",
                        Found::Derived(..) => "derived",
                    }
                ),
            };
            *out.entry(k).or_insert(0) += 1;
        }
    });
    out
}

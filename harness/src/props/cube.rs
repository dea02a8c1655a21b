//! The shipped cubes against a geometric model: pieces are points with a rotation in space, a turn
//! rotates the pieces in its layers, and positions and orientations are read off the stickers.

use cubing_core::alg::Alg;
use cubing_core::kpuzzle::KPuzzle;
use serde_json::json;

use super::eval::{shipped, show};
use crate::check;
use crate::ctx::{clip, no_panic, Case, Ctx, R};
use crate::model_alg::*;
use crate::model_puzzle::*;
use crate::rng::Rng;

type V = [i32; 3];
type M = [[i32; 3]; 3];

const ID: M = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];

// x to the right, y up, z towards the viewer.
fn face(c: char) -> V {
    match c {
        'R' => [1, 0, 0],
        'L' => [-1, 0, 0],
        'U' => [0, 1, 0],
        'D' => [0, -1, 0],
        'F' => [0, 0, 1],
        'B' => [0, 0, -1],
        _ => panic!("no such face"),
    }
}

fn dot(a: V, b: V) -> i32 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}

fn cross(a: V, b: V) -> V {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}

fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}

fn mul_v(m: &M, v: V) -> V {
    [dot(m[0], v), dot(m[1], v), dot(m[2], v)]
}

fn mul_m(a: &M, b: &M) -> M {
    let mut out = [[0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            out[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    out
}

/// A quarter turn that looks clockwise when looking at the face with normal `n` from outside.
fn turn_cw(n: V, v: V) -> V {
    // v = (v·n)n + perpendicular; clockwise: perpendicular ↦ perpendicular × n.
    let along = dot(v, n);
    let c = cross(v, n);
    [
        c[0] + along * n[0],
        c[1] + along * n[1],
        c[2] + along * n[2],
    ]
}

fn rotation(n: V, quarter_turns: i64) -> M {
    let mut m = ID;
    for _ in 0..quarter_turns.rem_euclid(4) {
        let mut cols = [[0; 3]; 3];
        for j in 0..3 {
            let col = turn_cw(n, [m[0][j], m[1][j], m[2][j]]);
            for i in 0..3 {
                cols[i][j] = col[i];
            }
        }
        m = cols;
    }
    m
}

struct Position {
    loc: V,
    /// Where the sticker that carries the orientation can be, in order of orientation.
    slots: Vec<V>,
}

const EDGES: &[&str] = &[
    "UF", "UR", "UB", "UL", "DF", "DR", "DB", "DL", "FR", "FL", "BR", "BL",
];
const CORNERS: &[&str] = &["UFR", "UBR", "UBL", "UFL", "DFR", "DFL", "DBL", "DBR"];
/// A face, and where the mark on its center points.
const CENTERS: &[&str] = &["UB", "LU", "FU", "RU", "BU", "DF"];

fn positions(orbit: &str) -> Vec<Position> {
    let names = match orbit {
        "EDGES" => EDGES,
        "CORNERS" => CORNERS,
        "CENTERS" => CENTERS,
        _ => panic!("no such orbit"),
    };
    names
        .iter()
        .map(|name| {
            let faces: Vec<V> = name.chars().map(face).collect();
            match orbit {
                "EDGES" => Position {
                    loc: add(faces[0], faces[1]),
                    slots: faces,
                },
                "CORNERS" => {
                    // Clockwise from the U or D sticker, seen from outside.
                    let loc = add(add(faces[0], faces[1]), faces[2]);
                    let second = if cross(faces[0], faces[1])
                        .iter()
                        .zip(faces[2].iter())
                        .map(|(a, b)| a * b)
                        .sum::<i32>()
                        > 0
                    {
                        // Right-handed: counterclockwise as listed.
                        [faces[0], faces[2], faces[1]]
                    } else {
                        [faces[0], faces[1], faces[2]]
                    };
                    Position {
                        loc,
                        slots: second.to_vec(),
                    }
                }
                _ => {
                    let n = faces[0];
                    let mut slots = vec![faces[1]];
                    for k in 0..3 {
                        slots.push(turn_cw(n, slots[k]));
                    }
                    Position { loc: n, slots }
                }
            }
        })
        .collect()
}

/// One turn: the axis (clockwise as seen from that face) and the layers (by distance along it).
fn layers(m: &MMove) -> Option<(V, Vec<i32>)> {
    let all = vec![-1, 0, 1];
    let fam = m.fam.as_str();
    let turn = match (m.pre, fam) {
        (Pre::None, "x") => (face('R'), all),
        (Pre::None, "y") => (face('U'), all),
        (Pre::None, "z") => (face('F'), all),
        (Pre::None, "M") => (face('L'), vec![0]),
        (Pre::None, "E") => (face('D'), vec![0]),
        (Pre::None, "S") => (face('F'), vec![0]),
        (Pre::None, _) => {
            let mut chars = fam.chars();
            let c = chars.next()?;
            let rest: String = chars.collect();
            if !"ULFRBD".contains(c.to_ascii_uppercase()) {
                return None;
            }
            match (c.is_uppercase(), rest.as_str()) {
                (true, "") => (face(c), vec![1]),
                (true, "w") => (face(c), vec![0, 1]),
                (true, "v") => (face(c), all),
                (false, "") => (face(c.to_ascii_uppercase()), vec![0, 1]),
                _ => return None,
            }
        }
        (Pre::Layer(2), _) if fam.len() == 1 && "ULFRBD".contains(fam) => {
            (face(fam.chars().next()?), vec![0])
        }
        _ => return None,
    };
    Some(turn)
}

/// The cube: for each orbit, each piece's rotation.
struct Cube {
    orbits: Vec<Vec<Position>>,
    state: Vec<Vec<M>>,
    turns: u64,
}

impl Cube {
    fn new(def: &MDef) -> Cube {
        let orbits: Vec<Vec<Position>> = def.orbits.iter().map(|o| positions(&o.name)).collect();
        let state = orbits.iter().map(|o| vec![ID; o.len()]).collect();
        Cube {
            orbits,
            state,
            turns: 0,
        }
    }

    fn turn(&mut self, m: &MMove, inverse: bool) {
        let (axis, which) = layers(m).expect("a move of the cube");
        let q = (if inverse { -m.amt } else { m.amt }).rem_euclid(4);
        let rot = rotation(axis, q);
        self.turns += 1;
        for (k, o) in self.orbits.iter().enumerate() {
            for (p, pos) in o.iter().enumerate() {
                let at = mul_v(&self.state[k][p], pos.loc);
                if which.contains(&dot(at, axis)) {
                    self.state[k][p] = mul_m(&rot, &self.state[k][p]);
                }
            }
        }
    }

    /// Turn by turn, spelling out every repetition.
    fn run(&mut self, alg: &[N], inverse: bool) {
        let nodes: Vec<&N> = if inverse {
            alg.iter().rev().collect()
        } else {
            alg.iter().collect()
        };
        for n in nodes {
            match n {
                N::Move(m) => self.turn(m, inverse),
                N::Group(a, amt) => {
                    let inverse = inverse != (*amt < 0);
                    for _ in 0..amt.unsigned_abs() {
                        self.run(a, inverse)
                    }
                }
                N::Comm(a, b) => {
                    let (a, b) = if inverse { (b, a) } else { (a, b) };
                    self.run(a, false);
                    self.run(b, false);
                    self.run(a, true);
                    self.run(b, true);
                }
                N::Conj(a, b) => {
                    self.run(a, false);
                    self.run(b, inverse);
                    self.run(a, true);
                }
                N::Pause | N::Newline | N::Comment(_) => {}
            }
        }
    }

    /// Per orbit and position: the piece there and its orientation.
    fn read(&self) -> MTrans {
        MTrans(
            self.orbits
                .iter()
                .enumerate()
                .map(|(k, o)| {
                    o.iter()
                        .map(|pos| {
                            let p = (0..o.len())
                                .find(|p| mul_v(&self.state[k][*p], o[*p].loc) == pos.loc)
                                .expect("a piece in every position");
                            let sticker = mul_v(&self.state[k][p], o[p].slots[0]);
                            let ori = pos
                                .slots
                                .iter()
                                .position(|s| *s == sticker)
                                .expect("a sticker in a slot");
                            (p as u8, ori as u8)
                        })
                        .collect()
                })
                .collect(),
        )
    }
}

fn compare(c: &mut Case, def: &MDef, puzzle: &KPuzzle, alg: &[N]) -> R {
    let text = print(alg);
    c.note(|| text.clone());
    let mut cube = Cube::new(def);
    cube.run(alg, false);
    let expected = cube.read();
    c.bucket_n("turns simulated", cube.turns);
    let parsed: Alg = no_panic("parsing", || text.parse::<Alg>())?
        .map_err(|_| format!("{:?} does not parse", text))?;
    let t = no_panic("transformation_from_alg", || puzzle.transformation_from_alg(&parsed))?
        .map_err(|e| format!("{:?} was refused on {}: {}", text, def.name, e))?;
    let got = MTrans::read(&t, &def.orbits)?;
    check!(
        got == expected,
        "{:?} on {} gives {} instead of {}",
        clip(&text, 400),
        def.name,
        show(&got),
        show(&expected)
    );
    let p = no_panic("default_pattern", || puzzle.default_pattern())?;
    let q = no_panic("apply_alg", || p.apply_alg(&parsed))?
        .map_err(|e| format!("{:?} was refused: {}", text, e))?;
    for (k, (info, o)) in puzzle.orbit_info_iter().zip(&def.orbits).enumerate() {
        for i in 0..o.np {
            let e = expected.0[k][i as usize];
            // The centers of the 3x3x3 carry no visible orientation.
            let (ori, omod) = if o.name == "CENTERS" { (0, 1) } else { (e.1, 0) };
            let w = q.get_orientation_with_mod(info, i);
            check!(
                q.get_piece(info, i) == e.0 && w.orientation == ori && w.orientation_mod == omod,
                "after {:?}, position {} of {} on {} shows piece {} with orientation {:?} instead of {:?}",
                clip(&text, 400),
                i,
                o.name,
                def.name,
                q.get_piece(info, i),
                w,
                e
            );
        }
    }
    if !expected.is_identity() {
        c.bucket("scrambled");
    } else {
        c.bucket("solved");
    }
    c.distinct(format!("{:?}", expected));
    Ok(())
}

fn families(def: &MDef) -> Vec<MMove> {
    let mut out: Vec<MMove> = vec![];
    for f in ["U", "L", "F", "R", "B", "D"] {
        out.push(mv(f, 1));
        out.push(mv(&format!("{}v", f), 1));
        if def.orbits.len() == 3 {
            out.push(mv(&f.to_lowercase(), 1));
            out.push(mv(&format!("{}w", f), 1));
            let mut m = mv(f, 1);
            m.pre = Pre::Layer(2);
            out.push(m);
        }
    }
    for f in ["x", "y", "z"] {
        out.push(mv(f, 1));
    }
    if def.orbits.len() == 3 {
        for f in ["M", "E", "S"] {
            out.push(mv(f, 1));
        }
    }
    out
}

fn gen_cube_alg(rng: &mut Rng, fams: &[MMove], len: usize, depth: usize) -> Vec<N> {
    (0..len)
        .map(|_| {
            let small = |rng: &mut Rng| 1 + rng.below(3);
            match rng.below(if depth >= 3 { 12 } else { 16 }) {
                0 => N::Pause,
                1 => N::Newline,
                12 | 13 => {
                    let n = small(rng);
                    N::Group(gen_cube_alg(rng, fams, n, depth + 1), rng.range(-4, 4))
                }
                14 => {
                    let (a, b) = (small(rng), small(rng));
                    N::Comm(
                        gen_cube_alg(rng, fams, a, depth + 1),
                        gen_cube_alg(rng, fams, b, depth + 1),
                    )
                }
                15 => {
                    let (a, b) = (small(rng), small(rng));
                    N::Conj(
                        gen_cube_alg(rng, fams, a, depth + 1),
                        gen_cube_alg(rng, fams, b, depth + 1),
                    )
                }
                _ => {
                    let amt = match rng.below(10) {
                        0 => *rng.pick(&[0, 5, -5, 100, -77, 2147483647, -2147483647, 65536]),
                        1 => 3,
                        2 | 3 => 2,
                        4 => -2,
                        5 | 6 => -1,
                        _ => 1,
                    };
                    N::Move(rng.pick(fams).with_amt(amt))
                }
            }
        })
        .collect()
}

pub fn geometry(ctx: &mut Ctx) {
    // Every family, every small amount, on both cubes.
    ctx.cases_exact("single turns", 2 * 36 * 21, |c| {
        let (def, puzzle) = shipped((c.idx % 2) as usize);
        let k = (c.idx / 2) as usize;
        let fams = families(&def);
        if k / 21 >= fams.len() {
            return Ok(());
        }
        let m = fams[k / 21].with_amt(k as i64 % 21 - 10);
        c.sample(|| json!(print_move(&m)));
        c.bucket("turns checked alone");
        compare(c, &def, puzzle, &[N::Move(m)])
    });
    // Every pair of unit turns.
    ctx.cases_exact("pairs of turns", 2 * 36 * 36, |c| {
        let (def, puzzle) = shipped((c.idx % 2) as usize);
        let k = (c.idx / 2) as usize;
        let fams = families(&def);
        let (a, b) = (k / 36, k % 36);
        if a >= fams.len() || b >= fams.len() {
            return Ok(());
        }
        compare(
            c,
            &def,
            puzzle,
            &[N::Move(fams[a].clone()), N::Move(fams[b].with_amt(-1))],
        )
    });
    ctx.cases("algs", 12_000, 250_000, |c| {
        let (def, puzzle) = shipped(c.rng.below(2));
        let fams = families(&def);
        let len = *c.rng.pick(&[3, 8, 25]);
        let alg = stable(&gen_cube_alg(&mut c.rng, &fams, len, 0));
        c.sample(|| json!(clip(&print(&alg), 200)));
        compare(c, &def, puzzle, &alg)
    });
    ctx.cases("scrambles", 4_000, 80_000, |c| {
        let (def, puzzle) = shipped(c.rng.below(2));
        // Face turns only: a legal state reached as a solver would.
        let fams: Vec<MMove> = ["U", "L", "F", "R", "B", "D"].iter().map(|f| mv(f, 1)).collect();
        let n = 20 + c.rng.below(200);
        let alg: Vec<N> = (0..n)
            .map(|_| N::Move(c.rng.pick(&fams).with_amt(*c.rng.pick(&[1, -1, 2]))))
            .collect();
        c.sample(|| json!(clip(&print(&alg), 100)));
        compare(c, &def, puzzle, &alg)?;
        // Conservation laws of the real cube.
        let lib = to_lib(&alg);
        let q = puzzle
            .default_pattern()
            .apply_alg(&lib)
            .map_err(|e| format!("refused: {}", e))?;
        let mut parities = vec![];
        for (info, o) in puzzle.orbit_info_iter().zip(&def.orbits) {
            let sum: u32 = (0..o.np)
                .map(|i| q.get_orientation_with_mod(info, i).orientation as u32)
                .sum();
            check!(
                sum % (o.no as u32) == 0,
                "the orientations of {} add up to {} after {}",
                o.name,
                sum,
                print(&alg)
            );
            let perm: Vec<u8> = (0..o.np).map(|i| q.get_piece(info, i)).collect();
            let mut seen = vec![false; perm.len()];
            let mut parity = 0;
            for i in 0..perm.len() {
                let mut j = i;
                let mut len = 0;
                while !seen[j] {
                    seen[j] = true;
                    j = perm[j] as usize;
                    len += 1;
                }
                if len > 0 {
                    parity += len - 1;
                }
            }
            parities.push(parity % 2);
        }
        if def.orbits.len() == 3 {
            check!(
                parities[0] == parities[1] && parities[2] == 0,
                "edge and corner parities differ after {}",
                print(&alg)
            );
        }
        c.bucket("conservation checked");
        Ok(())
    });
}

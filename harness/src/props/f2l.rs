//! The example program `f2lfast` (its path is in VH_EXAMPLE), run as the README runs it, against an
//! independent search over the same triggers.

use std::collections::BTreeMap;
use std::ffi::OsString;
use std::sync::OnceLock;

use serde_json::json;

use super::eval::shipped;
use super::process::{run_tool, In, Out};
use crate::check;
use crate::ctx::{clip, Case, Ctx, R};
use crate::model_alg::*;
use crate::model_puzzle::*;
use crate::rng::Rng;

/// A slot: its name, its edge and corner (in the order of the 3x3x3's orbits), its triggers.
struct Slot {
    name: &'static str,
    edge: usize,
    corner: usize,
    triggers: [(&'static str, &'static str); 6],
}

// FR FL BR BL are the edges 8 to 11, DFR DFL DBL DBR the corners 4 to 7.
const SLOTS: [Slot; 4] = [
    Slot {
        name: "K",
        edge: 8,
        corner: 4,
        triggers: [
            ("K", "R U R'"),
            ("K2", "R U2 R'"),
            ("K'", "R U' R'"),
            ("FK", "F' U' F"),
            ("FK2", "F' U2 F"),
            ("FK'", "F' U F"),
        ],
    },
    Slot {
        name: "J",
        edge: 10,
        corner: 7,
        triggers: [
            ("J", "R' U' R"),
            ("J2", "R' U2 R"),
            ("J'", "R' U R"),
            ("BJ", "B U B'"),
            ("BJ2", "B U2 B'"),
            ("BJ'", "B U' B'"),
        ],
    },
    Slot {
        name: "H",
        edge: 9,
        corner: 5,
        triggers: [
            ("H", "L' U' L"),
            ("H2", "L' U2 L"),
            ("H'", "L' U L"),
            ("FH", "F U F'"),
            ("FH2", "F U2 F'"),
            ("FH'", "F U' F'"),
        ],
    },
    Slot {
        name: "I",
        edge: 11,
        corner: 6,
        triggers: [
            ("I", "L U L'"),
            ("I2", "L U2 L'"),
            ("I'", "L U' L'"),
            ("BI", "B' U' B"),
            ("BI2", "B' U2 B"),
            ("BI'", "B' U B"),
        ],
    },
];

const AUFS: [&str; 4] = ["", "U", "U2", "U'"];

/// The 26 pieces: edges, corners, centers; each with its orientation.
type State = [(u8, u8); 26];
const FIRST: [usize; 3] = [0, 12, 20];
const SOLVED: State = {
    let mut s = [(0, 0); 26];
    let mut i = 0;
    while i < 26 {
        let start = if i < 12 {
            0
        } else if i < 20 {
            12
        } else {
            20
        };
        s[i] = ((i - start) as u8, 0);
        i += 1;
    }
    s
};

/// From where each piece comes, how it is turned, and modulo what.
#[derive(Clone)]
struct Turn([(u8, u8); 26]);

fn flat(def: &MDef, text: &str) -> Turn {
    let alg = parse(text).expect("a trigger");
    let t = def.eval(&alg).expect("moves of the 3x3x3");
    flatten(&t)
}

fn flatten(t: &MTrans) -> Turn {
    let mut out = [(0, 0); 26];
    for (k, o) in t.0.iter().enumerate() {
        for (i, (from, d)) in o.iter().enumerate() {
            out[FIRST[k] + i] = (FIRST[k] as u8 + from, *d);
        }
    }
    Turn(out)
}

impl Turn {
    fn apply(&self, s: &State) -> State {
        let mut out = *s;
        for i in 0..26 {
            let (from, d) = self.0[i];
            let (piece, ori) = s[from as usize];
            // The pattern doesn't tell how centers are turned.
            let modulus = [2, 3, 1][(i >= 12) as usize + (i >= 20) as usize];
            out[i] = (piece, (ori + d) % modulus);
        }
        out
    }
}

fn in_place(s: &State, i: usize) -> bool {
    s[i] == SOLVED[i]
}

/// The defects of known-findings.txt (check.py passes their names in VH_KNOWN).
#[derive(Clone, Copy, Default)]
struct Quirks {
    /// Corners are looked for among the edges.
    corners: bool,
    /// --max-depth-per-slot is ignored.
    per_slot: bool,
    /// --max-num-solutions is ignored, and the search goes on.
    most: bool,
}

impl Quirks {
    /// None first, then the known ones, few first.
    fn to_try() -> &'static [Quirks] {
        static QUIRKS: OnceLock<Vec<Quirks>> = OnceLock::new();
        QUIRKS.get_or_init(|| {
            let known = std::env::var("VH_KNOWN").unwrap_or_default();
            let known: Vec<&str> = known.split(',').collect();
            let mut all: Vec<Quirks> = (0..8)
                .map(|n| Quirks {
                    corners: n & 1 != 0,
                    per_slot: n & 2 != 0,
                    most: n & 4 != 0,
                })
                .filter(|q| q.names().iter().all(|n| known.contains(n)))
                .collect();
            all.sort_by_key(|q| q.names().len());
            all
        })
    }

    fn names(&self) -> Vec<&'static str> {
        let mut names = vec![];
        for (on, name) in [
            (self.corners, "f2l_corners"),
            (self.per_slot, "f2l_per_slot"),
            (self.most, "f2l_num_solutions"),
        ] {
            if on {
                names.push(name);
            }
        }
        names
    }

    fn slot_solved(&self, s: &State, slot: &Slot) -> bool {
        in_place(s, slot.edge)
            && in_place(
                s,
                if self.corners {
                    slot.corner
                } else {
                    FIRST[1] + slot.corner
                },
            )
    }
}

fn slot_solved(s: &State, slot: &Slot) -> bool {
    Quirks::default().slot_solved(s, slot)
}

fn cross_solved(s: &State) -> bool {
    (4..8).all(|i| in_place(s, i))
}

struct Tables {
    def: MDef,
    aufs: Vec<Turn>,
    triggers: Vec<Vec<Turn>>,
}

fn tables() -> &'static Tables {
    static TABLES: OnceLock<Tables> = OnceLock::new();
    TABLES.get_or_init(|| {
        let def = shipped(0).0;
        Tables {
            aufs: AUFS.iter().map(|a| flat(&def, a)).collect(),
            triggers: SLOTS
                .iter()
                .map(|s| s.triggers.iter().map(|t| flat(&def, t.1)).collect())
                .collect(),
            def,
        }
    })
}

/// Every solution: short and long form, each as often as it is found.
struct Search {
    quirks: Quirks,
    depth: usize,
    per_slot: usize,
    found: BTreeMap<(String, String), u64>,
    nodes: u64,
}

impl Search {
    fn step(
        &mut self,
        s: &State,
        total: usize,
        here: usize,
        short: &mut Vec<&'static str>,
        long: &mut Vec<&'static str>,
    ) {
        self.nodes += 1;
        let t = tables();
        if SLOTS.iter().all(|slot| self.quirks.slot_solved(s, slot)) {
            for (auf, turn) in AUFS.iter().zip(&t.aufs) {
                if turn.apply(s) == SOLVED {
                    let text = |v: &[&str]| {
                        let mut v = v.to_vec();
                        v.push(auf);
                        v.retain(|x| !x.is_empty());
                        v.join(" ")
                    };
                    *self.found.entry((text(short), text(long))).or_insert(0) += 1;
                }
            }
            return;
        }
        if total == self.depth || here == self.per_slot {
            return;
        }
        for (k, slot) in SLOTS.iter().enumerate() {
            if self.quirks.slot_solved(s, slot) {
                continue;
            }
            for (auf, turn) in AUFS.iter().zip(&t.aufs) {
                let after = turn.apply(s);
                for ((name, what), turn) in slot.triggers.iter().zip(&t.triggers[k]) {
                    let next = turn.apply(&after);
                    let solves = self.quirks.slot_solved(&next, slot);
                    let (a, b) = (short.len(), long.len());
                    short.extend([auf, name]);
                    long.extend([auf, what]);
                    if solves {
                        short.push(".");
                        long.push(".");
                    }
                    self.step(
                        &next,
                        total + 1,
                        if solves { 0 } else { here + 1 },
                        short,
                        long,
                    );
                    short.truncate(a);
                    long.truncate(b);
                }
            }
        }
    }
}

struct Run {
    initially: Vec<String>,
    /// By depth: short, long, link.
    depths: Vec<(usize, Vec<(String, String, String)>)>,
}

fn read(out: &str) -> Result<Run, String> {
    let mut r = Run {
        initially: vec![],
        depths: vec![],
    };
    // Printed by the main thread, at any time.
    let mut lines = out.lines().filter(|l| !l.starts_with("Len: "));
    while let Some(line) = lines.next() {
        if let Some(slot) = line.strip_prefix("Initially solved slot: ") {
            r.initially.push(slot.to_owned());
        } else if let Some(d) = line.strip_prefix("Search depth: ") {
            r.depths.push((
                d.parse()
                    .map_err(|_| format!("unexpected line {:?}", line))?,
                vec![],
            ));
        } else if line == "Full Solution!" {
            let mut field = |prefix: &str| -> Result<String, String> {
                lines
                    .next()
                    .and_then(|l| l.strip_prefix(prefix))
                    .map(str::to_owned)
                    .ok_or_else(|| format!("a solution without {:?}", prefix))
            };
            let solution = (field("Short: ")?, field("Long: ")?, field("")?);
            r.depths
                .last_mut()
                .ok_or("a solution before the search")?
                .1
                .push(solution);
        }
    }
    Ok(r)
}

/// The fields of a link to the editor.
fn fields(link: &str) -> Option<BTreeMap<String, String>> {
    let query = link.strip_prefix("https://alpha.twizzle.net/edit/?")?;
    let mut out = BTreeMap::new();
    for part in query.split('&') {
        let (key, value) = part.split_once('=')?;
        let mut bytes = vec![];
        let mut rest = value.bytes();
        while let Some(b) = rest.next() {
            bytes.push(match b {
                b'+' => b' ',
                b'%' => {
                    let digits = [rest.next()?, rest.next()?];
                    u8::from_str_radix(std::str::from_utf8(&digits).ok()?, 16).ok()?
                }
                _ => b,
            });
        }
        out.insert(key.to_owned(), String::from_utf8(bytes).ok()?);
    }
    Some(out)
}

fn example(args: &[String]) -> Result<Out, String> {
    let args: Vec<OsString> = args.iter().map(OsString::from).collect();
    run_tool("VH_EXAMPLE", "f2lfast", &args, In::Nothing)
}

/// A scramble that some triggers solve, or one that is left a while from being solved.
fn scramble(rng: &mut Rng, slots: &[usize], n: usize) -> Vec<N> {
    let mut text = String::new();
    for _ in 0..n {
        let slot = &SLOTS[*rng.pick(slots)];
        text += rng.pick(&AUFS);
        text += " ";
        text += rng.pick(&slot.triggers).1;
        text += " ";
    }
    text += rng.pick(&AUFS);
    let mut alg = parse(&text).expect("triggers");
    match rng.below(8) {
        // The same in other words.
        0 => alg = vec![N::Group(alg, 1)],
        1 => alg.insert(0, N::Comm(parse("R").unwrap(), parse("L").unwrap())),
        2 => {
            alg = vec![
                N::Conj(parse("y").unwrap(), parse("y' ").unwrap()),
                N::Group(alg, 1),
            ]
        }
        3 => alg.push(N::Pause),
        4 => {
            alg.push(N::Newline);
            alg.push(N::Comment(" & = + # % é".to_owned()));
        }
        5 => alg = parse(&(print(&alg).replace("U2", "U2'"))).expect("triggers"),
        _ => (),
    }
    if rng.chance(1, 6) {
        alg
    } else {
        invert(&alg)
    }
}

/// What was asked for.
struct Job<'a> {
    args: &'a [String],
    text: &'a String,
    at: State,
    depths: Vec<usize>,
    per_slot: usize,
    most: u64,
}

/// Whether this is what was to be printed, and what was seen of it.
fn judge(job: &Job, r: &Run, quirks: Quirks) -> Result<Vec<(String, u64)>, String> {
    let Job {
        args,
        text,
        at,
        depths: wanted,
        per_slot,
        most,
    } = job;
    let t = tables();
    let mut seen = vec![];
    let mut solved: Vec<&str> = SLOTS
        .iter()
        .filter(|s| quirks.slot_solved(at, s))
        .map(|s| s.name)
        .collect();
    solved.sort_unstable();
    let mut said = r.initially.clone();
    said.sort();
    check!(
        said == solved,
        "f2lfast {:?}: says that the slots {:?} are solved, not {:?}",
        args,
        said,
        solved
    );
    seen.push((format!("initially solved slots: {}", solved.len()), 1));
    let depths: Vec<usize> = r.depths.iter().map(|d| d.0).collect();
    let most = if quirks.most { u64::MAX } else { *most };
    // A search that has all the solutions it was asked for need not go on.
    let total: u64 = r.depths.iter().map(|d| d.1.len() as u64).sum();
    check!(
        &depths == wanted || (total >= most && wanted.starts_with(&depths)),
        "f2lfast {:?} searches the depths {:?}, not {:?}",
        args,
        depths,
        wanted
    );
    check!(
        total <= most,
        "f2lfast {:?} gives {} solutions, not at most {}",
        args,
        total,
        most
    );
    let mut left = most;
    for (depth, solutions) in &r.depths {
        let mut s = Search {
            quirks,
            depth: *depth,
            per_slot: if quirks.per_slot { 3 } else { *per_slot },
            found: BTreeMap::new(),
            nodes: 0,
        };
        s.step(at, 0, 0, &mut vec![], &mut vec![]);
        seen.push(("nodes of the reference search".to_owned(), s.nodes));
        let all: u64 = s.found.values().sum();
        for (short, long, link) in solutions {
            // It solves the cube, on the model.
            let alg =
                parse(long).ok_or_else(|| format!("f2lfast {:?}: {:?} is no alg", args, long))?;
            let turn = t
                .def
                .eval(&alg)
                .map_err(|m| format!("f2lfast {:?}: {:?} turns {:?}", args, long, m))?;
            check!(
                flatten(&turn).apply(at) == SOLVED,
                "f2lfast {:?}: {:?} does not solve the cube",
                args,
                long
            );
            let f =
                fields(link).ok_or_else(|| format!("f2lfast {:?}: {:?} is no link", args, link))?;
            check!(
                f.len() == 2 && f.get("setup-alg") == Some(*text) && f.get("alg") == Some(long),
                "f2lfast {:?}: the link of {:?} is for {:?}",
                args,
                long,
                f
            );
            // And it is one of those the search is about, in both forms.
            let key = (short.clone(), long.clone());
            match s.found.get_mut(&key) {
                Some(n) if *n > 0 => *n -= 1,
                _ => {
                    return Err(format!("f2lfast {:?}: gives {:?} ({:?}), which is not within the limits, or more often than it is there", args, short, long));
                }
            }
            seen.push(("solutions".to_owned(), 1));
        }
        let n = solutions.len() as u64;
        check!(
            n == all.min(left),
            "f2lfast {:?}: gives {} solutions at depth {}, not {} (missing for instance {:?})",
            args,
            n,
            depth,
            all.min(left),
            s.found.iter().find(|f| *f.1 > 0)
        );
        if all > left {
            seen.push(("searches stopped by the number of solutions".to_owned(), 1));
        }
        left -= n;
    }
    if total == 0 {
        seen.push(("searches without a solution".to_owned(), 1));
    }
    Ok(seen)
}

fn one(
    c: &mut Case,
    alg: &[N],
    depth: usize,
    start: Option<usize>,
    per_slot: Option<usize>,
    most: Option<u64>,
) -> R {
    let t = tables();
    let text = print(alg);
    let mut args = vec![
        "--scramble".to_owned(),
        text.clone(),
        "--max-depth".to_owned(),
        depth.to_string(),
    ];
    if let Some(n) = start {
        args.extend(["--start-depth".to_owned(), n.to_string()]);
    }
    if let Some(n) = per_slot {
        args.extend(["--max-depth-per-slot".to_owned(), n.to_string()]);
    }
    if let Some(n) = most {
        args.extend(["--max-num-solutions".to_owned(), n.to_string()]);
    }
    let fixed = c.rng.chance(1, 2);
    if fixed {
        args.push("--no-randomize".to_owned());
    }
    if c.rng.chance(1, 3) {
        args.push("--no-prefer-immediate-slots".to_owned());
    }
    if depth <= 2 && c.rng.chance(1, 6) {
        args.push("--debug".to_owned());
    }
    c.distinct(format!("{:?}", args));
    c.sample(|| json!({"args": args}));
    let o = example(&args)?;
    let at = flatten(
        &t.def
            .eval(alg)
            .map_err(|m| format!("no move of the 3x3x3: {:?}", m))?,
    )
    .apply(&SOLVED);
    if !cross_solved(&at) {
        check!(
            o.code != 0 && !o.err.trim().is_empty() && !o.out.contains("Solution"),
            "f2lfast ends with {} after {:?}, which leaves no cross: {:?}",
            o.code,
            text,
            clip(&o.out, 300)
        );
        c.bucket("scrambles without a cross refused");
        return Ok(());
    }
    check!(
        o.code == 0,
        "f2lfast {:?} ends with {}: {}",
        args,
        o.code,
        clip(&o.err, 400)
    );
    let r = read(&o.out).map_err(|e| format!("f2lfast {:?}: {}", args, e))?;
    let job = Job {
        args: &args,
        text: &text,
        at,
        depths: (start.unwrap_or(depth)..=depth).collect(),
        per_slot: per_slot.unwrap_or(3),
        most: most.unwrap_or(100),
    };
    let mut first = None;
    let mut seen = None;
    for quirks in Quirks::to_try() {
        match judge(&job, &r, *quirks) {
            Ok(found) => {
                seen = Some((found, *quirks));
                break;
            }
            Err(e) => {
                first.get_or_insert(e);
            }
        }
    }
    let Some((found, quirks)) = seen else {
        return Err(first.unwrap());
    };
    for name in quirks.names() {
        c.bucket(&format!("known finding: {}", name));
    }
    for (what, n) in found {
        c.bucket_n(&what, n);
    }
    c.bucket_max("depth", depth as u64);
    if fixed && c.rng.chance(1, 5) {
        let again = example(&args)?;
        let cut = |s: &str| -> Vec<String> {
            let other = |l: &&str| !l.starts_with("Len: ") && !l.starts_with("Time elapsed");
            s.lines().filter(other).map(str::to_owned).collect()
        };
        check!(
            cut(&again.out) == cut(&o.out),
            "f2lfast {:?} gives other solutions the second time",
            args
        );
        c.bucket("searches repeated");
    }
    Ok(())
}

pub fn f2l(ctx: &mut Ctx) {
    ctx.cases("scrambles", 320, 6_000, |c| {
        let n = *c.rng.pick(&[0, 1, 1, 1, 1, 2, 2, 2, 3, 4]);
        let mut all = vec![0, 1, 2, 3];
        c.rng.shuffle(&mut all);
        let slots = &all[..n.max(1)];
        let len = if n == 0 {
            0
        } else if c.rng.chance(1, 6) {
            c.rng.range(4, 12) as usize
        } else {
            c.rng.range(1, 3) as usize
        };
        let alg = scramble(&mut c.rng, slots, len);
        let t = tables();
        let at = flatten(&t.def.eval(&alg).expect("moves of the 3x3x3")).apply(&SOLVED);
        let open = SLOTS.iter().filter(|s| !slot_solved(&at, s)).count();
        // What takes a while in the debug profile.
        let deepest = match open {
            0 => 6,
            1 => 3,
            2 => 3,
            _ => 2,
        };
        let depth = if c.rng.chance(1, 4) {
            c.rng.range(0, deepest)
        } else {
            deepest
        } as usize;
        let start = match c.rng.below(4) {
            0 => Some(c.rng.range(0, depth as i64) as usize),
            1 => Some(depth),
            2 if c.rng.chance(1, 8) => Some(depth + 1),
            _ => None,
        };
        let per_slot = if c.rng.chance(1, 3) {
            Some(c.rng.range(0, 4) as usize)
        } else {
            None
        };
        let most = if c.rng.chance(1, 3) {
            Some(*c.rng.pick(&[0, 1, 1, 2, 5, 12, 1000]))
        } else {
            None
        };
        one(c, &alg, depth, start, per_slot, most)
    });
    ctx.cases("many solutions", 24, 400, |c| {
        // Solutions of the last slot in four triggers.
        let slots = [c.rng.below(4)];
        let alg = scramble(&mut c.rng, &slots, 1);
        let most = *c
            .rng
            .pick(&[Some(1), Some(9), Some(11), Some(101), Some(100_000), None]);
        one(c, &alg, 4, None, Some(4), most)
    });
    ctx.cases("any scrambles", 60, 600, |c| {
        let words = [
            "R", "U", "F'", "L2", "D", "B", "M", "E", "S2", "x", "y'", "z", "Rw", "Uv", "2L", "U",
            "U2",
        ];
        let mut text = String::new();
        for _ in 0..c.rng.below(4) {
            text += c.rng.pick(&words);
            text += " ";
        }
        let alg = parse(&text).expect("moves");
        one(c, &alg, 2, None, None, None)
    });
    ctx.cases("no scrambles", 24, 200, |c| {
        let bad = [
            "R U)",
            "(R",
            "R U Q",
            "[R, U",
            "R++",
            "3R",
            "U R'' ",
            "BL",
            "R_",
            "-",
            "R\u{0301}",
        ];
        let text = *c.rng.pick(&bad);
        let known = parse(text).is_some_and(|a| tables().def.eval(&a).is_ok());
        check!(!known, "{:?} is an alg of the 3x3x3", text);
        c.distinct(text);
        let o = run_tool(
            "VH_EXAMPLE",
            "f2lfast",
            &["--max-depth", "1", &format!("--scramble={}", text)].map(OsString::from),
            In::Nothing,
        );
        // How it says so isn't laid down: it may panic.
        match o {
            Ok(o) => check!(
                o.code != 0 && !o.out.contains("Solution"),
                "f2lfast ends with {} for {:?}",
                o.code,
                text
            ),
            Err(e) => check!(e.contains("panicked"), "{}", e),
        }
        c.bucket("texts that are no algs of the 3x3x3 refused");
        Ok(())
    });
}

//! Algs: parsing, printing, inversion, building, JSON, equality.

use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use cubing_core::alg::{
    Alg, AlgBuilder, AlgNode, Commutator, Conjugate, Grouping, LineComment, Move, MoveLayer,
    MovePrefix, MoveRange, Newline, Pause, QuantumMove,
};
use serde_json::json;

use crate::check;
use crate::ctx::{clip, no_panic, Case, Ctx, R};
use crate::model_alg::*;
use crate::rng::Rng;

const SMALL: &[char] = &[
    'R', '_', '2', '0', ' ', '\'', '+', '-', '/', '.', '(', ')', '[', ']', ',', ':', '\n',
];

pub fn cfg(rng: &mut Rng) -> GenCfg {
    GenCfg {
        max_depth: *rng.pick(&[0, 1, 2, 3, 4]),
        max_len: *rng.pick(&[1, 3, 6, 10]),
    }
}

fn token_soup(rng: &mut Rng) -> String {
    let tokens = [
        "R", "U'", "2R", "2-3r", "R2'", "(", ")", "[", "]", ",", ":", " ", " ", " ", "\n", "//c", "// x\n",
        "/", ".", "++", "--", "R++", "D--", "UR3+", "UL2-", "(3, 4)", "(-1, 0)", ", ", "'", "2", "0", "1",
        "-", "+", "99999999999", "2147483647", "2147483648", "4294967295R", "4294967296R", "_", "é", "\t",
        "\r", "(0,0)", "[R, U]", "[R: U]", "(R U)", ")2", "]'", "]3'", "y", "R ", " U", "\u{a0}", "’", "R2-",
        "3-R", "-2R", "1-2", "R''", "R2+2", "(3, 4", "(3 , 4)", "(+3, 4)", "(3, 4)2", "(3, 4) ", "(03, -04)",
        "R_PLUS_3'", "_SLASH_", "_SLASH_'", "U_SQ_3", "D_SQ_", "R_PLUSPLUS_", "R007",
    ];
    let n = 1 + rng.below(9);
    (0..n).map(|_| *rng.pick(&tokens)).collect()
}

/// What other tools leave at the ends of a text.
pub const EXTRAS: &[&str] = &[
    "\u{feff}", "\u{a0}", "\u{200b}", "\u{2028}", "\u{85}", "\r", "\r\n", "\t", "\u{b}", "\u{c}", "\u{1a}", "\u{3000}",
    " \n", "\n\n", ";", ",", "\"", "`",
];

pub fn mutate(rng: &mut Rng, text: &str) -> String {
    if rng.chance(1, 12) {
        let extra = *rng.pick(EXTRAS);
        return if rng.chance(1, 2) { format!("{}{}", extra, text) } else { format!("{}{}", text, extra) };
    }
    let mut chars: Vec<char> = text.chars().collect();
    for _ in 0..1 + rng.below(3) {
        let at = rng.below(chars.len() + 1);
        match rng.below(5) {
            0 => chars.insert(at, *rng.pick(SMALL)),
            1 if at < chars.len() => {
                chars.remove(at);
            }
            2 if at < chars.len() => chars[at] = *rng.pick(SMALL),
            3 => {
                let c = char::from_u32(rng.below(0x300) as u32).unwrap_or('x');
                chars.insert(at, c)
            }
            _ if !chars.is_empty() => {
                // Copy a slice elsewhere.
                let a = rng.below(chars.len());
                let b = (a + 1 + rng.below(6)).min(chars.len());
                let piece: Vec<char> = chars[a..b].to_vec();
                for (k, c) in piece.into_iter().enumerate() {
                    chars.insert((at + k).min(chars.len()), c);
                }
            }
            _ => {}
        }
    }
    chars.into_iter().collect()
}

fn small_string(mut idx: u64, alphabet: &[char]) -> String {
    // 0: "", then all strings of length 1, of length 2, …
    let k = alphabet.len() as u64;
    let mut len = 0;
    let mut count = 1u64;
    while idx >= count {
        idx -= count;
        count *= k;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push(alphabet[(idx % k) as usize]);
        idx /= k;
    }
    s
}

fn small_count(len: u32, alphabet: &[char]) -> u64 {
    (0..=len).map(|l| (alphabet.len() as u64).pow(l)).sum()
}

/// Any text a user might hand to the parser.
pub fn any_text(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => token_soup(rng),
        1 => {
            let n = rng.below(12);
            (0..n).map(|_| *rng.pick(SMALL)).collect()
        }
        2 => {
            let c = cfg(rng);
            let alg = gen_alg(rng, &c, 0);
            let s = sloppy_print(rng, &alg);
            mutate(rng, &s)
        }
        3 => {
            let n = rng.below(20);
            (0..n)
                .map(|_| char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('\u{fffd}'))
                .collect()
        }
        4 => {
            let c = cfg(rng);
            let alg = gen_alg(rng, &c, 0);
            print(&alg)
        }
        _ => {
            let c = cfg(rng);
            let alg = gen_alg(rng, &c, 0);
            sloppy_print(rng, &alg)
        }
    }
}

/// Run a check on long algs (`gen_tree`, `some_text`) too.
fn with_long(ctx: &mut Ctx, stream: &'static str, n: (u64, u64), mut f: impl FnMut(&mut Case) -> R) {
    ctx.cases(stream, n.0, n.1, &mut f);
    let long = match stream {
        "trees" | "algs" | "valid notation" => "long algs",
        _ => "long texts",
    };
    ctx.cases(long, 240, 6_000, &mut f);
}

/// Any text; in the streams for it a long one.
fn some_text(c: &mut Case) -> String {
    if c.stream() != "long texts" {
        return any_text(&mut c.rng);
    }
    let alg = gen_long(&mut c.rng);
    let text = sloppy_print(&mut c.rng, &alg);
    if c.rng.chance(1, 5) {
        mutate(&mut c.rng, &text)
    } else {
        text
    }
}

// ---------------------------------------------------------------------------------------------

fn total_on(c: &mut Case, text: &str) -> R {
    c.note(|| format!("parsing {:?}", clip(text, 500)));
    let before = crate::alloc::thread_count();
    let alg = no_panic("parsing an alg", || text.parse::<Alg>())?;
    let after = crate::alloc::thread_count();
    let len = text.len() as u64 + 16;
    let allocs = after.0 - before.0;
    c.bucket_max("allocations per byte x100", allocs * 100 / len);
    check!(
        allocs <= 200 * len,
        "parsing {} bytes took {} allocations: {:?}",
        text.len(),
        allocs,
        clip(text, 200)
    );
    let again = no_panic("parsing an alg", || Alg::try_from(text))?;
    match (&alg, &again) {
        (Ok(a), Ok(b)) => check!(a == b, "two parses of {:?} differ", clip(text, 300)),
        (Err(a), Err(b)) => {
            check!(
                !a.to_string().is_empty() && !b.to_string().is_empty(),
                "empty error message for {:?}",
                clip(text, 300)
            );
        }
        _ => return Err(format!("FromStr and TryFrom disagree on {:?}", clip(text, 300))),
    }
    c.bucket(if alg.is_ok() { "accepted" } else { "rejected" });
    let m = no_panic("parsing a move", || text.parse::<Move>())?;
    let m2 = no_panic("parsing a move", || Move::try_from(text))?;
    check!(
        m.is_ok() == m2.is_ok() && m.as_ref().ok() == m2.as_ref().ok(),
        "FromStr and TryFrom for Move disagree on {:?}",
        clip(text, 300)
    );
    if let Err(e) = &m {
        check!(!e.to_string().is_empty(), "empty error message");
    }
    let q = no_panic("parsing a quantum move", || text.parse::<QuantumMove>())?;
    let q2 = no_panic("parsing a quantum move", || QuantumMove::try_from(text))?;
    check!(
        q.is_ok() == q2.is_ok() && q.as_ref().ok() == q2.as_ref().ok(),
        "FromStr and TryFrom for QuantumMove disagree on {:?}",
        clip(text, 300)
    );
    // What the parser hands out has to be usable.
    if let Ok(alg) = &alg {
        no_panic("printing a parsed alg", || alg.to_string())?;
        no_panic("debug-printing a parsed alg", || format!("{:?}", alg))?;
        no_panic("inverting a parsed alg", || alg.invert())?;
    }
    if let Ok(m) = &m {
        no_panic("printing a parsed move", || m.to_string())?;
        no_panic("inverting a parsed move", || m.invert())?;
    }
    Ok(())
}

pub fn parser_is_total(ctx: &mut Ctx) {
    ctx.cases("any text", 60_000, 1_500_000, |c| {
        let mut text = any_text(&mut c.rng);
        while text.len() > 1 << 16 {
            text.pop();
        }
        c.distinct(&text);
        c.sample(|| json!(clip(&text, 200)));
        total_on(c, &text)
    });
    // Nesting within reason, opened and closed in all combinations, complete and cut off.
    ctx.cases("nesting", 3_000, 40_000, |c| {
        let depth = 1 + c.rng.below(80);
        let mut open = String::new();
        let mut close: Vec<String> = vec![];
        let style = c.rng.below(5);
        for _ in 0..depth {
            let kind = if style < 4 { style } else { c.rng.below(4) };
            match kind {
                0 => {
                    open.push('(');
                    close.push(")".into())
                }
                1 => {
                    open.push_str("[R, ");
                    close.push("]".into())
                }
                2 => {
                    open.push_str("[R: ");
                    close.push("]".into())
                }
                _ => {
                    open.push('[');
                    close.push(if c.rng.chance(1, 2) { ": U]" } else { ", U]" }.into())
                }
            }
            if c.rng.chance(1, 4) {
                open.push_str("U ");
            }
            if c.rng.chance(1, 6) {
                close.push("2".into());
            }
        }
        let mut text = open.clone() + "R";
        // Amounts have to follow their delimiter.
        let mut tail = String::new();
        let mut pending = String::new();
        for p in close.into_iter().rev() {
            if p == "2" {
                pending = p;
            } else {
                tail.push_str(&p);
                tail.push_str(&pending);
                pending.clear();
            }
        }
        text.push_str(&tail);
        match c.rng.below(6) {
            0 => {
                let mut cut = c.rng.below(text.len());
                while !text.is_char_boundary(cut) {
                    cut -= 1;
                }
                text.truncate(cut);
            }
            1 => text = mutate(&mut c.rng, &text),
            2 => text = open,
            _ => {}
        }
        c.bucket_max("nesting depth", depth as u64);
        c.distinct(&text);
        c.sample(|| json!(clip(&text, 200)));
        total_on(c, &text)
    });
    // More units than a 16-bit number counts, of each kind, side by side.
    ctx.cases("very long", 51, 340, |c| {
        let units = ["R ", "\n", "// c\n", ". ", "(R) ", "[R, U] ", "[R: U] ", "/ ", "(1, 2) ", " ", "9", "R2' ", "R // c\n", "U\n", "c", "_", "."];
        let unit = units[c.idx as usize % units.len()];
        let spread = if c.rng.chance(1, 2) { 12 } else { 70_000 };
        let n = 65_530 + c.rng.below(spread);
        let mut text = unit.repeat(n);
        match unit {
            "9" => text.insert_str(0, *c.rng.pick(&["R", "", "R9-"])),
            "c" | "." => text.insert_str(0, *c.rng.pick(&["//", "//", "R U // ", "[R: //"])),
            _ => {}
        }
        if c.rng.chance(1, 4) {
            text.push_str(*c.rng.pick(&["R", ")", "é"]));
        }
        c.bucket_max("units", n as u64);
        c.distinct(&text);
        c.sample(|| json!({"unit": unit, "times": n}));
        total_on(c, &text)
    });
    ctx.cases("long", 60, 1_500, |c| {
        let n = 1 + c.rng.below(60_000);
        let unit = match c.rng.below(10) {
            0 => "R ".to_owned(),
            1 => " ".to_owned(),
            2 => "\n".to_owned(),
            3 => "9".to_owned(),
            4 => "// comment\n".to_owned(),
            5 => "R2' (U F)3 [a, b]' (3, -4) / ".to_owned(),
            6 => "a_".to_owned(),
            7 => "( R) ".to_owned(),
            8 => "R' ".to_owned(),
            _ => {
                let t = token_soup(&mut c.rng);
                t + " "
            }
        };
        let mut text = unit.repeat((n / unit.len()).max(1));
        if c.rng.chance(1, 3) {
            text = "R".to_owned() + &text;
        }
        if c.rng.chance(1, 3) {
            text.push_str(*c.rng.pick(&["R", ")", "]", "é", "'", "/", "("]));
        }
        c.bucket_max("text length", text.len() as u64);
        c.distinct(&text);
        c.sample(|| json!(clip(&text, 60)));
        total_on(c, &text)
    });
}

// ---------------------------------------------------------------------------------------------

fn same_value(c: &mut Case, text: &str) -> R {
    c.note(|| format!("text {:?}", clip(text, 500)));
    let expected = parse(text);
    let got = no_panic("parsing an alg", || text.parse::<Alg>())?;
    match (&expected, &got) {
        (None, Err(_)) => c.bucket("alg:rejected"),
        (Some(e), Ok(g)) => {
            c.bucket("alg:accepted");
            let g = from_lib(g);
            check!(
                *e == g,
                "{:?} was parsed as {:?} but denotes {:?}",
                clip(text, 300),
                g,
                e
            );
        }
        (None, Ok(g)) => {
            return Err(format!(
                "{:?} is not valid notation but was accepted as {:?}",
                clip(text, 300),
                from_lib(g)
            ))
        }
        (Some(e), Err(_)) => {
            return Err(format!(
                "{:?} is valid notation (for {:?}) but was rejected",
                clip(text, 300),
                e
            ))
        }
    }
    let expected = parse_move(text);
    let got = no_panic("parsing a move", || text.parse::<Move>())?
        .ok()
        .map(|m| from_lib_move(&m));
    c.bucket(if got.is_some() { "move:accepted" } else { "move:rejected" });
    check!(
        expected == got,
        "as a move, {:?} was parsed as {:?} but denotes {:?}",
        clip(text, 300),
        got,
        expected
    );
    let expected = parse_quantum(text);
    let got = no_panic("parsing a quantum move", || text.parse::<QuantumMove>())?
        .ok()
        .map(|q| from_lib_quantum(&q));
    c.bucket(if got.is_some() { "quantum:accepted" } else { "quantum:rejected" });
    check!(
        expected == got,
        "as a quantum move, {:?} was parsed as {:?} but denotes {:?}",
        clip(text, 300),
        got,
        expected
    );
    Ok(())
}

pub fn language_and_value(ctx: &mut Ctx) {
    let len = if ctx.thorough { 5 } else { 4 };
    ctx.cases_exact("all short texts", small_count(len, SMALL), |c| {
        let text = small_string(c.idx, SMALL);
        if parse(&text).is_some() {
            c.distinct(&text);
        }
        same_value(c, &text)
    });
    const MOVE_CHARS: &[char] = &['R', '_', '1', '2', '0', '\'', '+', '-'];
    let len = if ctx.thorough { 7 } else { 6 };
    ctx.cases_exact("all short moves", small_count(len, MOVE_CHARS), |c| {
        let text = small_string(c.idx, MOVE_CHARS);
        if parse_move(&text).is_some() {
            c.distinct(&text);
        }
        same_value(c, &text)
    });
    with_long(ctx, "valid notation", (60_000, 1_500_000), |c| {
        let alg = gen_tree(c);
        let text = sloppy_print(&mut c.rng, &alg);
        c.distinct(&text);
        c.sample(|| json!(clip(&text, 200)));
        same_value(c, &text)
    });
    with_long(ctx, "any text", (80_000, 2_000_000), |c| {
        let text = some_text(c);
        if parse(&text).is_some() && !text.is_empty() {
            c.distinct(&text);
        }
        c.sample(|| json!(clip(&text, 200)));
        same_value(c, &text)
    });
    ctx.cases("moves", 40_000, 800_000, |c| {
        let m = gen_move(&mut c.rng);
        let mut text = sloppy_print(&mut c.rng, &[N::Move(m)]);
        if c.rng.chance(1, 2) {
            text = text.trim().to_owned();
        }
        if c.rng.chance(1, 3) {
            text = mutate(&mut c.rng, &text);
        }
        c.distinct(&text);
        c.sample(|| json!(text));
        same_value(c, &text)
    });
    // Every kind of unit with everything that may, or may not, come after it.
    const UNITS: &[&str] = &[
        "R", "Rw", "2R", "2-3Rw", "R_", "x", "Rv", "(R)", "(R U)", "()", "(1, 2)", "(1,2)", "(-3, 0)", "( 0 , -1 )",
        "[R, U]", "[R: U]", "[ R , U ]", "[,]", "[:]", "[R, [U: F]]", "((R))", "(.)", ".", "/", "// a\n", "// a", "\n",
        "UR", "DL", "ALL", "y", "U0+", "UR1+", "DR5-", "L2-", "ALL3+", "R+", "R++", "D--", "_SLASH_", "(1, 2", "[R, U", "1",
    ];
    const SUFFIXES: &[&str] = &[
        "", "1", "2", "0", "01", "12", "'", "2'", "1'", "0'", "''", "'2", "2''", "+", "++", "-", "--", "2+", "2-", "1+", "3++",
        "+'", "++'", "'+", "++2", "+2'", " 2", " '", "-1", "-2'", "w", "/", "//", ".", ",", ":", "(", "\n", "^2", "*2", "\u{2019}",
    ];
    const AROUND: &[(&str, &str)] = &[
        ("", ""), (" ", " "), ("R ", " U"), ("(", ")"), ("(", ")2'"), ("[", ", U]"), ("[U: ", "]"), ("[U, ", "]3"), ("1", ""),
        ("3-", ""), ("", "/"), ("/", ""), ("", "(1, 2)"), ("R", ""), ("", "R"), ("'", ""), ("\n", "\n"), ("// b\n", ""),
    ];
    ctx.cases_exact(
        "units, suffixes and surroundings",
        (UNITS.len() * SUFFIXES.len() * AROUND.len()) as u64,
        |c| {
            let i = c.idx as usize;
            let (before, after) = AROUND[i % AROUND.len()];
            let i = i / AROUND.len();
            let text = format!("{}{}{}{}", before, UNITS[i / SUFFIXES.len()], SUFFIXES[i % SUFFIXES.len()], after);
            if parse(&text).is_some() {
                c.distinct(&text);
            }
            same_value(c, &text)
        },
    );
    // Numbers at the edges of their types.
    ctx.cases("numbers", 4_000, 40_000, |c| {
        let edges: [u128; 14] = [
            0,
            1,
            9,
            127,
            255,
            256,
            65_535,
            65_536,
            i32::MAX as u128,
            i32::MAX as u128 + 1,
            u32::MAX as u128,
            u32::MAX as u128 + 1,
            u64::MAX as u128,
            u64::MAX as u128 + 1,
        ];
        let mut number = || {
            let e = *c.rng.pick(&edges);
            let n = match c.rng.below(4) {
                0 => e.saturating_sub(c.rng.below(3) as u128),
                1 => e + c.rng.below(3) as u128,
                _ => e,
            };
            let zeros = "0".repeat(if c.rng.chance(1, 5) { c.rng.below(25) } else { 0 });
            format!("{}{}", zeros, n)
        };
        let (a, b) = (number(), number());
        let text = match c.rng.below(16) {
            0 => format!("{}R", a),
            1 => format!("{}-{}R", a, b),
            2 => format!("R{}", a),
            3 => format!("R{}'", a),
            4 => format!("R{}+", a),
            5 => format!("R{}-", a),
            6 => format!("(R){}", a),
            7 => format!("(R){}'", a),
            8 => format!("[R, U]{}", a),
            9 => format!("[R: U]{}'", a),
            10 => format!("({}, {})", a, b),
            11 => format!("(-{}, -{})", a, b),
            12 => format!("{}R{}", a, b),
            13 => format!("{}R{}'", a, b),
            14 => format!("{}R++", a),
            _ => format!("{}-{}R{}+", a, b, b),
        };
        c.distinct(&text);
        c.sample(|| json!(text));
        same_value(c, &text)
    });
}

// ---------------------------------------------------------------------------------------------

/// A tree built through the API, or one obtained by parsing.
fn gen_tree(c: &mut Case) -> Vec<N> {
    let alg = if c.stream() == "long algs" {
        gen_long(&mut c.rng)
    } else {
        let g = cfg(&mut c.rng);
        gen_alg(&mut c.rng, &g, 0)
    };
    if c.rng.chance(1, 3) {
        normalize(&alg, false)
    } else {
        alg
    }
}

fn observe_tree(c: &mut Case, alg: &[N]) {
    let mut counts: HashMap<&'static str, u64> = HashMap::new();
    for_each_node(alg, &mut |n| {
        let k = match n {
            N::Move(m) if m.fam.ends_with("_PLUS_") || m.fam.ends_with("_PLUSPLUS_") => {
                "node:suffixed move"
            }
            N::Move(m) if m.fam == SLASH => "node:slash",
            N::Move(_) => "node:move",
            N::Pause => "node:pause",
            N::Newline => "node:newline",
            N::Comment(_) => "node:comment",
            N::Group(a, amt) if square1_pair(a, *amt).is_some() => "node:tuple",
            N::Group(..) => "node:grouping",
            N::Comm(..) => "node:commutator",
            N::Conj(..) => "node:conjugate",
        };
        *counts.entry(k).or_insert(0) += 1;
    });
    for (k, n) in counts {
        c.bucket_n(k, n);
    }
    c.bucket_max("tree depth", depth(alg) as u64);
    c.bucket_max("tree nodes", count_nodes(alg) as u64);
}

pub fn round_trip(ctx: &mut Ctx) {
    with_long(ctx, "trees", (60_000, 1_500_000), |c| {
        let tree = gen_tree(c);
        observe_tree(c, &tree);
        let lib = to_lib(&tree);
        let text = no_panic("printing an alg", || lib.to_string())?;
        c.distinct(&text);
        c.sample(|| json!(clip(&text, 200)));
        c.note(|| format!("text {:?}", text));
        let back = no_panic("parsing an alg", || text.parse::<Alg>())?
            .map_err(|_| format!("printed text {:?} of {:?} does not parse", text, tree))?;
        let expected = normalize(&tree, false);
        check!(
            from_lib(&back) == expected,
            "{:?} printed as {:?} parses as {:?}, not as {:?}",
            tree,
            text,
            from_lib(&back),
            expected
        );
        if expected == tree {
            c.bucket("exact");
            check!(back == lib, "{:?}: parsed alg is not equal to the original", text);
            let text2 = back.to_string();
            check!(text2 == text, "{:?} prints as {:?} after a round trip", text, text2);
        }
        // Each node on its own.
        for n in lib.nodes.iter().take(4) {
            let text = no_panic("printing a node", || n.to_string())?;
            let back = text
                .parse::<Alg>()
                .map_err(|_| format!("printed node {:?} does not parse", text))?;
            check!(
                from_lib(&back) == normalize(&[from_lib_node(n)], false),
                "node printed as {:?} parses as {:?}",
                text,
                from_lib(&back)
            );
        }
        Ok(())
    });
    with_long(ctx, "accepted texts", (60_000, 1_500_000), |c| {
        let text = some_text(c);
        let Ok(alg) = no_panic("parsing an alg", || text.parse::<Alg>())? else {
            c.bucket("rejected text");
            return Ok(());
        };
        c.distinct(&text);
        c.sample(|| json!(clip(&text, 200)));
        let printed = no_panic("printing a parsed alg", || alg.to_string())?;
        let back = printed
            .parse::<Alg>()
            .map_err(|_| format!("{:?} was parsed and printed as {:?}, which does not parse", text, printed))?;
        let tree = from_lib(&alg);
        check!(
            from_lib(&back) == tree && back == alg,
            "{:?} was parsed and printed as {:?}, which denotes {:?} instead of {:?}",
            text,
            printed,
            from_lib(&back),
            tree
        );
        let again = back.to_string();
        check!(again == printed, "{:?} prints as {:?} after a round trip", printed, again);
        Ok(())
    });
    ctx.cases("moves", 60_000, 1_000_000, |c| {
        let m = gen_move(&mut c.rng);
        let lib = to_lib_move(&m);
        let text = no_panic("printing a move", || lib.to_string())?;
        c.distinct(&text);
        c.sample(|| json!(text));
        let back = text
            .parse::<Move>()
            .map_err(|_| format!("{:?} printed as {:?} does not parse", m, text))?;
        check!(
            from_lib_move(&back) == m && back == lib,
            "{:?} printed as {:?} parses as {:?}",
            m,
            text,
            back
        );
        let q = to_lib_quantum(m.pre, &m.fam);
        let text = no_panic("printing a quantum move", || q.to_string())?;
        let back = text
            .parse::<QuantumMove>()
            .map_err(|_| format!("quantum {:?} printed as {:?} does not parse", q, text))?;
        check!(back == q, "quantum {:?} printed as {:?} parses as {:?}", q, text, back);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

pub fn canonical_text(ctx: &mut Ctx) {
    with_long(ctx, "trees", (60_000, 1_500_000), |c| {
        let tree = gen_tree(c);
        observe_tree(c, &tree);
        let expected = print(&tree);
        c.distinct(&expected);
        c.sample(|| json!(clip(&expected, 200)));
        let lib = to_lib(&tree);
        let got = no_panic("printing an alg", || lib.to_string())?;
        check!(
            got == expected,
            "{:?} prints as {:?}, canonically {:?}",
            tree,
            got,
            expected
        );
        for (n, m) in lib.nodes.iter().zip(&tree).take(6) {
            let direct = match n {
                AlgNode::MoveNode(x) => x.to_string(),
                AlgNode::PauseNode(x) => x.to_string(),
                AlgNode::NewlineNode(x) => x.to_string(),
                AlgNode::LineCommentNode(x) => x.to_string(),
                AlgNode::GroupingNode(x) => x.to_string(),
                AlgNode::CommutatorNode(x) => x.to_string(),
                AlgNode::ConjugateNode(x) => x.to_string(),
            };
            check!(
                n.to_string() == print_node(m) && direct == print_node(m),
                "node {:?} prints as {:?} / {:?}, canonically {:?}",
                m,
                n.to_string(),
                direct,
                print_node(m)
            );
        }
        Ok(())
    });
    with_long(ctx, "accepted texts", (40_000, 800_000), |c| {
        let text = some_text(c);
        let Some(tree) = parse(&text) else {
            c.bucket("rejected text");
            return Ok(());
        };
        c.distinct(&text);
        let alg = text
            .parse::<Alg>()
            .map_err(|_| format!("valid {:?} was rejected", text))?;
        let got = no_panic("printing an alg", || alg.to_string())?;
        check!(
            got == print(&tree),
            "{:?} prints as {:?}, canonically {:?}",
            text,
            got,
            print(&tree)
        );
        Ok(())
    });
    ctx.cases("moves", 60_000, 1_000_000, |c| {
        let m = gen_move(&mut c.rng);
        let expected = print_move(&m);
        c.distinct(&expected);
        c.sample(|| json!(expected));
        let got = no_panic("printing a move", || to_lib_move(&m).to_string())?;
        check!(got == expected, "{:?} prints as {:?}, canonically {:?}", m, got, expected);
        let q = to_lib_quantum(m.pre, &m.fam);
        let expected = print_quantum(m.pre, &m.fam);
        let got = q.to_string();
        check!(got == expected, "{:?} prints as {:?}, canonically {:?}", q, got, expected);
        if let Some(p) = &q.prefix {
            let got = p.to_string();
            check!(
                expected == format!("{}{}", got, m.fam),
                "prefix {:?} prints as {:?}",
                p,
                got
            );
        }
        // The same quantum, made with the constructors.
        let made = QuantumMove::new(
            m.fam.as_str(),
            match m.pre {
                Pre::None => None,
                Pre::Layer(l) => {
                    if c.rng.chance(1, 2) {
                        Some(MovePrefix::from(l))
                    } else {
                        MoveLayer::new(l).into()
                    }
                }
                Pre::Range(o, i) => {
                    if c.rng.chance(1, 2) {
                        Some(MovePrefix::from((o, i)))
                    } else {
                        MoveRange::new(o, i).into()
                    }
                }
            },
        );
        check!(
            made == q && made.to_string() == expected,
            "constructors make {:?} instead of {:?}",
            made,
            q
        );
        Ok(())
    });
    ctx.cases("comments", 10_000, 100_000, |c| {
        let mut text = gen_comment(&mut c.rng);
        if c.rng.chance(1, 2) {
            let at = c.rng.below(text.chars().count() + 1);
            let byte = text.char_indices().nth(at).map(|x| x.0).unwrap_or(text.len());
            text.insert(byte, '\n');
        }
        c.distinct(&text);
        let made = no_panic("making a comment", || LineComment::try_new(&text))?;
        if text.contains('\n') {
            check!(made.is_err(), "a comment with a newline was made: {:?}", text);
            c.bucket("comment refused");
        } else {
            let made = made.map_err(|e| format!("comment {:?} was refused: {}", text, e))?;
            check!(
                made.text() == text && made.to_string() == format!("//{}", text),
                "comment {:?} became {:?}",
                text,
                made
            );
            c.bucket("comment made");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

pub fn inversion(ctx: &mut Ctx) {
    with_long(ctx, "trees", (80_000, 2_000_000), |c| {
        let tree = gen_tree(c);
        observe_tree(c, &tree);
        let lib = to_lib(&tree);
        let copy = lib.clone();
        c.distinct(print(&tree));
        c.sample(|| json!(clip(&print(&tree), 200)));
        let inv = no_panic("inverting an alg", || lib.invert())?;
        let expected = invert(&tree);
        check!(
            from_lib(&inv) == expected,
            "the inverse of {:?} ({:?}) is {:?} instead of {:?}",
            tree,
            print(&tree),
            print(&from_lib(&inv)),
            print(&expected)
        );
        check!(lib == copy && from_lib(&lib) == tree, "inverting changed the alg {:?}", print(&tree));
        if has_inverted_tuple(&tree) || has_inverted_tuple(&expected) {
            c.bucket("involution not claimed");
        } else {
            c.bucket("involution checked");
            let back = no_panic("inverting an alg", || inv.invert())?;
            check!(
                back == lib && from_lib(&back) == tree,
                "inverting {:?} twice gives {:?}",
                print(&tree),
                print(&from_lib(&back))
            );
        }
        // The text of the inverse denotes the inverse.
        let text = no_panic("printing an inverse", || inv.to_string())?;
        let reparsed = text
            .parse::<Alg>()
            .map_err(|_| format!("the inverse of {:?} prints as {:?}, which does not parse", print(&tree), text))?;
        check!(
            from_lib(&reparsed) == normalize(&expected, false),
            "the inverse of {:?} prints as {:?}, which denotes something else",
            print(&tree),
            text
        );
        for (n, m) in lib.nodes.iter().zip(&tree).take(6) {
            let direct = match n {
                AlgNode::MoveNode(x) => AlgNode::from(x.invert()),
                AlgNode::PauseNode(x) => AlgNode::from(x.invert()),
                AlgNode::NewlineNode(x) => AlgNode::from(x.invert()),
                AlgNode::LineCommentNode(x) => AlgNode::from(x.invert()),
                AlgNode::GroupingNode(x) => AlgNode::from(x.invert()),
                AlgNode::CommutatorNode(x) => AlgNode::from(x.invert()),
                AlgNode::ConjugateNode(x) => AlgNode::from(x.invert()),
            };
            check!(
                from_lib_node(&n.invert()) == invert_node(m)
                    && from_lib_node(&direct) == invert_node(m),
                "the inverse of the node {:?} is {:?} / {:?}",
                print_node(m),
                n.invert(),
                direct
            );
        }
        Ok(())
    });
    with_long(ctx, "accepted texts", (40_000, 800_000), |c| {
        let text = some_text(c);
        let Some(tree) = parse(&text) else {
            c.bucket("rejected text");
            return Ok(());
        };
        c.distinct(&text);
        let alg = text
            .parse::<Alg>()
            .map_err(|_| format!("valid {:?} was rejected", text))?;
        let got = no_panic("inverting an alg", || alg.invert())?;
        check!(
            from_lib(&got) == invert(&tree),
            "the inverse of {:?} is {:?}",
            text,
            print(&from_lib(&got))
        );
        Ok(())
    });
    ctx.cases("moves", 40_000, 800_000, |c| {
        let m = gen_move(&mut c.rng);
        c.distinct(print_move(&m));
        let lib = to_lib_move(&m);
        let inv = no_panic("inverting a move", || lib.invert())?;
        check!(
            from_lib_move(&inv) == m.inverted(),
            "the inverse of {} is {}",
            print_move(&m),
            inv
        );
        check!(inv.invert() == lib, "inverting {} twice gives {}", lib, inv.invert());
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

pub fn builder(ctx: &mut Ctx) {
    ctx.cases("sequences", 40_000, 800_000, |c| {
        let g = GenCfg {
            max_depth: 2,
            max_len: *c.rng.pick(&[0, 1, 4, 8]),
        };
        let mut expected: Vec<N> = vec![];
        let mut kept: Vec<(Alg, Vec<N>)> = vec![];
        let mut kept_nodes: Vec<(AlgNode, N)> = vec![];
        let mut script = vec![];
        let gen = |c: &mut Case| {
            let tree = gen_alg(&mut c.rng, &g, 0);
            let lib = to_lib(&tree);
            (lib, tree)
        };
        let mut b = match c.rng.below(5) {
            0 => AlgBuilder::default(),
            1 => AlgBuilder::new(None::<&Alg>),
            2 => AlgBuilder::new(None::<&AlgNode>),
            3 => {
                let (lib, tree) = gen(c);
                let b = AlgBuilder::new(Some(&lib));
                script.push(format!("new({:?})", print(&tree)));
                expected.extend(tree.clone());
                kept.push((lib, tree));
                b
            }
            _ => {
                let tree = vec![gen_node(&mut c.rng, &g, 1)];
                let lib = to_lib(&tree);
                script.push(format!("new(node {:?})", print(&tree)));
                let b = AlgBuilder::new(Some(&lib.nodes[0]));
                expected.extend(tree);
                b
            }
        };
        let n = if c.rng.chance(1, 100) {
            c.rng.below(2_000)
        } else if c.rng.chance(1, 4_000) {
            c.rng.range(65_530, 65_550) as usize
        } else {
            c.rng.below(12)
        };
        for _ in 0..n {
            match c.rng.below(5) {
                0 | 3 => {
                    let (lib, tree) = gen(c);
                    b.push(&lib);
                    script.push(format!("push({:?})", print(&tree)));
                    expected.extend(tree.clone());
                    kept.push((lib, tree));
                }
                1 => {
                    let node = gen_node(&mut c.rng, &g, 1);
                    let lib = to_lib_node(&node);
                    b.push(&lib);
                    script.push(format!("push(node {:?})", print_node(&node)));
                    expected.push(node.clone());
                    kept_nodes.push((lib, node));
                }
                4 if !kept_nodes.is_empty() => {
                    // Push the same node again, mostly the last one, one or several times.
                    let k = if c.rng.chance(1, 2) {
                        kept_nodes.len() - 1
                    } else {
                        c.rng.below(kept_nodes.len())
                    };
                    let times = 1 + c.rng.below(3);
                    for _ in 0..times {
                        b.push(&kept_nodes[k].0);
                        expected.push(kept_nodes[k].1.clone());
                    }
                    script.push(format!("{} times push(node {:?})", times, print_node(&kept_nodes[k].1)));
                }
                _ if !kept.is_empty() => {
                    // Push the same alg again.
                    let k = c.rng.below(kept.len());
                    b.push(&kept[k].0);
                    script.push(format!("push({:?})", print(&kept[k].1)));
                    expected.extend(kept[k].1.clone());
                }
                _ => {}
            }
        }
        c.bucket_max("pushes", n as u64);
        c.bucket_n("fragments", script.len() as u64);
        let built = no_panic("building an alg", || b.to_alg())?;
        c.distinct(script.join(";"));
        c.sample(|| json!(clip(&script.join("; "), 300)));
        check!(
            from_lib(&built) == expected,
            "built {:?} from {}",
            clip(&print(&from_lib(&built)), 500),
            clip(&script.join("; "), 500)
        );
        for (lib, tree) in &kept {
            check!(from_lib(lib) == *tree, "building changed a fragment");
        }
        for (lib, node) in &kept_nodes {
            check!(from_lib_node(lib) == *node, "building changed a node");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

pub fn json(ctx: &mut Ctx) {
    with_long(ctx, "algs", (40_000, 800_000), |c| {
        let tree = gen_tree(c);
        let lib = to_lib(&tree);
        let text = print(&tree);
        c.distinct(&text);
        c.sample(|| json!(clip(&text, 200)));
        let written = no_panic("serializing an alg", || serde_json::to_string(&lib))?
            .map_err(|e| format!("{:?} can't be serialized: {}", text, e))?;
        let raw: serde_json::Value = serde_json::from_str(&written)
            .map_err(|e| format!("{:?} serialized as invalid JSON {}: {}", text, written, e))?;
        check!(
            raw.as_str() == Some(text.as_str()),
            "{:?} serialized as {}",
            text,
            written
        );
        let value = serde_json::to_value(&lib).map_err(|e| format!("to_value: {}", e))?;
        check!(value == raw, "to_value({:?}) is {}", text, value);
        let expected = normalize(&tree, false);
        let ways: [(&str, Result<Alg, serde_json::Error>); 4] = [
            ("from_str", serde_json::from_str(&written)),
            ("from_slice", serde_json::from_slice(written.as_bytes())),
            ("from_reader", serde_json::from_reader(written.as_bytes())),
            ("from_value", serde_json::from_value(raw)),
        ];
        for (how, got) in ways {
            let got = got.map_err(|e| format!("{} of {} failed: {}", how, written, e))?;
            check!(
                from_lib(&got) == expected,
                "{} of {} gives {:?}",
                how,
                written,
                print(&from_lib(&got))
            );
        }
        Ok(())
    });
    with_long(ctx, "any text", (40_000, 800_000), |c| {
        let text = some_text(c);
        let js = crate::model_puzzle::json_str(&text);
        // The same string, spelled with escapes.
        let escaped: String = text
            .encode_utf16()
            .map(|u| format!("\\u{:04x}", u))
            .collect();
        let js = if c.rng.chance(1, 4) {
            format!("\"{}\"", escaped)
        } else {
            js
        };
        c.distinct(&js);
        let expected = parse(&text);
        let got = no_panic("deserializing an alg", || serde_json::from_str::<Alg>(&js))?;
        check!(
            got.as_ref().ok().map(from_lib) == expected,
            "deserializing {} as an alg gives {:?}",
            js,
            got
        );
        let got = no_panic("deserializing an alg", || {
            serde_json::from_reader::<_, Alg>(js.as_bytes())
        })?;
        check!(
            got.as_ref().ok().map(from_lib) == expected,
            "reading {} as an alg gives {:?}",
            js,
            got
        );
        let got = no_panic("deserializing a move", || serde_json::from_str::<Move>(&js))?;
        check!(
            got.as_ref().ok().map(from_lib_move) == parse_move(&text),
            "deserializing {} as a move gives {:?}",
            js,
            got
        );
        let got = no_panic("deserializing a quantum move", || {
            serde_json::from_str::<QuantumMove>(&js)
        })?;
        check!(
            got.as_ref().ok().map(from_lib_quantum) == parse_quantum(&text),
            "deserializing {} as a quantum move gives {:?}",
            js,
            got
        );
        c.bucket(if expected.is_some() { "accepted" } else { "rejected" });
        Ok(())
    });
    ctx.cases("moves", 40_000, 800_000, |c| {
        let m = gen_move(&mut c.rng);
        let lib = to_lib_move(&m);
        let text = print_move(&m);
        c.distinct(&text);
        c.sample(|| json!(text));
        let written = no_panic("serializing a move", || serde_json::to_string(&lib))?
            .map_err(|e| format!("{:?} can't be serialized: {}", text, e))?;
        check!(
            written == crate::model_puzzle::json_str(&text),
            "move {:?} serialized as {}",
            text,
            written
        );
        let back: Move = serde_json::from_str(&written)
            .map_err(|e| format!("{} does not deserialize: {}", written, e))?;
        check!(back == lib, "move {} becomes {:?}", written, back);
        let q = to_lib_quantum(m.pre, &m.fam);
        let written = no_panic("serializing a quantum move", || serde_json::to_string(&q))?
            .map_err(|e| format!("can't be serialized: {}", e))?;
        check!(
            written == crate::model_puzzle::json_str(&print_quantum(m.pre, &m.fam)),
            "quantum {:?} serialized as {}",
            q,
            written
        );
        let back: QuantumMove = serde_json::from_str(&written)
            .map_err(|e| format!("{} does not deserialize: {}", written, e))?;
        check!(back == q, "quantum {} becomes {:?}", written, back);
        Ok(())
    });
    ctx.cases("maps", 5_000, 80_000, |c| {
        // Moves as keys, algs as values, as in definitions.
        let n = c.rng.below(12);
        let mut map: HashMap<Move, Alg> = HashMap::new();
        let mut model: HashMap<MMove, Vec<N>> = HashMap::new();
        for _ in 0..n {
            let m = gen_move(&mut c.rng);
            let g = cfg(&mut c.rng);
            let a = stable(&gen_alg(&mut c.rng, &g, 0));
            map.insert(to_lib_move(&m), to_lib(&a));
            model.insert(m, a);
        }
        let written = no_panic("serializing a map", || serde_json::to_string(&map))?
            .map_err(|e| format!("a map can't be serialized: {}", e))?;
        c.distinct({
            let mut keys: Vec<String> = model.iter().map(|(m, a)| print_move(m) + &print(a)).collect();
            keys.sort();
            keys.join("|")
        });
        c.sample(|| json!(clip(&written, 200)));
        let back: HashMap<Move, Alg> = serde_json::from_str(&written)
            .map_err(|e| format!("{} does not deserialize: {}", written, e))?;
        let back: HashMap<MMove, Vec<N>> = back
            .iter()
            .map(|(m, a)| (from_lib_move(m), from_lib(a)))
            .collect();
        check!(
            back.len() == model.len(),
            "the map {} came back with {} entries instead of {}",
            written,
            back.len(),
            model.len()
        );
        for (m, a) in &model {
            check!(
                back.get(m) == Some(a),
                "in a map, {}: {:?} came back as {:?}",
                print_move(m),
                a,
                back.get(m)
            );
        }
        Ok(())
    });
    ctx.cases("not strings", 3_000, 30_000, |c| {
        let docs = [
            "null", "1", "-1", "1.5", "true", "[]", "{}", "[\"R\"]", "{\"R\": \"U\"}", "\"R", "", "R", "'R'",
            "\"\\ud800\"", "[\"R\", \"U\"]", "\"R\" \"U\"", "\u{feff}\"R\"", "18446744073709551616",
            "{\"nodes\": []}",
        ];
        let doc = *c.rng.pick(&docs);
        c.distinct(doc);
        let a = no_panic("deserializing an alg", || serde_json::from_str::<Alg>(doc))?;
        let m = no_panic("deserializing a move", || serde_json::from_str::<Move>(doc))?;
        let q = no_panic("deserializing a quantum move", || {
            serde_json::from_str::<QuantumMove>(doc)
        })?;
        check!(
            a.is_err() && m.is_err() && q.is_err(),
            "{} was accepted: {:?} {:?} {:?}",
            doc,
            a,
            m,
            q
        );
        for e in [a.err(), m.err(), q.err()].into_iter().flatten() {
            check!(!e.to_string().is_empty(), "empty error");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn near(rng: &mut Rng, m: &MMove) -> MMove {
    let mut m = m.clone();
    match rng.below(9) {
        0 => m.amt = -m.amt,
        1 => {
            m.amt = if m.amt == i32::MAX as i64 {
                m.amt - 1
            } else {
                m.amt + 1
            }
        }
        2 => m.pre = gen_prefix(rng),
        3 => {
            m.pre = match m.pre {
                Pre::Layer(l) => Pre::Range(l, l),
                Pre::Range(o, i) => {
                    if rng.chance(1, 2) {
                        Pre::Range(i, o)
                    } else {
                        Pre::Layer(i)
                    }
                }
                Pre::None => Pre::Layer(0),
            }
        }
        4 => m.fam.push('_'),
        5 => {
            m.fam = if m.fam.chars().any(|c| c.is_ascii_lowercase()) {
                m.fam.to_ascii_uppercase()
            } else {
                m.fam.to_ascii_lowercase()
            }
        }
        6 => {
            m.pre = match m.pre {
                Pre::Range(o, i) => Pre::Range(o, i.wrapping_add(1)),
                Pre::Layer(l) => Pre::Layer(l.wrapping_add(1)),
                Pre::None => Pre::None,
            }
        }
        7 => m.amt = gen_amount(rng),
        _ => {}
    }
    m
}

pub fn equality(ctx: &mut Ctx) {
    ctx.cases("move pairs", 150_000, 2_000_000, |c| {
        let a = gen_move(&mut c.rng);
        let mut b = near(&mut c.rng, &a);
        if c.rng.chance(1, 4) {
            b = near(&mut c.rng, &b);
        }
        c.distinct(format!("{:?}{:?}", a, b));
        c.sample(|| json!([print_move(&a), print_move(&b)]));
        let (la, lb) = (to_lib_move(&a), to_lib_move(&b));
        let same = a == b;
        c.bucket(if same { "equal" } else { "different" });
        check!(
            (la == lb) == same && (lb == la) == same,
            "{:?} == {:?} is {}",
            a,
            b,
            la == lb
        );
        let (qa, qb) = (&*la.quantum, &*lb.quantum);
        let same_q = a.pre == b.pre && a.fam == b.fam;
        check!((qa == qb) == same_q, "quantum {:?} == {:?} is {}", qa, qb, qa == qb);
        check!((qa.prefix == qb.prefix) == (a.pre == b.pre), "prefix equality");
        if same {
            check!(
                hash_of(&la) == hash_of(&lb),
                "equal moves {:?} hash differently",
                a
            );
        }
        if same_q {
            check!(hash_of(qa) == hash_of(qb), "equal quantum moves {:?} hash differently", qa);
        }
        // A clone shares the quantum; a copy does not.
        let shared = Move {
            quantum: Arc::clone(&la.quantum),
            amount: la.amount,
        };
        check!(
            shared == la && hash_of(&shared) == hash_of(&la) && la.clone() == la,
            "a copy of {:?} is not equal to it",
            a
        );
        // Parsed and constructed moves are the same.
        let parsed = print_move(&a)
            .parse::<Move>()
            .map_err(|_| format!("{} does not parse", print_move(&a)))?;
        check!(
            parsed == la && hash_of(&parsed) == hash_of(&la) && (parsed == lb) == same,
            "parsed {:?} and constructed {:?} are not treated the same",
            parsed,
            la
        );
        Ok(())
    });
    // Every pair of prefixes made of boundary values, and of amounts.
    let bounds = [0u32, 1, 2, 9, 10, 0xFF, 0x100, 0xFFFF, 0x1_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF];
    let mut prefixes = vec![Pre::None];
    for a in bounds {
        prefixes.push(Pre::Layer(a));
        for b in bounds {
            prefixes.push(Pre::Range(a, b));
        }
    }
    let amounts = [0i32, 1, -1, 2, -2, 9, 10, 0xFF, 0x100, -0x100, 0xFFFF, 0x1_0000, i32::MAX, i32::MAX - 1, -i32::MAX];
    ctx.cases_exact("boundary values", prefixes.len() as u64, |c| {
        let pre = prefixes[c.idx as usize];
        let fam = *c.rng.pick(&["R", "U", "_SLASH_", "Rv"]);
        let a = to_lib_quantum(pre, fam);
        c.distinct(format!("{:?}", pre));
        for other in &prefixes {
            let b = to_lib_quantum(*other, fam);
            check!(
                (a == b) == (pre == *other) && (pre != *other || hash_of(&a) == hash_of(&b)),
                "{:?} == {:?} is {}",
                a,
                b,
                a == b
            );
            c.bucket("pairs of boundary values");
        }
        let quantum = Arc::new(a);
        for x in amounts {
            for y in amounts {
                let m = |amount| Move { quantum: quantum.clone(), amount };
                check!(
                    (m(x) == m(y)) == (x == y) && (x != y || hash_of(&m(x)) == hash_of(&m(y))),
                    "{:?} == {:?} is {}",
                    m(x),
                    m(y),
                    m(x) == m(y)
                );
                let g = |amount| Grouping {
                    alg: Arc::new(Alg { nodes: vec![m(1).into()] }),
                    amount,
                };
                check!((g(x) == g(y)) == (x == y), "groupings {} == {} is {}", g(x), g(y), g(x) == g(y));
            }
        }
        Ok(())
    });
    ctx.cases("move sets", 4_000, 60_000, |c| {
        let n = 2 + c.rng.below(30);
        let mut pool = vec![gen_move(&mut c.rng)];
        while pool.len() < n {
            let m = if c.rng.chance(2, 3) {
                let k = c.rng.below(pool.len());
                near(&mut c.rng, &pool[k].clone())
            } else {
                gen_move(&mut c.rng)
            };
            pool.push(m);
        }
        let mut model: HashMap<String, usize> = HashMap::new();
        let mut map: HashMap<Move, usize> = HashMap::new();
        let mut set: HashSet<QuantumMove> = HashSet::new();
        let mut qmodel: HashSet<(Pre, String)> = HashSet::new();
        for (i, m) in pool.iter().enumerate() {
            model.insert(format!("{:?}", m), i);
            map.insert(to_lib_move(m), i);
            set.insert(to_lib_quantum(m.pre, &m.fam));
            qmodel.insert((m.pre, m.fam.clone()));
        }
        check!(
            map.len() == model.len() && set.len() == qmodel.len(),
            "{} different moves became {} keys",
            model.len(),
            map.len()
        );
        for m in &pool {
            check!(
                map.get(&to_lib_move(m)) == model.get(&format!("{:?}", m)),
                "looking up {:?} finds another entry",
                m
            );
        }
        c.distinct(format!("{:?}", pool));
        c.bucket_n("map lookups", pool.len() as u64);
        Ok(())
    });
    with_long(ctx, "algs", (40_000, 800_000), |c| {
        let a = gen_tree(c);
        let b = perturb(&mut c.rng, &a);
        c.distinct(format!("{:?}{:?}", a, b));
        c.sample(|| json!([clip(&print(&a), 100), clip(&print(&b), 100)]));
        let (la, lb) = (to_lib(&a), to_lib(&b));
        let same = a == b;
        c.bucket(if same { "equal algs" } else { "different algs" });
        check!(
            (la == lb) == same && (lb == la) == same,
            "{:?} == {:?} is {}",
            a,
            b,
            la == lb
        );
        check!(la.clone() == la && to_lib(&a) == la, "a copy is not equal to the original");
        Ok(())
    });
    let _ = (
        std::marker::PhantomData::<(Grouping, Commutator, Conjugate)>,
        Newline {},
        Pause {},
    );
}

/// A small change somewhere in the tree (or none).
fn perturb(rng: &mut Rng, nodes: &[N]) -> Vec<N> {
    let mut out = nodes.to_vec();
    if out.is_empty() || rng.chance(1, 8) {
        if rng.chance(1, 2) {
            out.push(N::Pause);
        }
        return out;
    }
    let i = rng.below(out.len());
    match rng.below(8) {
        0 => {
            out.remove(i);
        }
        1 => {
            let j = rng.below(out.len());
            out.swap(i, j)
        }
        _ => {
            let n = out[i].clone();
            out[i] = match n {
                N::Move(m) => N::Move(near(rng, &m)),
                N::Pause => N::Newline,
                N::Newline => N::Pause,
                N::Comment(t) => {
                    if rng.chance(1, 2) {
                        N::Comment(t + " ")
                    } else {
                        N::Comment(t)
                    }
                }
                N::Group(a, amt) => match rng.below(3) {
                    0 => N::Group(a, if amt == 0 { 1 } else { -amt }),
                    1 => N::Group(perturb(rng, &a), amt),
                    _ => N::Group(vec![N::Group(a, amt)], 1),
                },
                N::Comm(a, b) => match rng.below(4) {
                    0 => N::Comm(b, a),
                    1 => N::Conj(a, b),
                    2 => N::Comm(perturb(rng, &a), b),
                    _ => N::Comm(a.clone(), perturb(rng, &b)),
                },
                N::Conj(a, b) => match rng.below(4) {
                    0 => N::Conj(b, a),
                    1 => N::Comm(a, b),
                    2 => N::Conj(perturb(rng, &a), b),
                    _ => N::Conj(a.clone(), perturb(rng, &b)),
                },
            };
        }
    }
    out
}

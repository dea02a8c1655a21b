//! Generated crates: invocations of the library's macros, checked by the compiler and at run time.
//!
//!   vh gen T02|T03 --seed N --tier T --dir DIR --harness DIR

use std::fmt::Write;
use std::path::Path;

use serde_json::json;

use super::alg::{any_text, cfg};
use crate::model_alg::*;
use crate::model_puzzle::*;
use crate::rng::{mix, Rng};

fn write(dir: &Path, name: &str, text: &str) {
    let path = dir.join(name);
    std::fs::create_dir_all(path.parent().unwrap()).expect("create a directory");
    std::fs::write(path, text).expect("write a generated file");
}

/// A Rust literal for the text.
fn literal(rng: &mut Rng, text: &str) -> String {
    let plain = text
        .chars()
        .all(|c| (' '..='~').contains(&c) || c == '\n' || ('é'..='Ω').contains(&c));
    if plain && !text.contains("\"##") && rng.chance(1, 3) {
        format!("r##\"{}\"##", text)
    } else if plain && !text.contains('\\') && !text.contains('"') && rng.chance(1, 3) {
        format!("\"{}\"", text)
    } else if rng.chance(1, 8) && !text.is_empty() && text.is_ascii() {
        // All of it escaped.
        let s: String = text.bytes().map(|b| format!("\\x{:02x}", b)).collect();
        format!("\"{}\"", s)
    } else {
        format!("{:?}", text)
    }
}

fn texts(rng: &mut Rng, n: usize, valid: bool, of_move: bool) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut tries = 0;
    while out.len() < n && tries < 200 * n {
        tries += 1;
        let t = if of_move {
            if rng.chance(2, 3) {
                let m = print_move(&gen_move(rng));
                if rng.chance(1, 4) {
                    super::alg::mutate(rng, &m)
                } else {
                    m
                }
            } else {
                any_text(rng)
            }
        } else if rng.chance(1, 2) {
            let g = cfg(rng);
            let tree = gen_alg(rng, &g, 0);
            let s = sloppy_print(rng, &tree);
            if rng.chance(1, 3) {
                super::alg::mutate(rng, &s)
            } else {
                s
            }
        } else {
            any_text(rng)
        };
        let ok = if of_move {
            parse_move(&t).is_some()
        } else {
            parse(&t).is_some()
        };
        if ok == valid && t.len() < 2_000 && !out.contains(&t) && count_nodes(&parse(&t).unwrap_or_default()) < 300 {
            out.push(t)
        }
    }
    out
}

fn macros(rng: &mut Rng, thorough: bool, dir: &Path, harness: &str) {
    let scale = if thorough { 4 } else { 1 };
    let mut algs = texts(rng, 260 * scale, true, false);
    // What would mean something else if a literal's source were taken for its value, or unescaped twice.
    for t in [
        "// a\\nb", "R // \\\\ \\t", "//\\", "// \\u{41} \\x41", "// \"quoted\" 'c'", "//\"", "// r#\"x\"#", "// {} {0} {{", "// $x #y ",
        "// \\", "//\tx\u{a0}", "// \u{feff}", "//\r", "R\nU", "// a\n// b\n",
    ] {
        algs.push(t.to_owned());
    }
    let moves = texts(rng, 260 * scale, true, true);
    let mut main = String::new();
    writeln!(
        main,
        "#![allow(dead_code, unused)]\n#[path = {:?}]\nmod model_alg;\n#[path = {:?}]\nmod rng;\n\
         use cubing::alg::{{parse_alg, parse_move, Alg, Move}};\n\
         use model_alg::*;\n\
         // Literals that come through another macro.\n\
         macro_rules! alg_through {{ ($l:literal) => {{ parse_alg!($l) }}; }}\n\
         macro_rules! move_through {{ ($t:tt) => {{ parse_move!($t) }}; }}\n\
         fn a(bad: &mut Vec<String>, text: &str, make: fn() -> Alg) {{\n\
           let r = std::panic::catch_unwind(|| {{\n\
             let (x, y) = (make(), make());\n\
             if x != y {{ return Some(\"two expansions' values differ\".to_owned()) }}\n\
             let m = model_alg::parse(text).unwrap();\n\
             if from_lib(&x) != m {{ return Some(format!(\"is {{}}\", x)) }}\n\
             if Some(&x) != text.parse::<Alg>().ok().as_ref() {{ return Some(\"differs from parsing at run time\".to_owned()) }}\n\
             None\n\
           }});\n\
           match r {{ Ok(None) => {{}}, Ok(Some(e)) => bad.push(format!(\"parse_alg!({{:?}}) {{}}\", text, e)), Err(_) => bad.push(format!(\"parse_alg!({{:?}}) panicked\", text)) }}\n\
         }}\n\
         fn m(bad: &mut Vec<String>, text: &str, make: fn() -> Move) {{\n\
           let r = std::panic::catch_unwind(|| {{\n\
             let (x, y) = (make(), make());\n\
             if x != y {{ return Some(\"two expansions' values differ\".to_owned()) }}\n\
             let m = model_alg::parse_move(text).unwrap();\n\
             if from_lib_move(&x) != m {{ return Some(format!(\"is {{}}\", x)) }}\n\
             if Some(&x) != text.parse::<Move>().ok().as_ref() {{ return Some(\"differs from parsing at run time\".to_owned()) }}\n\
             if x.invert().invert() != x {{ return Some(\"can't be inverted twice\".to_owned()) }}\n\
             None\n\
           }});\n\
           match r {{ Ok(None) => {{}}, Ok(Some(e)) => bad.push(format!(\"parse_move!({{:?}}) {{}}\", text, e)), Err(_) => bad.push(format!(\"parse_move!({{:?}}) panicked\", text)) }}\n\
         }}",
        format!("{}/src/model_alg.rs", harness),
        format!("{}/src/rng.rs", harness),
    )
    .unwrap();
    let mut uses = vec![];
    let mut n = 0;
    for (kind, list) in [("a", &algs), ("m", &moves)] {
        for chunk in list.chunks(40) {
            writeln!(main, "fn f{}(bad: &mut Vec<String>) {{", n).unwrap();
            n += 1;
            for t in chunk {
                let name = match (kind, rng.below(8)) {
                    ("a", 0) => "alg_through!",
                    ("m", 0) => "move_through!",
                    ("a", 1) => "cubing::alg::parse_alg!",
                    ("m", 1) => "cubing::alg::parse_move!",
                    ("a", _) => "parse_alg!",
                    _ => "parse_move!",
                };
                // The text on a line of its own: a refusal is reported for that line.
                let lit = literal(rng, t);
                let start = main.matches('\n').count() + 1;
                writeln!(main, "{}(bad, {:?}, || {}({}));", kind, t, name, lit).unwrap();
                let end = main.matches('\n').count();
                uses.push(json!({"kind": kind, "text": t, "from": start, "to": end}));
            }
            writeln!(main, "}}").unwrap();
        }
    }
    writeln!(main, "fn main() {{ std::panic::set_hook(Box::new(|_| {{}})); let mut bad = vec![];").unwrap();
    for i in 0..n {
        writeln!(main, "f{}(&mut bad);", i).unwrap();
    }
    writeln!(
        main,
        "for b in &bad {{ println!(\"BAD {{}}\", b.replace('\\n', \"\\\\n\")); }} println!(\"DONE {}\"); }}",
        algs.len() + moves.len()
    )
    .unwrap();
    write(dir, "src/main.rs", &main);
    // What has to be refused, at compile time.
    let mut bad = String::from(
        "#![allow(unused)]\nuse cubing::alg::{parse_alg, parse_move};\nmacro_rules! through { ($l:literal) => { parse_alg!($l) }; }\nfn f() {\n",
    );
    let mut refused = vec![];
    let mut add = |bad: &mut String, kind: &str, invocation: String| {
        let start = bad.matches('\n').count() + 1;
        bad.push_str(&format!("let _ = {};\n", invocation));
        let end = bad.matches('\n').count();
        refused.push(json!({"kind": kind, "text": invocation, "from": start, "to": end}));
    };
    for t in texts(rng, 200 * scale, false, false) {
        let lit = literal(rng, &t);
        let through = rng.chance(1, 10);
        add(&mut bad, "alg", format!("{}!({})", if through { "through" } else { "parse_alg" }, lit));
    }
    for t in texts(rng, 200 * scale, false, true) {
        let lit = literal(rng, &t);
        add(&mut bad, "move", format!("parse_move!({})", lit));
    }
    for odd in [
        "", "5", "'R'", "R", "\"R\" \"U\"", "\"R\", \"U\"", "b\"R\"", "concat!(\"R\", \"U\")", "&\"R\"", "\"R\";",
    ] {
        add(&mut bad, "no text", format!("parse_alg!({})", odd));
        add(&mut bad, "no text", format!("parse_move!({})", odd));
    }
    bad.push_str("}\n");
    write(dir, "src/bin/refused.rs", &bad);
    write(dir, "uses.json", &json!({"valid": uses, "refused": refused}).to_string());
}

fn loaders(rng: &mut Rng, thorough: bool, dir: &Path, harness: &str) {
    let n = if thorough { 40 } else { 14 };
    let mut main = String::new();
    let mut checks = String::new();
    let mut n_counters = 0;
    writeln!(
        main,
        "#![allow(dead_code, unused)]\n#[path = {:?}]\nmod model_alg;\n#[path = {:?}]\nmod model_puzzle;\n#[path = {:?}]\nmod rng;\n#[path = {:?}]\nmod support;",
        format!("{}/src/model_alg.rs", harness),
        format!("{}/src/model_puzzle.rs", harness),
        format!("{}/src/rng.rs", harness),
        format!("{}/gen/support.rs", harness),
    )
    .unwrap();
    main.push_str(
        "use cubing::kpuzzle::{kpattern_from_json_file, kpuzzle_from_json_file, ktransformation_from_json_file, KPuzzle};\n\
         use support::*;\n",
    );
    for i in 0..n {
        let c = DefCfg {
            max_orbits: 3,
            max_pieces: 12,
            max_moves: 4,
            max_derived: 3,
            big: rng.chance(1, 8),
            plain_keys: false,
        };
        let def = gen_def(rng, &c);
        write(dir, &format!("src/p{}.json", i), &def.to_json());
        // Names repeat across modules; visibilities differ.
        let (open, close, path) = match rng.below(3) {
            0 => (String::new(), "", String::new()),
            1 => (format!("mod m{} {{ use super::*;\n", i), "}\n", format!("m{}::", i)),
            _ => (format!("pub mod q{} {{ use super::*;\n", i), "}\n", format!("q{}::", i)),
        };
        let name = if path.is_empty() { format!("thing{}", i) } else { "thing".to_owned() };
        let vis = if path.is_empty() {
            *rng.pick(&["pub(crate)", "pub", ""])
        } else {
            *rng.pick(&["pub(crate)", "pub", "pub(super)"])
        };
        main.push_str(&open);
        writeln!(main, "kpuzzle_from_json_file!({}, {}, \"p{}.json\");", vis, name, i).unwrap();
        let puzzle = format!("{}{}_kpuzzle", path, name);
        writeln!(
            checks,
            "puzzle({:?}, {}, include_bytes!(\"p{}.json\"), t);",
            format!("puzzle {}", i),
            puzzle,
            i
        )
        .unwrap();
        for k in 0..2 {
            let pat = gen_pat(rng, &def.orbits);
            let has = pat.mods_needed();
            write(dir, &format!("src/x{}_{}.json", i, k), &pat.to_json(&def.orbits, &has));
            let t = gen_trans(rng, &def.orbits);
            write(dir, &format!("src/t{}_{}.json", i, k), &t.to_json(&def.orbits));
            // The same name for all kinds of things.
            let item = if k == 0 { name.clone() } else { format!("{}_{}", name, k) };
            // The puzzle may be had through another embedded value, so that the first use of one
            // is the first use of the other as well.
            let through = |own: bool, rng: &mut Rng| match rng.below(if k == 0 && !own { 2 } else { 4 }) {
                0 => format!("{}_kpuzzle()", name),
                1 => format!("{{ let p = {}_kpuzzle(); p }}", name),
                2 => format!("{}_kpattern().kpuzzle()", name),
                _ if k == 0 => format!("{}_kpattern().kpuzzle()", name),
                _ => format!("{}_ktransformation().kpuzzle()", name),
            };
            let (mut for_pattern, mut for_transformation) = (through(false, rng), through(true, rng));
            // The expression for the puzzle counts how often it is evaluated.
            let counter = n_counters;
            n_counters += 2;
            for (k, e) in [&mut for_pattern, &mut for_transformation].into_iter().enumerate() {
                *e = format!("{{ evaluated({}); {} }}", counter + k, e);
            }
            writeln!(
                main,
                "kpattern_from_json_file!({}, {}, \"x{}_{}.json\", {});\nktransformation_from_json_file!({}, {}, \"t{}_{}.json\", {});",
                vis, item, i, k, for_pattern, vis, item, i, k, for_transformation
            )
            .unwrap();
            writeln!(
                checks,
                "pattern({:?}, {}{}_kpattern, {}, include_bytes!(\"x{}_{}.json\"), {}, t);\ntransformation({:?}, {}{}_ktransformation, {}, include_bytes!(\"t{}_{}.json\"), {}, t);",
                format!("pattern {} {}", i, k), path, item, puzzle, i, k, counter,
                format!("transformation {} {}", i, k), path, item, puzzle, i, k, counter + 1
            )
            .unwrap();
        }
        main.push_str(close);
    }
    // Files that do not hold what they should: every use fails, none gives a value.
    write(dir, "src/bad_puzzle.json", "{\"name\": \"x\"}");
    write(dir, "src/bad_data.json", "{}");
    let some = one_orbit_def();
    write(dir, "src/some.json", &some.to_json());
    main.push_str(
        "kpuzzle_from_json_file!(pub(crate), some, \"some.json\");\n\
         kpuzzle_from_json_file!(pub(crate), bad, \"bad_puzzle.json\");\n\
         kpattern_from_json_file!(pub(crate), bad, \"bad_data.json\", some_kpuzzle());\n\
         ktransformation_from_json_file!(pub(crate), bad, \"bad_data.json\", some_kpuzzle());\n",
    );
    checks.push_str(
        "refuses(\"bad puzzle\", || { bad_kpuzzle(); });\nrefuses(\"bad pattern\", || { bad_kpattern(); });\nrefuses(\"bad transformation\", || { bad_ktransformation(); });\n",
    );
    let lines: Vec<&str> = checks.lines().collect();
    writeln!(main, "fn main() {{ run(&[").unwrap();
    for l in &lines {
        writeln!(main, "|t: &mut Track| {{ {} }},", l).unwrap();
    }
    writeln!(main, "]) }}").unwrap();
    write(dir, "src/main.rs", &main);
    write(dir, "uses.json", &json!({"loaders": lines.len()}).to_string());
}

fn one_orbit_def() -> MDef {
    MDef {
        name: "some".into(),
        orbits: vec![MOrbit {
            name: "A".into(),
            np: 2,
            no: 1,
        }],
        default: MPat(vec![vec![(0, 0, 0), (1, 0, 0)]]),
        default_has_mod: vec![false],
        moves: vec![(mv("R", 1), MTrans(vec![vec![(1, 0), (0, 0)]]))],
        derived: None,
    }
}

pub fn generate(what: &str, seed: u64, thorough: bool, dir: &str, harness: &str) {
    let mut rng = Rng::new(mix(seed) ^ what.len() as u64);
    let dir = Path::new(dir);
    match what {
        "T02" => macros(&mut rng, thorough, dir, harness),
        "T03" => loaders(&mut rng, thorough, dir, harness),
        _ => {
            eprintln!("nothing to generate for {}", what);
            std::process::exit(2)
        }
    }
    let name = what.to_lowercase();
    write(
        dir,
        "Cargo.toml",
        &format!(
            "[package]\nname = \"gen_{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[workspace]\n\n[dependencies]\ncubing = {{ path = \"/repo/cubing\" }}\ncubing_core = {{ path = \"/repo/cubing_core\" }}\nserde_json = \"1.0\"\n\n[[bin]]\nname = \"gen_{}\"\npath = \"src/main.rs\"\n",
            name, name
        ),
    );
}

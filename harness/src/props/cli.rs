//! The command line tool `alg` (its path is in VH_CLI), run as users run it.

use std::ffi::OsString;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use serde_json::json;

use super::alg::{any_text, EXTRAS};
use super::process::{run_tool, In, Out};
use crate::check;
use crate::ctx::{clip, Case, Ctx, R};
use crate::model_alg::*;

fn run(args: &[OsString], input: In) -> Result<Out, String> {
    run_tool("VH_CLI", "alg", args, input)
}

fn os(s: &str) -> OsString {
    OsString::from(s)
}

/// What both subcommands have to do with a text.
fn expect(c: &mut Case, invert_it: bool, model: &Option<Vec<N>>, o: &Out, shown: &str) -> R {
    let what = if invert_it { "invert" } else { "parse" };
    match model {
        Some(tree) => {
            check!(
                o.code == 0,
                "alg {} exits with {} for the alg {:?}: {}",
                what,
                o.code,
                shown,
                clip(&o.err, 300)
            );
            let expected = if invert_it {
                format!("{}\n", print(&invert(tree)))
            } else {
                String::new()
            };
            check!(
                o.out == expected,
                "alg {} prints {:?} for {:?}, not {:?}",
                what,
                clip(&o.out, 600),
                shown,
                clip(&expected, 600)
            );
            c.bucket(&format!("{}: accepted", what));
        }
        None => {
            check!(
                o.code == 1,
                "alg {} exits with {} for {:?}, which is no alg",
                what,
                o.code,
                shown
            );
            check!(
                o.out.is_empty(),
                "alg {} prints {:?} for {:?}, which is no alg",
                what,
                clip(&o.out, 600),
                shown
            );
            check!(
                !o.err.trim().is_empty(),
                "alg {} refuses {:?} without a word",
                what,
                shown
            );
            c.bucket(&format!("{}: refused", what));
        }
    }
    Ok(())
}

fn text_for(c: &mut Case) -> String {
    let mut text = plain_text_for(c);
    if c.rng.chance(1, 10) {
        // What other tools leave at the ends.
        let extra = *c.rng.pick(EXTRAS);
        if c.rng.chance(1, 2) {
            text.insert_str(0, extra);
        } else {
            text.push_str(extra);
        }
    }
    text
}

fn plain_text_for(c: &mut Case) -> String {
    if c.rng.chance(1, 2) {
        let g = super::alg::cfg(&mut c.rng);
        let t = gen_alg(&mut c.rng, &g, 0);
        sloppy_print(&mut c.rng, &t)
    } else {
        any_text(&mut c.rng)
    }
}

pub fn cli(ctx: &mut Ctx) {
    ctx.cases("argument", 1_600, 30_000, |c| {
        let text = text_for(c);
        if text.contains('\0') || text.len() > 100_000 {
            return Ok(());
        }
        let invert_it = c.rng.chance(2, 3);
        let mut args = vec![os(if invert_it { "invert" } else { "parse" })];
        if text.starts_with('-') || c.rng.chance(1, 4) {
            args.push(os("--"));
        }
        args.push(os(&text));
        c.distinct(format!("{}{}", invert_it, text));
        c.sample(|| json!({"invert": invert_it, "text": clip(&text, 200)}));
        // What waits on standard input is not asked for.
        let input = if c.rng.chance(1, 4) {
            c.bucket("argument, with something else on standard input");
            In::Bytes(b"F' D2\n".to_vec(), vec![])
        } else {
            In::Nothing
        };
        let o = run(&args, input)?;
        let model = parse(&text);
        expect(c, invert_it, &model, &o, &clip(&text, 300))?;
        // The output is an alg that the tool takes again.
        if invert_it && model.is_some() {
            let out = o.out.strip_suffix('\n').unwrap_or(&o.out).to_owned();
            let back = run(&[os("invert"), os("--"), os(&out)], In::Nothing)?;
            expect(c, true, &parse(&out), &back, &clip(&out, 300))?;
            c.bucket("inverted twice");
        }
        Ok(())
    });
    ctx.cases("words with a meaning elsewhere", 148, 592, |c| {
        let words = [
            "-",
            "--",
            "--stdin",
            "-h",
            "--help",
            "-V",
            "@/dev/stdin",
            "/dev/stdin",
            "@-",
            "~",
            "$HOME",
            "*",
            "/dev/null",
            "",
            " ",
            "\n",
            "help",
            "parse",
            "stdin",
            "/",
            "//",
            "/etc/hostname",
            "R\\nU",
            "R U // a\\nF",
            "R\\tU",
            "R\\x20U",
            "R\\\nU",
            "R%20U",
            "R+U",
            "R&#39;",
            "\"R U\"",
            "'R U'",
            "R;U",
            "R,U",
            "R\\ U",
            "R\r\nU",
            "R\u{2019}",
        ];
        let n = c.idx as usize;
        let text = words[n % words.len()];
        let invert_it = (n / words.len()) % 2 == 1;
        let mut args = vec![os(if invert_it { "invert" } else { "parse" })];
        if text == "-" && c.rng.chance(1, 2) {
            // Needs no protection.
        } else {
            args.push(os("--"));
        }
        args.push(os(text));
        c.distinct(format!("{:?}", args));
        let input = if (n / words.len() / 2) % 2 == 0 {
            In::Bytes(b"F' D2\n".to_vec(), vec![])
        } else {
            In::Nothing
        };
        let o = run(&args, input)?;
        expect(c, invert_it, &parse(text), &o, text)
    });
    ctx.cases("standard input", 1_200, 20_000, |c| {
        let mut text = text_for(c);
        if c.rng.chance(1, 3) {
            text.push('\n');
        }
        // Beyond the size of a pipe's buffer, now and then.
        if c.rng.chance(1, 60) {
            let n = 2_000 + c.rng.below(40_000);
            text = "R U' F2 (L D)3 ".repeat(n / 4);
        }
        let invert_it = c.rng.chance(2, 3);
        let args = [
            os(if invert_it { "invert" } else { "parse" }),
            os("--stdin"),
        ];
        c.distinct(format!("{}{}", invert_it, text));
        c.sample(|| json!({"invert": invert_it, "stdin": clip(&text, 200)}));
        let pieces: Vec<usize> = (0..c.rng.below(5)).map(|_| c.rng.below(9)).collect();
        c.bucket_n("interrupted reads", pieces.len() as u64);
        let o = run(&args, In::Bytes(text.clone().into_bytes(), pieces))?;
        let model = parse(&text);
        expect(c, invert_it, &model, &o, &clip(&text, 300))
    });
    // Far beyond any buffer: what is read is all there is, and what is printed as well.
    ctx.cases("very long standard input", 4, 16, |c| {
        let size = *c.rng.pick(&[700_000usize, 1_048_576, 2_100_000, 5_000_000]);
        let unit = *c.rng.pick(&["R U' F2 (L D)3 ", "R\n", "[R, U2']: ", "// a comment\n"]);
        let unit = if unit.ends_with(": ") { "[R, U2'] . " } else { unit };
        let mut text = unit.repeat(size / unit.len());
        // Only the end tells what the text is.
        let wrong = c.idx % 4 == 3;
        text.push_str(if wrong { "(R" } else { "B3 D'" });
        let invert_it = c.idx % 4 != 1;
        let args = [os(if invert_it { "invert" } else { "parse" }), os("--stdin")];
        c.distinct(format!("{} {} {} {}", unit, size, wrong, invert_it));
        c.sample(|| json!({"unit": unit, "bytes": text.len(), "wrong": wrong}));
        let model = parse(&text);
        let o = run(&args, In::Bytes(text.into_bytes(), vec![]))?;
        c.bucket("very long inputs");
        expect(c, invert_it, &model, &o, "a very long text")
    });
    ctx.cases("unreadable input", 150, 2_000, |c| {
        let invert_it = c.rng.chance(1, 2);
        let args = [
            os(if invert_it { "invert" } else { "parse" }),
            os("--stdin"),
        ];
        let o = if c.rng.chance(1, 10) {
            run(&args, In::Directory)?
        } else {
            let mut b = text_for(c).into_bytes();
            let at = c.rng.below(b.len() + 1);
            let bad: &[&[u8]] = &[
                b"\xff",
                b"\xc3",
                b"\xe2\x82",
                b"\xf0\x9f\x98",
                b"\xed\xa0\x80",
                b"\x80",
            ];
            let bad = *c.rng.pick(bad);
            b.splice(at..at, bad.iter().copied());
            if std::str::from_utf8(&b).is_ok() {
                return Ok(());
            }
            c.distinct(&b);
            let pieces = vec![at, 1];
            run(&args, In::Bytes(b, pieces))?
        };
        check!(
            o.code == 1 && o.out.is_empty() && !o.err.trim().is_empty(),
            "unreadable input: exit code {}, output {:?}, error {:?}",
            o.code,
            clip(&o.out, 200),
            clip(&o.err, 200)
        );
        c.bucket("unreadable input refused");
        Ok(())
    });
    // An inverse that cannot be written must not look like one that was.
    ctx.cases("unwritable output", 60, 1_000, |c| {
        let text = text_for(c);
        if parse(&text).is_none() || text.contains('\0') || text.len() > 50_000 {
            return Ok(());
        }
        c.distinct(&text);
        let mut cmd = Command::new(std::env::var_os("VH_CLI").expect("VH_CLI is not set"));
        cmd.env_clear().stderr(Stdio::null());
        let by_stdin = c.rng.chance(1, 2);
        if by_stdin {
            cmd.args(["invert", "--stdin"]).stdin(Stdio::piped());
        } else {
            cmd.args(["invert", "--", &text]).stdin(Stdio::null());
        }
        let closed = c.rng.chance(1, 2);
        if closed {
            // A pipe that nobody reads.
            let (reader, writer) = std::io::pipe().map_err(|e| e.to_string())?;
            drop(reader);
            cmd.stdout(writer);
        } else {
            let full = std::fs::OpenOptions::new().write(true).open("/dev/full");
            cmd.stdout(full.map_err(|e| e.to_string())?);
        }
        let mut child = cmd.spawn().map_err(|e| e.to_string())?;
        drop(cmd);
        if let Some(mut w) = child.stdin.take() {
            let _ = w.write_all(text.as_bytes());
        }
        let status = child.wait().map_err(|e| e.to_string())?;
        check!(
            !status.success(),
            "alg invert of {:?} reports success although its output could not be written ({})",
            clip(&text, 300),
            if closed { "pipe closed" } else { "device full" }
        );
        c.bucket("unwritable output reported");
        Ok(())
    });
    ctx.cases("usage", 250, 2_000, |c| {
        let sub = *c.rng.pick(&["parse", "invert"]);
        let mut bad = b"R".to_vec();
        bad.push(0xff);
        let (args, ok): (Vec<OsString>, bool) = match c.rng.below(14) {
            0 => (vec![], false),
            1 => (vec![os(sub)], false),
            2 => (vec![os(sub), os("R U"), os("--stdin")], false),
            3 => (vec![os(sub), os("--stdin"), os("R U")], false),
            4 => (vec![os(sub), os("R"), os("U")], false),
            5 => (vec![os("nope"), os("R")], false),
            6 => (vec![os(sub), os("--nope")], false),
            7 => (vec![os(sub), OsString::from_vec(bad)], false),
            8 => (vec![os("completions")], false),
            9 => (vec![os("completions"), os("nope")], false),
            10 => (vec![os("--help")], true),
            11 => (vec![os("--version")], true),
            12 => (vec![os(sub), os("--help")], true),
            _ => {
                let shell = *c.rng.pick(&["bash", "zsh", "fish", "elvish", "powershell"]);
                let o = run(&[os("completions"), os(shell)], In::Nothing)?;
                check!(
                    o.code == 0
                        && ["parse", "invert", "completions", "stdin"]
                            .iter()
                            .all(|w| o.out.contains(w)),
                    "alg completions {}: exit code {}, output {:?}",
                    shell,
                    o.code,
                    clip(&o.out, 300)
                );
                // They are for this command.
                let registers = match shell {
                    "bash" => "complete -F _alg ",
                    "zsh" => "#compdef alg\n",
                    "fish" => "complete -c alg ",
                    "elvish" => "arg-completer[alg]",
                    _ => "-CommandName 'alg'",
                };
                check!(
                    o.out.contains(registers),
                    "alg completions {} are not for the command alg: {:?}",
                    shell,
                    clip(&o.out, 300)
                );
                c.distinct(shell);
                c.bucket("completions");
                return Ok(());
            }
        };
        c.distinct(format!("{:?}", args));
        let o = run(&args, In::Nothing)?;
        if ok {
            check!(
                o.code == 0 && !o.out.trim().is_empty(),
                "alg {:?}: exit code {}, output {:?}",
                args,
                o.code,
                clip(&o.out, 300)
            );
            c.bucket("help");
        } else {
            check!(
                o.code != 0 && o.out.is_empty() && !o.err.trim().is_empty(),
                "alg {:?}: exit code {}, output {:?}, error {:?}",
                args,
                o.code,
                clip(&o.out, 300),
                clip(&o.err, 300)
            );
            c.bucket("wrong usage refused");
        }
        Ok(())
    });
}

//! The harness: runs the real library under observation.
//!
//!   vh run PROP --seed N --tier quick|thorough --shard I/N --out FILE --blackbox FILE
//!      [--max-secs S] [--scale F] [--only STREAM,STREAM]
//!   vh replay PROP STREAM INDEX --seed N --tier T
//!   vh probe NAME
//!   vh gen T02|T03 --seed N --tier T --dir DIR --harness DIR
//!
//! Exit code 0: finished (the report tells whether there were violations). 96, 97: see `ctx`.

#![allow(dead_code, unused_imports)]

mod alloc;
mod ctx;
mod model_alg;
mod model_puzzle;
mod props;
mod rng;

use std::time::{Duration, Instant};

use ctx::Ctx;

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .map(|s| s.as_str())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: vh run|replay|probe …");
        std::process::exit(2)
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("run") | Some("replay") => {}
        Some("probe") => {
            let Some(name) = args.get(2) else { usage() };
            return props::misc::probe(name);
        }
        #[cfg(feature = "g_gen")]
        Some("gen") => {
            let (Some(what), Some(dir), Some(harness)) =
                (args.get(2), arg(&args, "--dir"), arg(&args, "--harness"))
            else {
                usage()
            };
            let seed = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = arg(&args, "--tier") == Some("thorough");
            return props::generate::generate(what, seed, thorough, dir, harness);
        }
        _ => usage(),
    }
    let replay = args[1] == "replay";
    let Some(prop) = args.get(2) else { usage() };
    let seed = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg(&args, "--tier") == Some("thorough");
    let mut ctx = Ctx::new(prop, seed, thorough);
    if let Some(s) = arg(&args, "--shard") {
        let (i, n) = s.split_once('/').expect("--shard I/N");
        ctx.shard = i.parse().unwrap();
        ctx.shards = n.parse().unwrap();
    }
    if let Some(s) = arg(&args, "--scale") {
        ctx.scale = s.parse().unwrap();
    }
    if let Some(s) = arg(&args, "--max-secs") {
        ctx.deadline = Some(Instant::now() + Duration::from_secs(s.parse().unwrap()));
    }
    if let Some(s) = arg(&args, "--only") {
        ctx.streams = Some(s.split(',').map(|s| s.to_owned()).collect());
    }
    if replay {
        let stream = args.get(3).expect("stream").clone();
        let idx = args.get(4).and_then(|s| s.parse().ok()).expect("index");
        ctx.only = Some((stream, idx));
    }
    ctx::install_panic_hook();
    #[cfg(not(miri))]
    {
        if let Some(s) = arg(&args, "--blackbox") {
            ctx::open_blackbox(s);
        }
        if let Some(how) = arg(&args, "--quiet") {
            // Nothing the library does may depend on whether standard error can be written to.
            ctx::silence_stderr(if how == "2" { "/dev/full" } else { "/dev/null" });
        }
        if let Some(s) = arg(&args, "--cpu-limit") {
            ctx::CPU_LIMIT_SECS.store(s.parse().unwrap(), std::sync::atomic::Ordering::Relaxed);
        }
        ctx::start_watchdog();
    }
    // Debug builds need more stack than release builds; give both the same, generous amount.
    let ctx = {
        #[cfg(not(miri))]
        {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut ctx = ctx;
                    if !props::run(&mut ctx) {
                        eprintln!("no such property");
                        std::process::exit(2)
                    }
                    ctx
                })
                .unwrap()
                .join()
                .unwrap()
        }
        #[cfg(miri)]
        {
            let mut ctx = ctx;
            if !props::run(&mut ctx) {
                eprintln!("no such property");
                std::process::exit(2)
            }
            ctx
        }
    };
    let report = ctx.report();
    if let Some(out) = arg(&args, "--out") {
        std::fs::write(out, report.to_string()).expect("write the report");
        let mut bytes = Vec::with_capacity(ctx.distinct.len() * 8);
        for h in &ctx.distinct {
            bytes.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(format!("{}.distinct", out), bytes).expect("write the report");
    } else {
        println!("{}", report);
    }
    if replay {
        if ctx.violations.is_empty() {
            println!("no violation");
        } else {
            std::process::exit(1)
        }
    }
}

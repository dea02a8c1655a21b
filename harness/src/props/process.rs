//! Running the programs of the repository.

use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::check;
use crate::ctx::clip;

pub enum In {
    Nothing,
    /// Written in pieces of these sizes, with pauses in between.
    Bytes(Vec<u8>, Vec<usize>),
    Directory,
}

pub struct Out {
    pub code: i32,
    pub out: String,
    pub err: String,
}

/// Runs the program whose path is in the environment variable.
pub fn run_tool(var: &str, name: &str, args: &[OsString], input: In) -> Result<Out, String> {
    let exe = std::env::var_os(var).expect("the path of the program is not set");
    let shown: Vec<String> = args
        .iter()
        .map(|a| clip(&format!("{:?}", a), 200))
        .collect();
    let mut cmd = Command::new(exe);
    cmd.args(args)
        .env_clear()
        .env("RUST_BACKTRACE", "0")
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    match &input {
        In::Nothing => cmd.stdin(Stdio::null()),
        In::Bytes(..) => cmd.stdin(Stdio::piped()),
        In::Directory => cmd.stdin(std::fs::File::open("/").map_err(|e| e.to_string())?),
    };
    let mut child = cmd.spawn().expect("start the tool");
    let mut stdin = child.stdin.take();
    let mut stdout = child.stdout.take().unwrap();
    let mut stderr = child.stderr.take().unwrap();
    let (out, err, finished) = std::thread::scope(|s| {
        let writer = s.spawn(move || {
            if let (Some(mut w), In::Bytes(b, pieces)) = (stdin.take(), input) {
                let mut at = 0;
                for n in pieces {
                    let end = (at + n).min(b.len());
                    // The tool may be gone already.
                    let _ = w.write_all(&b[at..end]).and_then(|_| w.flush());
                    at = end;
                    std::thread::sleep(Duration::from_micros(300));
                }
                let _ = w.write_all(&b[at..]);
            }
        });
        let o = s.spawn(move || {
            let mut v = vec![];
            let _ = stdout.read_to_end(&mut v);
            v
        });
        let e = s.spawn(move || {
            let mut v = vec![];
            let _ = stderr.read_to_end(&mut v);
            v
        });
        let start = Instant::now();
        let finished = loop {
            match child.try_wait().expect("wait for the tool") {
                Some(status) => break Some(status),
                None if start.elapsed() > Duration::from_secs(120) => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                None => std::thread::sleep(Duration::from_micros(200)),
            }
        };
        let _ = writer.join();
        (o.join().unwrap(), e.join().unwrap(), finished)
    });
    let Some(status) = finished else {
        return Err(format!("{} {:?} does not end", name, shown));
    };
    if let Some(signal) = status.signal() {
        return Err(format!(
            "{} {:?} was killed by signal {}",
            name, shown, signal
        ));
    }
    let (out, err) = (
        String::from_utf8(out)
            .map_err(|_| format!("{} {:?} wrote bytes that are no UTF-8", name, shown))?,
        String::from_utf8_lossy(&err).into_owned(),
    );
    let code = status.code().unwrap_or(-1);
    check!(
        code != 101 && !err.contains("panicked at"),
        "{} {:?} panicked: {}",
        name,
        shown,
        clip(&err, 500)
    );
    Ok(Out { code, out, err })
}

//! The real svgcleaner binary in a scratch directory.

use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// The binary built from /repo by run.sh.
pub fn exe() -> PathBuf {
    match std::env::var("SVGCLEANER_BIN") { Ok(p) => PathBuf::from(p), Err(_) => std::env::current_exe().unwrap().with_file_name("svgcleaner") }
}

/// A directory that is removed in the end.
pub struct Scratch(pub PathBuf);

static N: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::var("SVGCHECK_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let p = base.join(format!("svgcheck.run.{}.{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self, n: &str) -> PathBuf { self.0.join(n) }
}

impl Drop for Scratch {
    fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); }
}

#[derive(Debug, Clone)]
pub struct Run { pub code: Option<i32>, pub signal: bool, pub out: Vec<u8>, pub err: Vec<u8>, pub hang: bool }

impl Run {
    pub fn stderr(&self) -> String { String::from_utf8_lossy(&self.err).to_string() }
    /// Why the run itself is a failure, whatever it was asked to do.
    pub fn crash(&self) -> Option<String> {
        if self.hang { return Some("the binary does not terminate".into()); }
        if self.signal { return Some(format!("the binary was killed by a signal: {}", self.stderr())); }
        if self.code == Some(101) || self.stderr().contains("panicked at") { return Some(format!("the binary panicked: {}", self.stderr())); }
        None
    }
}

/// Runs the binary in `dir`. `input` is written to its standard input in pieces of `chunk` bytes.
pub fn run(dir: &Path, args: &[std::ffi::OsString], input: Option<&[u8]>, chunk: usize, fsize: Option<u64>) -> Run {
    let mut cmd = Command::new("sh");
    let lim = match fsize { Some(k) => format!("trap '' XFSZ; ulimit -f {}; ", k), None => String::new() };
    cmd.arg("-c").arg(format!("ulimit -c 0; {}exec \"$0\" \"$@\"", lim)).arg(exe()).args(args).current_dir(dir)
        .stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = cmd.spawn().expect("can't run the binary");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let to = std::thread::spawn(move || { let mut v = vec![]; let _ = so.read_to_end(&mut v); v });
    let te = std::thread::spawn(move || { let mut v = vec![]; let _ = se.read_to_end(&mut v); v });
    if let (Some(mut w), Some(d)) = (ch.stdin.take(), input) {
        for c in d.chunks(chunk.max(1)) { if w.write_all(c).is_err() { break; } }
    }
    let t0 = Instant::now();
    let mut hang = false;
    let mut wait = 200u64;
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() { break Some(s); }
        if t0.elapsed() > Duration::from_secs(20) { let _ = ch.kill(); let _ = ch.wait(); hang = true; break None; }
        std::thread::sleep(Duration::from_micros(wait));
        wait = (wait * 2).min(20_000);
    };
    let out = to.join().unwrap();
    let err = te.join().unwrap();
    let code = st.and_then(|s| s.code());
    Run { code, signal: st.is_some() && code.is_none(), out, err, hang }
}

pub fn os(a: &[String]) -> Vec<std::ffi::OsString> { a.iter().map(|x| x.into()).collect() }

//! Runs a property: worker processes over case indices, crash/hang attribution, shrinking, evidence, replay files.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::props::{self, Info, Prop};
use crate::rng::{hash_bytes, Rng};
use crate::shrink::{self, Case};

pub fn root() -> PathBuf { Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf() }

fn scratch_root() -> PathBuf { std::env::temp_dir() }

pub fn case_hash(c: &Case) -> u64 {
    let mut b = c.svg.as_bytes().to_vec();
    for a in &c.args { b.push(0); b.extend_from_slice(a.as_bytes()); }
    hash_bytes(&b)
}

pub fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r") }
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some('r') => o.push('\r'), Some(x) => o.push(x), None => {} } } else { o.push(c); }
    }
    o
}

// ---- replay files ---------------------------------------------------------

pub fn write_replay(path: &Path, prop: &str, c: &Case, msg: &str) {
    let mut s = String::from("svgcheck-replay 1\n");
    s.push_str(&format!("property: {}\n", prop));
    for a in &c.args { s.push_str(&format!("arg: {}\n", esc(a))); }
    s.push_str(&format!("message: {}\n---\n", esc(msg)));
    s.push_str(&c.svg);
    if let Some(d) = path.parent() { let _ = fs::create_dir_all(d); }
    fs::write(path, s).expect("can't write a replay file");
}

pub fn read_replay(path: &Path) -> Result<(String, Case, String), String> {
    let t = fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    let k = t.find("\n---\n").ok_or("not a replay file")?;
    let (mut prop, mut args, mut msg) = (String::new(), vec![], String::new());
    for l in t[..k].lines() {
        if let Some(x) = l.strip_prefix("property: ") { prop = x.to_string(); }
        else if let Some(x) = l.strip_prefix("arg: ") { args.push(unesc(x)); }
        else if let Some(x) = l.strip_prefix("message: ") { msg = unesc(x); }
    }
    Ok((prop, Case { svg: t[k + 5..].to_string(), args }, msg))
}

// ---- one case ----------------------------------------------------------------

/// Runs a check; a panic inside of the check machinery itself or of the library counts as a failure.
pub fn run_case(p: &Prop, c: &Case, info: &mut Info) -> Result<(), String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.check)(c, info)));
    match r {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default())),
    }
}

// ---- worker -----------------------------------------------------------------

/// worker ID SEED SHARD NSHARDS START TOTAL DIR DEADLINE_SECS
pub fn worker(a: &[String]) {
    let p = props::find(&a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let shard: u64 = a[2].parse().unwrap();
    let n: u64 = a[3].parse().unwrap();
    let start: u64 = a[4].parse().unwrap();
    let total: u64 = a[5].parse().unwrap();
    let dir = PathBuf::from(&a[6]);
    let deadline = Duration::from_secs(a[7].parse().unwrap());
    let prog = fs::OpenOptions::new().create(true).write(true).truncate(false).open(dir.join(format!("prog.{}", shard))).unwrap();
    let t0 = Instant::now();
    let mut out = String::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut excluded: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut fails = 0;
    let mut samples = 0;
    let mut cut = false;
    let mut i = start;
    while i < total {
        if i % n != shard { i += 1; continue; }
        if t0.elapsed() > deadline { cut = true; break; }
        let _ = prog.write_at(&i.to_le_bytes(), 0);
        let mut r = Rng::for_case(seed, p.id, i);
        let c = (p.gen)(&mut r);
        let mut info = Info::default();
        let res = run_case(p, &c, &mut info);
        evals += 1;
        for k in &info.classes { *classes.entry(k.to_string()).or_insert(0) += 1; }
        match res {
            Err(e) => {
                fails += 1;
                out.push_str(&format!("fail\t{}\t{}\n", i, esc(&e)));
                if fails >= 3 { break; }
            }
            Ok(()) => {
                if let Some(x) = &info.excluded { *excluded.entry(x.to_string()).or_insert(0) += 1; }
                else if info.nontrivial {
                    hashes.insert(case_hash(&c));
                    if samples < 2 && c.svg.len() < 1500 { samples += 1; out.push_str(&format!("sample\t{}\t{}\t{}\t{}\n", i, esc(&c.args.join(" ")), esc(&c.svg), esc(&info.note))); }
                }
            }
        }
        i += n;
    }
    out.push_str(&format!("evals\t{}\n", evals));
    for (k, v) in classes { out.push_str(&format!("class\t{}\t{}\n", esc(&k), v)); }
    for (k, v) in excluded { out.push_str(&format!("excl\t{}\t{}\n", esc(&k).chars().take(100).collect::<String>(), v)); }
    if cut { out.push_str("cut\t1\n"); }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes { hb.extend_from_slice(&h.to_le_bytes()); }
    fs::write(dir.join(format!("hash.{}.{}", shard, start)), hb).unwrap();
    fs::write(dir.join(format!("res.{}.{}", shard, start)), out).unwrap();
    let _ = prog.write_at(&u64::MAX.to_le_bytes(), 0);
    std::process::exit(0);
}

// ---- supervisor -----------------------------------------------------------------

struct W { child: Child, shard: u64, start: u64, last: u64, since: Instant }

fn spawn_worker(p: &Prop, seed: u64, shard: u64, n: u64, start: u64, total: u64, dir: &Path, dl: u64) -> W {
    let exe = std::env::current_exe().unwrap();
    // prog starts as 'unknown'
    let _ = fs::write(dir.join(format!("prog.{}", shard)), (u64::MAX - 1).to_le_bytes());
    // a limit of the address space keeps a runaway allocation from taking the machine down
    let child = Command::new("sh").arg("-c").arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe)
        .arg("worker").args([p.id.to_string(), seed.to_string(), shard.to_string(), n.to_string(), start.to_string(), total.to_string()])
        .arg(dir).arg(dl.to_string())
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("can't start a worker");
    W { child, shard, start, last: u64::MAX - 1, since: Instant::now() }
}

fn read_prog(dir: &Path, shard: u64) -> u64 {
    let mut b = [0u8; 8];
    match fs::File::open(dir.join(format!("prog.{}", shard))).and_then(|f| f.read_at(&mut b, 0)) { Ok(8) => u64::from_le_bytes(b), _ => u64::MAX - 1 }
}

#[derive(Debug)]
enum Iso { Pass, Fail(String), Crash(String), Hang }

/// Runs a replay file in its own process.
fn isolated(file: &Path, timeout: u64) -> Iso { isolated_with(file, timeout, false) }

fn isolated_with(file: &Path, timeout: u64, no_limits: bool) -> Iso {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new("sh");
    if no_limits { cmd.env("SVGCHECK_NO_LIMITS", "1"); } else { cmd.env_remove("SVGCHECK_NO_LIMITS"); }
    let mut ch = cmd.arg("-c").arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe).arg("replay-quiet").arg(file)
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let mut s = String::new();
            if let Some(mut o) = ch.stdout.take() { let _ = std::io::Read::read_to_string(&mut o, &mut s); }
            return match st.code() {
                Some(0) => Iso::Pass,
                Some(1) => Iso::Fail(s.trim().to_string()),
                _ => Iso::Crash(format!("process ended: {}", st)),
            };
        }
        if t0.elapsed().as_secs() > timeout { let _ = ch.kill(); let _ = ch.wait(); return Iso::Hang; }
        std::thread::sleep(Duration::from_millis(20));
    }
}

const STALL: u64 = 30;
const HANG: u64 = 60;

pub fn case_at(p: &Prop, seed: u64, idx: u64) -> Case { (p.gen)(&mut Rng::for_case(seed, p.id, idx)) }

pub fn run(id: &str, tier: &str) -> i32 {
    let p = match props::find(id) { Some(p) => p, None => { eprintln!("unknown property {}", id); return 2; } };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let total = std::env::var("SVGCHECK_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let deadline: u64 = if tier == "thorough" { 7200 } else { 420 };
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8) as u64;
    let dir = scratch_root().join(format!("svgcheck.{}.{}", id, std::process::id()));
    fs::create_dir_all(&dir).expect("scratch");
    // what a killed worker leaves is removed with the directory
    std::env::set_var("SVGCHECK_SCRATCH", &dir);
    let outdir = root().join("out").join(id);
    let _ = fs::remove_dir_all(&outdir);

    let mut violations: Vec<(Case, String)> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut evals = 0u64;

    // listed findings and the regression corpus
    let known = load_known(id);
    let mut known_out = vec![];
    let mut corpus_n = 0;
    for (file, desc) in &known {
        match isolated_with(&root().join(file), HANG, true) {
            Iso::Pass => println!("note: the listed finding no longer fails: property={} {}", id, file),
            _ => { println!("KNOWN-FINDING: property={} {} ({})", id, desc, file); known_out.push(desc.clone()); }
        }
        evals += 1;
    }
    let known_cases: HashSet<u64> = known.iter().filter_map(|(f, _)| read_replay(&root().join(f)).ok()).map(|x| case_hash(&x.1)).collect();
    let mut corpus: Vec<PathBuf> = fs::read_dir(root().join("corpus").join(id)).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    corpus.sort();
    for f in &corpus {
        corpus_n += 1;
        evals += 1;
        let c = match read_replay(f) { Ok(c) => c, Err(e) => { eprintln!("{}", e); return 2; } };
        match isolated(f, HANG) {
            Iso::Pass => {}
            Iso::Fail(m) => violations.push((c.1, m)),
            Iso::Crash(m) => violations.push((c.1, m)),
            Iso::Hang => violations.push((c.1, "does not terminate".into())),
        }
    }

    // generated cases
    let mut ws: Vec<W> = (0..n).map(|s| spawn_worker(p, seed, s, n, 0, total, &dir, deadline)).collect();
    let mut confirmed: Vec<(u64, String)> = vec![];
    while !ws.is_empty() {
        std::thread::sleep(Duration::from_millis(30));
        let mut k = 0;
        while k < ws.len() {
            let st = ws[k].child.try_wait().unwrap();
            let cur = read_prog(&dir, ws[k].shard);
            if cur != ws[k].last { ws[k].last = cur; ws[k].since = Instant::now(); }
            let mut dead = false;
            let mut why = String::new();
            match st {
                Some(s) if s.success() => { ws.remove(k); continue; }
                Some(s) => { dead = true; why = format!("process ended: {}", s); }
                None => if ws[k].since.elapsed().as_secs() > STALL { let _ = ws[k].child.kill(); let _ = ws[k].child.wait(); dead = true; why = "no progress".into(); }
            }
            if dead {
                let (shard, idx) = (ws[k].shard, cur);
                let mut stop = false;
                if idx < u64::MAX - 1 {
                    let c = case_at(p, seed, idx);
                    let f = dir.join(format!("suspect.{}", idx));
                    write_replay(&f, id, &c, &why);
                    match isolated(&f, HANG) {
                        Iso::Pass => notes.push(format!("worker lost at case {} ({}), not reproduced alone", idx, why)),
                        Iso::Fail(m) => { confirmed.push((idx, m)); stop = true; }
                        Iso::Crash(m) => { confirmed.push((idx, format!("crash: {}", m))); stop = true; }
                        Iso::Hang => { confirmed.push((idx, "does not terminate".into())); stop = true; }
                    }
                } else { notes.push(format!("worker {} lost before its first case", shard)); if notes.len() > 50 { eprintln!("workers do not start: {:?}", notes); return 2; } }
                let start = if idx < u64::MAX - 1 { evals += (idx - ws[k].start) / n + 1; idx + 1 } else { ws[k].start };
                if stop { ws.remove(k); } else { ws[k] = spawn_worker(p, seed, shard, n, start, total, &dir, deadline.saturating_sub(t0.elapsed().as_secs())); k += 1; }
                continue;
            }
            k += 1;
        }
    }

    // merge
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut excluded: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut fails: Vec<(u64, String)> = confirmed;
    let mut files: Vec<PathBuf> = fs::read_dir(&dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
    files.sort();
    for f in files {
        let nm = f.file_name().unwrap().to_string_lossy().to_string();
        if nm.starts_with("hash.") {
            for ch in fs::read(&f).unwrap().chunks(8) { if ch.len() == 8 { let mut b = [0u8; 8]; b.copy_from_slice(ch); hashes.insert(u64::from_le_bytes(b)); } }
        } else if nm.starts_with("res.") {
            for l in fs::read_to_string(&f).unwrap().lines() {
                let v: Vec<&str> = l.split('\t').collect();
                match v[0] {
                    "evals" => evals += v[1].parse::<u64>().unwrap(),
                    "class" => *classes.entry(v[1].into()).or_insert(0) += v[2].parse::<u64>().unwrap(),
                    "excl" => *excluded.entry(v[1].into()).or_insert(0) += v[2].parse::<u64>().unwrap(),
                    "fail" => fails.push((v[1].parse().unwrap(), unesc(v[2]))),
                    "sample" => if samples.len() < 6 { samples.push(format!("case {}: args [{}] input {}{}", v[1], unesc(v[2]), unesc(v[3]), if v.len() > 4 && !v[4].is_empty() { format!(" => {}", unesc(v[4])) } else { String::new() })); },
                    "cut" => { notes.push("stopped at the time limit".into()); }
                    _ => {}
                }
            }
        }
    }
    fails.sort();
    if let Some((idx, m)) = fails.iter().find(|(i, _)| !known_cases.contains(&case_hash(&case_at(p, seed, *i)))) {
        let c = case_at(p, seed, *idx);
        let f = dir.join("orig");
        write_replay(&f, id, &c, m);
        let (c, m) = shrink_isolated(p, &f, c, m.clone());
        violations.push((c, m));
    }
    let _ = fs::remove_dir_all(&dir);

    let mut code = 0;
    for (i, (c, m)) in violations.iter().enumerate().take(3) {
        code = 1;
        let f = outdir.join(format!("{}-{}.txt", id, i));
        write_replay(&f, id, c, m);
        println!("  {}", m.chars().take(600).collect::<String>().replace('\n', " "));
        println!("VIOLATION property={} replay={}", id, f.display());
    }

    // evidence
    let distinct = hashes.len() as u64;
    let wall = t0.elapsed().as_secs_f64();
    let js = |s: &str| json_str(s);
    let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let e = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"classes\": {},\n  \"excluded\": {},\n  \"corpus_cases\": {},\n  \"known_findings\": [{}],\n  \"notes\": [{}],\n  \"samples\": [{}]\n }},\n \"wall_s\": {:.2},\n \"violations\": {},\n \"assumptions\": [{}]\n}}\n",
        js(id), js(tier), seed, evals, distinct, js(p.rule), map(&classes), map(&excluded), corpus_n,
        known_out.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
        samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "), wall, violations.len(),
        p.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    let ev = root().join("evidence");
    let _ = fs::create_dir_all(&ev);
    fs::write(ev.join(format!("{}.json", id)), e).expect("evidence");
    println!("{} {}: {} cases, {} distinct non-trivial, {} corpus, {} violations, {:.1} s", id, tier, evals, distinct, corpus_n, violations.len(), wall);
    if !excluded.is_empty() { println!("  excluded: {:?}", excluded); }
    println!("  classes: {:?}", classes);
    for n in notes { println!("  note: {}", n); }
    code
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn shrink_isolated(p: &Prop, f: &Path, c: Case, m: String) -> (Case, String) {
    let exe = std::env::current_exe().unwrap();
    let o = f.with_extension("min");
    let mut ch = match Command::new("sh").arg("-c").arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe).arg("shrink").arg(f).arg(&o)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn() { Ok(c) => c, Err(_) => return (c, m) };
    let t0 = Instant::now();
    loop {
        if ch.try_wait().unwrap().is_some() { break; }
        if t0.elapsed().as_secs() > 60 { let _ = ch.kill(); let _ = ch.wait(); break; }
        std::thread::sleep(Duration::from_millis(20));
    }
    match read_replay(&o) { Ok((i, c, m)) if i == p.id => (c, m), _ => (c, m) }
}

/// shrink IN OUT: rewrites OUT with every better case.
pub fn shrink_job(a: &[String]) {
    let (id, c, _) = read_replay(Path::new(&a[0])).expect("replay");
    let p = props::find(&id).unwrap();
    let t0 = Instant::now();
    let out = PathBuf::from(&a[1]);
    let mut last: Option<(Case, String)> = None;
    let mut fails = |k: &Case| -> bool {
        if t0.elapsed().as_secs() > 40 { return false; }
        if !(p.keep)(k) { return false; }
        let mut i = Info::default();
        match run_case(p, k, &mut i) { Err(m) => { write_replay(&out, p.id, k, &m); last = Some((k.clone(), m)); true } Ok(()) => false }
    };
    if !fails(&c) { return; }
    let _ = shrink::shrink(&c, &mut fails, 6000);
}

pub fn replay(a: &[String], quiet: bool) -> i32 {
    let (id, c, _) = match read_replay(Path::new(&a[0])) { Ok(x) => x, Err(e) => { eprintln!("{}", e); return 2; } };
    let p = match props::find(&id) { Some(p) => p, None => { eprintln!("unknown property"); return 2; } };
    let mut i = Info::default();
    match run_case(p, &c, &mut i) {
        Ok(()) => {
            if !quiet { println!("holds (excluded: {:?}, classes: {:?}, nontrivial: {}) {}", i.excluded, i.classes, i.nontrivial, i.note); }
            0
        }
        Err(m) => { println!("{}", m); if !quiet { println!("VIOLATION property={} replay={}", id, a[0]); } let _ = std::io::stdout().flush(); 1 }
    }
}

/// known_findings.txt: `known: property=<id> file=<path> <description>`; `fixed:` lines are a record only.
fn load_known(id: &str) -> Vec<(String, String)> {
    let t = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let (a, b, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if a == format!("property={}", id) { if let Some(f) = b.strip_prefix("file=") { v.push((f.to_string(), d.to_string())); } }
        }
    }
    v
}

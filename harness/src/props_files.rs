//! P18 (files are never damaged) and P19 (all interfaces give the same result), with the real binary.

use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::symlink;
use std::path::Path;

use crate::bin::{self, Scratch};
use crate::gen::{Cfg, Gen};
use crate::pipeline::{self, Out};
use crate::props::{random_opts, Info};
use crate::props_doc::{self, small};
use crate::rng::Rng;
use crate::shrink::Case;

// The world is described by arguments that start with `@`.
const IN_STATES: &[&str] = &["file", "file", "file", "file", "dot", "space", "upper", "abs", "symlink", "missing", "dir", "stdin", "badext", "unlinked-dir"];
const OUT_STATES: &[&str] = &["absent", "absent", "exists", "exists-big", "same", "dot-same", "abs-same", "symlink-same", "in-symlink-target", "hardlink-same", "symlink-other", "dangling", "missing-dir", "dir", "under-file", "full", "stdout", "stdout-with-file", "readme", "badext"];

fn at<'a>(c: &'a Case, k: &str, d: &'a str) -> &'a str {
    c.args.iter().filter_map(|a| a.strip_prefix('@').and_then(|a| a.strip_prefix(k)).and_then(|a| a.strip_prefix('='))).next().unwrap_or(d)
}

fn real_args(c: &Case) -> Vec<String> { c.args.iter().filter(|a| !a.starts_with('@')).cloned().collect() }

/// The input bytes: `@utf8=N` breaks the encoding at the character N.
fn raw(c: &Case) -> Vec<u8> {
    let mut v = c.svg.clone().into_bytes();
    if let Ok(k) = at(c, "badutf8", "").parse::<usize>() { let k = k.min(v.len()); v.insert(k, 0xE9); }
    if at(c, "bom", "") == "1" { let mut b = vec![0xEF, 0xBB, 0xBF]; b.extend_from_slice(&v); v = b; }
    v
}

pub fn p18_gen(r: &mut Rng) -> Case {
    let svg = match r.below(12) {
        0 | 1 => props_doc::p15_gen(r).svg,
        2 => {
            // malformed
            let mut s = Gen::new(r, Cfg { budget: 4, ..Cfg::default() }).document().to_xml();
            let b: Vec<usize> = s.char_indices().map(|x| x.0).collect();
            let i = *r.pick(&b);
            if r.p(0.6) { s.truncate(i); } else { s.insert_str(i, *r.pick(&["<", "&", "\"", "</g>", "<a:b", "]]>"])); }
            s
        }
        3 => r.pick(&["", " ", "\n", "<svg/>", "<svg xmlns=\"http://www.w3.org/2000/svg\"/>", "<svg xmlns='http://www.w3.org/2000/svg'/>\n", "not svg", "<html/>", "<svg xmlns=\"http://www.w3.org/2000/svg\"><rect/></svg>",
            "<svg xmlns=\"http://www.w3.org/2000/svg\"><path d=\"m0 0h5v5\"/></svg>", "<svg xmlns=\"http://www.w3.org/2000/svg\"><g id=\"a\"><use xlink:href=\"#a\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"/></g></svg>"]).to_string(),
        4 | 5 => {
            // already clean, so options can make it bigger
            let s = Gen::new(r, Cfg { budget: 4, ..Cfg::default() }).document().to_xml();
            match pipeline::opts(&[]).map(|o| pipeline::clean_once(&s, &o)) { Ok(Out::Ok(s)) => s, _ => s }
        }
        _ => { let c = small(r); Gen::new(r, c).document().to_xml() }
    };
    let mut a: Vec<String> = vec![];
    let bigger = r.p(0.3);
    if r.p(0.3) || bigger {
        let o = if bigger && r.p(0.6) { vec!["--no-defaults".to_string(), format!("--indent={}", *r.pick(&["4", "tabs", "2"])), "--join-style-attributes=all".into()] } else { random_opts(r, &[]).args() };
        a.extend(o);
    }
    if r.p(0.5) { a.push("--copy-on-error".into()); }
    if r.p(0.2) { a.push("--allow-bigger-file".into()); }
    if r.p(0.2) { a.push("--multipass".into()); }
    if r.p(0.3) { a.push("--quiet".into()); }
    if r.p(0.2) { a.retain(|x| !x.starts_with("--append-newline")); a.push("--append-newline=true".into()); }
    if r.p(0.05) { a.push((*r.pick(&["--trim-paths=false", "--indent=7", "--nosuch", "--trim-ids=1", "--coordinates-precision=0", "--coordinates-precision=13"])).to_string()); }
    if r.p(0.02) { a.push("--join-arcto-flags=true".into()); a.push("--trim-paths=false".into()); }
    if r.p(0.08) { a.push(format!("@badutf8={}", r.below(svg.len() + 1))); }
    if r.p(0.04) { a.push("@bom=1".into()); }
    if r.p(0.75) { a.push(format!("@in={}", *r.pick(IN_STATES))); }
    if r.p(0.85) { a.push(format!("@out={}", *r.pick(OUT_STATES))); }
    if r.p(0.3) { a.push(format!("@chunk={}", *r.pick(&[1, 7, 100]))); }
    if r.p(0.3) { a.push("@files-first=1".into()); }
    Case { svg, args: a }
}

#[derive(PartialEq, Clone, Debug)]
enum Item { Dir, File(Vec<u8>), Link(String) }

fn snapshot(d: &Path) -> BTreeMap<String, Item> {
    fn go(d: &Path, p: &str, o: &mut BTreeMap<String, Item>) {
        for e in fs::read_dir(d).expect("scratch").filter_map(|e| e.ok()) {
            let n = format!("{}{}", p, e.file_name().to_string_lossy());
            let t = e.file_type().unwrap();
            if t.is_symlink() { o.insert(n, Item::Link(fs::read_link(e.path()).unwrap().to_string_lossy().to_string())); }
            else if t.is_dir() { o.insert(n.clone(), Item::Dir); go(&e.path(), &format!("{}/", n), o); }
            else { o.insert(n, Item::File(fs::read(e.path()).unwrap_or_default())); }
        }
    }
    let mut o = BTreeMap::new();
    go(d, "", &mut o);
    o
}

/// What the library gives: an error, or the possible results.
enum Want { Error, Bytes(Vec<Vec<u8>>) }

fn library(svg: &str, o: &pipeline::Opts, multi: bool) -> Result<Want, String> {
    let mut hist: Vec<String> = vec![];
    for k in 0..if multi { 16 } else { 1 } {
        match pipeline::clean_once(hist.last().map(|s| s.as_str()).unwrap_or(svg), o) {
            Out::Ok(s) => hist.push(s),
            Out::Rejected(_) if k == 0 => return Ok(Want::Error),
            Out::Panic(m) if k == 0 => return Err(m),
            x => return Err(format!("pass {}: {:?}", k + 1, x)),
        }
    }
    if !multi { return Ok(Want::Bytes(vec![hist.remove(0).into_bytes()])); }
    let n = hist.len();
    Ok(Want::Bytes((0..n - 1).filter(|&j| hist[j].len() <= hist[0].len() && hist[j + 1].len() >= hist[j].len()).map(|j| hist[j].clone().into_bytes()).collect()))
}

fn lossy(b: &[u8]) -> String { String::from_utf8_lossy(b).chars().take(600).collect() }

/// Crashes inside of the parser libraries are known findings of P14.
fn library_crash(c: &Case, info: &mut Info, r: Result<(), String>) -> Result<(), String> {
    if let Err(ref m) = r {
        if m.contains("the binary panicked") {
            // the location without the folder of the crates
            let at = m.split(" at ").map(|s| match s.find("/src/index.crates.io-") { Some(k) => s[k + 5..].splitn(2, '/').nth(1).unwrap_or(s), None => s }).collect::<Vec<_>>().join(" at ");
            if let Some(k) = crate::props_xml::parser_defect(&c.svg, &at) { info.excl(k); return Ok(()); }
        }
    }
    r
}

pub fn p18_check(c: &Case, info: &mut Info) -> Result<(), String> {
    let r = p18_case(c, info);
    library_crash(c, info, r)
}

pub fn p19_check(c: &Case, info: &mut Info) -> Result<(), String> {
    let r = p19_case(c, info);
    library_crash(c, info, r)
}

fn p18_case(c: &Case, info: &mut Info) -> Result<(), String> {
    let (is, os) = (at(c, "in", "file"), at(c, "out", "absent"));
    let data = raw(c);
    let args = real_args(c);
    let sc = Scratch::new();
    let d = &sc.0;
    let w = |n: &str, b: &[u8]| fs::write(d.join(n), b).expect("scratch file");
    fs::create_dir(d.join("sub dir")).expect("scratch");
    w("README.txt", b"a file that nothing may touch");
    w("sub dir/other.svg", b"<svg>an other file</svg>");

    // the input
    let abs = |n: &str| d.join(n).to_string_lossy().to_string();
    let (inarg, infile): (String, Option<&str>) = match is {
        "dot" => ("./in.svg".into(), Some("in.svg")),
        "space" => ("sub dir/\u{fc} in.svg".into(), Some("sub dir/\u{fc} in.svg")),
        "upper" => ("in.SVG".into(), Some("in.SVG")),
        "abs" => (abs("in.svg"), Some("in.svg")),
        "symlink" => ("link.svg".into(), Some("in.svg")),
        "missing" => ("no.svg".into(), None),
        "unlinked-dir" => ("nodir/in.svg".into(), None),
        "dir" => ("dir.svg".into(), None),
        "stdin" => ("-".into(), None),
        "badext" => ("in.png".into(), Some("in.png")),
        _ => ("in.svg".into(), Some("in.svg")),
    };
    if let Some(f) = infile { w(f, &data); }
    if is == "symlink" { symlink("in.svg", d.join("link.svg")).expect("scratch link"); }
    if is == "dir" { fs::create_dir(d.join("dir.svg")).expect("scratch"); }

    // the output: the argument, the files that may be changed, whether it can be written, whether it is the input
    let big = vec![b'x'; data.len() * 2 + 5000];
    let target = infile.unwrap_or("in.svg");
    let (outarg, may, writable, alias): (Option<String>, Vec<&str>, bool, bool) = match os {
        "exists" => { w("out.svg", b"<svg>old</svg>"); (Some("out.svg".into()), vec!["out.svg"], true, false) }
        "exists-big" => { w("out.svg", &big); (Some("out.svg".into()), vec!["out.svg"], true, false) }
        "same" => (Some(inarg.clone()), vec![target, "link.svg"], infile.is_some(), true),
        "dot-same" => (Some(format!("./sub dir/../{}", target)), vec![target], true, infile.is_some()),
        "abs-same" => (Some(abs(target)), vec![target], true, infile.is_some()),
        "symlink-same" => { symlink(target, d.join("out.svg")).expect("scratch link"); (Some("out.svg".into()), vec!["out.svg", target], true, infile.is_some()) }
        "in-symlink-target" => (Some(target.into()), vec![target], true, infile.is_some()),
        "hardlink-same" => {
            match infile { Some(f) => { fs::hard_link(d.join(f), d.join("out.svg")).expect("scratch link"); } None => {} }
            (Some("out.svg".into()), vec!["out.svg", target], true, infile.is_some())
        }
        "symlink-other" => { symlink("sub dir/other.svg", d.join("out.svg")).expect("scratch link"); (Some("out.svg".into()), vec!["out.svg", "sub dir/other.svg"], true, false) }
        "dangling" => { symlink("sub dir/new.svg", d.join("out.svg")).expect("scratch link"); (Some("out.svg".into()), vec!["out.svg", "sub dir/new.svg"], true, false) }
        "missing-dir" => (Some("nodir2/out.svg".into()), vec![], false, false),
        "dir" => { fs::create_dir(d.join("outdir.svg")).expect("scratch"); (Some("outdir.svg".into()), vec![], false, false) }
        "under-file" => (Some("README.txt/out.svg".into()), vec![], false, false),
        "full" => { symlink("/dev/full", d.join("out.svg")).expect("scratch link"); (Some("out.svg".into()), vec![], false, false) }
        "stdout" => (None, vec![], true, false),
        "stdout-with-file" => { w("out.svg", b"<svg>old</svg>"); (Some("out.svg".into()), vec![], true, false) }
        "readme" => (Some("README.svg".into()), vec!["README.svg"], true, false),
        "badext" => (Some("out.txt".into()), vec![], false, false),
        _ => (Some("out.svg".into()), vec!["out.svg"], true, false),
    };
    let stdout = os.starts_with("stdout");
    if is == "stdin" && ["same", "dot-same", "abs-same", "symlink-same", "hardlink-same", "in-symlink-target"].contains(&os) && os == "same" { info.excl("a file named '-'"); return Ok(()); }

    // the command line
    let mut files: Vec<String> = vec![];
    if is == "stdin" && !stdout { files.push(outarg.clone().unwrap()); files.push("-".into()); } else { files.push(inarg.clone()); if let Some(o) = &outarg { files.push(o.clone()); } }
    let mut a: Vec<String> = args.clone();
    if stdout { a.push("-c".into()); }
    if at(c, "files-first", "") == "1" { let mut f = files.clone(); f.extend(a); a = f; } else { a.extend(files.iter().cloned()); }

    let before = snapshot(d);
    let chunk = at(c, "chunk", "4096").parse().unwrap_or(4096);
    let fsize: Option<u64> = at(c, "fsize", "").parse().ok();
    let run = bin::run(d, &bin::os(&a), if is == "stdin" { Some(&data) } else { None }, chunk, fsize);
    if let Some(e) = run.crash() {
        if let Some(k) = String::from_utf8(data.clone()).ok().and_then(|s| crate::props_xml::parser_defect(&s, &e)) { info.excl(k); return Ok(()); }
        return Err(format!("{} ({:?})", e, a));
    }
    let after = snapshot(d);
    let ctx = || format!("{:?}: stderr: {}", a, run.stderr());

    // the model
    let bad_cli = is == "badext" || os == "badext";
    let opts = pipeline::opts(&args);
    let has = |n: &str| args.iter().any(|x| x == n);
    let text = String::from_utf8(data.clone());
    let no_input = bad_cli || opts.is_err() || is == "missing" || is == "dir" || is == "unlinked-dir";
    // the outcomes that are allowed: None is an error
    let mut allowed: Vec<Option<Vec<u8>>> = vec![];
    if no_input { allowed.push(None); }
    else {
        let o = opts.unwrap();
        match text {
            Err(_) => allowed.push(None),
            Ok(s) => match library(&s, &o, has("--multipass")) {
                Err(m) => { info.excl(format!("library: {}", m.split(" at ").last().unwrap_or(""))); return Ok(()); }
                Ok(Want::Error) => allowed.push(None),
                Ok(Want::Bytes(v)) => for mut b in v {
                    if !has("--allow-bigger-file") && b.len() > data.len() { info.class("bigger"); allowed.push(None); continue; }
                    if o.clean.append_newline { b.push(b'\n'); }
                    allowed.push(Some(b));
                },
            },
        }
    }
    let failed = allowed.iter().all(|x| x.is_none());
    let succeeded = allowed.iter().all(|x| x.is_some());
    let copy = has("--copy-on-error") && !no_input && !stdout && is != "stdin" && !alias;

    // the standard output
    if stdout {
        if !allowed.iter().any(|x| match x { Some(b) => *b == run.out, None => run.out.is_empty() }) { return Err(format!("a wrong standard output: {}: {}", lossy(&run.out), ctx())); }
    } else if !run.out.is_empty() && !bad_cli { return Err(format!("unexpected standard output: {}: {}", lossy(&run.out), ctx())); }

    // files that may not be changed
    for (n, x) in &before {
        if may.contains(&n.as_str()) { continue; }
        match after.get(n) {
            None => return Err(format!("'{}' was removed: {}", n, ctx())),
            Some(y) if y != x => return Err(format!("'{}' was changed: {}", n, ctx())),
            _ => {}
        }
    }
    for n in after.keys() { if !before.contains_key(n) && !may.contains(&n.as_str()) { return Err(format!("'{}' was created: {}", n, ctx())); } }

    // the output file
    if !stdout && !may.is_empty() {
        let path = d.join(outarg.as_ref().unwrap());
        let now = fs::read(&path).ok();
        let unchanged = may.iter().all(|n| before.get(*n) == after.get(*n));
        let mut ok = false;
        for x in &allowed {
            ok |= match x {
                Some(b) => if writable { now.as_deref() == Some(&b[..]) } else { unchanged },
                None => if copy && writable { now.as_deref() == Some(&data[..]) } else { unchanged },
            };
        }
        if !ok {
            return Err(format!("the output file is {} (input {} bytes, {}): {}", now.map(|b| format!("{} bytes: {}", b.len(), lossy(&b))).unwrap_or("missing".into()), data.len(),
                if failed { if copy { "a copy of the input is expected" } else { "no change is expected" } } else { "the cleaned document is expected" }, ctx()));
        }
        // the input
        if !alias { if let Some(f) = infile { if before.get(f) != after.get(f) { return Err(format!("the input was changed: {}", ctx())); } } }
        if alias && failed && !unchanged { return Err(format!("the input was damaged: {}", ctx())); }
    }

    // messages
    let e = run.stderr();
    if (failed || (!writable && !stdout)) && e.trim().is_empty() && !bad_cli { return Err(format!("no error message: {:?}", a)); }
    if failed && e.contains("smaller now") { return Err(format!("a failure is reported as a success: {}", ctx())); }
    if succeeded && (writable || stdout) {
        if e.contains("Error") { return Err(format!("an error is reported on a success: {}", ctx())); }
        let rep = e.contains("smaller now");
        if has("--quiet") && rep { return Err(format!("--quiet is ignored: {}", ctx())); }
        if !has("--quiet") && !rep { return Err(format!("no report: {}", ctx())); }
    }
    info.class(if bad_cli || no_input { "no input" } else if failed { "rejected" } else { "cleaned" });
    if alias { info.class("in place"); }
    if copy && failed { info.class("copy on error"); }
    if !writable { info.class("unwritable"); }
    info.nontrivial = true;
    Ok(())
}

// ---- P19 ---------------------------------------------------------------------------

pub fn p19_gen(r: &mut Rng) -> Case {
    let svg = match r.below(10) {
        0 => props_doc::p15_gen(r).svg,
        1 => crate::props_xml::p13_gen(r).svg,
        2 | 3 => { let c = Cfg { budget: 60, n_grad: (3, 12), n_defshape: (2, 6), n_clip: (0, 3), n_mask: (0, 2), n_pattern: (0, 2), n_marker: (0, 2), n_filter: (0, 3), p_dup: 0.5, p_id: 0.4, p_css: 0.3, ..Cfg::default() }; Gen::new(r, c).document().to_xml() }
        4 => {
            // bigger than the pipe and the read buffers
            let c = Cfg { budget: 20, ..Cfg::default() };
            let mut d = Gen::new(r, c).document();
            let root = d.root;
            let t = d.new_el(Some(root), "text");
            // sometimes bigger than any buffer: up to 1 MB, 3 MB or 9 MB
            let k = match r.below(100) { 0 => 4_500_000, 1 | 2 => 1_500_000, 3..=9 => r.range(12, 80) as usize * 6000, _ => r.range(1, 12) as usize * 6000 };
            let s: String = (0..k).map(|i| *["a", "\u{e9}", "\u{65e5}", "\u{1f600}", " x"].get((i * 7 + i / 13) % 5).unwrap()).collect();
            d.new_node(Some(t), crate::xml::Kind::Text(s));
            d.to_xml()
        }
        _ => Gen::new(r, Cfg::default()).document().to_xml(),
    };
    let mut svg = svg;
    if r.p(0.3) { for _ in 0..r.range(1, 4) { svg.push_str(*r.pick(&["\n", "\n\n", " ", "\t", "\r\n", "<!-- end -->", "\n"])); } }
    let mut a = if r.p(0.4) { vec![] } else { random_opts(r, &[]).args() };
    // near the size of the input: nothing to remove, and some spaces to write
    if r.p(0.12) { a = vec!["--no-defaults".into()]; if r.p(0.7) { a.push(format!("--indent={}", r.pick(&["none", "0", "1", "2", "tabs"]))); } if r.p(0.3) { a.push("--simplify-transforms=false".into()); } }
    if r.p(0.25) { a.push("--multipass".into()); }
    if r.p(0.25) { a.retain(|x| !x.starts_with("--append-newline")); a.push("--append-newline=true".into()); }
    if r.p(0.5) { a.push("--allow-bigger-file".into()); }
    if r.p(0.2) { a.push("--quiet".into()); }
    if r.p(0.1) { a.push("--copy-on-error".into()); }
    a.push(format!("@chunk={}", *r.pick(&[1, 3, 1000, 4096, 65536])));
    Case { svg, args: a }
}

fn p19_case(c: &Case, info: &mut Info) -> Result<(), String> {
    let args = real_args(c);
    let o = match pipeline::opts(&args) { Ok(o) => o, Err(e) => { info.excl(format!("options: {}", e)); return Ok(()); } };
    let data = c.svg.as_bytes();
    let mut chunk: usize = at(c, "chunk", "4096").parse().unwrap_or(4096);
    if data.len() / chunk > 3000 { chunk = data.len() / 3000 + 1; }
    let has = |n: &str| args.iter().any(|x| x == n);
    let sc = Scratch::new();
    let d = &sc.0;
    fs::write(d.join("in.svg"), data).expect("scratch file");
    fs::create_dir(d.join("x")).expect("scratch");
    fs::write(d.join("x/inplace.svg"), data).expect("scratch file");
    let go = |files: &[&str], input: bool, sub: &str, rev: bool| -> bin::Run {
        let mut a: Vec<String> = args.iter().filter(|x| *x != "--copy-on-error").cloned().collect();
        if rev { a.reverse(); }
        a.extend(files.iter().map(|s| s.to_string()));
        bin::run(&d.join(sub), &bin::os(&a), if input { Some(data) } else { None }, chunk, None)
    };
    let abs_in = d.join("in.svg").to_string_lossy().to_string();
    let abs_out = d.join("abs.svg").to_string_lossy().to_string();
    let file = |n: &str| fs::read(d.join(n)).ok();
    // the name, the run, the result
    let mut all: Vec<(&str, bin::Run, Option<Vec<u8>>)> = vec![];
    let r = go(&["in.svg", "out.svg"], false, "", false); all.push(("file to file", r, file("out.svg")));
    let r = go(&["in.svg", "again.svg"], false, "", false); all.push(("file to file again", r, file("again.svg")));
    let r = go(&["-c", "in.svg"], false, "", false); let b = r.out.clone(); all.push(("file to stdout", r, Some(b)));
    let r = go(&["-c", "-"], true, "", false); let b = r.out.clone(); all.push(("stdin to stdout", r, Some(b)));
    let r = go(&["piped.svg", "-"], true, "", false); all.push(("stdin to file", r, file("piped.svg")));
    let r = go(&["inplace.svg", "inplace.svg"], false, "x", false); all.push(("in place", r, file("x/inplace.svg")));
    let r = go(&[&abs_in, &abs_out], false, "x", true); all.push(("absolute paths, options reversed", r, file("abs.svg")));
    for (n, r, _) in &all {
        if let Some(e) = r.crash() {
            if let Some(k) = crate::props_xml::parser_defect(&c.svg, &e) { info.excl(k); return Ok(()); }
            return Err(format!("{}: {}", n, e));
        }
    }
    // the library, twice
    let lib = |svg: &str| library(svg, &o, has("--multipass"));
    let (l1, l2) = match (lib(&c.svg), lib(&c.svg)) { (Ok(a), Ok(b)) => (a, b), (Err(m), _) | (_, Err(m)) => { info.excl(format!("library: {}", m.split(" at ").last().unwrap_or(""))); return Ok(()); } };
    let want = match (l1, l2) {
        (Want::Error, Want::Error) => None,
        (Want::Bytes(a), Want::Bytes(b)) => { if a != b { return Err("two runs of the library give different results".into()); } Some(a) }
        _ => return Err("two runs of the library give different results".into()),
    };
    let want: Option<Vec<Vec<u8>>> = want.map(|v| v.into_iter().filter(|b| has("--allow-bigger-file") || b.len() <= data.len()).map(|mut b| { if o.clean.append_newline { b.push(b'\n'); } b }).collect());
    let ok = want.as_ref().map(|w| !w.is_empty()).unwrap_or(false);
    for (n, r, b) in &all {
        let err = r.stderr();
        if ok {
            let b = match b { Some(b) => b, None => return Err(format!("{}: no output: {}", n, err)) };
            if !want.as_ref().unwrap().contains(b) { return Err(format!("{}: the result is not the one of the library: {} instead of {}: {}", n, lossy(b), lossy(&want.as_ref().unwrap()[0]), err)); }
            if Some(b) != all[0].2.as_ref() { return Err(format!("{}: the result is not the one of '{}': {} instead of {}", n, all[0].0, lossy(b), lossy(all[0].2.as_ref().unwrap()))); }
        } else {
            let clean = match *n { "in place" => b.as_deref() == Some(data), _ => b.as_ref().map(|b| b.is_empty()).unwrap_or(true) };
            if !clean { return Err(format!("{}: a refused document is written: {}", n, err)); }
            if n.contains("file") && !n.contains("stdout") && b.is_some() { return Err(format!("{}: a refused document created a file", n)); }
        }
        if err != all[0].1.stderr() { return Err(format!("{}: the messages are not the ones of '{}': {} instead of {}", n, all[0].0, err, all[0].1.stderr())); }
        if r.code != all[0].1.code { return Err(format!("{}: the exit code is not the one of '{}': {:?} instead of {:?}", n, all[0].0, r.code, all[0].1.code)); }
    }
    info.class(if ok { "cleaned" } else if want.is_some() { "bigger" } else { "refused" });
    if data.len() > 65536 { info.class("over 64 KiB"); }
    if data.len() > 1 << 20 { info.class("over 1 MiB"); }
    if has("--multipass") { info.class("multipass"); }
    info.nontrivial = ok && all[0].2.as_deref() != Some(data);
    info.note = format!("{} -> {} bytes through 7 interfaces", data.len(), all[0].2.as_ref().map(|b| b.len()).unwrap_or(0));
    Ok(())
}

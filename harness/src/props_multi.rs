//! P20: histories of repeated passes and the multipass mode.

use crate::gen::Cfg;
use crate::pipeline::{self, Out};
use crate::props::{doc, random_opts, Info};
use crate::rng::Rng;
use crate::shrink::Case;
use crate::{bin, cmp, limits, render, xml};

pub fn gen(r: &mut Rng) -> Case {
    let c = if r.p(0.5) { Cfg::default() } else {
        Cfg { w_group: 20, max_depth: 5, n_grad: (0, 5), n_defshape: (0, 3), w_use: 8, p_grad_paint: 0.6, p_dup: 0.4, p_group_style: 0.6, p_transform: 0.4, p_default_attr: 0.2, p_inherit: 0.05, ..Cfg::default() }
    };
    let svg = doc(r, c);
    let args = if r.p(0.4) { vec![] } else { random_opts(r, &[]).args() };
    Case { svg, args }
}

const PASSES: usize = 24;
const RENDERED: usize = 6;

pub fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    let o = match pipeline::opts(&c.args) { Ok(o) => o, Err(e) => { info.excl(format!("options: {}", e)); return Ok(()); } };
    let d = match xml::parse(&c.svg) { Ok(d) => d, Err(_) => { info.excl("malformed input"); return Ok(()); } };
    if let Some(l) = limits::out_of_domain(&d) { info.excl(l); return Ok(()); }
    if let Some(l) = limits::excluded_options(&d, &c.args) { info.excl(l); return Ok(()); }
    let mut scene = match render::render(&d) { Ok(s) => s, Err(e) => { info.excl(format!("unrenderable input: {}", e)); return Ok(()); } };
    let painted = scene.stats.shapes + scene.stats.texts + scene.stats.images;
    let mut hist: Vec<String> = vec![];
    let mut compare = true;
    for k in 1..=PASSES {
        let cur = hist.last().unwrap_or(&c.svg);
        let out = match pipeline::clean_once(cur, &o) {
            Out::Ok(s) => s,
            Out::Rejected(m) => return Err(format!("pass {} is rejected: {}: {}", k, m, cur)),
            Out::Panic(m) => return Err(format!("pass {}: panic: {}: {}", k, m, cur)),
            Out::BadUtf8 => return Err(format!("pass {}: the output is not UTF-8", k)),
        };
        if compare && k <= RENDERED {
            let d = xml::parse(&out).map_err(|e| format!("pass {}: the output is malformed: {}: {}", k, e, out))?;
            let s = render::render(&d).map_err(|e| format!("pass {}: the output can't be rendered: {}", k, e))?;
            cmp::scenes(&scene, &s, &cmp::Tol::DEFAULT).map_err(|e| format!("pass {}: {}: {} -> {}", k, e, cur, out))?;
            scene = s;
            if limits::out_of_domain(&d).is_some() { compare = false; info.class("an output outside of the domain"); }
        }
        let fixed = hist.last() == Some(&out);
        hist.push(out);
        if fixed { break; }
    }
    let n = hist.len();
    info.class(match n { 2 => "stable after 1 pass", 3 => "stable after 2 passes", 4..=6 => "stable after 3-5 passes", PASSES if hist[n - 1] != hist[n - 2] => "not stable", _ => "stable later" });

    // the multipass mode of the binary
    let t = bin::Scratch::new();
    std::fs::write(t.path("in.svg"), &c.svg).expect("scratch file");
    let mut a = c.args.clone();
    a.retain(|x| x != "--multipass" && x != "--allow-bigger-file");
    a.extend(["--multipass", "--allow-bigger-file", "in.svg", "out.svg"].iter().map(|s| s.to_string()));
    let r = bin::run(&t.0, &bin::os(&a), None, 0, None);
    if let Some(e) = r.crash() { return Err(format!("multipass: {}", e)); }
    let out = std::fs::read(t.path("out.svg")).map_err(|e| format!("multipass: no output: {}: {}", e, r.stderr()))?;
    let mut out = String::from_utf8(out).map_err(|_| "multipass: the output is not UTF-8")?;
    if o.clean.append_newline { if out.pop() != Some('\n') { return Err("multipass: no newline in the end".into()); } }
    let j = match hist.iter().position(|h| *h == out) { Some(j) => j, None => return Err(format!("multipass: the result is not the result of repeated passes: {}", out)) };
    if out.len() > hist[0].len() { return Err(format!("multipass: the result is bigger ({}) than the one of a single pass ({}): {}", out.len(), hist[0].len(), out)); }
    if j + 1 < n && hist[j + 1].len() < out.len() { return Err(format!("multipass: stopped after pass {}, but the next one makes the file smaller: {}", j + 1, out)); }
    info.nontrivial = n > 2 && painted >= 1;
    info.note = format!("{} different outputs: {:?} bytes", n - 1, hist.iter().map(|h| h.len()).collect::<Vec<_>>());
    Ok(())
}

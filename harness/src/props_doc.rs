//! Document-level properties decided without rendering: P15 (rejections).

use crate::gen::{Cfg, Gen};
use crate::pipeline::{self, Out};
use crate::props::{random_opts, Info};
use crate::render::local;
use crate::rng::Rng;
use crate::shrink::Case;
use crate::xml::*;
use crate::{limits, xml};

pub fn small(r: &mut Rng) -> Cfg {
    Cfg { budget: 2 + r.below(10), max_depth: 3, p_css: 0.05, p_nonsvg: 0.15, p_misc_nodes: 0.15, ..Cfg::default() }
}

fn elements(d: &Dom) -> Vec<usize> { d.walk().into_iter().filter(|&n| d.is_el(n)).collect() }

// ---- P15 ---------------------------------------------------------------------------

const EVENTS: &[&str] = &["onfocusin", "onfocusout", "onactivate", "onclick", "onmousedown", "onmouseup", "onmouseover", "onmousemove", "onmouseout", "onload",
    "onunload", "onabort", "onerror", "onresize", "onscroll", "onzoom", "onbegin", "onend", "onrepeat"];
const ANIM: &[&str] = &["animate", "animateColor", "animateMotion", "animateTransform", "set"];
/// Elements whose external references are kept.
const EXT_OK: &[&str] = &["a", "image", "font-face-uri", "feImage"];
/// Other elements with a reference.
const EXT_BAD: &[&str] = &["use", "linearGradient", "radialGradient", "pattern", "filter", "tref", "textPath", "mpath", "cursor", "glyphRef", "color-profile", "altGlyph"];
/// Namespaced elements are not SVG; the same local names mean nothing there.
fn svg_name(n: &str) -> Option<&str> { if n.contains(':') { n.strip_prefix("svg:") } else { Some(n) } }

#[derive(PartialEq, Clone, Copy, Debug)]
enum Cause { Script, Anim, Cond, Ext, Loop }

/// Everything a document has to be rejected for.
fn causes(d: &Dom) -> Vec<Cause> {
    let mut v = vec![];
    let ids = d.ids();
    for n in elements(d) {
        let nm = match svg_name(d.name(n)) { Some(x) => x, None => continue };
        if nm == "script" { v.push(Cause::Script); }
        if ANIM.contains(&nm) { v.push(Cause::Anim); }
        for (a, x) in d.attrs(n) {
            if EVENTS.contains(&a.as_str()) { v.push(Cause::Script); }
            if (a == "requiredFeatures" || a == "systemLanguage") && !x.trim().is_empty() { v.push(Cause::Cond); }
            if a == "xlink:href" && !x.starts_with('#') && !EXT_OK.contains(&nm) { v.push(Cause::Ext); }
        }
        if nm.ends_with("Gradient") {
            let mut seen = vec![n];
            let mut k = n;
            while let Some(t) = d.attr(k, "xlink:href").and_then(|h| h.strip_prefix('#')).and_then(|i| ids.get(i)) {
                if !local(d.name(*t)).ends_with("Gradient") { break; }
                if seen.contains(t) { v.push(Cause::Loop); break; }
                seen.push(*t);
                k = *t;
            }
        }
    }
    v
}

fn names_cause(m: &str, c: Cause) -> bool {
    let m = m.to_lowercase();
    match c {
        Cause::Script => m.contains("script"),
        Cause::Anim => m.contains("animation"),
        Cause::Cond => m.contains("conditional"),
        Cause::Ext => m.contains("extern"),
        Cause::Loop => m.contains("crosslink") || m.contains("loop") || m.contains("recurs"),
    }
}

pub fn p15_gen(r: &mut Rng) -> Case {
    let c = small(r);
    let mut d = Gen::new(r, c).document();
    let root = d.root;
    d.set(root, "xmlns:x", "http://example.org/x");
    let n = match r.below(6) { 0 | 1 => 0, 2 | 3 | 4 => 1, _ => 2 };
    for _ in 0..n { inject(r, &mut d, true); }
    let k = r.below(4);
    for _ in 0..k { inject(r, &mut d, false); }
    let args = if r.p(0.4) { vec![] } else { random_opts(r, &[]).args() };
    Case { svg: d.to_xml(), args }
}

fn place(r: &mut Rng, d: &mut Dom, p: usize, name: &str) -> usize {
    let e = d.new_el(None, name);
    d.nodes[e].parent = Some(p);
    let k = d.nodes[p].children.len();
    let at = r.below(k + 1);
    d.nodes[p].children.insert(at, e);
    e
}

fn inject(r: &mut Rng, d: &mut Dom, bad: bool) {
    let els: Vec<usize> = elements(d).into_iter().filter(|&n| !d.name(n).contains(':') && !["style", "title", "desc", "metadata", "stop"].contains(&d.name(n)) && !d.name(n).starts_with("fe") && !d.has_ancestor(n, "switch")).collect();
    let boxes: Vec<usize> = els.iter().cloned().filter(|&n| ["svg", "g", "defs", "symbol", "clipPath", "mask", "pattern", "marker", "a"].contains(&d.name(n))).collect();
    let el = *r.pick(&els);
    let bx = *r.pick(&boxes);
    let any_parent = if r.p(0.5) { el } else { bx };
    let _any_parent = if d.name(any_parent) == "text" || d.name(any_parent) == "tspan" { bx } else { any_parent };
    if bad {
        let all: Vec<usize> = elements(d).into_iter().filter(|&n| !d.name(n).contains(':') && !["style", "title", "desc", "metadata"].contains(&d.name(n))).collect();
        let el = *r.pick(&all);
        let any_parent = if r.p(0.6) { *r.pick(&all) } else { bx };
        match r.below(8) {
            0 => { let e = place(r, d, any_parent, "script"); if r.p(0.5) { d.new_node(Some(e), Kind::CData("var a = 1;".into())); } }
            1 => { let nm = *r.pick(ANIM); let e = place(r, d, any_parent, nm); if r.p(0.5) { d.set(e, "attributeName", "x"); d.set(e, "to", "10"); d.set(e, "dur", "1s"); } }
            2 => { let a = *r.pick(EVENTS); let v = *r.pick(&["", "go()", "alert(1)"]); d.set(el, a, v); }
            3 => { let a = *r.pick(&["requiredFeatures", "systemLanguage"]); let v = *r.pick(&["en", "ru", "http://www.w3.org/TR/SVG11/feature#Shape", "en, ru"]); d.set(el, a, v); }
            4 | 5 => {
                // an external reference
                let nm = *r.pick(EXT_BAD);
                let h = *r.pick(&["other.svg#a", "http://example.org/f.svg#x", "../a.svg", "data:image/svg+xml,abc", "file.svg", "a#b"]);
                let p = if nm == "tref" || nm == "textPath" || nm == "altGlyph" { let t = place(r, d, bx, "text"); t } else { bx };
                let e = d.new_el(Some(p), nm);
                d.set(e, "xlink:href", h);
            }
            _ => {
                // gradients linked in a loop
                let n = r.range(2, 5) as usize;
                let base = 9000 + r.below(900) * 10;
                let mut ord: Vec<usize> = (0..n).collect();
                r.shuffle(&mut ord);
                for &i in &ord {
                    let nm = *r.pick(&["linearGradient", "radialGradient"]);
                    let p = *r.pick(&boxes);
                    let e = d.new_el(Some(p), nm);
                    d.set(e, "id", format!("loop{}", base + i));
                    d.set(e, "xlink:href", format!("#loop{}", base + (i + 1) % n));
                    if r.p(0.3) { let s = d.new_el(Some(e), "stop"); d.set(s, "offset", "0"); }
                }
                if r.p(0.5) {
                    // a tail
                    let e = d.new_el(Some(bx), "linearGradient");
                    d.set(e, "id", format!("tail{}", base));
                    d.set(e, "xlink:href", format!("#loop{}", base));
                }
            }
        }
    } else {
        match r.below(9) {
            0 => { let a = *r.pick(&["requiredFeatures", "systemLanguage"]); d.set(el, a, ""); }
            1 => { let nm = *r.pick(&["a", "image"]); let e = place(r, d, bx, nm); let h = *r.pick(&["http://example.org/", "a.png", "data:image/png;base64,AAAA", "../b.svg#c"]); d.set(e, "xlink:href", h); d.set(e, "width", "10"); d.set(e, "height", "10"); }
            2 => { let nm = *r.pick(&["x:script", "x:animate", "x:set", "x:onload"]); place(r, d, bx, nm); }
            3 => { let a = *r.pick(&["x:onclick", "x:onload", "x:requiredFeatures", "x:systemLanguage", "x:href"]); d.set(el, a, "script()"); }
            4 => { d.new_node(Some(bx), Kind::Comment("<script/> onload='' <animate/>".into())); }
            5 => { let e = place(r, d, bx, "desc"); d.new_node(Some(e), Kind::Text("script animate onload".into())); }
            6 => { let a = *r.pick(&["xlink:title", "xlink:role", "xlink:show"]); d.set(el, a, "http://example.org/other.svg#a"); }
            7 => {
                // a chain of gradients without a loop
                let n = r.range(2, 4) as usize;
                let base = 8000 + r.below(90) * 10;
                let nm = *r.pick(&["linearGradient", "radialGradient"]);
                for i in 0..n {
                    let p = *r.pick(&boxes);
                    let e = d.new_el(Some(p), nm);
                    d.set(e, "id", format!("chain{}", base + i));
                    if i + 1 < n { d.set(e, "xlink:href", format!("#chain{}", base + i + 1)); }
                }
            }
            _ => { d.set(el, "class", "script onload animate"); }
        }
    }
}

pub fn p15_check(c: &Case, info: &mut Info) -> Result<(), String> {
    let o = match pipeline::opts(&c.args) { Ok(o) => o, Err(e) => { info.excl(e); return Ok(()); } };
    let d = match xml::parse(&c.svg) { Ok(d) => d, Err(_) => { info.excl("malformed input"); return Ok(()); } };
    let want = causes(&d);
    if want.is_empty() { if let Some(l) = limits::out_of_domain(&d) { info.excl(l); return Ok(()); } }
    else if limits::dangling(&d) || limits::unresolvable(&d) { info.excl("dangling reference"); return Ok(()); }
    for w in &want { info.class(match w { Cause::Script => "scripting", Cause::Anim => "animation", Cause::Cond => "conditional", Cause::Ext => "external", Cause::Loop => "gradient-loop" }); }
    if want.is_empty() { info.class("supported"); }
    match pipeline::clean_once(&c.svg, &o) {
        Out::Ok(_) => if let Some(w) = want.first() { return Err(format!("an unsupported document ({:?}) is accepted", w)); },
        Out::Rejected(m) => {
            if want.is_empty() { return Err(format!("a supported document is rejected: {}", m)); }
            if !want.iter().any(|w| names_cause(&m, *w)) { return Err(format!("rejected for another reason: {:?} expected, got: {}", want, m)); }
        }
        Out::Panic(m) => return Err(format!("panic: {}", m)),
        Out::BadUtf8 => return Err("the output is not UTF-8".into()),
    }
    info.nontrivial = true;
    info.note = format!("{:?}", want);
    Ok(())
}

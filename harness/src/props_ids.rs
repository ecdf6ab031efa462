//! P12: references and ids.

use std::collections::{HashMap, HashSet};

use crate::gen::{Cfg, Gen};
use crate::pipeline::{self, Out};
use crate::props::{random_opts, write_extra, Info, OptSet};
use crate::props_doc::small;
use crate::render::local;
use crate::rng::Rng;
use crate::shrink::Case;
use crate::style;
use crate::values::url_ref;
use crate::xml::*;
use crate::{limits, xml};

const SHORT: &[&str] = &["a", "b", "c", "d", "e", "f", "z", "A", "B", "Z", "aa", "ab", "ba", "aA", "a0", "b1", "Z9", "aaa", "_", "_a", "x-1", "a.b", "SVGID_1_", "path1", "id", "é", "日本", "ßa", "a-", "a_b.c-d", "lg1", "rg1", "lg2", "rg2"];

/// All references of a document: (element, attribute or property, id).
fn refs(d: &Dom) -> Vec<(usize, String, String)> {
    let mut v = vec![];
    let sp = style::cascade(d);
    for n in d.walk() {
        if !d.is_el(n) { continue; }
        for (a, x) in d.attrs(n) {
            if a == "xlink:href" { if let Some(i) = x.trim().strip_prefix('#') { v.push((n, a.clone(), i.to_string())); } }
            else if style::pidx(a).is_none() && a != "style" && a != "marker" { if let Some((i, _)) = url_ref(x) { v.push((n, a.clone(), i)); } }
        }
        if let Some(s) = sp.get(&n) {
            for (k, x) in s { if let Some((i, _)) = url_ref(x) { v.push((n, style::PROPS[*k].0.to_string(), i)); } }
        }
    }
    v
}

/// The kind of element a reference has to resolve to; None: not restricted.
fn kind_ok(d: &Dom, n: usize, attr: &str, target: &str) -> bool {
    let grad = target == "linearGradient" || target == "radialGradient";
    match attr {
        "fill" | "stroke" => grad || target == "pattern",
        "clip-path" => target == "clipPath",
        "mask" => target == "mask",
        "filter" => target == "filter",
        "marker-start" | "marker-mid" | "marker-end" => target == "marker",
        "cursor" => target == "cursor",
        "xlink:href" => match local(d.name(n)) {
            "linearGradient" | "radialGradient" => grad,
            "pattern" => target == "pattern",
            "filter" => target == "filter",
            "textPath" => target == "path",
            "tref" => ["text", "tspan", "textPath", "tref"].contains(&target),
            "use" => ["svg", "g", "a", "switch", "symbol", "use", "rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "text", "image", "foreignObject"].contains(&target),
            _ => true,
        },
        _ => true,
    }
}

fn rename(d: &mut Dom, map: &HashMap<String, String>) {
    let sub = |s: &str| -> String {
        let mut o = String::new();
        let mut r = s;
        while let Some(k) = r.find('#') {
            o.push_str(&r[..k + 1]);
            r = &r[k + 1..];
            let e = r.find(|c: char| !(c.is_alphanumeric() || c == '_' || c == '-')).unwrap_or(r.len());
            match map.get(&r[..e]) { Some(x) => o.push_str(x), None => o.push_str(&r[..e]) }
            r = &r[e..];
        }
        o.push_str(r);
        o
    };
    for n in d.walk() {
        let is_style = d.parent(n).map(|p| d.is_el(p) && d.name(p) == "style").unwrap_or(false);
        if d.is_el(n) {
            for x in d.attrs_mut(n) {
                if x.0 == "id" { if let Some(y) = map.get(&x.1) { x.1 = y.clone(); } }
                else if x.1.contains('#') { x.1 = sub(&x.1); }
            }
        }
        match d.nodes[n].kind {
            Kind::Text(ref mut s) | Kind::CData(ref mut s) if is_style => { *s = sub(s); }
            _ => {}
        }
    }
}

pub fn gen(r: &mut Rng) -> Case {
    let c = Cfg { n_grad: (0, 4), n_clip: (0, 2), n_mask: (0, 1), n_pattern: (0, 1), n_marker: (0, 1), n_filter: (0, 1), n_symbol: (0, 1), n_defshape: (0, 2), w_use: 8, w_text: 3, p_group_fx: 0.3, p_shape_fx: 0.3, p_grad_paint: 0.5,
        p_id: 0.5, p_css: if r.p(0.15) { 0.6 } else { 0.0 }, p_style_attr: 0.3, p_rich: 0.2, p_nonsvg: 0.02, p_misc_nodes: 0.02, ..small(r) };
    let mut d = Gen::new(r, c).document();
    let root = d.root;
    // many ids
    let m = match r.below(40) { 0..=27 => 0, 28..=31 => r.below(12), 32..=35 => r.range(40, 60) as usize, 36..=38 => r.range(60, 220) as usize, _ => if r.p(0.03) { r.range(3190, 3330) as usize } else { 0 } };
    if m > 0 {
        let defs = d.new_el(Some(root), "defs");
        let used = *r.pick(&[0.0, 0.5, 0.9, 1.0]);
        for i in 0..m {
            let id = format!("many{}", i);
            let kind = if m > 1000 { 0 } else { r.below(4) };
            match kind {
                0 | 1 => {
                    let g = d.new_el(Some(defs), if r.p(0.5) { "linearGradient" } else { "radialGradient" });
                    d.set(g, "id", id.clone());
                    if i > 0 && r.p(0.1) { let j = r.below(i); d.set(g, "xlink:href", format!("#many{}", j)); }
                    for k in 0..2 { let s = d.new_el(Some(g), "stop"); d.set(s, "offset", format!("{}", k)); d.set(s, "stop-color", format!("#{:06x}", (i * 2 + k) % 0xffffff)); }
                }
                2 => { let g = d.new_el(Some(defs), "clipPath"); d.set(g, "id", id.clone()); let s = d.new_el(Some(g), "rect"); d.set(s, "width", format!("{}", i + 5)); d.set(s, "height", "7"); }
                _ => { let g = d.new_el(Some(defs), "rect"); d.set(g, "id", id.clone()); d.set(g, "width", format!("{}", i + 5)); d.set(g, "height", "7"); }
            }
            if r.p(used) {
                let e = d.new_el(Some(root), if kind == 3 { "use" } else { "rect" });
                match kind {
                    0 | 1 => if r.p(0.3) { d.set(e, "style", format!("fill:url(#{})", id)); } else { d.set(e, if r.p(0.7) { "fill" } else { "stroke" }, format!("url(#{})", id)); },
                    2 => d.set(e, "clip-path", format!("url(#{})", id)),
                    _ => d.set(e, "xlink:href", format!("#{}", id)),
                }
                if kind != 3 { d.set(e, "width", "20"); d.set(e, "height", "20"); }
            }
        }
        // references to elements whose own references form chains (a gradient to a clip path) are in error
        for n in d.walk() {
            if !d.is_el(n) || !d.name(n).ends_with("Gradient") { continue; }
            if let Some(h) = d.attr(n, "xlink:href").map(|x| x[1..].to_string()) {
                let t = d.ids().get(&h).map(|&t| d.name(t).to_string());
                if t.map(|t| t != d.name(n)).unwrap_or(true) { d.unset(n, "xlink:href"); }
            }
        }
    }
    // ids that collide with the ones the cleaner selects
    let css = d.walk().iter().any(|&n| d.is_el(n) && d.name(n) == "style");
    if r.p(0.75) {
        let mut ids: Vec<String> = d.walk().into_iter().filter(|&n| d.is_el(n)).filter_map(|n| d.attr(n, "id").map(|s| s.to_string())).collect();
        let mut pool: Vec<String> = SHORT.iter().filter(|s| !css || s.chars().all(|c| c.is_ascii_alphanumeric())).map(|s| s.to_string()).collect();
        if r.p(0.4) { for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ".chars() { if !pool.iter().any(|x| x.len() == 1 && x.starts_with(c)) { pool.push(c.to_string()); } } }
        r.shuffle(&mut pool);
        r.shuffle(&mut ids);
        let p = *r.pick(&[0.3, 0.7, 1.0]);
        let mut map = HashMap::new();
        for i in ids { if r.p(p) { if let Some(x) = pool.pop() { map.insert(i, x); } } }
        rename(&mut d, &map);
    }
    // ids the cleaner would choose for new gradients
    if r.p(0.2) {
        let gr: Vec<usize> = d.walk().into_iter().filter(|&n| d.is_el(n) && (d.name(n) == "linearGradient" || d.name(n) == "radialGradient") && d.el_children(n).len() > 1).collect();
        if gr.len() > 1 {
            // equal stops
            let (a, b) = (gr[0], gr[1]);
            d.nodes[b].children.clear();
            for k in d.el_children(a) { let x = d.attrs(k).to_vec(); let s = d.new_el(Some(b), "stop"); for (n, v) in x { if n != "id" { d.set(s, &n, v); } } }
            let taken: HashSet<String> = d.walk().into_iter().filter(|&n| d.is_el(n)).filter_map(|n| d.attr(n, "id").map(|s| s.to_string())).collect();
            let other: Vec<usize> = d.walk().into_iter().filter(|&n| d.is_el(n) && n != root && !gr.contains(&n) && d.name(n) != "stop").collect();
            if !other.is_empty() {
                for id in ["lg1", "rg1", "lg2"] {
                    if taken.contains(id) || r.p(0.4) { continue; }
                    let n = *r.pick(&other);
                    if d.attr(n, "id").is_none() && d.attr(n, "xlink:href").is_none() { d.set(n, "id", id); }
                }
            }
        }
    }
    let plain = r.p(0.5);
    let args = if plain {
        let mut o = OptSet::none();
        if r.p(0.85) { o.set.insert("trim-ids", true); }
        if r.p(0.5) { o.set.insert("remove-unreferenced-ids", true); }
        if r.p(0.3) { write_extra(r, &mut o); }
        // an own mark of each element
        d.set(root, "xmlns:k", "urn:k");
        let mut k = 0;
        for n in d.walk() { if d.is_el(n) && !d.name(n).contains(':') { d.set(n, "k:k", format!("{}", k)); k += 1; } }
        o.fix().args()
    } else { random_opts(r, &["trim-ids", "remove-unreferenced-ids"]).args() };
    Case { svg: d.to_xml(), args }
}

pub fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    let o = match pipeline::opts(&c.args) { Ok(o) => o, Err(e) => { info.excl(e); return Ok(()); } };
    let d = match xml::parse(&c.svg) { Ok(d) => d, Err(_) => { info.excl("malformed input"); return Ok(()); } };
    if let Some(l) = limits::out_of_domain(&d) { info.excl(l); return Ok(()); }
    if let Some(l) = limits::excluded_options(&d, &c.args) { info.excl(l); return Ok(()); }
    let els = |d: &Dom| -> Vec<usize> { d.walk().into_iter().filter(|&n| d.is_el(n)).collect() };
    let mut seen = HashSet::new();
    for n in els(&d) { if let Some(i) = d.attr(n, "id") { if i.is_empty() || !seen.insert(i.to_string()) { info.excl("repeated id"); return Ok(()); } } }
    let out = match pipeline::clean_once(&c.svg, &o) {
        Out::Ok(s) => s,
        Out::Rejected(m) => return Err(format!("a valid document is rejected: {}", m)),
        Out::Panic(m) => return Err(format!("panic: {}", m)),
        Out::BadUtf8 => return Err("the output is not UTF-8".into()),
    };
    let e = xml::parse(&out).map_err(|m| format!("malformed output: {}", m))?;
    let (ri, ro) = (refs(&d), refs(&e));
    let byid = d.ids();
    // ids
    let mut ids: HashMap<&str, usize> = HashMap::new();
    for n in els(&e) {
        if let Some(i) = e.attr(n, "id") {
            if let Some(p) = ids.insert(i, n) { return Err(format!("the id '{}' is set on two elements: {} and {}", i, e.name(p), e.name(n))); }
        }
    }
    // references
    let in_kinds = ri.iter().all(|(n, a, i)| byid.get(i.as_str()).map(|&t| kind_ok(&d, *n, a, local(d.name(t)))).unwrap_or(true));
    for (n, a, i) in &ro {
        match ids.get(i.as_str()) {
            None => return Err(format!("<{}> {}: '{}' does not resolve", e.name(*n), a, i)),
            Some(&t) => if in_kinds && !kind_ok(&e, *n, a, local(e.name(t))) { return Err(format!("<{}> {}: '{}' resolves to <{}>", e.name(*n), a, i, e.name(t))); },
        }
    }
    let set: HashSet<&str> = ro.iter().map(|x| x.2.as_str()).collect();
    let nd = c.args.iter().any(|a| a == "--no-defaults");
    let on = |f: &str| c.args.iter().rev().find_map(|a| a.strip_prefix("--").and_then(|a| a.strip_prefix(f)).and_then(|a| a.strip_prefix('='))).map(|v| v == "true").unwrap_or(!nd);
    if on("remove-unreferenced-ids") {
        for (i, n) in &ids { if !set.contains(i) { return Err(format!("the unreferenced id '{}' of <{}> is kept", i, e.name(*n))); } }
        info.class("unreferenced-ids");
    }
    if on("trim-ids") {
        let k = ids.len();
        let two = 52 * 62;
        let best = if k <= 52 { k } else if k <= 52 + two { 52 + (k - 52) * 2 } else { 52 + two * 2 + (k - 52 - two) * 3 };
        let got: usize = ids.keys().map(|i| i.len()).sum();
        for i in ids.keys() {
            let mut ch = i.chars();
            if !ch.next().map(|c| c.is_alphabetic() || c == '_').unwrap_or(false) || !ch.all(|c| c.is_alphanumeric() || "-_.".contains(c)) { return Err(format!("'{}' is not a valid id", i)); }
        }
        if got > best { return Err(format!("{} trimmed ids take {} bytes, {} would be enough", k, got, best)); }
        info.class("trim-ids");
        if k > 52 { info.class("two-letter-ids"); }
        if k > 52 + two { info.class("three-letter-ids"); }
    }
    // every element keeps its references
    let mark = |d: &Dom, n: usize| -> Option<String> { d.attr(n, "k:k").map(|s| s.to_string()) };
    if mark(&d, d.root).is_some() && nd && c.args.iter().skip(1).all(|a| a.starts_with("--trim-ids") || a.starts_with("--remove-unreferenced-ids") || !(a.ends_with("true"))) {
        let of: HashMap<String, usize> = els(&e).into_iter().filter_map(|n| mark(&e, n).map(|m| (m, n))).collect();
        let have: HashMap<(usize, &str), &str> = ro.iter().map(|(n, a, i)| ((*n, a.as_str()), i.as_str())).collect();
        let mut used: HashSet<&str> = HashSet::new();
        for (n, a, i) in &ri {
            let t = match byid.get(i.as_str()) { Some(t) => *t, None => continue };
            used.insert(i);
            let (km, tm) = match (mark(&d, *n), mark(&d, t)) { (Some(x), Some(y)) => (x, y), _ => continue };
            let m = *of.get(&km).ok_or_else(|| format!("<{}> is lost", d.name(*n)))?;
            let want = *of.get(&tm).ok_or_else(|| format!("referenced <{}> is lost", d.name(t)))?;
            let got = have.get(&(m, a.as_str())).ok_or_else(|| format!("<{}> lost its reference {}: '{}'", d.name(*n), a, i))?;
            if ids.get(got) != Some(&want) { return Err(format!("<{}> {}: '{}' became a reference to another element, '{}'", d.name(*n), a, i, got)); }
        }
        for n in els(&d) {
            if let (Some(i), Some(k)) = (d.attr(n, "id"), mark(&d, n)) {
                if d.name(n) == "defs" || tree_nonsvg(&d, n) { continue; }
                let m = *match of.get(&k) { Some(m) => m, None => continue };
                let keep = used.contains(i) || !on("remove-unreferenced-ids");
                match e.attr(m, "id") {
                    None if keep => return Err(format!("the id '{}' of <{}> is lost", i, d.name(n))),
                    Some(x) if !on("trim-ids") && x != i => return Err(format!("the id '{}' is renamed to '{}'", i, x)),
                    _ => {}
                }
            }
        }
        info.class("exact");
    }
    info.nontrivial = ro.len() > 0 && ids.len() > 1;
    info.note = format!("{} ids, {} references", ids.len(), ro.len());
    Ok(())
}

fn tree_nonsvg(d: &Dom, n: usize) -> bool { crate::tree::is_nonsvg_el(d, n) }

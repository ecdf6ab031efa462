//! Inputs outside of the specified domain of the rendering properties: documents in error, documents with
//! implementation-defined rendering, and the confirmed limits of the XML/CSS parser library (see DESIGN.md).

use std::collections::HashSet;

use crate::style::{parse_decls, pidx};
use crate::render::local;

use crate::values::*;
use crate::xml::*;

/// The replays of the known findings run with the limits turned off.
pub fn disabled() -> bool {
    static OFF: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *OFF.get_or_init(|| std::env::var("SVGCHECK_NO_LIMITS").is_ok())
}

fn find_urls(v: &str, out: &mut Vec<String>) {
    let mut r = v;
    while let Some(k) = r.find("url(") {
        r = &r[k + 4..];
        let e = match r.find(')') { Some(e) => e, None => return };
        let id = r[..e].trim().trim_matches(|c| c == '\'' || c == '"');
        if let Some(i) = id.strip_prefix('#') { out.push(i.to_string()); } else { out.push(format!("!{}", id)); }
        r = &r[e..];
    }
}

pub fn css_text(d: &Dom) -> String {
    let mut s = String::new();
    for n in d.walk() { if d.is_el(n) && local(d.name(n)) == "style" { s.push_str(&d.text_of(n)); s.push('\n'); } }
    s
}

/// References (ids) used anywhere in the document.
pub fn references(d: &Dom) -> Vec<String> {
    let mut v = vec![];
    for n in d.walk() {
        if !d.is_el(n) { continue; }
        for (a, val) in d.attrs(n) {
            if a == "xlink:href" || a == "href" {
                if local(d.name(n)) == "a" { continue; }
                if let Some(i) = val.trim().strip_prefix('#') { v.push(i.to_string()); }
            } else { find_urls(val, &mut v); }
        }
    }
    find_urls(&css_text(d), &mut v);
    v
}

pub fn dangling(d: &Dom) -> bool {
    let ids: HashSet<&str> = d.walk().into_iter().filter(|&n| d.is_el(n)).filter_map(|n| d.attr(n, "id")).collect();
    references(d).iter().any(|r| !ids.contains(r.as_str()))
}

/// The reason why the document is outside of the domain of the rendering properties.
pub fn out_of_domain(d: &Dom) -> Option<&'static str> {
    if disabled() { return None; }
    if dangling(d) { return Some("dangling-reference"); }
    if unresolvable(d) { return Some("unresolvable-inherit"); }
    let css = css_text(d);
    let byid = |i: &str| d.walk().into_iter().find(|&n| d.is_el(n) && d.attr(n, "id") == Some(i));
    let hrefs = |n: usize| d.attr(n, "xlink:href").and_then(|h| h.trim().strip_prefix('#')).and_then(|i| byid(i));
    for n in d.walk() {
        if !d.is_el(n) { continue; }
        let nm = local(d.name(n));
        // svgdom: a linked presentation attribute wins over 'style' and CSS
        for (a, v) in d.attrs(n) {
            if v.contains("url(") && pidx(a).is_some() {
                let over = d.attr(n, "style").map(|s| parse_decls(s).iter().any(|(p, _)| p == a)).unwrap_or(false) || css.contains(a.as_str());
                if over { return Some("svgdom-link-attribute-priority"); }
            }
        }
        if nm == "linearGradient" || nm == "radialGradient" {
            // which attributes pass through a gradient of another kind is not specified
            if let Some(t) = hrefs(n) {
                if local(d.name(t)) != nm && d.attr(t, "xlink:href").is_some() { return Some("mixed-gradient-chain"); }
            }
        }
        if nm == "stop" && d.attr(n, "offset").is_none() { return Some("missing-offset"); }
        if current_color_via_use(d, n, &css) { return Some("currentColor-via-use"); }
        if d.attr(n, "xlink:href").is_some() {
            // svgdom drops an identity transform even when it overrides the one of the linked gradient/pattern
            for a in ["gradientTransform", "patternTransform"] {
                if let Some(m) = d.attr(n, a).and_then(transform) { if m.near_identity() { return Some("svgdom-identity-transform"); } }
            }
        }
        if nm == "path" {
            if let Some(v) = d.attr(n, "d") {
                // a repeated closed curve is removed (known finding; pinned by the unit test rm_equal_1)
                for s in crate::values::path_geom(&path_raw(v).0) {
                    let segs: Vec<_> = s.segs.iter().filter(|x| !x.is_point()).collect();
                    for w in segs.windows(2) {
                        let e = |a: Pt, b: Pt| pt_dist(a, b) < 1e-4;
                        if e(w[0].start(), w[0].end()) && [0.0, 0.25, 0.5, 0.75, 1.0].iter().all(|t| e(w[0].at(*t), w[1].at(*t))) { return Some("repeated-closed-curve"); }
                    }
                }
            }
        }
        if nm == "polygon" || nm == "polyline" {
            if let Some(v) = d.attr(n, "points") { let k = v.split(|c: char| c == ',' || c.is_ascii_whitespace()).filter(|x| !x.is_empty()).count(); if k > 0 && k < 4 { return Some("single-point-poly"); } }
        }
        if nm == "text" {
            // svgdom does not unescape a text which has an element as a first child
            let mut sub = vec![];
            d.walk_from(n, &mut sub);
            if sub.iter().any(|&k| k != n && d.is_el(k) && (decl(d, k, "display") || (css.contains("display") && d.attr(k, "class").is_some()))) { return Some("svgdom-hidden-tspan-whitespace"); }
            let kids = d.children(n);
            if let Some(&f) = kids.first() {
                if d.is_el(f) && d.text_of(n).contains(|c| c == '&' || c == '<' || c == '>' || c == '"' || c == '\'') { return Some("svgdom-text-unescape"); }
            }
        }
    }

    None
}

/// Combinations of options and content with a known finding (see known_findings.txt).
pub fn excluded_options(d: &Dom, args: &[String]) -> Option<&'static str> {
    if disabled() { return None; }
    let nd = args.iter().any(|a| a == "--no-defaults");
    let get = |n: &str| -> bool {
        for a in args { if let Some(v) = a.strip_prefix("--").and_then(|a| a.strip_prefix(n)).and_then(|a| a.strip_prefix('=')) { return v == "true"; } }
        !nd
    };
    if get("remove-nonsvg-attributes") && !get("remove-nonsvg-elements") && d.walk().iter().any(|&n| d.is_el(n) && d.name(n).contains(':') && !d.name(n).starts_with("svg:")) {
        return Some("nonsvg-elements-without-namespace");
    }
    None
}

/// `inherit` or `currentColor` without an ancestor that has a value: rejected by design (`UnresolvedAttribute`).
pub fn unresolvable(d: &Dom) -> bool {
    let sp = crate::style::cascade(d);
    let ck = pidx("color").unwrap();
    for (n, v) in &sp {
        for x in v {
            let k = if &*x.1 == "inherit" { x.0 } else if &*x.1 == "currentColor" && x.0 != ck { ck } else { continue };
            if k == ck && &*x.1 == "currentColor" && v.iter().any(|y| y.0 == ck && &*y.1 != "inherit") { continue; }
            // an explicitly inherited value of a linked element differs between its instances
            if &*x.1 == "inherit" && !crate::style::PROPS[k].1 {
                if let Some(i) = d.attr(*n, "id") {
                    let h = format!("#{}", i);
                    if d.walk().into_iter().any(|u| d.is_el(u) && local(d.name(u)) == "use" && d.attr(u, "xlink:href").map(|x| x.trim() == h).unwrap_or(false)) { return true; }
                }
            }
            let mut j = *n;
            let mut found = false;
            while let Some(p) = d.parent(j) { if sp.get(&p).map(|s| s.iter().any(|y| y.0 == k)).unwrap_or(false) { found = true; break; } j = p; }
            if !found { return true; }
        }
    }
    false
}

/// Has an own color, and not the one of the parent.
fn own_color(d: &Dom, n: usize) -> bool {
    let css = |v: &str| parse_decls(v).iter().any(|q| q.0 == "color" && q.1.trim() != "inherit");
    d.attr(n, "color").map(|v| v.trim() != "inherit").unwrap_or(false) || d.attr(n, "style").map(css).unwrap_or(false)
}

fn decl(d: &Dom, n: usize, p: &str) -> bool {
    d.attr(n, p).is_some() || d.attr(n, "style").map(|s| parse_decls(s).iter().any(|q| q.0 == p)).unwrap_or(false)
}

/// `currentColor` in a content of a `use` whose `color` comes from outside of that content.
fn current_color_via_use(d: &Dom, n: usize, css: &str) -> bool {
    let uses = d.attrs(n).iter().any(|(a, v)| a != "color" && v.contains("currentColor")) || (css.contains("currentColor") && d.attr(n, "class").is_some());
    if !uses { return false; }
    let mut k = n;
    loop {
        if own_color(d, k) { return false; }
        if let Some(i) = d.attr(k, "id") {
            let h = format!("#{}", i);
            if d.walk().into_iter().any(|u| d.is_el(u) && local(d.name(u)) == "use" && d.attr(u, "xlink:href").map(|x| x.trim() == h).unwrap_or(false)) { return true; }
        }
        match d.parent(k) { Some(p) => k = p, None => return false }
    }
}

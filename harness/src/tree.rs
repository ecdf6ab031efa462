//! Documents as trees of values: equality of two documents up to the notation of their values.

use std::collections::{BTreeMap, HashSet};

use crate::render::local;
use crate::style::parse_decls;
use crate::values::*;
use crate::xml::*;

#[derive(Clone, Debug)]
pub enum K { El(T), Comment(String) }

#[derive(Clone, Debug, Default)]
pub struct T {
    pub name: String,
    pub attrs: BTreeMap<String, String>,
    pub kids: Vec<K>,
    /// character data of the element itself, words only
    pub text: String,
}

/// Decimals kept for each kind of a number.
#[derive(Clone, Copy, Debug)]
pub struct Prec { pub coord: i32, pub prop: i32, pub ts: i32, pub path: i32, /** path data is converted to relative */ pub rel: bool }

pub struct Doc { pub prolog: Vec<String>, pub decl: Option<String>, pub root: T, pub epilog: Vec<String> }

fn squeeze(s: &str) -> String { s.split_whitespace().collect::<Vec<_>>().join(" ") }

fn comments(v: &[usize], d: &Dom) -> Vec<String> {
    v.iter().filter_map(|&n| match &d.nodes[n].kind { Kind::Comment(c) => Some(c.clone()), _ => None }).collect()
}

/// What is kept. Everything is kept by `Keep::ALL`.
#[derive(Clone, Copy, Debug)]
pub struct Keep { pub comments: bool, pub decl: bool, pub title: bool, pub desc: bool, pub metadata: bool, pub nonsvg_el: bool, pub nonsvg_attr: bool, pub version: bool, pub classes: bool }
impl Keep { pub const ALL: Keep = Keep { comments: true, decl: true, title: true, desc: true, metadata: true, nonsvg_el: true, nonsvg_attr: true, version: true, classes: true }; }

pub fn is_nonsvg_el(d: &Dom, n: usize) -> bool { !SVG_ELEMENTS.contains(&local(d.name(n))) || (d.name(n).contains(':') && !d.name(n).starts_with("svg:")) }
pub fn is_nonsvg_attr(a: &str) -> bool { !SVG_ATTRS.contains(&a) }

/// Nodes of a character data element: comments in them are not kept by the parser library.
fn in_text(d: &Dom, n: usize) -> bool {
    let mut k = Some(n);
    while let Some(i) = k {
        if d.is_el(i) && d.children(i).iter().any(|&c| match &d.nodes[c].kind { Kind::Text(t) => !t.trim().is_empty(), Kind::CData(_) => true, _ => false } || (d.is_el(c) && ["tspan", "tref"].contains(&local(d.name(c))))) { return true; }
        if d.is_el(i) && local(d.name(i)) == "text" { return true; }
        k = d.parent(i);
    }
    false
}

pub fn model(d: &Dom, k: &Keep) -> Doc {
    let mut main = None;
    let mut moved = vec![];
    let mut rest = vec![];
    let mut root = conv(d, d.root, k, &mut main, &mut moved, &mut rest, false);
    let mut m = main.unwrap_or_else(|| T { name: "defs".into(), ..T::default() });
    m.kids.extend(moved);
    m.kids.extend(rest);
    if !m.kids.is_empty() || !m.attrs.is_empty() && !m.kids.is_empty() { root.kids.insert(0, K::El(m)); }
    let dc = d.decl.as_ref().filter(|_| k.decl).map(|s| decl_norm(s));
    if d.walk().iter().any(|&n| d.is_el(n) && d.attr(n, "xlink:href").is_some() && !is_nonsvg_el(d, n)) { root.attrs.entry("xmlns:xlink".into()).or_insert_with(|| "http://www.w3.org/1999/xlink".into()); }
    let c = |v: &[usize]| if k.comments { comments(v, d) } else { vec![] };
    Doc { prolog: c(&d.prolog), decl: dc, root, epilog: c(&d.epilog) }
}

pub fn decl_norm(s: &str) -> String {
    // version="1.0" encoding="UTF-8" in any quotes
    squeeze(&s.replace('\'', "\"").replace(" =", "=").replace("= ", "="))
}

fn is_def(n: &str) -> bool { ["altGlyphDef", "clipPath", "cursor", "filter", "linearGradient", "marker", "mask", "pattern", "radialGradient", "symbol"].contains(&n) }

fn conv(d: &Dom, n: usize, k: &Keep, main: &mut Option<T>, moved: &mut Vec<K>, rest: &mut Vec<K>, in_main: bool) -> T {
    let nm = local(d.name(n)).to_string();
    let non = is_nonsvg_el(d, n);
    let mut t = T { name: if non { d.name(n).to_string() } else { nm.clone() }, ..T::default() };
    let mut style = vec![];
    for (a, v) in d.attrs(n) {
        if non { if !SVG_ATTRS.contains(&a.as_str()) && k.nonsvg_attr { t.attrs.insert(a.clone(), v.clone()); } continue; }
        if !k.nonsvg_attr && is_nonsvg_attr(a) { continue; }
        if (a == "version" || a == "baseProfile") && nm == "svg" && n == d.root && !k.version { continue; }
        if a == "class" && !k.classes { continue; }
        if a == "style" { style = parse_decls(v); continue; }
        if ["transform", "gradientTransform", "patternTransform"].contains(&a.as_str()) { if let Some(m) = transform(v) { if m.near_identity() { continue; } } }
        t.attrs.insert(a.clone(), v.clone());
    }
    for (p, v) in style { if k.nonsvg_attr || !is_nonsvg_attr(&p) { if !p.starts_with('-') { t.attrs.insert(p, v); } } }
    let txt = in_text(d, n);
    for &c in d.children(n) {
        match &d.nodes[c].kind {
            Kind::Text(s) | Kind::CData(s) => { t.text.push_str(s); }
            Kind::Comment(s) => if k.comments && !txt { t.kids.push(K::Comment(s.clone())); },
            Kind::Pi(..) => {}
            Kind::El { .. } => {
                t.text.push('\u{1}');
                let cn = local(d.name(c));
                let non = is_nonsvg_el(d, c);
                if non && !k.nonsvg_el { continue; }
                if !non && (cn == "style" || (cn == "title" && !k.title) || (cn == "desc" && !k.desc) || (cn == "metadata" && !k.metadata)) { continue; }
                if cn == "defs" && !non && main.is_none() {
                    // reserve
                    *main = Some(T::default());
                    let m = conv(d, c, k, main, moved, rest, true);
                    *main = Some(m);
                    continue;
                }
                if cn == "defs" && !non {
                    let x = conv(d, c, k, main, moved, rest, true);
                    rest.extend(x.kids);
                    continue;
                }
                let x = conv(d, c, k, main, moved, rest, false);
                if is_def(cn) && !non && !(in_main && nm == "defs") { moved.push(K::El(x)); } else { t.kids.push(K::El(x)); }
            }
        }
    }
    t.text = t.text.split('\u{1}').map(squeeze).collect::<Vec<_>>().join("\u{1}");
    if t.text.chars().all(|c| c == '\u{1}' || c == ' ') { t.text.clear(); }
    t
}

// ---- comparison ------------------------------------------------------------------

pub fn diff(a: &Doc, b: &Doc, p: &Prec) -> Result<u64, String> {
    if a.decl != b.decl { return Err(format!("declaration: {:?} vs {:?}", a.decl, b.decl)); }
    if a.prolog != b.prolog { return Err(format!("comments before the root: {:?} vs {:?}", a.prolog, b.prolog)); }
    if a.epilog != b.epilog { return Err(format!("comments after the root: {:?} vs {:?}", a.epilog, b.epilog)); }
    let mut n = 0;
    el(&a.root, &b.root, p, "", &mut n)?;
    Ok(n)
}

fn el(a: &T, b: &T, p: &Prec, path: &str, n: &mut u64) -> Result<(), String> {
    let path = &format!("{}/{}", path, a.name);
    if a.name != b.name { return Err(format!("{}: element '{}' became '{}'", path, a.name, b.name)); }
    for (k, v) in &a.attrs {
        match b.attrs.get(k) {
            // the parser drops a transform that is this close to the identity
            None if is_ts(k) && transform(v).map(|m| m.arr().iter().zip(&[1.0, 0.0, 0.0, 1.0, 0.0, 0.0]).all(|(x, y)| (x - y).abs() < 1e-8)).unwrap_or(false) => {}
            None if is_ts(k) => attr(&a.name, k, v, "matrix(1 0 0 1 0 0)", p, n).map_err(|e| format!("{}: {}='{}' is lost: {}", path, k, v, e))?,
            None => return Err(format!("{}: attribute {}='{}' is lost", path, k, v)),
            Some(w) => attr(&a.name, k, v, w, p, n).map_err(|e| format!("{}: {}='{}' became '{}': {}", path, k, v, w, e))?,
        }
    }
    for (k, v) in &b.attrs { if is_ts(k) && !a.attrs.contains_key(k) { attr(&a.name, k, "matrix(1 0 0 1 0 0)", v, p, n).map_err(|e| format!("{}: {}='{}' is new: {}", path, k, v, e))?; continue; } if k != "xmlns:xlink" && !a.attrs.contains_key(k) { return Err(format!("{}: attribute {}='{}' is new", path, k, v)); } }
    if a.text.replace('\u{1}', "") .split_whitespace().collect::<String>() != b.text.replace('\u{1}', "").split_whitespace().collect::<String>() { return Err(format!("{}: text {:?} became {:?}", path, a.text, b.text)); }
    for (i, x) in a.kids.iter().enumerate() {
        match (x, b.kids.get(i)) {
            (K::El(x), Some(K::El(y))) => el(x, y, p, path, n)?,
            (K::Comment(x), Some(K::Comment(y))) => if x != y { return Err(format!("{}: comment {:?} became {:?}", path, x, y)); },
            (x, y) => return Err(format!("{}: child {} {} became {}", path, i, show(Some(x)), show(y))),
        }
    }
    if b.kids.len() > a.kids.len() { return Err(format!("{}: a new child {}", path, show(b.kids.get(a.kids.len())))); }
    Ok(())
}

fn is_ts(k: &str) -> bool { k == "transform" || k == "gradientTransform" || k == "patternTransform" }

fn show(k: Option<&K>) -> String { match k { None => "nothing".into(), Some(K::El(t)) => format!("<{}>", t.name), Some(K::Comment(c)) => format!("<!--{}-->", c) } }

/// Half of a unit of the last kept digit, and a relative error of a double.
fn close(a: f64, b: f64, k: i32) -> bool {
    // the writer itself keeps 11 digits
    let half = if k > 11 { 0.5e-11 } else { 0.5 * 10f64.powi(-k) };
    (a - b).abs() <= half * (1.0 + 1e-9) + a.abs() * 4e-15 + 1e-13
}
/// A written number has no more digits than selected.
fn digits(text: &str, k: i32) -> bool {
    if k > 12 { return true; }
    // numbers may be glued together: only the digits after each point count
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '.' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let whole = b[..i].iter().rev().take_while(|c| c.is_ascii_digit()).count() as i32;
            // a double has no more than 15 digits
            if (j - i - 1) as i32 > k && whole + k < 15 { return false; }
            i = j;
        } else { i += 1; }
    }
    true
}

/// The kind of numbers of an attribute.
fn prec_of(a: &str, p: &Prec) -> Option<i32> {
    Some(match a {
        "x" | "y" | "dx" | "dy" | "x1" | "y1" | "x2" | "y2" | "r" | "rx" | "ry" | "cx" | "cy" | "fx" | "fy" | "width" | "height" | "stroke-dasharray" => p.coord,
        "stroke-dashoffset" | "stroke-miterlimit" | "stroke-width" | "opacity" | "fill-opacity" | "flood-opacity" | "stroke-opacity" | "stop-opacity" | "font-size" => p.prop,
        "d" | "points" | "viewBox" => p.path,
        _ => return None,
    })
}

fn unit(u: Unit) -> Unit { if u == Unit::Px { Unit::None } else { u } }

pub fn attr(elname: &str, k: &str, a: &str, b: &str, p: &Prec, n: &mut u64) -> Result<(), String> {
    if a == b && prec_of(k, p).map(|x| x > 12).unwrap_or(true) { return Ok(()); }
    let bad = |m: &str| Err(m.to_string());
    if a == "inherit" || b == "inherit" { return if a.trim() == b.trim() { Ok(()) } else { bad("inherit") }; }
    match k {
        "d" => {
            let (x, y) = (path_raw(a), path_raw(b));
            if !y.1 { return bad("invalid path data"); }
            if p.rel { return relative(x.0, y.0, p.path, n); }
            if x.0.len() != y.0.len() { return Err(format!("{} segments vs {}", x.0.len(), y.0.len())); }
            for (i, (s, t)) in x.0.iter().zip(y.0.iter()).enumerate() {
                let z = |c: u8| if c == b'Z' || c == b'z' { b'z' } else { c };
                if z(s.cmd) != z(t.cmd) { return Err(format!("segment {}: command {} vs {}", i, s.cmd as char, t.cmd as char)); }
                for (u, v) in s.v.iter().zip(t.v.iter()) { *n += 1; if !close(*u, *v, p.path) { return Err(format!("segment {}: {} vs {}", i, u, v)); } }
            }
            if !digits(b, p.path) { return bad("more digits than selected"); }
            return Ok(());
        }
        "transform" | "gradientTransform" | "patternTransform" => {
            let (x, y) = match (transform(a), transform(b)) { (Some(x), Some(y)) => (x, y), _ => return bad("invalid transform") };
            *n += 6;
            // written as rotate(), skewX() or skewY(): an angle of the matrix
            let q = if b.contains("rotate") || b.contains("skew") { 1e-7 } else { 0.0 };
            for (i, (u, v)) in x.arr().iter().zip(y.arr().iter()).enumerate() {
                // the writer itself keeps 10 digits
                let k = (if i < 4 { p.ts } else { p.coord }).min(10);
                if !(close(*u, *v, k) || q > 0.0 && (u - v).abs() <= q + 0.5 * 10f64.powi(-k.min(9))) { return Err(format!("component {}: {} vs {}", i, u, v)); }
            }
            return Ok(());
        }
        "points" | "viewBox" => {
            let (x, y) = match (numbers(a), numbers(b)) { (Some(x), Some(y)) => (x, y), _ => return bad("invalid numbers") };
            if x.len() != y.len() { return bad("count of numbers"); }
            for (u, v) in x.iter().zip(y.iter()) { *n += 1; if !close(*u, *v, p.path) { return Err(format!("{} vs {}", u, v)); } }
            return if digits(b, p.path) { Ok(()) } else { bad("more digits than selected") };
        }
        "fill" | "stroke" => return if paint(a).is_some() && paint(a) == paint(b) { Ok(()) } else { bad("paint") },
        "stop-color" | "flood-color" | "lighting-color" | "color" => {
            if let (Some(x), Some(y)) = (color(a), color(b)) { return if x == y { Ok(()) } else { bad("color") }; }
            return if a.trim() == b.trim() { Ok(()) } else { bad("color") };
        }
        "font-family" => { let q = |s: &str| squeeze(&s.replace('\'', "").replace('"', "")); return if q(a) == q(b) { Ok(()) } else { bad("value") }; }
        "offset" if elname == "stop" => {
            let f = |s: &str| length(s.trim()).map(|l| if l.1 == Unit::Percent { l.0 / 100.0 } else { l.0 });
            if let (Some(x), Some(y)) = (f(a), f(b)) { *n += 1; return if close(x, y, 99) { Ok(()) } else { bad("offset") }; }
        }
        "clip-path" | "mask" | "filter" | "marker-start" | "marker-mid" | "marker-end" => {
            if let (Some(x), Some(y)) = (url_ref(a), url_ref(b)) { return if x.0 == y.0 { Ok(()) } else { bad("reference") }; }
        }
        _ => {}
    }
    let pr = prec_of(k, p).unwrap_or(99);
    // lists of lengths and numbers
    if let (Some(x), Some(y)) = (lengths(a), lengths(b)) {
        if x.len() != y.len() { return bad("count of numbers"); }
        for (u, v) in x.iter().zip(y.iter()) {
            *n += 1;
            if unit(u.1) != unit(v.1) { return bad("unit"); }
            if !close(u.0, v.0, pr) { return Err(format!("{} vs {}", u.0, v.0)); }
        }
        return if digits(b, pr) { Ok(()) } else { bad("more digits than selected") };
    }
    if squeeze(a) == squeeze(b) { Ok(()) } else { bad("value") }
}

/// Converted path data: the numbers of the source are rounded, but no error is added by the conversion itself.
fn relative(mut x: Vec<RawSeg>, y: Vec<RawSeg>, k: i32, n: &mut u64) -> Result<(), String> {
    let q = 10f64.powi(k);
    for s in x.iter_mut() {
        let arc = s.cmd == b'a' || s.cmd == b'A';
        for (i, v) in s.v.iter_mut().enumerate() {
            if arc && (i == 3 || i == 4) { continue; }
            let t = *v * q;
            // a tie is rounded in any direction
            if ((t - t.floor()) - 0.5).abs() < 1e-6 { return Ok(()); }
            *v = t.round() / q;
        }
    }
    let f = |v: &[RawSeg]| path_geom(v).into_iter().filter(|s| !s.segs.is_empty() || s.closed).collect::<Vec<_>>();
    let (a, b) = (f(&x), f(&y));
    if a.len() != b.len() { return Err(format!("{} subpaths vs {}", a.len(), b.len())); }
    for (s, t) in a.iter().zip(b.iter()) {
        if s.closed != t.closed || s.segs.len() != t.segs.len() { return Err(format!("{} segments vs {}", s.segs.len(), t.segs.len())); }
        for (u, v) in s.segs.iter().zip(t.segs.iter()) {
            *n += 1;
            for e in [0.0, 0.5, 1.0] {
                let (g, h) = (u.at(e), v.at(e));
                // noise of the sums and of the 11 digits written; an arc is a subject to cancellation
                let size = 1.0 + g.0.abs() + g.1.abs();
                let tol = if let Seg::Arc { .. } = u { 1e-4 * size } else { 1e-8 * size };
                if pt_dist(g, h) > tol { return Err(format!("{:?} vs {:?}", g, h)); }
            }
        }
    }
    Ok(())
}

/// Names of everything, for counting.
pub fn inventory(t: &T, out: &mut HashSet<String>) {
    out.insert(t.name.clone());
    for k in &t.kids { if let K::El(x) = k { inventory(x, out); } }
}

pub const SVG_ELEMENTS: &[&str] = &["a", "altGlyph", "altGlyphDef", "altGlyphItem", "animate", "animateColor", "animateMotion", "animateTransform", "circle", "clipPath", "color-profile", "cursor", "defs", "desc", "ellipse",
    "feBlend", "feColorMatrix", "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap", "feDistantLight", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR", "feGaussianBlur",
    "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight", "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "filter", "font", "font-face", "font-face-format", "font-face-name",
    "font-face-src", "font-face-uri", "foreignObject", "g", "glyph", "glyphRef", "hkern", "image", "line", "linearGradient", "marker", "mask", "metadata", "missing-glyph", "mpath", "path", "pattern", "polygon", "polyline",
    "radialGradient", "rect", "script", "set", "stop", "style", "svg", "switch", "symbol", "text", "textPath", "title", "tref", "tspan", "use", "view", "vkern"];

pub const SVG_ATTRS: &[&str] = &["accent-height", "accumulate", "additive", "alignment-baseline", "alphabetic", "amplitude", "arabic-form", "ascent", "attributeName", "attributeType", "azimuth", "baseFrequency", "baseProfile",
    "baseline-shift", "bbox", "begin", "bias", "by", "calcMode", "cap-height", "class", "clip", "clip-path", "clip-rule", "clipPathUnits", "color", "color-interpolation", "color-interpolation-filters", "color-profile",
    "color-rendering", "contentScriptType", "contentStyleType", "cursor", "cx", "cy", "d", "descent", "diffuseConstant", "direction", "display", "divisor", "dominant-baseline", "dur", "dx", "dy", "edgeMode", "elevation",
    "enable-background", "end", "exponent", "externalResourcesRequired", "fill", "fill-opacity", "fill-rule", "filter", "filterRes", "filterUnits", "flood-color", "flood-opacity", "font", "font-family", "font-size",
    "font-size-adjust", "font-stretch", "font-style", "font-variant", "font-weight", "format", "from", "fx", "fy", "g1", "g2", "glyph-name", "glyph-orientation-horizontal", "glyph-orientation-vertical", "glyphRef",
    "gradientTransform", "gradientUnits", "hanging", "height", "horiz-adv-x", "horiz-origin-x", "horiz-origin-y", "id", "ideographic", "image-rendering", "in", "in2", "intercept", "k", "k1", "k2", "k3", "k4", "kernelMatrix",
    "kernelUnitLength", "kerning", "keyPoints", "keySplines", "keyTimes", "lang", "lengthAdjust", "letter-spacing", "lighting-color", "limitingConeAngle", "line-height", "local", "marker", "marker-end", "marker-mid", "marker-start", "markerHeight",
    "markerUnits", "markerWidth", "mask", "maskContentUnits", "maskUnits", "mathematical", "max", "media", "method", "min", "mode", "name", "numOctaves", "offset", "onabort", "onactivate", "onbegin", "onclick", "onend",
    "onerror", "onfocusin", "onfocusout", "onload", "onmousedown", "onmousemove", "onmouseout", "onmouseover", "onmouseup", "onrepeat", "onresize", "onscroll", "onunload", "onzoom", "opacity", "operator", "order", "orient",
    "orientation", "origin", "overflow", "overline-position", "overline-thickness", "panose-1", "path", "pathLength", "patternContentUnits", "patternTransform", "patternUnits", "pointer-events", "points", "pointsAtX",
    "pointsAtY", "pointsAtZ", "preserveAlpha", "preserveAspectRatio", "primitiveUnits", "r", "radius", "refX", "refY", "rendering-intent", "repeatCount", "repeatDur", "requiredExtensions", "requiredFeatures", "restart",
    "result", "rotate", "rx", "ry", "scale", "seed", "shape-rendering", "slope", "spacing", "specularConstant", "specularExponent", "spreadMethod", "startOffset", "stdDeviation", "stemh", "stemv", "stitchTiles", "stop-color",
    "stop-opacity", "strikethrough-position", "strikethrough-thickness", "string", "stroke", "stroke-dasharray", "stroke-dashoffset", "stroke-linecap", "stroke-linejoin", "stroke-miterlimit", "stroke-opacity", "stroke-width",
    "style", "surfaceScale", "systemLanguage", "tableValues", "target", "targetX", "targetY", "text-anchor", "text-decoration", "text-rendering", "textLength", "title", "to", "transform", "type", "u1", "u2", "underline-position",
    "underline-thickness", "unicode", "unicode-bidi", "unicode-range", "units-per-em", "v-alphabetic", "v-hanging", "v-ideographic", "v-mathematical", "values", "version", "vert-adv-y", "vert-origin-x", "vert-origin-y",
    "viewBox", "viewTarget", "visibility", "width", "widths", "word-spacing", "writing-mode", "x", "x-height", "x1", "x2", "xChannelSelector", "xlink:actuate", "xlink:arcrole", "xlink:href", "xlink:role", "xlink:show",
    "xlink:title", "xlink:type", "xml:base", "xml:lang", "xml:space", "xmlns", "xmlns:xlink", "y", "y1", "y2", "yChannelSelector", "z", "zoomAndPan"];

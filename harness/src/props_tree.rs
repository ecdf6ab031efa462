//! Properties decided by comparing documents as trees of values: P04 (notation), P05 (rounding), P16 (removal options).

use crate::gen::{Cfg, Gen};
use crate::gen_path;
use crate::pipeline::{self, Out};
use crate::props::{random_opts, Info, OptSet};
use crate::render::local;
use crate::rng::Rng;
use crate::shrink::Case;
use crate::style::{parse_decls, pidx};
use crate::tree::{self, Keep, Prec};
use crate::values::*;
use crate::xml::*;
use crate::{limits, xml};

/// Mandatory steps of the cleaner (moving of definitions with resolving of their attributes, fixing of invalid values)
/// are not a part of these properties: documents they would change in another way than modelled are excluded.
fn outside(d: &Dom) -> Option<&'static str> {
    if limits::disabled() { return None; }
    if let Some(l) = limits::out_of_domain(d) { return Some(l); }
    let mut moved = false;
    let mut defs = 0;
    let first = d.children(d.root).iter().cloned().find(|&c| !matches!(&d.nodes[c].kind, Kind::Text(s) if s.trim().is_empty()));
    for n in d.walk() {
        if !d.is_el(n) { continue; }
        // svgdom unescapes only a text that starts with a text
        if let Some(&f) = d.children(n).first() {
            if !matches!(d.nodes[f].kind, Kind::Text(_)) && d.children(n).iter().any(|&c| matches!(&d.nodes[c].kind, Kind::Text(t) if t.contains(|c| c == '&' || c == '<' || c == '>' || c == '"' || c == '\''))) { return Some("svgdom-text-unescape"); }
        }
        if tree::is_nonsvg_el(d, n) { continue; }
        let nm = local(d.name(n));
        if nm == "style" { return Some("css"); }
        for (a, v) in d.attrs(n) {
            if v == "inherit" || v == "currentColor" || a == "marker" { return Some("resolved-value"); }
            if a == "style" && (v.contains("inherit") || v.contains("currentColor") || v.contains("marker:")) { return Some("resolved-value"); }
        }
        match nm {
            "rect" => for a in ["width", "height"] {
                match d.attr(n, a).and_then(length) { Some(l) if l.0 >= 0.0 => {} , _ => return Some("fixed-value") }
            },
            "polyline" | "polygon" => match d.attr(n, "points").and_then(numbers) { Some(v) if v.len() % 2 == 0 && !v.is_empty() => {}, _ => return Some("fixed-value") },
            "linearGradient" | "radialGradient" => {
                let mut last = 0.0;
                for c in d.el_children(n) {
                    if d.name(c) != "stop" { continue; }
                    let o = match d.attr(c, "offset").and_then(length) { Some(l) => if l.1 == Unit::Percent { l.0 / 100.0 } else { l.0 }, None => return Some("fixed-value") };
                    if o < last || o > 1.0 { return Some("fixed-value"); }
                    last = o;
                }
            }
            "defs" => {
                defs += 1;
                if d.attrs(n).len() > 0 { return Some("moved-definitions"); }
                if d.parent(n) != Some(d.root) { return Some("moved-definitions"); }
                if Some(n) != first || defs > 1 { moved = true; }
            }
            "clipPath" | "filter" | "marker" | "mask" | "pattern" | "symbol" | "cursor" | "altGlyphDef" => {
                if d.parent(n).map(|p| d.name(p) != "defs").unwrap_or(true) { return Some("moved-definitions"); }
            }
            _ => {}
        }
        if nm.ends_with("Gradient") && d.parent(n).map(|p| d.name(p) != "defs").unwrap_or(true) { return Some("moved-definitions"); }
        if (nm == "rect" || nm == "polygon") && d.attr(n, "rx").or(d.attr(n, "ry")).map(|v| v.contains('-')).unwrap_or(false) { return Some("fixed-value"); }
        if d.attr(n, "rx").map(|v| v.contains('-')).unwrap_or(false) || d.attr(n, "ry").map(|v| v.contains('-')).unwrap_or(false) { return Some("fixed-value"); }
        // an attribute and a declaration of the same property: only the value that wins is kept, see limits.rs for references
    }
    if moved {
        let st = |n: usize| d.attrs(n).iter().any(|(a, _)| pidx(a).is_some() || a == "style");
        if st(d.root) || d.walk().into_iter().any(|n| d.is_el(n) && ["clipPath", "marker", "mask", "pattern", "symbol"].contains(&local(d.name(n))) && st(n)) { return Some("moved-definitions"); }
    }
    None
}

// ---- notation --------------------------------------------------------------------------

fn num_notation(r: &mut Rng, v: f64) -> String {
    let s = format!("{}", v);
    match r.below(8) {
        0 if !s.starts_with('-') => format!("+{}", s),
        1 => if s.contains('.') { format!("{}0", s) } else { format!("{}.0", s) },
        2 if s.starts_with("0.") => s[1..].to_string(),
        3 if s.starts_with("-0.") => format!("-{}", &s[2..]),
        4 => format!("{:e}", v),
        5 => format!("{:E}", v),
        6 => { let e = format!("{:e}", v); match e.find('e') { Some(k) if !e[k + 1..].starts_with('-') => format!("{}e+{}", &e[..k], &e[k + 1..]), _ => e } }
        _ => s,
    }
}

fn list_notation(r: &mut Rng, v: &[f64]) -> String {
    let mut o = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 { o.push_str(*r.pick(&[" ", ",", ", ", " , ", "  ", "\t", "\n", " ,"])); }
        o.push_str(&num_notation(r, *x));
    }
    o
}

fn len_notation(r: &mut Rng, l: Len) -> String {
    let u = match l.1 { Unit::None => if r.p(0.2) { "px" } else { "" }, Unit::Px => "px", Unit::Em => "em", Unit::Ex => "ex", Unit::In => "in", Unit::Cm => "cm", Unit::Mm => "mm", Unit::Pt => "pt", Unit::Pc => "pc", Unit::Percent => "%" };
    // an exponent before 'em' and 'ex' is ambiguous
    let n = if u.starts_with('e') { format!("{}", l.0) } else { num_notation(r, l.0) };
    format!("{}{}", n, u)
}

fn color_notation(r: &mut Rng, c: u32) -> String {
    let (x, y, z) = (c >> 16 & 255, c >> 8 & 255, c & 255);
    match r.below(7) {
        0 => format!("#{:02x}{:02x}{:02x}", x, y, z),
        1 => format!("#{:02X}{:02X}{:02X}", x, y, z),
        2 if x % 17 == 0 && y % 17 == 0 && z % 17 == 0 => format!("#{:x}{:x}{:X}", x / 17, y / 17, z / 17),
        3 => format!("rgb({}, {}, {})", x, y, z),
        4 => format!("rgb( {} ,{},{} )", x, y, z),
        5 if [x, y, z].iter().all(|v| *v == 0 || *v == 255 || *v == 51 || *v == 102 || *v == 153 || *v == 204) => format!("rgb({}%, {}%, {}%)", x * 100 / 255, y * 100 / 255, z * 100 / 255),
        6 => match c { 0xff0000 => "red".into(), 0 => "black".into(), 0xffffff => "white".into(), 0xff => "blue".into(), 0xff00 => "lime".into(), 0x808080 => r.pick(&["gray", "grey"]).to_string(), 0x2f4f4f => r.pick(&["darkslategray", "darkslategrey"]).to_string(), _ => format!("#{:06x}", c) },
        _ => format!("#{:06x}", c),
    }
}

fn transform_notation(r: &mut Rng, m: &M) -> String {
    let a = m.arr();
    if a[0] == 1.0 && a[1] == 0.0 && a[2] == 0.0 && a[3] == 1.0 && r.p(0.6) {
        return match r.below(4) {
            0 => format!("translate({})", list_notation(r, &a[4..6])),
            1 if a[5] == 0.0 => format!("translate({})", num_notation(r, a[4])),
            2 => format!(" translate ( {} ) ", list_notation(r, &a[4..6])),
            _ => format!("translate({} 0){}translate(0,{})", num_notation(r, a[4]), *r.pick(&["", " ", ",", " , ", "\n"]), num_notation(r, a[5])),
        };
    }
    if a[1] == 0.0 && a[2] == 0.0 && a[4] == 0.0 && a[5] == 0.0 && r.p(0.6) {
        return if a[0] == a[3] && r.p(0.5) { format!("scale({})", num_notation(r, a[0])) } else { format!("scale({})", list_notation(r, &[a[0], a[3]])) };
    }
    match r.below(4) {
        0 => format!("matrix({})", list_notation(r, &a)),
        1 => format!("matrix ( {} )", list_notation(r, &a)),
        2 => format!("translate({}) matrix({})", list_notation(r, &a[4..6]), list_notation(r, &[a[0], a[1], a[2], a[3], 0.0, 0.0])),
        _ => format!("matrix({}) scale(1)", list_notation(r, &a)),
    }
}

/// The same values in another notation.
fn renotate(r: &mut Rng, a: &str, v: &str) -> Option<String> {
    Some(match a {
        "fill" | "stroke" | "stop-color" | "flood-color" | "lighting-color" | "color" => { let c = color(v)?; color_notation(r, c) }
        "transform" | "gradientTransform" | "patternTransform" => { let m = transform(v)?; transform_notation(r, &m) }
        "points" | "viewBox" => { let n = numbers(v)?; list_notation(r, &n) }
        "opacity" | "fill-opacity" | "stroke-opacity" | "stop-opacity" | "stroke-miterlimit" => { let n = number(v)?; num_notation(r, n) }
        "x" | "y" | "x1" | "y1" | "x2" | "y2" | "cx" | "cy" | "r" | "rx" | "ry" | "fx" | "fy" | "width" | "height" | "dx" | "dy" | "stroke-width" | "stroke-dashoffset" | "font-size" | "stroke-dasharray" | "offset" => {
            let l = lengths(v)?;
            if l.is_empty() { return None; }
            let mut o = String::new();
            for (i, x) in l.iter().enumerate() {
                if i > 0 { o.push_str(*r.pick(&[" ", ",", ", ", " , "])); }
                let t = if a == "offset" { if x.1 == Unit::None && (x.0 * 100.0) % 5.0 == 0.0 && r.p(0.3) { format!("{}%", x.0 * 100.0) } else if x.1 == Unit::Percent { format!("{}%", num_notation(r, x.0)) } else { num_notation(r, x.0) } } else { len_notation(r, *x) };
                o.push_str(&t);
            }
            o
        }
        _ => return None,
    })
}

fn rewrite(r: &mut Rng, d: &mut Dom, p: f64, f: &dyn Fn(&mut Rng, &str, &str) -> Option<String>) {
    for n in d.walk() {
        if !d.is_el(n) || tree::is_nonsvg_el(d, n) { continue; }
        let mut at = d.attrs(n).to_vec();
        for (a, v) in at.iter_mut() {
            if a == "style" {
                let ds = parse_decls(v);
                let mut o = String::new();
                for (p2, x) in ds {
                    let x = if r.p(p) { f(r, &p2, &x).filter(|s| !s.contains('\n') && !s.contains('\t')).unwrap_or(x) } else { x };
                    if !o.is_empty() { o.push_str(*r.pick(&[";", "; ", " ; "])); }
                    o.push_str(&format!("{}{}{}", p2, *r.pick(&[":", ": ", " : "]), x));
                }
                if r.p(0.3) { o.push(';'); }
                *v = o;
            } else if r.p(p) { if let Some(x) = f(r, a, v) { *v = x; } }
        }
        *d.attrs_mut(n) = at;
    }
}

fn base() -> Cfg {
    Cfg { p_css: 0.0, p_inherit: 0.0, p_current: 0.0, p_bad: 0.0, p_defs_inline: 0.0, budget: 14, p_nonsvg: 0.15, p_misc_nodes: 0.15, ..Cfg::default() }
}

/// Kept content of every kind: comments, declarations, foreign elements and attributes, classes.
fn decorate(r: &mut Rng, d: &mut Dom) {
    let root = d.root;
    if r.p(0.4) { d.decl = Some(r.pick(&["version=\"1.0\"", "version=\"1.0\" encoding=\"UTF-8\"", "version=\"1.0\" encoding=\"utf-8\" standalone=\"no\"", "version=\"1.0\" standalone=\"yes\""]).to_string()); }
    let k = r.below(6);
    for _ in 0..k {
        let els: Vec<usize> = d.walk().into_iter().filter(|&n| d.is_el(n)).collect();
        let svg: Vec<usize> = els.iter().cloned().filter(|&n| !tree::is_nonsvg_el(d, n)).collect();
        let boxes: Vec<usize> = svg.iter().cloned().filter(|&n| ["svg", "g", "defs", "symbol", "clipPath", "mask", "pattern", "marker", "rect", "path", "linearGradient", "filter", "a", "use"].contains(&d.name(n))).collect();
        let bx = *r.pick(&boxes);
        let e = *r.pick(&svg);
        if d.name(e) == "style" { continue; }
        match r.below(10) {
            0 => { let t = r.pick(&["", " c ", "a & b", "<x>", "é ü ☃", "line\nbreak", "--no".trim_start_matches('-')]).to_string(); insert(r, d, bx, Kind::Comment(t)); }
            1 => { let c = d.new_node(None, Kind::Comment(r.pick(&["top", " Created ", "<svg>"]).to_string())); if r.p(0.5) { d.prolog.push(c); } else { d.epilog.push(c); } }
            2 => {
                d.set(root, "xmlns:x", "http://example.org/x");
                let nm = *r.pick(&["x:a", "x:rect", "x:g", "x:title", "x:desc", "x:metadata", "x:style"]);
                let c = d.new_el(None, nm);
                d.nodes[c].parent = Some(bx);
                let at = r.below(d.children(bx).len() + 1);
                d.nodes[bx].children.insert(at, c);
                if r.p(0.5) { d.set(c, "x:b", "1 & 2"); }
                if r.p(0.3) { let i = d.new_el(Some(c), "x:in"); d.set(i, "x:c", "z"); }
                if r.p(0.3) { d.new_node(Some(c), Kind::Text("foreign <text> & more".into())); }
            }
            3 => { d.set(root, "xmlns:x", "http://example.org/x"); let v = r.pick(&["", "v", "a < b", "x & y", "10 20", "é"]).to_string(); d.set(e, r.pick(&["x:p", "x:id", "x:fill"]), v); }
            4 => { let v = r.pick(&["1", "", "some value", "#id"]).to_string(); d.set(e, r.pick(&["data-a", "custom", "aria-label", "role", "tabindex"]), v); }
            5 => { d.set(root, "version", *r.pick(&["1.1", "1.0", "1.2"])); if r.p(0.5) { d.set(root, "baseProfile", *r.pick(&["full", "tiny"])); } }
            6 => { let nm = *r.pick(&["title", "desc"]); let c = d.new_el(None, nm); d.nodes[c].parent = Some(bx); d.nodes[bx].children.insert(0, c); if r.p(0.8) { d.new_node(Some(c), Kind::Text(r.pick(&["A title", "x < y & z", "multi\n line  text", "é☃"]).to_string())); } if r.p(0.2) { d.set(c, "id", format!("deco{}", r.below(10000))); } }
            7 => { let c = d.new_el(None, "metadata"); d.nodes[c].parent = Some(bx); d.nodes[bx].children.insert(0, c); if r.p(0.7) { d.set(root, "xmlns:x", "http://example.org/x"); let i = d.new_el(Some(c), "x:m"); d.set(i, "x:v", "1"); if r.p(0.5) { d.new_node(Some(i), Kind::Text("meta text".into())); } } }
            8 => { if r.p(0.5) { d.set(e, "id", format!("deco{}", r.below(100000))); } else { d.set(e, "class", *r.pick(&["a", "a b", "some-class x_y"])); } }
            _ => { let a = *r.pick(&["xml:lang", "xml:base", "pointer-events", "cursor", "enable-background", "color-rendering", "shape-rendering", "lang", "font-size-adjust"]); let v = match a { "pointer-events" => "none", "cursor" => "auto", "enable-background" => "new", "color-rendering" => "optimizeSpeed", "shape-rendering" => "crispEdges", "font-size-adjust" => "none", _ => "en" }; d.set(e, a, v); }
        }
    }
}

fn insert(r: &mut Rng, d: &mut Dom, p: usize, k: Kind) {
    let c = d.new_node(None, k);
    d.nodes[c].parent = Some(p);
    let at = r.below(d.children(p).len() + 1);
    d.nodes[p].children.insert(at, c);
}

/// Output formats. They never change a value.
fn write_opts(r: &mut Rng, o: &mut OptSet) {
    for f in FORMAT[..6].iter().cloned() { if r.p(0.5) { o.set.insert(f, r.p(0.75)); } }
    if o.get("trim-paths") && r.p(0.5) { o.set.insert("join-arcto-flags", true); }
    if r.p(0.6) { o.extra.push(format!("--indent={}", *r.pick(&["none", "0", "1", "2", "3", "4", "tabs"]))); }
    if r.p(0.6) { o.extra.push(format!("--list-separator={}", *r.pick(&["space", "comma", "comma-space"]))); }
    if r.p(0.6) { o.extra.push(format!("--join-style-attributes={}", *r.pick(&["no", "some", "all"]))); }
}

fn precs(args: &[String]) -> Prec {
    let g = |n: &str, def: i32| args.iter().filter_map(|a| a.strip_prefix("--").and_then(|a| a.strip_prefix(n)).and_then(|a| a.strip_prefix('=')).and_then(|v| v.parse().ok())).last().unwrap_or(def);
    Prec { coord: g("coordinates-precision", 6), prop: g("properties-precision", 6), ts: g("transforms-precision", 8), path: g("paths-coordinates-precision", 8), rel: args.iter().any(|a| a == "--paths-to-relative=true") }
}

fn keep(args: &[String]) -> Keep {
    let on = |n: &str| args.iter().any(|a| a.strip_prefix("--").and_then(|a| a.strip_prefix(n)) == Some("=true"));
    Keep { comments: !on("remove-comments"), decl: !on("remove-declarations"), title: !on("remove-title"), desc: !on("remove-desc"), metadata: !on("remove-metadata"),
        nonsvg_el: !on("remove-nonsvg-elements"), nonsvg_attr: !on("remove-nonsvg-attributes"), version: !on("remove-version"), classes: !on("remove-unresolved-classes") }
}

fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    let o = match pipeline::opts(&c.args) { Ok(o) => o, Err(e) => { info.excl(e); return Ok(()); } };
    let d = match xml::parse(&c.svg) { Ok(d) => d, Err(_) => { info.excl("malformed input"); return Ok(()); } };
    if !c.args.iter().any(|a| a == "--no-defaults") { info.excl("cleaning is on"); return Ok(()); }
    if let Some(l) = outside(&d) { info.excl(l); return Ok(()); }
    if let Some(l) = limits::excluded_options(&d, &c.args) { info.excl(l); return Ok(()); }
    let out = match pipeline::clean_once(&c.svg, &o) {
        Out::Ok(s) => s,
        Out::Rejected(m) => return Err(format!("a valid document was rejected: {}", m)),
        Out::Panic(m) => return Err(format!("panic: {}", m)),
        Out::BadUtf8 => return Err("the output is not UTF-8".into()),
    };
    let e = xml::parse(&out).map_err(|e| format!("the output is malformed: {}: {}", e, out))?;
    let empty = |d: &Dom| d.walk().into_iter().filter(|&n| d.is_el(n) && d.attr(n, "style").map(|s| s.trim().is_empty()).unwrap_or(false)).count();
    if empty(&e) > empty(&d) { return Err(format!("an empty 'style' attribute is added; output: {}", out)); }
    let k = keep(&c.args);
    let (a, b) = (tree::model(&d, &k), tree::model(&e, &Keep::ALL));
    let n = tree::diff(&a, &b, &precs(&c.args)).map_err(|m| format!("{}; output: {}", m, out))?;
    info.nontrivial = n > 0;
    info.note = format!("{} numbers compared", n);
    Ok(())
}

pub fn p04_gen(r: &mut Rng) -> Case {
    let mut d = Gen::new(r, base()).document();
    decorate(r, &mut d);
    rewrite(r, &mut d, 0.5, &renotate);
    for n in d.walk() { if d.is_el(n) && d.name(n) == "path" && r.p(0.7) { let p = gen_path::path(r, true); d.set(n, "d", p); } }
    // names that can't be written in the 'style' attribute as they are
    if r.p(0.3) {
        for n in d.walk() {
            if d.is_el(n) && !d.name(n).contains(':') && d.attr(n, "style").is_none() && r.p(0.25) {
                let v = *r.pick(&["'A;B', serif", "\"A B\", serif", "A & B", "'A:B'", "'A{B}'", "A\\42 B", "'Don\"t', Arial", "\"It's\"", "A/*B*/C", "serif, 'A'"]);
                d.set(n, "font-family", v.to_string());
            }
        }
    }
    let mut o = OptSet::none();
    write_opts(r, &mut o);
    for (f, lo) in [("coordinates-precision", 6), ("properties-precision", 6), ("transforms-precision", 8), ("paths-coordinates-precision", 6)] { if r.p(0.3) { let k = r.range(lo, 12); o.extra.push(format!("--{}={}", f, k)); } }
    Case { svg: d.to_xml(), args: o.args() }
}

pub fn p04_check(c: &Case, i: &mut Info) -> Result<(), String> { check(c, i) }

// ---- rounding --------------------------------------------------------------------------

fn rnd(r: &mut Rng, x: f64) -> f64 {
    match r.below(10) {
        0 => x,
        // ties and neighbours of a tie of some precision
        1 | 2 => { let k = r.range(1, 8) as i32; let q = 10f64.powi(-k); (x / q).floor() * q + q / 2.0 }
        3 => { let k = r.range(1, 8) as i32; x + 10f64.powi(-k) * *r.pick(&[0.49, 0.51, 0.4999, 0.999, -0.501]) }
        4 => x * 1e-4,
        5 => x * 1e-9,
        6 => x * 1e4,
        7 => -x,
        _ => x + (r.f() - 0.5) * 2.0,
    }
}

fn renumber(r: &mut Rng, a: &str, v: &str) -> Option<String> {
    let unit = |u: Unit| match u { Unit::None | Unit::Px => "", Unit::Em => "em", Unit::Ex => "ex", Unit::In => "in", Unit::Cm => "cm", Unit::Mm => "mm", Unit::Pt => "pt", Unit::Pc => "pc", Unit::Percent => "%" };
    Some(match a {
        "transform" | "gradientTransform" | "patternTransform" => {
            let m = transform(v)?;
            let w: Vec<String> = m.arr().iter().map(|x| format!("{}", rnd(r, *x))).collect();
            let m2 = transform(&format!("matrix({})", w.join(" ")))?;
            if m2.det().abs() < 1e-3 { return None; }
            format!("matrix({})", w.join(" "))
        }
        "points" | "viewBox" => {
            let n = numbers(v)?;
            n.iter().enumerate().map(|(i, x)| { let y = rnd(r, *x); format!("{}", if a == "viewBox" && i > 1 { y.abs().max(1.0) } else { y }) }).collect::<Vec<_>>().join(" ")
        }
        "opacity" | "fill-opacity" | "stroke-opacity" | "stop-opacity" | "flood-opacity" => format!("{}", r.f()),
        "stroke-miterlimit" => format!("{}", 1.0 + r.f() * 9.0),
        "x" | "y" | "x1" | "y1" | "x2" | "y2" | "cx" | "cy" | "fx" | "fy" | "dx" | "dy" | "stroke-dashoffset" => { let l = lengths(v)?; if l.is_empty() { return None; } l.iter().map(|q| format!("{}{}", rnd(r, q.0), unit(q.1))).collect::<Vec<_>>().join(" ") }
        "r" | "rx" | "ry" | "width" | "height" | "stroke-width" | "font-size" | "stroke-dasharray" => { let l = lengths(v)?; if l.is_empty() { return None; } l.iter().map(|q| format!("{}{}", rnd(r, q.0).abs(), unit(q.1))).collect::<Vec<_>>().join(" ") }
        // not rounded
        "stdDeviation" | "baseFrequency" | "refX" | "refY" | "markerWidth" | "markerHeight" | "k1" | "k2" | "rotate" | "letter-spacing" | "textLength" => { let n = numbers(v)?; if n.is_empty() { return None; } n.iter().map(|x| format!("{}", (x + r.f() / 7.0).abs())).collect::<Vec<_>>().join(" ") }
        "d" => {
            let p = path_raw(v);
            if !p.1 { return None; }
            let mut o = String::new();
            for s in &p.0 {
                o.push(s.cmd as char);
                for (i, x) in s.v.iter().enumerate() {
                    let arc = (s.cmd == b'a' || s.cmd == b'A') && (3..5).contains(&i);
                    let y = if arc { *x } else if (s.cmd == b'a' || s.cmd == b'A') && i < 2 { rnd(r, *x).abs() } else { rnd(r, *x) };
                    o.push_str(&format!(" {}", y));
                }
                o.push(' ');
            }
            o
        }
        _ => return None,
    })
}

pub fn p05_gen(r: &mut Rng) -> Case {
    let mut d = Gen::new(r, Cfg { budget: 8, p_nonsvg: 0.05, p_misc_nodes: 0.05, ..base() }).document();
    rewrite(r, &mut d, 0.7, &renumber);
    let mut o = OptSet::none();
    if r.p(0.3) { o.set.insert("paths-to-relative", true); }
    for f in ["trim-paths", "use-implicit-cmds"] { if r.p(0.3) { o.set.insert(f, true); } }
    if r.p(0.3) { o.extra.push(format!("--join-style-attributes={}", *r.pick(&["no", "all"]))); }
    for f in ["coordinates-precision", "properties-precision", "transforms-precision", "paths-coordinates-precision"] { if r.p(0.85) { let k = r.range(1, 10); o.extra.push(format!("--{}={}", f, k)); } }
    Case { svg: d.to_xml(), args: o.args() }
}

pub fn p05_check(c: &Case, i: &mut Info) -> Result<(), String> { check(c, i) }

// ---- removal ------------------------------------------------------------------------------

const REMOVE: &[&str] = &["remove-comments", "remove-declarations", "remove-title", "remove-desc", "remove-metadata", "remove-nonsvg-elements", "remove-nonsvg-attributes", "remove-version", "remove-unresolved-classes"];
const FORMAT: &[&str] = &["trim-colors", "simplify-transforms", "trim-paths", "use-implicit-cmds", "remove-dupl-cmd-in-paths", "append-newline", "join-arcto-flags"];

pub fn p16_gen(r: &mut Rng) -> Case {
    let mut d = Gen::new(r, Cfg { budget: 8, ..base() }).document();
    let k = 1 + r.below(3);
    for _ in 0..k { decorate(r, &mut d); }
    if r.p(0.35) { let o = random_opts(r, REMOVE); return Case { svg: d.to_xml(), args: if r.p(0.3) { vec![] } else { o.args() } }; }
    let mut o = OptSet::none();
    for f in REMOVE.iter().cloned() { if r.p(0.4) { o.set.insert(f, r.p(0.85)); } }
    if r.p(0.2) { write_opts(r, &mut o); }
    Case { svg: d.to_xml(), args: o.args() }
}

pub fn p16_check(c: &Case, i: &mut Info) -> Result<(), String> {
    let modelled = |a: &String| !a.ends_with("=true") || REMOVE.iter().chain(FORMAT.iter()).any(|f| a.strip_prefix("--").and_then(|a| a.strip_suffix("=true")) == Some(*f));
    if c.args.iter().any(|a| a == "--no-defaults") && c.args.iter().all(modelled) { i.class("exact"); check(c, i)?; } else { i.class("complete"); }
    let d = match complete(c, i)? { Some(d) => d, None => return Ok(()) };
    i.nontrivial = i.excluded.is_none() && d;
    Ok(())
}

/// Whatever else is done, nothing is left of what has to be removed.
fn complete(c: &Case, info: &mut Info) -> Result<Option<bool>, String> {
    if info.excluded.is_some() { return Ok(None); }
    let o = match pipeline::opts(&c.args) { Ok(o) => o, Err(e) => { info.excl(e); return Ok(None); } };
    let d = match xml::parse(&c.svg) { Ok(d) => d, Err(_) => { info.excl("malformed input"); return Ok(None); } };
    if let Some(l) = limits::out_of_domain(&d) { info.excl(l); return Ok(None); }
    if let Some(l) = limits::excluded_options(&d, &c.args) { info.excl(l); return Ok(None); }
    let out = match pipeline::clean_once(&c.svg, &o) {
        Out::Ok(s) => s,
        Out::Rejected(m) => return Err(format!("a valid document was rejected: {}", m)),
        Out::Panic(m) => return Err(format!("panic: {}", m)),
        Out::BadUtf8 => return Err("the output is not UTF-8".into()),
    };
    let e = xml::parse(&out).map_err(|e| format!("the output is malformed: {}: {}", e, out))?;
    let nd = c.args.iter().any(|a| a == "--no-defaults");
    let on = |n: &str| c.args.iter().filter_map(|a| a.strip_prefix("--").and_then(|a| a.strip_prefix(n)).and_then(|a| a.strip_prefix('='))).last().map(|v| v == "true").unwrap_or(!nd);
    let bad = |m: String| Err(format!("{}; output: {}", m, out));
    if on("remove-declarations") && e.decl.is_some() { return bad("a declaration is left".into()); }
    let com = |n: usize| matches!(&e.nodes[n].kind, Kind::Comment(_));
    if on("remove-comments") && (e.walk().into_iter().any(com) || e.prolog.iter().cloned().any(com) || e.epilog.iter().cloned().any(com)) { return bad("a comment is left".into()); }
    let mut any = false;
    for (dom, input) in [(&d, true), (&e, false)] {
        for n in dom.walk() {
            if !dom.is_el(n) { if matches!(&dom.nodes[n].kind, Kind::Comment(_)) && on("remove-comments") { any = true; } continue; }
            let non = tree::is_nonsvg_el(dom, n);
            let mut found: Option<String> = None;
            if non && on("remove-nonsvg-elements") { found = Some(format!("element {}", dom.name(n))); }
            for t in ["title", "desc", "metadata"] { if !non && local(dom.name(n)) == t && on(&format!("remove-{}", t)) { found = Some(format!("element {}", t)); } }
            if on("remove-nonsvg-attributes") { if let Some((a, _)) = dom.attrs(n).iter().find(|(a, _)| tree::is_nonsvg_attr(a)) { found = Some(format!("attribute {}", a)); } }
            if n == dom.root && on("remove-version") && (dom.attr(n, "version").is_some() || dom.attr(n, "baseProfile").is_some()) { found = Some("version".into()); }
            if let Some(f) = found { if input { any = true; } else { return bad(format!("{} is left", f)); } }
        }
    }
    if on("remove-unreferenced-ids") {
        let refs = limits::references(&e);
        for n in e.walk() { if e.is_el(n) { if let Some(i) = e.attr(n, "id") { if !refs.iter().any(|r| r == i) { return bad(format!("an unreferenced id '{}' is left", i)); } } } }
        if d.ids().len() > limits::references(&d).len() { any = true; }
    }
    Ok(Some(any))
}

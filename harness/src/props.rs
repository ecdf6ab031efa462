//! The properties: a generator and an oracle for each.

use std::fmt::Display;

use crate::gen::{Cfg, Gen};
use crate::pipeline::{self, Out};
use crate::rng::Rng;
use crate::shrink::Case;
use crate::{cmp, gen_path, limits, props_cli, props_doc, props_files, props_ids, props_multi, props_tree, props_xml, render, xml};

#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub excluded: Option<String>,
    pub classes: Vec<&'static str>,
    pub note: String,
}

impl Info {
    pub fn excl<T: Display>(&mut self, t: T) { if self.excluded.is_none() { self.excluded = Some(t.to_string()); } }
    pub fn class(&mut self, c: &'static str) { if !self.classes.contains(&c) { self.classes.push(c); } }
}

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng) -> Case,
    pub check: fn(&Case, &mut Info) -> Result<(), String>,
    /// a guard of the shrinker: is the smaller case still inside of the domain of the property
    pub keep: fn(&Case) -> bool,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn any(_: &Case) -> bool { true }

pub fn find(id: &str) -> Option<&'static Prop> { PROPS.iter().find(|p| p.id == id) }

// ---- options ------------------------------------------------------------------------

pub const BOOLS: &[(&str, bool)] = &[
    ("remove-comments", true), ("remove-declarations", true), ("remove-nonsvg-elements", true), ("remove-unused-defs", true), ("convert-shapes", true),
    ("remove-title", true), ("remove-desc", true), ("remove-metadata", true), ("remove-dupl-lineargradient", true), ("remove-dupl-radialgradient", true),
    ("remove-dupl-fegaussianblur", true), ("ungroup-groups", true), ("ungroup-defs", true), ("group-by-style", true), ("merge-gradients", true),
    ("regroup-gradient-stops", true), ("remove-invalid-stops", true), ("remove-invisible-elements", true), ("resolve-use", true), ("remove-version", true),
    ("remove-nonsvg-attributes", true), ("remove-unreferenced-ids", true), ("trim-ids", true), ("remove-text-attributes", true), ("remove-unused-coordinates", true),
    ("remove-default-attributes", true), ("remove-xmlns-xlink-attribute", true), ("remove-needless-attributes", true), ("remove-gradient-attributes", false),
    ("apply-transform-to-gradients", true), ("apply-transform-to-shapes", true), ("remove-unresolved-classes", true), ("paths-to-relative", true),
    ("remove-unused-segments", true), ("convert-segments", true), ("apply-transform-to-paths", false), ("trim-paths", true), ("join-arcto-flags", false),
    ("remove-dupl-cmd-in-paths", true), ("use-implicit-cmds", true), ("trim-colors", true), ("append-newline", false), ("simplify-transforms", true),
];

/// A set of options kept consistent with the documented dependencies.
#[derive(Clone, Default)]
pub struct OptSet { pub no_defaults: bool, pub set: std::collections::BTreeMap<&'static str, bool>, pub extra: Vec<String> }

impl OptSet {
    pub fn defaults() -> OptSet { OptSet::default() }
    pub fn none() -> OptSet { OptSet { no_defaults: true, ..OptSet::default() } }
    pub fn on(mut self, f: &[&'static str]) -> OptSet { for x in f { self.set.insert(x, true); } self }
    pub fn get(&self, n: &str) -> bool {
        if let Some(v) = self.set.get(n) { return *v; }
        if self.no_defaults { return false; }
        BOOLS.iter().find(|b| b.0 == n).map(|b| b.1).unwrap_or(false)
    }
    /// What check_values looks at: the value given, or the default one even with --no-defaults.
    fn seen(&self, n: &str) -> bool { self.set.get(n).copied().unwrap_or_else(|| BOOLS.iter().find(|b| b.0 == n).map(|b| b.1).unwrap_or(false)) }
    pub fn fix(mut self) -> OptSet {
        if self.seen("join-arcto-flags") && !self.seen("trim-paths") { self.set.insert("join-arcto-flags", false); }
        if !self.seen("paths-to-relative") { for x in ["remove-unused-segments", "convert-segments", "apply-transform-to-paths"] { self.set.insert(x, false); } }
        self
    }
    pub fn args(&self) -> Vec<String> {
        let mut v = vec![];
        if self.no_defaults { v.push("--no-defaults".into()); }
        for (k, b) in &self.set { v.push(format!("--{}={}", k, b)); }
        v.extend(self.extra.iter().cloned());
        v
    }
}

/// Random values for every option; `focus` options are on with a high probability.
pub fn random_opts(r: &mut Rng, focus: &[&'static str]) -> OptSet {
    let mut o = OptSet::default();
    match r.below(4) {
        0 => {
            // the defaults with a few changes
            let k = r.below(6);
            for _ in 0..k { let (n, d) = *r.pick(BOOLS); o.set.insert(n, !d); }
        }
        1 => {
            // only a few
            o.no_defaults = true;
            let k = r.below(6);
            for _ in 0..k { let n = r.pick(BOOLS).0; o.set.insert(n, true); }
        }
        _ => {
            o.no_defaults = r.p(0.5);
            let p = *r.pick(&[0.2, 0.5, 0.8]);
            for (n, _) in BOOLS { if r.p(0.9) { let b = r.p(p); o.set.insert(n, b); } }
        }
    }
    for f in focus { if r.p(0.8) { o.set.insert(f, true); } }
    if focus.contains(&"remove-unused-segments") || focus.contains(&"convert-segments") { if r.p(0.9) { o.set.insert("paths-to-relative", true); } }
    write_extra(r, &mut o);
    o.fix()
}

pub fn write_extra(r: &mut Rng, o: &mut OptSet) {
    if r.p(0.3) { o.extra.push(format!("--indent={}", *r.pick(&["none", "0", "1", "2", "3", "4", "tabs"]))); }
    if r.p(0.3) { o.extra.push(format!("--list-separator={}", *r.pick(&["space", "comma", "comma-space"]))); }
    if r.p(0.3) { o.extra.push(format!("--join-style-attributes={}", *r.pick(&["no", "some", "all"]))); }
    for f in ["coordinates-precision", "properties-precision", "transforms-precision", "paths-coordinates-precision"] {
        if r.p(0.15) { let k = if f.starts_with("tr") { r.range(7, 12) } else { r.range(6, 12) }; o.extra.push(format!("--{}={}", f, k)); }
    }
}

fn mix_opts(r: &mut Rng, focus: &[&'static str]) -> Vec<String> {
    match r.below(10) {
        0..=3 => vec![],
        4..=6 => {
            // the transformations under test, alone
            let mut o = OptSet::none();
            for f in focus { if r.p(0.75) { o.set.insert(f, true); } }
            if focus.contains(&"remove-unused-segments") || focus.contains(&"convert-segments") { if r.p(0.9) { o.set.insert("paths-to-relative", true); } }
            if r.p(0.3) { write_extra(r, &mut o); }
            o.fix().args()
        }
        _ => random_opts(r, focus).args(),
    }
}

// ---- rendering ------------------------------------------------------------------------

pub fn doc(r: &mut Rng, c: Cfg) -> String { Gen::new(r, c).document().to_xml() }

/// Cleans and compares the scenes. Returns the input scene, the output and its scene.
pub fn render_pair(c: &Case, info: &mut Info, tol: &cmp::Tol) -> Result<Option<(render::Scene, String)>, String> {
    let o = match pipeline::opts(&c.args) { Ok(o) => o, Err(e) => { info.excl(format!("options: {}", e)); return Ok(None); } };
    let d0 = match xml::parse(&c.svg) { Ok(d) => d, Err(_) => { info.excl("malformed input"); return Ok(None); } };
    if let Some(l) = limits::out_of_domain(&d0) { info.excl(l); return Ok(None); }
    if let Some(l) = limits::excluded_options(&d0, &c.args) { info.excl(l); return Ok(None); }
    let s0 = match render::render(&d0) { Ok(s) => s, Err(e) => { info.excl(format!("unrenderable input: {}", e)); return Ok(None); } };
    let out = match pipeline::clean_once(&c.svg, &o) {
        Out::Ok(s) => s,
        Out::Rejected(m) => return Err(format!("a valid document was rejected: {}", m)),
        Out::Panic(m) => return Err(format!("panic: {}", m)),
        Out::BadUtf8 => return Err("the output is not UTF-8".into()),
    };
    let d1 = xml::parse(&out).map_err(|e| format!("the output is malformed: {}: {}", e, out))?;
    let s1 = render::render(&d1).map_err(|e| format!("the output can't be rendered: {}", e))?;
    cmp::scenes(&s0, &s1, tol)?;
    Ok(Some((s0, out)))
}

fn plain(c: &Case) -> Option<String> {
    match pipeline::clean_once(&c.svg, &pipeline::opts(&["--no-defaults".to_string()]).ok()?) { Out::Ok(s) => Some(s), _ => None }
}

fn rendering(c: &Case, info: &mut Info, focus: fn(&render::Stats, &str) -> bool) -> Result<(), String> { rendering_out(c, info, focus).map(|_| ()) }

/// Returns a count of painted texts and the output.
fn rendering_out(c: &Case, info: &mut Info, focus: fn(&render::Stats, &str) -> bool) -> Result<Option<(usize, String)>, String> {
    if let Some((s, out)) = render_pair(c, info, &cmp::Tol::DEFAULT)? {
        let st = &s.stats;
        for (k, n) in [("gradients", st.gradients), ("patterns", st.patterns), ("clips", st.clips), ("masks", st.masks), ("filters", st.filters), ("markers", st.markers),
            ("uses", st.uses), ("texts", st.texts), ("images", st.images), ("groups", st.groups)] { if n > 0 { info.class(k); } }
        if c.svg.contains("<style") { info.class("css"); }
        if c.args.is_empty() { info.class("default-options"); }
        let changed = plain(c).map(|p| p != out).unwrap_or(true);
        info.nontrivial = st.shapes + st.texts + st.images >= 1 && changed && focus(st, &c.svg);
        info.note = format!("{} painted items, {} -> {} bytes", st.shapes + st.texts + st.images, c.svg.len(), out.len());
        return Ok(Some((st.texts as usize, out)));
    }
    Ok(None)
}

const MODEL: &[&str] = &[
    "The oracle is the reference renderer of this harness (SVG 1.1 display list, independent of svgdom): what it does not model (rasterisation, font metrics, filter arithmetic) is compared symbolically.",
    "Documents in error and confirmed limits of the svgdom parser (listed in DESIGN.md) are excluded by limits.rs and counted.",
];

const TREE: &[&str] = &[
    "The input is read by the harness' own XML parser and value parsers; mandatory steps (moving of definitions, fixing of invalid values) are modelled or excluded and counted.",
];

macro_rules! rule { ($x:expr) => { concat!("Random structured documents; non-trivial: at least 1 painted item, the output differs from the one with all options off, ", $x) } }


fn p01_gen(r: &mut Rng) -> Case { let svg = doc(r, Cfg::default()); let svg = tiny(r, svg, &[]); Case { svg, args: vec![] } }
fn p01_check(c: &Case, i: &mut Info) -> Result<(), String> { rendering(c, i, |_, _| true) }

fn p02_gen(r: &mut Rng) -> Case { let svg = doc(r, Cfg::default()); Case { svg, args: random_opts(r, &[]).args() } }

/// Adds a shape with tiny coordinates below a big scale (only where the digits are kept by the options).
fn tiny(r: &mut Rng, svg: String, args: &[String]) -> String {
    if !r.p(0.06) || args.iter().any(|a| a.contains("precision")) { return svg; }
    let mut d = match xml::parse(&svg) { Ok(d) => d, Err(_) => return svg };
    let root = d.root;
    let g = d.new_el(Some(root), "g");
    d.set(g, "transform", *r.pick(&["scale(100)", "translate(5 6) scale(200)", "scale(50 100)"]));
    for _ in 0..r.range(1, 2) {
        let v = |r: &mut Rng| r.pick(&["0.001", "0.004", "0.0003", "0.02", "0.1", "0.05", "0.00012"]).to_string();
        let name = *r.pick(&["rect", "rect", "circle", "ellipse", "line", "path", "polygon", "use"]);
        let name = if name == "use" { "rect" } else { name };
        let n = d.new_el(Some(g), name);
        let attrs: &[&str] = match name { "rect" => &["x", "y", "width", "height", "rx"], "circle" => &["cx", "cy", "r"], "ellipse" => &["cx", "rx", "ry"], "line" => &["x1", "y1", "x2", "y2"], _ => &[] };
        for a in attrs { if !((*a == "rx" && name == "rect" || *a == "x") && r.p(0.5)) { let x = v(r); d.set(n, a, x); } }
        if name == "path" { let s = format!("M {} {} L {} {} C {} {} {} {} {} {}{}", v(r), v(r), v(r), v(r), v(r), v(r), v(r), v(r), v(r), v(r), r.pick(&["", " Z", " A 0.01 0.02 0 0 1 0.03 0.01"])); d.set(n, "d", s); }
        if name == "polygon" { let s = format!("{},{} {},{} {},{}", v(r), v(r), v(r), v(r), v(r), v(r)); d.set(n, "points", s); }
        if r.p(0.5) { d.set(n, "fill", "red"); }
        if name == "line" || r.p(0.4) { d.set(n, "stroke", "blue"); let x = v(r); d.set(n, "stroke-width", x); }
        if r.p(0.2) { let x = v(r); d.set(n, "transform", format!("translate({})", x)); }
        if r.p(0.1) { d.set(n, "stroke-opacity", "0.005"); }
        if r.p(0.1) { d.set(n, "fill-opacity", "0.004"); }
    }
    d.to_xml()
}

/// Plain shapes only; the other weights are set by each property.
fn base() -> Cfg {
    Cfg {
        w_use: 0, w_text: 0, w_image: 0, w_svg: 0, w_a: 0, n_grad: (0, 1), n_pattern: (0, 0), n_clip: (0, 0), n_mask: (0, 0), n_filter: (0, 0), n_marker: (0, 0),
        n_symbol: (0, 0), n_defshape: (0, 0), p_css: 0.02, p_nonsvg: 0.02, p_misc_nodes: 0.02, p_invisible: 0.02, p_needless: 0.03, p_default_attr: 0.05, p_bad: 0.0,
        p_group_fx: 0.05, p_shape_fx: 0.02, budget: 14, ..Cfg::default()
    }
}

// paths
const PATH_OPTS: &[&str] = &["paths-to-relative", "remove-unused-segments", "convert-segments", "apply-transform-to-paths", "trim-paths", "join-arcto-flags", "remove-dupl-cmd-in-paths", "use-implicit-cmds"];
fn p03_gen(r: &mut Rng) -> Case {
    let mk = r.p(0.3);
    let c = Cfg { w_rect: 0, w_circle: 0, w_ellipse: 0, w_line: 0, w_polyline: 0, w_polygon: 0, w_path: 10, w_group: 2, kids: (1, 2), budget: 4, max_depth: 1,
        n_marker: if mk { (1, 1) } else { (0, 0) }, n_clip: (0, 1), n_filter: if r.p(0.1) { (1, 1) } else { (0, 0) }, p_dash: 0.2, p_invisible: 0.0, p_dup: 0.05, ..base() };
    let mut d = Gen::new(r, c).document();
    let ex = r.p(0.5);
    for n in d.walk() { if d.is_el(n) && d.name(n) == "path" { let p = gen_path::path(r, ex); d.set(n, "d", p); } }
    Case { svg: d.to_xml(), args: mix_opts(r, PATH_OPTS) }
}
fn p03_check(c: &Case, i: &mut Info) -> Result<(), String> { rendering(c, i, |s, _| s.shapes >= 1) }

// gradients
const GRAD_OPTS: &[&str] = &["remove-dupl-lineargradient", "remove-dupl-radialgradient", "merge-gradients", "regroup-gradient-stops", "remove-invalid-stops", "apply-transform-to-gradients",
    "remove-gradient-attributes", "remove-unused-defs", "remove-default-attributes", "remove-invisible-elements", "remove-needless-attributes"];
fn p06_gen(r: &mut Rng) -> Case {
    let c = Cfg { n_grad: (2, 6), p_grad_paint: 0.8, p_dup: 0.35, n_defshape: (0, 1), w_use: 1, w_text: 1, kids: (1, 3), budget: 8, p_bad: 0.03, p_default_attr: 0.1, p_defs_inline: 0.3, ..base() };
    let svg = doc(r, c);
    Case { svg, args: mix_opts(r, GRAD_OPTS) }
}
fn p06_check(c: &Case, i: &mut Info) -> Result<(), String> { rendering(c, i, |s, _| s.gradients >= 1) }

// transforms
const TF_OPTS: &[&str] = &["apply-transform-to-gradients", "apply-transform-to-shapes", "apply-transform-to-paths", "paths-to-relative", "simplify-transforms", "ungroup-groups", "convert-shapes", "group-by-style", "resolve-use"];
fn p07_gen(r: &mut Rng) -> Case {
    let c = Cfg { p_transform: 0.8, p_skew: 0.25, n_grad: (0, 2), n_pattern: (0, 1), n_clip: (0, 1), n_defshape: (0, 1), w_use: 1, w_text: 1, w_image: 1, w_svg: 1, p_dash: 0.25, p_group_style: 0.3, p_group_fx: 0.1, ..base() };
    let svg = doc(r, c);
    let args = mix_opts(r, TF_OPTS);
    let svg = tiny(r, svg, &args);
    Case { svg, args }
}
fn p07_check(c: &Case, i: &mut Info) -> Result<(), String> { rendering(c, i, |_, x| x.contains("ransform=")) }

// groups
const GROUP_OPTS: &[&str] = &["ungroup-groups", "group-by-style", "ungroup-defs", "remove-needless-attributes", "remove-default-attributes", "remove-unreferenced-ids"];
fn p08_gen(r: &mut Rng) -> Case {
    let c = Cfg { max_depth: 5, w_group: 25, kids: (1, 3), budget: 20, p_dup: 0.5, p_group_style: 0.6, p_group_fx: 0.2, n_clip: (0, 1), n_mask: (0, 1), n_filter: (0, 1), n_defshape: (0, 1), w_use: 2, w_text: 2, w_svg: 1, w_a: 1, w_switch: 1,
        p_inherit: 0.03, p_id: 0.1, p_default_attr: 0.1, ..base() };
    let svg = doc(r, c);
    Case { svg, args: mix_opts(r, GROUP_OPTS) }
}
fn p08_check(c: &Case, i: &mut Info) -> Result<(), String> { rendering(c, i, |_, x| x.contains("<g")) }

// use and defs
const USE_OPTS: &[&str] = &["resolve-use", "ungroup-defs", "remove-unused-defs", "remove-unreferenced-ids", "trim-ids", "ungroup-groups", "group-by-style", "remove-invisible-elements", "remove-unused-coordinates", "remove-needless-attributes", "remove-default-attributes"];
fn p09_gen(r: &mut Rng) -> Case {
    let c = Cfg { n_defshape: (1, 4), n_symbol: (0, 2), w_use: 30, n_grad: (0, 2), n_clip: (0, 1), n_marker: (0, 1), n_filter: (0, 1), n_mask: (0, 1), p_id: 0.3, p_defs_inline: 0.3, w_text: 1, w_svg: 1, p_group_fx: 0.15, p_rich: 0.3, p_default_attr: 0.1, ..base() };
    let svg = doc(r, c);
    Case { svg, args: mix_opts(r, USE_OPTS) }
}
fn p09_check(c: &Case, i: &mut Info) -> Result<(), String> { rendering(c, i, |s, _| s.uses >= 1) }

// CSS, style attributes, inherit, currentColor
const STYLE_OPTS: &[&str] = &["remove-unresolved-classes", "remove-default-attributes", "remove-needless-attributes", "remove-text-attributes", "group-by-style", "ungroup-groups", "resolve-use"];
fn p10_gen(r: &mut Rng) -> Case {
    let c = Cfg { p_css: 0.7, p_style_attr: 0.6, p_inherit: 0.2, p_current: 0.15, p_group_style: 0.7, p_needless: 0.2, p_default_attr: 0.25, n_grad: (0, 2), w_text: 2, n_defshape: (0, 1), w_use: 1, n_clip: (0, 1), n_marker: (0, 1), ..base() };
    let svg = doc(r, c);
    let mut args = mix_opts(r, STYLE_OPTS);
    if r.p(0.4) && !args.iter().any(|a| a.contains("join-style")) { args.push(format!("--join-style-attributes={}", *r.pick(&["no", "some", "all"]))); }
    Case { svg, args }
}
fn p10_check(c: &Case, i: &mut Info) -> Result<(), String> { rendering(c, i, |_, x| x.contains("<style") || x.contains("style=") || x.contains("inherit") || x.contains("currentColor")) }

// text
const TEXT_OPTS: &[&str] = &["remove-text-attributes", "remove-needless-attributes", "remove-default-attributes", "group-by-style", "ungroup-groups", "remove-unused-coordinates", "remove-invisible-elements", "resolve-use"];
fn p11_gen(r: &mut Rng) -> Case {
    let c = Cfg { w_text: 30, w_rect: 2, w_group: 8, n_grad: (0, 1), n_defshape: (0, 1), w_use: 2, p_group_style: 0.4, p_id: 0.3, p_rich: 0.3, p_css: 0.1, p_default_attr: 0.15, p_needless: 0.1, kids: (1, 3), budget: 10, ..base() };
    let svg = doc(r, c);
    let svg = if r.p(0.2) && !svg.contains("<style") { fonts(r, svg) } else { svg };
    Case { svg, args: mix_opts(r, TEXT_OPTS) }
}

/// Adds SVG fonts and texts that use them.
fn fonts(r: &mut Rng, svg: String) -> String {
    let at = match svg.rfind("</svg>") { Some(p) => p, None => return svg };
    let mut s = String::new();
    for i in 0..r.range(1, 2) {
        let mut face = String::new();
        let fam = *r.pick(&["My", "Arial", "Verdana", "Times New Roman"]);
        face.push_str(&format!("font-family=\"{}\"", fam));
        for (n, v) in [("font-weight", &["normal", "bold", "700", "400"][..]), ("font-style", &["normal", "italic"][..]), ("font-variant", &["small-caps"][..]), ("font-stretch", &["condensed"][..]),
            ("units-per-em", &["1000", "100"][..]), ("ascent", &["80"][..]), ("descent", &["-20"][..]), ("cap-height", &["70"][..]), ("panose-1", &["2 11 6 3 3 8 4 2 2 4"][..]), ("unicode-range", &["U+0-7F"][..]), ("alphabetic", &["0"][..])] {
            if r.p(0.3) { face.push_str(&format!(" {}=\"{}\"", n, r.pick(v))); }
        }
        let mut f = format!("<font{} horiz-adv-x=\"{}\"><font-face {}/>", if r.p(0.5) { format!(" id=\"fnt{}\"", i) } else { String::new() }, r.range(10, 100), face);
        if r.p(0.5) { f.push_str("<missing-glyph d=\"M0 0H50V50z\"/>"); }
        for u in ["a", "b", "fi"] { if r.p(0.6) { f.push_str(&format!("<glyph unicode=\"{}\" horiz-adv-x=\"{}\" d=\"M0 0L{} 0L5 {}z\"/>", u, r.range(1, 90), r.range(1, 90), r.range(1, 90))); } }
        if r.p(0.3) { f.push_str("<hkern u1=\"a\" u2=\"b\" k=\"5\"/>"); }
        f.push_str("</font>");
        s.push_str(&match r.below(5) { 0 => f, 1 => format!("<g>{}</g>", f), 2 => format!("<defs><g font-size=\"20\">{}</g></defs>", f), _ => format!("<defs>{}</defs>", f) });
        let t = format!("<text font-family=\"{}\" x=\"5\" y=\"30\">ab{}</text>", fam, i);
        match r.below(4) { 0 => s.push_str(&format!("<a xlink:href=\"http://a.b/\" xmlns:xlink=\"http://www.w3.org/1999/xlink\">{}</a>", t)), 1 => s.push_str(&format!("<g opacity=\"0.5\">{}</g>", t)), 2 => s.push_str(&t), _ => {} }
    }
    format!("{}{}{}", &svg[..at], s, &svg[at..])
}

/// SVG fonts with their descriptors, glyphs and kerning. Values that are the initial ones are skipped.
fn font_model(svg: &str) -> Result<Vec<Vec<(String, Vec<(String, String)>)>>, String> {
    let d = xml::parse(svg).map_err(|e| format!("{:?}", e))?;
    let attrs = |n: usize| {
        let mut v: Vec<(String, String)> = d.attrs(n).iter().filter(|a| a.0 != "id" && a.0 != "class" && !a.0.starts_with("xml"))
            .filter(|a| !["font-stretch", "font-variant"].contains(&a.0.as_str()) || a.1 != "normal").filter(|a| !(a.0.starts_with("font-") && a.1 == "all") && !(a.0 == "units-per-em" && a.1 == "1000")).cloned().collect();
        v.sort();
        v
    };
    let mut out = Vec::new();
    for n in d.walk() {
        if !d.is_el(n) || d.name(n) != "font" { continue; }
        let mut f = vec![("font".to_string(), d.attrs(n).iter().filter(|a| a.0.starts_with("horiz-") || a.0.starts_with("vert-")).cloned().collect::<Vec<_>>())];
        f[0].1.sort();
        for c in d.el_children(n) { f.push((d.name(c).to_string(), attrs(c))); }
        out.push(f);
    }
    Ok(out)
}

fn same_font(f: &[(String, Vec<(String, String)>)], g: &[(String, Vec<(String, String)>)]) -> Result<(), String> {
    let p = crate::tree::Prec { coord: 1, prop: 1, ts: 1, path: 1, rel: false };
    if f.len() != g.len() { return Err(format!("a font with {} children instead of {}", g.len() - 1, f.len() - 1)); }
    for (u, v) in f.iter().zip(g.iter()) {
        if u.0 != v.0 { return Err(format!("<{}> instead of <{}> in a font", v.0, u.0)); }
        let names = |w: &[(String, String)]| w.iter().map(|a| a.0.clone()).collect::<Vec<_>>();
        if names(&u.1) != names(&v.1) { return Err(format!("<{}> of a font: {:?} instead of {:?}", u.0, v.1, u.1)); }
        for (s, t) in u.1.iter().zip(v.1.iter()) { crate::tree::attr(&u.0, &s.0, &s.1, &t.1, &p, &mut 0).map_err(|e| format!("'{}' of <{}> of a font: {}", s.0, u.0, e))?; }
    }
    Ok(())
}

fn same_fonts(a: &str, b: &str) -> Result<usize, String> {
    let (x, y) = (font_model(a)?, font_model(b)?);
    if x.len() != y.len() { return Err(format!("{} fonts instead of {}", y.len(), x.len())); }
    let mut rest: Vec<_> = y.iter().collect();
    for f in &x {
        // The order of fonts can be changed.
        let r: Vec<Result<(), String>> = rest.iter().map(|g| same_font(f, g)).collect();
        match r.iter().position(|q| q.is_ok()) { Some(k) => { rest.remove(k); } None => return r.into_iter().next().unwrap_or(Ok(())).map(|_| 0) }
    }
    Ok(x.len())
}

fn p11_check(c: &Case, i: &mut Info) -> Result<(), String> {
    if let Some((s, out)) = rendering_out(c, i, |s, _| s.texts >= 1)? {
        // Fonts without texts can be changed in any way.
        // Style sheets with '*' can add properties to fonts too.
        if s > 0 && c.svg.contains("<font") && !c.svg.contains("<style") && same_fonts(&c.svg, &out)? > 0 { i.class("svg-fonts"); }
    }
    Ok(())
}

// filters
const FILTER_OPTS: &[&str] = &["remove-dupl-fegaussianblur", "remove-invisible-elements", "remove-default-attributes", "remove-needless-attributes", "remove-unused-defs", "ungroup-groups", "group-by-style", "apply-transform-to-shapes", "convert-shapes", "paths-to-relative", "resolve-use"];
fn p21_gen(r: &mut Rng) -> Case {
    let c = Cfg { n_filter: (1, 4), n_clip: (0, 1), n_mask: (0, 1), p_group_fx: 0.6, p_shape_fx: 0.5, p_dup: 0.35, w_use: 1, n_defshape: (0, 1), w_text: 1, w_image: 1, p_rich: 0.35, kids: (1, 3), budget: 9, p_default_attr: 0.1, p_invisible: 0.05, ..base() };
    let svg = doc(r, c);
    Case { svg, args: mix_opts(r, FILTER_OPTS) }
}
fn p21_check(c: &Case, i: &mut Info) -> Result<(), String> { rendering(c, i, |s, _| s.filters >= 1) }

// clip paths, masks, patterns, markers
const CLIP_OPTS: &[&str] = &["remove-invisible-elements", "remove-default-attributes", "remove-needless-attributes", "remove-unused-defs", "ungroup-groups", "group-by-style", "apply-transform-to-shapes", "convert-shapes", "paths-to-relative", "resolve-use", "ungroup-defs", "remove-unused-segments"];
fn p23_gen(r: &mut Rng) -> Case {
    let c = Cfg { n_clip: (1, 3), n_mask: (0, 2), n_pattern: (0, 2), n_marker: (0, 2), p_marker_use: 0.4, p_group_fx: 0.6, p_shape_fx: 0.5, w_use: 1, n_symbol: (0, 1), n_filter: (0, 1), w_svg: 1, n_defshape: (0, 1), w_text: 1, p_rich: 0.35, kids: (1, 3), budget: 9, p_default_attr: 0.1,
        p_invisible: 0.06, p_degenerate: 0.1, p_grad_paint: 0.2, ..base() };
    let svg = doc(r, c);
    Case { svg, args: mix_opts(r, CLIP_OPTS) }
}
fn p23_check(c: &Case, i: &mut Info) -> Result<(), String> { rendering(c, i, |s, _| s.clips + s.masks + s.patterns + s.markers >= 1) }

// invisible, unused and needless content
const INV_OPTS: &[&str] = &["remove-invisible-elements", "remove-default-attributes", "remove-needless-attributes", "remove-unused-defs", "remove-unused-coordinates", "remove-unused-segments", "remove-invalid-stops", "remove-text-attributes", "ungroup-groups", "remove-unreferenced-ids"];
fn p24_gen(r: &mut Rng) -> Case {
    let c = Cfg { p_invisible: 0.35, p_needless: 0.5, p_default_attr: 0.5, p_degenerate: 0.2, p_bad: 0.06, n_clip: (0, 1), n_mask: (0, 1), n_marker: (0, 1), n_filter: (0, 1), n_pattern: (0, 1), n_defshape: (0, 2), n_symbol: (0, 1), w_use: 4, w_text: 2, w_image: 1, w_svg: 1,
        p_misc_nodes: 0.1, p_nonsvg: 0.1, ..base() };
    let svg = doc(r, c);
    let args = mix_opts(r, INV_OPTS);
    let svg = tiny(r, svg, &args);
    Case { svg, args }
}
fn p24_check(c: &Case, i: &mut Info) -> Result<(), String> { rendering(c, i, |_, _| true) }

// shapes
const SHAPE_OPTS: &[&str] = &["convert-shapes", "apply-transform-to-shapes", "paths-to-relative", "convert-segments", "trim-paths", "remove-unused-coordinates", "remove-default-attributes", "remove-needless-attributes"];
fn p25_gen(r: &mut Rng) -> Case {
    let c = Cfg { w_path: 1, w_rect: 10, w_circle: 5, w_ellipse: 5, w_line: 6, w_polyline: 6, w_polygon: 6, p_units: 0.3, p_bad: 0.12, p_degenerate: 0.1, n_marker: (0, 1), p_transform: 0.35, w_use: 1, n_defshape: (0, 1), n_clip: (0, 1), w_svg: 1, p_dash: 0.25, kids: (1, 3), budget: 8, ..base() };
    let svg = doc(r, c);
    let args = mix_opts(r, SHAPE_OPTS);
    let svg = tiny(r, svg, &args);
    Case { svg, args }
}
fn p25_check(c: &Case, i: &mut Info) -> Result<(), String> { rendering(c, i, |_, _| true) }

pub static PROPS: &[Prop] = &[
    Prop { id: "P01", gen: p01_gen, check: p01_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("all constructs mixed, default options."), assumptions: MODEL },
    Prop { id: "P02", gen: p02_gen, check: p01_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("all constructs mixed, random consistent options."), assumptions: MODEL },
    Prop { id: "P03", gen: p03_gen, check: p03_check, keep: any, quick: 300_000, thorough: 8_000_000, rule: rule!("paths with unusual but valid data."), assumptions: MODEL },
    Prop { id: "P04", gen: props_tree::p04_gen, check: props_tree::p04_check, keep: any, quick: 300_000, thorough: 6_000_000, rule: "Random documents with values in random notations, cleaning off, random output formats; non-trivial: at least 1 value written in another notation.", assumptions: TREE },
    Prop { id: "P05", gen: props_tree::p05_gen, check: props_tree::p05_check, keep: any, quick: 300_000, thorough: 6_000_000, rule: "Random documents with random long numbers (including rounding ties), random precisions of the four kinds; non-trivial: at least 1 number compared.", assumptions: TREE },
    Prop { id: "P06", gen: p06_gen, check: p06_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("at least one resolved gradient."), assumptions: MODEL },
    Prop { id: "P07", gen: p07_gen, check: p07_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("at least one transform attribute."), assumptions: MODEL },
    Prop { id: "P08", gen: p08_gen, check: p08_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("at least one group."), assumptions: MODEL },
    Prop { id: "P09", gen: p09_gen, check: p09_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("at least one rendered use element."), assumptions: MODEL },
    Prop { id: "P10", gen: p10_gen, check: p10_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("CSS, style attributes, inherit or currentColor present."), assumptions: MODEL },
    Prop { id: "P11", gen: p11_gen, check: p11_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("at least one painted text."), assumptions: MODEL },
    Prop { id: "P12", gen: props_ids::gen, check: props_ids::check, keep: any, quick: 300_000, thorough: 4_000_000, rule: "Random documents with 0-3300 further definitions and their users, ids renamed into short, colliding, dotted and non-ASCII ones, random options with a focus on the id options; non-trivial: the output has at least 2 ids and 1 reference.",
        assumptions: &["The kinds of elements a reference may resolve to are the ones of SVG 1.1.", "In the exact mode elements are tracked by an own mark (a namespaced attribute) which no option of that mode removes."] },
    Prop { id: "P13", gen: props_xml::p13_gen, check: props_xml::p13_check, keep: any, quick: 300_000, thorough: 6_000_000, rule: "Random documents with hostile texts, attributes, comments, processing instructions, foreign trees and namespaces, written in a random notation (quotes, references, CDATA, entities), random options; non-trivial: any of these is present and the document is accepted.",
        assumptions: &["Well-formedness is decided by the strict XML 1.0 + namespaces parser of the harness."] },
    Prop { id: "P14", gen: props_xml::p14_gen, check: props_xml::p14_check, keep: any, quick: 1_500_000, thorough: 20_000_000, rule: "Random documents with random structural mutations (attributes, values, elements, references, loops, nesting) and textual mutations, random options; every case is non-trivial.",
        assumptions: &["The library is built in release mode, as the released program is."] },
    Prop { id: "P15", gen: props_doc::p15_gen, check: props_doc::p15_check, keep: any, quick: 400_000, thorough: 4_000_000, rule: "Random documents with 0-2 unsupported constructs and 0-3 supported look-alikes injected at random places; every judged case is non-trivial.",
        assumptions: &["The list of unsupported constructs is docs/svgcleaner.adoc and README; the causes are found by the harness' own XML parser."] },
    Prop { id: "P16", gen: props_tree::p16_gen, check: props_tree::p16_check, keep: any, quick: 300_000, thorough: 6_000_000, rule: "Random documents decorated with removable content at random places, random removal options; non-trivial: at least 1 removal option is on.", assumptions: TREE },
    Prop { id: "P17", gen: props_cli::gen, check: props_cli::check, keep: any, quick: 200_000, thorough: 4_000_000, rule: "Random argument lists (all flags in all value notations, both option forms, any order, errors in 15 %); non-trivial: more than the two files, or refused.",
        assumptions: &["The model is data/help.txt and docs/svgcleaner.adoc; the meaning of each option value itself is decided by the other properties."] },
    Prop { id: "P18", gen: props_files::p18_gen, check: props_files::p18_check, keep: any, quick: 30_000, thorough: 1_000_000, rule: "One run of the real binary in a fresh scratch directory: random documents (valid, unsupported, malformed, not UTF-8, already clean), states of the input and the output path and options; every judged run is non-trivial.",
        assumptions: &["The result of the library is what the binary has to write; that result itself is judged by the other properties."] },
    Prop { id: "P19", gen: props_files::p19_gen, check: props_files::p19_check, keep: any, quick: 8_000, thorough: 300_000, rule: "Random documents (up to 300 KB) and options, seven runs of the real binary and two of the library; non-trivial: cleaned and changed.", assumptions: &["The environment of the runs differs in the working directory, the paths, the order of the options and the process."] },
    Prop { id: "P20", gen: props_multi::gen, check: props_multi::check, keep: any, quick: 60_000, thorough: 2_000_000, rule: "Random documents and options, up to 24 passes, the first 6 are rendered, and a multipass run of the binary; non-trivial: at least 2 different outputs and 1 painted item.", assumptions: MODEL },
    Prop { id: "P21", gen: p21_gen, check: p21_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("at least one applied filter."), assumptions: MODEL },
    Prop { id: "P23", gen: p23_gen, check: p23_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("at least one applied clip path, mask, pattern or marker."), assumptions: MODEL },
    Prop { id: "P24", gen: p24_gen, check: p24_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("many invisible, unused, default and needless items."), assumptions: MODEL },
    Prop { id: "P25", gen: p25_gen, check: p25_check, keep: any, quick: 400_000, thorough: 6_000_000, rule: rule!("mostly basic shapes, units, values in error."), assumptions: MODEL },
];

//! CSS cascade and computed values for the SVG 1.1 property set (independent of svgdom).

use std::collections::HashMap;
use std::rc::Rc;
use std::sync::OnceLock;

use crate::values::*;
use crate::xml::*;

/// (name, inherited, initial value)
pub const PROPS: &[(&str, bool, &str)] = &[
    ("alignment-baseline", false, "auto"),
    ("baseline-shift", false, "baseline"),
    ("clip", false, "auto"),
    ("clip-path", false, "none"),
    ("clip-rule", true, "nonzero"),
    ("color", true, "black"),
    ("color-interpolation", true, "sRGB"),
    ("color-interpolation-filters", true, "linearRGB"),
    ("color-profile", true, "auto"),
    ("color-rendering", true, "auto"),
    ("cursor", true, "auto"),
    ("direction", true, "ltr"),
    ("display", false, "inline"),
    ("dominant-baseline", false, "auto"),
    ("enable-background", false, "accumulate"),
    ("fill", true, "black"),
    ("fill-opacity", true, "1"),
    ("fill-rule", true, "nonzero"),
    ("filter", false, "none"),
    ("flood-color", false, "black"),
    ("flood-opacity", false, "1"),
    ("font-family", true, ""),
    ("font-size", true, "16"),
    ("font-size-adjust", true, "none"),
    ("font-stretch", true, "normal"),
    ("font-style", true, "normal"),
    ("font-variant", true, "normal"),
    ("font-weight", true, "normal"),
    ("glyph-orientation-horizontal", true, "0"),
    ("glyph-orientation-vertical", true, "auto"),
    ("image-rendering", true, "auto"),
    ("kerning", true, "auto"),
    ("letter-spacing", true, "normal"),
    ("lighting-color", false, "white"),
    ("marker-end", true, "none"),
    ("marker-mid", true, "none"),
    ("marker-start", true, "none"),
    ("mask", false, "none"),
    ("opacity", false, "1"),
    ("overflow", false, ""),
    ("pointer-events", true, "visiblePainted"),
    ("shape-rendering", true, "auto"),
    ("stop-color", false, "black"),
    ("stop-opacity", false, "1"),
    ("stroke", true, "none"),
    ("stroke-dasharray", true, "none"),
    ("stroke-dashoffset", true, "0"),
    ("stroke-linecap", true, "butt"),
    ("stroke-linejoin", true, "miter"),
    ("stroke-miterlimit", true, "4"),
    ("stroke-opacity", true, "1"),
    ("stroke-width", true, "1"),
    ("text-anchor", true, "start"),
    ("text-decoration", false, "none"),
    ("text-rendering", true, "auto"),
    ("unicode-bidi", false, "normal"),
    ("visibility", true, "visible"),
    ("word-spacing", true, "normal"),
    ("writing-mode", true, "lr-tb"),
];

pub fn pidx(n: &str) -> Option<usize> {
    static MAP: OnceLock<HashMap<&'static str, usize>> = OnceLock::new();
    MAP.get_or_init(|| PROPS.iter().enumerate().map(|(i, p)| (p.0, i)).collect()).get(n).cloned()
}

pub type Specified = Vec<(usize, Rc<str>)>;

#[derive(Clone, PartialEq)]
pub struct Style { pub v: Rc<Vec<Rc<str>>> }

impl Style {
    pub fn initial() -> Style {
        Style { v: Rc::new(PROPS.iter().map(|p| Rc::from(p.2)).collect()) }
    }
    pub fn get(&self, n: &str) -> &str {
        match pidx(n) { Some(i) => &self.v[i], None => panic!("unknown property {}", n) }
    }
    pub fn font_size(&self) -> f64 {
        let t = self.get("font-size");
        match length(t) { Some(l) => l.0, None => 16.0 }
    }
    pub fn num(&self, n: &str, def: f64) -> f64 { number(self.get(n)).unwrap_or(def) }
}

fn valid_value(name: &str, v: &str) -> bool {
    if v.is_empty() { return false; }
    match name {
        "fill" | "stroke" => v == "inherit" || paint(v).is_some(),
        "color" | "stop-color" | "flood-color" | "lighting-color" =>
            v == "inherit" || v == "currentColor" || color(v).is_some(),
        "stroke-width" | "stroke-dashoffset" => v == "inherit" || length(v).is_some(),
        "opacity" | "fill-opacity" | "stroke-opacity" | "stop-opacity" | "flood-opacity" | "stroke-miterlimit" =>
            v == "inherit" || number(v).is_some(),
        _ => true,
    }
}

pub struct Rule { sel: Sel, decls: Vec<(String, String)> }
enum Sel { Any, Type(String), Class(String), Id(String) }

impl Rule {
    pub fn selects(&self, dom: &Dom, i: usize) -> bool {
        match self.sel {
            Sel::Any => true,
            Sel::Type(ref t) => t == dom.name(i),
            Sel::Class(ref c) => dom.attr(i, "class").unwrap_or("").split_ascii_whitespace().any(|x| x == c),
            Sel::Id(ref c) => dom.attr(i, "id") == Some(c.as_str()),
        }
    }
}

pub fn parse_css(t: &str) -> Vec<Rule> {
    // strip comments
    let mut s = String::new();
    let mut rest = t;
    while let Some(k) = rest.find("/*") {
        s.push_str(&rest[..k]);
        match rest[k + 2..].find("*/") { Some(e) => rest = &rest[k + 2 + e + 2..], None => { rest = ""; break; } }
    }
    s.push_str(rest);
    let mut out = vec![];
    let mut r = s.as_str();
    while let Some(b) = r.find('{') {
        let e = match r[b..].find('}') { Some(e) => b + e, None => break };
        let decls = parse_decls(&r[b + 1..e]);
        for sel in r[..b].split(',') {
            let sel = sel.trim();
            if sel.is_empty() { continue; }
            let sl = if sel == "*" { Sel::Any }
                else if let Some(c) = sel.strip_prefix('.') { Sel::Class(c.into()) }
                else if let Some(c) = sel.strip_prefix('#') { Sel::Id(c.into()) }
                else { Sel::Type(sel.into()) };
            out.push(Rule { sel: sl, decls: decls.clone() });
        }
        r = &r[e + 1..];
    }
    out
}

pub fn parse_decls(t: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for d in t.split(';') {
        if let Some(k) = d.find(':') {
            let n = d[..k].trim();
            let v = d[k + 1..].trim();
            if !n.is_empty() && !v.is_empty() { out.push((n.to_string(), v.to_string())); }
        }
    }
    out
}

pub fn cascade(dom: &Dom) -> HashMap<usize, Specified> {
    let mut rules = vec![];
    for i in dom.walk() {
        if dom.name(i) == "style" {
            rules.extend(parse_css(&dom.text_of(i)));
        }
    }
    let mut out = HashMap::new();
    for i in dom.walk() {
        if !dom.is_el(i) { continue; }
        // name -> (priority, value)
        let mut m: HashMap<usize, (u32, Rc<str>)> = HashMap::new();
        let put = |m: &mut HashMap<usize, (u32, Rc<str>)>, n: &str, v: &str, pr: u32| {
            if n == "marker" && pr > 0 {
                for k in ["marker-start", "marker-mid", "marker-end"] {
                    let idx = pidx(k).unwrap();
                    if m.get(&idx).map(|x| x.0 <= pr).unwrap_or(true) { m.insert(idx, (pr, Rc::from(v.trim()))); }
                }
                return;
            }
            if let Some(idx) = pidx(n) {
                if !valid_value(n, v.trim()) { return; }
                if m.get(&idx).map(|x| x.0 <= pr).unwrap_or(true) { m.insert(idx, (pr, Rc::from(v.trim()))); }
            }
        };
        for (n, v) in dom.attrs(i) { put(&mut m, n, v, 0); }
        let classes: Vec<&str> = dom.attr(i, "class").unwrap_or("").split_ascii_whitespace().collect();
        for r in &rules {
            let (ok, pr) = match r.sel {
                Sel::Any => (true, 1),
                Sel::Type(ref t) => (t == dom.name(i), 2),
                Sel::Class(ref c) => (classes.iter().any(|x| x == c), 3),
                Sel::Id(ref c) => (dom.attr(i, "id") == Some(c.as_str()), 4),
            };
            if ok { for (n, v) in &r.decls { put(&mut m, n, v, pr); } }
        }
        if let Some(st) = dom.attr(i, "style") {
            for (n, v) in parse_decls(st) { put(&mut m, &n, &v, 9); }
        }
        let mut sp: Specified = m.into_iter().map(|(k, v)| (k, v.1)).collect();
        sp.sort_by_key(|x| x.0);
        out.insert(i, sp);
    }
    out
}

pub fn compute(sp: &Specified, parent: &Style) -> Style {
    let mut v: Vec<Rc<str>> = Vec::with_capacity(PROPS.len());
    for (i, p) in PROPS.iter().enumerate() {
        v.push(if p.1 { parent.v[i].clone() } else { Rc::from(p.2) });
    }
    for (i, s) in sp {
        if &**s == "inherit" { v[*i] = parent.v[*i].clone(); } else { v[*i] = s.clone(); }
    }
    // decorations are drawn for all descendants
    let ti = pidx("text-decoration").unwrap();
    {
        let mut t: Vec<&str> = parent.v[ti].split_ascii_whitespace().chain(v[ti].split_ascii_whitespace()).filter(|x| *x != "none").collect();
        t.sort();
        t.dedup();
        let j = if t.is_empty() { "none".to_string() } else { t.join(" ") };
        v[ti] = Rc::from(j.as_str());
    }
    // font-size
    let fi = pidx("font-size").unwrap();
    if sp.iter().any(|x| x.0 == fi && &*x.1 != "inherit") {
        if let Some(l) = length(&v[fi]) {
            let pf = parent.font_size();
            let px = match l.1 {
                Unit::Em => l.0 * pf,
                Unit::Ex => l.0 * pf / 2.0,
                Unit::Percent => l.0 / 100.0 * pf,
                _ => abs_len(l).unwrap_or(l.0),
            };
            v[fi] = Rc::from(fmt_num(px).as_str());
        }
    }
    if sp.iter().any(|x| x.0 == fi) {
        let pf = parent.font_size();
        let k = match &*v[fi] { "larger" => Some(pf * 1.2), "smaller" => Some(pf / 1.2), "xx-small" => Some(9.0), "x-small" => Some(10.0), "small" => Some(13.0), "medium" => Some(16.0), "large" => Some(18.0), "x-large" => Some(24.0), "xx-large" => Some(32.0), _ => None };
        if let Some(k) = k { v[fi] = Rc::from(fmt_num(k).as_str()); }
    }
    let wi = pidx("font-weight").unwrap();
    if sp.iter().any(|x| x.0 == wi) {
        let pw = weight(&parent.v[wi]);
        let k = match &*v[wi] {
            "bolder" => if pw <= 300.0 { 400.0 } else if pw <= 500.0 { 700.0 } else { 900.0 },
            "lighter" => if pw <= 500.0 { 100.0 } else if pw <= 700.0 { 400.0 } else { 700.0 },
            x => weight(x),
        };
        v[wi] = Rc::from(if k == 400.0 { "normal".to_string() } else { fmt_num(k) }.as_str());
    }
    let fs = length(&v[fi]).map(|l| l.0).unwrap_or(16.0);
    // em/ex lengths are absolutized where specified
    for n in ["stroke-width", "stroke-dashoffset", "letter-spacing", "word-spacing", "kerning", "baseline-shift"] {
        let k = pidx(n).unwrap();
        if sp.iter().any(|x| x.0 == k) {
            if let Some(l) = length(&v[k]) {
                if l.1 == Unit::Em { v[k] = Rc::from(fmt_num(l.0 * fs).as_str()); }
                else if l.1 == Unit::Ex { v[k] = Rc::from(fmt_num(l.0 * fs / 2.0).as_str()); }
            }
        }
    }
    {
        let k = pidx("stroke-dasharray").unwrap();
        if sp.iter().any(|x| x.0 == k) {
            if let Some(l) = lengths(&v[k]) {
                if l.iter().any(|x| x.1 == Unit::Em || x.1 == Unit::Ex) {
                    let t: Vec<String> = l.iter().map(|x| match x.1 { Unit::Em => fmt_num(x.0 * fs), Unit::Ex => fmt_num(x.0 * fs / 2.0), Unit::Percent => format!("{}%", x.0), _ => fmt_num(abs_len(*x).unwrap_or(x.0)) }).collect();
                    v[k] = Rc::from(t.join(" ").as_str());
                }
            }
        }
    }
    // currentColor
    let ci = pidx("color").unwrap();
    if &*v[ci] == "currentColor" { v[ci] = parent.v[ci].clone(); }
    let cur = v[ci].clone();
    for n in ["fill", "stroke", "stop-color", "flood-color", "lighting-color"] {
        let k = pidx(n).unwrap();
        if &*v[k] == "currentColor" { v[k] = cur.clone(); }
        else if v[k].contains("currentColor") { let s = v[k].replace("currentColor", &cur); v[k] = Rc::from(s.as_str()); }
    }
    Style { v: Rc::new(v) }
}

fn weight(t: &str) -> f64 { match t { "normal" => 400.0, "bold" => 700.0, x => number(x).unwrap_or(400.0) } }

pub fn fmt_num(x: f64) -> String { format!("{}", x) }

pub fn abs_len(l: Len) -> Option<f64> {
    Some(match l.1 {
        Unit::None | Unit::Px => l.0,
        Unit::In => l.0 * 96.0,
        Unit::Cm => l.0 * 96.0 / 2.54,
        Unit::Mm => l.0 * 96.0 / 25.4,
        Unit::Pt => l.0 * 96.0 / 72.0,
        Unit::Pc => l.0 * 16.0,
        _ => return None,
    })
}

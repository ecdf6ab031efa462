//! Random edits of a generated document that put constructs in unusual, but valid places.

use crate::gen::{n2s, Gen};
use crate::style::{parse_decls, pidx, PROPS};
use crate::xml::*;

const DEFS: &[&str] = &["linearGradient", "radialGradient", "clipPath", "mask", "pattern", "marker", "filter", "symbol"];
const TEXTS: &[&str] = &["text", "tspan", "textPath", "tref", "title", "desc", "metadata", "style", "altGlyph"];
const INHERITED: &[(&str, &[&str])] = &[
    ("fill", &["red", "#00ff00", "none"]), ("stroke", &["blue", "none"]), ("color", &["green", "red"]), ("color-interpolation", &["linearRGB", "sRGB"]),
    ("color-interpolation-filters", &["sRGB", "linearRGB"]), ("clip-rule", &["evenodd", "nonzero"]), ("fill-rule", &["evenodd"]), ("font-size", &["20", "12"]),
    ("visibility", &["hidden", "visible"]), ("stroke-width", &["3", "0.5"]), ("fill-opacity", &["0.5"]), ("stroke-dasharray", &["4 2", "none"]),
    ("image-rendering", &["optimizeSpeed"]), ("text-rendering", &["geometricPrecision"]), ("shape-rendering", &["crispEdges"]), ("stroke-linejoin", &["round"]),
    ("font-family", &["Verdana"]), ("text-anchor", &["middle", "end"]),
];
const RESET: &[(&str, &[&str])] = &[
    ("opacity", &["0.5", "1"]), ("overflow", &["visible", "hidden"]), ("display", &["inline", "none"]), ("stop-color", &["red"]), ("stop-opacity", &["0.5"]), ("flood-color", &["blue"]),
    ("flood-opacity", &["0.25"]), ("lighting-color", &["yellow"]), ("text-decoration", &["underline", "none"]), ("enable-background", &["new"]), ("baseline-shift", &["sub"]),
];

const SIBLING: &[(&str, &[&str])] = &[
    ("fill", &["red", "#00ff00", "none"]), ("stroke", &["blue", "none"]), ("font-size", &["50%", "1.5em", "20", "larger", "150%"]), ("font-weight", &["bolder", "bold", "lighter"]),
    ("letter-spacing", &["0.1em", "3"]), ("stroke-width", &["0.2em", "2%", "3"]), ("transform", &["translate(10 20)", "scale(2)", "rotate(30)", "matrix(1 0.5 0 1 3 4)"]),
    ("opacity", &["0.5", "0"]), ("visibility", &["hidden", "visible"]), ("display", &["none", "inline"]), ("text-decoration", &["underline", "overline"]), ("fill-opacity", &["0.5"]),
    ("overflow", &["visible", "hidden"]), ("stroke-dasharray", &["5%", "4 2", "1em"]), ("font-family", &["Arial", "Verdana"]), ("word-spacing", &["1ex", "2"]), ("stroke-linecap", &["round"]),
    ("fill-rule", &["evenodd"]), ("color", &["green"]), ("baseline-shift", &["sub", "10%"]), ("text-anchor", &["middle"]), ("dominant-baseline", &["middle"]),
];

const UNITS: &[&str] = &["userSpaceOnUse", "objectBoundingBox"];
const ASPECT: &[&str] = &["none", "xMidYMid", "xMidYMid meet", "xMaxYMin slice"];
const OVERFLOW: &[&str] = &["visible", "hidden", "auto", "scroll"];
const POS: &[&str] = &["0", "0%", "5", "10%", "1e1", "-3"];
const LIST: &[&str] = &["0", "0 30 60", "10,20", "0 0", "5", "20 0", "0 10%"];
const SHIFT: &[&str] = &["0", "0 3", "0 0", "4", "0.5em"];
const FRAC: &[&str] = &["0", "0%", "0.5", "50%", "1", "100%", "0.3"];
const REGION: &[&str] = &["-10%", "-0.1", "0", "10", "-20%", "10%"];
const REGION_SIZE: &[&str] = &["120%", "1.2", "100%", "1", "80", "140%"];
const IDENTITY: &[&str] = &["1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0", "1 0 0 0 0  0 1 0 0 0  0 0 1 0 0  0 0 0 1 0", "1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0", "0 1 0 0 0  1 0 0 0 0  0 0 1 0 0  0 0 0 1 0"];

/// Values of attributes that are special: default ones, nearly default ones, lists and units.
fn special(name: &str) -> &'static [(&'static str, &'static [&'static str])] {
    match name {
        "text" => &[("x", LIST), ("y", LIST), ("x", LIST), ("dx", SHIFT), ("dy", SHIFT), ("rotate", &["0", "0 30", "45"]), ("textLength", &["80", "120"]), ("lengthAdjust", &["spacing", "spacingAndGlyphs"])],
        "tspan" => &[("x", LIST), ("y", LIST), ("dx", SHIFT), ("dy", SHIFT), ("rotate", &["0", "0 30", "45"])],
        "textPath" => &[("startOffset", &["0", "20", "50%", "0%"]), ("method", &["align", "stretch"]), ("spacing", &["exact", "auto"])],
        "mask" => &[("x", REGION), ("y", REGION), ("width", REGION_SIZE), ("height", REGION_SIZE), ("maskUnits", UNITS), ("maskContentUnits", UNITS)],
        "filter" => &[("x", REGION), ("y", REGION), ("width", REGION_SIZE), ("height", REGION_SIZE), ("filterUnits", UNITS), ("primitiveUnits", UNITS)],
        "pattern" => &[("x", POS), ("y", POS), ("width", &["0", "20%", "30", "0.2"]), ("height", &["0", "20%", "30", "0.2"]), ("patternUnits", UNITS), ("patternContentUnits", UNITS), ("overflow", OVERFLOW), ("preserveAspectRatio", ASPECT), ("viewBox", &["0 0 20 10"]), ("patternTransform", &["scale(2)", "matrix(1 0 0 1 0 0)", "rotate(30)"])],
        "marker" => &[("refX", POS), ("refY", POS), ("markerUnits", &["strokeWidth", "userSpaceOnUse"]), ("markerWidth", &["3", "0", "8", "3.5"]), ("markerHeight", &["3", "0", "8"]), ("orient", &["0", "auto", "45"]), ("overflow", OVERFLOW), ("viewBox", &["0 0 5 8"]), ("preserveAspectRatio", ASPECT)],
        "clipPath" => &[("clipPathUnits", UNITS), ("transform", &["matrix(1 0 0 1 0 0)", "scale(0.5)", "translate(3)"])],
        "svg" => &[("x", POS), ("y", POS), ("width", &["100%", "50", "80%"]), ("height", &["100%", "50", "80%"]), ("overflow", OVERFLOW), ("preserveAspectRatio", ASPECT), ("viewBox", &["0 0 100 100", "10 5 60 90"])],
        "symbol" => &[("overflow", OVERFLOW), ("overflow", OVERFLOW), ("preserveAspectRatio", ASPECT), ("viewBox", &["0 0 100 100", "10 5 60 90"])],
        "image" => &[("x", POS), ("y", POS), ("width", &["0", "100%", "50"]), ("height", &["0", "100%", "50"]), ("preserveAspectRatio", ASPECT), ("overflow", OVERFLOW)],
        "use" => &[("x", POS), ("y", POS), ("width", &["100%", "50", "80%"]), ("height", &["100%", "50", "80%"])],
        "rect" => &[("x", POS), ("y", POS), ("rx", &["0", "5", "10%", "200"]), ("ry", &["0", "5", "10%", "200"]), ("width", &["30", "20%", "5mm"]), ("height", &["30", "20%", "5mm"])],
        "circle" => &[("cx", POS), ("cy", POS), ("r", &["10", "10%", "2mm"])],
        "ellipse" => &[("cx", POS), ("cy", POS), ("rx", &["10", "10%", "2mm"]), ("ry", &["10", "10%", "2mm"])],
        "line" => &[("x1", POS), ("y1", POS), ("x2", POS), ("y2", POS)],
        "linearGradient" => &[("x1", FRAC), ("y1", FRAC), ("x2", FRAC), ("y2", FRAC), ("gradientUnits", UNITS), ("spreadMethod", &["pad", "reflect", "repeat"]), ("gradientTransform", &["matrix(1 0 0 1 0 0)", "scale(2)", "rotate(30)", "translate(3 4)"])],
        "radialGradient" => &[("cx", FRAC), ("cy", FRAC), ("r", FRAC), ("fx", FRAC), ("fy", FRAC), ("gradientUnits", UNITS), ("spreadMethod", &["pad", "reflect", "repeat"]), ("gradientTransform", &["matrix(1 0 0 1 0 0)", "scale(2)", "rotate(30)", "translate(3 4)"])],
        "stop" => &[("offset", FRAC), ("stop-opacity", &["0", "1", "0.5"]), ("stop-color", &["black", "#000", "red"])],
        "feGaussianBlur" => &[("stdDeviation", &["0", "0 0", "2", "2 0", "0 2"]), ("in", &["SourceAlpha", "SourceGraphic"])],
        "feColorMatrix" => &[("values", IDENTITY), ("type", &["matrix", "matrix", "saturate", "hueRotate", "luminanceToAlpha"]), ("in", &["SourceAlpha", "SourceGraphic"])],
        "feOffset" => &[("dx", &["0", "3"]), ("dy", &["0", "3"])],
        "feFlood" => &[("flood-opacity", &["0", "1", "0.5"]), ("flood-color", &["black", "red"])],
        "feBlend" => &[("mode", &["normal", "multiply", "screen"]), ("in2", &["SourceAlpha", "SourceGraphic"])],
        "feComposite" => &[("operator", &["over", "in", "arithmetic", "xor"]), ("k1", &["0", "1"]), ("k2", &["0", "0.5"]), ("in2", &["SourceAlpha", "SourceGraphic"])],
        "feMorphology" => &[("radius", &["0", "2", "1 2"]), ("operator", &["erode", "dilate"])],
        "feFuncR" | "feFuncG" | "feFuncB" | "feFuncA" => &[("slope", &["0", "1", "0.5"]), ("intercept", &["0", "0.5"]), ("type", &["linear", "identity", "gamma"]), ("exponent", &["1", "2"])],
        "path" | "polygon" | "polyline" | "g" | "a" => &[("fill-rule", &["nonzero", "evenodd"]), ("stroke-width", &["1", "0", "2%", "3"]), ("stroke-miterlimit", &["4", "1", "10"]), ("stroke-dashoffset", &["0", "3", "5%"]), ("stroke-linecap", &["butt", "round", "square"]),
            ("stroke-linejoin", &["miter", "round", "bevel"]), ("stroke-opacity", &["0", "1", "0.5"]), ("fill-opacity", &["0", "1", "0.5"]), ("stroke-dasharray", &["none", "4 2", "0", "3"]), ("opacity", &["1", "0", "0.5"]), ("visibility", &["visible", "hidden"])],
        _ => &[],
    }
}

/// A valid attribute with a valid value for an element, common or special.
pub fn any_attr(r: &mut crate::rng::Rng, el: &str) -> (&'static str, &'static str) {
    let own = special(el);
    match r.below(6) {
        0 | 1 if !own.is_empty() => { let (a, v) = *r.pick(own); (a, *r.pick(v)) }
        0 => { let e = *r.pick(&["text", "mask", "filter", "pattern", "marker", "clipPath", "svg", "use", "rect", "linearGradient", "radialGradient", "stop", "path"]); let (a, v) = *r.pick(special(e)); (a, *r.pick(v)) }
        1 | 2 => { let (a, v) = *r.pick(INHERITED); (a, *r.pick(v)) }
        3 => { let (a, v) = *r.pick(RESET); (a, *r.pick(v)) }
        4 => { let (a, v) = *r.pick(SIBLING); (a, *r.pick(v)) }
        _ => { let t = *r.pick(CHAIN); *r.pick(t) }
    }
}

const CHAIN: &[&[(&str, &str)]] = &[
    &[("letter-spacing", "0.1em"), ("font-size", "20"), ("font-size", "50%"), ("word-spacing", "1ex"), ("font-size", "larger"), ("letter-spacing", "inherit"), ("font-size", "inherit")],
    &[("stroke-width", "0.2em"), ("stroke", "red"), ("font-size", "20"), ("stroke-dasharray", "1em"), ("font-size", "150%"), ("stroke-dashoffset", "0.3em"), ("stroke-width", "inherit"), ("stroke-dasharray", "inherit")],
    &[("fill", "currentColor"), ("color", "red"), ("color", "green"), ("stroke", "currentColor")],
    &[("font-weight", "bolder"), ("font-weight", "lighter"), ("font-weight", "bold"), ("font-weight", "200"), ("font-weight", "inherit")],
    &[("font-size", "larger"), ("font-size", "smaller"), ("font-size", "10mm"), ("font-size", "2em"), ("font-size", "x-large"), ("font-size", "80%"), ("font-size", "inherit"), ("font-size", "inherit")],
    &[("visibility", "hidden"), ("visibility", "visible"), ("visibility", "inherit"), ("display", "inline")],
    &[("fill", "red"), ("fill", "inherit"), ("fill", "none"), ("fill-opacity", "0.5"), ("fill-opacity", "inherit"), ("fill-opacity", "1")],
    &[("stroke", "red"), ("stroke", "none"), ("stroke-width", "0"), ("stroke-width", "3"), ("stroke-opacity", "0"), ("stroke-linecap", "round"), ("stroke-width", "inherit")],
    &[("opacity", "0.5"), ("opacity", "inherit"), ("opacity", "1")],
    &[("clip-rule", "evenodd"), ("clip-rule", "nonzero"), ("fill-rule", "evenodd"), ("clip-rule", "inherit")],
    &[("text-anchor", "middle"), ("text-anchor", "start"), ("text-anchor", "inherit"), ("baseline-shift", "sub"), ("baseline-shift", "inherit"), ("baseline-shift", "10%")],
    &[("stop-color", "currentColor"), ("color", "blue"), ("stop-color", "inherit"), ("color", "inherit"), ("stop-opacity", "inherit"), ("stop-opacity", "0.5")],
    &[("color-interpolation", "linearRGB"), ("color-interpolation", "sRGB"), ("color-rendering", "optimizeSpeed"), ("shape-rendering", "crispEdges"), ("shape-rendering", "auto")],
];

impl<'a> Gen<'a> {
    pub fn widen(&mut self) {
        let k = self.r.range(1, 5);
        for _ in 0..k { self.widen_once(); }
    }

    fn els(&self) -> Vec<usize> { self.d.walk().into_iter().filter(|&n| self.d.is_el(n)).collect() }

    fn in_def_of(&self, n: usize) -> bool {
        let mut k = Some(n);
        while let Some(i) = k { if DEFS.contains(&self.d.name(i)) || self.d.name(i) == "defs" { return true; } k = self.d.parent(i); }
        false
    }

    fn detach(&mut self, n: usize) {
        if let Some(p) = self.d.parent(n) { self.d.nodes[p].children.retain(|c| *c != n); self.d.nodes[n].parent = None; }
    }

    fn attach(&mut self, n: usize, p: usize) {
        let k = { let m = self.d.children(p).len(); self.r.below(m + 1) };
        self.d.nodes[p].children.insert(k, n);
        self.d.nodes[n].parent = Some(p);
    }

    fn decl(&self, n: usize, p: &str) -> bool { self.d.attr(n, p).is_some() || self.d.attr(n, "style").map(|s| parse_decls(s).iter().any(|q| q.0 == p)).unwrap_or(false) }

    fn widen_once(&mut self) {
        let els = self.els();
        let root = self.d.root;
        let named = |g: &Self, v: &[&str]| -> Vec<usize> { els.iter().cloned().filter(|&n| v.contains(&g.d.name(n))).collect() };
        match self.r.below(30) {
            // inherited properties of containers, definitions included
            0 | 1 => {
                let mut c = named(self, &["defs", "g", "symbol", "mask", "pattern", "marker", "clipPath", "a", "switch", "svg", "use"]);
                if self.r.p(0.9) { c.retain(|&n| n != root); } else { c = vec![root]; }
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                let table = if n == root && self.r.p(0.5) { RESET } else { INHERITED };
                let (a, v) = *self.r.pick(table);
                if self.decl(n, a) { return; }
                let v = *self.r.pick(v);
                self.d.set(n, a, v);
            }
            // a definition inside of the content
            2 | 3 => {
                let c = named(self, DEFS);
                // a text around a definition would process the spaces of the texts inside of it too
                let t: Vec<usize> = named(self, &["g", "a", "svg"]).into_iter().filter(|&n| n != root && !self.in_def_of(n) && !self.d.has_ancestor(n, "text")).collect();
                if c.is_empty() || t.is_empty() { return; }
                let n = *self.r.pick(&c);
                if self.d.parent(n).map(|p| p != root && self.d.name(p) != "defs").unwrap_or(true) { return; }
                let mut p = *self.r.pick(&t);
                self.detach(n);
                if self.r.p(0.4) { p = self.d.new_el(Some(p), "defs"); }
                self.attach(n, p);
            }
            // a definition inside of a group with properties, in defs
            4 => {
                let c = named(self, DEFS);
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                let p = match self.d.parent(n) { Some(p) if self.d.name(p) == "defs" || p == root => p, _ => return };
                self.detach(n);
                let g = self.d.new_el(None, "g");
                self.attach(g, p);
                self.attach(n, g);
                let (a, v) = *self.r.pick(INHERITED);
                let v = *self.r.pick(v);
                self.d.set(g, a, v);
                if self.r.p(0.3) { let t = self.transform(); self.d.set(g, "transform", t); }
            }
            // title, desc and metadata anywhere
            5 => {
                let c: Vec<usize> = els.iter().cloned().filter(|&n| !TEXTS.contains(&self.d.name(n)) && !self.d.name(n).contains(':')).collect();
                let n = *self.r.pick(&c);
                let t = self.d.new_el(None, *self.r.pick(&["title", "desc", "metadata", "title", "desc"]));
                self.d.new_node(Some(t), Kind::Text("about".into()));
                self.d.nodes[n].children.insert(0, t);
                self.d.nodes[t].parent = Some(n);
            }
            // 'inherit' of a property that is not inherited by default
            6 => {
                let c: Vec<usize> = els.iter().cloned().filter(|&n| !TEXTS.contains(&self.d.name(n)) || self.d.name(n) == "tspan").collect();
                let n = *self.r.pick(&c);
                let p = match self.d.parent(n) { Some(p) => p, None => return };
                let (a, v) = *self.r.pick(RESET);
                if !self.decl(p, a) {
                    if p == root { return; }
                    let v = *self.r.pick(v);
                    if (a == "display") && (self.d.name(p) == "text" || self.in_def_of(p)) { return; }
                    self.d.set(p, a, v);
                }
                if self.decl(n, a) { return; }
                self.d.set(n, a, "inherit");
            }
            // effects that are inherited explicitly
            7 => {
                let c: Vec<usize> = els.iter().cloned().filter(|&n| self.d.parent(n).map(|p| ["clip-path", "mask", "filter"].iter().any(|a| self.d.attr(p, a).is_some())).unwrap_or(false)
                    && ["g", "rect", "path", "circle", "text", "use", "image"].contains(&self.d.name(n))).collect();
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                let p = self.d.parent(n).unwrap();
                for a in ["clip-path", "mask", "filter"] { if self.d.attr(p, a).is_some() && !self.decl(n, a) { self.d.set(n, a, "inherit"); } }
            }
            // one more user of any element
            8 | 9 => {
                let c: Vec<usize> = els.iter().cloned().filter(|&n| n != root && !self.in_def_of(n) && ["g", "a", "switch", "svg", "use", "image", "text", "rect", "path", "circle", "line"].contains(&self.d.name(n))).collect();
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                if self.d.attr(n, "id").is_none() { let i = self.id("w"); self.d.set(n, "id", i); }
                let id = self.d.attr(n, "id").unwrap().to_string();
                let u = self.d.new_el(None, "use");
                self.d.nodes[root].children.push(u);
                self.d.nodes[u].parent = Some(root);
                self.d.set(u, "xlink:href", format!("#{}", id));
                if self.r.p(0.5) { let v = self.coord(); self.d.set(u, "x", n2s(v)); }
                if self.r.p(0.3) { let t = self.transform(); self.d.set(u, "transform", t); }
                if self.r.p(0.5) { let mut v = vec![]; self.fill_style(&mut v, true); for q in v { self.d.set(u, &q.0, q.1); } }
            }
            // markers by the shorthand
            10 => {
                if self.markers.is_empty() || !crate::limits::disabled() { return; }
                let c: Vec<usize> = named(self, &["path", "line", "polyline", "polygon", "g", "rect"]).into_iter().filter(|&n| !self.in_def_of(n)).collect();
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                if ["marker-start", "marker-mid", "marker-end"].iter().any(|a| self.decl(n, a)) { return; }
                let m = self.r.pick(&self.markers.clone()).clone();
                let v = if self.r.p(0.85) { format!("marker:url(#{})", m) } else { "marker:none".into() };
                let s = match self.d.attr(n, "style") { Some(s) if !s.trim().is_empty() => if self.r.p(0.5) { format!("{};{}", v, s) } else { format!("{};{}", s.trim().trim_end_matches(';'), v) }, _ => v };
                self.d.set(n, "style", s);
            }
            // hidden things
            11 => {
                let c: Vec<usize> = els.iter().cloned().filter(|&n| n != root && !["tspan", "textPath", "style", "title", "desc", "metadata", "a"].contains(&self.d.name(n)) && !self.d.name(n).contains(':')).collect();
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                if self.d.has_ancestor(n, "text") { return; }
                let (a, v) = *self.r.pick(&[("display", "none"), ("visibility", "hidden"), ("visibility", "visible"), ("visibility", "collapse"), ("display", "block"), ("opacity", "0")]);
                if !self.decl(n, a) { self.d.set(n, a, v); }
            }
            // a copy of a subtree
            12 => {
                let c: Vec<usize> = els.iter().cloned().filter(|&n| ["g", "rect", "path", "circle", "text", "use", "line", "polygon"].contains(&self.d.name(n)) && !self.in_def_of(n)).collect();
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                let mut v = vec![];
                self.d.walk_from(n, &mut v);
                if v.len() > 12 { return; }
                let p = if self.r.p(0.6) { self.d.parent(n).unwrap_or(root) } else { root };
                let k = self.d.dup_into(n, p);
                let mut v = vec![];
                self.d.walk_from(k, &mut v);
                for i in v { if self.d.is_el(i) { self.d.unset(i, "id"); } }
            }
            // a group around an element
            13 => {
                let c: Vec<usize> = els.iter().cloned().filter(|&n| n != root && ["g", "rect", "path", "circle", "text", "use", "line", "image", "svg", "a", "switch"].contains(&self.d.name(n))
                    && !self.d.has_ancestor(n, "clipPath") && !self.d.has_ancestor(n, "text")).collect();
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                let p = self.d.parent(n).unwrap();
                let i = self.d.children(p).iter().position(|c| *c == n).unwrap();
                let g = self.d.new_el(None, *self.r.pick(&["g", "g", "g", "a", "svg"]));
                self.d.nodes[p].children[i] = g;
                self.d.nodes[g].parent = Some(p);
                self.d.nodes[g].children.push(n);
                self.d.nodes[n].parent = Some(g);
                match self.r.below(4) {
                    0 => { let (a, v) = *self.r.pick(INHERITED); let v = *self.r.pick(v); self.d.set(g, a, v); }
                    1 => if self.d.name(g) != "svg" { let t = self.transform(); self.d.set(g, "transform", t); },
                    2 => { let o = self.op(); self.d.set(g, "opacity", o); }
                    _ => {}
                }
            }
            // the same property of siblings
            14 | 15 => {
                let c: Vec<usize> = els.iter().cloned().filter(|&n| ["g", "svg", "a", "symbol", "mask", "pattern", "marker"].contains(&self.d.name(n)) && self.d.el_children(n).len() > 1).collect();
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                let k: Vec<usize> = self.d.el_children(n).into_iter().filter(|&k| ["g", "rect", "path", "circle", "ellipse", "line", "polygon", "polyline", "text", "use", "image", "a", "svg", "switch"].contains(&self.d.name(k))).collect();
                if k.len() < 2 { return; }
                let from = if self.r.p(0.6) { 0 } else { self.r.below(k.len() - 1) };
                let to = if self.r.p(0.6) { k.len() } else { self.r.range(from as i64 + 1, k.len() as i64) as usize };
                let (a, v) = *self.r.pick(SIBLING);
                let v = *self.r.pick(v);
                for &x in &k[from..to] {
                    if a == "transform" && self.d.name(x) == "svg" { continue; }
                    if !self.decl(x, a) { self.d.set(x, a, v); }
                }
                if self.r.p(0.3) && n != root && !self.decl(n, a) && (a != "transform" || self.d.name(n) == "g") {
                    let v = *self.r.pick(SIBLING.iter().find(|q| q.0 == a).unwrap().1);
                    self.d.set(n, a, v);
                }
            }
            // a property of 'use' and of its target
            18 | 19 => {
                let u = named(self, &["use"]);
                if u.is_empty() { return; }
                let u = *self.r.pick(&u);
                let t = match self.d.attr(u, "xlink:href").and_then(|h| h.strip_prefix('#')).and_then(|h| self.d.ids().get(h).cloned()) { Some(t) => t, None => return };
                let (a, v) = *self.r.pick(SIBLING);
                let k = self.r.below(3);
                if a == "transform" && self.d.name(t) == "svg" { return; }
                if k != 0 && !self.decl(u, a) { let v = *self.r.pick(v); self.d.set(u, a, v); }
                if k != 1 && !self.decl(t, a) && self.d.name(t) != "symbol" { let v = *self.r.pick(v); self.d.set(t, a, v); }
                if self.r.p(0.3) { if let Some(p) = self.d.parent(u) { if p != root && !self.decl(p, a) && a != "transform" { let v = *self.r.pick(v); self.d.set(p, a, v); } } }
            }
            // a near duplicate of a definition
            16 | 17 => {
                let mut c = named(self, DEFS);
                c.retain(|&n| self.d.attr(n, "id").is_some());
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                self.near_duplicate(n);
            }
            // special values of attributes
            22 | 23 | 24 | 25 => {
                // rare elements first, when they are there
                let mut names: Vec<String> = els.iter().filter(|&&n| n != root && !special(self.d.name(n)).is_empty()).map(|&n| self.d.name(n).to_string()).collect();
                names.sort();
                names.dedup();
                if names.is_empty() { return; }
                let nm = self.r.pick(&names).clone();
                let c: Vec<usize> = els.iter().cloned().filter(|&n| n != root && self.d.name(n) == nm).collect();
                let n = *self.r.pick(&c);
                for _ in 0..self.r.range(1, 2) {
                    let (a, v) = *self.r.pick(special(&nm));
                    let v = *self.r.pick(v);
                    if pidx(a).is_some() && self.decl_style(n, a) { return; }
                    self.d.set(n, a, v);
                }
            }
            // properties that depend on each other on a chain of parents
            27 | 28 => {
                let mut c = named(self, &["rect", "path", "circle", "line", "text", "tspan", "textPath", "polygon", "use", "stop"]);
                if self.r.p(0.6) { let k: Vec<usize> = c.iter().cloned().filter(|&n| self.in_def_of(n)).collect(); if !k.is_empty() { c = k; } }
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                let mut chain = vec![];
                let mut k = Some(n);
                while let Some(i) = k { if i != root { chain.push(i); } k = self.d.parent(i); }
                let group = *self.r.pick(CHAIN);
                for _ in 0..self.r.range(2, 3) {
                    let m = *self.r.pick(&chain);
                    let (a, v) = *self.r.pick(group);
                    if !self.decl(m, a) { self.d.set(m, a, v); }
                }
            }
            // a property becomes a style declaration or back
            _ => {
                let c: Vec<usize> = els.iter().cloned().filter(|&n| self.d.attrs(n).iter().any(|(a, _)| pidx(a).is_some())).collect();
                if c.is_empty() { return; }
                let n = *self.r.pick(&c);
                let a: Vec<(String, String)> = self.d.attrs(n).iter().filter(|(a, _)| pidx(a).is_some()).cloned().collect();
                let (a, v) = self.r.pick(&a).clone();
                if self.decl_style(n, &a) { return; }
                self.d.unset(n, &a);
                let s = match self.d.attr(n, "style") { Some(s) if !s.trim().is_empty() => format!("{}:{};{}", a, v, s), _ => format!("{}:{}", a, v) };
                self.d.set(n, "style", s);
            }
        }
        let _ = PROPS;
    }

    fn near_duplicate(&mut self, n: usize) {
        let mut v = vec![];
        self.d.walk_from(n, &mut v);
        if v.len() > 16 { return; }
        let old = self.d.attr(n, "id").unwrap().to_string();
        let p = match self.d.parent(n) { Some(p) => p, None => return };
        let k = self.d.dup_into(n, p);
        let mut v = vec![];
        self.d.walk_from(k, &mut v);
        v.retain(|&i| self.d.is_el(i));
        for &i in &v { self.d.unset(i, "id"); }
        let id = self.id("nd");
        self.d.set(k, "id", id.clone());
        // at most one difference
        let e = if self.r.p(0.6) { k } else { *self.r.pick(&v) };
        match self.r.below(4) {
            0 => {}
            1 | 2 => {
                let nm = self.d.name(e).to_string();
                let l: &[(&str, &[&str])] = match nm.as_str() {
                    "linearGradient" => &[("x1", &["0.2"]), ("y1", &["0.3"]), ("x2", &["0.7"]), ("y2", &["0.6"]), ("gradientUnits", &["userSpaceOnUse", "objectBoundingBox"]),
                        ("spreadMethod", &["reflect", "repeat", "pad"]), ("gradientTransform", &["rotate(30)", "scale(2)"]), ("color-interpolation", &["linearRGB"])],
                    "radialGradient" => &[("cx", &["0.2"]), ("cy", &["0.3"]), ("r", &["0.7"]), ("fx", &["0.6"]), ("fy", &["0.4"]), ("gradientUnits", &["userSpaceOnUse", "objectBoundingBox"]),
                        ("spreadMethod", &["reflect", "repeat", "pad"]), ("gradientTransform", &["rotate(30)", "scale(2)"]), ("color-interpolation", &["linearRGB"])],
                    "stop" => &[("offset", &["0.35"]), ("stop-color", &["#123456", "blue"]), ("stop-opacity", &["0.3", "1"])],
                    "filter" => &[("x", &["-0.2", "-10%"]), ("y", &["-0.3"]), ("width", &["1.7"]), ("height", &["1.6"]), ("filterUnits", &["userSpaceOnUse", "objectBoundingBox"]),
                        ("primitiveUnits", &["userSpaceOnUse", "objectBoundingBox"]), ("color-interpolation-filters", &["sRGB", "linearRGB"])],
                    "clipPath" => &[("clipPathUnits", &["objectBoundingBox", "userSpaceOnUse"]), ("transform", &["scale(0.5)"])],
                    "mask" => &[("maskUnits", &["userSpaceOnUse"]), ("maskContentUnits", &["objectBoundingBox"]), ("x", &["0.1"]), ("width", &["0.5"])],
                    n if n.starts_with("fe") => &[("in", &["SourceAlpha", "SourceGraphic"]), ("result", &["r1"]), ("x", &["5"]), ("y", &["6"]), ("width", &["50"]), ("height", &["40"]),
                        ("stdDeviation", &["1.5", "2 3"]), ("color-interpolation-filters", &["sRGB", "linearRGB"])],
                    _ => &[("fill", &["#123456"]), ("stroke", &["red"])],
                };
                let (a, v) = *self.r.pick(l);
                let v = *self.r.pick(v);
                if a == "stdDeviation" && nm != "feGaussianBlur" && nm != "feDropShadow" { return; }
                if pidx(a).is_some() && self.decl_style(e, a) { return; }
                self.d.set(e, a, v);
            }
            _ => {
                let a: Vec<String> = self.d.attrs(e).iter().map(|q| q.0.clone()).filter(|q| q != "id" && q != "offset" && q != "d" && q != "class").collect();
                if !a.is_empty() { let a = self.r.pick(&a).clone(); self.d.unset(e, &a); }
            }
        }
        // some users move to the duplicate
        let (h, u) = (format!("#{}", old), format!("url(#{})", old));
        for i in self.els() {
            let l: Vec<(String, String)> = self.d.attrs(i).iter().filter(|(_, v)| *v == h || v.contains(&u)).cloned().collect();
            for (a, v) in l {
                if i == k || self.r.p(0.5) { continue; }
                if a == "xlink:href" && self.in_def_of(k) && self.d.has_ancestor(i, self.d.name(k).to_string().as_str()) { continue; }
                let nv = if v == h { format!("#{}", id) } else { v.replace(&u, &format!("url(#{})", id)) };
                self.d.set(i, &a, nv);
            }
        }
        if self.r.p(0.4) {
            // one more user
            let c: Vec<usize> = self.els().into_iter().filter(|&i| ["g", "rect", "path", "circle", "text", "use", "polygon"].contains(&self.d.name(i)) && !self.in_def_of(i)).collect();
            if c.is_empty() { return; }
            let i = *self.r.pick(&c);
            let a = match self.d.name(k) { "linearGradient" | "radialGradient" | "pattern" => *self.r.pick(&["fill", "stroke"]), "clipPath" => "clip-path", "mask" => "mask", "filter" => "filter", "marker" => "marker-end", _ => return };
            if !self.decl(i, a) { self.d.set(i, a, format!("url(#{})", id)); }
        }
    }

    fn decl_style(&self, n: usize, p: &str) -> bool { self.d.attr(n, "style").map(|s| parse_decls(s).iter().any(|q| q.0 == p || (q.0 == "marker" && p.starts_with("marker-")))).unwrap_or(false) }
}

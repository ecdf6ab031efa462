//! Structured SVG generator.

use crate::rng::Rng;
use crate::xml::*;

#[derive(Clone)]
pub struct Cfg {
    pub max_depth: usize,
    pub kids: (i64, i64),
    pub budget: usize,
    /// relative weights of element kinds in content
    pub w_rect: u32, pub w_circle: u32, pub w_ellipse: u32, pub w_line: u32, pub w_polyline: u32, pub w_polygon: u32,
    pub w_path: u32, pub w_group: u32, pub w_use: u32, pub w_text: u32, pub w_image: u32, pub w_svg: u32, pub w_a: u32, pub w_switch: u32,
    pub n_grad: (i64, i64), pub n_pattern: (i64, i64), pub n_clip: (i64, i64), pub n_mask: (i64, i64), pub n_filter: (i64, i64),
    pub n_marker: (i64, i64), pub n_symbol: (i64, i64), pub n_defshape: (i64, i64),
    pub p_transform: f64, pub p_style: f64, pub p_group_style: f64, pub p_group_fx: f64, pub p_shape_fx: f64,
    pub p_dup: f64, pub p_id: f64, pub p_css: f64, pub p_style_attr: f64, pub p_inherit: f64, pub p_current: f64,
    pub p_units: f64, pub p_invisible: f64, pub p_misc_nodes: f64, pub p_nonsvg: f64, pub p_grad_paint: f64,
    pub p_skew: f64, pub p_default_attr: f64, pub p_needless: f64, pub p_dash: f64, pub p_marker_use: f64, pub p_defs_inline: f64,
    pub p_degenerate: f64,
    pub path_len: (i64, i64),
    pub path_arcs: bool,
    pub text_rich: bool,
    pub p_compact: f64,
    /// less common constructs and forms
    pub p_rich: f64,
    /// values in error that have a specified or a documented handling
    pub p_bad: f64,
    /// constructs in unusual places
    pub p_wide: f64,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            max_depth: 3, kids: (1, 4), budget: 26,
            w_rect: 6, w_circle: 3, w_ellipse: 2, w_line: 2, w_polyline: 2, w_polygon: 2, w_path: 8, w_group: 8, w_use: 4, w_text: 2,
            w_image: 1, w_svg: 1, w_a: 1, w_switch: 0,
            n_grad: (0, 4), n_pattern: (0, 1), n_clip: (0, 2), n_mask: (0, 1), n_filter: (0, 1), n_marker: (0, 1), n_symbol: (0, 1), n_defshape: (0, 2),
            p_transform: 0.25, p_style: 0.7, p_group_style: 0.5, p_group_fx: 0.2, p_shape_fx: 0.08,
            p_dup: 0.25, p_id: 0.2, p_css: 0.15, p_style_attr: 0.35, p_inherit: 0.02, p_current: 0.02,
            p_units: 0.05, p_invisible: 0.08, p_misc_nodes: 0.1, p_nonsvg: 0.1, p_grad_paint: 0.3,
            p_skew: 0.15, p_default_attr: 0.15, p_needless: 0.15, p_dash: 0.15, p_marker_use: 0.2, p_defs_inline: 0.15,
            p_degenerate: 0.03,
            path_len: (2, 7), path_arcs: true, text_rich: true, p_compact: 0.3, p_rich: 0.2, p_bad: 0.02, p_wide: 0.4,
        }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub c: Cfg,
    pub d: Dom,
    pub mode: usize,
    pub grads: Vec<String>,
    pub patterns: Vec<String>,
    pub clips: Vec<String>,
    pub masks: Vec<String>,
    pub filters: Vec<String>,
    pub markers: Vec<String>,
    pub usable: Vec<String>,
    pub symbols: Vec<String>,
    pub budget: usize,
    pub next: usize,
    pub classes: Vec<String>,
    pub path_ids: Vec<String>,
    pub in_def: bool,
    pub space_mode: usize,
}

const COLORS: &[&str] = &["#ff0000", "#00ff00", "#0000ff", "red", "blue", "black", "#fff", "#123456", "#aabbcc", "rgb(10,20,30)", "lime", "#000", "white", "gray", "rgb(10%,20%,30%)", "purple", "#ABCDEF"];

pub fn n2s(v: f64) -> String {
    let v = if v == 0.0 { 0.0 } else { v };
    format!("{}", v)
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, c: Cfg) -> Gen<'a> {
        let mode = r.weighted(&[5, 3, 2, 1]);
        let budget = c.budget;
        let space_mode = r.weighted(&[6, 2, 1]);
        Gen { r, c, d: Dom::default(), mode, grads: vec![], patterns: vec![], clips: vec![], masks: vec![], filters: vec![], markers: vec![],
            usable: vec![], symbols: vec![], budget, next: 0, classes: vec![], path_ids: vec![], in_def: false, space_mode }
    }

    // ---- numbers ------------------------------------------------------------
    pub fn coord(&mut self) -> f64 {
        match self.mode {
            0 => self.r.range(0, 20) as f64 * 10.0,
            1 => self.r.range(-20, 200) as f64,
            2 => self.r.range(-100, 2000) as f64 / 10.0,
            _ => self.r.range(-20000, 200000) as f64 / 1000.0,
        }
    }
    pub fn size(&mut self) -> f64 {
        match self.mode {
            0 => self.r.range(1, 10) as f64 * 10.0,
            1 => self.r.range(1, 100) as f64,
            2 => self.r.range(5, 1000) as f64 / 10.0,
            _ => self.r.range(1000, 100000) as f64 / 1000.0,
        }
    }
    fn unitval(&mut self, v: f64) -> String {
        if self.r.p(self.c.p_units) {
            let u = *self.r.pick(&["px", "mm", "pt", "%", "em", "cm", "in", "pc"]);
            let v = match u { "%" => v / 2.0, "em" => v / 20.0, "mm" => v / 4.0, "cm" => v / 40.0, "in" => v / 100.0, "pc" => v / 16.0, _ => v };
            return format!("{}{}", n2s((v * 100.0).round() / 100.0), u);
        }
        n2s(v)
    }
    pub fn op(&mut self) -> String {
        let k = self.r.below(8);
        ["0.5", ".25", "0.9", "0.75", "0.1", "1", "0.333", "0.8"][k].to_string()
    }
    pub fn color(&mut self) -> String {
        // few distinct colours make equal styles frequent
        let k = if self.r.p(0.6) { self.r.below(4) } else { self.r.below(COLORS.len()) };
        COLORS[k].to_string()
    }
    pub fn id(&mut self, p: &str) -> String {
        self.next += 1;
        if self.r.p(0.1) { format!("{}{}", *self.r.pick(&["My_", "long-name.", "x", "z0", "Q"]), self.next) } else { format!("{}{}", p, self.next) }
    }

    pub fn transform(&mut self) -> String {
        let mut v = vec![];
        let n = if self.r.p(0.75) { 1 } else { 2 };
        for _ in 0..n {
            let k = if self.r.p(self.c.p_skew) { 5 + self.r.below(3) } else { self.r.below(5) };
            let a = n2s(self.r.range(-30, 60) as f64);
            let b = n2s(self.r.range(-30, 60) as f64);
            v.push(match k {
                0 => format!("translate({} {})", a, b),
                1 => format!("translate({})", a),
                2 => format!("scale({})", *self.r.pick(&["2", "0.5", "1.5", "3"])),
                3 => format!("matrix({} 0 0 {0} {} {})", *self.r.pick(&["2", "0.5", "1", "1.25"]), a, b),
                4 => format!("translate({},{}) scale({})", a, b, *self.r.pick(&["2", "0.5"])),
                5 => match self.r.below(3) {
                    0 => format!("rotate({})", *self.r.pick(&["30", "45", "90", "-15", "180"])),
                    1 => format!("rotate({} {} {})", *self.r.pick(&["30", "45", "90", "-15"]), a, b),
                    _ => format!("matrix(0 1 -1 0 {} {})", a, b),
                },
                6 => match self.r.below(4) {
                    0 => format!("scale({} {})", *self.r.pick(&["2", "0.5", "-1"]), *self.r.pick(&["1", "3", "-2"])),
                    1 => "scale(-1)".to_string(),
                    2 => "scale(1 -1)".to_string(),
                    _ => format!("matrix(-1 0 0 1 {} {})", a, b),
                },
                _ => match self.r.below(3) {
                    0 => format!("skewX({})", *self.r.pick(&["10", "-20", "30"])),
                    1 => format!("skewY({})", *self.r.pick(&["10", "-20", "30"])),
                    _ => format!("matrix(1 0.2 0.3 1.5 {} {})", a, b),
                },
            });
        }
        v.join(" ")
    }

    // ---- style ------------------------------------------------------------------

    /// paint value
    pub fn paint_val(&mut self) -> String {
        if self.r.p(self.c.p_grad_paint) && !self.grads.is_empty() {
            let g = self.r.pick(&self.grads.clone()).clone();
            return format!("url(#{})", g);
        }
        if self.r.p(0.08) && !self.patterns.is_empty() {
            let g = self.r.pick(&self.patterns.clone()).clone();
            return format!("url(#{})", g);
        }
        if self.r.p(self.c.p_current) { return "currentColor".into(); }
        if self.r.p(0.1) { return "none".into(); }
        self.color()
    }

    pub fn fill_style(&mut self, v: &mut Vec<(String, String)>, heavy: bool) {
        let add = |v: &mut Vec<(String, String)>, n: &str, x: String| { if !v.iter().any(|q: &(String, String)| q.0 == n) { v.push((n.into(), x)); } };
        if self.r.p(0.6) { let p = self.paint_val(); add(v, "fill", p); }
        if self.r.p(0.45) {
            let p = self.paint_val();
            add(v, "stroke", p);
            if self.r.p(0.7) { let w = n2s(*self.r.pick(&[1.0, 2.0, 3.0, 0.5, 5.0, 10.0])); add(v, "stroke-width", w); }
            if self.r.p(self.c.p_dash) {
                let x = self.r.pick(&["5 3", "5,3,2", "none", "10", "2 4 6 8"]).to_string();
                add(v, "stroke-dasharray", x);
                if self.r.p(0.5) { let o = self.r.pick(&["2", "0", "5", "-3"]).to_string(); add(v, "stroke-dashoffset", o); }
            }
            if self.r.p(0.2) { let x = self.r.pick(&["butt", "round", "square"]).to_string(); add(v, "stroke-linecap", x); }
            if self.r.p(0.2) { let x = self.r.pick(&["miter", "round", "bevel"]).to_string(); add(v, "stroke-linejoin", x); }
            if self.r.p(0.1) { let x = self.r.pick(&["4", "2", "10"]).to_string(); add(v, "stroke-miterlimit", x); }
            if self.r.p(0.15) { let x = self.op(); add(v, "stroke-opacity", x); }
        }
        if self.r.p(0.12) { let x = self.r.pick(&["nonzero", "evenodd"]).to_string(); add(v, "fill-rule", x); }
        if self.r.p(0.15) { let x = self.op(); add(v, "fill-opacity", x); }
        if heavy && self.r.p(0.1) { let x = self.op(); add(v, "opacity", x); }
        if self.r.p(self.c.p_needless) {
            // attributes without effect here
            let (n, x) = self.r.pick(&[("stroke-linecap", "round"), ("stroke-width", "3"), ("stroke-linejoin", "bevel"), ("fill-rule", "evenodd"),
                ("stroke-dashoffset", "4"), ("stroke-miterlimit", "7"), ("font-size", "12"), ("text-anchor", "middle"), ("font-family", "Arial"),
                ("clip-rule", "evenodd"), ("stop-color", "red"), ("flood-color", "red"), ("letter-spacing", "2"), ("font-weight", "bold"),
                ("fill-opacity", "0.3"), ("stroke-opacity", "0.4"), ("writing-mode", "tb"), ("color", "green"), ("lighting-color", "red")]).clone();
            add(v, n, x.into());
        }
        if self.r.p(self.c.p_default_attr) {
            let (n, x) = self.r.pick(&[("fill", "#000000"), ("stroke", "none"), ("stroke-width", "1"), ("fill-opacity", "1"), ("stroke-opacity", "1"),
                ("stroke-linecap", "butt"), ("stroke-linejoin", "miter"), ("stroke-miterlimit", "4"), ("fill-rule", "nonzero"), ("opacity", "1"),
                ("stroke-dasharray", "none"), ("stroke-dashoffset", "0"), ("visibility", "visible"), ("display", "inline"), ("color", "#000"),
                ("shape-rendering", "auto"), ("overflow", "visible"), ("enable-background", "accumulate"), ("clip-rule", "nonzero")]).clone();
            add(v, n, x.into());
        }
        if self.r.p(self.c.p_inherit) {
            let n = self.r.pick(&["fill", "stroke", "stroke-width", "fill-opacity", "stroke-linecap", "fill-rule", "stroke-opacity", "color"]).to_string();
            add(v, &n, "inherit".into());
            if n == "color" && self.r.p(0.6) {
                let n = self.r.pick(&["fill", "stroke"]).to_string();
                v.retain(|q| q.0 != n);
                v.push((n, "currentColor".into()));
            }
        }
        if self.r.p(self.c.p_invisible) {
            let (n, x) = self.r.pick(&[("display", "none"), ("visibility", "hidden"), ("opacity", "0"), ("fill", "none"), ("stroke-opacity", "0"),
                ("fill-opacity", "0"), ("stroke-width", "0"), ("visibility", "collapse"), ("visibility", "visible")]).clone();
            v.retain(|q| q.0 != n);
            v.push((n.into(), x.into()));
        }
        if self.r.p(0.03) { let x = self.r.pick(&["crispEdges", "geometricPrecision", "auto"]).to_string(); add(v, "shape-rendering", x); }
    }

    pub fn text_style(&mut self, v: &mut Vec<(String, String)>) {
        for (n, vals, p) in [
            ("font-size", &["12", "20", "10px", "1.5em", "200%", "medium", "larger", "smaller"][..], 0.5), ("font-family", &["Arial", "'Times New Roman'", "sans-serif"][..], 0.4),
            ("font-weight", &["bold", "normal", "400", "bolder", "lighter"][..], 0.2), ("font-style", &["italic", "normal"][..], 0.15), ("text-anchor", &["start", "middle", "end"][..], 0.2),
            ("letter-spacing", &["2", "normal", "0", "1em"][..], 0.08), ("word-spacing", &["3", "normal"][..], 0.08), ("text-decoration", &["underline", "none"][..], 0.08),
            ("font-variant", &["small-caps", "normal"][..], 0.05), ("font-stretch", &["condensed", "normal"][..], 0.04), ("writing-mode", &["tb", "lr-tb"][..], 0.03),
            ("baseline-shift", &["super", "baseline"][..], 0.03), ("direction", &["rtl", "ltr"][..], 0.02), ("kerning", &["auto", "1"][..], 0.03),
        ] {
            if self.r.p(p) && !v.iter().any(|q| q.0 == n) { let x = self.r.pick(vals).to_string(); v.push((n.to_string(), x)); }
        }
    }

    fn put_style(&mut self, n: usize, v: Vec<(String, String)>) {
        if v.is_empty() { return; }
        if self.r.p(self.c.p_style_attr) {
            let k = self.r.below(v.len() + 1);
            let s: Vec<String> = v[k..].iter().map(|q| format!("{}:{}", q.0, q.1)).collect();
            for q in &v[..k] { self.d.set(n, &q.0, q.1.clone()); }
            if !s.is_empty() { self.d.set(n, "style", s.join(*self.r.pick(&[";", "; "]))); }
        } else {
            for q in v { self.d.set(n, &q.0, q.1); }
        }
    }

    fn style_for(&mut self, n: usize, group: bool, text: bool) {
        let mut v = vec![];
        let p = if group { self.c.p_group_style } else { self.c.p_style };
        if self.r.p(p) { self.fill_style(&mut v, true); }
        if text { self.text_style(&mut v); }
        else if group && self.c.w_text > 0 && self.r.p(0.15) { self.text_style(&mut v); }
        let fx = if group { self.c.p_group_fx } else { self.c.p_shape_fx };
        if self.r.p(fx) {
            match self.r.below(4) {
                0 if !self.clips.is_empty() => { let x = self.r.pick(&self.clips.clone()).clone(); v.push(("clip-path".into(), format!("url(#{})", x))); }
                1 if !self.masks.is_empty() => { let x = self.r.pick(&self.masks.clone()).clone(); v.push(("mask".into(), format!("url(#{})", x))); }
                2 if !self.filters.is_empty() => { let x = self.r.pick(&self.filters.clone()).clone(); v.push(("filter".into(), format!("url(#{})", x))); }
                _ => { if !v.iter().any(|q| q.0 == "opacity") { let o = self.op(); v.push(("opacity".into(), o)); } }
            }
        }
        if !self.markers.is_empty() && self.r.p(self.c.p_marker_use) && !self.in_def {
            for k in ["marker-start", "marker-mid", "marker-end"] {
                if self.r.p(0.5) { let x = self.r.pick(&self.markers.clone()).clone(); v.push((k.into(), format!("url(#{})", x))); }
            }
        }
        if !self.classes.is_empty() && self.r.p(0.4) {
            let c = self.r.pick(&self.classes.clone()).clone();
            self.d.set(n, "class", c);
        }
        self.put_style(n, v);
        if self.r.p(self.c.p_transform) {
            let t = self.transform();
            self.d.set(n, "transform", t);
        }
        if self.d.attr(n, "id").is_none() && self.r.p(self.c.p_id) {
            let id = self.id("e");
            self.d.set(n, "id", id);
        }
        if self.r.p(self.c.p_nonsvg * 0.3) {
            let (a, b) = self.r.pick(&[("sodipodi:nodetypes", "ccc"), ("inkscape:label", "L & \"x\""), ("data-x", "1"), ("inkscape:groupmode", "layer")]).clone();
            self.d.set(n, a, b);
        }
    }

    // ---- shapes -------------------------------------------------------------------

    pub fn shape(&mut self, parent: usize) -> usize {
        let c = self.c.clone();
        let k = self.r.weighted(&[c.w_rect, c.w_circle, c.w_ellipse, c.w_line, c.w_polyline, c.w_polygon, c.w_path]);
        self.shape_kind(parent, k)
    }

    pub fn shape_kind(&mut self, parent: usize, k: usize) -> usize {
        let name = ["rect", "circle", "ellipse", "line", "polyline", "polygon", "path"][k];
        let n = self.d.new_el(Some(parent), name);
        let degen = self.r.p(self.c.p_degenerate);
        match k {
            0 => {
                let (x, y, w, h) = (self.coord(), self.coord(), self.size(), self.size());
                let v = [("x", x), ("y", y), ("width", w), ("height", h)];
                for (a, b) in v { let s = self.unitval(b); if !(b == 0.0 && self.r.p(0.5)) { self.d.set(n, a, s); } }
                if self.r.p(0.25) { let z = self.size() / 5.0; let s = n2s(z); self.d.set(n, "rx", s.clone()); if self.r.p(0.5) { let s2 = if self.r.p(0.5) { s } else { n2s(z / 2.0) }; self.d.set(n, "ry", s2); } }
                if degen { self.d.set(n, if self.r.p(0.5) { "width" } else { "height" }, "0"); }
            }
            1 => {
                for a in ["cx", "cy"] { let b = self.coord(); let s = self.unitval(b); if !(b == 0.0 && self.r.p(0.5)) { self.d.set(n, a, s); } }
                let r = if degen { 0.0 } else { self.size() };
                let s = self.unitval(r);
                self.d.set(n, "r", s);
            }
            2 => {
                for a in ["cx", "cy"] { let b = self.coord(); let s = self.unitval(b); self.d.set(n, a, s); }
                let rx = self.size();
                let ry = if self.r.p(0.2) { rx } else { self.size() };
                let s = n2s(rx); self.d.set(n, "rx", s);
                let s = n2s(if degen { 0.0 } else { ry }); self.d.set(n, "ry", s);
            }
            3 => {
                for a in ["x1", "y1", "x2", "y2"] { let b = self.coord(); let s = self.unitval(b); if !(b == 0.0 && self.r.p(0.5)) { self.d.set(n, a, s); } }
            }
            4 | 5 => {
                let m = self.r.range(if degen { 1 } else { 3 }, 6);
                let mut s = vec![];
                for _ in 0..m { let (x, y) = (self.coord(), self.coord()); let sep = *self.r.pick(&[",", " "]); s.push(format!("{}{}{}", n2s(x), sep, n2s(y))); }
                self.d.set(n, "points", s.join(" "));
            }
            _ => { let p = self.path_data(); self.d.set(n, "d", p); }
        }
        if self.r.p(self.c.p_bad) {
            match k {
                0 => { let (a, v) = *self.r.pick(&[("width", "-5"), ("height", "-10"), ("rx", "-3"), ("ry", "-2"), ("rx", "500"), ("ry", "0")]); self.d.set(n, a, v); if self.r.p(0.3) { self.d.unset(n, "width"); } }
                1 => { if self.r.p(0.5) { self.d.unset(n, "r"); } else { self.d.set(n, "r", "0"); } }
                2 => { let a = *self.r.pick(&["rx", "ry"]); if self.r.p(0.5) { self.d.unset(n, a); } else { self.d.set(n, a, "0"); } }
                3 => { let a = *self.r.pick(&["x1", "x2"]); self.d.unset(n, a); }
                4 | 5 => { if let Some(v) = self.d.attr(n, "points").map(|s| s.to_string()) { match self.r.below(3) { 0 => self.d.set(n, "points", format!("{} 17", v)), 1 => self.d.set(n, "points", ""), _ => self.d.unset(n, "points") } } }
                _ => { match self.r.below(3) { 0 => self.d.unset(n, "d"), 1 => self.d.set(n, "d", ""), _ => { let v = self.d.attr(n, "d").unwrap_or("").to_string(); let j = *self.r.pick(&[" L 10", " Q", " X 5", " C 1 2 3"]); self.d.set(n, "d", format!("{}{}", v, j)); } } }
            }
        }
        n
    }

    pub fn path_data(&mut self) -> String {
        let mut s = String::new();
        let nsub = 1 + self.r.weighted(&[6, 2, 1]);
        let compact = self.r.p(self.c.p_compact);
        for k in 0..nsub {
            let rel = self.r.p(0.3);
            let (x, y) = (self.coord(), self.coord());
            push_cmd(&mut s, if rel { 'm' } else { 'M' }, &[x, y], compact, self.r);
            let m = self.r.range(self.c.path_len.0, self.c.path_len.1);
            self.segs(&mut s, m, x, y, compact);
            if self.r.p(0.45) { s.push(if self.r.p(0.5) { 'z' } else { 'Z' }); if !compact { s.push(' '); } }
            let _ = k;
        }
        s.trim().to_string()
    }

    fn segs(&mut self, s: &mut String, m: i64, x0: f64, y0: f64, compact: bool) {
        let (mut x, mut y) = (x0, y0);
        for _ in 0..m {
            let rel = self.r.p(0.5);
            let o = |v: f64, b: f64| if rel { ((v - b) * 1e6).round() / 1e6 } else { v };
            let k = self.r.weighted(&[8, 3, 3, 5, 2, 3, 2, if self.c.path_arcs { 2 } else { 0 }]);
            let (nx, ny) = (self.coord(), self.coord());
            let ch = |c: char| if rel { c.to_ascii_lowercase() } else { c };
            match k {
                0 => {
                    // sometimes onto the same horizontal / vertical, sometimes back to start
                    let (nx, ny) = match self.r.below(12) { 0 => (nx, y), 1 => (x, ny), 2 => (x0, y0), _ => (nx, ny) };
                    push_cmd(s, ch('L'), &[o(nx, x), o(ny, y)], compact, self.r);
                    x = nx; y = ny;
                }
                1 => { push_cmd(s, ch('H'), &[o(nx, x)], compact, self.r); x = nx; }
                2 => { push_cmd(s, ch('V'), &[o(ny, y)], compact, self.r); y = ny; }
                3 => {
                    let (a, b, c, d) = (self.coord(), self.coord(), self.coord(), self.coord());
                    push_cmd(s, ch('C'), &[o(a, x), o(b, y), o(c, x), o(d, y), o(nx, x), o(ny, y)], compact, self.r);
                    x = nx; y = ny;
                    if self.r.p(0.25) {
                        // smooth continuation written in full
                        let (e, f) = (self.coord(), self.coord());
                        let (qx, qy) = (self.coord(), self.coord());
                        push_cmd(s, ch('C'), &[o(2.0 * x - c, x), o(2.0 * y - d, y), o(e, x), o(f, y), o(qx, x), o(qy, y)], compact, self.r);
                        x = qx; y = qy;
                    }
                }
                4 => {
                    let (c, d) = (self.coord(), self.coord());
                    push_cmd(s, ch('S'), &[o(c, x), o(d, y), o(nx, x), o(ny, y)], compact, self.r);
                    x = nx; y = ny;
                }
                5 => {
                    let (c, d) = (self.coord(), self.coord());
                    push_cmd(s, ch('Q'), &[o(c, x), o(d, y), o(nx, x), o(ny, y)], compact, self.r);
                    x = nx; y = ny;
                    if self.r.p(0.25) {
                        let (qx, qy) = (self.coord(), self.coord());
                        push_cmd(s, ch('Q'), &[o(2.0 * x - c, x), o(2.0 * y - d, y), o(qx, x), o(qy, y)], compact, self.r);
                        x = qx; y = qy;
                    }
                }
                6 => { push_cmd(s, ch('T'), &[o(nx, x), o(ny, y)], compact, self.r); x = nx; y = ny; }
                _ => {
                    let (rx, ry) = (self.size(), self.size());
                    let rot = *self.r.pick(&[0.0, 30.0, -45.0, 90.0]);
                    let (l, w) = (self.r.below(2) as f64, self.r.below(2) as f64);
                    push_cmd(s, ch('A'), &[rx, ry, rot, l, w, o(nx, x), o(ny, y)], compact, self.r);
                    x = nx; y = ny;
                }
            }
        }
    }

    // ---- definitions ----------------------------------------------------------------

    pub fn stops(&mut self, g: usize) {
        let n = self.r.weighted(&[1, 1, 6, 4, 2]);
        let mut off: i64 = 0;
        for i in 0..n {
            let s = self.d.new_el(Some(g), "stop");
            if i == n - 1 && self.r.p(0.6) { off = 100; }
            let o = if self.r.p(0.4) { format!("{}%", off) } else { n2s(off as f64 / 100.0) };
            self.d.set(s, "offset", o);
            let mut v = vec![];
            if self.r.p(0.9) { let c = self.color(); v.push(("stop-color".to_string(), c)); }
            if self.r.p(0.3) { let o = self.op(); v.push(("stop-opacity".to_string(), o)); }
            self.put_style(s, v);
            if self.r.p(self.c.p_bad) { let o = self.r.pick(&["1.5", "-0.3", "150%", "0.1", "-10%"]).to_string(); self.d.set(s, "offset", o); }
            if self.r.p(self.c.p_rich * 0.1) { let d = self.d.new_el(Some(g), "desc"); self.d.new_node(Some(d), Kind::Text("a stop".into())); }
            off = (off + *self.r.pick(&[0, 25, 50, 30, 100])).min(100);
        }
    }

    pub fn gradient(&mut self, parent: usize) {
        let lin = self.r.p(0.6);
        let name = if lin { "linearGradient" } else { "radialGradient" };
        // a duplicate of an existing gradient, possibly slightly changed
        if self.r.p(self.c.p_dup) && !self.grads.is_empty() {
            let src = self.r.pick(&self.grads.clone()).clone();
            if let Some(&s) = self.d.ids().get(&src) {
                let k = self.d.dup_into(s, parent);
                let id = self.id("g");
                self.d.set(k, "id", id.clone());
                if self.r.p(0.3) {
                    match self.r.below(4) {
                        0 => { let t = self.transform(); self.d.set(k, "gradientTransform", t); }
                        1 => { self.d.set(k, "spreadMethod", "repeat"); }
                        2 => { let v = n2s(self.r.range(0, 10) as f64 / 10.0); let a = if self.d.name(k) == "linearGradient" { "x1" } else { "cx" }; self.d.set(k, a, v); }
                        _ => { let c = self.d.el_children(k); if let Some(&st) = c.first() { let col = self.color(); self.d.set(st, "stop-color", col); } }
                    }
                }
                self.grads.push(id);
                return;
            }
        }
        let g = self.d.new_el(Some(parent), name);
        let id = self.id("g");
        self.d.set(g, "id", id.clone());
        let usr = self.r.p(0.5);
        if usr { self.d.set(g, "gradientUnits", "userSpaceOnUse"); } else if self.r.p(self.c.p_default_attr) { self.d.set(g, "gradientUnits", "objectBoundingBox"); }
        let names: &[&str] = if lin { &["x1", "y1", "x2", "y2"] } else { &["cx", "cy", "r", "fx", "fy"] };
        for a in names {
            let p = if *a == "fx" || *a == "fy" { 0.3 } else { 0.6 };
            if !self.r.p(p) { continue; }
            let v = if usr {
                if *a == "r" { let z = self.size(); n2s(z) } else { let z = self.coord(); n2s(z) }
            } else {
                let z = self.r.range(0, 10) as f64 / 10.0;
                if *a == "r" { n2s(z.max(0.2)) } else if self.r.p(0.4) { format!("{}%", n2s((z * 100.0).round())) } else { n2s(z) }
            };
            self.d.set(g, a, v);
        }
        if self.r.p(self.c.p_rich * 0.2) { self.d.set(g, "color-interpolation", "linearRGB"); }
        if self.r.p(0.35) { let t = self.transform(); self.d.set(g, "gradientTransform", t); }
        if self.r.p(0.2) { let v = self.r.pick(&["pad", "repeat", "reflect"]).to_string(); self.d.set(g, "spreadMethod", v); }
        if self.r.p(0.45) && !self.grads.is_empty() {
            let t = self.r.pick(&self.grads.clone()).clone();
            self.d.set(g, "xlink:href", format!("#{}", t));
            if self.r.p(0.15) { self.stops(g); }
        } else {
            self.stops(g);
        }
        self.grads.push(id);
    }

    fn def_parent(&mut self, defs: usize) -> usize {
        if self.r.p(self.c.p_defs_inline) { self.d.root } else { defs }
    }

    pub fn definitions(&mut self, defs: usize) {
        let c = self.c.clone();
        self.in_def = true;
        let ng = self.r.range(c.n_grad.0, c.n_grad.1);
        for _ in 0..ng { let p = self.def_parent(defs); self.gradient(p); }
        for _ in 0..self.r.range(c.n_pattern.0, c.n_pattern.1) {
            let p = self.def_parent(defs);
            let n = self.d.new_el(Some(p), "pattern");
            let id = self.id("pat");
            self.d.set(n, "id", id.clone());
            if self.r.p(0.6) {
                self.d.set(n, "patternUnits", "userSpaceOnUse");
                for a in ["width", "height"] { let v = self.size(); self.d.set(n, a, n2s(v)); }
                if self.r.p(0.3) { let v = self.coord(); self.d.set(n, "x", n2s(v)); }
            } else {
                for a in ["width", "height"] { let v = self.r.pick(&["0.1", "0.25", "50%", "0.5"]).to_string(); self.d.set(n, a, v); }
            }
            if self.r.p(0.3) { let t = self.transform(); self.d.set(n, "patternTransform", t); }
            if self.r.p(0.2) { self.d.set(n, "viewBox", "0 0 100 100"); }
            if self.r.p(self.c.p_rich) { self.d.set(n, "patternContentUnits", "objectBoundingBox"); }
            if self.r.p(self.c.p_rich) { self.d.set(n, "overflow", "visible"); }
            let mut own = true;
            if self.r.p(self.c.p_rich) && !self.patterns.is_empty() {
                let t = self.r.pick(&self.patterns.clone()).clone();
                self.d.set(n, "xlink:href", format!("#{}", t));
                own = self.r.p(0.3);
                for a in ["x", "width", "patternTransform"] { if self.r.p(0.5) { self.d.unset(n, a); } }
                if self.r.p(0.2) { self.d.set(n, "patternUnits", "objectBoundingBox"); }
                if self.r.p(0.2) { self.d.set(n, "patternContentUnits", "userSpaceOnUse"); }
                if self.r.p(0.2) { self.d.set(n, "x", "0"); }
            }
            if own { self.def_content(n); }
            self.patterns.push(id);
        }
        for _ in 0..self.r.range(c.n_clip.0, c.n_clip.1) {
            let p = self.def_parent(defs);
            let n = self.d.new_el(Some(p), "clipPath");
            let id = self.id("clip");
            self.d.set(n, "id", id.clone());
            let obb = self.r.p(0.2);
            if obb { self.d.set(n, "clipPathUnits", "objectBoundingBox"); }
            if self.r.p(0.15) { let t = self.transform(); self.d.set(n, "transform", t); }
            if self.r.p(0.1) && !self.clips.is_empty() { let x = self.r.pick(&self.clips.clone()).clone(); self.d.set(n, "clip-path", format!("url(#{})", x)); }
            let k = self.r.range(1, 2);
            for _ in 0..k {
                let s = if obb {
                    let s = self.d.new_el(Some(n), "rect");
                    for (a, v) in [("x", "0.1"), ("y", "0.2"), ("width", "0.7"), ("height", "0.5")] { self.d.set(s, a, v); }
                    s
                } else { self.shape(n) };
                if self.r.p(0.3) {
                    self.d.set(s, "clip-rule", "evenodd");
                    // a rule that matters, next to a fill that doesn't
                    if self.d.name(s) == "path" && self.r.p(0.6) { self.d.set(s, "d", "M 5 5 H 95 V 95 H 5 Z M 25 25 H 70 V 75 H 25 Z"); }
                    match self.r.below(6) { 0 => self.d.set(s, "fill", "none"), 1 => self.d.set(s, "fill-opacity", "0"), _ => {} }
                } else if self.r.p(0.3) { let mut v = vec![]; self.fill_style(&mut v, false); self.put_style(s, v); }
                if self.r.p(0.2) { let t = self.transform(); self.d.set(s, "transform", t); }
                if self.r.p(self.c.p_rich * 0.3) && !self.clips.is_empty() { let x = self.r.pick(&self.clips.clone()).clone(); self.d.set(s, "clip-path", format!("url(#{})", x)); }
                // also shown by 'use'
                if !obb && self.r.p(self.c.p_rich * 0.3) && self.d.attr(s, "id").is_none() { let i = self.id("cc"); self.d.set(s, "id", i.clone()); self.usable.push(i); }
            }
            if self.r.p(self.c.p_rich * 0.5) && !obb {
                match self.r.below(3) {
                    0 => { let t = self.d.new_el(Some(n), "text"); self.d.set(t, "x", "20"); self.d.set(t, "y", "40"); self.d.new_node(Some(t), Kind::Text("Clip".into())); }
                    1 => { let g = self.d.new_el(Some(n), "g"); self.shape(g); }
                    _ => {
                        let g = self.id("cs");
                        let s = if self.r.p(0.3) {
                            let t = self.d.new_el(Some(defs), "text");
                            self.d.set(t, "x", "10"); self.d.set(t, "y", "40");
                            if self.r.p(0.7) { self.d.set(t, "font-size", "30"); }
                            self.d.new_node(Some(t), Kind::Text("Clip".into()));
                            t
                        } else { self.shape(defs) };
                        self.d.set(s, "id", g.clone());
                        let u = self.d.new_el(Some(n), "use");
                        self.d.set(u, "xlink:href", format!("#{}", g));
                        if self.r.p(0.4) { self.d.set(u, "x", "15"); }
                        if self.r.p(0.3) { let t = self.transform(); self.d.set(u, "transform", t); }
                        if self.r.p(0.3) { self.d.set(u, "clip-rule", "evenodd"); }
                    }
                }
            }
            self.clips.push(id);
        }
        for _ in 0..self.r.range(c.n_filter.0, c.n_filter.1) {
            let p = self.def_parent(defs);
            self.filter(p);
        }
        for _ in 0..self.r.range(c.n_mask.0, c.n_mask.1) {
            let p = self.def_parent(defs);
            let n = self.d.new_el(Some(p), "mask");
            let id = self.id("mask");
            self.d.set(n, "id", id.clone());
            if self.r.p(0.5) {
                self.d.set(n, "maskUnits", "userSpaceOnUse");
                for a in ["x", "y"] { let v = self.coord(); self.d.set(n, a, n2s(v)); }
                for a in ["width", "height"] { let v = self.size(); self.d.set(n, a, n2s(v)); }
            }
            if self.r.p(self.c.p_rich) { self.d.set(n, "maskContentUnits", if self.r.p(0.7) { "objectBoundingBox" } else { "userSpaceOnUse" }); }
            if self.r.p(self.c.p_rich * 0.5) && !self.clips.is_empty() { let x = self.r.pick(&self.clips.clone()).clone(); self.d.set(n, "clip-path", format!("url(#{})", x)); }
            if self.r.p(self.c.p_rich * 0.5) && !self.masks.is_empty() { let x = self.r.pick(&self.masks.clone()).clone(); self.d.set(n, "mask", format!("url(#{})", x)); }
            self.def_content(n);
            self.masks.push(id);
        }
        for _ in 0..self.r.range(c.n_marker.0, c.n_marker.1) {
            let p = self.def_parent(defs);
            let n = self.d.new_el(Some(p), "marker");
            let id = self.id("mk");
            self.d.set(n, "id", id.clone());
            if self.r.p(0.6) { self.d.set(n, "orient", "auto"); }
            if self.r.p(0.3) { self.d.set(n, "markerUnits", "userSpaceOnUse"); }
            if self.r.p(0.5) { self.d.set(n, "refX", "2"); }
            if self.r.p(0.5) { self.d.set(n, "markerWidth", "6"); self.d.set(n, "markerHeight", "5"); }
            if self.r.p(0.3) { self.d.set(n, "viewBox", "0 0 10 10"); }
            if self.r.p(0.2) { self.d.set(n, "overflow", "visible"); }
            if self.r.p(self.c.p_rich) { self.d.set(n, "orient", "30"); }
            if self.r.p(self.c.p_rich) { self.d.set(n, "preserveAspectRatio", "none"); }
            if self.r.p(self.c.p_rich) { self.d.set(n, "fill", "teal"); }
            self.def_content(n);
            self.markers.push(id);
        }
        for _ in 0..self.r.range(c.n_defshape.0, c.n_defshape.1) {
            let p = self.def_parent(defs);
            let id = self.id("ds");
            if self.r.p(0.35) {
                let g = self.d.new_el(Some(p), "g");
                self.style_for(g, true, false);
                let k = self.r.range(1, 2);
                for _ in 0..k { let s = self.shape(g); self.style_for(s, false, false); }
                self.d.set(g, "id", id.clone());
            } else {
                let s = self.shape(p);
                self.style_for(s, false, false);
                self.d.set(s, "id", id.clone());
                if self.d.name(s) == "path" { self.path_ids.push(id.clone()); }
            }
            self.usable.push(id);
        }
        for _ in 0..self.r.range(c.n_symbol.0, c.n_symbol.1) {
            let p = self.def_parent(defs);
            let n = self.d.new_el(Some(p), "symbol");
            let id = self.id("sy");
            self.d.set(n, "id", id.clone());
            if self.r.p(0.6) { self.d.set(n, "viewBox", "0 0 200 100"); }
            if self.r.p(self.c.p_rich) { self.d.set(n, "overflow", "visible"); }
            if self.r.p(self.c.p_rich) { self.d.set(n, "preserveAspectRatio", "xMaxYMin slice"); }
            let k = self.r.range(1, 2);
            for _ in 0..k { let s = self.shape(n); self.style_for(s, false, false); }
            self.symbols.push(id);
        }
        self.in_def = false;
    }

    fn def_content(&mut self, n: usize) {
        let k = self.r.range(1, 2);
        for _ in 0..k {
            let mut p = n;
            if self.r.p(self.c.p_rich) {
                p = self.d.new_el(Some(n), "g");
                self.style_for(p, true, false);
                self.d.unset(p, "id");
            }
            if self.r.p(self.c.p_rich * 0.3) { let t = self.text(p); self.style_for(t, false, true); self.d.unset(t, "id"); }
            let s = self.shape(p);
            self.style_for(s, false, false);
            self.d.unset(s, "id");
        }
    }

    fn rich_primitive(&mut self, n: usize) -> usize {
        let k = self.r.below(9);
        let name = ["feComponentTransfer", "feConvolveMatrix", "feDiffuseLighting", "feSpecularLighting", "feImage", "feTile", "feTurbulence", "feDisplacementMap", "feColorMatrix"][k];
        let e = self.d.new_el(Some(n), name);
        let set = |g: &mut Self, e: usize, v: &[(&str, &str)], p: f64| for (a, b) in v { if g.r.p(p) { g.d.set(e, a, *b); } };
        match k {
            0 => for f in ["feFuncR", "feFuncG", "feFuncB", "feFuncA"] {
                if !self.r.p(0.6) { continue; }
                let c = self.d.new_el(Some(e), f);
                match self.r.below(4) {
                    0 => { self.d.set(c, "type", "linear"); set(self, c, &[("slope", "0.5"), ("intercept", "0.25")], 0.7); }
                    1 => { self.d.set(c, "type", "table"); self.d.set(c, "tableValues", "0 0.5 1"); }
                    2 => { self.d.set(c, "type", "gamma"); set(self, c, &[("amplitude", "2"), ("exponent", "1"), ("offset", "0")], 0.7); }
                    _ => { self.d.set(c, "type", "identity"); }
                }
            },
            1 => { self.d.set(e, "order", "3"); self.d.set(e, "kernelMatrix", "1 0 0 0 1 0 0 0 1"); set(self, e, &[("divisor", "2"), ("bias", "0"), ("edgeMode", "wrap"), ("preserveAlpha", "true"), ("targetX", "1")], 0.4); }
            2 | 3 => {
                set(self, e, &[("surfaceScale", "5"), ("lighting-color", "yellow")], 0.5);
                if k == 2 { set(self, e, &[("diffuseConstant", "1")], 0.5); } else { set(self, e, &[("specularConstant", "0.5"), ("specularExponent", "10")], 0.5); }
                match self.r.below(3) {
                    0 => { let l = self.d.new_el(Some(e), "feDistantLight"); set(self, l, &[("azimuth", "30"), ("elevation", "0")], 0.7); }
                    1 => { let l = self.d.new_el(Some(e), "fePointLight"); set(self, l, &[("x", "0"), ("y", "10"), ("z", "20")], 0.7); }
                    _ => { let l = self.d.new_el(Some(e), "feSpotLight"); set(self, l, &[("x", "5"), ("y", "0"), ("z", "20"), ("pointsAtX", "10"), ("limitingConeAngle", "30"), ("specularExponent", "1")], 0.7); }
                }
            }
            4 => { self.d.set(e, "xlink:href", "image.png"); set(self, e, &[("preserveAspectRatio", "none")], 0.4); }
            5 => {}
            6 => { set(self, e, &[("baseFrequency", "0.05"), ("numOctaves", "2"), ("seed", "1"), ("stitchTiles", "stitch"), ("type", "fractalNoise")], 0.6); }
            7 => { self.d.set(e, "in2", "SourceGraphic"); set(self, e, &[("scale", "10"), ("xChannelSelector", "R"), ("yChannelSelector", "G")], 0.6); }
            _ => match self.r.below(4) {
                0 => { self.d.set(e, "type", "matrix"); self.d.set(e, "values", "1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0"); }
                1 => { self.d.set(e, "values", "0 0 0 0 0.5 0 0 0 0 0.2 0 0 0 0 0.1 0 0 0 1 0"); }
                2 => { self.d.set(e, "type", "hueRotate"); self.d.set(e, "values", "90"); }
                _ => { self.d.set(e, "type", "luminanceToAlpha"); }
            },
        }
        e
    }

    pub fn filter(&mut self, p: usize) {
        if self.r.p(self.c.p_dup) && !self.filters.is_empty() {
            let src = self.r.pick(&self.filters.clone()).clone();
            if let Some(&s) = self.d.ids().get(&src) {
                let k = self.d.dup_into(s, p);
                let id = self.id("f");
                self.d.set(k, "id", id.clone());
                if self.r.p(0.3) { let c = self.d.el_children(k); if let Some(&x) = c.first() { self.d.set(x, "stdDeviation", "7"); } }
                self.filters.push(id);
                return;
            }
        }
        let n = self.d.new_el(Some(p), "filter");
        let id = self.id("f");
        self.d.set(n, "id", id.clone());
        if self.r.p(0.3) { for (a, v) in [("x", "-0.2"), ("y", "-0.2"), ("width", "1.4"), ("height", "1.4")] { self.d.set(n, a, v); } }
        else if self.r.p(0.3) { self.d.set(n, "filterUnits", "userSpaceOnUse"); for (a, v) in [("x", "0"), ("y", "0"), ("width", "200"), ("height", "150")] { self.d.set(n, a, v); } }
        if self.r.p(0.2) { self.d.set(n, "color-interpolation-filters", "sRGB"); }
        if self.r.p(self.c.p_rich * 0.4) { self.d.set(n, "primitiveUnits", if self.r.p(0.7) { "objectBoundingBox" } else { "userSpaceOnUse" }); }
        if self.r.p(self.c.p_rich * 0.3) { self.d.set(n, "filterRes", "100 100"); }
        if self.r.p(self.c.p_rich * 0.3) && !self.filters.is_empty() {
            let t = self.r.pick(&self.filters.clone()).clone();
            self.d.set(n, "xlink:href", format!("#{}", t));
            if self.r.p(0.2) { self.d.set(n, "filterUnits", "objectBoundingBox"); }
            if self.r.p(0.6) { self.filters.push(id); return; }
        }
        let k = self.r.weighted(&[5, 3, 2]) + 1;
        let mut results: Vec<String> = vec![];
        for i in 0..k {
            if self.r.p(self.c.p_rich) {
                let e = self.rich_primitive(n);
                self.prim_common(e, i, &mut results);
                continue;
            }
            let t = if i == 0 { self.r.weighted(&[8, 1, 1, 2, 0, 0, 0, 1]) } else { self.r.below(8) };
            let name = ["feGaussianBlur", "feOffset", "feFlood", "feColorMatrix", "feBlend", "feComposite", "feMerge", "feMorphology"][t];
            let e = self.d.new_el(Some(n), name);
            match t {
                0 => { let v = self.r.pick(&["2", "3 1", "0.5", "2 2", "2.0"]).to_string(); self.d.set(e, "stdDeviation", v); }
                1 => { self.d.set(e, "dx", "3"); if self.r.p(0.5) { let v = self.r.pick(&["2", "0"]).to_string(); self.d.set(e, "dy", v); } }
                2 => { let c = self.color(); self.d.set(e, "flood-color", c); if self.r.p(0.5) { let o = self.op(); self.d.set(e, "flood-opacity", o); } }
                3 => if self.r.p(0.5) { self.d.set(e, "type", "saturate"); self.d.set(e, "values", "0.5"); } else { self.d.set(e, "type", "matrix"); self.d.set(e, "values", "1 0 0 0 0 0 1 0 0 0 0 0 1 0 0 0 0 0 1 0"); },
                4 => { self.d.set(e, "in2", "SourceGraphic"); let v = self.r.pick(&["normal", "multiply"]).to_string(); self.d.set(e, "mode", v); }
                5 => { self.d.set(e, "in2", "SourceAlpha"); let v = self.r.pick(&["over", "in", "arithmetic"]).to_string(); self.d.set(e, "operator", v); }
                6 => { for _ in 0..2 { let m = self.d.new_el(Some(e), "feMergeNode"); if self.r.p(0.7) { self.d.set(m, "in", "SourceGraphic"); } } }
                _ => { self.d.set(e, "radius", "2"); if self.r.p(0.5) { self.d.set(e, "operator", "dilate"); } }
            }
            self.prim_common(e, i, &mut results);
        }
        self.filters.push(id);
    }

    fn prim_common(&mut self, e: usize, i: usize, results: &mut Vec<String>) {
        let name = self.d.name(e).to_string();
        if self.r.p(0.2) && !["feFlood", "feTurbulence", "feImage", "feMerge"].contains(&name.as_str()) {
            let v = if !results.is_empty() && self.r.p(0.5) { self.r.pick(&results.clone()).clone() } else { self.r.pick(&["SourceAlpha", "SourceGraphic"]).to_string() };
            self.d.set(e, "in", v);
        }
        if self.d.attr(e, "in2").is_some() && !results.is_empty() && self.r.p(0.4) { let v = self.r.pick(&results.clone()).clone(); self.d.set(e, "in2", v); }
        if self.r.p(0.25) { let r = format!("r{}", i); self.d.set(e, "result", r.clone()); results.push(r); }
        if self.r.p(self.c.p_rich * 0.4) {
            for (a, v) in [("x", &["0", "5", "10%"][..]), ("y", &["0", "3"][..]), ("width", &["100", "50%"][..]), ("height", &["100%", "80"][..])] {
                if self.r.p(0.5) { let v = self.r.pick(v).to_string(); self.d.set(e, a, v); }
            }
        }
        if self.r.p(self.c.p_rich * 0.2) { self.d.set(e, "color-interpolation-filters", "sRGB"); }
    }

    // ---- text ----------------------------------------------------------------------

    pub fn words(&mut self) -> String {
        self.r.pick(&["Text", "Some text", "a  b", "x & y", "\u{42f}\u{437}\u{44b}\u{43a}", "Q\"uote'", "long text here", " lead", "trail ", "1 < 2"]).to_string()
    }

    pub fn text(&mut self, parent: usize) -> usize {
        let n = self.d.new_el(Some(parent), "text");
        for a in ["x", "y"] { if self.r.p(0.8) { let v = self.coord(); self.d.set(n, a, n2s(v)); } }
        if self.r.p(0.1) { self.d.set(n, "rotate", "10 20 30"); }
        if self.r.p(0.1) { self.d.set(n, "dx", "5"); }
        if self.r.p(0.08) { self.d.set(n, "textLength", "80"); }
        if self.space_mode == 1 { self.d.set(n, "xml:space", if self.r.p(0.5) { "preserve" } else { "default" }); }
        let k = if self.c.text_rich { self.r.range(1, 3) } else { 1 };
        for i in 0..k {
            if i == 0 || self.r.p(0.5) || !self.c.text_rich {
                let t = self.words();
                self.d.new_node(Some(n), Kind::Text(t));
            } else {
                let s = self.d.new_el(Some(n), "tspan");
                if self.r.p(0.4) { let v = self.coord(); self.d.set(s, "x", n2s(v)); }
                if self.r.p(0.3) { self.d.set(s, "dy", "1.2em"); }
                let mut v = vec![];
                if self.r.p(0.5) { self.fill_style(&mut v, false); v.retain(|q| q.0 != "opacity" && q.0 != "clip-path"); }
                if self.r.p(0.5) { self.text_style(&mut v); }
                self.put_style(s, v);
                let t = self.words();
                self.d.new_node(Some(s), Kind::Text(t));
                if self.r.p(0.15) {
                    let s2 = self.d.new_el(Some(s), "tspan");
                    let c = self.color();
                    self.d.set(s2, "fill", c);
                    let t = self.words();
                    self.d.new_node(Some(s2), Kind::Text(t));
                }
            }
        }
        if self.r.p(0.08) && !self.path_ids.is_empty() {
            let s = self.d.new_el(Some(n), "textPath");
            let p = self.r.pick(&self.path_ids.clone()).clone();
            self.d.set(s, "xlink:href", format!("#{}", p));
            if self.r.p(self.c.p_rich) { self.d.set(s, "startOffset", if self.r.p(0.5) { "20" } else { "50%" }); }
            let t = self.words();
            self.d.new_node(Some(s), Kind::Text(t));
        }
        if self.r.p(self.c.p_rich * 0.2) {
            let s = self.d.new_el(Some(n), "a");
            self.d.set(s, "xlink:href", "http://example.com/");
            let t = self.words();
            self.d.new_node(Some(s), Kind::Text(t));
        }
        n
    }

    // ---- content ---------------------------------------------------------------------

    pub fn content(&mut self, parent: usize, depth: usize) {
        let k = self.r.range(self.c.kids.0, self.c.kids.1);
        let mut last: Option<usize> = None;
        for _ in 0..k {
            if self.budget == 0 { return; }
            self.budget -= 1;
            // repeat the previous element's style on a new shape: grouping / merging opportunities
            if let Some(l) = last {
                if self.r.p(self.c.p_dup) && ["rect", "path", "circle", "ellipse", "polygon", "polyline", "line"].contains(&self.d.name(l)) {
                    let s = self.shape(parent);
                    for (a, v) in self.d.attrs(l).to_vec() {
                        if a == "style" || a == "class" || crate::style::pidx(&a).is_some() || (a == "transform" && self.r.p(0.5)) { self.d.set(s, &a, v); }
                    }
                    if self.r.p(0.2) { let mut v = vec![]; self.fill_style(&mut v, false); for q in v { self.d.set(s, &q.0, q.1); } }
                    last = Some(s);
                    continue;
                }
            }
            let c = self.c.clone();
            let shapes = c.w_rect + c.w_circle + c.w_ellipse + c.w_line + c.w_polyline + c.w_polygon + c.w_path;
            let g = if depth < c.max_depth { c.w_group } else { 0 };
            let have_use = !self.usable.is_empty() || !self.symbols.is_empty();
            let t = self.r.weighted(&[shapes, g, if have_use { c.w_use } else { 0 }, c.w_text, c.w_image,
                if depth < c.max_depth { c.w_svg } else { 0 }, if depth < c.max_depth { c.w_a } else { 0 }, if depth < c.max_depth { c.w_switch } else { 0 }]);
            let n = match t {
                0 => { let s = self.shape(parent); self.style_for(s, false, false); s }
                1 => {
                    let s = self.d.new_el(Some(parent), "g");
                    self.style_for(s, true, false);
                    self.content(s, depth + 1);
                    s
                }
                2 => {
                    let s = self.d.new_el(Some(parent), "use");
                    let mut pool = self.usable.clone();
                    pool.extend(self.symbols.clone());
                    let id = self.r.pick(&pool).clone();
                    self.d.set(s, "xlink:href", format!("#{}", id));
                    for a in ["x", "y"] { if self.r.p(0.5) { let v = self.coord(); let u = self.unitval(v); self.d.set(s, a, u); } }
                    if self.symbols.contains(&id) { for a in ["width", "height"] { if self.r.p(0.6) { let v = self.size(); self.d.set(s, a, n2s(v)); } } }
                    self.style_for(s, false, false);
                    s
                }
                3 => { let s = self.text(parent); self.style_for(s, false, true); s }
                4 => {
                    let s = self.d.new_el(Some(parent), "image");
                    for a in ["x", "y"] { if self.r.p(0.7) { let v = self.coord(); self.d.set(s, a, n2s(v)); } }
                    for a in ["width", "height"] { let v = self.size(); self.d.set(s, a, n2s(v)); }
                    let h = self.r.pick(&["pic.png", "data:image/png;base64,iVBORw0KGgo="]).to_string();
                    self.d.set(s, "xlink:href", h);
                    if self.r.p(0.2) { self.d.set(s, "preserveAspectRatio", "none"); }
                    self.style_for(s, false, false);
                    s
                }
                5 => {
                    let s = self.d.new_el(Some(parent), "svg");
                    if self.r.p(0.6) { let v = self.coord(); self.d.set(s, "x", n2s(v)); }
                    if self.r.p(0.8) { let v = self.size(); self.d.set(s, "width", n2s(v)); let v = self.size(); self.d.set(s, "height", n2s(v)); }
                    if self.r.p(0.6) { self.d.set(s, "viewBox", "0 0 200 200"); }
                    if self.r.p(0.2) { self.d.set(s, "overflow", "visible"); }
                    self.content(s, depth + 1);
                    s
                }
                6 => {
                    let s = self.d.new_el(Some(parent), "a");
                    self.d.set(s, "xlink:href", "http://example.com/?a=1&b=2");
                    self.style_for(s, true, false);
                    self.content(s, depth + 1);
                    s
                }
                _ => {
                    let s = self.d.new_el(Some(parent), "switch");
                    let sh = self.shape(s); self.style_for(sh, false, false);
                    let sh = self.shape(s); self.style_for(sh, false, false);
                    s
                }
            };
            if self.d.name(n) == "path" { if let Some(i) = self.d.attr(n, "id") { let i = i.to_string(); self.path_ids.push(i); } }
            if self.r.p(0.15) && self.d.attr(n, "id").is_some() && !["svg", "switch", "image"].contains(&self.d.name(n)) {
                let id = self.d.attr(n, "id").unwrap().to_string();
                if t == 0 || t == 1 || t == 3 || (t == 2 && self.r.p(self.c.p_rich)) { self.usable.push(id); }
            }
            if self.r.p(self.c.p_misc_nodes * 0.5) {
                match self.r.below(4) {
                    0 => { let t = self.d.new_el(Some(n), "title"); self.d.new_node(Some(t), Kind::Text("A title".into())); }
                    1 => { let t = self.d.new_el(Some(n), "desc"); self.d.new_node(Some(t), Kind::Text("A description".into())); }
                    2 => { self.d.new_node(Some(parent), Kind::Comment(" note ".into())); }
                    _ => { let t = self.d.new_el(Some(n), "title"); self.d.new_node(Some(t), Kind::Text("T".into())); }
                }
            }
            last = Some(n);
        }
    }

    pub fn css(&mut self, parent: usize) {
        let n = self.r.range(1, 3);
        let mut s = String::new();
        // rules in increasing specificity: the CSS subset svgdom supports has no specificity
        let mut rules: Vec<(u8, String)> = vec![];
        for i in 0..n {
            let k = self.r.below(9);
            let mut v = vec![];
            self.fill_style(&mut v, false);
            if k == 1 { v.retain(|q| !["display", "opacity", "clip-path", "mask", "filter"].contains(&q.0.as_str())); }
            if v.is_empty() { v.push(("fill".into(), "green".into())); }
            let body: Vec<String> = v.iter().map(|q| format!("{}:{}", q.0, q.1)).collect();
            let sel = match k {
                0 => (1, (*self.r.pick(&["rect", "path", "g", "circle", "text", "rect,path", "use", "line, polygon", "svg"])).to_string()),
                1 => (0, "*".to_string()),
                2 => (3, format!("#CSSID{}", i)),
                3 => { let c = format!("c{}", i); self.classes.push(c.clone()); (2, format!(".{}, .{}x", c, c)) }
                _ => { let c = format!("c{}", i); self.classes.push(c.clone()); (2, format!(".{}", c)) }
            };
            let note = if self.r.p(0.1) { "/* note */ " } else { "" };
            rules.push((sel.0, format!("{}{} {{ {} }}", note, sel.1, body.join("; "))));
        }
        rules.sort_by_key(|x| x.0);
        for r in rules { s.push_str(&r.1); s.push('\n'); }
        let st = self.d.new_el(Some(parent), "style");
        if self.r.p(0.7) { self.d.set(st, "type", "text/css"); }
        let k = if self.r.p(0.5) { Kind::CData(s) } else { Kind::Text(s) };
        self.d.new_node(Some(st), k);
    }

    pub fn document(mut self) -> Dom {
        let root = self.d.new_el(None, "svg");
        self.d.root = root;
        self.d.set(root, "xmlns", "http://www.w3.org/2000/svg");
        self.d.set(root, "xmlns:xlink", "http://www.w3.org/1999/xlink");
        if self.c.p_nonsvg > 0.0 {
            self.d.set(root, "xmlns:sodipodi", "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd");
            self.d.set(root, "xmlns:inkscape", "http://www.inkscape.org/namespaces/inkscape");
        }
        match self.r.below(5) {
            0 => { self.d.set(root, "width", "200"); self.d.set(root, "height", "200"); }
            1 => { self.d.set(root, "viewBox", "0 0 200 200"); }
            2 => { self.d.set(root, "width", "100%"); self.d.set(root, "height", "100%"); self.d.set(root, "viewBox", "0 0 300 200"); }
            3 => { self.d.set(root, "width", "20mm"); self.d.set(root, "height", "30mm"); self.d.set(root, "viewBox", "-10,-10,220,320"); }
            _ => {}
        }
        if self.space_mode == 2 { self.d.set(root, "xml:space", "preserve"); }
        if self.r.p(0.4) { self.d.set(root, "version", "1.1"); }
        if self.r.p(0.1) { self.d.set(root, "preserveAspectRatio", "xMinYMin slice"); }
        if self.r.p(0.15) { let mut v = vec![]; self.fill_style(&mut v, false); v.retain(|q| q.0 != "display"); self.put_style(root, v); }
        if self.r.p(self.c.p_nonsvg) {
            let n = self.d.new_el(Some(root), "sodipodi:namedview");
            self.d.set(n, "id", "base");
            self.d.set(n, "inkscape:zoom", "1.5");
        }
        if self.r.p(self.c.p_misc_nodes) { let t = self.d.new_el(Some(root), "title"); self.d.new_node(Some(t), Kind::Text("Doc".into())); }
        if self.r.p(self.c.p_misc_nodes) { let t = self.d.new_el(Some(root), "metadata"); self.d.new_node(Some(t), Kind::Text("meta".into())); }
        let css_first = self.r.p(self.c.p_css);
        let late_defs = self.r.p(0.15);
        let defs = if late_defs { self.d.new_el(None, "defs") } else { self.d.new_el(Some(root), "defs") };
        if css_first { let p = if self.r.p(0.5) { root } else { defs }; self.css(p); }
        if late_defs { self.d.nodes[defs].parent = Some(root); }
        self.definitions(defs);
        self.content(root, 0);
        if late_defs { self.d.nodes[root].children.push(defs); }
        if self.d.nodes[defs].children.is_empty() && self.r.p(0.7) { self.d.nodes[root].children.retain(|c| *c != defs); }
        if self.r.p(self.c.p_wide) { self.widen(); }
        self.css_ids();
        fixup(&mut self.d);
        self.d
    }

    /// Id selectors of the style sheets select elements of the document.
    fn css_ids(&mut self) {
        let styles: Vec<usize> = self.d.walk().into_iter().filter(|&i| self.d.name(i) == "style").collect();
        for s in styles {
            for c in self.d.children(s).to_vec() {
                let (mut t, cdata) = match self.d.nodes[c].kind.clone() { Kind::Text(t) => (t, false), Kind::CData(t) => (t, true), _ => continue };
                for i in 0..3 {
                    let mark = format!("#CSSID{}", i);
                    if !t.contains(&mark) { continue; }
                    let ids: Vec<String> = self.d.walk().into_iter().filter(|&n| self.d.is_el(n) && !self.d.name(n).contains(':')).filter_map(|n| self.d.attr(n, "id").map(|x| x.to_string())).filter(|x| !x.contains('.')).collect();
                    let id = if ids.is_empty() { "none".to_string() } else { self.r.pick(&ids).clone() };
                    t = t.replace(&mark, &format!("#{}", id));
                }
                self.d.nodes[c].kind = if cdata { Kind::CData(t) } else { Kind::Text(t) };
            }
        }
    }
}

impl Dom {
    pub fn dup_into(&mut self, src: usize, parent: usize) -> usize {
        let k = self.nodes[src].kind.clone();
        let n = self.new_node(Some(parent), k);
        for c in self.nodes[src].children.clone() { self.dup_into(c, n); }
        n
    }
}

fn push_cmd(s: &mut String, c: char, v: &[f64], compact: bool, r: &mut Rng) {
    s.push(c);
    for (i, x) in v.iter().enumerate() {
        let t = n2s(*x);
        if i > 0 {
            if compact && t.starts_with('-') { } else { s.push(if r.p(0.3) { ',' } else { ' ' }); }
        } else if !compact { s.push(' '); }
        s.push_str(&t);
    }
    if !compact { s.push(' '); }
}

/// Removes constructs that the cleaner documents as rejected or that the svgdom parser is
/// known to misread (see DESIGN.md, "dependency limits").
pub fn fixup(d: &mut Dom) {
    // 'inherit' without an ancestor value is rejected by design
    let sp = crate::style::cascade(d);
    for i in d.walk() {
        if !d.is_el(i) { continue; }
        let attrs = d.attrs(i).to_vec();
        for (a, v) in &attrs {
            let has = |name: &str| -> bool {
                let k = match crate::style::pidx(name) { Some(k) => k, None => return true };
                let mut j = i;
                while let Some(p) = d.parent(j) {
                    if sp.get(&p).map(|s| s.iter().any(|x| x.0 == k && &*x.1 != "inherit")).unwrap_or(false) { return true; }
                    j = p;
                }
                false
            };
            if v == "inherit" && !has(a) { d.unset(i, a); continue; }
            if v == "currentColor" && a != "color" {
                let k = crate::style::pidx("color").unwrap();
                let own = sp.get(&i).map(|s| s.iter().any(|x| x.0 == k && &*x.1 != "inherit")).unwrap_or(false);
                if !own && !has("color") { d.unset(i, a); continue; }
            }
            if a == "style" {
                let decls = crate::style::parse_decls(v);
                let bad = |n: &str, x: &str| (x == "inherit" && !has(n)) || (x == "currentColor" && !has("color") && !sp.get(&i).map(|s| s.iter().any(|q| q.0 == crate::style::pidx("color").unwrap() && &*q.1 != "inherit")).unwrap_or(false));
                if decls.iter().any(|q| bad(&q.0, &q.1)) {
                    let v2: Vec<String> = decls.iter().filter(|q| !bad(&q.0, &q.1)).map(|q| format!("{}:{}", q.0, q.1)).collect();
                    if v2.is_empty() { d.unset(i, "style"); } else { d.set(i, "style", v2.join(";")); }
                }
            }
        }
    }
    // a presentation attribute holding a reference is not overridden by CSS in svgdom
    let has_css = d.walk().iter().any(|&i| d.name(i) == "style");
    if has_css {
        let rules: Vec<usize> = d.walk().into_iter().filter(|&i| d.name(i) == "style").collect();
        let css: String = rules.iter().map(|&i| d.text_of(i)).collect();
        for i in d.walk() {
            if !d.is_el(i) { continue; }
            let by_css = d.attr(i, "class").is_some() || crate::style::parse_css(&css).iter().any(|r| r.selects(d, i));
            if !by_css { continue; }
            for (a, v) in d.attrs(i).to_vec() {
                if v.starts_with("url(") && (a == "fill" || a == "stroke") { d.unset(i, &a); }
                if a == "style" && v.contains("url(") { d.unset(i, "class"); if crate::style::parse_css(&css).iter().any(|r| r.selects(d, i)) { d.unset(i, "style"); } }
            }
        }
        // currentColor / inherit inside rules would need an ancestor everywhere
        for i in rules {
            for c in d.children(i).to_vec() {
                let f = |t: &str| t.replace("inherit", "red").replace("currentColor", "red");
                let fix = |t: &str| -> String {
                    t.lines().map(|l| if l.contains("inherit") {
                        let k = l.find('{').unwrap_or(0);
                        let e = l.rfind('}').unwrap_or(l.len());
                        let ds: Vec<String> = crate::style::parse_decls(&l[k + 1..e]).into_iter().filter(|q| q.1 != "inherit").map(|q| format!("{}:{}", q.0, q.1)).collect();
                        format!("{}{{ {} }}", &l[..k], if ds.is_empty() { "fill:green".to_string() } else { ds.join("; ") })
                    } else { l.to_string() }).collect::<Vec<_>>().join("\n")
                };
                let k = match d.nodes[c].kind.clone() {
                    Kind::Text(t) => Kind::Text(f(&fix(&t))),
                    Kind::CData(t) => Kind::CData(f(&fix(&t))),
                    k => k,
                };
                d.nodes[c].kind = k;
            }
        }
    }
}

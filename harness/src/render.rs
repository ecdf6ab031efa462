//! Reference renderer: interprets an SVG document by the SVG 1.1 rules into a
//! resolution-independent display list in device (root user) space.

use std::collections::HashMap;
use std::rc::Rc;

use crate::style::*;
use crate::values::*;
use crate::xml::*;

#[derive(Clone, Debug)]
pub struct StopD { pub off: f64, pub rgb: u32, pub a: f64 }

#[derive(Clone, Debug)]
pub enum DPaint {
    None,
    Color { rgb: u32, a: f64 },
    Linear { f: [f64; 3], spread: String, stops: Vec<StopD>, interp: String },
    Radial { c: Pt, pen: [f64; 3], focal: Pt, spread: String, stops: Vec<StopD>, interp: String },
    Pattern { tile: [Pt; 3], clip: bool, a: f64, items: Vec<Item> },
    Sym(String),
}

#[derive(Clone, Debug)]
pub struct StrokeD {
    pub paint: DPaint,
    /// width^2 * A * A^T  (xx, xy, yy)
    pub pen: [f64; 3],
    pub cap: String,
    pub join: String,
    pub miter: f64,
    /// dash lengths relative to the stroke width
    pub dash: Vec<f64>,
    pub dashoff: f64,
    pub path_length: Option<f64>,
}

#[derive(Clone, Debug)]
pub struct ClipShape { pub path: Vec<Sub>, pub rule: String, pub text: Option<TextD>, pub clips: Vec<ClipD> }

#[derive(Clone, Debug)]
pub struct ClipD { pub shapes: Vec<ClipShape>, pub own: Vec<ClipD>, pub sym: String }

#[derive(Clone, Debug)]
pub struct MaskD { pub region: [Pt; 3], pub sym: String, pub items: Vec<Item> }

#[derive(Clone, Debug)]
pub struct FilterD {
    pub region: [Pt; 3],
    pub lin: [f64; 4],
    pub bbox: Option<[Pt; 3]>,
    pub prims: Vec<Prim>,
    pub sym: String,
}

#[derive(Clone, Debug)]
pub struct Prim { pub name: String, pub attrs: Vec<(String, String)>, pub nums: Vec<(String, Vec<f64>)>, pub kids: Vec<Prim> }

#[derive(Clone, Debug)]
pub enum Stage {
    Mult { op: f64, clips: Vec<ClipD>, masks: Vec<MaskD> },
    Filter(FilterD),
    Link(String),
    Sym(String),
}

#[derive(Clone, Debug)]
pub struct ShapeD {
    pub path: Vec<Sub>,
    pub rule: String,
    pub fill: DPaint,
    pub stroke: Option<StrokeD>,
    pub markers: Vec<Item>,
    pub misc: Vec<(String, String)>,
    pub src: String,
}

#[derive(Clone, Debug)]
pub struct RunD { pub text: String, pub style: Vec<(String, String)>, pub fill: DPaint, pub stroke: Option<StrokeD>, pub clips: String }

#[derive(Clone, Debug)]
pub enum TextPart {
    Run(RunD),
    /// layout attributes taking effect at this point (x, y, dx, dy, rotate, textLength...)
    Open(String, Vec<(String, String)>),
    Close,
    Path(Vec<Sub>, Vec<(String, String)>),
}

#[derive(Clone, Debug)]
pub struct TextD { pub m: [f64; 6], pub parts: Vec<TextPart> }

#[derive(Clone, Debug)]
pub enum Item {
    Group(Vec<Stage>, Vec<Item>),
    Shape(ShapeD),
    Text(TextD),
    Image { quad: [Pt; 3], attrs: Vec<(String, String)>, auto: bool },
    Foreign { m: [f64; 6], text: String },
}

#[derive(Clone, Debug)]
pub struct Scene { pub header: Vec<(String, String)>, pub items: Vec<Item>, pub stats: Stats }

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub shapes: usize, pub texts: usize, pub gradients: usize, pub patterns: usize, pub clips: usize,
    pub masks: usize, pub filters: usize, pub markers: usize, pub uses: usize, pub images: usize, pub groups: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct BB { pub r: Option<(f64, f64, f64, f64)>, pub unknown: bool }

impl BB {
    fn new() -> BB { BB { r: None, unknown: false } }
    fn add(&mut self, p: Pt) {
        self.r = Some(match self.r {
            None => (p.0, p.1, p.0, p.1),
            Some(r) => (r.0.min(p.0), r.1.min(p.1), r.2.max(p.0), r.3.max(p.1)),
        });
    }
    fn join(&mut self, o: &BB) {
        self.unknown |= o.unknown;
        if let Some(r) = o.r { self.add((r.0, r.1)); self.add((r.2, r.3)); }
    }
    /// unit square -> bbox; None when degenerate
    fn matrix(&self) -> Option<M> {
        let r = self.r?;
        let (w, h) = (r.2 - r.0, r.3 - r.1);
        if w.abs() < 1e-9 || h.abs() < 1e-9 { return None; }
        Some(M::new(w, 0.0, 0.0, h, r.0, r.1))
    }
}

pub struct R<'a> {
    pub dom: &'a Dom,
    ids: HashMap<String, usize>,
    spec: HashMap<usize, Specified>,
    depth: usize,
    patterns: Vec<usize>,
    pub stats: Stats,
    budget: usize,
    in_clip: bool,
}

type VP = (f64, f64);

const SHAPES: &[&str] = &["path", "rect", "circle", "ellipse", "line", "polyline", "polygon"];
const NORENDER: &[&str] = &["defs", "symbol", "clipPath", "mask", "linearGradient", "radialGradient", "pattern",
    "marker", "filter", "title", "desc", "metadata", "style", "script", "font", "font-face", "cursor", "view",
    "color-profile", "stop", "animate", "set", "animateTransform", "animateMotion", "animateColor", "glyph"];

fn href<'b>(dom: &'b Dom, n: usize) -> Option<&'b str> {
    dom.attr(n, "xlink:href").or_else(|| dom.attr(n, "href"))
}

fn norm_ws(s: &str) -> String { s.split_ascii_whitespace().collect::<Vec<_>>().join(" ") }

fn norm_list(s: &str) -> String {
    match numbers(s) { Some(v) => v.iter().map(|x| fmt_num(*x)).collect::<Vec<_>>().join(" "), None => norm_ws(s) }
}

pub fn render(dom: &Dom) -> Result<Scene, String> {
    if local(dom.name(dom.root)) != "svg" { return Err("root is not svg".into()); }
    let mut r = R { dom, ids: dom.ids(), spec: cascade(dom), depth: 0, patterns: vec![], stats: Stats::default(), budget: 20000, in_clip: false };
    let root = dom.root;
    let mut header = vec![];
    for n in ["viewBox", "preserveAspectRatio", "width", "height", "zoomAndPan"] {
        let v = match dom.attr(root, n) { Some(v) => v, None => match n {
            "width" | "height" => "100%", "preserveAspectRatio" => "xMidYMid meet", "zoomAndPan" => "magnify", _ => "" } };
        let v = match n {
            "viewBox" => norm_list(v),
            "width" | "height" => match length(v) { Some(l) => format!("{:?}", Len(l.0, if l.1 == Unit::Px { Unit::None } else { l.1 })), None => v.into() },
            "preserveAspectRatio" => { let s = norm_ws(v); if s.ends_with(" meet") || s == "none" || s.ends_with(" slice") { s } else { format!("{} meet", s) } }
            _ => norm_ws(v),
        };
        header.push((n.to_string(), v));
    }
    let vp = match dom.attr(root, "viewBox").and_then(numbers) {
        Some(v) if v.len() == 4 => (v[2], v[3]),
        _ => {
            let g = |n: &str| dom.attr(root, n).and_then(length).and_then(abs_len).unwrap_or(100.0);
            (g("width"), g("height"))
        }
    };
    let st = r.compute(root, &Style::initial());
    let mut items = vec![];
    if st.get("display") != "none" {
        let mut inner = vec![];
        r.children(root, &st, M::ID, vp, &mut inner)?;
        r.wrap(root, &Style::initial(), &st, M::ID, vp, inner, &mut items, Vec::new())?;
    }
    Ok(Scene { header, items, stats: r.stats })
}

pub fn local(n: &str) -> &str { n.strip_prefix("svg:").unwrap_or(n) }

impl<'a> R<'a> {
    fn compute(&self, n: usize, p: &Style) -> Style {
        match self.spec.get(&n) { Some(s) => compute(s, p), None => compute(&vec![], p) }
    }
    /// Style of `n` by its real position in the document.
    fn dom_style(&self, n: usize) -> Style {
        let mut chain = vec![n];
        let mut i = n;
        while let Some(p) = self.dom.parent(i) { chain.push(p); i = p; }
        let mut st = Style::initial();
        for &k in chain.iter().rev() {
            // decorations are not drawn for the content of definitions
            if ["clipPath", "mask", "pattern", "marker"].contains(&local(self.dom.name(k))) {
                let t = pidx("text-decoration").unwrap();
                if !self.spec.get(&k).map(|s| s.iter().any(|x| x.0 == t && &*x.1 == "inherit")).unwrap_or(false) { Rc::make_mut(&mut st.v)[t] = Rc::from("none"); }
            }
            st = self.compute(k, &st);
        }
        st
    }
    fn len(&self, n: usize, name: &str, def: f64, st: &Style, base: f64) -> f64 {
        match self.dom.attr(n, name).and_then(length) { Some(l) => self.res(l, st, base), None => def }
    }
    fn opt_len(&self, n: usize, name: &str, st: &Style, base: f64) -> Option<f64> {
        self.dom.attr(n, name).and_then(length).map(|l| self.res(l, st, base))
    }
    fn res(&self, l: Len, st: &Style, base: f64) -> f64 {
        match l.1 {
            Unit::Em => l.0 * st.font_size(),
            Unit::Ex => l.0 * st.font_size() / 2.0,
            Unit::Percent => l.0 / 100.0 * base,
            _ => abs_len(l).unwrap(),
        }
    }
    fn diag(vp: VP) -> f64 { ((vp.0 * vp.0 + vp.1 * vp.1) / 2.0).sqrt() }

    fn children(&mut self, n: usize, st: &Style, m: M, vp: VP, out: &mut Vec<Item>) -> Result<(), String> {
        for c in self.dom.el_children(n) { self.node(c, st, m, vp, None, out)?; }
        Ok(())
    }

    fn own_tf(&self, n: usize) -> Result<M, String> {
        match self.dom.attr(n, "transform") {
            Some(t) => transform(t).ok_or_else(|| format!("bad transform '{}'", t)),
            None => Ok(M::ID),
        }
    }

    fn node(&mut self, n: usize, ps: &Style, m: M, vp: VP, size: Option<(Option<f64>, Option<f64>)>, out: &mut Vec<Item>) -> Result<(), String> {
        self.depth += 1;
        if self.depth > 200 { return Err("too deep".into()); }
        if self.budget == 0 { return Err("budget".into()); }
        self.budget -= 1;
        let r = self.node_(n, ps, m, vp, size, out);
        self.depth -= 1;
        r
    }

    fn node_(&mut self, n: usize, ps: &Style, m: M, vp: VP, size: Option<(Option<f64>, Option<f64>)>, out: &mut Vec<Item>) -> Result<(), String> {
        let name = local(self.dom.name(n)).to_string();
        if NORENDER.contains(&name.as_str()) && !(name == "symbol" && size.is_some()) { return Ok(()); }
        let st = self.compute(n, ps);
        if st.get("display") == "none" { return Ok(()); }
        let mut inner = vec![];
        let mut pre: Vec<Stage> = vec![];
        let m = if name == "svg" { m } else { m.mul(&self.own_tf(n)?) };
        match name.as_str() {
            "g" | "a" => {
                self.stats.groups += 1;
                self.children(n, &st, m, vp, &mut inner)?;
                if name == "a" {
                    if let Some(h) = href(self.dom, n) { pre.push(Stage::Link(h.to_string())); }
                }
            }
            "switch" => {
                let kids = self.dom.el_children(n);
                if let Some(&k) = kids.iter().find(|&&k| !["title", "desc", "metadata"].contains(&local(self.dom.name(k)))) {
                    self.node(k, &st, m, vp, None, &mut inner)?;
                }
            }
            "svg" | "symbol" => {
                let x = if name == "svg" { self.len(n, "x", 0.0, &st, vp.0) } else { 0.0 };
                let y = if name == "svg" { self.len(n, "y", 0.0, &st, vp.1) } else { 0.0 };
                let (ow, oh) = size.unwrap_or((None, None));
                let w = ow.unwrap_or_else(|| if name == "svg" { self.len(n, "width", vp.0, &st, vp.0) } else { vp.0 });
                let h = oh.unwrap_or_else(|| if name == "svg" { self.len(n, "height", vp.1, &st, vp.1) } else { vp.1 });
                if w <= 0.0 || h <= 0.0 { return Ok(()); }
                let m2 = m.mul(&M::translate(x, y));
                if self.overflow_clips(&st) {
                    pre.push(Stage::Mult { op: 1.0, clips: vec![rect_clip(&m2, 0.0, 0.0, w, h)], masks: vec![] });
                }
                let (m3, vp2) = match self.dom.attr(n, "viewBox").and_then(numbers) {
                    Some(v) if v.len() == 4 => {
                        if v[2] <= 0.0 || v[3] <= 0.0 { return Ok(()); }
                        (m2.mul(&view_box(&v, w, h, self.dom.attr(n, "preserveAspectRatio"))), (v[2], v[3]))
                    }
                    _ => (m2, (w, h)),
                };
                self.children(n, &st, m3, vp2, &mut inner)?;
                self.wrap(n, ps, &st, m, vp, inner, out, pre)?;
                return Ok(());
            }
            "use" => {
                self.stats.uses += 1;
                let x = self.len(n, "x", 0.0, &st, vp.0);
                let y = self.len(n, "y", 0.0, &st, vp.1);
                let m2 = m.mul(&M::translate(x, y));
                let sz = (self.opt_len(n, "width", &st, vp.0), self.opt_len(n, "height", &st, vp.1));
                if let Some(t) = href(self.dom, n).and_then(|h| h.strip_prefix('#')).and_then(|id| self.ids.get(id).cloned()) {
                    let tn = local(self.dom.name(t)).to_string();
                    let ok = SHAPES.contains(&tn.as_str()) || ["g", "a", "svg", "symbol", "use", "text", "image", "switch"].contains(&tn.as_str());
                    if ok { self.node(t, &st, m2, vp, Some(sz), &mut inner)?; }
                }
            }
            "text" => {
                if let Some(t) = self.text(n, &st, m, vp)? { self.stats.texts += 1; inner.push(Item::Text(t)); }
            }
            "image" => {
                if st.get("visibility") == "visible" {
                    let x = self.len(n, "x", 0.0, &st, vp.0);
                    let y = self.len(n, "y", 0.0, &st, vp.1);
                    let w = self.opt_len(n, "width", &st, vp.0);
                    let h = self.opt_len(n, "height", &st, vp.1);
                    let auto = w.is_none() || h.is_none();
                    let (w, h) = (w.unwrap_or(0.0), h.unwrap_or(0.0));
                    if auto || (w > 0.0 && h > 0.0) {
                        self.stats.images += 1;
                        let attrs = vec![
                            ("href".to_string(), href(self.dom, n).unwrap_or("").split_ascii_whitespace().collect::<String>()),
                            ("par".into(), norm_par(self.dom.attr(n, "preserveAspectRatio"))),
                            ("ir".into(), st.get("image-rendering").into()),
                            ("ov".into(), format!("{}", self.overflow_clips(&st))),
                        ];
                        inner.push(Item::Image { quad: quad(&m, x, y, w, h), attrs, auto });
                    }
                }
            }
            "foreignObject" => {
                inner.push(Item::Foreign { m: m.arr(), text: norm_ws(&self.dom.text_of(n)) });
            }
            s if SHAPES.contains(&s) => {
                // a shape without a geometry is not rendered at all, with its filter
                if self.geom(n, &st, vp)?.iter().all(|s| s.segs.is_empty() && !s.closed) { return Ok(()); }
                if let Some(sh) = self.shape(n, &st, m, vp)? { self.stats.shapes += 1; inner.push(Item::Shape(sh)); }
            }
            _ => return Ok(()),
        }
        self.wrap(n, ps, &st, m, vp, inner, out, pre)
    }

    fn overflow_clips(&self, st: &Style) -> bool {
        !matches!(st.get("overflow"), "visible" | "auto")
    }

    /// Applies the group effects of element n (its user space is `m`).
    fn wrap(&mut self, n: usize, ps: &Style, st: &Style, m: M, vp: VP, inner: Vec<Item>, out: &mut Vec<Item>, pre: Vec<Stage>) -> Result<(), String> {
        let mut stages = pre;
        // filter
        if let Some((id, _)) = url_ref(st.get("filter")) {
            match self.ids.get(&id).cloned() {
                Some(f) if local(self.dom.name(f)) == "filter" => {
                    // a filter without primitives disables rendering of the element
                    let ch = self.chain(f, &["filter"]);
                    if ch.iter().all(|&g| self.primitives(g).is_empty()) { return Ok(()); }
                    // a reference to an element which is not rendered
                    if inner.is_empty() && local(self.dom.name(n)) == "use" && self.use_of_nothing(n, ps, vp)? { return Ok(()); }
                    let bb = self.bbox(n, ps, vp)?;
                    self.stats.filters += 1;
                    // objectBoundingBox units on a box without width and height
                    if !bb.unknown && self.dom.attr(f, "filterUnits") != Some("userSpaceOnUse") && bb.matrix().is_none() { return Ok(()); }
                    if self.identity_filter(f) { stages.push(Stage::Mult { op: 1.0, clips: vec![], masks: vec![] }); } else {
                    let fd = self.filter(f, m, &bb, vp)?;
                    stages.push(Stage::Filter(fd)); }
                }
                _ => stages.push(Stage::Sym("broken-filter".into())),
            }
        }
        let mut clips = vec![];
        let mut masks = vec![];
        if let Some((id, _)) = url_ref(st.get("clip-path")) {
            if let Some(c) = self.ids.get(&id).cloned() {
                if local(self.dom.name(c)) == "clipPath" {
                    self.stats.clips += 1;
                    let bb = self.bbox(n, ps, vp)?;
                    clips.push(self.clip(c, m, &bb, vp)?);
                }
            }
        }
        if let Some((id, _)) = url_ref(st.get("mask")) {
            if let Some(c) = self.ids.get(&id).cloned() {
                if local(self.dom.name(c)) == "mask" {
                    self.stats.masks += 1;
                    let bb = self.bbox(n, ps, vp)?;
                    masks.push(self.mask(c, m, &bb, vp)?);
                }
            }
        }
        let op = st.num("opacity", 1.0).max(0.0).min(1.0);
        if op < 1.0 || !clips.is_empty() || !masks.is_empty() {
            stages.push(Stage::Mult { op, clips, masks });
        }
        push_group(stages, inner, out);
        Ok(())
    }

    // ---- bounding boxes ---------------------------------------------------

    fn use_of_nothing(&mut self, n: usize, ps: &Style, vp: VP) -> Result<bool, String> {
        let t = match href(self.dom, n).and_then(|h| h.strip_prefix('#')).and_then(|id| self.ids.get(id).cloned()) { Some(t) => t, None => return Ok(true) };
        let tn = local(self.dom.name(t));
        if tn != "g" && !SHAPES.contains(&tn) { return Ok(false); }
        let bb = self.bbox(n, ps, vp)?;
        Ok(!bb.unknown && bb.r.is_none())
    }

    /// Bounding box of element n in its own user space.
    fn bbox(&mut self, n: usize, ps: &Style, vp: VP) -> Result<BB, String> {
        let mut bb = BB::new();
        self.bb_node(n, ps, M::ID, vp, true, None, &mut bb)?;
        Ok(bb)
    }

    fn bb_node(&mut self, n: usize, ps: &Style, m: M, vp: VP, top: bool, size: Option<(Option<f64>, Option<f64>)>, bb: &mut BB) -> Result<(), String> {
        self.depth += 1;
        if self.depth > 200 { return Err("too deep".into()); }
        if self.budget == 0 { return Err("budget".into()); }
        self.budget -= 1;
        let name = local(self.dom.name(n)).to_string();
        let st = self.compute(n, ps);
        let mut go = !(NORENDER.contains(&name.as_str()) && !(name == "symbol" && size.is_some()));
        if st.get("display") == "none" { go = false; }
        if go {
            let m = if top || name == "svg" { m } else { m.mul(&self.own_tf(n)?) };
            match name.as_str() {
                "g" | "a" | "switch" => for c in self.dom.el_children(n) { self.bb_node(c, &st, m, vp, false, None, bb)?; },
                "svg" | "symbol" => {
                    // viewport-establishing content: approximate by content box (same on both sides)
                    let x = if name == "svg" { self.len(n, "x", 0.0, &st, vp.0) } else { 0.0 };
                    let y = if name == "svg" { self.len(n, "y", 0.0, &st, vp.1) } else { 0.0 };
                    let (ow, oh) = size.unwrap_or((None, None));
                    let w = ow.unwrap_or_else(|| if name == "svg" { self.len(n, "width", vp.0, &st, vp.0) } else { vp.0 });
                    let h = oh.unwrap_or_else(|| if name == "svg" { self.len(n, "height", vp.1, &st, vp.1) } else { vp.1 });
                    let m2 = m.mul(&M::translate(x, y));
                    let m3 = match self.dom.attr(n, "viewBox").and_then(numbers) {
                        Some(v) if v.len() == 4 && v[2] > 0.0 && v[3] > 0.0 => m2.mul(&view_box(&v, w, h, self.dom.attr(n, "preserveAspectRatio"))),
                        _ => m2,
                    };
                    for c in self.dom.el_children(n) { self.bb_node(c, &st, m3, (w, h), false, None, bb)?; }
                }
                "use" => {
                    let x = self.len(n, "x", 0.0, &st, vp.0);
                    let y = self.len(n, "y", 0.0, &st, vp.1);
                    let m2 = m.mul(&M::translate(x, y));
                    let sz = (self.opt_len(n, "width", &st, vp.0), self.opt_len(n, "height", &st, vp.1));
                    if let Some(t) = href(self.dom, n).and_then(|h| h.strip_prefix('#')).and_then(|id| self.ids.get(id).cloned()) {
                        self.bb_node(t, &st, m2, vp, false, Some(sz), bb)?;
                    }
                }
                "text" | "foreignObject" => bb.unknown = true,
                "image" => {
                    let x = self.len(n, "x", 0.0, &st, vp.0);
                    let y = self.len(n, "y", 0.0, &st, vp.1);
                    match (self.opt_len(n, "width", &st, vp.0), self.opt_len(n, "height", &st, vp.1)) {
                        (Some(w), Some(h)) => for p in [(x, y), (x + w, y), (x, y + h), (x + w, y + h)] { bb.add(m.apply(p)); },
                        _ => bb.unknown = true,
                    }
                }
                s if SHAPES.contains(&s) => {
                    let g = self.geom(n, &st, vp)?;
                    let mut pts = vec![];
                    for s in &g { if s.segs.iter().all(|k| k.is_point()) { continue; } for k in &s.segs { k.map(&m).extrema(&mut pts); } }
                    let mut b = BB::new();
                    for p in pts { b.add(p); }
                    bb.join(&b);
                }
                _ => {}
            }
        }
        self.depth -= 1;
        Ok(())
    }

    // ---- geometry -----------------------------------------------------------

    fn geom(&self, n: usize, st: &Style, vp: VP) -> Result<Vec<Sub>, String> {
        let name = local(self.dom.name(n));
        let lx = |a: &str| self.len(n, a, 0.0, st, vp.0);
        let ly = |a: &str| self.len(n, a, 0.0, st, vp.1);
        let ld = |a: &str| self.len(n, a, 0.0, st, Self::diag(vp));
        Ok(match name {
            "rect" => {
                let (x, y, w, h) = (lx("x"), ly("y"), lx("width"), ly("height"));
                if w <= 0.0 || h <= 0.0 { return Ok(vec![]); }
                let rx = self.opt_len(n, "rx", st, vp.0).filter(|v| *v >= 0.0);
                let ry = self.opt_len(n, "ry", st, vp.1).filter(|v| *v >= 0.0);
                let (rx, ry) = match (rx, ry) { (None, None) => (0.0, 0.0), (Some(a), None) => (a, a), (None, Some(b)) => (b, b), (Some(a), Some(b)) => (a, b) };
                let (rx, ry) = (rx.min(w / 2.0), ry.min(h / 2.0));
                if rx <= 0.0 || ry <= 0.0 {
                    let p = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)];
                    vec![poly(&p, true)]
                } else {
                    let mut segs = vec![];
                    let q = std::f64::consts::FRAC_PI_2;
                    let corner = |cx: f64, cy: f64, a0: f64, segs: &mut Vec<Seg>| {
                        let f = |a: f64| (cx + rx * a.cos(), cy + ry * a.sin());
                        segs.push(Seg::Arc { c: (cx, cy), u: (rx, 0.0), v: (0.0, ry), a0, da: q, p0: f(a0), p1: f(a0 + q) });
                    };
                    segs.push(Seg::Line((x + rx, y), (x + w - rx, y)));
                    corner(x + w - rx, y + ry, -q, &mut segs);
                    segs.push(Seg::Line((x + w, y + ry), (x + w, y + h - ry)));
                    corner(x + w - rx, y + h - ry, 0.0, &mut segs);
                    segs.push(Seg::Line((x + w - rx, y + h), (x + rx, y + h)));
                    corner(x + rx, y + h - ry, q, &mut segs);
                    segs.push(Seg::Line((x, y + h - ry), (x, y + ry)));
                    corner(x + rx, y + ry, 2.0 * q, &mut segs);
                    vec![Sub { start: (x + rx, y), segs, closed: true }]
                }
            }
            "circle" | "ellipse" => {
                let (cx, cy) = (lx("cx"), ly("cy"));
                let (rx, ry) = if name == "circle" { let r = ld("r"); (r, r) } else { (lx("rx"), ly("ry")) };
                if rx <= 0.0 || ry <= 0.0 { return Ok(vec![]); }
                let q = std::f64::consts::FRAC_PI_2;
                let f = |a: f64| (cx + rx * a.cos(), cy + ry * a.sin());
                let mut segs = vec![];
                for k in 0..4 {
                    let a0 = k as f64 * q;
                    segs.push(Seg::Arc { c: (cx, cy), u: (rx, 0.0), v: (0.0, ry), a0, da: q, p0: f(a0), p1: f(a0 + q) });
                }
                vec![Sub { start: f(0.0), segs, closed: true }]
            }
            "line" => vec![poly(&[(lx("x1"), ly("y1")), (lx("x2"), ly("y2"))], false)],
            "polyline" | "polygon" => {
                let t = self.dom.attr(n, "points").unwrap_or("");
                let v = point_numbers(t);
                let pts: Vec<Pt> = v.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1])).collect();
                if pts.is_empty() { return Ok(vec![]); }
                vec![poly(&pts, name == "polygon")]
            }
            "path" => {
                let d = self.dom.attr(n, "d").unwrap_or("");
                if d.trim() == "none" { return Ok(vec![]); }
                let (raw, _ok) = path_raw(d);
                path_geom(&raw)
            }
            _ => vec![],
        })
    }

    fn shape(&mut self, n: usize, st: &Style, m: M, vp: VP) -> Result<Option<ShapeD>, String> {
        if st.get("visibility") != "visible" { return Ok(None); }
        let g = self.geom(n, st, vp)?;
        if g.iter().all(|s| s.segs.is_empty() && !s.closed) { return Ok(None); }
        let name = local(self.dom.name(n)).to_string();
        let mut bb = BB::new();
        self.bb_geom(&g, &mut bb);
        let dev: Vec<Sub> = map_subs(&g, &m);
        let fill = if flat(&dev) { DPaint::None } else { self.paint(st, "fill", &bb, m, vp)? };
        let stroke = self.stroke(n, st, &bb, m, vp)?;
        let mut markers = vec![];
        if ["path", "line", "polyline", "polygon"].contains(&name.as_str()) {
            self.markers(&g, st, m, vp, &mut markers)?;
        }
        if matches!(fill, DPaint::None) && stroke.is_none() && markers.is_empty() { return Ok(None); }
        let mut misc = vec![];
        for p in ["shape-rendering"] { misc.push((p.to_string(), st.get(p).to_string())); }
        let rule = if matches!(fill, DPaint::None) { String::new() } else { st.get("fill-rule").to_string() };
        let src = format!("<{}{}>", name, self.dom.attr(n, "id").map(|i| format!(" id={}", i)).unwrap_or_default());
        Ok(Some(ShapeD { path: dev, rule, fill, stroke, markers, misc, src }))
    }

    fn bb_geom(&self, g: &[Sub], bb: &mut BB) {
        let mut pts = vec![];
        for s in g { if s.segs.iter().all(|k| k.is_point()) { continue; } for k in &s.segs { k.extrema(&mut pts); } }
        for p in pts { bb.add(p); }
    }

    fn stroke(&mut self, n: usize, st: &Style, bb: &BB, m: M, vp: VP) -> Result<Option<StrokeD>, String> {
        let w = match length(st.get("stroke-width")) { Some(l) => self.res(l, st, Self::diag(vp)), None => 1.0 };
        if w <= 0.0 { return Ok(None); }
        let paint = self.paint(st, "stroke", bb, m, vp)?;
        if matches!(paint, DPaint::None) { return Ok(None); }
        let w2 = w * w;
        let pen = [w2 * (m.a * m.a + m.c * m.c), w2 * (m.a * m.b + m.c * m.d), w2 * (m.b * m.b + m.d * m.d)];
        let mut dash: Vec<f64> = vec![];
        if let Some(v) = lengths(st.get("stroke-dasharray")) {
            dash = v.iter().map(|l| self.res(*l, st, Self::diag(vp)) / w).collect();
        }
        if dash.iter().any(|x| *x < 0.0) || dash.iter().sum::<f64>() <= 0.0 { dash.clear(); }
        if dash.len() % 2 == 1 { let d2 = dash.clone(); dash.extend(d2); }
        let off = match length(st.get("stroke-dashoffset")) { Some(l) => self.res(l, st, Self::diag(vp)) / w, None => 0.0 };
        let path_length = if dash.is_empty() { None } else { self.dom.attr(n, "pathLength").and_then(number) };
        let join = st.get("stroke-linejoin").to_string();
        Ok(Some(StrokeD {
            paint, pen,
            cap: st.get("stroke-linecap").to_string(),
            miter: if join == "miter" { st.num("stroke-miterlimit", 4.0) } else { 0.0 },
            join,
            dashoff: if dash.is_empty() { 0.0 } else { off },
            dash,
            path_length,
        }))
    }

    // ---- paint ----------------------------------------------------------------

    fn paint(&mut self, st: &Style, which: &str, bb: &BB, m: M, vp: VP) -> Result<DPaint, String> {
        let op = st.num(if which == "fill" { "fill-opacity" } else { "stroke-opacity" }, 1.0).max(0.0).min(1.0);
        if op <= 0.0 { return Ok(DPaint::None); }
        let p = paint(st.get(which)).unwrap_or(Paint::None);
        self.paint_p(&p, op, st, bb, m, vp)
    }

    fn paint_p(&mut self, p: &Paint, op: f64, st: &Style, bb: &BB, m: M, vp: VP) -> Result<DPaint, String> {
        match *p {
            Paint::None | Paint::CurrentColor => Ok(DPaint::None),
            Paint::Color(rgb) => Ok(DPaint::Color { rgb, a: op }),
            Paint::Url(ref id, ref fb) => {
                if let Some(s) = self.ids.get(id).cloned() {
                    let nm = local(self.dom.name(s)).to_string();
                    let r = match nm.as_str() {
                        "linearGradient" | "radialGradient" => Some(self.gradient(s, &nm, op, bb, m, vp)?),
                        "pattern" => Some(self.pattern(s, op, bb, m, vp)?),
                        _ => None,
                    };
                    match r {
                        Some(Some(x)) => return Ok(x),
                        Some(None) => {
                            // objectBoundingBox units on a box without area: the fallback, or nothing
                            return match fb { Some(f) => self.paint_p(f, op, st, bb, m, vp), None => Ok(DPaint::None) };
                        }
                        None => {}
                    }
                }
                match fb { Some(f) => self.paint_p(f, op, st, bb, m, vp), None => Ok(DPaint::None) }
            }
        }
    }

    fn chain(&self, s: usize, kinds: &[&str]) -> Vec<usize> {
        let mut v = vec![s];
        let mut c = s;
        while let Some(t) = href(self.dom, c).and_then(|h| h.strip_prefix('#')).and_then(|id| self.ids.get(id).cloned()) {
            if v.contains(&t) || !kinds.contains(&local(self.dom.name(t))) { break; }
            v.push(t);
            c = t;
        }
        v
    }

    fn stops(&self, chain: &[usize], op: f64) -> Vec<StopD> {
        for &g in chain {
            let kids: Vec<usize> = self.dom.el_children(g).into_iter().filter(|&k| local(self.dom.name(k)) == "stop").collect();
            if kids.is_empty() { continue; }
            let mut out: Vec<StopD> = vec![];
            let mut prev: f64 = 0.0;
            for k in kids {
                let st = self.dom_style(k);
                let off = match self.dom.attr(k, "offset").and_then(length) {
                    Some(Len(v, Unit::Percent)) => v / 100.0,
                    Some(Len(v, Unit::None)) => v,
                    _ => 0.0,
                };
                let off = off.max(0.0).min(1.0).max(prev);
                prev = off;
                let rgb = color(st.get("stop-color")).unwrap_or(0);
                let a = st.num("stop-opacity", 1.0).max(0.0).min(1.0) * op;
                out.push(StopD { off, rgb, a });
            }
            return out;
        }
        vec![]
    }

    /// None: paint server not applicable (empty bounding box).
    fn gradient(&mut self, s: usize, nm: &str, op: f64, bb: &BB, m: M, vp: VP) -> Result<Option<DPaint>, String> {
        self.stats.gradients += 1;
        let ch = self.chain(s, &["linearGradient", "radialGradient"]);
        let stops = self.stops(&ch, op);
        if stops.is_empty() { return Ok(Some(DPaint::None)); }
        let same: Vec<usize> = ch.iter().cloned().filter(|&g| local(self.dom.name(g)) == nm).collect();
        let look = |a: &str, same_kind: bool| -> Option<(usize, String)> {
            let set = if same_kind { &same } else { &ch };
            set.iter().filter_map(|&g| self.dom.attr(g, a).map(|v| (g, v.to_string()))).next()
        };
        let units = look("gradientUnits", false).map(|v| v.1).unwrap_or_else(|| "objectBoundingBox".into());
        let spread = look("spreadMethod", false).map(|v| v.1).unwrap_or_else(|| "pad".into());
        let gt = match look("gradientTransform", false) { Some((_, t)) => transform(&t).ok_or("bad gradientTransform")?, None => M::ID };
        let obb = units != "userSpaceOnUse";
        let solid = stops.iter().all(|x| x.rgb == stops[0].rgb && (x.a - stops[0].a).abs() < 1e-9);
        let last = stops.last().unwrap().clone();
        let solid_paint = |s: &StopD| if s.a <= 0.0 { DPaint::None } else { DPaint::Color { rgb: s.rgb, a: s.a } };
        // a gradient of a single colour is the colour, even for an empty bounding box
        if solid { return Ok(Some(solid_paint(&last))); }
        let bm = if obb {
            // a nominal box stands for the box of a text, which is never changed by the cleaner
            if bb.unknown { M::ID } else { match bb.matrix() { Some(x) => x, None => return Ok(None) } }
        } else { M::ID };
        if stops.iter().all(|x| x.a <= 0.0) { return Ok(Some(DPaint::None)); }
        let st = self.dom_style(s);
        let interp = st.get("color-interpolation").to_string();
        let t = m.mul(&bm).mul(&gt);
        let base: VP = if obb { (1.0, 1.0) } else { vp };
        let coord = |a: &str, def: f64, b: f64| -> f64 {
            match look(a, true).and_then(|(_, v)| length(&v)) { Some(l) => self.res(l, &st, b), None => def * b }
        };
        if nm == "linearGradient" {
            let (x1, y1, x2, y2) = (coord("x1", 0.0, base.0), coord("y1", 0.0, base.1), coord("x2", 1.0, base.0), coord("y2", 0.0, base.1));
            let (dx, dy) = (x2 - x1, y2 - y1);
            let l2 = dx * dx + dy * dy;
            if l2 < 1e-18 { return Ok(Some(solid_paint(&last))); }
            let iv = match t.inv() { Some(i) => i, None => return Ok(Some(DPaint::None)) };
            // t(p) = ((iv p) - (x1,y1)) . (dx,dy) / l2
            let f = [(iv.a * dx + iv.b * dy) / l2, (iv.c * dx + iv.d * dy) / l2, ((iv.e - x1) * dx + (iv.f - y1) * dy) / l2];
            Ok(Some(DPaint::Linear { f, spread, stops: norm_stops(stops), interp }))
        } else {
            let cx = coord("cx", 0.5, base.0);
            let cy = coord("cy", 0.5, base.1);
            let r = coord("r", 0.5, Self::diag(base));
            if r <= 0.0 { return Ok(Some(solid_paint(&last))); }
            let mut fx = match look("fx", true) { Some(_) => coord("fx", 0.5, base.0), None => cx };
            let mut fy = match look("fy", true) { Some(_) => coord("fy", 0.5, base.1), None => cy };
            let d = ((fx - cx).powi(2) + (fy - cy).powi(2)).sqrt();
            if d > r { fx = cx + (fx - cx) * r / d; fy = cy + (fy - cy) * r / d; }
            if t.inv().is_none() { return Ok(Some(DPaint::None)); }
            let r2 = r * r;
            let pen = [r2 * (t.a * t.a + t.c * t.c), r2 * (t.a * t.b + t.c * t.d), r2 * (t.b * t.b + t.d * t.d)];
            Ok(Some(DPaint::Radial { c: t.apply((cx, cy)), pen, focal: t.apply((fx, fy)), spread, stops: norm_stops(stops), interp }))
        }
    }

    fn pattern(&mut self, s: usize, op: f64, bb: &BB, m: M, vp: VP) -> Result<Option<DPaint>, String> {
        self.stats.patterns += 1;
        let ch = self.chain(s, &["pattern"]);
        let look = |a: &str| -> Option<String> { ch.iter().filter_map(|&g| self.dom.attr(g, a).map(|v| v.to_string())).next() };
        let obb = look("patternUnits").map(|v| v != "userSpaceOnUse").unwrap_or(true);
        let vb = look("viewBox").and_then(|v| numbers(&v)).filter(|v| v.len() == 4);
        let cobb = vb.is_none() && look("patternContentUnits").map(|v| v == "objectBoundingBox").unwrap_or(false);
        let bm = if (obb || cobb) && bb.unknown { Some(M::ID) } else if obb || cobb { match bb.matrix() { Some(x) => Some(x), None => return Ok(None) } } else { None };
        let pt = match look("patternTransform") { Some(t) => transform(&t).ok_or("bad patternTransform")?, None => M::ID };
        let base: VP = if obb { (1.0, 1.0) } else { vp };
        let st = self.dom_style(s);
        let coord = |a: &str, b: f64| -> f64 { match look(a).and_then(|v| length(&v)) { Some(l) => self.res(l, &st, b), None => 0.0 } };
        let (mut x, mut y, mut w, mut h) = (coord("x", base.0), coord("y", base.1), coord("width", base.0), coord("height", base.1));
        if obb { let b = bm.unwrap(); let o = b.apply((x, y)); x = o.0; y = o.1; w *= b.a; h *= b.d; }
        if w <= 0.0 || h <= 0.0 { return Ok(Some(DPaint::None)); }
        let t = m.mul(&pt);
        let tile = quad(&t, x, y, w, h);
        let mut cm = t.mul(&M::translate(x, y));
        if let Some(v) = &vb { if v[2] <= 0.0 || v[3] <= 0.0 { return Ok(Some(DPaint::None)); } cm = cm.mul(&view_box(v, w, h, look("preserveAspectRatio").as_deref())); }
        else if cobb { let b = bm.unwrap(); cm = cm.mul(&M::scale(b.a, b.d)); }
        let owner = ch.iter().cloned().find(|&g| !self.primitives(g).is_empty());
        let mut items = vec![];
        if let Some(o) = owner {
            let st = self.dom_style(o);
            let v2 = match &vb { Some(v) => (v[2], v[3]), None => vp };
            if self.patterns.contains(&o) { return Err("recursion".into()); }
            self.patterns.push(o);
            self.depth += 1;
            if self.depth > 60 { return Err("recursion".into()); }
            self.children(o, &st, cm, v2, &mut items)?;
            self.depth -= 1;
            self.patterns.pop();
        }
        if items.is_empty() { return Ok(Some(DPaint::None)); }
        Ok(Some(DPaint::Pattern { tile, clip: self.overflow_clips(&st), a: op, items }))
    }

    // ---- clip, mask, filter, marker ---------------------------------------------

    fn clip(&mut self, c: usize, m: M, bb: &BB, vp: VP) -> Result<ClipD, String> {
        self.depth += 1;
        if self.depth > 60 { return Err("recursion".into()); }
        let mut sym = String::new();
        let obb = self.dom.attr(c, "clipPathUnits") == Some("objectBoundingBox");
        let mut cm = m;
        if obb {
            match bb.matrix() {
                _ if bb.unknown => sym = "text-bbox".into(),
                Some(b) => cm = cm.mul(&b),
                None => sym = "empty-bbox".into(),
            }
        }
        let cm = cm.mul(&self.own_tf(c)?);
        let cst = self.dom_style(c);
        let mut shapes = vec![];
        for k in self.dom.el_children(c) { self.clip_child(k, &cst, cm, vp, &mut shapes, 0)?; }
        let mut own = vec![];
        if let Some((id, _)) = url_ref(cst.get("clip-path")) {
            if let Some(t) = self.ids.get(&id).cloned() { if local(self.dom.name(t)) == "clipPath" { own.push(self.clip(t, m, bb, vp)?); } }
        }
        self.depth -= 1;
        // clipped by an empty clip path
        if own.iter().any(|c: &ClipD| c.shapes.is_empty() && c.sym.is_empty()) { shapes.clear(); }
        if shapes.is_empty() { sym.clear(); own.clear(); }
        Ok(ClipD { shapes, own, sym })
    }

    fn clip_child(&mut self, k: usize, ps: &Style, cm: M, vp: VP, shapes: &mut Vec<ClipShape>, lvl: usize) -> Result<(), String> {
        let name = local(self.dom.name(k)).to_string();
        let st = self.compute(k, ps);
        if st.get("display") == "none" { return Ok(()); }
        let m = cm.mul(&self.own_tf(k)?);
        let mut clips = vec![];
        if let Some((id, _)) = url_ref(st.get("clip-path")) {
            if let Some(t) = self.ids.get(&id).cloned() {
                if local(self.dom.name(t)) == "clipPath" { let bb = self.bbox(k, ps, vp)?; clips.push(self.clip(t, m, &bb, vp)?); }
            }
        }
        if clips.iter().any(|c: &ClipD| c.sym.is_empty() && c.shapes.is_empty()) { return Ok(()); }
        if SHAPES.contains(&name.as_str()) {
            if st.get("visibility") != "visible" { return Ok(()); }
            let g = self.geom(k, &st, vp)?;
            let dev = map_subs(&g, &m);
            if flat(&dev) { return Ok(()); }
            shapes.push(ClipShape { path: dev, rule: st.get("clip-rule").into(), text: None, clips });
        } else if name == "text" {
            let was = std::mem::replace(&mut self.in_clip, true);
            let t = self.text(k, &st, m, vp);
            self.in_clip = was;
            if let Some(t) = t? { shapes.push(ClipShape { path: vec![], rule: String::new(), text: Some(t), clips }); }
        } else if name == "use" && lvl == 0 {
            let x = self.len(k, "x", 0.0, &st, vp.0);
            let y = self.len(k, "y", 0.0, &st, vp.1);
            if let Some(t) = href(self.dom, k).and_then(|h| h.strip_prefix('#')).and_then(|id| self.ids.get(id).cloned()) {
                let st0 = shapes.len();
                self.clip_child(t, &st, m.mul(&M::translate(x, y)), vp, shapes, 1)?;
                for s in shapes[st0..].iter_mut() { s.clips.extend(clips.iter().cloned()); }
            }
        }
        Ok(())
    }

    fn region(&self, n: usize, units: &str, m: M, bb: &BB, vp: VP, sym: &mut String) -> [Pt; 3] {
        let obb = self.dom.attr(n, units) != Some("userSpaceOnUse");
        let st = self.dom_style(n);
        let base: VP = if obb { (1.0, 1.0) } else { vp };
        let g = |a: &str, d: f64, b: f64| self.len(n, a, d * b, &st, b);
        let (x, y, w, h) = (g("x", -0.1, base.0), g("y", -0.1, base.1), g("width", 1.2, base.0), g("height", 1.2, base.1));
        let mut t = m;
        if obb {
            match bb.matrix() {
                _ if bb.unknown => { *sym = "text-bbox".into(); t = M::ID; }
                Some(b) => t = t.mul(&b),
                None => { *sym = "empty-bbox".into(); t = M::ID; }
            }
        }
        if w <= 0.0 || h <= 0.0 { sym.push_str(" empty-region"); }
        quad(&t, x, y, w, h)
    }

    fn mask(&mut self, c: usize, m: M, bb: &BB, vp: VP) -> Result<MaskD, String> {
        self.depth += 1;
        if self.depth > 60 { return Err("recursion".into()); }
        let mut sym = String::new();
        let region = self.region(c, "maskUnits", m, bb, vp, &mut sym);
        let mut cm = m;
        if self.dom.attr(c, "maskContentUnits") == Some("objectBoundingBox") {
            match bb.matrix() {
                _ if bb.unknown => sym.push_str("text-bbox-content"),
                Some(b) => cm = cm.mul(&b),
                None => sym.push_str("empty-bbox-content"),
            }
        }
        let st = self.dom_style(c);
        if st.get("color-interpolation") == "linearRGB" { sym.push_str("linearRGB"); }
        let mut items = vec![];
        self.children(c, &st, cm, vp, &mut items)?;
        // effects on the mask element itself (clip-path, mask)
        let mut own = vec![];
        self.wrap_mask_self(c, &st, m, bb, vp, items, &mut own)?;
        self.depth -= 1;
        Ok(MaskD { region, sym, items: own })
    }

    fn wrap_mask_self(&mut self, c: usize, st: &Style, m: M, bb: &BB, vp: VP, inner: Vec<Item>, out: &mut Vec<Item>) -> Result<(), String> {
        let mut stages = vec![];
        let mut clips = vec![];
        let mut masks = vec![];
        if let Some((id, _)) = url_ref(st.get("clip-path")) {
            if let Some(t) = self.ids.get(&id).cloned() { if local(self.dom.name(t)) == "clipPath" { clips.push(self.clip(t, m, bb, vp)?); } }
        }
        if let Some((id, _)) = url_ref(st.get("mask")) {
            if let Some(t) = self.ids.get(&id).cloned() { if t != c && local(self.dom.name(t)) == "mask" { masks.push(self.mask(t, m, bb, vp)?); } }
        }
        if !clips.is_empty() || !masks.is_empty() { stages.push(Stage::Mult { op: 1.0, clips, masks }); }
        push_group(stages, inner, out);
        Ok(())
    }

    fn primitives(&self, f: usize) -> Vec<usize> {
        self.dom.el_children(f).into_iter().filter(|&k| !["title", "desc", "metadata", "animate", "set"].contains(&local(self.dom.name(k)))).collect()
    }

    fn filter(&mut self, f: usize, m: M, bb: &BB, vp: VP) -> Result<FilterD, String> {
        // href chain on filters is legal in SVG 1.1
        let ch = self.chain(f, &["filter"]);
        let own = ch.iter().cloned().find(|&g| !self.primitives(g).is_empty()).unwrap_or(f);
        let mut sym = String::new();
        let region = self.region(f, "filterUnits", m, bb, vp, &mut sym);
        let pobb = self.dom.attr(f, "primitiveUnits") == Some("objectBoundingBox");
        let mut prims = vec![];
        for k in self.primitives(own) { prims.push(self.prim(k)); }
        for a in ["filterRes"] { if let Some(v) = self.dom.attr(f, a) { sym.push_str(&format!(" {}={}", a, norm_list(v))); } }
        if ch.len() > 1 { sym.push_str(&format!(" chain{}", ch.len())); }
        let bbm = if pobb { bb.matrix().map(|b| quad(&m.mul(&b), 0.0, 0.0, 1.0, 1.0)) } else { None };
        Ok(FilterD { region, lin: [m.a, m.b, m.c, m.d], bbox: bbm, prims, sym })
    }

    /// The only primitive is an identity matrix of the source graphic.
    fn identity_filter(&self, f: usize) -> bool {
        let k = self.primitives(f);
        k.len() == 1 && local(self.dom.name(k[0])) == "feColorMatrix"
            && self.dom.attr(k[0], "type").unwrap_or("matrix") == "matrix"
            && matches!(self.dom.attr(k[0], "in"), None | Some("SourceGraphic"))
            && self.dom.attr(k[0], "values").and_then(numbers).map(|v| v == [1., 0., 0., 0., 0., 0., 1., 0., 0., 0., 0., 0., 1., 0., 0., 0., 0., 0., 1., 0.]).unwrap_or(true)
            && ["x", "y", "width", "height"].iter().all(|a| self.dom.attr(k[0], a).is_none())
            // the default region can be written explicitly
            && [("x", "-10%", "-0.1"), ("y", "-10%", "-0.1"), ("width", "120%", "1.2"), ("height", "120%", "1.2")].iter().all(|q| match self.dom.attr(f, q.0) {
                None => true,
                Some(v) => match length(v) {
                    Some(l) if l.1 == Unit::Percent => (l.0 - number(q.1.trim_end_matches('%')).unwrap()).abs() < 1e-6,
                    Some(l) => l.1 == Unit::None && (l.0 - number(q.2).unwrap()).abs() < 1e-6 && self.dom.attr(f, "filterUnits") != Some("userSpaceOnUse"),
                    None => false,
                },
            })
    }

    fn prim(&self, k: usize) -> Prim {
        let name = local(self.dom.name(k)).to_string();
        let st = self.dom_style(k);
        let mut attrs: Vec<(String, String)> = vec![];
        let mut nums: Vec<(String, Vec<f64>)> = vec![];
        let mut have = |n: &str, v: &str| {
            if n == "id" || n == "style" || n == "class" || pidx(n).is_some() || n.starts_with("xmlns") || n == "xml:space" { return; }
            match numbers(v) {
                Some(x) => nums.push((n.to_string(), x)),
                None => match length(v) {
                    Some(l) if l.1 == Unit::Percent => nums.push((format!("{}%", n), vec![l.0])),
                    _ => attrs.push((n.to_string(), norm_ws(v))),
                },
            }
        };
        for (n, v) in self.dom.attrs(k) { have(n, v); }
        for (n, v) in fe_defaults(&name) { if self.dom.attr(k, n).is_none() { have(n, v); } }
        // second value of optional pairs
        for (n, v) in nums.iter_mut() {
            if ["stdDeviation", "radius", "baseFrequency", "kernelUnitLength", "order"].contains(&n.as_str()) && v.len() == 1 { let x = v[0]; v.push(x); }
        }
        if name.starts_with("fe") {
            if name == "feFlood" || name == "feDropShadow" {
                attrs.push(("flood-color".into(), format!("{:?}", color(st.get("flood-color")))));
                nums.push(("flood-opacity".into(), vec![st.num("flood-opacity", 1.0)]));
            }
            if name == "feDiffuseLighting" || name == "feSpecularLighting" {
                attrs.push(("lighting-color".into(), format!("{:?}", color(st.get("lighting-color")))));
            }
            attrs.push(("cif".into(), st.get("color-interpolation-filters").into()));
        }
        attrs.sort();
        nums.sort_by(|a, b| a.0.cmp(&b.0));
        let kids = self.dom.el_children(k).into_iter().filter(|&c| local(self.dom.name(c)).starts_with("fe")).map(|c| self.prim(c)).collect();
        Prim { name, attrs, nums, kids }
    }

    fn markers(&mut self, g: &[Sub], st: &Style, m: M, vp: VP, out: &mut Vec<Item>) -> Result<(), String> {
        let get = |n: &str| url_ref(st.get(n)).and_then(|(id, _)| self.ids.get(&id).cloned()).filter(|&t| local(self.dom.name(t)) == "marker");
        let (ms, mm, me) = (get("marker-start"), get("marker-mid"), get("marker-end"));
        if ms.is_none() && mm.is_none() && me.is_none() { return Ok(()); }
        // vertices with in/out directions
        struct V { p: Pt, din: Option<Pt>, dout: Option<Pt> }
        let mut vs: Vec<V> = vec![];
        for s in g {
            let first = vs.len();
            vs.push(V { p: s.start, din: None, dout: None });
            for sg in &s.segs {
                let (d0, d1) = tangents(sg);
                vs.last_mut().unwrap().dout = d0;
                vs.push(V { p: sg.end(), din: d1, dout: None });
            }
            if s.closed && vs.len() > first + 1 {
                let din = vs.last().unwrap().din;
                let dout = vs[first].dout;
                vs[first].din = din;
                vs.last_mut().unwrap().dout = dout;
            }
        }
        let w = match length(st.get("stroke-width")) { Some(l) => self.res(l, st, Self::diag(vp)), None => 1.0 };
        let n = vs.len();
        for (i, v) in vs.iter().enumerate() {
            let mk = if i == 0 { ms } else if i + 1 == n { me } else { mm };
            if n == 1 { continue; }
            let mk = match mk { Some(k) => k, None => continue };
            let ang = match (v.din, v.dout) {
                (Some(a), Some(b)) => { let s = (a.0 + b.0, a.1 + b.1); if s.0.abs() + s.1.abs() < 1e-9 { a.1.atan2(a.0) + std::f64::consts::FRAC_PI_2 } else { s.1.atan2(s.0) } }
                (Some(a), None) | (None, Some(a)) => a.1.atan2(a.0),
                _ => 0.0,
            };
            self.marker(mk, v.p, ang, w, m, out)?;
        }
        Ok(())
    }

    fn marker(&mut self, k: usize, p: Pt, ang: f64, w: f64, m: M, out: &mut Vec<Item>) -> Result<(), String> {
        self.stats.markers += 1;
        self.depth += 1;
        if self.depth > 60 { return Err("recursion".into()); }
        let st = self.dom_style(k);
        let deg = match self.dom.attr(k, "orient") { Some("auto") => ang.to_degrees(), Some(v) => number(v).unwrap_or(0.0), None => 0.0 };
        let mut t = m.mul(&M::translate(p.0, p.1)).mul(&M::rotate(deg));
        if self.dom.attr(k, "markerUnits") != Some("userSpaceOnUse") { t = t.mul(&M::scale(w, w)); }
        let mw = self.len(k, "markerWidth", 3.0, &st, 100.0);
        let mh = self.len(k, "markerHeight", 3.0, &st, 100.0);
        let mut ok = mw > 0.0 && mh > 0.0 && w >= 0.0;
        let rx = self.len(k, "refX", 0.0, &st, 100.0);
        let ry = self.len(k, "refY", 0.0, &st, 100.0);
        let vb = self.dom.attr(k, "viewBox").and_then(numbers).filter(|v| v.len() == 4);
        let (vm, vp2) = match &vb {
            Some(v) => { if v[2] <= 0.0 || v[3] <= 0.0 { ok = false; (M::ID, (1.0, 1.0)) } else { (view_box(v, mw, mh, self.dom.attr(k, "preserveAspectRatio")), (v[2], v[3])) } }
            None => (M::ID, (mw, mh)),
        };
        if ok {
            let r = vm.apply((rx, ry));
            let t2 = t.mul(&M::translate(-r.0, -r.1));
            let mut stages = vec![];
            if self.overflow_clips(&st) { stages.push(Stage::Mult { op: 1.0, clips: vec![rect_clip(&t2, 0.0, 0.0, mw, mh)], masks: vec![] }); }
            let mut inner = vec![];
            // A marker inside its own content is not rendered recursively: bounded by depth.
            self.children(k, &st, t2.mul(&vm), vp2, &mut inner)?;
            let op = st.num("opacity", 1.0).max(0.0).min(1.0);
            if op < 1.0 { stages.push(Stage::Mult { op, clips: vec![], masks: vec![] }); }
            push_group(stages, inner, out);
        }
        self.depth -= 1;
        Ok(())
    }

    // ---- text -------------------------------------------------------------------

    fn text(&mut self, n: usize, st: &Style, m: M, vp: VP) -> Result<Option<TextD>, String> {
        let mut parts = vec![];
        let mut any = false;
        let mut sp = SpaceState { pending: false, started: false };
        self.text_rec(n, st, m, vp, &mut parts, &mut any, &mut sp, self.space_of(n))?;
        if !any { return Ok(None); }
        Ok(Some(TextD { m: m.arr(), parts: simplify_text(parts) }))
    }

    fn space_of(&self, n: usize) -> bool {
        let mut i = Some(n);
        while let Some(k) = i {
            if let Some(v) = self.dom.attr(k, "xml:space") { return v == "preserve"; }
            i = self.dom.parent(k);
        }
        false
    }

    fn text_rec(&mut self, n: usize, st: &Style, m: M, vp: VP, parts: &mut Vec<TextPart>, any: &mut bool, sp: &mut SpaceState, preserve: bool) -> Result<(), String> {
        let name = local(self.dom.name(n)).to_string();
        let mut at = vec![];
        for a in ["x", "y", "dx", "dy", "rotate", "textLength", "lengthAdjust", "startOffset", "method", "spacing"] {
            if let Some(v) = self.dom.attr(n, a) {
                let nv = match lengths(v) { Some(l) => l.iter().map(|q| format!("{:?}", Len((q.0 * 1e4).round() / 1e4 + 0.0, q.1))).collect::<Vec<_>>().join(" "), None => norm_ws(v) };
                if name == "text" && (a == "x" || a == "y") && nv == "Len(0.0, None)" { continue; }
                at.push((a.to_string(), nv));
            }
        }
        for p in ["baseline-shift", "alignment-baseline", "dominant-baseline", "unicode-bidi"] {
            // do not apply to 'text'
            if name == "text" && (p == "baseline-shift" || p == "alignment-baseline") { continue; }
            let v = st.get(p);
            if pidx(p).map(|i| PROPS[i].2 != v).unwrap_or(false) { at.push((p.into(), v.into())); }
        }
        parts.push(TextPart::Open(if name == "a" { format!("a {}", href(self.dom, n).unwrap_or("")) } else { String::new() }, at));
        if name == "tref" {
            if let Some(t) = href(self.dom, n).and_then(|h| h.strip_prefix('#')).and_then(|id| self.ids.get(id).cloned()) {
                let s = self.dom.text_of(t);
                self.push_text(&s, st, m, vp, parts, any, sp, preserve)?;
            }
        }
        if name == "textPath" {
            if let Some(t) = href(self.dom, n).and_then(|h| h.strip_prefix('#')).and_then(|id| self.ids.get(id).cloned()) {
                let ts = self.dom_style(t);
                let g = self.geom(t, &ts, vp)?;
                let tm = m.mul(&self.own_tf(t)?);
                // a text on a path without a length is not rendered
                if g.iter().all(|s| s.segs.iter().all(|k| { let mut p = vec![]; k.extrema(&mut p); p.iter().all(|q| (q.0 - p[0].0).abs() < 1e-6 && (q.1 - p[0].1).abs() < 1e-6) })) {
                    parts.push(TextPart::Close);
                    return Ok(());
                }
                // a subpath without a length takes no part
                let g: Vec<_> = g.into_iter().filter(|s| !s.segs.iter().all(|k| { let mut p = vec![]; k.extrema(&mut p); p.iter().all(|q| (q.0 - s.start.0).abs() < 1e-6 && (q.1 - s.start.1).abs() < 1e-6) })).collect();
                let mut subs = map_subs(&g, &tm);
                for s in subs.iter_mut() {
                    if s.closed {
                        let e = s.segs.last().map(|k| k.end()).unwrap_or(s.start);
                        if (e.0 - s.start.0).abs() > 1e-6 || (e.1 - s.start.1).abs() > 1e-6 { s.segs.push(Seg::Line(e, s.start)); }
                        s.closed = false;
                    }
                }
                parts.push(TextPart::Path(subs, vec![]));
            } else {
                parts.push(TextPart::Close);
                return Ok(());
            }
        }
        for &c in self.dom.children(n).to_vec().iter() {
            match self.dom.nodes[c].kind {
                Kind::Text(ref t) | Kind::CData(ref t) => { let t = t.clone(); self.push_text(&t, st, m, vp, parts, any, sp, preserve)?; }
                Kind::El { .. } => {
                    let cn = local(self.dom.name(c)).to_string();
                    if !["tspan", "tref", "textPath", "a"].contains(&cn.as_str()) { continue; }
                    let cs = self.compute(c, st);
                    if cs.get("display") == "none" { continue; }
                    let pv = match self.dom.attr(c, "xml:space") { Some(v) => v == "preserve", None => preserve };
                    self.text_rec(c, &cs, m, vp, parts, any, sp, pv)?;
                }
                _ => {}
            }
        }
        parts.push(TextPart::Close);
        Ok(())
    }

    fn push_text(&mut self, t: &str, st: &Style, m: M, vp: VP, parts: &mut Vec<TextPart>, any: &mut bool, sp: &mut SpaceState, preserve: bool) -> Result<(), String> {
        let mut s = String::new();
        for c in t.chars() {
            if preserve {
                if sp.pending && sp.started { s.push(' '); }
                sp.pending = false;
                s.push(if matches!(c, '\n' | '\t' | '\r') { ' ' } else { c });
                sp.started = true;
            } else {
                match c {
                    '\n' | '\r' => {}
                    ' ' | '\t' => { sp.pending = true; }
                    c => {
                        if sp.pending && sp.started { s.push(' '); }
                        sp.pending = false;
                        sp.started = true;
                        s.push(c);
                    }
                }
            }
        }
        if s.is_empty() { return Ok(()); }
        let bb = BB { r: None, unknown: true };
        let vis = st.get("visibility") == "visible";
        // a clipping region is the raw geometry of glyphs
        let fill = if !vis { DPaint::None } else if self.in_clip { DPaint::Color { rgb: 0, a: 1.0 } } else { self.paint(st, "fill", &bb, m, vp)? };
        let stroke = if vis && !self.in_clip { self.stroke(0, st, &bb, m, vp)? } else { None };
        if vis && (self.in_clip || !(matches!(fill, DPaint::None) && stroke.is_none())) && s.chars().any(|c| c != ' ') { *any = true; }
        let mut style = vec![];
        for p in ["text-decoration", "font-family", "font-size", "font-style", "font-variant", "font-weight", "font-stretch", "font-size-adjust",
            "letter-spacing", "word-spacing", "kerning", "text-anchor", "writing-mode", "direction", "text-rendering",
            "glyph-orientation-horizontal", "glyph-orientation-vertical"] {
            let mut v = st.get(p).to_string();
            if p == "font-size" { if let Some(l) = length(&v) { v = format!("{:.4}", l.0); } }
            else if let Some(l) = length(&v) { if p != "font-weight" { v = format!("{:.4}{:?}", l.0, l.1); } }
            style.push((p.to_string(), v.replace(['"', '\''], "")));
        }
        parts.push(TextPart::Run(RunD { text: s, style, fill, stroke, clips: String::new() }));
        Ok(())
    }
}

struct SpaceState { pending: bool, started: bool }

fn simplify_text(parts: Vec<TextPart>) -> Vec<TextPart> {
    // Drop open/close pairs that carry no layout information, then merge equal adjacent runs.
    let mut stack: Vec<bool> = vec![];
    let mut out: Vec<TextPart> = vec![];
    for p in parts {
        match p {
            TextPart::Open(ref n, ref a) => {
                let keep = !n.is_empty() || !a.is_empty();
                stack.push(keep);
                if keep { out.push(p); }
            }
            TextPart::Close => { if stack.pop().unwrap_or(false) { out.push(TextPart::Close); } }
            TextPart::Run(r) => {
                if let Some(TextPart::Run(ref mut q)) = out.last_mut() {
                    if q.style == r.style && crate::cmp::paint_eq(&q.fill, &r.fill, None, 1e-6).is_ok() && crate::cmp::stroke_eq(&q.stroke, &r.stroke, None, 1e-6).is_ok() {
                        q.text.push_str(&r.text);
                        continue;
                    }
                }
                out.push(TextPart::Run(r));
            }
            p => out.push(p),
        }
    }
    out
}

fn fe_defaults(n: &str) -> Vec<(&'static str, &'static str)> {
    match n {
        "feBlend" => vec![("mode", "normal")],
        "feColorMatrix" => vec![("type", "matrix")],
        "feComposite" => vec![("operator", "over"), ("k1", "0"), ("k2", "0"), ("k3", "0"), ("k4", "0")],
        "feConvolveMatrix" => vec![("order", "3"), ("bias", "0"), ("edgeMode", "duplicate"), ("preserveAlpha", "false")],
        "feDiffuseLighting" => vec![("surfaceScale", "1"), ("diffuseConstant", "1")],
        "feSpecularLighting" => vec![("surfaceScale", "1"), ("specularConstant", "1"), ("specularExponent", "1")],
        "feDisplacementMap" => vec![("scale", "0"), ("xChannelSelector", "A"), ("yChannelSelector", "A")],
        "feGaussianBlur" => vec![("stdDeviation", "0")],
        "feMorphology" => vec![("operator", "erode"), ("radius", "0")],
        "feOffset" => vec![("dx", "0"), ("dy", "0")],
        "feTurbulence" => vec![("baseFrequency", "0"), ("numOctaves", "1"), ("seed", "0"), ("stitchTiles", "noStitch"), ("type", "turbulence")],
        "feFuncR" | "feFuncG" | "feFuncB" | "feFuncA" => vec![("slope", "1"), ("intercept", "0"), ("amplitude", "1"), ("exponent", "1"), ("offset", "0")],
        "feDistantLight" => vec![("azimuth", "0"), ("elevation", "0")],
        "fePointLight" => vec![("x", "0"), ("y", "0"), ("z", "0")],
        "feSpotLight" => vec![("x", "0"), ("y", "0"), ("z", "0"), ("pointsAtX", "0"), ("pointsAtY", "0"), ("pointsAtZ", "0"), ("specularExponent", "1")],
        _ => vec![],
    }
}

fn tangents(s: &Seg) -> (Option<Pt>, Option<Pt>) {
    let f = |a: Pt, b: Pt| -> Option<Pt> { let d = pt_dist(a, b); if d < 1e-6 { None } else { Some(((b.0 - a.0) / d, (b.1 - a.1) / d)) } };
    match *s {
        Seg::Line(a, b) => { let d = f(a, b); (d, d) }
        Seg::Quad(a, b, c) => (f(a, b).or_else(|| f(a, c)), f(b, c).or_else(|| f(a, c))),
        Seg::Cubic(a, b, c, d) => (f(a, b).or_else(|| f(a, c)).or_else(|| f(a, d)), f(c, d).or_else(|| f(b, d)).or_else(|| f(a, d))),
        Seg::Arc { u, v, a0, da, .. } => {
            let sg = da.signum();
            let d = |a: f64| { let p = ((-u.0 * a.sin() + v.0 * a.cos()) * sg, (-u.1 * a.sin() + v.1 * a.cos()) * sg); f((0.0, 0.0), p) };
            (d(a0), d(a0 + da))
        }
    }
}

pub fn norm_stops(v: Vec<StopD>) -> Vec<StopD> {
    let mut v = v;
    if v[0].off > 0.0 { let mut s = v[0].clone(); s.off = 0.0; v.insert(0, s); }
    if v.last().unwrap().off < 1.0 { let mut s = v.last().unwrap().clone(); s.off = 1.0; v.push(s); }
    // of more than two stops at one offset only the first and last matter
    let mut out: Vec<StopD> = vec![];
    for (i, s) in v.iter().enumerate() {
        let prev_same = out.last().map(|p| (p.off - s.off).abs() < 1e-9).unwrap_or(false);
        let next_same = v.get(i + 1).map(|p| (p.off - s.off).abs() < 1e-9).unwrap_or(false);
        if prev_same && next_same { continue; }
        if let Some(p) = out.last() {
            if prev_same && p.rgb == s.rgb && (p.a - s.a).abs() < 1e-9 { continue; }
        }
        out.push(s.clone());
    }
    // At offset 0 only the last of the pair is visible inside [0,1] (the first matters for pad outside) - keep.
    // A stop on the straight line between equal-coloured neighbours carries nothing.
    let mut k = 1;
    while k + 1 < out.len() {
        let (a, b, c) = (&out[k - 1], &out[k], &out[k + 1]);
        if a.rgb == b.rgb && b.rgb == c.rgb && (a.a - b.a).abs() < 1e-9 && (b.a - c.a).abs() < 1e-9 { out.remove(k); } else { k += 1; }
    }
    out
}

fn point_numbers(t: &str) -> Vec<f64> {
    let mut s = S::new(t);
    let mut v = vec![];
    s.ws();
    while !s.end() {
        match s.number() { Some(x) => v.push(x), None => break }
        s.comma_ws();
    }
    v
}

fn poly(p: &[Pt], closed: bool) -> Sub {
    let mut segs = vec![];
    for w in p.windows(2) { segs.push(Seg::Line(w[0], w[1])); }
    if closed && p.len() > 1 && p[p.len() - 1] != p[0] { segs.push(Seg::Line(p[p.len() - 1], p[0])); }
    Sub { start: p[0], segs, closed }
}

pub fn map_subs(g: &[Sub], m: &M) -> Vec<Sub> {
    g.iter().map(|s| Sub { start: m.apply(s.start), segs: s.segs.iter().map(|k| k.map(m)).collect(), closed: s.closed }).collect()
}

/// True when no subpath encloses any area (all points on a line).
fn flat(g: &[Sub]) -> bool {
    for s in g {
        let mut pts: Vec<Pt> = vec![s.start];
        for k in &s.segs {
            match *k {
                Seg::Line(_, b) => pts.push(b),
                Seg::Quad(_, b, c) => { pts.push(b); pts.push(c); }
                Seg::Cubic(_, b, c, d) => { pts.push(b); pts.push(c); pts.push(d); }
                Seg::Arc { .. } => for q in 1..=4 { pts.push(k.at(q as f64 / 4.0)); },
            }
        }
        let a = pts[0];
        // farthest point as the direction
        let far = pts.iter().cloned().fold(a, |x, p| if pt_dist(a, p) > pt_dist(a, x) { p } else { x });
        let l = pt_dist(a, far);
        if l < 1e-9 { continue; }
        let d = ((far.0 - a.0) / l, (far.1 - a.1) / l);
        if pts.iter().any(|p| ((p.0 - a.0) * d.1 - (p.1 - a.1) * d.0).abs() > 1e-5) { return false; }
    }
    true
}

fn quad(m: &M, x: f64, y: f64, w: f64, h: f64) -> [Pt; 3] {
    [m.apply((x, y)), m.apply((x + w, y)), m.apply((x, y + h))]
}

fn rect_clip(m: &M, x: f64, y: f64, w: f64, h: f64) -> ClipD {
    let p = poly(&[(x, y), (x + w, y), (x + w, y + h), (x, y + h)], true);
    ClipD { shapes: vec![ClipShape { path: map_subs(&[p], m), rule: "nonzero".into(), text: None, clips: vec![] }], own: vec![], sym: String::new() }
}

fn norm_par(v: Option<&str>) -> String {
    let s = norm_ws(v.unwrap_or("xMidYMid meet"));
    if s.ends_with(" meet") || s.ends_with(" slice") { s } else { format!("{} meet", s) }
}

pub fn view_box(v: &[f64], w: f64, h: f64, par: Option<&str>) -> M {
    let p = norm_par(par);
    let p = p.strip_prefix("defer ").unwrap_or(&p).to_string();
    let (mut sx, mut sy) = (w / v[2], h / v[3]);
    let align = p.split(' ').next().unwrap_or("xMidYMid").to_string();
    if align != "none" {
        let s = if p.ends_with("slice") { sx.max(sy) } else { sx.min(sy) };
        sx = s;
        sy = s;
    }
    let f = |k: &str, extra: f64| if k == "Min" { 0.0 } else if k == "Max" { extra } else { extra / 2.0 };
    let (mut tx, mut ty) = (0.0, 0.0);
    if align != "none" && align.len() == 8 {
        tx = f(&align[1..4], w - v[2] * sx);
        ty = f(&align[5..8], h - v[3] * sy);
    }
    M::translate(tx, ty).mul(&M::scale(sx, sy)).mul(&M::translate(-v[0], -v[1]))
}

/// Multiplicative effects that hide everything.
fn nothing(op: f64, clips: &[ClipD], masks: &[MaskD]) -> bool {
    op <= 0.0 || clips.iter().any(|c| c.sym.is_empty() && c.shapes.is_empty()) || masks.iter().any(|m| m.items.is_empty())
}

/// Appends a group in canonical form.
pub fn push_group(stages: Vec<Stage>, inner: Vec<Item>, out: &mut Vec<Item>) {
    let mut st: Vec<Stage> = vec![];
    let mut inner = inner;
    let add = |st: &mut Vec<Stage>, s: Stage| {
        if let Stage::Mult { op, clips, masks } = s {
            if let Some(Stage::Mult { op: o2, clips: c2, masks: m2 }) = st.last_mut() {
                *o2 *= op;
                c2.extend(clips);
                m2.extend(masks);
            } else {
                st.push(Stage::Mult { op, clips, masks });
            }
        } else { st.push(s); }
    };
    if stages.is_empty() { out.append(&mut inner); return; }
    if inner.len() == 1 {
        if let Item::Group(..) = inner[0] {
            if let Item::Group(s2, i2) = inner.pop().unwrap() {
                for s in s2 { add(&mut st, s); }
                inner = i2;
            }
        }
    }
    for s in stages { add(&mut st, s); }
    // an effect that hides everything
    let hidden = st.iter().any(|s| match s {
        Stage::Mult { op, clips, masks } => nothing(*op, clips, masks),
        _ => false,
    });
    let has_filter = st.iter().any(|s| matches!(s, Stage::Filter(_)));
    if let Some(Stage::Mult { op, clips, masks }) = st.last() {
        if nothing(*op, clips, masks) { return; }
    }
    if hidden && !has_filter { return; }
    if inner.is_empty() && !has_filter { return; }
    st.retain(|s| match s { Stage::Mult { op, clips, masks } => *op < 1.0 || !clips.is_empty() || !masks.is_empty(), _ => true });
    if st.is_empty() { out.append(&mut inner); return; }
    out.push(Item::Group(st, inner));
}

//! Comparison of display lists. Every difference is reported with a path and a reason.

use crate::render::*;
use crate::values::*;

/// Absolute device-space tolerance (user units of the root).
#[derive(Clone, Copy)]
pub struct Tol { pub geo: f64, pub rel: f64, pub op: f64, pub canon: f64 }

impl Tol {
    pub const DEFAULT: Tol = Tol { geo: 1e-3, rel: 2e-5, op: 2e-6, canon: 2e-3 };
    pub fn scaled(k: f64) -> Tol { Tol { geo: 1e-3 * k, rel: 2e-5 * k, op: 2e-6 * k, canon: 2e-3 } }
}

type C = Result<(), String>;

pub fn scenes(a: &Scene, b: &Scene, t: &Tol) -> C {
    if a.header != b.header { return Err(format!("document header differs: {:?} vs {:?}", a.header, b.header)); }
    items(&a.items, &b.items, t).map_err(|e| format!("canvas{}", e))
}

pub fn items(a: &[Item], b: &[Item], t: &Tol) -> C {
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        item(x, y, t).map_err(|e| format!("/{}{}", i, e))?;
    }
    if a.len() != b.len() {
        let k = a.len().min(b.len());
        let extra = if a.len() > k { format!("missing {}", brief(&a[k])) } else { format!("extra {}", brief(&b[k])) };
        return Err(format!(": painted item count differs: {} vs {} ({})", a.len(), b.len(), extra));
    }
    Ok(())
}

pub fn brief(i: &Item) -> String {
    match i {
        Item::Group(s, k) => format!("group[{} effects, {} items: {}]", s.len(), k.len(), k.first().map(brief).unwrap_or_default()),
        Item::Shape(s) => format!("shape {} {}", s.src, s.path.first().map(|p| format!("at {:?}", p.start)).unwrap_or_default()),
        Item::Text(_) => "text".into(),
        Item::Image { .. } => "image".into(),
        Item::Foreign { .. } => "foreignObject".into(),
    }
}

fn pts(what: &str, a: &[Pt], b: &[Pt], tol: f64) -> C {
    for (p, q) in a.iter().zip(b) {
        if !(pt_dist(*p, *q) <= tol + 1e-6 * (p.0.abs() + p.1.abs())) { return Err(format!(": {} differs: {:?} vs {:?}", what, a, b)); }
    }
    Ok(())
}

fn near(a: f64, b: f64, rel: f64, abs: f64) -> bool { (a - b).abs() <= abs + rel * a.abs().max(b.abs()) || a == b }

fn item(a: &Item, b: &Item, t: &Tol) -> C {
    match (a, b) {
        (Item::Group(s1, i1), Item::Group(s2, i2)) => {
            stages(s1, s2, t)?;
            items(i1, i2, t)
        }
        (Item::Shape(x), Item::Shape(y)) => shape(x, y, t).map_err(|e| format!(" {}→{}{}", x.src, y.src, e)),
        (Item::Text(x), Item::Text(y)) => text(x, y, t).map_err(|e| format!(" text{}", e)),
        (Item::Image { quad: q1, attrs: a1, auto: u1 }, Item::Image { quad: q2, attrs: a2, auto: u2 }) => {
            pts("image rectangle", q1, q2, t.geo)?;
            if a1 != a2 || u1 != u2 { return Err(format!(": image differs: {:?} vs {:?}", a1, a2)); }
            Ok(())
        }
        (Item::Foreign { m: m1, text: t1 }, Item::Foreign { m: m2, text: t2 }) => {
            if t1 != t2 || !m1.iter().zip(m2).all(|(x, y)| near(*x, *y, 1e-5, t.geo)) { return Err(": foreignObject differs".into()); }
            Ok(())
        }
        _ => Err(format!(": kind differs: {} vs {}", brief(a), brief(b))),
    }
}

fn stages(a: &[Stage], b: &[Stage], t: &Tol) -> C {
    if a.len() != b.len() { return Err(format!(": group effects differ: {} vs {}", st_brief(a), st_brief(b))); }
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (Stage::Mult { op: o1, clips: c1, masks: m1 }, Stage::Mult { op: o2, clips: c2, masks: m2 }) => {
                if !near(*o1, *o2, 0.0, t.op) { return Err(format!(": opacity differs: {} vs {}", o1, o2)); }
                if c1.len() != c2.len() || m1.len() != m2.len() { return Err(format!(": clip/mask count differs: {} vs {}", st_brief(a), st_brief(b))); }
                // multiplicative effects commute: match as a multiset, trying the given order first
                let mut used = vec![false; c2.len()];
                for c in c1 {
                    let mut err = String::new();
                    let mut ok = false;
                    for (j, d) in c2.iter().enumerate() {
                        if used[j] { continue; }
                        match clip(c, d, t) { Ok(()) => { used[j] = true; ok = true; break; } Err(e) => if err.is_empty() { err = e } }
                    }
                    if !ok { return Err(format!(" clip-path{}", err)); }
                }
                let mut used = vec![false; m2.len()];
                for c in m1 {
                    let mut err = String::new();
                    let mut ok = false;
                    for (j, d) in m2.iter().enumerate() {
                        if used[j] { continue; }
                        match mask(c, d, t) { Ok(()) => { used[j] = true; ok = true; break; } Err(e) => if err.is_empty() { err = e } }
                    }
                    if !ok { return Err(format!(" mask{}", err)); }
                }
            }
            (Stage::Filter(x), Stage::Filter(y)) => filter(x, y, t).map_err(|e| format!(" filter{}", e))?,
            (Stage::Link(x), Stage::Link(y)) if x == y => {}
            (Stage::Sym(x), Stage::Sym(y)) if x == y => {}
            _ => return Err(format!(": group effects differ: {} vs {}", st_brief(a), st_brief(b))),
        }
    }
    Ok(())
}

fn st_brief(s: &[Stage]) -> String {
    let v: Vec<String> = s.iter().map(|s| match s {
        Stage::Mult { op, clips, masks } => format!("opacity {} clips {} masks {}", op, clips.len(), masks.len()),
        Stage::Filter(f) => format!("filter({} primitives)", f.prims.len()),
        Stage::Link(l) => format!("link {}", l),
        Stage::Sym(l) => l.clone(),
    }).collect();
    format!("[{}]", v.join("; "))
}

fn clip(a: &ClipD, b: &ClipD, t: &Tol) -> C {
    if a.sym != b.sym { return Err(format!(": '{}' vs '{}'", a.sym, b.sym)); }
    if a.shapes.len() != b.shapes.len() { return Err(format!(": clip shape count {} vs {}", a.shapes.len(), b.shapes.len())); }
    if a.own.len() != b.own.len() { return Err(": nested clip-path differs".into()); }
    for (x, y) in a.shapes.iter().zip(&b.shapes) {
        if x.rule != y.rule { return Err(format!(": clip-rule {} vs {}", x.rule, y.rule)); }
        outline(&x.path, &y.path, true, t)?;
        match (&x.text, &y.text) { (None, None) => {} (Some(p), Some(q)) => text(p, q, t)?, _ => return Err(": clip child kind".into()) }
        if x.clips.len() != y.clips.len() { return Err(": clip child clip-path differs".into()); }
        for (p, q) in x.clips.iter().zip(&y.clips) { clip(p, q, t)?; }
    }
    for (x, y) in a.own.iter().zip(&b.own) { clip(x, y, t)?; }
    Ok(())
}

fn mask(a: &MaskD, b: &MaskD, t: &Tol) -> C {
    if a.sym != b.sym { return Err(format!(": '{}' vs '{}'", a.sym, b.sym)); }
    pts("mask region", &a.region, &b.region, t.geo)?;
    items(&a.items, &b.items, t)
}

fn filter(a: &FilterD, b: &FilterD, t: &Tol) -> C {
    if a.sym != b.sym { return Err(format!(": '{}' vs '{}'", a.sym, b.sym)); }
    pts("filter region", &a.region, &b.region, t.geo)?;
    if !a.lin.iter().zip(&b.lin).all(|(x, y)| near(*x, *y, 1e-5, 1e-6)) { return Err(format!(": filter user space differs: {:?} vs {:?}", a.lin, b.lin)); }
    if a.bbox.is_some() != b.bbox.is_some() { return Err(": primitiveUnits differ".into()); }
    if let (Some(x), Some(y)) = (&a.bbox, &b.bbox) { pts("filter bbox", x, y, t.geo)?; }
    prims(&a.prims, &b.prims)
}

fn prims(a: &[Prim], b: &[Prim]) -> C {
    if a.len() != b.len() { return Err(format!(": primitive count {} vs {}", a.len(), b.len())); }
    for (x, y) in a.iter().zip(b) {
        if x.name != y.name { return Err(format!(": primitive {} vs {}", x.name, y.name)); }
        if x.attrs != y.attrs { return Err(format!(": {} attributes {:?} vs {:?}", x.name, x.attrs, y.attrs)); }
        if x.nums.len() != y.nums.len() { return Err(format!(": {} values {:?} vs {:?}", x.name, x.nums, y.nums)); }
        for (p, q) in x.nums.iter().zip(&y.nums) {
            if p.0 != q.0 || p.1.len() != q.1.len() || !p.1.iter().zip(&q.1).all(|(u, v)| near(*u, *v, 1e-5, 2e-6)) {
                return Err(format!(": {} values {:?} vs {:?}", x.name, p, q));
            }
        }
        prims(&x.kids, &y.kids)?;
    }
    Ok(())
}

fn shape(a: &ShapeD, b: &ShapeD, t: &Tol) -> C {
    let bbox = dev_bbox(&a.path);
    paint_eq_t(&a.fill, &b.fill, Some(bbox), t).map_err(|e| format!(" fill{}", e))?;
    stroke_eq_t(&a.stroke, &b.stroke, Some(bbox), t).map_err(|e| format!(" stroke{}", e))?;
    if !matches!(a.fill, DPaint::None) {
        let single_ring_rule_free = false;
        if a.rule != b.rule && !single_ring_rule_free { return Err(format!(": fill-rule {} vs {}", a.rule, b.rule)); }
        outline(&a.path, &b.path, true, t).map_err(|e| format!(" fill outline{}", e))?;
    }
    if let Some(ref s) = a.stroke {
        stroke_outline(&a.path, &b.path, s, t).map_err(|e| format!(" stroke outline{}", e))?;
    }
    if a.misc != b.misc { return Err(format!(": {:?} vs {:?}", a.misc, b.misc)); }
    items(&a.markers, &b.markers, t).map_err(|e| format!(" markers{}", e))
}

pub fn dev_bbox(p: &[Sub]) -> (f64, f64, f64, f64) {
    let mut v = vec![];
    for s in p { v.push(s.start); for k in &s.segs { k.extrema(&mut v); } }
    if v.is_empty() { return (0.0, 0.0, 0.0, 0.0); }
    let mut r = (f64::MAX, f64::MAX, f64::MIN, f64::MIN);
    for p in v { r = (r.0.min(p.0), r.1.min(p.1), r.2.max(p.0), r.3.max(p.1)); }
    r
}

fn outline(a: &[Sub], b: &[Sub], fill: bool, t: &Tol) -> C {
    let x = canon(a, t.canon, fill);
    let y = canon(b, t.canon, fill);
    subs(&x, &y, t, fill)
}

fn stroke_outline(a: &[Sub], b: &[Sub], s: &StrokeD, t: &Tol) -> C {
    let mut x = canon(a, t.canon, false);
    let mut y = canon(b, t.canon, false);
    if s.cap == "butt" || s.cap.is_empty() {
        x.retain(|s| !s.segs.is_empty());
        y.retain(|s| !s.segs.is_empty());
    }
    subs(&x, &y, t, false)
}

fn subs(x: &[Sub], y: &[Sub], t: &Tol, fill: bool) -> C {
    if x.len() != y.len() { return Err(format!(": subpath count {} vs {}", x.len(), y.len())); }
    for (i, (p, q)) in x.iter().zip(y).enumerate() {
        if !fill && p.closed != q.closed { return Err(format!(": subpath {} closed {} vs {}", i, p.closed, q.closed)); }
        let sc = t.geo + t.rel * extent(p);
        if pt_dist(p.start, q.start) > sc { return Err(format!(": subpath {} starts at {:?} vs {:?}", i, p.start, q.start)); }
        if p.segs.len() != q.segs.len() {
            // different segmentation: compare the traced curves point by point
            trace_eq(p, q, sc).map_err(|e| format!(": subpath {} has {} vs {} segments: {}", i, p.segs.len(), q.segs.len(), e))?;
            continue;
        }
        for (k, (s, u)) in p.segs.iter().zip(&q.segs).enumerate() {
            seg_eq(s, u, sc).map_err(|e| format!(": subpath {} segment {}: {}", i, k, e))?;
        }
    }
    Ok(())
}

fn extent(s: &Sub) -> f64 {
    let mut m: f64 = s.start.0.abs().max(s.start.1.abs());
    for k in &s.segs { let e = k.end(); m = m.max(e.0.abs()).max(e.1.abs()); }
    m
}

fn seg_eq(a: &Seg, b: &Seg, tol: f64) -> C {
    for k in 0..=8 {
        let t = k as f64 / 8.0;
        let (p, q) = (a.at(t), b.at(t));
        if !(pt_dist(p, q) <= tol) {
            let line_mix = matches!(a, Seg::Line(..)) != matches!(b, Seg::Line(..));
            if line_mix {
                let x = Sub { start: a.start(), segs: vec![a.clone()], closed: false };
                let y = Sub { start: b.start(), segs: vec![b.clone()], closed: false };
                return trace_eq(&x, &y, tol);
            }
            return Err(format!("{:?} vs {:?} (at t={} {:?} vs {:?})", a, b, t, p, q));
        }
    }
    Ok(())
}

/// Both curves sampled densely; every sample must lie near the other polyline, in order.
fn trace_eq(a: &Sub, b: &Sub, tol: f64) -> C {
    fn samples(s: &Sub) -> Vec<Pt> {
        let mut v = vec![s.start];
        for k in &s.segs {
            let n = if matches!(k, Seg::Line(..)) { 4 } else { 64 };
            for i in 1..=n { v.push(k.at(i as f64 / n as f64)); }
        }
        v
    }
    fn seg_d(p: Pt, a: Pt, b: Pt) -> f64 {
        let l2 = (b.0 - a.0).powi(2) + (b.1 - a.1).powi(2);
        if l2 == 0.0 { return pt_dist(p, a); }
        let t = (((p.0 - a.0) * (b.0 - a.0) + (p.1 - a.1) * (b.1 - a.1)) / l2).max(0.0).min(1.0);
        pt_dist(p, (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t))
    }
    let (x, y) = (samples(a), samples(b));
    if x.len() < 2 || y.len() < 2 { return Err("empty subpath".into()); }
    // chord error of 64 samples on curves: allow it explicitly
    let curve = a.segs.iter().chain(&b.segs).any(|k| !matches!(k, Seg::Line(..)));
    let tol = if curve { tol + 5e-4 * extent_len(&x).max(extent_len(&y)) } else { tol };
    for (u, v) in [(&x, &y), (&y, &x)] {
        let mut j = 0;
        for p in u.iter() {
            let mut best = (f64::MAX, j);
            for k in j..v.len() - 1 {
                let d = seg_d(*p, v[k], v[k + 1]);
                if d < best.0 - 1e-12 { best = (d, k); }
                if d <= tol { best = (d, k); break; }
            }
            if best.0 > tol { return Err(format!("point {:?} is {} away from the other outline", p, best.0)); }
            j = best.1;
        }
        if pt_dist(u[u.len() - 1], v[v.len() - 1]) > tol { return Err("end points differ".into()); }
    }
    Ok(())
}

fn extent_len(v: &[Pt]) -> f64 {
    let mut l = 0.0;
    for w in v.windows(2) { l += pt_dist(w[0], w[1]); }
    l
}

pub fn paint_eq(a: &DPaint, b: &DPaint, bbox: Option<(f64, f64, f64, f64)>, _t: f64) -> C { paint_eq_t(a, b, bbox, &Tol::DEFAULT) }
pub fn stroke_eq(a: &Option<StrokeD>, b: &Option<StrokeD>, bbox: Option<(f64, f64, f64, f64)>, _t: f64) -> C { stroke_eq_t(a, b, bbox, &Tol::DEFAULT) }

fn stops_eq(a: &[StopD], b: &[StopD], t: &Tol) -> C {
    if a.len() != b.len() { return Err(format!(": stop count {} vs {}: {:?} vs {:?}", a.len(), b.len(), a, b)); }
    for (x, y) in a.iter().zip(b) {
        if x.rgb != y.rgb || !near(x.a, y.a, 0.0, t.op * 4.0) || !near(x.off, y.off, 0.0, t.op * 4.0) { return Err(format!(": stops {:?} vs {:?}", a, b)); }
    }
    Ok(())
}

pub fn paint_eq_t(a: &DPaint, b: &DPaint, bbox: Option<(f64, f64, f64, f64)>, t: &Tol) -> C {
    match (a, b) {
        (DPaint::None, DPaint::None) => Ok(()),
        (DPaint::Color { rgb: r1, a: a1 }, DPaint::Color { rgb: r2, a: a2 }) => {
            if r1 != r2 || !near(*a1, *a2, 0.0, t.op * 2.0) { return Err(format!(": #{:06x}/{} vs #{:06x}/{}", r1, a1, r2, a2)); }
            Ok(())
        }
        (DPaint::Linear { f: f1, spread: s1, stops: p1, interp: i1 }, DPaint::Linear { f: f2, spread: s2, stops: p2, interp: i2 }) => {
            if s1 != s2 || i1 != i2 { return Err(format!(": gradient {}/{} vs {}/{}", s1, i1, s2, i2)); }
            stops_eq(p1, p2, t)?;
            let bb = bbox.unwrap_or((0.0, 0.0, 100.0, 100.0));
            for p in [(bb.0, bb.1), (bb.2, bb.1), (bb.0, bb.3), (bb.2, bb.3)] {
                let v = |f: &[f64; 3]| f[0] * p.0 + f[1] * p.1 + f[2];
                let (x, y) = (v(f1), v(f2));
                if !near(x, y, t.rel * 10.0, t.geo) { return Err(format!(": gradient parameter at {:?}: {} vs {}", p, x, y)); }
            }
            Ok(())
        }
        (DPaint::Radial { c: c1, pen: n1, focal: f1, spread: s1, stops: p1, interp: i1 }, DPaint::Radial { c: c2, pen: n2, focal: f2, spread: s2, stops: p2, interp: i2 }) => {
            if s1 != s2 || i1 != i2 { return Err(format!(": gradient {}/{} vs {}/{}", s1, i1, s2, i2)); }
            stops_eq(p1, p2, t)?;
            let r = n1[0].abs().max(n1[2].abs());
            let g = t.geo + t.rel * r.sqrt();
            pts("gradient center", &[*c1], &[*c2], g)?;
            pts("gradient focus", &[*f1], &[*f2], g)?;
            for k in 0..3 { if !near(n1[k], n2[k], 0.0, 10.0 * t.rel * r + 1e-9) { return Err(format!(": gradient radius {:?} vs {:?}", n1, n2)); } }
            Ok(())
        }
        (DPaint::Pattern { tile: t1, clip: c1, a: a1, items: i1 }, DPaint::Pattern { tile: t2, clip: c2, a: a2, items: i2 }) => {
            pts("pattern tile", t1, t2, t.geo)?;
            if c1 != c2 || !near(*a1, *a2, 0.0, t.op) { return Err(": pattern opacity/overflow".into()); }
            items(i1, i2, t).map_err(|e| format!(" pattern{}", e))
        }
        (DPaint::Sym(x), DPaint::Sym(y)) if x == y => Ok(()),
        _ => Err(format!(": paint differs: {} vs {}", pbrief(a), pbrief(b))),
    }
}

fn pbrief(p: &DPaint) -> String {
    match p {
        DPaint::None => "none".into(),
        DPaint::Color { rgb, a } => format!("#{:06x}/{}", rgb, a),
        DPaint::Linear { .. } => "linearGradient".into(),
        DPaint::Radial { .. } => "radialGradient".into(),
        DPaint::Pattern { .. } => "pattern".into(),
        DPaint::Sym(s) => s.clone(),
    }
}

pub fn stroke_eq_t(a: &Option<StrokeD>, b: &Option<StrokeD>, bbox: Option<(f64, f64, f64, f64)>, t: &Tol) -> C {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(x), Some(y)) => {
            paint_eq_t(&x.paint, &y.paint, bbox, t)?;
            let r = x.pen[0].abs().max(x.pen[2].abs());
            for k in 0..3 { if !near(x.pen[k], y.pen[k], 0.0, 10.0 * t.rel * r + 1e-9 + 2.0 * t.op * r.sqrt()) { return Err(format!(": width/pen {:?} vs {:?}", x.pen, y.pen)); } }
            if x.cap != y.cap { return Err(format!(": linecap {} vs {}", x.cap, y.cap)); }
            if x.join != y.join { return Err(format!(": linejoin {} vs {}", x.join, y.join)); }
            if !near(x.miter, y.miter, 1e-5, 1e-5) { return Err(format!(": miterlimit {} vs {}", x.miter, y.miter)); }
            if x.dash.len() != y.dash.len() { return Err(format!(": dashes {:?} vs {:?}", x.dash, y.dash)); }
            for (p, q) in x.dash.iter().zip(&y.dash) { if !near(*p, *q, 1e-4, 1e-4) { return Err(format!(": dashes {:?} vs {:?}", x.dash, y.dash)); } }
            if !near(x.dashoff, y.dashoff, 1e-4, 1e-4) { return Err(format!(": dashoffset {} vs {}", x.dashoff, y.dashoff)); }
            if x.path_length != y.path_length { return Err(": pathLength differs".into()); }
            Ok(())
        }
        (Some(_), None) => Err(": stroke lost".into()),
        (None, Some(_)) => Err(": stroke added".into()),
    }
}

fn text(a: &TextD, b: &TextD, t: &Tol) -> C {
    let big = a.m[..4].iter().fold(0.0f64, |s, x| s.max(x.abs()));
    if !a.m.iter().zip(&b.m).enumerate().all(|(i, (x, y))| near(*x, *y, 1e-5, if i < 4 { 1e-6 + 2e-8 * big } else { t.geo })) { return Err(format!(": matrix {:?} vs {:?}", a.m, b.m)); }
    if a.parts.len() != b.parts.len() { return Err(format!(": parts {} vs {}: {} / {}", a.parts.len(), b.parts.len(), tbrief(a), tbrief(b))); }
    for (x, y) in a.parts.iter().zip(&b.parts) {
        match (x, y) {
            (TextPart::Run(p), TextPart::Run(q)) => {
                if p.text != q.text { return Err(format!(": text {:?} vs {:?}", p.text, q.text)); }
                for (u, v) in p.style.iter().zip(&q.style) { if u != v { return Err(format!(": {} {:?} vs {:?}", u.0, u.1, v.1)); } }
                paint_eq_t(&p.fill, &q.fill, None, t)?;
                stroke_eq_t(&p.stroke, &q.stroke, None, t)?;
            }
            (TextPart::Open(n, p), TextPart::Open(m, q)) => if n != m || p != q { return Err(format!(": layout {:?} vs {:?}", p, q)); },
            (TextPart::Close, TextPart::Close) => {}
            (TextPart::Path(p, _), TextPart::Path(q, _)) => { outline(p, q, false, t)?; }
            _ => return Err(format!(": structure {} / {}", tbrief(a), tbrief(b))),
        }
    }
    Ok(())
}

fn tbrief(t: &TextD) -> String {
    t.parts.iter().map(|p| match p { TextPart::Run(r) => format!("{:?}", r.text), TextPart::Open(n, a) => format!("<{}{:?}", n, a), TextPart::Close => ">".into(), TextPart::Path(..) => "path".into() }).collect::<Vec<_>>().join(" ")
}

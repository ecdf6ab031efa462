//! Independent parsers for SVG attribute micro-syntaxes.

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct M {
    pub a: f64, pub b: f64, pub c: f64, pub d: f64, pub e: f64, pub f: f64,
}

impl M {
    pub const ID: M = M { a: 1.0, b: 0.0, c: 0.0, d: 1.0, e: 0.0, f: 0.0 };
    pub fn new(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> M { M { a, b, c, d, e, f } }
    pub fn translate(x: f64, y: f64) -> M { M::new(1.0, 0.0, 0.0, 1.0, x, y) }
    pub fn scale(x: f64, y: f64) -> M { M::new(x, 0.0, 0.0, y, 0.0, 0.0) }
    pub fn rotate(deg: f64) -> M {
        let r = deg.to_radians();
        M::new(r.cos(), r.sin(), -r.sin(), r.cos(), 0.0, 0.0)
    }
    /// self * o  (o applied first)
    pub fn mul(&self, o: &M) -> M {
        M {
            a: self.a * o.a + self.c * o.b,
            b: self.b * o.a + self.d * o.b,
            c: self.a * o.c + self.c * o.d,
            d: self.b * o.c + self.d * o.d,
            e: self.a * o.e + self.c * o.f + self.e,
            f: self.b * o.e + self.d * o.f + self.f,
        }
    }
    pub fn apply(&self, p: (f64, f64)) -> (f64, f64) {
        (self.a * p.0 + self.c * p.1 + self.e, self.b * p.0 + self.d * p.1 + self.f)
    }
    pub fn vec(&self, p: (f64, f64)) -> (f64, f64) {
        (self.a * p.0 + self.c * p.1, self.b * p.0 + self.d * p.1)
    }
    pub fn det(&self) -> f64 { self.a * self.d - self.b * self.c }
    pub fn inv(&self) -> Option<M> {
        let d = self.det();
        if d.abs() < 1e-14 { return None; }
        Some(M {
            a: self.d / d, b: -self.b / d, c: -self.c / d, d: self.a / d,
            e: (self.c * self.f - self.d * self.e) / d,
            f: (self.b * self.e - self.a * self.f) / d,
        })
    }
    pub fn is_id(&self) -> bool { *self == M::ID }
    pub fn near_identity(&self) -> bool { self.arr().iter().zip(M::ID.arr().iter()).all(|(a, b)| (a - b).abs() < 1e-9) }
    pub fn arr(&self) -> [f64; 6] { [self.a, self.b, self.c, self.d, self.e, self.f] }
}

pub struct S<'a> { pub s: &'a [u8], pub i: usize }

impl<'a> S<'a> {
    pub fn new(t: &'a str) -> S<'a> { S { s: t.as_bytes(), i: 0 } }
    pub fn end(&self) -> bool { self.i >= self.s.len() }
    pub fn peek(&self) -> u8 { if self.end() { 0 } else { self.s[self.i] } }
    pub fn ws(&mut self) { while !self.end() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; } }
    pub fn comma_ws(&mut self) {
        self.ws();
        if self.peek() == b',' { self.i += 1; }
        self.ws();
    }
    pub fn number(&mut self) -> Option<f64> {
        let st = self.i;
        let mut j = self.i;
        let s = self.s;
        if j < s.len() && (s[j] == b'+' || s[j] == b'-') { j += 1; }
        let d0 = j;
        while j < s.len() && s[j].is_ascii_digit() { j += 1; }
        let mut nd = j - d0;
        if j < s.len() && s[j] == b'.' {
            let k = j + 1;
            let mut m = k;
            while m < s.len() && s[m].is_ascii_digit() { m += 1; }
            nd += m - k;
            j = m;
        }
        if nd == 0 { return None; }
        if j < s.len() && (s[j] == b'e' || s[j] == b'E') {
            let mut k = j + 1;
            if k < s.len() && (s[k] == b'+' || s[k] == b'-') { k += 1; }
            let m0 = k;
            while k < s.len() && s[k].is_ascii_digit() { k += 1; }
            if k > m0 { j = k; }
        }
        let t = std::str::from_utf8(&s[st..j]).ok()?;
        let t2 = t.strip_prefix('+').unwrap_or(t);
        let v: f64 = t2.parse().ok()?;
        self.i = j;
        Some(v)
    }
}

pub fn numbers(t: &str) -> Option<Vec<f64>> {
    let mut s = S::new(t);
    let mut v = vec![];
    s.ws();
    while !s.end() {
        v.push(s.number()?);
        s.comma_ws();
    }
    Some(v)
}

pub fn number(t: &str) -> Option<f64> {
    let mut s = S::new(t.trim());
    let v = s.number()?;
    if s.end() { Some(v) } else { None }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Unit { None, Px, Em, Ex, In, Cm, Mm, Pt, Pc, Percent }

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Len(pub f64, pub Unit);

pub fn length(t: &str) -> Option<Len> {
    let t = t.trim();
    let mut s = S::new(t);
    // "1em" must not be eaten as an exponent
    let v = s.number()?;
    let u = match &t[s.i..] {
        "" => Unit::None, "px" => Unit::Px, "em" => Unit::Em, "ex" => Unit::Ex, "in" => Unit::In,
        "cm" => Unit::Cm, "mm" => Unit::Mm, "pt" => Unit::Pt, "pc" => Unit::Pc, "%" => Unit::Percent,
        _ => return None,
    };
    Some(Len(v, u))
}

pub fn lengths(t: &str) -> Option<Vec<Len>> {
    let mut v = vec![];
    for p in t.split(|c: char| c == ',' || c.is_ascii_whitespace()) {
        if p.is_empty() { continue; }
        v.push(length(p)?);
    }
    Some(v)
}

pub fn transform(t: &str) -> Option<M> {
    let mut m = M::ID;
    let mut s = S::new(t);
    s.ws();
    while !s.end() {
        let st = s.i;
        while !s.end() && s.peek().is_ascii_alphabetic() { s.i += 1; }
        let name = std::str::from_utf8(&s.s[st..s.i]).ok()?.to_string();
        s.ws();
        if s.peek() != b'(' { return None; }
        s.i += 1;
        s.ws();
        let mut a = vec![];
        while s.peek() != b')' {
            if s.end() { return None; }
            a.push(s.number()?);
            s.comma_ws();
        }
        s.i += 1;
        s.comma_ws();
        let k = match (name.as_str(), a.len()) {
            ("matrix", 6) => M::new(a[0], a[1], a[2], a[3], a[4], a[5]),
            ("translate", 1) => M::translate(a[0], 0.0),
            ("translate", 2) => M::translate(a[0], a[1]),
            ("scale", 1) => M::scale(a[0], a[0]),
            ("scale", 2) => M::scale(a[0], a[1]),
            ("rotate", 1) => M::rotate(a[0]),
            ("rotate", 3) => M::translate(a[1], a[2]).mul(&M::rotate(a[0])).mul(&M::translate(-a[1], -a[2])),
            ("skewX", 1) => M::new(1.0, 0.0, a[0].to_radians().tan(), 1.0, 0.0, 0.0),
            ("skewY", 1) => M::new(1.0, a[0].to_radians().tan(), 0.0, 1.0, 0.0, 0.0),
            _ => return None,
        };
        m = m.mul(&k);
    }
    Some(m)
}

pub const NAMED: &[(&str, u32)] = &[
    ("aliceblue", 0xf0f8ff), ("antiquewhite", 0xfaebd7), ("aqua", 0x00ffff), ("aquamarine", 0x7fffd4),
    ("azure", 0xf0ffff), ("beige", 0xf5f5dc), ("bisque", 0xffe4c4), ("black", 0x000000),
    ("blanchedalmond", 0xffebcd), ("blue", 0x0000ff), ("blueviolet", 0x8a2be2), ("brown", 0xa52a2a),
    ("burlywood", 0xdeb887), ("cadetblue", 0x5f9ea0), ("chartreuse", 0x7fff00), ("chocolate", 0xd2691e),
    ("coral", 0xff7f50), ("cornflowerblue", 0x6495ed), ("cornsilk", 0xfff8dc), ("crimson", 0xdc143c),
    ("cyan", 0x00ffff), ("darkblue", 0x00008b), ("darkcyan", 0x008b8b), ("darkgoldenrod", 0xb8860b),
    ("darkgray", 0xa9a9a9), ("darkgreen", 0x006400), ("darkkhaki", 0xbdb76b), ("darkmagenta", 0x8b008b),
    ("darkolivegreen", 0x556b2f), ("darkorange", 0xff8c00), ("darkorchid", 0x9932cc), ("darkred", 0x8b0000),
    ("darksalmon", 0xe9967a), ("darkseagreen", 0x8fbc8f), ("darkslateblue", 0x483d8b),
    ("darkslategray", 0x2f4f4f), ("darkturquoise", 0x00ced1), ("darkviolet", 0x9400d3), ("deeppink", 0xff1493),
    ("deepskyblue", 0x00bfff), ("dimgray", 0x696969), ("dodgerblue", 0x1e90ff), ("firebrick", 0xb22222),
    ("floralwhite", 0xfffaf0), ("forestgreen", 0x228b22), ("fuchsia", 0xff00ff), ("gainsboro", 0xdcdcdc),
    ("ghostwhite", 0xf8f8ff), ("gold", 0xffd700), ("goldenrod", 0xdaa520), ("gray", 0x808080),
    ("green", 0x008000), ("greenyellow", 0xadff2f), ("honeydew", 0xf0fff0), ("hotpink", 0xff69b4),
    ("indianred", 0xcd5c5c), ("indigo", 0x4b0082), ("ivory", 0xfffff0), ("khaki", 0xf0e68c),
    ("lavender", 0xe6e6fa), ("lavenderblush", 0xfff0f5), ("lawngreen", 0x7cfc00), ("lemonchiffon", 0xfffacd),
    ("lightblue", 0xadd8e6), ("lightcoral", 0xf08080), ("lightcyan", 0xe0ffff),
    ("lightgoldenrodyellow", 0xfafad2), ("lightgray", 0xd3d3d3), ("lightgreen", 0x90ee90),
    ("lightpink", 0xffb6c1), ("lightsalmon", 0xffa07a), ("lightseagreen", 0x20b2aa),
    ("lightskyblue", 0x87cefa), ("lightslategray", 0x778899), ("lightsteelblue", 0xb0c4de),
    ("lightyellow", 0xffffe0), ("lime", 0x00ff00), ("limegreen", 0x32cd32), ("linen", 0xfaf0e6),
    ("magenta", 0xff00ff), ("maroon", 0x800000), ("mediumaquamarine", 0x66cdaa), ("mediumblue", 0x0000cd),
    ("mediumorchid", 0xba55d3), ("mediumpurple", 0x9370db), ("mediumseagreen", 0x3cb371),
    ("mediumslateblue", 0x7b68ee), ("mediumspringgreen", 0x00fa9a), ("mediumturquoise", 0x48d1cc),
    ("mediumvioletred", 0xc71585), ("midnightblue", 0x191970), ("mintcream", 0xf5fffa),
    ("mistyrose", 0xffe4e1), ("moccasin", 0xffe4b5), ("navajowhite", 0xffdead), ("navy", 0x000080),
    ("oldlace", 0xfdf5e6), ("olive", 0x808000), ("olivedrab", 0x6b8e23), ("orange", 0xffa500),
    ("orangered", 0xff4500), ("orchid", 0xda70d6), ("palegoldenrod", 0xeee8aa), ("palegreen", 0x98fb98),
    ("paleturquoise", 0xafeeee), ("palevioletred", 0xdb7093), ("papayawhip", 0xffefd5), ("peachpuff", 0xffdab9),
    ("peru", 0xcd853f), ("pink", 0xffc0cb), ("plum", 0xdda0dd), ("powderblue", 0xb0e0e6), ("purple", 0x800080),
    ("red", 0xff0000), ("rosybrown", 0xbc8f8f), ("royalblue", 0x4169e1), ("saddlebrown", 0x8b4513),
    ("salmon", 0xfa8072), ("sandybrown", 0xf4a460), ("seagreen", 0x2e8b57), ("seashell", 0xfff5ee),
    ("sienna", 0xa0522d), ("silver", 0xc0c0c0), ("skyblue", 0x87ceeb), ("slateblue", 0x6a5acd),
    ("slategray", 0x708090), ("snow", 0xfffafa), ("springgreen", 0x00ff7f), ("steelblue", 0x4682b4),
    ("tan", 0xd2b48c), ("teal", 0x008080), ("thistle", 0xd8bfd8), ("tomato", 0xff6347), ("turquoise", 0x40e0d0),
    ("violet", 0xee82ee), ("wheat", 0xf5deb3), ("white", 0xffffff), ("whitesmoke", 0xf5f5f5),
    ("yellow", 0xffff00), ("yellowgreen", 0x9acd32), ("darkgrey", 0xa9a9a9), ("dimgrey", 0x696969),
    ("grey", 0x808080), ("lightgrey", 0xd3d3d3), ("slategrey", 0x708090), ("darkslategrey", 0x2f4f4f),
    ("lightslategrey", 0x778899),
];

pub fn color(t: &str) -> Option<u32> {
    let t = t.trim();
    if let Some(h) = t.strip_prefix('#') {
        if !h.bytes().all(|c| c.is_ascii_hexdigit()) { return None; }
        return match h.len() {
            6 => u32::from_str_radix(h, 16).ok(),
            3 => {
                let v = u32::from_str_radix(h, 16).ok()?;
                let (r, g, b) = (v >> 8, (v >> 4) & 15, v & 15);
                Some((r * 17) << 16 | (g * 17) << 8 | b * 17)
            }
            _ => None,
        };
    }
    if let Some(r) = t.strip_prefix("rgb(") {
        let r = r.strip_suffix(')')?;
        let p: Vec<&str> = r.split(',').map(|x| x.trim()).collect();
        if p.len() != 3 { return None; }
        let mut v = 0u32;
        for x in p {
            let k = if let Some(q) = x.strip_suffix('%') { number(q)? * 2.55 } else { number(x)? };
            v = v << 8 | (k.round().max(0.0).min(255.0) as u32);
        }
        return Some(v);
    }
    let l = t.to_ascii_lowercase();
    NAMED.iter().find(|n| n.0 == l).map(|n| n.1)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Paint {
    None,
    CurrentColor,
    Color(u32),
    Url(String, Option<Box<Paint>>),
}

pub fn url_ref(t: &str) -> Option<(String, String)> {
    let t = t.trim();
    let r = t.strip_prefix("url(")?;
    let e = r.find(')')?;
    let inner = r[..e].trim().trim_matches(|c| c == '"' || c == '\'').trim();
    let id = inner.strip_prefix('#')?;
    Some((id.to_string(), r[e + 1..].trim().to_string()))
}

pub fn paint(t: &str) -> Option<Paint> {
    let t = t.trim();
    match t {
        "none" => return Some(Paint::None),
        "currentColor" => return Some(Paint::CurrentColor),
        _ => {}
    }
    if let Some((id, rest)) = url_ref(t) {
        let fb = if rest.is_empty() { None } else { Some(Box::new(paint(&rest)?)) };
        return Some(Paint::Url(id, fb));
    }
    // an ICC part may follow the sRGB colour
    let t2 = match t.find("icc-color(") { Some(k) if k > 0 => &t[..k], _ => t };
    color(t2).map(Paint::Color)
}

// ---- paths -----------------------------------------------------------------

pub type Pt = (f64, f64);

#[derive(Clone, Debug, PartialEq)]
pub struct RawSeg { pub cmd: u8, pub v: Vec<f64> }

fn nargs(c: u8) -> usize {
    match c.to_ascii_lowercase() { b'm' | b'l' | b't' => 2, b'h' | b'v' => 1, b'c' => 6, b's' | b'q' => 4, b'a' => 7, _ => 0 }
}

/// Parses path data into explicit commands (implicit repetitions expanded).
/// The bool is false when an error was met; segments before it are kept (SVG error rule).
pub fn path_raw(t: &str) -> (Vec<RawSeg>, bool) {
    let mut s = S::new(t);
    let mut out: Vec<RawSeg> = vec![];
    let mut cmd = 0u8;
    s.ws();
    loop {
        if s.end() { return (out, true); }
        let c = s.peek();
        if c.is_ascii_alphabetic() {
            if !b"MmZzLlHhVvCcSsQqTtAa".contains(&c) { return (out, false); }
            if out.is_empty() && c != b'M' && c != b'm' { return (out, false); }
            s.i += 1;
            cmd = c;
            if cmd == b'z' || cmd == b'Z' {
                out.push(RawSeg { cmd, v: vec![] });
                s.ws();
                continue;
            }
            s.ws();
        } else {
            if cmd == 0 || cmd == b'z' || cmd == b'Z' { return (out, false); }
            if cmd == b'm' { cmd = b'l'; }
            if cmd == b'M' { cmd = b'L'; }
        }
        let n = nargs(cmd);
        let mut v = vec![];
        for k in 0..n {
            if (cmd == b'a' || cmd == b'A') && (k == 3 || k == 4) {
                match s.peek() {
                    b'0' => v.push(0.0),
                    b'1' => v.push(1.0),
                    _ => return (out, false),
                }
                s.i += 1;
            } else {
                match s.number() { Some(x) => v.push(x), None => return (out, false) }
            }
            s.comma_ws();
        }
        out.push(RawSeg { cmd, v });
    }
}

/// Absolute geometry.
#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Line(Pt, Pt),
    Quad(Pt, Pt, Pt),
    Cubic(Pt, Pt, Pt, Pt),
    /// p(t) = c + u cos + v sin for angle in [a0, a0+da]
    Arc { c: Pt, u: Pt, v: Pt, a0: f64, da: f64, p0: Pt, p1: Pt },
}

impl Seg {
    pub fn start(&self) -> Pt {
        match *self { Seg::Line(a, _) | Seg::Quad(a, _, _) | Seg::Cubic(a, _, _, _) => a, Seg::Arc { p0, .. } => p0 }
    }
    pub fn end(&self) -> Pt {
        match *self { Seg::Line(_, b) => b, Seg::Quad(_, _, b) => b, Seg::Cubic(_, _, _, b) => b, Seg::Arc { p1, .. } => p1 }
    }
    pub fn is_point(&self) -> bool { [0.3, 0.6, 1.0].iter().all(|t| dist(self.at(*t), self.start()) < 1e-6) }
    pub fn at(&self, t: f64) -> Pt {
        let u = 1.0 - t;
        match *self {
            Seg::Line(a, b) => (a.0 * u + b.0 * t, a.1 * u + b.1 * t),
            Seg::Quad(a, b, c) => {
                let (x, y, z) = (u * u, 2.0 * u * t, t * t);
                (a.0 * x + b.0 * y + c.0 * z, a.1 * x + b.1 * y + c.1 * z)
            }
            Seg::Cubic(a, b, c, d) => {
                let (x, y, z, w) = (u * u * u, 3.0 * u * u * t, 3.0 * u * t * t, t * t * t);
                (a.0 * x + b.0 * y + c.0 * z + d.0 * w, a.1 * x + b.1 * y + c.1 * z + d.1 * w)
            }
            Seg::Arc { c, u, v, a0, da, .. } => {
                let a = a0 + da * t;
                (c.0 + u.0 * a.cos() + v.0 * a.sin(), c.1 + u.1 * a.cos() + v.1 * a.sin())
            }
        }
    }
    pub fn map(&self, m: &M) -> Seg {
        match *self {
            Seg::Line(a, b) => Seg::Line(m.apply(a), m.apply(b)),
            Seg::Quad(a, b, c) => Seg::Quad(m.apply(a), m.apply(b), m.apply(c)),
            Seg::Cubic(a, b, c, d) => Seg::Cubic(m.apply(a), m.apply(b), m.apply(c), m.apply(d)),
            Seg::Arc { c, u, v, a0, da, p0, p1 } =>
                Seg::Arc { c: m.apply(c), u: m.vec(u), v: m.vec(v), a0, da, p0: m.apply(p0), p1: m.apply(p1) },
        }
    }
    /// Tight extrema points.
    pub fn extrema(&self, out: &mut Vec<Pt>) {
        out.push(self.start());
        out.push(self.end());
        match *self {
            Seg::Line(..) => {}
            Seg::Quad(a, b, c) => {
                for k in 0..2 {
                    let g = |p: Pt| if k == 0 { p.0 } else { p.1 };
                    let den = g(a) - 2.0 * g(b) + g(c);
                    if den != 0.0 { let t = (g(a) - g(b)) / den; if t > 0.0 && t < 1.0 { out.push(self.at(t)); } }
                }
            }
            Seg::Cubic(a, b, c, d) => {
                for k in 0..2 {
                    let g = |p: Pt| if k == 0 { p.0 } else { p.1 };
                    let (p0, p1, p2, p3) = (g(a), g(b), g(c), g(d));
                    let aa = -p0 + 3.0 * p1 - 3.0 * p2 + p3;
                    let bb = 2.0 * (p0 - 2.0 * p1 + p2);
                    let cc = p1 - p0;
                    let mut ts = vec![];
                    let sc = 1.0 + p0.abs() + p1.abs() + p2.abs() + p3.abs();
                    if aa.abs() < 1e-12 * sc {
                        if bb != 0.0 { ts.push(-cc / bb); }
                    } else {
                        let disc = bb * bb - 4.0 * aa * cc;
                        if disc >= 0.0 { let s = disc.sqrt(); ts.push((-bb + s) / (2.0 * aa)); ts.push((-bb - s) / (2.0 * aa)); }
                    }
                    for t in ts { if t > 0.0 && t < 1.0 { out.push(self.at(t)); } }
                }
            }
            Seg::Arc { u, v, a0, da, .. } => {
                for k in 0..2 {
                    let (p, q) = if k == 0 { (u.0, v.0) } else { (u.1, v.1) };
                    let base = q.atan2(p);
                    for n in -6..7 {
                        let ang = base + n as f64 * std::f64::consts::PI;
                        let t = (ang - a0) / da;
                        if t > 0.0 && t < 1.0 { out.push(self.at(t)); }
                    }
                }
            }
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Sub { pub start: Pt, pub segs: Vec<Seg>, pub closed: bool }

fn dist(a: Pt, b: Pt) -> f64 { ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt() }

pub fn arc_seg(p0: Pt, rx: f64, ry: f64, rot: f64, large: bool, sweep: bool, p1: Pt) -> Option<Seg> {
    // equal up to the floating-point noise of relative coordinates
    if dist(p0, p1) < 1e-9 { return None; }
    let (mut rx, mut ry) = (rx.abs(), ry.abs());
    if rx == 0.0 || ry == 0.0 { return Some(Seg::Line(p0, p1)); }
    let phi = rot.to_radians();
    let (cs, sn) = (phi.cos(), phi.sin());
    let dx = (p0.0 - p1.0) / 2.0;
    let dy = (p0.1 - p1.1) / 2.0;
    let x = cs * dx + sn * dy;
    let y = -sn * dx + cs * dy;
    let l = x * x / (rx * rx) + y * y / (ry * ry);
    // Snap the "just fits" case so that rounding noise does not flip a radicand.
    if l > 1.0 { let s = l.sqrt(); rx *= s; ry *= s; }
    let l = if l > 1.0 - 1e-5 { 1.0 } else { l };
    let num = rx * rx * ry * ry - rx * rx * y * y - ry * ry * x * x;
    let den = rx * rx * y * y + ry * ry * x * x;
    let mut k = if l >= 1.0 { 0.0 } else { (num.max(0.0) / den).sqrt() };
    if large == sweep { k = -k; }
    let cx = k * rx * y / ry;
    let cy = -k * ry * x / rx;
    let c = (cs * cx - sn * cy + (p0.0 + p1.0) / 2.0, sn * cx + cs * cy + (p0.1 + p1.1) / 2.0);
    let a0 = ((y - cy) / ry).atan2((x - cx) / rx);
    let a1 = ((-y - cy) / ry).atan2((-x - cx) / rx);
    let mut da = a1 - a0;
    let tau = 2.0 * std::f64::consts::PI;
    if sweep && da < 0.0 { da += tau; }
    if !sweep && da > 0.0 { da -= tau; }
    let u = (rx * cs, rx * sn);
    let v = (-ry * sn, ry * cs);
    Some(Seg::Arc { c, u, v, a0, da, p0, p1 })
}

/// Interprets explicit commands as absolute geometry. Zero-length segments are kept.
/// Also returns, for markers, the vertex structure implicitly through the segs.
pub fn path_geom(raw: &[RawSeg]) -> Vec<Sub> {
    let mut out: Vec<Sub> = vec![];
    let mut cur: Option<Sub> = None;
    let mut p: Pt = (0.0, 0.0);
    let mut start: Pt = (0.0, 0.0);
    let mut last_c: Option<Pt> = None;
    let mut last_q: Option<Pt> = None;
    for s in raw {
        let rel = s.cmd.is_ascii_lowercase();
        let o = if rel { p } else { (0.0, 0.0) };
        let v = &s.v;
        let mut nc = None;
        let mut nq = None;
        let c = s.cmd.to_ascii_lowercase();
        if c != b'm' && cur.is_none() {
            cur = Some(Sub { start, segs: vec![], closed: false });
            p = start;
        }
        match c {
            b'm' => {
                if let Some(x) = cur.take() { out.push(x); }
                p = (o.0 + v[0], o.1 + v[1]);
                start = p;
                cur = Some(Sub { start, segs: vec![], closed: false });
            }
            b'z' => {
                let mut x = cur.take().unwrap();
                x.closed = true;
                let gap = |a: Pt, b: Pt| { let k = 1e-6 + 1e-9 * (a.0.abs() + a.1.abs()); (a.0 - b.0).abs() > k || (a.1 - b.1).abs() > k };
                if gap(x.segs.last().map(|s| s.end()).unwrap_or(x.start), x.start) {
                    let e = x.segs.last().unwrap().end();
                    x.segs.push(Seg::Line(e, x.start));
                }
                out.push(x);
                p = start;
            }
            b'l' => { let e = (o.0 + v[0], o.1 + v[1]); cur.as_mut().unwrap().segs.push(Seg::Line(p, e)); p = e; }
            b'h' => { let e = (o.0 + v[0], p.1); cur.as_mut().unwrap().segs.push(Seg::Line(p, e)); p = e; }
            b'v' => { let e = (p.0, o.1 + v[0]); cur.as_mut().unwrap().segs.push(Seg::Line(p, e)); p = e; }
            b'c' => {
                let a = (o.0 + v[0], o.1 + v[1]);
                let b = (o.0 + v[2], o.1 + v[3]);
                let e = (o.0 + v[4], o.1 + v[5]);
                cur.as_mut().unwrap().segs.push(Seg::Cubic(p, a, b, e));
                nc = Some(b);
                p = e;
            }
            b's' => {
                let a = match last_c { Some(k) => (2.0 * p.0 - k.0, 2.0 * p.1 - k.1), None => p };
                let b = (o.0 + v[0], o.1 + v[1]);
                let e = (o.0 + v[2], o.1 + v[3]);
                cur.as_mut().unwrap().segs.push(Seg::Cubic(p, a, b, e));
                nc = Some(b);
                p = e;
            }
            b'q' => {
                let a = (o.0 + v[0], o.1 + v[1]);
                let e = (o.0 + v[2], o.1 + v[3]);
                cur.as_mut().unwrap().segs.push(Seg::Quad(p, a, e));
                nq = Some(a);
                p = e;
            }
            b't' => {
                let a = match last_q { Some(k) => (2.0 * p.0 - k.0, 2.0 * p.1 - k.1), None => p };
                let e = (o.0 + v[0], o.1 + v[1]);
                cur.as_mut().unwrap().segs.push(Seg::Quad(p, a, e));
                nq = Some(a);
                p = e;
            }
            b'a' => {
                let e = (o.0 + v[5], o.1 + v[6]);
                match arc_seg(p, v[0], v[1], v[2], v[3] != 0.0, v[4] != 0.0, e) {
                    Some(sg) => cur.as_mut().unwrap().segs.push(sg),
                    None => cur.as_mut().unwrap().segs.push(Seg::Line(p, e)),
                }
                p = e;
            }
            _ => {}
        }
        last_c = nc;
        last_q = nq;
    }
    if let Some(x) = cur.take() { out.push(x); }
    out
}

/// Canonical outline: zero-length segments dropped, straight curves become lines,
/// consecutive same-direction collinear lines merged. `tol` is absolute.
pub fn canon(subs: &[Sub], tol: f64, for_fill: bool) -> Vec<Sub> {
    let mut out = vec![];
    for s in subs {
        let mut segs: Vec<Seg> = vec![];
        let mut src: Vec<Seg> = s.segs.clone();
        if for_fill && !src.is_empty() {
            let e = src.last().unwrap().end();
            if e != s.start { src.push(Seg::Line(e, s.start)); }
        }
        let had = !src.is_empty() || s.closed;
        for sg in src {
            let sg = straighten(sg, tol);
            if let Seg::Line(a, b) = sg {
                if dist(a, b) <= tol { continue; }
                if let Some(&Seg::Line(a0, b0)) = segs.last() {
                    if collinear_forward(a0, b0, b, tol) {
                        segs.pop();
                        segs.push(Seg::Line(a0, b));
                        continue;
                    }
                }
            }
            segs.push(sg);
        }
        if segs.is_empty() && (for_fill || !had) { continue; }
        out.push(Sub { start: s.start, segs, closed: s.closed || for_fill });
    }
    out
}

fn collinear_forward(a: Pt, b: Pt, c: Pt, tol: f64) -> bool {
    let l = dist(a, c);
    if l <= tol { return false; }
    let d = ((c.0 - a.0) / l, (c.1 - a.1) / l);
    let t = (b.0 - a.0) * d.0 + (b.1 - a.1) * d.1;
    let off = ((b.0 - a.0) * d.1 - (b.1 - a.1) * d.0).abs();
    off <= tol && t >= -tol && t <= l + tol
}

fn straighten(s: Seg, tol: f64) -> Seg {
    let (p0, p1) = (s.start(), s.end());
    let ctrl: Vec<Pt> = match s {
        Seg::Quad(_, b, _) => vec![b],
        Seg::Cubic(_, b, c, _) => vec![b, c],
        Seg::Arc { u, v, .. } => {
            // a degenerate ellipse (zero-determinant transform) is not expected
            if (u.0 * v.1 - u.1 * v.0).abs() > 1e-9 { return s; }
            return Seg::Line(p0, p1);
        }
        Seg::Line(..) => return s,
    };
    let l = dist(p0, p1);
    if l <= tol {
        if ctrl.iter().all(|&c| dist(c, p0) <= tol) { return Seg::Line(p0, p1); }
        return s;
    }
    let d = ((p1.0 - p0.0) / l, (p1.1 - p0.1) / l);
    for &b in &ctrl {
        let off = ((b.0 - p0.0) * d.1 - (b.1 - p0.1) * d.0).abs();
        if off > tol { return s; }
    }
    // Straight; the drawn extent must equal the chord and be monotone (joins/caps).
    let pr = |b: Pt| (b.0 - p0.0) * d.0 + (b.1 - p0.1) * d.1;
    let mut prev = -tol;
    for k in 0..=32 {
        let x = pr(s.at(k as f64 / 32.0));
        if x < prev - tol || x > l + tol { return s; }
        prev = x;
    }
    Seg::Line(p0, p1)
}

pub fn pt_dist(a: Pt, b: Pt) -> f64 { dist(a, b) }

//! P13 (well-formed output for every content and notation), P14 (robustness against every input).

use crate::gen::{Cfg, Gen};
use crate::pipeline::{self, Out};
use crate::props::{random_opts, Info};
use crate::props_doc::small;
use crate::render::local;
use crate::rng::Rng;
use crate::shrink::Case;
use crate::tree::{SVG_ATTRS, SVG_ELEMENTS};
use crate::xml::*;
use crate::{gen_path, limits, xml};

const CH: &[&str] = &["é", "日本", "😀", "\u{301}", "\u{202e}", "\u{a0}", "\u{2028}", "\u{85}", "\u{fffd}", "&", "<", ">", "\"", "'", "]]>", "--", "%", "{", "}", ";", ":", "\\", "/*", "*/", "@import", "url(#x)", "&amp;", "&#65;", "&lt;", "#", "\t", "\n", "  ", " ", "a", "B", "x y",
    "=", "/>", "<!--", "-->", "<![CDATA[", "?>", "<?", "\u{10ffff}", "\u{e000}", "1e5", "none", "inherit"];

fn hostile(r: &mut Rng, max: i64) -> String {
    let n = r.range(0, max);
    (0..n).map(|_| *r.pick(CH)).collect()
}

fn els(d: &Dom) -> Vec<usize> { d.walk().into_iter().filter(|&n| d.is_el(n)).collect() }

// ---- P13 ---------------------------------------------------------------------------

/// Characters as data in a random notation.
fn chars(r: &mut Rng, s: &str, quote: Option<char>, p: f64) -> String {
    let mut o = String::new();
    for c in s.chars() {
        let need = c == '&' || c == '<' || c == '\r' || Some(c) == quote || (quote.is_none() && c == '>') || (quote.is_some() && (c == '\n' || c == '\t'));
        if need || r.p(p) {
            let named = match c { '&' => Some("&amp;"), '<' => Some("&lt;"), '>' => Some("&gt;"), '"' => Some("&quot;"), '\'' => Some("&apos;"), _ => None };
            match named {
                Some(x) if r.p(0.6) => o.push_str(x),
                _ => match r.below(3) { 0 => o.push_str(&format!("&#{};", c as u32)), 1 => o.push_str(&format!("&#x{:x};", c as u32)), _ => o.push_str(&format!("&#x{:06X};", c as u32)) },
            }
        } else { o.push(c); }
    }
    o
}

struct Ser { p_ref: f64, p_cdata: f64, p_single: f64, ents: Vec<(String, String)> }

fn ser(r: &mut Rng, d: &Dom, n: usize, k: &Ser, o: &mut String) {
    match &d.nodes[n].kind {
        Kind::El { name, attrs } => {
            o.push('<');
            o.push_str(name);
            for (a, v) in attrs {
                o.push_str(*r.pick(&[" ", " ", "\n", "  ", "\t"]));
                let q = if r.p(k.p_single) { '\'' } else { '"' };
                o.push_str(a);
                if r.p(0.05) { o.push_str(" = "); } else { o.push('='); }
                o.push(q);
                if let Some(e) = k.ents.iter().find(|e| e.1 == *v) { o.push_str(&format!("&{};", e.0)); }
                else {
                    // the cleaner does not decode references inside of values with a meaning of their own
                    let data = a.contains(':') || a == "class" || a == "font-family" || a == "id" || !SVG_ATTRS.contains(&a.as_str());
                    let data = data && a != "xlink:href" && !a.starts_with("xmlns");
                    // links to the merged definitions are written with the id as it is
                    let data = data && !(a == "id" && (name.ends_with("Gradient") || name == "filter"));
                    o.push_str(&chars(r, v, Some(q), if data { k.p_ref } else { 0.0 }));
                }
                o.push(q);
            }
            if r.p(0.03) { o.push(' '); }
            if d.nodes[n].children.is_empty() {
                if r.p(0.8) { o.push_str("/>"); } else { o.push_str(&format!("></{}>", name)); }
            } else {
                o.push('>');
                for &c in &d.nodes[n].children { ser(r, d, c, k, o); }
                o.push_str(&format!("</{}{}>", name, if r.p(0.03) { "\n" } else { "" }));
            }
        }
        Kind::Text(t) => {
            let in_style = d.parent(n).map(|p| local(d.name(p)) == "style").unwrap_or(false);
            if in_style { o.push_str(t); }
            else if r.p(k.p_cdata) && !t.contains("]]>") && !t.is_empty() {
                let b: Vec<usize> = t.char_indices().map(|x| x.0).collect();
                let i = *r.pick(&b);
                o.push_str(&chars(r, &t[..i], None, k.p_ref));
                o.push_str(&format!("<![CDATA[{}]]>", &t[i..]));
            } else { o.push_str(&chars(r, t, None, k.p_ref)); }
        }
        Kind::CData(t) => o.push_str(&format!("<![CDATA[{}]]>", t)),
        Kind::Comment(t) => o.push_str(&format!("<!--{}-->", t)),
        Kind::Pi(t, v) => if v.is_empty() { o.push_str(&format!("<?{}?>", t)) } else { o.push_str(&format!("<?{} {}?>", t, v)) },
    }
}

fn comment(r: &mut Rng) -> String {
    let mut s = hostile(r, 6);
    while s.contains("--") { s = s.replace("--", "-"); }
    while s.ends_with('-') { s.pop(); }
    s
}

fn insert(r: &mut Rng, d: &mut Dom, p: usize, k: Kind) {
    let e = d.new_node(None, k);
    d.nodes[e].parent = Some(p);
    let n = d.nodes[p].children.len();
    let at = r.below(n + 1);
    d.nodes[p].children.insert(at, e);
}

pub fn p13_gen(r: &mut Rng) -> Case {
    let c = Cfg { w_text: 20, n_grad: (0, 1), p_id: 0.3, text_rich: r.p(0.5), p_css: 0.1, ..small(r) };
    let mut d = Gen::new(r, c).document();
    let root = d.root;
    d.set(root, "xmlns:x", "http://example.org/x");
    if r.p(0.3) { d.set(root, "xmlns:xml", "http://www.w3.org/XML/1998/namespace"); }
    let k = r.range(1, 6);
    for _ in 0..k {
        let all: Vec<usize> = els(&d).into_iter().filter(|&n| local(d.name(n)) != "style").collect();
        let el = *r.pick(&all);
        let texts: Vec<usize> = all.iter().cloned().filter(|&n| ["text", "tspan", "textPath"].contains(&d.name(n))).collect();
        match r.below(12) {
            0 | 1 => if let Some(&t) = texts.first() {
                let t = if texts.len() > 1 { *r.pick(&texts) } else { t };
                let s = hostile(r, 6);
                insert(r, &mut d, t, Kind::Text(s));
            },
            2 => { let nm = *r.pick(&["title", "desc", "metadata"]); let e = d.new_el(Some(el), nm); let s = hostile(r, 8); d.new_node(Some(e), Kind::Text(s)); },
            3 => { let a = *r.pick(&["x:a", "x:b", "xlink:title", "xml:base", "xml:lang", "class", "font-family", "x:日本", "data-a", "x:_-.1"]); let v = hostile(r, 6); d.set(el, a, v); }
            4 => { let a = *r.pick(&["x:a", "x:b", "xlink:title", "font-family", "class", "data-b"]); let v = hostile(r, 3); d.set(el, a, v); }
            5 => { let s = comment(r); insert(r, &mut d, el, Kind::Comment(s)); }
            6 => { let s = comment(r); let e = d.new_node(None, Kind::Comment(s)); if r.p(0.5) { d.prolog.push(e); } else { d.epilog.push(e); } }
            7 => {
                let mut s = hostile(r, 4);
                while s.contains("?>") { s = s.replace("?>", "?"); }
                let t = *r.pick(&["php", "xml-stylesheet", "x", "xpacket"]);
                let s = s.trim().to_string();
                match r.below(3) { 0 => { let e = d.new_node(None, Kind::Pi(t.into(), s)); d.prolog.push(e); } 1 => { let e = d.new_node(None, Kind::Pi(t.into(), s)); d.epilog.push(e); } _ => insert(r, &mut d, el, Kind::Pi(t.into(), s)) }
            }
            8 => {
                // a foreign tree
                let e = d.new_el(Some(el), *r.pick(&["x:foo", "x:rect", "sodipodi:namedview", "foo", "html", "y:p"]));
                let nm = d.name(e).to_string();
                if nm.starts_with("y:") { d.set(e, "xmlns:y", "urn:y"); }
                if nm.starts_with("sodi") { d.set(e, "xmlns:sodipodi", "http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd"); }
                if nm == "html" && r.p(0.7) { d.set(e, "xmlns", "http://www.w3.org/1999/xhtml"); }
                if r.p(0.5) { let v = hostile(r, 4); d.set(e, *r.pick(&["x:a", "b", "data-c"]), v); }
                if r.p(0.5) { let s = hostile(r, 5); d.new_node(Some(e), Kind::Text(s)); }
                if r.p(0.3) { let q = d.new_el(Some(e), "x:in"); let s = hostile(r, 5); d.new_node(Some(q), Kind::Text(s)); }
            }
            9 => { d.decl = Some(r.pick(&["version=\"1.0\"", "version=\"1.0\" encoding=\"UTF-8\"", "version='1.0' encoding='utf-8' standalone='no'", "version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\""]).to_string()); }
            10 => { d.set(el, "xml:space", *r.pick(&["preserve", "default"])); }
            _ => { let s = hostile(r, 3); if let Some(i) = d.attr(el, "id").map(|s| s.to_string()) { let _ = (i, s); } else { let v: String = hostile(r, 3).chars().filter(|c| c.is_alphabetic()).collect(); if !v.is_empty() && !d.ids().contains_key(&v) && !d.name(el).contains(':') { d.set(el, "id", v); } } }
        }
    }
    let mut k = Ser { p_ref: *r.pick(&[0.0, 0.05, 0.3]), p_cdata: *r.pick(&[0.0, 0.0, 0.3]), p_single: *r.pick(&[0.0, 0.5, 1.0]), ents: vec![] };
    if r.p(0.15) {
        let ns = d.attrs(root).iter().filter(|a| a.0.starts_with("xmlns:")).map(|a| a.1.clone()).collect::<Vec<_>>();
        for (i, v) in ns.into_iter().enumerate() { k.ents.push((format!("ns_{}", i), v)); }
        if r.p(0.5) { k.ents.push(("ccc".into(), "#123456".into())); }
        let s: String = k.ents.iter().map(|e| format!("<!ENTITY {} \"{}\">\n", e.0, e.1)).collect();
        d.doctype = Some(format!("svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\" [\n{}]", s));
    } else if r.p(0.1) { d.doctype = Some("svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\" \"http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd\"".into()); }
    let mut o = String::new();
    if r.p(0.05) { o.push('\u{feff}'); }
    if let Some(x) = &d.decl { o.push_str(&format!("<?xml {}?>", x)); if r.p(0.8) { o.push('\n'); } }
    let (pro, epi) = (d.prolog.clone(), d.epilog.clone());
    for p in pro { if r.p(0.5) { ser(r, &d, p, &k, &mut o); o.push('\n'); } else if d.doctype.is_none() { ser(r, &d, p, &k, &mut o); } }
    if let Some(x) = &d.doctype { o.push_str(&format!("<!DOCTYPE {}>", x)); if r.p(0.5) { o.push('\n'); } }
    ser(r, &d, root, &k, &mut o);
    for p in epi { if r.p(0.5) { o.push('\n'); } ser(r, &d, p, &k, &mut o); }
    if r.p(0.3) { o.push('\n'); }
    if r.p(0.05) { o = o.replace('\n', "\r\n"); }
    let args = if r.p(0.35) { vec![] } else { random_opts(r, &[]).args() };
    Case { svg: o, args }
}

pub fn p13_check(c: &Case, info: &mut Info) -> Result<(), String> {
    let o = match pipeline::opts(&c.args) { Ok(o) => o, Err(e) => { info.excl(e); return Ok(()); } };
    let d = match xml::parse(&c.svg) { Ok(d) => d, Err(e) => { if std::env::var("MAL").is_ok() { eprintln!("{} {}", e, c.svg); } info.excl("malformed input"); return Ok(()); } };
    if let Some(l) = limits::excluded_options(&d, &c.args) { info.excl(l); return Ok(()); }
    if let Some(l) = unwritable(&d, &c.svg) { info.excl(l); return Ok(()); }
    let mut cur = c.svg.clone();
    for pass in 0..2 {
        match pipeline::clean_once(&cur, &o) {
            Out::Ok(s) => {
                let e = xml::parse(&s).map_err(|m| format!("pass {}: malformed output: {}: {}", pass + 1, m, s))?;
                let nm = e.name(e.root);
                let ns = match nm.find(':') { Some(k) => e.attr(e.root, &format!("xmlns:{}", &nm[..k])), None => e.attr(e.root, "xmlns") };
                if local(nm) != "svg" { return Err(format!("the root element is <{}>", nm)); }
                if ns != Some("http://www.w3.org/2000/svg") { return Err(format!("the namespace of the root element is {:?}", ns)); }
                cur = s;
            }
            Out::Rejected(m) => {
                if pass == 0 { if std::env::var("REJ").is_ok() { eprintln!("REJ {}", m.replace("\n", " ")); } info.excl("rejected"); return Ok(()); }
                return Err(format!("the own output is rejected: {}: {}", m, cur));
            }
            Out::Panic(m) => return Err(format!("pass {}: panic: {}", pass + 1, m)),
            Out::BadUtf8 => return Err("the output is not UTF-8".into()),
        }
    }
    for (k, x) in [("<![CDATA[", "cdata"), ("<!--", "comment"), ("<?", "pi"), ("<!DOCTYPE", "doctype"), ("<!ENTITY", "entities"), ("&#", "char-references"), ("='", "single-quotes")] { if c.svg.contains(k) { info.class(x); } }
    info.nontrivial = c.svg.contains('&') || c.svg.contains("<!") || c.svg.contains("<?") || !c.svg.is_ascii();
    Ok(())
}

/// Confirmed limits (see DESIGN.md).
fn unwritable(d: &Dom, s: &str) -> Option<&'static str> {
    if limits::disabled() || d.entities.is_empty() { return None; }
    // svgdom resolves an entity only when it is a whole value of an attribute of an SVG element
    let body = match s.find("]>") { Some(k) => k + 2, None => return None };
    for (k, _) in s[body..].match_indices('&') {
        let k = body + k;
        let e = match s[k..].find(';') { Some(e) => k + e, None => continue };
        if !d.entities.contains_key(&s[k + 1..e]) { continue; }
        let (p, n) = (s[..k].chars().next_back(), s[e + 1..].chars().next());
        if p != n || !(p == Some('"') || p == Some('\'')) { return Some("svgdom-entity"); }
        // the tag starts at the last `<`, since values contain no plain ones
        let t = match s[..k].rfind('<') { Some(t) => t + 1, None => continue };
        let nm: String = s[t..].chars().take_while(|c| !c.is_whitespace() && *c != '>' && *c != '/').collect();
        if !SVG_ELEMENTS.contains(&nm.as_str()) { return Some("svgdom-entity"); }
    }
    None
}

// ---- P14 ---------------------------------------------------------------------------

const WEIRD: &[&str] = &["", " ", "0", "-0", "-1", "1e999", "-1e999", "1e-999", "1e308", "-1.7976931348623157e308", "nan", "inf", "NaN", "1e", "1e+", ".", "-", "+", "5.", ".5.5", "--5", "99999999999999999999", "0.0000000000001", "1%", "%", "-5%", "1px", "2em", "3ex", "1in", "mm", "1 2", "1,2,3,,4", ", ,", "none", "inherit", "currentColor", "url(#)",
    "url(", "url()", "url(#a) red", "url(x)", "url( #g1 )", "url(#g1) none", "#", "#f", "#ffff", "#gggggg", "rgb(", "rgb(1,2)", "rgb(300,-5,10%)", "red red", "hidden", "visible", "auto", "true", "normal", "bold", "larger", "bolder", "underline", "preserve", "userSpaceOnUse", "objectBoundingBox", "xMidYMid", "xMidYMid slice", "evenodd", "collapse",
    "matrix(1 0 0 1 0 0)", "matrix(0 0 0 0 0 0)", "matrix(1 0)", "scale(0)", "scale(1e300)", "scale(-1)", "rotate(45", "rotate(1e300)", "skewX(90)", "translate(nan)", "translate(1e308 1e308) translate(1e308)", "foo(1)", "scale(2) translate", "M", "M 0", "M0 0", "M0 0L", "M0 0 0", "L 5 5", "z", "M0 0zzz", "M0 0A", "M0 0A1 1 0 2 0 5 5", "M0 0A0 0 0 0 0 0 0", "M0 0a1 1 0 0110 10", "m1e308 0 1e308 0",
    "fill:", "fill:red;;", ";", ":", "fill:url(#a)", "a:b", "fill:red;stroke", "/*", "fill:/*red*/blue", "-foo:bar", "font:12px x", "marker:url(#m)", "text", "'", "&amp;", "&#0;", "&foo;", "&", "\u{0}", "😀", "a b c", "data:image/png;base64,", "http://a/#b", "#g1", "#p1", "#c1", "##", "#a#b", "xml", "0 0 0 0", "0 0 -1 -1", "0 0 1e308 1e308", "in2", "SourceGraphic", "table", "erode", "10", "100", "0.5", "1"];
const TOKENS: &[&str] = &["<", ">", "/>", "</", "<g>", "</g>", "<svg>", "</svg>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<?xml version='1.0'?>", "<!DOCTYPE svg [", "]>", "<!ENTITY a 'b'>", "<!ENTITY a '&a;'>", "&a;", "&amp;", "&#x41;", "&#xD800;", "&#", ";", "\"", "'", "=", "xmlns=", "xmlns:a=''", "<a:b/>", "<style>", "</style>", "*{fill:red}", ".a{", "}", "<text>", "<tspan>", "<stop/>", "<use xlink:href='#a'/>",
    "<defs>", "<path d='", "M0 0", "e5", "\u{0}", "\u{feff}", "é", "😀", "\n", "\t", " ", "id='a'", "xlink:href='#a'", "fill='url(#a)'", "style='", "0", "-", "."];

fn borrow_value(r: &mut Rng, d: &Dom, all: &[usize]) -> String {
    for _ in 0..4 {
        let n = *r.pick(all);
        if !d.attrs(n).is_empty() { return r.pick(d.attrs(n)).1.clone(); }
    }
    "1".into()
}

fn any_value(r: &mut Rng, d: &Dom, all: &[usize], ids: &[String], attr: &str) -> String {
    match r.below(8) {
        0 | 1 => r.pick(WEIRD).to_string(),
        2 | 3 if !ids.is_empty() => { let i = r.pick(ids).clone(); if attr == "xlink:href" { format!("#{}", i) } else if r.p(0.8) { format!("url(#{})", i) } else { format!("#{}", i) } }
        4 => borrow_value(r, d, all),
        5 => gen_path::path(r, true),
        6 => { let k = r.range(1, 7); (0..k).map(|_| *r.pick(&["0", "1", "-5", "10", "0.5", "1e5", "50%", "1e308", "-1e-300"])).collect::<Vec<_>>().join(r.pick(&[" ", ",", ", "])) }
        _ => { let mut v = borrow_value(r, d, all); let b: Vec<usize> = v.char_indices().map(|x| x.0).collect(); if !b.is_empty() { let i = *r.pick(&b); if r.p(0.5) { v.truncate(i); } else { v.insert_str(i, *r.pick(WEIRD)); } } v }
    }
}

pub fn p14_gen(r: &mut Rng) -> Case {
    let c = Cfg { budget: 3 + r.below(16), max_depth: 4, p_rich: 0.3, p_bad: 0.1, p_css: 0.15, p_style_attr: 0.2, p_invisible: 0.1, n_grad: (0, 3), n_clip: (0, 1), n_mask: (0, 1), n_pattern: (0, 1), n_marker: (0, 1), n_filter: (0, 1), n_symbol: (0, 1), n_defshape: (0, 2), w_use: 5, w_text: 5, p_inherit: 0.05, p_current: 0.05, ..Cfg::default() };
    let mut d = Gen::new(r, c).document();
    let root = d.root;
    if r.p(0.9) {
        let k = match r.below(4) { 0 => 1, 1 => r.range(1, 4), _ => r.range(2, 14) };
        for _ in 0..k {
            let all = els(&d);
            let mut ids: Vec<String> = all.iter().filter_map(|&n| d.attr(n, "id").map(|s| s.to_string())).collect();
            ids.sort();
            let n = *r.pick(&all);
            match r.below(17) {
                14 | 15 | 16 => { let n = if r.p(0.2) { root } else { n }; let nm = d.name(n).to_string(); let (a, v) = crate::gen_wide::any_attr(r, &nm); let v = if r.p(0.08) { "inherit" } else { v }; d.set(n, a, v); }
                0 | 1 | 2 => if !d.attrs(n).is_empty() { let i = r.below(d.attrs(n).len()); let a = d.attrs(n)[i].0.clone(); if a.starts_with("xmlns") { continue; } let v = any_value(r, &d, &all, &ids, &a); d.set(n, &a, v); },
                3 | 4 => { let a = *r.pick(SVG_ATTRS); if ["onload", "onclick"].contains(&a) { continue; } let v = any_value(r, &d, &all, &ids, a); d.set(n, a, v); }
                5 => if n != root { let nm = *r.pick(SVG_ELEMENTS); if ["script", "animate", "set", "animateColor", "animateMotion", "animateTransform"].contains(&nm) && r.p(0.9) { continue; } if let Kind::El { ref mut name, .. } = d.nodes[n].kind { *name = nm.to_string(); } },
                6 => { let nm = *r.pick(SVG_ELEMENTS); if ["script", "animate", "set", "animateColor", "animateMotion", "animateTransform"].contains(&nm) && r.p(0.9) { continue; } let e = d.new_el(None, nm); d.nodes[e].parent = Some(n); let m = d.nodes[n].children.len(); let at = r.below(m + 1); d.nodes[n].children.insert(at, e); let m = r.below(4); for _ in 0..m { let a = *r.pick(SVG_ATTRS); let v = any_value(r, &d, &all, &ids, a); d.set(e, a, v); } }
                7 | 8 => if !ids.is_empty() {
                    // references between anything, with itself and loops
                    let a = *r.pick(&["xlink:href", "xlink:href", "fill", "stroke", "clip-path", "mask", "filter", "marker-start", "marker", "cursor"]);
                    let i = r.pick(&ids).clone();
                    let n = if r.p(0.3) { *d.ids().get(&i).unwrap() } else { n };
                    d.set(n, a, if a == "xlink:href" { format!("#{}", i) } else { format!("url(#{})", i) });
                },
                9 => { let i = if !ids.is_empty() && r.p(0.7) { r.pick(&ids).clone() } else { r.pick(&["a", "", " ", "g1", "x y", "é"]).to_string() }; d.set(n, "id", i); }
                10 => if n != root {
                    // move a subtree
                    let mut sub = vec![]; d.walk_from(n, &mut sub);
                    let t = *r.pick(&all);
                    if sub.contains(&t) { continue; }
                    let p = d.parent(n).unwrap();
                    d.nodes[p].children.retain(|&c| c != n);
                    d.nodes[n].parent = Some(t);
                    let m = d.nodes[t].children.len();
                    let at = r.below(m + 1);
                    d.nodes[t].children.insert(at, n);
                },
                11 => if n != root { let p = d.parent(n).unwrap(); d.nodes[p].children.retain(|&c| c != n); },
                12 => if !d.attrs(n).is_empty() { let i = r.below(d.attrs(n).len()); if d.attrs(n)[i].0 != "xmlns" { d.attrs_mut(n).remove(i); } },
                _ => { let k = match r.below(4) { 0 => Kind::Text(hostile(r, 5)), 1 => Kind::CData(hostile(r, 4).replace("]]>", "")), 2 => Kind::Comment(comment(r)), _ => Kind::Text(r.pick(&["", " ", "a", "\n\t"]).to_string()) }; insert(r, &mut d, n, k); }
            }
        }
    }
    if r.p(0.03) {
        // deep nesting
        let nm = *r.pick(&["g", "svg", "a", "text", "tspan", "switch", "defs", "x", "linearGradient", "clipPath"]);
        let k = *r.pick(&[10, 50, 100, 200]);
        let mut p = root;
        for i in 0..k { p = d.new_el(Some(p), nm); if r.p(0.1) { d.set(p, "opacity", "0.9"); } if i == k - 1 && r.p(0.5) { let e = d.new_el(Some(p), "rect"); d.set(e, "width", "5"); d.set(e, "height", "5"); } }
    }
    let mut s = d.to_xml();
    if r.p(0.25) {
        // text level
        let k = r.range(1, 4);
        for _ in 0..k {
            let b: Vec<usize> = s.char_indices().map(|x| x.0).collect();
            if b.is_empty() { break; }
            let i = *r.pick(&b);
            let j = b[(b.iter().position(|x| *x == i).unwrap() + r.below(12)).min(b.len() - 1)];
            match r.below(6) {
                0 => s.truncate(i),
                1 => s.replace_range(i..j, ""),
                2 => { let t = s[i..j].to_string(); s.insert_str(i, &t); }
                3 | 4 => s.insert_str(i, *r.pick(TOKENS)),
                _ => s.replace_range(i..j, *r.pick(TOKENS)),
            }
        }
    }
    let args = if r.p(0.4) { vec![] } else {
        let mut o = random_opts(r, &[]);
        for f in ["coordinates-precision", "properties-precision", "transforms-precision", "paths-coordinates-precision"] { if r.p(0.2) && !o.extra.iter().any(|x| x.contains(f)) { o.extra.push(format!("--{}={}", f, r.range(1, 12))); } }
        o.args()
    };
    Case { svg: s, args }
}

pub fn p14_check(c: &Case, info: &mut Info) -> Result<(), String> {
    let o = match pipeline::opts(&c.args) { Ok(o) => o, Err(e) => { info.excl(e); return Ok(()); } };
    match pipeline::clean_once(&c.svg, &o) {
        Out::Ok(_) => { info.class("accepted"); info.nontrivial = true; }
        Out::Rejected(m) => { info.class("rejected"); info.nontrivial = true; if m.trim().is_empty() { return Err("an error without a message".into()); } }
        Out::Panic(m) => { if let Some(k) = parser_defect(&c.svg, &m) { info.excl(k); return Ok(()); } return Err(format!("panic: {}", m)); }
        Out::BadUtf8 => return Err("the output is not UTF-8".into()),
    }
    Ok(())
}

/// Known findings: crashes inside of the parser libraries, and links of elements that the parser has removed.
pub fn parser_defect(svg: &str, m: &str) -> Option<&'static str> {
    if limits::disabled() { return None; }
    if m.contains(" at simplecss-0.1.0/src/stream.rs:") { return Some("known-simplecss-panic"); }
    if m.contains(" at svgdom-0.10.5/src/dom/node.rs:1018") || m.contains(" at svgdom-0.10.5/src/dom/node.rs:307") {
        let d = match xml::parse(svg) { Ok(d) => d, Err(_) => return Some("known-svgdom-links-malformed-input") };
        for n in els(&d) {
            let nm = d.name(n);
            if local(nm) != "style" && SVG_ELEMENTS.contains(&local(nm)) && (!nm.contains(':') || nm.starts_with("svg:")) { continue; }
            let mut sub = vec![];
            d.walk_from(n, &mut sub);
            if sub.iter().any(|&k| d.is_el(k) && d.attrs(k).iter().any(|(a, v)| a == "xlink:href" || v.contains("url(") || v.starts_with('#'))) { return Some("known-svgdom-links-of-removed"); }
        }
    }
    None
}

//! A strict, independent XML 1.0 (+ namespaces) reader for the subset the cleaner
//! consumes and produces, and a plain serializer. Used as an oracle for
//! well-formedness and as the front end of the reference renderer.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    El { name: String, attrs: Vec<(String, String)> },
    Text(String),
    CData(String),
    Comment(String),
    Pi(String, String),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub kind: Kind,
}

#[derive(Clone, Debug, Default)]
pub struct Dom {
    pub nodes: Vec<Node>,
    pub root: usize,
    /// Nodes before / after the root element.
    pub prolog: Vec<usize>,
    pub epilog: Vec<usize>,
    pub decl: Option<String>,
    pub doctype: Option<String>,
    pub entities: HashMap<String, String>,
}

impl Dom {
    pub fn name(&self, i: usize) -> &str {
        match self.nodes[i].kind { Kind::El { ref name, .. } => name, _ => "" }
    }
    pub fn is_el(&self, i: usize) -> bool {
        matches!(self.nodes[i].kind, Kind::El { .. })
    }
    pub fn attrs(&self, i: usize) -> &[(String, String)] {
        match self.nodes[i].kind { Kind::El { ref attrs, .. } => attrs, _ => &[] }
    }
    pub fn attrs_mut(&mut self, i: usize) -> &mut Vec<(String, String)> {
        match self.nodes[i].kind { Kind::El { ref mut attrs, .. } => attrs, _ => panic!("not element") }
    }
    pub fn attr(&self, i: usize, n: &str) -> Option<&str> {
        self.attrs(i).iter().find(|a| a.0 == n).map(|a| a.1.as_str())
    }
    pub fn children(&self, i: usize) -> &[usize] {
        &self.nodes[i].children
    }
    pub fn el_children(&self, i: usize) -> Vec<usize> {
        self.nodes[i].children.iter().cloned().filter(|&c| self.is_el(c)).collect()
    }
    pub fn parent(&self, i: usize) -> Option<usize> {
        self.nodes[i].parent
    }
    /// All nodes reachable from the root in document order.
    pub fn walk(&self) -> Vec<usize> {
        let mut out = Vec::new();
        self.walk_from(self.root, &mut out);
        out
    }
    pub fn walk_from(&self, i: usize, out: &mut Vec<usize>) {
        out.push(i);
        for &c in &self.nodes[i].children { self.walk_from(c, out); }
    }
    pub fn ids(&self) -> HashMap<String, usize> {
        let mut m = HashMap::new();
        for i in self.walk() {
            if let Some(id) = self.attr(i, "id") {
                m.entry(id.to_string()).or_insert(i);
            }
        }
        m
    }
    pub fn text_of(&self, i: usize) -> String {
        let mut s = String::new();
        for &c in self.children(i) {
            match self.nodes[c].kind {
                Kind::Text(ref t) | Kind::CData(ref t) => s.push_str(t),
                Kind::El { .. } => s.push_str(&self.text_of(c)),
                _ => {}
            }
        }
        s
    }
    pub fn has_ancestor(&self, mut i: usize, name: &str) -> bool {
        while let Some(p) = self.parent(i) {
            if self.name(p) == name { return true; }
            i = p;
        }
        false
    }

    // ---- construction -------------------------------------------------
    pub fn new_el(&mut self, parent: Option<usize>, name: &str) -> usize {
        let id = self.nodes.len();
        self.nodes.push(Node { parent, children: vec![], kind: Kind::El { name: name.into(), attrs: vec![] } });
        if let Some(p) = parent { self.nodes[p].children.push(id); }
        id
    }
    pub fn new_node(&mut self, parent: Option<usize>, kind: Kind) -> usize {
        let id = self.nodes.len();
        self.nodes.push(Node { parent, children: vec![], kind });
        if let Some(p) = parent { self.nodes[p].children.push(id); }
        id
    }
    pub fn set(&mut self, i: usize, n: &str, v: impl Into<String>) {
        let v = v.into();
        let a = self.attrs_mut(i);
        if let Some(x) = a.iter_mut().find(|x| x.0 == n) { x.1 = v; } else { a.push((n.into(), v)); }
    }
    pub fn unset(&mut self, i: usize, n: &str) {
        self.attrs_mut(i).retain(|x| x.0 != n);
    }

    // ---- serialization ------------------------------------------------
    pub fn to_xml(&self) -> String {
        let mut s = String::new();
        if let Some(ref d) = self.decl { s.push_str(&format!("<?xml {}?>\n", d)); }
        if let Some(ref d) = self.doctype { s.push_str(&format!("<!DOCTYPE {}>\n", d)); }
        for &p in &self.prolog { self.write(p, &mut s); s.push('\n'); }
        self.write(self.root, &mut s);
        for &p in &self.epilog { s.push('\n'); self.write(p, &mut s); }
        s
    }
    fn write(&self, i: usize, s: &mut String) {
        match self.nodes[i].kind {
            Kind::El { ref name, ref attrs } => {
                s.push('<');
                s.push_str(name);
                for (n, v) in attrs {
                    s.push(' ');
                    s.push_str(n);
                    s.push_str("=\"");
                    for c in v.chars() {
                        match c {
                            '<' => s.push_str("&lt;"),
                            '&' => s.push_str("&amp;"),
                            '"' => s.push_str("&quot;"),
                            '\n' => s.push_str("&#10;"),
                            '\t' => s.push_str("&#9;"),
                            '\r' => s.push_str("&#13;"),
                            c => s.push(c),
                        }
                    }
                    s.push('"');
                }
                if self.nodes[i].children.is_empty() {
                    s.push_str("/>");
                } else {
                    s.push('>');
                    for &c in &self.nodes[i].children { self.write(c, s); }
                    s.push_str("</");
                    s.push_str(name);
                    s.push('>');
                }
            }
            Kind::Text(ref t) => {
                for c in t.chars() {
                    match c {
                        '<' => s.push_str("&lt;"),
                        '>' => s.push_str("&gt;"),
                        '&' => s.push_str("&amp;"),
                        c => s.push(c),
                    }
                }
            }
            Kind::CData(ref t) => {
                s.push_str("<![CDATA[");
                s.push_str(t);
                s.push_str("]]>");
            }
            Kind::Comment(ref t) => {
                s.push_str("<!--");
                s.push_str(t);
                s.push_str("-->");
            }
            Kind::Pi(ref t, ref d) => {
                s.push_str("<?");
                s.push_str(t);
                if !d.is_empty() { s.push(' '); s.push_str(d); }
                s.push_str("?>");
            }
        }
    }
}

pub fn is_name_start(c: char) -> bool {
    matches!(c, ':' | '_' | 'A'..='Z' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}'
        | '\u{F8}'..='\u{2FF}' | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}'
        | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
        | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
}
pub fn is_name_char(c: char) -> bool {
    is_name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}
fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

struct P<'a> {
    s: &'a [u8],
    t: &'a str,
    i: usize,
    dom: Dom,
    depth: usize,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("XML error at byte {}: {}", self.i, m))
    }
    fn starts(&self, p: &str) -> bool { self.s[self.i..].starts_with(p.as_bytes()) }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; }
        self.i > st
    }
    fn until(&mut self, p: &str) -> R<&'a str> {
        match self.t[self.i..].find(p) {
            Some(k) => {
                let r = &self.t[self.i..self.i + k];
                self.i += k + p.len();
                if r.chars().any(|c| !is_xml_char(c)) { return self.err("illegal character"); }
                Ok(r)
            }
            None => self.err(&format!("expected '{}'", p)),
        }
    }
    fn name(&mut self) -> R<&'a str> {
        let st = self.i;
        let mut it = self.t[self.i..].char_indices();
        match it.next() {
            Some((_, c)) if is_name_start(c) => {}
            _ => return self.err("name expected"),
        }
        let mut e = self.t.len() - st;
        for (k, c) in it {
            if !is_name_char(c) { e = k; break; }
        }
        self.i = st + e;
        Ok(&self.t[st..st + e])
    }
    /// Decodes references. `attr` applies attribute-value normalization.
    fn decode(&self, raw: &str, attr: bool, depth: usize, out: &mut String) -> R<()> {
        if depth > 8 { return self.err("entity recursion"); }
        let mut it = raw.char_indices().peekable();
        while let Some((k, c)) = it.next() {
            if !is_xml_char(c) { return self.err("illegal character"); }
            match c {
                '&' => {
                    let rest = &raw[k + 1..];
                    let e = match rest.find(';') { Some(e) => e, None => return self.err("unterminated reference") };
                    let body = &rest[..e];
                    if let Some(n) = body.strip_prefix('#') {
                        let v = if let Some(h) = n.strip_prefix('x') { u32::from_str_radix(h, 16) } else { n.parse() };
                        match v.ok().and_then(char::from_u32) {
                            Some(ch) if is_xml_char(ch) => out.push(ch),
                            _ => return self.err("bad char reference"),
                        }
                    } else {
                        match body {
                            "lt" => out.push('<'),
                            "gt" => out.push('>'),
                            "amp" => out.push('&'),
                            "quot" => out.push('"'),
                            "apos" => out.push('\''),
                            _ => match self.dom.entities.get(body) {
                                Some(v) => { let v = v.clone(); self.decode(&v, attr, depth + 1, out)?; }
                                None => return self.err(&format!("undefined entity '{}'", body)),
                            },
                        }
                    }
                    let target = k + 1 + e + 1;
                    while let Some(&(j, _)) = it.peek() { if j < target { it.next(); } else { break; } }
                }
                '<' if attr => return self.err("'<' in attribute value"),
                '\r' => {
                    if let Some(&(_, '\n')) = it.peek() { continue; }
                    out.push(if attr { ' ' } else { '\n' });
                }
                '\n' | '\t' if attr => out.push(' '),
                c => out.push(c),
            }
        }
        Ok(())
    }
    fn misc(&mut self, parent: Option<usize>) -> R<Option<usize>> {
        if self.starts("<!--") {
            self.i += 4;
            let b = self.until("--")?;
            if !self.starts(">") { return self.err("'--' in comment"); }
            self.i += 1;
            let n = self.dom.new_node(parent, Kind::Comment(b.into()));
            return Ok(Some(n));
        }
        if self.starts("<?") {
            self.i += 2;
            let n = self.name()?;
            if n.eq_ignore_ascii_case("xml") { return self.err("misplaced XML declaration"); }
            let w = self.ws();
            let b = self.until("?>")?;
            if !w && !b.is_empty() { return self.err("bad PI"); }
            let n = self.dom.new_node(parent, Kind::Pi(n.into(), b.into()));
            return Ok(Some(n));
        }
        Ok(None)
    }
    fn doctype(&mut self) -> R<()> {
        let st = self.i;
        self.i += "<!DOCTYPE".len();
        if !self.ws() { return self.err("DOCTYPE"); }
        self.name()?;
        loop {
            self.ws();
            if self.starts(">") { self.i += 1; break; }
            if self.starts("\"") { self.i += 1; self.until("\"")?; continue; }
            if self.starts("'") { self.i += 1; self.until("'")?; continue; }
            if self.starts("[") {
                self.i += 1;
                loop {
                    self.ws();
                    if self.starts("]") { self.i += 1; break; }
                    if self.misc(None)?.is_some() { continue; }
                    if self.starts("<!ENTITY") {
                        self.i += 8;
                        if !self.ws() { return self.err("ENTITY"); }
                        let n = self.name()?.to_string();
                        self.ws();
                        let q = if self.starts("\"") { "\"" } else if self.starts("'") { "'" } else { return self.err("external entity") };
                        self.i += 1;
                        let v = self.until(q)?.to_string();
                        self.ws();
                        if !self.starts(">") { return self.err("ENTITY"); }
                        self.i += 1;
                        self.dom.entities.entry(n).or_insert(v);
                        continue;
                    }
                    if self.starts("<!") { self.until(">")?; continue; }
                    return self.err("DTD");
                }
                continue;
            }
            self.name()?;
        }
        self.dom.doctype = Some(self.t[st + 10..self.i - 1].trim().to_string());
        Ok(())
    }
    fn element(&mut self, parent: Option<usize>) -> R<usize> {
        self.depth += 1;
        if self.depth > 2000 { return self.err("too deep"); }
        self.i += 1;
        let name = self.name()?.to_string();
        let id = self.dom.new_el(parent, &name);
        loop {
            let w = self.ws();
            if self.starts("/>") { self.i += 2; self.depth -= 1; return Ok(id); }
            if self.starts(">") { self.i += 1; break; }
            if !w { return self.err("whitespace expected before attribute"); }
            let an = self.name()?.to_string();
            self.ws();
            if !self.starts("=") { return self.err("'=' expected"); }
            self.i += 1;
            self.ws();
            let q = if self.starts("\"") { "\"" } else if self.starts("'") { "'" } else { return self.err("quote expected") };
            self.i += 1;
            let raw = self.until(q)?;
            let mut v = String::new();
            self.decode(raw, true, 0, &mut v)?;
            if self.dom.attr(id, &an).is_some() { return self.err(&format!("duplicate attribute '{}'", an)); }
            self.dom.attrs_mut(id).push((an, v));
        }
        loop {
            if self.i >= self.s.len() { return self.err("unexpected end"); }
            if self.starts("</") {
                self.i += 2;
                let n = self.name()?;
                if n != name { return self.err(&format!("closing tag '{}' does not match '{}'", n, name)); }
                self.ws();
                if !self.starts(">") { return self.err("'>' expected"); }
                self.i += 1;
                self.depth -= 1;
                return Ok(id);
            }
            if self.starts("<![CDATA[") {
                self.i += 9;
                let b = self.until("]]>")?.replace("\r\n", "\n").replace('\r', "\n");
                self.dom.new_node(Some(id), Kind::CData(b));
                continue;
            }
            if self.misc(Some(id))?.is_some() { continue; }
            if self.starts("<") { self.element(Some(id))?; continue; }
            let st = self.i;
            while self.i < self.s.len() && self.s[self.i] != b'<' { self.i += 1; }
            let raw = &self.t[st..self.i];
            if raw.contains("]]>") { return self.err("']]>' in text"); }
            let mut v = String::new();
            self.decode(raw, false, 0, &mut v)?;
            self.dom.new_node(Some(id), Kind::Text(v));
        }
    }
}

pub fn parse(t: &str) -> Result<Dom, String> {
    let mut p = P { s: t.as_bytes(), t, i: 0, dom: Dom::default(), depth: 0 };
    if p.starts("\u{FEFF}") { p.i += 3; }
    if p.starts("<?xml ") || p.starts("<?xml\t") || p.starts("<?xml\n") {
        p.i += 5;
        p.ws();
        let d = p.until("?>")?.to_string();
        p.dom.decl = Some(d);
    }
    loop {
        p.ws();
        if let Some(n) = p.misc(None)? { p.dom.prolog.push(n); continue; }
        if p.starts("<!DOCTYPE") {
            if p.dom.doctype.is_some() { return p.err("two DOCTYPEs"); }
            p.doctype()?;
            // comments inside the DTD are not part of the tree
            continue;
        }
        break;
    }
    if !p.starts("<") { return p.err("root element expected"); }
    let r = p.element(None)?;
    p.dom.root = r;
    loop {
        p.ws();
        if p.i >= p.s.len() { break; }
        if let Some(n) = p.misc(None)? { p.dom.epilog.push(n); continue; }
        return p.err("content after root element");
    }
    check_ns(&p.dom)?;
    Ok(p.dom)
}

/// Namespace well-formedness: every used prefix is declared in scope.
fn check_ns(d: &Dom) -> Result<(), String> {
    fn rec(d: &Dom, i: usize, scope: &mut Vec<String>) -> Result<(), String> {
        let n = scope.len();
        for (a, v) in d.attrs(i) {
            if let Some(p) = a.strip_prefix("xmlns:") {
                if v.is_empty() { return Err(format!("empty namespace for prefix '{}'", p)); }
                scope.push(p.to_string());
            }
        }
        let chk = |q: &str, what: &str| -> Result<(), String> {
            let mut it = q.split(':');
            let a = it.next().unwrap();
            if let Some(b) = it.next() {
                if a.is_empty() || b.is_empty() || it.next().is_some() { return Err(format!("bad qualified {} name '{}'", what, q)); }
                if a != "xml" && a != "xmlns" && !scope.iter().any(|s| s == a) {
                    return Err(format!("undeclared namespace prefix '{}' in {} '{}'", a, what, q));
                }
            }
            Ok(())
        };
        chk(d.name(i), "element")?;
        for (a, _) in d.attrs(i) { chk(a, "attribute")?; }
        for &c in d.children(i) { if d.is_el(c) { rec(d, c, scope)?; } }
        scope.truncate(n);
        Ok(())
    }
    rec(d, d.root, &mut vec![])
}

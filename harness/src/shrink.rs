//! Delta-debugging shrinker over the XML tree and the option list.

use crate::values::*;
use crate::xml::*;

#[derive(Clone, Debug)]
pub struct Case { pub svg: String, pub args: Vec<String> }

pub fn shrink(c: &Case, fails: &mut dyn FnMut(&Case) -> bool, max: usize) -> Case {
    let mut best = c.clone();
    let mut left = max;
    let mut try_case = |k: Case, best: &mut Case, left: &mut usize| -> bool {
        if *left == 0 { return false; }
        *left -= 1;
        if fails(&k) { *best = k; true } else { false }
    };
    for _round in 0..8 {
        let mut progress = false;
        // options
        let mut i = 0;
        while i < best.args.len() {
            let mut k = best.clone();
            k.args.remove(i);
            if try_case(k, &mut best, &mut left) { progress = true; } else { i += 1; }
        }
        let dom = match parse(&best.svg) { Ok(d) => d, Err(_) => { progress |= shrink_text(&mut best, &mut |k, b| try_case(k, b, &mut left)); if progress { continue; } else { break; } } };
        let mut dom = dom;
        // drop prolog, decl, doctype
        if dom.decl.is_some() || dom.doctype.is_some() || !dom.prolog.is_empty() || !dom.epilog.is_empty() {
            let mut d = dom.clone();
            d.decl = None; d.doctype = None; d.prolog.clear(); d.epilog.clear();
            if try_case(Case { svg: d.to_xml(), args: best.args.clone() }, &mut best, &mut left) { dom = d; progress = true; }
        }
        // remove nodes, big ones first
        let mut order = dom.walk();
        order.retain(|&n| n != dom.root);
        let size = |d: &Dom, n: usize| { let mut v = vec![]; d.walk_from(n, &mut v); v.len() };
        order.sort_by_key(|&n| std::cmp::Reverse(size(&dom, n)));
        for n in order {
            if !alive(&dom, n) { continue; }
            let p = dom.parent(n).unwrap();
            let mut d = dom.clone();
            d.nodes[p].children.retain(|&c| c != n);
            if try_case(Case { svg: d.to_xml(), args: best.args.clone() }, &mut best, &mut left) { dom = d; progress = true; continue; }
            // hoist children
            if !dom.children(n).is_empty() && dom.is_el(n) {
                let mut d = dom.clone();
                let pos = d.nodes[p].children.iter().position(|&c| c == n).unwrap();
                let kids = d.nodes[n].children.clone();
                for &k in &kids { d.nodes[k].parent = Some(p); }
                d.nodes[p].children.splice(pos..pos + 1, kids);
                if try_case(Case { svg: d.to_xml(), args: best.args.clone() }, &mut best, &mut left) { dom = d; progress = true; }
            }
        }
        // attributes
        for n in dom.walk() {
            if !dom.is_el(n) { continue; }
            let mut i = 0;
            while i < dom.attrs(n).len() {
                if dom.attrs(n)[i].0 == "xmlns" { i += 1; continue; }
                let mut d = dom.clone();
                d.attrs_mut(n).remove(i);
                if try_case(Case { svg: d.to_xml(), args: best.args.clone() }, &mut best, &mut left) { dom = d; progress = true; continue; }
                // simpler value
                let (an, av) = dom.attrs(n)[i].clone();
                for s in simpler(&an, &av) {
                    let mut d = dom.clone();
                    d.attrs_mut(n)[i].1 = s;
                    if try_case(Case { svg: d.to_xml(), args: best.args.clone() }, &mut best, &mut left) { dom = d; progress = true; break; }
                }
                i += 1;
            }
        }
        if !progress || left == 0 { break; }
    }
    best
}

fn alive(d: &Dom, mut n: usize) -> bool {
    while n != d.root {
        match d.parent(n) { Some(p) => { if !d.nodes[p].children.contains(&n) { return false; } n = p; } None => return false }
    }
    true
}

fn simpler(name: &str, v: &str) -> Vec<String> {
    let mut out = vec![];
    if name == "d" {
        let (raw, ok) = path_raw(v);
        if ok {
            let w = |r: &[RawSeg]| r.iter().map(|s| format!("{}{}", s.cmd as char, s.v.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" ");
            for i in (1..raw.len()).rev() {
                let mut r = raw.clone();
                r.remove(i);
                out.push(w(&r));
            }
            if raw.len() > 3 { out.insert(0, w(&raw[..raw.len() / 2])); }
            for i in 0..raw.len() {
                for j in 0..raw[i].v.len() {
                    let x = raw[i].v[j];
                    if x.fract() != 0.0 { let mut r = raw.clone(); r[i].v[j] = x.round(); out.push(w(&r)); }
                }
            }
        }
    } else if name == "style" {
        let p: Vec<&str> = v.split(';').collect();
        if p.len() > 1 { for i in 0..p.len() { let mut q = p.clone(); q.remove(i); out.push(q.join(";")); } }
    } else if name.ends_with("ransform") {
        let p: Vec<&str> = v.split(')').filter(|x| !x.trim().is_empty()).collect();
        if p.len() > 1 { for i in 0..p.len() { let mut q = p.clone(); q.remove(i); out.push(q.iter().map(|x| format!("{})", x.trim())).collect::<Vec<_>>().join(" ")); } }
    } else if name == "points" {
        let p: Vec<&str> = v.split_ascii_whitespace().collect();
        if p.len() > 2 { for i in 0..p.len() { let mut q = p.clone(); q.remove(i); out.push(q.join(" ")); } }
    } else if let Some(x) = number(v) {
        if x.fract() != 0.0 { out.push(format!("{}", x.round())); }
        if x != 10.0 && x.abs() > 10.0 { out.push("10".into()); }
    }
    out
}

fn shrink_text(best: &mut Case, try_case: &mut dyn FnMut(Case, &mut Case) -> bool) -> bool {
    let mut progress = false;
    let mut chunk = best.svg.len() / 2;
    while chunk >= 1 {
        let mut i = 0;
        while i < best.svg.len() {
            let e = (i + chunk).min(best.svg.len());
            if !best.svg.is_char_boundary(i) || !best.svg.is_char_boundary(e) { i += 1; continue; }
            let s = format!("{}{}", &best.svg[..i], &best.svg[e..]);
            if try_case(Case { svg: s, args: best.args.clone() }, best) { progress = true; } else { i += chunk; }
        }
        chunk /= 2;
    }
    progress
}

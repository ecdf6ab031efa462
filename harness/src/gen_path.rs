//! Path data with unusual but valid shapes and notations.

use crate::rng::Rng;

pub struct PathGen { pub relaxed: bool, pub arcs: bool, pub scale: f64 }

fn num(r: &mut Rng, v: f64, exotic: bool) -> String {
    let v = if v == 0.0 { 0.0 } else { v };
    let s = format!("{}", v);
    if !exotic { return s; }
    match r.below(9) {
        0 if v.abs() < 1.0 && v != 0.0 => s.replacen("0.", ".", 1),
        1 if v >= 0.0 => format!("+{}", s),
        2 if v.fract() == 0.0 => format!("{}.0", s),
        3 if v.fract() == 0.0 && (v % 10.0) == 0.0 && v != 0.0 => format!("{}e1", v / 10.0),
        4 if v.fract() == 0.0 && v.abs() < 1000.0 && v != 0.0 => format!("{}E2", v / 100.0),
        5 if v.fract() == 0.0 && v.abs() < 1e6 => format!("{}e-1", v * 10.0),
        6 if v.fract() == 0.0 && v > 0.0 => format!("0{}", s),
        _ => s,
    }
}

fn sep(r: &mut Rng, prev: &str, next: &str, exotic: bool) -> String {
    if !exotic { return " ".into(); }
    let tight = next.starts_with('-') || next.starts_with('+') || (next.starts_with('.') && prev.contains('.') && !prev.contains('e') && !prev.contains('E'));
    if tight && r.p(0.5) { return String::new(); }
    r.pick(&[" ", ",", " , ", "\n", "  ", ", ", "\t"]).to_string()
}

/// A coordinate grid with few values makes coincidences (zero lengths, collinear points) frequent.
fn coord(r: &mut Rng, mode: usize) -> f64 {
    match mode {
        0 => r.range(0, 3) as f64 * 10.0,
        1 => r.range(0, 20) as f64 * 10.0,
        2 => r.range(-50, 150) as f64,
        3 => r.range(-500, 1500) as f64 / 10.0,
        _ => r.range(-500000, 1500000) as f64 / 10000.0,
    }
}

pub fn path(r: &mut Rng, exotic: bool) -> String {
    let mode = r.below(5);
    let nseg = 1 + r.below(10);
    let mut out = String::new();
    let (mut x, mut y, mut sx, mut sy) = (0.0f64, 0.0f64, 0.0f64, 0.0f64);
    let mut last_cmd = ' ';
    let mut first = true;
    // last control points for hand-written smooth continuations
    let mut ctl: Option<(char, f64, f64)> = None;
    let mut i = 0;
    while i < nseg {
        i += 1;
        let rel = r.p(0.5);
        let w = if first { 0 } else { r.weighted(&[8, 40, 10, 10, 16, 6, 9, 6, 8, if "zZ".contains(last_cmd) { 0 } else { 8 }]) };
        let q = |v: f64| (v * 1e8).round() / 1e8;
        let (ox, oy) = if rel { (x, y) } else { (0.0, 0.0) };
        let c = |ch: char| if rel { ch.to_ascii_lowercase() } else { ch };
        let (mut nx, mut ny) = (coord(r, mode), coord(r, mode));
        match r.below(14) { 0 => { nx = x; ny = y; } 1 => { nx = sx; ny = sy; } 2 => nx = x, 3 => ny = y, _ => {} }
        let (cmd, args): (char, Vec<f64>) = match w {
            0 => (c('M'), vec![nx - ox, ny - oy]),
            1 => (c('L'), vec![nx - ox, ny - oy]),
            2 => { ny = y; (c('H'), vec![nx - ox]) }
            3 => { nx = x; (c('V'), vec![ny - oy]) }
            4 | 6 => {
                let (mut ax, mut ay, mut bx, mut by) = (coord(r, mode), coord(r, mode), coord(r, mode), coord(r, mode));
                if r.p(0.35) { if let Some((k, px, py)) = ctl { if (k == 'C') == (w == 4) { ax = 2.0 * x - px; ay = 2.0 * y - py; } } }
                match r.below(10) {
                    0 => { ax = x; ay = y; }
                    1 => { bx = nx; by = ny; }
                    2 => { ax = x; ay = y; bx = nx; by = ny; }
                    // points of the segment itself
                    3 => { ax = x + (nx - x) * 0.25; ay = y + (ny - y) * 0.25; bx = x + (nx - x) * 0.5; by = y + (ny - y) * 0.5; }
                    // beyond of the segment
                    4 => { ax = x - (nx - x); ay = y - (ny - y); bx = nx; by = ny; }
                    _ => {}
                }
                if w == 4 { ctl = Some(('C', bx, by)); (c('C'), vec![ax - ox, ay - oy, bx - ox, by - oy, nx - ox, ny - oy]) }
                else { ctl = Some(('Q', ax, ay)); (c('Q'), vec![ax - ox, ay - oy, nx - ox, ny - oy]) }
            }
            5 => {
                let (mut bx, mut by) = (coord(r, mode), coord(r, mode));
                if r.p(0.15) { bx = nx; by = ny; }
                ctl = Some(('C', bx, by));
                (c('S'), vec![bx - ox, by - oy, nx - ox, ny - oy])
            }
            7 => {
                let p = match ctl { Some(('Q', px, py)) => (2.0 * x - px, 2.0 * y - py), _ => (x, y) };
                ctl = Some(('Q', p.0, p.1));
                (c('T'), vec![nx - ox, ny - oy])
            }
            8 => {
                let rx = match r.below(8) { 0 => 0.0, 1 => 1.0, _ => r.range(1, 90) as f64 };
                let ry = if r.p(0.4) { rx } else { r.range(0, 90) as f64 };
                let rot = *r.pick(&[0.0, 0.0, 30.0, -45.0, 90.0, 12.5]);
                (c('A'), vec![rx, ry, rot, r.below(2) as f64, r.below(2) as f64, nx - ox, ny - oy])
            }
            _ => { nx = sx; ny = sy; (if rel { 'z' } else { 'Z' }, vec![]) }
        };
        if !(4..=7).contains(&w) { ctl = None; }
        let args: Vec<f64> = args.into_iter().map(q).collect();
        // the real position is the one of the written numbers
        let fin = |k: usize, o: f64| q(args[k] + o);
        let n = args.len();
        match w { 2 => nx = fin(0, ox), 3 => ny = fin(0, oy), 9 => {} _ => { nx = fin(n - 2, ox); ny = fin(n - 1, oy); } }

        let implicit = !first && cmd == match last_cmd { 'M' => 'L', 'm' => 'l', k => k } && !"zZmM".contains(cmd) && (exotic && r.p(0.6));
        if !implicit {
            if exotic && !out.is_empty() && r.p(0.3) { out.push_str(*r.pick(&[" ", "\n", "  "])); }
            else if !exotic && !out.is_empty() { out.push(' '); }
            out.push(cmd);
            if exotic && r.p(0.2) { out.push_str(*r.pick(&[" ", "\n", "  "])); }
        }
        let mut prev = String::new();
        for (k, v) in args.iter().enumerate() {
            let is_flag = w == 8 && (k == 3 || k == 4);
            let s = if is_flag { format!("{}", *v as i64) } else { num(r, *v, exotic) };
            if k > 0 || implicit {
                if k > 0 && w == 8 && (k == 4 || k == 5) && exotic && r.p(0.4) { /* flags need no separators */ }
                else {
                    let p = if k == 0 { last_number(&out) } else { prev.clone() };
                    let mut t = sep(r, &p, &s, exotic);
                    // svgparser does not accept spaces before a comma after a flag
                    if w == 8 && (k == 4 || k == 5) && t.trim() == "," { t = ",".into(); }
                    out.push_str(&t);
                }
            }
            out.push_str(&s);
            prev = s;
        }
        if w == 0 { sx = nx; sy = ny; }
        x = nx; y = ny;
        first = false;
        last_cmd = cmd;
    }
    out
}

fn last_number(s: &str) -> String {
    let b: Vec<char> = s.chars().rev().take_while(|c| c.is_ascii_digit() || *c == '.' || *c == 'e' || *c == 'E').collect();
    b.into_iter().rev().collect()
}

//! P17: the command line options against a model written from data/help.txt and the documentation.

use svgcleaner::cli::{self, InputFrom, OutputTo};
use svgcleaner::{CleaningOptions, ParseOptions, StyleJoinMode, WriteOptions};
use svgdom::{Indent, ListSeparator};

use crate::props::{Info, BOOLS};
use crate::rng::Rng;
use crate::shrink::Case;

type Get = fn(&CleaningOptions, &ParseOptions, &WriteOptions) -> bool;

/// Where the effect of each flag is observed.
const FIELDS: &[(&str, Get)] = &[
    ("remove-comments", |_, p, _| !p.parse_comments),
    ("remove-declarations", |_, p, _| !p.parse_declarations),
    ("remove-nonsvg-elements", |_, p, _| !p.parse_unknown_elements),
    ("remove-unused-defs", |c, _, _| c.remove_unused_defs),
    ("convert-shapes", |c, _, _| c.convert_shapes),
    ("remove-title", |c, _, _| c.remove_title),
    ("remove-desc", |c, _, _| c.remove_desc),
    ("remove-metadata", |c, _, _| c.remove_metadata),
    ("remove-dupl-lineargradient", |c, _, _| c.remove_dupl_linear_gradients),
    ("remove-dupl-radialgradient", |c, _, _| c.remove_dupl_radial_gradients),
    ("remove-dupl-fegaussianblur", |c, _, _| c.remove_dupl_fe_gaussian_blur),
    ("ungroup-groups", |c, _, _| c.ungroup_groups),
    ("ungroup-defs", |c, _, _| c.ungroup_defs),
    ("group-by-style", |c, _, _| c.group_by_style),
    ("merge-gradients", |c, _, _| c.merge_gradients),
    ("regroup-gradient-stops", |c, _, _| c.regroup_gradient_stops),
    ("remove-invalid-stops", |c, _, _| c.remove_invalid_stops),
    ("remove-invisible-elements", |c, _, _| c.remove_invisible_elements),
    ("resolve-use", |c, _, _| c.resolve_use),
    ("remove-version", |c, _, _| c.remove_version),
    ("remove-nonsvg-attributes", |_, p, _| !p.parse_unknown_attributes),
    ("remove-unreferenced-ids", |c, _, _| c.remove_unreferenced_ids),
    ("trim-ids", |c, _, _| c.trim_ids),
    ("remove-text-attributes", |c, _, _| c.remove_text_attributes),
    ("remove-unused-coordinates", |c, _, _| c.remove_unused_coordinates),
    ("remove-default-attributes", |c, _, _| c.remove_default_attributes),
    ("remove-xmlns-xlink-attribute", |c, _, _| c.remove_xmlns_xlink_attribute),
    ("remove-needless-attributes", |c, _, _| c.remove_needless_attributes),
    ("remove-gradient-attributes", |c, _, _| c.remove_gradient_attributes),
    ("apply-transform-to-gradients", |c, _, _| c.apply_transform_to_gradients),
    ("apply-transform-to-shapes", |c, _, _| c.apply_transform_to_shapes),
    ("remove-unresolved-classes", |_, p, _| p.skip_unresolved_classes),
    ("paths-to-relative", |c, _, _| c.paths_to_relative),
    ("remove-unused-segments", |c, _, _| c.remove_unused_segments),
    ("convert-segments", |c, _, _| c.convert_segments),
    ("apply-transform-to-paths", |c, _, _| c.apply_transform_to_paths),
    ("trim-paths", |_, _, w| w.use_compact_path_notation),
    ("join-arcto-flags", |_, _, w| w.join_arc_to_flags),
    ("remove-dupl-cmd-in-paths", |_, _, w| w.remove_duplicated_path_commands),
    ("use-implicit-cmds", |_, _, w| w.use_implicit_lineto_commands),
    ("trim-colors", |_, _, w| w.trim_hex_colors),
    ("append-newline", |c, _, _| c.append_newline),
    ("simplify-transforms", |_, _, w| w.simplify_transform_matrices),
];

const DEPS: &[(&str, &str)] = &[("join-arcto-flags", "trim-paths"), ("remove-unused-segments", "paths-to-relative"), ("convert-segments", "paths-to-relative"), ("apply-transform-to-paths", "paths-to-relative")];
const PREC: &[(&str, u8)] = &[("coordinates-precision", 6), ("properties-precision", 6), ("transforms-precision", 8), ("paths-coordinates-precision", 8)];
const ENUMS: &[(&str, &[&str], &str)] = &[("list-separator", &["space", "comma", "comma-space"], "space"), ("indent", &["none", "0", "1", "2", "3", "4", "tabs"], "none"), ("join-style-attributes", &["no", "some", "all"], "some")];
const SWITCHES: &[&str] = &["no-defaults", "multipass", "allow-bigger-file", "copy-on-error", "quiet"];

pub fn gen(r: &mut Rng) -> Case {
    let mut v: Vec<Vec<String>> = vec![];
    let mut put = |r: &mut Rng, n: &str, val: &str| {
        if r.p(0.75) { v.push(vec![format!("--{}={}", n, val)]); } else { v.push(vec![format!("--{}", n), val.to_string()]); }
    };
    let dens = *r.pick(&[0.0, 0.05, 0.2, 0.5, 1.0]);
    let pt = *r.pick(&[0.2, 0.5, 0.8]);
    let deps_ok = r.p(0.7);
    for (n, _) in BOOLS {
        if !r.p(dens) { continue; }
        let mut on = r.p(pt);
        if deps_ok && DEPS.iter().any(|d| d.1 == *n) { on = true; }
        let val = if on { *r.pick(&["true", "yes", "y"]) } else { *r.pick(&["false", "no", "n"]) };
        put(r, n, val);
    }
    for (n, _) in PREC { if r.p(0.25) { let k = r.range(1, 12).to_string(); put(r, n, &k); } }
    for (n, vals, _) in ENUMS { if r.p(0.25) { let x = *r.pick(vals); put(r, n, x); } }
    if r.p(0.15) {
        // one value in error
        match r.below(4) {
            0 => { let n = r.pick(BOOLS).0; let x = *r.pick(&["True", "YES", "1", "0", "on", "", "t", "maybe", "Y", "none"]); v.retain(|a| !a[0].trim_start_matches("--").split('=').next().map(|k| k == n).unwrap_or(false)); v.push(vec![format!("--{}={}", n, x)]); }
            1 => { let n = r.pick(PREC).0; let x = *r.pick(&["0", "13", "256", "-1", "x", "1.5", "", "12a", "100"]); v.retain(|a| !a[0].contains(n)); v.push(vec![format!("--{}={}", n, x)]); }
            2 => { let n = r.pick(ENUMS).0; let x = *r.pick(&["5", "yes", "", "Tab", "semicolon", "true", "-1"]); v.retain(|a| !a[0].contains(n)); v.push(vec![format!("--{}={}", n, x)]); }
            _ => v.push(vec![format!("--{}=true", *r.pick(&["remove-everything", "trim", "remove-comment", "ungroup"]))]),
        }
    }
    for s in SWITCHES { if r.p(if *s == "no-defaults" { 0.5 } else { 0.15 }) { v.push(vec![format!("--{}", s)]); } }
    r.shuffle(&mut v);
    let files: Vec<String> = match r.below(8) {
        0 => vec!["-c".into(), "-".into()],
        1 => vec!["a.svg".into(), "-".into()],
        2 => vec!["--stdout".into(), "dir/b.SVG".into()],
        3 => if r.p(0.3) { vec!["a.svg".into(), "b.png".into()] } else { vec!["x.SVG".into(), "y y.svg".into()] },
        4 => if r.p(0.3) { vec![(*r.pick(&["a.txt", "a.svgz", "svg", ""])).into(), "b.svg".into()] } else { vec!["./a.svg".into(), "a.svg".into()] },
        5 => if r.p(0.2) { vec!["a.svg".into()] } else { vec!["in.svg".into(), "out.svg".into()] },
        _ => vec!["in.svg".into(), "out.svg".into()],
    };
    // the files stay in order, anywhere between of the options
    let mut pos: Vec<usize> = (0..files.len()).map(|_| r.below(v.len() + 1)).collect();
    pos.sort();
    for (k, f) in files.into_iter().enumerate().rev() { v.insert(pos[k], vec![f]); }
    Case { svg: String::new(), args: v.into_iter().flatten().collect() }
}

struct Model { flags: Vec<(&'static str, bool)>, seen: Vec<(&'static str, bool)>, prec: Vec<u8>, enums: Vec<String>, files: Vec<String>, stdout: bool, multipass: bool }

/// The documented meaning of an argument list; an error means that it must be refused.
fn model(args: &[String]) -> Result<Model, String> {
    let mut given: Vec<(String, String)> = vec![];
    let mut files = vec![];
    let mut sw: Vec<&str> = vec![];
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        i += 1;
        if a == "-c" || a == "--stdout" { sw.push("stdout"); continue; }
        if a == "-" || !a.starts_with('-') { files.push(a.clone()); continue; }
        let b = a.trim_start_matches("--");
        if let Some(s) = SWITCHES.iter().find(|s| **s == b) { sw.push(s); continue; }
        let (n, v) = match b.find('=') {
            Some(k) => (b[..k].to_string(), b[k + 1..].to_string()),
            None => { if i >= args.len() || args[i].starts_with('-') { return Err("no value".into()); } i += 1; (b.to_string(), args[i - 1].clone()) }
        };
        if given.iter().any(|g| g.0 == n) { return Err("given twice".into()); }
        given.push((n, v));
    }
    if sw.iter().any(|a| sw.iter().filter(|b| *b == a).count() > 1) { return Err("a switch given twice".into()); }
    let stdout = sw.contains(&"stdout");
    if files.is_empty() || files.len() > 2 || (files.len() == 1 && !stdout) { return Err("files".into()); }
    for f in &files { if !(f.ends_with(".svg") || f.ends_with(".SVG") || f == "-") { return Err("file format".into()); } }
    let nd = sw.contains(&"no-defaults");
    let mut m = Model { flags: vec![], seen: vec![], prec: vec![], enums: vec![], files, stdout, multipass: sw.contains(&"multipass") };
    let known: Vec<&str> = BOOLS.iter().map(|b| b.0).chain(PREC.iter().map(|b| b.0)).chain(ENUMS.iter().map(|b| b.0)).collect();
    for (n, _) in &given { if !known.contains(&n.as_str()) { return Err(format!("unknown option {}", n)); } }
    for (n, d) in BOOLS {
        let g = match given.iter().find(|g| g.0 == *n).map(|g| g.1.as_str()) {
            Some("true") | Some("yes") | Some("y") => Some(true),
            Some("false") | Some("no") | Some("n") => Some(false),
            Some(x) => return Err(format!("bad flag value {:?}", x)),
            None => None,
        };
        m.seen.push((n, g.unwrap_or(*d)));
        m.flags.push((n, g.unwrap_or(if nd { false } else { *d })));
    }
    for (n, d) in PREC {
        m.prec.push(match given.iter().find(|g| g.0 == *n) {
            Some((_, v)) => match v.parse::<u8>() { Ok(k) if (1..=12).contains(&k) && v.bytes().all(|b| b.is_ascii_digit()) => k, _ => return Err(format!("bad precision {:?}", v)) },
            None => *d,
        });
    }
    for (n, vals, d) in ENUMS {
        m.enums.push(match given.iter().find(|g| g.0 == *n) { Some((_, v)) => if vals.contains(&v.as_str()) { v.clone() } else { return Err(format!("bad value {:?}", v)) }, None => d.to_string() });
    }
    Ok(m)
}

pub fn check(c: &Case, info: &mut Info) -> Result<(), String> {
    let mut v: Vec<String> = vec!["svgcleaner".into()];
    v.extend(c.args.iter().cloned());
    let m = cli::prepare_app().get_matches_from_safe(v).map_err(|e| e.message);
    let want = model(&c.args);
    // a form of an error that clap lets pass; not generated
    if want.as_ref().err().map(|e| e == "no value").unwrap_or(false) { info.excl("option without a value"); return Ok(()); }
    let m = match (m, &want) {
        (Ok(m), Ok(_)) => m,
        (Err(_), Err(_)) => { info.class("refused"); info.nontrivial = true; return Ok(()); }
        (Ok(_), Err(e)) => return Err(format!("arguments in error are accepted: {}", e)),
        (Err(e), Ok(_)) => return Err(format!("valid arguments are refused: {}", e)),
    };
    let want = want.unwrap();
    let seen = |n: &str| want.seen.iter().find(|s| s.0 == n).unwrap().1;
    let deps_ok = DEPS.iter().all(|(a, b)| !seen(a) || seen(b));
    if cli::check_values(&m) != deps_ok { return Err(format!("dependent options: accepted is {}, must be {}", !deps_ok, deps_ok)); }
    if !deps_ok { info.class("dependency-refused"); info.nontrivial = true; return Ok(()); }
    let (p, w, o) = (cli::gen_parse_options(&m), cli::gen_write_options(&m), cli::gen_cleaning_options(&m));
    for (n, f) in FIELDS {
        let b = want.flags.iter().find(|s| s.0 == *n).unwrap().1;
        if f(&o, &p, &w) != b { return Err(format!("{} is {}, must be {}", n, !b, b)); }
    }
    let prec = [o.coordinates_precision, o.properties_precision, o.transforms_precision, o.paths_coordinates_precision];
    for k in 0..4 { if prec[k] != want.prec[k] { return Err(format!("{} is {}, must be {}", PREC[k].0, prec[k], want.prec[k])); } }
    let sep = match w.list_separator { ListSeparator::Space => "space", ListSeparator::Comma => "comma", ListSeparator::CommaSpace => "comma-space" };
    if sep != want.enums[0] { return Err(format!("list separator is {}, must be {}", sep, want.enums[0])); }
    let ind = match w.indent { Indent::None => "none".to_string(), Indent::Spaces(k) => k.to_string(), Indent::Tabs => "tabs".into() };
    if ind != want.enums[1] { return Err(format!("indent is {}, must be {}", ind, want.enums[1])); }
    let st = match o.join_style_attributes { StyleJoinMode::None => "no", StyleJoinMode::Some => "some", StyleJoinMode::All => "all" };
    if st != want.enums[2] { return Err(format!("style join mode is {}, must be {}", st, want.enums[2])); }
    // not controlled by the command line: nothing may be skipped or hidden
    if p.skip_invalid_attributes || p.skip_invalid_css || p.skip_paint_fallback || p.parse_px_unit || w.write_hidden_attributes { return Err("an undocumented parse or write option".into()); }
    let f = &want.files;
    let dash_out = f.len() == 2 && f[1] == "-";
    let wi = if dash_out || (f[0] == "-" && want.stdout) { InputFrom::Stdin } else { InputFrom::File(&f[0]) };
    if cli::input(&m) != wi { return Err(format!("input is {:?}, must be {:?}", cli::input(&m), wi)); }
    let wo = if want.stdout { OutputTo::Stdout } else if dash_out { OutputTo::File(&f[0]) } else { OutputTo::File(&f[1]) };
    if cli::output(&m) != wo { return Err(format!("output is {:?}, must be {:?}", cli::output(&m), wo)); }
    if m.is_present("multipass") != want.multipass { return Err("multipass".into()); }
    info.class(if c.args.iter().any(|a| a == "--no-defaults") { "no-defaults" } else { "defaults" });
    info.nontrivial = c.args.len() > 2;
    Ok(())
}

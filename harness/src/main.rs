mod bin;
mod cmp;
mod gen;
mod gen_wide;
mod gen_path;
mod limits;
mod pipeline;
mod props;
mod props_cli;
mod props_doc;
mod props_files;
mod props_ids;
mod props_multi;
mod props_tree;
mod props_xml;
mod render;
mod rng;
mod runner;
mod shrink;
mod style;
mod tree;
mod values;
mod xml;

use rng::Rng;
use shrink::Case;

fn check(c: &Case) -> Result<&'static str, String> {
    let o = pipeline::opts(&c.args)?;
    let d0 = match xml::parse(&c.svg) { Ok(d) => d, Err(_) => return Ok("bad-input") };
    if let Some(l) = limits::out_of_domain(&d0) { return Ok(l); }
    let s0 = match render::render(&d0) { Ok(s) => s, Err(_) => return Ok("unrenderable") };
    let out = match pipeline::clean_once(&c.svg, &o) {
        pipeline::Out::Ok(s) => s,
        pipeline::Out::Rejected(_m) => { if std::env::var("REJ").is_ok() { eprintln!("REJ {}", _m.replace("\n"," ")); } return Ok("rejected") },
        pipeline::Out::Panic(m) => return Err(format!("panic: {}", m)),
        pipeline::Out::BadUtf8 => return Err("not utf8".into()),
    };
    let d1 = xml::parse(&out).map_err(|e| format!("output malformed: {} {}", e, out))?;
    let s1 = render::render(&d1).map_err(|e| format!("output unrenderable: {}", e))?;
    cmp::scenes(&s0, &s1, &cmp::Tol::DEFAULT)?;
    Ok("ok")
}

fn kind(m: &str) -> String {
    let m = m.split(" vs ").next().unwrap_or(m);
    m.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ' || *c == ':').collect::<String>().replace("canvas", "")
        .split(": ").filter(|x| !x.is_empty()).skip(0).map(|x| x.split_whitespace().filter(|w| w.len() > 2).collect::<Vec<_>>().join(" ")).last().unwrap_or_default()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| pipeline::remember_panic(i)));
    match a[1].as_str() {
        "run" => { let _ = std::panic::take_hook(); std::process::exit(runner::run(&a[2], &a[3])) }
        "worker" => runner::worker(&a[2..]),
        "shrink" => runner::shrink_job(&a[2..]),
        "replay" => std::process::exit(runner::replay(&a[2..], false)),
        "replay-quiet" => std::process::exit(runner::replay(&a[2..], true)),
        "case" => {
            // case ID SEED INDEX: prints a generated case
            let p = props::find(&a[2]).unwrap();
            let c = (p.gen)(&mut Rng::for_case(a[3].parse().unwrap(), p.id, a[4].parse().unwrap()));
            eprintln!("{}", c.args.join(" "));
            println!("{}", c.svg);
        }
        "one" => {
            let svg = std::fs::read_to_string(&a[2]).unwrap();
            let c = Case { svg, args: a[3..].to_vec() };
            println!("{:?}", check(&c));
            if let pipeline::Out::Ok(s) = pipeline::clean_once(&c.svg, &pipeline::opts(&c.args).unwrap()) { println!("{}", s); }
        }
        "explore" => {
            let n: u64 = a[2].parse().unwrap();
            let maxf: usize = a[3].parse().unwrap();
            let args: Vec<String> = a[4..].to_vec();
            let mut cnt = std::collections::BTreeMap::new();
            let mut nf = 0;
            for i in 0..n {
                let mut r = Rng::for_case(1, "explore", i);
                let d = gen::Gen::new(&mut r, gen::Cfg::default()).document();
                let c = Case { svg: d.to_xml(), args: args.clone() };
                match check(&c) {
                    Ok(k) => *cnt.entry(k.to_string()).or_insert(0) += 1,
                    Err(e) => {
                        *cnt.entry("FAIL".to_string()).or_insert(0) += 1;
                        if nf < maxf {
                            nf += 1;
                            let kd = kind(&e);
                            let m = shrink::shrink(&c, &mut |k| match check(k) { Err(x) => kind(&x) == kd && k.args == c.args, _ => false }, 2500);
                            println!("--- case {}: {}\n   min: {}\n{}\n   out: {:?}\n", i, e, check(&m).unwrap_err(), m.svg,
                                match pipeline::clean_once(&m.svg, &pipeline::opts(&m.args).unwrap()) { pipeline::Out::Ok(s) => s, x => format!("{:?}", x) });
                        }
                    }
                }
            }
            println!("{:?}", cnt);
        }
        "census" => {
            // census ID SEED START N: the kinds of failures, the smallest input of each
            let p = props::find(&a[2]).unwrap();
            let (seed, st, n): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
            let key = |m: &str| match m.rfind(" at /") { Some(k) => m[k..].to_string(), None => kind(m).chars().take(50).collect() };
            let mut t: std::collections::BTreeMap<String, (usize, Case, String, u64)> = Default::default();
            for i in st..st + n {
                let c = (p.gen)(&mut Rng::for_case(seed, p.id, i));
                if std::env::var("AT").is_ok() { eprintln!("{}", i); }
                if let Err(m) = runner::run_case(p, &c, &mut Default::default()) {
                    let e = t.entry(key(&m)).or_insert((0, c.clone(), m.clone(), i));
                    e.0 += 1;
                    if c.svg.len() < e.1.svg.len() { e.1 = c; e.2 = m; e.3 = i; }
                }
            }
            let mut v: Vec<_> = t.into_iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
            for (k, (n, c, m, i)) in v {
                let c = if std::env::var("NOSHRINK").is_ok() { c } else { shrink::shrink(&c, &mut |c| (p.keep)(c) && runner::run_case(p, c, &mut Default::default()).err().map(|e| key(&e) == k).unwrap_or(false), 1500) };
                println!("=== {} x{} (case {})\n   {}\n{}\n{}", k, n, i, m, c.args.join(" "), c.svg);
            }
        }
        "failset" => {
            // failset ID SEED START N PROGRESS: prints the failing case numbers
            let p = props::find(&a[2]).unwrap();
            let (seed, st, n): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
            let f = std::fs::File::create(&a[6]).unwrap();
            for i in st..st + n {
                std::os::unix::fs::FileExt::write_all_at(&f, &i.to_le_bytes(), 0).unwrap();
                let c = (p.gen)(&mut Rng::for_case(seed, p.id, i));
                if runner::run_case(p, &c, &mut Default::default()).is_err() { println!("{}", i); }
            }
        }
        "triage" => {
            // triage START N MINUTES-CAP
            let st: u64 = a[2].parse().unwrap();
            let n: u64 = a[3].parse().unwrap();
            let defaults = ["remove-comments","remove-declarations","remove-nonsvg-elements","remove-unused-defs","convert-shapes","remove-title","remove-desc","remove-metadata","remove-dupl-lineargradient","remove-dupl-radialgradient","remove-dupl-fegaussianblur","ungroup-groups","ungroup-defs","group-by-style","merge-gradients","regroup-gradient-stops","remove-invalid-stops","remove-invisible-elements","resolve-use","remove-version","remove-nonsvg-attributes","remove-unreferenced-ids","trim-ids","remove-text-attributes","remove-unused-coordinates","remove-default-attributes","remove-xmlns-xlink-attribute","remove-needless-attributes","apply-transform-to-gradients","apply-transform-to-shapes","remove-unresolved-classes","paths-to-relative","remove-unused-segments","convert-segments","trim-paths","remove-dupl-cmd-in-paths","use-implicit-cmds","trim-colors","simplify-transforms"];
            let mut table: std::collections::BTreeMap<String, (usize, Case, String, u64)> = Default::default();
            let mut nf = 0;
            let mut ok = 0;
            for i in st..st + n {
                let mut r = Rng::for_case(1, "explore", i);
                let d = gen::Gen::new(&mut r, gen::Cfg::default()).document();
                let mut args = vec!["--no-defaults".to_string()];
                for f in defaults.iter() { if !std::env::var("SKIP").unwrap_or_default().split(',').any(|x| x == *f) { args.push(format!("--{}=true", f)); } }
                let c = Case { svg: d.to_xml(), args };
                match check(&c) {
                    Ok(_) => ok += 1,
                    Err(e) => {
                        nf += 1;
                        let kd = kind(&e);
                        let _ = kd;
                        let m = shrink::shrink(&c, &mut |k| k.args.first().map(|x| x == "--no-defaults").unwrap_or(false) && check(k).is_err(), 3000);
                        let em = check(&m).unwrap_err();
                        let key = format!("{} | {}", m.args[1..].join(" ").replace("=true", ""), kind(&em));
                        let t = table.entry(key).or_insert((0, m.clone(), em.clone(), i));
                        t.0 += 1;
                        if m.svg.len() < t.1.svg.len() { t.1 = m; t.2 = em; t.3 = i; }
                    }
                }
            }
            println!("fails {} ok {}", nf, ok);
            let mut v: Vec<_> = table.into_iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
            for (k, (n, m, e, i)) in v {
                println!("=== {} x{} (case {})\n   {}\n{}   out: {}\n", k, n, i, e, m.svg,
                    match pipeline::clean_once(&m.svg, &pipeline::opts(&m.args).unwrap()) { pipeline::Out::Ok(s) => s, x => format!("{:?}", x) });
            }
        }
        _ => {}
    }
}

//! Drives the real library: the same steps as the command-line program, in process.

use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, AssertUnwindSafe};

use svgcleaner::{cleaner, cli, ChainedErrorExt, CleaningOptions, ParseOptions, WriteOptions};

pub struct Opts { pub parse: ParseOptions, pub write: WriteOptions, pub clean: CleaningOptions, pub multipass: bool }

/// Options from command-line style arguments (without files).
pub fn opts(args: &[String]) -> Result<Opts, String> {
    let mut v: Vec<String> = vec!["svgcleaner".into(), "in.svg".into(), "out.svg".into()];
    v.extend(args.iter().cloned());
    let m = cli::prepare_app().get_matches_from_safe(v).map_err(|e| format!("args rejected: {}", e.message))?;
    if !cli::check_values(&m) { return Err("args rejected by check_values".into()); }
    Ok(Opts {
        parse: cli::gen_parse_options(&m),
        write: cli::gen_write_options(&m),
        clean: cli::gen_cleaning_options(&m),
        multipass: m.is_present("multipass"),
    })
}

thread_local! { static AT: std::cell::RefCell<String> = Default::default(); }

/// Keeps the place of the last panic.
pub fn remember_panic(i: &std::panic::PanicHookInfo) {
    let at = i.location().map(|l| { let f = l.file(); let f = f.rfind("/src/").and_then(|k| f[..k].rfind('/')).map(|k| &f[k + 1..]).unwrap_or(f); format!("{}:{}", f, l.line()) }).unwrap_or_default();
    AT.with(|a| *a.borrow_mut() = at);
}

#[derive(Debug, Clone, PartialEq)]
pub enum Out { Ok(String), Rejected(String), Panic(String), BadUtf8 }

pub fn clean_once(svg: &str, o: &Opts) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<u8>, String> {
        // not dropped while unwinding: a second panic would abort the process
        let mut doc = ManuallyDrop::new(cleaner::parse_data(svg, &o.parse).map_err(|e| e.full_chain().to_string())?);
        let r = cleaner::clean_doc(&mut doc, &o.clean, &o.write).map_err(|e| e.full_chain().to_string());
        let mut buf = Vec::new();
        if r.is_ok() { cleaner::write_buffer(&doc, &o.write, &mut buf); }
        drop(ManuallyDrop::into_inner(doc));
        r.map(|_| buf)
    }));
    match r {
        Ok(Ok(b)) => match String::from_utf8(b) { Ok(s) => Out::Ok(s), Err(_) => Out::BadUtf8 },
        Ok(Err(e)) => Out::Rejected(e),
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "panic".into() };
            Out::Panic(format!("{} at {}", m, AT.with(|a| a.borrow().clone())))
        }
    }
}

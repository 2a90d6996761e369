//! Batch driver: feeds abstract programs that were rendered to Rust source through the real
//! cbindgen library (built from /repo) and records what it produced.
//!
//! usage: harness IN.ndjson OUT.ndjson SCRATCH_DIR [THREADS]
//! input line : {"id":..,"src":"..","runs":[{"toml":".."}, ..],"reps":N}; a run may instead have
//!              "calls" (builder methods), "crate" (a directory), "generate" or "generate_with_config"
//! output line: {"id":..,"runs":[{"reps":[{"status":"ok|err|panic","out":"..","sym":"..","err":".."}]}]}
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use serde_json::{json, Value};

fn strs(c: &Value) -> Vec<String> {
    c["s"].as_array().map_or(vec![], |a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
}

/// the builder methods by name
fn call(b: cbindgen::Builder, m: &str, s: &[String], cfg: &Path, toml: &str) -> Result<cbindgen::Builder, String> {
    use std::str::FromStr;
    let x = |i: usize| s[i].as_str();
    let t = || s[0] == "true";
    Ok(match m {
        "with_config" => {
            std::fs::write(cfg, toml).unwrap();
            b.with_config(cbindgen::Config::from_file(cfg).map_err(|e| e.to_string())?)
        }
        "with_header" => b.with_header(x(0)),
        "with_no_includes" => b.with_no_includes(),
        "with_include" => b.with_include(x(0)),
        "with_sys_include" => b.with_sys_include(x(0)),
        "with_after_include" => b.with_after_include(x(0)),
        "with_trailer" => b.with_trailer(x(0)),
        "with_include_guard" => b.with_include_guard(x(0)),
        "with_pragma_once" => b.with_pragma_once(t()),
        "with_autogen_warning" => b.with_autogen_warning(x(0)),
        "with_include_version" => b.with_include_version(t()),
        "with_namespace" => b.with_namespace(x(0)),
        "with_namespaces" => b.with_namespaces(s),
        "with_using_namespaces" => b.with_using_namespaces(s),
        "with_braces" => b.with_braces(cbindgen::Braces::from_str(x(0)).unwrap()),
        "with_line_length" => b.with_line_length(x(0).parse().unwrap()),
        "with_tab_width" => b.with_tab_width(x(0).parse().unwrap()),
        "with_language" => b.with_language(match x(0) {
            "C" => cbindgen::Language::C,
            "C++" => cbindgen::Language::Cxx,
            _ => cbindgen::Language::Cython,
        }),
        "with_cpp_compat" => b.with_cpp_compat(t()),
        "with_style" => b.with_style(match x(0) {
            "Both" => cbindgen::Style::Both,
            "Tag" => cbindgen::Style::Tag,
            _ => cbindgen::Style::Type,
        }),
        "include_item" => b.include_item(x(0)),
        "exclude_item" => b.exclude_item(x(0)),
        "rename_item" => b.rename_item(x(0), x(1)),
        "with_item_prefix" => b.with_item_prefix(x(0)),
        "with_parse_deps" => b.with_parse_deps(t()),
        "with_parse_include" => b.with_parse_include(s),
        "with_parse_exclude" => b.with_parse_exclude(s),
        "with_parse_expand" => b.with_parse_expand(s),
        "with_parse_expand_all_features" => b.with_parse_expand_all_features(t()),
        "with_parse_expand_default_features" => b.with_parse_expand_default_features(t()),
        "with_parse_expand_features" => b.with_parse_expand_features(s),
        "with_parse_expand_profile" => b.with_parse_expand_profile(match x(0) {
            "debug" => cbindgen::Profile::Debug,
            _ => cbindgen::Profile::Release,
        }),
        "with_parse_extra_bindings" => b.with_parse_extra_bindings(s),
        "with_only_target_dependencies" => b.with_only_target_dependencies(t()),
        "with_documentation" => b.with_documentation(t()),
        "with_target_os_define" => b.with_target_os_define(x(0), x(1)),
        "with_define" => b.with_define(x(0), x(1), x(2)),
        "with_line_endings" => b.with_line_endings(cbindgen::LineEndingStyle::from_str(x(0)).unwrap()),
        _ => panic!("no such builder method in the driver: {}", m),
    })
}

fn one(run: &Value, src: &Path, cfg: &Path, scratch: &Path) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let made = if let Some(d) = run["generate"].as_str() {
            // the crate's directory holds the configuration, if any
            cbindgen::generate(d)
        } else if let Some(d) = run["generate_with_config"].as_str() {
            let config = match cbindgen::Config::from_file(cfg) {
                Ok(c) => c,
                Err(e) => return json!({"status":"badconfig","out":"","sym":"","err":e.to_string()}),
            };
            cbindgen::generate_with_config(d, config)
        } else if let Some(calls) = run["calls"].as_array() {
            let mut b = cbindgen::Builder::new();
            for c in calls {
                b = match call(b, c["m"].as_str().unwrap(), &strs(c), cfg, c["toml"].as_str().unwrap_or("")) {
                    Ok(b) => b,
                    Err(e) => return json!({"status":"badconfig","out":"","sym":"","err":e}),
                };
            }
            b = match run["crate"].as_str() {
                Some(d) => b.with_crate(d),
                None => b.with_src(src),
            };
            b.generate()
        } else {
            let config = match cbindgen::Config::from_file(cfg) {
                Ok(c) => c,
                Err(e) => return json!({"status":"badconfig","out":"","sym":"","err":e.to_string()}),
            };
            let b = cbindgen::Builder::new().with_config(config);
            match run["crate"].as_str() {
                Some(d) => b.with_crate(d),
                None => b.with_src(src),
            }
            .generate()
        };
        match made {
            Ok(b) => {
                let mut v = Vec::new();
                b.write(&mut v);
                let symp = scratch.join("sym.txt");
                let _ = std::fs::remove_file(&symp);
                b.generate_symfile(&symp);
                let sym = std::fs::read_to_string(&symp).unwrap_or_default();
                json!({"status":"ok","out":String::from_utf8_lossy(&v),"sym":sym,"err":""})
            }
            Err(e) => json!({"status":"err","out":"","sym":"","err":format!("{}", e)}),
        }
    }));
    match r {
        Ok(v) => v,
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            json!({"status":"panic","out":"","sym":"","err":m})
        }
    }
}

/// harness api SRC CFG OUT: one run through the library, reporting what write_to_file returned
fn api(src: &str, cfg: &str, out: &str) -> i32 {
    let config = cbindgen::Config::from_file(cfg).unwrap();
    match cbindgen::Builder::new()
        .with_config(config)
        .with_src(src)
        .generate()
    {
        Ok(b) => {
            println!("{}", b.write_to_file(out));
            0
        }
        Err(_) => 1,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "api" {
        std::process::exit(api(&a[2], &a[3], &a[4]));
    }
    let scratch = std::path::PathBuf::from(&a[3]);
    let threads: usize = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(8);
    let lines: Vec<String> = BufReader::new(std::fs::File::open(&a[1]).unwrap())
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .collect();
    let lines = Arc::new(lines);
    let out = Arc::new(Mutex::new(BufWriter::new(
        std::fs::File::create(&a[2]).unwrap(),
    )));
    std::panic::set_hook(Box::new(|_| {}));
    let next = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (lines, out, next) = (lines.clone(), out.clone(), next.clone());
            let dir = scratch.join(format!("t{}", t));
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    std::fs::create_dir_all(&dir).unwrap();
                    let src = dir.join("lib.rs");
                    let cfg = dir.join("cbindgen.toml");
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= lines.len() {
                            break;
                        }
                        let c: Value = serde_json::from_str(&lines[i]).unwrap();
                        std::fs::write(&src, c["src"].as_str().unwrap()).unwrap();
                        let reps = c["reps"].as_u64().unwrap_or(1);
                        let mut runs = Vec::new();
                        for r in c["runs"].as_array().unwrap() {
                            std::fs::write(&cfg, r["toml"].as_str().unwrap_or("")).unwrap();
                            let rr: Vec<Value> =
                                (0..reps).map(|_| one(r, &src, &cfg, &dir)).collect();
                            runs.push(json!({ "reps": rr }));
                        }
                        let l = json!({"id": c["id"], "runs": runs}).to_string();
                        let mut o = out.lock().unwrap();
                        writeln!(o, "{}", l).unwrap();
                    }
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    out.lock().unwrap().flush().unwrap();
}

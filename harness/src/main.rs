mod api;
mod ast;
mod checks;
mod gen;
mod lex;
mod lsp;
mod mutate;
mod rng;
mod run;
mod spec;
mod texts;

use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |id: &str| {
        checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("unknown check {id}");
            std::process::exit(3);
        })
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    match a.get(1).map(String::as_str) {
        Some("check") => {
            let c = get(&a[2]);
            std::process::exit(run::main(&c, seed, thorough));
        }
        Some("worker") => {
            let c = get(&a[2]);
            let p = |i: usize| a[i].parse::<u64>().unwrap();
            // Deep recursion of a parser must not depend on the main thread's stack.
            let out = PathBuf::from(&a[9]);
            let scratch = PathBuf::from(&a[10]);
            let (s, t, k, n, from, total) = (p(3), a[4] == "1", p(5), p(6), p(7), p(8));
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || run::worker(&c, s, t, k, n, from, total, &out, scratch)).unwrap();
            if h.join().is_err() {
                std::process::exit(4);
            }
        }
        // vh case ID IDX [SEED]: runs one case verbosely
        Some("case") => {
            api::install_panic_hook();
            let c = get(&a[2]);
            let s = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(seed);
            let scratch = std::env::temp_dir().join(format!("vh-case-{}", std::process::id()));
            let mut cx = run::new_ctx(&c, s, thorough, scratch);
            cx.verbose = true;
            cx.idx = a[3].parse().unwrap();
            (c.run)(&mut cx, a[3].parse().unwrap());
            lsp::cleanup();
            println!("counters {:?}", cx.counters);
            for v in &cx.samples { println!("sample {}", run::pretty(v)); }
            std::process::exit(if cx.violations.is_empty() { 0 } else { 1 });
        }
        Some("replay") => {
            api::install_panic_hook();
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let c = get(v["property"].as_str().unwrap());
            let scratch = std::env::temp_dir().join(format!("vh-case-{}", std::process::id()));
            let mut cx = run::new_ctx(&c, v["seed"].as_u64().unwrap(), v["thorough"].as_bool().unwrap(), scratch);
            cx.verbose = true;
            cx.idx = v["idx"].as_u64().unwrap();
            (c.run)(&mut cx, v["idx"].as_u64().unwrap());
            lsp::cleanup();
            std::process::exit(if cx.violations.is_empty() { 0 } else { 1 });
        }
        Some("answer") => {
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(checks::robust::answer).unwrap();
            let _ = h.join();
        }
        Some("list") => {
            for c in checks::all() {
                println!("{}", c.id);
            }
        }
        // vh diag FILE v4|v5
        Some("diag") => {
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let v = if a[3] == "v5" { gen::Ver::V5 } else { gen::Ver::V4 };
            for d in api::diagnostics(&s, v).unwrap() {
                println!("{}..{} {:?} {} :: {:?}", d.s, d.e, d.error, d.msg, &s[d.s..d.e]);
                for f in d.fixes { println!("    fix {} {:?}", f.label, f.edits); }
            }
        }
        _ => {
            eprintln!("usage: vh check ID | vh case ID IDX [SEED] | vh replay FILE | vh list");
            std::process::exit(3);
        }
    }
}

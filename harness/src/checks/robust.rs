//! R01 (every query returns), R02 (same question, same answer), F02 (ranges and edits are well-formed).

use crate::api::{self, act, diag, edit, guard, range, size, us, Act, Edit};
use crate::checks::attrs;
use crate::checks::project::resolve;
use crate::checks::server::{self, Caps, Mix};
use crate::gen::Ver;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::texts;
use ink_analyzer::Analysis;
use serde_json::json;
use std::io::{Read, Write};

fn any_ver(r: &mut Rng) -> Ver {
    if r.pct(50) {
        Ver::V4
    } else {
        Ver::V5
    }
}

/// Programs that define names in terms of each other, or of themselves.
fn cyclic(r: &mut Rng, v: Ver) -> String {
    let n = r.range(1, 4);
    let names: Vec<String> = ["Alpha", "Beta", "Gamma", "Delta"].iter().take(n).map(|s| s.to_string()).collect();
    let mut defs = String::new();
    for (i, a) in names.iter().enumerate() {
        let b = &names[(i + 1) % n];
        let pre = r.picks(&["", "self::", "crate::", "super::", "m::"]);
        match r.below(6) {
            0 => defs.push_str(&format!("use {pre}{b} as {a};\n")),
            1 => defs.push_str(&format!("type {a} = {pre}{b};\n")),
            2 => defs.push_str(&format!("pub use {pre}{b}::{a};\n")),
            3 => defs.push_str(&format!("mod m{i} {{\n    pub use super::m{}::*;\n    pub use super::{b} as {a};\n}}\nuse m{i}::*;\n", (i + 1) % n)),
            4 => defs.push_str(&format!("impl {a} for {b} {{}}\nstruct {a};\n")),
            _ => defs.push_str(&format!("use {{{pre}{b} as {a}, self::*}};\npub enum {a} {{ {b}({b}) }}\n")),
        }
    }
    let x = |r: &mut Rng| names[r.below(n)].clone();
    let (e, s, t) = (x(r), x(r), x(r));
    let body = format!(
        "#[ink::contract(env = {})]\npub mod c {{\n    use super::*;\n{}    #[ink(storage)]\n    pub struct S {{ f: {s} }}\n    impl S {{\n        #[ink(constructor)]\n        pub fn new() -> {s} {{ todo!() }}\n        #[ink(message)]\n        pub fn get(&self) -> {t} {{ todo!() }}\n    }}\n    impl {t} for S {{\n        #[ink(message)]\n        fn m(&self) {{}}\n    }}\n    #[cfg(all(test, feature = \"e2e-tests\"))]\n    mod e2e_tests {{\n        use super::*;\n        #[ink_e2e::test(environment = {e})]\n        async fn t(mut client: ink_e2e::Client<C, E>) {{}}\n    }}\n}}\n",
        r.picks(&[e.clone(), format!("crate::{e}"), format!("self::{e}"), format!("super::{e}")]),
        if r.pct(50) { defs.clone() } else { String::new() }
    );
    let ext = if r.pct(60) {
        let a = if v == Ver::V5 { "(extension = 1)" } else { "" };
        format!("#[ink::chain_extension{a}]\npub trait Ext {{\n    type ErrorCode = {t};\n    #[ink({} = 1)]\n    fn f(x: {s}) -> Result<{e}, {t}>;\n}}\n", if v == Ver::V5 { "function" } else { "extension" })
    } else {
        String::new()
    };
    let si = if r.pct(50) { format!("#[ink::storage_item]\npub struct I {{ a: {s}, b: ink::storage::Mapping<{e}, {t}> }}\n") } else { String::new() };
    let td = if r.pct(50) { format!("#[ink::trait_definition]\npub trait {t} {{\n    #[ink(message)]\n    fn m(&self) -> {s};\n}}\n") } else { String::new() };
    match r.below(3) {
        0 => format!("{defs}{ext}{si}{td}{body}"),
        1 => format!("{body}{td}{si}{ext}{defs}"),
        _ => format!("mod outer {{\n{defs}{body}\n}}\n{ext}{td}{si}{defs}"),
    }
}

/// Deep (but not absurd) nesting of every bracketed construct.
fn nested(r: &mut Rng, v: Ver) -> String {
    let most = if r.pct(20) { 100 } else { 40 };
    let d = r.range(2, most);
    let rep = |a: &str, b: &str, mid: &str| format!("{}{mid}{}", a.repeat(d), b.repeat(d));
    match r.below(12) {
        0 => rep("mod m {\n", "}\n", &texts::small(r, v)),
        1 => format!("#[ink::contract]\nmod c {{\n    #[ink(storage)]\n    pub struct S {{ x: {} }}\n}}\n", rep("Option<", ">", "u8")),
        2 => format!("#[ink({})]\nfn f() {{}}\n", rep("a(", ")", "b = 1")),
        3 => format!("#[ink::test]\nfn f() {{ {} }}\n", rep("if a {", "}", "b();")),
        4 => format!("#[ink::contract]\nmod c {{\n    #[ink(message)]\n    fn f() {{ let x = {}; }}\n}}\n", rep("(", ")", "1")),
        5 => format!("#[ink(message)]\nfn f() {{ x{} }}\n", ".call()?".repeat(d)),
        6 => format!("use {}a{};\n#[ink::contract]\nmod c {{}}\n", "x::{".repeat(d), "}".repeat(d)),
        7 => format!("#[ink(selector = {})]\nfn f() {{}}\n", rep("(", ")", "1")),
        8 => format!("#[ink_e2e::test(backend({}))]\nfn f() {{}}\n", rep("node(", ")", "url = \"\"")),
        9 => format!("#[ink::contract]\nmod c {{ {} }}", "#[ink(message)] ".repeat(d)),
        10 => format!("{}{}", "#[ink(".repeat(d), texts::small(r, v)),
        _ => format!("impl S {{ #[ink(message)] pub fn f(&self) {{ {} }} }}", rep("|x| { match x { _ => ", "} }", "0")),
    }
}

/// A text for the robustness checks, and what kind it is.
fn any_text(r: &mut Rng, v: Ver) -> (&'static str, String) {
    match r.below(20) {
        0 | 1 => ("cyclic", cyclic(r, v)),
        2 => ("nested", nested(r, v)),
        3 => {
            let t = texts::hostile(r, v);
            let n = r.range(3, 40);
            ("unicode", texts::unicode(&t, r, n))
        }
        4 => {
            // typed so far: a prefix that ends inside an attribute
            let t = texts::small(r, v);
            let p = texts::position(&t, r);
            ("prefix", t[..p].to_string())
        }
        5 => {
            let mut t = cyclic(r, v);
            let k = attrs::floor(&t, r.below(t.len() + 1));
            t.truncate(k);
            ("cyclic", t)
        }
        6 => {
            // a wholly random token soup
            let junk = ["#", "[", "]", "(", ")", "ink", "::", "contract", "message", "=", "1", "_", "@", ",", "mod", "a", "{", "}", "fn", "\n", " ", "\"s\"", "self", "é", "🦀", "storage", "struct", ";", "'", "selector", "0x", "!", "\u{3000}", "\u{2003}", "\t", "\r\n", "impl", "for", "trait", "type", "ink_e2e", "test"];
            let n = r.range(0, 60);
            ("soup", (0..n).map(|_| junk[r.below(junk.len())]).collect())
        }
        7 => ("fixture", {
            let f = texts::fixtures();
            f[r.below(f.len())].1.clone()
        }),
        8 | 9 => ("broken", mutate_some(r, v)),
        _ => ("hostile", texts::hostile(r, v)),
    }
}
fn mutate_some(r: &mut Rng, v: Ver) -> String {
    crate::checks::layout::some_prog(r, v, 60).file.render().text
}

#[derive(Clone, Copy, Debug)]
pub enum Q {
    Diagnostics,
    Completions(usize),
    Actions(usize, usize),
    Hover(usize, usize),
    Hints(Option<(usize, usize)>),
    Signature(usize),
    Migrate,
    Extract(usize, usize),
}
impl Q {
    pub fn name(&self) -> &'static str {
        match self {
            Q::Diagnostics => "diagnostics",
            Q::Completions(_) => "completions",
            Q::Actions(..) => "actions",
            Q::Hover(..) => "hover",
            Q::Hints(_) => "inlay_hints",
            Q::Signature(_) => "signature_help",
            Q::Migrate => "migrate",
            Q::Extract(..) => "extract",
        }
    }
    pub fn ask(&self, a: &Analysis) -> String {
        match *self {
            Q::Diagnostics => format!("{:?}", a.diagnostics()),
            Q::Completions(p) => format!("{:?}", a.completions(size(p))),
            Q::Actions(s, e) => format!("{:?}", a.actions(range(s, e))),
            Q::Hover(s, e) => format!("{:?}", a.hover(range(s, e))),
            Q::Hints(o) => format!("{:?}", a.inlay_hints(o.map(|(s, e)| range(s, e)))),
            Q::Signature(p) => format!("{:?}", a.signature_help(size(p))),
            Q::Migrate => format!("{:?}", a.migrate()),
            Q::Extract(s, e) => format!("{:?}", a.extract(range(s, e))),
        }
    }
    fn encode(&self) -> String {
        match *self {
            Q::Diagnostics => "d 0 0".into(),
            Q::Completions(p) => format!("c {p} 0"),
            Q::Actions(s, e) => format!("a {s} {e}"),
            Q::Hover(s, e) => format!("h {s} {e}"),
            Q::Hints(None) => "I 0 0".into(),
            Q::Hints(Some((s, e))) => format!("i {s} {e}"),
            Q::Signature(p) => format!("s {p} 0"),
            Q::Migrate => "m 0 0".into(),
            Q::Extract(s, e) => format!("x {s} {e}"),
        }
    }
    fn decode(x: &str) -> Q {
        let f: Vec<&str> = x.split(' ').collect();
        let n = |i: usize| f[i].parse::<usize>().unwrap();
        match f[0] {
            "c" => Q::Completions(n(1)),
            "a" => Q::Actions(n(1), n(2)),
            "h" => Q::Hover(n(1), n(2)),
            "I" => Q::Hints(None),
            "i" => Q::Hints(Some((n(1), n(2)))),
            "s" => Q::Signature(n(1)),
            "m" => Q::Migrate,
            "x" => Q::Extract(n(1), n(2)),
            _ => Q::Diagnostics,
        }
    }
}

fn queries(src: &str, r: &mut Rng, n: usize, n_actions: usize) -> Vec<Q> {
    let mut q = vec![Q::Diagnostics, Q::Hints(None), Q::Migrate];
    let edge = |r: &mut Rng| match r.below(40) {
        0 => 0,
        1 => src.len(),
        _ => texts::position(src, r),
    };
    for _ in 0..n {
        q.push(Q::Completions(edge(r)));
        q.push(Q::Signature(edge(r)));
        let (a, b) = texts::selection(src, r);
        q.push(Q::Hover(a, b));
        let (a, b) = texts::selection(src, r);
        q.push(Q::Extract(a, b));
    }
    for _ in 0..(n / 4).max(1) {
        let (a, b) = texts::selection(src, r);
        q.push(Q::Hints(Some((a, b))));
    }
    for k in 0..n_actions {
        let (a, b) = match k {
            0 => {
                let p = edge(r);
                (p, p)
            }
            _ => texts::selection(src, r),
        };
        q.push(Q::Actions(a, b));
    }
    q
}

/// The failing input, without its parts that do not matter.
fn shrink(src: &str, fails: &dyn Fn(&str) -> bool) -> String {
    let mut s = src.to_string();
    let mut step = s.len() / 2;
    let t0 = std::time::Instant::now();
    while step > 0 && t0.elapsed().as_secs() < 5 {
        let mut k = 0;
        while k < s.len() && t0.elapsed().as_secs() < 5 {
            let (a, b) = (attrs::floor(&s, k), attrs::floor(&s, (k + step).min(s.len())));
            if a < b {
                let c = format!("{}{}", &s[..a], &s[b..]);
                if fails(&c) {
                    s = c;
                    continue;
                }
            }
            k += step;
        }
        step /= 2;
    }
    s
}

pub fn r01(cx: &mut Ctx, i: u64) {
    let mut r = cx.rng("");
    if i % 25 == 0 {
        let caps = if r.pct(60) { Caps::full() } else { Caps::random(&mut r) };
        let mix = Mix { changes: 35, queries: 45, odd: 20, steps: (10, 40), hostile: 80, unicode: r.pct(30) };
        server::session(cx, &mut r, caps, &mix);
        return;
    }
    let v = any_ver(&mut r);
    let (kind, src) = if i == 1 { ("float", "fn f() { x.1e9 }\n".to_string()) } else { any_text(&mut r, v) };
    cx.count(&format!("text:{kind}"));
    cx.seen(&src);
    if cx.verbose {
        println!("{src}");
    }
    for v in [Ver::V4, Ver::V5] {
        let an = match guard(|| Analysis::new(&src, v.lib())) {
            Ok(a) => a,
            Err(p) => {
                cx.violate(&format!("new:{}", p.split(" in ").next().unwrap_or("").split(": ").next().unwrap_or("")), &p, json!({"source": src}));
                continue;
            }
        };
        for q in queries(&src, &mut r, 14, 2) {
            cx.count(q.name());
            match guard(|| q.ask(&an)) {
                Ok(a) => {
                    if a.len() > 4 {
                        cx.count("answers_with_content");
                    }
                }
                Err(p) => {
                    // the input as it is, and reduced with the same kind of query at any position
                    let sig = format!("{}:{}", q.name(), p.split(": ").next().unwrap_or(""));
                    let again = |s: &str| {
                        let Ok(a) = guard(|| Analysis::new(s, v.lib())) else { return false };
                        match q {
                            Q::Diagnostics | Q::Migrate | Q::Hints(None) => guard(|| q.ask(&a)).is_err(),
                            _ => false,
                        }
                    };
                    let small = shrink(&src, &again);
                    cx.violate(&sig, &format!("{q:?} ({}) {p}", v.name()), json!({"source": src, "reduced": small, "query": format!("{q:?}"), "version": v.name()}));
                }
            }
        }
    }
    cx.sample(|| json!({"kind": kind, "source": src}));
}

// --- R02

/// The child of R02: answers queries read from standard input.
pub fn answer() {
    api::install_panic_hook();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: serde_json::Value = serde_json::from_str(&s).unwrap();
    let ver = if v["v5"].as_bool().unwrap() { Ver::V5 } else { Ver::V4 };
    let an = Analysis::new(v["source"].as_str().unwrap(), ver.lib());
    let out: Vec<String> = v["queries"].as_array().unwrap().iter().map(|q| guard(|| Q::decode(q.as_str().unwrap()).ask(&an)).unwrap_or_else(|e| e)).collect();
    print!("{}", json!(out));
}

fn differ(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let f = |s: &str| {
        let (x, y) = (attrs::floor(s, k.saturating_sub(60)), attrs::floor(s, (k + 160).min(s.len())));
        s[x..y].to_string()
    };
    format!("\n  …{}…\n  …{}…", f(a), f(b))
}

pub fn r02(cx: &mut Ctx, i: u64) {
    let mut r = cx.rng("");
    let v = any_ver(&mut r);
    let (kind, src) = match r.below(10) {
        0..=3 => {
            ("program", mutate_some(&mut r, v))
        }
        4 => ("document", texts::document(&mut r, v)),
        5 => {
            // several of everything, so that an unordered collection shows
            let mut s = String::new();
            for _ in 0..r.range(2, 4) {
                s.push_str(&texts::small(&mut r, v));
            }
            ("several", s)
        }
        _ => any_text(&mut r, v),
    };
    cx.count(&format!("text:{kind}"));
    cx.seen(&src);
    let v = any_ver(&mut r);
    let qs = queries(&src, &mut r, 6, 1);
    let ask_all = |an: &Analysis, order: &[usize]| -> Vec<String> {
        let mut o = vec![String::new(); qs.len()];
        for k in order {
            o[*k] = guard(|| qs[*k].ask(an)).unwrap_or_else(|e| e);
        }
        o
    };
    let Ok(first) = guard(|| Analysis::new(&src, v.lib())) else { return };
    let order: Vec<usize> = (0..qs.len()).collect();
    let base = ask_all(&first, &order);
    let judge = |cx: &mut Ctx, how: &str, other: &[String]| {
        for k in 0..qs.len() {
            cx.count(how);
            if base[k] != other[k] {
                cx.violate(&format!("{how}:{}", qs[k].name()), &format!("{:?} gives another answer ({how}, {}):{}", qs[k], v.name(), differ(&base[k], &other[k])), json!({"source": src, "query": format!("{:?}", qs[k]), "version": v.name()}));
            }
        }
    };
    // the same instance, in another order
    let mut shuffled = order.clone();
    r.shuffle(&mut shuffled);
    let o = ask_all(&first, &shuffled);
    judge(cx, "same_instance", &o);
    // fresh instances (every one of them has other hash seeds)
    for _ in 0..2 {
        if let Ok(a) = guard(|| Analysis::new(&src, v.lib())) {
            let o = ask_all(&a, &order);
            judge(cx, "fresh_instance", &o);
        }
    }
    // the text went through other content in between
    if i % 4 == 0 {
        let texts: Vec<String> = (0..4).map(|_| src.clone()).collect();
        let hs: Vec<_> = texts
            .into_iter()
            .map(|t| {
                let qs = qs.clone();
                let lv = v.lib();
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        let a = Analysis::new(&t, lv);
                        qs.iter().map(|q| guard(|| q.ask(&a)).unwrap_or_else(|e| e)).collect::<Vec<String>>()
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            if let Ok(o) = h.join() {
                judge(cx, "other_thread", &o);
            }
        }
    }
    if i % 8 == 0 {
        let exe = std::env::current_exe().unwrap();
        let mut c = std::process::Command::new(exe).arg("answer").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
        let mut si = c.stdin.take().unwrap();
        let msg = json!({"source": src, "v5": v == Ver::V5, "queries": qs.iter().map(|q| q.encode()).collect::<Vec<_>>()}).to_string();
        let t = std::thread::spawn(move || {
            let _ = si.write_all(msg.as_bytes());
        });
        let out = c.wait_with_output().unwrap();
        let _ = t.join();
        if let Ok(serde_json::Value::Array(a)) = serde_json::from_slice(&out.stdout) {
            let o: Vec<String> = a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
            judge(cx, "other_process", &o);
        } else {
            cx.count("no_answer_of_process");
        }
    }
    cx.sample(|| json!({"kind": kind, "source": src}));
}

// --- F02

struct Judge<'a> {
    src: &'a str,
    bad: Vec<(String, String)>,
    ranges: u64,
    edits: u64,
    snippets: u64,
}
impl<'a> Judge<'a> {
    fn range(&mut self, what: &str, s: usize, e: usize) -> bool {
        self.ranges += 1;
        let ok = s <= e && e <= self.src.len() && self.src.is_char_boundary(s) && self.src.is_char_boundary(e);
        if !ok {
            self.bad.push((format!("range:{what}"), format!("{what} has the range {s}..{e} in a text of {} bytes", self.src.len())));
        }
        ok
    }
    fn edits(&mut self, what: &str, es: &[Edit]) {
        for e in es {
            self.edits += 1;
            self.range(&format!("edit of {what}"), e.s, e.e);
            if let Some(sn) = &e.snippet {
                self.snippets += 1;
                let sq = |x: &str| x.split_whitespace().collect::<String>();
                match resolve(sn) {
                    None => self.bad.push((format!("snippet-syntax:{what}"), format!("snippet of {what} is malformed: {sn:?}"))),
                    Some(x) if sq(&x) != sq(&e.text) => self.bad.push((format!("snippet:{what}"), format!("snippet of {what} resolves to {x:?}, the plain text is {:?}", e.text))),
                    _ => (),
                }
            }
        }
        let mut o: Vec<(usize, usize)> = es.iter().map(|e| (e.s, e.e)).collect();
        o.sort();
        for w in o.windows(2) {
            if w[1].0 < w[0].1 || (w[0] == w[1] && w[0].0 < w[0].1) {
                self.bad.push((format!("overlap:{what}"), format!("edits of {what} overlap: {:?} and {:?}", w[0], w[1])));
            }
        }
    }
    fn action(&mut self, what: &str, a: &Act) {
        let what = format!("{what} '{}'", generic(&a.label));
        self.range(&what, a.s, a.e);
        self.edits(&what, &a.edits);
    }
}
/// A label without its quoted parts.
fn generic(l: &str) -> String {
    let mut o = String::new();
    let mut inside = false;
    for c in l.chars() {
        if c == '`' {
            inside = !inside;
            if inside {
                o.push_str("`_`");
            }
        } else if !inside {
            o.push(c);
        }
    }
    o
}

pub fn f02(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("");
    let v = any_ver(&mut r);
    let (kind, src) = match r.below(10) {
        0..=3 => {
            ("program", mutate_some(&mut r, v))
        }
        4 => ("document", texts::document(&mut r, v)),
        _ => any_text(&mut r, v),
    };
    let src = if r.pct(40) {
        let n = r.range(3, 40);
        texts::unicode(&src, &mut r, n)
    } else {
        src
    };
    cx.count(&format!("text:{kind}"));
    cx.seen(&src);
    let v = if r.pct(80) { v } else { any_ver(&mut r) };
    let mut j = Judge { src: &src, bad: vec![], ranges: 0, edits: 0, snippets: 0 };
    let Ok(an) = guard(|| Analysis::new(&src, v.lib())) else { return };
    for q in queries(&src, &mut r, 14, 3) {
        let before = j.bad.len();
        // a panic is R01's concern
        let _ = guard(|| match q {
            Q::Diagnostics => {
                for d in a_diags(&an) {
                    let m = crate::checks::diag::norm_msg(&d.msg);
                    j.range(&format!("diagnostic '{m}'"), d.s, d.e);
                    for f in &d.fixes {
                        j.action("quick fix", f);
                    }
                }
            }
            Q::Completions(p) => {
                for c in an.completions(size(p)) {
                    let (s, e) = us(c.range);
                    let what = format!("completion '{}'", c.label);
                    j.range(&what, s, e);
                    j.edits(&what, &[edit(&c.edit)]);
                }
            }
            Q::Actions(s, e) => {
                for a in an.actions(range(s, e)) {
                    j.action("action", &act(&a));
                }
            }
            Q::Hover(s, e) => {
                if let Some(h) = an.hover(range(s, e)) {
                    let (s, e) = us(h.range);
                    j.range("hover", s, e);
                }
            }
            Q::Hints(o) => {
                for h in an.inlay_hints(o.map(|(s, e)| range(s, e))) {
                    let (s, e) = us(h.range);
                    j.range("inlay hint", s, e);
                    let p = usize::from(h.position);
                    j.range("inlay hint position", p, p);
                }
            }
            Q::Signature(p) => {
                for g in an.signature_help(size(p)) {
                    let (s, e) = us(g.range);
                    j.range("signature", s, e);
                    let l = &g.label;
                    for x in &g.parameters {
                        let (s, e) = us(x.range);
                        if !(s <= e && e <= l.len() && l.is_char_boundary(s) && l.is_char_boundary(e)) {
                            j.bad.push(("range:parameter".into(), format!("parameter {s}..{e} of the signature {l:?}")));
                        }
                    }
                    if g.active_parameter.map_or(false, |a| a >= g.parameters.len()) {
                        j.bad.push(("active-parameter".into(), format!("active parameter {:?} of {l:?}", g.active_parameter)));
                    }
                }
            }
            Q::Migrate => {
                let es: Vec<Edit> = an.migrate().iter().map(edit).collect();
                j.edits("migration", &es);
            }
            Q::Extract(s, e) => {
                if let Some(x) = an.extract(range(s, e)) {
                    let es: Vec<Edit> = x.edits.iter().map(edit).collect();
                    j.edits("extraction", &es);
                    let p = usize::from(x.import_offset);
                    j.range("import position", p, p);
                }
            }
        });
        cx.count(q.name());
        for (sig, what) in j.bad[before..].to_vec() {
            cx.violate(&sig, &format!("{what} ({q:?}, {})", v.name()), json!({"source": src, "query": format!("{q:?}"), "version": v.name()}));
        }
    }
    cx.add("ranges", j.ranges);
    cx.add("edits", j.edits);
    cx.add("snippets", j.snippets);
    cx.sample(|| json!({"kind": kind, "source": src}));
}
fn a_diags(an: &Analysis) -> Vec<api::Diag> {
    an.diagnostics().iter().map(diag).collect()
}

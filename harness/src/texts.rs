//! Document texts for stress workloads: valid, broken, cut, mutilated, with all kinds of Unicode.

use crate::checks::attrs;
use crate::checks::layout::some_prog;
use crate::gen::{self, Opts, Ver};
use crate::lex::{lex, Style};
use crate::rng::Rng;
use std::sync::OnceLock;

/// The repository's sample contracts.
pub fn fixtures() -> &'static [(Ver, String)] {
    static F: OnceLock<Vec<(Ver, String)>> = OnceLock::new();
    F.get_or_init(|| {
        let mut v = vec![];
        fn walk(p: &std::path::Path, ver: Ver, out: &mut Vec<(Ver, String)>) {
            let mut es: Vec<_> = std::fs::read_dir(p).into_iter().flatten().flatten().map(|e| e.path()).collect();
            es.sort();
            for e in es {
                if e.is_dir() {
                    walk(&e, ver, out);
                } else if e.extension().map_or(false, |x| x == "rs") {
                    if let Ok(s) = std::fs::read_to_string(&e) {
                        out.push((ver, s));
                    }
                }
            }
        }
        walk(std::path::Path::new("/repo/test-fixtures/v4"), Ver::V4, &mut v);
        walk(std::path::Path::new("/repo/test-fixtures/v5"), Ver::V5, &mut v);
        v
    })
}

/// Comments with characters of all encoded lengths, put in front of random tokens.
pub fn unicode(src: &str, r: &mut Rng, n: usize) -> String {
    let pool = ["é", "中", "🦀", "𝒳𝒴", "e\u{301}", "\u{200b}", "\u{feff}", "ß→", "👩‍👩‍👧", "\u{10ffff}", "ĀāŻ"];
    let ts = lex(src);
    if ts.is_empty() {
        return src.to_string();
    }
    let mut at: Vec<usize> = (0..n).map(|_| r.below(ts.len())).collect();
    at.sort();
    at.dedup();
    let mut out = String::new();
    let mut pos = 0;
    for k in at {
        let t = &ts[k];
        // not inside `#[`, `::`, `->`
        if k > 0 && ts[k - 1].end == t.start && !matches!(ts[k - 1].text.as_str(), "(" | "{" | "," | ";" | "}") {
            continue;
        }
        if k == 0 && t.text == "#" {
            continue;
        }
        if k > 0 && ts[k - 1].text.starts_with("//") && !src[ts[k - 1].end..t.start].contains('\n') {
            continue;
        }
        out.push_str(&src[pos..t.start]);
        let m = r.range(1, 3);
        let mut c = String::new();
        for _ in 0..m {
            c.push_str(pool[r.below(pool.len())]);
        }
        out.push_str(&format!("/*{c}*/"));
        pos = t.start;
    }
    out.push_str(&src[pos..]);
    out
}

pub fn small(r: &mut Rng, v: Ver) -> String {
    let o = Opts { contract: r.pct(85), e2e: r.pct(20), chain_ext: r.pct(25), traits: r.pct(25), rich: r.pct(25), events: r.pct(60), wildcards: r.pct(10) };
    gen::program(r, v, o).file.render().text
}

/// A realistic document: mostly parsable code.
pub fn document(r: &mut Rng, v: Ver) -> String {
    let mut s = match r.below(12) {
        0 => {
            let f = fixtures();
            f[r.below(f.len())].1.clone()
        }
        1 | 2 => {
            let p = attrs::odd_prog(r, v);
            attrs::lay(&p, r).text
        }
        3 | 4 => {
            let p = some_prog(r, v, 70);
            attrs::lay(&p, r).text
        }
        5 => {
            let s = small(r, v);
            let st = Style::random(r);
            crate::lex::relayout(&s, &st, r).0
        }
        6 => ["", "\n", "#[ink(", "#[ink::", "mod x {}", "#![cfg_attr(not(feature = \"std\"), no_std)]\n", "#[ink::contract]\nmod a {\n    \n}\n", "// only\n"][r.below(8)].to_string(),
        _ => small(r, v),
    };
    if r.pct(40) {
        let n = r.range(1, 12);
        s = unicode(&s, r, n);
    }
    s.replace('\r', if s.contains("\r\n") { "\r" } else { "" }).replace("\r\r", "\r")
}

fn at(s: &str, r: &mut Rng) -> usize {
    attrs::floor(s, r.below(s.len() + 1))
}

/// Any text: documents cut, spliced, with pieces deleted, repeated, swapped or inserted.
pub fn hostile(r: &mut Rng, v: Ver) -> String {
    let mut s = if r.pct(50) { small(r, v) } else { document(r, v) };
    let junk = [
        "#[ink(", "#[ink::", "#[ink]", "#[ink()]", "#[ink(message", ")]", "#[", "#![ink(", "\"", "'", "/*", "*/", "//", "r#\"", "{", "}", "(", ")", "[", "]", "<", ">", ",", ",,", ";", ":", "::", "=", "= =", "@", "_", "#", "!", "&", "'a", "0x", "0xFFFFFFFFFF", "\\", "\u{0}", "\u{feff}", "\u{2028}",
        "🦀", "é", "\t", "\n", "\r\n", "\r", " ", "\u{a0}", "\u{3000}", "mod", "struct", "enum", "impl", "trait", "fn", "pub", "use self::*;", "use super::*;", "type A = A;", "#[ink(selector = )]", "#[ink(selector = 0x)]", "#[ink(selector = -1)]", "#[ink(extension = 99999999999)]", "#[ink_e2e::test(backend(runtime_only(sandbox = )))]",
        "#[ink(namespace = \"\")]", "#[ink(keep_attr = ,)]", "#[ink(env = )]", "#[cfg(test)]", "#[cfg(all(test, feature = \"e2e-tests\"))]", "#[derive(scale::Encode)]", "#[ink::scale_derive(", "self", "-> Self", "&mut self", "macro_rules! m { () => {} }", "extern \"C\" {", "union U { a: u8 }", "async", "unsafe", "const", "dyn", "impl Trait for", "where T: ", "?", "..", "..=", "|", "||", "=>", "if", "match x {", "$", "`",
    ];
    for _ in 0..r.range(0, 6) {
        match r.below(9) {
            0 => {
                let k = at(&s, r);
                s.truncate(k);
            }
            1 => {
                let k = at(&s, r);
                s = s[k..].to_string();
            }
            2 => {
                let (a, b) = (at(&s, r), at(&s, r));
                let (a, b) = (a.min(b), a.max(b).min(attrs::floor(&s, a.min(b) + 60)));
                if a < b {
                    s.replace_range(a..b, "");
                }
            }
            3 => {
                let (a, b) = (at(&s, r), at(&s, r));
                let (a, b) = (a.min(b), a.max(b));
                let b = attrs::floor(&s, b.min(a + 300)).max(a);
                let piece = s[a..b].to_string();
                let k = at(&s, r);
                s.insert_str(k, &piece);
            }
            4 => {
                // drop one token
                let ts = lex(&s);
                if !ts.is_empty() {
                    let t = &ts[r.below(ts.len())];
                    s.replace_range(t.start..t.end, "");
                }
            }
            5 => {
                // replace one token by junk
                let ts = lex(&s);
                if !ts.is_empty() {
                    let t = &ts[r.below(ts.len())];
                    s.replace_range(t.start..t.end, junk[r.below(junk.len())]);
                }
            }
            6 => {
                // swap two tokens
                let ts = lex(&s);
                if ts.len() > 2 {
                    let (a, b) = (r.below(ts.len()), r.below(ts.len()));
                    let (a, b) = (a.min(b), a.max(b));
                    if a != b {
                        let (x, y) = (ts[a].text.clone(), ts[b].text.clone());
                        s.replace_range(ts[b].start..ts[b].end, &x);
                        s.replace_range(ts[a].start..ts[a].end, &y);
                    }
                }
            }
            7 => {
                // cursor-like places: right inside an ink! attribute
                if let Some(i) = s.match_indices("#[ink").map(|(i, _)| i).nth(r.below(1 + s.matches("#[ink").count())) {
                    let k = attrs::floor(&s, (i + r.below(24)).min(s.len()));
                    s.insert_str(k, junk[r.below(junk.len())]);
                }
            }
            _ => {
                let k = at(&s, r);
                s.insert_str(k, junk[r.below(junk.len())]);
            }
        }
    }
    s
}

/// A position that is likely to matter (around ink! attributes and declarations).
pub fn position(src: &str, r: &mut Rng) -> usize {
    if r.pct(60) {
        let n = src.matches("#[ink").count();
        if n > 0 {
            let i = src.match_indices("#[ink").nth(r.below(n)).unwrap().0;
            let w = if r.pct(70) { 30 } else { 120 };
            return attrs::floor(src, (i + r.below(w)).min(src.len()));
        }
    }
    at(src, r)
}
pub fn selection(src: &str, r: &mut Rng) -> (usize, usize) {
    let a = position(src, r);
    match r.below(4) {
        0 | 1 => (a, a),
        2 => (a, attrs::floor(src, (a + r.below(40)).min(src.len())).max(a)),
        _ => {
            let b = position(src, r);
            (a.min(b), a.max(b))
        }
    }
}

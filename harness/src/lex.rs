//! Independent, minimal Rust lexer: splits a text into tokens and trivia.
//! Used to re-lay out programs and to compare programs modulo trivia.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub text: String,
    pub start: usize,
    pub end: usize,
    /// Whitespace or comments directly before the token in the source.
    pub spaced: bool,
}

fn is_id_start(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}
fn is_id_cont(c: char) -> bool {
    c == '_' || c.is_alphanumeric()
}

/// Doc comments (`///`, `//!`, `/** */`, `/*! */`) are tokens; other comments are trivia.
pub fn lex(src: &str) -> Vec<Tok> {
    let b: Vec<(usize, char)> = src.char_indices().collect();
    let n = b.len();
    let off = |i: usize| if i < n { b[i].0 } else { src.len() };
    let mut i = 0;
    let mut out: Vec<Tok> = Vec::new();
    let mut spaced = false;
    while i < n {
        let c = b[i].1;
        let at = |k: usize| if k < n { b[k].1 } else { '\0' };
        if c.is_whitespace() {
            i += 1;
            spaced = true;
            continue;
        }
        let start = i;
        if c == '/' && at(i + 1) == '/' {
            while i < n && b[i].1 != '\n' && !(b[i].1 == '\r' && at(i + 1) == '\n') {
                i += 1;
            }
            let text = &src[off(start)..off(i)];
            let doc = (text.starts_with("///") && !text.starts_with("////")) || text.starts_with("//!");
            if !doc {
                spaced = true;
                continue;
            }
        } else if c == '/' && at(i + 1) == '*' {
            let mut depth = 0;
            while i < n {
                if at(i) == '/' && at(i + 1) == '*' {
                    depth += 1;
                    i += 2;
                } else if at(i) == '*' && at(i + 1) == '/' {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
            i = i.min(n);
            let text = &src[off(start)..off(i)];
            let doc = (text.starts_with("/**") && !text.starts_with("/***") && text.len() > 4) || text.starts_with("/*!");
            if !doc {
                spaced = true;
                continue;
            }
        } else if (c == 'r' || c == 'b') && {
            // raw / byte strings
            let mut k = i + 1;
            if c == 'b' && at(k) == 'r' {
                k += 1;
            }
            let mut h = 0;
            while at(k) == '#' {
                h += 1;
                k += 1;
            }
            at(k) == '"' && (c == 'r' || h == 0 || at(i + 1) == 'r')
        } {
            let mut k = i + 1;
            let mut raw = c == 'r';
            if c == 'b' && at(k) == 'r' {
                raw = true;
                k += 1;
            }
            let mut h = 0;
            while at(k) == '#' {
                h += 1;
                k += 1;
            }
            k += 1;
            loop {
                if k >= n {
                    break;
                }
                if !raw && at(k) == '\\' {
                    k += 2;
                    continue;
                }
                if at(k) == '"' {
                    let mut m = 0;
                    while m < h && at(k + 1 + m) == '#' {
                        m += 1;
                    }
                    if m == h {
                        k += 1 + h;
                        break;
                    }
                }
                k += 1;
            }
            i = k.min(n);
        } else if is_id_start(c) {
            if c == 'r' && at(i + 1) == '#' && is_id_start(at(i + 2)) {
                i += 2;
            }
            while i < n && is_id_cont(b[i].1) {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            while i < n && is_id_cont(b[i].1) {
                i += 1;
            }
            if at(i) == '.' && at(i + 1).is_ascii_digit() {
                i += 1;
                while i < n && is_id_cont(b[i].1) {
                    i += 1;
                }
            }
        } else if c == '"' {
            i += 1;
            while i < n && b[i].1 != '"' {
                if b[i].1 == '\\' {
                    i += 1;
                }
                i += 1;
            }
            i = (i + 1).min(n);
        } else if c == '\'' {
            // char literal or lifetime
            if at(i + 1) == '\\' {
                i += 3;
                while i < n && b[i].1 != '\'' {
                    i += 1;
                }
                i = (i + 1).min(n);
            } else if at(i + 2) == '\'' {
                i += 3;
            } else {
                i += 1;
                while i < n && is_id_cont(b[i].1) {
                    i += 1;
                }
            }
        } else {
            i += 1;
        }
        out.push(Tok {
            text: src[off(start)..off(i)].to_owned(),
            start: off(start),
            end: off(i),
            spaced,
        });
        spaced = false;
    }
    out
}

pub fn toks(src: &str) -> Vec<String> {
    lex(src).into_iter().map(|t| t.text).collect()
}

/// How a program is laid out again.
#[derive(Clone, Debug)]
pub struct Style {
    pub crlf: bool,
    pub comment_pct: u32,
    pub newline_pct: u32,
    pub extra_pct: u32,
    pub tight: bool,
    /// Insert comments / newlines also inside attribute parentheses.
    pub wild: bool,
}

impl Style {
    pub fn random(r: &mut crate::rng::Rng) -> Style {
        Style {
            crlf: r.pct(15),
            comment_pct: if r.pct(50) { 0 } else { r.below(12) as u32 },
            newline_pct: r.below(25) as u32,
            extra_pct: r.below(40) as u32,
            tight: r.pct(20),
            wild: r.pct(60),
        }
    }
}

fn wordy(s: &str) -> bool {
    let f = s.chars().next().unwrap_or(' ');
    f.is_alphanumeric() || f == '_' || f == '\'' || f == '"'
}
fn wordy_end(s: &str) -> bool {
    let f = s.chars().last().unwrap_or(' ');
    f.is_alphanumeric() || f == '_' || f == '\'' || f == '"'
}

fn trivia(r: &mut crate::rng::Rng, st: &Style, must: bool, was_nl: bool) -> String {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let mut s = String::new();
    if r.pct(st.comment_pct) {
        match r.below(5) {
            0 => s.push_str("/* c */"),
            1 => s.push_str(" /* ünï — 🦀 */ "),
            2 => {
                s.push_str(" // note #[ink(message)]");
                s.push_str(nl);
            }
            3 => s.push_str("/* #[ink(storage)] /* nested */ */ "),
            _ => {
                s.push_str(" // é");
                s.push_str(nl);
            }
        }
    }
    if r.pct(st.newline_pct) {
        s.push_str(nl);
        for _ in 0..r.below(4) {
            s.push_str("    ");
        }
    }
    if r.pct(st.extra_pct) {
        match r.below(4) {
            0 => s.push('\t'),
            1 => s.push_str("  "),
            2 => s.push(' '),
            _ => {
                s.push_str(nl);
                s.push_str(nl);
                s.push_str("  ");
            }
        }
    }
    if must && s.is_empty() {
        s.push_str(if was_nl && !st.tight { nl } else { " " });
    }
    s
}

/// Re-lays out `src`: same token sequence, other trivia. Returns the new text and
/// the start/end offsets of every token in it.
pub fn relayout(src: &str, st: &Style, r: &mut crate::rng::Rng) -> (String, Vec<Tok>) {
    let ts = lex(src);
    let mut out = String::new();
    let mut res = Vec::new();
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let mut paren = 0i32; // depth inside #[...]
    let mut ink = false; // inside an ink! attribute
    let quiet = Style { comment_pct: 0, ..st.clone() };
    for (k, t) in ts.iter().enumerate() {
        let prev = if k > 0 { Some(&ts[k - 1]) } else { None };
        if let Some(p) = prev {
            let was_nl = src[p.end..t.start].contains('\n');
            let line_doc = p.text.starts_with("//");
            let in_attr = paren > 0;
            let colons = |a: usize, b: usize| b < ts.len() && ts[a].text == ":" && ts[b].text == ":" && ts[a].end == ts[b].start;
            let path_sep = k > 0 && (colons(k - 1, k) || colons(k, k + 1) || (k > 1 && colons(k - 2, k - 1)));
            let empty_parens = p.text == "(" && t.text == ")";
            let st = if in_attr && !ink { &quiet } else { st };
            if line_doc {
                out.push_str(nl);
                if !st.tight {
                    out.push_str("    ");
                }
            } else {
                let both_word = wordy_end(&p.text) && wordy(&t.text);
                let both_punct = !wordy_end(&p.text) && !wordy(&t.text);
                if t.spaced {
                    // something must remain when the neighbours could merge
                    let must = both_word || both_punct || !st.tight;
                    if in_attr && !st.wild {
                        if must || !st.tight {
                            out.push(' ');
                        }
                    } else {
                        out.push_str(&trivia(r, st, must, was_nl));
                    }
                } else if both_punct && !(matches!(p.text.as_str(), "(" | ")" | "{" | "}" | "[" | "]" | "," | ";")
                    || matches!(t.text.as_str(), "(" | ")" | "{" | "}" | "[" | "]" | "," | ";"))
                {
                    // glued punctuation such as `::`, `->`: keep
                } else if p.text == "#" || (p.text == "!" && t.text == "[") || p.text == "'" || t.text == "!" || p.text == "!" || p.text=="." || t.text=="." {
                    // keep `#[`, `#![`, `name!(`, field access together
                } else if path_sep || empty_parens || (in_attr && !st.wild) {
                    // keep
                } else if !both_word && r.pct(25) {
                    out.push_str(&trivia(r, st, false, false));
                }
            }
        } else if !src[..t.start].is_empty() || r.pct(20) {
            if !(t.text == "#" && ts.get(1).map_or(false, |x| x.text == "!")) && !t.text.starts_with("//!") {
                out.push_str(&trivia(r, st, false, false));
            }
        }
        if t.text == "[" && prev.map_or(false, |p| p.text == "#" || p.text == "!") && paren == 0 {
            paren = 1;
            ink = ts.get(k + 1).map_or(false, |x| x.text == "ink" || x.text == "ink_e2e");
        } else if paren > 0 {
            match t.text.as_str() {
                "(" | "[" | "{" => paren += 1,
                ")" | "]" | "}" => paren -= 1,
                _ => (),
            }
        }
        let s = out.len();
        out.push_str(&t.text);
        res.push(Tok {
            text: t.text.clone(),
            start: s,
            end: out.len(),
            spaced: false,
        });
    }
    if src.ends_with('\n') || r.pct(50) {
        out.push_str(nl);
    }
    (out, res)
}

/// Shrinks a range to the tokens that lie completely inside it (unchanged if there are none).
pub fn trim(toks: &[Tok], s: usize, e: usize) -> (usize, usize) {
    let i = toks.partition_point(|t| t.start < s);
    let j = toks.partition_point(|t| t.end <= e);
    if i < j {
        (toks[i].start, toks[j - 1].end)
    } else {
        (s, e)
    }
}

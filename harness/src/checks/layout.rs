//! D09: analysis depends on the tokens, not on the trivia between them.
use crate::api::{self, guard, range, size, us};
use crate::ast::{Item, Rendered};
use crate::checks::diag::pick_ver;
use crate::gen::{self, Opts, Prog, Ver};
use crate::lex::{self, Style, Tok};
use crate::mutate::{self, M};
use crate::rng::Rng;
use crate::run::Ctx;
use ink_analyzer::Analysis;
use serde_json::json;

/// A valid program, or one with up to three rules broken.
pub fn some_prog(r: &mut Rng, v: Ver, broken_pct: u32) -> Prog {
    let o = Opts { contract: r.pct(90), wildcards: r.pct(20), ..Opts::default() };
    let mut p = gen::program(r, v, o);
    if r.pct(broken_pct) {
        let sets = [mutate::D02, mutate::D03, mutate::D04, mutate::D05, mutate::D06, mutate::D07];
        for _ in 0..r.range(1, 3) {
            let set = sets[r.below(sets.len())];
            let f = set[r.below(set.len())];
            let mut q = p.clone();
            // mutators assume a valid program; on one that is already broken they may give up
            if matches!(guard(|| f(&mut M { p: &mut q, r })), Ok(Some(_))) {
                p = q;
            }
        }
    }
    p
}

/// Text without whitespace and comments.
pub fn squeeze(s: &str) -> String {
    let mut out = String::new();
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '*' {
            let mut d = 0;
            while i < c.len() {
                if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '*' {
                    d += 1;
                    i += 2;
                } else if c[i] == '*' && i + 1 < c.len() && c[i + 1] == '/' {
                    d -= 1;
                    i += 2;
                    if d == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
        } else if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '/' && !(i > 0 && c[i - 1] == ':') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i].is_whitespace() {
            i += 1;
        } else {
            out.push(c[i]);
            i += 1;
        }
    }
    out
}

/// (first token, one past the last token) of a range; trivia at its ends does not count.
fn trange(t: &[Tok], s: usize, e: usize) -> (usize, usize) {
    let mut i = t.partition_point(|x| x.end <= s);
    // doc comments before an item are not always part of it for the parser
    while i < t.len() && t[i].end <= e && (t[i].text.starts_with("//") || t[i].text.starts_with("/*")) {
        i += 1;
    }
    let j = t.partition_point(|x| x.start < e);
    (i, j.max(i))
}

type Obs = Vec<String>;

fn diags(text: &str, t: &[Tok], v: Ver, map: &dyn Fn(usize) -> String) -> Result<Obs, String> {
    let mut o: Obs = api::diagnostics(text, v)?
        .iter()
        .map(|d| {
            let (a, b) = trange(t, d.s, d.e);
            format!("diag {}..{} {} {}", map(a), map(b), if d.error { "E" } else { "W" }, squeeze(&d.msg))
        })
        .collect();
    o.sort();
    Ok(o)
}

/// Token ranges of all attributes, per token: (attr no, inside parens, is ink).
fn attr_tokens(t: &[Tok]) -> Vec<usize> {
    let mut out = vec![];
    let mut k = 0;
    while k < t.len() {
        if t[k].text == "#" && k + 1 < t.len() && t[k + 1].text == "[" {
            let mut d = 0;
            while k < t.len() {
                out.push(k);
                match t[k].text.as_str() {
                    "[" | "(" | "{" => d += 1,
                    "]" | ")" | "}" => d -= 1,
                    _ => (),
                }
                k += 1;
                if d == 0 && t[k - 1].text == "]" {
                    break;
                }
            }
        } else {
            k += 1;
        }
    }
    out
}

fn queries(text: &str, t: &[Tok], v: Ver, picks: &[usize]) -> Result<Obs, String> {
    guard(|| {
        let an = Analysis::new(text, v.lib());
        let tr = |s: usize, e: usize| {
            let (a, b) = trange(t, s, e);
            format!("{a}..{b}")
        };
        let mut o: Obs = vec![];
        let mut hints: Obs = an
            .inlay_hints(None)
            .iter()
            .map(|h| {
                let (s, e) = us(h.range);
                format!("hint {} at {} {} {:?}", tr(s, e), t.partition_point(|x| x.end < usize::from(h.position)), h.label, h.detail)
            })
            .collect();
        hints.sort();
        o.extend(hints);
        for &k in picks {
            let (s, e) = (t[k].start, t[k].end);
            let mut q = vec![(s, e)];
            if e - s > 1 && text.is_char_boundary(s + 1) {
                q.push((s + 1, s + 1));
            }
            for (a, b) in q {
                let h = an.hover(range(a, b)).map(|h| {
                    let (s, e) = us(h.range);
                    (tr(s, e), h.content)
                });
                o.push(format!("hover token {k} {:?} ({}) {h:?}", t[k].text, b - a == 0));
                if a == b {
                    let g = an.signature_help(size(a));
                    for x in g {
                        let (s, e) = us(x.range);
                        o.push(format!("sig token {k} {:?} {} {} {:?} {:?}", t[k].text, tr(s, e), x.label, x.active_parameter, x.parameters.iter().map(|p| us(p.range)).collect::<Vec<_>>()));
                    }
                }
            }
        }
        o
    })
}

fn diff(a: &Obs, b: &Obs) -> Option<(String, String)> {
    if a == b {
        return None;
    }
    let x = a.iter().find(|x| !b.contains(x)).cloned();
    let y = b.iter().find(|x| !a.contains(x)).cloned();
    Some((x.unwrap_or_else(|| "(order or multiplicity)".into()), y.unwrap_or_else(|| "(nothing more)".into())))
}

fn kind(s: &str) -> String {
    let w = s.split(' ').next().unwrap_or("").to_string();
    match w.as_str() {
        "diag" => format!("diag:{}", crate::checks::diag::norm_msg(s.splitn(4, ' ').nth(3).unwrap_or(""))),
        "hover" | "sig" => format!("{w}:{}", s.split(' ').nth(3).unwrap_or("")),
        _ => w,
    }
}

pub fn d09(cx: &mut Ctx, i: u64) {
    let mut r = cx.rng("prog");
    let v = pick_ver(&mut r);
    let mut p = some_prog(&mut r, v, 75);
    let base = p.file.render();
    cx.count("programs");
    let t0 = lex::lex(&base.text);
    if i % 3 != 2 {
        // other trivia, same tokens
        let st = Style::random(&mut r);
        let alt: Rendered = base.relayout(&st, &mut r);
        let t1 = lex::lex(&alt.text);
        if t0.len() != t1.len() || t0.iter().zip(&t1).any(|(a, b)| a.text != b.text) {
            cx.count("relayout_tokens_differ");
            if cx.verbose {
                let k = t0.iter().zip(&t1).position(|(a, b)| a.text != b.text).unwrap_or(0);
                println!("{:?} vs {:?}", &t0[k], &t1[k]);
                println!("{:?}", &alt.text[t1[k].start.saturating_sub(40)..]);
            }
            return;
        }
        cx.seen(&alt.text);
        cx.count("layout_pairs");
        let mut at = attr_tokens(&t0);
        r.shuffle(&mut at);
        let picks: Vec<usize> = at.into_iter().take(60).collect();
        let id = |k: usize| k.to_string();
        let run = |text: &str, t: &[Tok]| -> Result<Obs, String> {
            let mut o = diags(text, t, v, &id)?;
            o.extend(queries(text, t, v, &picks)?);
            Ok(o)
        };
        let (a, b) = (run(&base.text, &t0), run(&alt.text, &t1));
        let det = json!({"version": v.name(), "source": base.text, "other_layout": alt.text});
        match (a, b) {
            (Err(e), _) | (_, Err(e)) => cx.violate(&e.clone(), &format!("analyzer panicked: {e}"), det),
            (Ok(a), Ok(b)) => {
                cx.add("observations_compared", a.len() as u64);
                cx.add("diagnostics_compared", a.iter().filter(|x| x.starts_with("diag")).count() as u64);
                cx.add("hovers_compared", a.iter().filter(|x| x.starts_with("hover")).count() as u64);
                cx.add("signatures_compared", a.iter().filter(|x| x.starts_with("sig")).count() as u64);
                cx.add("hints_compared", a.iter().filter(|x| x.starts_with("hint")).count() as u64);
                if let Some((x, y)) = diff(&a, &b) {
                    cx.violate(&format!("layout:{}", kind(if x.starts_with('(') { &y } else { &x })), &format!("results depend on the layout ({}): {x:?} versus {y:?}", v.name()), det);
                } else {
                    cx.sample(|| det);
                }
            }
        }
    } else {
        // unrelated plain items
        let mut new = vec![];
        for _ in 0..r.range(1, 4) {
            let mut m = M { p: &mut p, r: &mut r };
            let it = m.make(|g| g.helper_item());
            let id = it.h().id;
            let mods = m.all(&|it, st| matches!(it, Item::Mod(x) if x.items.is_some()) && st.iter().all(|y| matches!(y, Item::Mod(_))));
            if !mods.is_empty() && m.r.pct(60) {
                let k = mods[m.r.below(mods.len())];
                m.insert_in(k, it);
            } else {
                m.insert_root(it);
            }
            new.push(id);
        }
        let alt = p.file.render();
        let t1 = lex::lex(&alt.text);
        let spans: Vec<(usize, usize)> = new.iter().map(|i| alt.whole(*i)).collect();
        let added = |k: usize| k < t1.len() && spans.iter().any(|s| s.0 <= t1[k].start && t1[k].end <= s.1);
        let mut idx = vec![];
        let mut n = 0;
        for k in 0..=t1.len() {
            idx.push(n);
            if !added(k) {
                n += 1;
            }
        }
        cx.seen(&alt.text);
        cx.count("unrelated_pairs");
        let det = json!({"version": v.name(), "source": base.text, "with_unrelated_items": alt.text});
        match (diags(&base.text, &t0, v, &|k| k.to_string()), diags(&alt.text, &t1, v, &|k| idx[k].to_string())) {
            (Err(e), _) | (_, Err(e)) => cx.violate(&e.clone(), &format!("analyzer panicked: {e}"), det),
            (Ok(a), Ok(b)) => {
                cx.add("diagnostics_compared", a.len() as u64);
                if let Some((x, y)) = diff(&a, &b) {
                    cx.violate(&format!("unrelated:{}", kind(if x.starts_with('(') { &y } else { &x })), &format!("unrelated items change the diagnostics ({}): {x:?} versus {y:?}", v.name()), det);
                }
            }
        }
    }
}

//! D01-D09: diagnostics.
use crate::api;
use crate::gen::{self, Opts, Ver};
use crate::lex::Style;
use crate::run::Ctx;
use serde_json::json;

pub fn pick_ver(r: &mut crate::rng::Rng) -> Ver {
    if r.pct(50) { Ver::V4 } else { Ver::V5 }
}

/// Message with the program-specific parts blanked, for signatures.
pub fn norm_msg(m: &str) -> String {
    let mut s = String::new();
    let mut tick = false;
    for c in m.chars() {
        if c == '`' || c == '\'' {
            tick = !tick;
            s.push(c);
        } else if !tick && !c.is_ascii_digit() {
            s.push(c);
        }
        if s.len() > 90 {
            break;
        }
    }
    s
}

pub fn d01(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("prog");
    let v = pick_ver(&mut r);
    let o = Opts { contract: r.pct(90), ..Opts::default() };
    let p = gen::program(&mut r, v, o);
    for f in &p.features {
        cx.count(&format!("feature:{f}"));
    }
    let base = p.file.render();
    let rend = if r.pct(50) { base } else { base.relayout(&Style::random(&mut r), &mut r) };
    cx.count("programs");
    cx.seen(&rend.text);
    match api::diagnostics(&rend.text, v) {
        Err(e) => cx.violate(&e.clone(), &format!("analyzer panicked on a valid program: {e}"), json!({"version": v.name(), "source": rend.text})),
        Ok(ds) => {
            if let Some(d) = ds.first() {
                cx.violate(
                    &format!("{}:{}", v.name(), norm_msg(&d.msg)),
                    &format!("valid program flagged ({}): {:?} at {}..{} = {:?}", v.name(), d.msg, d.s, d.e, &rend.text[d.s..d.e]),
                    json!({"version": v.name(), "source": rend.text}),
                );
            }
        }
    }
    cx.sample(|| json!({"version": v.name(), "source": rend.text}));
}

/// D02-D07: one rule of a valid program is broken; the error must be reported there and only there.
fn broken(cx: &mut Ctx, set: &[crate::mutate::Mutator], o: Opts, multi: bool) {
    use crate::mutate::{Broken, M};
    let mut r = cx.rng("prog");
    let v = pick_ver(&mut r);
    // stratify over the rules
    let start = (cx.idx as usize / 2) % set.len();
    let mut done: Option<(gen::Prog, Broken)> = None;
    for k in 0..12 {
        let mut p = gen::program(&mut r, if k > 8 { Ver::V5 } else { v }, o.clone());
        let mut m = M { p: &mut p, r: &mut r };
        if let Some(x) = set[start](&mut m) {
            done = Some((p, x));
            break;
        }
    }
    let Some((mut p, mut x)) = done else { return cx.count("inapplicable") };
    let v = p.v;
    cx.count("programs");
    cx.count(&format!("rule:{}:{}", v.name(), x.name));
    if multi && !x.solo && r.pct(35) {
        // several independent violations in one file
        for _ in 0..r.range(1, 2) {
            let f = set[r.below(set.len())];
            let mut q = p.clone();
            let mut m = M { p: &mut q, r: &mut r };
            let Some(y) = f(&mut m) else { continue };
            let rr = q.file.render();
            let spans = |z: &Broken| -> Option<Vec<(usize, usize)>> {
                z.expect.iter().chain(z.also.iter().map(|a| &a.0)).map(|i| rr.span(*i, crate::ast::Part::Whole)).collect()
            };
            let (Some(a), Some(b)) = (spans(&x), spans(&y)) else { continue };
            let disjoint = a.iter().all(|s| b.iter().all(|t| s.1 <= t.0 || t.1 <= s.0));
            if y.solo || !disjoint || y.expect.len() != 1 || x.expect.len() != 1 + x.each.len().saturating_sub(1) {
                continue;
            }
            if x.each.is_empty() {
                x.each = x.expect.clone();
            }
            x.each.extend(y.expect.iter());
            x.expect.extend(y.expect);
            x.also.extend(y.also);
            x.name = format!("{} + {}", x.name, y.name);
            p = q;
            cx.count("combined");
        }
    }
    let rend = p.file.render();
    let rend = if r.pct(70) { rend } else { rend.relayout(&Style::random(&mut r), &mut r) };
    cx.seen(&rend.text);
    judge(cx, v, &rend, &x);
}

pub fn judge(cx: &mut Ctx, v: Ver, rend: &crate::ast::Rendered, x: &crate::mutate::Broken) {
    use crate::ast::Part;
    let det = |ds: &Vec<api::Diag>| json!({"version": v.name(), "rule": x.name, "expected_in": x.expect.iter().map(|i| rend.text[rend.whole(*i).0..rend.whole(*i).1].to_string()).collect::<Vec<_>>(), "source": rend.text,
        "diagnostics": ds.iter().map(|d| format!("{}..{} {} [{}]", d.s, d.e, d.msg, &rend.text[d.s..d.e])).collect::<Vec<_>>().join("\n")});
    match api::diagnostics(&rend.text, v) {
        Err(e) => cx.violate(&e.clone(), &format!("analyzer panicked: {e}"), det(&vec![])),
        Ok(ds) => {
            // comments around an item do not belong to what is flagged
            let toks = crate::lex::lex(&rend.text);
            let ds: Vec<api::Diag> = ds
                .into_iter()
                .map(|mut d| {
                    let (s, e) = crate::lex::trim(&toks, d.s, d.e);
                    d.s = s;
                    d.e = e;
                    d
                })
                .collect();
            let inside = |d: &api::Diag, s: (usize, usize)| s.0 <= d.s && d.e <= s.1;
            let on = |i: &u32| ds.iter().any(|d| (d.error || x.warn_ok) && inside(d, rend.whole(*i)));
            let hit = x.expect.iter().any(on) && x.each.iter().all(on);
            cx.add("diagnostics_seen", ds.len() as u64);
            if !hit {
                cx.violate(&format!("missed:{}:{}", v.name(), x.name), &format!("rule violation `{}` ({}) is not reported on the offending item", x.name, v.name()), det(&ds));
            }
            for d in &ds {
                let ok = x.expect.iter().any(|i| inside(d, rend.whole(*i)))
                    || x.also.iter().any(|(i, p)| {
                        if *p == Part::Whole { inside(d, rend.whole(*i)) } else { rend.span(*i, *p).map_or(false, |s| inside(d, s)) }
                    });
                if !ok {
                    cx.violate(
                        &format!("elsewhere:{}:{}:{}", v.name(), x.name, norm_msg(&d.msg)),
                        &format!("breaking rule `{}` ({}) flags a conforming item: {:?} on {:?}", x.name, v.name(), d.msg, &rend.text[d.s..d.e]),
                        det(&ds),
                    );
                }
            }
            cx.sample(|| det(&ds));
        }
    }
}

pub fn d02(cx: &mut Ctx, _i: u64) {
    broken(cx, crate::mutate::D02, Opts { wildcards: false, ..Opts::default() }, false)
}
pub fn d03(cx: &mut Ctx, _i: u64) {
    broken(cx, crate::mutate::D03, Opts { wildcards: false, ..Opts::default() }, true)
}
pub fn d04(cx: &mut Ctx, _i: u64) {
    broken(cx, crate::mutate::D04, Opts { wildcards: false, ..Opts::default() }, true)
}
pub fn d05(cx: &mut Ctx, _i: u64) {
    broken(cx, crate::mutate::D05, Opts { wildcards: false, ..Opts::default() }, true)
}
pub fn d06(cx: &mut Ctx, _i: u64) {
    let contract = cx.rng("c").pct(70);
    broken(cx, crate::mutate::D06, Opts { wildcards: false, contract, ..Opts::default() }, true)
}
pub fn d07(cx: &mut Ctx, _i: u64) {
    broken(cx, crate::mutate::D07, Opts { wildcards: false, ..Opts::default() }, false)
}

//! F01: quick fixes repair what they claim to repair.

use crate::api::{self, Diag, Edit};
use crate::ast::{Id, Part, Rendered};
use crate::checks::diag::norm_msg;
use crate::gen::{self, Opts, Ver};
use crate::lex::Style;
use crate::mutate::{self, M};
use crate::rng::Rng;
use crate::run::Ctx;
use ink_analyzer_ir::syntax::SourceFile;
use serde_json::json;

/// Unchanged stretches: (start before, start after, length).
pub fn stretches(src: &str, edits: &[Edit]) -> Vec<(usize, usize, usize)> {
    let mut v: Vec<&Edit> = edits.iter().collect();
    v.sort_by_key(|e| (e.s, e.e));
    let (mut pos, mut out, mut r) = (0, 0, vec![]);
    for e in v {
        r.push((pos, out, e.s - pos));
        out += e.s - pos + e.text.len();
        pos = e.e;
    }
    r.push((pos, out, src.len() - pos));
    r
}

/// The part of a range that is left, after the edits.
fn forward(st: &[(usize, usize, usize)], s: usize, e: usize) -> Option<(usize, usize)> {
    let mut lo = None;
    let mut hi = None;
    for (a, b, n) in st {
        let (x, y) = (s.max(*a), e.min(a + n));
        if x < y {
            lo.get_or_insert(x - a + b);
            hi = Some(y - a + b);
        }
    }
    lo.zip(hi)
}

pub fn syntax_errors(src: &str) -> Vec<String> {
    SourceFile::parse(src).errors().iter().map(|e| format!("{:?} {e}", e.range())).collect()
}

/// Has the known finding (a receiver is added although there is one already).
const PROBE: &str = "#[ink::contract]
mod c {
    #[ink(storage)]
    pub struct S {}
    impl S {
        #[ink(constructor)]
        pub fn new() -> Self { Self {} }
        #[ink(message)]
        pub fn m(self) {}
    }
}
";

pub fn f01(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("f01");
    if cx.idx == 0 {
        let rend = Rendered { text: PROBE.to_string(), spans: vec![] };
        for v in [Ver::V4, Ver::V5] {
            judge(cx, &mut r, v, &rend, &[], "probe");
        }
        return;
    }
    let v = if r.pct(50) { Ver::V4 } else { Ver::V5 };
    let sets = [mutate::D02, mutate::D03, mutate::D04, mutate::D05, mutate::D06, mutate::D07];
    let all: Vec<fn(&mut M) -> Option<mutate::Broken>> = sets.iter().flat_map(|s| s.iter().copied()).collect();
    let start = cx.idx as usize % all.len();
    let mut done = None;
    for k in 0..12 {
        let o = Opts { contract: true, wildcards: r.pct(15), ..Opts::default() };
        let mut p = gen::program(&mut r, if k > 8 { Ver::V5 } else { v }, o);
        let mut m = M { p: &mut p, r: &mut r };
        if let Some(x) = all[start](&mut m) {
            done = Some((p, x));
            break;
        }
    }
    let Some((p, x)) = done else { return cx.count("inapplicable") };
    let v = p.v;
    let rend = p.file.render();
    let rend = if r.pct(70) { rend } else { rend.relayout(&Style { tight: false, ..Style::random(&mut r) }, &mut r) };
    let mut attr_ids = vec![];
    p.file.heads(&mut |h, _, _| attr_ids.extend(h.attrs.iter().flat_map(|a| std::iter::once(a.id).chain(a.args.iter().flatten().flat_map(|x| std::iter::once(x.id).chain(x.nested.iter().map(|n| n.id)))))));
    judge(cx, &mut r, v, &rend, &attr_ids, &x.name);
}

fn judge(cx: &mut Ctx, r: &mut Rng, v: Ver, rend: &Rendered, attr_ids: &[Id], name: &str) {
    let src = rend.text.clone();
    cx.seen(&src);
    cx.count("programs");
    // panics are R01's concern
    let Ok(ds) = api::diagnostics(&src, v) else { return };
    let errors = syntax_errors(&src);
    let toks = crate::lex::lex(&src);
    let mut fixes: Vec<(&Diag, &api::Act)> = ds.iter().flat_map(|d| d.fixes.iter().map(move |f| (d, f))).collect();
    while fixes.len() > 6 {
        let k = r.below(fixes.len());
        fixes.remove(k);
    }
    for (d, f) in fixes {
        let Some(after) = api::apply(&src, &f.edits) else { continue };
        let st = stretches(&src, &f.edits);
        let m = norm_msg(&d.msg);
        let l = norm_msg(&f.label);
        cx.count(&format!("fix:{l}"));
        cx.count("fixes");
        let det = |e: serde_json::Value| json!({"version": v.name(), "rule": name, "diagnostic": format!("{}..{} {}", d.s, d.e, d.msg), "fix": f.label, "edits": format!("{:?}", f.edits), "observed": e, "source": src, "after": after});
        let errs = syntax_errors(&after);
        if errs.len() > errors.len() {
            let had = f.label.contains("receiver") && src[d.s..d.e].contains("self");
            cx.violate(&format!("syntax:{l}{}", if had { ":has-receiver" } else { "" }), &format!("fix '{}' for '{}' ({}) breaks the syntax: {}", f.label, d.msg, name, errs[0]), det(json!(errs)));
            continue;
        }
        let Ok(ds2) = api::diagnostics(&after, v) else { continue };
        let at = forward(&st, d.s, d.e);
        let moved = at.is_none();
        // with conflicting primary attributes on an `impl` it is open what the block is
        let open = name.starts_with("conflict") && d.msg.starts_with("At least one");
        if let Some((s, e)) = at.filter(|_| !open) {
            if let Some(y) = ds2.iter().find(|y| norm_msg(&y.msg) == m && y.s < e && s < y.e) {
                cx.violate(&format!("still:{m}:{l}"), &format!("'{}' ({}) is still reported after '{}'", d.msg, name, f.label), det(json!(format!("{}..{} {}", y.s, y.e, y.msg))));
                continue;
            }
        }
        let count = |v: &[Diag]| v.iter().filter(|y| y.msg == d.msg).count();
        let moves = moved && f.edits.iter().all(|e| e.s == e.e || e.text.is_empty()) && f.edits.iter().any(|e| !e.text.is_empty());
        if moves {
            cx.count("moves");
            let mut new: Vec<String> = f.edits.iter().flat_map(|e| crate::lex::lex(&e.text)).map(|t| t.text).collect();
            for t in toks.iter().filter(|t| f.edits.iter().any(|e| e.s <= t.start && t.end <= e.e)) {
                match new.iter().position(|x| *x == t.text) {
                    Some(k) => drop(new.swap_remove(k)),
                    None => {
                        cx.violate(&format!("loses:{l}"), &format!("'{}' for '{}' ({}) loses '{}'", f.label, d.msg, name, t.text), det(json!([t.start, t.end])));
                        break;
                    }
                }
            }
        }
        if moves && count(&ds2) >= count(&ds) {
            cx.violate(&format!("count:{m}:{l}"), &format!("'{}' ({}) is reported as often after '{}' as before", d.msg, name, f.label), det(json!([count(&ds), count(&ds2)])));
            continue;
        }
        // code is only removed from the flagged item
        let (lo, hi) = rend.spans.iter().filter(|sp| sp.part == Part::Whole && sp.s <= d.s && d.e <= sp.e && !attr_ids.contains(&sp.id)).map(|sp| (sp.s, sp.e)).min_by_key(|(s, e)| e - s).unwrap_or((0, src.len()));
        if let Some(t) = toks.iter().find(|t| (t.start < lo || hi < t.end) && f.edits.iter().any(|e| e.s < t.end && t.start < e.e && !e.text.contains(t.text.as_str()))) {
            cx.violate(&format!("removes:{m}:{l}"), &format!("'{}' for '{}' ({}) removes '{}' outside the flagged item", f.label, d.msg, name, t.text), det(json!([t.start, t.end])));
            continue;
        }
    }
}

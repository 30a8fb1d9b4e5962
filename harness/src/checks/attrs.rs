//! E04-E06: hover, inlay hints, signature help.
use crate::api::{guard, range, size, us};
use crate::ast::{Arg, Attr, Head, Item, Part, Rendered, Shape};
use crate::checks::diag::pick_ver;
use crate::checks::layout::some_prog;
use crate::gen::{Prog, Ver};
use crate::lex::{self, Style};
use crate::mutate::M;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::spec::{self, Kind};
use ink_analyzer::Analysis;
use serde_json::json;

fn name_pool(r: &mut Rng) -> String {
    let junk = ["xyz", "mess", "messages", "Message", "payabl", "ink", "selfs", "defaults", "storage_item", "anonymous2", "topics", "e", "sel"];
    if r.pct(60) { spec::ARGS[r.below(spec::ARGS.len())].to_string() } else { junk[r.below(junk.len())].to_string() }
}

/// A program with additional odd attributes on random items and fields.
pub fn odd_prog(r: &mut Rng, v: Ver) -> Prog {
    let mut p = some_prog(r, v, 50);
    p.file.unique_ids();
    let mut ids = vec![];
    p.file.heads(&mut |h, k, _| {
        if k != "raw" && k != "type" {
            ids.push(h.id)
        }
    });
    for _ in 0..r.range(0, 4) {
        if ids.is_empty() {
            break;
        }
        let id = ids[r.below(ids.len())];
        let paths = ["ink", "ink", "ink", "ink", "ink::xyz", "ink::contract::x", "ink_e2e::foo", "ink::event", "ink::scale_derive", "ink_e2e::test", "ink::test", "inks", "ink2::contract", "my::ink", "ink::message"];
        let path = paths[r.below(paths.len())].to_string();
        let n = r.range(0, 3);
        let mut a = {
            let mut m = M { p: &mut p, r };
            m.make(|g| {
                let args = (0..n)
                    .map(|_| {
                        let name = name_pool(g.r);
                        let value = match g.r.below(5) {
                            0 => Some("1".to_string()),
                            1 => Some("\"a\"".to_string()),
                            _ => None,
                        };
                        let value = if path == "ink" || path.starts_with("ink") { value } else { None };
                        Arg { id: g.id(), name, value, nested: None }
                    })
                    .collect();
                g.attr(&path, Some(args))
            })
        };
        if r.pct(20) && a.args.as_ref().map_or(false, |x| x.is_empty()) {
            a.args = None;
        }
        if let Some(h) = p.file.head_mut(id) {
            let k = r.below(h.attrs.len() + 1);
            h.attrs.insert(k, a);
        }
    }
    p
}

pub struct Place<'a> {
    pub head: &'a Head,
    pub attr: &'a Attr,
    pub item: String,
    pub st: Vec<&'a Item>,
}

/// Fields of tuple structs: what fits there is not specified.
pub fn tuple_field(pl: &Place) -> bool {
    pl.item == "field" && matches!(pl.st.last(), Some(Item::Adt(a)) if a.shape == Shape::Tuple)
}

pub fn is_ink(a: &Attr) -> bool {
    matches!(a.path.split("::").next(), Some("ink" | "ink_e2e"))
}

pub fn places<'a>(p: &'a Prog) -> Vec<Place<'a>> {
    let mut out = vec![];
    p.file.heads(&mut |h, k, st| {
        for a in &h.attrs {
            out.push(Place { head: h, attr: a, item: k.to_string(), st: st.to_vec() });
        }
    });
    out
}

pub fn lay(p: &Prog, r: &mut Rng) -> Rendered {
    let b = p.file.render();
    if r.pct(50) { b } else { b.relayout(&Style::random(r), r) }
}

/// An admissible hover: phrases and the range of a name; `None`: no hover.
type Exp = Option<(Vec<&'static str>, Option<(usize, usize)>)>;

fn attr_itself(pl: &Place, rd: &Rendered, v: Ver) -> Vec<Exp> {
    let a = pl.attr;
    match spec::kind(a) {
        Kind::Mac(m) => vec![spec::macro_doc(&m, v).map(|d| (d, rd.span(a.id, Part::Name)))],
        Kind::Unknown => vec![None],
        Kind::Arg(_) => {
            let args = a.args.as_ref().unwrap();
            let best = args.iter().map(|x| spec::rank(&x.name)).min().unwrap();
            args.iter().filter(|x| spec::rank(&x.name) == best).map(|x| spec::arg_doc(&x.name, v, false).map(|d| (d, rd.span(x.id, Part::Name)))).collect()
        }
    }
}

fn arg_doc(a: &Attr, x: &Arg, rd: &Rendered, v: Ver) -> Vec<Exp> {
    let mut out = vec![spec::arg_doc(&x.name, v, a.path == "ink_e2e::test").map(|d| (d, rd.span(x.id, Part::Name)))];
    // for nested arguments, the name of the inner one is as good
    let mut n = &x.nested;
    while let Some(y) = n {
        out.push(spec::arg_doc(&y.name, v, true).map(|d| (d, rd.span(y.id, Part::Name))));
        n = &y.nested;
    }
    if spec::kind(a) == Kind::Unknown && a.path != "ink" {
        out.push(None);
    }
    out
}

pub fn e04(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("prog");
    let v = pick_ver(&mut r);
    let p = odd_prog(&mut r, v);
    // the same program also under the other version
    let qv = if r.pct(25) { if v == Ver::V4 { Ver::V5 } else { Ver::V4 } } else { v };
    let rd = lay(&p, &mut r);
    let toks = lex::lex(&rd.text);
    cx.count("programs");
    cx.seen(&rd.text);
    let pls = places(&p);
    let ink: Vec<(usize, usize, &Place)> = pls.iter().filter(|x| is_ink(x.attr)).filter_map(|x| rd.span(x.attr.id, Part::Whole).map(|s| (s.0, s.1, x))).collect();
    // queries: (range, admissible answers)
    let mut qs: Vec<((usize, usize), Vec<Exp>, &'static str)> = vec![];
    for (s, e, pl) in &ink {
        let a = pl.attr;
        if a.raw.is_some() {
            // arbitrary tokens instead of arguments
            continue;
        }
        let spans: Vec<(&Arg, (usize, usize))> = a.args.iter().flatten().filter_map(|x| rd.span(x.id, Part::Whole).map(|s| (x, s))).collect();
        qs.push(((*s, *e), attr_itself(pl, &rd, qv), "whole"));
        let i = toks.partition_point(|t| t.start < *s);
        let j = toks.partition_point(|t| t.end <= *e);
        for t in &toks[i..j] {
            let within = |o: (usize, usize)| spans.iter().find(|(_, sp)| sp.0 <= o.0 && o.1 <= sp.1);
            let exp = match within((t.start, t.end)) {
                // whether the closing parentheses of nested arguments belong to the argument is not specified
                Some((x, _)) if x.nested.is_some() && t.text == ")" => [arg_doc(a, x, &rd, qv), attr_itself(pl, &rd, qv)].concat(),
                Some((x, _)) => arg_doc(a, x, &rd, qv),
                None => attr_itself(pl, &rd, qv),
            };
            qs.push(((t.start, t.end), exp, "token"));
            for o in [t.start, (t.start + t.end) / 2, t.end] {
                if o <= *s || o >= *e || !rd.text.is_char_boundary(o) {
                    continue;
                }
                let strict = spans.iter().find(|(_, sp)| sp.0 < o && o < sp.1);
                let exp = match strict {
                    Some((x, _)) if x.nested.is_some() && (t.text == ")" || toks.iter().any(|t| t.start == o && t.text == ")")) => [arg_doc(a, x, &rd, qv), attr_itself(pl, &rd, qv)].concat(),
                    Some((x, _)) => arg_doc(a, x, &rd, qv),
                    None => {
                        let mut v = attr_itself(pl, &rd, qv);
                        for (x, sp) in &spans {
                            if sp.0 == o || sp.1 == o {
                                v.extend(arg_doc(a, x, &rd, qv));
                            }
                        }
                        v
                    }
                };
                qs.push(((o, o), exp, "cursor"));
            }
        }
    }
    r.shuffle(&mut qs);
    qs.truncate(60);
    // elsewhere: any character position and any token outside of ink! attributes
    for _ in 0..30 {
        if toks.is_empty() {
            break;
        }
        let t = &toks[r.below(toks.len())];
        let q = if r.pct(50) {
            (t.start, t.end)
        } else {
            let mut o = r.below(rd.text.len());
            while !rd.text.is_char_boundary(o) {
                o -= 1;
            }
            (o, o)
        };
        if ink.iter().all(|(s, e, _)| q.1 < *s || q.0 > *e || (q.0 < q.1 && (q.1 <= *s || q.0 >= *e))) {
            qs.push((q, vec![None], "elsewhere"));
        }
    }
    let res = guard(|| {
        let an = Analysis::new(&rd.text, qv.lib());
        qs.iter().map(|(q, _, _)| an.hover(range(q.0, q.1)).map(|h| (us(h.range), h.content))).collect::<Vec<_>>()
    });
    let det = |q: (usize, usize)| json!({"version": qv.name(), "source": rd.text, "position": [q.0, q.1]});
    let got = match res {
        Err(e) => return cx.violate(&e.clone(), &format!("analyzer panicked: {e}"), det((0, 0))),
        Ok(g) => g,
    };
    for ((q, exp, what), h) in qs.iter().zip(got) {
        cx.count(&format!("hover_{what}"));
        let ok = exp.iter().any(|x| match (x, &h) {
            (None, None) => true,
            (Some((d, rg)), Some((hr, c))) => d.iter().all(|y| c.contains(y)) && *rg == Some(*hr),
            _ => false,
        });
        if h.is_some() {
            cx.count("hovers_with_content");
        }
        if !ok {
            let first = exp.iter().flatten().next();
            cx.violate(
                &format!("hover:{what}:{}:{}", qv.name(), first.map(|x| x.0[0]).unwrap_or("nothing")),
                &format!(
                    "hover at {:?} ({}) in {:?}: expected {:?}, got {:?}",
                    &rd.text[q.0..q.1],
                    qv.name(),
                    &rd.text[floor(&rd.text, q.0.saturating_sub(30))..ceil(&rd.text, q.1 + 30)],
                    exp.iter().map(|x| x.as_ref().map(|y| (&y.0, y.1.map(|s| &rd.text[s.0..s.1])))).collect::<Vec<_>>(),
                    h.as_ref().map(|(r, c)| (&rd.text[r.0..r.1], c.chars().take(60).collect::<String>()))
                ),
                det(*q),
            );
        }
    }
    cx.sample(|| det((0, 0)));
}

pub fn floor(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
pub fn ceil(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i += 1;
    }
    i
}

fn flat<'a>(x: &'a Arg, out: &mut Vec<&'a Arg>) {
    out.push(x);
    if let Some(n) = &x.nested {
        flat(n, out);
    }
}

pub fn e05(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("prog");
    let v = pick_ver(&mut r);
    let p = odd_prog(&mut r, v);
    let rd = lay(&p, &mut r);
    cx.count("programs");
    cx.seen(&rd.text);
    // (name range, arg range, label, detail)
    let mut exp: Vec<((usize, usize), (usize, usize), String, Option<String>)> = vec![];
    let mut skip: Vec<(usize, usize)> = vec![];
    let mut raw: Vec<(usize, usize)> = vec![];
    for pl in places(&p).iter().filter(|x| is_ink(x.attr)) {
        let ctor = pl.head.ink().any(|a| matches!(spec::kind(a), Kind::Arg(x) if x == "constructor"));
        if pl.attr.raw.is_some() {
            raw.extend(rd.span(pl.attr.id, Part::Whole));
            continue;
        }
        let both = ctor && pl.head.ink().any(|a| a.has("message"));
        for x in pl.attr.args.iter().flatten() {
            let mut all = vec![];
            flat(x, &mut all);
            for y in all {
                let (Some(n), Some(w)) = (rd.span(y.id, Part::Name), rd.span(y.id, Part::Whole)) else { continue };
                if let Some((l, d)) = spec::value(&y.name, v, ctor) {
                    if (v == Ver::V4 && spec::v5_only(&y.name)) || (both && y.name == "selector") {
                        // no such argument in this version
                        skip.push(n);
                        continue;
                    }
                    exp.push((n, w, l.to_string(), d.map(|s| s.to_string())));
                }
            }
        }
    }
    let full = (0, rd.text.len());
    let mut ranges: Vec<Option<(usize, usize)>> = vec![None, Some(full)];
    let pos = |r: &mut Rng| floor(&rd.text, r.below(rd.text.len() + 1));
    for _ in 0..3 {
        let (a, b) = (pos(&mut r), pos(&mut r));
        ranges.push(Some((a.min(b), a.max(b))));
    }
    for _ in 0..4 {
        // tight around one argument: exact, without its last or first token
        if exp.is_empty() {
            break;
        }
        let (n, w, _, _) = &exp[r.below(exp.len())];
        let c = [(w.0, w.1), (n.0, n.1), (w.0, w.1 - 1), (w.0 + 1, w.1), (n.1, w.1)];
        let q = c[r.below(5)];
        if q.0 <= q.1 && rd.text.is_char_boundary(q.0) && rd.text.is_char_boundary(q.1) {
            ranges.push(Some(q));
        }
    }
    let res = guard(|| {
        let an = Analysis::new(&rd.text, v.lib());
        ranges.iter().map(|q| an.inlay_hints(q.map(|x| range(x.0, x.1))).into_iter().map(|h| (us(h.range), usize::from(h.position), h.label, h.detail)).collect::<Vec<_>>()).collect::<Vec<_>>()
    });
    let det = |q: &Option<(usize, usize)>| json!({"version": v.name(), "source": rd.text, "range": q.map(|x| vec![x.0, x.1])});
    let got = match res {
        Err(e) => return cx.violate(&e.clone(), &format!("analyzer panicked: {e}"), det(&None)),
        Ok(g) => g,
    };
    for (q, hs) in ranges.iter().zip(got) {
        cx.count("queries");
        // whether the closing parentheses of nested arguments, and the blanks after malformed values, count is not specified
        let open = |n: &(usize, usize), w: &(usize, usize), q: &Option<(usize, usize)>| {
            let t = &rd.text[w.0..w.1];
            let end = if lex::toks(t).iter().any(|x| x == "-") { w.1 + rd.text[w.1..].find([',', ')']).unwrap_or(0) } else { w.1 };
            (t.ends_with(')') || end > w.1) && q.map_or(false, |x| x.0 <= w.0 && n.1 <= x.1 && x.1 < end)
        };
        let want: Vec<_> = exp.iter().filter(|(n, w, _, _)| !open(n, w, q)).filter(|(_, w, _, _)| q.map_or(true, |x| x.0 <= w.0 && w.1 <= x.1)).collect();
        cx.add("hints_expected", want.len() as u64);
        let mut left: Vec<_> = hs.iter().filter(|h| !skip.contains(&h.0) && !raw.iter().any(|w| w.0 <= h.0 .0 && h.0 .1 <= w.1)).collect();
        for (n, _, l, d) in &want {
            let k = left.iter().position(|h| h.0 == *n && h.1 == n.1 && h.2 == *l && h.3 == *d);
            match k {
                Some(k) => {
                    left.remove(k);
                }
                None => {
                    let near: Vec<_> = hs.iter().filter(|h| h.0 == *n).collect();
                    let name = rd.text[n.0..n.1].to_string();
                    cx.violate(
                        &format!("missing:{}:{name}:{}", v.name(), if q.is_none() { "all" } else { "range" }),
                        &format!("argument `{name}` ({}) should have the hint {l:?} {d:?} right after its name for the query {q:?}; got {near:?}", v.name()),
                        det(q),
                    );
                }
            }
        }
        left.retain(|h| !exp.iter().any(|(n, w, _, _)| *n == h.0 && open(n, w, q)));
        if let Some(h) = left.first() {
            let t = &rd.text[h.0 .0..h.0 .1];
            cx.violate(&format!("surplus:{}:{t}:{}", v.name(), if q.is_none() { "all" } else { "range" }), &format!("unexpected or repeated hint {:?} on {t:?} ({}) for the query {q:?}", h.2, v.name()), det(q));
        }
    }
    cx.sample(|| det(&None));
}

fn param(a: &str, v: Ver, ctor: bool) -> String {
    match spec::value(a, v, ctor) {
        Some((l, _)) => format!("{a}: {l}"),
        // optional nested values have no label of their own
        None if matches!(a, "node" | "runtime_only") => format!("{a}: "),
        None => a.to_string(),
    }
}

fn group(names: &[&str], v: Ver) -> Vec<String> {
    let ctor = names.contains(&"constructor");
    let mut g: Vec<String> = names.iter().map(|n| param(n, v, ctor)).collect();
    g.sort();
    g
}

fn anchor(a: &str, v: Ver) -> Vec<String> {
    let mut n = vec![a];
    n.extend(spec::siblings(&Kind::Arg(a.to_string()), v));
    group(&n, v)
}

fn complement(a: &str, v: Ver) -> Vec<Vec<String>> {
    let mut out = vec![];
    if a == "namespace" {
        out.push(group(&["namespace"], v));
    }
    let prim: Vec<&str> = spec::siblings(&Kind::Arg(a.to_string()), v).iter().copied().filter(|x| spec::entity(x)).collect();
    if prim.is_empty() {
        out.push(anchor(a, v));
    } else {
        out.extend(prim.iter().map(|x| anchor(x, v)));
    }
    out
}

/// Expected signatures (as sets of parameters) for a cursor in this attribute.
fn signatures(pl: &Place, v: Ver, focus: Option<&Arg>) -> Option<Vec<Vec<String>>> {
    let k = spec::kind(pl.attr);
    Some(match &k {
        Kind::Mac(_) => {
            let s = spec::siblings(&k, v);
            if s.is_empty() { vec![] } else { vec![group(s, v)] }
        }
        Kind::Unknown if pl.attr.path != "ink" => vec![],
        Kind::Arg(a) if spec::entity(a) => {
            // several entities in one attribute: which of them leads is not specified
            if pl.attr.args.iter().flatten().filter(|x| spec::entity(&x.name)).count() > 1 {
                return None;
            }
            vec![anchor(a, v)]
        }
        _ => {
            let prim = spec::primary(pl.head).map(spec::kind);
            match prim {
                Some(Kind::Arg(e)) if spec::entity(&e) && pl.item == "field" => return None,
                Some(Kind::Arg(e)) if spec::entity(&e) => {
                    let n = pl.head.ink().flat_map(|a| a.args.iter().flatten()).filter(|x| spec::entity(&x.name)).count();
                    if n > 1 {
                        return None;
                    }
                    vec![anchor(&e, v)]
                }
                _ => match &k {
                    Kind::Arg(a) => {
                        if pl.attr.args.iter().flatten().filter(|x| spec::rank(&x.name) == 1).count() > 1 {
                            // the leading one of several complementary arguments is not specified
                            return None;
                        }
                        complement(a, v)
                    }
                    _ => {
                        if spec::odd_scope(&pl.st) || tuple_field(pl) {
                            return None;
                        }
                        let mut poss = spec::args_by_kind(&pl.item, v).to_vec();
                        if let Some(sc) = spec::scope(&pl.st) {
                            let ok: Vec<&str> = sc.ink().flat_map(|a| spec::scope_args(&spec::kind(a), v).iter().copied()).collect();
                            if !ok.is_empty() {
                                poss.retain(|x| ok.contains(x));
                            }
                        }
                        if let Some(f) = focus {
                            poss.retain(|x| x.starts_with(f.name.as_str()));
                        }
                        poss.iter().flat_map(|a| if spec::entity(a) { vec![anchor(a, v)] } else { complement(a, v) }).collect()
                    }
                },
            }
        }
    })
}

pub fn e06(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("prog");
    let v = pick_ver(&mut r);
    let p = odd_prog(&mut r, v);
    let rd = lay(&p, &mut r);
    let toks = lex::lex(&rd.text);
    cx.count("programs");
    cx.seen(&rd.text);
    let pls = places(&p);
    let mut qs: Vec<(usize, Option<(&Place, (usize, usize), Option<&Arg>)>)> = vec![];
    let mut inks = vec![];
    for pl in &pls {
        let Some(w) = rd.span(pl.attr.id, Part::Whole) else { continue };
        if !is_ink(pl.attr) {
            continue;
        }
        if pl.attr.raw.is_some() {
            inks.push((w.0, w.1));
            continue;
        }
        // between the parentheses
        let i = toks.partition_point(|t| t.start < w.0);
        let j = toks.partition_point(|t| t.end <= w.1);
        let open = toks[i..j].iter().position(|t| t.text == "(");
        let (Some(o), true) = (open, j - i > 2 && toks[j - 2].text == ")") else {
            inks.push((w.0, w.1));
            continue;
        };
        let inside = (toks[i + o].end, toks[j - 2].start);
        inks.push((w.0, w.1));
        for t in &toks[i..j - 1] {
            for c in [t.start, (t.start + t.end) / 2, t.end] {
                if !rd.text.is_char_boundary(c) {
                    continue;
                }
                // blanks after malformed values are not specified
                if pl.attr.args.iter().flatten().any(|x| x.value.as_ref().map_or(false, |v| v.starts_with('-')) && rd.span(x.id, Part::Whole).map_or(false, |s| s.1 < c && !rd.text[s.1..c].contains(','))) {
                    continue;
                }
                if c >= inside.0 && c <= inside.1 {
                    let f = pl.attr.args.iter().flatten().find(|x| rd.span(x.id, Part::Whole).map_or(false, |s| s.0 <= c && c <= s.1));
                    qs.push((c, Some((pl, inside, f))));
                } else if c > w.0 {
                    // inside the attribute, not between its parentheses
                    qs.push((c, None));
                }
            }
        }
    }
    r.shuffle(&mut qs);
    qs.truncate(60);
    for _ in 0..20 {
        let o = floor(&rd.text, r.below(rd.text.len()));
        if inks.iter().all(|(s, e)| o < *s || o > *e) {
            qs.push((o, None));
        }
    }
    let res = guard(|| {
        let an = Analysis::new(&rd.text, v.lib());
        qs.iter().map(|(o, _)| an.signature_help(size(*o))).collect::<Vec<_>>()
    });
    let det = |o: usize| json!({"version": v.name(), "source": rd.text, "position": o});
    let got = match res {
        Err(e) => return cx.violate(&e.clone(), &format!("analyzer panicked: {e}"), det(0)),
        Ok(g) => g,
    };
    for ((o, e), sigs) in qs.iter().zip(got) {
        let around = || rd.text[floor(&rd.text, o.saturating_sub(40))..ceil(&rd.text, o + 40)].to_string();
        let Some((pl, inside, focus)) = e else {
            cx.count("outside_queries");
            if !sigs.is_empty() {
                cx.violate("outside", &format!("signature help {:?} outside of the parentheses of an ink! attribute ({}): {:?}", sigs[0].label, v.name(), around()), det(*o));
            }
            continue;
        };
        cx.count("inside_queries");
        let what = format!("{}:{}:{}", v.name(), pl.attr.path, match spec::kind(pl.attr) { Kind::Arg(a) => a, _ => String::new() });
        // form
        for s in &sigs {
            cx.count("signatures");
            let ps: Vec<&str> = s.parameters.iter().map(|q| us(q.range)).map(|q| s.label.get(q.0..q.1).unwrap_or("<outside>")).collect();
            if ps.join(", ") != s.label {
                cx.violate(&format!("form:{what}"), &format!("parameters {ps:?} do not make up the label {:?}", s.label), det(*o));
            }
            if us(s.range) != *inside {
                cx.violate(&format!("range:{what}"), &format!("signature range {:?} is not the inside of the parentheses {inside:?}: {:?}", us(s.range), around()), det(*o));
            }
            let names: Vec<&str> = ps.iter().map(|x| x.split(':').next().unwrap_or("")).collect();
            let act = s.active_parameter;
            let want = match focus {
                Some(f) => names.iter().position(|n| *n == f.name).or_else(|| names.iter().position(|n| !f.name.is_empty() && n.starts_with(f.name.as_str()))).unwrap_or(0),
                None => 0,
            };
            if act != Some(want) {
                cx.violate(&format!("active:{what}"), &format!("active parameter {act:?} of {:?} should be {want}: {:?}", s.label, around()), det(*o));
            }
        }
        let Some(mut want) = signatures(pl, v, *focus) else {
            cx.count("unspecified_lead");
            continue;
        };
        want.sort();
        want.dedup();
        let mut have: Vec<Vec<String>> = sigs
            .iter()
            .map(|s| {
                let mut g: Vec<String> = s.parameters.iter().map(|q| us(q.range)).map(|q| s.label.get(q.0..q.1).unwrap_or("").to_string()).collect();
                g.sort();
                g
            })
            .collect();
        have.sort();
        if have != want {
            cx.violate(&format!("set:{what}"), &format!("signatures at {:?} ({}) are {have:?}, expected {want:?}", around(), v.name()), det(*o));
        }
    }
    cx.sample(|| det(0));
}

//! E01, E02: which ink! macros and arguments are suggested, and what accepting a suggestion does.
use crate::api::{act, apply, edit, guard, range, size, Act, Edit};
use crate::ast::{Attr, Head, Item, Part, Rendered, Shape};
use crate::checks::attrs::{ceil, floor, is_ink, lay, odd_prog};
use crate::checks::diag::pick_ver;
use crate::gen::{Prog, Ver};
use crate::lex::{self, Tok};
use crate::rng::Rng;
use crate::run::Ctx;
use crate::spec::{self, Kind};
use ink_analyzer::Analysis;
use serde_json::json;

/// An attribute as it reads in the token stream.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct TA {
    /// Number of tokens, other than attributes and doc comments, before it.
    pub anchor: usize,
    pub path: String,
    pub args: Option<Vec<String>>,
    /// Tokens after the path that are no parenthesized list.
    pub rest: String,
}

pub struct Split {
    pub attrs: Vec<TA>,
    pub docs: Vec<(usize, String)>,
    pub rest: Vec<String>,
    /// Separators without an argument between them.
    pub gaps: usize,
}

pub fn joined(t: &[Tok]) -> String {
    t.iter().map(|x| x.text.as_str()).collect::<Vec<_>>().join(" ")
}

fn close(t: &[Tok], i: usize) -> Option<usize> {
    let mut d = 0;
    for (k, x) in t.iter().enumerate().skip(i) {
        match x.text.as_str() {
            "(" | "[" | "{" => d += 1,
            ")" | "]" | "}" => {
                d -= 1;
                if d == 0 {
                    return Some(k);
                }
            }
            _ => {}
        }
    }
    None
}

pub fn split(src: &str) -> Split {
    let t = lex::lex(src);
    let mut s = Split { attrs: vec![], docs: vec![], rest: vec![], gaps: 0 };
    let mut i = 0;
    while i < t.len() {
        let x = t[i].text.as_str();
        if x == "#" && t.get(i + 1).map_or(false, |y| y.text == "[") {
            if let Some(e) = close(&t, i + 1) {
                let inner = &t[i + 2..e];
                let p = inner.iter().position(|y| matches!(y.text.as_str(), "(" | "[" | "{" | "=")).unwrap_or(inner.len());
                let path = inner[..p].iter().map(|y| y.text.as_str()).collect::<String>();
                let mut args = None;
                let mut rest = String::new();
                if p < inner.len() && inner[p].text == "(" && close(inner, p) == Some(inner.len() - 1) {
                    let list = &inner[p + 1..inner.len() - 1];
                    let mut v = vec![];
                    let (mut d, mut from) = (0, 0);
                    for (k, y) in list.iter().enumerate() {
                        match y.text.as_str() {
                            "(" | "[" | "{" => d += 1,
                            ")" | "]" | "}" => d -= 1,
                            "," if d == 0 => {
                                if from == k && is_ink_path(&path) {
                                    s.gaps += 1;
                                }
                                v.push(joined(&list[from..k]));
                                from = k + 1;
                            }
                            _ => {}
                        }
                    }
                    v.push(joined(&list[from..]));
                    v.retain(|y| !y.is_empty());
                    args = Some(v);
                } else {
                    rest = joined(&inner[p..]);
                }
                s.attrs.push(TA { anchor: s.rest.len(), path, args, rest });
                i = e + 1;
                continue;
            }
        }
        if x.starts_with("///") || x.starts_with("//!") || x.starts_with("/**") || x.starts_with("/*!") {
            s.docs.push((s.rest.len(), x.to_string()));
        } else {
            s.rest.push(x.to_string());
        }
        i += 1;
    }
    s
}

fn is_ink_path(p: &str) -> bool {
    matches!(p.split("::").next(), Some("ink" | "ink_e2e"))
}

/// What was added to an attribute list.
#[derive(Clone, Debug, PartialEq)]
pub enum Added {
    Arg { index: usize, text: String },
    Attr(TA),
}

/// The one thing by which `new` differs from `old`.
pub fn added(old: &Split, new: &Split) -> Result<Added, String> {
    if old.rest != new.rest {
        return Err("code other than attributes changed".into());
    }
    if old.docs != new.docs {
        return Err("doc comments changed or moved".into());
    }
    if new.gaps > old.gaps {
        return Err("a separator without an argument was added".into());
    }
    if new.attrs.len() == old.attrs.len() {
        let d: Vec<usize> = (0..old.attrs.len()).filter(|i| old.attrs[*i] != new.attrs[*i]).collect();
        let [i] = d[..] else { return Err(format!("{} attributes changed", d.len())) };
        let (o, n) = (&old.attrs[i], &new.attrs[i]);
        if (o.anchor, &o.path, &o.rest) != (n.anchor, &n.path, &n.rest) {
            return Err("the attribute itself changed".into());
        }
        let oa = o.args.clone().unwrap_or_default();
        let na = n.args.clone().unwrap_or_default();
        if na.len() != oa.len() + 1 {
            return Err(format!("arguments {oa:?} became {na:?}"));
        }
        for k in 0..na.len() {
            let mut x = na.clone();
            let y = x.remove(k);
            if x == oa {
                return Ok(Added::Arg { index: i, text: y });
            }
        }
        Err(format!("arguments {oa:?} became {na:?}"))
    } else if new.attrs.len() == old.attrs.len() + 1 {
        for k in 0..new.attrs.len() {
            let mut x = new.attrs.clone();
            let y = x.remove(k);
            if x == old.attrs {
                return Ok(Added::Attr(y));
            }
        }
        Err("attributes changed".into())
    } else {
        Err(format!("{} attributes became {}", old.attrs.len(), new.attrs.len()))
    }
}

pub fn is_str(s: &str) -> bool {
    s.len() >= 2 && s.starts_with('"') && s.ends_with('"')
}
fn is_ident(s: &str) -> bool {
    let mut c = s.chars();
    c.next().map_or(false, |x| x == '_' || x.is_alphabetic()) && c.all(|x| x == '_' || x.is_alphanumeric())
}
pub fn is_path(s: &str) -> bool {
    let t = s.replace(' ', "");
    let t = t.strip_prefix("::").unwrap_or(&t);
    !t.is_empty() && t.split("::").all(is_ident)
}

/// The numeric value of an explicit argument in the source (`None`: not a number).
fn num(s: &str) -> Option<u64> {
    let t = s.replace('_', "");
    let u = t.trim_end_matches("u32").trim_end_matches("u16");
    match u.strip_prefix("0x").or_else(|| u.strip_prefix("0X")) {
        Some(h) => u64::from_str_radix(h, 16).ok(),
        None => u.parse().ok(),
    }
}

/// Is `text` argument `name` with a value of the required form?
pub fn well_formed(name: &str, text: &str, v: Ver) -> Result<Option<u64>, String> {
    let bad = |w: &str| Err(format!("`{text}` is not {w}"));
    let Some(rest) = text.strip_prefix(name) else { return bad(&format!("the argument `{name}`")) };
    let rest = rest.trim();
    let val = rest.strip_prefix('=').map(|x| x.trim());
    match name {
        "keep_attr" | "additional_contracts" | "signature_topic" | "url" => match val {
            Some(x) if is_str(x) => Ok(None),
            _ => bad("given a string"),
        },
        "namespace" => match val {
            Some(x) if is_str(x) && is_ident(&x[1..x.len() - 1]) => Ok(None),
            _ => bad("given an identifier string"),
        },
        "backend" => match rest {
            "( node )" | "( runtime_only )" => Ok(None),
            _ => bad("given a backend"),
        },
        "derive" | "handle_status" => match val {
            Some("true" | "false") => Ok(None),
            _ => bad("given a boolean"),
        },
        "env" | "environment" | "sandbox" => match val {
            Some(x) if is_path(x) => Ok(None),
            _ => bad("given a path"),
        },
        "extension" | "function" | "selector" => {
            let max = match (name, v) {
                ("function", _) | ("extension", Ver::V5) => u16::MAX as u64,
                _ => u32::MAX as u64,
            };
            match val.and_then(num) {
                Some(n) if n <= max => Ok(Some(n)),
                _ => bad("given a number in range"),
            }
        }
        _ if rest.is_empty() => Ok(None),
        _ => bad("without a value"),
    }
}

/// An item or field of the program.
pub struct Node<'a> {
    pub h: &'a Head,
    pub kind: String,
    pub st: Vec<&'a Item>,
    pub item: Option<&'a Item>,
    pub ty: Option<Shape>,
}

pub fn nodes<'a>(p: &'a Prog) -> Vec<Node<'a>> {
    let mut out = vec![];
    p.file.walk(&mut |it, st| {
        out.push(Node { h: it.h(), kind: it.kind().to_string(), st: st.to_vec(), item: Some(it), ty: None });
        if let Item::Adt(a) = it {
            let mut s = st.to_vec();
            s.push(it);
            for f in &a.fields {
                out.push(Node { h: &f.h, kind: "field".into(), st: s.clone(), item: None, ty: Some(a.shape.clone()) });
            }
        }
    });
    out
}

impl Node<'_> {
    fn trait_impl(&self) -> bool {
        matches!(self.item, Some(Item::Impl(i)) if i.trait_path.is_some())
    }
    fn in_trait_impl(&self) -> bool {
        matches!(self.st.last(), Some(Item::Impl(i)) if i.trait_path.is_some())
    }
    /// Arguments present somewhere, or nothing that the documentation decides.
    fn unspecified(&self, v: Ver) -> bool {
        if matches!(self.kind.as_str(), "raw" | "type") || self.ty == Some(Shape::Tuple) || spec::odd_scope(&self.st) {
            return true;
        }
        let mut best = vec![];
        for a in self.h.ink() {
            if a.raw.is_some() || (spec::kind(a) == Kind::Unknown && a.path != "ink") {
                return true;
            }
            let args: Vec<&str> = a.args.iter().flatten().map(|x| x.name.as_str()).collect();
            if v == Ver::V4 && (args.iter().any(|x| spec::v5_only(x)) || matches!(a.path.as_str(), "ink::event" | "ink::scale_derive")) {
                return true;
            }
            if v == Ver::V5 && args.contains(&"extension") && a.path == "ink" {
                return true;
            }
            if a.path == "ink" {
                let r = args.iter().map(|x| spec::rank(x)).min().unwrap_or(99);
                if r < 10 {
                    // several arguments of the same weight: which of them leads is not specified
                    if args.iter().filter(|x| spec::rank(x) == r).count() > 1 {
                        return true;
                    }
                    best.push(1 + r);
                }
            } else if spec::kind(a) != Kind::Unknown {
                best.push(0);
            }
        }
        let m = best.iter().min().copied();
        if best.iter().filter(|x| Some(**x) == m).count() > 1 {
            return true;
        }
        // the same for the scope
        spec::scope(&self.st).map_or(false, |h| h.ink().any(|a| a.raw.is_some() || spec::kind(a) == Kind::Unknown || (a.path == "ink" && a.args.iter().flatten().filter(|x| spec::rank(&x.name) < 10).count() > 3)))
            || spec::scope(&self.st).map_or(false, |h| {
                h.ink().any(|a| {
                    let args: Vec<&str> = a.args.iter().flatten().map(|x| x.name.as_str()).collect();
                    let r = args.iter().map(|x| spec::rank(x)).min().unwrap_or(99);
                    a.path == "ink" && args.iter().filter(|x| spec::rank(x) == r).count() > 1 || (v == Ver::V4 && (args.iter().any(|x| spec::v5_only(x)) || matches!(a.path.as_str(), "ink::event" | "ink::scale_derive"))) || (v == Ver::V5 && a.path == "ink" && args.contains(&"extension"))
                })
            })
    }
    fn cfg(&self, e2e: bool) -> bool {
        self.st.iter().any(|i| i.h().attrs.iter().any(|a| a.path == "cfg" && a.raw.as_ref().map_or(false, |r| {
            let t = lex::lex(r);
            t.windows(3).any(|w| matches!(w[0].text.as_str(), "(" | ",") && w[1].text == "test" && matches!(w[2].text.as_str(), ")" | ",")) && (!e2e || r.contains("\"e2e-tests\""))
        })))
    }
    /// Macros that fit here by item kind and scope.
    fn macros(&self, v: Ver) -> Vec<&'static str> {
        let mut m = spec::macros_by_kind(&self.kind, v).to_vec();
        if let Some(h) = spec::scope(&self.st) {
            let ok: Vec<&str> = h.ink().flat_map(|a| spec::scope_macros(&spec::kind(a), v).iter().copied()).collect();
            m.retain(|x| ok.contains(x));
        }
        m
    }
    /// Explicit ids that an argument of this name must differ from.
    fn taken(&self, name: &str) -> Vec<u64> {
        let mut out = vec![];
        let top: &Item = match name {
            "extension" | "function" => match self.st.last() {
                Some(t @ Item::Trait(x)) if x.h.mac("ink::chain_extension").is_some() => t,
                _ => return out,
            },
            "selector" => match self.st.iter().rev().find(|i| i.h().mac("ink::contract").is_some() || (i.h().mac("ink::trait_definition").is_some())) {
                Some(t) => t,
                None => return out,
            },
            _ => return out,
        };
        let me = if self.h.arg("constructor").is_some() { "constructor" } else { "message" };
        fn go(it: &Item, name: &str, me: &str, out: &mut Vec<u64>) {
            if let Item::Fn(f) = it {
                let plain = f.h.ink().all(|a| a.path == "ink" && a.args.iter().flatten().all(|x| [me, "selector", "payable", "default", "extension", "function", "handle_status"].contains(&x.name.as_str())));
                if plain && (name != "selector" || f.h.arg(me).is_some()) {
                    out.extend(f.h.arg(name).and_then(|a| a.value.as_deref()).and_then(num));
                }
            }
            if !matches!(it, Item::Trait(_)) && it.h().ink().all(|a| a.args.iter().flatten().all(|x| matches!(x.name.as_str(), "impl" | "namespace")) && a.path == "ink") {
                for c in it.children() {
                    go(c, name, me, out);
                }
            }
        }
        if self.kind != "fn" {
            return out;
        }
        for c in top.children() {
            go(c, name, me, &mut out);
        }
        out
    }
}

fn anchor_of(src: &str, at: usize) -> usize {
    let s = split(&src[..at]);
    s.rest.len()
}

/// Applies the edits and says what they added.
fn effect(old: &Split, src: &str, edits: &[Edit]) -> Result<Added, String> {
    let new = apply(src, edits).ok_or("edits overlap or lie outside the text")?;
    added(old, &split(&new))
}

struct Q<'a> {
    sel: (usize, usize),
    node: &'a Node<'a>,
    attr: Option<&'a Attr>,
}

pub fn e02(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("prog");
    let v = pick_ver(&mut r);
    let p = odd_prog(&mut r, v);
    let rd = lay(&p, &mut r);
    let toks = lex::lex(&rd.text);
    cx.count("programs");
    cx.seen(&rd.text);
    let ns = nodes(&p);
    let mut qs: Vec<Q> = vec![];
    let tok_sel = |r: &mut Rng, s: usize, e: usize| -> Option<(usize, usize)> {
        let i = toks.partition_point(|t| t.start < s);
        let j = toks.partition_point(|t| t.end <= e);
        if i >= j {
            return None;
        }
        let t = &toks[r.range(i, j - 1)];
        let mid = floor(&rd.text, (t.start + t.end) / 2);
        Some(if mid > t.start && r.pct(50) { (mid, mid) } else { (t.start, t.end) })
    };
    for n in &ns {
        if n.unspecified(v) {
            continue;
        }
        let (Some(c), Some(nm)) = (rd.span(n.h.id, Part::Core), rd.span(n.h.id, Part::Name)) else { continue };
        let e = if n.kind == "field" { c.1 } else { nm.1 };
        if let Some(sel) = tok_sel(&mut r, c.0, e) {
            qs.push(Q { sel, node: n, attr: None });
        }
        for a in n.h.attrs.iter().filter(|a| is_ink(a)) {
            if spec::kind(a) == Kind::Unknown {
                continue;
            }
            let Some(w) = rd.span(a.id, Part::Whole) else { continue };
            let sel = if r.pct(30) { Some(w) } else { tok_sel(&mut r, w.0, w.1) };
            if let Some(sel) = sel {
                qs.push(Q { sel, node: n, attr: Some(a) });
            }
        }
    }
    r.shuffle(&mut qs);
    qs.truncate(6);
    let det = |q: (usize, usize)| json!({"version": v.name(), "source": rd.text, "range": [q.0, q.1]});
    let res = guard(|| {
        let an = Analysis::new(&rd.text, v.lib());
        qs.iter().map(|q| an.actions(range(q.sel.0, q.sel.1)).iter().map(act).collect::<Vec<Act>>()).collect::<Vec<_>>()
    });
    let got = match res {
        Err(e) => return cx.violate(&e.clone(), &format!("analyzer panicked: {e}"), det((0, 0))),
        Ok(g) => g,
    };
    let old = split(&rd.text);
    for (q, acts) in qs.iter().zip(got) {
        let n = q.node;
        let around = rd.text[floor(&rd.text, q.sel.0.saturating_sub(40))..ceil(&rd.text, q.sel.1 + 40)].to_string();
        let prim = spec::primary(n.h);
        let k = match q.attr {
            Some(a) => Some(spec::kind(a)),
            None => prim.map(spec::kind),
        };
        let mut want: Vec<&str>;
        if n.in_trait_impl() && n.kind == "fn" {
            if n.h.ink().all(|a| !a.has("message")) {
                cx.count("unspecified");
                continue;
            }
            want = vec![];
        } else {
            want = spec::addable_args(n.h, &n.kind, &n.st, v, k.as_ref(), n.trait_impl());
        }
        let mut wantm: Vec<&str> = if q.attr.is_none() && n.h.attrs.iter().all(|a| !is_ink(a)) { n.macros(v) } else { vec![] };
        wantm.retain(|m| match *m {
            "ink::test" => n.cfg(false),
            "ink_e2e::test" => n.cfg(true),
            _ => true,
        });
        cx.count(if q.attr.is_some() { "attribute_queries" } else { "item_queries" });
        let what = |x: &str| format!("{}:{}:{}:{x}", v.name(), if q.attr.is_some() { "attr" } else { "item" }, n.kind);
        let anchor = anchor_of(&rd.text, rd.span(n.h.id, Part::Core).unwrap().0);
        let effects: Vec<Result<Added, String>> = acts.iter().map(|a| effect(&old, &rd.text, &a.edits)).collect();
        // the index of an attribute in the token stream
        let index = |a: &Attr| {
            let s = rd.span(a.id, Part::Whole).unwrap().0;
            split(&rd.text[..s]).attrs.len()
        };
        let arg_fits = |e: &Added, name: &str| -> Result<(), String> {
            let text = match e {
                Added::Arg { index: i, text } => {
                    let host = match (q.attr, prim) {
                        (Some(a), _) => vec![a],
                        (None, Some(a)) if matches!(spec::kind(a), Kind::Mac(_)) => vec![a],
                        _ => n.h.ink().filter(|a| a.path == "ink").collect(),
                    };
                    if !host.iter().any(|a| index(a) == *i) {
                        return Err("it is added to another attribute".into());
                    }
                    text.clone()
                }
                Added::Attr(a) => {
                    if q.attr.is_some() || matches!(prim.map(spec::kind), Some(Kind::Mac(_))) {
                        return Err("it is not added to the attribute".into());
                    }
                    if a.anchor != anchor || a.path != "ink" || !a.rest.is_empty() {
                        return Err(format!("attribute {a:?} is not added at the item"));
                    }
                    match a.args.as_deref() {
                        Some([x]) => x.clone(),
                        _ => return Err(format!("attribute {a:?} does not hold the argument")),
                    }
                }
            };
            if let Some(x) = well_formed(name, &text, v)? {
                if matches!(e, Added::Arg { .. }) && n.taken(name).contains(&x) {
                    return Err(format!("the suggested value {x} is already taken"));
                }
            }
            Ok(())
        };
        let mut seen = vec![];
        let mut seenm = vec![];
        for (a, e) in acts.iter().zip(&effects) {
            if a.kind != "Refactor" {
                continue;
            }
            if let Some(name) = a.label.strip_prefix("Add ink! ").and_then(|x| x.strip_suffix(" attribute argument.")) {
                cx.count("argument_actions");
                if !want.contains(&name) {
                    cx.violate(&what(&format!("surplus:{name}")), &format!("adding argument `{name}` is offered ({}) at {around:?}, but it does not fit there", v.name()), det(q.sel));
                    continue;
                }
                if seen.contains(&name.to_string()) {
                    cx.violate(&what(&format!("twice:{name}")), &format!("adding argument `{name}` is offered twice ({}) at {around:?}", v.name()), det(q.sel));
                }
                seen.push(name.to_string());
                if let Err(m) = e.as_ref().map_err(|m| m.clone()).and_then(|e| arg_fits(e, name)) {
                    cx.violate(&what(&format!("effect:{name}")), &format!("adding argument `{name}` ({}) at {around:?}: {m}; edits {:?}", v.name(), a.edits), det(q.sel));
                }
            } else if let Some(name) = a.label.strip_prefix("Add ink! ").and_then(|x| x.strip_suffix(" attribute macro.")) {
                cx.count("macro_actions");
                // the effect, not the label, tells which macro this is
                match e {
                    Ok(Added::Attr(t)) if t.anchor == anchor && t.args.is_none() && t.rest.is_empty() => {
                        if !wantm.contains(&t.path.as_str()) {
                            cx.violate(&what(&format!("surplus:{}", t.path)), &format!("adding macro `{}` is offered ({}) at {around:?}, but it does not fit there", t.path, v.name()), det(q.sel));
                        }
                        seenm.push(t.path.clone());
                    }
                    o => cx.violate(&what(&format!("effect:{name}")), &format!("adding macro `{name}` ({}) at {around:?}: {o:?}; edits {:?}", v.name(), a.edits), det(q.sel)),
                }
            } else if a.label.starts_with("Flatten") {
                cx.count("flatten_actions");
                if let Err(m) = flattened(&old, &rd.text, &a.edits, anchor) {
                    cx.violate(&what("flatten"), &format!("flattening ({}) at {around:?}: {m}; edits {:?}", v.name(), a.edits), det(q.sel));
                }
            }
        }
        want.retain(|w| !seen.contains(&w.to_string()));
        for w in want {
            // offered as a fix with the same effect?
            if acts.iter().zip(&effects).any(|(a, e)| a.kind == "QuickFix" && matches!(e, Ok(e) if arg_fits(e, w).is_ok())) {
                cx.count("offered_as_fix");
                continue;
            }
            cx.violate(&what(&format!("missing:{w}")), &format!("argument `{w}` fits ({}) at {around:?}, but is not offered; offered: {:?}", v.name(), acts.iter().map(|a| &a.label).collect::<Vec<_>>()), det(q.sel));
        }
        for w in wantm {
            if !seenm.contains(&w.to_string()) && !effects.iter().any(|e| matches!(e, Ok(Added::Attr(t)) if t.path == w)) {
                cx.violate(&what(&format!("missing:{w}")), &format!("macro `{w}` fits ({}) at {around:?}, but is not offered; offered: {:?}", v.name(), acts.iter().map(|a| &a.label).collect::<Vec<_>>()), det(q.sel));
            }
        }
    }
    cx.sample(|| det((0, 0)));
}

/// All `ink` attributes of the item are merged, nothing else changes.
fn flattened(old: &Split, src: &str, edits: &[Edit], anchor: usize) -> Result<(), String> {
    let new = split(&apply(src, edits).ok_or("edits overlap or lie outside the text")?);
    if old.rest != new.rest || old.docs != new.docs {
        return Err("code other than attributes changed".into());
    }
    if new.gaps > old.gaps {
        return Err("a separator without an argument was added".into());
    }
    let part = |s: &Split| {
        let mut other = vec![];
        let mut args = vec![];
        let mut n = 0;
        for a in &s.attrs {
            if a.anchor == anchor && is_ink_path(&a.path) {
                n += 1;
                if a.path != "ink" {
                    args.push(format!("#{}", a.path));
                }
                args.extend(a.args.iter().flatten().cloned());
            } else {
                other.push(a.clone());
            }
        }
        args.sort();
        (other, args, n)
    };
    let (o, n) = (part(old), part(&new));
    if o.0 != n.0 {
        return Err("other attributes changed".into());
    }
    if o.1 != n.1 {
        return Err(format!("arguments {:?} became {:?}", o.1, n.1));
    }
    if n.2 >= o.2 {
        return Err("nothing was merged".into());
    }
    Ok(())
}

/// A cursor position in a partially typed attribute.
struct Typed {
    text: String,
    cursor: usize,
    what: &'static str,
    /// Required and permitted arguments or macro paths.
    must: Vec<String>,
    may: Vec<String>,
    /// Index of the attribute that is extended; `None`: a new one at the anchor.
    host: Option<usize>,
    anchor: usize,
    mac: bool,
    nested: Option<&'static str>,
    taken: Vec<(String, Vec<u64>)>,
    label: String,
}

fn prefix_of(r: &mut Rng, full: &[&str]) -> String {
    let f = if full.is_empty() || r.pct(15) { spec::ARGS[r.below(spec::ARGS.len())] } else { full[r.below(full.len())] };
    let n = r.range(1, f.len().max(2) - 1);
    f[..n.min(f.len())].to_string()
}

fn typed(p: &Prog, rd: &Rendered, v: Ver, r: &mut Rng) -> Vec<Typed> {
    let mut out = vec![];
    let toks = lex::lex(&rd.text);
    let ns = nodes(p);
    let mut pick: Vec<&Node> = ns.iter().filter(|n| !n.unspecified(v)).collect();
    r.shuffle(&mut pick);
    for n in pick.into_iter().take(8) {
        let Some(c) = rd.span(n.h.id, Part::Core) else { continue };
        let anchor = anchor_of(&rd.text, c.0);
        let taken = |names: &[String]| names.iter().map(|x| (x.clone(), n.taken(x))).collect::<Vec<_>>();
        let put = |o: usize, ins: &str, cur: usize| (format!("{}{}{}", &rd.text[..o], ins, &rd.text[o..]), o + cur);
        let fn_ti = n.kind == "fn" && n.in_trait_impl();
        // a new attribute with arguments
        let starts: Vec<usize> = n.h.attrs.iter().filter_map(|a| rd.span(a.id, Part::Whole).map(|s| s.0)).chain([c.0]).collect();
        if !fn_ti {
            let all = spec::addable_args(n.h, &n.kind, &n.st, v, None, n.trait_impl());
            let o = *r.pick(&starts);
            let pre = if r.pct(40) { String::new() } else { prefix_of(r, &all) };
            if !spec::ARGS.contains(&pre.as_str()) && pre != "self" {
                let pad = if r.pct(30) { " " } else { "" };
                let ins = format!("#[ink({pad}{pre}{pad})]\n");
                let cur = 6 + if pre.is_empty() { 0 } else { pad.len() + pre.len() };
                let (text, cursor) = put(o, &ins, cur);
                let m: Vec<String> = all.iter().filter(|x| x.starts_with(&pre)).map(|x| x.to_string()).collect();
                out.push(Typed { text, cursor, what: "new_attribute", taken: vec![], must: m.clone(), may: m, host: None, anchor, mac: false, nested: None, label: format!("{}:{}", n.kind, "new") });
            }
        }
        // a new macro attribute
        {
            let mut o = *r.pick(&starts);
            let forms = ["", "i", "in", "ink", "ink_", "ink_e2e", "ink::", "ink_e2e::", "ink::#", "ink_e2e::#"];
            let form = *r.pick(&forms);
            if form.is_empty() || form.ends_with("::") {
                // no valid path yet: what the attribute belongs to is only known right before a plain item
                let plain = match n.item {
                    Some(Item::Fn(f)) => f.quals.is_empty(),
                    Some(Item::Trait(t)) => t.quals.is_empty(),
                    Some(Item::Impl(t)) => t.quals.is_empty(),
                    Some(_) => true,
                    None => false,
                };
                if !plain || n.h.vis.contains('(') || n.h.docs.iter().any(|_| true) && n.h.attrs.is_empty() && o != c.0 {
                    continue;
                }
                o = c.0;
            }
            let mut all = if n.h.attrs.iter().any(is_ink) { vec![] } else { n.macros(v) };
            let mut pre = form.to_string();
            if form.ends_with('#') {
                pre.pop();
                let full = spec::MACROS[r.below(spec::MACROS.len())].rsplit("::").next().unwrap();
                pre.push_str(&full[..r.range(1, full.len() - 1)]);
            }
            if pre.ends_with("::trait") {
                // a keyword
                continue;
            }
            if pre.contains("::") {
                all.retain(|m| m.starts_with(&pre));
            }
            let (text, cursor) = put(o, &format!("#[{pre}]\n"), 2 + pre.len());
            let may: Vec<String> = all.iter().map(|x| x.to_string()).collect();
            let must = may.iter().filter(|x| x.starts_with(&pre)).cloned().collect();
            out.push(Typed { text, cursor, what: "macro", must, may, host: None, anchor, mac: true, nested: None, taken: vec![], label: format!("{}:{form}", n.kind) });
        }
        // an existing attribute
        for a in n.h.attrs.iter().filter(|a| is_ink(a) && spec::kind(a) != Kind::Unknown) {
            let Some(w) = rd.span(a.id, Part::Whole) else { continue };
            let i = toks.partition_point(|t| t.start < w.0);
            let j = toks.partition_point(|t| t.end <= w.1);
            let ts = &toks[i..j];
            let k = spec::kind(a);
            let host = split(&rd.text[..w.0]).attrs.len();
            if !fn_ti {
                let all = spec::addable_args(n.h, &n.kind, &n.st, v, Some(&k), n.trait_impl());
                let pre = if r.pct(40) { String::new() } else { prefix_of(r, &all) };
                if !spec::ARGS.contains(&pre.as_str()) && pre != "self" {
                    let many = a.args.as_ref().map_or(false, |x| !x.is_empty());
                    let pad = if r.pct(50) { " " } else { "" };
                    // (offset, inserted text, cursor in it)
                    let spot = match a.args {
                        None => Some((ts[ts.len() - 1].start, format!("({pre})"), 1 + pre.len())),
                        Some(_) if !many => ts.iter().find(|t| t.text == "(").map(|t| (t.end, pre.clone(), pre.len())),
                        Some(_) if !pre.is_empty() && r.pct(30) => ts.iter().find(|t| t.text == "(").map(|t| (t.end, format!("{pre}, "), pre.len())),
                        Some(_) => {
                            let last = &ts[ts.len() - 2];
                            // after the last argument or its trailing comma
                            let before = &ts[ts.len() - 3];
                            if before.text == "," {
                                Some((before.end, format!("{pad}{pre}"), if pre.is_empty() { 0 } else { pad.len() + pre.len() }))
                            } else {
                                let _ = last;
                                Some((before.end, format!(",{pad}{pre}"), 1 + if pre.is_empty() { 0 } else { pad.len() + pre.len() }))
                            }
                        }
                    };
                    if let Some((o, ins, cur)) = spot {
                        let (text, cursor) = put(o, &ins, cur);
                        let m: Vec<String> = all.iter().filter(|x| x.starts_with(&pre)).map(|x| x.to_string()).collect();
                        out.push(Typed { text, cursor, what: "existing_attribute", taken: taken(&m), must: m.clone(), may: m, host: Some(host), anchor, mac: false, nested: None, label: format!("{}:{k:?}", n.kind) });
                    }
                }
            }
            if v == Ver::V5 && k == Kind::Mac("ink_e2e::test".into()) && a.args.as_ref().map_or(true, |x| x.is_empty()) {
                let (outer, names): (&'static str, &[&str]) = *r.pick(&[("backend", &["node", "runtime_only"][..])]);
                let pre = if r.pct(50) { String::new() } else { let f = names[r.below(names.len())]; f[..r.range(1, f.len() - 1)].to_string() };
                let ins = format!("{outer}({pre})");
                let (o, ins, cur) = match a.args {
                    None => (ts[ts.len() - 1].start, format!("({ins})"), 2 + outer.len() + pre.len()),
                    _ => (ts.iter().find(|t| t.text == "(").unwrap().end, ins, 1 + outer.len() + pre.len()),
                };
                let (text, cursor) = put(o, &ins, cur);
                let m: Vec<String> = names.iter().filter(|x| x.starts_with(&pre)).map(|x| x.to_string()).collect();
                out.push(Typed { text, cursor, what: "nested", must: m.clone(), may: m, host: Some(host), anchor, mac: false, nested: Some(outer), taken: vec![], label: outer.into() });
            }
        }
    }
    out
}

pub fn e01(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("prog");
    let v = pick_ver(&mut r);
    let p = odd_prog(&mut r, v);
    let rd = lay(&p, &mut r);
    cx.count("programs");
    cx.seen(&rd.text);
    let old = split(&rd.text);
    let mut ts = typed(&p, &rd, v, &mut r);
    r.shuffle(&mut ts);
    ts.truncate(8);
    for t in &ts {
        let det = json!({"version": v.name(), "source": t.text, "position": t.cursor});
        cx.count(&format!("cursor_in_{}", t.what));
        let res = guard(|| Analysis::new(&t.text, v.lib()).completions(size(t.cursor)).into_iter().map(|c| (c.label.clone(), edit(&c.edit), format!("{:?}", c.kind))).collect::<Vec<_>>());
        let got = match res {
            Err(e) => return cx.violate(&e.clone(), &format!("analyzer panicked: {e}"), det),
            Ok(g) => g,
        };
        let around = format!("{}|{}", &t.text[floor(&t.text, t.cursor.saturating_sub(40))..t.cursor], &t.text[t.cursor..ceil(&t.text, t.cursor + 40)]);
        let sig = |x: &str| format!("{}:{}:{}:{x}", v.name(), t.what, t.label);
        let mut seen: Vec<String> = vec![];
        for (label, e, _) in &got {
            cx.count("suggestions");
            if e.s > t.cursor || e.e < t.cursor {
                cx.violate(&sig(&format!("place:{label}")), &format!("suggestion {label:?} is not applied at the cursor: {around:?}"), det.clone());
                continue;
            }
            let name = label.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == ':')).next().unwrap_or("").to_string();
            if t.mac && matches!(label.as_str(), "ink" | "ink_e2e" | "ink()") {
                cx.count("path_suggestions");
                continue;
            }
            let eff = effect(&old, &t.text, std::slice::from_ref(e));
            let fits: Result<String, String> = match &eff {
                Err(m) => Err(m.clone()),
                Ok(Added::Attr(a)) if t.host.is_none() && a.anchor == t.anchor => {
                    if t.mac {
                        if a.args.is_none() && a.rest.is_empty() { Ok(a.path.clone()) } else { Err(format!("attribute {a:?}")) }
                    } else {
                        match a.args.as_deref() {
                            Some([x]) if a.path == "ink" => well_formed(&name, x, v).map(|_| name.clone()),
                            _ => Err(format!("attribute {a:?}")),
                        }
                    }
                }
                Ok(Added::Arg { index, text }) if t.host == Some(*index) => match t.nested {
                    Some(o) => {
                        if text.replace(' ', "") == format!("{o}({name})") { Ok(name.clone()) } else { Err(format!("argument {text:?}")) }
                    }
                    None => well_formed(&name, text, v).and_then(|x| match x {
                        Some(x) if t.taken.iter().any(|(n, ids)| *n == name && ids.contains(&x)) => Err(format!("the suggested value {x} is already taken")),
                        _ => Ok(name.clone()),
                    }),
                },
                Ok(x) => Err(format!("{x:?} at another place")),
            };
            match fits {
                Err(m) => cx.violate(&sig(&format!("effect:{name}")), &format!("accepting {label:?} ({}) at {around:?}: {m}; edit {e:?}", v.name()), det.clone()),
                Ok(n) => {
                    if !t.may.contains(&n) {
                        cx.violate(&sig(&format!("surplus:{n}")), &format!("`{n}` is suggested ({}) at {around:?}, but it does not fit there", v.name()), det.clone());
                    }
                    if seen.contains(&n) {
                        cx.violate(&sig(&format!("twice:{n}")), &format!("`{n}` is suggested twice ({}) at {around:?}", v.name()), det.clone());
                    }
                    seen.push(n);
                }
            }
        }
        for m in &t.must {
            cx.count("expected_suggestions");
            if !seen.contains(m) {
                cx.violate(&sig(&format!("missing:{m}")), &format!("`{m}` fits ({}) at {around:?}, but is not suggested; suggested: {:?}", v.name(), got.iter().map(|g| &g.0).collect::<Vec<_>>()), det.clone());
            }
        }
    }
    cx.sample(|| json!({"version": v.name(), "source": rd.text, "cursors": ts.len()}));
}

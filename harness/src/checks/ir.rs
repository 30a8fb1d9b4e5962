//! D08 (selectors) and I01 (entity model).
use crate::api;
use crate::ast::*;
use crate::gen::{self, Opts, Ver};
use crate::lex::Style;
use crate::mutate::{has_arg, parse_int, M};
use crate::run::Ctx;
use ink_analyzer_ir as ir;
use ir::{HasInkEnvironment, InkEntity, IsInkCallable};
use serde_json::json;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ BLAKE2b-256 (RFC 7693)

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b,
    0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

pub fn blake2b_256(data: &[u8]) -> [u8; 32] {
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ 32;
    let blocks = if data.is_empty() { 1 } else { (data.len() + 127) / 128 };
    let mut t: u128 = 0;
    for b in 0..blocks {
        let chunk = &data[b * 128..data.len().min((b + 1) * 128)];
        let last = b + 1 == blocks;
        t += chunk.len() as u128;
        let mut m = [0u64; 16];
        for (i, w) in m.iter_mut().enumerate() {
            let mut x = [0u8; 8];
            for k in 0..8 {
                x[k] = *chunk.get(i * 8 + k).unwrap_or(&0);
            }
            *w = u64::from_le_bytes(x);
        }
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u64;
        v[13] ^= (t >> 64) as u64;
        if last {
            v[14] = !v[14];
        }
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        };
        for r in 0..12 {
            let s = &SIGMA[r % 10];
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[i * 8..i * 8 + 8].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}

pub fn unquote(s: &str) -> String {
    let t = s.trim_start_matches('r').trim_matches('#');
    t.trim_matches('"').to_string()
}

pub fn hash_name(parts: &[String]) -> u32 {
    let h = blake2b_256(parts.join("::").as_bytes());
    u32::from_be_bytes([h[0], h[1], h[2], h[3]])
}

#[derive(Clone, Debug)]
pub struct Callable {
    pub id: Id,
    pub kind: &'static str,
    pub impl_id: Id,
    pub trait_path: Option<String>,
    pub selector: Option<String>,
    pub value: u32,
    pub name: String,
}

/// The callables of the contract with the selectors they have by definition.
pub fn callables(f: &File) -> Vec<Callable> {
    let mut out = vec![];
    f.walk(&mut |it, st| {
        let Item::Fn(x) = it else { return };
        let Some(Item::Impl(im)) = st.last() else { return };
        let kind = if has_arg(it, "constructor") {
            "constructor"
        } else if has_arg(it, "message") {
            "message"
        } else {
            return;
        };
        let selector = x.h.arg("selector").and_then(|a| a.value.clone());
        let mut parts = vec![];
        if let Some(n) = im.h.arg("namespace").and_then(|a| a.value.clone()) {
            parts.push(unquote(&n));
        }
        if let Some(t) = &im.trait_path {
            parts.push(if t.starts_with("::") { t.clone() } else { t.rsplit("::").next().unwrap().to_string() });
        }
        parts.push(x.name.clone());
        let value = match selector.as_deref() {
            Some("@") => 0x9BAE9D5E,
            Some(s) if s != "_" => parse_int(s).expect("int"),
            _ => hash_name(&parts),
        };
        out.push(Callable { id: x.h.id, kind, impl_id: im.h.id, trait_path: im.trait_path.clone(), selector, value, name: x.name.clone() });
    });
    out
}

fn set_namespace(m: &mut M, impl_id: Id, ns: &str) {
    let mut ns = ns.to_string();
    m.make(|g| ns = g.string(&ns));
    let at = m.make(|g| {
        let a = g.arg("namespace", Some(ns.clone()));
        (a.clone(), g.attr("ink", Some(vec![a])))
    });
    let im = m.imp(impl_id);
    if let Some(a) = im.h.arg_mut("namespace") {
        a.value = Some(ns);
    } else if let Some(x) = im.h.attrs.iter_mut().find(|a| a.path == "ink") {
        x.args.get_or_insert(vec![]).push(at.0);
    } else {
        im.h.attrs.push(at.1);
    }
}

pub fn d08(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("prog");
    let v = super::diag::pick_ver(&mut r);
    let wildcards = r.pct(25);
    let mut p = gen::program(&mut r, v, Opts { wildcards, chain_ext: false, ..Opts::default() });
    let has_wild = p.features.iter().any(|f| f.starts_with("wildcard"));
    let v5wild = v == Ver::V5 && p.features.contains(&"wildcard-complement");
    let contract = p.contract.unwrap();
    {
        let mut m = M { p: &mut p, r: &mut r };
        // implementations of traits that are defined elsewhere, named by all kinds of paths
        if !v5wild {
            for _ in 0..m.r.below(3) {
                let storage = m.p.storage.clone();
                let im = m.make(|g| {
                    let path = g.r.picks(&["Erc20", "traits::Erc20", "ext::traits::Erc20", "::ext::Erc20", "::ext::traits::Erc20", "self::x::y::Erc20", "::Erc20"]);
                    let msgs = (0..g.r.range(1, 2)).map(|_| Item::Fn({ let mut f = g.message("", true); f.body = Some("todo!()".into()); f })).collect();
                    let h = g.head(vec![], "");
                    Item::Impl(Impl { h, quals: "".into(), generics: "".into(), trait_path: Some(path), self_ty: storage, items: msgs })
                });
                m.insert_in(contract, im);
            }
        }
        // operations that create clashes or near misses
        for _ in 0..m.r.below(4) {
            let cs = callables(&m.p.file);
            let free: Vec<&Callable> = cs.iter().filter(|c| !matches!(c.selector.as_deref(), Some("_") | Some("@")) && c.trait_path.as_deref().map_or(true, |t| t.ends_with("Erc20"))).collect();
            if free.is_empty() {
                break;
            }
            let a = free[m.r.below(free.len())].clone();
            let others: Vec<Callable> = cs.iter().filter(|c| c.id != a.id && c.selector.as_deref() != Some("_")).cloned().collect();
            if others.is_empty() {
                break;
            }
            let same: Vec<Callable> = others.iter().filter(|c| c.kind == a.kind).cloned().collect();
            match m.r.below(7) {
                // the same selector, spelled explicitly (same kind: clash; other kind: fine)
                0 | 1 => {
                    let pool = if m.r.pct(75) && !same.is_empty() { &same } else { &others };
                    let b = pool[m.r.below(pool.len())].clone();
                    if b.selector.as_deref() == Some("@") {
                        continue;
                    }
                    let s = m.make(|g| g.int(b.value));
                    let s2 = s.clone();
                    let mut f = m.fun(a.id).clone();
                    m.make(|g| g.set_selector(&mut f, &s2));
                    *m.fun(a.id) = f;
                    cx.count(if b.kind == a.kind { "op:explicit-clash" } else { "op:explicit-other-kind" });
                    if b.kind == a.kind && b.selector.is_none() {
                        cx.count("op:explicit-vs-hash");
                    }
                }
                // off by one
                2 => {
                    let b = others[m.r.below(others.len())].clone();
                    let x = b.value ^ (1 << m.r.below(32));
                    if b.selector.as_deref() == Some("@") || cs.iter().any(|c| c.value == x) {
                        continue;
                    }
                    let s = m.make(|g| g.int(x));
                    let mut f = m.fun(a.id).clone();
                    m.make(|g| g.set_selector(&mut f, &s));
                    *m.fun(a.id) = f;
                    cx.count("op:near-miss");
                }
                // the same function name
                3 | 4 => {
                    let b = others[m.r.below(others.len())].clone();
                    m.fun(a.id).name = b.name.clone();
                    cx.count("op:same-name");
                }
                // the same namespace
                5 => {
                    let (x, y) = (a.impl_id, others[m.r.below(others.len())].clone());
                    if a.trait_path.is_some() || y.trait_path.is_some() {
                        continue;
                    }
                    let ns = m.r.picks(&["ns", "Erc20", "my_namespace"]);
                    set_namespace(&mut m, x, &ns);
                    if m.r.pct(60) {
                        set_namespace(&mut m, y.impl_id, &ns);
                    }
                    m.fun(a.id).name = y.name.clone();
                    cx.count("op:namespace");
                }
                // a namespace that reads like the trait of another implementation
                _ => {
                    let Some(t) = others.iter().find(|c| c.trait_path.is_some()).cloned() else { continue };
                    if a.trait_path.is_some() {
                        continue;
                    }
                    let last = t.trait_path.unwrap().rsplit("::").next().unwrap().to_string();
                    set_namespace(&mut m, a.impl_id, &last);
                    m.fun(a.id).name = t.name.clone();
                    cx.count("op:namespace-as-trait");
                }
            }
        }
        // a second wildcard
        if m.r.pct(12) {
            let kind = if v == Ver::V4 && m.r.pct(50) { "message" } else { "constructor" };
            let cs = callables(&m.p.file);
            for c in cs.iter().filter(|c| c.kind == kind && c.trait_path.as_deref().map_or(true, |t| t.ends_with("Erc20"))) {
                if m.r.pct(70) {
                    let mut f = m.fun(c.id).clone();
                    m.make(|g| g.set_selector(&mut f, "_"));
                    *m.fun(c.id) = f;
                    cx.count("op:wildcards");
                }
            }
        }
    }
    let _ = has_wild;
    let rend = p.file.render();
    let rend = if r.pct(60) { rend } else { rend.relayout(&Style::random(&mut r), &mut r) };
    cx.seen(&rend.text);
    cx.count("programs");
    let cs = callables(&p.file);
    let det = |x: serde_json::Value| json!({"version": v.name(), "source": rend.text, "observed": x});

    // selector values
    let toks = crate::lex::lex(&rend.text);
    let by_end: BTreeMap<usize, &Callable> = cs.iter().map(|c| (rend.whole(c.id).1, c)).collect();
    let got = api::guard(|| {
        let f = ir::InkFile::parse(&rend.text);
        let mut o = vec![];
        for c in f.contracts() {
            for x in c.constructors() {
                o.push(("constructor", api::us(x.syntax().text_range()), x.composed_selector().map(|s| (s.into_be_u32(), s.to_bytes()))));
            }
            for x in c.messages() {
                o.push(("message", api::us(x.syntax().text_range()), x.composed_selector().map(|s| (s.into_be_u32(), s.to_bytes()))));
            }
        }
        o
    });
    match got {
        Err(e) => return cx.violate(&e.clone(), &format!("panic while composing selectors: {e}"), det(json!(null))),
        Ok(o) => {
            let mut n = 0;
            for (k, (s, e), sel) in o {
                let (_, s) = crate::lex::trim(&toks, s, e);
                let Some(c) = by_end.get(&s) else {
                    cx.violate("extra-callable", &format!("a {k} is listed at {s} where there is none"), det(json!(null)));
                    continue;
                };
                n += 1;
                cx.count("selectors_compared");
                match sel {
                    Some((x, b)) if x == c.value && b == c.value.to_be_bytes() && k == c.kind => (),
                    o => cx.violate(
                        &format!("selector:{}:{}", c.selector.is_some(), c.trait_path.is_some()),
                        &format!("selector of {} `{}` (trait {:?}, selector {:?}) is {o:08x?} ({k}), expected {:#010x}", c.kind, c.name, c.trait_path, c.selector, c.value),
                        det(json!(null)),
                    ),
                }
            }
            if n != cs.len() {
                cx.violate("missing-callable", &format!("{n} callables listed, {} present", cs.len()), det(json!(null)));
            }
        }
    }
    // clashes
    let mut groups: BTreeMap<(&str, Result<u32, ()>), Vec<&Callable>> = BTreeMap::new();
    for c in &cs {
        groups.entry((c.kind, Ok(c.value))).or_default().push(c);
        if c.selector.as_deref() == Some("_") {
            groups.entry((c.kind, Err(()))).or_default().push(c);
        }
    }
    match api::diagnostics(&rend.text, v) {
        Err(e) => cx.violate(&e.clone(), &format!("analyzer panicked: {e}"), det(json!(null))),
        Ok(ds) => {
            let list = || json!(ds.iter().map(|d| format!("{}..{} {} [{}]", d.s, d.e, d.msg, &rend.text[d.s..d.e])).collect::<Vec<_>>().join("\n"));
            let inside = |d: &api::Diag, id: Id| { let w = rend.whole(id); let (s, e) = crate::lex::trim(&toks, d.s, d.e); w.0 <= s && e <= w.1 };
            let mut members = std::collections::HashSet::new();
            let mut clash = false;
            for ((kind, val), g) in groups.iter().filter(|(_, g)| g.len() > 1) {
                clash = true;
                members.extend(g.iter().map(|c| c.id));
                let flagged = g.iter().filter(|c| ds.iter().any(|d| d.error && inside(d, c.id))).count();
                cx.count(if val.is_ok() { "clashes" } else { "wildcard_clashes" });
                if flagged + 1 < g.len() {
                    cx.violate(
                        &format!("unreported:{kind}:{}", val.is_ok()),
                        &format!("{} {kind}s share selector {val:x?} ({:?}), only {flagged} reported ({})", g.len(), g.iter().map(|c| &c.name).collect::<Vec<_>>(), v.name()),
                        det(list()),
                    );
                }
            }
            if !clash {
                cx.count("programs_without_clash");
            }
            for d in &ds {
                if !members.iter().any(|i| inside(d, *i)) {
                    cx.violate(
                        &format!("false:{}", super::diag::norm_msg(&d.msg)),
                        &format!("diagnostic on code without a selector clash ({}): {:?} on {:?}", v.name(), d.msg, &rend.text[d.s..d.e]),
                        det(list()),
                    );
                }
            }
        }
    }
    cx.sample(|| det(json!(cs.iter().map(|c| format!("{} {} {:#010x}", c.kind, c.name, c.value)).collect::<Vec<_>>())));
}

// ------------------------------------------------------------------ I01

fn canon(v: &str) -> String {
    if let Some(n) = parse_int(v) {
        return n.to_string();
    }
    if v.starts_with('"') || v.starts_with("r\"") || v.starts_with("r#\"") {
        return format!("str:{}", unquote(v));
    }
    v.to_string()
}
fn canon_ir(v: &ir::meta::MetaValue) -> String {
    if let Some(n) = v.as_u32() {
        return n.to_string();
    }
    if let Some(s) = v.as_string() {
        return format!("str:{s}");
    }
    if let Some(b) = v.as_bool() {
        return b.to_string();
    }
    if v.is_wildcard() {
        return "_".into();
    }
    if v.is_at_symbol() {
        return "@".into();
    }
    if v.as_path_with_inaccurate_text_range().is_some() {
        return crate::lex::toks(&v.to_string()).join("");
    }
    format!("?{v}")
}
fn want_arg(a: &Arg) -> String {
    let mut s = a.name.clone();
    if let Some(n) = &a.nested {
        s += &format!("({})", want_arg(n));
    }
    if let Some(v) = &a.value {
        s += &format!("={}", canon(v));
    }
    s
}
fn got_arg(a: &ir::InkArg) -> String {
    let mut s = a.kind().to_string();
    if let Some(n) = a.nested() {
        s += &format!("({})", got_arg(&n));
    }
    if let Some(v) = a.value() {
        s += &format!("={}", canon_ir(v));
    }
    s
}
fn want_args(h: &Head) -> String {
    h.ink().map(|a| format!("{}[{}]", if a.path == "ink" { "" } else { &a.path }, a.args.iter().flatten().map(want_arg).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join("")
}
fn got_args(n: &ir::syntax::SyntaxNode) -> String {
    ir::ink_attrs(n)
        .map(|a| {
            let p = match a.kind() {
                ir::InkAttributeKind::Macro(m) => m.path_as_str().to_string(),
                ir::InkAttributeKind::Arg(_) => String::new(),
            };
            format!("{p}[{}]", a.args().iter().map(got_arg).collect::<Vec<_>>().join(","))
        })
        .collect::<Vec<_>>()
        .join("")
}

/// Independent expectation: one line per entity, in source order per list.
fn expected_model(f: &File, rend: &Rendered) -> Vec<String> {
    let end = |id: Id| rend.whole(id).1;
    let mut out: BTreeMap<String, Vec<(usize, String)>> = BTreeMap::new();
    let mut put = |list: String, id: Id, rest: String| out.entry(list).or_default().push((end(id), rest));
    let g = |h: &Head, n: &str| h.arg(n).map(|a| a.value.as_deref().map(canon).unwrap_or_else(|| "flag".into())).unwrap_or_else(|| "-".into());
    f.walk(&mut |it, st| {
        let h = it.h();
        let contract = st.iter().find(|x| x.h().mac("ink::contract").is_some());
        let scope = contract.map(|c| format!("contract@{}", end(c.h().id))).unwrap_or_else(|| "file".into());
        let a = want_args(h);
        match it {
            Item::Mod(_) if h.mac("ink::contract").is_some() => put("file/contracts".into(), h.id, format!("{a} env={} keep_attr={}", g(h, "env"), g(h, "keep_attr"))),
            Item::Adt(x) => {
                let topics = x.fields.iter().filter(|f| f.h.arg("topic").is_some()).map(|f| format!("{}", end(f.h.id))).collect::<Vec<_>>().join(",");
                if h.mac("ink::storage_item").is_some() {
                    put("file/storage_items".into(), h.id, format!("{a} derive={}", g(h, "derive")));
                }
                if h.mac("ink::event").is_some() {
                    put("file/events_v2".into(), h.id, format!("{a} anonymous={} signature_topic={} topics={topics}", g(h, "anonymous"), g(h, "signature_topic")));
                }
                if has_arg(it, "event") {
                    put(format!("{scope}/events"), h.id, format!("{a} anonymous={} signature_topic={} topics={topics}", g(h, "anonymous"), g(h, "signature_topic")));
                }
                if has_arg(it, "storage") {
                    put(format!("{scope}/storage"), h.id, a);
                }
            }
            Item::Trait(_) => {
                let kids = |n: &str| it.children().iter().filter(|c| has_arg(c, n)).map(|c| format!("{}:{}", end(c.h().id), want_args(c.h()))).collect::<Vec<_>>().join(";");
                if h.mac("ink::trait_definition").is_some() {
                    put("file/trait_definitions".into(), h.id, format!("{a} namespace={} keep_attr={} messages={}", g(h, "namespace"), g(h, "keep_attr"), kids("message")));
                }
                if h.mac("ink::chain_extension").is_some() {
                    let ec = it.children().iter().find(|c| c.name() == "ErrorCode").map(|c| end(c.h().id).to_string()).unwrap_or("-".into());
                    let id = |n: &str| it.children().iter().filter(|c| has_arg(c, n)).map(|c| g(c.h(), n)).collect::<Vec<_>>().join(",");
                    put("file/chain_extensions".into(), h.id, format!("{a} id={} error={ec} extensions={} ({}) functions={} ({})", g(h, "extension"), kids("extension"), id("extension"), kids("function"), id("function")));
                }
            }
            Item::Impl(x) => {
                let kids = |n: &str| it.children().iter().filter(|c| has_arg(c, n)).map(|c| end(c.h().id).to_string()).collect::<Vec<_>>().join(",");
                let (c, m) = (kids("constructor"), kids("message"));
                // all traits with a path in the generated programs are trait definitions
                if !c.is_empty() || !m.is_empty() || h.arg("impl").is_some() || x.trait_path.is_some() {
                    let td = x.trait_path.as_ref().map(|t| t.rsplit("::").next().unwrap().to_string()).unwrap_or("-".into());
                    put(format!("{scope}/impls"), h.id, format!("{a} namespace={} trait={td} constructors={c} messages={m}", g(h, "namespace")));
                }
            }
            Item::Fn(_) => {
                if matches!(st.last(), Some(Item::Impl(_))) {
                    for k in ["constructor", "message"] {
                        if has_arg(it, k) {
                            put(format!("{scope}/{k}s"), h.id, format!("{a} payable={} default={} selector={}", g(h, "payable"), g(h, "default"), g(h, "selector")));
                        }
                    }
                }
                if h.mac("ink::test").is_some() {
                    put(format!("{scope}/tests"), h.id, a.clone());
                }
                if h.mac("ink_e2e::test").is_some() {
                    put(format!("{scope}/e2e_tests"), h.id, format!("{a} environment={} additional_contracts={} keep_attr={}", g(h, "environment"), g(h, "additional_contracts"), g(h, "keep_attr")));
                }
            }
            _ => (),
        }
    });
    let mut v = vec![];
    for (k, mut l) in out {
        l.sort();
        v.extend(l.into_iter().map(|(e, r)| format!("{k} @{e} {r}")));
    }
    v
}

fn actual_model(text: &str) -> Vec<String> {
    let toks = crate::lex::lex(text);
    let end = |n: &ir::syntax::SyntaxNode| { let (s, e) = api::us(n.text_range()); crate::lex::trim(&toks, s, e).1 };
    let val = |a: Option<ir::InkArg>| a.map(|a| a.value().map(canon_ir).unwrap_or_else(|| "flag".into())).unwrap_or_else(|| "-".into());
    let file = ir::InkFile::parse(text);
    let mut out: Vec<(String, Vec<String>)> = vec![];
    let mut put = |k: &str, l: Vec<String>| if !l.is_empty() { out.push((k.to_string(), l)) };
    let ev = |n: &ir::syntax::SyntaxNode, an: Option<ir::InkArg>, sg: Option<ir::InkArg>, t: &[ir::Topic]| {
        format!("@{} {} anonymous={} signature_topic={} topics={}", end(n), got_args(n), val(an), val(sg), t.iter().map(|t| end(t.syntax()).to_string()).collect::<Vec<_>>().join(","))
    };
    let e2e = |l: &[ir::InkE2ETest]| {
        l.iter()
            .map(|x| format!("@{} {} environment={} additional_contracts={} keep_attr={}", end(x.syntax()), got_args(x.syntax()), val(x.environment_arg()), val(x.additional_contracts_arg()), val(x.keep_attr_arg())))
            .collect::<Vec<_>>()
    };
    let tests = |l: &[ir::InkTest]| l.iter().map(|x| format!("@{} {}", end(x.syntax()), got_args(x.syntax()))).collect::<Vec<_>>();
    put("file/contracts", file.contracts().iter().map(|x| format!("@{} {} env={} keep_attr={}", end(x.syntax()), got_args(x.syntax()), val(x.env_arg().map(|a| a.arg().clone())), val(x.keep_attr_arg()))).collect());
    put("file/storage_items", file.storage_items().iter().map(|x| format!("@{} {} derive={}", end(x.syntax()), got_args(x.syntax()), val(x.derive_arg()))).collect());
    put("file/events_v2", file.events_v2().iter().map(|x| ev(x.syntax(), x.anonymous_arg(), x.signature_arg(), x.topics())).collect());
    put(
        "file/trait_definitions",
        file.trait_definitions()
            .iter()
            .map(|x| {
                let m = x.messages().iter().map(|m| format!("{}:{}", end(m.syntax()), got_args(m.syntax()))).collect::<Vec<_>>().join(";");
                format!("@{} {} namespace={} keep_attr={} messages={m}", end(x.syntax()), got_args(x.syntax()), val(x.namespace_arg()), val(x.keep_attr_arg()))
            })
            .collect(),
    );
    put(
        "file/chain_extensions",
        file.chain_extensions()
            .iter()
            .map(|x| {
                use ir::ast::AstNode;
                let e = x.extensions().iter().map(|m| format!("{}:{}", end(m.syntax()), got_args(m.syntax()))).collect::<Vec<_>>().join(";");
                let ei = x.extensions().iter().map(|m| m.id().map(|i| i.to_string()).unwrap_or("-".into())).collect::<Vec<_>>().join(",");
                let f = x.functions().iter().map(|m| format!("{}:{}", end(m.syntax()), got_args(m.syntax()))).collect::<Vec<_>>().join(";");
                let fi = x.functions().iter().map(|m| m.id().map(|i| i.to_string()).unwrap_or("-".into())).collect::<Vec<_>>().join(",");
                let ec = x.error_code().map(|t| end(t.syntax()).to_string()).unwrap_or("-".into());
                format!("@{} {} id={} error={ec} extensions={e} ({ei}) functions={f} ({fi})", end(x.syntax()), got_args(x.syntax()), x.id().map(|i| i.to_string()).unwrap_or("-".into()))
            })
            .collect(),
    );
    put("file/tests", tests(file.tests()));
    put("file/e2e_tests", e2e(file.e2e_tests()));
    for c in file.contracts() {
        let s = format!("contract@{}", end(c.syntax()));
        put(&format!("{s}/storage"), c.storage().iter().map(|x| format!("@{} {}", end(x.syntax()), got_args(x.syntax()))).collect());
        put(&format!("{s}/events"), c.events().iter().map(|x| ev(x.syntax(), x.anonymous_arg(), x.signature_arg(), x.topics())).collect());
        put(
            &format!("{s}/impls"),
            c.impls()
                .iter()
                .map(|x| {
                    let ends = |v: Vec<usize>| v.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(",");
                    let td = x.trait_definition().and_then(|t| t.ast().and_then(ir::ast::HasName::name).map(|n| n.to_string())).unwrap_or("-".into());
                    format!("@{} {} namespace={} trait={td} constructors={} messages={}", end(x.syntax()), got_args(x.syntax()), val(x.namespace_arg()), ends(x.constructors().iter().map(|y| end(y.syntax())).collect()), ends(x.messages().iter().map(|y| end(y.syntax())).collect()))
                })
                .collect(),
        );
        put(&format!("{s}/constructors"), c.constructors().iter().map(|x| format!("@{} {} payable={} default={} selector={}", end(x.syntax()), got_args(x.syntax()), val(x.payable_arg()), val(x.default_arg()), val(x.selector_arg().map(|a| a.arg().clone())))).collect());
        put(&format!("{s}/messages"), c.messages().iter().map(|x| format!("@{} {} payable={} default={} selector={}", end(x.syntax()), got_args(x.syntax()), val(x.payable_arg()), val(x.default_arg()), val(x.selector_arg().map(|a| a.arg().clone())))).collect());
        put(&format!("{s}/tests"), tests(c.tests()));
        put(&format!("{s}/e2e_tests"), e2e(c.e2e_tests()));
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    out.into_iter().flat_map(|(k, l)| l.into_iter().map(move |x| format!("{k} {x}"))).collect()
}

pub fn i01(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("prog");
    let v = super::diag::pick_ver(&mut r);
    let o = Opts { contract: r.pct(90), ..Opts::default() };
    let mut p = gen::program(&mut r, v, o);
    // a few items lose their ink! attributes (they must vanish from the model), a few nest deeper
    if r.pct(40) {
        let ids = p.file.ids(&|it, _| matches!(it, Item::Fn(_) | Item::Adt(_)) && it.h().ink().next().is_some());
        if !ids.is_empty() {
            let id = *r.pick(&ids);
            p.file.find_mut(id).unwrap().h_mut().attrs.retain(|a| !a.is_ink());
            cx.count("stripped");
        }
    }
    let rend = p.file.render();
    let rend = if r.pct(50) { rend } else { rend.relayout(&Style::random(&mut r), &mut r) };
    cx.seen(&rend.text);
    cx.count("programs");
    let want = expected_model(&p.file, &rend);
    cx.add("entities", want.len() as u64);
    match api::guard(|| actual_model(&rend.text)) {
        Err(e) => cx.violate(&e.clone(), &format!("panic while building the model: {e}"), json!({"version": v.name(), "source": rend.text})),
        Ok(got) => {
            if got != want {
                let a: Vec<_> = want.iter().filter(|x| !got.contains(x)).collect();
                let b: Vec<_> = got.iter().filter(|x| !want.contains(x)).collect();
                let cat = a.iter().chain(b.iter()).next().map(|x| x.split_whitespace().next().unwrap().rsplit('/').next().unwrap().to_string()).unwrap_or("order".into());
                cx.violate(&format!("model:{cat}"), &format!("entity model differs in {cat}: expected but absent: {a:?}; present but unexpected: {b:?}"), json!({"version": v.name(), "source": rend.text, "expected": want.join("\n"), "observed": got.join("\n")}));
            }
        }
    }
    cx.sample(|| json!({"source": rend.text, "model": want}));
}

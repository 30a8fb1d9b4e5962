//! D10: references are followed the way Rust follows them.

use crate::api::{self, Diag};
use crate::checks::diag::pick_ver;
use crate::gen::Ver;
use crate::lex::{self, Style};
use crate::rng::Rng;
use crate::run::Ctx;
use serde_json::json;

struct Md {
    name: String,
    /// Text before the module (attributes).
    attrs: String,
    parent: usize,
    depth: usize,
    subs: Vec<usize>,
    uses: Vec<String>,
    /// Items with the scenario they belong to.
    items: Vec<(Option<usize>, String)>,
    /// Imports of everything in it are unambiguous.
    glob: bool,
    /// Modules whose contents were imported as a whole.
    globbed: Vec<usize>,
}

struct W<'r> {
    r: &'r mut Rng,
    m: Vec<Md>,
    n: usize,
    feats: Vec<String>,
}

impl W<'_> {
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{p}{}", self.n)
    }
    fn module(&mut self, parent: usize, attrs: &str, glob: bool) -> usize {
        let k = ["m", "util", "r#mod", "módulo", "outer"][self.r.below(5)].to_string();
        let name = if k.starts_with("r#") { self.fresh("kinds") } else { self.fresh(&k) };
        let depth = self.m[parent].depth + 1;
        self.m.push(Md { name, attrs: attrs.into(), parent, depth, subs: vec![], uses: vec![], items: vec![], glob, globbed: vec![] });
        let i = self.m.len() - 1;
        self.m[parent].subs.push(i);
        i
    }
    /// A module at a random depth.
    fn place(&mut self) -> usize {
        let mut p = 0;
        while self.m[p].depth < 4 && self.r.pct(60) {
            let subs: Vec<usize> = self.m[p].subs.iter().copied().filter(|x| self.m[*x].attrs.is_empty() && self.m[*x].glob).collect();
            p = if !subs.is_empty() && self.r.pct(50) { *self.r.pick(&subs) } else { self.module(p, "", true) };
        }
        p
    }
    fn chain(&self, mut i: usize) -> Vec<usize> {
        let mut v = vec![];
        while i != 0 {
            v.push(i);
            i = self.m[i].parent;
        }
        v.reverse();
        v
    }
    fn feat(&mut self, s: &str) {
        if !self.feats.iter().any(|x| x == s) {
            self.feats.push(s.into());
        }
    }
    /// Segments of a path from a module to a module.
    fn way(&mut self, from: usize, to: usize) -> Vec<String> {
        let (f, t) = (self.chain(from), self.chain(to));
        let common = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
        let up = f.len() - common;
        let rest: Vec<String> = t[common..].iter().map(|x| self.m[*x].name.clone()).collect();
        let mut out: Vec<String> = vec![];
        match self.r.below(3) {
            0 => {
                self.feat("path:crate");
                out.push("crate".into());
                out.extend(t.iter().map(|x| self.m[*x].name.clone()));
                return out;
            }
            1 if up == 0 => {
                self.feat("path:relative");
            }
            _ => {
                if up == 0 || self.r.pct(20) {
                    self.feat("path:self");
                    out.push("self".into());
                }
                for _ in 0..up {
                    out.push("super".into());
                }
                self.feat(&format!("path:super{}", up.min(3)));
            }
        }
        out.extend(rest);
        out
    }
    fn join(segs: &[String]) -> String {
        segs.join("::")
    }
    /// A `use` declaration of a path, grouped or not; returns the name it introduces.
    fn import(&mut self, at: usize, path: &[String], vis: &str) -> String {
        let last = path.last().unwrap().clone();
        let alias = self.r.pct(35).then(|| self.fresh(if last.starts_with(char::is_uppercase) { "Al" } else { "al" }));
        if alias.is_some() {
            self.feat("use:alias");
        }
        let leaf = match &alias {
            Some(a) => format!("{last} as {a}"),
            None => last.clone(),
        };
        let q = &path[..path.len() - 1];
        let dummy = |r: &mut Rng| r.picks(&["Other", "Third as Fourth", "nested::{A, B}", "nested::deep::C"]);
        let text = if q.is_empty() {
            format!("{vis}use {leaf};")
        } else {
            match self.r.below(5) {
                0 => {
                    self.feat("use:group");
                    let d = dummy(self.r);
                    if self.r.pct(50) { format!("{vis}use {}::{{{leaf}, {d}}};", Self::join(q)) } else { format!("{vis}use {}::{{{d}, {leaf},}};", Self::join(q)) }
                }
                1 if q.len() > 1 => {
                    self.feat("use:nested-group");
                    let d = dummy(self.r);
                    format!("{vis}use {}::{{{d}, {}::{{{leaf}}}}};", q[0], Self::join(&q[1..]))
                }
                2 => {
                    self.feat("use:single-group");
                    format!("{vis}use {}::{{{leaf}}};", Self::join(q))
                }
                _ => {
                    self.feat("use:plain");
                    format!("{vis}use {}::{leaf};", Self::join(q))
                }
            }
        };
        self.m[at].uses.push(text);
        alias.unwrap_or(last)
    }
    /// Makes everything in `to` visible in `from`.
    fn glob(&mut self, from: usize, to: usize, vis: &str) {
        if self.m[from].globbed.contains(&to) && vis.is_empty() {
            return;
        }
        self.m[from].globbed.push(to);
        let mut w = self.way(from, to);
        if w.is_empty() {
            w = vec!["self".into()];
        }
        let t = if self.r.pct(80) { format!("{vis}use {}::*;", Self::join(&w)) } else { format!("{vis}use {}::{{*}};", Self::join(&w)) };
        self.feat("use:glob");
        self.m[from].uses.push(t);
    }
    /// A reference in `from` to the item `name` of the module `to`.
    fn refer(&mut self, from: usize, to: usize, name: &str, ty: bool, fuel: u32) -> String {
        let pub_ = "pub ";
        match self.r.below(if fuel > 0 { 9 } else { 6 }) {
            0 | 1 => {
                self.feat("direct");
                let mut w = self.way(from, to);
                w.push(name.into());
                Self::join(&w)
            }
            2 | 3 if from != to => {
                let mut w = self.way(from, to);
                w.push(name.into());
                self.import(from, &w, "")
            }
            4 if from != to && self.m[to].glob && (to != 0 || true) => {
                self.glob(from, to, "");
                name.to_string()
            }
            5 if to != 0 && from != to && self.m[to].parent != from => {
                // through the imported module
                if self.r.pct(30) {
                    self.feat("use:self-in-group");
                    let w = self.way(from, to);
                    if w.last().map_or(false, |x| x == "super" || x == "self") {
                        return format!("{}::{name}", Self::join(&w));
                    }
                    if self.r.pct(50) {
                        let a = self.fresh("al");
                        self.m[from].uses.push(format!("use {}::{{self as {a}}};", Self::join(&w)));
                        return format!("{a}::{name}");
                    }
                    self.m[from].uses.push(format!("use {}::{{self}};", Self::join(&w)));
                    return format!("{}::{name}", self.m[to].name);
                }
                let w = self.way(from, to);
                if w.last().map_or(false, |x| x == "super" || x == "self") {
                    return format!("{}::{name}", Self::join(&w));
                }
                self.feat("use:module");
                let a = self.import(from, &w, "");
                format!("{a}::{name}")
            }
            6 => {
                // re-exported by another module
                let p = self.place();
                let p = if p == from || p == to || self.r.pct(50) { let q = if self.r.pct(50) { 0 } else { p }; self.module(q, "", true) } else { p };
                self.feat("re-export");
                let n = if self.r.pct(30) && self.m[to].glob && p != to {
                    self.glob(p, to, pub_);
                    name.to_string()
                } else {
                    let mut w = self.way(p, to);
                    w.push(name.into());
                    self.import(p, &w, pub_)
                };
                self.refer(from, p, &n, ty, fuel - 1)
            }
            7 if ty => {
                // type alias
                let p = if self.r.pct(50) { from } else { self.place() };
                let a = self.fresh("Ty");
                let t = self.refer(p, to, name, ty, fuel - 1);
                self.feat("type-alias");
                self.m[p].items.push((None, format!("pub type {a} = {t};")));
                self.refer(from, p, &a, ty, fuel - 1)
            }
            _ => {
                let mut w = self.way(from, to);
                w.push(name.into());
                Self::join(&w)
            }
        }
    }
    /// A reference in `from` to an item of another crate.
    fn external(&mut self, from: usize, path: &str, fuel: u32) -> String {
        let segs: Vec<String> = path.split("::").map(|s| s.to_string()).collect();
        let name = segs.last().unwrap().clone();
        match self.r.below(if fuel > 0 { 8 } else { 6 }) {
            0 => path.to_string(),
            1 => {
                self.feat("ext:leading-colons");
                format!("::{path}")
            }
            2 | 3 => {
                self.feat("ext:use");
                self.import(from, &segs, "")
            }
            4 => {
                self.feat("ext:glob");
                self.m[from].uses.push(format!("use {}::*;", Self::join(&segs[..segs.len() - 1])));
                name
            }
            5 => {
                // a part of the path is imported
                let k = self.r.range(1, segs.len() - 1);
                self.feat("ext:use-part");
                if k == 1 {
                    let a = self.fresh("al");
                    self.m[from].uses.push(format!("use {} as {a};", segs[0]));
                    return format!("{a}::{}", Self::join(&segs[1..]));
                }
                let a = self.import(from, &segs[..k], "");
                format!("{a}::{}", Self::join(&segs[k..]))
            }
            6 => {
                // through a re-export
                let p = self.place();
                let p = if p == from { self.module(0, "", true) } else { p };
                self.feat("ext:re-export");
                let n = self.import(p, &segs, "pub ");
                self.refer(from, p, &n, false, fuel - 1)
            }
            _ => {
                // imported by the parent, which is imported as a whole or by name
                if from == 0 {
                    return path.to_string();
                }
                self.feat("ext:parent");
                let p = self.m[from].parent;
                let n = self.import(p, &segs, "");
                if self.r.pct(50) {
                    self.glob(from, p, "");
                    n
                } else if self.r.pct(50) {
                    self.import(from, &["super".into(), n], "")
                } else {
                    format!("super::{n}")
                }
            }
        }
    }
    fn render(&mut self, i: usize, out: &mut Vec<(Option<usize>, String)>) {
        let mut parts: Vec<(u8, usize)> = vec![];
        let mut uses = std::mem::take(&mut self.m[i].uses);
        let mut seen = std::collections::HashSet::new();
        uses.retain(|u| seen.insert(u.clone()));
        self.r.shuffle(&mut uses);
        let items = std::mem::take(&mut self.m[i].items);
        let subs = self.m[i].subs.clone();
        parts.extend((0..items.len()).map(|x| (1u8, x)));
        parts.extend((0..subs.len()).map(|x| (2u8, x)));
        self.r.shuffle(&mut parts);
        let at = if self.r.pct(70) { 0 } else { self.r.below(parts.len() + 1) };
        for k in 0..=parts.len() {
            if k == at {
                for u in &uses {
                    out.push((None, u.clone()));
                }
            }
            match parts.get(k) {
                Some((1, x)) => out.push(items[*x].clone()),
                Some((_, x)) => {
                    let s = subs[*x];
                    out.push((None, format!("{}pub mod {} {{", self.m[s].attrs, self.m[s].name)));
                    self.render(s, out);
                    out.push((None, "}".into()));
                }
                None => (),
            }
        }
    }
}

pub fn d10(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("D10");
    let v = pick_ver(&mut r);
    let mut w = W { r: &mut r, m: vec![], n: 0, feats: vec![] };
    w.m.push(Md { name: String::new(), attrs: String::new(), parent: 0, depth: 0, subs: vec![], uses: vec![], items: vec![], glob: true, globbed: vec![] });
    for _ in 0..w.r.below(3) {
        w.place();
    }
    // scenario -> what is broken
    let mut bad: Vec<Option<&'static str>> = vec![];
    let mut kinds: Vec<&'static str> = vec![];
    let contract = w.r.pct(75);
    let cm = if contract { w.module(0, "", true) } else { 0 };
    if contract {
        let name = w.m[cm].name.clone();
        w.m[cm].items.push((None, "#[ink(storage)]\npub struct Store0 {\n    value: bool,\n}".into()));
        w.m[cm].items.push((None, "impl Store0 {\n    #[ink(constructor)]\n    pub fn new() -> Self {\n        todo!()\n    }\n    #[ink(message)]\n    pub fn own(&self) {}\n}".into()));
        let _ = name;
    }
    let mut env = String::new();
    // the environment
    if contract && w.r.pct(60) {
        let id = bad.len();
        kinds.push("environment");
        let at = if w.r.pct(20) { cm } else { w.place() };
        let e = w.fresh("Env");
        let broken = w.r.pct(40);
        bad.push(broken.then_some("no-environment-impl"));
        w.m[at].items.push((Some(id), format!("#[derive(Debug, Clone, PartialEq, Eq)]\npub enum {e} {{}}")));
        if !broken {
            // the implementation may sit elsewhere
            let im = if w.r.pct(70) { at } else { w.place() };
            let q = w.r.picks(&["ink::env::Environment", "ink_env::Environment"]);
            let t = w.external(im, &q, 2);
            let s = if im == at { e.clone() } else { w.refer(im, at, &e, false, 0) };
            // an implementation is matched by the last segment of its type
            let s = if s.rsplit("::").next() == Some(e.as_str()) { s } else { let mut x = w.way(im, at); x.push(e.clone()); W::join(&x) };
            w.m[im].items.push((None, format!("impl {t} for {s} {{\n    const MAX_EVENT_TOPICS: usize = 3;\n    type AccountId = [u8; 32];\n}}")));
        } else if w.r.pct(50) {
            // a trait of the same name that is not ink!'s
            let d = w.module(0, "", false);
            let dn = w.m[d].name.clone();
            w.m[d].items.push((None, "pub trait Environment {}".into()));
            w.m[at].items.push((None, format!("impl crate::{dn}::Environment for {e} {{}}")));
        }
        let p = w.refer(cm, at, &e, true, 2);
        env = format!("(env = {p})");
    }
    // implementations of trait definitions
    for _ in 0..if contract { w.r.range(0, 2) } else { 0 } {
        let id = bad.len();
        kinds.push("trait");
        let at = if w.r.pct(20) { cm } else { w.place() };
        let t = w.fresh("Tr");
        let n = w.r.range(1, 3);
        let ms: Vec<String> = (0..n).map(|_| w.fresh("msg")).collect();
        let def: Vec<String> = ms.iter().map(|m| format!("    #[ink(message{})]\n    fn {m}(&self) -> u32;", if w.r.pct(30) { ", payable" } else { "" })).collect();
        w.m[at].items.push((None, format!("#[ink::trait_definition]\npub trait {t} {{\n{}\n}}", def.join("\n"))));
        let mut im: Vec<String> = def.iter().map(|d| d.replace(';', " {\n        1\n    }")).collect();
        let how = match w.r.below(6) {
            0 if n > 1 => {
                let k = w.r.below(n);
                im.remove(k);
                Some("missing-message")
            }
            1 => {
                let m = w.fresh("extra");
                im.push(format!("    #[ink(message)]\n    fn {m}(&self) {{}}"));
                Some("extra-message")
            }
            2 => {
                let k = w.r.below(n);
                im[k] = if im[k].contains(", payable") { im[k].replace(", payable", "") } else { im[k].replace("(message)", "(message, payable)") };
                Some("payable-differs")
            }
            3 => {
                let k = w.r.below(n);
                im[k] = im[k].replace("-> u32", "-> u64");
                Some("return-type-differs")
            }
            _ => None,
        };
        bad.push(how);
        if w.r.pct(40) {
            // another definition of the same name
            let d = w.module(0, "", false);
            let m = w.fresh("other");
            w.m[d].items.push((None, format!("#[ink::trait_definition]\npub trait {t} {{\n    #[ink(message)]\n    fn {m}(&self);\n}}")));
            w.feat("decoy");
        }
        w.r.shuffle(&mut im);
        let p = w.refer(cm, at, &t, false, 2);
        w.m[cm].items.push((Some(id), format!("impl {p} for Store0 {{\n{}\n}}", im.join("\n"))));
    }
    // chain extensions
    let mut next_ext = 0;
    for _ in 0..w.r.below(3) {
        let cid = bad.len();
        kinds.push("chain_extension");
        bad.push(None);
        let cat = if w.r.pct(15) && contract { cm } else { w.place() };
        let mut types: Vec<(String, usize)> = vec![];
        for k in 0..w.r.range(1, 2) {
            let id = if k == 0 { cid } else { bad.push(None); kinds.push("codec_type"); bad.len() - 1 };
            let at = if w.r.pct(40) { cat } else { w.place() };
            let e = w.fresh(if k == 0 { "Err" } else { "Cod" });
            let drop = if w.r.pct(35) { w.r.below(if k == 0 { 4 } else { 3 }) } else { 9 };
            bad[id] = match drop {
                0 => Some("no-encode"),
                1 => Some("no-decode"),
                2 => Some("no-type-info"),
                3 => Some("no-from-status-code"),
                _ => None,
            };
            let q = w.r.picks(&["scale", "ink::scale", "parity_scale_codec"]);
            let qi = w.r.picks(&["scale_info", "ink::scale_info"]);
            let mut d: Vec<String> = vec!["Debug".into()];
            let mut impls: Vec<String> = vec![];
            for (j, t) in [format!("{q}::Encode"), format!("{q}::Decode"), format!("{qi}::TypeInfo")].iter().enumerate() {
                if j == drop {
                    continue;
                }
                let p = w.external(at, t, 2);
                if w.r.pct(20) {
                    w.feat("manual-impl");
                    impls.push(format!("impl {p} for {e} {{}}"));
                } else {
                    d.push(p);
                }
            }
            w.r.shuffle(&mut d);
            let item = if v == Ver::V5 && drop == 9 && w.r.pct(15) { format!("#[ink::scale_derive(Encode, Decode, TypeInfo)]\npub enum {e} {{\n    A,\n}}") } else { format!("#[derive({})]\npub enum {e} {{\n    A,\n}}", d.join(", ")) };
            w.m[at].items.push((Some(id), item));
            for x in impls {
                w.m[at].items.push((None, x));
            }
            if k == 0 && drop != 3 {
                let p = w.external(at, "ink::env::chain_extension::FromStatusCode", 2);
                w.m[at].items.push((None, format!("impl {p} for {e} {{\n    fn from_status_code(status_code: u32) -> Result<(), Self> {{\n        todo!()\n    }}\n}}")));
            }
            let p = w.refer(cat, at, &e, true, 2);
            types.push((p, id));
        }
        next_ext += 1;
        let mut fns = vec![];
        if let Some((t, id)) = types.get(1) {
            let t = match w.r.below(4) {
                0 => format!("Option<{t}>"),
                1 => format!("Vec<{t}>"),
                _ => t.clone(),
            };
            fns.push((Some(*id), format!("    #[ink({} = 1)]\n    fn f(a: u32, b: {t}) -> u32;", if v == Ver::V5 { "function" } else { "extension" })));
        }
        let ext = w.fresh("Ext");
        let head = if v == Ver::V5 { format!("#[ink::chain_extension(extension = {next_ext})]") } else { "#[ink::chain_extension]".into() };
        // the functions belong to the scenario of their type
        let mut text = vec![(Some(cid), format!("{head}\npub trait {ext} {{\n    type ErrorCode = {};", types[0].0))];
        text.extend(fns);
        text.push((Some(cid), "}".into()));
        let k = w.m.len();
        let _ = k;
        // one item made of several marked pieces: joined with a separator the renderer splits again
        let joined: Vec<String> = text.iter().map(|(i, t)| format!("{}\u{1}{t}", i.unwrap())).collect();
        w.m[cat].items.push((Some(usize::MAX), joined.join("\u{2}")));
    }
    if bad.is_empty() {
        cx.count("empty");
        return;
    }
    if contract {
        w.m[cm].attrs = format!("#[ink::contract{env}]\n");
    }
    let mut raw = vec![];
    w.render(0, &mut raw);
    let mut pieces: Vec<(Option<usize>, String)> = vec![];
    for (i, t) in raw {
        if i == Some(usize::MAX) {
            for x in t.split('\u{2}') {
                let (i, t) = x.split_once('\u{1}').unwrap();
                pieces.push((i.parse().ok(), t.to_string()));
            }
        } else {
            pieces.push((i, t));
        }
    }
    let feats = std::mem::take(&mut w.feats);
    let mut src = String::new();
    let mut spans: Vec<(usize, usize, usize)> = vec![];
    for (i, t) in &pieces {
        let s = src.len();
        src.push_str(t);
        if let Some(i) = i {
            spans.push((s, src.len(), *i));
        }
        src.push('\n');
    }
    let (text, spans): (String, Vec<(usize, usize, usize)>) = if r.pct(40) {
        let ts = lex::lex(&src);
        let st = Style::random(&mut r);
        let (text, nt) = lex::relayout(&src, &st, &mut r);
        let spans = spans.iter().map(|(s, e, i)| {
            let a = ts.partition_point(|t| t.start < *s);
            let b = ts.partition_point(|t| t.end <= *e);
            (nt[a].start, nt[b - 1].end, *i)
        }).collect();
        (text, spans)
    } else {
        (src, spans)
    };
    cx.count("programs");
    cx.seen(&text);
    for f in &feats {
        cx.count(&format!("how:{f}"));
    }
    for (k, b) in kinds.iter().zip(&bad) {
        cx.count(&format!("{k}:{}", b.unwrap_or("valid")));
    }
    let det = |ds: &[Diag]| json!({"version": v.name(), "source": text, "diagnostics": ds.iter().map(|d| format!("{}..{} {}", d.s, d.e, d.msg)).collect::<Vec<_>>()});
    let ds = match api::diagnostics(&text, v) {
        Ok(d) => d,
        Err(e) => return cx.violate(&e.clone(), &format!("analyzer panicked: {e}"), json!({"version": v.name(), "source": text})),
    };
    cx.add("diagnostics_seen", ds.len() as u64);
    for d in &ds {
        // an environment that is not found is reported at the contract's attribute
        let hit = spans.iter().any(|(s, e, i)| bad[*i].is_some() && d.s < *e && *s < d.e);
        if !hit {
            let m: String = crate::checks::diag::norm_msg(&d.msg);
            cx.violate(&format!("flagged:{m}"), &format!("nothing is wrong at {}..{}: {}", d.s, d.e, d.msg), det(&ds));
            return;
        }
    }
    for (i, b) in bad.iter().enumerate() {
        let Some(b) = b else { continue };
        if !ds.iter().any(|d| d.error && spans.iter().any(|(s, e, j)| *j == i && d.s < *e && *s < d.e)) {
            cx.violate(&format!("missed:{}:{b}", kinds[i]), &format!("{}: {b} is not reported", kinds[i]), det(&ds));
            return;
        }
    }
    cx.sample(|| det(&ds));
}

//! Generator of valid ink! 4 / ink! 5 programs.

use crate::ast::*;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ver {
    V4,
    V5,
}

impl Ver {
    pub fn lib(self) -> ink_analyzer::Version {
        match self {
            Ver::V4 => ink_analyzer::Version::V4,
            Ver::V5 => ink_analyzer::Version::V5,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Ver::V4 => "v4",
            Ver::V5 => "v5",
        }
    }
}

#[derive(Clone, Debug)]
pub struct TraitInfo {
    pub id: Id,
    pub name: String,
    /// Path usable from inside the contract.
    pub path: String,
    pub uses: Option<String>,
    pub msgs: Vec<Func>,
    pub namespace: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub v: Ver,
    pub file: File,
    pub contract: Option<Id>,
    pub storage: String,
    pub features: Vec<&'static str>,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub contract: bool,
    /// Allow e2e tests.
    pub e2e: bool,
    pub chain_ext: bool,
    pub traits: bool,
    pub rich: bool,
    /// V5 events may be `#[ink(event)]` in the contract and `#[ink::event]` anywhere.
    pub events: bool,
    /// Allow wildcard selectors.
    pub wildcards: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { contract: true, e2e: true, chain_ext: true, traits: true, rich: true, events: true, wildcards: true }
    }
}

pub struct G<'r> {
    pub r: &'r mut Rng,
    pub v: Ver,
    pub next: Id,
    pub n: u32,
    pub selectors: std::collections::HashSet<u32>,
    pub features: Vec<&'static str>,
    pub o: Opts,
    pub custom: Vec<String>,
    /// Much of everything.
    pub big: bool,
    names: std::collections::HashSet<String>,
    /// Names may be bare words (they are unique within one generator only).
    plain: bool,
}

const WORDS: &[&str] = &[
    "value", "owner", "total", "balance", "get", "set", "flip", "transfer", "approve", "mint", "burn", "count", "inc", "admin", "pause",
    "name", "symbol", "swap", "vote", "claim", "data", "item", "lock", "größe", "état", "emit", "info", "message", "constructor", "topic", "event", "r", "a", "x", "is", "selector", "ctr_message",
];

pub fn camel(s: &str) -> String {
    s.split('_').filter(|x| !x.is_empty()).map(|w| {
        let mut c = w.chars();
        let f = c.next().unwrap();
        f.to_uppercase().collect::<String>() + c.as_str()
    }).collect()
}

pub fn arg(g: &mut G, name: &str, value: Option<String>) -> Arg {
    Arg { id: g.id(), name: name.into(), value, nested: None }
}

impl<'r> G<'r> {
    pub fn new(r: &'r mut Rng, v: Ver, o: Opts) -> Self {
        let big = r.pct(3);
        G { r, v, next: 0, n: 0, selectors: Default::default(), features: vec![], o, custom: vec![], big, names: Default::default(), plain: false }
    }
    pub fn id(&mut self) -> Id {
        self.next += 1;
        self.next
    }
    /// A count in lo..=hi, or a far larger one.
    pub fn count(&mut self, lo: usize, hi: usize) -> usize {
        if self.big && self.r.pct(40) {
            self.feat("big");
            let k = *self.r.pick(&[3usize, 6, 12]);
            return self.r.range(hi, hi * k);
        }
        self.r.range(lo, hi)
    }
    pub fn feat(&mut self, f: &'static str) {
        if !self.features.contains(&f) {
            self.features.push(f);
        }
    }
    /// Unique snake_case name.
    pub fn snake(&mut self) -> String {
        self.n += 1;
        let w = self.r.picks(WORDS);
        if self.plain && self.r.pct(10) && w.len() > 3 && self.names.insert(w.clone()) {
            return w;
        }
        if self.r.pct(3) {
            return format!("_{w}_{}", self.n);
        }
        if self.r.pct(30) {
            format!("{}_{}{}", w, self.r.picks(WORDS), self.n)
        } else {
            format!("{}{}", w, self.n)
        }
    }
    pub fn camel(&mut self) -> String {
        let s = self.snake();
        camel(&s)
    }
    pub fn selector(&mut self) -> String {
        loop {
            let x = match self.r.below(4) {
                0 => self.r.below(10) as u32,
                1 => self.r.next() as u32,
                2 => self.r.pick(&[0u32, 1, u32::MAX, 0x8000_0000, 0xFFFF, 0x1_0000, 10, 255]).to_owned(),
                _ => self.r.below(100_000) as u32,
            };
            if self.selectors.insert(x) {
                return self.int(x);
            }
        }
    }
    /// A spelling of an integer.
    pub fn int(&mut self, x: u32) -> String {
        match self.r.below(9) {
            6 => format!("{x}_u32").replace("_u32", if x > 999 { "_u32" } else { "" }),
            7 => if x < 256 { format!("0b{x:b}") } else { format!("0o{x:o}") },
            8 => {
                let d = format!("{x}");
                let mut o = String::new();
                for (i, c) in d.chars().enumerate() {
                    if i > 0 && (d.len() - i) % 3 == 0 {
                        o.push('_');
                    }
                    o.push(c);
                }
                o
            }
            0 => format!("0x{x:x}"),
            1 => format!("0x{x:X}"),
            2 => format!("0x{x:08X}"),
            3 => format!("0x{x:08x}"),
            _ => format!("{x}"),
        }
    }
    pub fn string(&mut self, s: &str) -> String {
        if self.r.pct(10) && !s.contains('"') {
            format!("r\"{s}\"")
        } else if self.r.pct(5) {
            format!("r#\"{s}\"#")
        } else {
            format!("\"{s}\"")
        }
    }
    pub fn arg(&mut self, name: &str, value: Option<String>) -> Arg {
        Arg { id: self.id(), name: name.into(), value, nested: None }
    }
    pub fn flag(&mut self, name: &str) -> Arg {
        self.arg(name, None)
    }
    pub fn attr(&mut self, path: &str, args: Option<Vec<Arg>>) -> Attr {
        let trail = path.starts_with("ink") && args.as_ref().map_or(false, |a| !a.is_empty()) && self.r.pct(5);
        Attr { id: self.id(), path: path.into(), args, raw: None, trail }
    }
    pub fn raw_attr(&mut self, path: &str, raw: &str) -> Attr {
        Attr { id: self.id(), path: path.into(), args: None, raw: Some(raw.into()), trail: false }
    }
    pub fn ty(&mut self, depth: u32) -> String {
        if depth > 0 && self.r.pct(25) {
            let a = self.ty(depth - 1);
            match self.r.below(6) {
                0 => format!("Option<{a}>"),
                1 => format!("Vec<{a}>"),
                2 => format!("[{a}; {}]", self.r.range(1, 32)),
                3 => {
                    let b = self.ty(depth - 1);
                    format!("({a}, {b})")
                }
                4 => {
                    let b = self.ty(depth - 1);
                    format!("Result<{a}, {b}>")
                }
                _ => format!("({a},)"),
            }
        } else if !self.custom.is_empty() && self.r.pct(15) {
            let i = self.r.below(self.custom.len());
            self.custom[i].clone()
        } else {
            self.r.picks(&["u8", "u16", "u32", "u64", "u128", "i32", "i128", "bool", "String", "AccountId", "Balance", "Hash", "BlockNumber", "Vec<u8>", "[u8; 32]", "()"])
        }
    }
    pub fn docs(&mut self) -> Vec<String> {
        if !self.r.pct(25) {
            return vec![];
        }
        (0..self.r.range(1, 2))
            .map(|_| self.r.picks(&["/// Some documentation.", "/// Überprüft `#[ink(message)]` — ✓.", "/** Block doc. */", "///"]))
            .collect()
    }
    /// Spells a list of ink! arguments (the first one primary) as one or several attributes and
    /// mixes in unrelated attributes.
    pub fn spell(&mut self, path: &str, args: Vec<Arg>, extra: &[(&str, &str)]) -> Vec<Attr> {
        let mut out = vec![];
        if path != "ink" {
            let a = if args.is_empty() { if self.r.pct(15) { Some(vec![]) } else { None } } else { Some(args) };
            out.push(self.attr(path, a));
        } else {
            let mut cur: Vec<Arg> = vec![];
            for (i, a) in args.into_iter().enumerate() {
                if i > 0 && self.r.pct(35) {
                    self.feat("split-attrs");
                    let at = self.attr("ink", Some(std::mem::take(&mut cur)));
                    out.push(at);
                }
                cur.push(a);
            }
            if !cur.is_empty() {
                let at = self.attr("ink", Some(cur));
                out.push(at);
            }
        }
        for (p, raw) in extra {
            if self.r.pct(15) {
                let at = self.raw_attr(p, raw);
                let i = self.r.below(out.len() + 1);
                out.insert(i, at);
            }
        }
        out
    }
    pub fn head(&mut self, attrs: Vec<Attr>, vis: &str) -> Head {
        Head { id: self.id(), docs: self.docs(), attrs, vis: vis.into() }
    }
    pub fn body(&mut self) -> String {
        let n = self.r.below(3);
        let mut s: Vec<String> = vec![];
        for _ in 0..n {
            s.push(self.r.picks(&[
                "let x = 1 + 2;",
                "let caller = self.env().caller();",
                "if x > 3 { return Default::default(); }",
                "for i in 0..10 { let _ = i; }",
                "ink::env::debug_println!(\"got: {}\", 1);",
                "let s = \"#[ink(message)] { \";",
                "let f = |a: u32, b: u32| -> u32 { a + b };",
                "match v { Some(x) => x, None => 0, };",
                "self.env().emit_event(Ev { a: 1, b: None });",
                "// a comment with #[ink(storage)]",
                "let c = '\\'';",
            ]));
        }
        s.push(self.r.picks(&["todo!()", "Default::default()", "unimplemented!(\"later\")", "self.value"]));
        s.join("\n")
    }
    pub fn params(&mut self) -> Vec<(String, String)> {
        let n = self.count(0, 3);
        (0..n)
            .map(|_| {
                let n = self.snake();
                let t = self.ty(2);
                (n, t)
            })
            .collect()
    }

    // ----- entities ------------------------------------------------------------------------

    /// Complementary arguments of a callable.
    pub fn callable_args(&mut self, primary: &str, default_ok: bool) -> Vec<Arg> {
        let mut v = vec![];
        if self.r.pct(25) {
            v.push(self.flag("payable"));
        }
        if default_ok && self.r.pct(20) {
            v.push(self.flag("default"));
        }
        if self.r.pct(25) {
            let s = self.selector();
            self.feat("selector");
            v.push(self.arg("selector", Some(s)));
        }
        self.r.shuffle(&mut v);
        let mut out = vec![self.flag(primary)];
        out.append(&mut v);
        out
    }
    pub fn constructor(&mut self, vis: &str) -> Func {
        let args = self.callable_args("constructor", true);
        let attrs = self.spell("ink", args, &[("allow", "(clippy::new_without_default)"), ("inline", ""), ("cfg", "(feature = \"foo\")"), ("doc", " = \"Text.\"")]);
        let h = self.head(attrs, vis);
        let name = self.snake();
        let params = self.params();
        let ret = Some(self.r.picks(&["Self", "Result<Self, Error>", "Option<Self>", "core::result::Result<Self, ()>"]));
        let body = Some(self.body());
        Func { h, quals: "".into(), name, generics: "".into(), self_param: None, params, variadic: false, ret, body }
    }
    pub fn message(&mut self, vis: &str, in_trait: bool) -> Func {
        let args = self.callable_args("message", true);
        let attrs = self.spell("ink", args, &[("inline", ""), ("allow", "(unused)"), ("must_use", ""), ("cfg", "(any(feature = \"foo\", test))"), ("doc", "(hidden)"), ("deprecated", "")]);
        let h = self.head(attrs, vis);
        let name = self.snake();
        let params = self.params();
        let ret = if self.r.pct(60) { Some(self.ty(2)) } else { None };
        let body = if in_trait { None } else { Some(self.body()) };
        let sp = self.r.picks(&["&self", "&mut self"]);
        Func { h, quals: "".into(), name, generics: "".into(), self_param: Some(sp), params, variadic: false, ret, body }
    }
    pub fn plain_fn(&mut self) -> Func {
        let h = {
            let a = if self.r.pct(30) { vec![self.raw_attr("inline", "")] } else { vec![] };
            self.head(a, "")
        };
        let name = self.snake();
        let q = self.r.picks(&["", "const", "unsafe", "async", ""]);
        let gen = self.r.picks(&["", "<T: Clone>", ""]);
        let sp = if self.r.pct(50) { Some("&self".to_string()) } else { None };
        let params = self.params();
        let body = Some(self.body());
        Func { h, quals: q, name, generics: gen, self_param: sp, params, variadic: false, ret: None, body }
    }
    pub fn field(&mut self, attrs: Vec<Attr>, vis: &str) -> Field {
        let h = self.head(attrs, vis);
        let name = self.snake();
        let ty = self.ty(2);
        Field { h, name, ty }
    }
    pub fn storage(&mut self, name: &str) -> Adt {
        let a = self.flag("storage");
        let attrs = self.spell("ink", vec![a], &[("derive", "(Default)"), ("allow", "(dead_code)"), ("cfg_attr", "(feature = \"std\", derive(Debug))")]);
        let h = self.head(attrs, "pub");
        let shape = if self.r.pct(75) { Shape::Record } else if self.r.pct(50) { Shape::Tuple } else { Shape::Unit };
        let n = if shape == Shape::Unit { 0 } else { self.count(0, 3) };
        let fields = (0..n)
            .map(|_| {
                let vis = self.r.picks(&["", "pub", "pub(crate)"]);
                let vis = if self.r.pct(70) { String::new() } else { vis };
                let mut f = self.field(vec![], &vis);
                if self.r.pct(20) {
                    f.ty = format!("ink::storage::Mapping<AccountId, {}>", f.ty);
                }
                f
            })
            .collect();
        Adt { h, kw: "struct".into(), name: name.into(), generics: "".into(), shape, fields, variants: "".into() }
    }
    /// Event; `standalone` means `#[ink::event]` (v5 only).
    pub fn event(&mut self, standalone: bool) -> Adt {
        let mut extra = vec![];
        match (self.v, self.r.below(5)) {
            (_, 0) => extra.push(self.flag("anonymous")),
            (Ver::V5, 1) => {
                let hx: String = (0..32).map(|_| format!("{:02x}", self.r.below(256))).collect();
                let hx = if self.r.pct(50) { hx.to_uppercase() } else { hx };
                self.feat("signature_topic");
                let s = format!("\"{hx}\"");
                extra.push(self.arg("signature_topic", Some(s)));
            }
            _ => (),
        }
        let others: &[(&str, &str)] = &[("derive", "(Debug, Clone)"), ("cfg_attr", "(feature = \"std\", derive(PartialEq))"), ("allow", "(unused)")];
        let attrs = if standalone {
            self.feat("event-v2");
            self.spell("ink::event", extra, others)
        } else {
            let mut a = vec![self.flag("event")];
            a.append(&mut extra);
            self.feat("event");
            self.spell("ink", a, others)
        };
        let h = self.head(attrs, "pub");
        let name = self.camel();
        let shape = if self.r.pct(90) { Shape::Record } else { Shape::Unit };
        let n = if shape == Shape::Unit { 0 } else { self.count(0, 4) };
        let fields = (0..n)
            .map(|_| {
                let attrs = if self.r.pct(40) {
                    let t = self.flag("topic");
                    self.feat("topic");
                    self.spell("ink", vec![t], &[("allow", "(unused)")])
                } else {
                    vec![]
                };
                let vis = self.r.picks(&["", "pub"]);
                self.field(attrs, &vis)
            })
            .collect();
        Adt { h, kw: "struct".into(), name, generics: "".into(), shape, fields, variants: "".into() }
    }
    pub fn storage_item(&mut self) -> Adt {
        let args = if self.r.pct(40) {
            let b = self.r.picks(&["true", "false"]);
            vec![self.arg("derive", Some(b))]
        } else {
            vec![]
        };
        self.feat("storage_item");
        let mut attrs = self.spell("ink::storage_item", args, &[("derive", "(Debug)"), ("derive", "(Default)"), ("cfg_attr", "(feature = \"std\", derive(ink::storage::traits::StorageLayout))")]);
        if self.v == Ver::V5 && self.r.pct(35) {
            self.feat("storage_item+scale_derive");
            let mut a: Vec<Arg> = ["Encode", "Decode", "TypeInfo"].iter().map(|n| self.flag(n)).collect();
            self.r.shuffle(&mut a);
            a.truncate(self.r.range(1, 3));
            let at = self.attr("ink::scale_derive", Some(a));
            let i = self.r.below(attrs.len() + 1);
            attrs.insert(i, at);
        }
        let vis = self.r.picks(&["", "pub", "pub(crate)"]);
        let h = self.head(attrs, &vis);
        let name = self.camel();
        if self.r.pct(25) {
            Adt { h, kw: "enum".into(), name, generics: "".into(), shape: Shape::Unit, fields: vec![], variants: " A, B(u32), C { x: bool } ".into() }
        } else {
            let generics = if self.r.pct(25) { "<D: Default>".to_string() } else { "".into() };
            let n = self.r.below(3);
            let fields = (0..n).map(|_| self.field(vec![], "")).collect();
            Adt { h, kw: "struct".into(), name, generics, shape: Shape::Record, fields, variants: "".into() }
        }
    }
    /// The attributes with which a type implements the SCALE codec traits.
    pub fn scale_attrs(&mut self) -> Vec<Attr> {
        if self.v == Ver::V5 && self.r.pct(70) {
            self.feat("scale_derive");
            let mut a: Vec<Arg> = ["Encode", "Decode", "TypeInfo"].iter().map(|n| self.flag(n)).collect();
            self.r.shuffle(&mut a);
            let mut v = vec![self.attr("ink::scale_derive", Some(a))];
            if self.r.pct(50) {
                let d = self.raw_attr("derive", "(Debug, Clone, PartialEq)");
                let i = self.r.below(2);
                v.insert(i, d);
            }
            v
        } else {
            let q = self.r.picks(&["scale", "ink::scale"]);
            let qi = self.r.picks(&["scale_info", "ink::scale_info"]);
            let pre = self.r.picks(&["", "Debug, ", "Clone, PartialEq, "]);
            match self.r.below(4) {
                2 => {
                    let a = self.raw_attr("derive", "(Debug, Clone)");
                    let b = self.raw_attr("derive", &format!("({q}::Encode, {q}::Decode)"));
                    let c = self.raw_attr("cfg_attr", "(feature = \"x\", derive(Eq))");
                    let d = self.raw_attr("cfg_attr", &format!("(feature = \"std\", derive({qi}::TypeInfo))"));
                    let mut v = vec![a, b, c, d];
                    self.r.shuffle(&mut v);
                    v
                }
                3 => {
                    let mut v: Vec<Attr> = [format!("({q}::Encode)"), format!("({q}::Decode)"), format!("({qi}::TypeInfo)")].iter().map(|x| self.raw_attr("derive", x)).collect();
                    self.r.shuffle(&mut v);
                    v
                }
                0 => {
                    let a = self.raw_attr("derive", &format!("({pre}{q}::Encode, {q}::Decode)"));
                    let b = self.raw_attr("cfg_attr", &format!("(feature = \"std\", derive({qi}::TypeInfo))"));
                    vec![a, b]
                }
                _ => {
                    let a = self.raw_attr("derive", &format!("({pre}{q}::Encode, {q}::Decode, {qi}::TypeInfo)"));
                    vec![a]
                }
            }
        }
    }
    pub fn scale_type(&mut self, vis: &str) -> Adt {
        let attrs = self.scale_attrs();
        let h = self.head(attrs, vis);
        let name = self.camel();
        if self.r.pct(50) {
            Adt { h, kw: "enum".into(), name, generics: "".into(), shape: Shape::Unit, fields: vec![], variants: " A, B, C(u8) ".into() }
        } else {
            let n = self.r.below(3);
            let fields = (0..n).map(|_| { let mut f = self.field(vec![], ""); f.ty = "u32".into(); f }).collect();
            Adt { h, kw: "struct".into(), name, generics: "".into(), shape: Shape::Record, fields, variants: "".into() }
        }
    }
    /// Types usable in chain-extension signatures without resolving to a custom type of the file.
    fn ext_ty(&mut self, custom: &[String]) -> String {
        if !custom.is_empty() && self.r.pct(30) {
            let i = self.r.below(custom.len());
            let c = custom[i].clone();
            match self.r.below(5) {
                0 => format!("Option<{c}>"),
                1 => format!("Vec<{c}>"),
                2 => format!("({c}, u8)"),
                3 => format!("[{c}; 4]"),
                _ => c,
            }
        } else {
            self.r.picks(&["u32", "[u8; 32]", "Vec<u8>", "bool", "Option<u64>", "(u8, u16)", "Result<u32, ()>", "&[u8]"])
        }
    }
    pub fn ext_fn(&mut self, id: u32, custom: &[String], err: &str) -> Func {
        let kind = if self.v == Ver::V5 { "function" } else { "extension" };
        let sid = self.int(id);
        let mut args = vec![self.arg(kind, Some(sid))];
        if self.r.pct(35) {
            let b = self.r.picks(&["true", "false"]);
            args.push(self.arg("handle_status", Some(b)));
        }
        let attrs = self.spell("ink", args, &[("allow", "(unused)"), ("cfg", "(feature = \"x\")")]);
        let h = self.head(attrs, "");
        let name = self.snake();
        let n = self.r.below(3);
        let params = (0..n).map(|_| { let n = self.snake(); let t = self.ext_ty(custom); (n, t) }).collect();
        let ret = match self.r.below(4) {
            0 => None,
            1 => Some(format!("Result<{}, {err}>", self.ext_ty(&[]))),
            _ => Some(self.ext_ty(custom)),
        };
        Func { h, quals: "".into(), name, generics: "".into(), self_param: None, params, variadic: false, ret, body: None }
    }
    /// A chain extension with the items it needs (error code type, codec types).
    pub fn chain_extension(&mut self, ext_id: u32) -> Vec<Item> {
        self.feat("chain_extension");
        let mut out = vec![];
        let err = self.scale_type("pub");
        let err_name = err.name.clone();
        let mut custom = vec![];
        out.push(Item::Adt(err));
        for _ in 0..self.r.below(2) {
            let t = self.scale_type("pub");
            custom.push(t.name.clone());
            out.push(Item::Adt(t));
        }
        let q = self.r.picks(&["ink::env::chain_extension::FromStatusCode", "::ink::env::chain_extension::FromStatusCode"]);
        let ih = self.head(vec![], "");
        out.push(Item::Raw(Raw {
            h: ih,
            text: format!("impl {q} for {err_name} {{\n    fn from_status_code(status_code: u32) -> Result<(), Self> {{\n        match status_code {{ 0 => Ok(()), _ => panic!(\"x\") }}\n    }}\n}}"),
        }));
        let attrs = if self.v == Ver::V5 {
            let s = self.int(ext_id);
            let a = self.arg("extension", Some(s));
            self.spell("ink::chain_extension", vec![a], &[("allow", "(unused)")])
        } else {
            self.spell("ink::chain_extension", vec![], &[("allow", "(unused)")])
        };
        let mut items = vec![];
        let th = self.head(vec![], "");
        items.push(Item::Type(TypeItem { h: th, name: "ErrorCode".into(), generics: "".into(), bounds: "".into(), val: Some(err_name.clone()) }));
        let n = self.count(0, 4);
        let mut used = std::collections::HashSet::new();
        for _ in 0..n {
            let id = loop {
                let x = match self.r.below(3) {
                    0 => self.r.below(5) as u32,
                    1 => self.r.below(0x10000) as u32,
                    _ => if self.v == Ver::V5 { *self.r.pick(&[0u32, 0xFFFF, 1, 0x8000]) } else { *self.r.pick(&[0u32, 0xFFFF_FFFF, 0x1_0000, 0x8000_0000]) },
                };
                if used.insert(x) {
                    break x;
                }
            };
            let f = self.ext_fn(id, &custom, &err_name);
            items.push(Item::Fn(f));
        }
        if self.r.pct(30) {
            let k = items.len();
            let i = self.r.below(k);
            items.swap(0, i);
        }
        let h = self.head(attrs, "pub");
        let name = self.camel();
        let t = Item::Trait(Trait { h, quals: "".into(), name, generics: "".into(), supers: "".into(), items });
        if self.r.pct(40) {
            out.insert(0, t);
        } else {
            out.push(t);
        }
        out
    }
    pub fn keep_attr(&mut self) -> Arg {
        let s = self.string("foo,bar");
        self.arg("keep_attr", Some(s))
    }
    pub fn trait_definition(&mut self) -> (Trait, TraitInfo) {
        self.feat("trait_definition");
        let mut args = vec![];
        let mut namespace = None;
        if self.r.pct(30) {
            let n = self.snake();
            let s = self.string(&n);
            args.push(self.arg("namespace", Some(s)));
            namespace = Some(n);
        }
        if self.r.pct(20) {
            args.push(self.keep_attr());
        }
        self.r.shuffle(&mut args);
        let attrs = self.spell("ink::trait_definition", args, &[("allow", "(unused)")]);
        let h = self.head(attrs, "pub");
        let n = self.count(1, 3);
        let msgs: Vec<Func> = (0..n).map(|_| self.message("", true)).collect();
        let name = self.camel();
        let info = TraitInfo { id: h.id, name: name.clone(), path: name.clone(), uses: None, msgs: msgs.clone(), namespace };
        (Trait { h, quals: "".into(), name, generics: "".into(), supers: "".into(), items: msgs.into_iter().map(Item::Fn).collect() }, info)
    }
    /// Implementation of a trait definition: same arguments, other spelling.
    pub fn trait_impl(&mut self, t: &TraitInfo, storage: &str) -> Impl {
        self.feat("trait_impl");
        let mut items: Vec<Item> = vec![];
        for m in &t.msgs {
            let mut args: Vec<Arg> = m.h.attrs.iter().filter(|a| a.is_ink()).flat_map(|a| a.args.clone().unwrap_or_default()).collect();
            for a in &mut args {
                a.id = self.id();
            }
            let mut rest = args.split_off(1);
            self.r.shuffle(&mut rest);
            args.append(&mut rest);
            let attrs = self.spell("ink", args, &[("inline", "")]);
            let h = self.head(attrs, "");
            let mut f = m.clone();
            f.h = h;
            f.body = Some(self.body());
            items.push(Item::Fn(f));
        }
        if self.r.pct(30) {
            self.r.shuffle(&mut items);
        }
        let attrs = if self.r.pct(15) { let a = self.flag("impl"); self.spell("ink", vec![a], &[]) } else { vec![] };
        let h = self.head(attrs, "");
        Impl { h, quals: "".into(), generics: "".into(), trait_path: Some(t.path.clone()), self_ty: storage.into(), items }
    }
    pub fn raw(&mut self, text: &str) -> Item {
        let h = self.head(vec![], "");
        Item::Raw(Raw { h, text: text.into() })
    }
    pub fn helper_item(&mut self) -> Item {
        let n = self.snake();
        let c = camel(&n);
        match self.r.below(8) {
            0 => self.raw(&format!("const {}: u32 = 5;", n.to_uppercase())),
            1 => self.raw(&format!("pub type {c} = core::result::Result<u32, ()>;")),
            2 => self.raw(&format!("#[derive(Debug, Clone)]\npub enum {c} {{\n    A,\n    B(u8),\n}}")),
            3 => self.raw(&format!("fn {n}(a: u32) -> u32 {{\n    a + 1\n}}")),
            4 => self.raw(&format!("#[allow(dead_code)]\nstruct {c}<T> {{\n    x: T,\n}}\n\nimpl<T> {c}<T> {{\n    fn f(&self) {{}}\n}}")),
            5 => self.raw(&format!("trait {c} {{\n    fn g(&self) -> u32;\n}}")),
            6 => self.raw(&format!("macro_rules! {n} {{\n    ($x:expr) => {{ $x }};\n}}")),
            _ => self.raw(&format!("mod {n} {{\n    pub fn h() {{}}\n}}")),
        }
    }
    pub fn tests_mod(&mut self) -> Item {
        self.feat("tests");
        let at = self.raw_attr("cfg", "(test)");
        let mut items = vec![self.raw("use super::*;")];
        for _ in 0..self.count(0, 3) {
            let attrs = self.spell("ink::test", vec![], &[("should_panic", ""), ("ignore", "")]);
            let h = self.head(attrs, "");
            let name = self.snake();
            let body = Some(self.body());
            items.push(Item::Fn(Func { h, quals: "".into(), name, generics: "".into(), self_param: None, params: vec![], variadic: false, ret: None, body }));
        }
        if self.r.pct(40) {
            items.push(self.raw("#[test]\nfn it_works_() {\n    assert_eq!(1, 1);\n}"));
        }
        let h = self.head(vec![at], "");
        Item::Mod(Mod { h, name: "tests".into(), items: Some(items) })
    }
    pub fn e2e_args(&mut self, env: &Option<String>) -> Vec<Arg> {
        let mut args = vec![];
        if self.v == Ver::V4 {
            if self.r.pct(30) {
                let s = self.string("adder/Cargo.toml flipper/Cargo.toml");
                args.push(self.arg("additional_contracts", Some(s)));
            }
            if self.r.pct(15) {
                args.push(self.keep_attr());
            }
        } else if self.r.pct(35) {
            self.feat("backend");
            let inner = if self.r.pct(50) {
                let mut node = self.flag("node");
                if self.r.pct(50) {
                    let s = self.string("ws://127.0.0.1:9944");
                    node.nested = Some(Box::new(self.arg("url", Some(s))));
                }
                node
            } else {
                let mut ro = self.flag("runtime_only");
                if self.r.pct(50) {
                    let s = self.r.picks(&["MySandbox", "ink_e2e::MinimalSandbox", "crate::sandbox::MySandbox"]);
                    ro.nested = Some(Box::new(self.arg("sandbox", Some(s))));
                }
                ro
            };
            let mut b = self.flag("backend");
            b.nested = Some(Box::new(inner));
            args.push(b);
        }
        if self.r.pct(30) {
            let p = match env {
                Some(n) if self.r.pct(50) => n.clone(),
                _ => "ink::env::DefaultEnvironment".to_string(),
            };
            args.push(self.arg("environment", Some(p)));
        }
        self.r.shuffle(&mut args);
        args
    }
    pub fn e2e_mod(&mut self, env: &Option<String>) -> Item {
        self.feat("e2e");
        let at = self.raw_attr("cfg", "(all(test, feature = \"e2e-tests\"))");
        let mut items = vec![self.raw("use super::*;"), self.raw("type E2EResult<T> = std::result::Result<T, Box<dyn std::error::Error>>;")];
        for _ in 0..self.r.range(1, 2) {
            let args = self.e2e_args(env);
            let attrs = self.spell("ink_e2e::test", args, &[("ignore", "")]);
            let h = self.head(attrs, "");
            let name = self.snake();
            let (g, p) = if self.v == Ver::V5 { ("<Client: E2EBackend>", ("mut client", "Client")) } else { ("", ("mut client", "ink_e2e::Client<C, E>")) };
            items.push(Item::Fn(Func {
                h,
                quals: "async".into(),
                name,
                generics: g.into(),
                self_param: None,
                params: vec![(p.0.into(), p.1.into())],
                variadic: false,
                ret: Some("E2EResult<()>".into()),
                body: Some("Ok(())".into()),
            }));
        }
        let h = self.head(vec![at], "");
        Item::Mod(Mod { h, name: "e2e_tests".into(), items: Some(items) })
    }
    pub fn environment(&mut self) -> (Vec<Item>, String) {
        let name = self.camel();
        let a = self.raw(&format!("#[derive(Debug, Clone, PartialEq, Eq)]\npub enum {name} {{}}"));
        let q = self.r.picks(&["ink::env::Environment", "::ink::env::Environment", "ink_env::Environment"]);
        let b = self.raw(&format!("impl {q} for {name} {{\n    const MAX_EVENT_TOPICS: usize = 3;\n    type AccountId = [u8; 32];\n    type Balance = u128;\n}}"));
        (vec![a, b], name)
    }
    pub fn ink_impl(&mut self, storage: &str, items: Vec<Item>) -> Impl {
        let mut args = vec![];
        match self.r.below(6) {
            0 => {
                let n = self.snake();
                let s = self.string(&n);
                self.feat("namespace");
                args.push(self.arg("namespace", Some(s)));
            }
            1 => args.push(self.flag("impl")),
            2 => {
                let n = self.snake();
                let s = self.string(&n);
                self.feat("namespace");
                let i = self.flag("impl");
                let ns = self.arg("namespace", Some(s));
                args.push(i);
                args.push(ns);
            }
            _ => (),
        }
        let attrs = if args.is_empty() { vec![] } else { self.spell("ink", args, &[("allow", "(unused)")]) };
        let h = self.head(attrs, "");
        Impl { h, quals: "".into(), generics: "".into(), trait_path: None, self_ty: storage.into(), items }
    }
    /// The whole program.
    pub fn program(mut self) -> Prog {
        self.plain = true;
        let mut root: Vec<Item> = vec![];
        let mut traits: Vec<TraitInfo> = vec![];
        let mut inner_items: Vec<Item> = vec![];
        let rich = self.o.rich;
        if rich && self.r.pct(40) {
            root.push(self.raw("use ink::prelude::{string::String, vec::Vec};"));
        }
        for _ in 0..self.r.below(2) {
            let h = self.helper_item();
            root.push(h);
        }
        // environment
        let mut env_arg = None;
        let mut env_name = None;
        if rich && self.r.pct(25) {
            let (items, n) = self.environment();
            self.feat("custom_env");
            if self.r.pct(50) {
                root.extend(items);
                env_name = Some(format!("crate::{n}"));
                env_arg = Some(self.r.picks(&[&format!("crate::{n}"), &format!("super::{n}")]));
            } else {
                let m = self.snake();
                let h = self.head(vec![], "pub");
                env_arg = Some(self.r.picks(&[&format!("crate::{m}::{n}"), &format!("super::{m}::{n}")]));
                env_name = Some(format!("crate::{m}::{n}"));
                root.push(Item::Mod(Mod { h, name: m, items: Some(items) }));
            }
        } else if self.r.pct(10) {
            env_arg = Some(self.r.picks(&["ink::env::DefaultEnvironment", "::ink::env::DefaultEnvironment", "ink_env::DefaultEnvironment"]));
        }
        if self.o.chain_ext && self.r.pct(35) {
            let id = self.r.below(3) as u32;
            let v = self.chain_extension(id);
            if self.r.pct(30) {
                let h = self.head(vec![], "pub");
                let m = self.snake();
                root.push(Item::Mod(Mod { h, name: m, items: Some(v) }));
            } else {
                root.extend(v);
            }
            if self.r.pct(15) {
                let v = self.chain_extension(id + 1);
                root.extend(v);
            }
        }
        let storage = self.camel();
        if self.o.traits {
            for _ in 0..self.count(0, 2) {
                let (t, mut info) = self.trait_definition();
                match self.r.below(4) {
                    0 => {
                        info.path = self.r.picks(&[&format!("super::{}", info.name), &format!("crate::{}", info.name)]);
                        root.push(Item::Trait(t));
                    }
                    1 => {
                        info.uses = Some(self.r.picks(&[&format!("use super::{};", info.name), &format!("use crate::{};", info.name)]));
                        root.push(Item::Trait(t));
                    }
                    2 => inner_items.push(Item::Trait(t)),
                    _ => {
                        let m = self.snake();
                        let h = self.head(vec![], "pub");
                        if self.r.pct(50) {
                            info.path = format!("{}::{m}::{}", self.r.picks(&["super", "crate"]), info.name);
                        } else {
                            info.uses = Some(format!("use {}::{m}::{};", self.r.picks(&["super", "crate"]), info.name));
                        }
                        root.push(Item::Mod(Mod { h, name: m, items: Some(vec![Item::Trait(t)]) }));
                    }
                }
                traits.push(info);
            }
        }
        if rich && self.r.pct(25) {
            let s = self.storage_item();
            root.push(Item::Adt(s));
        }
        if self.v == Ver::V5 && self.o.events && self.r.pct(30) {
            for _ in 0..self.count(1, 2) {
                let e = self.event(true);
                root.push(Item::Adt(e));
            }
        }
        let mut contract = None;
        if self.o.contract {
            let c = self.contract(&storage, inner_items, &traits, env_arg, &env_name);
            contract = Some(c.h().id);
            if self.r.pct(30) && !root.is_empty() {
                let i = self.r.below(root.len() + 1);
                root.insert(i, c);
            } else {
                root.push(c);
            }
        } else {
            root.extend(inner_items);
        }
        if rich && self.r.pct(10) {
            let t = self.tests_mod();
            root.push(t);
        }
        if self.r.pct(20) {
            let h = self.helper_item();
            root.push(h);
        }
        let mut f = File { inner: vec![], items: root, next_id: self.next };
        if self.r.pct(80) {
            f.inner.push("#![cfg_attr(not(feature = \"std\"), no_std, no_main)]".into());
        }
        if self.r.pct(15) {
            f.inner.insert(0, "//! Crate docs — ünïcode.".into());
        }
        Prog { v: self.v, file: f, contract, storage, features: self.features }
    }
    pub fn contract(&mut self, storage: &str, inner: Vec<Item>, traits: &[TraitInfo], env_arg: Option<String>, env_name: &Option<String>) -> Item {
        let mut args = vec![];
        if let Some(e) = env_arg {
            args.push(self.arg("env", Some(e)));
        }
        if self.r.pct(15) {
            args.push(self.keep_attr());
        }
        self.r.shuffle(&mut args);
        let attrs = self.spell("ink::contract", args, &[("allow", "(unused)"), ("cfg", "(not(feature = \"z\"))")]);
        let vis = self.r.picks(&["", "pub", ""]);
        let h = self.head(attrs, &vis);
        let name = self.snake();
        let mut head_items: Vec<Item> = vec![];
        for t in traits {
            if let Some(u) = &t.uses {
                let u = self.raw(u);
                head_items.push(u);
            }
        }
        if self.r.pct(30) {
            head_items.push(self.raw("use ink::storage::Mapping;"));
        }
        let mut items: Vec<Item> = inner;
        // codec types usable in signatures
        for _ in 0..self.r.below(2) {
            let t = self.scale_type("pub");
            self.custom.push(t.name.clone());
            items.push(Item::Adt(t));
        }
        let s = self.storage(storage);
        items.push(Item::Adt(s));
        if self.o.events {
            for _ in 0..self.count(0, 2) {
                let sa = self.v == Ver::V5 && self.r.pct(40);
                let e = self.event(sa);
                items.push(Item::Adt(e));
            }
        }
        if self.o.rich && self.r.pct(25) {
            let x = self.storage_item();
            items.push(Item::Adt(x));
        }
        for _ in 0..self.r.below(3) {
            let x = self.helper_item();
            items.push(x);
        }
        // callables
        let mut ctors: Vec<Func> = (0..self.count(1, 3)).map(|_| self.constructor("pub")).collect();
        if self.o.wildcards && self.r.pct(10) {
            self.feat("wildcard-ctor");
            self.set_selector(&mut ctors[0], "_");
        }
        let wild = self.o.wildcards && self.r.pct(12);
        let mut msgs: Vec<Func> = vec![];
        let mut impl_traits: Vec<&TraitInfo> = vec![];
        if wild && self.v == Ver::V5 {
            self.feat("wildcard-complement");
            let mut a = self.message("pub", false);
            let mut b = self.message("pub", false);
            self.set_selector(&mut a, "_");
            let c = self.r.picks(&["@"]);
            self.set_selector(&mut b, &c);
            msgs.push(a);
            msgs.push(b);
            self.r.shuffle(&mut msgs);
        } else {
            impl_traits = traits.iter().filter(|_| self.r.pct(80)).collect();
            let lo = if impl_traits.is_empty() { 1 } else { 0 };
            msgs = (0..self.count(lo, 4)).map(|_| self.message("pub", false)).collect();
            if wild && !msgs.is_empty() {
                self.feat("wildcard");
                let i = self.r.below(msgs.len());
                self.set_selector(&mut msgs[i], "_");
            }
        }
        // spread over impl blocks
        let nb = self.count(1, 3);
        let mut blocks: Vec<Vec<Item>> = vec![vec![]; nb];
        for c in ctors {
            let i = self.r.below(nb);
            blocks[i].push(Item::Fn(c));
        }
        for m in msgs {
            let i = self.r.below(nb);
            blocks[i].push(Item::Fn(m));
        }
        for b in blocks.iter_mut() {
            if self.r.pct(35) {
                let f = self.plain_fn();
                b.push(Item::Fn(f));
            }
            if self.r.pct(40) {
                self.r.shuffle(b);
            }
            if self.r.pct(10) {
                let n = self.snake().to_uppercase();
                let r = self.raw(&format!("const {n}: u32 = 3;"));
                b.insert(0, r);
            }
        }
        for b in blocks {
            let has = b.iter().any(|x| x.h().ink().next().is_some());
            let im = if has { self.ink_impl(storage, b) } else {
                let h = self.head(vec![], "");
                Impl { h, quals: "".into(), generics: "".into(), trait_path: None, self_ty: storage.into(), items: b }
            };
            items.push(Item::Impl(im));
        }
        for t in impl_traits {
            let im = self.trait_impl(t, storage);
            items.push(Item::Impl(im));
        }
        if self.r.pct(20) {
            let r = self.raw(&format!("impl Default for {storage} {{\n    fn default() -> Self {{\n        todo!()\n    }}\n}}"));
            items.push(r);
        }
        if self.r.pct(30) {
            self.r.shuffle(&mut items);
        }
        if self.o.rich && self.r.pct(40) {
            let t = self.tests_mod();
            items.push(t);
        }
        if self.o.e2e && self.r.pct(35) {
            let t = self.e2e_mod(env_name);
            items.push(t);
        }
        head_items.extend(items);
        Item::Mod(Mod { h, name, items: Some(head_items) })
    }
    pub fn set_selector(&mut self, f: &mut Func, val: &str) {
        if let Some(a) = f.h.arg_mut("selector") {
            a.value = Some(val.into());
        } else {
            let a = self.arg("selector", Some(val.into()));
            if let Some(at) = f.h.attrs.iter_mut().rev().find(|a| a.path == "ink") {
                at.args.get_or_insert(vec![]).push(a);
            }
        }
    }
}

pub fn program(r: &mut Rng, v: Ver, o: Opts) -> Prog {
    G::new(r, v, o).program()
}

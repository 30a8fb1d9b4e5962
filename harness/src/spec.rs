//! The ink! attribute language as the ink! 4/5 documentation defines it: which macros and arguments
//! exist, where they go, what goes together and what values they take. Independent of the analyzer.
use crate::ast::{Attr, Head, Item};
use crate::gen::Ver::{self, V4, V5};

pub const MACROS: &[&str] = &[
    "ink::chain_extension", "ink::contract", "ink::event", "ink::scale_derive", "ink::storage_item", "ink::test", "ink::trait_definition", "ink_e2e::test",
];
pub const ARGS: &[&str] = &[
    "additional_contracts", "anonymous", "backend", "constructor", "Decode", "default", "derive", "Encode", "env", "environment", "event", "extension", "function",
    "handle_status", "impl", "keep_attr", "message", "namespace", "node", "payable", "runtime_only", "sandbox", "selector", "signature_topic", "storage", "topic",
    "TypeInfo", "url",
];
pub fn entity(a: &str) -> bool {
    matches!(a, "constructor" | "event" | "extension" | "function" | "impl" | "message" | "storage" | "topic")
}

/// What an attribute is, decided by its most significant part.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Mac(String),
    Arg(String),
    Unknown,
}

pub fn rank(a: &str) -> u32 {
    if entity(a) { 0 } else if ARGS.contains(&a) { 1 } else { 10 }
}

pub fn kind(a: &Attr) -> Kind {
    if a.path != "ink" {
        return if MACROS.contains(&a.path.as_str()) { Kind::Mac(a.path.clone()) } else { Kind::Unknown };
    }
    let Some(args) = &a.args else { return Kind::Unknown };
    match args.iter().min_by_key(|x| rank(&x.name)) {
        Some(x) if rank(&x.name) < 10 => Kind::Arg(x.name.clone()),
        _ => Kind::Unknown,
    }
}

/// Arguments that may accompany an attribute.
pub fn siblings(k: &Kind, v: Ver) -> &'static [&'static str] {
    match k {
        Kind::Mac(m) => match (m.as_str(), v) {
            ("ink::chain_extension", V5) => &["extension"],
            ("ink::contract", _) => &["env", "keep_attr"],
            ("ink::event", V5) => &["anonymous", "signature_topic"],
            ("ink::storage_item", _) => &["derive"],
            ("ink::trait_definition", _) => &["keep_attr", "namespace"],
            ("ink_e2e::test", V5) => &["backend", "environment"],
            ("ink_e2e::test", V4) => &["additional_contracts", "environment", "keep_attr"],
            ("ink::scale_derive", V5) => &["Encode", "Decode", "TypeInfo"],
            _ => &[],
        },
        Kind::Arg(a) => match (a.as_str(), v) {
            ("event", V5) => &["anonymous", "signature_topic"],
            ("event", V4) => &["anonymous"],
            ("signature_topic", V5) => &["event"],
            ("anonymous", _) => &["event"],
            ("impl", _) => &["namespace"],
            ("constructor" | "message", _) => &["default", "payable", "selector"],
            ("env", _) => &["keep_attr"],
            ("extension", V4) => &["handle_status"],
            ("function", V5) => &["handle_status"],
            ("keep_attr", _) => &["env", "namespace"],
            ("namespace", _) => &["keep_attr", "impl"],
            ("handle_status", V5) => &["function"],
            ("handle_status", V4) => &["extension"],
            ("payable", _) => &["constructor", "default", "message", "selector"],
            ("default", _) => &["constructor", "message", "payable", "selector"],
            ("selector", _) => &["constructor", "default", "message", "payable"],
            _ => &[],
        },
        Kind::Unknown => &[],
    }
}

pub fn args_by_kind(item: &str, v: Ver) -> &'static [&'static str] {
    match (item, v) {
        ("struct", V5) => &["anonymous", "event", "signature_topic", "storage"],
        ("struct", V4) => &["anonymous", "event", "storage"],
        ("field", _) => &["topic"],
        ("fn", V5) => &["constructor", "default", "function", "handle_status", "message", "payable", "selector"],
        ("fn", V4) => &["constructor", "default", "extension", "handle_status", "message", "payable", "selector"],
        ("impl", _) => &["impl", "namespace"],
        _ => &[],
    }
}

pub fn macros_by_kind(item: &str, v: Ver) -> &'static [&'static str] {
    match (item, v) {
        ("mod", _) => &["ink::contract"],
        ("trait", _) => &["ink::chain_extension", "ink::trait_definition"],
        ("struct", V5) => &["ink::event", "ink::scale_derive", "ink::storage_item"],
        ("enum" | "union", V5) => &["ink::scale_derive", "ink::storage_item"],
        ("struct" | "enum" | "union", V4) => &["ink::storage_item"],
        ("fn", _) => &["ink::test", "ink_e2e::test"],
        _ => &[],
    }
}

/// Arguments allowed on items directly inside an item with this attribute.
pub fn scope_args(k: &Kind, v: Ver) -> &'static [&'static str] {
    match k {
        Kind::Mac(m) => match (m.as_str(), v) {
            ("ink::chain_extension", V5) => &["function", "handle_status"],
            ("ink::chain_extension", V4) => &["extension", "handle_status"],
            ("ink::contract", V5) => &["anonymous", "constructor", "default", "event", "impl", "message", "namespace", "payable", "selector", "signature_topic", "storage"],
            ("ink::contract", V4) => &["anonymous", "constructor", "default", "event", "impl", "message", "namespace", "payable", "selector", "storage"],
            ("ink::event", V5) => &["topic"],
            ("ink::trait_definition", _) => &["default", "message", "payable", "selector"],
            _ => &[],
        },
        Kind::Arg(a) => match (a.as_str(), v) {
            ("event" | "anonymous", _) | ("signature_topic", V5) => &["topic"],
            ("impl" | "namespace", _) => &["constructor", "default", "message", "payable", "selector"],
            _ => &[],
        },
        Kind::Unknown => &[],
    }
}

pub fn scope_macros(k: &Kind, v: Ver) -> &'static [&'static str] {
    match (k, v) {
        (Kind::Mac(m), _) if m == "ink::contract" => {
            if v == V5 {
                &["ink::chain_extension", "ink::event", "ink::scale_derive", "ink::storage_item", "ink::test", "ink::trait_definition", "ink_e2e::test"]
            } else {
                &["ink::chain_extension", "ink::storage_item", "ink::test", "ink::trait_definition", "ink_e2e::test"]
            }
        }
        (Kind::Mac(m), V5) if matches!(m.as_str(), "ink::chain_extension" | "ink::trait_definition" | "ink::test" | "ink_e2e::test") => &["ink::scale_derive"],
        (Kind::Arg(a), V5) if !matches!(a.as_str(), "storage" | "event" | "anonymous" | "signature_topic") => &["ink::scale_derive"],
        _ => &[],
    }
}

/// (type shown for the argument's value, extra detail)
pub fn value(a: &str, v: Ver, ctor: bool) -> Option<(&'static str, Option<&'static str>)> {
    Some(match (a, v) {
        ("additional_contracts", _) => ("&str", Some("A space separated list.")),
        ("keep_attr", _) => ("&str", Some("A comma separated list.")),
        ("namespace", _) => ("&str", Some("A valid Rust identifier.")),
        ("signature_topic", _) => ("&str", Some("A 32 byte hex string.")),
        ("url", _) => ("&str", Some("A URL.")),
        ("backend", _) => ("node | runtime_only", Some("node | runtime_only")),
        ("env" | "environment", _) => ("impl Environment", Some("A `ink::env::Environment` implementation.")),
        ("sandbox", _) => ("impl drink::Sandbox", Some("A `drink::Sandbox` implementation.")),
        ("extension", V4) => ("u32", None),
        ("extension", V5) | ("function", _) => ("u16", None),
        ("handle_status" | "derive", _) => ("bool", None),
        ("selector", V5) if !ctor => ("u32 | _ | @", None),
        ("selector", _) => ("u32 | _", None),
        _ => return None,
    })
}

pub fn v5_only(a: &str) -> bool {
    matches!(a, "backend" | "Decode" | "Encode" | "TypeInfo" | "function" | "node" | "runtime_only" | "sandbox" | "signature_topic" | "url")
}

/// Phrases that the documentation of a macro contains (`None`: not documented in this version).
pub fn macro_doc(m: &str, v: Ver) -> Option<Vec<&'static str>> {
    Some(match (m, v) {
        ("ink::chain_extension", V4) => vec!["`#[ink::chain_extension]`", "#[ink(extension"],
        ("ink::chain_extension", V5) => vec!["`#[ink::chain_extension]`", "#[ink(function"],
        ("ink::contract", _) => vec!["`#[ink::contract]`"],
        ("ink::event", V5) => vec!["`#[ink::event]`"],
        ("ink::scale_derive", V5) => vec!["`#[ink::scale_derive]`"],
        ("ink::storage_item", _) => vec!["`#[ink::storage_item]`"],
        ("ink::test", _) => vec!["`#[ink::test]`"],
        ("ink::trait_definition", _) => vec!["`#[ink::trait_definition]`"],
        ("ink_e2e::test", _) => vec!["`#[ink_e2e::test]`"],
        _ => return None,
    })
}

pub fn arg_doc(a: &str, v: Ver, e2e: bool) -> Option<Vec<&'static str>> {
    Some(match (a, v) {
        ("additional_contracts", V5) => vec!["`additional_contracts` is deprecated"],
        ("additional_contracts", V4) => vec!["`#[ink_e2e::test(additional_contracts = S: string)]`"],
        ("anonymous", V5) => vec!["`#[ink::event(anonymous)]`"],
        ("anonymous", V4) => vec!["\n`#[ink(anonymous)]`"],
        ("backend" | "node" | "url" | "runtime_only" | "sandbox", V5) => vec!["`#[ink_e2e::test(backend(node|runtime_only))]`"],
        ("constructor", _) => vec!["\n`#[ink(constructor)]`"],
        ("Decode", V5) => vec!["`#[ink::scale_derive(Decode)]`"],
        ("Encode", V5) => vec!["`#[ink::scale_derive(Encode)]`"],
        ("TypeInfo", V5) => vec!["`#[ink::scale_derive(TypeInfo)]`"],
        ("default", _) => vec!["\n`#[ink(default)]`"],
        ("derive", _) => vec!["`#[ink::storage_item(derive = flag: bool)]`"],
        ("env" | "environment", _) => vec!["`#[ink::contract(env = E: impl Environment)]`", "`#[ink_e2e::test(environment = E: impl Environment)]`"],
        ("event", _) => vec!["\n`#[ink(event)]`"],
        ("extension", V4) => vec!["`#[ink(extension = N: u32)]`"],
        ("extension", V5) => vec!["`#[ink::chain_extension(extension = N: u16)]`"],
        ("function", V5) => vec!["`#[ink(function = N: u16)]`"],
        ("handle_status", _) => vec!["`#[ink(handle_status = flag: bool)]`"],
        ("impl", _) => vec!["\n`#[ink(impl)]`"],
        ("keep_attr", V5) if e2e => vec!["`keep_attr` for `ink_e2e::test`", "deprecated"],
        ("keep_attr", V5) => vec!["`#[ink::contract(keep_attr = N: string)]` or `#[ink::trait_definition(keep_attr = N: string)]`\n"],
        ("keep_attr", V4) => vec!["`#[ink::contract(keep_attr = N: string)]`", "`#[ink_e2e::test(keep_attr = N: string)]`"],
        ("message", _) => vec!["\n`#[ink(message)]`"],
        ("namespace", _) => vec!["`#[ink(namespace = N: string)]`"],
        ("payable", _) => vec!["\n`#[ink(payable)]`"],
        ("selector", V4) => vec!["`#[ink(selector = S: u32 | _)]`"],
        ("selector", V5) => vec!["`#[ink(selector = S: u32 | _ | @)]`"],
        ("signature_topic", V5) => vec!["`#[ink::event(signature_topic = S: string)]`"],
        ("storage", _) => vec!["\n`#[ink(storage)]`"],
        ("topic", V4) => vec!["\n`#[ink(topic)]`"],
        ("topic", V5) => vec!["\n`#[ink(topic)]`", "#[ink::event]"],
        _ => return None,
    })
}

/// The attributes of the closest enclosing item that has ink! attributes.
pub fn scope<'a>(st: &[&'a Item]) -> Option<&'a Head> {
    st.iter().rev().map(|x| x.h()).find(|h| h.ink().next().is_some())
}

/// Enclosing items whose only say are arguments of macros they are not next to: not specified.
pub fn odd_scope(st: &[&Item]) -> bool {
    scope(st).map_or(false, |h| h.ink().any(|a| matches!(kind(a), Kind::Arg(x) if x == "env" || x == "keep_attr")))
}

/// The item's most significant ink! attribute: macros first, then entities, then the rest.
pub fn primary(h: &Head) -> Option<&Attr> {
    h.ink().filter(|a| kind(a) != Kind::Unknown).min_by_key(|a| match kind(a) {
        Kind::Mac(_) => 0,
        Kind::Arg(x) => 1 + rank(&x),
        Kind::Unknown => 99,
    })
}

/// Arguments that can be added to an item, given all its attributes and its scope.
/// `k`: the attribute that is extended (or the item's primary one); `None`: by item kind.
pub fn addable_args(h: &Head, item: &str, st: &[&Item], v: Ver, k: Option<&Kind>, in_trait_impl: bool) -> Vec<&'static str> {
    let mut s: Vec<&'static str> = match k {
        Some(k) => siblings(k, v).to_vec(),
        None => args_by_kind(item, v).to_vec(),
    };
    let present = |n: &str| h.ink().any(|a| a.args.as_ref().map_or(false, |x| x.iter().any(|y| y.name == n)));
    s.retain(|x| !present(x));
    if let Some(p) = primary(h) {
        let ok = siblings(&kind(p), v);
        s.retain(|x| ok.contains(x));
        if v == V5 {
            s.retain(|x| !(*x == "signature_topic" && present("anonymous")) && !(*x == "anonymous" && present("signature_topic")));
        }
    }
    if in_trait_impl {
        s.retain(|x| *x != "namespace");
    }
    if !matches!(k, Some(Kind::Mac(_))) {
        if let Some(sc) = scope(st) {
            let ok: Vec<&str> = sc.ink().flat_map(|a| scope_args(&kind(a), v).iter().copied()).collect();
            if !ok.is_empty() {
                s.retain(|x| ok.contains(x));
            }
        }
    }
    s
}

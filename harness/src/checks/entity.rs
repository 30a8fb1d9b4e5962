//! E03: inserting an ink! entity adds exactly that entity.

use crate::api::{self, Edit};
use crate::ast::*;
use crate::checks::fix::syntax_errors;
use crate::gen::{self, Opts, Prog, Ver};
use crate::lex::{self, Style, Tok};
use crate::rng::Rng;
use crate::run::Ctx;
use ink_analyzer_ir as ir;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Place {
    Root,
    Contract,
    Tests,
    E2e,
    Inherent,
    TraitDef,
    ChainExt,
    Event,
    /// Nothing can be added here.
    Other,
}

fn place(it: &Item, st: &[&Item]) -> Option<Place> {
    let h = it.h();
    let cfg = |s: &str| h.attrs.iter().any(|a| a.path == "cfg" && a.raw.as_deref().map_or(false, |r| r.contains(s)));
    Some(match it {
        Item::Mod(m) if m.items.is_some() => {
            if h.mac("ink::contract").is_some() {
                Place::Contract
            } else if cfg("e2e-tests") {
                Place::E2e
            } else if cfg("test") {
                Place::Tests
            } else {
                Place::Other
            }
        }
        Item::Impl(x) => {
            let ink = h.ink().next().is_some() || x.items.iter().any(|c| c.h().arg("constructor").is_some() || c.h().arg("message").is_some());
            if x.trait_path.is_none() && (ink || st.last().map_or(false, |p| p.h().mac("ink::contract").is_some())) {
                Place::Inherent
            } else {
                Place::Other
            }
        }
        Item::Trait(_) if h.mac("ink::trait_definition").is_some() => Place::TraitDef,
        Item::Trait(_) if h.mac("ink::chain_extension").is_some() => Place::ChainExt,
        Item::Trait(_) => Place::Other,
        Item::Adt(x) if x.kw == "struct" && matches!(x.shape, Shape::Record) => {
            if h.mac("ink::event").is_some() || h.arg("event").is_some() {
                Place::Event
            } else {
                Place::Other
            }
        }
        _ => return None,
    })
}

/// How many of each entity there are.
fn counts(text: &str) -> BTreeMap<&'static str, i64> {
    let f = ir::InkFile::parse(text);
    let mut m = BTreeMap::new();
    let mut put = |k: &'static str, n: usize| *m.entry(k).or_insert(0) += n as i64;
    put("contract", f.contracts().len());
    put("storage_item", f.storage_items().len());
    put("event_v2", f.events_v2().len());
    put("trait_definition", f.trait_definitions().len());
    put("chain_extension", f.chain_extensions().len());
    for t in f.trait_definitions() {
        put("message", t.messages().len());
    }
    for t in f.chain_extensions() {
        put("extension", t.extensions().len());
        put("function", t.functions().len());
        put("error_code", t.error_code().is_some() as usize);
    }
    for e in f.events_v2() {
        put("topic", e.topics().len());
    }
    put("test", f.tests().len());
    put("e2e_test", f.e2e_tests().len());
    for c in f.contracts() {
        put("storage", c.storage().is_some() as usize);
        put("event", c.events().len());
        for e in c.events() {
            put("topic", e.topics().len());
        }
        put("constructor", c.constructors().len());
        put("message", c.messages().len());
        put("test", c.tests().len());
        put("e2e_test", c.e2e_tests().len());
    }
    m
}

/// What kind of entity an inserted text is (by its first ink! attribute).
fn kind(t: &[Tok]) -> Option<&'static str> {
    let s: Vec<&str> = t.iter().map(|t| t.text.as_str()).collect();
    let all = s.join(" ");
    if all.contains("combine_extensions !") {
        return Some("combine_extensions");
    }
    if all.contains("for MyEnvironment") {
        return Some("environment");
    }
    let table = [
        ("# [ ink ( storage )", "storage"),
        ("# [ ink ( event )", "event"),
        ("# [ ink : : event ]", "event_v2"),
        ("# [ ink ( topic )", "topic"),
        ("# [ ink ( constructor )", "constructor"),
        ("# [ ink ( message )", "message"),
        ("# [ ink ( extension =", "extension"),
        ("# [ ink ( function =", "function"),
        ("# [ ink : : test ]", "test"),
        ("# [ ink_e2e : : test ]", "e2e_test"),
        ("# [ ink : : contract ]", "contract"),
        ("# [ ink : : trait_definition ]", "trait_definition"),
        ("# [ ink : : chain_extension", "chain_extension"),
        ("# [ ink : : storage_item ]", "storage_item"),
    ];
    table.iter().filter_map(|(p, k)| all.find(p).map(|i| (i, *k))).min().map(|x| x.1).or_else(|| all.contains("type ErrorCode =").then_some("error_code"))
}

/// How the label has to name it.
fn named(label: &str, k: &str) -> bool {
    let l = label.to_lowercase();
    let w = match k {
        "event_v2" => "event",
        "e2e_test" => "e2e",
        "error_code" => "errorcode",
        "function" => return l.contains("function") || l.contains("extension"),
        x => x,
    };
    l.replace(' ', "_").contains(w)
}

/// Whether an inserted text is more than attributes.
fn is_item(t: &[Tok]) -> bool {
    let mut i = 0;
    while i + 1 < t.len() && t[i].text == "#" && t[i + 1].text == "[" {
        let mut d = 0;
        i += 1;
        while i < t.len() {
            match t[i].text.as_str() {
                "[" => d += 1,
                "]" => d -= 1,
                _ => (),
            }
            i += 1;
            if d == 0 {
                break;
            }
        }
    }
    i < t.len() && (i > 0 || t.iter().any(|x| matches!(x.text.as_str(), "fn" | "struct" | "trait" | "mod" | "type" | "enum")))
}

fn rename(p: &mut Prog, r: &mut Rng, cx: &mut Ctx) {
    // names the insertions would like to use
    let mut names: Vec<(Id, String)> = vec![];
    let mut per: BTreeMap<(Id, &str), BTreeSet<String>> = BTreeMap::new();
    p.file.walk(&mut |it, st| {
        let parent = st.last().map_or(0, |x| x.h().id);
        let in_trait_impl = matches!(st.last(), Some(Item::Impl(x)) if x.trait_path.is_some());
        let in_def = matches!(st.last(), Some(Item::Trait(_))) && st.last().unwrap().h().mac("ink::trait_definition").is_some();
        let c: &[&str] = match it {
            Item::Fn(_) if in_trait_impl || in_def => return,
            Item::Fn(_) => &["new", "my_message", "my_function", "my_extension", "it_works", "new1", "my_message1", "new2"],
            Item::Adt(x) if x.h.arg("event").is_some() || x.h.mac("ink::event").is_some() => &["Event", "Event1", "Event2"],
            _ => return,
        };
        if r.pct(35) {
            let n = r.picks(c);
            if per.entry((parent, it.kind())).or_default().insert(n.clone()) {
                names.push((it.h().id, n));
            }
        }
    });
    cx.add("names_taken", names.len() as u64);
    for (id, n) in names {
        match p.file.find_mut(id) {
            Some(Item::Fn(f)) => f.name = n,
            Some(Item::Adt(a)) => a.name = n,
            _ => (),
        }
    }
    p.file.walk_mut(&mut |it| {
        if let Item::Adt(a) = it {
            if a.h.mac("ink::event").is_some() || a.h.arg("event").is_some() {
                let mut taken = BTreeSet::new();
                for f in &mut a.fields {
                    if !f.name.is_empty() && r.pct(30) {
                        let n = r.picks(&["my_topic", "my_topic1", "my_topic2"]);
                        if taken.insert(n.clone()) {
                            f.name = n;
                        }
                    }
                }
            }
        }
    });
}

pub fn e03(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("e03");
    let v = super::diag::pick_ver(&mut r);
    let o = Opts { contract: r.pct(85), wildcards: r.pct(30), ..Opts::default() };
    let mut p = gen::program(&mut r, v, o);
    rename(&mut p, &mut r, cx);
    // missing parts
    for it in &mut p.file.items {
        if r.pct(30) && it.h().mac("ink::contract").is_some() {
            it.children_mut().unwrap().retain(|c| c.h().arg("storage").is_none());
        }
        if r.pct(15) && it.h().mac("ink::contract").is_some() {
            it.children_mut().unwrap().retain(|c| c.kind() != "impl");
        }
    }
    let mut drop = vec![];
    p.file.walk(&mut |it, _| {
        if it.h().mac("ink::chain_extension").is_some() && r.pct(40) {
            drop.push(it.h().id)
        }
    });
    for id in drop {
        if let Some(k) = p.file.find_mut(id).and_then(|x| x.children_mut()) {
            k.retain(|c| c.name() != "ErrorCode");
        }
    }
    if r.pct(3) {
        p.file.items.clear();
        p.file.inner.clear();
    }
    let rend = p.file.render();
    let rend = if r.pct(60) { rend } else { rend.relayout(&Style { tight: false, comment_pct: 0, ..Style::random(&mut r) }, &mut r) };
    cx.seen(&rend.text);
    cx.count("programs");
    let base = rend.text.clone();
    let btoks = lex::lex(&base);
    let berrs = syntax_errors(&base).len();
    let bcounts = match api::guard(|| counts(&base)) {
        Ok(c) => c,
        Err(_) => return,
    };
    // containers
    struct C<'a> {
        pl: Place,
        it: Option<&'a Item>,
        parents: Vec<&'a Item>,
    }
    let mut cs = vec![C { pl: Place::Root, it: None, parents: vec![] }];
    p.file.walk(&mut |it, st| {
        if let Some(pl) = place(it, st) {
            cs.push(C { pl, it: Some(it), parents: st.to_vec() });
        }
    });
    for _ in 0..4 {
        let c = &cs[r.below(cs.len())];
        // gaps: before a child or before the closing brace
        let (gaps, body): (Vec<usize>, (usize, usize)) = match c.it {
            None => {
                let mut g: Vec<usize> = p.file.items.iter().skip(!p.file.inner.is_empty() as usize).map(|i| rend.whole(i.h().id).0).collect();
                g.push(base.len());
                (g, (0, base.len()))
            }
            Some(it) => {
                let (_, e) = rend.whole(it.h().id);
                let Some((d, _)) = rend.span(it.h().id, Part::Decl) else { continue };
                let Some(open) = btoks.iter().find(|t| t.start >= d && t.text == "{") else { continue };
                let mut g: Vec<usize> = match it {
                    Item::Adt(a) => a.fields.iter().map(|f| rend.whole(f.h.id).0).collect(),
                    _ => it.children().iter().map(|c| rend.whole(c.h().id).0).collect(),
                };
                g.push(e - 1);
                (g, (open.end, e - 1))
            }
        };
        let mode = r.below(5);
        let gap = if r.pct(40) { *gaps.last().unwrap() } else { *r.pick(&gaps) };
        let word = if mode == 1 { r.picks(&["struct", "fn", "trait", "mod", "type", "event", "storage", "message", "constructor", "test", "contract", "pub struct", "pub fn", "str", "ev", "mess"]) } else { String::new() };
        let indent = " ".repeat(r.below(9));
        // (text, cursor, base offset where the line was put)
        let (src, at) = if mode == 4 {
            let Some(it) = c.it else { continue };
            let s = rend.span(it.h().id, Part::Name).or_else(|| rend.span(it.h().id, Part::Decl));
            let Some((s, e)) = s else { continue };
            (base.clone(), (s, if r.pct(50) { s } else { e }))
        } else {
            let at = gap + 1 + indent.len() + word.len();
            (format!("{}\n{indent}{word}\n{}{}", &base[..gap], &indent, &base[gap..]), (at, at))
        };
        let completions = mode <= 1;
        let got: Result<Vec<(String, Vec<Edit>)>, String> = api::guard(|| {
            let a = ink_analyzer::Analysis::new(&src, v.lib());
            if completions {
                a.completions(api::size(at.0)).into_iter().map(|c| (c.label.clone(), vec![api::edit(&c.edit)])).collect()
            } else {
                a.actions(api::range(at.0, at.1)).iter().map(api::act).filter(|a| matches!(a.kind.as_str(), "Refactor" | "QuickFix")).map(|a| (a.label, a.edits)).collect()
            }
        });
        // panics are R01's concern
        let Ok(got) = got else { continue };
        let what = match mode {
            0 => "completion",
            1 => "completion-word",
            4 => "action-declaration",
            _ => "action-line",
        };
        cx.count(&format!("query:{what}:{:?}", c.pl));
        let mut kinds: BTreeSet<&str> = BTreeSet::new();
        for (label, edits) in &got {
            let Some(after) = api::apply(&src, edits) else { continue };
            let atoks = lex::lex(&after);
            // what was added to the base
            let pre = btoks.iter().zip(&atoks).take_while(|(a, b)| a.text == b.text).count();
            let post = btoks[pre..].iter().rev().zip(atoks[pre..].iter().rev()).take_while(|(a, b)| a.text == b.text).count();
            let det = |e: serde_json::Value| json!({"version": v.name(), "place": format!("{:?}", c.pl), "query": what, "word": word, "cursor": at, "label": label, "edits": format!("{edits:?}"), "observed": e, "source": src, "after": after});
            let sig = |s: &str, k: &str| format!("{s}:{what}:{:?}:{k}", c.pl);
            if pre + post != btoks.len() {
                // attribute suggestions only add to attributes
                if completions || edits.iter().any(|e| is_item(&lex::lex(&e.text))) {
                    cx.violate(&sig("code", ""), &format!("'{label}' changes existing code"), det(json!(btoks[pre..btoks.len() - post].iter().map(|t| &t.text).collect::<Vec<_>>())));
                }
                continue;
            }
            let new = &atoks[pre..atoks.len() - post];
            let ins = lex::lex(&edits.iter().map(|e| e.text.as_str()).collect::<Vec<_>>().join("\n"));
            if !is_item(&ins) {
                if completions {
                    cx.violate(&sig("nothing", ""), &format!("'{label}' adds no item"), det(json!(null)));
                }
                continue;
            }
            cx.count("insertions");
            let Some(k) = kind(&ins) else {
                cx.violate(&sig("kind", ""), &format!("'{label}' adds no ink! entity"), det(json!(null)));
                continue;
            };
            cx.count(&format!("insert:{k}"));
            if !kinds.insert(k) {
                cx.violate(&sig("twice", k), &format!("{k} is offered twice: '{label}'"), det(json!(null)));
            }
            if !named(label, k) {
                cx.violate(&sig("label", k), &format!("'{label}' adds an ink! {k}"), det(json!(null)));
            }
            // syntax
            let errs = syntax_errors(&after);
            if errs.len() > berrs {
                cx.violate(&sig("syntax", k), &format!("'{label}' leads to a syntax error: {}", errs[0]), det(json!(errs)));
                continue;
            }
            // exactly one more
            let Ok(acounts) = api::guard(|| counts(&after)) else { continue };
            let nested: &[&str] = match k {
                "contract" => &["storage", "constructor", "message", "test", "e2e_test"],
                "trait_definition" => &["message"],
                "chain_extension" => &["error_code", "extension", "function"],
                _ => &[],
            };
            // (a partly typed item may have swallowed the next one)
            let swallowed = mode == 1 && Some(&gap) != gaps.last();
            let keys: BTreeSet<&str> = acounts.keys().chain(bcounts.keys()).copied().collect();
            for x in keys {
                let d = acounts.get(x).unwrap_or(&0) - bcounts.get(x).unwrap_or(&0);
                let ok = if x == k { d == 1 } else if nested.contains(&x) { (0..=1).contains(&d) } else { d == 0 };
                if !ok && !swallowed {
                    cx.violate(&sig("count", &format!("{k}:{x}")), &format!("'{label}' changes the number of {x} entities by {d}"), det(json!([bcounts.get(x), acounts.get(x)])));
                    break;
                }
            }
            // where: offset in the base text after which it was put; tokens may be equal at the borders, so a range
            let lo = {
                let mut n = pre;
                let mut q = pre;
                // shift left while possible
                while n > 0 && !new.is_empty() && atoks[n - 1].text == atoks[n - 1 + new.len()].text {
                    n -= 1;
                }
                std::mem::swap(&mut n, &mut q);
                q
            };
            let gap_index = |off: usize| btoks.iter().take_while(|t| t.end <= off).count();
            let inside = |s: usize, e: usize| (gap_index(s)..=gap_index(e)).any(|g| lo <= g && g <= pre);
            let ok = if mode == 4 {
                let it = c.it.unwrap();
                let storage = it.children().iter().find(|x| x.h().arg("storage").is_some());
                match k {
                    "event_v2" => {
                        let w = rend.whole(it.h().id).0;
                        inside(w, w)
                    }
                    "constructor" | "message" if c.pl == Place::Contract => {
                        gaps.iter().any(|g| inside(*g, *g))
                            || (storage.is_none() && inside(body.0, body.1))
                            || it.children().iter().filter(|x| matches!(x, Item::Impl(i) if i.trait_path.is_none() && storage.map_or(true, |s| s.name() == i.self_ty))).any(|x| {
                                let (s, e) = rend.whole(x.h().id);
                                x.children().iter().map(|y| rend.whole(y.h().id).0).chain([e - 1]).any(|g| inside(g, g)) || inside(s, s)
                            })
                    }
                    "topic" => inside(body.0, body.1),
                    // (a verbatim child is several items)
                    _ => gaps.iter().any(|g| inside(*g, *g)) || it.children().iter().any(|x| x.kind() == "raw" && inside(rend.whole(x.h().id).0, rend.whole(x.h().id).1)),
                }
            } else if k == "event_v2" && !completions && c.pl == Place::Contract {
                let w = rend.whole(c.it.unwrap().h().id).0;
                inside(w, w)
            } else {
                inside(gap, gap)
            };
            if !ok {
                cx.violate(&sig("where", k), &format!("'{label}' puts the {k} elsewhere"), det(json!(base[btoks.get(pre).map_or(base.len(), |t| t.start)..].chars().take(60).collect::<String>())));
            }
            // a name and an identifier of its own
            let name = ins.iter().position(|t| matches!(t.text.as_str(), "fn" | "struct")).and_then(|i| ins.get(i + 1)).map(|t| t.text.clone());
            let sib: Vec<&Item> = match (k, c.it) {
                ("event_v2", Some(_)) if !completions => p.file.items.iter().filter(|x| c.parents.is_empty() && !matches!(x, Item::Mod(_))).take(0).collect(),
                ("event" | "event_v2", Some(it)) => it.children().iter().filter(|x| x.kind() == "struct").collect(),
                ("constructor" | "message", Some(it)) if c.pl == Place::Contract => it.children().iter().filter(|x| x.kind() == "impl").flat_map(|x| x.children()).filter(|x| x.h().ink().next().is_some()).collect(),
                ("constructor" | "message" | "extension" | "function" | "test" | "e2e_test", Some(it)) => it.children().iter().filter(|x| x.kind() == "fn").collect(),
                _ => vec![],
            };
            if let Some(n) = &name {
                if let Some(x) = sib.iter().find(|x| x.name() == n).filter(|_| !swallowed) {
                    cx.violate(&sig("name", k), &format!("'{label}' uses the name '{}' again", x.name()), det(json!(n)));
                }
            }
            if let (Some(Item::Adt(a)), "topic") = (c.it, k) {
                let n = ins.iter().position(|t| t.text == ":").map(|i| ins[i - 1].text.clone());
                if !swallowed && a.fields.iter().any(|f| Some(&f.name) == n.as_ref()) {
                    cx.violate(&sig("name", k), &format!("'{label}' uses the field name {n:?} again"), det(json!(n)));
                }
            }
            if let (Some(it), "extension" | "function") = (c.it, k) {
                let id = ins.iter().position(|t| t.text == "=").and_then(|i| ins.get(i + 1)).and_then(|t| t.text.parse::<u64>().ok());
                let ids: Vec<u64> = it.children().iter().filter_map(|x| x.h().arg(k).and_then(|a| a.value.clone())).filter_map(|x| num(&x)).collect();
                match id {
                    None => cx.violate(&sig("id", k), &format!("'{label}' adds no identifier"), det(json!(null))),
                    Some(i) if ids.contains(&i) && !swallowed => cx.violate(&sig("id", k), &format!("'{label}' uses the identifier {i} again"), det(json!(ids))),
                    _ => (),
                }
            }
        }
        // what is offered
        let intro: Option<&[&str]> = match word.as_str() {
            "" => None,
            "struct" | "pub struct" => Some(&["storage", "event", "event_v2", "storage_item", "environment", "topic"]),
            "fn" | "pub fn" => Some(&["constructor", "message", "extension", "function", "test", "e2e_test", "topic"]),
            "trait" => Some(&["trait_definition", "chain_extension"]),
            "mod" => Some(&["contract"]),
            "type" => Some(&["error_code"]),
            _ => continue,
        };
        // (at the end of a file a partly typed item includes the white space after it)
        if mode == 1 && (Some(&gap) != gaps.last() || c.pl == Place::Root) {
            continue;
        }
        let mut want: BTreeSet<&str> = BTreeSet::new();
        let contract = c.it.into_iter().chain(c.parents.iter().rev().copied()).find(|x| x.h().mac("ink::contract").is_some());
        let wild = v == Ver::V5 && contract.map_or(false, has_wildcard);
        match c.pl {
            Place::Root => {
                want.extend(["trait_definition", "chain_extension", "storage_item", "environment"]);
                if v == Ver::V5 {
                    want.extend(["event_v2", "combine_extensions"]);
                }
                if !p.file.items.iter().any(|x| x.h().mac("ink::contract").is_some()) {
                    want.insert("contract");
                }
            }
            Place::Contract => {
                let it = c.it.unwrap();
                want.insert("event");
                if v == Ver::V5 {
                    want.insert("event_v2");
                }
                if !it.children().iter().any(|x| x.h().arg("storage").is_some()) {
                    want.insert("storage");
                }
                let impls = it.children().iter().any(|x| matches!(x, Item::Impl(i) if i.trait_path.is_none()) && place(x, &[]) == Some(Place::Inherent));
                if mode == 4 || (!completions && !impls) {
                    want.insert("constructor");
                    if !wild {
                        want.insert("message");
                    }
                }
            }
            Place::Tests => {
                want.insert("test");
            }
            Place::E2e => {
                want.extend(["test", "e2e_test"]);
            }
            Place::Inherent => {
                want.insert("constructor");
                if completions || !wild {
                    want.insert("message");
                }
            }
            Place::TraitDef => {
                want.insert("message");
            }
            Place::ChainExt => {
                if !c.it.unwrap().children().iter().any(|x| x.name() == "ErrorCode") {
                    want.insert("error_code");
                }
                want.insert(if v == Ver::V5 { "function" } else { "extension" });
            }
            Place::Event => {
                want.insert("topic");
            }
            Place::Other => (),
        }
        if let Some(i) = intro {
            want.retain(|k| i.contains(k));
            kinds.retain(|k| want.contains(k));
            cx.add("offers_for_word", want.len() as u64);
        }
        cx.add("offers_expected", want.len() as u64);
        if want != kinds {
            let d: Vec<_> = want.symmetric_difference(&kinds).collect();
            cx.violate(&format!("offer:{what}:{:?}:{}", c.pl, d[0]), &format!("{what} in {:?} ({}): expected {want:?}, offered {kinds:?}", c.pl, v.name()), json!({"version": v.name(), "cursor": at, "labels": got.iter().map(|x| &x.0).collect::<Vec<_>>(), "source": src}));
        }
    }
}

fn num(s: &str) -> Option<u64> {
    let s = s.replace('_', "");
    let s = ["u32", "u16", "u64", "i32", "u8"].iter().find_map(|x| s.strip_suffix(x)).unwrap_or(&s);
    match s.get(..2) {
        Some("0x") => u64::from_str_radix(&s[2..], 16).ok(),
        Some("0b") => u64::from_str_radix(&s[2..], 2).ok(),
        Some("0o") => u64::from_str_radix(&s[2..], 8).ok(),
        _ => s.parse().ok(),
    }
}

fn has_wildcard(c: &Item) -> bool {
    c.children().iter().filter(|x| x.kind() == "impl").flat_map(|x| x.children()).any(|x| x.h().arg("message").is_some() && x.h().arg("selector").map_or(false, |a| a.value.as_deref() == Some("_")))
}

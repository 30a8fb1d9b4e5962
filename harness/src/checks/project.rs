//! New projects (M03), project commands of the server (L06) and version detection (L07).

use super::server::*;
use crate::api::{self, guard, Edit};
use crate::gen::{self, Opts, Ver};
use crate::lsp::*;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::texts;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

type Verdict = Result<(), (String, String)>;

fn bad<T>(sig: &str, what: impl Into<String>) -> Result<T, (String, String)> {
    Err((sig.to_string(), what.into()))
}

// --- TOML as plain values

pub fn tree(text: &str) -> Option<Value> {
    let d: toml_edit::DocumentMut = text.parse().ok()?;
    Some(table(d.as_table()))
}
fn table(t: &dyn toml_edit::TableLike) -> Value {
    let mut m = Map::new();
    for (k, v) in t.iter() {
        m.insert(k.to_string(), item(v));
    }
    Value::Object(m)
}
fn item(i: &toml_edit::Item) -> Value {
    match i {
        toml_edit::Item::None => Value::Null,
        toml_edit::Item::Value(v) => val(v),
        toml_edit::Item::Table(t) => table(t),
        toml_edit::Item::ArrayOfTables(a) => Value::Array(a.iter().map(|t| table(t)).collect()),
    }
}
fn val(v: &toml_edit::Value) -> Value {
    match v {
        toml_edit::Value::String(s) => json!(s.value()),
        toml_edit::Value::Integer(s) => json!(s.value()),
        toml_edit::Value::Float(s) => json!(s.value()),
        toml_edit::Value::Boolean(s) => json!(s.value()),
        toml_edit::Value::Datetime(s) => json!(s.value().to_string()),
        toml_edit::Value::Array(a) => Value::Array(a.iter().map(val).collect()),
        toml_edit::Value::InlineTable(t) => table(t),
    }
}

/// A manifest with all kinds of content; every `# keep` comment and all unrelated entries must survive.
pub fn rich_manifest(r: &mut Rng, v: Ver) -> String {
    let mut s = String::new();
    let nl = "\n";
    if r.pct(30) {
        s += "# keep: header ünï 🦀\n";
    }
    s += "[package]\n";
    s += ["name = \"erc20\"\n", "name = \"my-contract\" # keep: name\n", "name=\"x\"\n"][r.below(3)];
    s += "version = \"4.0.0\"\n";
    if r.pct(60) {
        s += "authors = [\"Jané 中 <a@b.c>\", \"[x] <[y]>\"]\n";
    }
    s += "edition = \"2021\"\n";
    if r.pct(30) {
        s += "publish = false\nmetadata.docs.rs.all-features = true\n";
    }
    s += nl;
    let req = if v == Ver::V5 { ["5.0.0", "5.0", "^5"][r.below(3)] } else { ["4.3.0", "4.2", "=4.0.1", "4"][r.below(4)] };
    let scale = r.pct(70);
    let table_ink = r.pct(20);
    let mut deps: Vec<String> = vec![];
    let mut tables: Vec<String> = vec![];
    if table_ink {
        tables.push(format!("[dependencies.ink]\nversion = \"{req}\"\n{}", ["", "default-features = false\n", "default-features = true\nfeatures = [\"std\"]\n"][r.below(3)]));
    } else {
        deps.push(match r.below(6) {
            0 => format!("ink = \"{req}\""),
            1 => format!("ink = {{ version = \"{req}\" }}"),
            2 => format!("ink = {{ version = \"{req}\", features = [\"x\", \"y\"], optional = true }}"),
            3 => format!("ink = {{ default-features = true, version = \"{req}\" }}"),
            4 => format!("ink.version = \"{req}\"\nink.default-features = false"),
            _ => format!("ink = {{ version = \"{req}\", default-features = false }}"),
        });
    }
    if scale {
        if r.pct(20) {
            tables.push("[dependencies.scale]\npackage = \"parity-scale-codec\"\nversion = \"3\"\n".into());
        } else {
            deps.push("scale = { package = \"parity-scale-codec\", version = \"3\", default-features = false, features = [\"derive\"] }".into());
        }
        if r.pct(80) {
            deps.push("scale-info = { version = \"2.5\", default-features = false, features = [\"derive\"], optional = true }".into());
        }
    }
    for d in ["serde = \"1\"", "primitive-types = { version = \"0.12\", default-features = false }", "scale_other = \"1.0\" # keep: tail", "ink_e2e_macro = \"4\"", "log = \"0.4\""] {
        if r.pct(30) {
            deps.push(d.to_string());
        }
    }
    r.shuffle(&mut deps);
    s += "[dependencies]\n";
    for (i, d) in deps.iter().enumerate() {
        s += d;
        s += nl;
        if r.pct(20) && i + 1 == deps.len() {
            s += nl;
        }
    }
    s += nl;
    for t in tables {
        s += &t;
        s += nl;
    }
    if r.pct(60) {
        s += "[dev-dependencies]\n";
        if r.pct(75) {
            s += if v == Ver::V5 { "ink_e2e = \"5.0.0\"\n" } else { ["ink_e2e = \"4.3\"\n", "ink_e2e = { version = \"4.3\" }\n", "ink_e2e = { version = \"4.2.1\", path = \"x\" }\n"][r.below(3)] };
        }
        if r.pct(50) {
            s += "hex = \"0.4\"\nscale = \"3\"\n";
        }
        s += nl;
    }
    if r.pct(30) {
        s += "[target.'cfg(unix)'.dependencies]\nlibc = \"0.2\" # keep: libc\n\n";
    }
    if r.pct(70) {
        s += "[lib]\npath = \"lib.rs\"\n\n";
    }
    if r.pct(85) {
        s += "[features]\ndefault = [\"std\"]\n";
        s += match r.below(3) {
            0 => "std = [\"ink/std\", \"scale/std\", \"scale-info/std\"]\n",
            1 => "std = [\n    \"ink/std\",\n    \"scale/std\",\n    \"scale-info/std\",\n    \"primitive-types/std\",\n]\n",
            _ => "std = [\n    \"ink/std\",\n]\n",
        };
        s += "ink-as-dependency = []\ne2e-tests = []\n";
        if r.pct(30) {
            s += "extra = [\"serde\"] # keep: extra\n";
        }
        s += nl;
    }
    if r.pct(30) {
        s += "[profile.release]\noverflow-checks = false # keep: checks\n\n[[bin]]\nname = \"a\"\n\n[[bin]]\nname = \"b\"\n";
    }
    if r.pct(10) {
        s = s.replace('\n', "\r\n");
    }
    s
}

fn keeps(s: &str) -> Vec<String> {
    s.lines().filter_map(|l| l.find("# keep").map(|i| l[i..].trim().to_string())).collect()
}

/// What a migrated manifest must contain.
fn want_migrated(before: &Value) -> Option<Value> {
    let mut t = before.clone();
    let deps = t.get_mut("dependencies")?.as_object_mut()?;
    let ink = deps.get_mut("ink")?;
    match ink {
        Value::Object(m) => {
            m.insert("version".into(), json!("5.0.0"));
            if !m.contains_key("default-features") {
                m.insert("default-features".into(), json!(false));
            }
        }
        o => *o = json!({"version": "5.0.0", "default-features": false}),
    }
    deps.remove("scale");
    deps.remove("scale-info");
    if let Some(f) = t.get_mut("features").and_then(|f| f.get_mut("std")).and_then(|f| f.as_array_mut()) {
        f.retain(|x| *x != json!("scale/std") && *x != json!("scale-info/std"));
    }
    Some(t)
}

/// Requirement strings: any requirement of the right major version will do.
fn req5(v: &Value) -> bool {
    let s = v.as_str().or(v["version"].as_str()).unwrap_or("");
    s.trim_start_matches(['^', '=', '~', '>', ' ']).split(['.', ' ', ',']).next() == Some("5")
}

fn judge_manifest(before: &str, after: &str, expected: Value) -> Verdict {
    let Some(mut got) = tree(after) else { return bad("manifest:syntax", format!("the new manifest is not valid TOML:\n{after}")) };
    let mut want = expected;
    // the exact 5.x requirement is not prescribed
    for (p, q) in [("dependencies", "ink"), ("dev-dependencies", "ink_e2e")] {
        if !want[p][q].is_null() {
            if !req5(&got[p][q]) {
                return bad(&format!("manifest:{q}"), format!("{q} is not upgraded to version 5: {}", got[p][q]));
            }
            if q == "ink_e2e" {
                got[p][q] = json!(5);
                want[p][q] = json!(5);
            } else {
                got[p][q]["version"] = json!(5);
                want[p][q]["version"] = json!(5);
            }
        }
    }
    if got != want {
        let d = first_diff(&want, &got, String::new());
        return bad(&format!("manifest:content:{}", d.0), format!("manifest entry {}: expected {}, got {}\n--- before\n{before}\n--- after\n{after}", d.0, d.1, d.2));
    }
    if keeps(before) != keeps(after) {
        return bad("manifest:comments", format!("comments are lost:\n--- before\n{before}\n--- after\n{after}"));
    }
    Ok(())
}

fn lsp_apply(text: &str, edits: &Value, enc: Enc) -> Result<String, (String, String)> {
    let mut v = vec![];
    for e in edits.as_array().into_iter().flatten() {
        let Some((s, x)) = range_of(text, &e["range"], enc) else { return bad("edit:range", format!("edit range {} is outside the document", e["range"])) };
        v.push(Edit { s, e: x, text: e["newText"].as_str().unwrap_or("").to_string(), snippet: None });
    }
    match api::apply(text, &v) {
        Some(t) => Ok(t),
        None => bad("edit:overlap", format!("edits overlap: {edits}")),
    }
}

fn edit_set(v: &Value) -> BTreeSet<String> {
    v.as_array().into_iter().flatten().map(|e| json!({"range": e["range"], "newText": e["newText"]}).to_string()).collect()
}

/// A WorkspaceEdit split into created files and edited files.
fn split_edit(e: &Value) -> Result<(BTreeMap<String, String>, BTreeMap<String, Value>), (String, String)> {
    let mut created: BTreeMap<String, String> = BTreeMap::new();
    let mut edited = BTreeMap::new();
    if let Some(m) = e["changes"].as_object() {
        for (k, v) in m {
            edited.insert(k.clone(), v.clone());
        }
    }
    for d in e["documentChanges"].as_array().into_iter().flatten() {
        match d["kind"].as_str() {
            Some("create") => {
                let u = d["uri"].as_str().unwrap_or("").to_string();
                if d["options"]["overwrite"] == json!(true) {
                    return bad("edit:overwrite", "a file is created with overwrite");
                }
                if created.insert(u.clone(), String::new()).is_some() {
                    return bad("edit:twice", format!("{u} is created twice"));
                }
            }
            Some(k) => return bad("edit:op", format!("unexpected operation {k}")),
            None => {
                let u = d["textDocument"]["uri"].as_str().unwrap_or("").to_string();
                if let Some(c) = created.get_mut(&u) {
                    let t = lsp_apply(c, &d["edits"], Enc::U16)?;
                    *c = t;
                } else if edited.insert(u.clone(), d["edits"].clone()).is_some() {
                    return bad("edit:twice", format!("{u} is edited twice"));
                }
            }
        }
    }
    Ok((created, edited))
}

// --- new projects

fn ident(s: &str) -> bool {
    let kw = [
        "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while",
        "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try",
    ];
    let s = s.to_string();
    !kw.contains(&s.as_str()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || (c.is_alphabetic() && !c.is_ascii()))
}

fn name(r: &mut Rng) -> String {
    let words = ["hello", "my_contract", "MyContract", "ERC20", "a", "flip", "x1", "é", "中文", "ink", "Storage", "my", "contract", "my-contract", "test", "z9"];
    let seps = ["_", "-", "", "__", "--", "_-"];
    let mut s = words[r.below(words.len())].to_string();
    for _ in 0..r.below(3) {
        s += seps[r.below(seps.len())];
        s += words[r.below(words.len())];
    }
    match r.below(10) {
        0 => {
            let bad = [" ", "!", ".", "/", "💝", "\"", "\n", "'", "\\", "..", "\u{0}", "::", "{", "½"];
            let k = crate::checks::attrs::floor(&s, r.below(s.len() + 1));
            s.insert_str(k, bad[r.below(bad.len())]);
        }
        1 => s = format!("{}{s}", ["1", "-", "_", "9a", "½"][r.below(5)]),
        2 if r.pct(50) => s = String::new(),
        3 => s += ["_", "-", "2", "__"][r.below(4)],
        _ => (),
    }
    s
}
fn valid_name(s: &str) -> bool {
    s.chars().next().map_or(false, char::is_alphabetic) && s.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-')
}

/// Resolves tab stops and placeholders of a snippet.
pub fn resolve(s: &str) -> Option<String> {
    let c: Vec<char> = s.chars().collect();
    fn go(c: &[char], i: &mut usize, nested: bool) -> Option<String> {
        let mut o = String::new();
        while *i < c.len() {
            match c[*i] {
                '\\' if *i + 1 < c.len() && matches!(c[*i + 1], '$' | '}' | '\\') => {
                    o.push(c[*i + 1]);
                    *i += 2;
                }
                '}' if nested => {
                    *i += 1;
                    return Some(o);
                }
                '$' if *i + 1 < c.len() && c[*i + 1].is_ascii_digit() => {
                    *i += 1;
                    while *i < c.len() && c[*i].is_ascii_digit() {
                        *i += 1;
                    }
                }
                '$' if *i + 1 < c.len() && c[*i + 1] == '{' => {
                    *i += 2;
                    let k = *i;
                    while *i < c.len() && c[*i].is_ascii_digit() {
                        *i += 1;
                    }
                    if *i == k || *i >= c.len() {
                        return None;
                    }
                    match c[*i] {
                        '}' => *i += 1,
                        ':' => {
                            *i += 1;
                            o.push_str(&go(c, i, true)?);
                        }
                        _ => return None,
                    }
                }
                x => {
                    o.push(x);
                    *i += 1;
                }
            }
        }
        if nested {
            None
        } else {
            Some(o)
        }
    }
    go(&c, &mut 0, false)
}

fn project_files(n: &str, v: Ver, lib: &str, cargo: &str) -> Verdict {
    let Some(t) = tree(cargo) else { return bad("project:manifest", format!("the manifest for {n:?} is not valid TOML:\n{cargo}")) };
    if t["package"]["name"] != json!(n) {
        return bad("project:name", format!("package name {} for project {n:?}", t["package"]["name"]));
    }
    let ink = &t["dependencies"]["ink"];
    let req = ink["version"].as_str().or(ink.as_str()).unwrap_or("");
    let major = req.trim_start_matches(['^', '=', '~']).split('.').next().unwrap_or("");
    if major != if v == Ver::V5 { "5" } else { "4" } {
        return bad("project:version", format!("{n:?}: ink requirement {req:?} in a project for ink! {}", v.name()));
    }
    if let Some(std) = t["features"]["std"].as_array() {
        for f in std {
            let d = f.as_str().unwrap_or("").split('/').next().unwrap_or("").to_string();
            if t["dependencies"][&d].is_null() {
                return bad("project:features", format!("feature std names {f}, which is not a dependency"));
            }
        }
    }
    let module = n.replace('-', "_");
    if !ident(&module) {
        return Ok(());
    }
    match api::diagnostics(lib, v) {
        Ok(d) if d.is_empty() => (),
        Ok(d) => return bad("project:diagnostics", format!("new project {n:?} has diagnostics: {}\n{lib}", d[0].msg)),
        Err(p) => return bad("project:panic", p),
    }
    let ts = crate::lex::toks(lib);
    let k = (0..ts.len().saturating_sub(1)).find(|i| ts[*i] == "mod" && ts[i + 1] == module);
    if k.is_none() {
        return bad("project:module", format!("no module {module} in the contract of project {n:?}:\n{lib}"));
    }
    // the storage type is used under one name everywhere
    let st = (0..ts.len().saturating_sub(6)).find(|i| ts[*i] == "storage" && ts[i + 1] == ")").and_then(|i| ts[i..].iter().position(|t| t == "struct").map(|j| ts[i + j + 1].clone()));
    let Some(st) = st else { return bad("project:storage", format!("no storage in project {n:?}")) };
    if !st.chars().next().unwrap().is_alphabetic() || !ident(&st) {
        return bad("project:storage-name", format!("storage {st} in project {n:?}"));
    }
    let want: String = module.split('_').map(|w| { let mut c = w.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() }).collect();
    if st.to_lowercase() != want.to_lowercase() {
        return bad("project:storage-name", format!("storage {st} in project {n:?}, expected {want} (in camel case)"));
    }
    let impls: Vec<&String> = (0..ts.len() - 1).filter(|i| ts[*i] == "impl" && ts[i + 1] != "<").map(|i| &ts[i + 1]).collect();
    if impls.is_empty() || impls.iter().any(|x| **x != st) {
        return bad("project:impl", format!("implementations of {impls:?}, storage {st}, project {n:?}"));
    }
    for (k, t) in ts.iter().enumerate() {
        // the template's own names may only appear as part of the requested ones
        if (t == "MyContract" && st != "MyContract") || (t == "my_contract" && module != "my_contract") {
            return bad("project:template-name", format!("token {k} of project {n:?} is still {t}\n{lib}"));
        }
    }
    Ok(())
}

pub fn m03(cx: &mut Ctx, i: u64) {
    let mut r = cx.rng("");
    if i % 10 == 0 {
        let caps = if r.pct(70) { Caps::full() } else { Caps::random(&mut r) };
        let base = cx.scratch.join(format!("c{}", cx.idx));
        std::fs::create_dir_all(&base).unwrap();
        if let Some(mut s) = Sess::start(cx, caps, &base) {
            for _ in 0..12 {
                create(cx, &mut s, &mut r, &base);
                if s.dead {
                    break;
                }
            }
            s.finish(cx, &mut r);
        }
        let _ = std::fs::remove_dir_all(&base);
        return;
    }
    for _ in 0..20 {
        let n = name(&mut r);
        let v = if r.pct(50) { Ver::V4 } else { Ver::V5 };
        cx.count("names");
        let p = match guard(|| ink_analyzer::new_project(n.clone(), v.lib())) {
            Ok(p) => p,
            Err(e) => {
                cx.violate(&format!("project:panic:{e}"), &format!("new_project({n:?}) panicked: {e}"), json!({"name": n}));
                continue;
            }
        };
        let ok = valid_name(&n);
        if p.is_ok() != ok {
            cx.violate("project:accepted", &format!("name {n:?} is {}valid, but was {}", if ok { "" } else { "not " }, if p.is_ok() { "accepted" } else { "rejected" }), json!({"name": n}));
            continue;
        }
        cx.seen(&format!("{n}{}", v.name()));
        let Ok(p) = p else {
            cx.count("names_rejected");
            continue;
        };
        cx.count("projects");
        if let Err((sig, what)) = project_files(&n, v, &p.lib.plain, &p.cargo.plain) {
            cx.violate(&sig, &what, json!({"name": n, "version": v.name(), "source": p.lib.plain}));
        }
        for (what, f) in [("lib", &p.lib), ("cargo", &p.cargo)] {
            if let Some(sn) = &f.snippet {
                cx.count("snippets");
                let sq = |x: &str| x.split_whitespace().collect::<String>();
                if resolve(sn).map(|x| sq(&x)) != Some(sq(&f.plain)) {
                    cx.violate(&format!("project:snippet:{what}"), &format!("the snippet of {what} for {n:?} does not resolve to its plain text"), json!({"name": n, "snippet": sn, "plain": f.plain}));
                }
            }
        }
        cx.sample(|| json!({"name": n, "source": p.lib.plain}));
    }
}

// --- commands

fn create(cx: &mut Ctx, s: &mut Sess, r: &mut Rng, base: &Path) {
    let n = name(r);
    let slash = r.pct(50);
    let root = uri_of(&base.join(format!("new {}", r.below(1000))));
    let id = s.id(r);
    let msg = json!({"jsonrpc": "2.0", "id": id, "method": "workspace/executeCommand", "params": {"command": "createProject", "arguments": [{"name": n, "root": if slash { format!("{root}/") } else { root.clone() }}]}});
    if !valid_name(&n) {
        s.push(msg, vec![Exp::Error(id, INTERNAL)]);
        if s.flush(cx, true) {
            cx.count("create_rejected");
        }
        return;
    }
    let apply = s.caps.can_create();
    let mut e = vec![Exp::Any(id)];
    if apply {
        e.push(Exp::Judged(Box::new(is_apply)));
    }
    s.push(msg, e);
    if !s.flush(cx, true) {
        return;
    }
    let m = s.last[0].clone();
    let v: Verdict = (|| {
        if !m["error"].is_null() {
            return bad("create:error", format!("creating project {n:?} failed: {}", m["error"]));
        }
        let files: BTreeMap<String, String> = if apply {
            if !m["result"].is_null() {
                return bad("create:result", format!("the edit is applied by request, but the response also has a result {}", m["result"]));
            }
            let (c, e) = split_edit(&s.last[1]["params"]["edit"])?;
            if !e.is_empty() {
                return bad("create:edits", "a new project edits existing files");
            }
            c
        } else {
            m["result"]["files"].as_object().into_iter().flatten().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect()
        };
        let want: BTreeSet<String> = [format!("{root}/lib.rs"), format!("{root}/Cargo.toml")].into();
        if files.keys().cloned().collect::<BTreeSet<_>>() != want {
            return bad("create:files", format!("files {:?}, expected {want:?}", files.keys().collect::<Vec<_>>()));
        }
        project_files(&n, Ver::V5, &files[&format!("{root}/lib.rs")], &files[&format!("{root}/Cargo.toml")])
    })();
    if let Err((sig, what)) = v {
        s.fail(cx, &sig, &what);
        return;
    }
    cx.count("created");
    cx.seen(&n);
    if apply {
        // answer the edit request; the server may then ask to show the new file
        let rid = s.last[1]["id"].clone();
        s.cl.send(json!({"jsonrpc": "2.0", "id": rid, "result": {"applied": true}}));
        let id = s.id(r);
        s.cl.send(json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/hover", "params": {"textDocument": {"uri": "file:///none.rs"}, "position": {"line": 0, "character": 0}}}));
        let mut shown = 0;
        loop {
            match s.cl.recv(90) {
                Got::Msg(m) if m["method"] == json!("window/showDocument") => {
                    shown += 1;
                    if shown > 1 || m["params"]["uri"] != json!(format!("{root}/lib.rs")) {
                        s.fail(cx, "create:show", &format!("unexpected {m}"));
                        return;
                    }
                    cx.count("shown");
                    s.cl.send(json!({"jsonrpc": "2.0", "id": m["id"], "result": {"success": true}}));
                }
                Got::Msg(m) if m["id"] == id && m["method"].is_null() => break,
                Got::Msg(m) => {
                    s.fail(cx, "create:unexpected", &format!("unexpected {m}"));
                    return;
                }
                _ => {
                    s.fail(cx, "create:no-answer", "no answer after the edit was applied");
                    return;
                }
            }
        }
    }
}

fn is_apply(m: &Value) -> Verdict {
    if m["method"] == json!("workspace/applyEdit") && !m["id"].is_null() && m["params"]["edit"].is_object() {
        Ok(())
    } else {
        bad("command:no-apply", format!("expected workspace/applyEdit, got {}", m.to_string().chars().take(500).collect::<String>()))
    }
}

pub struct Proj {
    pub uri: String,
    pub cargo: Option<(PathBuf, String)>,
    pub ver: Ver,
}

/// A project on disk with one contract that is open in the session.
fn proj(s: &mut Sess, r: &mut Rng, dir: &Path, ver: Ver, odd: bool) -> Proj {
    std::fs::create_dir_all(dir.join("src")).unwrap();
    let mut cargo = Some((dir.join("Cargo.toml"), rich_manifest(r, ver)));
    let mut ver = ver;
    if odd {
        match r.below(3) {
            0 => cargo.as_mut().unwrap().1 = "[package\n".into(),
            1 => cargo.as_mut().unwrap().1 = "[package]\nname = \"x\"\n\n[dependencies]\nother = \"1\"\n".into(),
            _ => cargo = None,
        }
        ver = Ver::V4;
    }
    if let Some((p, t)) = &cargo {
        std::fs::write(p, t).unwrap();
    }
    let f = if r.pct(50) { "lib.rs" } else { "src/lib.rs" };
    let uri = uri_of(&dir.join(f));
    let text = source(r, ver);
    s.open(&uri, &text, 1, "rust", ver);
    Proj { uri, cargo, ver }
}

fn source(r: &mut Rng, v: Ver) -> String {
    let o = Opts { contract: true, e2e: r.pct(30), chain_ext: r.pct(30), traits: r.pct(20), rich: r.pct(60), events: true, wildcards: false };
    let mut t = gen::program(r, v, o).file.render().text;
    if r.pct(50) {
        t = texts::unicode(&t, r, 12);
    }
    t
}

fn migrate(cx: &mut Ctx, s: &mut Sess, r: &mut Rng, p: &Proj) -> bool {
    let id = s.id(r);
    let d = &s.docs[&p.uri];
    let enc = s.enc;
    let want: Vec<Value> = match guard(|| d.ana.migrate().iter().map(|e| { let e = api::edit(e); json!({"range": range_json(&d.text, e.s, e.e, enc), "newText": e.text}) }).collect()) {
        Ok(v) => v,
        Err(_) => return false,
    };
    let want = json!(want);
    let text = d.text.clone();
    let via_resolve = r.pct(30);
    let msg = if via_resolve {
        json!({"jsonrpc": "2.0", "id": id, "method": "codeAction/resolve", "params": {"title": "Migrate", "kind": "refactor.rewrite", "data": {"command": "migrateProject", "uri": p.uri, "range": {"start": 0, "end": 0}}}})
    } else {
        json!({"jsonrpc": "2.0", "id": id, "method": "workspace/executeCommand", "params": {"command": "migrateProject", "arguments": [{"uri": p.uri}]}})
    };
    let before = p.cargo.as_ref().and_then(|c| tree(&c.1));
    let expected = before.as_ref().and_then(want_migrated);
    let Some(expected) = expected else {
        s.push(msg, vec![Exp::Error(id, INTERNAL)]);
        if s.flush(cx, true) {
            cx.count("migrate_rejected");
        }
        return false;
    };
    let apply = !via_resolve && s.caps.can_apply();
    let mut e = vec![Exp::Any(id)];
    if apply {
        e.push(Exp::Judged(Box::new(is_apply)));
    }
    s.push(msg, e);
    if !s.flush(cx, true) {
        return false;
    }
    let m = s.last[0].clone();
    let (cpath, ctext) = p.cargo.clone().unwrap();
    let curi = uri_of(&cpath);
    let mut manifest_after = String::new();
    let v: Verdict = (|| {
        if !m["error"].is_null() {
            return bad("migrate:error", format!("migration failed: {}", m["error"]));
        }
        let (c, e) = if via_resolve {
            split_edit(&m["result"]["edit"])?
        } else if apply {
            if !m["result"].is_null() {
                return bad("migrate:result", "the edit is applied by request, but the response also has a result");
            }
            split_edit(&s.last[1]["params"]["edit"])?
        } else {
            split_edit(&json!({"changes": m["result"]["edits"]}))?
        };
        if !c.is_empty() {
            return bad("migrate:creates", "migration creates files");
        }
        let keys: BTreeSet<&String> = e.keys().collect();
        if keys != BTreeSet::from([&p.uri, &curi]) {
            return bad("migrate:files", format!("edited files {keys:?}, expected {} and {curi}", p.uri));
        }
        if edit_set(&e[&p.uri]) != edit_set(&want) {
            return bad("migrate:source", format!("source edits {}\nexpected {want}", e[&p.uri]));
        }
        manifest_after = lsp_apply(&ctext, &e[&curi], enc)?;
        judge_manifest(&ctext, &manifest_after, expected)
    })();
    if let Err((sig, what)) = v {
        s.fail(cx, &sig, &what);
        return false;
    }
    cx.count(if via_resolve { "migrated_by_resolve" } else if apply { "migrated_by_edit" } else { "migrated_by_result" });
    cx.seen(&manifest_after);
    cx.sample(|| json!({"manifest_before": ctext, "manifest_after": manifest_after}));
    // the client applies the edit
    if let Ok(new) = lsp_apply(&text, &want, enc) {
        std::fs::write(&cpath, &manifest_after).unwrap();
        if let Some(d) = s.docs.get_mut(&p.uri) {
            d.ver = Ver::V5;
        }
        let v = s.docs[&p.uri].version + 1;
        s.change(&p.uri, &[new], v);
        if !s.flush(cx, true) {
            return false;
        }
        cx.count("migrations_applied");
        return true;
    }
    false
}

fn extract(cx: &mut Ctx, s: &mut Sess, r: &mut Rng, p: &Proj, dir: &Path) {
    let d = &s.docs[&p.uri];
    let enc = s.enc;
    let text = d.text.clone();
    // somewhere in the source, mostly in an event
    let n = text.matches("event").count();
    let k = if n > 0 && r.pct(80) { text.match_indices("event").nth(r.below(n)).unwrap().0 } else { texts::position(&text, r) };
    let e = crate::checks::attrs::floor(&text, (k + r.below(5)).min(text.len()));
    let Ok(want) = guard(|| d.ana.extract(api::range(k, e))) else { return };
    let id = s.id(r);
    let via_resolve = r.pct(30);
    let rng = json!({"start": k, "end": e});
    let msg = if via_resolve {
        json!({"jsonrpc": "2.0", "id": id, "method": "codeAction/resolve", "params": {"title": "Extract", "data": {"command": "extractEvent", "uri": p.uri, "range": rng}}})
    } else {
        json!({"jsonrpc": "2.0", "id": id, "method": "workspace/executeCommand", "params": {"command": "extractEvent", "arguments": [{"uri": p.uri, "range": rng}]}})
    };
    let before = p.cargo.as_ref().and_then(|c| tree(&c.1)).filter(|t| t["dependencies"].is_object());
    let (Some(want), Some(before)) = (want, before) else {
        s.push(msg, vec![Exp::Error(id, INTERNAL)]);
        if s.flush(cx, true) {
            cx.count("extract_rejected");
        }
        return;
    };
    // directories that are in the way
    let taken = r.below(4);
    let kebab = kebab(&want.name);
    if r.pct(40) {
        for i in 0..taken {
            let _ = std::fs::create_dir_all(dir.join(if i == 0 { kebab.clone() } else { format!("{kebab}{i}") }));
        }
    }
    let existing: BTreeSet<String> = std::fs::read_dir(dir).unwrap().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
    let apply = !via_resolve && s.caps.can_create();
    let mut ex = vec![Exp::Any(id)];
    if apply {
        ex.push(Exp::Judged(Box::new(is_apply)));
    }
    s.push(msg, ex);
    if !s.flush(cx, true) {
        return;
    }
    let m = s.last[0].clone();
    let (cpath, ctext) = p.cargo.clone().unwrap();
    let curi = uri_of(&cpath);
    let v: Verdict = (|| {
        if !m["error"].is_null() {
            return bad("extract:error", format!("extraction failed: {}", m["error"]));
        }
        let (c, e) = if via_resolve {
            split_edit(&m["result"]["edit"])?
        } else if apply {
            if !m["result"].is_null() {
                return bad("extract:result", "the edit is applied by request, but the response also has a result");
            }
            split_edit(&s.last[1]["params"]["edit"])?
        } else {
            let c = m["result"]["files"].as_object().into_iter().flatten().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect();
            (c, split_edit(&json!({"changes": m["result"]["edits"]}))?.1)
        };
        let keys: BTreeSet<&String> = e.keys().collect();
        if keys != BTreeSet::from([&p.uri, &curi]) {
            return bad("extract:files", format!("edited files {keys:?}, expected {} and {curi}", p.uri));
        }
        // the new package
        let root = format!("{}/", uri_of(dir));
        let dirs: BTreeSet<String> = c.keys().filter_map(|u| u.strip_prefix(&root).and_then(|x| x.split_once('/')).map(|x| x.0.to_string())).collect();
        if dirs.len() != 1 || c.len() != 2 {
            return bad("extract:package", format!("created files {:?}", c.keys().collect::<Vec<_>>()));
        }
        let pdir = dirs.into_iter().next().unwrap();
        let (Some(lib), Some(man)) = (c.get(&format!("{root}{pdir}/src/lib.rs")), c.get(&format!("{root}{pdir}/Cargo.toml"))) else {
            return bad("extract:package", format!("created files {:?}", c.keys().collect::<Vec<_>>()));
        };
        let pdir = unpercent(&pdir);
        if existing.contains(&pdir) {
            return bad("extract:overwrites", format!("directory {pdir} exists already"));
        }
        if *lib != want.content {
            return bad("extract:content", format!("event source\n{lib}\nexpected\n{}", want.content));
        }
        let Some(mt) = tree(man) else { return bad("extract:manifest", format!("not valid TOML:\n{man}")) };
        let pkg = mt["package"]["name"].as_str().unwrap_or("").to_string();
        if !valid_name(&pkg) || !pkg.replace('-', "").eq_ignore_ascii_case(&want.name.replace('_', "")) && !pkg.replace('-', "").to_lowercase().starts_with(&want.name.replace('_', "").to_lowercase()) {
            return bad("extract:package-name", format!("package {pkg:?} for event {}", want.name));
        }
        if !req5(&mt["dependencies"]["ink"]) {
            return bad("extract:package-ink", format!("ink dependency {}", mt["dependencies"]["ink"]));
        }
        // the contract's manifest
        let after = lsp_apply(&ctext, &e[&curi], enc)?;
        let Some(mut at) = tree(&after) else { return bad("extract:contract-manifest", format!("not valid TOML:\n{after}")) };
        let dep = at["dependencies"][&pkg].clone();
        if dep["path"] != json!(pdir) {
            return bad("extract:dependency", format!("dependency {pkg}: {dep}, package directory {pdir}"));
        }
        match before["dependencies"].get(&pkg) {
            Some(old) => at["dependencies"][&pkg] = old.clone(),
            None => {
                at["dependencies"].as_object_mut().unwrap().remove(&pkg);
            }
        }
        if at != before {
            let d = first_diff(&before, &at, String::new());
            return bad("extract:contract-manifest", format!("unrelated entry {} changed: {} -> {}", d.0, d.1, d.2));
        }
        if keeps(&ctext) != keeps(&after) {
            return bad("extract:comments", format!("comments are lost:\n{ctext}\n---\n{after}"));
        }
        // the contract
        let new = lsp_apply(&text, &e[&p.uri], enc)?;
        let mut es: Vec<Edit> = want.edits.iter().map(api::edit).collect();
        let off = usize::from(want.import_offset);
        es.push(Edit { s: off, e: off, text: format!(" use {}::{}; ", pkg.replace('-', "_"), want.name), snippet: None });
        let Some(exp) = api::apply(&text, &es) else { return Ok(()) };
        let (a, b) = (crate::lex::toks(&exp), crate::lex::toks(&new));
        if a != b {
            return bad("extract:source", format!("source after extraction\n{new}\nexpected\n{exp}"));
        }
        Ok(())
    })();
    if let Err((sig, what)) = v {
        s.fail(cx, &sig, &what);
        return;
    }
    cx.count(if via_resolve { "extracted_by_resolve" } else if apply { "extracted_by_edit" } else { "extracted_by_result" });
    cx.seen(&format!("{}{}", want.content, ctext));
}

fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            o.push('-');
        }
        o.extend(c.to_lowercase());
    }
    o
}
fn unpercent(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).to_string()
}

pub fn commands(cx: &mut Ctx, r: &mut Rng, caps: Caps, n: usize) {
    let base = cx.scratch.join(format!("c{}", cx.idx));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    let Some(mut s) = Sess::start(cx, caps, &base) else {
        let _ = std::fs::remove_dir_all(&base);
        return;
    };
    for k in 0..n {
        if s.dead {
            break;
        }
        match r.below(10) {
            0 | 1 => create(cx, &mut s, r, &base),
            x => {
                let v = if x < 6 { Ver::V4 } else { Ver::V5 };
                let dir = base.join(format!("p {k}é"));
                let odd = r.pct(12);
                let p = proj(&mut s, r, &dir, v, odd);
                if !s.flush(cx, true) {
                    break;
                }
                if v == Ver::V4 {
                    migrate(cx, &mut s, r, &p);
                } else {
                    for _ in 0..2 {
                        extract(cx, &mut s, r, &p, &dir);
                        if s.dead {
                            break;
                        }
                    }
                }
            }
        }
    }
    s.finish(cx, r);
    drop(s);
    let _ = std::fs::remove_dir_all(&base);
}

pub fn l06(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("");
    let mut caps = if r.pct(60) { Caps::full() } else { Caps::random(&mut r) };
    let e: [&'static str; 3] = ["utf-8", "utf-16", "utf-32"];
    caps.encs = Some(vec![e[r.below(3)]]);
    commands(cx, &mut r, caps, 6);
}

// --- version detection

/// A text whose diagnostics differ between the versions.
fn telling(r: &mut Rng) -> String {
    let t = [
        "#[ink::event]\npub struct E {}\n",
        "#[ink::event(anonymous)]\npub struct E { #[ink(topic)] a: u8 }\n#[ink::scale_derive(Encode)]\npub struct X;\n",
        "#[ink::chain_extension]\npub trait T {\n    type ErrorCode = ();\n    #[ink(extension = 1)]\n    fn f();\n}\n",
        "#[ink::chain_extension(extension = 1)]\npub trait T {\n    type ErrorCode = ();\n    #[ink(function = 1)]\n    fn f();\n}\n",
        "#[ink::scale_derive(Encode, Decode)]\npub enum X { A }\n",
    ];
    let mut s = t[r.below(t.len())].to_string();
    if r.pct(30) {
        s = texts::unicode(&s, r, 3);
    }
    s
}

pub fn l07(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("");
    let mut caps = Caps::full();
    caps.apply = Some(r.pct(50));
    let n = r.range(2, 6);
    let (base, mut places) = world(cx, &mut r, n);
    let Some(mut s) = Sess::start(cx, caps, &base) else { return };
    let mut v = 1;
    for step in 0..r.range(6, 20) {
        if s.dead {
            break;
        }
        v += 1;
        let k = r.below(places.len());
        let uri = places[k].uri.clone();
        let ver = places[k].ver;
        match (s.docs.contains_key(&uri), r.below(10)) {
            (false, _) => {
                let t = telling(&mut r);
                s.open(&uri, &t, v, "rust", ver);
                cx.count(&format!("opened:{}", ver.name()));
            }
            (true, 0) => s.close(&uri),
            (true, 1 | 2 | 3) => {
                let t = telling(&mut r);
                s.change(&uri, &[t], v);
            }
            (true, 4) if step > 2 => {
                // a migration of a project of its own
                let dir = base.join(format!("mig{step}"));
                let p = proj(&mut s, &mut r, &dir, Ver::V4, false);
                if !s.flush(cx, true) {
                    break;
                }
                if migrate(cx, &mut s, &mut r, &p) {
                    cx.count("version_follows_migration");
                    places.push(Place { uri: p.uri.clone(), ver: Ver::V5 });
                    let t = telling(&mut r);
                    v += 1;
                    s.change(&p.uri, &[t], v);
                }
            }
            (true, 5) => {
                // the manifest changes while the document is closed
                if let Some(path) = uri.strip_prefix("file://").map(unpercent).map(PathBuf::from) {
                    let cargo = path.parent().unwrap().join("Cargo.toml");
                    if cargo.is_file() && !places.iter().any(|q| q.uri != uri && q.uri.starts_with(uri.rsplit_once('/').unwrap().0)) {
                        s.close(&uri);
                        if !s.flush(cx, true) {
                            break;
                        }
                        let (m, nv) = manifest(&mut r);
                        std::fs::write(&cargo, m).unwrap();
                        places[k].ver = nv;
                        cx.count("manifest_replaced");
                        let t = telling(&mut r);
                        s.open(&uri, &t, v, "rust", nv);
                    }
                }
            }
            (true, _) => {
                let d = &s.docs[&uri];
                let (a, b) = texts::selection(&d.text, &mut r);
                let w = r.below(5);
                s.query(&mut r, &uri, w, a, b);
            }
        }
        if r.pct(50) && !s.flush(cx, true) {
            break;
        }
    }
    s.flush(cx, true);
    s.finish(cx, &mut r);
    let h = s.steps.join("\n");
    cx.seen(&format!("{h}{}", places.iter().map(|p| p.ver.name()).collect::<String>()));
    cx.sample(|| json!({"steps": h}));
    drop(s);
    let _ = std::fs::remove_dir_all(&base);
}

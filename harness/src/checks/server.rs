//! Sessions with the real server process, compared message by message with a model of the protocol
//! whose answers come from the analyzer library and an independent position codec.

use crate::api::{self, guard, Edit};
use crate::gen::Ver;
use crate::lsp::*;
use crate::rng::Rng;
use crate::run::Ctx;
use crate::texts;
use ink_analyzer::Analysis;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub const INVALID: i64 = -32602;
pub const NOMETHOD: i64 = -32601;
pub const INTERNAL: i64 = -32603;
const WAIT: u64 = 90;

#[derive(Clone, Debug)]
pub struct Caps {
    pub encs: Option<Vec<&'static str>>,
    pub snippet: Option<bool>,
    pub kinds: Option<Vec<&'static str>>,
    pub resolve: bool,
    pub label_offset: Option<bool>,
    pub active_param: Option<bool>,
    pub apply: Option<bool>,
    pub doc_changes: Option<bool>,
    pub ops: Option<Vec<&'static str>>,
    /// Leave out whole empty groups (`textDocument`, `workspace`, ..) or give them empty.
    pub sparse: bool,
}

pub const KINDS: &[&str] = &["", "quickfix", "refactor", "refactor.extract", "refactor.inline", "refactor.rewrite", "source", "source.organizeImports", "source.fixAll"];

impl Caps {
    pub fn full() -> Caps {
        Caps {
            encs: Some(vec!["utf-8", "utf-16", "utf-32"]),
            snippet: Some(true),
            kinds: Some(KINDS.to_vec()),
            resolve: true,
            label_offset: Some(true),
            active_param: Some(true),
            apply: Some(true),
            doc_changes: Some(true),
            ops: Some(vec!["create", "rename", "delete"]),
            sparse: false,
        }
    }
    pub fn random(r: &mut Rng) -> Caps {
        let tri = |r: &mut Rng| match r.below(4) {
            0 => None,
            1 => Some(false),
            _ => Some(true),
        };
        let mut encs = None;
        if r.pct(75) {
            let mut v = vec!["utf-8", "utf-16", "utf-32"];
            r.shuffle(&mut v);
            v.truncate(r.range(0, 3));
            if r.pct(15) {
                v.insert(r.below(v.len() + 1), "utf-7");
            }
            // the protocol demands utf-16 in every list, but clients leave it out
            encs = Some(v);
        }
        let mut kinds = None;
        if r.pct(75) {
            let mut v = KINDS.to_vec();
            r.shuffle(&mut v);
            v.truncate(r.range(0, KINDS.len()));
            kinds = Some(v);
        }
        let known = kinds.as_ref().map_or(false, |k| k.iter().any(|k| matches!(*k, "" | "quickfix" | "refactor" | "refactor.rewrite")));
        Caps {
            encs,
            snippet: tri(r),
            // only clients that understand the announced resolve support ask for it
            resolve: known && r.pct(50),
            kinds,
            label_offset: tri(r),
            active_param: tri(r),
            apply: tri(r),
            doc_changes: tri(r),
            ops: match r.below(4) {
                0 => None,
                1 => Some(vec!["rename", "delete"]),
                2 => Some(vec!["create"]),
                _ => Some(vec!["create", "rename", "delete"]),
            },
            sparse: r.pct(50),
        }
    }
    pub fn can_apply(&self) -> bool {
        self.apply == Some(true)
    }
    pub fn can_create(&self) -> bool {
        self.can_apply() && self.doc_changes == Some(true) && self.ops.as_ref().map_or(false, |o| o.contains(&"create"))
    }
    pub fn json(&self) -> Value {
        let put = |m: &mut Map<String, Value>, k: &str, v: Value| {
            if !(v.is_null() || (self.sparse && v.as_object().map_or(false, |o| o.is_empty()))) {
                m.insert(k.into(), v);
            }
        };
        let obj = |kv: Vec<(&str, Value)>| {
            let mut m = Map::new();
            for (k, v) in kv {
                put(&mut m, k, v);
            }
            Value::Object(m)
        };
        obj(vec![
            ("general", obj(vec![("positionEncodings", json!(self.encs))])),
            (
                "textDocument",
                obj(vec![
                    ("completion", obj(vec![("completionItem", obj(vec![("snippetSupport", json!(self.snippet))]))])),
                    (
                        "codeAction",
                        obj(vec![
                            ("codeActionLiteralSupport", self.kinds.as_ref().map_or(Value::Null, |k| json!({"codeActionKind": {"valueSet": k}}))),
                            ("dataSupport", if self.resolve { json!(true) } else { Value::Null }),
                            ("resolveSupport", if self.resolve { json!({"properties": ["edit"]}) } else { Value::Null }),
                        ]),
                    ),
                    (
                        "signatureHelp",
                        obj(vec![(
                            "signatureInformation",
                            obj(vec![
                                ("parameterInformation", obj(vec![("labelOffsetSupport", json!(self.label_offset))])),
                                ("activeParameterSupport", json!(self.active_param)),
                            ]),
                        )]),
                    ),
                ]),
            ),
            (
                "workspace",
                obj(vec![
                    ("applyEdit", json!(self.apply)),
                    ("workspaceEdit", obj(vec![("documentChanges", json!(self.doc_changes)), ("resourceOperations", json!(self.ops))])),
                ]),
            ),
        ])
    }
}

pub struct Doc {
    pub text: String,
    pub version: i32,
    pub ver: Ver,
    pub ana: Analysis,
}

impl Doc {
    pub fn new(text: String, version: i32, ver: Ver) -> Doc {
        let ana = Analysis::new(&text, ver.lib());
        Doc { text, version, ver, ana }
    }
}

pub type Judge = Box<dyn FnOnce(&Value) -> Result<(), (String, String)>>;

pub enum Exp {
    Result(Value, &'static str, fn(&Value) -> Value, Value),
    Error(Value, i64),
    /// Exactly one response, whatever it says.
    Any(Value),
    Publish(String, Option<i32>, Vec<Value>),
    Judged(Judge),
}

pub struct Sess {
    pub cl: Client,
    pub enc: Enc,
    pub caps: Caps,
    pub init: Value,
    pub docs: BTreeMap<String, Doc>,
    pub batch: Vec<(Value, Vec<Exp>)>,
    pub next: i64,
    pub dead: bool,
    pub steps: Vec<String>,
    pub last: Vec<Value>,
}

pub fn note(method: &str, params: Value) -> Value {
    json!({"jsonrpc": "2.0", "method": method, "params": params})
}

/// Text and snippet-ness of completions.
pub fn norm_completion(v: &Value) -> Value {
    let items = if v.is_array() { v.clone() } else { v["items"].clone() };
    let Some(a) = items.as_array() else { return json!([]) };
    Value::Array(
        a.iter()
            .map(|c| {
                let te = &c["textEdit"];
                let range = if te["range"].is_null() { te["replace"].clone() } else { te["range"].clone() };
                json!({"label": c["label"], "detail": c["detail"], "new": te["newText"], "range": range, "snippet": c["insertTextFormat"].as_i64() == Some(2)})
            })
            .collect(),
    )
}
fn flat(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => a.iter().map(flat).collect::<Vec<_>>().join("\n"),
        Value::Object(_) => v["value"].as_str().unwrap_or("").to_string(),
        _ => String::new(),
    }
}
pub fn norm_hover(v: &Value) -> Value {
    if v.is_null() {
        return Value::Null;
    }
    json!({"text": flat(&v["contents"]), "range": v["range"]})
}
pub fn norm_hints(v: &Value) -> Value {
    let Some(a) = v.as_array() else { return json!([]) };
    Value::Array(
        a.iter()
            .map(|h| {
                let l = if let Some(p) = h["label"].as_array() { p.iter().map(|x| x["value"].as_str().unwrap_or("")).collect() } else { h["label"].as_str().unwrap_or("").to_string() };
                json!({"position": h["position"], "label": l.trim_start_matches(':').trim(), "tooltip": flat(&h["tooltip"])})
            })
            .collect(),
    )
}
pub fn norm_sig(v: &Value) -> Value {
    let Some(a) = v["signatures"].as_array() else { return Value::Null };
    if a.is_empty() {
        return Value::Null;
    }
    let sigs: Vec<Value> = a
        .iter()
        .map(|s| {
            let ps: Vec<Value> = s["parameters"].as_array().into_iter().flatten().map(|p| json!({"label": p["label"], "doc": flat(&p["documentation"])})).collect();
            json!({"label": s["label"], "doc": flat(&s["documentation"]), "params": ps, "active": s["activeParameter"]})
        })
        .collect();
    json!({"signatures": sigs, "activeSignature": v["activeSignature"].as_i64().unwrap_or(0), "activeParameter": v["activeParameter"]})
}
pub fn norm_edit(e: &Value) -> Value {
    // WorkspaceEdit with plain changes -> {uri: [edits]}
    let mut m = Map::new();
    if let Some(c) = e["changes"].as_object() {
        for (u, es) in c {
            m.insert(u.clone(), strip(es));
        }
    }
    if let Some(c) = e["documentChanges"].as_array() {
        for d in c {
            if let Some(u) = d["textDocument"]["uri"].as_str() {
                m.insert(u.into(), strip(&d["edits"]));
            }
        }
    }
    Value::Object(m)
}
pub fn norm_actions(v: &Value) -> Value {
    let Some(a) = v.as_array() else { return json!([]) };
    Value::Array(
        a.iter()
            .map(|c| {
                let kind = c["kind"].as_str().unwrap_or("").split('.').next().unwrap_or("").to_string();
                let mut lazy = Value::Null;
                let mut how = "none";
                if !c["data"]["command"].is_null() {
                    lazy = json!({"command": c["data"]["command"], "uri": c["data"]["uri"], "range": c["data"]["range"]});
                    how = "data";
                }
                if !c["command"].is_null() {
                    lazy = json!({"command": c["command"]["command"], "uri": c["command"]["arguments"][0]["uri"], "range": c["command"]["arguments"][0]["range"]});
                    how = if how == "data" { "both" } else { "command" };
                }
                json!({"title": c["title"], "kind": kind, "edit": norm_edit(&c["edit"]), "lazy": lazy, "how": how, "snippets": c["data"]["snippets"]})
            })
            .collect(),
    )
}

pub fn edits_json(es: &[Edit], text: &str, enc: Enc) -> Value {
    Value::Array(es.iter().map(|e| json!({"range": range_json(text, e.s, e.e, enc), "newText": e.text})).collect())
}

pub fn want_diags(d: &Doc, enc: Enc) -> Vec<Value> {
    let mut v: Vec<Value> = d
        .ana
        .diagnostics()
        .iter()
        .map(|x| {
            let x = api::diag(x);
            json!({"range": range_json(&d.text, x.s, x.e, enc), "message": x.msg, "severity": if x.error { 1 } else { 2 }})
        })
        .collect();
    v.sort_by_key(|x| x.to_string());
    v
}
pub fn want_completion(d: &Doc, off: usize, enc: Enc, caps: &Caps) -> Value {
    let snip = caps.snippet == Some(true);
    Value::Array(
        d.ana
            .completions(api::size(off))
            .iter()
            .map(|c| {
                let (s, e) = api::us(c.range);
                let use_snip = snip && c.edit.snippet.is_some();
                json!({"label": c.label, "detail": c.detail, "new": if use_snip { c.edit.snippet.clone().unwrap() } else { c.edit.text.clone() },
                    "range": range_json(&d.text, s, e, enc), "snippet": use_snip})
            })
            .collect(),
    )
}
pub fn want_hover(d: &Doc, off: usize, enc: Enc) -> Value {
    match d.ana.hover(api::range(off, off)) {
        Some(h) => {
            let (s, e) = api::us(h.range);
            json!({"text": h.content, "range": range_json(&d.text, s, e, enc)})
        }
        None => Value::Null,
    }
}
pub fn want_hints(d: &Doc, s: usize, e: usize, enc: Enc) -> Value {
    Value::Array(
        d.ana
            .inlay_hints(Some(api::range(s, e)))
            .iter()
            .map(|h| json!({"position": pos_json(&d.text, usize::from(h.position), enc), "label": h.label.trim_start_matches(':').trim(), "tooltip": h.detail.clone().unwrap_or_default()}))
            .collect(),
    )
}
/// `prev`: label of the signature that the user had selected (with a non-zero index).
pub fn want_sig(d: &Doc, off: usize, enc: Enc, caps: &Caps, prev: Option<&str>) -> Value {
    let ss = d.ana.signature_help(api::size(off));
    if ss.is_empty() {
        return Value::Null;
    }
    let act = prev.and_then(|l| ss.iter().position(|s| s.label == l)).unwrap_or(0);
    let sigs: Vec<Value> = ss
        .iter()
        .map(|s| {
            let ps: Vec<Value> = s
                .parameters
                .iter()
                .map(|p| {
                    let (a, b) = api::us(p.range);
                    let label = if caps.label_offset == Some(true) { json!([enc.len(&s.label[..a]), enc.len(&s.label[..b])]) } else { json!(&s.label[a..b]) };
                    json!({"label": label, "doc": p.detail.clone().unwrap_or_default()})
                })
                .collect();
            let active = if caps.active_param == Some(true) { json!(s.active_parameter) } else { Value::Null };
            json!({"label": s.label, "doc": s.detail.clone().unwrap_or_default(), "params": ps, "active": active})
        })
        .collect();
    json!({"signatures": sigs, "activeSignature": act, "activeParameter": ss[act].active_parameter})
}
pub fn want_actions(d: &Doc, uri: &str, s: usize, e: usize, enc: Enc, caps: &Caps) -> Value {
    Value::Array(
        d.ana
            .actions(api::range(s, e))
            .iter()
            .map(|a| {
                let a = api::act(a);
                let cmd = match a.kind.as_str() {
                    "Migrate" => Some("migrateProject"),
                    "Extract" => Some("extractEvent"),
                    _ => None,
                };
                let kind = if a.kind == "QuickFix" { "quickfix" } else { "refactor" };
                match cmd {
                    Some(c) => json!({"title": a.label, "kind": kind, "edit": {}, "lazy": {"command": c, "uri": uri, "range": {"start": a.s, "end": a.e}},
                        "how": if caps.resolve { "data" } else { "command" }, "snippets": Value::Null}),
                    None => {
                        let mut sn = Map::new();
                        for e in &a.edits {
                            if let Some(x) = &e.snippet {
                                sn.insert(e.text.clone(), json!(x));
                            }
                        }
                        json!({"title": a.label, "kind": kind, "edit": {uri: edits_json(&a.edits, &d.text, enc)}, "lazy": Value::Null, "how": "none",
                            "snippets": if sn.is_empty() { Value::Null } else { Value::Object(sn) }})
                    }
                }
            })
            .collect(),
    )
}

fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 700 {
        format!("{}…", s.chars().take(700).collect::<String>())
    } else {
        s
    }
}

impl Sess {
    /// Starts the server and initializes it; judges the announced capabilities.
    pub fn start(cx: &mut Ctx, caps: Caps, dir: &Path) -> Option<Sess> {
        let mut cl = Client::start(dir);
        let c = caps.json();
        cl.send(json!({"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": {"processId": null, "rootUri": null, "capabilities": c}}));
        let r = cl.recv(WAIT);
        let mut s = Sess { cl, enc: Enc::U16, caps, init: Value::Null, docs: BTreeMap::new(), batch: vec![], next: 1, dead: false, steps: vec![], last: vec![] };
        let Got::Msg(m) = r else {
            s.fail(cx, "initialize:no-answer", "the initialize request was not answered");
            return None;
        };
        if m["id"] != json!(0) || m["result"]["capabilities"].is_null() {
            s.fail(cx, "initialize:bad-answer", &format!("unexpected answer to initialize: {}", short(&m)));
            return None;
        }
        s.init = m["result"].clone();
        let got = s.init["capabilities"]["positionEncoding"].as_str().unwrap_or("utf-16").to_string();
        let ok = got == "utf-16" || s.caps.encs.as_ref().map_or(false, |e| e.contains(&got.as_str()));
        match Enc::parse(&got) {
            Some(e) if ok => s.enc = e,
            _ => {
                s.fail(cx, "initialize:encoding", &format!("position encoding {got} chosen, client supports {:?}", s.caps.encs));
                return None;
            }
        }
        s.cl.send(note("initialized", json!({})));
        cx.count("sessions");
        cx.count(&format!("encoding:{got}"));
        Some(s)
    }

    pub fn fail(&mut self, cx: &mut Ctx, sig: &str, what: &str) {
        self.dead = true;
        let sent: Vec<Value> = self.cl.sent.iter().cloned().collect();
        let caps = self.caps.json();
        cx.violate(sig, what, json!({"steps": self.steps.join("\n"), "capabilities": caps, "sent": sent.iter().rev().take(12).rev().collect::<Vec<_>>()}));
    }

    pub fn id(&mut self, r: &mut Rng) -> Value {
        self.next += 1;
        let n = self.next;
        match r.below(6) {
            0 => json!(format!("s-{n}")),
            1 => json!(-n),
            2 => json!(format!("{n}")),
            _ => json!(n),
        }
    }

    pub fn push(&mut self, m: Value, e: Vec<Exp>) {
        self.batch.push((m, e));
    }

    /// Sends what was queued (in one write or one by one) and compares everything that comes back.
    pub fn flush(&mut self, cx: &mut Ctx, together: bool) -> bool {
        if self.dead {
            self.batch.clear();
            return false;
        }
        self.last.clear();
        let batch = std::mem::take(&mut self.batch);
        let groups: Vec<Vec<(Value, Vec<Exp>)>> = if together { vec![batch] } else { batch.into_iter().map(|b| vec![b]).collect() };
        for g in groups {
            let mut exps = vec![];
            let mut ms = vec![];
            for (m, e) in g {
                self.steps.push(format!("-> {} {}", m["method"].as_str().unwrap_or("(response)"), m["id"]));
                exps.push((m["method"].as_str().unwrap_or("").to_string(), e));
                ms.push(m);
            }
            cx.add("messages_sent", ms.len() as u64);
            self.cl.send_all(ms);
            for (method, es) in exps {
                for e in es {
                    let m = match self.cl.recv(WAIT) {
                        Got::Msg(m) => m,
                        Got::Timeout => {
                            self.fail(cx, &format!("no-answer:{method}"), &format!("no answer to {method} within {WAIT} s"));
                            return false;
                        }
                        Got::Closed => {
                            let err = self.cl.stderr();
                            let l = err.lines().find(|l| l.contains("panicked")).unwrap_or("").to_string();
                            let site = l.split("panicked at ").nth(1).map(|x| x.rsplit("/crates/").next().unwrap_or(x).to_string()).unwrap_or_else(|| "ended".into());
                            self.fail(cx, &format!("server-ended:{method}:{}", site.split(':').take(2).collect::<Vec<_>>().join(":")), &format!("the server ended while handling {method}: {}", err.lines().take(4).collect::<Vec<_>>().join(" | ")));
                            return false;
                        }
                    };
                    cx.count("messages_received");
                    self.last.push(m.clone());
                    self.steps.push(format!("<- {} {}", m["method"].as_str().unwrap_or("response"), m["id"]));
                    if !self.judge(cx, &method, e, &m) {
                        return false;
                    }
                }
            }
        }
        true
    }

    fn judge(&mut self, cx: &mut Ctx, method: &str, e: Exp, m: &Value) -> bool {
        let is_resp = m["method"].is_null() && !m["id"].is_null();
        match e {
            Exp::Any(id) => {
                if !is_resp || m["id"] != id {
                    self.fail(cx, &format!("response:{method}"), &format!("expected a response to {method} with id {id}, got {}", short(m)));
                    return false;
                }
            }
            Exp::Error(id, code) => {
                if !is_resp || m["id"] != id || m["error"]["code"] != json!(code) || !m["result"].is_null() {
                    self.fail(cx, &format!("error:{method}:{code}"), &format!("expected error {code} for {method} with id {id}, got {}", short(m)));
                    return false;
                }
                cx.count(&format!("answer:error{code}"));
            }
            Exp::Result(id, what, norm, want) => {
                if !is_resp || m["id"] != id || !m["error"].is_null() {
                    self.fail(cx, &format!("response:{what}"), &format!("expected a result for {what} with id {id}, got {}", short(m)));
                    return false;
                }
                let got = strip(&norm(&m["result"]));
                let want = strip(&want);
                if got != want {
                    let d = first_diff(&want, &got, String::new());
                    self.fail(cx, &format!("content:{what}:{}", d.0), &format!("{what}: {}\nexpected {}\ngot      {}", d.0, short(&d.1), short(&d.2)));
                    return false;
                }
                cx.count(&format!("answer:{what}"));
                if want.as_array().map_or(!want.is_null(), |a| !a.is_empty()) {
                    cx.count(&format!("nonempty:{what}"));
                    cx.seen(&want.to_string());
                }
            }
            Exp::Publish(uri, version, diags) => {
                if m["method"] != json!("textDocument/publishDiagnostics") {
                    self.fail(cx, &format!("publish:missing:{method}"), &format!("expected diagnostics for {uri} after {method}, got {}", short(m)));
                    return false;
                }
                let p = &m["params"];
                if p["uri"] != json!(uri) {
                    self.fail(cx, "publish:uri", &format!("expected diagnostics for {uri}, got them for {}", p["uri"]));
                    return false;
                }
                let v = p["version"].as_i64();
                if version.is_some() && v != version.map(i64::from) {
                    self.fail(cx, "publish:version", &format!("expected diagnostics for version {version:?}, got {v:?}"));
                    return false;
                }
                let mut got: Vec<Value> = p["diagnostics"].as_array().into_iter().flatten().map(|d| json!({"range": d["range"], "message": d["message"], "severity": d["severity"]})).collect();
                got.sort_by_key(|x| x.to_string());
                if got != diags {
                    let d = first_diff(&json!(diags), &json!(got), String::new());
                    self.fail(cx, &format!("publish:content:{}", d.0), &format!("diagnostics of {uri} version {version:?}: {}\nexpected {}\ngot      {}", d.0, short(&d.1), short(&d.2)));
                    return false;
                }
                cx.count("publications");
                if !diags.is_empty() {
                    cx.count("publications_nonempty");
                    cx.seen(&json!(diags).to_string());
                }
            }
            Exp::Judged(f) => {
                if let Err((sig, what)) = f(m) {
                    self.fail(cx, &sig, &what);
                    return false;
                }
            }
        }
        true
    }

    // --- documents

    pub fn open(&mut self, uri: &str, text: &str, version: i32, lang: &str, ver: Ver) {
        let mut e = vec![];
        if lang == "rust" {
            let d = Doc::new(text.to_string(), version, ver);
            e.push(Exp::Publish(uri.into(), Some(version), want_diags(&d, self.enc)));
            self.docs.insert(uri.into(), d);
        }
        self.push(note("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": lang, "version": version, "text": text}})), e);
    }
    /// Content changes (full texts; the last one counts).
    pub fn change(&mut self, uri: &str, texts: &[String], version: i32) {
        let mut e = vec![];
        if let (Some(d), Some(t)) = (self.docs.get(uri), texts.last()) {
            let ver = d.ver;
            let d = Doc::new(t.clone(), version, ver);
            e.push(Exp::Publish(uri.into(), Some(version), want_diags(&d, self.enc)));
            self.docs.insert(uri.into(), d);
        }
        let ch: Vec<Value> = texts.iter().map(|t| json!({"text": t})).collect();
        self.push(note("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": ch})), e);
    }
    pub fn close(&mut self, uri: &str) {
        let mut e = vec![];
        if self.docs.remove(uri).is_some() {
            e.push(Exp::Publish(uri.into(), None, vec![]));
        }
        self.push(note("textDocument/didClose", json!({"textDocument": {"uri": uri}})), e);
    }

    /// A request of one of the query methods at an offset (or selection).
    pub fn query(&mut self, r: &mut Rng, uri: &str, which: usize, s: usize, e: usize) {
        let id = self.id(r);
        let enc = self.enc;
        let td = json!({"uri": uri});
        let names = ["textDocument/completion", "textDocument/hover", "textDocument/inlayHint", "textDocument/signatureHelp", "textDocument/codeAction"];
        let method = names[which];
        let norms: [fn(&Value) -> Value; 5] = [norm_completion, norm_hover, norm_hints, norm_sig, norm_actions];
        let (mut params, want, text): (Value, Result<Value, String>, &str) = match self.docs.get(uri) {
            None => {
                let p = json!({"line": s as u32, "character": e as u32});
                let params = if which == 2 || which == 4 { json!({"textDocument": td, "range": {"start": p, "end": p}}) } else { json!({"textDocument": td, "position": p}) };
                (params, Ok(norms[which](&Value::Null)), "")
            }
            Some(d) => {
                let caps = &self.caps;
                let params = if which == 2 || which == 4 {
                    json!({"textDocument": td, "range": range_json(&d.text, s, e, enc)})
                } else {
                    json!({"textDocument": td, "position": pos_json(&d.text, s, enc)})
                };
                let want = guard(|| match which {
                    0 => want_completion(d, s, enc, caps),
                    1 => want_hover(d, s, enc),
                    2 => want_hints(d, s, e, enc),
                    3 => want_sig(d, s, enc, caps, None),
                    _ => want_actions(d, uri, s, e, enc, caps),
                });
                (params, want, d.text.as_str())
            }
        };
        let _ = text;
        let Ok(mut want) = want else { return };
        if which == 4 {
            params["context"] = json!({"diagnostics": []});
        }
        if which == 3 && r.pct(40) && self.docs.contains_key(uri) {
            // the user had selected another signature
            let d = &self.docs[uri];
            if let Ok(ss) = guard(|| d.ana.signature_help(api::size(s)).into_iter().map(|x| x.label).collect::<Vec<_>>()) {
                if !ss.is_empty() {
                    let k = r.below(ss.len());
                    let mut labels = ss.clone();
                    if r.pct(30) {
                        labels.insert(0, "other".into());
                    }
                    let k = k.min(labels.len() - 1);
                    params["context"] = json!({"triggerKind": 1, "isRetrigger": true, "activeSignatureHelp": {"signatures": labels.iter().map(|l| json!({"label": l})).collect::<Vec<_>>(), "activeSignature": k}});
                    let caps = &self.caps;
                    if let Ok(w) = guard(|| want_sig(d, s, enc, caps, if k > 0 { Some(labels[k].as_str()) } else { None })) {
                        want = w;
                    }
                }
            }
        }
        self.push(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}), vec![Exp::Result(id, method, norms[which], want)]);
    }

    /// Shutdown and exit; nothing else may arrive.
    pub fn finish(&mut self, cx: &mut Ctx, r: &mut Rng) {
        if self.dead {
            return;
        }
        let id = self.id(r);
        let direct = r.pct(10);
        if !direct {
            self.push(json!({"jsonrpc": "2.0", "id": id, "method": "shutdown", "params": null}), vec![Exp::Result(id, "shutdown", |v| v.clone(), Value::Null)]);
            if !self.flush(cx, true) {
                return;
            }
        }
        self.cl.send(note("exit", Value::Null));
        match self.cl.recv(WAIT) {
            Got::Msg(m) => {
                self.fail(cx, &format!("unexpected:{}", m["method"].as_str().unwrap_or("response")), &format!("message that nothing asked for: {}", short(&m)));
                return;
            }
            Got::Timeout => {
                self.fail(cx, "exit:ignored", "the server did not end after exit");
                return;
            }
            Got::Closed => (),
        }
        let (ended, code) = self.cl.wait(WAIT);
        if !ended || (!direct && code != Some(0)) {
            self.fail(cx, "exit:code", &format!("after shutdown and exit: ended {ended}, code {code:?}"));
        }
        cx.count("sessions_completed");
    }
}

pub fn first_diff(a: &Value, b: &Value, path: String) -> (String, Value, Value) {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                // name the first element that is missing or additional
                let only = |p: &[Value], q: &[Value]| p.iter().find(|e| !q.contains(e)).cloned().unwrap_or(Value::Null);
                return (format!("{path}[len]"), only(x, y), only(y, x));
            }
            for (p, q) in x.iter().zip(y) {
                if p != q {
                    return first_diff(p, q, format!("{path}[]"));
                }
            }
            (path, a.clone(), b.clone())
        }
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                let w = y.get(k).cloned().unwrap_or(Value::Null);
                if *v != w {
                    return first_diff(v, &w, format!("{path}.{}", if k.contains("://") { "uri" } else { k }));
                }
            }
            for (k, v) in y {
                if !x.contains_key(k) {
                    return (format!("{path}.{}", if k.contains("://") { "uri" } else { k }), Value::Null, v.clone());
                }
            }
            (path, a.clone(), b.clone())
        }
        _ => (path, a.clone(), b.clone()),
    }
}

// --- projects on disk

/// A manifest and the ink! version that it declares.
pub fn manifest(r: &mut Rng) -> (String, Ver) {
    let v5 = r.pct(50);
    let req = if v5 {
        let t = ["5.0.0", "5.0", "5", "^5.0.0", "~5.0", "=5.0.0", ">=5.0.0", ">= 5.0", "5.*", " 5.1.2", "5.0.0-rc.1", "^5", "=5"];
        t[r.below(t.len())]
    } else {
        let t = ["4.3.0", "4.3", "4", "^4.0", "~4.2", "=4.0.1", "4.*", ">=4.0, <5", "4.0.0-beta.1", "3.4.0", "4.5.0", "4.3.5", "=4.5"];
        t[r.below(t.len())]
    };
    let (dep, v) = match r.below(8) {
        0 => (format!("ink = \"{req}\""), v5),
        1 | 2 => (format!("ink = {{ version = \"{req}\", default-features = false }}"), v5),
        3 => (format!("[dependencies.ink]\nversion = \"{req}\"\ndefault-features = false"), v5),
        4 => ("ink = { path = \"../ink\", default-features = false }".to_string(), true),
        5 => ("ink = { git = \"https://example.org/ink\", branch = \"main\" }".to_string(), true),
        6 => (format!("ink = {{ version = \"{req}\", path = \"../ink\" }}"), v5),
        _ => (format!("ink.version = \"{req}\"\nink.default-features = false"), v5),
    };
    let none = r.pct(6);
    let (dep, v) = if none { ("other = \"5.0.0\"".to_string(), false) } else { (dep, v) };
    let head = "[package]\nname = \"pack\"\nversion = \"5.0.0\"\nedition = \"2021\"\n\n";
    let body = if dep.starts_with('[') { format!("[dependencies]\nserde = \"1.0\"\n\n{dep}\n") } else { format!("[dependencies]\nserde = \"5.0\"\n{dep}\n") };
    (format!("{head}{body}\n[features]\ndefault = [\"std\"]\nstd = []\n"), if v { Ver::V5 } else { Ver::V4 })
}

/// A project directory with random shape; returns paths of source files and the version that governs them.
pub fn project(r: &mut Rng, dir: &Path) -> Vec<(PathBuf, Ver)> {
    let w = |p: PathBuf, s: &str| {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, s).unwrap();
    };
    let mut out = vec![];
    match r.below(6) {
        0 | 1 => {
            // a plain package
            let (m, v) = manifest(r);
            w(dir.join("Cargo.toml"), &m);
            for f in ["lib.rs", "src/lib.rs", "src/a/b/c.rs", "tests/t.rs"] {
                out.push((dir.join(f), v));
            }
        }
        2 => {
            // a package in a workspace, with its own requirement
            let (m, v) = manifest(r);
            let (o, _) = manifest(r);
            w(dir.join("Cargo.toml"), &format!("[workspace]\nmembers = [\"m\"]\n\n[workspace.dependencies]\n{}\n", dep_line(&o)));
            w(dir.join("m/Cargo.toml"), &m);
            out.push((dir.join("m/lib.rs"), v));
            out.push((dir.join("m/src/lib.rs"), v));
        }
        3 | 4 => {
            // through the workspace
            let v5 = r.pct(50);
            let req = if v5 { "5.0.0" } else { "4.3.0" };
            let wd = match r.below(3) {
                0 => format!("ink = \"{req}\""),
                1 => format!("ink = {{ version = \"{req}\", default-features = false }}"),
                _ => format!("ink = {{ version = \"{req}\", features = [] }}\nother = \"1\""),
            };
            let v = if v5 { Ver::V5 } else { Ver::V4 };
            let via = ["ink = { workspace = true }", "ink.workspace = true", "ink = { workspace = true, default-features = false }"][r.below(3)];
            if r.pct(25) {
                // the package is the workspace root
                w(dir.join("Cargo.toml"), &format!("[package]\nname = \"pack\"\nversion = \"0.1.0\"\n\n[workspace]\n\n[workspace.dependencies]\n{wd}\n\n[dependencies]\n{via}\n"));
                out.push((dir.join("src/lib.rs"), v));
                out.push((dir.join("lib.rs"), v));
            } else {
                w(dir.join("Cargo.toml"), &format!("[workspace]\nmembers = [\"contracts/*\"]\n\n[workspace.dependencies]\n{wd}\n"));
                w(dir.join("contracts/m/Cargo.toml"), &format!("[package]\nname = \"pack\"\nversion = \"0.1.0\"\n\n[dependencies]\n{via}\n"));
                out.push((dir.join("contracts/m/src/lib.rs"), v));
                out.push((dir.join("contracts/m/lib.rs"), v));
            }
        }
        _ => {
            // nested packages: the nearest manifest governs
            let (m, v) = manifest(r);
            let (o, ov) = manifest(r);
            w(dir.join("Cargo.toml"), &o);
            w(dir.join("sub/Cargo.toml"), &m);
            out.push((dir.join("sub/src/lib.rs"), v));
            out.push((dir.join("src/lib.rs"), ov));
        }
    }
    if r.pct(12) {
        // broken manifest: nothing can be read from it
        let d = dir.join("brk");
        w(d.join("Cargo.toml"), "[package\nname = 5.0\n");
        out.push((d.join("src/lib.rs"), Ver::V4));
    }
    for (p, _) in &out {
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    }
    out
}
fn dep_line(m: &str) -> String {
    m.lines().find(|l| l.starts_with("ink = ")).unwrap_or("ink = \"4.0.0\"").to_string()
}

pub struct Place {
    pub uri: String,
    pub ver: Ver,
}

/// Documents of a session: on disk in projects, and elsewhere.
pub fn world(cx: &mut Ctx, r: &mut Rng, n: usize) -> (PathBuf, Vec<Place>) {
    let base = cx.scratch.join(format!("c{}", cx.idx));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).unwrap();
    let mut ps = vec![];
    while ps.len() < n {
        if r.pct(80) {
            let name = ["proj", "my proj", "prøj", "p-1", "a+b"][r.below(5)];
            let d = base.join(format!("{name}{}", ps.len()));
            for (p, v) in project(r, &d) {
                if ps.len() < n && r.pct(70) {
                    ps.push(Place { uri: uri_of(&p), ver: v });
                }
            }
        } else {
            let k = ps.len();
            ps.push(Place { uri: [format!("untitled:Untitled-{k}"), format!("file:///nonexistent/x{k}/lib.rs"), format!("vscode-vfs://host/x{k}/lib.rs")][r.below(3)].clone(), ver: Ver::V4 });
        }
    }
    (base, ps)
}

pub struct Mix {
    pub changes: u32,
    pub queries: u32,
    pub odd: u32,
    pub steps: (usize, usize),
    pub hostile: u32,
    pub unicode: bool,
}

fn text_for(r: &mut Rng, v: Ver, mix: &Mix) -> String {
    // the document may be written for the other version
    let v = if r.pct(75) { v } else if v == Ver::V4 { Ver::V5 } else { Ver::V4 };
    let t = if r.pct(mix.hostile) { texts::hostile(r, v) } else { texts::document(r, v) };
    let mut t = if mix.unicode {
        let n = r.range(3, 40);
        texts::unicode(&t, r, n)
    } else {
        t
    };
    // a lone carriage return is a line end for LSP but not for Rust
    let b: Vec<char> = t.chars().collect();
    if b.iter().enumerate().any(|(i, c)| *c == '\r' && b.get(i + 1) != Some(&'\n')) {
        t = t.replace("\r\n", "\n").replace('\r', " ");
    }
    t
}

/// Malformed and unusual messages; the expectation is what the protocol demands.
fn odd_message(s: &mut Sess, r: &mut Rng, places: &[Place]) {
    let uri = places[r.below(places.len())].uri.clone();
    let id = s.id(r);
    let req = |m: &str, p: Value| json!({"jsonrpc": "2.0", "id": id, "method": m, "params": p});
    let methods = ["textDocument/completion", "textDocument/hover", "textDocument/inlayHint", "textDocument/signatureHelp", "textDocument/codeAction", "workspace/executeCommand", "codeAction/resolve"];
    let notes = ["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"];
    let junk = |r: &mut Rng| match r.below(9) {
        0 => Value::Null,
        1 => json!([]),
        2 => json!({}),
        3 => json!(7),
        4 => json!("text"),
        5 => json!({"textDocument": {}}),
        6 => json!({"textDocument": {"uri": 5}, "position": {"line": 0, "character": 0}}),
        7 => json!({"textDocument": {"uri": "not a uri"}, "position": {"line": 0, "character": 0}}),
        _ => json!({"textDocument": {"uri": "file:///a.rs"}, "position": {"line": -1, "character": "x"}}),
    };
    match r.below(13) {
        0 => {
            let m = ["textDocument/definition", "workspace/symbol", "foo/bar", "textDocument/formatting", "$/unknown", "completionItem/resolve", "textDocument/Hover", "", "workspace/diagnostic"][r.below(9)];
            s.push(req(m, junk(r)), vec![Exp::Error(id.clone(), NOMETHOD)]);
        }
        1 | 2 => {
            let m = methods[r.below(6)];
            s.push(req(m, junk(r)), vec![Exp::Error(id.clone(), INVALID)]);
        }
        3 | 4 => {
            // parameters of a known notification are malformed: ignored
            s.push(note(notes[r.below(3)], junk(r)), vec![]);
        }
        5 => {
            let m = ["$/cancelRequest", "$/setTrace", "workspace/didChangeConfiguration", "textDocument/didSave", "textDocument/willSave", "workspace/didChangeWatchedFiles", "foo", "$/progress"][r.below(8)];
            s.push(note(m, if r.pct(50) { json!({"textDocument": {"uri": uri}, "id": 1}) } else { junk(r) }), vec![]);
        }
        6 => {
            // responses to requests that were never made
            let m = if r.pct(50) { json!({"jsonrpc": "2.0", "id": format!("x-{}", r.below(100)), "result": {"applied": true}}) } else { json!({"jsonrpc": "2.0", "id": r.below(100), "error": {"code": -32000, "message": "no"}}) };
            s.push(m, vec![]);
        }
        7 => {
            // position past the end
            if let Some(d) = s.docs.get(&uri) {
                let lines = d.text.matches('\n').count() as u64;
                let which = r.below(3);
                let m = ["textDocument/completion", "textDocument/hover", "textDocument/signatureHelp"][which];
                let (line, ch) = match r.below(4) {
                    0 => (lines + 1 + r.below(5) as u64, 0),
                    1 => (u32::MAX as u64, u32::MAX as u64),
                    2 => (r.below(lines as usize + 1) as u64, 100_000),
                    _ => (r.below(lines as usize + 1) as u64, u32::MAX as u64),
                };
                let p = json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}});
                let e = match to_off(&d.text, line as u32, ch as u32, s.enc) {
                    At::Past(o) if !d.text[..o].ends_with('\r') => {
                        let (enc, caps) = (s.enc, s.caps.clone());
                        match guard(|| match which {
                            0 => want_completion(d, o, enc, &caps),
                            1 => want_hover(d, o, enc),
                            _ => want_sig(d, o, enc, &caps, None),
                        }) {
                            Ok(w) => Exp::Result(id.clone(), m, [norm_completion as fn(&Value) -> Value, norm_hover, norm_sig][which], w),
                            Err(_) => return,
                        }
                    }
                    _ => Exp::Any(id.clone()),
                };
                s.push(req(m, p), vec![e]);
            }
        }
        8 => {
            // ranges: reversed, past the end
            if s.docs.contains_key(&uri) {
                let m = ["textDocument/inlayHint", "textDocument/codeAction"][r.below(2)];
                let a = json!({"line": r.below(300), "character": r.below(90)});
                let b = json!({"line": r.below(300), "character": if r.pct(20) { u32::MAX as usize } else { r.below(90) }});
                s.push(req(m, json!({"textDocument": {"uri": uri}, "range": {"start": a, "end": b}, "context": {"diagnostics": []}})), vec![Exp::Any(id.clone())]);
            }
        }
        9 => {
            // commands: unknown, without or with bad arguments
            let (c, a) = match r.below(9) {
                0 => ("nope", json!([])),
                1 => ("createProject", json!([])),
                2 => ("createProject", json!([{"name": "x"}])),
                3 => ("createProject", json!([{"name": 5, "root": "file:///x"}])),
                4 => ("migrateProject", json!([{"uri": 7}])),
                5 => ("migrateProject", json!([{"uri": "file:///not/open.rs"}])),
                6 => ("extractEvent", json!([{"uri": uri}])),
                7 => ("extractEvent", json!([{"uri": uri, "range": {"start": 10, "end": 5}}])),
                _ => ("extractEvent", json!([{"uri": uri, "range": {"start": 4_000_000_000u64, "end": 4_000_000_001u64}}])),
            };
            s.push(req("workspace/executeCommand", json!({"command": c, "arguments": a})), vec![Exp::Error(id.clone(), INTERNAL)]);
        }
        10 => {
            // code actions that cannot be resolved
            let (p, code) = match r.below(5) {
                0 => (json!({"title": "t"}), INTERNAL),
                1 => (json!({"title": "t", "data": {"command": "nope"}}), INTERNAL),
                2 => (json!({"title": "t", "data": {"command": "migrateProject"}}), INTERNAL),
                3 => (json!({"title": "t", "data": {"command": "extractEvent", "uri": uri}}), INTERNAL),
                _ => (json!({"title": 5}), INVALID),
            };
            s.push(req("codeAction/resolve", p), vec![Exp::Error(id.clone(), code)]);
        }
        11 => {
            // changes and closing of documents that are not open
            let u = "file:///never/opened.rs";
            if r.pct(50) {
                s.change(u, &["fn x() {}".to_string()], 3);
            } else {
                s.close(u);
            }
        }
        _ => {
            // a change without content
            if let Some(d) = s.docs.get(&uri) {
                let v = d.version + 1;
                s.change(&uri, &[], v);
            }
        }
    }
}

/// The text with an attribute being typed, and the cursor.
fn typed(t: &str, r: &mut Rng) -> Option<(String, usize)> {
    let n = t.matches("#[ink").count();
    if n == 0 {
        return None;
    }
    let i = t.match_indices("#[ink").nth(r.below(n)).unwrap().0;
    let ins = ["#[ink()]", "#[ink::]", "#[ink(me)]", "#[ink::co]", "#[ink(message, )]", "#[ink(event, )]", "#[ink(s", "#[in"][r.below(8)];
    let k = i + ins.find([')', ']']).unwrap_or(ins.len());
    let sep = ["\n", " ", "/*🦀*/\n"][r.below(3)];
    Some((format!("{}{ins}{sep}{}", &t[..i], &t[i..]), k))
}

/// A random session.
pub fn session(cx: &mut Ctx, r: &mut Rng, caps: Caps, mix: &Mix) {
    let n = r.range(1, 4);
    let (base, places) = world(cx, r, n);
    let Some(mut s) = Sess::start(cx, caps, &base) else {
        let _ = std::fs::remove_dir_all(&base);
        return;
    };
    if !announced(cx, &mut s) {
        let _ = std::fs::remove_dir_all(&base);
        return;
    }
    let mut ver = 0;
    let steps = r.range(mix.steps.0, mix.steps.1);
    for _ in 0..steps {
        let pl = &places[r.below(places.len())];
        let open = s.docs.contains_key(&pl.uri);
        let x = r.below(100) as u32;
        ver += r.range(1, 3) as i32;
        if x < mix.changes {
            if !open {
                if r.pct(10) {
                    let t = text_for(r, pl.ver, mix);
                    s.open(&pl.uri, &t, ver, ["toml", "plaintext", "Rust", "rs", ""][r.below(5)], pl.ver);
                } else {
                    let t = text_for(r, pl.ver, mix);
                    s.open(&pl.uri, &t, ver, "rust", pl.ver);
                }
            } else {
                match r.below(10) {
                    0 => s.close(&pl.uri),
                    1 | 2 => {
                        // a small edit of the current text
                        let mut t = s.docs[&pl.uri].text.clone();
                        let k = texts::position(&t, r);
                        t.insert_str(k, ["a", "#[ink(", "é", "\n", "🦀", ","][r.below(6)]);
                        s.change(&pl.uri, &[t], ver);
                    }
                    3 => {
                        let v: Vec<String> = (0..r.range(2, 3)).map(|_| text_for(r, pl.ver, mix)).collect();
                        s.change(&pl.uri, &v, ver);
                    }
                    4 => {
                        // the same text again; still a change
                        let t = s.docs[&pl.uri].text.clone();
                        s.change(&pl.uri, &[t], ver);
                    }
                    _ => {
                        let t = text_for(r, pl.ver, mix);
                        s.change(&pl.uri, &[t], ver);
                    }
                }
            }
        } else if x < mix.changes + mix.queries {
            let which = [0, 0, 1, 1, 2, 3, 3, 4][r.below(8)];
            if open && matches!(which, 0 | 3) && r.pct(60) {
                if let Some((t, k)) = typed(&s.docs[&pl.uri].text, r) {
                    s.change(&pl.uri, &[t], ver);
                    s.query(r, &pl.uri, which, k, k);
                    continue;
                }
            }
            match s.docs.get(&pl.uri) {
                Some(d) => {
                    let (a, b) = if which == 2 && r.pct(50) { (0, d.text.len()) } else { texts::selection(&d.text, r) };
                    s.query(r, &pl.uri, which, a, b);
                }
                None => {
                    let (a, b) = (r.below(20), r.below(20));
                    s.query(r, &pl.uri, which, a, b);
                }
            }
        } else if x < mix.changes + mix.queries + mix.odd {
            odd_message(&mut s, r, &places);
        }
        if r.pct(45) {
            let together = r.pct(70);
            if !s.flush(cx, together) {
                break;
            }
        }
    }
    let together = r.pct(70);
    s.flush(cx, together);
    s.finish(cx, r);
    let h = s.steps.join("\n");
    cx.seen(&h);
    cx.sample(|| json!({"steps": h, "documents": places.iter().map(|p| format!("{} {}", p.uri, p.ver.name())).collect::<Vec<_>>()}));
    drop(s);
    let _ = std::fs::remove_dir_all(&base);
}

fn plain_caps(r: &mut Rng) -> Caps {
    let mut c = Caps::full();
    c.resolve = r.pct(50);
    let e: [&'static str; 3] = ["utf-8", "utf-16", "utf-32"];
    c.encs = if r.pct(30) { None } else { Some(vec![e[r.below(3)]]) };
    c
}

pub fn l01(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("");
    let caps = plain_caps(&mut r);
    let mix = Mix { changes: 20, queries: 30, odd: 50, steps: (15, 50), hostile: 20, unicode: false };
    session(cx, &mut r, caps, &mix);
}
pub fn l02(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("");
    let caps = plain_caps(&mut r);
    let mix = Mix { changes: 30, queries: 70, odd: 0, steps: (15, 45), hostile: 15, unicode: false };
    session(cx, &mut r, caps, &mix);
}
pub fn l03(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("");
    let caps = plain_caps(&mut r);
    let mix = Mix { changes: 75, queries: 10, odd: 15, steps: (10, 30), hostile: 25, unicode: false };
    session(cx, &mut r, caps, &mix);
}

/// The announced capabilities fit the client's and what the server does.
fn announced(cx: &mut Ctx, s: &mut Sess) -> bool {
    let c = s.init["capabilities"].clone();
    let mut bad: Option<(&str, String)> = None;
    let full = c["textDocumentSync"] == json!(1) || (c["textDocumentSync"]["change"] == json!(1) && c["textDocumentSync"]["openClose"] == json!(true));
    if !full {
        bad = Some(("sync", format!("documents are synchronised in full, announced {}", c["textDocumentSync"])));
    }
    for p in ["hoverProvider", "completionProvider", "codeActionProvider", "inlayHintProvider", "signatureHelpProvider", "executeCommandProvider"] {
        if c[p].is_null() || c[p] == json!(false) {
            bad = Some(("provider", format!("{p} is not announced")));
        }
    }
    let cmds: Vec<&str> = c["executeCommandProvider"]["commands"].as_array().into_iter().flatten().filter_map(|v| v.as_str()).collect();
    for x in ["createProject", "migrateProject", "extractEvent"] {
        if !cmds.contains(&x) {
            bad = Some(("commands", format!("command {x} is not announced: {cmds:?}")));
        }
    }
    if let Some(ks) = c["codeActionProvider"]["codeActionKinds"].as_array() {
        let mut seen = std::collections::HashSet::new();
        for k in ks {
            let k = k.as_str().unwrap_or("?");
            if !seen.insert(k.to_string()) {
                bad = Some(("kinds-twice", format!("code action kind {k:?} announced twice")));
            }
            if !s.caps.kinds.as_ref().map_or(false, |v| v.contains(&k)) {
                bad = Some(("kinds", format!("code action kind {k:?} announced, the client accepts {:?}", s.caps.kinds)));
            }
        }
        cx.count("announced_kinds");
        for k in ["", "quickfix", "refactor", "refactor.rewrite"] {
            if s.caps.kinds.as_ref().map_or(false, |v| v.contains(&k)) && !seen.contains(k) {
                bad = Some(("kinds-missing", format!("the client accepts code action kind {k:?}, which the server provides, but it is not announced")));
            }
        }
    }
    if s.caps.resolve && c["codeActionProvider"]["resolveProvider"] != json!(true) {
        bad = Some(("resolve", "the client resolves code actions lazily, but the server does not announce it".to_string()));
    }
    if let Some((k, w)) = bad {
        s.fail(cx, &format!("announced:{k}"), &w);
        return false;
    }
    true
}

pub fn l04(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("");
    let mut caps = plain_caps(&mut r);
    let e: [&'static str; 3] = ["utf-8", "utf-16", "utf-32"];
    let mut v = e.to_vec();
    r.shuffle(&mut v);
    v.truncate(r.range(0, 3));
    caps.encs = if r.pct(20) { None } else { Some(v) };
    let mix = Mix { changes: 30, queries: 70, odd: 0, steps: (15, 40), hostile: 10, unicode: true };
    session(cx, &mut r, caps, &mix);
}
pub fn l05(cx: &mut Ctx, i: u64) {
    let mut r = cx.rng("");
    let caps = Caps::random(&mut r);
    if i % 3 == 0 {
        return super::project::commands(cx, &mut r, caps, 4);
    }
    let mix = Mix { changes: 25, queries: 75, odd: 0, steps: (12, 35), hostile: 5, unicode: false };
    session(cx, &mut r, caps, &mix);
}

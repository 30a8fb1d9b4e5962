//! M01: migration to ink! 5. M02: extraction of events.
//!
//! M01 builds pairs of programs - an ink! 4 program and the ink! 5 program it has to become -
//! and compares the token streams. Places the specification leaves open (where an import goes,
//! where among the attributes of a type the codec attribute goes, which unused identifier a chain
//! extension gets) are taken out of both streams first and judged on their own.

use crate::api::{self, edit, guard, range, Edit};
use crate::ast::*;
use crate::checks::diag::norm_msg;
use crate::gen::{self, Opts, Prog, Ver};
use crate::lex::{lex, Style};
use crate::rng::Rng;
use crate::run::Ctx;
use ink_analyzer::Analysis;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

type Pair = (String, String);

fn same(s: &str) -> Pair {
    (s.to_string(), s.to_string())
}
fn pair(a: impl Into<String>, b: impl Into<String>) -> Pair {
    (a.into(), b.into())
}
fn f1(t: &str, a: &Pair) -> Pair {
    (t.replace("$1", &a.0), t.replace("$1", &a.1))
}
fn f2(t: &str, a: &Pair, b: &Pair) -> Pair {
    (t.replace("$1", &a.0).replace("$2", &b.0), t.replace("$1", &a.1).replace("$2", &b.1))
}

/// Which calls a body may contain.
#[derive(Clone, Default)]
struct Names {
    /// Prefixes that name `ink::env::call`.
    call: Vec<String>,
    /// Prefixes that name `ink::env`.
    env: Vec<String>,
    has_self: bool,
    in_impl: bool,
    e2e: bool,
    build_message: Vec<String>,
    message_builder: Vec<String>,
}

struct B<'a> {
    r: &'a mut Rng,
    n: &'a Names,
    contracts: bool,
    chain: bool,
    hits: u64,
    kinds: BTreeMap<&'static str, u64>,
}

impl<'a> B<'a> {
    fn hit(&mut self, k: &'static str) {
        self.hits += 1;
        *self.kinds.entry(k).or_default() += 1;
    }
    fn plain(&mut self) -> Pair {
        let s = loop {
            let s = self.plain_text();
            // known finding: methods of other objects named like the client's are rewritten in tests
            if !self.n.e2e || !(s.contains(".balance(") || s.contains(".upload(") || s.contains(".call(1, 2")) {
                break s;
            }
        };
        same(&s)
    }
    fn plain_text(&mut self) -> String {
        self.r.picks(&[
            "x", "1", "acc.clone()", "\"call\"", "call(1)", "a.b.c", "Default::default()", "other::build_call::<E>().call(acc)", "build_call_x().call(2)",
            "self::invoke_contract_x(&p)", "x.call(1, 2, 3, 4)", "vec![1, 2]", "x.balance(a)", "foo.invoke()", "my::env::invoke_contract(&p)", "call::Call::old(1)",
            "obj.upload(a, b, None)", "x.y().invoke_contract(&p)", "ink::env::caller::<E>()", "CallX::new(acc)", "ink::env::call::utils::ReturnType::new()", "self_env().instantiate_contract(&q)",
            "self.proxy().invoke_contract(&p)", "other.env().instantiate_contract(&q)", "Other::env().invoke_contract(&q)", "Self::envs().instantiate_contract(&p)",
            "self.env().caller()", "Self::env().emit_event(e)", "my::call::build_create::<MyRef>().endowment(1)", "my::call::Call::new(1)", "x.build_call().call(a)",
            "self.env().transfer(acc, 1)", "self.env.invoke_contract(&p)", "invoke_contract_v1(&p)", "my::call::build_call::<E>().gas_limit(1).call(acc)",
        ])
    }
    fn env_ty(&mut self) -> String {
        self.r.picks(&["DefaultEnvironment", "ink::env::DefaultEnvironment", "E", "Environment"])
    }
    fn host(&mut self, depth: u32) -> Pair {
        let c = self.r.picks(&self.n.call.clone());
        let e = self.r.picks(&self.n.env.clone());
        match self.r.below(8) {
            0 | 1 => {
                self.hit("build_call");
                let t = self.env_ty();
                let a = self.arg(depth);
                let mut pre = String::new();
                for _ in 0..self.r.below(3) {
                    pre.push_str(&self.r.picks(&[".gas_limit(5000)", ".transferred_value(10)", ".returns::<()>()", ".call_flags(f)", ".exec_input(i)"]));
                }
                let i = self.arg(depth);
                let mut post = Pair::default();
                for _ in 0..self.r.below(4) {
                    let k = self.r.picks(&[".gas_limit(5000)", ".exec_input(ExecutionInput::new(Selector::new([0xDE, 0xAD, 0xBE, 0xEF])).push_arg($1))", ".returns::<()>()", ".try_invoke()", ".params()"]);
                    let p = f1(&k, &i);
                    post.0.push_str(&p.0);
                    post.1.push_str(&p.1);
                }
                let g = if self.r.pct(85) { format!("::<{t}>") } else { String::new() };
                pair(format!("{c}build_call{g}(){pre}.call({}){}", a.0, post.0), format!("{c}build_call{g}(){pre}.call_v1({}){}", a.1, post.1))
            }
            2 => {
                self.hit("build_create");
                let a = self.arg(depth);
                let t = self.r.picks(&[".code_hash($1).endowment(25)", ".salt_bytes(&[0xDE, 0xAD]).returns::<MyRef>().instantiate()", "", ".params()"]);
                let p = f1(&t, &a);
                pair(format!("{c}build_create::<MyRef>(){}", p.0), format!("{c}build_create::<MyRef>().instantiate_v1(){}", p.1))
            }
            3 => {
                self.hit("call_new");
                let a = self.arg(depth);
                let g = if self.r.pct(30) { format!("::<{}>", self.env_ty()) } else { String::new() };
                let t = self.r.picks(&["", ".gas_limit(5000)", ".transferred_value(1).gas_limit(2)"]);
                pair(format!("{c}Call{g}::new({}){t}", a.0), format!("{}ink::env::call::CallV1{g}::new({}){t}", if c.starts_with("::") { "::" } else { "" }, a.1))
            }
            4 => {
                self.hit("host_fn");
                let f = self.r.picks(&["invoke_contract", "instantiate_contract"]);
                let g = self.r.picks(&["", "::<E, Args, R>", "::<DefaultEnvironment, _, ()>"]);
                let a = self.arg(depth);
                pair(format!("{e}{f}{g}(&{})", a.0), format!("{e}{f}_v1{g}(&{})", a.1))
            }
            5 | 6 if self.n.has_self || self.n.in_impl => {
                self.hit("env_method");
                let f = self.r.picks(&["invoke_contract", "instantiate_contract"]);
                let s = if self.n.has_self && self.r.pct(60) { "self.env()" } else { "Self::env()" };
                let a = self.arg(depth);
                pair(format!("{s}.{f}(&{})", a.0), format!("{s}.{f}_v1(&{})", a.1))
            }
            _ => self.plain(),
        }
    }
    fn value(&mut self) -> (String, String) {
        let v = self.r.picks(&["0", "0u128", "1", "10_000", "value", "a + b", "0x0", "00"]);
        let z = matches!(v.as_str(), "0" | "0u128" | "0x0" | "00");
        let w = if z { String::new() } else { format!(".value({v})") };
        (v, w)
    }
    fn limit(&mut self) -> (String, String) {
        match self.r.below(4) {
            0 => ("Some(1)".into(), ".storage_deposit_limit(1)".into()),
            1 => ("Option::Some(limit * 2)".into(), ".storage_deposit_limit(limit * 2)".into()),
            2 => ("Option::None".into(), String::new()),
            _ => ("None".into(), String::new()),
        }
    }
    fn client(&mut self, depth: u32) -> Pair {
        let signer = self.r.picks(&["&ink_e2e::alice()", "&ink_e2e::bob()", "&mut signer"]);
        let msg = self.r.picks(&["&transfer", "get.clone()", "message"]);
        let name = self.r.picks(&["\"erc20\"", "\"flipper\""]);
        match self.r.below(9) {
            0 | 1 => {
                self.contracts = true;
                let (v, w) = self.value();
                let (l, m) = self.limit();
                self.hit("instantiate");
                if self.r.pct(60) {
                    let t = self.r.picks(&["", ".await", ".await.expect(\"instantiate failed\").account_id"]);
                    pair(format!("client.instantiate({name}, {signer}, ctor, {v}, {l}){t}"), format!("client.instantiate({name}, {signer}, ctor){w}{m}.submit(){t}"))
                } else {
                    let t = self.r.picks(&["", ".await", ".await.account_id"]);
                    let q = t.replace(".await", ".await?");
                    pair(format!("client.instantiate_dry_run({name}, {signer}, ctor, {v}, {l}){t}"), format!("client.instantiate_dry_run({name}, {signer}, ctor){w}{m}.dry_run(){q}"))
                }
            }
            2 | 3 => {
                self.contracts = true;
                let (v, w) = self.value();
                let (l, m) = self.limit();
                self.hit("call");
                if self.r.pct(60) {
                    let t = self.r.picks(&["", ".await", ".await.expect(\"failed\")", ".await?"]);
                    pair(format!("client.call({signer}, {msg}, {v}, {l}){t}"), format!("client.call({signer}, {msg}){w}{m}.submit(){t}"))
                } else {
                    let t = self.r.picks(&["", ".await", ".await.return_value()"]);
                    let q = t.replace(".await", ".await?");
                    pair(format!("client.call_dry_run({signer}, {msg}, {v}, {l}){t}"), format!("client.call_dry_run({signer}, {msg}){w}{m}.dry_run(){q}"))
                }
            }
            4 => {
                self.contracts = true;
                let (l, m) = self.limit();
                self.hit("upload");
                let t = self.r.picks(&["", ".await", ".await.expect(\"failed\")"]);
                pair(format!("client.upload({name}, {signer}, {l}){t}"), format!("client.upload({name}, {signer}){m}.submit(){t}"))
            }
            5 => {
                self.chain = true;
                self.hit("chain");
                match self.r.below(3) {
                    0 => pair("client.balance(acc).await.expect(\"b\")", "client.free_balance(acc).await.expect(\"b\")"),
                    1 => same("client.create_and_fund_account(&ink_e2e::alice(), 10_000).await"),
                    _ => same("client.runtime_call(&ink_e2e::alice(), \"Balances\", \"transfer\", data).await"),
                }
            }
            6 | 7 => {
                self.hit("build_message");
                let a = self.r.picks(&["acc", "acc.clone()", "contract.account_id"]);
                let m = self.r.picks(&["get()", "transfer(bob.clone(), 1)", "balance_of(acc)", "call(1, 2)"]);
                let cl = match self.r.below(4) {
                    0 => format!("|c| c.{m}"),
                    1 => format!("|erc20| {{ erc20.{m} }}"),
                    2 => format!("|c| {{ return c.{m}; }}"),
                    _ => format!("|c: &mut MyRef| c.{m}"),
                };
                if self.n.message_builder.is_empty() || self.r.pct(70) {
                    let q = self.r.picks(&self.n.build_message.clone());
                    pair(format!("{q}build_message::<MyRef>({a}).call({cl})"), format!("ink_e2e::create_call_builder::<MyRef>({a}).{m}"))
                } else {
                    let q = self.r.picks(&self.n.message_builder.clone());
                    pair(format!("{q}MessageBuilder::<ink::env::DefaultEnvironment, MyRef>::from_account_id({a}).call({cl})"), format!("ink_e2e::create_call_builder::<MyRef>({a}).{m}"))
                }
            }
            _ => {
                let _ = depth;
                same("client.api().events().await")
            }
        }
    }
    /// An argument of a call; may contain calls itself.
    fn arg(&mut self, depth: u32) -> Pair {
        if depth == 0 || self.n.e2e {
            self.plain()
        } else {
            self.expr(depth - 1)
        }
    }
    fn leaf(&mut self, depth: u32) -> Pair {
        if self.n.e2e && self.r.pct(75) {
            self.client(depth)
        } else if self.r.pct(60) {
            self.host(depth)
        } else {
            self.plain()
        }
    }
    fn expr(&mut self, depth: u32) -> Pair {
        if depth == 0 || self.r.pct(35) {
            return self.leaf(depth);
        }
        let d = depth - 1;
        let a = self.expr(d);
        match self.r.below(26) {
            0 => f1("Some($1)", &a),
            1 => f1("foo($1, 1)", &a),
            2 => f1("($1, 2)", &a),
            3 => f1("[$1; 2]", &a),
            4 => f1("[0, $1, 3]", &a),
            5 => f1("&mut $1", &a),
            6 => f1("!$1", &a),
            7 => f1("($1) as u32", &a),
            8 => {
                let b = self.expr(d);
                let c = self.block(d);
                f2(&format!("if ($1).is_ok() {} else {{ $2 }}", "$B"), &a, &b).map_pair("$B", &c)
            }
            9 => {
                let b = self.expr(d);
                let c = self.expr(d);
                f2("match ($1) { Some(v) if ($2) == v => $C, _ => None }", &a, &b).map_pair("$C", &c)
            }
            10 => {
                f1("{ let w = 1; $1 }", &a)
            }
            11 => f1("(|a: u32| $1)(3)", &a),
            12 => f1("loop { break $1; }", &a),
            13 => f1("S { a: $1, ..d }", &a),
            14 => f1("x[$1]", &a),
            15 => f1("($1).unwrap_or_default()", &a),
            16 => f1("($1)?", &a),
            17 => f1("(($1))", &a),
            18 => f1("($1)..2", &a),
            19 => {
                let b = self.expr(d);
                f2("($1) + ($2)", &a, &b)
            }
            20 => f1("x.push($1)", &a),
            21 => f1("unsafe { $1 }", &a),
            22 => f1("($1).field", &a),
            23 => f1("async move { $1 }", &a),
            24 => f1("if let Ok(v) = ($1) { v } else { 0 }", &a),
            _ => f1("T::of($1)", &a),
        }
    }
    fn stmt(&mut self, depth: u32) -> Pair {
        let k = self.r.below(10);
        if k == 8 {
            return same("assert_eq!(x, 1);");
        }
        let a = self.expr(depth);
        let d = depth.saturating_sub(1);
        match k {
            0 => f1("let y = $1;", &a),
            1 => f1("let Some(z) = ($1) else { return; };", &a),
            2 => {
                let b = self.block(d);
                f1("let Some(z) = ($1) else $B;", &a).map_pair("$B", &b)
            }
            3 => {
                let b = self.block(d);
                f1("for i in ($1) $B", &a).map_pair("$B", &b)
            }
            4 => {
                let b = self.block(d);
                f1("while ($1) $B", &a).map_pair("$B", &b)
            }
            5 => {
                let b = self.block(d);
                f1("if ($1) $B", &a).map_pair("$B", &b)
            }
            6 => f1("x = $1;", &a),
            7 => f1("return $1;", &a),
            _ => f1("let _ = $1;", &a),
        }
    }
    fn block(&mut self, depth: u32) -> Pair {
        let mut a = same("{ ");
        for _ in 0..self.r.below(3) {
            let s = self.stmt(depth);
            a.0.push_str(&s.0);
            a.1.push_str(&s.1);
            a.0.push(' ');
            a.1.push(' ');
        }
        if self.r.pct(50) {
            let e = self.expr(depth);
            a.0.push_str(&e.0);
            a.1.push_str(&e.1);
        }
        a.0.push_str(" }");
        a.1.push_str(" }");
        a
    }
    fn body(&mut self) -> Pair {
        let mut a = Pair::default();
        for _ in 0..self.r.range(0, 4) {
            let dep = self.r.below(4) as u32;
            let s = self.stmt(dep);
            a.0.push_str(&s.0);
            a.1.push_str(&s.1);
            a.0.push('\n');
            a.1.push('\n');
        }
        let t = self.r.picks(&["todo!()", "Ok(())", "Default::default()"]);
        a.0.push_str(&t);
        a.1.push_str(&t);
        a
    }
}
trait MapPair {
    fn map_pair(self, k: &str, v: &Pair) -> Pair;
}
impl MapPair for Pair {
    fn map_pair(self, k: &str, v: &Pair) -> Pair {
        (self.0.replace(k, &v.0), self.1.replace(k, &v.1))
    }
}

/// The path of a derived trait, and the codec trait it names.
fn derive_names(r: &mut Rng, bare: bool) -> Vec<(String, Option<&'static str>)> {
    let q = r.picks(&["scale::", "ink::scale::", "parity_scale_codec::", "::scale::"]);
    let qi = r.picks(&["scale_info::", "ink::scale_info::", "::scale_info::"]);
    let (q, qi) = if bare { (String::new(), String::new()) } else { (q, qi) };
    let mut v: Vec<(String, Option<&'static str>)> = vec![(format!("{q}Encode"), Some("Encode")), (format!("{q}Decode"), Some("Decode")), (format!("{qi}TypeInfo"), Some("TypeInfo"))];
    while v.len() > 1 && r.pct(20) {
        let i = r.below(v.len());
        v.remove(i);
    }
    for p in ["Debug", "Clone", "PartialEq", "my::Encode", "ink::storage::traits::StorageLayout", "Eq", "EncodeLike"] {
        if r.pct(20) {
            v.push((p.into(), None));
        }
    }
    r.shuffle(&mut v);
    v
}

/// The attributes of a type that derives codec traits: ink! 4 text and ink! 5 text
/// (without the codec attribute), and the codec traits.
fn derive_attrs(r: &mut Rng, bare: bool) -> (Vec<(String, Option<String>)>, Vec<&'static str>) {
    let names = derive_names(r, bare);
    let mut groups: Vec<Vec<(String, Option<&'static str>)>> = vec![vec![]];
    for n in names {
        if !groups.last().unwrap().is_empty() && r.pct(30) {
            groups.push(vec![]);
        }
        groups.last_mut().unwrap().push(n);
    }
    let mut codec = vec![];
    let mut out = vec![];
    for g in groups {
        let list = g.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(", ");
        let rest: Vec<&str> = g.iter().filter(|x| x.1.is_none()).map(|x| x.0.as_str()).collect();
        codec.extend(g.iter().filter_map(|x| x.1));
        let trail = if r.pct(10) { "," } else { "" };
        let all = rest.len() == g.len();
        let d4 = format!("derive({list}{trail})");
        let d5 = if all { Some(d4.clone()) } else if rest.is_empty() { None } else { Some(format!("derive({})", rest.join(", "))) };
        let cond = r.picks(&["feature = \"std\"", "all(feature = \"std\", not(test))", "test"]);
        match r.below(6) {
            0 | 1 | 2 => out.push((format!("#[{d4}]"), d5.map(|d| format!("#[{d}]")))),
            3 | 4 => out.push((format!("#[cfg_attr({cond}, {d4})]"), d5.map(|d| format!("#[cfg_attr({cond}, {d})]")))),
            _ => {
                let (a, b) = (r.picks(&["allow(dead_code), ", ""]), r.picks(&[", allow(unused)", ", must_use"]));
                let v4 = format!("#[cfg_attr({cond}, {a}{d4}{b})]");
                let v5 = match d5 {
                    Some(d) => format!("#[cfg_attr({cond}, {a}{d}{b})]"),
                    None => format!("#[cfg_attr({cond}, {a}{})]", b.trim_start_matches(", ")),
                };
                out.push((v4, Some(v5)));
            }
        }
    }
    if r.pct(25) {
        let i = r.below(out.len() + 1);
        out.insert(i, ("#[allow(unused)]".into(), Some("#[allow(unused)]".into())));
    }
    (out, codec)
}

fn raw_to_attr(id: Id, text: &str) -> Attr {
    let t = text.trim_start_matches("#[").strip_suffix(']').unwrap();
    let i = t.find('(').unwrap_or(t.len());
    Attr { id, path: t[..i].into(), args: None, raw: Some(t[i..].into()), trail: false }
}

/// An ink! 4 program and what it has to become.
pub struct Case {
    pub v4: Prog,
    pub v5: File,
    pub events: u64,
    pub extensions: u64,
    pub hits: BTreeMap<&'static str, u64>,
    pub derives: u64,
    pub e2e: u64,
    /// Contains constructs that are valid ink! 4 but (independently of the migration) flagged in ink! 5.
    pub quiet: bool,
}

pub fn case(r: &mut Rng) -> Case {
    let o = Opts { contract: r.pct(92), wildcards: false, ..Opts::default() };
    let mut p = gen::program(r, Ver::V4, o);
    let mut hits: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut next = p.file.next_id;
    let mut id = || {
        next += 1;
        next
    };
    // an end-to-end test without a module around it
    if r.pct(12) {
        let mut g = gen::G::new(r, Ver::V4, Opts::default());
        g.next = id() + 1000;
        let Item::Mod(m) = g.e2e_mod(&None) else { unreachable!() };
        p.file.next_id = g.next;
        let mut items = m.items.unwrap();
        items.remove(0);
        let nn = g.next;
        next = nn + 1;
        p.file.items.extend(items);
    }
    let mut id = || {
        next += 1;
        next
    };
    // chain extension functions with identifiers ink! 5 allows
    let mut fid = 100;
    p.file.walk_mut(&mut |it| {
        if let Item::Fn(f) = it {
            if let Some(a) = f.h.arg_mut("extension") {
                if a.value.as_deref().and_then(crate::mutate::parse_int).map_or(false, |x| x > 0xFFFF) {
                    fid += 1;
                    a.value = Some(fid.to_string());
                }
            }
        }
    });
    let mut q = p.clone();
    // types with codec derives: replace the generator's attributes by more varied ones
    let mut types: Vec<(Id, bool)> = vec![];
    p.file.walk(&mut |it, st| {
        if let Item::Adt(a) = it {
            let is = a.h.attrs.iter().any(|x| x.raw.as_deref().map_or(false, |t| t.contains("Encode") || t.contains("TypeInfo")));
            if is && a.h.ink().next().is_none() {
                types.push((a.h.id, matches!(st.last(), Some(Item::Mod(_)))));
            }
        }
    });
    let mut derives = 0;
    let bare_mods: bool = r.pct(30);
    let mut bare_in: std::collections::BTreeSet<Id> = Default::default();
    let mut codec_of: HashMap<Id, Vec<&'static str>> = HashMap::new();
    let mut parent: HashMap<Id, Id> = HashMap::new();
    p.file.walk(&mut |it, st| {
        parent.insert(it.h().id, st.last().map_or(0, |x| x.h().id));
    });
    for (t, _) in &types {
        let bare = bare_mods && r.pct(60);
        if bare {
            bare_in.insert(parent[t]);
        }
        // chain extensions need all three of their types: keep the generator's complete lists there
        let (attrs, codec) = loop {
            let x = derive_attrs(r, bare);
            if x.1.len() == 3 || (p.contract.map_or(false, |c| parent[t] == c) && !x.1.is_empty() && r.pct(50)) {
                break x;
            }
        };
        derives += 1;
        let (a4, a5): (Vec<Attr>, Vec<Option<Attr>>) = attrs.iter().map(|(x, y)| (raw_to_attr(id(), x), y.as_ref().map(|y| raw_to_attr(id(), y)))).unzip();
        p.file.head_mut(*t).unwrap().attrs = a4;
        let mut h5: Vec<Attr> = a5.into_iter().flatten().collect();
        let mut c = codec.clone();
        c.sort();
        h5.insert(0, raw_to_attr(id(), &format!("#[ink::scale_derive({})]", c.join(", "))));
        q.file.head_mut(*t).unwrap().attrs = h5;
        codec_of.insert(*t, codec);
    }
    let codec_use = r.picks(&["use scale::{Decode, Encode};\nuse scale_info::TypeInfo;", "use ink::scale::{Decode, Encode};\nuse ink::scale_info::TypeInfo;"]);
    for m in bare_in {
        for f in [&mut p.file, &mut q.file] {
            let u = Item::Raw(Raw { h: Head { id: id(), docs: vec![], attrs: vec![], vis: "".into() }, text: codec_use.clone() });
            if m == 0 {
                f.items.insert(0, u);
            } else if let Some(v) = f.find_mut(m).and_then(|x| x.children_mut()) {
                v.insert(0, u);
            }
        }
    }
    // imports of the call builders in the contract
    let imports = match r.below(4) {
        0 => Some(("use ink::env::call::{build_call, build_create, Call};", true)),
        1 => Some(("use ink::env::call;", false)),
        _ => None,
    };
    if let (Some((u, _)), Some(c)) = (imports, p.contract) {
        for f in [&mut p.file, &mut q.file] {
            let u = Item::Raw(Raw { h: Head { id: id(), docs: vec![], attrs: vec![], vis: "".into() }, text: u.into() });
            f.find_mut(c).and_then(|x| x.children_mut()).unwrap().insert(0, u);
        }
    }
    // bodies
    struct F {
        id: Id,
        n: Names,
        m: Id,
    }
    let base = Names { call: vec!["ink::env::call::".into(), "::ink::env::call::".into(), "ink_env::call::".into()], env: vec!["ink::env::".into(), "::ink::env::".into(), "ink_env::".into()], ..Default::default() };
    let mut fs: Vec<F> = vec![];
    let mut e2e_mods: BTreeMap<Id, bool> = BTreeMap::new();
    p.file.walk(&mut |it, st| {
        if let Item::Fn(f) = it {
            if f.body.is_none() {
                return;
            }
            let mut n = base.clone();
            let md = st.iter().rev().find(|x| matches!(x, Item::Mod(_))).map(|x| x.h().id).unwrap_or(0);
            if Some(md) == p.contract {
                match imports {
                    Some((_, true)) => n.call.extend([String::new(), String::new()]),
                    Some((_, false)) => n.call.extend(["call::".to_string(), "call::".to_string()]),
                    None => (),
                }
            }
            n.in_impl = matches!(st.last(), Some(Item::Impl(_)));
            n.has_self = n.in_impl && f.self_param.is_some();
            n.e2e = f.h.mac("ink_e2e::test").is_some();
            n.build_message = vec!["ink_e2e::".into()];
            n.message_builder = vec!["ink_e2e::".into()];
            if n.e2e {
                e2e_mods.entry(md).or_default();
            }
            fs.push(F { id: f.h.id, n, m: md });
        }
    });
    // imports of what ink! 5 does not have any more
    const OLD: &[(&str, &str, bool, bool)] = &[
        ("use ink_e2e::build_message;", "", true, false),
        ("use ink_e2e::MessageBuilder;", "", false, true),
        ("use ink_e2e::{build_message, MessageBuilder};", "", true, true),
        ("use ink_e2e::{build_message, alice};", "use ink_e2e::{alice};", true, false),
        ("use ink_e2e::{alice, build_message};", "use ink_e2e::{alice};", true, false),
        ("use ink_e2e::{alice, build_message, MessageBuilder};", "use ink_e2e::{alice};", true, true),
        ("use ink_e2e::{build_message, bob, MessageBuilder, alice};", "use ink_e2e::{bob, alice};", true, true),
        ("use {ink_e2e::build_message, core::fmt};", "use {core::fmt};", true, false),
        ("use {core::fmt, ink_e2e::{MessageBuilder, alice}};", "use {core::fmt, ink_e2e::{alice}};", false, true),
        ("use ink_e2e::alice;", "use ink_e2e::alice;", false, false),
        ("use my::build_message;", "use my::build_message;", false, false),
    ];
    let mut olds: HashMap<Id, (bool, bool)> = HashMap::new();
    for m in e2e_mods.keys() {
        if r.pct(50) {
            let o = r.pick(OLD);
            olds.insert(*m, (o.2, o.3));
            for (f, t) in [(&mut p.file, o.0), (&mut q.file, o.1)] {
                if t.is_empty() {
                    continue;
                }
                let u = Item::Raw(Raw { h: Head { id: id(), docs: vec![], attrs: vec![], vis: "".into() }, text: t.into() });
                if *m == 0 {
                    f.items.insert(0, u);
                } else {
                    f.find_mut(*m).and_then(|x| x.children_mut()).unwrap().insert(0, u);
                }
            }
        }
    }
    let mut e2e = 0;
    let mut need: BTreeMap<Id, (bool, bool)> = BTreeMap::new();
    for f in fs {
        let mut n = f.n.clone();
        if let Some((a, b)) = olds.get(&f.m) {
            if *a {
                n.build_message.push(String::new());
            }
            if *b {
                n.message_builder.push(String::new());
            }
        }
        if !n.e2e && r.pct(45) {
            continue;
        }
        let mut b = B { r, n: &n, contracts: false, chain: false, hits: 0, kinds: BTreeMap::new() };
        let body = b.body();
        for (k, x) in &b.kinds {
            *hits.entry(k).or_default() += x;
        }
        let (cn, ch) = (b.contracts, b.chain);
        if let Some(Item::Fn(x)) = p.file.find_mut(f.id) {
            x.body = Some(body.0);
        }
        if let Some(Item::Fn(x)) = q.file.find_mut(f.id) {
            x.body = Some(body.1);
            if n.e2e {
                e2e += 1;
                let e = need.entry(f.m).or_default();
                e.0 |= cn;
                e.1 |= ch;
                x.generics = "<Client: E2EBackend>".into();
                x.params = vec![("mut client".into(), "Client".into())];
                for a in x.h.attrs.iter_mut().filter(|a| a.path == "ink_e2e::test") {
                    if let Some(v) = &mut a.args {
                        v.retain(|y| y.name == "environment");
                        if v.is_empty() {
                            a.args = None;
                        }
                    }
                }
            }
        }
    }
    for (m, (cn, ch)) in need {
        for (yes, t) in [(ch, "use ink_e2e::ChainBackend;"), (cn, "use ink_e2e::ContractsBackend;")] {
            if yes {
                let u = Item::Raw(Raw { h: Head { id: id(), docs: vec![], attrs: vec![], vis: "".into() }, text: t.into() });
                if m == 0 {
                    q.file.items.insert(0, u);
                } else {
                    q.file.find_mut(m).and_then(|x| x.children_mut()).unwrap().insert(0, u);
                }
            }
        }
    }
    // chain extensions
    let mut extensions = 0;
    q.file.walk_mut(&mut |it| match it {
        Item::Trait(t) => {
            for a in t.h.attrs.iter_mut().filter(|a| a.path == "ink::chain_extension") {
                extensions += 1;
                a.args.get_or_insert(vec![]).push(Arg { id: 0, name: "extension".into(), value: Some("1".into()), nested: None });
            }
        }
        Item::Fn(f) => {
            if let Some(a) = f.h.arg_mut("extension") {
                a.name = "function".into();
            }
        }
        _ => (),
    });
    // events
    let mut events = 0;
    if let Some(c) = p.contract {
        let mut moved: Vec<Item> = vec![];
        let ch = q.file.find_mut(c).and_then(|x| x.children_mut()).unwrap();
        let mut i = 0;
        while i < ch.len() {
            let is = matches!(&ch[i], Item::Adt(a) if a.h.arg("event").is_some());
            if !is {
                i += 1;
                continue;
            }
            let mut it = ch.remove(i);
            let h = it.h_mut();
            let anon = h.arg("anonymous").is_some();
            let mut attrs = vec![];
            for a in h.attrs.drain(..) {
                if a.path == "ink" && a.has("event") {
                    attrs.push(raw_to_attr(id(), if anon { "#[ink::event(anonymous)]" } else { "#[ink::event]" }));
                } else if a.path == "ink" && a.has("anonymous") {
                } else {
                    attrs.push(a);
                }
            }
            h.attrs = attrs;
            moved.push(it);
            events += 1;
        }
        for it in &moved {
            let u = Item::Raw(Raw { h: Head { id: id(), docs: vec![], attrs: vec![], vis: "".into() }, text: format!("use super::{};", it.name()) });
            ch.insert(0, u);
        }
        let at = q.file.items.iter().position(|x| x.h().id == c).unwrap();
        for (k, it) in moved.into_iter().enumerate() {
            q.file.items.insert(at + k, it);
        }
    }
    p.file.unique_ids();
    Case { v4: p, v5: q.file, events, extensions, hits, derives, e2e, quiet: true }
}

/// A token stream without the parts whose place or value is open.
#[derive(PartialEq, Debug)]
pub struct Norm {
    pub toks: Vec<String>,
    /// Imports the migration adds: text, and which `{` (index in `toks`) encloses it.
    pub uses: Vec<(String, Option<usize>)>,
}

/// `imports`: the declarations taken out (without whitespace).
pub fn norm(src: &str, imports: &[String], ids: &mut Vec<String>, misplaced: &mut Vec<String>) -> Norm {
    let t: Vec<String> = lex(src).into_iter().map(|x| x.text).collect();
    // attributes: span of `#[ .. ]`
    let close = |i: usize| -> usize {
        let mut d = 0;
        let mut k = i;
        while k < t.len() {
            match t[k].as_str() {
                "[" | "(" | "{" => d += 1,
                "]" | ")" | "}" => {
                    d -= 1;
                    if d == 0 {
                        return k;
                    }
                }
                _ => (),
            }
            k += 1;
        }
        t.len().saturating_sub(1)
    };
    let mut out: Vec<String> = vec![];
    let mut uses = vec![];
    let mut i = 0;
    let mut stack: Vec<usize> = vec![];
    // start of the current run of attributes and doc comments in `out`
    let mut run: Option<usize> = None;
    while i < t.len() {
        let is_attr = t[i] == "#" && i + 1 < t.len() && t[i + 1] == "[";
        let is_doc = t[i].starts_with("///") || t[i].starts_with("/**");
        if is_attr || is_doc {
            let start = *run.get_or_insert(out.len());
            if is_doc {
                out.push(t[i].clone());
                i += 1;
                continue;
            }
            let e = close(i + 1);
            let mut a: Vec<String> = t[i..=e].to_vec();
            i = e + 1;
            let joined = a.concat();
            if joined.starts_with("#[ink::scale_derive(") {
                let mut names: Vec<String> = joined["#[ink::scale_derive(".len()..joined.len() - 2].split(',').filter(|x| !x.is_empty()).map(String::from).collect();
                names.sort();
                let new: Vec<String> = lex(&format!("#[ink::scale_derive({})]", names.join(","))).into_iter().map(|x| x.text).collect();
                for (k, x) in new.into_iter().enumerate() {
                    out.insert(start + k, x);
                }
                continue;
            }
            if joined.starts_with("#[ink::chain_extension(") {
                if let Some(k) = a.iter().position(|x| x == "extension") {
                    if k + 2 < a.len() && a[k + 1] == "=" {
                        ids.push(a[k + 2].clone());
                        a[k + 2] = "?".into();
                    }
                }
            }
            out.extend(a);
            continue;
        }
        // imports
        if t[i] == "use" {
            if let Some(k) = t[i..].iter().position(|x| x == ";") {
                let text = t[i..=i + k].concat();
                if imports.contains(&text) {
                    let prev_ok = match out.last().map(String::as_str) {
                        None => true,
                        Some("{") | Some("}") | Some(";") => true,
                        Some(p) if p.starts_with("//!") || p.starts_with("/*!") => true,
                        Some("]") => run.is_none(),
                        _ => false,
                    };
                    let nx = t.get(i + k + 1).map(String::as_str).unwrap_or("");
                    let next_ok = !(nx == "#" && t.get(i + k + 2).map_or(false, |x| x == "!")) && !nx.starts_with("//!") && !nx.starts_with("/*!");
                    if !prev_ok || !next_ok || run.is_some() {
                        misplaced.push(text.clone());
                    }
                    uses.push((text, stack.last().copied()));
                    i += k + 1;
                    continue;
                }
            }
        }
        run = None;
        match t[i].as_str() {
            "{" => stack.push(out.len()),
            "}" => {
                stack.pop();
            }
            _ => (),
        }
        out.push(t[i].clone());
        i += 1;
    }
    // trailing commas and empty argument lists of attributes mean nothing
    let mut toks: Vec<String> = vec![];
    let mut map: Vec<usize> = vec![];
    for x in &out {
        map.push(toks.len());
        if matches!(x.as_str(), ")" | "]" | "}") && toks.last().map_or(false, |l| l == ",") {
            toks.pop();
        }
        if x == "]" && toks.len() > 2 && toks[toks.len() - 1] == ")" && toks[toks.len() - 2] == "(" {
            toks.truncate(toks.len() - 2);
        }
        *map.last_mut().unwrap() = toks.len();
        toks.push(x.clone());
    }
    let mut uses: Vec<(String, Option<usize>)> = uses.into_iter().map(|(a, b)| (a, b.map(|b| map[b]))).collect();
    uses.sort();
    Norm { toks, uses }
}

pub fn first_diff(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let w = |v: &[String]| v[i.saturating_sub(6)..(i + 14).min(v.len())].join(" ");
    format!("expected … {} … got … {} …", w(a), w(b))
}

/// Takes out ordinary comments between documentation and the item: the parser may detach the
/// documentation from the item there.
pub fn attach(src: &str) -> String {
    let ts = lex(src);
    let mut out = String::new();
    let mut at = 0;
    for w in ts.windows(2) {
        let doc = w[0].text.starts_with("///") || w[0].text.starts_with("/**");
        if doc && !src[w[0].end..w[1].start].trim().is_empty() {
            out.push_str(&src[at..w[0].end]);
            out.push('\n');
            at = w[1].start;
        }
    }
    out.push_str(&src[at..]);
    out
}

/// Known finding: a method of an object other than the client.
fn other_receiver(cx: &mut Ctx) {
    let src = "#[ink_e2e::test]\nasync fn it_works(mut client: ink_e2e::Client<C, E>) -> E2EResult<()> {\n    let x = wallet.balance(acc);\n    Ok(())\n}\n";
    let Ok(es) = guard(|| Analysis::new(src, Ver::V4.lib()).migrate().iter().map(edit).collect::<Vec<_>>()) else { return };
    let Some(got) = api::apply(src, &es) else { return };
    if !got.contains("let x = wallet.balance(acc);") {
        cx.violate("e2e-other-receiver", "in an e2e test, `wallet.balance(acc)` is rewritten although `wallet` is not the client", json!({"source": src, "migrated": got}));
    }
}

pub fn m01(cx: &mut Ctx, i: u64) {
    if i == 0 {
        return other_receiver(cx);
    }
    let mut r = cx.rng("m01");
    let c = case(&mut r);
    let rend = c.v4.file.render();
    let src = if r.pct(60) { rend.text } else { attach(&rend.relayout(&Style::random(&mut r), &mut r).text) };
    let want_src = c.v5.render().text;
    cx.seen(&src);
    cx.count("programs");
    cx.add("events", c.events);
    cx.add("chain_extensions", c.extensions);
    cx.add("codec_types", c.derives);
    cx.add("e2e_tests", c.e2e);
    for (k, n) in &c.hits {
        cx.add(&format!("calls:{k}"), *n);
    }
    let det = |got: &str| json!({"source": src, "expected": want_src, "migrated": got});
    let es: Vec<Edit> = match guard(|| Analysis::new(&src, Ver::V4.lib()).migrate().iter().map(edit).collect()) {
        Ok(x) => x,
        Err(e) => return cx.violate(&e.clone(), &format!("migration panicked: {e}"), det("")),
    };
    cx.add("edits", es.len() as u64);
    let Some(got) = api::apply(&src, &es) else {
        return cx.violate("overlap", "the edits of the migration overlap", json!({"source": src, "edits": format!("{es:?}")}));
    };
    let mut imports: Vec<String> = vec!["useink_e2e::ContractsBackend;".into(), "useink_e2e::ChainBackend;".into()];
    c.v5.walk(&mut |it, _| {
        if let Item::Adt(a) = it {
            if a.h.mac("ink::event").is_some() {
                imports.push(format!("usesuper::{};", a.name));
            }
        }
    });
    let (mut i0, mut i1, mut m0, mut m1) = (vec![], vec![], vec![], vec![]);
    let want = norm(&want_src, &imports, &mut i0, &mut m0);
    let have = norm(&got, &imports, &mut i1, &mut m1);
    if want.toks != have.toks {
        let d = first_diff(&want.toks, &have.toks);
        return cx.violate("code", &format!("the migrated code is not the expected one: {d}"), det(&got));
    }
    if want.uses != have.uses {
        return cx.violate("imports", &format!("imports added by the migration: expected {:?}, got {:?}", want.uses, have.uses), det(&got));
    }
    if let Some(m) = m1.first() {
        return cx.violate("import-place", &format!("import {m} placed where a declaration cannot stand"), det(&got));
    }
    let mut v: Vec<Option<u32>> = i1.iter().map(|x| crate::mutate::parse_int(x)).collect();
    v.sort();
    let n = v.len();
    v.dedup();
    if n != v.len() || v.iter().any(|x| x.is_none()) {
        return cx.violate("extension-id", &format!("chain extension identifiers not unique: {i1:?}"), det(&got));
    }
    if c.quiet {
        match api::diagnostics(&got, Ver::V5) {
            Err(e) => cx.violate(&e.clone(), &format!("analyzer panicked on the migrated program: {e}"), det(&got)),
            Ok(ds) => {
                cx.count("migrated_programs_diagnosed");
                if let Some(d) = ds.first() {
                    cx.violate(&format!("diag:{}", norm_msg(&d.msg)), &format!("migrated program flagged: {:?} at {:?}", d.msg, &got[d.s..d.e]), det(&got));
                }
            }
        }
    }
    cx.sample(|| json!({"source": src, "migrated": got}));
}

// ----- M02 ---------------------------------------------------------------------------------

/// Parts of the tokens of a struct item: doc comments, other attributes, the event attribute, rest.
type Parts = (Vec<String>, Vec<String>, Vec<String>, Vec<String>);

fn parts(src: &str) -> Parts {
    let t: Vec<String> = lex(src).into_iter().map(|x| x.text).collect();
    let (mut docs, mut attrs, mut ev) = (vec![], vec![], vec![]);
    let mut i = 0;
    while i < t.len() {
        if t[i].starts_with("///") || t[i].starts_with("/**") {
            docs.push(t[i].clone());
            i += 1;
        } else if t[i] == "#" {
            let mut d = 0;
            let mut k = i + 1;
            loop {
                match t.get(k).map(String::as_str) {
                    Some("[") | Some("(") => d += 1,
                    Some("]") | Some(")") => d -= 1,
                    None => break,
                    _ => (),
                }
                if d == 0 {
                    break;
                }
                k += 1;
            }
            let k = k.min(t.len() - 1);
            let a = t[i..=k].concat();
            if a.starts_with("#[ink::") || a.starts_with("#[ink(") {
                ev.push(a);
            } else {
                attrs.push(a);
            }
            i = k + 1;
        } else {
            break;
        }
    }
    (docs, attrs, ev, t[i..].to_vec())
}

fn comments(src: &str) -> Vec<String> {
    let ts = lex(src);
    let mut v = vec![];
    let mut p = 0;
    for (s, e) in ts.iter().map(|t| (t.start, t.end)).chain([(src.len(), src.len())]) {
        let gap = src[p..s].trim();
        if !gap.is_empty() {
            v.extend(gap.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()));
        }
        p = e;
    }
    v
}

pub fn m02(cx: &mut Ctx, _i: u64) {
    let mut r = cx.rng("m02");
    let v = if r.pct(75) { Ver::V5 } else { Ver::V4 };
    let o = Opts { contract: true, chain_ext: r.pct(20), traits: r.pct(30), ..Opts::default() };
    let mut p = gen::program(&mut r, v, o);
    // more events, also in other modules
    let n = r.range(1, 3);
    for _ in 0..n {
        let standalone = v == Ver::V5 && r.pct(60);
        let mut g = gen::G::new(&mut r, v, Opts::default());
        g.next = p.file.next_id + 1;
        g.n = 500 + p.file.next_id as u32 % 400;
        let e = Item::Adt(g.event(standalone));
        let m = g.snake();
        let h = g.head(vec![], "pub");
        p.file.next_id = g.next;
        if standalone && r.pct(40) {
            let mut inner = vec![e];
            if r.pct(50) {
                inner.insert(0, Item::Raw(Raw { h: Head { id: p.file.next_id + 1, docs: vec![], attrs: vec![], vis: "".into() }, text: "use ink::prelude::vec::Vec;".into() }));
            }
            p.file.next_id += 5;
            p.file.items.insert(0, Item::Mod(Mod { h, name: m, items: Some(inner) }));
        } else if let Some(ch) = p.contract.and_then(|c| p.file.find_mut(c)).and_then(|x| x.children_mut()) {
            let at = r.below(ch.len() + 1);
            ch.insert(at, e);
        }
    }
    p.file.unique_ids();
    let rend = p.file.render();
    let rend = if r.pct(60) { rend } else { rend.relayout(&Style::random(&mut r), &mut r) };
    let src = &rend.text;
    cx.seen(src);
    cx.count("programs");
    let Ok(an) = guard(|| Analysis::new(src, v.lib())) else { return };
    let toks = lex(src);
    // events and the module around them
    struct E {
        id: Id,
        name: String,
        module: Option<Id>,
        arg: String,
    }
    let mut evs: Vec<E> = vec![];
    let mut others: Vec<(usize, usize)> = vec![];
    p.file.walk(&mut |it, st| {
        let w = rend.whole(it.h().id);
        if let Item::Adt(a) = it {
            if a.h.arg("event").is_some() || a.h.mac("ink::event").is_some() {
                let arg = ["anonymous", "signature_topic"].iter().find_map(|n| a.h.arg(n)).map(|x| match &x.value {
                    Some(v) => format!("({}={v})", x.name),
                    None => format!("({})", x.name),
                });
                evs.push(E { id: a.h.id, name: a.name.clone(), module: st.iter().rev().find(|x| matches!(x, Item::Mod(_))).map(|x| x.h().id), arg: arg.unwrap_or_default() });
                return;
            }
        }
        if !matches!(it, Item::Mod(_)) {
            others.push(w);
        }
    });
    for e in &evs {
        let (s, t) = rend.whole(e.id);
        let inner: Vec<&crate::lex::Tok> = toks.iter().filter(|x| x.start >= s && x.end <= t).collect();
        // an ordinary comment between documentation and item: the parser may detach the documentation
        if inner.windows(2).take_while(|w| w[0].text.starts_with("///") || w[0].text.starts_with("/**")).any(|w| !src[w[0].end..w[1].start].trim().is_empty()) {
            cx.count("detached_docs");
            continue;
        }
        for _ in 0..4 {
            let tk = inner[r.below(inner.len())];
            let (a, b) = match r.below(5) {
                0 => (s, t),
                1 => (tk.start, tk.start),
                2 => {
                    let k = inner[r.below(inner.len())];
                    (tk.start.min(k.start), tk.end.max(k.end))
                }
                _ => (tk.start, tk.end),
            };
            // a cursor at the very edge may be taken for the neighbour
            let edge = a == b && (a == s || a == t);
            let x = match guard(|| an.extract(range(a, b))) {
                Ok(x) => x,
                Err(m) => return cx.violate(&m.clone(), &format!("extraction panicked: {m}"), json!({"source": src, "range": [a, b]})),
            };
            let det = || json!({"source": src, "range": [a, b], "version": v.name(), "extraction": format!("{x:?}")});
            let Some(x) = &x else {
                cx.count("rejected");
                // selections in the fields need not count as selecting the event
                let decl = rend.span(e.id, Part::Decl).map_or(s, |d| d.1);
                if e.module.is_some() && !edge && ((a, b) == (s, t) || b <= decl) {
                    cx.violate("not-extracted", &format!("event {} is not extracted for {a}..{b}", e.name), det());
                }
                continue;
            };
            cx.count("extracted");
            if edge && x.name != e.name {
                continue;
            }
            if x.name != e.name {
                cx.violate("name", &format!("extraction is named {:?} instead of {:?}", x.name, e.name), det());
                continue;
            }
            let (d0, a0, _, rest0) = parts(&src[s..t]);
            let (d1, a1, ev1, rest1) = parts(&x.content);
            let ev: Vec<String> = ev1.iter().map(|x| x.replace(",)", ")").replace("()", "")).collect();
            let want = vec![format!("#[ink::event{}]", e.arg)];
            if d0 != d1 || a0 != a1 || rest0 != rest1 {
                cx.violate("content", &format!("extracted definition differs: {:?}", x.content), det());
                continue;
            }
            if ev != want {
                cx.violate("event-attribute", &format!("extracted attributes {ev:?}, expected {want:?}"), det());
                continue;
            }
            let c1 = comments(&x.content);
            if comments(&src[s..t]).iter().any(|c| !c1.contains(c)) {
                // comments between the tokens of a replaced attribute go with it
                let mut gone = vec![];
                p.file.heads(&mut |h, _, _| {
                    if h.id == e.id {
                        for a in h.ink() {
                            let w = rend.whole(a.id);
                            gone.extend(comments(&src[w.0..w.1]));
                        }
                    }
                });
                let lost: Vec<String> = comments(&src[s..t]).into_iter().filter(|c| !c1.contains(c) && !gone.contains(c)).collect();
                if let Some(l) = lost.first() {
                    cx.violate("comment", &format!("comment {l:?} of the event is lost"), det());
                    continue;
                }
            }
            // what is left
            let es: Vec<Edit> = x.edits.iter().map(edit).collect();
            let Some(left) = api::apply(src, &es) else {
                cx.violate("overlap", "edits overlap", det());
                continue;
            };
            let want: Vec<&str> = toks.iter().filter(|k| !(k.start >= s && k.end <= t)).map(|k| k.text.as_str()).collect();
            let have = lex(&left);
            if want.len() != have.len() || want.iter().zip(&have).any(|(a, b)| *a != b.text) {
                cx.violate("rest", "the edit does not remove exactly the event", det());
                continue;
            }
            // the import goes between items directly in the module
            let m = e.module.unwrap_or(0);
            let (ms, me) = (rend.span(m, Part::Decl).map_or(0, |x| x.1), rend.whole(m).1 - 1);
            let o = usize::from(x.import_offset);
            let inside_item = p.file.ids(&|it, st| st.last().map(|m| m.h().id) == e.module && { let w = rend.whole(it.h().id); w.0 < o && o < w.1 });
            let inside_tok = toks.iter().any(|k| k.start < o && o < k.end);
            if !(ms <= o && o <= me) || !inside_item.is_empty() || inside_tok {
                cx.violate("import-offset", &format!("import offset {o} is not between the items of the module ({ms}..{me})"), det());
                continue;
            }
            // with the import inserted it is a declaration of its own
            let mut e2 = es.clone();
            e2.push(Edit { s: o, e: o, text: format!("{}use ev::{};", x.import_indent, x.name), snippet: None });
            let Some(with) = api::apply(src, &e2) else {
                cx.violate("overlap-import", "the import lies inside the removed text", det());
                continue;
            };
            let (mut ids, mut bad) = (vec![], vec![]);
            let nm = norm(&with, &[format!("useev::{};", x.name)], &mut ids, &mut bad);
            if nm.uses.len() != 1 || !bad.is_empty() {
                cx.violate("import-place", "the import cannot stand where it is inserted", det());
            }
        }
    }
    for _ in 0..6 {
        if others.is_empty() {
            break;
        }
        let (s, t) = others[r.below(others.len())];
        let inner: Vec<&crate::lex::Tok> = toks.iter().filter(|x| x.start >= s && x.end <= t).collect();
        if inner.len() < 3 {
            continue;
        }
        let tk = inner[r.range(1, inner.len() - 2)];
        let (a, b) = if r.pct(50) { (tk.start, tk.end) } else { (tk.start + 0, tk.start) };
        if evs.iter().any(|e| { let w = rend.whole(e.id); w.0 <= b && a <= w.1 }) {
            continue;
        }
        cx.count("non_events");
        match guard(|| an.extract(range(a, b))) {
            Ok(None) => (),
            Ok(Some(x)) => cx.violate("non-event", &format!("{} extracted from {:?}", x.name, &src[s..t.min(s + 80)].lines().next()), json!({"source": src, "range": [a, b], "version": v.name()})),
            Err(m) => return cx.violate(&m.clone(), &format!("extraction panicked: {m}"), json!({"source": src, "range": [a, b]})),
        }
    }
    cx.sample(|| json!({"source": src, "version": v.name()}));
}

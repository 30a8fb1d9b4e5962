//! Breaks exactly one rule of a valid program and says where the error has to be reported.

use crate::ast::*;
use crate::gen::*;
use crate::rng::Rng;

#[derive(Clone, Debug, Default)]
pub struct Broken {
    pub name: String,
    /// At least one diagnostic lies inside one of these nodes.
    pub expect: Vec<Id>,
    /// Consequential diagnostics are allowed here as well.
    pub also: Vec<(Id, Part)>,
    /// Each of these has its own diagnostic.
    pub each: Vec<Id>,
    /// A warning suffices.
    pub warn_ok: bool,
    /// Not to be combined with other mutations.
    pub solo: bool,
}

pub fn b(name: impl Into<String>, expect: Vec<Id>) -> Option<Broken> {
    Some(Broken { name: name.into(), expect, ..Broken::default() })
}

impl Broken {
    pub fn also(mut self, id: Id, part: Part) -> Self {
        self.also.push((id, part));
        self
    }
    pub fn solo(mut self) -> Self {
        self.solo = true;
        self
    }
}

pub struct M<'a> {
    pub p: &'a mut Prog,
    pub r: &'a mut Rng,
}

fn is_mac(it: &Item, m: &str) -> bool {
    it.h().mac(m).is_some()
}
pub fn has_arg(it: &Item, a: &str) -> bool {
    it.h().attrs.iter().any(|x| x.path == "ink" && x.has(a))
}

impl<'a> M<'a> {
    pub fn pick(&mut self, pred: &dyn Fn(&Item, &[&Item]) -> bool) -> Option<Id> {
        let v = self.p.file.ids(pred);
        if v.is_empty() { None } else { Some(v[self.r.below(v.len())]) }
    }
    pub fn all(&self, pred: &dyn Fn(&Item, &[&Item]) -> bool) -> Vec<Id> {
        self.p.file.ids(pred)
    }
    pub fn item(&mut self, id: Id) -> &mut Item {
        self.p.file.find_mut(id).unwrap()
    }
    pub fn fun(&mut self, id: Id) -> &mut Func {
        match self.item(id) {
            Item::Fn(f) => f,
            _ => unreachable!(),
        }
    }
    pub fn adt(&mut self, id: Id) -> &mut Adt {
        match self.item(id) {
            Item::Adt(f) => f,
            _ => unreachable!(),
        }
    }
    pub fn tr(&mut self, id: Id) -> &mut Trait {
        match self.item(id) {
            Item::Trait(f) => f,
            _ => unreachable!(),
        }
    }
    pub fn imp(&mut self, id: Id) -> &mut Impl {
        match self.item(id) {
            Item::Impl(f) => f,
            _ => unreachable!(),
        }
    }
    pub fn contract(&self) -> Option<Id> {
        self.p.contract
    }
    /// Builds new nodes with fresh ids and names.
    pub fn make<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> T {
        let mut o = Opts::default();
        o.e2e = false;
        let mut g = G::new(self.r, self.p.v, o);
        g.next = self.p.file.next_id;
        g.n = 500 + (g.next % 400);
        // keep new explicit selectors away from the existing ones
        g.selectors = existing_selectors(&self.p.file);
        let t = f(&mut g);
        let n = g.next;
        self.p.file.next_id = n;
        t
    }
    pub fn callables(&self, which: &str) -> Vec<Id> {
        self.all(&|it, st| {
            matches!(it, Item::Fn(_)) && has_arg(it, which) && matches!(st.last(), Some(Item::Impl(_)))
        })
    }
    pub fn storage(&self) -> Option<Id> {
        self.all(&|it, _| has_arg(it, "storage")).first().copied()
    }
    pub fn insert_root(&mut self, it: Item) {
        let n = self.p.file.items.len();
        let i = self.r.below(n + 1);
        self.p.file.items.insert(i, it);
    }
    pub fn insert_in(&mut self, parent: Id, it: Item) {
        let mut k = self.r.below(1 << 20);
        let Some(v) = self.item(parent).children_mut() else { return };
        k %= v.len() + 1;
        v.insert(k, it);
    }
    pub fn pos(&self, id: Id) -> usize {
        self.p.file.render().whole(id).0
    }
}

pub fn existing_selectors(f: &File) -> std::collections::HashSet<u32> {
    let mut s = std::collections::HashSet::new();
    f.walk(&mut |it, _| {
        if let Some(a) = it.h().arg("selector") {
            if let Some(v) = a.value.as_ref().and_then(|v| parse_int(v)) {
                s.insert(v);
            }
        }
    });
    s
}

pub fn parse_int(s: &str) -> Option<u32> {
    let t = s.replace('_', "");
    let t = t.trim_end_matches("u32").trim_end_matches("u16");
    if let Some(h) = t.strip_prefix("0x") {
        u32::from_str_radix(h, 16).ok()
    } else if let Some(h) = t.strip_prefix("0b") {
        u32::from_str_radix(h, 2).ok()
    } else if let Some(h) = t.strip_prefix("0o") {
        u32::from_str_radix(h, 8).ok()
    } else {
        t.parse().ok()
    }
}

pub type Mutator = fn(&mut M) -> Option<Broken>;

/// Wraps an item in `n` plain modules; returns the outermost.
fn wrap(m: &mut M, it: Item) -> Item {
    m.make(|g| {
        let h = g.head(vec![], "pub");
        let name = g.snake();
        Item::Mod(Mod { h, name, items: Some(vec![it]) })
    })
}

// ------------------------------------------------------------------ D02: contract structure

fn contract_not_inline(m: &mut M) -> Option<Broken> {
    let c = m.contract()?;
    if let Item::Mod(x) = m.item(c) {
        x.items = None;
    }
    b("contract-not-inline", vec![c])
}
fn contract_on_other_item(m: &mut M) -> Option<Broken> {
    let (it, id) = m.make(|g| {
        let at = g.spell("ink::contract", vec![], &[]);
        let h = g.head(at, "pub");
        let id = h.id;
        let name = g.camel();
        let it = match g.r.below(3) {
            0 => Item::Adt(Adt { h, kw: "struct".into(), name, generics: "".into(), shape: Shape::Record, fields: vec![], variants: "".into() }),
            1 => {
                let mut f = g.plain_fn();
                f.h = h;
                f.self_param = None;
                Item::Fn(f)
            }
            _ => Item::Trait(Trait { h, quals: "".into(), name, generics: "".into(), supers: "".into(), items: vec![] }),
        };
        (it, id)
    });
    m.insert_root(it);
    let mut x = b("contract-attribute-on-other-item", vec![id]).unwrap();
    // which of the two contracts is the surplus one is unspecified
    if let Some(c) = m.contract() {
        x = x.also(c, Part::Whole);
    }
    Some(x)
}
fn storage_missing(m: &mut M) -> Option<Broken> {
    let c = m.contract()?;
    let s = m.storage()?;
    m.item(s).h_mut().attrs.retain(|a| !a.is_ink());
    b("storage-missing", vec![c])
}
fn storage_twice(m: &mut M) -> Option<Broken> {
    let c = m.contract()?;
    let s = m.storage()?;
    let mut ids = vec![s];
    for _ in 0..m.r.range(1, 2) {
        let it = m.make(|g| {
            let n = g.camel();
            g.storage(&n)
        });
        ids.push(it.h.id);
        m.insert_in(c, Item::Adt(it));
    }
    ids.sort_by_key(|i| m.pos(*i));
    ids.remove(0);
    let mut x = b("storage-twice", ids.clone())?;
    x.each = ids;
    Some(x)
}
fn ctor_missing(m: &mut M) -> Option<Broken> {
    let c = m.contract()?;
    for f in m.callables("constructor") {
        m.item(f).h_mut().attrs.retain(|a| !a.is_ink());
    }
    fix_empty_impls(m);
    b("constructor-missing", vec![c])
}
/// Implementation blocks whose annotation only makes sense with callables keep no `#[ink(..)]`.
fn fix_empty_impls(m: &mut M) {
    let v = m.all(&|it, _| matches!(it, Item::Impl(_)) && !it.children().iter().any(|x| x.h().ink().next().is_some()));
    for id in v {
        m.item(id).h_mut().attrs.retain(|a| !a.is_ink());
    }
}
fn msg_missing(m: &mut M) -> Option<Broken> {
    let c = m.contract()?;
    let t = m.all(&|it, _| matches!(it, Item::Impl(x) if x.trait_path.is_some()) && it.children().iter().any(|x| x.h().ink().next().is_some()));
    if !t.is_empty() {
        return None;
    }
    for f in m.callables("message") {
        m.item(f).h_mut().attrs.retain(|a| !a.is_ink());
    }
    fix_empty_impls(m);
    b("message-missing", vec![c])
}
fn contract_twice(m: &mut M) -> Option<Broken> {
    let c = m.contract()?;
    let mut ids = vec![c];
    for _ in 0..m.r.range(1, 2) {
        let it = m.make(|g| {
            let n = g.camel();
            g.contract(&n, vec![], &[], None, &None)
        });
        ids.push(it.h().id);
        let it = if m.r.pct(30) { wrap(m, it) } else { it };
        m.insert_root(it);
    }
    ids.sort_by_key(|i| m.pos(*i));
    ids.remove(0);
    let mut x = b("contract-twice", ids.clone())?;
    x.each = ids;
    Some(x)
}
fn contract_in_contract(m: &mut M) -> Option<Broken> {
    let c = m.contract()?;
    let it = m.make(|g| {
        let n = g.camel();
        g.contract(&n, vec![], &[], None, &None)
    });
    let id = it.h().id;
    m.insert_in(c, it);
    b("contract-in-contract", vec![id])
}
fn storage_misplaced(m: &mut M) -> Option<Broken> {
    let it = m.make(|g| {
        let n = g.camel();
        g.storage(&n)
    });
    let s = m.storage();
    let x = misplaced(m, Item::Adt(it), "storage")?;
    // which of the two is the surplus one is unspecified
    Some(if let Some(s) = s { x.also(s, Part::Whole) } else { x })
}
fn event_misplaced(m: &mut M) -> Option<Broken> {
    let it = m.make(|g| g.event(false));
    misplaced(m, Item::Adt(it), "event")
}
fn impl_misplaced(m: &mut M) -> Option<Broken> {
    let it = m.make(|g| {
        let f = g.message("pub", false);
        let n = g.camel();
        let mut i = g.ink_impl(&n, vec![Item::Fn(f)]);
        if i.h.attrs.is_empty() {
            let a = g.flag("impl");
            i.h.attrs = vec![g.attr("ink", Some(vec![a]))];
        }
        i
    });
    misplaced(m, Item::Impl(it), "impl")
}
fn misplaced(m: &mut M, it: Item, what: &str) -> Option<Broken> {
    let id = it.h().id;
    let c = m.contract();
    match m.r.below(3) {
        0 => {
            m.insert_root(it);
            b(format!("{what}-at-root"), vec![id])
        }
        1 => {
            let w = wrap(m, it);
            m.insert_root(w);
            b(format!("{what}-in-root-module"), vec![id])
        }
        _ => {
            let c = c?;
            let w = wrap(m, it);
            m.insert_in(c, w);
            b(format!("{what}-in-module-of-contract"), vec![id])
        }
    }
}
fn callable_misplaced(m: &mut M) -> Option<Broken> {
    let c = m.contract();
    let (f, what) = m.make(|g| if g.r.pct(50) { (g.constructor("pub"), "constructor") } else { (g.message("pub", false), "message") });
    let id = f.h.id;
    match m.r.below(3) {
        0 => {
            m.insert_root(Item::Fn(f));
            b(format!("{what}-at-root"), vec![id])
        }
        1 => {
            let c = c?;
            m.insert_in(c, Item::Fn(f));
            b(format!("{what}-in-contract"), vec![id])
        }
        _ => {
            let w = wrap(m, Item::Fn(f));
            m.insert_root(w);
            b(format!("{what}-in-module"), vec![id])
        }
    }
}
fn ext_fn_misplaced(m: &mut M) -> Option<Broken> {
    let c = m.contract();
    let mut f = m.make(|g| g.ext_fn(9, &[], "E"));
    f.body = Some("todo!()".into());
    let id = f.h.id;
    let k = m.r.below(3);
    match (k, c) {
        (0, Some(c)) => {
            m.insert_in(c, Item::Fn(f));
            b("extension-in-contract", vec![id])
        }
        (1, Some(_)) => {
            let i = m.pick(&|it, _| matches!(it, Item::Impl(x) if x.trait_path.is_none()) && it.children().iter().any(|x| x.h().ink().next().is_some()))?;
            m.insert_in(i, Item::Fn(f));
            b("extension-in-impl", vec![id])
        }
        _ => {
            m.insert_root(Item::Fn(f));
            b("extension-at-root", vec![id])
        }
    }
}
fn reserved_ident(m: &mut M) -> Option<Broken> {
    let id = m.pick(&|it, st| {
        let s = it.kind();
        (s == "fn" || s == "mod") && it.h().ink().next().is_some() && st.iter().chain([&it]).any(|x| is_mac(x, "ink::contract"))
            && !matches!(st.last(), Some(Item::Impl(x)) if x.trait_path.is_some())
            && !matches!(st.last(), Some(Item::Trait(_)))
    })?;
    let n = format!("__ink_{}", m.item(id).name());
    match m.item(id) {
        Item::Fn(f) => f.name = n,
        Item::Mod(x) => x.name = n,
        _ => return None,
    }
    b("reserved-identifier", vec![id])
}
fn env_unresolved(m: &mut M) -> Option<Broken> {
    let c = m.contract()?;
    let bad = m.r.picks(&["crate::no_such_module::Env", "NoSuchEnv", "self::Missing"]);
    let a = m.make(|g| g.arg("env", Some(bad)));
    let h = m.item(c).h_mut();
    if let Some(x) = h.arg_mut("env") {
        x.value = a.value;
    } else {
        h.attrs.iter_mut().find(|x| x.path == "ink::contract")?.args.get_or_insert(vec![]).push(a);
    }
    b("environment-unresolved", vec![c])
}
fn env_not_environment(m: &mut M) -> Option<Broken> {
    let c = m.contract()?;
    let (it, n) = m.make(|g| {
        let n = g.camel();
        (g.raw(&format!("#[derive(Clone)]\npub enum {n} {{}}")), n)
    });
    let tid = it.h().id;
    m.p.file.items.push(it);
    let a = m.make(|g| g.arg("env", Some(format!("crate::{n}"))));
    let h = m.item(c).h_mut();
    if let Some(x) = h.arg_mut("env") {
        x.value = a.value;
    } else {
        h.attrs.iter_mut().find(|x| x.path == "ink::contract")?.args.get_or_insert(vec![]).push(a);
    }
    b("environment-without-trait", vec![c, tid])
}

pub const D02: &[Mutator] = &[
    contract_not_inline, contract_on_other_item, storage_missing, storage_twice, ctor_missing, msg_missing, contract_twice, contract_in_contract,
    storage_misplaced, event_misplaced, impl_misplaced, callable_misplaced, ext_fn_misplaced, reserved_ident, env_unresolved, env_not_environment,
];

// ------------------------------------------------------------------ D03: callables

fn callable(m: &mut M) -> Option<(Id, bool, bool)> {
    let id = m.pick(&|it, st| (has_arg(it, "constructor") || has_arg(it, "message")) && matches!(st.last(), Some(Item::Impl(_))))?;
    let ctor = has_arg(m.item(id), "constructor");
    let ti = !m.all(&|it, st| it.h().id == id && matches!(st.last(), Some(Item::Impl(x)) if x.trait_path.is_some())).is_empty();
    Some((id, ctor, ti))
}
fn kn(ctor: bool) -> &'static str {
    if ctor { "constructor" } else { "message" }
}
fn c_generic(m: &mut M) -> Option<Broken> {
    let (id, c, _) = callable(m)?;
    let g = m.r.picks(&["<T>", "<'a>", "<const N: usize>", "<T: Clone, U>", "<E: ink::env::Environment>"]);
    m.fun(id).generics = g;
    b(format!("{}-generic", kn(c)), vec![id])
}
fn c_quals(m: &mut M) -> Option<Broken> {
    let (id, c, _) = callable(m)?;
    let g = m.r.picks(&["const", "async", "unsafe", "extern \"C\"", "extern", "const unsafe", "async unsafe"]);
    m.fun(id).quals = g.clone();
    b(format!("{}-{g}", kn(c)), vec![id])
}
fn c_variadic(m: &mut M) -> Option<Broken> {
    let (id, c, _) = callable(m)?;
    m.fun(id).variadic = true;
    b(format!("{}-variadic", kn(c)), vec![id])
}
fn c_vis(m: &mut M) -> Option<Broken> {
    let (id, c, t) = callable(m)?;
    let v = if t { m.r.picks(&["pub", "pub(crate)"]) } else { m.r.picks(&["", "pub(crate)", "pub(self)", "pub(super)", "pub(in crate)"]) };
    m.fun(id).h.vis = v.clone();
    b(format!("{}-visibility-{t}-{v}", kn(c)), vec![id])
}
fn c_receiver(m: &mut M) -> Option<Broken> {
    let (id, c, _) = callable(m)?;
    let v = if c { m.r.picks(&["&self", "&mut self", "self", "mut self"]) } else { m.r.picks(&["", "self", "mut self"]) };
    m.fun(id).self_param = if v.is_empty() { None } else { Some(v.clone()) };
    b(format!("{}-receiver-{v}", kn(c)), vec![id])
}
fn c_ctor_no_ret(m: &mut M) -> Option<Broken> {
    let id = m.pick(&|it, st| has_arg(it, "constructor") && matches!(st.last(), Some(Item::Impl(_))))?;
    m.fun(id).ret = None;
    b("constructor-without-return-type", vec![id])
}
fn c_msg_self_ret(m: &mut M) -> Option<Broken> {
    let id = m.pick(&|it, st| has_arg(it, "message") && matches!(st.last(), Some(Item::Impl(_))))?;
    m.fun(id).ret = Some("Self".into());
    b("message-returns-self", vec![id])
}
pub const D03: &[Mutator] = &[c_generic, c_quals, c_variadic, c_vis, c_receiver, c_ctor_no_ret, c_msg_self_ret, callable_misplaced];

// ------------------------------------------------------------------ D04: storage, events, storage items

fn s_vis(m: &mut M) -> Option<Broken> {
    let id = m.storage()?;
    let v = m.r.picks(&["", "pub(crate)", "pub(super)"]);
    m.item(id).h_mut().vis = v.clone();
    b(format!("storage-visibility-{v}"), vec![id])
}
fn s_kind(m: &mut M) -> Option<Broken> {
    let id = m.storage()?;
    let c = m.contract()?;
    let a = m.adt(id);
    a.kw = "enum".into();
    a.fields.clear();
    a.shape = Shape::Unit;
    a.variants = " A, B(u8) ".into();
    Some(b("storage-on-enum", vec![id]).unwrap().also(c, Part::Decl))
}
fn ev(m: &mut M) -> Option<Id> {
    m.pick(&|it, _| matches!(it, Item::Adt(_)) && (has_arg(it, "event") || is_mac(it, "ink::event")))
}
fn e_vis(m: &mut M) -> Option<Broken> {
    let id = ev(m)?;
    let v = m.r.picks(&["", "pub(crate)", "pub(super)"]);
    m.item(id).h_mut().vis = v.clone();
    b(format!("event-visibility-{v}"), vec![id])
}
fn e_generic(m: &mut M) -> Option<Broken> {
    let id = ev(m)?;
    let v = m.r.picks(&["<T>", "<'a>", "<const N: usize>"]);
    m.adt(id).generics = v.clone();
    b("event-generic", vec![id])
}
fn e_kind(m: &mut M) -> Option<Broken> {
    let id = ev(m)?;
    let a = m.adt(id);
    a.kw = "enum".into();
    a.fields.clear();
    a.shape = Shape::Unit;
    a.variants = " A, B(u8) ".into();
    b("event-on-enum", vec![id])
}
fn e_field_cfg(m: &mut M) -> Option<Broken> {
    let id = m.pick(&|it, _| (has_arg(it, "event") || is_mac(it, "ink::event")) && matches!(it, Item::Adt(a) if !a.fields.is_empty()))?;
    let at = m.make(|g| g.raw_attr("cfg", "(feature = \"std\")"));
    let n = m.adt(id).fields.len();
    let k = m.r.below(n);
    let f = &mut m.adt(id).fields[k];
    f.h.attrs.push(at);
    let fid = f.h.id;
    b("event-field-cfg", vec![fid])
}
fn topic_wrong_place(m: &mut M) -> Option<Broken> {
    let at = m.make(|g| {
        let a = g.flag("topic");
        g.attr("ink", Some(vec![a]))
    });
    match m.r.below(4) {
        0 => {
            let id = m.pick(&|it, _| has_arg(it, "storage") && matches!(it, Item::Adt(a) if !a.fields.is_empty()))?;
            let n = m.adt(id).fields.len();
            let k = m.r.below(n);
            let f = &mut m.adt(id).fields[k];
            f.h.attrs.push(at);
            let fid = f.h.id;
            b("topic-on-storage-field", vec![fid])
        }
        1 => {
            let id = m.pick(&|it, st| matches!(it, Item::Fn(_)) && it.h().ink().next().is_none() && matches!(st.last(), Some(Item::Impl(_))))?;
            m.item(id).h_mut().attrs.push(at);
            b("topic-on-fn", vec![id])
        }
        2 => {
            let id = m.pick(&|it, _| is_mac(it, "ink::storage_item") && matches!(it, Item::Adt(a) if !a.fields.is_empty()))?;
            let n = m.adt(id).fields.len();
            let k = m.r.below(n);
            let f = &mut m.adt(id).fields[k];
            f.h.attrs.push(at);
            let fid = f.h.id;
            b("topic-on-storage-item-field", vec![fid])
        }
        _ => {
            // struct of its own in the contract
            let c = m.contract()?;
            let s = m.make(|g| {
                let h = g.head(vec![at], "pub");
                let name = g.camel();
                Adt { h, kw: "struct".into(), name, generics: "".into(), shape: Shape::Record, fields: vec![], variants: "".into() }
            });
            let id = s.h.id;
            m.insert_in(c, Item::Adt(s));
            b("topic-on-struct", vec![id])
        }
    }
}
fn event_other_ink_field(m: &mut M) -> Option<Broken> {
    let id = m.pick(&|it, _| (has_arg(it, "event") || is_mac(it, "ink::event")) && matches!(it, Item::Adt(a) if !a.fields.is_empty()))?;
    let n = m.r.picks(&["storage", "event", "message", "payable", "anonymous"]);
    let at = m.make(|g| {
        let a = g.flag(&n);
        g.attr("ink", Some(vec![a]))
    });
    let k = m.adt(id).fields.len();
    let k = m.r.below(k);
    let f = &mut m.adt(id).fields[k];
    f.h.attrs.retain(|a| !a.is_ink());
    f.h.attrs.push(at);
    let fid = f.h.id;
    b(format!("event-field-{n}"), vec![fid])
}
fn storage_item_kind(m: &mut M) -> Option<Broken> {
    let it = m.make(|g| {
        let at = g.spell("ink::storage_item", vec![], &[]);
        let h = g.head(at, "pub");
        let name = g.camel();
        match g.r.below(3) {
            0 => {
                let mut f = g.plain_fn();
                f.h = h;
                f.self_param = None;
                Item::Fn(f)
            }
            1 => Item::Trait(Trait { h, quals: "".into(), name, generics: "".into(), supers: "".into(), items: vec![] }),
            _ => Item::Mod(Mod { h, name, items: Some(vec![]) }),
        }
    });
    let id = it.h().id;
    let k = it.kind().to_string();
    m.insert_root(it);
    b(format!("storage-item-on-{k}"), vec![id])
}
fn storage_item_descendant(m: &mut M) -> Option<Broken> {
    let id = m.pick(&|it, _| is_mac(it, "ink::storage_item") && matches!(it, Item::Adt(a) if !a.fields.is_empty()))?;
    let n = m.r.picks(&["storage", "event", "message", "payable"]);
    let at = m.make(|g| {
        let a = g.flag(&n);
        g.attr("ink", Some(vec![a]))
    });
    let k = m.adt(id).fields.len();
    let k = m.r.below(k);
    let f = &mut m.adt(id).fields[k];
    f.h.attrs.push(at);
    let fid = f.h.id;
    b(format!("storage-item-field-{n}"), vec![fid])
}
pub const D04: &[Mutator] = &[
    s_vis, s_kind, e_vis, e_generic, e_kind, e_field_cfg, topic_wrong_place, event_other_ink_field, storage_item_kind, storage_item_descendant,
    storage_misplaced, event_misplaced,
];

// ------------------------------------------------------------------ D05: trait definitions & impls

fn td(m: &mut M) -> Option<Id> {
    m.pick(&|it, _| matches!(it, Item::Trait(_)) && is_mac(it, "ink::trait_definition"))
}
fn impls_of(m: &M, t: Id) -> Vec<Id> {
    // implementations keep referring to the trait by name
    let mut name = String::new();
    m.p.file.walk(&mut |it, _| if it.h().id == t { name = it.name().to_string() });
    m.all(&|it, _| matches!(it, Item::Impl(x) if x.trait_path.as_ref().map_or(false, |p| p == &name || p.ends_with(&format!("::{name}")))))
}
fn t_shape(m: &mut M, pick: fn(&mut M) -> Option<Id>, what: &str) -> Option<Broken> {
    let id = pick(m)?;
    let k = m.r.below(5);
    let s = match k {
        0 => {
            let v = m.r.picks(&["", "pub(crate)", "pub(super)"]);
            m.tr(id).h.vis = v;
            "visibility"
        }
        1 => {
            m.tr(id).quals = "unsafe".into();
            "unsafe"
        }
        2 => {
            let v = m.r.picks(&["<T>", "<'a>", "<const N: u8>"]);
            m.tr(id).generics = v;
            "generic"
        }
        3 => {
            let v = m.r.picks(&["Clone", "Send + Sync", "ink::env::Environment", "'static"]);
            m.tr(id).supers = v;
            "supertrait"
        }
        _ => {
            m.tr(id).quals = "auto".into();
            "auto"
        }
    };
    b(format!("{what}-{s}"), vec![id])
}
fn td_shape(m: &mut M) -> Option<Broken> {
    t_shape(m, td, "trait-definition")
}
fn td_item(m: &mut M) -> Option<Broken> {
    let id = td(m)?;
    // an extra member would also be missing from implementations, so only non-methods
    let t = m.r.picks(&["const X: u32;", "type T;", "some_macro!();", "const Y: u8 = 1;"]);
    let it = m.make(|g| g.raw(&t));
    let iid = it.h().id;
    m.insert_in(id, it);
    b("trait-definition-non-method", vec![iid])
}
fn td_method_not_message(m: &mut M) -> Option<Broken> {
    let id = td(m)?;
    let mut f = m.make(|g| {
        let mut f = g.message("", true);
        f.h.attrs.retain(|a| !a.is_ink());
        f
    });
    f.self_param = Some("&self".into());
    let fid = f.h.id;
    let with_impl = impls_of(m, id);
    m.insert_in(id, Item::Fn(f));
    let mut x = b("trait-definition-method-not-message", vec![fid]).unwrap();
    for i in with_impl {
        x = x.also(i, Part::Whole);
    }
    Some(x)
}
fn td_msg(m: &mut M) -> Option<(Id, Id)> {
    let t = td(m)?;
    let v: Vec<Id> = m.item(t).children().iter().filter(|x| has_arg(x, "message")).map(|x| x.h().id).collect();
    if v.is_empty() {
        return None;
    }
    Some((t, v[m.r.below(v.len())]))
}
fn with_impls(m: &M, t: Id, x: Option<Broken>) -> Option<Broken> {
    let mut x = x?;
    for i in impls_of(m, t) {
        x = x.also(i, Part::Whole);
    }
    Some(x)
}
fn td_body(m: &mut M) -> Option<Broken> {
    let (t, id) = td_msg(m)?;
    m.fun(id).body = Some("todo!()".into());
    let x = b("trait-definition-default-body", vec![id]);
    with_impls(m, t, x)
}
fn td_msg_form(m: &mut M) -> Option<Broken> {
    let (t, id) = td_msg(m)?;
    let s = match m.r.below(4) {
        0 => {
            let g = m.r.picks(&["<T>", "<'a>", "<const N: usize>"]);
            m.fun(id).generics = g;
            "generic"
        }
        1 => {
            let g = m.r.picks(&["const", "async", "unsafe", "extern \"C\""]);
            m.fun(id).quals = g;
            "qualifier"
        }
        2 => {
            let v = m.r.picks(&["", "self", "mut self"]);
            m.fun(id).self_param = if v.is_empty() { None } else { Some(v) };
            "receiver"
        }
        _ => {
            m.fun(id).variadic = true;
            "variadic"
        }
    };
    let x = b(format!("trait-definition-message-{s}"), vec![id]);
    with_impls(m, t, x)
}
fn td_wildcard(m: &mut M) -> Option<Broken> {
    let (t, id) = td_msg(m)?;
    m_set_selector(m, id, "_");
    let x = b("trait-definition-wildcard-selector", vec![id]);
    with_impls(m, t, x)
}
pub fn m_set_selector(m: &mut M, id: Id, val: &str) {
    let v = val.to_string();
    let mut f = m.fun(id).clone();
    m.make(|g| g.set_selector(&mut f, &v));
    *m.fun(id) = f;
}
fn td_constructor(m: &mut M) -> Option<Broken> {
    let id = td(m)?;
    let mut f = m.make(|g| g.constructor(""));
    f.body = None;
    let fid = f.h.id;
    m.insert_in(id, Item::Fn(f));
    let x = b("trait-definition-constructor", vec![fid]);
    with_impls(m, id, x)
}
fn td_empty(m: &mut M) -> Option<Broken> {
    let id = td(m)?;
    if !impls_of(m, id).is_empty() {
        return None;
    }
    m.tr(id).items.clear();
    b("trait-definition-empty", vec![id]).map(Broken::solo)
}
fn td_kind(m: &mut M) -> Option<Broken> {
    attr_on_other(m, "ink::trait_definition")
}
fn attr_on_other(m: &mut M, path: &str) -> Option<Broken> {
    let path = path.to_string();
    let it = m.make(|g| {
        let at = g.spell(&path, vec![], &[]);
        let h = g.head(at, "pub");
        let name = g.camel();
        match g.r.below(3) {
            0 => {
                let mut f = g.plain_fn();
                f.h = h;
                f.self_param = None;
                Item::Fn(f)
            }
            1 => Item::Adt(Adt { h, kw: "struct".into(), name, generics: "".into(), shape: Shape::Record, fields: vec![], variants: "".into() }),
            _ => Item::Mod(Mod { h, name, items: Some(vec![]) }),
        }
    });
    let id = it.h().id;
    let k = it.kind().to_string();
    m.insert_root(it);
    b(format!("{path}-on-{k}"), vec![id])
}
fn ti(m: &mut M) -> Option<Id> {
    m.pick(&|it, st| matches!(it, Item::Impl(x) if x.trait_path.is_some()) && it.children().iter().any(|x| has_arg(x, "message")) && st.iter().any(|x| is_mac(x, "ink::contract")))
}
fn ti_msg(m: &mut M) -> Option<(Id, Id)> {
    let t = ti(m)?;
    let v: Vec<Id> = m.item(t).children().iter().filter(|x| has_arg(x, "message")).map(|x| x.h().id).collect();
    Some((t, v[m.r.below(v.len())]))
}
fn ti_missing(m: &mut M) -> Option<Broken> {
    let (t, id) = ti_msg(m)?;
    if m.item(t).children().len() < 2 {
        return None;
    }
    m.item(t).children_mut()?.retain(|x| x.h().id != id);
    b("trait-impl-missing-message", vec![t]).map(Broken::solo)
}
/// No method of the implementation is annotated, or there is none.
fn ti_bare(m: &mut M) -> Option<Broken> {
    let t = ti(m)?;
    let c = m.contract()?;
    let drop = m.r.pct(50);
    let it = m.item(t);
    it.h_mut().attrs.retain(|a| !a.is_ink());
    let kids = it.children_mut()?;
    if drop {
        kids.clear();
    } else {
        for k in kids {
            k.h_mut().attrs.retain(|a| !a.is_ink());
        }
    }
    b(if drop { "trait-impl-empty" } else { "trait-impl-unannotated" }, vec![t]).map(|x| x.also(c, Part::Decl).solo())
}
fn ti_extra(m: &mut M) -> Option<Broken> {
    let (t, _) = ti_msg(m)?;
    let f = m.make(|g| g.message("", false));
    let id = f.h.id;
    m.insert_in(t, Item::Fn(f));
    b("trait-impl-extra-message", vec![id])
}
fn ti_sig(m: &mut M) -> Option<Broken> {
    let (_, id) = ti_msg(m)?;
    let k = m.r.below(5);
    let f = m.fun(id);
    let s = match k {
        0 => {
            f.params.push(("extra_param".into(), "u8".into()));
            "extra-param"
        }
        1 => {
            if f.params.is_empty() {
                return None;
            }
            f.params.pop();
            "missing-param"
        }
        2 => {
            let x = f.params.first_mut()?;
            x.1 = format!("Option<Option<{}>>", x.1);
            "param-type"
        }
        3 => {
            f.ret = Some(match &f.ret {
                Some(x) => format!("Option<Option<{x}>>"),
                None => "Vec<Vec<u8>>".into(),
            });
            "return-type"
        }
        _ => {
            f.self_param = Some(if f.self_param.as_deref() == Some("&self") { "&mut self".into() } else { "&self".into() });
            "receiver"
        }
    };
    b(format!("trait-impl-{s}"), vec![id])
}
fn ti_args(m: &mut M) -> Option<Broken> {
    let (_, id) = ti_msg(m)?;
    let name = m.r.picks(&["payable", "default", "selector"]);
    let has = m.item(id).h().arg(&name).is_some();
    if name == "selector" {
        if has && m.r.pct(50) {
            let fresh = m.make(|g| g.selector());
            m.item(id).h_mut().arg_mut("selector")?.value = Some(fresh);
            return b("trait-impl-selector-differs", vec![id]);
        }
        if has {
            m.item(id).h_mut().remove_arg("selector");
            return b("trait-impl-selector-missing", vec![id]);
        }
        let fresh = m.make(|g| g.selector());
        m_set_selector(m, id, &fresh);
        return b("trait-impl-selector-extra", vec![id]);
    }
    if has {
        m.item(id).h_mut().remove_arg(&name);
        b(format!("trait-impl-{name}-missing"), vec![id])
    } else {
        let a = m.make(|g| g.flag(&name));
        m.item(id).h_mut().attrs.iter_mut().rev().find(|a| a.path == "ink")?.args.as_mut()?.push(a);
        b(format!("trait-impl-{name}-extra"), vec![id])
    }
}
fn ti_non_method(m: &mut M) -> Option<Broken> {
    let t = ti(m)?;
    let s = m.r.picks(&["const X: u32 = 3;", "type T = u8;"]);
    let it = m.make(|g| g.raw(&s));
    let id = it.h().id;
    m.insert_in(t, it);
    b("trait-impl-non-method", vec![id])
}
fn ti_not_annotated(m: &mut M) -> Option<Broken> {
    let (t, id) = ti_msg(m)?;
    if m.item(t).children().len() < 2 {
        return None;
    }
    m.item(id).h_mut().attrs.retain(|a| !a.is_ink());
    b("trait-impl-unannotated-message", vec![t]).map(Broken::solo)
}
fn ink_impl(m: &mut M) -> Option<Id> {
    m.pick(&|it, st| matches!(it, Item::Impl(_)) && it.children().iter().any(|x| has_arg(x, "message") || has_arg(x, "constructor")) && st.iter().any(|x| is_mac(x, "ink::contract")))
}
fn im_quals(m: &mut M) -> Option<Broken> {
    let id = ink_impl(m)?;
    let q = m.r.picks(&["unsafe", "default"]);
    m.imp(id).quals = q.clone();
    b(format!("impl-{q}"), vec![id])
}
fn im_generic(m: &mut M) -> Option<Broken> {
    let id = ink_impl(m)?;
    let q = m.r.picks(&["<T>", "<'a>", "<T: Clone>"]);
    m.imp(id).generics = q;
    b("impl-generic", vec![id])
}
fn im_namespace_trait(m: &mut M) -> Option<Broken> {
    let id = ti(m)?;
    let a = m.make(|g| {
        let s = g.string("some_ns");
        let x = g.arg("namespace", Some(s));
        g.attr("ink", Some(vec![x]))
    });
    m.item(id).h_mut().attrs.push(a);
    b("namespace-on-trait-impl", vec![id])
}
pub const D05: &[Mutator] = &[
    td_shape, td_item, td_method_not_message, td_body, td_msg_form, td_wildcard, td_constructor, td_empty, td_kind, ti_missing, ti_bare, ti_extra, ti_sig, ti_args,
    ti_non_method, ti_not_annotated, im_quals, im_generic, im_namespace_trait, impl_misplaced,
];

// ------------------------------------------------------------------ D06: chain extensions

fn ce(m: &mut M) -> Option<Id> {
    m.pick(&|it, _| matches!(it, Item::Trait(_)) && is_mac(it, "ink::chain_extension"))
}
fn ce_shape(m: &mut M) -> Option<Broken> {
    t_shape(m, ce, "chain-extension")
}
fn ce_kind(m: &mut M) -> Option<Broken> {
    attr_on_other(m, "ink::chain_extension")
}
fn ce_no_error(m: &mut M) -> Option<Broken> {
    let id = ce(m)?;
    m.tr(id).items.retain(|x| !matches!(x, Item::Type(_)));
    b("error-code-missing", vec![id])
}
fn ce_error_twice(m: &mut M) -> Option<Broken> {
    let id = ce(m)?;
    let v = m.tr(id).items.iter().find_map(|x| if let Item::Type(t) = x { t.val.clone() } else { None })?;
    let it = m.make(|g| {
        let h = g.head(vec![], "");
        Item::Type(TypeItem { h, name: "ErrorCode".into(), generics: "".into(), bounds: "".into(), val: Some(v) })
    });
    m.insert_in(id, it);
    let ids: Vec<Id> = m.tr(id).items.iter().filter(|x| matches!(x, Item::Type(_))).map(|x| x.h().id).collect();
    b("error-code-twice", vec![*ids.last()?]).map(Broken::solo)
}
fn ce_error_form(m: &mut M) -> Option<Broken> {
    let id = ce(m)?;
    let k = m.r.below(6);
    let mut tid = 0;
    let mut what = "";
    for x in &mut m.tr(id).items {
        if let Item::Type(t) = x {
            tid = t.h.id;
            what = match k {
                0 => {
                    t.generics = "<T>".into();
                    "generic"
                }
                1 => {
                    t.bounds = "Clone".into();
                    "bounds"
                }
                2 => {
                    t.val = None;
                    "no-type"
                }
                3 => {
                    t.val = Some("NoSuchType".into());
                    "unresolved"
                }
                4 => {
                    t.val = Some("()".into());
                    "unit"
                }
                _ => {
                    t.name = "Error".into();
                    "name"
                }
            };
        }
    }
    if k == 5 {
        // either the misnamed type or the trait that lacks the error code
        return b("error-code-name", vec![id]);
    }
    b(format!("error-code-{what}"), vec![tid])
}
fn ce_error_no_impl(m: &mut M) -> Option<Broken> {
    let id = ce(m)?;
    let v = m.tr(id).items.iter().find_map(|x| if let Item::Type(t) = x { t.val.clone() } else { None })?;
    let im = m.pick(&|it, _| matches!(it, Item::Raw(r) if r.text.contains("FromStatusCode") && r.text.contains(&format!("for {v} "))))?;
    if let Item::Raw(r) = m.item(im) {
        r.text = "const UNUSED: u8 = 0;".into();
    }
    let t = m.pick(&|it, _| it.name() == v && matches!(it, Item::Adt(_)))?;
    b("error-code-without-from-status-code", vec![t]).map(Broken::solo)
}
fn ce_error_no_scale(m: &mut M) -> Option<Broken> {
    let id = ce(m)?;
    let v = m.tr(id).items.iter().find_map(|x| if let Item::Type(t) = x { t.val.clone() } else { None })?;
    let t = m.pick(&|it, _| it.name() == v && matches!(it, Item::Adt(_)))?;
    m.item(t).h_mut().attrs.clear();
    b("error-code-without-scale-codec", vec![t]).map(Broken::solo)
}
fn ce_param_no_scale(m: &mut M) -> Option<Broken> {
    let (t, id) = ce_fn(m)?;
    let _ = t;
    let (adt, name) = m.make(|g| {
        let h = g.head(vec![], "pub");
        let name = g.camel();
        (Item::Adt(Adt { h, kw: "struct".into(), name: name.clone(), generics: "".into(), shape: Shape::Unit, fields: vec![], variants: "".into() }), name)
    });
    let aid = adt.h().id;
    // same module as the chain extension
    let pid = m.all(&|it, _| matches!(it, Item::Mod(_)) && it.children().iter().any(|x| x.h().id == t)).first().copied();
    match pid {
        Some(p) => m.insert_in(p, adt),
        None => m.insert_root(adt),
    }
    let ty = match m.r.below(4) {
        0 => name.clone(),
        1 => format!("Option<{name}>"),
        2 => format!("Vec<{name}>"),
        _ => format!("({name}, u8)"),
    };
    if m.r.pct(50) {
        m.fun(id).params.push(("custom_arg".into(), ty));
    } else {
        m.fun(id).ret = Some(ty);
    }
    b("extension-type-without-scale-codec", vec![aid]).map(Broken::solo)
}
fn ce_fn(m: &mut M) -> Option<(Id, Id)> {
    let t = ce(m)?;
    let v: Vec<Id> = m.tr(t).items.iter().filter(|x| matches!(x, Item::Fn(_))).map(|x| x.h().id).collect();
    if v.is_empty() {
        return None;
    }
    Some((t, v[m.r.below(v.len())]))
}
fn ce_fn_form(m: &mut M) -> Option<Broken> {
    let (_, id) = ce_fn(m)?;
    let s = match m.r.below(5) {
        0 => {
            let v = m.r.picks(&["&self", "&mut self", "self"]);
            m.fun(id).self_param = Some(v);
            "receiver"
        }
        1 => {
            m.fun(id).body = Some("todo!()".into());
            "body"
        }
        2 => {
            let v = m.r.picks(&["<T>", "<'a>", "<const N: usize>"]);
            m.fun(id).generics = v;
            "generic"
        }
        3 => {
            let v = m.r.picks(&["const", "async", "unsafe", "extern \"C\""]);
            m.fun(id).quals = v;
            "qualifier"
        }
        _ => {
            m.fun(id).variadic = true;
            "variadic"
        }
    };
    b(format!("extension-fn-{s}"), vec![id])
}
fn ce_fn_unannotated(m: &mut M) -> Option<Broken> {
    let (_, id) = ce_fn(m)?;
    m.fun(id).h.attrs.retain(|a| !a.is_ink());
    b("extension-fn-unannotated", vec![id])
}
fn ce_dup_id(m: &mut M) -> Option<Broken> {
    let (t, id) = ce_fn(m)?;
    let k = if m.p.v == Ver::V5 { "function" } else { "extension" };
    let value = |m: &mut M, id: Id| parse_int(&m.item(id).h().arg(k)?.value.clone()?);
    let mut group: Vec<(u32, Vec<Id>)> = vec![(value(m, id)?, vec![id])];
    // several functions, with the same or with different identifiers, may clash
    for i in 0..m.r.range(1, 3) {
        let n = if i > 0 && m.r.pct(60) {
            let fs: Vec<Id> = m.item(t).children().iter().filter(|x| x.h().arg(k).is_some()).map(|x| x.h().id).collect();
            let o = fs[m.r.below(fs.len())];
            let n = value(m, o)?;
            if !group.iter().any(|g| g.0 == n) {
                group.push((n, vec![o]));
            }
            n
        } else {
            group[0].0
        };
        let f = m.make(|g| g.ext_fn(n, &[], "u8"));
        let fid = f.h.id;
        m.insert_in(t, Item::Fn(f));
        group.iter_mut().find(|g| g.0 == n).unwrap().1.push(fid);
    }
    let mut later = vec![];
    for (_, g) in &mut group {
        g.sort_by_key(|x| m.pos(*x));
        later.extend(&g[1..]);
    }
    let mut x = b("extension-duplicate-id", later.clone()).map(Broken::solo)?;
    x.each = later;
    Some(x)
}
fn ce_no_ext_id(m: &mut M) -> Option<Broken> {
    if m.p.v != Ver::V5 {
        return None;
    }
    let id = ce(m)?;
    for a in m.item(id).h_mut().attrs.iter_mut().filter(|a| a.path == "ink::chain_extension") {
        a.args = None;
    }
    b("chain-extension-without-id", vec![id])
}
fn ce_non_fn(m: &mut M) -> Option<Broken> {
    let id = ce(m)?;
    let t = m.r.picks(&["const X: u32;", "some_macro!();", "type Other = u8;"]);
    let it = m.make(|g| g.raw(&t));
    let iid = it.h().id;
    m.insert_in(id, it);
    b(format!("chain-extension-non-fn {t}"), vec![iid])
}
fn ce_id_range(m: &mut M) -> Option<Broken> {
    if m.p.v != Ver::V5 {
        return None;
    }
    if m.r.pct(50) {
        let (_, id) = ce_fn(m)?;
        m.item(id).h_mut().arg_mut("function")?.value = Some(m.r.picks(&["65536", "0x10000", "4294967295"]));
        b("function-id-out-of-range", vec![id])
    } else {
        let id = ce(m)?;
        m.item(id).h_mut().arg_mut("extension")?.value = Some(m.r.picks(&["65536", "0x10000", "4294967295"]));
        b("extension-id-out-of-range", vec![id])
    }
}
pub const D06: &[Mutator] = &[
    ce_shape, ce_kind, ce_no_error, ce_error_twice, ce_error_form, ce_error_no_impl, ce_error_no_scale, ce_param_no_scale, ce_fn_form, ce_fn_unannotated,
    ce_dup_id, ce_no_ext_id, ce_non_fn, ce_id_range, ext_fn_misplaced,
];

// ------------------------------------------------------------------ D07: attributes and arguments

fn pick_head(m: &mut M, pred: &dyn Fn(&Head, &str, &[&Item]) -> bool) -> Option<Id> {
    let mut v = vec![];
    m.p.file.heads(&mut |h, k, st| {
        if pred(h, k, st) {
            v.push(h.id);
        }
    });
    if v.is_empty() { None } else { Some(v[m.r.below(v.len())]) }
}
/// Consequences on the contract's declaration and on implementations of a trait definition are allowed.
fn att(m: &mut M, name: impl Into<String>, id: Id) -> Option<Broken> {
    let mut x = b(name, vec![id])?.solo();
    x.warn_ok = true;
    if let Some(c) = m.contract() {
        x = x.also(c, Part::Decl);
    }
    let t = m.all(&|it, _| matches!(it, Item::Trait(_)) && (it.h().id == id || it.children().iter().any(|c| c.h().id == id)));
    for t in t {
        for i in impls_of(m, t) {
            x = x.also(i, Part::Whole);
        }
        x = x.also(t, Part::Decl);
    }
    // implementations of a trait definition and implementation blocks whose only callable changed
    let im = m.all(&|it, _| matches!(it, Item::Impl(_)) && it.children().iter().any(|c| c.h().id == id));
    for i in im {
        x = x.also(i, Part::Decl);
    }
    Some(x)
}
fn ink_head(m: &mut M) -> Option<Id> {
    pick_head(m, &|h, _, _| h.ink().next().is_some())
}
fn a_unknown_macro(m: &mut M) -> Option<Broken> {
    let id = if m.r.pct(50) { ink_head(m)? } else { pick_head(m, &|_, k, _| k != "raw")? };
    let n = m.r.picks(&["foo", "contracts", "Contract", "storage", "message", "e2e_test", "tests"]);
    let a = m.make(|g| g.attr(&format!("ink::{n}"), None));
    let (n, k) = (n, m.r.below(1 << 16));
    let h = m.p.file.head_mut(id)?;
    let k = k % (h.attrs.len() + 1);
    h.attrs.insert(k, a);
    att(m, format!("unknown-macro {n}"), id)
}
fn a_unknown_arg(m: &mut M) -> Option<Broken> {
    let id = ink_head(m)?;
    let (n, v) = match m.r.below(6) {
        0 => ("foo", None),
        1 => ("xyz", Some("1")),
        2 => ("Message", None),
        3 => ("storages", None),
        4 => ("payables", Some("\"x\"")),
        _ => ("selectors", Some("0x1")),
    };
    let a = m.make(|g| g.arg(n, v.map(str::to_string)));
    let own = m.r.pct(40);
    let at = m.make(|g| g.attr("ink", Some(vec![a.clone()])));
    let h = m.p.file.head_mut(id)?;
    if own {
        h.attrs.push(at);
    } else {
        let last = h.attrs.iter_mut().filter(|a| a.is_ink()).last()?;
        last.args.get_or_insert(vec![]).push(a);
    }
    att(m, format!("unknown-argument {n}"), id)
}
fn a_empty(m: &mut M) -> Option<Broken> {
    let id = if m.r.pct(60) { ink_head(m)? } else { pick_head(m, &|_, k, st| (k == "fn" || k == "struct") && st.iter().any(|x| is_mac(x, "ink::contract")))? };
    let at = m.make(|g| if g.r.pct(50) { g.attr("ink", None) } else { g.attr("ink", Some(vec![])) });
    m.p.file.head_mut(id)?.attrs.push(at);
    att(m, "empty-ink-attribute", id)
}
fn args_of(m: &M, names: &[&str]) -> Vec<(Id, String)> {
    let mut v = vec![];
    m.p.file.heads(&mut |h, _, _| {
        for a in h.ink() {
            for x in a.args.iter().flatten() {
                if names.contains(&x.name.as_str()) {
                    v.push((h.id, x.name.clone()));
                }
            }
        }
    });
    v
}
/// Picks an argument of the program, evenly over the argument kinds.
fn pick_arg(m: &mut M, names: &[&str]) -> Option<(Id, String)> {
    let v = args_of(m, names);
    if v.is_empty() {
        return None;
    }
    let mut kinds: Vec<&String> = v.iter().map(|x| &x.1).collect();
    kinds.sort();
    kinds.dedup();
    let k = kinds[m.r.below(kinds.len())].clone();
    let w: Vec<_> = v.iter().filter(|x| x.1 == k).collect();
    Some(w[m.r.below(w.len())].clone())
}
const FLAGS: &[&str] = &["constructor", "message", "payable", "default", "storage", "event", "anonymous", "topic", "impl", "Encode", "Decode", "TypeInfo"];
const VALUED: &[&str] = &["selector", "namespace", "keep_attr", "env", "extension", "function", "handle_status", "derive", "signature_topic", "environment", "additional_contracts"];
fn a_superfluous_value(m: &mut M) -> Option<Broken> {
    let (id, n) = pick_arg(m, FLAGS)?;
    let v = m.r.picks(&["1", "\"x\"", "true", "foo"]);
    m.p.file.head_mut(id)?.arg_mut(&n)?.value = Some(v);
    att(m, format!("superfluous-value {n}"), id)
}
fn a_missing_value(m: &mut M) -> Option<Broken> {
    let (id, n) = pick_arg(m, VALUED)?;
    m.p.file.head_mut(id)?.arg_mut(&n)?.value = None;
    att(m, format!("missing-value {n}"), id)
}
fn a_bad_value(m: &mut M) -> Option<Broken> {
    let (id, n) = pick_arg(m, VALUED)?;
    let bad: &[&str] = match n.as_str() {
        "selector" => &["\"1\"", "true", "foo", "4294967296", "0x1_0000_0000", "1.5", "'a'", "-1"],
        "extension" | "function" => &["\"1\"", "true", "foo", "_", "4294967296", "1.5", "-1"],
        "namespace" => &["1", "true", "foo", "\"\"", "\"1abc\"", "\"a b\"", "\"a::b\"", "\"a-b\""],
        "keep_attr" | "additional_contracts" => &["1", "true", "foo", "'a'"],
        "env" | "environment" => &["1", "\"crate::Env\"", "true"],
        "handle_status" | "derive" => &["1", "\"true\"", "foo", "_"],
        "signature_topic" => &["1", "true", "foo", "\"\"", "\"0x11\"", "\"zz11111111111111111111111111111111111111111111111111111111111111\"", "\"1111111111111111111111111111111111111111111111111111111111111111ff\"", "\"11111111111111111111111111111111111111111111111111111111111111\""],
        _ => return None,
    };
    let v = m.r.picks(bad);
    m.p.file.head_mut(id)?.arg_mut(&n)?.value = Some(v.clone());
    att(m, format!("bad-value {n} = {v}"), id)
}
fn a_duplicate(m: &mut M) -> Option<Broken> {
    let id = ink_head(m)?;
    let k = m.r.below(1 << 16);
    let own = m.r.pct(50);
    let at_path;
    let dup;
    {
        let h = m.p.file.head_mut(id)?;
        let cands: Vec<(String, Arg)> = h.ink().flat_map(|a| a.args.iter().flatten().map(move |x| (a.path.clone(), x.clone()))).collect();
        if cands.is_empty() || k % 4 == 0 {
            // the whole macro attribute
            let a = h.attrs.iter().find(|a| a.is_ink() && a.path != "ink")?.clone();
            at_path = a.path.clone();
            dup = None;
        } else {
            let (p, x) = cands[k % cands.len()].clone();
            at_path = p;
            dup = Some(x);
        }
    }
    match dup {
        None => {
            let mut at = m.make(|g| g.attr(&at_path, None));
            let h = m.p.file.head_mut(id)?;
            at.args = h.attrs.iter().find(|a| a.path == at_path)?.args.clone();
            let nid = m.make(|g| (g.id(), g.id(), g.id()));
            at.id = nid.0;
            let h = m.p.file.head_mut(id)?;
            h.attrs.push(at);
            att(m, format!("duplicate-macro {at_path}"), id)
        }
        Some(mut x) => {
            x.id = m.make(|g| g.id());
            let n = x.name.clone();
            if own && at_path == "ink" {
                let at = m.make(|g| g.attr("ink", Some(vec![x])));
                m.p.file.head_mut(id)?.attrs.push(at);
            } else {
                let h = m.p.file.head_mut(id)?;
                h.attrs.iter_mut().filter(|a| a.path == at_path && a.args.is_some()).last()?.args.as_mut()?.push(x);
            }
            att(m, format!("duplicate-argument {n}"), id)
        }
    }
}
const ALL_ARGS: &[(&str, Option<&str>)] = &[
    ("constructor", None), ("message", None), ("payable", None), ("default", None), ("selector", Some("0x77777777")), ("storage", None), ("event", None),
    ("anonymous", None), ("topic", None), ("impl", None), ("namespace", Some("\"ns\"")), ("env", Some("ink::env::DefaultEnvironment")), ("keep_attr", Some("\"foo\"")),
    ("handle_status", Some("true")), ("extension", Some("7")), ("function", Some("7")), ("signature_topic", Some("\"1111111111111111111111111111111111111111111111111111111111111111\"")),
    ("derive", Some("true")), ("environment", Some("ink::env::DefaultEnvironment")), ("additional_contracts", Some("\"a\"")), ("backend", Some("node")), ("Encode", None),
];
/// Arguments that may stand next to a primary argument / in a macro attribute.
pub fn allowed_with(primary: &str, v: Ver) -> Option<&'static [&'static str]> {
    Some(match (primary, v) {
        ("constructor" | "message", _) => &["payable", "default", "selector"],
        ("storage" | "topic", _) => &[],
        ("event", Ver::V4) => &["anonymous"],
        ("event" , Ver::V5) => &["anonymous", "signature_topic"],
        ("impl", _) => &["namespace"],
        ("namespace", _) => &["impl", "keep_attr"],
        ("extension", Ver::V4) => &["handle_status"],
        ("function", Ver::V5) => &["handle_status"],
        ("ink::contract", _) => &["env", "keep_attr"],
        ("ink::trait_definition", _) => &["namespace", "keep_attr"],
        ("ink::chain_extension", Ver::V4) => &[],
        ("ink::chain_extension", Ver::V5) => &["extension"],
        ("ink::storage_item", _) => &["derive"],
        ("ink::test", _) => &[],
        ("ink::event", Ver::V5) => &["anonymous", "signature_topic"],
        ("ink::scale_derive", Ver::V5) => &["Encode", "Decode", "TypeInfo"],
        ("ink_e2e::test", Ver::V4) => &["additional_contracts", "environment", "keep_attr"],
        ("ink_e2e::test", Ver::V5) => &["backend", "environment"],
        _ => return None,
    })
}
/// The macro path or primary argument of an annotated item.
pub fn primary(h: &Head) -> Option<String> {
    let a = h.ink().next()?;
    if a.path != "ink" { Some(a.path.clone()) } else { a.args.as_ref()?.first().map(|x| x.name.clone()) }
}
fn a_conflict(m: &mut M) -> Option<Broken> {
    let v = m.p.v;
    // evenly over the kinds of primary
    let mut kinds: Vec<String> = vec![];
    m.p.file.heads(&mut |h, _, _| if let Some(p) = primary(h) { kinds.push(p) });
    kinds.sort();
    kinds.dedup();
    if kinds.is_empty() {
        return None;
    }
    let pk = kinds[m.r.below(kinds.len())].clone();
    let id = pick_head(m, &|h, _, _| primary(h).as_deref() == Some(&pk))?;
    let ok = allowed_with(&pk, v)?;
    let bad: Vec<_> = ALL_ARGS.iter().filter(|a| a.0 != pk && !ok.contains(&a.0)).collect();
    let (n, val) = **m.r.pick(&bad);
    let a = m.make(|g| g.arg(n, val.map(str::to_string)));
    let own = m.r.pct(40);
    let at = m.make(|g| g.attr("ink", Some(vec![a.clone()])));
    let h = m.p.file.head_mut(id)?;
    if own {
        h.attrs.push(at);
    } else {
        let mac = pk.contains("::");
        let last = h.attrs.iter_mut().filter(|a| a.is_ink() && (!mac || a.path == pk)).last()?;
        last.args.get_or_insert(vec![]).push(a);
    }
    let others = if n == "storage" { m.all(&|it, _| has_arg(it, "storage") && it.h().id != id) } else { vec![] };
    let x = att(m, format!("conflict {pk} + {n}{}", if own { " (own attribute)" } else { "" }), id)?;
    Some(others.into_iter().fold(x, |x, o| x.also(o, Part::Whole)))
}
fn plain_item(g: &mut G, kind: usize, h: Head) -> Item {
    let name = g.camel();
    match kind {
        0 => Item::Adt(Adt { h, kw: "struct".into(), name, generics: "".into(), shape: Shape::Record, fields: vec![], variants: "".into() }),
        1 => Item::Adt(Adt { h, kw: "enum".into(), name, generics: "".into(), shape: Shape::Unit, fields: vec![], variants: " A ".into() }),
        2 => {
            let name = g.snake();
            Item::Fn(Func { h, quals: "".into(), name, generics: "".into(), self_param: None, params: vec![], variadic: false, ret: None, body: Some("".into()) })
        }
        3 => Item::Trait(Trait { h, quals: "".into(), name, generics: "".into(), supers: "".into(), items: vec![] }),
        4 => {
            let name = g.snake();
            Item::Mod(Mod { h, name, items: Some(vec![]) })
        }
        5 => Item::Impl(Impl { h, quals: "".into(), generics: "".into(), trait_path: None, self_ty: name, items: vec![] }),
        _ => Item::Type(TypeItem { h, name, generics: "".into(), bounds: "".into(), val: Some("u8".into()) }),
    }
}
fn a_wrong_item(m: &mut M) -> Option<Broken> {
    let v = m.p.v;
    // (attribute, item kinds it is meant for)
    let table: &[(&str, Option<&str>, &[usize])] = &[
        ("storage", None, &[0]), ("event", None, &[0]), ("topic", None, &[]), ("constructor", None, &[2]), ("message", None, &[2]),
        ("impl", None, &[5]), ("namespace", Some("\"ns\""), &[5]), ("ink::test", None, &[2]), ("ink_e2e::test", None, &[2]), ("ink::contract", None, &[4]),
        ("ink::trait_definition", None, &[3]), ("ink::chain_extension", None, &[3]), ("ink::storage_item", None, &[0, 1]), ("ink::event", None, &[0]), ("ink::scale_derive", None, &[0, 1]),
        ("extension", Some("7"), &[2]), ("function", Some("7"), &[2]),
    ];
    let t: Vec<_> = table.iter().filter(|t| v == Ver::V5 || !matches!(t.0, "ink::event" | "ink::scale_derive" | "function")).collect();
    let (n, val, ok) = **m.r.pick(&t);
    let kinds: Vec<usize> = (0..7).filter(|k| !ok.contains(k)).collect();
    let k = *m.r.pick(&kinds);
    let it = m.make(|g| {
        let at = if n.contains("::") {
            if n == "ink::scale_derive" {
                let a = g.flag("Encode");
                g.attr(n, Some(vec![a]))
            } else {
                g.attr(n, None)
            }
        } else {
            let a = g.arg(n, val.map(str::to_string));
            g.attr("ink", Some(vec![a]))
        };
        let h = g.head(vec![at], "");
        plain_item(g, k, h)
    });
    let id = it.h().id;
    let kind = it.kind().to_string();
    match m.contract() {
        Some(c) if m.r.pct(60) && n != "ink::contract" => m.insert_in(c, it),
        _ => m.insert_root(it),
    }
    let x = att(m, format!("{n} on {kind}"), id)?;
    // surplus contracts / storages: which one is the surplus one is unspecified
    let mut x = x;
    if n == "ink::contract" {
        if let Some(c) = m.contract() {
            x = x.also(c, Part::Whole);
        }
    }
    if n == "storage" {
        if let Some(s) = m.all(&|it, _| has_arg(it, "storage") && it.h().id != id).first() {
            x = x.also(*s, Part::Whole);
        }
    }
    Some(x)
}
fn a_version(m: &mut M) -> Option<Broken> {
    if m.p.v == Ver::V4 {
        match m.r.below(4) {
            0 => {
                let e = m.pick(&|it, _| matches!(it, Item::Adt(_)) && has_arg(it, "event"))?;
                let a = m.make(|g| g.arg("signature_topic", Some(format!("\"{}\"", "11".repeat(32)))));
                m.item(e).h_mut().remove_arg("anonymous");
                m.item(e).h_mut().attrs.iter_mut().filter(|a| a.path == "ink").last()?.args.as_mut()?.push(a);
                att(m, "v5-only signature_topic", e)
            }
            1 => {
                let (_, id) = ce_fn(m)?;
                m.fun(id).h.arg_mut("extension")?.name = "function".into();
                att(m, "v5-only function", id)
            }
            2 => {
                let it = m.make(|g| {
                    let at = g.attr("ink::event", None);
                    let h = g.head(vec![at], "pub");
                    plain_item(g, 0, h)
                });
                let id = it.h().id;
                m.insert_root(it);
                att(m, "v5-only ink::event", id)
            }
            _ => {
                let it = m.make(|g| {
                    let a = g.flag("Encode");
                    let at = g.attr("ink::scale_derive", Some(vec![a]));
                    let h = g.head(vec![at], "pub");
                    plain_item(g, 0, h)
                });
                let id = it.h().id;
                m.insert_root(it);
                att(m, "v5-only ink::scale_derive", id)
            }
        }
    } else {
        match m.r.below(2) {
            0 => {
                let (_, id) = ce_fn(m)?;
                m.fun(id).h.arg_mut("function")?.name = "extension".into();
                att(m, "v4-only extension", id)
            }
            _ => {
                let id = m.pick(&|it, _| is_mac(it, "ink_e2e::test"))?;
                let a = m.make(|g| if g.r.pct(50) { g.keep_attr() } else { g.arg("additional_contracts", Some("\"a\"".into())) });
                let n = a.name.clone();
                m.item(id).h_mut().attrs.iter_mut().find(|a| a.path == "ink_e2e::test")?.args.get_or_insert(vec![]).push(a);
                att(m, format!("v4-only {n}"), id)
            }
        }
    }
}
fn a_order(m: &mut M) -> Option<Broken> {
    let id = pick_head(m, &|h, _, _| {
        let v: Vec<&Attr> = h.ink().collect();
        v.iter().all(|a| a.path == "ink") && v.iter().map(|a| a.args.as_ref().map_or(0, |x| x.len())).sum::<usize>() > 1
    })?;
    let (k, b2) = (m.r.below(1 << 16), m.r.pct(50));
    let h = m.p.file.head_mut(id)?;
    let p = primary(h)?;
    if p == "namespace" || p == "impl" {
        return None;
    }
    let idx: Vec<usize> = h.attrs.iter().enumerate().filter(|(_, a)| a.is_ink()).map(|x| x.0).collect();
    let first = idx[0];
    let n_args = h.attrs[first].args.as_ref()?.len();
    let what;
    if n_args > 1 && (b2 || idx.len() == 1) {
        let v = h.attrs[first].args.as_mut()?;
        let j = 1 + k % (v.len() - 1);
        v.swap(0, j);
        what = "argument-order";
    } else if idx.len() > 1 {
        let j = idx[1 + k % (idx.len() - 1)];
        h.attrs.swap(first, j);
        what = "attribute-order";
    } else {
        return None;
    }
    att(m, format!("{what} {p}"), id)
}
fn a_complementary_only(m: &mut M) -> Option<Broken> {
    let v = m.p.v;
    let t: Vec<(&str, Option<&str>, usize)> = vec![
        ("payable", None, 2), ("default", None, 2), ("selector", Some("0x77777777"), 2), ("handle_status", Some("true"), 2), ("anonymous", None, 0),
        ("signature_topic", Some("\"1111111111111111111111111111111111111111111111111111111111111111\""), 0), ("env", Some("ink::env::DefaultEnvironment"), 4), ("keep_attr", Some("\"a\""), 4), ("derive", Some("true"), 0),
    ];
    let t: Vec<_> = t.into_iter().filter(|x| v == Ver::V5 || x.0 != "signature_topic").collect();
    let (n, val, k) = *m.r.pick(&t);
    let it = m.make(|g| {
        let a = g.arg(n, val.map(str::to_string));
        let at = g.attr("ink", Some(vec![a]));
        let h = g.head(vec![at], "pub");
        plain_item(g, k, h)
    });
    let id = it.h().id;
    match (m.contract(), k) {
        (Some(c), 0 | 4) => m.insert_in(c, it),
        (Some(_), _) => {
            let i = m.pick(&|it, st| matches!(it, Item::Impl(x) if x.trait_path.is_none()) && st.iter().any(|x| is_mac(x, "ink::contract")))?;
            m.insert_in(i, it)
        }
        _ => m.insert_root(it),
    }
    att(m, format!("complementary-only {n}"), id)
}
fn a_anon_and_topic(m: &mut M) -> Option<Broken> {
    if m.p.v != Ver::V5 {
        return None;
    }
    let id = m.pick(&|it, _| matches!(it, Item::Adt(_)) && (has_arg(it, "event") || is_mac(it, "ink::event")) && (it.h().arg("anonymous").is_some() || it.h().arg("signature_topic").is_some()))?;
    let a = m.make(|g| g.flag("anonymous"));
    let t = m.make(|g| g.arg("signature_topic", Some(format!("\"{}\"", "1f".repeat(32)))));
    let h = m.item(id).h_mut();
    let add = if h.arg("anonymous").is_some() { t } else { a };
    h.attrs.iter_mut().filter(|a| a.is_ink() && a.args.is_some()).last()?.args.as_mut()?.push(add);
    att(m, "anonymous-with-signature_topic", id)
}
fn a_backend(m: &mut M) -> Option<Broken> {
    if m.p.v != Ver::V5 {
        return None;
    }
    let id = m.pick(&|it, _| is_mac(it, "ink_e2e::test"))?;
    let raw = m.r.picks(&[
        "backend", "backend = 1", "backend()", "backend(foo)", "backend(node(url = 1))", "backend(node(url = \"nourl\"))", "backend(node(foo = \"ws://x\"))",
        "backend(runtime_only(sandbox = 1))", "backend(runtime_only(sandbox))", "backend(node(url))",
    ]);
    let at = m.make(|g| g.raw_attr("ink_e2e::test", &format!("({raw})")));
    let h = m.item(id).h_mut();
    let i = h.attrs.iter().position(|a| a.path == "ink_e2e::test")?;
    h.attrs[i] = at;
    att(m, format!("backend-value {raw}"), id)
}
pub const D07: &[Mutator] = &[
    a_unknown_macro, a_unknown_arg, a_empty, a_superfluous_value, a_missing_value, a_bad_value, a_bad_value, a_duplicate, a_conflict, a_conflict, a_wrong_item, a_wrong_item, a_version, a_order,
    a_complementary_only, a_anon_and_topic, a_backend,
];

//! Mini AST of the programs we generate. Rendering records the span of every node,
//! so that the ground truth about positions is known independently of the analyzer.

pub type Id = u32;

#[derive(Clone, Debug)]
pub struct Arg {
    pub id: Id,
    pub name: String,
    pub value: Option<String>,
    pub nested: Option<Box<Arg>>,
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub id: Id,
    /// `ink`, `ink::contract`, `derive`, ...
    pub path: String,
    pub args: Option<Vec<Arg>>,
    /// Verbatim token tree after the path (non-ink attributes, or hostile ones).
    pub raw: Option<String>,
    /// A comma after the last argument.
    pub trail: bool,
}

impl Attr {
    pub fn is_ink(&self) -> bool {
        self.path == "ink" || self.path.starts_with("ink::") || self.path.starts_with("ink_e2e")
    }
    pub fn has(&self, name: &str) -> bool {
        self.args.as_ref().map_or(false, |a| a.iter().any(|x| x.name == name))
    }
    pub fn arg(&self, name: &str) -> Option<&Arg> {
        self.args.as_ref().and_then(|a| a.iter().find(|x| x.name == name))
    }
}

#[derive(Clone, Debug, Default)]
pub struct Head {
    pub id: Id,
    pub docs: Vec<String>,
    pub attrs: Vec<Attr>,
    pub vis: String,
}

impl Head {
    pub fn ink(&self) -> impl Iterator<Item = &Attr> {
        self.attrs.iter().filter(|a| a.is_ink())
    }
    /// First argument with this name in any `#[ink(..)]` or ink! macro attribute.
    pub fn arg(&self, name: &str) -> Option<&Arg> {
        self.ink().find_map(|a| a.arg(name))
    }
    pub fn mac(&self, path: &str) -> Option<&Attr> {
        self.attrs.iter().find(|a| a.path == path)
    }
    pub fn arg_mut(&mut self, name: &str) -> Option<&mut Arg> {
        self.attrs.iter_mut().filter(|a| a.is_ink()).find_map(|a| {
            a.args.as_mut().and_then(|v| v.iter_mut().find(|x| x.name == name))
        })
    }
    /// Removes the argument, and the `#[ink()]` attribute with it if it became empty.
    pub fn remove_arg(&mut self, name: &str) {
        for a in self.attrs.iter_mut().filter(|a| a.is_ink()) {
            if let Some(v) = a.args.as_mut() {
                v.retain(|x| x.name != name);
                if v.is_empty() && a.path != "ink" {
                    a.args = None;
                }
            }
        }
        self.attrs.retain(|a| !(a.path == "ink" && a.args.as_ref().map_or(false, |v| v.is_empty())));
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Shape {
    Record,
    Tuple,
    Unit,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub h: Head,
    pub name: String,
    pub ty: String,
}

#[derive(Clone, Debug)]
pub struct Adt {
    pub h: Head,
    pub kw: String,
    pub name: String,
    pub generics: String,
    pub shape: Shape,
    pub fields: Vec<Field>,
    /// Enum body.
    pub variants: String,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub h: Head,
    pub quals: String,
    pub name: String,
    pub generics: String,
    pub self_param: Option<String>,
    pub params: Vec<(String, String)>,
    pub variadic: bool,
    pub ret: Option<String>,
    pub body: Option<String>,
}

#[derive(Clone, Debug)]
pub struct TypeItem {
    pub h: Head,
    pub name: String,
    pub generics: String,
    pub bounds: String,
    pub val: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Impl {
    pub h: Head,
    pub quals: String,
    pub generics: String,
    pub trait_path: Option<String>,
    pub self_ty: String,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Trait {
    pub h: Head,
    pub quals: String,
    pub name: String,
    pub generics: String,
    pub supers: String,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Mod {
    pub h: Head,
    pub name: String,
    pub items: Option<Vec<Item>>,
}

#[derive(Clone, Debug)]
pub struct Raw {
    pub h: Head,
    pub text: String,
}

#[derive(Clone, Debug)]
pub enum Item {
    Mod(Mod),
    Adt(Adt),
    Fn(Func),
    Impl(Impl),
    Trait(Trait),
    Type(TypeItem),
    Raw(Raw),
}

impl Item {
    pub fn h(&self) -> &Head {
        match self {
            Item::Mod(x) => &x.h,
            Item::Adt(x) => &x.h,
            Item::Fn(x) => &x.h,
            Item::Impl(x) => &x.h,
            Item::Trait(x) => &x.h,
            Item::Type(x) => &x.h,
            Item::Raw(x) => &x.h,
        }
    }
    pub fn h_mut(&mut self) -> &mut Head {
        match self {
            Item::Mod(x) => &mut x.h,
            Item::Adt(x) => &mut x.h,
            Item::Fn(x) => &mut x.h,
            Item::Impl(x) => &mut x.h,
            Item::Trait(x) => &mut x.h,
            Item::Type(x) => &mut x.h,
            Item::Raw(x) => &mut x.h,
        }
    }
    pub fn name(&self) -> &str {
        match self {
            Item::Mod(x) => &x.name,
            Item::Adt(x) => &x.name,
            Item::Fn(x) => &x.name,
            Item::Impl(x) => &x.self_ty,
            Item::Trait(x) => &x.name,
            Item::Type(x) => &x.name,
            Item::Raw(_) => "",
        }
    }
    pub fn children(&self) -> &[Item] {
        match self {
            Item::Mod(x) => x.items.as_deref().unwrap_or(&[]),
            Item::Impl(x) => &x.items,
            Item::Trait(x) => &x.items,
            _ => &[],
        }
    }
    pub fn children_mut(&mut self) -> Option<&mut Vec<Item>> {
        match self {
            Item::Mod(x) => x.items.as_mut(),
            Item::Impl(x) => Some(&mut x.items),
            Item::Trait(x) => Some(&mut x.items),
            _ => None,
        }
    }
    /// Keyword-ish kind of the annotated item.
    pub fn kind(&self) -> &str {
        match self {
            Item::Mod(_) => "mod",
            Item::Adt(x) => &x.kw,
            Item::Fn(_) => "fn",
            Item::Impl(_) => "impl",
            Item::Trait(_) => "trait",
            Item::Type(_) => "type",
            Item::Raw(_) => "raw",
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct File {
    pub inner: Vec<String>,
    pub items: Vec<Item>,
    pub next_id: Id,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Part {
    /// The whole node (attributes and docs included).
    Whole,
    /// From the first token after the attributes up to the end.
    Core,
    /// The signature: from after the attributes up to the `{`, `;` or `)` that ends it.
    Decl,
    Name,
    Value,
    /// Between the parentheses of an attribute.
    Inside,
    /// Between the braces of an item body.
    Body,
    /// Return type / parameter list.
    Ret,
    Params,
}

#[derive(Clone, Copy, Debug)]
pub struct Span {
    pub id: Id,
    pub part: Part,
    pub s: usize,
    pub e: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Rendered {
    pub text: String,
    pub spans: Vec<Span>,
}

impl Rendered {
    pub fn span(&self, id: Id, part: Part) -> Option<(usize, usize)> {
        self.spans.iter().find(|x| x.id == id && x.part == part).map(|x| (x.s, x.e))
    }
    pub fn whole(&self, id: Id) -> (usize, usize) {
        self.span(id, Part::Whole).unwrap_or((0, self.text.len()))
    }
    /// Re-layout with spans carried over (they are token aligned).
    pub fn relayout(&self, st: &crate::lex::Style, r: &mut crate::rng::Rng) -> Rendered {
        let old = crate::lex::lex(&self.text);
        let (text, new) = crate::lex::relayout(&self.text, st, r);
        let mut starts = std::collections::HashMap::new();
        let mut ends = std::collections::HashMap::new();
        for (o, n) in old.iter().zip(new.iter()) {
            starts.insert(o.start, n.start);
            ends.insert(o.end, n.end);
        }
        let spans = self
            .spans
            .iter()
            .filter_map(|sp| {
                let s = *starts.get(&sp.s)?;
                let e = if sp.e == sp.s { s } else { *ends.get(&sp.e)? };
                Some(Span { s, e, ..*sp })
            })
            .collect();
        Rendered { text, spans }
    }
}

struct W {
    s: String,
    spans: Vec<Span>,
    ind: usize,
}

impl W {
    fn p(&mut self, t: &str) {
        self.s.push_str(t);
    }
    fn nl(&mut self) {
        self.s.push('\n');
        for _ in 0..self.ind {
            self.s.push_str("    ");
        }
    }
    fn sp(&mut self, id: Id, part: Part, s: usize) {
        let e = self.s.len();
        self.spans.push(Span { id, part, s, e });
    }
    fn arg(&mut self, a: &Arg) {
        let s = self.s.len();
        self.p(&a.name);
        self.sp(a.id, Part::Name, s);
        if let Some(n) = &a.nested {
            self.p("(");
            self.arg(n);
            self.p(")");
        }
        if let Some(v) = &a.value {
            self.p(" = ");
            let vs = self.s.len();
            self.p(v);
            self.sp(a.id, Part::Value, vs);
        }
        self.sp(a.id, Part::Whole, s);
    }
    fn attr(&mut self, a: &Attr) {
        let s = self.s.len();
        self.p("#[");
        let head = a.path.rfind("::").map(|i| i + 2).unwrap_or(0);
        self.p(&a.path[..head]);
        let ns = self.s.len();
        self.p(&a.path[head..]);
        self.sp(a.id, Part::Name, ns);
        if let Some(raw) = &a.raw {
            self.p(raw);
        } else if let Some(args) = &a.args {
            self.p("(");
            let is = self.s.len();
            for (i, x) in args.iter().enumerate() {
                if i > 0 {
                    self.p(", ");
                }
                self.arg(x);
            }
            if a.trail && !args.is_empty() {
                self.p(",");
            }
            self.sp(a.id, Part::Inside, is);
            self.p(")");
        }
        self.p("]");
        self.sp(a.id, Part::Whole, s);
    }
    fn head(&mut self, h: &Head) {
        for d in &h.docs {
            self.p(d);
            self.nl();
        }
        for a in &h.attrs {
            self.attr(a);
            self.nl();
        }
    }
    fn vis(&mut self, h: &Head) {
        if !h.vis.is_empty() {
            self.p(&h.vis);
            self.p(" ");
        }
    }
    fn name(&mut self, id: Id, n: &str) {
        let s = self.s.len();
        self.p(n);
        self.sp(id, Part::Name, s);
    }
    fn quals(&mut self, q: &str) {
        if !q.is_empty() {
            self.p(q);
            self.p(" ");
        }
    }
    fn body(&mut self, id: Id, c: usize, items: &[Item]) {
        self.p("{");
        self.sp(id, Part::Decl, c);
        let s = self.s.len();
        self.ind += 1;
        for (i, it) in items.iter().enumerate() {
            if i > 0 {
                self.p("\n");
            }
            self.nl();
            self.item(it);
        }
        self.ind -= 1;
        self.nl();
        self.sp(id, Part::Body, s);
        self.p("}");
    }
    fn item(&mut self, it: &Item) {
        let id = it.h().id;
        let s = self.s.len();
        self.head(it.h());
        let c = self.s.len();
        match it {
            Item::Raw(x) => {
                self.vis(&x.h);
                let t = x.text.replace('\n', &format!("\n{}", "    ".repeat(self.ind)));
                self.p(&t);
            }
            Item::Mod(x) => {
                self.vis(&x.h);
                self.p("mod ");
                self.name(id, &x.name);
                match &x.items {
                    None => {
                        self.p(";");
                        self.sp(id, Part::Decl, c);
                    }
                    Some(v) => {
                        self.p(" ");
                        self.body(id, c, v);
                    }
                }
            }
            Item::Adt(x) => {
                self.vis(&x.h);
                self.p(&x.kw);
                self.p(" ");
                self.name(id, &x.name);
                self.p(&x.generics);
                if x.kw == "enum" {
                    self.p(" {");
                    self.sp(id, Part::Decl, c);
                    let t = x.variants.replace('\n', &format!("\n{}", "    ".repeat(self.ind)));
                    self.p(&t);
                    self.p("}");
                } else {
                    match x.shape {
                        Shape::Unit => {
                            self.p(";");
                            self.sp(id, Part::Decl, c);
                        }
                        Shape::Record => {
                            self.p(" {");
                            self.sp(id, Part::Decl, c);
                            let bs = self.s.len();
                            self.ind += 1;
                            for f in &x.fields {
                                self.nl();
                                let fs = self.s.len();
                                self.head(&f.h);
                                let fc = self.s.len();
                                self.vis(&f.h);
                                self.name(f.h.id, &f.name);
                                self.p(": ");
                                self.p(&f.ty);
                                self.sp(f.h.id, Part::Core, fc);
                                self.sp(f.h.id, Part::Whole, fs);
                                self.p(",");
                            }
                            self.ind -= 1;
                            if !x.fields.is_empty() {
                                self.nl();
                            }
                            self.sp(id, Part::Body, bs);
                            self.p("}");
                        }
                        Shape::Tuple => {
                            self.p("(");
                            for (i, f) in x.fields.iter().enumerate() {
                                if i > 0 {
                                    self.p(", ");
                                }
                                let fs = self.s.len();
                                for a in &f.h.attrs {
                                    self.attr(a);
                                    self.p(" ");
                                }
                                let fc = self.s.len();
                                self.vis(&f.h);
                                self.p(&f.ty);
                                self.sp(f.h.id, Part::Core, fc);
                                self.sp(f.h.id, Part::Whole, fs);
                            }
                            self.p(");");
                            self.sp(id, Part::Decl, c);
                        }
                    }
                }
            }
            Item::Fn(x) => {
                self.vis(&x.h);
                self.quals(&x.quals);
                self.p("fn ");
                self.name(id, &x.name);
                self.p(&x.generics);
                let ps = self.s.len();
                self.p("(");
                let mut first = true;
                if let Some(sp) = &x.self_param {
                    self.p(sp);
                    first = false;
                }
                for (n, t) in &x.params {
                    if !first {
                        self.p(", ");
                    }
                    first = false;
                    self.p(n);
                    self.p(": ");
                    self.p(t);
                }
                if x.variadic {
                    if !first {
                        self.p(", ");
                    }
                    self.p("...");
                }
                self.p(")");
                self.sp(id, Part::Params, ps);
                if let Some(r) = &x.ret {
                    self.p(" -> ");
                    let rs = self.s.len();
                    self.p(r);
                    self.sp(id, Part::Ret, rs);
                }
                match &x.body {
                    None => {
                        self.p(";");
                        self.sp(id, Part::Decl, c);
                    }
                    Some(b) => {
                        self.p(" {");
                        self.sp(id, Part::Decl, c);
                        let bs = self.s.len();
                        self.ind += 1;
                        if !b.is_empty() {
                            self.nl();
                            let t = b.replace('\n', &format!("\n{}", "    ".repeat(self.ind)));
                            self.p(&t);
                        }
                        self.ind -= 1;
                        self.nl();
                        self.sp(id, Part::Body, bs);
                        self.p("}");
                    }
                }
            }
            Item::Impl(x) => {
                self.quals(&x.quals);
                self.p("impl");
                self.p(&x.generics);
                self.p(" ");
                if let Some(t) = &x.trait_path {
                    self.p(t);
                    self.p(" for ");
                }
                self.name(id, &x.self_ty);
                self.p(" ");
                self.body(id, c, &x.items);
            }
            Item::Trait(x) => {
                self.vis(&x.h);
                self.quals(&x.quals);
                self.p("trait ");
                self.name(id, &x.name);
                self.p(&x.generics);
                if !x.supers.is_empty() {
                    self.p(": ");
                    self.p(&x.supers);
                }
                self.p(" ");
                self.body(id, c, &x.items);
            }
            Item::Type(x) => {
                self.vis(&x.h);
                self.p("type ");
                self.name(id, &x.name);
                self.p(&x.generics);
                if !x.bounds.is_empty() {
                    self.p(": ");
                    self.p(&x.bounds);
                }
                if let Some(v) = &x.val {
                    self.p(" = ");
                    self.p(v);
                }
                self.p(";");
                self.sp(id, Part::Decl, c);
            }
        }
        self.sp(id, Part::Core, c);
        self.sp(id, Part::Whole, s);
    }
}

/// Trims a span's trailing whitespace so that it is token aligned.
fn align(text: &str, sp: &mut Span) {
    let t = &text[sp.s..sp.e];
    let lead = t.len() - t.trim_start().len();
    let trail = t.len() - t.trim_end().len();
    if t.trim().is_empty() {
        sp.e = sp.s;
    } else {
        sp.s += lead;
        sp.e -= trail;
    }
}

impl File {
    pub fn id(&mut self) -> Id {
        self.next_id += 1;
        self.next_id
    }
    pub fn render(&self) -> Rendered {
        let mut w = W { s: String::new(), spans: Vec::new(), ind: 0 };
        for i in &self.inner {
            w.p(i);
            w.nl();
        }
        for (i, it) in self.items.iter().enumerate() {
            if i > 0 || !self.inner.is_empty() {
                w.nl();
            }
            w.item(it);
            w.nl();
        }
        let text = w.s;
        let mut spans = w.spans;
        for sp in &mut spans {
            if !matches!(sp.part, Part::Inside | Part::Body) {
                align(&text, sp);
            }
        }
        Rendered { text, spans }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Item, &[&'a Item])) {
        fn go<'a>(it: &'a Item, st: &mut Vec<&'a Item>, f: &mut dyn FnMut(&'a Item, &[&'a Item])) {
            f(it, st);
            st.push(it);
            for c in it.children() {
                go(c, st, f);
            }
            st.pop();
        }
        let mut st = Vec::new();
        for it in &self.items {
            go(it, &mut st, f);
        }
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut Item)) {
        fn go(it: &mut Item, f: &mut dyn FnMut(&mut Item)) {
            f(it);
            if let Some(v) = it.children_mut() {
                for c in v {
                    go(c, f);
                }
            }
        }
        for it in &mut self.items {
            go(it, f);
        }
    }
    pub fn find_mut(&mut self, id: Id) -> Option<&mut Item> {
        fn go(items: &mut [Item], id: Id) -> Option<&mut Item> {
            for it in items {
                if it.h().id == id {
                    return Some(it);
                }
                if let Some(v) = it.children_mut() {
                    if let Some(x) = go(v, id) {
                        return Some(x);
                    }
                }
            }
            None
        }
        go(&mut self.items, id)
    }
    /// Head of an item or field.
    pub fn head_mut(&mut self, id: Id) -> Option<&mut Head> {
        fn go(items: &mut [Item], id: Id) -> Option<&mut Head> {
            for it in items {
                if it.h().id == id {
                    return Some(it.h_mut());
                }
                if let Item::Adt(a) = it {
                    for f in &mut a.fields {
                        if f.h.id == id {
                            return Some(&mut f.h);
                        }
                    }
                    continue;
                }
                if let Some(v) = it.children_mut() {
                    if let Some(x) = go(v, id) {
                        return Some(x);
                    }
                }
            }
            None
        }
        go(&mut self.items, id)
    }
    /// Items and fields: (head, kind, enclosing items; for fields the struct is the last one).
    pub fn heads<'a>(&'a self, f: &mut dyn FnMut(&'a Head, &str, &[&'a Item])) {
        self.walk(&mut |it, st| {
            f(it.h(), it.kind(), st);
            if let Item::Adt(a) = it {
                let mut s = st.to_vec();
                s.push(it);
                for x in &a.fields {
                    f(&x.h, "field", &s);
                }
            }
        });
    }
    /// Gives copied attributes and arguments identities of their own.
    pub fn unique_ids(&mut self) {
        fn arg(x: &mut Arg, seen: &mut std::collections::HashSet<Id>, next: &mut Id) {
            fix(&mut x.id, seen, next);
            if let Some(n) = &mut x.nested {
                arg(n, seen, next);
            }
        }
        fn fix(id: &mut Id, seen: &mut std::collections::HashSet<Id>, next: &mut Id) {
            if !seen.insert(*id) {
                *next += 1;
                *id = *next;
                seen.insert(*id);
            }
        }
        fn head(h: &mut Head, seen: &mut std::collections::HashSet<Id>, next: &mut Id) {
            fix(&mut h.id, seen, next);
            for a in &mut h.attrs {
                fix(&mut a.id, seen, next);
                for x in a.args.iter_mut().flatten() {
                    arg(x, seen, next);
                }
            }
        }
        let mut seen = std::collections::HashSet::new();
        let mut next = self.next_id;
        self.walk_mut(&mut |it| {
            head(it.h_mut(), &mut seen, &mut next);
            if let Item::Adt(a) = it {
                for f in &mut a.fields {
                    head(&mut f.h, &mut seen, &mut next);
                }
            }
        });
        self.next_id = next;
    }
    pub fn ids(&self, pred: &dyn Fn(&Item, &[&Item]) -> bool) -> Vec<Id> {
        let mut v = Vec::new();
        self.walk(&mut |it, st| {
            if pred(it, st) {
                v.push(it.h().id);
            }
        });
        v
    }
}

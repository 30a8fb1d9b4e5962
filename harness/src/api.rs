//! The analyzer's public queries, each guarded so that a panic is observed and not fatal.

use crate::gen::Ver;
use ink_analyzer::{Analysis, TextRange, TextSize, Version};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    static INSIDE: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if INSIDE.with(|x| *x.borrow()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit("/crates/").next().unwrap_or(l.file()), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            // a panic inside a library is attributed to the analyzer's function that called it
            let at = if loc.starts_with('/') {
                let bt = std::backtrace::Backtrace::force_capture().to_string();
                let f = bt.lines().filter_map(|l| l.trim().split_once(": ").map(|x| x.1.to_string())).find(|l| l.contains("ink_analyzer") || l.contains("ink_lsp"));
                f.map(|f| format!(" in {f}")).unwrap_or_default()
            } else {
                String::new()
            };
            let loc = format!("{}{at}", loc.rsplit("/registry/src/").next().and_then(|x| if loc.starts_with('/') { x.split_once('/').map(|y| y.1) } else { None }).unwrap_or(&loc));
            LAST.with(|l| *l.borrow_mut() = format!("panic at {loc}: {}", msg.chars().take(200).collect::<String>()));
        } else {
            prev(info);
        }
    }));
}

/// Runs code of the repository; `Err` describes the panic.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    INSIDE.with(|x| *x.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    INSIDE.with(|x| *x.borrow_mut() = false);
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

pub fn size(x: usize) -> TextSize {
    TextSize::from(x as u32)
}
pub fn range(s: usize, e: usize) -> TextRange {
    TextRange::new(size(s), size(e))
}
pub fn us(r: TextRange) -> (usize, usize) {
    (usize::from(r.start()), usize::from(r.end()))
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Edit {
    pub s: usize,
    pub e: usize,
    pub text: String,
    pub snippet: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Act {
    pub label: String,
    pub kind: String,
    pub s: usize,
    pub e: usize,
    pub edits: Vec<Edit>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Diag {
    pub msg: String,
    pub s: usize,
    pub e: usize,
    pub error: bool,
    pub fixes: Vec<Act>,
}

pub fn edit(e: &ink_analyzer::TextEdit) -> Edit {
    let (s, x) = us(e.range);
    Edit { s, e: x, text: e.text.clone(), snippet: e.snippet.clone() }
}
pub fn act(a: &ink_analyzer::Action) -> Act {
    let (s, e) = us(a.range);
    Act { label: a.label.clone(), kind: format!("{:?}", a.kind), s, e, edits: a.edits.iter().map(edit).collect() }
}
pub fn diag(d: &ink_analyzer::Diagnostic) -> Diag {
    let (s, e) = us(d.range);
    Diag {
        msg: d.message.clone(),
        s,
        e,
        error: d.severity == ink_analyzer::Severity::Error,
        fixes: d.quickfixes.iter().flatten().map(act).collect(),
    }
}

pub fn analysis(src: &str, v: Version) -> Analysis {
    Analysis::new(src, v)
}

pub fn diagnostics(src: &str, v: Ver) -> Result<Vec<Diag>, String> {
    guard(|| Analysis::new(src, v.lib()).diagnostics().iter().map(diag).collect())
}

/// Applies edits simultaneously (offsets refer to the original text).
/// `None` when they overlap or lie outside the text.
pub fn apply(src: &str, edits: &[Edit]) -> Option<String> {
    let mut v: Vec<(usize, &Edit)> = edits.iter().enumerate().collect();
    v.sort_by_key(|(i, e)| (e.s, e.e, *i));
    let mut out = String::new();
    let mut pos = 0;
    for (_, e) in v {
        if e.s < pos || e.e < e.s || !src.is_char_boundary(e.s) || e.e > src.len() || !src.is_char_boundary(e.e) {
            return None;
        }
        out.push_str(&src[pos..e.s]);
        out.push_str(&e.text);
        pos = e.e;
    }
    out.push_str(&src[pos..]);
    Some(out)
}

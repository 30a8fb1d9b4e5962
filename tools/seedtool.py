#!/usr/bin/env python3
"""Creates and confirms planted bugs. usage: seedtool.py SPEC.py [ID...]
SPEC.py defines SEEDS = {id: {property, needs, what, edits: [(file, old, new)], demo: rust main body or file}}.
Confirms in a scratch copy of /repo (/tmp/w): builds, tests pass, demo 0 without / nonzero with the change."""
import sys, os, subprocess, json, shutil, runpy
spec = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
W = '/tmp/w'
ENV = dict(os.environ)
DEMO = '''#!/bin/bash
# Runs demo.rs beside this file against the crates in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$R"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ink-analyzer = { path = "$R/crates/analyzer" }
ink-analyzer-ir = { path = "$R/crates/ir" }
%s
X
%s
cd "$T" && CARGO_TARGET_DIR="$T/target" cargo run --offline -q
'''
PRE = '''#![allow(unused)]
use ink_analyzer::{Analysis, Version, TextRange, TextSize};
fn diags(src: &str, v: Version) -> Vec<(String, String)> {
    Analysis::new(src, v).diagnostics().into_iter().map(|d| { let s: usize = d.range.start().into(); let e: usize = d.range.end().into(); (d.message, src[s..e].to_string()) }).collect()
}
fn flagged(src: &str, v: Version, at: &str) -> bool { let d = diags(src, v); println!("{d:#?}"); d.iter().any(|x| x.1.contains(at)) }
fn pos(src: &str, at: &str) -> TextSize { TextSize::from(src.find(at).unwrap() as u32) }
'''
def sh(c, cwd=W, t=1500):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
def reset():
    sh('git checkout -q -- . && git clean -fdq -e target')
if not os.path.exists(W):
    subprocess.run(f'cp -a /repo {W}', shell=True)
sh('git fetch -q /repo HEAD && git checkout -q FETCH_HEAD -f')
for sid, s in spec['SEEDS'].items():
    if only and sid not in only: continue
    reset()
    d = f'/verif/seeded/{sid}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    ok = True
    for f, a, b in s['edits']:
        p = f'{W}/{f}'; t = open(p).read()
        if t.count(a) != 1:
            print(sid, 'EDIT MATCHES', t.count(a), f, a[:60]); ok = False; break
        open(p, 'w').write(t.replace(a, b))
    if not ok: shutil.rmtree(d); continue
    r = sh('git diff'); open(f'{d}/patch.diff', 'w').write(r.stdout)
    if 'sh' in s:
        open(f'{d}/demo.sh', 'w').write(s['sh'])
    else:
        open(f'{d}/demo.sh', 'w').write(DEMO % (s.get('deps', ''), s.get('extra', '')))
    if 'demo' in s: open(f'{d}/demo.rs', 'w').write(PRE + s['demo'])
    for k, v in s.get('files', {}).items(): open(f'{d}/{k}', 'w').write(v)
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(f'{d}/meta.json', 'w'), indent=1)
    r = sh('. /opt/vp/env.sh; cd /tmp/w; cargo test --workspace --offline --locked --no-fail-fast 2>&1 | grep -E "^test result|FAILED|^error|failed|panicked" ')
    bad = [l for l in r.stdout.splitlines() if not l.startswith('test result: ok')]
    if bad: print(sid, 'TESTS/BUILD FAIL', bad[:8]); continue
    r1 = sh(f'bash {d}/demo.sh'); 
    reset()
    r0 = sh(f'bash {d}/demo.sh')
    print(sid, 'with', r1.returncode, 'without', r0.returncode, 'OK' if r1.returncode and not r0.returncode else 'BAD ' + (r0.stdout + r0.stderr)[-1500:] + '\n---with:\n' + (r1.stdout + r1.stderr)[-800:])
reset()

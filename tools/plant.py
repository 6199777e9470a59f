#!/usr/bin/env python3
"""Validate one planted bug in a scratch copy of /repo and keep it under seeded/.

usage: plant.py SPEC.py     SPEC defines: id, property, needs, what, edits=[(file, old, new)], demo (Rust main)
"""
import json, os, shutil, subprocess, sys, tempfile

SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cesride = { path = "$repo" }
serde_json = { version = "~1.0.118", features = ["preserve_order"] }
@DEPS@
[workspace]
T
cd "$w" && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTFLAGS="--cap-lints allow" \\
  cargo run --offline -q
'''

def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    out = os.path.join('/verif/seeded', g['id'])
    d = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(d, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=repo)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'demo.rs'), 'w').write(g['demo'])
        deps = g.get('deps', '')
        if g.get('wasm'):
            deps += 'cesride-wasm = { path = "$repo/wasm" }\n'
        open(os.path.join(out, 'demo.sh'), 'w').write(SH.replace('@DEPS@', deps))
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        ok = True
        r = sh('bash %s/demo.sh' % out, repo)
        if r.returncode != 0:
            print('demo fails on the unchanged tree:\n', r.stdout[-3000:]); ok = False
        for f, a, b in g['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        open(os.path.join(out, 'patch.diff'), 'w').write(subprocess.check_output(['git', 'diff'], cwd=repo, text=True))
        b = sh('''. /opt/vp/env.sh; cargo test --offline --no-fail-fast -- --test-threads 8 2>&1 | grep -E "^test result|FAILED|failed|^error" ; cd wasm && cargo build --offline 2>&1 | grep -E "^error"''', repo)
        if 'FAILED' in b.stdout or 'error' in b.stdout:
            print('tests:', b.stdout[-1500:]); ok = False
        r = sh('bash %s/demo.sh' % out, repo)
        if r.returncode == 0:
            print('demo passes with the change'); ok = False
        else:
            print('demo with the change:', r.stdout[-400:])
        json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['what']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        print(g['id'], 'OK' if ok else 'NOT OK', [l for l in b.stdout.splitlines() if 'result' in l])
        if not ok and not g.get('keep'):
            shutil.rmtree(out)
        return 0 if ok else 1
    finally:
        shutil.rmtree(d)
sys.exit(main())

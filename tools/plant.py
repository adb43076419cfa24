#!/usr/bin/env python3
"""Make or verify a planted bug.

plant.py make SPEC.py      SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (Rust main.rs text), deps=[crate...]
plant.py try ID [check]    apply the patch in /repo, build, run the stable tests, the demo and (with 'check') the property's quick check; undo
"""
import json, os, subprocess, sys, shutil
SEEDED = '/verif/seeded'
CRATES = dict(core='atelier_core', json='atelier_json', smithy='atelier_smithy', query='atelier_query', rdf='atelier_rdf',
              describe='atelier_describe', assembler='atelier_assembler', lib='atelier_lib')
DEMO_SH = r'''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property holds on this input
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_HUSKY_DONT_INSTALL_HOOKS=1
d="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/demo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
T
cd "$d"
CARGO_TARGET_DIR="$d/target" cargo build --offline >"$d/log" 2>&1 || { grep -E '^error' -A 8 "$d/log"; exit 3; }
timeout 60 "$d/target/debug/demo"
'''
def sh(*a, **k): return subprocess.run(a, text=True, **k)
def git(*a, **k): return sh('git', '-C', '/repo', *a, **k)

def make(path):
    spec = {}
    exec(open(path).read(), spec)
    assert git('status', '--porcelain', capture_output=True).stdout == '', 'repo not clean'
    d = f"{SEEDED}/{spec['id']}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in spec['edits']:
            p = '/repo/' + f
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            # lines changed must come from the base commit
            base = git('show', f'{base_commit()}:{f}', capture_output=True).stdout
            for l in old.splitlines():
                if l.strip() and l.strip() not in [x.strip() for x in base.splitlines()] and l not in new.splitlines():
                    print('NOTE: line not in the original repository:', l)
            open(p, 'w').write(t.replace(old, new))
        diff = git('diff', capture_output=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        git('checkout', '-q', '--', '.')
    deps = '\n'.join(f'{CRATES[c]} = {{ path = "$repo/{"cargo-atelier" if c=="cli" else "atelier-"+c}"{extra(c)} }}' for c in spec['deps'])
    open(d + '/demo.sh', 'w').write(DEMO_SH.replace('@DEPS@', deps) if 'demo_sh' not in spec else spec['demo_sh'])
    if 'demo' in spec:
        open(d + '/main.rs', 'w').write(spec['demo'])
        shutil.copy('/verif/harness/Cargo.lock', d + '/demo.lock')
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    os.chmod(d + '/demo.sh', 0o755)

def extra(c): return ''
def base_commit(): return git('rev-list', '--max-parents=0', 'HEAD', capture_output=True).stdout.strip()

def demo(d):
    t = '/tmp/demo-elsewhere'
    shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    for f in os.listdir(d):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(f'{d}/{f}', t)
    r = sh('bash', t + '/demo.sh', cwd='/repo', capture_output=True)
    shutil.rmtree(t, ignore_errors=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]

def tryone(i, check):
    d = f'{SEEDED}/{i}'
    meta = json.load(open(d + '/meta.json'))
    assert git('status', '--porcelain', capture_output=True).stdout == '', 'repo not clean'
    rc0, out0 = demo(d)
    if rc0 != 0: print(i, 'DEMO FAILS ON CLEAN', rc0, out0); return
    r = git('apply', d + '/patch.diff')
    if r.returncode: print(i, 'DOES NOT APPLY'); return
    try:
        r = sh('bash', '/opt/vp/build.sh', capture_output=True)
        if r.returncode: print(i, 'DOES NOT BUILD', r.stderr[-1500:]); return
        sh('bash', '/opt/vp/test.sh', '/tmp/plant-o.json', capture_output=True)
        miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open('/tmp/plant-o.json'))['passed'])
        if miss: print(i, 'TESTS CATCH IT:', sorted(miss)[:4]); return
        rc1, out1 = demo(d)
        if rc1 == 0: print(i, 'DEMO DOES NOT FAIL WITH IT'); return
        msg = f'{i} [{meta["property"]}] ok; demo rc {rc1}: {out1.strip().splitlines()[-1][:160] if out1.strip() else ""}'
        if check:
            for p in ([meta['property']] if check == 'check' else check.split(',')):
                r = sh('bash', '/verif/check.sh', p, 'quick', capture_output=True)
                v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
                msg += f'\n    {p}: rc {r.returncode} {"CAUGHT" if v and r.returncode==1 else "MISSED"} {(v or [r.stdout[-300:]])[0][:300]}'
        print(msg, flush=True)
    finally:
        git('checkout', '-q', '--', '.')

if sys.argv[1] == 'make':
    for p in sys.argv[2:]: make(p)
else:
    ids = sys.argv[2].split(',') if sys.argv[2] != 'all' else sorted(os.listdir(SEEDED))
    for i in ids: tryone(i, sys.argv[3] if len(sys.argv) > 3 else None)

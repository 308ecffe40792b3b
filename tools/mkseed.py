#!/usr/bin/env python3
"""mkseed.py ID...: makes and validates planted bugs from tools/seeds/<ID>.py
   (variables: prop, needs, breaks, edits=[(file, old, new)], demo) in a scratch copy of /repo."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
DEMO_SH = '''#!/bin/bash
# Run in the repository after its build: exit 0 if the library behaves, nonzero if not.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="$PWD"
D="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$HERE/demo.rs" "$D/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2018"\\n[workspace]\\n[dependencies]\\nadapton = { path = "%s" }\\n' "$REPO" > "$D/Cargo.toml"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/target"
cd "$D" || exit 3
cargo build --offline -q 2>"$D/log" || { tail -30 "$D/log"; exit 3; }
timeout 120 "$D/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, **k)
def copy():
    d = '/tmp/seedrepo'
    if not os.path.isdir(d): sh('cp -a /repo %s' % d, check=True)
    sh('git fetch -q /repo main && git checkout -q -f FETCH_HEAD && git clean -fdq src', cwd=d, check=True)
    return d
def tests(d):
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    log = '/tmp/seedtest.log'
    sh('timeout 780 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > %s 2>&1' % log, cwd=d, env=env)
    sh('python3 /opt/vp/results.py /tmp/seedtest.json cargo:%s' % log, stdout=subprocess.DEVNULL)
    o = json.load(open('/tmp/seedtest.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    st = b['stable'] if 'stable' in b else b
    return sorted(set(st) - set(o['passed']))
for i in sys.argv[1:]:
    ns = {}
    exec(open(os.path.join(V, 'tools/seeds', i + '.py')).read(), ns)
    d = copy()
    out = os.path.join(V, 'seeded', i); os.makedirs(out, exist_ok=True)
    open(out + '/demo.rs', 'w').write(ns['demo'].lstrip())
    open(out + '/demo.sh', 'w').write(DEMO_SH); os.chmod(out + '/demo.sh', 0o755)
    r0 = sh('bash %s/demo.sh > /tmp/demo0.log 2>&1' % out, cwd=d).returncode
    for (f, a, b) in ns['edits']:
        p = os.path.join(d, f); s = open(p).read()
        assert s.count(a) == 1, (i, f, 'occurs %d times' % s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = sh('git diff', cwd=d, stdout=subprocess.PIPE).stdout.decode()
    open(out + '/patch.diff', 'w').write(diff)
    base = sh('git diff 3a127dc HEAD --stat', cwd=d, stdout=subprocess.PIPE)
    json.dump({"property": ns['prop'], "needs": ns['needs'], "what_it_breaks": ns['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    missing = tests(d)
    r1 = sh('bash %s/demo.sh > /tmp/demo1.log 2>&1' % out, cwd=d).returncode
    # lines changed must exist in the base revision
    basef = {f: sh('git show 3a127dc:%s' % f, cwd=d, stdout=subprocess.PIPE).stdout.decode().splitlines() for f, _, _ in ns['edits']}
    rem = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    nb = [l for l in rem if not any(l in v for v in basef.values())]
    ok = r0 == 0 and r1 not in (0, 3, 124) and not missing
    print(i, 'OK' if ok else 'BAD', 'demo unpatched', r0, 'patched', r1, 'missing', missing, 'not in base:', nb)
    if not ok: print(open('/tmp/demo0.log').read()[-800:]); print(open('/tmp/demo1.log').read()[-800:])

#!/usr/bin/env python3
"""Plant one bug: plant.py SPECFILE...   Each SPECFILE (python) defines
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust text of an example) or TEST=(src file, rust text of a test module).
Writes seeded/ID/ after confirming it in a scratch copy (/tmp/pl/repo): patch on original lines, demo passes/fails, unit tests pass;
then reports which checks catch it."""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/tmp/pl/repo'
BASE = 'e014347'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=kw.pop('env', ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

DEMO_SH = '''#!/bin/bash
# Builds demo.rs against a scratch copy of the crate in the current directory and runs it there.
d=$(cd "$(dirname "$0")" && pwd); s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
for i in 1 2 3 4 5; do cp -a . "$s/repo" && break; rm -rf "$s/repo"; sleep 2; done
[ -d "$s/repo" ] && mkdir -p "$s/repo/examples" && cp "$d/demo.rs" "$s/repo/examples/vp_demo.rs" || exit 2
cd "$s/repo" && cargo build --offline --example vp_demo >"$s/log" 2>&1 || { tail -20 "$s/log"; exit 2; }
timeout 120 ./target/debug/examples/vp_demo
'''
TEST_SH = '''#!/bin/bash
# Appends demo_test.rs to %s in a scratch copy of the crate in the current directory and runs that test.
d=$(cd "$(dirname "$0")" && pwd); s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
for i in 1 2 3 4 5; do cp -a . "$s/repo" && break; rm -rf "$s/repo"; sleep 2; done
[ -d "$s/repo" ] && cat "$d/demo_test.rs" >> "$s/repo/%s" || exit 2
cd "$s/repo" && timeout 280 cargo test --offline --lib vp_demo -- --nocapture
'''

def main(spec):
    g = {}
    exec(open(spec).read(), g)
    bid = g['ID']
    d = f'{V}/seeded/{bid}'
    if not os.path.exists(R):
        sh('mkdir -p /tmp/pl && cp -a /repo /tmp/pl/repo')
    sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -qf . && git clean -fdq', R)
    head = sh('git rev-parse HEAD', R).stdout.strip()
    if head != sh('git -C /repo rev-parse HEAD').stdout.strip():
        return print(bid, 'clone head differs', head)
    os.makedirs(d, exist_ok=True)
    if 'DEMO' in g:
        open(f'{d}/demo.rs', 'w').write(g['DEMO'])
        open(f'{d}/demo.sh', 'w').write(DEMO_SH)
    else:
        open(f'{d}/demo_test.rs', 'w').write(g['TEST'][1])
        open(f'{d}/demo.sh', 'w').write(TEST_SH % (g['TEST'][0], g['TEST'][0]))
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(f'{d}/meta.json', 'w'), indent=1, ensure_ascii=False)
    r = sh(f'timeout 300 bash {d}/demo.sh', R)
    if r.returncode:
        return print(bid, 'DEMO FAILS ON BASE', r.returncode, r.stdout[-1500:])
    for f, old, new in g['EDITS']:
        s = open(f'{R}/{f}').read()
        if s.count(old) != 1:
            return print(bid, f'edit matches {s.count(old)} times', old)
        i = s.index(old)
        a, b = s[:i].count('\n') + 1, s[:i + len(old)].count('\n') + 1
        bl = sh(f'git blame -s -L {a},{b} {f}', R).stdout
        fix = [l for l in bl.splitlines() if not l.lstrip('^').startswith(BASE)]
        if fix:
            print(bid, 'note: touches non-original context lines', fix[:2])
        open(f'{R}/{f}', 'w').write(s.replace(old, new))
    open(f'{d}/patch.diff', 'w').write(sh('git diff', R).stdout)
    r = sh(f'timeout 300 bash {d}/demo.sh', R)
    if r.returncode == 0 or 'error[' in r.stdout or 'error: could not' in r.stdout:
        return print(bid, 'DEMO NOT FAILING WITH PATCH / build error', r.returncode, r.stdout[-1500:])
    print(bid, 'demo fails with patch:', r.returncode, r.stdout.strip()[-200:].replace('\n', ' | '))
    r = sh('timeout 600 cargo nextest run --lib --offline --profile vp --tool-config-file vp:/opt/vp/nextest.toml --no-fail-fast 2>&1', R)
    failed = sorted(set(re.findall(r'(?:FAIL|TIMEOUT|ABORT) \[.*?\]\s+(?:\(.*?\))?\s*(\S+ \S+)', r.stdout)))
    r2 = sh('timeout 600 cargo test --doc --offline 2>&1', R) if g.get('DOC') else None
    print(bid, 'unit tests failing:', failed, re.findall(r'Summary.*', r.stdout))
    r = sh(f'python3 {V}/check.py all', env=dict(os.environ, STARRY_REPO=R, STARRY_OUT='/tmp/pl/out'))
    v = [l for l in r.stdout.splitlines() if not l.startswith('OK')]
    hit = any(('property=' + g['PROP'] + ' ') in l for l in v)
    print(bid, g['PROP'], 'CAUGHT' if hit else 'MISSED', r.returncode)
    for l in v[:6]:
        print('   ', l[:230])
    sh('git checkout -qf .', R)

for s in sys.argv[1:]:
    main(s)

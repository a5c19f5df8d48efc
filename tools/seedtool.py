#!/usr/bin/env python3
"""Makes and confirms a planted change. seedtool.py make SPEC.py | confirm ID | check ID [PROP..]
SPEC.py defines SEEDS: list of dicts id, property, needs, what_it_breaks, edits [(file, old, new)], demo (Rust source or '')."""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = '/verif'; SC = '/tmp/sc'
DEMO = '''#!/bin/bash
# Run with cwd /repo after the build. Exit 0: the property holds for this input; 1: it does not.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
rustc --edition 2018 -A warnings -C debug-assertions=on "$here/demo.rs" -o "$d/demo" --extern ronda="$PWD/target/debug/libronda.rlib" -L dependency="$PWD/target/debug/deps" || exit 3
cd "$d" && timeout 120 ./demo
'''
HOOKED = DEMO.replace("""rustc --edition 2018 -A warnings -C debug-assertions=on "$here/demo.rs" -o "$d/demo" --extern ronda="$PWD/target/debug/libronda.rlib" -L dependency="$PWD/target/debug/deps" || exit 3
""", """# the hooks make private items reachable; built in a scratch folder
RUSTFLAGS="--cfg ronda_verif -A warnings" CARGO_TARGET_DIR="$d/t" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 cargo build -q --offline --locked -p libronda || exit 3
rustc --edition 2018 -A warnings -C debug-assertions=on --cfg ronda_verif "$here/demo.rs" -o "$d/demo" --extern ronda="$d/t/debug/libronda.rlib" -L dependency="$d/t/debug/deps" || exit 3
""")
PYDEMO = DEMO.replace('''rustc --edition 2018 -A warnings -C debug''', '''# the cpython stand-in beside this file lets the bodies in python_interface.rs run without an interpreter
export REPO=$PWD
rustc --edition 2021 -A warnings --crate-type rlib --crate-name cpython "$here/cpython.rs" -o "$d/libcpython.rlib" || exit 3
rustc --edition 2018 -A warnings --extern cpython="$d/libcpython.rlib" -C debug''')
def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, env=env, stdin=subprocess.DEVNULL)
def fresh():
    if not os.path.exists(SC):
        r = sh('cp -a /repo %s' % SC); assert r.returncode == 0, r.stderr
    sh('git checkout -q -- . && git clean -qfd -e target', SC)
def env():
    e = dict(os.environ); e.update(CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=SC + '/target', RUSTC_WRAPPER='', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    return e
def build():
    r = sh('cargo build --workspace --locked --offline && cargo test --workspace --no-run --locked --offline', SC, env()); return r.returncode == 0, r.stderr[-3000:]
def tests():
    r = sh('cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 > /tmp/w/test.log 2>&1; python3 /opt/vp/results.py /tmp/w/res.json cargo:/tmp/w/test.log', SC, env())
    res = json.load(open('/tmp/w/res.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    def names(x, want=('pass', 'passed', True)):
        if isinstance(x, dict):
            for k in ('passed', 'pass'):
                if k in x and isinstance(x[k], list): return set(map(str, x[k]))
            for k in ('tests', 'results', 'stable'):
                if k in x: return names(x[k])
            return {k for k, v in x.items() if v in want}
        return {y if isinstance(y, str) else y.get('name', str(y)) for y in x}
    return sorted(names(base) - names(res))
def confirm(sid):
    d = os.path.join(V, 'seeded', sid)
    fresh()
    ok, e = build(); assert ok, e
    r = sh('bash %s/demo.sh' % d, SC); 
    if r.returncode != 0: return 'demo fails unpatched: %d %s' % (r.returncode, (r.stdout + r.stderr)[-1500:])
    r = sh('git apply %s/patch.diff' % d, SC)
    if r.returncode: return 'does not apply: ' + r.stderr
    try:
        ok, e = build()
        if not ok: return 'does not build: ' + e
        miss = tests()
        if miss: return 'stable tests fail: %s' % miss[:5]
        r = sh('bash %s/demo.sh' % d, SC)
        if r.returncode == 0: return 'demo passes with the patch'
        if r.returncode == 3: return 'demo does not compile with the patch ' + r.stderr[-1500:]
    finally:
        fresh()
    return 'ok (demo exit %d: %s)' % (r.returncode, (r.stdout + r.stderr).strip()[-200:].replace('\n', ' | '))
def make(spec):
    seeds = runpy.run_path(spec)['SEEDS']
    blame = {}
    for s in seeds:
        fresh(); d = os.path.join(V, 'seeded', s['id'])
        bad = None
        for f, old, new in s['edits']:
            p = os.path.join(SC, f); t = open(p).read()
            if t.count(old) != 1: bad = '%d occurrences of %r in %s' % (t.count(old), old, f); break
            open(p, 'w').write(t.replace(old, new))
        if bad: print(s['id'], bad); continue
        diff = sh('git diff', SC).stdout
        # the removed lines have to be lines of the base commit
        cur = None
        for f in {x[0] for x in s['edits']}:
            bl = sh('git blame -s -l HEAD -- %s' % f, SC).stdout.split('\n')
            base = sh('git rev-parse 47628d2', SC).stdout.strip()
            new = [i for i, l in enumerate(bl) if l and not l.lstrip('^').startswith(base[:30])]
            for l in sh('git diff -U0 -- %s' % f, SC).stdout.split('\n'):
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(','); st = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
                    for i in range(st - 1, st - 1 + n):
                        if i in new: bad = 'line %d of %s is not from the base commit' % (i + 1, f)
        if bad: print(s['id'], bad); fresh(); continue
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        if s.get('demo_sh'): open(d + '/demo.sh', 'w').write(s['demo_sh'])
        else: open(d + '/demo.sh', 'w').write(HOOKED if 'verif_hooks' in s['demo'] else PYDEMO if 'python_interface' in s['demo'] else DEMO)
        if 'python_interface' in s['demo']: shutil.copy(V + '/pystub/src/lib.rs', d + '/cpython.rs')
        if s.get('demo'): open(d + '/demo.rs', 'w').write(s['demo'])
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, open(d + '/meta.json', 'w'), indent=1)
        res = confirm(s['id'])
        print(s['id'], res, flush=True)
        if not res.startswith('ok'): shutil.rmtree(d)
def check(sid, props):
    d = os.path.join(V, 'seeded', sid)
    props = props or [json.load(open(d + '/meta.json'))['property']]
    assert sh('git status --porcelain', '/repo').stdout.strip() == ''
    r = sh('git -C /repo apply %s/patch.diff' % d); assert r.returncode == 0, r.stderr
    try:
        for p in props:
            r = sh('python3 %s/check.py %s' % (V, p), V)
            print(sid, p, 'exit', r.returncode); print('   ' + '\n   '.join(l[:400] for l in r.stdout.strip().split('\n')), flush=True)
    finally:
        sh('git -C /repo checkout -q -- .')
if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'make': make(sys.argv[2])
    elif c == 'confirm':
        for s in sys.argv[2:] or sorted(os.listdir(V + '/seeded')): print(s, confirm(s), flush=True)
    elif c == 'check': check(sys.argv[2], sys.argv[3:])
    elif c == 'checkall':
        for s in sorted(os.listdir(V + '/seeded')): check(s, [])

#!/usr/bin/env python3
"""Development aid: what the deductive stage says of behaviour-preserving edits. reftool.py SPEC.py [id ..] [--props C01,C02]
SPEC.py defines REFS: list of (id, [(file, old, new)], [props]). Works on a scratch copy of /repo, never on /repo."""
import os, re, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif')
from lib import vstage
SC = '/tmp/rc'
def sh(c, cwd=None, env=None): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, stdin=subprocess.DEVNULL, env=env)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    only = args[1:]
    pr = [a.split('=')[1].split(',') for a in sys.argv if a.startswith('--props=')]
    refs = runpy.run_path(args[0])['REFS']
    vstage.build_extractor(); db = vstage.parse_ct(); os.makedirs('/tmp/w/ref', exist_ok=True)
    if not os.path.exists(SC): sh('cp -a /repo ' + SC)
    sh('git fetch -q && git checkout -q -f origin/HEAD 2>/dev/null; git checkout -q -- .', SC)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=SC + '/target')
    jobs = []
    for rid, edits, props in refs:
        if only and rid not in only: continue
        sh('git checkout -q -- .', SC); bad = None
        for f, old, new in edits:
            p = os.path.join(SC, f); t = open(p).read()
            if t.count(old) != 1: bad = '%d occurrences of %r' % (t.count(old), old[:80]); break
            open(p, 'w').write(t.replace(old, new))
        if bad: print(rid, 'BAD', bad); continue
        if '--notest' not in sys.argv:
            r = sh('cargo test -p libronda --lib --offline --locked 2>&1 | grep -E "^error|test result"', SC, env)
            if 'passed; 37 failed' not in r.stdout: print(rid, 'DOES NOT BUILD OR PASS', r.stdout[-300:]); r = sh('cargo build --offline --locked 2>&1 | grep -A12 "^error"', SC, env); print(r.stdout[:1200]); continue
            if any('python/' in f for f, _, _ in edits):
                r = sh('cargo build --workspace --offline --locked', SC, env)
                if r.returncode: print(rid, 'DOES NOT BUILD', r.stderr[-800:]); continue
        try: d = vstage.extract(SC)
        except vstage.Undecided as e: print(rid, 'UNDECIDED', str(e)[:300]); continue
        for p in (pr[0] if pr else props): jobs.append((rid, p, d))
    sh('git checkout -q -- .', SC)
    def one(j):
        rid, p, d = j
        try: a, u = vstage.assemble(p, d, db)
        except vstage.Undecided as e: return rid, p, 'UNDECIDED ' + str(e)[:300]
        path = '/tmp/w/ref/%s_%s.rs' % (re.sub(r'\W', '_', rid), p)
        open(path, 'w').write(a.text())
        r = vstage.run_verus(path, 40, 600)
        fa, ot = vstage.classify(r, a)
        if r['ok'] and not fa and not ot: return rid, p, 'proved %d' % r['verified']
        ch = vstage.changed_regexes(d, u, a)
        st = 'UNDECIDED' if ot or ch else 'FAILED'
        return rid, p, st + (' regex %s' % ch if ch else '') + ''.join('\n      other ' + x[:300] for x in ot) + ''.join('\n      %s -- %s' % (w, m[:260]) for w, m in fa)
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, jobs): print(*r, flush=True)
main()

#!/usr/bin/env python3
"""Development aid: what the deductive stage alone (no search) says of each planted change. proofseeds.py [id ..]"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, '/verif')
from lib import vstage
SC = '/tmp/rc'
def sh(c, cwd=None): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, stdin=subprocess.DEVNULL)
def main():
    ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
    vstage.build_extractor(); db = vstage.parse_ct(); os.makedirs('/tmp/w/ref', exist_ok=True)
    if not os.path.exists(SC): sh('cp -a /repo ' + SC)
    jobs = []
    for s in ids:
        d = '/verif/seeded/' + s
        sh('git checkout -q -- .', SC); r = sh('git apply %s/patch.diff' % d, SC); assert r.returncode == 0, r.stderr
        p = json.load(open(d + '/meta.json'))['property']
        try: jobs.append((s, p, vstage.extract(SC)))
        except vstage.Undecided as e: print(s, p, 'UNDECIDED', str(e)[:200])
    sh('git checkout -q -- .', SC)
    def one(j):
        s, p, d = j
        try: a, u = vstage.assemble(p, d, db)
        except vstage.Undecided as e: return s, p, 'UNDECIDED ' + str(e)[:200]
        path = '/tmp/w/ref/seed_%s.rs' % re.sub(r'\W', '_', s)
        open(path, 'w').write(a.text())
        r = vstage.run_verus(path, 40, 600); fa, ot = vstage.classify(r, a)
        if r['ok'] and not fa and not ot: return s, p, 'PROVED'
        ch = vstage.changed_regexes(d, u, a)
        return s, p, ('UNDECIDED ' if ot or ch else 'FAILED ') + ('regex ' if ch else '') + ' ; '.join(x[:150] for x in ot) + ' ; '.join('%s -- %s' % (w, m[:90]) for w, m in fa)
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, jobs): print(*r, flush=True)
main()

#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for /repo's working tree (see DESIGN.md, 'How a check decides')."""
import json, os, re, sys, time, threading, traceback, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness
try:
    from lib import vstage
except ImportError:
    vstage = None
V = harness.VERIF

def load_props():
    return {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()}

def known_entries(prop):
    out = {}
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'finding:\s+property=(\S+)\s+id=(\S+)\s+(.*)', l)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3).strip()
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    props = load_props()
    if prop not in props:
        print('unknown property', prop); return 2
    t0 = time.time()
    shutil.rmtree(os.path.join(V, 'out', prop), ignore_errors=True)
    os.makedirs(os.path.join(V, 'out', prop), exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    outdir = os.path.join(V, 'out', prop)

    # 1. the deductive stage, beside the build of the replay harness
    proof = {'status': 'none', 'obligations': 0, 'discharged': 0}
    def prove():
        try:
            proof.update(vstage.decide(prop, tier, outdir, seed))
        except Exception:
            proof.update(status='undecided', reasons=['internal error of the proof stage: ' + traceback.format_exc()[-1500:]])
    th = None
    if vstage is not None:
        th = threading.Thread(target=prove); th.start()
    ok, log = harness.build(py=(prop == 'C21'))
    violations, search, kf, notes = [], None, [], []
    with harness.Scratch(prop) as scratch:
        if ok:
            dict_file, dinfo = harness.dictionary(scratch)
            secs = int(os.environ.get('VERIF_SECS', '18' if tier == 'quick' else '240'))
        # a second, longer round when the proof stage does not say 'proved': then it is the search that decides, or that has to
        # find the failing input
        for round_ in ((0, 1) if ok else ()):
            if round_ == 1:
                if violations: break
                if th: th.join()
                if proof['status'] == 'proved': break
                secs = int(os.environ.get('VERIF_SECS2', '100' if tier == 'quick' else '300'))
                if not secs: break
            found = harness.search(prop, seed + 7919 * round_, secs, 6, scratch, dict_file, 2 + 2 * round_)
            if search is not None:
                for k in ('evaluations', 'distinct_nontrivial'): found[k] += search[k]
            search = found
            for n, f in enumerate(search['fails']):
                path = os.path.join(outdir, 'fail-%d.json' % n)
                body = {'kind': 'failing input', 'prop': prop, 'case': f['case'], 'message': f.get('msg'), 'statement': props[prop]['statement'],
                        'how_to_replay': 'VREPLAY_SCRATCH=<dir> %s run <this file>  (built by check.py)' % harness.binary()}
                json.dump(body, open(path, 'w'), indent=1)
                again, msg = harness.replay(path, scratch)
                if not again and f.get('original') is not None:
                    body['case'] = f['original']
                    json.dump(body, open(path, 'w'), indent=1)
                    again, msg = harness.replay(path, scratch)
                if not again and not f.get('guided'):
                    d2 = os.path.join(outdir, 'dict.json'); shutil.copy(dict_file, d2)
                if not again and not f.get('guided') and f.get('threads', 1) > 1:
                    body['threads'] = {'prop': prop, 'seed': f['seed'], 'shard': f['shard'], 'of': f['of'], 'threads': f['threads'], 'secs': 90, 'dict': d2}
                    json.dump(body, open(path, 'w'), indent=1)
                    again, msg = harness.replay(path, scratch, 300)
                elif not again and not f.get('guided'):
                    body['history'] = {'prop': prop, 'seed': f['seed'], 'shard': f['shard'], 'of': f['of'], 'upto': f['fail'], 'dict': d2}
                    json.dump(body, open(path, 'w'), indent=1)
                    again, msg = harness.replay(path, scratch, 300)
                if again:
                    body['replay_output'] = msg
                    json.dump(body, open(path, 'w'), indent=1)
                    violations.append(path)
                    print('# %s: %s' % (prop, (msg or f.get('msg') or '').strip()[:600]))
                    break
                notes.append('a failure seen in the search did not show again and is not reported: ' + str(f)[:500])
        if ok:
            entries = known_entries(prop)
            for k in harness.known(scratch):
                if k['prop'] == prop and k['id'] in entries:
                    if k['still_fails']:
                        kf.append(entries[k['id']])
                    else:
                        notes.append('the recorded finding %s no longer fails' % k['id'])
        else:
            notes.append('the replay harness does not build against this tree: ' + log)
    if th: th.join()

    for m in kf: print('KNOWN-FINDING: property=%s %s' % (prop, m))
    code = 0
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, violations[0])); code = 1
    elif proof['status'] == 'failed':
        path = os.path.join(outdir, 'obligation.json')
        json.dump({'kind': 'failed proof obligation', 'prop': prop, 'statement': props[prop]['statement'], 'failed_obligations': proof.get('failed', []),
                   'checker_cmd': proof.get('checker_cmd'), 'verifier_output': proof.get('output', '')[-20000:],
                   'search': None if search is None else {k: search[k] for k in ('evaluations', 'distinct_nontrivial')},
                   'note': 'the verifier gives no counterexample; the concrete search found no failing input'}, open(path, 'w'), indent=1)
        for f in proof.get('failed', []): print('# failed obligation: %s' % f)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)); code = 1
    elif not ok and proof['status'] != 'proved':
        print('# cannot decide: ' + log[-1500:]); code = 2

    level = json.load(open(os.path.join(V, 'MANIFEST.json')))
    level = next((c['level'] for c in level['checks'] if c['property'] == prop), 'proof')
    s = search or {}
    cov = {'obligations': proof.get('obligations', 0), 'discharged': proof.get('discharged', 0), 'checker_cmd': proof.get('checker_cmd', 'none'),
           'trusted_base': proof.get('trusted_base', ['nothing proved in this run']),
           'proof_status': proof['status'], 'proof_reasons': proof.get('reasons', []),
           'functions_under_contract': proof.get('functions', []), 'lemmas': proof.get('lemmas', []), 'bounded_functions': proof.get('bounded', []),
           'back_end': proof.get('back_end', ''), 'solver_ms': proof.get('solver_ms', 0), 'vacuity_checks': proof.get('vacuity', []),
           'conformance_of_the_trusted_base': proof.get('conformance', {}),
           'extraction_rules_used': proof.get('rules', []),
           'evaluations': s.get('evaluations', 0), 'distinct_nontrivial': s.get('distinct_nontrivial', 0), 'rule': s.get('rule', ''), 'samples': s.get('samples', []),
           'bounded_search': 'counterexample search and bounded stand-in on the real code: %s cases; never counted as proved' % s.get('evaluations', 0),
           'explanation': proof.get('explanation', ''), 'notes': notes, 'known_findings_still_failing': kf}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': proof.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if code == 1 else 0}
    tmp = os.path.join(V, 'evidence', '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, os.path.join(V, 'evidence', prop + '.json'))
    print('%s: proof %s (%s/%s obligations), search %s cases, %.1f s' % (prop, proof['status'], cov['discharged'], cov['obligations'], cov['evaluations'], time.time() - t0))
    return code

if __name__ == '__main__':
    try:
        c = main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); c = 2
    sys.exit(c)

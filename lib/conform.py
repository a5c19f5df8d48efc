"""Conformance of the trusted base: the specification functions in which the contracts of str, the regex crate and the
formatting of lists are written have executable twins (conform/mirror.rs) that Verus proves equal to them; the twins are
compiled and run beside the real library functions on generated inputs.  A difference means an assumption of every proof is
wrong: it is reported in the evidence, and no proof counts while it lasts."""
import fcntl, json, os, re, subprocess, hashlib, sys
from . import harness
HERE = harness.VERIF
CT = os.path.join(HERE, 'contracts')
CF = os.path.join(HERE, 'conform')
OUT = os.path.join(HERE, 'build', 'conform')

def text():
    rd = lambda p: open(p).read()
    specs = rd(os.path.join(CT, 'specs.rs'))
    body = re.search(r'pub open spec fn glob_body\(.*?\n}\n', specs, re.S).group(0)
    pat = re.search(r'pub open spec fn glob_pat\(.*\n', specs).group(0)
    parts = [rd(os.path.join(CT, f)) for f in ('prelude.rs', 'text.rs', 'regex.rs', 'fmt_base.rs')]
    parts.append('verus! {\n' + body + pat + '}\n')
    parts.append(rd(os.path.join(CT, 'lem_glob.rs')))
    parts.append(rd(os.path.join(CF, 'mirror.rs')))
    parts.append(rd(os.path.join(CF, 'main.rs')))
    return '\n'.join(parts)

def build():
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        try: return build_()
        except (OSError, subprocess.SubprocessError) as e: return False, str(e)[:500]

def build_():
    """(ok, message): the mirror, proved and compiled, and the driver"""
    os.makedirs(OUT, exist_ok=True)
    t = text()
    key = hashlib.sha256(t.encode()).hexdigest()
    stamp = os.path.join(OUT, 'mirror.key')
    if not (os.path.exists(os.path.join(OUT, 'mirror')) and os.path.exists(stamp) and open(stamp).read().split()[0] == key):
        src = os.path.join(OUT, 'mirror.rs')
        open(src, 'w').write(t)
        r = subprocess.run([os.environ.get('VERUS', 'verus'), 'mirror.rs', '--compile', '-o', 'mirror', '--rlimit', '60', '--num-threads', '8'], cwd=OUT, capture_output=True, text=True, timeout=600)
        m = re.search(r'(\d+) verified, (\d+) errors', r.stdout + r.stderr)
        if r.returncode or not m or m.group(2) != '0': return False, 'the twins are not proved or not compiled:\n' + (r.stdout + r.stderr)[-6000:]
        open(stamp, 'w').write(key + ' ' + m.group(1))
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(CF, 'Cargo.toml'), '--target-dir', os.path.join(OUT, 'target')], capture_output=True, text=True, timeout=600)
    if r.returncode: return False, 'the driver does not build:\n' + r.stderr[-3000:]
    return True, 'twins proved: ' + open(stamp).read().split()[1]

def run(seed=1, secs=5, patterns=()):
    ok, msg = build()
    if not ok: return {'ok': None, 'note': msg}
    try: r = subprocess.run(['timeout', '-k', '5', str(secs + 60), os.path.join(OUT, 'target', 'debug', 'conform'), os.path.join(OUT, 'mirror'), str(seed), str(secs)] + list(patterns), capture_output=True, text=True, timeout=secs + 120)
    except subprocess.TimeoutExpired: return {'ok': None, 'note': 'driver: no answer'}
    try: d = json.loads(r.stdout.strip().split('\n')[-1])
    except (ValueError, IndexError): return {'ok': None, 'note': 'driver: ' + (r.stdout + r.stderr)[-2000:]}
    d['twins_proved'] = int(open(os.path.join(OUT, 'mirror.key')).read().split()[1])
    return d

if __name__ == '__main__':
    d = run(int(sys.argv[1]) if len(sys.argv) > 1 else 1, int(sys.argv[2]) if len(sys.argv) > 2 else 5)
    print(json.dumps(d, indent=1) if d.get('ok') is not None else d['note'])
    sys.exit(0 if d.get('ok') else 1)

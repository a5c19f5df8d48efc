"""Builds the replay harness against /repo's working tree and drives the concrete search / replay."""
import json, os, subprocess, shutil, time
from . import mine
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
TARGET = os.path.join(BUILD, 'harness')

def env():
    e = dict(os.environ)
    e.update(RUSTFLAGS='--cfg ronda_verif -Awarnings', CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
    return e

def build(py=False):
    os.makedirs(BUILD, exist_ok=True)
    cmd = ['cargo', 'build', '--offline', '--locked', '--quiet', '--manifest-path', os.path.join(VERIF, 'replay', 'Cargo.toml')]
    if py:
        cmd += ['--features', 'py']
    # with coverage counters in libronda; without them when that does not work (the guided shards of the search are then left out)
    for extra in ({'RUSTC_WRAPPER': os.path.join(VERIF, 'lib', 'covwrap.sh')}, {}):
        r = subprocess.run(cmd, env=dict(env(), **extra), stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=600)
        if r.returncode == 0:
            break
    return r.returncode == 0, r.stderr[-6000:]

def binary():
    return os.path.join(TARGET, 'debug', 'vreplay')

class Scratch:
    """A folder of this run, removed at its end; everything the code under test writes stays in it."""
    def __init__(self, name):
        self.dir = os.path.join(BUILD, 'scratch-%s-%d' % (name, os.getpid()))
    def __enter__(self):
        os.makedirs(self.dir, exist_ok=True)
        return self.dir
    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

def run(args, scratch, timeout):
    e = env(); e['VREPLAY_SCRATCH'] = scratch
    return subprocess.run([binary()] + args, env=e, cwd=scratch, stdin=subprocess.DEVNULL, capture_output=True, text=True, errors='replace', timeout=timeout)

def dictionary(scratch):
    f = os.path.join(scratch, 'dict.json')
    info = mine.dictionary(REPO, os.path.join(VERIF, 'baseline_literals.json'), f)
    return f, info

def search(prop, seed, secs, of, scratch, dict_file, guided=0):
    r = run(['search', '--prop', prop, '--seed', str(seed), '--secs', str(secs), '--of', str(of), '--guided', str(guided), '--dict', dict_file], scratch, secs + 240)
    if r.returncode != 0:
        raise RuntimeError('search failed: ' + (r.stderr or r.stdout)[-2000:])
    return json.loads(r.stdout.strip().split('\n')[-1])

def replay(path, scratch, timeout=120):
    """True when the failure shows again in a fresh process (a crash or a hang is a failure too)."""
    try:
        r = run(['run', path], scratch, timeout)
    except subprocess.TimeoutExpired:
        return True, 'no answer within %d s' % timeout
    return r.returncode != 0, (r.stdout + r.stderr).strip()[-2000:]

def known(scratch):
    r = run(['known'], scratch, 60)
    return [json.loads(l) for l in r.stdout.split('\n') if l.startswith('{')]

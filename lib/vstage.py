"""The deductive stage: extract the functions of /repo, put the contracts on them, let Verus discharge every obligation.

assemble(prop): text of one Verus file = prelude (trusted base) + specification + lemmas (contracts/*.rs) + the types and
functions extracted from /repo's working tree by vx, each with the contract that contracts/*.ct gives for its key.
"""
import hashlib, json, os, re, subprocess, time
from . import harness, conform
V, REPO = harness.VERIF, harness.REPO
CT = os.path.join(V, 'contracts')
VXT = os.path.join(harness.BUILD, 'vx')
SRC = ['core/src/version/comp_op.rs', 'core/src/version/errors.rs', 'core/src/version/matching.rs', 'core/src/version/spec_trees.rs',
       'core/src/version/version.rs', 'core/src/version/version_part.rs', 'core/src/version/custom_parts/pep440.rs',
       'core/src/version/parsers/conda.rs', 'core/src/repodata/repodata.rs', 'python/src/python_interface.rs']
STD_TRAITS = {'PartialOrd', 'PartialEq'}          # emitted as trait impls, checked against the trait's specification

FMT_TRAITS = {'Debug', 'Display'}                   # their fmt is checked as an inherent method, called through VxDebug / VxDisplay

class Undecided(Exception):
    pass

def build_extractor():
    e = harness.env(); e['CARGO_TARGET_DIR'] = VXT; e['RUSTFLAGS'] = '-Awarnings'
    r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--quiet', '--manifest-path', os.path.join(V, 'vx', 'Cargo.toml')], env=e, stdin=subprocess.DEVNULL, capture_output=True, text=True)
    if r.returncode != 0:
        raise Undecided('the extractor does not build: ' + r.stderr[-1500:])
    return True

def extract(repo=REPO):
    files = []
    for f in SRC:
        p = os.path.join(repo, f)
        if os.path.exists(p): files.append(p)
    os.makedirs(harness.BUILD, exist_ok=True)
    keys = os.path.join(harness.BUILD, 'keys-%d.txt' % os.getpid())
    open(keys, 'w').write('\n'.join(parse_ct()) + '\n')
    r = subprocess.run([os.path.join(VXT, 'debug', 'vx'), '--keys', keys] + files, stdin=subprocess.DEVNULL, capture_output=True, text=True)
    os.unlink(keys)
    if r.returncode != 0:
        raise Undecided('extraction failed: ' + r.stderr[-1500:])
    return json.loads(r.stdout)         # what could not be read is missing, and whoever needs it finds that out

# ------------------------------------------------------------------ contracts
def parse_ct():
    """key -> {'spec', 'start', 'end', 'loop': {k: text}, 'ls': {k: text}, 'le': .., 'lb': .., 'bind': [(name, regex)], 'attrs': text}"""
    db = {}
    for name in sorted(os.listdir(CT)):
        if not name.endswith('.ct'): continue
        cur = sec = None
        for line in open(os.path.join(CT, name)):
            line = line.rstrip('\n')
            if line.startswith('##'): continue
            m = re.match(r'@fn\s+(.*\S)\s*$', line)
            if m:
                cur = {'spec': [], 'start': [], 'loop': {}, 'ls': {}, 'le': {}, 'lb': {}, 'bind': [], 'attrs': [], 'tb': [], 'te': [], 'detached': [], 'head': [], 'overs': {}, 'file': name}
                assert m.group(1) not in db, 'two contracts for ' + m.group(1)
                db[m.group(1)] = cur; sec = cur['spec']; continue
            if line.startswith('@'):
                w = line[1:].split(None, 1)
                k = w[0]; rest = w[1] if len(w) > 1 else ''
                if k in ('start', 'tb', 'te', 'attrs', 'detached', 'head'):
                    sec = cur[k]
                    if rest: sec.append(rest)
                elif k in ('loop', 'ls', 'le', 'lb'):
                    sec = cur[k].setdefault(int(rest.split()[0]), [])
                elif k == 'over':
                    n, rx = rest.split(None, 1); cur['overs'][int(n)] = rx; sec = None
                elif k == 'bind':
                    n, rx = rest.split(None, 1); cur['bind'].append((n, *(rx.split(' ?? ') + [None])[:2])); sec = None
                else:
                    raise Undecided('bad section @%s in %s' % (k, name))
                continue
            if cur is None or sec is None:
                if line.strip(): raise Undecided('stray line in %s: %s' % (name, line))
                continue
            sec.append(line)
    return db

def split_params(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '(<[{': depth += 1
        if ch in ')>]}': depth -= 1
        if ch == ',' and depth == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return [p.strip() for p in out if p.strip()]

def param_names(f):
    ns = []
    for p in split_params(f['inputs'].replace('->', '  ')):
        if re.match(r"^(&\s*('\w+\s+)?)?(mut\s+)?self\b", p): continue
        ns.append(re.sub(r'^mut\s+', '', p.split(':')[0].strip()))
    return ns

def subst(text, f, c):
    text = '\n'.join(text) if isinstance(text, list) else text
    names = param_names(f)
    def par(m):
        i = int(m.group(1))
        if i >= len(names): raise Undecided('%s: parameter %d is gone' % (f['key'], i))
        return names[i]
    text = re.sub(r'\$(\d+)', par, text)
    for n, rx, other in c['bind']:
        if '$' + n not in text: continue
        rx = re.sub(r'\$(\d+)', par, rx)
        hits = [l['name'] for r in rx.split(' || ') for l in f['locals'] if re.search(r, l.get('init') or l.get('over') or '')]
        if not hits and other: hits = [other]
        if not hits: raise Undecided('%s: no local matches %s' % (f['key'], rx))
        text = re.sub(r'\$%s\b' % n, hits[0], text)
    def loopvar(m):
        hits = [l['name'] for l in f['locals'] if l.get('loop') == int(m.group(1))]
        if not hits or not hits[0]: raise Undecided('%s: loop %s has no named variable' % (f['key'], m.group(1)))
        return hits[0]
    text = re.sub(r'\$L(\d+)\b', loopvar, text)
    if re.search(r'\$\w', text): raise Undecided('%s: unresolved placeholder in contract: %s' % (f['key'], text[:200]))
    return text

def ty(t):
    t = re.sub(r'\bRegex\b', 'VxRegex', t)
    t = re.sub(r'\bHashMap\s*<\s*String\s*,', 'VxMap<', t)
    return re.sub(r'\bAsRef\s*<\s*Path\s*>', 'VxAsPath', t)

def dispatched(t):
    """the trait an enum is dispatched on by #[enum_dispatch(Trait)], if any"""
    for a in t.get('attrs', []):
        m = re.match(r'#\s*\[\s*enum_dispatch\s*\(\s*(\w+)\s*\)\s*\]', a)
        if m: return m.group(1)
    return None

def emit_type(t, debug=True):
    if dispatched(t):          # enum_dispatch: a variant without fields holds the type of its name
        t = dict(t, variants=[dict(v, unit=False, fields=v['fields'] or [v['name']]) for v in t['variants']])
    der = t.get('derives', [])
    unit = t['kind'] == 'enum' and all(v['unit'] for v in t['variants'])
    keep, extra = [], ''
    if 'Copy' in der: keep += ['Clone', 'Copy']
    if 'Debug' in der and debug: keep.append('Debug')
    if unit and 'PartialEq' in der: keep += ['PartialEq', 'Eq', 'Structural']
    if 'Clone' in der and 'Copy' not in der:
        extra = 'impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }\n' % t['name']
    if 'Clone' in der:
        extra += 'impl VxToOwned for %s { type VxOut = %s; open spec fn vx_owned(&self, r: %s) -> bool { r == *self } fn vx_to_owned(&self) -> (r: %s) { self.clone() } }\n' % ((t['name'],) * 4)
    s = ('#[derive(%s)]\n' % ', '.join(keep)) if keep else ''
    if t['kind'] == 'enum':
        vs = []
        for v in t['variants']:
            if v['unit']: vs.append(v['name'])
            else:
                if v.get('named'): raise Undecided('enum %s has a variant with named fields' % t['name'])
                vs.append('%s(%s)' % (v['name'], ', '.join(ty(x) for x in v['fields'])))
        s += 'pub enum %s { %s }\n' % (t['name'], ', '.join(vs))
    else:
        s += 'pub struct %s { %s }\n' % (t['name'], ', '.join('pub %s: %s' % (x['name'], ty(x['ty'])) for x in t['fields']))
    if dispatched(t):          # ... and each variant converts into the enum
        for v in t['variants']:
            if len(v['fields']) != 1: raise Undecided('enum %s: variant %s has %d fields' % (t['name'], v['name'], len(v['fields'])))
            extra += ('impl VxInto<%s> for %s { open spec fn vx_into_ok(self) -> bool { true } open spec fn vx_into_is(self, r: %s) -> bool { r == %s::%s(self) } fn vx_into(self) -> (r: %s) { %s::%s(self) } }\n'
                      % (t['name'], v['fields'][0], t['name'], t['name'], v['name'], t['name'], t['name'], v['name']))
    return s + extra

SERDE_CASE = {
    'lowercase': lambda w: w, 'UPPERCASE': lambda w: w.upper(), 'snake_case': lambda w: w, 'SCREAMING_SNAKE_CASE': lambda w: w.upper(),
    'PascalCase': lambda w: ''.join(x[:1].upper() + x[1:] for x in w.split('_')),
    'camelCase': lambda w: (lambda z: z[:1].lower() + z[1:])(''.join(x[:1].upper() + x[1:] for x in w.split('_'))),
    'kebab-case': lambda w: w.replace('_', '-'), 'SCREAMING-KEBAB-CASE': lambda w: w.upper().replace('_', '-'),
}
def serde_parts(a, where):
    """The items of one #[serde(..)] attribute, None for an attribute that is not serde's."""
    m = re.match(r'#\s*\[\s*serde\s*\((.*)\)\s*\]$', a, re.S)
    if m: return [x.strip() for x in re.split(r',(?=(?:[^"]*"[^"]*")*[^"]*$)', m.group(1)) if x.strip()]
    if re.match(r'#\s*\[\s*(doc|allow|derive|cfg_attr|must_use)\b', a): return None
    raise Undecided('attribute of %s: %s' % (where, a))

def emit_derive(t):
    """R37: what #[derive(Deserialize)] of serde makes of a struct: read by field name from an object or by position from an array.
    Attributes known: rename, alias, default, deserialize_with, skip, skip_deserializing on fields, rename_all, deny_unknown_fields on the struct;
    any other is undecided."""
    n, fs = t['name'], t['fields']
    case, deny = None, False
    for a in t.get('attrs', []):
        if not re.match(r'#\s*\[\s*serde\b', a): continue
        for part in serde_parts(a, n) or []:
            m = re.match(r'rename_all\s*=\s*"([^"]*)"$', part)
            if m and m.group(1) in SERDE_CASE: case = SERDE_CASE[m.group(1)]
            elif part == 'deny_unknown_fields': deny = True
            else: raise Undecided('serde attribute of %s: %s' % (n, part))
    opts = []
    for x in fs:
        o = {'rename': case(x['name']) if case else x['name'], 'alias': []}
        for a in x.get('attrs', []):
            for part in serde_parts(a, n + '.' + x['name']) or []:
                m = re.match(r'(rename|alias|deserialize_with)\s*=\s*"((?:[^"\\\\])*)"$', part)
                if m and m.group(1) == 'alias': o['alias'].append(m.group(2))
                elif m: o[m.group(1)] = m.group(2)
                elif part in ('default', 'skip', 'skip_deserializing'): o[part.split('_')[0]] = True
                else: raise Undecided('serde attribute of %s.%s: %s' % (n, x['name'], part))
        opts.append(o)
    live = [o for o in opts if not o.get('skip')]
    for k, o in enumerate(live): o['i'] = k
    names = [o['rename'] for o in live]
    alias = [a for o in live for a in o['alias']]
    fn = 'vx_fields_%s' % n
    s = 'pub open spec fn %s() -> Seq<Seq<char>> { seq![%s] }\n' % (fn, ', '.join('"%s"@' % x for x in names))
    de, ok = [], []
    for x, o in zip(fs, opts):
        d0 = '<%s as VxDe>::vx_de_default(r.%s)' % (ty(x['ty']), x['name'])
        if o.get('skip'):
            de.append(d0); continue
        if 'deserialize_with' in o:
            w = o['deserialize_with']
            d1, k1 = 'vx_with_%s(v, r.%s)' % (w, x['name']), 'vx_with_ok_%s(v)' % w
        else: d1, k1 = '<%s as VxDe>::vx_de(v, r.%s)' % (ty(x['ty']), x['name']), '<%s as VxDe>::vx_de_ok(v)' % ty(x['ty'])
        args = 'j, %s(), %d' % (fn, o['i'])
        f, f0 = 'vx_field(%s)' % args, 'vx_no_field(%s)' % args
        if o['alias']:
            al = 'seq![%s]' % ', '.join('"%s"@' % z for z in [o['rename']] + o['alias'])
            f, f0 = 'vx_field_as(%s, %s)' % (args, al), 'vx_no_field_as(%s, %s)' % (args, al)
        if o.get('default'):
            de.append('(%s && %s || (%s matches Some(v) && %s))' % (f0, d0, f, d1)); ok.append('(%s || (%s matches Some(v) && %s))' % (f0, f, k1))
        else: de.append('(%s matches Some(v) && %s)' % (f, d1)); ok.append('(%s matches Some(v) && %s)' % (f, k1))
    top = 'vx_fields_ok(j, %s())' % fn
    if deny: top += ' && vx_known_only(j, seq![%s])' % ', '.join('"%s"@' % z for z in names + alias)
    s += ('impl VxDe for %s {\n    open spec fn vx_de(j: J, r: %s) -> bool { %s }\n    open spec fn vx_de_ok(j: J) -> bool { %s }\n    uninterp spec fn vx_de_default(r: %s) -> bool;\n}\n'
          % (n, n, ' && '.join([top] + de), ' && '.join([top] + ok), n))
    return s

def synthesize(key, byk, types):
    """A method that no impl block spells out: the enum_dispatch one of an enum, or a provided method of the trait."""
    m = re.match(r'(\w+)::<(\w+) as (\w+)>::(\w+)$', key)
    if not m: return None
    file, st, tr, name = m.groups()
    decl = byk.get('%s::<Self as %s>::%s' % (file, tr, name))
    if not decl or len(decl) != 1 or st not in types: return None
    f = dict(decl[0], key=key, self_ty=st, trait=tr, impl_generics='')
    t = types[st]
    if t['kind'] == 'enum' and dispatched(t) == tr:
        args = ', '.join(param_names(f))
        f.update(has_body=True, loops=0, locals=[], unsupported=[], regexes=[], rules=['R23 #[enum_dispatch]: the method of the enum calls the one of the variant'],
                 body='{ match self { %s } }' % ', '.join('%s::%s(vx_x) => vx_x.%s(%s)' % (st, v['name'], name, args) for v in t['variants']))
        return f
    if f['has_body']:
        f['rules'] = list(f['rules']) + ['R26 a provided trait method is checked once per type that inherits it']
        return f
    return None

def detach(f, c):
    """R27: a trait method that calls itself through the impl of another type is checked as an inherent method of the same text
    against its contract, the calls in it against the contract of the trait impl; that the recursion ends is not checked."""
    g = dict(f, name='vx_body_' + f['name'], trait='', rules=list(f['rules']) + ['R27 a trait method recursive through a generic impl is checked as an inherent method (termination not checked)'])
    return g, dict(c, spec=['ensures'] + c['detached'], detached=[])

def emit_fn(f, c, mode, extra_start=''):
    """One function with its contract. mode: 'prove' or 'stub'."""
    if mode == 'prove':
        if f['unsupported']: raise Undecided('%s uses %s' % (f['key'], ', '.join(f['unsupported'])))
        if not f['has_body']: raise Undecided('%s has no body' % f['key'])
    trait = f['trait'] in STD_TRAITS
    spec = subst(c['spec'], f, c)
    head = '\n'.join(c['attrs']) + ('\n' if c['attrs'] else '')
    if mode == 'stub': head += '#[verifier::external_body]\n'
    else: head += '#[verifier::loop_isolation(false)]\n'
    ret = (' -> (ret: %s)' % ty(f['ret'])) if f['ret'] and f['ret'] != '()' else ''
    vis = '' if trait else 'pub '
    name = f['name'] + ('_' + f['trait'].lower() if f['trait'] in FMT_TRAITS else '')
    sig = '%s%sfn %s%s(%s)%s %s\n%s\n' % (head, vis, name, ty(f['generics']), ty(f['inputs']), ret, f['where'] or '', spec)
    if mode == 'stub':
        return sig + '{ unimplemented!() }\n'
    b = f['body']
    n = f['loops']
    for k in list(c['loop']) + list(c['ls']) + list(c['le']) + list(c['lb']):
        if k >= n: raise Undecided('%s: loop %d of the contract is gone' % (f['key'], k))
    for k in range(n):
        if k not in c['loop']: raise Undecided('%s: loop %d has no invariant' % (f['key'], k))
    for k, rx in c['overs'].items():    # the invariant of this loop speaks of what it runs over
        if not any(re.search(rx, l['over']) for l in f['locals'] if l.get('loop') == k and l.get('over')): raise Undecided('%s: loop %d runs over something else' % (f['key'], k))
    for k in range(n):
        b = b.replace('/*@LOOP%d@*/' % k, '\n' + verdict_form(subst(c['loop'][k], f, c), k, b) + '\n')
        for tag, sec in (('LS', 'ls'), ('LE', 'le'), ('LB', 'lb')):
            b = b.replace('/*@%s%d@*/' % (tag, k), '\n' + subst(c[sec].get(k, []), f, c) + '\n')
    if c['tb'] or c['te']:
        if '/*@TB@*/' not in b: raise Undecided('%s: the tail expression is gone' % f['key'])
    if c['te']:
        b = b.replace('/*@TB@*/', subst(c['tb'], f, c) + '\nlet ret = ').replace('/*@TE@*/', ';\n' + subst(c['te'], f, c) + '\nret')
    else:
        b = b.replace('/*@TB@*/', subst(c['tb'], f, c)).replace('/*@TE@*/', '')
    b = re.sub(r'/\*@\w+@\*/', '', b)
    b = b.strip()
    assert b.startswith('{')
    b = '{ ' + subst(c['head'], f, c) + ' ' + extra_start + reveals(b) + subst(c['start'], f, c) + b[1:]
    b = re.sub(r'\bRegex\b', 'VxRegex', b)
    return sig + b + '\n'

STRLIT = re.compile(r"""r(#*)"(.*?)"\1|(?<!b)"((?:[^"\\]|\\.)*)"|'(?:[^'\\\n]|\\[^\n]|\\u\{[^}]*\}|\\x..)'""", re.S)
def reveals(b):
    """The characters of the short text literals of a body, told to the solver."""
    out = []
    for m in STRLIT.finditer(b):
        t = m.group(2) if m.group(2) is not None else m.group(3)
        if t is not None and len(t) <= 4 and '{' not in t and m.group(0) not in out: out.append(m.group(0))
    return 'proof { %s } ' % ' '.join('reveal_strlit(%s);' % x + (' assert(""@.len() == 0);' if x == '""' else '') for x in out[:24]) if out else ''

def verdict_form(inv, k, body):
    """An invariant on the verdict vx_r<k> of an all/any loop, in the form this loop keeps it: all as not-any-not and any as
    not-all-not hold its negation; a loop that returns at once instead of keeping a verdict holds what the verdict would be. vx_undecided<k>: nothing has been found yet that settles it."""
    und = re.search(r'let mut vx_r%d = (true|false);' % k, body)
    inv = re.sub(r'\bvx_undecided%d\b' % k, '(vx_r%d == %s)' % (k, und.group(1)) if und else 'true', inv)
    m = re.search(r'\bvx_r%d == \((forall|exists)\b' % k, inv)
    if not m: return inv
    init = re.search(r'let mut vx_r%d = (true|false);' % k, body)
    if not init: return inv.replace(m.group(0), ('true' if m.group(1) == 'forall' else 'false') + ' == (' + m.group(1), 1)
    return inv if (init.group(1) == 'true') == (m.group(1) == 'forall') else inv.replace(m.group(0), '!' + m.group(0), 1)

def resolve_self(f):
    """Self inside an inherent impl is fine; nothing to do. Kept as a hook."""
    return f

def impl_header(f, self_ty=None):
    g = f['impl_generics'] or ''
    st = self_ty or f['self_ty']
    if f['trait'] in STD_TRAITS: return 'impl%s %s for %s' % (g, f['trait'], st)
    return 'impl%s %s' % (g, st)

class Assembled:
    def __init__(self): self.lines = []; self.owner = []; self.rules = set(); self.fns = []
    def add(self, text, owner):
        for l in text.split('\n'):
            self.lines.append(l); self.owner.append(owner)
    def text(self): return '\n'.join(self.lines) + '\n'
    def who(self, line):
        return self.owner[line - 1] if 0 < line <= len(self.owner) else '?'

def config():
    return json.load(open(os.path.join(CT, 'props.json')))

def units(prop):
    cfg = config()
    if prop not in cfg['props']: return None
    p = dict(cfg['props'][prop])
    u = cfg['units'][p['unit']]
    out = {'types': list(u.get('types', [])), 'files': list(u.get('files', [])), 'lemmas': list(p.get('lemmas', [])), 'groups': list(u.get('groups', [])),
           'prove': list(p.get('prove', [])), 'stub': [], 'broadcasts': list(u.get('broadcasts', [])) + list(p.get('broadcasts', [])), 'explanation': p.get('explanation', ''), 'assumptions': list(u.get('assumptions', [])) + list(p.get('assumptions', [])),
           'bounded': list(p.get('bounded', [])), 'theorems': list(p.get('theorems', [])), 'derives': list(p.get('derives', []))}
    out['files'] += p.get('files', [])
    out['types'] += [x for x in p.get('types', []) if x not in out['types']]
    out['groups'] += p.get('groups', [])
    def expand(ks):
        r = []
        for k in ks:
            for x in (cfg['sets'][k[1:]] if k.startswith('@') else [k]):
                if x not in r: r.append(x)
        return r
    out['prove'] = expand(out['prove'])
    out['stub'] = [k for k in expand(list(u.get('stub', [])) + list(p.get('stub', []))) if k not in out['prove']]
    return out

NEEDS = {'ops.ct': ['text.rs', 'ops_base.rs', 'ops.rs'], 'parse.ct': ['text.rs', 'pv.rs', 'parse.rs'], 'order.ct': ['text.rs', 'ops_base.rs', 'pv.rs', 'order.rs'],
         'specs.ct': ['text.rs', 'into.rs', 'ops_base.rs', 'pv.rs', 'order.rs', 'ops.rs', 'parse.rs', 'into_version.rs', 'specs.rs']}

def also_called(u, byk, db):
    """contracts of functions that the proved ones call by path now and that this proof did not need before"""
    have = set(u['prove'] + u['stub'])
    for key in u['prove']:
        for f in byk.get(key, []):
            for c in f['calls']:
                if c.startswith('.'):
                    hits = [k for k in db if ' as ' not in k and k.endswith('::' + c[1:]) and len(byk.get(k, [])) == 1]
                    if len(hits) != 1 or any(h.endswith('::' + c[1:]) for h in have) or db[hits[0]]['file'] not in NEEDS or byk[hits[0]][0]['self_ty'] not in u['types']: continue
                    have.add(hits[0]); u['stub'].append(hits[0])
                    u['files'] += [x for x in NEEDS[db[hits[0]]['file']] if x not in u['files']]
                    continue
                parts = re.sub(r'<.*', '', c).split('::') if not c.startswith('<') else []
                if len(parts) >= 2 and parts[-2] == 'Self': parts[-2] = f['self_ty']
                for k in db:
                    kp = k.split('::')
                    if k in have or ' as ' in k or len(byk.get(k, [])) != 1: continue
                    if len(parts) >= 2 and len(kp) == 3 and kp[1:] == parts[-2:] or len(parts) == 1 and len(kp) == 2 and kp[1] == parts[0] and kp[0] == f['file']:
                        if db[k]['file'] not in NEEDS: continue
                        have.add(k); u['stub'].append(k)
                        u['files'] += [x for x in NEEDS[db[k]['file']] if x not in u['files']]

def assemble(prop, d, db, vac=False):
    u = units(prop)
    byk = {}
    for f in d['fns']: byk.setdefault(f['key'], []).append(f)
    before = list(u['stub'])
    also_called(u, byk, db)
    if os.environ.get('VX_DEBUG') and before != u['stub']: print('also called:', [x for x in u['stub'] if x not in before])
    a = Assembled()
    a.add(open(os.path.join(CT, 'prelude.rs')).read(), 'prelude')
    a.add('verus! {', 'types')
    tt = {t['name']: t for t in d['types'] if t['kind'] in ('enum', 'struct')}
    for n in u['types']:
        if n not in tt: raise Undecided('type %s is gone' % n)
        a.add(emit_type(tt[n], n not in u['derives']), 'type ' + n)
    a.add('}', 'types')
    for fn in u['files'] + u['lemmas']:
        a.add(open(os.path.join(CT, fn)).read(), 'spec ' + fn)
    pats = {}
    for k in u['prove']:
        for f in byk.get(k, []):
            for text, ast, quoted in f['regexes']:
                if ast: pats[text] = (ast, quoted)
    known = json.load(open(os.path.join(CT, 'regexes.json')))
    a.patterns = sorted(pats)
    mods = sorted({known[x[0]]['module'] for x in pats.values() if x[0] in known})
    a.add('pub mod vx_patterns { use vstd::prelude::*; use super::vx_pre::*; use super::vx_text::*; use super::vx_re::*; use super::vx_re_ax::*; %s verus! {' % ' '.join('use super::%s::*;' % m for m in mods), 'prelude')
    facts = []
    for i, (text, (ast, quoted)) in enumerate(sorted(pats.items())):
        t = '// the syntax tree of this pattern, as regex-syntax parses it\npub axiom fn vx_pattern_%d() ensures re_ast(%s@) == Some(%s);\n' % (i, quoted, ast)
        t += 'pub broadcast proof fn vx_valid_%d(p: Seq<char>) requires p == %s@ ensures #[trigger] re_valid(p) { vx_pattern_%d(); ax_re_valid(p); }' % (i, quoted, i)
        facts.append('vx_valid_%d' % i)
        if ast in known:
            k = known[ast]
            lhs, rhs = k['fact'].split(' == ')
            t += '\npub broadcast proof fn vx_fact_%d(s: Seq<char>) ensures #[trigger] %s == %s { vx_pattern_%d(); %s(%s%s@, s); }' % (i, lhs.format(p=quoted + '@'), rhs, i, k['lemma'], k['args'], quoted)
            facts.append('vx_fact_%d' % i)
        a.add(t, 'pattern ' + text)
    a.add('} }', 'prelude')
    if u['derives']:
        a.add('verus! {', 'types')
        for n in u['derives']:
            if n not in tt or tt[n]['kind'] != 'struct' or 'Deserialize' not in tt[n].get('derives', []): raise Undecided('%s is not a struct with derive(Deserialize)' % n)
            a.add(emit_derive(tt[n]), 'derive(Deserialize) of ' + n)
            a.rules.add('R37 #[derive(Deserialize)] of a struct -> what serde_derive and serde_json make of its fields, names and attributes (generated from the declaration; trusted)')
        a.add('}', 'types')
    a.add('verus! { broadcast use {%s}; }' % ', '.join(['vx_pre::vx_group_std'] + ['vx_patterns::' + x for x in facts] + u['broadcasts']), 'prelude')
    start = ''.join('broadcast use %s; ' % g for g in u['groups'])
    a.add('verus! {', 'code')
    impls = {}
    for mode in ('prove', 'stub'):
        for key in u[mode]:
            k, self_ty = key, None
            fs = byk.get(k, [])
            if not fs:
                g = synthesize(k, byk, tt)
                if g: fs = [g]
            if len(fs) != 1: raise Undecided('%s: %d functions with this key' % (key, len(fs)))
            f = fs[0]
            if key not in db: raise Undecided('no contract for ' + key)
            extra = start
            if vac and mode == 'prove': extra += 'assert(false); '
            if mode == 'prove' and db[key]['detached']:
                impls.setdefault(impl_header(f), []).append((key, emit_fn(f, db[key], 'stub'), f))
                f, c = detach(f, db[key])
                txt = emit_fn(f, c, mode, extra)
            else:
                txt = emit_fn(f, db[key], mode, extra)
            if mode == 'prove':
                a.rules |= set(f['rules']); a.fns.append(key)
            if f['self_ty']:
                impls.setdefault(impl_header(f), []).append((key, txt, f))
            else:
                a.add(txt, 'fn ' + key)
    std = {}
    for imp in d['impls']:
        if imp['trait'] in STD_TRAITS: std['impl %s for %s' % (imp['trait'], imp['self_ty'])] = imp
    for h, fs in impls.items():
        if fs[0][2]['trait'] in STD_TRAITS:
            want = std.get(h)
            have = {x[2]['name'] for x in fs}
            if want and set(want['fns']) - have:
                raise Undecided('%s has functions without a contract: %s' % (h, sorted(set(want['fns']) - have)))
        a.add(h + ' {', 'code')
        for key, txt, f in fs: a.add(txt, 'fn ' + key)
        a.add('}', 'code')
    a.add('}\nfn main() {}', 'code')
    return a, u

# ------------------------------------------------------------------ running Verus
VERUS = os.environ.get('VERUS', 'verus')
def run_verus(path, rlimit, timeout, errors=8):
    cmd = [VERUS, path, '--rlimit', str(rlimit), '--multiple-errors', str(errors), '--error-format=json', '--output-json', '--num-threads', '4', '--time']
    t = time.time()
    try:
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {'cmd': ' '.join(cmd), 'timeout': True, 'msgs': [], 'verified': 0, 'errors': 0, 'ok': False, 'raw': 'timeout', 'wall': time.time() - t, 'smt_ms': 0}
    msgs = []
    for l in r.stderr.split('\n'):
        if l.startswith('{'):
            try: msgs.append(json.loads(l))
            except ValueError: pass
    out = {}
    i = r.stdout.find('{')
    if i >= 0:
        try: out = json.loads(r.stdout[i:])
        except ValueError: out = {}
    vr = out.get('verification-results', {})
    smt = 0
    try: smt = out['times-ms']['smt']['total']
    except (KeyError, TypeError): pass
    return {'cmd': ' '.join(cmd), 'timeout': False, 'msgs': msgs, 'verified': vr.get('verified', 0), 'errors': vr.get('errors', 0), 'ok': bool(vr.get('success')),
            'encountered_vir_error': vr.get('encountered-vir-error'), 'raw': r.stderr, 'wall': time.time() - t, 'smt_ms': smt, 'rc': r.returncode}

SEMANTIC = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'assertion not satisfied', 'decreases not satisfied', 'possible arithmetic',
            'possible division', 'could not prove termination', 'precondition not', 'recommendation', 'unreachable')
LIMIT = ('Resource limit', 'rlimit')

def classify(res, a):
    """-> (failed obligations [(owner, message)], other problems [text])"""
    failed, other = [], []
    for m in res['msgs']:
        if m.get('level') != 'error': continue
        msg = m['message']
        if msg.startswith('aborting due to'): continue
        spans = m.get('spans', [])
        prim = [s for s in spans if s.get('is_primary')] or spans
        owners = [a.who(s['line_start']) for s in spans]
        fn_owners = [o for o in owners if o.startswith('fn ')]
        detail = '; '.join('%s [%s]' % ((s.get('label') or ''), ' '.join(x['text'].strip() for x in s.get('text', []))[:160]) for s in spans)
        # the failing function: where the primary span is for invariants/assertions, where the exit/call is otherwise
        who = None
        for s in prim + spans:
            o = a.who(s['line_start'])
            if o.startswith('fn '): who = o; break
        if any(x in msg for x in LIMIT): other.append('%s: %s' % (who, msg)); continue
        if any(x in msg for x in SEMANTIC):
            if 'precondition' in msg:      # the call site is the secondary or primary span inside a proved function
                cands = [a.who(s['line_start']) for s in spans if a.who(s['line_start'])[3:] in a.fns]
                who = cands[0] if cands else who
                lab = [s for s in spans if 'at this call' in (s.get('label') or '') or s.get('is_primary')]
                for s in lab:
                    o = a.who(s['line_start'])
                    if o.startswith('fn ') and o[3:] in a.fns: who = o
            if 'postcondition' in msg:
                cands = [a.who(s['line_start']) for s in spans if a.who(s['line_start'])[3:] in a.fns]
                if cands: who = cands[0]
            if who is None: who = (owners or ['?'])[0]
            failed.append((who, '%s: %s' % (msg, detail)))
        else:
            other.append('%s: %s %s' % (who or (owners or ['?'])[0], msg, detail[:300]))
    return failed, other

def trusted(text):
    """Mechanical scan of the verified file for everything that is assumed, not proved."""
    out = []
    ls = text.split('\n')
    for i, l in enumerate(ls):
        m = re.search(r'axiom fn (\w+)', l)
        if m: out.append('axiom ' + m.group(1)); continue
        m = re.search(r'assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]*?)\s*\]', l)
        if m: out.append('assumed specification of ' + m.group(1)); continue
        if 'external_body' in l:
            rest = ' '.join(ls[i:i + 6])
            rest = rest[rest.index('external_body'):]
            m = re.search(r'\b(?:fn|struct)\s+(\w+)', rest)
            before = ''
            for j in range(i, max(-1, i - 40), -1):
                mm = re.match(r'^\s*impl\b(.*?)\{', ls[j])
                if mm: before = mm.group(1).strip() + '::'; break
                if re.match(r'^\}', ls[j]): break
            out.append('external_body %s%s' % (before, m.group(1) if m else '?'))
        if re.search(r'\b(assume|admit)\s*\(', l): out.append('assume: ' + l.strip()[:120])
        m = re.search(r'uninterp spec fn (\w+)', l)
        if m: out.append('uninterpreted ' + m.group(1))
    return sorted(set(out))

def decide(prop, tier, outdir, seed=1):
    t0 = time.time()
    u = units(prop)
    if u is None or not u['prove']: return {'status': 'none'}
    res = {'status': 'undecided', 'obligations': 0, 'discharged': 0, 'functions': u['prove'], 'explanation': u['explanation'], 'assumptions': u['assumptions'],
           'bounded': u['bounded'], 'lemmas': u['theorems'], 'back_end': 'Verus 0.2026.09.13.671956e with its bundled Z3'}
    try:
        build_extractor()
        d = extract()
        db = parse_ct()
        a, u = assemble(prop, d, db)
        work = os.path.join(harness.BUILD, 'verus-%s-%d' % (prop, os.getpid()))
        os.makedirs(work, exist_ok=True)
        try:
            path = os.path.join(work, prop + '.rs')
            open(path, 'w').write(a.text())
            open(os.path.join(outdir, prop + '.rs'), 'w').write(a.text())
            rl = 40 if tier == 'quick' else 200
            # reachability: with assert(false) at the start of every function each of them has to fail
            av, _ = assemble(prop, d, db, vac=True)
            vpath = os.path.join(work, prop + '_vac.rs')
            open(vpath, 'w').write(av.text())
            import threading
            vres, cres = {}, {}
            # the trusted contracts of text and regular expressions, tried against the library (with the patterns of the code)
            tc = threading.Thread(target=lambda: cres.update(conform.run(seed, 2 if tier == 'quick' else 30, a.patterns)))
            tc.start()
            th = threading.Thread(target=lambda: vres.update(run_verus(vpath, rl, 400)))
            th.start()
            r = run_verus(path, rl, 500)
            th.join(); tc.join()
        finally:
            import shutil
            shutil.rmtree(work, ignore_errors=True)
        failed, other = classify(r, a)
        res.update(obligations=r['verified'] + r['errors'], discharged=r['verified'], checker_cmd=r['cmd'], solver_ms=r['smt_ms'], rules=sorted(a.rules), trusted_base=trusted(a.text()))
        open(os.path.join(outdir, prop + '.verus.json'), 'w').write(r['raw'])
        if r['timeout']: other.append('verifier timeout')
        vf, vo = classify(vres, av) if vres else ([], ['vacuity run missing'])
        hit = {w[3:] for w, m in vf if 'assertion' in m}
        res['vacuity'] = ['%d of %d functions reach their start under their preconditions' % (len(hit & set(a.fns)), len(a.fns))]
        if r['ok'] and r['verified'] > 0 and not failed and not other:
            missing = [x for x in a.fns if x not in hit]
            if missing: res['reasons'] = ['the precondition of these functions is contradictory or the check could not tell: ' + ', '.join(missing)]
            else: res['status'] = 'proved'
        elif failed and not other:
            res['status'] = 'failed'
            res['failed'] = sorted({'%s -- %s' % (w, m) for w, m in failed})
            res['output'] = '\n'.join(m.get('rendered', '') for m in r['msgs'] if m.get('level') == 'error')
            changed = changed_regexes(d, u, a)
            if any(x.startswith(('R38', 'R43')) for x in a.rules):
                res['status'] = 'undecided'; res['reasons'] = ['not proved with helper functions put in place of their calls'] + res['failed']
            if changed:
                res['status'] = 'undecided'; res['reasons'] = ['regular expressions without axioms: %s' % changed] + res['failed']
        else:
            res['reasons'] = other[:10] + ['%s -- %s' % x for x in failed][:10]
            res['output'] = '\n'.join(m.get('rendered', '') for m in r['msgs'] if m.get('level') == 'error')[-6000:]
        res['conformance'] = cres
        if cres.get('differences'):
            res['status'] = 'undecided'
            res.setdefault('reasons', []).insert(0, 'a trusted contract does not say what the library does: ' + cres['differences'][0])
    except Undecided as e:
        res['reasons'] = [str(e)]
    res['proof_wall_s'] = round(time.time() - t0, 2)
    return res

def changed_regexes(d, u, a):
    known = set(json.load(open(os.path.join(CT, 'regexes.json'))))
    out = []
    for f in d['fns']:
        if f['key'] in u['prove']:
            out += [x[0] for x in f['regexes'] if x[1] not in known]
    return out

if __name__ == '__main__':
    import sys
    prop = sys.argv[1]
    build_extractor()
    d = extract(); db = parse_ct()
    a, u = assemble(prop, d, db, vac='--vac' in sys.argv)
    p = '/tmp/w/%s.rs' % prop
    open(p, 'w').write(a.text())
    if '--asm' not in sys.argv:
        r = run_verus(p, 40, 600)
        f, o = classify(r, a)
        for m in r['msgs']:
            if m.get('level') == 'error' or '-w' in sys.argv: print(m.get('rendered', ''))
        for x in f: print('FAILED', x[0], '--', x[1][:200])
        for x in o: print('OTHER', x[:300])
        print(r['verified'], 'verified', r['errors'], 'errors; ok', r['ok'], 'wall %.1f smt %s' % (r['wall'], r['smt_ms']))
        if not r['msgs'] and not r['ok']: print(r['raw'][-3000:])

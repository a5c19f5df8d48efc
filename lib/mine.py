"""Literals of the current source (outside test modules), used only to steer the concrete search."""
import re, os, json, glob
FILES = ['core/src/version/*.rs', 'core/src/version/*/*.rs', 'core/src/repodata/*.rs', 'core/src/lib.rs', 'python/src/*.rs']

def strip_tests(s):
    i = s.find('#[cfg(test)]\nmod ')
    return s if i < 0 else s[:i]

def unescape(s):
    out, i = [], 0
    simple = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            d = s[i + 1]
            if d in simple:
                out.append(simple[d]); i += 2; continue
            if d == 'u':
                m = re.match(r'\\u\{([0-9a-fA-F_]+)\}', s[i:])
                if m:
                    try: out.append(chr(int(m.group(1).replace('_', ''), 16)))
                    except ValueError: pass
                    i += m.end(); continue
            if d == 'x':
                try: out.append(chr(int(s[i + 2:i + 4], 16)))
                except ValueError: pass
                i += 4; continue
            i += 2; continue
        out.append(c); i += 1
    return ''.join(out)

TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(#*)"(.*?)"\1|b?"((?:[^"\\]|\\.)*)"|b?'((?:[^'\\\n]|\\[^\n]|\\u\{[^}]*\}|\\x..))'|\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?\b''', re.S)

def mine(repo):
    texts, nums = set(), set()
    for pat in FILES:
        for f in sorted(glob.glob(os.path.join(repo, pat))):
            if '/test_tools/' in f: continue
            try: s = strip_tests(open(f, encoding='utf-8').read())
            except OSError: continue
            for m in TOK.finditer(s):
                if m.group(2) is not None: texts.add(m.group(2))
                elif m.group(3) is not None: texts.add(unescape(m.group(3)))
                elif m.group(4) is not None: texts.add(unescape(m.group(4)))
                elif m.group(5) is not None:
                    try: nums.add(int(m.group(5).replace('_', ''), 0 if m.group(5)[:2] in ('0x', '0b', '0o') else 10))
                    except ValueError: pass
    return texts, nums

def dictionary(repo, baseline_file, out):
    texts, nums = mine(repo)
    texts = {t for t in texts if t and len(t) <= 60}
    try: base = json.load(open(baseline_file))
    except OSError: base = {'texts': [], 'nums': []}
    ft, fn = sorted(texts - set(base['texts'])), sorted(nums - set(base['nums']))
    extra = []
    for t in ft:                       # words inside new messages are worth trying too
        extra += [w for w in re.split(r'[^0-9A-Za-z]+', t) if w and w != t][:4]
    t_all = sorted(texts); n_all = sorted(n for n in nums if -2**63 <= n < 2**63)
    k = max(1, len(t_all) // max(1, len(ft))) if ft else 0
    t_all = ft * (2 * k) + extra + t_all
    kn = max(1, len(n_all) // max(1, len(fn))) if fn else 0
    fn = [n for n in fn if -2**63 <= n < 2**63]
    n_all = fn * (2 * kn) + n_all
    # texts made of a new number (as version components)
    t_all += [str(n) for n in fn]
    json.dump({'texts': t_all, 'nums': n_all}, open(out, 'w'))
    return {'literals': len(texts) + len(nums), 'not_in_baseline': ft + fn}

if __name__ == '__main__':
    import sys
    t, n = mine(sys.argv[1])
    json.dump({'texts': sorted(t), 'nums': sorted(n)}, open(sys.argv[2], 'w'), indent=0)
    print(len(t), len(n))

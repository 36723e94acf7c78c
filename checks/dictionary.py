"""Constants of the code under test, for the workload generators.

A fuzzer's dictionary: the literals, property values and property calls the
sources mention, counted, less those the tree this framework was built for
mentions (oracle/literals.txt, made by `python3 checks/dictionary.py`).  What
is left steers the random workloads towards texts and lengths that changed
code compares with; no verdict depends on it, and on the original tree it is
empty."""
import collections
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'oracle', 'literals.txt')
CHAR = r"'(?:\\u\{([0-9A-Fa-f_]+)\}|\\x([0-9A-Fa-f]{2})|(\\[nrt0'\\\"])|([^'\\\n]))'"


def rust_code(t):
    # comments, and the generated tables
    t = re.sub(r'//[^\n]*', '', t)
    t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    t = re.sub(r'(?:const|static)\s+\w+\s*:[^;=]*(?:;[^;=]*)?=\s*&?\[.*?\n\];', lambda m: m.group(0) if len(m.group(0)) < 1200 else '', t, flags=re.S)
    return t


def scan_rust(t, out):
    t = rust_code(t)
    for m in re.finditer(CHAR, t):
        u, x, e, c = m.groups()
        v = int(u.replace('_', ''), 16) if u else int(x, 16) if x else {'n': 10, 'r': 13, 't': 9, '0': 0}.get(e[1], ord(e[1])) if e else ord(c)
        out['c=%X' % v] += 1
    t = re.sub(CHAR, "' '", t)
    for s in re.findall(r'"((?:[^"\\]|\\.)*)"', t):
        for u in re.findall(r'\\u\{([0-9A-Fa-f_]+)\}', s):
            out['c=%X' % int(u.replace('_', ''), 16)] += 1
        for c in re.sub(r'\\u\{[^}]*\}|\\.', '', s):
            if ord(c) > 127:
                out['c=%X' % ord(c)] += 1
    t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)
    suffix = r'(?:[iu](?:8|16|32|64|128|size))?\b'
    num = r'(?<![\w.])(0x[0-9A-Fa-f_]+?|0b[01_]+|[0-9][0-9_]*?)_?' + suffix
    val = lambda s: int(s.replace('_', ''), 0) if not re.fullmatch(r'0[0-9_]+', s) else int(s.replace('_', ''))
    for m in re.finditer(num + r'\s*(<<|\*)\s*' + num, t):
        a, op, b = val(m.group(1)), m.group(2), val(m.group(3))
        if b < 64 or op == '*':
            out['n=%d' % (a << b if op == '<<' else a * b)] += 1
    for m in re.finditer(num, t):
        v = val(m.group(1))
        if v > 2:
            out['n=%d' % v] += 1
        if v < 0x110000 and (m.group(1).startswith('0x') or v > 127):
            out['c=%X' % v] += 1
    for e, v in re.findall(r'\b([A-Z][a-z]+)::([A-Z]\w*)\b', t):
        out['p=%s::%s' % (e, v)] += 1
    for f in re.findall(r'(?:\.|::)([a-z_]+)\(', t):
        out['p=' + f] += 1
    for ty, n in re.findall(r'\b([iu](?:8|16|32))\b|\b(MAX)\b', t):
        if ty:
            out['t=' + ty] += 1


def scan_python(t, out):
    t = re.sub(r'(?m)#[^\n]*$', '', t)
    for s in re.findall(r"'((?:[^'\\\n]|\\.)*)'|\"((?:[^\"\\\n]|\\.)*)\"", t):
        s = s[0] or s[1]
        if 0 < len(s) < 40:
            out['s=' + s.encode('unicode_escape').decode()] += 1
    t = re.sub(r"'(?:[^'\\\n]|\\.)*'|\"(?:[^\"\\\n]|\\.)*\"", "''", t)
    for m in re.finditer(r'(?<![\w.])(0x[0-9A-Fa-f_]+|[1-9][0-9_]*)\b', t):
        out['n=%d' % int(m.group(1).replace('_', ''), 0)] += 1


def count(repo, part):
    out = collections.Counter()
    top = os.path.join(repo, 'src' if part == 'rust' else 'tools')
    for root, ds, fs in os.walk(top):
        ds[:] = sorted(d for d in ds if d not in ('data', '__pycache__', '.vmon-harness'))
        for f in sorted(fs):
            if f.endswith('.rs' if part == 'rust' else '.py'):
                try:
                    t = open(os.path.join(root, f), errors='replace').read()
                except OSError:
                    continue
                (scan_rust if part == 'rust' else scan_python)(t, out)
    return out


def new(repo, part):
    known = collections.Counter()
    for l in open(KNOWN, encoding='utf-8').read().splitlines():
        p, n, k = l.split('\t', 2)
        if p == part:
            known[k] = int(n)
    return [k for k, n in sorted(count(repo, part).items()) if n > known[k]]


def rust_dictionary(repo):
    """the value of VMON_DICT"""
    try:
        ks = new(repo, 'rust')
    except Exception:
        return ''
    d = {'c': [], 'n': [], 'p': []}
    for k in ks:
        if k.startswith('t='):
            # a narrow integer: its size
            b = int(re.sub(r'\D', '', k))
            if b < 32:
                d['n'] += [str(1 << b), str((1 << b) - 1)]
        else:
            d[k[0]].append(k[2:])
    return ';'.join('%s=%s' % (k, ','.join(v[:200])) for k, v in d.items() if v)


def python_dictionary(repo):
    """{'nums': [...], 'words': [...]} of the generators"""
    try:
        ks = new(repo, 'python')
    except Exception:
        ks = []
    nums = [int(k[2:]) for k in ks if k.startswith('n=')][:60]
    words = [k[2:] for k in ks if k.startswith('s=')]
    return {'nums': nums, 'words': sorted({w for s in words for w in re.findall(r'[A-Za-z][A-Za-z0-9]*|[0-9]{1,4}', s)})[:60]}


if __name__ == '__main__':
    with open(KNOWN, 'w', encoding='utf-8') as f:
        for part in ('rust', 'python'):
            for k, n in sorted(count(sys.argv[1] if len(sys.argv) > 1 else '/repo', part).items()):
                f.write('%s\t%d\t%s\n' % (part, n, k))

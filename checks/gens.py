"""Checks of what the generators do besides answering their data: the same
data gives the same sources in every world and nothing else is touched (C38),
and the tables they choose are the smallest (C39)."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

import vlib
from vlib import Inconclusive
from checks.augment import Augment
from checks.synth import Synth
from checks.tools import DATA, PYENV, snapshot, tail

UCD = 'src/unicode/ucd/'
FILES = {UCD + f + '.rs' for f in ('gc', 'blk', 'sc', 'age', 'binary_props', 'na/na_table', 'hst', 'emoji_props', 'gcb', 'bc', 'ccc', 'dt', 'dm/dm_map', 'ce', 'wb', 'insc')}
WRITERS = {'ucd-tool.py': FILES, 'gen-normalization-test.py': {'tests/normalization_test_cases.rs'}, 'gen-grapheme-break-test.py': {'tests/grapheme_break_test_cases.rs'}}
PRINTERS = ['gen-blk-enum.py', 'gen-blk-name.py', 'gen-sc-enum.py', 'gen-sc-name.py']


def tree(ctx, name, seed):
    """a scratch copy of the tree, with a data set"""
    d = os.path.join(ctx.scratch, name)
    os.makedirs(os.path.join(d, 'tests'))
    for s in ('src', 'tools'):
        shutil.copytree(os.path.join(vlib.REPO, s), os.path.join(d, s), ignore=shutil.ignore_patterns('__pycache__', '.env'))
    for f in os.listdir(os.path.join(vlib.REPO, 'tests')):
        if f.endswith('.rs'):
            shutil.copy(os.path.join(vlib.REPO, 'tests', f), os.path.join(d, 'tests'))
    shutil.copy(os.path.join(vlib.REPO, 'Cargo.toml'), d)
    if seed is not None:
        dst, new = os.path.join(d, 'tools/ucd-tool/data', DATA), d + '-data'
        (Augment if seed % 2 else Synth)(dst, new, seed).make()
        shutil.copytree(new, dst, dirs_exist_ok=True)
        shutil.rmtree(new)
    return d


# a sitecustomize: what a script looks for beside the tree, in the home or in
# the temporary directory, and is not there, is there after all (and no data)
HOSTED = '''
import os, sys
TOP, TREE = os.environ['HOSTED'], os.environ['HOSTED_TREE']
busy = []
def there(p, *a, **k):
    try:
        p = os.path.abspath(os.fsdecode(p))
    except TypeError:
        return
    if busy or not p.startswith(TOP + '/') or (p + '/').startswith(TREE + '/') or '/.local/' in p or p.endswith(('.py', '.pyc', '.so', '.pth', '.cfg')):
        return
    busy.append(1)
    try:
        if not os.path.lexists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write('no data')
            with open(os.environ['HOSTED_LOG'], 'a') as f:
                f.write(p + chr(10))
    except OSError:
        pass
    finally:
        busy.pop()
def ahead(f):
    def g(p='.', *a, **k):
        there(p)
        return f(p, *a, **k)
    return g
for n in ('stat', 'lstat', 'access'):
    setattr(os, n, ahead(getattr(os, n)))
sys.addaudithook(lambda e, a: there(a[0]) if e == 'open' and a[0] is not None and not isinstance(a[0], int) and isinstance(a[2], int) and not a[2] & 3 else None)
'''


def worlds(r):
    """name -> (how the process is started, what is done to the tree before)"""
    def older(d):
        for f in sorted(set().union(*WRITERS.values())):
            open(os.path.join(d, f), 'a').write('// older, longer\n' * 50000)

    def gone(d):
        for i, f in enumerate(sorted(set().union(*WRITERS.values()))):
            if i % 2:
                os.unlink(os.path.join(d, f))
            else:
                open(os.path.join(d, f), 'w').close()

    def respelt(d):
        data = os.path.join(d, 'tools/ucd-tool/data')
        for root, _, fs in os.walk(os.path.join(data, DATA)):
            for f in fs:
                if f.endswith('.json'):
                    p = os.path.join(root, f)
                    x = json.load(open(p))
                    t = json.dumps(x, indent=r.choice([None, 1, 7, '\t']), separators=r.choice([(',', ':'), (' , ', ' : ')]))
                    open(p, 'w', newline='').write(t.replace('\n', '\r\n') + '\n')
        for v in os.listdir(data):
            if re.match(r'\d', v) and v != DATA:
                if r.random() < 0.5:
                    shutil.rmtree(os.path.join(data, v))
                else:
                    for root, _, fs in os.walk(os.path.join(data, v)):
                        for f in fs:
                            open(os.path.join(root, f), 'w').write('{}')
        os.makedirs(os.path.join(data, '99.0.0'))
        for f in ('notes.txt', 'Blocks.json~', 'extracted/.Blocks.json.swp'):
            open(os.path.join(data, DATA, f), 'w').write('no data')

    def killed(d):
        for s in WRITERS:
            p = subprocess.Popen([sys.executable, s], cwd=os.path.join(d, 'tools/ucd-tool'), env=dict(os.environ, **PYENV), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
            try:
                p.wait(r.choice([1.5, 4, 9]) if s == 'ucd-tool.py' else 0.15)
            except subprocess.TimeoutExpired:
                p.send_signal(signal.SIGKILL)
                p.wait()

    def elsewhere(d):
        # files are of other times and modes
        for root, _, fs in os.walk(d):
            for f in fs:
                x = r.randrange(0, 2 ** 31)
                os.utime(os.path.join(root, f), (x, x))
                os.chmod(os.path.join(root, f), r.choice([0o600, 0o644, 0o755, 0o777]))

    py = lambda *a: [sys.executable] + list(a)
    none = lambda d: None
    return [
        ('plain', py(), dict(PYTHONHASHSEED='0'), none),
        ('another hash seed, an empty environment, the C locale', ['env', '-i', 'PYTHONHASHSEED=%d' % r.randrange(1, 10 ** 6), 'LC_ALL=C', 'PYTHONUTF8=0', 'PYTHONCOERCECLOCALE=0', 'PYTHONDONTWRITEBYTECODE=1'] + py(), {}, none),
        ('another place and machine, a later and faster clock, a Turkish locale, other file times, a strict umask, optimised', ['sh', '-c', 'umask 077; exec "$@"', 'sh'] + py('-O'), dict(PYTHONHASHSEED='random', TZ='Pacific/Kiritimati', LC_ALL='tr_TR.UTF-8', LANG='tr_TR.UTF-8', SHIM='1', HOME='/nonexistent', USER='nobody', DEBUG='1', SOURCE_DATE_EPOCH='1'), elsewhere),
        ('longer outputs of an older run in place', py(), dict(PYTHONHASHSEED='random'), older),
        ('some outputs missing or empty', py(), dict(PYTHONHASHSEED='random'), gone),
        ('the data formatted otherwise, other versions gone, stray files', py(), dict(PYTHONHASHSEED='random', COLUMNS='20'), respelt),
        ('any file asked for outside the tree is there', py(), dict(PYTHONHASHSEED='random', HOSTED='1'), none),
        ('after runs that were killed', py(), dict(PYTHONHASHSEED='random'), killed),
    ]


def one_world(ctx, shim, name, seed, k, world):
    """-> outputs {what: bytes}, list of (case, what)"""
    how, cmd, env, before = world
    d = tree(ctx, name + (' %d \u00e9\u4e2d' % k if k == 2 else '-%d' % k), seed)
    before(d)
    tool, outs, bad = os.path.join(d, 'tools/ucd-tool'), {}, []
    env = dict(PYENV, **env)
    if env.pop('SHIM', None):
        env.update(LD_PRELOAD=shim, SHIM_CLOCK_ONLY='1', SHIM_MACHINE='1', SHIM_VALUE='1')
    if env.pop('HOSTED', None):
        for x in ('home', 'tmp', 'site'):
            os.makedirs(os.path.join(d + '-host', x))
        open(os.path.join(d + '-host/site/sitecustomize.py'), 'w').write(HOSTED)
        shutil.move(d, d + '-host/tree')
        top, d = d + '-host', d + '-host/tree'
        tool = os.path.join(d, 'tools/ucd-tool')
        env.update(HOSTED=top, HOSTED_TREE=d, HOSTED_LOG=top + '.log', HOME=top + '/home', TMPDIR=top + '/tmp', PYTHONPATH=top + '/site')
    # a second run in the same place finds its own outputs and changes nothing
    for turn in (1, 2) if k in (0, 3) else (1,):
        for s in list(WRITERS) + PRINTERS:
            snap = snapshot(d)
            case = 'text %s: %s, %s%s' % (name, s, how, '' if turn == 1 else ', once more')
            rc, o, e = vlib.run(cmd + [s], 600, env=env, cwd=tool, mem_gb=12)
            if rc is None:
                raise Inconclusive(s + ' did not finish in 600 s')
            if rc != 0:
                bad.append((case, 'the script fails: ' + tail(e, 3)))
                continue
            now = snapshot(d)
            mine = WRITERS.get(s, set())
            for f in sorted(set(snap) | set(now)):
                if f in mine or '__pycache__' in f:
                    continue
                if snap.get(f) != now.get(f):
                    bad.append((case, 'a file that is no output of it %s: %s' % ('is gone' if f not in now else 'appears' if f not in snap else 'changes', f)))
                    break
            got = {s + ': ' + f: now.get(f, b'(absent)') for f in mine}
            if s in PRINTERS:
                got[s + ': standard output'] = o.encode('utf-8', 'replace')
            for w, x in got.items():
                if turn == 2 and outs.get(w) != x:
                    bad.append((case, '%s differs from the run before' % w + difference(outs.get(w, b''), x)))
                outs[w] = x
    shutil.rmtree(d, ignore_errors=True)
    return outs, bad


def difference(a, b):
    x, y = a.split(b'\n'), b.split(b'\n')
    for i in range(max(len(x), len(y))):
        p, q = x[i] if i < len(x) else b'(end)', y[i] if i < len(y) else b'(end)'
        if p != q:
            return ': line %d is %r, was %r' % (i + 1, q[:100], p[:100])
    return ''


def c38(ctx):
    ctx.rule = 'one case = one output of one generator in one world, compared byte for byte with the plain world\'s, and every other file of the tree with what it was; non-trivial = all worlds but the plain one'
    ctx.assumptions += ['worlds differ in what is listed in DESIGN.md; Python itself is the installed one']
    shim = os.path.join(ctx.scratch, 'shim.so')
    rc, o, e = vlib.run(['gcc', '-O1', '-shared', '-fPIC', '-o', shim, os.path.join(vlib.HERE, 'checks', 'shim.c'), '-ldl'], 60)
    if rc != 0:
        raise Inconclusive('the shim does not compile: ' + e[-500:])
    r = random.Random(ctx.seed)
    seeds = [None, ctx.seed * 100 + 50] + ([ctx.seed * 100 + k for k in (51, 52, 53, 54)] if ctx.thorough else [])
    jobs = []
    for s in seeds:
        name = 'unicode-' + DATA if s is None else ('later-%d' if s % 2 else 'synthetic-%d') % s
        jobs += [(name, s, k, w) for k, w in enumerate(worlds(r))]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: one_world(ctx, shim, *j), jobs))
    plain, n = {}, 0
    for (name, s, k, w), (outs, bad) in zip(jobs, res):
        for c, x in bad[:3]:
            ctx.violation(c, x, 'worlds', how='VERIF_SEED=%d python3 run.py C38 %s' % (ctx.seed, ctx.tier))
        if k == 0:
            plain[name] = outs
            if len(outs) != len(FILES) + 2 + len(PRINTERS) and not bad:
                raise Inconclusive('the generators have other outputs than known')
        for f, x in sorted(outs.items()):
            n += 1
            if x != plain[name].get(f, x):
                ctx.violation('text %s: %s, %s' % (name, f, w[0]), 'the output differs from the plain world\'s' + difference(plain[name][f], x), 'worlds', how='VERIF_SEED=%d python3 run.py C38 %s' % (ctx.seed, ctx.tier))
        if len(ctx.samples) < 20:
            ctx.samples.append(dict(stage='worlds', case='%s, %s' % (name, w[0]), outputs=len(outs), bytes=sum(map(len, outs.values()))))
    ctx.count(n, n - sum(len(x) for x in plain.values()))
    ctx.stage('worlds', data_sets=len(seeds), worlds=len(jobs), outputs_compared=n)


# ---------------------------------------------------------------------- C39
SIZES = (64, 128, 256, 512)
N = 0x110000


def footprint(flat, bs, repr_size):
    blocks = len({tuple(flat[i:i + bs]) for i in range(0, N, bs)})
    width = 1 if blocks <= 256 else 2 if blocks <= 65536 else 4
    return width * (N // bs) + blocks * bs * repr_size, blocks, width


def parse(txt):
    """the tables of a generated file: name -> (index type, stage 1, blocks, block size)"""
    txt = re.sub(r'//[^\n]*', '', txt)
    arrays = {}
    for m in re.finditer(r'(?:const|static)\s+(\w+)\s*:\s*([^=]*?)=\s*&?\s*\[(.*?)\]\s*;', txt, re.S):
        arrays[m.group(1)] = (m.group(2), m.group(3))
    out = []
    for m in re.finditer(r'fn\s+(\w+)[^{]*\{[^}]*?TwoStageTable\s*(?:::\s*<[^>]*>\s*)?::\s*new\(\s*&?\s*(\w+)\s*,\s*&?\s*(\w+)\s*,\s*(\w+)\s*,?\s*\)', txt, re.S):
        fn, s1, s2, bs = m.groups()
        if s1 not in arrays or s2 not in arrays or not bs.isdigit():
            continue
        ty = re.search(r'\b(u8|u16|u32|u64|usize)\b', arrays[s1][0])
        stage1 = [int(x) for x in re.findall(r'\d+', arrays[s1][1])]
        blocks = [tuple(x.strip() for x in b.split(',') if x.strip()) for b in re.findall(r'\[([^\[\]]*)\]', arrays[s2][1] + ']' * (not arrays[s2][1].rstrip().endswith((']', ','))))]
        out.append((fn, ty and ty.group(1), stage1, blocks, int(bs)))
    return out


WIDTH = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8}


def c39(ctx):
    ctx.rule = 'one case = one two-stage table the generator chose: no other of the block sizes 64, 128, 256 and 512 takes fewer bytes (index entries of the narrowest width and distinct blocks, counted independently); no block is stored twice, none is unused, the index has the narrowest width; non-trivial = tables whose four sizes differ'
    ctx.assumptions += ['an entry of Block takes 2 bytes, of every other table 1']
    seeds = [None] + [ctx.seed * 100 + k for k in ((60, 61, 62) if not ctx.thorough else range(60, 76))]
    n = distinct = 0

    def generated(seed):
        name = 'unicode-' + DATA if seed is None else ('later-%d' if seed % 2 else 'synthetic-%d') % seed
        d = tree(ctx, name, seed)
        rc, o, e = vlib.run([sys.executable, 'ucd-tool.py'], 600, env=PYENV, cwd=os.path.join(d, 'tools/ucd-tool'), mem_gb=12)
        if rc is None:
            raise Inconclusive('ucd-tool.py did not finish in 600 s')
        if rc != 0:
            return name, [('text ' + name, 'the generator fails: ' + tail(e, 3))], []
        bad, rows = [], []
        for f in sorted(FILES):
            for fn, ty, s1, blocks, bs in parse(open(os.path.join(d, f)).read()):
                case = 'text %s: table %s' % (name, fn)
                if len(s1) * bs != N or any(len(b) != bs for b in blocks) or max(s1) >= len(blocks):
                    continue    # what it answers is C31's subject
                flat = [v for i in s1 for v in blocks[i]]
                rep = 2 if fn == 'blk' else 1
                fp = {b: footprint(flat, b, rep) for b in SIZES}
                took = WIDTH.get(ty, 8) * len(s1) + len(blocks) * bs * rep
                best = min(x[0] for x in fp.values())
                rows.append((case, bs, took, {b: x[0] for b, x in fp.items()}))
                if len(set(blocks)) != len(blocks):
                    bad.append((case, 'a block is stored twice'))
                if len(set(s1)) != len(blocks):
                    bad.append((case, '%d of %d blocks are never referred to' % (len(blocks) - len(set(s1)), len(blocks))))
                if WIDTH.get(ty, 8) > (1 if len(blocks) <= 256 else 2 if len(blocks) <= 65536 else 4):
                    bad.append((case, '%s indexes %d blocks' % (ty, len(blocks))))
                if took > best:
                    bad.append((case, 'the table (blocks of %d) takes %d bytes; the candidates take %s' % (bs, took, {b: x[0] for b, x in fp.items()})))
        shutil.rmtree(d, ignore_errors=True)
        if not rows:
            raise Inconclusive('no table found in what the generator writes')
        return name, bad, rows

    def selected(k):
        out = os.path.join(ctx.scratch, 'sel%d.json' % k)
        rc, o, e = vlib.run([sys.executable, os.path.join(vlib.HERE, 'checks', 'minimal_worker.py'), os.path.join(vlib.REPO, 'tools', 'ucd-tool'), str(ctx.seed * 100 + k), '60' if ctx.thorough else '9', out], 700, env=PYENV, mem_gb=12)
        if rc is None:
            raise Inconclusive('the selection worker did not finish')
        if rc != 0:
            raise Inconclusive('the selection worker failed: ' + tail(e, 5))
        return json.load(open(out))

    with cf.ThreadPoolExecutor(8) as ex:
        gens = [ex.submit(generated, s) for s in seeds]
        sels = [ex.submit(selected, k) for k in range(5)]
        for g in gens:
            name, bad, rows = g.result()
            for c, w in bad[:4]:
                ctx.violation(c, w, 'data set ' + name, how='VERIF_SEED=%d python3 run.py C39 %s' % (ctx.seed, ctx.tier))
            n += len(rows)
            distinct += sum(len(set(x[3].values())) == 4 for x in rows)
            ctx.stage('data set ' + name, tables=len(rows), chosen={str(b): sum(x[1] == b for x in rows) for b in SIZES})
            ctx.samples += [dict(stage=name, case=c, block_size=b, bytes=t, candidates=f) for c, b, t, f in rows[:5]]
        for s in sels:
            d = s.result()
            for c, w in d['fails'][:4]:
                ctx.violation(c, w, 'selection', how='VERIF_SEED=%d python3 run.py C39 %s' % (ctx.seed, ctx.tier))
            n += d['cases']
            distinct += d['distinct']
            ctx.samples += [dict(stage='selection', **x) for x in d['samples'][:3]]
            ctx.stage('selection, in Python', cases=d['cases'], chosen=d['chosen'], note=d['note'])
    ctx.count(n, distinct)


CHECKS = {'C38': c38, 'C39': c39}

"""Drives the generator's choice of a block size on constructed data, where each
of the sizes wins in turn, sometimes by little.   minimal_worker.py TOOLDIR SEED CASES OUT"""
import importlib.util, io, contextlib, json, os, random, sys

tooldir, seed, cases, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
sys.dont_write_bytecode = True
sys.path.insert(0, tooldir)
os.chdir(tooldir)
r = random.Random(seed)
N, SIZES = 0x110000, (64, 128, 256, 512)
res = dict(fails=[], cases=0, distinct=0, chosen={}, samples=[], note='')
try:
    with contextlib.redirect_stdout(io.StringIO()):
        spec = importlib.util.spec_from_file_location('ucd_tool', os.path.join(tooldir, 'ucd-tool.py'))
        tool = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(tool)
    select, CodePointRange = tool.select_minimal_tst, tool.CodePointRange
    with contextlib.redirect_stdout(io.StringIO()):     # called as it always was, it gives a table that knows its block size
        select('Probe', [(CodePointRange(5, 9), 'a')], 1, default_prop='x').block_size
except Exception as e:  # noqa: BLE001 -- the generated files are judged all the same
    res['note'] = 'select_minimal_tst cannot be called on its own: %s' % e
    json.dump(res, open(out, 'w'))
    sys.exit(0)


def footprint(flat, bs, rep):
    blocks = len({tuple(flat[i:i + bs]) for i in range(0, N, bs)})
    return (1 if blocks <= 256 else 2 if blocks <= 65536 else 4) * (N // bs) + blocks * bs * rep


def make():
    """values per code point: distinct stretches at chosen granularity and number"""
    kind = r.randrange(5)
    t = ['x'] * N
    if kind == 0:                                   # so many distinct blocks of one size: about the index limit, or few
        bs, k = r.choice(SIZES), r.choice([3, 20, 100, 200, 250, 254, 255, 256, 257, 300])
        at = r.sample(range(N // bs), min(k, N // bs))
        for j, i in enumerate(at):
            t[i * bs + j % bs] = 'a'
            t[i * bs + (j // bs * 7 + 3) % bs] = 'b'
    elif kind == 1:                                 # a period
        p = r.choice([64, 128, 256, 512, 192, 1024])
        unit = [r.choice('xab') for _ in range(p)]
        a = r.randrange(N // 512) * 512
        b = min(N, a + p * r.randrange(1, 800))
        t[a:b] = (unit * ((b - a) // p + 1))[:b - a]
    elif kind == 2:                                 # lone points
        for _ in range(r.choice([1, 30, 200, 1000])):
            t[r.randrange(r.choice([0x3000, 0x20000, N]))] = r.choice('abc')
    elif kind == 3:                                 # large blocks made of few small ones: the size rises, then falls again
        bs = r.choice([64, 64, 128])
        small = [[r.choice('xab') for _ in range(bs)] for _ in range(r.choice([5, 20, 40, 70]))]
        unit = sum((r.choice(small) for _ in range(r.choice([80, 120, 160, 200, 240, 280]) // (512 // bs) * (512 // bs))), [])
        b = min(N, len(unit) * r.choice([1, 2, 30, 80]))
        t[:b] = (unit * (b // len(unit) + 1))[:b]
    else:                                           # ranges
        c = 0
        while True:
            c += r.choice([1, 17, 64, 500, 4000, 60000])
            n = r.choice([1, 3, 64, 128, 512, 3000])
            if c + n >= N:
                break
            t[c:c + n] = [r.choice('abcd')] * n
            c += n
    return t


def runs(t):
    o, i = [], 0
    while i < N:
        j, v = i, t[i]
        while j < N and t[j] == v:
            j += 1
        if v != 'x':
            o.append((CodePointRange(i, j - 1), v))
        i = j
    return o


for k in range(cases):
    t = make()
    rep = r.choice([1, 1, 2, 4])
    case = 'text selection %d of seed %d, entries of %d' % (k, seed, rep)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            tst = select('P%d' % k, runs(t), rep, default_prop='x')
    except Exception as e:  # noqa: BLE001
        res['fails'].append((case, 'raised %s: %s' % (type(e).__name__, e)))
        continue
    fp = {b: footprint(t, b, rep) for b in SIZES}
    res['cases'] += 1
    res['distinct'] += len(set(fp.values())) == 4
    bs = tst.block_size
    res['chosen'][str(bs)] = res['chosen'].get(str(bs), 0) + 1
    if len(res['samples']) < 4:
        res['samples'].append(dict(case=case, block_size=bs, candidates=fp))
    if bs not in fp or fp[bs] != min(fp.values()):
        res['fails'].append((case, 'blocks of %d are chosen; the candidates take %s' % (bs, fp)))
json.dump(res, open(out, 'w'))

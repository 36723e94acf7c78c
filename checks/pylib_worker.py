"""Runs inside a Python process of its own, with the working tree's ucd-tool
directory first on sys.path: drives the real generator library on random data
and judges what it does against flat lookup; writes the table sources for the
Rust side of the check.   pylib_worker.py TOOLDIR SEED CASES TABLES OUTDIR"""
import json, os, random, sys

tooldir, seed, cases, tables, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
sys.path.insert(0, tooldir)
sys.dont_write_bytecode = True
from ucd.collections import CodePointRange, Missing, TwoStageTable  # noqa: E402

N = 0x110000
# the names of the values run into one another: a block must not be known by its joined text, its length or its set of values
VALS = ['A', 'B', 'AB', 'BA', 'AA', 'AAB', 'A_B', 'B1', 'B11']
r = random.Random(seed)
fails, samples, stats = [], [], {}


def fail(case, what):
    if len(fails) < 12:
        fails.append((case, what))


def seen(k, n=1):
    stats[k] = stats.get(k, 0) + n


# numbers the changed library mentions (checks/dictionary.py; none on the original tree)
NUMS = json.loads(os.environ.get('VMON_PYDICT', '{}')).get('nums', [])


def cp():
    k = r.randrange(5)
    if NUMS and r.random() < 0.15:
        return max(0, min(N - 1, r.choice(NUMS) + r.choice([-1, 0, 0, 1])))
    return [r.randrange(N), r.randrange(256), r.choice([0, 1, 0xFF, 0xFFFF, 0x10000, 0xFFFFF, 0x100000, N - 1, N - 2]), r.randrange(0x10000), min(N - 1, (1 << r.randrange(21)) + r.randrange(3))][k]


def guarded(case, f):
    try:
        return f()
    except Exception as e:  # noqa: BLE001
        fail(case, 'raised %s: %s' % (type(e).__name__, e))
        return None


# ------------------------------------------------------------------ ranges
def check_range(a, b):
    case = 'range %04X..%04X' % (a, b)
    if b < a:
        seen('ranges refused')
        try:
            CodePointRange(a, b)
            fail(case, 'a range that ends before it starts is accepted')
        except ValueError:
            pass
        try:
            CodePointRange.parse('%04X..%04X' % (a, b))
            fail(case, 'parse accepts a range that ends before it starts')
        except ValueError:
            pass
        return
    objs = [('range', CodePointRange(a, b)), ('parse', CodePointRange.parse('%04X..%04X' % (a, b))), ('parse lower case', CodePointRange.parse('%x..%x' % (a, b)))]
    if a == b:
        objs += [('one argument', CodePointRange(a)), ('parse single', CodePointRange.parse('%04X' % a))]
    for how, o in objs:
        seen('range objects')
        if (o.start, o.end) != (a, b):
            fail(case, '%s gives %X..%X' % (how, o.start, o.end))
        for c in {a, b, a - 1, b + 1, (a + b) // 2, cp(), cp(), 0, N - 1}:
            seen('membership answers')
            if (c in o) is not (a <= c <= b):
                fail(case, '%X in %s is %s' % (c, how, c in o))
        if b - a < 3000:
            for turn in range(2):
                if list(o) != list(range(a, b + 1)):
                    fail(case, 'iteration %d over %s does not list the range in order' % (turn + 1, how))
        else:
            it = iter(o)
            if [next(it) for _ in range(5)] != list(range(a, a + 5)):
                fail(case, 'iteration over %s starts wrongly' % how)
        p, q = CodePointRange.parse('%04X..%04X' % (a, b)), CodePointRange.parse('%04X..%04X' % (a, b))
        k = min(b - a + 1, 300)
        if [x for _, x in zip(range(k), zip(o, p, q))] != [(c, c, c) for c in range(a, a + k)]:
            fail(case, 'equal ranges iterated at once do not each list the range')
        q = CodePointRange.parse(repr(o))
        if (q.start, q.end) != (a, b):
            fail(case, 'repr %r parses to another range' % repr(o))
        if repr(o) != '%04X..%04X' % (a, b):
            fail(case, 'repr is %r' % repr(o))


def check_order():
    # disjoint ranges, in any order, sort by position
    pts = sorted({cp() for _ in range(r.randrange(2, 40))})
    rs, i = [], 0
    while i < len(pts):
        if r.random() < 0.5 or i + 1 == len(pts):
            rs.append((pts[i], pts[i]))
            i += 1
        else:
            rs.append((pts[i], pts[i + 1]))
            i += 2
    sh = [(CodePointRange(a, b), k) for k, (a, b) in enumerate(rs)]
    r.shuffle(sh)
    seen('sorts')
    got = [k for _, k in sorted(sh, key=lambda x: x[0])]
    if got != list(range(len(rs))):
        fail('sort %s' % rs, 'disjoint ranges do not sort by position: %s' % got)
    for _ in range(10):
        x, y = r.choice(sh), r.choice(sh)
        seen('comparisons')
        if bool(x[0] < y[0]) is not (x[1] < y[1]) or bool(x[0] > y[0]) is not (x[1] > y[1]):
            fail('compare %r %r' % (x[0], y[0]), 'disjoint ranges compare wrongly')
    # any two ranges: one is less exactly when it both starts and ends lower,
    # so nested ones and ones with a common end are not ordered
    for _ in range(30):
        a, b = sorted((cp(), cp()))
        c, d = sorted((r.choice([a, b, cp()]), r.choice([a, b, cp()])))
        if r.random() < 0.5:
            a, b, c, d = c, d, a, b
        x, y = CodePointRange(a, b), CodePointRange(c, d)
        seen('comparisons of any ranges')
        if bool(x < y) is not (a < c and b < d) or bool(x > y) is not (a > c and b > d):
            fail('compare %r %r' % (x, y), 'ranges compare wrongly: < is %r, > is %r' % (x < y, x > y))


# ----------------------------------------------------------------- missing
def make_missing(n):
    m, ref = Missing(), []
    for _ in range(n):
        a = cp()
        b = min(N - 1, a + r.choice([0, 1, 255, 4096, 0x20000]))
        v = r.choice(VALS)
        m.append(CodePointRange(a, b), v)
        ref.append((a, b, v))
    return m, ref


def ref_missing(ref, c):
    v = None
    for a, b, x in ref:
        if a <= c <= b:
            v = x
    return v


def check_missing():
    m, ref = make_missing(r.randrange(0, 12))
    for c in [cp() for _ in range(20)] + [x for a, b, _ in ref for x in (a, b, a - 1, b + 1)]:
        seen('defaults asked')
        if m.default_value_for(c) != ref_missing(ref, c):
            fail('missing %s' % ref, 'default for %X is %r, the last range that has it says %r' % (c, m.default_value_for(c), ref_missing(ref, c)))


# ------------------------------------------------------------------ tables
def runs(t):
    o, i = [], 0
    while i < len(t):
        j = i
        while j < len(t) and t[j] == t[i]:
            j += 1
        o.append((i, j - 1, t[i]))
        i = j
    return o


def make_data(n, values, full):
    pts = set()
    dense = r.random() < 0.4
    while len(pts) < n:
        c = cp()
        pts.add(c)
        if dense:
            for k in range(r.randrange(8)):
                pts.add(min(N - 1, c + k))
    if r.random() < 0.3:
        pts |= {0}
    if r.random() < 0.3:
        pts |= {N - 1}
    p, data, cur = sorted(pts), [], 0
    i = 0
    while i < len(p):
        if i + 1 < len(p) and r.random() < 0.5:
            a, b = p[i], p[i + 1] - (1 if r.random() < 0.3 else 0)
            i += 2 if b == p[i + 1] else 1
        else:
            a = b = p[i]
            i += 1
        if full and a > cur:
            data.append((cur, a - 1, r.choice(values)))
        data.append((a, b, r.choice(values)))
        cur = b + 1
    if full and cur < N:
        data.append((cur, N - 1, r.choice(values)))
    return data


BLOCKS = [16, 32, 64, 64, 128, 128, 256, 256, 512, 512, 1024, 4096, 0x10000, 17 * 16, 17 * 256, 34, 68]
BLOCKS += [b for n in NUMS for b in (n, 2 * n, n // 2) if 16 <= b <= 0x10000 and N % b == 0]


# where the first range begins and the last one ends, of what is left of the data between
EDGES = [(None, N - 2), (0, N - 1), (1, N - 3), (0, N - 2), ('bs', '-bs'), ('bs-1', '-bs-1'), ('bs+1', '-bs+1'), (None, N - 1), (0, '-bs'), ('gap', N - 2)]


def edge(data, e, bs, values):
    lo, hi = [{'bs': bs, 'bs-1': bs - 1, 'bs+1': bs + 1, '-bs': N - bs - 1, '-bs-1': N - bs - 2, '-bs+1': N - bs}.get(x, x) for x in e]
    gap = lo == 'gap'
    lo = None if gap else lo
    data = [d for d in data if (lo is None or d[0] > lo + 40) and d[1] < hi - 40]
    if gap:
        # one code point missing between neighbours, at the start of a block, at its end
        c = bs * r.randrange(1, N // bs - 1)
        for c in (c, c + bs - 1, c + bs // 2):
            if c + 3 < hi - 40 and not any(a <= c + 1 and c - 1 <= b for a, b, v in data):
                data += [(c - 1, c - 1, r.choice(values)), (c + 1, c + 1, r.choice(values))] if bs > 8 else []
        data.sort()
    if lo is not None:
        data.insert(0, (lo, lo + r.choice([0, 1, 30]), r.choice(values)))
    data.append((hi - r.choice([0, 1, 30]), hi, r.choice(values)))
    seen('chosen edges')
    return data


def flat(data, default, ref_miss):
    t = [default] * N
    for a, b, v in ref_miss:
        t[a:b + 1] = [v] * (b - a + 1)
    for a, b, v in data:
        t[a:b + 1] = [v] * (b - a + 1)
    return t


def observe(tst, k, prefix, use, boolean, t, case, repr_size):
    """the table's size claim; the text goes to the Rust side"""
    bs = tst.block_size
    uniq = len({tuple(t[i:i + bs]) for i in range(0, N, bs)})
    width = 1 if uniq <= 256 else 2 if uniq <= 65536 else 4
    want = width * (N // bs) + uniq * bs * repr_size
    got = tst.table_bytes(repr_size)
    if got != want:
        fail(case, 'table_bytes(%d) is %r; %d stage-1 entries of %d bytes and %d distinct blocks of %d values take %d' % (repr_size, got, N // bs, width, uniq, bs, want))
    seen('index of %d byte' % width)
    return tst.to_seshat(prefix=prefix, use=use, boolean=boolean)


groups, expect, made = [], [], 0
for k in range(tables):
    kind = r.choice(['make', 'make', 'make', 'chars', 'exact'])
    boolean = r.random() < 0.35
    vals = ['true', 'false'] if boolean else VALS
    default = 'false' if boolean else r.choice(VALS)
    bs = r.choice(BLOCKS)
    rep = r.choice([1, 1, 2, 4])
    name = 'p%d' % k if boolean else 'P%d' % k
    miss = None
    ref_miss = []
    if kind == 'make':
        n = r.choice([0, 1, 2, 20, 300, 1500] + [n + d for n in NUMS if n <= 3000 for d in (0, 1)])
        data = make_data(n, vals, r.random() < 0.3) if n else []
        if made < 3 * len(EDGES) or r.random() < 0.3:
            data = edge(data, EDGES[made % len(EDGES)], bs, vals)
        made += 1
        if not boolean and r.random() < 0.5:
            miss, ref_miss = make_missing(r.randrange(1, 8))
        t = flat(data, default, ref_miss)
        case = 'table %d of seed %d: make(%s, %d ranges, %d, default %s, %d missing)' % (k, seed, name, len(data), bs, default, len(ref_miss))
        pairs = [(CodePointRange(a, b), v) for a, b, v in data]
        d = default
        if not ref_miss and data and data[0][0] == 0 and all(data[i][1] + 1 == data[i + 1][0] for i in range(len(data) - 1)) and data[-1][1] == N - 1 and r.random() < 0.5:
            tst = guarded(case, lambda: TwoStageTable.make(name, pairs, bs))   # nothing is missing: no default needed
        elif miss is not None:
            tst = guarded(case, lambda: TwoStageTable.make(name, pairs, bs, d, miss) if r.random() < 0.5 else TwoStageTable.make(name, pairs, bs, default_prop=d, missing=miss))
        else:
            tst = guarded(case, lambda: TwoStageTable.make(name, pairs, bs, default_prop=d))
    else:
        # a chosen number of distinct blocks, around the index width's limit
        if kind == 'exact':
            bs = r.choice([16, 32, 64, 128, 256, 512])
            uniq = r.choice([1, 2, 255, 256, 257, 300] + [n + d for n in NUMS if 3 <= n <= 2000 for d in (0, 1)])
        else:
            uniq = r.randrange(1, 60)
        nb = N // bs
        pool = set()
        while len(pool) < min(uniq, nb):
            pool.add(tuple(r.choice(vals) for _ in range(bs)) if bs <= 4096 else tuple(r.choices(vals, k=bs)))
        # blocks that differ in little: joined to the same text, of the same values in another order, in one place only
        for p in r.sample(sorted(pool), min(len(pool), 6)):
            if len(pool) + 3 > nb or kind == 'exact':
                break
            q = list(p)
            i = r.randrange(bs - 2)
            how = r.randrange(4)
            if how == 0:
                q[i], q[-1] = q[-1], q[i]
            elif how == 1:
                q[r.choice([0, bs - 1, i])] = r.choice(vals)
            elif how == 2 and not boolean:
                q[i:i + 3] = ['A', 'B', 'AA']
                pool.add(tuple(q))
                q[i:i + 3] = ['AB', 'A', 'A']
            elif not boolean:
                q[i:i + 2] = ['AB', 'A']
                pool.add(tuple(q))
                q[i:i + 2] = ['A', 'BA']
            pool.add(tuple(q))
        seen('blocks that differ in little')
        pool = sorted(pool)
        order = list(range(len(pool))) + [r.randrange(len(pool)) for _ in range(nb - len(pool))]
        if r.random() < 0.7:
            r.shuffle(order)
        t = [v for i in order for v in pool[i]]
        case = 'table %d of seed %d: %d distinct blocks of %d' % (k, seed, len(pool), bs)
        tst = TwoStageTable(name, bs)
        # its size may be asked at any time, and other tables be filled meanwhile
        asks = {bs * b for b in [1, 2, 255, 256, 257, 300] + [r.randrange(1, nb) for _ in range(4)] if b < nb} if r.random() < 0.6 else set()
        other = TwoStageTable('Other', 2) if asks and r.random() < 0.5 else None
        def feed():
            done = set()
            for c, v in enumerate(t):
                if c in asks:
                    done.update(tuple(t[i:i + bs]) for i in range(0, c, bs))
                    w = 1 if len(done) <= 256 else 2 if len(done) <= 65536 else 4
                    want, got = w * (c // bs) + len(done) * bs * rep, tst.table_bytes(rep)
                    seen('sizes of unfinished tables')
                    if got != want:
                        fail(case, 'after %d blocks (%d distinct) table_bytes(%d) is %r, not %d' % (c // bs, len(done), rep, got, want))
                if other is not None and c % 4099 == 0:
                    other.add_char(c // 4099, v)
                tst.add_char(c, v)
            return True
        if not guarded(case, feed):
            tst = None
    if tst is None:
        continue
    if tst.block_size != bs or tst.prop != name:
        fail(case, 'the table says block size %r, property %r' % (tst.block_size, tst.prop))
    seen('tables')
    seen('tables by %s' % ('ranges' if kind == 'make' else 'characters'))
    # alone in a module, or after another table of the same module
    joined = boolean and groups and groups[-1]['boolean'] and r.random() < 0.6
    prefix = bool(joined) or r.random() < 0.3
    if joined and not groups[-1]['prefix']:
        joined = False
    src = guarded(case, lambda: observe(tst, k, prefix, not joined, boolean, t, case, rep))
    if src is None:
        continue
    if joined:
        groups[-1]['src'] += '\n' + src
        seen('tables that share a module')
    else:
        groups.append({'boolean': boolean, 'prefix': prefix, 'src': src})
    expect.append({'module': len(groups) - 1, 'fn': name.lower(), 'enum': None if boolean else name, 'case': case, 'runs': runs(t)})
    if len(samples) < 8:
        samples.append(case)

for i in range(cases):
    a, b = cp(), cp()
    if r.random() < 0.6:
        b = min(N - 1, a + r.choice([0, 0, 1, 7, 255, 2000]))
    case = 'range %04X..%04X' % (a, b)
    guarded(case, lambda: check_range(a, b))
    guarded('ordering', check_order)
    guarded('missing', check_missing)
for i, g in enumerate(groups):
    open(os.path.join(out, 't%d.rs' % i), 'w').write(g['src'])
json.dump({'fails': fails, 'samples': samples, 'stats': stats, 'modules': len(groups), 'tables': expect, 'vals': VALS}, open(os.path.join(out, 'lib.json'), 'w'))

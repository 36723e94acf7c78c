"""Checks whose monitors run inside vmon: plain, sanitized and interpreted."""
import concurrent.futures as cf
import os
import re

import vlib
from vlib import Inconclusive, log

SIMPLE_ASSUME = {
    'tables': 'the pinned Unicode 15.1.0 tables in oracle/tables.txt are right (the UCD files of the base commit and ICU 74.2 agree on every value)',
    'norm': 'the reference normaliser implements UAX #15 (it agrees with ICU 74.2 on 300,000 generated strings)',
    'seg': 'the reference segmenter implements UAX #29 revision 43 (it agrees with ICU 74.2 on 300,000 generated strings)',
}


def secs(ctx):
    return 2400 if ctx.thorough else 300


def simple(ctx, *assume):
    ctx.assumptions += [SIMPLE_ASSUME[a] for a in assume]
    b = vlib.build('checked')
    vlib.vmon(ctx, b, ctx.id, 'checked build', secs(ctx))
    ctx.extra['exhaustive_over'] = ctx.stages[-1].get('exhaustive_over', '') if ctx.stages else ''


def both_profiles(ctx, *assume):
    simple(ctx, *assume)
    if not ctx.viols:
        p = vlib.build('plain')
        vlib.vmon(ctx, p, ctx.id, 'plain release build', secs(ctx))


def c41(ctx):
    ctx.assumptions.append('the limits are 64 KB for any call and 16 KB of growth over a text of 30 units')
    simple(ctx)
    if not ctx.viols:
        # as a debug build has it: frames of their own, no tail calls
        vlib.vmon(ctx, vlib.build('unopt'), ctx.id, 'unoptimised crate', secs(ctx))


def other_worlds(ctx, binary, want, n):
    """The same probes asked by processes that differ in everything but the
    question: environment, locale, clock, directory, streams, layout, history."""
    shim = os.path.join(ctx.scratch, 'shim.so')
    rc, o, e = vlib.run(['gcc', '-O1', '-shared', '-fPIC', '-o', shim, os.path.join(vlib.HERE, 'checks', 'shim.c'), '-ldl'], 60)
    if rc != 0:
        raise Inconclusive('the shim does not compile: ' + e[-500:])
    lg = os.path.join(ctx.scratch, 'shim.log')
    loc = {k: 'tr_TR.UTF-8' for k in ('LANG', 'LC_ALL', 'LC_CTYPE')}
    worlds = [
        ('empty environment, root directory', ['env', '-i', binary], {}, '/'),
        ('Turkish locale, other time zone, large stack limit', ['sh', '-c', 'ulimit -s 65536; exec "$0" "$@"', binary], dict(loc, TZ='Pacific/Kiritimati', HOME='/nonexistent', USER='nobody', TMPDIR='/nonexistent', DEBUG='1', CI='1'), ctx.scratch),
        ('every variable set, clocks far ahead', [binary], {'LD_PRELOAD': shim, 'SHIM_VALUE': '1', 'SHIM_LOG': lg}, ctx.scratch),
        ('every variable 0, clocks far ahead, another machine', [binary], {'LD_PRELOAD': shim, 'SHIM_VALUE': '0', 'SHIM_MACHINE': '1', 'SHIM_LOG': lg}, ctx.scratch),
        ('no standard input, other allocator behaviour', ['sh', '-c', 'exec "$0" "$@" <&-', binary], {'MALLOC_PERTURB_': '165', 'MALLOC_ARENA_MAX': '1', 'MALLOC_TOP_PAD_': '77777'}, '/'),
    ]
    asked = set()
    done = 0

    def one(w):
        return vlib.run(w[1] + ['ref', str(n), '--seed', str(ctx.seed)], 600, env=w[2], cwd=w[3])

    with cf.ThreadPoolExecutor(5) as ex:
        res = list(ex.map(one, worlds))
    for w, (rc, o, e) in zip(worlds, res):
        if rc != 0:
            raise Inconclusive('a reference run (%s) ended: %s' % (w[0], vlib.died(rc)))
        got = o.split()
        bad = [i for i, (x, y) in enumerate(zip(want, got)) if x != y]
        if len(got) != len(want):
            raise Inconclusive('a reference run (%s) was cut short' % w[0])
        done += len(got)
        for i in bad[:2]:
            ctx.violation('probe %d of seed %d' % (i, ctx.seed), 'the answer depends on the process it is asked in (%s): %s there, %s elsewhere' % (w[0], got[i], want[i]), 'other worlds',
                          how='vmon ref %d --seed %d, last line, in a process with: %s' % (i + 1, ctx.seed, w[0]))
        if os.path.exists(lg):
            asked |= {l.split()[1] for l in open(lg) if l.startswith('getenv')}
            os.unlink(lg)
    ctx.count(done, 0)
    ctx.stage('other environments, clocks, directories and allocators', evaluations=done, worlds=[w[0] for w in worlds], environment_names_asked=sorted(asked))


def c29(ctx):
    with cf.ThreadPoolExecutor(3) as ex:
        f1, f2 = ex.submit(vlib.build, 'checked'), ex.submit(vlib.build, 'plain', None, None, None, os.path.join(vlib.harness_dir(vlib.REPO), 'target-plain'))
        f3 = ex.submit(vlib.build, 'checked', None, 'thread')
        checked, plain, tsan = f1.result(), f2.result(), f3.result()
    vlib.vmon(ctx, checked, 'C29', 'histories and threads, checked build', secs(ctx))
    if ctx.viols:
        return
    # the same probes, one quiet thread, two build profiles
    n = 400000 if ctx.thorough else 60000
    outs = []
    for b in (checked, plain):
        rc, o, e = vlib.run([b, 'ref', str(n), '--seed', str(ctx.seed)], 600)
        if rc != 0:
            raise Inconclusive('reference run ended: ' + vlib.died(rc))
        outs.append(o.split())
    bad = [i for i, (x, y) in enumerate(zip(*outs)) if x != y]
    ctx.count(n, 0)
    ctx.stage('checked build against plain release build', evaluations=n, disagreements=len(bad))
    for i in bad[:4]:
        ctx.violation('probe %d of seed %d' % (i, ctx.seed), 'the answer depends on the build profile: %s with debug assertions and overflow checks, %s without' % (outs[0][i], outs[1][i]), 'profiles', how='vmon ref %d --seed %d' % (i + 1, ctx.seed))
    other_worlds(ctx, checked, outs[0], n)
    # data races
    rounds = 12 if ctx.thorough else 3
    total = wins = 0
    for k, threads in enumerate([8, 3, 16] if ctx.thorough else [8, 3]):
        rc, o, e = vlib.run([tsan, 'probe', str(threads), '3000', str(rounds), '--seed', str(ctx.seed + 100 * k)], 600,
                            env={'TSAN_OPTIONS': 'halt_on_error=0 exitcode=66 history_size=4'}, mem_gb=None)
        m = re.search(r'PROBED answers=(\d+) interleaving_windows=(\d+) mismatches=(\d+)', o)
        reports = re.findall(r'WARNING: ThreadSanitizer: ([^\n]*)', e)
        if reports:
            frames = re.findall(r'#\d+ (\S*seshat\S*)', e)
            ctx.violation('probe %d 3000 %d --seed %d' % (threads, rounds, ctx.seed + 100 * k), 'ThreadSanitizer: %s in %s (%d reports)' % (reports[0], ', '.join(dict.fromkeys(frames[:6])), len(reports)), 'ThreadSanitizer')
        for l in o.splitlines():
            if l.startswith('MISMATCH'):
                ctx.violation(l[9:].split(' :: ')[0], 'answers differ between threads under ThreadSanitizer', 'ThreadSanitizer')
        if not m and not reports and not ctx.viols:
            raise Inconclusive('the ThreadSanitizer run ended: %s\n%s' % (vlib.died(rc), e[-2000:]))
        if m:
            total += int(m.group(1))
            wins += int(m.group(2))
    ctx.count(total, 0)
    ctx.stage('ThreadSanitizer (std rebuilt instrumented)', answers=total, distinct_interleaving_windows=wins)
    ctx.assumptions += ['scheduling is the operating system\'s; interleavings are those observed, counted as distinct windows of six consecutive answers']


def c30(ctx):
    ctx.assumptions += ['a clean sanitizer run is not a proof of memory safety; Miri sees only the sampled calls',
                        'the crate has no unsafe code of its own today: the check decides that what it calls stays sound']
    pool = cf.ThreadPoolExecutor(3)
    f1 = pool.submit(vlib.build, 'checked')
    fa, fm = pool.submit(vlib.build, 'checked', None, 'address'), pool.submit(vlib.build, 'checked', None, 'memory')
    checked = f1.result()
    try:
        vlib.vmon(ctx, checked, 'C30', 'checked build (UB precondition checks on)', secs(ctx))
    finally:
        if ctx.viols:
            pool.shutdown(wait=True)
    if ctx.viols:
        return
    asan, msan = fa.result(), fm.result()
    # Miri: the first process also builds (and caches) the interpreted crate
    procs = 8 if ctx.thorough else 7
    rounds = 6 if ctx.thorough else 1
    n = 30
    h = vlib.harness_dir(vlib.REPO)
    env = dict(vlib.cargo_env(vlib.REPO), MIRIFLAGS='-Zmiri-disable-isolation', CARGO_TARGET_DIR=os.path.join(h, 'target-miri'))

    def miri(args, timeout):
        return vlib.run(['cargo', '+nightly', 'miri', 'run', '--offline', '--locked', '--quiet', '--'] + args, timeout, env=env, cwd=h, mem_gb=None)

    cases = observed = unfinished = 0

    def judge(args, res):
        nonlocal cases, observed, unfinished
        rc, o, e = res
        m = re.search(r'SAFE cases=(\d+) observed=(\d+)', o)
        if m:
            cases += int(m.group(1))
            observed += int(m.group(2))
        m2 = re.search(r'PROBED answers=(\d+)', o)
        if m2:
            cases += int(m2.group(1))
            observed += int(m2.group(1))
        ub = re.search(r'error: (Undefined Behavior: [^\n]*|memory leaked[^\n]*|Data race[^\n]*)', e)
        for l in o.splitlines():
            if l.startswith('FAIL '):
                ctx.violation(l[5:].split(' :: ')[0], l.split(' :: ', 1)[1], 'Miri')
        if ub:
            where = re.findall(r'--> (\S+)', e)
            ctx.violation(' '.join(args), 'Miri: %s at %s' % (ub.group(1)[:300], ', '.join(where[:2])), 'Miri')
        elif rc is None:
            unfinished += 1
        elif not m and not m2:
            raise Inconclusive('the Miri run ended: %s\n%s' % (vlib.died(rc), e[-2000:]))

    first = ['safe', '2', '1000000', '--seed', str(ctx.seed)]
    judge(first, miri(first, 600))
    jobs = [['probe', '3', '8', '1', '--seed', str(ctx.seed)]]
    for k in range(procs * rounds):
        jobs.append(['safe', str(n), '60000', '--seed', str(ctx.seed * 1000 + k)])
    # the sanitizers and Miri share the machine
    def sanitized(binary, stage, env):
        vlib.vmon(ctx, binary, 'C30', stage, 900 if ctx.thorough else 150, mem_gb=None, env=env, threads=3, slice=25 if ctx.thorough else 3)

    with cf.ThreadPoolExecutor(8) as ex, cf.ThreadPoolExecutor(2) as ex2:
        fs = [ex2.submit(sanitized, asan, 'AddressSanitizer build', {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=0'}),
              ex2.submit(sanitized, msan, 'MemorySanitizer build (std rebuilt instrumented)', {'MSAN_OPTIONS': 'abort_on_error=1'})]
        fa = [ex.submit(miri, j, 300) for j in jobs]
        for f in fs:
            f.result()
        for j, f in zip(jobs, fa):
            judge(j, f.result())
    ctx.count(cases, cases)
    ctx.stage('Miri', cases=cases, observations=observed, processes=len(jobs) + 1, unfinished_processes=unfinished)
    if cases < 40:
        raise Inconclusive('Miri finished only %d cases' % cases)


CHECKS = {
    'C01': lambda c: both_profiles(c),
    'C04': lambda c: simple(c, 'tables'),
    'C16': lambda c: simple(c),
    'C17': lambda c: simple(c, 'tables'),
    'C18': lambda c: simple(c),
    'C19': lambda c: simple(c),
    'C20': lambda c: both_profiles(c),
    'C21': lambda c: simple(c, 'tables', 'norm'),
    'C22': lambda c: simple(c, 'tables', 'norm'),
    'C23': lambda c: simple(c, 'tables'),
    'C24': lambda c: simple(c, 'tables'),
    'C25': lambda c: simple(c),
    'C26': lambda c: simple(c, 'tables', 'seg'),
    'C27': lambda c: simple(c),
    'C28': lambda c: simple(c),
    'C29': c29,
    'C30': c30,
    'C36': lambda c: simple(c),
    'C37': lambda c: simple(c),
    'C41': lambda c: c41(c),
}
for _i in (2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15):
    CHECKS['C%02d' % _i] = lambda c: simple(c, 'tables')

"""C40: the same questions asked of the crate compiled for other machines --
32-bit (wasm32, run by node) and big-endian (s390x, run by Miri) -- and for
this one; every answer must be the same."""
import concurrent.futures as cf
import os
import re
import shutil

import vlib
from vlib import Inconclusive
from checks.tools import tail

KINDS = {0: 'every code point', 1: 'sampled code points', 2: 'texts', 3: 'two-stage tables', 4: 'constructor and versions', 5: 'names of values', 6: 'short texts, mostly ASCII', 7: 'long texts'}


def c40(ctx):
    ctx.rule = 'one case = one numbered question (a code point with all its properties, names, forms and clusters; a text; a table; arguments of the constructor; the names of an enum) whose answers on another target are compared by digest with the native ones; non-trivial = all'
    ctx.assumptions += ['wasm32 (node) stands for 32-bit targets, s390x (Miri) for big-endian ones']
    src = os.path.join(ctx.scratch, 'p', 'port')
    shutil.copytree(os.path.join(vlib.HERE, 'port'), src, ignore=shutil.ignore_patterns('target*'))
    shutil.copytree(os.path.join(vlib.HERE, 'harness', 'src'), os.path.join(ctx.scratch, 'p', 'harness', 'src'))
    t = open(src + '/Cargo.toml').read()
    open(src + '/Cargo.toml', 'w').write(t.replace('path = "/repo"', 'path = "%s"' % vlib.REPO))
    env = dict(vlib.cargo_env(vlib.REPO), CARGO_TARGET_DIR=os.path.join(ctx.scratch, 'target'))

    env0 = dict(env)

    def cargo(args, secs, what, e=env):
        rc, o, err = vlib.run(['cargo'] + args, secs, env=e, cwd=src, mem_gb=None)
        if rc != 0 and 'could not compile `seshat' in err and e is not env0:
            # it does for this machine
            errs = re.findall(r'^error[^\n]*\n(?:\s*-->[^\n]*)?', err, re.M)
            ctx.violation('text ' + what, 'the crate does not compile for another target: ' + '; '.join(x.replace('\n', ' ') for x in errs[:3]), 'build')
            raise Inconclusive('nothing to ask')
        if rc != 0:
            raise Inconclusive('%s failed:\n%s' % (what, tail(o + err, 40)))
        return o

    cargo(['build', '--offline', '--locked', '--quiet', '--profile', 'checked'], 600, 'building for this machine', env0)
    native = [os.path.join(ctx.scratch, 'target', 'checked', 'port')]
    # std for wasm32 wants the crates vendored with the toolchain's sources
    rc, root, err = vlib.run(['rustc', '+nightly', '--print', 'sysroot'], 60)
    std = os.path.join(root.strip(), 'lib/rustlib/src/rust/library/vendor')
    vend = os.path.join(ctx.scratch, 'vendor')
    cargo(['vendor', '--offline', '--locked', '--quiet', vend], 120, 'vendoring', env0)
    for d in os.listdir(std):
        if not os.path.exists(os.path.join(vend, d)):
            os.symlink(os.path.join(std, d), os.path.join(vend, d))
    with cf.ThreadPoolExecutor(1) as ex:
        # the interpreter builds its own std meanwhile
        menv = dict(env, CARGO_TARGET_DIR=os.path.join(ctx.scratch, 'target-miri'), MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-alignment-check')   # only answers count here; C30 looks for UB
        mcmd = ['+nightly', 'miri', 'run', '--offline', '--locked', '--quiet', '--target', 's390x-unknown-linux-gnu', '--bin', 'port', '--']
        big = ex.submit(cargo, mcmd + ['target'], 800, 'running under Miri for s390x', menv)
        cargo(['+nightly', 'build', '--offline', '--locked', '--quiet', '--profile', 'checked', '--lib', '-Zbuild-std=std,panic_abort', '--target', 'wasm32-unknown-unknown',
               '--config', 'source.crates-io.replace-with="v"', '--config', 'source.v.directory="%s"' % vend], 800, 'building for wasm32')
        if 'big endian' not in big.result():
            raise Inconclusive('the Miri target is not big-endian: ' + big.result())
    wasm = ['node', '--stack-size=3000', os.path.join(src, 'run.js'), os.path.join(ctx.scratch, 'target', 'wasm32-unknown-unknown', 'checked', 'port.wasm')]
    rc, o, err = vlib.run(wasm + ['target'], 120, mem_gb=None)
    if '32 bits' not in o:
        raise Inconclusive('the wasm target is not 32-bit: ' + o + err)

    def ask(cmd, args, secs, e=None):
        rc, o, err = vlib.run(cmd + [str(a) for a in args], secs, env=e, cwd=src, mem_gb=None)
        return rc, o, err

    def lines(o):
        return dict(l.split(' ') for l in o.splitlines() if re.match(r'\d+ (died|[0-9a-f]{16})$', l))

    def compare(target, cmd, e, kind, seed, a, b, step, secs):
        """-> questions compared, answers, list of (case, what)"""
        args = ['digest', kind, seed, a, b, step]
        rc0, o0, e0 = ask(native, args, 600)
        if rc0 != 0:
            raise Inconclusive('native %s: %s %s' % (args, vlib.died(rc0), tail(e0)))
        rc, o, err = ask(cmd, args, secs, e)
        want, got = lines(o0), lines(o)
        if rc is None:
            got.popitem() if got else None
        elif 'Undefined Behavior' in err:
            return 0, 0, [('text %s %s' % (target, KINDS[kind]), 'Miri: ' + tail(err, 3))]
        elif rc != 0:
            raise Inconclusive('%s %s: %s %s' % (target, args, vlib.died(rc), tail(err)))
        bad = []
        for i in got:
            if got[i] == want[i]:
                continue
            if step > 1:
                k = compare(target, cmd, e, kind, seed, int(i), min(b, int(i) + step), 1, secs)
                bad += k[2]
            else:
                d0, d1 = ask(native, ['describe', kind, seed, i], 120)[1], ask(cmd, ['describe', kind, seed, i], 300, e)[1]
                q, d0 = d0.split('\n', 1)
                if cmd is not wasm:
                    d1 = d1.split('\n', 1)[-1]
                x = next(((p, y) for p, y in zip(d0.splitlines(), d1.splitlines()) if p != y), (want[i], got[i]))
                bad.append((q, 'on %s the answer is %s, here %s' % (target, x[1][:200], x[0][:200])))
            if len(bad) > 3:
                break
        m = re.search(r'ANSWERS (\d+)', o0)
        return len(got) * step, int(m.group(1)), bad

    T = ctx.thorough
    seed = ctx.seed
    jobs = [('wasm32', wasm, None, 0, seed, a, a + 0x11000, 256, 600) for a in range(0, 0x110000, 0x11000)]
    jobs += [('wasm32', wasm, None, 2, seed + k, 0, 8000, 40, 600) for k in range(40 if T else 8)]
    jobs += [('wasm32', wasm, None, 3, seed + k, 0, 200, 1, 600) for k in range(10 if T else 2)]
    jobs += [('wasm32', wasm, None, 6, seed, 0, 200000, 100, 600)]
    jobs += [('wasm32', wasm, None, 7, seed, a, a + 17, 1, 600) for a in range(0, 2040 if T else 136, 17)]
    jobs += [('wasm32', wasm, None, 4, seed, 0, 50000, 500, 600), ('wasm32', wasm, None, 5, seed, 0, 12, 1, 600)]
    mjobs = []
    for k in range(4):
        s = seed * 1000 + k
        mjobs.append(('s390x', 1, s, 0, 1200 if T else 110, 1))
        mjobs.append(('s390x', 6, s, 0, 1200 if T else 130, 1))
        mjobs.append(('s390x', 2, s, 0, 240 if T else 15, 1))
    mjobs += [('s390x', 5, seed, 0, 12, 1), ('s390x', 4, seed, 0, 200, 10), ('s390x', 3, seed, 0, 60, 1)]
    miri = ['cargo'] + mcmd
    jobs += [(t, miri, menv, k, s, a, b, st, 800 if T else 220) for t, k, s, a, b, st in mjobs]
    with cf.ThreadPoolExecutor(8) as ex:
        # the slow ones first
        fs = [(j, ex.submit(compare, *j)) for j in reversed(jobs)]
        seen = {}
        for j, f in fs:
            n, answers, bad = f.result()
            for c, w in bad[:4]:
                ctx.violation(c, w, j[0], how='VERIF_SEED=%d python3 run.py C40 %s' % (ctx.seed, ctx.tier))
            k = (j[0], KINDS[j[3]])
            x = seen.setdefault(k, [0, 0])
            x[0] += n
            x[1] += answers
            if len(ctx.samples) < 20 and n:
                ctx.samples.append(dict(stage=j[0], case='%s %d..%d of seed %d: %d compared' % (KINDS[j[3]], j[5], j[6], j[4], n)))
    for (t, k), (n, answers) in seen.items():
        ctx.stage('%s: %s' % (t, k), questions=n, native_answers=answers)
        ctx.count(n, n)
        if n == 0:
            raise Inconclusive('no question answered on %s: %s' % (t, k))


CHECKS = {'C40': c40}

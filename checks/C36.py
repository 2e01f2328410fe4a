"""Histories of calls are repeated and the memory the allocator reports in use is measured after every round."""
import fcntl, os, subprocess
import numpy as np
from hypothesis import strategies as st
from vf import anycall, build, sir
from vf.core import Check, Sub, fail
from checks import C30

WARM, REPS, ROUNDS, BYTES = 20, 40, 4, 24        # the smallest block the allocator hands out has 32 bytes
ENV = {'GLIBC_TUNABLES': 'glibc.malloc.arena_max=1:glibc.malloc.tcache_count=0'}        # no per-thread pools
ERR = 400                      # Octave itself leaks about 112 bytes for every error caught


@st.composite
def hist(draw, lang):
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 3)) == 0:
            ops.append(dict(draw(C30.case(lang)), bad=1))
        else:
            ops.append(dict(s=draw(anycall.spec((lang,), small=True)), bad=0))
    return dict(lang=lang, ops=ops, threads=draw(st.sampled_from(sir.THREADS)))


def calls(c):
    for o in c['ops']:
        if o['bad']:
            mod, fn, args, nout, env = C30.mutate(o['s'], o['mut'], o['q'])
            nout = nout if o['nout'] is None else 0
        else:
            mod, fn, args, nout, env = anycall.call_of(o['s'])
        yield mod, fn, args, nout, env


def mem_path(ctx):
    d = os.path.join(ctx.dir(), 'vf-mem')
    os.makedirs(d, exist_ok=True)
    with open(d + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(d + '/vf_mem.oct'):
            subprocess.run(['mkoctfile', '-o', d + '/tmp.oct', os.path.join(build.VERIF, 'lib', 'vf_mem.cc')], check=True, capture_output=True, cwd=d, env=build.env())
            os.rename(d + '/tmp.oct', d + '/vf_mem.oct')
    return d


def measure(c, ctx, REPS, ROUNDS):
    cs = list(calls(c))
    if c['lang'] == 'py':
        return ctx.py(env=ENV, key='mem').leak([(m, f, list(a), {'DREAM_NUM_THREADS': c['threads']}) for m, f, a, n, e in cs], WARM, REPS, ROUNDS) + (0,)
    L = np.empty((1, len(cs)), dtype=object)
    for i, (m, f, a, n, e) in enumerate(cs):
        A = np.empty((1, len(a)), dtype=object)
        for j, x in enumerate(a):
            A[0, j] = x.reshape(-1, 1) if isinstance(x, np.ndarray) and x.ndim == 1 else x
        Y = n if isinstance(n, np.ndarray) else np.zeros((0, 0))
        L[0, i] = dict(fn=f, args=A, nout=0.0 if isinstance(n, np.ndarray) else float(n), thr=c['threads'] or '', Y=Y)
    o = ctx.oct(env=ENV, key='mem', path=[mem_path(ctx)]).call('vf_leak', [L, float(WARM), float(REPS), float(ROUNDS)], 3)
    if o.exc:
        raise RuntimeError(o.exc)
    return o.out[0].ravel().tolist(), o.out[1].ravel().tolist(), float(o.out[2].ravel()[0])


def run(c, ctx):
    for reps, rounds in ((REPS, ROUNDS), (5 * REPS, ROUNDS + 2)):      # growth must continue when calls are repeated more
        mem, thr, bad = measure(c, ctx, reps, rounds)
        d = np.diff(mem)
        leak = (d >= BYTES * reps + ERR * bad).all()
        many = np.all(np.diff(thr) > 0)
        if not leak and not many:
            break
    if leak:
        fail('the memory in use grows by %s bytes in rounds of %d calls of each of %s', d.astype(int).tolist(), reps, ', '.join(name(o) for o in c['ops']))
    if many:
        fail('the number of threads grows: %s', thr)
    return '%s/%s' % (c['lang'], '+'.join(sorted(set(name(o).split(':')[0] for o in c['ops'])))), True


def name(o):
    return anycall.name(o['s']) + (': ' + C30.name_of(o['s'], o['mut']) if o['bad'] else '')


CHECK = Check('C36', 'Histories of 1 to 4 calls (every function, valid or malformed) repeated %d times in one process after %d warm-up repetitions, in %d rounds; after each round '
              'the bytes in use by the allocator (mallinfo2) and the threads of the process are counted. Growth of at least %d bytes per repetition in every round is a leak; so is a growing '
              'number of threads. Every executed history is non-trivial.' % (REPS * ROUNDS, WARM, ROUNDS, BYTES), {'main': anycall.targets()},
              [Sub('python', hist('py'), run, 300), Sub('octave', hist('oct'), run, 300)])

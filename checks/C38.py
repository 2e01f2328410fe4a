"""The MATLAB gateways, built as MEX files of Octave, against the Octave functions."""
import numpy as np
from hypothesis import strategies as st
from vf import anycall, cl
from vf.core import Check, Sub, fail
from checks import C30, C34

NO = ('add_p',)                          # there is no MEX gateway


@st.composite
def case(draw):
    s = draw(anycall.spec(('oct',), small=False))
    while s['c'].get('fn') in NO:
        s = draw(anycall.spec(('oct',), small=False))
    return s


def mex(ctx):
    return ctx.oct('gw')


def both(s, ctx):
    a = anycall.call(s, ctx)
    b = anycall.call(s, ctx, w=mex(ctx))
    if b.mutated:
        fail('%s: arguments %s were modified', anycall.name(s), b.mutated)
    d = anycall.same(s, b, a)
    if d:
        fail('%s: MEX / Octave: %s', anycall.name(s), d)
    if s['f'] != 'conv' and not a.exc and bool(a.text.strip()) != bool(b.text.strip()):
        fail('%s: MEX printed %r, Octave %r', anycall.name(s), b.text[:200], a.text[:200])
    return a


def run(s, ctx):
    a = both(s, ctx)
    return anycall.name(s) + ('/error' if a.exc else ''), bool(a.exc) or any(np.any(x) for x in a.arrays)


@st.composite
def bad(draw):
    c = draw(C30.case('oct'))
    while c['s']['c'].get('fn') in NO:
        c = draw(C30.case('oct'))
    return c


def run_bad(c, ctx):
    s = c['s']
    mod, fn, a, nout, env = C30.mutate(s, c['mut'], c['q'])
    r = mex(ctx).call(fn, a, nout, env)
    if not r.exc:
        fail('%s (MEX), %s: no error; returned %s', fn, C30.name_of(s, c['mut']), [np.shape(x) for x in r.out or []])
    if r.mutated:
        fail('%s (MEX), %s: the rejected call modified argument %s', fn, C30.name_of(s, c['mut']), r.mutated)
    both(s, ctx)
    return '%s/%s' % (anycall.name(s), C30.name_of(s, c['mut'])), True


class Device:
    """a ctx whose OpenCL build is the one of the MEX gateways"""

    def __init__(self, ctx):
        self.ctx, self.tier, self.seed = ctx, ctx.tier, ctx.seed

    def oct(self, config='cl', env=None, key='', path=()):
        c = cl.ClCtx(self.ctx, 'gwcl')
        return self.ctx.oct('gwcl', c.env(), key, path)

    def dir(self, config):
        return self.ctx.dir('gwcl' if config == 'cl' else config)


def device(run):
    return lambda c, ctx: run(c, Device(ctx))


T = [t for t in anycall.targets(('oct',)) if t != 'oct_add_p']
CHECK = Check('C38', 'Calls of every function with a MATLAB gateway (transducer, annular and analytic responses, dream_att, dream_apodwin, das in both precisions, the convolutions and copy_p), as in C29, '
              'through the MEX gateway (compiled against the MEX interface of Octave and run in its own Octave session) and through the Octave function: same results bit by bit '
              '(FFT results within 1e-12), same error output, same success, warning printed by both or none. A second part sends malformed calls, which must fail, '
              'followed by the correct call. das and das_uni of the OpenCL build against the reference model as in C34: single calls and histories of 2-6 calls in one session. '
              'Non-trivial: a result with a non-zero value, a history of different calls, or an error.',
              {'main': T, 'gw': ['mex_' + t[4:] for t in T], 'gwcl': ['mex_das', 'mex_das_uni']},
              [Sub('calls', case(), run, 4000), Sub('malformed', bad(), run_bad, 1500),
               Sub('das', C34.das_cases(langs=('oct',)), device(C34.das_run), 500), Sub('das_uni', C34.uni(), device(C34.uni_run), 400),
               Sub('history', C34.hist(), device(C34.history), 150)])

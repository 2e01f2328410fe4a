"""The Julia gateways, built against a stand-in of CxxWrap, against the Python and Octave functions."""
import os
import numpy as np
from hypothesis import strategies as st
from vf import anycall, cl, das, sir
from vf.core import Check, Sub, fail
from checks import C30, C34

SIR = ('sir', 'annu')
FNS = sir.ALL + ['das', 'das_f', 'conv_p', 'fftconv_p']


@st.composite
def case(draw):
    f = draw(st.sampled_from(['sir'] * 6 + ['annu'] * 2 + ['das'] * 3 + ['conv']))
    if f != 'conv':
        s = draw(anycall.spec(('py',), fams=(f,), small=False))
    else:
        s = draw(anycall.spec(('oct',), fams=('conv',)))
        while s['c']['fn'] not in ('conv_p', 'fftconv_p'):
            s = draw(anycall.spec(('oct',), fams=('conv',)))
        s['c'].update(mode=None, wis='no')
    return s


def vec(x):
    return np.ravel(x, order='F')


def jl_args(s, args):
    """The argument list as a Julia user gives it: matrices and vectors of Float64 (Float32 for das_f)."""
    f, fn, c = s['f'], s['c'].get('fn'), s['c']
    a = list(args)
    if f in SIR:
        k = 1
        mats = [0] + ([2] if fn in sir.ARR else [])
        a = [x if j in mats or not isinstance(x, np.ndarray) else vec(x) for j, x in enumerate(a)]
    elif f == 'das':
        a[5] = vec(a[5])
        a = a[:10] + ['verbose' if len(a) > 10 and a[10] else '']
    return a


def jl_call(s, ctx, args=None):
    mod, fn, a, nout, env = anycall.call_of(s)
    d = ctx.dir('gw')
    if s['f'] == 'das':
        p = os.path.join(d, 'julia', 'das_f' if s['c']['f32'] else 'das')
    else:
        p = os.path.join(d, 'julia', fn + '.so')
    return anycall.outcome_py(ctx.py('gw').call(p, fn, jl_args(s, a) if args is None else args, env))


def both(s, ctx):
    a = anycall.call(s, ctx)
    b = jl_call(s, ctx)
    what = anycall.name(s)
    if b.mutated:
        fail('%s: arguments %s were modified', what, b.mutated)
    if s['f'] == 'das' and a.arrays and b.arrays:
        a.arrays = [np.asarray(x).reshape(np.asarray(y).shape, order='F') for x, y in zip(a.arrays, b.arrays)]
    a.arrays = a.arrays[:1]
    d = anycall.same(s, b, a)
    if d:
        fail('%s: Julia / %s: %s', what, 'Python' if s['lang'] == 'py' else 'Octave', d)
    if s['f'] != 'conv' and not a.exc and bool(a.text.strip()) != bool(b.text.strip()):
        fail('%s: Julia printed %r, Python %r', what, b.text[:200], a.text[:200])
    return a


def run(s, ctx):
    a = both(s, ctx)
    return anycall.name(s) + ('/error' if a.exc else ''), bool(a.exc) or any(np.any(x) for x in a.arrays)


SKIP = ('drop', 'extra', 'string', 'number', 'square', 'wide')       # Julia's own dispatch rejects these


@st.composite
def bad(draw):
    c = draw(C30.case('py'))
    while c['s']['f'] not in SIR + ('das',) or c['mut'][1] in SKIP:
        c = draw(C30.case('py'))
    return c


def run_bad(c, ctx):
    s = c['s']
    mod, fn, a, nout, env = C30.mutate(s, c['mut'], c['q'])
    b = jl_call(s, ctx, jl_args(s, a))
    if not b.exc:
        fail('%s (Julia), %s: no error; returned %s', fn, C30.name_of(s, c['mut']), [np.shape(x) for x in b.arrays])
    both(s, ctx)
    return '%s/%s' % (anycall.name(s), C30.name_of(s, c['mut'])), True


def device(c, ctx):
    """das of the OpenCL build"""
    m = das.model(c)
    a = das.args_of(dict(c, verbose=None), 'py')
    a[9] = c['device']
    o = cl.ClCtx(ctx, 'gwcl').py().call(os.path.join(ctx.dir('gwcl'), 'julia', 'das_f' if c['f32'] else 'das'), 'das', jl_args({'f': 'das', 'c': c}, a), {'DREAM_NUM_THREADS': c.get('threads')})
    if o.exc or o.out is None:
        fail('das on the %s failed: %s', c['device'], o.exc or (o.text or '')[-300:])
    if o.mutated:
        fail('das modified its arguments %s', o.mutated)
    if o.out.size != len(c['ro']) // 3 or o.out.dtype != (np.float32 if c['f32'] else np.float64):
        fail('das returned %s of %s', o.out.dtype, o.out.shape)
    das.compare(c, m, o.out.ravel().astype(float), 'das on the ' + c['device'])
    return das.label(c, m) + '/' + c['device'], das.nontrivial(c, m)


CHECK = Check('C39', 'Calls of every function with a Julia gateway (eleven transducer functions, das in both precisions, conv_p, fftconv_p), as in C29, through the Julia gateway (compiled against a '
              'stand-in of the Julia array interface and CxxWrap that maps Matrix and Vector arguments to NumPy arrays) and through the Python (conv: Octave) function: same results bit by bit '
              '(FFT results within 1e-12), same success, warning printed by both or none. A second part sends malformed calls, which must fail, followed by the correct '
              'call, and das of the OpenCL build is compared with the reference model as in C34. Non-trivial: a result with a non-zero value, or an error.',
              {'main': sir.targets(oct=False) + ['py_das', 'py_das_f', 'oct_conv_p', 'oct_fftconv_p'], 'gw': ['jl_' + f for f in FNS], 'gwcl': ['jl_das', 'jl_das_f']},
              [Sub('calls', case(), run, 4000), Sub('malformed', bad(), run_bad, 1500),
               Sub('das', C34.das_cases(langs=('py',)), device, 700)])

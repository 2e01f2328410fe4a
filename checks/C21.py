"""Histories of das calls within one session."""
import numpy as np
from hypothesis import strategies as st
from vf import anycall, das
from vf.core import Check, Sub, Skip, fail
from checks.C20 import judge


@st.composite
def history(draw):
    langs = draw(st.sampled_from([('py',), ('oct',), ('py', 'oct')]))
    n = draw(st.integers(2, 8))
    h = []
    for i in range(n):
        k = draw(st.integers(0, 5)) if h else 0
        if k <= 2:
            h.append(draw(das.case(range_=draw(st.sampled_from(['in', 'in', 'out'])), langs=langs, maxn=5, maxo=8)))
        else:                       # a variation of an earlier call
            c = dict(draw(st.sampled_from(h)))
            w = draw(st.sampled_from(['seed', 'f32', 'method', 'lang', 'geometry', 'delay', 'nt', 'err', 'cp', 'swap']))
            if w == 'seed':
                c['seed'] += 1
            elif w == 'f32':
                c['f32'] = not c['f32']
            elif w == 'method':
                if len(c['gr']) and c['method'] != 'saft':
                    c['method'] = draw(st.sampled_from(['rca_coltx', 'rca_rowtx'] if c['method'].startswith('rca') else ['tfm', 'saft']))
            elif w == 'lang':
                c['lang'] = draw(st.sampled_from(langs))
            elif w == 'geometry':
                c['ro'] = [x + c['dt'] * 0.3 for x in c['ro']]
            elif w == 'delay':
                c['delay'] = [d + 1.7 * c['dt'] for d in c['delay']]
            elif w == 'nt':
                c['nt'] = max(1, c['nt'] + draw(st.sampled_from([-1, 1, 17])))
            elif w == 'err':
                c['err'] = draw(st.sampled_from(['ignore', 'warn', 'stop']))
            elif w == 'cp':
                c['cp'] *= 1.01
            elif w == 'swap' and c['method'] == 'tfm' and len(c['gr']):
                c['gt'], c['gr'] = c['gr'], c['gt']
            h.append(c)
    return dict(calls=h)


@st.composite
def resized(draw):
    """calls whose array sizes, numbers of points, A-scan lengths or methods are related: the object cached between calls must not be taken for the wrong one"""
    langs = draw(st.sampled_from([('py',), ('oct',)]))
    c = draw(das.case(range_=draw(st.sampled_from(['in', 'in', 'out'])), langs=langs, maxn=6, maxo=8))
    h = [c]
    for _ in range(draw(st.integers(1, 3))):
        s = draw(anycall.variant(dict(c=h[-1])))
        v = dict(s['c'], lang=h[0]['lang'])
        if not len(v['gr']):
            v['method'] = 'saft'
        if v['method'].startswith('rca'):          # stripes: in order, and only where the first scene is one of stripes
            v['gt'] = np.array(sorted(np.reshape(v['gt'], (-1, 3)).tolist())).ravel().tolist()
            v['gr'] = np.array(sorted(np.reshape(v['gr'], (-1, 3)).tolist(), key=lambda r: r[1])).ravel().tolist()
            if not h[0]['method'].startswith('rca') or v['gt'] == h[-1]['gr']:
                v['method'] = 'tfm'
        h.append(v)
    return dict(calls=h)


def session(case, ctx):
    ctx.py().kill()
    ctx.oct().kill()
    seen = set()
    for i, c in enumerate(case['calls']):
        m = das.model(c)
        o = das.call(c, ctx)
        try:
            judge(c, m, o)
        except Exception as e:
            e.args = ('call %d of %d: %s' % (i + 1, len(case['calls']), e),)
            raise
        seen.add((c['method'], c['f32'], c['lang'], bool(o.exc)))
    return '%d kinds' % min(len(seen), 4), len(seen) > 1


def languages(c, ctx):
    """Python and Octave give the same image."""
    m = das.model(c)
    if c['err'] == 'stop':
        c = dict(c, err='warn')
    if c['method'] != 'saft' and not len(c['gr']):
        raise Skip('no receivers')
    a, b = das.call(dict(c, lang='py'), ctx), das.call(dict(c, lang='oct'), ctx)
    if a.exc or b.exc:
        fail('das failed: %s / %s', a.exc, b.exc)
    ok = ~m['amb']
    if not np.array_equal(a.im[ok], b.im[ok]):
        n = int(np.argmax((a.im != b.im) & ok))
        fail('das %s: Python and Octave differ at point %d: %r, %r', c['method'], n, a.im[n], b.im[n])
    return das.label(c, m), bool(ok.any())


def precision(c, ctx):
    """Single and double precision agree where no index is ambiguous."""
    m = das.model(dict(c, f32=True))
    m2 = das.model(dict(c, f32=False))
    if c['err'] == 'stop':
        c = dict(c, err='ignore')
    a, b = das.call(dict(c, f32=True), ctx), das.call(dict(c, f32=False), ctx)
    if a.exc or b.exc:
        fail('das failed: %s / %s', a.exc, b.exc)
    ok = ~(m['amb'] | m2['amb']) & (m['lo'] == m2['lo'])
    if not np.array_equal(a.im[ok], b.im[ok]):
        n = int(np.argmax((a.im != b.im) & ok))
        fail('das %s (%s): single and double precision differ at point %d: %r, %r', c['method'], c['lang'], n, a.im[n], b.im[n])
    return das.label(c, m), bool(ok.any())


CHECK = Check('C21', 'Histories of 2 to 8 calls in a fresh session (part two: chains of variations of one call: array sizes, points, window, method, error level), each either a new scene or an earlier one with one thing changed '
              '(data, precision, method, geometry, delay, A-scan length, error level, sound speed, transmitter and receiver exchanged), '
              'including calls that stop with an error; every call is compared with the model. Non-trivial: at least two kinds of calls '
              '(method, precision, language, outcome) in a history.',
              das.TARGETS, [Sub('session', history(), session, 300), Sub('resized', resized(), session, 300), Sub('languages', das.case(range_='out'), languages, 600),
                            Sub('precision', das.case(range_='out'), precision, 600)])

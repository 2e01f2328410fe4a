"""Generated calls on a ThreadSanitizer build with several threads."""
from hypothesis import strategies as st
from vf import anycall, san
from vf.core import Check, Sub


@st.composite
def case(draw, lang):
    s = draw(anycall.spec((lang,), small=False))
    while s['f'] == 'conv' and s['c']['fn'] == 'dream_apodwin':
        s = draw(anycall.spec((lang,), small=False))
    c = s['c']
    c['threads'] = draw(st.sampled_from(['2', '3', '4', '5', '8']))
    if 'ro' in c and draw(st.booleans()):                # more points, so that every thread has some
        flat = s['f'] == 'das'
        n = len(c['ro']) // 3 if flat else len(c['ro'])
        k = draw(st.integers(2, 4))
        c['ro'] = c['ro'] * k
        if len(c['delay']) == n and n > 1:
            c['delay'] = c['delay'] * k
    return s


def points(s):
    c = s['c']
    if s['f'] == 'conv':
        return c['n']
    return len(c['ro']) // (3 if s['f'] == 'das' else 1)


def run(s, ctx):
    o = anycall.call(s, san.SanCtx(ctx, 'tsan', san.tsan_env()))
    n = min(int(s['c']['threads']), points(s))
    return '%s/%s/%d threads%s' % (s['lang'], anycall.name(s), n, '/error' if o.exc else ''), n > 1


CHECK = Check('C32', 'Calls of all threaded functions of both languages (all options, attenuated or not, inside or outside the window at each error level, convolutions '
              'with and without wisdom, in-place functions) on 2..8 threads of a ThreadSanitizer build; the process dies at the first race reported. Non-trivial: '
              'at least two threads have work.', {'tsan': anycall.targets()}, [Sub('python', case('py'), run, 4000), Sub('octave', case('oct'), run, 4000)])

"""Histories of arbitrary calls in one process against the same calls in fresh processes."""
from hypothesis import strategies as st
from vf import anycall
from vf.core import Check, Sub, fail


@st.composite
def case(draw, lang):
    calls = draw(st.lists(anycall.spec((lang,)), min_size=2, max_size=7))
    order = draw(st.lists(st.integers(0, len(calls) - 1), min_size=2, max_size=9))      # calls come back later in the history
    return dict(calls=calls, order=order)


@st.composite
def related(draw, lang, fams):
    """calls that differ in one or two things each: what one of them leaves behind could be taken up by the next"""
    calls = [draw(anycall.spec((lang,), fams=fams) if fams else anycall.spec((lang,)))]
    for _ in range(draw(st.integers(1, 4))):
        calls.append(draw(anycall.variant(draw(st.sampled_from([calls[-1], calls[-1], calls[0]])))))
    order = list(range(len(calls))) + draw(st.lists(st.integers(0, len(calls) - 1), min_size=1, max_size=4))
    return dict(calls=calls, order=order)


def run(c, ctx):
    lang = c['calls'][0]['lang']
    w = ctx.py(key='history') if lang == 'py' else ctx.oct(key='history')
    f = ctx.py(key='fresh') if lang == 'py' else ctx.oct(key='fresh')
    fresh = {}
    # the process lives on from case to case, so a failure may need what came before: restart for each case
    w.restart()
    n = fails = 0
    for i in c['order']:
        s = c['calls'][i]
        o = anycall.call(s, ctx, w=w)
        if o.mutated:
            fail('%s modified its arguments %s', anycall.name(s), o.mutated)
        if i not in fresh:
            fresh[i] = anycall.call(s, ctx, w=f, fork=True)
        d = anycall.same(s, o, fresh[i])
        if d:
            fail('call %d of the history (%s, %s): in this process / in a fresh one: %s', n + 1, anycall.name(s), lang, d)
        if bool(o.text.strip()) != bool(fresh[i].text.strip()) and s['f'] != 'conv':
            fail('call %d of the history (%s, %s): printed %r / %r in a fresh process', n + 1, anycall.name(s), lang, o.text[:300], fresh[i].text[:300])
        n += 1
        fails += bool(o.exc)
    return '%s/%s' % (lang, 'failing' if fails else 'fine'), len(set(c['order'])) > 1


CHECK = Check('C29', 'Histories of 2..9 calls (with repetitions) drawn from all functions of one language - SIR functions with all options and thread counts, attenuated or not, '
              'in or out of the window at each error level, delay-and-sum in both precisions, analytic responses, convolutions, in-place functions. Each outcome '
              '(values bit by bit; FFT results within 1e-12; error status; whether something was printed) must equal that of the same call in a process forked for it. '
              'Parts three and four: chains of variations of one call. Non-trivial: at least two different calls.', {'main': anycall.targets()},
              [Sub('python', case('py'), run, 700), Sub('octave', case('oct'), run, 500),
               Sub('related', st.one_of(related('py', None), related('py', ('das',)), related('py', ('sir', 'annu'))), run, 500),
               Sub('related_oct', st.one_of(related('oct', None), related('oct', ('das',)), related('oct', ('conv', 'analytic'))), run, 300)])

"""Check runner: drives generated cases through oracles, shrinks and replays
failures, applies the committed known-findings list and writes evidence.

A check module defines  CHECK = Check('C01', ...)  with sub-checks; a sub-check has a
Hypothesis strategy producing a JSON-able case and a function run(case, ctx) that
returns a class label (or (label, nontrivial)) or raises Violation."""
import hashlib, json, math, os, pickle, signal, sys, time, traceback
from collections import Counter

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
import hypothesis.internal.conjecture.engine as _eng
from . import build, workers

# started in the background, a shell leaves SIGINT ignored, which every worker would inherit
for _s in (signal.SIGINT, signal.SIGABRT, signal.SIGTERM):
    if signal.getsignal(_s) == signal.SIG_IGN:
        signal.signal(_s, signal.default_int_handler if _s == signal.SIGINT else signal.SIG_DFL)
signal.pthread_sigmask(signal.SIG_SETMASK, [])

VERIF = build.VERIF
_eng.MAX_SHRINKING_SECONDS = 45
_mutate = _eng.ConjectureRunner.generate_mutations_from


def _mutate_seldom(self, data):
    # by default five variants of each drawn case follow it, which leaves few independent cases
    if self.random.random() < 0.15:
        _mutate(self, data)


_eng.ConjectureRunner.generate_mutations_from = _mutate_seldom
SOFT_LIMIT = {'quick': 420.0, 'thorough': 780.0}


class Violation(Exception):
    pass


class EnoughShrinking(KeyboardInterrupt):
    """ends the search for a smaller failing case"""


class Skip(Exception):
    """The case lies outside the property's domain (counted)."""


def fail(fmt, *a):
    raise Violation(fmt % a if a else fmt)


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, rule=''):
        self.name, self.strategy, self.run = name, strategy, run
        self.n = {'quick': quick, 'thorough': thorough or quick * 12}
        self.rule = rule


class Ctx:
    """Handed to sub-checks: access to built code."""

    def __init__(self, check):
        self.check = check
        self.tier = check.tier
        self.seed = check.seed
        self._w = {}
        self.dirs = {}

    def dir(self, config='main'):
        if config not in self.dirs:
            self.dirs[config] = build.build(self.check.targets.get(config, []), config)
        return self.dirs[config]

    def py(self, config='main', env=None, key=''):
        k = ('py', config, key)
        if k not in self._w:
            self._w[k] = workers.PyWorker(self.dir(config), env)
        return self._w[k]

    def oct(self, config='main', env=None, key='', path=()):
        k = ('oct', config, key)
        if k not in self._w:
            self._w[k] = workers.OctWorker(self.dir(config), env, path=path)
        return self._w[k]

    def restart(self):
        for w in self._w.values():
            w.kill()

    def close(self):
        self.restart()


class Check:
    def __init__(self, prop, rule, targets, subs, level='exploration', assumptions=(), shards=6):
        self.prop, self.rule, self.targets, self.subs = prop, rule, targets, subs
        self.level = level
        self.assumptions = list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        except ValueError:
            self.seed = 1
        self.shard = 0
        self.extra = {}                      # sub-checks only run for listed findings and replays
        self.shards = int(os.environ.get('VF_SHARDS', shards))

    def sub(self, name):
        for s in list(self.subs) + list(self.extra.values()):
            if s.name == name:
                return s
        raise KeyError(name)

    # ------------------------------------------------------------------ running
    def execute(self, s, case, ctx):
        """('ok', label, nontrivial) | ('bad', message) | ('skip', why)"""
        try:
            r = s.run(case, ctx)
        except Skip as e:
            return ('skip', str(e) or 'skip')
        except Violation as e:
            return ('bad', str(e))
        except workers.Hang as e:
            return ('bad', 'the call did not return: %s' % e)
        except workers.Crash as e:
            return ('bad', 'the process crashed: %s' % e)
        if isinstance(r, tuple):
            return ('ok',) + r
        return ('ok', r or 'ok', True)

    def main(self, argv):
        t0 = time.time()
        if '--thorough' in argv:
            self.tier = 'thorough'
            argv = [a for a in argv if a != '--thorough']
        if len(argv) > 1 and argv[0] == '--replay':
            return self.replay(argv[1])
        ctx = Ctx(self)
        self.t0 = t0
        st = dict(evals=0, nontrivial=set(), classes=Counter(), samples=[], skipped=Counter(), unrepro=[], subs={})
        viol = None
        known = self.known()
        scale = float(os.environ.get('VF_SCALE', '1'))
        only = os.environ.get('VF_SUB')
        try:
            try:
                for c in self.targets:
                    ctx.dir(c)
            except build.BuildError as e:
                # a tree that does not build is not a verdict about the property
                print('build failed: %s' % e, file=sys.stderr)
                return 2
            for k in known:
                self.check_known(k, ctx)
            ctx.restart()
            ctx._w.clear()                   # every shard has workers of its own
            viol = self.run_shards(ctx, st, scale, only)
        finally:
            ctx.close()
        cov = dict(evaluations=st['evals'], distinct_nontrivial=len(st['nontrivial']), rule=self.rule,
                   samples=st['samples'][:12] or ['(none)'], classes=dict(sorted(st['classes'].items())),
                   skipped=dict(st['skipped']), per_sub=st['subs'])
        if st['unrepro']:
            cov['not_reproduced'] = st['unrepro'][:5]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        if viol:
            print(viol[1])
            print('VIOLATION property=%s replay=%s' % (self.prop, viol[0]))
            return 1
        print('property=%s held: %d cases (%d distinct non-trivial), %.1f s' % (
            self.prop, st['evals'], len(st['nontrivial']), time.time() - t0))
        return 0

    def run_shards(self, ctx, st, scale, only):
        """Every shard explores its own seed-derived share of each sub-check."""
        pids = []
        for k in range(self.shards):
            f = os.path.join(workers.TMP, 'shard%d' % k)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    self.shard = k
                    v = None
                    for s in self.subs:
                        if only and s.name != only:
                            continue
                        v = self.run_sub(s, ctx, st, scale / self.shards)
                        if v:
                            break
                    ctx.close()
                    with open(f, 'wb') as fh:
                        pickle.dump((v, st), fh)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    try:
                        ctx.close()
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
            pids.append((pid, f))
        viol, bad = None, False
        for pid, f in pids:
            _, rc = os.waitpid(pid, 0)
            if rc != 0 or not os.path.exists(f):
                bad = True
                continue
            with open(f, 'rb') as fh:
                v, s2 = pickle.load(fh)
            viol = viol or v
            st['evals'] += s2['evals']
            st['nontrivial'] |= s2['nontrivial']
            st['classes'] += s2['classes']
            st['skipped'] += s2['skipped']
            st['unrepro'] += s2['unrepro']
            st['samples'] += s2['samples'][:max(2, 12 // self.shards)]
            for n, c in s2['subs'].items():
                t = st['subs'].setdefault(n, dict(cases=0, nontrivial=0, skipped=0, budget_hit=False, wall_s=0))
                for q in ('cases', 'nontrivial', 'skipped'):
                    t[q] += c[q]
                t['budget_hit'] |= c['budget_hit']
                t['wall_s'] = max(t['wall_s'], c.get('wall_s', 0))
        if bad and not viol:
            raise RuntimeError('a shard of the check failed')
        return viol

    def run_sub(self, s, ctx, st, scale):
        n = max(1, int(math.ceil(s.n[self.tier] * scale)))
        limit = SOFT_LIMIT[self.tier]
        cnt = dict(cases=0, nontrivial=0, skipped=0, budget_hit=False)
        st['subs'][s.name] = cnt
        last = {}
        ts = time.time()

        def one(case):
            if time.time() - self.t0 > limit and not last:
                cnt['budget_hit'] = True          # inconclusive, never a violation
                return
            if last and time.time() > last['until']:      # enough shrinking
                raise EnoughShrinking()
            r = self.execute(s, case, ctx)
            st['evals'] += 1
            cnt['cases'] += 1
            if r[0] == 'skip':
                cnt['skipped'] += 1
                st['skipped'][s.name + ':' + r[1]] += 1
                return
            if r[0] == 'bad':
                last['case'], last['msg'] = case, r[1]
                last.setdefault('until', time.time() + 60.0)
                raise Violation(s.name)
            st['classes'][s.name + ':' + r[1]] += 1
            if len(r) < 3 or r[2]:
                key = hashlib.md5(json.dumps([s.name, case], sort_keys=True, default=str).encode()).digest()
                if key not in st['nontrivial']:
                    st['nontrivial'].add(key)
                    cnt['nontrivial'] += 1
                    if cnt['nontrivial'] in (2, 40, 200):
                        st['samples'].append({'sub': s.name, 'class': r[1], 'case': clip(case)})

        test = hypothesis.seed((self.seed * 64 + self.shard) * 7919 + int(hashlib.md5(s.name.encode()).hexdigest()[:6], 16))(
            settings(max_examples=n, deadline=None, database=None, derandomize=False, print_blob=False,
                     report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                     phases=[Phase.generate, Phase.shrink])(given(s.strategy)(one)))
        try:
            test()
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt) and not isinstance(e, EnoughShrinking) or not last:
                raise
        cnt['wall_s'] = round(time.time() - ts, 2)
        if not last:
            return None
        # replay in fresh workers
        hits, msg = 0, last['msg']
        for _ in range(3):
            ctx.restart()
            r = self.execute(s, last['case'], ctx)
            if r[0] == 'bad':
                hits += 1
                msg = r[1]
        if hits == 0:
            st['unrepro'].append({'sub': s.name, 'case': clip(last['case']), 'msg': last['msg'][:500]})
            print('note: a failure of %s did not reproduce and is not reported: %s' % (s.name, last['msg'][:300]))
            return None
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        p = os.path.join(VERIF, 'replay', '%s-%s-%d-%d.json' % (self.prop, s.name, self.seed, self.shard))
        with open(p, 'w') as fh:
            json.dump({'property': self.prop, 'sub': s.name, 'case': last['case'], 'message': msg,
                       'reproduced': '%d/3' % hits}, fh, indent=1, default=str)
        return (p, '%s: %s (reproduced %d/3)' % (s.name, msg[:1500], hits))

    # ------------------------------------------------------------------ known findings
    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return []
        with open(p) as fh:
            return [k for k in json.load(fh)['findings'] if k['property'] == self.prop]

    def check_known(self, k, ctx):
        r = self.execute(self.sub(k['sub']), k['case'], ctx)
        if r[0] == 'bad':
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k['id'], k['what']))
            ctx.restart()
        else:
            print('note: known finding %s no longer shows (%s)' % (k['id'], r))

    def replay(self, path):
        with open(path) as fh:
            d = json.load(fh)
        ctx = Ctx(self)
        try:
            r = self.execute(self.sub(d['sub']), d['case'], ctx)
        finally:
            ctx.close()
        print(r)
        if r[0] == 'bad':
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        return 0


def clip(x, n=700):
    s = json.dumps(x, default=str)
    return json.loads(s) if len(s) <= n else s[:n] + '...'

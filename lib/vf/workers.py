"""Crash-isolated workers that execute calls on the built code."""
import atexit, os, pickle, re, select, shutil, signal, struct, subprocess, sys, tempfile, time
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/usr/local/bin/python3'            # the interpreter the modules are built for (NumPy 1.26)
if not os.path.exists(PY):
    PY = sys.executable
TMP = tempfile.mkdtemp(prefix='vf-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
_live = []
_pid = os.getpid()


@atexit.register
def _cleanup():
    if os.getpid() != _pid:
        return
    for w in list(_live):
        w.kill()
    shutil.rmtree(TMP, ignore_errors=True)


class Crash(Exception):
    """The process executing the code under test died or hung."""


class Hang(Crash):
    pass


class Reply(dict):
    __getattr__ = dict.get


def _base_env(extra):
    e = dict(os.environ)
    for k in ('DREAM_NUM_THREADS', 'PYTHONPATH', 'LD_PRELOAD'):
        e.pop(k, None)
    e.update(PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', HOME=TMP, TZ='UTC',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(extra or {})
    return e


def digest(txt):
    """the essential lines of a sanitizer report, or the end of the output"""
    ls = txt.splitlines()
    k = [i for i, l in enumerate(ls) if 'ERROR: AddressSanitizer' in l or 'runtime error:' in l or 'WARNING: ThreadSanitizer' in l]
    if not k:
        return txt[-1500:]
    out = [ls[k[0]]]
    for l in ls[k[0] + 1:k[0] + 60]:
        if 'WARNING: ThreadSanitizer' in l or len(out) > 14:
            break
        m = re.match(r'\s+#\d+ 0x[0-9a-f]+ in (\w+).*?([\w.]+\.(?:cc|h|hpp):\d+)', l) or re.match(r'\s+#\d+ ([\w:~]+).*?([\w.]+\.(?:cc|h|hpp):\d+)', l)
        if m:
            out.append('  %s %s' % m.groups())
        elif re.match(r'(READ|WRITE|  (Previous )?(atomic )?([Rr]ead|[Ww]rite)|0x|freed|previously|allocated)', l):
            out.append(l[:150])
    return '\n'.join(out)


class Worker:
    n = 0

    def __init__(self, builddir, env=None, timeout=120):
        self.builddir, self.env, self.timeout = builddir, env, timeout
        self.p = None
        self.starts = 0
        Worker.n += 1
        self.id = Worker.n
        self.log = os.path.join(TMP, 'w%d-%d.log' % (os.getpid(), self.id))
        _live.append(self)

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except (OSError, ProcessLookupError):
                pass
            try:
                self.p.wait(10)
            except Exception:
                pass
            for f in (self.p.stdin, self.p.stdout):
                if f:
                    f.close()
            self.p = None
        self._closed()

    def _closed(self):
        pass

    restart = kill

    def _dead(self, what):
        rc = None
        if self.p is not None:
            try:
                rc = self.p.wait(5)
            except subprocess.TimeoutExpired:
                pass
        txt = ''
        try:
            with open(self.log, errors='replace') as fh:
                txt = digest(fh.read()[-200000:])
        except OSError:
            pass
        self.kill()
        return Crash('%s (exit status %s)%s' % (what, rc, '\n' + txt if txt else ''))


class PyWorker(Worker):
    def start(self):
        self.starts += 1
        e = _base_env(self.env)
        e['PYTHONPATH'] = os.path.join(self.builddir, 'python')
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'pyserver.py'), self.log], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=e, start_new_session=True,
                                  stderr=open(self.log + '.err', 'wb'))

    def _dead(self, what):
        try:
            with open(self.log + '.err', errors='replace') as fh, open(self.log, 'a') as o:
                o.write(fh.read()[-100000:])
        except OSError:
            pass
        return super()._dead(what)

    def _rpc(self, obj):
        if self.p is None or self.p.poll() is not None:
            self.kill()
            self.start()
        b = pickle.dumps(obj, protocol=4)
        try:
            self.p.stdin.write(struct.pack('<q', len(b)) + b)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            raise self._dead('worker died')
        fd = self.p.stdout.fileno()

        def rd(n, t_end):
            buf = b''
            while len(buf) < n:
                r, _, _ = select.select([fd], [], [], max(0, t_end - time.time()))
                if not r:
                    self.kill()
                    raise Hang('no answer within %d s' % self.timeout)
                c = os.read(fd, min(n - len(buf), 1 << 20))
                if not c:
                    raise self._dead('worker died')
                buf += c
            return buf
        t_end = time.time() + self.timeout
        n, = struct.unpack('<q', rd(8, t_end))
        return pickle.loads(rd(n, t_end))

    def batch(self, reqs):
        """reqs: list of (module, function, args[, env])"""
        rs = [(r[0], r[1], list(r[2]), r[3] if len(r) > 3 else {}, True) for r in reqs]
        return [Reply(x) for x in self._rpc(rs)]

    def call(self, mod, fn, args, env=None, fork=False):
        """fork: execute in a child forked for this call only"""
        if fork:
            r = self._rpc(['fork', (mod, fn, list(args), env or {}, True)])
            if r is None:
                raise self._dead('the forked process died')
            return Reply(r[0])
        return self.batch([(mod, fn, args, env or {})])[0]

    def leak(self, reqs, warm, reps, rounds):
        return self._rpc(['leak', reqs, warm, reps, rounds])

    def interrupt(self, mod, fn, args, env, tile, delay):
        return Reply(self._rpc(['intr', mod, fn, list(args), env, tile, delay]))

    def stat(self):
        return self._rpc(['rss'])


class OctWorker(Worker):
    def __init__(self, builddir, env=None, timeout=120, path=()):
        super().__init__(builddir, env, timeout)
        self.path = list(path)
        self.dir = os.path.join(TMP, 'oct%d-%d' % (os.getpid(), self.id))
        os.makedirs(self.dir, exist_ok=True)
        self.fo = self.fi = None
        self.k = 0
        self.pos = 0

    def _closed(self):
        for f in (self.fi, self.fo):
            if f is not None:
                try:
                    os.close(f)
                except OSError:
                    pass
        self.fi = self.fo = None

    def start(self):
        self.starts += 1
        a, b = os.path.join(self.dir, 'in'), os.path.join(self.dir, 'out')
        for f in (a, b):
            if os.path.exists(f):
                os.unlink(f)
            os.mkfifo(f)
        self.fi = os.open(a, os.O_RDWR)
        self.fo = os.open(b, os.O_RDWR)
        # the RDWR handles keep the fifos open; octave's fgetl/fprintf use its own ends
        paths = [os.path.join(self.builddir, 'oct'), os.path.join(self.builddir, 'mex'), os.path.join(os.path.dirname(os.path.dirname(HERE)), 'lib', 'oct')] + self.path
        expr = ''.join("addpath('%s');" % p for p in paths if os.path.isdir(p)) + "vf_server('%s','%s');" % (a, b)
        self.logf = open(self.log, 'wb')
        self.pos = 0
        self.p = subprocess.Popen(['octave-cli', '--norc', '--no-history', '--no-gui', '--quiet', '--eval', expr],
                                  stdin=subprocess.DEVNULL, stdout=self.logf, stderr=subprocess.STDOUT,
                                  env=_base_env(self.env), start_new_session=True, cwd=self.dir)

    def batch(self, reqs, fork=False):
        """reqs: list of (fn, args, nout[, env]); fork: each in a child forked for it"""
        from scipy.io import savemat, loadmat
        if self.p is None or self.p.poll() is not None:
            self.kill()
            self.start()
        self.k += 1
        f = os.path.join(self.dir, 'q%d.mat' % self.k)
        calls = np.empty((1, len(reqs)), dtype=object)
        for i, r in enumerate(reqs):
            fn, args, nout = r[0], r[1], r[2]
            env = r[3] if len(r) > 3 else {}
            ar = np.empty((1, len(args)), dtype=object)
            for j, x in enumerate(args):
                if isinstance(x, np.ndarray) and x.ndim == 1:
                    x = x.reshape(-1, 1)
                ar[0, j] = x
            en = np.empty((len(env), 2), dtype=object)
            for j, (k, v) in enumerate(env.items()):
                en[j, 0] = k
                en[j, 1] = v if v is not None else ''
            if len(env) == 0:
                en = np.zeros((0, 2))
            calls[0, i] = {'fn': fn, 'nout': float(nout), 'args': ar, 'env': en, 'copy': 1.0, 'fork': float(bool(fork))}
        savemat(f, {'calls': calls})
        try:
            self.logf.flush()
            pos = os.path.getsize(self.log)
            os.write(self.fi, (f + '\n\n').encode())
            t_end = time.time() + self.timeout
            buf = b''
            while b'\n' not in buf:
                r, _, _ = select.select([self.fo], [], [], 0.25)
                if r:
                    buf += os.read(self.fo, 64)
                elif self.p.poll() is not None:
                    raise self._dead('octave died')
                elif time.time() > t_end:
                    self.kill()
                    raise Hang('no answer within %d s' % self.timeout)
            R = loadmat(f + '.out', squeeze_me=False, struct_as_record=True)['R']
            with open(self.log, 'rb') as fh:
                fh.seek(pos)
                text = fh.read(4000).decode('utf8', 'replace')
        finally:
            for g in (f, f + '.out'):
                if os.path.exists(g):
                    os.unlink(g)
        res = []
        for i, r in enumerate(reqs):
            c = R[0, i][0, 0]
            rep = Reply()
            if c.dtype.names is None:
                raise self._dead('the forked process died')
            rep['text'] = text
            ex = c['exc']
            if ex.size:
                rep['exc'] = str(ex[0]) if ex.ndim == 1 else str(ex.ravel()[0])
            else:
                o = c['out']
                rep['out'] = [_demat(o[0, j]) for j in range(o.shape[1])] if o.size else []
            a = c['args']
            after = [_demat(a[0, j]) for j in range(a.shape[1])] if a.size else []
            rep['args'] = after
            mut = []
            for j, (x, y) in enumerate(zip(r[1], after)):
                if isinstance(x, np.ndarray) and x.dtype != object:
                    x2 = x.reshape(-1, 1) if x.ndim == 1 else x
                    if x2.size == 0 and y.size == 0:
                        continue
                    if x2.shape != y.shape or not np.array_equal(x2, y, equal_nan=True):
                        mut.append(j)
                elif isinstance(x, (int, float)):
                    if not (np.size(y) == 1 and float(np.ravel(y)[0]) == float(x)) and x == x:
                        mut.append(j)
            rep['mutated'] = mut
            res.append(rep)
        return res

    def call(self, fn, args, nout=1, env=None, fork=False):
        return self.batch([(fn, args, nout, env or {})], fork)[0]


def _demat(x):
    if isinstance(x, np.ndarray) and x.dtype.kind in 'US':
        return str(x[0]) if x.size else ''
    return x

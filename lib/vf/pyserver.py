# Runs in a subprocess; executes calls on the freshly built Python modules.
import sys
del sys.path[0]                # the directory of this file must not hide modules under test
import ctypes, gc, os, pickle, signal, struct, time
import numpy as np

inp = os.fdopen(os.dup(0), 'rb')
out = os.fdopen(os.dup(1), 'wb')
dn = os.open(os.devnull, os.O_RDONLY)
os.dup2(dn, 0)
cap = os.open(sys.argv[1], os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
os.dup2(cap, 1)
os.dup2(cap, 2)
mods = {}


def getfn(mod, fn):
    m = mods.get(mod)
    if m is None:
        if mod[0] == '/':              # a gateway of another language
            import importlib.machinery, importlib.util
            sp = importlib.util.spec_from_file_location('vf_gateway', mod, loader=importlib.machinery.ExtensionFileLoader('vf_gateway', mod))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
        else:
            m = __import__(mod)
        mods[mod] = m
    return getattr(m, fn)


def flush():
    sys.stdout.flush()
    sys.stderr.flush()


def captured():
    flush()
    n = os.lseek(cap, 0, os.SEEK_END)
    s = os.pread(cap, min(n, 4000), 0)
    os.ftruncate(cap, 0)
    return s.decode('utf8', 'replace')


def same(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and a.tobytes(order='A') == b.tobytes(order='A')
    return True


def do(req):
    mod, fn, args, env, copy = req
    for k, v in env.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    orig = [a.copy(order='K') if isinstance(a, np.ndarray) else a for a in args] if copy else None
    res = {}
    try:
        r = getfn(mod, fn)(*args)
        if isinstance(r, tuple):
            r = tuple(r)
        res['out'] = r
    except BaseException as e:  # noqa
        res['exc'] = type(e).__name__
        res['msg'] = str(e)
    res['text'] = captured()
    if orig is not None:
        res['mutated'] = [i for i, (a, b) in enumerate(zip(args, orig)) if not same(a, b)]
        res['args'] = [a for a in args] if res['mutated'] else None
    return res


def forked(req):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as fh:
                fh.write(pickle.dumps([do(req)], protocol=4))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        b = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else None


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


def leak(reqs, warm, reps, rounds):
    """memory in use and number of threads after every round of repeated calls"""
    f = ctypes.CDLL(None).mallinfo2
    f.restype = Mallinfo2
    mem, thr = [0] * rounds, [0] * rounds
    for r in range(-1, rounds):
        for _ in range(reps if r >= 0 else warm):
            for mod, fn, args, env in reqs:
                for k, v in env.items():
                    if v is None:
                        os.environ.pop(k, None)
                    else:
                        os.environ[k] = v
                try:
                    getfn(mod, fn)(*args)
                except Exception:
                    pass
        captured()
        gc.collect()
        if r >= 0:
            m = f()
            mem[r], thr[r] = m.uordblks + m.hblkhd, len(os.listdir('/proc/self/task'))
    return mem, thr


def interrupt(mod, fn, args, env, tile, delay):
    """SIGINT is sent to this process `delay` seconds after the start of the call; args in tile are repeated"""
    for k, v in env.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    args = list(args)
    for i, k in tile:
        args[i] = np.asfortranarray(np.tile(args[i], (k, 1)))
    f = getfn(mod, fn)
    res = {'done': False}
    pid = 0
    try:
        if delay is not None:
            pid = os.fork()
            if pid == 0:
                time.sleep(delay)
                os.kill(os.getppid(), signal.SIGINT)
                os._exit(0)
        t = time.time()
        try:
            r = f(*args)
            res['done'], res['t'] = True, time.time() - t
            r = None
        except Exception as e:
            res['t'] = time.time() - t
            res['exc'] = type(e).__name__ + ': ' + str(e)
        if pid:
            os.waitpid(pid, 0)
            pid = 0
            time.sleep(0.01)
    except KeyboardInterrupt:
        res['kbd'] = True
        res.setdefault('t', time.time() - t)
    if pid:
        os.waitpid(pid, 0)
    res['text'] = captured()
    # the interpreter's own handling of an interrupt
    try:
        os.kill(os.getpid(), signal.SIGINT)
        time.sleep(0.02)
        res['own'] = False
    except KeyboardInterrupt:
        res['own'] = True
    return res


def main():
    while True:
        hd = inp.read(8)
        if len(hd) < 8:
            return
        n, = struct.unpack('<q', hd)
        reqs = pickle.loads(inp.read(n))
        if reqs and reqs[0] == 'rss':
            with open('/proc/self/status') as fh:
                st = {l.split(':')[0]: l.split(':')[1].strip() for l in fh}
            rs = {'rss': int(st['VmRSS'].split()[0]), 'vsz': int(st['VmSize'].split()[0]), 'threads': int(st['Threads'])}
        elif reqs and reqs[0] == 'leak':
            rs = leak(*reqs[1:])
        elif reqs and reqs[0] == 'intr':
            rs = interrupt(*reqs[1:])
        elif reqs and reqs[0] == 'fork':
            rs = forked(reqs[1])
        else:
            rs = [do(r) for r in reqs]
        b = pickle.dumps(rs, protocol=4)
        out.write(struct.pack('<q', len(b)) + b)
        out.flush()


main()

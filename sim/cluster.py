"""A simulated parallel job: P processes running the real petclaw, one at a
time, under a scheduler that decides at every communication and file operation
which of them continues.

The scheduler is a function of the scenario: `sched` is a list of
[rank, count] entries (prefer that rank for `count` decisions; a negative rank
-r-1 means that rank r is stalled for `count` decisions), and after the list
the lowest ready rank continues.  `death` = number of the decision at which
the whole job is killed.
"""
import builtins
import contextlib
import os
import pickle
import signal
import socket
import sys
import traceback

import numpy as np

from . import link
from .core import Ctx, HarnessError, Violation, from_repo, short_tb, CRASH_CODE

RANK_TIMEOUT = 60.0


class Outcome(object):
    """kind: 'ok' (values per rank), 'raised' (all ranks raised; errors per rank), 'died'"""
    def __init__(self, kind, cluster, values=None, errors=None):
        self.kind, self.values, self.errors, self.decisions = kind, values, errors, cluster.n
        self.marks, self.what = cluster.marks, cluster.what


# ------------------------------------------------------------------ rank side
def patch_files(root):
    """Make every file operation of the job a scheduling point."""
    root = os.path.realpath(root)

    def mine(p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p).startswith(root)

    def wrap(mod, name):
        f = getattr(mod, name)

        def g(path, *a, **k):
            if mine(path):
                link.step(name)
            return f(path, *a, **k)
        setattr(mod, name, g)

    for n in ('makedirs', 'mkdir', 'remove', 'unlink', 'replace', 'rename', 'listdir'):
        wrap(os, n)
    for n in ('exists', 'isfile', 'isdir'):
        wrap(os.path, n)
    real_open = builtins.open

    def opener(path, mode='r', *a, **k):
        if not mine(path):
            return real_open(path, mode, *a, **k)
        link.step('open')
        f = real_open(path, mode, *a, **k)
        if 'r' not in mode:
            link.step('opened')
        return f
    builtins.open = opener


class H5Attrs(object):
    def __init__(self, f, path):
        self.f, self.path = f, path

    def __setitem__(self, k, v):
        from .core import canon
        link.note('h5.attr', (self.path, k, canon(v)))
        self.f.ops.append(('attr', self.path, k, v))
        self.f.values[self.path, k] = v

    def create(self, name, data, shape=None, dtype=None):
        self[name] = data if dtype is None and shape is None else np.asarray(data, dtype=dtype).reshape(
            np.shape(data) if shape is None else shape)

    def update(self, *a, **k):
        for n, v in dict(*a, **k).items():
            self[n] = v

    def modify(self, name, value):
        self[name] = value

    def keys(self):
        return [k for p, k in self.f.values if p == self.path]

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __contains__(self, k):
        return (self.path, k) in self.f.values

    def __getitem__(self, k):
        return self.f.values[self.path, k]

    def get(self, k, default=None):
        return self.f.values.get((self.path, k), default)


class H5Group(object):
    def __init__(self, f, path):
        self.f, self.path = f, path
        self.attrs = H5Attrs(f, path)

    def create_group(self, name):
        p = self.path + '/' + name
        link.note('h5.create_group', (p,))
        if p in self.f.names:
            raise ValueError('Unable to create group (name already exists)')
        self.f.names.add(p)
        self.f.ops.append(('group', p))
        return H5Group(self.f, p)

    def require_group(self, name):
        p = self.path + '/' + name.strip('/')
        return self[name] if p in self.f.names else self.create_group(name)

    def __getitem__(self, name):
        p = self.path + '/' + name.strip('/')
        if p not in self.f.names:
            raise KeyError("Unable to open object (object '%s' doesn't exist)" % name)
        return self.f.dsets.get(p) or H5Group(self.f, p)

    def __contains__(self, name):
        return self.path + '/' + name.strip('/') in self.f.names

    def __setitem__(self, name, data):
        self.create_dataset(name, data=data)

    def keys(self):
        n = len(self.path) + 1
        return sorted(k[n:] for k in self.f.names if k.startswith(self.path + '/') and '/' not in k[n:])

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def require_dataset(self, name, shape, dtype, **kw):
        p = self.path + '/' + name.strip('/')
        return self[name] if p in self.f.names else self.create_dataset(name, shape, dtype, **kw)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if data is not None:
            data = np.asarray(data)
            shape, dtype = data.shape if shape is None else shape, data.dtype if dtype is None else dtype
        p = self.path + '/' + name
        shape = tuple(int(x) for x in shape)
        link.note('h5.create_dataset', (p, shape, str(dtype), str(sorted((k, v) for k, v in kw.items() if v))))
        if p in self.f.names:
            raise ValueError('Unable to create dataset (name already exists)')
        self.f.names.add(p)
        self.f.ops.append(('dset', p, shape, dtype, kw))
        d = self.f.dsets[p] = H5Dset(self.f, p, shape, dtype)
        if data is not None:
            d[...] = data
        return d


class H5Dset(object):
    def __init__(self, f, path, shape, dtype=None):
        self.f, self.path, self.shape = f, path, shape
        self.dtype = np.dtype(dtype if dtype is not None else 'f4')
        self.attrs = H5Attrs(f, path)

    size = property(lambda self: int(np.prod(self.shape)))
    ndim = property(lambda self: len(self.shape))
    name = property(lambda self: self.path)

    @property
    def collective(self):
        return contextlib.nullcontext()

    def write_direct(self, source, source_sel=None, dest_sel=None):
        self[... if dest_sel is None else dest_sel] = source if source_sel is None else source[source_sel]

    def __setitem__(self, k, v):
        probe = np.empty(self.shape, dtype='b')[k]
        v = np.array(v)
        np.broadcast_to(v, probe.shape)         # h5py refuses what does not fit
        self.f.writes.append((self.path, k, v))


class H5File(H5Group):
    """h5py.File(..., 'w', driver='mpio') of the simulated cluster."""

    def __init__(self, name, real):
        self.real, self.name, self.ops, self.writes, self.names = real, str(name), [], [], set()
        self.values, self.dsets = {}, {}
        H5Group.__init__(self, self, '')
        err = None
        if link.rank() == 0:
            try:
                with open(self.name, 'wb') as f:
                    f.write(b'incomplete')
            except OSError as e:
                err = str(e)
        errs = link.coll('h5.open', (os.path.abspath(self.name), 'w'), err)
        if errs[0] is not None:
            raise OSError('Unable to create file (%s)' % errs[0])
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    filename = property(lambda self: self.name)
    mode = 'r+'

    def __bool__(self):
        return not self.closed

    def flush(self):
        pass

    def close(self):
        if self.closed:
            return
        self.closed = True
        allw = link.coll('h5.close', (self.name,), self.writes)
        if link.rank() == 0:
            tmp = os.path.join(link._link.root, '.h5assemble') if link._link else self.name + '.as'
            with self.real(tmp, 'w') as f:
                for op in self.ops:
                    if op[0] == 'group':
                        f.create_group(op[1])
                    elif op[0] == 'dset':
                        f.create_dataset(op[1], op[2], dtype=op[3], **op[4])
                for op in self.ops:
                    if op[0] == 'attr':
                        f[op[1] or '/'].attrs[op[2]] = op[3]
                for w in allw:
                    for path, k, v in w:
                        f[path][k] = v
            with open(tmp, 'rb') as f:
                data = f.read()
            os.unlink(tmp)
            with open(self.name, 'wb', buffering=0) as f:
                h = len(data) // 2
                f.write(data[:h])
                link.step('h5.write')
                f.write(data[h:])
        link.coll('h5.closed', (self.name,))


def patch_h5():
    import h5py
    real = h5py.File

    def File(name, mode='r', driver=None, comm=None, **kw):
        if driver != 'mpio':
            return real(name, mode, driver=driver, **kw)
        if mode in ('w', 'w-', 'x'):
            if mode != 'w':
                if link.coll('h5.exists', (), os.path.exists(name))[0]:
                    raise FileExistsError('Unable to create file (unable to open file: file exists)')
            return H5File(name, real)
        if mode == 'r':
            err = None
            if link.rank() == 0:
                try:
                    real(name, 'r').close()
                except OSError as e:
                    err = e
            err = link.coll('h5.open', (os.path.abspath(name), 'r'), err)[0]
            if err is not None:
                raise err
            return real(name, 'r')
        raise HarnessError('simulated h5py: mode %r' % mode)
    h5py.File = File


def rank_main(sock, rank, size, fn, opts, root, disk):
    ctx = Ctx(root)
    ctx.disk = disk
    link._link = link.Link(sock, rank, size, opts['pgrids'], root)
    try:
        import petsc4py.PETSc as PETSc
        if not opts.get('mpiio', True):
            del PETSc.Viewer.createMPIIO
        patch_h5()
        link._link.call('step', 'start')
        patch_files(root)
        val = fn(rank, ctx)
        msg = ('done', val, ctx.record())
    except Violation as e:
        msg = ('violation', e.kind, 'rank %d: %s' % (rank, e.detail), ctx.record())
    except HarnessError as e:
        msg = ('harness', str(e))
    except EOFError:
        os._exit(3)
    except BaseException as e:
        tb = sys.exc_info()[2]
        d = '%s: %s [%s]' % (type(e).__name__, str(e)[:400], short_tb(tb))
        if from_repo(tb):
            msg = ('raise', type(e).__name__, d, ctx.record())
        else:
            msg = ('harness', d + '\n' + traceback.format_exc()[-3000:])
    try:
        link.send(sock, msg)
    except BaseException:
        traceback.print_exc()
        os._exit(70)
    os._exit(0)


# ------------------------------------------------------------------ scheduler
class Rank(object):
    state = 'ready'         # ready, coll, gather, xchg, done, raised
    what = ''
    reply = None
    value = None


class Cluster(object):
    def __init__(self, ctx, size, opts, sched=(), death=None, label=''):
        self.ctx, self.size, self.opts, self.death, self.label = ctx, size, opts, death, label
        self.sched = [list(x) for x in sched]
        self.stall = {}
        self.n = 0
        self.box = {}
        self.notes = [[] for _ in range(size)]
        self.colls = [0] * size
        self.ahead = 0
        self.marks = []
        self.what = []

    def start(self, fn):
        sys.stdout.flush()
        self.ranks = []
        socks = []
        for r in range(self.size):
            a, b = socket.socketpair()
            pid = os.fork()
            if pid == 0:
                a.close()
                for s in socks:
                    s.close()
                rank_main(b, r, self.size, fn, self.opts, self.ctx.root, self.ctx.disk)
            b.close()
            a.settimeout(RANK_TIMEOUT)
            socks.append(a)
            k = Rank()
            k.sock, k.pid = a, pid
            self.ranks.append(k)
            k.state = 'new'

    def kill(self):
        for k in self.ranks:
            try:
                os.kill(k.pid, signal.SIGKILL)
            except OSError:
                pass
        self.status = []
        for k in self.ranks:
            self.status.append(os.waitpid(k.pid, 0)[1])
            k.sock.close()

    def run(self, fn):
        self.start(fn)
        try:
            try:
                for r in range(self.size):
                    self.get(r)
                return self.loop()
            except JobDead:
                self.ctx.ev('job-death', self.n)
                self.ctx.tok('X')
                return Outcome('died', self)
        finally:
            self.kill()

    # one message from a rank
    def recv(self, r):
        k = self.ranks[r]
        try:
            return link.recv(k.sock)
        except socket.timeout:
            raise Violation('no-progress', '%s rank %d did not come back within %g s' % (self.label, r, RANK_TIMEOUT))
        except (EOFError, ConnectionError):
            pid, st = os.waitpid(k.pid, os.WNOHANG)
            for _ in range(200):
                if pid:
                    break
                import time
                time.sleep(.01)
                pid, st = os.waitpid(k.pid, os.WNOHANG)
            self.ranks = [x for x in self.ranks if x is not k] if pid else self.ranks
            if pid and os.WIFEXITED(st) and os.WEXITSTATUS(st) == CRASH_CODE:
                raise JobDead()
            raise Violation('process-died', '%s rank %d died (status %s) in mid-run' % (self.label, r, st))

    def get(self, r):
        k = self.ranks[r]
        m = self.recv(r)
        while m[0] == 'mark':
            self.marks.append((r, m[1]))
            link.send(k.sock, (True, None))
            m = self.recv(r)
        op = m[0]
        if op == 'step':
            k.state, k.what, k.reply = 'ready', m[1], None
        elif op == 'coll':
            k.state, k.what, k.sig, k.payload = 'coll', m[1], m[2], m[3]
            self.colls[r] += 1
            self.log(r, 'C:' + m[1], m[2])
        elif op == 'gather':
            self.log(r, 'G:' + m[1], m[2])
            self.colls[r] += 1
            self.post(('gather', self.colls[r]), r, m[4], m[3])
            if r == m[4]:
                k.state, k.what, k.key, k.src = 'gather', m[1], ('gather', self.colls[r]), list(range(self.size))
            else:
                k.state, k.what, k.reply = 'ready', m[1], None
        elif op == 'note':
            self.log(r, 'N:' + m[1], m[2])
            k.state, k.what, k.reply = 'ready', m[1], None
        elif op == 'xchg':
            key = ('x', m[1], m[2])
            for dst, pay in m[3].items():
                self.post(key, r, dst, pay)
            k.state, k.what, k.key, k.src = 'xchg', m[1], key, m[4]
        elif op == 'done':
            k.state, k.value, k.rec, k.what = 'done', m[1], m[2], 'end'
        elif op == 'raise':
            k.state, k.err, k.rec, k.what = 'raised', (m[1], m[2]), m[3], 'exception'
        elif op == 'violation':
            self.ctx.merge(m[3])
            raise Violation(m[1], m[2])
        elif op == 'harness':
            raise HarnessError('rank %d: %s' % (r, m[1]))
        else:
            raise HarnessError('message %r' % (op,))

    def post(self, key, src, dst, pay):
        self.box[(key, src, dst)] = pay

    def log(self, r, name, sig):
        """All ranks must announce the same sequence of collective operations."""
        mine = self.notes[r]
        i = len(mine)
        mine.append((name, sig))
        for o in range(self.size):
            if o != r and len(self.notes[o]) > i:
                other = self.notes[o][i]
                if other != (name, sig):
                    raise Violation('collective-mismatch',
                                    '%s operation %d: rank %d calls %s%s where rank %d called %s%s' % (
                                        self.label, i, r, name, self.plain(sig), o, other[0], self.plain(other[1])))
                break

    def plain(self, sig):
        return str(sig).replace(os.path.realpath(self.ctx.root), '').replace(self.ctx.root, '')

    def resolve(self):
        ks = self.ranks
        if all(k.state == 'coll' for k in ks):
            vals = [k.payload for k in ks]
            for k in ks:
                k.state, k.reply = 'ready', vals
        for r, k in enumerate(ks):
            if k.state in ('xchg', 'gather') and all((k.key, s, r) in self.box for s in k.src):
                got = {s: self.box.pop((k.key, s, r)) for s in k.src}
                k.reply = got if k.state == 'xchg' else [got[s] for s in k.src]
                k.state = 'ready'

    def pick(self, ready):
        while self.sched:
            e = self.sched[0]
            if e[1] <= 0:
                self.sched.pop(0)
                continue
            if e[0] < 0:
                self.stall[-e[0] - 1] = self.stall.get(-e[0] - 1, 0) + e[1]
                self.sched.pop(0)
                continue
            break
        free = [r for r in ready if self.stall.get(r, 0) <= 0] or ready
        for r in list(self.stall):
            self.stall[r] -= 1
            if self.stall[r] <= 0:
                del self.stall[r]
        if self.sched:
            e = self.sched[0]
            e[1] -= 1
            want = e[0] % self.size
            if want in free:
                return want
        return free[0]

    def loop(self):
        ctx = self.ctx
        last = None
        while True:
            self.resolve()
            ready = [r for r, k in enumerate(self.ranks) if k.state == 'ready']
            if not ready:
                break
            if self.death is not None and self.n >= self.death:
                raise JobDead()
            r = self.pick(ready)
            if r != min(ready):
                self.ahead += 1
            k = self.ranks[r]
            if r != last:
                ctx.tok(r)
                last = r
            ctx.h.update(('%d%s;' % (r, k.what)).encode())
            self.n += 1
            self.what.append(k.what)
            k.state = 'running'
            link.send(k.sock, (True, k.reply))
            k.reply = None
            self.get(r)
        ctx.fault('schedule-perturbed', self.ahead)
        states = [k.state for k in self.ranks]
        for k in self.ranks:
            if k.state in ('done', 'raised'):
                ctx.merge(k.rec)
        if all(s == 'done' for s in states):
            self.tails()
            return Outcome('ok', self, [k.value for k in self.ranks])
        if all(s == 'raised' for s in states):
            self.tails()
            return Outcome('raised', self, errors=[k.err for k in self.ranks])
        det = []
        for r, k in enumerate(self.ranks):
            if k.state == 'done':
                det.append('rank %d has finished' % r)
            elif k.state == 'raised':
                det.append('rank %d raised %s' % (r, k.err[1][:200]))
            else:
                det.append('rank %d waits in %s %s' % (r, k.state, k.what))
        if any(s in ('coll', 'gather', 'xchg') for s in states):
            raise Violation('deadlock', self.plain('%s %s' % (self.label, '; '.join(det))))
        raise Violation('not-all-raise', '%s %s' % (self.label, '; '.join(det)))

    def tails(self):
        n = [len(x) for x in self.notes]
        if len(set(n)) != 1:
            raise Violation('collective-mismatch', '%s numbers of collective operations differ: %s' % (self.label, n))


class JobDead(Exception):
    pass


def run(ctx, size, fn, opts, sched=(), death=None, label=''):
    return Cluster(ctx, size, opts, sched, death, label).run(fn)


def must(out, label=''):
    """The values of a job that was expected to complete."""
    if out.kind == 'raised':
        raise Violation('unexpected-exception', '%s every process raised: %s' % (label, out.errors[0][1]))
    if out.kind != 'ok':
        raise HarnessError('%s job %s' % (label, out.kind))
    return out.values


# ------------------------------------------------------------------ generators
def factor_grids(P, n, minw):
    """Process grids of P processes in len(n) dimensions with local width >= minw."""
    d = len(n)

    def rec(P, k):
        if k == 1:
            yield (P,)
            return
        for a in range(1, P + 1):
            if P % a == 0:
                for rest in rec(P // a, k - 1):
                    yield (a,) + rest
    return [g for g in rec(P, d) if all(n[i] // g[i] >= minw for i in range(d))]


def num_ghost(cfg):
    if cfg['solver'] == 'classic':
        return 2
    if cfg.get('lim_type', 2) == 1:
        return 2
    return (cfg.get('weno_order', 5) + 1) // 2


def gen_cluster(rng, cfg, sizes=(1, 2, 2, 3, 4, 4, 5, 6), minw=None):
    """{'P', 'pgrids', 'mpiio'} for a problem, or a grid of one process when none fits."""
    minw = minw if minw is not None else num_ghost(cfg)
    n = cfg['n']
    cand = []
    for _ in range(8):
        P = rng.choice(sizes)
        g = factor_grids(P, n, minw)
        if g:
            cand = [(P, rng.choice(g))]
            break
    if not cand:
        cand = [(1, (1,) * len(n))]
    P, g = cand[0]
    return {'P': P, 'pgrids': {str(len(n)): list(g)}, 'mpiio': rng.random() < .6}


def gen_sched(rng, P, n=None):
    mode = rng.choice(['bursts', 'fine', 'stall', 'mixed', 'none'])
    if P == 1 or mode == 'none':
        return []
    k = n if n is not None else rng.choice([5, 20, 60])
    out = []
    for _ in range(k):
        r = rng.randrange(P)
        if mode == 'fine':
            out.append([r, 1])
        elif mode == 'bursts':
            out.append([r, rng.choice([3, 10, 40])])
        elif mode == 'stall':
            out.append([-r - 1, rng.choice([20, 100, 400])])
            out.append([rng.randrange(P), rng.choice([1, 20])])
        else:
            out.append([r, rng.choice([1, 1, 2, 5, 20])])
            if rng.random() < .2:
                out.append([-rng.randrange(P) - 1, rng.choice([5, 30, 200])])
    return out


def preimport():
    """Put the stand-ins on the path and load everything before forking."""
    from .core import preimport as base, VERIF

    d = os.path.join(VERIF, 'sim', 'stubs')
    if d not in sys.path:
        sys.path.insert(0, d)
    import importlib
    from clawpack import pyclaw, riemann          # noqa: F401
    from clawpack import petclaw                  # noqa: F401
    import clawpack.petclaw.fileio.petsc          # noqa: F401
    import clawpack.petclaw.fileio.hdf5           # noqa: F401
    import clawpack.pyclaw.fileio.ascii           # noqa: F401
    import clawpack.pyclaw.fileio.hdf5            # noqa: F401
    for dd in (1, 2, 3):
        importlib.import_module('clawpack.pyclaw.classic.classic%d' % dd)
        importlib.import_module('clawpack.pyclaw.sharpclaw.sharpclaw%d' % dd)
    from .core import prepare
    prepare()

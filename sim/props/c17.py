"""C17  Gauge series read back as they were written, or raise."""
import errno
import io
import os
import warnings
import contextlib
import numpy as np
from ..core import Disk

ID = 'C17'
COUNT = {'quick': 12000, 'thorough': 400000}
TIMEOUT = 60.0
RULE = ('Each run is a history of writing and reading gauge series (GaugeSolution, 1D to 3D, stationary and Lagrangian), of gauge files as '
        'AMRClaw writes them (ascii, binary64, binary32) and goes on writing them, and of old-style fort.gauge files being converted, in one '
        'directory, with failing opens, reads and writes (EIO, ENOSPC, EACCES, EMFILE), full disks, short transfers and files cut off at any '
        'byte, removed or exchanged behind the program.  A model of the store says what each read may return.  The signature is the '
        'sequence of operations, faults that fired and outcomes.')
REAL = ['pyclaw.gauges', 'numpy.loadtxt, numpy.fromfile', 'Python io']
STUB = ['disk failures (LD_PRELOAD shim over the real file system, scratch directory)', 'AMRClaw gauge output (a small writer of that format)']
ASSUMPTIONS = ['A file without any record reads as no data, with a warning, or raises.',
               'numpy.fromfile (binary series) is not intercepted: the binary files meet truncation, removal and failing opens; the text header of a binary '
               'series, which says how wide its numbers are, is not cut off.',
               'A series is not written over a binary one of the same number.']
PROBES = ['write-failed', 'read-failed', 'disk-full', 'retry-ok', 'prefix-read', 'cut-raised', 'no-data', 'missing-raised', 'other-id-raised', 'reread',
          '1d', '2d', '3d', 'lagrangian', 'stationary', 'own', 'amr-ascii', 'amr-binary64', 'amr-binary32', 'amr-old', 'one-record', 'growing', 'converted',
          'convert-failed', 'cut-last-number', 'extreme-values', 'format']
LISTS = ('ops',)
ERRNO = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE, 'EDQUOT': errno.EDQUOT}
FORMS = ['ascii', 'ascii', 'binary64', 'binary', 'binary32', 'old']


def gen(rng, i, tier):
    ns = rng.randint(1, 3)
    sers = []
    for k in range(ns):
        d = rng.choice([1, 2, 2, 3])
        lag = d == 2 and rng.random() < .35
        sers.append({'d': d, 'lag': lag, 'eq': rng.randint(3 if lag else 1, 6) if rng.random() < .9 else 12, 'n': rng.choice([1, 1, 2, 3, 5, 9, 40]),
                     'seed': rng.randrange(10 ** 6), 'mag': rng.choice([1., 1., 1e-5, 1e8, 1e-150, 'x'])})
    ops = []
    faults = rng.random() < .75
    for k in range(rng.randint(3, 12)):
        f = gen_fault(rng) if faults and rng.random() < .5 else None
        g = rng.randrange(rng.choice([2, 5]))
        x = rng.random()
        if x < .3:
            ops.append(['write', rng.randrange(ns), g, rng.choice([None, None, None, '%.8e', '%15.7e']), f])
        elif x < .5:
            ops.append(['amr', rng.randrange(ns), 10 + g, rng.choice(FORMS)])
        elif x < .55:
            ops.append(['grow', 10 + g, rng.randint(1, 4)])
        elif x < .73:
            ops.append(['read', rng.randrange(3), g + rng.choice([0, 10]), f])
        elif x < .93:
            ops.append(['cut', g + rng.choice([0, 10]), round(rng.random(), 4)])
        elif x < .95:
            ops.append(['remove', g + rng.choice([0, 10])])
        elif x < .97:
            ops.append(['exchange', g + rng.choice([0, 10]), rng.randrange(5) + 20])
        else:
            ops.append(['convert', rng.randint(1, 3), rng.randint(2, 6), rng.randint(1, 4), rng.randrange(10 ** 6), f])
    return {'sers': sers, 'ops': ops, 'ids': [rng.choice([0, 1, 7, 42, 12345, 123456]), rng.choice([1, 3])]}


def gen_fault(rng):
    return [rng.choice(['err', 'err', 'full', 'short']), round(rng.random(), 4), rng.choice(sorted(ERRNO)), rng.randint(1, 400)]


class Ser(object):
    """A series: what one gauge file holds."""

    def __init__(self, loc, gtype, level, t, q, num=None):
        self.loc, self.gtype, self.level, self.t, self.q, self.num = tuple(loc), gtype, level, t, q, num

    def copy(self):
        return Ser(self.loc, self.gtype, self.level.copy(), self.t.copy(), self.q.copy(), self.num)


def make(s, rs=None, n=None):
    rs = rs or np.random.RandomState(s['seed'])
    n = n or s['n']
    loc = [round(float(x), 4) for x in rs.uniform(-180, 180, s['d'])]
    q = rs.standard_normal((s['eq'], n))
    if s['mag'] == 'x':
        q = q * 10. ** rs.randint(-290, 290, q.shape)
        bad = rs.rand(*q.shape)
        q[bad < .1] = np.nan
        q[(bad > .1) & (bad < .15)] = np.inf
        q[bad > .9] = 0.
        q[(bad > .8) & (bad < .85)] = -0.
    else:
        q = q * s['mag']
    t = np.cumsum(rs.uniform(.01, 3., n)) + rs.choice([0., -50., 1e6])
    return Ser(loc, 'lagrangian' if s['lag'] else 'stationary', rs.randint(1, 12, n).astype(np.int64), t, q)


def name(gid):
    return 'gauge%s.txt' % str(gid).zfill(5)


def amr_write(path, gid, s, form):
    """A gauge as AMRClaw writes it (old: as older versions did, without type and format lines)."""
    with open(os.path.join(path, name(gid)), 'w') as f:
        f.write('# gauge_id= %5d location=( %s ) num_eqn= %2d\n' % (gid, ' '.join('%17.10e' % x for x in s.loc), s.q.shape[0]))
        if form != 'old':
            f.write('# %s\n' % ('Lagrangian particle, q[2,3] replaced by x(t), y(t)' if s.gtype == 'lagrangian' else 'Stationary gauge'))
        f.write('# level, time, q[%s]\n' % ' '.join('%3d' % (m + 1) for m in range(s.q.shape[0])))
        if form != 'old':
            f.write('# file format %s\n' % ('ascii, time series follow in this file' if form == 'ascii' else form + ', time series in .bin file'))
        if form in ('ascii', 'old'):
            for i in range(len(s.t)):
                f.write('%5d %15.7e %s\n' % (s.level[i], s.t[i], ' '.join('%15.7e' % v for v in s.q[:, i])))
    if form not in ('ascii', 'old'):
        with open(os.path.join(path, name(gid)[:-3] + 'bin'), 'wb') as f:
            f.write(np.vstack([s.level.astype(float), s.t, s.q]).ravel(order='F').astype('<f4' if form == 'binary32' else '<f8').tobytes())


TOL = {'own': 1.2e-15, '%.8e': 1e-8, '%15.7e': 1e-7, 'ascii': 1e-7, 'old': 1e-7, 'binary64': 0., 'binary': 0., 'binary32': 1e-7}


def near(a, b, rtol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        tiny = 1e-37 if rtol == 1e-7 else 1e-307
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rtol * np.abs(b)) | ((np.abs(a) < tiny) & (np.abs(b) < tiny))
                           | (np.isinf(a) & (np.abs(b) > 1e38) & (rtol == 1e-7) & (np.sign(a) == np.sign(b)))))


def why_not(g, gid, s, form, full):
    """None if the object holds the series (or, not full, a beginning of it)."""
    tol = TOL[form]
    tt = {'own': 1.2e-15, '%.8e': 1.2e-15, '%15.7e': 1.2e-15}.get(form, tol)
    if int(g.id) != gid:
        return 'id %r, not %r' % (g.id, gid)
    if not near(g.location, s.loc, 1e-9):
        return 'location %r, not %r' % (g.location, s.loc)
    if g.gtype != s.gtype:
        return 'type %r, not %r' % (g.gtype, s.gtype)
    k = len(g.t)
    if k < 1 or k > len(s.t) or full and k != len(s.t):
        return '%d records, not %d' % (k, len(s.t))
    if not np.array_equal(np.asarray(g.level), s.level[:k]):
        return 'levels %r, not %r' % (g.level, s.level[:k])
    if not near(g.t, s.t[:k], tt):
        return 'times %r, not %r' % (g.t, s.t[:k])
    if not near(g.q, s.q[:, :k], tol):
        return 'values %r, not %r' % (np.asarray(g.q).tolist(), s.q[:, :k].tolist())
    p = g.particle_path
    if len(s.loc) == 2:
        w = np.vstack([s.t[:k], s.q[1, :k], s.q[2, :k]]).T if s.gtype == 'lagrangian' else np.array([[s.t[0]] + list(s.loc)])
        if p is None or not near(p, w, max(tol, tt, 1e-9)):
            return 'particle path %r, not %r' % (p, w)
    elif p is not None:
        return 'a particle path %r in %dD' % (p, len(s.loc))
    return None


def no_data(g):
    return g.level is None and g.t is None and g.q is None and g.particle_path is None


def mem(g):
    return repr((g.id, g.location, g.gtype, np.asarray(g.level).tolist(), np.asarray(g.t).tolist(), np.asarray(g.q).tolist()))


class Sim(object):
    def __init__(self, ctx, sc):
        from clawpack.pyclaw import gauges
        self.mod = gauges
        self.ctx, self.sc = ctx, sc
        self.disk = ctx.use_disk()
        self.path = ctx.dir('g')
        self.tmp = ctx.dir('dry')
        self.sers = [make(s) for s in sc['sers']]
        self.objs = [gauges.GaugeSolution() for _ in range(3)]
        self.used = [False] * 3
        # gauge id -> (list of (series, form, full) a successful read may return, certain)
        self.store = {}

    def gid(self, k):
        a, b = self.sc['ids']
        return a + b * k

    def quiet(self, fn):
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            return fn()

    def attempt(self, fn, fault, cls, dry):
        """fn with the fault inside; returns (exception or None, faults that fired)."""
        d = self.disk
        if fault is not None:
            w, r = d.wops(), d.rops()
            try:
                self.quiet(dry)
            except Exception:
                pass
            n = d.wops() - w if cls == Disk.WRITE else d.rops() - r
            if n:
                base = d.wops() if cls == Disk.WRITE else d.rops()
                kind, frac, en, arg = fault
                if cls == Disk.READ:
                    kind = 'err' if kind == 'full' else kind
                    en = en if en in ('EACCES', 'EMFILE') else 'EIO'
                d.plan(base + min(n - 1, int(frac * n)), cls, {'err': Disk.ERR, 'full': Disk.ERR_STICKY, 'short': Disk.SHORT}[kind],
                       {'err': ERRNO[en], 'full': errno.ENOSPC, 'short': arg}[kind])
        b = {k: d.fired(k) for k in (Disk.ERR, Disk.ERR_STICKY, Disk.SHORT)}
        err = None
        try:
            self.quiet(fn)
        except Exception as e:
            err = e
        f = []
        for k, n in ((Disk.ERR, 'io-error'), (Disk.ERR_STICKY, 'disk-full'), (Disk.SHORT, 'short-transfer')):
            c = d.fired(k) - b[k]
            if c:
                self.ctx.fault(n, c)
                f.append(n)
        d.clear()
        return err, f

    def judge(self, g, gid, wants, certain, what):
        """A read that returned normally."""
        ctx = self.ctx
        ctx.check(wants, 'read-nothing', '%s: gauge %d is not there and reads normally' % (what, gid))
        if no_data(g) or g.t is not None and len(g.t) == 0 and not certain:
            ctx.check(not certain, 'data-lost', '%s: gauge %d reads as no data' % (what, gid))
            ctx.probe('no-data')
            return
        ctx.check(g.level is not None and g.t is not None and g.q is not None, 'half-read', '%s: gauge %d' % (what, gid))
        why = [why_not(g, gid, s, form, full) for s, form, full in wants]
        ctx.check(None in why, 'wrong-series', '%s: gauge %d: %s' % (what, gid, why))
        if len(g.t) < len(wants[why.index(None)][0].t):
            ctx.probe('prefix-read')

    def look(self, gid, what, must=False):
        """Read into a fresh object and judge."""
        wants, certain = self.store.get(gid, ([], False))
        g = self.mod.GaugeSolution()
        try:
            self.quiet(lambda: g.read(gid, self.path))
        except Exception as e:
            self.ctx.check(not certain, 'read-raised', '%s: gauge %d is there and does not read: %r' % (what, gid, e))
            return 'raised'
        self.judge(g, gid, wants, certain, what)
        return 'ok'

    def others(self, but, what):
        for gid, (w, certain) in sorted(self.store.items()):
            if certain and gid not in but:
                self.look(gid, what)

    def gauge(self, s, gid):
        g = self.mod.GaugeSolution()
        g.id, g.location, g.level, g.t, g.q, g.gtype = gid, s.loc, s.level.copy(), s.t.copy(), s.q.copy(), s.gtype
        return g

    def do_write(self, k, gk, fmt, fault):
        ctx = self.ctx
        gid = self.gid(gk)
        s = self.sers[k % len(self.sers)]
        g = self.gauge(s, gid)
        ctx.probe('own')
        ctx.probe(s.gtype)
        ctx.probe('%dd' % len(s.loc))
        if len(s.t) == 1:
            ctx.probe('one-record')
        if self.sc['sers'][k % len(self.sers)]['mag'] == 'x':
            ctx.probe('extreme-values')
        kw = {} if fmt is None else {'format': fmt}
        if fmt:
            ctx.probe('format')
        h = mem(g)
        old = self.store.get(gid, ([], False))[0]
        err, f = self.attempt(lambda: g.write(self.path, **kw), fault, Disk.WRITE, lambda: g.write(self.tmp, **kw))
        ctx.tok('w%s%s' % (''.join(x[0] for x in f), '!' if err else ''))
        ctx.ev('write', gid, err is not None, f)
        ctx.check(mem(g) == h, 'memory-changed', 'writing gauge %d changed it' % gid)
        form = fmt or 'own'
        if err is not None:
            ctx.check(f, 'write-raised', 'gauge %d: %r and nothing had failed' % (gid, err))
            ctx.probe('write-failed')
            if 'disk-full' in f:
                ctx.probe('disk-full')
            self.store[gid] = ([(s, form, False)] + [(a, b, False) for a, b, c in old], False)
            self.look(gid, 'after a failed write')
            self.others([gid], 'after a failed write of gauge %d' % gid)
            try:
                g.write(self.path, **kw)
            except Exception as e:
                ctx.fail('retry-failed', 'gauge %d after a failed write: %r' % (gid, e))
            ctx.probe('retry-ok')
        self.store[gid] = ([(s, form, True)], True)
        self.look(gid, 'just written (faults %s)' % f)

    def do_amr(self, k, gk, form):
        gid = self.gid(gk)
        s = self.sers[k % len(self.sers)].copy()
        if form == 'old':
            s.gtype = 'stationary'
        for x in (name(gid)[:-3] + 'bin', name(gid)):
            if os.path.exists(os.path.join(self.path, x)):
                os.unlink(os.path.join(self.path, x))
        amr_write(self.path, gid, s, form)
        self.ctx.probe('amr-old' if form == 'old' else 'amr-ascii' if form == 'ascii' else 'amr-binary32' if form == 'binary32' else 'amr-binary64')
        self.ctx.probe('%dd' % len(s.loc))
        self.ctx.probe(s.gtype)
        self.store[gid] = ([(s, form, True)], True)
        self.ctx.tok('a' + form[-1])
        self.look(gid, 'as AMRClaw writes it')

    def do_grow(self, gk, n):
        """The run that writes the series goes on."""
        gid = self.gid(gk)
        wants, certain = self.store.get(gid, ([], False))
        if not certain or wants[0][1] not in FORMS:
            return
        s, form = wants[0][0].copy(), wants[0][1]
        rs = np.random.RandomState(len(s.t))
        s.level = np.append(s.level, rs.randint(1, 5, n))
        s.t = np.append(s.t, s.t[-1] + np.cumsum(rs.rand(n) + .1))
        s.q = np.hstack([s.q, rs.standard_normal((s.q.shape[0], n))])
        amr_write(self.path, gid, s, form)
        self.store[gid] = ([(s, form, True)], True)
        self.ctx.probe('growing')
        self.ctx.tok('+')
        self.look(gid, 'after it grew')

    def do_read(self, o, gk, fault):
        ctx = self.ctx
        gid = self.gid(gk)
        g = self.objs[o]
        wants, certain = self.store.get(gid, ([], False))
        err, f = self.attempt(lambda: g.read(gid, self.path), fault, Disk.READ, lambda: self.mod.GaugeSolution().read(gid, self.path))
        ctx.tok('r%s%s' % (''.join(x[0] for x in f), '!' if err else ''))
        ctx.ev('read', gid, err is not None, f)
        if self.used[o]:
            ctx.probe('reread')
        self.used[o] = True
        if err is None:
            self.judge(g, gid, wants, certain, 'read (faults %s) into an object used before' % f)
        else:
            ctx.check(not certain or 'io-error' in f or 'disk-full' in f, 'read-raised', 'gauge %d is there and does not read: %r (faults %s)' % (gid, err, f))
            ctx.probe('read-failed' if f else 'missing-raised' if not wants else 'cut-raised')

    def do_cut(self, gk, frac):
        gid = self.gid(gk)
        wants, certain = self.store.get(gid, ([], False))
        if not wants:
            return
        p = os.path.join(self.path, name(gid))
        if all(w[1] in ('binary', 'binary32', 'binary64') for w in wants):
            p = p[:-3] + 'bin'
        if not os.path.exists(p):
            return
        n = os.path.getsize(p)
        if n == 0:
            return
        cut = int(frac * 1.6 * n)
        if frac > .6:
            cut = n - 1 - int((1 - frac) * 2.5 * 25)            # near the end: inside the last number
            self.ctx.probe('cut-last-number')
        cut = max(0, min(cut, n - 1))
        if int(frac * 10000) % 3 == 0:                          # after a whole record
            if p.endswith('txt'):
                with open(p, 'rb') as f:
                    cut = f.read(cut).rfind(b'\n') + 1
            else:
                w = (wants[0][0].q.shape[0] + 2) * (4 if wants[0][1] == 'binary32' else 8)
                cut = cut // w * w
        with open(p, 'r+b') as f:
            f.truncate(cut)
        self.ctx.fault('file-truncated')
        self.store[gid] = ([(a, b, False) for a, b, c in wants], False)
        self.ctx.tok('c')
        r = self.look(gid, 'cut off at %d of %d bytes' % (cut, n))
        if r == 'raised':
            self.ctx.probe('cut-raised')

    def do_remove(self, gk):
        gid = self.gid(gk)
        p = os.path.join(self.path, name(gid))
        if os.path.exists(p):
            os.unlink(p)
            self.ctx.fault('file-removed')
            b = p[:-3] + 'bin'
            if os.path.exists(b):
                os.unlink(b)
            self.store.pop(gid, None)
            self.ctx.tok('x')

    def do_exchange(self, gk, to):
        """The file of one gauge under the name of another."""
        a, b = self.gid(gk), self.gid(to)
        p = os.path.join(self.path, name(a))
        if a == b or not self.store.get(a, ([], False))[1]:
            return
        with open(p) as f:
            text = f.read()
        with open(os.path.join(self.path, name(b)), 'w') as f:
            f.write(text)
        self.ctx.fault('file-exchanged')
        self.store.pop(b, None)
        r = self.look(b, 'the file of gauge %d' % a)
        self.ctx.check(r == 'raised', 'other-id', 'the file of gauge %d reads as gauge %d' % (a, b))
        self.ctx.probe('other-id-raised')
        os.unlink(os.path.join(self.path, name(b)))

    def do_convert(self, ng, eq, nrec, seed, fault):
        ctx = self.ctx
        rs = np.random.RandomState(seed)
        ids = [self.gid(30 + k) for k in range(ng)]
        rows, sers = [], {}
        for k in range(nrec + 1):
            for g in ids:
                if k == 0 or rs.rand() < .8:
                    row = [int(rs.randint(1, 6)), round(k + rs.rand() * .5, 6)] + [round(float(x), 7) for x in rs.standard_normal(eq)]
                    rows.append([g] + row)
                    sers.setdefault(g, []).append(row)
        if len(rows) < 2:
            return
        src = os.path.join(self.path, 'fort.gauge')
        with open(src, 'w') as f:
            for r in rows:
                f.write('%d %d %.15e %s\n' % (r[0], r[1], r[2], ' '.join('%.15e' % x for x in r[3:])))
        err, f = self.attempt(lambda: self.mod.convert_gauges(src, self.path), fault, Disk.WRITE, lambda: self.mod.convert_gauges(src, self.tmp))
        ctx.tok('v%s' % ('!' if err else ''))
        ctx.ev('convert', ids, err is not None, f)
        if err is not None:
            ctx.check(f, 'convert-raised', 'converting fort.gauge: %r and nothing had failed' % err)
            ctx.probe('convert-failed')
            self.others(ids, 'after a failed conversion')
            self.quiet(lambda: self.mod.convert_gauges(src, self.path))
        for g in ids:
            a = np.array(sers[g])
            self.store[g] = ([(Ser((np.nan, np.nan), 'stationary', a[:, 0].astype(np.int64), a[:, 1], a[:, 2:].T), 'own', True)], True)
            self.look(g, 'converted')
        ctx.probe('converted')


def run(sc, ctx):
    sim = Sim(ctx, sc)
    for op in sc['ops']:
        getattr(sim, 'do_' + op[0])(*op[1:])
    for gid, (w, certain) in sorted(sim.store.items()):
        if certain:
            sim.look(gid, 'at the end')
    ctx.ev('end', sorted((k, v[1]) for k, v in sim.store.items()))

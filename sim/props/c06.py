"""C06  I/O failures are reported and never corrupt anything else."""
import errno
import os
import struct
import numpy as np
from .. import frames as F
from ..core import Disk, Violation

ID = 'C06'
COUNT = {'quick': 9000, 'thorough': 300000}
TIMEOUT = 60.0
RULE = ('Each run is a history of frame writes and reads (ascii, hdf5, ForestClaw; also binary frames as AMRClaw writes them) of several '
        'single- and multi-patch solutions in one directory, with failures injected into the file operations: failing open, '
        'mkdir, write, unlink (EIO, ENOSPC, EACCES, EMFILE), a disk that stays full until space is freed, short writes and '
        'reads, failing reads, frames truncated or removed behind the program.  A model of the store says what each read may '
        'return.  The signature is the sequence of operations, formats, faults that fired and outcomes.')
REAL = ['pyclaw.solution', 'pyclaw.state', 'pyclaw.geometry', 'pyclaw.fileio.ascii', 'pyclaw.fileio.hdf5', 'pyclaw.fileio.binary', 'forestclaw.fileio.ascii', 'forestclaw.geometry',
        'pyclaw.controller', 'h5py/libhdf5', 'Python io']
STUB = ['disk failures (LD_PRELOAD shim over the real file system, scratch directory)', 'AMRClaw binary output (a small writer of that format)']
ASSUMPTIONS = ['ascii stores nine significant digits; hdf5 stores no problem_data; the aux file of an ascii or binary frame is optional and '
               'falls back to that of frame 0, so aux is judged only for frames written with aux.',
               'A frame whose write failed may read back completely (new or untouched old content) or raise.',
               'numpy.fromfile (binary frames) is not intercepted: binary frames meet truncation and removal, not failing calls; their text headers, which older versions wrote shorter, are not truncated.']
PROBES = ['write-failed', 'read-failed', 'short-write', 'short-read', 'disk-full', 'retry-ok', 'truncated-raised', 'truncated-ok', 'missing-raised',
          'reread-after-failure', 'multi-patch', 'many-patches', 'ascii', 'hdf5', 'binary', 'aux', 'forestclaw', 'get-time', 'auto-format', 'controller-failed', 'controller-resumed',
          'mkdir-failed', 'overwrite', 'damaged-read-raised', 'damaged-read-complete', 'options-shared', 'count-3d', 'binary32', 'binary64']
LISTS = ('ops',)

ERRNO = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE, 'EDQUOT': errno.EDQUOT}


def gen(rng, i, tier):
    nsol = rng.randint(1, 3)
    sols = []
    for k in range(nsol):
        d = rng.choice([1, 1, 2, 2, 3])
        npatch = rng.choice([1, 1, 1, 2, 3, 11 if d == 1 else 4])
        sols.append({'d': d, 'n': [[rng.randint(2, 5) for _ in range(d)] for _ in range(npatch)], 'eq': rng.choice([1, 2, 3, 3, 4, 7]),
                     'aux': rng.choice([0, 0, 1, 2, 6]), 'seed': rng.randrange(10 ** 6), 't': rng.choice([0., .125, 1 / 3., -2.5, 1e-7, 12345.678]),
                     'mag': rng.choice([1., 1e-5, 1e8, 1e-150])})
    ops = []
    fmts = rng.choice([['ascii'], ['hdf5'], ['ascii', 'hdf5'], ['ascii', 'hdf5', 'binary'], ['forestclaw'], ['forestclaw', 'hdf5']][:6 if rng.random() < .5 else 4])
    if fmts == ['hdf5'] and rng.random() < .5:
        for s in sols:
            s['tk'] = round(rng.random(), 3)        # every patch at a time of its own, which only hdf5 stores
    faults = rng.random() < .75
    for k in range(rng.randint(3, 9)):
        x = rng.random()
        fr = rng.choice([0, 0, 0, 1, 1, 2, 2, 17, 10203])
        fmt = rng.choice(fmts)
        fault = None
        if faults and rng.random() < .55:
            fault = gen_fault(rng)
        if x < .45:
            ops.append(['write', rng.randrange(nsol), fr, fmt, rng.random() < .5, fault])
        elif x < .75:
            ops.append(['read', rng.randrange(2), fr, fmt, rng.random() < .85, fault])
        elif x < .83:
            ops.append(['truncate', fr, fmt, rng.randrange(4), round(rng.random(), 4)])
        elif x < .87:
            ops.append(['remove', fr, fmt, rng.randrange(2)])
        elif x < .92:
            ops.append(['evolve', rng.randrange(nsol)])
        else:
            ops.append(['ctrl', rng.choice([f for f in fmts if f in ('ascii', 'hdf5')] or ['ascii']), rng.randint(1, 3), rng.random() < .5, gen_fault(rng) if faults else None])
    return {'sols': sols, 'ops': ops, 'forest': 'forestclaw' in fmts, 'auto': rng.random() < .3, 'opt': rng.random() < .3, 'sub': rng.choice(['d', 'd', 'a/b']), 'bin': [rng.choice([64, 64, 32]), rng.choice([2, 2, 0, 1, 3])]}


def gen_fault(rng):
    return [rng.choice(['err', 'err', 'err', 'full', 'short', 'rerr', 'rshort']), round(rng.random(), 4),
            rng.choice(['EIO', 'ENOSPC', 'ENOSPC', 'EACCES', 'EMFILE', 'EDQUOT']), rng.randint(1, 999)]


def build(pyclaw, s, forest=False):
    rs = np.random.RandomState(s['seed'] % (2 ** 31))
    states = []
    pd = {'rho': float(rs.rand()), 'n': int(rs.randint(100)), 'name': 'water', 'vec': [float(x) for x in rs.rand(3)]}       # an ascii frame stores one problem_data
    for k, n in enumerate(s['n']):
        low = [round(float(x), 3) for x in rs.uniform(-2, 2, s['d'])]
        h = [2.0 ** -int(x) for x in rs.randint(1, 6, s['d'])]
        dims = [pyclaw.Dimension(low[i], low[i] + n[i] * h[i], n[i], name='xyz'[i]) for i in range(s['d'])]
        p = pyclaw.Patch(dims)
        if forest:
            from clawpack import forestclaw
            p = forestclaw.Patch(dims)
            p.block_number, p.mpi_rank = [int(x) for x in rs.randint(0, 7, 2)]
        p.patch_index = k + 1
        p.level = 1 + k % 3
        st = pyclaw.State(p, s['eq'], s['aux'])
        st.q[...] = rs.standard_normal(st.q.shape) * s['mag']
        if s['aux']:
            st.aux[...] = rs.uniform(.5, 2., st.aux.shape)
        st.t = s['t'] + k * s.get('tk', 0)
        st.problem_data.update(pd)
        states.append(st)
    return pyclaw.Solution(states, pyclaw.Domain([st.patch for st in states]))


def write_binary(sol, frame, path, aux, ghost=2, prefix='fort', bits=64):
    """A frame as AMRClaw writes it."""
    n = '%04d' % frame
    w = lambda a, g: np.pad(a, [(0, 0)] + [(g, g)] * (a.ndim - 1), mode='edge').ravel(order='F').astype('<f%d' % (bits // 8))
    with open(os.path.join(path, prefix + '.b' + n), 'wb') as f:
        for s in sol.states:
            f.write(w(s.q, ghost).tobytes())
    a = os.path.join(path, prefix + '.a' + n)
    if aux and sol.states[0].num_aux:
        with open(a, 'wb') as f:
            for s in sol.states:
                f.write(w(s.aux, ghost).tobytes())
    elif os.path.exists(a):
        os.unlink(a)
    with open(os.path.join(path, prefix + '.q' + n), 'w') as f:
        for s in sol.states:
            d = s.patch.dimensions
            f.write('%d patch_number\n%d AMR_level\n' % (s.patch.patch_index, s.patch.level))
            for x in d:
                f.write('%d m%s\n' % (x.num_cells, x.name))
            for x in d:
                f.write('%.17e low\n' % x.lower)
            for x in d:
                f.write('%.17e d\n' % x.delta)
            f.write('\n')
    with open(os.path.join(path, prefix + '.t' + n), 'w') as f:
        s = sol.states[0]
        f.write('%.17e time\n%d num_eqn\n%d nstates\n%d num_aux\n%d num_dim\n%d num_ghost\nbinary%d file_format\n' % (
            sol.t, s.num_eqn, len(sol.states), s.num_aux, len(s.patch.dimensions), ghost, bits))


PFX = {'ascii': 'fort', 'hdf5': 'claw', 'binary': 'bin', 'forestclaw': 'fort'}
TOL = {'ascii': F.PREC['ascii'], 'forestclaw': F.PREC['ascii'], 'hdf5': F.PREC['hdf5'], 'binary': dict(rtol=0.0, atol=0.0)}


AUTO = [False]          # leave it to the header to say which format a frame has
BIN = [64, 2]           # width of the numbers and ghost cells of the binary frames of this run


class Store(object):
    """Model: (fmt, frame) -> list of (snap, aux written) one of which a successful read has to return; certain = it must not raise."""

    def __init__(self):
        self.d = {}

    def get(self, k):
        return self.d.get(k, ([], False))


def own_aux(wants):
    """Whether the frame, whichever content it has, does not borrow the aux file of frame 0."""
    return all(auxw or not snap.states[0]['num_aux'] for snap, auxw in wants)


def matches(ctx, sol, want, fmt):
    """None when the solution equals the wanted content, else the reason."""
    return differs(ctx, sol, want[0], TOL[fmt] if fmt != 'binary' else dict(rtol=1e-15, atol=1e-300) if BIN[0] == 64 else dict(rtol=1e-6, atol=1e-37), want[1], fmt in ('ascii', 'forestclaw'), fmt == 'forestclaw')


def differs(ctx, sol, snap, tol, auxw, pd, forest=False):
    try:
        s = sort_states(sol)
        w = sort_snap(snap)
        F.compare(ctx, s, w, tol, 'x', 'frame', aux=[d['aux'] for d in w.states] if auxw else None, pd=pd)
        if forest:
            ctx.check([(x.patch.block_number, x.patch.mpi_rank) for x in s.states] == [d['forest'] for d in w.states], 'x', 'block numbers and ranks')
    except Violation as e:
        return e.detail
    return None


class Obj(object):
    pass


def sort_states(sol):
    o = Obj()
    o.states = sorted(sol.states, key=lambda s: int(s.patch.patch_index))
    return o


def sort_snap(snap):
    o = Obj()
    o.states = sorted(snap.states, key=lambda d: d['patch_index'])
    return o


def frame_files(fmt, frame, which):
    n = '%04d' % frame
    if fmt == 'hdf5':
        return 'claw%s.hdf' % n
    p = PFX[fmt]
    names = ['%s.q%s' % (p, n), '%s.t%s' % (p, n)] + (['%s.a%s' % (p, n), '%s.pkl%s' % (p, n)] if fmt != 'binary' else ['%s.b%s' % (p, n), '%s.a%s' % (p, n)])
    return names[which % len(names)]


def run(sc, ctx):
    from clawpack import pyclaw
    disk = ctx.use_disk()
    BIN[:] = sc['bin']
    path = os.path.join(ctx.root, sc['sub'])
    sols = [build(pyclaw, s, sc.get('forest')) for s in sc['sols']]
    AUTO[0] = bool(sc.get('auto'))
    for s in sc['sols']:
        if len(s['n']) > 1:
            ctx.probe('multi-patch')
        if len(s['n']) > 9:
            ctx.probe('many-patches')
        if s['d'] == 3:
            ctx.probe('count-3d')
    objs = [pyclaw.Solution(), pyclaw.Solution()]
    failed = [False, False]
    store = Store()
    shared = {'shuffle': False} if sc.get('opt') else {}      # one options dictionary, as a controller holds it
    for oi, op in enumerate(sc['ops']):
        if op[0] == 'write':
            do_write(ctx, disk, pyclaw, sols, store, path, op, shared)
        elif op[0] == 'read':
            do_read(ctx, disk, objs, failed, store, path, op, shared)
        elif op[0] == 'evolve':
            k = op[1] % len(sols)
            for st in sols[k].states:
                st.q[...] = st.q * 1.5 + .25
                st.t = st.t + .5
        elif op[0] in ('truncate', 'remove'):
            damage(ctx, store, path, op)
        elif op[0] == 'ctrl':
            do_ctrl(ctx, disk, pyclaw, op)
    # afterwards everything the model is sure of is still there
    for (fmt, fr), (wants, certain) in sorted(store.d.items()):
        if certain:
            so = pyclaw.Solution()
            so.read(fr, path, file_format=fmt, file_prefix=PFX[fmt], read_aux=own_aux(wants))
            why = [matches(ctx, so, (w[0], w[1] and own_aux(wants)), fmt) for w in wants]
            ctx.check(None in why, 'stored-frame', '%s frame %d at the end: %s' % (fmt, fr, why))
    ctx.ev('end', sorted((k[0], k[1], v[1]) for k, v in store.d.items()))


def plan(ctx, disk, fault, nw, nr):
    """Arrange the fault inside the coming operation; nw, nr: how many operations it makes."""
    if fault is None:
        return
    kind, frac, en, arg = fault
    base_w, base_r = disk.wops(), disk.rops()
    if kind in ('err', 'full', 'short'):
        if nw == 0:
            return
        at = base_w + min(nw - 1, int(frac * nw))
        disk.plan(at, Disk.WRITE, {'err': Disk.ERR, 'full': Disk.ERR_STICKY, 'short': Disk.SHORT}[kind],
                  ERRNO[en] if kind == 'err' else errno.ENOSPC if kind == 'full' else arg)
    else:
        if nr == 0:
            return
        at = base_r + min(nr - 1, int(frac * nr))
        disk.plan(at, Disk.READ, Disk.ERR if kind == 'rerr' else Disk.SHORT, ERRNO[en if en in ('EIO', 'EACCES', 'EMFILE') else 'EIO'] if kind == 'rerr' else arg)


def fired(ctx, disk, before):
    out = []
    for k, n in ((Disk.ERR, 'io-error'), (Disk.ERR_STICKY, 'disk-full'), (Disk.SHORT, 'short-transfer')):
        c = disk.fired(k) - before[k]
        if c:
            ctx.fault(n, c)
            out.append(n)
    return out


def counts(disk):
    return {k: disk.fired(k) for k in (Disk.ERR, Disk.ERR_STICKY, Disk.SHORT)}


def measure(ctx, disk, fn):
    """How many operations fn makes: run it in a fork, on a copy of nothing (its files are put back)."""
    w, r = disk.wops(), disk.rops()
    fn()
    return disk.wops() - w, disk.rops() - r


def dry_write(ctx, disk, sol, fr, path, fmt, aux):
    """Operation count of the write, made in a scratch directory of the same state (existing or not)."""
    import shutil
    tmp = path + '.dry'
    shutil.rmtree(tmp, ignore_errors=True)
    if os.path.isdir(path):
        os.makedirs(tmp)
        for f in os.listdir(path):
            if f.endswith('%04d' % fr) or f.endswith('%04d.hdf' % fr):
                shutil.copy(os.path.join(path, f), tmp)
    w = disk.wops()
    r = disk.rops()
    sol.write(fr, tmp, file_format=fmt, write_aux=aux)
    n = disk.wops() - w, disk.rops() - r
    shutil.rmtree(tmp, ignore_errors=True)
    return n


def do_write(ctx, disk, pyclaw, sols, store, path, op, shared):
    _, k, fr, fmt, aux, fault = op
    sol = sols[k % len(sols)]
    ctx.probe(fmt)
    key = (fmt, fr)
    snap = F.Snap(sol)
    h = F.snap_hash(snap)
    auxw = aux and sol.states[0].num_aux > 0
    if auxw:
        ctx.probe('aux')
    if key in store.d:
        ctx.probe('overwrite')
    if fmt == 'binary':
        if not os.path.isdir(path):
            os.makedirs(path)
        write_binary(sol, fr, path, aux, prefix='bin', ghost=BIN[1], bits=BIN[0])
        ctx.probe('binary%d' % BIN[0])
        store.d[key] = ([(snap, auxw)], True)
        ctx.tok('W%sb' % fr)
        return
    nw, nr = (dry_write(ctx, disk, sol, fr, path, fmt, aux) if fault else (0, 0))
    old = store.get(key)
    had_dir = os.path.isdir(path)
    plan(ctx, disk, fault, nw, nr)
    b = counts(disk)
    err = None
    try:
        if shared:
            ctx.probe('options-shared')
        sol.write(fr, path, file_format=fmt, write_aux=aux, options=shared)
    except Exception as e:
        err = e
    f = fired(ctx, disk, b)
    disk.clear()
    ctx.tok('w%d%s%s%s' % (fr, fmt[0], ''.join(x[0] for x in f), '!' if err else ''))
    ctx.ev('write', fr, fmt, err is not None, f)
    ctx.check(F.snap_hash(F.Snap(sol)) == h, 'memory-changed', 'the solution changed in a %s write' % ('failed' if err else 'successful'))
    if err is not None:
        ctx.check('io-error' in f or 'disk-full' in f or 'short-transfer' in f, 'write-raised', '%s frame %d: %r and nothing had failed' % (fmt, fr, err))
        ctx.probe('write-failed')
        if 'disk-full' in f:
            ctx.probe('disk-full')
        if not had_dir:
            ctx.probe('mkdir-failed')
        # damaged frame: raise, or completely the new or the old content
        store.d[key] = ([(snap, auxw)] + old[0], False)
        others_intact(ctx, pyclaw, store, path, key)
        so = pyclaw.Solution()
        e2 = None
        wants = store.d[key][0]
        try:
            so.read(fr, path, file_format=fmt, file_prefix=PFX[fmt], read_aux=own_aux(wants))
        except Exception as e:
            e2 = e
        if e2 is None:
            ctx.probe('damaged-read-complete')
            why = [matches(ctx, so, (w[0], w[1] and own_aux(store.d[key][0])), fmt) for w in store.d[key][0]]
            ctx.check(None in why, 'damaged-frame-read', '%s frame %d whose write failed reads back as something else: %s' % (fmt, fr, why))
        else:
            ctx.probe('damaged-read-raised')
        if fault[0] in ('err', 'full'):
            # the failure is gone: the same write works
            try:
                sol.write(fr, path, file_format=fmt, write_aux=aux, options=shared)
            except Exception as e:
                ctx.fail('retry-failed', '%s frame %d after a failed write: %r' % (fmt, fr, e))
            ctx.probe('retry-ok')
            err = None
    elif 'short-transfer' in f:
        ctx.probe('short-write')
    if err is None:
        wants = [(snap, auxw)]
        store.d[key] = (wants, True)
        so = pyclaw.Solution()
        try:
            so.read(fr, path, file_format=fmt, file_prefix=PFX[fmt], read_aux=own_aux(wants))
        except Exception as e:
            ctx.fail('write-lost', '%s frame %d: write reported success (faults %s), reading it raises %r' % (fmt, fr, f, e))
        why = matches(ctx, so, (snap, auxw), fmt)
        ctx.check(why is None, 'write-wrong', '%s frame %d: write reported success (faults %s), reads back differently: %s' % (fmt, fr, f, why))
        if fmt == 'ascii':
            from clawpack.pyclaw.controller import OutputController
            ctx.same([OutputController(path, 'ascii').get_time(fr)], [snap.t], 'get-time', 'time of frame %d' % fr, **F.PREC['ascii'])
            ctx.probe('get-time')


def others_intact(ctx, pyclaw, store, path, key):
    for (fmt, fr), (wants, certain) in sorted(store.d.items()):
        if certain and (fmt, fr) != key:
            so = pyclaw.Solution()
            try:
                so.read(fr, path, file_format=fmt, file_prefix=PFX[fmt], read_aux=own_aux(wants))
            except Exception as e:
                ctx.fail('other-frame-lost', '%s frame %d no longer reads after a failed write of %s: %r' % (fmt, fr, key, e))
            why = [matches(ctx, so, (w[0], w[1] and own_aux(wants)), fmt) for w in wants]
            ctx.check(None in why, 'other-frame-changed', '%s frame %d after a failed write of %s: %s' % (fmt, fr, key, why))


def do_read(ctx, disk, objs, failed, store, path, op, shared):
    _, o, fr, fmt, raux, fault = op
    key = (fmt, fr)
    wants, certain = store.get(key)
    raux = raux and own_aux(wants)
    obj = objs[o]
    nw = nr = 0
    if fault:
        from clawpack import pyclaw
        t = pyclaw.Solution()
        r0 = disk.rops()
        try:
            t.read(fr, path, file_format=fmt, file_prefix=PFX[fmt], read_aux=raux and own_aux(wants))
        except Exception:
            pass
        nr = disk.rops() - r0
        if fault[0] not in ('rerr', 'rshort'):
            fault = ['rerr'] + fault[1:]
    if fmt == 'binary':
        fault = None
    plan(ctx, disk, fault, 0, nr)
    b = counts(disk)
    err = None
    try:
        obj.read(fr, path, file_format=None if AUTO[0] and fmt in ('ascii', 'binary') else fmt, file_prefix=PFX[fmt], read_aux=raux, options=shared)
    except Exception as e:
        err = e
    f = fired(ctx, disk, b)
    disk.clear()
    ctx.tok('r%d%s%s%s' % (fr, fmt[0], ''.join(x[0] for x in f), '!' if err else ''))
    ctx.ev('read', fr, fmt, err is not None, f)
    if err is None:
        ctx.check(wants, 'read-nothing', 'reading %s frame %d, which is not there, returned normally' % (fmt, fr))
        why = [matches(ctx, obj, (w[0], w[1] and raux), fmt) for w in wants]
        ctx.check(None in why, 'read-wrong', '%s frame %d (faults %s%s): %s' % (fmt, fr, f, ', read before into this object failed' if failed[o] else '', why))
        if AUTO[0] and fmt in ('ascii', 'binary'):
            ctx.probe('auto-format')
        if failed[o]:
            ctx.probe('reread-after-failure')
        if 'short-transfer' in f:
            ctx.probe('short-read')
        failed[o] = False
    else:
        if f and 'io-error' in f:
            ctx.probe('read-failed')
        elif not wants:
            ctx.probe('missing-raised')
        ctx.check(not certain or 'io-error' in f, 'read-raised', '%s frame %d is there and nothing failed: %r (faults %s)' % (fmt, fr, err, f))
        failed[o] = True


def damage(ctx, store, path, op):
    fr, fmt = op[1], op[2]
    key = (fmt, fr)
    if key not in store.d:
        return
    which = op[3]
    p = os.path.join(path, frame_files(fmt, fr, which))
    if not os.path.exists(p):
        return
    name = os.path.basename(p)
    from clawpack import pyclaw
    wants, certain = store.get(key)
    if op[0] == 'remove':
        if '.a' in name[3:6] or 'pkl' in name:
            return                               # optional files
        os.unlink(p)
        ctx.fault('file-removed')
        gone = True
    else:
        if fmt == 'binary' and '.b' not in name and '.a' not in name:
            return                               # the text headers come from AMRClaw and may lack their last lines
        n = os.path.getsize(p)
        cut = int(op[4] * n)
        if op[4] > .8:
            cut = n - 1 - int((1 - op[4]) * 5 * min(n - 1, 30))       # near the end: the last number
        cut = max(0, min(cut, n - 1))
        with open(p, 'r+b') as f:
            f.truncate(cut)
        ctx.fault('file-truncated')
        gone = False
    so = pyclaw.Solution()
    err = None
    try:
        so.read(fr, path, file_format=fmt, file_prefix=PFX[fmt], read_aux=own_aux(wants))
    except Exception as e:
        err = e
    if err is None:
        ctx.check(not gone, 'read-nothing', 'frame without %s reads normally' % name)
        why = [matches(ctx, so, (w[0], w[1] and own_aux(wants)), fmt) for w in wants]
        ctx.check(None in why, 'truncated-frame-read', '%s truncated: reads as something else: %s' % (name, why))
        ctx.probe('truncated-ok')
        store.d[key] = (wants, False)
    else:
        ctx.probe('truncated-raised')
        store.d[key] = (wants, False)
    ctx.tok('D%d%s%s' % (fr, fmt[0], '!' if err else ''))
    ctx.ev('damage', name, err is not None)
    if '.a0000' in name:
        # other frames without aux of their own fall back to this file
        for k, (w, c) in list(store.d.items()):
            if k[0] == fmt and any(not x[1] and x[0].states[0]['num_aux'] for x in w):
                store.d[k] = (w, False)


def do_ctrl(ctx, disk, pyclaw, op):
    """A controller run in which a frame write fails; then the run goes on."""
    _, fmt, m, gauges, fault = op
    out = os.path.join(ctx.root, 'run')
    import shutil

    def make(d):
        dom = pyclaw.Domain([pyclaw.Dimension(0., 1., 12, name='x')])
        st = pyclaw.State(dom, 1)
        st.q[0, :] = np.sin(np.arange(12.))
        st.problem_data['u'] = 1.0
        st.problem_data['efix'] = False
        from clawpack import riemann
        s = pyclaw.ClawSolver1D(riemann.advection_1D)
        s.all_bcs = pyclaw.BC.periodic
        s.dt_variable = False
        s.dt = s.dt_initial = 1. / 32
        if gauges:
            dom.grid.add_gauges([(.3,)])
        c = pyclaw.Controller()
        c.verbosity = 0
        c.solver, c.solution = s, pyclaw.Solution(st, dom)
        c.outdir = d
        c.output_format = fmt
        c.output_style = 2
        c.out_times = [k / 16. for k in range(m + 1)]
        return c
    shutil.rmtree(out, ignore_errors=True)
    ref = make(out)
    ref.keep_copy = True
    w = disk.wops()
    ref.run()
    nw = disk.wops() - w
    refs = [F.Snap(f) for f in ref.frames]
    shutil.rmtree(out)
    c = make(out)
    done = []
    orig = c.solution.write

    def write(frame, *a, **k):
        orig(frame, *a, **k)
        done.append(int(str(frame)))
    c.solution.write = write
    if fault is not None and fault[0] in ('rerr', 'rshort'):
        fault = ['err'] + fault[1:]
    plan(ctx, disk, fault, nw, 0)
    b = counts(disk)
    err = None
    try:
        c.run()
    except Exception as e:
        err = e
    f = fired(ctx, disk, b)
    disk.clear()
    ctx.tok('C%s%d%s' % (fmt[0], m, '!' if err else ''))
    ctx.ev('ctrl', fmt, err is not None, f, done)
    if err is not None:
        ctx.probe('controller-failed')
        ctx.check(f, 'run-raised', 'controller run: %r and nothing had failed' % err)
    for k in done:
        so = pyclaw.Solution()
        try:
            so.read(k, out, file_format=fmt, file_prefix=PFX[fmt])
        except Exception as e:
            ctx.fail('frame-lost', 'frame %d of %d written before the failure does not read: %r' % (k, len(refs), e))
        why = matches(ctx, so, (refs[k], False), fmt)
        ctx.check(why is None, 'frame-wrong', 'frame %d after a failed run: %s' % (k, why))
    if err is None:
        ctx.check(done == list(range(m + 1)), 'frame-missing', 'run reported success, frames written: %s' % done)
        return
    # the run goes on with the solution as it is
    del c.solution.write
    left = [t for t in [k / 16. for k in range(m + 1)] if t > float(c.solution.t)]
    if left and float(c.solution.t) * 16 == int(float(c.solution.t) * 16):
        c2 = make(os.path.join(ctx.root, 'run2'))
        for g in c.solution.state.grid.gauge_files:
            try:
                g.close()
            except Exception:
                pass
        c.keep_copy = True
        c.frames = []
        c.outdir = os.path.join(ctx.root, 'run2')
        c.out_times = [float(c.solution.t)] + left
        c.run()
        for fr in c.frames:
            k = int(round(float(fr.t) * 16))
            ctx.same(fr.state.q, refs[k].q, 'resumed-differs', 'frame %d of the resumed run' % k)
        ctx.probe('controller-resumed')
        shutil.rmtree(os.path.join(ctx.root, 'run2'), ignore_errors=True)


def shrink(sc):
    for k, op in enumerate(sc['ops']):
        if op[0] in ('write', 'read', 'ctrl') and op[-1] is not None:
            yield dict(sc, ops=sc['ops'][:k] + [op[:-1] + [None]] + sc['ops'][k + 1:])
    for k, s in enumerate(sc['sols']):
        for c in ({'aux': 0}, {'n': s['n'][:1]}, {'n': s['n'][:2]}, {'eq': 1}, {'t': 0.}, {'mag': 1.}):
            if any(s[a] != b for a, b in c.items()):
                yield dict(sc, sols=sc['sols'][:k] + [dict(s, **c)] + sc['sols'][k + 1:])

"""Frames on disk: expected files, reading back, comparison with snapshots."""
import hashlib
import os
import numpy as np

PREFIX = {'ascii': 'fort', 'hdf5': 'claw', 'vtk': 'claw'}
# relative and absolute precision with which a format stores numbers
PREC = {'ascii': dict(rtol=1.01e-8, atol=1e-99), 'hdf5': dict(rtol=0.0, atol=0.0), 'hdf': dict(rtol=0.0, atol=0.0)}


class Snap(object):
    """What one frame has to hold."""

    def __init__(self, solution):
        self.t = float(solution.t)
        self.states = []
        for s in solution.states:
            d = s.patch.dimensions
            self.states.append({
                'q': np.array(s.q, order='F'), 'aux': None if s.aux is None else np.array(s.aux, order='F'),
                't': float(s.t), 'num_eqn': int(s.num_eqn), 'num_aux': int(s.num_aux),
                'n': [int(x.num_cells) for x in d], 'lower': [float(x.lower) for x in d], 'upper': [float(x.upper) for x in d],
                'pd': dict(s.problem_data), 'capa': int(s.index_capa),
                'patch_index': int(s.patch.patch_index), 'level': int(s.patch.level),
                'forest': (getattr(s.patch, 'block_number', None), getattr(s.patch, 'mpi_rank', None))})

    @property
    def q(self):
        return self.states[0]['q']

    def same_as(self, other):
        return snap_hash(self) == snap_hash(other)


def snap_hash(s):
    h = hashlib.sha1()
    h.update(repr(s.t).encode())
    for d in s.states:
        for k in sorted(d):
            v = d[k]
            h.update(k.encode())
            h.update(np.asfortranarray(v).tobytes(order='F') if isinstance(v, np.ndarray) else repr(v).encode())
    return h.hexdigest()


def files_of(frame, fmt, prefix, aux):
    p = prefix or PREFIX[fmt]
    n = str(frame).zfill(4)
    if fmt == 'ascii':
        out = ['%s.t%s' % (p, n), '%s.q%s' % (p, n), '%s.pkl%s' % (p, n)]
        if aux:
            out.append('%s.a%s' % (p, n))
        return out
    if fmt == 'hdf5':
        return ['%s%s.hdf' % (p, n)]
    return []


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            q = os.path.join(d, f)
            with open(q, 'rb') as fh:
                out[os.path.relpath(q, root)] = hashlib.sha1(fh.read()).hexdigest()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + '/'] = 'dir'
    return out


def compare(ctx, sol, snap, prec, kind, what, aux=None, pd=False, patches=True, index=True):
    """A solution (read back or kept) against the snapshot.  aux: expected array list, or None not to look."""
    ctx.check(len(sol.states) == len(snap.states), kind, '%s: %d patches, expected %d' % (what, len(sol.states), len(snap.states)))
    got = list(sol.states)
    for k, d in enumerate(snap.states):
        s = got[k]
        w = '%s patch %d' % (what, k)
        for m, g in (('t', s.t),):
            ctx.same([float(g)], [d['t']], kind, w + ' time', **tol_t(prec))
        ctx.check(int(s.num_eqn) == d['num_eqn'], kind, '%s num_eqn %r != %r' % (w, s.num_eqn, d['num_eqn']))
        ctx.check(int(s.num_aux) == d['num_aux'], kind, '%s num_aux %r != %r' % (w, s.num_aux, d['num_aux']))
        dim = s.patch.dimensions
        ctx.check([int(x.num_cells) for x in dim] == d['n'], kind, '%s cells %r != %r' % (w, [x.num_cells for x in dim], d['n']))
        gt = dict(rtol=0.0, atol=0.0) if prec['rtol'] == 0 else dict(rtol=4e-8, atol=4e-8 * max(1e-12, max(abs(v) for v in d['lower'] + d['upper'])))
        ctx.same([float(x.lower) for x in dim], d['lower'], kind, w + ' lower', **gt)
        ctx.same([float(x.upper) for x in dim], d['upper'], kind, w + ' upper', **gt)
        if index:
            ctx.check(int(s.patch.patch_index) == d['patch_index'], kind, '%s patch_index %r != %r' % (w, s.patch.patch_index, d['patch_index']))
            ctx.check(int(s.patch.level) == d['level'], kind, '%s level %r != %r' % (w, s.patch.level, d['level']))
        ctx.same(s.q, d['q'], kind, w + ' q', **prec)
        if aux is not None and d['num_aux'] > 0:
            ctx.same(s.aux, aux[k], kind, w + ' aux', **prec)
        if pd:
            ctx.check(same_pd(s.problem_data, d['pd']), kind, '%s problem_data %r != %r' % (w, s.problem_data, d['pd']))


def same_pd(a, b):
    if a is None or sorted(a) != sorted(b):
        return False
    return all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in b)


def tol_t(prec):
    return prec


def read(pyclaw, frame, path, fmt, prefix=None, **kw):
    s = pyclaw.Solution()
    s.read(frame, path, file_format=fmt, file_prefix=prefix or PREFIX[fmt], **kw)
    return s

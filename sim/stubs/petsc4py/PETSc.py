"""Stand-in for petsc4py.PETSc on the simulated cluster.

Semantics follow the PETSc manual for the calls petclaw makes: distributed
arrays split as PETSc splits them (the first M % m processes get one cell
more), rank order x fastest, box stencils, periodic ghost regions, global
vectors stored rank by rank, binary files in natural ordering, big-endian
with the PETSc vector header.  Every call that is collective over the
communicator is announced to the scheduler, which requires all processes to
make the same sequence of them.
"""
import itertools
import os
import struct

import numpy as np

from sim import link


class Error(RuntimeError):
    pass


ScalarType = RealType = np.float64
IntType = np.int32
DECIDE = DETERMINE = -1
DEFAULT = -2
INFINITY = float('inf')


class InsertMode(object):
    NOT_SET_VALUES, INSERT_VALUES, ADD_VALUES, MAX_VALUES = 0, 1, 2, 3
    INSERT, ADD, MAX = 1, 2, 3


INSERT, ADD = 1, 2


class Comm(object):
    def __init__(self, solo=False):
        self.solo = solo

    def getRank(self):
        return 0 if self.solo else link.rank()

    def getSize(self):
        return 1 if self.solo else link.size()

    Get_rank, Get_size = getRank, getSize

    def tompi4py(self):
        from mpi4py import MPI
        return MPI.COMM_SELF if self.solo else MPI.COMM_WORLD

    def duplicate(self):
        return self

    def destroy(self):
        return self

    rank = property(getRank)
    size = property(getSize)

    def Barrier(self):
        if not self.solo:
            link.coll('barrier', ())
    barrier = Barrier


COMM_WORLD = Comm()
COMM_SELF = Comm(True)
COMM_NULL = None


class NormType(object):
    NORM_1, NORM_2, FROBENIUS, NORM_INFINITY = 0, 1, 2, 3
    N1, N2, NFROBENIUS, NINFINITY, INFINITY = 0, 1, 2, 3, 3


# ------------------------------------------------------------------ layout
class Layout(object):
    """Ownership of a structured grid by a process grid."""
    cache = {}

    def __init__(self, sizes, pgrid):
        self.sizes, self.pgrid = sizes, pgrid
        self.cuts = []
        for M, m in zip(sizes, pgrid):
            w = [M // m + (1 if M % m > i else 0) for i in range(m)]
            c = [0]
            for x in w:
                c.append(c[-1] + x)
            self.cuts.append(c)
        self.nranks = 1
        for m in pgrid:
            self.nranks *= m

    def coords(self, r):
        out = []
        for m in self.pgrid:
            out.append(r % m)
            r //= m
        return tuple(out)

    def rank(self, co):
        r, f = 0, 1
        for c, m in zip(co, self.pgrid):
            r += c * f
            f *= m
        return r

    def ranges(self, r):
        return tuple((self.cuts[d][c], self.cuts[d][c + 1]) for d, c in enumerate(self.coords(r)))

    def shape(self, r):
        return tuple(b - a for a, b in self.ranges(r))

    def pieces(self, r, s):
        """[(source rank, source slices, destination slices)] of the ghosted region of rank r."""
        per = []
        for d, (a, b) in enumerate(self.ranges(r)):
            M = self.sizes[d]
            segs = []
            i = a - s
            while i < b + s:
                g = i % M
                own = next(k for k in range(self.pgrid[d]) if self.cuts[d][k] <= g < self.cuts[d][k + 1])
                run = min(self.cuts[d][own + 1] - g, b + s - i)
                segs.append((own, g - self.cuts[d][own], run, i - (a - s)))
                i += run
            per.append(segs)
        out = []
        for combo in itertools.product(*per):
            src = self.rank([c[0] for c in combo])
            ss = tuple(slice(c[1], c[1] + c[2]) for c in combo)
            ds = tuple(slice(c[3], c[3] + c[2]) for c in combo)
            out.append((src, ss, ds))
        return out

    def plan(self, r, s):
        key = (self.sizes, self.pgrid, r, s)
        p = Layout.cache.get(key)
        if p is None:
            mine = self.pieces(r, s)
            to = sorted(k for k in range(self.nranks) if k != r and any(src == r for src, _, _ in self.pieces(k, s)))
            fr = sorted(set(src for src, _, _ in mine) - {r})
            p = Layout.cache[key] = (mine, to, fr)
        return p


class DA(object):
    class BoundaryType(object):
        NONE, GHOSTED, MIRROR, PERIODIC = 0, 1, 2, 3

    class StencilType(object):
        STAR, BOX = 0, 1

    def __init__(self):
        self._l = None

    def create(self, dim=None, dof=None, sizes=None, proc_sizes=None, boundary_type=None, stencil_type=None,
               stencil_width=None, setup=True, ownership_ranges=None, comm=None):
        dof = int(dof)
        if dof < 1:
            raise Error('error code 63: dof %d' % dof)
        sizes = tuple(int(n) for n in sizes)
        s = int(stencil_width or 0)
        if dim is not None and dim != len(sizes):
            raise Error('error code 62: dimension %s of sizes %s' % (dim, sizes))
        pgrid = tuple(proc_sizes) if proc_sizes else link.pgrid(sizes)
        link.coll('DACreate', (dof, sizes, s, boundary_type, pgrid))
        self._l = Layout(sizes, pgrid)
        if self._l.nranks != link.size():
            raise Error('error code 63: process grid %s for %d processes' % (pgrid, link.size()))
        for c in self._l.cuts:
            for a, b in zip(c, c[1:]):
                if b - a < s:
                    raise Error('error code 63: local width %d is smaller than stencil width %d' % (b - a, s))
        self.dof, self.stencil_width, self.sizes, self.dim = dof, s, sizes, len(sizes)
        self.periodic = boundary_type in (DA.BoundaryType.PERIODIC, 'periodic', True)
        if not self.periodic:
            raise Error('simulated DA is periodic only')
        self._id = link.new_id()
        self._seq = 0
        return self

    def getRanges(self):
        return self._l.ranges(link.rank())

    ranges = property(getRanges)

    def getCorners(self):
        r = self.getRanges()
        return tuple(a for a, b in r), tuple(b - a for a, b in r)

    corners = property(getCorners)

    def getGhostRanges(self):
        s = self.stencil_width
        return tuple((a - s, b + s) for a, b in self.getRanges())

    ghost_ranges = property(getGhostRanges)

    def getGhostCorners(self):
        r = self.getGhostRanges()
        return tuple(a for a, b in r), tuple(b - a for a, b in r)

    ghost_corners = property(getGhostCorners)

    def getProcSizes(self):
        return self._l.pgrid

    proc_sizes = property(getProcSizes)

    def getDim(self):
        return self.dim
    getDimension = getDim

    def getComm(self):
        return COMM_WORLD

    comm = property(getComm)

    def getBoundaryType(self):
        return (DA.BoundaryType.PERIODIC,) * self.dim

    boundary_type = property(getBoundaryType)

    def setUp(self):
        return self

    def destroy(self):
        return self

    def getGlobalVec(self, name=None):
        return self.createGlobalVector()

    def getLocalVec(self, name=None):
        return self.createLocalVector()

    def restoreGlobalVec(self, v, name=None):
        pass
    restoreLocalVec = restoreGlobalVec

    def getDof(self):
        return self.dof

    def getSizes(self):
        return self.sizes

    def getStencilWidth(self):
        return self.stencil_width

    def _owned(self):
        return (self.dof,) + self._l.shape(link.rank())

    def createGlobalVector(self):
        return Vec._make(int(np.prod(self._owned())), da=self)
    createGlobalVec = createGlobalVector

    def createLocalVector(self):
        n = self.dof
        for w in self._l.shape(link.rank()):
            n *= w + 2 * self.stencil_width
        return Vec._make(n, local=True)
    createLocalVec = createLocalVector

    def createNaturalVec(self):
        link.coll('NaturalVec', (self._id,))
        n = int(np.prod(self.sizes)) * self.dof
        a, b = natural_range(n)
        v = Vec._make(b - a)
        v._nat = (self.dof, self.sizes)
        return v
    createNaturalVector = createNaturalVec

    def globalToLocal(self, g, l, addv=None):
        s = self.stencil_width
        r = link.rank()
        own = g._a.reshape(self._owned(), order='F')
        plan, to, fr = self._l.plan(r, s)
        self._seq += 1
        got = link.exchange('ghost', (self._id, self._seq), {k: own.copy(order='F') for k in to}, fr)
        shape = (self.dof,) + tuple(w + 2 * s for w in self._l.shape(r))
        out = l._a.reshape(shape, order='F')
        assert out.base is not None
        for src, ss, ds in plan:
            a = own if src == r else got[src]
            out[(slice(None),) + ds] = a[(slice(None),) + ss]

    def _natural(self, parts):
        out = np.empty((self.dof,) + self.sizes, order='F')
        for k, a in enumerate(parts):
            sl = tuple(slice(x, y) for x, y in self._l.ranges(k))
            out[(slice(None),) + sl] = a.reshape((self.dof,) + self._l.shape(k), order='F')
        return out.reshape(-1, order='F')

    def localToGlobal(self, l, g, addv=None):
        s = self.stencil_width
        shape = (self.dof,) + tuple(w + 2 * s for w in self._l.shape(link.rank()))
        a = l._a.reshape(shape, order='F')[(slice(None),) + tuple(slice(s, n - s) for n in shape[1:])]
        g._a[:] = a.reshape(-1, order='F')

    def naturalToGlobal(self, n, g, addv=None):
        full = np.concatenate(link.coll('naturalToGlobal', (self._id,), n._a.copy()))
        full = full.reshape((self.dof,) + self.sizes, order='F')
        g._a[:] = full[(slice(None),) + tuple(slice(a, b) for a, b in self.getRanges())].reshape(-1, order='F')

    def getVecArray(self, v, readonly=False):
        return _VecArray(self, v)

    def globalToNatural(self, g, n, addv=None):
        full = self._natural(link.coll('globalToNatural', (self._id,), g._a.copy()))
        a, b = natural_range(full.size)
        n._a[:] = full[a:b]


DMDA = DA


class _VecArray(object):
    """Global-index view of a vector of a DA (indices x, y, z, component)."""

    def __init__(self, da, v):
        s = da.stencil_width if v._local else 0
        r = da.getRanges()
        self.start = [a - s for a, b in r]
        shape = (da.dof,) + tuple(b - a + 2 * s for a, b in r)
        self.a = np.moveaxis(v._a.reshape(shape, order='F'), 0, -1)
        if da.dof == 1:
            self.a = self.a[..., 0]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def _k(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if Ellipsis in k:
            return k
        out = []
        for d, x in enumerate(k):
            o = self.start[d] if d < len(self.start) else 0
            if isinstance(x, slice):
                out.append(slice(None if x.start is None else x.start - o, None if x.stop is None else x.stop - o, x.step))
            else:
                out.append(x - o)
        return tuple(out)

    def __getitem__(self, k):
        return self.a[self._k(k)]

    def __setitem__(self, k, v):
        self.a[self._k(k)] = v

    shape = property(lambda self: self.a.shape)


def natural_range(n, r=None):
    P = link.size()
    r = link.rank() if r is None else r
    w = [n // P + (1 if n % P > i else 0) for i in range(P)]
    return sum(w[:r]), sum(w[:r + 1])


# ------------------------------------------------------------------ vectors
class Vec(object):
    _nat = _sizes = None

    @classmethod
    def _make(cls, n, da=None, local=False):
        v = cls()
        v._a = np.zeros(n)
        v._da, v._local = da, local
        return v

    def createWithArray(self, array, size=None, bsize=None, comm=None):
        self._a = np.asarray(array, dtype=float).reshape(-1)
        self._da, self._local = None, comm is not None and getattr(comm, 'solo', False)
        if not self._local:
            self._sizes = link.coll('VecCreate', (), self._a.size)
        return self

    def _parts(self):
        """Local sizes on all processes."""
        if self._local:
            return [self._a.size]
        if self._sizes is not None:
            return self._sizes
        if self._da is not None:
            return [int(np.prod(self._da._l.shape(k))) * self._da.dof for k in range(link.size())]
        dof, sizes = self._nat
        n = int(np.prod(sizes)) * dof
        return [b - a for a, b in (natural_range(n, k) for k in range(link.size()))]

    def createMPI(self, size, bsize=None, comm=None):
        n, N = size if isinstance(size, (tuple, list)) else (None, size)
        if n is None or n < 0:
            a, b = natural_range(N)
            n = b - a
        return self.createWithArray(np.zeros(n), comm=comm)

    def createSeq(self, size, bsize=None, comm=None):
        return self.createWithArray(np.zeros(size), comm=COMM_SELF)

    def getComm(self):
        return COMM_SELF if self._local else COMM_WORLD

    comm = property(getComm)

    def getOwnershipRange(self):
        n = self._parts()
        r = 0 if self._local else link.rank()
        return sum(n[:r]), sum(n[:r + 1])

    owner_range = property(getOwnershipRange)

    def getSize(self):
        return sum(self._parts())

    def getSizes(self):
        return self._a.size, self.getSize()

    size = property(getSize)
    local_size = property(lambda self: self._a.size)
    sizes = property(getSizes)

    def getBlockSize(self):
        return self._da.dof if self._da is not None else 1

    block_size = property(getBlockSize)

    def getDM(self):
        return self._da

    def assemblyBegin(self):
        pass
    assemblyEnd = assemble = setUp = assemblyBegin

    def setFromOptions(self):
        pass

    def setName(self, name):
        self._name = name

    def getName(self):
        return getattr(self, '_name', 'Vec')

    name = property(getName, setName)
    buffer_r = buffer_w = array_r = array_w = property(lambda self: self._a)

    def getBuffer(self, readonly=False):
        return self._a

    def zeroEntries(self):
        self._a[:] = 0.

    def scale(self, alpha):
        self._a *= alpha

    def abs(self):
        np.abs(self._a, out=self._a)

    def shift(self, alpha):
        self._a += alpha

    def axpy(self, alpha, x):
        self._a += alpha * x._a

    def dot(self, x):
        v = float(np.dot(self._a, x._a))
        return v if self._local else float(sum(link.coll('VecDot', (), v)))

    def setValue(self, index, value, addv=None):
        a, b = self.getOwnershipRange()
        if not a <= index < b:
            raise Error('simulated Vec: values of other processes')
        self._a[index - a] = value

    def setValues(self, indices, values, addv=None):
        for i, v in zip(np.ravel(indices), np.ravel(values)):
            self.setValue(int(i), v, addv)

    def getValue(self, index):
        return float(self._a[index - self.getOwnershipRange()[0]])

    def __getitem__(self, k):
        return self._a[k]

    def __setitem__(self, k, v):
        self._a[k] = v

    def __enter__(self):
        return self._a

    def __exit__(self, *a):
        pass

    def getArray(self, readonly=False):
        return self._a

    def setArray(self, a):
        a = np.asarray(a, dtype=float).reshape(-1) if np.ndim(a) else np.full(self._a.shape, float(a))
        if a.size != self._a.size:
            raise ValueError('array size %d incompatible with vector local size %d' % (a.size, self._a.size))
        self._a[:] = a

    @property
    def array(self):
        return self._a

    @array.setter
    def array(self, a):
        self.setArray(a)

    def getLocalSize(self):
        return self._a.size

    def _loc(self, f, empty):
        return float(f(self._a)) if self._a.size else empty

    def max(self):
        if self._local:
            return int(np.argmax(self._a)), float(np.max(self._a))
        vals = link.coll('VecMax', (), (self._loc(np.max, -np.inf), self._a.size))
        best = max(range(len(vals)), key=lambda k: vals[k][0])
        return best, vals[best][0]

    def min(self):
        if self._local:
            return int(np.argmin(self._a)), float(np.min(self._a))
        vals = link.coll('VecMin', (), self._loc(np.min, np.inf))
        best = min(range(len(vals)), key=lambda k: vals[k])
        return best, vals[best]

    def sum(self):
        if self._local:
            return float(np.sum(self._a))
        return float(sum(link.coll('VecSum', (), self._loc(np.sum, 0.))))

    def norm(self, t=NormType.NORM_2):
        return self._norm(self._a, t, 'VecNorm', ())

    def _stride(self, field):
        bs = self.getBlockSize()
        if not 0 <= field < bs:
            raise Error('error code 63: field %d of %d' % (field, bs))
        return self._a[field::bs]

    def strideSum(self, field):
        return float(sum(link.coll('strideSum', (field,), float(np.sum(self._stride(field))))))

    def strideMax(self, field):
        return 0, float(max(link.coll('strideMax', (field,), float(np.max(self._stride(field))))))

    def strideMin(self, field):
        return 0, float(min(link.coll('strideMin', (field,), float(np.min(self._stride(field))))))

    def strideNorm(self, field, norm_type=None):
        bs = self._da.dof if self._da is not None else 1
        if not 0 <= field < bs:
            raise Error('error code 63: field %d of %d' % (field, bs))
        return self._norm(self._a[field::bs], norm_type, 'strideNorm', (field,))

    def _norm(self, x, t, name, sig):
        t = NormType.NORM_2 if t is None else int(t)
        if self._local:
            return float(np.linalg.norm(x, {0: 1, 1: 2, 2: 2, 3: np.inf}[t])) if x.size else 0.
        if t == NormType.NORM_1:
            return float(sum(link.coll(name, sig + (t,), float(np.sum(np.abs(x))))))
        if t == NormType.NORM_INFINITY:
            return float(max(link.coll(name, sig + (t,), float(np.max(np.abs(x))) if x.size else 0.)))
        return float(np.sqrt(sum(link.coll(name, sig + (t,), float(np.sum(x * x))))))

    def set(self, v):
        self._a[:] = v

    def copy(self, result=None):
        v = result or Vec._make(self._a.size, self._da, self._local)
        v._a[:] = self._a
        return v

    def duplicate(self, array=None):
        v = Vec._make(self._a.size, self._da, self._local)
        if array is not None:
            v._a[:] = array
        return v

    def destroy(self):
        return self

    # -------------------------------------------------------------- files
    def view(self, viewer=None):
        viewer._view(self)

    def load(self, viewer):
        viewer._load(self)
        return self


class Scatter(object):
    class Mode(object):
        FORWARD, REVERSE = 0, 1

    @classmethod
    def toZero(cls, vec):
        link.coll('Scatter.toZero', ())
        out = Vec._make(0, local=True)
        return cls(), out

    @classmethod
    def toAll(cls, vec):
        sc, out = cls.toZero(vec)
        sc._all = True
        return sc, out

    _all = False

    def begin(self, v, out, addv=None, mode=None):
        self.scatter(v, out, addv, mode)
    scatterBegin = begin

    def end(self, v, out, addv=None, mode=None):
        pass
    scatterEnd = end

    def __call__(self, v, out, addv=None, mode=None):
        self.scatter(v, out, addv, mode)

    def scatter(self, v, out, addv=None, mode=None):
        if mode not in (None, False, 0):
            raise Error('simulated Scatter: forward only')
        if self._all:
            out._a = np.concatenate(link.coll('Scatter.scatter', (), v._a.copy()))
            return
        parts = link.gather('Scatter.scatter', (), v._a.copy())
        if link.rank() == 0:
            out._a = np.concatenate(parts)

    def destroy(self):
        return self


# ------------------------------------------------------------------ viewers
VEC_CLASSID = 1211214


class Viewer(object):
    class Mode(object):
        READ, WRITE, APPEND, UPDATE, APPEND_UPDATE = 0, 1, 2, 3, 4
        R, W, A, U = 0, 1, 2, 3

    class Format(object):
        DEFAULT, ASCII_VTK = 0, 1

    def __init__(self):
        self._open = False

    def _create(self, kind, name, mode):
        mode = {None: 0, 'r': 0, 'w': 1}.get(mode, mode)
        if mode not in (0, 1):
            raise Error('simulated viewer: mode %r' % (mode,))
        self.kind, self.name, self.mode, self.pos, self._open = kind, str(name), mode, 0, True
        err = None
        if link.rank() == 0:
            try:
                with open(self.name, 'wb' if mode == 1 else 'rb'):
                    pass
            except OSError as e:
                err = str(e)
        errs = link.coll('Viewer', (kind, os.path.abspath(self.name), mode), err)
        if errs[0] is not None:
            raise Error('error code 65: Unable to open file: %s' % errs[0])
        return self

    def createBinary(self, name, mode=None, comm=None):
        return self._create('binary', name, mode)

    def createMPIIO(self, name, mode=None, comm=None):
        return self._create('mpiio', name, mode)

    def createASCII(self, name, mode=None, comm=None, format=None):
        return self._create('ascii', name, mode)

    def flush(self):
        link.coll('Viewer.flush', (self.name,))

    def destroy(self):
        if self._open:
            link.coll('Viewer.destroy', (self.name,))
        self._open = False
        return self

    def _pwrite(self, data, pos):
        link.step('pwrite')
        fd = os.open(self.name, os.O_WRONLY)
        try:
            half = len(data) // 2
            os.pwrite(fd, data[:half], pos)
            link.step('pwrite')
            os.pwrite(fd, data[half:], pos + half)
        finally:
            os.close(fd)

    def _view(self, v):
        if not self._open or self.mode != 1:
            raise Error('error code 73: viewer is not open for writing')
        if v._da is None:
            raise Error('simulated viewer: vectors of a DA only')
        da = v._da
        n = int(np.prod(da.sizes)) * da.dof
        sig = (self.name, da.dof, da.sizes)
        if self.kind == 'mpiio':
            # natural ordering first, then every process writes its own part
            full = da._natural(link.coll('VecView', sig, v._a.copy()))
            a, b = natural_range(n)
            if link.rank() == 0:
                self._pwrite(struct.pack('>ii', VEC_CLASSID, n), self.pos)
            if b > a:
                self._pwrite(full[a:b].astype('>f8').tobytes(), self.pos + 8 + 8 * a)
        else:
            parts = link.gather('VecView', sig, v._a.copy())
            if link.rank() == 0:
                full = da._natural(parts)
                if self.kind == 'ascii':
                    with open(self.name, 'a') as f:
                        f.write('Vec Object\n' + ''.join('%.17g\n' % x for x in full))
                else:
                    self._pwrite(struct.pack('>ii', VEC_CLASSID, n) + full.astype('>f8').tobytes(), self.pos)
        self.pos += 8 + 8 * n

    def _load(self, v):
        if not self._open or self.mode != 0:
            raise Error('error code 73: viewer is not open for reading')
        da = v._da
        n = int(np.prod(da.sizes)) * da.dof
        data = None
        if link.rank() == 0:
            link.step('pread')
            with open(self.name, 'rb') as f:
                f.seek(self.pos)
                data = f.read(8 + 8 * n)
        data = link.coll('VecLoad', (self.name, da.dof, da.sizes), data)[0]
        if len(data) < 8:
            raise Error('error code 66: Read past end of file')
        cid, m = struct.unpack('>ii', data[:8])
        if cid != VEC_CLASSID:
            raise Error('error code 79: Not vector next in file')
        if m != n:
            raise Error('error code 75: Vector in file different size (%d) than input vector (%d)' % (m, n))
        if len(data) < 8 + 8 * n:
            raise Error('error code 66: Read past end of file')
        full = np.frombuffer(data[8:], dtype='>f8').astype(float).reshape((da.dof,) + da.sizes, order='F')
        sl = tuple(slice(a, b) for a, b in da.getRanges())
        v._a[:] = full[(slice(None),) + sl].reshape(-1, order='F')
        self.pos += 8 + 8 * n


class Options(dict):
    def __init__(self, prefix=None):
        dict.__init__(self)


class Sys(object):
    @staticmethod
    def Print(*a, **k):
        pass
    syncPrint = syncFlush = Print

    @staticmethod
    def getVersion(*a, **k):
        return (3, 20, 0)


class Log(object):
    @staticmethod
    def begin(*a, **k):
        pass

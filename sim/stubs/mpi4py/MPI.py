"""The communicator of the simulated cluster, as far as petclaw and h5py need it."""
import time

import numpy as np

from sim import link

MAX, MIN, SUM, PROD, LOR, LAND = 'max', 'min', 'sum', 'prod', 'lor', 'land'
IN_PLACE = 'in place'
DOUBLE, INT, BOOL = 'd', 'i', '?'


def _lor(v):
    return any(v)


def _prod(v):
    p = 1
    for x in v:
        p = p * x
    return p


_OPS = {MAX: max, MIN: min, SUM: lambda v: sum(v[1:], v[0]), PROD: _prod, LOR: _lor, LAND: all}
_NP = {MAX: np.max, MIN: np.min, SUM: np.sum, PROD: np.prod, LOR: np.any, LAND: np.all}


def _arr(b):
    return np.asarray(b[0] if isinstance(b, (list, tuple)) else b)


class Comm(object):
    def __init__(self, solo=False):
        self.solo = solo

    def _coll(self, name, sig, x=None):
        return [x] if self.solo else link.coll(name, sig, x)

    def Get_rank(self):
        return 0 if self.solo else link.rank()

    def Get_size(self):
        return 1 if self.solo else link.size()

    rank = property(Get_rank)
    size = property(Get_size)

    def Dup(self, info=None):
        return self
    Clone = Dup

    def Free(self):
        pass

    def Barrier(self):
        self._coll('barrier', ())
    barrier = Barrier

    def bcast(self, obj=None, root=0):
        return self._coll('bcast', (root,), obj if self.Get_rank() == root else None)[root]

    def Bcast(self, buf, root=0):
        a = _arr(buf)
        a[...] = self._coll('Bcast', (root,), a.copy())[root]

    def allreduce(self, sendobj=None, op=SUM):
        return _OPS[op](self._coll('allreduce', (op,), sendobj))

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        r = _arr(recvbuf)
        s = r if isinstance(sendbuf, str) else _arr(sendbuf)
        r[...] = _NP[op](np.array(self._coll('Allreduce', (op,), s.copy())), axis=0)

    def reduce(self, sendobj=None, op=SUM, root=0):
        v = [sendobj] if self.solo else link.gather('reduce', (op, root), sendobj, root)
        return _OPS[op](v) if self.Get_rank() == root else None

    def gather(self, sendobj=None, root=0):
        return [sendobj] if self.solo else link.gather('gather', (root,), sendobj, root)

    def allgather(self, sendobj=None):
        return self._coll('allgather', (), sendobj)

    def scatter(self, sendobj=None, root=0):
        return self._coll('scatter', (root,), sendobj if self.Get_rank() == root else None)[root][self.Get_rank()]

    def alltoall(self, sendobj=None):
        r = self.Get_rank()
        return [x[r] for x in self._coll('alltoall', (), sendobj)]


Intracomm = Comm


class Info(object):
    @staticmethod
    def Create():
        return Info()

    def Set(self, k, v):
        pass

    def Free(self):
        pass


def Wtime():
    return 0.0


COMM_WORLD = Comm()
COMM_SELF = Comm(True)
INFO_NULL = None

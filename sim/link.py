"""The simulated processes' side of the cluster (see cluster.py).

Without a cluster the process is rank 0 of 1 and every operation is local.
"""
import pickle
import struct
import os

_link = None


class Link(object):
    def __init__(self, sock, rank, size, pgrids, root):
        self.sock, self.rank, self.size, self.pgrids, self.root = sock, rank, size, pgrids, root
        self.ids = 0
        self.ncoll = 0

    def call(self, *msg):
        send(self.sock, msg)
        ok, val = recv(self.sock)
        if not ok:
            os._exit(137)          # the job is dead
        return val


def send(sock, obj):
    d = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack('<I', len(d)) + d)


def recvn(sock, n):
    buf = b''
    while len(buf) < n:
        d = sock.recv(n - len(buf))
        if not d:
            raise EOFError()
        buf += d
    return buf


def recv(sock):
    n, = struct.unpack('<I', recvn(sock, 4))
    return pickle.loads(recvn(sock, n))


def rank():
    return _link.rank if _link else 0


def size():
    return _link.size if _link else 1


def pgrid(sizes):
    if _link is None:
        return (1,) * len(sizes)
    return tuple(_link.pgrids[str(len(sizes))])


def new_id():
    if _link is None:
        return 0
    _link.ids += 1
    return _link.ids


def coll(name, sig, payload=None):
    """A collective operation that waits for everyone; the list of all payloads."""
    if _link is None:
        return [payload]
    return _link.call('coll', name, sig, payload)


def gather(name, sig, payload, root=0):
    """A collective operation in which only the root waits."""
    if _link is None:
        return [payload]
    return _link.call('gather', name, sig, payload, root)


def note(name, sig):
    """A collective operation that need not synchronise (HDF5 metadata)."""
    if _link is not None:
        _link.call('note', name, sig)


def exchange(name, key, sends, sources):
    """Point to point: wait only for the listed sources; {source: payload}."""
    if _link is None:
        return {}
    return _link.call('xchg', name, key, sends, sources)


def step(label):
    """A scheduling point."""
    if _link is not None:
        _link.call('step', label)


def mark(what):
    """Tell the scheduler how far this process has come (not a scheduling point)."""
    if _link is not None:
        _link.call('mark', what)

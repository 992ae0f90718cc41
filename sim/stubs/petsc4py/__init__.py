"""Simulated PETSc: see sim/cluster.py for the cluster it runs on."""


def init(*a, **k):
    pass

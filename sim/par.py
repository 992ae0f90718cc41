"""Shared by the parallel properties: run a job of petclaw processes and the
serial reference for the same problem."""
import numpy as np

from . import cluster as K
from . import drive as D
from . import problems as P
from .core import Violation


def gen_problem(rng, dims=(1, 1, 2, 2, 2, 3), nondyadic=.12, spikes=True, **kw):
    variable = rng.random() < .8
    cfg = P.gen_config(rng, dims=dims, dyadic=rng.random() >= nondyadic, variable=variable, kernels=True, **kw)
    d = len(cfg['n'])
    eq = P.EQS[cfg['eq']]
    if variable and eq.nonlinear and (cfg['solver'] == 'sharp' or d > 1):
        cfg['dt_initial'] = min(cfg['dt_initial'], 1.6 * cfg['dt1'] * (cfg.get('cfl_max') or .1))
    nsteps = rng.choice([2, 4, 8]) if d < 3 else rng.choice([1, 2, 4])
    cfgl = cfg.get('cfl_desired') or .2
    T = cfg['dt1'] * cfgl * nsteps
    if not variable:
        T = cfg['dt_initial'] * nsteps
    if rng.random() < .3:
        cfg['source'] = rng.choice([-.5, .25, 1.0])
        cfg['source_t'] = rng.random() < .5
        cfg['source_eq'] = rng.randrange(eq.num_eqn)
        if cfg['solver'] == 'classic':
            cfg['source_split'] = rng.choice([1, 2])
    speed = D.gen_speed(rng, cfg, T) if eq.mech and rng.random() < .5 else []
    if spikes and rng.random() < .6:
        for _ in range(rng.choice([1, 1, 2])):
            cell = [rng.choice([0, n - 1, rng.randrange(n), n // 2, (n + 1) // 2]) for n in cfg['n']]
            cell = [min(c, n - 1) for c, n in zip(cell, cfg['n'])]
            ta = round(rng.uniform(-.1, .9), 3) * T
            tb = ta + round(rng.uniform(.1, 1.), 3) * T
            if eq.mech and eq.mech.startswith('aux'):
                cfg.setdefault('spikes', []).append([ta, tb, cell, rng.choice([1.5, 2.5, 4.0])])
            elif eq.nonlinear and cfg['eq'] in ('burgers', 'shallow', 'shallow_hlle', 'shallow2', 'burgers3'):
                cfg.setdefault('kicks', []).append([ta, min(tb, ta + .3 * T), cell, 0, rng.choice([1.3, 1.7])])
    if cfg.get('kernel') == 'Python' and cfg['solver'] == 'classic' and rng.random() < .5:
        cfg['limiter'] = rng.choice([7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22, 23])
        cfg.pop('limiters', None)
    return cfg, speed, T, variable


def gen_ops(rng, cfg, T, variable):
    """How the run is driven: evolve_to_time targets and single steps."""
    k = rng.choice([1, 1, 2, 3])
    ops = []
    if variable:
        ts = sorted(round(rng.uniform(.1, 1.0), 3) for _ in range(k))
        for t in ts:
            ops.append(['to', t * T])
            if rng.random() < .25:
                ops.append(['step'])
    else:
        n = int(round(T / cfg['dt_initial']))
        cuts = sorted(rng.randint(1, n) for _ in range(k))
        for c in cuts:
            ops.append(['to', c * cfg['dt_initial']])
            if rng.random() < .25:
                ops.append(['step'])
    return ops


def drive_ops(rec, ops, t0):
    """Apply the driving operations; returns None or the text of the exception."""
    sol, solver = rec.solution, rec.solver
    for op in ops:
        try:
            if op[0] == 'to':
                tend = t0 + op[1]
                if tend <= sol.t:
                    continue
                if not solver.dt_variable:
                    n = (tend - sol.t) / solver.dt
                    if round(n) < 1 or abs(n - round(n)) > 1e-6 * max(1, n):
                        continue
                solver.evolve_to_time(sol, tend)
            else:
                solver.evolve_to_time(sol)
        except (D.Stop, Violation):
            raise
        except Exception as e:
            if 'CFL too large' in str(e) or 'Maximum number' in str(e):
                rec.close()
                return str(e)
            raise
    rec.close()
    return None


def summary(rec):
    st = rec.solution.states[0]
    return {'att': [(a.t, a.dt, a.cfl, a.acc, a.tn) for a in rec.att], 't': float(rec.solution.t),
            'status': {k: v for k, v in rec.solver.status.items()},
            'q': np.array(st.q), 'aux': None if st.aux is None else np.array(st.aux),
            'slices': [(s.start, s.stop) for s in rec.prob.slices],
            'coords': [np.array(c) for c in st.grid.p_centers] if hasattr(st.grid, 'p_centers') else None,
            'dt': float(rec.solver.dt)}


def serial(ctx, cfg, speed, ops):
    """The serial run, or None when it leaves the range the comparison is meant for."""
    rec = D.Rec(ctx, cfg, speed, cap=400, cap_stops=True)
    try:
        exc = drive_ops(rec, ops, cfg.get('t0', 0.0))
    except D.Stop:
        return None
    st = rec.solution.states[0]
    if rec.ambiguous or not np.all(np.isfinite(st.q)) or np.max(np.abs(st.q)) > 100:
        ctx.probe('left-range')
        return None
    out = summary(rec)
    out['exc'] = exc
    return out


def tols(cfg):
    """Cell-for-cell equality where the decomposition does not change a single
    rounding (grids whose spacing is a power of two), a tolerance elsewhere."""
    dy = all(float((u - l) / n).hex().split('p')[0] in ('0x1.0000000000000',) and float(l * 2 ** 10).is_integer()
             for l, u, n in zip(cfg['lower'], cfg['upper'], cfg['n']))
    # numpy's vectorised loops round differently at different array lengths
    return (0.0, 0.0) if dy and cfg.get('kernel') != 'Python' else (1e-6, 1e-7)


def blown_up(ser, cfg):
    """A step so far beyond the limit that an intermediate state of a nonlinear
    problem may be unphysical: the largest of several Courant numbers, some of
    them not numbers, then depends on their order."""
    eq = P.EQS[cfg['eq']]
    if not eq.nonlinear or (cfg['solver'] == 'classic' and len(cfg['n']) == 1):
        return False
    cm = cfg.get('cfl_max') or .3
    return any(not (a[2] <= 2 * cm) for a in ser['att'])


def near_limit(ser, cfg):
    """Is a step decision of the serial run too close to the limit to compare?"""
    cm = cfg.get('cfl_max')
    for t, dt, cfl, acc, tn in ser['att']:
        if cm is not None and abs(cfl - cm) < 1e-5 * cm:
            return True
    return False

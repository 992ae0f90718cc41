"""C08: parallel processes stay in agreement and never deadlock."""
import os
import numpy as np

from .. import cluster as K
from .. import drive as D
from .. import par
from .. import pjob as J
from .. import problems as P

ID = 'C08'
COUNT = {'quick': 3000, 'thorough': 80000}
TIMEOUT = 90.0
RULE = ('One simulated run: a job of 1-6 petclaw processes carries out a list of operations (controller runs with output, gauges, derived '
        'quantities and functionals, time stepping, single steps, frame writes and reads, copies, gathers) under a seeded schedule that may '
        'stall processes for long; output directories and frames may exist already, overwriting may be forbidden, wave-speed spikes sit in '
        'single cells, fixed steps may violate the CFL limit and the step limit may run out.  Signature = the sequence of processes the '
        'scheduler let run plus the accept/reject sequence.')
REAL = ['petclaw (controller, solution, state, cfl, geometry, solvers, fileio.petsc, fileio.hdf5)', 'pyclaw controller, solver, solution',
        'Fortran kernels and Riemann solvers']
STUB = ['petsc4py (sim/stubs/petsc4py)', 'mpi4py and parallel h5py (sim/cluster.py)', 'process scheduling: one process at a time, chosen by the scheduler']
ASSUMPTIONS = ['the PETSc stand-in follows the documented semantics; operations PETSc documents as collective count as synchronising where they are reductions, '
               'and as sends otherwise', 'user callbacks depend on global position and time only', 'the disk does not fail in one process alone']
PROBES = ['refused-overwrite', 'refused-clobber', 'cfl-failure', 'steps-ran-out', 'rejected', 'spike', 'gauges', 'run', 'write', 'read', 'copy', 'gather',
          'one-process-gauges', 'preexisting']
LISTS = ('ops', 'sched', 'pre')


def preimport():
    K.preimport()


def gen(rng, i, tier):
    cfg, speed, T, variable = J.gen_cfg(rng)
    ops = []
    k = rng.choice([1, 2, 3, 4, 5])
    t = 0.
    race = rng.random() < .5
    for _ in range(k):
        w = rng.random()
        if w < .4:
            o = J.gen_run(rng, cfg, T, variable)
            if rng.random() < .35:
                o['overwrite'] = False
            if o['fmt'] == 'petsc' and rng.random() < .25:
                o['clobber'] = False
            ops.append(['run', o])
        elif w < .55:
            t += rng.choice([.2, .5, 1.]) * T if variable else cfg['dt_initial'] * rng.choice([1, 2])
            ops.append(['to', t])
        elif w < .6:
            ops.append(['step'])
        elif w < .8:
            o = J.gen_write(rng)
            if o['fmt'] == 'petsc' and rng.random() < (.7 if race else .3):
                o['clobber'] = False
            ops.append(['write', o])
            if rng.random() < .3:
                ops.append(['read', {'dir': o['dir'], 'fmt': J.fl(o['fmt'])[0], 'frame': o['frame']}])
        elif w < .88:
            ops.append(['read', {'dir': rng.choice(J.DIRS), 'fmt': rng.choice(['petsc', 'hdf5']), 'frame': rng.choice([0, 1])}])
        elif w < .94:
            ops.append(['copy'])
        else:
            ops.append(['gather'])
    if not variable and rng.random() < .3:
        cfg['dt_initial'] *= rng.choice([2, 4])       # a fixed step that may violate the limit
    if rng.random() < .15:
        cfg['max_steps'] = rng.choice([1, 2, 4])
    sc = {'cfg': cfg, 'speed': speed, 'ops': ops, 'cl': K.gen_cluster(rng, cfg, sizes=(2, 2, 3, 4, 4, 5, 6)), 'pre': [d for d in ('out', 'b', 'b/c') if rng.random() < .2]}
    sc['sched'] = K.gen_sched(rng, sc['cl']['P'])
    return sc


def shrink(sc):
    return J.shrink(sc)


def run(sc, ctx):
    from clawpack import pyclaw
    cfg, speed = sc['cfg'], sc['speed']
    sroot, proot = ctx.dir('ser'), ctx.dir('par')
    for d in sc['pre']:
        for r in (sroot, proot):
            os.makedirs(os.path.join(r, d), exist_ok=True)
        ctx.probe('preexisting')
    store = J.Store()
    try:
        job = J.Job(ctx, cfg, speed, sroot, pyclaw, store).run(sc['ops'])
    except D.Stop:
        return
    st = job.sol.states[0]
    if job.rec.ambiguous or not np.all(np.isfinite(st.q)) or np.max(np.abs(st.q)) > 100:
        ctx.probe('left-range')
        return
    ser = job.out()
    if par.blown_up(ser, cfg):
        ctx.probe('blown-up')
        return
    rtol, atol = par.tols(cfg)
    if rtol and par.near_limit(ser, cfg):
        ctx.probe('near-limit')
        return
    cap = 2 * len(ser['att']) + 50

    def fn(rank, rctx):
        from clawpack import petclaw
        return J.Job(rctx, cfg, speed, proot, petclaw, cap=cap).run(sc['ops']).out()

    out = K.run(ctx, sc['cl']['P'], fn, sc['cl'], sc['sched'])
    vals = K.must(out)
    # agreement among the processes, to the last bit
    a = vals[0]
    for r, v in enumerate(vals[1:], 1):
        for k in ('att', 't', 'dt', 'status', 'writes'):
            ctx.check(v[k] == a[k] or repr(v[k]) == repr(a[k]), 'disagreement', lambda: 'process %d: %s %r, process 0: %r' % (r, k, tail(v[k]), tail(a[k])))
        ctx.check(J.brief(v['results']) == J.brief(a['results']), 'disagreement', lambda: 'process %d: %s, process 0: %s' % (r, J.brief(v['results']), J.brief(a['results'])))
    J.Judge(ctx, cfg, rtol, atol).job(vals, ser, sc['ops'], data=False)
    probes(ctx, sc, ser, vals)


def tail(x):
    return x[-3:] if isinstance(x, list) else x


def probes(ctx, sc, ser, vals):
    cfg = sc['cfg']
    for op, r in zip(sc['ops'], ser['results']):
        ctx.probe(op[0])
        if r[0] == 'raised':
            ctx.probe({'Refusing to overwrite': 'refused-overwrite', 'Cowardly refusing': 'refused-clobber', 'CFL too large': 'cfl-failure',
                       'Maximum number': 'steps-ran-out'}.get(r[1], r[1]))
            ctx.fault('operation-refused')
    ctx.probe('rejected', 1 if any(not a[3] for a in ser['att']) else 0)
    if cfg.get('spikes') or cfg.get('kicks'):
        ctx.probe('spike')
        ctx.fault('wave-speed-spike', len(cfg.get('spikes', [])) + len(cfg.get('kicks', [])))
    if cfg.get('gauges'):
        ctx.probe('gauges')
        ctx.probe('one-process-gauges', 1 if sum(1 for v in vals if v['gnames']) < len(vals) else 0)

"""C07: a parallel run computes the serial solution."""
import numpy as np

from .. import cluster as K
from .. import drive as D
from .. import par
from .. import problems as P
from ..core import Violation

ID = 'C07'
COUNT = {'quick': 5000, 'thorough': 100000}
TIMEOUT = 90.0
RULE = ('One simulated run: a problem (1-3D, classic or SharpClaw, any boundary conditions, aux, capacity function, source, '
        'wave-speed jumps and single-cell spikes that force step rejections) run serially by pyclaw and on a simulated job of '
        '1-6 petclaw processes under a seeded schedule; signature = the sequence of processes the scheduler let run plus the '
        'accept/reject sequence.')
REAL = ['petclaw (geometry, state, cfl, solvers, solution, controller)', 'pyclaw solvers, state, controller', 'Fortran kernels and Riemann solvers']
STUB = ['petsc4py: distributed arrays, ghost exchange, reductions, gather (sim/stubs/petsc4py)', 'MPI communicator (sim/cluster.py)',
        'process scheduling: one process runs at a time, chosen by the scheduler']
ASSUMPTIONS = ['the PETSc stand-in follows the documented semantics of the calls petclaw makes',
               'floating-point equality is required where the grid spacing is a power of two (the decomposition changes no rounding), '
               'a relative tolerance of 1e-6 elsewhere',
               'user callbacks depend on global position and time only']
PROBES = ['serial-raised', 'rejected', 'dim1', 'dim2', 'dim3', 'sharp', 'periodic-split', 'uneven-split', 'controller', 'nondyadic', 'deepcopy']
LISTS = ('ops', 'sched')


def preimport():
    K.preimport()


def gen(rng, i, tier):
    cfg, speed, T, variable = par.gen_problem(rng)
    sc = {'cfg': cfg, 'speed': speed, 'ops': par.gen_ops(rng, cfg, T, variable), 'cl': K.gen_cluster(rng, cfg)}
    sc['sched'] = K.gen_sched(rng, sc['cl']['P'])
    if rng.random() < .25:
        n = rng.choice([1, 2, 3])
        if not variable:
            k = max(1, int(round(T / cfg['dt_initial'])) // n)
            T = k * n * cfg['dt_initial']
        sc['ctrl'] = {'n': n, 'T': T, 'style': rng.choice([1, 1, 2, 3]), 'nstepout': rng.choice([1, 2])}
    if rng.random() < .15:
        sc['cfg']['max_steps'] = rng.choice([2, 4])
    return sc


def shrink(sc):
    for s in P.shrink_cfg(sc):
        yield s
    if sc['speed']:
        yield dict(sc, speed=[])
    for k in ('spikes', 'kicks', 'max_steps'):
        if sc['cfg'].get(k):
            c = dict(sc['cfg'])
            c.pop(k)
            yield dict(sc, cfg=c)
    if sc.get('ctrl'):
        s = dict(sc)
        s.pop('ctrl')
        yield s
    cl = sc['cl']
    if cl['P'] > 2:
        for P_ in (2, 3):
            for g in K.factor_grids(P_, sc['cfg']['n'], K.num_ghost(sc['cfg'])):
                if P_ < cl['P']:
                    yield dict(sc, cl=dict(cl, P=P_, pgrids={str(len(g)): list(g)}))


def controller(rec, ct, t0):
    pyclaw = rec.prob.pyclaw
    c = pyclaw.Controller()
    c.solution, c.solver = rec.solution, rec.solver
    c.output_format = None
    c.keep_copy = True
    c.verbosity = 0
    c.output_style = ct['style']
    c.num_output_times = ct['n']
    c.tfinal = t0 + ct['T']
    c.out_times = np.linspace(t0, t0 + ct['T'], ct['n'] + 1)
    c.nstepout = ct['nstepout']
    exc = None
    try:
        c.run()
    except (D.Stop, Violation):
        raise
    except Exception as e:
        if 'CFL too large' in str(e) or 'Maximum number' in str(e) or 'does not divide' in str(e):
            exc = str(e)
        else:
            raise
    rec.close()
    return c, exc


def frames_of(c, glob):
    out = []
    for f in c.frames:
        st = f.states[0]
        out.append((float(f.t), glob(st.get_q_global()), None if st.aux is None else glob(st.get_aux_global()),
                    int(st.index_capa), sorted(st.problem_data)))
    return out


def run(sc, ctx):
    cfg, speed = sc['cfg'], sc['speed']
    t0 = cfg.get('t0', 0.0)
    ct = sc.get('ctrl')
    arr = lambda a: None if a is None else np.array(a)
    if ct:
        rec = D.Rec(ctx, cfg, speed, cap=400, cap_stops=True)
        try:
            c, exc = controller(rec, ct, t0)
        except D.Stop:
            return
        if rec.ambiguous or not np.all(np.isfinite(rec.state.q)) or np.max(np.abs(rec.state.q)) > 100:
            ctx.probe('left-range')
            return
        ser = par.summary(rec)
        ser['exc'] = exc
        ser['frames'] = frames_of(c, arr)
        ctx.probe('controller')
    else:
        ser = par.serial(ctx, cfg, speed, sc['ops'])
        if ser is None:
            return
    if par.blown_up(ser, cfg):
        ctx.probe('blown-up')
        return
    cap = 2 * len(ser['att']) + 50

    def job(rank, rctx):
        from clawpack import petclaw
        rec = D.Rec(rctx, cfg, speed, cap=cap, pyclaw=petclaw, in_range=False)
        frames = None
        if ct:
            c, exc = controller(rec, ct, t0)
            frames = frames_of(c, arr) if exc is None else None
        else:
            exc = par.drive_ops(rec, sc['ops'], t0)
        out = par.summary(rec)
        out['exc'], out['frames'] = exc, frames
        st = rec.solution.states[0]
        out['gq'] = st.get_q_global()
        out['gaux'] = st.get_aux_global() if st.aux is not None else None
        return out

    vals = K.must(K.run(ctx, sc['cl']['P'], job, sc['cl'], sc['sched']))
    judge(ctx, cfg, sc, ser, vals)


def judge(ctx, cfg, sc, ser, vals):
    rtol, atol = par.tols(cfg)
    exact = rtol == 0
    d = len(cfg['n'])
    ctx.probe('dim%d' % d)
    ctx.probe('serial-raised', 1 if ser['exc'] else 0)
    ctx.probe('rejected', 1 if any(not a[3] for a in ser['att']) else 0)
    ctx.probe('sharp', 1 if cfg['solver'] == 'sharp' else 0)
    ctx.probe('nondyadic', 0 if exact else 1)
    g = sc['cl']['pgrids'][str(d)]
    ctx.probe('periodic-split', 1 if any(g[i] > 1 and cfg['bc'][i][0] == 'periodic' for i in range(d)) else 0)
    ctx.probe('uneven-split', 1 if any(cfg['n'][i] % g[i] for i in range(d)) else 0)
    if not exact and par.near_limit(ser, cfg):
        ctx.probe('near-limit')
        return
    for r, v in enumerate(vals):
        w = 'rank %d of %d (%s)' % (r, len(vals), g)
        ctx.check(v['exc'] == ser['exc'], 'parallel-exception', lambda: '%s: %r, serial: %r' % (w, v['exc'], ser['exc']))
        ctx.check(len(v['att']) == len(ser['att']), 'parallel-steps',
                  lambda: '%s took %d attempts, serial %d: %s / %s' % (w, len(v['att']), len(ser['att']), v['att'][:4], ser['att'][:4]))
        for k, (a, b) in enumerate(zip(v['att'], ser['att'])):
            for nm, x, y in zip(('t', 'dt', 'cfl', 'accepted', 'new t'), a, b):
                ok = x == y if (exact or nm == 'accepted') else abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-3)
                ctx.check(ok, 'parallel-step', lambda: '%s attempt %d: %s %r, serial %r' % (w, k, nm, x, y))
        sl = (slice(None),) + tuple(slice(a, b) for a, b in v['slices'])
        for nm in ('q', 'aux'):
            if ser[nm] is None:
                ctx.check(v[nm] is None, 'parallel-' + nm, '%s: %s is not None' % (w, nm))
            else:
                ctx.same(v[nm], ser[nm][sl], 'parallel-' + nm, '%s %s' % (w, nm), rtol, atol)
        ctx.check(set(v['status']) == set(ser['status']), 'parallel-status', '%s: %s' % (w, v['status']))
        for k in ser['status']:
            x, y = v['status'][k], ser['status'][k]
            ctx.check(x == y or (not exact and abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-3)), 'parallel-status',
                      lambda: '%s: status[%s] %r, serial %r' % (w, k, x, y))
    cover = np.zeros(cfg['n'])
    for v in vals:
        cover[tuple(slice(a, b) for a, b in v['slices'])] += 1
    ctx.check(np.all(cover == 1), 'parallel-cover', 'cells owned by no or several processes')
    for r, v in enumerate(vals):
        for nm, key in (('gq', 'q'), ('gaux', 'aux')):
            if r == 0:
                ctx.same(v[nm], ser[key], 'parallel-global', nm, rtol, atol)
            else:
                ctx.check(v[nm] is None, 'parallel-global', 'get_%s_global is not None on rank %d' % (key, r))
    if ser.get('frames') is not None and ser['exc'] is None:
        ctx.probe('deepcopy')
        f0 = vals[0]['frames']
        ctx.check(len(f0) == len(ser['frames']), 'parallel-frames', 'kept %d frames, serial %d' % (len(f0), len(ser['frames'])))
        for k, (a, b) in enumerate(zip(f0, ser['frames'])):
            ctx.check(abs(a[0] - b[0]) <= (0 if exact else 1e-6), 'parallel-frames', 'frame %d t %r / %r' % (k, a[0], b[0]))
            ctx.same(a[1], b[1], 'parallel-frames', 'kept frame %d q' % k, rtol, atol)
            ctx.same(a[2], b[2], 'parallel-frames', 'kept frame %d aux' % k, rtol, atol)
            ctx.check(a[3:] == b[3:], 'parallel-frames', 'kept frame %d: index_capa/problem_data %s, serial %s' % (k, a[3:], b[3:]))

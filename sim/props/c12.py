"""C12  Conserved totals are conserved through every history."""
import os
import numpy as np
from .. import cluster as K
from .. import problems as P
from .. import drive as D
from .. import par
from .. import pjob as J

ID = 'C12'
COUNT = {'quick': 14000, 'thorough': 250000}
TIMEOUT = 60.0
RULE = ('Each run draws a conservation law on a periodic or walled domain (with or without a capacity function), a solver, a '
        'wave-speed profile that forces rejections, and a history of evolve calls, single steps, calls that exhaust max_steps, hooks '
        'that raise, controller runs with output and functionals, and restarts from kept, copied and stored frames.  Domain totals are '
        'taken at every attempted and accepted step.  One run in sixteen is a job of 1-6 petclaw processes under a seeded schedule.  The signature is the problem class, the history and the accept/reject sequence.')
REAL = ['petclaw', 'pyclaw.solver', 'pyclaw.controller', 'pyclaw.classic', 'pyclaw.sharpclaw', 'pyclaw.state', 'fileio hdf5, ascii', 'Fortran kernels', 'riemann solvers']
STUB = ['petsc4py, mpi4py and process scheduling in the parallel runs (sim/stubs, sim/cluster.py)', 'wave speeds over time (set by the simulator through the before_step hook)']
ASSUMPTIONS = ['Only Riemann solvers whose fluctuations sum to the flux difference are used.',
               'Walls: mass and energy for the Euler equations, depth for shallow water, pressure for acoustics.',
               'Restarts from ascii frames start a new total (nine digits are stored).']
PROBES = ['rejected', 'capa', 'wall', 'periodic', 'evolve', 'one', 'giveup', 'hook-raises', 'ctrl', 'F', 'restart-kept', 'restart-hdf5', 'restart-ascii', 'restart-copy',
          'sharp', 'python', '2d', '3d', 'unsplit', 'lmm', 'fixed', 'fwave', 'new-dt', 'parallel', 'parallel-F', 'parallel-restart']
LISTS = ('ops', 'speed', 'sched')
PAR = 16
CONS = sorted(k for k, e in P.EQS.items() if e.cons)


def preimport():
    K.preimport()


def gen(rng, i, tier):
    variable = rng.random() < .8
    dims = (1, 1, 2, 2, 3)
    cfg = P.gen_config(rng, dims=dims, variable=variable, cons_only=True, bcs=['periodic'],
                       integrators=['SSP104', 'SSP33', 'Euler', 'RK', 'SSPLMMk2', 'SSPLMMk3'] if variable else ['SSP104', 'RK', 'LMM', 'SSP33', 'Euler'])
    eq = P.EQS[cfg['eq']]
    if eq.wall and rng.random() < .5:
        cfg['bc'] = [rng.choice([['wall', 'wall'], ['periodic', 'periodic']]) for _ in cfg['bc']]
        # a wall is a mirror only if left- and right-going waves are limited alike
        cfg.pop('limiters', None)
    if cfg['eq'] == 'euler3':
        cfg['dt_initial'] = min(cfg['dt_initial'], 1.5 * cfg['dt1'])
    cfg['t0'] = rng.choice([0., 0., 3., -1.])
    if rng.random() < .15:
        cfg['flat'] = rng.choice([1, 2, 4])
    if cfg.get('lim_type') == 1:
        cfg['limiter'] = rng.choice([1, 3, 4] if eq.nonlinear else [1, 2, 3, 4])
    if cfg.get('kernel') == 'Python' and cfg['solver'] == 'classic' and rng.random() < .5:
        cfg['limiter'] = rng.choice([7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22, 23])
        cfg.pop('limiters', None)
    unit = cfg['dt1'] * (cfg.get('cfl_desired') or .1)
    sc = {'cfg': cfg, 'speed': []}
    if eq.mech and variable and rng.random() < .7 and not cfg.get('integrator', '').startswith('SSPLMM'):
        sc['speed'] = [[cfg['t0'] + a, b] for a, b in D.gen_speed(rng, cfg, unit * 8)]
    if i % PAR == 7:
        return gen_par(rng, sc, cfg, variable, unit)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        gap = round(rng.uniform(.3, 3.), 3)
        k = rng.choice(['evolve', 'evolve', 'one', 'giveup', 'hook', 'ctrl', 'ctrl', 'restart', 'newdt'])
        if k in ('evolve', 'giveup'):
            ops.append([k, gap])
        elif k in ('one', 'hook'):
            ops.append([k, rng.randint(1, 3)])
        elif k == 'ctrl':
            ops.append([k, rng.randint(1, 3), gap, rng.choice([None, 'hdf5', 'ascii']), rng.random() < .6])
        elif k == 'restart':
            ops.append([k, rng.choice(['kept', 'hdf5', 'ascii', 'copy'])])
        else:
            ops.append([k, rng.choice([.3, .7, 1.6, 3.])])
    sc['ops'] = ops
    return sc


def gen_par(rng, sc, cfg, variable, unit):
    t0, cfg['t0'] = cfg['t0'], 0.
    if P.EQS[cfg['eq']].nonlinear and (cfg['solver'] == 'sharp' or len(cfg['n']) > 1):
        cfg['dt_initial'] = min(cfg['dt_initial'], 1.6 * cfg['dt1'] * (cfg.get('cfl_max') or .1))
    T = unit * 3 if variable else 3 * cfg['dt_initial']
    pos = positive(cfg)
    if pos and rng.random() < .6:
        cfg['Fcons'], cfg['mF'] = pos, len(pos)
    sc['par'] = True
    sc['speed'] = [[a - t0, b] for a, b in sc['speed']]
    ops = []
    t = 0.
    for j in range(rng.choice([1, 2, 3])):
        w = rng.random()
        if w < .5:
            ops.append(['run', J.gen_run(rng, cfg, T, variable, fmt=rng.choice([None, 'petsc', 'hdf5']), keep=False, auxi=True, auxa=True, dir='out%d' % j)])
        elif w < .8:
            t += rng.choice([.3, .6]) * T if variable else cfg['dt_initial']
            ops.append(['to', t])
        else:
            ops.append(['step'])
    sc['ops'] = ops
    sc['again'] = rng.random() < .4
    sc['cl'], sc['cl2'] = K.gen_cluster(rng, cfg), K.gen_cluster(rng, cfg)
    sc['sched'] = K.gen_sched(rng, sc['cl']['P'])
    return sc


def positive(cfg):
    """Components whose functional (a sum of absolute values) is their total."""
    eq = P.EQS[cfg['eq']]
    walls = any('wall' in b for b in cfg['bc'])
    comps = list(eq.wall_cons) if walls else list(range(eq.num_eqn))
    return [k for k, b in enumerate(eq.base) if b >= .5 and k in comps]


class Local(object):
    """Totals over the cells of one process at every look."""

    def __init__(self, ctx, sc, cfg):
        self.tot = Totals(ctx, sc, cfg)
        self.rows = []

    def __call__(self, rec, solver, state):
        T = self.tot.of(state)
        self.rows.append((float(state.t), T.tolist(), self.tot.scale.tolist(), float(np.min(state.q[self.tot.cfg.get('Fcons') or [0]]))))


def run_par(sc, ctx):
    from clawpack import pyclaw
    cfg, speed = sc['cfg'], sc['speed']
    sroot, proot = ctx.dir('ser'), ctx.dir('par')
    ctx.tok(D.cfg_rng_label(cfg) + cfg['eq'] + ('k' if cfg.get('capa') else '') + 'par')
    store = J.Store()
    try:
        job = J.Job(ctx, cfg, speed, sroot, pyclaw, store).run(sc['ops'])
    except D.Stop:
        return
    if not J.fine(ctx, job, cfg):
        return
    cap = 2 * len(job.rec.att) + 50

    def mk(ops, start=None):
        def fn(rank, rctx):
            from clawpack import petclaw
            loc = Local(rctx, sc, cfg)
            j = J.Job(rctx, cfg, speed, proot, petclaw, cap=cap, start=start, extra=loc)
            loc(None, None, j.sol.states[0])
            j.run(ops)
            loc(None, None, j.sol.states[0])
            return loc.rows
        return fn

    vals = K.must(K.run(ctx, sc['cl']['P'], mk(sc['ops']), sc['cl'], sc['sched']))
    base = judge_par(ctx, sc, cfg, vals, 'parallel run')
    ctx.probe('parallel')
    vol = float(np.prod([(u - l) / n for l, u, n in zip(cfg['lower'], cfg['upper'], cfg['n'])]))
    if cfg.get('Fcons') and min(row[3] for v in vals for row in v) > 0.:
        comps = Totals(ctx, sc, cfg).comps
        for name, txt in J.texts(proot).items():
            if name.endswith('F.txt'):
                ctx.probe('parallel-F')
                for l in txt.splitlines():
                    r = [float(x) for x in l.split()]
                    for i, k in enumerate(cfg['Fcons']):
                        ctx.same([r[1 + i]], [base[comps.index(k)] * vol], 'functional', 'parallel functional of component %d at t=%r' % (k, r[0]),
                                 rtol=1e-10)
    keys = [k for k in store.frames if k[2] == J.PREFIX]
    if not sc.get('again') or not keys or not cfg['dt_variable']:
        return
    # continue from the last frame on another number of processes
    key = max(keys, key=lambda k: (store.frames[k]['t'], k))
    aux = store.aux_read(key)
    ops2 = [['step'], ['step']]
    st2 = J.Store()
    try:
        job2 = J.Job(ctx, cfg, speed, ctx.dir('ser2'), pyclaw, st2, start=(key, store.frames[key], aux)).run(ops2)
    except D.Stop:
        return
    if not J.fine(ctx, job2, cfg):
        return
    vals = K.must(K.run(ctx, sc['cl2']['P'], mk(ops2, (key, store.frames[key], aux)), sc['cl2'], [], label='restarted'), 'restarted')
    ctx.probe('parallel-restart')
    ctx.fault('restart')
    judge_par(ctx, sc, cfg, vals, 'restarted run', base)


def judge_par(ctx, sc, cfg, vals, what, base=None):
    n = len(vals[0])
    ctx.check(all(len(v) == n for v in vals), 'disagreement', '%s: steps %s' % (what, [len(v) for v in vals]))
    big = 0.
    for k in range(n):
        T = np.sum([v[k][1] for v in vals], axis=0)
        big = np.maximum(big, np.sum([v[k][2] for v in vals], axis=0))
        if base is None:
            base = T
        tol = 1e-13 * (20 + 4 * (k + 8)) * big
        ctx.check(not (np.abs(T - base) > tol).any(), 'total-changed', lambda: '%s on %d processes: t=%r totals %r were %r' % (
            what, len(vals), vals[0][k][0], T.tolist(), base.tolist()))
    return base


class HookFailure(Exception):
    pass


class Totals(object):
    def __init__(self, ctx, sc, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.eq = P.EQS[cfg['eq']]
        walls = any('wall' in b for b in cfg['bc'])
        self.comps = list(self.eq.wall_cons) if walls else list(range(self.eq.num_eqn))
        self.T0 = None
        self.n = 0
        self.left = None
        ctx.probe('wall' if walls else 'periodic')

    def of(self, state):
        q = np.asarray(state.q)
        w = 1.0
        if self.cfg.get('capa'):
            w = np.asarray(state.aux)[-1]
        self.scale = np.array([float(np.sum(np.abs(q[m] * w))) + q[0].size * .5 for m in self.comps])
        return np.array([float(np.sum(q[m] * w)) for m in self.comps])

    def look(self, state, where):
        self.n += 1
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self.left = None
                raise HookFailure()
        T = self.of(state)
        if self.T0 is None:
            self.T0 = T
            self.big = self.scale
            return
        self.big = np.maximum(self.big, self.scale)
        # rounding of a step is a few units in the last place of the fluctuations, which scale with the wave speeds
        tol = 1e-13 * (20 + 4 * self.n) * self.big
        bad = np.abs(T - self.T0) > tol
        self.ctx.check(not bad.any(), 'total-changed', lambda: '%s: t=%r component %s total %r was %r (allowed change %.3g)' % (
            where, float(state.t), [self.comps[i] for i in np.nonzero(bad)[0]], T[bad].tolist(), self.T0[bad].tolist(), float(tol[bad][0])))


def make(ctx, sc, cfg, tot):
    rec = D.Rec(ctx, cfg, speed=sc['speed'], cap=400, cap_stops=True, extra=lambda r, s, st: tot.look(st, 'at the start of a step'))
    return rec


def run(sc, ctx):
    if sc.get('par'):
        return run_par(sc, ctx)
    from clawpack import pyclaw
    cfg = sc['cfg']
    eq = P.EQS[cfg['eq']]
    ctx.tok(D.cfg_rng_label(cfg) + cfg['eq'] + ('k' if cfg.get('capa') else ''))
    d = len(cfg['n'])
    for c, n in ((cfg.get('capa'), 'capa'), (cfg['solver'] == 'sharp', 'sharp'), (cfg.get('kernel') == 'Python', 'python'), (d == 2, '2d'), (d == 3, '3d'),
                 (cfg.get('dimsplit') is False, 'unsplit'), ('LMM' in cfg.get('integrator', ''), 'lmm'), (not cfg['dt_variable'], 'fixed'), (eq.fwave, 'fwave')):
        if c:
            ctx.probe(n)
    tot = Totals(ctx, sc, cfg)
    rec = make(ctx, sc, cfg, tot)
    unit = cfg['dt1'] * (cfg.get('cfl_desired') or .1)
    kept = None
    nout = 0
    for op in sc['ops']:
        s, sol, st = rec.solver, rec.solution, rec.solution.state
        ctx.tok(op[0])
        t = float(sol.t)
        try:
            if op[0] == 'evolve':
                ctx.probe('evolve')
                s.evolve_to_time(sol, t + (op[1] * unit if cfg['dt_variable'] else 3 * s.dt))
            elif op[0] == 'one':
                ctx.probe('one')
                for k in range(op[1]):
                    s.evolve_to_time(sol)
            elif op[0] == 'giveup':
                ms = s.max_steps
                s.max_steps = 2
                try:
                    s.evolve_to_time(sol, t + (20 * unit if cfg['dt_variable'] else 2 * s.dt))
                except (D.Stop, D.Violation):
                    raise
                except Exception:
                    ctx.probe('giveup')
                    ctx.fault('max-steps-exhausted')
                s.max_steps = ms
            elif op[0] == 'hook':
                tot.left = op[1]
                try:
                    s.evolve_to_time(sol, t + (6 * unit if cfg['dt_variable'] else 6 * s.dt))
                except HookFailure:
                    ctx.probe('hook-raises')
                    ctx.fault('hook-raised')
                tot.left = None
            elif op[0] == 'newdt':
                if not cfg['dt_variable']:
                    if op[1] < 1:
                        s.dt = s.dt * op[1]
                        s.dt_initial = s.dt
                        ctx.probe('new-dt')
                else:
                    s.dt = s.dt * op[1]
                    ctx.probe('new-dt')
            elif op[0] == 'ctrl':
                ctx.probe('ctrl')
                nout += 1
                kept = controller(ctx, pyclaw, rec, cfg, op, tot, unit, os.path.join(ctx.root, 'out%d' % nout)) or kept
            elif op[0] == 'restart':
                new = restart(ctx, pyclaw, sc, cfg, op, rec, kept, tot)
                if new is not None:
                    rec.close()
                    rec = new
        except D.Stop:
            return
        except D.Violation:
            raise
        except Exception as e:
            if not cfg['dt_variable'] and 'CFL' in str(e):
                return
            raise
        rec.close()
        if any(not a.acc for a in rec.att):
            ctx.probe('rejected')
        if not np.all(np.isfinite(rec.solution.state.q)) or np.max(np.abs(rec.solution.state.q)) > 100.:
            return
        tot.look(rec.solution.state, 'after %s' % op[0])
    ctx.ev('end', float(rec.solution.t), np.array(rec.solution.state.q))


def controller(ctx, pyclaw, rec, cfg, op, tot, unit, outdir):
    _, m, gap, fmt, F = op
    s, sol, st = rec.solver, rec.solution, rec.solution.state
    c = pyclaw.Controller()
    c.verbosity = 0
    c.solver, c.solution = s, sol
    c.outdir, c.output_format = outdir, fmt
    c.write_aux_always = True
    c.keep_copy = True
    pos = positive(cfg)
    if F and pos:
        ctx.probe('F')
        st.F = None
        st.mF = len(pos)
        vol = float(np.prod(st.grid.delta))

        def cf(state):
            w = np.asarray(state.aux)[-1] if cfg.get('capa') else 1.0
            for i, k in enumerate(pos):
                state.F[i, ...] = state.q[k, ...] * w * vol
        c.compute_F = cf
    if cfg['dt_variable']:
        c.output_style = 2
        t = float(sol.t)
        c.out_times = [t + gap * unit * k / m for k in range(m + 1)]
    else:
        c.output_style, c.nstepout = 3, 1
        c.num_output_times = m + int(sol.start_frame)
    c.run()
    if F and pos:
        with open(os.path.join(outdir, 'F.txt')) as f:
            rows = [[float(x) for x in l.split()] for l in f]
        ctx.check(len(rows) == len(c.frames), 'functional', '%d rows, %d frames' % (len(rows), len(c.frames)))
        for r, fr in zip(rows, c.frames):
            w = np.asarray(fr.state.aux)[-1] if cfg.get('capa') else 1.0
            q = np.asarray(fr.state.q)
            if np.min(q[pos]) <= 0.:
                continue
            for i, k in enumerate(pos):
                T = float(np.sum(q[k] * w)) * vol
                ctx.same([r[1 + i]], [T], 'functional', 'component %d at t=%r' % (k, r[0]), rtol=1e-11)
                ctx.same([r[1 + i]], [tot.T0[tot.comps.index(k)] * vol], 'functional', 'component %d at t=%r against the first total' % (k, r[0]),
                         rtol=1e-12 * (20 + 4 * tot.n))
    return (c, fmt, outdir, int(sol.start_frame) - 1, tot.T0)


def restart(ctx, pyclaw, sc, cfg, op, rec, kept, tot):
    how = op[1]
    old = rec.solution
    if how == 'copy':
        import copy
        sol = copy.deepcopy(old)
    elif kept is None:
        return None
    elif how == 'kept':
        sol = kept[0].frames[-1]
        tot.T0 = kept[4]            # a later restart from an ascii frame started a new total
    else:
        c, fmt, outdir, frame, T0 = kept
        if fmt != how:
            return None
        sol = pyclaw.Solution(frame, path=outdir, file_format=fmt, file_prefix='claw' if fmt == 'hdf5' else 'fort', read_aux=True)
        sol.state.index_capa = old.state.index_capa
        sol.state.problem_data = dict(old.state.problem_data)
        tot.T0 = None if fmt == 'ascii' else T0
    ctx.probe('restart-' + how)
    ctx.fault('restart')
    new = make(ctx, sc, cfg, tot)
    if not cfg['dt_variable']:
        new.solver.dt = new.solver.dt_initial = rec.solver.dt
    new.solution = sol
    new.state = sol.state
    new.prob.solution = sol
    tot.look(sol.state, 'restarted (%s)' % how)
    return new


def shrink(sc):
    if sc.get('par'):
        if sc.get('again'):
            yield dict(sc, again=False)
        for s in J.shrink(sc, ('cl', 'cl2')):
            yield s
        return
    for i, o in enumerate(sc['ops']):
        if o[0] == 'ctrl':
            for j, v in ((4, False), (3, None), (1, 1)):
                if o[j] != v:
                    n = list(o)
                    n[j] = v
                    yield dict(sc, ops=sc['ops'][:i] + [n] + sc['ops'][i + 1:])
    for s in P.shrink_cfg(sc):
        yield s

"""C10  Gauges record every accepted step exactly once."""
import os
import numpy as np
from .. import cluster as K
from .. import problems as P
from .. import drive as D
from .. import par
from .. import pjob as J
from ..core import CRASH_CODE

ID = 'C10'
COUNT = {'quick': 9000, 'thorough': 250000}
TIMEOUT = 60.0
RULE = ('Each run draws a problem with gauges (in cells, on cell edges, in the outermost cells, outside the domain), a recorded quantity (q, scalars or '
        'lists computed from q and aux), a wave-speed profile that forces rejections, and a history of controller runs and direct '
        'evolve calls (same or new controller, same or new directory, gauges added between runs, an earlier process that died in the same '
        'directory, a later process that runs there again).  The expected records are derived from the accepted steps seen '
        'through before_step.  One run in twelve is a job of 1-6 petclaw processes under a seeded schedule, gauges also on the edges between '
        'them, whose records must be those of serial pyclaw, each made by one process.  The signature is the problem class, the history and the accept/reject sequence.')
REAL = ['petclaw', 'pyclaw.solver', 'pyclaw.controller', 'pyclaw.geometry', 'pyclaw.state', 'pyclaw.classic', 'pyclaw.sharpclaw', 'Fortran kernels', 'riemann solvers']
STUB = ['petsc4py, mpi4py and process scheduling in the parallel runs (sim/stubs, sim/cluster.py)', 'wave speeds over time (set by the simulator through the before_step hook)', 'process death (os._exit between steps)']
ASSUMPTIONS = ['A controller run makes one record when it starts; a direct evolve call makes one per accepted step.',
               'Each run continues the files of the previous one or uses a directory no earlier run of this process used.']
PROBES = ['rejected', 'second-run', 'direct', 'single', 'new-dir', 'new-controller', 'added-gauge', 'outside', 'edge', 'top-edge', 'scalar', 'with-aux', 'keep',
          '2d', '3d', 'dead-process', 'fresh-process', 'raised', 'sharp', 'F', 'frames', 'parallel', 'parallel-several-runs', 'parallel-one-process', 'parallel-edge']
LISTS = ('runs', 'speed', 'gauges', 'ops', 'sched')
PAR = 12


def preimport():
    K.preimport()


def gen_par(rng):
    cfg, speed, T, variable = J.gen_cfg(rng, gauges=True)
    for k in ('mp', 'mF', 'map'):
        cfg.pop(k, None)
    ops = []
    t = 0.
    for j in range(rng.choice([1, 1, 2, 3])):
        w = rng.random()
        if w < .7:
            ops.append(['run', J.gen_run(rng, cfg, T, variable, fmt=rng.choice([None, None, 'petsc']), keep=rng.random() < .1)])
        elif w < .9:
            t += rng.choice([.2, .5]) * T if variable else cfg['dt_initial']
            ops.append(['to', t])
        else:
            ops.append(['step'])
    cl = K.gen_cluster(rng, cfg)
    return {'par': True, 'cfg': cfg, 'speed': speed, 'ops': ops, 'cl': cl, 'sched': K.gen_sched(rng, cl['P'])}


def run_par(sc, ctx):
    from clawpack import pyclaw
    cfg, speed = sc['cfg'], sc['speed']
    sroot, proot = ctx.dir('ser'), ctx.dir('par')
    try:
        job = J.Job(ctx, cfg, speed, sroot, pyclaw, J.Store()).run(sc['ops'])
    except D.Stop:
        return
    if not J.fine(ctx, job, cfg):
        return
    D.flush_gauges(job.sol.states[0])
    ser = job.out()
    cap = 2 * len(ser['att']) + 50

    def fn(rank, rctx):
        from clawpack import petclaw
        j = J.Job(rctx, cfg, speed, proot, petclaw, cap=cap).run(sc['ops'])
        D.flush_gauges(j.sol.states[0])
        return j.out()
    vals = K.must(K.run(ctx, sc['cl']['P'], fn, sc['cl'], sc['sched']))
    ctx.probe('parallel')
    ctx.probe('parallel-several-runs', 1 if len(sc['ops']) > 1 else 0)
    jd = J.Judge(ctx, cfg, *par.tols(cfg))
    jd.files('gauge-records', proot, sroot)
    J.gauge_data(ctx, jd, cfg, vals, ser)
    for v in vals:
        ctx.probe('parallel-one-process', 1 if v['gnames'] and len(v['gnames']) == len(ser['gnames']) and len(vals) > 1 else 0)
        for d, (a, b) in enumerate(v['slices']):
            h = (cfg['upper'][d] - cfg['lower'][d]) / cfg['n'][d]
            ctx.probe('parallel-edge', 1 if a and any(g[d] == cfg['lower'][d] + a * h for g in cfg.get('gauges', [])) else 0)


def gen(rng, i, tier):
    if i % PAR == 5:
        return gen_par(rng)
    cfg = P.gen_config(rng, dims=(1, 1, 1, 2, 2, 3), integrators=['SSP104', 'SSP33', 'Euler', 'RK', 'SSPLMMk2'])
    unit = cfg['dt1'] * (cfg.get('cfl_desired') or .1)
    cfg['t0'] = rng.choice([0., 0., 2., -1.])
    if cfg['eq'] == 'euler3':
        cfg['dt_initial'] = min(cfg['dt_initial'], 1.5 * cfg['dt1'])
    sc = {'cfg': cfg, 'gauges': gen_pos(rng, cfg, rng.choice([1, 2, 3])), 'keep': rng.random() < .5, 'fun': rng.choice(['q', 'q', 'scalar', 'list', 'aux', 'npscalar'])}
    sc['speed'] = []
    if P.EQS[cfg['eq']].mech and cfg['dt_variable'] and rng.random() < .7 and not cfg.get('integrator', '').startswith('SSPLMM'):
        sc['speed'] = [[cfg['t0'] + a, b] for a, b in D.gen_speed(rng, cfg, unit * 6)]
    runs = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        x = rng.random()
        gap = unit * round(rng.uniform(.3, 2.5), 3)
        if x < .62:
            runs.append(['ctrl', rng.randint(1, 3), gap, rng.choice(['same', 'same', 'new']), rng.choice(['same', 'same', 'newdir']),
                         rng.choice([None, None, 'ascii', 'hdf5']), rng.random() < .3, rng.random() < .3])
        elif x < .78:
            runs.append(['direct', gap])
        elif x < .88:
            runs.append(['one', rng.randint(1, 3)])
        elif x < .94:
            runs.append(['add', gen_pos(rng, cfg, 1)])
        else:
            runs.append(['giveup', gap])
    sc['runs'] = runs
    sc['dead'] = rng.choice([None, None, None, rng.randint(1, 4)])
    sc['fresh'] = rng.random() < .2
    return sc


def gen_pos(rng, cfg, k):
    """[kind, position] of gauges; kinds: cell, edge, top (just below the upper end), out."""
    out = []
    for _ in range(k):
        kind = rng.choice(['cell', 'cell', 'cell', 'edge', 'top', 'out'])
        g = []
        for d in range(len(cfg['n'])):
            lo, up, n = cfg['lower'][d], cfg['upper'][d], cfg['n'][d]
            h = (up - lo) / n
            i = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)])
            if kind == 'edge' and exact(lo, up, n):
                g.append(lo + h * i)
            elif kind == 'top':
                g.append(float(np.nextafter(up, lo)))
            else:
                g.append(lo + h * (i + rng.choice([.5, .25, .75])))
        if kind == 'out':
            d = rng.randrange(len(cfg['n']))
            lo, up = cfg['lower'][d], cfg['upper'][d]
            g[d] = rng.choice([lo - .3 * (up - lo), up + .1 * (up - lo), up])
        out.append([kind, g])
    return out


def exact(lo, up, n):
    """Are the cell edges exact in floating point?"""
    h = (up - lo) / n
    return all(float(x).hex()[-1] is not None and (x * 2 ** 20) == int(x * 2 ** 20) for x in (lo, up, h))


def cell(cfg, g):
    c = D.gauge_cell(cfg, g)
    return tuple(min(i, n - 1) for i, n in zip(c, cfg['n']))


def inside(cfg, g):
    return all(l <= x < u for l, x, u in zip(cfg['lower'], g, cfg['upper']))


def quantity(fun, num_aux):
    if fun == 'scalar':
        return lambda q, aux: float(q[0]) * 2 + 1
    if fun == 'npscalar':
        return lambda q, aux: q[-1] * .5
    if fun == 'list':
        return lambda q, aux: [q[0], q[0] ** 2, 3.0]
    if fun == 'aux' and num_aux:
        return lambda q, aux: [q[0] * aux[0], aux[-1]]
    return None


class Watch(object):
    """The recorder plus the expected records."""

    def __init__(self, ctx, sc, cfg):
        self.ctx, self.sc, self.cfg = ctx, sc, cfg
        self.rec = D.Rec(ctx, cfg, speed=sc['speed'], cap=250, cap_stops=True, extra=self.extra)
        self.aux = []
        st = self.rec.state
        self.fun = quantity(sc['fun'], st.num_aux)
        if self.fun is not None:
            self.rec.solver.compute_gauge_values = self.fun
        self.gauges = []                   # positions, in the order added
        self.files = {}                    # (dir, gauge) -> records
        self.mem = {}                      # gauge -> records
        self.dir = None
        self.old = set()
        self.seen = 0

    def extra(self, rec, solver, state):
        self.aux.append(None if state.aux is None else np.array(state.aux))

    def add(self, pos):
        g = [tuple(p[1]) for p in pos]
        self.rec.state.grid.add_gauges(g)
        for p in pos:
            if inside(self.cfg, p[1]):
                self.gauges.append(tuple(p[1]))
                self.mem[tuple(p[1])] = []

    def row(self, g, t, q, aux):
        c = (slice(None),) + cell(self.cfg, g)
        v = q[c] if self.fun is None else self.fun(q[c], None if aux is None else aux[c])
        v = [float(x) for x in (v if hasattr(v, '__iter__') else [v])]
        return [float(t)] + v

    def record(self, t, q, aux):
        for g in self.gauges:
            r = self.row(g, t, q, aux)
            self.files.setdefault((self.dir, g), []).append(r)
            if self.sc['keep']:
                self.mem[g].append(r)

    def start(self, d, keep_old):
        """A run begins: its files continue or are new."""
        self.dir = d
        for g in self.gauges:
            if not keep_old:
                self.files[(d, g)] = []
            self.files.setdefault((d, g), [])

    def steps(self):
        """Expected records of the steps accepted since the last look."""
        rec = self.rec
        rec.close()
        for k in range(self.seen, len(rec.att)):
            a = rec.att[k]
            if a.acc:
                q = rec.att[k + 1].q if k + 1 < len(rec.att) else np.array(rec.state.q)
                self.record(a.tn, q, self.aux[k])
        self.seen = len(rec.att)


def uniq(pos):
    out, have = [], set()
    for p in pos:
        if tuple(p[1]) not in have:
            have.add(tuple(p[1]))
            out.append(p)
    return out


def run(sc, ctx):
    if sc.get('par'):
        return run_par(sc, ctx)
    from clawpack import pyclaw
    cfg = {k: v for k, v in sc['cfg'].items() if k not in ('gauges', 'keep_gauges')}
    base = os.path.join(ctx.root, 'out')
    if sc['dead']:
        dead(ctx, pyclaw, sc, cfg, base, sc['dead'])
    history(ctx, pyclaw, sc, cfg, base)
    if sc['fresh']:
        # a later process runs the same thing there again: new files
        ctx.probe('fresh-process')
        ctx.fault('restart')
        ctx.fork(lambda cx: history(cx, pyclaw, sc, cfg, base))


def dead(ctx, pyclaw, sc, cfg, base, n):
    """An earlier process with the same gauges that died after n steps."""
    ctx.probe('dead-process')

    def child(cx):
        w = Watch(cx, dict(sc, speed=[]), cfg)
        w.add(uniq(sc['gauges']))
        w.rec.state.q[...] *= .75
        k = [0]
        orig = w.rec.solver.before_step

        def bs(solver, state):
            k[0] += 1
            if k[0] > n:
                for f in state.grid.gauge_files:
                    f.flush()
                os._exit(CRASH_CODE)
            orig(solver, state)
        w.rec.solver.before_step = bs
        c = pyclaw.Controller()
        c.verbosity = 0
        c.solver, c.solution = w.rec.solver, w.rec.solution
        c.outdir, c.output_format = base, None
        c.tfinal = float(w.rec.solution.t) + 50 * cfg['dt1']
        c.num_output_times = 1
        if not cfg['dt_variable']:
            c.output_style, c.nstepout = 3, 50
        try:
            c.run()
        except Exception:
            os._exit(CRASH_CODE)
        os._exit(CRASH_CODE)
    ctx.fork(child, may_crash=True)
    ctx.fault('process-death')


def history(ctx, pyclaw, sc, cfg, base):
    ctx.tok(D.cfg_rng_label(cfg) + cfg['eq'])
    w = Watch(ctx, sc, cfg)
    for k in range(len(sc['runs']) + 1):
        d = base if k == 0 else '%s-%d' % (base, k)
        p = os.path.join(d, '_gauges')
        w.old |= set((d, n) for n in (os.listdir(p) if os.path.isdir(p) else []))
    rec = w.rec
    s, sol, st = rec.solver, rec.solution, rec.state
    st.keep_gauges = sc['keep']
    w.add(uniq(sc['gauges']))
    d = len(cfg['n'])
    for c, n in ((d == 2, '2d'), (d == 3, '3d'), (sc['keep'], 'keep'), (sc['fun'] in ('scalar', 'npscalar'), 'scalar'),
                 (sc['fun'] == 'aux' and st.num_aux, 'with-aux'), (cfg['solver'] == 'sharp', 'sharp')):
        if c:
            ctx.probe(n)
    for p in sc['gauges']:
        ctx.probe({'out': 'outside', 'edge': 'edge', 'top': 'top-edge'}.get(p[0], 'in-cell'))
    outdir, ndir, c, opened = base, 0, None, False
    for ri, r in enumerate(sc['runs']):
        ctx.tok(r[0])
        stop = False
        try:
            if r[0] == 'add':
                new = [p for p in uniq(r[1]) if tuple(p[1]) not in w.gauges]
                if opened:
                    # files exist only for the gauges known when they were opened
                    w.add(new)
                    st.grid.setup_gauge_files(outdir)
                    w.start(outdir, True)
                else:
                    w.add(new)
                ctx.probe('added-gauge')
                continue
            if r[0] == 'ctrl':
                _, m, gap, ctl, dr, fmt, F, keepf = r
                if c is None or ctl == 'new':
                    if c is not None:
                        ctx.probe('new-controller')
                    c = pyclaw.Controller()
                if dr == 'newdir':
                    ndir += 1
                    outdir = '%s-%d' % (base, ndir)
                    ctx.probe('new-dir')
                if opened:
                    ctx.probe('second-run')
                c.verbosity = 0
                c.solver, c.solution = s, sol
                c.outdir = outdir
                c.output_format = fmt
                c.keep_copy = keepf
                c.compute_F = None
                if fmt:
                    ctx.probe('frames')
                if F:
                    ctx.probe('F')
                    st.F = None
                    st.mF = 1

                    def cf(state):
                        state.F[0, ...] = state.q[0, ...]
                    c.compute_F = cf
                if cfg['dt_variable']:
                    c.output_style = 2
                    c.out_times = [float(sol.t) + gap * k / m for k in range(m + 1)]
                else:
                    c.output_style = 3
                    c.nstepout = 1
                    c.num_output_times = m + int(sol.start_frame)
                w.start(outdir, opened and dr != 'newdir')
                w.record(float(sol.t), np.array(st.q), None if st.aux is None else np.array(st.aux))
                opened = True
                c.run()
            else:
                if not s._is_set_up:
                    s.setup(sol)
                    s.dt = s.dt_initial
                st.grid.setup_gauge_files(outdir)
                w.start(outdir, opened)
                opened = True
                if r[0] == 'direct':
                    ctx.probe('direct')
                    s.evolve_to_time(sol, float(sol.t) + (r[1] if cfg['dt_variable'] else 3 * s.dt))
                elif r[0] == 'one':
                    ctx.probe('single')
                    for k in range(r[1]):
                        s.evolve_to_time(sol)
                elif r[0] == 'giveup':
                    ms = s.max_steps
                    s.max_steps = 2
                    try:
                        s.evolve_to_time(sol, float(sol.t) + (20 * r[1] if cfg['dt_variable'] else 2 * s.dt))
                    except D.Stop:
                        raise
                    except D.Violation:
                        raise
                    except Exception:
                        ctx.probe('raised')
                        ctx.fault('max-steps-exhausted')
                    s.max_steps = ms
        except D.Stop:
            stop = True
        except D.Violation:
            raise
        except Exception as e:
            if not cfg['dt_variable'] and 'CFL' in str(e):
                stop = True                    # the fixed step is too large for this solution
            else:
                raise
        w.steps()
        if rec.ambiguous:
            ctx.probe('left-range')
            return
        D.flush_gauges(st)
        if any(not a.acc for a in rec.att):
            ctx.probe('rejected')
        if not stop or not cfg['dt_variable']:
            verify(ctx, w, sc, 'after run %d (%s)' % (ri, r[0]))
        else:
            verify(ctx, w, sc, 'after run %d (%s), stopped' % (ri, r[0]))
        if stop:
            return
    ctx.ev('end', float(sol.t), np.array(st.q), sorted((os.path.basename(k[0]), str(k[1]), len(v)) for k, v in w.files.items()))


def verify(ctx, w, sc, when):
    dirs = sorted(set(k[0] for k in w.files))
    for d in dirs:
        gs = [k[1] for k in w.files if k[0] == d]
        p = os.path.join(d, '_gauges')
        names = sorted(os.listdir(p)) if os.path.isdir(p) else []
        # files of gauges that only an earlier process had may be lying around
        mine = ['gauge%s.txt' % '_'.join(str(x) for x in g) for g in gs]
        names = [n for n in names if n in mine or (d, n) not in w.old]
        ctx.check(len(names) == len(gs), 'gauge-files', '%s: files %s for gauges %s' % (when, names, gs))
        rows = {}
        for n in names:
            with open(os.path.join(p, n)) as f:
                txt = f.read()
            ctx.check(txt == '' or txt.endswith('\n'), 'gauge-record', '%s: %s ends in mid-record' % (when, n))
            rows[n] = [[float(x) for x in l.split()] for l in txt.splitlines()]
        for g in gs:
            want = w.files[(d, g)]
            mine = [n for n in names if n[len('gauge'):-len('.txt')] == '_'.join(str(x) for x in g)]
            cand = mine or names
            why = [(n, differ(rows[n], want)) for n in cand]
            ctx.check(any(x is None for n, x in why), 'gauge-records', '%s: gauge %s in %s: %s' % (when, g, os.path.basename(d), why))
    if sc['keep']:
        data = w.rec.state.gauge_data
        used = [g for g in w.gauges if w.mem[g]]
        ctx.check(len(data) == len(used), 'gauge-memory', '%s: %d gauges in memory, expected %d' % (when, len(data), len(used)))
        for g, a in zip(used, data):
            x = differ([list(map(float, r)) for r in np.atleast_2d(a)], w.mem[g])
            ctx.check(x is None, 'gauge-memory', '%s: gauge %s in memory: %s' % (when, g, x))
    else:
        ctx.check(len(w.rec.state.gauge_data) == 0, 'gauge-memory', '%s: records in memory without keep_gauges' % when)


def differ(rows, want):
    if len(rows) != len(want):
        return '%d records, expected %d (times %s, expected %s)' % (len(rows), len(want), [r[0] for r in rows][-4:], [r[0] for r in want][-4:])
    for k, (a, b) in enumerate(zip(rows, want)):
        if len(a) != len(b):
            return 'record %d has %d values, expected %d' % (k, len(a), len(b))
        for x, y in zip(a, b):
            if not (x == y or abs(x - y) <= 1e-12 * abs(y) or (x != x and y != y)):
                return 'record %d is %s, expected %s' % (k, a, b)
    return None


def shrink(sc):
    if sc.get('par'):
        for s in J.shrink(sc):
            yield s
        return
    for k, v in (('dead', None), ('fresh', False), ('keep', False), ('fun', 'q')):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for ri, r in enumerate(sc['runs']):
        if r[0] == 'ctrl':
            for j, v in ((7, False), (6, False), (5, None), (4, 'same'), (3, 'same'), (1, 1)):
                if r[j] != v:
                    n = list(r)
                    n[j] = v
                    yield dict(sc, runs=sc['runs'][:ri] + [n] + sc['runs'][ri + 1:])
    for s in P.shrink_cfg(sc):
        yield s

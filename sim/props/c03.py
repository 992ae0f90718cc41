"""C03  Fixed-step results do not depend on how calls are split."""
import os
import numpy as np
from .. import problems as P
from .. import drive as D

ID = 'C03'
COUNT = {'quick': 9000, 'thorough': 250000}
TIMEOUT = 60.0
RULE = ('Each run draws a problem with a fixed step and N steps, and a schedule that splits them into evolve calls, '
        'single steps and controller runs (every output style), with frame writes, reads and copies in between; the same '
        'N steps as one call are the reference.  The signature is the problem class and the split.')
REAL = ['pyclaw.solver', 'pyclaw.classic', 'pyclaw.sharpclaw', 'pyclaw.controller', 'pyclaw.state', 'pyclaw.solution',
        'pyclaw.fileio', 'Fortran kernels', 'riemann solvers']
STUB = []
ASSUMPTIONS = ['With a dyadic step all time arithmetic is exact and the comparison is bit for bit; with a general step the '
               'results are compared to rtol 1e-7 (the last step of a call is adjusted to hit its end time).']
PROBES = ['split-evolve', 'split-single', 'split-controller-1', 'split-controller-2', 'split-controller-3', 'interlude-write',
          'interlude-copy', 'interlude-read', 'lmm', 'strang', 'godunov', 'dq-src', 'gauges', 'general-dt']
LISTS = ('parts',)


def gen(rng, i, tier):
    cfg = P.gen_config(rng, variable=False, dyadic=True,
                       integrators=['SSP104', 'SSP33', 'Euler', 'RK', 'LMM', 'SSPLMMk2', 'SSPLMMk3'])
    d = len(cfg['n'])
    if 'SSPLMM' in cfg.get('integrator', ''):
        cfg['dt_initial'] = 2.0 ** np.floor(np.log2(cfg['dt1'] * .03))
    if rng.random() < .15:
        cfg['dt_initial'] *= rng.choice([.9, .7, .6123])
        general = True
    else:
        general = False
    if rng.random() < .6:
        cfg['source'] = rng.choice([-.7, .4, 1.1])
        cfg['source_t'] = rng.random() < .5
        cfg['source_eq'] = rng.randrange(P.EQS[cfg['eq']].num_eqn)
        if cfg['solver'] == 'classic':
            cfg['source_split'] = rng.choice([1, 2])
    if rng.random() < .4:
        cfg['gauges'] = D.gen_gauges(rng, cfg, rng.choice([1, 2]))
        cfg['keep_gauges'] = rng.random() < .5
    P.gen_hook(rng, cfg)
    cfg['t0'] = rng.choice([0., 0., 0., 2., -1.]) if not general else 0.
    N = rng.randint(3, 10 if d < 3 else 6)
    parts = []
    left = N
    while left > 0:
        k = rng.randint(1, left)
        kind = rng.choice(['evolve', 'evolve', 'single', 'ctrl'])
        if kind == 'ctrl':
            style = rng.choice([1, 2, 3])
            div = [x for x in range(1, k + 1) if k % x == 0]
            m = rng.choice(div)
            fmt = rng.choice([None, None, 'ascii', 'hdf5'])
            parts.append(['ctrl', k, style, m, fmt, rng.random() < .3])
        else:
            parts.append([kind, k])
        left -= k
        if left and rng.random() < .3:
            parts.append([rng.choice(['write', 'copy', 'read']), 0])
    return {'cfg': cfg, 'parts': parts, 'general': general}


def log_of(rec):
    return [(a.t, a.q, a.src) for a in rec.att]


def one_call(ctx, sc, N):
    cfg = sc['cfg']
    rec = D.Rec(ctx, cfg)
    g = None
    if cfg.get('gauges'):
        g = ctx.dir('gref')
        rec.state.grid.setup_gauge_files(g)
    try:
        rec.solver.evolve_to_time(rec.solution, cfg['t0'] + N * cfg['dt_initial'])
    except Exception as e:
        if isinstance(e, (D.Violation, D.Stop)):
            raise
        rec.close()
        if rec.solver.cfl_max is not None and rec.att and rec.att[-1].cfl > rec.solver.cfl_max:
            ctx.probe('cfl-too-large')      # the fixed step is too large for the solution it reaches: nothing to compare
            raise D.Stop()
        raise
    rec.close()
    if g:
        D.flush_gauges(rec.state)
    return rec, g


def run(sc, ctx):
    cfg = sc['cfg']
    N = sum(p[1] for p in sc['parts'])
    if N == 0:
        return
    dt = cfg['dt_initial']
    ctx.tok(D.cfg_rng_label(cfg) + cfg['eq'])
    tol = dict(rtol=0.0, atol=0.0) if not sc['general'] else dict(rtol=1e-7, atol=1e-9)
    if sc['general']:
        ctx.probe('general-dt')
    if 'LMM' in cfg.get('integrator', ''):
        ctx.probe('lmm')
    try:
        ref, gref = one_call(ctx, sc, N)
    except D.Stop:
        return
    if cfg['solver'] == 'sharp' and cfg.get('source') is not None:
        ctx.probe('dq-src')
    rec = D.Rec(ctx, cfg)
    s, sol = rec.solver, rec.solution
    g = None
    if cfg.get('gauges'):
        ctx.probe('gauges')
        g = ctx.dir('g')
        if sc['parts'][0][0] != 'ctrl':
            rec.state.grid.setup_gauge_files(g)
    expect_first = sc['parts'][0][0] == 'ctrl'
    done = 0
    inits = []                      # number of steps done at the start of each controller run
    from clawpack import pyclaw
    ctx.fault('call-boundary', len([p for p in sc['parts'] if p[1]]) - 1)
    for p in sc['parts']:
        ctx.tok('%s%d' % (p[0][0] + (str(p[2]) if p[0] == 'ctrl' else ''), p[1]))
        k = p[1]
        if p[0] == 'evolve':
            ctx.probe('split-evolve')
            s.evolve_to_time(sol, cfg['t0'] + (done + k) * dt if not sc['general'] else sol.t + k * dt)
        elif p[0] == 'single':
            ctx.probe('split-single')
            for _ in range(k):
                s.evolve_to_time(sol)
        elif p[0] == 'ctrl':
            style, m, fmt, keep = p[2:]
            ctx.probe('split-controller-%d' % style)
            c = pyclaw.Controller()
            c.solver, c.solution = s, sol
            c.outdir = g if g else ctx.dir('out%d' % done)
            c.output_format = fmt
            c.keep_copy = keep
            c.verbosity = 0
            c.output_style = style
            t_end = sol.t + k * dt
            if style == 1:
                c.num_output_times = m
                c.tfinal = t_end
            elif style == 2:
                c.out_times = [float(sol.t)] + [float(sol.t) + (j + 1) * (k // m) * dt for j in range(m)]
            else:
                sol._start_frame = 0
                c.num_output_times = m
                c.nstepout = k // m
            inits.append(done)
            c.run()
            if g:
                # later parts call the solver directly: the files have to be open again
                rec.state.grid.setup_gauge_files(g)
            if keep:
                ctx.check(len(c.frames) == m + 1, 'frame-count', '%d frames kept, expected %d' % (len(c.frames), m + 1))
                for j in range(m + 1):
                    ctx.same(c.frames[j].state.q, ref_q(ref, done + j * (k // m)), 'frame-differs', 'kept frame %d' % j, **tol)
        elif p[0] == 'write':
            ctx.probe('interlude-write')
            ctx.fault('interlude')
            sol.write(0, ctx.dir('w'), file_format='ascii', write_aux=cfg.get('capa', False))
        elif p[0] == 'copy':
            import copy
            ctx.probe('interlude-copy')
            ctx.fault('interlude')
            c2 = copy.deepcopy(sol)
            c2.states[0].q[...] = 7.0
        elif p[0] == 'read':
            ctx.probe('interlude-read')
            ctx.fault('interlude')
            sol.write(1, ctx.dir('w'), file_format='hdf5')
            other = pyclaw.Solution()
            other.read(1, ctx.dir('w'), file_format='hdf5', file_prefix='claw')
        rec.close()
        done += k
    A, B = rec.att, ref.att
    ctx.check(len(A) == N, 'hook-count', 'before_step ran %d times for %d steps' % (len(A), N))
    ctx.check(len(B) == N, 'hook-count', 'before_step ran %d times for %d steps in one call' % (len(B), N))
    ctx.check(s.status['numsteps'] == N == ref.solver.status['numsteps'], 'step-count', '%r %r of %d' % (
        s.status['numsteps'], ref.solver.status['numsteps'], N))
    for k in range(N):
        tw = cfg['t0'] + k * dt
        for name, L in (('split', A), ('one call', B)):
            ctx.check(abs(L[k].t - tw) <= 1e-12 * max(1.0, abs(tw)), 'hook-time', '%s: step %d starts at %r, expected %r' % (name, k, L[k].t, tw))
        ctx.same(A[k].q, B[k].q, 'differs-by-split', 'q at the start of step %d' % k, **tol)
        if cfg.get('source') is not None and cfg['solver'] == 'classic':
            ctx.probe('strang' if cfg.get('source_split') == 2 else 'godunov')
            want = [dt / 2, dt / 2] if cfg.get('source_split', 1) == 2 else [dt]
            for name, L in (('split', A), ('one call', B)):
                got = L[k].src
                ctx.check(len(got) == len(want) and all(abs(x[1] - w) <= 1e-9 * dt for x, w in zip(got, want)), 'source-integration',
                          '%s: step %d of dt=%r called the source with %r' % (name, k, dt, got))
        elif cfg.get('source') is not None:
            ctx.check(len(A[k].src) == len(B[k].src), 'source-integration', 'step %d: %d and %d source evaluations' % (k, len(A[k].src), len(B[k].src)))
    ctx.check(abs(float(sol.t) - float(ref.solution.t)) <= 1e-12 * max(1., abs(float(sol.t))), 'time-differs', '%r %r' % (sol.t, ref.solution.t))
    ctx.same(sol.states[0].q, ref.solution.states[0].q, 'differs-by-split', 'final q', **tol)
    if g:
        D.flush_gauges(rec.state)
        mine, want = D.read_gauge_files(rec.state, g), D.read_gauge_files(ref.state, gref)
        ctx.check(sorted(mine) == sorted(want), 'gauge-files', '%s %s' % (sorted(mine), sorted(want)))
        for f in want:
            # a controller run adds one record for its start
            rows = [r for r in mine[f]]
            exp = []
            for k in range(N + 1):
                if k > 0:
                    exp.append(want[f][k - 1])
                if k in inits:
                    exp.append(want[f][k - 1] if k > 0 else None)
            ctx.check(len(rows) == len(exp), 'gauge-records', '%s: %d records, expected %d' % (f, len(rows), len(exp)))
            for k, (a, b) in enumerate(zip(rows, exp)):
                if b is not None:
                    ctx.same(a, b, 'gauge-value', '%s record %d' % (f, k), rtol=tol['rtol'] or 1e-15, atol=tol['atol'])
    ctx.ev('end', float(sol.t), np.array(sol.states[0].q))


def ref_q(ref, k):
    return ref.att[k].q0 if k < len(ref.att) else np.array(ref.solution.states[0].q)


def shrink(sc):
    for s in P.shrink_cfg(sc):
        yield s

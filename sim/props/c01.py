"""C01  Rejected time steps leave no trace."""
import numpy as np
from .. import problems as P
from .. import drive as D

ID = 'C01'
COUNT = {'quick': 15000, 'thorough': 400000}
TIMEOUT = 60.0
RULE = ('Each run draws a problem (18 equations in 1-3 D, classic and SharpClaw, Fortran and Python kernels, all '
        'boundary types, capacity, source terms, gauges), a wave-speed profile with jumps, an initial step that may be '
        'far too large, user changes of dt between calls and a list of output times; the signature is the problem class '
        'and the whole accept/reject/call sequence.')
REAL = ['pyclaw.solver', 'pyclaw.classic', 'pyclaw.sharpclaw', 'pyclaw.cfl', 'pyclaw.state', 'pyclaw.solution',
        'pyclaw.geometry', 'Fortran kernels', 'riemann solvers']
STUB = ['wave speeds over time (set by the simulator through the before_step hook)']
ASSUMPTIONS = ['Attempts are observed through before_step, solver.dt, solver.cfl and solver.status.',
               'SharpClaw is compared with the rejection-free re-run to rtol 1e-8, classic bit for bit.']
PROBES = ['rejected-first', 'rejected-twice-in-a-row', 'cfl-equals-max', 'source-strang', 'source-godunov',
          'gauges', 'rejected-with-source', 'rejected-with-gauges', 'rejected-sharp', 'rejected-python-kernel',
          'rejected-2d', 'rejected-3d', 'rejected-capa', 'true-cfl-known', 'single-step-call', 'user-dt']
LISTS = ('ops', 'speed')


def gen(rng, i, tier):
    solver = None
    r = rng.random()
    if r < .12:
        return gen_exact(rng)
    cfg = P.gen_config(rng, solver=solver, integrators=['SSP104', 'SSP33', 'Euler', 'RK', 'SSPLMMk2', 'SSPLMMk3'])
    if cfg['eq'] == 'euler3':
        cfg['dt_initial'] = min(cfg['dt_initial'], 1.5 * cfg['dt1'])
    d = len(cfg['n'])
    T = cfg['dt1'] * (cfg.get('cfl_desired') or .1) * rng.choice([3, 5, 8] if d < 3 else [2, 3, 4])
    sc = {'cfg': cfg}
    if rng.random() < .45:
        cfg['source'] = rng.choice([-.7, .4, 1.3])
        cfg['source_t'] = rng.random() < .5
        cfg['source_eq'] = rng.randrange(P.EQS[cfg['eq']].num_eqn)
        if cfg['solver'] == 'classic':
            cfg['source_split'] = rng.choice([1, 2])
    if rng.random() < .4:
        cfg['gauges'] = D.gen_gauges(rng, cfg, rng.choice([1, 2]))
        cfg['keep_gauges'] = rng.random() < .7
    P.gen_hook(rng, cfg)
    mech = P.EQS[cfg['eq']].mech
    sc['speed'] = D.gen_speed(rng, cfg, T) if mech else []
    if cfg['solver'] == 'sharp' and mech and mech.startswith('aux') and cfg.get('integrator', '').startswith('SSPLMM'):
        sc['speed'] = []
    ops = []
    t = 0.0
    for k in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if x < .7:
            ops.append(['to', round(rng.uniform(.3, 1.0), 3) * T])
        elif x < .85:
            ops.append(['one'])
        else:
            ops.append(['dt', rng.choice([.05, 3., 10.]) * cfg['dt1']])
            ops.append(['to', round(rng.uniform(.3, .7), 3) * T])
    sc['ops'] = ops
    return sc


def gen_exact(rng):
    """Dyadic data for which the Courant number is exact, with cfl_desired ==
    cfl_max: accepted steps sit exactly on the limit."""
    eq = rng.choice(['advection', 'acoustics', 'advection2', 'acoustics2'])
    d = P.EQS[eq].dim
    n = [rng.choice([16, 20, 24]) if d == 1 else rng.choice([8, 10]) for _ in range(d)]
    h = 2.0 ** -4
    cfg = {'eq': eq, 'solver': 'classic', 'n': n, 'lower': [0.] * d, 'upper': [v * h for v in n], 'ic': rng.randint(1, 10 ** 6),
           'bc': [rng.choice([['periodic', 'periodic'], ['extrap', 'extrap']]) for _ in range(d)], 'order': rng.choice([1, 2]),
           'limiter': rng.choice([1, 4]), 'dt_variable': True, 'dt1': h}
    cm = rng.choice([.5, 1.0, .25])
    cfg['cfl_max'] = cm
    cfg['cfl_desired'] = cm
    cfg['dt_initial'] = h * cm * rng.choice([1.0, 1.0, 2.0, .5])
    cfg['source'] = rng.choice([-.5, .5, 1.0])
    cfg['source_split'] = rng.choice([1, 2])
    if d > 1:
        cfg['dimsplit'] = True
    return {'cfg': cfg, 'speed': [], 'ops': [['to', h * cm * rng.choice([3, 4, 6])]] + ([['one']] if rng.random() < .5 else [])}


def run(sc, ctx):
    cfg = sc['cfg']
    one_step = cfg['solver'] == 'classic' or cfg.get('integrator') in D.ONE_STEP
    ctx.tok(D.cfg_rng_label(cfg) + cfg['eq'])
    rec = D.Rec(ctx, cfg, speed=sc['speed'], cap=300, cap_stops=True)
    s, sol = rec.solver, rec.solution
    st = sol.states[0]
    gd = None
    if cfg.get('gauges'):
        gd = ctx.dir('g')
        st.grid.setup_gauge_files(gd)
        ctx.probe('gauges')
    for op in sc['ops']:
        ctx.tok(op[0][0])
        try:
            if op[0] == 'to':
                s.evolve_to_time(sol, sol.t + op[1])
            elif op[0] == 'one':
                ctx.probe('single-step-call')
                s.evolve_to_time(sol)
        except D.Stop:
            break
        if op[0] == 'dt':
            ctx.probe('user-dt')
            ctx.fault('user-changed-dt')
            s.dt = op[1]
        rec.close()
    if rec.ambiguous:
        ctx.probe('left-range')
        return
    att = rec.att
    ctx.check(len(att) > 0 or all(o[0] == 'dt' for o in sc['ops']), 'no-step-taken', 'before_step was never called')
    cfl_max = s.cfl_max
    acc = rec.accepted()
    # 1. a rejected attempt leaves the solution and the time as they were
    run_rej = 0
    for k, a in enumerate(att):
        nq, nt, nn = ((att[k + 1].q0, att[k + 1].t, att[k + 1].nsteps) if k + 1 < len(att)
                      else (np.array(sol.states[0].q), float(sol.t), int(s.status['numsteps'])))
        if a.acc:
            run_rej = 0
            ctx.check(nn == a.nsteps + 1, 'step-count', 'an accepted step at t=%r changed numsteps by %d' % (a.t, nn - a.nsteps))
            if one_step:
                ctx.check(a.cfl <= cfl_max, 'accepted-above-cfl-max', 'step at t=%r accepted with cfl %r > cfl_max %r'
                          % (a.t, a.cfl, cfl_max))
                if a.cfl == cfl_max:
                    ctx.probe('cfl-equals-max')
        else:
            run_rej += 1
            note_rejection(ctx, cfg, k, run_rej)
            ctx.check(nn == a.nsteps, 'rejected-step-counted', 'a rejected step at t=%r changed numsteps' % a.t)
            ctx.check(nt == a.t, 'time-not-restored', 'rejected step at t=%r left t=%r' % (a.t, nt))
            ctx.same(nq, a.q0, 'solution-not-restored', 'q after the rejected step at t=%r' % a.t)
            if one_step:
                ctx.check(a.cfl > cfl_max or not np.isfinite(a.cfl), 'rejected-below-cfl-max', 'cfl %r <= %r' % (a.cfl, cfl_max))
        tc = D.true_cfl(cfg, rec.prob.aux0, D.speed_of(sc['speed'], a.t), a.dt)
        if tc is not None and (cfg['solver'] == 'classic' or not sc['speed']) and one_step:
            ctx.probe('true-cfl-known')
            ctx.check(abs(a.cfl - tc) <= 1e-9 * tc, 'courant-number-wrong',
                      'step at t=%r with dt=%r reports cfl %r, the wave speeds give %r' % (a.t, a.dt, a.cfl, tc))
    if not acc:
        return
    # 2. status describes the accepted steps only
    ctx.check(s.status['numsteps'] == len(acc), 'status-numsteps', '%r, accepted %d' % (s.status['numsteps'], len(acc)))
    ctx.check(s.status['cflmax'] == max(a.cfl for a in acc), 'status-cflmax',
              'cflmax %r, largest accepted %r' % (s.status['cflmax'], max(a.cfl for a in acc)))
    # 3. everything is as in a run that takes only the accepted steps
    tol = D.tolerance(cfg)
    sens = None
    og = ctx.dir('og') if gd else None
    o, traj = D.oracle(ctx, cfg, sc['speed'], acc, gauges=og)
    for k, a in enumerate(acc):
        q = acc[k + 1].q0 if k + 1 < len(acc) else np.array(sol.states[0].q)
        ctx.check(abs(traj[k][0] - a.tn) <= 1e-12 * max(1.0, abs(a.tn)), 'time-differs', 'step %d: %r, without rejections %r'
                  % (k, a.tn, traj[k][0]))
        if tol['atol'] and q.shape == traj[k][1].shape and np.nanmax(np.abs(q - traj[k][1])) > tol['atol']:
            if sens is None:
                sens = D.sensitivity(ctx, cfg, sc['speed'], acc)
                ctx.probe('ill-conditioned')
            tol = dict(rtol=tol['rtol'], atol=max(tol['atol'], 200 * float(sens[k])))
        ctx.same(q, traj[k][1], 'differs-from-rejection-free-run', 'q after accepted step %d (t=%r)' % (k, a.tn), **tol)
    # 4. sources: each accepted step integrates exactly dt
    if cfg.get('source') is not None and cfg['solver'] == 'classic':
        ctx.probe('source-strang' if cfg.get('source_split', 1) == 2 else 'source-godunov')
        for a in acc:
            want = [a.dt / 2, a.dt / 2] if cfg.get('source_split', 1) == 2 else [a.dt]
            ctx.check([x[1] for x in a.src] == want, 'source-not-applied-once',
                      'accepted step at t=%r, dt=%r: source called with %r' % (a.t, a.dt, a.src))
    # 5. gauges: one record per accepted step, with the values of the rejection-free run
    if gd:
        D.flush_gauges(sol.states[0])
        D.flush_gauges(o.solution.states[0])
        mine, ref = D.read_gauge_files(sol.states[0], gd), D.read_gauge_files(o.solution.states[0], og)
        ctx.check(sorted(mine) == sorted(ref), 'gauge-files', '%s %s' % (sorted(mine), sorted(ref)))
        ctx.check(len(mine) == len(cfg['gauges']), 'gauge-files', 'expected %d' % len(cfg['gauges']))
        for f in mine:
            ctx.check(len(mine[f]) == len(acc), 'gauge-records', '%s has %d records for %d accepted steps' % (f, len(mine[f]), len(acc)))
            for k, a in enumerate(acc):
                ctx.check(abs(mine[f][k][0] - a.tn) <= 1e-15 * abs(a.tn), 'gauge-time', '%r != %r' % (mine[f][k][0], a.tn))
                ctx.same(mine[f][k][1:], ref[f][k][1:], 'gauge-value', '%s record %d' % (f, k), **tol)
        if cfg.get('keep_gauges'):
            gdata = sol.states[0].gauge_data
            ctx.check(len(gdata) == len(cfg['gauges']), 'gauge-data', 'number of gauges in memory')
            for g in gdata:
                g = np.atleast_2d(g)
                ctx.check(g.shape[0] == len(acc), 'gauge-data', '%d records in memory for %d steps' % (g.shape[0], len(acc)))
                ctx.same(g[:, 0], [a.tn for a in acc], 'gauge-data', 'times in memory')
    ctx.ev('end', float(sol.t), np.array(sol.states[0].q))


def note_rejection(ctx, cfg, k, run_rej):
    if k == 0:
        ctx.probe('rejected-first')
    if run_rej == 2:
        ctx.probe('rejected-twice-in-a-row')
    if cfg.get('source') is not None:
        ctx.probe('rejected-with-source')
    if cfg.get('gauges'):
        ctx.probe('rejected-with-gauges')
    if cfg['solver'] == 'sharp':
        ctx.probe('rejected-sharp')
    if cfg.get('kernel') == 'Python':
        ctx.probe('rejected-python-kernel')
    if cfg.get('capa'):
        ctx.probe('rejected-capa')
    d = len(cfg['n'])
    if d > 1:
        ctx.probe('rejected-%dd' % d)


def shrink(sc):
    for s in P.shrink_cfg(sc):
        yield s

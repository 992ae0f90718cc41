"""C02  Evolving to a time arrives exactly there or raises."""
import numpy as np
from .. import problems as P
from .. import drive as D

ID = 'C02'
COUNT = {'quick': 15000, 'thorough': 400000}
TIMEOUT = 60.0
RULE = ('Each run draws a problem and a history of calls on one solver: evolve to a time ahead, very near, already '
        'reached; single steps; stretches with a fixed step that divides or does not divide the interval; changes of '
        'max_steps (also too small), dt_max and dt; wave-speed jumps that force rejections.  Every call is judged '
        'against a model of its allowed outcomes.  The signature is the problem class and the accept/reject/call/outcome '
        'sequence.')
REAL = ['pyclaw.solver', 'pyclaw.classic', 'pyclaw.sharpclaw', 'pyclaw.cfl', 'pyclaw.state', 'pyclaw.solution',
        'Fortran kernels', 'riemann solvers']
STUB = ['wave speeds over time (set by the simulator through the before_step hook)']
ASSUMPTIONS = ['dt_initial and user-set dt do not exceed dt_max.',
               'Bounded retries (12 in a row) are demanded only of linear problems, whose Courant number is proportional to dt.',
               'Arrival is exact up to one unit in the last place (t + (tend - t) may round).']
PROBES = ['arrived', 'raised-max-steps', 'raised-after-rejection', 'raised-cfl', 'raised-not-divisible', 'already-there',
          'single', 'single-rejected', 'fixed', 'nearly-divisible', 'arrived-after-raise', 'arrived-after-fixed', 'arrived-after-single',
          'dt-max-active', 'negative-time', 'large-time', 'tiny-interval', 'sharp', 'lmm']
LISTS = ('ops', 'speed')

SETTINGS = ['max_steps', 'dt_max', 'dt_initial', 'dt_variable', 'cfl_max', 'cfl_desired', 'order', 'source_split',
            'num_ghost', 'num_waves', 'num_eqn', 'fwave', 'kernel_language', 'time_integrator', 'lim_type', 'weno_order',
            'dimensional_split', 'transverse_waves', 'call_before_step_each_stage', 'limiters', 'bc_lower', 'bc_upper',
            'aux_bc_lower', 'aux_bc_upper', 'char_decomp', 'tfluct_solver', 'lmm_steps', 'check_lmm_cond']


def gen(rng, i, tier):
    cfg = P.gen_config(rng, dims=(1, 1, 1, 1, 2, 2, 3),
                       integrators=['SSP104', 'SSP33', 'Euler', 'RK', 'SSPLMMk2', 'SSPLMMk3'])
    lmm = 'LMM' in cfg.get('integrator', '')
    unit = cfg['dt1'] * (cfg.get('cfl_desired') or .1)
    cfg['t0'] = rng.choice([0., 0., 0., -1.5, -0.03, 17.25, 1000.])
    sc = {'cfg': cfg}
    T = unit * 6
    sc['speed'] = ([[cfg['t0'] + a, b] for a, b in D.gen_speed(rng, cfg, T)] if P.EQS[cfg['eq']].mech and not lmm else [])
    if cfg['solver'] == 'classic' and rng.random() < .3:
        cfg['source'] = rng.choice([-.7, .4])
        cfg['source_split'] = rng.choice([1, 2])
    if rng.random() < .3:
        cfg['dt_max'] = unit * rng.choice([.3, .6, 1.5])
        cfg['dt_initial'] = min(cfg['dt_initial'], cfg['dt_max'])
    if rng.random() < .35:
        cfg['max_steps'] = rng.choice([1, 2, 3, 4, 6, 9])
    ops = []
    for k in range(rng.randint(2, 6)):
        x = rng.random()
        if x < .45:
            ops.append(['to', unit * round(rng.uniform(.2, 3.), 3)])
        elif x < .5:
            ops.append(['to', unit * rng.choice([1e-3, 1e-9, 1e-13])])
        elif x < .6:
            ops.append(['to', -unit * rng.choice([0., 0., .5, 2.])])
        elif x < .72:
            ops.append(['one'])
        elif x < .8 and not lmm:
            ops.append(['fixed', rng.choice([.5, .25, .125]), rng.choice([1, 2, 3, 5, 8]), rng.choice([0., 0., 3e-6, -3e-6, 2e-9, -2e-9])])
        elif x < .84 and not lmm:
            ops.append(['baddt', rng.choice([.5, .3]), rng.choice([rng.choice([1, 2]) + rng.choice([.5, .3, .71]),
                                                                   rng.choice([1, 2, 4]) * (1 + rng.choice([-1, 1]) * rng.choice([3e-5, 1e-4, 1e-3, 5e-3]))])])
        elif x < .94:
            ops.append(['set', 'max_steps', rng.choice([1, 2, 3, 5, 200, 10000])])
        elif not lmm:
            ops.append(['setdt', rng.choice([.01, .5, 4.])])
    if P.EQS[cfg['eq']].nonlinear and any(o[0] in ('fixed', 'baddt', 'setdt') for o in ops):
        # a user-set dt is rescaled with the Courant number of the last step; after a minute step that makes one
        # attempt with an enormous dt, which some nonlinear Riemann solvers answer with a Fortran stop
        ops = [o for o in ops if not (o[0] == 'to' and 0 < o[1] < 1e-2 * unit)]
        if cfg['eq'] == 'euler3':
            ops = [o for o in ops if o[0] in ('to', 'one', 'set')]
    ops.append(['set', 'max_steps', 3000])
    ops.append(['to', unit * 1.5])
    sc['ops'] = ops
    return sc


def snapshot(s):
    out = {}
    for k in SETTINGS:
        if hasattr(s, k):
            v = getattr(s, k)
            out[k] = list(v) if isinstance(v, (list, tuple, np.ndarray)) else v
    return out


def run(sc, ctx):
    cfg = sc['cfg']
    ctx.tok(D.cfg_rng_label(cfg) + cfg['eq'])
    lmm = 'LMM' in cfg.get('integrator', '')
    linear = not P.EQS[cfg['eq']].nonlinear and cfg.get('source') is None
    rec = D.Rec(ctx, cfg, speed=sc['speed'], cap=3500)
    s, sol = rec.solver, rec.solution
    if cfg['solver'] == 'sharp':
        ctx.probe('sharp')
    if lmm:
        ctx.probe('lmm')
    if cfg['t0'] < 0:
        ctx.probe('negative-time')
    if cfg['t0'] > 10:
        ctx.probe('large-time')
    s.setup(sol)                    # fixes what a solver derives from its other settings (num_ghost)
    unit = cfg['dt1'] * (cfg.get('cfl_desired') or .1)
    base_dt = min(unit * .5, s.dt_max)
    had = {}
    for op in sc['ops']:
        if op[0] == 'set':
            setattr(s, op[1], op[2])
            continue
        if op[0] == 'setdt':
            s.dt = min(op[1] * unit, s.dt_max)
            ctx.fault('user-changed-dt')
            continue
        t0, A0, n0 = float(sol.t), len(rec.att), int(s.status['numsteps'])
        q0 = np.array(sol.states[0].q)
        fixed = op[0] in ('fixed', 'baddt')
        if fixed:
            s.dt_variable = False
            s.dt = 2.0 ** np.floor(np.log2(min(op[1] * unit, s.dt_max)))
            eps = op[3] if op[0] == 'fixed' else 0.          # the step may divide the interval only nearly
            tend = t0 + op[2] * s.dt * (1 + eps)
            miss = abs(eps) * op[2] * float(s.dt)
        elif op[0] == 'one':
            tend = None
        else:
            tend = t0 + op[1]
        snap = snapshot(s)
        dt_asked = float(s.dt)
        err = None
        ctx.ev('call', op[0], t0, tend)
        try:
            st = s.evolve_to_time(sol, tend) if tend is not None else s.evolve_to_time(sol)
        except D.Stop:
            return
        except Exception as e:
            if isinstance(e, D.Violation):
                raise
            err = e
        rec.close()
        if rec.ambiguous:
            ctx.probe('left-range')
            return
        att = rec.att[A0:]
        acc = [a for a in att if a.acc]
        t1 = float(sol.t)
        ctx.ev('ret', 'raise' if err else 'ok', t1, len(att), len(acc))
        ctx.tok('%s%s' % (op[0][0], '!' if err else '.'))
        # the call changes no setting
        now = snapshot(s)
        for k in snap:
            if snap[k] is None:
                continue
            ctx.check(snap[k] == now.get(k), 'setting-changed', '%s was %r and is %r after evolve_to_time' % (k, snap[k], now.get(k)))
        ulp = 4 * np.spacing(max(abs(t0), abs(t1), abs(tend if tend is not None else t1)))
        # every accepted step moves time forward, within the limits
        prev = t0
        for a in acc:
            ctx.check(a.t == prev, 'time-jump', 'step starts at %r, the last one ended at %r' % (a.t, prev))
            ctx.check(a.tn > a.t, 'time-not-forward', '%r -> %r' % (a.t, a.tn))
            if tend is not None:
                ctx.check(a.tn <= tend + ulp + (1.001 * miss if fixed else 0), 'overshoot', 'stepped to %r beyond %r' % (a.tn, tend))
            ctx.check(a.tn - a.t <= snap['dt_max'] * (1 + 1e-12) + 1e-13 * abs(a.tn) + ulp, 'dt-max-exceeded',
                      'step of %r with dt_max %r' % (a.tn - a.t, snap['dt_max']))
            if a.tn - a.t >= snap['dt_max'] * (1 - 1e-9):
                ctx.probe('dt-max-active')
            prev = a.tn
        ctx.check(prev == t1 or not acc and t1 == t0, 'time-jump', 'solution at %r, last step ended at %r' % (t1, prev))
        if linear:
            row = 0
            for a in att:
                row = 0 if a.acc else row + 1
                ctx.check(row <= 12, 'no-progress', '%d rejections in a row at t=%r' % (row, a.t))
        if tend is not None and tend <= t0:
            ctx.probe('already-there')
            ctx.check(err is None, 'raised-at-goal', repr(err))
            ctx.check(not att and t1 == t0, 'evolved-past-goal', 'asked for %r from %r, took %d steps' % (tend, t0, len(att)))
        elif op[0] == 'one':
            ctx.probe('single')
            if len(att) > 1:
                ctx.probe('single-rejected')
            if err is None:
                ctx.check(len(acc) == 1, 'single-step', 'a single-step call took %d steps' % len(acc))
            else:
                ctx.check(len(att) >= snap['max_steps'] and not acc, 'raised', 'single step: %r after %d attempts (max_steps %d)'
                          % (err, len(att), snap['max_steps']))
            had['single'] = True
        elif not fixed:
            ctx.check(len(att) <= snap['max_steps'], 'max-steps-exceeded', '%d attempts, max_steps %r' % (len(att), snap['max_steps']))
            if tend - t0 < 1e-8 * unit:
                ctx.probe('tiny-interval')
            if err is None:
                ctx.probe('arrived')
                for k in had:
                    ctx.probe('arrived-after-' + k)
                ctx.check(abs(t1 - tend) <= ulp / 2, 'short-return', 'asked for %r, returned normally at %r (%d attempts, max_steps %r)'
                          % (tend, t1, len(att), snap['max_steps']))
            else:
                ctx.probe('raised-max-steps')
                ctx.fault('max-steps-exhausted')
                if len(acc) < len(att):
                    ctx.probe('raised-after-rejection')
                ctx.check(len(att) == snap['max_steps'], 'raised', '%r after %d attempts with max_steps %r (%r -> %r)'
                          % (err, len(att), snap['max_steps'], t0, tend))
                had['raise'] = True
        elif op[0] == 'baddt':
            ctx.probe('raised-not-divisible')
            ctx.check(err is not None, 'short-return', 'dt %r does not divide %r, returned at %r' % (dt_asked, tend - t0, t1))
            ctx.check(t1 == t0 and not att, 'changed-before-raise', 'took %d steps' % len(att))
            ctx.same(sol.states[0].q, q0, 'changed-before-raise', 'q')
        else:
            ctx.probe('fixed')
            if err is None:
                ctx.check(abs(t1 - tend) <= ulp * op[2] + 1.001 * miss, 'short-return', 'fixed dt: asked for %r, returned at %r' % (tend, t1))
                ctx.check(len(acc) == op[2] == len(att), 'step-count', '%d steps, expected %d' % (len(acc), op[2]))
                ctx.check(abs(s.dt - dt_asked) <= 1e-9 * dt_asked, 'setting-changed', 'the fixed step was %r and is %r' % (dt_asked, s.dt))
                if eps:
                    ctx.probe('nearly-divisible')
                for a in acc:
                    ctx.check(abs(a.tn - a.t - dt_asked) <= 1e-9 * dt_asked + ulp + 1.001 * miss, 'fixed-step-changed', '%r != %r' % (a.tn - a.t, dt_asked))
            else:
                ctx.probe('raised-cfl')
                ctx.fault('fixed-step-failed')
                last = att[-1] if att else None
                ctx.check(last is not None and not last.acc and (s.cfl_max is None or last.cfl > s.cfl_max), 'raised',
                          'fixed dt: %r with cfl %r' % (err, last and last.cfl))
                return                      # the solution is no longer meaningful
            had['fixed'] = True
        if err is None:
            ctx.check(isinstance(st, dict), 'status', 'no status returned')
            check_status(ctx, rec, st)
        if fixed:
            s.dt_variable = True
            s.dt = base_dt
    ctx.ev('end', float(sol.t), np.array(sol.states[0].q))


def check_status(ctx, rec, st):
    acc = rec.accepted()
    ctx.check(st.get('numsteps') == len(acc), 'status-numsteps', 'status %r, accepted %d' % (st.get('numsteps'), len(acc)))
    if not acc:
        return
    c = [a.cfl for a in acc]
    d = [a.dt for a in acc]
    ctx.check(abs(st['cflmax'] - max(c)) <= 1e-12 * max(c), 'status-cflmax', 'status %r, steps %r' % (st['cflmax'], max(c)))
    ctx.check(abs(st['dtmax'] - max(d)) <= 1e-9 * max(d), 'status-dtmax', 'status %r, steps %r' % (st['dtmax'], max(d)))
    ctx.check(abs(st['dtmin'] - min(d)) <= 1e-9 * min(d), 'status-dtmin', 'status %r, steps %r' % (st['dtmin'], min(d)))


def shrink(sc):
    for s in P.shrink_cfg(sc):
        yield s

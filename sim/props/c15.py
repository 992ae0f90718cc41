"""C15  Equivalent set-ups of a problem give the same run."""
import itertools
import numpy as np
from .. import problems as P
from .. import drive as D

ID = 'C15'
COUNT = {'quick': 8000, 'thorough': 150000}
TIMEOUT = 90.0
RULE = ('Each run draws a problem, a wave-speed profile that forces rejections and a list of calls, and sets it up twice: as drawn, and in an '
        'equivalent way (the other kernel language; mirrored; with the axes exchanged; rolled around a periodic axis; moved in space and time; with other '
        'units of length and time; scaled; as a plane problem in more dimensions; with limiters given per wave).  The signature is the problem class, the '
        'equivalence and the sequence of accepted and rejected steps.')
REAL = ['pyclaw.solver', 'pyclaw.classic', 'pyclaw.sharpclaw', 'pyclaw.state', 'pyclaw.solution', 'pyclaw.geometry', 'pyclaw.limiters',
        'Fortran kernels', 'Python kernels', 'riemann solvers']
STUB = []
ASSUMPTIONS = ['Equal means equal to rounding: the allowance is 1e-9 of the size of the data, or a multiple of how far rounding-size changes of the initial data '
               'move the run where that is more (WENO).  Runs in which a Courant number comes within 1e-5 of the limit are not compared.']
PROBES = ['kernel', 'mirror', 'axes', 'roll', 'place', 'units', 'scale', 'embed', 'limlist', 'rejected', 'calls', 'single', 'classic-1', 'classic-2', 'classic-3',
          'sharp-1', 'sharp-2', 'sharp-3', 'capa', 'fixed', 'wall', 'source', 'flat']
LISTS = ('ops', 'speed')

# components that change sign when an axis is reversed
VEL = {'acoustics': [1], 'vcacoustics': [1], 'shallow': [1], 'shallow_hlle': [1], 'euler': [1], 'elasticity': [1], 'acoustics2': [1, 2],
       'vcacoustics2': [1, 2], 'shallow2': [1, 2], 'euler2': [1, 2], 'vcacoustics3': [1, 2, 3], 'acoustics3': [1, 2, 3], 'euler3': [1, 2, 3]}
SPEED = {'advection2': ['u', 'v'], 'vcadv2': ['aux0', 'aux1'], 'advection': ['u'], 'color': ['aux0'], 'burgers': [], 'burgers3': []}
MIRROR = sorted(VEL) + ['advection', 'advection2', 'burgers']    # (the Riemann solver of burgers3 is not symmetric)
AXES = [e for e in sorted(P.EQS) if P.EQS[e].dim > 1]
EMBED = {'advection': ['advection2'], 'acoustics': ['acoustics2', 'acoustics3'], 'burgers': ['burgers3'], 'shallow': ['shallow2'], 'euler': ['euler2', 'euler3'], 'vcacoustics': ['vcacoustics3'],
         'acoustics2': ['acoustics3']}
LINEAR = ['advection', 'color', 'acoustics', 'vcacoustics', 'advection2', 'acoustics2', 'vcacoustics2', 'vcadv2', 'vcacoustics3', 'acoustics3']
KERNEL = ['advection', 'acoustics', 'burgers', 'shallow_hlle']


def mechs(name):
    if name in SPEED:
        return SPEED[name]
    m = P.EQS[name].mech
    return [m] if m else []


def gen(rng, i, tier):
    kind = rng.choice(['kernel', 'kernel', 'mirror', 'mirror', 'axes', 'axes', 'embed', 'embed', 'roll', 'place', 'units', 'scale', 'limlist'])
    kw = {}
    if kind == 'kernel':
        kw = dict(dims=(1,), eqs=KERNEL, kernels=False)
    elif kind == 'mirror':
        kw = dict(eqs=MIRROR)
    elif kind == 'axes':
        kw = dict(dims=(2, 2, 3), eqs=AXES)
    elif kind == 'embed':
        kw = dict(dims=(1, 1, 1, 2), eqs=sorted(EMBED), kernels=False)
    elif kind == 'scale':
        kw = dict(eqs=LINEAR, solver='classic')
    elif kind == 'limlist':
        kw = dict(solver='classic')
    variable = rng.random() < .8
    if kind == 'kernel' or kind == 'embed':
        kw['bcs'] = ['periodic', 'extrap', 'custom', 'wall']
    elif kind == 'mirror':
        kw['bcs'] = ['periodic', 'extrap', 'wall']
    integ = ['SSP104', 'SSP33', 'Euler', 'RK'] + ([] if variable else ['LMM'])
    cfg = P.gen_config(rng, variable=variable, integrators=integ, **kw)
    eq = P.EQS[cfg['eq']]
    if not eq.wall:
        cfg['bc'] = [['extrap' if k == 'wall' else k for k in b] for b in cfg['bc']]
        if cfg.get('aux_bc'):
            cfg['aux_bc'] = [['extrap' if k == 'wall' else k for k in b] for b in cfg['aux_bc']]
    if kind in ('mirror',):
        cfg.pop('aux_bc', None)
        cfg.pop('old_bc', None)
        cfg.pop('limiters', None)
    if kind == 'axes' and cfg['solver'] == 'classic':
        cfg['dimsplit'] = False
        cfg['trans'] = rng.choice([0, 1, 2])
        cfg['cfl_max'] = {2: .45, 3: .33}[eq.dim] if cfg['trans'] == 0 else .9
        cfg['cfl_desired'] = round(cfg['cfl_max'] * rng.uniform(.6, .9), 3)
        cfg.pop('limiters', None)
    if kind == 'limlist':
        cfg.pop('limiters', None)
    if kind == 'embed':
        cfg.pop('limiters', None)
    if kind == 'roll':
        cfg['bc'] = [['periodic', 'periodic'] for _ in cfg['bc']]
        for k in ('aux_bc', 'old_bc'):
            cfg.pop(k, None)
        if cfg.get('dimsplit'):
            # the later sweeps of a split step take the Courant number also from ghost columns that the first one does not advance
            if eq.rpt:
                cfg['dimsplit'], cfg['trans'] = False, 1
            else:
                cfg['dt_variable'] = variable = False
    if cfg.get('cfl_max') and cfg.get('cfl_desired'):
        cfg['cfl_desired'] = min(cfg['cfl_desired'], round(.95 * cfg['cfl_max'], 4))
    if eq.fwave and cfg.get('lim_type') == 1:
        cfg.pop('char_decomp', None)        # there is no wave-based TVD reconstruction for f-waves (flux1.f90 says so)
    if cfg['solver'] == 'sharp' and kind in ('kernel', 'embed', 'mirror', 'axes'):
        cfg['lim_type'] = 2 if kind == 'kernel' else cfg['lim_type']
        if kind == 'kernel':
            cfg.pop('char_decomp', None)
            cfg.pop('weno_order', None)
    if rng.random() < .2 and kind not in ('place', 'units'):
        cfg['source'] = rng.choice([-.7, .4])
        cfg['source_eq'] = 0
        if cfg['solver'] == 'classic':
            cfg['source_split'] = rng.choice([1, 2])
    unit = cfg['dt1'] * (cfg.get('cfl_desired') or .1)
    if variable and eq.nonlinear:
        cfg['dt_initial'] = min(cfg['dt_initial'], 1.5 * cfg['dt1'] * (cfg.get('cfl_max') or .1))
    sc = {'kind': kind, 'cfg': cfg, 'speed': [], 'arg': rng.randint(0, 10 ** 6)}
    if mechs(cfg['eq']) and variable and rng.random() < .6:
        sc['speed'] = D.gen_speed(rng, cfg, unit * 8, high=3.0)
    ops = []
    if variable:
        t = 0.
        for _ in range(rng.choice([1, 1, 2, 3])):
            t += unit * round(rng.uniform(1.5, 5.), 3)
            ops.append(['to', t])
            if rng.random() < .2:
                ops.append(['one'])
    else:
        for _ in range(rng.choice([1, 2])):
            ops.append(['n', rng.randint(1, 6)])
    sc['ops'] = ops
    if rng.random() < .2:
        cfg['flat'] = rng.choice([1, 2, 4])
    if cfg['solver'] == 'sharp' and cfg.get('lim_type') == 1:
        cfg['limiter'] = rng.choice([1, 2, 3, 4])
    if kind != 'kernel' and kind != 'embed' and cfg.get('kernel') == 'Python' and cfg['solver'] == 'classic' and rng.random() < .6:
        cfg['limiter'] = rng.randint(5, 23)
        cfg.pop('limiters', None)
    return sc


class Side(object):
    """One set-up: a config for the problem library plus the data it starts from, and how its result maps back."""

    def __init__(self, cfg, q, aux, pd, mech, back, space=1.0, time=1.0, t0=0.0):
        self.cfg, self.q, self.aux, self.pd, self.mech, self.back, self.time, self.t0 = cfg, q, aux, pd, mech, back, time, t0


def base_side(cfg):
    q, aux = P.global_fields(cfg)
    return Side(cfg, q, aux, dict(P.EQS[cfg['eq']].pd), mechs(cfg['eq']), lambda q: q)


def other_side(sc, a):
    """The equivalent set-up of a.cfg."""
    cfg, kind, arg = dict(a.cfg), sc['kind'], sc['arg']
    name = cfg['eq']
    eq = P.EQS[name]
    d = eq.dim
    q, aux, pd = a.q.copy(), None if a.aux is None else a.aux.copy(), dict(a.pd)
    s = Side(cfg, q, aux, pd, list(a.mech), lambda x: x)
    if kind == 'kernel':
        cfg['kernel'] = 'Python'
    elif kind == 'mirror':
        ax = arg % d
        sign = np.ones(eq.num_eqn)
        if name in VEL:
            sign[VEL[name][ax]] = -1
        elif name == 'burgers':
            sign[0] = -1
        else:
            k = 'uv'[ax]
            pd[k] = -pd[k]
        sign = sign.reshape((-1,) + (1,) * d)
        s.q = np.flip(q, ax + 1) * sign
        s.aux = None if aux is None else np.flip(aux, ax + 1)
        cfg['bc'] = [b[::-1] if k == ax else b for k, b in enumerate(cfg['bc'])]
        s.back = lambda x: np.flip(x, ax + 1) * sign
    elif kind == 'axes':
        perms = [p for p in itertools.permutations(range(d)) if p != tuple(range(d))]
        p = perms[arg % len(perms)]
        inv = tuple(np.argsort(p))
        mv = lambda x, p: np.transpose(x, (0,) + tuple(k + 1 for k in p))
        comp = list(range(eq.num_eqn))
        if name in VEL:
            for k in range(d):
                comp[VEL[name][k]] = VEL[name][p[k]]
        cinv = np.argsort(comp)
        s.q = mv(q, p)[comp]
        if aux is not None:
            ac = list(range(aux.shape[0]))
            if name == 'vcadv2':
                ac[:2] = [p[0], p[1]]
            s.aux = mv(aux, p)[ac]
        if name == 'advection2':
            pd['u'], pd['v'] = [a.pd['uv'[k]] for k in p]
        if name == 'burgers3':
            pd['coeff'] = [a.pd['coeff'][k] for k in p]
        for k in ('n', 'lower', 'upper', 'bc', 'aux_bc'):
            if cfg.get(k):
                cfg[k] = [cfg[k][j] for j in p]
        s.back = lambda x: mv(x[cinv], inv)
    elif kind == 'roll':
        ax = arg % d
        k = 1 + (arg // 7) % (cfg['n'][ax] - 1)
        s.q = np.roll(q, k, ax + 1)
        s.aux = None if aux is None else np.roll(aux, k, ax + 1)
        s.back = lambda x: np.roll(x, -k, ax + 1)
    elif kind == 'place':
        off = [(arg // 5 ** k) % 9 - 4 for k in range(d)]
        cfg['lower'] = [v + o for v, o in zip(cfg['lower'], off)]
        cfg['upper'] = [v + o for v, o in zip(cfg['upper'], off)]
        if not any('custom' in b for b in cfg['bc']):
            s.t0 = float(arg % 3)
    elif kind == 'units':
        f = [.5, 2., 4., .25][arg % 4]
        cfg['lower'] = [v * f for v in cfg['lower']]
        cfg['upper'] = [v * f for v in cfg['upper']]
        if any('custom' in b for b in cfg['bc']):
            cfg['bc'] = [list(b) for b in cfg['bc']]
        for k in ('dt_initial', 'dt_max', 'dt1'):
            if cfg.get(k) is not None:
                cfg[k] = cfg[k] * f
        s.time = f
    elif kind == 'scale':
        f = [.5, 2., 16., .0625][arg % 4]
        s.q = q * f
        s.back = lambda x: x / f
    elif kind == 'limlist':
        cfg['limlist'] = True
    elif kind == 'embed':
        tgts = [t for t in EMBED[name] if cfg['solver'] == 'classic' or P.EQS[t].sharp]
        tgt = tgts[arg % len(tgts)]
        te = P.EQS[tgt]
        D2 = te.dim
        axes = sorted([list(c) for c in itertools.combinations(range(D2), d)])
        axes = axes[(arg // 3) % len(axes)]             # where the original axes go
        idle = [k for k in range(D2) if k not in axes]
        h = [(u - l) / n for l, u, n in zip(cfg['lower'], cfg['upper'], cfg['n'])]
        m = 2 * 4 + 1 if cfg['solver'] == 'sharp' else 4
        n, lo, up, bc = [0] * D2, [0.] * D2, [0.] * D2, [None] * D2
        for k, ax in enumerate(axes):
            n[ax], lo[ax], up[ax], bc[ax] = cfg['n'][k], cfg['lower'][k], cfg['upper'][k], cfg['bc'][k]
        for j, ax in enumerate(idle):
            n[ax] = m + (arg // 11 + j) % 3
            up[ax] = n[ax] * max(h) * [2., 4.][arg // 13 % 2]
            bc[ax] = ['periodic'] * 2 if (arg // 17 + j) % 2 else ['extrap'] * 2
        cfg.update(eq=tgt, n=n, lower=lo, upper=up, bc=bc)
        if cfg.get('aux_bc'):
            ab = list(bc)
            for k, ax in enumerate(axes):
                ab[ax] = cfg['aux_bc'][k]
            cfg['aux_bc'] = ab
        if cfg['solver'] == 'classic':
            if d == 1:
                cfg['dimsplit'] = bool(arg // 19 % 2)
                cfg['trans'] = arg // 23 % 3
            cfg['order'] = a.cfg['order']

        def spread(f):
            for ax in idle:
                f = np.repeat(np.expand_dims(f, ax), n[ax], ax)
            return f
        s.q = np.zeros([te.num_eqn] + n)
        comp = [0] + [VEL[tgt][ax] for ax in axes] if name in VEL else [0]
        if len(comp) < eq.num_eqn:
            comp.append(te.num_eqn - 1)         # energy
        for k, c in enumerate(comp):
            s.q[c] = spread(q[k])
        s.aux = None
        if te.aux or cfg.get('capa'):
            s.aux = np.ones([len(te.aux) + (1 if cfg.get('capa') else 0)] + n)
            if cfg.get('capa'):
                s.aux[-1] = spread(aux[-1])
            for k in range(len(eq.aux)):
                s.aux[k] = spread(aux[k])
        s.pd = dict(te.pd)
        if tgt == 'advection2':
            s.pd['u'], s.pd['v'] = [a.pd['u'] if k == axes[0] else 0. for k in range(2)]
        if tgt == 'burgers3':
            s.pd['coeff'] = [1. if k == axes[0] else 0. for k in range(3)]
        s.mech = mechs(tgt) if tgt in SPEED or te.mech else []
        if tgt == 'acoustics3':
            s.mech = ['aux1']

        def back(x):
            sl = [slice(None)] * D2
            for ax in idle:
                if np.ptp(x, axis=ax + 1).max() > 1e-9:
                    return None
            for ax in idle:
                sl[ax] = n[ax] // 2
            rest = [c for c in range(te.num_eqn) if c not in comp]
            if rest and np.abs(x[rest]).max() > 1e-9:
                return None
            return x[tuple([slice(None)] + sl)][comp]
        s.back = back
    s.cfg = cfg
    return s


class Run(object):
    """Drives one set-up and records every attempt."""

    def __init__(self, ctx, sc, side, noise=None):
        self.side, self.sc, self.ctx = side, sc, ctx
        cfg = dict(side.cfg)
        cfg['t0'] = side.t0
        p = self.p = P.build(cfg, before_step=self.before)
        if cfg.get('limlist'):
            p.solver.limiters = [cfg.get('limiter', 4)] * p.solver.num_waves
        st = p.state
        q = side.q
        if noise is not None:
            q = q * (1 + 2e-16 * np.random.RandomState(noise).randint(-4, 5, size=q.shape))
        st.q[...] = q
        if side.aux is not None:
            st.aux[...] = side.aux
        st.problem_data.update(side.pd)
        if sc['speed'] and cfg['solver'] == 'sharp':
            p.solver.call_before_step_each_stage = True
        self.att, self.cur = [], None
        self.stop = None
        try:
            self.go()
        except D.Stop:
            self.stop = 'range'
        except Exception as e:
            if 'CFL too large' not in str(e) and 'Maximum number' not in str(e):
                raise
            self.stop = str(e)[:40]
        self.close()
        self.q = None if self.stop == 'range' else side.back(np.array(st.q))
        self.t = (float(p.solution.t) - side.t0) / side.time
        self.status = dict(p.solver.status)

    def go(self):
        s, sol, f, t0 = self.p.solver, self.p.solution, self.side.time, self.side.t0
        for op in self.sc['ops']:
            if op[0] == 'to':
                if t0 + op[1] * f > sol.t:
                    s.evolve_to_time(sol, t0 + op[1] * f)
            elif op[0] == 'n':
                s.evolve_to_time(sol, sol.t + op[1] * s.dt)
            else:
                s.evolve_to_time(sol)

    def speed(self, state):
        if not self.sc['speed']:
            return
        f = D.speed_of(self.sc['speed'], (state.t - self.side.t0) / self.side.time)
        for m in self.side.mech:
            if m.startswith('aux'):
                k = int(m[3:])
                state.aux[k] = self.side.aux[k] * f
            else:
                v = self.side.pd[m] * f
                state.problem_data[m] = v
                rp = self.p.solver.rp
                if self.side.cfg.get('kernel', 'Fortran') == 'Fortran' and hasattr(getattr(rp, 'cparam', None), m):
                    setattr(rp.cparam, m, v)

    def before(self, solver, state):
        self.speed(state)
        if state is not self.p.solution.states[0]:
            return
        self.close()
        if len(self.att) > 120 or not np.all(np.isfinite(state.q)) or np.abs(state.q).max() > 100 * max(1., np.abs(self.side.q).max()):
            raise D.Stop()
        self.cur = float(state.t)

    def close(self):
        if self.cur is None:
            return
        t, self.cur = self.cur, None
        s = self.p.solver
        f = self.side.time
        self.att.append(((t - self.side.t0) / f, float(s.dt) / f, float(s.cfl.get_cached_max()), float(self.p.solution.t) != t))


def structure(r):
    return (r.stop, [a[3] for a in r.att])


def far(r, cm):
    """The run may be compared: no decision near the limit, no step beyond the range of the method or of rounding size."""
    for t, dt, cfl, acc in r.att:
        if not cfl <= 4 * (cm or 1.):
            return False
        if cm and abs(cfl - cm) < 1e-5 * cm:
            return False
    dts = [a[1] for a in r.att]
    return not dts or min(dts) > 1e-6 * max(dts)


def run(sc, ctx):
    cfg, kind = sc['cfg'], sc['kind']
    if any('custom' in b for b in cfg['bc'] + (cfg.get('aux_bc') or [])) and kind == 'units':
        return          # these boundary values depend on the time itself
    a = base_side(cfg)
    ra = Run(ctx, sc, a)
    for x in ra.att:
        ctx.ev('att', *x)
        ctx.tok('A' if x[3] else 'R')
        ctx.steps += 1
        ctx.simtime += x[1] if x[3] else 0
        if not x[3]:
            ctx.fault('step-rejected')
    cm = cfg.get('cfl_max') if cfg['dt_variable'] else None
    if ra.stop == 'range' or not far(ra, cm):
        ctx.probe('not-comparable')
        return
    ctx.tok('%s/%s/%d' % (kind, cfg['solver'], len(cfg['n'])))
    b = other_side(sc, a)
    rb = Run(ctx, sc, b)
    ctx.ev('q', ra.q)
    size = max(1., float(np.abs(ra.q).max()))
    sens = dts = 0.
    if structure(ra) != structure(rb) or rb.q is None or np.abs(ra.q - rb.q).max() > 1e-9 * size or not close(ra, rb, 1e-9):
        # would rounding do that?
        for k in range(4):
            rn = Run(ctx, sc, a, noise=k + 1)
            if structure(rn) != structure(ra):
                ctx.probe('sensitive')
                return
            sens = max(sens, float(np.abs(rn.q - ra.q).max()))
            dts = max([dts] + [abs(x[2] - y[2]) / max(abs(x[2]), 1e-9) for x, y in zip(ra.att, rn.att)])
        ctx.probe('sensitivity-measured')
    what = '%s of %s' % (kind, cfg['eq'])
    for i, (x, y) in enumerate(zip(ra.att, rb.att)):
        for n, k in (('t', 0), ('dt', 1), ('cfl', 2), ('accepted', 3)):
            tol = max(1e-9, 300 * dts)
            ctx.check(abs(x[k] - y[k]) <= tol * max(abs(x[k]), abs(x[1])), 'steps-differ', '%s: attempt %d: %s %r, as drawn %r' % (what, i, n, y[k], x[k]))
    ctx.check(structure(ra) == structure(rb), 'steps-differ', '%s: %d attempts, ended %s; as drawn %d, %s' % (what, len(rb.att), rb.stop, len(ra.att), ra.stop))
    ctx.check(rb.q is not None, 'not-plane', '%s: the solution is not constant along an idle axis or moves in its direction' % what)
    ctx.same(rb.q, ra.q, 'solution-differs', what, rtol=0., atol=max(1e-9 * size, 300 * sens))
    ctx.check(rb.status['numsteps'] == ra.status['numsteps'], 'status-differs', '%s: %r, as drawn %r' % (what, rb.status, ra.status))
    ctx.probe(kind)
    ctx.probe('%s-%d' % (cfg['solver'], len(cfg['n'])))
    if any(not x[3] for x in ra.att):
        ctx.probe('rejected')
    if len(sc['ops']) > 1:
        ctx.probe('calls')
    if ['one'] in sc['ops']:
        ctx.probe('single')
    for k in ('capa', 'source', 'flat'):
        if cfg.get(k) is not None:
            ctx.probe(k)
    if not cfg['dt_variable']:
        ctx.probe('fixed')
    if any('wall' in x for x in cfg['bc']):
        ctx.probe('wall')


def close(ra, rb, tol):
    return all(abs(x[k] - y[k]) <= tol * max(abs(x[k]), abs(x[1])) for x, y in zip(ra.att, rb.att) for k in (0, 1, 2))


def shrink(sc):
    for x in P.shrink_cfg(sc):
        yield x

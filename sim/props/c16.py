"""C16  Every accepted step is a step of the selected method."""
import numpy as np
from .. import problems as P
from .. import drive as D
from .. import scheme as S

ID = 'C16'
COUNT = {'quick': 6000, 'thorough': 120000}
TIMEOUT = 90.0
RULE = ('Each run draws a problem, a method, a wave-speed profile that forces rejections, and a list of calls; afterwards every accepted step is recomputed by a '
        'reference model from the state before it.  The signature is the problem class, the method and the sequence of accepted and rejected steps.')
REAL = ['pyclaw.solver', 'pyclaw.classic', 'pyclaw.sharpclaw', 'pyclaw.state', 'pyclaw.solution', 'pyclaw.geometry', 'Fortran kernels', 'Python kernels', 'riemann solvers']
STUB = []
ASSUMPTIONS = ['The reference composes forward Euler steps (SharpClaw) or source-free one-dimensional steps (classic) of fresh solvers of the same code by the textbook formula of the method.',
               'Equal means equal to rounding: 1e-10 of the size of the data, or a multiple of how far rounding-size changes of the data before the step move the reference (and changes of the WENO smoothness indicators by their rounding errors, which matter where the data vary by 1e-7 or less).']
PROBES = ['Euler', 'SSP33', 'SSP104', 'RK', 'LMM', 'SSPLMMk2', 'SSPLMMk3', 'lmm-past-start', 'lmm-unequal-steps', 'split', 'unsplit-trans-0', 'unsplit-trans-1', 'unsplit-trans-2', 'sharp-sum', 'axes-2', 'axes-3', 'strang', 'godunov',
          'rejected', 'calls', 'single', 'source', 'capa', 'flat', 'custom', 'wall', 'first-principles', 'scheme-classic', 'scheme-sharp', 'dt-max', 'stage-hooks', 'python-limiters', 'ssp-step-size']
LISTS = ('ops', 'speed')

TABLE = {
    'Euler': ([[0]], [1.], [0]),
    'SSP22': ([[0, 0], [1., 0]], [.5, .5], [0, 1.]),
    'SSP33': ([[0, 0, 0], [1., 0, 0], [.25, .25, 0]], [1 / 6., 1 / 6., 2 / 3.], [0, 1., .5]),
    'SSP104': ([[(1 / 15. if i > 4 and j < 5 else 1 / 6.) if j < i else 0 for j in range(10)] for i in range(10)], [.1] * 10,
               [0, 1 / 6., 1 / 3., .5, 2 / 3., 1 / 3., .5, 2 / 3., 5 / 6., 1.]),
}
# the problem along one axis: name of the 1D problem, components, problem data
ALONG = {
    'advection2': ('advection', lambda ax: [0], lambda pd, ax: {'u': pd['uv'[ax]]}),
    'acoustics2': ('acoustics', lambda ax: [0, 1 + ax], lambda pd, ax: pd),
    'acoustics3': ('vcacoustics', lambda ax: [0, 1 + ax], lambda pd, ax: {}),
    'vcacoustics3': ('vcacoustics', lambda ax: [0, 1 + ax], lambda pd, ax: {}),
}


def gen(rng, i, tier):
    kind = rng.choice(['time', 'time', 'time', 'axes', 'axes', 'source', 'scheme', 'scheme', 'scheme'])
    kw = {}
    if kind == 'time':
        kw = dict(solver='sharp', variable=rng.random() < .7)
        kw['integrators'] = ['SSP104', 'SSP33', 'Euler', 'RK', 'SSPLMMk2', 'SSPLMMk2', 'SSPLMMk3', 'SSPLMMk3'] if kw['variable'] else \
            ['SSP104', 'SSP33', 'RK', 'LMM', 'LMM', 'LMM', 'SSPLMMk2', 'SSPLMMk3']
    elif kind == 'axes':
        kw = dict(dims=(2, 2, 3), eqs=sorted(ALONG), bcs=[P.PER, P.EXT, P.WALL], variable=rng.random() < .8, integrators=['SSP104', 'SSP33', 'Euler', 'RK'])
    elif kind == 'scheme':
        kw = dict(dims=(1,), eqs=S.KNOWN, variable=rng.random() < .8, integrators=['SSP104', 'SSP33', 'Euler', 'RK'])
    else:
        kw = dict(solver='classic', variable=rng.random() < .8)
    cfg = P.gen_config(rng, **kw)
    eq = P.EQS[cfg['eq']]
    if not eq.wall:
        cfg['bc'] = [['extrap' if k == 'wall' else k for k in b] for b in cfg['bc']]
    variable = cfg['dt_variable']
    if kind == 'axes':
        cfg.pop('aux_bc', None)
        cfg.pop('limiters', None)
        if cfg['solver'] == 'classic':
            cfg['dimsplit'] = rng.random() < .5
            if not cfg['dimsplit']:
                cfg['trans'] = rng.choice([0, 1, 2, 1, 2]) if cfg['eq'] in ('advection2', 'acoustics2') else 0
                cfg['cfl_max'] = {2: .45, 3: .3}[eq.dim] if not cfg['trans'] else .9
                cfg['cfl_desired'] = round(cfg['cfl_max'] * rng.uniform(.6, .9), 3)
                if not variable:
                    cfg['dt_initial'] /= 2
    it = cfg.get('integrator', '')
    if it == 'RK' and rng.random() < .6:
        cfg['rk'] = rng.choice(sorted(P.RK_MORE))
    if it == 'LMM' and rng.random() < .6:
        cfg['lmm'] = rng.choice(sorted(P.LMM_MORE))
        cfg['dt_initial'] /= 4
    if 'SSPLMM' in it and not variable:
        cfg['dt_initial'] = 2.0 ** np.floor(np.log2(cfg['dt1'] * .03))
    if eq.fwave and cfg.get('lim_type') == 1:
        cfg.pop('char_decomp', None)
    if kind == 'source' or rng.random() < .3:
        cfg['source'] = rng.choice([-.7, .4, 1.3])
        cfg['source_eq'] = rng.randrange(eq.num_eqn)
        cfg['source_t'] = cfg['solver'] == 'sharp' and rng.random() < .6
        if cfg['solver'] == 'classic':
            cfg['source_split'] = rng.choice([1, 2])
    if variable and eq.nonlinear:
        cfg['dt_initial'] = min(cfg['dt_initial'], 1.5 * cfg['dt1'] * (cfg.get('cfl_max') or .1))
    unit = cfg['dt1'] * (cfg.get('cfl_desired') or .1)
    sc = {'kind': kind, 'cfg': cfg, 'speed': []}
    aux = eq.mech and eq.mech.startswith('aux')
    if eq.mech and variable and rng.random() < .7 and not (aux and 'SSPLMM' in it):
        sc['speed'] = D.gen_speed(rng, cfg, unit * 8, high=3.0)
    ops = []
    lmm = 'LMM' in it
    if variable:
        t = 0.
        for _ in range(rng.choice([1, 1, 2, 3])):
            t += unit * round(rng.uniform(1.5, 9. if lmm else 5.), 3)
            ops.append(['to', t])
            if rng.random() < .2:
                ops.append(['one'])
    else:
        for _ in range(rng.choice([1, 2, 3])):
            ops.append(['n', rng.randint(1, 6)])
    sc['ops'] = ops
    if variable and rng.random() < .15:
        cfg['dt_max'] = unit * round(rng.uniform(.3, .9), 3)
    if cfg.get('kernel') == 'Python' and cfg['solver'] == 'classic' and rng.random() < .7:
        cfg['limiter'] = rng.randint(5, 23)
        cfg['order'] = 2
        cfg.pop('limiters', None)
    sc['stages'] = cfg['solver'] == 'sharp' and rng.random() < .5
    if rng.random() < .25:
        cfg['flat'] = rng.choice([1, 2, 4])
    if cfg['solver'] == 'sharp' and cfg.get('lim_type') == 1:
        cfg['limiter'] = rng.choice([1, 2, 3, 4])
    return sc


class Stepper(object):
    """One step of a fresh solver from given data: forward Euler for SharpClaw, a source-free step for classic."""

    def __init__(self, cfg, speed, aux=None, pd=None, mech=None, keep_source=False):
        c = dict(cfg)
        c['dt_variable'] = False
        c['integrator'] = 'Euler'
        if c.get('cfl_max') is None:
            c['cfl_max'], c['cfl_desired'] = 1., .9
        if not keep_source:
            c.pop('source', None)
        c.pop('gauges', None)
        self.cfg, self.speed, self.mech = c, speed, mech
        p = self.p = P.build(c, before_step=self.before)
        self.pd = dict(P.EQS[c['eq']].pd)
        self.pd.update(pd or {})
        p.state.problem_data.update(self.pd)
        p.solver.cfl_max = 1e10
        p.solver.cfl_desired = 1e9
        p.solver.max_steps = 10
        self.cfl = 0.

    def before(self, solver, state):
        f = D.speed_of(self.speed, state.t)
        fort = self.cfg.get('kernel', 'Fortran') == 'Fortran'
        for k, v in self.pd.items():
            if k == self.mech:
                v = v * f
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                state.problem_data[k] = v
                if fort and hasattr(getattr(solver.rp, 'cparam', None), k):
                    setattr(solver.rp.cparam, k, v)

    def __call__(self, q, t, dt, aux=None):
        sol, s = self.p.solution, self.p.solver
        st = sol.states[0]
        st.q[...] = q
        if aux is not None:
            st.aux[...] = aux
        sol.t = t
        s.dt = dt
        s.evolve_to_time(sol)
        self.cfl = float(s.cfl.get_cached_max())
        return np.array(sol.states[0].q)


class Reference(object):
    """Recomputes accepted steps."""

    def __init__(self, sc, aux0):
        cfg = sc['cfg']
        self.sc, self.cfg, self.speed, self.aux0 = sc, cfg, sc['speed'], aux0
        eq = self.eq = P.EQS[cfg['eq']]
        self.mech = eq.mech
        self.src = None
        self.scheme = False
        if sc['kind'] == 'axes':
            name, comps, pd = ALONG[cfg['eq']]
            self.axis = []
            for ax in range(eq.dim):
                c = {k: cfg[k] for k in ('solver', 'ic', 'order', 'limiter', 'capa', 'lim_type', 'weno_order', 'dt1', 'dt_initial', 'cfl_max', 'cfl_desired') if k in cfg}
                c.update(eq=name, n=[cfg['n'][ax]], lower=[cfg['lower'][ax]], upper=[cfg['upper'][ax]], bc=[cfg['bc'][ax]])
                m = 'u' if name == 'advection' and ax == 0 else 'cc' if name == 'acoustics' else None
                if S.supported(c):
                    st = S.Scheme(c, lambda t: D.speed_of(self.speed, t), pd(eq.pd, ax), m)
                else:
                    st = Stepper(c, self.speed, pd=pd(eq.pd, ax), mech=m)
                self.axis.append((st, comps(ax)))
            self.scheme = isinstance(st, S.Scheme)
            if cfg.get('trans') and not cfg['dimsplit']:
                self.whole = S.Unsplit2D(cfg, lambda t: D.speed_of(self.speed, t), eq.pd)
        elif sc['kind'] == 'scheme' and S.supported(cfg):
            self.scheme = True
            self.whole = S.Scheme(cfg, lambda t: D.speed_of(self.speed, t), eq.pd, self.mech)
        else:
            self.whole = Stepper(cfg, self.speed, mech=self.mech, keep_source=cfg['solver'] == 'sharp')
        if cfg.get('source') is not None and (cfg['solver'] == 'classic' or sc['kind'] == 'axes' or self.scheme):
            self.src = cfg['source']

    def aux_at(self, t):
        if self.aux0 is None:
            return None
        a = self.aux0.copy()
        if self.mech and self.mech.startswith('aux'):
            a[int(self.mech[3:])] *= D.speed_of(self.speed, t)
        return a

    def along(self, ax, q, t, dt):
        """One 1D step along an axis in every line of cells."""
        step, comps = self.axis[ax]
        aux = self.aux_at(t)
        out = q.copy()
        other = [n for k, n in enumerate(q.shape[1:]) if k != ax]
        for ind in np.ndindex(*other):
            sl = list(ind)
            sl.insert(ax, slice(None))
            sl = tuple(sl)
            out[(comps,) + sl] = step(q[(comps,) + sl], t, dt, None if aux is None else aux[(slice(None),) + sl])
            self.cfl = max(self.cfl, step.cfl)
        return out

    def euler(self, q, t, dt):
        """dt*L(q,t)"""
        if self.sc['kind'] == 'axes':
            d = sum(self.along(ax, q, t, dt) - q for ax in range(self.eq.dim))
        else:
            d = self.whole(q, t, dt, self.aux_at(t)) - q
            self.cfl = max(self.cfl, self.whole.cfl)
        if self.src is not None:
            k = self.cfg['source_eq']
            d[k] += dt * self.src * (1 + (np.sin(5 * t) if self.cfg.get('source_t') else 0.)) * q[k]
        return d

    def hyperbolic(self, q, t, dt):
        """A classic step without source."""
        if self.sc['kind'] != 'axes' or self.cfg.get('trans') and not self.cfg['dimsplit']:
            q = self.whole(q, t, dt, self.aux_at(t))
            self.cfl = self.whole.cfl
            return q
        if self.cfg['dimsplit']:
            for ax in range(self.eq.dim):
                q = self.along(ax, q, t, dt)
            return q
        return q + sum(self.along(ax, q, t, dt) - q for ax in range(self.eq.dim))

    def rk(self, table, q, t, dt):
        a, b, c = table
        k = []
        for i in range(len(b)):
            y = q + sum([a[i][j] * k[j] for j in range(i) if a[i][j]], np.zeros(q.shape))
            if i:
                self.stages.append((t + c[i] * dt, y))
            k.append(self.euler(y, t + c[i] * dt, dt))
        return q + sum(bi * ki for bi, ki in zip(b, k))

    def source(self, q, dt):
        q = q.copy()
        k = self.cfg['source_eq']
        q[k] = q[k] + dt * self.src * q[k]
        return q

    def step(self, hist):
        """hist: [(t, q)] of the accepted steps so far, and the time reached; returns the expected q."""
        cfg = self.cfg
        t, q, dt = hist[-1]
        self.cfl = 0.
        self.stages = []
        if cfg['solver'] == 'classic':
            if self.src is not None and cfg['source_split'] == 2:
                q = self.source(q, dt / 2)
            q = self.hyperbolic(q, t, dt)
            if self.src is not None:
                q = self.source(q, dt / 2 if cfg['source_split'] == 2 else dt)
            return q
        it = cfg['integrator']
        if it == 'RK':
            return self.rk(dict(P.RK, **P.RK_MORE)[cfg['rk']], q, t, dt)
        if it in TABLE:
            return self.rk(TABLE[it], q, t, dt)
        if it == 'LMM':
            al, be = dict(P.LMM, **P.LMM_MORE)[cfg['lmm']]
            k = len(al)
            if len(hist) < k:
                return self.rk(TABLE['SSP104'], q, t, dt)
            h = hist[-k:]
            return sum(al[i] * h[i][1] for i in range(k)) + sum(be[i] * self.euler(h[i][1], h[i][0], dt) for i in range(k) if be[i])
        # the SSP multistep methods of two and three terms are fixed by their order of accuracy
        k = cfg['lmm_steps']
        if len(hist) < k:
            return self.rk(TABLE['SSP22'], q, t, dt)
        t0, q0, _ = hist[-k]
        w = (t - t0) / dt
        if it == 'SSPLMMk2':
            A = [[1, 0, 1], [w, 1, 0], [w * w, 2 * w, 0]]
            x = np.linalg.solve(A, [1, w + 1, (w + 1) ** 2])
            return x[0] * q + x[1] * self.euler(q, t, dt) + x[2] * q0
        A = [[1, 0, 1, 0], [w, 1, 0, 1], [w * w, 2 * w, 0, 0], [w ** 3, 3 * w * w, 0, 0]]
        x = np.linalg.solve(A, [1, w + 1, (w + 1) ** 2, (w + 1) ** 3])
        return x[0] * q + x[1] * self.euler(q, t, dt) + x[2] * q0 + x[3] * self.euler(q0, t0, dt)


def run(sc, ctx):
    cfg = sc['cfg']
    tends = []              # for each attempt, the end of the call it was made in
    rec = D.Rec(ctx, cfg, sc['speed'], cap=60, cap_stops=True, extra=lambda *a: tends.append(goal[0]))
    rec.keep_stages = True
    if sc.get('stages'):
        rec.solver.call_before_step_each_stage = True
    goal = [None]
    s, sol = rec.solver, rec.solution
    aux0 = rec.prob.aux0
    if aux0 is not None:
        aux0 = aux0.copy()
    whole = True
    try:
        for op in sc['ops']:
            if op[0] == 'to':
                if op[1] > sol.t:
                    goal[0] = op[1]
                    s.evolve_to_time(sol, op[1])
            elif op[0] == 'n':
                goal[0] = sol.t + op[1] * s.dt
                s.evolve_to_time(sol, goal[0])
            else:
                goal[0] = None
                s.evolve_to_time(sol)
    except D.Stop:
        pass                # before a step: q is what the last one left
    except Exception as e:
        if 'CFL too large' not in str(e) and 'Maximum number' not in str(e):
            raise
        ctx.probe('gave-up')
        whole = False
    rec.close()
    if rec.ambiguous:
        return
    final = np.array(sol.states[0].q)
    acc = [a for a in rec.att if a.acc]
    it = cfg.get('integrator', 'classic')
    ctx.tok('%s/%s/%d/%s' % (sc['kind'], it, len(cfg['n']), cfg.get('dimsplit')))
    ref = Reference(sc, aux0)
    cm = s.cfl_max or 1.
    if cfg['dt_variable']:
        (step_sizes_lmm if 'LMM' in it else step_sizes)(ctx, cfg, s, rec.att, tends, ref)
    hist = []
    cmp = 0
    for n, a in enumerate(acc):
        i = rec.att.index(a)
        if i + 1 < len(rec.att):
            got = rec.att[i + 1].q0
        elif whole:
            got = final
        else:
            break
        hist.append((a.t, a.q, a.dt))
        if np.abs(a.q).max() > 100 or a.cfl > 4 * cm:
            break
        if len(cfg['n']) == 3 and sc['kind'] == 'axes' and cmp >= 3:
            break
        exp = ref.step(hist)
        stages = ref.stages
        cmp += 1
        if not np.all(np.isfinite(exp)) or np.abs(exp).max() > 1e3:
            break
        size = max(1., np.abs(exp).max())
        tol = 1e-10 * size
        if not np.abs(exp - got).max() <= tol:
            sens = 0.
            for k in range(4):
                rs = np.random.RandomState(k)
                h2 = [(t, q * (1 + 2e-16 * rs.randint(-4, 5, size=q.shape)), dt) for t, q, dt in hist]
                S.NOISE = rs
                sens = max(sens, float(np.abs(ref.step(h2) - exp).max()))
                S.NOISE = None
            ctx.probe('sensitivity-measured')
            tol = max(tol, 300 * sens)
        ctx.same(got, exp, 'not-the-method', '%s of %s, step %d from t=%r with dt=%r: q' % (it, cfg['eq'], n, a.t, a.dt), rtol=0., atol=tol)
        if not cfg.get('dimsplit') and 'LMM' not in it and (cfg['solver'] == 'classic' or i == 0 or rec.att[i - 1].acc):
            # (a split step counts ghost columns, too; a SharpClaw step that is tried again keeps the Courant number of the first try, scaled)
            ctx.check(abs(a.cfl - ref.cfl) <= max(1e-9, 1e3 * tol) * ref.cfl, 'courant-number', '%s of %s, step %d from t=%r with dt=%r: Courant number %r, expected %r' % (it, cfg['eq'], n, a.t, a.dt, a.cfl, ref.cfl))
        if cfg['solver'] == 'sharp' and s.call_before_step_each_stage:
            ctx.check(len(a.stages) == len(stages), 'stage-hooks', '%s of %s, step %d: before_step called for %d stages of %d' % (it, cfg['eq'], n, len(a.stages), len(stages)))
            for k, ((t, q), (te, qe)) in enumerate(zip(a.stages, stages)):
                ctx.check(abs(t - te) <= 1e-9 * a.dt + 1e-14 * abs(te), 'stage-time', '%s of %s, step %d from t=%r with dt=%r: before_step for stage %d at t=%r, expected %r' % (it, cfg['eq'], n, a.t, a.dt, k + 2, t, te))
                ctx.same(q, qe, 'stage-value', '%s of %s, step %d from t=%r with dt=%r: q at before_step for stage %d' % (it, cfg['eq'], n, a.t, a.dt, k + 2), rtol=0., atol=10 * tol)
            ctx.probe('stage-hooks')
        if ref.scheme:
            ctx.probe('first-principles')
        if 'LMM' in it:
            k = cfg.get('lmm_steps') or len(s.alpha)
            if len(hist) >= k:
                ctx.probe('lmm-past-start')
                d = [x[2] for x in hist[-k:]]
                if max(d) > 1.01 * min(d):
                    ctx.probe('lmm-unequal-steps')
    if not cmp:
        return
    if sc['kind'] == 'axes':
        ctx.probe('axes-%d' % len(cfg['n']))
        ctx.probe('sharp-sum' if cfg['solver'] == 'sharp' else 'split' if cfg['dimsplit'] else 'unsplit-trans-%d' % cfg['trans'])
    if sc['kind'] == 'scheme' and ref.scheme and cfg['solver'] == 'classic' and cfg.get('limiter', 0) > 4:
        ctx.probe('python-limiters')
    if sc['kind'] == 'scheme' and ref.scheme:
        ctx.probe('scheme-' + cfg['solver'])
    if cfg['solver'] == 'sharp':
        ctx.probe(it)
    elif cfg.get('source') is not None:
        ctx.probe('strang' if cfg['source_split'] == 2 else 'godunov')
    if any(not a.acc for a in rec.att):
        ctx.probe('rejected')
    if len(sc['ops']) > 1:
        ctx.probe('calls')
    if ['one'] in sc['ops']:
        ctx.probe('single')
    for k in ('capa', 'source', 'flat'):
        if cfg.get(k) is not None:
            ctx.probe(k)
    for k in ('custom', 'wall'):
        if any(k in x for x in cfg['bc']):
            ctx.probe(k)


def step_sizes(ctx, cfg, s, att, tends, ref):
    """Every attempted step is the one that the Courant number asks for, or the rest of the call."""
    for i, a in enumerate(att):
        if i and not 0 <= att[i - 1].cfl < 1e6:
            return
        if i == 0:
            want = cfg['dt_initial']
        elif cfg['solver'] == 'sharp' and att[i - 1].acc:
            if not np.all(np.isfinite(a.q)) or np.abs(a.q).max() > 100:
                return
            ref.cfl = 0.
            ref.euler(a.q, a.t, a.dt)
            want = min(s.dt_max, cfg['cfl_desired'] * a.dt / ref.cfl if ref.cfl else s.dt_max)
        else:
            b = att[i - 1]
            want = min(s.dt_max, b.dt * cfg['cfl_desired'] / b.cfl if b.cfl else s.dt_max)
            if not b.acc and want > .999 * b.dt:
                want = a.dt if .99 * b.dt < a.dt < b.dt else -1.
        if tends[i] is not None:
            want = min(want, tends[i] - a.t)
        ctx.check(abs(a.dt - want) <= 1e-6 * want + 1e-13 * max(1, abs(a.t)), 'step-size', 'attempt %d from t=%r (call to %r): dt %r, expected %r' % (i, a.t, tends[i], a.dt, want))
        if want == s.dt_max:
            ctx.probe('dt-max')


def step_sizes_lmm(ctx, cfg, s, att, tends, ref):
    """SSPLMM: start-up steps as cfl_desired asks; then the largest step for which the method is SSP: dt = C*mu, with mu the smallest
    forward Euler step of the last k states, C = (w-p+1)/w, and w the time between the first and the last of them in units of dt."""
    k, p = cfg['lmm_steps'], int(cfg['integrator'][-1])
    c0 = (k - p) / (k - 1.)             # the coefficient of equal steps, which cfl_max and cfl_desired are for
    limit, desired = s.cfl_max / c0, s.cfl_desired / c0
    hist = []                           # (t, forward Euler step) of the states that steps started from
    for i, a in enumerate(att):
        if not np.all(np.isfinite(a.q)) or np.abs(a.q).max() > 100:
            return
        new = not i or att[i - 1].acc
        if new:
            ref.cfl = 0.
            ref.euler(a.q, a.t, a.dt)
            hist.append((a.t, a.dt / ref.cfl if ref.cfl else np.inf))
        if not i:
            want = cfg['dt_initial']
        elif len(hist) < k:
            if not new and not 0 < att[i - 1].cfl < 1e6:
                return
            want = hist[-1][1] * desired if new else att[i - 1].dt * desired / att[i - 1].cfl
        else:
            mu = min(x[1] for x in hist[-k:]) * limit
            H = a.t - hist[-k][0]
            want = H * mu / (H + (p - 1) * mu) if np.isfinite(mu) else H / (p - 1)
        if i:
            want = min(want, s.dt_max)
        if tends[i] is not None:
            want = min(want, tends[i] - a.t)
        ctx.check(abs(a.dt - want) <= 1e-6 * want + 1e-13 * max(1, abs(a.t)), 'step-size', '%s, attempt %d from t=%r (call to %r): dt %r, expected %r' % (cfg['integrator'], i, a.t, tends[i], a.dt, want))
        if len(hist) >= k:
            ctx.probe('ssp-step-size')


def shrink(sc):
    for x in P.shrink_cfg(sc):
        yield x

"""Problem library: builds real pyclaw / petclaw simulations from a JSON config.

Only the public API of the packages is used.  Initial data are a function of
the global cell index and of the config alone, so a rank of a parallel run
fills in exactly the serial data of its own cells.
"""
import math
import numpy as np

PER, EXT, WALL, CUSTOM = 'periodic', 'extrap', 'wall', 'custom'


class Eq(object):
    def __init__(self, dim, f=None, py=None, num_eqn=1, num_waves=None, aux=(), pd=None, pos=(), amp=1.0,
                 base=None, mech=None, cons=True, wall=False, wall_cons=(), vmax=1.0, rpt=False,
                 fwave=None, sharp=True, sonic=None, nonlinear=False):
        self.dim = dim; self.f = f; self.py = py; self.num_eqn = num_eqn; self.num_waves = num_waves
        self.aux = aux; self.pd = pd or {}; self.base = base or [0.] * num_eqn; self.amp = amp
        self.mech = mech; self.cons = cons; self.wall = wall; self.wall_cons = wall_cons
        self.vmax = vmax; self.rpt = rpt; self.fwave = fwave; self.sharp = sharp; self.nonlinear = nonlinear


# aux: tuple of (base, amplitude) per field
EQS = {
    'advection':   Eq(1, 'advection_1D', 'advection_1D_py.advection_1D', 1, pd={'u': 1.0}, mech='u'),
    'color':       Eq(1, 'advection_color_1D', None, 1, aux=((1.0, .25),), mech='aux0', cons=False, vmax=1.25),
    'acoustics':   Eq(1, 'acoustics_1D', 'acoustics_1D_py.acoustics_1D', 2,
                      pd={'rho': 1.0, 'bulk': 1.0, 'zz': 1.0, 'cc': 1.0}, mech='cc', wall=True, wall_cons=(0,)),
    'vcacoustics': Eq(1, 'acoustics_variable_1D', None, 2, aux=((1.0, .25), (1.0, .25)), mech='aux1',
                      wall=True, cons=False, vmax=1.25),
    'burgers':     Eq(1, 'burgers_1D', 'burgers_1D_py.burgers_1D', 1, pd={'efix': True}, base=[.5], amp=.5,
                      vmax=1.0, nonlinear=True),
    'traffic':     Eq(1, 'traffic_1D', None, 1, pd={'umax': 1.0, 'efix': True}, base=[.5], amp=.3, vmax=1.0,
                      mech='umax', nonlinear=True),
    'shallow':     Eq(1, 'shallow_roe_with_efix_1D', 'shallow_1D_py.shallow_roe_1D', 2,
                      pd={'grav': 1.0, 'dry_tolerance': 1e-3, 'sea_level': 0.0, 'efix': False}, base=[1., .1],
                      amp=.2, vmax=1.6, wall=True, wall_cons=(0,), mech='grav', nonlinear=True),
    'shallow_hlle': Eq(1, 'shallow_hlle_1D', 'shallow_1D_py.shallow_hll_1D', 2,
                      pd={'grav': 1.0, 'dry_tolerance': 1e-3, 'sea_level': 0.0, 'efix': False}, base=[1., .1],
                      amp=.2, vmax=1.6, wall=True, wall_cons=(0,), mech='grav', nonlinear=True),
    'euler':       Eq(1, 'euler_with_efix_1D', 'euler_1D_py.euler_hllc_1D', 3,
                      pd={'gamma': 1.4, 'gamma1': 0.4, 'efix': False}, base=[1., .1, 2.5], amp=.1, vmax=1.6,
                      wall=True, wall_cons=(0, 2), nonlinear=True),
    'elasticity':  Eq(1, 'nonlinear_elasticity_fwave_1D', None, 2, aux=((1.0, .1), (1.0, .1), (0., 0.)),
                      pd={'stress_relation': 'exponential'}, amp=.1, vmax=1.3, cons=True, fwave=True,
                      nonlinear=True),
    'advection2':  Eq(2, 'advection_2D', None, 1, pd={'u': 1.0, 'v': -0.5}, mech='u', rpt=True),
    'acoustics2':  Eq(2, 'acoustics_2D', None, 3, pd={'rho': 1.0, 'bulk': 1.0, 'zz': 1.0, 'cc': 1.0}, mech='cc',
                      wall=True, wall_cons=(0,), rpt=True),
    'vcacoustics2': Eq(2, 'vc_acoustics_2D', None, 3, aux=((1.0, .25), (1.0, .25)), mech='aux1', wall=True,
                      cons=False, vmax=1.25, rpt=True),
    'vcadv2':      Eq(2, 'vc_advection_2D', None, 1, aux=((1.0, .2), (-.5, .1)), mech='aux0', cons=False, vmax=1.2,
                      rpt=True),
    'shallow2':    Eq(2, 'shallow_roe_with_efix_2D', None, 3, pd={'grav': 1.0}, base=[1., .1, -.1], amp=.15,
                      vmax=1.6, wall=True, wall_cons=(0,), rpt=True, nonlinear=True, mech='grav'),
    'euler2':      Eq(2, 'euler_4wave_2D', None, 4, pd={'gamma': 1.4, 'gamma1': 0.4}, base=[1., .1, -.1, 2.5], amp=.1,
                      vmax=1.6, wall=True, wall_cons=(0, 3), rpt=True, nonlinear=True),
    'vcacoustics3': Eq(3, 'vc_acoustics_3D', None, 4, aux=((1.0, .25), (1.0, .25)), mech='aux1', wall=True,
                      cons=False, vmax=1.25, rpt=True),
    'burgers3':    Eq(3, 'burgers_3D', None, 1, pd={'coeff': [1.0, .5, .75]}, base=[.5], amp=.4, vmax=1.0, rpt=True, nonlinear=True),
    'acoustics3':  Eq(3, 'vc_acoustics_3D', None, 4, aux=((1.0, 0.), (1.0, 0.)), mech='aux1', wall=True,
                      wall_cons=(0,), rpt=True),
    'euler3':      Eq(3, 'euler_3D', None, 5, pd={'gamma': 1.4, 'gamma1': 0.4}, base=[1., .1, -.1, .05, 2.5], amp=.1,
                      vmax=1.6, wall=True, wall_cons=(0, 4), nonlinear=True, sharp=False, rpt=True),
}
BY_DIM = {d: sorted(k for k, v in EQS.items() if v.dim == d) for d in (1, 2, 3)}

# classical RK4 and Heun for time_integrator='RK'
RK = {'rk4': ([[0, 0, 0, 0], [.5, 0, 0, 0], [0, .5, 0, 0], [0, 0, 1, 0]], [1 / 6., 1 / 3., 1 / 3., 1 / 6.], [0, .5, .5, 1.]),
      'heun': ([[0, 0], [1, 0]], [.5, .5], [0, 1.])}
# Adams-Bashforth-like LMM with 3 steps (alpha, beta for oldest..newest)
LMM = {'ab3': ([0., 0., 1.], [5 / 12., -16 / 12., 23 / 12.]), 'ab2': ([0., 1.], [-.5, 1.5])}
RK_MORE = {'kutta3': ([[0, 0, 0], [.5, 0, 0], [-1, 2, 0]], [1 / 6., 2 / 3., 1 / 6.], [0, .5, 1.]),
           'ralston': ([[0, 0], [.75, 0]], [.25, .75], [0, .75])}
LMM_MORE = {'ssp32': ([.25, 0., .75], [0., 0., 1.5]), 'ab4': ([0., 0., 0., 1.], [-9 / 24., 37 / 24., -59 / 24., 55 / 24.])}


def resolve_rp(cfg):
    from clawpack import riemann
    eq = EQS[cfg['eq']]
    if cfg.get('kernel', 'Fortran') == 'Fortran':
        return getattr(riemann, eq.f)
    mod, fn = eq.py.split('.')
    import importlib
    return getattr(importlib.import_module('clawpack.riemann.' + mod), fn)


def field(seed, shape, base, amp):
    """Deterministic global field: smooth bump + jumps + noise, |deviation| <= amp."""
    rs = np.random.RandomState(seed)
    idx = np.indices(shape)
    ph = np.zeros(shape)
    for d, n in enumerate(shape):
        ph = ph + math.pi * 2 * (idx[d] + .5) / n * (1 + rs.randint(2)) + rs.rand() * 6
    f = .5 * np.sin(ph)
    f = f + .3 * np.where((idx.sum(axis=0) * 7 + rs.randint(100)) % (3 * max(shape)) < max(shape), 1., -1.)
    f = f + .2 * (2 * rs.rand(*shape) - 1)
    # keep a short mantissa so that sums and products stay comparable
    f = np.round(f * 1024) / 1024
    return base + amp * f


def global_fields(cfg):
    eq = EQS[cfg['eq']]
    n = tuple(cfg['n'])
    s = int(cfg.get('ic', 0))
    amp = eq.amp * cfg.get('amp', 1.0)
    q = np.array([field(1000 * s + m, n, eq.base[m], amp) for m in range(eq.num_eqn)])
    if cfg.get('flat'):
        # pieces of constant data
        for m in range(eq.num_eqn):
            q[m] = eq.base[m] + amp * np.round((q[m] - eq.base[m]) / amp * cfg['flat']) / cfg['flat']
    aux = [field(1000 * s + 100 + m, n, b, a) for m, (b, a) in enumerate(eq.aux)]
    if cfg.get('capa'):
        aux.append(field(1000 * s + 200, n, 1.0, .3))
    return q, (np.array(aux) if aux else None)


def my_slices(grid, cfg):
    """Global index ranges of this grid's cells."""
    out = []
    for d in range(grid.num_dim):
        lo, up, n = cfg['lower'][d], cfg['upper'][d], cfg['n'][d]
        delta = (up - lo) / n
        i0 = int(round((grid.dimensions[d].lower - lo) / delta))
        out.append(slice(i0, i0 + grid.dimensions[d].num_cells))
    return tuple(out)


def bc_code(pyclaw, name):
    return {PER: pyclaw.BC.periodic, EXT: pyclaw.BC.extrap, WALL: pyclaw.BC.wall, CUSTOM: pyclaw.BC.custom}[name]


def dim_index(dim):
    return {'x': 0, 'y': 1, 'z': 2}[dim.name]


def custom_lower(state, dim, t, qbc, auxbc, num_ghost):
    d = dim_index(dim)
    v = np.moveaxis(qbc, d + 1, 1)
    for i in range(num_ghost):
        v[:, i] = v[:, num_ghost] * (1 + .125 * math.sin(3 * t))


def custom_upper(state, dim, t, qbc, auxbc, num_ghost):
    d = dim_index(dim)
    v = np.moveaxis(qbc, d + 1, 1)
    for i in range(num_ghost):
        v[:, -i - 1] = v[:, -num_ghost - 1] * (1 - .125 * math.sin(2 * t))


def custom_aux_lower(state, dim, t, qbc, auxbc, num_ghost):
    d = dim_index(dim)
    v = np.moveaxis(auxbc, d + 1, 1)
    for i in range(num_ghost):
        v[:, i] = v[:, num_ghost]


def custom_aux_upper(state, dim, t, qbc, auxbc, num_ghost):
    d = dim_index(dim)
    v = np.moveaxis(auxbc, d + 1, 1)
    for i in range(num_ghost):
        v[:, -i - 1] = v[:, -num_ghost - 1]


def old_signature(fun, aux):
    """The same boundary condition with the five-argument signature of Clawpack 5.2."""
    def old(state, dim, t, array, num_ghost):
        fun(state, dim, t, None if aux else array, array if aux else None, num_ghost)
    return old


def set_speed(prob, state, factor):
    """Scale the wave speeds of the problem by `factor` (global, absolute)."""
    eq = prob.eq
    m = eq.mech
    if m is None:
        return
    if m.startswith('aux'):
        state.aux[int(m[3:])] = prob.aux0[int(m[3:])] * factor
    else:
        v = eq.pd[m] * factor
        state.problem_data[m] = v
        if prob.cfg.get('kernel', 'Fortran') == 'Fortran':
            for mod in (prob.solver.rp,):
                if hasattr(mod, 'cparam') and hasattr(mod.cparam, m):
                    setattr(mod.cparam, m, v)


def local_cell(prob, state, cell):
    """Index of a global cell on this grid, or None when another process owns it."""
    out = []
    for sl, c in zip(prob.slices, cell):
        if not sl.start <= c < sl.stop:
            return None
        out.append(c - sl.start)
    return tuple(out)


def since(t, a):
    """t >= a, also when t is a rounding error before a: whether a step falls before or after a switch must not depend on rounding."""
    return t >= a - 1e-9 * abs(a)


def set_spikes(prob, state, t):
    """Wave-speed spikes in single cells: [t0, t1, cell, factor] (aux-driven problems, after set_speed)."""
    m = prob.eq.mech
    for ta, tb, cell, f in prob.cfg.get('spikes') or ():
        i = local_cell(prob, state, cell)
        if i is not None and since(t, ta) and not since(t, tb) and m and m.startswith('aux'):
            state.aux[(int(m[3:]),) + i] *= f


def set_kicks(prob, state, t):
    """Sudden changes of the solution in single cells: [t0, t1, cell, component, factor]."""
    for ta, tb, cell, comp, f in prob.cfg.get('kicks') or ():
        i = local_cell(prob, state, cell)
        if i is not None and since(t, ta) and not since(t, tb):
            state.q[(comp,) + i] *= f


def set_hook(prob, state):
    """A before-step hook that changes the solution itself: [component, factor, increment]."""
    h = prob.cfg.get('hookq')
    if h:
        state.q[h[0]] = state.q[h[0]] * h[1] + h[2]


def gen_hook(rng, cfg):
    if rng.random() < .2:
        cfg['hookq'] = [rng.randrange(EQS[cfg['eq']].num_eqn), rng.choice([.9375, 1.015625]), rng.choice([0., .0078125])]


class Problem(object):
    pass


def build_solver(cfg, pyclaw):
    eq = EQS[cfg['eq']]
    rp = resolve_rp(cfg)
    cls = getattr(pyclaw, ('ClawSolver%dD' if cfg.get('solver', 'classic') == 'classic' else 'SharpClawSolver%dD') % eq.dim)
    s = cls(rp)
    s.kernel_language = cfg.get('kernel', 'Fortran')
    s.num_eqn = eq.num_eqn
    if cfg.get('kernel') == 'Python' or s.num_waves is None:
        nw = {'shallow': 2, 'shallow_hlle': 2, 'euler': 3, 'acoustics': 2}.get(cfg['eq'])
        s.num_waves = nw if nw is not None else eq.num_eqn
        s.fwave = bool(eq.fwave)
    for d in range(eq.dim):
        s.bc_lower[d] = bc_code(pyclaw, cfg['bc'][d][0])
        s.bc_upper[d] = bc_code(pyclaw, cfg['bc'][d][1])
        aux_bc = (cfg.get('aux_bc') or cfg['bc'])[d]
        s.aux_bc_lower[d] = bc_code(pyclaw, aux_bc[0])
        s.aux_bc_upper[d] = bc_code(pyclaw, aux_bc[1])
    if any(CUSTOM in b for b in cfg['bc'] + (cfg.get('aux_bc') or [])):
        fs = [custom_lower, custom_upper, custom_aux_lower, custom_aux_upper]
        if cfg.get('old_bc'):
            fs = [old_signature(f, i > 1) for i, f in enumerate(fs)]
        s.user_bc_lower, s.user_bc_upper, s.user_aux_bc_lower, s.user_aux_bc_upper = fs
    if cfg.get('solver', 'classic') == 'classic':
        s.order = cfg.get('order', 2)
        s.limiters = cfg.get('limiter', 4)
        if cfg.get('limiters'):
            # one limiter for each wave family
            s.limiters = [(cfg['limiters'] // 7 ** i) % 5 for i in range(s.num_waves)]
        s.source_split = cfg.get('source_split', 1)
        if eq.dim > 1:
            s.dimensional_split = bool(cfg.get('dimsplit', True))
            if not s.dimensional_split:
                # 3D solvers number the same three choices differently
                s.transverse_waves = [s.no_trans, s.trans_inc, s.trans_cor][cfg.get('trans', 1)]
    else:
        s.time_integrator = cfg.get('integrator', 'SSP104')
        s.lim_type = cfg.get('lim_type', 2)
        s.weno_order = cfg.get('weno_order', 5)
        s.char_decomp = cfg.get('char_decomp', 0)
        if s.lim_type == 1:
            s.num_ghost = 2
            s.limiters = [cfg.get('limiter', 4)]
        if s.time_integrator == 'RK':
            a, b, c = dict(RK, **RK_MORE)[cfg.get('rk', 'rk4')]
            s.a, s.b, s.c = np.array(a), np.array(b), np.array(c)
        elif s.time_integrator == 'LMM':
            al, be = dict(LMM, **LMM_MORE)[cfg.get('lmm', 'ab3')]
            s.alpha, s.beta = np.array(al), np.array(be)
            s.lmm_steps = len(al)
            s.dt_variable = False
        elif 'SSPLMM' in s.time_integrator:
            s.lmm_steps = cfg.get('lmm_steps', 4)
            s.check_lmm_cond = bool(cfg.get('lmm_cond', False))
    if cfg.get('cfl_max') is not None:
        s.cfl_max = cfg['cfl_max']
        s.cfl_desired = cfg['cfl_desired']
    if 'dt_variable' in cfg:
        s.dt_variable = bool(cfg['dt_variable'])
    if cfg.get('dt_initial') is not None:
        s.dt_initial = cfg['dt_initial']
        s.dt = cfg['dt_initial']
    if cfg.get('dt_max') is not None:
        s.dt_max = cfg['dt_max']
    if cfg.get('max_steps') is not None:
        s.max_steps = cfg['max_steps']
    return s


def source_rate(cfg):
    return cfg.get('source')


def make_source(cfg, log=None):
    """Classic step_source: q += dt*k*q on the last component (time dependent when asked)."""
    k = cfg['source']
    tdep = cfg.get('source_t', False)
    per_eq = cfg.get('source_eq', 0)

    def step_source(solver, state, dt):
        if log is not None:
            log(solver, state, dt)
        f = k * (1 + (math.sin(5 * state.t) if tdep else 0.))
        q = state.q
        q[per_eq] = q[per_eq] + dt * f * q[per_eq]
        state.q = q if not hasattr(state, 'gqVec') else q.copy()
    return step_source


def make_dq_src(cfg, log=None):
    k = cfg['source']
    tdep = cfg.get('source_t', False)
    per_eq = cfg.get('source_eq', 0)

    def dq_src(solver, state, dt):
        if log is not None:
            log(solver, state, dt)
        f = k * (1 + (math.sin(5 * state.t) if tdep else 0.))
        dq = np.zeros(state.q.shape)
        dq[per_eq] = dt * f * state.q[per_eq]
        return dq
    return dq_src


def build(cfg, pyclaw=None, before_step=None, source_log=None):
    """Returns a Problem with .solver .solution .state .domain .q0 .aux0"""
    if pyclaw is None:
        from clawpack import pyclaw
    eq = EQS[cfg['eq']]
    p = Problem()
    p.cfg = cfg
    p.eq = eq
    p.pyclaw = pyclaw
    p.solver = build_solver(cfg, pyclaw)
    names = ['x', 'y', 'z']
    dims = [pyclaw.Dimension(cfg['lower'][d], cfg['upper'][d], cfg['n'][d], name=names[d]) for d in range(eq.dim)]
    p.domain = pyclaw.Domain(dims)
    num_aux = len(eq.aux) + (1 if cfg.get('capa') else 0)
    st = pyclaw.State(p.domain, eq.num_eqn, num_aux)
    sl = p.slices = my_slices(st.grid, cfg)
    gq, gaux = global_fields(cfg)
    st.q[...] = gq[(slice(None),) + sl]
    if num_aux:
        st.aux[...] = gaux[(slice(None),) + sl]
        p.aux0 = st.aux.copy()
    else:
        p.aux0 = None
    if cfg.get('capa'):
        st.index_capa = num_aux - 1
    st.problem_data.update(eq.pd)
    for k, v in (cfg.get('pd') or {}).items():
        st.problem_data[k] = v
    st.t = cfg.get('t0', 0.0)
    if cfg.get('gauges'):
        st.grid.add_gauges([tuple(g) for g in cfg['gauges']])
        st.keep_gauges = bool(cfg.get('keep_gauges'))
    p.state = st
    p.solution = pyclaw.Solution(st, p.domain)
    if before_step is not None:
        p.solver.before_step = before_step
    if cfg.get('source') is not None:
        if cfg.get('solver', 'classic') == 'classic':
            p.solver.step_source = make_source(cfg, source_log)
        else:
            p.solver.dq_src = make_dq_src(cfg, source_log)
    return p


# ----------------------------------------------------------------------------
#  Random configurations
# ----------------------------------------------------------------------------
def gen_config(rng, dims=(1, 1, 1, 2, 2, 3), solver=None, dyadic=True, kernels=True, cons_only=False, bcs=None,
               variable=True, small=True, eqs=None, allow_capa=True, integrators=None, min_n=None):
    d = rng.choice(dims)
    solver = solver or rng.choice(['classic', 'classic', 'sharp'])
    names = [e for e in BY_DIM[d] if (not cons_only or EQS[e].cons)]
    if solver == 'sharp':
        # euler_3D stops on the unset outermost edge states that the SharpClaw
        # reconstructions leave in the ghost region: not a supported pairing
        names = [e for e in names if EQS[e].sharp]
    if eqs:
        names = [e for e in names if e in eqs]
    name = rng.choice(names)
    eq = EQS[name]
    cfg = {'eq': name, 'solver': solver}
    if kernels and d == 1 and eq.py and rng.random() < .35:
        cfg['kernel'] = 'Python'
    lo_n = {1: 12, 2: 7, 3: 6}[d] if min_n is None else min_n
    hi_n = {1: 40, 2: 14, 3: 8}[d]
    n = [rng.randint(lo_n, max(hi_n, lo_n)) for _ in range(d)]
    cfg['n'] = n
    if dyadic:
        dx = [2.0 ** -rng.choice([3, 4, 5]) for _ in range(d)]
        cfg['lower'] = [rng.choice([0., -1., .5]) for _ in range(d)]
        cfg['upper'] = [cfg['lower'][i] + n[i] * dx[i] for i in range(d)]
    else:
        cfg['lower'] = [round(rng.uniform(-1, 1), 3) for _ in range(d)]
        cfg['upper'] = [cfg['lower'][i] + round(rng.uniform(.7, 2.3), 3) for i in range(d)]
    cfg['ic'] = rng.randint(1, 10 ** 6)
    kinds = list(bcs) if bcs else [PER, EXT, CUSTOM] + ([WALL] if eq.wall else [])
    cfg['bc'] = []
    for _ in range(d):
        if PER in kinds and rng.random() < .5:
            cfg['bc'].append([PER, PER])
        else:
            k2 = [k for k in kinds if k != PER] or [PER]
            a, b = rng.choice(k2), rng.choice(k2)
            if PER in (a, b):
                a = b = PER
            cfg['bc'].append([a, b])
    if allow_capa and rng.random() < .25 and not eq.fwave:
        cfg['capa'] = True
    if solver == 'classic':
        cfg['order'] = rng.choice([1, 2, 2])
        cfg['limiter'] = rng.choice([0, 1, 2, 3, 4, 4])
        if d > 1:
            cfg['dimsplit'] = rng.random() < .6 or not eq.rpt
            if not cfg['dimsplit']:
                cfg['trans'] = rng.choice([0, 1, 2])
        tr0 = d > 1 and not cfg['dimsplit'] and cfg['trans'] == 0
        cm = rng.choice([.4, .33] if tr0 and d == 3 else [.5, .45] if tr0 else [1.0, .95, .875, .5])
        cfg['cfl_max'] = cm
        cfg['cfl_desired'] = cm if rng.random() < .2 else round(cm * rng.uniform(.6, .95), 3)
    else:
        its = integrators or (['SSP104', 'SSP33', 'Euler', 'RK'] + (['SSPLMMk2', 'SSPLMMk3'] if variable else ['LMM']))
        it = rng.choice(its)
        cfg['integrator'] = it
        if it == 'RK':
            cfg['rk'] = rng.choice(sorted(RK))
        if it == 'LMM':
            cfg['lmm'] = rng.choice(sorted(LMM))
            variable = False
        if it == 'SSPLMMk2':
            cfg['lmm_steps'] = rng.choice([3, 4, 5])
        if it == 'SSPLMMk3':
            cfg['lmm_steps'] = rng.choice([4, 5])
        if cfg.get('kernel') != 'Python':
            cfg['lim_type'] = rng.choice([1, 2, 2])
            if cfg['lim_type'] == 2 and rng.random() < .2 and min(n) >= 8:
                cfg['weno_order'] = 7
            if rng.random() < .3 and d == 1:
                cfg['char_decomp'] = 1
        else:
            cfg['lim_type'] = rng.choice([2, 2, -1])
            if rng.random() < .3:
                cfg['char_decomp'] = 1
        if 'SSPLMM' not in it:
            cm = {'SSP104': 2.5, 'SSP33': .5, 'Euler': .25, 'RK': .5, 'LMM': .25}[it]
            cfg['cfl_max'] = cm
            cfg['cfl_desired'] = round(cm * rng.uniform(.6, .95), 4)
        ng = (cfg.get('weno_order', 5) + 1) // 2
        if min(n) < 2 * ng + 1:
            cfg['n'] = [max(v, 2 * ng + 1) for v in n]
            if dyadic:
                cfg['upper'] = [cfg['lower'][i] + cfg['n'][i] * dx[i] for i in range(d)]
    has_aux = bool(eq.aux) or cfg.get('capa')
    if not cons_only and has_aux and rng.random() < .25:
        # boundary conditions of the aux array of another kind than those of q
        k2 = [k for k in (EXT, CUSTOM, WALL) if k in kinds] or [EXT]
        cfg['aux_bc'] = [b if PER in b else [rng.choice(k2), rng.choice(k2)] for b in cfg['bc']]
    if any(CUSTOM in b for b in cfg['bc'] + cfg.get('aux_bc', [])) and rng.random() < .2:
        cfg['old_bc'] = True
    if solver == 'classic' and eq.num_waves is None and rng.random() < .2:
        cfg['limiters'] = rng.randint(1, 10 ** 6)
    cfg['dt_variable'] = variable
    # the stable step for cfl = 1
    cap_min = .7 if cfg.get('capa') else 1.0
    h = min((cfg['upper'][i] - cfg['lower'][i]) / cfg['n'][i] for i in range(d))
    cfg['dt1'] = h * cap_min / eq.vmax
    if not variable:
        # a dyadic fixed step safely below the stability limit
        target = cfg['dt1'] * (cfg.get('cfl_max') or .05) * (.4 if eq.nonlinear else .5)
        if d > 1:
            target *= .8
        cfg['dt_initial'] = 2.0 ** math.floor(math.log(target, 2)) if dyadic else target
    else:
        if rng.random() < .4:
            cfg['dt_initial'] = cfg['dt1'] * rng.choice([.05, .3, 1., 1.7, 4. if name != 'euler3' else 1.5])
        else:
            cfg['dt_initial'] = cfg['dt1'] * (cfg.get('cfl_desired') or .1) * rng.choice([.2, .7])
    return cfg


def shrink_cfg(sc, key='cfg'):
    """Simpler variants of the problem of a scenario."""
    c = sc[key]
    for drop in ('source', 'gauges', 'capa', 'kernel', 'char_decomp', 'source_t', 'keep_gauges', 'dt_max', 'weno_order', 'limiters', 'old_bc', 'aux_bc', 'hookq'):
        if c.get(drop):
            d = dict(c)
            d.pop(drop)
            yield dict(sc, **{key: d})
    if any(b != ['periodic', 'periodic'] for b in c['bc']):
        yield dict(sc, **{key: dict(c, bc=[['periodic', 'periodic'] for _ in c['bc']])})
    if c.get('order') == 2:
        yield dict(sc, **{key: dict(c, order=1)})
    if c.get('gauges') and len(c['gauges']) > 1:
        yield dict(sc, **{key: dict(c, gauges=c['gauges'][:1])})

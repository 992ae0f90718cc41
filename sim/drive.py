"""Observation of a running solver through its public hooks, and the oracle re-run."""
import math
import os
import numpy as np

from . import problems as P
from .core import Violation

ONE_STEP = ('Euler', 'SSP33', 'SSP104', 'RK')


def cfg_rng_label(cfg):
    return '%s%s%dD' % (cfg['solver'][0], 'P' if cfg.get('kernel') == 'Python' else 'F', P.EQS[cfg['eq']].dim)


def speed_of(profile, t):
    """Piecewise constant wave-speed factor: profile = [[t0, f0], [t1, f1], ...] sorted."""
    f = 1.0
    for a, v in profile or ():
        if P.since(t, a):
            f = v
    return f


class Attempt(object):
    __slots__ = ('t', 'q', 'q0', 'nsteps', 'dt', 'cfl', 'acc', 'src', 'tn', 'stages', 'ng')


class Rec(object):
    """Records every attempted step of one solution through before_step, the
    source hook, solver.dt, solver.cfl and solver.status."""

    def __init__(self, ctx, cfg, speed=None, cap=4000, cap_stops=False, keep_q=True, pyclaw=None, extra=None,
                 in_range=True):
        self.ctx, self.cfg, self.speed, self.cap = ctx, cfg, speed, cap
        self.in_range = in_range        # a process of a parallel run sees only its own cells
        self.cap_stops = cap_stops
        self.keep_stages = False
        self.att = []
        self.cur = None
        self.srclog = []
        self.extra = extra
        self.cur_factor = None
        self.ambiguous = False
        self.prob = P.build(cfg, pyclaw=pyclaw, before_step=self.before_step,
                            source_log=self.on_source if cfg.get('source') is not None else None)
        self.solver, self.solution, self.state = self.prob.solver, self.prob.solution, self.prob.solution.states[0]
        if (speed or cfg.get('spikes')) and cfg['solver'] == 'sharp':
            self.solver.call_before_step_each_stage = True

    def set_speed(self, state, t):
        if self.speed or self.cfg.get('spikes'):
            P.set_speed(self.prob, state, speed_of(self.speed, t))
        P.set_spikes(self.prob, state, t)

    def on_source(self, solver, state, dt):
        if self.cur is not None:
            self.cur.src.append((float(state.t), float(dt)))

    def before_step(self, solver, state):
        if state is not self.solution.states[0]:
            self.set_speed(state, state.t)         # a stage of a multi-stage method
            if self.keep_stages and self.cur is not None:
                self.cur.stages.append((float(state.t), np.array(state.q)))
            return
        self.close()
        if len(self.att) >= self.cap:
            if self.cap_stops:
                self.ctx.probe('step-cap')
                raise Stop()
            raise Violation('no-progress', '%d attempts and still at t=%r' % (len(self.att), float(state.t)))
        if self.in_range and (not np.all(np.isfinite(state.q)) or np.max(np.abs(state.q)) > 100.0):
            self.ctx.probe('left-range')
            raise Stop()
        q0 = np.array(state.q)
        self.set_speed(state, state.t)
        P.set_hook(self.prob, state)
        P.set_kicks(self.prob, state, state.t)
        if self.extra is not None:
            self.extra(self, solver, state)
        a = Attempt()
        a.t = float(state.t)
        a.q0 = q0                   # before the hook changed it
        a.q = np.array(state.q)
        a.nsteps = int(solver.status['numsteps'])
        a.src = []
        a.stages = []
        a.dt = a.cfl = a.acc = a.tn = None
        self.cur = a
        self.att.append(a)

    def close(self):
        """The attempt in progress has been decided: note how."""
        a = self.cur
        if a is None:
            return
        self.cur = None
        st = self.solution.states[0]
        a.tn = float(st.t)
        a.dt = float(self.solver.dt)
        a.cfl = float(self.solver.cfl.get_cached_max())
        a.acc = a.tn != a.t
        if 0. < a.dt and a.t + a.dt == a.t:
            # a Courant number beyond 1e10 (the stages of a far too large step blew up)
            self.ambiguous = True
        self.ctx.ev('att', a.t, a.dt, a.cfl, a.acc)
        self.ctx.tok('A' if a.acc else 'R')
        self.ctx.steps += 1
        if a.acc:
            self.ctx.simtime += a.tn - a.t
        else:
            self.ctx.fault('step-rejected')

    def accepted(self):
        return [a for a in self.att if a.acc]


class Stop(Exception):
    """Raised from before_step: the numerical solution has left the range the
    checks are meant for; what has been recorded so far is still judged."""


def oracle(ctx, cfg, speed, acc, gauges=None):
    """Re-run with a fresh solver that takes exactly the accepted steps, one by
    one, with a fixed step: a run in which nothing is ever rejected."""
    c = dict(cfg)
    c['dt_variable'] = False
    if gauges is None:
        c.pop('gauges', None)
    c['dt_initial'] = acc[0].dt if acc else cfg['dt_initial']
    o = Quiet(c, speed, gauges)
    s = o.solver
    s.max_steps = 10
    out = []
    for a in acc:
        s.dt = a.dt
        cm = s.cfl_max
        if cm is not None:
            s.cfl_max = cm * 1.01       # the accept decision is not what the oracle re-derives
        s.evolve_to_time(o.solution)
        if cm is not None:
            s.cfl_max = cm
        out.append((float(o.solution.t), np.array(o.solution.states[0].q)))
    return o, out


def sensitivity(ctx, cfg, speed, acc):
    """How far rounding-size changes of the initial data move the oracle's
    trajectory, per step (WENO reconstructions amplify rounding)."""
    ref = oracle(ctx, cfg, speed, acc)[1]
    out = np.zeros(len(acc))
    orig = P.global_fields
    try:
        for k in range(4):
            rs = np.random.RandomState(k)

            def pert(c):
                q, a = orig(c)
                return q * (1 + 2e-16 * rs.randint(-4, 5, size=q.shape)), a
            P.global_fields = pert
            tr = oracle(ctx, cfg, speed, acc)[1]
            for i in range(len(acc)):
                out[i] = max(out[i], float(np.nanmax(np.abs(tr[i][1] - ref[i][1]))))
    finally:
        P.global_fields = orig
    return np.maximum.accumulate(out)


class Quiet(object):
    """A problem with the speed profile but no recording."""

    def __init__(self, cfg, speed, gauges=None):
        self.speed = speed
        self.prob = P.build(cfg, before_step=self.before_step if speed or cfg.get('hookq') else None)
        self.solver, self.solution = self.prob.solver, self.prob.solution
        if speed and cfg['solver'] == 'sharp':
            self.solver.call_before_step_each_stage = True
        if gauges:
            self.solution.states[0].grid.setup_gauge_files(gauges)

    def before_step(self, solver, state):
        if self.speed:
            P.set_speed(self.prob, state, speed_of(self.speed, state.t))
        if state is self.solution.states[0]:
            P.set_hook(self.prob, state)


def true_cfl(cfg, aux0, factor, dt):
    """Courant number of a step from first principles, for problems whose wave
    speeds do not depend on the solution; None for the others."""
    eq = P.EQS[cfg['eq']]
    if cfg.get('capa') or cfg.get('kernel') == 'Python':
        return None
    h = [(u - l) / n for l, u, n in zip(cfg['lower'], cfg['upper'], cfg['n'])]
    pd = dict(eq.pd)
    pd.update(cfg.get('pd') or {})
    e = cfg['eq']
    if e == 'advection':
        return abs(pd['u'] * factor) * dt / h[0]
    if e in ('acoustics', 'acoustics2'):
        return pd['cc'] * factor * dt / min(h)
    if e == 'advection2':
        return max(abs(pd['u'] * factor) * dt / h[0], abs(pd['v']) * dt / h[1])
    if e in ('vcacoustics', 'vcacoustics2', 'vcacoustics3'):
        return float(np.max(np.abs(aux0[1]))) * factor * dt / min(h)
    return None


def read_gauge_files(state, root):
    """name -> list of lines split into floats"""
    out = {}
    d = os.path.join(root, state.grid.gauge_dir_name)
    if not os.path.isdir(d):
        return out
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f)) as fh:
            txt = fh.read()
        out[f] = [[float(x) for x in l.split()] for l in txt.splitlines()]
    return out


def flush_gauges(state):
    for f in state.grid.gauge_files:
        if not f.closed:
            f.flush()


def gen_gauges(rng, cfg, k, edges=0.):
    """k gauge positions: inside cells, some exactly on cell edges where these are exact; never outside."""
    out = []
    for _ in range(k):
        g = []
        for d in range(len(cfg['n'])):
            lo, up, n = cfg['lower'][d], cfg['upper'][d], cfg['n'][d]
            h = (up - lo) / n
            i = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)])
            on = edges and rng.random() < edges and all(float(x * 2 ** 20).is_integer() for x in (lo, up, h))
            g.append(lo + h * (i + (0. if on else rng.choice([.5, .25, .75]))))
        out.append(g)
    uniq = []
    for g in out:
        if g not in uniq:
            uniq.append(g)
    return uniq


def gauge_cell(cfg, g):
    out = []
    for d in range(len(cfg['n'])):
        lo, up, n = cfg['lower'][d], cfg['upper'][d], cfg['n'][d]
        h = (up - lo) / n
        out.append(int(math.floor((g[d] - lo) / h)))
    return tuple(out)


def gen_speed(rng, cfg, T, n=None, high=6.0):
    """A wave-speed profile with jumps inside (0, T)."""
    if cfg['solver'] == 'sharp' and P.EQS[cfg['eq']].nonlinear:
        high = 2.0
    k = n if n is not None else rng.choice([0, 1, 1, 2, 3])
    pts = sorted(round(rng.uniform(0.0, 1.0), 4) for _ in range(k))
    return [[p * T, min(high, rng.choice([1.0, 1.5, 2.5, 4.0, 6.0, .5, .25]))] for p in pts]


def tolerance(cfg):
    """Classic steps are re-done with identical arithmetic; SharpClaw rescales a
    stored dq/dt when the step changes, so the oracle differs by rounding."""
    if cfg['solver'] == 'classic':
        return dict(rtol=0.0, atol=0.0)
    return dict(rtol=1e-8, atol=1e-9)

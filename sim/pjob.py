"""A job of petclaw processes driven by a list of operations, the serial model
of the same job, and the comparison of the two.  Used by C08 and C09.

The model is serial pyclaw itself, run with the same operations, whose
Solution.write stores snapshots in memory instead of writing files."""
import copy
import os
import numpy as np

from . import cluster as K
from . import drive as D
from . import link
from . import par
from . import problems as P
from .core import Violation, Disk

PREFIX = 'claw'
EVOLVE = ('CFL too large', 'Maximum number', 'does not divide')
PICKLE = ("Can't pickle", "Can't get local object", 'cannot pickle')
EXPECTED = EVOLVE + ('Refusing to overwrite', 'Cowardly refusing') + PICKLE


def stretch(x):
    """A mapping that can be pickled."""
    return [2. * c for c in x]


GAUGE_FUNS = {'scalar': lambda q, aux: float(q[0]) * 2 + 1, 'npscalar': lambda q, aux: q[-1] * .5,
              'list': lambda q, aux: [q[0], q[0] ** 2, 3.0], 'aux': lambda q, aux: [q[0] * aux[0], aux[-1]]}


def fl(fmt):
    return [] if fmt is None else fmt if isinstance(fmt, list) else [fmt]


# ------------------------------------------------------------------ the serial model of what is on disk
class Store(object):
    def __init__(self):
        self.frames = {}         # (dir, fmt, prefix, frame) -> snapshot
        self.aux = {}            # (dir, prefix, frame) -> aux file of the petsc format
        self.calls = []          # per call of Solution.write, the (key, snapshot) it wrote
        self.texts = []          # per call, the op it belongs to and the text files on disk before it
        self.unpicklable = False

    def write(self, sol, frame, d, fmt, prefix, write_aux, options, write_p):
        st = sol.states[0]
        frame = int(str(frame))
        done = []
        self.calls.append(done)
        for f in fl(fmt):
            key = (d, f, prefix or PREFIX, frame)
            akey = (d, prefix or PREFIX, frame)
            aux = write_aux and st.num_aux > 0
            if f == 'petsc' and options.get('clobber', True) is False:
                if key in self.frames or (aux and akey in self.aux):
                    raise IOError('Cowardly refusing to clobber')
            if f == 'petsc' and self.unpicklable:
                raise Exception("Can't pickle")
            q = st.p if write_p else st.q
            snap = {'t': float(sol.t), 'q': np.array(q, order='F'), 'num_eqn': int(q.shape[0]), 'num_aux': int(st.num_aux),
                                'aux': np.array(st.aux, order='F') if aux else None, 'pd': copy.deepcopy(dict(st.problem_data)),
                                'n': [int(x) for x in st.patch.num_cells_global], 'lower': [float(x) for x in st.patch.lower_global],
                                'upper': [float(x) for x in st.patch.upper_global], 'level': int(st.patch.level),
                    'index': int(st.patch.patch_index), 'map': st.grid.mapc2p.__name__}
            self.put(key, snap)
            done.append((key, snap))

    def put(self, key, snap):
        self.frames[key] = snap
        if key[1] == 'petsc':
            akey = (key[0], key[2], key[3])
            if snap['aux'] is not None:
                self.aux[akey] = snap['aux']
            else:
                self.aux.pop(akey, None)

    def aux_read(self, key):
        """aux a read of the frame gives; None: not defined."""
        d, f, prefix, frame = key
        if f == 'hdf5':
            return self.frames[key]['aux']
        a = self.aux.get((d, prefix, frame))
        if a is None:
            a = self.aux.get((d, prefix, 0))
            if a is not None and a.shape[1:] != self.frames[key]['q'].shape[1:]:
                a = None
        return a


# ------------------------------------------------------------------ the interpreter
class Job(object):
    """Runs operations on one problem, serially (store given) or as one process of a job."""

    def __init__(self, ctx, cfg, speed, root, mod, store=None, cap=400, start=None, extra=None):
        self.ctx, self.cfg, self.root, self.mod, self.store = ctx, cfg, root, mod, store
        self.serial = store is not None
        self.rec = D.Rec(ctx, cfg, speed, cap=cap, cap_stops=self.serial, pyclaw=mod, in_range=self.serial, extra=extra)
        if start is not None:
            self.restart(start)
        self.sol, self.solver = self.rec.solution, self.rec.solver
        self.t0 = float(self.sol.t)
        self.results = []
        self.frames = []
        self.stopped = False
        self.writes = 0
        st = self.sol.states[0]
        if cfg.get('map') == 'named':
            st.grid.mapc2p = stretch
        elif cfg.get('map') == 'local':
            st.grid.mapc2p = lambda x: stretch(x)
            if self.serial:
                store.unpicklable = True
        if cfg.get('gfun') and (st.num_aux or cfg['gfun'] != 'aux'):
            self.solver.compute_gauge_values = GAUGE_FUNS[cfg['gfun']]
        if cfg.get('mp') and cfg.get('assign') != 2:          # 2: the first assignment says how many there are
            st.mp = cfg['mp']
        if cfg.get('mF') and cfg.get('assign') != 2:
            st.mF = cfg['mF']
        self.hook()

    def restart(self, start):
        key, snap, aux = start
        rec = self.rec
        st0 = rec.state
        if self.serial:
            st0.q[...] = snap['q']
            if st0.aux is not None and aux is not None:
                st0.aux[...] = aux
            rec.solution.t = snap['t']
            if key[1] == 'petsc':
                st0.problem_data = dict(snap['pd'])
            rec.solution._start_frame = key[3]
            return
        d, f, prefix, frame = key
        sol = self.mod.Solution(frame, path=os.path.join(self.root, d), file_format=f, file_prefix=prefix, read_aux=aux is not None,
                                count_from_zero=False)
        st = sol.states[0]
        st.index_capa = st0.index_capa
        st.keep_gauges = st0.keep_gauges
        if f == 'hdf5':
            st.problem_data.update(st0.problem_data)
        if st.aux is not None and aux is None:
            st.aux[...] = st0.aux
        if self.cfg.get('gauges'):
            st.grid.add_gauges([tuple(g) for g in self.cfg['gauges']])
        rec.solution, rec.state = sol, st
        rec.prob.solution, rec.prob.state = sol, st

    def hook(self):
        sol = self.sol
        if self.serial:
            def write(frame, path='./', file_format='ascii', file_prefix=None, write_aux=False, options={}, write_p=False):
                os.makedirs(path, exist_ok=True)
                self.store.texts.append((len(self.results), texts(self.root)))
                self.store.write(sol, frame, os.path.relpath(path, self.root), file_format, file_prefix, write_aux, options, write_p)
        else:
            real = sol.write

            def write(frame, path='./', *a, **k):
                n = self.writes
                self.writes += 1
                link.mark(('begin', n))
                real(frame, path, *a, **k)
                link.mark(('end', n))
        sol.write = write

    def run(self, ops):
        for op in ops:
            if self.stopped:
                break
            if not self.serial:
                link.mark(('op', len(self.results)))
            try:
                r = ('ok', getattr(self, 'op_' + op[0])(*op[1:]))
            except (D.Stop, Violation):
                raise
            except Exception as e:
                m = [x for x in EXPECTED if x in str(e)]
                if not m:
                    raise
                if m[0] in EVOLVE:
                    self.stopped = True
                r = ('raised', 'not picklable' if m[0] in PICKLE else m[0])
            self.rec.close()
            self.results.append(r)
        return self

    def path(self, d):
        return os.path.join(self.root, d)

    def gauges(self):
        """Stepping by hand with gauges: the user sets the files up."""
        g = self.sol.states[0].grid
        if self.cfg.get('gauges') and not [f for f in g.gauge_files if not f.closed]:
            g.setup_gauge_files(self.path('g%d' % len(self.results)))

    # each returns what the process observed
    def op_to(self, t):
        tend = self.t0 + t
        if tend <= self.sol.t:
            return 'skip'
        if not self.solver.dt_variable:
            n = (tend - self.sol.t) / self.solver.dt
            if round(n) < 1 or abs(n - round(n)) > 1e-6 * max(1, n):
                return 'skip'
        self.gauges()
        return dict(self.solver.evolve_to_time(self.sol, tend))

    def op_step(self):
        self.gauges()
        return dict(self.solver.evolve_to_time(self.sol))

    def op_run(self, o):
        c = self.mod.Controller()
        c.solution, c.solver = self.sol, self.solver
        c.verbosity = 0
        c.outdir = self.path(o['dir'])
        c.output_format = o['fmt']
        c.output_file_prefix = o.get('prefix')
        c.overwrite = o.get('overwrite', True)
        c.keep_copy = bool(o.get('keep'))
        c.write_aux_init, c.write_aux_always = bool(o.get('auxi')), bool(o.get('auxa'))
        if o.get('clobber') is False:
            c.output_options = {'clobber': False}
        c.output_style = o['style']
        c.num_output_times = o['n']
        t0 = float(self.sol.t)
        c.tfinal = t0 + o['T']
        c.out_times = np.linspace(t0, t0 + o['T'], o['n'] + 1)
        c.nstepout = o['nstepout']
        if self.cfg.get('mp') and o.get('p'):
            c.compute_p = self.compute_p
        if self.cfg.get('mF') and o.get('F'):
            c.compute_F = self.compute_F
        try:
            s = c.run()
        finally:
            self.frames = [self.snap(f) for f in c.frames] if o.get('keep') else []
        return (None if s is None else dict(s), int(self.sol.start_frame), len(c.frames), self.frames)

    def compute_p(self, state):
        p = np.array([state.q[k % state.num_eqn] * (k + 1.5) + state.t for k in range(self.cfg['mp'])])
        if self.cfg.get('assign'):
            state.p = p
        else:
            state.p[...] = p

    def compute_F(self, state):
        if self.cfg.get('Fcons'):
            w = np.asarray(state.aux)[-1] if self.cfg.get('capa') else 1.0
            vol = float(np.prod(state.grid.delta))
            for i, k in enumerate(self.cfg['Fcons']):
                state.F[i, ...] = state.q[k, ...] * w * vol
            return
        F = np.array([state.q[k % state.num_eqn] ** 2 - .25 * k for k in range(self.cfg['mF'])])
        if self.cfg.get('assign'):
            state.F = F
        else:
            state.F[...] = F

    def op_write(self, o):
        self.sol.write(o['frame'], self.path(o['dir']), o['fmt'], o.get('prefix'), bool(o.get('aux')),
                       {'clobber': False} if o.get('clobber') is False else {})
        return None

    def op_read(self, o):
        fmt, prefix = o['fmt'], o.get('prefix') or PREFIX
        key = (o['dir'], fmt, prefix, o['frame'])
        if self.serial:
            return read_model(self.store, key)
        return read_frame(self.mod, self.root, key)

    def op_gather(self):
        return self.snap(self.sol)

    def op_copy(self):
        return self.snap(copy.deepcopy(self.sol))

    def op_barrier(self):
        return None

    def snap(self, sol):
        st = sol.states[0]
        return {'t': float(sol.t), 'q': np.array(st.q), 'aux': None if st.aux is None else np.array(st.aux),
                'gq': st.get_q_global(), 'gaux': st.get_aux_global() if st.aux is not None else None, 'capa': int(st.index_capa),
                'pd': dict(st.problem_data)}

    def out(self):
        st = self.sol.states[0]
        return {'att': [(a.t, a.dt, a.cfl, a.acc, a.tn) for a in self.rec.att], 't': float(self.sol.t), 'dt': float(self.solver.dt),
                'status': dict(self.solver.status), 'q': np.array(st.q), 'aux': None if st.aux is None else np.array(st.aux),
                'slices': [(s.start, s.stop) for s in self.rec.prob.slices], 'results': self.results,
                'gauges': [np.array(g) for g in st.gauge_data], 'gnames': list(st.grid.gauge_file_names), 'writes': self.writes}


def fine(ctx, job, cfg):
    """Did the serial run stay in the range the comparison is meant for?"""
    st = job.sol.states[0]
    if job.rec.ambiguous or not np.all(np.isfinite(st.q)) or np.max(np.abs(st.q)) > 100:
        ctx.probe('left-range')
        return False
    if par.blown_up(job.out(), cfg):
        ctx.probe('blown-up')
        return False
    if par.tols(cfg)[0] and par.near_limit(job.out(), cfg):
        ctx.probe('near-limit')
        return False
    return True


def gauge_data(ctx, jd, cfg, vals, ser):
    """In-memory gauge records: each gauge by one process, with the serial values."""
    if not cfg.get('gauges'):
        return
    want = dict(zip(ser['gnames'], ser['gauges'])) if ser['gauges'] else {}
    names = sorted(n for v in vals for n in v['gnames'])
    ctx.check(names == sorted(ser['gnames']), 'parallel-gauge', lambda: 'gauges recorded %s, serial %s' % (names, sorted(ser['gnames'])))
    for r, v in enumerate(vals):
        ctx.check(len(v['gauges']) == (len(v['gnames']) if ser['gauges'] else 0), 'parallel-gauge',
                  lambda: 'process %d: %d gauges, %d in memory' % (r, len(v['gnames']), len(v['gauges'])))
        for n, g in zip(v['gnames'], v['gauges']):
            ctx.same(g, want[n], 'parallel-gauge', 'gauge data %s' % n, jd.rtol, jd.atol)


def read_model(store, key):
    if key not in store.frames:
        return ('missing',)
    return ('frame', dict(store.frames[key], aux=store.aux_read(key)))


def read_frame(mod, root, key, aux=True):
    """What one process sees of a frame."""
    d, fmt, prefix, frame = key
    sol = mod.Solution()
    try:
        sol.read(frame, os.path.join(root, d), file_format=fmt, file_prefix=prefix, read_aux=aux)
    except Violation:
        raise
    except Exception as e:
        return ('missing', type(e).__name__, str(e)[:160])
    st = sol.states[0]
    return ('frame', {'t': float(sol.t), 'q': st.get_q_global(), 'lq': np.array(st.q), 'num_eqn': int(st.num_eqn),
                      'num_aux': int(st.num_aux), 'aux': st.get_aux_global() if st.aux is not None else None,
                      'laux': None if st.aux is None else np.array(st.aux), 'pd': dict(st.problem_data or {}),
                      'n': [int(x) for x in st.patch.num_cells_global], 'lower': [float(x) for x in st.patch.lower_global],
                      'upper': [float(x) for x in st.patch.upper_global], 'level': int(st.patch.level),
                      'index': int(st.patch.patch_index),
                      'map': st.grid.mapc2p.__name__, 'ranges': [tuple(r) for r in st.patch._da.getRanges()], 'states': len(sol.states)})


# ------------------------------------------------------------------ comparison
class Judge(object):
    def __init__(self, ctx, cfg, rtol, atol):
        self.ctx, self.cfg, self.rtol, self.atol = ctx, cfg, rtol, atol
        self.exact = rtol == 0

    def num(self, x, y):
        return x == y if self.exact or x == y else abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-3)

    def frame(self, kind, what, got, want, fmt):
        """Reads of one frame by all processes against the model."""
        ctx = self.ctx
        w0 = want
        for r, g in enumerate(got):
            w = '%s, process %d of %d' % (what, r, len(got))
            ctx.check(g['states'] == 1, kind, '%s: %d patches' % (w, g['states']))
            for k in ('num_eqn', 'num_aux', 'n', 'level', 'index'):
                ctx.check(g[k] == w0[k], kind, lambda: '%s: %s %r, written %r' % (w, k, g[k], w0[k]))
            ctx.check(self.num(g['t'], w0['t']), kind, lambda: '%s: t %r, written %r' % (w, g['t'], w0['t']))
            ctx.same(g['lower'], w0['lower'], kind, w + ' lower', 0, 0 if self.exact else 1e-13)
            ctx.same(g['upper'], w0['upper'], kind, w + ' upper', 0, 0 if self.exact else 1e-13)
            sl = (slice(None),) + tuple(slice(a, b) for a, b in g['ranges'])
            ctx.same(g['lq'], w0['q'][sl], kind, w + ' q', self.rtol, self.atol)
            ctx.check((g['q'] is not None) == (r == 0), kind, '%s: gathered array' % w)
            if r == 0:
                ctx.same(g['q'], w0['q'], kind, w + ' gathered q', self.rtol, self.atol)
            if w0['aux'] is not None:
                ctx.same(g['laux'], w0['aux'][sl], kind, w + ' aux', self.rtol, self.atol)
                if r == 0:
                    ctx.same(g['aux'], w0['aux'], kind, w + ' gathered aux', self.rtol, self.atol)
            if fmt == 'petsc':
                ctx.check(sorted(g['pd']) == sorted(w0['pd']) and all(g['pd'][k] == w0['pd'][k] for k in w0['pd']), kind,
                          lambda: '%s: problem_data %r, written %r' % (w, g['pd'], w0['pd']))
                ctx.check(g['map'] == w0['map'], kind, lambda: '%s: mapc2p %s, written %s' % (w, g['map'], w0['map']))

    def snaps(self, kind, what, got, want, slices):
        ctx = self.ctx
        for r, g in enumerate(got):
            w = '%s, process %d of %d' % (what, r, len(got))
            sl = (slice(None),) + tuple(slice(a, b) for a, b in slices[r])
            ctx.check(self.num(g['t'], want['t']), kind, lambda: '%s: t %r, serial %r' % (w, g['t'], want['t']))
            for k in ('q', 'aux'):
                if want[k] is None:
                    ctx.check(g[k] is None, kind, '%s: %s is not None' % (w, k))
                    continue
                ctx.same(g[k], want[k][sl], kind, '%s %s' % (w, k), self.rtol, self.atol)
                if r == 0:
                    ctx.same(g['g' + k], want[k], kind, '%s gathered %s' % (w, k), self.rtol, self.atol)
                else:
                    ctx.check(g['g' + k] is None, kind, '%s: gathered %s is not None' % (w, k))
            ctx.check(g['capa'] == want['capa'], kind, lambda: '%s: index_capa %r, serial %r' % (w, g['capa'], want['capa']))
            ctx.check(sorted(g['pd']) == sorted(want['pd']), kind, '%s: problem_data %r' % (w, g['pd']))

    def status(self, kind, what, a, b):
        ctx = self.ctx
        ctx.check((a is None) == (b is None), kind, '%s: status %r, serial %r' % (what, a, b))
        if b is None:
            return
        ctx.check(set(a) == set(b), kind, '%s: status %r, serial %r' % (what, a, b))
        for k in b:
            ctx.check(self.num(a[k], b[k]), kind, lambda: '%s: status[%s] %r, serial %r' % (what, k, a[k], b[k]))

    def job(self, vals, ser, ops, prefix='parallel', data=True):
        """Results of every operation in every process against the serial job."""
        ctx = self.ctx
        P_ = len(vals)
        for r, v in enumerate(vals):
            w = 'process %d of %d' % (r, P_)
            ctx.check([x[0] for x in v['results']] == [x[0] for x in ser['results']] and
                      all(x[1] == y[1] for x, y in zip(v['results'], ser['results']) if x[0] == 'raised'), prefix + '-outcome',
                      lambda: '%s: outcomes %s, expected %s' % (w, brief(v['results']), brief(ser['results'])))
            ctx.check(len(v['att']) == len(ser['att']), prefix + '-steps', lambda: '%s: %d attempts, serial %d' % (w, len(v['att']), len(ser['att'])))
            for k, (a, b) in enumerate(zip(v['att'], ser['att'])):
                for nm, x, y in zip(('t', 'dt', 'cfl', 'accepted', 'new t'), a, b):
                    ctx.check(x == y if nm == 'accepted' else self.num(x, y), prefix + '-step',
                              lambda: '%s: attempt %d %s %r, serial %r' % (w, k, nm, x, y))
            self.status(prefix + '-status', w, v['status'], ser['status'])
            ctx.check(v['writes'] == vals[0]['writes'], prefix + '-writes', '%s: %d writes' % (w, v['writes']))
        sls = [v['slices'] for v in vals]
        for j, s in enumerate(ser['results']):
            if s[0] != 'ok':
                continue
            got = [v['results'][j][1] for v in vals]
            what = 'operation %d %s' % (j, ops[j][0])
            if ops[j][0] in ('to', 'step'):
                for r, g in enumerate(got):
                    if s[1] == 'skip':
                        continue
                    self.status(prefix + '-status', '%s, process %d' % (what, r), g, s[1])
            elif ops[j][0] == 'run':
                for r, g in enumerate(got):
                    w = '%s, process %d' % (what, r)
                    self.status(prefix + '-status', w, g[0], s[1][0])
                    ctx.check(g[1:3] == s[1][1:3], prefix + '-frames', lambda: '%s: next frame and kept frames %r, serial %r' % (w, g[1:3], s[1][1:3]))
                for k, f in enumerate(s[1][3] if data else ()):
                    self.snaps(prefix + '-kept', '%s kept frame %d' % (what, k), [g[3][k] for g in got], f, sls)
            elif ops[j][0] in ('gather', 'copy') and data:
                self.snaps(prefix + '-' + ops[j][0], what, got, s[1], sls)
            elif ops[j][0] == 'read':
                ctx.check(all(g[0] == s[1][0] for g in got), prefix + '-read', lambda: '%s: %s, expected %s' % (what, [g[:3] if g[0] == 'missing' else g[0] for g in got], s[1][0]))
                if s[1][0] == 'frame' and data:
                    self.frame(prefix + '-read', '%s %s' % (what, ops[j][1]), [g[1] for g in got], s[1][1], ops[j][1]['fmt'])
        for r, v in enumerate(vals if data else ()):
            sl = (slice(None),) + tuple(slice(a, b) for a, b in v['slices'])
            ctx.same(v['q'], ser['q'][sl], prefix + '-q', 'process %d q' % r, self.rtol, self.atol)

    def text(self, kind, what, a, b, frac=False):
        """Lines of numbers of two files; frac: a may stop early."""
        A = [[float(x) for x in l.split()] for l in a.splitlines()]
        B = [[float(x) for x in l.split()] for l in b.splitlines()]
        ctx = self.ctx
        ctx.check(len(A) == len(B), kind, '%s: %d lines, serial %d' % (what, len(A), len(B)))
        for i, (x, y) in enumerate(zip(A, B)):
            ctx.check(len(x) == len(y), kind, '%s line %d: %d numbers, serial %d' % (what, i, len(x), len(y)))
            ctx.same(x, y, kind, '%s line %d' % (what, i), max(self.rtol, 1e-12), max(self.atol, 1e-13))

    def files(self, kind, root, sroot):
        """Functional and gauge files of the job against those of the serial run."""
        a, b = texts(root), texts(sroot)
        self.ctx.check(sorted(a) == sorted(b), kind, lambda: 'gauge and functional files %s, serial %s' % (sorted(a), sorted(b)))
        for k in b:
            self.text(kind, k, a[k], b[k])
            self.ctx.probe('F-file' if k.endswith('F.txt') else 'gauge-file')


def texts(r):
    out = {}
    for d, _, fs in os.walk(r):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.txt'):
                with open(p) as fh:
                    out[os.path.relpath(p, r)] = fh.read()
    return out


def brief(res):
    return [x[1] if x[0] == 'raised' else x[0] for x in res]


# ------------------------------------------------------------------ generators
def gen_cfg(rng, gauges=False, **kw):
    corner = rng.random() < .1
    cfg, speed, T, variable = par.gen_problem(rng, nondyadic=.8 if corner else .12, **kw)
    if corner or gauges or rng.random() < .4:
        cfg['gauges'] = D.gen_gauges(rng, cfg, rng.choice([1, 2, 3]), edges=.3)
        if rng.random() < .4:
            cfg['gfun'] = rng.choice(['scalar', 'npscalar', 'list'] + ['aux'] * bool(P.EQS[cfg['eq']].aux or cfg.get('capa')))
        cfg['keep_gauges'] = rng.random() < .4
        if corner:
            cfg['gauges'].append([float(np.nextafter(u, l)) for l, u in zip(cfg['lower'], cfg['upper'])])
    if rng.random() < .35:
        cfg['mp'] = rng.choice([1, 2, 3])
    if rng.random() < .35:
        cfg['mF'] = rng.choice([1, 2])
    cfg['assign'] = rng.choice([0, 0, 0, 0, 1, 2])
    if cfg.get('capa') and rng.random() < .5:
        cfg['map'] = rng.choice(['named', 'named', 'local'])
    return cfg, speed, T, variable


FMTS = ['petsc', 'petsc', 'petsc', 'hdf5', 'hdf5', ['petsc', 'hdf5'], ['hdf5', 'petsc']]
DIRS = ['out', 'out', 'b', 'b/c']


def gen_run(rng, cfg, T, variable, **kw):
    n = rng.choice([1, 1, 2, 3])
    if variable:
        TT = T * rng.choice([.3, .5, 1.])
    else:
        k = max(1, int(round(T / cfg['dt_initial'])) // n)
        TT = n * min(k, 2) * cfg['dt_initial']
    o = {'dir': rng.choice(DIRS), 'fmt': rng.choice(FMTS + [None]), 'style': rng.choice([1, 1, 2, 3]), 'n': n, 'T': TT,
         'nstepout': rng.choice([1, 2]), 'keep': rng.random() < .3, 'auxi': rng.random() < .4, 'auxa': rng.random() < .4,
         'p': rng.random() < .7, 'F': rng.random() < .7}
    o.update(kw)
    return o


def gen_write(rng, **kw):
    o = {'dir': rng.choice(DIRS), 'fmt': rng.choice(FMTS), 'frame': rng.choice([0, 0, 1, 2, 7]), 'aux': rng.random() < .5}
    o.update(kw)
    return o


def shrink(sc, jobs=('cl',)):
    for s in P.shrink_cfg(sc):
        yield s
    if sc['speed']:
        yield dict(sc, speed=[])
    for k in ('spikes', 'kicks', 'max_steps', 'mp', 'mF', 'assign', 'gauges', 'gfun', 'map'):
        if sc['cfg'].get(k):
            c = dict(sc['cfg'])
            c.pop(k)
            yield dict(sc, cfg=c)
    for j, op in enumerate(sc['ops']):
        if op[0] == 'run':
            for k, v in (('n', 1), ('keep', False), ('p', False), ('F', False), ('auxi', False), ('auxa', False), ('style', 1)):
                if op[1].get(k) not in (v, None):
                    ops = list(sc['ops'])
                    ops[j] = ['run', dict(op[1], **{k: v})]
                    yield dict(sc, ops=ops)
            if isinstance(op[1]['fmt'], list):
                for f in op[1]['fmt']:
                    ops = list(sc['ops'])
                    ops[j] = ['run', dict(op[1], fmt=f)]
                    yield dict(sc, ops=ops)
    for key in jobs:
        cl = sc.get(key)
        if cl and cl['P'] > 1:
            for P_ in (1, 2, 3):
                if P_ < cl['P']:
                    for g in K.factor_grids(P_, sc['cfg']['n'], K.num_ghost(sc['cfg'])):
                        yield dict(sc, **{key: dict(cl, P=P_, pgrids={str(len(g)): list(g)})})

"""C04  Controller output: right frames, and observing never disturbs the run."""
import copy
import gc
import os
import numpy as np
from .. import problems as P
from .. import drive as D
from .. import frames as F

ID = 'C04'
COUNT = {'quick': 6500, 'thorough': 250000}
TIMEOUT = 60.0
RULE = ('Each run draws a problem and a history of one to three controller runs (output style, schedule, formats, copies, '
        'gauges, aux, derived quantities, functionals, verbosity, prefix, overwrite mode, same or new controller), with '
        'rejections forced inside them and restarts from kept or stored frames.  The reference makes the same solver calls '
        'with no controller and no output.  The signature is the problem class and the sequence of runs and options.')
REAL = ['pyclaw.controller', 'pyclaw.solution', 'pyclaw.state', 'pyclaw.geometry', 'pyclaw.fileio.ascii', 'pyclaw.fileio.hdf5',
        'pyclaw.fileio.claw_vtk', 'pyclaw.solver', 'pyclaw.classic', 'pyclaw.sharpclaw', 'Fortran kernels', 'riemann solvers']
STUB = ['wave speeds over time (set by the simulator through the before_step hook)']
ASSUMPTIONS = ['hdf5 does not store problem_data, no format stores index_capa: the user sets them after reading.',
               'ascii stores nine significant digits.',
               'The functional file belongs to one run: a further run starts it again.',
               'out_times[0] is the time of the initial frame.']
PROBES = ['style-1', 'style-2', 'style-3', 'fmt-ascii', 'fmt-hdf5', 'fmt-vtk', 'fmt-none', 'fmt-list', 'keep', 'aux-init', 'aux-always',
          'p', 'F', 'gauges', 'second-run', 'same-controller', 'new-controller', 'restart-kept', 'restart-ascii', 'restart-hdf5',
          'restart-numbered', 'refused', 'fresh', 'prefix', 'options', 'rejected-in-run', 'nothing-to-do']
LISTS = ('runs', 'speed')


def gen_run(rng, cfg, k, unit):
    fixed = not cfg['dt_variable']
    style = rng.choice([1, 1, 2, 3])
    m = rng.randint(1, 4)
    r = {'style': style, 'm': m, 'keep': rng.random() < .5,
         'fmt': rng.choice([None, 'ascii', 'hdf5', ['ascii', 'hdf5'], ['hdf5'], 'ascii', 'hdf5']),
         'auxi': rng.random() < .4, 'auxa': rng.random() < .3, 'p': rng.choice([0, 0, 0, 1, 2, 3]), 'F': rng.choice([0, 0, 1, 2]),
         'verb': rng.choice([0, 0, 1, 3, 4]), 'prefix': rng.choice([None, None, None, 'sim']),
         'same': rng.random() < .5, 'opts': rng.choice([None, None, None, {'compression': 'gzip'}, {'shuffle': True, 'chunks': True}]),
         'pname': rng.choice(['claw_p', 'claw_p', 'derived']), 'Fname': rng.choice(['F', 'F', 'total'])}
    if r['fmt'] == 'hdf5' and rng.random() < .06 and len(cfg['n']) == 2:
        r['fmt'] = rng.choice(['vtk', ['vtk', 'hdf5']])
        r['prefix'] = None
        r['p'] = 0
    if r['prefix'] and r['fmt'] == ['ascii', 'hdf5']:
        r['prefix'] = None
    if r['opts'] and r['fmt'] not in ('hdf5', ['hdf5']):
        r['opts'] = None
    if style == 3:
        r['nstep'] = rng.randint(1, 3)
    elif fixed:
        r['gaps'] = [rng.randint(1, 3) if style == 2 else 2 for _ in range(m)]
    else:
        r['gaps'] = [unit * round(rng.uniform(.2, 2.), 3) for _ in range(m)]
        if style == 1:
            r['gaps'] = [r['gaps'][0]] * m
    return r


def gen(rng, i, tier):
    fixed = rng.random() < .4
    cfg = P.gen_config(rng, dims=(1, 1, 1, 1, 2, 2, 3), variable=not fixed, integrators=['SSP104', 'SSP33', 'Euler', 'RK'])
    unit = cfg['dt1'] * (cfg.get('cfl_desired') or .1)
    cfg['t0'] = rng.choice([0., 0., 0., 2., -1.])
    sc = {'cfg': cfg}
    if rng.random() < .3:
        cfg['source'] = rng.choice([-.7, .4])
    sc['speed'] = []
    if not fixed and P.EQS[cfg['eq']].mech and rng.random() < .5:
        sc['speed'] = [[cfg['t0'] + a, b] for a, b in D.gen_speed(rng, cfg, unit * 5)]
    if rng.random() < .3:
        cfg['gauges'] = D.gen_gauges(rng, cfg, rng.choice([1, 2]))
        cfg['keep_gauges'] = rng.random() < .5
    sc['runs'] = [gen_run(rng, cfg, k, unit) for k in range(rng.choice([1, 1, 2, 2, 3]))]
    sc['refuse'] = rng.choice([None, None, None, 'before', 'after', 'mid'])
    sc['fresh'] = rng.random() < .25            # first run with overwrite=False into a path that does not exist
    sc['auxt'] = bool(P.EQS[cfg['eq']].aux) and rng.random() < .4
    sc['restart'] = None
    if fixed and rng.random() < .8:
        sc['restart'] = [rng.choice(['kept', 'ascii', 'hdf5']), rng.random(), rng.random() < .5]
    sc['gc'] = rng.random() < .1
    return sc


def compute_p(mp):
    def f(state):
        if state.mp != mp:
            state.mp = mp
        for k in range(mp):
            state.p[k, ...] = state.q[0, ...] * (k + 1.5) + state.t
    return f


def want_p(q, t, mp):
    return np.array([q[0] * (k + 1.5) + t for k in range(mp)])


def compute_F(mF):
    def f(state):
        if state.mF != mF:
            state.mF = mF
        for k in range(mF):
            state.F[k, ...] = state.q[k % state.num_eqn, ...] ** 2 - .25 * k
    return f


def want_F(q, mF):
    return [float(np.sum(np.abs(q[k % q.shape[0]] ** 2 - .25 * k))) for k in range(mF)]


class Sim(D.Quiet):
    """Problem with speed profile and time-dependent aux (a legal use of before_step)."""

    def __init__(self, cfg, sc):
        self.sc = sc
        self.n = 0
        D.Quiet.__init__(self, cfg, sc['speed'] or ([[-1e9, 1.0]] if sc['auxt'] else None))

    def before_step(self, solver, state):
        self.n += 1
        if self.n > 1500 or not np.all(np.isfinite(state.q)) or np.max(np.abs(state.q)) > 100.0:
            raise D.Stop()                      # the numerical solution blew up: nothing to judge
        D.Quiet.before_step(self, solver, state)
        if self.sc['auxt'] and not self.sc['speed']:
            state.aux[...] = self.prob.aux0 * (1.0 + .0625 * np.sin(state.t))


def times_of(cfg, r, t0, dt):
    if cfg['dt_variable']:
        g = np.cumsum(r['gaps'])
        return [float(t0 + x) for x in g]
    return [float(t0 + int(x) * dt) for x in np.cumsum(r['gaps'])]


def run(sc, ctx):
    cfg = sc['cfg']
    from clawpack import pyclaw
    ctx.tok(D.cfg_rng_label(cfg) + cfg['eq'])
    dt = cfg['dt_initial']
    a, b = Sim(cfg, sc), Sim({k: v for k, v in cfg.items() if k != 'gauges'}, sc)
    outdir = os.path.join(ctx.root, 'out')
    if not sc['fresh'] and sc['refuse'] is None:
        os.makedirs(outdir)
    c = None
    start = 0
    kept = []                    # (solution copy, snap, hash when kept)
    expected = {}                # file name -> ('frame', snap, fmt, prefix, frame, auxwritten)
    stored = []                  # (fmt, prefix, frame, snap, auxsnap)
    first = True
    aux_frame0 = {}
    if sc['refuse'] == 'before':
        refuse(ctx, pyclaw, a, sc, outdir, cfg)
    allsnaps = []
    for ri, r in enumerate(sc['runs']):
        ctx.tok('%d%s%s%s%s%s%s' % (r['style'], 'k' if r['keep'] else '', fmts(r), 'a' if r['auxa'] else 'i' if r['auxi'] else '',
                                   'p' if r['p'] else '', 'F' if r['F'] else '', 'S' if r['same'] else 'N'))
        ctx.fault('observer-options')
        if c is None or not r['same']:
            if c is not None:
                ctx.probe('new-controller')
            c = pyclaw.Controller()
            nkept = 0
        else:
            ctx.probe('same-controller')
            nkept = len(c.frames)
        if ri:
            ctx.probe('second-run')
        c.solver, c.solution = a.solver, a.solution
        c.outdir = outdir
        c.verbosity = r['verb']
        c.output_format = r['fmt']
        c.keep_copy = r['keep']
        c.write_aux_init, c.write_aux_always = r['auxi'], r['auxa']
        c.output_file_prefix = r['prefix']
        c.file_prefix_p, c.F_file_name = r.get('pname', 'claw_p'), r.get('Fname', 'F')
        c.output_options = dict(r['opts'] or {})
        c.compute_p = compute_p(r['p']) if r['p'] else None
        if r['p']:
            a.solution.state.p = None
            a.solution.state.mp = r['p']
        c.compute_F = compute_F(r['F']) if r['F'] else None
        if r['F']:
            a.solution.state.F = None
            a.solution.state.mF = r['F']
        c.overwrite = True
        if first and sc['fresh'] and not os.path.exists(outdir):
            c.overwrite = False
            ctx.probe('fresh')
        probes(ctx, r, cfg)
        c.output_style = r['style']
        t0 = float(a.solution.t)
        if r['style'] == 3:
            c.num_output_times = r['m'] + start
            c.nstepout = r['nstep']
            goals = None
        else:
            goals = times_of(cfg, r, t0, dt)
            if r['style'] == 1:
                c.tfinal = goals[-1]
                c.num_output_times = r['m']
                goals = [float(x) for x in np.linspace(t0, goals[-1], r['m'] + 1)[1:]]
            else:
                c.out_times = [t0] + goals
        # ---- reference: the same calls, nobody watching
        snaps, err = reference(b, r, goals, first)
        if isinstance(err, D.Stop):
            ctx.probe('left-range')
            return
        ctx.check(err is None or cfg['dt_variable'] is False, 'reference', repr(err))
        if err is not None:
            return                                  # fixed step too large for this solution: nothing to compare
        st, res = None, None
        try:
            res = c.run()
        finally:
            if sc['gc']:
                gc.collect()
        # ---- the solution object and the status
        n = len(snaps) - 1
        ctx.check(float(a.solution.t) == snaps[-1].t, 'trajectory', 'run %d ends at %r, unobserved run at %r' % (ri, a.solution.t, snaps[-1].t))
        ctx.same(a.solution.state.q, snaps[-1].q, 'trajectory', 'q after run %d' % ri)
        ctx.check(isinstance(res, dict) and res['numsteps'] == b.solver.status['numsteps'], 'status', '%r vs %r' % (res, b.solver.status))
        for k in ('cflmax', 'dtmin', 'dtmax'):
            ctx.check(res[k] == b.solver.status[k], 'status', '%s %r vs %r' % (k, res[k], b.solver.status[k]))
        if goals is not None:
            for g, s in zip(goals, snaps[1:]):
                ctx.check(abs(s.t - g) <= 4 * abs(np.spacing(max(abs(g), abs(t0)))) + 1e-12 * abs(g - t0), 'frame-time', 'frame at %r, requested %r' % (s.t, g))
        # ---- frames kept in memory
        if r['keep']:
            new = c.frames[nkept:]
            ctx.check(len(new) == n + 1, 'frame-count', '%d frames kept, expected %d' % (len(new), n + 1))
            for k, (fr, s) in enumerate(zip(new, snaps)):
                F.compare(ctx, fr, s, F.PREC['hdf5'], 'kept-frame', 'kept frame %d of run %d' % (k, ri),
                          aux=[x['aux'] for x in s.states], pd=True)
                ctx.check(int(fr.state.index_capa) == s.states[0]['capa'], 'kept-frame', 'index_capa')
                kept.append((fr, F.Snap(fr)))
        else:
            ctx.check(len(c.frames) == nkept, 'frame-count', 'frames kept without keep_copy')
        # ---- files
        for k, s in enumerate(snaps):
            fr = start + k
            auxw = (r['auxa'] or (r['auxi'] and k == 0)) and s.states[0]['num_aux'] > 0
            for fmt in fmt_list(r):
                for f in F.files_of(fr, fmt, r['prefix'], auxw):
                    expected[f] = True
                if fmt == 'vtk':
                    check_vtk(ctx, outdir, fr, s)
                if fmt != 'vtk':
                    stored = [x for x in stored if not (x[0] == fmt and x[1] == r['prefix'] and x[2] == fr)]
                    stored.append((fmt, r['prefix'], fr, s, auxw))
                if r['p'] and fmt != 'vtk':
                    for f in F.files_of(fr, fmt, r.get('pname', 'claw_p'), False):
                        expected['_p/' + f] = True
                    po = F.read(pyclaw, fr, os.path.join(outdir, '_p'), fmt, r.get('pname', 'claw_p'), read_aux=False)
                    # an ascii header of the same prefix and number decides the format that is read
                    tol = F.PREC['ascii' if 'ascii' in fmt_list(r) else fmt]
                    ctx.same([float(po.t)], [s.t], 'p-file', 'time of p file %d' % fr, **tol)
                    ctx.same(po.state.q, want_p(s.q, s.t, r['p']), 'p-file', 'p of frame %d' % fr, **(tol if tol['rtol'] else dict(rtol=1e-13, atol=1e-13)))
        if r['F']:
            Ffile = r.get('Fname', 'F') + '.txt'
            expected[Ffile] = True
            with open(os.path.join(outdir, Ffile)) as fh:
                rows = [[float(x) for x in l.split()] for l in fh.read().splitlines()]
            ctx.check(len(rows) == n + 1, 'F-rows', '%d rows for %d frames' % (len(rows), n + 1))
            for k, (row, s) in enumerate(zip(rows, snaps)):
                ctx.check(row[0] == s.t, 'F-rows', 'row %d at t=%r, frame at %r' % (k, row[0], s.t))
                ctx.same(row[1:], want_F(s.q, r['F']), 'F-rows', 'row %d' % k, rtol=1e-12, atol=1e-13)
        have = set(f for f in F.tree(outdir) if not f.endswith('/')) if os.path.isdir(outdir) else set()
        have = set(f for f in have if not f.startswith('_gauges') and not is_vtk(f))
        ctx.check(have == set(expected), 'files', 'run %d: unexpected %s, missing %s' % (ri, sorted(have - set(expected)), sorted(set(expected) - have)))
        ctx.ev('run', ri, snaps[-1].t, snaps[-1].q, sorted(expected))
        start += n + 1
        first = False
        allsnaps += snaps
        if sc['refuse'] == 'mid' and ri == 0:
            refuse(ctx, pyclaw, a, sc, outdir, cfg)
    if b.solver.status.get('numsteps', 0) and a.n > a.solver.status['numsteps']:
        ctx.fault('step-rejected', a.n - int(a.solver.status['numsteps']) if cfg['solver'] == 'classic' else 0)
        ctx.probe('rejected-in-run')
    # ---- everything stored still reads back, everything kept is as it was
    for fmt, prefix, fr, s, auxw in stored:
        so = F.read(pyclaw, fr, outdir, fmt, prefix)
        F.compare(ctx, so, s, F.PREC[fmt], 'stored-frame', '%s frame %d' % (fmt, fr),
                  aux=[x['aux'] for x in s.states] if auxw else None, pd=fmt == 'ascii')
    if sc['refuse'] == 'after':
        refuse(ctx, pyclaw, a, sc, outdir, cfg)
    st = a.solution.state
    st.q[...] = -7.0
    if st.aux is not None:
        st.aux[...] = -9.0
    for k in list(st.problem_data):
        if isinstance(st.problem_data[k], float):
            st.problem_data[k] = 123.0
    for k, (fr, s) in enumerate(kept):
        ctx.check(F.Snap(fr).same_as(s), 'kept-frame-changed', 'kept frame %d (t=%r) is no longer what it was' % (k, s.t))
    if sc['restart'] and not cfg['dt_variable']:
        restart(ctx, pyclaw, sc, cfg, outdir, kept, stored, allsnaps, dt)
    ctx.simtime += abs(allsnaps[-1].t - allsnaps[0].t) if allsnaps else 0
    ctx.steps += int(b.solver.status.get('numsteps', 0))


def check_vtk(ctx, outdir, frame, s):
    import re
    n = 'claw%04d' % frame
    with open(os.path.join(outdir, n, n + '_0.vti')) as fh:
        txt = fh.read()
    for m in range(s.q.shape[0]):
        g = re.search(r'<DataArray[^>]*Name="q_%d"[^>]*>([^<]*)<' % m, txt)
        ctx.check(g is not None, 'vtk', 'frame %d: no array q_%d' % (frame, m))
        v = np.array([float(x) for x in g.group(1).split()])
        ctx.same(v, s.q[m].ravel(order='F'), 'vtk', 'frame %d q_%d' % (frame, m), rtol=1e-5, atol=1e-6)


def is_vtk(f):
    return f.endswith('.vthb') or f.endswith('.vti')


def fmt_list(r):
    return [] if r['fmt'] is None else r['fmt'] if isinstance(r['fmt'], list) else [r['fmt']]


def fmts(r):
    return ''.join(f[0] for f in fmt_list(r)) or '-'


def probes(ctx, r, cfg):
    ctx.probe('style-%d' % r['style'])
    for f in fmt_list(r):
        ctx.probe('fmt-' + f)
    if r['fmt'] is None:
        ctx.probe('fmt-none')
    if isinstance(r['fmt'], list):
        ctx.probe('fmt-list')
    for k, n in (('keep', 'keep'), ('auxi', 'aux-init'), ('auxa', 'aux-always'), ('p', 'p'), ('F', 'F'), ('prefix', 'prefix'), ('opts', 'options')):
        if r[k]:
            ctx.probe(n)
    if cfg.get('gauges'):
        ctx.probe('gauges')


def reference(b, r, goals, first):
    s, sol = b.solver, b.solution
    if first:
        s.setup(sol)
        s.dt = s.dt_initial
    snaps = [F.Snap(sol)]
    try:
        if goals is None:
            for k in range(r['m']):
                for j in range(r['nstep']):
                    s.evolve_to_time(sol)
                snaps.append(F.Snap(sol))
        else:
            for g in goals:
                s.evolve_to_time(sol, g)
                snaps.append(F.Snap(sol))
    except D.Violation:
        raise
    except Exception as e:
        return snaps, e
    return snaps, None


def refuse(ctx, pyclaw, a, sc, outdir, cfg):
    """overwrite=False and the directory exists: nothing in it may change."""
    if not os.path.isdir(outdir):
        os.makedirs(os.path.join(outdir, '_gauges'))
        with open(os.path.join(outdir, 'F.txt'), 'w') as f:
            f.write('precious\n')
        with open(os.path.join(outdir, '_gauges', 'gauge0.5.txt'), 'w') as f:
            f.write('precious\n')
        mine = True
    else:
        mine = False
    before = F.tree(outdir)
    other = Sim(cfg, dict(sc, speed=[], auxt=False))
    c = pyclaw.Controller()
    c.verbosity = 0
    c.solver, c.solution = other.solver, other.solution
    c.outdir = outdir
    c.overwrite = False
    c.keep_copy = True
    r = sc['runs'][0]
    c.output_format = r['fmt']
    if r['F']:
        c.compute_F = compute_F(r['F'])
        other.solution.state.mF = r['F']
    if r['p']:
        c.compute_p = compute_p(r['p'])
        other.solution.state.mp = r['p']
    c.num_output_times = 1
    c.tfinal = float(other.solution.t) + cfg['dt_initial'] * 2
    err = None
    try:
        c.run()
    except Exception as e:
        err = e
    ctx.probe('refused' if err else 'nothing-to-do')
    ctx.fault('existing-directory')
    after = F.tree(outdir)
    ctx.check(before == after, 'overwrote', 'existing output directory changed: %s' % sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))[:5])
    writes = r['fmt'] is not None or r['F'] or cfg.get('gauges')
    ctx.check(err is not None or not writes, 'not-refused', 'overwrite=False and the run did not refuse')
    for f in other.solution.state.grid.gauge_files:
        f.close()
    if mine:
        os.unlink(os.path.join(outdir, 'F.txt'))
        os.unlink(os.path.join(outdir, '_gauges', 'gauge0.5.txt'))
        os.rmdir(os.path.join(outdir, '_gauges'))


def restart(ctx, pyclaw, sc, cfg, outdir, kept, stored, snaps, dt):
    """Continue from a kept or stored frame with a new solver: same trajectory."""
    how, frac, numbered = sc['restart']
    if how == 'kept':
        if not kept:
            return
        fr, s0 = kept[int(frac * len(kept))]
        sol = fr
        ctx.probe('restart-kept')
        tol = dict(rtol=0.0, atol=0.0)
        frame = 0
    else:
        c = [x for x in stored if x[0] == how]
        if not c:
            return
        fmt, prefix, frame, s0, auxw = c[int(frac * len(c))]
        kw = {'count_from_zero': False} if numbered else {}
        sol = pyclaw.Solution(frame, path=outdir, file_format=fmt, file_prefix=prefix or F.PREFIX[fmt], **kw)
        if numbered:
            ctx.probe('restart-numbered')
        ctx.probe('restart-' + how)
        st = sol.state
        if fmt == 'hdf5':
            st.problem_data = dict(s0.states[0]['pd'])
        st.index_capa = s0.states[0]['capa']
        if st.num_aux > 0 and not auxw:
            st.aux = np.array(s0.states[0]['aux'], order='F')
        tol = dict(rtol=0.0, atol=0.0) if fmt == 'hdf5' else dict(rtol=1e-5, atol=1e-5)
    ctx.fault('restart')
    t0 = s0.t
    later = []
    for s in snaps:
        if s.t > t0 and (not later or s.t > later[-1].t):
            later.append(s)
    ctx.ev('restart', how, t0, len(later))
    if not later:
        return
    o = Sim({k: v for k, v in cfg.items() if k != 'gauges'}, dict(sc, speed=[]))
    sv = o.solver
    o.solution = sol
    o.prob.solution = sol
    c = pyclaw.Controller()
    c.verbosity = 0
    c.solver, c.solution = sv, sol
    c.keep_copy = True
    c.outdir = os.path.join(ctx.root, 'out2')
    c.output_format = 'hdf5'
    c.output_style = 2
    c.out_times = [t0] + [s.t for s in later]
    sv.dt_variable = False
    if abs(float(sol.t) - t0) > 5e-6 * dt:
        return              # nine digits of time: the fixed step does not divide what is left
    c.run()
    ctx.check(len(c.frames) == len(later) + 1, 'restart-frames', '%d frames' % len(c.frames))
    want = frame if numbered and how != 'kept' else 0
    names = sorted(os.listdir(c.outdir))
    exp = ['claw%04d.hdf' % (want + k) for k in range(len(later) + 1)]
    ctx.check(names == exp, 'restart-numbering', '%r expected %r' % (names, exp))
    for fr, s in zip(c.frames[1:], later):
        ctx.same([float(fr.t)], [s.t], 'restart-time', 'restarted from %s at %r' % (how, t0), **(tol if tol['rtol'] else dict(rtol=1e-14, atol=1e-300)))
        ctx.same(fr.state.q, s.q, 'restart-differs', 'restarted from %s frame at t=%r, at t=%r' % (how, t0, s.t), **tol)


def shrink(sc):
    for k, v in (('restart', None), ('refuse', None), ('fresh', False), ('auxt', False), ('gc', False)):
        if sc.get(k):
            yield dict(sc, **{k: v})
    for ri, r in enumerate(sc['runs']):
        for k, v in (('p', 0), ('F', 0), ('auxi', False), ('auxa', False), ('keep', False), ('prefix', None), ('pname', 'claw_p'), ('Fname', 'F'), ('opts', None), ('verb', 0)):
            if r.get(k):
                yield dict(sc, runs=sc['runs'][:ri] + [dict(r, **{k: v})] + sc['runs'][ri + 1:])
        if r['m'] > 1:
            n = dict(r, m=1)
            if 'gaps' in n:
                n['gaps'] = n['gaps'][:1]
            yield dict(sc, runs=sc['runs'][:ri] + [n] + sc['runs'][ri + 1:])
    for s in P.shrink_cfg(sc):
        yield s

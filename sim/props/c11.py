"""C11  Simulations in one process do not affect each other."""
import gc
import hashlib
import os
import numpy as np
from .. import problems as P
from .. import drive as D

ID = 'C11'
COUNT = {'quick': 7000, 'thorough': 200000}
TIMEOUT = 90.0
RULE = ('Each run draws a target simulation (problem, solver with all or with none of its options set, evolve calls or a controller '
        'with files, gauges and functionals) and a history of other simulations of the same process: run, cut short by an exception '
        'of a hook, failed by Courant number or step limit, only constructed, only set up, re-run, with frames written and '
        'read (and failing to read), before the target is built, between building and running it, or (with another Riemann solver) between two of its evolve calls.  '
        'Their objects are dropped, kept or put into cycles, and collected at seeded steps of the target (automatic collection is off).  '
        'The target in a fresh process is the oracle: steps, Courant numbers, solution, status, files, exceptions must be identical.  '
        'The signature is the target class, the history kinds and the collection points.')
REAL = ['pyclaw.solver', 'pyclaw.controller', 'pyclaw.classic', 'pyclaw.sharpclaw', 'pyclaw.state', 'pyclaw.solution', 'pyclaw.fileio ascii, hdf5',
        'Fortran kernels and their module data', 'riemann solvers and their common blocks', 'forestclaw.fileio']
STUB = ['garbage-collection timing (seeded)', 'failures of the other simulations (raised from their hooks)']
ASSUMPTIONS = ['Between two evolve calls of a simulation only simulations with another Riemann solver run (the parameters of a Riemann '
               'solver live in one Fortran common block per solver library).']
PROBES = ['hist-run', 'hist-hook-raises', 'hist-too-large-step', 'hist-gives-up', 'hist-built', 'hist-setup', 'hist-frames', 'hist-bad-read', 'hist-ctrl',
          'drop', 'keep', 'cycle', 'gc-in-target', 'between', 'after-build', 'bare', 'target-ctrl', 'target-sharp', 'target-python', 'same-rp',
          'same-class-other-size', '2d', '3d', 'sharp-after-sharp', 'classic-after-classic', 'custom-bc', 'teardown', 'ascii', 'hdf5', 'forest', 'again']
LISTS = ('hist', 'between', 'gc')
INTEG = ['SSP104', 'SSP33', 'Euler', 'RK', 'SSPLMMk2', 'SSPLMMk3']


def small(rng, cfg):
    """Keep the others cheap."""
    return cfg


def gen(rng, i, tier):
    if i % 400 == 77:
        return {'family': 'forest', 'n': rng.randint(4, 9), 'ic': rng.randint(1, 10 ** 6), 'hist': [], 'between': [], 'gc': []}
    variable = rng.random() < .75
    dims = rng.choice([(1,), (1, 2), (1, 2, 2, 3)])
    cfg = P.gen_config(rng, dims=dims, variable=variable, integrators=INTEG if variable else ['SSP104', 'RK', 'LMM', 'SSP33'])
    if cfg['eq'] == 'euler3':
        cfg['dt_initial'] = min(cfg['dt_initial'], 1.5 * cfg['dt1'])
    if rng.random() < .2:
        cfg['source'] = rng.choice([.5, -1.0])
        if cfg['solver'] == 'classic':
            cfg['source_split'] = rng.choice([1, 2])
    sc = {'family': 'sim', 'cfg': cfg, 'bare': rng.random() < .25, 'mode': rng.choice(['evolve', 'evolve', 'ctrl']),
          'calls': rng.choice([1, 2, 3]), 'fmt': rng.choice(['ascii', 'ascii', 'hdf5', None]), 'F': rng.random() < .3, 'gauges': rng.random() < .3,
          'speed': []}
    if P.EQS[cfg['eq']].mech and variable and rng.random() < .5 and not sc['bare'] and not cfg.get('integrator', '').startswith('SSPLMM'):
        sc['speed'] = D.gen_speed(rng, cfg, cfg['dt1'] * (cfg.get('cfl_desired') or .1) * 6)
    sc['hist'] = [gen_item(rng, cfg, dims) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    sc['late'] = rng.random() < .25
    sc['between'] = []
    if rng.random() < .3 and sc['calls'] > 1 and sc['mode'] == 'evolve':
        for _ in range(rng.choice([1, 2])):
            it = gen_item(rng, cfg, dims)
            if P.EQS[it['cfg']['eq']].f != P.EQS[cfg['eq']].f:
                sc['between'].append(it)
    sc['gc'] = sorted(set(rng.randint(0, 12) for _ in range(rng.choice([0, 1, 2, 3]))))
    sc['again'] = rng.random() < .15
    return sc


def gen_item(rng, cfg, dims):
    x = rng.random()
    if x < .3:
        # the same kind of solver with another size or parameters
        c = P.gen_config(rng, dims=(len(cfg['n']),), solver=cfg['solver'], integrators=INTEG, eqs=[cfg['eq']] if rng.random() < .6 else None)
        if P.EQS[c['eq']].mech and not P.EQS[c['eq']].mech.startswith('aux'):
            c['pd'] = {P.EQS[c['eq']].mech: P.EQS[c['eq']].pd[P.EQS[c['eq']].mech] * rng.choice([.5, 1.5])}
            if c['pd'].get('cc'):
                c['pd']['zz'] = 1.5
    else:
        c = P.gen_config(rng, dims=dims, integrators=INTEG)
    if c['eq'] == 'euler3':
        c['dt_initial'] = min(c['dt_initial'], 1.5 * c['dt1'])
    if rng.random() < .2:
        c['source'] = .5
    return {'cfg': c, 'what': rng.choice(['run', 'run', 'run', 'hook', 'bigstep', 'giveup', 'built', 'setup', 'frames', 'badread', 'ctrl', 'ctrl']),
            'steps': rng.randint(1, 4), 'fmt': rng.choice(['ascii', 'hdf5']), 'refs': rng.choice(['drop', 'drop', 'keep', 'cycle']),
            'tear': rng.random() < .1}


# ---------------------------------------------------------------- the other simulations
class HookFailure(Exception):
    pass


def other(ctx, pyclaw, it, root, store):
    """Run one item of the history; whatever it raises stays with it."""
    cfg = dict(it['cfg'])
    what = it['what']
    ctx.tok(what + it['refs'][0] + cfg['solver'][0])
    k = [0]

    def bs(solver, state):
        k[0] += 1
        if what == 'hook' and k[0] > it['steps']:
            raise HookFailure()
        if k[0] > 60 or not np.all(np.isfinite(state.q)) or np.max(np.abs(state.q)) > 100.:
            raise HookFailure()
    unit = cfg['dt1'] * (cfg.get('cfl_desired') or .1)
    p = P.build(cfg, before_step=bs)
    s, sol = p.solver, p.solution
    s.bc_lower[0], s.bc_upper[0] = s.bc_lower[0], s.bc_upper[0]
    sol.state.problem_data['other'] = 17
    sol.state.grid.add_gauges([tuple(.5 * (a + b) for a, b in zip(cfg['lower'], cfg['upper']))])
    sol.state.keep_gauges = True
    t = float(sol.t)
    try:
        if what in ('run', 'hook'):
            ctx.probe('hist-run' if what == 'run' else 'hist-hook-raises')
            sol.state.grid.setup_gauge_files(root)
            s.evolve_to_time(sol, t + it['steps'] * unit)
        elif what == 'bigstep':
            ctx.probe('hist-too-large-step')
            s.dt_variable = False
            sol.state.grid.setup_gauge_files(root)
            s.dt = s.dt_initial = 12 * cfg['dt1'] if cfg['eq'] != 'euler3' else cfg['dt1'] * 1.1
            s.evolve_to_time(sol, t + 2 * s.dt)
        elif what == 'giveup':
            ctx.probe('hist-gives-up')
            s.max_steps = it['steps']
            sol.state.grid.setup_gauge_files(root)
            s.evolve_to_time(sol, t + 20 * unit)
        elif what == 'setup':
            ctx.probe('hist-setup')
            s.setup(sol)
        elif what == 'built':
            ctx.probe('hist-built')
        elif what in ('frames', 'badread'):
            sol.write(0, path=root, file_format=it['fmt'], file_prefix='claw', write_aux=sol.num_aux > 0, options={'x': 1} if it['fmt'] == 'ascii' else {})
            if what == 'frames':
                ctx.probe('hist-frames')
                r = pyclaw.Solution(0, path=root, file_format=it['fmt'], file_prefix='claw', read_aux=sol.num_aux > 0)
                store.append(r)
            else:
                ctx.probe('hist-bad-read')
                pyclaw.Solution(3, path=root, file_format=it['fmt'], file_prefix='claw')
        elif what == 'ctrl':
            ctx.probe('hist-ctrl')
            c = pyclaw.Controller()
            c.verbosity = 0
            c.solver, c.solution = s, sol
            c.outdir, c.output_format = root, it['fmt']
            if it['fmt'] == 'ascii':
                c.output_options['other'] = 1
            c.keep_copy = True
            c.write_aux_always = True
            c.num_output_times = it['steps']
            c.tfinal = t + it['steps'] * unit
            sol.state.mF = 1

            def cf(state):
                state.F[0, ...] = state.q[0, ...]
            c.compute_F = cf
            if it['refs'] != 'drop':
                store.append(c)
            c.run()
    except HookFailure:
        ctx.fault('other-simulation-raised')
    except Exception:
        ctx.fault('other-simulation-failed')
    else:
        ctx.fault('other-simulation')
    if it['tear'] and s._is_set_up and hasattr(s, 'teardown'):
        ctx.probe('teardown')
        s.teardown()
    ctx.probe(it['refs'])
    if it['refs'] == 'keep':
        store.append(p)
    elif it['refs'] == 'cycle':
        p.me = [p]
        p.state.problem_data['me'] = p


# ---------------------------------------------------------------- the target
def make_target(ctx, pyclaw, sc, watch):
    cfg = dict(sc['cfg'])
    if sc['bare']:
        # nothing is set that has a default
        eq = P.EQS[cfg['eq']]
        p = P.build(cfg)
        cls = type(p.solver)
        s = cls(P.resolve_rp(cfg))
        s.kernel_language = cfg.get('kernel', 'Fortran')
        s.num_eqn, s.num_waves, s.fwave = p.solver.num_eqn, p.solver.num_waves, p.solver.fwave
        for d in range(eq.dim):
            lo, up = cfg['bc'][d]
            s.bc_lower[d] = P.bc_code(pyclaw, lo if lo != 'custom' else 'extrap')
            s.bc_upper[d] = P.bc_code(pyclaw, up if up != 'custom' else 'extrap')
            s.aux_bc_lower[d], s.aux_bc_upper[d] = s.bc_lower[d], s.bc_upper[d]
        if cfg['solver'] == 'classic' and eq.dim > 1 and (not eq.rpt or eq.dim == 3):
            s.dimensional_split = True
        s.dt_initial = s.dt = .3 * cfg['dt1'] * (.1 if cfg['solver'] == 'sharp' else .5)
        p.solver = s
    else:
        p = P.build(cfg)
    p.solver.before_step = watch
    if sc['gauges']:
        p.state.grid.add_gauges([tuple(.5 * (a + b) for a, b in zip(cfg['lower'], cfg['upper']))])
    return p


def target(ctx, pyclaw, sc, root, before=None, between=None, gcs=(), note=True):
    """Runs the target; returns everything observable about it, in order."""
    cfg = sc['cfg']
    log = []
    steps = [0]
    box = [None]

    def watch(solver, state):
        p = box[0]
        if sc['speed']:
            P.set_speed(p, state, D.speed_of(sc['speed'], state.t))
        if state is not p.solution.states[0]:
            return
        if steps[0] in gcs:
            ctx.fault('garbage-collection')
            ctx.probe('gc-in-target')
            ctx.tok('g%d' % steps[0])
            gc.collect()
        steps[0] += 1
        log.append(('step', float(state.t).hex(), float(solver.dt).hex(), h(state.q), h(state.aux)))
        if steps[0] > 80 or not np.all(np.isfinite(state.q)) or np.max(np.abs(state.q)) > 100.:
            raise D.Stop()
    p = box[0] = make_target(ctx, pyclaw, sc, watch)
    s, sol = p.solver, p.solution
    if sc['speed'] and cfg['solver'] == 'sharp':
        s.call_before_step_each_stage = True
    if before is not None:
        before()
    unit = cfg['dt1'] * (cfg.get('cfl_desired') or .1)
    if sc['bare']:
        unit = cfg['dt1'] * .4
    fixed = not s.dt_variable
    try:
        if sc['mode'] == 'evolve':
            if sc['gauges']:
                sol.state.grid.setup_gauge_files(root)
            for k in range(sc['calls']):
                if k and between is not None:
                    between()
                if fixed:
                    s.evolve_to_time(sol, float(sol.t) + 3 * s.dt)
                else:
                    s.evolve_to_time(sol, float(sol.t) + unit * 2)
                log.append(('call', float(sol.t).hex(), status(s.status), h(sol.state.q)))
        else:
            c = pyclaw.Controller()
            log.append(('defaults', c.output_style, c.num_output_times, c.nstepout, str(c.output_format), c.keep_copy, sorted(map(str, c.output_options)),
                        c.output_file_prefix, c.write_aux_init, c.write_aux_always, len(c.frames), c.overwrite))
            c.verbosity = 0
            c.solver, c.solution = s, sol
            c.outdir = root
            c.output_format = sc['fmt']
            c.keep_copy = True
            if sc['F']:
                sol.state.mF = 1

                def cf(state):
                    state.F[0, ...] = state.q[0, ...] ** 2
                c.compute_F = cf
            if fixed:
                c.output_style, c.nstepout, c.num_output_times = 3, 1, sc['calls']
            else:
                c.num_output_times = sc['calls']
                c.tfinal = float(sol.t) + unit * 2 * sc['calls']
            r = c.run()
            log.append(('run', float(sol.t).hex(), status(r), h(sol.state.q)))
            for f in c.frames:
                log.append(('frame', float(f.t).hex(), h(f.state.q)))
            if sc['fmt']:
                for k in range(len(c.frames)):
                    rd = pyclaw.Solution(k, path=root, file_format=sc['fmt'], file_prefix='claw' if c.output_file_prefix is None and sc['fmt'] == 'hdf5' else 'fort',
                                         read_aux=False)
                    log.append(('read', k, float(rd.t).hex(), h(rd.state.q), sorted(str(x) for x in (rd.state.problem_data or {}))))
    except D.Stop:
        log.append(('stop',))
    except Exception as e:
        log.append(('raised', type(e).__name__, str(e).replace(root, 'ROOT')))
    D.flush_gauges(sol.state)
    log.append(('pd', sorted('%s=%r' % (k, v) for k, v in sol.state.problem_data.items())))
    log.append(('gauges', len(sol.state.grid.gauges), len(sol.state.gauge_data), len(sol.state.grid.gauge_files)))
    log.append(('files', files(root)))
    if note:
        ctx.steps += steps[0]
        ctx.simtime += float(sol.t)
    return [list(map(str, x)) for x in log]


def h(a):
    if a is None:
        return 'none'
    return hashlib.sha1(np.asarray(a, order='C').tobytes()).hexdigest()[:20] + str(a.shape)


def status(d):
    return sorted((k, float(v).hex()) for k, v in (d or {}).items())


def files(root):
    out = []
    for dp, dn, fn in os.walk(root):
        for f in fn:
            with open(os.path.join(dp, f), 'rb') as fh:
                out.append((os.path.relpath(os.path.join(dp, f), root), hashlib.sha1(fh.read()).hexdigest()[:16]))
    return sorted(out)


def run(sc, ctx):
    from clawpack import pyclaw
    if sc['family'] == 'forest':
        return forest(sc, ctx, pyclaw)
    cfg = sc['cfg']
    d = len(cfg['n'])
    for c, n in ((d == 2, '2d'), (d == 3, '3d'), (sc['bare'], 'bare'), (sc['mode'] == 'ctrl', 'target-ctrl'), (cfg['solver'] == 'sharp', 'target-sharp'),
                 (cfg.get('kernel') == 'Python', 'target-python'), (any('custom' in b for b in cfg['bc']), 'custom-bc'),
                 (any(h_['cfg']['eq'] == cfg['eq'] for h_ in sc['hist']), 'same-rp'),
                 (any(h_['cfg']['eq'] == cfg['eq'] and h_['cfg']['solver'] == cfg['solver'] and h_['cfg']['n'] != cfg['n'] for h_ in sc['hist']), 'same-class-other-size'),
                 (cfg['solver'] == 'sharp' and any(h_['cfg']['solver'] == 'sharp' for h_ in sc['hist']), 'sharp-after-sharp'),
                 (cfg['solver'] == 'classic' and any(h_['cfg']['solver'] == 'classic' for h_ in sc['hist']), 'classic-after-classic')):
        if c:
            ctx.probe(n)
    if sc['mode'] == 'ctrl' and sc['fmt']:
        ctx.probe(sc['fmt'])
    ctx.tok(D.cfg_rng_label(cfg) + cfg['eq'] + sc['mode'] + ('b' if sc['bare'] else ''))
    # in a fresh process
    want = ctx.fork(lambda cx: target(cx, pyclaw, sc, cx.dir('fresh'), note=False))
    # after the history
    gc.disable()
    store = []
    n = [0]

    def items(lst):
        def go():
            for it in lst:
                n[0] += 1
                other(ctx, pyclaw, it, ctx.dir('other%d' % n[0]), store)
        return go
    hist = items(sc['hist'])
    if not sc['late']:
        hist()
    else:
        ctx.probe('after-build')
    btw = None
    if sc['between']:
        ctx.probe('between')
        btw = items(sc['between'])
    got = target(ctx, pyclaw, sc, ctx.dir('target'), before=hist if sc['late'] else None, between=btw, gcs=set(sc['gc']))
    compare(ctx, got, want, 'after the history')
    if sc['again']:
        ctx.probe('again')
        store = []
        gc.collect()
        got = target(ctx, pyclaw, sc, ctx.dir('target2'), gcs=())
        compare(ctx, got, want, 'a second time')
    ctx.ev('log', [' '.join(x) for x in want])


def compare(ctx, got, want, when):
    for k, (a, b) in enumerate(zip(got, want)):
        ctx.check(a == b, 'differs-from-fresh-process', '%s: event %d is %s, in a fresh process %s' % (when, k, diff(a, b), diff(b, a)))
    ctx.check(len(got) == len(want), 'differs-from-fresh-process', '%s: %d events, %d in a fresh process; first extra %s' % (
        when, len(got), len(want), (got + want)[min(len(got), len(want))]))


def diff(a, b):
    return a if len(a) != len(b) else [a[0]] + [x for x, y in zip(a, b) if x != y]


# ---------------------------------------------------------------- forestclaw
def ascii_target(ctx, pyclaw, sc, root):
    """Write and read an ordinary ascii frame."""
    x = pyclaw.Dimension(0., 1., sc['n'], name='x')
    dom = pyclaw.Domain(x)
    st = pyclaw.State(dom, 1)
    st.q[...] = np.random.RandomState(sc['ic']).rand(1, sc['n'])
    log = []
    try:
        pyclaw.Solution(st, dom).write(0, path=root)
        r = pyclaw.Solution(0, path=root)
        log.append(['read', h(r.state.q), type(r.state.patch).__module__])
    except Exception as e:
        log.append(['raised', type(e).__name__])
    log.append(['files', str(files(root))])
    return log


def forest(sc, ctx, pyclaw):
    ctx.probe('forest')
    ctx.tok('forest')
    want = ctx.fork(lambda cx: ascii_target(cx, pyclaw, sc, cx.dir('fresh')))
    d = ctx.dir('forest')
    with open(os.path.join(d, 'fort.t0000'), 'w') as f:
        f.write('  0.0   time\n 1  num_eqn\n 1  nstates\n 0  num_aux\n 1  num_dim\n')
    with open(os.path.join(d, 'fort.q0000'), 'w') as f:
        f.write(' 1  patch_number\n 1  AMR_level\n 0  block_number\n 0  mpi_rank\n 2  mx\n 0.0 xlow\n 0.5 dx\n\n 1.0\n 2.0\n')
    r = pyclaw.Solution(0, path=d, file_format='forestclaw')
    ctx.same(r.state.q, [[1., 2.]], 'forestclaw-frame', 'frame as ForestClaw writes it')
    ctx.fault('other-simulation')
    if sc['ic'] % 2:
        # and one written here, block number and rank included
        w = ctx.dir('forest2')
        r.state.patch.block_number, r.state.patch.mpi_rank = 3, 2
        r.write(4, path=w, file_format='forestclaw')
        b = pyclaw.Solution(4, path=w, file_format='forestclaw')
        ctx.same(b.state.q, r.state.q, 'forestclaw-frame', 'round trip')
        ctx.check((b.state.patch.block_number, b.state.patch.mpi_rank) == (3, 2), 'forestclaw-frame', 'block number and rank')
    got = ascii_target(ctx, pyclaw, sc, ctx.dir('target'))
    ctx.ev('forest', str(got) == str(want))
    ctx.check(got == want, 'ascii-after-forestclaw', 'an ordinary ascii frame is %s after a forestclaw frame was read, %s in a fresh process' % (got, want))


def shrink(sc):
    if sc['family'] != 'sim':
        return
    for k, v in (('again', False), ('late', False), ('bare', False), ('F', False), ('gauges', False), ('mode', 'evolve'), ('fmt', None), ('calls', 1), ('speed', [])):
        if sc[k] != v:
            yield dict(sc, **{k: v})
    for k in ('hist', 'between'):
        for i, it in enumerate(sc[k]):
            for a, b in (('tear', False), ('refs', 'drop'), ('what', 'run'), ('what', 'setup'), ('what', 'built'), ('steps', 1)):
                if it[a] != b:
                    yield dict(sc, **{k: sc[k][:i] + [dict(it, **{a: b})] + sc[k][i + 1:]})
    for s in P.shrink_cfg(sc):
        yield s

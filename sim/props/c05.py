"""C05  Completed frames survive a crash and a run can restart from them."""
import os
import shutil
import numpy as np
from .. import problems as P
from .. import drive as D
from .. import frames as F
from ..core import Disk, CRASH_CODE
from . import c06
from .c04 import compute_p, want_p

ID = 'C05'
COUNT = {'quick': 3500, 'thorough': 120000}
TIMEOUT = 120.0
RULE = ('Each run is a history of lives of one simulation with output (ascii, hdf5, both; aux, derived quantities, gauges), '
        'possibly in a directory that already holds an older run.  The process is killed before, in the middle of (torn) or after a '
        'chosen file operation, or between two time steps; then everything on disk is read back, and the next life restarts from a '
        'surviving frame (same directory and numbering, or a new directory) or from scratch, and may be killed again; the last one '
        'completes.  Other runs kill a process that writes frames of multi-patch solutions over older frames.  The signature is the '
        'sequence of lives, crash points (operation kind and file) and frames surviving.')
REAL = ['pyclaw.controller', 'pyclaw.solution', 'pyclaw.state', 'pyclaw.geometry', 'pyclaw.fileio.ascii', 'pyclaw.fileio.hdf5', 'pyclaw.solver',
        'pyclaw.classic', 'pyclaw.sharpclaw', 'h5py/libhdf5', 'Python io', 'Fortran kernels', 'riemann solvers']
STUB = ['process death (LD_PRELOAD shim ends the process at a file operation; os._exit between steps)']
ASSUMPTIONS = ['The process dies, the operating system does not: what was handed to the kernel stays.',
               'hdf5 does not store problem_data, no format stores index_capa, aux is stored when asked for: the user sets the rest after reading.',
               'ascii stores nine significant digits; a restart from it continues to that precision.',
               'A new process starts new gauge files.']
PROBES = ['crash-op', 'crash-torn', 'crash-step', 'crash-before-any', 'ascii', 'hdf5', 'both', 'prior-run', 'restart-same', 'restart-new', 'rerun',
          'second-crash', 'in-progress-raised', 'in-progress-old', 'in-progress-new', 'gauges', 'p', 'aux', 'restart-done', 'store', 'store-multi']
LISTS = ('lives', 'writes')


def gen_crash(rng):
    if rng.random() < .2:
        return ['step', round(rng.random(), 4), 0]
    return [rng.choice(['before', 'torn', 'torn', 'after']), round(rng.random(), 4), rng.choice([1, 3, 7, 100, 333, 900])]


def gen(rng, i, tier):
    if rng.random() < .25:
        return gen_store(rng)
    cfg = P.gen_config(rng, dims=(1, 1, 1, 2, 2, 3), variable=False, integrators=['SSP104', 'SSP33', 'Euler', 'RK'])
    cfg['t0'] = rng.choice([0., 0., 0., 2., -1.])
    if rng.random() < .25:
        cfg['source'] = rng.choice([-.7, .4])
    if rng.random() < .4:
        cfg['gauges'] = D.gen_gauges(rng, cfg, rng.choice([1, 2]))
    fmt = rng.choice(['ascii', 'hdf5', 'ascii', 'hdf5', ['ascii', 'hdf5'], ['hdf5', 'ascii']])
    m = rng.randint(1, 5)
    lives = [{'crash': gen_crash(rng), 'mode': 'run', 'from': 0.}]
    for k in range(rng.choice([1, 1, 1, 2])):
        lives.append({'crash': gen_crash(rng), 'mode': rng.choice(['same', 'same', 'same', 'new', 'rerun']), 'from': rng.choice([1., round(rng.random(), 3)])})
    lives[-1]['crash'] = None
    return {'kind': 'run', 'cfg': cfg, 'fmt': fmt, 'gaps': [rng.randint(1, 3) for _ in range(m)], 'auxi': rng.random() < .4, 'auxa': rng.random() < .4,
            'p': rng.choice([0, 0, 0, 1, 2]), 'lives': lives, 'prior': rng.choice([None, None, 1, 2, 3, 5]), 'pseed': rng.randrange(10 ** 6)}


def gen_store(rng):
    nsol = rng.randint(2, 4)
    sols = []
    for k in range(nsol):
        d = rng.choice([1, 1, 2, 2, 3])
        sols.append({'d': d, 'n': [[rng.randint(2, 5) for _ in range(d)] for _ in range(rng.choice([1, 1, 2, 3, 11 if d == 1 else 4]))], 'eq': rng.randint(1, 3),
                     'aux': rng.choice([0, 0, 1, 2]), 'seed': rng.randrange(10 ** 6), 't': rng.choice([0., .125, 1 / 3., -2.5, 12345.678]), 'mag': rng.choice([1., 1e-5, 1e8])})
    fmts = rng.choice([['ascii'], ['hdf5'], ['ascii', 'hdf5']])
    return {'kind': 'store', 'sols': sols, 'writes': [[rng.randrange(nsol), rng.choice([0, 0, 1, 2]), rng.choice(fmts), rng.random() < .5] for _ in range(rng.randint(1, 6))],
            'lives': [{'crash': gen_crash(rng), 'first': rng.random()} for _ in range(rng.choice([1, 1, 2]))], 'sub': rng.choice(['d', 'd', 'a/b'])}


def fl(fmt):
    return fmt if isinstance(fmt, list) else [fmt]


# ---------------------------------------------------------------- what a crash leaves
class Progress(object):
    """A pipe through which the doomed process says what it has done."""

    def __init__(self):
        self.r, self.w = os.pipe()

    def say(self, *a):
        os.write(self.w, (' '.join(str(x) for x in a) + '\n').encode())

    def read(self):
        os.close(self.w)
        buf = b''
        while True:
            d = os.read(self.r, 65536)
            if not d:
                break
            buf += d
        os.close(self.r)
        return [l.split() for l in buf.decode().splitlines()]


class Store(dict):
    """(dir, prefix, fmt, frame) -> [candidates], certain;  candidate = (check function, label)."""


def plan_crash(disk, crash, nops):
    kind, frac, arg = crash
    at = disk.wops() + min(nops - 1, int(frac * nops))
    disk.plan(at, Disk.WRITE, {'before': Disk.CRASH_BEFORE, 'torn': Disk.CRASH_TORN, 'after': Disk.CRASH_AFTER}[kind], arg)


def judge(ctx, pyclaw, key, cands, certain, new=None):
    """Read one frame and compare it with what it may hold."""
    path, prefix, fmt, frame = key
    raux = all(c[1] or not c[0].states[0]['num_aux'] for c in cands)
    so = pyclaw.Solution()
    err = None
    try:
        if fmt == 'hdf5' and prefix == 'claw_p':
            # Solution.read prefers ascii files of the same prefix, and derived quantities have the same prefix in every format
            from clawpack.pyclaw.fileio import hdf5
            hdf5.read(so, frame, path, file_prefix=prefix, read_aux=raux)
        else:
            so.read(frame, path, file_format=fmt, file_prefix=prefix, read_aux=raux)
    except Exception as e:
        err = e
    name = '%s %s frame %d' % (os.path.basename(path), fmt, frame)
    if err is not None:
        ctx.check(not certain, 'frame-lost', '%s had been written completely and reading it raises %r' % (name, err))
        ctx.probe('in-progress-raised')
        return None
    ctx.check(cands, 'frame-from-nowhere', '%s reads and was never written' % name)
    why = []
    for k, (snap, auxw, tol, pd) in enumerate(cands):
        w = c06.differs(ctx, so, snap, tol, auxw and raux, pd)
        why.append(w)
    fit = [k for k, w in enumerate(why) if w is None]
    if fit:
        if not certain:
            ctx.probe('in-progress-new' if fit[0] == 0 else 'in-progress-old')
        return fit
    ctx.fail('frame-wrong' if certain else 'damaged-frame-read', '%s%s: %s' % (name, '' if certain else ' was being written', why))


def judge_all(ctx, pyclaw, store):
    out = {}
    for key in sorted(store):
        cands, certain = store[key]
        out[key] = judge(ctx, pyclaw, key, cands, certain)
    ctx.ev('disk', sorted((os.path.basename(k[0]), k[1], k[2], k[3], str(v)) for k, v in out.items()))
    return out


# ---------------------------------------------------------------- a simulation
class Sim(D.Quiet):
    def __init__(self, cfg):
        self.n = 0
        self.die_at = None
        self.cap = 400
        D.Quiet.__init__(self, cfg, [[-1e9, 1.0]])
        self.q0 = None

    def before_step(self, solver, state):
        self.n += 1
        if self.n > self.cap or not np.all(np.isfinite(state.q)) or np.max(np.abs(state.q)) > 100.0:
            raise D.Stop()
        if self.die_at is not None and self.n > self.die_at:
            os._exit(CRASH_CODE)


def reference(cfg, gaps, gauges):
    """Snapshots at the output times and gauge records of every step, without any output."""
    b = Sim({k: v for k, v in cfg.items() if k != 'gauges'})
    s, sol = b.solver, b.solution
    s.setup(sol)
    s.dt = s.dt_initial
    cells = [D.gauge_cell(cfg, g) for g in gauges]
    rec = lambda: [[float(sol.t)] + [float(x) for x in sol.state.q[(slice(None),) + c]] for c in cells]
    snaps, recs, at = [F.Snap(sol)], [rec()], [0]
    for g in gaps:
        for k in range(g):
            s.evolve_to_time(sol)
            recs.append(rec())
        snaps.append(F.Snap(sol))
        at.append(len(recs) - 1)
    return snaps, recs, at


def run(sc, ctx):
    if sc['kind'] == 'store':
        return run_store(sc, ctx)
    from clawpack import pyclaw
    cfg = sc['cfg']
    disk = ctx.use_disk()
    dt = cfg['dt_initial']
    fmts = fl(sc['fmt'])
    ctx.tok(D.cfg_rng_label(cfg) + cfg['eq'] + ''.join(f[0] for f in fmts))
    gauges = cfg.get('gauges') or []
    try:
        snaps, recs, at = ctx_ref(cfg, sc, gauges)
    except D.Stop:
        ctx.probe('left-range')
        return
    except Exception as e:
        ctx.probe('step-too-large')
        ctx.tok('X')
        return
    for f in fmts:
        ctx.probe(f)
    if len(fmts) > 1:
        ctx.probe('both')
    if sc['p']:
        ctx.probe('p')
    store = Store()
    out = os.path.join(ctx.root, 'out')
    if sc['prior']:
        prior(ctx, pyclaw, sc, store, out)
    for li, life in enumerate(sc['lives']):
        one_life(ctx, pyclaw, disk, sc, store, li, life, out, snaps, recs, at)
    ctx.steps += len(recs)
    ctx.simtime += snaps[-1].t - snaps[0].t


def ctx_ref(cfg, sc, gauges):
    return reference(cfg, sc['gaps'], gauges)


def snap_p(s, mp):
    """The derived-quantity frame that goes with a snapshot."""
    p = F.Snap.__new__(F.Snap)
    p.t = s.t
    d = dict(s.states[0])
    d['q'] = want_p(s.q, s.t, mp)
    d['num_eqn'] = mp
    p.states = [d]
    return p


def entries(sc, out, frame, snap, auxw, loose):
    """Keys and contents of one output frame."""
    for f in fl(sc['fmt']):
        tol = dict(rtol=5e-5, atol=5e-5) if loose else F.PREC[f]
        yield (out, F.PREFIX[f], f, frame), (snap, auxw, tol, f == 'ascii')
        if sc['p']:
            any_ascii = 'ascii' in fl(sc['fmt'])
            tolp = dict(rtol=1e-4, atol=1e-4) if loose else F.PREC['ascii'] if any_ascii else dict(rtol=1e-13, atol=1e-13)
            yield (os.path.join(out, '_p'), 'claw_p', f, frame), (snap_p(snap, sc['p']), False, tolp, False)


def controller(pyclaw, sc, a, sol, out, times):
    c = pyclaw.Controller()
    c.verbosity = 0
    c.solver, c.solution = a.solver, sol
    c.outdir = out
    c.output_format = sc['fmt']
    c.write_aux_init, c.write_aux_always = sc['auxi'], sc['auxa']
    c.output_style = 2
    c.out_times = times
    if sc['p']:
        c.compute_p = compute_p(sc['p'])
        sol.state.mp = sc['p']
    return c


def prior(ctx, pyclaw, sc, store, out):
    """An older, complete run of something else in the same directory."""
    ctx.probe('prior-run')
    cfg = dict(sc['cfg'])
    cfg = {k: v for k, v in cfg.items() if k != 'gauges'}
    cfg['seed'] = sc['pseed']
    m = sc['prior']

    def child(cx):
        a = Sim(cfg)
        a.solution.state.q[...] += .5           # certainly different from the run that follows
        q = a.solution.state.q.copy()
        c = controller(pyclaw, sc, a, a.solution, out, [float(a.solution.t)])
        sv = a.solver
        sv.evolve_to_time = lambda sol, t=None: shift(sol, t)
        t0 = float(a.solution.t)
        c.out_times = [t0 + k for k in range(m)]
        sv.setup(a.solution)
        c.run()
    ctx.fork(child)
    a = Sim(cfg)
    sol = a.solution
    sol.state.q[...] += .5
    for k in range(m):
        if k:
            shift(sol, sol.t + 1)
        auxw = (sc['auxa'] or (sc['auxi'] and k == 0)) and sol.state.num_aux > 0
        for key, cand in entries(sc, out, k, F.Snap(sol), auxw, False):
            store[key] = ([cand], True)


def shift(sol, t):
    """Stands in for a solver when only the frames matter."""
    sol.state.q[...] = sol.state.q * .75 + .125
    sol.state.t = float(t)
    return {}


def one_life(ctx, pyclaw, disk, sc, store, li, life, out, snaps, recs, at):
    cfg = sc['cfg']
    dt = cfg['dt_initial']
    gauges = cfg.get('gauges') or []
    mode, start, k0, loose, src = life['mode'], 0, 0, False, None
    if li and mode != 'rerun':
        src = pick(ctx, sc, store, life, out, snaps, dt, pyclaw)
        if src is None:
            mode = 'rerun'
    if src is not None:
        key, k0, loose = src
        start = key[3] if mode == 'same' else 0
        if mode == 'new':
            out = os.path.join(ctx.root, 'out-%d' % li)
        ctx.probe('restart-' + mode)
        ctx.fault('restart')
        ctx.tok('>%s%d' % (mode[0], k0))
    elif li:
        ctx.probe('rerun')
        ctx.fault('restart')
        ctx.tok('>r')
    crash = life['crash']
    if crash is not None and li:
        ctx.probe('second-crash')

    def child(cx, where, prog=None):
        a = Sim(cfg)
        sol = a.solution
        if src is not None:
            path, prefix, fmt, frame = src[0]
            if path == out:
                path = where                     # the rehearsal runs on a copy
            kw = {'count_from_zero': False} if mode == 'same' else {}
            sol = pyclaw.Solution(frame, path=path, file_format=fmt, file_prefix=prefix, read_aux=src_aux(store, src[0]), **kw)
            st = sol.state
            want = snaps[k0].states[0]
            if fmt == 'hdf5':
                st.problem_data = dict(want['pd'])
            st.index_capa = want['capa']
            if st.num_aux > 0 and not src_aux(store, src[0]):
                st.aux = np.array(want['aux'], order='F')
            if gauges:
                st.grid.add_gauges([tuple(g) for g in gauges])
        times = [float(sol.t)] + [s.t for s in snaps[k0 + 1:]]
        c = controller(pyclaw, sc, a, sol, where, times)
        if prog is not None:
            orig = sol.write

            def write(frame, path, *args, **kw):
                prog.say('start', int(str(frame)), int(bool(kw.get('write_p'))))
                orig(frame, path, *args, **kw)
                prog.say('done', int(str(frame)), int(bool(kw.get('write_p'))))
            sol.write = write
            if crash is not None and crash[0] == 'step':
                a.die_at = int(crash[1] * (nsteps + 1))
            elif crash is not None:
                plan_crash(disk, crash, nops)
        w = disk.wops()
        c.run()
        if prog is not None:
            prog.say('end')
        return [disk.wops() - w, a.n]

    nops = nsteps = 0
    if crash is not None:
        # rehearsal on a copy: how many file operations and steps there are
        dry = os.path.join(ctx.root, 'dry')
        if os.path.isdir(out):
            shutil.copytree(out, dry)
        nops, nsteps = ctx.fork(lambda cx: child(cx, dry))
        shutil.rmtree(dry, ignore_errors=True)
    prog = Progress()
    res = ctx.fork(lambda cx: child(cx, out, prog), may_crash=crash is not None)
    disk.clear()
    said = prog.read()
    ctx.tok('c%s%d%s' % ((crash[0][0] if crash else '-'), len(said), '!' if res == 'CRASHED' else ''))
    if res == 'CRASHED':
        ctx.fault('crash-between-steps' if crash[0] == 'step' else 'crash-%s-op' % crash[0])
        ctx.probe({'step': 'crash-step', 'torn': 'crash-torn'}.get(crash[0], 'crash-op'))
        if not said:
            ctx.probe('crash-before-any')
    ctx.ev('life', mode, start, res == 'CRASHED', [' '.join(x) for x in said])
    # ---- what the disk may hold now
    done = [(int(x[1]), int(x[2])) for x in said if x[0] == 'done']
    begun = [(int(x[1]), int(x[2])) for x in said if x[0] == 'start']
    for fr, isp in begun:
        k = k0 + fr - start
        ctx.check(k < len(snaps), 'frame-number', 'frame %d written, run has %d' % (fr, len(snaps)))
        auxw = (sc['auxa'] or (sc['auxi'] and fr == start)) and snaps[k].states[0]['num_aux'] > 0
        if auxw:
            ctx.probe('aux')
        for key, cand in entries(sc, out, fr, snaps[k], auxw, loose):
            if (key[1] == 'claw_p') != bool(isp):
                continue
            if (fr, isp) in done:
                store[key] = ([cand], True)
            else:
                old = store.get(key, ([], False))[0]
                store[key] = ([cand] + old, False)
    if res != 'CRASHED':
        want = list(range(start, start + len(snaps) - k0))
        ctx.check([f for f, p in done if not p] == want, 'frames', 'run wrote frames %s, expected %s' % ([f for f, p in done if not p], want))
        if src is not None:
            ctx.probe('restart-done')
    now = judge_all(ctx, pyclaw, store)
    # a frame found old, new or unreadable stays what it is
    for key, (cands, certain) in list(store.items()):
        if not certain:
            if now[key] is None:
                store[key] = ([], False)
            else:
                store[key] = ([cands[k] for k in now[key]], True)
    # ---- gauges
    main = [f for f, p in done if not p]
    if gauges and main:
        ctx.probe('gauges')
        last = k0 + main[-1] - start
        check_gauges(ctx, cfg, gauges, out, recs[at[k0]:], at[last] - at[k0] + 1, loose, res != 'CRASHED')


def check_gauges(ctx, cfg, gauges, out, recs, need, loose, complete):
    d = os.path.join(out, '_gauges')
    names = sorted(os.listdir(d)) if os.path.isdir(d) else []
    ctx.check(len(names) == len(gauges), 'gauge-files', 'gauge files %s for %d gauges' % (names, len(gauges)))
    tol = dict(rtol=5e-5, atol=5e-5) if loose else dict(rtol=1e-12, atol=1e-300)
    data = []
    for n in names:
        with open(os.path.join(d, n)) as f:
            txt = f.read()
        lines = txt.split('\n')[:-1]              # a last line without its end is one that was being written
        data.append([n, [[float(x) for x in l.split()] for l in lines]])
    for gi, g in enumerate(gauges):
        want = [r[gi] for r in recs]
        why = []
        for n, rows in data:
            w = None
            if len(rows) < need:
                w = '%d records on disk, %d made up to the last completed frame' % (len(rows), need)
            elif len(rows) > len(want) or (complete and len(rows) != len(want)):
                w = '%d records, run has %d' % (len(rows), len(want))
            else:
                for k, r in enumerate(rows):
                    if len(r) != len(want[k]) or not np.allclose(r, want[k], **tol):
                        w = 'record %d is %s, expected %s' % (k, r, want[k])
                        break
            why.append((n, w))
        ctx.check(any(w is None for n, w in why), 'gauge-records', 'gauge %s: %s' % (g, why))


def src_aux(store, key):
    return all(c[1] for c in store[key][0])


def pick(ctx, sc, store, life, out, snaps, dt, pyclaw):
    """A surviving frame of the simulation to restart from: (key, index of the snapshot, inexact)."""
    ok = []
    for key in sorted(store):
        cands, certain = store[key]
        if not certain or key[0] != out or key[1] == 'claw_p':
            continue
        for k, s in enumerate(snaps[:-1]):
            if s.t == cands[0][0].t and cands[0][0].q.shape == s.q.shape and np.array_equal(cands[0][0].q, s.q):
                ok.append((key, k, key[2] == 'ascii' or cands[0][2].get('rtol', 0) > 1e-6))
    good = []
    for key, k, loose in ok:
        if life['mode'] == 'same' and key[3] != k:
            continue
        if key[2] == 'ascii' and abs(float('%.8e' % snaps[k].t) - snaps[k].t) > 5e-6 * dt:
            continue                             # nine digits of time: the fixed step does not divide what is left
        good.append((key, k, loose))
    if not good:
        return None
    return good[min(len(good) - 1, int(life['from'] * len(good)))]


# ---------------------------------------------------------------- frames of multi-patch solutions
def run_store(sc, ctx):
    from clawpack import pyclaw
    disk = ctx.use_disk()
    path = os.path.join(ctx.root, sc['sub'])
    sols = [c06.build(pyclaw, s) for s in sc['sols']]
    snaps = [F.Snap(s) for s in sols]
    ctx.probe('store')
    if any(len(s['n']) > 1 for s in sc['sols']):
        ctx.probe('store-multi')
    store = Store()
    writes = sc['writes']

    def do(w, where):
        k, fr, fmt, aux = w
        sols[k % len(sols)].write(fr, where, file_format=fmt, write_aux=aux)

    for li, life in enumerate(sc['lives'] + [{'crash': None}]):
        crash = life['crash']
        if crash is not None and crash[0] == 'step':
            crash = ['before'] + crash[1:]
        nops = 0
        if crash is not None:
            dry = os.path.join(ctx.root, 'dry')
            if os.path.isdir(path):
                shutil.copytree(path, dry)

            def rehearse(cx):
                w = disk.wops()
                for x in writes:
                    do(x, dry)
                return disk.wops() - w
            nops = ctx.fork(rehearse)
            shutil.rmtree(dry, ignore_errors=True)
        prog = Progress()

        def child(cx):
            if crash is not None and nops:
                plan_crash(disk, crash, nops)
            for n, x in enumerate(writes):
                prog.say('start', n)
                do(x, path)
                prog.say('done', n)
        res = ctx.fork(child, may_crash=crash is not None)
        disk.clear()
        said = prog.read()
        if res == 'CRASHED':
            ctx.fault('crash-%s-op' % crash[0])
            ctx.probe('crash-torn' if crash[0] == 'torn' else 'crash-op')
            if li:
                ctx.probe('second-crash')
        ctx.tok('s%s%d' % (crash[0][0] if crash else '-', len(said)))
        done = [int(x[1]) for x in said if x[0] == 'done']
        for n in [int(x[1]) for x in said if x[0] == 'start']:
            k, fr, fmt, aux = writes[n]
            k = k % len(sols)
            key = (path, F.PREFIX[fmt], fmt, fr)
            auxw = aux and sols[k].states[0].num_aux > 0
            cand = (snaps[k], auxw, F.PREC[fmt], fmt == 'ascii')
            if n in done:
                store[key] = ([cand], True)
            else:
                store[key] = ([cand] + store.get(key, ([], False))[0], False)
        if crash is None:
            ctx.check(len(done) == len(writes), 'not-written', 'writes %s of %d completed' % (done, len(writes)))
        now = judge_all(ctx, pyclaw, store)
        for key, (cands, certain) in list(store.items()):
            if not certain:
                store[key] = ([], False) if now[key] is None else ([cands[k] for k in now[key]], True)


def shrink(sc):
    if sc['kind'] == 'store':
        for k, s in enumerate(sc['sols']):
            for c in ({'aux': 0}, {'n': s['n'][:1]}, {'eq': 1}, {'t': 0.}, {'mag': 1.}):
                if any(s[a] != b for a, b in c.items()):
                    yield dict(sc, sols=sc['sols'][:k] + [dict(s, **c)] + sc['sols'][k + 1:])
        return
    for k, v in (('prior', None), ('p', 0), ('auxi', False), ('auxa', False)):
        if sc[k]:
            yield dict(sc, **{k: v})
    if isinstance(sc['fmt'], list):
        for f in sc['fmt']:
            yield dict(sc, fmt=f)
    for li, l in enumerate(sc['lives'][:-1]):
        if l['crash'] is None:
            continue
    if len(sc['gaps']) > 1:
        yield dict(sc, gaps=sc['gaps'][:-1])
    if any(g > 1 for g in sc['gaps']):
        yield dict(sc, gaps=[1] * len(sc['gaps']))
    for s in P.shrink_cfg(sc):
        yield s

"""C09: parallel output is independent of the process count."""
import os
import numpy as np

from .. import cluster as K
from .. import drive as D
from .. import par
from .. import pjob as J
from ..core import Disk, Violation

ID = 'C09'
COUNT = {'quick': 1200, 'thorough': 40000}
TIMEOUT = 120.0
RULE = ('One simulated run: a job of 1-6 petclaw processes produces output (petsc and hdf5 frames with aux, derived quantities, functionals, gauges, '
        'kept frames, gathered arrays); everything is compared with serial pyclaw, and every frame is read by a job of another size. '
        'In half of the runs the job is repeated and killed as a whole at a communication or file operation (possibly in the middle of a write); '
        'then every frame is read, and the simulation is restarted from the last complete frame on another number of processes and compared with '
        'serial pyclaw restarted from the same data.  Signature = the sequence of processes the scheduler let run, the point of death, what '
        'survived.')
REAL = ['petclaw (controller, solution, state, geometry, cfl, solvers, fileio.petsc, fileio.hdf5)', 'pyclaw controller, solver, solution',
        'h5py/libhdf5 (one process assembles the file)', 'Fortran kernels and Riemann solvers']
STUB = ['petsc4py, including its binary viewers (sim/stubs/petsc4py)', 'mpi4py and the mpio driver of h5py (sim/cluster.py)',
        'process scheduling and death']
ASSUMPTIONS = ['the PETSc and parallel HDF5 stand-ins follow the documented semantics: files in natural ordering, big-endian, each process writes its part',
               'the job dies, the operating system does not: what was handed to the kernel stays',
               'problem_data is stored by the petsc format only; aux when asked for, frame 0 standing in for frames without',
               'functionals are sums over processes: equal to a relative 1e-12']
PROBES = ['petsc', 'hdf5', 'p-frame', 'aux', 'F-file', 'gauge-file', 'reader-differs', 'death', 'death-write', 'in-progress-raised', 'in-progress-new',
          'records-survive', 'restart', 'restart-after-death', 'restart-other-size', 'no-mpiio', 'gather', 'copy', 'read', 'torn']
LISTS = ('ops', 'ops2', 'sched', 'sched2')
KEEP = ('ops',)


def preimport():
    K.preimport()


def gen(rng, i, tier):
    cfg, speed, T, variable = J.gen_cfg(rng)
    ops = []
    t = 0.
    for j in range(rng.choice([1, 1, 2, 3])):
        w = rng.random()
        if j == 0 or w < .5:
            o = J.gen_run(rng, cfg, T, variable)
            if j == 0 and o['fmt'] is None:
                o['fmt'] = 'petsc'
            ops.append(['run', o])
        elif w < .6:
            t += rng.choice([.2, .5]) * T if variable else cfg['dt_initial']
            ops.append(['to', t])
        elif w < .8:
            ops.append(['write', J.gen_write(rng)])
        elif w < .87:
            ops.append(['copy'])
        elif w < .94:
            ops.append(['gather'])
        else:
            ops.append(['read', {'dir': rng.choice(J.DIRS), 'fmt': rng.choice(['petsc', 'hdf5']), 'frame': rng.choice([0, 1])}])
    if rng.random() < .06:
        # a frame written again, now without aux, after aux has changed
        d, f = rng.choice(J.DIRS), rng.choice([1, 3])
        ops.append(['write', {'dir': d, 'fmt': 'petsc', 'frame': 0, 'aux': True}])
        if rng.random() < .5:
            ops += [['step'], ['step']]
        ops.append(['write', {'dir': d, 'fmt': 'petsc', 'frame': f, 'aux': True}])
        ops += [['step'], ['write', {'dir': d, 'fmt': 'petsc', 'frame': f, 'aux': False}], ['read', {'dir': d, 'fmt': 'petsc', 'frame': f}]]
    cl, cl2 = K.gen_cluster(rng, cfg), K.gen_cluster(rng, cfg)
    sc = {'cfg': cfg, 'speed': speed, 'ops': ops, 'cl': cl, 'cl2': cl2, 'sched': K.gen_sched(rng, cl['P']), 'sched2': K.gen_sched(rng, cl2['P'], 10)}
    if rng.random() < .55:
        sc['death'] = [rng.choice(['any', 'file', 'file', 'before', 'torn', 'torn', 'after']), round(rng.random(), 4), rng.choice([1, 3, 7, 60, 200])]
    ops2 = []
    if rng.random() < .5:
        ops2 = [['run', J.gen_run(rng, cfg, T, variable, n=1)]] if rng.random() < .6 else [['step'], ['step']] if rng.random() < .5 else [['to', T * .3 if variable else cfg['dt_initial']]]
    sc['ops2'] = ops2
    return sc


def shrink(sc):
    if sc.get('death'):
        s = dict(sc)
        s.pop('death')
        yield s
    for s in J.shrink(sc, ('cl', 'cl2')):
        yield s


FILE_OPS = ('open', 'opened', 'pwrite', 'h5.write', 'replace', 'rename', 'remove', 'unlink', 'makedirs', 'mkdir', 'C:Viewer', 'exists')


def run(sc, ctx):
    from clawpack import pyclaw
    cfg, speed = sc['cfg'], sc['speed']
    sroot, proot = ctx.dir('ser'), ctx.dir('par')
    store = J.Store()
    try:
        job = J.Job(ctx, cfg, speed, sroot, pyclaw, store).run(sc['ops'])
    except D.Stop:
        return
    if not J.fine(ctx, job, cfg):
        return
    ser = job.out()
    cap = 2 * len(ser['att']) + 50
    rtol, atol = par.tols(cfg)
    jd = J.Judge(ctx, cfg, rtol, atol)

    def mk(root, ops, start=None):
        def fn(rank, rctx):
            from clawpack import petclaw
            return J.Job(rctx, cfg, speed, root, petclaw, cap=cap, start=start).run(ops).out()
        return fn

    death = sc.get('death')
    disk = ctx.use_disk(proot) if death else None
    if disk:
        disk.clear()
        disk.enable(True)
    out = K.run(ctx, sc['cl']['P'], mk(proot, sc['ops']), sc['cl'], sc['sched'])
    if disk:
        disk.enable(False)
        nops = disk.wops()
    vals = K.must(out)
    for op in sc['ops']:
        ctx.probe(op[0])
    ctx.probe('no-mpiio', 0 if sc['cl']['mpiio'] else 1)
    jd.job(vals, ser, sc['ops'])
    jd.files('parallel-file', proot, sroot)
    J.gauge_data(ctx, jd, cfg, vals, ser)
    judge_frames(ctx, jd, sc, proot, {k: [s] for k, s in store.frames.items()}, store, set())
    if not death:
        restart(ctx, jd, sc, cfg, speed, store, proot, mk)
        return
    # the same job again, killed
    root2 = ctx.dir('dead')
    kind, frac, arg = death
    at = None
    disk.reset(root2)
    disk.clear()
    if kind in ('any', 'file'):
        ks = range(len(out.what)) if kind == 'any' else [i for i, w in enumerate(out.what) if w in FILE_OPS]
        if not ks:
            return
        at = list(ks)[min(len(ks) - 1, int(frac * len(ks)))]
    else:
        if not nops:
            return
        disk.enable(True)
        disk.plan(disk.wops() + min(nops - 1, int(frac * nops)), Disk.WRITE,
                  {'before': Disk.CRASH_BEFORE, 'torn': Disk.CRASH_TORN, 'after': Disk.CRASH_AFTER}[kind], arg)
    dead = K.run(ctx, sc['cl']['P'], mk(root2, sc['ops']), sc['cl'], sc['sched'], death=at)
    disk.clear()
    disk.enable(False)
    if dead.kind != 'died':
        ctx.check(kind not in ('any', 'file'), 'not-repeatable', 'the job ended before decision %r the second time' % at)
        ctx.probe('outlived')
        return
    ctx.fault('job-death' if kind in ('any', 'file') else 'job-death-' + kind)
    ctx.probe('death')
    ctx.probe('torn', 1 if kind == 'torn' else 0)
    P_ = sc['cl']['P']
    begun, ended = {}, {}
    for r, m in dead.marks:
        if m[0] == 'begin':
            begun[m[1]] = True
        elif m[0] == 'end':
            ended[m[1]] = ended.get(m[1], 0) + 1
    sure, cands, open_ = J.Store(), {}, set()
    for n, call in enumerate(store.calls):
        if n not in begun:
            break
        full = ended.get(n, 0) == P_
        for key, snap in call:
            if full:
                sure.put(key, snap)
                cands[key] = [snap]
            else:
                cands.setdefault(key, []).append(snap)
                open_.add(key)
    records(ctx, jd, store, dead, ended, root2, P_)
    ctx.probe('death-write', 1 if open_ else 0)
    ctx.ev('survivors', sorted(map(str, sure.frames)), sorted(map(str, open_)))
    judge_frames(ctx, jd, sc, root2, cands, sure, open_)
    sure.frames = {k: v for k, v in sure.frames.items() if k not in open_}
    restart(ctx, jd, sc, cfg, speed, sure, root2, mk, open_)


def records(ctx, jd, store, dead, ended, root, P_):
    """Gauge records and functionals that lead up to a completed frame are on disk."""
    full = [n for n in range(len(store.texts)) if ended.get(n, 0) == P_]
    if not full:
        return
    op, want = store.texts[full[-1]]
    if any(m[0] == 'op' and m[1] > op for r, m in dead.marks):
        return            # a later operation may have begun new files
    got = J.texts(root)
    for k, txt in want.items():
        if not txt or (op and k.endswith('F.txt')):      # every run begins its own F.txt after its first frame
            continue
        n = len(txt.splitlines())
        ctx.check(k in got, 'record-lost', '%s is missing after the death of the job' % k)
        lines = [l for l in got[k].splitlines(True) if l.endswith('\n')]
        ctx.check(len(lines) >= n, 'record-lost', '%s holds %d records after the death of the job, %d were made before the last complete frame' % (k, len(lines), n))
        jd.text('record-wrong', k, ''.join(lines[:n]), txt)
        ctx.probe('records-survive')


def judge_frames(ctx, jd, sc, root, cands, sure, open_):
    """Every frame is read by a job of another size and compared with what it may hold."""
    keys = sorted(cands)
    if not keys:
        return
    naux = cands[keys[0]][0]['num_aux']

    def aux_ok(key):
        """Does reading aux of this frame give something defined?"""
        if key in open_:
            return all(c['aux'] is not None for c in cands[key]) and naux > 0
        if key[1] == 'petsc' and ((key[0], 'petsc', key[2], 0) in open_ or any(k[0] == key[0] and k[2:] == key[2:] for k in open_)):
            return sure.frames[key]['aux'] is not None
        return sure.aux_read(key) is not None

    todo = [(k, naux > 0 and aux_ok(k)) for k in keys]

    def fn(rank, rctx):
        from clawpack import petclaw
        return [J.read_frame(petclaw, root, k, a) for k, a in todo]

    vals = K.must(K.run(ctx, sc['cl2']['P'], fn, sc['cl2'], sc['sched2'], label='reading'), 'reading')
    ctx.probe('reader-differs', 1 if sc['cl2']['pgrids'] != sc['cl']['pgrids'] else 0)
    for i, (key, aux) in enumerate(todo):
        got = [v[i] for v in vals]
        what = '%s frame %s' % (key[1], '/'.join((key[0], key[2], str(key[3]))))
        ctx.check(len(set(g[0] for g in got)) == 1, 'frame-differs', lambda: '%s: %s' % (what, [g[:3] if g[0] == 'missing' else g[0] for g in got]))
        if got[0][0] == 'missing':
            ctx.check(key in open_, 'frame-lost', lambda: '%s was written completely and cannot be read: %s' % (what, got[0][1:]))
            ctx.probe('in-progress-raised')
            continue
        ctx.probe(key[1])
        ctx.probe('p-frame', 1 if key[2] == 'claw_p' else 0)
        ctx.probe('aux', 1 if aux else 0)
        why = []
        for c in cands[key]:
            w = dict(c)
            if not aux:
                w['aux'] = None
            elif w['aux'] is None:
                w['aux'] = sure.aux_read(key)
            try:
                jd.frame('frame-wrong', what, [g[1] for g in got], w, key[1])
                why = None
                break
            except Violation as e:
                why.append(e.detail)
        if why is not None:
            raise Violation('frame-wrong' if key not in open_ else 'damaged-frame-read',
                            '%s%s' % (why[-1], '' if key not in open_ else ' (the job died while it was being written)'))
        if key in open_:
            ctx.probe('in-progress-new' if c is cands[key][-1] else 'in-progress-old')


def restart(ctx, jd, sc, cfg, speed, store, root, mk, open_=()):
    """Continue from the last frame, serially and on another number of processes."""
    from clawpack import pyclaw
    keys = [k for k in store.frames if k[2] == J.PREFIX]
    if not keys or not sc['ops2']:
        return
    key = max(keys, key=lambda k: (store.frames[k]['t'], k))
    snap = store.frames[key]
    aux = store.aux_read(key) if not any(k[0] == key[0] for k in open_) else snap['aux']
    sroot = ctx.dir('ser2')
    st2 = J.Store()
    try:
        job = J.Job(ctx, cfg, speed, sroot, pyclaw, st2, start=(key, snap, aux)).run(sc['ops2'])
    except D.Stop:
        return
    if not J.fine(ctx, job, cfg):
        return
    ser = job.out()
    out = K.run(ctx, sc['cl2']['P'], mk(root, sc['ops2'], (key, snap, aux)), sc['cl2'], sc['sched2'], label='restarted')
    vals = K.must(out, 'restarted')
    jd.job(vals, ser, sc['ops2'], 'restart')
    ctx.probe('restart')
    ctx.probe('restart-after-death', 1 if root.endswith('dead') else 0)
    ctx.probe('restart-other-size', 1 if sc['cl']['P'] != sc['cl2']['P'] else 0)
    judge_frames(ctx, jd, dict(sc, cl2=sc['cl'], sched2=[]), root, {k: [s] for k, s in st2.frames.items()}, st2, set())

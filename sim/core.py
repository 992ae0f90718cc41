"""Simulation core: seeded scenarios, one process per simulated run, verdicts,
minimisation, replay files and evidence.

One scenario is one JSON value.  It is made from one seed, and the run is a
function of it and of the code under test: everything random was drawn when
the scenario was generated (schedules: from the scheduler's own seeded stream,
or from the explicit decision list of a replay file).
"""
import ctypes
import errno
import hashlib
import importlib
import json
import logging
import os
import random
import select
import shutil
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = '/repo/src'
CRASH_CODE = 137

PROPS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C15', 'C16', 'C17']


class Violation(Exception):
    def __init__(self, kind, detail=''):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = str(detail)


# ---------------------------------------------------------------- simulated disk
class Disk(object):
    """Control of the LD_PRELOAD disk shim (sim/disk.c)."""
    ERR, SHORT, CRASH_BEFORE, CRASH_TORN, CRASH_AFTER, ERR_STICKY = 1, 2, 3, 4, 5, 6
    NAMES = {1: 'io-error', 2: 'short-write', 3: 'crash-before-op', 4: 'crash-torn-write', 5: 'crash-after-op',
             6: 'io-error-persistent'}
    WRITE, READ = 0, 1

    def __init__(self):
        lib = ctypes.CDLL(None)
        try:
            lib.sim_disk_present
        except AttributeError:
            raise RuntimeError('disk shim is not preloaded')
        lib.sim_disk_init.restype = ctypes.c_void_p
        lib.sim_disk_root.argtypes = [ctypes.c_char_p]
        lib.sim_disk_plan.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        for n in ('sim_disk_wops', 'sim_disk_rops', 'sim_disk_fired', 'sim_disk_crashed', 'sim_disk_nlog'):
            getattr(lib, n).restype = ctypes.c_long
        lib.sim_disk_log.restype = ctypes.c_char_p
        self.lib = lib
        lib.sim_disk_init()

    def reset(self, root):
        self.lib.sim_disk_root(os.path.realpath(root).encode())

    def enable(self, on):
        self.lib.sim_disk_enable(1 if on else 0)

    def clear(self):
        self.lib.sim_disk_clear()

    def plan(self, at, cls, kind, arg):
        self.lib.sim_disk_plan(at, cls, kind, arg)

    def wops(self):
        return self.lib.sim_disk_wops()

    def rops(self):
        return self.lib.sim_disk_rops()

    def fired(self, kind):
        return self.lib.sim_disk_fired(kind)

    def crashed(self):
        return self.lib.sim_disk_crashed()

    def log(self):
        return [self.lib.sim_disk_log(i).decode('utf8', 'replace') for i in range(self.lib.sim_disk_nlog())]


# ---------------------------------------------------------------- run context
def canon(x):
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, np.ndarray):
        return hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:16]
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(canon(i) for i in x) + ']'
    if isinstance(x, dict):
        return '{' + ','.join('%s:%s' % (k, canon(x[k])) for k in sorted(x)) + '}'
    return str(x)


class Ctx(object):
    def __init__(self, root):
        self.root = root
        self.h = hashlib.sha256()
        self.nev = 0
        self.sig = []
        self.faults = {}
        self.probes = {}
        self.simtime = 0.0
        self.steps = 0
        self.last = []
        self.disk = None

    # events: everything observable goes into the digest, in order
    def ev(self, *a):
        s = '|'.join(canon(x) for x in a)
        self.h.update(s.encode())
        self.h.update(b'\n')
        self.nev += 1
        self.last.append(s[:160])
        if len(self.last) > 40:
            del self.last[0]

    def tok(self, t):
        self.sig.append(t)

    def fault(self, k, n=1):
        if n:
            self.faults[k] = self.faults.get(k, 0) + n

    def probe(self, k, n=1):
        if n:
            self.probes[k] = self.probes.get(k, 0) + n

    def fail(self, kind, detail=''):
        raise Violation(kind, detail)

    def check(self, cond, kind, detail=''):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def same(self, a, b, kind, what='', rtol=0.0, atol=0.0):
        """Arrays equal bit for bit (rtol=atol=0) or to a tolerance."""
        if a is None or b is None:
            self.check(a is None and b is None, kind, '%s: one is None' % what)
            return
        try:
            a = np.asarray(a, dtype=float)
            b = np.asarray(b, dtype=float)
        except Exception as e:
            raise Violation(kind, '%s: not comparable (%r)' % (what, e))
        self.check(a.shape == b.shape, kind, '%s: shape %s != %s' % (what, a.shape, b.shape))
        if rtol == 0 and atol == 0:
            ok = (a == b) | (np.isnan(a) & np.isnan(b))
        else:
            ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))
            i = tuple(bad[0])
            self.fail(kind, '%s: %d of %d differ, first at %s: %r != %r (max diff %.3g)' % (
                what, len(bad), a.size, i, float(np.atleast_1d(a)[i]), float(np.atleast_1d(b)[i]),
                float(np.nanmax(np.abs(a - b)))))

    def use_disk(self, root=None):
        if self.disk is None:
            self.disk = Disk()
        self.disk.reset(root or self.root)
        return self.disk

    def dir(self, name):
        p = os.path.join(self.root, name)
        if not os.path.isdir(p):
            os.makedirs(p)
        return p

    def merge(self, r):
        """Fold the record of a sub-process (fork()) into this run."""
        self.h.update(r['digest'].encode())
        self.nev += r['nev']
        self.sig += r['sigl']
        for k, v in r['faults'].items():
            self.fault(k, v)
        for k, v in r['probes'].items():
            self.probe(k, v)
        self.simtime += r['simtime']
        self.steps += r['steps']
        self.last = (self.last + r['last'])[-40:]

    def record(self):
        return {'digest': self.h.hexdigest(), 'nev': self.nev, 'sigl': self.sig, 'faults': self.faults,
                'probes': self.probes, 'simtime': self.simtime, 'steps': self.steps, 'last': self.last}

    def fork(self, fn, may_crash=False, timeout=100.0):
        """Run fn(ctx) in a child process of its own (fresh copy of this one).

        Returns its value, or the string 'CRASHED' when the disk simulator
        killed it.  Violations and unexpected exceptions pass through."""
        sub = Ctx(self.root)
        sub.disk = self.disk
        status, out = spawn(lambda: run_guarded(lambda: fn(sub), sub), timeout)
        if status == 'timeout':
            raise Violation('no-progress', 'sub-process still running after %g s' % timeout)
        if out is None:
            if may_crash and status == CRASH_CODE:
                return 'CRASHED'
            raise Violation('process-died', 'sub-process ended with status %s without finishing' % (status,))
        self.merge(out['rec'])
        if out['verdict'] == 'violation':
            raise Violation(out['kind'], out['detail'])
        if out['verdict'] == 'error':
            raise HarnessError(out['detail'])
        return out['value']


class HarnessError(Exception):
    pass


def from_repo(tb):
    """Does the traceback pass through the code under test?"""
    for f in traceback.extract_tb(tb):
        fn = os.path.realpath(f.filename)
        if fn.startswith(REPO_SRC) or fn.startswith('/opt/clawpack'):
            return True
    return False


def short_tb(tb):
    out = []
    for f in traceback.extract_tb(tb)[-6:]:
        out.append('%s:%s:%s' % (os.path.basename(f.filename), f.name, f.lineno))
    return ' < '.join(reversed(out))


def run_guarded(fn, ctx):
    try:
        v = fn()
        return {'verdict': 'ok', 'value': v, 'rec': ctx.record()}
    except Violation as e:
        return {'verdict': 'violation', 'kind': e.kind, 'detail': e.detail, 'rec': ctx.record()}
    except HarnessError as e:
        return {'verdict': 'error', 'kind': 'harness', 'detail': str(e), 'rec': ctx.record()}
    except BaseException as e:
        tb = sys.exc_info()[2]
        d = '%s: %s [%s]' % (type(e).__name__, str(e)[:400], short_tb(tb))
        if from_repo(tb):
            return {'verdict': 'violation', 'kind': 'unexpected-exception', 'detail': d, 'rec': ctx.record()}
        return {'verdict': 'error', 'kind': 'harness', 'detail': d + '\n' + traceback.format_exc()[-3000:],
                'rec': ctx.record()}


def jdefault(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, tuple)):
        return list(o)
    return str(o)


def child_main(fn, wfd):
    try:
        out = fn()
        data = json.dumps(out, default=jdefault).encode()
        off = 0
        while off < len(data):
            off += os.write(wfd, data[off:off + 65536])
    except BaseException:
        try:
            traceback.print_exc()
        except BaseException:
            pass
        os._exit(70)
    os._exit(0)


def spawn(fn, timeout):
    """Fork, run fn in the child, return (exit status or 'timeout', parsed output or None)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child_main(fn, w)
    os.close(w)
    buf = b''
    end = time.monotonic() + timeout
    timed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    if timed:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if timed:
        return 'timeout', None
    return decode_status(st), parse(buf)


def decode_status(st):
    if os.WIFSIGNALED(st):
        return -os.WTERMSIG(st)
    return os.WEXITSTATUS(st)


def parse(buf):
    try:
        return json.loads(buf.decode())
    except ValueError:
        return None


# ---------------------------------------------------------------- one simulated run
def load(prop):
    return importlib.import_module('sim.props.' + prop.lower())


def scenario_for(mod, seed, i, tier):
    rng = random.Random('%s/%s/%d' % (seed, mod.ID, i))
    sc = mod.gen(rng, i, tier)
    sc = json.loads(json.dumps(sc, default=jdefault))
    sc['_seed'] = '%s/%s/%d' % (seed, mod.ID, i)
    return sc


def child_run(mod, sc, root):
    os.setsid()
    os.chdir(root)
    fd = os.open(os.path.join(root, 'out.log'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    np.seterr(all='ignore')
    random.seed(0)
    np.random.seed(0)
    ctx = Ctx(root)
    return run_guarded(lambda: mod.run(sc, ctx), ctx)


class Job(object):
    pass


class Runner(object):
    """Runs scenarios, at most `width` at a time, each in its own process."""

    def __init__(self, mod, base, width, timeout):
        self.mod, self.base, self.width, self.timeout = mod, base, width, timeout
        self.jobs = {}
        self.seq = 0

    def start(self, key, sc, timeout=None):
        self.seq += 1
        root = os.path.join(self.base, 'r%d' % self.seq)
        os.makedirs(root)
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for j in self.jobs.values():
                os.close(j.fd)
            child_main(lambda: child_run(self.mod, sc, root), w)
        os.close(w)
        j = Job()
        j.key, j.sc, j.pid, j.fd, j.root, j.buf = key, sc, pid, r, root, b''
        j.timeout = timeout or self.timeout
        j.end = time.monotonic() + j.timeout
        self.jobs[r] = j

    def finish(self, j, timed):
        del self.jobs[j.fd]
        os.close(j.fd)
        try:
            os.killpg(j.pid, signal.SIGKILL)
        except OSError:
            if timed:
                try:
                    os.kill(j.pid, signal.SIGKILL)
                except OSError:
                    pass
        _, st = os.waitpid(j.pid, 0)
        out = None if timed else parse(j.buf)
        if out is None:
            tail = ''
            try:
                with open(os.path.join(j.root, 'out.log'), 'rb') as f:
                    tail = f.read()[-600:].decode('utf8', 'replace')
            except OSError:
                pass
            kind = 'no-progress' if timed else 'process-died'
            det = ('run did not end within %g s' % j.timeout) if timed else 'process ended (status %s) in mid-run: %s' % (
                decode_status(st), tail)
            out = {'verdict': 'violation', 'kind': kind, 'detail': det, 'timed': timed,
                   'rec': Ctx('/').record()}
        shutil.rmtree(j.root, ignore_errors=True)
        return out

    def wait(self):
        """Wait for one job; returns (key, scenario, outcome)."""
        while True:
            now = time.monotonic()
            for j in list(self.jobs.values()):
                if now >= j.end:
                    return j.key, j.sc, self.finish(j, True)
            left = min(j.end for j in self.jobs.values()) - now
            rd, _, _ = select.select(list(self.jobs), [], [], max(0.01, left))
            for fd in rd:
                j = self.jobs[fd]
                d = os.read(fd, 1 << 16)
                if d:
                    j.buf += d
                else:
                    return j.key, j.sc, self.finish(j, False)

    def stop(self):
        for j in list(self.jobs.values()):
            self.finish(j, True)

    def one(self, sc, timeout=None):
        assert not self.jobs
        self.start(0, sc, timeout)
        return self.wait()[2]

    def many(self, scs):
        """Outcomes of a list of scenarios, in order."""
        out = [None] * len(scs)
        i = 0
        while i < len(scs) or self.jobs:
            while i < len(scs) and len(self.jobs) < self.width:
                self.start(i, scs[i])
                i += 1
            k, _, o = self.wait()
            out[k] = o
        return out


# ---------------------------------------------------------------- minimisation
def generic_shrink(sc, mod):
    """Simpler variants of a scenario: the property's own first, then lists and scalars."""
    own = getattr(mod, 'shrink', None)
    if own is not None:
        for s in own(sc):
            yield s
    keep = set(getattr(mod, 'KEEP', ()))
    for key in sorted(sc):
        v = sc[key]
        if key in keep or key.startswith('_'):
            continue
        if isinstance(v, list) and v and key in getattr(mod, 'LISTS', ('ops', 'faults', 'decisions')):
            n = len(v)
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    w = v[:a] + v[a + size:]
                    yield dict(sc, **{key: w})
                size //= 2


def clone(x):
    return json.loads(json.dumps(x))


def minimise(runner, sc, kind, budget_s=60.0, max_runs=160):
    """Greedy: keep any simpler scenario that fails in the same way."""
    end = time.monotonic() + budget_s
    runs = 0
    best = sc
    progress = True
    while progress and time.monotonic() < end and runs < max_runs:
        progress = False
        batch = []
        gen = generic_shrink(best, runner.mod)
        while not progress:
            batch = []
            for s in gen:
                batch.append(clone(s))
                if len(batch) >= runner.width:
                    break
            if not batch or time.monotonic() > end or runs > max_runs:
                break
            outs = runner.many(batch)
            runs += len(batch)
            for s, o in zip(batch, outs):
                if o['verdict'] == 'violation' and o['kind'] == kind:
                    best = s
                    progress = True
                    break
    return best, runs


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e.get('property') == prop and e.get('status') == 'known']


def match_known(known, mod, sc, out):
    for e in known:
        if e.get('kind') == out['kind']:
            m = getattr(mod, 'known_match', None)
            if m is not None and m(e, sc, out):
                return e
    return None


# ---------------------------------------------------------------- check driver
def prepare():
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')


def preimport(mod):
    pre = getattr(mod, 'preimport', None)
    if pre is not None:
        pre()
    else:
        from clawpack import pyclaw, riemann      # noqa: F401
        import clawpack.pyclaw.fileio.ascii       # noqa: F401
        import clawpack.pyclaw.fileio.binary      # noqa: F401
        import clawpack.pyclaw.fileio.hdf5        # noqa: F401
        for d in (1, 2, 3):
            importlib.import_module('clawpack.pyclaw.classic.classic%d' % d)
            importlib.import_module('clawpack.pyclaw.sharpclaw.sharpclaw%d' % d)
    prepare()


def run_check(prop, seed, tier, width, base, count=None, wall=None, quiet=False, digests=None, write_evidence=True):
    mod = load(prop)
    t0 = time.monotonic()
    preimport(mod)
    n = count if count is not None else mod.COUNT[tier]
    cap = wall if wall is not None else {'quick': 420.0, 'thorough': 5400.0}[tier]
    runner = Runner(mod, base, width, getattr(mod, 'TIMEOUT', 60.0))
    known = known_findings(prop)
    agg = {'faults': {}, 'probes': {}, 'simtime': 0.0, 'steps': 0, 'nev': 0}
    sigs = {}
    nontrivial = set()
    viol = []
    errs = []
    known_hit = {}
    done = 0
    samples = []
    started = 0
    stop = False
    results = {}
    while (started < n and not stop) or runner.jobs:
        while started < n and not stop and len(runner.jobs) < width:
            if time.monotonic() - t0 > cap:
                stop = True
                break
            sc = scenario_for(mod, seed, started, tier)
            runner.start(started, sc)
            started += 1
        if not runner.jobs:
            break
        k, sc, o = runner.wait()
        done += 1
        if o.get('timed'):
            # a busy machine is not a verdict: run it again, alone in its slot, with room to spare
            runner2 = Runner(mod, os.path.join(base, 'again%d' % k), 1, max(180.0, 3 * runner.timeout))
            o = runner2.one(sc)
        rec = o['rec']
        results[k] = rec['digest'] + ':' + o['verdict']
        for name in ('faults', 'probes'):
            for a, b in rec[name].items():
                agg[name][a] = agg[name].get(a, 0) + b
        for name in ('simtime', 'steps', 'nev'):
            agg[name] += rec[name]
        s = hashlib.sha1(json.dumps(rec['sigl']).encode()).hexdigest()
        sigs[s] = sigs.get(s, 0) + 1
        if rec['faults']:
            nontrivial.add(s)
            if len(samples) < 3:
                samples.append({'seed': sc['_seed'], 'faults': rec['faults'], 'steps': rec['steps'],
                                'scenario': {a: b for a, b in sc.items() if len(json.dumps(b)) < 500},
                                'signature': ''.join(str(x) for x in rec['sigl'])[:200]})
        if o['verdict'] == 'violation':
            e = match_known(known, mod, sc, o)
            if e is not None:
                known_hit[e['what']] = known_hit.get(e['what'], 0) + 1
            else:
                viol.append((k, sc, o))
                stop = True
        elif o['verdict'] == 'error':
            errs.append((k, sc, o))
            stop = True
    wall_s = time.monotonic() - t0
    if digests is not None:
        digests.update(results)
    rc = 0
    for e in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    nviol = 0
    if viol:
        viol.sort(key=lambda v: v[0])
        k, sc, o = viol[0]
        nviol = len(viol)
        path = report(prop, mod, runner, sc, o)
        if path is None:
            # does not reproduce: the harness is at fault, never reported as a violation
            print('HARNESS-ERROR property=%s run %s did not reproduce: %s %s' % (prop, sc['_seed'], o['kind'], o['detail']))
            rc = 2
        else:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s: %s' % (o['kind'], o['detail'][:600]))
            rc = 1
    if errs and rc == 0:
        k, sc, o = sorted(errs, key=lambda v: v[0])[0]
        print('HARNESS-ERROR property=%s run %s: %s' % (prop, sc['_seed'], o['detail']))
        rc = 2
    if write_evidence:
        ev = {
            'property': prop, 'tier': tier, 'seed': seed if isinstance(seed, int) else 0, 'level': 'exploration',
            'coverage': {
                'evaluations': done,
                'distinct_nontrivial': len(nontrivial),
                'rule': mod.RULE + ' Counted: distinct signatures of runs in which at least one fault, rejection '
                        'or schedule perturbation actually fired.',
                'samples': samples,
                'simulated_runs': done,
                'runs_per_hour': round(done / max(wall_s, 1e-9) * 3600),
                'seeds': '%s/%s/0..%d' % (seed, prop, max(started - 1, 0)),
                'simulated_time': round(agg['simtime'], 6),
                'simulated_time_unit': 'PDE time units',
                'simulated_steps': agg['steps'],
                'events_recorded': agg['nev'],
                'distinct_signatures': len(sigs),
                'faults_fired': dict(sorted(agg['faults'].items())),
                'probes': dict(sorted(agg['probes'].items())),
                'probes_never_hit': [p for p in getattr(mod, 'PROBES', []) if p not in agg['probes']],
                'real_components': mod.REAL,
                'stubbed_components': mod.STUB,
                'known_findings_hit': known_hit,
                'workers': width,
                'completed_planned_runs': done == n,
            },
            'assumptions': mod.ASSUMPTIONS,
            'wall_s': round(wall_s, 2),
            'violations': nviol,
        }
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=jdefault)
    if not quiet:
        print('%s: %d runs (%d distinct, %d with faults), %d steps, %.1f s, faults %s' % (
            prop, done, len(sigs), len(nontrivial), agg['steps'], wall_s, json.dumps(dict(sorted(agg['faults'].items())))))
        miss = [p for p in getattr(mod, 'PROBES', []) if p not in agg['probes']]
        if miss:
            print('%s: probes never hit: %s' % (prop, ' '.join(miss)))
    return rc


def report(prop, mod, runner, sc, o):
    """Confirm, minimise, write the replay file and replay it in a fresh process."""
    runner.stop()
    again = runner.one(sc, 240.0)
    if again['verdict'] != 'violation':
        return None
    kind = again['kind']
    best, runs = minimise(runner, sc, kind)
    fin = runner.one(best, 240.0)
    if fin['verdict'] != 'violation':
        best, fin = sc, again
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    tag = hashlib.sha1(json.dumps(best, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (prop, tag))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': sc['_seed'], 'kind': fin['kind'], 'detail': fin['detail'],
                   'digest': fin['rec']['digest'], 'faults': fin['rec']['faults'], 'trace_tail': fin['rec']['last'],
                   'minimisation_runs': runs, 'scenario': best}, f, indent=1, default=jdefault)
    return path


def run_replay(prop, path, base):
    mod = load(prop)
    preimport(mod)
    with open(path) as f:
        rp = json.load(f)
    runner = Runner(mod, base, 1, max(240.0, getattr(mod, 'TIMEOUT', 60.0)))
    o = runner.one(rp['scenario'])
    print('replay %s: %s %s' % (path, o['verdict'], (o.get('kind') or '') + ' ' + (o.get('detail') or '')))
    print('digest %s (recorded %s)' % (o['rec']['digest'], rp.get('digest')))
    for l in o['rec']['last']:
        print('   ', l)
    if o['verdict'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0 if o['verdict'] == 'ok' else 2

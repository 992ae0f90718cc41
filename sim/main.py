"""Entry point: python -m sim.main check C01 | replay C01 FILE | selftest C01 ..."""
import argparse
import os
import shutil
import sys
import tempfile


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'digests', 'show', 'run1'])
    ap.add_argument('prop')
    ap.add_argument('file', nargs='?')
    ap.add_argument('--count', type=int)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--width', type=int, default=int(os.environ.get('VERIF_WORKERS') or min(8, os.cpu_count() or 1)))
    ap.add_argument('--seed', default=None)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--wall', type=float)
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else os.environ.get('VERIF_SEED', '1')
    try:
        seed = int(seed)
    except ValueError:
        pass
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    base = tempfile.mkdtemp(prefix='pyclawsim.', dir='/tmp')
    os.chdir(base)      # pyclaw's logging configuration writes pyclaw.log into the cwd at import
    rc = 2
    try:
        from sim import core
        print('seed %s tier %s' % (seed, tier), flush=True)
        if a.cmd == 'check':
            rc = core.run_check(a.prop, seed, tier, a.width, base, count=a.count, wall=a.wall)
        elif a.cmd == 'replay':
            rc = core.run_replay(a.prop, os.path.abspath(a.file if os.path.isabs(a.file) else os.path.join(core.VERIF, a.file)), base)
        elif a.cmd == 'digests':
            d = {}
            core.run_check(a.prop, seed, tier, a.width, base, count=a.count, quiet=True, digests=d, write_evidence=False)
            for k in sorted(d):
                print('D', k, d[k])
            rc = 0
        elif a.cmd == 'show':
            import json
            mod = core.load(a.prop)
            core.preimport(mod)
            print(json.dumps(core.scenario_for(mod, seed, a.start, tier), indent=1))
            rc = 0
        elif a.cmd == 'run1':
            mod = core.load(a.prop)
            core.preimport(mod)
            sc = core.scenario_for(mod, seed, a.start, tier)
            r = core.Runner(mod, base, 1, 600)
            o = r.one(sc)
            print(o['verdict'], o.get('kind'), o.get('detail'))
            for l in o['rec']['last']:
                print('   ', l)
            print(o['rec']['faults'], o['rec']['probes'])
            rc = 0
    finally:
        os.chdir('/')
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()

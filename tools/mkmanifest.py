"""Writes MANIFEST.json from the property modules that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C13': 'Order of accuracy and absence of oscillations are functions of one solver call and its arrays: no schedule, '
           'clock, I/O, fault or second party takes part, so there is nothing for a simulator to schedule or inject.',
    'C14': 'Grid coordinates are pure functions of grid attributes in one thread; no nondeterminism or fault reaches them.',
}
TODO = 'Not claimed yet: its simulation is not built.'
NOTE = {
    'C01': 'Seeded search over problems, solvers and wave-speed histories that force rejections at chosen steps, with the real solvers. Assurance is statistical: no violation in the runs explored.',
    'C02': 'Seeded search over histories of evolve calls, limits and rejections, each judged against a model of the allowed outcomes, with the real solvers.',
    'C03': 'Seeded search over partitions of a fixed-step run into calls and controller runs with interludes, compared bit for bit with one call.',
    'C04': 'Seeded search over controller output schedules, options and run histories, compared with a plain run of the solver.',
    'C05': 'Process death injected at every class of disk operation (before, torn, after) at seeded positions; recovery in a fresh process, judged against a model of the completed frames.',
    'C06': 'I/O errors, full disks, short writes and read failures injected at seeded operations in histories of writes and reads, judged against a model of the store.',
    'C07': 'Whole-job simulation: all ranks in one process under a seeded scheduler over a simulated PETSc/MPI layer; petclaw and the kernels are real. Trusts the simulated PETSc.',
    'C08': 'As C07, with collective matching, agreement and deadlock checked at every scheduling point, slow ranks and rank-local Courant peaks injected.',
    'C09': 'As C07, with parallel writes and reads on a simulated MPI-IO layer, whole-job crashes at seeded operations and restarts on other process counts.',
    'C10': 'Seeded search over gauge positions, rejections, run histories, crashes and simulated parallel jobs, judged against records derived from the accepted steps.',
    'C11': 'Seeded histories of other simulations, failures, I/O and garbage-collection points run before a target simulation, compared bit for bit with a fresh process.',
    'C12': 'Domain totals checked at every accepted step of seeded histories of steps, rejections, splits, output and restarts, serial and simulated-parallel.',
    'C15': 'Seeded search over problems, rejections forced by wave-speed histories, call histories and equivalences; the two set-ups are compared attempt by attempt and cell by cell.',
    'C16': 'Every accepted step of seeded histories of rejections and calls is recomputed by an independent reference model of the selected method.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
have = [i for i in ids if os.path.exists(os.path.join(HERE, 'sim', 'props', i.lower() + '.py'))]
m = {'version': 1, 'setup_cmd': './check --setup',
     'checks': [{'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                 'evidence_file': 'evidence/%s.json' % i,
                 'technique': 'deterministic simulation with fault injection: seeded search, forked repeatable runs, reference-model oracle',
                 'level': 'exploration', 'level_note': NOTE[i]} for i in have],
     'not_applicable': [{'property': i, 'reason': NA.get(i, TODO)} for i in ids if i not in have],
     'notes': 'No hooks were added to /repo: the simulator uses its public seams (before_step, step_source, file formats, '
              'the petsc4py/mpi4py imports) and an LD_PRELOAD disk shim. Commits in /repo are "fix:" commits, listed in '
              'known-findings.json.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(have)

"""Writes known-findings.json; the table is the source."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (property, subject of the fix commit, what failed)
FIXED = [
 ('C02', 'evolve_to_time must not overwrite', "a fixed-step call replaced the user's max_steps; later variable-step calls gave up early"),
 ('C02', 'raise when max_steps runs out after', 'returned normally short of tend when the last attempt was rejected'),
 ('C02', 'status dtmin/dtmax describe', 'status dtmin/dtmax included rejected steps'),
 ('C01', 'apply the source term on a step', 'classic: no source term on an accepted step with cfl exactly cfl_max'),
 ('C02', 'SharpClaw time step selection respects dt_max', 'SharpClaw steps exceeded dt_max'),
 ('C02', 'a single-step call retries', 'a single-step call returned without having stepped after a rejection'),
 ('C04', 'check controller.overwrite before', 'overwrite=False refused only after gauge files and F file had been replaced'),
 ('C04', 'a further run continues the frame numbering', 'a second run without keep_copy restarted the frame numbers and overwrote frames'),
 ('C04', 'Controller.run with no output times', 'run with no output times after the initial one failed'),
 ('C10', 'gauges work in a second run', 'second run of the same solution with gauges failed on closed files'),
 ('C10', 'gauges in three dimensions', 'gauges in three dimensions failed'),
 ('C04', 'copies of a State keep index_capa', 'kept frames lost index_capa: a restart from one computed something else'),
 ('C04', 'keep state.q Fortran contiguous', 'second controller run in 2D/3D refused: state.q not Fortran contiguous'),
 ('C06', 'Solution.read replaces the states', 'a second read into a Solution kept the states of the first'),
 ('C04', 'vtk output leaves the solution unchanged', 'vtk output changed the running solution and failed under a controller'),
 ('C11', 'several SharpClaw solvers in one process', 'SharpClaw solvers shared Fortran module arrays: another or a collected solver broke a running one'),
 ('C02', 'a rejected step is always retried with a smaller dt', 'cfl barely above cfl_max: retried with the same dt for ever'),
 ('C04', 'derived-quantity files state', 'derived-quantity files stated num_eqn of q instead of the number of derived quantities: not readable'),
 ('C05', 'a fixed step that divides the interval to rounding', 'restart from an ascii frame with a fixed step refused (interval a rounding below a multiple of dt)'),
 ('C05', 'gauge records are on disk before', 'process death after a completed frame lost gauge records made before it'),
 ('C05', 'an ascii frame becomes readable when', 'process death while an ascii frame was written left a frame that read as plausible wrong data'),
 ('C06', 'a cut-off last number', 'an ascii frame truncated inside its last number read as a different value'),
 ('C06', 'an ascii frame written without aux', 'a frame rewritten without aux read back with the aux of the older frame'),
 ('C06', 'a failure to read problem_data', 'a read error of the pickle file was swallowed, the frame came back without problem_data'),
 ('C06', 'reading and writing frames leave the options', 'options dictionaries were changed by reads and writes and so reached later ones'),
 ('C06', 'aux of a binary frame without ghost', 'aux of a binary frame with num_ghost=0 read as empty'),
 ('C06', 'a failed or interrupted hdf5 write', 'hdf5 write reported success although data was not written; failed or interrupted writes left readable wrong frames; libhdf5 crashed after a full disk'),
 ('C06', 'a failure to read aux of an hdf5', 'a read error in an hdf5 frame gave back uninitialised aux'),
 ('C02', 'a fixed time step stays', 'the last fixed step of a call was shortened for good, and time fell short of the goal by a multiple of the mismatch'),
 ('C10', 'a gauge just below the upper boundary', 'a gauge just below the upper boundary failed with IndexError (index rounded up to num_cells)'),
 ('C10', 'records of gauges added between runs', 'records of a gauge added between runs were appended to memory as new gauges each step'),
 ('C04', 'functionals are written when there is no other output', 'run with functionals but no frames and no gauges failed: output directory missing'),
 ('C11', 'entries of problem_data unknown', 'problem_data entries unknown to the Riemann solver were attached to its common block and then required of every later simulation'),
 ('C11', 'reading a ForestClaw frame leaves', 'reading a ForestClaw frame replaced the ascii header routines of the process; a ForestClaw round trip failed in a fresh process'),
 ('C11', 'tearing down a 3D SharpClaw', 'teardown of a 3D SharpClaw solver freed the arrays of another solver'),
 ('C12', 'SharpClaw uses the capacity function of the cell', 'SharpClaw with a capacity function was not conservative: capacity of a neighbouring cell was used'),
 ('C12', 'wave-based TVD reconstruction reaches', 'wave-based TVD reconstruction left the last interface state unset: not conservative'),
 ('C12', '3D dimensional splitting sweeps', '3D dimensional splitting skipped rows of ghost cells: not conservative on periodic domains'),
 ('C01', 'first-order unsplit 3D steps', 'first-order unsplit 3D steps with transverse corrections used uninitialised memory'),
 ('C07', 'the Courant number of the Python SharpClaw kernel covers', 'the Python SharpClaw kernel took its Courant number over ghost cells too: parallel and serial runs took different steps'),
 ('C07', 'split steps leave out ghost cells next to another process', 'dimensionally split steps took the Courant number of ghost rows next to another process: time steps depended on the decomposition'),
 ('C03', 'keep state.aux Fortran contiguous', 'second controller run in 2D/3D with aux refused: state.aux not Fortran contiguous'),
 ('C08', 'assigning state.p and state.F works', 'PetClaw: assigning state.p or state.F failed (setter misnamed, init_p_da/init_F_da missing)'),
 ('C08', 'refuse to clobber a frame or none', 'PetClaw: with clobber=False a slow process saw the file a faster one had just written, raised alone and the rest deadlocked'),
 ('C08', 'refuse to overwrite output or none', 'PetClaw: with overwrite=False only some processes refused the run, the rest deadlocked'),
 ('C08', 'PetClaw reads hdf5 frames with h5py 3', 'PetClaw: reading any hdf5 frame failed with h5py 3'),
 ('C08', 'find a petsc frame or none', 'PetClaw: a process that looked for a petsc frame too early or late raised alone, the rest deadlocked'),
 ('C09', 'derived-quantity hdf5 files of PetClaw', 'PetClaw: derived-quantity hdf5 files stated num_eqn of q: not readable'),
 ('C09', 'a petsc frame becomes readable when', 'PetClaw: job death while a petsc frame was written left a frame that read as zeros; unpicklable metadata raised on process 0 only'),
 ('C09', 'a petsc frame written without aux', 'PetClaw: a frame rewritten without aux read back with the aux of the older frame'),
 ('C09', 'the grids of all processes together', 'PetClaw: a gauge just below the upper boundary belonged to no process: no records at all'),
 ('C15', 'the superbee limiter of the Python kernels', 'the superbee limiter of the Python kernel was min(0,r) in place of min(2,r): Python and Fortran kernels gave different solutions'),
 ('C15', 'the Courant number of the Python classic kernel', 'the Python classic kernel took its Courant number from edges between ghost cells too: other time steps than the Fortran kernel'),
 ('C16', 'van Leer TVD reconstruction of locally constant', 'SharpClaw TVD reconstruction (lim_type 1) with the van Leer limiter gave NaN on locally constant data'),
 ('C16', 'before_step sees the stage values of a Runge-Kutta', 'with call_before_step_each_stage the hook saw the solution before the step, not the stage value, in Runge-Kutta steps given by coefficients'),
 ('C16', 'every TVD limiter of the Python kernels acts', 'limiters 17, 18, 21, 22, 23 of the Python kernel took one value for all edges (minimum over the whole array): first order, and other solutions in parallel'),
 ('C16', 'TVD limiters of extreme ratios', 'limiters 7, 8, 9, 11, 20 of the Python kernel gave NaN for very large ratios of waves, or for a Courant number of 0 or 1; limiter 21 did not limit it to 0.95'),
]
exec(open(os.path.join(HERE, 'tools', 'known_extra.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'known_extra.py')) else None
KNOWN = globals().get('KNOWN', [])
FIXED = FIXED + globals().get('FIXED_EXTRA', [])
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
out = []
for p, sub, what in FIXED:
    m = [l.split()[0] for l in log if sub in l]
    assert len(m) == 1, (sub, m)
    out.append({'property': p, 'status': 'fixed', 'entry': 'fixed: property=%s %s %s' % (p, m[0], what)})
json.dump({'findings': KNOWN + out}, open(os.path.join(HERE, 'known-findings.json'), 'w'), indent=1)

From cb4f3213cf97263e4e681c0d55ceb05cee3c4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:36 +0000
Subject: [PATCH 01/62] fix: evolve_to_time must not overwrite the user's
 max_steps

A fixed-dt call, a single-step call and a call to an already reached time
stored their own loop bound in solver.max_steps, so a later variable-dt call
on the same solver gave up after that many steps.
---
 src/pyclaw/solver.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 72ce8e1..8a1084f 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -583,12 +583,13 @@ class Solver(object):
         num_steps = 0
 
         # Setup for the run
+        max_steps = self.max_steps
         if not self.dt_variable:
             if take_one_step:
-                self.max_steps = 1
+                max_steps = 1
             else:
-                self.max_steps = int((tend - tstart + 1e-10) / self.dt)
-                if abs(self.max_steps*self.dt - (tend - tstart)) >      \
+                max_steps = int((tend - tstart + 1e-10) / self.dt)
+                if abs(max_steps*self.dt - (tend - tstart)) >      \
                    1e-5 * (tend - tstart):
                     raise Exception('dt does not divide (tend-tstart) and dt '
                                     'is fixed!')
@@ -597,12 +598,12 @@ class Solver(object):
                             'CFL')
         if not take_one_step:
             if tend <= tstart:
-                self.logger.info("Already at or beyond end time: no evolution ",
+                self.logger.info("Already at or beyond end time: no evolution "
                                  "required.")
-                self.max_steps = 0
+                max_steps = 0
 
         # Main time-stepping loop
-        for n in range(self.max_steps):
+        for n in range(max_steps):
 
             state = solution.state
 
@@ -660,7 +661,7 @@ class Solver(object):
 
         if not take_one_step:
             if self.dt_variable and solution.t < tend \
-                    and num_steps == self.max_steps:
+                    and num_steps == max_steps:
                 raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
-- 
2.43.0


From 98415cd5d429aa25cc691d79624164af94d75f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:36 +0000
Subject: [PATCH 02/62] fix: raise when max_steps runs out after a rejected
 step

If at least one attempt had been rejected, num_steps never reached max_steps
and evolve_to_time returned normally short of the requested time.
---
 src/pyclaw/solver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 8a1084f..4323e59 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -660,8 +660,7 @@ class Solver(object):
         # End of main time-stepping loop -------------------------------------
 
         if not take_one_step:
-            if self.dt_variable and solution.t < tend \
-                    and num_steps == max_steps:
+            if self.dt_variable and solution.t < tend:
                 raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
-- 
2.43.0


From d6eeafc136e4cb6573078205202a9ed68e76539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:36 +0000
Subject: [PATCH 03/62] fix: status dtmin/dtmax describe the accepted steps

They were recorded from the proposed dt, before it was clipped to the output
time, for rejected attempts too, and never for the first step.
---
 src/pyclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 4323e59..9c5efb7 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -537,8 +537,6 @@ class Solver(object):
         if self.dt_variable and self.dt_old is not None:
             if cfl > 0.0:
                 self.get_dt_new()
-                self.status['dtmin'] = min(self.dt, self.status['dtmin'])
-                self.status['dtmax'] = max(self.dt, self.status['dtmax'])
             else:
                 self.dt = self.dt_max
         else:
@@ -624,6 +622,8 @@ class Solver(object):
             if self.accept_step:
                 # Accept this step
                 self.status['cflmax'] = max(cfl, self.status['cflmax'])
+                self.status['dtmin'] = min(self.dt, self.status['dtmin'])
+                self.status['dtmax'] = max(self.dt, self.status['dtmax'])
                 if self.dt_variable:
                     solution.t += self.dt
                 else:
-- 
2.43.0


From b1015cd4bf3c0944a4686558844cba5e535caec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:36 +0000
Subject: [PATCH 04/62] fix: apply the source term on a step with cfl equal to
 cfl_max

evolve_to_time accepts a step unless cfl > cfl_max, but ClawSolver.step
skipped the source term already for cfl == cfl_max.
---
 src/pyclaw/classic/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index e2fec21..0439171 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -131,7 +131,7 @@ class ClawSolver(Solver):
         # Check here if the CFL condition is satisfied. 
         # If not, return # immediately to evolve_to_time and let it deal with
         # picking a new step size (dt).
-        if self.cfl.get_cached_max() >= self.cfl_max:
+        if self.cfl.get_cached_max() > self.cfl_max:
             return False
 
         if self.step_source is not None:
-- 
2.43.0


From a67cc88dadcb846facc7885d8b720b38d84f865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:36 +0000
Subject: [PATCH 05/62] fix: SharpClaw time step selection respects dt_max

---
 src/pyclaw/sharpclaw/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 7f991e6..fc88bc6 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -684,6 +684,7 @@ class SharpClawSolver(Solver):
         else:
             self.dt = self.dt * self.cfl_desired / cfl
 
+        self.dt = min(self.dt_max,self.dt)
 
 
 # ========================================================================
-- 
2.43.0


From b0bb1a91b9ad507c8a20a6a3b59943d5499b23c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:55 +0000
Subject: [PATCH 06/62] fix: a single-step call retries a rejected step

evolve_to_time(solution) returned after one attempt even if that attempt had
been rejected, so no step was taken and a controller run with output_style 3
wrote frames after fewer than nstepout steps.
---
 src/pyclaw/solver.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 9c5efb7..4e1c108 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -653,15 +653,19 @@ class Solver(object):
 
             # See if we are finished yet
             if take_one_step:
-                break
+                if self.accept_step:
+                    break
             elif solution.t >= tend:
                 break
 
         # End of main time-stepping loop -------------------------------------
 
-        if not take_one_step:
-            if self.dt_variable and solution.t < tend:
-                raise Exception("Maximum number of timesteps have been taken")
+        if take_one_step:
+            reached = num_steps > 0
+        else:
+            reached = not self.dt_variable or solution.t >= tend
+        if not reached:
+            raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
 
-- 
2.43.0


From 5a4ba6bc18665a405a5757fadf304294cb6bb5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 07/62] fix: check controller.overwrite before anything is
 written

The check ran after the gauge files had been set up: with gauges a fresh
output directory was refused because the run itself had just created it, and
the gauge files of an existing one were deleted before the run was refused.
---
 src/pyclaw/controller.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 772edb1..1172212 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -292,6 +292,12 @@ class Controller(object):
         if self.solver is None or self.solution is None:
             raise Exception('To run, a Controller must have a Solver and a Solution.')
 
+        writes_output = self.output_format is not None or self.compute_F is not None \
+                        or len(self.solution.patch.grid.gauges)>0
+        if writes_output and self.overwrite is False and os.path.exists(self.outdir):
+            raise Exception("Refusing to overwrite existing output data. \
+             \nEither delete/move the directory or set controller.overwrite=True.")
+
         self.start_frame = self.solution.start_frame
         if len(self.solution.patch.grid.gauges)>0:
             self.solution.patch.grid.setup_gauge_files(self.outdir)
@@ -330,9 +336,6 @@ class Controller(object):
         if self.keep_copy:
             self.frames.append(copy.deepcopy(self.solution))
         if self.output_format is not None:
-            if os.path.exists(self.outdir) and self.overwrite is False:
-                raise Exception("Refusing to overwrite existing output data. \
-                 \nEither delete/move the directory or set controller.overwrite=True.")
             if self.compute_p is not None:
                 self.compute_p(self.solution.state)
                 self.solution.write(frame,self.outdir_p,
-- 
2.43.0


From 8a9f1bcaad1b698114fd5fa5a7d1a03d1527126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 08/62] fix: a further run continues the frame numbering
 without keep_copy

The next start frame was the number of frames kept in memory, so without
keep_copy a second run overwrote the frames of the first, and with a solution
loaded from file the numbering went backwards.
---
 src/pyclaw/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 1172212..430931c 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -392,7 +392,7 @@ class Controller(object):
 
         for gfile in self.solution.state.grid.gauge_files: gfile.close()
 
-        self.solution._start_frame = len(self.frames)
+        self.solution._start_frame = frame.get_counter()+1
 
         # Return the current status of the solver
         return status
-- 
2.43.0


From 669d72d9a66242bbaf58e5dfe089b2803b668651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 09/62] fix: Controller.run with no output times after the
 initial one

---
 src/pyclaw/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 430931c..9e01751 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -321,14 +321,14 @@ class Controller(object):
         elif self.output_style == 2:
             output_times = self.out_times
         elif self.output_style == 3:
-            output_times = np.ones((self.num_output_times+1-
-                                    self.start_frame))
+            output_times = np.ones((max(0,self.num_output_times+1-
+                                        self.start_frame)))
         else:
             raise Exception("Invalid output style %s" % self.output_style)
 
         if len(output_times) == 0:
             print("No valid output times; halting.")
-            if self.t == self.tfinal:
+            if self.solution.t == self.tfinal:
                 print("Simulation has already reached tfinal.")
             return None
 
@@ -357,6 +357,7 @@ class Controller(object):
         self.log_info("Solution %s computed for time t=%f" %
                         (frame,self.solution.t) )
 
+        status = self.solver.status
         for t in output_times[1:]:
             if self.output_style < 3:
                 status = self.solver.evolve_to_time(self.solution,t)
-- 
2.43.0


From 4f8cb01e5da663e4c8eb17adb5b7dc3e7e437d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 10/62] fix: gauges work in a second run of the same solution

setup_gauge_files removed the files of the first run and appended the new
file objects after the closed ones, so the first record of the second run
raised 'I/O operation on closed file'.
---
 src/pyclaw/geometry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 240b312..051d84d 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -416,9 +416,14 @@ class Grid(object):
             except OSError:
                 print("gauge directory already exists, ignoring")
 
+        # Files of an earlier run of this simulation are continued
+        previous = [gauge_file.name for gauge_file in self.gauge_files]
+        for gauge_file in self.gauge_files:
+            gauge_file.close()
+        self.gauge_files = []
         for gauge in self.gauge_file_names:
             gauge_file = os.path.join(gauge_path,gauge)
-            if os.path.isfile(gauge_file):
+            if os.path.isfile(gauge_file) and gauge_file not in previous:
                 os.remove(gauge_file)
             self.gauge_files.append(open(gauge_file,'a'))
 
-- 
2.43.0


From abf7e282eb2b33ce80e29c5053d32a4e510f0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 11/62] fix: gauges in three dimensions

---
 src/pyclaw/solver.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 4e1c108..198c0ae 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -689,16 +689,10 @@ class Solver(object):
         if solution.num_aux == 0:
             aux = None
         for i,gauge in enumerate(solution.state.grid.gauges):
-            if self.num_dim == 1:
-                ix=gauge[0]
-                if solution.num_aux > 0:
-                    aux = solution.state.aux[:,ix]
-                q=solution.state.q[:,ix]
-            elif self.num_dim == 2:
-                ix, iy = gauge
-                if solution.num_aux > 0:
-                    aux = solution.state.aux[:,ix,iy]
-                q=solution.state.q[:,ix,iy]
+            index = (slice(None),) + tuple(gauge)
+            if solution.num_aux > 0:
+                aux = solution.state.aux[index]
+            q=solution.state.q[index]
             p=self.compute_gauge_values(q,aux)
             if not hasattr(p,'__iter__'):
                 p = [p]
-- 
2.43.0


From 9433513015231cefe08b4c2963cf308a33298300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 12/62] fix: copies of a State keep index_capa

Without it a run restarted from a kept frame, and the Python SharpClaw kernel
on its stage registers, silently ignored the capacity function.
---
 src/pyclaw/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 9608b0b..5e31ffd 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -312,7 +312,7 @@ class State(object):
         result = self.__class__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
         result.__init__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
         
-        for attr in ('t'):
+        for attr in ('t','index_capa'):
             setattr(result,attr,copy.deepcopy(getattr(self,attr)))
         
         if self.q is not None:
-- 
2.43.0


From 399870dceeeb55994dcbb1fb246e3478962ec8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 13/62] fix: keep state.q Fortran contiguous after a step

In two and three dimensions the classic solvers left state.q as a strided
view of solver.qbc, so State.is_valid() was false and a second
Controller.run() refused the solution.
---
 src/pyclaw/state.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 5e31ffd..620f5c7 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -244,13 +244,14 @@ class State(object):
         
         num_dim = self.patch.num_dim
         if num_dim == 1:
-            self.q = qbc[:,num_ghost:-num_ghost]
+            q = qbc[:,num_ghost:-num_ghost]
         elif num_dim == 2:
-            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
         elif num_dim == 3:
-            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
         else:
             raise Exception("Assumption (1 <= num_dim <= 3) violated.")
+        self.q = q.copy('F')
             
     def set_aux_from_auxbc(self,num_ghost,auxbc):
         """
-- 
2.43.0


From a331d2513dd1ffa2f1d5097fbea2d9be97be2de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 14/62] fix: Solution.read replaces the states of an earlier
 read

Each read appended its patches to those already there, so after a second (or
a failed first) read the object still presented the old data.
---
 src/pyclaw/solution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 08d209b..05a10ef 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -355,6 +355,9 @@ class Solution(object):
         else:
             options['format'] = file_format
 
+        # Reading replaces whatever this object held before
+        self.states = []
+
         path = os.path.expandvars(os.path.expanduser(path))
         if file_prefix is None:
             read_func(self,frame,path,read_aux=read_aux,options=options)
-- 
2.43.0


From 47bde5153ee99b36e8a33ff9c85c1718449213d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:14 +0000
Subject: [PATCH 15/62] fix: vtk output leaves the solution unchanged and works
 in a controller

Writing a frame appended the overlap marker to state.q as an extra equation,
and the FrameCounter passed by Controller.run was refused.
---
 src/pyclaw/fileio/claw_vtk.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index e4c3785..4100eff 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -7,8 +7,10 @@
 
 import sys
 import os
+import copy
 import numpy as np
 from clawpack.pyclaw import Solution
+from clawpack.pyclaw.util import FrameCounter
 
 import logging
 
@@ -107,9 +109,12 @@ def write(
     binary = options.get("binary", False)
 
     # check types.
-    assert(isinstance(frame, int))
+    assert(isinstance(frame, (int, FrameCounter)))
     assert(isinstance(solution, Solution))
 
+    # the overlap marker is added to q, so work on a copy of the solution.
+    solution = copy.deepcopy(solution)
+
     # calculate overlapped status, used to identify some cells as ghosts.
     _set_overlapped_status(solution)
 
-- 
2.43.0


From 8e0b3bdc6e710cd26b8a2617bde2262be2cd3608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:44 +0000
Subject: [PATCH 16/62] fix: several SharpClaw solvers in one process

The F90 modules hold the work arrays and parameters of one solver.  Setting
up a second solver while the first was still referenced aborted the process
(allocation of an allocated array), and collecting an old solver deallocated
the arrays that a newer one was using.
---
 src/pyclaw/sharpclaw/solver.py | 43 +++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index fc88bc6..d051f82 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -177,6 +177,7 @@ class SharpClawSolver(Solver):
         self._registers = None
         self.dq_dt = None
         self.dt_old = None        
+        self._fortran_claim = None
 
         # Used only if time integrator is 'RK'
         self.a = None
@@ -255,10 +256,8 @@ class SharpClawSolver(Solver):
             if self.fmod is None:
                 so_name = 'clawpack.pyclaw.sharpclaw.sharpclaw'+str(self.num_dim)
                 self.fmod = __import__(so_name,fromlist=['clawpack.pyclaw.sharpclaw'])
-            state.set_cparam(self.fmod)
-            state.set_cparam(self.rp)
-            state.set_cparam(self.tfluct)
-            self._set_fortran_parameters(state,self.fmod.clawparams,self.fmod.workspace,self.fmod.reconstruct)
+            self._fortran_claim = None
+            self._claim_fortran_modules(state)
 
         self._allocate_bc_arrays(state)
 
@@ -270,15 +269,41 @@ class SharpClawSolver(Solver):
         Deallocate F90 module arrays.
         Also delete Fortran objects, which otherwise tend to persist in Python sessions.
         """
-        if self.kernel_language=='Fortran':
-            self.fmod.clawparams.dealloc_clawparams()
-            self.fmod.workspace.dealloc_workspace(self.char_decomp)
-            self.fmod.reconstruct.dealloc_recon_workspace(self.fmod.clawparams.lim_type,self.fmod.clawparams.char_decomp)
+        if self.kernel_language=='Fortran' and self.fmod is not None:
+            if self._fortran_claim is not None and self.fmod._claim is self._fortran_claim:
+                self._release_fortran_modules()
             del self.fmod
 
         super(SharpClawSolver,self).__del__()
 
 
+    def _claim_fortran_modules(self,state):
+        r"""
+        The F90 modules hold the parameters and work arrays of one solver at a
+        time.  Replace those of another solver, if there are any, by our own.
+        """
+        if self._fortran_claim is not None and self.fmod._claim is self._fortran_claim:
+            return
+        if getattr(self.fmod,'_claim',None) is not None:
+            self._release_fortran_modules()
+        state.set_cparam(self.fmod)
+        state.set_cparam(self.rp)
+        state.set_cparam(self.tfluct)
+        self._fortran_claim = self.fmod._claim = object()
+        self._set_fortran_parameters(state,self.fmod.clawparams,self.fmod.workspace,self.fmod.reconstruct)
+
+
+    def _release_fortran_modules(self):
+        r"""
+        Deallocate the F90 module arrays, whichever solver they belong to.
+        """
+        clawparams = self.fmod.clawparams
+        self.fmod.reconstruct.dealloc_recon_workspace(clawparams.lim_type,clawparams.char_decomp)
+        self.fmod.workspace.dealloc_workspace(clawparams.char_decomp)
+        clawparams.dealloc_clawparams()
+        self.fmod._claim = None
+
+
     # ========== Time stepping routines ======================================
     def step(self,solution,take_one_step,tstart,tend):
         """Evolve q over one time step.
@@ -287,6 +312,8 @@ class SharpClawSolver(Solver):
         `solver.time_integrator`.
         """
         state = solution.states[0]
+        if self.kernel_language=='Fortran':
+            self._claim_fortran_modules(state)
         step_index = self.status['numsteps'] + 1
         if self.accept_step == True:
             self.cfl.set_global_max(0.)
-- 
2.43.0


From 92f443365eae61d2aad3b1ddc9e2f04856d22717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:34 +0000
Subject: [PATCH 17/62] fix: a rejected step is always retried with a smaller
 dt

With cfl_desired == cfl_max and a Courant number a rounding error above it
the factor cfl_desired/cfl had no effect on dt (or the adjustment to hit tend
undid it), and the same step was rejected again until max_steps ran out.
---
 src/pyclaw/sharpclaw/solver.py | 3 +++
 src/pyclaw/solver.py           | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index d051f82..99d5be5 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -710,6 +710,9 @@ class SharpClawSolver(Solver):
         # Step-size update for RK methods
         else:
             self.dt = self.dt * self.cfl_desired / cfl
+            if not self.accept_step:
+                # cfl_desired/cfl may be 1 up to rounding
+                self.dt = min(self.dt,0.999*self.dt_old)
 
         self.dt = min(self.dt_max,self.dt)
 
diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 198c0ae..7c834fc 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -530,7 +530,11 @@ class Solver(object):
 
     def get_dt_new(self):
         cfl = self.cfl.get_cached_max()
-        self.dt = min(self.dt_max,self.dt * self.cfl_desired / cfl)
+        dt_new = min(self.dt_max,self.dt * self.cfl_desired / cfl)
+        if not self.accept_step:
+            # cfl_desired/cfl may be 1 up to rounding
+            dt_new = min(dt_new,0.999*self.dt)
+        self.dt = dt_new
 
     def get_dt(self,t,tstart,tend,take_one_step):
         cfl = self.cfl.get_cached_max()
-- 
2.43.0


From db6bc5612c07cd76427029aeb178ba78b86c6645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:05 +0000
Subject: [PATCH 18/62] fix: keep state.aux Fortran contiguous after a step

As for q: in two and three dimensions the classic solvers left state.aux as a
strided view of solver.auxbc, so a second Controller.run() refused the
solution.
---
 src/pyclaw/state.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 620f5c7..d13e389 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -260,13 +260,14 @@ class State(object):
         
         patch = self.patch
         if patch.num_dim == 1:
-            self.aux = auxbc[:,num_ghost:-num_ghost]
+            aux = auxbc[:,num_ghost:-num_ghost]
         elif patch.num_dim == 2:
-            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
         elif patch.num_dim == 3:
-            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
         else:
             raise Exception("Assumption (1 <= num_dim <= 3) violated.")
+        self.aux = aux.copy('F')
 
 
     def get_qbc_from_q(self,num_ghost,qbc):
-- 
2.43.0


From adfc5e478e2c95a5666cc80275a65a5c452c293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 19/62] fix: derived-quantity files state the number of
 components they hold

With write_p the ascii and hdf5 headers gave num_eqn instead of mp, so that a
p file with mp != num_eqn could not be read back (or lost components).
---
 src/pyclaw/fileio/ascii.py | 2 +-
 src/pyclaw/fileio/hdf5.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index 39e3cb6..643deab 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -42,7 +42,7 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
     file_name = '%s.t%s' % (file_prefix,str(frame).zfill(4))
     with open(os.path.join(path,file_name),'w') as f:
         f.write("%18.8e     time\n" % solution.t)
-        f.write("%5i                  num_eqn\n" % solution.num_eqn)
+        f.write("%5i                  num_eqn\n" % (solution.mp if write_p else solution.num_eqn))
         f.write("%5i                  nstates\n" % len(solution.states))
         f.write("%5i                  num_aux\n" % solution.num_aux)
         f.write("%5i                  num_dim\n" % solution.domain.num_dim)
diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 69e2c54..fe56939 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -111,7 +111,7 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
 
                 # General patch properties
                 subgroup.attrs['t'] = state.t
-                subgroup.attrs['num_eqn'] = state.num_eqn
+                subgroup.attrs['num_eqn'] = state.mp if write_p else state.num_eqn
                 subgroup.attrs['num_aux'] = state.num_aux
                 for attr in ['num_ghost','patch_index','level']:
                     if hasattr(patch,attr):
-- 
2.43.0


From 0c9ed7eccfd1fc43008e57a2031987283a2a7ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:27 +0000
Subject: [PATCH 20/62] fix: a fixed step that divides the interval to rounding
 is accepted

int() of a quotient slightly below an integer (as after a restart from an
ascii frame, whose time has nine digits) lost a step, and the call raised.
---
 src/pyclaw/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 7c834fc..7a53d58 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -590,7 +590,7 @@ class Solver(object):
             if take_one_step:
                 max_steps = 1
             else:
-                max_steps = int((tend - tstart + 1e-10) / self.dt)
+                max_steps = int(round((tend - tstart) / self.dt))
                 if abs(max_steps*self.dt - (tend - tstart)) >      \
                    1e-5 * (tend - tstart):
                     raise Exception('dt does not divide (tend-tstart) and dt '
-- 
2.43.0


From f4b3b9340b424956ff66cb50e7b4affd1bea652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:05 +0000
Subject: [PATCH 21/62] fix: gauge records are on disk before the frame they
 lead up to

The gauge files were flushed after the frame was written, so a process that
died in between left a complete frame without its gauge records.
---
 src/pyclaw/controller.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 9e01751..9dbac21 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -313,6 +313,7 @@ class Controller(object):
 
         # Write initial gauge values
         self.solver.write_gauge_values(self.solution)
+        self.flush_gauges()
 
         # Output styles
         if self.output_style == 1:
@@ -366,6 +367,8 @@ class Controller(object):
                 for n in range(self.nstepout):
                     status = self.solver.evolve_to_time(self.solution)
             frame.increment()
+            # The gauge records up to a frame are on disk before the frame is
+            self.flush_gauges()
             if self.keep_copy:
                 # Save current solution to dictionary with frame as key
                 self.frames.append(copy.deepcopy(self.solution))
@@ -388,8 +391,6 @@ class Controller(object):
 
             self.log_info("Solution %s computed for time t=%f"
                           % (frame,self.solution.t))
-            for gfile in self.solution.state.grid.gauge_files:
-                gfile.flush()
 
         for gfile in self.solution.state.grid.gauge_files: gfile.close()
 
@@ -412,6 +413,10 @@ class Controller(object):
                 F_file.write(str(t)+' '+' '.join(str(j) for j in F) + '\n')
                 F_file.close()
 
+    def flush_gauges(self):
+        for gfile in self.solution.state.grid.gauge_files:
+            gfile.flush()
+
     def is_proc_0(self):
         return True
 
-- 
2.43.0


From e155b1e85abb8158e02b91f97fd21da9e3887e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:30 +0000
Subject: [PATCH 22/62] fix: an ascii frame becomes readable when it is
 complete

fort.t was written first.  A process that died (or a write that failed) later
in the frame left a readable frame with the data of an older file, with the
aux array of frame 0, or without problem_data and mapping.
---
 src/pyclaw/fileio/ascii.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index 643deab..e45f3c6 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -38,16 +38,12 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
      - *options* - (dict) Dictionary of optional arguments dependent on 
        the format being written.  ``default = {}``
     """
-    # Write fort.txxxx file
-    file_name = '%s.t%s' % (file_prefix,str(frame).zfill(4))
-    with open(os.path.join(path,file_name),'w') as f:
-        f.write("%18.8e     time\n" % solution.t)
-        f.write("%5i                  num_eqn\n" % (solution.mp if write_p else solution.num_eqn))
-        f.write("%5i                  nstates\n" % len(solution.states))
-        f.write("%5i                  num_aux\n" % solution.num_aux)
-        f.write("%5i                  num_dim\n" % solution.domain.num_dim)
-        f.write("%5i                  num_ghost\n" % 0)
-        f.write("%s                  file_format\n" % "ascii")
+    # The header makes the frame readable: it is written last, and that of an
+    # older frame goes first, so that an interrupted write leaves no frame
+    # behind that mixes old and new or complete and incomplete files.
+    header_filename = os.path.join(path,'%s.t%s' % (file_prefix,str(frame).zfill(4)))
+    if os.path.exists(header_filename):
+        os.remove(header_filename)
 
     # Write fort.qxxxx file
     file_name = '%s.q%s' % (file_prefix,str(frame).zfill(4))
@@ -80,6 +76,16 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
     with open(pickle_filename,'wb') as pickle_file:
         pickle.dump(sol_dict, pickle_file)
 
+    # Write fort.txxxx file
+    with open(header_filename,'w') as f:
+        f.write("%18.8e     time\n" % solution.t)
+        f.write("%5i                  num_eqn\n" % (solution.mp if write_p else solution.num_eqn))
+        f.write("%5i                  nstates\n" % len(solution.states))
+        f.write("%5i                  num_aux\n" % solution.num_aux)
+        f.write("%5i                  num_dim\n" % solution.domain.num_dim)
+        f.write("%5i                  num_ghost\n" % 0)
+        f.write("%s                  file_format\n" % "ascii")
+
 
 def write_patch_header(f,patch):
     f.write("%5i                  patch_number\n" % patch.patch_index)
-- 
2.43.0


From ede3e754ef57348a52ddbaaabd3b0d6d48355055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:30 +0000
Subject: [PATCH 23/62] fix: a cut-off last number in an ascii frame is not
 read as a value

---
 src/pyclaw/fileio/ascii.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index e45f3c6..c6188c7 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -368,7 +368,7 @@ def read_array(f, state, num_var):
                 l = []
                 while len(l)<num_var:
                     line = f.readline()
-                    if line == '':
+                    if not line.endswith('\n'): # cut off, or nothing left
                         raise IOError('Unexpected EOF in %s' % f.name)
                     l = l + line.split()
                 for m in range(num_var):
@@ -379,7 +379,7 @@ def read_array(f, state, num_var):
                     l = []
                     while len(l) < num_var:
                         line = f.readline()
-                        if line == '':
+                        if not line.endswith('\n'): # cut off, or nothing left
                             raise IOError('Unexpected EOF in %s' % f.name)
                         l = l + line.split()
                     for m in range(num_var):
@@ -392,7 +392,7 @@ def read_array(f, state, num_var):
                         l=[]
                         while len(l) < num_var:
                             line = f.readline()
-                            if line == '':
+                            if not line.endswith('\n'): # cut off, or nothing left
                                 raise IOError('Unexpected EOF in %s' % f.name)
                             l = l + line.split()
                         for m in range(num_var):
-- 
2.43.0


From b7468c87957e919241a6257f97e5298e5aa79b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:30 +0000
Subject: [PATCH 24/62] fix: an ascii frame written without aux does not keep
 the aux file of an older one

---
 src/pyclaw/fileio/ascii.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index c6188c7..5a8fc7e 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -57,12 +57,15 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
             write_array(q_file, state.patch, q)
 
     # Write fort.auxxxxx file if required
+    aux_filename = os.path.join(path,'%s.a%s' % (file_prefix,str(frame).zfill(4)))
     if solution.num_aux > 0 and write_aux:
-        file_name = '%s.a%s' % (file_prefix,str(frame).zfill(4))
-        with open(os.path.join(path,file_name),'w') as aux_file:
+        with open(aux_filename,'w') as aux_file:
             for state in solution.states:
                 write_patch_header(aux_file,state.patch)
                 write_array(aux_file,state.patch,state.aux)
+    elif os.path.exists(aux_filename):
+        # This would be read back as the aux array of this frame
+        os.remove(aux_filename)
 
     # Write fort.pklxxxx file
     sol_dict = {'t':solution.t,'num_eqn':solution.num_eqn,'nstates':len(solution.states),
-- 
2.43.0


From 9404de74ab34d656134d32387c063eab4021b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:30 +0000
Subject: [PATCH 25/62] fix: a failure to read problem_data and mapc2p of an
 ascii frame is reported

The file is optional, but when it is there and reading it fails the frame was
returned without problem_data and with the identity mapping.
---
 src/pyclaw/fileio/ascii.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index 5a8fc7e..6a1eba3 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -161,14 +161,11 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
     pickle_filename = os.path.join(path, '%s.pkl' % file_prefix) + str(frame).zfill(4)
     problem_data = None
     mapc2p = None
-    try:
-        if os.path.exists(pickle_filename):
-            with open(pickle_filename,'rb') as pickle_file:
-                value_dict = pickle.load(pickle_file)
-            problem_data = value_dict.get('problem_data',None)
-            mapc2p       = value_dict.get('mapc2p',None)
-    except IOError:
-        logger.info("Unable to open pickle file %s" % (pickle_filename))
+    if os.path.exists(pickle_filename):
+        with open(pickle_filename,'rb') as pickle_file:
+            value_dict = pickle.load(pickle_file)
+        problem_data = value_dict.get('problem_data',None)
+        mapc2p       = value_dict.get('mapc2p',None)
 
 
     # Construct path names
-- 
2.43.0


From d753019ebfa874d5e24927496b92e4bb379ad285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 26/62] fix: reading and writing frames leave the options
 dictionary alone

A dictionary passed to Solution.read came back with a 'format' entry, which
hdf5.write then passed on to h5py.
---
 src/pyclaw/fileio/hdf5.py | 3 +--
 src/pyclaw/solution.py    | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index fe56939..86c7f12 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -94,8 +94,7 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
     """
     option_defaults = {'compression':None,'compression_opts':None,
                        'chunks':None,'shuffle':False,'fletcher32':False}
-    for (k,v) in option_defaults.items():
-        options[k] = options.get(k,v)
+    options = dict(option_defaults,**options)
     
     filename = os.path.join(path,'%s%s.hdf' % 
                                 (file_prefix,str(frame).zfill(4)))
diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 05a10ef..6fb05c3 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -350,6 +350,7 @@ class Solution(object):
 
         read_func = self.get_read_func(file_format)
 
+        options = dict(options)
         if file_format == 'petsc':
             options['format'] = 'binary'
         else:
-- 
2.43.0


From 579e285dbaaa44e19fd8d00b7b1149b2f577f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:01 +0000
Subject: [PATCH 27/62] fix: aux of a binary frame without ghost cells is not
 read as empty

---
 src/pyclaw/fileio/binary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/binary.py b/src/pyclaw/fileio/binary.py
index 6604815..1fc94ed 100644
--- a/src/pyclaw/fileio/binary.py
+++ b/src/pyclaw/fileio/binary.py
@@ -190,7 +190,9 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
             auxpatch = np.reshape(auxpatch, aux_shape, order='F')
 
             # Fill in aux values
-            if patch.num_dim == 1:
+            if mbc == 0:
+                state.aux = auxpatch
+            elif patch.num_dim == 1:
                 ##  NOT YET TESTED ##
                 state.aux = auxpatch[:,mbc:-mbc]
             elif patch.num_dim == 2:
-- 
2.43.0


From 3fb17ce601c78bd7ce3870a5b80f083eaac579c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:05 +0000
Subject: [PATCH 28/62] fix: a failed or interrupted hdf5 write is reported and
 never read as a frame

---
 src/pyclaw/fileio/hdf5.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 86c7f12..35988eb 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -100,7 +100,9 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
                                 (file_prefix,str(frame).zfill(4)))
     
     if use_h5py:
-        with h5py.File(filename,'w') as f:
+        # The file is assembled in memory, since libhdf5 does not report every
+        # failure to write and may crash after one
+        with h5py.File(filename,'w',driver='core',backing_store=False) as f:
         
             # For each patch, write out attributes
             for state in solution.states:
@@ -136,7 +138,17 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
                 subgroup.create_dataset('q',data=q,**options)
                 if write_aux and state.num_aux > 0:
                     subgroup.create_dataset('aux',data=state.aux,**options)
-        
+
+            f.flush()
+            image = f.id.get_file_image()
+
+        # The frame appears under its name only when it is complete, so that a
+        # write that fails or is interrupted is never read as a frame
+        tmpname = filename + '.tmp'
+        with open(tmpname,'wb') as f:
+            f.write(image)
+        os.replace(tmpname,filename)
+
     elif use_PyTables:
         # f = tables.openFile(filename, mode = "w", title = options['title'])
         logging.critical("PyTables has not been implemented yet.")
-- 
2.43.0


From 76a180b12b946160213298d2dc2c5ad2254fe71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:07 +0000
Subject: [PATCH 29/62] fix: a failure to read aux of an hdf5 frame is reported

---
 src/pyclaw/fileio/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 35988eb..d4e55e5 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -209,7 +209,7 @@ def read(solution,frame,path='./',file_prefix='claw',read_aux=True,
                 state.q = patch['q'][:].ravel(order='F').reshape(state.q.shape,order='F')
 
                 # Read in aux if applicable
-                if read_aux and patch.get('aux',None) is not None:
+                if read_aux and 'aux' in patch:
                     state.aux = patch['aux'][:].ravel(order='F').reshape(state.aux.shape,order='F')
 
                 solution.states.append(state)
-- 
2.43.0


From 58b6cf5553f2c74fb046135330e66d645adfbaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:40 +0000
Subject: [PATCH 30/62] fix: a fixed time step stays the one that was set

---
 src/pyclaw/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 7a53d58..5854bc9 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -547,7 +547,7 @@ class Solver(object):
             self.dt_old = self.dt
 
         # Adjust dt so that we hit tend exactly if we are near tend
-        if not take_one_step:
+        if self.dt_variable and not take_one_step:
             if t + self.dt > tend and tstart < tend:
                 self.dt = tend - t
             if tend - t - self.dt < 1.e-14*t:
-- 
2.43.0


From acda2b6bf63e2006d78d52b1861114af781d2b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:03 +0000
Subject: [PATCH 31/62] fix: a gauge just below the upper boundary belongs to
 the last cell

---
 src/pyclaw/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 051d84d..f43e11e 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -397,8 +397,10 @@ class Grid(object):
         for gauge in gauge_coords:
             # Check if gauge belongs to this grid:
             if all(self.lower[n]<=gauge[n]<self.upper[n] for n in range(self.num_dim)):
-                # Set indices relative to this grid
-                gauge_index = [int((gauge[n]-self.lower[n])//self.delta[n])
+                # Set indices relative to this grid (rounding must not
+                # carry a gauge close to the upper end beyond the last cell)
+                gauge_index = [min(int((gauge[n]-self.lower[n])//self.delta[n]),
+                                   self.num_cells[n]-1)
                                for n in range(self.num_dim)]
                 gauge_file_name = 'gauge'+'_'.join(str(coord) for coord in gauge)+'.txt'
                 self.gauge_file_names.append(gauge_file_name)
-- 
2.43.0


From 7bd03f5db114e5db915c0a0714321feaeec18c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:03 +0000
Subject: [PATCH 32/62] fix: records of gauges added between runs are kept in
 memory

---
 src/pyclaw/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 5854bc9..a2611a5 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -703,7 +703,7 @@ class Solver(object):
             t=solution.t
             if solution.state.keep_gauges:
                 gauge_data = solution.state.gauge_data
-                if len(gauge_data) == len(solution.state.grid.gauges):
+                if i < len(gauge_data):
                     gauge_data[i]=np.vstack((gauge_data[i],np.append(t,p)))
                 else:
                     gauge_data.append(np.append(t,p))
-- 
2.43.0


From 2e8c2ed9f5cfda0949c4beb2b73b32b791039613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:36 +0000
Subject: [PATCH 33/62] fix: functionals are written when there is no other
 output

---
 src/pyclaw/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 9dbac21..67ce4d5 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -409,6 +409,7 @@ class Controller(object):
                 F[i] = self.solution.state.sum_F(i)
             if self.is_proc_0():
                 t=self.solution.t
+                os.makedirs(self.outdir or os.curdir,exist_ok=True)
                 F_file = open(self.F_path,mode)
                 F_file.write(str(t)+' '+' '.join(str(j) for j in F) + '\n')
                 F_file.close()
-- 
2.43.0


From cb61abee1a24909827376325b1f422ffc463cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:40 +0000
Subject: [PATCH 34/62] fix: entries of problem_data unknown to the Riemann
 solver do not reach later simulations

---
 src/pyclaw/state.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index d13e389..c2fee83 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -227,7 +227,10 @@ class State(object):
                 raise Exception("""Some required value(s) in the cparam common 
                                    block in the Riemann solver have not been 
                                    set in problem_data.""")
-            for global_var_name,global_var_value in self.problem_data.items():
+            # Other entries of problem_data must not be attached to cparam, where
+            # they would be required of every later state
+            for global_var_name in paramlist:
+                global_var_value = self.problem_data[global_var_name]
                 setattr(fortran_module.cparam,global_var_name,global_var_value)
 
     def set_num_ghost(self,num_ghost):
-- 
2.43.0


From 57eb66284baa15502409e3d19ef99b597ab34b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:58 +0000
Subject: [PATCH 35/62] fix: reading a ForestClaw frame leaves the ascii format
 of the process alone

---
 src/forestclaw/fileio/__init__.py |  6 +-----
 src/forestclaw/fileio/ascii.py    | 24 +++++++++++++++---------
 src/pyclaw/fileio/ascii.py        | 21 +++++++++++++++------
 src/pyclaw/solution.py            |  5 +++--
 4 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/forestclaw/fileio/__init__.py b/src/forestclaw/fileio/__init__.py
index 42fbfe7..27ef514 100644
--- a/src/forestclaw/fileio/__init__.py
+++ b/src/forestclaw/fileio/__init__.py
@@ -5,10 +5,6 @@
 import logging
 logger = logging.getLogger('pyclaw.fileio')
 
-from . import ascii as forestascii
-from clawpack.pyclaw.fileio import ascii
-
-ascii.read_patch_header = forestascii.read_patch_header
-ascii.write_patch_header = forestascii.write_patch_header
+from . import ascii
 
 __all__ = ["ascii.read", "ascii.write"]
diff --git a/src/forestclaw/fileio/ascii.py b/src/forestclaw/fileio/ascii.py
index 8464f73..9086b0a 100644
--- a/src/forestclaw/fileio/ascii.py
+++ b/src/forestclaw/fileio/ascii.py
@@ -9,14 +9,26 @@ import numpy as np
 from clawpack import forestclaw
 
 from .. import Dimension, Patch
-from clawpack.pyclaw.fileio.ascii import write
-from clawpack.pyclaw.fileio.ascii import read
+from clawpack.pyclaw.fileio import ascii
 from clawpack.pyclaw.util import read_data_line
 
 
 
 logger = logging.getLogger('pyclaw.fileio')
 
+def write(solution, frame, path, file_prefix='fort', write_aux=False,
+                    options={}, write_p=False):
+    r"""Write a frame with ForestClaw patch headers, see pyclaw.fileio.ascii"""
+    ascii.write(solution, frame, path, file_prefix, write_aux, options,
+                write_p, write_header=write_patch_header)
+
+
+def read(solution, frame, path='./', file_prefix='fort', read_aux=False,
+                    options={}):
+    r"""Read a frame with ForestClaw patch headers, see pyclaw.fileio.ascii"""
+    ascii.read(solution, frame, path, file_prefix, read_aux, options,
+               read_header=read_patch_header)
+
 
 def write_patch_header(f, patch):
     f.write("%5i                  patch_number\n" % patch.patch_index)
@@ -45,7 +57,7 @@ def read_patch_header(f, num_dim):
        by the header data.
     """
 
-    n = np.zeros((num_dim))
+    n = np.zeros((num_dim), dtype=int)
     d = np.zeros((num_dim))
     lower = np.zeros((num_dim))
 
@@ -79,9 +91,3 @@ def read_patch_header(f, num_dim):
     patch.mpi_rank = mpi_rank
 
     return patch
-
-# # Replace the ascii module functions with those defined above
-# # ascii.read_patch_header = read_patch_header
-# # ascii.write_patch_header = write_patch_header
-# read = ascii.read
-# write = ascii.write
diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index 6a1eba3..7c87df5 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -15,7 +15,7 @@ from clawpack.pyclaw.util import read_data_line
 logger = logging.getLogger('pyclaw.fileio')
 
 def write(solution, frame, path, file_prefix='fort', write_aux=False,
-                    options={}, write_p=False):
+                    options={}, write_p=False, write_header=None):
     r"""
     Write out ascii data file
     
@@ -37,7 +37,12 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
        auxiliary array should be written out.  ``default = False``
      - *options* - (dict) Dictionary of optional arguments dependent on 
        the format being written.  ``default = {}``
+     - *write_header* - (func) Function that writes the header of a patch, for
+       formats with other patch headers.  ``default = write_patch_header``
     """
+    if write_header is None:
+        write_header = write_patch_header
+
     # The header makes the frame readable: it is written last, and that of an
     # older frame goes first, so that an interrupted write leaves no frame
     # behind that mixes old and new or complete and incomplete files.
@@ -49,7 +54,7 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
     file_name = '%s.q%s' % (file_prefix,str(frame).zfill(4))
     with open(os.path.join(path,file_name),'w') as q_file:
         for state in solution.states:
-            write_patch_header(q_file,state.patch)
+            write_header(q_file,state.patch)
             if write_p:
                 q = state.p
             else:
@@ -61,7 +66,7 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
     if solution.num_aux > 0 and write_aux:
         with open(aux_filename,'w') as aux_file:
             for state in solution.states:
-                write_patch_header(aux_file,state.patch)
+                write_header(aux_file,state.patch)
                 write_array(aux_file,state.patch,state.aux)
     elif os.path.exists(aux_filename):
         # This would be read back as the aux array of this frame
@@ -136,7 +141,7 @@ def write_array(f,patch,q):
 
 
 def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
-                options={}):
+                options={},read_header=None):
     r"""
     Read in a frame of ascii formatted files, and enter the data into the
     solution object.
@@ -156,7 +161,11 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
        in.  ``default = False``
      - *options* - (dict) Dictionary of optional arguments dependent on 
        the format being read in.  ``default = {}``
+     - *read_header* - (func) Function that reads the header of a patch, for
+       formats with other patch headers.  ``default = read_patch_header``
     """
+    if read_header is None:
+        read_header = read_patch_header
 
     pickle_filename = os.path.join(path, '%s.pkl' % file_prefix) + str(frame).zfill(4)
     problem_data = None
@@ -183,7 +192,7 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
         # Loop through every patch setting the appropriate information
         for m in range(nstates):
             # Read header for this patch
-            patch = read_patch_header(f, num_dim)
+            patch = read_header(f, num_dim)
 
             # Construct state
             state= pyclaw.state.State(patch,num_eqn,num_aux)
@@ -229,7 +238,7 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
         with open(fname,'r') as f:
             for state in solution.states:
                 patch = state.patch
-                aux_patch = read_patch_header(f, num_dim)
+                aux_patch = read_header(f, num_dim)
 
                 # Read patch header and check that it matches that from fort.qxxxx
                 assert patch.level == aux_patch.level, \
diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 6fb05c3..43a4b79 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -344,8 +344,9 @@ class Solution(object):
         except:
             pass
 
-        if file_format2 is not None:
-            # value was read in from file, use it:
+        if file_format2 is not None and file_format != 'forestclaw':
+            # value was read in from file, use it (ForestClaw frames are ascii
+            # files with other patch headers):
             file_format = file_format2
 
         read_func = self.get_read_func(file_format)
-- 
2.43.0


From 05b10787c84dbba4697ead7377b4763319f8c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:07 +0000
Subject: [PATCH 36/62] fix: tearing down a 3D SharpClaw solver leaves the
 arrays of other solvers alone

---
 src/pyclaw/sharpclaw/solver.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 99d5be5..6bece47 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -953,11 +953,10 @@ class SharpClawSolver3D(SharpClawSolver):
         Deallocate F90 module arrays.
         Also delete Fortran objects, which otherwise tend to persist in Python sessions.
         """
-        if self.kernel_language=='Fortran':
-            self.fmod.workspace.dealloc_workspace(self.char_decomp)
-            self.fmod.reconstruct.dealloc_recon_workspace(self.fmod.clawparams.lim_type,self.fmod.clawparams.char_decomp)
-            self.fmod.clawparams.dealloc_clawparams()
-            del self.fmod
+        if self.kernel_language=='Fortran' and self.fmod is not None:
+            if self._fortran_claim is not None and self.fmod._claim is self._fortran_claim:
+                self._release_fortran_modules()
+            self.fmod = None
 
 
     def dq_hyperbolic(self,state):
-- 
2.43.0


From 35217278f10f6fa0b4e2984c10c154864f0ffe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:37 +0000
Subject: [PATCH 37/62] fix: SharpClaw uses the capacity function of the cell
 it updates

Assigning the whole allocatable dtdx reallocated it with lower bound 1 (its
shape differs from that of the slice), so that dtdx(i) belonged to a cell
num_ghost cells further left.
---
 src/pyclaw/sharpclaw/flux1.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index e631ada..ea31448 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -57,7 +57,8 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
     dq1d(:,:) = 0.d0
 
     if (index_capa.gt.0) then
-        dtdx = dt / (dx(ixyz)*aux(index_capa,:))
+        ! (assigning to dtdx as a whole would reallocate it with other bounds)
+        dtdx(1-num_ghost:mx+num_ghost) = dt / (dx(ixyz)*aux(index_capa,:))
     else
         dtdx = dt / dx(ixyz)
     endif
-- 
2.43.0


From 881529650e36c1705e96cd3cecac74e3a23e5539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:37 +0000
Subject: [PATCH 38/62] fix: wave-based TVD reconstruction reaches the last
 interface

The right state of the last cell was not reconstructed: the flux through the
upper boundary was not that through the lower one of a periodic domain.
---
 src/pyclaw/sharpclaw/reconstruct.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 4db6953..3a65c6f 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -767,7 +767,7 @@ contains
 
         do mw=1,num_waves
             dotr = 0.d0
-            do i=num_ghost,mx2-num_ghost
+            do i=num_ghost,mx2-num_ghost+1
                 wnorm2=0.d0
                 dotl=dotr
                 dotr=0.d0
-- 
2.43.0


From 213dbccf6ea808b97ee04d9941be9a4a68325a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:17 +0000
Subject: [PATCH 39/62] fix: 3D dimensional splitting sweeps all rows of ghost
 cells

The sweeps in x and y left the outer rows of ghost cells in the old state, which
the second-order limited sweeps that follow read: results depended on the
domain decomposition and periodic problems were not conservative.
---
 src/pyclaw/classic/step3ds.f90 | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/classic/step3ds.f90 b/src/pyclaw/classic/step3ds.f90
index f9f2729..f7bfe97 100644
--- a/src/pyclaw/classic/step3ds.f90
+++ b/src/pyclaw/classic/step3ds.f90
@@ -131,8 +131,11 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! perform x-sweeps
         ! ==================
     
-        do k = 0,mz+1
-            do j = 0,my+1
+        ! All rows of ghost cells are swept as well: the following sweeps in
+        ! the other directions need their intermediate states.
+
+        do k = 1-num_ghost,mz+num_ghost
+            do j = 1-num_ghost,my+num_ghost
             
                 forall (m = 1:num_eqn, i = 1-num_ghost:mx+num_ghost)
                     ! copy data along a slice into 1d array:
@@ -149,7 +152,8 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
             
                 if (num_aux > 0)  then
                     forall (ma=1:num_aux,i= 1-num_ghost:mx+num_ghost, ka = -1:1)
-                    aux2(ma,i,2+ka) = aux(ma,i,j,k+ka)
+                    aux2(ma,i,2+ka) = aux(ma,i,j, &
+                        max(1-num_ghost,min(mz+num_ghost,k+ka)))
                     end forall
                 endif
             
@@ -212,7 +216,7 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! perform y sweeps
         ! ==================
     
-        do k = 0, mz+1
+        do k = 1-num_ghost, mz+num_ghost
             do i = 0, mx+1
             
                 forall (m = 1:num_eqn, j = 1-num_ghost:my+num_ghost)
-- 
2.43.0


From 6ab529f69b97a760d3662248a5b8dda542bb37d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:16 +0000
Subject: [PATCH 40/62] fix: first-order unsplit 3D steps do not use
 uninitialised memory

---
 src/pyclaw/classic/flux3.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/classic/flux3.f90 b/src/pyclaw/classic/flux3.f90
index 545dea3..1cb2012 100644
--- a/src/pyclaw/classic/flux3.f90
+++ b/src/pyclaw/classic/flux3.f90
@@ -176,6 +176,7 @@ subroutine flux3(ixyz,maxm,num_eqn,num_waves,num_ghost,mx, &
     forall (m = 1:num_eqn, i = 1-num_ghost:mx+num_ghost)
         qadd(m,i) = 0.d0
         fadd(m,i) = 0.d0
+        cqxx(m,i) = 0.d0
     end forall
     forall (m=1:num_eqn,k=1:2, j = -1:1, i = 1-num_ghost:mx+num_ghost)
         gadd(m, k, j, i) = 0.d0
-- 
2.43.0


From 93211bfd906d739c06e81a84d9638057195cc796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:55 +0000
Subject: [PATCH 41/62] fix: the Courant number of the Python SharpClaw kernel
 covers the grid's own cells only

It included an interface between two ghost cells whose states are not
reconstructed, so the time steps depended on the domain decomposition.
---
 src/pyclaw/sharpclaw/solver.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 6bece47..60f1722 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -830,15 +830,14 @@ class SharpClawSolver1D(SharpClawSolver):
             wave,s,amdq,apdq = self.rp(q_l,q_r,aux_l,aux_r,state.problem_data)
 
             # Loop limits for local portion of grid
-            # THIS WON'T WORK IN PARALLEL!
             LL = self.num_ghost - 1
             UL = grid.num_cells[0] + self.num_ghost + 1
 
-            # Compute maximum wave speed
+            # Compute maximum wave speed over the interfaces of the grid's own cells
             cfl = 0.0
             for mw in range(self.num_waves):
-                smax1 = np.max( dtdx[LL  :UL]  *s[mw,LL-1:UL-1])
-                smax2 = np.max(-dtdx[LL-1:UL-1]*s[mw,LL-1:UL-1])
+                smax1 = np.max( dtdx[LL+1:UL]  *s[mw,LL:UL-1])
+                smax2 = np.max(-dtdx[LL  :UL-1]*s[mw,LL:UL-1])
                 cfl = max(cfl,smax1,smax2)
 
             #Find total fluctuation within each cell
-- 
2.43.0


From 4b5a65b8e52ecc56b0cf5ea151fc7c61d8cac373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:55 +0000
Subject: [PATCH 42/62] fix: split steps leave out ghost cells next to another
 process

The later sweeps of a dimensionally split step took the Courant number also
from ghost columns that the first sweep had not advanced.  At the edge between
two processes that made the time steps depend on the decomposition.
---
 src/pyclaw/classic/solver.py   | 23 ++++++++++++++++++-----
 src/pyclaw/classic/step2ds.f90 |  8 ++++++--
 src/pyclaw/classic/step3ds.f90 | 13 +++++++++----
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index 0439171..1317afa 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -524,13 +524,17 @@ class ClawSolver2D(ClawSolver):
                 #Right now only Godunov-dimensional-splitting is implemented.
                 #Strang-dimensional-splitting could be added following dimsp2.f in Clawpack.
 
+                # Columns of the y-sweeps: ghost cells only at the domain boundary
+                ilower = 1-self.num_ghost if grid.on_lower_boundary[0] else 1
+                iupper = mx+self.num_ghost if grid.on_upper_boundary[0] else mx
+
                 self.qbc, cfl_x = self.fmod.step2ds(maxm,self.num_ghost,mx,my, \
                       qold,self.qbc,self.auxbc,dx,dy,self.dt,self._method,self._mthlim,\
-                      self.aux1,self.aux2,self.aux3,self.work,1,self.fwave,rpn2,rpt2)
+                      self.aux1,self.aux2,self.aux3,self.work,1,ilower,iupper,self.fwave,rpn2,rpt2)
 
                 self.qbc, cfl_y = self.fmod.step2ds(maxm,self.num_ghost,mx,my, \
                       self.qbc,self.qbc,self.auxbc,dx,dy,self.dt,self._method,self._mthlim,\
-                      self.aux1,self.aux2,self.aux3,self.work,2,self.fwave,rpn2,rpt2)
+                      self.aux1,self.aux2,self.aux3,self.work,2,ilower,iupper,self.fwave,rpn2,rpt2)
 
                 cfl = max(cfl_x,cfl_y)
 
@@ -677,17 +681,26 @@ class ClawSolver3D(ClawSolver):
                 #Right now only Godunov-dimensional-splitting is implemented.
                 #Strang-dimensional-splitting could be added following dimsp3.f in Clawpack.
 
+                # Rows of the y- and z-sweeps: ghost cells only at the domain boundary
+                ilower = 0 if grid.on_lower_boundary[0] else 1
+                iupper = mx+1 if grid.on_upper_boundary[0] else mx
+                jlower = 0 if grid.on_lower_boundary[1] else 1
+                jupper = my+1 if grid.on_upper_boundary[1] else my
+
                 q, cfl_x = self.fmod.step3ds(maxm,self.num_ghost,mx,my,mz, \
                       qold,qnew,self.auxbc,dx,dy,dz,self.dt,self._method,self._mthlim,\
-                      self.aux1,self.aux2,self.aux3,self.work,1,self.fwave,rpn3,rpt3,rptt3)
+                      self.aux1,self.aux2,self.aux3,self.work,1,\
+                      ilower,iupper,jlower,jupper,self.fwave,rpn3,rpt3,rptt3)
 
                 q, cfl_y = self.fmod.step3ds(maxm,self.num_ghost,mx,my,mz, \
                       q,q,self.auxbc,dx,dy,dz,self.dt,self._method,self._mthlim,\
-                      self.aux1,self.aux2,self.aux3,self.work,2,self.fwave,rpn3,rpt3,rptt3)
+                      self.aux1,self.aux2,self.aux3,self.work,2,\
+                      ilower,iupper,jlower,jupper,self.fwave,rpn3,rpt3,rptt3)
 
                 q, cfl_z = self.fmod.step3ds(maxm,self.num_ghost,mx,my,mz, \
                       q,q,self.auxbc,dx,dy,dz,self.dt,self._method,self._mthlim,\
-                      self.aux1,self.aux2,self.aux3,self.work,3,self.fwave,rpn3,rpt3,rptt3)
+                      self.aux1,self.aux2,self.aux3,self.work,3,\
+                      ilower,iupper,jlower,jupper,self.fwave,rpn3,rpt3,rptt3)
 
                 cfl = max(cfl_x,cfl_y,cfl_z)
 
diff --git a/src/pyclaw/classic/step2ds.f90 b/src/pyclaw/classic/step2ds.f90
index 176b75b..a3beaf9 100644
--- a/src/pyclaw/classic/step2ds.f90
+++ b/src/pyclaw/classic/step2ds.f90
@@ -2,7 +2,8 @@
     subroutine step2ds(maxm,num_eqn,num_waves,num_aux,num_ghost,mx,my, &
                         qold,qnew,aux,dx,dy,dt,method,mthlim,cfl, &
                         qadd,fadd,gadd,q1d,dtdx1d,dtdy1d, &
-                        aux1,aux2,aux3,work,mwork,ids,use_fwave,rpn2,rpt2)
+                        aux1,aux2,aux3,work,mwork,ids,ilower,iupper, &
+                        use_fwave,rpn2,rpt2)
 !     ==========================================================
 
 !     # Take one time step, updating q.
@@ -15,6 +16,9 @@
 !     # fadd and gadd are used to return flux increments from flux2.
 !     # See the flux2 documentation for more information.
 
+!     # ilower:iupper are the columns that the y-sweeps cover.  Ghost cells next
+!     # to another process are left out: their intermediate states are not known.
+
 
     implicit double precision (a-h,o-z)
     double precision :: qold(num_eqn, 1-num_ghost:mx+num_ghost, &
@@ -177,7 +181,7 @@
     !     ==================
     
     
-        do i = 1-num_ghost, mx+num_ghost
+        do i = ilower, iupper
         
         !        # copy data along a slice into 1d arrays:
             forall (m=1:num_eqn, j = 1-num_ghost: my+num_ghost)
diff --git a/src/pyclaw/classic/step3ds.f90 b/src/pyclaw/classic/step3ds.f90
index f7bfe97..277c073 100644
--- a/src/pyclaw/classic/step3ds.f90
+++ b/src/pyclaw/classic/step3ds.f90
@@ -2,7 +2,8 @@
 subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
                    mz,qold,qnew,aux,dx,dy,dz,dt,method,mthlim,cfl, &
                    qadd,fadd,gadd,hadd,q1d,dtdx1d,dtdy1d,dtdz1d, &
-                   aux1,aux2,aux3,num_aux,work,mwork,idir,use_fwave,rpn3,rpt3,rptt3)
+                   aux1,aux2,aux3,num_aux,work,mwork,idir,ilower,iupper, &
+                   jlower,jupper,use_fwave,rpn3,rpt3,rptt3)
 ! ==================================================================
 
 !  Take one time step, updating q, to be used with
@@ -17,6 +18,10 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
 !  the solution updates below are considerably simplified
 !  compared to step3d.
 
+!  The y-sweeps cover i = ilower:iupper, the z-sweeps also j = jlower:jupper.
+!  Ghost cells next to another process are left out: their intermediate
+!  states are not known.
+
 ! -----------------------------------------------------------------
 !  NOTE! Since dimensional splitting is used, it is possible
 !        to reduce the memory requirement, i.e. the size of
@@ -217,7 +222,7 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! ==================
     
         do k = 1-num_ghost, mz+num_ghost
-            do i = 0, mx+1
+            do i = ilower, iupper
             
                 forall (m = 1:num_eqn, j = 1-num_ghost:my+num_ghost)
                     ! copy data along a slice into 1d array:
@@ -299,8 +304,8 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! ==================
     
     
-        do j = 0, my+1
-            do i = 0, mx+1
+        do j = jlower, jupper
+            do i = ilower, iupper
             
                 forall (m = 1:num_eqn, k = 1-num_ghost:mz+num_ghost)
                     ! copy data along a slice into 1d array:
-- 
2.43.0


From f6f937a4c54097b1916b5effc15f1883253d6069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:30 +0000
Subject: [PATCH 43/62] fix: assigning state.p and state.F works in PetClaw

---
 src/petclaw/state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/petclaw/state.py b/src/petclaw/state.py
index 1809b97..6224859 100644
--- a/src/petclaw/state.py
+++ b/src/petclaw/state.py
@@ -71,7 +71,7 @@ class State(clawpack.pyclaw.State):
     @p.setter
     def p(self,val):
         mp = val.shape[0]
-        if self.gpVec is None: self.init_p_da(mp)
+        if self.gpVec is None: self.mp = mp
         self.gpVec.setArray(val.reshape([-1], order = 'F'))
 
     @property
@@ -86,9 +86,9 @@ class State(clawpack.pyclaw.State):
         F=self.gFVec.getArray().reshape(shape, order = 'F')
         return F
     @F.setter
-    def fset(self,val):
+    def F(self,val):
         mF = val.shape[0]
-        if self.gFVec is None: self.init_F_da(mF)
+        if self.gFVec is None: self.mF = mF
         self.gFVec.setArray(val.reshape([-1], order = 'F'))
 
     @property
-- 
2.43.0


From c9ff8f758a8fd815d888be120a47d914b330f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:02 +0000
Subject: [PATCH 44/62] fix: all PetClaw processes refuse to clobber a frame or
 none does

---
 src/petclaw/fileio/petsc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/petclaw/fileio/petsc.py b/src/petclaw/fileio/petsc.py
index e0f9251..04f8ea6 100644
--- a/src/petclaw/fileio/petsc.py
+++ b/src/petclaw/fileio/petsc.py
@@ -48,9 +48,12 @@ def write(solution,frame,path='./',file_prefix='claw',write_aux=False,
     filenames = set_filenames(frame,path,file_format,file_prefix,write_aux)
        
     if not clobber:
-        for f in filenames.values():
-            if os.path.exists(f):
-                raise IOError('Cowardly refusing to clobber %s!' % f)
+        existing = [f for f in filenames.values() if os.path.exists(f)]
+        # All processes refuse or none does; none has begun to write before
+        # every one has looked
+        decision = PETSc.Vec().createWithArray([float(len(existing))])
+        if decision.max()[1] > 0:
+            raise IOError('Cowardly refusing to clobber %s!' % (existing or list(filenames.values())))
 
     rank =  PETSc.Comm.getRank(PETSc.COMM_WORLD)
     if rank==0:
-- 
2.43.0


From 2841cc77dd7b90fe6b7766af38b5b50523e4ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:17 +0000
Subject: [PATCH 45/62] fix: all PetClaw processes refuse to overwrite output
 or none does

---
 src/petclaw/controller.py |  8 ++++++++
 src/pyclaw/controller.py  | 10 +++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/petclaw/controller.py b/src/petclaw/controller.py
index 75b8fc6..1f95832 100644
--- a/src/petclaw/controller.py
+++ b/src/petclaw/controller.py
@@ -16,6 +16,14 @@ class Controller(pyclaw.controller.Controller):
 
         self.output_format = 'petsc'
 
+    def would_overwrite(self):
+        # The same answer on all processes: gauges may belong to some of them
+        # only, and none goes on to write before every one has looked
+        from petsc4py import PETSc
+        local = super(Controller,self).would_overwrite()
+        decision = PETSc.Vec().createWithArray([float(local)])
+        return decision.max()[1] > 0
+
     def is_proc_0(self):
         from petsc4py import PETSc
         rank = PETSc.Comm.getRank(PETSc.COMM_WORLD)
diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 67ce4d5..aaef963 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -292,9 +292,7 @@ class Controller(object):
         if self.solver is None or self.solution is None:
             raise Exception('To run, a Controller must have a Solver and a Solution.')
 
-        writes_output = self.output_format is not None or self.compute_F is not None \
-                        or len(self.solution.patch.grid.gauges)>0
-        if writes_output and self.overwrite is False and os.path.exists(self.outdir):
+        if self.overwrite is False and self.would_overwrite():
             raise Exception("Refusing to overwrite existing output data. \
              \nEither delete/move the directory or set controller.overwrite=True.")
 
@@ -401,6 +399,12 @@ class Controller(object):
 
     # ========== Advanced output methods ==================================
 
+    def would_overwrite(self):
+        r"""Whether this run writes output to a directory that exists already"""
+        writes_output = self.output_format is not None or self.compute_F is not None \
+                        or len(self.solution.patch.grid.gauges)>0
+        return writes_output and os.path.exists(self.outdir)
+
     def write_F(self,mode='a'):
         if self.compute_F is not None:
             self.compute_F(self.solution.state)
-- 
2.43.0


From 904dfabae806eaae0d4fdf6484e46111429a2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:52 +0000
Subject: [PATCH 46/62] fix: PetClaw reads hdf5 frames with h5py 3

---
 src/petclaw/fileio/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/petclaw/fileio/hdf5.py b/src/petclaw/fileio/hdf5.py
index 8fdf612..da00277 100644
--- a/src/petclaw/fileio/hdf5.py
+++ b/src/petclaw/fileio/hdf5.py
@@ -12,6 +12,7 @@ To install h5py, you must also install the hdf5 library from the website:
 from mpi4py import MPI
 import os
 import logging
+import numpy as np
 
 from clawpack.petclaw import geometry
 from clawpack import petclaw
@@ -163,8 +164,7 @@ def read(solution,frame,path='./',file_prefix='claw',read_aux=True,
         for patch in six.itervalues(f):
             # Construct each dimension
             dimensions = []
-            dim_names = [ name.decode('ascii')
-                          for name in patch.attrs['dimensions'] ]
+            dim_names = np.array(patch.attrs['dimensions']).astype(str)
             for dim_name in dim_names:
                 dim = geometry.Dimension(
                     patch.attrs["%s.lower" % dim_name],
-- 
2.43.0


From 179c1d66546d4a7619d436532ed5b8be850e8ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:03 +0000
Subject: [PATCH 47/62] fix: all PetClaw processes find a petsc frame or none
 does

---
 src/petclaw/fileio/petsc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/petclaw/fileio/petsc.py b/src/petclaw/fileio/petsc.py
index 04f8ea6..de02632 100644
--- a/src/petclaw/fileio/petsc.py
+++ b/src/petclaw/fileio/petsc.py
@@ -133,6 +133,12 @@ def read(solution,frame,path='./',file_prefix='claw',read_aux=False,options={}):
             # If no aux file for this frame, assume it is time-independent
             filenames['aux'] = os.path.join(path, '%s_aux.ptc' % file_prefix) + str(0).zfill(4)
 
+    # All processes find the frame or none does, even if one of them goes on to
+    # write it after having failed to read it
+    found = PETSc.Vec().createWithArray([float(os.path.exists(filenames['metadata']))])
+    if found.min()[1] == 0:
+        raise IOError("file " + filenames['metadata'] + " does not exist or is unreadable.")
+
     try:
         metadata_file = open(filenames['metadata'],'rb')
     except IOError:
-- 
2.43.0


From 46c2118a2d46b2b0c3397ee9078cc5ff0028d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:55 +0000
Subject: [PATCH 48/62] fix: derived-quantity hdf5 files of PetClaw state the
 number of components they hold

---
 src/petclaw/fileio/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/petclaw/fileio/hdf5.py b/src/petclaw/fileio/hdf5.py
index da00277..b4f1613 100644
--- a/src/petclaw/fileio/hdf5.py
+++ b/src/petclaw/fileio/hdf5.py
@@ -102,7 +102,7 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
 
             # General patch properties
             subgroup.attrs['t'] = state.t
-            subgroup.attrs['num_eqn'] = state.num_eqn
+            subgroup.attrs['num_eqn'] = state.mp if write_p else state.num_eqn
             subgroup.attrs['num_aux'] = state.num_aux
             for attr in ['num_ghost','patch_index','level']:
                 if hasattr(patch,attr):
-- 
2.43.0


From b010a8d5ceaacb84409f5c3f22847452e1770f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:47 +0000
Subject: [PATCH 49/62] fix: a petsc frame becomes readable when it is complete

---
 src/petclaw/fileio/petsc.py | 57 ++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/petclaw/fileio/petsc.py b/src/petclaw/fileio/petsc.py
index de02632..cd78ac8 100644
--- a/src/petclaw/fileio/petsc.py
+++ b/src/petclaw/fileio/petsc.py
@@ -55,29 +55,31 @@ def write(solution,frame,path='./',file_prefix='claw',write_aux=False,
         if decision.max()[1] > 0:
             raise IOError('Cowardly refusing to clobber %s!' % (existing or list(filenames.values())))
 
-    rank =  PETSc.Comm.getRank(PETSc.COMM_WORLD)
-    if rank==0:
-        # Write metadata
-        with open(filenames['metadata'],'wb') as metadata_file:
-            # explicitly dumping a dictionary here to help out anybody trying to read the pickle file
-            sol_dict = {'t':solution.t,'num_eqn':solution.num_eqn,'nstates':len(solution.states),
-                             'num_aux':solution.num_aux,'num_dim':solution.domain.num_dim,
-                             'write_aux':write_aux,
-                             'problem_data' : solution.problem_data,
-                             'mapc2p': solution.state.grid.mapc2p,
-                             'file_format':file_format}
-            if write_p:
-                sol_dict['num_eqn'] = solution.mp
-
-            pickle.dump(sol_dict, metadata_file)
-
-            for state in solution.states:
-                patch = state.patch
-                pickle.dump({'level':patch.level,'names':patch.name,
-                             'lower':patch.lower_global,
-                             'num_cells':patch.num_cells_global,
-                             'delta':patch.delta}, metadata_file)
+    # Metadata, prepared on every process so that what cannot be pickled fails on
+    # all of them; explicitly dumping a dictionary here to help out anybody trying
+    # to read the pickle file
+    sol_dict = {'t':solution.t,'num_eqn':solution.num_eqn,'nstates':len(solution.states),
+                     'num_aux':solution.num_aux,'num_dim':solution.domain.num_dim,
+                     'write_aux':write_aux,
+                     'problem_data' : solution.problem_data,
+                     'mapc2p': solution.state.grid.mapc2p,
+                     'file_format':file_format}
+    if write_p:
+        sol_dict['num_eqn'] = solution.mp
+
+    metadata = pickle.dumps(sol_dict)
+    for state in solution.states:
+        patch = state.patch
+        metadata += pickle.dumps({'level':patch.level,'names':patch.name,
+                                  'lower':patch.lower_global,
+                                  'num_cells':patch.num_cells_global,
+                                  'delta':patch.delta})
 
+    # A frame is readable from the moment its metadata file appears: an old one
+    # goes first, the new one comes after the data
+    rank =  PETSc.Comm.getRank(PETSc.COMM_WORLD)
+    if rank==0 and os.path.exists(filenames['metadata']):
+        os.remove(filenames['metadata'])
 
     # Now write data
     q_viewer = set_up_viewers(filenames['q'],file_format.lower(),PETSc.Viewer.Mode.WRITE)
@@ -99,7 +101,16 @@ def write(solution,frame,path='./',file_prefix='claw',write_aux=False,
     q_viewer.flush()
     if write_aux:
         aux_viewer.flush()
-    q_viewer.destroy() # Destroys aux_viewer also
+        aux_viewer.destroy()
+    q_viewer.destroy()
+
+    PETSc.COMM_WORLD.barrier()
+    if rank==0:
+        tmpname = filenames['metadata'] + '.tmp'
+        with open(tmpname,'wb') as metadata_file:
+            metadata_file.write(metadata)
+        os.replace(tmpname,filenames['metadata'])
+    PETSc.COMM_WORLD.barrier()
 
 
 def read(solution,frame,path='./',file_prefix='claw',read_aux=False,options={}):
-- 
2.43.0


From b3569134c839aaee9b825a4710295678feddb723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:40 +0000
Subject: [PATCH 50/62] fix: a petsc frame written without aux does not keep
 the aux file of an older one

---
 src/petclaw/fileio/petsc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/petclaw/fileio/petsc.py b/src/petclaw/fileio/petsc.py
index cd78ac8..d4daeae 100644
--- a/src/petclaw/fileio/petsc.py
+++ b/src/petclaw/fileio/petsc.py
@@ -78,8 +78,13 @@ def write(solution,frame,path='./',file_prefix='claw',write_aux=False,
     # A frame is readable from the moment its metadata file appears: an old one
     # goes first, the new one comes after the data
     rank =  PETSc.Comm.getRank(PETSc.COMM_WORLD)
-    if rank==0 and os.path.exists(filenames['metadata']):
-        os.remove(filenames['metadata'])
+    if rank==0:
+        old_files = [filenames['metadata']]
+        if not write_aux:
+            old_files.append(set_filenames(frame,path,file_format,file_prefix,True)['aux'])
+        for f in old_files:
+            if os.path.exists(f):
+                os.remove(f)
 
     # Now write data
     q_viewer = set_up_viewers(filenames['q'],file_format.lower(),PETSc.Viewer.Mode.WRITE)
-- 
2.43.0


From 0c0490dab534db797cbb006ea6ea00695e13496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:40 +0000
Subject: [PATCH 51/62] fix: the grids of all processes together reach the
 upper end of the domain

---
 src/petclaw/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/petclaw/geometry.py b/src/petclaw/geometry.py
index 4a95d42..23ef711 100755
--- a/src/petclaw/geometry.py
+++ b/src/petclaw/geometry.py
@@ -22,7 +22,11 @@ class Patch(pyclaw_geometry.Patch):
         grid_dimensions = []
         for i,nrange in enumerate(ranges):
             lower = self.lower_global[i] + nrange[0]*self.delta[i]
-            upper = self.lower_global[i] + nrange[1]*self.delta[i]
+            if nrange[1] == self.num_cells_global[i]:
+                # to the very end of the domain, whatever the rounding of delta
+                upper = self.upper_global[i]
+            else:
+                upper = self.lower_global[i] + nrange[1]*self.delta[i]
             num_cells   = nrange[1]-nrange[0]
 
             grid_dimensions.append(pyclaw_geometry.Dimension(lower,upper,
-- 
2.43.0


From f340f522bd77ab08d0cb1e931f7695add9a22a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:57 +0000
Subject: [PATCH 52/62] fix: the superbee limiter of the Python kernels is
 superbee

The second candidate was min(0,r) instead of min(2,r), so that the limiter
never exceeded 1 and the Fortran and Python kernels gave different solutions.
---
 src/pyclaw/limiters/tvd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 223be46..044b34a 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -162,6 +162,7 @@ def superbee_limiter(r,cfl):
 
     a[1,:] = 2.0*r
     
+    b[0,:] = 2.0
     b[1,:] = r
 
     c[1,:] = np.minimum(a[0], a[1])
-- 
2.43.0


From 8f5c4fe00b3f2db555cc2aef6e38a05059b21839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:43 +0000
Subject: [PATCH 53/62] fix: the Courant number of the Python classic kernel
 covers the grid's own cells only

Edges between two ghost cells were included, so that the time steps of the
Fortran and Python kernels differed with user-defined boundary values.
---
 src/pyclaw/classic/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index 1317afa..f5b8de2 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -343,11 +343,11 @@ class ClawSolver1D(ClawSolver):
                 q[m,LL:UL] -= dtdx[LL:UL]*apdq[m,LL-1:UL-1]
                 q[m,LL-1:UL-1] -= dtdx[LL-1:UL-1]*amdq[m,LL-1:UL-1]
         
-            # Compute maximum wave speed
+            # Compute maximum wave speed at the edges of the grid's own cells
             cfl = 0.0
             for mw in range(wave.shape[1]):
-                smax1 = np.max(dtdx[LL:UL]*s[mw,LL-1:UL-1])
-                smax2 = np.max(-dtdx[LL-1:UL-1]*s[mw,LL-1:UL-1])
+                smax1 = np.max(dtdx[LL+1:UL]*s[mw,LL:UL-1])
+                smax2 = np.max(-dtdx[LL:UL-1]*s[mw,LL:UL-1])
                 cfl = max(cfl,smax1,smax2)
 
             # If we are doing slope limiting we have more work to do
-- 
2.43.0


From e62e85dd4f92e87258d425ea66cea6fbe6994b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:14 +0000
Subject: [PATCH 54/62] fix: van Leer TVD reconstruction of locally constant
 data is finite

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 3a65c6f..9577750 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -606,7 +606,11 @@ contains
             do i=1,mx2-1
                 dqm=dqp
                 dqp=q(m,i+1)-q(m,i)
-                r=dqp/dqm
+                if (dqm.ne.0.d0) then
+                    r=dqp/dqm
+                else
+                    r=0.d0
+                endif
 
                 select case(mthlim(m))
                 case(1)
-- 
2.43.0


From 71dcfb671f625cfa35840ac5e88b6db815730298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:14 +0000
Subject: [PATCH 55/62] fix: before_step sees the stage values of a Runge-Kutta
 step

---
 src/pyclaw/sharpclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 60f1722..da5f7db 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -363,10 +363,10 @@ class SharpClawSolver(Solver):
             for i in range(1,num_stages):
                 self._registers[i].q[:] = state.q
                 self._registers[i].t = state.t + self.dt*self.c[i]
-                if self.call_before_step_each_stage:
-                    self.before_step(self,self._registers[i])
                 for j in range(i):
                     self._registers[i].q += self.a[i,j]*self._registers[j].q
+                if self.call_before_step_each_stage:
+                    self.before_step(self,self._registers[i])
 
                 # self._registers[i].q eventually stores dt*f(y_i) after stage solution y_i is computed
                 self._registers[i].q = self.dq(self._registers[i])
-- 
2.43.0


From a419f849326cb4185ab3a98264ddcb2d27a578c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 56/62] fix: every TVD limiter of the Python kernels acts edge
 by edge

---
 src/pyclaw/limiters/tvd.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 044b34a..b3183a8 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -324,17 +324,17 @@ def beta_limiter(r,cfl,theta=0.95,beta=0.66666666666666666):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
-    ultra = np.max(b)
+    b[1,:] = np.min(a,axis=0)
+    ultra = np.max(b,axis=0)
     
     a[0,:] = 1.0 + (s2 - beta/2.0) * (r-1.0)
     a[1,:] = 1.0 + (s2 + beta/2.0) * (r-1.0)
     b[0,:] = ultra
-    b[1,:] = np.max(a)
+    b[1,:] = np.max(a,axis=0)
     a[0,:] = 0.0
-    a[1,:] = np.min(b)
+    a[1,:] = np.min(b,axis=0)
     
-    return np.max(a)
+    return np.max(a,axis=0)
 
 
 def hyperbee_limiter(r,cfl):
@@ -388,20 +388,20 @@ def cada_torrilhon_limiter(r,cfl,epsilon=1.0e-3):
     b = np.empty((3,len(r)))
 
     a[0,:] = cfl
-    cfl = np.min(a)
+    cfl = np.min(a,axis=0)
     a[1,:] = 0.05
-    cfl = np.max(a)
+    cfl = np.max(a,axis=0)
     
     # Multiply all parts except b[0,:] by (1.0 - epsilon) as well
     b[0,:] = 1.0 + (1+cfl) / 3.0 * (r - 1)
     b[1,:] = 2.0 * np.abs(r) / (cfl + epsilon)
     b[2,:] = (8.0 - 2.0 * cfl) / (np.abs(r) * (cfl - 1.0 - epsilon)**2)
-    b[1,::2] *= (1.0 - epsilon)
-    a[0,:] = np.min(b)
+    b[1:,:] *= (1.0 - epsilon)
+    a[0,:] = np.min(b,axis=0)
     a[1,:] = (-2.0 * (cfl**2 - 3.0 * cfl + 8.0) * (1.0-epsilon)
                     / (np.abs(r) * (cfl**3 - cfl**2 - cfl + 1.0 + epsilon)))
     
-    return np.max(a)
+    return np.max(a,axis=0)
     
 def cada_torrilhon_limiter_nonlinear(r,cfl):
     r"""
@@ -414,10 +414,10 @@ def cada_torrilhon_limiter_nonlinear(r,cfl):
     a[0,:] = 1.0 + s2 * (r - 1.0)
     a[1,:] = 2.0 * np.abs(r) / (0.6 + np.abs(r))
     a[2,:] = 5.0 / np.abs(r)
-    b[0,:] = np.min(a)
+    b[0,:] = np.min(a,axis=0)
     b[1,:] = -3.0 / np.abs(r)
     
-    return np.max(b)
+    return np.max(b,axis=0)
     
 def upper_bound_limiter(r,cfl,theta=1.0):
     r"""
@@ -440,9 +440,9 @@ def upper_bound_limiter(r,cfl,theta=1.0):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
+    b[1,:] = np.min(a,axis=0)
     
-    return np.max(b)
+    return np.max(b,axis=0)
 
 
 # ============================================================================
-- 
2.43.0


From bb23f27fe2717feedc0e4a1fcd8f09adf15436fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:57 +0000
Subject: [PATCH 57/62] fix: TVD limiters of extreme ratios and Courant numbers
 are finite

---
 src/pyclaw/limiters/tvd.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index b3183a8..aad7be8 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -185,10 +185,29 @@ def mc_limiter(r,cfl):
 
     return np.maximum(b[0], b[1])
     
+def _moderate(r):
+    r"""Ratios of waves whose powers do not overflow"""
+    return np.clip(r,-1.e70,1.e70)
+
+def albada2_limiter(r,cfl):
+    r"""
+    Albada 2 vectorized limiter
+    """
+    r = _moderate(r)
+    return (r**2 + r) / (1.0 + r**2)
+
+def albada3_limiter(r,cfl):
+    r"""
+    Albada 3 vectorized limiter
+    """
+    r = _moderate(r)
+    return 0.5*(1+r)*(1 - np.abs(1-(r))**3/(1+np.abs(r)**3))
+
 def van_leer_klein_sharpening_limiter(r,cfl):
     r"""
     van Leer with Klein sharpening, k=2
     """
+    r = _moderate(r)
     a = np.ones((2,len(r))) * 1.e-5
     a[0,:] = r
     
@@ -208,9 +227,11 @@ def arora_roe(r,cfl):
     a = np.empty((3,len(r)))
     b = np.zeros((2,len(r)))
     
-    s1 = (caut * 2.0 / cfl)
+    cfmod1 = np.maximum(0.001,cfl)
+    cfmod2 = np.minimum(0.999,cfl)
+    s1 = (caut * 2.0 / cfmod1)
     s2 = (1.0 + cfl) / 3.0
-    phimax = caut * 2.0 / (1.0 - cfl)
+    phimax = caut * 2.0 / (1.0 - cfmod2)
     
     a[0,:] = s1 * r
     a[1,:] = 1.0 + s2 * (r - 1.0)
@@ -368,8 +389,10 @@ def superpower_limiter(r,cfl,caut=1.0):
     s2 = (1.0 + cfl) / 3.0
     s3 = 1.0 - s2
     
-    pp = (((r<=1.0) * np.abs(2.0/cfl) * caut) * 2.0 * s3 
-            + (r > 1.0) * (np.abs(2.0)/(1.0 - cfl) * caut) * 2.0 * s2)
+    cfmod1 = np.maximum(0.001,cfl)
+    cfmod2 = np.minimum(0.999,cfl)
+    pp = (((r<=1.0) * np.abs(2.0/cfmod1) * caut) * 2.0 * s3 
+            + (r > 1.0) * (np.abs(2.0)/(1.0 - cfmod2) * caut) * 2.0 * s2)
             
     rabs = np.abs(r)
     rfrac = np.abs((1.0 - rabs) / (1.0 + rabs))
@@ -388,7 +411,7 @@ def cada_torrilhon_limiter(r,cfl,epsilon=1.0e-3):
     b = np.empty((3,len(r)))
 
     a[0,:] = cfl
-    cfl = np.min(a,axis=0)
+    a[0,:] = np.min(a,axis=0)
     a[1,:] = 0.05
     cfl = np.max(a,axis=0)
     
@@ -454,8 +477,8 @@ limiter_functions = {1:minmod_limiter,
                      4:mc_limiter,
                      5:lambda r,cfl:r,
                      6:lambda r,cfl:0.5*(1.0 + r),
-                     7:lambda r,cfl:(r**2 + r) / (1.0 + r**2),
-                     8:lambda r,cfl:0.5*(1+r)*(1 - np.abs(1-(r))**3/(1+np.abs(r)**3)),
+                     7:albada2_limiter,
+                     8:albada3_limiter,
                      9:van_leer_klein_sharpening_limiter,
                      10:lambda r,cfl:1.0 + (1.0 + cfl) / 3.0*(r-1.0),
                      11:arora_roe,
-- 
2.43.0


From 5386751496bb9beee94b22f9ee71fa26e4f43303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:40 +0000
Subject: [PATCH 58/62] fix: reading a gauge keeps no data of a gauge read
 before

---
 src/pyclaw/gauges.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index f908ea8..9c6d2fd 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -98,6 +98,12 @@ class GaugeSolution(object):
          None
         """
 
+        # Nothing of a gauge read before is kept
+        self.level = None
+        self.t = None
+        self.q = None
+        self.particle_path = None
+
         # Construct path to gauge
         if path is None:
             path = os.getcwd()
-- 
2.43.0


From 53d8b43f8a856d5f06965f539a4425c4a160de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:40 +0000
Subject: [PATCH 59/62] fix: gauges are written in one and three dimensions

---
 src/pyclaw/gauges.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index 9c6d2fd..bd5baa1 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -254,8 +254,9 @@ class GaugeSolution(object):
         gauge_file_name = "gauge%s.txt" % str(self.id).zfill(5)
         with open(os.path.join(path, gauge_file_name), "w") as gauge_file:
 
-            gauge_file.write("# gauge_id= %s location=( %s %s ) num_eqn= %s\n" %
-                 (self.id, self.location[0], self.location[1], self.q.shape[0]))
+            location = " ".join([str(x) for x in self.location])
+            gauge_file.write("# gauge_id= %s location=( %s ) num_eqn= %s\n" %
+                 (self.id, location, self.q.shape[0]))
             gauge_file.write("# Columns: level time q(1 ... num_eqn)\n")
 
             # print(self.q.shape)
-- 
2.43.0


From 1573d5428a68b8a2dd96967da412c71f9b2ec4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:40 +0000
Subject: [PATCH 60/62] fix: a Lagrangian gauge is written as one

---
 src/pyclaw/gauges.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index bd5baa1..622c87e 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -257,6 +257,8 @@ class GaugeSolution(object):
             location = " ".join([str(x) for x in self.location])
             gauge_file.write("# gauge_id= %s location=( %s ) num_eqn= %s\n" %
                  (self.id, location, self.q.shape[0]))
+            if self.gtype == 'lagrangian':
+                gauge_file.write("# Lagrangian particle\n")
             gauge_file.write("# Columns: level time q(1 ... num_eqn)\n")
 
             # print(self.q.shape)
-- 
2.43.0


From a8dcd751e4a5ec277a2b1a1cea219ce89dadaf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:40 +0000
Subject: [PATCH 61/62] fix: convert_gauges compares with the old gauge data

---
 src/pyclaw/gauges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index 622c87e..a0f4ac0 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -395,7 +395,7 @@ def convert_gauges(path, output_path=None):
         new_gauge.write(output_path)
 
         # Test gauge data
-        if not compare_gauges(path, output_path, gauge_id):
+        if not compare_old_gauges(path, output_path, gauge_id):
             print("WARNING:  New gauge data does not match old gauge data.")
             print("          gauge id = %s" % gauge_id)
 
-- 
2.43.0


From ae391a49ac5b35cb7590dc4b993080201ba17647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:40 +0000
Subject: [PATCH 62/62] fix: a cut-off last number in a gauge file is not read
 as a value

---
 src/pyclaw/gauges.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index a0f4ac0..3514ad4 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -182,6 +182,10 @@ class GaugeSolution(object):
 
         if file_format == 'ascii':
             # data follows header in .txt file:
+            with open(gauge_path, 'rb') as gauge_file:
+                gauge_file.seek(-1, os.SEEK_END)
+                if gauge_file.read(1) != b'\n':
+                    raise ValueError("Last record of gauge file is cut off.")
             data = np.loadtxt(gauge_path, comments="#")
             if data.ndim == 1:
                 # only one line in gauge file, expand to 2d array
-- 
2.43.0


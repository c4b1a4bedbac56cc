From 9ed33c263184df2db9494814c24ca3a6975b2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 01/36] fix: do not fill the microphone history before time 0
 with the first sample

With start_sources_before_0=False a single sample is propagated, and it was
broadcast over the whole sim_buffer instead of written at the last index.
---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 69e17ad..422d616 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -437,7 +437,7 @@ class Propagator():
         for src, mic in self.arrays.mic_src_combos():
             propagated_signal = self.path_filters[src.name][mic.name].process(
                     self.sig[src.name][:, end_sample - num_samples:end_sample])
-            self.sig[mic.name][:,:self.sim_info.sim_buffer] += propagated_signal
+            self.sig[mic.name][:,end_sample - num_samples:end_sample] += propagated_signal
             if self.sim_info.save_source_contributions:
                 self.sig[f"{src.name}~{mic.name}"][:,end_sample - num_samples:end_sample] = propagated_signal
         self.sig.idx = self.sim_info.sim_buffer
-- 
2.43.0


From da2883e87f7df13379c43c77278f0839eca52df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 02/36] fix: give each created simulator its own copy of the
 config

create_simulator() can be used many times with changes to the config in
between, but all simulators shared the setup's sim_info object, so that a
later change reconfigured simulators which had already been created.
---
 src/aspsim/simulator.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 422d616..e66f7eb 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -181,27 +181,28 @@ class SimulatorSetup:
         create similar simulations with different parameters.
         """
         assert not self.arrays.empty()
+        sim_info = copy.deepcopy(self.sim_info)
         finished_arrays = copy.deepcopy(self.arrays)
-        finished_arrays.set_default_path_type(self.sim_info.reverb)
+        finished_arrays.set_default_path_type(sim_info.reverb)
         
         folder_path = self._create_fig_folder(self.base_fig_path)
         print(f"Figure folder: {folder_path}")
 
-        if self.sim_info.auto_save_load and self.session_folder is not None:
+        if sim_info.auto_save_load and self.session_folder is not None:
             try:
-                finished_arrays = sess.load_session(self.session_folder, folder_path, self.sim_info, finished_arrays)
+                finished_arrays = sess.load_session(self.session_folder, folder_path, sim_info, finished_arrays)
             except sess.MatchingSessionNotFoundError:
                 print("No matching session found")
-                ir_metadata = finished_arrays.setup_ir(self.sim_info)
-                sess.save_session(self.session_folder, self.sim_info, finished_arrays, sim_metadata=ir_metadata)   
+                ir_metadata = finished_arrays.setup_ir(sim_info)
+                sess.save_session(self.session_folder, sim_info, finished_arrays, sim_metadata=ir_metadata)   
         else:
-            finished_arrays.setup_ir(self.sim_info)
+            finished_arrays.setup_ir(sim_info)
 
         # LOGGING AND DIAGNOSTICS
-        self.sim_info.save_to_file(folder_path)
-        finished_arrays.plot(self.sim_info, folder_path, self.sim_info.plot_output)
+        sim_info.save_to_file(folder_path)
+        finished_arrays.plot(sim_info, folder_path, sim_info.plot_output)
         finished_arrays.save_metadata(folder_path)
-        return Simulator(self.sim_info, finished_arrays, folder_path, rng=self.rng)
+        return Simulator(sim_info, finished_arrays, folder_path, rng=self.rng)
 
     def _create_fig_folder(self, folder_for_plots, gen_subfolder=True, safe_naming=False):
         if self.sim_info.plot_output == "none" or folder_for_plots is None:
-- 
2.43.0


From c1d86fd9014b417b3b0bec1c3015c39a7c96cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 03/36] fix: use the simulation's own pyroomacoustics constants
 for every RIR

The speed of sound and fractional delay length are process-global and were only
set when a PathGenerator was created. Creating a second simulator therefore
changed the RIRs computed afterwards for moving arrays of the first one.
---
 src/aspsim/room/roomimpulseresponse.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index ea93a1e..1116710 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -74,7 +74,7 @@ class PathGenerator:
             The simulation info object
         
         """
-        pra.constants.set("c", sim_info.c)
+        self._set_pra_constants(sim_info)
 
         room_center = np.array(sim_info.room_center)
         room_size = np.array(sim_info.room_size)
@@ -92,14 +92,25 @@ class PathGenerator:
             shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
-        self.min_dly = 0
-        frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
-        pra.constants.set("frac_delay_length",frac_dly_len)
         #if verbose:
+        frac_dly_len = pra.constants.get("frac_delay_length")
         if frac_dly_len < 20:
             print("WARNING: fractional delay length: ",frac_dly_len)
 
+    def _set_pra_constants(self, sim_info):
+        """Sets the constants of pyroomacoustics to the values of this simulation.
+
+        The constants are global to the process, and might have been changed by
+        another simulation since they were last set.
 
+        Parameters
+        ----------
+        sim_info : SimInfo
+            The simulation info object
+        """
+        self.min_dly = 0
+        pra.constants.set("c", sim_info.c)
+        pra.constants.set("frac_delay_length", 2*(self.min_dly + sim_info.extra_delay) + 1)
 
     def create_path (self, src, mic, reverb, sim_info, return_path_info=False, verbose=False):
         """Generate the impulse response between a source and a microphone array
@@ -131,6 +142,7 @@ class PathGenerator:
             path = np.random.normal(size=(src.num, mic.num, sim_info.max_room_ir_length))
         elif reverb == "ism":
             if sim_info.spatial_dims == 3:
+                self._set_pra_constants(sim_info)
                 path = ir_room_image_source_3d(
                         src.pos, 
                         mic.pos, 
-- 
2.43.0


From 9863ffda03fa3bd62967eadc3277a87853bd3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 04/36] fix: concurrent simulations no longer crash on the same
 folder name

The name was checked and the folder created in two steps, so two simulations
started at the same time picked the same name and one failed with FileExistsError.
---
 src/aspsim/fileutilities.py   | 15 +++++++++++++++
 src/aspsim/saveloadsession.py |  4 +---
 src/aspsim/simulator.py       |  3 +--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index 67f1878..38a7d50 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -38,6 +38,21 @@ def get_unique_folder_name(prefix, parent_folder, detailed_naming=False):
     return folder_name
 
 
+def create_unique_folder(prefix, parent_folder, detailed_naming=False):
+    """Creates a new folder with a unique name and returns the path to it.
+
+    If the chosen name is taken by someone else before the folder
+    could be created, then another name is chosen.
+    """
+    while True:
+        folder_name = get_unique_folder_name(prefix, parent_folder, detailed_naming)
+        try:
+            folder_name.mkdir()
+        except FileExistsError:
+            continue
+        return folder_name
+
+
 def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
     start_path = get_unique_folder_name(prefix, parent_folder)
     sub_folder_name = start_path.parts[-1]
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 9457d54..d25cc91 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -8,9 +8,7 @@ import aspsim.array as ar
 
 
 def save_session(session_folder, sim_info, arrays, sim_metadata=None, extraprefix=""):
-    session_path = futil.get_unique_folder_name("session_" + extraprefix, session_folder)
-
-    session_path.mkdir()
+    session_path = futil.create_unique_folder("session_" + extraprefix, session_folder)
     arrays.save_to_file(session_path)
     sim_info.save_to_file(session_path)
     if sim_metadata is not None:
diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index e66f7eb..ddd5cab 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -209,8 +209,7 @@ class SimulatorSetup:
             return None
 
         if gen_subfolder:
-            folder_name = futil.get_unique_folder_name("figs_", folder_for_plots, safe_naming)
-            folder_name.mkdir()
+            folder_name = futil.create_unique_folder("figs_", folder_for_plots, safe_naming)
         else:
             folder_name = folder_for_plots
             if not folder_name.exists():
-- 
2.43.0


From 1cd8e5d982b3405a38c30b0b0fe5eccbc31e40cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 05/36] fix: skip folders which are not complete sessions when
 looking for a match

A simulation that was interrupted while saving its session, is still saving it,
or any other subfolder made every later create_simulator() fail.
---
 src/aspsim/saveloadsession.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index d25cc91..8116853 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -47,8 +47,13 @@ class MatchingSessionNotFoundError(ValueError): pass
 def search_for_matching_session(sessions_path, chosen_sim_info, chosen_arrays):
     for dir_path in sessions_path.iterdir():
         if dir_path.is_dir():
-            loaded_sim_info = configutil.load_from_file(dir_path)
-            loaded_arrays = ar.load_arrays(dir_path)
+            try:
+                loaded_sim_info = configutil.load_from_file(dir_path)
+                loaded_arrays = ar.load_arrays(dir_path)
+            except Exception as e:
+                # not a session, or one which was not completely saved
+                print(f"Skipped unreadable session {dir_path}: {e!r}")
+                continue
 
             if configutil.equal_audio(chosen_sim_info, loaded_sim_info, chosen_arrays.path_type) and \
                 ar.prototype_equals(chosen_arrays, loaded_arrays):
-- 
2.43.0


From 198f8c252392b009d96e9c1f42fbc4f0907a8b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 06/36] fix: do not load sessions whose paths were generated
 with another length or filter

max_room_ir_length also determines the random paths, and highpass_cutoff applies
to all generated paths, but both were compared only if there were ISM paths.
---
 src/aspsim/configutil.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 4218ae3..04759eb 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -65,14 +65,19 @@ def equal_audio(info1, info2, path_types):
                 info1.spatial_dims == info2.spatial_dims and \
                 info1.reverb == info2.reverb
     
-    if any("ism" in src_path_types.values() for src_path_types in path_types.values()):
+    all_path_types = [pt for src_path_types in path_types.values() for pt in src_path_types.values()]
+    if any(path_type != "modified" for path_type in all_path_types):
+        same_audio = same_audio and info1.highpass_cutoff == info2.highpass_cutoff
+
+    if "ism" in all_path_types or "random" in all_path_types:
+        same_audio = same_audio and info1.max_room_ir_length == info2.max_room_ir_length
+
+    if "ism" in all_path_types:
         same_audio = same_audio and \
             info1.room_size == info2.room_size and \
             info1.room_center == info2.room_center and \
             info1.rt60 == info2.rt60 and \
-            info1.max_room_ir_length == info2.max_room_ir_length and \
             info1.randomized_ism == info2.randomized_ism and \
-            info1.extra_delay == info2.extra_delay and \
-            info1.highpass_cutoff == info2.highpass_cutoff
+            info1.extra_delay == info2.extra_delay
     return same_audio
 
-- 
2.43.0


From 1407a89dee1253170d3036884a4ae12e6392a0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 07/36] fix: compare the shapes of paths and positions when
 looking for a session

User-supplied paths of different lengths either raised a ValueError in
create_simulator() or were considered equal if one had length 1.
---
 src/aspsim/array.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2245b3f..a9c740d 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -444,16 +444,22 @@ def prototype_equals(prototype, initialized):
             return False
         if ar.num != initialized[ar_name].num:
             return False
+        if ar.pos.shape != initialized[ar_name].pos.shape:
+            return False
         if not np.allclose(ar.pos,initialized[ar_name].pos):
             return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
-        if prototype.path_type[src.name][mic.name] == "modified":
-            if not np.allclose(prototype.paths[src.name][mic.name], initialized.paths[src.name][mic.name]):
-                return False
         if prototype.path_type[src.name][mic.name] != initialized.path_type[src.name][mic.name]:
             return False
+        if prototype.path_type[src.name][mic.name] == "modified":
+            prototype_path = prototype.paths[src.name][mic.name]
+            initialized_path = initialized.paths[src.name][mic.name]
+            if prototype_path.shape != initialized_path.shape:
+                return False
+            if not np.allclose(prototype_path, initialized_path):
+                return False
 
     return True
 
-- 
2.43.0


From ddd2c6252195c183635191ebd85c6f0d5996dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 08/36] fix: only take the impulse responses from a loaded
 session

The whole saved collection replaced the chosen one, so trajectories, the array
update frequency, metadata and everything else that is not compared when matching
sessions were those of the earlier simulation.
---
 src/aspsim/array.py           | 26 ++++++++++++++++++++++++--
 src/aspsim/saveloadsession.py |  6 ++----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index a9c740d..1573880 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -242,8 +242,7 @@ class ArrayCollection():
             The simulation info object
         """
         metadata = {}
-        self.sim_info = sim_info
-        self.path_generator = rir.PathGenerator(self.sim_info, self)
+        self._setup_path_generator(sim_info)
 
         for src, mic in self.mic_src_combos():
             self.path_info[f"{src.name}->{mic.name}"] = {}
@@ -261,6 +260,29 @@ class ArrayCollection():
                     self.path_info[f"{src.name}->{mic.name}"][key] = val
         
 
+    def setup_ir_from_session(self, sim_info, session_arrays):
+        """Uses the impulse responses of a matching session instead of generating them
+
+        Paths supplied by the user are kept as they are. Everything that is not part of
+        the impulse responses, such as sources and trajectories, is also kept.
+
+        Parameters
+        ----------
+        sim_info : SimInfo
+            The simulation info object
+        session_arrays : ArrayCollection
+            Must be equal to this collection according to prototype_equals
+        """
+        self._setup_path_generator(sim_info)
+        for src, mic in self.mic_src_combos():
+            if self.path_type[src.name][mic.name] != "modified":
+                self.paths[src.name][mic.name] = session_arrays.paths[src.name][mic.name]
+        self.path_info = session_arrays.path_info
+
+    def _setup_path_generator(self, sim_info):
+        self.sim_info = sim_info
+        self.path_generator = rir.PathGenerator(self.sim_info, self)
+
     def update_path(self, src, mic):
         """Updates the path between a source and a microphone array
         
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 8116853..5061356 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -22,10 +22,8 @@ def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays)
     print("Loaded Session: ", str(session_to_load))
     loaded_arrays = ar.load_arrays(session_to_load)
 
-    for fs_array in chosen_arrays.free_sources():
-        loaded_arrays[fs_array.name].source = fs_array.source
-
-    return loaded_arrays
+    chosen_arrays.setup_ir_from_session(chosen_sim_info, loaded_arrays)
+    return chosen_arrays
     
 def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
-- 
2.43.0


From 4e8cc5405f959991ec5d58432fab057fd71c179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 09/36] fix: save metadata_sim.json with each session so that
 load_from_path works

setup_ir() returned None instead of the metadata, hence the file was never written
and load_from_path() failed with FileNotFoundError if a figure folder was used.
---
 src/aspsim/array.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 1573880..e645d46 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -240,8 +240,12 @@ class ArrayCollection():
         ----------
         sim_info : SimInfo
             The simulation info object
+
+        Returns
+        -------
+        path_info : dict of dicts
+            The metadata about the generated paths
         """
-        metadata = {}
         self._setup_path_generator(sim_info)
 
         for src, mic in self.mic_src_combos():
@@ -258,7 +262,7 @@ class ArrayCollection():
                 self.paths[src.name][mic.name], path_info = self.path_generator.create_path(src, mic, reverb, sim_info, True, True)
                 for key, val in path_info.items():
                     self.path_info[f"{src.name}->{mic.name}"][key] = val
-        
+        return self.path_info
 
     def setup_ir_from_session(self, sim_info, session_arrays):
         """Uses the impulse responses of a matching session instead of generating them
-- 
2.43.0


From fd641693ecd2d975377e4e6f89057425e2fd912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 10/36] fix: allow moving arrays in simulations set up with
 load_from_path

All paths of the loaded session were treated as supplied by the user, which made
the first update of a moving array fail with an AssertionError.
---
 src/aspsim/saveloadsession.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 5061356..669ea09 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -29,6 +29,11 @@ def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
     loaded_sim_info = configutil.load_from_file(session_path_to_load)
 
+    # the paths of moving arrays must be generated again as the arrays move
+    for src, mic in loaded_arrays.mic_src_combos():
+        if (src.dynamic or mic.dynamic) and loaded_arrays.path_type[src.name][mic.name] != "modified":
+            del loaded_arrays.paths[src.name][mic.name]
+
     if new_folder_path is not None:
         copy_sim_metadata(session_path_to_load, new_folder_path)
         loaded_sim_info.save_to_file(new_folder_path)
-- 
2.43.0


From 4b0a7553331f3d5dd54a7e33d6f22bfb7aa18474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 11/36] fix: PhaseCounter enters the phase None when all phases
 have finished

The last phase never ended, even if its length was finite.
---
 src/aspsim/counter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aspsim/counter.py b/src/aspsim/counter.py
index a0905cf..cb1a506 100644
--- a/src/aspsim/counter.py
+++ b/src/aspsim/counter.py
@@ -59,6 +59,9 @@ class PhaseCounter:
 
         self._phase_names = [phase_name for phase_name, phase_len in self.phase_lengths.items() if phase_len > 0]
         self._start_idxs = [start_idx for start_idx, phase_len in zip(self.start_idxs.values(), self.phase_lengths.values()) if phase_len > 0]
+        if None in self.start_idxs:
+            self._phase_names.append(None)
+            self._start_idxs.append(self.start_idxs[None])
 
         self.idx = 0
         self.next_phase()
-- 
2.43.0


From a4725bcdf66c59eb99850d0b54176be5ad45e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 12/36] fix: Sequence with end_mode 'raise' plays the whole
 sequence with amp_factor

It raised before the last sample could be played, and amp_factor was ignored.
---
 src/aspsim/signal/sources.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 1c77539..2903691 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -82,12 +82,11 @@ class Sequence(Source):
         elif self.end_mode == "zeros":
             raise NotImplementedError
         elif self.end_mode == "raise":
-            if self.current_sample + num_samples >= self.tot_samples:
+            if self.current_sample + num_samples > self.tot_samples:
                 raise StopIteration("End of audio signal")
 
             sig = self.audio[:,self.current_sample:self.current_sample+num_samples]
             self.current_sample += num_samples
-            return sig
         else:
             raise ValueError("Invalid end mode")
         return sig * self.amp_factor
-- 
2.43.0


From 7044c570d0f9b929e77d8579c9f983baf8af72f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 13/36] fix: noise sources give the same signal regardless of
 how many samples are requested at a time

With more than one channel, the random numbers were distributed differently over the
channels of BandlimitedNoiseSource and AutocorrSource depending on the block sizes.
---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 2903691..e5f59d8 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -231,7 +231,7 @@ class BandlimitedNoiseSource(Source):
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
-        noise = self.amplitude * self.rng.normal(size=(self.num_channels, num_samples))
+        noise = self.amplitude * self.rng.normal(size=(num_samples, self.num_channels)).T
         filtNoise, self.zi = spsig.sosfilt(self.filtCoef, noise, zi=self.zi, axis=-1)
         return filtNoise
 
@@ -380,7 +380,7 @@ class AutocorrSource(Source):
             self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
     
     def get_samples(self, num_samples):
-        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power)[:,None], size=(self.num_channels, num_samples)))
+        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
 
 
 
-- 
2.43.0


From a19fb6fa72f76ee007aca07771a8883fb8a3aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 14/36] fix: SignalPowerRatio keeps the state of the smoothing
 between chunks

The smoothing started over at every chunk, so the result depended on sim_chunk_size.
---
 src/aspsim/diagnostics/diagnostics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index bdfdb82..076a521 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -190,13 +190,13 @@ class SignalPowerRatio(diacore.SignalDiagnostic):
 
         self.numerator_channels = numerator_channels
         self.denom_channels = denom_channels
+
+        self.smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
+        self.smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-        smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-
-        num = smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
-        denom = smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        num = self.smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        denom = self.smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
 
         self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
-- 
2.43.0


From ff42efeb25098a43071429c735687f2783eb602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 15/36] fix: StatePower mixed up save_frequency and export_at

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 076a521..c0738bb 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -211,7 +211,7 @@ class StatePower(diacore.StateDiagnostic):
                         export_at=None,
                         save_frequency=None, 
                         **kwargs):
-        super().__init__(sim_info, save_frequency, export_at, **kwargs)
+        super().__init__(sim_info, export_at, save_frequency, **kwargs)
         
         self.power = np.full((self.save_at.num_values), np.nan)
         self.time_indices = np.full((self.save_at.num_values), np.nan, dtype=int)
-- 
2.43.0


From 729ebbb977deaad928ee309e581e8729365f467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 16/36] fix: do not export state values saved after the export
 index

If all values were saved at or after the export index, all of them were exported
instead of none.
---
 src/aspsim/diagnostics/core.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index e2c4c5d..766209e 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -527,11 +527,5 @@ def get_values_from_selection(signal, time_indices, max_idx):
         assert signal.shape[-1] == 0
         return signal, time_indices
 
-    above_max_idx = np.argmax(time_indices >= max_idx)
-    if above_max_idx == 0:
-        if np.logical_not(above_max_idx).all():
-            above_max_idx = len(time_indices)
-
-    time_indices = time_indices[:above_max_idx]
-    signal = signal[:,:above_max_idx]
-    return signal, time_indices
+    before_max_idx = time_indices < max_idx
+    return signal[:,before_max_idx], time_indices[before_max_idx]
-- 
2.43.0


From 6b78ae63289d2ca176621a93ff13cbb58aca8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 17/36] fix: SoundfieldPower works without a processor

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index c0738bb..ba3ef81 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -351,7 +351,7 @@ class SoundfieldPower(diacore.Diagnostic):
         #src_sig = {src_name : np.zeros((arrays[src_name].num)) for src_name in source_names}
 
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.power[:] += np.sum(np.abs(processor.sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
+        self.power[:] += np.sum(np.abs(sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
 
     def get_output(self):
         return self.power
-- 
2.43.0


From a2b1510cdeed7a74e882c8f92a6d75580126ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 18/36] fix: export diagnostics scheduled after the last sample
 has been saved

An export at a later index than the end of the last save interval never happened, for
example an export at tot_samples of a signal recorded for only the first half, or of
a state with a save_frequency that does not divide tot_samples.
---
 src/aspsim/diagnostics/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 766209e..52ae6f9 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -109,7 +109,8 @@ class Logger:
     def export_this_idx(self):
         diag_names = []
         for dg_name, dg in self.diagnostics.items():
-            if dg.next_export() <= dg.save_at.saved_until: # all relevant data have been saved
+            saved_all = np.isinf(dg.next_save()[0]) and dg.next_export() <= self.sim_info.tot_samples
+            if dg.next_export() <= dg.save_at.saved_until or saved_all: # all relevant data have been saved
                 assert dg_name not in diag_names
                 diag_names.append(dg_name)
         return diag_names
-- 
2.43.0


From 83c704a836b52747d0096ee4890f019245b5b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 19/36] fix: plot circular trajectories with a period below
 1000 samples

---
 src/aspsim/room/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index af684ab..e1bf183 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -252,7 +252,7 @@ class CircularTrajectory(Trajectory):
         
         approx_num_points = 1000
         max_samples = self.samplerate*max(self.radial_period, self.angle_period)
-        samples_per_point = max_samples // approx_num_points
+        samples_per_point = max(max_samples // approx_num_points, 1)
         t = np.arange(0, max_samples, samples_per_point)
         num_points = t.shape[0]
 
-- 
2.43.0


From 2897ae44c375227d742ef8cdae2bd96fa70d27dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 20/36] fix: export silent signals as silence to audio files

---
 src/aspsim/diagnostics/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index f3b3f09..9a43dae 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -342,7 +342,8 @@ def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=N
         #         fileName = "_".join((name, proc_name, audio_name, str(time_idx)))
         #     file_path = folder.joinpath(fileName + ".wav")
 
-        signal_to_write = signal / np.max(np.abs(signal))
+        max_val = np.max(np.abs(signal), initial=0)
+        signal_to_write = signal / max_val if max_val > 0 else np.zeros_like(signal)
         
 
         ramp_length = min(int(0.2*samplerate), int(0.1 * signal_to_write.shape[-1]))
-- 
2.43.0


From 538bd48794459a7cf3d5827c83921a9a3f843867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 21/36] fix: export a spectrum plot of signal diagnostics

---
 src/aspsim/diagnostics/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index 9a43dae..433729f 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -366,7 +366,9 @@ def spectrum_plot(name, diags, time_idx, folder, preprocess, print_method="pdf")
 
     for proc_name, diag in diags.items():
         output = diag.get_processed_output(time_idx, preprocess)
-        num_channels = output.shape[0]
+        if isinstance(output, tuple):
+            # one line for each channel, without the time indices
+            output = output[0].T
         ax.plot(
                 output,
                 alpha=0.8,
-- 
2.43.0


From bd33a4a47649232952a8a91a40bed7e6de660a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 22/36] fix: smoothing of a diagnostic without samples yet does
 not end the simulation

---
 src/aspsim/diagnostics/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/diagnostics/preprocessing.py b/src/aspsim/diagnostics/preprocessing.py
index 07b1636..c6c27e1 100644
--- a/src/aspsim/diagnostics/preprocessing.py
+++ b/src/aspsim/diagnostics/preprocessing.py
@@ -47,6 +47,8 @@ def clip(low_lim, high_lim):
 def smooth(smooth_len):
     ir = np.ones((1, smooth_len)) / smooth_len
     def smooth_internal(signal):
+        if signal.shape[-1] == 0:
+            return signal
         return spsig.oaconvolve(signal, ir, mode="full", axes=-1)[:,:signal.shape[-1]]
     return smooth_internal
 
-- 
2.43.0


From 60d911d6463f48637530bf4dfecfa587c603186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 23/36] fix: RecordState with a matrix as state

---
 src/aspsim/diagnostics/core.py        | 7 +++----
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 52ae6f9..fae52b0 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -515,18 +515,17 @@ def get_values_from_selection(signal, time_indices, max_idx):
     max_idx is exlusive
     """
     signal = np.atleast_2d(signal)
-    assert signal.ndim == 2
-    nan_filter = np.logical_not(np.isnan(signal))
+    nan_filter = np.logical_not(np.isnan(signal)).reshape(-1, signal.shape[-1])
     assert np.isclose(nan_filter, nan_filter[0, :]).all()
     nan_filter = nan_filter[0, :]
 
     assert time_indices.shape[-1] == signal.shape[-1]
     time_indices = time_indices[nan_filter]
-    signal = signal[:,nan_filter]
+    signal = signal[...,nan_filter]
 
     if len(time_indices) == 0:
         assert signal.shape[-1] == 0
         return signal, time_indices
 
     before_max_idx = time_indices < max_idx
-    return signal[:,before_max_idx], time_indices[before_max_idx]
+    return signal[...,before_max_idx], time_indices[before_max_idx]
diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index ba3ef81..2484d80 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -143,7 +143,7 @@ class RecordState(diacore.StateDiagnostic):
 
     def save(self, processor, sig, chunkInterval, globInterval):
         assert globInterval[1] - globInterval[0] == 1
-        self.state_values[:, self.diag_idx] = self.get_prop(processor)
+        self.state_values[..., self.diag_idx] = self.get_prop(processor)
         self.time_indices[self.diag_idx] = globInterval[0]
 
         self.diag_idx += 1
-- 
2.43.0


From 2560a8d09bd1ca1e04b19189a241f879e4cd7795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 24/36] fix: do not load sessions with microphones of another
 directivity

---
 src/aspsim/array.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index e645d46..14350b4 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -444,6 +444,11 @@ def load_arrays(folder_path):
     return arrays
 
 
+def _same_directions(dir1, dir2):
+    if dir1 is None or dir2 is None:
+        return dir1 is None and dir2 is None
+    return np.shape(dir1) == np.shape(dir2) and np.allclose(dir1, dir2)
+
 def prototype_equals(prototype, initialized):
     """Compares an initialized collection to a prototype collection.
 
@@ -474,6 +479,10 @@ def prototype_equals(prototype, initialized):
             return False
         if not np.allclose(ar.pos,initialized[ar_name].pos):
             return False
+        if list(ar.directivity_type) != list(initialized[ar_name].directivity_type):
+            return False
+        if not _same_directions(ar.directivity_dir, initialized[ar_name].directivity_dir):
+            return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
-- 
2.43.0


From 1eb595243c95249f08ef180f3cba70b160a3f1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:42 +0000
Subject: [PATCH 25/36] fix: accept paths given as str, as documented

---
 src/aspsim/simulator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index ddd5cab..86297f8 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -1,5 +1,6 @@
 import numpy as np
 import copy
+from pathlib import Path
 
 import aspsim.fileutilities as futil
 import aspsim.configutil as configutil
@@ -43,10 +44,10 @@ class SimulatorSetup:
         if config_path is None:
             self.sim_info = configutil.load_default_config()
         else:
-            self.sim_info = configutil.load_from_file(config_path)
+            self.sim_info = configutil.load_from_file(Path(config_path))
 
-        self.base_fig_path = base_fig_path
-        self.session_folder = session_folder
+        self.base_fig_path = None if base_fig_path is None else Path(base_fig_path)
+        self.session_folder = None if session_folder is None else Path(session_folder)
 
         if rng is None:
             self.rng = np.random.default_rng()
@@ -161,7 +162,7 @@ class SimulatorSetup:
         session_path : str or Path from pathlib
         """
         self.folder_path = self._create_fig_folder(self.base_fig_path)
-        self.sim_info, self.arrays = sess.load_from_path(session_path, self.folder_path)
+        self.sim_info, self.arrays = sess.load_from_path(Path(session_path), self.folder_path)
 
     def create_simulator(self):
         """Creates and returns a simulator object from the current setup.
-- 
2.43.0


From 97493ac59fd49a53e53430efdda56d20fbbf6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 26/36] fix: do not retry a taken folder name forever

A name which is taken but does not exist (a dangling link) was chosen
again and again.
---
 src/aspsim/fileutilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index 38a7d50..d9f77ff 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -44,11 +44,15 @@ def create_unique_folder(prefix, parent_folder, detailed_naming=False):
     If the chosen name is taken by someone else before the folder
     could be created, then another name is chosen.
     """
+    folder_name = get_unique_folder_name(prefix, parent_folder, detailed_naming)
+    base_name, idx = folder_name.name.rsplit("_", 1)
+    idx = int(idx)
     while True:
-        folder_name = get_unique_folder_name(prefix, parent_folder, detailed_naming)
         try:
             folder_name.mkdir()
         except FileExistsError:
+            idx += 1
+            folder_name = parent_folder.joinpath(f"{base_name}_{idx}")
             continue
         return folder_name
 
-- 
2.43.0


From 5de0d54cea903a0b4b296beca8c043f0fc898e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 27/36] fix: describe the source set with set_source in the
 metadata

---
 src/aspsim/array.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 14350b4..0a6300f 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -696,8 +696,6 @@ class FreeSourceArray(Array):
     def __init__(self, name, pos, source, **kwargs):
         super().__init__(name, pos, **kwargs)
         self.set_source(source)
-
-        self.metadata["source info"] = self.source.metadata
     
     def reset_state(self):
         self.source = copy.deepcopy(self.source)
@@ -709,6 +707,7 @@ class FreeSourceArray(Array):
     def set_source(self, source):
         assert source.num_channels == self.num
         self.source = source
+        self.metadata["source info"] = self.source.metadata
 
 
 
-- 
2.43.0


From a29bbc21edc13c8a454fb64a55383dcf3a129edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 28/36] fix: create output folders for simulations with
 MultiSineSource

The frequencies in the metadata could not be written as JSON.
---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index e5f59d8..26d6012 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -189,7 +189,7 @@ class MultiSineSource(Source):
             self.metadata["power"] = self.power.tolist()
         else:
             self.metadata["power"] = self.power
-        self.metadata["frequency"] = self.freq
+        self.metadata["frequency"] = self.freq.tolist()
 
     def get_samples(self, num_samples):
         noise = np.zeros((1, num_samples))
-- 
2.43.0


From 4a2158f6592a3b1837f7ea87e00e6abb3db17732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 29/36] fix: do not add events to the caller's definition and
 to other counters made from it

---
 src/aspsim/counter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/counter.py b/src/aspsim/counter.py
index cb1a506..4cfe0c0 100644
--- a/src/aspsim/counter.py
+++ b/src/aspsim/counter.py
@@ -110,7 +110,7 @@ class EventCounter:
 
     """
     def __init__(self, event_def):
-        self.event_def = event_def
+        self.event_def = dict(event_def)
         self.event = []
 
         self.freq = {name : freq for name, (freq, offset) in event_def.items()}
-- 
2.43.0


From a59f04946fe792499c50a99d543111e93925d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 30/36] fix: do not end simulations without a figure folder at
 npz, text and audio exports

---
 src/aspsim/diagnostics/plot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index 433729f..8b72af0 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -204,6 +204,8 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
     """Keeps only the latest save.
     Assumes that the data in previous
     saves is present in the current data"""
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -219,6 +221,8 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def txt(name, diags, time_idx, folder, preprocess, print_method="pdf"):
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -316,6 +320,8 @@ def matshow(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=None):
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes the signal even if time indices are provided
-- 
2.43.0


From 4e8ce0d802bf714bc1acccddac7b3f80a77bf9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 31/36] fix: let constant_time trajectories use the whole
 period

---
 src/aspsim/room/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index e1bf183..dbf9683 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -113,7 +113,7 @@ class LinearTrajectory(Trajectory):
         return pos_func
     
     def _constant_time_pos_func(self, points, period, samplerate):
-        num_segments = points.shape[0]
+        num_segments = points.shape[0] - 1
         time_per_segment = period / num_segments
         self.samples_per_segment = time_per_segment * samplerate
         segment_distance = np.sqrt(np.sum((points[:-1,:] - points[1:,:])**2, axis=-1))
@@ -121,7 +121,7 @@ class LinearTrajectory(Trajectory):
         distance_per_time = segment_distance / time_per_segment
         distance_per_sample = distance_per_time / samplerate
 
-        self.cumulative_samples = np.arange(num_segments) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
+        self.cumulative_samples = np.arange(num_segments + 1) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
 
         def pos_func(n):
             period_samples = n % (period * samplerate)
-- 
2.43.0


From 886dcfbb7e7be3383984b59c3794afeca6ceeb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 32/36] fix: let Gold sequences of odd orders above 11 be
 created

---
 src/aspsim/utilities.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/utilities.py b/src/aspsim/utilities.py
index 1e2c31a..701b28e 100644
--- a/src/aspsim/utilities.py
+++ b/src/aspsim/utilities.py
@@ -12,4 +12,12 @@ def calc_block_sizes(num_samples, start_idx, block_size):
         left_in_block -= block_len
         if left_in_block == 0:
             left_in_block = block_size
-    return block_sizes
\ No newline at end of file
+    return block_sizes
+
+
+def getSmallestCoprime(num):
+    """Returns the smallest integer larger than 1 which has no common divisor with num"""
+    candidate = 2
+    while np.gcd(candidate, num) != 1:
+        candidate += 1
+    return candidate
-- 
2.43.0


From e9e711c0e1271667c5fda59eeedaade8b19bec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 33/36] fix: let load_audio_file be called without samplerate
 or number of channels

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 26d6012..62ad0ed 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -293,14 +293,14 @@ def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=Fal
     if num_channels is not None:
         audio = audio[:num_channels, :]
 
-    if desired_sr != audio_sr:
+    if desired_sr is not None and desired_sr != audio_sr:
         assert audio_sr > desired_sr
         if audio_sr % desired_sr == 0:
             down_factor = audio_sr // desired_sr
             up_factor = 1
         else:
             up_factor, down_factor = coreutil.simplify_ratio(desired_sr, audio_sr)
-        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(num_channels)]
+        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(audio.shape[0])]
         audio = np.stack(audio_downsampled, axis=0)
         # srAudio = srAudio // downsamplingFactor
         if verbose:
-- 
2.43.0


From 9f55f1bdcee63c6c67275c38c47c56204a597cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 34/36] fix: let load_audio_file read mono files, as the
 exports of single channels are

---
 src/aspsim/signal/sources.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 62ad0ed..a68abc2 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -285,8 +285,7 @@ class PulseTrain(Source):
 
 
 def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=False):
-    audio, audio_sr = sf.read(file_name)
-    assert audio.ndim == 2
+    audio, audio_sr = sf.read(file_name, always_2d=True)
     audio = audio.T
     #raise NotImplementedError("Check which axis is audio and which is channel. \
     #                            Make support for multiple channels (should be simple)")
-- 
2.43.0


From ab3a59310db7efb131eeca2ccb12850446228d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 35/36] fix: let MLS start from the given state

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index a68abc2..d8bb3f0 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -400,11 +400,11 @@ class MLS(Source):
             raise NotImplementedError
         self.order = order
         self.poly = polynomial
-        self.state = None
+        self.state = state
 
         self.metadata["order"] = self.order
         self.metadata["polynomial"] = self.poly
-        self.metadata["start state"] = self.state
+        self.metadata["start state"] = None if state is None else np.asarray(state).tolist()
 
     def get_samples(self, num_samples):
         seq, self.state = spsig.max_len_seq(
-- 
2.43.0


From 381693306deaac3e9467cab18dd45eb9a285cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 36/36] fix: let a simulation without sources have moving
 microphones

---
 src/aspsim/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 0a6300f..0242191 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -332,7 +332,8 @@ class ArrayCollection():
                 for src in self.sources():
                     if not src.name in already_updated:
                         self.update_path(src, self.arrays[ar_name])
-                self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
+                if self.names_src:
+                    self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
             elif self.arrays[ar_name].is_source:
                 for mic in self.mics():
                     if not mic.name in already_updated:
-- 
2.43.0


From 3b54eee06c59b6812b29fde0049eee28690bfdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:27 +0000
Subject: [PATCH 01/25] fix: take a real copy of the initial model as the first
 best model

state_dict() returns references to the live parameters, so until the first
physically valid evaluation the "best model" silently followed the training:
a recovery reloaded the NaN parameters onto themselves and a run without a
valid design returned the last (possibly NaN) parameters.
---
 nidn/training/run_training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index c746fbc..60723e5 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -95,7 +95,7 @@ def run_training(
 
     # And store the best results
     best_loss = np.inf
-    run_cfg.best_model_state_dict = run_cfg.model.state_dict()
+    run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
     logger.trace("Starting training...")
     # Training Loop
-- 
2.43.0


From 207b3d0123bd12ccb1b18ea076085d332108b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:27 +0000
Subject: [PATCH 02/25] fix: do not let unphysical results hide better physical
 designs

A renormalized (R+T>1) evaluation lowered best_loss without its model being
stored, so later valid models that beat the stored one were discarded.
---
 nidn/training/run_training.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index 60723e5..a6bcfb3 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -155,14 +155,14 @@ def run_training(
             )
         # We store the model if it has the lowest loss yet
         # (this is to avoid losing good results during a run that goes wild)
-        if loss < best_loss:
+        # Unphysical (renormalized) results are never considered
+        if loss < best_loss and not renormalized:
             best_loss = loss
             logger.info(
                 f"###  New Best={loss.item():<6.4f} with SpectrumLoss={spectrum_loss:<6.4f} ### L1={L1err.detach().item():.4f}"
             )
-            if not renormalized:
-                logger.debug("Saving model state...")
-                run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
+            logger.debug("Saving model state...")
+            run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
         # Update the loss trend indicators
         weighted_average.append(loss.item())
-- 
2.43.0


From 808066da28cd044286cc9614d179389454daf8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:27 +0000
Subject: [PATCH 03/25] fix: discard the optimizer moments when recovering from
 NaNs

After a NaN gradient Adam's moment estimates stay NaN, so every step after a
recovery destroyed the reloaded model again and training never progressed.
---
 nidn/training/run_training.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index a6bcfb3..3701911 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -120,6 +120,8 @@ def run_training(
                 "Setting LR to {}".format(optimizer.param_groups[0]["lr"] * 0.5)
             )
             optimizer.param_groups[0]["lr"] *= 0.5
+            # The optimizer's moment estimates may contain NaNs as well
+            optimizer.state.clear()
             continue
         # Compute loss between target spectrum and
         # the one from the current network structure
-- 
2.43.0


From 7f4bf3d76ae392111f9fafb730ad4b7580059480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:27 +0000
Subject: [PATCH 04/25] fix: renormalize R and T by the same total in the
 spectrum loss

The second division used the already renormalized R, so R+T did not become 1.
---
 nidn/training/losses/spectrum_loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/training/losses/spectrum_loss.py b/nidn/training/losses/spectrum_loss.py
index 8f36ded..2de94f7 100644
--- a/nidn/training/losses/spectrum_loss.py
+++ b/nidn/training/losses/spectrum_loss.py
@@ -47,8 +47,9 @@ def _spectrum_loss_fn(
             logger.warning(
                 f"R+T>1 for freq={freq:.4f}. Renormalizing this point in the loss..."
             )
-            prod_R = prod_R / (prod_R + prod_T)
-            prod_T = prod_T / (prod_R + prod_T)
+            total = prod_R + prod_T
+            prod_R = prod_R / total
+            prod_T = prod_T / total
             renormalized = True
 
         # Accumulate losses
-- 
2.43.0


From 133388411b5513d473e5849af1e20d6c7217c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:27 +0000
Subject: [PATCH 05/25] fix: load materials in a defined order

glob returns files in directory order, so the meaning of the network outputs,
and with it the result of a seeded classification run, depended on the file
system.
---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 3054c26..6407c19 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -57,7 +57,7 @@ class MaterialCollection:
         logger.trace(f"Loading materials from folder: {self.materials_folder}")
 
         # Load materials data
-        files = glob(self.materials_folder + "/*.csv")
+        files = sorted(glob(self.materials_folder + "/*.csv"))
         logger.debug("Found the following files")
         logger.debug(files)
 
-- 
2.43.0


From a2f7c72180467cdcc1d8ff77838ff4ec4e58d6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:27 +0000
Subject: [PATCH 06/25] fix: keep the material and frequency dimensions of the
 material tensor

squeeze() also dropped the frequency dimension for a single target frequency
(classification then failed) and the material dimension for a single material.
---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 6407c19..0b951e3 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -79,7 +79,7 @@ class MaterialCollection:
 
         # Create a single tensor of all materials
         logger.trace("Creating material tensor")
-        self.epsilon_matrix = torch.stack(eps_list).squeeze()  # .cuda()
+        self.epsilon_matrix = torch.stack(eps_list).squeeze(-1)  # .cuda()
         self.N_materials = len(self.material_names)
 
     def _load_material_data(self, name):
-- 
2.43.0


From 90b31fac6acdd2c6c115316d40f825fba721bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:16 +0000
Subject: [PATCH 07/25] fix: keep the permittivity differentiable when noise is
 added

---
 nidn/training/model/model_to_eps_grid.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 85da34a..44274dd 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -201,20 +201,25 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
     # Adds noise scaled to desired eps range times noise_scale
     if run_cfg.add_noise:
-        eps.real += (
+        # (not in place, as this would break the gradient computation)
+        real_noise = (
             (torch.randn_like(eps.real) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.real_max_eps - run_cfg.real_min_eps)
         )
-        eps.real = eps.real.clip(run_cfg.real_min_eps, run_cfg.real_max_eps)
-        eps.imag += (
+        eps.real = (eps.real + real_noise).clip(
+            run_cfg.real_min_eps, run_cfg.real_max_eps
+        )
+        imag_noise = (
             (torch.randn_like(eps.imag) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
         )
-        eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
+        eps.imag = (eps.imag + imag_noise).clip(
+            run_cfg.imag_min_eps, run_cfg.imag_max_eps
+        )
 
     return eps
 
-- 
2.43.0


From 6feea28e961cb764a10d987a1a655d242b904a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:26 +0000
Subject: [PATCH 08/25] fix: never overwrite a run saved under the same name
 within the same second

---
 nidn/training/save_run.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nidn/training/save_run.py b/nidn/training/save_run.py
index 8c6a74b..0a49057 100644
--- a/nidn/training/save_run.py
+++ b/nidn/training/save_run.py
@@ -22,6 +22,16 @@ def save_run(run_cfg, subfolder=""):
 
     filename = "../results/" + subfolder + "/" + run_cfg.name + "_" + dt_string + "_run.pk"
 
+    # Never overwrite a run that was saved under the same name within the same second
+    copy_nr = 1
+    while True:
+        try:
+            handle = open(filename, "xb")
+            break
+        except FileExistsError:
+            copy_nr += 1
+            filename = "../results/" + subfolder + "/" + run_cfg.name + "_" + dt_string + "_" + str(copy_nr) + "_run.pk"
+
     logger.info("Saving run to file: {}".format(filename))
-    with open(filename, "wb") as handle:
+    with handle:
         pk.dump(run_cfg, handle, protocol=pk.HIGHEST_PROTOCOL)
-- 
2.43.0


From e9246423e3a68d052a9282347e41db1c7a28ca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:31 +0000
Subject: [PATCH 09/25] fix: save all plots of runs with less than four
 frequencies

---
 nidn/plots/plot_model_grid_per_freq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nidn/plots/plot_model_grid_per_freq.py b/nidn/plots/plot_model_grid_per_freq.py
index 41041b2..6a4fb5a 100644
--- a/nidn/plots/plot_model_grid_per_freq.py
+++ b/nidn/plots/plot_model_grid_per_freq.py
@@ -5,15 +5,18 @@ from ..utils.convert_units import freq_to_wl
 from ..training.model.model_to_eps_grid import model_to_eps_grid
 
 
-def plot_model_grid_per_freq(run_cfg, freq_idx=[0, 1, 2, 3], save_path=None):
+def plot_model_grid_per_freq(run_cfg, freq_idx=None, save_path=None):
     """Plots the real and imaginary part of the permittivity in two separate plots for
     frequencies in target_frequencies defined by freq_idx. Optionally saves it.
 
     Args:
         run_cfg (dict): The run configuration.
-        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to [0, 1, 2, 3].
+        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to None, then the first (up to) four are plotted.
         save_path (str, optional): Folder to save the plot in. Defaults to None, then the plot will not be saved.
     """
+    if freq_idx is None:
+        freq_idx = list(range(min(4, run_cfg.N_freq)))
+
     Nx, Ny, N_layers = run_cfg.Nx, run_cfg.Ny, run_cfg.N_layers
     eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
 
-- 
2.43.0


From 14b55a9e4182e797aab04ac3c7b2aa8b18a83518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:08 +0000
Subject: [PATCH 10/25] fix: make the default FDTD backend double precision
 from the start

The precision of line source profiles depended on whether a spectrum had
been computed before in the same process.
---
 nidn/fdtd/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/backend.py b/nidn/fdtd/backend.py
index 08d72f1..d28940f 100644
--- a/nidn/fdtd/backend.py
+++ b/nidn/fdtd/backend.py
@@ -74,7 +74,7 @@ if TORCH_AVAILABLE:
         int = torch.int64
         """ integer type for array"""
 
-        float = torch.get_default_dtype()
+        float = torch.float64
         """ floating type for array """
 
         # methods
-- 
2.43.0


From a29ed2388a258b4af54724a48a3a120667ddb7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:24 +0000
Subject: [PATCH 11/25] fix: do not modify the caller's cfg while computing an
 FDTD spectrum

The grid scaling and the expanded layer thicknesses were written into the
passed cfg, so evaluations sharing it could fail or disturb each other.
---
 nidn/fdtd_integration/compute_spectrum_fdtd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nidn/fdtd_integration/compute_spectrum_fdtd.py b/nidn/fdtd_integration/compute_spectrum_fdtd.py
index 772ed26..56c5959 100644
--- a/nidn/fdtd_integration/compute_spectrum_fdtd.py
+++ b/nidn/fdtd_integration/compute_spectrum_fdtd.py
@@ -25,6 +25,9 @@ def compute_spectrum_fdtd(permittivity, cfg: DotMap):
     Returns:
         tuple[array, array]: Transmission spectrum and reflection spectrum
     """
+    # Work on a copy, the cfg belongs to the caller and may be shared
+    cfg = cfg.copy()
+
     transmission_spectrum = []
     reflection_spectrum = []
     physical_wavelengths, _ = get_frequency_points(cfg)
-- 
2.43.0


From b96d6b2dc0f780807cb543331a2a2a503023da04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:18 +0000
Subject: [PATCH 12/25] fix: let point sources emit the ricker signal

The computed value went to a misspelled name, so every step failed.
---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index 6713223..df9ea76 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -112,7 +112,7 @@ class PointSource:
             # By experimental value, the ricker wavelet signal converges to zero after 6 times the grid points per wavelength, so just set the source-signal to zero after this
             t1 = self.grid_points_per_wavelength * 6
             if q < t1:
-                vsrcect = self.amplitude * _ricker(
+                src = self.amplitude * _ricker(
                     q, self.grid_points_per_wavelength, 1, self.courant
                 )
             else:
-- 
2.43.0


From e99c90fb4b73f3034d93b9100bdcf23556615ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:18 +0000
Subject: [PATCH 13/25] fix: reset the absorbing boundaries and non-finite
 fields with the grid

The convolutions of the PMLs survived a reset, and NaN and inf survived the
multiplication by zero, so a reset grid did not behave like a new one.
---
 nidn/fdtd/boundaries.py | 14 ++++++++++++++
 nidn/fdtd/grid.py       |  6 ++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/nidn/fdtd/boundaries.py b/nidn/fdtd/boundaries.py
index 4e92aa0..dc917f0 100644
--- a/nidn/fdtd/boundaries.py
+++ b/nidn/fdtd/boundaries.py
@@ -104,6 +104,13 @@ class Boundary:
             this method is called *after* the grid fields are updated
         """
 
+    def reset(self):
+        """Reset the boundary
+
+        Note:
+            this method is called when the grid is reset
+        """
+
     def __repr__(self):
         return f"PML(name={repr(self.name)})"
 
@@ -395,6 +402,13 @@ class PML(Boundary):
             / (self.sigmaH * self.k + self.a * self.k**2)
         )
 
+    def reset(self):
+        """Reset the boundary by setting all convolutions to zero"""
+        for name in ("phi_E", "psi_Ex", "psi_Ey", "psi_Ez"):
+            setattr(self, name, bd.zeros((*self.shape, 3)))
+        for name in ("phi_H", "psi_Hx", "psi_Hy", "psi_Hz"):
+            setattr(self, name, bd.zeros((*self.shape, 3)))
+
     def update_E(self):
         """Update electric field of the grid
 
diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 4bd9001..26f1353 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -331,8 +331,10 @@ class Grid:
 
     def reset(self):
         """reset the grid by setting all fields to zero"""
-        self.H *= 0.0
-        self.E *= 0.0
+        self.H = bd.zeros((self.Nx, self.Ny, self.Nz, 3))
+        self.E = bd.zeros((self.Nx, self.Ny, self.Nz, 3))
+        for boundary in self.boundaries:
+            boundary.reset()
         self.time_steps_passed *= 0
 
     def add_source(self, name, source):
-- 
2.43.0


From bf71b4b9008ea852f7826db6b63970769be533d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:30 +0000
Subject: [PATCH 14/25] fix: give every saved FDTD simulation its own folder

Simulations saved within the same second shared a folder and overwrote each
other's output, and the six clock readings could combine into a time that
never was.
---
 nidn/fdtd/grid.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 26f1353..f157791 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -416,28 +416,37 @@ class Grid:
         """
         makedirs("fdtd_output", exist_ok=True)  # Output master folder declaration
         # making full_sim_name with timestamp
+        now = datetime.now()
         full_sim_name = (
-            str(datetime.now().year)
+            str(now.year)
             + "-"
-            + str(datetime.now().month)
+            + str(now.month)
             + "-"
-            + str(datetime.now().day)
+            + str(now.day)
             + "-"
-            + str(datetime.now().hour)
+            + str(now.hour)
             + "-"
-            + str(datetime.now().minute)
+            + str(now.minute)
             + "-"
-            + str(datetime.now().second)
+            + str(now.second)
         )
         # Simulation name (optional)
         if sim_name is not None:
             full_sim_name = full_sim_name + " (" + sim_name + ")"
-        folder = "fdtd_output_" + full_sim_name
-        # storing folder path for saving simulation
-        self.folder = os.path.abspath(path.join("fdtd_output", folder))
+        # Never share a folder with a simulation started in the same second
+        unique_sim_name, counter = full_sim_name, 1
+        while True:
+            folder = "fdtd_output_" + unique_sim_name
+            # storing folder path for saving simulation
+            self.folder = os.path.abspath(path.join("fdtd_output", folder))
+            try:
+                makedirs(self.folder)
+                break
+            except FileExistsError:
+                counter += 1
+                unique_sim_name = f"{full_sim_name}_{counter}"
         # storing timestamp title for self.generate_video
-        self.full_sim_name = full_sim_name
-        makedirs(self.folder, exist_ok=True)
+        self.full_sim_name = unique_sim_name
         return self.folder
 
     def generate_video(self, delete_frames=False):
-- 
2.43.0


From 2298bfc2405729a960e485d0a1835fb54f67ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:30 +0000
Subject: [PATCH 15/25] fix: keep the working directory when generating a video

A failing ffmpeg left the process in the output folder and raised a
TypeError instead of the intended error.
---
 nidn/fdtd/grid.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index f157791..9d83d81 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -9,9 +9,9 @@ together and where the biggest part of the calculations are done.
 
 # standard library
 import os
-from os import path, makedirs, chdir, remove
+from os import path, makedirs, remove
 from subprocess import check_call, CalledProcessError
-from glob import glob
+from glob import glob, escape
 from datetime import datetime
 
 # 3rd party
@@ -467,8 +467,6 @@ class Grid:
             raise Exception(
                 "Save location not initialized. Please read about 'fdtd.Grid.saveSimulation()' or try running 'grid.saveSimulation()'."
             )
-        cwd = path.abspath(os.getcwd())
-        chdir(self.folder)
         try:
             check_call(
                 [
@@ -483,19 +481,19 @@ class Grid:
                     "-pix_fmt",
                     "yuv420p",
                     "fdtd_sim_video_" + self.full_sim_name + ".mp4",
-                ]
+                ],
+                cwd=self.folder,
             )
-        except (FileNotFoundError, CalledProcessError):
-            raise CalledProcessError(
+        except (FileNotFoundError, CalledProcessError) as error:
+            raise RuntimeError(
                 "Error when calling ffmpeg. Is ffmpeg installed and available in your path?"
-            )
+            ) from error
         if delete_frames:  # delete frames
-            for file_name in glob("*.png"):
+            for file_name in glob(path.join(escape(self.folder), "*.png")):
                 remove(file_name)
         video_path = path.abspath(
             path.join(self.folder, f"fdtd_sim_video_{self.full_sim_name}.mp4")
         )
-        chdir(cwd)
         return video_path
 
     def save_data(self):
-- 
2.43.0


From e6b1dfa4ba0b357a4b901dabce4b61258496f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:17 +0000
Subject: [PATCH 16/25] fix: avoid zero permittivities after noise and for
 voxel models too

---
 nidn/training/model/model_to_eps_grid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 44274dd..1b06d49 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -190,9 +190,6 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
             run_cfg.real_min_eps, run_cfg.real_max_eps
         )
 
-        if run_cfg.avoid_zero_eps:
-            _avoid_zero_eps(eps)
-
         # second half imaginary
         eps.imag = out[:, :, :, run_cfg.N_freq :]
         eps.imag = (eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)).clip(
@@ -221,6 +218,10 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
         )
 
+    # Has to happen last as the clipping and the noise may produce zeros
+    if run_cfg.avoid_zero_eps:
+        _avoid_zero_eps(eps)
+
     return eps
 
 
-- 
2.43.0


From 86a7dd09f26e8bc081995879aaab8b761cbafc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:50 +0000
Subject: [PATCH 17/25] fix: give every run of a batch its own results folder

---
 nidn/scripts/run_cfgs.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nidn/scripts/run_cfgs.py b/nidn/scripts/run_cfgs.py
index a757422..a74ab55 100644
--- a/nidn/scripts/run_cfgs.py
+++ b/nidn/scripts/run_cfgs.py
@@ -55,6 +55,17 @@ if __name__ == "__main__":
 
         logger.info("Storing results...")
         subfolder_name = cfg.name + "_" + dt_string
+
+        # Every run gets its own folder, even if name and time are shared with another
+        copy_nr = 1
+        while True:
+            try:
+                os.makedirs("../results/" + result_folder_name + "/" + subfolder_name)
+                break
+            except FileExistsError:
+                copy_nr += 1
+                subfolder_name = cfg.name + "_" + dt_string + "_" + str(copy_nr)
+
         nidn.save_run(cfg, result_folder_name + "/" + subfolder_name + "/")
         nidn.save_all_plots(
             cfg, "../results/" + result_folder_name + "/" + subfolder_name + "/"
-- 
2.43.0


From 837d3cece5c6a1ab9d90a6867b63fae642a59f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:54 +0000
Subject: [PATCH 18/25] fix: treat a NaN or infinite spectrum in training like
 a NaN model output

---
 nidn/training/run_training.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index 3701911..c49f5d5 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -111,6 +111,10 @@ def run_training(
             produced_R_spectrum, produced_T_spectrum = compute_spectrum(
                 eps_grid, run_cfg, validate_cfg=False
             )
+            # A valid eps grid can still lead to an invalid spectrum (e.g. if eps = 0)
+            for value in [*produced_R_spectrum, *produced_T_spectrum]:
+                if not torch.isfinite(torch.as_tensor(value)):
+                    raise ValueError("Spectrum became NaN or infinite...", value)
         except ValueError:
             logger.warning(
                 "ValueError encountered in compute_spectrum. This likely means the LR was too high. Reloading best model, and reducing LR."
-- 
2.43.0


From 1d20aadc22eecd353df7f952bbb5969092085054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:06 +0000
Subject: [PATCH 19/25] fix: material weights overflowed for large noise

---
 nidn/training/model/model_to_eps_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 1b06d49..c7af617 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -274,8 +274,8 @@ def _classification_model_to_eps_grid(model, run_cfg: DotMap):
 
     beta = 16
     # Softmax with a high beta to push towards 1
-    exponential = torch.exp(beta * out)
-    material_id = exponential / exponential.sum(dim=-1).unsqueeze(-1)
+    # (torch's softmax does not overflow, however large the noise is)
+    material_id = torch.softmax(beta * out, dim=-1)
 
     material_id = torch.divide(material_id, material_id.sum(-1).unsqueeze(-1))
 
-- 
2.43.0


From d9783892f1d8b625f010bcb392bf716dcee8bf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:06 +0000
Subject: [PATCH 20/25] fix: store the readings of current detectors too

---
 nidn/fdtd/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 9d83d81..f7e1f23 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -509,6 +509,7 @@ class Grid:
             )
         dic = {}
         for detector in self.detectors:
-            dic[detector.name + " (E)"] = [x for x in detector.detector_values()["E"]]
-            dic[detector.name + " (H)"] = [x for x in detector.detector_values()["H"]]
+            # Current detectors have readings of their own kind (I)
+            for kind, readings in detector.detector_values().items():
+                dic[detector.name + " (" + kind + ")"] = [x for x in readings]
         savez(path.join(self.folder, "detector_readings"), **dic)
-- 
2.43.0


From de27ea2b3a4cf71a06cdc2ed86b236eab416db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:26 +0000
Subject: [PATCH 21/25] fix: field queries of the RCWA solver call torch
 functions that do not exist

torch.inv, torch.isinstance and torch.ifft2 do not exist, and torch.tensor of
a list of vectors fails: amplitudes and fields inside the stack, the
permittivity of patterned layers and volume integrals always raised.
---
 nidn/trcwa/trcwa.py          | 12 ++++++------
 nidn/trcwa/utils/fft_funs.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 3b25b61..c63e837 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -276,7 +276,7 @@ class TRCWA:
         # patterned layer
         elif self.id_list[i][0] == 1:
             if component == "zz":
-                epk = torch.inv(self.Patterned_epinv_list[self.id_list[i][2]])
+                epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
             elif component == "xx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
             elif component == "xy":
@@ -451,7 +451,7 @@ class TRCWA:
         ai0, bi0 = self.GetAmplitudes_noTranslate(which_layer)
         # ai, bi = self.GetAmplitudes(which_layer,z_offset)
 
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             zl = [z_offset]
         else:
             zl = z_offset
@@ -504,7 +504,7 @@ class TRCWA:
             torch.tensor: Tensor containing the field amplitudes [[Ex,Ey,Ez], [Hx,Hy,Hz]] in Fourier space for each z-offset
         """
 
-        if torch.isinstance(Nxy, type(None)):
+        if isinstance(Nxy, type(None)):
             Nxy = self.GridLayer_Nxy_list[self.id_list[which_layer][3]]
         Nx = Nxy[0]
         Ny = Nxy[1]
@@ -524,7 +524,7 @@ class TRCWA:
             hy = get_ifft(Nx, Ny, fh[1], self.G)
             hz = get_ifft(Nx, Ny, fh[2], self.G)
             eh.append([[ex, ey, ez], [hx, hy, hz]])
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             eh = eh[0]
         return eh
 
@@ -862,7 +862,7 @@ def SolveInterior(which_layer, a0, bN, q_list, phi_list, kp_list, thickness_list
     )
 
     # tmp = inv(1-S12*pS21)
-    tmp = torch.inv(torch_eye(nG2) - torch_dot(S12, pS21))
+    tmp = torch.inverse(torch_eye(nG2) - torch_dot(S12, pS21))
     # ai = tmp * (S11 a0 + S12 pS22 bN)
     ai = torch_dot(tmp, torch_dot(S11, a0) + torch_dot(S12, torch_dot(pS22, bN)))
     # bi = pS21 ai + pS22 bN
@@ -989,6 +989,6 @@ def Gmeshgrid(x):
     qj = []
     for i in range(N):
         qj.append(x)
-    qj = torch.tensor(qj)
+    qj = torch.stack(qj)
     qi = torch_transpose(qj)
     return qi, qj
diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index df91d0b..d9cda56 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -83,5 +83,5 @@ def get_ifft(Nx, Ny, s_in, G):
         stmp[x, y] = 1.0
         s0 = s0 + s_in[i] * stmp
 
-    s_out = torch.ifft2(s0) / dN
+    s_out = torch.fft.ifft2(s0) / dN
     return s_out
-- 
2.43.0


From 7d5da49375097d83a5a269f77727ff74bb0c8a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:20 +0000
Subject: [PATCH 22/25] fix: a component that cannot be placed does not stay in
 the FDTD grid

Sources, detectors, boundaries and objects were added to the grid before their
name and place were checked: after the error they remained and the next step
used or crashed on them.
---
 nidn/fdtd/grid.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index f7e1f23..bdb4fca 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -369,12 +369,25 @@ class Grid:
         else:
             raise KeyError("maximum number of indices for the grid is 3")
 
-        attr._register_grid(
-            grid=self,
-            x=self._handle_single_key(x),
-            y=self._handle_single_key(y),
-            z=self._handle_single_key(z),
-        )
+        # A component that cannot be placed must not stay in the grid
+        names = set(vars(self))
+        components = (self.sources, self.detectors, self.boundaries, self.objects)
+        counts = [len(component) for component in components]
+        inverse_permittivity = self.inverse_permittivity + 0.0
+        try:
+            attr._register_grid(
+                grid=self,
+                x=self._handle_single_key(x),
+                y=self._handle_single_key(y),
+                z=self._handle_single_key(z),
+            )
+        except Exception:
+            for component, count in zip(components, counts):
+                del component[count:]
+            for name in set(vars(self)) - names:
+                delattr(self, name)
+            self.inverse_permittivity = inverse_permittivity
+            raise
 
     def __repr__(self):
         return (
-- 
2.43.0


From dd0b213747aea16230d581bda1f2f4d1df3ecd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:55 +0000
Subject: [PATCH 23/25] fix: a soft arbitrary point source can have a name

---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index df9ea76..b061ac1 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -616,7 +616,7 @@ class SoftArbitraryPointSource:
         self.x, self.y, self.z = grid._handle_tuple((x, y, z))
 
         if self.name is not None:
-            detector_name += "_I"
+            detector_name = self.name + "_I"
         else:
             detector_name = None
 
-- 
2.43.0


From 6ccf4ba3f3710d021abdbaa087a39cc7c8065861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:28 +0000
Subject: [PATCH 24/25] fix: an unknown solver or model or a fractional number
 of iterations is refused before training begins

---
 nidn/utils/validate_config.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index de54dc8..19fe5cd 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -70,7 +70,7 @@ def _check_for_keys(cfg: DotMap):
 def _check_entry_types(cfg: DotMap):
     """Check that all entries in the config are of the correct type"""
     # fmt: off
-    integer_keys = ["Nx","Ny","N_layers","N_freq","encoding_dim","n_neurons","eps_oversampling","seed",
+    integer_keys = ["Nx","Ny","N_layers","N_freq","encoding_dim","n_neurons","eps_oversampling","seed","iterations","hidden_layers",
                     "TRCWA_NG","FDTD_niter","FDTD_gridpoints_from_material_to_detector","FDTD_min_gridpoints_per_unit_magnitude"]
     float_keys = ["L","real_min_eps","real_max_eps","imag_min_eps","imag_max_eps","siren_omega","noise_scale","reg_loss_weight",
                   "TRCWA_TOP_LAYER_EPS","TRCWA_BOTTOM_LAYER_EPS","FDTD_free_space_distance","FDTD_pml_thickness",]
@@ -144,6 +144,12 @@ def _check_value_ranges(cfg: DotMap):
     if not cfg.Ny % cfg.eps_oversampling == 0:
         raise RuntimeError(f"Ny must be a multiple of eps_oversampling")
 
+    if not cfg.model_type in ["nerf", "siren", "voxel"]:
+        raise RuntimeError(f"model_type must be either 'nerf', 'siren' or 'voxel'")
+
+    if not cfg.solver in ["TRCWA", "FDTD"]:
+        raise RuntimeError(f"solver must be either 'TRCWA' or 'FDTD'")
+
     if cfg.type != "classification" and cfg.type != "regression":
         raise RuntimeError(f"type must be either 'classification' or 'regression'")
 
-- 
2.43.0


From 35e06a4e87114a7de35645a75da2148e43413fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 25/25] fix: negative layer thicknesses and source positions
 are refused

---
 nidn/utils/validate_config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index 19fe5cd..9cf9b17 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -159,7 +159,6 @@ def _check_value_ranges(cfg: DotMap):
         raise RuntimeError(f"TRCWA_L_grid dim0 must be ordered from high to low")
 
     all_positive_list_keys = [
-        "TRCWA_L_grid",
         "PER_LAYER_THICKNESS",
         "FDTD_grid",
         "FDTD_source_position",
@@ -170,7 +169,7 @@ def _check_value_ranges(cfg: DotMap):
     ]
 
     for key in all_positive_list_keys:
-        if key in cfg.keys() and not (all(cfg[key]) > 0.0):
+        if key in cfg.keys() and not all(value > 0.0 for value in cfg[key]):
             raise RuntimeError(f"All elements in {key} must be a positive integer")
     for key in all_positive_or_zero_list_keys:
         if not (all(cfg[key]) >= 0.0):
-- 
2.43.0


From 01c2ab87bd4e6cd24724da4548bd4d011f151bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 01/56] fix: write_targets saves an empty target list instead
 of raising

---
 openptv_python/tracking_frame_buf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 8ea507c..1981bad 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -230,7 +230,7 @@ def write_targets(
         # Convert targets to a 2D numpy array
         target_arr = np.array(
             [(t.pnr, t.x, t.y, t.n, t.nx, t.ny, t.sumg, t.tnr) for t in targets]
-        )
+        ).reshape(-1, 8)
         # Save the target array to file using savetxt
         np.savetxt(
             file_name,
-- 
2.43.0


From d20163c47c03d1389e161f771efd94b926e87ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 02/56] fix: read_targets finds the files write_targets names
 for bases without a format

---
 openptv_python/tracking_frame_buf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 1981bad..c1d66b4 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -171,6 +171,11 @@ def read_targets(file_base: str, frame_num: int) -> List[Target]:
 
     if frame_num > 0:
         # filename = f"{file_base}{frame_num:04d}_targets"
+        # names without a frame number format: as in write_targets()
+        if "#" in file_base:
+            file_base = file_base.replace("#", "%05d")
+        if "%" not in file_base:
+            file_base = file_base + "%05d"
         fname = file_base % frame_num + "_targets"
     else:
         fname = f"{file_base}_targets"
-- 
2.43.0


From 610a28c49ee82da221d16216596180bea1d26c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 03/56] fix: write_path_frame works without a priority file

---
 openptv_python/tracking_frame_buf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index c1d66b4..7ced877 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -851,7 +851,7 @@ def write_path_frame(
         linkage_file = open(linkage_fname, "w", encoding="utf8")
         linkage_file.write(f"{num_parts}\n")
 
-        if prio_file_base is not None:
+        if prio_fname is not None:
             prio_file = open(prio_fname, "w", encoding="utf8")  # type: ignore
             prio_file.write(f"{num_parts}\n")
 
@@ -869,7 +869,7 @@ def write_path_frame(
                 f"{cor_buf[pix].p[2]} {cor_buf[pix].p[3]}\n"
             )
 
-            if prio_file_base is not None:
+            if prio_fname is not None:
                 prio_file.write(
                     f"{path_buf[pix].prev_frame} {path_buf[pix].next_frame} "
                     f"{path_buf[pix].x[0]:.3f} {path_buf[pix].x[1]:.3f} "
@@ -878,7 +878,7 @@ def write_path_frame(
 
         corres_file.close()
         linkage_file.close()
-        if prio_file_base is not None:
+        if prio_fname is not None:
             prio_file.close()
 
         success = True
-- 
2.43.0


From fd7494912dd009173e039f2e6f483904aa897ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 04/56] fix: a frame whose result files are missing is not read
 as an empty frame

---
 openptv_python/tracking_frame_buf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 7ced877..20c40ad 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -729,7 +729,7 @@ def read_path_frame(
         filein = open(fname, "r", encoding="utf-8")
     except IOError:
         print(f"Can't open ascii file: {fname}")
-        return np.recarray(0, dtype=Corres_dtype), []
+        raise
 
     # we do not need number of particles, reading till EOF
     n_particles = int(filein.readline())
@@ -748,7 +748,7 @@ def read_path_frame(
             linkagein = open(fname, "r", encoding="utf-8")
         except IOError:
             print(f"Can't open linkage file: {fname}")
-            return np.recarray(0, dtype=Corres_dtype), []
+            raise
 
         linkagein.readline()
     else:
@@ -760,7 +760,7 @@ def read_path_frame(
             prioin = open(fname, "r", encoding="utf-8")
         except IOError:
             print(f"Can't open prio file: {fname}")
-            return np.recarray(0, dtype=Corres_dtype), []
+            raise
 
         prioin.readline()
     else:
-- 
2.43.0


From b7118521ae3123af3613b5b59cf02ff83116fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 05/56] fix: truncated frame files are rejected instead of
 yielding uninitialised particles

---
 openptv_python/tracking_frame_buf.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openptv_python/tracking_frame_buf.py b/openptv_python/tracking_frame_buf.py
index 20c40ad..3770432 100644
--- a/openptv_python/tracking_frame_buf.py
+++ b/openptv_python/tracking_frame_buf.py
@@ -775,6 +775,8 @@ def read_path_frame(
         if linkagein is not None:
             linkage_line = linkagein.readline()
             linkage_vals = np.fromstring(linkage_line, dtype=float, sep=" ")
+            if len(linkage_vals) != 5:
+                raise ValueError(f"Bad format for linkage file of frame {frame_num}")
             path_buf[targets].prev_frame = linkage_vals[0].astype(int)
             path_buf[targets].next_frame = linkage_vals[1].astype(int)
             # path_buf[targets].x = linkage_vals[2:]
@@ -782,6 +784,8 @@ def read_path_frame(
         if prioin is not None:
             prio_line = prioin.readline()
             prio_vals = np.fromstring(prio_line, dtype=float, sep=" ")
+            if len(prio_vals) != 6:
+                raise ValueError(f"Bad format for prio file of frame {frame_num}")
             path_buf[targets].prio = prio_vals[-1].astype(int)
         else:
             path_buf[targets].prio = 4
@@ -792,6 +796,8 @@ def read_path_frame(
         path_buf[targets].linkdecis = [-999] * POSI
 
         vals = np.fromstring(line, dtype=float, sep=" ")
+        if len(vals) != 8:
+            raise ValueError(f"Bad format for correspondence file of frame {frame_num}")
         cor_buf[targets].nr = targets + 1
         cor_buf[targets].p = vals[-4:].astype(int)
         path_buf[targets].x = vals[1:-4]
@@ -800,6 +806,9 @@ def read_path_frame(
 
         targets += 1
 
+    if targets != n_particles:
+        raise ValueError(f"Correspondence file of frame {frame_num} is incomplete")
+
     filein.close()
     if linkagein is not None:
         linkagein.close()
-- 
2.43.0


From c04cee08fc6f40626a2d6582b1ae84055b59f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 06/56] fix: setting the rotation matrix of a calibration no
 longer raises IndexError

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index b948199..8ffa96c 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -222,7 +222,7 @@ class Calibration:
         """Set exterior rotation matrix."""
         if dm.shape != (3, 3):
             raise ValueError("Illegal argument for exterior rotation matrix")
-        self.ext_par[0]["dm"] = dm
+        self.ext_par["dm"] = dm
 
     def set_pos(self, pos: np.ndarray) -> None:
         """
-- 
2.43.0


From 47b0fdd88554ec4a6b87ad501cd7df8aa351ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 07/56] fix: Calibration.copy fills the given calibration
 instead of a discarded one

---
 openptv_python/calibration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 8ffa96c..313adfd 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -386,12 +386,12 @@ class Calibration:
 
     def copy(self, new_copy):
         """Copy the calibration data to a new object."""
-        new_copy = Calibration()
-        new_copy.ext_par = self.ext_par
-        new_copy.int_par = self.int_par
-        new_copy.glass_par = self.glass_par
-        new_copy.added_par = self.added_par
-        new_copy.mmlut = self.mmlut
+        new_copy.ext_par = copy.deepcopy(self.ext_par)
+        new_copy.int_par = copy.deepcopy(self.int_par)
+        new_copy.glass_par = copy.deepcopy(self.glass_par)
+        new_copy.added_par = copy.deepcopy(self.added_par)
+        new_copy.mmlut = copy.deepcopy(self.mmlut)
+        new_copy.mmlut_data = copy.deepcopy(self.mmlut_data)
 
 
 def write_ori(
-- 
2.43.0


From 5f373c1aeab7446a79de780d2ad5f465e3100439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 08/56] fix: writing a calibration without a distortion file is
 not reported as a failure

---
 openptv_python/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 313adfd..b105023 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -416,7 +416,7 @@ def write_ori(
         fp.write(f"\n{glass[0]:.15f} {glass[1]:.15f} {glass[2]:.15f}\n")
 
     if add_file is None:
-        return success
+        return True
 
     with open(add_file, "w", encoding="utf-8") as fp:
         fp.write(
-- 
2.43.0


From a58c6dbad13dffadacfcff72e798209920858c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 09/56] fix: read_ori returns the calibration it reads

---
 openptv_python/calibration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index b105023..ce517fa 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -442,10 +442,7 @@ def read_ori(ori_file: Path, add_file: Path) -> Calibration:
     -------
     - ext_par, int_par, glass, addp: Calibration object parts without multimedia lookup table.
     """
-    ret = Calibration()
-    ret.from_file(ori_file, add_file)
-
-    return ret
+    return Calibration.from_file(ori_file, add_file)
 
 
 def compare_exterior(e1: np.recarray, e2: np.recarray) -> bool:
-- 
2.43.0


From 09e2c5a6f420a0282f3a3c0f9bbc973f56977655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 10/56] fix: compare_calibration also compares the distortion
 parameters

---
 openptv_python/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index ce517fa..57b065f 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -488,6 +488,7 @@ def compare_calibration(c1: Calibration, c2: Calibration) -> bool:
         compare_exterior(c1.ext_par, c2.ext_par)
         and compare_interior(c1.int_par, c2.int_par)
         and compare_glass(c1.glass_par, c2.glass_par)
+        and compare_addpar(c1.added_par, c2.added_par)
     )
 
 
-- 
2.43.0


From 0b3c947ea1d45551204ec6dd4f93c07989a7ae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 11/56] fix: a missing tracking parameter file raises IOError,
 not TypeError

---
 openptv_python/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index a5ea3d2..fdb2f58 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -231,7 +231,7 @@ class TrackPar(Parameters):
                 dacc = float(fpp.readline().rstrip())
                 add = int(fpp.readline().rstrip())
         except IOError as exc:
-            raise (f"Error reading tracking parameters from {filename}") from exc  # type: ignore
+            raise IOError(f"Error reading tracking parameters from {filename}") from exc
 
         return cls(dvxmin, dvxmax, dvymin, dvymax, dvzmin, dvzmax, dangle, dacc, add)
 
-- 
2.43.0


From 4517b13b064c4569883e988808d5319716d5bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 12/56] fix: control parameters read from YAML hold a
 multimedia object, not a dictionary

---
 openptv_python/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index fdb2f58..26abe21 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -53,7 +53,7 @@ class Parameters:
         """Read from YAML file."""
         with open(file_path, "r", encoding="utf-8") as file:
             data_dict = yaml.safe_load(file)
-            return cls(**data_dict)
+            return cls.from_dict(data_dict)
 
 
 @dataclass
-- 
2.43.0


From 6a19c6e42424e762870d9167f3f690bb698c9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 13/56] fix: ControlPar.from_dict does not alter the dictionary
 it is given

---
 openptv_python/parameters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 26abe21..61b341c 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -458,8 +458,7 @@ class ControlPar(Parameters):
     def from_dict(cls, data):
         """Read ControlPar from a dictionary."""
         mm_data = data.get("mm", {})
-        data["mm"] = MultimediaPar.from_dict(mm_data)
-        return cls(**data)
+        return cls(**{**data, "mm": MultimediaPar.from_dict(mm_data)})
 
     def set_image_size(self, imsize: Tuple[int, int]):
         """Set image size in pixels."""
-- 
2.43.0


From fcf879c858fd332840359016a87a5ea809a90a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 14/56] fix: PftVersionPar.write saves the flag of the object
 in the form from_file reads

---
 openptv_python/parameters.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index 61b341c..d10cb20 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -865,8 +865,7 @@ class PftVersionPar(Parameters):
             pft_version = bool(int(file.readline().strip()))
         return cls(pft_version)
 
-    @classmethod
-    def write(cls, file_path: Path):
+    def write(self, file_path: Path):
         """Write to pft_version.par file."""
         with open(file_path, "w", encoding="utf-8") as file:
-            file.write(f"{cls.existing_target_flag}\n")
+            file.write(f"{int(self.existing_target_flag)}\n")
-- 
2.43.0


From bb1443b48151014b5d55e456d23de8ed68a9d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 15/56] fix: compare_mm_np compares all layers

---
 openptv_python/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/parameters.py b/openptv_python/parameters.py
index d10cb20..73a4775 100644
--- a/openptv_python/parameters.py
+++ b/openptv_python/parameters.py
@@ -113,12 +113,12 @@ class MultimediaPar(Parameters):
 
 def compare_mm_np(mm_np1: MultimediaPar, mm_np2: MultimediaPar) -> bool:
     """Compare two MultimediaPar objects."""
-    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, mm_np1.n2[0], mm_np1.d[0]) == (
+    return (mm_np1.nlay, mm_np1.n1, mm_np1.n3, mm_np1.n2, mm_np1.d) == (
         mm_np2.nlay,
         mm_np2.n1,
         mm_np2.n3,
-        mm_np2.n2[0],
-        mm_np2.d[0],
+        mm_np2.n2,
+        mm_np2.d,
     )
 
 
-- 
2.43.0


From 62fee7f043fb545fc2c8bb57e5334c8d0a158f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 16/56] fix: register_closest_neighbs recognises the unused
 mark of the image search

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 8b19443..f442283 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -137,7 +137,7 @@ def register_closest_neighbs(
 
     for cand_idx in range(MAX_CANDS):
         # Set default value for unused foundpix objects
-        if all_cands[cand_idx] == PT_UNUSED:
+        if all_cands[cand_idx] == TR_UNUSED:
             reg[cand_idx].ftnr = TR_UNUSED
         else:
             # Register candidate data in the foundpix object
-- 
2.43.0


From a5921a727b7268ad1e2e9415dc84f38445bc8032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 17/56] fix: add_particle fills only the new particle's entry
 and only with found targets

---
 openptv_python/track.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index f442283..a6d0589 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -15,7 +15,6 @@ from .constants import (
     NEXT_NONE,
     POS_INF,
     PREV_NONE,
-    PT_UNUSED,
     TR_BUFSPACE,
     TR_MAX_CAMS,
     TR_UNUSED,
@@ -731,16 +730,15 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
     - cand_inds (list[list[int]]): Indices of candidate targets for association with this particle.
     """
     num_parts = frm.num_parts
-    if num_parts > len(frm.path_info):
+    if num_parts < len(frm.path_info):
         ref_path_inf = frm.path_info[num_parts]
-        ref_corres = frm.correspond[num_parts]
     else:
         ref_path_inf = Pathinfo()
         frm.path_info.append(ref_path_inf)
         frm.correspond = np.resize(frm.correspond, frm.correspond.shape[0] + 1).view(
             np.recarray
         )
-        ref_corres = frm.correspond.view(np.recarray)
+    ref_corres = frm.correspond[num_parts]
 
     ref_path_inf.x = vec_copy(pos)
     ref_path_inf.reset_links()
@@ -751,7 +749,7 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
         ref_corres.p[cam] = CORRES_NONE
 
         # We always take the 1st candidate, apparently. Why did we fetch 4?
-        if cand_inds[cam][0] != PT_UNUSED:
+        if cand_inds[cam][0] != TR_UNUSED:
             _ix = cand_inds[cam][0]
             ref_targets[cam][_ix].tnr = num_parts
             ref_corres.p[cam] = _ix
-- 
2.43.0


From 607ff835d172649c62c1b31012e040c333878557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 18/56] fix: sort_candidates_by_freq swaps entries instead of
 duplicating one of them

---
 openptv_python/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index a6d0589..dde9623 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -507,7 +507,7 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     # prune the duplicates or those that are found only once
     for i in range(num_cams * MAX_CANDS):
@@ -520,7 +520,7 @@ def sort_candidates_by_freq(foundpix: np.ndarray, num_cams: int) -> int:
     for i in range(1, num_cams * MAX_CANDS):
         for j in range(num_cams * MAX_CANDS - 1, i - 1, -1):
             if foundpix[j - 1].freq < foundpix[j].freq:
-                foundpix[j - 1], foundpix[j] = foundpix[j], foundpix[j - 1]
+                foundpix[[j - 1, j]] = foundpix[[j, j - 1]]
 
     for i in range(num_cams * MAX_CANDS):
         if foundpix[i].freq != 0:
-- 
2.43.0


From 53e95eabaac9262facfd7237d68bace66c867f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 19/56] fix: candsearch_in_pix keeps candidates that are
 equally far from the centre

---
 openptv_python/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index dde9623..0d9d716 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -326,13 +326,13 @@ def candsearch_in_pix(
                     if d < d1:
                         p4, p3, p2, p1 = p3, p2, p1, j
                         d4, d3, d2, d1 = d3, d2, d1, d
-                    elif d1 < d < d2:
+                    elif d < d2:
                         p4, p3, p2 = p3, p2, j
                         d4, d3, d2 = d3, d2, d
-                    elif d2 < d < d3:
+                    elif d < d3:
                         p4, p3 = p3, j
                         d4, d3 = d3, d
-                    elif d3 < d < d4:
+                    elif d < d4:
                         p4 = j
                         d4 = d
 
-- 
2.43.0


From aa00d0e4a39feab04ad35f23d289960376e75316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 20/56] fix: angle_acc handles resting particles and exactly
 parallel velocities

---
 openptv_python/track.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 0d9d716..51f3f95 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -251,18 +251,19 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
 
     acc = np.linalg.norm(v0 - v1)
 
-    if np.all(v0 == -v1):
-        angle = 200
+    norms = np.linalg.norm(start - pred) * np.linalg.norm(start - cand)
+
+    if norms == 0.0:
+        # no direction to compare if there is no motion
+        angle = 0.0
+    elif np.all(v0 == -v1):
+        angle = 200.0
     elif np.all(v0 == v1):
-        angle = 0
+        angle = 0.0
     else:
-        dot_product = np.sum(v0 * v1)
-        norm_start_pred = np.linalg.norm(start - pred)
-        norm_start_cand = np.linalg.norm(start - cand)
-
-        angle = (200.0 / np.pi) * np.arccos(
-            dot_product / (norm_start_pred * norm_start_cand)
-        )
+        # rounding can bring the cosine of parallel vectors out of arccos' range
+        cosine = min(1.0, max(-1.0, np.sum(v0 * v1) / norms))
+        angle = (200.0 / np.pi) * np.arccos(cosine)
 
     return np.array([angle, acc])
 
-- 
2.43.0


From b5a5cd2f9c6b6d02e7ecb4a5e09272ab94f09c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 21/56] fix: image candidate search does not skip the first
 targets of long lists

---
 openptv_python/track.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 51f3f95..2a18c54 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -268,6 +268,22 @@ def angle_acc(start: np.ndarray, pred: np.ndarray, cand: np.ndarray) -> np.ndarr
     return np.array([angle, acc])
 
 
+def find_search_start(targets: List[Target], num_targets: int, ymin: float) -> int:
+    """Bisect the y-sorted targets for the first one that is not above ymin.
+
+    The search starts 12 targets earlier, for lists that are not sorted exactly.
+    """
+    low, high = 0, num_targets
+    while low < high:
+        mid = (low + high) // 2
+        if targets[mid].y < ymin:
+            low = mid + 1
+        else:
+            high = mid
+
+    return max(low - 12, 0)
+
+
 def candsearch_in_pix(
     next_frame: List[Target],
     num_targets: int,
@@ -298,18 +314,7 @@ def candsearch_in_pix(
         ymax = cpar.imy
 
     if cent_x >= 0 and cent_x <= cpar.imx and cent_y >= 0 and cent_y <= cpar.imy:
-        j0 = num_targets // 2
-        dj = num_targets // 4
-        while dj > 1:
-            if next_frame[j0].y < ymin:
-                j0 += dj
-            else:
-                j0 -= dj
-            dj //= 2
-
-        j0 -= 12
-        if j0 < 0:
-            j0 = 0
+        j0 = find_search_start(next_frame, num_targets, ymin)
 
         for j in range(j0, num_targets):
             if next_frame[j].tnr != -1:
@@ -391,12 +396,7 @@ def candsearch_in_pix_rest(
 
     if 0 <= cent_x <= cpar.imx and 0 <= cent_y <= cpar.imy:
         # binarized search for start point of candidate search
-        j0, dj = num_targets // 2, num_targets // 4
-        while dj > 1:
-            j0 += dj if next_frame[j0].y < ymin else -dj
-            dj //= 2
-
-        j0 -= 12 if j0 >= 12 else j0  # due to trunc
+        j0 = find_search_start(next_frame, num_targets, ymin)
         for j in range(j0, num_targets):
             if next_frame[j].tnr == TR_UNUSED:
                 if next_frame[j].y > ymax:
-- 
2.43.0


From eab946ea4f430e1e9300453c073665847777a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 22/56] fix: backward tracking does not overwrite the second
 frame with the first

---
 openptv_python/track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 2a18c54..245576a 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1323,8 +1323,9 @@ def trackback_c(run_info: TrackingRun):
         f"Average over sequence, particles: {npart:.1f}, links: {nlinks:.1f}, lost: {npart - nlinks:.1f}"
     )
 
+    # the last frame in the buffer is the first one of the sequence
     fb.fb_next()
-    fb.write_frame_from_start(step)
+    fb.write_frame_from_start(seq_par.first)
 
     return nlinks
 
-- 
2.43.0


From 4449829e68a11a135cd5a30b6833a4cce43de0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 23/56] fix: links taken over by another particle are not
 counted twice

---
 openptv_python/track.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 245576a..4ab327d 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -1074,7 +1074,9 @@ def trackcorr_c_loop(run_info, step):
                 else:
                     curr_path_inf.next_frame = NEXT_NONE
 
-        if curr_path_inf.next_frame != NEXT_NONE:
+    # a link can still be taken over by a later particle, so count at the end
+    for h in range(fb.buf[1].num_parts):
+        if fb.buf[1].path_info[h].next_frame != NEXT_NONE:
             count1 += 1
 
     # end of creation of links with decision check
-- 
2.43.0


From 1d30624cb7b82eb39d187ba033d050de51cc21d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 24/56] fix: a particle added to an empty frame claims no
 targets of cameras that do not exist

---
 openptv_python/track.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 4ab327d..96eee32 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -746,9 +746,8 @@ def add_particle(frm: Frame, pos: np.ndarray, cand_inds: np.ndarray) -> None:
 
     ref_targets = frm.targets
 
+    ref_corres.p[:] = CORRES_NONE
     for cam in range(frm.num_cams):
-        ref_corres.p[cam] = CORRES_NONE
-
         # We always take the 1st candidate, apparently. Why did we fetch 4?
         if cand_inds[cam][0] != TR_UNUSED:
             _ix = cand_inds[cam][0]
-- 
2.43.0


From 09be3e2a2b6f2ffcf99027e2af69fee864b76a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 25/56] fix: correspondences takes only groups found in the
 same stage, not blank or earlier ones

---
 openptv_python/correspondences.py | 38 +++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 0bcb08f..d27040c 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -653,31 +653,51 @@ def correspondences(
 
     # search consistent quadruplets in the corr_list
     if cpar.num_cams == 4:
-        four_camera_matching(
-            corr_list, frm.num_targets[0], vpar.corrmin, con0, 4 * nmax
+        matched = four_camera_matching(
+            corr_list, frm.num_targets[0], vpar.corrmin, con0, len(con0)
         )
 
-        match_counts[0] = take_best_candidates(con0, con, cpar.num_cams, tim)
+        match_counts[0] = take_best_candidates(
+            con0[:matched].view(np.recarray), con, cpar.num_cams, tim
+        )
         match_counts[3] += match_counts[0]
 
     # search consistent triplets: 123, 124, 134, 234
     if (cpar.num_cams == 4 and cpar.all_cam_flag == 0) or cpar.num_cams == 3:
-        three_camera_matching(
-            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
+        matched = three_camera_matching(
+            corr_list,
+            cpar.num_cams,
+            frm.num_targets,
+            vpar.corrmin,
+            con0,
+            len(con0),
+            tim,
         )
 
         match_counts[1] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched].view(np.recarray),
+            con[match_counts[3] :].view(np.recarray),
+            cpar.num_cams,
+            tim,
         )
         match_counts[3] += match_counts[1]
 
     # Search consistent pairs: 12, 13, 14, 23, 24, 34
     if cpar.num_cams > 1 and cpar.all_cam_flag == 0:
-        consistent_pair_matching(
-            corr_list, cpar.num_cams, frm.num_targets, vpar.corrmin, con0, 4 * nmax, tim
+        matched = consistent_pair_matching(
+            corr_list,
+            cpar.num_cams,
+            frm.num_targets,
+            vpar.corrmin,
+            con0,
+            len(con0),
+            tim,
         )
         match_counts[2] = take_best_candidates(
-            con0, con[match_counts[3] :].view(np.recarray), cpar.num_cams, tim
+            con0[:matched].view(np.recarray),
+            con[match_counts[3] :].view(np.recarray),
+            cpar.num_cams,
+            tim,
         )
         match_counts[3] += match_counts[2]
 
-- 
2.43.0


From f223d292f8f4476ace756ca442c452f1e6be40d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 26/56] fix: three_camera_matching ignores the unused tail of
 candidate lists

---
 openptv_python/correspondences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index d27040c..24a85c2 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -205,6 +205,7 @@ def three_camera_matching(
                             # modify it to numpy array or use
                             # indices
                             p2array = np.atleast_1d(corr_list[i2][i3][p2].p2)
+                            p2array = p2array[: corr_list[i2][i3][p2].n]
                             indices = np.where(p2array == p3)[0]
                             if indices.size == 0:
                                 continue
-- 
2.43.0


From 5dcb2a022554b79ddfbec6f92ec0af4dbfce38f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 27/56] fix: three_camera_matching works with three cameras

---
 openptv_python/correspondences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index 24a85c2..dd5d2ee 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -229,7 +229,7 @@ def three_camera_matching(
                             if corr <= accept_corr:
                                 continue
 
-                            p = np.full(num_cams, -2)
+                            p = np.full(4, -2)
                             p[i1], p[i2], p[i3] = p1, p2, p3
                             scratch[matched].p = p
                             scratch[matched].corr = corr
-- 
2.43.0


From 9764944b7641eaa60ea1a527754391fcb928d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 28/56] fix: py_correspondences works with two and three
 cameras

---
 openptv_python/correspondences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/correspondences.py b/openptv_python/correspondences.py
index dd5d2ee..2082f06 100644
--- a/openptv_python/correspondences.py
+++ b/openptv_python/correspondences.py
@@ -528,7 +528,7 @@ def py_correspondences(
     # int *match_counts = <int *> malloc(num_cams * sizeof(int))
     # n_tupel *corresp_buf
 
-    match_counts = [0] * num_cams
+    match_counts = [0] * 4  # quadruplets, triplets, pairs, total
     # corresp_buf = []  # of n_tupel
 
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -581,7 +581,7 @@ def py_correspondences(
         # sorted_corresp[clique_type] = clique_ids # type: ignore
 
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
 
     return sorted_pos, sorted_corresp, num_targs
 
@@ -614,7 +614,7 @@ def correspondences(
             parameters.
 
         Output Arguments:
-        int match_counts[] - output buffer, as long as the number of cameras.
+        int match_counts[] - output buffer of 4 elements.
             stores the number of matches for each clique size, in descending
             clique size order. The last element stores the total.
 
-- 
2.43.0


From 6f37fa3b61892ec3bcc0f012f5c0345e7f2f6eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 29/56] fix: epipolar candidate search does not skip the first
 targets of long lists

---
 openptv_python/find_candidate.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/openptv_python/find_candidate.py b/openptv_python/find_candidate.py
index ce02928..522aa6a 100644
--- a/openptv_python/find_candidate.py
+++ b/openptv_python/find_candidate.py
@@ -187,20 +187,16 @@ def find_start_point(crd: np.recarray, num: int, xa: float, vpar: VolumePar) ->
 @njit(int32(float64[:], int32, float64, float64))
 def find_start_point_binary(x: np.ndarray, num: int, xa: float, eps0: float) -> int:
     # num = len(x)
-    j0 = num // 2
-    dj = num // 4
-
-    while dj > 1:
-        if x[j0] < (xa - eps0):
-            j0 += dj
+    low, high = 0, num
+    while low < high:
+        mid = (low + high) // 2
+        if x[mid] < (xa - eps0):
+            low = mid + 1
         else:
-            j0 -= dj
-        dj //= 2
-
-    # print(f"j0 before: {j0}")
+            high = mid
 
     # Due to truncation error we might shift to smaller x.
-    start_point = j0 - 12  # why in C it's -12 ? -12 is a magic number
+    start_point = low - 12  # why in C it's -12 ? -12 is a magic number
     if start_point < 0:
         start_point = 0
 
-- 
2.43.0


From 37398ac4597d9674b3aa366bc739b67a0bba8a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 30/56] fix: the refraction lookup table declines points
 outside its raster

---
 openptv_python/multimed.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index d2a32c2..8309bf3 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -353,7 +353,7 @@ def fast_get_mmf_from_mmlut(
     """Get the refractive index of the medium at a given position."""
     temp = pos - origin
     sz = temp[2] / rw
-    iz = int(sz)
+    iz = int(np.floor(sz))
     sz -= iz
 
     R = float(np.linalg.norm(np.array([temp[0], temp[1], 0])))
@@ -361,9 +361,10 @@ def fast_get_mmf_from_mmlut(
     ir = int(sr)
     sr -= ir
 
-    if ir > nr:
+    # the box needs a raster line on either side
+    if ir > nr - 2:
         return 0.0
-    if iz < 0 or iz > nz:
+    if iz < 0 or iz > nz - 2:
         return 0.0
 
     # bilinear interpolation in r/z box
@@ -378,7 +379,7 @@ def fast_get_mmf_from_mmlut(
     # 2. check wther point is inside camera's object volume
     # important for epipolar line computation
     for i in range(4):
-        if v4[i] < 0 or v4[i] > nr * nz:
+        if v4[i] < 0 or v4[i] >= nr * nz:
             return 0.0
 
     # interpolate
-- 
2.43.0


From 1793001be8f172c777d76338ed8f59689d6c1ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 31/56] fix: init_mmlut fills the lookup table of the current
 configuration

---
 openptv_python/multimed.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index 8309bf3..c5ddfd1 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -261,7 +261,7 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     z_max_t = z_max
 
     # intersect with image vertices rays
-    cal_t = Calibration(mmlut=cal.mmlut.copy())
+    cal_t = Calibration()
 
     for i in range(2):
         for j in range(2):
@@ -317,18 +317,17 @@ def init_mmlut(vpar: VolumePar, cpar: ControlPar, cal: Calibration) -> Calibrati
     cal.mmlut.nz = nz
     cal.mmlut.rw = rw
 
-    if cal.mmlut_data.shape == (0, 0):
-        cal.mmlut_data = np.empty((nr, nz), dtype=np.float64)
-        Ri = np.arange(nr) * rw
-        Zi = np.arange(nz) * rw + z_min_t
+    # always filled anew: camera, medium or volume may have changed
+    mmlut_data = np.empty((nr, nz), dtype=np.float64)
+    Ri = np.arange(nr) * rw
+    Zi = np.arange(nz) * rw + z_min_t
 
-        for i in range(nr):
-            for j in range(nz):
-                xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
-                cal.mmlut_data.flat[i * nz + j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
+    for i in range(nr):
+        for j in range(nz):
+            xyz = np.r_[Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]]
+            mmlut_data[i, j] = multimed_r_nlay(cal_t, cpar.mm, xyz)
 
-        # print(f"filled mmlut data with {data}")
-        # cal.mmlut_data = data
+    cal.mmlut_data = mmlut_data
 
     return cal
 
-- 
2.43.0


From b027fe11bfcd955d2fb12a9aec68a7dee1b4dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 32/56] fix: volumedimension follows the rays down to the
 lowest depth

---
 openptv_python/multimed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index c5ddfd1..f67f20e 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -427,9 +427,8 @@ def volumedimension(
 
                 pos, a = ray_tracing(x, y, cal[i_cam], cpar.mm)
 
-                # TODO: seems that it should be + pos[2] instead of - pos[2]
-                X = pos[0] + (z_min + pos[2]) * a[0] / a[2]
-                Y = pos[1] + (z_min + pos[2]) * a[1] / a[2]
+                X = pos[0] + (z_min - pos[2]) * a[0] / a[2]
+                Y = pos[1] + (z_min - pos[2]) * a[1] / a[2]
 
                 if X > xmax:
                     xmax = X
-- 
2.43.0


From d8a0103f9eee5f1823b4e1a60a77ccbfc0b7f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 33/56] fix: move_along_ray does not alter the direction it is
 given

---
 openptv_python/multimed.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openptv_python/multimed.py b/openptv_python/multimed.py
index f67f20e..450e862 100644
--- a/openptv_python/multimed.py
+++ b/openptv_python/multimed.py
@@ -231,11 +231,12 @@ def move_along_ray(glob_z: float, vertex: np.ndarray, direct: np.ndarray) -> np.
 
     """
     out = np.zeros(3, dtype=np.float64)
-    if direct[2] == 0:
-        direct[2] = 1  # avoid division by zero
+    dz = direct[2]
+    if dz == 0:
+        dz = 1  # avoid division by zero
 
-    out[0] = vertex[0] + (glob_z - vertex[2]) * direct[0] / direct[2]
-    out[1] = vertex[1] + (glob_z - vertex[2]) * direct[1] / direct[2]
+    out[0] = vertex[0] + (glob_z - vertex[2]) * direct[0] / dz
+    out[1] = vertex[1] + (glob_z - vertex[2]) * direct[1] / dz
     out[2] = glob_z
 
     return out
-- 
2.43.0


From ae2287bb838949de03697caf04a2f11df858d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 34/56] fix: correct_brown_affine inverts the shear also with
 lens distortion

---
 openptv_python/trafo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/trafo.py b/openptv_python/trafo.py
index 5358ec5..081d83c 100644
--- a/openptv_python/trafo.py
+++ b/openptv_python/trafo.py
@@ -190,7 +190,7 @@ def correct_brown_affine(
         yq_common = yq * common_term
 
         xq = (
-            (x + yq * sin_she) / ap[5]
+            (x + y / cos_she * sin_she) / ap[5]
             - xq_common
             - ap[3] * (r**2 + 2 * xq**2)
             - two_p2 * xq * yq
@@ -210,7 +210,7 @@ def correct_brown_affine(
 
     r = rq
     x1 = (
-        (x + yq * sin_she) / ap[5]
+        (x + y / cos_she * sin_she) / ap[5]
         - xq * common_term
         - ap[3] * (r**2 + 2 * xq**2)
         - two_p2 * xq * yq
-- 
2.43.0


From f743eb5591a347990fe7200c4e5f7635693c5db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 35/56] fix: distort_brown_affine distorts y with the
 undistorted x, as its inverse does

---
 openptv_python/trafo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/trafo.py b/openptv_python/trafo.py
index 081d83c..223123d 100644
--- a/openptv_python/trafo.py
+++ b/openptv_python/trafo.py
@@ -149,19 +149,19 @@ def distort_brown_affine(
 
     r = np.sqrt(x**2 + y**2)
 
-    x += (
+    xd = x + (
         x * (ap[0] * r**2 + ap[1] * r**4 + ap[2] * r**6)
         + ap[3] * (r**2 + 2 * x**2)
         + 2 * ap[4] * x * y
     )
-    y += (
+    yd = y + (
         y * (ap[0] * r**2 + ap[1] * r**4 + ap[2] * r**6)
         + ap[4] * (r**2 + 2 * y**2)
         + 2 * ap[3] * x * y
     )
 
-    x1 = ap[5] * x - np.sin(ap[6]) * y
-    y1 = np.cos(ap[6]) * y
+    x1 = ap[5] * xd - np.sin(ap[6]) * yd
+    y1 = np.cos(ap[6]) * yd
 
     return x1, y1
 
-- 
2.43.0


From a86f58b8176fe5763f1baba9f86dc1c340938c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 36/56] fix: arr_pixel_to_metric accepts fractional pixel
 positions

---
 openptv_python/trafo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openptv_python/trafo.py b/openptv_python/trafo.py
index 223123d..c28fed1 100644
--- a/openptv_python/trafo.py
+++ b/openptv_python/trafo.py
@@ -41,7 +41,12 @@ def fast_pixel_to_metric(
     return (x_metric, y_metric)
 
 
-@njit(float64[:, :](int32[:, :], int32, int32, float64, float64))
+@njit(
+    [
+        float64[:, :](int32[:, :], int32, int32, float64, float64),
+        float64[:, :](float64[:, :], int32, int32, float64, float64),
+    ]
+)
 def arr_pixel_to_metric(
     pixel: np.ndarray, imx: int, imy: int, pix_x: float, pix_y: float
 ) -> np.ndarray:
-- 
2.43.0


From e14327dae504e5f74003f5cd6a62a9680f8ca1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 37/56] fix: multi_cam_point_positions returns the position of
 every point, not of the last one

---
 openptv_python/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 3b7b1a8..529fe4e 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -1060,6 +1060,6 @@ def multi_cam_point_positions(
     rcm = np.empty(num_targets)
 
     for pt in range(num_targets):
-        rcm[pt], res = point_position(targets[pt], num_cams, mm_par, cals)
+        rcm[pt], res[pt] = point_position(targets[pt], num_cams, mm_par, cals)
 
     return res, rcm
-- 
2.43.0


From fb75737548c8c1851e50e67608ec86b689285a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 38/56] fix: point_position returns NaN instead of raising for
 a point that less than two cameras see

---
 openptv_python/orientation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 529fe4e..84395db 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -105,6 +105,9 @@ def point_position(
             dtot += tmp
             point_tot += point
 
+    if num_used_pairs == 0:  # seen by less than two cameras
+        return np.nan, np.full(3, np.nan)
+
     res = point_tot / num_used_pairs
     dtot /= num_used_pairs
 
-- 
2.43.0


From d24034b908a0a3e0d844bd06aceafa632e261216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 39/56] fix: sortgrid does not renumber the detections it is
 given

---
 openptv_python/sortgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index 63d2b34..fef8b82 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -1,3 +1,4 @@
+import copy
 from pathlib import Path
 from typing import List
 
@@ -62,7 +63,7 @@ def sortgrid(
             j = nearest_neighbour_pix(pix, calib_point[0], calib_point[1], eps)
 
             if j != -999:
-                sorted_pix[i] = pix[j]
+                sorted_pix[i] = copy.copy(pix[j])
                 sorted_pix[i].pnr = i
 
     return sorted_pix
-- 
2.43.0


From 3e6fe81da82e83fd3146fec0cf47c7a9cfefb3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 40/56] fix: full calibration compares measured and projected
 points in the same distorted coordinates

---
 openptv_python/orientation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 84395db..84b105e 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -18,7 +18,7 @@ from .parameters import ControlPar, MultimediaPar, OrientPar, VolumePar
 from .ray_tracing import ray_tracing
 from .sortgrid import sortgrid
 from .tracking_frame_buf import Target
-from .trafo import correct_brown_affine, pixel_to_metric
+from .trafo import pixel_to_metric
 from .vec_utils import unit_vector, vec_norm, vec_set
 
 
@@ -341,9 +341,9 @@ def orient(
             elif flags.useflag == 3 and i % 3 == 0:
                 continue
 
-            # get metric flat-image coordinates of the detected point
+            # get metric (distorted) image coordinates of the detected point,
+            # as img_coord gives them for the known point
             xc, yc = pixel_to_metric(pix[i].x, pix[i].y, cpar)
-            xc, yc = correct_brown_affine(xc, yc, cal.added_par)
 
             # Projected 2D position on sensor of corresponding known point
             cal.update_rotation_matrix()
-- 
2.43.0


From 50b27bbffd295373e16fadf02e26995c6a929447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 41/56] fix: calibration of the glass keeps the glass found so
 far instead of resetting it each iteration

---
 openptv_python/orientation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 84b105e..83092da 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -319,17 +319,18 @@ def orient(
         cal.added_par[6],
     ]
 
-    # backup for changing back and forth
-    safety_x = cal.glass_par[0]
-    safety_y = cal.glass_par[1]
-    safety_z = cal.glass_par[2]
-
     itnum = 0
     stopflag = False
     n = 0
     while not (stopflag or itnum >= NUM_ITER):
         itnum += 1
         n = 0
+
+        # backup for changing back and forth
+        safety_x = cal.glass_par[0]
+        safety_y = cal.glass_par[1]
+        safety_z = cal.glass_par[2]
+
         for i in range(nfix):
             if pix[i].pnr != i:  # we need to check this point here
                 continue
-- 
2.43.0


From be602ee2e805f8cb4c3b13c9e1f3bf0663a36917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 42/56] fix: orient leaves the camera as it was when the
 iteration fails

---
 openptv_python/orientation.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 83092da..36bfcce 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -319,6 +319,10 @@ def orient(
         cal.added_par[6],
     ]
 
+    # the camera as given, to be restored if the iteration fails
+    given = Calibration()
+    cal.copy(given)
+
     itnum = 0
     stopflag = False
     n = 0
@@ -492,6 +496,10 @@ def orient(
             yh[i] = p * y[i]
             sumP += P[i]
 
+        if not (np.isfinite(Xh).all() and np.isfinite(yh).all()):  # diverged
+            stopflag = False
+            break
+
         # Gauss Markoff Model - least square adjustment of redundant information
         # contained both in the spatial intersection and the resection
         # see [1], eq. 23
@@ -566,6 +574,10 @@ def orient(
             cal.glass_par[1] += e2[1] * nGl * beta[17]
             cal.glass_par[2] += e2[2] * nGl * beta[17]
 
+    if not stopflag:
+        given.copy(cal)
+        return None
+
     # def compute_residuals(X, y, beta, n_obs, numbers, NPAR, XPX, P, cal, cal_in, stopflag):
     # Xbeta = np.zeros((n_obs, 1))
     # resi = np.zeros((n_obs, 1))
@@ -609,11 +621,8 @@ def orient(
 
     sigmabeta[:numbers] = sigmabeta[NPAR] * np.sqrt(np.diag(XPX))
 
-    if stopflag:
-        cal.update_rotation_matrix()
-        return resi
-    else:
-        return None
+    cal.update_rotation_matrix()
+    return resi
 
 
 def raw_orient(
-- 
2.43.0


From a5f2957c44517268622c2b0ba29fb9c075f9ae3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 43/56] fix: full_calibration reports the residuals and indices
 of the points used, not shifted ones

---
 openptv_python/orientation.py | 40 +++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 36bfcce..006f98b 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -196,6 +196,21 @@ def num_deriv_exterior(
     return (x_ders, y_ders)
 
 
+def is_used_in_orient(pix: Target, i: int, flags: OrientPar) -> bool:
+    """Tell whether orient() uses the i-th known point and its detection."""
+    if pix.pnr != i:  # we need to check this point here
+        return False
+
+    if flags.useflag == 1 and i % 2 == 0:
+        return False
+    elif flags.useflag == 2 and i % 2 != 0:
+        return False
+    elif flags.useflag == 3 and i % 3 == 0:
+        return False
+
+    return True
+
+
 def orient(
     cal: Calibration,
     cpar: ControlPar,
@@ -336,14 +351,7 @@ def orient(
         safety_z = cal.glass_par[2]
 
         for i in range(nfix):
-            if pix[i].pnr != i:  # we need to check this point here
-                continue
-
-            if flags.useflag == 1 and i % 2 == 0:
-                continue
-            elif flags.useflag == 2 and i % 2 != 0:
-                continue
-            elif flags.useflag == 3 and i % 3 == 0:
+            if not is_used_in_orient(pix[i], i, flags):
                 continue
 
             # get metric (distorted) image coordinates of the detected point,
@@ -899,12 +907,16 @@ def full_calibration(
         print(f"Residuals = {residuals}")
         raise ValueError("Orientation iteration failed, need better setup.")
 
-    ret = np.empty((len(img_pts), 2))
-    used = np.empty(len(img_pts), dtype=np.int_)
-
-    for ix, img_pt in enumerate(targs):
-        ret[ix] = (residuals[2 * ix], residuals[2 * ix + 1])
-        used[ix] = img_pt.pnr
+    # the residuals are those of the points used, in their order
+    used = np.array(
+        [
+            ix
+            for ix in range(len(ref_pts))
+            if is_used_in_orient(targs[ix], ix, orient_par)
+        ],
+        dtype=np.int_,
+    )
+    ret = np.array(residuals[: 2 * len(used)]).reshape(-1, 2)
 
     # free(residuals)
     return ret, used, err_est
-- 
2.43.0


From ac2de397ba49e01edbbc9f988f119f11df4bc083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 44/56] fix: calibration converges when the camera constant or
 principal point is free

---
 openptv_python/orientation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 006f98b..1df75cb 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -322,9 +322,9 @@ def orient(
 
     # init identities
     ident = [
-        cal.int_par.cc,
-        cal.int_par.xh,
-        cal.int_par.yh,
+        float(cal.int_par.cc),  # the values, not views of the changing ones
+        float(cal.int_par.xh),
+        float(cal.int_par.yh),
         cal.added_par[0],
         cal.added_par[1],
         cal.added_par[2],
-- 
2.43.0


From 8bc87c46d26dbeb4d464b494a8d0aba6749c2b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 45/56] fix: filter_3, lowpass_3, fast_box_blur and
 subtract_img are usable again (they call scipy, so they cannot be compiled)

---
 openptv_python/image_processing.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/openptv_python/image_processing.py b/openptv_python/image_processing.py
index bd47fdb..2bedf8d 100644
--- a/openptv_python/image_processing.py
+++ b/openptv_python/image_processing.py
@@ -12,7 +12,6 @@ from .parameters import ControlPar
 filter_t = np.zeros((3, 3), dtype=float)
 
 
-@njit
 def filter_3(img, kernel=None) -> np.ndarray:
     """Apply a 3x3 filter to an image."""
     if kernel is None:  # default is a low pass
@@ -21,7 +20,6 @@ def filter_3(img, kernel=None) -> np.ndarray:
     return filtered_img
 
 
-@njit
 def lowpass_3(img: np.ndarray) -> np.ndarray:
     """Lowpass filter of 3x3."""
     # Define the 3x3 lowpass filter kernel
@@ -33,7 +31,6 @@ def lowpass_3(img: np.ndarray) -> np.ndarray:
     return img_lp
 
 
-@njit
 def fast_box_blur(filt_span: int, src: np.ndarray, cpar: ControlPar) -> np.ndarray:
     """Fast box blur."""
     n = 2 * filt_span + 1
@@ -62,7 +59,6 @@ def fast_box_blur(filt_span: int, src: np.ndarray, cpar: ControlPar) -> np.ndarr
 #     return new_img
 
 
-@njit
 def subtract_img(img1: np.ndarray, img2: np.ndarray, img_new: np.ndarray) -> None:
     """
     Subtract img2 from img1 and store the result in img_new.
-- 
2.43.0


From 9e871523cc4ef691cbb01317631b99a34fe26337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 46/56] fix: subtract_img clips at zero instead of wrapping
 around or raising

---
 openptv_python/image_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openptv_python/image_processing.py b/openptv_python/image_processing.py
index 2bedf8d..2dafbf8 100644
--- a/openptv_python/image_processing.py
+++ b/openptv_python/image_processing.py
@@ -68,7 +68,8 @@ def subtract_img(img1: np.ndarray, img2: np.ndarray, img_new: np.ndarray) -> Non
     img1, img2: numpy arrays containing the original images.
     img_new: numpy array to store the result.
     """
-    img_new[:] = ndimage.maximum(img1 - img2, 0)
+    # signed arithmetic, as the difference of unsigned images wraps around
+    img_new[:] = np.maximum(img1.astype(np.int64) - img2, 0)
 
 
 @njit
-- 
2.43.0


From eb0d28a195cb66ec8ea56f908617c9c110c9446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 47/56] fix: image filters clip at the limits of the grey range
 instead of wrapping around

---
 openptv_python/image_processing.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/openptv_python/image_processing.py b/openptv_python/image_processing.py
index 2dafbf8..ebd7ce2 100644
--- a/openptv_python/image_processing.py
+++ b/openptv_python/image_processing.py
@@ -12,11 +12,20 @@ from .parameters import ControlPar
 filter_t = np.zeros((3, 3), dtype=float)
 
 
+def convolve_clipped(img: np.ndarray, kernel: np.ndarray, **kwargs) -> np.ndarray:
+    """Convolve an image, clipping results outside the range of its grey type."""
+    result = ndimage.convolve(img, kernel, output=np.float64, **kwargs)
+    if np.issubdtype(img.dtype, np.integer):
+        info = np.iinfo(img.dtype)
+        result = np.clip(np.trunc(np.round(result, 6)), info.min, info.max)
+    return result.astype(img.dtype)
+
+
 def filter_3(img, kernel=None) -> np.ndarray:
     """Apply a 3x3 filter to an image."""
     if kernel is None:  # default is a low pass
         kernel = np.ones((3, 3)) / 9
-    filtered_img = ndimage.convolve(img, kernel)
+    filtered_img = convolve_clipped(img, kernel)
     return filtered_img
 
 
@@ -26,7 +35,7 @@ def lowpass_3(img: np.ndarray) -> np.ndarray:
     kernel = np.ones((3, 3)) / 9
 
     # Apply the filter to the image using scipy.ndimage.convolve()
-    img_lp = ndimage.convolve(img, kernel, mode="constant", cval=0.0)
+    img_lp = convolve_clipped(img, kernel, mode="constant", cval=0.0)
 
     return img_lp
 
@@ -129,10 +138,10 @@ def prepare_image(
         except Exception as exc:
             raise IOError(f"Could not open filter file: {filter_file}") from exc
 
-        img_hp = ndimage.convolve(
+        img_hp = convolve_clipped(
             # img_hp.reshape((cpar.imy, cpar.imx)),
             img_hp,
-            weights=filt,
+            filt,
             mode="constant",
             cval=0.0,
         )
-- 
2.43.0


From f084a1a5317f02a8b486d39a793a383e7abd0dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 48/56] fix: arrays returned by calibration getters no longer
 change the camera when modified

---
 openptv_python/calibration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openptv_python/calibration.py b/openptv_python/calibration.py
index 57b065f..5baed50 100644
--- a/openptv_python/calibration.py
+++ b/openptv_python/calibration.py
@@ -318,7 +318,7 @@ class Calibration:
         array, from lowest power to highest.
         """
         # return np.r_[self.added_par.k1, self.added_par.k2, self.added_par.k3]
-        return self.added_par[:3]
+        return self.added_par[:3].copy()
 
     def set_decentering(self, decent: np.ndarray) -> None:
         """
@@ -337,7 +337,7 @@ class Calibration:
     def get_decentering(self):
         """Return the decentering parameters [1] as a 2 element array, (p_1, p_2)."""
         # return np.r_[self.added_par.p1, self.added_par.p2]
-        return self.added_par[3:5]
+        return self.added_par[3:5].copy()
 
     def set_affine_distortion(self, affine: np.ndarray) -> None:
         """
@@ -356,7 +356,7 @@ class Calibration:
     def get_affine(self):
         """Return the affine transform parameters [1] as a 2 element array, (scx, she)."""
         # return np.r_[self.added_par.scx, self.added_par.she]
-        return self.added_par[5:]
+        return self.added_par[5:].copy()
 
     def set_glass_vec(self, gvec: np.ndarray):
         """
@@ -377,7 +377,7 @@ class Calibration:
 
     def get_glass_vec(self) -> np.ndarray:
         """Return the glass vector, a 3-element array of float."""
-        return self.glass_par
+        return self.glass_par.copy()
 
     def set_added_par(self, ap52_array: np.ndarray):
         """Set added par from an numpy array of parameters."""
-- 
2.43.0


From cb794b77b119fe8e4b8323cc3e7bbed3647c4e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 49/56] fix: orient treats an overflowing normal matrix as a
 failed calibration

---
 openptv_python/orientation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 1df75cb..eb366d0 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -582,7 +582,8 @@ def orient(
             cal.glass_par[1] += e2[1] * nGl * beta[17]
             cal.glass_par[2] += e2[2] * nGl * beta[17]
 
-    if not stopflag:
+    XTX = np.dot(X[:, :numbers].T, X[:, :numbers])
+    if not (stopflag and np.isfinite(XTX).all()):
         given.copy(cal)
         return None
 
@@ -607,7 +608,6 @@ def orient(
     # if np.any(np.isnan(X)):
     #     pdb.set_trace()
 
-    XTX = np.dot(X[:, :numbers].T, X[:, :numbers])
     if is_singular(XTX):
         XPX = np.linalg.pinv(XTX)
     else:
-- 
2.43.0


From d47a9970928becace8adca9d8483a0c3ee751a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:56 +0000
Subject: [PATCH 50/56] fix: subtract_mask keeps the grey type of the image

---
 openptv_python/image_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/image_processing.py b/openptv_python/image_processing.py
index ebd7ce2..6cab507 100644
--- a/openptv_python/image_processing.py
+++ b/openptv_python/image_processing.py
@@ -84,7 +84,7 @@ def subtract_img(img1: np.ndarray, img2: np.ndarray, img_new: np.ndarray) -> Non
 @njit
 def subtract_mask(img: np.ndarray, img_mask: np.ndarray):
     """Subtract mask from image."""
-    img_new = np.where(img_mask == 0, 0, img)
+    img_new = np.where(img_mask == 0, 0, img).astype(img.dtype)
     return img_new
 
 
-- 
2.43.0


From a033e196d9e36324f77c829fe1040e1a5359d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:00 +0000
Subject: [PATCH 51/56] fix: blank lines in the calibration block file do not
 stop its reading

---
 openptv_python/sortgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openptv_python/sortgrid.py b/openptv_python/sortgrid.py
index fef8b82..aa42052 100644
--- a/openptv_python/sortgrid.py
+++ b/openptv_python/sortgrid.py
@@ -140,6 +140,8 @@ def read_calblock(filename: Path) -> np.recarray:  # List[Coord3d]:
             lines = f.readlines()
             for line in lines:
                 values = line.strip().split()
+                if not values:
+                    continue
                 pnr = int(values[0])
                 x = float(values[1])
                 y = float(values[2])
-- 
2.43.0


From 74b10ece9929b5b82a9aacc93afddf9f4e503b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:00 +0000
Subject: [PATCH 52/56] fix: read the manual orientation points by their id
 from the calibration block

---
 openptv_python/orientation.py | 45 ++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index eb366d0..0e5707e 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -721,43 +721,40 @@ def raw_orient(
 def read_man_ori_fix(calblock_filename, man_ori_filename, cam):
     """Read the manual orientation file."""
     fix4 = np.zeros((4, 3))
-    fix = None
-    num_fix = 0
-    num_match = 0
 
+    # four point ids for every camera, one after the other
     with open(man_ori_filename, "r", encoding="utf-8") as fpp:
-        for i in range(cam):
-            fpp.readline()
-        nr = [int(x) for x in fpp.readline().split()]
+        nr = [int(x) for x in fpp.read().split()][4 * cam : 4 * cam + 4]
 
     # read the id and positions of the fixed points, assign the pre-defined to fix4
-    fix, num_fix = read_calblock(calblock_filename)
-    if num_fix < 4:
+    ids, fix = _read_calblock_points(calblock_filename)
+    if len(fix) < 4:
         print(f"Too few points or incompatible file: {calblock_filename}")
         return None
 
-    for pnr in range(num_fix):
-        for i in range(4):
-            if pnr == nr[i] - 1:
-                fix4[i] = fix[pnr]
-                num_match += 1
-                break
-        if num_match >= num_fix:
-            break
+    num_match = 0
+    for i, pnr in enumerate(nr):
+        if pnr in ids:
+            fix4[i] = fix[ids.index(pnr)]
+            num_match += 1
 
     return fix4 if num_match == 4 else None
 
 
+def _read_calblock_points(filename):
+    """Read the ids and the positions from lines of 'id x y z'."""
+    with open(filename, "r", encoding="utf-8") as f:
+        rows = [line.split() for line in f if line.strip()]
+
+    ids = [int(row[0]) for row in rows]
+    fix = np.array([[float(v) for v in row[1:4]] for row in rows]).reshape(-1, 3)
+    return ids, fix
+
+
 def read_calblock(filename):
     """Read the calibration block file."""
-    with open(filename, "r", encoding="utf-8") as f:
-        lines = f.readlines()
-        num_fix = int(lines[0])
-        fix = np.zeros((num_fix, 3))
-        for i, line in enumerate(lines[1:]):
-            parts = line.split()
-            fix[i] = np.array([float(parts[1]), float(parts[2]), float(parts[3])])
-    return fix, num_fix
+    _, fix = _read_calblock_points(filename)
+    return fix, len(fix)
 
 
 def dumbbell_target_func(
-- 
2.43.0


From 322641e2b1b563aac300be98fcb1a30d1638acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 53/56] fix: the displacement of an added particle is taken
 forwards for the velocity limits

---
 openptv_python/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/track.py b/openptv_python/track.py
index 96eee32..8bd30e3 100644
--- a/openptv_python/track.py
+++ b/openptv_python/track.py
@@ -943,7 +943,7 @@ def trackcorr_c_loop(run_info, step):
                 ):
                     in_volume = 1
 
-                diff_pos = vec_subt(X[3], X[4])
+                diff_pos = vec_subt(X[4], X[3])
                 # print(f"second diff_pos {diff_pos}")
 
                 if in_volume == 1 and pos3d_in_bounds(diff_pos, tpar):
-- 
2.43.0


From 92ed2d30f7fb7bc39cb4e4a8cc6e81736d381a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 54/56] fix: vec_cmp compares within the given tolerance at any
 magnitude

---
 openptv_python/vec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/vec_utils.py b/openptv_python/vec_utils.py
index 0f41a03..db2bfa6 100644
--- a/openptv_python/vec_utils.py
+++ b/openptv_python/vec_utils.py
@@ -81,7 +81,7 @@ def vec_cross(vec1: np.ndarray, vec2: np.ndarray) -> np.ndarray:
 @njit("boolean(float64[:],float64[:],float64)", fastmath=True, cache=True, nogil=True)
 def vec_cmp(vec1: np.ndarray, vec2: np.ndarray, tol: float = 1e-6) -> bool:
     """vec_cmp() checks whether two vectors are equal within a tolerance."""
-    return np.allclose(vec1, vec2, atol=tol)
+    return np.allclose(vec1, vec2, rtol=0.0, atol=tol)
 
 
 @njit(float64[::1](float64[::1]), fastmath=True, cache=True, nogil=True)
-- 
2.43.0


From 760bf5fe97d9c7d0f5435f98068cbc59c4dd0ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:23 +0000
Subject: [PATCH 55/56] fix: error estimates of parameters left out of a
 calibration are zero, not uninitialised memory

---
 openptv_python/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openptv_python/orientation.py b/openptv_python/orientation.py
index 0e5707e..da1c341 100644
--- a/openptv_python/orientation.py
+++ b/openptv_python/orientation.py
@@ -880,7 +880,7 @@ def full_calibration(
     ------
     ValueError if iteration did not converge.
     """
-    err_est = np.empty((NPAR + 1), dtype=np.float64)
+    err_est = np.zeros((NPAR + 1), dtype=np.float64)
 
     if isinstance(img_pts, np.ndarray):
         # convert numpy array to list of Target objects
-- 
2.43.0


From 718d7a11f3c3d51049a655fdd948da90861652eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:02 +0000
Subject: [PATCH 56/56] fix: vec_cmp and vec_init can be called with their
 default arguments

---
 openptv_python/vec_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openptv_python/vec_utils.py b/openptv_python/vec_utils.py
index db2bfa6..8c9c3c8 100644
--- a/openptv_python/vec_utils.py
+++ b/openptv_python/vec_utils.py
@@ -6,7 +6,7 @@
 # the logical structure, and allow optimizing for size as well.
 
 import numpy as np
-from numba import float64, int32, njit
+from numba import float64, njit
 
 
 @njit(float64(float64[:]), fastmath=True, cache=True, nogil=True)
@@ -78,7 +78,7 @@ def vec_cross(vec1: np.ndarray, vec2: np.ndarray) -> np.ndarray:
     )
 
 
-@njit("boolean(float64[:],float64[:],float64)", fastmath=True, cache=True, nogil=True)
+@njit(fastmath=True, cache=True, nogil=True)
 def vec_cmp(vec1: np.ndarray, vec2: np.ndarray, tol: float = 1e-6) -> bool:
     """vec_cmp() checks whether two vectors are equal within a tolerance."""
     return np.allclose(vec1, vec2, rtol=0.0, atol=tol)
@@ -93,7 +93,7 @@ def unit_vector(vec: np.ndarray) -> np.ndarray:
     return vec / magnitude
 
 
-@njit(float64[:](int32), fastmath=True, cache=True, nogil=True)
+@njit(fastmath=True, cache=True, nogil=True)
 def vec_init(length: int = 3) -> np.ndarray:
     """Initialize a vector to zero."""
     return np.zeros(length, dtype=float)
-- 
2.43.0


From 8d272268d600c285066a36f1ea3e227cdec0f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 1/7] fix: copying a Scenario no longer modifies the original
 while it runs

---
 src/pygmm/model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index b1ac2c9..babab68 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -132,6 +132,15 @@ class Scenario(collections.UserDict):
         """Representation."""
         return "<Scenario(mag={mag}, dist_jb={dist_jb})>".format(**self.data)
 
+    def copy(self):
+        """Shallow copy that never modifies this scenario.
+
+        :meth:`collections.UserDict.copy` temporarily replaces the data of the
+        instance being copied, which is visible to other threads, and is not
+        restored if the copy is interrupted at the wrong moment.
+        """
+        return self.__copy__()
+
     def copy_with(self, **kwds):
         self._check_keys(kwds.keys())
         other = self.copy()
-- 
2.43.0


From 6927ff163b1e228fea0fa4213917d0544072b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 2/7] fix: AbrahamsonSilva1996 no longer masks the caller's
 array in place

---
 src/pygmm/abrahamson_silva_1996.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/abrahamson_silva_1996.py b/src/pygmm/abrahamson_silva_1996.py
index 30fcd7c..b05a078 100644
--- a/src/pygmm/abrahamson_silva_1996.py
+++ b/src/pygmm/abrahamson_silva_1996.py
@@ -53,7 +53,7 @@ class AbrahamsonSilva1996(model.Model):
     @staticmethod
     def calc_ln_dur_incr(nias):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
@@ -66,7 +66,7 @@ class AbrahamsonSilva1996(model.Model):
 
     def interp(self, nias, stds=None):
         # Mask out inappropriate values
-        nias = np.asarray(nias)
+        nias = np.array(nias)
         mask = (nias < 0.10) | (0.95 < nias)
         nias[mask] = np.nan
 
-- 
2.43.0


From 82f01359a5d203d9f3d6c657b9fcb11c6537db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 3/7] fix: models hand out copies of their arrays, and copy
 array arguments

---
 src/pygmm/abrahamson_gregor_addo_2016.py | 4 ++--
 src/pygmm/bayless_abrahamson_2019.py     | 6 +++---
 src/pygmm/gulerce_abrahamson_2011.py     | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pygmm/abrahamson_gregor_addo_2016.py b/src/pygmm/abrahamson_gregor_addo_2016.py
index 58505f4..8305dee 100644
--- a/src/pygmm/abrahamson_gregor_addo_2016.py
+++ b/src/pygmm/abrahamson_gregor_addo_2016.py
@@ -77,7 +77,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
             if isinstance(adjust_c1, float):
                 self._adjust_c1 = adjust_c1 * np.ones(n)
             else:
-                self._adjust_c1 = np.asarray(adjust_c1)
+                self._adjust_c1 = np.array(adjust_c1)
 
         self._adjust_c4 = adjust_c4
         self._scale_atten = scale_atten
@@ -88,7 +88,7 @@ class AbrahamsonGregorAddo2016(model.GroundMotionModel):
 
     @property
     def adjust_c1(self):
-        return self._adjust_c1
+        return self._adjust_c1.copy()
 
     @property
     def adjust_c4(self):
diff --git a/src/pygmm/bayless_abrahamson_2019.py b/src/pygmm/bayless_abrahamson_2019.py
index 595f878..ec26d9c 100644
--- a/src/pygmm/bayless_abrahamson_2019.py
+++ b/src/pygmm/bayless_abrahamson_2019.py
@@ -56,11 +56,11 @@ class BaylessAbrahamson2019(model.Model):
 
     @property
     def freqs(self):
-        return self.FREQS
+        return self.FREQS.copy()
 
     @property
     def ln_eas(self):
-        return self._ln_eas
+        return self._ln_eas.copy()
 
     @property
     def eas(self):
@@ -68,7 +68,7 @@ class BaylessAbrahamson2019(model.Model):
 
     @property
     def ln_std(self):
-        return self._ln_std
+        return self._ln_std.copy()
 
     def _check_inputs(self) -> None:
         super()._check_inputs()
diff --git a/src/pygmm/gulerce_abrahamson_2011.py b/src/pygmm/gulerce_abrahamson_2011.py
index eaccece..d0e2448 100644
--- a/src/pygmm/gulerce_abrahamson_2011.py
+++ b/src/pygmm/gulerce_abrahamson_2011.py
@@ -62,7 +62,7 @@ class GulerceAbrahamson2011(model.Model):
 
     @property
     def ln_std(self):
-        return self._ln_std
+        return self._ln_std.copy()
 
     def interp_ratio(self, periods: ArrayLike) -> np.ndarray:
         """Interpolate the spectral ratio.
-- 
2.43.0


From 48c65908de4c79a062b60d0de85fd3aaebb96c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 4/7] fix: log through module loggers instead of configuring
 the root logger

---
 src/pygmm/boore_stewart_seyhan_atkinson_2014.py | 6 ++++--
 src/pygmm/campbell_bozorgnia_2014.py            | 4 +++-
 src/pygmm/chiou_youngs_2014.py                  | 4 +++-
 src/pygmm/hermkes_kuehn_riggelsen_2014.py       | 4 +++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
index b98a311..89e3c81 100644
--- a/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
+++ b/src/pygmm/boore_stewart_seyhan_atkinson_2014.py
@@ -11,6 +11,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
     """Boore, Stewart, Seyhan, and Atkinson (2014, :cite:`boore14`) model.
@@ -132,7 +134,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         if s.mechanism == "SS":
             _min, _max = 3.0, 8.5
             if not (_min <= s.mag <= _max):
-                logging.warning(
+                logger.warning(
                     "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                     " for a strike-slip earthquake!",
                     s.mag,
@@ -142,7 +144,7 @@ class BooreStewartSeyhanAtkinson2014(model.GroundMotionModel):
         elif s.mechanism == "NS":
             _min, _max = 3.0, 7.0
             if not (_min <= s.mag <= _max):
-                logging.warning(
+                logger.warning(
                     "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                     " for a normal-slip earthquake!",
                     s.mag,
diff --git a/src/pygmm/campbell_bozorgnia_2014.py b/src/pygmm/campbell_bozorgnia_2014.py
index a2a5868..71bf6fb 100644
--- a/src/pygmm/campbell_bozorgnia_2014.py
+++ b/src/pygmm/campbell_bozorgnia_2014.py
@@ -11,6 +11,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class CampbellBozorgnia2014(model.GroundMotionModel):
     """Campbell and Bozorgnia (2014, :cite:`campbell14`) model.
@@ -69,7 +71,7 @@ class CampbellBozorgnia2014(model.GroundMotionModel):
 
         for mech, limit in [("SS", 8.5), ("RS", 8.0), ("NS", 7.5)]:
             if mech == s.mechanism and s.mag > limit:
-                logging.warning(
+                logger.warning(
                     "Magnitude of %g is greater than the recommended limit of"
                     "%g for %s style faults",
                     s.mag,
diff --git a/src/pygmm/chiou_youngs_2014.py b/src/pygmm/chiou_youngs_2014.py
index 55e81ac..78355f0 100644
--- a/src/pygmm/chiou_youngs_2014.py
+++ b/src/pygmm/chiou_youngs_2014.py
@@ -10,6 +10,8 @@ from .types import ArrayLike
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 
 class ChiouYoungs2014(model.GroundMotionModel):
     """Chiou and Youngs (2014, :cite:`chiou14`) model.
@@ -271,7 +273,7 @@ class ChiouYoungs2014(model.GroundMotionModel):
             _min, _max = 3.5, 8.5
 
         if not (_min <= s.mag <= _max):
-            logging.warning(
+            logger.warning(
                 "Magnitude (%g) exceeds recommended bounds (%g to %g)"
                 " for a %s earthquake!",
                 s.mag,
diff --git a/src/pygmm/hermkes_kuehn_riggelsen_2014.py b/src/pygmm/hermkes_kuehn_riggelsen_2014.py
index 29c6e33..b67566b 100644
--- a/src/pygmm/hermkes_kuehn_riggelsen_2014.py
+++ b/src/pygmm/hermkes_kuehn_riggelsen_2014.py
@@ -11,6 +11,8 @@ from . import model
 
 __author__ = "Albert Kottke"
 
+logger = logging.getLogger(__name__)
+
 fname_data = pathlib.Path(__file__).parent.joinpath(
     "data", "hermkes_kuehn_riggelsen_2014.npz"
 )
@@ -27,7 +29,7 @@ if not fname_data.exists():
     try:
         urllib.request.urlretrieve(url, str(fname_data))
     except urllib.request.URLError:
-        logging.critical(
+        logger.critical(
             "Hermkes, Kuehn, and Riggelsen (2013) model data required, "
             "which cannot be downloaded. Download the file from %s"
             "to this location: %s",
-- 
2.43.0


From fcafd3af6b39b8e357dc3d4e02e16952fc836f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 5/7] fix: an interrupted download of the HKR14 data never
 counts as the data

---
 src/pygmm/hermkes_kuehn_riggelsen_2014.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/hermkes_kuehn_riggelsen_2014.py b/src/pygmm/hermkes_kuehn_riggelsen_2014.py
index b67566b..205023e 100644
--- a/src/pygmm/hermkes_kuehn_riggelsen_2014.py
+++ b/src/pygmm/hermkes_kuehn_riggelsen_2014.py
@@ -18,7 +18,10 @@ fname_data = pathlib.Path(__file__).parent.joinpath(
 )
 
 if not fname_data.exists():
-    # Download the model data if not found.
+    # Download the model data if not found. The download is renamed once complete, so
+    # that an interrupted download, or one by another process, is never taken for the
+    # data.
+    import os
     import urllib.request
 
     url = (
@@ -26,8 +29,11 @@ if not fname_data.exists():
         "hermkes_kuehn_riggelsen_2014.npz?dl=0"
     )
 
+    fname_part = fname_data.with_name(f"{fname_data.name}.{os.getpid()}.part")
+
     try:
-        urllib.request.urlretrieve(url, str(fname_data))
+        urllib.request.urlretrieve(url, str(fname_part))
+        os.replace(fname_part, fname_data)
     except urllib.request.URLError:
         logger.critical(
             "Hermkes, Kuehn, and Riggelsen (2013) model data required, "
@@ -36,6 +42,8 @@ if not fname_data.exists():
             url,
             fname_data,
         )
+    finally:
+        fname_part.unlink(missing_ok=True)
 
 INTERPOLATOR = None
 
-- 
2.43.0


From c56dd5c9154e6066be0fbe42983fe605784b8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 6/7] fix: scenarios and models can be pickled and deep-copied

---
 src/pygmm/model.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index babab68..018d3c7 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -126,7 +126,15 @@ class Scenario(collections.UserDict):
 
     def __getattr__(self, item):
         """Access the data with attributes."""
-        return self.data[item]
+        # *data* itself is missing while an instance is being copied or unpickled
+        if item != "data":
+            try:
+                return self.data[item]
+            except KeyError:
+                pass
+        raise AttributeError(
+            f"{type(self).__name__!r} object has no attribute {item!r}"
+        )
 
     def __repr__(self):
         """Representation."""
@@ -557,7 +565,13 @@ class Coefficients(collections.abc.Mapping):
         return self._data[key]
 
     def __getattr__(self, key):
-        return self.__getitem__(key)
+        # *_data* itself is missing while an instance is being copied or unpickled
+        if key != "_data":
+            try:
+                return self._data[key]
+            except KeyError:
+                pass
+        raise AttributeError(f"{type(self).__name__!r} object has no attribute {key!r}")
 
     def __len__(self):
         return len(self._data)
-- 
2.43.0


From b08cd47ccc6c396fb65ed07de7a10d9a83eb5502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 7/7] fix: the package can be imported when the working
 directory is gone

---
 src/pygmm/model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pygmm/model.py b/src/pygmm/model.py
index 018d3c7..b00a458 100644
--- a/src/pygmm/model.py
+++ b/src/pygmm/model.py
@@ -550,9 +550,11 @@ def load_data_file(name, skip_header: int = 0) -> np.recarray:
 
     """
     fname = os.path.join(os.path.dirname(__file__), "data", name)
-    return np.genfromtxt(
-        fname, skip_header=skip_header, delimiter=",", names=True, case_sensitive=True
-    ).view(np.recarray)
+    # Given a name instead, numpy looks up the working directory, which may be gone
+    with open(fname, encoding="utf-8") as fp:
+        return np.genfromtxt(
+            fp, skip_header=skip_header, delimiter=",", names=True, case_sensitive=True
+        ).view(np.recarray)
 
 
 class Coefficients(collections.abc.Mapping):
-- 
2.43.0


From 8de19988974c17c3f1c2ffc2aedb5e8093ac02e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 01/19] fix: cutouts entirely outside of the image are empty
 rather than an error

---
 metadetect/detect.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadetect/detect.py b/metadetect/detect.py
index 3ddf4f5..7c90dfb 100644
--- a/metadetect/detect.py
+++ b/metadetect/detect.py
@@ -148,6 +148,11 @@ class MEDSInterface(NGMixMEDS):
             obox[1] = im_max
             box[1] = box[1] + diff
 
+        # the box does not overlap the image at all
+        if obox[0] >= obox[1]:
+            obox = [0, 0]
+            box = [0, 0]
+
         return obox, box
 
 
-- 
2.43.0


From 1763b81e65ebccf8db30657fdf78fd9cb5378581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 02/19] fix: the masked fraction is measured at (row, col), not
 at (col, row)

---
 metadetect/lsst/metadetect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 2bc7deb..dc13fca 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -408,7 +408,7 @@ def measure_weighted_mfrac(
         if yend > ny:
             yend = ny
 
-        sub_mfrac = mfrac[xstart:xend, ystart:yend]
+        sub_mfrac = mfrac[ystart:yend, xstart:xend]
         if sub_mfrac.size == 0:
             mfracs.append(1.0)
         else:
-- 
2.43.0


From 00234bf44afa1ab50a35bb681f1152b4ceaa9e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 03/19] fix: use the bmask of the source that is measured

---
 metadetect/lsst/measure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index e29ddef..997ef5d 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -361,15 +361,13 @@ def measure(
     wcs = mbexp.singles[0].getWcs()
     results = []
 
-    bmasks = get_bmasks(sources=sources, exposure=detexp)
-
     extractor = _get_extractor(
         mbexp=mbexp,
         sources=sources,
         model_data=model_data,
     )
 
-    for i, source in enumerate(extractor.children()):
+    for source in extractor.children():
 
         # perform basic measurements using stack algorithms
         # see DetectAndDeblendConfig for details
@@ -377,7 +375,7 @@ def measure(
 
         source_id = source.getId()
 
-        bmask = bmasks[i]
+        bmask = get_bmask(source=source, exposure=detexp)
 
         stamp_flags = 0
         try:
-- 
2.43.0


From f27aa3541f38d5e384626b0eee1027fbbcc3d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 04/19] fix: a failure to fit the original psfs sets flags
 rather than raising

---
 metadetect/lsst/metadetect.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index dc13fca..bd11042 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -631,18 +631,21 @@ def fit_original_psfs_mbexp(mbexp, rng, wgts, config):
 
         g1, g2 = ngmix.shape.e1e2_to_g1g2(e1=e1, e2=e2)
 
+        assert navg == len(shear_band_indices), (
+            f'summed {navg} but expected {len(shear_band_indices)}'
+        )
+
     except (BootPSFFailure, GMixRangeError):
         flags = procflags.PSF_FAILURE
         e1 = -9999.0
         e2 = -9999.0
+        g1 = -9999.0
+        g2 = -9999.0
         T = -9999.0
+        navg = 0
 
         perband = None
 
-    assert navg == len(shear_band_indices), (
-        f'summed {navg} but expected {len(shear_band_indices)}'
-    )
-
     return {
         'flags': flags,
         'navg': navg,
-- 
2.43.0


From 95802c91c8360e1ed1fd6c8e0f73086d621e5529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 05/19] fix: bounding box of the footprint when no stamp size
 is sent

---
 metadetect/lsst/model_subtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 9548bbb..c566a74 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -409,7 +409,7 @@ class ModelSubtractor(object):
                     )
 
         else:
-            parent_id, fp = self.footprints[source_id]
+            fp = self.footprints[source_id]
             bbox = fp.getBBox()
 
         return bbox
-- 
2.43.0


From 1317a25e1a85dd822c4dee42ff83c4efec58344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 06/19] fix: MBObsExtractor.get_stamp uses the bands of the
 exposures

---
 metadetect/lsst/mbobs_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/mbobs_extractor.py b/metadetect/lsst/mbobs_extractor.py
index aeac9ed..9c0882b 100644
--- a/metadetect/lsst/mbobs_extractor.py
+++ b/metadetect/lsst/mbobs_extractor.py
@@ -130,7 +130,7 @@ class MBObsExtractor(object):
             clip=clip,
         )
 
-        exposures = [self.mbexp[band][bbox] for band in self.bands]
+        exposures = [self.mbexp[band][bbox] for band in self.mbexp.bands]
         return util.get_mbexp(exposures)
 
     def get_mbobs(
-- 
2.43.0


From 920a65c23bd8080860ad10866257a3f34f149526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 07/19] fix: detection returns three items when there is no
 coadd

---
 metadetect/lsst/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index 997ef5d..ec955be 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -175,7 +175,7 @@ class DetectAndDeblendTask(Task):
         if len(mbexp.singles) > 1:
             detexp = util.coadd_exposures(mbexp.singles)
             if detexp is None:
-                return [], None
+                return [], None, None
         else:
             detexp = mbexp.singles[0]
 
-- 
2.43.0


From 281a08e148d162b7fddcae4983d0adffeb396392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 08/19] fix: mfrac_mbexp is optional

---
 metadetect/lsst/metadetect.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index bd11042..6781e51 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -491,7 +491,12 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
     wsum = 0.0
 
     mfrac = None
-    for exp, mfrac_exp in zip(mbexp, mfrac_mbexp):
+    if mfrac_mbexp is not None:
+        mfrac_arrays = [mfrac_exp.image.array for mfrac_exp in mfrac_mbexp]
+    else:
+        mfrac_arrays = [np.zeros_like(exp.image.array) for exp in mbexp]
+
+    for exp, mfrac_array in zip(mbexp, mfrac_arrays):
         varray = exp.variance.array
         w = np.where(np.isfinite(varray) & (varray > 0))
 
@@ -504,9 +509,9 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
         wsum += wgt
 
         if mfrac is None:
-            mfrac = wgt * mfrac_exp.image.array
+            mfrac = wgt * mfrac_array
         else:
-            mfrac += wgt * mfrac_exp.image.array
+            mfrac += wgt * mfrac_array
 
     mfrac *= 1.0 / wsum
 
-- 
2.43.0


From 61a1770f8603d0403d7d5fbbaa5dfbf324b34426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 09/19] fix: stamp_size can be overridden

---
 metadetect/lsst/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 942d006..4b409cd 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -1229,10 +1229,7 @@ def override_config(config, config_override: dict):
             # Use recursion to allow for arbitrarily nested config objects.
             override_config(subconfig, value)
         else:
-            if key == 'stamp_size':
-                config.toDict()[key] = value
-            else:
-                setattr(config, key, value)
+            setattr(config, key, value)
 
 
 def get_fitter(config, rng=None):
-- 
2.43.0


From 224c7231405158b21344c325f5e830086e406a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 10/19] fix: run_photometry uses the requested deblender

---
 metadetect/lsst/photometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metadetect/lsst/photometry.py b/metadetect/lsst/photometry.py
index 972debc..dd997f0 100644
--- a/metadetect/lsst/photometry.py
+++ b/metadetect/lsst/photometry.py
@@ -69,6 +69,7 @@ def run_photometry(
     dbtask = measure.get_detect_and_deblend_task(
         thresh=config['detect']['thresh'],
         rng=rng,
+        deblender=config['deblender'],
     )
     sources, detexp, model_data = dbtask.run(
         mbexp=mbexp,
-- 
2.43.0


From 4fdb7756b973fd688b938963307f57e4edc7d4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 11/19] fix: ModelSubtractor for data with a single band

scarletModelToHeavy returns a plain heavy footprint for a single band, which
can not be indexed by band.
---
 metadetect/lsst/model_subtractor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index c566a74..c43cdca 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -440,6 +440,9 @@ class ModelSubtractor(object):
                     bbox = footprint.getBBox()
 
                     heavy = scarletModelToHeavy(source=scl_source, blend=blend)
+                    if len(bands) == 1:
+                        # not a multiband footprint in this case
+                        heavy = {bands[0]: heavy}
 
                     for band in bands:
                         heavy[band].subtractFrom(self.mbexp[band].image[bbox])
-- 
2.43.0


From 18362cada8d31677c278590043da4c9faba9e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 12/19] fix: sky position of objects without a centroid

The pixel position falls back to the peak, but ra, dec were nan.
---
 metadetect/lsst/measure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index ec955be..1ebce4d 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -651,8 +651,6 @@ def get_output(wcs, source, res, bmask, stamp_size, exp_bbox):
 
     orig_cen = source.getCentroid()
 
-    skypos = wcs.pixelToSky(orig_cen)
-
     peak = source.getFootprint().getPeaks()[0]
     peak_loc = peak.getI()
 
@@ -665,6 +663,8 @@ def get_output(wcs, source, res, bmask, stamp_size, exp_bbox):
             orig_cen.getY() - peak_loc.getY(),
         )
 
+    skypos = wcs.pixelToSky(orig_cen)
+
     output['stamp_size'] = stamp_size
     output['row0'] = exp_bbox.getBeginY()
     output['col0'] = exp_bbox.getBeginX()
-- 
2.43.0


From 577a51691b8937bcf2c64b7871b157d1bb34a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 13/19] fix: coadd when an exposure has no good pixels

The median of no variances made the whole coadd nan.
---
 metadetect/lsst/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 4b409cd..c5b56d0 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -500,6 +500,10 @@ def coadd_exposures(exposures):
         coadd_exp.mask.array |= exp.mask.array
 
         w = np.where(exp.variance.array > 0)
+        if w[0].size == 0:
+            # there is nothing to add, and the median would be nan
+            continue
+
         medvar = np.median(exp.variance.array[w])
         this_weight = 1.0 / medvar
 
-- 
2.43.0


From b48cf2b61b7e21680dcfc2d747253866d544fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 14/19] fix: coadd psf at the centre of images that do not
 start at the origin

---
 metadetect/lsst/util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index c5b56d0..868df0f 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -474,7 +474,6 @@ def coadd_exposures(exposures):
     --------
     lsst.afw.image.ExposureF
     """
-    import lsst.geom as geom
     import lsst.afw.image as afw_image
 
     wsum = 0.0
@@ -482,8 +481,7 @@ def coadd_exposures(exposures):
     for i, exp in enumerate(exposures):
         shape = exp.image.array.shape
 
-        ycen, xcen = (np.array(shape) - 1) / 2
-        cen = geom.Point2D(xcen, ycen)
+        cen = exp.getBBox().getCenter()
 
         psfobj = exp.getPsf()
         this_psfim = psfobj.computeKernelImage(cen).array
-- 
2.43.0


From fd191d5d24787e6e8de85144a0a4ac8ad74a5b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 15/19] fix: settings sent to detection and sky subtraction are
 not modified

---
 metadetect/lsst/measure.py | 3 ++-
 metadetect/lsst/skysub.py  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index 1ebce4d..44ee422 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -1,5 +1,6 @@
 import logging
 import warnings
+from copy import deepcopy
 import numpy as np
 import esutil as eu
 import ngmix
@@ -290,7 +291,7 @@ def get_detect_and_deblend_task(
     sources, detexp
         The sources and the detection exposure
     """
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
     if thresh:
         if 'detect' not in config_override:
             config_override['detect'] = {}
diff --git a/metadetect/lsst/skysub.py b/metadetect/lsst/skysub.py
index 91de57e..519df59 100644
--- a/metadetect/lsst/skysub.py
+++ b/metadetect/lsst/skysub.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import lsst.afw.table as afw_table
 from lsst.meas.algorithms import (
     SubtractBackgroundTask,
@@ -142,7 +144,7 @@ def subtract_sky_mbexp(mbexp, thresh=DEFAULT_THRESH, config=None):
     thresh: float
         Threshold for detection
     """
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
 
     if thresh:
         if 'iterate_detection_and_skysub' not in config_override:
@@ -187,7 +189,7 @@ def iterate_detection_and_skysub(
     if niter < 1:
         raise ValueError(f'niter {niter} is less than 1')
 
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
 
     # set threshold
     if 'detect' not in config_override:
-- 
2.43.0


From 212f13a6fbf112c5ad6ef7a9ac7da254de27e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 16/19] fix: bands are restored when replacing by noise fails

---
 metadetect/lsst/util.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 868df0f..2c088a0 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -182,16 +182,19 @@ class MultibandNoiseReplacer(object):
         """
 
         self.noise_replacers = []
-        self.exit_stack = ExitStack()
 
-        for exp in self.mbexp.singles:
-            replacer = ContextNoiseReplacer(
-                exposure=exp,
-                sources=self.sources,
-                rng=self.rng,
-            )
-            self.noise_replacers.append(replacer)
-            self.exit_stack.enter_context(replacer)
+        # if one of them fails, the bands already replaced are restored
+        with ExitStack() as exit_stack:
+            for exp in self.mbexp.singles:
+                replacer = ContextNoiseReplacer(
+                    exposure=exp,
+                    sources=self.sources,
+                    rng=self.rng,
+                )
+                self.noise_replacers.append(replacer)
+                exit_stack.enter_context(replacer)
+
+            self.exit_stack = exit_stack.pop_all()
 
     def __enter__(self):
         return self
-- 
2.43.0


From 9a39674553a6d4b3503fc6d0dd608b2ad3acb8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 17/19] fix: uberseg weights for color dependent measurements

The segmentation map and number of the objects were not passed on when
remeasuring them on the images of their color, so weight_type uberseg did
nothing there.
---
 metadetect/metadetect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 9f9547c..706aea2 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -410,7 +410,7 @@ class Metadetect(dict):
 
         _result = {}
         for shear_str, shear_mbobs in mcal_res.items():
-            cat, mbobs_list = self._do_detect(
+            cat, mbobs_list, _ = self._do_detect(
                 shear_mbobs,
                 det_bands,
             )
@@ -438,7 +438,7 @@ class Metadetect(dict):
                 )
 
             # we first detect and get color of each detection
-            cat, mbobs_list = self._do_detect(shear_mbobs, det_bands)
+            cat, mbobs_list, seg = self._do_detect(shear_mbobs, det_bands)
             nocolor_data = fit_mbobs_list_wavg(
                 mbobs_list=mbobs_list,
                 fitter=self._fitters[0],
@@ -469,6 +469,8 @@ class Metadetect(dict):
                     cat['x'][i:i+1],
                     cat['y'][i:i+1],
                     cat['box_size'][i:i+1],
+                    seg=seg,
+                    number=cat['number'][i:i+1],
                 )
                 mbm = _medsifier.get_multiband_meds()
                 mbobs_list = mbm.get_mbobs_list(
@@ -780,7 +782,7 @@ class Metadetect(dict):
         )
         logger.info("detect took %s seconds", time.time() - t0)
 
-        return medsifier.cat, mbobs_list
+        return medsifier.cat, mbobs_list, medsifier.seg
 
     def _get_all_metacal(self, mbobs):
         """
-- 
2.43.0


From 5341be6d8d622b8e2beb02cc37c0c2f7116aa6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:24 +0000
Subject: [PATCH 18/19] fix: the settings sent to Metadetect are not modified

---
 metadetect/metadetect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 706aea2..5c6e4c9 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 import time
 
@@ -177,7 +178,8 @@ class Metadetect(dict):
         set the config, dealing with defaults
         """
 
-        self.update(config)
+        # the settings sent are not modified
+        self.update(copy.deepcopy(config))
         assert 'metacal' in self, \
             'metacal setting must be present in config'
         assert 'meds' in self, \
-- 
2.43.0


From 7348a9d53e889b9d7d7f3b21c8402656b809b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:42 +0000
Subject: [PATCH 19/19] fix: the fluxes for the colour honour symmetrize of the
 first fitter

---
 metadetect/metadetect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 5c6e4c9..39aa3b3 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -446,6 +446,7 @@ class Metadetect(dict):
                 fitter=self._fitters[0],
                 shear_bands=shear_bands,
                 bmask_flags=self.get("bmask_flags", 0),
+                symmetrize=self._fitter_symmetrize[0],
             )
             if nocolor_data is None:
                 _result[shear_str] = None
-- 
2.43.0


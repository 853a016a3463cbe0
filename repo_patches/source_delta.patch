From 4178ef4aa05a64037063f08a95def0147abfbe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 01/55] fix: keep the whole file name when an image is loaded
 from a single path

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 052f85a..2ece002 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -108,7 +108,7 @@ class Image:
             tempfilename[-1] = "SUM_" + tempfilename[-1]
             self.filename = os.path.sep.join(tempfilename)
         else:
-            self.filename = filenames[0]
+            self.filename = filenames_list[0]
 
     def _init_image_from_image(self, image: Image):
         self.data = image.data.copy()
-- 
2.43.0


From 6278c46285e9e727064d3fcb618297fdbfd8cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 02/55] fix: reject raw files with the intended NameError when
 loading images

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 2ece002..b5e5c24 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -46,7 +46,7 @@ class Image:
 
         print_info_message = True
         for idx, filename in enumerate(filenames_list):
-            if ".raw" in filenames_list:
+            if Path(filename).suffix == ".raw":
                 raise NameError(
                     "Can't load a raw file, convert it to fits first."
                 )  # to fix
-- 
2.43.0


From 25c0d7c1f8e8ab09d9a4ad811974d519d0739601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 03/55] fix: load files whose DATE-OBS has no time of day and
 no TIME-OBS

---
 micropolarray/image.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index b5e5c24..f351791 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -75,12 +75,13 @@ class Image:
                         "%Y-%m-%dT%H:%M:%S",
                     )
                 except ValueError:  # antarticor format
-                    datetimes[idx] = datetime.datetime.strptime(
-                        hul[0].header["DATE-OBS"]
-                        + "-"
-                        + hul[0].header["TIME-OBS"].split(".")[0],
-                        "%Y-%m-%d-%H:%M:%S",
-                    )
+                    if "TIME-OBS" in hul[0].header:
+                        datetimes[idx] = datetime.datetime.strptime(
+                            hul[0].header["DATE-OBS"]
+                            + "-"
+                            + hul[0].header["TIME-OBS"].split(".")[0],
+                            "%Y-%m-%d-%H:%M:%S",
+                        )
                 except KeyError:
                     pass
 
-- 
2.43.0


From fd5280dd127bf2974d4b4f002b2a6e4b424dc107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 04/55] fix: keep header and pixels when an Image is created
 from another image

---
 micropolarray/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index f351791..869735f 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -29,7 +29,7 @@ class Image:
         elif type(initializer) is np.ndarray:
             self._init_image_from_data(initializer)
             self.new_data = initializer
-        elif type(initializer) is Image:
+        elif isinstance(initializer, Image):
             self._init_image_from_image(initializer)
 
     def _init_image_from_data(self, input_data: np.array) -> None:
@@ -112,6 +112,7 @@ class Image:
             self.filename = filenames_list[0]
 
     def _init_image_from_image(self, image: Image):
+        self.header = image.header.copy()
         self.data = image.data.copy()
         self.filename = image.filename
 
-- 
2.43.0


From 63cf796bf48ad273b4748a401f6ea19499133424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 05/55] fix: do not share header, pixels and parameters between
 an image and its copies

---
 micropolarray/micropol_image.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 483d9aa..30123d4 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -121,16 +121,17 @@ class MicropolImage(Image):
         self.demosaiced_images = None
 
     def _import_image_parameters(self, image: MicropolImage):
-        self.data = image.data
-        self.header = image.header
+        self.header = image.header.copy()
+        self.data = image.data.copy()
         self.angle_dic = image.angle_dic
-        self.Stokes_vec = image.Stokes_vec
+        self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
-        self.demosaiced_images = image.demosaiced_images
+        if image.demosaiced_images is not None:
+            self.demosaiced_images = np.array(image.demosaiced_images)
 
     # ----------------------------------------------------------------
     # -------------------- POLARIZATION PROPERTIES -------------------
-- 
2.43.0


From e99c828fec65fe08548b57337fbaee7f18792ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 06/55] fix: do not share the header between an image and
 results of its arithmetic

---
 micropolarray/micropol_image.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 30123d4..9262ee6 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -1011,7 +1011,7 @@ class MicropolImage(Image):
             newdata = self.data + second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1033,7 +1033,7 @@ class MicropolImage(Image):
             newdata = self.data - second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1055,7 +1055,7 @@ class MicropolImage(Image):
             newdata = self.data * second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1077,7 +1077,7 @@ class MicropolImage(Image):
             newdata = np.divide(self.data, second, where=second != 0.0)
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
-- 
2.43.0


From a38540ba897fc5f6f23de01eee579e062a5ebaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 07/55] fix: rotating an image no longer rotates the parameters
 of the original

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 9262ee6..6c3e025 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -902,7 +902,7 @@ class MicropolImage(Image):
             single_pols[i] = np.asarray(image, dtype=float)
         data = merge_polarizations(single_pols)
 
-        Stokes_vec = self.Stokes_vec
+        Stokes_vec = np.array(self.Stokes_vec)
         for i in range(3):
             image = PILImage.fromarray(Stokes_vec[i])
             image = image.rotate(angle)
-- 
2.43.0


From 04170f16a99fbb35ce4844a19cef54e49c0c7084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 08/55] fix: dividing by zero pixels gives 0 instead of
 uninitialized memory

---
 micropolarray/image.py          | 11 +++++++++--
 micropolarray/micropol_image.py |  6 +++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 869735f..5b79b05 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -15,6 +15,13 @@ from micropolarray.processing.shift import shift
 from micropolarray.utils import _make_abs_and_create_dir, fix_data
 
 
+def _divide_or_zero(dividend: np.ndarray, divisor) -> np.ndarray:
+    """Pixelwise division, giving 0 where the divisor is 0"""
+    nonzero = np.not_equal(divisor, 0)
+    quotient = np.divide(dividend, np.where(nonzero, divisor, 1))
+    return np.where(nonzero, quotient, 0.0)
+
+
 class Image:
     """Basic image class. Can be initialized from a filename, a filenames list, a numpy array or another Image instance. If multiple filenames are provided, will perform the mean of them unless averageimages is False."""
 
@@ -299,7 +306,7 @@ class Image:
 
     def __truediv__(self, second) -> Image:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0)
+            newdata = _divide_or_zero(self.data, second.data)
         else:
-            newdata = np.divide(self.data, second, where=second != 0)
+            newdata = _divide_or_zero(self.data, second)
         return Image(newdata)
diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 6c3e025..f4b6b68 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -12,7 +12,7 @@ from astropy.io import fits
 from PIL import Image as PILImage
 
 from micropolarray.cameras import Camera, PolarCam
-from micropolarray.image import Image
+from micropolarray.image import Image, _divide_or_zero
 from micropolarray.polarization_functions import AoLP, DoLP, pB
 from micropolarray.processing.chen_wan_liang_calibration import _ifov_jitcorrect
 from micropolarray.processing.congrid import congrid
@@ -1070,11 +1070,11 @@ class MicropolImage(Image):
 
     def __truediv__(self, second) -> MicropolImage:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0.0)
+            newdata = _divide_or_zero(self.data, second.data)
             newimage = MicropolImage(self)
             newimage._update_data_and_Stokes(newdata)
         else:
-            newdata = np.divide(self.data, second, where=second != 0.0)
+            newdata = _divide_or_zero(self.data, second)
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
         newimage.header = self.header.copy()
-- 
2.43.0


From 3a4044f578122df56a58d3b14c066f7ae4483937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 09/55] fix: leave pixels unchanged where the flat is zero

---
 micropolarray/micropol_image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index f4b6b68..e86394b 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -408,6 +408,7 @@ class MicropolImage(Image):
         self.data = np.divide(
             self.data,
             normalized_flat,
+            out=np.array(self.data, dtype=float),
             where=normalized_flat != 0.0,
         )
 
-- 
2.43.0


From 0ed478f9a638858567b504bf755633cf48231ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 10/55] fix: subtracting a dark no longer wraps around for
 unsigned pixels

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index e86394b..b6c973e 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -388,7 +388,7 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: copy of input image with dark subtracted
         """
-        self.data = self.data - dark.data
+        self.data = np.subtract(self.data, dark.data, dtype=float)
         self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
         self._dark_subtracted = True
-- 
2.43.0


From b6e0240f5fbc660e9a0d70ed678502fff1806cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 11/55] fix: spline demosaicing with current numpy versions

---
 micropolarray/processing/demosaic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demosaic.py b/micropolarray/processing/demosaic.py
index 841699e..2232981 100644
--- a/micropolarray/processing/demosaic.py
+++ b/micropolarray/processing/demosaic.py
@@ -144,7 +144,7 @@ def demosaic(image_data, option="adjacent"):
     elif option == "spline":
         single_pol_subimages = np.array(
             [image_data[j::2, i::2] for j in range(2) for i in range(2)],
-            dtype=np.float,
+            dtype=float,
         )
         demo_images = [
             congrid(
-- 
2.43.0


From 471e677c237d417d87334a98fd2c2409177acf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 12/55] fix: flat correction in calibration with current numpy
 versions

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d97a0ff..bbada28 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -371,7 +371,7 @@ def calculate_demodulation_tensor(
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = np.array(file[0].data, dtype=np.float)
+            flat = np.array(file[0].data, dtype=float)
         if correct_ifov:
             flat = _ifov_jitcorrect(flat, *flat.shape)
         flat = micropolarray_rebin(flat, binning)
-- 
2.43.0


From 769bb92289dce527e062df32302a41fc84000ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 13/55] fix: hot pixel detection called a method that does not
 exist

---
 micropolarray/processing/image_cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/image_cleaning.py b/micropolarray/processing/image_cleaning.py
index 0d64869..8989a1a 100644
--- a/micropolarray/processing/image_cleaning.py
+++ b/micropolarray/processing/image_cleaning.py
@@ -17,7 +17,7 @@ def get_hot_pixels(image, threshold=100):
     # diff = np.where(diff > threshold, 1, 0)
 
     newimage = MicropolImage(image)
-    newimage._set_data_and_Stokes(merge_polarizations(diff))
+    newimage._update_data_and_Stokes(merge_polarizations(diff))
 
     return newimage
 
-- 
2.43.0


From bd5cb698a64da879581bfe6f97e32391a6adc13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 14/55] fix: demosaiced images and their parameters follow
 changes of the data

---
 micropolarray/micropol_image.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index b6c973e..4058f9d 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -118,6 +118,7 @@ class MicropolImage(Image):
         self._binning = 1
         self._flat_subtracted = False
         self._dark_subtracted = False
+        self._demosaic_mode = "adjacent"
         self.demosaiced_images = None
 
     def _import_image_parameters(self, image: MicropolImage):
@@ -127,6 +128,7 @@ class MicropolImage(Image):
         self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
+        self._demosaic_mode = image._demosaic_mode
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
@@ -234,6 +236,8 @@ class MicropolImage(Image):
     def _update_data_and_Stokes(self, newdata: np.ndarray = None):
         if newdata is not None:
             self.data = newdata
+        if self._is_demosaiced:  # follow the new data
+            self.demosaiced_images = demosaic(self.data, option=self._demosaic_mode)
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
     def demodulate(
@@ -390,7 +394,7 @@ class MicropolImage(Image):
         """
         self.data = np.subtract(self.data, dark.data, dtype=float)
         self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes()
         self._dark_subtracted = True
         return self
 
@@ -414,7 +418,7 @@ class MicropolImage(Image):
 
         # self.data = np.where(self.data >= 0, self.data, 0)
         # self.data = np.where(self.data < 4096, self.data, 4096)
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes()
         self._flat_subtracted = True
         return self
 
@@ -818,6 +822,7 @@ class MicropolImage(Image):
 
         self.demosaiced_images = demosaic(self.data, option=demosaic_mode)
         self._is_demosaiced = True
+        self._demosaic_mode = demosaic_mode
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
         return self
-- 
2.43.0


From 8946d54a6bc0a068872deb161646da7277362df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 15/55] fix: convert arrays to native byte order, which
 compiled functions need

---
 micropolarray/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 5b79b05..02f8a16 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -40,7 +40,8 @@ class Image:
             self._init_image_from_image(initializer)
 
     def _init_image_from_data(self, input_data: np.array) -> None:
-        self.data = np.array(input_data)
+        # numba needs native byte order (fits data is big-endian)
+        self.data = np.array(input_data, dtype=input_data.dtype.newbyteorder("="))
         self.filename = "image.fits"
 
     def _init_image_from_file(self, filenames, averageimages) -> None:
-- 
2.43.0


From bbcd0c7e7eaa22cd182d9108066a202006e2cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 16/55] fix: polar ROI with the default radius

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index 5bdf4e9..ecf247d 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -35,7 +35,6 @@ def roi_from_polar(
     """
     height, width = data.shape
     theta_min, theta_max = theta
-    rho_min, rho_max = rho
     if center is None:
         center = [int(height / 2), int(width / 2)]
     else:
@@ -44,6 +43,7 @@ def roi_from_polar(
     if rho is None:
         rho_max = np.min([height - center[0], width - center[1]])
         rho = [0.0, rho_max]
+    rho_min, rho_max = rho
 
     if include_superpixels:
         # make a map that is HALF THE SIZE, do condition, then resize to make all the superpixel outside selection
-- 
2.43.0


From 6f27133b5a205a88a22fb92f16e0ba4d91f93481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 17/55] fix: line rasterization no longer runs one pixel past
 the end

---
 micropolarray/processing/linear_roi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index d1bd77a..e892f72 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -128,7 +128,7 @@ def DDA(start: list, end: list) -> np.ndarray:
     ys = [int(y)]
 
     i = 0
-    while i <= step:
+    while i < step:
         x = x + dx
         y = y + dy
         i = i + 1
-- 
2.43.0


From e4f410edbd7af3930c736cd647ebcfa6c3dacabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 18/55] fix: decoding PolarCam binaries lost trailing zero
 bytes

---
 micropolarray/processing/convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 351bc3a..26dd6e2 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -54,9 +54,9 @@ def nparr_from_binary(filename):
     if chunk_size % 1 or (chunk_size / 3) % 1:
         raise ValueError("Indivisible by chunks")
     chunk_size = int(chunk_size)
-    splitted = np.array(
-        [filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)]
-    )
+    splitted = [
+        filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)
+    ]  # not a numpy array, which would strip trailing zero bytes
     with mp.Pool(processes=chunks_n) as p:
         result = p.map(three_bytes_to_two_ints, splitted)
     newarr = np.array(result).reshape((1952, 1952))
-- 
2.43.0


From 8f19d05d620cc5530cd8402adf8757190cfcd803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 19/55] fix: converting raw files whose path contains dots

---
 micropolarray/processing/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 26dd6e2..760eff7 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -197,14 +197,14 @@ def convert_rawfile_to_fits(
     Raises:
         ValueError: raised if the file does not end with ".raw"
     """
-    if not ".raw" in filename:
+    if Path(filename).suffix != ".raw":
         raise ValueError("Can't convert: not a row file")
     with open(filename, mode="rb") as file:
         buffer = file.read()
     data = np.ndarray(shape=(height, width), dtype="<u2", buffer=buffer)
     HDU = fits.PrimaryHDU(data=data)
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
-    new_filename = os.path.pathsep.join(filename.split(".")[:-1]) + ".fits"
+    new_filename = os.path.splitext(filename)[0] + ".fits"
     HDU.writeto(new_filename, overwrite=True)
     info(f'Image successfully saved to "{new_filename}".')
 
-- 
2.43.0


From 31b1437625b46aba7d83ce210cb4004ed996b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 20/55] fix: clipping range was ignored when one of its bounds
 was 0

---
 micropolarray/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index f9bdf34..c835433 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -53,7 +53,7 @@ def sigma_DN(pix_DN):
 
 
 def fix_data(data: np.array, min, max):
-    if not (min and max):
+    if min is None or max is None:
         return data
     fixed_data = data.copy()
     fixed_data = np.where(fixed_data > min, fixed_data, min)
-- 
2.43.0


From a477fd76cfa2b696cf6f1663219122e54ca88669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 21/55] fix: error on AoLP was undefined where Q is 0

---
 micropolarray/processing/demodulation_errors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation_errors.py b/micropolarray/processing/demodulation_errors.py
index 6df8ef3..e706ac5 100644
--- a/micropolarray/processing/demodulation_errors.py
+++ b/micropolarray/processing/demodulation_errors.py
@@ -78,8 +78,9 @@ def get_error_on_AoLP(S: np.ndarray, sigma_S: np.ndarray) -> np.ndarray:
     I, Q, U = S
     sigma_I, sigma_Q, sigma_U = sigma_S
 
-    aolp_var = (sigma_U * sigma_U + sigma_Q * sigma_Q * U * U / (Q * Q)) / (
-        4 * Q * Q * (1 + (U * U / (Q * Q))) * (1 + (U * U / (Q * Q)))
+    # not simplified by Q, which can be 0
+    aolp_var = (Q * Q * sigma_U * sigma_U + U * U * sigma_Q * sigma_Q) / (
+        4 * (Q * Q + U * U) * (Q * Q + U * U)
     )
 
     return np.sqrt(aolp_var)
-- 
2.43.0


From 124505c4d9fb11f9c49472b7dd062a377463ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 22/55] fix: demosaicing demodulation with a calibration that
 has no fit flags

---
 micropolarray/micropol_image.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 4058f9d..de480ab 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -325,9 +325,10 @@ class MicropolImage(Image):
                     mij[i, j, :, :] = merge_polarizations(
                         np.repeat(demo_component[np.newaxis, :, :], 4, axis=0)
                     )  # repeat necessary to avoid numba problems
-            fit_found_flags = merge_polarizations(
-                np.array(4 * [demodulator.fit_found_flags.astype(float)])
-            )  # idk why but fit_found_flags is >f8 as default
+            if fit_found_flags is not None:
+                fit_found_flags = merge_polarizations(
+                    np.array(4 * [demodulator.fit_found_flags.astype(float)])
+                )  # idk why but fit_found_flags is >f8 as default
         else:
             mij = demodulator.mij
             splitted_pols = self.single_pol_subimages
-- 
2.43.0


From ae4ed673a3aac32c421d0cef90080934458d6042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 23/55] fix: flipping or rotating a Demodulator moves its fit
 flags too

---
 micropolarray/processing/demodulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index bbada28..40556b2 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -256,14 +256,16 @@ class Demodulator:
 
     def rot90(self, k=1):
         # NB: rotation could switch micropol positions inside superpixel, but for demo matrix all px in superpix are equal
-        for i in range(self.n_malus_params):
-            for j in range(self.n_pixels_in_superpix):
-                self.mij[i, j] = np.rot90(self.mij[i, j], k=k)
+        self.mij = np.rot90(self.mij, k=k, axes=(2, 3)).copy()
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.rot90(self.fit_found_flags, k=k)
 
     def flip(self, axis):
         for i in range(self.n_malus_params):
             for j in range(self.n_pixels_in_superpix):
                 self.mij[i, j] = np.flip(self.mij[i, j], axis=axis)
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.flip(self.fit_found_flags, axis=axis)
 
 
 def calculate_demodulation_tensor(
-- 
2.43.0


From 96c59c56774a43a9f1a4ae7d878140474da4003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 24/55] fix: showing demosaiced images with explicit color
 limits

---
 micropolarray/micropol_image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index de480ab..c1fb5f6 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -569,6 +569,7 @@ class MicropolImage(Image):
         ax = ax.ravel()
         demo_images_list = self.demosaiced_images
         for i, single_demo_ax in enumerate(ax):
+            this_vmin, this_vmax = vmin, vmax
             if vmin is None:
                 this_vmin = mean_minus_std(demo_images_list[i])
             if vmax is None:
-- 
2.43.0


From 6d754b077d1b710bc1b48b5da25b1bb293573c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 25/55] fix: reject process grids that would leave part of the
 image uncalibrated

---
 micropolarray/processing/demodulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 40556b2..8879e92 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -498,6 +498,10 @@ def calculate_demodulation_tensor(
     chunks_n_y, chunks_n_x = procs_grid
     chunk_size_y = int(height / chunks_n_y)
     chunk_size_x = int(width / chunks_n_x)
+    if (height % chunks_n_y) or (width % chunks_n_x):
+        raise ValueError(
+            f"cant decompose {height}x{width} data into a {procs_grid[0]}x{procs_grid[1]} grid. Try changing the number of processors."
+        )
     if (chunk_size_x % 2) or (chunk_size_y % 2):
         raise ValueError(
             f"cant decompose into a {procs_grid[0]}x{procs_grid[1]} grid (odd side grid {chunk_size_y}x{chunk_size_x}). Try changing the number of processors."
-- 
2.43.0


From 23bf7a3cb5232a4caaaa60002b5a71d14a145e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 26/55] fix: Chen-Wan-Liang calibration truncated integer
 images

---
 micropolarray/processing/chen_wan_liang_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index b601251..21b43d1 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -271,7 +271,7 @@ def chen_wan_liang_calibration(data, calibration_matrices_dir: str):
     height, width = data.shape
     C_ij = np.zeros(shape=(4, 4, height, width))
     d_ij = np.zeros_like(data)
-    corrected_data = np.zeros_like(data)
+    corrected_data = np.zeros_like(data, dtype=float)
     ifov_corrected_data = np.zeros_like(data)
     correction_path = Path(calibration_matrices_dir)
     if not correction_path.is_absolute():  # suppose it is in cwd
-- 
2.43.0


From 1be9cf0d34be610c7f596f02b17ce7c749d2cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 27/55] fix: names of exported polarization images as
 documented

---
 micropolarray/micropol_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index c1fb5f6..3473a2d 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -686,7 +686,7 @@ class MicropolImage(Image):
             )
             filename_with_ID = str(
                 group_filepath.joinpath(
-                    str(group_filepath) + "POL" + str(single_pol.ID) + ".fits"
+                    str(group_filepath) + "_POL" + str(single_pol.ID) + ".fits"
                 )
             )
             hdu.writeto(filename_with_ID, overwrite=True)
@@ -787,7 +787,7 @@ class MicropolImage(Image):
             raise ValueError("Demosaiced images not yet calculated.")
         imageHdr = self.header.copy()
         filepath = Path(filename)
-        if not filepath.suffix:
+        if filepath.suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
         filepath = Path(_make_abs_and_create_dir(filename))
         group_filename = str(filepath.joinpath(filepath.parent, filepath.stem))
-- 
2.43.0


From 86b0f12995c7df1837d9c0699eec642a730445f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 28/55] fix: flag the center of the occulter in calibrations
 too

---
 micropolarray/processing/demodulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 8879e92..ec9c83f 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -355,8 +355,8 @@ def calculate_demodulation_tensor(
         occulter_y, occulter_x, occulter_r = binned_occulter
 
         occulter_flag = roi_from_polar(
-            occulter_flag, [occulter_y, occulter_x], [0, occulter_r]
-        )
+            occulter_flag, [occulter_y, occulter_x], [-2, occulter_r]
+        )  # lower radius is excluded from the ROI, include center superpixel
         for super_y in range(0, occulter_flag.shape[0], 2):
             for super_x in range(0, occulter_flag.shape[1], 2):
                 if np.any(occulter_flag[super_y : super_y + 2, super_x : super_x + 2]):
-- 
2.43.0


From 73f8d17c13507dbbf5b82436cf43bcab8eab07b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 29/55] fix: missing demodulation matrices are always reported
 with ValueError

---
 micropolarray/processing/demodulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index ec9c83f..ee9443a 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -158,6 +158,8 @@ class Demodulator:
                 with fits.open(filename) as firsthul:
                     sample_matrix = np.array(firsthul[0].data)
                 break
+        else:
+            raise ValueError("No demodulation matrices in the selected folder.")
 
         Mij = np.zeros(
             shape=(
@@ -170,22 +172,22 @@ class Demodulator:
         )
         fit_found_flags = None
 
-        matches = 0
+        matches = set()
         for filename in filenames_list:
             pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
             if pattern_query is not None:  # Exclude files not matching m/Mij
-                matches += 1
                 i, j = pattern_query.group()[
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
+                matches.add((i, j))
                 with fits.open(filename) as hul:
                     Mij[i, j] = hul[0].data
             if Path(filename).stem == "fit_found_flag":
                 with fits.open(filename) as hul:
                     fit_found_flags = hul[0].data
 
-        if matches != 12:
+        if len(matches) != 12:
             raise ValueError(
                 "Missing matrices in the selected folder. Check correct folder name and files pattern '*ij*.fits'."
             )
-- 
2.43.0


From 16fe2483c79a9ea6e1c4da1ad95555be02124dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 30/55] fix: check the export name before creating folders

---
 micropolarray/micropol_image.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 3473a2d..aa3b3ae 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -667,9 +667,10 @@ class MicropolImage(Image):
             ValueError: an invalid file name is provided
         """
         polslist = [self.pol0, self.pol45, self.pol90, self.pol_45]
-        filepath = Path(_make_abs_and_create_dir(filename))
+        filepath = Path(filename)
         if filepath.suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
+        filepath = Path(_make_abs_and_create_dir(filename))
         group_filepath = filepath.joinpath(filepath.parent, filepath.stem)
         for single_pol in polslist:
             hdr = self.header.copy()
@@ -709,9 +710,10 @@ class MicropolImage(Image):
             ValueError: filename is not a valid .fits file
         """
         polparam = getattr(self, polparam)
-        filepath = Path(_make_abs_and_create_dir(filename))
+        filepath = Path(filename)
         if filepath.suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
+        filepath = Path(_make_abs_and_create_dir(filename))
         hdr = self.header.copy()
         hdr["PARAM"] = (str(polparam.title), "Polarization parameter")
         hdr["UNITS"] = (str(polparam.measure_unit), "Measure units")
-- 
2.43.0


From 9df3ae1bdb05daf3addd4dce8845cb16e5da435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 31/55] fix: radial profiles reach the image border and may
 start on it

---
 micropolarray/processing/linear_roi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index e892f72..1531329 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -50,10 +50,10 @@ def linear_roi_from_polar(
     while (
         # (y2 < data.shape[0] - 1)
         (y2 < data.shape[0])
-        and (y2 > 1)
+        and (y2 > -0.5)
         # and (x2 < data.shape[1] - 1)
         and (x2 < data.shape[1])
-        and (x2 > 1)
+        and (x2 > -0.5)
         and (np.sqrt((x2 - center[1]) ** 2 + (y2 - center[0]) ** 2) < r[1] - 1)
     ):
         y2 = y2 - np.sin(theta_rad)
@@ -66,8 +66,8 @@ def linear_roi_from_polar(
         or (ys[-1] < 0)
         or (xs[-1] < 0)
     ):
-        ys = ys[:-2]
-        xs = xs[:-2]
+        ys = ys[:-1]
+        xs = xs[:-1]
 
     result = np.array([data[y, x] for y, x in zip(ys, xs)])
 
-- 
2.43.0


From 30f6a54ea4fc8c2f1369c90ec363958bc57041f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 32/55] fix: Demodulator.show returns the axes of its twelve
 panels

---
 micropolarray/processing/demodulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index ee9443a..466755b 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -221,8 +221,8 @@ class Demodulator:
                     self.mij[i, j], cmap=cmap, vmin=vmin, vmax=vmax
                 )
                 ax[i, j].set_title(rf"M$_{i}$$_{j}$")
-        for ax in fig.get_axes():
-            ax.label_outer()
+        for single_ax in fig.get_axes():
+            single_ax.label_outer()
 
         fig.subplots_adjust(right=0.8)
         cbar_ax = fig.add_axes([0.85, 0.15, 0.05, 0.7])
-- 
2.43.0


From 8335e3c9b1d7c86116a14e270a9a98a4792d4abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 33/55] fix: refuse calibrations of one superpixel row or
 column for larger images

---
 micropolarray/micropol_image.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index aa3b3ae..a5ea39e 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -367,6 +367,11 @@ class MicropolImage(Image):
         U = T_ij[2, 0] + T_ij[2, 1] + T_ij[2, 2] + T_ij[2, 3]
         """
 
+        if mij.shape[-2:] != np.shape(splitted_pols)[-2:]:
+            raise ValueError(
+                f"demodulation matrix {mij.shape[-2:]} and images {np.shape(splitted_pols)[-2:]} have different shapes. Check that binning is correct."
+            )  # matmul would broadcast a single row or column
+
         I, Q, U = np.matmul(
             mij,
             np.expand_dims(splitted_pols, axis=0),
-- 
2.43.0


From ee8b9f04504f98405d51c29a6d83f5178a5da1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 34/55] fix: a stack of normalization images did not follow its
 files when they are sorted by angle

---
 micropolarray/processing/demodulation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 466755b..e446d36 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -327,6 +327,13 @@ def calculate_demodulation_tensor(
             f"Each one among (0, 45, 90, -45 / 135) polarizations must be included in the polarizer orientation array. Provided {polarizer_orientations}"
         )  # for calculating normalizing_S
 
+    if np.ndim(normalizing_S) == 3 and len(normalizing_S) == len(filenames_list):
+        # one normalization per file, must follow its file
+        sorted_indexes = sorted(
+            range(len(filenames_list)),
+            key=lambda i: (polarizer_orientations[i], filenames_list[i]),
+        )
+        normalizing_S = np.array([normalizing_S[i] for i in sorted_indexes])
     polarizer_orientations, filenames_list = (
         list(t) for t in zip(*sorted(zip(polarizer_orientations, filenames_list)))
     )
-- 
2.43.0


From 7eda6c66aa2746855ebd80a65bd38de565ed061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 35/55] fix: copies of an image shared its orientation
 dictionary, so editing one changed the other

---
 micropolarray/micropol_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index a5ea39e..254bbee 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -90,7 +90,7 @@ class MicropolImage(Image):
                 MicropolImage.first_call = False
                 DEFAULT_ANGLES_DIC = PolarCam().angle_dic
             angle_dic = DEFAULT_ANGLES_DIC
-        self.angle_dic = angle_dic
+        self.angle_dic = dict(angle_dic)
 
         if type(initializer) is list and len(initializer) > 1:
             self._num_of_images = len(initializer)
@@ -124,7 +124,7 @@ class MicropolImage(Image):
     def _import_image_parameters(self, image: MicropolImage):
         self.header = image.header.copy()
         self.data = image.data.copy()
-        self.angle_dic = image.angle_dic
+        self.angle_dic = dict(image.angle_dic)
         self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
-- 
2.43.0


From fc43b97bf54dceba6af58c4043b9545a7bbc4617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 36/55] fix: the fit flags of an opened calibration stayed
 mapped to its file and changed when that was rewritten

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index e446d36..60a462d 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -185,7 +185,7 @@ class Demodulator:
                     Mij[i, j] = hul[0].data
             if Path(filename).stem == "fit_found_flag":
                 with fits.open(filename) as hul:
-                    fit_found_flags = hul[0].data
+                    fit_found_flags = np.array(hul[0].data)
 
         if len(matches) != 12:
             raise ValueError(
-- 
2.43.0


From 0a7e5f872a6d2a93068ad682ccc88611da4cdad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 37/55] fix: normalizing a list of angles overwrote the list
 that was passed in

---
 micropolarray/polarization_functions.py | 1 +
 micropolarray/utils.py                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/micropolarray/polarization_functions.py b/micropolarray/polarization_functions.py
index 7bfcab4..a37e2ba 100644
--- a/micropolarray/polarization_functions.py
+++ b/micropolarray/polarization_functions.py
@@ -78,6 +78,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)  # leave the input list as it is
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index c835433..bd35c99 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -130,6 +130,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)  # leave the input list as it is
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
-- 
2.43.0


From 2936d416fafda9de7b1402c4cc1cc59530caa6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 38/55] fix: aligning keywords and data also changed the header
 that was passed in, so a second call broke its date

---
 micropolarray/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index bd35c99..6d03539 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -170,6 +170,7 @@ def align_keywords_and_data(header, data, sun_center, platescale, binning=1):
         header, data: new fixed header and data
     """
 
+    header = header.copy()
     single_pol_images = split_polarizations(data)
     # data = np.rot90(data, k=-1)
     # data = np.flip(data, axis=0)
-- 
2.43.0


From 72394cd645dcff824947b9cade6b20598597c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 39/55] fix: trimming an odd-sized array to superpixel binning
 never ended

---
 micropolarray/processing/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/rebin.py b/micropolarray/processing/rebin.py
index 3367153..35dc11f 100644
--- a/micropolarray/processing/rebin.py
+++ b/micropolarray/processing/rebin.py
@@ -129,10 +129,10 @@ def trim_to_match_2xbinning(height: int, width: int, binning: int):
     new_width = width
     new_height = height
     while new_width % (2 * binning):
-        new_width -= 2
+        new_width -= 1
         trimmed = True
     while new_height % (2 * binning):
-        new_height -= 2
+        new_height -= 1
         trimmed = True
     if trimmed:
         print_trimming_info(height, width, new_height, new_width)
-- 
2.43.0


From 6103027941dd3914f00abe01a4269481a8951192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 40/55] fix: repeated measurements of an orientation inflated
 the automatic normalization

---
 micropolarray/processing/demodulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 60a462d..d5f947a 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -433,7 +433,8 @@ def calculate_demodulation_tensor(
                 norm_S_angle_list = chosen_norm
         for pol, image in zip(polarizer_orientations, all_data_arr):
             if pol in norm_S_angle_list:
-                S_max += 0.5 * image
+                # orientations may be measured more than once
+                S_max += 0.5 * image / polarizer_orientations.count(pol)
         # Normalizing S, has a spike of which maximum is taken
         bins = 1000
         histo = np.histogram(S_max, bins=bins)
-- 
2.43.0


From 159935a88859e28774991c3539848503cacbb64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 41/55] fix: demosaiced images were left behind when an image
 is rotated or resampled

---
 micropolarray/micropol_image.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 254bbee..2f4e2a9 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -905,6 +905,13 @@ class MicropolImage(Image):
             congrid(stokes_component, [newdim_y, newdim_x])
             for stokes_component in self.Stokes_vec
         ]
+        if newimage._is_demosaiced:  # follow the parameters
+            newimage.demosaiced_images = np.array(
+                [
+                    congrid(demo_image, [newdim_y, newdim_x])
+                    for demo_image in self.demosaiced_images
+                ]
+            )
         return newimage
 
     def rotate(self, angle: float) -> MicropolImage:
@@ -925,6 +932,11 @@ class MicropolImage(Image):
         newimage = MicropolImage(self)
         newimage.data = data
         newimage.Stokes_vec = Stokes_vec
+        if newimage._is_demosaiced:  # follow the parameters
+            for i in range(4):
+                image = PILImage.fromarray(newimage.demosaiced_images[i])
+                image = image.rotate(angle)
+                newimage.demosaiced_images[i] = np.asarray(image, dtype=float)
 
         return newimage
 
-- 
2.43.0


From d7c4ec4847fc74a5d98f46d094421bc079a5db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 42/55] fix: unfitted pixels of an image demodulated or
 demosaiced before did not get the uncorrected parameters

---
 micropolarray/micropol_image.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 2f4e2a9..d2a81bc 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -268,17 +268,18 @@ class MicropolImage(Image):
         info("Image correctly demodulated")
         return demodulated_image
 
-    def _get_theo_Stokes_vec_components(self) -> np.array:
+    def _get_theo_Stokes_vec_components(self, subimages: np.ndarray = None) -> np.array:
         """
         Computes stokes vector components from four polarized images at four angles, angle_dic describes the coupling between
         poled_images_array[i] <--> angle_dic[i]
         Return:
             stokes vector, shape=(3, poled_images.shape[1], poled_images.shape[0])
         """
-        if self._is_demosaiced:
-            subimages = self.demosaiced_images
-        else:
-            subimages = self.single_pol_subimages
+        if subimages is None:
+            if self._is_demosaiced:
+                subimages = self.demosaiced_images
+            else:
+                subimages = self.single_pol_subimages
         I = 0.5 * np.sum(subimages, axis=0)
         Q = subimages[self.angle_dic[0]] - subimages[self.angle_dic[90]]
         U = subimages[self.angle_dic[45]] - subimages[self.angle_dic[-45]]
@@ -385,6 +386,9 @@ class MicropolImage(Image):
         # use theo stokes where fit wasn't found
         if demodulator.fit_found_flags is not None:
             theo_S = self.Stokes_vec
+            if self._is_demodulated or theo_S[0].shape != splitted_pols[0].shape:
+                # Stokes_vec comes from a demosaicing or another demodulation
+                theo_S = self._get_theo_Stokes_vec_components(splitted_pols)
             S = np.where(fit_found_flags == 1.0, S, theo_S)
 
         return S
-- 
2.43.0


From 66cae995ba4961c1ae56723a70dd468a9b0687d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 43/55] fix: Chen-Wan-Liang calibration failed when no flat was
 given

---
 micropolarray/processing/chen_wan_liang_calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 21b43d1..268b821 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -98,8 +98,9 @@ def calculate_chen_wan_lian_calibration(
         if occulter:
             flat = np.where(occulter_flag, 1.0, flat)
 
-    flat_max = np.max(flat, axis=(0, 1))
-    normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
+    if flat_filename:
+        flat_max = np.max(flat, axis=(0, 1))
+        normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
 
     all_data_arr = [0.0] * filenames_n
     for idx, filename in enumerate(filenames_list):
-- 
2.43.0


From 34b8bd4ccddc7f8f0aa19b1952f7c64985db5d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 44/55] fix: default occulter of the Chen-Wan-Liang calibration
 referred to a position that does not exist

---
 micropolarray/processing/chen_wan_liang_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 268b821..d5ec849 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -66,7 +66,7 @@ def calculate_chen_wan_lian_calibration(
         # Mean values from coronal observations 2022_12_03
         # (campagna_2022/mean_occulter_pos.py)
 
-        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_nov2022
+        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_last
         occulter_r += 10  # Better to overoccult
 
         occulter_flag = roi_from_polar(
-- 
2.43.0


From efc720452459c904d11a450938a224b97488889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 45/55] fix: Chen-Wan-Liang calibration wrapped around or
 failed for integer images with a dark

---
 micropolarray/processing/chen_wan_liang_calibration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index d5ec849..c41712a 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -87,11 +87,11 @@ def calculate_chen_wan_lian_calibration(
     # Collect dark
     if dark_filename:
         with fits.open(dark_filename) as file:
-            dark = file[0].data
+            dark = np.array(file[0].data, dtype=float)
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = file[0].data
+            flat = np.array(file[0].data, dtype=float)
     if flat_filename and dark_filename:
         flat -= dark  # correct flat too
         flat = np.where(flat > 0, flat, 1.0)
@@ -105,7 +105,7 @@ def calculate_chen_wan_lian_calibration(
     all_data_arr = [0.0] * filenames_n
     for idx, filename in enumerate(filenames_list):
         with fits.open(filename) as file:
-            all_data_arr[idx] = file[0].data
+            all_data_arr[idx] = np.array(file[0].data, dtype=float)
             if dark_filename is not None:
                 all_data_arr[idx] -= dark
                 all_data_arr[idx] = np.where(
-- 
2.43.0


From 9151ea42fbab52e9fe727a94d96afb11319ccf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 46/55] fix: Chen-Wan-Liang calibration could not write to
 nested or dotted output folders

---
 micropolarray/processing/chen_wan_liang_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index c41712a..5449006 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -9,7 +9,6 @@ from tqdm import tqdm
 
 from micropolarray.cameras import PolarCam
 from micropolarray.processing.nrgf import roi_from_polar
-from micropolarray.utils import _make_abs_and_create_dir
 
 
 def calculate_chen_wan_lian_calibration(
@@ -211,7 +210,8 @@ def calculate_chen_wan_lian_calibration(
     C_ij = np.mean(C_ij, axis=0)
     d_ij = np.mean(d_ij, axis=0)
 
-    output_dir = _make_abs_and_create_dir(output_dir)
+    Path(output_dir).mkdir(parents=True, exist_ok=True)
+    output_dir = str(output_dir)
     for i in range(4):
         for j in range(4):
             hdu = fits.PrimaryHDU(data=C_ij[i, j])
-- 
2.43.0


From adbf17d9139fe015f35644e4ef53432b29e971fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 47/55] fix: stored reduced chi-square was not a chi-square and
 infinite for four angles

---
 micropolarray/processing/demodulation.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d5f947a..d8e7eb3 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -788,13 +788,11 @@ def compute_demodulation_by_chunk(
     N_MALUS_PARAMS = 3
     N_PIXELS_IN_SUPERPIX = 4
 
-    dof = len(polarizer_orientations) - 2
+    dof = len(polarizer_orientations) - N_MALUS_PARAMS
     if tk_boundary is None:
         tk_boundary = [0.5, 0.1, 1.0 - 1.0e-6]
-        dof -= 1
     if eff_boundary is None:
         eff_boundary = [0.5, 0.1, 1.0 - 1.0e-6]
-        dof -= 1
 
     # Preemptly compute the theoretical demo matrix to save time
     theo_modulation_matrix = np.array(
@@ -931,8 +929,7 @@ def compute_demodulation_by_chunk(
                             - normalized_superpix_arr[:, pixel_num]
                         )
                         chisq[pixel_num] = (
-                            np.sum((residuals * residuals) / sigma_pix[:, pixel_num])
-                            / dof
+                            np.sum((residuals / sigma_pix[:, pixel_num]) ** 2) / dof
                         )
 
                     except:  # catches all exceptions
-- 
2.43.0


From d92c7388430266868e9161b6a24951da1d21fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:28 +0000
Subject: [PATCH 48/55] fix: exporting from two threads into the same new
 folder could fail with FileExistsError

---
 micropolarray/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index 6d03539..6e1b53f 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -38,11 +38,9 @@ def _make_abs_and_create_dir(filename: str):
         path = path.joinpath(Path().cwd(), path)
 
     if path.suffix:
-        if not path.parent.exists():
-            path.parent.mkdir(parents=True)
+        path.parent.mkdir(parents=True, exist_ok=True)
     else:
-        if not path.exists():
-            path.mkdir()
+        path.mkdir(exist_ok=True)
     return str(path)
 
 
-- 
2.43.0


From 8455de589bd2655442f9cb09bd86bba9ea4b7a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:28 +0000
Subject: [PATCH 49/55] fix: assigning pixels that are not two-dimensional
 raised an error but replaced the pixels

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 02f8a16..1588289 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -133,8 +133,8 @@ class Image:
     def data(self, input_data: np.array):
         """Set image data and derived polarization informations, and
         consequently change header."""
+        self.height, self.width = input_data.shape  # refuses anything but 2d data
         self._data = input_data
-        self.height, self.width = input_data.shape
         if self.header is None:
             self.header = fits.PrimaryHDU(data=input_data).header
         else:
-- 
2.43.0


From 6cec105eb24071523a1293b83905dc318294d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 50/55] fix: saving a raw frame lost its last bytes without an
 error on a full disk

---
 micropolarray/image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 1588289..c73b2ec 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -229,7 +229,9 @@ class Image:
         print(self.data.shape)
         if Path(filename).suffix != ".raw":
             raise ValueError("Filename must have .raw extension")
-        self.data.astype("int16").tofile(filename)
+        data = self.data.astype("int16")
+        with open(filename, "wb") as file:  # tofile() misses errors on closing
+            file.write(data.tobytes())
 
     # ----------------------------------------------------------------
     # ------------------------------ SHOW ----------------------------
-- 
2.43.0


From df338fb336172fbced9445e3528e34288d477cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 51/55] fix: the automatic normalization failed when the most
 frequent level is within ten bins of an end of the histogram

---
 micropolarray/processing/demodulation.py | 13 +++++++------
 micropolarray/utils.py                   | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d8e7eb3..1ab7a9a 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -457,8 +457,10 @@ def calculate_demodulation_tensor(
             return norm * np.exp(-((x - x_0) ** 2) / (4 * sigma**2))
 
         hist_roi = 10  # bins around max value
-        xvalues = np.array(histo[1])[index - hist_roi : index + hist_roi]
-        yvalues = np.array(histo[0])[index - hist_roi : index + hist_roi]
+        first = max(index - hist_roi, 0)  # the spike may be next to an end
+        last = min(index + hist_roi, bins)
+        xvalues = np.array(histo[1])[first:last]
+        yvalues = np.array(histo[0])[first:last]
         yvalues_sum = np.sum(yvalues)
 
         yvalues = yvalues / yvalues_sum
@@ -466,10 +468,9 @@ def calculate_demodulation_tensor(
             [value + (xvalues[1] - xvalues[0]) / 2 for value in xvalues]
         )  # shift each bin to center
         prediction = [
-            yvalues[int(len(yvalues) / 2)],  # normalization
-            xvalues[int(len(xvalues) / 2)],  # center
-            xvalues[int(len(xvalues) / 2) + int(hist_roi / 2)]
-            - xvalues[int(len(xvalues) / 2)],  # sigma
+            yvalues[index - first],  # normalization
+            xvalues[index - first],  # center
+            int(hist_roi / 2) * (xvalues[1] - xvalues[0]),  # sigma
         ]
         params, cov = curve_fit(
             gauss,
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index 6e1b53f..c725371 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -264,18 +264,19 @@ def get_malus_normalization(four_peaks_images, show_hist=False):
         return norm * np.exp(-((x - x_0) ** 2) / (4 * sigma**2))
 
     hist_roi = 10  # bins around max value
-    xvalues = np.array(histo[1])[index - hist_roi : index + hist_roi]
-    yvalues = np.array(histo[0])[index - hist_roi : index + hist_roi]
+    first = max(index - hist_roi, 0)  # the spike may be next to an end
+    last = min(index + hist_roi, bins)
+    xvalues = np.array(histo[1])[first:last]
+    yvalues = np.array(histo[0])[first:last]
     yvalues_sum = np.sum(yvalues)
     yvalues = yvalues / yvalues_sum
     xvalues = np.array(
         [value + (xvalues[1] - xvalues[0]) / 2 for value in xvalues]
     )  # shift each bin to center
     prediction = [
-        yvalues[int(len(yvalues) / 2)],  # normalization
-        xvalues[int(len(xvalues) / 2)],  # center
-        xvalues[int(len(xvalues) / 2) + int(hist_roi / 2)]
-        - xvalues[int(len(xvalues) / 2)],  # sigma
+        yvalues[index - first],  # normalization
+        xvalues[index - first],  # center
+        int(hist_roi / 2) * (xvalues[1] - xvalues[0]),  # sigma
     ]
     params, cov = curve_fit(
         gauss,
-- 
2.43.0


From b70406216c94e1a30faca31d13e840416e3816fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 52/55] fix: the fitted width of the histogram spike can be
 negative, giving a normalization below the spike

---
 micropolarray/processing/demodulation.py | 2 +-
 micropolarray/utils.py                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 1ab7a9a..869572b 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -478,7 +478,7 @@ def calculate_demodulation_tensor(
             yvalues,
             prediction,
         )
-        normalizing_S = params[1] + 4 * params[2]  # center of gaussian + 2sigma
+        normalizing_S = params[1] + 4 * abs(params[2])  # center of gaussian + 2sigma
         # 3sigma -> P = 2.7e-3 outliers
         # 4sigma -> P = 6.3e-5 outliers
         # ----------------------------------------------
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index c725371..0a51c25 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -284,7 +284,7 @@ def get_malus_normalization(four_peaks_images, show_hist=False):
         yvalues,
         prediction,
     )
-    normalizing_S = params[1] + 4 * params[2]  # center of gaussian + 2sigma
+    normalizing_S = params[1] + 4 * abs(params[2])  # center of gaussian + 2sigma
     # 3sigma -> P = 2.7e-3 outliers
     # 4sigma -> P = 6.3e-5 outliers
     # ----------------------------------------------
-- 
2.43.0


From 24d1cdabe9f6c6dc870dd9408e13d7c0881f651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 53/55] fix: calibrations in folders with special characters
 ([, *, ?) in their names could not be opened

---
 micropolarray/processing/demodulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 869572b..290846d 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -43,7 +43,9 @@ class Demodulator:
     @property
     def Cij(self) -> np.ndarray:
         covariance_tensor_fnames = glob.glob(
-            os.path.join(self.demo_matrices_path, "covariance_tensor", "*")
+            os.path.join(
+                glob.escape(self.demo_matrices_path), "covariance_tensor", "*"
+            )
         )
 
         if not covariance_tensor_fnames:
@@ -149,7 +151,9 @@ class Demodulator:
             raise FileNotFoundError("self.demo_matrices_path not found.")
 
         # look for first matrix file and get dimensions
-        filenames_list = glob.glob(self.demo_matrices_path + os.path.sep + "*.fits")
+        filenames_list = glob.glob(
+            glob.escape(self.demo_matrices_path) + os.path.sep + "*.fits"
+        )
         if not filenames_list:
             raise FileNotFoundError("No fits files in selected folder.")
 
-- 
2.43.0


From 98db91e3ffac41a0f61086cd360843a57521193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 54/55] fix: masking the occulter used half the coordinates for
 resampled images, and full ones for demosaiced images calibrated per
 superpixel

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index d2a81bc..754859d 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -979,7 +979,7 @@ class MicropolImage(Image):
                 for data in self.demosaiced_images
             ]
 
-        if not self._is_demosaiced:
+        if self.Stokes_vec[0].shape != self.data.shape:  # one per superpixel
             y = int(y / 2)
             x = int(x / 2)
             r = int(r / 2)
-- 
2.43.0


From c5126f534bbab3bcb5205422bf2be85af2d96495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:36 +0000
Subject: [PATCH 55/55] fix: images could not be made from memory-mapped arrays
 and other ndarray subclasses

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index c73b2ec..a97841b 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -33,7 +33,7 @@ class Image:
         self.header = None
         if type(initializer) is str or type(initializer) is list:
             self._init_image_from_file(initializer, averageimages)
-        elif type(initializer) is np.ndarray:
+        elif isinstance(initializer, np.ndarray):
             self._init_image_from_data(initializer)
             self.new_data = initializer
         elif isinstance(initializer, Image):
-- 
2.43.0


From dc32f1e67457f4c176682c3104daed1d152695f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 01/41] fix: round_significant used np.int, which numpy removed

compare_xml caught the AttributeError and reported FAIL for every value.
---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 8464780..246c055 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -512,7 +512,7 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     if v == 0.0:
         return 0.0
-    return round(v, sig - np.int(np.floor(np.log10(np.abs(v)))) - 1)
+    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
 round_array = np.vectorize(round_significant)
-- 
2.43.0


From 09ea79c62045d33dfbdfca4d786ec51d9be718ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 02/41] fix: xml_to_dict could not parse XML given as text

lxml has no etree.ElementTree.fromstring, so the text form always gave None.
---
 src/emva1288/process/routines.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 246c055..cd4bd64 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -460,9 +460,9 @@ def xml_to_dict(xml):
     '''
     try:
         if os.path.isfile(xml):
-            tree = etree.parse(xml)
+            root = etree.parse(xml).getroot()
         else:
-            tree = etree.ElementTree.fromstring(xml)
+            root = etree.fromstring(xml)
     except:
         print('Problems loading XML')
         return None
@@ -483,7 +483,6 @@ def xml_to_dict(xml):
                 dout[child.tag.lower()] = child.text
         return dout
 
-    root = tree.getroot()
     d = element_to_dict(root)
     # loop to reconstruct arrays from strings in Data elements
     for section, method in d.items():
-- 
2.43.0


From c01a44cb6c4ef45ab4909e42a6a92fbf74cbc69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 03/41] fix: compare_xml broadcast arrays of different length

A single element array was OK against any array repeating that element.
---
 src/emva1288/process/routines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index cd4bd64..800aadc 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -592,8 +592,9 @@ def compare_xml(x1, x2, filename=None):
                     # loop throught the keys
                     for k in k1:
                         try:
-                            r = np.max(np.abs(round_array(a1[k]) -
-                                              round_array(a2[k]))) == 0.0
+                            r = (len(a1[k]) == len(a2[k]) and
+                                 np.max(np.abs(round_array(a1[k]) -
+                                               round_array(a2[k]))) == 0.0)
                         except:
                             r = False
 
-- 
2.43.0


From dbe551c6c5ba0a34c7e4af8754e9a95d5009ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 04/41] fix: Histogram1288 counted masked pixels and overflowed
 small types

np.histogram drops the mask of a masked array, and ymax - ymin + 1 or the
bin limits may not fit in the pixel type (uint8 image from 0 to 255).
---
 src/emva1288/process/routines.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 800aadc..2cc6f64 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -250,10 +250,12 @@ def GetFrecs(fft):
 
 
 def Histogram1288(img, Qmax):
-    y = np.ravel(img)
+    # only the unmasked pixels, np.histogram ignores the mask
+    y = np.ma.compressed(img)
 
-    ymin = np.min(y)
-    ymax = np.max(y)
+    # python numbers, the bin limits may not fit in the type of the image
+    ymin = np.min(y).item()
+    ymax = np.max(y).item()
 
     # Because we are working with integers, minimum binwidth is 1
     W = 1
-- 
2.43.0


From f99d22db3035a13d90cbb2a786381639c9e86e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 05/41] fix: GetFrecs returned wrong spatial frequencies

FFT1288 returns cols // 2 + 1 entries, so entry k is at k / cols cycles per
pixel; it was drawn at k / (2 * (cols // 2 + 1)).
---
 src/emva1288/process/plotting.py | 16 ++++++++++++----
 src/emva1288/process/routines.py | 16 ++++++++++++++--
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 3ab6bb9..79a280c 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -367,6 +367,12 @@ class PlotDeviationLinearity(Emva1288Plot):
         self.ax.ticklabel_format(axis='x', style='sci', scilimits=(1, 4))
 
 
+def _fft_cols(img, rotate=False):
+    '''Number of columns FFT1288 uses for this image'''
+    valid = np.ma.count(img, axis=0 if rotate else 1)
+    return np.min(valid[valid > 0])
+
+
 class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
     '''Create Horizontal spectrogram PRNU plot'''
 
@@ -384,7 +390,7 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(data) / data_mean
 
-        ax.plot(routines.GetFrecs(spectrogram),
+        ax.plot(routines.GetFrecs(spectrogram, _fft_cols(data)),
                 (np.sqrt(spectrogram)),
                 label='Data',
                 gid='%d:data' % test.id)
@@ -417,7 +423,8 @@ class PlotHorizontalSpectrogramDSNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        n=test.spatial['L'])
-        ax.plot(routines.GetFrecs(spectrogram),
+        ax.plot(routines.GetFrecs(spectrogram,
+                                  _fft_cols(test.spatial['sum_dark'])),
                 np.sqrt(spectrogram),
                 label='Data',
                 gid='%d:data' % test.id)
@@ -452,7 +459,7 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
         data_mean = np.mean(data)
         spectrogram = routines.FFT1288(data, rotate=True) / data_mean
 
-        ax.plot((routines.GetFrecs(spectrogram)),
+        ax.plot(routines.GetFrecs(spectrogram, _fft_cols(data, True)),
                 (np.sqrt(spectrogram)),
                 label='Data',
                 gid='%d:data' % test.id)
@@ -486,7 +493,8 @@ class PlotVerticalSpectrogramDSNU(Emva1288Plot):
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        rotate=True,
                                        n=test.spatial['L'])
-        ax.plot(routines.GetFrecs(spectrogram),
+        ax.plot(routines.GetFrecs(spectrogram,
+                                  _fft_cols(test.spatial['sum_dark'], True)),
                 np.sqrt(spectrogram),
                 label='Data',
                 gid='%d:data' % test.id)
diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 2cc6f64..07f9a6f 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -242,10 +242,22 @@ def _row_wise_compress(img):
     return compressed[:lines, :cols]
 
 
-def GetFrecs(fft):
+def GetFrecs(fft, cols=None):
+    '''Spatial frequencies (cycles/pixel) of the FFT1288 entries
+
+    Parameters
+    ----------
+    fft : array
+        The spectrum from FFT1288 (cols // 2 + 1 entries)
+    cols : int (optional)
+        Number of columns that went into the FFT. It is needed for an odd
+        number of columns, by default it is the even one.
+    '''
     n = len(fft)
+    if cols is None:
+        cols = max(2 * (n - 1), 1)
     x = np.arange(n)
-    x = x * 1.0 / (2 * n)
+    x = x * 1.0 / cols
     return x
 
 
-- 
2.43.0


From 171d08a82d70c670d9bcf68c08c7e869536809d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 06/41] fix: DSNU spectrograms divided the dark sum by the
 bright stack size

---
 src/emva1288/process/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 79a280c..4f45b0a 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -422,7 +422,7 @@ class PlotHorizontalSpectrogramDSNU(Emva1288Plot):
         ax = self.ax
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram,
                                   _fft_cols(test.spatial['sum_dark'])),
                 np.sqrt(spectrogram),
@@ -492,7 +492,7 @@ class PlotVerticalSpectrogramDSNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        rotate=True,
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram,
                                   _fft_cols(test.spatial['sum_dark'], True)),
                 np.sqrt(spectrogram),
-- 
2.43.0


From 97655b0332133a7c58cc80d4058cfa1eb034a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 07/41] fix: dark correction mixed image sums of different
 stack sizes

PRNU histograms, PRNU spectrograms and profiles subtracted the dark sum from
the bright sum, which is only right when both stacks have the same size.
---
 src/emva1288/process/plotting.py | 13 ++++++-------
 src/emva1288/process/results.py  | 20 ++++++++++++++++----
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 4f45b0a..6209400 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -384,8 +384,8 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
     def plot(self, test):
         ax = self.ax
 
-        data = (test.spatial['sum'] - test.spatial['sum_dark'])
-        data = data / test.spatial['L']
+        data = (test.spatial['sum'] / test.spatial['L'] -
+                test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
 
         spectrogram = routines.FFT1288(data) / data_mean
@@ -454,8 +454,8 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
 
     def plot(self, test):
         ax = self.ax
-        data = test.spatial['sum'] - test.spatial['sum_dark']
-        data = data / test.spatial['L']
+        data = (test.spatial['sum'] / test.spatial['L'] -
+                test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
         spectrogram = routines.FFT1288(data, rotate=True) / data_mean
 
@@ -699,9 +699,8 @@ class ProfileBase(Emva1288Plot):
         ax = self.ax
         ax2 = self.ax2
 
-        L = test.spatial['L']
-        bimg = (test.spatial['sum'] - test.spatial['sum_dark']) / L
-        dimg = test.spatial['sum_dark'] / L
+        dimg = test.spatial['sum_dark'] / test.spatial['L_dark']
+        bimg = test.spatial['sum'] / test.spatial['L'] - dimg
         profiles = self.get_profiles(bimg, dimg)
 
         # to keep the lines number for legend
diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 051689f..c56fe4c 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -9,6 +9,7 @@ values.
 """
 
 import logging
+import math
 import numpy as np
 from emva1288.process import routines
 from scipy.ndimage import convolve
@@ -1110,6 +1111,17 @@ class Results1288(object):
         return (np.sqrt(self.s_2_y_pixel - self.s_2_y_pixel_dark) * 100 /
                 (self.spatial['avg_mean'] - self.spatial['avg_mean_dark']))
 
+    def _upscaled_bright(self):
+        # The dark corrected bright image, upscaled to have only integers
+        # (bright and dark may have been averaged over a different number
+        # of images) and its scale
+        L = int(self.spatial['L'])
+        L_dark = int(self.spatial['L_dark'])
+        scale = L * L_dark // math.gcd(L, L_dark)
+        y = (self.spatial['sum'] * (scale // L) -
+             self.spatial['sum_dark'] * (scale // L_dark))
+        return y, scale
+
     @property
     def histogram_PRNU(self):
         """PRNU histogram.
@@ -1125,14 +1137,14 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, scale = self._upscaled_bright()
         # Applying the filter on the image
         data = routines.high_pass_filter(y, 5)
         y = data['img']
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (scale * data['multiplicator'])
 
         return h
 
@@ -1151,7 +1163,7 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, scale = self._upscaled_bright()
         data = routines.high_pass_filter(y, 5)
         y = data['img']
         # For the accumulated histogram substract the mean
@@ -1159,7 +1171,7 @@ class Results1288(object):
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (scale * data['multiplicator'])
 
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
-- 
2.43.0


From e616f19459c11a6951ee0cc4019a232e499d1fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 08/41] fix: PRNU spectrograms were not in percent of the
 signal

The axis, PRNU1288 and the stack noise in the same plot are in percent, the
curve was sqrt(power / mean).
---
 src/emva1288/process/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 6209400..f88fd01 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -388,10 +388,10 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
                 test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
 
-        spectrogram = routines.FFT1288(data) / data_mean
+        spectrogram = routines.FFT1288(data)
 
         ax.plot(routines.GetFrecs(spectrogram, _fft_cols(data)),
-                (np.sqrt(spectrogram)),
+                100 * np.sqrt(spectrogram) / data_mean,
                 label='Data',
                 gid='%d:data' % test.id)
 
@@ -457,10 +457,10 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
         data = (test.spatial['sum'] / test.spatial['L'] -
                 test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
-        spectrogram = routines.FFT1288(data, rotate=True) / data_mean
+        spectrogram = routines.FFT1288(data, rotate=True)
 
         ax.plot(routines.GetFrecs(spectrogram, _fft_cols(data, True)),
-                (np.sqrt(spectrogram)),
+                100 * np.sqrt(spectrogram) / data_mean,
                 label='Data',
                 gid='%d:data' % test.id)
 
-- 
2.43.0


From d61152989884b3a5670f5e047b79cd0bcdcdb319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 09/41] fix: accumulated histograms counted masked pixels in
 the total

---
 src/emva1288/process/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index c56fe4c..f9bffeb 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -1176,7 +1176,7 @@ class Results1288(object):
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
@@ -1231,7 +1231,7 @@ class Results1288(object):
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
 
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
-- 
2.43.0


From 40cee48537ca20b4365d1ba557b0d99b3b8f19b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 10/41] fix: saturation index at the first point

A forced index 0 was ignored, and at index 0 the scan took index 1 for the
next darker point, so a curve with its peak at index 1 gave 0.
---
 src/emva1288/process/results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index f9bffeb..06fa008 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -92,7 +92,7 @@ class Results1288(object):
             :Short: Saturation index
         """
 
-        if self._index_u_ysat:
+        if self._index_u_ysat is not None:
             return self._index_u_ysat
 
         max_ = 0
@@ -104,11 +104,11 @@ class Results1288(object):
         for i in range(len(s2_y) - 1, -1, -1):
             # Check that is not a local max
             if (s2_y[i] >= max_) or \
-               (s2_y[abs(i - 1)] >= max_):
+               (s2_y[max(i - 1, 0)] >= max_):
                 max_ = s2_y[i]
                 max_i = i
             elif (s2_y[i] < max_) and \
-                 (s2_y[abs(i - 1)] < max_):
+                 (s2_y[max(i - 1, 0)] < max_):
                 break
 
         self._index_u_ysat = max_i
-- 
2.43.0


From 8f6e4d06956a34676a528a640b835cb467b4703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 11/41] fix: Plotting1288 kept only the last of its tests

---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index f88fd01..3611f8e 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -855,7 +855,7 @@ class Plotting1288(object):
         for test in tests:
             if not getattr(test, 'id', False):
                 test.id = id(test)
-        self.tests.append(test)
+            self.tests.append(test)
 
     def plot(self, *plots):
         """Plot EMVA1288 plots
-- 
2.43.0


From 18b0c18fa910343eaa33b7c52ea2d8cbf5cdeffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 12/41] fix: accumulated histogram axes named the wrong units

The results are percentages of pixels over deviations in DN.
---
 src/emva1288/process/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 3611f8e..31cc44d 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -568,7 +568,7 @@ class PlotAccumulatedLogHistogramDSNU(Emva1288Plot):
 
     name = 'Accumulated log histogram DSNU'
     xlabel = 'Minimal deviation from the mean [DN]'
-    ylabel = 'Number of pixels'
+    ylabel = 'Percentage of pixels'
     yscale = 'log'
 
     def plot(self, test):
@@ -587,8 +587,8 @@ class PlotAccumulatedLogHistogramPRNU(Emva1288Plot):
     '''Create Accumulated log histogram PRNU plot'''
 
     name = 'Accumulated log histogram PRNU'
-    xlabel = 'Minimal deviation from the mean [%]'
-    ylabel = 'Number of pixels'
+    xlabel = 'Minimal deviation from the mean [DN]'
+    ylabel = 'Percentage of pixels'
     yscale = 'log'
 
     def plot(self, test):
-- 
2.43.0


From dcf015f3cf86af77a7f906ceda228b00fa2f7b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 13/41] fix: non-utf8 descriptor raised TypeError

UnicodeDecodeError cannot be built from a single message.
---
 src/emva1288/process/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/parser.py b/src/emva1288/process/parser.py
index 6747dde..5ece608 100755
--- a/src/emva1288/process/parser.py
+++ b/src/emva1288/process/parser.py
@@ -235,7 +235,7 @@ class ParseEmvaDescriptorFile(object):
         try:
             self._lines = [x.strip() for x in f.readlines() if x.strip() and
                            not x.strip().startswith('#')]
-        except UnicodeDecodeError:  # pragma: no cover
+        except UnicodeDecodeError as e:  # pragma: no cover
             # If there is an unknown character in the file, speak it!
-            raise UnicodeDecodeError("File: '%s', has non-utf8 characters."
-                                     "Find them and kill them!" % filename)
+            raise SyntaxError("File: '%s', has non-utf8 characters. "
+                              "Find them and kill them!" % filename) from e
-- 
2.43.0


From a4d3ecacf6a2ed3693be8ea822be04ab16c26e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 14/41] fix: Report1288 modified the information dictionaries
 of the caller

The paths inside of the report were written into the dictionaries given by the
caller, a second report with the same dictionaries looked for upload/... and
failed with FileNotFoundError.
---
 src/emva1288/report/report.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index a196c0a..f6078f2 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -202,9 +202,10 @@ class Report1288(object):
 
         self.renderer = self.template_renderer()
         self.ops = []
-        self.marketing = marketing or info_marketing()
-        self.basic = basic or info_basic()
-        self.setup = setup or info_setup()
+        # the report modifies its information, work on copies
+        self.marketing = dict(marketing or info_marketing())
+        self.basic = dict(basic or info_basic())
+        self.setup = (setup or info_setup()).copy()
         self.cover_page = cover_page
         self._make_dirs(outdir)
 
-- 
2.43.0


From 0b80e267397c38fcf8e35fb2be178f8c65f07a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 15/41] fix: Report1288.add kept and modified the dictionary of
 the caller

Adding a second point with the same dictionary replaced name, id, results and
plots of the first one.
---
 src/emva1288/report/report.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index f6078f2..5e8c3d7 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -374,6 +374,11 @@ class Report1288(object):
                :class:`~emva1288.process.results.Results1288` class.
         """
         n = len(self.ops) + 1
+        # the dictionary stays with the caller, who may reuse it
+        op = dict(op)
+        for key in ('camera_settings', 'test_parameters'):
+            if key in op:
+                op[key] = op[key].copy()
         op['id'] = 'OP%d' % (n)
         if not op['name']:
             op['name'] = op['id']
-- 
2.43.0


From 6c928dc8a386d152faa49f32c227c6f132847d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 16/41] fix: missing and undefined values in the report

Only the np.nan object was recognized as NaN, and most of the numbers did not
go through the filter, so computed NaN were printed as nan and None failed.
---
 src/emva1288/report/report.py               | 10 ++++-
 src/emva1288/report/templates/op.tex        | 48 ++++++++++-----------
 src/emva1288/report/templates/op_header.tex |  4 +-
 3 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 5e8c3d7..a0d03d9 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -239,16 +239,22 @@ class Report1288(object):
             comment_end_string='%#}',
             loader=jinja2.FileSystemLoader(dirname))
 
+        def ismissing(value):
+            if value is None or isinstance(value, jinja2.Undefined):
+                return True
+            # NaN is not necessarily the np.nan object
+            return isinstance(value, (float, np.floating)) and np.isnan(value)
+
         def missingnumber(value, precision):
             # Filter for missing numbers
-            if value in (None, np.nan):
+            if ismissing(value):
                 return '-'
             t = '{:.%df}' % precision
             return t.format(value)
 
         def missingfilter(value, default='-'):
             # General filter for missing objects that are not numbers
-            if value in (None, np.nan):
+            if ismissing(value):
                 return default
             return value
 
diff --git a/src/emva1288/report/templates/op.tex b/src/emva1288/report/templates/op.tex
index d940bb7..199d339 100644
--- a/src/emva1288/report/templates/op.tex
+++ b/src/emva1288/report/templates/op.tex
@@ -21,44 +21,44 @@
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.QE.short %}} }} \\
 
 %{{ op.results.sensitivity.QE.symbol %}} &
-%{{ '%.2f' % op.results.sensitivity.QE.value %}} &
+%{{ op.results.sensitivity.QE.value|missingnumber(2) %}} &
 %{{ op.results.sensitivity.QE.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.K.short %}}}} \\
 
 %{{ op.results.sensitivity.K.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.K.value %}} &
+%{{ op.results.sensitivity.K.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.K.unit %}} \\
 
 %{{ op.results.sensitivity.inverse_K.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.inverse_K.value %}} &
+%{{ op.results.sensitivity.inverse_K.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.inverse_K.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{Temporal dark noise}} \\
 
 %{{ op.results.sensitivity.sigma_d.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.sigma_d.value %}} &
+%{{ op.results.sensitivity.sigma_d.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.sigma_d.unit %}} \\
 
 %{{ op.results.sensitivity.sigma_y_dark.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.sigma_y_dark.value %}} &
+%{{ op.results.sensitivity.sigma_y_dark.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.sigma_y_dark.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.SNR_max.short %}}}} \\
 
 %{{ op.results.sensitivity.SNR_max.symbol %}} &
-%{{ '%.0f' % op.results.sensitivity.SNR_max.value %}} \\
+%{{ op.results.sensitivity.SNR_max.value|missingnumber(0) %}} \\
 
 & % %{{ op.results.sensitivity.SNR_max_dB.symbol %}} &
-%{{ '%.2f' % op.results.sensitivity.SNR_max_dB.value %}} &
+%{{ op.results.sensitivity.SNR_max_dB.value|missingnumber(2) %}} &
 %{{ op.results.sensitivity.SNR_max_dB.unit %}} \\
 
 & % %{{ op.results.sensitivity.SNR_max_bit.symbol %}} &
-%{{ '%.1f' % op.results.sensitivity.SNR_max_bit.value %}} &
+%{{ op.results.sensitivity.SNR_max_bit.value|missingnumber(1) %}} &
 %{{ op.results.sensitivity.SNR_max_bit.unit %}} \\
 
 %{{ op.results.sensitivity.inverse_SNR_max.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.inverse_SNR_max.value %}} &
+%{{ op.results.sensitivity.inverse_SNR_max.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.inverse_SNR_max.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.u_p_min.short %}}}} \\
@@ -72,7 +72,7 @@
 %{{ op.results.sensitivity.u_p_min_area.unit %}} \\
 
 %{{ op.results.sensitivity.u_e_min.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.u_e_min.value %}} &
+%{{ op.results.sensitivity.u_e_min.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.u_e_min.unit %}} \\
 
 %{{ op.results.sensitivity.u_e_min_area.symbol %}} &
@@ -83,7 +83,7 @@
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.u_p_sat.short %}}}} \\
 
 %{{ op.results.sensitivity.u_p_sat.symbol %}}  &
-%{{ '%.0f' % op.results.sensitivity.u_p_sat.value %}} &
+%{{ op.results.sensitivity.u_p_sat.value|missingnumber(0) %}} &
 %{{ op.results.sensitivity.u_p_sat.unit %}} \\
 
 %{{ op.results.sensitivity.u_p_sat_area.symbol %}}  &
@@ -91,7 +91,7 @@
 %{{ op.results.sensitivity.u_p_sat_area.unit %}} \\
 
 %{{ op.results.sensitivity.u_e_sat.symbol %}} &
-%{{ '%.0f' % op.results.sensitivity.u_e_sat.value %}} &
+%{{ op.results.sensitivity.u_e_sat.value|missingnumber(0) %}} &
 %{{ op.results.sensitivity.u_e_sat.unit %}} \\
 
 %{{ op.results.sensitivity.u_e_sat_area.symbol %}} &
@@ -102,54 +102,54 @@
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.DR.short %}}}} \\
 
 %{{ op.results.sensitivity.DR.symbol %}} &
-%{{ '%.0f' % op.results.sensitivity.DR.value %}} \\
+%{{ op.results.sensitivity.DR.value|missingnumber(0) %}} \\
 
 & % %{{ op.results.sensitivity.DR_dB.symbol %}} &
-%{{ '%.1f' % op.results.sensitivity.DR_dB.value %}} &
+%{{ op.results.sensitivity.DR_dB.value|missingnumber(1) %}} &
 %{{ op.results.sensitivity.DR_dB.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{Spatial Nonuniformities}} \\
 
 %{{ op.results.spatial.DSNU1288.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288.value %}} &
+%{{ op.results.spatial.DSNU1288.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288.unit %}} \\
 
 %{{ op.results.spatial.DSNU1288_row.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288_row.value %}} &
+%{{ op.results.spatial.DSNU1288_row.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288_row.unit %}} \\
 
 %{{ op.results.spatial.DSNU1288_col.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288_col.value %}} &
+%{{ op.results.spatial.DSNU1288_col.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288_col.unit %}} \\
 
 %{{ op.results.spatial.DSNU1288_pixel.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288_pixel.value %}} &
+%{{ op.results.spatial.DSNU1288_pixel.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288_pixel.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288.value %}} &
+%{{ op.results.spatial.PRNU1288.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288_row.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288_row.value %}} &
+%{{ op.results.spatial.PRNU1288_row.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288_row.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288_col.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288_col.value %}} &
+%{{ op.results.spatial.PRNU1288_col.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288_col.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288_pixel.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288_pixel.value %}} &
+%{{ op.results.spatial.PRNU1288_pixel.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288_pixel.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{Linearity error}} \\
 
 %{{ op.results.linearity.LE_min.symbol %}} &
-%{{ '%.3f' % op.results.linearity.LE_min.value %}} &
+%{{ op.results.linearity.LE_min.value|missingnumber(3) %}} &
 %{{ op.results.linearity.LE_min.unit %}} \\
 
 %{{ op.results.linearity.LE_max.symbol %}} &
-%{{ '%.3f' % op.results.linearity.LE_max.value %}} &
+%{{ op.results.linearity.LE_max.value|missingnumber(3) %}} &
 %{{ op.results.linearity.LE_max.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{Dark current}} \\
diff --git a/src/emva1288/report/templates/op_header.tex b/src/emva1288/report/templates/op_header.tex
index 6d4752f..1b1a583 100644
--- a/src/emva1288/report/templates/op_header.tex
+++ b/src/emva1288/report/templates/op_header.tex
@@ -3,13 +3,13 @@
 \textbf{Camera setting} \hfill
 \\[1mm]
 %{ for key, value in op.camera_settings.items() -%}
-\textsl{%{{ key %}}} \hfill %{{ value %}}
+\textsl{%{{ key %}}} \hfill %{{ value|missing %}}
 \\[1mm]
 %{ endfor -%}
 \textbf{Operation point parameters}
 \\[1mm]
 %{ for key, value in op.test_parameters.items() -%}
-\textsl{%{{ key %}}} \hfill %{{ value %}}
+\textsl{%{{ key %}}} \hfill %{{ value|missing %}}
 \\[1mm]
 %{ endfor -%}
 \end{multicols}
-- 
2.43.0


From aff29a15d395ae64262786648fec706e1a2ed98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 17/41] fix: vendor missing in the report header

The vendor is part of the basic information.
---
 src/emva1288/report/templates/emvadatasheet.sty | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/templates/emvadatasheet.sty b/src/emva1288/report/templates/emvadatasheet.sty
index a531b4c..5f28f3a 100644
--- a/src/emva1288/report/templates/emvadatasheet.sty
+++ b/src/emva1288/report/templates/emvadatasheet.sty
@@ -22,7 +22,7 @@
 % Header
 \fancyhead{}%
 \fancyhead[LO,LE]{\includegraphics[height=12mm]{files/EMVA1288Logo.pdf}}
-\fancyhead[C]{\textbf{%{{ marketing.vendor %}} \, %{{ basic.model|missing %}}}}
+\fancyhead[C]{\textbf{%{{ basic.vendor|missing %}} \, %{{ basic.model|missing %}}}}
 \fancyhead[RE,RO]{\includegraphics[height=12mm]{%{{ marketing.logo %}}}}
 \renewcommand{\headrulewidth}{0.5pt}
 
-- 
2.43.0


From 1868148a8b3aff82bfe11be5a0ec4476a48781b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 18/41] fix: bad_pixel created too few defects

Positions were drawn with replacement, the documented bad_value None failed,
and the array given to the camera (maybe to several) was modified in place.
---
 src/emva1288/camera/bad_images.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index 0249389..7a7a80f 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -17,16 +17,21 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
                If None, the value will be the Full well capacity.
 
     """
-    # TODO: add error message if num_bad_pixel is higger than pixel_num
     # Set the bad value at the Full well capacity for the camera if 1.
+    if bad_value is None:
+        bad_value = 1
     bad_value = bad_value * cam._u_esat
     # Count the number of pixel in the camera
     pixel_num = cam.height * cam.width
     # Select the number of bad pixel in a 1D with number
     # for they futur position.
-    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel)
+    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel,
+                                          replace=False)
+    # the DSNU array may be shared with other cameras
+    dsnu = np.array(cam.DSNU, dtype=np.float64)
     # change the position in 1D to 2D.
     for i in bad_pixel_position:
         # Change the DSNU of the camera with the bad values
         # at the random position generated above.
-        cam.DSNU[i // cam.width, i % cam.width] = bad_value
+        dsnu[i // cam.width, i % cam.width] = bad_value
+    cam.DSNU = dsnu
-- 
2.43.0


From e5945e9580fbe698b749a3d280d5b50251184691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 19/41] fix: Qe dimension error and modification of the given
 qe

A dimension mismatch raised TypeError from the message formatting, and a
filter multiplied the array of the caller in place.
---
 src/emva1288/camera/routines.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 5d6d166..5fc27ad 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -230,11 +230,11 @@ class Qe(object):
 
         if self._qe.shape != (self._height, self._width, len(self._w)):
             raise ValueError('qe dimensions mismatch %s != %s' %
-                             self._qe.shape,
-                             (self._height, self._width, len(self._w)))
+                             (self._qe.shape,
+                              (self._height, self._width, len(self._w))))
 
         if filter is not None:
-            self._qe *= filter
+            self._qe = self._qe * filter
 
     @property
     def w(self):
-- 
2.43.0


From 09574b98ec2aa1ca836fd246732f048950b4b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 20/41] fix: array_tile lost a row or column for sizes that are
 no multiple

get_bayer_filter returned too small filters for odd sizes.
---
 src/emva1288/camera/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 5fc27ad..c1ba962 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -201,7 +201,8 @@ def get_bayer_filter(t00, t01, t10, t11, width, height, w):
 def array_tile(array, height, width):
     h, w = ((array.shape[:2]) if array.ndim == 3 else (1, array.shape[-1])
             if array.ndim == 2 else (1, 1))
-    return np.tile(array, (int(height/h), int(width/w), 1))
+    tile = np.tile(array, (-(-height // h), -(-width // w), 1))
+    return tile[:height, :width] if array.ndim == 3 else tile
 
 
 def poisson(x, loc, mu=1000):
-- 
2.43.0


From e1d23d949e3b95a76ad090b7864e6ffa5f642242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 21/41] fix: get_radiance_for took the thermal electrons of
 another exposure

They were always those of the exposure time of the camera.
---
 src/emva1288/camera/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 5dd0bc5..8763163 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -390,7 +390,7 @@ class Camera(object):
             mean = self.img_max
         if not exposure:
             exposure = self.exposure
-        ud = self._u_therm()
+        ud = self._u_i() * exposure / (10 ** 9)
         ue = ((mean / self.K) - ud)/len(self._qe.w)
         ue *= np.ones(len(self._qe.w))
         up = np.zeros((self.height, self.width, len(self._qe.w)))
-- 
2.43.0


From 22258d20ccb1920323278580d05c824a9cd874fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 22/41] fix: PointsGenerator ignored the limits of the caller

Radiance limits were always overwritten, and gain and black level were only
set for a fixed exposure and not when they were 0.
---
 src/emva1288/camera/points_generator.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index 6cbe857..d61ff75 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -58,8 +58,10 @@ class PointsGenerator:
         self._exposure = exposure_fixed
         self._radiance_min = radiance_min
         self._radiance_max = radiance_max
-        self._gain = gain or self._cam.K
-        self._blackref = blackref or self._cam.blackoffset
+        if gain is not None:
+            self._cam.K = gain
+        if blackref is not None:
+            self._cam.blackoffset = blackref
         if self._exposure is None:
             # Get radiance for saturation at maximal exposure time
             # Only if it is for an exposure time variation test
@@ -69,12 +71,12 @@ class PointsGenerator:
         else:
             # get radiances for radiation variation
             self._cam.exposure = self._exposure
-            self._cam.K = self._gain
-            self._cam.blackoffset = self._blackref
-            m = self._cam.grab(0).mean()
-            target = (self._cam.img_max - m) / self._steps + m
-            self._radiance_min = self._cam.get_radiance_for(mean=target)
-            self._radiance_max = self._cam.get_radiance_for()
+            if self._radiance_min is None:
+                m = self._cam.grab(0).mean()
+                target = (self._cam.img_max - m) / self._steps + m
+                self._radiance_min = self._cam.get_radiance_for(mean=target)
+            if self._radiance_max is None:
+                self._radiance_max = self._cam.get_radiance_for()
 
         # By default, an exposure time variation data points
         # If exposure fixed is given, it is photons variation
@@ -104,8 +106,8 @@ class PointsGenerator:
             # only one exposure time
             rad_i = np.ones((self._cam._height, self._cam._width,
                             len(self._cam.qe.w)))
-            factors = np.linspace(self._radiance_min.mean(),
-                                  self._radiance_max.mean(),
+            factors = np.linspace(np.mean(self._radiance_min),
+                                  np.mean(self._radiance_max),
                                   self._steps)
             radiances = [rad_i * factor for factor in factors]
             # round to only have one decimal
-- 
2.43.0


From 78018968c2e883cb9ee294d6034ac852c937502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 23/41] fix: images outside of a series were silently dropped

An unknown line inside of a series cut the series, a spatial series could turn
into a temporal one.
---
 src/emva1288/process/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/emva1288/process/parser.py b/src/emva1288/process/parser.py
index 5ece608..352c6c9 100755
--- a/src/emva1288/process/parser.py
+++ b/src/emva1288/process/parser.py
@@ -205,6 +205,12 @@ class ParseEmvaDescriptorFile(object):
 
                 continue
 
+            if l[0] == 'i':
+                # All the images of a series are read with its first line,
+                # do not lose images after an interrupted series
+                raise SyntaxError('Image "%s" does not belong to a series'
+                                  % line)
+
             # If line is of an unknown format, warn user.
             self.log.warning('Unknown command ' + line)  # pragma: no cover
 
-- 
2.43.0


From 1f5561e5a05f2b76ddcbcb950a1f38e97938e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 24/41] fix: linear fits stopped before the minimum

The iterative solver gave wrong lines when abscissae and ordinates are of
very different scale: LinearB([0, 1e9, 2e9], [0, 100, 0]) had a slope of 4e-8
instead of 0. Exposure times are in nanoseconds.
---
 src/emva1288/process/routines.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 07f9a6f..75ee229 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -8,7 +8,6 @@
 """
 import numpy as np
 import os
-from scipy.optimize import leastsq
 from lxml import etree
 from PIL import Image
 from collections import OrderedDict
@@ -81,11 +80,12 @@ def LinearB0(Xi, Yi):
     def e(v, x, y):
         return (fp(v, x) - y)
 
-    # the initial value of m, we choose 1, because we thought YODA would
-    # have chosen 1
-    v0 = [1.0]
-
-    vr, _success = leastsq(e, v0, args=(X, Y))
+    # the normal equation gives the minimum, an iterative solver stops too
+    # early when X and Y have very different scales
+    xx = np.sum(X * X)
+    # without any signal every slope is a minimum, we choose 1, because we
+    # thought YODA would have chosen 1
+    vr = np.array([np.sum(X * Y) / xx if xx else 1.0])
 
     # compute the R**2 (sqrt of the mean of the squares of the errors)
     err = np.sqrt(sum(np.square(e([vr], X, Y))) / (len(X) * len(X)))
@@ -110,11 +110,12 @@ def LinearB(Xi, Yi):
     def e(v, x, y):
         return (fp(v, x) - y)
 
-    # the initial value of m, we choose 1, because we thought YODA would
-    # have chosen 1
-    v0 = np.array([1.0, 1.0])
-
-    vr, _success = leastsq(e, v0, args=(X, Y))
+    # the normal equations (around the mean) give the minimum, an iterative
+    # solver stops too early when X and Y have very different scales
+    # (exposure times in nanoseconds)
+    X0 = X - np.mean(X)
+    m = np.sum(X0 * (Y - np.mean(Y))) / np.sum(X0 * X0)
+    vr = np.array([m, np.mean(Y) - m * np.mean(X)])
 
     # compute the R**2 (sqrt of the mean of the squares of the errors)
     err = np.sqrt(sum(np.square(e(vr, X, Y))) / (len(X) * len(X)))
-- 
2.43.0


From c096b7ce9c5137a97623d9142e413f94d3ac0317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 25/41] fix: s_2_y_dark had the symbol of s_2_y

---
 src/emva1288/process/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 06fa008..ef8dc19 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -766,7 +766,7 @@ class Results1288(object):
         .. emva1288::
             :Section: spatial
             :Short: Spatial variance from image
-            :Symbol: $s^2_{y}$
+            :Symbol: $s^2_{y.dark}$
             :Unit: DN2
         """
         return self.s_2_y_measured_dark - (self.sigma_2_y_stack_dark /
-- 
2.43.0


From 812ba160444f0cc6b6148cf0edbc7a04d1c297e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 26/41] fix: report failed with information dictionaries
 lacking optional keys

basic={'vendor': 'x'} raised KeyError: 'qe_plot', and an operation point with
only the mandatory name could not be rendered.
---
 src/emva1288/report/report.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index a0d03d9..29dbb54 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -202,9 +202,12 @@ class Report1288(object):
 
         self.renderer = self.template_renderer()
         self.ops = []
-        # the report modifies its information, work on copies
-        self.marketing = dict(marketing or info_marketing())
-        self.basic = dict(basic or info_basic())
+        # the report modifies its information, work on copies that have every
+        # documented key
+        self.marketing = info_marketing()
+        self.marketing.update(marketing or {})
+        self.basic = info_basic()
+        self.basic.update(basic or {})
         self.setup = (setup or info_setup()).copy()
         self.cover_page = cover_page
         self._make_dirs(outdir)
@@ -381,10 +384,9 @@ class Report1288(object):
         """
         n = len(self.ops) + 1
         # the dictionary stays with the caller, who may reuse it
-        op = dict(op)
+        op = dict(info_op(), **op)
         for key in ('camera_settings', 'test_parameters'):
-            if key in op:
-                op[key] = op[key].copy()
+            op[key] = op[key].copy()
         op['id'] = 'OP%d' % (n)
         if not op['name']:
             op['name'] = op['id']
-- 
2.43.0


From e869923e8dd952a5c18da2b2f2d1503a3f654ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 27/41] fix: custom missing plot icon was never used in the
 report

---
 src/emva1288/report/report.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 29dbb54..c6cfebb 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -303,8 +303,11 @@ class Report1288(object):
             self.marketing['missingplot'],
             'missingplot.pdf')
 
-        self.basic['qe_plot'] = uploaded_file(self.basic['qe_plot'],
-                                              'missingplot.pdf')
+        if self.basic['qe_plot']:
+            self.basic['qe_plot'] = uploaded_file(self.basic['qe_plot'],
+                                                  'missingplot.pdf')
+        else:
+            self.basic['qe_plot'] = self.marketing['missingplot']
 
     def _write_file(self, name, content):
         # write content into a file
-- 
2.43.0


From 8b98afa4e40916da24e4cfc8dafd848ef6e4ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 28/41] fix: cover page of the marketing information was
 ignored

---
 src/emva1288/report/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index c6cfebb..324c7b0 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -209,7 +209,7 @@ class Report1288(object):
         self.basic = info_basic()
         self.basic.update(basic or {})
         self.setup = (setup or info_setup()).copy()
-        self.cover_page = cover_page
+        self.cover_page = cover_page or self.marketing['cover_page']
         self._make_dirs(outdir)
 
     @staticmethod
-- 
2.43.0


From 9314dbf859a09671f998b084246dad569663fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 29/41] fix: uploaded report files with the same name overwrote
 each other

---
 src/emva1288/report/report.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 324c7b0..9e4a8fc 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -286,12 +286,20 @@ class Report1288(object):
         except FileExistsError:  # pragma: no cover
             pass
 
+        uploaded = {}
+
         def uploaded_file(fname, default):
             if fname:  # pragma: no cover
-                shutil.copy(os.path.abspath(fname), upload_dir)
-                v = posixpath.join(
-                    'upload',
-                    os.path.basename(fname))
+                source = os.path.abspath(fname)
+                name = os.path.basename(fname)
+                root, ext = os.path.splitext(name)
+                n = 1
+                # different files can have the same name
+                while uploaded.setdefault(name, source) != source:
+                    n += 1
+                    name = '%s_%d%s' % (root, n, ext)
+                shutil.copy(source, os.path.join(upload_dir, name))
+                v = posixpath.join('upload', name)
             else:
                 v = posixpath.join('files', default)
             return v
-- 
2.43.0


From af384dbf1a95dcfdb69b8bc44e60ae5feac15e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 30/41] fix: report declared another encoding than it was
 written in

Non ASCII information (vendor, model, ...) came out as other characters.
---
 src/emva1288/report/report.py            | 2 +-
 src/emva1288/report/templates/report.tex | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 9e4a8fc..7dc5e91 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -320,7 +320,7 @@ class Report1288(object):
     def _write_file(self, name, content):
         # write content into a file
         fname = os.path.join(self._outdir, name)
-        with open(fname, 'w') as f:
+        with open(fname, 'w', encoding='utf-8') as f:
             f.write(content)
         return fname
 
diff --git a/src/emva1288/report/templates/report.tex b/src/emva1288/report/templates/report.tex
index 312574e..5957775 100644
--- a/src/emva1288/report/templates/report.tex
+++ b/src/emva1288/report/templates/report.tex
@@ -1,6 +1,6 @@
 \documentclass[a4paper,twoside,12pt,american,hidelinks]{article}
 \usepackage[T1]{fontenc}
-\usepackage[cp1257]{inputenc}
+\usepackage[utf8]{inputenc}
 \usepackage{lmodern}
 \usepackage{graphicx}
 \usepackage{fancyhdr}
-- 
2.43.0


From cddf7920ed9de676e15d58ea4f9d45012444c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 31/41] fix: histograms of all but the last test could be cut
 off

The limits of the ordinate were those of the last test plotted.
---
 src/emva1288/process/plotting.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 31cc44d..8f567d9 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -537,7 +537,10 @@ class PlotLogarithmicHistogramDSNU(Emva1288Plot):
 
         self.set_legend(ax)
 
-        ax.axis(ymin=1.0, ymax=np.max(hist['values']) * 2)
+        # the limits are for all the tests plotted
+        self.max_values = max(getattr(self, 'max_values', 0),
+                              np.max(hist['values']))
+        ax.axis(ymin=1.0, ymax=self.max_values * 2)
 
 
 class PlotLogarithmicHistogramPRNU(Emva1288Plot):
@@ -560,7 +563,10 @@ class PlotLogarithmicHistogramPRNU(Emva1288Plot):
                 label='Model')
 
         self.set_legend(ax)
-        ax.axis(ymin=0.5, ymax=np.max(hist['values']) * 2)
+        # the limits are for all the tests plotted
+        self.max_values = max(getattr(self, 'max_values', 0),
+                              np.max(hist['values']))
+        ax.axis(ymin=0.5, ymax=self.max_values * 2)
 
 
 class PlotAccumulatedLogHistogramDSNU(Emva1288Plot):
-- 
2.43.0


From a783c75083a13271e6aeae13703b74fa88ec2cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 32/41] fix: plotting again drew over the figures still open

With a non blocking show (interactive mode) the figures still held the lines of
the tests plotted before.
---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 8f567d9..b3f8f65 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -877,7 +877,7 @@ class Plotting1288(object):
             plots = EVMA1288plots
 
         for i, plot_cls in enumerate(plots):
-            figure = plt.figure(i)
+            figure = plt.figure(i, clear=True)
             plot = plot_cls(figure)
             for test in self.tests:
                 plot.plot(test)
-- 
2.43.0


From d1b145eb008d87fd11a955e62651aac51ce6c756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 33/41] fix: plotting replaced the id of a test numbered 0

---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index b3f8f65..997476a 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -859,7 +859,7 @@ class Plotting1288(object):
 
         self.tests = []
         for test in tests:
-            if not getattr(test, 'id', False):
+            if getattr(test, 'id', None) is None:
                 test.id = id(test)
             self.tests.append(test)
 
-- 
2.43.0


From af07ffa952e392ba89f403001e990c03ce6abd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 34/41] fix: high-pass filter of integer images wraps around

The filtered values are signed and up to dim**2 times larger than the
values of the image, but were computed in the type of the image.
---
 src/emva1288/process/routines.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 75ee229..79fbc20 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -692,6 +692,11 @@ def high_pass_filter(img, dim):
     # Check validity of kernel size
     if not dim % 2:
         raise ValueError('The size of the highpass filter must be odd')
+    img = np.asanyarray(img)
+    if img.dtype.kind in 'iub':
+        # The filtered values are signed and up to dim**2 times larger than
+        # the values of the image, they do not fit in its type
+        img = img.astype(np.int64)
     # Initializing the kernel
     kernel = np.ones((dim, dim))
     sl = dim//2
-- 
2.43.0


From 2be38b6dd0155ab8864929c52b43f95b3ec5d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 35/41] fix: get_radiance_for honours a target mean of 0

---
 src/emva1288/camera/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 8763163..7b4bb12 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -386,7 +386,7 @@ class Camera(object):
             The radiance at which, for the given saturation value and
             the given exposure time, the camera saturates.
         """
-        if not mean:
+        if mean is None:
             mean = self.img_max
         if not exposure:
             exposure = self.exposure
-- 
2.43.0


From 2cd958e371a4b86f6a0af5bf692b88dbb243381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 36/41] fix: a maximum black offset of 0 is not replaced by the
 default

---
 src/emva1288/camera/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 7b4bb12..7101fb7 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -148,7 +148,7 @@ class Camera(object):
         self.K = K
 
         # A good gestimate for maximum blackoffset is 1/16th of the full range
-        if not blackoffset_max:
+        if blackoffset_max is None:
             blackoffset_max = self.img_max // 16
         self.__blackoffsets = np.linspace(blackoffset_min, blackoffset_max,
                                           num=blackoffset_steps)
-- 
2.43.0


From 4a6480abb58d0803f4af08a8e0937b4f1bc88b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 37/41] fix: a minimum exposure of 0 given by the caller is
 used for the points

---
 src/emva1288/camera/points_generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index d61ff75..549be29 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -53,8 +53,12 @@ class PointsGenerator:
         """
         self._cam = cam
         self._steps = steps
-        self._exposure_min = exposure_min or self._cam.exposure_min
-        self._exposure_max = exposure_max or self._cam.exposure_max
+        self._exposure_min = exposure_min
+        if exposure_min is None:
+            self._exposure_min = self._cam.exposure_min
+        self._exposure_max = exposure_max
+        if exposure_max is None:
+            self._exposure_max = self._cam.exposure_max
         self._exposure = exposure_fixed
         self._radiance_min = radiance_min
         self._radiance_max = radiance_max
-- 
2.43.0


From 72fc60d2966d79cee8fe0ce6759d955687eab81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 38/41] fix: reading back an XML with an empty data array
 failed

---
 src/emva1288/process/routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 79fbc20..a0f3e40 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -505,8 +505,8 @@ def xml_to_dict(xml):
             if 'data' in value:
                 for data in value['data']:
                     v = value['data'][data]
-                    v = v.strip()
-                    v = v.split()
+                    # an empty array has no text
+                    v = (v or '').split()
                     d[section][methodname]['data'][data] = np.asarray(v, dtype=np.float64)
             else:
                 v = value['value']
-- 
2.43.0


From 223f13eee21881b30b50888826cfe141d3cc62a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 39/41] fix: equal empty arrays were reported as FAIL by
 compare_xml

---
 src/emva1288/process/routines.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index a0f3e40..8c8a168 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -607,9 +607,11 @@ def compare_xml(x1, x2, filename=None):
                     # loop throught the keys
                     for k in k1:
                         try:
+                            # there is nothing to round in empty arrays
                             r = (len(a1[k]) == len(a2[k]) and
-                                 np.max(np.abs(round_array(a1[k]) -
-                                               round_array(a2[k]))) == 0.0)
+                                 (len(a1[k]) == 0 or
+                                  np.max(np.abs(round_array(a1[k]) -
+                                                round_array(a2[k]))) == 0.0))
                         except:
                             r = False
 
-- 
2.43.0


From 2d4cfaefacae65d2eafcb4338915f845fb855e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:48 +0000
Subject: [PATCH 40/41] fix: an interruption is neither an unreadable XML nor a
 difference

---
 src/emva1288/process/routines.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 8c8a168..2d6546c 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -478,7 +478,7 @@ def xml_to_dict(xml):
             root = etree.parse(xml).getroot()
         else:
             root = etree.fromstring(xml)
-    except:
+    except Exception:
         print('Problems loading XML')
         return None
 
@@ -588,7 +588,7 @@ def compare_xml(x1, x2, filename=None):
             if v1 is not None and v2 is not None:
                 try:
                     r = (round_significant(v1) - round_significant(v2)) == 0.0
-                except:
+                except Exception:
                     r = False
                 t1 = v1
                 t2 = v2
@@ -612,7 +612,7 @@ def compare_xml(x1, x2, filename=None):
                                  (len(a1[k]) == 0 or
                                   np.max(np.abs(round_array(a1[k]) -
                                                 round_array(a2[k]))) == 0.0))
-                        except:
+                        except Exception:
                             r = False
 
                         if not r:
-- 
2.43.0


From 52538c9695ed0cfa0cacaaf017b909728a7071d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:48 +0000
Subject: [PATCH 41/41] fix: files of a report whose first copy failed stayed
 missing

---
 src/emva1288/report/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 7dc5e91..dce48d8 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -276,7 +276,7 @@ class Report1288(object):
         files_dir = os.path.join(self._outdir, 'files')
         currfiles = os.path.join(_CURRDIR, 'files')
         try:
-            copytree(currfiles, files_dir)
+            copytree(currfiles, files_dir, dirs_exist_ok=True)
         except FileExistsError:  # pragma: no cover
             pass
 
-- 
2.43.0


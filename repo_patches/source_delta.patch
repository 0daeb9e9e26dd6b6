From 7fe11e9982ebd4279cec31d9db4bf1aa34af0078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 01/39] fix: round_significant works without the removed np.int
 alias

compare_xml swallowed the AttributeError and marked every non-zero value FAIL.
---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 8464780..246c055 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -512,7 +512,7 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     if v == 0.0:
         return 0.0
-    return round(v, sig - np.int(np.floor(np.log10(np.abs(v)))) - 1)
+    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
 round_array = np.vectorize(round_significant)
-- 
2.43.0


From 9294c1d8d13ef093fddae7dfafd01f4b50703dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 02/39] fix: xml_to_dict reads XML given as a string

etree.ElementTree is a function and has no fromstring, so every string was
reported as unreadable.
---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 246c055..ac653fb 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -462,7 +462,7 @@ def xml_to_dict(xml):
         if os.path.isfile(xml):
             tree = etree.parse(xml)
         else:
-            tree = etree.ElementTree.fromstring(xml)
+            tree = etree.ElementTree(etree.fromstring(xml))
     except:
         print('Problems loading XML')
         return None
-- 
2.43.0


From db03b5f68b85f1cfe099bf29b72be22c0788cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 03/39] fix: saturation index at the first points

A forced index 0 was ignored, and a variance peak at index 1 was reported as
index 0 because the left neighbour of index 0 was taken to be index 1.
---
 src/emva1288/process/results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 051689f..bcfd27d 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -91,7 +91,7 @@ class Results1288(object):
             :Short: Saturation index
         """
 
-        if self._index_u_ysat:
+        if self._index_u_ysat is not None:
             return self._index_u_ysat
 
         max_ = 0
@@ -103,11 +103,11 @@ class Results1288(object):
         for i in range(len(s2_y) - 1, -1, -1):
             # Check that is not a local max
             if (s2_y[i] >= max_) or \
-               (s2_y[abs(i - 1)] >= max_):
+               (s2_y[max(i - 1, 0)] >= max_):
                 max_ = s2_y[i]
                 max_i = i
             elif (s2_y[i] < max_) and \
-                 (s2_y[abs(i - 1)] < max_):
+                 (s2_y[max(i - 1, 0)] < max_):
                 break
 
         self._index_u_ysat = max_i
-- 
2.43.0


From a262538bd8e76f81f6ef226faeb74c627c6c2006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 04/39] fix: get_radiance_for uses the thermal electrons of the
 given exposure

---
 src/emva1288/camera/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 5dd0bc5..8763163 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -390,7 +390,7 @@ class Camera(object):
             mean = self.img_max
         if not exposure:
             exposure = self.exposure
-        ud = self._u_therm()
+        ud = self._u_i() * exposure / (10 ** 9)
         ue = ((mean / self.K) - ud)/len(self._qe.w)
         ue *= np.ones(len(self._qe.w))
         up = np.zeros((self.height, self.width, len(self._qe.w)))
-- 
2.43.0


From 409090e5932efdea2108b9ebd43be5ba90cc644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 05/39] fix: bad_pixel changes as many pixels as requested

Positions were drawn with replacement, so some were drawn twice.
---
 src/emva1288/camera/bad_images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index 0249389..acada45 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -24,7 +24,8 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     pixel_num = cam.height * cam.width
     # Select the number of bad pixel in a 1D with number
     # for they futur position.
-    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel)
+    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel,
+                                          replace=False)
     # change the position in 1D to 2D.
     for i in bad_pixel_position:
         # Change the DSNU of the camera with the bad values
-- 
2.43.0


From 3cc2a6f6f0949dbbd9a00d6a17315f2a4706e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 06/39] fix: Qe reports a dimension mismatch as the intended
 ValueError

---
 src/emva1288/camera/routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 5d6d166..bd09c57 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -230,8 +230,8 @@ class Qe(object):
 
         if self._qe.shape != (self._height, self._width, len(self._w)):
             raise ValueError('qe dimensions mismatch %s != %s' %
-                             self._qe.shape,
-                             (self._height, self._width, len(self._w)))
+                             (self._qe.shape,
+                              (self._height, self._width, len(self._w))))
 
         if filter is not None:
             self._qe *= filter
-- 
2.43.0


From 573d8cca3c595db8fb0fd6e1ca9b417be870b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 07/39] fix: Qe does not apply the filter to the array of the
 caller

---
 src/emva1288/camera/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index bd09c57..61f2fb8 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -234,7 +234,8 @@ class Qe(object):
                               (self._height, self._width, len(self._w))))
 
         if filter is not None:
-            self._qe *= filter
+            # do not modify the array given by the user
+            self._qe = self._qe * filter
 
     @property
     def w(self):
-- 
2.43.0


From 5a19a541a5c6734e74c7482fbc75fcd3c104777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 08/39] fix: Plotting1288 plots every test it is given

Only the last test was kept.
---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 3ab6bb9..5344324 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -848,7 +848,7 @@ class Plotting1288(object):
         for test in tests:
             if not getattr(test, 'id', False):
                 test.id = id(test)
-        self.tests.append(test)
+            self.tests.append(test)
 
     def plot(self, *plots):
         """Plot EMVA1288 plots
-- 
2.43.0


From 1a588e27fb531c7b337ad3dcd059c19ca4b0d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 09/39] fix: histograms of masked images count only the
 unmasked pixels

np.histogram ignores the mask, so masked pixels were counted with whatever
value lies under the mask.
---
 src/emva1288/process/results.py  | 4 ++--
 src/emva1288/process/routines.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index bcfd27d..5f1edd3 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -1164,7 +1164,7 @@ class Results1288(object):
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
@@ -1219,7 +1219,7 @@ class Results1288(object):
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
 
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index ac653fb..906ea76 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -250,7 +250,8 @@ def GetFrecs(fft):
 
 
 def Histogram1288(img, Qmax):
-    y = np.ravel(img)
+    # masked pixels (color cameras) do not take part in the histogram
+    y = np.ma.compressed(img)
 
     ymin = np.min(y)
     ymax = np.max(y)
-- 
2.43.0


From d1e7c37f8efaef07e0c21f4dc1848f152c950cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 10/39] fix: report undecodable descriptor files as a
 ValueError and close the file

UnicodeDecodeError cannot be built from a message, so the user got a
TypeError about its arguments; the descriptor file was never closed.
---
 src/emva1288/process/parser.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/emva1288/process/parser.py b/src/emva1288/process/parser.py
index 6747dde..01e84dc 100755
--- a/src/emva1288/process/parser.py
+++ b/src/emva1288/process/parser.py
@@ -224,8 +224,6 @@ class ParseEmvaDescriptorFile(object):
         Load a file, split by lines removing the comments (starts with #)
         """
         self.log.info('Opening ' + filename)
-        f = open(filename, 'r')
-
         # To add location when opening images
         # If no path was passed as kwarg, set it to the filename path
         if self._path is None:
@@ -233,9 +231,10 @@ class ParseEmvaDescriptorFile(object):
 
         # get the lines and strip them if they are not comments
         try:
-            self._lines = [x.strip() for x in f.readlines() if x.strip() and
-                           not x.strip().startswith('#')]
-        except UnicodeDecodeError:  # pragma: no cover
+            with open(filename, 'r') as f:
+                self._lines = [x.strip() for x in f.readlines() if x.strip()
+                               and not x.strip().startswith('#')]
+        except UnicodeDecodeError as e:  # pragma: no cover
             # If there is an unknown character in the file, speak it!
-            raise UnicodeDecodeError("File: '%s', has non-utf8 characters."
-                                     "Find them and kill them!" % filename)
+            raise ValueError("File: '%s', has non-utf8 characters."
+                             "Find them and kill them!" % filename) from e
-- 
2.43.0


From 77b4de9b652a681c9a69171c3fa1e8f3b130eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 11/39] fix: Report1288 leaves the information dictionaries of
 the caller alone

The logo, missingplot and qe_plot entries were replaced by report relative
paths in the caller's dictionaries, so using them for a second report failed.
---
 src/emva1288/report/report.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index a196c0a..c8c5eb1 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -202,8 +202,9 @@ class Report1288(object):
 
         self.renderer = self.template_renderer()
         self.ops = []
-        self.marketing = marketing or info_marketing()
-        self.basic = basic or info_basic()
+        # copies, because the paths to the files are replaced below
+        self.marketing = dict(marketing or info_marketing())
+        self.basic = dict(basic or info_basic())
         self.setup = setup or info_setup()
         self.cover_page = cover_page
         self._make_dirs(outdir)
-- 
2.43.0


From e32d708b671474978094b213f89a7133d0f93bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 12/39] fix: frequency axis of the spectrograms ends at the
 Nyquist frequency

GetFrecs divided by twice the number of bins of the half spectrum, which is
not the row length, so every frequency was reported too low.
---
 src/emva1288/process/plotting.py | 10 ++++++----
 src/emva1288/process/routines.py | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 5344324..0117688 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -384,7 +384,7 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(data) / data_mean
 
-        ax.plot(routines.GetFrecs(spectrogram),
+        ax.plot(routines.GetFrecs(spectrogram, data.shape[1]),
                 (np.sqrt(spectrogram)),
                 label='Data',
                 gid='%d:data' % test.id)
@@ -417,7 +417,8 @@ class PlotHorizontalSpectrogramDSNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        n=test.spatial['L'])
-        ax.plot(routines.GetFrecs(spectrogram),
+        cols = test.spatial['sum_dark'].shape[1]
+        ax.plot(routines.GetFrecs(spectrogram, cols),
                 np.sqrt(spectrogram),
                 label='Data',
                 gid='%d:data' % test.id)
@@ -452,7 +453,7 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
         data_mean = np.mean(data)
         spectrogram = routines.FFT1288(data, rotate=True) / data_mean
 
-        ax.plot((routines.GetFrecs(spectrogram)),
+        ax.plot((routines.GetFrecs(spectrogram, data.shape[0])),
                 (np.sqrt(spectrogram)),
                 label='Data',
                 gid='%d:data' % test.id)
@@ -486,7 +487,8 @@ class PlotVerticalSpectrogramDSNU(Emva1288Plot):
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        rotate=True,
                                        n=test.spatial['L'])
-        ax.plot(routines.GetFrecs(spectrogram),
+        cols = test.spatial['sum_dark'].shape[0]
+        ax.plot(routines.GetFrecs(spectrogram, cols),
                 np.sqrt(spectrogram),
                 label='Data',
                 gid='%d:data' % test.id)
diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 906ea76..b649ddd 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -242,10 +242,23 @@ def _row_wise_compress(img):
     return compressed[:lines, :cols]
 
 
-def GetFrecs(fft):
+def GetFrecs(fft, cols=None):
+    '''Frequencies, in cycles per pixel, of a spectrogram from FFT1288
+
+    Parameters
+    ----------
+    fft : array
+        The spectrogram, from frequency zero up to the nyquist frequency
+    cols : int (optional)
+        Length of the image rows the spectrogram was computed from. The
+        spectrogram alone does not tell if it was even or odd, if not given
+        it is taken as even
+    '''
     n = len(fft)
+    if cols is None:
+        cols = max(2 * (n - 1), 1)
     x = np.arange(n)
-    x = x * 1.0 / (2 * n)
+    x = x * 1.0 / cols
     return x
 
 
-- 
2.43.0


From 552d609a1dbd41333f866d809687d77efb3f556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 13/39] fix: xml_to_dict accepts decimal commas in arrays too

They were accepted in single values only, a file with an array written with
decimal commas raised a ValueError.
---
 src/emva1288/process/routines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index b649ddd..cc5311a 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -506,6 +506,8 @@ def xml_to_dict(xml):
                 for data in value['data']:
                     v = value['data'][data]
                     v = v.strip()
+                    # same as for the values, decimal point written with ,
+                    v = v.replace(',', '.')
                     v = v.split()
                     d[section][methodname]['data'][data] = np.asarray(v, dtype=np.float64)
             else:
-- 
2.43.0


From 7640208afa11204d593323e510d8016ccaa8ef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 14/39] fix: compare_xml does not accept arrays of different
 length

An array with a single element was broadcasted to the length of the other one.
---
 src/emva1288/process/routines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index cc5311a..d36e9b5 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -608,6 +608,10 @@ def compare_xml(x1, x2, filename=None):
                 else:
                     # loop throught the keys
                     for k in k1:
+                        # arrays of different length would be broadcasted
+                        if a1[k].shape != a2[k].shape:
+                            r = False
+                            break
                         try:
                             r = np.max(np.abs(round_array(a1[k]) -
                                               round_array(a2[k]))) == 0.0
-- 
2.43.0


From 210f5c38dcf74ca7fa98319537f5ef60bfba9bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 15/39] fix: a configured maximum black offset of zero is used

---
 src/emva1288/camera/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 8763163..aac976c 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -148,7 +148,7 @@ class Camera(object):
         self.K = K
 
         # A good gestimate for maximum blackoffset is 1/16th of the full range
-        if not blackoffset_max:
+        if blackoffset_max is None:
             blackoffset_max = self.img_max // 16
         self.__blackoffsets = np.linspace(blackoffset_min, blackoffset_max,
                                           num=blackoffset_steps)
-- 
2.43.0


From 32d1a2ff13a26441b071d37386e9bfe8a0959e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 16/39] fix: show the missing plot icon given by the user in
 place of a missing QE plot

---
 src/emva1288/report/report.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index c8c5eb1..0e44166 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -294,8 +294,12 @@ class Report1288(object):
             self.marketing['missingplot'],
             'missingplot.pdf')
 
-        self.basic['qe_plot'] = uploaded_file(self.basic['qe_plot'],
-                                              'missingplot.pdf')
+        # without a plot, the icon for missing plots takes its place
+        if self.basic['qe_plot']:
+            self.basic['qe_plot'] = uploaded_file(self.basic['qe_plot'],
+                                                  'missingplot.pdf')
+        else:
+            self.basic['qe_plot'] = self.marketing['missingplot']
 
     def _write_file(self, name, content):
         # write content into a file
-- 
2.43.0


From fe4b57c35e714496d7cc65207444b6f7c71b3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 17/39] fix: use the cover page of the marketing information

---
 src/emva1288/report/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 0e44166..e1b7af4 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -206,7 +206,7 @@ class Report1288(object):
         self.marketing = dict(marketing or info_marketing())
         self.basic = dict(basic or info_basic())
         self.setup = setup or info_setup()
-        self.cover_page = cover_page
+        self.cover_page = cover_page or self.marketing.get('cover_page')
         self._make_dirs(outdir)
 
     @staticmethod
-- 
2.43.0


From 21bab62ee672cf9457945f6170a82450d1e8bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 18/39] fix: report files of the same name no longer overwrite
 each other

---
 src/emva1288/report/report.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index e1b7af4..cd74ca0 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -277,12 +277,17 @@ class Report1288(object):
         except FileExistsError:  # pragma: no cover
             pass
 
+        uploads = {}
+
         def uploaded_file(fname, default):
             if fname:  # pragma: no cover
-                shutil.copy(os.path.abspath(fname), upload_dir)
-                v = posixpath.join(
-                    'upload',
-                    os.path.basename(fname))
+                path = os.path.abspath(fname)
+                name = os.path.basename(path)
+                # files of the same name from different directories
+                while uploads.setdefault(name, path) != path:
+                    name = '_' + name
+                shutil.copy(path, os.path.join(upload_dir, name))
+                v = posixpath.join('upload', name)
             else:
                 v = posixpath.join('files', default)
             return v
-- 
2.43.0


From f301a44971e50bf00b62536fdce1fdb5a038f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 19/39] fix: vendor in the page header of the report

---
 src/emva1288/report/templates/emvadatasheet.sty | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/templates/emvadatasheet.sty b/src/emva1288/report/templates/emvadatasheet.sty
index a531b4c..bcd32a6 100644
--- a/src/emva1288/report/templates/emvadatasheet.sty
+++ b/src/emva1288/report/templates/emvadatasheet.sty
@@ -22,7 +22,7 @@
 % Header
 \fancyhead{}%
 \fancyhead[LO,LE]{\includegraphics[height=12mm]{files/EMVA1288Logo.pdf}}
-\fancyhead[C]{\textbf{%{{ marketing.vendor %}} \, %{{ basic.model|missing %}}}}
+\fancyhead[C]{\textbf{%{{ marketing.vendor or basic.vendor|missing %}} \, %{{ basic.model|missing %}}}}
 \fancyhead[RE,RO]{\includegraphics[height=12mm]{%{{ marketing.logo %}}}}
 \renewcommand{\headrulewidth}{0.5pt}
 
-- 
2.43.0


From cdd3c856284ee41e1b6d4ca9d6687b0831e489cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 20/39] fix: take the test points over the light range asked
 for

The arguments radiance_min and radiance_max were replaced by the range that
is found automatically, which is only meant for those not given.
---
 src/emva1288/camera/points_generator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index 6cbe857..f90e4ce 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -71,10 +71,12 @@ class PointsGenerator:
             self._cam.exposure = self._exposure
             self._cam.K = self._gain
             self._cam.blackoffset = self._blackref
-            m = self._cam.grab(0).mean()
-            target = (self._cam.img_max - m) / self._steps + m
-            self._radiance_min = self._cam.get_radiance_for(mean=target)
-            self._radiance_max = self._cam.get_radiance_for()
+            if self._radiance_min is None:
+                m = self._cam.grab(0).mean()
+                target = (self._cam.img_max - m) / self._steps + m
+                self._radiance_min = self._cam.get_radiance_for(mean=target)
+            if self._radiance_max is None:
+                self._radiance_max = self._cam.get_radiance_for()
 
         # By default, an exposure time variation data points
         # If exposure fixed is given, it is photons variation
@@ -104,8 +106,8 @@ class PointsGenerator:
             # only one exposure time
             rad_i = np.ones((self._cam._height, self._cam._width,
                             len(self._cam.qe.w)))
-            factors = np.linspace(self._radiance_min.mean(),
-                                  self._radiance_max.mean(),
+            factors = np.linspace(np.mean(self._radiance_min),
+                                  np.mean(self._radiance_max),
                                   self._steps)
             radiances = [rad_i * factor for factor in factors]
             # round to only have one decimal
-- 
2.43.0


From 19b512d68b67ec3de48b98216f82120d79a765d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 21/39] fix: use the gain and black offset asked for in every
 test

PointsGenerator documents gain and blackref as the settings of the test, but
used them with a fixed exposure only, and ignored a black offset of zero.
---
 src/emva1288/camera/points_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index f90e4ce..f3db245 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -59,7 +59,9 @@ class PointsGenerator:
         self._radiance_min = radiance_min
         self._radiance_max = radiance_max
         self._gain = gain or self._cam.K
-        self._blackref = blackref or self._cam.blackoffset
+        self._blackref = self._cam.blackoffset if blackref is None else blackref
+        self._cam.K = self._gain
+        self._cam.blackoffset = self._blackref
         if self._exposure is None:
             # Get radiance for saturation at maximal exposure time
             # Only if it is for an exposure time variation test
@@ -69,8 +71,6 @@ class PointsGenerator:
         else:
             # get radiances for radiation variation
             self._cam.exposure = self._exposure
-            self._cam.K = self._gain
-            self._cam.blackoffset = self._blackref
             if self._radiance_min is None:
                 m = self._cam.grab(0).mean()
                 target = (self._cam.img_max - m) / self._steps + m
-- 
2.43.0


From ce304c15b38afcb05f6b85e9ea1c26cbf6efb5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 22/39] fix: a report has its logo and plot files also where a
 files directory exists

---
 src/emva1288/report/report.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index cd74ca0..2ee8cc2 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -266,10 +266,9 @@ class Report1288(object):
 
         files_dir = os.path.join(self._outdir, 'files')
         currfiles = os.path.join(_CURRDIR, 'files')
-        try:
-            copytree(currfiles, files_dir)
-        except FileExistsError:  # pragma: no cover
-            pass
+        # the directory may be there already, with or without these files
+        copytree(currfiles, files_dir,
+                 copy_function=shutil.copyfile, dirs_exist_ok=True)
 
         upload_dir = os.path.join(self._outdir, 'upload')
         try:
-- 
2.43.0


From e2926cb0378a87537f94fe97e6ddf40b59e41505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 23/39] fix: the tutorial imports Emva1288 from where it is

---
 doc/tutorial.rst | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/tutorial.rst b/doc/tutorial.rst
index 2503d2a..eccafbd 100644
--- a/doc/tutorial.rst
+++ b/doc/tutorial.rst
@@ -11,7 +11,7 @@ full process in a very simple way
 
 ::
 
-    from emva1288 import Emva1288
+    from emva1288.process import Emva1288
 
     # Load your data descriptor file
     e = Emva1288(filename)
-- 
2.43.0


From 23633c71a42de5a3e47aaab005dc523782aa5d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 24/39] fix: plots are drawn on figures of their own

A second call drew over the figures of the first one, the curves of two
measurements then lay over each other.
---
 src/emva1288/process/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 0117688..fd336dd 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -865,8 +865,9 @@ class Plotting1288(object):
         if not plots:
             plots = EVMA1288plots
 
-        for i, plot_cls in enumerate(plots):
-            figure = plt.figure(i)
+        for plot_cls in plots:
+            # not over figures that are open already
+            figure = plt.figure()
             plot = plot_cls(figure)
             for test in self.tests:
                 plot.plot(test)
-- 
2.43.0


From 470826a3803cd4f8c51b178dfa9977cc90ef3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 25/39] fix: bad pixels go into a map of the camera's own, at
 full well by default

The map was changed in place, which is the array of the caller and of other cameras made from it, of integers perhaps; bad_value=None raised an error.
---
 src/emva1288/camera/bad_images.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index acada45..1819af5 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -19,6 +19,8 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     """
     # TODO: add error message if num_bad_pixel is higger than pixel_num
     # Set the bad value at the Full well capacity for the camera if 1.
+    if bad_value is None:
+        bad_value = 1
     bad_value = bad_value * cam._u_esat
     # Count the number of pixel in the camera
     pixel_num = cam.height * cam.width
@@ -26,8 +28,11 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     # for they futur position.
     bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel,
                                           replace=False)
+    # The array of the camera may be the one of the user (also of integers)
+    dsnu = np.array(cam.DSNU, dtype=np.float64)
     # change the position in 1D to 2D.
     for i in bad_pixel_position:
         # Change the DSNU of the camera with the bad values
         # at the random position generated above.
-        cam.DSNU[i // cam.width, i % cam.width] = bad_value
+        dsnu[i // cam.width, i % cam.width] = bad_value
+    cam.DSNU = dsnu
-- 
2.43.0


From 834d5f5cfd966ae790623a5789d55a229b60d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 26/39] fix: plots of data with more or less dark images than
 bright ones

The dark images were averaged with the number of bright images.
---
 src/emva1288/process/plotting.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index fd336dd..8c679be 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -14,6 +14,15 @@ import numpy as np
 from . import routines
 
 
+def _average_images(test):
+    """Averages of the bright images, without the dark, and of the dark images
+
+    There may be more or less dark images than bright ones.
+    """
+    dark = test.spatial['sum_dark'] / test.spatial['L_dark']
+    return test.spatial['sum'] / test.spatial['L'] - dark, dark
+
+
 class Emva1288Plot(object):
     """Base class for emva plots."""
     name = ""
@@ -378,8 +387,7 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
     def plot(self, test):
         ax = self.ax
 
-        data = (test.spatial['sum'] - test.spatial['sum_dark'])
-        data = data / test.spatial['L']
+        data, _dark = _average_images(test)
         data_mean = np.mean(data)
 
         spectrogram = routines.FFT1288(data) / data_mean
@@ -416,7 +424,7 @@ class PlotHorizontalSpectrogramDSNU(Emva1288Plot):
         ax = self.ax
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         cols = test.spatial['sum_dark'].shape[1]
         ax.plot(routines.GetFrecs(spectrogram, cols),
                 np.sqrt(spectrogram),
@@ -448,8 +456,7 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
 
     def plot(self, test):
         ax = self.ax
-        data = test.spatial['sum'] - test.spatial['sum_dark']
-        data = data / test.spatial['L']
+        data, _dark = _average_images(test)
         data_mean = np.mean(data)
         spectrogram = routines.FFT1288(data, rotate=True) / data_mean
 
@@ -486,7 +493,7 @@ class PlotVerticalSpectrogramDSNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        rotate=True,
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         cols = test.spatial['sum_dark'].shape[0]
         ax.plot(routines.GetFrecs(spectrogram, cols),
                 np.sqrt(spectrogram),
@@ -693,9 +700,7 @@ class ProfileBase(Emva1288Plot):
         ax = self.ax
         ax2 = self.ax2
 
-        L = test.spatial['L']
-        bimg = (test.spatial['sum'] - test.spatial['sum_dark']) / L
-        dimg = test.spatial['sum_dark'] / L
+        bimg, dimg = _average_images(test)
         profiles = self.get_profiles(bimg, dimg)
 
         # to keep the lines number for legend
-- 
2.43.0


From e3144ebf99cb2c13b3578534691ca366ea0a181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 27/39] fix: PRNU histograms of data with more or less dark
 images than bright ones

The sums of different numbers of images were subtracted from one another.
---
 src/emva1288/process/results.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 5f1edd3..7b332ba 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -1110,6 +1110,22 @@ class Results1288(object):
         return (np.sqrt(self.s_2_y_pixel - self.s_2_y_pixel_dark) * 100 /
                 (self.spatial['avg_mean'] - self.spatial['avg_mean_dark']))
 
+    def _bright_minus_dark(self):
+        """Difference of the bright and dark averages.
+
+        Upscaled to have only integers, also when there are not as many
+        bright images as dark ones.
+
+        Returns
+        -------
+        tuple : The upscaled difference image and the scale.
+        """
+        L = self.spatial['L']
+        L_dark = self.spatial['L_dark']
+        scale = int(np.lcm(int(L), int(L_dark)))
+        return (self.spatial['sum'] * (scale // L) -
+                self.spatial['sum_dark'] * (scale // L_dark)), scale
+
     @property
     def histogram_PRNU(self):
         """PRNU histogram.
@@ -1125,14 +1141,14 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, scale = self._bright_minus_dark()
         # Applying the filter on the image
         data = routines.high_pass_filter(y, 5)
         y = data['img']
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (scale * data['multiplicator'])
 
         return h
 
@@ -1151,7 +1167,7 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, scale = self._bright_minus_dark()
         data = routines.high_pass_filter(y, 5)
         y = data['img']
         # For the accumulated histogram substract the mean
@@ -1159,7 +1175,7 @@ class Results1288(object):
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (scale * data['multiplicator'])
 
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
-- 
2.43.0


From c163e0b8c8252c992b6a17d1c90ae5947895b57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 28/39] fix: the report does not change the operation point
 given

Adding the same object again, to this or another report, changed the first one.
---
 src/emva1288/report/report.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 2ee8cc2..459845d 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -1,3 +1,4 @@
+import copy
 import jinja2
 import os
 import shutil
@@ -382,6 +383,8 @@ class Report1288(object):
                :class:`~emva1288.process.results.Results1288` class.
         """
         n = len(self.ops) + 1
+        # a copy, the same object may be used for other operation points
+        op = copy.deepcopy(op)
         op['id'] = 'OP%d' % (n)
         if not op['name']:
             op['name'] = op['id']
-- 
2.43.0


From cddb5bec48c94971af932d4747268c3d6a5bdb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 29/39] fix: bayer filters of odd sizes have the size asked for

---
 src/emva1288/camera/routines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 61f2fb8..b7a35f4 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -201,7 +201,9 @@ def get_bayer_filter(t00, t01, t10, t11, width, height, w):
 def array_tile(array, height, width):
     h, w = ((array.shape[:2]) if array.ndim == 3 else (1, array.shape[-1])
             if array.ndim == 2 else (1, 1))
-    return np.tile(array, (int(height/h), int(width/w), 1))
+    # the last repetitions may be incomplete
+    return np.tile(array, (int(np.ceil(height / h)),
+                           int(np.ceil(width / w)), 1))[:height, :width]
 
 
 def poisson(x, loc, mu=1000):
-- 
2.43.0


From 2f655f23ace8b7ff71341e86da472d1472770b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 30/39] fix: comparing results with themselves shows no
 difference

Values that are not defined in both (None or nan) were reported as different.
---
 src/emva1288/process/routines.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index d36e9b5..9265c75 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -534,6 +534,16 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
 round_array = np.vectorize(round_significant)
 
 
+def _same_value(v1, v2):
+    '''
+    Compare up to the significant digits, a value that could not be computed
+    (nan) is the same in both
+    '''
+    if not (np.isfinite(v1) and np.isfinite(v2)):
+        return v1 == v2 or bool(np.isnan(v1) and np.isnan(v2))
+    return (round_significant(v1) - round_significant(v2)) == 0.0
+
+
 def compare_xml(x1, x2, filename=None):
     # load the xml into dicts
     f1 = xml_to_dict(x1)
@@ -589,7 +599,7 @@ def compare_xml(x1, x2, filename=None):
             # If both are values
             if v1 is not None and v2 is not None:
                 try:
-                    r = (round_significant(v1) - round_significant(v2)) == 0.0
+                    r = _same_value(v1, v2)
                 except:
                     r = False
                 t1 = v1
@@ -613,8 +623,8 @@ def compare_xml(x1, x2, filename=None):
                             r = False
                             break
                         try:
-                            r = np.max(np.abs(round_array(a1[k]) -
-                                              round_array(a2[k]))) == 0.0
+                            r = all(map(_same_value, a1[k].tolist(),
+                                        a2[k].tolist()))
                         except:
                             r = False
 
@@ -623,7 +633,10 @@ def compare_xml(x1, x2, filename=None):
             else:
                 t1 = str(v1)
                 t2 = str(v2)
-                r = False
+                # no value in both, or there is something in one of them only
+                r = (methodname in m1 and methodname in m2 and
+                     v1 is None and v2 is None and
+                     a1 is None and a2 is None)
 
             s += '{0:<20}{1:<20}'.format(t1, t2)
             if r:
-- 
2.43.0


From 27f84e9648bb4627894cf0373db16bdf56e297ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 31/39] fix: row and column nonuniformity of masked images of
 color cameras

Rows and columns that only have masked pixels were counted, the row and
column variances of one color of a bayer pattern came out halved.
---
 src/emva1288/process/data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emva1288/process/data.py b/src/emva1288/process/data.py
index b9c570a..160331c 100644
--- a/src/emva1288/process/data.py
+++ b/src/emva1288/process/data.py
@@ -299,6 +299,11 @@ class Data1288(object):
         L = d['L']
         M = self.rows
         N = self.cols
+        if isinstance(sum_, np.ma.MaskedArray):
+            # of color cameras only the rows and columns of the color count
+            valid = ~np.ma.getmaskarray(sum_)
+            M = np.count_nonzero(valid.any(axis=1))
+            N = np.count_nonzero(valid.any(axis=0))
 
         # Eqn(38)
         avg_ = sum_ / (1.0 * L)          # <y>
-- 
2.43.0


From 67fa3009f8386653b11b5c38171532aeb33fc80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 32/39] fix: write reports in the encoding they state

---
 src/emva1288/report/report.py            | 3 ++-
 src/emva1288/report/templates/report.tex | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 459845d..d253f11 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -309,7 +309,8 @@ class Report1288(object):
     def _write_file(self, name, content):
         # write content into a file
         fname = os.path.join(self._outdir, name)
-        with open(fname, 'w') as f:
+        # the encoding stated in report.tex, not the one of the system
+        with open(fname, 'w', encoding='utf-8') as f:
             f.write(content)
         return fname
 
diff --git a/src/emva1288/report/templates/report.tex b/src/emva1288/report/templates/report.tex
index 312574e..5957775 100644
--- a/src/emva1288/report/templates/report.tex
+++ b/src/emva1288/report/templates/report.tex
@@ -1,6 +1,6 @@
 \documentclass[a4paper,twoside,12pt,american,hidelinks]{article}
 \usepackage[T1]{fontenc}
-\usepackage[cp1257]{inputenc}
+\usepackage[utf8]{inputenc}
 \usepackage{lmodern}
 \usepackage{graphicx}
 \usepackage{fancyhdr}
-- 
2.43.0


From db06040507d03b3603ada405c7e40b5cb8d489f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 33/39] fix: refuse data sets of deep images that the image
 format cannot hold

---
 src/emva1288/camera/dataset_generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/emva1288/camera/dataset_generator.py b/src/emva1288/camera/dataset_generator.py
index d1143be..b1a6d15 100644
--- a/src/emva1288/camera/dataset_generator.py
+++ b/src/emva1288/camera/dataset_generator.py
@@ -120,6 +120,13 @@ class DatasetGenerator:
         self._version = version  # data version
         # store image format
         self._image_format = image_format
+        # no other format stores more than 16 bits, and PIL's only deep images
+        # have signed values of 32 bits
+        if self.cam.bit_depth > 31 or (
+                self.cam.bit_depth > 16 and
+                image_format.lower() not in ('tif', 'tiff')):
+            raise ValueError('%s images of %s bits can not be saved'
+                             % (image_format, self.cam.bit_depth))
 
         # images will be saved one at a time during the generation into outdir
         self.outdir = outdir
-- 
2.43.0


From bcd08e96bcb8845151d0155399838a88c60d1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 34/39] fix: PRNU spectrograms are in percent of the mean, as
 their markers

---
 src/emva1288/process/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 8c679be..f6cfda5 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -390,10 +390,10 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
         data, _dark = _average_images(test)
         data_mean = np.mean(data)
 
-        spectrogram = routines.FFT1288(data) / data_mean
+        spectrogram = routines.FFT1288(data)
 
         ax.plot(routines.GetFrecs(spectrogram, data.shape[1]),
-                (np.sqrt(spectrogram)),
+                100 * np.sqrt(spectrogram) / data_mean,
                 label='Data',
                 gid='%d:data' % test.id)
 
@@ -458,10 +458,10 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
         ax = self.ax
         data, _dark = _average_images(test)
         data_mean = np.mean(data)
-        spectrogram = routines.FFT1288(data, rotate=True) / data_mean
+        spectrogram = routines.FFT1288(data, rotate=True)
 
         ax.plot((routines.GetFrecs(spectrogram, data.shape[0])),
-                (np.sqrt(spectrogram)),
+                100 * np.sqrt(spectrogram) / data_mean,
                 label='Data',
                 gid='%d:data' % test.id)
 
-- 
2.43.0


From ea65d11e2e333afdfcb8941fd2ea8ca29b8c3836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 35/39] fix: axes of accumulated histograms state what their
 curves are in

---
 src/emva1288/process/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index f6cfda5..5192474 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -569,7 +569,7 @@ class PlotAccumulatedLogHistogramDSNU(Emva1288Plot):
 
     name = 'Accumulated log histogram DSNU'
     xlabel = 'Minimal deviation from the mean [DN]'
-    ylabel = 'Number of pixels'
+    ylabel = 'Percentage of pixels'
     yscale = 'log'
 
     def plot(self, test):
@@ -588,8 +588,8 @@ class PlotAccumulatedLogHistogramPRNU(Emva1288Plot):
     '''Create Accumulated log histogram PRNU plot'''
 
     name = 'Accumulated log histogram PRNU'
-    xlabel = 'Minimal deviation from the mean [%]'
-    ylabel = 'Number of pixels'
+    xlabel = 'Minimal deviation from the mean [DN]'
+    ylabel = 'Percentage of pixels'
     yscale = 'log'
 
     def plot(self, test):
-- 
2.43.0


From 72840fd2069d0c2f4613454e955377fd3ec00cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 36/39] fix: histograms of images whose full range does not fit
 their pixel type

---
 src/emva1288/process/routines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 9265c75..803dcd9 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -266,8 +266,9 @@ def Histogram1288(img, Qmax):
     # masked pixels (color cameras) do not take part in the histogram
     y = np.ma.compressed(img)
 
-    ymin = np.min(y)
-    ymax = np.max(y)
+    # plain numbers, differences may exceed the pixel type of the image
+    ymin = np.min(y).item()
+    ymax = np.max(y).item()
 
     # Because we are working with integers, minimum binwidth is 1
     W = 1
-- 
2.43.0


From bd84cdfcfa132a16918757b81bf1fbf8e528e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 37/39] fix: refuse exposures and photon counts that are not
 finite numbers

---
 src/emva1288/process/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/emva1288/process/parser.py b/src/emva1288/process/parser.py
index 01e84dc..a6409da 100755
--- a/src/emva1288/process/parser.py
+++ b/src/emva1288/process/parser.py
@@ -109,6 +109,11 @@ class ParseEmvaDescriptorFile(object):
         For a given exposure and photon count
         add the appropiate image filenames to the self.images dict
         """
+        # nan and inf are floats, but no exposures or photon counts
+        if not np.isfinite([exposure, photons]).all():  # pragma: no cover
+            raise ValueError('Wrong number: exp %s photons %s'
+                             % (exposure, photons))
+
         # is it temporal or spatial data
         kind = self._get_kind(fnames)
         # create the exposure time dictionary for this exposure time
-- 
2.43.0


From a4d5b0a6473a7e9bff1530bb7ff6e9b9f2ee1ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 38/39] fix: read result files that have comments

---
 src/emva1288/process/routines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 803dcd9..d1c279c 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -482,6 +482,9 @@ def xml_to_dict(xml):
         print('Problems loading XML')
         return None
 
+    # comments and processing instructions are no results
+    etree.strip_elements(tree, etree.Comment, etree.PI, with_tail=False)
+
     def element_to_dict(r):
         '''
         Recursive call to add dictionnary elements from the r xml element
-- 
2.43.0


From a08880a54e93720a7ac2e5eb6328587e472ae2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:33 +0000
Subject: [PATCH 39/39] fix: histograms of all tests stay in view whatever
 their order

---
 src/emva1288/process/plotting.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 5192474..fd3bd3c 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -523,6 +523,10 @@ class PlotLogarithmicHistogramDSNU(Emva1288Plot):
     ylabel = 'Number of pixels'
     yscale = 'log'
 
+    def setup_figure(self):
+        super(PlotLogarithmicHistogramDSNU, self).setup_figure()
+        self.max_values = []
+
     def plot(self, test):
         ax = self.ax
 
@@ -538,7 +542,9 @@ class PlotLogarithmicHistogramDSNU(Emva1288Plot):
 
         self.set_legend(ax)
 
-        ax.axis(ymin=1.0, ymax=np.max(hist['values']) * 2)
+        # high enough for all the tests
+        self.max_values.append(np.max(hist['values']))
+        ax.axis(ymin=1.0, ymax=max(self.max_values) * 2)
 
 
 class PlotLogarithmicHistogramPRNU(Emva1288Plot):
@@ -549,6 +555,10 @@ class PlotLogarithmicHistogramPRNU(Emva1288Plot):
     ylabel = 'Number of pixels'
     yscale = 'log'
 
+    def setup_figure(self):
+        super(PlotLogarithmicHistogramPRNU, self).setup_figure()
+        self.max_values = []
+
     def plot(self, test):
         ax = self.ax
         hist = test.histogram_PRNU
@@ -561,7 +571,9 @@ class PlotLogarithmicHistogramPRNU(Emva1288Plot):
                 label='Model')
 
         self.set_legend(ax)
-        ax.axis(ymin=0.5, ymax=np.max(hist['values']) * 2)
+        # high enough for all the tests
+        self.max_values.append(np.max(hist['values']))
+        ax.axis(ymin=0.5, ymax=max(self.max_values) * 2)
 
 
 class PlotAccumulatedLogHistogramDSNU(Emva1288Plot):
-- 
2.43.0


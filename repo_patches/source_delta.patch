From 530dbd32b456a920713ce5035e0933253efb68d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:07 +0000
Subject: [PATCH 01/22] fix: threshold_firm ignored values above value_high
 found only at index 0

---
 pywt/_thresholding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 33af65b..3fd1d56 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -243,7 +243,7 @@ def threshold_firm(data, value_low, value_high):
         thresholded = data * thresholded
 
     # restore hard-thresholding behavior for values > value_high
-    large_vals = np.where(magnitude > value_high)
-    if np.any(large_vals[0]):
+    large_vals = magnitude > value_high
+    if np.any(large_vals):
         thresholded[large_vals] = data[large_vals]
     return thresholded
-- 
2.43.0


From de8f0677e5304c95b2069bc3b0033cc58b4d95ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:31 +0000
Subject: [PATCH 02/22] fix: imra2 and imran modified the caller's first
 coefficient array in place

---
 pywt/_mra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index a41431e..c2465c4 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -283,7 +283,7 @@ def imra2(mra_coeffs):
     rec = mra_coeffs[0]
     for j in range(1, len(mra_coeffs)):
         for n in range(3):
-            rec += mra_coeffs[j][n]
+            rec = rec + mra_coeffs[j][n]
     return rec
 
 
@@ -430,5 +430,5 @@ def imran(mra_coeffs):
     rec = mra_coeffs[0]
     for j in range(1, len(mra_coeffs)):
         for k, v in mra_coeffs[j].items():
-            rec += v
+            rec = rec + v
     return rec
-- 
2.43.0


From 2105095629ad1df4fb41983c05e25d7f1cf48ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:31 +0000
Subject: [PATCH 03/22] fix: iswtn removed and re-added a key of the caller's
 coefficient dicts

---
 pywt/_swt.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index f64e959..96aa699 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -768,9 +768,9 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     for j in range(num_levels):
         step_size = int(pow(2, num_levels-j-1))
         last_index = step_size
+        details = dict(coeffs[j])  # shallow copy: never modify the caller's dict
         if not trim_approx:
-            a = coeffs[j].pop('a'*ndim_transform)  # will restore later
-        details = coeffs[j]
+            details.pop('a'*ndim_transform)
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
             [dt, ] + [v.dtype for v in details.values()]))
@@ -820,6 +820,4 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                 output[tuple(indices)] += x
                 ntransforms += 1
             output[tuple(indices)] /= ntransforms  # normalize
-        if not trim_approx:
-            coeffs[j]['a'*ndim_transform] = a  # restore approx coeffs to dict
     return output
-- 
2.43.0


From d93463b1b31703b1180cb6a2fc843f0c1e938b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:31 +0000
Subject: [PATCH 04/22] fix: remove stray print from _match_coeff_dims

---
 pywt/_multilevel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 0e5ca9c..887ef7c 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -453,7 +453,6 @@ def _match_coeff_dims(a_coeff, d_coeff_dict):
     d_coeff = d_coeff_dict[next(iter(d_coeff_dict))]
     size_diffs = np.subtract(a_coeff.shape, d_coeff.shape)
     if np.any((size_diffs < 0) | (size_diffs > 1)):
-        print(size_diffs)
         raise ValueError("incompatible coefficient array sizes")
     return a_coeff[tuple(slice(s) for s in d_coeff.shape)]
 
-- 
2.43.0


From 67dc64f370936bcb38bd38bccbc9512b98700843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:39 +0000
Subject: [PATCH 05/22] fix: dwtn did not reject out-of-range axes and wrote
 past its shape buffer

---
 pywt/_multidim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 5a30b80..11dcbaf 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -175,6 +175,8 @@ def dwtn(data, wavelet, mode='symmetric', axes=None):
     if axes is None:
         axes = range(data.ndim)
     axes = [a + data.ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= data.ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
 
     modes = _modes_per_axis(mode, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
-- 
2.43.0


From fa188ad3026983e159a44be05da562229232615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:00 +0000
Subject: [PATCH 06/22] fix: swt along an axis returned uninitialised data when
 the filter allocation failed

---
 pywt/_extensions/c/wt.template.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pywt/_extensions/c/wt.template.c b/pywt/_extensions/c/wt.template.c
index d79fbd3..8afcfba 100644
--- a/pywt/_extensions/c/wt.template.c
+++ b/pywt/_extensions/c/wt.template.c
@@ -134,16 +134,18 @@ int CAT(TYPE, _downcoef_axis)(const TYPE * const restrict input, const ArrayInfo
                 // Apply along axis
                 switch (coef){
                 case COEF_APPROX:
-                    CAT(TYPE, _swt_a)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      swt_level);
+                    if (CAT(TYPE, _swt_a)(input_row, input_info.shape[axis],
+                                          wavelet,
+                                          output_row, output_info.shape[axis],
+                                          swt_level) < 0)
+                        goto cleanup;
                     break;
                 case COEF_DETAIL:
-                    CAT(TYPE, _swt_d)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      swt_level);
+                    if (CAT(TYPE, _swt_d)(input_row, input_info.shape[axis],
+                                          wavelet,
+                                          output_row, output_info.shape[axis],
+                                          swt_level) < 0)
+                        goto cleanup;
                     break;
                 }
                 break;
-- 
2.43.0


From ea2314c831b0938797f91e7907d2883ccc8fb7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:00 +0000
Subject: [PATCH 07/22] fix: failed allocation while building a wavelet
 dereferenced NULL or blamed the wavelet name

---
 pywt/_extensions/_pywt.pyx    | 6 ++++++
 pywt/_extensions/c/wavelets.c | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index ddef575..d5e5be2 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -357,6 +357,9 @@ cdef public class Wavelet [type WaveletType, object WaveletObject]:
             family_code, family_number = wname_to_code(self.name)
             if is_discrete_wav(family_code):
                 self.w = <wavelet.DiscreteWavelet*> wavelet.discrete_wavelet(family_code, family_number)
+                if self.w is NULL:
+                    raise MemoryError("Could not allocate memory for "
+                                      "wavelet '%s'." % self.name)
             if self.w is NULL:
                 if self.name in wavelist(kind='continuous'):
                     raise ValueError("The `Wavelet` class is for discrete "
@@ -736,6 +739,9 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
             family_code, family_number)
 
         if self.w is NULL:
+            if not is_discrete_wav(family_code):
+                raise MemoryError("Could not allocate memory for wavelet "
+                                  "'%s'." % self.name)
             raise ValueError("Invalid wavelet name '%s'." % self.name)
         self.number = family_number
 
diff --git a/pywt/_extensions/c/wavelets.c b/pywt/_extensions/c/wavelets.c
index a45531e..a9ecc6f 100644
--- a/pywt/_extensions/c/wavelets.c
+++ b/pywt/_extensions/c/wavelets.c
@@ -57,6 +57,8 @@ DiscreteWavelet* discrete_wavelet(WAVELET_NAME name, unsigned int order)
 
         /* the same as db1 */
         w = discrete_wavelet(DB, 1);
+        if (w == NULL) return NULL;
+
         w->base.family_name = "Haar";
         w->base.short_name = "haar";
         return w;
-- 
2.43.0


From eb49132dcb5661361c9cbeb5b52605b058f40d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:05 +0000
Subject: [PATCH 08/22] fix: pickling or copying a Wavelet lost its family,
 symmetry and other properties

---
 pywt/_extensions/_pywt.pyx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index d5e5be2..07cde59 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -434,7 +434,15 @@ cdef public class Wavelet [type WaveletType, object WaveletObject]:
             self.w = NULL
 
     def __reduce__(self):
-        return (Wavelet, (self.name, self.filter_bank))
+        if self.number is None:
+            args = (self.name, self.filter_bank)
+        else:
+            # builtin wavelet: the properties of its family come with the name
+            args = (self.name, )
+        return (Wavelet, args, (self.orthogonal, self.biorthogonal))
+
+    def __setstate__(self, state):
+        self.orthogonal, self.biorthogonal = state
 
     def __len__(self):
         return self.w.dec_len
-- 
2.43.0


From 567abd7d242b480d78df6335f0115ffbd24ea037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:05 +0000
Subject: [PATCH 09/22] fix: pickling or copying a ContinuousWavelet lost
 modified bounds and frequencies

---
 pywt/_extensions/_pywt.pyx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 07cde59..76061af 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -792,7 +792,17 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
             self.w = NULL
 
     def __reduce__(self):
-        return (ContinuousWavelet, (self.name, self.dt))
+        state = (self.orthogonal, self.biorthogonal, self.complex_cwt,
+                 self.w.lower_bound, self.w.upper_bound,
+                 self.w.center_frequency, self.w.bandwidth_frequency,
+                 self.w.fbsp_order)
+        return (ContinuousWavelet, (self.name, self.dt), state)
+
+    def __setstate__(self, state):
+        (self.orthogonal, self.biorthogonal, self.complex_cwt,
+         self.w.lower_bound, self.w.upper_bound,
+         self.w.center_frequency, self.w.bandwidth_frequency,
+         self.w.fbsp_order) = state
 
     property family_number:
         "Wavelet family number"
-- 
2.43.0


From e36d8923f57866451ae4dc855ff00c4e35eea88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:05 +0000
Subject: [PATCH 10/22] fix: WaveletPacketND.reconstruct failed for data or
 subnodes of odd size

---
 pywt/_wavelet_packets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 57ebcb9..787df44 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -675,6 +675,9 @@ class NodeND(BaseNode):
             )
         else:
             rec = idwtn(coeffs, self.wavelet, self.mode, axes=self.axes)
+            if self._data_shape is not None and (
+                    rec.shape != self._data_shape):
+                rec = rec[tuple([slice(sz) for sz in self._data_shape])]
             if update:
                 self.data = rec
             return rec
@@ -741,7 +744,7 @@ class WaveletPacket(Node):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple(slice(sz) for sz in self.data_size)]
             if update:
                 self.data = data
             return data
@@ -867,7 +870,7 @@ class WaveletPacket2D(Node2D):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple(slice(sz) for sz in self.data_size)]
             if update:
                 self.data = data
             return data
@@ -1015,7 +1018,7 @@ class WaveletPacketND(NodeND):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple(slice(sz) for sz in self.data_size)]
             if update:
                 self.data = data
             return data
-- 
2.43.0


From 962e609d4cbb87be701b824de3e3806852955674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:05 +0000
Subject: [PATCH 11/22] fix: pickling or copying a wavelet packet tree lost its
 axes and edited subnodes

---
 pywt/_wavelet_packets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 787df44..dba35f6 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -729,7 +729,8 @@ class WaveletPacket(Node):
 
     def __reduce__(self):
         return (WaveletPacket,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
+                (self.data, self.wavelet, self.mode, self.maxlevel, self.axes),
+                self.__dict__.copy())
 
     def reconstruct(self, update=True):
         """
@@ -855,7 +856,8 @@ class WaveletPacket2D(Node2D):
 
     def __reduce__(self):
         return (WaveletPacket2D,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
+                (self.data, self.wavelet, self.mode, self.maxlevel, self.axes),
+                self.__dict__.copy())
 
     def reconstruct(self, update=True):
         """
-- 
2.43.0


From 8bf47bac92d03319505ab94d01511b642977b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:05 +0000
Subject: [PATCH 12/22] fix: an interrupted wavelet packet decomposition or
 deletion left a half changed tree

---
 pywt/_wavelet_packets.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index dba35f6..b9b7516 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -182,7 +182,15 @@ class BaseNode:
 
         """
         if self.level < self.maxlevel:
-            return self._decompose()
+            subnodes = [(part, self._get_node(part)) for part in self.PARTS]
+            try:
+                return self._decompose()
+            except BaseException:
+                # all or nothing: a half attached set of subnodes would be
+                # taken for a complete one later on
+                for part, node in subnodes:
+                    self._set_node(part, node)
+                raise
         else:
             raise ValueError("Maximum decomposition level reached.")
 
@@ -321,9 +329,9 @@ class BaseNode:
         # # node._init_subnodes()
         # # node.data = None
         parent = node.parent
-        node.parent = None  # TODO
         if parent and node.node_name:
             parent._delete_node(node.node_name)
+        node.parent = None  # TODO
 
     @property
     def is_empty(self):
-- 
2.43.0


From 04d4c1ff4cd143b2bc93291cf7138ab5ff731f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:05 +0000
Subject: [PATCH 13/22] fix: pywt.data readers handed the same cached, writable
 array to every caller

---
 pywt/data/_readers.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pywt/data/_readers.py b/pywt/data/_readers.py
index 8c2e788..57ceb0d 100644
--- a/pywt/data/_readers.py
+++ b/pywt/data/_readers.py
@@ -8,6 +8,11 @@ _DATADIR = importlib.resources.files('pywt.data')
 
 
 @functools.cache
+def _load(name):
+    with importlib.resources.as_file(_DATADIR.joinpath(name + '.npz')) as f:
+        return np.load(f)['data']
+
+
 def ascent():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -41,13 +46,10 @@ def ascent():
     >>> plt.show()
 
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('ascent.npz')) as f:
-        ascent = np.load(f)['data']
-
-    return ascent
+    # callers own the array: never hand out the cached one
+    return _load('ascent').copy()
 
 
-@functools.cache
 def aero():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -78,13 +80,10 @@ def aero():
     >>> plt.show()
 
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('aero.npz')) as f:
-        aero = np.load(f)['data']
-
-    return aero
+    # callers own the array: never hand out the cached one
+    return _load('aero').copy()
 
 
-@functools.cache
 def camera():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -126,13 +125,10 @@ def camera():
     >>> plt.show()
 
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('camera.npz')) as f:
-        camera = np.load(f)['data']
-
-    return camera
+    # callers own the array: never hand out the cached one
+    return _load('camera').copy()
 
 
-@functools.cache
 def ecg():
     """
     Get 1024 points of an ECG timeseries.
@@ -158,13 +154,10 @@ def ecg():
     [<matplotlib.lines.Line2D object at ...>]
     >>> plt.show()
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('ecg.npz')) as f:
-        ecg = np.load(f)['data']
+    # callers own the array: never hand out the cached one
+    return _load('ecg').copy()
 
-    return ecg
 
-
-@functools.cache
 def nino():
     """
     This data contains the averaged monthly sea surface temperature in degrees
@@ -196,8 +189,7 @@ def nino():
     [<matplotlib.lines.Line2D object at ...>]
     >>> plt.show()
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('sst_nino3.npz')) as f:
-        sst_csv = np.load(f)['data']
+    sst_csv = _load('sst_nino3')
 
     # sst_csv = pd.read_csv("http://www.cpc.ncep.noaa.gov/data/indices/ersst4.nino.mth.81-10.ascii", sep=' ', skipinitialspace=True)
     # take only full years
-- 
2.43.0


From 0d6c177f23fe654ae81390599171932184c5bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:05 +0000
Subject: [PATCH 14/22] fix: demo_signal('list') returned the module's own list

---
 pywt/data/_wavelab_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 952c0b9..d673ee2 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -76,7 +76,7 @@ def demo_signal(name='Bumps', n=None):
 
     """
     if name.lower() == 'list':
-        return _implemented_signals
+        return list(_implemented_signals)
 
     if n is not None:
         if n < 1 or (n % 1) != 0:
-- 
2.43.0


From 648e4e9e427b0622102fc2e733805544e5e6050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:49 +0000
Subject: [PATCH 15/22] fix: assigning a node or list with complex values to a
 packet tree dropped the imaginary part

---
 pywt/_wavelet_packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index b9b7516..321ec59 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -307,7 +307,7 @@ class BaseNode:
                 else:
                     self.data = np.asarray(data)
                 # convert data to nearest supported dtype
-                dtype = _check_dtype(data)
+                dtype = _check_dtype(self.data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
         else:
-- 
2.43.0


From 85312510dd4d4bb6d842f353157de060d6b79965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:47 +0000
Subject: [PATCH 16/22] fix: idwt along an axis of zero length in periodization
 mode hung and wrote out of bounds

The expected output length is then zero, which idwt_axis passed on to the C
code; that loops over the coefficients with an unsigned count and never ends.
The 1D code path already rejects such coefficients with a ValueError.
---
 pywt/_extensions/_dwt.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 0fba429..14ca761 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -289,6 +289,10 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     output_shape = input_shape.copy()
     output_shape[axis] = common.idwt_buffer_length(input_shape[axis],
                                                    wavelet.rec_len, mode)
+    if output_shape[axis] < 1:
+        raise ValueError("Invalid coefficient arrays length for specified "
+                         "wavelet. Wavelet and mode must be the same as used "
+                         "for decomposition.")
     output = np.empty(output_shape, output_dtype)
 
     output_info.ndim = output.ndim
-- 
2.43.0


From 8ac3583599fc20585f250c14562abae7a68cf4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:07 +0000
Subject: [PATCH 17/22] fix: downcoef and upcoef accept any substring of 'ad'
 as part

'ad' and '' passed the membership test and were then answered as if the
detail coefficients had been asked for.
---
 pywt/_dwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 1af28d9..a6a1789 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -336,7 +336,7 @@ def downcoef(part, data, wavelet, mode='symmetric', level=1):
     data = np.asarray(data, dtype=dt, order='C')
     if data.ndim > 1:
         raise ValueError("downcoef only supports 1d data.")
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     mode = Modes.from_object(mode)
     wavelet = _as_wavelet(wavelet)
@@ -396,7 +396,7 @@ def upcoef(part, coeffs, wavelet, level=1, take=0):
     if coeffs.ndim > 1:
         raise ValueError("upcoef only supports 1d coeffs.")
     wavelet = _as_wavelet(wavelet)
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     return np.asarray(_upcoef(part == 'a', coeffs, wavelet, level, take))
 
-- 
2.43.0


From 0c3222936f69133f4981249d25419740ec53014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:07 +0000
Subject: [PATCH 18/22] fix: FswavedecnResult never checks its wavelets and
 modes

np.all of a generator expression is always true.
---
 pywt/_multilevel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 887ef7c..08b59a0 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -1225,11 +1225,11 @@ class FswavedecnResult:
         self._coeffs = coeffs
         self._coeff_slices = coeff_slices
         self._axes = axes
-        if not np.all(isinstance(w, Wavelet) for w in wavelets):
+        if not all(isinstance(w, Wavelet) for w in wavelets):
             raise ValueError(
                 "wavelets must contain pywt.Wavelet objects")
         self._wavelets = wavelets
-        if not np.all(isinstance(m, int) for m in mode_enums):
+        if not all(isinstance(m, int) for m in mode_enums):
             raise ValueError(
                 "mode_enums must be integers")
         self._mode_enums = mode_enums
-- 
2.43.0


From 54bce40543597522c3a2e2f51f8a323c81d27f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:56 +0000
Subject: [PATCH 19/22] fix: get_level(0, 'freq') of a wavelet packet tree
 returned no node

The root is the only node of level 0, in natural and in frequency order;
get_graycode_order(0) returned the two names of level 1 instead of the
empty path, so that no node was selected.
---
 pywt/_wavelet_packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 321ec59..31d8e01 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -20,8 +20,8 @@ from ._multidim import dwt2, dwtn, idwt2, idwtn
 
 
 def get_graycode_order(level, x='a', y='d'):
-    graycode_order = [x, y]
-    for i in range(level - 1):
+    graycode_order = [""]
+    for i in range(level):
         graycode_order = [x + path for path in graycode_order] + \
                          [y + path for path in graycode_order[::-1]]
     return graycode_order
-- 
2.43.0


From 47483e16c192f80204aa0691eee46f32fdc8c45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:05 +0000
Subject: [PATCH 20/22] fix: byte-swapped complex input lost its imaginary part

_check_dtype mapped every dtype other than the four native ones, half
and complex256 to float64; arrays of complex numbers in non-native byte
order were thus cast to real by dwt, idwt, downcoef, upcoef, swt, cwt
and everything built upon them (dwtn was right).
---
 pywt/_extensions/_pywt.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 76061af..f9e7c90 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -1063,9 +1063,11 @@ cpdef np.dtype _check_dtype(data):
             if dt == np.half:
                 # half-precision input converted to single precision
                 dt = np.dtype('float32')
-            elif dt == np.complex256:
-                # complex256 is not supported.  run at reduced precision
-                dt = np.dtype('complex128')
+            elif np.issubdtype(dt, np.complexfloating):
+                # complex256 is not supported.  run at reduced precision;
+                # byte-swapped complex input is converted to native order
+                dt = np.dtype('complex64' if np.can_cast(dt, np.complex64)
+                              else 'complex128')
             else:
                 # integer input was always accepted; convert to float64
                 dt = np.dtype('float64')
-- 
2.43.0


From 39352087a542b6f8268eef363f3950915d8d5b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:49 +0000
Subject: [PATCH 21/22] fix: 1-D transforms refused read-only arrays

dwt, downcoef and upcoef (and wavedec, mra and WaveletPacket, which call
dwt) raised 'buffer source array is read-only' for a one-dimensional
read-only array, such as a memory-mapped file or broadcast_to result,
while the n-dimensional path accepts it. A private copy is made for such
input, as for non-contiguous input.
---
 pywt/_dwt.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index a6a1789..d8cbde7 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -169,7 +169,7 @@ def dwt(data, wavelet, mode='symmetric', axis=-1):
 
     # accept array_like input; make a copy to ensure a contiguous array
     dt = _check_dtype(data)
-    data = np.asarray(data, dtype=dt, order='C')
+    data = np.require(data, dtype=dt, requirements='CWE')
     mode = Modes.from_object(mode)
     wavelet = _as_wavelet(wavelet)
 
@@ -254,10 +254,10 @@ def idwt(cA, cD, wavelet, mode='symmetric', axis=-1):
 
     if cA is not None:
         dt = _check_dtype(cA)
-        cA = np.asarray(cA, dtype=dt, order='C')
+        cA = np.require(cA, dtype=dt, requirements='CWE')
     if cD is not None:
         dt = _check_dtype(cD)
-        cD = np.asarray(cD, dtype=dt, order='C')
+        cD = np.require(cD, dtype=dt, requirements='CWE')
 
     if cA is not None and cD is not None:
         if cA.dtype != cD.dtype:
@@ -333,7 +333,7 @@ def downcoef(part, data, wavelet, mode='symmetric', level=1):
                 1j*downcoef(part, data.imag, wavelet, mode, level))
     # accept array_like input; make a copy to ensure a contiguous array
     dt = _check_dtype(data)
-    data = np.asarray(data, dtype=dt, order='C')
+    data = np.require(data, dtype=dt, requirements='CWE')
     if data.ndim > 1:
         raise ValueError("downcoef only supports 1d data.")
     if part not in ('a', 'd'):
@@ -392,7 +392,7 @@ def upcoef(part, coeffs, wavelet, level=1, take=0):
                 1j*upcoef(part, coeffs.imag, wavelet, level, take))
     # accept array_like input; make a copy to ensure a contiguous array
     dt = _check_dtype(coeffs)
-    coeffs = np.asarray(coeffs, dtype=dt, order='C')
+    coeffs = np.require(coeffs, dtype=dt, requirements='CWE')
     if coeffs.ndim > 1:
         raise ValueError("upcoef only supports 1d coeffs.")
     wavelet = _as_wavelet(wavelet)
-- 
2.43.0


From b8794da953324d6c9abf74bf9179b667d427acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:59 +0000
Subject: [PATCH 22/22] fix: downcoef of a single sample in a reflect mode
 never returned

The extension loops of the [anti]reflect modes do not advance for a
signal of length 1; dwt refuses such input, downcoef did not (also when
a deeper level reaches length 1) and hung uninterruptibly.
---
 pywt/_extensions/_dwt.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 14ca761..8d6514b 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -447,6 +447,9 @@ cpdef downcoef(bint do_dec_a, cdata_t[::1] data, Wavelet wavelet, MODE mode, int
         if output_len < 1:
             raise RuntimeError("Invalid output length.")
 
+        if data_size == 1 and (mode == MODE.MODE_REFLECT or mode == MODE.MODE_ANTIREFLECT):
+            raise ValueError("Input data length must be greater than 1 for [anti]reflect mode.")
+
         # To mirror multi-level wavelet decomposition behaviour, when detail
         # coefficients are requested, the dec_d variant is only called at the
         # final level.  All prior levels use dec_a.  In other words, the detail
-- 
2.43.0


From d5c9e2b8501607d473f26b4ce1edbc2c26b80b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 01/40] fix: indexing with -1 selects the last item

An index of -1 was converted to slice(-1, 0), which is empty.
---
 sumpf/_internal/_indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_indexing.py b/sumpf/_internal/_indexing.py
index 009e393..0ab66c6 100644
--- a/sumpf/_internal/_indexing.py
+++ b/sumpf/_internal/_indexing.py
@@ -54,7 +54,7 @@ def key_to_slices(key, shape):
     :returns: a slice or a tuple of slices, if the shape is multidimensional
     """
     if isinstance(key, int):
-        return slice(key, key + 1)
+        return slice(key, key + 1 or None)
     elif isinstance(key, float):
         key = index(key, (shape[0] - 1))
         return slice(key, key + 1)
-- 
2.43.0


From 4cd70f4852f72f758d92d52f9e1cb520aa56bc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 02/40] fix: slices that start before the first sample keep the
 offset

A start index below -length is clipped to the first sample, but it still
moved the offset of the sliced signal or spectrogram.
---
 sumpf/_data/_signals/_signal.py           | 2 +-
 sumpf/_data/_spectrograms/_spectrogram.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index cb9a430..106aa8e 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -108,7 +108,7 @@ class Signal(SampledData):
         if isinstance(slices, tuple):
             if slices[1].start:
                 if slices[1].start < 0:
-                    offset += self._length + slices[1].start
+                    offset += max(self._length + slices[1].start, 0)
                 else:
                     offset += slices[1].start
             c = slices[0]
diff --git a/sumpf/_data/_spectrograms/_spectrogram.py b/sumpf/_data/_spectrograms/_spectrogram.py
index 69522b2..1192b0a 100644
--- a/sumpf/_data/_spectrograms/_spectrogram.py
+++ b/sumpf/_data/_spectrograms/_spectrogram.py
@@ -113,7 +113,7 @@ class Spectrogram(SampledData):
             if len(slices) == 3:
                 if slices[2].start:
                     if slices[2].start < 0:
-                        offset += self._length + slices[2].start
+                        offset += max(self._length + slices[2].start, 0)
                     else:
                         offset += slices[2].start
             c = slices[0]
-- 
2.43.0


From fdb849353001aa0d8bb334560669537c4f88a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 03/40] fix: NumPy operands on the left side of signals,
 spectra and filters

NumPy tried to convert the other operand to an array. Since the indexing
operators of these classes return nested sequences, this conversion did not
end before the memory was exhausted, e.g. for numpy.float64(2.0) * signal,
numpy.array([...]) * signal or signal + spectrum.
---
 sumpf/_data/_filters/_base/_filter.py | 2 ++
 sumpf/_data/_sampled_data.py          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 028bc70..19f4ed0 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -105,6 +105,8 @@ class Filter:
          simply ``1 / filter_``.
     """
     # terms for defining transfer functions
+    __array_ufunc__ = None  # makes NumPy leave the operators to this class rather than converting its instances to arrays
+
     Constant = terms.Constant.factory
     Polynomial = terms.Polynomial.factory
     Exp = terms.Exp.factory
diff --git a/sumpf/_data/_sampled_data.py b/sumpf/_data/_sampled_data.py
index 1bb5c52..9f8b0cf 100644
--- a/sumpf/_data/_sampled_data.py
+++ b/sumpf/_data/_sampled_data.py
@@ -23,6 +23,8 @@ import sumpf._internal as sumpf_internal
 class SampledData:
     """Base class for data containers with channels of sampled data and labels."""
 
+    __array_ufunc__ = None  # makes NumPy leave the operators to this class rather than converting its instances to arrays
+
     def __init__(self, channels, labels):
         """
         :param channels: a two-dimensional :func:`numpy.array`
-- 
2.43.0


From 8d6a6b710c7cbf49ff433b989a40cb41d07109ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 04/40] fix: refuse to subtract a filter from a signal or to
 divide a signal by a filter

These operators wrapped the signal or spectrum in a Constant term.
---
 sumpf/_data/_filters/_base/_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 19f4ed0..5533107 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -299,6 +299,8 @@ class Filter:
 
     def __rsub__(self, other):
         """Right hand side operator overload for subtracting this from a number."""
+        if not isinstance(other, (int, float, complex, numpy.number)):
+            return NotImplemented
         number = terms.Constant(other)
         return Filter(transfer_functions=tuple(number - tf for tf in self.__transfer_functions),
                       labels=self.__labels)
@@ -367,6 +369,8 @@ class Filter:
 
     def __rtruediv__(self, other):
         """Right hand side operator overload for dividing a number by this."""
+        if not isinstance(other, (int, float, complex, numpy.number)):
+            return NotImplemented
         number = terms.Constant(other)
         return Filter(transfer_functions=tuple(number / tf for tf in self.__transfer_functions),
                       labels=self.__labels)
-- 
2.43.0


From 7e10f5f83a0bfd99e2bbd0a401d532fb8bc3a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 05/40] fix: label every channel of a convolution or
 correlation result, also if only the other signal has multiple channels

---
 sumpf/_data/_signals/_signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 106aa8e..7790116 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -675,7 +675,7 @@ class Signal(SampledData):
                                                           other_offset=other.offset(),
                                                           function=sumpf_internal.convolution,
                                                           mode=mode)
-            labels = ("Convolution",) * len(self._channels)
+            labels = ("Convolution",) * len(channels)
         else:
             channels, offset = self.__convolve_with_array(other=other,
                                                           other_offset=0,
@@ -713,7 +713,7 @@ class Signal(SampledData):
                                                           other_offset=other.offset(),
                                                           function=sumpf_internal.correlation,
                                                           mode=mode)
-            labels = ("Correlation",) * len(self._channels)
+            labels = ("Correlation",) * len(channels)
         else:
             channels, offset = self.__convolve_with_array(other=other,
                                                           other_offset=0,
-- 
2.43.0


From 8693772ee2f519e236b52752aba6efa84a4fd050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 06/40] fix: do not skip the block at the start of a signal
 that is shorter than the window of the block-wise Fourier transform

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 7790116..0b67965 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -473,7 +473,7 @@ class Signal(SampledData):
                     numpy.exp(compensation, out=compensated)
                     compensated *= spectrum
                     channels += compensated
-            i = 0
+            i = -step
             for i in range(0, self._length - window_length + 1, step):
                 numpy.multiply(self._channels[:, i:window_length + i],
                                window_channels,
-- 
2.43.0


From bf9021f6d09e0acb811a0e2d6a145b79f28b70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 07/40] fix: compensate the offset's remainder at the
 spectrogram's actual frequencies in the short time Fourier transform

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 0b67965..980603e 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -556,7 +556,7 @@ class Signal(SampledData):
         offset = int(round(self.__offset / step))
         offset_remainder = self.__offset - (offset * step)
         if offset_remainder:
-            max_frequency = (window_length - 1) * resolution
+            max_frequency = (window_length // 2) * resolution
             compensation = numpy.linspace(0.0, max_frequency, window_length // 2 + 1, dtype=numpy.complex128)
             compensation *= -1j * 2.0 * math.pi * (offset_remainder / self.__sampling_rate)
             numpy.exp(compensation, out=compensation)
-- 
2.43.0


From 13e17b78d54712f34a3a41ec4918452627dbfe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 08/40] fix: weight the corners of the integration interval
 correctly in the level over time, also for short signals

---
 sumpf/_data/_signals/_signal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 980603e..03ad1d8 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -606,7 +606,7 @@ class Signal(SampledData):
         half_window_length_float = (window_length - 1.0) / 2.0
         half_window_length = int(math.ceil(half_window_length_float))
         channels = sumpf_internal.allocate_array(shape=self._channels.shape)
-        if 1 + half_window_length >= self._length:
+        if 1 + half_window_length_float >= self._length:
             # if half the integration time is longer than the whole signal, the level is constant over time
             if pad:
                 levels = numpy.linalg.norm(self._channels, axis=1) / math.sqrt(window_length)
@@ -619,7 +619,7 @@ class Signal(SampledData):
             remainder = half_window_length - half_window_length_float
             window = numpy.full(1 + 2 * half_window_length, 1.0 / window_length)
             if remainder:
-                corner = remainder / window_length
+                corner = (1.0 - remainder) / window_length
                 window[0] = corner
                 window[-1] = corner
             square = numpy.square(self._channels)
@@ -643,7 +643,7 @@ class Signal(SampledData):
                     numpy.sqrt(numpy.convolve(s, window, mode="same")[a:b], out=c)
                 if not pad:
                     # compute a compensation for the start and the end of the level signal, where the convolution has assumed a zero padding
-                    correction = numpy.empty(self._length)
+                    correction = numpy.full(self._length, window_length)
                     correction[0:half_window_length] = numpy.linspace(1 + half_window_length_float,
                                                                       half_window_length + half_window_length_float,
                                                                       half_window_length)
-- 
2.43.0


From b8c25b2c9f8c54666010600bb4f75e2d897a9c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 09/40] fix: count the only bin of a spectrum just once in its
 level

---
 sumpf/_data/_spectrums/_spectrum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 5a64aeb..431bcb5 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -379,11 +379,12 @@ class Spectrum(SampledData):
         signal_length = max(1, (self._length - 1) * 2)
         abs_ = numpy.abs(self._channels)
         square = numpy.square(abs_, out=abs_)
+        step = max(1, self._length - 1)     # for picking the first and the last bin, which are the same for a length of 1
         if single_value:
-            sum_ = math.fsum(math.fsum((math.fsum(c[1:-1]) * 2, c[0], c[-1])) for c in square)
+            sum_ = math.fsum(math.fsum((math.fsum(c[1:-1]) * 2, *c[::step])) for c in square)
             return math.sqrt(sum_ / len(self)) / signal_length
         else:
-            return numpy.fromiter((math.sqrt(math.fsum((math.fsum(c[1:-1]) * 2, c[0], c[-1]))) / signal_length for c in square),    # pylint: disable=line-too-long; don't know where to break without making the readability even worse
+            return numpy.fromiter((math.sqrt(math.fsum((math.fsum(c[1:-1]) * 2, *c[::step]))) / signal_length for c in square),    # pylint: disable=line-too-long; don't know where to break without making the readability even worse
                                   dtype=numpy.float64)
 
     #######################
-- 
2.43.0


From c0e4823b3f26d55329bf7ba43f216792db5d74ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:29 +0000
Subject: [PATCH 10/40] fix: transform a difference of which the minuend is
 zero

---
 sumpf/_data/_filters/_base/_terms/_binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_binary.py b/sumpf/_data/_filters/_base/_terms/_binary.py
index 92600f5..9a0ecb1 100644
--- a/sumpf/_data/_filters/_base/_terms/_binary.py
+++ b/sumpf/_data/_filters/_base/_terms/_binary.py
@@ -165,7 +165,10 @@ class Difference(Term):
             else:
                 return minuend
         elif minuend.is_zero():
-            return -subtrahend
+            if transform:
+                return -(subtrahend.invert_transform())
+            else:
+                return -subtrahend
         elif minuend == subtrahend:
             return Constant(0.0)
         else:
-- 
2.43.0


From 532bf76eec3b2f8466ce669f8c7b5392c0b2fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 11/40] fix: highpass channels of a filter do not change the
 other channels at 0 Hz

---
 sumpf/_data/_filters/_base/_filter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 5533107..6b2c1e9 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -152,11 +152,10 @@ class Filter:
                   is a number or an array, if ``frequencies`` is a sequence.
         """
         if not numpy.shape(frequencies):    # create an array if frequencies is a scalar value
-            s = S(numpy.reshape(frequencies, (1, 1)))
-            return tuple(tf(s)[0, 0] for tf in self.__transfer_functions)
+            frequencies = numpy.reshape(frequencies, (1, 1))
+            return tuple(tf(S(frequencies))[0, 0] for tf in self.__transfer_functions)
         else:
-            s = S(frequencies)
-            return tuple(tf(s) for tf in self.__transfer_functions)
+            return tuple(tf(S(frequencies)) for tf in self.__transfer_functions)
 
     def __len__(self):
         """Operator overload for retrieving the filter's number of channels with
@@ -419,10 +418,9 @@ class Filter:
         :returns: a :class:`~sumpf.Spectrum` instance
         """
         frequencies = numpy.linspace(0.0, (length - 1) * resolution, length)
-        s = S(frequencies)
         channels = sumpf_internal.allocate_array(shape=(len(self.__transfer_functions), length), dtype=numpy.complex128)
         for tf, c in zip(self.__transfer_functions, channels):
-            tf(s, out=c)
+            tf(S(frequencies), out=c)
         return sumpf.Spectrum(channels=channels, resolution=resolution, labels=self.__labels)
 
     #######################
-- 
2.43.0


From 184f1820ea28dbeec1806a706b5c55b0b5bfe928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 12/40] fix: call filters with bands for a sequence of
 frequencies

---
 sumpf/_data/_filters/_base/_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 6b2c1e9..78e5933 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -155,6 +155,7 @@ class Filter:
             frequencies = numpy.reshape(frequencies, (1, 1))
             return tuple(tf(S(frequencies))[0, 0] for tf in self.__transfer_functions)
         else:
+            frequencies = numpy.asarray(frequencies)
             return tuple(tf(S(frequencies)) for tf in self.__transfer_functions)
 
     def __len__(self):
-- 
2.43.0


From 5da3bd17b394a955949af9b8b25aac66e7806e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 13/40] fix: adding a highpass does not remove the 0 Hz sample
 of a lowpass

---
 sumpf/_data/_filters/_base/_s.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_s.py b/sumpf/_data/_filters/_base/_s.py
index f7109db..15a3717 100644
--- a/sumpf/_data/_filters/_base/_s.py
+++ b/sumpf/_data/_filters/_base/_s.py
@@ -57,13 +57,14 @@ class S:
     def fix(self, result):
         """Replaces the samples of the filter's transfer function for 0Hz with 0.0,
         if a lowpass-to-highpass transform has made them invalid, because ``1 / s``
-        is a division by zero in this case.
+        is a division by zero in this case. Since this method is called for terms,
+        that are not transformed themselves, finite samples are left as they are.
 
         :param result: the resulting array of the sampling (the samples will be replaced in place)
         :returns: the resulting array
         """
         if self.__transformed:
-            return self.__transformed.fix(result)
+            return self.__transformed.fix(result, keep_finite=True)
         else:
             return result
 
@@ -116,16 +117,22 @@ class TransformedS:
         """
         return self.__origin.frequencies()
 
-    def fix(self, result):
+    def fix(self, result, keep_finite=False):
         """Replaces the samples of the filter's transfer function for 0Hz with 0.0,
         if a lowpass-to-highpass transform has made them invalid, because ``1 / s``
         is a division by zero in this case.
 
         :param result: the resulting array of the sampling (the samples will be replaced in place)
+        :param keep_finite: True, if only infinities and NaNs shall be replaced, False otherwise
         :returns: the resulting array
         """
         if self.__invalid:
-            result[self.__invalid] = 0.0
+            if keep_finite:
+                samples = result[self.__invalid]
+                finite = numpy.isfinite(samples.astype(numpy.complex128))
+                result[self.__invalid] = numpy.where(finite, samples, 0.0)
+            else:
+                result[self.__invalid] = 0.0
         return result
 
     def transform(self):
-- 
2.43.0


From 507fe7dd88bff95004503887195562faf61f2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 14/40] fix: read npy files with Python 3.11 and newer, which
 raises a TypeError for a missing context manager

---
 sumpf/_internal/_persistence/_filter_readers.py   | 2 +-
 sumpf/_internal/_persistence/_signal_readers.py   | 2 +-
 sumpf/_internal/_persistence/_spectrum_readers.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 5b590cd..06c62f3 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -298,7 +298,7 @@ class NumpyReader(Reader):
                 interpolations = tuple(data["interpolations"])
                 extrapolations = tuple(data["extrapolations"])
                 labels = tuple(data["labels"])
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):  # npy files cannot be opened with a context manager
             array = numpy.load(path).transpose()
             frequencies = array[0].real
             channels = array[1:]
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 58c925e..6a2ba34 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -150,7 +150,7 @@ class NumpyReader(Reader):
         try:
             with numpy.load(path) as data:
                 return from_dict(data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):  # npy files cannot be opened with a context manager
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(time_column=array[0],
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 8f72e0b..261b7b3 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -177,7 +177,7 @@ class NumpyReader(Reader):
                 channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
                 channels[:] = data["channels"]
                 return from_dict(channels, data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):  # npy files cannot be opened with a context manager
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(frequency_column=array[0].real,
-- 
2.43.0


From 89c167e10736787c075ffb9e5625163a8593fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 15/40] fix: load empty spectrums and spectrograms from JSON
 files with all their channels and axes

---
 sumpf/_internal/_persistence/_spectrogram_readers.py | 8 ++++----
 sumpf/_internal/_persistence/_spectrum_readers.py    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index a204bf7..d84a9c1 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -73,13 +73,13 @@ class JsonReader(Reader):
                                 numpy.multiply(1j, c["imaginary"], out=channels[i])
                                 numpy.add(channels[i], c["real"], out=channels[i])
                         else:
-                            channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                            channels = numpy.empty(shape=(number_of_channels, number_of_bins, 0), dtype=numpy.complex128)
                     else:
-                        channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                        channels = numpy.empty(shape=(number_of_channels, 0, 0), dtype=numpy.complex128)
                 else:
-                    channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                    channels = numpy.empty(shape=(1, 0, 0), dtype=numpy.complex128)
             else:
-                channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                channels = numpy.empty(shape=(1, 0, 0), dtype=numpy.complex128)
             return from_dict(channels, data)
 
 
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 261b7b3..06eed97 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -154,7 +154,7 @@ class JsonReader(Reader):
                             numpy.multiply(1j, c["imaginary"], out=channels[i])
                             numpy.add(channels[i], c["real"], out=channels[i])
                     else:
-                        channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                        channels = numpy.empty(shape=(number_of_channels, 0), dtype=numpy.complex128)
                 else:
                     channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
             else:
-- 
2.43.0


From d53de0400e48de23e7842ab7426c50fb7fc85724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 16/40] fix: the representation of a filter can be evaluated
 for its subclasses, too

---
 sumpf/_data/_filters/_base/_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 78e5933..d342050 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -182,7 +182,7 @@ class Filter:
 
         :returns: a potentially very long string
         """
-        return (f"{self.__class__.__name__}(transfer_functions={self.__transfer_functions!r}, "
+        return (f"Filter(transfer_functions={self.__transfer_functions!r}, "
                 f"labels={self.__labels})")
 
     def __eq__(self, other):
-- 
2.43.0


From 7c0e38e935e227b2b25ffaace1defa0a2aaee8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 17/40] fix: write filters with complex or numpy coefficients
 to JSON files

---
 sumpf/_data/_filters/_base/_functions.py      | 19 ++++++++++++++++++-
 .../_data/_filters/_base/_terms/_primitive.py | 15 +++++----------
 .../_internal/_persistence/_filter_readers.py |  7 +++----
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_functions.py b/sumpf/_data/_filters/_base/_functions.py
index 2c22ebf..95d9dda 100644
--- a/sumpf/_data/_filters/_base/_functions.py
+++ b/sumpf/_data/_filters/_base/_functions.py
@@ -17,8 +17,9 @@
 """Contains helper functions for defining filters"""
 
 import math
+import numpy
 
-__all__ = ("frequency_scaling", "copy_to_out")
+__all__ = ("frequency_scaling", "copy_to_out", "serializable")
 
 
 def frequency_scaling(cutoff_frequency, highpass):
@@ -49,3 +50,19 @@ def copy_to_out(result, out):
     else:
         out[:] = result
         return out
+
+
+def serializable(value):
+    """Converts a number or a sequence of numbers to built-in types, that can be
+    stored in a JSON file.
+
+    :param value: a number or a sequence of numbers
+    :returns: a built-in number or a list of them. For complex numbers, a dictionary
+              with such values for the keys ``"real"`` and ``"imaginary"``
+    """
+    array = numpy.asarray(value)
+    if numpy.iscomplexobj(array):
+        return {"real": numpy.real(array).tolist(),
+                "imaginary": numpy.imag(array).tolist()}
+    else:
+        return array.tolist()
diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 4a194a5..8aedc20 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -162,7 +162,7 @@ class Constant(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Constant",
-                "value": self.value}
+                "value": functions.serializable(self.value)}
 
 
 class Polynomial(Term):
@@ -305,7 +305,7 @@ class Polynomial(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Polynomial",
-                "coefficients": tuple(self.coefficients),
+                "coefficients": functions.serializable(self.coefficients),
                 "transform": self.transform}
 
 
@@ -381,7 +381,7 @@ class Exp(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Exp",
-                "coefficient": self.coefficient,
+                "coefficient": functions.serializable(self.coefficient),
                 "transform": self.transform}
 
 
@@ -610,13 +610,8 @@ class Bands(Term):
 
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
-        if self.ys.dtype in (numpy.complex128, numpy.complex256, numpy.complex64):
-            ys = {"real": tuple(numpy.real(self.ys)),
-                  "imaginary": tuple(numpy.imag(self.ys))}
-        else:
-            ys = tuple(self.ys)
         return {"type": "Bands",
-                "xs": tuple(self.xs),
-                "ys": ys,
+                "xs": functions.serializable(self.xs),
+                "ys": functions.serializable(self.ys),
                 "interpolation": int(self.interpolation),
                 "extrapolation": int(self.extrapolation)}
diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 06c62f3..56a522e 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -66,10 +66,9 @@ def term_from_dict(dictionary):
                     real = parameter["real"]
                     imaginary = parameter["imaginary"]
                     a = numpy.empty(shape=numpy.shape(real), dtype=numpy.complex128)
-                    a[:] = imaginary
-                    a *= 1j
-                    a += real
-                    parameters[name] = a
+                    a.real = real
+                    a.imag = imaginary
+                    parameters[name] = a if a.shape else complex(a)
                 else:
                     parameters[name] = parameter
             elif isinstance(parameter, collections.abc.Iterable):
-- 
2.43.0


From a3b4e610e056313f56803e3eb52fb92be448d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 18/40] fix: write tables of bands with integer frequencies

---
 sumpf/_internal/_persistence/_filter_writers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_writers.py b/sumpf/_internal/_persistence/_filter_writers.py
index c9e9ae9..dec9530 100644
--- a/sumpf/_internal/_persistence/_filter_writers.py
+++ b/sumpf/_internal/_persistence/_filter_writers.py
@@ -19,6 +19,7 @@
 import csv
 import enum
 import json
+import numbers
 import pickle
 import numpy
 import sumpf._internal as sumpf_internal
@@ -221,7 +222,7 @@ class TextTabIWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -257,7 +258,7 @@ class TextTabJWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -293,7 +294,7 @@ class TextPipeIWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -329,7 +330,7 @@ class TextPipeJWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -366,7 +367,7 @@ class TextGnuplotWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "{nan, nan}"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             return f"{{{number.real!r},{number.imag!r}}}"
-- 
2.43.0


From e62e599302074f7bb0f80db07313efd7285eb6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 19/40] fix: evaluate infinities and NaN when loading the
 representation of a filter

---
 sumpf/_internal/_persistence/_filter_readers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 56a522e..0912192 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -116,7 +116,11 @@ class ReprReader(Reader):
                                          "Interpolations": sumpf_internal.Interpolations,
                                          "array": numpy.array,
                                          "float64": numpy.float64,
-                                         "complex128": numpy.complex128})
+                                         "complex128": numpy.complex128,
+                                         "inf": numpy.inf,
+                                         "nan": numpy.nan,
+                                         "infj": complex(0.0, numpy.inf),
+                                         "nanj": complex(0.0, numpy.nan)})
             assert isinstance(result, sumpf.Filter)
             return result
 
-- 
2.43.0


From 02b72a8db5f5dc281b86b0860455ee8eb12f36f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 20/40] fix: save full scale samples in integer audio files

---
 sumpf/_internal/_persistence/_signal_writers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index b75f1ba..e78533e 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -256,6 +256,8 @@ class StandardLibraryWriter:
         total_chunk_size = (number_of_channels * chunk_size)
         mask = f"{self.__endianness}{total_chunk_size}{self.__sample_mask}"
         array = numpy.empty(number_of_channels * chunk_size)
+        minimum = -self.__factor if self.__signed else 0
+        maximum = minimum + 2 * self.__factor - 1
         with self.__module.open(path, "wb") as f:
             f.setnchannels(number_of_channels)
             f.setsampwidth(self.__bytes_per_sample)
@@ -267,7 +269,7 @@ class StandardLibraryWriter:
                 if not self.__signed:
                     array += 1.0
                 array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *numpy.clip(numpy.round(array), minimum, maximum).astype(int))
                 f.writeframes(chunk)
                 i += chunk_size
             remaining_samples = number_of_samples - i
@@ -283,7 +285,7 @@ class StandardLibraryWriter:
                 if not self.__signed:
                     array += 1.0
                 array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *numpy.clip(numpy.round(array), minimum, maximum).astype(int))
                 f.writeframes(chunk)
 
 
-- 
2.43.0


From 55f4b4ae05d135b4b9ce193828fd6de9e7ef7713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 21/40] fix: compare bands with different numbers of
 frequencies

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 8aedc20..6fdd3c4 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -512,8 +512,8 @@ class Bands(Term):
             return False
         elif (self.interpolation != other.interpolation or
               self.extrapolation != other.extrapolation or
-              numpy.not_equal(self.xs, other.xs).any() or
-              numpy.not_equal(self.ys, other.ys).any()):
+              not numpy.array_equal(self.xs, other.xs) or
+              not numpy.array_equal(self.ys, other.ys)):
             return False
         return super().__eq__(other)
 
-- 
2.43.0


From cf4a292823070c8470abf536508d9e7e1611d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 22/40] fix: comparing a term with a zero constant is symmetric
 and possible for other objects

---
 sumpf/_data/_filters/_base/_terms/_binary.py    |  8 ++++----
 sumpf/_data/_filters/_base/_terms/_primitive.py | 10 +++++-----
 sumpf/_data/_filters/_base/_terms/_unary.py     |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_binary.py b/sumpf/_data/_filters/_base/_terms/_binary.py
index 9a0ecb1..5dd030c 100644
--- a/sumpf/_data/_filters/_base/_terms/_binary.py
+++ b/sumpf/_data/_filters/_base/_terms/_binary.py
@@ -110,7 +110,7 @@ class Sum(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Sum):
-            return False
+            return NotImplemented
         elif len(self.summands) != len(other.summands):
             return False
         for s1, s2 in zip(self.summands, other.summands):
@@ -226,7 +226,7 @@ class Difference(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Difference):
-            return False
+            return NotImplemented
         elif self.minuend != other.minuend:
             return False
         elif self.subtrahend != other.subtrahend:
@@ -353,7 +353,7 @@ class Product(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Product):
-            return False
+            return NotImplemented
         elif len(self.factors) != len(other.factors):
             return False
         for f1, f2 in zip(self.factors, other.factors):
@@ -462,7 +462,7 @@ class Quotient(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``"""
         if not isinstance(other, Quotient):
-            return False
+            return NotImplemented
         elif self.numerator != other.numerator:
             return False
         elif self.denominator != other.denominator:
diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 6fdd3c4..9f85438 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -88,10 +88,10 @@ class Constant(Term):
 
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
-        if self.value == 0.0 and other.is_zero():
+        if isinstance(other, Term) and self.value == 0.0 and other.is_zero():
             return True
         elif not isinstance(other, Constant):
-            return False
+            return NotImplemented
         elif self.value != other.value:
             return False
         return super().__eq__(other)
@@ -249,7 +249,7 @@ class Polynomial(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Polynomial):
-            return False
+            return NotImplemented
         elif numpy.shape(self.coefficients) != numpy.shape(other.coefficients):
             return False
         elif numpy.not_equal(self.coefficients, other.coefficients).any():
@@ -365,7 +365,7 @@ class Exp(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Exp):
-            return False
+            return NotImplemented
         elif self.coefficient != other.coefficient:
             return False
         return super().__eq__(other)
@@ -509,7 +509,7 @@ class Bands(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Bands):
-            return False
+            return NotImplemented
         elif (self.interpolation != other.interpolation or
               self.extrapolation != other.extrapolation or
               not numpy.array_equal(self.xs, other.xs) or
diff --git a/sumpf/_data/_filters/_base/_terms/_unary.py b/sumpf/_data/_filters/_base/_terms/_unary.py
index 0453047..1defb4e 100644
--- a/sumpf/_data/_filters/_base/_terms/_unary.py
+++ b/sumpf/_data/_filters/_base/_terms/_unary.py
@@ -86,7 +86,7 @@ class Absolute(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Absolute):
-            return False
+            return NotImplemented
         elif self.value != other.value:
             return False
         return super().__eq__(other)
@@ -170,7 +170,7 @@ class Negative(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Negative):
-            return False
+            return NotImplemented
         elif self.value != other.value:
             return False
         return super().__eq__(other)
-- 
2.43.0


From a0f1c1174aeb199f698ae3b024f97412b870793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 23/40] fix: write data sets with other data types than float64
 and complex128 to JSON files

---
 sumpf/_internal/_persistence/_signal_writers.py      | 2 +-
 sumpf/_internal/_persistence/_spectrogram_writers.py | 4 ++--
 sumpf/_internal/_persistence/_spectrum_writers.py    | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index e78533e..a97616a 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -121,7 +121,7 @@ writers[Formats.AUTO] = AutoWriter(file_extension_mapping=file_extension_mapping
 
 def as_dict(signal):
     """Serializes a signal to a dictionary."""
-    return {"channels": [tuple(c) for c in signal.channels()],
+    return {"channels": signal.channels().tolist(),
             "sampling_rate": signal.sampling_rate(),
             "offset": signal.offset(),
             "labels": signal.labels()}
diff --git a/sumpf/_internal/_persistence/_spectrogram_writers.py b/sumpf/_internal/_persistence/_spectrogram_writers.py
index d3ef853..68369ea 100644
--- a/sumpf/_internal/_persistence/_spectrogram_writers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_writers.py
@@ -81,8 +81,8 @@ def as_dict(spectrogram):
     """Serializes a spectrogram to a dictionary."""
     channels = []
     for c in spectrogram.channels():
-        channel = {"real": [tuple(s) for s in numpy.real(c)],
-                   "imaginary": [tuple(s) for s in numpy.imag(c)]}
+        channel = {"real": numpy.real(c).tolist(),
+                   "imaginary": numpy.imag(c).tolist()}
         channels.append(channel)
     return {"channels": channels,
             "resolution": spectrogram.resolution(),
diff --git a/sumpf/_internal/_persistence/_spectrum_writers.py b/sumpf/_internal/_persistence/_spectrum_writers.py
index 7587716..0296f45 100644
--- a/sumpf/_internal/_persistence/_spectrum_writers.py
+++ b/sumpf/_internal/_persistence/_spectrum_writers.py
@@ -84,8 +84,8 @@ writers[Formats.AUTO] = AutoWriter(file_extension_mapping=file_extension_mapping
 
 def as_dict(spectrum):
     """Serializes a spectrum to a dictionary."""
-    return {"channels": [{"real": tuple(numpy.real(c)),
-                          "imaginary": tuple(numpy.imag(c))}
+    return {"channels": [{"real": numpy.real(c).tolist(),
+                          "imaginary": numpy.imag(c).tolist()}
                          for c in spectrum.channels()],
             "resolution": spectrum.resolution(),
             "labels": spectrum.labels()}
-- 
2.43.0


From 4f9e8551653bafdad3c9492077a866457d8598e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 24/40] fix: allocate arrays of data types with less than eight
 bytes

---
 sumpf/_internal/_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_functions.py b/sumpf/_internal/_functions.py
index 1a1fda0..1c32e2a 100644
--- a/sumpf/_internal/_functions.py
+++ b/sumpf/_internal/_functions.py
@@ -34,12 +34,12 @@ def allocate_array(shape, dtype=numpy.float64):
     :returns: a :func:`numpy.array`
     """
     # compute the required memory
-    factor = numpy.dtype(dtype).itemsize // numpy.dtype(numpy.float64).itemsize
-    size = factor * int(numpy.prod(shape))
+    count = int(numpy.prod(shape))
+    size = -(-count * numpy.dtype(dtype).itemsize // numpy.dtype(numpy.float64).itemsize)
     # allocate a flat array in the shared memory
     flat_array = sharedctypes.RawArray(ctypes.c_double, size)
     # cast the array into a NumPy array with the desired shape and dtype
-    shaped_array = numpy.frombuffer(flat_array, dtype=dtype).reshape(shape)
+    shaped_array = numpy.frombuffer(flat_array, dtype=dtype, count=count).reshape(shape)
     return shaped_array
 
 
-- 
2.43.0


From 07769cafd6e5f931b44f7c22712c9dacaedfc6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 25/40] fix: skip the negative frequencies when loading a
 spectrum

---
 sumpf/_internal/_persistence/_spectrum_readers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 06eed97..c4dcd27 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -70,9 +70,9 @@ def from_rows(frequency_column, data_rows, labels):     # pylint: disable=too-ma
             channels = allocate_array(shape=numpy.shape(sorted_data_rows), dtype=numpy.complex128)
             channels[:] = sorted_data_rows
         elif offset < 0:
-            channels = allocate_array(shape=numpy.subtract(numpy.shape(sorted_data_rows), (0, offset)),
-                                      dtype=numpy.complex128)
-            channels[:] = sorted_data_rows[:, offset:]
+            non_negative_frequencies = numpy.asarray(sorted_data_rows)[:, -offset:]
+            channels = allocate_array(shape=non_negative_frequencies.shape, dtype=numpy.complex128)
+            channels[:] = non_negative_frequencies
         else:
             channels = allocate_array(shape=numpy.add(numpy.shape(sorted_data_rows), (0, offset)),
                                       dtype=numpy.complex128)
-- 
2.43.0


From 1d834270e5caf00cc69fde1c07064b91981244a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 26/40] fix: load the metadata of data sets from npz files as
 numbers instead of arrays

---
 sumpf/_internal/_persistence/_signal_readers.py      | 3 ++-
 sumpf/_internal/_persistence/_spectrogram_readers.py | 3 ++-
 sumpf/_internal/_persistence/_spectrum_readers.py    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 6a2ba34..e4ccad7 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -149,7 +149,8 @@ class NumpyReader(Reader):
         """
         try:
             with numpy.load(path) as data:
-                return from_dict(data)
+                # convert the metadata from arrays to Python's types
+                return from_dict({k: v if k == "channels" else v.tolist() for k, v in data.items()})
         except (AttributeError, TypeError):  # npy files cannot be opened with a context manager
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index d84a9c1..441d13e 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -96,7 +96,8 @@ class NumpyReader(Reader):
         with numpy.load(path) as data:
             channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
             channels[:] = data["channels"]
-            return from_dict(channels, data)
+            # convert the metadata from arrays to Python's types
+            return from_dict(channels, {k: v.tolist() for k, v in data.items() if k != "channels"})
 
 
 class PickleReader(Reader):
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index c4dcd27..9e9354e 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -176,7 +176,8 @@ class NumpyReader(Reader):
             with numpy.load(path) as data:
                 channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
                 channels[:] = data["channels"]
-                return from_dict(channels, data)
+                # convert the metadata from arrays to Python's types
+                return from_dict(channels, {k: v.tolist() for k, v in data.items() if k != "channels"})
         except (AttributeError, TypeError):  # npy files cannot be opened with a context manager
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
-- 
2.43.0


From 7b59670951485736d7efc41ea25c72dcba1601ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 27/40] fix: read exponents of numbers after integer
 frequencies in tables of bands

---
 sumpf/_internal/_persistence/_filter_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 0912192..f424e65 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -198,7 +198,7 @@ class TableReader(Reader):
         :returns: a :class:`~sumpf.Filter` instance
         """
         # pylint: disable=too-many-locals,too-many-nested-blocks,too-many-branches; disable pylint's complexity warnings
-        unsigned = "(?:(?:\d+.?\d*e[+-]?\d+)|(?:\d+\.?\d*)|(?:\.\d+))"
+        unsigned = "(?:(?:\d+\.?\d*e[+-]?\d+)|(?:\d+\.?\d*)|(?:\.\d+))"
         real = f"(?:-?{unsigned})"
         complex_parentheses = f"(?:\({real} *[+-] *{unsigned}[jJiI])\)"
         complex_ = f"(?:{real}[+-]{unsigned}[jJiI])"
-- 
2.43.0


From 0a5650cb7df52272143e2c2e512453387ebc0082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 28/40] fix: concatenate data sets with different data types
 without truncating their samples

---
 sumpf/_blocks/_concatenate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_concatenate.py b/sumpf/_blocks/_concatenate.py
index e6da5c6..71339dd 100644
--- a/sumpf/_blocks/_concatenate.py
+++ b/sumpf/_blocks/_concatenate.py
@@ -16,6 +16,7 @@
 
 """Contains the :class:`~sumpf.Concatenate` class."""
 
+import numpy
 import connectors
 import sumpf
 import sumpf._internal as sumpf_internal
@@ -72,13 +73,14 @@ class Concatenate:
             # allocate an array for the concatenated channels and copy the first data set
             offset = min(i[0] for i in indices)
             length = max(i[1] for i in indices) - offset
+            dtype = numpy.result_type(*(i[2].dtype for i in indices))
             start, stop, dataset_channels = indices[0]
             start -= offset
             stop -= offset
             if len(dataset_channels.shape) == 2:
                 signal = True
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 channels[0:len(dataset_channels), start:stop] = dataset_channels
                 if len(dataset_channels) < number_of_channels:
                     channels[len(dataset_channels):, start:stop] = 0.0
@@ -86,7 +88,7 @@ class Concatenate:
                 signal = False
                 number_of_frequencies = max(i[2].shape[1] for i in indices)
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, number_of_frequencies, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 l, f = dataset_channels.shape[0:2]
                 channels[0:l, 0:f, start:stop] = dataset_channels
                 if f < number_of_frequencies:
-- 
2.43.0


From 392a92001aa2924972cdcd191a9fe6355757a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 29/40] fix: merge data sets without channels in the order of
 the channels

---
 sumpf/_blocks/_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_merge.py b/sumpf/_blocks/_merge.py
index bc194f0..fd77c2c 100644
--- a/sumpf/_blocks/_merge.py
+++ b/sumpf/_blocks/_merge.py
@@ -192,7 +192,7 @@ class Merge:
         elif self.__mode is sumpf_internal.MergeMode.FIRST_CHANNELS_FIRST:
             lengths = numpy.array([len(d) for d in self.__data.values()])
             for o, l in enumerate(lengths):
-                p = o
+                p = len(lengths[0:o][lengths[0:o] > 0])
                 for i in range(l):
                     after = lengths[o:]
                     before = lengths[0:o]
-- 
2.43.0


From e66e4025374f9f10f2ded4f79d7e9979afaa595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 30/40] fix: read lines with less columns than others in tables
 of bands

---
 sumpf/_internal/_persistence/_filter_readers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index f424e65..a621152 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -215,6 +215,8 @@ class TableReader(Reader):
                     if not (line[0].isdigit() or nan_mask.match(line)):
                         raise ValueError("The file does not seem to be a tabular representation of a Bands filter")
                     for i, (match, bands) in enumerate(itertools.zip_longest(mask.finditer(line), all_bands)):
+                        if match is None:   # the line has less columns than other lines
+                            break
                         g, p, c, r, n = match.groups()[1:]  # find out, what kind of number (real, gnuplot, ...) is found by checking which group is not None
                         if i == 0:
                             if r is not None:
-- 
2.43.0


From 4079705a334a9eab708983f914bf121ae03cb02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 31/40] fix: read upper case exponents and exponents of numbers
 without leading digits in tables of bands

---
 sumpf/_internal/_persistence/_filter_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index a621152..7f141b0 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -198,7 +198,7 @@ class TableReader(Reader):
         :returns: a :class:`~sumpf.Filter` instance
         """
         # pylint: disable=too-many-locals,too-many-nested-blocks,too-many-branches; disable pylint's complexity warnings
-        unsigned = "(?:(?:\d+\.?\d*e[+-]?\d+)|(?:\d+\.?\d*)|(?:\.\d+))"
+        unsigned = "(?:(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)"
         real = f"(?:-?{unsigned})"
         complex_parentheses = f"(?:\({real} *[+-] *{unsigned}[jJiI])\)"
         complex_ = f"(?:{real}[+-]{unsigned}[jJiI])"
-- 
2.43.0


From 257720b441b2ac43e13517f13008744813539698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 32/40] fix: cutting out a harmonic does not modify the samples
 of the impulse response

---
 sumpf/_data/_signals/_sweep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d25717b..d233010 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -225,10 +225,12 @@ class BaseExponentialSweep(Sweep):
                 else:
                     channels = channels[:, 0:length]
         elif remaining_delay is not None:
+            new_channels = sumpf_internal.allocate_array(shape=channels.shape)
             apply_delay(channels=channels,
                         sampling_rate=sampling_rate,
                         delay=remaining_delay,
-                        out=channels)
+                        out=new_channels)
+            channels = new_channels
         # return the impulse response of the harmonic
         h = sumpf_internal.counting_number(harmonic)
         return Signal(channels=channels,
-- 
2.43.0


From 11960919412f2736e90b48be3af9fe6a9a47d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 33/40] fix: crop harmonic impulse responses with many channels
 to the given length

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d233010..2392092 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -214,7 +214,7 @@ class BaseExponentialSweep(Sweep):
                                 delay=remaining_delay,
                                 out=new_channels)
                 channels = new_channels
-            elif harmonic_length > channel_count:
+            else:
                 if remaining_delay is not None:
                     new_channels = sumpf_internal.allocate_array(shape=(channel_count, length))
                     apply_delay(channels=channels,
-- 
2.43.0


From ec3be81ea7c2936e82676a526b8095331b4252ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 34/40] fix: compensate the remaining delay of odd length
 harmonic impulse responses at the right frequencies

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index 2392092..549c401 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -72,7 +72,7 @@ def apply_delay(channels, sampling_rate, delay, out):
     """
     if channels.size:
         spectrum = numpy.fft.rfft(channels)
-        f = numpy.linspace(0.0, sampling_rate / 2.0, spectrum.shape[-1])
+        f = numpy.fft.rfftfreq(channels.shape[-1], 1.0 / sampling_rate)
         spectrum *= numpy.exp(2j * math.pi * f * delay)
         signal = numpy.fft.irfft(spectrum, n=channels.shape[-1])
         out[:, 0:signal.shape[1]] = signal[:, 0:out.shape[1]]
-- 
2.43.0


From dfe86813f6ffcb814dcb276d701f88ad69001664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 35/40] fix: maximum length sequences with a length of zero or
 one can be created

---
 sumpf/_data/_signals/_mls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_mls.py b/sumpf/_data/_signals/_mls.py
index 92fceec..d436fa7 100644
--- a/sumpf/_data/_signals/_mls.py
+++ b/sumpf/_data/_signals/_mls.py
@@ -57,7 +57,7 @@ class MaximumLengthSequence(Signal):
                 bits = 16
             length = 2 ** bits - 1
         elif bits is None:
-            bits = int(math.ceil(math.log2(length + 1)))
+            bits = max(2, int(math.ceil(math.log2(length + 1))))    # SciPy does not support shift registers with less than two bits
         random = numpy.random.default_rng(seed)
         state = random.choice((False, True), size=bits)
         if True not in state:
-- 
2.43.0


From 9a0cd1f1cd636e936a3fd3522bf2616c3b71e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 36/40] fix: the length of an empty Rudin-Shapiro sequence is
 not negative

---
 sumpf/_data/_spectrums/_rudinshapiro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_spectrums/_rudinshapiro.py b/sumpf/_data/_spectrums/_rudinshapiro.py
index 716490c..0f3ca16 100644
--- a/sumpf/_data/_spectrums/_rudinshapiro.py
+++ b/sumpf/_data/_spectrums/_rudinshapiro.py
@@ -50,7 +50,7 @@ class RudinShapiroNoiseSpectrum(Spectrum):
         if stop_frequency is None:
             sequence_length = length - offset
         else:
-            sequence_length = min(int(round(stop_frequency / resolution)), length) - offset
+            sequence_length = max(0, min(int(round(stop_frequency / resolution)), length) - offset)
         # generate the channel
         channels = sumpf_internal.allocate_array(shape=(1, length), dtype=numpy.complex128)
         channel = channels[0]
-- 
2.43.0


From 32e765d249869e87ea98c072d04eb48f58cca343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:55 +0000
Subject: [PATCH 37/40] fix: do not repeat the playback and recording in Jack,
 when the signal's length is no multiple of the block size

---
 sumpf/_blocks/_jack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 2d461ec..20e0799 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -449,12 +449,12 @@ def on_process(frames, instance):
             for port, channel in zip(instance._client.inports, instance._channels):
                 channel[index:stop_index] = port.get_array()
         elif index < instance._input.length():
-            stop_index = instance._input.length() - index
+            remaining = instance._input.length() - index
             for port, channel in zip(instance._client.outports, channels):
-                port.get_array()[0:stop_index] = channel[index:]
-                port.get_array()[stop_index:] = 0.0
+                port.get_array()[0:remaining] = channel[index:]
+                port.get_array()[remaining:] = 0.0
             for port, channel in zip(instance._client.inports, instance._channels):
-                channel[index:] = port.get_array()[0:stop_index]
+                channel[index:] = port.get_array()[0:remaining]
         else:
             instance._event.set()
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
-- 
2.43.0


From 7338449d0e4d75d06116ae6228fcda8a0b33eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:55 +0000
Subject: [PATCH 38/40] fix: the output ports in Jack are silent, when nothing
 is played back

---
 sumpf/_blocks/_jack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 20e0799..796457c 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -439,6 +439,9 @@ def on_process(frames, instance):
     """The callback method, that is called, when the JACK server provides and requires new data to process."""
     # pylint: disable=protected-access; this is used like a method
     instance = instance()   # get the weakly referenced object
+    if instance._event.is_set() or instance._index >= instance._input.length():
+        for port in instance._client.outports:  # the buffers still contain the last played block
+            port.get_array()[:] = 0.0
     if not instance._event.is_set():
         index = instance._index     # make this a local variable, because it is used a lot
         stop_index = index + frames
-- 
2.43.0


From 97b235510db940523a43138933ab5afa9bb02e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:55 +0000
Subject: [PATCH 39/40] fix: convert the delay of xruns from microseconds to
 seconds

---
 sumpf/_blocks/_jack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 796457c..88c8dd8 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -484,7 +484,7 @@ def on_xrun(delay: float, instance):
     old = instance._xruns.output()
     xrun = XRun(start=instance._index,
                 stop=instance._index + instance._client.blocksize,
-                delay=delay * 1e6)    # convert the microseconds to seconds
+                delay=delay * 1e-6)    # convert the microseconds to seconds
     instance._xruns.input((old[0] + 1, xrun))
 
 ##############################
-- 
2.43.0


From 44aa1b639cda3857d9dadd86b0279fc218bbe142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 40/40] fix: do not try to restore the connections of removed
 output ports in Jack

---
 sumpf/_blocks/_jack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 88c8dd8..23085a2 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -374,6 +374,7 @@ class Jack:
         # create the ports
         if [p.shortname for p in self._client.outports] != labels:
             self._store_connections()
+            self.__connections = [(o, i) for o, i in self.__connections if not isinstance(o, int) or o < len(labels)]   # connections of removed ports cannot be restored
             self._client.outports.clear()
             for label in labels:
                 self._client.outports.register(label)
-- 
2.43.0


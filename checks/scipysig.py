"""Reference models of scipy's short time Fourier transform for symbolic samples (checked against scipy by the witness runs)."""
import types

import numpy

from engine.core import Unsupported
from engine.npobj import OA, has_sym


def module(np):
    import scipy.signal
    m = types.ModuleType("scipy.signal")
    m.__dict__.update(vars(scipy.signal))

    def stft(x, fs=1.0, window="hann", nperseg=256, noverlap=None, nfft=None, detrend=False, return_onesided=True, boundary="zeros", padded=True,
             axis=-1, scaling="spectrum"):
        if not has_sym(x) and not has_sym(window):
            return scipy.signal.stft(x, fs, window, nperseg, noverlap, nfft, detrend, return_onesided, boundary, padded, axis, scaling)
        if nfft is not None or detrend or not return_onesided or axis != -1 or scaling != "spectrum" or isinstance(window, str) or boundary not in ("zeros", None):
            raise Unsupported("stft options")
        x = numpy.asarray(x).view(numpy.ndarray)
        window = numpy.asarray(window).view(numpy.ndarray)
        if len(window) != nperseg:
            raise ValueError("value specified for nperseg is different from length of window")
        if nperseg > x.shape[-1]:
            raise Unsupported("stft of less than one segment")
        if noverlap >= nperseg:
            raise ValueError("noverlap must be less than nperseg.")
        if boundary:
            z = numpy.full(x.shape[:-1] + (nperseg // 2,), 0.0, object)
            x = numpy.concatenate((z, x, z), axis=-1)
        step = nperseg - noverlap
        if padded:
            nadd = (-(x.shape[-1] - nperseg) % step) % nperseg
            x = numpy.concatenate((x, numpy.full(x.shape[:-1] + (nadd,), 0.0, object)), axis=-1)
        frames = (x.shape[-1] - noverlap) // step
        out = numpy.empty(x.shape[:-1] + (nperseg // 2 + 1, frames), object)
        scale = 1.0 / sum(window)
        for f in range(frames):
            block = x[..., f * step:f * step + nperseg] * window
            out[..., f] = np.fft.rfft(block.view(OA)) * scale
        return None, None, out.view(OA)

    def istft(Zxx, fs=1.0, window="hann", nperseg=None, noverlap=None, nfft=None, input_onesided=True, boundary=True, time_axis=-1, freq_axis=-2,
              scaling="spectrum"):
        if not has_sym(Zxx) and not has_sym(window):
            return scipy.signal.istft(Zxx, fs, window, nperseg, noverlap, nfft, input_onesided, boundary, time_axis, freq_axis, scaling)
        if nfft is not None or not input_onesided or time_axis != -1 or freq_axis != -2 or scaling != "spectrum" or isinstance(window, str):
            raise Unsupported("istft options")
        z = numpy.asarray(Zxx).view(numpy.ndarray)
        window = numpy.asarray(window).view(numpy.ndarray)
        default = 2 * (z.shape[-2] - 1)
        n = default + 1 if nperseg == default + 1 else default
        if nperseg > n:
            raise ValueError("nfft must be greater than or equal to nperseg.")
        step = nperseg - noverlap
        frames = z.shape[-1]
        length = nperseg + (frames - 1) * step
        out = numpy.full(z.shape[:-2] + (length,), 0.0, object)
        norm = [0.0] * length
        total = sum(window)
        for f in range(frames):
            block = np.fft.irfft(z[..., f].view(OA), n=n).view(numpy.ndarray)[..., :nperseg]
            out[..., f * step:f * step + nperseg] += block * window * total
            for j in range(nperseg):
                norm[f * step + j] += window[j] ** 2
        if boundary:
            h = nperseg // 2
            out, norm = out[..., h:length - h], norm[h:length - h]
        out = out / numpy.array([v if v > 1e-10 else 1.0 for v in norm])
        return None, out.view(OA)

    m.stft, m.istft = stft, istft
    return m

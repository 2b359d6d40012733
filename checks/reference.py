"""Textbook definitions that the harnesses compare with."""
import cmath
import math

DFT = ["numpy's Fourier transforms are the textbook sums, with their constants accurate to about 10 digits"]


def rot(x):
    """exp(-2*pi*i*x)"""
    return cmath.exp(-2j * math.pi * (x - math.floor(x)))


def dft(x, n, k, offset=0):
    """bin k of the transform of n real samples, of which the first is at the given offset"""
    re, im = 0.0, 0.0
    for j in range(n):
        r = rot(((j + offset) * k % n) / n)
        v = x(j)
        re = re + v * r.real
        im = im + v * r.imag
    return cplx(re, im)


def cplx(re, im):
    from engine.core import SymComplex, is_sym
    if is_sym(re) or is_sym(im):
        return SymComplex(re, im)
    return complex(re, im)


def idft(x, m, j):
    """sample j of the real inverse transform of m bins"""
    n = max(1, 2 * (m - 1))
    v = x(0).real * 1.0
    for k in range(1, m):
        r = rot((-j * k % n) / n)
        f = 1.0 if k == m - 1 else 2.0
        v = v + (x(k).real * r.real - (x(k).imag * r.imag if f == 2.0 else 0.0)) * f
    return v * (1.0 / n)

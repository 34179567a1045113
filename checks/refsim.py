"""Reference model of the gaussianfft public API, written from its documentation: variogram
correlation functions, padding, FFT moving-average simulation on the padded torus, seed state."""
import ctypes
import math
import os

import numpy as np

_lib = ctypes.CDLL(os.environ["VREF"])
_lib.ref_new.restype = ctypes.c_void_p
_lib.ref_clone.restype = ctypes.c_void_p
_lib.ref_clone.argtypes = [ctypes.c_void_p]
_lib.ref_free.argtypes = [ctypes.c_void_p]
_lib.ref_seed.argtypes = [ctypes.c_void_p, ctypes.c_uint32]
_lib.ref_u32.argtypes = [ctypes.c_void_p]
_lib.ref_u32.restype = ctypes.c_uint32
_lib.ref_norm.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long]
_lib.ref_fp.argtypes = [ctypes.c_void_p]
_lib.ref_fp.restype = ctypes.c_uint64
_lib.ref_drawn.argtypes = [ctypes.c_void_p]
_lib.ref_drawn.restype = ctypes.c_uint64


class Rng:
    def __init__(self, seed=None, ptr=None):
        self.p = ptr if ptr is not None else _lib.ref_new(seed & 0xFFFFFFFF)

    def __del__(self):
        _lib.ref_free(self.p)

    def clone(self):
        return Rng(ptr=_lib.ref_clone(self.p))

    def u32(self):
        return _lib.ref_u32(self.p)

    def norm(self, n):
        a = np.empty(n)
        _lib.ref_norm(self.p, a.ctypes.data, n)
        return a

    def fp(self):
        return _lib.ref_fp(self.p)


TYPES = ["constant", "exponential", "gaussian", "general_exponential", "matern32", "matern52", "matern72", "spherical"]
RATIO = {"constant": 1.0, "exponential": 2.33, "spherical": 1.92, "gaussian": 6.67, "matern32": 4.0,
         "matern52": 4.76, "matern72": 5.26}


class Vario:
    """type, ranges, angles in degrees"""

    def __init__(self, type, main, perp=-1.0, depth=-1.0, azimuth=0.0, dip=0.0, power=1.5):
        self.type = type.lower() if type.lower() in TYPES else "spherical"
        self.r = (main, perp if perp > 0.0 else main, depth if depth > 0.0 else main)
        self.az, self.dip, self.power = math.radians(azimuth), math.radians(dip), power
        self.az_deg = azimuth

    def ratio(self):
        if self.type == "general_exponential":
            return 4.0 + (self.power - 1.5) * 5.34
        return RATIO[self.type]

    def axes(self):
        """Unit vectors of the three principal directions."""
        ca, sa, cd, sd = math.cos(self.az), math.sin(self.az), math.cos(self.dip), math.sin(self.dip)
        return ((ca * cd, sa * cd, sd), (-sa, ca, 0.0), (-ca * sd, -sa * sd, cd))

    def dist(self, dx, dy=0.0, dz=0.0):
        s = 0.0
        for (ax, ay, az), r in zip(self.axes(), self.r):
            s = s + ((ax * dx + ay * dy + az * dz) / r) ** 2
        return np.sqrt(s)

    def f(self, d):
        d = np.asarray(d, dtype=float)
        t = self.type
        if t == "constant":
            return np.ones_like(d)
        if t == "exponential":
            return np.exp(-3 * d)
        if t == "gaussian":
            return np.exp(-3 * d * d)
        if t == "general_exponential":
            return np.exp(-3 * d ** self.power)
        if t == "spherical":
            return np.where(d < 1.0, 1 - 1.5 * d + 0.5 * d ** 3, 0.0)
        if t == "matern32":
            s = 4.744 * d
            return np.exp(-s) * (1 + s)
        if t == "matern52":
            s = 5.918 * d
            return np.exp(-s) * (1 + s + s * s / 3)
        s = 6.877 * d
        return np.exp(-s) * (1 + s + 0.4 * s * s + s ** 3 / 15)

    def corr(self, *d):
        return self.f(self.dist(*d))

    def extents(self):
        """The longest projection of the three principal axes on x, y and z (smoothing scale)."""
        h = 3.14 / 2.0
        r, a, d = self.r, self.az, self.dip
        m = (abs(r[0] * math.cos(d) * math.cos(a)), abs(r[0] * math.cos(d) * math.sin(a)), abs(r[0] * math.sin(d)))
        p = (abs(r[1] * math.cos(a + h)), abs(r[1] * math.sin(a + h)), 0.0)
        w = (abs(r[2] * math.cos(d + h) * math.cos(a)), abs(r[2] * math.cos(d + h) * math.sin(a)),
             abs(r[2] * math.sin(d + h)))
        return [max(t) for t in zip(m, p, w)]


def dims(nx, ny, dy, nz, dz):
    if ny <= 1 or dy < 0:
        return 1
    if nz <= 1 or dz < 0:
        return 2
    return 3


def padding(v, n, d, nd):
    if nd == 1:
        rng = [v.r[0]]
    else:
        big = max(v.r[0], v.r[1])
        rng = [big, v.r[1] if v.az_deg == 0 else big]
        if nd == 3:
            rng.append(v.r[2])
    return [max(int(v.ratio() * r / s - m), int(r / s)) + 1 for m, s, r in zip(n, d, rng)]


_sizes = None


def fft_size(n, even):
    """The smallest 2^a 3^b 5^c 7^d >= n (a >= 1 if even)."""
    global _sizes
    if _sizes is None:
        _sizes = sorted({2 ** a * 3 ** b * 5 ** c * 7 ** d for a in range(18) for b in range(12) for c in range(9)
                         for d in range(7) if 2 ** a * 3 ** b * 5 ** c * 7 ** d < 300000})
    for s in _sizes:
        if s >= n and (not even or s % 2 == 0):
            return s
    raise ValueError


def total_size(v, n, d, pad, nd):
    p = padding(v, n, d, nd)
    p = [b if a < 0 else a for a, b in zip(pad, p)]
    tot = [fft_size(m + q, nd > 1 and i == 0) for i, (m, q) in enumerate(zip(n, p))]
    return tot


def lag_grid(tot, d):
    """Signed lags on the torus along each axis; index (n+1)//2 and up are negative."""
    out = []
    for n, s in zip(tot, d):
        i = np.arange(n)
        out.append(np.where(i < (n + 1) // 2, i, i - n) * s)
    return out


def cov_grid(v, tot, d, scal):
    lags = lag_grid(tot, d)
    m = np.meshgrid(*lags, indexing="ij")
    c = v.corr(*m)
    ext = v.extents()
    for a, s in enumerate(scal[:len(tot)]):
        if s < 0.99999:
            c = c * (s ** (1.0 / (ext[a] * ext[a]))) ** (m[a] ** 2)
    return c


def filter_of(v, tot, d, scal=(1., 1., 1.)):
    return np.sqrt(np.maximum(np.fft.fftn(cov_grid(v, tot, d, scal)).real, 0.0))


def field(v, n, d, pad, scal, noise_flat, tot=None):
    """noise_flat: in draw order (x slowest).  Returns the flat Fortran-ordered field."""
    nd = len(n)
    tot = tot or total_size(v, n, d, pad, nd)
    noise = noise_flat.reshape(tot)
    z = np.fft.ifftn(np.fft.fftn(noise) * filter_of(v, tot, d, scal)).real
    z = z[tuple(slice(0, m) for m in n)]
    return z.flatten(order="F")


class Model:
    """State machine of seed()/simulate()."""

    def __init__(self):
        self.start, self.rng = None, None

    def clone(self):
        m = Model()
        m.start, m.rng = self.start, self.rng.clone() if self.rng else None
        return m

    def seed(self, s):
        self.start, self.rng = s, Rng(s)

    def auto_seed(self, now):
        self.seed(Rng(now).u32())

    def simulate(self, v, nx, dx, ny=1, dy=-1.0, nz=1, dz=-1.0, padx=-1, pady=-1, padz=-1, sx=1., sy=1., sz=1.):
        nd = dims(nx, ny, dy, nz, dz)
        n, d = (nx, ny, nz)[:nd], (dx, dy, dz)[:nd]
        pad, sc = (padx, pady, padz)[:nd], (sx, sy, sz)[:nd]
        tot = total_size(v, n, d, pad, nd)
        cells = int(np.prod(tot))
        if nd == 3:
            noise = self.rng.norm(cells)
        else:
            noise = Rng(self.rng.u32()).norm(cells)
        return field(v, n, d, pad, sc, noise, tot)

    def size(self, v, nx, dx, ny=1, dy=-1.0, nz=1, dz=-1.0):
        nd = 1 if ny <= 1 else 2 if nz <= 1 else 3
        n, d = (nx, ny, nz)[:nd], (dx, dy, dz)[:nd]
        return [a + b for a, b in zip(n, padding(v, n, d, nd))]

"""Independent reference models (the oracles' sequential specifications).

Written from the definitions in the documentation and the cited papers with
plain sums; deliberately does not import anything from pyotf, and uses explicit
Fourier sums with centred coordinates instead of FFTs with shifts.
"""
from math import factorial

import numpy as np

from .gen import freqs


def centred(n):
    """Integer coordinates with the origin at index n // 2."""
    return np.arange(n) - n // 2


def dft_matrix(n, sign):
    """Centred DFT matrix: sum over centred samples of exp(sign 2 pi i j k / n)."""
    c = centred(n)
    # reduce the product modulo n to keep the phase exact
    return np.exp(sign * 2j * np.pi * (np.outer(c, c) % n) / n)


def cft(data, axes=None, sign=-1):
    """Centred Fourier sum over the given axes."""
    out = np.asarray(data, dtype=complex)
    axes = range(out.ndim) if axes is None else axes
    for ax in axes:
        m = dft_matrix(out.shape[ax], sign)
        out = np.moveaxis(np.tensordot(m, out, axes=(1, ax)), 0, ax)
    return out


def icft(data, axes=None):
    out = cft(data, axes, +1)
    axes = range(out.ndim) if axes is None else axes
    return out / np.prod([out.shape[a] for a in axes], dtype=float)


def cond_factor(cos, condition):
    if condition == "none":
        return np.ones_like(cos)
    return cos ** (-0.5) if condition == "sine" else 1 / cos


def dipole(m, n, s, vec, zsign=1):
    """Field components per dipole orientation for direction cosines (m, n, s).

    Rotation that takes the optical axis to (m, n, s): rows as documented
    (z: zx, zy; y: yx, yy; x: xx, xy).  Hanser's and Sheppard's papers differ
    in the sign of the z row.
    """
    if vec == "none":
        return [np.ones_like(s)]
    out = []
    if vec in ("z", "total"):
        out += [zsign * m, zsign * n]
    if vec in ("y", "total"):
        out += [-m * n / (1 + s), 1 - n ** 2 / (1 + s)]
    if vec in ("x", "total"):
        out += [1 - m ** 2 / (1 + s), -m * n / (1 + s)]
    return out


def zvalues(cfg):
    if cfg.get("zrange") is not None:
        return np.atleast_1d(np.asarray(cfg["zrange"], dtype=float))
    zsize = cfg.get("zsize")
    zsize = cfg["size"] if zsize is None else zsize
    zres = cfg.get("zres")
    zres = cfg["res"] if zres is None else zres
    return centred(zsize) * float(zres)


def pupil_geometry(cfg):
    k = freqs(cfg["size"], cfg["res"])
    ky, kx = k[:, None] + 0 * k, k[None, :] + 0 * k[:, None]
    return ky, kx, np.sqrt(kx ** 2 + ky ** 2)


def aperture(cfg):
    """Ideal pupil on the unshifted grid."""
    _, _, kr = pupil_geometry(cfg)
    return (kr < cfg["na"] / cfg["wl"]).astype(float)


def hanser_psfa(cfg, pupil=None, zs=None):
    """Amplitude PSF (components, z, y, x) as an explicit plane wave sum."""
    n = cfg["size"]
    ky, kx, kr = pupil_geometry(cfg)
    kmag = cfg["ni"] / cfg["wl"]
    P = aperture(cfg).astype(complex) if pupil is None else np.asarray(pupil, dtype=complex)
    use = kr < kmag
    sx, sy = np.where(use, kx / kmag, 0), np.where(use, ky / kmag, 0)
    cos = np.sqrt(1 - sx ** 2 - sy ** 2)
    kz = np.where(use, kmag * cos, 0)
    vec, cond = cfg.get("vec_corr", "none"), cfg.get("condition", "sine")
    w = cond_factor(cos, cond)
    zs = zvalues(cfg) if zs is None else zs
    k = freqs(n, 1)  # cycles per sample
    E = np.exp(2j * np.pi * np.outer(centred(n), k))  # (position, frequency)
    out = []
    for d in dipole(sx, sy, cos, vec):
        planes = [E @ (P * w * d * np.exp(2j * np.pi * kz * z)) @ E.T / n ** 2 for z in zs]
        out.append(planes)
    return np.array(out)


def intensity(psfa):
    return (np.abs(psfa) ** 2).sum(0)


def sheppard_otfa(cfg):
    """Expected amplitude OTF, the certain part of its support and its exclusion.

    Returns values (components, z, y, x), mask of samples certainly on the cap,
    mask of samples certainly off the cap (a thin shell of samples whose
    membership is decided by rounding is in neither).
    """
    n, nz = cfg["size"], cfg["zsize"]
    dk, dkz = 1 / (n * cfg["res"]), 1 / (nz * cfg["zres"])
    kz = (centred(nz) * dkz)[:, None, None]
    ky = (centred(n) * dk)[None, :, None]
    kx = (centred(n) * dk)[None, None, :]
    k = np.sqrt(kx ** 2 + ky ** 2 + kz ** 2)
    with np.errstate(all="ignore"):
        voxel = np.sqrt((kz * dkz) ** 2 + (ky * dk) ** 2 + (kx * dk) ** 2) / k
        voxel[nz // 2, n // 2, n // 2] = 0
        kmag = cfg["ni"] / cfg["wl"]
        kzmin = np.sqrt(kmag ** 2 - (cfg["na"] / cfg["wl"]) ** 2)
        ax = np.abs(kz) if cfg.get("dual") else kz
        d1 = voxel - np.abs(k - kmag)
        d2 = ax - kzmin - voxel
        eps = 1e-9 * kmag
        on = (d1 > eps) & (d2 > eps)
        off = (d1 < -eps) | (d2 < -eps)
        # cosine of the angle to the axis of the ray's own objective
        m, nn, s = kx / k, ky / k, np.abs(kz) / k
        live = ~off
        w = np.where(live, cond_factor(np.where(s == 0, 1, s), cfg["condition"]), 0)
        vals = np.array([np.broadcast_to(np.where(live, d, 0), k.shape) * w
                         for d in dipole(m, nn, s, cfg["vec_corr"], -1)])
    return vals, on, off


# ----------------------------------------------------------------- zernike
def noll_to_nm(j):
    """Noll's ordering from its definition."""
    n = 0
    while j > (n + 1) * (n + 2) // 2:
        n += 1
    # position inside the degree, modes sorted by |m|
    r = j - n * (n + 1) // 2 - 1
    ms = []
    for m in range(n % 2, n + 1, 2):
        ms += [m] if m == 0 else [m, m]
    m = ms[r]
    return n, (m if j % 2 == 0 else -m)


def radial_coefs(n, m):
    """Exact integer coefficients {power: coefficient} of the radial polynomial."""
    return {n - 2 * k: (-1) ** k * (factorial(n - k) // (
        factorial(k) * factorial((n + m) // 2 - k) * factorial((n - m) // 2 - k)))
        for k in range((n - m) // 2 + 1)}


def radial(n, m, r):
    """Radial polynomial.

    For high degrees the power series cancels in floating point; there the
    numerically stable identity R_n^m(r) = mean over t of U_n(r cos t) cos(m t)
    (Janssen & Dirksen 2007) is summed over N > n + m equispaced angles, which
    is exact for these trigonometric polynomials.
    """
    r = np.asarray(r, dtype=float)
    if n <= 12:
        return sum(c * r ** p for p, c in radial_coefs(n, m).items())
    N = 2 * (n + m + 2)
    t = 2 * np.pi * np.arange(N) / N
    x = np.multiply.outer(r, np.cos(t))
    u0, u1 = np.ones_like(x), 2 * x
    for _ in range(n - 1):
        u0, u1 = u1, 2 * x * u1 - u0
    return (u1 * np.cos(m * t)).mean(-1)


def radial_exact(n, m, r):
    """Radial polynomial in rational arithmetic, one float at a time."""
    from fractions import Fraction
    f = Fraction(float(r))
    return float(sum(c * f ** p for p, c in radial_coefs(n, m).items()))


def zernike_nm(n, m, r, theta, norm=True):
    n, m = int(n), int(m)
    r, theta = np.asarray(r, dtype=float), np.asarray(theta, dtype=float)
    if (n - m) % 2:
        return np.zeros(r.shape)
    v = radial(n, abs(m), np.minimum(r, 1)) * (np.cos(m * theta) if m >= 0 else np.sin(-m * theta))
    if norm:
        v = v * np.sqrt((n + 1) * (1 if m == 0 else 2))
    return np.where(r <= 1, v, 0.0)


def zernike_stack(cfg, count, shifted=False):
    """First `count` Noll modes on the pupil grid of a configuration, zero outside its pupil."""
    ky, kx, kr = pupil_geometry(cfg)
    r, th = kr / (cfg["na"] / cfg["wl"]), np.arctan2(ky, kx)
    z = np.array([zernike_nm(*noll_to_nm(j), r, th) for j in range(1, count + 1)]).reshape(count, *r.shape) * aperture(cfg)
    return shift2(z) if shifted else z


def shift2(a):
    """Unshifted -> centred (origin to n // 2) on the last two axes."""
    ny, nx = a.shape[-2:]
    return np.roll(a, (ny // 2, nx // 2), (-2, -1))


def unshift2(a):
    ny, nx = a.shape[-2:]
    return np.roll(a, (-(ny // 2), -(nx // 2)), (-2, -1))

"""Thin drivers: build the real objects from JSON-able configurations."""
import numpy as np

from . import ref


def hanser(cfg, **over):
    from pyotf.otf import HanserPSF
    kw = dict(cfg, **over)
    if isinstance(kw.get("zrange"), list):
        kw["zrange"] = np.array(kw["zrange"])
    return HanserPSF(**kw)


def sheppard(cfg, **over):
    from pyotf.otf import SheppardPSF
    return SheppardPSF(**dict(cfg, **over))


def psf_model(kind, cfg, **over):
    return hanser(cfg, **over) if kind == "hanser" else sheppard(cfg, **over)


def microscope(cls, cfg, **over):
    import pyotf.microscope as m
    kw = dict(cfg, **over)
    if "orientations" in kw:
        kw["orientations"] = tuple(kw["orientations"])
    return getattr(m, cls)(**kw)


def rand_pupil(rng, cfg, kind):
    """A complex pupil on the unshifted grid."""
    n = cfg["size"]
    ap = ref.aperture(cfg)
    if kind == "phase":
        return ap * np.exp(1j * rng.uniform(-3, 3, (n, n)))
    if kind == "mag":
        return ap * rng.uniform(0, 2, (n, n))
    if kind == "complex":
        return ap * (rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    if kind == "real":
        return rng.normal(size=(n, n))
    if kind == "spot":
        p = np.zeros((n, n), complex)
        idx = np.argwhere(ap > 0)
        i, j = idx[rng.integers(len(idx))]
        p[i, j] = 1 + 2j
        return p
    if kind == "bool":
        return np.asfortranarray((ap > 0) & (rng.random((n, n)) < 0.7))
    if kind == "int":
        return rng.integers(-3, 4, (n, n)).astype(str(rng.choice(["i2", "i8", "u1"])))
    if kind == "single":
        p = ap * (rng.normal(size=(2 * n, n)) + 1j * rng.normal(size=(2 * n, n)))[::2]
        return p.real.astype(np.float32) if rng.random() < 0.4 else p.astype(np.complex64)
    if kind == "contrast":
        # a bright sample on a weak background, or magnitudes over many decades
        p = ap * np.exp(2j * np.pi * rng.random((n, n)))
        if rng.random() < 0.5:
            p = ap * 10.0 ** -rng.uniform(4, 7) * np.exp(1j * rng.normal())
            i = np.argwhere(ap > 0)
            if len(i):
                p[tuple(i[rng.integers(len(i))])] = 1
            return p
        return p * 10.0 ** rng.uniform(-8, 0, (n, n))
    if kind == "special":
        # pupils that look like nothing was applied
        k = int(rng.integers(7))
        one = np.ones((n, n))
        return [one, one.astype(complex), one.astype(bool), ap + 0j, (ap > 0), -ap, 1j * one][k]
    # everything, also outside the aperture and beyond the evanescent limit
    return rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))


PUPILS = ("phase", "mag", "complex", "real", "spot", "full", "bool", "int", "single", "contrast", "special")

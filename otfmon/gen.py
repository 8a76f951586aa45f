"""Workload generators shared by the property modules.

All lengths are drawn relative to each other and then multiplied by a unit, so
every check runs in several unit systems.  Configurations whose frequency grid
hits a hard limit (aperture edge, evanescent edge) within rounding are redrawn:
there the value of a sample depends on rounding only.
"""
import numpy as np

VEC = ("none", "x", "y", "z", "total")
COND = ("none", "sine", "herschel")
COMBOS = [(v, c) for v in VEC for c in COND]
UNITS = (1.0, 1e-3, 1e-9, 1e3)
SIZES = (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 20, 21, 24, 25, 31, 32, 33, 40)


def freqs(n, d):
    """Unshifted DFT frequencies (independent of numpy.fft.fftfreq)."""
    j = np.arange(n)
    return (((j + n // 2) % n) - n // 2) / (n * d)


def edge_clear(cfg, margin=1e-7):
    """No lateral frequency sample within rounding of NA/wl or n/wl."""
    k = freqs(cfg["size"], cfg["res"])
    kr = np.hypot(k[:, None], k[None, :])
    for lim in (cfg["na"] / cfg["wl"], cfg["ni"] / cfg["wl"]):
        if (abs(kr - lim) < margin * lim).any():
            return False
    return True


def num(rng, x, p_int=0.0):
    """A Python float (or sometimes int) of about x."""
    if p_int and rng.random() < p_int and x >= 1:
        return int(round(x))
    return float(x)


def optics(rng, max_ratio=0.97, units=UNITS, nyquist=(0.1, 0.97), ints=True, extreme=0.0):
    """wl, na, ni, res in some unit; res relative to the Abbe limit."""
    while True:
        u = float(rng.choice(units))
        style = rng.random()
        if extreme and rng.random() < extreme:
            # anything that is allowed
            ni = float(np.exp(rng.uniform(-0.3, 1.3)))
            na = ni * float(rng.choice([rng.uniform(0.01, 0.2), rng.uniform(0.97, 0.9995)]))
            wl = float(10 ** rng.uniform(-6, 6))
            res = wl / 2 / na * float(rng.choice([rng.uniform(0.005, 0.1), rng.uniform(0.1, 0.97), rng.uniform(0.97, 0.9999)]))
            return dict(wl=wl, na=na, ni=ni, res=res), u
        if ints and style < 0.15 and u == 1.0:
            # plain integer parameters, as in the README and tests
            ni = int(rng.choice([1, 2]))
            na = float(rng.uniform(0.3, 0.95)) if ni == 1 else int(1)
            wl = int(rng.integers(400, 700))
            res = int(wl / 2 / na * rng.uniform(*nyquist))
            if res < 1:
                continue
        else:
            na = float(rng.uniform(0.25, 1.45))
            ni = na / float(rng.uniform(0.2, max_ratio))
            wl = float(rng.uniform(400, 700)) * u
            res = wl / 2 / na * float(rng.uniform(*nyquist))
        return dict(wl=wl, na=na, ni=ni, res=res), u


def hanser(rng, sizes=SIZES, vec=None, cond=None, max_z=6, zmode=None, **kw):
    """Keyword arguments of a valid HanserPSF."""
    while True:
        o, u = optics(rng, **kw)
        cfg = dict(o, size=int(rng.choice(sizes)))
        cfg["vec_corr"] = str(vec or rng.choice(VEC))
        cfg["condition"] = str(cond or rng.choice(COND))
        dof = cfg["wl"] / (cfg["ni"] - np.sqrt(cfg["ni"] ** 2 - cfg["na"] ** 2))
        mode = zmode or rng.choice(["list", "list", "zs", "zs", "default", "scalar", "one"])
        if mode == "default" and cfg["size"] > 17:
            mode = "zs"
        if mode == "list":
            z = rng.uniform(-3, 3, int(rng.integers(1, max_z + 1))) * dof
            if rng.random() < 0.3:
                # a stack whose planes are nearly, or exactly, equispaced
                k = int(rng.integers(2, max_z + 2))
                step = dof * float(rng.uniform(0.1, 1)) * float(rng.choice([1, -1]))
                jitter = float(rng.choice([0, 1e-5, 1e-4, 1e-3, 1e-2, 0.1]))
                z = (np.arange(k) - float(rng.uniform(0, k))) * step + rng.uniform(-1, 1, k) * jitter * step
            elif rng.random() < 0.4:
                z = np.append(z, 0.0)
            if rng.random() < 0.2:
                z = np.append(z, z[0])
            if rng.random() < 0.1:
                z[rng.integers(len(z))] *= 10.0 ** rng.uniform(0, 2)
            if rng.random() < 0.1:
                z[rng.integers(len(z))] *= 10.0 ** rng.uniform(-9, -1)
            cfg["zrange"] = [float(v) for v in z]
        elif mode == "scalar":
            cfg["zrange"] = float(rng.uniform(-3, 3) * dof)
        elif mode == "zs":
            cfg["zsize"] = int(rng.integers(1, max_z + 3))
            cfg["zres"] = float(dof * rng.uniform(0.05, 1.5))
            if rng.random() < 0.1:
                cfg["zres"] = cfg["res"]
            elif rng.random() < 0.1 and cfg["size"] <= max_z + 2:
                cfg["zsize"] = cfg["size"]
        elif mode == "one":
            cfg["zsize"] = 1
        if edge_clear(cfg):
            return cfg


def rim_hanser(rng, sizes=(8, 16, 32), **kw):
    """Keyword arguments of a HanserPSF with samples exactly at the diffraction limit (all numbers exact in binary)."""
    while True:
        size = int(rng.choice(sizes))
        cfg = dict(size=size, wl=2.0 ** int(rng.integers(-3, 11)))
        m = int(rng.choice([2, 3, 4, 5, 5, 10, 13, size // 4]))
        # the limit is m frequency samples away from the origin, on the axes and for 5, 10, 13 also elsewhere
        na = 2.0 ** int(rng.integers(-1, 1)) * m / 8
        cfg["res"] = m * cfg["wl"] / na / size
        if not 0.2 < na < 1.5 or m > size // 2 - 1 or m * cfg["wl"] / na != cfg["res"] * size:
            continue
        cfg.update(na=na, ni=na * float(rng.choice([1.07, 1.3, 2.1])))
        dof = cfg["wl"] / (cfg["ni"] - np.sqrt(cfg["ni"] ** 2 - cfg["na"] ** 2))
        cfg["vec_corr"], cfg["condition"] = kw.get("vec", "none"), kw.get("cond", "none")
        cfg["zrange"] = [float(v) for v in rng.uniform(-2, 2, int(rng.integers(1, 4))) * dof]
        k = freqs(size, cfg["res"])
        kr = np.sqrt(k[:, None] ** 2 + k[None, :] ** 2)
        if cfg["res"] < cfg["wl"] / 2 / na and (kr == na / cfg["wl"]).any():
            return cfg


def sheppard(rng, sizes=(16, 17, 20, 21, 24, 25, 32, 33), zsizes=(16, 17, 20, 21, 24, 25, 32, 33),
             vec=None, cond=None, dual=None, ratio=(0.4, 0.97), zny=(0.3, 0.97), few=False, **kw):
    """Keyword arguments of a valid SheppardPSF with a non-empty cap."""
    while True:
        o, u = optics(rng, max_ratio=ratio[1], ints=False, **kw)
        if o["na"] / o["ni"] < ratio[0]:
            continue
        cfg = dict(o, size=int(rng.choice(sizes)), zsize=int(rng.choice(zsizes)))
        cfg["zres"] = float(o["wl"] / 2 / o["ni"] * rng.uniform(*zny))
        if rng.random() < 0.15 and o["res"] < o["wl"] / 2 / o["ni"] * 0.97:
            # cubic voxels in space, in frequency space or both
            cfg["zres"] = o["res"]
            k = rng.random()
            if k < 0.4:
                cfg["zsize"] = cfg["size"]
        elif rng.random() < 0.15:
            cfg["zsize"] = cfg["size"]
            if rng.random() < 0.5:
                f = float(rng.choice([2, 4, 0.5, 3, 1.5]))
                cfg["zsize"] = int(round(cfg["size"] * f))
                cfg["zres"] = cfg["size"] * o["res"] / cfg["zsize"]
                if not zny[0] * 0.5 < cfg["zres"] / (o["wl"] / 2 / o["ni"]) < zny[1] or cfg["zsize"] < 8:
                    continue
        cfg["vec_corr"] = str(vec or rng.choice(VEC))
        cfg["condition"] = str(cond or rng.choice(COND))
        cfg["dual"] = bool(rng.random() < 0.35) if dual is None else dual
        dk = 1 / (cfg["size"] * cfg["res"])
        dkz = 1 / (cfg["zsize"] * cfg["zres"])
        kmag = o["ni"] / o["wl"]
        kzmin = np.sqrt(kmag ** 2 - (o["na"] / o["wl"]) ** 2)
        if kmag - kzmin > 2.5 * dkz and (few or o["na"] / o["wl"] > 2 * dk):
            return cfg


def coherent_scale(cfg, f):
    """The same configuration in another length unit."""
    out = dict(cfg)
    for k in ("wl", "res", "zres", "pixel_size", "wl_exc"):
        if out.get(k) is not None:
            out[k] = out[k] * f
    if out.get("zrange") is not None:
        z = out["zrange"]
        out["zrange"] = [v * f for v in z] if isinstance(z, list) else z * f
    return out


MICROS = ("WidefieldMicroscope", "ConfocalMicroscope", "ApotomeMicroscope", "SIM2DMicroscope", "SIM3DMicroscope",
          "LatticeSIMMicroscope")


def own_planes(rng, dof, size):
    """Planes for a zrange, equispaced or not; sometimes as many as there would be anyhow."""
    n = size if rng.random() < 0.3 else int(rng.integers(1, 9))
    z = rng.uniform(-2, 2, n) * dof
    if rng.random() < 0.5:
        z = (np.arange(n) - float(rng.choice([n // 2, 0, rng.uniform(0, n)]))) * dof * float(rng.uniform(0.1, 0.9)) * float(rng.choice([1, 1, -1]))
    elif rng.random() < 0.4:
        z[int(rng.integers(n))] = 0.0
    return [float(v) for v in z]


def micro(rng, cls, model=None, sizes=(8, 9, 10, 11, 12, 13, 16, 17), os=(1, 1, 1, 3, 3, 5), vec=None, cond=None,
          zfree=0.5, resolved=False, max_ratio=0.95, most=60, planes=0.0, fine=False):
    """Keyword arguments of a valid microscope of class `cls`.

    With the probability `planes` a Hanser model has planes of its own (zrange). With `resolved` the detector pixel is below wl/(2 NA) and the grid below wl/(4 NA); with `fine` the grid is much finer than needed.
    """
    while True:
        model_ = str(model or rng.choice(["hanser", "sheppard", "Hanser", "SHEPPARD"], p=[0.45, 0.45, 0.05, 0.05]))
        shep = model_.lower() == "sheppard"
        o, u = optics(rng, max_ratio=max_ratio, ints=False)
        if shep and o["na"] / o["ni"] < 0.55:
            continue
        f = int(rng.choice(os))
        abbe = o["wl"] / 2 / o["na"]
        hi = min(0.97 * f, 2.5)
        if resolved:
            hi = min(0.97, 0.47 * f)
        px = abbe * float(rng.uniform(0.15, hi))
        if fine:
            px = abbe * float(rng.uniform(0.05, 0.15)) * f
        size = int(rng.choice(sizes))
        if size * f > most:
            continue
        cfg = dict(model=model_, wl=o["wl"], na=o["na"], ni=o["ni"], size=size, pixel_size=px, oversample_factor=f)
        zlim = o["wl"] / 2 / o["ni"]
        if rng.random() < zfree or (shep and px >= zlim):
            cfg["zres"] = zlim * float(rng.uniform(0.3, 0.97)) if shep else o["wl"] * float(rng.uniform(0.1, 2))
            cfg["zsize"] = int(rng.choice(sizes)) if shep else int(rng.integers(1, 12))
            # settings that happen to agree, or that are left to their default
            k = rng.random()
            if k < 0.08:
                cfg["zsize"] = size
            elif k < 0.3:
                zr = px / f if k < 0.15 else px
                if not shep or zr < 0.97 * zlim:
                    cfg["zres"] = zr
                    if k > 0.22:
                        del cfg["zres"]
            elif k < 0.35:
                del cfg["zsize"]
        if planes and not shep and rng.random() < planes:
            cfg["zrange"] = own_planes(rng, o["wl"] / (o["ni"] - np.sqrt(o["ni"] ** 2 - o["na"] ** 2)), size)
        if rng.random() < 0.8 or vec or cond:
            cfg["vec_corr"] = str(vec or rng.choice(VEC))
            cfg["condition"] = str(cond or rng.choice(COND))
        if shep and rng.random() < 0.25:
            cfg["dual"] = True
        zs, zr = cfg.get("zsize", size), cfg.get("zres", px)
        if shep:
            dkz, dk = 1 / zs / zr, 1 / size / px
            kmag = o["ni"] / o["wl"]
            kzmin = np.sqrt(kmag ** 2 - (o["na"] / o["wl"]) ** 2)
            if kmag - kzmin < 2.5 * max(dkz, dk * 0.3) or o["na"] / o["wl"] < 2 * dk:
                continue
        if o["na"] / o["wl"] * size * px < 1.3:
            continue  # an aperture of a single sample is not a microscope
        if not edge_clear(dict(o, size=size * f, res=px / f)):
            continue
        if cls == "ConfocalMicroscope":
            cfg["wl_exc"] = o["wl"] * float(rng.choice([1.0, rng.uniform(0.7, 1.0), rng.uniform(0.4, 2.5)]))
            # from point pinholes to large ones relative to the grid
            cfg["pinhole_size"] = float(rng.choice([0, rng.uniform(0, 1), rng.uniform(0.5, 3), rng.uniform(0, 8)]))
            if rng.random() < 0.2:
                cfg["pinhole_size"] = int(rng.integers(0, 3))
            elif rng.random() < 0.3:
                # of a few pixels, whatever the sampling
                cfg["pinhole_size"] = float(rng.uniform(0.8, 4)) * 2 * o["na"] * px / f / 1.22 / o["wl"]
            if cfg["wl_exc"] != o["wl"] and not edge_clear(dict(o, wl=cfg["wl_exc"], size=size * f, res=px / f)):
                continue
            if o["na"] / cfg["wl_exc"] * size * px < 1.3:
                continue
            if shep:
                kmag = o["ni"] / cfg["wl_exc"]
                kzmin = np.sqrt(kmag ** 2 - (o["na"] / cfg["wl_exc"]) ** 2)
                if kmag - kzmin < 2.5 * max(dkz, dk * 0.3) or o["na"] / cfg["wl_exc"] < 2 * dk:
                    continue
            if px / f >= 0.98 * cfg["wl_exc"] / 2 / o["na"] or (
                    shep and zr >= 0.98 * cfg["wl_exc"] / 2 / o["ni"]):
                continue
        if "SIM" in cls:
            wide = rng.random() < 0.25
            cfg["na_exc"] = None if rng.random() < 0.3 else o["ni"] * float(rng.uniform(0, 0.999)) if wide else \
                o["na"] * float(rng.choice([rng.uniform(0.2, 1.0), 1.0, 0.5], p=[0.8, 0.1, 0.1]))
            if rng.random() < 0.05:
                cfg["na_exc"] = [0, 0.0][int(rng.integers(2))]  # axial excitation only
            cfg["wl_exc"] = None if rng.random() < 0.3 else o["wl"] * float(
                rng.uniform(0.2, 4) if wide else rng.choice([rng.uniform(0.7, 1.1), 1.0], p=[0.9, 0.1]))
            cfg["wiener"] = [None, 0, 0.0, 0.1, float(rng.uniform(0.001, 1)), 1, float(10 ** rng.uniform(-4, 2)), float(10 ** rng.uniform(-6, -3))][int(rng.integers(8))]
            cfg["dc_suppress"] = bool(rng.random() < 0.5)
            if not cls.startswith("Lattice"):
                k = int(rng.integers(1, 5)) if rng.random() < 0.9 else int(rng.integers(5, 12))
                cfg["orientations"] = [float(a) for a in (
                    np.arange(k) * np.pi / k if rng.random() < 0.5 else rng.uniform(-4, 7, k))]
                if rng.random() < 0.15:
                    # the same orientation twice, or the opposite one
                    cfg["orientations"].append(cfg["orientations"][0] + float(rng.choice([0, 0, np.pi, 2 * np.pi])))
        return cfg

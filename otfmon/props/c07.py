"""C07: each z plane depends only on its own z; zsize and zres define the z range."""
import numpy as np

from .. import drv, gen

ID = "C07"
RULE = ("random HanserPSF configurations; the planes of a long random z list are recomputed as permutations, selections, "
        "repetitions, single scalars and other sequence types, at construction and by assignment, with ideal and applied "
        "pupils; default z ranges for every parity; non-trivial when planes with different z differ")
ASSUMPTIONS = ["planes are compared to 1e-10 of the largest intensity"]
MIN_EVENTS = {"planes": 1663, "scalar": 100, "default_range": 100, "alias": 100, "replaced": 100, "dtype": 100, "many": 20}
CHUNK = 4


def cases(rng, tier):
    for rep in range(220 if tier == "quick" else 4000):
        cfg = gen.hanser(rng, max_z=6, zmode="list", max_ratio=0.95, extreme=0.1)
        yield dict(cfg=cfg, seed=int(rng.integers(2**31)))


def check(case, rec):
    cfg = dict(case["cfg"])
    rng = np.random.default_rng(case["seed"])
    pupil = drv.rand_pupil(rng, cfg, str(rng.choice(drv.PUPILS))) if rng.random() < 0.4 else None
    rec.tag(pupil=pupil is not None, vec=cfg["vec_corr"])

    def planes(z, how):
        if how == "ctor":
            m = drv.hanser(dict(cfg, zrange=z))
        else:
            m = drv.hanser(dict(cfg, zrange=[0.1 * cfg["wl"]] * 3))
            if rng.random() < 0.5:
                m.PSFi
            m.zrange = z
        if pupil is not None:
            m.apply_pupil(pupil)
        return m

    z = np.array(cfg["zrange"])
    base = planes(z.copy(), "ctor")
    A, I = base.PSFa, base.PSFi
    rec.ok(I.shape == (len(z), cfg["size"], cfg["size"]), "wrong number of planes", got=I.shape, nz=len(z))
    rec.close(base.zrange, z, "zrange is not the one given")
    scale = np.abs(A).max()
    for rep in range(3):
        sel = rng.integers(0, len(z), int(rng.integers(1, 2 * len(z) + 1)))
        if rep == 0:
            sel = rng.permutation(len(z))
        if rep == 1:
            sel = np.sort(sel)[::-1]
        zz = z[sel]
        kind = int(rng.integers(4))
        arg = [zz.copy(), list(map(float, zz)), tuple(map(float, zz)), np.repeat(zz, 2)[::2]][kind]
        m = planes(arg, str(rng.choice(["ctor", "assign"])))
        rec.close(m.PSFa, A[:, sel], "planes of a selection differ from the planes computed together", rtol=1e-10, scale=scale)
        rec.close(m.PSFi, I[sel], "intensity planes of a selection differ", rtol=1e-10)
        rec.ev("planes", len(sel))
    if rng.random() < 0.25:
        # tens of planes in rising, falling or no order
        zz = np.concatenate([z, rng.uniform(-3, 3, int(rng.integers(20, 60))) * cfg["wl"]])
        zz = [np.sort(zz), np.sort(zz)[::-1], rng.permutation(zz)][int(rng.integers(3))]
        m = planes(zz if rng.random() < 0.5 else list(map(float, zz)), str(rng.choice(["ctor", "assign"])))
        rec.close(m.zrange, zz, "zrange is not the one given")
        for j in rng.permutation(len(zz))[:4]:
            one = planes(float(zz[j]), "ctor")
            rec.close(m.PSFa[:, [j]], one.PSFa, "a plane among many differs from the same plane alone", rtol=1e-10, scale=np.abs(m.PSFa).max())
        rec.ev("many")
    i = int(rng.integers(len(z)))
    m = planes([float(z[i]), np.float64(z[i]), np.array(z[i]), [float(z[i])]][int(rng.integers(4))],
               str(rng.choice(["ctor", "assign"])))
    rec.close(m.PSFa, A[:, [i]], "a single scalar plane differs", rtol=1e-10, scale=scale)
    rec.ev("scalar")
    # aliasing of the caller's array
    mine = z.copy() if rng.random() < 0.8 else z[:1].reshape(())
    keep = mine.copy()
    m = planes(mine, str(rng.choice(["ctor", "assign"])))
    m.PSFi
    rec.ok(mine.shape == keep.shape and mine.dtype == keep.dtype and (mine == keep).all(), "the caller's z array was modified")
    rec.ok(not np.shares_memory(mine, m.zrange), "the model aliases the caller's z array")
    mine[...] = 123.0 * cfg["wl"]
    rec.close(m.zrange, np.atleast_1d(keep), "changing the caller's array changes the model's z range")
    rec.ev("alias")
    # integer z values, as in the README
    zi = rng.integers(-5, 6, int(rng.integers(1, 5)))
    a = planes(zi, "assign").PSFi
    b = planes(zi.astype(float), "ctor").PSFi
    rec.close(a, b, "integer z values give other planes than the same values as floats")
    # the planes depend on the values, not on the number type or the memory layout they come in
    u = cfg["wl"] / 16
    zf = (rng.integers(-4096, 4097, int(rng.integers(1, 6))) * u).astype(np.float32)
    want = planes(zf.astype(float), "ctor").PSFa
    for zz in (zf, np.repeat(zf, 2)[::2], zf.astype(">f8"), [np.float32(v) for v in zf], np.asfortranarray(zf)):
        rec.close(planes(zz, str(rng.choice(["ctor", "assign"]))).PSFa, want,
                  "planes depend on the number type of the z values", rtol=1e-9)
    rec.ev("dtype")
    # default range, at construction and after assignments
    c = {k: v for k, v in cfg.items() if k != "zrange"}
    nz, dz = int(rng.integers(1, 10)), cfg["wl"] * float(rng.uniform(0.05, 3))
    if rng.random() < 0.4:
        m = drv.hanser(dict(c, zsize=nz, zres=dz))
    else:
        m = drv.hanser(dict(cfg, zrange=z) if rng.random() < 0.5 else c)
        steps = [("zsize", nz), ("zres", dz)]
        for k in rng.permutation(2):
            if rng.random() < 0.5:
                m.PSFi
            setattr(m, *steps[k])
    want = (np.arange(nz) - nz // 2) * dz
    rec.close(m.zrange, want, "default z range is not zsize equispaced planes with focus at zsize // 2", rtol=1e-12)
    rec.ok(m.PSFi.shape[0] == nz, "number of planes differs from zsize")
    rec.close(m.PSFi, drv.hanser(dict(c, zrange=list(want))).PSFi, "PSF of the default range", rtol=1e-10)
    if rng.random() < 0.2:
        m = drv.hanser(c)
        want = (np.arange(c["size"]) - c["size"] // 2) * c["res"]
        rec.close(m.zrange, want, "default z range from size and res", rtol=1e-12)
    rec.ev("default_range")
    # custom planes are replaced as soon as zsize or zres changes, whatever their number and whatever was read
    n_own = int(rng.integers(1, 7))
    own = list(rng.uniform(-3, 3, n_own) * cfg["wl"])
    m = drv.hanser(dict(c, zrange=own)) if rng.random() < 0.5 else drv.hanser(dict(c, zsize=n_own + 1, zres=0.7 * dz))
    m.zrange = own
    if rng.random() < 0.5:
        m.PSFi
    rec.close(m.zrange, own, "custom z range")
    nz, dz = m.zsize, m.zres
    if rng.random() < 0.7:
        nz = n_own if rng.random() < 0.7 and n_own != nz else nz + int(rng.integers(1, 4))
        m.zsize = nz
    else:
        dz = 1.1 * dz
        m.zres = dz
    want = (np.arange(nz) - nz // 2) * dz
    rec.close(m.zrange, want, "changing zsize or zres does not replace the custom planes", rtol=1e-12)
    if nz <= 12:
        rec.close(m.PSFi, drv.hanser(dict(c, zrange=list(want))).PSFi, "PSF after replacing custom planes", rtol=1e-10)
    rec.ev("replaced")

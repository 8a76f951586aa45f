"""C01: HanserPSF against the explicit plane wave sum."""
import numpy as np

from .. import drv, gen, ref

ID = "C01"
RULE = ("random optical configurations (unit systems, integer parameters, odd/even/tiny sizes, every "
        "vector x condition pair, z as list/scalar/zsize,zres/default), then random pupils applied to the "
        "same object; non-trivial when the expected PSF is not identically zero")
ASSUMPTIONS = ["lateral frequency samples within 1e-7 of the aperture or evanescent edge are not generated "
               "(their membership is decided by rounding)",
               "agreement is judged to 1e-7 of the largest amplitude"]
MIN_EVENTS = {"ideal_psf": 100, "pupil_psf": 100}
CHUNK = 2


def cases(rng, tier):
    n = 60 if tier == "quick" else 1500
    for rep in range(n):
        for v, c in gen.COMBOS:
            cfg = gen.hanser(rng, vec=v, cond=c, extreme=0.1)
            yield dict(cfg=cfg, seed=int(rng.integers(2**31)), pupils=[str(p) for p in rng.choice(drv.PUPILS, 2)])
    big = 4 if tier == "quick" else 30
    for rep in range(big):
        cfg = gen.hanser(rng, sizes=(64, 96, 127, 128, 255, 256), max_z=2, zmode="list")
        yield dict(cfg=cfg, seed=int(rng.integers(2**31)), pupils=["complex"])
    # millions of samples
    for size, nz, v in ((256, 12, "total"), (512, 1, "none"), (64, 500, "x")) * (1 if tier == "quick" else 4):
        cfg = gen.hanser(rng, sizes=(size,), zmode="one", vec=v)
        cfg["zsize"] = nz
        cfg["zres"] = cfg["res"] * 0.9
        yield dict(cfg=cfg, seed=int(rng.integers(2**31)), pupils=["complex"])
    for nz in (40, 64, 100) if tier == "quick" else (40, 64, 100, 128, 200, 300):
        cfg = gen.hanser(rng, sizes=(5, 8, 9), zmode="one")
        cfg["zsize"] = nz
        cfg["zres"] = cfg["res"] * 0.7
        yield dict(cfg=cfg, seed=int(rng.integers(2**31)), pupils=["complex"])


def check(case, rec):
    cfg = case["cfg"]
    rng = np.random.default_rng(case["seed"])
    over = {}
    if isinstance(cfg.get("zrange"), list) and rng.random() < 0.4:
        # other number types and sequences of the same values
        z = np.array(cfg["zrange"]).astype(np.float32)
        cfg = dict(cfg, zrange=[float(v) for v in z])
        over["zrange"] = [z, tuple(float(v) for v in z), z.astype(">f8"), z.astype(np.float64)[::-1][::-1]][int(rng.integers(4))]
        rec.ev("z_types")
    m = drv.hanser(cfg, **over)
    rec.tag(vec=cfg["vec_corr"], condition=cfg["condition"], parity=cfg["size"] % 2, size=cfg["size"])
    if rng.random() < 0.5:
        got_i = m.PSFi
        got_a = m.PSFa
    else:
        got_a = m.PSFa
        got_i = m.PSFi
    want = ref.hanser_psfa(cfg)
    rec.close(got_a, want, "amplitude PSF differs from the plane wave sum", rtol=5e-9)
    rec.close(got_i, ref.intensity(want), "intensity PSF differs from the summed squared moduli", rtol=5e-9)
    rec.ok(np.isrealobj(got_i), "intensity PSF is complex")
    rec.ev("ideal_psf")
    rec.ev("planes", want.shape[1])
    rec.ev("plane_waves", int(ref.aperture(cfg).sum()))
    for kind in case["pupils"]:
        p = drv.rand_pupil(rng, cfg, kind)
        m.apply_pupil(p.copy())
        want = ref.hanser_psfa(cfg, p)
        rec.tag(pupil=kind)
        if rng.random() < 0.5:
            rec.close(m.PSFi, ref.intensity(want), "intensity PSF of an applied pupil", rtol=5e-9)
        rec.close(m.PSFa, want, "amplitude PSF of an applied pupil differs from the plane wave sum", rtol=5e-9)
        rec.close(m.PSFi, ref.intensity(want), "intensity PSF of an applied pupil", rtol=5e-9)
        rec.ev("pupil_psf")

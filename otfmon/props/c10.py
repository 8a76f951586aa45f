"""C10: aberrations multiply the pupil by the requested Zernike phase and magnitude."""
import numpy as np

from .. import drv, gen, ref
from ..core import digest

ID = "C10"
RULE = ("random models and coefficient vectors (1 to 120 modes, magnitude and/or phase, named, dictionaries in several "
        "orders); every aberrated PSF is compared with the plane wave sum of the composed pupil; non-trivial when a "
        "coefficient is non-zero")
ASSUMPTIONS = ["coefficients are arrays, as documented", "agreement to 1e-7 of the largest value"]
MIN_EVENTS = {"coefs": 115, "named": 150, "dict": 60, "energy": 60, "tilt": 40, "unknown_name": 50, "rim": 10, "derived": 5, "typed": 40}
CHUNK = 2

NAMES = {1: "piston", 2: "tip", 3: "tilt", 4: "defocus", 5: "oblique astigmatism", 6: "vertical astigmatism",
         7: "vertical coma", 8: "horizontal coma", 9: "vertical trefoil", 10: "oblique trefoil", 11: "primary spherical",
         12: "vertical secondary astigmatism", 13: "oblique secondary astigmatism", 14: "vertical quadrafoil",
         15: "oblique quadrafoil"}


def cases(rng, tier):
    for rep in range(14 if tier == "quick" else 300):
        for v, c in gen.COMBOS:
            yield dict(cfg=gen.hanser(rng, vec=v, cond=c, max_ratio=0.95, max_z=3, extreme=0.1,
                                      sizes=(5, 6, 8, 9, 12, 13, 16, 17, 24, 31, 32)), seed=int(rng.integers(2**31)))
    for rep in range(10 if tier == "quick" else 150):
        # samples exactly at the diffraction limit, which are not part of the pupil
        v, c = gen.COMBOS[rep % 15]
        yield dict(cfg=gen.rim_hanser(rng, vec=v, cond=c), seed=int(rng.integers(2**31)), rim=True)
    for rep in range(12 if tier == "quick" else 100):
        # one to three samples
        yield dict(cfg=gen.hanser(rng, max_ratio=0.95, max_z=3, sizes=(1, 1, 2, 3)), seed=int(rng.integers(2**31)))
    for rep in range(4 if tier == "quick" else 40):
        yield dict(cfg=gen.hanser(rng, max_ratio=0.95, max_z=2, zmode="list", sizes=(64, 96, 101, 128)), seed=int(rng.integers(2**31)))


def expected(cfg, mc, pc):
    n = max(len(c) for c in (mc, pc) if c is not None)
    z = ref.zernike_stack(cfg, n)
    mag, ph = ref.aperture(cfg), 0
    if mc is not None:
        mag = mag + np.tensordot(mc, z, 1)
    if pc is not None:
        ph = np.tensordot(pc, z, 1)
    return mag * np.exp(1j * ph)


def check(case, rec):
    import pyotf.otf as otf
    cfg = case["cfg"]
    rng = np.random.default_rng(case["seed"])
    m = drv.hanser(cfg)
    dirty = rng.random()
    if dirty < 0.3:
        m.PSFi
    elif dirty < 0.5:
        m.apply_pupil(drv.rand_pupil(rng, cfg, "complex"))  # must not leak into the aberrated copy
    if case.get("rim"):
        rec.ev("rim")
    before = digest([m.PSFa, m.PSFi, m.zrange, m.size, m.wl])
    T = dict(rtol=1e-7)
    n = int(rng.choice([0, 1, 2, 3, 4, 5, 11, 15, 16, 22, 36, 55, 120]))
    style = str(rng.choice(["both", "phase", "mag"]))
    mc = rng.normal(size=n) * 0.2 if style != "phase" else None
    pc = rng.normal(size=n) if style != "mag" else None
    if pc is not None and rng.random() < 0.1:
        pc *= 10.0 ** rng.integers(1, 4)  # many turns
    keep = [None if c is None else c.copy() for c in (mc, pc)]
    rec.tag(n=n, style=style, vec=cfg["vec_corr"])
    ab = otf.apply_aberration(m, mc, pc)
    for c, k in zip((mc, pc), keep):
        rec.ok(c is None or (c == k).all(), "coefficients were modified")
    if ref.aperture(cfg).any():
        want = ref.hanser_psfa(cfg, expected(cfg, mc, pc))
        rec.close(ab.PSFa, want, "aberrated amplitude PSF is not that of the composed pupil", **T)
        rec.close(ab.PSFi, ref.intensity(want), "aberrated PSF is not that of the composed pupil", **T)
    rec.ok(ab is not m, "the model itself was returned")
    rec.ev("coefs")
    if rng.random() < 0.3:
        # a model of the user's own class
        own = type("OwnPSF", (otf.HanserPSF,), {"label": "own"})
        kw = {k: np.array(v) if k == "zrange" else v for k, v in cfg.items()}
        rec.close(otf.apply_aberration(own(**kw), mc, pc).PSFa, ab.PSFa, "an aberrated model of a derived class", **T)
        rec.ev("derived")
    # integer and short coefficients
    if rng.random() < 0.4:
        dt = str(rng.choice(["int64", "int64", "int8", "float32"]))
        pi, mi = rng.integers(-2, 3, (2, 6)).astype(dt)
        pi, mi = [(None, mi), (pi, None), (pi, mi), (pi * 0.5, mi)][int(rng.integers(4))]
        w = expected(cfg, *(None if v is None else v.astype(float) for v in (mi, pi)))
        rec.close(otf.apply_aberration(m, mi, pi).PSFi, ref.intensity(ref.hanser_psfa(cfg, w)), f"coefficients of type {dt}",
                  rtol=1e-4 if dt == "float32" else 1e-7)
        rec.ev("typed")
    # zero coefficients
    zero = otf.apply_aberration(m, np.zeros(n), np.zeros(n) if rng.random() < 0.5 else None)
    ideal = drv.hanser(cfg)
    rec.close(zero.PSFi, ideal.PSFi, "zero coefficients do not give the ideal PSF", **T)
    # phase only energy
    if pc is not None:
        ph = otf.apply_aberration(m, None, pc)
        rec.close(ph.PSFi.sum((1, 2)), ideal.PSFi.sum((1, 2)), "a phase aberration changes the energy of a plane")
        rec.ev("energy")
    # names
    for j in rng.choice(np.arange(1, 16), 2, replace=False):
        a = float(rng.normal() * 2) if rng.random() < 0.8 else int(rng.integers(-2, 3))
        vec = np.zeros(15)
        vec[j - 1] = a
        got = otf.apply_named_aberration(m, NAMES[int(j)], a)
        rec.close(got.PSFi, ref.intensity(ref.hanser_psfa(cfg, expected(cfg, None, vec))), f"named aberration {NAMES[int(j)]}", **T)
        co = otf.named_aberration_to_pcoefs(NAMES[int(j)], a)
        rec.ok(np.trim_zeros(np.asarray(co), "b").tolist() == np.trim_zeros(vec, "b").tolist(), "coefficients of a named aberration",
               name=NAMES[int(j)], got=co)
        rec.ev("named")
    # dictionaries
    js = rng.choice(np.arange(1, 16), int(rng.choice([1, 2, 3, 4, 5, 8, 11, 15])), replace=False)
    vals = rng.normal(size=len(js))
    vec = np.zeros(15)
    vec[js - 1] = vals
    d = {NAMES[int(j)]: float(a) for j, a in zip(js, vals)}
    order = rng.permutation(len(js))
    items = list(d.items())
    d2 = dict(items[i] for i in order)
    w = ref.intensity(ref.hanser_psfa(cfg, expected(cfg, None, vec)))
    rec.close(otf.apply_named_aberrations(m, d).PSFi, w, "dictionary of named aberrations", **T)
    rec.close(otf.apply_named_aberrations(m, d2).PSFi, w, "dictionary of named aberrations depends on its order", **T)
    rec.ok(list(d.items()) == items, "the dictionary was modified")
    if rng.random() < 0.2:
        rec.close(otf.apply_named_aberrations(m, {}).PSFi, ideal.PSFi, "an empty dictionary of aberrations", **T)
    rec.ev("dict")
    bad = str(rng.choice(["coma", "Tip", "", "astigmatism", "spherical", "tip ", "5"]))
    much = [1.0, 0.0, 0, -2][int(rng.integers(4))]
    rec.raises(lambda: otf.apply_named_aberration(m, bad, much), f"unknown aberration {bad!r}")
    rec.raises(lambda: otf.named_aberration_to_pcoefs(bad, much), f"unknown aberration {bad!r}")
    rec.raises(lambda: otf.apply_named_aberrations(m, {**d, bad: much}), f"unknown aberration {bad!r} in a dictionary")
    rec.raises(lambda: otf.apply_named_aberrations(m, {bad: much, **d}), f"unknown aberration {bad!r} in a dictionary")
    rec.ev("unknown_name")
    # tip and tilt translate: p chosen to shift by whole pixels
    s = rng.integers(-3, 4, 2)
    unit = np.pi * cfg["na"] * cfg["res"] / cfg["wl"]
    tt = otf.apply_aberration(m, None, np.array([0.3, unit * s[1], unit * s[0]]))
    rec.close(tt.PSFi, np.roll(ideal.PSFi, (-s[0], -s[1]), (1, 2)), "tip/tilt do not translate the PSF", **T)
    rec.ev("tilt")
    rec.ok(digest([m.PSFa, m.PSFi, m.zrange, m.size, m.wl]) == before, "the given model was modified")
    # None, None
    rec.close(otf.apply_aberration(m, None, None).PSFi, m.PSFi, "no aberration changes the PSF")
    # the copy is independent
    ab.wl = ab.wl * 1.01
    rec.ok(digest([m.PSFa, m.PSFi, m.zrange, m.size, m.wl]) == before, "changing the aberrated copy changed the model")

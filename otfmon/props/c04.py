"""C04: the pupil based and the 3D shell model describe the same microscope."""
import numpy as np

from .. import drv, gen

ID = "C04"
RULE = ("well-sampled configurations (at least 5 depths of focus and 10 resolution lengths in the field of view) over "
        "every vector x condition pair, both models built from the same parameters; non-trivial when both PSFs have energy")
ASSUMPTIONS = ["both models are discretised differently, agreement is by correlation (window of 1.5 depths of focus and "
               "2 wl/NA around the focus), with thresholds from the property statement"]
MIN_EVENTS = {"pair": 30, "max_at_focus": 10, "elongation": 20}
PSF_MIN, PLANE_MIN, OTF_MIN = 0.88, 0.95, 0.80


def make(rng, vec, cond):
    while True:
        ni = float(rng.uniform(1, 1.6))
        na = ni * float(rng.uniform(0.6, 0.95))
        wl = float(rng.uniform(400, 700)) * float(rng.choice([1, 1e-3, 1e-9]))
        abbe = wl / 2 / na
        res = abbe * float(rng.uniform(0.35, 0.9))
        zres = wl / 2 / ni * float(rng.uniform(0.4, 0.9))
        dof = wl / (ni - np.sqrt(ni ** 2 - na ** 2))
        size = int(np.ceil(10 * wl / na / res)) + int(rng.integers(0, 12))
        zsize = int(np.ceil(5 * dof / zres)) + int(rng.integers(0, 12))
        if size ** 2 * zsize * (6 if vec == "total" else 2) > 1.2e6:
            continue
        cfg = dict(wl=wl, na=na, ni=ni, res=res, size=size, zres=zres, zsize=zsize, vec_corr=vec, condition=cond)
        if gen.edge_clear(cfg):
            return cfg


def cases(rng, tier):
    for rep in range(12 if tier == "quick" else 200):
        for v, c in gen.COMBOS:
            yield dict(cfg=make(rng, v, c))


def corr(a, b):
    return float((a * b).sum() / np.sqrt((a ** 2).sum() * (b ** 2).sum()))


def check(case, rec):
    cfg = case["cfg"]
    h, s = drv.hanser(cfg), drv.sheppard(cfg)
    a, b = h.PSFi, s.PSFi
    rec.shape(a, b.shape, "the models' PSFs differ in shape")
    rec.tag(vec=cfg["vec_corr"], condition=cfg["condition"])
    dof = cfg["wl"] / (cfg["ni"] - np.sqrt(cfg["ni"] ** 2 - cfg["na"] ** 2))
    wz = int(1.5 * dof / cfg["zres"])
    wx = int(2 * cfg["wl"] / cfg["na"] / cfg["res"])
    cz, cx = cfg["zsize"] // 2, cfg["size"] // 2
    win = (slice(cz - wz, cz + wz + 1),) + (slice(cx - wx, cx + wx + 1),) * 2
    r3 = corr(a[win], b[win])
    r2 = corr(a[(cz,) + win[1:]], b[(cz,) + win[1:]])
    ro = corr(np.abs(h.OTFi), np.abs(s.OTFi))
    for k, v in (("psf", r3), ("plane", r2), ("otf", ro)):
        rec.maxdev["1 - corr " + k] = 1 - v
        rec.oracle += 1
    rec.nontrivial = True
    rec.ev("pair")
    rec.ok(r3 > PSF_MIN, "PSFs of the two models differ around the focus", corr=r3)
    rec.ok(r2 > PLANE_MIN, "focal planes of the two models differ", corr=r2)
    rec.ok(ro > OTF_MIN, "OTFs of the two models differ", corr=ro)
    if cfg["vec_corr"] in "xy":
        # the part that changes sign under exchange of x and y, i.e. the elongation of the focus
        da, db = (p[win] - p[win].transpose(0, 2, 1) for p in (a, b))
        r4, r5 = corr(da, db), corr(da[wz], db[wz])
        rec.maxdev["1 - corr elongation"] = 1 - min(r4, r5)
        rec.ok(r4 > 0.5 and r5 > 0.7, "the foci of the two models are not elongated along the same axis", corr=[r4, r5])
        rec.ev("elongation")
    ia, ib = np.unravel_index(a.argmax(), a.shape), np.unravel_index(b.argmax(), b.shape)
    if cfg["vec_corr"] != "z":
        rec.ok(ia == ib == (cz, cx, cx), "the maxima of the two models are not both at the focus", hanser=ia, sheppard=ib)
        rec.ev("max_at_focus")

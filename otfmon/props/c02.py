"""C02: SheppardPSF's amplitude OTF against the weighted spherical cap."""
import numpy as np

from .. import drv, gen, ref
from ..core import Inconclusive

ID = "C02"
RULE = ("random shell-model configurations (single and dual objectives, cubic and non-cubic frequency voxels, every "
        "vector x condition pair, odd/even sizes); every OTF sample is compared; non-trivial when the cap is not empty")
ASSUMPTIONS = ["samples whose membership of the cap is decided by rounding (within 1e-9 of n/wl of its surface) are "
               "allowed to be either zero or the cap value"]
MIN_EVENTS = {"otf": 60, "on_cap": 1000, "dual": 10, "single": 10, "cubic_voxels": 1, "steep": 16, "shallow": 8, "few_lateral": 6, "grazing": 3}
CHUNK = 2


def cases(rng, tier):
    n = 40 if tier == "quick" else 600
    for rep in range(n):
        for v, c in gen.COMBOS:
            yield dict(cfg=gen.sheppard(rng, vec=v, cond=c))
    sizes = (12, 16, 17, 40, 48, 63, 64)
    for rep in range(8 if tier == "quick" else 60):
        cfg = gen.sheppard(rng, sizes=sizes, zsizes=sizes)
        yield dict(cfg=cfg)
    for rep in range(16 if tier == "quick" else 150):
        # nearly a half sphere, sampled finely enough to come close to its rim
        v, c = gen.COMBOS[rep % 15]
        yield dict(cfg=gen.sheppard(rng, sizes=(33, 48, 49), zsizes=(48, 63), ratio=(0.97, 0.9999), zny=(0.7, 0.97), vec=v, cond=c))
    for rep in range(8 if tier == "quick" else 60):
        # shallow caps of low apertures, which need many samples along z; few lateral samples
        v, c = gen.COMBOS[int(rng.integers(15))]
        yield dict(cfg=gen.sheppard(rng, sizes=(5, 6, 8, 11, 16), zsizes=(160, 301, 400), ratio=(0.15, 0.35), zny=(0.7, 0.97), vec=v, cond=c))
        yield dict(cfg=gen.sheppard(rng, sizes=(2, 3, 4, 5, 6), zsizes=(16, 17, 24), few=True, vec=v, cond=c))
    for rep in range(3 if tier == "quick" else 20):
        # far apart sizes, up to hundreds of samples
        flat = rng.random() < 0.5
        yield dict(cfg=gen.sheppard(rng, sizes=(14, 15, 18) if flat else (128, 151, 160), zsizes=(300, 401, 512) if flat else (16, 17, 24)))
    for rep in range(5 if tier == "quick" else 30):
        # samples seen under nearly a right angle
        v, c = gen.COMBOS[int(rng.integers(15))]
        yield dict(cfg=gen.sheppard(rng, sizes=(110, 121, 130), zsizes=(75, 96), ratio=(0.997, 0.99999), nyquist=(0.8, 0.98), zny=(0.8, 0.97), vec=v,
                                    cond=str(rng.choice(["sine", "herschel"])), dual=rep % 2 == 0))
    # millions of samples
    for k, v in ((128, "none"), (96, "total")):
        yield dict(cfg=gen.sheppard(rng, sizes=(k,), zsizes=(k,), vec=v))
    for rep in range(6 if tier == "quick" else 60):
        # cubic voxels: same step and size along all axes
        while True:
            cfg = gen.sheppard(rng)
            lim = min(cfg["wl"] / 2 / cfg["ni"], cfg["wl"] / 2 / cfg["na"])
            cfg["zres"] = cfg["res"] = lim * float(rng.uniform(0.4, 0.95))
            cfg["zsize"] = cfg["size"]
            if rng.random() < 0.4:
                del cfg["zsize"], cfg["zres"]  # the defaults
            break
        yield dict(cfg=cfg)


def check(case, rec):
    cfg = case["cfg"]
    m = drv.sheppard(cfg)
    full = dict(cfg, zsize=cfg.get("zsize", cfg["size"]), zres=cfg.get("zres", cfg["res"]))
    vals, on, off = ref.sheppard_otfa(full)
    rec.tag(vec=cfg["vec_corr"], condition=cfg["condition"], dual=cfg["dual"],
            cubic=full["zres"] * full["zsize"] == full["res"] * full["size"])
    otf = m.OTFa
    rec.shape(otf, vals.shape, "amplitude OTF")
    rec.ok(np.isfinite(otf).all(), "amplitude OTF is not finite")
    rec.ok(not (otf[:, off] != 0).any(), "amplitude OTF is non-zero outside the spherical cap",
           at=np.argwhere((otf != 0).any(0) & off)[:3])
    if cfg["na"] > 0.97 * cfg["ni"]:
        rec.ev("steep")
    if cfg["na"] < 0.35 * cfg["ni"]:
        rec.ev("shallow")
    n_l = cfg["ni"] / cfg["wl"]
    kz = np.abs(np.fft.fftshift(np.fft.fftfreq(full["zsize"], full["zres"])))
    seen = on.any((1, 2)) & (kz < 0.15 * n_l)
    if seen.any():
        rec.ev("grazing", int(seen.sum()))
    if cfg["size"] < 7:
        rec.ev("few_lateral")
    rec.close(otf[:, on], vals[:, on], "amplitude OTF differs from the weighted cap", rtol=1e-9)
    edge = ~on & ~off
    if edge.any():
        e, w = otf[:, edge], vals[:, edge]
        rec.ok((np.isclose(e, w, rtol=1e-6, atol=1e-6) | (e == 0)).all(), "amplitude OTF at the edge of the cap")
        rec.ev("edge_samples", int(edge.sum()))
    rec.close(m.PSFa, ref.icft(otf, (1, 2, 3)), "amplitude PSF is not the inverse transform of the OTF", rtol=1e-9)
    rec.ev("otf")
    rec.ev("on_cap", int(on.sum()))
    rec.ev("off_cap", int(off.sum()))
    rec.ev("dual" if cfg["dual"] else "single")
    if full["zres"] * full["zsize"] == full["res"] * full["size"]:
        rec.ev("cubic_voxels")
    if cfg["dual"]:
        lower = on[: full["zsize"] // 2]
        rec.ev("mirrored_cap", int(lower.sum()))

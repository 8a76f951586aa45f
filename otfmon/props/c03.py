"""C03: mutual consistency, physics and band limits of PSFs and OTFs."""
import numpy as np

from .. import drv, gen, ref

ID = "C03"
RULE = ("random configurations of both models, random applied phase pupils for HanserPSF, outputs read in random order; "
        "non-trivial when the PSF has energy")
ASSUMPTIONS = ["relations judged to 1e-9 of the largest value; the band limit to 1e-10 of the total intensity"]
MIN_EVENTS = {"hanser": 80, "sheppard": 25, "band_limit": 25, "vector_sum": 15, "plane_energy": 80}
CHUNK = 2


def cases(rng, tier):
    k = 30 if tier == "quick" else 500
    for rep in range(k):
        for v, c in gen.COMBOS:
            yield dict(kind="hanser", cfg=gen.hanser(rng, vec=v, cond=c, max_ratio=0.95, extreme=0.07), seed=int(rng.integers(2**31)))
    for rep in range(12 if tier == "quick" else 120):
        for v, c in gen.COMBOS:
            yield dict(kind="sheppard", cfg=gen.sheppard(rng, vec=v, cond=c), seed=int(rng.integers(2**31)))
    for rep in range(3 if tier == "quick" else 30):
        cfg = gen.hanser(rng, sizes=(64, 100, 128), max_z=2, zmode="list")
        yield dict(kind="hanser", cfg=cfg, seed=int(rng.integers(2**31)))
    # millions of samples
    cfg = gen.hanser(rng, sizes=(256,), zmode="one", vec="total")
    cfg["zsize"], cfg["zres"] = 10, cfg["res"]
    yield dict(kind="hanser", cfg=cfg, seed=int(rng.integers(2**31)))
    yield dict(kind="sheppard", cfg=gen.sheppard(rng, sizes=(128,), zsizes=(100,), vec="x"), seed=int(rng.integers(2**31)))


def consistency(rec, kind, m, cfg, order, what):
    got = {name: getattr(m, name) for name in order}
    psfa, psfi, otfa, otfi = (got[k] for k in ("PSFa", "PSFi", "OTFa", "OTFi"))
    rec.ok(psfa.ndim == 4 and psfi.shape == psfa.shape[1:], what + ": wrong dimensions", a=psfa.shape, i=psfi.shape)
    rec.ok(np.isrealobj(psfi) and np.isfinite(psfi).all(), what + ": intensity PSF not real and finite")
    rec.ok((psfi >= 0).all(), what + ": negative intensity")
    rec.close(psfi, ref.intensity(psfa), what + ": intensity is not the summed squared amplitude")
    rec.close(otfa, ref.cft(psfa, (1, 2, 3)), what + ": amplitude OTF is not the transform of the amplitude PSF")
    rec.close(otfi, ref.cft(psfi), what + ": intensity OTF is not the transform of the intensity PSF")
    c = tuple(n // 2 for n in otfi.shape)
    rec.close(otfi[c], psfi.sum(), what + ": OTF centre is not the total intensity")
    s = tuple(slice(1 - n % 2, None) for n in otfi.shape)
    core = otfi[s]
    rec.close(core[::-1, ::-1, ::-1].conj(), core, what + ": OTF not Hermitian")
    # band limit
    lim = 2 * cfg["na"] / cfg["wl"]
    if kind == "sheppard":
        d = max(1 / cfg["size"] / cfg["res"], 1 / cfg["zsize"] / cfg["zres"])
        kmag = cfg["ni"] / cfg["wl"]
        kzmin = np.sqrt(kmag ** 2 - (cfg["na"] / cfg["wl"]) ** 2)
        lim = 2 * np.sqrt((cfg["na"] / cfg["wl"]) ** 2 + 2 * d * (kmag - kzmin))
    if 0.5 / cfg["res"] >= lim:
        _, _, kr = ref.pupil_geometry(cfg)
        out = ref.shift2(kr > lim * (1 + 1e-9))
        if out.any():
            rec.ok(np.abs(otfi[:, out]).max() <= 1e-10 * abs(otfi[c]), what + ": OTF extends beyond 2 NA / wavelength",
                   got=np.abs(otfi[:, out]).max() / abs(otfi[c]))
            rec.ev("band_limit")
    return psfi


def check(case, rec):
    kind, cfg = case["kind"], case["cfg"]
    rng = np.random.default_rng(case["seed"])
    rec.tag(kind=kind, vec=cfg["vec_corr"], condition=cfg["condition"])
    m = drv.psf_model(kind, cfg)
    names = ["PSFa", "PSFi", "OTFa", "OTFi"]
    psfi = consistency(rec, kind, m, cfg, list(rng.permutation(names)), kind)
    rec.ev(kind)
    if rng.random() < 0.4:
        parts = [drv.psf_model(kind, cfg, vec_corr=v).PSFi for v in "xyz"]
        tot = drv.psf_model(kind, cfg, vec_corr="total").PSFi
        rec.close(sum(parts), tot, kind + ": x, y and z do not add up to total")
        rec.ev("vector_sum")
    if kind == "hanser":
        e = psfi.sum((1, 2))
        rec.close(e, np.full(len(e), e[0]), "planes carry different total intensity")
        scal = drv.psf_model(kind, cfg, vec_corr="none").PSFi.sum((1, 2))
        tot = drv.psf_model(kind, cfg, vec_corr="total").PSFi.sum((1, 2))
        rec.close(tot, 2 * scal, "total does not carry twice the scalar energy")
        p = drv.rand_pupil(rng, cfg, "phase")
        m.apply_pupil(p)
        psfi = consistency(rec, kind, m, cfg, list(rng.permutation(names)), kind + " with phase pupil")
        if cfg["vec_corr"] in ("none", "total"):
            # dipole weights of the single components depend on the direction only, too
            pass
        rec.close(psfi.sum((1, 2)), np.full(len(e), e[0]), "a phase-only pupil changes the energy of a plane")
        rec.ev("plane_energy", len(e))

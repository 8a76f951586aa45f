"""C09: results depend only on ratios of lengths."""
import copy

import numpy as np

from .. import drv, gen, ref

ID = "C09"
RULE = ("each case is run in two length units (factors from 1e-9 to 1e6): models, aberrated models, microscopes, phase "
        "retrieval, acceptance of limits, refusal to plot; non-trivial when the result is not zero")
ASSUMPTIONS = ["results are compared to 1e-6 of the largest value; configurations with samples on a hard edge within "
               "rounding are not generated"]
MIN_EVENTS = {"psf_pair": 100, "micro_pair": 40, "retrieval_pair": 10, "decision_pair": 100, "plot_pair": 4}
CHUNK = 2
FACTORS = (1e-9, 1e-6, 1e-3, 0.37, 7.3, 1e3, 1e6)


def cases(rng, tier):
    k = 1 if tier == "quick" else 15
    def f():
        return float(rng.choice(FACTORS))
    for rep in range(8 * k):
        for v, c in gen.COMBOS:
            yield dict(what="hanser", cfg=gen.hanser(rng, vec=v, cond=c, max_ratio=0.95, units=(1.0,), extreme=0.1), f=f(), seed=int(rng.integers(2**31)))
    for rep in range(60 * k):
        while True:
            cfg = gen.sheppard(rng, units=(1.0,), sizes=(12, 15, 16, 17, 21), zsizes=(12, 15, 16, 17, 21))
            _, on, off = ref.sheppard_otfa(cfg)
            if (on | off).all():
                break
        yield dict(what="sheppard", cfg=cfg, f=f(), seed=int(rng.integers(2**31)))
    for rep in range(12 * k):
        for cls in gen.MICROS:
            while True:
                cfg = gen.micro(rng, cls, planes=0.2)
                if cfg["model"].lower() == "sheppard":
                    g = cfg["oversample_factor"]
                    s = dict(wl=cfg["wl"], na=cfg["na"], ni=cfg["ni"], size=cfg["size"] * g, res=cfg["pixel_size"] / g,
                             zsize=cfg.get("zsize", cfg["size"]), zres=cfg.get("zres", cfg["pixel_size"]), vec_corr="none",
                             condition="none", dual=cfg.get("dual", False))
                    ok = True
                    for wl in {cfg["wl"], cfg.get("wl_exc") if cls == "ConfocalMicroscope" else cfg["wl"]}:
                        _, on, off = ref.sheppard_otfa(dict(s, wl=wl))
                        ok = ok and (on | off).all()
                    if not ok:
                        continue
                break
            yield dict(what=cls, cfg=cfg, f=f(), seed=int(rng.integers(2**31)))
    for rep in range(20 * k):
        yield dict(what="retrieve", cfg=gen.hanser(rng, sizes=(8, 9, 12, 15, 16), zmode="zs", max_ratio=0.9, units=(1.0,), nyquist=(0.2, 0.8)),
                   f=f(), seed=int(rng.integers(2**31)))
    for rep in range(40 * k):
        yield dict(what="decide", cfg=gen.hanser(rng, sizes=(6, 7), zmode="one", max_ratio=0.9, units=(1.0,)), f=f(), seed=int(rng.integers(2**31)))
    for rep in range(14 * k):
        yield dict(what="plot", cfg=gen.hanser(rng, sizes=(6, 7), zmode="one", max_ratio=0.9, units=(1.0,)), f=FACTORS[rep % 7], seed=int(rng.integers(2**31)))


def accepted(fn):
    try:
        fn()
        return True
    except Exception:
        return False


def check(case, rec):
    what, cfg, f = case["what"], case["cfg"], case["f"]
    rng = np.random.default_rng(case["seed"])
    big = gen.coherent_scale(cfg, f)
    rec.tag(what=what, factor=f)
    T = dict(rtol=1e-6)
    if what in ("hanser", "sheppard"):
        a, b = drv.psf_model(what, cfg), drv.psf_model(what, big)
        for name in ("PSFi", "OTFi", "PSFa", "OTFa"):
            rec.close(getattr(b, name), getattr(a, name), f"{what} {name} depends on the length unit", **T)
        rec.ev("psf_pair")
        if what == "hanser":
            from pyotf.otf import apply_aberration, apply_named_aberration
            n = int(rng.integers(2, 16))
            mc, pc = rng.normal(size=n) * 0.1, rng.normal(size=n)
            rec.close(apply_aberration(b, mc, pc).PSFi, apply_aberration(a, mc, pc).PSFi,
                      "aberrated PSF depends on the length unit", **T)
            rec.close(apply_named_aberration(b, "oblique trefoil", 0.7).PSFi, apply_named_aberration(a, "oblique trefoil", 0.7).PSFi,
                      "named aberration depends on the length unit", **T)
            # changed by assignment instead of construction
            a.zres, b.zres = 0.3 * cfg["wl"], 0.3 * big["wl"]
            a.zsize = b.zsize = 3
            rec.close(b.PSFi, a.PSFi, "PSF after assigning z parameters depends on the length unit", **T)
    elif what == "retrieve":
        from pyotf.phaseretrieval import retrieve_phase
        m = drv.hanser(cfg, vec_corr="none", condition="none")
        m.apply_pupil(drv.rand_pupil(rng, cfg, "mag") * np.exp(0.3j * rng.normal(size=(cfg["size"],) * 2)))
        data = m.PSFi + rng.uniform(0, 0.05 * m.PSFi.max(), m.PSFi.shape)
        data *= 100
        keys = ("wl", "na", "ni", "res", "zres")
        full = dict(cfg, zres=cfg.get("zres", cfg["res"]))
        fbig = dict(big, zres=big.get("zres", big["res"]))
        po = bool(rng.random() < 0.5)
        ra, rb = [retrieve_phase(data, {k: c[k] for k in keys}, max_iters=6, pupil_tol=0, mse_tol=0, phase_only=po)
                  for c in (full, fbig)]
        rec.ok(len(ra.mse) == len(rb.mse), "number of iterations depends on the length unit")
        rec.close(rb.mse, ra.mse, "recorded errors depend on the length unit", **T)
        rec.close(rb.pupil_diff, ra.pupil_diff, "recorded pupil changes depend on the length unit", **T)
        rec.close(rb.mag, ra.mag, "retrieved magnitude depends on the length unit", **T)
        rec.close(rb.mag * np.exp(1j * rb.phase), ra.mag * np.exp(1j * ra.phase), "retrieved pupil depends on the length unit", **T)
        if ra.mag.any():
            ra.fit_to_zernikes(10), rb.fit_to_zernikes(10)
            rec.close(rb.zd_result.mcoefs, ra.zd_result.mcoefs, "fitted coefficients depend on the length unit", rtol=1e-4)
        rec.close(rb.generate_psf(), ra.generate_psf(), "regenerated PSF depends on the length unit", **T)
        rec.ev("retrieval_pair")
    elif what == "decide":
        abbe, zl = cfg["wl"] / 2 / cfg["na"], cfg["wl"] / 2 / cfg["ni"]
        for kind in ("hanser", "sheppard"):
            for rel in (-1, 0, 1e-9, 0.1, 1 - 1e-6, 1 + 1e-6, 2):
                base = dict({k: cfg[k] for k in ("wl", "na", "ni", "size")}, zres=zl / 2, res=abbe / 2)
                for name, lim in (("res", abbe), ("zres", zl)):
                    want = rel > 0 and (rel < 1 or (name == "zres" and kind == "hanser"))
                    for g in (1.0, f):
                        c = gen.coherent_scale(dict(base, **{name: lim * rel}), g)
                        got = accepted(lambda: drv.psf_model(kind, c))
                        rec.ok(got == want, "acceptance of a sampling step depends on the length unit or is wrong", kind=kind,
                               name=name, relative=rel, factor=g, accepted=got)
                        rec.ev("decision_pair")
        rec.nontrivial = True
    elif what == "plot":
        step = cfg["wl"] * float(rng.uniform(0.3, 3))
        uni = (np.arange(4) - 2) * step
        jit = uni + step * np.array([0, float(rng.choice([3e-3, 0.01, 0.1, 0.5])), 0, 0])
        for z, want in ((uni, True), (jit, False), (uni + step * np.array([0, 0, 1e-3, 0]), False), (uni + 0.1 * step, True), (uni[:2], False)):
            for g in (1.0, f):
                m = drv.hanser(gen.coherent_scale({k: v for k, v in cfg.items() if k not in ("zsize", "zrange")}, g), zrange=z * g)
                got = accepted(m.plot_psf if rng.random() < 0.5 else m.plot_otf)
                rec.ok(got == want, "refusal to plot depends on the length unit or is wrong", factor=g, z=list(z), plotted=got)
                rec.ev("plot_pair")
                import matplotlib.pyplot as plt
                plt.close("all")
        rec.nontrivial = True
    else:
        a, b = drv.microscope(what, cfg), drv.microscope(what, big)
        if cfg.get("wiener") == 0:
            v = np.abs(a.model.OTFi)
            if ((v > 1e-9) & (v < 1e-7)).any():
                return
        rec.close(b.PSF, a.PSF, f"{what} PSF depends on the length unit", **T)
        rec.close(b.OTF, a.OTF, f"{what} OTF depends on the length unit", **T)
        rec.ev("micro_pair")

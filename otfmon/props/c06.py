"""C06: invalid parameters are rejected and leave everything unchanged."""
import copy

import numpy as np

from .. import drv, gen
from ..core import digest

ID = "C06"
RULE = ("one valid object per case (models, every microscope class) plus every kind of invalid value for each of its "
        "parameters, at construction and on assignment, at a random time relative to reads; limits approached to 1e-9 "
        "from both sides and hit exactly with dyadic parameters; non-trivial when something was rejected and the object "
        "was compared before and after")
ASSUMPTIONS = ["which exception type is raised is not judged", "NaN, bool-as-number and numpy integer scalars are not judged"]
MIN_EVENTS = {"rejected_construction": 300, "rejected_assignment": 500, "accepted_limit": 60, "retrieve_rejected": 20}
CHUNK = 2

PSF_BAD = [("wl", "500"), ("wl", -1.0), ("wl", None), ("wl", [1.0]), ("wl", 1j), ("na", -0.1), ("na", "x"), ("na", [1.0]),
           ("ni", -1), ("ni", 1j), ("ni", "1"), ("size", -4), ("size", 8.0), ("size", "8"), ("size", [8]), ("zsize", -1),
           ("zsize", 3.0), ("zsize", "3"), ("wl", -1e-300), ("wl", -5e-324), ("na", -1e-300), ("na", -5e-324), ("ni", -1e-300), ("ni", -5e-324), ("res", -5e-324),
           ("res", -1e-300), ("zres", -5e-324), ("zres", -1e-300), ("res", 0), ("res", 0.0), ("res", "a"), ("zres", 0), ("zres", 0.0),
           ("zres", "a"), ("vec_corr", "w"), ("vec_corr", "X"), ("vec_corr", None), ("vec_corr", "xy"), ("vec_corr", ""),
           ("vec_corr", "Total"), ("condition", "abbe"), ("condition", "Sine"), ("condition", None), ("condition", 1),
           ("condition", "")]


def psf_bad(kind, cfg):
    abbe = cfg["wl"] / 2 / cfg["na"]
    out = list(PSF_BAD) + [("res", -cfg["res"]), ("res", abbe * (1 + 1e-9)), ("res", abbe * 1.5), ("res", abbe * 100),
                           ("zres", -(cfg.get("zres") or cfg["res"])), ("res", -1e-12 * cfg["res"])]
    if kind == "sheppard":
        zl = cfg["wl"] / 2 / cfg["ni"]
        out += [("zres", zl * (1 + 1e-9)), ("zres", zl * 2), ("zres", zl * 50), ("dual", 1), ("dual", 0), ("dual", "yes"),
                ("dual", None), ("dual", 1.0)]
    return out


MIC = ("WidefieldMicroscope", "ConfocalMicroscope", "ApotomeMicroscope", "SIM2DMicroscope", "SIM3DMicroscope",
       "LatticeSIMMicroscope")


def cases(rng, tier):
    k = 1 if tier == "quick" else 12
    for rep in range(24 * k):
        yield dict(what="hanser", cfg=gen.hanser(rng, sizes=(4, 5, 8, 9), max_z=3, max_ratio=0.95), seed=int(rng.integers(2**31)))
        yield dict(what="sheppard", cfg=gen.sheppard(rng, sizes=(8, 9), zsizes=(8, 9), ratio=(0.6, 0.95)),
                   seed=int(rng.integers(2**31)))
    for rep in range(8 * k):
        for cls in MIC:
            yield dict(what=cls, cfg=gen.micro(rng, cls), seed=int(rng.integers(2**31)))
    for rep in range(16 * k):
        yield dict(what="retrieve", cfg=gen.hanser(rng, sizes=(6, 7, 8), zmode="zs", max_ratio=0.95), seed=int(rng.integers(2**31)))
    for rep in range(8 * k):
        yield dict(what="exact", p=int(rng.integers(-3, 10)), q=int(rng.integers(-2, 1)), seed=int(rng.integers(2**31)))


def state(obj, names, outs):
    return digest([getattr(obj, n) for n in names]), digest([getattr(obj, n) for n in outs])


def check_psf(case, rec):
    kind, cfg = case["what"], case["cfg"]
    rng = np.random.default_rng(case["seed"])
    bads = psf_bad(kind, cfg)
    for i in rng.permutation(len(bads))[:16]:
        name, v = bads[i]
        c = dict(cfg, **{name: v})
        if name in ("zres", "zsize") and v is None:
            continue
        rec.raises(lambda: drv.psf_model(kind, c), f"{kind}: invalid {name}={v!r} at construction")
        rec.ev("rejected_construction")
        rec.tag(bad=f"{kind}.{name}")
    names = ["wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition", "zrange" if kind == "hanser" else "dual"]
    outs = ["PSFa", "PSFi", "OTFa", "OTFi"]
    for warm in (False, True):
        m, twin = drv.psf_model(kind, cfg), drv.psf_model(kind, cfg)
        pupil = None
        if warm:
            if kind == "hanser" and rng.random() < 0.5:
                pupil = drv.rand_pupil(rng, cfg, "complex")
                m.apply_pupil(pupil)
                twin.apply_pupil(pupil)
            getattr(m, str(rng.choice(outs)))
        before = digest([getattr(twin, n) for n in names])
        for i in rng.permutation(len(bads))[:14]:
            name, v = bads[i]
            rec.raises(lambda: setattr(m, name, v), f"{kind}: invalid {name}={v!r} assigned")
            rec.ev("rejected_assignment")
            rec.ok(digest([getattr(m, n) for n in names]) == before, "a rejected assignment changed a parameter",
                   name=name, value=repr(v), now=[getattr(m, n) for n in names])
        for o in outs:
            rec.close(getattr(m, o), getattr(twin, o), "a rejected assignment changed a result")
    # just inside the limits
    abbe = cfg["wl"] / 2 / cfg["na"]
    lim = [("res", abbe * (1 - 1e-9)), ("res", abbe * 1e-3)]
    if kind == "sheppard":
        zl = cfg["wl"] / 2 / cfg["ni"]
        lim += [("zres", zl * (1 - 1e-9)), ("zres", zl * 0.01), ("dual", True), ("dual", False)]
    else:
        lim += [("zres", 1e-6 * cfg["wl"]), ("zres", 1e6 * cfg["wl"]), ("zsize", 1), ("size", 1)]
    for name, v in lim:
        m = drv.psf_model(kind, dict(cfg, **{name: v}))
        rec.ok(getattr(m, name) == v, f"{kind}: {name} just inside the limit is not stored")
        m = drv.psf_model(kind, cfg)
        setattr(m, name, v)
        rec.ok(getattr(m, name) == v, f"{kind}: {name} just inside the limit is not stored on assignment")
        rec.ev("accepted_limit")
    for v in gen.VEC:
        m.vec_corr = v
    for c in gen.COND:
        m.condition = c
    rec.nontrivial = True


def check_micro(case, rec):
    cls, cfg = case["what"], case["cfg"]
    rng = np.random.default_rng(case["seed"])
    bad = [("oversample_factor", 2), ("oversample_factor", 4), ("oversample_factor", 0), ("oversample_factor", -1),
           ("oversample_factor", -3), ("oversample_factor", 3.0), ("oversample_factor", "3"), ("model", "gibson"),
           ("model", ""), ("model", "hanse"), ("na", -1.0), ("wl", "a"), ("size", 9.0), ("size", -9),
           ("pixel_size", 0), ("pixel_size", -1.0),
           ("pixel_size", cfg["oversample_factor"] * cfg["wl"] / 2 / cfg["na"] * (1 + 1e-9)),
           ("vec_corr", "q"), ("condition", "q"), ("ni", -1.33), ("ni", -1e-300), ("na", -5e-324), ("wl", -1e-300), ("pixel_size", -5e-324), ("pixel_size", -1e-300)]
    if cfg["model"].lower() == "sheppard":
        bad += [("zres", cfg["wl"] / 2 / cfg["ni"] * 1.01), ("dual", 3)]
    asg = [("oversample_factor", -1), ("oversample_factor", 3.0), ("oversample_factor", "3"), ("oversample_factor", None)]
    if cls == "ConfocalMicroscope":
        b = [("pinhole_size", -0.1), ("pinhole_size", -1e-300), ("pinhole_size", -5e-324), ("wl_exc", -1e-300), ("pinhole_size", "1"), ("pinhole_size", None), ("wl_exc", -1.0), ("wl_exc", "a"),
             ("wl_exc", None)]
        bad, asg = bad + b, asg + b
    if "SIM" in cls:
        b = [("wiener", -1e-300), ("wiener", -5e-324), ("na_exc", -1e-300), ("wl_exc", -5e-324), ("wiener", -1e-9), ("wiener", -1), ("wiener", -0.5), ("wiener", "a"), ("na_exc", -0.1), ("na_exc", "a"),
             ("wl_exc", -1.0), ("wl_exc", "a"), ("dc_suppress", 1), ("dc_suppress", "no"), ("dc_suppress", None)]
        bad, asg = bad + b, asg + b + [("coherent", 1), ("coherent", None), ("dc", 0), ("dc", "yes"), ("na_exc", None),
                                       ("wl_exc", None)]
    for i in rng.permutation(len(bad))[:16]:
        name, v = bad[i]
        rec.raises(lambda: drv.microscope(cls, dict(cfg, **{name: v})), f"{cls}: invalid {name}={v!r} at construction")
        rec.ev("rejected_construction")
        rec.tag(bad=f"{cls}.{name}")
    names = ["oversample_factor", "pixel_size", "psf_params"]
    names += {"ConfocalMicroscope": ["pinhole_size", "wl_exc"]}.get(cls, [])
    if "SIM" in cls:
        names += ["na_exc", "wl_exc", "wiener", "coherent", "dc", "dc_suppress", "orientations"]
    m, twin = drv.microscope(cls, cfg), drv.microscope(cls, cfg)
    if rng.random() < 0.5:
        m.PSF
    for i in rng.permutation(len(asg)):
        name, v = asg[i]
        rec.raises(lambda: setattr(m, name, v), f"{cls}: invalid {name}={v!r} assigned")
        rec.ev("rejected_assignment")
        rec.ok(digest([getattr(m, n) for n in names]) == digest([getattr(twin, n) for n in names]),
               "a rejected assignment changed a setting", name=name, value=repr(v))
    rec.close(m.PSF, twin.PSF, "a rejected assignment changed the PSF")
    rec.close(m.OTF, twin.OTF, "a rejected assignment changed the OTF")
    for model in ("hanser", "Hanser", "HANSER", "sheppard", "Sheppard") if rng.random() < 0.3 else ():
        c = dict(cfg, model=model)
        c.pop("dual", None)
        c["pixel_size"] = min(cfg["pixel_size"], 0.9 * cfg["wl"] / 2 / cfg["ni"])
        c.pop("zres", None)
        drv.microscope(cls, c)
        rec.ev("accepted_limit")
    rec.nontrivial = True


def check_retrieve(case, rec):
    from pyotf.phaseretrieval import retrieve_phase
    cfg = case["cfg"]
    rng = np.random.default_rng(case["seed"])
    params = {k: cfg[k] for k in ("wl", "na", "ni", "res", "zres")}
    n, nz = cfg["size"], int(rng.integers(1, 4))
    good = rng.uniform(0, 10, (nz, n, n))
    bads = [(dict(max_iters=0), good), (dict(max_iters=-1), good), (dict(max_iters=-5), good)]
    for shp in ((nz, n, n + 1), (nz, n + 1, n), (nz, n, 1 + 2 * n), (n, n), (1, nz, n, n), (n,)):
        bads.append((dict(max_iters=2), rng.uniform(0, 10, shp)))
    for kw, d in bads:
        rec.raises(lambda: retrieve_phase(d, params, **kw), f"retrieve_phase accepted shape {d.shape}, {kw}")
        rec.ev("retrieve_rejected")
    for name, v in (("res", cfg["wl"] / 2 / cfg["na"] * 1.01), ("res", 0), ("zres", -1.0), ("wl", "a"), ("na", -1)):
        rec.raises(lambda: retrieve_phase(good, dict(params, **{name: v}), max_iters=2), f"retrieve_phase accepted {name}={v}")
        rec.ev("retrieve_rejected")
    retrieve_phase(good, params, max_iters=1)
    rec.ev("accepted_limit")
    rec.nontrivial = True


def check_exact(case, rec):
    """Limits hit exactly: dyadic parameters have no rounding."""
    from pyotf.otf import HanserPSF, SheppardPSF
    wl, na = 2.0 ** case["p"], 2.0 ** case["q"]
    ni = 2 * na
    abbe, zl = wl / 2 / na, wl / 2 / ni
    for kind, cls in (("hanser", HanserPSF), ("sheppard", SheppardPSF)):
        base = dict(wl=wl, na=na, ni=ni, res=abbe / 2, size=8, zres=zl / 2, zsize=8)
        m = cls(**base)
        p0 = m.PSFi.copy()
        for name, v in [("res", abbe)] + ([("zres", zl)] if kind == "sheppard" else []):
            rec.raises(lambda: cls(**dict(base, **{name: v})), f"{kind}: {name} equal to its limit at construction")
            rec.raises(lambda: setattr(m, name, v), f"{kind}: {name} equal to its limit assigned")
            rec.ev("rejected_assignment")
            rec.ok(getattr(m, name) == base[name], "rejected value stored")
            w = float(np.nextafter(v, 0))
            cls(**dict(base, **{name: w}))
            rec.ev("accepted_limit")
        rec.close(m.PSFi, p0, "rejected assignment changed the PSF")
    rec.nontrivial = True


def check(case, rec):
    w = case["what"]
    if w in ("hanser", "sheppard"):
        check_psf(case, rec)
    elif w == "retrieve":
        check_retrieve(case, rec)
    elif w == "exact":
        check_exact(case, rec)
    else:
        check_micro(case, rec)

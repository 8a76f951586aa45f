"""C21: SIM PSFs are the detection PSF times the interference pattern."""
import numpy as np

from .. import drv, gen, ref
from .c20 import binned, model_cfg, psfi

ID = "C21"
RULE = ("random configurations of the three SIM classes and of the general one with free coherent/DC flags, both PSF models, odd "
        "and even sizes, oversampling, own planes, orientation sets of any length (tuple, list, array), Wiener parameter none, zero, small to "
        "one, DC suppression, omitted and explicit excitation; compared with closed-form intensities")
ASSUMPTIONS = ["the PSF models themselves are judged by C01 and C02",
               "with Wiener parameter zero only configurations whose OTF has a clear support are judged (no squared modulus between "
               "1e-19 and 1e-13)", "unit sum is judged where the sum is not lost in cancellation"]
MIN_EVENTS = {"model_psf": 200, "psf": 120, "wiener": 60, "wiener_zero": 12, "wiener_none": 29, "dc_suppress": 60, "default_exc": 30,
              "lattice": 49, "2d": 47, "3d": 48, "general": 30, "own_planes": 15}
CHUNK = 2


def cases(rng, tier):
    for rep in range(90 if tier == "quick" else 1500):
        for cls in ("SIM2DMicroscope", "SIM3DMicroscope", "LatticeSIMMicroscope"):
            yield dict(cls=cls, cfg=gen.micro(rng, cls, os=(1, 1, 3, 3, 5), planes=0.25), form=str(rng.choice(["tuple", "list", "array"])))
        if rep % 15 == 14:
            cls = ("SIM2DMicroscope", "SIM3DMicroscope", "LatticeSIMMicroscope")[rep // 15 % 3]
            cfg = gen.micro(rng, cls, model="hanser", os=(1, 1, 3), sizes=(40, 48, 64, 65, 90), zfree=1, most=200)
            cfg["zsize"] = int(rng.integers(1, 6))
            yield dict(cls=cls, cfg=cfg, form="list")
        cfg = gen.micro(rng, "SIM2DMicroscope", os=(1, 1, 3), planes=0.25)
        cfg.update(coherent=bool(rng.random() < 0.5), dc=bool(rng.random() < 0.5))
        yield dict(cls="BaseSIMMicroscope", cfg=cfg, form="tuple")


def filtered(det, wiener):
    """Detection PSF after the Wiener filter; None when the support is unclear."""
    if wiener is None:
        return det
    o2 = np.abs(ref.cft(det)) ** 2
    if wiener == 0:
        if ((o2 > 1e-19) & (o2 < 1e-13)).any():
            return None
        filt = (o2 > 1e-16).astype(float)
    else:
        filt = o2 / (o2 + o2.max() * wiener ** 2)
    return ref.icft(filt).real


def patterns(cfg, coherent, dc, orientations):
    """Interference intensity: one per orientation, or the coherent one."""
    f = cfg["oversample_factor"]
    na = cfg["na"] if cfg["na_exc"] is None else cfg["na_exc"]
    wl = cfg["wl"] if cfg["wl_exc"] is None else cfg["wl_exc"]
    x = ref.centred(cfg["size"] * f) * (cfg["pixel_size"] / f)
    z = ref.zvalues(model_cfg(cfg))
    k = 2 * np.pi * cfg["ni"] / wl
    s = na / cfg["ni"]
    c = np.sqrt(1 - s * s)
    cosines = [np.cos(k * s * (x[None, :] * np.cos(o) + x[:, None] * np.sin(o))) for o in orientations]
    # relative axial phase of the oblique waves against the axial one
    beat = np.cos(k * (1 - c) * z)[:, None, None]
    one = np.ones(len(z))[:, None, None]

    def intensity(lateral):
        if not dc:
            return (2 * lateral) ** 2 * one
        return 1 + (2 * lateral) ** 2 * one + 4 * lateral * beat

    if coherent:
        return [intensity(sum(cosines))]
    return [intensity(v) for v in cosines]


def check(case, rec):
    cls, cfg = case["cls"], dict(case["cfg"])
    f, size = cfg["oversample_factor"], cfg["size"]
    coherent, dc = {"SIM2DMicroscope": (False, False), "SIM3DMicroscope": (False, True), "LatticeSIMMicroscope": (True, True),
                    "BaseSIMMicroscope": (cfg.get("coherent"), cfg.get("dc"))}[cls]
    orient = [0, np.pi / 2] if cls == "LatticeSIMMicroscope" else cfg["orientations"]
    det = psfi(cfg)
    psf = filtered(det, cfg["wiener"])
    if psf is None:
        rec.tag(skipped="unclear support")
        return
    parts = patterns(cfg, coherent, dc, orient)
    want = psf * sum(parts)
    if cfg["dc_suppress"] and not coherent:
        want = want - (2 * len(orient) - 1) * psf
        rec.ev("dc_suppress")
    import pyotf.microscope as mic
    kw = dict(cfg)
    if "orientations" in kw:
        kw["orientations"] = {"tuple": tuple, "list": list, "array": np.array}[case["form"]](kw["orientations"])
    m = getattr(mic, cls)(**kw)
    scale = np.abs(psf).max() * sum(p.max() for p in parts)
    rec.close(m.model_psf, want, f"{cls}: full grid PSF is not the detection PSF times the interference pattern", scale=scale)
    rec.ev("model_psf")
    rec.nontrivial = True
    out = binned(want, size, f) if f > 1 else want
    total = out.sum()
    if abs(total) > 1e-4 * np.abs(out).sum():
        got = m.PSF
        tol = 1e-9 * scale * f * f / abs(total)
        rec.close(got, out / total, f"{cls}: PSF is not the binned, normalised model", rtol=1e-9, atol=tol + 1e-12)
        rec.ok(abs(got.sum() - 1) < 1e-8, f"{cls}: PSF does not sum to one", sum=float(got.sum()))
        rec.close(m.OTF, ref.cft(got), f"{cls}: OTF is not the centred Fourier transform of the PSF")
        rec.ev("psf")
    # the pattern peaks on the centre of the PSF
    c = tuple(v // 2 for v in want.shape)
    if "zrange" in cfg:
        rec.ev("own_planes")
    rec.ok("zrange" in cfg or all(p[c] >= p.max() * (1 - 1e-12) for p in parts), "harness: pattern maximum")
    w = cfg["wiener"]
    rec.ev("wiener_none" if w is None else "wiener_zero" if w == 0 else "wiener")
    if cfg["na_exc"] is None or cfg["wl_exc"] is None:
        rec.ev("default_exc")
        if cfg["na_exc"] is None:
            rec.ok(m.na_exc == cfg["na"], "omitted excitation NA is not the detection NA", got=m.na_exc)
        if cfg["wl_exc"] is None:
            rec.ok(m.wl_exc == cfg["wl"], "omitted excitation wavelength is not the detection one", got=m.wl_exc)
    rec.ev({"SIM2DMicroscope": "2d", "SIM3DMicroscope": "3d", "LatticeSIMMicroscope": "lattice"}.get(cls, "general"))
    rec.tag(cls=cls, model=cfg["model"].lower(), os=f, parity=size % 2, orientations=len(orient), wiener="none" if w is None else "0" if w == 0 else "w")

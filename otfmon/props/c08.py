"""C08: PSFs are centred on sample n // 2 and have the symmetry of their optics."""
import numpy as np

from .. import drv, gen
from ..ref import centred

ID = "C08"
RULE = ("both models and every microscope class over odd and even sizes (lateral and axial), oversampling and vector "
        "components; symmetry of every sample with a partner, location of the maximum, x/y exchange; non-trivial when the "
        "PSF has energy")
ASSUMPTIONS = ["samples without mirror partner (index 0 of even axes) and, for large pinholes on even grids, the border "
               "reached by the pinhole are not compared",
               "mirror and exchange symmetry of shell models is checked where the cap keeps clear of the Nyquist frequency"]
MIN_EVENTS = {"point_symmetry": 143, "mirror": 86, "maximum": 40, "swap_xy": 60}
CHUNK = 2


def cases(rng, tier):
    k = 1 if tier == "quick" else 15
    for rep in range(10 * k):
        for v in gen.VEC:
            yield dict(what="hanser", cfg=gen.hanser(rng, vec=v, zmode="zs", max_ratio=0.95))
            c = str(rng.choice(gen.COND))
            yield dict(what="sheppard", cfg=gen.sheppard(rng, vec=v, cond=c, nyquist=(0.1, 0.7), zny=(0.3, 0.7)))
    for rep in range(12 * k):
        yield dict(what="hanser", cfg=gen.hanser(rng, vec="none", zmode="zs", max_ratio=0.95))
        yield dict(what="sheppard", cfg=gen.sheppard(rng, vec="none", nyquist=(0.1, 0.7), zny=(0.3, 0.7)))
        for cls in gen.MICROS:
            yield dict(what=cls, cfg=gen.micro(rng, cls))
            cfg = gen.micro(rng, cls, vec="none", os=(1, 3))
            if "wiener" in cfg:
                cfg["wiener"] = None
            yield dict(what=cls, cfg=cfg)


def inner(a, axes):
    s = [slice(None)] * a.ndim
    for ax in axes:
        s[ax] = slice(1 - a.shape[ax] % 2, None)
    return a[tuple(s)]


def flip_equal(rec, a, axes, msg, tol=1e-9, **kw):
    b = inner(a, axes)
    rec.close(np.flip(b, axes), b, msg, rtol=tol, scale=np.abs(a).max(), **kw)


def check(case, rec):
    what, cfg = case["what"], case["cfg"]
    rec.tag(what=what, vec=cfg.get("vec_corr", "none"), parity=cfg["size"] % 2, os=cfg.get("oversample_factor", 0))
    scalar = cfg.get("vec_corr", "none") == "none"
    model = what in ("hanser", "sheppard")

    def build(**over):
        return drv.psf_model(what, dict(cfg, **over)).PSFi if model else drv.microscope(what, dict(cfg, **over)).PSF

    p = build()
    nz = cfg.get("zsize", cfg["size"])
    rec.ok(p.shape == (nz, cfg["size"], cfg["size"]), "PSF has the wrong shape", got=p.shape)
    f = cfg.get("oversample_factor", 1)
    shep = what == "sheppard" or cfg.get("model", "").lower() == "sheppard"
    q = p
    if what == "ConfocalMicroscope" and cfg["size"] * f % 2 == 0:
        rad = cfg["pinhole_size"] * 1.22 * cfg["wl"] / cfg["na"] / cfg["pixel_size"] / 2
        border = int(np.ceil(rad + 1)) if rad * f > 1.4 else 0
        if 2 * border + 2 >= cfg["size"]:
            border = None
        elif border:
            # keep the centre: drop index 0 and `border` samples on both sides
            q = np.zeros_like(p)
            s = slice(border + 1, cfg["size"] - border)
            q[:, s, s] = p[:, s, s]
        if border is None:
            q = None
    if q is not None:
        flip_equal(rec, q, (0, 1, 2), f"{what}: PSF is not point symmetric about size // 2")
        rec.ev("point_symmetry")
    clear = True
    if shep:
        px = cfg["pixel_size"] / f if not model else cfg["res"]
        clear = px < 0.75 * cfg["wl"] / 2 / cfg["na"] and cfg.get("zres", cfg.get("pixel_size")) < 0.75 * cfg["wl"] / 2 / cfg["ni"]
        # the cap may exceed the aperture by one voxel
        clear = clear and cfg["size"] * f >= 8 and nz >= 8
    if (model or what in ("WidefieldMicroscope", "ConfocalMicroscope")) and q is not None and clear:
        for ax in (0, 1, 2):
            flip_equal(rec, q, (ax,), f"{what}: PSF is not mirror symmetric", axis=ax)
        rec.ev("mirror")
        t = p.swapaxes(1, 2)
        if cfg.get("vec_corr", "none") in ("none", "z", "total"):
            rec.close(t, p, f"{what}: exchanging x and y changes the PSF")
        else:
            other = build(vec_corr="xy".replace(cfg["vec_corr"], ""))
            rec.close(t, other, f"{what}: exchanging x and y does not exchange the x and y corrections")
        rec.ev("swap_xy")
    if scalar and f == 1 and not cfg.get("wiener") and cfg.get("wiener", None) is None:
        c = tuple(n // 2 for n in p.shape)
        rec.ok(p[c] >= p.max() * (1 - 1e-9), f"{what}: the maximum is not at the centre sample",
               at=np.unravel_index(p.argmax(), p.shape), centre=c)
        if p.size > 100:
            rec.ev("maximum")

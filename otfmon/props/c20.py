"""C20: widefield, confocal and apotome PSFs follow their imaging model, normalised."""
import numpy as np

from .. import drv, gen, ref

ID = "C20"
RULE = ("random configurations of the three classes with both PSF models, all vector components and conditions, odd and even "
        "sizes, oversampling 1 to 25, own or default z sampling or own planes, pinholes from points to several Airy units; the imaging "
        "model is recomputed from separately built PSF models with explicit sums over blocks, pinhole offsets and rings")
ASSUMPTIONS = ["the PSF models themselves are judged by C01 and C02",
               "pinhole radii within rounding of a pixel distance or of 1.5 pixels, and apotome cutoffs half way between two "
               "samples, are not judged"]
MIN_EVENTS = {"psf": 200, "otf": 200, "model_psf": 150, "pinhole_disk": 30, "pinhole_point": 25, "apotome": 40, "binned": 90,
              "even_roll": 20, "small_disk": 3, "own_planes": 15}
CHUNK = 2
CLASSES = ("WidefieldMicroscope", "ConfocalMicroscope", "ConfocalMicroscope", "ApotomeMicroscope")


def cases(rng, tier):
    for rep in range(90 if tier == "quick" else 1500):
        for cls in CLASSES:
            os = (1, 1, 3, 3, 5, 7)
            yield dict(cls=cls, cfg=gen.micro(rng, cls, os=os, sizes=(5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17), planes=0.25), seed=int(rng.integers(2**31)),
                       order=int(rng.integers(3)))
    for rep in range(30 if tier == "quick" else 300):
        # very fine grids, where small pinholes cover many samples
        cls = CLASSES[rep % 5 % 4]
        cfg = gen.micro(rng, cls, model="hanser", os=(1, 1, 3), sizes=(33, 40, 48, 56, 65), zfree=1, most=120, fine=True, planes=0.2)
        cfg["zsize"] = min(cfg.get("zsize", 9), 4)
        if cls == "ConfocalMicroscope" and rng.random() < 0.8:
            airy = 1.22 * cfg["wl"] / cfg["na"] / (cfg["pixel_size"] / cfg["oversample_factor"])
            cfg["pinhole_size"] = float(rng.uniform(2.6, max(4, 0.2 * airy))) / airy
        yield dict(cls=cls, cfg=cfg, seed=int(rng.integers(2**31)), order=int(rng.integers(3)))
    for rep in range(14 if tier == "quick" else 140):
        # strong oversampling
        cfg = gen.micro(rng, CLASSES[rep % 4], model="hanser", os=((9, 15, 11, 21, 13, 17, 25)[rep % 7],), sizes=(4, 5, 6, 7, 8), zfree=1, most=135)
        cfg["zsize"] = min(cfg.get("zsize", 9), 4)
        yield dict(cls=CLASSES[rep % 4], cfg=cfg, seed=int(rng.integers(2**31)), order=int(rng.integers(3)))
    for rep in range(12 if tier == "quick" else 120):
        # large grids
        cls = CLASSES[rep % 4]
        cfg = gen.micro(rng, cls, os=(1, 1, 3), sizes=(40, 48, 64, 65, 100), zfree=1, most=200)
        if cfg["model"].lower() == "hanser":
            cfg["zsize"] = int(rng.integers(1, 5)) if rep % 3 else int(rng.integers(20, 60))
        else:
            cfg["zsize"] = min(cfg.get("zsize", 40), 40) if cfg["size"] * cfg["oversample_factor"] < 110 else 24
        yield dict(cls=cls, cfg=cfg, seed=int(rng.integers(2**31)), order=int(rng.integers(3)))


def model_cfg(cfg):
    """Configuration of the PSF model on the full grid."""
    f = cfg["oversample_factor"]
    out = dict(wl=cfg["wl"], na=cfg["na"], ni=cfg["ni"], size=cfg["size"] * f, res=cfg["pixel_size"] / f,
               zsize=cfg.get("zsize", cfg["size"]), zres=cfg.get("zres", cfg["pixel_size"]))
    for k in ("vec_corr", "condition", "dual", "zrange"):
        if k in cfg:
            out[k] = cfg[k]
    return out


def psfi(cfg, wl=None):
    m = drv.psf_model(cfg["model"].lower(), model_cfg(cfg))
    if wl is not None:
        m.wl = wl
    return np.array(m.PSFi)


def binned(a, size, f):
    """Sum of the f x f samples around each detector pixel (f odd, cyclic)."""
    n = size * f
    nz = a.shape[0]
    out = np.zeros((nz, size, size))
    c, h = n // 2, f // 2
    pos = np.arange(size) - size // 2
    for dy in range(-h, h + 1):
        for dx in range(-h, h + 1):
            y, x = (c + pos * f + dy) % n, (c + pos * f + dx) % n
            out += a[:, y[:, None], x[None, :]]
    return out


def disk_convolve(a, radius):
    """Mean over the disk of samples nearer than `radius`, zero outside the grid."""
    n = a.shape[1]
    h = int(np.ceil(radius))
    out = np.zeros_like(a)
    count = 0
    for dy in range(-h, h + 1):
        for dx in range(-h, h + 1):
            if np.hypot(dy, dx) < radius:
                count += 1
                if abs(dy) >= n or abs(dx) >= n:
                    continue
                ys, yd = slice(max(0, -dy), min(n, n - dy)), slice(max(0, dy), min(n, n + dy))
                xs, xd = slice(max(0, -dx), min(n, n - dx)), slice(max(0, dx), min(n, n + dx))
                out[:, yd, xd] += a[:, ys, xs]
    return out / count


def check(case, rec):
    cls, cfg = case["cls"], case["cfg"]
    f, size = cfg["oversample_factor"], cfg["size"]
    n, nz = size * f, len(ref.zvalues(model_cfg(cfg)))
    det = psfi(cfg)
    rec.shape(det, (nz, n, n), "PSF model on the full grid")
    exact = True
    if cls == "ConfocalMicroscope":
        radius = cfg["pinhole_size"] * 1.22 * cfg["wl"] / cfg["na"] / (cfg["pixel_size"] / f) / 2
        d2 = radius ** 2
        if abs(d2 - np.rint(d2)) < 1e-6 or abs(radius - 1.5) < 1e-6:
            rec.tag(skipped="pinhole edge") if cfg["pinhole_size"] else None
            if cfg["pinhole_size"]:
                return
        exc = psfi(cfg, cfg["wl_exc"])
        if radius > 1.5:
            want = disk_convolve(det, radius) * exc
            rec.ev("pinhole_disk")
            if cfg["pinhole_size"] < 0.2:
                rec.ev("small_disk")
        else:
            want = det * exc
            rec.ev("pinhole_point")
    elif cls == "ApotomeMicroscope":
        cut = n * (cfg["pixel_size"] / f) / (cfg["wl"] / cfg["na"] / 4) / 2
        if abs(cut % 1 - 0.5) < 1e-6:
            return
        i = int(np.rint(cut)) // 2
        c = ref.centred(n)
        ring = np.rint(np.hypot(c[:, None], c[None, :])) == i
        w = np.abs(ref.cft(det, (1, 2))[:, ring].mean(1))
        if w.max() < 1e-6 * det.sum((1, 2)).max() / ring.sum():
            rec.tag(skipped="no signal at half the cutoff")
            return
        want = w[:, None, None] * det
        exact = False
        rec.ev("apotome")
    else:
        want = det
    if "zrange" in cfg:
        rec.ev("own_planes")
    m = drv.microscope(cls, cfg)
    # reads in different orders
    psf = otf = None
    for what in (("psf", "otf", "model"), ("otf", "model", "psf"), ("model", "psf", "otf"))[case["order"]]:
        if what == "psf":
            psf = m.PSF
        elif what == "otf":
            otf = m.OTF
        else:
            mp = m.model_psf
            rec.shape(mp, want.shape, f"{cls}: full grid PSF")
            if exact:
                rec.close(mp, want, f"{cls}: full grid PSF is not the imaging model", rtol=1e-9)
            else:
                rec.close(mp / mp.sum(), want / want.sum(), f"{cls}: full grid PSF is not the imaging model", rtol=1e-9)
                rec.ok(mp.min() >= 0, f"{cls}: negative intensity")
            rec.ev("model_psf")
    out = binned(want, size, f) if f > 1 else want
    rec.ok(np.isfinite(psf).all(), f"{cls}: PSF is not finite")
    rec.ok(abs(psf.sum() - 1) < 1e-9, f"{cls}: PSF does not sum to one", sum=float(psf.sum()))
    rec.close(psf, out / out.sum(), f"{cls}: PSF is not the binned, normalised imaging model")
    rec.close(otf, ref.cft(psf), f"{cls}: OTF is not the centred Fourier transform of the PSF")
    rec.ev("psf")
    rec.ev("otf")
    if f > 1:
        rec.ev("binned")
        if n % 2 == 0:
            rec.ev("even_roll")
    rec.tag(cls=cls, model=cfg["model"].lower(), os=f, parity=size % 2, vec=cfg.get("vec_corr", "default"), own_z="zsize" in cfg)

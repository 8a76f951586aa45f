"""C25: plots show the planes, extents and limits they are labelled with."""
import numpy as np

from .. import core, drv, gen, ref

ID = "C25"
RULE = ("random arrays with three different sizes (no symmetry), spacings and options through psf_plot and otf_plot (own figure, given figure "
        "and place, projections and slices, pass-through options), and plots of both PSF models (custom, reversed and irregular z planes, "
        "applied pupils, maxima off the centre, crops smaller than the data) and of every microscope; the images, extents, titles, circles "
        "and arcs read back from the drawn axes are compared with independently computed ones; non-trivial when the shown data vary")
ASSUMPTIONS = ["headless matplotlib (Agg)", "crop of model plots: 32 lateral and 16 axial resolution lengths around the maximum",
               "panels are found by their titles", "the imshow origin setting is not judged"]
MIN_EVENTS = {"figure": 200, "panel": 600, "slice_figure": 13, "otf_figure": 44, "arc": 400, "circle": 60, "model_psf": 40, "model_otf": 40,
              "micro_psf": 20, "micro_planes": 6, "micro_long": 1, "micro_otf": 20, "refused": 20, "cropped": 15, "unchanged": 50, "off_centre": 10, "options": 60, "placed": 30}
CHUNK = 4

PSF_TITLES = {"$XY$": "xy", "$YZ$": "yz", "$XZ$": "xz"}
OTF_TITLES = {"$k_{XY}$": "xy", "$k_{YZ}$": "yz", "$k_{XZ}$": "xz"}


def cases(rng, tier):
    k = 1 if tier == "quick" else 15
    def s():
        return int(rng.integers(2**31))
    for _ in range(60 * k):
        yield dict(what="psf", seed=s())
    for _ in range(80 * k):
        yield dict(what="otf", seed=s())
    for _ in range(70 * k):
        # near-critical sampling so that the crop is smaller than the data
        big = bool(rng.random() < 0.5)
        cfg = gen.hanser(rng, sizes=(41, 48, 55) if big else (6, 7, 9, 12), zmode="one", max_ratio=0.95,
                         nyquist=(0.8, 0.97) if big else (0.1, 0.97))
        cfg.pop("zsize", None)
        if ref.aperture(cfg).sum() < 2:
            continue  # a single plane wave along the axis: nothing to show for an axial dipole
        yield dict(what="hanser", cfg=cfg, seed=s(), big=big)
    for _ in range(3 * k):
        # hundreds of pixels to show
        cfg = gen.hanser(rng, sizes=(290, 321, 400), zmode="one", max_ratio=0.95, nyquist=(0.08, 0.12))
        cfg.pop("zsize", None)
        yield dict(what="hanser", cfg=cfg, seed=s(), big=False)
    for _ in range(25 * k):
        yield dict(what="sheppard", cfg=gen.sheppard(rng, sizes=(16, 17, 40, 47), zsizes=(16, 17, 21, 24), nyquist=(0.3, 0.97)), seed=s())
    for _ in range(6 * k):
        for cls in gen.MICROS:
            while True:
                cfg = gen.micro(rng, cls, sizes=(7, 8, 9, 41, 44), os=(1, 1, 3), zfree=0.8)
                if cfg.get("zsize", cfg["size"]) >= 3 and cfg["size"] * cfg["oversample_factor"] < 60:
                    break
            yield dict(what=cls, cfg=cfg, seed=s())
    for _ in range(30 * k):
        yield dict(what="irregular", cfg=gen.hanser(rng, sizes=(6, 7), zmode="one", max_ratio=0.95), seed=s())


def extent(n, d):
    c = ref.centred(n) * float(d)
    return float(c[0]), float(c[-1])


def panels(rec, ret, titles, fig=None):
    """{xy, yz, xz: (image array, extent, axes)} by title."""
    rec.ok(isinstance(ret, tuple) and len(ret) == 2, "plot functions return the figure and its axes", got=repr(ret)[:100])
    f, grid = ret
    if fig is not None:
        rec.ok(f is fig, "the given figure is returned")
    f.canvas.draw()
    out = {}
    for ax in grid:
        t = ax.get_title()
        if t in titles:
            rec.ok(titles[t] not in out, f"two panels are titled {t}")
            rec.ok(len(ax.images) == 1, f"panel {t} does not hold one image")
            rec.ok(ax in f.axes, f"panel {t} is not in the returned figure")
            im = ax.images[0]
            out[titles[t]] = (np.asarray(im.get_array()), tuple(im.get_extent()), ax)
        else:
            rec.ok(not ax.images, "an untitled panel shows data")
    rec.ok(sorted(out) == ["xy", "xz", "yz"], "panels XY, YZ and XZ expected", got=sorted(out))
    rec.ev("figure")
    return out


def judge(rec, got, want, exts, msg):
    """want: panel -> array as displayed (rows, columns); exts: z, y, x extents."""
    ez, ey, ex = exts
    wext = dict(xy=ex + ey, yz=ez + ey, xz=ex + ez)
    for k in ("xy", "yz", "xz"):
        rec.close(got[k][0], want[k], f"{msg}: panel {k} shows other data", rtol=1e-9)
        s = max(abs(v) for v in wext[k])
        rec.close(got[k][1], wext[k], f"{msg}: extent of panel {k}", rtol=1e-9, scale=s)
        rec.ev("panel")
    # shared axes really line up, and everything is in view
    lims = {k: (sorted(got[k][2].get_xlim()), sorted(got[k][2].get_ylim())) for k in got}
    rec.close(lims["xy"][0], lims["xz"][0], f"{msg}: XY and XZ do not share x", rtol=1e-9)
    rec.close(lims["xy"][1], lims["yz"][1], f"{msg}: XY and YZ do not share y", rtol=1e-9)


def placed(rec, got, kw, msg):
    """The panels are in the half of the figure that was asked for."""
    if "fig" not in kw:
        return
    fig = kw["fig"]
    fig.canvas.draw()
    lo, hi = {121: (0, 0.5), 122: (0.5, 1), 224: (0.5, 1)}.get(kw.get("loc", 111), (0, 1))
    span = [1, 0]
    for k in got:
        ax = got[k][2]
        rec.ok(ax.figure is fig, f"{msg}: a panel is not in the given figure")
        loc = ax.get_axes_locator()
        box = loc(ax, fig.canvas.get_renderer()) if loc is not None else ax.get_position()
        rec.ok(box.x0 >= lo - 1e-6 and box.x1 <= hi + 1e-6, f"{msg}: panel {k} is not where it was asked for", loc=kw.get("loc"), x0=box.x0, x1=box.x1)
        span = [min(span[0], box.x0), max(span[1], box.x1)]
    if kw.get("loc", 111) == 111:
        rec.ok(span[0] < 0.5 < span[1], f"{msg}: the panels do not lie about the middle of the figure", span=span)
    rec.ev("placed")


def projections(a, mip):
    nz, ny, nx = a.shape
    if mip:
        return dict(xy=a.max(axis=0), yz=a.max(axis=2).T, xz=a.max(axis=1))
    return dict(xy=a[nz // 2], yz=a[:, :, nx // 2].T, xz=a[:, ny // 2, :])


def limits(rec, got, na, ni, wl, msg):
    """The circle at the lateral cutoff and the arcs bounding the 3D support."""
    from matplotlib.patches import Circle, Wedge
    cut, k = 2 * na / wl, ni / wl
    s = min(1.0, na / ni)
    c = np.sqrt(1 - s * s)
    circ = [p for p in got["xy"][2].patches if isinstance(p, Circle)]
    rec.ok(len(circ) == 1, f"{msg}: one circle on the XY panel", got=len(circ))
    rec.close([circ[0].center[0], circ[0].center[1], circ[0].radius], [0, 0, cut], f"{msg}: circle at the lateral cutoff", rtol=1e-9)
    rec.ev("circle")
    for panel in ("xz", "yz"):
        arcs = [p for p in got[panel][2].patches if isinstance(p, Wedge)]
        rec.ok(len(arcs) == 4, f"{msg}: four arcs on the {panel} panel", got=len(arcs))
        seen = set()
        for a in arcs:
            t = np.linspace(0, 1, 17)
            v = np.concatenate([b(t) for b, code in a.get_path().iter_bezier() if code not in (1, 79)])
            lat, ax = (v[:, 0], v[:, 1]) if panel == "xz" else (v[:, 1], v[:, 0])
            ctr = np.array(a.center, float)
            clat, cax = ctr if panel == "xz" else ctr[::-1]
            rec.close([abs(clat), abs(cax), a.r], [k * s, k * c, k], f"{msg}: arcs of radius n/wavelength about the rim of the cap, {panel}", rtol=1e-7)
            seen.add((clat > 0, cax > 0 if c > 1e-6 else len(seen)))
            # the arc runs from the origin over the axial maximum to the lateral cutoff
            rec.close(np.hypot(lat - clat, ax - cax), np.full(len(v), k), f"{msg}: points on the arc, {panel}", rtol=1e-3)
            side = np.sign(clat)
            rec.ok(np.all(lat * side > -1e-3 * k) and np.all(lat * side < 2 * k * s + 1e-3 * k),
                   f"{msg}: an arc leaves the lateral support, {panel}", lat=lat, side=side, cut=2 * k * s)
            if c > 1e-3:
                up = -np.sign(cax)
                rec.ok(np.all(ax * up > -1e-3 * k) and np.all(ax * up < k * (1 - c) + 1e-3 * k),
                       f"{msg}: an arc leaves the axial support, {panel}", ax=ax, up=up, top=k * (1 - c))
            rec.close([(lat * side).min(), (lat * side).max()], [0, 2 * k * s], f"{msg}: lateral reach of the arcs, {panel}", atol=2e-3 * k)
            rec.close(np.abs(ax).max(), k * (1 - c) if c > 1e-6 else k, f"{msg}: axial reach of the arcs, {panel}", atol=2e-3 * k)
            rec.ev("arc")
        rec.ok(len(seen) == 4, f"{msg}: the arcs lie in four quadrants, {panel}", seen=seen)


def otf_want(a):
    nz, ny, nx = a.shape
    return dict(xy=a[nz // 2], yz=a[:, :, nx // 2].T, xz=a[:, ny // 2, :])


def kext(n, d):
    c = ref.centred(n) / (n * float(d))
    return float(c[0]), float(c[-1])


def window(n, x, w):
    w = int(round(w))
    return slice(max(0, x - w // 2), min(n, x + (w + 1) // 2))


def crops(a, lat, axial):
    """All acceptable crops (the maximum may be attained several times)."""
    locs = np.argwhere(a >= a.max() - 1e-9 * abs(a.max()))[:200]
    for e in (1.0, 1 + 1e-9, 1 - 1e-9):
        for p in locs:
            yield p, tuple(window(n, int(x), w * e) for n, x, w in zip(a.shape, p, (axial, lat, lat)))


def judge_model(rec, got, a, par, mip, msg):
    """A model plot: projections of the crop around the maximum."""
    wl, na, ni, res, zres = par
    lat = wl / 2 / na / res * 32
    axial = wl / (ni - np.sqrt(ni ** 2 - na ** 2)) / zres * 16
    for p, c in crops(a, lat, axial):
        b = a[c]
        want = projections(b, mip)
        if all(want[k].shape == got[k][0].shape and np.allclose(want[k], got[k][0], rtol=0, atol=1e-9 * a.max()) for k in want):
            break
    else:
        raise core.Violation(f"{msg}: panels are not the projections of the PSF around its maximum",
                             shapes=str({k: v[0].shape for k, v in got.items()}), full=a.shape, lateral=lat, axial=axial)
    if b.shape != a.shape:
        rec.ev("cropped")
    if tuple(p) != tuple(n // 2 for n in a.shape):
        rec.ev("off_centre")
    judge(rec, got, want, [extent(n, d) for n, d in zip(b.shape, (zres, res, res))], msg)


def judge_model_otf(rec, got, o, par, msg):
    wl, na, ni, res, zres = par
    m = np.abs(o)
    m = np.maximum(m / m.max(), np.finfo(float).eps)
    judge(rec, got, otf_want(m), [kext(n, d) for n, d in zip(m.shape, (zres, res, res))], msg)
    limits(rec, got, na, ni, wl, msg)


def snapshot(m):
    if hasattr(m, "PSFi"):
        return core.digest([np.array(v) for v in (m.PSFa, m.PSFi, m.OTFi)])
    return core.digest([np.array(v) for v in (m.PSF, m.OTF, m.model_psf)])


def check(case, rec):
    import matplotlib.pyplot as plt
    from pyotf.display import otf_plot, psf_plot
    rng = np.random.default_rng(case["seed"])
    what = case["what"]
    rec.tag(what=what)
    if what in ("psf", "otf"):
        fig, kw = None, {}
        if rng.random() < 0.3:
            fig = plt.figure()
            if rng.random() < 0.5:
                fig.add_axes([0.0, 0.9, 0.1, 0.1])  # a figure in use
            kw = dict(fig=fig)
            if rng.random() < 0.5:
                kw["loc"] = int(rng.choice([121, 122]))
    if what == "psf":
        shape = tuple(int(v) for v in rng.permutation(np.arange(2, 18))[:3])
        if rng.random() < 0.1:
            shape = tuple(int(v) for v in rng.integers(1, 5, 3))
            shape = tuple(max(1 + (rng.random() < 0.5), v) for v in shape)
        dt = str(rng.choice(["float64", "float32", "uint16"]))
        a = rng.uniform(1, 100, shape).astype(dt)
        zres, res = (float(v) for v in 10 ** rng.uniform(-9, 3, 2)) if rng.random() < 0.3 else (float(v) for v in rng.uniform(0.05, 3, 2))
        if max(zres / res, res / zres) > 1e4:
            zres = res * 2.5
        mip = True
        if rng.random() < 0.5:
            mip = kw["mip"] = bool(rng.random() < 0.3)
        if rng.random() < 0.3:
            kw.update(cmap="viridis")
        if rng.random() < 0.3:
            kw.update(interpolation="bilinear")
        if rng.random() < 0.3:
            kw.update(vmin=[0.5, 0.0, 0][int(rng.integers(3))], vmax=77.0, gamma=float(rng.choice([1, rng.uniform(0.02, 0.3), rng.uniform(0.3, 3)])))
        keep = a.copy()
        got = panels(rec, psf_plot(a, zres=zres, res=res, **kw), PSF_TITLES, fig)
        judge(rec, got, projections(keep.astype(float), mip), [extent(n, d) for n, d in zip(shape, (zres, res, res))], "psf_plot")
        rec.ok(np.array_equal(a, keep), "psf_plot changes its data")
        honours(rec, got, kw, "psf_plot")
        if not mip:
            rec.ev("slice_figure")
    elif what == "otf":
        nz, n = int(rng.integers(2, 18)), int(rng.integers(2, 18))
        a = rng.uniform(0.01, 1, (nz, n, n))
        o, _ = gen.optics(rng, ints=True)
        na, ni, wl, res = (o[k] for k in ("na", "ni", "wl", "res"))
        if rng.random() < 0.15:
            ni = na * float(rng.choice([1.0, 0.9]))
        zres = res * float(rng.uniform(0.5, 4))
        keep = a.copy()
        if rng.random() < 0.3:
            kw.update(vmin=0.02, vmax=0.9)
        if rng.random() < 0.3:
            kw.update(cmap="viridis")
        got = panels(rec, otf_plot(a, na=na, ni=ni, wl=wl, zres=zres, res=res, **kw), OTF_TITLES, fig)
        judge(rec, got, otf_want(keep), [kext(n_, d) for n_, d in zip(a.shape, (zres, res, res))], "otf_plot")
        limits(rec, got, na, ni, wl, "otf_plot")
        rec.ok(np.array_equal(a, keep), "otf_plot changes its data")
        honours(rec, got, kw, "otf_plot")
        rec.ev("otf_figure")
    elif what == "irregular":
        irregular(case, rec, rng)
    elif what in ("hanser", "sheppard"):
        model(case, rec, rng)
    else:
        micro(case, rec, rng)
    plt.close("all")


def kwargs(rng, otf=False):
    kw = {}
    if not otf and rng.random() < 0.35:
        kw.update(mip=False)
    if rng.random() < 0.3:
        kw.update(cmap="viridis")
    if rng.random() < 0.3:
        kw.update(interpolation="bilinear")
    if rng.random() < 0.3:
        kw.update(vmin=2e-3, vmax=0.7)
        if not otf:
            kw.update(gamma=float(rng.choice([1, rng.uniform(0.02, 0.3), rng.uniform(0.3, 3)])))
            if rng.random() < 0.4:
                kw.update(vmin=0)
    if rng.random() < 0.2:
        import matplotlib.pyplot as plt
        kw.update(fig=plt.figure(), loc=int(rng.choice([111, 121, 224])))
    return kw


def honours(rec, got, kw, msg):
    """The options given reach the images."""
    for k in got:
        im = got[k][2].images[0]
        if "cmap" in kw:
            rec.ok(im.get_cmap().name == kw["cmap"], f"{msg} ignores cmap", got=im.get_cmap().name)
        if "interpolation" in kw:
            rec.ok(im.get_interpolation() == kw["interpolation"], f"{msg} ignores interpolation")
        if "vmin" in kw:
            rec.ok((im.norm.vmin, im.norm.vmax) == (kw["vmin"], kw["vmax"]), f"{msg} ignores vmin or vmax", got=(im.norm.vmin, im.norm.vmax))
        if "gamma" in kw:
            rec.ok(im.norm.gamma == kw["gamma"], f"{msg} ignores gamma")
    placed(rec, got, kw, msg)
    rec.ev("options", len(set(kw) - {"fig", "loc", "mip"}))


def model(case, rec, rng):
    cfg = dict(case["cfg"])
    what = case["what"]
    dof = cfg["wl"] / (cfg["ni"] - np.sqrt(cfg["ni"] ** 2 - cfg["na"] ** 2))
    if what == "hanser":
        style = str(rng.choice(["zres", "even", "reversed", "shifted", "default"]))
        nz = int(rng.integers(18, 26)) if case["big"] else int(rng.integers(3, 9))
        step = float(rng.uniform(0.9, 1.4) if case["big"] else rng.uniform(0.2, 1.4)) * dof
        if style in ("zres", "default") or case["big"] and style == "even":
            zres, cfg = step, dict(cfg, zsize=nz, zres=step)
            if style == "default":
                cfg.pop("zres")
                zres = cfg["res"]
        else:
            off = {"even": -(nz // 2), "reversed": -(nz // 2), "shifted": int(rng.integers(-nz, 1))}[style]
            z = (np.arange(nz) + off) * step
            if style == "reversed":
                z = z[::-1]
            cfg["zrange"] = [float(v) for v in z]
            zres = step
        rec.tag(zstyle=style)
    else:
        zres = cfg["zres"]
    m = drv.psf_model(what, cfg)
    if what == "hanser" and rng.random() < 0.5:
        # a tilt moves the maximum; random phases break all symmetries
        n = cfg["size"]
        k = ref.pupil_geometry(cfg)
        sh = rng.integers(-(n // 3), n // 3 + 1, 2)
        m.apply_pupil(ref.aperture(cfg) * np.exp(-2j * np.pi * (k[0] * sh[0] + k[1] * sh[1]) * cfg["res"]
                                                 + 1j * rng.uniform(-1, 1, (n, n))))
    par = (cfg["wl"], cfg["na"], cfg["ni"], cfg["res"], zres)
    if rng.random() < 0.5:
        before = snapshot(m)
        first = False
    else:
        first = True  # plot before anything else was computed
    kw, okw = kwargs(rng), kwargs(rng, True)
    calls = ["psf", "otf"]
    for c in rng.permutation(calls):
        if c == "psf":
            got = panels(rec, m.plot_psf(**kw), PSF_TITLES, kw.get("fig"))
            honours(rec, got, kw, f"{what} plot_psf")
            judge_model(rec, got, np.array(m.PSFi), par, kw.get("mip", True), f"{what} plot_psf")
            rec.ev("model_psf")
        else:
            got = panels(rec, m.plot_otf(**okw), OTF_TITLES, okw.get("fig"))
            honours(rec, got, okw, f"{what} plot_otf")
            judge_model_otf(rec, got, np.array(m.OTFi), par, f"{what} plot_otf")
            rec.ev("model_otf")
    if not first:
        rec.ok(snapshot(m) == before, "plotting changes the results of the model")
        rec.ev("unchanged")
    elif what == "sheppard":
        rec.close(m.PSFi, drv.sheppard(cfg).PSFi, "a model plotted first has other results")
        rec.ev("unchanged")
    # changing a parameter changes the next plot
    if rng.random() < 0.5:
        if what == "hanser" and "zrange" not in cfg:
            m.zres = zres = zres * 1.25
        elif what == "hanser":
            zres = zres * 0.8
            m.zrange = (np.arange(5) - 2) * zres
        m.na = na = m.na * 0.97
        par = (cfg["wl"], na, cfg["ni"], cfg["res"], zres)
        if gen.edge_clear(dict(cfg, na=na)):
            got = panels(rec, m.plot_psf(), PSF_TITLES)
            judge_model(rec, got, np.array(m.PSFi), par, True, f"changed {what} plot_psf")
            got = panels(rec, m.plot_otf(), OTF_TITLES)
            judge_model_otf(rec, got, np.array(m.OTFi), par, f"changed {what} plot_otf")


def micro(case, rec, rng):
    cfg = dict(case["cfg"])
    step = cfg.get("zres", cfg["pixel_size"])
    if cfg["model"].lower() == "hanser" and rng.random() < 0.6:
        # planes of its own, whose step need not be zres
        dof = cfg["wl"] / (cfg["ni"] - np.sqrt(cfg["ni"] ** 2 - cfg["na"] ** 2))
        nz = int(rng.choice([3, 4, 5, 6, cfg["size"]]))
        step = dof * float(rng.uniform(0.2, 0.8))
        if cfg["size"] * cfg["oversample_factor"] < 30 and rng.random() < 0.7:
            # more planes than are shown
            nz, step = int(rng.integers(18, 30)), dof * float(rng.uniform(0.9, 1.5))
            rec.ev("micro_long")
        z = (np.arange(nz) - int(rng.choice([nz // 2, nz // 2, 0, rng.integers(0, nz)]))) * step * float(rng.choice([1, -1]))
        irregular_ = rng.random() < 0.2
        if irregular_:
            z[int(rng.integers(nz))] += step * float(10 ** rng.uniform(-2, -0.4))
        cfg["zrange"] = [list, np.array, tuple][int(rng.integers(3))]([float(v) for v in z])
        rec.ev("micro_planes")
        if irregular_:
            m = drv.microscope(case["what"], cfg)
            for plot in (m.plot_psf, m.plot_otf):
                rec.raises(plot, "plotting a microscope with planes that are not equispaced")
            return
    m = drv.microscope(case["what"], cfg)
    par = (cfg["wl"], cfg["na"], cfg["ni"], cfg["pixel_size"], step)
    before = snapshot(m) if rng.random() < 0.6 else None
    psf = np.array(m.PSF)
    kw, okw = kwargs(rng), kwargs(rng, True)
    # negative lobes of filtered images are shown like everything else
    got = panels(rec, m.plot_psf(**kw), PSF_TITLES, kw.get("fig"))
    honours(rec, got, kw, f"{case['what']} plot_psf")
    judge_model(rec, got, psf, par, kw.get("mip", True), f"{case['what']} plot_psf")
    rec.ev("micro_psf")
    got = panels(rec, m.plot_otf(**okw), OTF_TITLES, okw.get("fig"))
    honours(rec, got, okw, f"{case['what']} plot_otf")
    judge_model_otf(rec, got, np.array(m.OTF), par, f"{case['what']} plot_otf")
    rec.ev("micro_otf")
    if before is not None:
        rec.ok(snapshot(m) == before, "plotting changes the results of the microscope")
        rec.ev("unchanged")


def irregular(case, rec, rng):
    """Planes that are not equispaced cannot be put on a regular axis."""
    cfg = dict(case["cfg"])
    cfg.pop("zsize", None)
    dof = cfg["wl"] / (cfg["ni"] - np.sqrt(cfg["ni"] ** 2 - cfg["na"] ** 2))
    nz = int(rng.integers(3, 8))
    z = np.arange(nz) * dof * float(rng.uniform(0.1, 1))
    step = z[1]
    k = rng.random()
    if k < 0.4:
        i = int(rng.integers(nz))
        z[i] += step * float(rng.choice([-1, 1])) * float(10 ** rng.uniform(-3, -0.3))
    elif k < 0.6:
        z = rng.permutation(z)
        while np.ptp(np.diff(z)) < 1e-9 * dof:
            z = rng.permutation(z)
    elif k < 0.8:
        z = np.sort(rng.uniform(-1, 1, nz)) * dof
    else:
        z = np.abs(z - z[nz // 2])  # folded: same step sizes, both directions
    cfg["zrange"] = [float(v) for v in z]
    m = drv.hanser(cfg)
    for name in ("plot_psf", "plot_otf"):
        rec.raises(getattr(m, name), f"{name} of planes that are not equispaced")
        rec.ev("refused")
    rec.nontrivial = True
    # and it is the current planes that count
    m.zrange = (np.arange(4) - 2) * step
    m.plot_psf()
    m.zrange = [0.0, step, 3 * step]
    rec.raises(m.plot_psf, "plot_psf after planes were replaced by irregular ones")

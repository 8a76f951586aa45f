"""C28: retrieval diagnostics plots show the recorded history and coefficients."""
import numpy as np

from .. import core, gen, ref
from .c13 import make_data

ID = "C28"
RULE = ("retrievals of random stacks with random options and iteration limits and decompositions into 1 to 40 modes (and free-standing "
        "decompositions); every plot is drawn (own axes, given axes in either figure layout) and images, masks, titles, lines, bars and "
        "tick labels are read back and compared with the records; non-trivial when the retrieved pupil is not flat")
ASSUMPTIONS = ["headless matplotlib (Agg)", "axes are identified by their titles and labels"]
MIN_EVENTS = {"pupil_plot": 150, "masked": 40, "convergence": 40, "coefs": 40, "named": 40, "few_modes": 8, "sliced": 60, "given_axes": 40,
              "unchanged": 99, "repeated": 60, "long": 4}
CHUNK = 2

NAMES = {1: "Piston", 2: "Tip", 3: "Tilt", 4: "Defocus", 5: "Oblique Astigmatism", 6: "Vertical Astigmatism", 7: "Vertical Coma",
         8: "Horizontal Coma", 9: "Vertical Trefoil", 10: "Oblique Trefoil", 11: "Primary Spherical",
         12: "Vertical Secondary Astigmatism", 13: "Oblique Secondary Astigmatism", 14: "Vertical Quadrafoil", 15: "Oblique Quadrafoil"}


def cases(rng, tier):
    for i in range(60 if tier == "quick" else 900):
        cfg = gen.hanser(rng, sizes=(8, 9, 12, 13, 16), zmode="zs", max_ratio=0.95, max_z=3, nyquist=(0.15, 0.9))
        if i % 20 == 19:
            cfg = gen.hanser(rng, sizes=(32, 41, 64), zmode="zs", max_ratio=0.95, max_z=3, nyquist=(0.15, 0.9))
        iters, data = int(rng.choice([1, 2, 3, 5, 9])), str(rng.choice(["model", "noise", "uint16"]))
        if i % 12 == 5 and cfg["size"] <= 16:
            # long histories, over several decades of lengths
            iters, data = int(round([100, 258, 400, 1030][i // 12 % 4] * float(rng.uniform(1, 1.25)))), "noise"
        yield dict(cfg=cfg, data=data, iters=iters,
                   phase_only=bool(rng.random() < 0.4), modes=int(rng.choice([1, 2, 3, 4, 5, 6, 11, 14, 15, 16, 22, 40] if i % 12 != 8 or cfg["size"] > 16 else [66, 105, 120])),
                   seed=int(rng.integers(2**31)))


def by_title(rec, axs, titles, msg):
    axs = list(np.ravel(axs))
    got = [a.get_title() for a in axs]
    rec.ok(sorted(got) == sorted(titles), f"{msg}: titles", got=got, want=titles)
    return [axs[got.index(t)] for t in titles]


def image(rec, ax, msg):
    rec.ok(len(ax.images) == 1, f"{msg}: one image per axes expected", got=len(ax.images))
    return ax.images[0].get_array()


def pupil_plot(rec, ret, phase, mag, msg, fig=None, axs=None):
    rec.ok(isinstance(ret, tuple) and len(ret) == 2, f"{msg} returns a figure and its axes")
    f, axes = ret
    f.canvas.draw()
    ax_phase, ax_mag = by_title(rec, axes, ["Pupil Phase", "Pupil Magnitude"], msg)
    if axs is not None:
        rec.ok(f is fig and ax_phase is axs[0] and ax_mag is axs[1], f"{msg}: the given axes are phase, then magnitude")
        rec.ev("given_axes")
    a = image(rec, ax_phase, msg)
    b = image(rec, ax_mag, msg)
    hidden = np.asarray(mag) == 0
    rec.ok(np.array_equal(np.ma.getmaskarray(a), hidden), f"{msg}: the phase is masked exactly where the magnitude is zero",
           got=int(np.ma.getmaskarray(a).sum()), want=int(hidden.sum()))
    rec.close(np.where(hidden, 0, np.ma.filled(a, 0)), np.where(hidden, 0, phase), f"{msg}: phase shown", atol=1e-12)
    rec.ok(not np.ma.getmaskarray(b).any(), f"{msg}: the magnitude is masked")
    rec.close(np.ma.filled(b, 0), mag, f"{msg}: magnitude shown")
    rec.close(ax_phase.images[0].get_clim(), [-np.pi, np.pi], f"{msg}: phase colours span one turn")
    rec.ev("pupil_plot")
    if hidden.any():
        rec.ev("masked")


def bars(rec, ax, values, first, msg):
    """One bar per value, at its Noll number, starting with `first`."""
    from matplotlib.patches import Rectangle
    got = sorted((p.get_x() + p.get_width() / 2, p.get_y(), p.get_height()) for p in ax.patches if isinstance(p, Rectangle))
    rec.ok(len(got) == len(values), f"{msg}: one bar per coefficient", got=len(got), want=len(values))
    if not got:
        return
    x, y, h = np.array(got).T
    rec.close(x, np.arange(len(values)) + float(first), f"{msg}: bars at the Noll numbers")
    # a bar of negative height may be stored from either end
    ends = np.where(np.abs(y) < 1e-300, y + h, np.where(np.abs(y + h) <= 1e-12 * np.abs(h), y, np.nan))
    rec.close(ends, values, f"{msg}: height of the bars", atol=1e-15)


def free_axes(plt, rng):
    fig, axs = plt.subplots(*((1, 2) if rng.random() < 0.5 else (2, 1)))
    return fig, axs


def rand_slice(rng, n):
    k = rng.random()
    if k < 0.3:
        i = int(rng.integers(0, n))
        return slice(i, i + 1)
    a, b = sorted(int(v) for v in rng.integers(0, n + 1, 2))
    if a == b:
        a, b = 0, n
    if k < 0.7:
        return slice(a, b)
    if k < 0.85:
        return slice(a, None)
    return slice(None, None, 2)


def digest_result(r):
    z = r.zd_result if hasattr(r, "zd_result") else None
    return core.digest([np.asarray(v) for v in (r.mag, r.phase, r.mse, r.mse_diff, r.pupil_diff)]
                       + ([z.mcoefs, z.pcoefs, z.zerns] if z is not None else []))


def check(case, rec):
    import matplotlib.pyplot as plt
    from pyotf.phaseretrieval import ZernikeDecomposition, retrieve_phase
    rng = np.random.default_rng(case["seed"])
    cfg = case["cfg"]
    data = make_data(rng, cfg, case["data"])
    params = {k: cfg[k] for k in ("wl", "na", "ni", "res", "zres") if k in cfg}
    r = retrieve_phase(data, params, max_iters=case["iters"], pupil_tol=0, mse_tol=0, phase_only=case["phase_only"])
    rec.tag(modes=case["modes"], iters=case["iters"])
    rec.nontrivial = True
    keep = digest_result(r)
    twice = range(2)  # a plot of the same thing shows the same again

    for i in twice:
        kw, fig, axs = {}, None, None
        if rng.random() < 0.5:
            fig, axs = free_axes(plt, rng)
            kw = dict(axs=axs)
        pupil_plot(rec, r.plot(**kw), r.phase, r.mag, "result.plot", fig, axs)
        f, axes = r.plot_convergence()
        f.canvas.draw()
        axes = by_title(rec, axes, ["Mean Squared Error", "Relative Change in MSE", "Relative Change in Pupil"], "plot_convergence")
        for ax, name in zip(axes, ("mse", "mse_diff", "pupil_diff")):
            want = np.asarray(getattr(r, name), float)
            rec.ok(len(ax.lines) == 1, f"plot_convergence: one line per panel, {name}")
            y = np.asarray(ax.lines[0].get_ydata(), float)
            x = np.asarray(ax.lines[0].get_xdata(), float)
            rec.shape(y, want.shape, f"plot_convergence: the whole history of {name}")
            fin = np.isfinite(want)
            rec.ok(np.array_equal(fin, np.isfinite(y)), f"plot_convergence: gaps in {name}")
            rec.close(np.where(fin, y, 0), np.where(fin, want, 0), f"plot_convergence: {name}", atol=1e-300)
            rec.ok(np.array_equal(np.diff(x), np.ones(max(0, len(x) - 1))), f"plot_convergence: iterations of {name} in order")
            rec.ok(ax.get_yscale() == "log", "plot_convergence: logarithmic scale")
        rec.ev("convergence")
        rec.ev("long", int(len(r.mse) > 250))
        plt.close("all")
        if i:
            rec.ev("repeated")
    rec.ok(digest_result(r) == keep, "plotting changes the result")
    rec.ev("unchanged")

    r.fit_to_zernikes(case["modes"])
    z = r.zd_result
    if rng.random() < 0.3:
        # a decomposition of the user's own
        count = case["modes"]
        z = ZernikeDecomposition(rng.normal(size=count), rng.normal(size=count), z.zerns.copy())
        r.zd_result = z
    if rng.random() < 0.3:
        z.mcoefs[...] = 0
    keep = digest_result(r)
    # the modes shown, summed independently
    def recon(coefs, s):
        return np.tensordot(np.asarray(coefs)[s], np.asarray(z.zerns)[s], axes=1)

    for i in twice:
        slices = [(slice(None), slice(None)), (rand_slice(rng, case["modes"]), rand_slice(rng, case["modes"]))]
        for sm, sp in slices:
            kw, fig, axs = {}, None, None
            if rng.random() < 0.4:
                fig, axs = free_axes(plt, rng)
                kw = dict(axs=axs)
            if (sm, sp) != slices[0]:
                kw.update(smag=sm, sphase=sp)
                rec.ev("sliced")
                if rng.random() < 0.3:
                    kw.pop("smag")
                    sm = slice(None)
            mag, phase = recon(z.mcoefs, sm), recon(z.pcoefs, sp)
            # rounding decides where a sum of modes is exactly zero
            out = z.mag(sm) == 0
            rec.close(np.where(out, 0, mag), z.mag(sm), "reconstructed magnitude", atol=1e-9)
            pupil_plot(rec, z.plot(**kw), phase, z.mag(sm), "decomposition.plot", fig, axs)
            plt.close("all")
        f, axes = z.plot_coefs()
        f.canvas.draw()
        am, ap = by_title(rec, axes, ["Magnitude Coefficients", "Phase Coefficients"], "plot_coefs")
        bars(rec, am, z.mcoefs, 1, "plot_coefs, magnitude")
        bars(rec, ap, z.pcoefs, 1, "plot_coefs, phase")
        rec.ev("coefs")
        f, ax = z.plot_named_coefs()
        f.canvas.draw()
        shown = min(case["modes"], 15)
        bars(rec, ax, z.pcoefs[4:shown], 5, "plot_named_coefs")
        if shown > 4:
            labels = {round(float(x)): t.get_text() for x, t in zip(ax.get_xticks(), ax.get_xticklabels())}
            want = {j: NAMES[j] for j in range(5, shown + 1)}
            rec.ok(labels == want, "plot_named_coefs: names at the bars", got=labels, want=want)
        else:
            rec.ev("few_modes")
        rec.ev("named")
        plt.close("all")
        rec.ok(digest_result(r) == keep, "plotting changes the decomposition")
        rec.ev("unchanged")
        if i:
            rec.ev("repeated")

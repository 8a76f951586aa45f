"""C23: calls have no side effects on inputs or process state and are repeatable."""
import copy
import gc
import logging
import os
import random
import sys
import threading
import warnings

import numpy as np

from .. import core, drv, gen, ref

ID = "C23"
RULE = ("random sequences over all public entry points (63 kinds of calls); around every call content digests of all arguments "
        "(half of them read-only arrays), of bystander models and of the process state are taken, results are checked for memory "
        "shared with arguments, and every call is repeated at once, and again with equal fresh arguments after the other calls and "
        "with another global random state, after overwriting what it returned, and with new contents in the same argument objects; non-trivial when the call returns numbers")
ASSUMPTIONS = ["process state: numpy error handling, print options, buffer size, legacy and standard random state, warning filters, "
               "matplotlib settings, working directory, environment, logging set-up, pyotf's module tables, threads, "
               "recursion limit, trace function", "repeated results are compared to 1e-9 of the largest value"]
MIN_EVENTS = {"call": 1056, "repeat": 2112, "inputs_checked": 1056, "state_checked": 1056, "read_only": 400, "figure": 60, "refilled": 250, "result_overwritten": 400}
CHUNK = 1


def cases(rng, tier):
    for _ in range(64 if tier == "quick" else 1200):
        yield dict(seed=int(rng.integers(2**31)), calls=30)


# ------------------------------------------------------------ inputs and results
def small_psf(rng, kind=None):
    kind = kind or str(rng.choice(["hanser", "sheppard"]))
    if kind == "hanser":
        return kind, gen.hanser(rng, sizes=(6, 7, 8, 9, 12), max_z=4, max_ratio=0.95)
    return kind, gen.sheppard(rng, sizes=(8, 9, 12), zsizes=(8, 9, 12), ratio=(0.6, 0.95))


def even_z(cfg):
    c = {k: v for k, v in cfg.items() if k != "zrange"}
    c["zsize"] = max(4, c.get("zsize", 4))
    return c


def stack(rng, cfg, dtype=float):
    n, nz = cfg["size"], len(ref.zvalues(cfg))
    d = rng.uniform(0, 50, (nz, n, n))
    return d.astype(dtype)


def retrieval(rng):
    cfg = gen.hanser(rng, sizes=(8, 9, 12), vec="none", cond="none", zmode="zs", max_ratio=0.95)
    from pyotf.phaseretrieval import retrieve_phase
    params = {k: cfg[k] for k in ("wl", "na", "ni", "res", "zres") if k in cfg}
    r = retrieve_phase(stack(rng, cfg), params, max_iters=3)
    r.fit_to_zernikes(8)
    return r


def leaves(x, seen=None):
    """All numbers a result consists of."""
    from pyotf.otf import BasePSF
    from pyotf.phaseretrieval import PhaseRetrievalResult, ZernikeDecomposition
    if isinstance(x, np.ma.MaskedArray):
        return [x.filled(0)]
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [v for e in x for v in leaves(e)]
    if isinstance(x, dict):
        return [v for k in sorted(x, key=repr) for v in leaves(x[k])]
    if isinstance(x, slice):
        return leaves([x.start, x.stop, x.step])
    if isinstance(x, (int, float, complex, np.generic)):
        return [np.asarray(x)]
    if isinstance(x, BasePSF):
        z = [np.array(x.zrange)] if hasattr(x, "zrange") else []
        par = [getattr(x, k) for k in ("wl", "na", "ni", "res", "size", "zres", "zsize")]
        return leaves(par) + z + [x.PSFa, x.PSFi, x.OTFa, x.OTFi]
    if isinstance(x, PhaseRetrievalResult):
        return [x.mag, x.phase, x.mse, x.mse_diff, x.pupil_diff, x.r, x.theta] + leaves([x.na, x.wl]) + leaves(x.model)
    if isinstance(x, ZernikeDecomposition):
        return [x.mcoefs, x.pcoefs, x.zerns]
    if hasattr(x, "model_psf"):
        return [x.PSF, x.OTF, x.model_psf]
    return []


def figure_numbers(fig):
    out = []
    for ax in fig.axes:
        out += [np.ma.filled(im.get_array(), -1.0) for im in ax.get_images()]
        out += [np.asarray(l.get_ydata(), float) for l in ax.get_lines()]
        out.append(np.array([p.get_height() for p in ax.patches if hasattr(p, "get_height")], float))
        out += [np.array(im.get_extent(), float) for im in ax.get_images()]
    return out


def state():
    """Digest of what the process shares, by name."""
    import matplotlib as mpl
    import pyotf.microscope as mic
    import pyotf.zernike as zer
    logs = {n: (logging.getLogger(n).level, len(logging.getLogger(n).handlers), logging.getLogger(n).propagate)
            for n in ("", "pyotf", "pyotf.otf", "pyotf.phaseretrieval", "pyotf.microscope", "matplotlib")}
    return dict(
        error_handling=dict(np.geterr()), error_call=repr(np.geterrcall()), print_options=repr(np.get_printoptions()),
        buffer=np.getbufsize(), numpy_random=core.digest(list(np.random.get_state())), random=hash(random.getstate()),
        warning_filters=[repr(f) for f in warnings.filters], rc=core.digest({k: repr(mpl.rcParams._get(k)) if hasattr(mpl.rcParams, "_get") else repr(mpl.rcParams[k]) for k in mpl.rcParams.keys()}),
        cwd=os.getcwd(), environment=core.digest(dict(os.environ)), logging=(logs, logging.root.manager.disable),
        tables=core.digest([zer.noll_mapping, zer.noll_inverse, zer.noll2name, zer.name2noll, sorted(mic.MODELS), [repr(v) for v in mic.MODELS.values()]]),
        threads=threading.active_count(), recursion=sys.getrecursionlimit(), trace=repr(sys.gettrace()), gc=gc.isenabled(),
    )


# ----------------------------------------------------------------- the calls
COUNT = [0]


def plot(fn):
    def run(*a):
        import matplotlib.pyplot as plt
        COUNT[0] += 1
        if COUNT[0] % 3:
            fig = fn(*a)
            fig = fig[0] if isinstance(fig, tuple) else fig
            out = figure_numbers(fig)
            plt.close(fig)
            return out
        mine = plt.figure()
        mine.add_subplot().plot([1, 2, 4])
        drawn = figure_numbers(mine)
        figs = []
        for _ in range(2):
            fig = fn(*a)
            figs.append(fig[0] if isinstance(fig, tuple) else fig)
            if len(figs) == 1:
                out = figure_numbers(figs[0])
        # what was drawn before is still there, in figures of its own
        if len({id(f) for f in figs + [mine]}) < 3 or not all(plt.fignum_exists(f.number) and plt.figure(f.number) is f for f in figs + [mine]):
            raise core.Violation("a plot without a figure given takes or closes another figure")
        if core.digest(figure_numbers(mine)) != core.digest(drawn) or core.digest(figure_numbers(figs[0])) != core.digest(out):
            raise core.Violation("a plot changes another figure")
        for f in figs + [mine]:
            plt.close(f)
        return out
    run.is_plot = True
    return run


def catalogue():
    import pyotf.display as di
    import pyotf.otf as otf
    import pyotf.phaseretrieval as pr
    import pyotf.utils as ut
    import pyotf.zernike as ze
    from pyotf.labview import labview
    R = {}

    def call(name):
        def deco(f):
            R[name] = f
            return f
        return deco

    def arr(rng, nd=None, dtype=None):
        nd = nd or int(rng.integers(1, 4))
        a = rng.uniform(0, 60, tuple(int(v) for v in rng.integers(3, 12, nd)))
        dtype = dtype or str(rng.choice(["float64", "complex128", "int64", "uint8"]))
        return a.astype(dtype)

    # each entry: rng -> (arguments, function of the arguments)
    R["fft_pad"] = lambda g: ((arr(g),), lambda a: ut.fft_pad(a, mode="constant"))
    R["fft_pad_new"] = lambda g: ((arr(g, 2), [int(g.integers(1, 20)), int(g.integers(1, 20))]), lambda a, n: ut.fft_pad(a, n, mode="edge"))
    R["fft_pad_same"] = lambda g: ((arr(g, 2),), lambda a: ut.fft_pad(a, a.shape, mode="constant"))
    R["slice_maker"] = lambda g: ((g.uniform(0, 20, 3), [int(v) for v in g.integers(0, 9, 3)]), ut.slice_maker)
    R["easy_fft"] = lambda g: ((arr(g),), ut.easy_fft)
    R["easy_ifft"] = lambda g: ((arr(g),), ut.easy_ifft)
    R["easy_fft_axes"] = lambda g: ((arr(g, 3, "complex128"), (1, 2)), lambda a, x: ut.easy_fft(a, axes=x))
    R["cart2pol"] = lambda g: ((g.normal(size=9), g.normal(size=9)), ut.cart2pol)
    R["center_data"] = lambda g: ((arr(g, None, "float64"),), ut.center_data)
    R["center_centred"] = lambda g: ((np.eye(1),), ut.center_data)
    R["remove_bg"] = lambda g: ((arr(g, None, "uint8"), [1.5, 2, 0][int(g.integers(3))]), ut.remove_bg)
    R["psqrt"] = lambda g: ((g.normal(size=(4, 5)),), ut.psqrt)
    R["prep"] = lambda g: ((arr(g, 3, "int64"), int(g.integers(2, 16))), ut.prep_data_for_PR)
    R["prep_same"] = lambda g: ((g.integers(0, 9, (3, 7, 7)), 7, 0), ut.prep_data_for_PR)
    R["bin_one"] = lambda g: ((arr(g),), lambda a: ut.bin_ndarray(a, bin_size=1))
    R["bin"] = lambda g: ((arr(g, 2), [2, 3]), lambda a, b: ut.bin_ndarray(a, bin_size=np.array(b), operation="mean"))
    R["bin_shape"] = lambda g: ((arr(g, 2),), lambda a: ut.bin_ndarray(a, a.shape))
    R["radial_profile"] = lambda g: ((arr(g, 2),), ut.radial_profile)
    R["radial_profile_center"] = lambda g: ((arr(g, 2), g.uniform(0, 6, 2), 1.3), ut.radial_profile)

    R["noll2degrees"] = lambda g: ((g.integers(1, 121, 7),), ze.noll2degrees)

    def degrees(g):
        n, m = np.array([ref.noll_to_nm(int(j)) for j in g.integers(1, 121, 6)]).T
        return (n.copy(), m.copy()), ze.degrees2noll
    R["degrees2noll"] = degrees
    R["zernike"] = lambda g: ((g.uniform(0, 1.2, (5, 6)), g.uniform(-3, 3, (5, 6)), g.integers(1, 30, 4)), ze.zernike)
    R["zernike_int"] = lambda g: ((g.integers(0, 2, (5, 6)), g.integers(-3, 3, (5, 6)), 5), ze.zernike)
    R["zernike_nm"] = lambda g: ((g.uniform(0, 1.2, 7), g.uniform(-3, 3, 7), [4, 3], [2, -1]), ze.zernike)
    R["zernike_raw"] = lambda g: ((g.uniform(0, 1.2, 7), g.uniform(-3, 3, 7), g.integers(1, 30, 4)),
                                  lambda r, t, j: ze.zernike(r, t, j, norm=False))
    R["zernike_piston"] = lambda g: ((g.uniform(0, 1.2, 7), g.uniform(-3, 3, 7), 1), ze.zernike)

    def hanser_z(g):
        c = gen.hanser(g, sizes=(6, 7, 8), max_z=4, zmode="list", max_ratio=0.95)
        z = np.array(c.pop("zrange"))
        return (c, z), lambda c, z: leaves(otf.HanserPSF(zrange=z, **c))
    R["hanser_zrange"] = hanser_z
    R["hanser"] = lambda g: ((small_psf(g, "hanser")[1],), lambda c: leaves(drv.hanser(c)))
    R["sheppard"] = lambda g: ((small_psf(g, "sheppard")[1],), lambda c: leaves(drv.sheppard(c)))

    def assign_z(g):
        c = small_psf(g, "hanser")[1]
        return (c, g.uniform(-1, 1, (3,)) * c["wl"]), lambda c, z: (lambda m: (setattr(m, "zrange", z), leaves(m))[1])(drv.hanser(c))
    R["assign_zrange"] = assign_z

    def pupil(g):
        c = small_psf(g, "hanser")[1]
        return (c, drv.rand_pupil(g, c, str(g.choice(drv.PUPILS)))), lambda c, p: (lambda m: (m.apply_pupil(p), leaves(m))[1])(drv.hanser(c))
    R["apply_pupil"] = pupil

    def with_model(fn, extra=lambda g: (), kind=None, evenz=False):
        def make(g):
            k, c = small_psf(g, kind)
            m = drv.psf_model(k, even_z(c) if evenz else c)
            if k == "hanser" and g.random() < 0.4:
                m.apply_pupil(drv.rand_pupil(g, c, "complex"))
            return (m,) + extra(g), fn
        return make
    R["apply_aberration"] = with_model(otf.apply_aberration, lambda g: (g.normal(size=6) * 0.1, g.normal(size=6)), "hanser")
    R["apply_aberration_phase"] = with_model(otf.apply_aberration, lambda g: (None, g.normal(size=5)), "hanser")
    R["apply_aberration_mag"] = with_model(otf.apply_aberration, lambda g: (g.normal(size=5) * 0.1, None), "hanser")
    R["apply_no_aberration"] = with_model(otf.apply_aberration, lambda g: (None, None), "hanser")
    R["apply_named"] = with_model(otf.apply_named_aberration, lambda g: (str(g.choice(sorted(ze.name2noll))), float(g.normal())), "hanser")
    R["apply_named_many"] = with_model(otf.apply_named_aberrations, lambda g: (
        {str(k): float(g.normal()) for k in g.permutation(sorted(ze.name2noll))[:3]},), "hanser")
    R["named_to_pcoefs"] = lambda g: ((str(g.choice(sorted(ze.name2noll))), float(g.normal())), otf.named_aberration_to_pcoefs)
    R["model_repr"] = with_model(lambda m: [len(repr(m))])
    R["model_plot_psf"] = with_model(plot(lambda m: m.plot_psf()), evenz=True)
    R["model_plot_otf"] = with_model(plot(lambda m: m.plot_otf()), evenz=True)

    def retrieve(po):
        def make(g):
            c = gen.hanser(g, sizes=(6, 7, 8, 9), max_z=3, zmode="zs", max_ratio=0.95)
            p = {k: c[k] for k in ("wl", "na", "ni", "res", "zres") if k in c}
            if g.random() < 0.5:
                p.update(vec_corr="total", condition="sine", size=3, zsize=99)
            if g.random() < 0.3:
                p["zrange"] = ref.zvalues(c)
            return (stack(g, c, str(g.choice(["float64", "uint8", "int64"]))), p), lambda d, p: pr.retrieve_phase(d, p, 4, phase_only=po)
        return make
    R["retrieve_phase"] = retrieve(False)
    R["retrieve_phase_only"] = retrieve(True)

    def with_result(fn, extra=lambda g: ()):
        return lambda g: ((retrieval(g),) + extra(g), fn)
    R["complex_pupil"] = with_result(lambda r: r.complex_pupil)
    R["fit"] = with_result(lambda r, n: r.fit_to_zernikes(n), lambda g: (int(g.integers(1, 30)),))
    R["generate_psf"] = with_result(lambda r, s: r.generate_psf(size=s), lambda g: (int(g.integers(3, 16)),))
    R["generate_psf_z"] = with_result(lambda r, z: r.generate_psf(zrange=z), lambda g: (g.uniform(-1, 1, 3),))
    R["generate_psf_zsize"] = with_result(lambda r, z: r.generate_psf(zsize=z), lambda g: (int(g.integers(1, 7)),))
    R["generate_zd_psf"] = with_result(lambda r, s: r.generate_zd_psf(size=s, zsize=3), lambda g: (int(g.integers(3, 16)),))
    R["zd_parts"] = with_result(lambda r: [r.zd_result.phase(slice(2, 5)), r.zd_result.mag(slice(None)), r.zd_result.complex_pupil()])
    R["result_plot"] = with_result(plot(lambda r: r.plot()))
    R["result_plot_convergence"] = with_result(plot(lambda r: r.plot_convergence()))
    R["zd_plot"] = with_result(plot(lambda r: r.zd_result.plot()))
    R["zd_plot_coefs"] = with_result(plot(lambda r: r.zd_result.plot_coefs()))
    R["zd_plot_named"] = with_result(plot(lambda r: r.zd_result.plot_named_coefs()))

    def microscope(cls):
        def make(g):
            return (gen.micro(g, cls, sizes=(6, 7, 8), os=(1, 1, 3)),), lambda c: leaves(drv.microscope(cls, c))
        return make
    for cls in gen.MICROS:
        R[cls] = microscope(cls)

    def live_microscope(fn):
        def make(g):
            cls = str(g.choice(gen.MICROS))
            while True:
                c = gen.micro(g, cls, sizes=(6, 7, 8), os=(1, 1, 3))
                m = drv.microscope(cls, c)
                if c.get("wiener") is None and m.PSF.min() >= 0 and c.get("zsize", c["size"]) > 3:
                    return (m,), fn
        return make
    R["microscope_plot_psf"] = live_microscope(plot(lambda m: m.plot_psf()))
    R["microscope_plot_otf"] = live_microscope(plot(lambda m: m.plot_otf()))
    R["microscope_repr"] = live_microscope(lambda m: [len(repr(m))])

    R["psf_plot"] = lambda g: ((g.uniform(0.1, 1, (4, 5, 6)), bool(g.random() < 0.5)), plot(lambda a, mip: di.psf_plot(a, zres=1.0, res=0.5, mip=mip)))
    R["psf_plot_kw"] = lambda g: ((g.uniform(0.1, 1, (4, 5, 6)), dict(cmap="Greys", gamma=1.0, vmin=0, vmax=2)),
                                  plot(lambda a, kw: di.psf_plot(a, zres=1.0, res=0.5, **kw)))
    def drawn(g):
        a = g.uniform(0.1, 1, (4, 5, 6))
        kw = [dict(interpolation="bilinear"), dict(cmap="viridis", gamma=0.8), dict(vmin=0.2, vmax=0.7), dict(mip=False, interpolation="bicubic")]
        return (a, float(g.uniform(0.2, 2)), float(g.uniform(0.2, 2)), kw[int(g.integers(4))]), plot(
            lambda a, zres, res, kw: di.psf_plot(a, zres=zres, res=res, **kw))
    R["psf_plot_options"] = drawn
    R["otf_plot"] = lambda g: ((g.uniform(0.1, 1, (4, 6, 6)),), plot(lambda a: di.otf_plot(a, na=1.0, ni=1.3, wl=1.0, zres=0.2, res=0.2)))
    R["max_min"] = lambda g: ((int(g.integers(1, 99)), float(g.uniform(0, 9))), di.max_min)
    R["fft_max_min"] = lambda g: ((int(g.integers(1, 99)), float(g.uniform(0.1, 9))), di.fft_max_min)
    R["z_squeeze"] = lambda g: (tuple(float(v) for v in g.uniform(1, 2, 3)), di.z_squeeze)

    def lv(g):
        d = g.integers(0, 200, (4, 7, 6)).tolist()
        return (d,), lambda d: labview(d, 500.0, 0.8, 1.0, 120.0, 200.0, max_iters=3)
    R["labview"] = lv
    return R


def freeze(args, on):
    for a in args:
        if isinstance(a, np.ndarray):
            a.setflags(write=not on)
        elif isinstance(a, dict):
            freeze(list(a.values()), on)


# names of calls whose arguments have to stay as they are / whose results are attributes of an object
FIXED = ()
OWNED = ("complex_pupil", "zd_parts")


def refill(a, g):
    """Overwrite the contents in place with other valid ones; None when nothing was changed."""
    if isinstance(a, np.ndarray) and a.size > 1 and a.ndim:
        a[...] = a[::-1].copy() if len(a) > 1 else a[..., ::-1].copy()
        return a
    if isinstance(a, dict) and isinstance(a.get("wl"), float):
        a["wl"] *= 1.01
        return a
    return None


def arg_digest(args):
    out = []
    for a in args:
        if isinstance(a, (np.ndarray, list, tuple, dict, str, int, float, type(None), np.generic)):
            out.append(core.digest(a))
        else:
            out.append(core.digest(leaves(a)))
    return out


def arrays_in(args):
    out = []
    for a in args:
        if isinstance(a, np.ndarray):
            out.append(a)
        elif isinstance(a, (list, tuple)):
            out += arrays_in(a)
        elif isinstance(a, dict):
            out += arrays_in(a.values())
    return out


def same(rec, got, want, msg):
    rec.ok(len(got) == len(want), msg + ": different number of results")
    for a, b in zip(got, want):
        s = np.abs(np.where(np.isfinite(b), b, 0)).max() if b.size else 0
        fin = np.isfinite(b) if b.dtype.kind in "fc" else np.ones(b.shape, bool)
        rec.shape(a, b.shape, msg)
        rec.close(np.where(fin, a, 0), np.where(fin, b, 0), msg, scale=s, atol=1e-300)
    rec.ev("repeat")


def check(case, rec):
    rng = np.random.default_rng(case["seed"])
    with warnings.catch_warnings(record=True):
        warnings.resetwarnings()
        warnings.simplefilter("default")
        with np.errstate(all=str(rng.choice(["warn", "ignore"])), under="ignore"):
            sequence(case, rec, rng)


def sequence(case, rec, rng):
    import matplotlib.pyplot as plt
    R = catalogue()
    names = sorted(R)
    k0, c0 = small_psf(rng)
    bystander = drv.psf_model(k0, c0)
    other = drv.microscope("ConfocalMicroscope", gen.micro(rng, "ConfocalMicroscope", sizes=(6, 7), os=(1, 3)))
    watch = core.digest(leaves(bystander) + leaves(other))
    done = []
    picks = [names[int(i)] for i in np.concatenate([rng.permutation(len(names))])[: case["calls"]]]
    for name in picks:
        seed = int(rng.integers(2**31))
        args, fn = R[name](np.random.default_rng(seed))
        frozen = bool(rng.random() < 0.5)
        if frozen:
            freeze(args, True)
            rec.ev("read_only")
        before = arg_digest(args)
        s0 = state()
        res = fn(*args)
        first = [np.array(v) for v in leaves(res)]
        s1 = state()
        for k in s0:
            rec.ok(s0[k] == s1[k], f"{name} changes process-wide state: {k}", before=str(s0[k])[:200], after=str(s1[k])[:200])
        rec.ev("state_checked")
        rec.ok(arg_digest(args) == before, f"{name} modifies its arguments", which=[i for i, (a, b) in enumerate(zip(arg_digest(args), before)) if a != b])
        rec.ev("inputs_checked")
        if not getattr(fn, "is_plot", False) and isinstance(res, (np.ndarray, tuple, list)):
            for out in leaves(res):
                for a in arrays_in(args):
                    rec.ok(not np.may_share_memory(out, a), f"{name} returns memory of its argument")
        elif getattr(fn, "is_plot", False):
            rec.ev("figure")
        if isinstance(res, (np.ndarray, tuple, list)) and name not in OWNED:
            # what a function returned belongs to the caller, who may overwrite it
            for out in arrays_in([res]):
                if out.flags.writeable and out.size:
                    out[...] = 77 if out.dtype.kind != "b" else ~out
                    rec.ev("result_overwritten")
        same(rec, [np.array(v) for v in leaves(fn(*args))], first, f"{name} repeated at once gives another result")
        if not frozen and name not in FIXED:
            # the caller's own arrays and dictionaries get new contents between two calls
            fresh = [refill(a, np.random.default_rng(seed)) for a in copy.deepcopy(args)]
            if any(f is not None for f in fresh):
                again = copy.deepcopy(args)
                for a in args:
                    refill(a, np.random.default_rng(seed))
                got = [np.array(v) for v in leaves(fn(*args))]
                want = [np.array(v) for v in leaves(fn(*[a if f is None else f for a, f in zip(again, fresh)]))]
                same(rec, got, want, f"{name} with new contents in the same arrays gives the old result")
                rec.ev("refilled")
        rec.ok(core.digest(leaves(bystander) + leaves(other)) == watch, f"{name} changes an unrelated model or microscope")
        done.append((name, seed, first))
        rec.ev("call")
        rec.tag(call=name)
        plt.close("all")
    # the same calls with fresh equal arguments, in another order, other random state
    np.random.seed(int(rng.integers(2**31)))
    random.seed(1)
    for i in rng.permutation(len(done)):
        name, seed, first = done[int(i)]
        args, fn = R[name](np.random.default_rng(seed))
        same(rec, [np.array(v) for v in leaves(fn(*args))], first, f"{name} with equal arguments gives another result after other calls")
        plt.close("all")
    rec.nontrivial = True

"""C32: results are computed on demand and once, and memory is given back.

The observer is tracemalloc (numpy reports its buffers to it) together with weak
references to objects and result arrays.
"""
import gc
import os
import tracemalloc
import weakref

import numpy as np

from .. import drv, gen, ref
from . import c23

ID = "C32"
RULE = ("models and microscopes of every class: construction and assignments on large grids with the allocation peak recorded, "
        "repeated reads, changes after reads with the memory held recorded, destruction watched through weak references (also of "
        "copies, aberrated models, retrieval results, plotted objects); every kind of public call (the catalogue of C23) repeated "
        "with equal arguments, traced memory before and after; non-trivial when arrays were allocated")
ASSUMPTIONS = ["caches of bounded size, or keyed by the arguments, are allowed; matplotlib's own caches are filled by warm-up calls",
               "memory is that seen by tracemalloc, which includes numpy arrays"]
MIN_EVENTS = {"lazy": 30, "same_object": 60, "dropped_on_change": 18, "released": 60, "flat": 60}
CHUNK = 1
OUT = ("PSFa", "PSFi", "OTFa", "OTFi")


def cases(rng, tier):
    many = 1 if tier == "quick" else 12
    for rep in range(many):
        for kind in ("hanser", "sheppard") + gen.MICROS:
            for _ in range(4):
                yield dict(what="object", kind=kind, seed=int(rng.integers(2**31)))
        names = sorted(c23.catalogue())
        for i in range(24):
            yield dict(what="flat", names=names[i::24], seed=int(rng.integers(2**31)))
        for _ in range(8):
            yield dict(what="results", seed=int(rng.integers(2**31)))


def held():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def package_held(package):
    """Memory of all arrays, and of what the package's own lines allocated.

    (matplotlib itself keeps parts of closed figures alive.)
    """
    gc.collect()
    snap = tracemalloc.take_snapshot().filter_traces([
        tracemalloc.DomainFilter(True, np.lib.tracemalloc_domain),
        tracemalloc.Filter(True, os.path.join(package, "*"))])
    return sum(t.size for t in snap.traces)


def big_config(rng, kind):
    """A configuration whose results are far larger than everything else."""
    if kind == "hanser":
        cfg = gen.hanser(rng, sizes=(48, 49, 64), zmode="zs", max_ratio=0.95)
        return dict(cfg, zsize=int(rng.integers(24, 40)))
    if kind == "sheppard":
        return gen.sheppard(rng, sizes=(40, 41), zsizes=(40, 41))
    cfg = gen.micro(rng, kind, sizes=(24, 25, 32), os=(1, 3), most=100)
    cfg["zsize"] = int(rng.integers(20, 33))
    return cfg


def build(kind, cfg):
    return drv.psf_model(kind, cfg) if kind in ("hanser", "sheppard") else drv.microscope(kind, cfg)


def obj(case, rec):
    rng = np.random.default_rng(case["seed"])
    kind = case["kind"]
    cfg = big_config(rng, kind)
    model = kind in ("hanser", "sheppard")
    outs = OUT if model else ("PSF", "OTF")
    build(kind, cfg)  # imports, tables
    gc.collect()
    if model:
        least = 8 * cfg["size"] ** 2 * cfg["zsize"]
    else:
        least = 8 * cfg["size"] ** 2 * cfg["zsize"] * (1 if cfg["oversample_factor"] == 1 else 9)
    base = held()
    tracemalloc.reset_peak()
    m = build(kind, cfg)
    if model:
        m.wl = cfg["wl"] * 0.999
        m.wl = cfg["wl"]
        m.vec_corr, m.condition = "none", "sine"
        m.vec_corr, m.condition = cfg["vec_corr"], cfg["condition"]
    elif kind == "ConfocalMicroscope":
        m.wl_exc, m.pinhole_size = cfg["wl_exc"] * 0.99, 1.0
    elif kind not in ("WidefieldMicroscope", "ApotomeMicroscope"):
        m.wiener, m.wl_exc = 0.3, m.wl_exc * 1.01
    peak = tracemalloc.get_traced_memory()[1] - base
    rec.ok(peak < 0.5 * least, "building and setting an object allocates like computing its results", peak=peak, result=least)
    rec.ev("lazy")
    empty = held() - base
    # each result once
    order = [str(v) for v in rng.permutation(outs)]
    first = {n: getattr(m, n) for n in order}
    for n in rng.permutation(outs):
        rec.ok(np.shares_memory(first[n], getattr(m, n)), "a second read returns another array", name=str(n))
        rec.ev("same_object")
    if not model:
        rec.ok(np.shares_memory(m.model.PSFi, m.model.PSFi), "a second read of the inner model returns another array")
    size = sum(a.nbytes for a in first.values())
    rec.nontrivial = size > 0
    refs = [weakref.ref(a) for a in first.values()]
    del first
    full = held() - base
    rec.ok(full >= empty, "harness: memory accounting")
    # a change drops what was computed
    if model:
        m.wl = cfg["wl"] * 0.9995
        if kind == "hanser" and rng.random() < 0.5:
            m.zrange = [0.0]
        dropped = held() - base
        rec.ok(not any(r() is not None for r in refs), "results of the previous state are kept in memory after a change")
        rec.ok(dropped < 0.1 * size + empty, "results of the previous state are kept in memory after a change", held=dropped, results=size)
        rec.ev("dropped_on_change")
    elif kind not in ("WidefieldMicroscope", "ApotomeMicroscope"):
        if kind == "ConfocalMicroscope":
            m.pinhole_size = 0.77
        else:
            m.wiener = 0.123
        gc.collect()
        rec.ok(not any(r() is not None for r in refs), "results of the previous state are kept in memory after a change")
        rec.ev("dropped_on_change")
    # many states, memory of one
    if model:
        for i in range(6):
            m.wl = cfg["wl"] * (1 - 1e-4 * (i + 1))
            [getattr(m, n) for n in outs]
        several = held() - base
        # (a result may be the view of a larger array)
        rec.ok(several < 1.1 * max(size, full) + empty, "memory grows with the states an object went through", held=several, first_state=full,
               results=size)
    # the end
    w = [weakref.ref(m)] + ([] if model else [weakref.ref(m.model)])
    last = getattr(m, outs[-1])
    w.append(weakref.ref(last))
    del last, m
    gc.collect()
    rec.ok(all(r() is None for r in w), "an object or its results outlive their last user", alive=[r() is not None for r in w])
    rec.ev("released")
    left = held() - base
    rec.ok(left < 0.25 * size, "memory is not given back with the object", left=left, results=size)
    rec.tag(kind=kind)


def results(case, rec):
    import matplotlib.pyplot as plt
    from pyotf.otf import apply_aberration
    from pyotf.phaseretrieval import retrieve_phase
    rng = np.random.default_rng(case["seed"])

    def gone(*objs):
        return [weakref.ref(o) for o in objs]

    def judge(refs, what):
        gc.collect()
        rec.ok(all(r() is None for r in refs), f"{what} outlives its last user", alive=[r() is not None for r in refs])
        rec.ev("released")

    cfg = gen.hanser(rng, sizes=(8, 9, 12), zmode="zs", max_ratio=0.95)
    cfg["zsize"] = 5
    m = drv.hanser(cfg)
    ab = apply_aberration(m, None, rng.normal(size=6))
    ab.PSFi, m.PSFi
    w = gone(m, m.PSFi)
    if rng.random() < 0.5:
        m, ab = ab, m
        w = gone(m, m.PSFi)
    del m
    judge(w, "a model whose aberrated relative is alive")
    rec.ok(np.isfinite(ab.OTFi).all(), "the relative of a released model")
    ab.plot_psf()
    ab.plot_otf()
    plt.close("all")
    w = gone(ab)
    del ab
    judge(w, "a plotted model")
    p = {k: cfg[k] for k in ("wl", "na", "ni", "res", "zres") if k in cfg}
    d = rng.uniform(0, 50, (5, cfg["size"], cfg["size"]))
    r = retrieve_phase(d, p, max_iters=3, phase_only=bool(rng.random() < 0.5))
    rec.nontrivial = True
    zd1 = r.fit_to_zernikes(6)
    zd2 = r.fit_to_zernikes(9)
    r.generate_psf(zsize=3), r.generate_zd_psf(size=5)
    w = gone(zd1, zd1.zerns)
    del zd1
    judge(w, "a replaced fit")
    r.plot(), r.plot_convergence(), zd2.plot(), zd2.plot_coefs(), zd2.plot_named_coefs()
    plt.close("all")
    w = gone(r, r.model, r.mag) + gone(d)
    del r, d
    judge(w, "a retrieval result, its model or its data")
    w = gone(zd2)
    del zd2
    judge(w, "a fit")
    a = rng.normal(size=(6, 6))
    from pyotf import utils as ut
    from pyotf.zernike import zernike
    outs = [ut.easy_fft(a), ut.center_data(a), ut.radial_profile(a)[0], ut.bin_ndarray(a, bin_size=2), ut.fft_pad(a, 9), ut.psqrt(a),
            zernike(abs(a), a, [4, 5])]
    w = gone(a, *outs)
    del a, outs
    judge(w, "an argument or a result of a function")


def flat(case, rec):
    import matplotlib.pyplot as plt
    import pyotf
    calls = c23.catalogue()
    package = os.path.dirname(pyotf.__file__)
    for k, name in enumerate(case["names"]):
        make = calls[name]
        figure = "plot" in name

        def once():
            args, fn = make(np.random.default_rng(case["seed"] + k))
            fn(*args)
            if figure:
                plt.close("all")

        warm, n, most = (2, 8, 12000) if figure else (8, 40, 160)
        for _ in range(warm):
            once()
        # pools of bounded size fill up or empty; what accumulates grows with every round
        for times in ((1, 1, 3) if figure else (1, 1, 2, 4, 8)):
            before = package_held(package)
            for _ in range(n * times):
                once()
            grown = (package_held(package) - before) / (n * times)
            if grown <= most:
                break
        key = f"memory growth per {'plot' if figure else 'call'} repeated, in bytes"
        rec.maxdev[key] = max(
            rec.maxdev.get(key, 0.0), grown)
        rec.ok(grown <= most, f"repeating {name} accumulates memory", bytes_per_call=grown)
        rec.ev("flat")
        rec.nontrivial = True


def check(case, rec):
    rec.tag(what=case["what"])
    tracemalloc.start()
    try:
        dict(object=obj, results=results, flat=flat)[case["what"]](case, rec)
    finally:
        tracemalloc.stop()

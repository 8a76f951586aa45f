"""C24: concurrent use from several threads gives the sequential results.

Threads run lists of public calls while a line-level monitor in every thread
logs who executes which line of the package and injects yields there, so that
threads are interrupted inside the code under test at random places.  The log
proves that calls overlapped.
"""
import hashlib
import sys
import threading
import time

import numpy as np

from .. import drv, gen, ref
from . import c34
from .c23 import leaves, retrieval, same, small_psf, stack

ID = "C24"
RULE = ("per case four to eight threads run random lists of calls over all numerical entry points and histories of changes of their own "
        "models and microscopes, and read shared, freshly built models, microscopes and retrieval results (also shared argument arrays "
        "and dictionaries), started together, with a switch interval of a microsecond and yields injected at random lines of the package, "
        "and in part of the cases make the same calls with other values of the same shapes; all results are compared with the sequential ones; non-trivial when threads alternated inside the package")
ASSUMPTIONS = ["CPython with the global interpreter lock", "plots are not drawn from several threads (matplotlib does not support it)",
               "results are compared to 1e-9 of the largest value"]
MIN_EVENTS = {"call": 2500, "kin": 1200, "shared_read": 300, "history": 200, "switch": 20000, "overlap": 400, "distinct_schedules": 30, "yield": 5000}
CHUNK = 1
LONG = ("retrieve_phase", "retrieve_phase_only", "retrieve_to_the_end", "labview", "fit", "sheppard", "hanser", "confocal_pinhole", "SIM3DMicroscope", "prep",
        "radial_profile", "zernike")
MARK = "/pyotf/"


def cases(rng, tier):
    for i in range(260 if tier == "quick" else 2500):
        yield dict(seed=int(rng.integers(2**31)), threads=int(rng.choice([2, 4, 6, 8])), tasks=int(rng.integers(5, 9)),
                   p=float(rng.choice([0.0, 0.02, 0.1, 0.3])), theme=str(rng.choice(["mixed", "mixed", "same", "shared", "kin", "kin"])))


def history(g):
    """Changes and reads of one model: returns everything read."""
    kind, cfg = small_psf(g)
    steps = [(str(g.choice(["wl", "na", "vec_corr", "condition", "size"])), g.random()) for _ in range(4)]

    def run():
        m = drv.psf_model(kind, cfg)
        out = [np.array(m.PSFi)]
        for name, u in steps:
            if name == "wl":
                m.wl = m.wl * (1 + 0.02 * u)
            elif name == "na":
                m.na = m.na * (1 - 0.02 * u)
            elif name == "vec_corr":
                m.vec_corr = gen.VEC[int(u * 5)]
            elif name == "condition":
                m.condition = gen.COND[int(u * 3)]
            else:
                m.size = 8 + int(u * 3)
            out += [np.array(m.PSFi), np.array(m.OTFi), np.array(m.PSFa)]
        return out
    return run


def micro_history(g):
    cls = str(g.choice(gen.MICROS))
    cfg = gen.micro(g, cls, sizes=(6, 7, 8), os=(1, 3))

    def run():
        m = drv.microscope(cls, cfg)
        out = [np.array(m.PSF), np.array(m.OTF)]
        if "SIM" in cls:
            m.wiener = 0.3
        elif cls.startswith("Confocal"):
            m.pinhole_size = 0.8
        out += [np.array(m.PSF), np.array(m.OTF), np.array(m.model_psf)]
        return out
    return run


def shared(g):
    """A fresh object and the reads several threads make of it."""
    k = str(g.choice(["psf", "psf", "pupil", "micro", "result", "data", "zernike"]))
    if k in ("psf", "pupil"):
        kind, cfg = small_psf(g, "hanser" if k == "pupil" else None)
        p = drv.rand_pupil(g, cfg, "complex") if k == "pupil" else None

        def make():
            m = drv.psf_model(kind, cfg)
            if p is not None:
                m.apply_pupil(p)
            return m
        reads = [lambda m: m.PSFi, lambda m: m.OTFi, lambda m: m.PSFa, lambda m: m.OTFa, lambda m: [float(len(repr(m)))]]
    elif k == "micro":
        cls = str(g.choice(gen.MICROS))
        cfg = gen.micro(g, cls, sizes=(6, 7, 8), os=(1, 3))

        def make():
            return drv.microscope(cls, cfg)
        reads = [lambda m: m.PSF, lambda m: m.OTF, lambda m: m.model_psf, lambda m: m.model.PSFi]
    elif k == "result":
        seed = int(g.integers(2**31))

        def make():
            return retrieval(np.random.default_rng(seed))
        reads = [lambda r: r.complex_pupil, lambda r: leaves(r.generate_psf(size=9)), lambda r: leaves(r.generate_zd_psf(size=8, zsize=3)),
                 lambda r: r.zd_result.complex_pupil(), lambda r: r.zd_result.phase(slice(2, 6)), lambda r: r.model.PSFi,
                 lambda r: leaves(r.generate_psf(zsize=2))]
    elif k == "data":
        from pyotf.phaseretrieval import retrieve_phase
        from pyotf.utils import center_data, easy_fft, prep_data_for_PR, remove_bg
        cfg = gen.hanser(g, sizes=(6, 7, 8, 9), max_z=3, zmode="zs", max_ratio=0.95)
        d = stack(g, cfg, "uint8")
        params = {q: cfg[q] for q in ("wl", "na", "ni", "res", "zres") if q in cfg}

        def make():
            return d, params
        reads = [lambda a: leaves(retrieve_phase(a[0], a[1], 3)), lambda a: leaves(retrieve_phase(a[0], a[1], 3, phase_only=True)),
                 lambda a: prep_data_for_PR(a[0], 6), lambda a: remove_bg(a[0], 1.2), lambda a: easy_fft(a[0]), lambda a: center_data(a[0])]
    else:
        from pyotf.zernike import zernike
        r, t, j = g.uniform(0, 1.2, (9, 9)), g.uniform(-3, 3, (9, 9)), g.integers(1, 40, 6)

        def make():
            return r, t, j
        reads = [lambda a: zernike(*a), lambda a: zernike(*a, norm=False), lambda a: zernike(a[0], a[1], int(a[2][0]))]
    return make, reads


class Monitor:
    """Logs the executing thread at every line of the package and injects yields."""

    def __init__(self, p, seed):
        self.log, self.p, self.seed = [], p, seed
        self.yields = 0

    def tracer(self, number):
        rnd = np.random.default_rng([self.seed, number])
        draws, pos, p, log = rnd.random(4096), [0], self.p, self.log

        def local(frame, event, arg):
            if event == "line":
                log.append(number)
                pos[0] = (pos[0] + 1) % 4096
                if draws[pos[0]] < p:
                    self.yields += 1
                    time.sleep(0 if draws[pos[0] - 1] < 0.8 else 2e-5)
            return local

        def glob(frame, event, arg):
            if MARK in frame.f_code.co_filename:
                return local
            return None
        return glob

    def report(self, rec):
        a = np.array(self.log)
        sw = int((np.diff(a) != 0).sum()) if a.size else 0
        rec.ev("line", int(a.size))
        rec.ev("switch", sw)
        rec.ev("yield", self.yields)
        runs = a[np.flatnonzero(np.concatenate([[True], np.diff(a) != 0]))] if a.size else a
        rec.tag(schedule=hashlib.sha1(runs.astype("u1").tobytes()).hexdigest()[:10])
        rec.ev("distinct_schedules", 1 if sw else 0)
        if sw > 10:
            rec.nontrivial = True


def run_threads(jobs, mon):
    """jobs: one list of callables per thread; returns results and errors, and how many calls overlapped another."""
    out = [[None] * len(j) for j in jobs]
    spans, errs = [], []
    gate = threading.Barrier(len(jobs))

    def body(i):
        gate.wait()
        sys.settrace(mon.tracer(i))
        try:
            for k, fn in enumerate(jobs[i]):
                s = time.perf_counter()
                try:
                    out[i][k] = [np.array(v) for v in leaves(fn())]
                except BaseException as e:  # every failure is evidence
                    errs.append((i, k, repr(e)))
                spans.append((s, time.perf_counter(), i))
        finally:
            sys.settrace(None)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    over = sum(any(a < e and s < b and i != j for a, b, j in spans) for s, e, i in spans)
    return out, errs, over


def check(case, rec):
    rng = np.random.default_rng(case["seed"])
    R = {k: v for k, v in c34.catalogue().items() if "plot" not in k and k != "ApotomeMicroscope"}
    if case["theme"] == "kin" and rng.random() < 0.4:
        # the calls that take longest, in which threads meet
        R = {k: v for k, v in R.items() if k in LONG}
    names = sorted(R)
    T = case["threads"]
    plans = []  # per thread: (kind, name, zero-argument function for threads, for the sequential run)
    common = [names[int(i)] for i in rng.integers(0, len(names), case["tasks"])]
    seeds = [int(v) for v in rng.integers(0, 2**31, case["tasks"])]
    stock = []
    for i in range(T):
        plan = []
        for q in range(case["tasks"]):
            u, seed = rng.random(), int(rng.integers(2**31))
            if case["theme"] == "kin":
                # the same call in every thread, with other values of the same shapes
                name, v = common[q], (seed if i else 0)
                try:
                    a0, fn0, how = c34.build(R, name, seeds[q], v)
                    want = [np.array(w) for w in leaves(fn0(*a0))]
                except Exception:
                    v = 0
                    a0, fn0, how = c34.build(R, name, seeds[q], v)
                    want = [np.array(w) for w in leaves(fn0(*a0))]
                a1, fn1, how = c34.build(R, name, seeds[q], v)
                plan.append(("call", name, (lambda f=fn1, a=a1: f(*a)), want))
                rec.ev("kin")
                continue
            if case["theme"] == "shared" and u < 0.6 or u < 0.25:
                if not stock or rng.random() < 0.12 * (1 if case["theme"] == "shared" else 3):
                    make, reads = shared(np.random.default_rng(seed))
                    stock.append((make(), [[np.array(v) for v in leaves(f(make()))] for f in reads], reads))
                obj, want, reads = stock[int(rng.integers(len(stock)))]
                f = int(rng.integers(len(reads)))
                plan.append(("shared_read", reads[f].__code__.co_firstlineno, (lambda o=obj, g=reads[f]: g(o)), want[f]))
            elif u < 0.45:
                h = (history if rng.random() < 0.6 else micro_history)(np.random.default_rng(seed))
                plan.append(("history", "history", h, [np.array(v) for v in leaves(h())]))
            else:
                # the same function in every thread at the same time finds shared scratch space best
                name = common[q] if case["theme"] == "same" else names[int(rng.integers(len(names)))]
                a0, fn0 = R[name](np.random.default_rng(seed))
                want = [np.array(v) for v in leaves(fn0(*a0))]
                a1, fn1 = R[name](np.random.default_rng(seed))
                plan.append(("call", name, (lambda f=fn1, a=a1: f(*a)), want))
        plans.append(plan)
    mon = Monitor(case["p"], case["seed"])
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        out, errs, over = run_threads([[p[2] for p in plan] for plan in plans], mon)
    finally:
        sys.setswitchinterval(old)
    rec.ok(not errs, "a call fails when run concurrently", errors=[(plans[i][k][1], e) for i, k, e in errs[:3]])
    for plan, res in zip(plans, out):
        for (kind, name, _, want), got in zip(plan, res):
            same(rec, got, want, f"{kind} {name} gives another result when run concurrently")
            rec.ev(kind)
            rec.tag(call=name if kind == "call" else kind)
    rec.ev("overlap", over)
    mon.report(rec)

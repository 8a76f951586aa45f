"""C29: models, microscopes and results survive copying, pickling and other processes."""
import copy
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import core, drv, gen, ref
from . import c05, c22

ID = "C29"
RULE = ("models, microscopes, retrieval results and decompositions in random states (fresh, partly read, after changes, rejected changes and "
        "applied pupils) are pickled with every protocol, deep copied or (models) copied, alone or together in a container, once or repeatedly; duplicate and "
        "original are then read in random order, changed and read again and compared with freshly built objects; batches of calls are "
        "sent to another interpreter (own hash seed) and their results compared; non-trivial when duplicate and original were both read")
ASSUMPTIONS = ["no format of the pickles and no bit equality: results are compared to 1e-9 of the largest value",
               "duplicates are loaded by the same version of the package"]
MIN_EVENTS = {"duplicate": 250, "read": 1500, "changed_duplicate": 80, "changed_original": 80, "pickle": 140, "copy": 15, "deepcopy": 40, "shared": 15,
              "result": 15, "remote_call": 60, "remote_object": 8, "pupil": 25}
CHUNK = 2
READS = ("PSF", "OTF", "model_psf")
VERIF = str(core.__file__).rsplit(os.sep, 2)[0]


def cases(rng, tier):
    k = 1 if tier == "quick" else 15
    s = lambda: int(rng.integers(2**31))  # noqa: E731
    for i in range(120 * k):
        yield dict(what="model", seed=s())
    for i in range(70 * k):
        yield dict(what="micro", cls=str(rng.choice(gen.MICROS)), seed=s())
    for i in range(30 * k):
        yield dict(what="result", seed=s())
    for i in range(12 * k):
        yield dict(what="remote", seed=s())


def duplicate(rng, rec, obj, shallow=False):
    """A duplicate of obj by a random route."""
    k = rng.random()
    rec.ev("duplicate")
    if shallow and rng.random() < 0.3:
        rec.ev("copy")
        return copy.copy(obj)
    if k < 0.25:
        rec.ev("deepcopy")
        return copy.deepcopy(obj)
    rec.ev("pickle")
    proto = int(rng.integers(pickle.HIGHEST_PROTOCOL + 1))
    rec.tag(protocol=proto)
    if k < 0.4:
        # two references in one container stay one object
        rec.ev("shared")
        box = pickle.loads(pickle.dumps({"a": [obj], "b": obj}, proto))
        rec.ok(box["a"][0] is box["b"], "one object pickled twice in a container became two")
        return box["b"]
    d = pickle.loads(pickle.dumps(obj, proto))
    return pickle.loads(pickle.dumps(d, proto)) if k < 0.55 else d


def same_parameters(rec, o, live, what):
    for k, v in o.cfg.items():
        if k == "zrange":
            rec.close(live.zrange, np.atleast_1d(np.asarray(v, float)), f"{what}: other zrange")
        else:
            rec.ok(getattr(live, k) == v, f"{what}: other {k}", got=getattr(live, k), want=v)


def model(case, rec, rng):
    kind = "hanser" if rng.random() < 0.65 else "sheppard"
    cfg = c05.new_cfg(rng, kind)
    o = c05.Obj(kind, cfg, drv.psf_model(kind, cfg))
    trace = []

    def disturb(o, steps, pupil=True):
        for _ in range(steps):
            op = rng.random()
            if op < 0.4:
                for n in rng.permutation(c05.OUT)[: int(rng.integers(1, 4))]:
                    getattr(o.live, str(n))
                    trace.append(f"read {n}")
            elif op < 0.7:
                mv = c05.mutate(rng, o)
                if mv is None:
                    continue
                name, v, o.cfg = mv
                setattr(o.live, name, np.array(v) if name == "zrange" else v)
                o.pupil = None
                trace.append(f"{name}={v}")
            elif op < 0.8:
                name, v = c05.bad_assignment(rng, o)
                try:
                    setattr(o.live, name, v)
                except Exception:
                    pass
                trace.append(f"rejected {name}={v}")
            elif kind == "hanser":
                o.pupil = drv.rand_pupil(rng, o.cfg, str(rng.choice(drv.PUPILS)))
                o.live.apply_pupil(o.pupil.copy())
                rec.ev("pupil")
                trace.append("apply_pupil")

    def compare(o, what):
        f = o.fresh()
        for n in rng.permutation(c05.OUT):
            rec.close(getattr(o.live, str(n)), getattr(f, str(n)), f"{what} returns another {n} than a fresh model", trace=trace[-8:])
            rec.ev("read")

    disturb(o, int(rng.integers(0, 5)))
    if kind == "hanser" and rng.random() < 0.4:
        # often the last thing that happened is an applied pupil
        o.pupil = drv.rand_pupil(rng, o.cfg, str(rng.choice(drv.PUPILS)))
        o.live.apply_pupil(o.pupil.copy())
        rec.ev("pupil")
        trace.append("apply_pupil")
        if rng.random() < 0.3:
            getattr(o.live, str(rng.choice(c05.OUT)))
    d = o.fork(duplicate(rng, rec, o.live, shallow=True))
    trace.append("duplicate")
    rec.ok(type(d.live) is type(o.live), "a duplicate has another class", got=type(d.live).__name__)
    if rng.random() < 0.5:
        compare(d, "a duplicate")
        same_parameters(rec, d, d.live, "a duplicate")
    # each goes its own way
    first, second = (d, o) if rng.random() < 0.5 else (o, d)
    disturb(first, int(rng.integers(1, 5)))
    rec.ev("changed_duplicate" if first is d else "changed_original")
    compare(second, "a model whose duplicate changed" if second is o else "a duplicate whose original changed")
    compare(first, "a changed duplicate" if first is d else "a model changed after it was duplicated")
    disturb(second, int(rng.integers(1, 4)))
    rec.ev("changed_duplicate" if second is d else "changed_original")
    compare(first, "a model after both were changed")
    compare(second, "a model after both were changed")
    for x in (o, d):
        same_parameters(rec, x, x.live, "after changes")


def micro(case, rec, rng):
    cls = case["cls"]
    cfg = c22.new(rng, cls)
    trace = []
    cur = {}

    def change(key, live):
        cfg = cur[key]
        if not c22.settings(cls):
            return
        o = c22.Obj(cls, cfg, live)
        nv = c22.change(rng, o)
        if nv is None or nv[0] in ("coherent", "dc"):
            return
        name, v = nv
        if name == "orientations" and cls.startswith("Lattice"):
            return
        setattr(live, name, tuple(v) if name == "orientations" else v)
        cur[key] = dict(cfg, **{name: v})
        trace.append(f"{key}.{name}={v}")
        rec.ev("changed_duplicate" if key == "duplicate" else "changed_original")

    def compare(key, live):
        f = c22.build(cls, cur[key])
        for n in rng.permutation(READS):
            n = str(n)
            want = getattr(f, n)
            if n != "model_psf" and not np.abs(f.PSF).max() < 1e4:
                continue
            rec.close(getattr(live, n), want, f"the {key} of a {cls} returns another {n} than a new one", rtol=1e-8, trace=trace[-8:])
            rec.ev("read")

    m = c22.build(cls, cfg)
    cur["original"] = cfg
    for _ in range(int(rng.integers(0, 4))):
        if rng.random() < 0.5:
            n = str(rng.choice(READS))
            getattr(m, n)
            trace.append(f"read {n}")
        else:
            change("original", m)
    d = duplicate(rng, rec, m)
    cur["duplicate"] = cur["original"]
    trace.append("duplicate")
    rec.ok(type(d) is type(m), "a duplicate has another class", got=type(d).__name__)
    both = [("original", m), ("duplicate", d)]
    for key, live in [both[i] for i in rng.permutation(2)]:
        compare(key, live)
    for key, live in [both[i] for i in rng.permutation(2)]:
        change(key, live)
        other = both[0] if key == "duplicate" else both[1]
        compare(*other)
        compare(key, live)
    for key, live in both:
        for name in c22.settings(cls):
            want = cur[key].get(name)
            if want is not None:
                got = getattr(live, name)
                rec.ok(tuple(got) == tuple(want) if name == "orientations" else got == want,
                       f"{cls}.{name} of the {key} is not the current setting", got=got, want=want)


def retrieval(rng, cfg, most=6):
    from pyotf.phaseretrieval import retrieve_phase
    p = ref.aperture(cfg) * np.exp(1j * np.tensordot(rng.normal(size=8) * 0.5, ref.zernike_stack(cfg, 8), 1))
    data = ref.intensity(ref.hanser_psfa(dict(cfg, vec_corr="none", condition="none"), p))
    data = data / data.max() * 1000 + rng.uniform(0, 5, data.shape)
    return retrieve_phase(data, {k: cfg[k] for k in ("wl", "na", "ni", "res", "zres")}, int(rng.integers(1, most)), 0, 0, bool(rng.random() < 0.4))


def result(case, rec, rng):
    import matplotlib.pyplot as plt
    cfg = gen.hanser(rng, sizes=(8, 9, 12, 13), vec="none", cond="none", zmode="zs", max_ratio=0.9, max_z=4, nyquist=(0.2, 0.9))
    cfg["zsize"] = max(3, cfg["zsize"])
    r = retrieval(rng, cfg)
    k = int(rng.integers(5, 16))
    fitted = rng.random() < 0.6
    if fitted:
        r.fit_to_zernikes(k)
    if rng.random() < 0.2:
        r.plot()
        r.plot_convergence()
        plt.close("all")
    if rng.random() < 0.3:
        r.generate_psf()
    size, zs = int(rng.integers(6, 15)), int(rng.integers(1, 6))

    def snapshot(r, again):
        out = {n: np.array(getattr(r, n)) for n in ("mag", "phase", "mse", "pupil_diff", "mse_diff", "complex_pupil", "r", "theta")}
        out["psf"] = r.generate_psf()
        out["psf2"] = r.generate_psf(size=size, zsize=zs)
        out["model"] = r.model.PSFi
        if again:
            z = r.fit_to_zernikes(k)
            rec.ok(z is None or len(z.pcoefs) == k, "wrong number of modes")
        if fitted or again:
            z = r.zd_result
            out.update(mc=z.mcoefs, pc=z.pcoefs, zph=z.phase(slice(3, None)), zmag=z.mag(slice(None)), zpsf=r.generate_zd_psf())
        return {n: np.array(v) for n, v in out.items()}

    def equal(a, b, what):
        for n in a:
            rec.close(b[n], a[n], f"{what}: {n} differs", scale=max(1e-300, np.nanmax(np.abs(a[n]))))
            rec.ev("read")

    d = duplicate(rng, rec, r)
    rec.ok(type(d) is type(r), "a duplicate has another class", got=type(d).__name__)
    before = snapshot(r, False)
    equal(before, snapshot(d, False), "a duplicated result")
    # overwriting the duplicate leaves the original alone, and the other way round
    a, b = (r, d) if rng.random() < 0.5 else (d, r)
    for n in ("mag", "phase", "mse"):
        getattr(a, n)[...] = 3.5
    a.model.wl = a.model.wl * 1.1
    if fitted:
        a.zd_result.pcoefs[...] = 1.5
    equal(before, snapshot(b, False), "a result whose duplicate was overwritten")
    full = snapshot(b, True)
    equal(full, snapshot(duplicate(rng, rec, b), True), "a duplicate fitted later")
    if fitted:
        z = b.zd_result
        z2 = duplicate(rng, rec, z)
        s = slice(int(rng.integers(0, 4)), int(rng.integers(4, k + 1)))
        rec.close(z2.phase(s), z.phase(s), "a duplicated decomposition reconstructs another phase", scale=1)
        rec.close(z2.complex_pupil(sphase=s), z.complex_pupil(sphase=s), "a duplicated decomposition gives another pupil", scale=1)
    rec.ev("result")


CHILD = """
import sys, pickle, logging
sys.path.insert(0, sys.argv[1])
import otfmon.runner, warnings
warnings.simplefilter("ignore")
from otfmon.props import c29
from otfmon.core import Rec
jobs = pickle.load(sys.stdin.buffer)
out = [c29.perform(j) for j in jobs]
sys.stdout.buffer.write(pickle.dumps(out))
"""


def perform(job):
    """One call, given as plain data or with the object to read."""
    kind, a = job[0], job[1:]
    if kind == "read":
        obj, names = a
        return [np.array(getattr(obj, n)) for n in names] + [obj]
    if kind == "model":
        m = drv.psf_model(*a)
        return [m.PSFa, m.OTFi]
    if kind == "micro":
        m = c22.build(*a)
        return [m.PSF, m.OTF]
    if kind == "zernike":
        from pyotf.zernike import zernike
        return [np.asarray(zernike(*a))]
    if kind == "named":
        from pyotf.otf import apply_named_aberrations
        return [apply_named_aberrations(drv.hanser(a[0]), dict(a[1])).PSFi]
    if kind == "aberration":
        from pyotf.otf import apply_aberration
        return [apply_aberration(drv.hanser(a[0]), *a[1:]).PSFi]
    if kind == "retrieve":
        from pyotf.phaseretrieval import retrieve_phase
        r = retrieve_phase(*a)
        r.fit_to_zernikes(10)
        return [r.complex_pupil, r.mse, r.zd_result.pcoefs, r]
    if kind == "profile":
        from pyotf.utils import radial_profile
        return list(radial_profile(*a))
    if kind == "prep":
        from pyotf.utils import prep_data_for_PR
        return [prep_data_for_PR(*a)]
    from pyotf import utils
    return [getattr(utils, kind)(*a)]


def remote(case, rec, rng):
    from pyotf.zernike import name2noll
    jobs = []
    for i in range(int(rng.integers(10, 16))):
        k = int(rng.integers(11))
        cfg = gen.hanser(rng, sizes=(6, 8, 9, 12), max_z=4, max_ratio=0.95)
        if k < 2:
            kind = "hanser" if k else "sheppard"
            jobs.append(("model", kind, c05.new_cfg(rng, kind)))
        elif k == 2:
            cls = str(rng.choice(gen.MICROS))
            jobs.append(("micro", cls, c22.new(rng, cls)))
        elif k == 3:
            n = int(rng.integers(1, 20))
            jobs.append(("zernike", rng.uniform(0, 1.2, n), rng.uniform(-3, 3, n), [int(v) for v in rng.integers(1, 121, 3)]))
        elif k == 4:
            names = rng.permutation(sorted(name2noll))[: int(rng.integers(1, 8))]
            jobs.append(("named", cfg, [(str(n), float(rng.normal())) for n in names]))
        elif k == 5:
            n = int(rng.integers(2, 12))
            jobs.append(("aberration", cfg, rng.normal(size=n) * 0.1, rng.normal(size=n)))
        elif k == 6:
            c = gen.hanser(rng, sizes=(8, 9, 12), vec="none", cond="none", zmode="zs", max_ratio=0.9, max_z=4, nyquist=(0.2, 0.9))
            c["zsize"] = max(3, c["zsize"])
            p = ref.aperture(c) * np.exp(1j * np.tensordot(rng.normal(size=8) * 0.5, ref.zernike_stack(c, 8), 1))
            jobs.append(("retrieve", ref.intensity(ref.hanser_psfa(c, p)), {k: c[k] for k in ("wl", "na", "ni", "res", "zres")}, 5, 0, 0))
        elif k == 7:
            jobs.append(("profile", rng.normal(size=(int(rng.integers(3, 20)), 12))))
        elif k == 8:
            jobs.append((str(rng.choice(["easy_fft", "easy_ifft", "center_data"])), rng.normal(size=(4, int(rng.integers(2, 9))))))
        elif k == 9:
            jobs.append(("prep", rng.integers(0, 99, (3, 8, int(rng.integers(6, 11)))).astype("u2")))
        else:
            # the object itself travels, there and back
            if rng.random() < 0.5:
                m, names = drv.hanser(cfg), c05.OUT
                if rng.random() < 0.6:
                    m.apply_pupil(drv.rand_pupil(rng, cfg, "complex"))
            else:
                cls = str(rng.choice(gen.MICROS))
                m, names = c22.build(cls, c22.new(rng, cls)), READS
            names = [str(n) for n in rng.permutation(names)]
            if rng.random() < 0.5:
                getattr(m, names[0])
            jobs.append(("read", m, names))
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2**31))), MPLBACKEND="Agg")
    send = pickle.dumps(jobs)
    run = subprocess.run([sys.executable, "-B", "-c", CHILD, VERIF], input=send, capture_output=True, env=env, timeout=200)
    rec.ok(run.returncode == 0, "calls that work here fail in another process", err=run.stderr.decode(errors="replace")[-1500:])
    got = pickle.loads(run.stdout)
    for job, far in zip(jobs, got):
        near = perform(job)
        rec.ok(len(near) == len(far), "another number of results in another process", call=job[0])
        for a, b in zip(near, far):
            if isinstance(a, (np.ndarray, float, np.generic)):
                s = np.abs(np.asarray(a))
                s = float(s[np.isfinite(s)].max()) if np.isfinite(s).any() else 1.0
                rec.close(b, a, f"{job[0]} gives another result in another process", rtol=1e-8, scale=s)
                rec.ev("remote_call")
            else:
                # the object that came back still works
                if job[0] == "retrieve":
                    rec.close(b.generate_psf(), a.generate_psf(), "a result from another process regenerates another PSF")
                    a.fit_to_zernikes(7)
                    b.fit_to_zernikes(7)
                    rec.close(b.zd_result.pcoefs, a.zd_result.pcoefs, "a result from another process is fitted by other coefficients", scale=1)
                else:
                    for n in job[2]:
                        rec.close(getattr(b, n), getattr(a, n), f"{n} of an object that came back from another process", rtol=1e-8)
                        rec.ev("read")
                rec.ev("remote_object")


def check(case, rec):
    rng = np.random.default_rng(case["seed"])
    rec.tag(what=case["what"])
    dict(model=model, micro=micro, result=result, remote=remote)[case["what"]](case, rec, rng)
    rec.nontrivial = True

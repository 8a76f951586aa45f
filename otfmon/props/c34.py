"""C34: what was computed before never changes a result."""
import logging
import os
import pickle
import signal
import struct
import traceback
import warnings

import numpy as np

from .. import core, drv, gen
from . import c23

ID = "C34"
RULE = ("every kind of public call (those of C23, and larger arrays, plots with options) is made in a long-lived process many times in random "
        "order, with nearly equal arguments in between: the same array with its samples permuted, one sample changed, negated, another "
        "shape, all samples changed by less than a half, a number changed in the third to seventh digit, a setting of a model assigned; arguments are new objects, the old objects "
        "refilled, or objects that took over freed memory, and returned arrays are overwritten by the caller; every result is compared "
        "with that of the same call in a process forked from one that never called the package; non-trivial when numbers were compared")
ASSUMPTIONS = ["results are compared to 1e-9 of the largest value", "the arguments are rebuilt from their random seed in the other process, "
               "which for calls on results of retrievals includes that retrieval", "Linux fork"]
MIN_EVENTS = {"call": 4000, "compared": 4000, "permuted": 120, "tweaked": 120, "digits": 500, "negated": 100, "nudged": 100, "reshaped": 100, "assigned": 100,
              "refilled": 1000, "reborn": 1000, "new": 1000, "overwritten": 2000, "kept": 5000, "fork": 2000}
CHUNK = 1


def cases(rng, tier):
    for _ in range(48 if tier == "quick" else 900):
        yield dict(seed=int(rng.integers(2**31)), calls=12, variants=5)


# ------------------------------------------------------------ a process without history
class Pristine:
    """A process forked before the package was called; forks one child for every request."""

    def __init__(self):
        up, down = os.pipe(), os.pipe()
        self.owner = os.getpid()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(0)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                os.close(up[1])
                os.close(down[0])
                self.serve(up[0], down[1])
            finally:
                os._exit(0)
        os.close(up[0])
        os.close(down[1])
        self.w, self.r = up[1], down[0]

    @staticmethod
    def read(fd, n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out

    @classmethod
    def get(cls, fd):
        return pickle.loads(cls.read(fd, struct.unpack("Q", cls.read(fd, 8))[0]))

    @staticmethod
    def put(fd, obj):
        b = pickle.dumps(obj)
        b = struct.pack("Q", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    def serve(self, r, w):
        # everything is imported once, nothing is called
        import matplotlib.pyplot  # noqa: F401
        import mpl_toolkits.axes_grid1  # noqa: F401
        import pyotf.labview  # noqa: F401
        import pyotf.microscope  # noqa: F401
        logging.getLogger("pyotf").setLevel(logging.CRITICAL)
        while True:
            try:
                jobs = self.get(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(200)
                    self.put(w, self.answer(jobs))
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                # nothing came: the reader must not wait
                self.put(w, None)

    @staticmethod
    def answer(jobs):
        return [attempt(j) for j in jobs]

    def ask(self, jobs):
        self.put(self.w, jobs)
        return self.get(self.r)


_PRISTINE = []


def pristine():
    if not _PRISTINE or _PRISTINE[0].owner != os.getpid():
        _PRISTINE[:] = [Pristine()]
    return _PRISTINE[0]


# ------------------------------------------------------------ calls and nearly equal arguments
def catalogue():
    import pyotf.otf as otf
    import pyotf.utils as ut
    import pyotf.zernike as ze
    R = dict(c23.catalogue())
    # more samples than a printed array shows
    big = lambda g: g.uniform(0, 60, (int(g.integers(33, 40)), int(g.integers(33, 40))))  # noqa: E731
    R["big_fft"] = lambda g: ((big(g),), ut.easy_fft)
    R["big_ifft"] = lambda g: ((big(g) + 0j,), ut.easy_ifft)
    R["big_profile"] = lambda g: ((big(g), g.integers(3, 20, 2).astype(float), float(g.integers(1, 4))), ut.radial_profile)
    R["big_centre"] = lambda g: ((big(g),), ut.center_data)
    R["big_bin"] = lambda g: ((big(g), [2, 3]), lambda a, b: ut.bin_ndarray(a, bin_size=b))
    R["big_bg"] = lambda g: ((big(g).astype("u2"), 1.25), ut.remove_bg)
    R["big_prep"] = lambda g: ((g.integers(0, 300, (3, 22, 23)), 20, 1.5), ut.prep_data_for_PR)
    R["big_polar"] = lambda g: ((big(g) - 30, g.normal(size=(1, 1))), ut.cart2pol)
    R["big_pad"] = lambda g: ((big(g), [41, 37]), lambda a, n: ut.fft_pad(a, n, mode="median"))

    def disk(g):
        n = int(g.integers(32, 38))
        return (g.uniform(0, 1.1, (n, n)), g.uniform(-3, 3, (n, n)), [int(v) for v in g.integers(1, 40, 5)]), ze.zernike
    R["big_zernike"] = disk

    def pupil(g):
        c = gen.hanser(g, sizes=(32, 33), max_z=2, max_ratio=0.95, zmode="list")
        return (c, drv.rand_pupil(g, c, "complex")), lambda c, p: (lambda m: (m.apply_pupil(p), c23.leaves(m))[1])(drv.hanser(c))
    R["big_pupil"] = pupil

    def confocal(g):
        while True:
            c = gen.micro(g, "ConfocalMicroscope", sizes=(12, 13, 16), os=(1, 3))
            if c["pinhole_size"] > 0:
                return (c,), lambda c: c23.leaves(drv.microscope("ConfocalMicroscope", c))
    R["confocal_pinhole"] = confocal

    def z_list(g):
        c = gen.hanser(g, sizes=(6, 7, 8), zmode="one", max_ratio=0.95)
        c.pop("zsize")
        dof = c["wl"] / (c["ni"] - np.sqrt(c["ni"] ** 2 - c["na"] ** 2))
        z = (np.arange(5) - 2) * float(g.uniform(0.2, 1)) * dof
        return (c, z), lambda c, z: c23.leaves(otf.HanserPSF(zrange=z, **c))
    R["hanser_stack"] = z_list

    def to_the_end(g):
        import pyotf.phaseretrieval as pr
        args, _ = R["retrieve_phase"](g)
        tol = [float(v) for v in g.choice([0.0, 1e-12, 0.3], 2)]
        return args + (tol,), lambda d, p, t: pr.retrieve_phase(d, p, 5, *t)
    R["retrieve_to_the_end"] = to_the_end
    return R


def paths(x, at=()):
    """Where numbers can be changed: (path, kind)."""
    from pyotf.otf import BasePSF
    if isinstance(x, np.ndarray):
        if x.size and x.dtype.kind in "fciu":
            yield at, "array"
    elif isinstance(x, bool):
        return
    elif isinstance(x, float):
        yield at, "float"
    elif isinstance(x, dict):
        for k in sorted(x, key=repr):
            yield from paths(x[k], at + (k,))
    elif isinstance(x, (tuple, list)):
        for i, v in enumerate(x):
            yield from paths(v, at + (i,))
    elif isinstance(x, BasePSF) or hasattr(x, "model_psf"):
        yield at, "object"


def reach(x, path):
    for k in path:
        x = x[k]
    return x


def put(x, path, new):
    if not path:
        return new
    k = path[0]
    if isinstance(x, tuple):
        return tuple(put(v, path[1:], new) if i == k else v for i, v in enumerate(x))
    x[k] = put(x[k], path[1:], new)
    return x


def changed(a, g):
    """Nearly the same array, and what was done to it."""
    how = str(g.choice(["permuted", "tweaked", "digits", "negated", "reshaped", "reversed", "nudged"]))
    if a.size <= 4 and a.dtype.kind == "f" and g.random() < 0.5:
        how = "nudged"
    b = a.copy()
    if how == "permuted":
        b = g.permutation(a.ravel()).reshape(a.shape)
    elif how == "reversed":
        b = np.ascontiguousarray(a.ravel()[::-1]).reshape(a.shape)
    elif how == "tweaked":
        i = np.unravel_index(int(g.integers(a.size)), a.shape)
        if a.dtype.kind in "iu":
            b[i] = a[i] - 1 if a[i] > 0 else a[i] + 1
        else:
            b[i] = a[i] * 1.01 + (0 if a[i] else 0.01)
    elif how == "nudged" and a.dtype.kind in "fc":
        # rounds to the same integers
        b = np.rint(a.real) + g.uniform(-0.45, 0.45, a.shape) + (a - a.real)
    elif how == "digits" and a.dtype.kind in "fc":
        b = a * (1 + 10.0 ** -g.uniform(3, 7))
    elif how == "negated" and a.dtype.kind != "u":
        b = -a
    elif how == "reshaped" and a.ndim > 1:
        b = a.reshape(a.shape[::-1])
    return b, how


def vary(args, g, name):
    """Change one thing about the arguments (rejected arguments are rejected everywhere alike)."""
    places = list(paths(tuple(args)))
    if not places or g.random() < 0.12:
        return args, "same"
    path, kind = places[int(g.integers(len(places)))]
    old = reach(args, path)
    if kind == "array":
        new, how = changed(old, g)
    elif kind == "float":
        new, how = float(old * (1 + float(g.choice([-1, 1])) * 10.0 ** -g.uniform(2.3, 7))), "digits"
    else:
        new, how = old, "assigned"
        assign(old, g)
    return (tuple(args) if kind == "object" else put(tuple(args), path, new)), how


def assign(obj, g):
    """Another valid setting of a live model or microscope."""
    if hasattr(obj, "model_psf"):
        own = [k for k in ("pinhole_size", "wiener", "wl_exc", "na_exc", "dc_suppress") if getattr(obj, k, None) is not None]
        if own:
            k = str(g.choice(own))
            v = getattr(obj, k)
            setattr(obj, k, not v if isinstance(v, bool) else v * (1 - 10.0 ** -g.uniform(1, 5)))
        return
    k = str(g.choice(["na", "res", "zres", "wl", "vec_corr", "condition"]))
    if k == "vec_corr":
        obj.vec_corr = str(g.choice(gen.VEC))
    elif k == "condition":
        obj.condition = str(g.choice(gen.COND))
    else:
        f = 10.0 ** -g.uniform(1, 5)
        setattr(obj, k, getattr(obj, k) * (1 + f if k == "wl" else 1 - f))


def build(R, name, seed, vseed):
    """(arguments, function, what was varied), the same in every process."""
    args, fn = R[name](np.random.default_rng(seed))
    how = "original"
    if vseed:
        args, how = vary(args, np.random.default_rng(vseed), name)
    return args, fn, how


def attempt(job):
    """The numbers of one call, or None if it refuses its arguments."""
    import matplotlib.pyplot as plt
    R = catalogue()
    c23.COUNT[0] = 0
    try:
        args, fn, _ = build(R, *job)
    except Exception:
        return "unbuilt"
    try:
        return numbers(fn(*args))
    except Exception as e:
        return repr(type(e))
    finally:
        plt.close("all")


def numbers(res):
    return [np.array(v) for v in c23.leaves(res)]


def pour(old, new):
    """Fill the old objects with the new contents where they can hold them; what to pass in their place."""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype and old.flags.writeable:
        old[...] = new
        return old
    if isinstance(old, dict) and isinstance(new, dict):
        for k in [k for k in old if k not in new]:
            del old[k]
        for k in new:
            old[k] = pour(old[k], new[k]) if k in old else new[k]
        return old
    if isinstance(old, list) and isinstance(new, list):
        old[:] = [pour(a, b) for a, b in zip(old, new)] + new[len(old):]
        return old
    if isinstance(old, tuple) and isinstance(new, tuple) and len(old) == len(new):
        return tuple(pour(a, b) for a, b in zip(old, new))
    return new


def check(case, rec):
    P = pristine()
    rng = np.random.default_rng(case["seed"])
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        session(case, rec, rng, P)


def session(case, rec, rng, P):
    import matplotlib.pyplot as plt
    R = catalogue()
    names = sorted(R)
    jobs = []
    for i in rng.permutation(len(names))[: case["calls"]]:
        name, seed = names[int(i)], int(rng.integers(2**31))
        own = [(name, seed, 0)] + [(name, seed, int(rng.integers(1, 2**31))) for _ in range(case["variants"])]
        # arguments of another draw as well
        own.append((name, int(rng.integers(2**31)), 0))
        jobs.append(own)
    flat = [j for own in jobs for j in own]
    # each call alone in a process without history
    want = {}
    for own in jobs:
        for j in own:
            w = P.ask([j])
            rec.ev("fork")
            if w is None:
                raise core.Inconclusive(f"no answer from the other process for {j}")
            want[j] = w[0]
    order = [flat[int(i)] for i in rng.permutation(len(flat))]
    # neighbours of one call also directly after each other
    for own in jobs:
        order += [own[int(i)] for i in rng.permutation(len(own))]
    held = {}
    kept = []
    for j in order:
        name = j[0]
        if want[j] == "unbuilt":
            continue
        c23.COUNT[0] = 0
        try:
            args, fn, how = build(R, *j)
        except Exception as e:
            raise core.Violation(f"arguments of {name} that can be built in a new process cannot be built after other calls", err=repr(e))
        way = str(rng.choice(["new", "refilled", "reborn"]))
        old = held.pop(name, None)
        if way == "refilled" and old is not None and name not in c23.FIXED:
            args = pour(tuple(old), tuple(args))
            held[name] = args
        elif way == "new":
            held[name] = args
        del old
        rec.ev(way)
        rec.ev(how)
        try:
            res = fn(*args)
            got = numbers(res)
        except core.Violation:
            raise
        except Exception as e:
            res, got = None, repr(type(e))
        rec.ev("call")
        rec.tag(call=name)
        if isinstance(got, str) or isinstance(want[j], str):
            rec.ok(isinstance(got, str) and isinstance(want[j], str), f"{name} is refused or accepted depending on earlier calls",
                   here=str(got)[:200], new_process=str(want[j])[:200], variant=how)
            rec.ev("refused")
            continue
        compare(rec, got, want[j], f"{name} ({how}, {way} arguments) gives another result than in a new process")
        rec.ev("compared")
        if name not in c23.OWNED and isinstance(res, (np.ndarray, tuple, list)):
            if rng.random() < 0.4:
                for out in c23.arrays_in([res]):
                    if out.flags.writeable and out.size:
                        out[...] = 77 if out.dtype.kind != "b" else ~out
                        rec.ev("overwritten")
            else:
                kept.append((name, c23.arrays_in([res]), [np.array(v) for v in c23.arrays_in([res])]))
        if len(kept) > 12:
            # later calls leave alone what an earlier one returned
            for was, outs, copies in kept:
                rec.ok(core.digest(outs) == core.digest(copies), f"a result of {was} was changed by a later call")
                rec.ev("kept", len(outs))
            kept = kept[6:]
        del args, res
        plt.close("all")
    rec.nontrivial = True


def compare(rec, got, want, msg):
    rec.ok(len(got) == len(want), msg + ": another number of results", got=len(got), want=len(want))
    for a, b in zip(got, want):
        rec.shape(a, b.shape, msg)
        fin = np.isfinite(b) if b.dtype.kind in "fc" else np.ones(b.shape, bool)
        if a.dtype.kind in "fc":
            rec.ok(np.array_equal(np.isfinite(a), fin), msg + ": finite elsewhere")
        s = np.abs(b[fin]).max(initial=0)
        rec.close(np.where(fin, a, 0), np.where(fin, b, 0), msg, scale=float(s), atol=1e-12 if "retrieve" in msg else 1e-300)

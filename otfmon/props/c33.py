"""C33: results do not depend on how the given values are stored or passed."""
import collections
import os
import tempfile
import warnings

import numpy as np

from .. import core, drv, gen, ref
from . import c23

ID = "C33"
RULE = ("every kind of public call with array arguments (those of C23) is repeated with the same values stored otherwise: Fortran order, "
        "transposed, reversed, strided between foreign values, misaligned, the other byte order, read only, an array subclass, memory "
        "mapped from a file, other integer types; settings as Python or numpy floats or integral floats, in any keyword order or as "
        "ordered mappings; sequences as lists, tuples, arrays; every result is compared with that of plain C ordered arrays; "
        "non-trivial when the results are numbers")
ASSUMPTIONS = ["results are compared to 1e-9 of the largest value", "the foreign values between strided samples are NaN or the largest integer"]
MIN_EVENTS = {"call": 700, "stored": 2500, "fortran": 200, "transposed": 200, "reversed": 200, "strided": 200, "misaligned": 200, "swapped": 200,
              "readonly": 200, "subclass": 200, "mapped": 60, "inttype": 60, "settings": 240, "integral": 20, "sequence": 150}
CHUNK = 1


def cases(rng, tier):
    k = 1 if tier == "quick" else 20
    for _ in range(64 * k):
        yield dict(kind="calls", seed=int(rng.integers(2**31)), calls=26)
    for i in range(64 * k):
        yield dict(kind="settings", which=i % 8, seed=int(rng.integers(2**31)))
    for i in range(32 * k):
        yield dict(kind="sequences", seed=int(rng.integers(2**31)))


class Tagged(np.ndarray):
    """A subclass without behaviour of its own."""


def junk(dtype):
    if dtype.kind in "iu":
        return np.iinfo(dtype).max
    return True if dtype.kind == "b" else np.nan


def stored(a, form, g, folder):
    """The same values in other memory, None where the form does not apply."""
    if form == "fortran":
        out = np.asfortranarray(a)
    elif form == "transposed":
        ax = tuple(int(v) for v in g.permutation(a.ndim))
        out = np.ascontiguousarray(a.transpose(ax)).transpose(np.argsort(ax)) if a.ndim else a.copy()
    elif form == "reversed":
        s = tuple(slice(None, None, -1 if g.random() < 0.7 else 1) for _ in a.shape)
        out = a[s].copy()[s]
    elif form == "strided":
        big = np.full(tuple(2 * n + 1 for n in a.shape), junk(a.dtype), a.dtype)
        s = tuple(slice(1, None, 2) for _ in a.shape)
        big[s] = a
        out = big[s]
    elif form == "misaligned":
        raw = np.zeros(a.nbytes + 1, np.uint8)
        out = raw[1:].view(a.dtype).reshape(a.shape) if a.size and a.ndim else a.copy()
        out[...] = a
    elif form == "swapped":
        out = a.astype(a.dtype.newbyteorder())
    elif form == "readonly":
        out = a.copy()
        out.setflags(write=False)
    elif form == "subclass":
        out = a.copy().view(Tagged)
    elif form == "mapped":
        if not a.size:
            return None
        fd, path = tempfile.mkstemp(dir=folder)
        os.write(fd, a.tobytes())
        os.close(fd)
        out = np.memmap(path, dtype=a.dtype, mode="c", shape=a.shape)
    elif form == "inttype":
        if a.dtype.kind not in "iu" or not a.size:
            return None
        lo, hi = int(a.min()), int(a.max())
        fits = [t for t in "i1 i2 i4 i8".split() if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max and np.dtype(t) != a.dtype]
        if not fits:
            return None
        out = a.astype(str(g.choice(fits)))
    assert np.array_equal(out, a)
    return out


FORMS = ("fortran", "transposed", "reversed", "strided", "misaligned", "swapped", "readonly", "subclass", "mapped", "inttype")
# arrays that hold the answer's precision in their type
KEEP_TYPE = ("easy_fft", "fft_pad", "bin", "bin_one", "bin_shape", "center_data", "zernike_int")


def restore(x, form, g, folder, count):
    if isinstance(x, np.ndarray):
        out = stored(x, form, g, folder)
        if out is None:
            return x
        count[0] += 1
        return out
    if isinstance(x, dict):
        return {k: restore(v, form, g, folder, count) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(restore(v, form, g, folder, count) for v in x)
    return x


def same(rec, got, want, msg, atol=1e-300):
    rec.ok(len(got) == len(want), msg + ": another number of results", got=len(got), want=len(want))
    for a, b in zip(got, want):
        fin = np.isfinite(b) if b.dtype.kind in "fc" else np.ones(b.shape, bool)
        rec.shape(a, b.shape, msg)
        s = np.abs(b[fin]).max(initial=0)
        if a.dtype.kind in "fc":
            rec.ok(np.array_equal(np.isfinite(a), fin), msg + ": finite elsewhere")
        rec.close(np.where(fin, a, 0), np.where(fin, b, 0), msg, scale=float(s), atol=atol)


def values(res):
    return [np.array(v) for v in c23.leaves(res)]


def check(case, rec):
    rng = np.random.default_rng(case["seed"])
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        dict(calls=calls, settings=settings, sequences=sequences)[case["kind"]](case, rec, rng)
    rec.nontrivial = True


def calls(case, rec, rng):
    import matplotlib.pyplot as plt
    R = c23.catalogue()
    names = [n for n in sorted(R) if not n.endswith("Microscope")]
    with tempfile.TemporaryDirectory() as folder:
        for i in rng.permutation(len(names)):
            name, seed = names[int(i)], int(rng.integers(2**31))
            args, fn = R[name](np.random.default_rng(seed))
            if not c23.arrays_in(args):
                continue
            want = values(fn(*args))
            rec.ev("call")
            rec.tag(call=name)
            for form in rng.permutation(FORMS)[:5]:
                args, fn = R[name](np.random.default_rng(seed))
                if form == "inttype" and name in KEEP_TYPE:
                    continue
                n = [0]
                new = restore(tuple(args), str(form), rng, folder, n)
                if not n[0]:
                    continue
                try:
                    res = values(fn(*new))
                except Exception as e:
                    raise core.Violation(f"{name} fails for the same values stored otherwise ({form})", err=repr(e))
                # relative changes of an iteration are differences of nearly equal numbers
                same(rec, res, want, f"{name} depends on how the values are stored ({form})", atol=1e-11 if "retrieve" in name else 1e-300)
                rec.ev("stored")
                rec.ev(str(form))
            plt.close("all")


def number(g, v):
    """The same number of another type."""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return v
    forms = [v, float(v), np.float64(v)]
    if float(v) == np.float32(v):
        forms.append(float(np.float32(v)))
    if float(v).is_integer():
        forms.append(int(v))
    return forms[int(g.integers(len(forms)))]


SIZES = ("size", "zsize", "oversample_factor")


LENGTHS = ("wl", "wl_exc", "res", "zres", "pixel_size")


def integral(rng, cfg):
    """The configuration in whole nanometres (None where that is not possible)."""
    f = float(rng.uniform(400, 700)) / cfg["wl"]
    out = gen.coherent_scale(cfg, f)
    for k in LENGTHS:
        if out.get(k) is not None:
            out[k] = float(max(1, round(out[k])))
    if "zrange" in out:
        z = out["zrange"]
        out["zrange"] = [float(round(v)) for v in z] if isinstance(z, list) else float(round(z))
    for k in ("pinhole_size", "wiener", "na_exc"):
        if out.get(k) and rng.random() < 0.3 and (k != "na_exc" or out["ni"] > 1):
            out[k] = 1.0
    n = cfg.get("oversample_factor", 1)
    px = out.get("res", out.get("pixel_size")) / n
    for wl in {out["wl"], out.get("wl_exc") or out["wl"]}:
        if px >= 0.98 * wl / 2 / cfg["na"] or not gen.edge_clear(dict(out, wl=wl, res=px, size=cfg["size"] * n)):
            return None
        if ("dual" in cfg or str(cfg.get("model")).lower() == "sheppard") and out.get("zres", px * n) >= 0.98 * wl / 2 / cfg["ni"]:
            return None
    return out


def settings(case, rec, rng):
    which = case["which"]
    while True:
        if which < 2:
            kind = ("hanser", "sheppard")[which]
            cfg = c23.small_psf(rng, kind)[1]
            build = lambda c: c23.leaves(drv.psf_model(kind, c))
        else:
            cls = gen.MICROS[which - 2]
            cfg = gen.micro(rng, cls, sizes=(6, 7, 8), os=(1, 1, 3), planes=0.3)
            build = lambda c: c23.leaves(drv.microscope(cls, c))
        if rng.random() < 0.4:
            break
        cfg = integral(rng, cfg)
        if cfg is not None:
            rec.ev("integral")
            break
    want = [np.array(v) for v in build(dict(cfg))]
    for _ in range(4):
        new = {}
        for k in rng.permutation(sorted(cfg)):
            k = str(k)
            v = cfg[k]
            if k in SIZES:
                new[k] = v
            elif isinstance(v, list):
                new[k] = [number(rng, x) for x in v]
            elif isinstance(v, str):
                new[k] = np.str_(v) if rng.random() < 0.3 else v
            else:
                new[k] = number(rng, v)
        if rng.random() < 0.5:
            new = collections.OrderedDict(new)
        try:
            got = build(new)
        except Exception as e:
            raise core.Violation("an equal setting of another number type is refused", err=repr(e), settings={k: repr(v) for k, v in new.items()})
        same(rec, [np.array(v) for v in got], want, "results depend on the number type of the settings")
        rec.ev("settings")


def sequences(case, rec, rng):
    import pyotf.otf as otf
    import pyotf.phaseretrieval as pr
    import pyotf.utils as ut
    import pyotf.zernike as ze
    from pyotf.labview import labview
    cfg = gen.hanser(rng, sizes=(6, 7, 8, 9), max_ratio=0.95, zmode="list")
    z = np.array(cfg.pop("zrange"))
    forms = [list, tuple, np.array, lambda v: [np.float64(x) for x in v], lambda v: np.array(v)[None][0]]

    def each(name, make, values, ok=forms):
        want = None
        for f in ok:
            try:
                got = [np.array(v) for v in c23.leaves(make(f(values)))]
            except Exception as e:
                raise core.Violation(f"{name}: the same values in another sequence are refused", err=repr(e), given=repr(f(values)))
            if want is None:
                want = got
            same(rec, got, want, f"{name} depends on the type of the sequence")
        rec.ev("sequence")

    each("zrange", lambda v: otf.HanserPSF(zrange=v, **cfg), z.tolist())

    def assign(v):
        m = otf.HanserPSF(zrange=0.0, **cfg)
        m.PSFi
        m.zrange = v
        return m
    each("zrange assigned", assign, z.tolist())
    mc = gen.micro(rng, "SIM2DMicroscope", sizes=(6, 7, 8), os=(1,))
    ang = mc.pop("orientations")
    import pyotf.microscope as mi
    each("orientations", lambda v: mi.SIM2DMicroscope(orientations=v, **mc), ang)
    r, t = rng.uniform(0, 1.1, (4, 5)), rng.uniform(-3, 3, (4, 5))
    js = [int(v) for v in rng.integers(1, 60, 4)]
    ints = [list, tuple, np.array, lambda v: np.array(v, "i2")]
    each("Noll numbers", lambda v: ze.zernike(r, t, v), js, ints)
    each("numbers to degrees", lambda v: ze.noll2degrees(np.asarray(v)), js, ints)
    a = rng.uniform(0, 9, (9, 11))
    each("padding", lambda v: ut.fft_pad(a, v, mode="constant"), [int(v) for v in rng.integers(3, 20, 2)], ints)
    each("centre", lambda v: ut.radial_profile(a, v), rng.uniform(1, 8, 2).tolist())
    each("window", lambda v: a[ut.slice_maker(v, 4)], rng.uniform(1, 8, 2).tolist())
    d = rng.integers(0, 99, (3, 6, 7))
    c = gen.hanser(rng, sizes=(7,), vec="none", cond="none", zmode="zs", max_ratio=0.95)
    par = [c.get(k, 1.0) for k in ("wl", "na", "ni", "res")] + [c["zres"]]
    each("LabVIEW stacks", lambda v: labview(v, *par, max_iters=2), d.tolist(), [list, tuple, np.array, lambda v: np.asfortranarray(v)])
    names = [str(n) for n in rng.permutation(sorted(ze.name2noll))[:3]]
    amount = {n: float(rng.normal()) for n in names}
    m = drv.hanser(dict(cfg, zrange=z.tolist()))
    each("named aberrations", lambda v: otf.apply_named_aberrations(m, v), amount,
         [dict, collections.OrderedDict, lambda v: dict(reversed(list(v.items()))), lambda v: {np.str_(k): np.float64(x) for k, x in v.items()}])
    rr = pr.retrieve_phase(rng.uniform(0, 50, (3, 7, 7)), dict(zip(("wl", "na", "ni", "res", "zres"), par)), max_iters=2)
    each("planes of a generated PSF", lambda v: rr.generate_psf(zrange=v), rng.uniform(-1, 1, 3).tolist())

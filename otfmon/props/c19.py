"""C19: radial profile is the mean and spread over rings of rounded radius."""
import math

import numpy as np

ID = "C19"
RULE = ("random 2D data (real, complex, nine integer types near their limits, constant, signed, huge offset), square or not, odd "
        "and even, default, integer, fractional and outside centres as tuple, list or array, bin sizes below and above one; every "
        "ring recomputed from its members in plain Python")
ASSUMPTIONS = ["configurations where a radius is half way between two rings are not judged",
               "the spread is compared to 1e-12 of the largest value"]
MIN_EVENTS = {"profile": 500, "ring": 4000, "empty_ring": 200, "complex": 60, "integer": 150}
CHUNK = 15
DTYPES = ("float64", "float64", "complex128", "uint8", "int8", "uint16", "int16", "int32", "int64", "bool", "float32", "complex64", "float16")


def cases(rng, tier):
    for rep in range(2500 if tier == "quick" else 12000):
        ny, nx = (int(v) for v in rng.integers(1, 24, 2))
        if rng.random() < 0.02:
            ny, nx = (int(v) for v in rng.integers(30, 150, 2))
        k = rng.random()
        if k < 0.4:
            c = None
        elif k < 0.6:
            c = [int(rng.integers(0, ny)), int(rng.integers(0, nx))]
        elif k < 0.85:
            c = [float(rng.uniform(0, ny)), float(rng.uniform(0, nx))]
        else:
            c = [float(rng.uniform(-9, 2 * ny)), float(rng.uniform(-9, 2 * nx))]
        b = [1.0, 1.0, 1, 2, 3, 0.5, float(rng.uniform(0.2, 5)), 40.0][int(rng.integers(8))]
        yield dict(shape=[ny, nx], center=c, ctype=str(rng.choice(["tuple", "list", "array"])), binsize=b,
                   dtype=str(rng.choice(DTYPES)), kind=str(rng.choice(["random", "random", "constant", "offset", "extreme"])),
                   seed=int(rng.integers(2**31)))
    for rep in range(24 if tier == "quick" else 300):
        # many rings: very fine bins, far away centres
        ny, nx = (int(v) for v in rng.integers(1, 9, 2))
        far = rng.random() < 0.5
        c = [float(v) for v in 10 ** rng.uniform(2, 5.3, 2) * rng.choice([-1, 1, 0], 2)] if far else None
        yield dict(shape=[ny, nx], center=c, ctype="tuple", binsize=1.0 if far else float(10 ** rng.uniform(-5, -2)), dtype="float64",
                   kind="random", seed=int(rng.integers(2**31)))
    for shape, c in (([400, 601], None), ([512, 512], [250.3, 260.8]), ([1, 5000], None), ([3000, 2], [1, 1.2])):
        yield dict(shape=shape, center=c, ctype="array", binsize=float(rng.uniform(0.5, 3)), dtype=str(rng.choice(DTYPES)),
                   kind="offset", seed=int(rng.integers(2**31)))


def make(rng, shape, dtype, kind):
    dt = np.dtype(dtype)
    if dt.kind == "b":
        return rng.random(shape) < 0.5
    if dt.kind in "iu":
        i = np.iinfo(dtype)
        lo, hi = max(i.min, -10**9), min(i.max, 10**9)
        if kind == "constant":
            return np.full(shape, hi, dtype)
        if kind == "extreme":
            return rng.choice([lo, hi], shape).astype(dtype)
        return rng.integers(lo, hi, shape, endpoint=True).astype(dtype)
    a = rng.normal(size=shape)
    if kind == "constant":
        a = np.full(shape, 0.1 + rng.integers(5) / 7)
    if kind == "offset":
        a += 10.0 ** rng.integers(2, 11) * rng.choice([-1, 1])
    if kind == "extreme":
        a *= 10.0 ** rng.integers(-20, 20)
    if dt.kind == "c":
        a = a + 1j * rng.normal(size=shape) * np.abs(a).max()
    a = a.astype(dtype)
    return a if np.isfinite(a).all() else np.nan_to_num(a, posinf=1, neginf=-1)


def check(case, rec):
    from pyotf.utils import radial_profile
    rng = np.random.default_rng(case["seed"])
    ny, nx = case["shape"]
    a = make(rng, (ny, nx), case["dtype"], case["kind"])
    layout = int(rng.integers(4))
    if layout == 1:
        a = np.asfortranarray(a)
    elif layout == 2:
        a = np.repeat(np.repeat(a, 2, 0), 2, 1)[::2, ::2]
    elif layout == 3:
        a = a[::-1, ::-1]
    keep = a.copy()
    c, b = case["center"], case["binsize"]
    cy, cx = (ny // 2, nx // 2) if c is None else c
    r = np.hypot(np.arange(ny)[:, None] - cy, np.arange(nx)[None, :] - cx) / b
    tie = np.abs(r % 1 - 0.5) < 1e-9 + 1e-14 * r.max()
    if tie.any():
        # half way between two rings: any of the usual rules, the same for all samples, is accepted
        if (np.abs(r % 1 - 0.5)[tie] > 0).any():
            rec.tag(skipped="within rounding of a tie")
            return
        rec.ev("tie")
    f = np.floor(r)
    rules = dict(even=np.rint(r), up=np.where(tie, f + 1, np.rint(r)), down=np.where(tie, f, np.rint(r)))
    rec.tag(dtype=case["dtype"], kind=case["kind"], center="default" if c is None else "given", bin=min(b, 6) // 1)
    kw = {}
    if c is not None:
        kw["center"] = {"tuple": tuple, "list": list, "array": np.array}[case["ctype"]](c)
    if b != 1 or rng.random() < 0.3:
        kw["binsize"] = b
    mean, std = radial_profile(a, **kw)
    big = max(float(np.abs(a.astype(complex)).max()), 1e-300)
    for ring in rules.values():
        rings = {}
        for i, v in zip(ring.astype(int).ravel(), a.ravel()):
            rings.setdefault(int(i), []).append(complex(v))
        n = max(rings) + 1
        if not tie.any() or (len(mean) == n and all(abs(mean[i] - sum(v) / len(v)) <= 1e-8 * big for i, v in rings.items())):
            break
    else:
        rec.ok(False, "no rule for samples half way between two rings explains the profile", got=mean)
    rec.shape(mean, (n,), "radial mean")
    rec.shape(std, (n,), "radial spread")
    rec.ok(np.iscomplexobj(mean) == (a.dtype.kind == "c") and not np.iscomplexobj(std), "type of the profile")
    s = max(float(np.abs(a.astype(complex)).max()), 1e-300)
    rec.nontrivial = n > 1
    empty = np.ones(n, bool)
    empty[list(rings)] = False
    rec.ok(np.isnan(mean[empty]).all() and np.isnan(std[empty]).all(), "an empty ring is not NaN",
           ring=np.flatnonzero(empty & ~(np.isnan(mean) & np.isnan(std)))[:5])
    rec.ev("empty_ring", int(min(empty.sum(), 100)))
    for i, v in rings.items():
        m = complex(math.fsum(z.real for z in v) / len(v), math.fsum(z.imag for z in v) / len(v))
        sd = math.sqrt(math.fsum(abs(z - m) ** 2 for z in v) / len(v))
        rec.ok(np.isfinite(mean[i]) and np.isfinite(std[i]), "a ring with samples is not finite", ring=i, mean=mean[i], std=std[i])
        rec.ok(abs(mean[i] - m) <= 1e-12 * s, "radial mean is not that of the ring's samples", ring=i, got=mean[i], want=m, samples=len(v))
        rec.ok(abs(std[i] - sd) <= 1e-12 * s, "radial spread is not that of the ring's samples", ring=i, got=std[i], want=sd, samples=len(v))
        rec.ev("ring")
    rec.ev("profile")
    if a.dtype.kind == "c":
        rec.ev("complex")
    if a.dtype.kind in "iub":
        fm, fs = radial_profile(a.astype(float), **kw)
        rec.close(mean, fm, "integer data give another mean than floating point", rtol=1e-12, scale=s)
        rec.close(std, fs, "integer data give another spread than floating point", rtol=1e-12, scale=s)
        rec.ev("integer")
    rec.ok(np.array_equal(a, keep), "the input was modified")

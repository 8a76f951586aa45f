"""C17: shifted Fourier transforms are exact, mutually inverse, unitary up to scale."""
import numpy as np

from .. import ref

ID = "C17"
RULE = ("random arrays of one to four dimensions, lengths 1 to 40 (one axis up to 1300) of both parities, real, complex, integer, boolean and single "
        "precision, every way of giving axes (omitted, None, tuples with negative entries, subsets in any order), non-contiguous views; "
        "compared with explicit Fourier sums over centred coordinates")
ASSUMPTIONS = ["equalities to 1e-9 of the largest value (double precision)"]
MIN_EVENTS = {"forward": 440, "inverse": 440, "round_trip": 880, "parseval": 440, "delta": 172, "hermitian": 134, "partial_axes": 150}
CHUNK = 25
DTYPES = ("float64", "complex128", "int64", "uint8", "int16", "bool", "float32", "complex64")


def cases(rng, tier):
    for rep in range(800 if tier == "quick" else 20000):
        nd = int(rng.integers(1, 5)) if rng.random() < 0.96 else int(rng.integers(5, 7))
        top = {1: 60, 2: 41, 3: 17, 4: 8}.get(nd, 5)
        shape = [int(v) for v in rng.integers(1, top, nd)]
        if rng.random() < 0.15:
            # one long axis
            shape[int(rng.integers(nd))] = int(rng.integers(40, {1: 1300, 2: 300, 3: 140, 4: 70}.get(nd, 41)))
        k = rng.random()
        if k < 0.25:
            axes = "omitted"
        elif k < 0.4:
            axes = None
        else:
            sub = [int(v) for v in rng.permutation(nd)[:int(rng.integers(1, nd + 1))]]
            if rng.random() < 0.5:
                sub = [a - nd if rng.random() < 0.5 else a for a in sub]
            axes = sub
        yield dict(shape=shape, axes=axes, dtype=str(rng.choice(DTYPES)), layout=str(rng.choice(["c", "c", "f", "view"])),
                   seed=int(rng.integers(2**31)))
    # millions of samples
    for shape, axes, dt in (([100, 210, 200], [1, 2], "complex128"), ([60, 130, 140], None, "float64"),
                            ([6, 20, 100, 90], [1, 2, 3], "complex128"), ([3000, 400], [1], "float64")):
        yield dict(shape=shape, axes=axes, dtype=dt, layout="c", seed=int(rng.integers(2**31)))


def vary(rng, a):
    """Other ranges of values: large, small, of one sign, mostly zero, mostly equal, on a large offset."""
    k = rng.random()
    if a.dtype.kind == "b" or k < 0.4:
        return a
    if a.dtype.kind == "i":
        hi = int(rng.choice([2, 120, 250, 30000, 2 ** 40]))
        a = rng.integers(-hi - 5, hi + 6, a.shape)
    elif k < 0.6:
        a = a * 10.0 ** rng.integers(-15, 15)
    if 0.6 < k < 0.75:
        a = a * (rng.random(a.shape) < 0.1)
    elif k < 0.85:
        a = -abs(a) if a.dtype.kind != "c" else a * -1j
    elif k < 0.92:
        a = a - 7 * abs(a).max() - 1
    return a


def make(rng, shape, dtype, layout):
    kind = np.dtype(dtype).kind
    big = [2 * n for n in shape] if layout == "view" else shape
    if kind == "c":
        a = rng.normal(size=big) + 1j * rng.normal(size=big)
    elif kind == "f":
        a = rng.normal(size=big)
    elif kind == "b":
        a = rng.random(big) < 0.5
    else:
        a = rng.integers(0, 100, big)
    a = vary(rng, a).astype(dtype)
    if layout == "view":
        a = a[tuple(slice(None, None, -2) for _ in shape)]
    return np.asfortranarray(a) if layout == "f" else a


def check(case, rec):
    from pyotf.utils import easy_fft, easy_ifft
    rng = np.random.default_rng(case["seed"])
    shape, axes = tuple(case["shape"]), case["axes"]
    a = make(rng, shape, case["dtype"], case["layout"])
    full = axes in ("omitted", None)
    ax = tuple(range(len(shape))) if full else tuple(k % len(shape) for k in axes)
    kw = {} if axes == "omitted" else dict(axes=None if axes is None else tuple(axes))
    rec.tag(nd=len(shape), dtype=case["dtype"], axes="all" if full else len(ax), odd=any(shape[k] % 2 for k in ax))
    N = np.prod([shape[k] for k in ax], dtype=float)
    tol = 1e-4 if case["dtype"] in ("float32", "complex64") else 1e-9
    exact = a.astype(complex)
    keep = a.copy()
    F, B = easy_fft(a, **kw), easy_ifft(a, **kw)
    wF = ref.cft(exact, ax)
    rec.close(F, wF, "easy_fft is not the centred Fourier sum", rtol=tol)
    rec.ev("forward")
    rec.close(B, ref.icft(exact, ax), "easy_ifft is not the centred inverse Fourier sum", rtol=tol)
    rec.ev("inverse")
    rec.close(easy_ifft(F, **kw), exact, "easy_ifft does not undo easy_fft", rtol=tol)
    rec.close(easy_fft(B, **kw), exact, "easy_fft does not undo easy_ifft", rtol=tol)
    rec.ev("round_trip", 2)
    rec.close((np.abs(F) ** 2).sum() / N, (np.abs(exact) ** 2).sum(), "energy is not preserved", rtol=max(tol, 1e-9) * 10)
    rec.ev("parseval")
    rec.ok((a == keep).all(), "the input was modified")
    if not full:
        rec.ev("partial_axes")
    if full:
        d = np.zeros(shape)
        c = tuple(n // 2 for n in shape)
        d[c] = 1
        rec.close(easy_fft(d, **kw), np.ones(shape, complex), "delta at the centre does not transform to a constant", rtol=1e-12)
        one = easy_ifft(np.ones(shape), **kw)
        rec.close(one, d.astype(complex), "constant does not transform back to a delta at the centre", rtol=1e-12)
        rec.ev("delta")
        rec.close(F[c], exact.sum(), "centre sample of the transform is not the sum", rtol=tol, scale=max(np.abs(exact).sum(), 1e-300))
        if a.dtype.kind != "c":
            H = F[tuple(slice(1 - n % 2, None) for n in shape)]
            rec.close(np.conj(H[(slice(None, None, -1),) * len(shape)]), H, "transform of real data is not Hermitian", rtol=tol,
                      scale=max(np.abs(wF).max(), 1e-300))
            rec.ev("hermitian")

"""C27: plot extents and refraction scaling match the sampling and geometry."""
from fractions import Fraction

import numpy as np

ID = "C27"
RULE = ("random and all small sample counts with random spacings (Python and numpy numbers, 1e-9 to 1e6) through max_min and fft_max_min; "
        "random index pairs and chains, equal indices, apertures below, at and above the indices through z_squeeze, compared with "
        "definitions evaluated in rational or extended precision; non-trivial always")
ASSUMPTIONS = ["relative accuracy 1e-12 for extents, 1e-6 (less for small apertures, where the difference cancels) for scalings"]
MIN_EVENTS = {"extent": 2200, "fourier_extent": 2200, "scaling": 2000, "identity": 500, "reciprocal": 1000, "chain": 1000, "beyond": 150,
              "array_coordinates": 300}
CHUNK = 10


def cases(rng, tier):
    for _ in range(40 if tier == "quick" else 1000):
        yield dict(seed=int(rng.integers(2**31)), counts=100)


def bandwidth(n, na):
    n, na = np.longdouble(n), np.longdouble(na)
    # n - sqrt(n^2 - NA^2) without cancellation
    return na ** 2 / (n + np.sqrt(n ** 2 - na ** 2)) if n > na else n


def check(case, rec):
    from pyotf.display import fft_max_min, max_min, z_squeeze
    rng = np.random.default_rng(case["seed"])
    rec.nontrivial = True

    def pair(x, msg):
        rec.ok(isinstance(x, tuple) and len(x) == 2, msg + ": a pair is expected", got=repr(x))
        return [float(v) for v in x]

    for i in range(case["counts"]):
        n = int(rng.integers(1, 40)) if rng.random() < 0.6 else int(10 ** rng.uniform(0, 6))
        d = float(10 ** rng.uniform(-9, 6)) if rng.random() < 0.5 else float(rng.choice([1, 2, 0.5, 3, 0.1, 130]))
        if rng.random() < 0.2:
            d = int(rng.integers(1, 500))
        nn = rng.choice([n]).astype(str(rng.choice(["int64", "int32"]))) if rng.random() < 0.3 else n
        dd = np.float64(d) if rng.random() < 0.2 else d
        lo, hi = -(n // 2), n - 1 - n // 2  # indices of the first and last sample
        want = [float(Fraction(lo) * Fraction(d)), float(Fraction(hi) * Fraction(d))]
        rec.close(pair(max_min(nn, dd), "max_min"), want, "max_min is not the range of the samples", rtol=1e-12, n=n, d=d)
        rec.ev("extent")
        want = [float(Fraction(lo) / Fraction(d) / n), float(Fraction(hi) / Fraction(d) / n)]
        rec.close(pair(fft_max_min(nn, dd), "fft_max_min"), want, "fft_max_min is not the range of the frequencies", rtol=1e-12, n=n, d=d)
        rec.ev("fourier_extent")
        if n < 300:
            f = np.fft.fftshift(np.fft.fftfreq(n, d))
            rec.close(pair(fft_max_min(n, d), "fft_max_min"), [f[0], f[-1]], "fft_max_min differs from the frequency axis", rtol=1e-12, n=n, d=d)
            rec.ev("array_coordinates")

        n1, n2, n3 = (float(v) for v in rng.uniform(1, 2.5, 3))
        na = float(rng.uniform(0.2, 1)) if rng.random() < 0.7 else float(rng.uniform(0.5, 2.4))
        k = rng.random()
        if k < 0.1:
            na = n1
        elif k < 0.15:
            n1 = float(np.nextafter(n2, 3))
        elif k < 0.35:
            # nearly the same medium
            n1 = n2 + float(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-8, -2))
        if rng.random() < 0.1:
            n1, n2 = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        b1, b2 = bandwidth(n1, na), bandwidth(n2, na)
        got = z_squeeze(n1, n2, na)
        rec.ok(np.ndim(got) == 0 and np.isfinite(got) and got > 0, "z_squeeze is not a positive number", got=repr(got))
        # near NA the square root amplifies the rounding of its argument
        tol = max(1e-9, 5e-16 * (n1 / na) ** 2)
        if min(abs(n1 - na), abs(n2 - na)) < 1e-6:
            tol = 1e-6
        rec.close(float(got), float(b1 / b2), "z_squeeze is not the ratio of the axial bandwidths", rtol=tol, n1=n1, n2=n2, na=na)
        rec.ev("scaling")
        if na > min(n1, n2):
            rec.ev("beyond")
        rec.close(float(z_squeeze(n2, n1, na)) * float(got), 1.0, "z_squeeze is not reciprocal", rtol=1e-9, n1=n1, n2=n2, na=na)
        rec.ev("reciprocal")
        rec.close(float(got) * float(z_squeeze(n2, n3, na)), float(z_squeeze(n1, n3, na)), "z_squeeze is not multiplicative", rtol=1e-9,
                  n1=n1, n2=n2, n3=n3, na=na)
        rec.ev("chain")
        if i % 3 == 0:
            rec.ok(z_squeeze(n2, n2, na) == 1, "z_squeeze of equal indices is not one", n=n2, na=na)
            rec.ev("identity")
